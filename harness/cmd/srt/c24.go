package main

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"sync"
	"time"

	"github.com/sbraveyoung/GGmpeg/libsrt"
	"pgregory.net/rapid"

	"verif/harness/eng"
	"verif/harness/ref"
)

// ---------------------------------------------------------------- C24 ----

type c24op struct {
	Caller int    `json:"c"`
	Op     string `json:"op"`
	D      int32  `json:"d,omitempty"` // data: distance from the next expected number
	Size   int    `json:"n,omitempty"`
	Fill   uint32 `json:"s,omitempty"`
	X      uint32 `json:"x,omitempty"`
}

type c24 struct {
	ISN  []uint32 `json:"isn"`
	Ops  []c24op  `json:"ops"`
	Idle bool     `json:"idle,omitempty"` // at the end the callers pause for 12 s, with keepalives, or send data now and then
	Sess bool     `json:"sess,omitempty"` // the application tells the callers apart
}

func genC24(t *rapid.T) c24 {
	var c c24
	n := rapid.IntRange(1, 3).Draw(t, "callers")
	for i := 0; i < n; i++ {
		c.ISN = append(c.ISN, genSeq31(t, "isn"))
	}
	kinds := []string{"data", "data", "data", "data", "data", "data", "data", "late", "gap", "ind", "conc", "stale", "nocookie", "badcookie", "othercookie", "keep", "shut", "restart", "garbage", "wait", "big", "hello", "refuse"}
	ops := rapid.IntRange(3, 40).Draw(t, "ops")
	for i := 0; i < ops; i++ {
		o := c24op{Caller: rapid.IntRange(0, n-1).Draw(t, "c"), Op: rapid.SampledFrom(kinds).Draw(t, "op")}
		if i < n && rapid.IntRange(0, 3).Draw(t, "early") > 0 { // most sessions start properly
			o = c24op{Caller: i, Op: "hello"}
		}
		o.Fill = rapid.Uint32().Draw(t, "fill")
		o.X = rapid.Uint32().Draw(t, "x")
		switch o.Op {
		case "data", "late", "gap", "big", "refuse":
			o.Size = rapid.OneOf(rapid.IntRange(0, 20), rapid.SampledFrom([]int{188, 1316, 1456, 1484})).Draw(t, "size")
			switch o.Op {
			case "late":
				o.D = -rapid.OneOf(rapid.Int32Range(1, 5), rapid.Int32Range(1, 1<<30-1)).Draw(t, "d")
			case "gap":
				o.D = rapid.Int32Range(1, 6).Draw(t, "d")
			case "big":
				o.D = rapid.Int32Range(1, 1<<30-1).Draw(t, "d")
			}
		}
		c.Ops = append(c.Ops, o)
	}
	c.Idle = rapid.IntRange(0, 199).Draw(t, "idle") == 77
	c.Sess = rapid.Bool().Draw(t, "sessions")
	return c
}

type srtCaller struct {
	conn   *net.UDPConn
	id     uint32
	cookie uint32
	state  int // 0 unknown, 1 cookie received, 2 established
	dest   uint32
	next   uint32 // model: next expected sequence number
	isn    uint32
	oldID  uint32
	sess   int // the session its payloads go to, 0 before the first one
}

var srtRefuse = []byte("the application refuses this payload")

type srtPkt struct {
	hdr  []byte
	typ  int // control type, -1 for data
	body []byte
}

// collect reads everything that has arrived already: a barrier was passed, so
// every reply has been sent.
func (s *srtCaller) collect() (out []srtPkt, err error) {
	buf := make([]byte, 2000)
	for {
		s.conn.SetReadDeadline(time.Now().Add(3 * time.Millisecond))
		n, err := s.conn.Read(buf)
		if err != nil {
			return out, nil
		}
		if n < 16 {
			return nil, fmt.Errorf("the listener sent a packet of %d bytes", n)
		}
		b := append([]byte(nil), buf[:n]...)
		p := srtPkt{hdr: b[:16], typ: -1, body: b[16:]}
		if b[0]&0x80 != 0 {
			p.typ = int(b[0]&0x7f)<<8 | int(b[1])
		}
		if d := u32(b[12:]); d != s.id {
			if !(d == s.oldID) {
				return nil, fmt.Errorf("a packet of type %d for caller %#x is addressed to socket %#x", p.typ, s.id, d)
			}
		}
		out = append(out, p)
	}
}

func u32(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

func hsBody(version, isn uint32, typ int32, id, cookie uint32) []byte {
	return be(version, 2, isn, 1500, 8192, uint32(typ), id, cookie, 0x0100007f, 0, 0, 0)
}

func ctrlPkt(typ, sub uint16, info, dst uint32, body []byte) []byte {
	return append(be(0x80000000|uint32(typ)<<16|uint32(sub), info, 0, dst), body...)
}

func runC24(c *eng.Ctx, cs c24) error {
	type delivery struct {
		id   string
		b    []byte
		sess int
	}
	var mu sync.Mutex
	var got []delivery
	closed := map[int]int{}
	opened := 0
	take := func(id string, b []byte, sess int) error {
		mu.Lock()
		defer mu.Unlock()
		got = append(got, delivery{id, append([]byte(nil), b...), sess})
		if bytes.HasPrefix(b, srtRefuse) {
			return errors.New("refused")
		}
		return nil
	}
	var l *libsrt.Listener
	var addr *net.UDPAddr
	for try := 0; ; try++ {
		pc, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
		if err != nil {
			return eng.ErrInconclusive
		}
		addr = pc.LocalAddr().(*net.UDPAddr)
		pc.Close()
		if cs.Sess {
			l, err = libsrt.ListenSessions(addr.String(), "the-stream", func(id string) (func([]byte) error, func()) {
				mu.Lock()
				defer mu.Unlock()
				opened++
				n := opened
				return func(b []byte) error { return take(id, b, n) }, func() {
					mu.Lock()
					closed[n]++
					mu.Unlock()
				}
			})
		} else {
			l, err = libsrt.Listen(addr.String(), "the-stream", func(id string, b []byte) error { return take(id, b, 0) })
		}
		if err == nil {
			break
		}
		if try > 20 {
			return eng.ErrInconclusive
		}
	}
	done := make(chan struct{})
	go func() { defer close(done); l.Run() }()
	defer func() { l.Close(); <-done }()

	dial := func() (*net.UDPConn, error) { return net.DialUDP("udp", nil, addr) }
	bconn, err := dial()
	if err != nil {
		return eng.ErrInconclusive
	}
	defer bconn.Close()
	// the barrier caller: everything sent before is processed when its
	// keepalive comes back
	started := false
	barrier := func() error {
		buf := make([]byte, 2000)
		for try := 0; try < 40; try++ {
			if !started {
				bconn.Write(ctrlPkt(0, 0, 0, 0, hsBody(5, 7, 1, 0x7777, 0)))
			}
			bconn.Write(ctrlPkt(1, 0, 0, 0, nil))
			bconn.SetReadDeadline(time.Now().Add(500 * time.Millisecond))
			for {
				n, err := bconn.Read(buf)
				if err != nil {
					break
				}
				if n >= 16 && buf[0] == 0x80 && buf[1] == 1 {
					started = true
					return nil
				}
			}
		}
		return fmt.Errorf("the listener no longer answers a keepalive")
	}
	var callers []*srtCaller
	for i, isn := range cs.ISN {
		conn, err := dial()
		if err != nil {
			return eng.ErrInconclusive
		}
		defer conn.Close()
		callers = append(callers, &srtCaller{conn: conn, id: 0x1000 + uint32(i), isn: isn})
	}
	if err := barrier(); err != nil {
		return err
	}
	wantDelivered := 0
	lastAck := time.Now()
	_ = lastAck
	established, gaps := false, false
	for i, o := range cs.Ops {
		s := callers[o.Caller%len(callers)]
		step := func(what string, pkt []byte) (map[int][]srtPkt, error) {
			if _, err := s.conn.Write(pkt); err != nil {
				return nil, eng.ErrInconclusive
			}
			if err := barrier(); err != nil {
				return nil, fmt.Errorf("op %d (%s): %v", i, what, err)
			}
			out := map[int][]srtPkt{}
			for j, x := range callers {
				ps, err := x.collect()
				if err != nil {
					return nil, fmt.Errorf("op %d (%s): %v", i, what, err)
				}
				if x != s && len(ps) > 0 {
					return nil, fmt.Errorf("op %d (%s) of caller %d made the listener send %d packets (type %d) to caller %d", i, what, o.Caller, len(ps), ps[0].typ, j)
				}
				if x == s {
					for _, p := range ps {
						out[p.typ] = append(out[p.typ], p)
					}
				}
			}
			return out, nil
		}
		// which sessions the application was told of, and which have ended
		sessions := func(what string) error {
			mu.Lock()
			defer mu.Unlock()
			if !cs.Sess {
				return nil
			}
			live := map[int]bool{}
			for _, x := range callers {
				if x.sess != 0 {
					live[x.sess] = true
				}
			}
			for n := 1; n <= opened; n++ {
				if want := 1; live[n] {
					if closed[n] > 0 {
						return fmt.Errorf("op %d (%s): the application was told that a running session is over", i, what)
					}
				} else if closed[n] != want {
					return fmt.Errorf("op %d (%s): the application was told %d times that a session is over", i, what, closed[n])
				}
			}
			return nil
		}
		noDelivery := func(what string) error {
			mu.Lock()
			defer mu.Unlock()
			if len(got) != wantDelivered {
				return fmt.Errorf("op %d (%s): %d payloads delivered, want %d", i, what, len(got), wantDelivered)
			}
			return nil
		}
		induct := func() error {
			r, err := step("induction", ctrlPkt(0, 0, 0, 0, hsBody(5-o.X&1, s.isn, 1, s.id, 0)))
			if err != nil {
				return err
			}
			hs := r[0]
			if len(hs) != 1 || len(hs[0].body) < 48 {
				return fmt.Errorf("op %d: an induction got %d handshake replies", i, len(hs))
			}
			b := hs[0].body
			if typ, id, ck := u32(b[20:]), u32(b[24:]), u32(b[28:]); typ != 1 || id == 0 || ck == 0 {
				return fmt.Errorf("op %d: induction reply has type %d, socket %#x, cookie %#x", i, typ, id, ck)
			}
			ck := u32(b[28:])
			if s.cookie != 0 && s.state > 0 && ck != s.cookie && s.state == 1 {
				// a new cookie is fine as long as it is the one that works now
				c.Class("new cookie for a repeated induction")
			}
			for _, x := range callers {
				if x != s && x.cookie != 0 && x.cookie == ck {
					return fmt.Errorf("op %d: two addresses got the same cookie %#x", i, ck)
				}
			}
			if s.state < 2 {
				s.state = 1
				s.cookie = ck
			} else if ck != s.cookie {
				c.Class("new cookie while established")
			}
			s.dest = u32(b[24:])
			return nil
		}
		conclude := func() error {
			r, err := step("conclusion", ctrlPkt(0, 0, 0, 0, hsBody(5, s.isn, -1, s.id, s.cookie)))
			if err != nil {
				return err
			}
			hs := r[0]
			if len(hs) != 1 || len(hs[0].body) < 48 {
				return fmt.Errorf("op %d: a conclusion with the right cookie got %d handshake replies", i, len(hs))
			}
			b := hs[0].body
			if typ, id := int32(u32(b[20:])), u32(b[24:]); typ != -1 || id != s.dest {
				return fmt.Errorf("op %d: conclusion reply has type %d and socket %#x (induction said %#x)", i, typ, id, s.dest)
			}
			if ext := uint16(b[6])<<8 | uint16(b[7]); ext != 0 && len(b) == 48 {
				return fmt.Errorf("op %d: conclusion reply announces handshake extensions (%#x) that it does not carry", i, ext)
			}
			if s.state < 2 {
				s.state = 2
				s.next = s.isn
				established = true
			}
			return nil
		}
		refused := func(what string, cookie uint32) error {
			// must not complete the handshake; probe with a data packet
			r, err := step(what, ctrlPkt(0, 0, 0, 0, hsBody(5, s.isn, -1, s.id, cookie)))
			if err != nil {
				return err
			}
			for _, p := range r[0] {
				if len(p.body) >= 48 && int32(u32(p.body[20:])) == -1 && s.state < 2 {
					return fmt.Errorf("op %d: handshake concluded for a caller with %s", i, what)
				}
			}
			if s.state < 2 {
				if _, err := step(what, append(be(s.isn, 0xe0000001, 0, s.dest), 1, 2, 3)); err != nil {
					return err
				}
			}
			c.Class(what)
			return noDelivery(what)
		}
		c.Class("op " + o.Op)
		switch o.Op {
		case "hello":
			if s.state == 2 {
				continue
			}
			if err := induct(); err != nil {
				return err
			}
			if err := conclude(); err != nil {
				return err
			}
		case "ind":
			if s.state == 2 {
				// repeated induction of a running session: must not disturb it
				c.Class("repeated induction")
			}
			if err := induct(); err != nil {
				return err
			}
		case "conc":
			if s.state == 0 {
				continue
			}
			if s.state == 2 {
				c.Class("repeated conclusion")
			}
			if err := conclude(); err != nil {
				return err
			}
		case "nocookie":
			if s.state < 2 {
				if err := refused("cookie 0", 0); err != nil {
					return err
				}
			}
		case "badcookie":
			if s.state < 2 && o.X != s.cookie {
				if err := refused("a guessed cookie", o.X); err != nil {
					return err
				}
			}
		case "othercookie":
			for _, x := range callers {
				if x != s && x.cookie != 0 && s.state < 2 {
					if err := refused("the cookie of another address", x.cookie); err != nil {
						return err
					}
					break
				}
			}
		case "stale":
			// data of a session that was never established
			if s.state < 2 {
				if _, err := step("data without a session", append(be(s.isn, 0xe0000001, 0, s.dest), 9, 9, 9)); err != nil {
					return err
				}
				if err := noDelivery("data without a session"); err != nil {
					return err
				}
			}
		case "keep":
			if s.state < 2 {
				continue
			}
			r, err := step("keepalive", ctrlPkt(1, 0, 0, s.dest, nil))
			if err != nil {
				return err
			}
			if len(r[1]) != 1 {
				return fmt.Errorf("op %d: a keepalive got %d answers", i, len(r[1]))
			}
		case "shut":
			if s.state < 2 {
				continue
			}
			if _, err := step("shutdown", ctrlPkt(5, 0, 0, s.dest, nil)); err != nil {
				return err
			}
			if _, err := step("data after shutdown", append(be(s.next, 0xe0000001, 0, s.dest), 8, 8, 8)); err != nil {
				return err
			}
			if err := noDelivery("data after shutdown"); err != nil {
				return err
			}
			s.state, s.cookie, s.sess = 0, 0, 0
			s.isn = o.X & (1<<31 - 1)
			if err := sessions("shutdown"); err != nil {
				return err
			}
		case "restart":
			if s.state < 2 {
				continue
			}
			s.oldID = s.id
			s.id += 0x10000
			s.isn = o.X & (1<<31 - 1)
			s.state, s.sess = 0, 0
			if err := induct(); err != nil {
				return err
			}
			if err := sessions("restart of a caller"); err != nil {
				return err
			}
			if err := conclude(); err != nil {
				return err
			}
		case "garbage":
			var pkt []byte
			switch o.X % 5 {
			case 0:
				pkt = ref.Fill(o.Fill, int(o.X>>8)%16)
			case 1:
				pkt = ctrlPkt(0, 0, 0, 0, ref.Fill(o.Fill, int(o.X>>8)%48))
			case 2: // ACKACK
				pkt = ctrlPkt(6, 0, o.X, s.dest, nil)
			case 3: // reserved control types
				pkt = ctrlPkt(uint16(8+o.X>>8%0x7ff0), uint16(o.Fill), o.X, s.dest, ref.Fill(o.Fill, 20))
			case 4: // a loss list from the caller
				pkt = ctrlPkt(3, 0, 0, s.dest, be(o.X|1<<31))
			}
			if len(pkt) == 0 {
				continue
			}
			if _, err := step("garbage", pkt); err != nil {
				return err
			}
			if err := noDelivery("garbage"); err != nil {
				return err
			}
		case "wait":
			time.Sleep(15 * time.Millisecond)
			if s.state < 2 {
				continue
			}
			fallthrough
		case "data", "late", "gap", "big", "refuse":
			if s.state < 2 {
				continue
			}
			seq := (s.next + uint32(o.D)) & (1<<31 - 1)
			payload := ref.Fill(o.Fill, o.Size)
			if o.Op == "refuse" {
				payload = append(append([]byte(nil), srtRefuse...), ref.Fill(o.Fill, o.Size%1400)...)
			}
			r, err := step(o.Op, append(be(seq, 0xe0000000|uint32(i), uint32(i)*1000, s.dest), payload...))
			if err != nil {
				return err
			}
			prev := s.next
			if o.D < 0 {
				if err := noDelivery("a packet sent again"); err != nil {
					return err
				}
				if len(r[3]) > 0 {
					return fmt.Errorf("op %d: a late packet made the listener report a loss", i)
				}
			} else {
				mu.Lock()
				n := len(got)
				var last delivery
				if n > 0 {
					last = got[n-1]
				}
				mu.Unlock()
				if n != wantDelivered+1 {
					return fmt.Errorf("op %d: packet %d (expected %d) delivered %d times", i, seq, prev, n-wantDelivered)
				}
				wantDelivered++
				if !bytes.Equal(last.b, payload) || last.id != "the-stream" {
					return fmt.Errorf("op %d: payload of packet %d changed (%d bytes, stream %q)", i, seq, len(last.b), last.id)
				}
				if cs.Sess {
					if s.sess == 0 {
						mu.Lock()
						s.sess = opened
						mu.Unlock()
						for _, x := range callers {
							if x != s && x.sess == s.sess {
								return fmt.Errorf("op %d: the application was not told of a new session", i)
							}
						}
					}
					if last.sess != s.sess {
						return fmt.Errorf("op %d: a payload of session %d was delivered to session %d", i, s.sess, last.sess)
					}
					if o.Op != "refuse" {
						if err := sessions(o.Op); err != nil {
							return err
						}
					}
				}
				if o.Op == "refuse" {
					// that ends the session
					if len(r[5]) != 1 {
						return fmt.Errorf("op %d: the application refused a payload and the caller got %d shutdown packets", i, len(r[5]))
					}
					s.sess = 0
					if err := sessions("refused payload"); err != nil {
						return err
					}
					if _, err := step("data after a refusal", append(be((seq+1)&(1<<31-1), 0xe0000001, 0, s.dest), 8, 8, 8)); err != nil {
						return err
					}
					if err := noDelivery("data after a refusal"); err != nil {
						return err
					}
					s.state, s.cookie = 0, 0
					s.isn = o.X & (1<<31 - 1)
					continue
				}
				s.next = (seq + 1) & (1<<31 - 1)
				var missing []byte
				if o.D == 1 {
					missing = be(prev)
				} else if o.D > 1 {
					missing = be(prev|1<<31, (seq-1)&(1<<31-1))
				}
				if o.D > 0 {
					gaps = true
					if s.next < prev {
						c.Class("gap across the wrap")
					}
					var rep []byte
					for _, p := range r[3] {
						rep = append(rep, p.body...)
					}
					if !bytes.Equal(rep, missing) {
						return fmt.Errorf("op %d: packets %d..%d are missing, the listener reported % x, want % x", i, prev, (seq-1)&(1<<31-1), rep, missing)
					}
				} else if len(r[3]) > 0 {
					return fmt.Errorf("op %d: nothing is missing but a loss was reported: % x", i, r[3][0].body)
				}
				if s.next == 0 {
					c.Class("sequence wrap")
				}
				if o.Op == "wait" && len(r[2]) == 0 {
					return fmt.Errorf("op %d: no acknowledgement for a packet 15 ms after the previous one", i)
				}
			}
			for _, a := range r[2] {
				if len(a.body) < 4 {
					return fmt.Errorf("op %d: ACK of %d bytes", i, len(a.body))
				}
				if n := u32(a.body); n != s.next {
					return fmt.Errorf("op %d: acknowledged %d, next expected packet is %d", i, n, s.next)
				}
				c.Class("ack")
			}
			for typ := range r {
				if typ != 2 && typ != 3 {
					return fmt.Errorf("op %d: a data packet was answered with a packet of type %d", i, typ)
				}
			}
		}
	}
	if cs.Idle && established {
		c.Class("long pause with keepalives")
		for sec := 0; sec < 12; sec++ {
			time.Sleep(time.Second)
			for i, s := range callers {
				if s.state != 2 {
					continue
				}
				if (uint32(i)+cs.ISN[0])&1 == 0 {
					s.conn.Write(ctrlPkt(1, 0, 0, s.dest, nil))
				} else {
					s.conn.Write(append(be(s.next, 0xe0000001, 0, s.dest), 6, 6))
					s.next = (s.next + 1) & (1<<31 - 1)
					wantDelivered++
				}
			}
			if err := barrier(); err != nil {
				return err
			}
		}
		for i, s := range callers {
			if s.state < 2 {
				continue
			}
			if _, err := s.conn.Write(append(be(s.next, 0xe0000001, 0, s.dest), 7, 7, byte(i))); err != nil {
				return eng.ErrInconclusive
			}
			if err := barrier(); err != nil {
				return err
			}
			wantDelivered++
			mu.Lock()
			n := len(got)
			mu.Unlock()
			if n != wantDelivered {
				return fmt.Errorf("caller %d had nothing to send for 12 s but keepalives or a packet a second; its next packet was delivered %d times", i, n-wantDelivered+1)
			}
		}
	}
	if established && wantDelivered > 1 && gaps {
		c.NonTrivial()
	}
	return nil
}

func init() {
	eng.Register("C24", eng.Opts{
		Rule:      "histories with an established session, at least two delivered payloads and a gap",
		Quick:     eng.Budget{Shards: 8, Cases: 120, Wall: 60 * time.Second},
		Thorough:  eng.Budget{Shards: 8, Cases: 3000, Wall: 12 * time.Minute},
		Net:       true,
		HangLimit: 60 * time.Second,
		Assumptions: []string{"datagrams sent one after the other over loopback reach one socket in order",
			"the listener keeps no reorder buffer (documented): a packet older than the newest delivered one is dropped"},
	}, genC24, runC24)
}
