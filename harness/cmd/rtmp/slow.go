package main

import (
	"fmt"
	"net"
	"runtime"
	"sync"
	"time"

	"pgregory.net/rapid"

	"verif/harness/eng"
	"verif/harness/ref"
	"verif/harness/wire"
)

// ------------------------------------------------------------------ C33 ----
//
// Viewers that stop reading for a while, or for good.

const (
	keptMsgs  = 2000      // a viewer less than that behind,
	keptBytes = 60 << 20  // in messages and bytes, loses nothing
	gopMsgs   = 8192      // a group of pictures up to that
	gopBytes  = 128 << 20 // is kept for new viewers
)

type sphase struct {
	N    int `json:"n"`
	GOP  int `json:"gop"`  // a keyframe every so many messages, 0: none
	Size int `json:"size"` // average
	Hdr  int `json:"hdr"`  // a header every so many messages, 0: none
}
type sview struct {
	Kind   int  `json:"kind"` // RTMP, HTTP-FLV, WebSocket, RTSP
	Join   int  `json:"join"` // phase before which it joins
	Stall  int  `json:"stall"`
	Resume int  `json:"resume"` // <= Stall: never
	Late   bool `json:"late"`   // resumes after the publisher left
}
type slow struct {
	Phases []sphase `json:"phases"`
	Views  []sview  `json:"views"`
	Seed   uint32   `json:"seed"`
	Leave  int      `json:"leave"`
	Again  bool     `json:"again"` // the name is published again
	Flood  bool     `json:"flood"` // too much to be kept: memory is measured
}

func genC33(t *rapid.T) slow {
	c := slow{Seed: rapid.Uint32Range(1, 1<<20).Draw(t, "seed"), Leave: rapid.IntRange(1, 3).Draw(t, "leave"), Again: rapid.Bool().Draw(t, "again")}
	c.Flood = rapid.IntRange(0, 11).Draw(t, "flood") == 7
	n := rapid.IntRange(2, 5).Draw(t, "phases")
	for i := 0; i < n; i++ {
		p := sphase{
			N:    rapid.SampledFrom([]int{30, 300, 1500, 2500, 5000, 9000}).Draw(t, "n") + rapid.IntRange(0, 50).Draw(t, "more"),
			GOP:  rapid.SampledFrom([]int{0, 7, 25, 250, 2500, 6000}).Draw(t, "gop"),
			Size: rapid.SampledFrom([]int{30, 300, 1200, 2500, 5000, 15000}).Draw(t, "size"),
			Hdr:  rapid.SampledFrom([]int{0, 0, 100, 1000, 11}).Draw(t, "hdr"),
		}
		if lim := (20 + p.Size/1000) << 20; p.N*p.Size > lim {
			p.N = lim / p.Size
		}
		c.Phases = append(c.Phases, p)
	}
	if c.Flood {
		p := &c.Phases[rapid.IntRange(0, n-1).Draw(t, "which")]
		if rapid.Bool().Draw(t, "fat") {
			p.Size = rapid.SampledFrom([]int{30000, 120000, 400000}).Draw(t, "fatsize")
			p.N = 280 << 20 / p.Size
		} else {
			p.N, p.Size = 120000, 25
		}
		p.GOP = rapid.SampledFrom([]int{0, 0, 50, 1000}).Draw(t, "floodgop")
		p.Hdr = min(p.Hdr, 100) / 100 * 1000
	}
	for i := rapid.IntRange(1, 4).Draw(t, "views"); i > 0; i-- {
		v := sview{Kind: rapid.SampledFrom([]int{0, 1, 2, 0, 1, 2, 3}).Draw(t, "kind"), Join: rapid.IntRange(0, n-1).Draw(t, "join"), Late: rapid.Bool().Draw(t, "late")}
		v.Stall = v.Join + rapid.IntRange(0, n-v.Join).Draw(t, "stall")
		v.Resume = v.Stall + rapid.IntRange(0, n-v.Stall+1).Draw(t, "resume")
		c.Views = append(c.Views, v)
	}
	return c
}

// gate is a connection whose reading can be stopped.
type gate struct {
	net.Conn
	mu   sync.Mutex
	cond *sync.Cond
	shut bool
}

func newGate(nc net.Conn) *gate {
	if tc, ok := nc.(*net.TCPConn); ok {
		tc.SetReadBuffer(256 << 10)
	}
	g := &gate{Conn: nc}
	g.cond = sync.NewCond(&g.mu)
	return g
}
func (g *gate) Read(b []byte) (int, error) {
	g.mu.Lock()
	for g.shut {
		g.cond.Wait()
	}
	g.mu.Unlock()
	return g.Conn.Read(b)
}
func (g *gate) set(shut bool) {
	g.mu.Lock()
	g.shut = shut
	g.cond.Broadcast()
	g.mu.Unlock()
}
func (g *gate) Close() error {
	err := g.Conn.Close()
	g.set(false)
	return err
}

// smsg is one message of the publication; its timestamp is its number.
type smsg struct {
	kind byte // 'm' 'v' 'a' headers, 'k' 'i' 's'
	n    int
}

func (c slow) layout() (out []smsg) {
	x := c.Seed
	rnd := func(n int) int {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		return int(x>>3) % n
	}
	out = append(out, smsg{'m', 0}, smsg{'v', 0}, smsg{'a', 0})
	for _, p := range c.Phases {
		for i := 0; i < p.N; i++ {
			m := smsg{'i', p.Size/2 + rnd(p.Size+1)}
			switch {
			case p.Hdr > 0 && i%p.Hdr == p.Hdr-1:
				m.kind = "mva"[rnd(3)]
			case p.GOP > 0 && i%p.GOP == 0:
				m.kind = 'k'
			case rnd(3) == 0:
				m.kind = 's'
			}
			out = append(out, m)
		}
	}
	return out
}

func (c slow) pub(i int, m smsg) (p wire.Pub) {
	p.TS = uint32(i)
	seed := c.Seed*7919 + uint32(i)
	nal := func(t byte) []byte {
		return ref.AVCC(append([]byte{t}, ref.Fill(seed, m.n)...))
	}
	switch m.kind {
	case 'm':
		v := ref.AE("width", ref.AN(float64(i)), "encoder", ref.AS(fmt.Sprint("e", seed)))
		p.Type, p.Meta = 18, &v
		p.Data = ref.AMFEncode(ref.AS("onMetaData"), v)
	case 'v':
		p.Type = 9
		p.Data = append([]byte{0x17, 0, 0, 0, 0}, ref.AVCRecord([][]byte{append([]byte{0x67, 66, 0, 30}, ref.EPB(ref.Fill(seed, 12))...)}, [][]byte{append([]byte{0x68}, ref.EPB(ref.Fill(seed, 4))...)})...)
	case 'a':
		p.Type, p.Data = 8, []byte{0xaf, 0, 0x12, 0x10, byte(i), byte(i >> 8), byte(i >> 16)}
	case 'k':
		p.Type, p.Data = 9, append([]byte{0x17, 1, 0, 0, 0}, nal(0x65)...)
	case 'i':
		p.Type, p.Data = 9, append([]byte{0x27, 1, 0, 0, 0}, nal(0x41)...)
	case 's':
		p.Type, p.Data = 8, append([]byte{0xaf, 1}, ref.Fill(seed, m.n)...)
	}
	return p
}

func (m smsg) header() int {
	switch m.kind {
	case 'm':
		return 0
	case 'v':
		return 1
	case 'a':
		return 2
	}
	return -1
}

// behind is a point in a viewer's history: the first got messages were
// received when at most sent had been published.
type behind struct{ got, sent int }

// check decides whether a slow viewer may have received got.
// joined is the number of messages published when it joined.
func (c slow) check(ms []smsg, sum []int64, got []ref.FTag, hist []behind, joined int) (skips int, err error) {
	next := -1
	sent := func(p int) int {
		for _, b := range hist {
			if p < b.got {
				return b.sent
			}
		}
		return len(ms)
	}
	at := func(p int) (int, error) {
		i := int(got[p].TS)
		if i >= len(ms) {
			return 0, fmt.Errorf("received message %d has timestamp %d, which was not published", p, i)
		}
		return i, c.pub(i, ms[i]).Same(got[p])
	}
	for p := 0; p < len(got); p++ {
		i, err := at(p)
		if err != nil {
			return skips, fmt.Errorf("received message %d: %w", p, err)
		}
		if i == next {
			next++
			continue
		}
		// a start: the headers in force, then a message they apply to
		var s int
		var why error
		ok := false
		last := p // the first message that is no header, if it comes soon
		for ; last < len(got)-1 && last < p+9 && int(got[last].TS) < len(ms) && ms[got[last].TS].header() >= 0; last++ {
		}
		for b := last; b >= p && !ok; b-- {
			if s, err = at(b); err != nil {
				return skips, fmt.Errorf("received message %d: %w", b, err)
			}
			if s < next {
				continue
			}
			e := c.start(ms, sum, got, p, b, s, next, sent(b), joined)
			if e == nil {
				ok = true
				p = b
			} else if why == nil {
				why = e
			}
		}
		if !ok {
			if why == nil && p+3 >= len(got) {
				return skips, nil // headers only
			}
			if why == nil {
				why = fmt.Errorf("message %d again", i)
			}
			return skips, fmt.Errorf("received message %d: %w (expected message %d)", p, why, next)
		}
		if next >= 0 {
			skips++
		}
		next = s + 1
	}
	return skips, nil
}

// start decides whether got[p:b] are the headers in force at message s, and s
// a place where a viewer may start.
func (c slow) start(ms []smsg, sum []int64, got []ref.FTag, p, b, s, next, sent, joined int) error {
	if next < 0 && s > joined {
		return fmt.Errorf("starts at message %d, but joined after %d", s, joined)
	}
	if next >= 0 && sent-next < keptMsgs && sum[sent]-sum[next] < keptBytes {
		return fmt.Errorf("messages %d to %d are lost, although it was only %d messages (%d bytes) behind", next, s-1, sent-next, sum[sent]-sum[next])
	}
	var force [3]int
	key := -1
	for k := s - 1; k >= 0; k-- {
		if ms[k].kind == 'k' && key < 0 {
			key = k
		}
		if n := ms[k].header(); n >= 0 && force[n] == 0 {
			force[n] = k + 1
		}
		if key >= 0 && force[0] > 0 && force[1] > 0 && force[2] > 0 {
			break
		}
	}
	n := 0
	for _, f := range force {
		if f > 0 {
			n++
		}
	}
	if b-p < n {
		return fmt.Errorf("starts at message %d with %d of %d headers", s, b-p, n)
	}
	for k := p; k < b; k++ {
		i := int(got[k].TS)
		f := ms[i].header()
		if f < 0 || k >= b-n && force[f] != i+1 {
			return fmt.Errorf("starts at message %d with message %d, not the header in force", s, i)
		}
		for j := max(p, b-n); j < k; j++ {
			if got[j].TS == got[k].TS && k >= b-n {
				return fmt.Errorf("starts at message %d with a header twice", s)
			}
		}
	}
	// inside a group of pictures only if that is too long to be kept, and
	// then no further back than what is kept
	if s > 0 && key >= 0 && ms[s].kind != 'k' && sent-key <= gopMsgs && sum[sent]-sum[key] <= gopBytes {
		return fmt.Errorf("starts at message %d, which is no keyframe", s)
	}
	if s > 0 && key < 0 && ms[s].kind != 'k' && sent <= gopMsgs && sum[sent] <= gopBytes {
		return fmt.Errorf("starts at message %d although the stream had no keyframe", s)
	}
	return nil
}

type slowView struct {
	sview
	g      *gate
	v      wire.Viewer
	r      *wire.RTSP
	joined int
	hist   []behind
	shut   bool
}

func (v *slowView) open(s *wire.Server, name string, k int) error {
	addr := s.FLV
	switch v.Kind {
	case 0:
		addr = s.RTMP
	case 3:
		addr = s.RTSP
	}
	d := net.Dialer{Timeout: wire.Wait}
	if v.Kind == 3 {
		d.LocalAddr = &net.TCPAddr{IP: net.ParseIP(s.IP)}
	}
	nc, err := d.Dial("tcp", addr)
	if err != nil {
		return fmt.Errorf("%w: %v", eng.ErrInconclusive, err)
	}
	v.g = newGate(nc)
	path := "/" + wire.Apps[0] + "/" + name + ".flv"
	switch v.Kind {
	case 0:
		v.v, err = wire.PlayerOn(v.g, wire.Apps[0], name)
	case 1:
		var f *wire.FLV
		if f, err = wire.GetFLVOn(v.g, path); err == nil && f.Status != 200 {
			err = fmt.Errorf("status %d", f.Status)
		}
		v.v = f
	case 2:
		req, _ := wsRequest(path, ref.Fill(uint32(k), 16), 0)
		w, resp, e := wire.OpenWSOn(v.g, req)
		if err = e; err == nil && w == nil {
			err = fmt.Errorf("upgrade: status %d", resp.StatusCode)
		}
		v.v = w
	case 3:
		v.r = wire.DialRTSPOn(v.g)
		u := s.RTSPURL(wire.Apps[0], name)
		var p wire.RTSPResp
		for _, q := range [][3]string{{"DESCRIBE", u, "Accept: application/sdp\r\n"}, {"SETUP", u + "/trackID=0", "Transport: RTP/AVP/TCP;unicast;interleaved=0-1\r\n"}, {"PLAY", u, ""}} {
			if p, err = v.r.Request(q[0], q[1], q[2], nil); err == nil && p.Status != 200 {
				err = fmt.Errorf("%s: status %d", q[0], p.Status)
			}
			if err != nil {
				break
			}
		}
	}
	return err
}

// reached waits until the viewer received message i.
func (v *slowView) reached(i int) bool {
	if v.Kind == 3 {
		return true
	}
	if c, ok := v.v.(*wire.Client); ok {
		return c.WaitFor(wire.Wait, func(ms []ref.RMsg) bool {
			for k := len(ms) - 1; k >= 0; k-- {
				if t := ms[k].Type; t == 8 || t == 9 || t == 18 {
					return ms[k].TS == uint32(i)
				}
			}
			return false
		})
	}
	return v.v.WaitMedia(wire.Wait, func(ts []ref.FTag) bool { return len(ts) > 0 && ts[len(ts)-1].TS == uint32(i) })
}

func (v *slowView) close() {
	if v.g != nil {
		v.g.Close()
	}
}

// drop forgets what was received.
func (v *slowView) drop() {
	switch w := v.v.(type) {
	case *wire.Client:
		w.Drop()
	case *wire.FLV:
		w.Drop()
	case *wire.WS:
		w.Drop()
	}
	if v.r != nil {
		v.r.Drop()
	}
}

func heap() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func runC33(x *eng.Ctx, c slow) (err error) {
	s, err := wire.Start(wire.Options{RTSP: true})
	if err != nil {
		return err
	}
	if len(c.Phases) == 0 {
		return nil
	}
	for _, p := range c.Phases {
		if p.N < 0 || p.Size < 0 || p.GOP < 0 || p.Hdr < 0 || p.N*p.Size > 400<<20 {
			return nil
		}
	}
	ms := c.layout()
	sum := make([]int64, len(ms)+1)
	for i, m := range ms {
		sum[i+1] = sum[i] + int64(m.n)
	}
	name := wire.Name()
	p, err := wire.Publisher(s, wire.Apps[0], name)
	if err != nil {
		return fmt.Errorf("publishing: %w", err)
	}
	var views []*slowView
	defer func() {
		p.Close()
		for _, v := range views {
			v.close()
		}
	}()
	if err = p.SetChunkSize(1 << 20); err != nil {
		return err
	}
	before := heap()
	sent := 0
	// send publishes up to message n and waits for the viewers that read
	send := func(n int) error {
		for sent < n {
			from := sent
			var b []byte
			for sent < n && sent-from < 400 && len(b) < 3<<20 {
				b = append(b, ref.EncodeMsg(c.pub(sent, ms[sent]).Msg(6, true), p.Size)...)
				sent++
			}
			t := time.Now()
			if err := p.Write(b); err != nil {
				return fmt.Errorf("publisher: %w", err)
			}
			if !p.Sync() {
				return fmt.Errorf("the publisher is held up: no answer to a ping after %v, %d messages published", time.Since(t), sent)
			}
			for k, v := range views {
				if !v.shut && !v.reached(sent-1) {
					return fmt.Errorf("viewer %d, which reads all the time, is held up: message %d missing after %v: %w", k, sent-1, time.Since(t), v.verify(c, ms, sum))
				}
				if !v.shut {
					v.note(sent)
				}
			}
		}
		return nil
	}
	if err = send(3); err != nil {
		return err
	}
	end := 3
	for ph := 0; ph <= len(c.Phases); ph++ {
		for k, q := range c.Views {
			if q.Join == ph || q.Join > len(c.Phases) && ph == 0 {
				v := &slowView{sview: q, joined: sent}
				views = append(views, v)
				if err = v.open(s, name, k); err != nil {
					return fmt.Errorf("viewer %d (kind %d, %d messages published): %w", k, q.Kind, sent, err)
				}
				if !v.reached(sent - 1) {
					return fmt.Errorf("viewer %d, which joined after %d messages, does not get them: %w", k, sent, v.verify(c, ms, sum))
				}
				v.note(sent)
			}
		}
		for k, v := range views {
			if v.Stall == ph && v.Resume > ph && !v.shut {
				v.shut = true
				v.g.set(true)
			}
			if v.Resume == ph && v.shut {
				v.shut = false
				v.g.set(false)
				if !v.reached(sent - 1) {
					return fmt.Errorf("viewer %d, which reads again, does not get message %d: %w", k, sent-1, v.verify(c, ms, sum))
				}
				v.note(sent)
			}
		}
		if ph < len(c.Phases) {
			end += c.Phases[ph].N
			if err = send(end); err != nil {
				return err
			}
		}
	}
	if c.Flood {
		n := 0
		for k, v := range views {
			if v.v != nil {
				m, err := c.check(ms, sum, v.v.Media(), v.hist, v.joined)
				if err != nil {
					return fmt.Errorf("viewer %d (kind %d, joined after %d): %w", k, v.Kind, v.joined, err)
				}
				n += m
			}
			v.drop()
			if !v.shut {
				v.close()
			}
		}
		if n > 0 {
			x.NonTrivial()
		}
		lim := int64(0)
		for i := len(ms) - 1; i >= max(0, len(ms)-gopMsgs); i-- {
			lim += int64(ms[i].n) + 1024
		}
		lim = min(lim, gopBytes+gopMsgs*1024) + 24<<20
		x.Class("flood")
		var used int64
		for stop := time.Now().Add(5 * time.Second); ; time.Sleep(100 * time.Millisecond) {
			if used = heap() - before; used <= lim || time.Now().After(stop) {
				break
			}
		}
		if used > lim {
			return fmt.Errorf("the server keeps %d MB of a stream of %d messages and %d MB, %d MB expected", used>>20, len(ms), sum[len(ms)]>>20, lim>>20)
		}
		return nil
	}
	// the publisher leaves; whoever is behind gets the rest of the stream
	switch c.Leave % 4 {
	case 1:
		p.Command(ref.AS("deleteStream"), ref.AN(9), ref.ANil(), ref.AN(1))
	case 2:
		p.Close()
	default:
		p.Reset()
	}
	waitEnd := func(k int, v *slowView) error {
		if v.r != nil {
			if !v.r.WaitClosed(wire.Wait) {
				return fmt.Errorf("RTSP viewer %d is not released after the publisher left", k)
			}
			return nil
		}
		if !wire.WaitEnd(v.v, wire.Wait) {
			return fmt.Errorf("viewer %d is not released after the publisher left", k)
		}
		return nil
	}
	for k, v := range views {
		if !v.shut {
			if err = waitEnd(k, v); err != nil {
				return err
			}
		}
	}
	if c.Again {
		var q *wire.Client
		for stop := time.Now().Add(wire.Wait); ; time.Sleep(20 * time.Millisecond) {
			if q, err = wire.Publisher(s, wire.Apps[0], name); err == nil {
				break
			}
			if time.Now().After(stop) {
				return fmt.Errorf("the name cannot be published again: %w", err)
			}
		}
		defer q.Close()
		q.SetChunkSize(1 << 20)
		for i := 0; i < 6; i++ {
			q.Send(c.pub(1<<30+i, smsg{"mvakis"[i], 40}).Msg(6, true))
		}
		if !q.Sync() {
			return fmt.Errorf("the next publisher of the name is held up")
		}
		f, err := wire.GetFLV(s, wire.Apps[0], name)
		if err != nil {
			return err
		}
		defer f.Close()
		if f.Status != 200 || !f.WaitMedia(wire.Wait, func(ts []ref.FTag) bool { return len(ts) > 0 && ts[len(ts)-1].TS == 1<<30+5 }) {
			return fmt.Errorf("the next stream of the name (status %d) is not delivered: %d messages", f.Status, len(f.Media()))
		}
		x.Class("published again")
	}
	for k, v := range views {
		if v.shut && v.Late {
			v.g.set(false)
			if err = waitEnd(k, v); err != nil {
				return err
			}
			v.shut = false
			x.Class("resumed after the end")
		}
	}
	skips := 0
	for k, v := range views {
		if v.v == nil {
			x.Class("RTSP viewer stalled")
			continue
		}
		n, err := c.check(ms, sum, v.v.Media(), v.hist, v.joined)
		if err != nil {
			return fmt.Errorf("viewer %d (kind %d, joined after %d): %w", k, v.Kind, v.joined, err)
		}
		if _, e := v.v.End(); e != nil {
			return fmt.Errorf("viewer %d: %w", k, e)
		}
		if got := v.v.Media(); !v.shut && (len(got) == 0 || got[len(got)-1].TS != uint32(len(ms)-1)) {
			return fmt.Errorf("viewer %d: the stream ends after %d messages, not with the last one", k, len(got))
		}
		if skips += n; n > 0 {
			x.Class(fmt.Sprintf("skipped, kind %d", v.Kind))
		}
		if v.Stall < len(c.Phases) && v.Resume > v.Stall {
			x.Class("stalled")
		}
	}
	if skips > 0 {
		x.NonTrivial()
	}
	return nil
}

func (v *slowView) note(sent int) {
	if v.v != nil {
		v.hist = append(v.hist, behind{len(v.v.Media()), sent})
	}
}

func (v *slowView) verify(c slow, ms []smsg, sum []int64) error {
	if v.v == nil {
		return nil
	}
	got := v.v.Media()
	_, err := c.check(ms, sum, got, v.hist, v.joined)
	if err == nil && len(got) > 0 {
		err = fmt.Errorf("the last of %d messages received is %v", len(got), got[len(got)-1])
	}
	return err
}

func init() {
	eng.Register("C33", eng.Opts{
		Rule:        "a viewer that stopped reading fell so far behind that messages had to be skipped",
		Quick:       eng.Budget{Shards: 8, Cases: 30, Wall: 60 * time.Second},
		Thorough:    eng.Budget{Shards: 8, Cases: 5000, Wall: 600 * time.Second},
		Net:         true,
		Assumptions: []string{"loopback TCP: a viewer that does not read stalls the server's sending once the sockets' buffers are full", "less than 2000 messages and 60 MB behind loses nothing; groups of pictures up to 8192 messages and 128 MB are kept for new viewers"},
	}, genC33, runC33)
}
