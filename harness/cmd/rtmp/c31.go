package main

import (
	"bufio"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"verif/harness/eng"
	"verif/harness/ref"
	"verif/harness/wire"
)

// c31 is one session of a remote server somebody here pulls a stream from.
type c31 struct {
	Form    int    // form of the configured URL
	Stream  c03    // what the remote sends, and how it is chunked
	S1      uint32 // seed of the server's random block
	Ver     uint32 // version field of S1 and S2
	HSplit  []int  // segmentation of S0 S1 S2
	Pre     []string
	Mid     []string
	Post    []string
	SID     uint32 // message stream createStream gives
	NoProps bool   // results carry null instead of an object
	Withh   bool   // watch for premature commands
	Fail    string // "", "connect", "createStream", "play"
	End     string // "close", "reset", "inside", "eof"
	Window  int
	Player  bool
	Late    bool // a viewer joins in the middle
	Access  bool // |RtmpSampleAccess precedes the media
	Claim   bool // somebody tries to publish the same name
}

var c31Pre = []string{"window", "peerbw", "size", "begin", "ping", "onbwdone", "unknown", "ack", "buf", "amf3"}

func genC31(t *rapid.T) c31 {
	c := c31{Form: rapid.IntRange(0, c31Forms-1).Draw(t, "form"), Stream: genC03(t)}
	c.S1 = rapid.Uint32().Draw(t, "s1")
	c.Ver = rapid.SampledFrom([]uint32{0, 0, 0x04050001, 0x0d0e0a0d, 0xffffffff}).Draw(t, "ver")
	c.HSplit = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 100, 1536, 1537, 1538}), 0, 5).Draw(t, "hsplit")
	pre := rapid.SliceOfN(rapid.SampledFrom(c31Pre), 0, 5)
	c.Pre, c.Mid, c.Post = pre.Draw(t, "pre"), pre.Draw(t, "mid"), pre.Draw(t, "post")
	c.SID = rapid.SampledFrom([]uint32{1, 1, 1, 2, 5, 0x01020304, 0xffffff}).Draw(t, "sid")
	c.Stream.MSID = c.SID
	c.NoProps = rapid.Bool().Draw(t, "noprops")
	c.Withh = rapid.IntRange(0, 3).Draw(t, "withhold") == 0
	if rapid.IntRange(0, 9).Draw(t, "fails") == 0 {
		c.Fail = rapid.SampledFrom([]string{"connect", "createStream", "play"}).Draw(t, "fail")
	}
	c.End = rapid.SampledFrom([]string{"close", "reset", "inside", "close"}).Draw(t, "end")
	if rapid.IntRange(0, 2).Draw(t, "acks") == 0 {
		c.Window = rapid.SampledFrom([]int{1, 100, 1000, 5000, 100000}).Draw(t, "window")
	}
	c.Player = rapid.Bool().Draw(t, "player")
	c.Late = rapid.Bool().Draw(t, "late")
	c.Access = rapid.Bool().Draw(t, "access")
	c.Claim = rapid.Bool().Draw(t, "claim")
	return c
}

// pulled is one configured pull.
type pulled struct {
	form             int
	tc               []string // acceptable tcUrl
	app, name, local string
	ln               net.Listener
}

const c31Forms = 8

var (
	pullOnce sync.Once
	pullErr  error
	pullQ    [c31Forms]chan *pulled
)

func startPulls() error {
	pullOnce.Do(func() {
		ip := wire.IP()
		var o wire.Options
		n := 40
		for i := range pullQ {
			pullQ[i] = make(chan *pulled, n)
		}
		for i := 0; i < n*c31Forms; i++ {
			p := &pulled{form: i % c31Forms, app: fmt.Sprintf("rem%d", i%7), name: fmt.Sprintf("cam%d", i), local: fmt.Sprintf("pull%d", i)}
			addr := ip + ":0"
			switch p.form {
			case 3: // no port
				pid := os.Getpid()
				addr = fmt.Sprintf("127.%d.%d.%d:1935", 128+i/c31Forms, (pid>>8)&0xff, pid&0xff)
			case 4:
				addr = "[::1]:0"
			}
			ln, err := net.Listen("tcp", addr)
			if err != nil {
				continue // no IPv6, or somebody has the port
			}
			p.ln = ln
			host := ln.Addr().String()
			p.tc = []string{"rtmp://" + host + "/" + p.app}
			if p.form == 3 {
				host = strings.TrimSuffix(host, ":1935")
				p.tc = append(p.tc, "rtmp://"+host+"/"+p.app)
			}
			url := "rtmp://" + host + "/" + p.app + "/"
			escaped := ""
			switch p.form {
			case 1:
				p.name += fmt.Sprintf("?token=a/b%d&x=%%20y:1", i)
			case 2:
				p.name = "dir/" + p.name + "/sub"
			case 6, 7: // characters that are escaped in a URL
				escaped = fmt.Sprintf("a%%20%%2b%%25%d%%c3%%a9", i)
				p.name = fmt.Sprintf("a +%%%dé", i)
				if p.form == 7 {
					escaped += "?t=%20"
					p.name += "?t=%20"
				}
			case 5:
				p.name = p.local
				url = strings.TrimSuffix(url, "/")
			}
			switch {
			case escaped != "":
				url += escaped
			case p.form != 5:
				url += p.name
			}
			o.Pulls = append(o.Pulls, [3]string{url, wire.Apps[i%2], p.local})
			pullQ[p.form] <- p
		}
		_, pullErr = wire.Start(o)
	})
	return pullErr
}

// remote is the server side of a pull.
type remote struct {
	*wire.Client
	p               *pulled
	k               *chunker
	biggest, window int64
	pings           []uint32
}

// send sends a message with a plain header.
func (r *remote) send(m ref.RMsg) error {
	return r.Write(ref.EncodeMsg(m, r.k.size))
}

func (r *remote) extra(kind string, n int) error {
	switch kind {
	case "window":
		return r.send(ref.RMsg{CSID: 2, Type: 5, Data: be32(2500000)})
	case "peerbw":
		return r.send(ref.RMsg{CSID: 2, Type: 6, Data: append(be32(5000000), byte(n%3))})
	case "size":
		sz := []int{128, 4096, 60000, 200}[n%4]
		err := r.send(ref.RMsg{CSID: 2, Type: 1, Data: be32(uint32(sz))})
		r.k.size = sz
		return err
	case "begin":
		return r.send(ref.RMsg{CSID: 2, Type: 4, Data: append([]byte{0, 0}, be32(uint32(n&1))...)})
	case "buf":
		return r.send(ref.RMsg{CSID: 2, Type: 4, Data: append([]byte{0, 31}, be32(uint32(n))...)})
	case "ping":
		v := uint32(n)*7919 + 5
		r.pings = append(r.pings, v)
		return r.send(ref.RMsg{CSID: 2, Type: 4, Data: append([]byte{0, 6}, be32(v)...)})
	case "onbwdone":
		return r.send(ref.RMsg{CSID: 3, Type: 20, Data: ref.AMFEncode(ref.AS("onBWDone"), ref.AN(0), ref.ANil(), ref.AN(8192))})
	case "unknown":
		return r.send(ref.RMsg{CSID: 7, Type: 30, Data: []byte("whatever")})
	case "ack":
		return r.send(ref.RMsg{CSID: 2, Type: 3, Data: be32(3073)})
	case "amf3":
		return r.send(ref.RMsg{CSID: 3, Type: 16, Data: []byte{0, 1}})
	}
	return nil
}

func (r *remote) extras(kinds []string, at int) error {
	for i, k := range kinds {
		if err := r.extra(k, at*10+i); err != nil {
			return err
		}
	}
	return nil
}

// command waits for the n-th command of the client.
func (r *remote) command(n int, name string) (wire.Cmd, error) {
	var cs []wire.Cmd
	var err error
	r.WaitFor(wire.Wait, func(ms []ref.RMsg) bool {
		cs, err = wire.Cmds(ms)
		return err != nil || len(cs) > n
	})
	if err != nil {
		return wire.Cmd{}, fmt.Errorf("the client's command: %w", err)
	}
	if len(cs) <= n {
		done, e := r.Closed()
		return wire.Cmd{}, fmt.Errorf("the client does not send its command %d, %s (connection closed: %v, %v; commands so far %v)", n, name, done, e, names(cs))
	}
	if cs[n].Name != name {
		return cs[n], fmt.Errorf("the client's command %d is %q instead of %q", n, cs[n].Name, name)
	}
	return cs[n], nil
}

func names(cs []wire.Cmd) (out []string) {
	for _, c := range cs {
		out = append(out, c.Name)
	}
	return out
}

// handshake takes the connection a pull has made.
func (c c31) accept(p *pulled) (*remote, error) {
	p.ln.(*net.TCPListener).SetDeadline(time.Now().Add(45 * time.Second))
	nc, err := p.ln.Accept()
	if err != nil {
		return nil, fmt.Errorf("%w: pull %s does not connect: %v", eng.ErrInconclusive, p.local, err)
	}
	br := bufio.NewReaderSize(nc, 1<<16)
	nc.SetReadDeadline(time.Now().Add(wire.Wait))
	c0c1 := make([]byte, 1537)
	if _, err := io.ReadFull(br, c0c1); err != nil {
		nc.Close()
		return nil, fmt.Errorf("no C0 and C1 from the pull client: %w", err)
	}
	if c0c1[0] != 3 {
		nc.Close()
		return nil, fmt.Errorf("C0 is %d", c0c1[0])
	}
	s1 := append(be32(5), be32(c.Ver)...)
	s1 = append(s1, ref.Fill(c.S1|1, 1528)...)
	all := append([]byte{3}, s1...)
	all = append(all, c0c1[1:]...)
	binary.BigEndian.PutUint32(all[1537+4:], 7) // time2
	cl := wire.Accepted(nc, br)
	if err := sendSplit(cl, all, c.HSplit, c.Stream.Pause); err != nil {
		nc.Close()
		return nil, err
	}
	c2 := make([]byte, 1536)
	if _, err := io.ReadFull(br, c2); err != nil {
		nc.Close()
		return nil, fmt.Errorf("no C2 from the pull client: %w", err)
	}
	if string(c2[8:]) != string(s1[8:]) {
		nc.Close()
		return nil, errors.New("C2 does not echo S1")
	}
	if string(c2[:4]) != string(s1[:4]) {
		nc.Close()
		return nil, fmt.Errorf("C2 begins with % x, S1 has % x", c2[:4], s1[:4])
	}
	nc.SetReadDeadline(time.Time{})
	cl.Run()
	return &remote{Client: cl, p: p, k: &chunker{size: 128, cs: map[uint32]*csState{}, stat: map[string]int{}}}, nil
}

func (r *remote) result(ok bool, txn float64, noProps bool, val ref.AVal) error {
	name := "_result"
	props := ref.AO("fmsVer", ref.AS("FMS/3,0,1,123"), "capabilities", ref.AN(31))
	if noProps {
		props = ref.ANil()
	}
	if !ok {
		name = "_error"
		props = ref.ANil()
		val = ref.AO("level", ref.AS("error"), "code", ref.AS("NetConnection.Connect.Rejected"), "description", ref.AS("no"))
	}
	return r.send(ref.RMsg{CSID: 3, Type: 20, Data: ref.AMFEncode(ref.AS(name), ref.AN(txn), props, val)})
}

func (r *remote) status(sid uint32, level, code string) error {
	return r.send(ref.RMsg{CSID: 5, Type: 20, MSID: sid, Data: ref.AMFEncode(ref.AS("onStatus"), ref.AN(0), ref.ANil(), ref.AO("level", ref.AS(level), "code", ref.AS(code), "description", ref.AS("x")))})
}

// quiet makes sure the client sends no further command before it may.
func (c c31) quiet(r *remote, n int) error {
	if !c.Withh {
		return nil
	}
	time.Sleep(wire.Grace / 2)
	cs, err := wire.Cmds(r.Msgs())
	if err != nil {
		return err
	}
	if len(cs) > n {
		return fmt.Errorf("the client sends %v without waiting for the answer to %s", cs[n].Name, cs[n-1].Name)
	}
	return nil
}

func runC31(x *eng.Ctx, c c31) (err error) {
	st := c.Stream
	if len(st.Items) == 0 || len(st.CS) < len(st.Items) || len(st.Fmt) < len(st.Items) || len(st.Form) < len(st.Items) || len(st.Sched) == 0 || c.Form < 0 || c.Form >= c31Forms || c.SID == 0 {
		return nil
	}
	if err := startPulls(); err != nil {
		return err
	}
	s, _ := wire.Start(wire.Options{})
	var p *pulled
	select {
	case p = <-pullQ[c.Form]:
	default:
		return nil // this form is not available here
	}
	defer func() { pullQ[c.Form] <- p }()
	r, err := c.accept(p)
	if err != nil {
		return err
	}
	defer r.Close()
	app := wire.Apps[0]
	for _, a := range wire.Apps {
		if v, e := wire.GetFLV(s, a, p.local); e == nil && v.Status == 200 {
			v.Close()
			app = a
		}
	}
	var views []wire.Viewer
	defer func() {
		for _, v := range views {
			v.Close()
		}
	}()
	fl, err := wire.GetFLV(s, app, p.local)
	if err != nil {
		return err
	}
	if fl.Status != 200 {
		return fmt.Errorf("HTTP-FLV of the pulled stream: status %d", fl.Status)
	}
	views = append(views, fl)
	if c.Player {
		pl, err := wire.Player(s, app, p.local)
		if err != nil {
			return err
		}
		views = append(views, pl)
		x.Class("RTMP viewer")
	}
	released := func(what string) error {
		for i, v := range views {
			if !wire.WaitEnd(v, wire.Wait) {
				return fmt.Errorf("%s: viewer %d is not released", what, i)
			}
			if _, e := v.End(); e != nil {
				var fe *ref.FLVFormatError
				if errors.As(e, &fe) {
					return fmt.Errorf("%s: viewer %d: %w", what, i, e)
				}
			}
		}
		return nil
	}
	refused := func(n int) error {
		x.Class("refused at " + c.Fail)
		if err := released("the remote refused " + c.Fail); err != nil {
			return err
		}
		cs, err := wire.Cmds(r.Msgs())
		if err != nil {
			return err
		}
		if len(cs) > n {
			return fmt.Errorf("after %s was refused the client sends %s", c.Fail, cs[n].Name)
		}
		return nil
	}

	// connect
	cmd, err := r.command(0, "connect")
	if err != nil {
		return err
	}
	if len(cmd.Args) < 1 {
		return fmt.Errorf("connect has no command object")
	}
	if cmd.Txn != 1 || cmd.Msg.MSID != 0 {
		return fmt.Errorf("connect has transaction %v on message stream %d", cmd.Txn, cmd.Msg.MSID)
	}
	if v, _ := cmd.Args[0].Get("app"); v.Str() != p.app {
		return fmt.Errorf("connect asks for the application %q, the URL says %q", v.Str(), p.app)
	}
	tc, _ := cmd.Args[0].Get("tcUrl")
	okTC := false
	for _, u := range p.tc {
		okTC = okTC || u == tc.Str()
	}
	if !okTC {
		return fmt.Errorf("connect has tcUrl %q, want one of %q", tc.Str(), p.tc)
	}
	if err := r.extras(c.Pre, 1); err != nil {
		return err
	}
	if err := c.quiet(r, 1); err != nil {
		return err
	}
	if err := r.result(c.Fail != "connect", cmd.Txn, c.NoProps, ref.AO("level", ref.AS("status"), "code", ref.AS("NetConnection.Connect.Success"), "objectEncoding", ref.AN(0))); err != nil {
		return err
	}
	if c.Fail == "connect" {
		return refused(1)
	}
	// createStream
	cmd, err = r.command(1, "createStream")
	if err != nil {
		return err
	}
	if cmd.Txn <= 1 || cmd.Msg.MSID != 0 {
		return fmt.Errorf("createStream has transaction %v on message stream %d", cmd.Txn, cmd.Msg.MSID)
	}
	if err := r.extras(c.Mid, 2); err != nil {
		return err
	}
	if err := c.quiet(r, 2); err != nil {
		return err
	}
	if err := r.result(c.Fail != "createStream", cmd.Txn, true, ref.AN(float64(c.SID))); err != nil {
		return err
	}
	if c.Fail == "createStream" {
		return refused(2)
	}
	// play
	cmd, err = r.command(2, "play")
	if err != nil {
		return err
	}
	if cmd.Msg.MSID != c.SID {
		return fmt.Errorf("play is sent on message stream %d, createStream gave %d", cmd.Msg.MSID, c.SID)
	}
	if len(cmd.Args) < 2 || cmd.Args[0].K != ref.ANull || cmd.Args[1].K != ref.AStr || cmd.Args[1].Str() != p.name {
		return fmt.Errorf("play has arguments %v, the URL names %q", cmd.Args, p.name)
	}
	if c.Fail == "play" {
		x.Class("stream not found")
		if err := r.status(c.SID, "error", "NetStream.Play.StreamNotFound"); err != nil {
			return err
		}
		r.Close()
		return released("the remote has no such stream")
	}
	if err := r.extras(c.Post, 3); err != nil {
		return err
	}
	r.send(ref.RMsg{CSID: 2, Type: 4, Data: append([]byte{0, 0}, be32(c.SID)...)})
	r.status(c.SID, "status", "NetStream.Play.Reset")
	r.status(c.SID, "status", "NetStream.Play.Start")
	var sent []wire.Pub
	if c.Access {
		acc := wire.Pub{FTag: ref.FTag{Type: 18, Data: ref.AMFEncode(ref.AS("|RtmpSampleAccess"), ref.AB(true), ref.AB(true))}}
		sent = append(sent, acc)
		r.send(ref.RMsg{CSID: 5, Type: 18, MSID: c.SID, Data: acc.Data})
	}
	if c.Window > 0 {
		if err := r.send(ref.RMsg{CSID: 2, Type: 5, Data: be32(uint32(c.Window))}); err != nil {
			return err
		}
		x.Class("acknowledgement window")
	}
	if c.Claim {
		q, err := wire.Dial(s.RTMP)
		if err != nil {
			return err
		}
		defer q.Close()
		if err := q.Connect(app); err != nil {
			return err
		}
		code, err := q.Publish(p.local)
		if err != nil {
			return err
		}
		if code != "NetStream.Publish.BadName" {
			return fmt.Errorf("publishing the name of the pulled stream: %s", code)
		}
		q.Send(wire.Item{K: "audio", TS: 1, N: 50, S: 4242}.Pub().Msg(4, false))
		x.Class("competing publisher")
	}
	// media
	probe := wire.Pub{FTag: ref.FTag{Type: 8, TS: 7, Data: []byte("\xaf\x01probe")}}
	m := probe.Msg(4, false)
	m.MSID = c.SID
	if err := r.send(m); err != nil {
		return err
	}
	for i, v := range views {
		if !wire.HasTag(v, probe) {
			done, e := r.Closed()
			return fmt.Errorf("viewer %d does not get the first message (pull connection closed: %v, %v)", i, done, e)
		}
	}
	order := st.schedule(r.k)
	pubs := wire.Pubs(st.Items)
	sent = append(sent, probe)
	for _, i := range order {
		sent = append(sent, pubs[i])
	}
	end := wire.Sentinel(st.Items[len(st.Items)-1].TS, 31)
	em := end.Msg(7, false)
	em.MSID = c.SID
	sent = append(sent, end)
	r.k.out = append(r.k.out, ref.EncodeMsg(em, r.k.size)...)
	biggest := int64(0)
	for _, it := range pubs {
		biggest = max(biggest, int64(len(it.Data)))
	}
	half := len(r.k.out) / 2
	lateAt := -1
	if c.Late {
		if err := sendSplit(r.Client, r.k.out[:half], st.Splits, st.Pause); err != nil {
			return fmt.Errorf("sending media: %w", err)
		}
		// something certainly published must be there to join at
		v, err := wire.GetFLV(s, app, p.local)
		if err != nil {
			return err
		}
		if v.Status != 200 {
			return fmt.Errorf("HTTP-FLV of the running stream: status %d", v.Status)
		}
		lateAt = len(views)
		views = append(views, v)
		x.Class("late viewer")
		if err := r.Write(r.k.out[half:]); err != nil {
			return fmt.Errorf("sending media: %w", err)
		}
	} else if err := sendSplit(r.Client, r.k.out, st.Splits, st.Pause); err != nil {
		done, e := r.Closed()
		return fmt.Errorf("sending media: %v (closed by the client: %v %v)", err, done, e)
	}
	for i, v := range views {
		ok := wire.HasTag(v, end)
		got := v.Media()
		if _, e := v.End(); e != nil {
			return e
		}
		joined := 0
		if i == lateAt {
			joined = -1
		}
		if !ok {
			done, e := r.Closed()
			_, e2 := wire.CheckRun(got, sent[:len(sent)-1], joined)
			return fmt.Errorf("viewer %d did not get the last of %d messages, got %d (%v; pull connection closed: %v %v)", i, len(sent), len(got), e2, done, e)
		}
		if _, err := wire.CheckRun(got, sent, joined); err != nil {
			return fmt.Errorf("viewer %d: %w; it got %v", i, err, got)
		}
	}
	// pings and acknowledgements
	if err := r.extra("ping", 99); err != nil {
		return err
	}
	last := int64(0)
	if !r.WaitFor(wire.Wait, func(ms []ref.RMsg) bool {
		n := 0
		for _, m := range ms {
			if m.Type == 4 && len(m.Data) == 6 && m.Data[1] == 7 {
				n++
			}
		}
		return n >= len(r.pings)
	}) {
		return fmt.Errorf("not every ping of the remote is answered")
	}
	var pongs []uint32
	for _, m := range r.Msgs() {
		if m.Type == 4 && len(m.Data) == 6 && m.Data[1] == 7 {
			pongs = append(pongs, binary.BigEndian.Uint32(m.Data[2:]))
		}
		if m.Type == 3 && len(m.Data) == 4 {
			last = int64(binary.BigEndian.Uint32(m.Data))
		}
	}
	if fmt.Sprint(pongs) != fmt.Sprint(r.pings) {
		return fmt.Errorf("pings %v are answered by %v", r.pings, pongs)
	}
	if c.Window > 0 && r.Sent-last > int64(c.Window)+biggest+3073+200 {
		return fmt.Errorf("window %d, %d bytes sent, last acknowledgement %d", c.Window, r.Sent, last)
	}
	if cs, err := wire.Cmds(r.Msgs()); err != nil {
		return err
	} else if len(cs) > 3 {
		for _, q := range cs[3:] {
			if q.Name == "connect" || q.Name == "createStream" || q.Name == "play" {
				return fmt.Errorf("the client repeats %s", q.Name)
			}
		}
	}
	n := make([]int, len(views))
	for i, v := range views {
		n[i] = len(v.Media())
	}
	switch c.End {
	case "reset":
		r.Reset()
	case "inside":
		b := ref.EncodeMsg(ref.RMsg{CSID: 4, Type: 9, TS: 99, MSID: c.SID, Data: append([]byte{0x17, 1, 0, 0, 0}, ref.Fill(7, 5000)...)}, r.k.size)
		r.Write(b[:len(b)-100])
		r.Close()
	default:
		r.Close()
	}
	x.Class("end: " + c.End)
	if err := released("the remote went away"); err != nil {
		return err
	}
	for i, v := range views {
		if g := v.Media(); len(g) != n[i] {
			return fmt.Errorf("viewer %d got %v after the end of the remote stream", i, g[n[i]])
		}
	}
	x.Class([]string{"plain URL", "query", "deep path", "default port", "IPv6", "no stream in the URL", "escaped name", "escaped name and a query"}[c.Form])
	if len(st.Items) > 1 && (len(c.Pre)+len(c.Mid)+len(c.Post) > 0 || c.SID != 1 || c.Form > 0) {
		x.NonTrivial()
	}
	return nil
}

func init() {
	eng.Register("C31", eng.Opts{
		Rule:     "at least two media messages, and extra messages in the command exchange, a message stream other than 1 or a URL of another form than rtmp://host:port/app/stream",
		Quick:    eng.Budget{Shards: 8, Cases: 200, Wall: 60 * time.Second},
		Thorough: eng.Budget{Shards: 8, Cases: 100000, Wall: 600 * time.Second},
		Net:      true,
		Assumptions: []string{
			"loopback TCP; viewers keep up",
			"the remote behaves as the RTMP specification says (it may be slow, fragment anything and interleave control messages)",
			"an escaped name is decoded, its query is passed on as it stands",
		},
	}, genC31, runC31)
}
