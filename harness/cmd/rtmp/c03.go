package main

import (
	"encoding/binary"
	"fmt"
	"time"

	"pgregory.net/rapid"

	"verif/harness/eng"
	"verif/harness/ref"
	"verif/harness/wire"
)

// c03 is a publication and a way to chunk it.
type c03 struct {
	Items  []wire.Item
	CS     []uint32 // chunk stream per item
	Fmt    []int    // preferred header format per item
	Form   []int    // preferred basic header form per item
	Sched  []int    // scheduling choices
	Sizes  []int    // chunk size changes, used when the schedule says so
	Splits []int    // TCP segment lengths
	Pause  bool     // tiny pauses between the segments
	RTMP   bool     // watch with an RTMP player too
	MSID   uint32
	Agg    []int // sizes of the groups of messages; groups of two and more are sent as one aggregate message
	AggTS  []uint32
	AggX   []int // what else aggregates contain: 0 nothing, n>0 an entry that is no media (see odd)
}

var csids = []uint32{3, 4, 5, 6, 8, 20, 63, 64, 65, 200, 319, 320, 1000, 65599}

func genC03(t *rapid.T) c03 {
	c := c03{Items: wire.GenStream(t, rapid.SampledFrom([]int{4, 12, 30}).Draw(t, "max"), rapid.IntRange(0, 9).Draw(t, "big") == 0)}
	// runs of equal messages make the compressed headers applicable
	if rapid.Bool().Draw(t, "runs") {
		k := rapid.IntRange(1, 8).Draw(t, "run")
		d := uint32(rapid.SampledFrom([]int{0, 1, 20, 40, 0xfffffe, 0xffffff, 0x1000000, 70000000}).Draw(t, "rundelta"))
		last := c.Items[len(c.Items)-1]
		ts := last.TS
		n := wire.GenSize(t, false)
		for i := 0; i < k; i++ {
			ts += d
			c.Items = append(c.Items, wire.Item{K: "audio", TS: ts, N: n, S: last.S + 1 + uint32(i)})
		}
	}
	ids := rapid.SliceOfN(rapid.SampledFrom(csids), 1, 4).Draw(t, "csids")
	for range c.Items {
		c.CS = append(c.CS, rapid.SampledFrom(ids).Draw(t, "cs"))
		c.Fmt = append(c.Fmt, rapid.SampledFrom([]int{0, 1, 2, 3, 3, 3}).Draw(t, "fmt"))
		c.Form = append(c.Form, rapid.SampledFrom([]int{0, 0, 2, 3}).Draw(t, "form"))
	}
	c.Sched = rapid.SliceOfN(rapid.IntRange(0, 11), 1, 30).Draw(t, "sched")
	c.Sizes = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 60, 127, 128, 129, 200, 1000, 4096, 5000, 65536, 1 << 24, 0x7fffffff}), 0, 5).Draw(t, "sizes")
	c.Splits = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 7, 11, 12, 100, 129, 1400, 5000}), 0, 25).Draw(t, "splits")
	c.Pause = rapid.Bool().Draw(t, "pause")
	c.RTMP = rapid.IntRange(0, 3).Draw(t, "rtmp") == 0
	c.MSID = rapid.SampledFrom([]uint32{0, 1, 1, 5, 0x01020304}).Draw(t, "msid")
	if rapid.IntRange(0, 2).Draw(t, "aggregates") == 0 {
		c.Agg = rapid.SliceOfN(rapid.SampledFrom([]int{1, 1, 2, 3, 5}), 1, 6).Draw(t, "groups")
		c.AggTS = rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom([]uint32{0, 0xfffff0, 0xffffff, 0x1000000, 0xfffffff0}), rapid.Uint32()), 1, 3).Draw(t, "aggts")
		c.AggX = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4}), 1, 6).Draw(t, "aggx")
	}
	return c
}

// odd appends an entry viewers get nothing of to an aggregate.
func odd(b []byte, kind int, ts uint32, stat map[string]int) []byte {
	var typ byte
	var d []byte
	switch kind {
	case 1:
		typ = 8 // empty
	case 2:
		typ, d = 16, []byte{1, 2, 3}
	case 3:
		typ, d = 77, make([]byte, 300)
	case 4:
		typ = 9
	default:
		return b
	}
	stat["aggregate with an entry that is no media"]++
	l := len(d)
	b = append(b, typ, byte(l>>16), byte(l>>8), byte(l), byte(ts>>16), byte(ts>>8), byte(ts), byte(ts>>24), 0, 0, 0)
	b = append(b, d...)
	return binary.BigEndian.AppendUint32(b, uint32(11+l))
}

// messages are the messages to send, each with the indexes of the published
// items it carries.
func (c c03) messages(pubs []wire.Pub, stat map[string]int) (ms []ref.RMsg, idx [][]int) {
	for i := 0; i < len(pubs); {
		n := 1
		if len(c.Agg) > 0 {
			n = c.Agg[len(ms)%len(c.Agg)]
		}
		if n < 1 || i+n > len(pubs) {
			n = 1
		}
		m := pubs[i].Msg(c.CS[i], i%2 == 0)
		if n > 1 && len(c.AggTS) > 0 {
			// the times inside are relative to the first one
			base := c.AggTS[i%len(c.AggTS)]
			var b []byte
			for k := i; k < i+n; k++ {
				if len(c.AggX) > 0 {
					b = odd(b, c.AggX[k%len(c.AggX)], base, stat)
				}
				p := pubs[k].Msg(0, k%2 == 0)
				ts := base + p.TS - pubs[i].TS
				if ts>>24 != base>>24 {
					stat["aggregate across a multiple of 2^24 ms"]++
				}
				l := len(p.Data)
				b = append(b, p.Type, byte(l>>16), byte(l>>8), byte(l), byte(ts>>16), byte(ts>>8), byte(ts), byte(ts>>24), 0, 0, 0)
				b = append(b, p.Data...)
				b = binary.BigEndian.AppendUint32(b, uint32(11+l))
			}
			m.Type, m.Data = 22, b
			stat["aggregate"]++
		} else {
			n = 1
		}
		m.MSID = c.MSID
		var l []int
		for k := i; k < i+n; k++ {
			l = append(l, k)
		}
		ms, idx = append(ms, m), append(idx, l)
		i += n
	}
	return
}

type csState struct {
	used       bool
	ts, delta  uint32
	length     int
	typ        byte
	deltaValid bool // a continuation header is unambiguous
	ext        bool
	extv       uint32
	busy       bool
}

// chunker turns messages into a legal chunk stream.
type chunker struct {
	out  []byte
	size int
	cs   map[uint32]*csState
	stat map[string]int
}

type flight struct {
	id   uint32
	h    ref.ChunkHeader // of the first chunk, then the continuation
	rest []byte
	head bool
	idx  int
	form int
}

func (k *chunker) begin(idx int, id uint32, want, form int, m ref.RMsg) *flight {
	s := k.cs[id]
	if s == nil {
		s = &csState{}
		k.cs[id] = s
	}
	h := ref.ChunkHeader{CSID: id, Len: len(m.Data), Type: m.Type, MSID: m.MSID}
	switch {
	case form == 2 && (id < 64 || id > 319), form == 3 && id < 64:
		form = 0
	}
	h.Form = form
	d := m.TS - s.ts
	f := want
	if !s.used || m.TS < s.ts {
		f = 0
	}
	if f == 3 && !(s.deltaValid && d == s.delta && s.length == len(m.Data) && s.typ == m.Type) {
		f = 2
	}
	if f == 2 && !(s.length == len(m.Data) && s.typ == m.Type) {
		f = 1
	}
	h.Fmt = f
	switch f {
	case 0:
		h.Time = m.TS
		s.deltaValid = false
	case 1, 2:
		h.Time = d
		s.delta = d
		s.deltaValid = true
	case 3:
		h.Ext, h.Time = s.ext, s.extv
	}
	if f < 3 {
		s.ext, s.extv = h.Time >= 0xffffff, h.Time
	}
	s.used, s.ts, s.length, s.typ, s.busy = true, m.TS, len(m.Data), m.Type, true
	k.stat[fmt.Sprintf("fmt%d", f)]++
	if s.ext {
		k.stat["extended timestamp"]++
	}
	return &flight{id: id, h: h, rest: m.Data, head: true, idx: idx, form: form}
}

// step writes one chunk of a message and tells whether it was the last one.
func (k *chunker) step(f *flight) bool {
	s := k.cs[f.id]
	if !f.head {
		f.h = ref.ChunkHeader{Fmt: 3, CSID: f.id, Form: f.form, Ext: s.ext, Time: s.extv}
	}
	f.head = false
	k.out = append(k.out, f.h.Encode()...)
	n := len(f.rest)
	if n > k.size {
		n = k.size
	}
	k.out = append(k.out, f.rest[:n]...)
	f.rest = f.rest[n:]
	if len(f.rest) == 0 {
		s.busy = false
		return true
	}
	return false
}

func (k *chunker) setSize(n int) {
	k.out = append(k.out, ref.EncodeMsg(ref.RMsg{CSID: 2, Type: 1, Data: binary.BigEndian.AppendUint32(nil, uint32(n))}, k.size)...)
	k.size = n
}

// schedule chunks all messages; it returns them in order of completion.
func (c c03) schedule(k *chunker) (order []int) {
	var open []*flight
	next, sz := 0, 0
	ms, idx := c.messages(wire.Pubs(c.Items), k.stat)
	for step := 0; next < len(ms) || len(open) > 0; step++ {
		ch := c.Sched[step%len(c.Sched)]
		if ch == 11 && sz < len(c.Sizes) {
			n := c.Sizes[sz]
			sz++
			if n < 60 && total(open)+remaining(ms[next:]) > 4000 {
				n = 60
			}
			k.setSize(n)
			k.stat["chunk size change"]++
			if len(open) > 0 {
				k.stat["chunk size change inside a message"]++
			}
			continue
		}
		start := next < len(ms) && (len(open) == 0 || ch%3 == 0) && len(open) < 4
		if start {
			if s := k.cs[c.CS[next]]; s != nil && s.busy {
				start = false
			}
		}
		if start {
			open = append(open, k.begin(next, c.CS[next], c.Fmt[next], c.Form[next], ms[next]))
			next++
			if len(open) > 1 {
				k.stat["interleaved"]++
			}
			ch = len(open) - 1 // its first chunk follows at once
		} else {
			ch %= len(open)
		}
		f := open[ch]
		if k.step(f) {
			order = append(order, idx[f.idx]...)
			open = append(open[:ch:ch], open[ch+1:]...)
		}
	}
	return order
}

func total(fs []*flight) (n int) {
	for _, f := range fs {
		n += len(f.rest)
	}
	return n
}

func remaining(ps []ref.RMsg) (n int) {
	for _, p := range ps {
		n += len(p.Data)
	}
	return n
}

// sendSplit writes bytes in TCP segments of the given lengths.
func sendSplit(cl *wire.Client, b []byte, splits []int, pause bool) error {
	for i := 0; len(b) > 0; i++ {
		n := len(b)
		if i < len(splits) && splits[i] < n {
			n = splits[i]
		}
		if err := cl.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
		if pause && len(b) > 0 {
			time.Sleep(300 * time.Microsecond)
		}
	}
	return nil
}

func runC03(x *eng.Ctx, c c03) error {
	if len(c.Items) == 0 || len(c.CS) < len(c.Items) || len(c.Fmt) < len(c.Items) || len(c.Form) < len(c.Items) || len(c.Sched) == 0 {
		return nil
	}
	s, err := wire.Start(wire.Options{})
	if err != nil {
		return err
	}
	name := wire.Name()
	p, err := wire.Publisher(s, "live", name)
	if err != nil {
		return fmt.Errorf("publishing: %w", err)
	}
	defer p.Close()
	var views []wire.Viewer
	fl, err := wire.GetFLV(s, "live", name)
	if err != nil {
		return err
	}
	defer fl.Close()
	if fl.Status != 200 {
		return fmt.Errorf("HTTP-FLV of a published stream: status %d", fl.Status)
	}
	views = append(views, fl)
	if c.RTMP {
		pl, err := wire.Player(s, "live", name)
		if err != nil {
			return err
		}
		defer pl.Close()
		views = append(views, pl)
	}
	// the first message tells that the viewers have joined
	probe := wire.Pub{FTag: ref.FTag{Type: 8, TS: 7, Data: []byte("\xaf\x01probe")}}
	if err := p.SendPubs([]wire.Pub{probe}); err != nil {
		return err
	}
	for _, v := range views {
		if !wire.HasTag(v, probe) {
			return fmt.Errorf("a viewer did not get the first message")
		}
	}
	k := &chunker{size: p.Size, cs: map[uint32]*csState{}, stat: map[string]int{}}
	k.cs[3] = nil
	delete(k.cs, 3)
	order := c.schedule(k)
	sent := []wire.Pub{probe}
	pubs := wire.Pubs(c.Items)
	for _, i := range order {
		sent = append(sent, pubs[i])
	}
	end := wire.Sentinel(c.Items[len(c.Items)-1].TS, 1)
	sent = append(sent, end)
	k.out = append(k.out, ref.EncodeMsg(end.Msg(7, false), k.size)...)
	if err := sendSplit(p, k.out, c.Splits, c.Pause); err != nil {
		if done, _ := p.Closed(); done {
			return fmt.Errorf("the server closed the publisher's connection on a legal chunk stream (%v)", err)
		}
		return err
	}
	for i, v := range views {
		ok := wire.HasTag(v, end)
		got := v.Media()
		if _, e := v.End(); e != nil {
			return e
		}
		if !ok {
			_, e := wire.CheckRun(got, sent[:len(sent)-1], 1)
			return fmt.Errorf("viewer %d did not get the last of %d messages within %v, got %d (%v)", i, len(sent), wire.Wait, len(got), e)
		}
		if _, err := wire.CheckRun(got, sent, 1); err != nil {
			return fmt.Errorf("viewer %d: %w", i, err)
		}
	}
	for n := range k.stat {
		x.Class(n)
	}
	if len(c.Items) > 1 && (k.stat["fmt1"]+k.stat["fmt2"]+k.stat["fmt3"] > 0 || k.stat["interleaved"] > 0 || k.stat["chunk size change"] > 0) {
		x.NonTrivial()
	}
	return nil
}

func init() {
	eng.Register("C03", eng.Opts{
		Rule:     "at least two messages, and a compressed header, interleaving or a chunk size change",
		Quick:    eng.Budget{Shards: 8, Cases: 400, Wall: 60 * time.Second},
		Thorough: eng.Budget{Shards: 8, Cases: 100000, Wall: 600 * time.Second},
		Net:      true,
		Assumptions: []string{
			"loopback TCP; viewers keep up",
			"a type 3 chunk starting a new message right after a type 0 header is not generated (its delta is ambiguous between implementations)",
		},
	}, genC03, runC03)
}
