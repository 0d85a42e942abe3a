package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"time"

	"pgregory.net/rapid"

	"verif/harness/eng"
	"verif/harness/ref"
	"verif/harness/wire"
)

// ctlOp is one step of the publisher.
type ctlOp struct {
	K   string  // media ping window peerbw size unknown user abort ack sync
	N   int     // payload length, window, chunk size
	V   uint32  // timestamp of a ping, message type, event type, limit type
	Mid []ctlOp // media: control messages between its chunks
	CS  uint32
	Rel bool // media: the header is relative to the last one of the chunk stream, if there is any
}

type c28 struct {
	Ops    []ctlOp
	Late   int  // index at which the viewer joins (before it, no media)
	Player bool // RTMP player instead of an HTTP-FLV viewer
}

func genCtl(t *rapid.T) ctlOp {
	o := ctlOp{K: rapid.SampledFrom([]string{"ping", "ping", "window", "peerbw", "size", "unknown", "user", "ack", "ping", "unknown"}).Draw(t, "ctl"), CS: 2}
	switch o.K {
	case "ping":
		o.V = rapid.OneOf(rapid.SampledFrom([]uint32{0, 1, 0xffffffff, 0x80000000}), rapid.Uint32()).Draw(t, "v")
	case "window":
		o.N = rapid.SampledFrom([]int{1, 100, 1000, 5000, 20000, 100000, 2500000, 0x7fffffff}).Draw(t, "w")
	case "peerbw":
		o.N = rapid.SampledFrom([]int{100, 5000, 2500000, 0x7fffffff}).Draw(t, "w")
		o.V = uint32(rapid.IntRange(0, 2).Draw(t, "lim"))
	case "size":
		o.N = rapid.SampledFrom([]int{1, 64, 127, 128, 129, 500, 4096, 65536, 0xffffff, 0x1000000, 0x1000001, 0x40000000, 0x7fffffff}).Draw(t, "size")
	case "unknown":
		o.V = rapid.SampledFrom([]uint32{0, 7, 10, 11, 12, 13, 14, 16, 19, 21, 23, 24, 42, 127, 128, 255}).Draw(t, "type")
		o.N = wire.GenSize(t, false)
		o.CS = rapid.SampledFrom([]uint32{2, 3, 9, 77}).Draw(t, "cs")
	case "user":
		o.V = rapid.SampledFrom([]uint32{0, 1, 2, 3, 4, 7, 8, 26, 31, 32, 0xffff}).Draw(t, "ev")
	case "ack":
		o.V = rapid.Uint32().Draw(t, "v")
	}
	return o
}

func genC28(t *rapid.T) c28 {
	c := c28{Player: rapid.IntRange(0, 3).Draw(t, "player") == 0}
	n := rapid.IntRange(1, rapid.SampledFrom([]int{4, 12, 30}).Draw(t, "max")).Draw(t, "n")
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 7).Draw(t, "kind") {
		case 0, 1, 2:
			o := ctlOp{K: "media", N: wire.GenSize(t, rapid.IntRange(0, 4).Draw(t, "big") == 0), CS: rapid.SampledFrom([]uint32{4, 6, 70, 400}).Draw(t, "cs"), Rel: rapid.Bool().Draw(t, "rel")}
			for k := rapid.IntRange(0, 3).Draw(t, "mids") - 1; k > 0; k-- {
				m := genCtl(t)
				if m.CS == o.CS {
					m.CS = 2
				}
				o.Mid = append(o.Mid, m)
			}
			c.Ops = append(c.Ops, o)
		case 3:
			c.Ops = append(c.Ops, ctlOp{K: "abort", N: rapid.IntRange(1, 3).Draw(t, "chunks"), CS: rapid.SampledFrom([]uint32{4, 6, 70}).Draw(t, "cs"), V: uint32(rapid.SampledFrom([]int{8, 9}).Draw(t, "type"))})
		case 4:
			c.Ops = append(c.Ops, ctlOp{K: "sync"})
		default:
			c.Ops = append(c.Ops, genCtl(t))
		}
	}
	return c
}

func be32(v uint32) []byte { return binary.BigEndian.AppendUint32(nil, v) }

// ctlMsg builds the message of a control operation.
func (o ctlOp) ctlMsg() (m ref.RMsg) {
	m.CSID = 2
	switch o.K {
	case "ping":
		m.Type, m.Data = 4, append([]byte{0, 6}, be32(o.V)...)
	case "window":
		m.Type, m.Data = 5, be32(uint32(o.N))
	case "peerbw":
		m.Type, m.Data = 6, append(be32(uint32(o.N)), byte(o.V))
	case "size":
		m.Type, m.Data = 1, be32(uint32(o.N))
	case "unknown":
		m.CSID = max(o.CS, 2)
		m.Type, m.Data = byte(o.V), ref.Fill(uint32(o.N)+o.V, o.N)
	case "user":
		n := 4
		if o.V == 3 {
			n = 8
		}
		m.Type, m.Data = 4, append([]byte{byte(o.V >> 8), byte(o.V)}, make([]byte, n)...)
	case "ack":
		m.Type, m.Data = 3, be32(o.V)
	}
	return m
}

func runC28(x *eng.Ctx, c c28) error {
	s, err := wire.Start(wire.Options{})
	if err != nil {
		return err
	}
	name := wire.Name()
	p, err := wire.Publisher(s, "live", name)
	if err != nil {
		return err
	}
	defer p.Close()
	var v wire.Viewer
	if c.Player {
		v, err = wire.Player(s, "live", name)
	} else {
		v, err = wire.GetFLV(s, "live", name)
	}
	if err != nil {
		return err
	}
	defer v.Close()

	from := len(p.Msgs())
	var pings []uint32
	var pubs []wire.Pub
	biggest := int64(0) // largest chunk sent
	window, windows := int64(-1), 0
	var out []byte
	ts := uint32(10)
	acks := func() (a []int64) {
		for _, m := range p.Msgs() {
			if m.Type == 3 && len(m.Data) == 4 {
				a = append(a, int64(binary.BigEndian.Uint32(m.Data)))
			}
		}
		return
	}
	flush := func() error {
		b := out
		out = nil
		if len(b) == 0 {
			return nil
		}
		return p.Write(b)
	}
	sync := func() error {
		if err := flush(); err != nil {
			return fmt.Errorf("sending: %w", err)
		}
		if !p.Sync() {
			_, e := p.Closed()
			return fmt.Errorf("a ping is not answered (connection: %v)", e)
		}
		pings = append(pings, 0)
		// the handshake may or may not be counted
		if sent := p.Sent; window >= 0 {
			a := acks()
			last := int64(0)
			if len(a) > 0 {
				last = a[len(a)-1]
			}
			if sent-last > window+biggest+3073+64 {
				return fmt.Errorf("window %d, %d bytes sent and processed, last acknowledgement %d", window, sent, last)
			}
		}
		return nil
	}
	addCtl := func(o ctlOp) {
		if o.K == "size" && (o.N < 1 || o.N > 0x7fffffff) {
			return
		}
		m := o.ctlMsg()
		biggest = max(biggest, int64(min(len(m.Data), p.Size)))
		out = append(out, ref.EncodeMsg(m, p.Size)...)
		switch o.K {
		case "ping":
			pings = append(pings, o.V)
		case "size":
			p.Size = o.N
		case "window":
			window = int64(o.N)
			windows++
		}
	}
	interesting := false
	type lastHdr struct {
		ref.ChunkHeader
		aborted bool
	}
	last := map[uint32]lastHdr{} // by chunk stream
	for i, o := range c.Ops {
		switch o.K {
		case "media":
			pb := wire.Item{K: "audio", TS: ts, N: o.N, S: uint32(i) + 1}.Pub()
			ts += 7
			pubs = append(pubs, pb)
			m := pb.Msg(max(o.CS, 4), false)
			h := ref.ChunkHeader{CSID: m.CSID, Time: m.TS, Len: len(m.Data), Type: m.Type, MSID: 1}
			abs := h
			if l, ok := last[m.CSID]; ok && o.Rel {
				h.Fmt, h.Time = 1, m.TS-l.Time
				if l.Len == h.Len && l.Type == h.Type {
					h.Fmt = 2
				}
				if l.aborted {
					x.Class("relative to an aborted message")
				}
			}
			last[m.CSID] = lastHdr{abs, false}
			d := m.Data
			for k := 0; k == 0 || len(d) > 0; k++ {
				if k > 0 {
					h.Fmt = 3
					if k-1 < len(o.Mid) {
						if o.Mid[k-1].K == "media" || o.Mid[k-1].K == "abort" || o.Mid[k-1].ctlMsg().CSID == m.CSID {
							return nil
						}
						addCtl(o.Mid[k-1])
						x.Class("control message inside a media message")
						interesting = true
					}
				}
				out = append(out, h.Encode()...)
				n := min(len(d), p.Size)
				biggest = max(biggest, int64(n))
				out = append(out, d[:n]...)
				d = d[n:]
			}
		case "abort":
			if p.Size > 1000 {
				continue
			}
			k := max(o.N, 1)
			biggest = max(biggest, int64(p.Size))
			n := k*p.Size + 1 + int(o.CS)
			d := append([]byte{0xaf, 1}, ref.Fill(uint32(i)+99, n)...)
			if o.V == 9 {
				d[0], d[1] = 0x17, 1
			}
			h := ref.ChunkHeader{CSID: max(o.CS, 4), Time: ts, Len: len(d), Type: byte(o.V), MSID: 1}
			last[h.CSID] = lastHdr{h, true}
			for j := 0; j < k; j++ {
				out = append(out, h.Encode()...)
				out = append(out, d[j*p.Size:(j+1)*p.Size]...)
				h.Fmt = 3
			}
			out = append(out, ref.EncodeMsg(ref.RMsg{CSID: 2, Type: 2, Data: be32(h.CSID)}, p.Size)...)
			x.Class("aborted message")
			interesting = true
		case "sync":
			if err := sync(); err != nil {
				return fmt.Errorf("operation %d: %w", i, err)
			}
		default:
			addCtl(o)
			x.Class(o.K)
		}
		if len(out) > 1<<20 {
			if err := flush(); err != nil {
				return fmt.Errorf("operation %d: %w", i, err)
			}
		}
	}
	if p.Size < 32 {
		addCtl(ctlOp{K: "size", N: 128})
	}
	end := wire.Sentinel(ts, 28)
	pubs = append(pubs, end)
	out = append(out, ref.EncodeMsg(end.Msg(4, false), p.Size)...)
	if err := sync(); err != nil {
		return fmt.Errorf("at the end: %w", err)
	}
	// pongs
	k := 0
	for _, m := range p.Msgs()[from:] {
		if m.Type != 4 || len(m.Data) < 2 || !bytes.Equal(m.Data[:2], []byte{0, 7}) {
			continue
		}
		if len(m.Data) != 6 || m.MSID != 0 {
			return fmt.Errorf("malformed ping response % x on stream %d", m.Data, m.MSID)
		}
		if k >= len(pings) {
			return fmt.Errorf("%d ping responses for %d pings", k+1, len(pings))
		}
		if got := binary.BigEndian.Uint32(m.Data[2:]); pings[k] != 0 && got != pings[k] {
			return fmt.Errorf("ping %d carried %#x, its response %#x", k, pings[k], got)
		}
		k++
	}
	if k != len(pings) {
		return fmt.Errorf("%d ping responses for %d pings", k, len(pings))
	}
	// acknowledgements
	prev := int64(0)
	for i, a := range acks() {
		if a < prev || a > p.Sent {
			return fmt.Errorf("acknowledgement %d is %d after %d, %d bytes were sent", i, a, prev, p.Sent)
		}
		if i > 0 && windows == 1 && a-prev > window+biggest+64 {
			return fmt.Errorf("window %d, but acknowledgement %d is %d after %d", window, i, a, prev)
		}
		prev = a
	}
	if prev > 0 {
		x.Class("acknowledged")
	}
	if _, e := p.End(); e != nil {
		return e
	}
	if !wire.HasTag(v, end) {
		_, e := wire.CheckRun(v.Media(), pubs[:len(pubs)-1], -1)
		return fmt.Errorf("the viewer does not get the last message (%v)", e)
	}
	if _, e := v.End(); e != nil {
		return e
	}
	if _, e := wire.CheckRun(v.Media(), pubs, 0); e != nil {
		return fmt.Errorf("viewer: %w", e)
	}
	if interesting || prev > 0 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	eng.Register("C28", eng.Opts{
		Rule:        "an acknowledgement was due, a message was aborted or a control message came between the chunks of a media message",
		Quick:       eng.Budget{Shards: 8, Cases: 1000, Wall: 60 * time.Second},
		Thorough:    eng.Budget{Shards: 8, Cases: 200000, Wall: 600 * time.Second},
		Net:         true,
		Assumptions: []string{"acknowledgements may lag by one chunk and may or may not count the handshake"},
	}, genC28, runC28)
}
