package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/sbraveyoung/GGmpeg/librtsp"
	"pgregory.net/rapid"

	"verif/harness/eng"
	"verif/harness/ref"
)

type nal struct {
	H0   byte   `json:"h0"`
	H1   byte   `json:"h1"`
	Size int    `json:"n"` // payload bytes after the header
	Seed uint32 `json:"s"`
}

func (n nal) bytes(hevc bool) []byte {
	b := []byte{n.H0}
	if hevc {
		b = append(b, n.H1)
	}
	return append(b, ref.Fill(n.Seed, n.Size)...)
}

type c19 struct {
	Codec  string  `json:"codec"` // h264 hevc aac opus
	MTU    int     `json:"mtu"`
	PT     byte    `json:"pt"`
	SSRC   uint32  `json:"ssrc"`
	Seq    uint16  `json:"seq"`
	TS     uint32  `json:"ts"`
	Units  [][]nal `json:"units"`
	Agg    bool    `json:"agg"`  // aggregate in the independent packetiser
	Lib    bool    `json:"lib"`  // feed the reassembler from the library's packetiser
	Skip   int     `json:"skip"` // packets cut off at the beginning
	Fate   []int   `json:"fate"` // per packet: 0 keep 1 drop 2 duplicate 3 swap with the next
	CSRC   int     `json:"csrc"`
	Ext    int     `json:"ext"` // words, -1 = none
	Pad    int     `json:"pad"`
	Groups []int   `json:"groups"` // aac: frames per packet
}

func genC19(t *rapid.T) c19 {
	c := c19{
		Codec: rapid.SampledFrom([]string{"h264", "h264", "h264", "hevc", "aac", "opus"}).Draw(t, "codec"),
		MTU:   rapid.OneOf(rapid.IntRange(4, 20), rapid.IntRange(20, 200), rapid.SampledFrom([]int{1400, 0})).Draw(t, "mtu"),
		PT:    byte(rapid.IntRange(0, 127).Draw(t, "pt")),
		SSRC:  rapid.Uint32().Draw(t, "ssrc"),
		Seq:   rapid.OneOf(rapid.Uint16(), rapid.Uint16Range(65520, 65535), rapid.Uint16Range(32740, 32767)).Draw(t, "seq"),
		TS:    rapid.OneOf(rapid.Uint32(), rapid.Uint32Range(1<<32-10000, 1<<32-1)).Draw(t, "ts"),
		Agg:   rapid.Bool().Draw(t, "agg"),
		Lib:   rapid.Bool().Draw(t, "lib"),
		CSRC:  rapid.SampledFrom([]int{0, 0, 1, 2, 15}).Draw(t, "csrc"),
		Ext:   rapid.SampledFrom([]int{-1, -1, 0, 1, 5}).Draw(t, "ext"),
		Pad:   rapid.SampledFrom([]int{0, 0, 1, 4, 17, 255}).Draw(t, "pad"),
	}
	mtu := c.MTU
	if mtu == 0 {
		mtu = 1400
	}
	nu := rapid.IntRange(1, 6).Draw(t, "units")
	pk := 0
	for i := 0; i < nu; i++ {
		var u []nal
		k := 1
		if c.Codec == "h264" || c.Codec == "hevc" {
			k = rapid.IntRange(1, 4).Draw(t, "nals")
		}
		for j := 0; j < k; j++ {
			n := nal{Seed: rapid.Uint32().Draw(t, "seed")}
			n.Size = rapid.OneOf(
				rapid.IntRange(0, mtu),
				rapid.Custom(func(t *rapid.T) int { // around multiples of the fragment size
					d := mtu - 2
					if c.Codec == "hevc" {
						d = mtu - 3
					}
					return max(0, rapid.IntRange(1, 5).Draw(t, "f")*d+rapid.IntRange(-3, 3).Draw(t, "d"))
				}),
				rapid.IntRange(0, 6*mtu)).Draw(t, "size")
			switch c.Codec {
			case "h264":
				n.H0 = byte(rapid.IntRange(0, 3).Draw(t, "nri"))<<5 | byte(rapid.IntRange(1, 23).Draw(t, "type"))
			case "hevc":
				n.H0 = byte(rapid.IntRange(0, 47).Draw(t, "type"))<<1 | byte(rapid.IntRange(0, 1).Draw(t, "lid5"))
				n.H1 = byte(rapid.IntRange(0, 31).Draw(t, "lid"))<<3 | byte(rapid.IntRange(1, 7).Draw(t, "tid"))
			default:
				n.H0 = rapid.Byte().Draw(t, "b0")
				n.Size = rapid.OneOf(rapid.IntRange(0, 600), rapid.SampledFrom([]int{8189, 8190, 4095, 4094, 255, 31, 32})).Draw(t, "asize")
			}
			pk += 1 + n.Size/max(1, mtu-3)
			u = append(u, n)
		}
		c.Units = append(c.Units, u)
	}
	if c.Codec == "aac" {
		for left := nu; left > 0; {
			g := rapid.IntRange(1, left).Draw(t, "group")
			c.Groups = append(c.Groups, g)
			left -= g
		}
	}
	switch rapid.IntRange(0, 2).Draw(t, "lossmode") {
	case 0:
	case 1: // sparse
		for i := 0; i < pk; i++ {
			f := 0
			if rapid.IntRange(0, 7).Draw(t, "hit") == 7 {
				f = rapid.IntRange(1, 3).Draw(t, "fate")
			}
			c.Fate = append(c.Fate, f)
		}
	case 2:
		c.Skip = rapid.IntRange(0, 5).Draw(t, "skip")
		for i := 0; i < pk; i++ {
			c.Fate = append(c.Fate, rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "fate"))
		}
	}
	return c
}

func isH264Key(n []byte) bool { return n[0]&31 == 5 }

func runC19(c *eng.Ctx, cs c19) error {
	mtu := cs.MTU
	if mtu <= 0 {
		mtu = librtsp.DefaultMTU
	}
	var units [][][]byte
	hevc := cs.Codec == "hevc"
	for _, u := range cs.Units {
		var ns [][]byte
		for _, n := range u {
			ns = append(ns, n.bytes(hevc))
		}
		units = append(units, ns)
	}
	if err := c19Header(cs, units[0][0]); err != nil {
		return err
	}
	c.Class(cs.Codec)
	switch cs.Codec {
	case "aac", "opus":
		return c19Audio(c, cs, units)
	}
	// 1. the library's packets, independently depayloaded
	p := librtsp.NewRTPPacker(cs.PT, cs.SSRC)
	p.SetSeq(cs.Seq)
	seq := cs.Seq
	type pkt struct {
		raw  []byte
		unit int
	}
	var lib []pkt
	frag := false
	for i, u := range units {
		var pl [][]byte
		for _, n := range u {
			var f [][]byte
			if hevc {
				f = librtsp.PackHEVCNAL(n, cs.MTU)
			} else {
				f = librtsp.PackNAL(n, cs.MTU)
			}
			if len(f) == 0 {
				return fmt.Errorf("unit %d: NAL unit of %d bytes, limit %d: no packets", i, len(n), mtu)
			}
			frag = frag || len(f) > 1
			pl = append(pl, f...)
		}
		ts := cs.TS + uint32(i)*3600
		var got [][]byte
		for j, b := range pl {
			if len(b) > mtu {
				return fmt.Errorf("unit %d: payload of %d bytes, limit %d", i, len(b), mtu)
			}
			if s := p.Seq(); s != seq {
				return fmt.Errorf("next sequence number %d, want %d", s, seq)
			}
			raw := p.Pack(j == len(pl)-1, ts, b)
			r, err := ref.ParseRTP(raw)
			if err != nil {
				return err
			}
			if r.PT != cs.PT || r.SSRC != cs.SSRC || r.Seq != seq || r.TS != ts || r.Marker != (j == len(pl)-1) || r.CSRC != nil || r.Ext != nil || r.Pad != 0 {
				return fmt.Errorf("unit %d packet %d: header %+v (want pt %d ssrc %d seq %d ts %d marker %v)", i, j, RTPHead(r), cs.PT, cs.SSRC, seq, ts, j == len(pl)-1)
			}
			seq++
			got = append(got, r.Payload)
			lib = append(lib, pkt{raw, i})
		}
		ns, err := ref.DepayNALs(hevc, got)
		if err != nil {
			return fmt.Errorf("unit %d (limit %d): %v", i, mtu, err)
		}
		if err := sameNALs(ns, u); err != nil {
			return fmt.Errorf("unit %d (limit %d): %v", i, mtu, err)
		}
	}
	if frag {
		c.Class("fragmented")
		c.NonTrivial()
	}
	// 2. AVCC and key frame helpers
	for i, u := range units {
		a := librtsp.AVCCFromNALs(u)
		if !bytes.Equal(a, ref.AVCC(u...)) {
			return fmt.Errorf("unit %d: AVCCFromNALs differs", i)
		}
		if err := sameNALs(librtsp.SplitAVCC(a), u); err != nil {
			return fmt.Errorf("unit %d: SplitAVCC: %v", i, err)
		}
		key := false
		for _, n := range u {
			if hevc {
				t := n[0] >> 1 & 63
				key = key || (t >= 16 && t <= 23)
			} else {
				key = key || isH264Key(n)
			}
		}
		k := librtsp.ContainsKeyframe(u)
		if hevc {
			k = librtsp.HEVCContainsKeyframe(u)
		}
		if k != key {
			return fmt.Errorf("unit %d: key frame %v, want %v", i, k, key)
		}
	}
	if hevc {
		return nil
	}
	// 3. the reassembler, with losses
	src := lib
	if !cs.Lib {
		src = nil
		seq := cs.Seq
		for i, u := range units {
			pl := ref.PackH264(u, mtu, cs.Agg)
			for j, b := range pl {
				r := ref.RTP{PT: cs.PT, SSRC: cs.SSRC, Seq: seq, TS: cs.TS + uint32(i)*3600, Marker: j == len(pl)-1, Payload: b}
				if j%2 == 1 {
					r.CSRC = make([]uint32, cs.CSRC)
					r.Pad = cs.Pad
				}
				src = append(src, pkt{r.Encode(), i})
				seq++
			}
		}
	}
	var order []int // indexes into src in arrival order
	for i := min(cs.Skip, len(src)); i < len(src); i++ {
		f := 0
		if i < len(cs.Fate) {
			f = cs.Fate[i]
		}
		switch {
		case f == 1:
		case f == 2:
			order = append(order, i, i)
		case f == 3 && i+1 < len(src):
			order = append(order, i+1, i)
			i++
		default:
			order = append(order, i)
		}
	}
	// units that must be emitted: every packet arrived, in order, right
	// after its predecessor (or at the very start of the stream)
	must := make([]bool, len(units))
	lossy := cs.Skip > 0
	high := -1 // highest index so far
	runFrom := -1
	for k, i := range order {
		if high >= 0 && i <= high {
			lossy = true
			continue // duplicate or late
		}
		if high < 0 || i != high+1 {
			runFrom = i
			if high >= 0 {
				runFrom = i + 1 // preceding packet unknown: only later units count
				lossy = true
			} else if k != 0 || (i > 0 && src[i-1].unit == src[i].unit) {
				runFrom = i + 1
			}
		}
		high = i
		last := i == len(src)-1 || src[i+1].unit != src[i].unit
		if last {
			first := i
			for first > 0 && src[first-1].unit == src[i].unit {
				first--
			}
			if first >= runFrom {
				must[src[i].unit] = true
			}
		}
	}
	var ra librtsp.H264Reassembler
	next := 0
	first := true
	emitted := make([]bool, len(units))
	for _, i := range order {
		p, err := librtsp.ParseRTP(src[i].raw)
		if err != nil {
			return fmt.Errorf("ParseRTP refuses a valid packet: %v", err)
		}
		ns, ts := ra.Push(p)
		if len(ns) == 0 {
			continue
		}
		// which unit?
		u := -1
		for k := range units {
			if cs.TS+uint32(k)*3600 == ts {
				u = k
			}
		}
		if u < 0 {
			return fmt.Errorf("emitted an access unit with timestamp %d, none was sent", ts)
		}
		if u < next {
			return fmt.Errorf("unit %d emitted again or out of order", u)
		}
		next = u + 1
		want := units[u]
		if first && len(ns) < len(want) && len(order) > 0 && src[order[0]].unit == u {
			want = want[len(want)-len(ns):] // joined mid-unit: a suffix of whole NAL units
		}
		first = false
		if err := sameNALs(ns, want); err != nil {
			return fmt.Errorf("unit %d is not what was sent: %v", u, err)
		}
		emitted[u] = true
	}
	for u, m := range must {
		if m && !emitted[u] {
			return fmt.Errorf("unit %d arrived complete and in order, but was not emitted", u)
		}
	}
	if lossy {
		c.Class("lossy")
	}
	return nil
}

// RTPHead strips the payload for messages.
func RTPHead(r ref.RTP) ref.RTP { r.Payload = nil; return r }

func sameNALs(got, want [][]byte) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d NAL units, want %d", len(got), len(want))
	}
	for i := range want {
		if !bytes.Equal(got[i], want[i]) {
			return fmt.Errorf("NAL unit %d (%d bytes) differs, got %d bytes", i, len(want[i]), len(got[i]))
		}
	}
	return nil
}

func c19Header(cs c19, payload []byte) error {
	r := ref.RTP{PT: cs.PT, Marker: cs.Seq&1 == 1, Seq: cs.Seq, TS: cs.TS, SSRC: cs.SSRC, CSRC: make([]uint32, cs.CSRC), Pad: cs.Pad, Payload: payload}
	for i := range r.CSRC {
		r.CSRC[i] = cs.SSRC * uint32(i)
	}
	if cs.Ext >= 0 {
		r.Ext = ref.Fill(cs.SSRC, cs.Ext*4)
		if r.Ext == nil {
			r.Ext = []byte{}
		}
		r.ExtProf = cs.Seq
	}
	raw := r.Encode()
	p, err := librtsp.ParseRTP(raw)
	if err != nil {
		return fmt.Errorf("ParseRTP of %+v: %v", RTPHead(r), err)
	}
	if p.PayloadType != r.PT || p.Marker != r.Marker || p.SequenceNum != r.Seq || p.Timestamp != r.TS || p.SSRC != r.SSRC || !bytes.Equal(p.Payload, payload) {
		return fmt.Errorf("ParseRTP of %+v yields %+v", RTPHead(r), *p)
	}
	if len(raw) < 65536 {
		f := librtsp.InterleaveFrame(byte(cs.Seq), raw)
		if len(f) != len(raw)+4 || f[0] != '$' || f[1] != byte(cs.Seq) || int(f[2])<<8|int(f[3]) != len(raw) || !bytes.Equal(f[4:], raw) {
			return fmt.Errorf("bad interleaved frame % x", f[:4])
		}
	}
	return nil
}

func c19Audio(c *eng.Ctx, cs c19, units [][][]byte) error {
	p := librtsp.NewRTPPacker(cs.PT, cs.SSRC)
	p.SetSeq(cs.Seq)
	for i, u := range units {
		f := u[0]
		var pl []byte
		if cs.Codec == "aac" {
			pl = librtsp.PackAACFrame(f)
		} else {
			pl = librtsp.PackOpusFrame(f)
		}
		r, err := ref.ParseRTP(p.Pack(true, cs.TS+uint32(i), pl))
		if err != nil {
			return err
		}
		if r.Seq != cs.Seq+uint16(i) || !r.Marker || r.TS != cs.TS+uint32(i) {
			return fmt.Errorf("frame %d: header %+v", i, RTPHead(r))
		}
		if cs.Codec == "opus" {
			if !bytes.Equal(r.Payload, f) {
				return fmt.Errorf("opus frame %d changed", i)
			}
			continue
		}
		fs, err := ref.DepayAAC(r.Payload)
		if err != nil {
			return fmt.Errorf("frame %d (%d bytes): %v", i, len(f), err)
		}
		if len(fs) != 1 || !bytes.Equal(fs[0], f) {
			return fmt.Errorf("aac frame %d (%d bytes) changed", i, len(f))
		}
		if x := librtsp.AACAUExtract(pl); len(x) != 1 || !bytes.Equal(x[0], f) {
			return fmt.Errorf("AACAUExtract of a packed frame of %d bytes differs", len(f))
		}
	}
	if cs.Codec == "aac" {
		i := 0
		for _, g := range cs.Groups {
			var fs [][]byte
			for ; g > 0 && i < len(units); g-- {
				fs = append(fs, units[i][0])
				i++
			}
			got := librtsp.AACAUExtract(ref.PackAAC(fs...))
			if err := sameNALs(got, fs); err != nil {
				return fmt.Errorf("AACAUExtract of %d frames: %v", len(fs), err)
			}
			if len(fs) > 1 {
				c.Class("aggregated")
				c.NonTrivial()
			}
		}
	}
	return nil
}

func init() {
	eng.Register("C19", eng.Opts{
		Rule:     "a unit was fragmented, or several audio frames were carried in one packet",
		Quick:    eng.Budget{Shards: 8, Cases: 8000, Wall: 60 * time.Second},
		Thorough: eng.Budget{Shards: 8, Cases: 400000, Wall: 15 * time.Minute},
		Assumptions: []string{"AAC frames are below 8192 bytes (AAC-hbr cannot announce larger ones in one packet)",
			"loss recovery is required of units whose preceding packet also arrived"},
	}, genC19, runC19)
}
