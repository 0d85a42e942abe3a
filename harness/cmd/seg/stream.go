package main

import (
	"fmt"
	"sort"

	"github.com/sbraveyoung/GGmpeg/libflv"
	"pgregory.net/rapid"

	"verif/harness/ref"
)

// nal describes one NAL unit.
type nal struct {
	T byte   `json:"t"`
	N int    `json:"n"` // payload bytes
	S uint32 `json:"s,omitempty"`
}

// frame is one published video frame.
type frame struct {
	D   int    `json:"d"` // ms after the previous frame
	Key bool   `json:"key,omitempty"`
	Cts int32  `json:"c,omitempty"`
	NAL []nal  `json:"nal"`
	Ev  string `json:"ev,omitempty"` // something published before it
	Arg int    `json:"arg,omitempty"`
}

type gap struct {
	At int `json:"at"` // index of the audio frame
	Ms int `json:"ms"` // shift of it and the following ones
}

// audio is a train of AAC frames.
type audio struct {
	Rate, Ch, OT int
	Off          int // first frame, ms relative to the first video frame
	Skew         int // ms the audio arrives later than video of its time
	Jitter       int // ms, +/-
	Seed         uint32
	Max          int // bytes
	Gaps         []gap
}

// stream is everything one publisher sends.
type stream struct {
	HEVC  bool    `json:"hevc,omitempty"`
	Base  uint32  `json:"base"`
	V     []frame `json:"v"`
	A     *audio  `json:"a,omitempty"`
	NoHdr bool    `json:"nohdr,omitempty"`

	record func(c int) []byte // decoder configuration record, if not an opaque one
}

// item is one tag in publishing order, with what it means.
type item struct {
	kind byte // 'v', 'a', 'V' video header, 'A' audio header, '-' other
	ts   uint32
	tag  libflv.Tag
	// v
	key  bool
	cts  int32
	nals [][]byte
	sets [][]byte // V: parameter sets
	cfg  int      // V: configuration number
	rec  []byte   // V: decoder configuration record
	// a
	data       []byte
	ot, sr, ch int // A
}

var rates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

func (n nal) bytes(hevc bool) []byte {
	b := ref.Fill(n.S, n.N)
	if hevc {
		return ref.EPB(append([]byte{n.T << 1, 1}, b...))
	}
	nri := byte(3) << 5
	if n.T == 6 || n.T == 9 {
		nri = 0
	}
	return ref.EPB(append([]byte{nri | n.T}, b...))
}

func isSet(hevc bool, n []byte) bool {
	if hevc {
		t := n[0] >> 1 & 63
		return t >= 32 && t <= 34
	}
	t := n[0] & 31
	return t == 7 || t == 8
}
func isSPS(hevc bool, n []byte) bool {
	if hevc {
		return n[0]>>1&63 == 33
	}
	return n[0]&31 == 7
}
func isAUD(hevc bool, n []byte) bool {
	if hevc {
		return n[0]>>1&63 == 35
	}
	return n[0]&31 == 9
}

// paramSets makes the parameter sets of configuration c (opaque ones).
func paramSets(hevc bool, c int) (lists [][][]byte) {
	mk := func(t byte, k int) []byte {
		b := ref.Fill(uint32(c*31+int(t)*7+k), 4+(c*5+int(t)+k)%12)
		if hevc {
			return ref.EPB(append([]byte{t << 1, 1}, b...))
		}
		if t == 7 {
			b[0], b[1], b[2] = 77, 0, 31
		}
		return ref.EPB(append([]byte{0x60 | t}, b...))
	}
	n := 1 + c%2
	if hevc {
		for _, t := range []byte{32, 33, 34} {
			l := [][]byte{mk(t, 0)}
			if t == 34 && n == 2 {
				l = append(l, mk(t, 1))
			}
			lists = append(lists, l)
		}
		return
	}
	sps, pps := [][]byte{mk(7, 0)}, [][]byte{mk(8, 0)}
	if n == 2 {
		pps = append(pps, mk(8, 1))
		if c%4 == 3 {
			sps = append(sps, mk(7, 1))
		}
	}
	return [][][]byte{sps, pps}
}

func videoTag(ts uint32, hevc bool, key bool, pkt byte, cts int32, body []byte) libflv.Tag {
	codec := byte(7)
	if hevc {
		codec = 12
	}
	ft := byte(2)
	if key {
		ft = 1
	}
	b := append([]byte{ft<<4 | codec, pkt, byte(cts >> 16), byte(cts >> 8), byte(cts)}, body...)
	v, err := libflv.ParseVideoTag(libflv.TagBase{TagType: libflv.VIDEO_TAG, DataSize: uint32(len(b)), TimeStamp: ts}, b)
	if err != nil {
		panic(err)
	}
	return v
}

func audioTag(ts uint32, pkt byte, body []byte) libflv.Tag {
	b := append([]byte{0xaf, pkt}, body...)
	a, err := libflv.ParseAudioTag(libflv.TagBase{TagType: libflv.AUDIO_TAG, DataSize: uint32(len(b)), TimeStamp: ts}, b)
	if err != nil {
		panic(err)
	}
	return a
}

func asc(ot, sr, ch int) []byte {
	return []byte{byte(ot<<3 | sr>>1), byte(sr<<7 | ch<<3)}
}

// header builds the video sequence header of configuration c. sets may be
// replaced by real ones (DASH).
func (s *stream) header(ts uint32, c int, sets func(bool, int) [][][]byte) item {
	l := sets(s.HEVC, c)
	var rec []byte
	it := item{kind: 'V', ts: ts, cfg: c}
	if s.HEVC {
		rec = ref.HEVCRecord(l[0], l[1], l[2])
	} else {
		rec = ref.AVCRecord(l[0], l[1])
	}
	for _, x := range l {
		it.sets = append(it.sets, x...)
	}
	if s.record != nil {
		rec = s.record(c)
	}
	it.rec = rec
	it.tag = videoTag(ts, s.HEVC, true, 0, 0, rec)
	return it
}

// items renders the stream in publishing order.
func (s *stream) items(sets func(bool, int) [][][]byte) (out []item) {
	type ev struct {
		at int // relative ms of arrival
		it []item
	}
	var evs []ev
	ts := func(rel int) uint32 { return s.Base + uint32(rel) }
	if !s.NoHdr {
		evs = append(evs, ev{-1 << 30, []item{s.header(s.Base, 0, sets)}})
	}
	ot, sr, ch := 2, 4, 2
	if s.A != nil {
		ot, sr, ch = s.A.OT, s.A.Rate, s.A.Ch
		evs = append(evs, ev{-1 << 30, []item{{kind: 'A', ts: s.Base, ot: ot, sr: sr, ch: ch, tag: audioTag(s.Base, 0, asc(ot, sr, ch))}}})
	}
	rel, end := 0, 0
	for i, f := range s.V {
		if i > 0 {
			rel += f.D
		}
		end = rel
		var l []item
		switch f.Ev {
		case "vh":
			l = append(l, s.header(ts(rel), f.Arg, sets))
		case "eos":
			l = append(l, item{kind: '-', ts: ts(rel), tag: videoTag(ts(rel), s.HEVC, true, 2, 0, nil)})
		case "empty":
			l = append(l, item{kind: '-', ts: ts(rel), tag: videoTag(ts(rel), s.HEVC, false, 1, 0, nil)})
		case "ah":
			if s.A != nil {
				l = append(l, item{kind: 'A', ts: ts(rel), ot: ot, sr: sr, ch: 1 + f.Arg%7, tag: audioTag(ts(rel), 0, asc(ot, sr, 1+f.Arg%7))})
			}
		case "meta":
			l = append(l, item{kind: '-', ts: ts(rel), tag: &libflv.MetaTag{TagBase: libflv.TagBase{TagType: 18, TimeStamp: ts(rel)}}})
		}
		it := item{kind: 'v', ts: ts(rel), key: f.Key, cts: f.Cts}
		for _, n := range f.NAL {
			it.nals = append(it.nals, n.bytes(s.HEVC))
		}
		it.tag = videoTag(it.ts, s.HEVC, f.Key, 1, f.Cts, ref.AVCC(it.nals...))
		evs = append(evs, ev{rel, append(l, it)})
	}
	if a := s.A; a != nil {
		rate := rates[a.Rate]
		shift := 0
		prev := -1 << 29
		for k := 0; k < 900; k++ {
			for _, g := range a.Gaps {
				if g.At == k {
					shift += g.Ms
				}
			}
			at := a.Off + shift + k*1024*1000/rate
			if at > end+100 {
				break
			}
			j := 0
			if a.Jitter > 0 {
				j = int(ref.Fill(a.Seed+uint32(k), 1)[0])%(2*a.Jitter+1) - a.Jitter
			}
			at += j
			if at < prev {
				at = prev
			}
			prev = at
			if s.Base == 0 && at < 0 {
				continue
			}
			n := 1 + int(ref.Fill(a.Seed^uint32(k*77), 2)[1])*a.Max/256
			data := ref.Fill(a.Seed+uint32(k)*13+5, n)
			data[0] &= 0x7f
			evs = append(evs, ev{at + a.Skew, []item{{kind: 'a', ts: ts(at), data: data, tag: audioTag(ts(at), 1, data)}}})
		}
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
	for _, e := range evs {
		out = append(out, e.it...)
	}
	return out
}

func genStream(t *rapid.T, maxFrames int) (s stream) {
	s.HEVC = rapid.IntRange(0, 3).Draw(t, "hevc") == 0
	s.Base = rapid.OneOf(
		rapid.Just(uint32(0)),
		rapid.Uint32Range(0, 100000),
		rapid.Uint32Range(1<<32/90-4000, 1<<32/90+100), // 32-bit 90 kHz counter
		rapid.Uint32Range(1<<33/90-4000, 1<<33/90+100), // 33-bit 90 kHz counter
		rapid.Uint32Range(1<<32-8000, 1<<32-1),         // 32-bit ms counter
		rapid.Uint32(),
	).Draw(t, "base")
	d := rapid.SampledFrom([]int{1, 10, 16, 33, 40, 41, 66, 100, 100, 200, 250, 333, 400, 500, 667, 1000, 2000, 2500}).Draw(t, "d")
	vary := rapid.IntRange(0, 3).Draw(t, "vary")
	keyint := rapid.SampledFrom([]int{1, 1, 2, 3, 5, 8, 12, 25, 1000}).Draw(t, "keyint")
	ctsOn := rapid.IntRange(0, 2).Draw(t, "cts")
	n := rapid.IntRange(1, maxFrames).Draw(t, "n")
	inband := rapid.IntRange(0, 3).Draw(t, "inband")
	since := keyint
	cfg := 0
	for i := 0; i < n; i++ {
		f := frame{D: d}
		switch vary {
		case 1:
			f.D = max(0, d+rapid.IntRange(-d/3-1, d/3+1).Draw(t, "dd"))
		case 2:
			if rapid.IntRange(0, 9).Draw(t, "big") == 0 {
				f.D = rapid.SampledFrom([]int{0, 1, d * 3, 700, 2000, 2001, 6000, 20000}).Draw(t, "jump")
			}
		}
		since++
		if vary == 3 {
			f.Key = rapid.IntRange(0, 3).Draw(t, "key") == 0
		} else {
			f.Key = since >= keyint
		}
		if i == 0 && rapid.IntRange(0, 3).Draw(t, "firstkey") > 0 {
			f.Key = true
		}
		if f.Key {
			since = 0
		}
		switch ctsOn {
		case 1:
			f.Cts = int32(rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "cts") * d)
		case 2:
			if rapid.IntRange(0, 5).Draw(t, "hascts") == 0 {
				f.Cts = int32(rapid.SampledFrom([]int{-1, -40, 5000, 8388607, -8388608, 95444}).Draw(t, "wildcts"))
			}
		}
		size := func() int {
			switch rapid.IntRange(0, 7).Draw(t, "size") {
			case 0:
				return rapid.IntRange(0, 2).Draw(t, "tiny")
			case 1:
				return rapid.IntRange(100, 400).Draw(t, "pk")
			case 2:
				return rapid.IntRange(0, 6000).Draw(t, "big")
			}
			return rapid.IntRange(1, 60).Draw(t, "small")
		}
		seed := func() uint32 { return rapid.Uint32Range(0, 1<<20).Draw(t, "seed") }
		add := func(ty byte, n int) { f.NAL = append(f.NAL, nal{ty, n, seed()}) }
		if rapid.IntRange(0, 4).Draw(t, "aud") == 0 {
			if s.HEVC {
				add(35, 1)
			} else {
				add(9, 1)
			}
		}
		if f.Key && (inband == 1 || inband == 2 && rapid.Bool().Draw(t, "ib")) {
			if s.HEVC {
				add(32, 5)
				add(33, 8)
				add(34, 3)
			} else {
				add(7, 8)
				add(8, 3)
			}
		}
		if rapid.IntRange(0, 4).Draw(t, "sei") == 0 {
			if s.HEVC {
				add(39, 6)
			} else {
				add(6, 6)
			}
		}
		for k := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "slices"); k > 0; k-- {
			switch {
			case s.HEVC && f.Key:
				add(rapid.SampledFrom([]byte{19, 20, 21}).Draw(t, "irap"), size())
			case s.HEVC:
				add(rapid.SampledFrom([]byte{1, 0}).Draw(t, "trail"), size())
			case f.Key:
				add(5, size())
			default:
				add(1, size())
			}
		}
		if i > 0 && rapid.IntRange(0, 24).Draw(t, "ev") == 0 {
			f.Ev = rapid.SampledFrom([]string{"vh", "vh", "eos", "empty", "ah", "meta"}).Draw(t, "evk")
			switch f.Ev {
			case "vh":
				if f.Key && rapid.Bool().Draw(t, "newcfg") {
					cfg++
				}
				f.Arg = cfg
			case "ah":
				f.Arg = rapid.IntRange(0, 6).Draw(t, "ach")
			}
		}
		s.V = append(s.V, f)
	}
	if rapid.IntRange(0, 2).Draw(t, "audio") > 0 {
		a := &audio{
			Rate: rapid.SampledFrom([]int{3, 4, 4, 5, 7, 8, 11, 12, 0}).Draw(t, "rate"),
			Ch:   rapid.IntRange(1, 7).Draw(t, "ch"),
			OT:   rapid.IntRange(1, 4).Draw(t, "ot"),
			Off:  rapid.SampledFrom([]int{0, 0, 5, -300, 400, 3000}).Draw(t, "off"),
			Skew: rapid.SampledFrom([]int{0, 0, 120, -80}).Draw(t, "skew"),
			Seed: rapid.Uint32Range(0, 1<<20).Draw(t, "aseed"),
			Max:  rapid.SampledFrom([]int{2, 20, 300, 1500, 8000}).Draw(t, "amax"),
		}
		if rapid.IntRange(0, 2).Draw(t, "jit") == 0 {
			a.Jitter = rapid.IntRange(1, 8).Draw(t, "jitter")
		}
		for k := rapid.IntRange(0, 3).Draw(t, "gaps"); k > 0; k-- {
			a.Gaps = append(a.Gaps, gap{rapid.IntRange(1, 300).Draw(t, "at"), rapid.SampledFrom([]int{1, 3, 50, 1000, 5000}).Draw(t, "ms")})
		}
		s.A = a
	}
	return s
}

// stepReader feeds tags and calls onStep before each; everything published
// before has then been handled.
type stepReader struct {
	items  []item
	i      int
	onStep func(i int)
}

func (r *stepReader) Read() (interface{}, bool) {
	if r.onStep != nil {
		r.onStep(r.i)
	}
	if r.i >= len(r.items) {
		return nil, false
	}
	r.i++
	return r.items[r.i-1].tag, true
}

func wrapSub(a, b uint64) int64 { // a-b modulo 2^33
	return int64((a-b)<<31) >> 31
}

const m33 = 1<<33 - 1

func fmtNALs(l [][]byte) string {
	s := ""
	for _, n := range l {
		if len(n) > 12 {
			s += fmt.Sprintf(" %x..(%d)", n[:12], len(n))
		} else {
			s += fmt.Sprintf(" %x", n)
		}
	}
	return s
}
