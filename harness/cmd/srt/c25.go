package main

import (
	"bytes"
	"fmt"
	"net"
	"time"

	"github.com/sbraveyoung/GGmpeg/libsrt"
	"pgregory.net/rapid"

	"verif/harness/eng"
	"verif/harness/ref"
	"verif/harness/wire"
)

// ---------------------------------------------------------------- C25 ----

type c25nal struct {
	T byte   `json:"t"`
	N int    `json:"n"`
	S uint32 `json:"s"`
	Z byte   `json:"z,omitempty"` // bit 0: 4-byte start code, bit 1: zero bytes in the payload, bit 2: trailing zero byte
}

type c25unit struct {
	A      bool     `json:"a,omitempty"`
	D      int      `json:"d"` // ticks since the previous unit of the track
	C      int      `json:"c,omitempty"`
	NALs   []c25nal `json:"nals,omitempty"`
	Set    int      `json:"set,omitempty"` // parameter sets it carries, 0 none
	Frames []int    `json:"f,omitempty"`
	Cfg    int      `json:"cfg,omitempty"`
	Seed   uint32   `json:"s,omitempty"`
	HStuff int      `json:"hs,omitempty"`
	Len    bool     `json:"len,omitempty"`
	RAI    bool     `json:"rai,omitempty"`
	PCR    bool     `json:"pcr,omitempty"`
}

type c25noise struct {
	At   int    `json:"at"`
	Kind string `json:"k"` // null foreign pcr sdt dup drop tei scrambled table next
	S    uint32 `json:"s,omitempty"`
}

type c25sess struct {
	VPID   uint16     `json:"vpid"`
	APID   uint16     `json:"apid"`
	PMTPID uint16     `json:"pmtpid"`
	Prog   uint16     `json:"prog"`
	Ver    byte       `json:"ver"`
	Net    bool       `json:"net,omitempty"`
	AFirst bool       `json:"afirst,omitempty"`
	Extra  bool       `json:"extra,omitempty"`
	PDesc  int        `json:"pdesc,omitempty"`
	ESDesc int        `json:"esdesc,omitempty"`
	Share  bool       `json:"share,omitempty"`
	Twin   bool       `json:"twin,omitempty"` // another section before the PMT on its PID
	Old    bool       `json:"old,omitempty"`
	CC     byte       `json:"cc"`
	Base   uint64     `json:"base"`
	AOff   int        `json:"aoff,omitempty"`
	HEVC   bool       `json:"hevc,omitempty"`
	Units  []c25unit  `json:"u"`
	Mix    []int      `json:"mix"`
	Stuff  []int      `json:"stuff"`
	Lead   int        `json:"lead,omitempty"` // media packets before the tables
	Noise  []c25noise `json:"noise,omitempty"`
	Group  []int      `json:"g"`
	Lost   []int      `json:"lost,omitempty"` // datagrams
	Join   int        `json:"join,omitempty"`
	FLV    bool       `json:"flv,omitempty"`
	Other  bool       `json:"other,omitempty"` // another caller tries meanwhile
	ISN    uint32     `json:"isn,omitempty"`
}

type c25 struct {
	Wire bool      `json:"wire,omitempty"`
	S    []c25sess `json:"s"`
}

var c25cfgs = [][3]int{{1, 4, 2}, {1, 3, 2}, {1, 3, 1}, {0, 4, 2}, {3, 8, 1}, {1, 11, 6}, {2, 12, 7}, {1, 0, 2}} // ADTS profile, rate index, channels

var adtsRates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

func genC25(t *rapid.T) c25 {
	c := c25{Wire: rapid.IntRange(0, 3).Draw(t, "wire") == 0}
	n := 1
	if c.Wire && rapid.IntRange(0, 2).Draw(t, "two") == 0 {
		n = 2
	}
	for i := 0; i < n; i++ {
		c.S = append(c.S, genSess(t, c.Wire))
	}
	return c
}

func genSess(t *rapid.T, onWire bool) c25sess {
	pid := rapid.OneOf(rapid.SampledFrom([]uint16{0x100, 0x101, 0x1000, 0x20, 0x21, 0x1ffe, 0x41}), rapid.Uint16Range(0x20, 0x1ffe))
	s := c25sess{
		VPID: pid.Draw(t, "vpid"), APID: pid.Draw(t, "apid"), PMTPID: pid.Draw(t, "pmtpid"),
		Prog: rapid.Uint16Range(1, 65535).Draw(t, "prog"), Ver: rapid.ByteRange(0, 31).Draw(t, "ver"),
		Net: rapid.IntRange(0, 3).Draw(t, "net") == 0, AFirst: rapid.Bool().Draw(t, "afirst"),
		Extra: rapid.IntRange(0, 3).Draw(t, "extra") == 0, Share: rapid.Bool().Draw(t, "share"),
		Twin: rapid.IntRange(0, 5).Draw(t, "twin") == 0,
		Old:  rapid.IntRange(0, 7).Draw(t, "old") == 0,
		CC:   rapid.ByteRange(0, 15).Draw(t, "cc"),
		Base: rapid.OneOf(rapid.Uint64Range(1<<26, 1<<28), rapid.Uint64Range(1<<33-300000, 1<<33-1), rapid.Uint64Range(1<<32-100000, 1<<32+100000)).Draw(t, "base"),
		AOff: rapid.IntRange(-20000, 20000).Draw(t, "aoff"),
		HEVC: !onWire && rapid.IntRange(0, 4).Draw(t, "hevc") == 0,
		FLV:  rapid.Bool().Draw(t, "flv"),
		ISN:  genSeq31(t, "isn"),
	}
	if rapid.IntRange(0, 3).Draw(t, "desc") == 0 {
		s.PDesc = rapid.SampledFrom([]int{1, 8, 60, 200, 250}).Draw(t, "pdesc")
		s.ESDesc = rapid.SampledFrom([]int{0, 6, 100, 180, 255}).Draw(t, "esdesc")
	}
	taken := map[uint16]bool{0x1f0: true, 0x1f1: true, 0x1f2: true, 0x1fff: true}
	for _, p := range []*uint16{&s.VPID, &s.APID, &s.PMTPID} {
		for taken[*p] {
			*p = 0x20 + (*p+1)%0x1f00
		}
		taken[*p] = true
	}
	tracks := rapid.SampledFrom([]string{"av", "av", "av", "v", "a"}).Draw(t, "tracks")
	if onWire && rapid.IntRange(0, 5).Draw(t, "a") > 0 && tracks == "a" {
		tracks = "av"
	}
	nu := rapid.IntRange(1, 14).Draw(t, "units")
	cfg := rapid.IntRange(0, len(c25cfgs)-1).Draw(t, "cfg")
	set := rapid.IntRange(1, 4).Draw(t, "set")
	first := true
	for i := 0; i < nu; i++ {
		a := tracks == "a" || tracks == "av" && rapid.IntRange(0, 2).Draw(t, "isa") == 0
		u := c25unit{A: a, Seed: rapid.Uint32().Draw(t, "seed"), D: rapid.IntRange(0, 5000).Draw(t, "d")}
		if s.Base > 1<<33-1<<20 {
			u.D %= 3000 // the tracks stay close to each other at the wrap
		} else if rapid.IntRange(0, 12).Draw(t, "jump") == 0 {
			u.D = rapid.IntRange(0, 3000000).Draw(t, "bigd")
		}
		if rapid.IntRange(0, 5).Draw(t, "hs") == 0 {
			u.HStuff = rapid.IntRange(1, 30).Draw(t, "hstuff")
		}
		u.RAI, u.PCR = rapid.IntRange(0, 3).Draw(t, "rai") == 0, rapid.IntRange(0, 3).Draw(t, "pcr") == 0
		if a {
			u.Len = true
			if rapid.IntRange(0, 8).Draw(t, "newcfg") == 0 {
				cfg = rapid.IntRange(0, len(c25cfgs)-1).Draw(t, "cfg")
			}
			u.Cfg = cfg
			if rapid.IntRange(0, 4).Draw(t, "crc") == 0 {
				u.Cfg += 100
			}
			for k := rapid.IntRange(1, 4).Draw(t, "frames"); k > 0; k-- {
				u.Frames = append(u.Frames, rapid.OneOf(rapid.IntRange(1, 400), rapid.SampledFrom([]int{1, 8170}), rapid.IntRange(150, 200)).Draw(t, "frame"))
			}
		} else {
			u.Len = rapid.Bool().Draw(t, "len")
			if rapid.IntRange(0, 2).Draw(t, "cts") == 0 {
				u.C = rapid.IntRange(-3000, 30000).Draw(t, "ctsv")
			}
			key := first || rapid.IntRange(0, 2).Draw(t, "key") == 0
			if key && rapid.IntRange(0, 4).Draw(t, "nosets") > 0 || rapid.IntRange(0, 12).Draw(t, "oddsets") == 0 {
				if rapid.IntRange(0, 3).Draw(t, "newset") == 0 {
					set = rapid.IntRange(1, 4).Draw(t, "setv")
				}
				u.Set = set
			}
			first = false
			if rapid.IntRange(0, 2).Draw(t, "aud") > 0 {
				u.NALs = append(u.NALs, c25nal{T: 9, N: 1, S: 0})
			}
			if rapid.IntRange(0, 4).Draw(t, "sei") == 0 {
				u.NALs = append(u.NALs, c25nal{T: 6, N: rapid.IntRange(2, 60).Draw(t, "sein"), S: rapid.Uint32().Draw(t, "seis")})
			}
			typ := byte(1)
			if key {
				typ = 5
			}
			for k := rapid.SampledFrom([]int{1, 1, 1, 2, 4}).Draw(t, "slices"); k > 0; k-- {
				u.NALs = append(u.NALs, c25nal{T: typ, S: rapid.Uint32().Draw(t, "ns"), Z: rapid.ByteRange(0, 7).Draw(t, "z"),
					N: rapid.OneOf(rapid.IntRange(2, 300), rapid.IntRange(2, 300), rapid.IntRange(1, 9*184), rapid.SampledFrom([]int{4000, 20000, 65510, 70000})).Draw(t, "nn")})
			}
		}
		s.Units = append(s.Units, u)
	}
	s.Mix = rapid.SliceOfN(rapid.IntRange(0, 6), 1, 6).Draw(t, "mix")
	s.Stuff = rapid.SliceOfN(rapid.OneOf(rapid.Just(0), rapid.Just(0), rapid.IntRange(0, 183), rapid.SampledFrom([]int{1, 2, 3, 183, 182})), 1, 5).Draw(t, "stuff")
	if rapid.IntRange(0, 4).Draw(t, "lead") == 0 {
		s.Lead = rapid.IntRange(1, 6).Draw(t, "leadn")
	}
	kinds := []string{"null", "foreign", "pcr", "sdt", "dup", "table", "next"}
	if rapid.Bool().Draw(t, "damage") {
		kinds = append(kinds, "drop", "drop", "drop", "tei", "scrambled", "burst")
	}
	for k := rapid.IntRange(0, 10).Draw(t, "noise"); k > 0; k-- {
		s.Noise = append(s.Noise, c25noise{At: rapid.IntRange(0, 200).Draw(t, "at"), Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), S: rapid.Uint32().Draw(t, "nseed")})
	}
	max := 20
	if onWire {
		max = 7
		s.Join = rapid.OneOf(rapid.IntRange(1, 4), rapid.IntRange(1, 60)).Draw(t, "join")
		s.Other = rapid.IntRange(0, 3).Draw(t, "other") == 0
		if rapid.IntRange(0, 3).Draw(t, "lossy") == 0 {
			s.Lost = rapid.SliceOfN(rapid.IntRange(0, 100), 1, 3).Draw(t, "lost")
		}
	}
	s.Group = rapid.SliceOfN(rapid.IntRange(1, max), 1, 4).Draw(t, "group")
	return s
}

// c25built is a unit as it is muxed.
type c25built struct {
	c25unit
	pts, dts uint64
	es       []byte   // PES payload
	frames   [][]byte // ADTS frames
	raw      [][]byte // without headers
	asc      []byte
	nals     [][]byte // slices and SEI
	key      bool
	sps, pps []byte

	got       int  // packets delivered
	packets   int  // packets
	early     bool // started before the tables were known
	followed  bool // the packet after its last one on its PID arrived
	delivered int  // datagram of that packet
}

func (b *c25built) complete() bool { return b.packets > 0 && b.got == b.packets }
func (b *c25built) must() bool     { return b.complete() && !b.early && b.followed }

func c25sets(k int) (sps, pps []byte) {
	// nal_ref_idc of parameter sets is any but 0, their size is not bounded by 255;
	// 1 and 4 are of the same size
	n := 0
	if k%3 == 0 {
		n = 300
	}
	sps = ref.EPB(append([]byte{byte(1+k%3)<<5 | 7, 66 + byte(k)*11, 0, 30 + byte(k)}, ref.Fill(uint32(k), 8+k%3+n)...))
	pps = ref.EPB(append([]byte{byte(1+(k+1)%3)<<5 | 8}, ref.Fill(uint32(k)+9, 3+k%3+n)...))
	return
}

func (s *c25sess) build() (out []*c25built) {
	vt, at := s.Base, s.Base+uint64(int64(s.AOff))
	for ui, u := range s.Units {
		b := &c25built{c25unit: u}
		if u.A {
			at += uint64(u.D)
			b.pts, b.dts = at&m33srt, at&m33srt
			cfg := c25cfgs[u.Cfg%100%len(c25cfgs)]
			crc := u.Cfg >= 100
			prof, ri, ch := byte(cfg[0]), byte(cfg[1]), byte(cfg[2])
			b.asc = []byte{(prof+1)<<3 | ri>>1, ri<<7 | ch<<3}
			for i, n := range u.Frames {
				if n > 8191-11 {
					n = 8191 - 11
				}
				// every frame and slice is different from the others
				raw := append(ref.Fill(u.Seed+uint32(i), n), byte(ui), byte(i))
				n = len(raw)
				hl := 7
				if crc {
					hl = 9
				}
				l := hl + n
				h := []byte{0xff, 0xf1, prof<<6 | ri<<2 | ch>>2, ch<<6 | byte(l>>11), byte(l >> 3), byte(l<<5) | 0x1f, 0xfc}
				if crc {
					h[1] = 0xf0
					h = append(h, 0x12, 0x34)
				}
				f := append(h, raw...)
				b.frames = append(b.frames, f)
				b.raw = append(b.raw, raw)
				b.es = append(b.es, f...)
			}
		} else {
			vt += uint64(u.D)
			b.dts, b.pts = vt&m33srt, uint64(int64(vt)+int64(u.C))&m33srt
			add := func(z byte, nal []byte) {
				if z&1 != 0 || len(b.es) == 0 {
					b.es = append(b.es, 0)
				}
				b.es = append(b.es, 0, 0, 1)
				b.es = append(b.es, nal...)
				if z&4 != 0 {
					b.es = append(b.es, 0)
				}
			}
			sets := func() {
				if u.Set > 0 && b.sps == nil {
					b.sps, b.pps = c25sets(u.Set)
					if s.HEVC {
						add(1, append([]byte{0x42, 1}, b.sps[1:]...))
						add(0, append([]byte{0x44, 1}, b.pps[1:]...))
						return
					}
					add(1, b.sps)
					add(0, b.pps)
				}
			}
			for ni, n := range u.NALs {
				if n.T != 9 {
					sets()
				}
				p := ref.Fill(n.S, n.N)
				if n.Z&2 != 0 {
					for i := range p {
						if p[i]&3 != 0 {
							p[i] &= 1
						}
					}
				}
				p = append(p, byte(ui), byte(ni))
				hd := []byte{byte(n.S&3)<<5 | n.T}
				switch n.T {
				case 5:
					hd[0] = byte(1+n.S%3)<<5 | 5
				case 6:
					hd[0] = 6
				}
				if n.T == 9 {
					hd = []byte{9}
					p = []byte{0xf0}
				}
				if s.HEVC {
					hd = []byte{map[byte]byte{9: 35, 6: 39, 1: 1, 5: 19}[n.T] << 1, 1}
				}
				nal := ref.EPB(append(hd, p...))
				add(n.Z, nal)
				if n.T == 5 {
					b.key = true
				}
				if n.T != 9 {
					b.nals = append(b.nals, nal)
				}
			}
		}
		out = append(out, b)
	}
	return out
}

const m33srt = 1<<33 - 1

// datagrams multiplexes the session: it returns the datagrams to feed and
// notes in the units what of them arrives.
func (s *c25sess) datagrams(units []*c25built) (out [][]byte, dropped []bool) {
	m := &ref.TSMux{CC: map[uint16]byte{s.VPID: s.CC, s.APID: s.CC + 5, s.PMTPID: s.CC + 9, 0: s.CC + 11}, Stuff: s.Stuff}
	type track struct {
		pid  uint16
		pkts []ref.TSPacket
	}
	v, a := &track{pid: s.VPID}, &track{pid: s.APID}
	for i, u := range units {
		t, sid := v, byte(0xe0)
		if u.A {
			t, sid = a, 0xc0
		}
		pes, hl := ref.PESHeader(sid, u.pts, u.dts, u.HStuff, u.Len, u.es)
		pcr := int64(-1)
		if u.PCR {
			pcr = int64(u.dts)
		}
		pk := m.Packets(t.pid, i, u.RAI, pcr, pes, hl)
		u.packets = len(pk)
		t.pkts = append(t.pkts, pk...)
	}
	// interleave the tracks packet by packet
	var media []ref.TSPacket
	for k := 0; len(v.pkts)+len(a.pkts) > 0; k++ {
		t := v
		if k%2 == 1 {
			t = a
		}
		n := s.Mix[k%len(s.Mix)]
		if t == v && k > 40 {
			n += 3
		}
		if n > len(t.pkts) {
			n = len(t.pkts)
		}
		if n == 0 && k%2 == 1 && len(v.pkts) == 0 {
			n = min(1, len(a.pkts))
		}
		if n == 0 && k%2 == 0 && len(a.pkts) == 0 {
			n = min(1, len(v.pkts))
		}
		media = append(media, t.pkts[:n]...)
		t.pkts = t.pkts[n:]
		if k > 100000 { // a mix of zeroes
			media = append(append(media, v.pkts...), a.pkts...)
			break
		}
	}
	hasV, hasA := false, false
	for _, u := range units {
		hasV = hasV || !u.A
		hasA = hasA || u.A
	}
	// tables
	pat := func(current bool, pmtpid uint16) []byte {
		var b []byte
		if s.Net {
			b = append(b, 0, 0, 0xe0, 0x10)
		}
		b = append(b, byte(s.Prog>>8), byte(s.Prog), 0xe0|byte(pmtpid>>8), byte(pmtpid))
		return ref.PSISection(0, 7, s.Ver, current, b)
	}
	desc := func(n int) (b []byte) {
		for n > 0 {
			k := min(n, 100)
			b = append(b, 0x80, byte(k))
			b = append(b, ref.Fill(uint32(n), k)...)
			n -= k
		}
		return b
	}
	pmt := func(current bool, vpid, apid uint16) []byte {
		pd, ed := desc(s.PDesc), desc(s.ESDesc)
		pcr := vpid
		if !hasV {
			pcr = apid
		}
		b := []byte{0xe0 | byte(pcr>>8), byte(pcr), 0xf0 | byte(len(pd)>>8), byte(len(pd))}
		b = append(b, pd...)
		es := func(typ byte, pid uint16) {
			b = append(b, typ, 0xe0|byte(pid>>8), byte(pid), 0xf0|byte(len(ed)>>8), byte(len(ed)))
			b = append(b, ed...)
		}
		vt := byte(0x1b)
		if s.HEVC {
			vt = 0x24
		}
		if s.Extra {
			es(0x06, 0x1f0)
		}
		if hasA && s.AFirst {
			es(0x0f, apid)
		}
		if hasV {
			es(vt, vpid)
		}
		if hasA && !s.AFirst {
			es(0x0f, apid)
		}
		if s.Extra {
			es(0x15, 0x1f1)
		}
		return ref.PSISection(2, s.Prog, s.Ver, current, b)
	}
	tables := func() (out []ref.TSPacket) {
		out = m.Sections(0, s.Share, pat(true, s.PMTPID))
		if s.Twin {
			other := ref.PSISection(0xc0, 1, 0, true, ref.Fill(3, 70))
			if s.Prog&1 == 0 {
				return append(out, m.Sections(s.PMTPID, s.Share, pmt(true, s.VPID, s.APID), other)...)
			}
			return append(out, m.Sections(s.PMTPID, s.Share, other, pmt(true, s.VPID, s.APID))...)
		}
		return append(out, m.Sections(s.PMTPID, s.Share, pmt(true, s.VPID, s.APID))...)
	}
	type pkt struct {
		ref.TSPacket
		drop byte // 0 no, 1 does not arrive, 2 arrives damaged, 3 scrambled
		seq  bool // counts for the continuity of its PID
		keep bool // one of the first tables
		dup  bool // followed by a second copy
	}
	var list []pkt
	put := func(keep bool, ps ...ref.TSPacket) {
		for _, p := range ps {
			list = append(list, pkt{TSPacket: p, seq: true, keep: keep})
		}
	}
	// the continuity counters of tables are numbered as they are made, so
	// they are made in the order of their insertion
	lead := min(s.Lead, len(media))
	put(false, media[:lead]...)
	if s.Old {
		// the program's table was elsewhere until now
		put(true, m.Sections(0, s.Share, pat(true, 0x1f2))...)
	}
	put(true, tables()...)
	nlead := len(list)
	at := map[int][]c25noise{}
	rest := media[lead:]
	for _, n := range s.Noise {
		at[n.At%(len(rest)+1)] = append(at[n.At%(len(rest)+1)], n)
	}
	foreign := func(pid uint16, seed uint32) ref.TSPacket {
		b := append([]byte{0x47, byte(pid >> 8), byte(pid), 0x10 | byte(seed&15)}, ref.Fill(seed, 184)...)
		if seed&1 == 0 {
			b[1] |= 0x40
		}
		if seed&2 != 0 { // looks like a PES packet
			copy(b[4:], []byte{0, 0, 1, 0xe0, 0, 0, 0x80, 0x80, 5, 0x21, 0, 1, 0, 1, 0, 0, 0, 1, 0x65})
		}
		return ref.TSPacket{B: b, PID: pid, Unit: -1}
	}
	burst := 0
	var burstPID uint16
	lastCC := map[uint16]int{}
	for i := 0; i <= len(rest); i++ {
		dup := false
		var drop byte
		for _, n := range at[i] {
			switch n.Kind {
			case "null":
				list = append(list, pkt{TSPacket: foreign(0x1fff, n.S)})
			case "foreign":
				pid := uint16(0x1f0)
				if n.S&4 == 0 {
					pid = uint16(0x20 + n.S>>3%0x1fdf)
				}
				if pid != s.VPID && pid != s.APID && pid != s.PMTPID {
					list = append(list, pkt{TSPacket: foreign(pid, n.S)})
				}
			case "sdt":
				b := m.Sections(0x11, false, ref.PSISection(0x42, 1, 0, true, ref.Fill(n.S, 40)))
				for _, p := range b {
					list = append(list, pkt{TSPacket: p})
				}
			case "pcr":
				pid := s.VPID
				if !hasV {
					pid = s.APID
				}
				b := append([]byte{0x47, byte(pid >> 8), byte(pid), 0x20, 183, 0x10, 1, 2, 3, 4, 0x7e, 0}, bytes.Repeat([]byte{0xff}, 176)...)
				if cc, ok := lastCC[pid]; ok {
					b[3] |= byte(cc)
				}
				list = append(list, pkt{TSPacket: ref.TSPacket{B: b[:188], PID: pid, Unit: -1}})
			case "table":
				put(false, tables()...)
			case "next":
				put(false, m.Sections(0, s.Share, pat(false, 0x1abc))...)
				put(false, m.Sections(s.PMTPID, s.Share, pmt(false, 0x1f0, 0x1f1))...)
			case "dup":
				dup = true
			case "drop":
				drop = 1
			case "tei":
				drop = 2
			case "scrambled":
				drop = 3
			case "burst":
				if i < len(rest) {
					burst, burstPID = int(2+n.S%40), rest[i].PID
				}
			}
		}
		if i == len(rest) {
			break
		}
		p := pkt{TSPacket: rest[i], drop: drop, seq: true}
		lastCC[p.PID] = int(p.B[3] & 15)
		if burst > 0 && p.PID == burstPID {
			burst--
			p.drop = 1
		}
		p.dup = dup && p.drop == 0
		list = append(list, p)
		if p.dup {
			q := p
			q.seq, q.dup = false, false
			q.Unit = -1
			list = append(list, q)
		}
	}
	// datagrams
	var groups []int // index of the datagram of every packet
	g, left := 0, s.Group[0]
	for range list {
		if left == 0 {
			g++
			left = s.Group[g%len(s.Group)]
		}
		groups = append(groups, g)
		left--
	}
	if len(list) == 0 {
		return nil, nil
	}
	last := groups[len(groups)-1]
	dropped = make([]bool, last+1)
	gone := func(i int) bool { return list[i].drop != 0 || dropped[groups[i]] }
	lost := func(i int) bool { return gone(i) && !(list[i].dup && !gone(i+1)) }
	legal := func() bool {
		run := map[uint16]int{}
		seen := map[uint16]bool{}
		for i, p := range list {
			lost := lost(i)
			if lost && p.keep {
				return false
			}
			if !p.seq {
				continue
			}
			if lost {
				run[p.PID]++
				continue
			}
			// what the continuity counter cannot tell is excluded
			if n := run[p.PID]; seen[p.PID] && n > 0 && (n%16 == 0 || n%16 == 15) {
				return false
			}
			run[p.PID] = 0
			seen[p.PID] = true
		}
		return true
	}
	for i := range list {
		if list[i].drop != 0 && !legal() {
			list[i].drop = 0
		}
	}
	if !legal() {
		for i := range list {
			list[i].drop = 0
		}
	}
	for _, d := range s.Lost {
		d %= last + 1
		if !dropped[d] {
			dropped[d] = true
			if !legal() {
				dropped[d] = false
			}
		}
	}
	// what arrives
	prev := map[uint16]*c25built{}
	out = make([][]byte, last+1)
	for i, p := range list {
		lost := lost(i)
		if p.seq && p.Unit >= 0 {
			u := units[p.Unit]
			if q := prev[p.PID]; q != nil && p.PUSI && !lost {
				q.followed = true
				q.delivered = groups[i]
				if gone(i) {
					q.delivered = groups[i+1]
				}
			}
			prev[p.PID] = nil
			if p.PUSI && i < nlead {
				u.early = true
			}
			if !lost {
				u.got++
			}
			if p.Last {
				prev[p.PID] = u
			}
		}
		b := p.B
		switch p.drop {
		case 1:
			continue
		case 2, 3:
			b = append([]byte(nil), b...)
			if p.drop == 2 {
				b[1] |= 0x80
			} else {
				b[3] |= 0x80
			}
			copy(b[20:], ref.Fill(uint32(i), 160))
		}
		out[groups[i]] = append(out[groups[i]], b...)
	}
	return out, dropped
}

func (c c25) ok() bool {
	for _, s := range c.S {
		if len(s.Units) == 0 || len(s.Group) == 0 || len(s.Mix) == 0 || len(s.Stuff) == 0 || s.VPID == s.APID || s.VPID == s.PMTPID || s.APID == s.PMTPID {
			return false
		}
		for _, g := range s.Group {
			if g < 1 || c.Wire && g > 7 {
				return false
			}
		}
	}
	return len(c.S) > 0
}

func runC25(c *eng.Ctx, cs c25) error {
	if !cs.ok() {
		return nil
	}
	if cs.Wire {
		c.Class("SRT to viewers")
		return runC25wire(c, cs)
	}
	c.Class("demultiplexer")
	for i := range cs.S {
		if err := runC25lib(c, &cs.S[i]); err != nil {
			return err
		}
	}
	return nil
}

func (s *c25sess) classes(c *eng.Ctx, units []*c25built) {
	holes, n := false, 0
	var va, aa bool
	for _, u := range units {
		va, aa = va || !u.A, aa || u.A
		if u.must() {
			n++
		}
		if u.got != u.packets {
			holes = true
			c.Class("unit with a hole")
		}
		if u.early {
			c.Class("unit before the tables")
		}
		if u.dts < s.Base && s.Base-u.dts > 1<<32 {
			c.Class("timestamps wrap")
		}
		if u.packets > 300 {
			c.Class("large unit")
		}
	}
	for _, x := range s.Noise {
		c.Class("noise " + x.Kind)
	}
	if s.PDesc+s.ESDesc > 160 {
		c.Class("tables of several packets")
	}
	if s.HEVC && va {
		c.Class("HEVC")
	}
	if holes {
		c.Class("damaged")
	}
	if n >= 2 && (va && aa || holes) {
		c.NonTrivial()
	}
}

func runC25lib(c *eng.Ctx, s *c25sess) error {
	units := s.build()
	dgs, dropped := s.datagrams(units)
	s.classes(c, units)
	d := libsrt.NewDemuxer()
	var gv []libsrt.AccessUnit
	var ga []libsrt.AudioFrame
	d.OnVideo = func(u libsrt.AccessUnit) { u.NAL = append([]byte(nil), u.NAL...); gv = append(gv, u) }
	d.OnAudio = func(f libsrt.AudioFrame) { f.Data = append([]byte(nil), f.Data...); ga = append(ga, f) }
	for i, b := range dgs {
		if !dropped[i] {
			d.Feed(append([]byte(nil), b...))
		}
	}
	// video
	k := 0
	for i, u := range units {
		if u.A || !u.complete() {
			continue
		}
		if k < len(gv) {
			g := gv[k]
			if bytes.Equal(g.NAL, u.es) && g.PTS&m33srt == u.pts && g.DTS&m33srt == u.dts {
				if g.Key != u.key {
					return fmt.Errorf("unit %d (video): reported as keyframe %v, it is %v", i, g.Key, u.key)
				}
				k++
				continue
			}
		}
		if u.must() {
			return fmt.Errorf("unit %d (video, %d bytes in %d packets, pts %d dts %d) arrived whole and was followed by another one, got instead: %s", i, len(u.es), u.packets, u.pts, u.dts, describeAU(gv, k))
		}
	}
	if k < len(gv) {
		return fmt.Errorf("video unit that was not sent, or not whole: %s", describeAU(gv, k))
	}
	k = 0
	for i, u := range units {
		if !u.A || !u.complete() {
			continue
		}
		rate := uint64(adtsRates[c25cfgs[u.Cfg%100%len(c25cfgs)][1]])
		n := 0
		for j, f := range u.frames {
			if k+j >= len(ga) {
				break
			}
			want := u.pts + uint64(j)*1024*90000/rate
			diff := int64((ga[k+j].PTS-want)<<31) >> 31
			if !bytes.Equal(ga[k+j].Data, f) || diff < -1 || diff > 1 {
				break
			}
			n++
		}
		if n == len(u.frames) {
			k += n
			continue
		}
		if u.must() {
			what := "nothing more"
			if k+n < len(ga) {
				what = fmt.Sprintf("%d bytes at %d", len(ga[k+n].Data), ga[k+n].PTS)
			}
			return fmt.Errorf("unit %d (audio, %d frames at %d): frame %d did not come out: %s", i, len(u.frames), u.pts, n, what)
		}
	}
	if k < len(ga) {
		return fmt.Errorf("audio frame that was not sent, or not whole: %d bytes at %d", len(ga[k].Data), ga[k].PTS)
	}
	return nil
}

func describeAU(g []libsrt.AccessUnit, k int) string {
	if k >= len(g) {
		return "nothing"
	}
	return fmt.Sprintf("%d bytes, pts %d dts %d, starting % x", len(g[k].NAL), g[k].PTS, g[k].DTS, g[k].NAL[:min(12, len(g[k].NAL))])
}

// ------------------------------------------------------------- on the wire

type c25caller struct {
	srtCaller
	seq uint32
}

func srtDial(addr string, id, isn uint32) (*c25caller, error) {
	ua, err := net.ResolveUDPAddr("udp", addr)
	if err != nil {
		return nil, err
	}
	conn, err := net.DialUDP("udp", &net.UDPAddr{IP: net.ParseIP(wire.IP())}, ua)
	if err != nil {
		return nil, err
	}
	c := &c25caller{srtCaller: srtCaller{conn: conn, id: id, isn: isn}, seq: isn}
	buf := make([]byte, 2000)
	ask := func(typ int32) ([]byte, error) {
		for try := 0; try < 40; try++ {
			conn.Write(ctrlPkt(0, 0, 0, 0, hsBody(5, isn, typ, id, c.cookie)))
			conn.SetReadDeadline(time.Now().Add(500 * time.Millisecond))
			for {
				n, err := conn.Read(buf)
				if err != nil {
					break
				}
				if n >= 64 && buf[0] == 0x80 && buf[1] == 0 && int32(u32(buf[36:])) == typ {
					return buf[16:n], nil
				}
			}
		}
		return nil, fmt.Errorf("the SRT listener does not answer a handshake (%d)", typ)
	}
	b, err := ask(1)
	if err != nil {
		conn.Close()
		return nil, err
	}
	c.cookie, c.dest = u32(b[28:]), u32(b[24:])
	if _, err := ask(-1); err != nil {
		conn.Close()
		return nil, err
	}
	return c, nil
}

// send sends one datagram; lost ones only use up a number.
func (c *c25caller) send(b []byte, lost bool) error {
	seq := c.seq
	c.seq = (c.seq + 1) & (1<<31 - 1)
	if lost {
		return nil
	}
	_, err := c.conn.Write(append(be(seq, 0xe0000000|seq&0x3ffffff, seq, c.dest), b...))
	return err
}

// barrier waits until everything sent was processed; false when the session
// is over.
func (c *c25caller) barrier() (alive bool, err error) {
	buf := make([]byte, 2000)
	for try := 0; try < 20; try++ {
		c.conn.Write(ctrlPkt(1, 0, 0, c.dest, nil))
		c.conn.SetReadDeadline(time.Now().Add(time.Second))
		for {
			n, err := c.conn.Read(buf)
			if err != nil {
				break
			}
			if n >= 16 && buf[0] == 0x80 && buf[1] == 1 {
				return true, nil
			}
			if n >= 16 && buf[0] == 0x80 && buf[1] == 5 {
				return false, nil
			}
		}
	}
	return false, fmt.Errorf("the SRT listener no longer answers a keepalive")
}

var c25ids uint32 = 0x2000

func runC25wire(c *eng.Ctx, cs c25) error {
	srv, err := wire.Start(wire.Options{SRT: true, Dir: c.Dir})
	if err != nil {
		return err
	}
	for i := range cs.S {
		if err := runC25sess(c, srv, &cs.S[i]); err != nil {
			if len(cs.S) > 1 {
				return fmt.Errorf("session %d: %w", i, err)
			}
			return err
		}
	}
	return nil
}

func runC25sess(c *eng.Ctx, srv *wire.Server, s *c25sess) error {
	units := s.build()
	dgs, dropped := s.datagrams(units)
	if len(dgs) == 0 {
		return nil
	}
	s.classes(c, units)
	c25ids += 16
	var call *c25caller
	var err error
	for try := 0; ; try++ {
		call, err = srtDial(srv.SRT, c25ids, s.ISN)
		if err == nil {
			break
		}
		if try > 1 {
			return fmt.Errorf("%w: %v", eng.ErrInconclusive, err)
		}
	}
	over := false
	defer func() {
		if !over {
			call.conn.Write(ctrlPkt(5, 0, 0, call.dest, nil))
			call.barrier0()
		}
		call.conn.Close()
	}()
	join := 1 + s.Join%len(dgs)
	if join > len(dgs) {
		join = len(dgs)
	}
	feed := func(from, to int) error {
		for i := from; i < to; i++ {
			if err := call.send(dgs[i], dropped[i]); err != nil {
				return eng.ErrInconclusive
			}
			if (i-from)%32 == 31 {
				if alive, err := call.barrier(); err != nil || !alive {
					return fmt.Errorf("the session of the publishing caller ended (after datagram %d) %v", i, err)
				}
			}
		}
		alive, err := call.barrier()
		if err == nil && !alive {
			err = fmt.Errorf("the session of the publishing caller ended")
		}
		return err
	}
	if dropped[0] { // the room only exists once something was received
		for join < len(dgs) && dropped[join-1] {
			join++
		}
	}
	if err := feed(0, join); err != nil {
		return err
	}
	any := false
	for i := 0; i < join; i++ {
		any = any || !dropped[i]
	}
	if !any {
		return nil
	}
	var view wire.Viewer
	if s.FLV {
		v, err := wire.GetFLV(srv, "live", "srt")
		if err != nil {
			return err
		}
		if v.Status != 200 {
			return fmt.Errorf("HTTP-FLV viewer of the SRT stream got status %d", v.Status)
		}
		view = v
	} else {
		p, err := wire.Player(srv, "live", "srt")
		if err != nil {
			return fmt.Errorf("RTMP viewer of the SRT stream: %w", err)
		}
		view = p
	}
	defer view.Close()
	// a viewer has certainly taken its place in the stream once it receives
	// something
	certain, sets := false, 0
	for _, u := range units {
		if u.must() && u.delivered < join {
			sets += u.Set
			certain = certain || u.A || sets > 0
		}
	}
	joined := join
	if certain {
		if !view.WaitMedia(wire.Wait, func(ts []ref.FTag) bool { return len(ts) > 0 }) {
			return fmt.Errorf("a viewer that joined after %d datagrams receives nothing", join)
		}
	} else {
		time.Sleep(20 * time.Millisecond)
		joined = 1 << 30
	}
	mid := join
	if s.Other {
		c.Class("second caller")
		mid = join + (len(dgs)-join)/2
		if err := feed(join, mid); err != nil {
			return err
		}
		o, err := srtDial(srv.SRT, c25ids+1, 5)
		if err != nil {
			return fmt.Errorf("%w: %v", eng.ErrInconclusive, err)
		}
		defer o.conn.Close()
		alt := c25sess{VPID: s.VPID, APID: s.APID, PMTPID: s.PMTPID, Prog: 1, Base: s.Base, Mix: []int{9}, Stuff: []int{0}, Group: []int{7}, Units: []c25unit{
			{NALs: []c25nal{{T: 5, N: 50, S: 1}}, Set: 2}, {D: 1000, NALs: []c25nal{{T: 1, N: 50, S: 2}}}, {A: true, Frames: []int{30}},
			{D: 1000, NALs: []c25nal{{T: 5, N: 50, S: 3}}, Set: 3}, {A: true, Frames: []int{30}}, {D: 1000, NALs: []c25nal{{T: 1, N: 50, S: 4}}}}}
		ad, _ := alt.datagrams(alt.build())
		for _, b := range ad {
			o.send(b, false)
		}
		if alive, err := o.barrier(); err != nil || alive {
			return fmt.Errorf("another caller that sends data while the stream is being published is not refused (%v)", err)
		}
		if alive, err := call.barrier(); err != nil || !alive {
			return fmt.Errorf("the session of the publishing caller ended when another caller sent data (%v)", err)
		}
	}
	if err := feed(mid, len(dgs)); err != nil {
		return err
	}
	over = true
	call.conn.Write(ctrlPkt(5, 0, 0, call.dest, nil))
	ended := false
	for try := 0; try < 20 && !ended; try++ { // in case the packet got lost
		ended = wire.WaitEnd(view, 2*time.Second)
		if !ended {
			call.conn.Write(ctrlPkt(5, 0, 0, call.dest, nil))
		}
	}
	if !ended {
		return fmt.Errorf("the caller shut its session down but the viewer's stream did not end")
	}
	got := view.Media()
	if _, err := view.End(); err != nil {
		return err
	}
	return s.checkViewer(c, units, got, joined)
}

func (c *c25caller) barrier0() {
	time.Sleep(2 * time.Millisecond)
}

// checkViewer compares what a viewer that joined after `join` datagrams got.
func (s *c25sess) checkViewer(c *eng.Ctx, units []*c25built, got []ref.FTag, join int) error {
	var cand []*c25built
	for _, u := range units {
		if u.complete() {
			cand = append(cand, u)
		}
	}
	type timed struct {
		dts uint64
		ts  uint32
		v   bool
	}
	var times []timed
	// video
	next := 0
	allowed := map[int]bool{0: true} // parameter sets that may be in force, 0 none
	started := false
	var sps, pps []byte
	matchV := func(t ref.FTag) error {
		d := t.Data
		if len(d) < 5 || d[0]&15 != 7 {
			return fmt.Errorf("video tag % x", d[:min(len(d), 5)])
		}
		if d[1] == 0 { // sequence header
			if len(d) < 5+11 {
				return fmt.Errorf("AVC sequence header of %d bytes", len(d))
			}
			a, b, err := parseAVCC(d[5:])
			if err != nil {
				return err
			}
			sps, pps = a, b
			return nil
		}
		if d[1] != 1 {
			return fmt.Errorf("AVC packet type %d", d[1])
		}
		nals, err := ref.SplitAVCC(d[5:])
		if err != nil {
			return err
		}
		var pic [][]byte
		for _, n := range nals {
			if len(n) == 0 {
				return fmt.Errorf("empty NAL unit")
			}
			if x := n[0] & 31; x != 7 && x != 8 && x != 9 {
				pic = append(pic, n)
			}
		}
		for ; next < len(cand); next++ {
			u := cand[next]
			if u.A {
				continue
			}
			if same(u.nals, pic) {
				break
			}
			if err := skipV(u, allowed, started, join); err != nil {
				return err
			}
		}
		if next == len(cand) {
			return fmt.Errorf("video tag of %d NAL units at %d ms is none of the units that arrived whole, or out of order", len(pic), t.TS)
		}
		u := cand[next]
		next++
		if u.Set > 0 {
			for k := range allowed {
				delete(allowed, k)
			}
			allowed[u.Set] = true
		}
		if ft := d[0] >> 4; (ft == 1) != u.key {
			return fmt.Errorf("frame type %d for a unit with key=%v", ft, u.key)
		}
		if !started && !u.key {
			// only right at the beginning of the stream
			for _, q := range cand {
				if q == u {
					break
				}
				if !q.A && q.must() && allowed[u.Set] && q.Set > 0 {
					return fmt.Errorf("the viewer starts at a unit that is neither a keyframe nor the first")
				}
			}
		}
		started = true
		ok := false
		for k := range allowed {
			if k == 0 {
				continue
			}
			a, b := c25sets(k)
			ok = ok || bytes.Equal(a, sps) && bytes.Equal(b, pps)
		}
		if !ok {
			return fmt.Errorf("unit at %d ms: the codec header in force (SPS % x PPS % x) is not the one of its parameter sets (%v)", t.TS, sps, pps, allowed)
		}
		cts := int32(uint32(d[2])<<24|uint32(d[3])<<16|uint32(d[4])<<8) >> 8
		if x := float64(cts) - float64(u.C)/90; x < -1.01 || x > 1.01 {
			return fmt.Errorf("composition offset %d ms, sent %d ticks", cts, u.C)
		}
		times = append(times, timed{u.dts, t.TS, true})
		return nil
	}
	// audio
	type aframe struct {
		raw  []byte
		asc  []byte
		pts  uint64
		must bool
		at   int
	}
	var af []aframe
	for _, u := range cand {
		if !u.A {
			continue
		}
		rate := uint64(adtsRates[c25cfgs[u.Cfg%100%len(c25cfgs)][1]])
		for j, r := range u.raw {
			af = append(af, aframe{r, u.asc, u.pts + uint64(j)*1024*90000/rate, u.must(), u.delivered})
		}
	}
	na, astarted := 0, false
	var asc []byte
	matchA := func(t ref.FTag) error {
		d := t.Data
		if len(d) < 2 || d[0]>>4 != 10 {
			return fmt.Errorf("audio tag % x", d[:min(len(d), 2)])
		}
		if d[1] == 0 {
			asc = d[2:]
			return nil
		}
		for ; na < len(af); na++ {
			f := af[na]
			if bytes.Equal(f.raw, d[2:]) {
				break
			}
			if f.must && (astarted || f.at >= join) {
				return fmt.Errorf("audio frame of %d bytes (pts %d) is missing", len(f.raw), f.pts)
			}
		}
		if na == len(af) {
			return fmt.Errorf("audio tag of %d bytes at %d ms is none of the frames that arrived whole, or out of order", len(d)-2, t.TS)
		}
		f := af[na]
		na++
		astarted = true
		if len(asc) < 2 || !bytes.Equal(asc[:2], f.asc) {
			return fmt.Errorf("audio frame at %d ms: the codec header in force is % x, want % x", t.TS, asc, f.asc)
		}
		times = append(times, timed{f.pts, t.TS, false})
		return nil
	}
	for i, t := range got {
		var err error
		switch t.Type {
		case 9:
			err = matchV(t)
		case 8:
			err = matchA(t)
		}
		if err != nil {
			return fmt.Errorf("tag %d of %d: %w", i, len(got), err)
		}
	}
	for ; next < len(cand); next++ {
		if !cand[next].A {
			if err := skipV(cand[next], allowed, started, join); err != nil {
				return err
			}
		}
	}
	for ; na < len(af); na++ {
		if af[na].must && (astarted || af[na].at >= join) {
			return fmt.Errorf("audio frame of %d bytes (pts %d) is missing at the end", len(af[na].raw), af[na].pts)
		}
	}
	// one clock for both tracks
	for i := range times {
		a, b := times[len(times)-1], times[i]
		want := float64(int64((b.dts-a.dts)<<31)>>31) / 90
		if have := float64(int32(b.ts - a.ts)); have-want < -1.01 || have-want > 1.01 {
			return fmt.Errorf("timestamps %d and %d ms of units that are %.2f ms apart", a.ts, b.ts, want)
		}
	}
	if len(times) > 0 {
		c.Class("viewer got media")
	}
	if join < 1<<30 && len(times) > 0 {
		c.Class("join behind media")
	}
	return nil
}

// skipV decides whether a viewer may not have got unit u.
func skipV(u *c25built, allowed map[int]bool, started bool, join int) error {
	if u.must() {
		if u.Set > 0 {
			for k := range allowed {
				delete(allowed, k)
			}
			allowed[u.Set] = true
		}
		if !allowed[0] && (started || u.delivered >= join) {
			return fmt.Errorf("unit of %d NAL units (%d bytes, dts %d) is missing", len(u.nals), len(u.es), u.dts)
		}
	} else if u.Set > 0 {
		allowed[u.Set] = true
	}
	return nil
}

func same(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func parseAVCC(b []byte) (sps, pps []byte, err error) {
	bad := fmt.Errorf("malformed AVCDecoderConfigurationRecord % x", b)
	if len(b) < 8 || b[0] != 1 || b[4]&3 != 3 || b[5]&31 != 1 {
		return nil, nil, bad
	}
	n := int(b[6])<<8 | int(b[7])
	if len(b) < 8+n+3 || n < 4 {
		return nil, nil, bad
	}
	sps = b[8 : 8+n]
	b = b[8+n:]
	m := int(b[1])<<8 | int(b[2])
	if b[0] != 1 || len(b) < 3+m {
		return nil, nil, bad
	}
	return sps, b[3 : 3+m], nil
}

func init() {
	eng.Register("C25", eng.Opts{
		Rule:      "at least two units must come out, and the stream has video and audio or damage",
		Quick:     eng.Budget{Shards: 8, Cases: 1000, Wall: 60 * time.Second},
		Thorough:  eng.Budget{Shards: 8, Cases: 20000, Wall: 14 * time.Minute},
		Net:       true,
		HangLimit: 90 * time.Second,
		Assumptions: []string{"losses of 15 or 16 (mod 16) packets of one PID in a row are excluded: the continuity counter cannot tell",
			"one PES packet is one access unit and carries a PTS; an audio PES packet holds whole ADTS frames; the PES header is in one packet",
			"a single program with at most one H.264/HEVC and one AAC stream"},
	}, genC25, runC25)
}
