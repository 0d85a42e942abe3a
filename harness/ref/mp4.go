package ref

import (
	"encoding/binary"
	"fmt"
)

// MBox is one ISO BMFF box.
type MBox struct {
	Type string
	Body []byte
	Off  int // offset of the box in the file
	Hdr  int
	Kids []*MBox
}

var mcontainers = map[string]bool{"moov": true, "trak": true, "mdia": true, "minf": true, "stbl": true, "dinf": true, "mvex": true, "moof": true, "traf": true}

// ParseBoxes strictly splits b into boxes (recursively for containers).
func ParseBoxes(b []byte, off int) ([]*MBox, error) {
	var out []*MBox
	for i := 0; i < len(b); {
		if i+8 > len(b) {
			return nil, fmt.Errorf("mp4: %d stray bytes at %d", len(b)-i, off+i)
		}
		n := uint64(binary.BigEndian.Uint32(b[i:]))
		h := 8
		if n == 1 {
			if i+16 > len(b) {
				return nil, fmt.Errorf("mp4: truncated large size at %d", off+i)
			}
			n = binary.BigEndian.Uint64(b[i+8:])
			h = 16
		}
		typ := string(b[i+4 : i+8])
		if n < uint64(h) || n > uint64(len(b)-i) {
			return nil, fmt.Errorf("mp4: box %q at %d has size %d of %d", typ, off+i, n, len(b)-i)
		}
		x := &MBox{Type: typ, Body: b[i+h : i+int(n)], Off: off + i, Hdr: h}
		var err error
		kidOff := -1
		switch {
		case mcontainers[typ]:
			kidOff = 0
		case typ == "dref" || typ == "stsd":
			if len(x.Body) < 8 {
				return nil, fmt.Errorf("mp4: short %s", typ)
			}
			kidOff = 8
		case typ == "avc1" || typ == "hev1" || typ == "hvc1" || typ == "avc3":
			if len(x.Body) < 78 {
				return nil, fmt.Errorf("mp4: short %s", typ)
			}
			kidOff = 78
		}
		if kidOff >= 0 {
			if x.Kids, err = ParseBoxes(x.Body[kidOff:], off+i+h+kidOff); err != nil {
				return nil, fmt.Errorf("%s: %w", typ, err)
			}
			if kidOff == 8 && int(binary.BigEndian.Uint32(x.Body[4:])) != len(x.Kids) {
				return nil, fmt.Errorf("mp4: %s announces %d entries, has %d", typ, binary.BigEndian.Uint32(x.Body[4:]), len(x.Kids))
			}
		}
		out = append(out, x)
		i += int(n)
	}
	return out, nil
}

func mfind(l []*MBox, typ string) (*MBox, error) {
	var r *MBox
	for _, x := range l {
		if x.Type == typ {
			if r != nil {
				return nil, fmt.Errorf("mp4: two %s boxes", typ)
			}
			r = x
		}
	}
	if r == nil {
		return nil, fmt.Errorf("mp4: no %s box", typ)
	}
	return r, nil
}

func mpath(l []*MBox, path ...string) (*MBox, error) {
	var x *MBox
	var err error
	for _, p := range path {
		if x, err = mfind(l, p); err != nil {
			return nil, err
		}
		l = x.Kids
	}
	return x, nil
}

// MInit is what an initialisation segment says.
type MInit struct {
	Brands            []string
	TrackID           uint32
	TrexID            uint32
	Timescale         uint32
	TkW, TkH          uint32 // 16.16
	Handler           string
	Entry             string
	W, H              int
	ConfigType        string
	Config            []byte
	SPS, PPS          [][]byte
	Prof, Compat, Lev byte
	LenSize           int
}

// unity says whether a transformation matrix is the identity.
func unity(b []byte) bool {
	for i, w := range []uint32{0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000} {
		if binary.BigEndian.Uint32(b[4*i:]) != w {
			return false
		}
	}
	return true
}

type mrd struct {
	b   []byte
	err error
}

func (r *mrd) n(n int) []byte {
	if len(r.b) < n {
		r.err = fmt.Errorf("mp4: short box body")
		r.b = make([]byte, n)
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}
func (r *mrd) u32() uint32 { return binary.BigEndian.Uint32(r.n(4)) }
func (r *mrd) u64() uint64 { return binary.BigEndian.Uint64(r.n(8)) }
func (r *mrd) u16() int    { return int(binary.BigEndian.Uint16(r.n(2))) }
func (r *mrd) end(what string) error {
	if r.err != nil {
		return fmt.Errorf("%s: %w", what, r.err)
	}
	if len(r.b) != 0 {
		return fmt.Errorf("mp4: %d extra bytes in %s", len(r.b), what)
	}
	return nil
}

// ParseInit reads an initialisation segment with one video track.
func ParseInit(b []byte) (*MInit, error) {
	m := &MInit{}
	l, err := ParseBoxes(b, 0)
	if err != nil {
		return nil, err
	}
	if len(l) < 2 || l[0].Type != "ftyp" {
		return nil, fmt.Errorf("mp4: does not start with ftyp")
	}
	if len(l[0].Body) < 8 || len(l[0].Body)%4 != 0 {
		return nil, fmt.Errorf("mp4: ftyp of %d bytes", len(l[0].Body))
	}
	m.Brands = append(m.Brands, string(l[0].Body[:4]))
	for i := 8; i < len(l[0].Body); i += 4 {
		m.Brands = append(m.Brands, string(l[0].Body[i:i+4]))
	}
	x, err := mpath(l, "moov", "mvhd")
	if err != nil {
		return nil, err
	}
	r := &mrd{b: x.Body}
	v := r.u32() >> 24
	if v == 1 {
		r.n(16)
	} else {
		r.n(8)
	}
	if r.u32() == 0 {
		return nil, fmt.Errorf("mp4: movie timescale is 0")
	}
	if v == 1 {
		r.n(8)
	} else {
		r.n(4)
	}
	if r.u32() != 0x00010000 || r.u16() != 0x0100 {
		return nil, fmt.Errorf("mp4: movie rate or volume is not 1")
	}
	r.n(2 + 8)
	if !unity(r.n(36)) {
		return nil, fmt.Errorf("mp4: the movie's matrix is not unity")
	}
	r.n(24)
	if r.u32() == 0 {
		return nil, fmt.Errorf("mp4: next track id is 0")
	}
	if err = r.end("mvhd"); err != nil {
		return nil, err
	}
	if x, err = mpath(l, "moov", "trak", "tkhd"); err != nil {
		return nil, err
	}
	r = &mrd{b: x.Body}
	v = r.u32()
	if v&1 == 0 {
		return nil, fmt.Errorf("mp4: the track is not enabled")
	}
	if v >>= 24; v == 1 {
		r.n(16)
	} else {
		r.n(8)
	}
	m.TrackID = r.u32()
	r.n(4)
	if v == 1 {
		r.n(8)
	} else {
		r.n(4)
	}
	r.n(8 + 2 + 2)
	if r.u16() != 0 {
		return nil, fmt.Errorf("mp4: a video track has a volume")
	}
	r.n(2)
	if !unity(r.n(36)) {
		return nil, fmt.Errorf("mp4: the track's matrix is not unity")
	}
	m.TkW, m.TkH = r.u32(), r.u32()
	if err = r.end("tkhd"); err != nil {
		return nil, err
	}
	if x, err = mpath(l, "moov", "trak", "mdia", "mdhd"); err != nil {
		return nil, err
	}
	r = &mrd{b: x.Body}
	v = r.u32() >> 24
	if v == 1 {
		r.n(16)
	} else {
		r.n(8)
	}
	m.Timescale = r.u32()
	if v == 1 {
		r.n(8)
	} else {
		r.n(4)
	}
	lang := r.u16()
	for i := 0; i < 15; i += 5 {
		if c := lang >> i & 31; c < 1 || c > 26 || lang>>15 != 0 {
			return nil, fmt.Errorf("mp4: media language %#x", lang)
		}
	}
	r.n(2)
	if err = r.end("mdhd"); err != nil {
		return nil, err
	}
	if x, err = mpath(l, "moov", "trak", "mdia", "hdlr"); err != nil {
		return nil, err
	}
	if len(x.Body) < 25 || x.Body[len(x.Body)-1] != 0 {
		return nil, fmt.Errorf("mp4: bad hdlr")
	}
	m.Handler = string(x.Body[8:12])
	for _, need := range []string{"vmhd", "dinf", "stbl"} {
		if _, err = mpath(l, "moov", "trak", "mdia", "minf", need); err != nil {
			return nil, err
		}
	}
	if x, err = mpath(l, "moov", "trak", "mdia", "minf", "vmhd"); err != nil {
		return nil, err
	}
	r = &mrd{b: x.Body}
	if r.u32() != 1 {
		return nil, fmt.Errorf("mp4: vmhd version or flags")
	}
	r.n(8)
	if err = r.end("vmhd"); err != nil {
		return nil, err
	}
	for _, need := range []string{"stts", "stsc", "stsz", "stco"} {
		if x, err = mpath(l, "moov", "trak", "mdia", "minf", "stbl", need); err != nil {
			return nil, err
		}
		want := 8
		if need == "stsz" {
			want = 12
		}
		if len(x.Body) != want {
			return nil, fmt.Errorf("mp4: %s of %d bytes in an initialisation segment", need, len(x.Body))
		}
		for _, c := range x.Body {
			if c != 0 {
				return nil, fmt.Errorf("mp4: %s is not empty", need)
			}
		}
	}
	if x, err = mpath(l, "moov", "trak", "mdia", "minf", "stbl", "stsd"); err != nil {
		return nil, err
	}
	if len(x.Kids) != 1 {
		return nil, fmt.Errorf("mp4: %d sample entries", len(x.Kids))
	}
	e := x.Kids[0]
	m.Entry = e.Type
	if e.Type != "avc1" && e.Type != "hev1" && e.Type != "hvc1" && e.Type != "avc3" {
		return nil, fmt.Errorf("mp4: sample entry %q", e.Type)
	}
	if binary.BigEndian.Uint16(e.Body[6:]) != 1 {
		return nil, fmt.Errorf("mp4: data reference index")
	}
	m.W, m.H = int(binary.BigEndian.Uint16(e.Body[24:])), int(binary.BigEndian.Uint16(e.Body[26:]))
	for _, k := range e.Kids {
		if k.Type == "avcC" || k.Type == "hvcC" {
			m.ConfigType, m.Config = k.Type, k.Body
		}
	}
	if m.ConfigType == "" {
		return nil, fmt.Errorf("mp4: no codec configuration box")
	}
	if m.ConfigType == "avcC" {
		r = &mrd{b: m.Config}
		if r.n(1)[0] != 1 {
			return nil, fmt.Errorf("mp4: avcC version")
		}
		m.Prof, m.Compat, m.Lev = r.n(1)[0], r.n(1)[0], r.n(1)[0]
		m.LenSize = int(r.n(1)[0]&3) + 1
		for i, n := 0, int(r.n(1)[0]&31); i < n; i++ {
			m.SPS = append(m.SPS, r.n(r.u16()))
		}
		for i, n := 0, int(r.n(1)[0]); i < n; i++ {
			m.PPS = append(m.PPS, r.n(r.u16()))
		}
		if r.err != nil {
			return nil, fmt.Errorf("avcC: %w", r.err)
		}
		if len(r.b) != 0 && len(r.b) < 4 {
			return nil, fmt.Errorf("mp4: %d extra bytes in avcC", len(r.b))
		}
	}
	if x, err = mpath(l, "moov", "mvex", "trex"); err != nil {
		return nil, err
	}
	r = &mrd{b: x.Body}
	r.u32()
	m.TrexID = r.u32()
	if r.u32() != 1 {
		return nil, fmt.Errorf("mp4: default sample description index")
	}
	r.n(12)
	if err = r.end("trex"); err != nil {
		return nil, err
	}
	return m, nil
}

// MSample is one sample read back.
type MSample struct {
	Dur, Size uint32
	CTO       int32
	Key       bool
	Flags     uint32
	Data      []byte
	DTS       uint64
}

// MSegment is a media segment.
type MSegment struct {
	Seq     uint32
	TrackID uint32
	Base    uint64
	Styp    bool
	Samples []MSample
}

// ParseSegment reads [styp] moof mdat.
func ParseSegment(b []byte) (*MSegment, error) {
	s := &MSegment{}
	l, err := ParseBoxes(b, 0)
	if err != nil {
		return nil, err
	}
	if len(l) > 0 && l[0].Type == "styp" {
		s.Styp = true
		if len(l[0].Body) < 12 || len(l[0].Body)%4 != 0 {
			return nil, fmt.Errorf("mp4: styp of %d bytes", len(l[0].Body))
		}
		listed := false
		for i := 8; i < len(l[0].Body); i += 4 {
			if k := string(l[0].Body[i : i+4]); k == "msdh" || k == "msix" || k == "cmfs" || k == "cmff" || k == "dsms" {
				listed = true
			}
		}
		if !listed {
			return nil, fmt.Errorf("mp4: styp lists no media segment brand")
		}
		l = l[1:]
	}
	if len(l) != 2 || l[0].Type != "moof" || l[1].Type != "mdat" {
		return nil, fmt.Errorf("mp4: media segment is not moof+mdat")
	}
	moof, mdat := l[0], l[1]
	x, err := mpath(l, "moof", "mfhd")
	if err != nil {
		return nil, err
	}
	r := &mrd{b: x.Body}
	r.u32()
	s.Seq = r.u32()
	if err = r.end("mfhd"); err != nil {
		return nil, err
	}
	if x, err = mpath(l, "moof", "traf", "tfhd"); err != nil {
		return nil, err
	}
	r = &mrd{b: x.Body}
	fl := r.u32() & 0xffffff
	s.TrackID = r.u32()
	if fl&^0x020000 != 0 {
		return nil, fmt.Errorf("mp4: tfhd flags %#x", fl)
	}
	if fl&0x020000 == 0 {
		return nil, fmt.Errorf("mp4: tfhd without default-base-is-moof")
	}
	if err = r.end("tfhd"); err != nil {
		return nil, err
	}
	if x, err = mpath(l, "moof", "traf", "tfdt"); err != nil {
		return nil, err
	}
	r = &mrd{b: x.Body}
	if r.u32()>>24 == 1 {
		s.Base = r.u64()
	} else {
		s.Base = uint64(r.u32())
	}
	if err = r.end("tfdt"); err != nil {
		return nil, err
	}
	if x, err = mpath(l, "moof", "traf", "trun"); err != nil {
		return nil, err
	}
	r = &mrd{b: x.Body}
	vf := r.u32()
	n := int(r.u32())
	if vf&1 == 0 {
		return nil, fmt.Errorf("mp4: trun without data offset")
	}
	off := int(int32(r.u32()))
	if vf&4 != 0 {
		return nil, fmt.Errorf("mp4: trun with first-sample-flags")
	}
	pos := moof.Off + off
	if pos != mdat.Off+mdat.Hdr {
		return nil, fmt.Errorf("mp4: data offset points at %d, the sample data is at %d", pos, mdat.Off+mdat.Hdr)
	}
	p := mdat.Body
	dts := s.Base
	for i := 0; i < n && r.err == nil; i++ {
		var m MSample
		m.DTS = dts
		if vf&0x100 != 0 {
			m.Dur = r.u32()
		}
		if vf&0x200 != 0 {
			m.Size = r.u32()
		}
		if vf&0x400 != 0 {
			m.Flags = r.u32()
			m.Key = m.Flags&0x10000 == 0
			dep := m.Flags >> 24 & 3
			if (m.Key && dep == 1) || (!m.Key && dep == 2) {
				return nil, fmt.Errorf("mp4: sample %d: contradictory flags %#x", i, m.Flags)
			}
		}
		if vf&0x800 != 0 {
			c := r.u32()
			if vf>>24 == 0 && c > 1<<31 {
				return nil, fmt.Errorf("mp4: sample %d: unsigned composition offset %d", i, c)
			}
			m.CTO = int32(c)
		}
		if int(m.Size) > len(p) {
			return nil, fmt.Errorf("mp4: sample %d of %d bytes does not fit the mdat", i, m.Size)
		}
		m.Data = p[:m.Size]
		p = p[m.Size:]
		dts += uint64(m.Dur)
		s.Samples = append(s.Samples, m)
	}
	if err = r.end("trun"); err != nil {
		return nil, err
	}
	if len(p) != 0 {
		return nil, fmt.Errorf("mp4: %d bytes of mdat belong to no sample", len(p))
	}
	return s, nil
}
