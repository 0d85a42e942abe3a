package ref

import (
	"fmt"
	"math/bits"
	"strings"
)

// bitWriter writes RBSP syntax elements.
type bitWriter struct {
	b []byte
	n int

	ues, bomb int // the bomb-th Exp-Golomb code is replaced by bombV
	bombV     uint32
}

func (w *bitWriter) u(n int, v uint64) {
	for i := n - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		w.b[w.n/8] |= byte(v>>uint(i)&1) << uint(7-w.n%8)
		w.n++
	}
}
func (w *bitWriter) ue(v uint32) {
	if w.ues++; w.ues == w.bomb {
		v = w.bombV
	}
	x := uint64(v) + 1
	l := bits.Len64(x)
	w.u(l-1, 0)
	w.u(l, x)
}
func (w *bitWriter) se(v int32) {
	if v > 0 {
		w.ue(uint32(2*v - 1))
	} else {
		w.ue(uint32(-2 * v))
	}
}
func (w *bitWriter) end() []byte {
	w.u(1, 1)
	for w.n%8 != 0 {
		w.u(1, 0)
	}
	return w.b
}

// Picture describes a sequence parameter set; its picture size is what a
// decoder outputs.
type Picture struct {
	// H.264: macroblocks (map units), HEVC: luma samples in units of 8
	W, H     int
	Crop     [4]int // left right top bottom, in crop units
	Chroma   int    // chroma_format_idc
	Separate bool   // separate_colour_plane_flag
	Field    bool   // H.264: frame_mbs_only_flag = 0
	Profile  byte
	Flags    uint32 // H.264: constraint flags, HEVC: compatibility flags
	Constr   uint64 // HEVC: 48 constraint bits
	Level    byte
	ID       int
	POC      int   // H.264: pic_order_cnt_type
	Offsets  []int // H.264: offset_for_ref_frame
	Lists    []int // H.264: for each scaling list 0 absent, 1 default, n: differing after n
	Depth    int
	Space    byte // HEVC
	High     bool // HEVC: tier
	Sub      int  // HEVC: sps_max_sub_layers_minus1
	SubFlags int  // HEVC: 2 bits per sub-layer
	Tail     int  // bytes that follow (VUI and the like)

	Bomb  int    `json:",omitempty"` // this Exp-Golomb code (1 is the first) is BombV
	BombV uint32 `json:",omitempty"`
}

func highProfile(p byte) bool {
	switch p {
	case 100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135:
		return true
	}
	return false
}

// AVC returns the NAL unit of an H.264 sequence parameter set and its
// picture size (rec. H.264 7.3.2.1.1, 7.4.2.1.1).
func (p Picture) AVC() (nal []byte, width, height int) {
	w := &bitWriter{bomb: p.Bomb, bombV: p.BombV}
	w.u(8, uint64(p.Profile))
	w.u(8, uint64(p.Flags&0xff))
	w.u(8, uint64(p.Level))
	w.ue(uint32(p.ID))
	chroma := 1
	sep := false
	if highProfile(p.Profile) {
		chroma = p.Chroma
		w.ue(uint32(chroma))
		if chroma == 3 {
			sep = p.Separate
			w.flag(sep)
		}
		w.ue(uint32(p.Depth))
		w.ue(uint32(p.Depth))
		w.flag(false)
		w.flag(len(p.Lists) > 0)
		if len(p.Lists) > 0 {
			n := 8
			if chroma == 3 {
				n = 12
			}
			for i := 0; i < n; i++ {
				l := p.Lists[i%len(p.Lists)]
				w.flag(l > 0)
				if l == 0 {
					continue
				}
				size := 16
				if i >= 6 {
					size = 64
				}
				w.scaling(size, l)
			}
		}
	}
	w.ue(uint32(p.ID % 13))
	w.ue(uint32(p.POC))
	switch p.POC {
	case 0:
		w.ue(uint32(p.ID % 13))
	case 1:
		w.flag(p.Depth > 0)
		w.se(int32(-p.ID))
		w.se(int32(p.ID))
		w.ue(uint32(len(p.Offsets)))
		for _, o := range p.Offsets {
			w.se(int32(o))
		}
	}
	w.ue(uint32(p.ID % 17))
	w.flag(p.ID%2 == 1)
	w.ue(uint32(p.W - 1))
	w.ue(uint32(p.H - 1))
	w.flag(!p.Field)
	if p.Field {
		w.flag(p.ID%3 == 0)
	}
	w.flag(true)
	crop := p.Crop != [4]int{}
	w.flag(crop)
	ux, uy := 1, 1
	if chroma == 1 || chroma == 2 {
		ux = 2
	}
	if chroma == 1 {
		uy = 2
	}
	width, height = 16*p.W, 16*p.H
	if p.Field {
		uy *= 2
		height *= 2
	}
	if crop {
		for _, c := range p.Crop {
			w.ue(uint32(c))
		}
		width -= ux * (p.Crop[0] + p.Crop[1])
		height -= uy * (p.Crop[2] + p.Crop[3])
	}
	w.flag(p.Tail > 0)
	for i := 0; i < p.Tail; i++ {
		w.u(8, uint64(i*37))
	}
	return EPB(append([]byte{0x67}, w.end()...)), width, height
}

func (w *bitWriter) flag(b bool) {
	if b {
		w.u(1, 1)
	} else {
		w.u(1, 0)
	}
}

// scaling writes a scaling list: kind 1 is the default one, otherwise the
// elements differ up to index kind and then repeat.
func (w *bitWriter) scaling(size, kind int) {
	if kind == 1 {
		w.se(-8)
		return
	}
	last := 8
	for j := 0; j < size; j++ {
		if j >= kind && j > 0 {
			d := -last // next is 0: the rest is the last one
			if d < -128 {
				d += 256
			}
			w.se(int32(d))
			return
		}
		next := 1 + (last*7+j*29+kind)%255
		d := next - last
		if d > 127 {
			d -= 256
		} else if d < -128 {
			d += 256
		}
		w.se(int32(d))
		last = next
	}
}

// HEVC returns the NAL unit of an HEVC sequence parameter set and its picture
// size (rec. H.265 7.3.2.2).
func (p Picture) HEVC() (nal []byte, width, height int) {
	w := &bitWriter{bomb: p.Bomb, bombV: p.BombV}
	w.u(4, uint64(p.ID&15))
	w.u(3, uint64(p.Sub))
	w.flag(p.Sub == 0)
	w.u(2, uint64(p.Space))
	w.flag(p.High)
	w.u(5, uint64(p.Profile))
	w.u(32, uint64(p.Flags))
	w.u(48, p.Constr)
	w.u(8, uint64(p.Level))
	for i := 0; i < p.Sub; i++ {
		w.u(2, uint64(p.SubFlags>>(2*i)&3))
	}
	if p.Sub > 0 {
		for i := p.Sub; i < 8; i++ {
			w.u(2, 0)
		}
	}
	for i := 0; i < p.Sub; i++ {
		if p.SubFlags>>(2*i)&2 != 0 {
			for k := 0; k < 11; k++ {
				w.u(8, uint64(k*p.ID+i)&0xff)
			}
		}
		if p.SubFlags>>(2*i)&1 != 0 {
			w.u(8, 30)
		}
	}
	w.ue(uint32(p.ID & 15))
	w.ue(uint32(p.Chroma))
	if p.Chroma == 3 {
		w.flag(p.Separate)
	}
	width, height = 8*p.W, 8*p.H
	w.ue(uint32(width))
	w.ue(uint32(height))
	crop := p.Crop != [4]int{}
	w.flag(crop)
	if crop {
		ux, uy := 1, 1
		if p.Chroma == 1 || p.Chroma == 2 {
			ux = 2
		}
		if p.Chroma == 1 {
			uy = 2
		}
		for _, c := range p.Crop {
			w.ue(uint32(c))
		}
		width -= ux * (p.Crop[0] + p.Crop[1])
		height -= uy * (p.Crop[2] + p.Crop[3])
	}
	for i := 0; i < 3+p.Tail; i++ {
		w.u(8, uint64(i*37+1))
	}
	return EPB(append([]byte{66, 1}, w.end()...)), width, height
}

// HEVCCodec is the RFC 6381 codecs parameter (ISO 14496-15 annex E).
func (p Picture) HEVCCodec() string {
	s := "hev1."
	if p.Space > 0 {
		s += string(rune('A' + p.Space - 1))
	}
	t := "L"
	if p.High {
		t = "H"
	}
	var rev uint32
	for i := uint(0); i < 32; i++ {
		rev |= p.Flags >> i & 1 << (31 - i)
	}
	s += fmt.Sprintf("%d.%X.%s%d", p.Profile, rev, t, p.Level)
	var c []string
	for i := 5; i >= 0; i-- {
		c = append(c, fmt.Sprintf("%X", p.Constr>>(8*uint(i))&0xff))
	}
	for len(c) > 0 && c[len(c)-1] == "0" {
		c = c[:len(c)-1]
	}
	if len(c) > 0 {
		s += "." + strings.Join(c, ".")
	}
	return s
}

// HEVCRecord is the decoder configuration record of such a stream.
func (p Picture) HEVCRecord(vps, sps, pps [][]byte) []byte {
	b := HEVCRecord(vps, sps, pps)
	b[1] = p.Space<<6 | p.Profile
	if p.High {
		b[1] |= 0x20
	}
	for i := 0; i < 4; i++ {
		b[2+i] = byte(p.Flags >> (24 - 8*uint(i)))
	}
	for i := 0; i < 6; i++ {
		b[6+i] = byte(p.Constr >> (40 - 8*uint(i)))
	}
	b[12] = p.Level
	b[16] = 0xfc | byte(p.Chroma)
	return b
}
