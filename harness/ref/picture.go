package ref

import (
	"fmt"

	"pgregory.net/rapid"
)

// PictureConfig is one decoder configuration.
type PictureConfig struct {
	P   Picture `json:"p"`
	PPS int     `json:"pps"`
	VPS int     `json:"vps,omitempty"`
	Ext bool    `json:"ext,omitempty"` // H.264 high profiles: with the trailing fields
}

// GenPictureConfig draws one.
func GenPictureConfig(t *rapid.T, hevc bool) (p PictureConfig) {
	q := &p.P
	q.ID = rapid.IntRange(0, 31).Draw(t, "spsid")
	q.Tail = rapid.IntRange(0, 8).Draw(t, "tail")
	if hevc {
		q.W, q.H = rapid.IntRange(1, 1024).Draw(t, "w"), rapid.IntRange(1, 540).Draw(t, "h")
		q.Chroma = rapid.SampledFrom([]int{1, 1, 1, 0, 2, 3}).Draw(t, "chroma")
		q.Profile = byte(rapid.SampledFrom([]int{1, 2, 3, 4, 9, 31}).Draw(t, "prof"))
		q.Flags = rapid.SampledFrom([]uint32{0x60000000, 0x20000000, 0, 0x08000000, 0xffffffff, 0x12345678}).Draw(t, "compat")
		q.Constr = rapid.SampledFrom([]uint64{0x900000000000, 0xb00000000000, 0, 0x9d08_00000000, 1, 0x000003000001, 0xffffffffffff}).Draw(t, "constr")
		q.Level = byte(rapid.SampledFrom([]int{30, 93, 120, 123, 153, 186}).Draw(t, "level"))
		q.Space = byte(rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "space"))
		q.High = rapid.Bool().Draw(t, "tier")
		q.Sub = rapid.SampledFrom([]int{0, 0, 1, 2, 6}).Draw(t, "sub")
		q.SubFlags = rapid.IntRange(0, 1<<12-1).Draw(t, "subflags")
		p.VPS = rapid.IntRange(1, 30).Draw(t, "vps")
	} else {
		q.W, q.H = rapid.IntRange(1, 512).Draw(t, "w"), rapid.IntRange(1, 270).Draw(t, "h")
		q.Profile = byte(rapid.SampledFrom([]int{66, 77, 88, 100, 100, 110, 122, 244, 44, 118, 128, 83, 86, 138, 139, 134, 135}).Draw(t, "prof"))
		q.Flags = uint32(rapid.SampledFrom([]int{0, 0xe0, 0xc0, 0x40, 0x0c}).Draw(t, "constr"))
		q.Level = byte(rapid.SampledFrom([]int{9, 10, 30, 31, 40, 52}).Draw(t, "level"))
		q.Chroma = rapid.SampledFrom([]int{1, 1, 1, 0, 2, 3}).Draw(t, "chroma")
		q.Separate = q.Chroma == 3 && rapid.Bool().Draw(t, "sep")
		q.Field = rapid.IntRange(0, 3).Draw(t, "field") == 0
		q.Depth = rapid.SampledFrom([]int{0, 0, 2, 6}).Draw(t, "depth")
		q.POC = rapid.IntRange(0, 2).Draw(t, "poc")
		if q.POC == 1 {
			q.Offsets = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(-70000, 70000), rapid.SampledFrom([]int{1 << 20, 1 << 24, -1 << 23, 1 << 28, 1<<30 - 1, -1 << 30, 1<<31 - 1})), 0, 5).Draw(t, "offsets")
		}
		if rapid.IntRange(0, 3).Draw(t, "scaling") == 0 {
			q.Lists = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 2, 7, 16, 63, 64, 100}), 1, 12).Draw(t, "lists")
		}
		p.Ext = rapid.Bool().Draw(t, "ext")
	}
	if rapid.Bool().Draw(t, "crop") {
		for i := range q.Crop {
			n := 3
			if i < 2 && q.W == 1 || i >= 2 && q.H == 1 {
				n = 1
			}
			q.Crop[i] = rapid.IntRange(0, n).Draw(t, "c")
		}
	}
	if q.Chroma == 3 && !hevc && q.Separate { // ChromaArrayType 0: same units
		q.Separate = true
	}
	p.PPS = rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "pps")
	return p
}

// Render returns the parameter sets, the configuration record, the picture
// size and the codecs string.
func (p PictureConfig) Render(hevc bool) (lists [][][]byte, rec []byte, w, h int, codecs string) {
	var pps [][]byte
	for i := 0; i < p.PPS; i++ {
		t := []byte{0x68}
		if hevc {
			t = []byte{68, 1}
		}
		pps = append(pps, EPB(append(t, Fill(uint32(p.P.ID*7+i), 2+(p.P.ID+i)%9)...)))
	}
	var sps []byte
	if hevc {
		sps, w, h = p.P.HEVC()
		vps := EPB(append([]byte{64, 1}, Fill(uint32(p.VPS), p.VPS)...))
		lists = [][][]byte{{vps}, {sps}, pps}
		return lists, p.P.HEVCRecord(lists[0], lists[1], lists[2]), w, h, p.P.HEVCCodec()
	}
	sps, w, h = p.P.AVC()
	lists = [][][]byte{{sps}, pps}
	rec = AVCRecord(lists[0], lists[1])
	switch p.P.Profile { // AVCRecord writes the trailing fields of these
	case 100, 110, 122, 144:
		if p.Ext {
			rec[len(rec)-4] = 0xfc | byte(p.P.Chroma)
			rec[len(rec)-3], rec[len(rec)-2] = 0xf8|byte(p.P.Depth), 0xf8|byte(p.P.Depth)
		} else {
			rec = rec[:len(rec)-4]
		}
	}
	return lists, rec, w, h, fmt.Sprintf("avc1.%02X%02X%02X", p.P.Profile, p.P.Flags&0xff, p.P.Level)
}
