package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"time"

	"github.com/sbraveyoung/GGmpeg/libaac"
	"github.com/sbraveyoung/GGmpeg/libamf"
	"github.com/sbraveyoung/GGmpeg/libavc"
	"github.com/sbraveyoung/GGmpeg/libflv"
	"pgregory.net/rapid"

	"verif/harness/eng"
	"verif/harness/ref"
)

// ---------------------------------------------------------------- C15 ----

type c15step struct {
	SPS  [][]byte `json:"sps,omitempty"` // a new sequence header
	PPS  [][]byte `json:"pps,omitempty"`
	NALs [][]byte `json:"nals,omitempty"` // an access unit
}
type c15 struct {
	Steps []c15step `json:"steps"`
}

func genSPS(t *rapid.T) []byte {
	prof := rapid.SampledFrom([]byte{66, 77, 88, 100, 110, 122, 244}).Draw(t, "profile")
	b := append([]byte{prof, 0, 30}, rapid.SliceOfN(rapid.Byte(), 2, 30).Draw(t, "sps")...)
	return ref.EPB(append([]byte{0x67}, b...))
}
func genPPS(t *rapid.T) []byte {
	return ref.EPB(append([]byte{0x68}, rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "pps")...))
}

func genC15(t *rapid.T) c15 {
	var c c15
	hdr := func() {
		var s c15step
		for i := 0; i < rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "nsps"); i++ {
			s.SPS = append(s.SPS, genSPS(t))
		}
		for i := 0; i < rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "npps"); i++ {
			s.PPS = append(s.PPS, genPPS(t))
		}
		c.Steps = append(c.Steps, s)
	}
	hdr()
	n := rapid.IntRange(1, 8).Draw(t, "n")
	for i := 0; i < n; i++ {
		if rapid.IntRange(0, 5).Draw(t, "newhdr") == 0 {
			hdr()
		}
		var s c15step
		key := rapid.Bool().Draw(t, "key")
		if rapid.Bool().Draw(t, "aud") {
			s.NALs = append(s.NALs, []byte{9, rapid.SampledFrom([]byte{0x10, 0x30, 0xf0}).Draw(t, "audv")})
		}
		if key && rapid.IntRange(0, 3).Draw(t, "inband") == 0 {
			for k := 0; k < rapid.IntRange(1, 2).Draw(t, "isps"); k++ {
				s.NALs = append(s.NALs, genSPS(t))
			}
			for k := 0; k < rapid.IntRange(1, 2).Draw(t, "ipps"); k++ {
				s.NALs = append(s.NALs, genPPS(t))
			}
		}
		for k := 0; k < rapid.IntRange(0, 2).Draw(t, "sei"); k++ {
			s.NALs = append(s.NALs, ref.GenNAL(t, 6, 400))
		}
		typ := byte(1)
		if key {
			typ = 5
		}
		for k := 0; k < rapid.IntRange(1, 4).Draw(t, "slices"); k++ {
			s.NALs = append(s.NALs, ref.GenNAL(t, typ, 70000))
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

func runC15(c *eng.Ctx, cs c15) error {
	p := &libavc.Parser{Pps: bytes.NewBuffer(make([]byte, libavc.MaxSpsPpsLen))}
	var cur [][]byte
	hdrs, keys := 0, 0
	for i, s := range cs.Steps {
		if len(s.SPS) > 0 {
			hdrs++
			rec := ref.AVCRecord(s.SPS, s.PPS)
			if len(rec) < 9 {
				continue
			}
			if err := p.ParseSpecificInfo(rec); err != nil {
				return fmt.Errorf("step %d: configuration record % x rejected: %v", i, rec, err)
			}
			cur = append(append([][]byte{}, s.SPS...), s.PPS...)
			continue
		}
		var out bytes.Buffer
		if err := p.GetAnnexbH264(ref.AVCC(s.NALs...), &out); err != nil {
			return fmt.Errorf("step %d: access unit rejected: %v", i, err)
		}
		got, err := ref.SplitAnnexB(out.Bytes())
		if err != nil {
			return fmt.Errorf("step %d: not Annex B: %v", i, err)
		}
		if len(got) == 0 || got[0][0]&31 != 9 || len(got[0]) != 2 {
			return fmt.Errorf("step %d: no access unit delimiter first", i)
		}
		var wantVCL, wantSets, gotVCL, gotSets [][]byte
		key := false
		for _, n := range s.NALs {
			switch n[0] & 31 {
			case 7, 8:
				wantSets = append(wantSets, n)
			case 9:
			default:
				if n[0]&31 == 5 {
					key = true
				}
				wantVCL = append(wantVCL, n)
			}
		}
		if key && len(wantSets) == 0 {
			wantSets = cur
		}
		if key {
			keys++
		}
		seenIDR := false
		for _, n := range got[1:] {
			switch n[0] & 31 {
			case 9:
				return fmt.Errorf("step %d: second access unit delimiter", i)
			case 7, 8:
				if seenIDR {
					return fmt.Errorf("step %d: parameter set after the first IDR slice", i)
				}
				gotSets = append(gotSets, n)
			default:
				seenIDR = seenIDR || n[0]&31 == 5
				gotVCL = append(gotVCL, n)
			}
		}
		if !eqNALs(gotVCL, wantVCL) {
			return fmt.Errorf("step %d: slices/SEI %s, want %s", i, sizes(gotVCL), sizes(wantVCL))
		}
		if key && !eqNALs(gotSets, wantSets) {
			return fmt.Errorf("step %d: parameter sets % x, want % x", i, gotSets, wantSets)
		}
	}
	c.Class(fmt.Sprintf("headers%d", hdrs))
	if keys > 0 {
		c.NonTrivial()
	}
	return nil
}

func sizes(n [][]byte) string {
	s := ""
	for _, x := range n {
		s += fmt.Sprintf("[t%d len%d]", x[0]&31, len(x))
	}
	return s
}

func eqNALs(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- C16 ----

type c16 struct {
	OT    byte   `json:"ot"`
	SR    byte   `json:"sr"`
	CH    byte   `json:"ch"`
	Extra []byte `json:"extra"` // bytes after the two config bytes
	Sizes []int  `json:"sizes"`
}

func genC16(t *rapid.T) c16 {
	c := c16{
		OT: byte(rapid.IntRange(1, 4).Draw(t, "ot")), SR: byte(rapid.IntRange(0, 12).Draw(t, "sr")),
		CH: byte(rapid.IntRange(0, 7).Draw(t, "ch")), Extra: rapid.SliceOfN(rapid.Byte(), 0, 4).Draw(t, "x"),
	}
	n := rapid.IntRange(1, 6).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Sizes = append(c.Sizes, rapid.OneOf(rapid.IntRange(1, 8184), rapid.IntRange(1, 40),
			rapid.SampledFrom([]int{1, 248, 249, 250, 504, 505, 506, 2040, 2041, 2042, 4088, 4089, 4090, 8184})).Draw(t, "size"))
	}
	return c
}

func runC16(c *eng.Ctx, cs c16) error {
	asc := []byte{cs.OT<<3 | cs.SR>>1, cs.SR<<7 | cs.CH<<3 | 0}
	asc = append(asc, cs.Extra...)
	var ah libaac.AACHeader
	if err := ah.Parse(asc); err != nil {
		return fmt.Errorf("AudioSpecificConfig % x: %v", asc, err)
	}
	if ah.ObjectType != cs.OT || ah.SampleRate != cs.SR || ah.Channel != cs.CH {
		return fmt.Errorf("AudioSpecificConfig % x parsed as %+v", asc, ah)
	}
	var stream []byte
	var frames [][]byte
	for i, n := range cs.Sizes {
		f := make([]byte, n)
		for k := range f {
			f[k] = byte(k*13 + i*101 + 5)
		}
		frames = append(frames, f)
		stream = append(stream, ah.Adts(f)...)
		stream = append(stream, f...)
	}
	got, err := ref.SplitADTS(stream)
	if err != nil {
		return fmt.Errorf("ADTS stream for %+v: %v", cs, err)
	}
	if len(got) != len(frames) {
		return fmt.Errorf("%d frames, want %d", len(got), len(frames))
	}
	for i, g := range got {
		if g.OT != int(cs.OT) || g.SR != int(cs.SR) || g.CH != int(cs.CH) {
			return fmt.Errorf("ADTS header says object type %d, rate index %d, channels %d; configuration is %d,%d,%d", g.OT, g.SR, g.CH, cs.OT, cs.SR, cs.CH)
		}
		if !bytes.Equal(g.Data, frames[i]) {
			return fmt.Errorf("frame %d differs", i)
		}
	}
	c.Class(fmt.Sprintf("channels%d", cs.CH))
	if len(frames) > 1 {
		c.NonTrivial()
	}
	return nil
}

// ---------------------------------------------------------------- C30 ----

type c30tag struct {
	Kind  string     `json:"kind"` // audio, video, meta, event
	TS    uint32     `json:"ts"`
	Body  []byte     `json:"body,omitempty"`
	Pad   int        `json:"pad,omitempty"` // extra patterned bytes
	First bool       `json:"first,omitempty"`
	Meta  ref.AVal   `json:"meta,omitempty"`
	Name  string     `json:"name,omitempty"`
	Args  []ref.AVal `json:"args,omitempty"`
	Long  bool       `json:"long,omitempty"` // @setDataFrame as a long string
}
type c30 struct {
	Tags []c30tag `json:"tags"`
}

func genTS(t *rapid.T) uint32 {
	return rapid.OneOf(rapid.Uint32(), rapid.Uint32Range(0, 100000),
		rapid.SampledFrom([]uint32{0, 0xfffffe, 0xffffff, 0x1000000, 0x1000001, 0x7fffffff, 0x80000000, 0xffffffff})).Draw(t, "ts")
}

func genC30(t *rapid.T) c30 {
	var c c30
	n := rapid.IntRange(1, 6).Draw(t, "n")
	for i := 0; i < n; i++ {
		k := c30tag{TS: genTS(t)}
		switch rapid.IntRange(0, 5).Draw(t, "kind") {
		case 5: // script data other than metadata
			k.Kind = "event"
			k.First = rapid.Bool().Draw(t, "first")
			k.Long = rapid.IntRange(0, 3).Draw(t, "long") == 0
			k.Name = rapid.SampledFrom([]string{"|RtmpSampleAccess", "onCuePoint", "onTextData", "onFI", "x", "onMetadata", "onMetaData2", "日"}).Draw(t, "name")
			for i := rapid.IntRange(1, 3).Draw(t, "args"); i > 0; i-- {
				switch rapid.IntRange(0, 5).Draw(t, "arg") {
				case 0:
					k.Args = append(k.Args, ref.AN(float64(rapid.IntRange(-1000, 1000).Draw(t, "n"))))
				case 1:
					k.Args = append(k.Args, ref.AB(rapid.Bool().Draw(t, "b")))
				case 2:
					k.Args = append(k.Args, ref.ANil())
				case 3:
					k.Args = append(k.Args, ref.AS(rapid.StringN(0, 300, -1).Draw(t, "s")))
				case 4:
					m := ref.GenMeta(t)
					k.Args = append(k.Args, m)
				default:
					k.Args = append(k.Args, ref.AO("text", ref.AS("t"), "b", ref.AN(1), "a", ref.AB(true)))
				}
			}
		case 0, 1:
			k.Kind = "audio"
			k.Body = rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "body")
			if len(k.Body) > 0 && rapid.Bool().Draw(t, "aac") {
				k.Body[0] = rapid.SampledFrom([]byte{0xaf, 0xae, 0xa0, 0x2f, 0x7e, 0xdf}).Draw(t, "fmt")
			}
		case 2, 3:
			k.Kind = "video"
			k.Body = rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "body")
			if len(k.Body) > 0 && rapid.IntRange(0, 3).Draw(t, "avc") != 0 {
				k.Body[0] = byte(rapid.IntRange(1, 15).Draw(t, "ft"))<<4 | rapid.SampledFrom([]byte{7, 12, 13, 2, 4}).Draw(t, "codec")
			}
		default:
			k.Kind = "meta"
			k.First = rapid.Bool().Draw(t, "first")
			k.Meta = ref.GenMeta(t)
		}
		if len(k.Body) > 5 && rapid.IntRange(0, 6).Draw(t, "big") == 0 {
			k.Pad = rapid.IntRange(1, 80000).Draw(t, "pad")
		}
		c.Tags = append(c.Tags, k)
	}
	return c
}

func runC30(c *eng.Ctx, cs c30) error {
	var stream []byte
	var want []ref.FTag
	var metas []ref.AVal
	for i, k := range cs.Tags {
		body := append([]byte{}, k.Body...)
		for j := 0; j < k.Pad; j++ {
			body = append(body, byte(j*3))
		}
		tb := libflv.TagBase{DataSize: uint32(len(body)), TimeStamp: k.TS}
		keep := append([]byte{}, body...)
		var tag libflv.Tag
		switch k.Kind {
		case "audio":
			tb.TagType = 8
			a, err := libflv.ParseAudioTag(tb, body)
			min := 2
			if err != nil {
				if len(body) >= min {
					return fmt.Errorf("tag %d: audio body % x rejected: %v", i, body, err)
				}
				c.Class("short-audio-rejected")
				continue
			}
			if len(body) == 0 {
				return fmt.Errorf("tag %d: empty audio body accepted", i)
			}
			h := body[0]
			if a.SoundFormat != h>>4 || a.SoundRate != h>>2&3 || a.SoundSize != h>>1&1 || a.SoundType != h&1 {
				return fmt.Errorf("tag %d: audio header %#x read as %+v", i, h, a)
			}
			rest := keep[1:]
			if h>>4 == 10 || h>>4 == 13 {
				if len(body) < 2 {
					return fmt.Errorf("tag %d: truncated audio body accepted", i)
				}
				if a.AACPacketType != keep[1] {
					return fmt.Errorf("tag %d: packet type", i)
				}
				rest = keep[2:]
			}
			if !bytes.Equal(a.Data(), rest) {
				return fmt.Errorf("tag %d: audio payload differs", i)
			}
			want = append(want, ref.FTag{Type: 8, TS: k.TS, Data: keep})
			tag = a
		case "video":
			tb.TagType = 9
			v, err := libflv.ParseVideoTag(tb, body)
			min := 1
			if len(body) > 0 && (body[0]&15 == 7 || body[0]&15 == 12 || body[0]&15 == 13) {
				min = 5
			}
			if err != nil {
				if len(body) >= min {
					return fmt.Errorf("tag %d: video body % x rejected: %v", i, body, err)
				}
				c.Class("short-video-rejected")
				continue
			}
			if len(body) < min {
				return fmt.Errorf("tag %d: truncated video body % x accepted", i, body)
			}
			if v.FrameType != keep[0]>>4 || v.CodecID != keep[0]&15 {
				return fmt.Errorf("tag %d: video header %#x read as %d/%d", i, keep[0], v.FrameType, v.CodecID)
			}
			rest := keep[1:]
			if min == 5 {
				cts := int32(uint32(keep[2])<<24|uint32(keep[3])<<16|uint32(keep[4])<<8) >> 8
				if v.AVCPacketType != keep[1] || int32(v.Cts) != cts {
					return fmt.Errorf("tag %d: packet type/composition time read as %d/%d, want %d/%d", i, v.AVCPacketType, int32(v.Cts), keep[1], cts)
				}
				if cts < 0 {
					c.Class("negative-cts")
				}
				rest = keep[5:]
			}
			if !bytes.Equal(v.Data(), rest) {
				return fmt.Errorf("tag %d: video payload differs", i)
			}
			want = append(want, ref.FTag{Type: 9, TS: k.TS, Data: keep})
			tag = v
		case "meta":
			tb.TagType = 18
			vals := []ref.AVal{ref.AS("onMetaData"), k.Meta}
			if k.First {
				vals = append([]ref.AVal{ref.AS("@setDataFrame")}, vals...)
			}
			b := ref.AMFEncode(vals...)
			m, err := libflv.ParseMetaTag(tb, libamf.AMF0, b)
			if err != nil {
				return fmt.Errorf("tag %d: metadata rejected: %v", i, err)
			}
			want = append(want, ref.FTag{Type: 18, TS: k.TS, Data: nil})
			metas = append(metas, k.Meta)
			tag = m
		case "event":
			tb.TagType = 18
			b := ref.AMFEncode(append([]ref.AVal{ref.AS(k.Name)}, k.Args...)...)
			in := b
			if k.First {
				f := ref.AMFEncode(ref.AS("@setDataFrame"))
				if k.Long {
					f = append([]byte{12, 0, 0}, f[1:]...)
				}
				in = append(f, b...)
			}
			m, err := libflv.ParseMetaTag(tb, libamf.AMF0, append([]byte{}, in...))
			if err != nil {
				return fmt.Errorf("tag %d: script data rejected: %v", i, err)
			}
			want = append(want, ref.FTag{Type: 18, TS: k.TS, Data: b})
			tag = m
			c.Class("event")
		}
		if tag.GetTagInfo().TimeStamp != k.TS {
			return fmt.Errorf("tag %d: timestamp", i)
		}
		w := libflv.FLVWrite(tag)
		stream = append(stream, w...)
	}
	fr := &ref.FLVReader{R: bytes.NewReader(stream)}
	mi := 0
	for i, w := range want {
		g, err := fr.Read()
		if err != nil {
			return fmt.Errorf("written tag %d: %v", i, err)
		}
		if w.Type == 18 && w.Data == nil {
			if g.Type != 18 || g.TS != w.TS {
				return fmt.Errorf("written tag %d is %v", i, g)
			}
			vals, err := ref.AMFDecode(g.Data)
			if err != nil || len(vals) != 2 || vals[0].Str() != "onMetaData" {
				return fmt.Errorf("written script tag: %v %v", vals, err)
			}
			if err := ref.MetaContains(vals[1], metas[mi]); err != nil {
				return fmt.Errorf("script tag: %v", err)
			}
			mi++
			c.Class("meta")
			continue
		}
		if !g.Equal(w) {
			return fmt.Errorf("written tag %d is %v, want %v", i, g, w)
		}
	}
	if _, err := fr.Read(); err == nil {
		return fmt.Errorf("extra data written")
	}
	if len(want) >= 2 {
		c.NonTrivial()
	}
	_ = binary.BigEndian
	return nil
}

func main() {
	eng.Register("C15", eng.Opts{
		Rule:     "sequences of 1-n AVC sequence headers (1-3 SPS/PPS, all profiles) and access units (AUD, in-band SPS+PPS on IDR, SEI, 1-4 slices up to 70 kB, emulation-prevented payloads); non-trivial: at least one IDR access unit",
		Quick:    eng.Budget{Shards: 8, Cases: 6000, Wall: 40 * time.Second},
		Thorough: eng.Budget{Shards: 16, Cases: 100000, Wall: 5 * time.Minute},
		Assumptions: []string{"NAL units carry 4-byte length prefixes and legal (emulation-prevented, non-empty) payloads",
			"in-band parameter sets come as SPS and PPS together, before the IDR slice of the same access unit"},
	}, genC15, runC15)
	eng.Register("C16", eng.Opts{
		Rule:        "object type 1-4 x rate index 0-12 x channel configuration 0-7 x 1-6 payload sizes 1-8184; non-trivial: at least two frames in the stream",
		Quick:       eng.Budget{Shards: 8, Cases: 12000, Wall: 40 * time.Second},
		Thorough:    eng.Budget{Shards: 16, Cases: 200000, Wall: 4 * time.Minute},
		Assumptions: []string{"only configurations ADTS can express (2-bit profile, 3-bit channel configuration)"},
	}, genC16, runC16)
	eng.Register("C30", eng.Opts{
		Rule:     "1-6 audio/video/script tag bodies with any header bits, sizes up to 80 kB and any 32-bit timestamp, parsed and written as FLV; non-trivial: at least two tags written",
		Quick:    eng.Budget{Shards: 8, Cases: 12000, Wall: 40 * time.Second},
		Thorough: eng.Budget{Shards: 16, Cases: 200000, Wall: 5 * time.Minute},
	}, genC30, runC30)
	eng.Main()
}
