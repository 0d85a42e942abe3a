package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/sbraveyoung/GGmpeg/libmp4"
	"pgregory.net/rapid"

	"verif/harness/eng"
	"verif/harness/ref"
)

// ---------------------------------------------------------------- C17 ----

type c17sample struct {
	Dur  uint32 `json:"d"`
	Size int    `json:"n"`
	Seed uint32 `json:"s"`
	Key  bool   `json:"k,omitempty"`
	CTO  int32  `json:"c,omitempty"`
}
type c17 struct {
	HEVC     bool        `json:"hevc"`
	Track    uint32      `json:"track"`
	Scale    uint32      `json:"scale"`
	W        uint16      `json:"w"`
	H        uint16      `json:"h"`
	SPS, PPS []byte      `json:",omitempty"`
	HVCC     []byte      `json:",omitempty"`
	Seq      uint32      `json:"seq"`
	Base     uint64      `json:"base"`
	Samples  []c17sample `json:"samples"`
}

func u32b(t *rapid.T, l string) uint32 {
	return rapid.OneOf(rapid.Uint32Range(0, 100), rapid.SampledFrom([]uint32{255, 256, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1}), rapid.Uint32()).Draw(t, l)
}

func genC17(t *rapid.T) c17 {
	c := c17{
		HEVC:  rapid.Bool().Draw(t, "hevc"),
		Track: 1 + u32b(t, "track")&0x7fffffff,
		Scale: rapid.OneOf(rapid.SampledFrom([]uint32{1, 1000, 90000, 48000, 1 << 31, 1<<32 - 1}), rapid.Uint32Range(1, 1<<32-1)).Draw(t, "scale"),
		W:     rapid.Uint16().Draw(t, "w"), H: rapid.Uint16().Draw(t, "h"),
		Seq:  u32b(t, "seq"),
		Base: rapid.OneOf(rapid.Uint64Range(0, 100000), rapid.Uint64Range(1<<32-10, 1<<32+10), rapid.Uint64()).Draw(t, "base"),
	}
	if c.HEVC {
		c.HVCC = rapid.SliceOfN(rapid.Byte(), 23, 200).Draw(t, "hvcc")
	} else {
		c.SPS = append([]byte{0x67}, rapid.SliceOfN(rapid.Byte(), 3, rapid.SampledFrom([]int{40, 40, 600}).Draw(t, "ml")).Draw(t, "sps")...)
		c.PPS = append([]byte{0x68}, rapid.SliceOfN(rapid.Byte(), 1, 300).Draw(t, "pps")...)
	}
	n := rapid.OneOf(rapid.IntRange(1, 6), rapid.IntRange(1, 40), rapid.IntRange(200, 300)).Draw(t, "n")
	for i := 0; i < n; i++ {
		s := c17sample{Dur: u32b(t, "dur"), Seed: rapid.Uint32().Draw(t, "seed"), Key: rapid.IntRange(0, 3).Draw(t, "key") == 0}
		s.Size = rapid.OneOf(rapid.IntRange(0, 30), rapid.IntRange(0, 3000), rapid.SampledFrom([]int{255, 256, 65535, 65536, 70000})).Draw(t, "size")
		s.CTO = rapid.OneOf(rapid.Just(int32(0)), rapid.Int32Range(-9000, 9000), rapid.Int32()).Draw(t, "cto")
		c.Samples = append(c.Samples, s)
	}
	return c
}

func runC17(c *eng.Ctx, cs c17) error {
	var init []byte
	if cs.HEVC {
		init = libmp4.BuildHEVCInitSegment(libmp4.HEVCInitParams{TrackID: cs.Track, Timescale: cs.Scale, Width: cs.W, Height: cs.H, HVCCRecord: cs.HVCC})
	} else {
		init = libmp4.BuildInitSegment(libmp4.InitSegmentParams{TrackID: cs.Track, Timescale: cs.Scale, Width: cs.W, Height: cs.H, SPS: cs.SPS, PPS: cs.PPS})
	}
	m, err := ref.ParseInit(init)
	if err != nil {
		return fmt.Errorf("init segment: %w", err)
	}
	if m.TrackID != cs.Track || m.TrexID != cs.Track || m.Timescale != cs.Scale || m.W != int(cs.W) || m.H != int(cs.H) ||
		m.TkW != uint32(cs.W)<<16 || m.TkH != uint32(cs.H)<<16 || m.Handler != "vide" {
		return fmt.Errorf("init segment reads %+v", *m)
	}
	if cs.HEVC {
		if (m.Entry != "hev1" && m.Entry != "hvc1") || m.ConfigType != "hvcC" || !bytes.Equal(m.Config, cs.HVCC) {
			return fmt.Errorf("init segment: HEVC configuration not embedded verbatim (%s/%s)", m.Entry, m.ConfigType)
		}
	} else {
		if m.Entry != "avc1" || m.ConfigType != "avcC" || len(m.SPS) != 1 || len(m.PPS) != 1 || !bytes.Equal(m.SPS[0], cs.SPS) || !bytes.Equal(m.PPS[0], cs.PPS) ||
			m.Prof != cs.SPS[1] || m.Compat != cs.SPS[2] || m.Lev != cs.SPS[3] || m.LenSize != 4 {
			return fmt.Errorf("init segment: AVC configuration reads %+v", *m)
		}
	}
	var in []libmp4.Sample
	for _, s := range cs.Samples {
		in = append(in, libmp4.Sample{Duration: s.Dur, Size: uint32(s.Size), IsKey: s.Key, CompositionTimeOffset: s.CTO, Data: ref.Fill(s.Seed, s.Size)})
	}
	seg := libmp4.BuildMediaSegment(libmp4.MediaSegmentParams{TrackID: cs.Track, SequenceNumber: cs.Seq, BaseDecodeTime: cs.Base, Samples: in})
	for _, b := range [][]byte{seg, append(libmp4.BuildSegmentType(), seg...)} {
		s, err := ref.ParseSegment(b)
		if err != nil {
			return fmt.Errorf("media segment: %w", err)
		}
		if s.Seq != cs.Seq || s.TrackID != cs.Track || s.Base != cs.Base || len(s.Samples) != len(cs.Samples) {
			return fmt.Errorf("media segment reads seq %d track %d base %d, %d samples", s.Seq, s.TrackID, s.Base, len(s.Samples))
		}
		for i, x := range s.Samples {
			w := cs.Samples[i]
			if x.Dur != w.Dur || int(x.Size) != w.Size || x.CTO != w.CTO || x.Key != w.Key || !bytes.Equal(x.Data, in[i].Data) {
				return fmt.Errorf("sample %d reads duration %d size %d offset %d key %v, want %+v", i, x.Dur, x.Size, x.CTO, x.Key, w)
			}
		}
	}
	neg := false
	for _, s := range cs.Samples {
		neg = neg || s.CTO < 0
	}
	if neg {
		c.Class("negative-offset")
	}
	if cs.HEVC {
		c.Class("hevc")
	}
	if len(cs.Samples) > 1 {
		c.NonTrivial()
	}
	return nil
}

func main() {
	eng.Register("C17", eng.Opts{
		Rule:     "a media segment with at least two samples, plus an init segment",
		Quick:    eng.Budget{Shards: 8, Cases: 2000, Wall: 60 * time.Second},
		Thorough: eng.Budget{Shards: 8, Cases: 150000, Wall: 15 * time.Minute},
		Assumptions: []string{"an SPS has at least 4 bytes and a HEVC configuration record at least 23",
			"Sample.Size is the length of Sample.Data, as libdash sets it"},
	}, genC17, runC17)
	eng.Main()
}
