package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/SmartBrave/Athena/easyio"
	"github.com/sbraveyoung/GGmpeg/libmpeg"
	"pgregory.net/rapid"

	"verif/harness/eng"
	"verif/harness/ref"
)

// ---------------------------------------------------------------- C11 ----

type c11op struct {
	Kind string `json:"k"` // psi, v, a
	Size int    `json:"n,omitempty"`
	Seed uint32 `json:"s,omitempty"`
	Key  bool   `json:"key,omitempty"`
	DTS  uint64 `json:"dts,omitempty"`
	CTS  int64  `json:"cts,omitempty"`
}
type c11 struct {
	Version byte    `json:"ver"`
	TSID    uint16  `json:"tsid"`
	Program uint16  `json:"prog"`
	VType   byte    `json:"vtype"`
	AType   byte    `json:"atype"`
	Ops     []c11op `json:"ops"`
}

func genC11(t *rapid.T) c11 {
	c := c11{
		Version: byte(rapid.IntRange(0, 31).Draw(t, "ver")),
		TSID:    rapid.Uint16().Draw(t, "tsid"),
		Program: uint16(rapid.IntRange(1, 65535).Draw(t, "prog")),
		VType:   rapid.SampledFrom([]byte{0x1b, 0x24}).Draw(t, "vtype"),
		AType:   rapid.SampledFrom([]byte{0x0f, 0x0f, 0x03, 0x11}).Draw(t, "atype"),
	}
	c.Ops = append(c.Ops, c11op{Kind: "psi"})
	base := rapid.OneOf(rapid.Uint64Range(0, 1<<20), rapid.Uint64Range(1<<32-5000, 1<<32+5000), rapid.Uint64Range(1<<33-20000, 1<<33-1), rapid.Uint64Range(0, 1<<33-1)).Draw(t, "base")
	n := rapid.IntRange(1, 14).Draw(t, "n")
	for i := 0; i < n; i++ {
		if rapid.IntRange(0, 6).Draw(t, "psi") == 0 {
			c.Ops = append(c.Ops, c11op{Kind: "psi"})
		}
		o := c11op{Kind: "v", Seed: rapid.Uint32().Draw(t, "seed")}
		if rapid.IntRange(0, 2).Draw(t, "a") == 0 {
			o.Kind = "a"
		}
		o.Size = rapid.OneOf(
			rapid.IntRange(1, 400),
			rapid.Custom(func(t *rapid.T) int { // around packet boundaries
				return rapid.IntRange(1, 6).Draw(t, "pk")*184 - rapid.IntRange(0, 50).Draw(t, "d")
			}),
			rapid.IntRange(150, 190),
			rapid.IntRange(1, 5000),
			rapid.SampledFrom([]int{65519, 65520, 65521, 65522, 65526, 65527, 65528, 65529, 65535, 65536, 65537, 70000, 131072}),
		).Draw(t, "size")
		if o.Kind == "a" && o.Size > 65000 {
			o.Size = 65000 // audio PES packets must carry their length
		}
		o.DTS = (base + uint64(i)*uint64(rapid.IntRange(0, 4000).Draw(t, "step"))) & (1<<33 - 1)
		if o.Kind == "v" {
			o.Key = rapid.IntRange(0, 2).Draw(t, "key") == 0
			if rapid.Bool().Draw(t, "hascts") {
				o.CTS = int64(rapid.IntRange(-1000, 20000).Draw(t, "cts"))
			}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

const m33 = 1<<33 - 1

func runC11(c *eng.Ctx, cs c11) error {
	video := &libmpeg.PES{StreamID: 0xe0, StreamType: cs.VType, PacketStartCodePrefix: 1}
	audio := &libmpeg.PES{StreamID: 0xc0, StreamType: cs.AType, PacketStartCodePrefix: 1}
	pmt := &libmpeg.PMT{TableID: 2, SectionSyntaxIndicator: 1, SectionLength: 0x17, ProgramNumber: cs.Program,
		VersionNumber: cs.Version, CurrentNextIndicator: 1, PCR_PID: libmpeg.VIDEO_PID,
		Streams: map[uint16]*libmpeg.PES{libmpeg.VIDEO_PID: video, libmpeg.AUDIO_PID: audio}}
	pat := &libmpeg.PAT{TableID: 0, SectionSyntaxIndicator: 1, SectionLength: 0x0d, TransportStreamID: cs.TSID,
		VersionNumber: cs.Version, CurrentNextIndicator: 1, PMTs: map[uint16]*libmpeg.PMT{libmpeg.PMT_PID: pmt}}
	var out bytes.Buffer
	w := easyio.NewEasyWriter(&out)
	cc := map[uint16]uint8{}
	var want []c11op
	psis := 0
	for i, o := range cs.Ops {
		switch o.Kind {
		case "psi":
			psis++
			if _, err := libmpeg.NewTs(libmpeg.PAT_PID, cc, true).Mux(pat, false, 0, w); err != nil {
				return fmt.Errorf("op %d: PAT: %v", i, err)
			}
			if _, err := libmpeg.NewTs(libmpeg.PMT_PID, cc, true).Mux(pmt, false, 0, w); err != nil {
				return fmt.Errorf("op %d: PMT: %v", i, err)
			}
		case "v", "a":
			pes, pid := video, uint16(libmpeg.VIDEO_PID)
			if o.Kind == "a" {
				pes, pid = audio, libmpeg.AUDIO_PID
			}
			pes.DTS, pes.PTS = o.DTS, uint64(int64(o.DTS)+o.CTS)
			pes.PTS_DTSFlag, pes.PESHeaderDataLength = 2, 5
			if pes.PTS != pes.DTS {
				pes.PTS_DTSFlag, pes.PESHeaderDataLength = 3, 10
			}
			pes.Index, pes.HeaderIndex = 0, 0
			pes.Data = ref.Fill(o.Seed, o.Size)
			first := true
			for k := 0; ; k++ {
				fin, err := libmpeg.NewTs(pid, cc, first).Mux(pes, o.Key && first, pes.DTS, w)
				if err != nil {
					return fmt.Errorf("op %d: frame of %d bytes: %v", i, o.Size, err)
				}
				first = false
				if fin {
					break
				}
				if k > o.Size+10 {
					return fmt.Errorf("op %d: frame of %d bytes never finishes", i, o.Size)
				}
			}
			want = append(want, o)
		}
	}
	d, err := ref.TSDemux(out.Bytes())
	if err != nil {
		return err
	}
	if len(d.PATs) != psis || len(d.PMTs) != psis {
		return fmt.Errorf("%d PAT and %d PMT found, wrote %d", len(d.PATs), len(d.PMTs), psis)
	}
	for _, p := range d.PATs {
		if p.Version != cs.Version&31 || p.TSID != cs.TSID || len(p.Programs) != 1 || p.Programs[cs.Program] != libmpeg.PMT_PID {
			return fmt.Errorf("PAT %+v does not match version %d, id %d, program %d", p, cs.Version, cs.TSID, cs.Program)
		}
	}
	for _, p := range d.PMTs {
		if p.Version != cs.Version&31 || p.Program != cs.Program || p.PCRPID != libmpeg.VIDEO_PID || len(p.Streams) != 2 ||
			p.Streams[libmpeg.VIDEO_PID] != cs.VType || p.Streams[libmpeg.AUDIO_PID] != cs.AType {
			return fmt.Errorf("PMT %+v does not match version %d, program %d, types %#x %#x", p, cs.Version, cs.Program, cs.VType, cs.AType)
		}
	}
	if len(d.Frames) != len(want) {
		return fmt.Errorf("%d frames recovered, %d written", len(d.Frames), len(want))
	}
	keys := 0
	for i, f := range d.Frames {
		o := want[i]
		pid := uint16(libmpeg.VIDEO_PID)
		if o.Kind == "a" {
			pid = libmpeg.AUDIO_PID
		}
		if f.PID != pid {
			return fmt.Errorf("frame %d is on pid %#x, want %#x", i, f.PID, pid)
		}
		if !bytes.Equal(f.Data, ref.Fill(o.Seed, o.Size)) {
			return fmt.Errorf("frame %d (%d bytes): recovered %d different bytes", i, o.Size, len(f.Data))
		}
		if wp := uint64(int64(o.DTS)+o.CTS) & m33; !f.HasPTS || f.PTS != wp || f.DTS != o.DTS&m33 {
			return fmt.Errorf("frame %d: PTS %d DTS %d, want %d %d", i, f.PTS, f.DTS, wp, o.DTS&m33)
		}
		if f.RAI != o.Key {
			return fmt.Errorf("frame %d: random access flag %v, key %v", i, f.RAI, o.Key)
		}
		if o.Key {
			if f.PCR != int64(o.DTS&m33) {
				return fmt.Errorf("frame %d: clock reference %d, decode time %d", i, f.PCR, o.DTS&m33)
			}
			keys++
		}
		switch r := (o.Size + 14) % 184; {
		case r >= 176 || r == 0:
			c.Class("frame-at-packet-boundary")
		}
		if o.Size > 65500 {
			c.Class("frame>64k")
		}
		if f.PTS != f.DTS {
			c.Class("with-dts")
		}
	}
	// the library reads its own tables back
	pr := libmpeg.NewPAT()
	if err := pr.Parse(easyio.NewEasyReader(bytes.NewReader(out.Bytes()[5:188]))); err != nil {
		return fmt.Errorf("PAT.Parse of its own table: %v", err)
	}
	if pr.VersionNumber != cs.Version&31 || pr.TransportStreamID != cs.TSID || pr.PMTs[libmpeg.PMT_PID] == nil || pr.PMTs[libmpeg.PMT_PID].ProgramNumber != cs.Program {
		return fmt.Errorf("PAT.Parse of its own table reads %+v", pr)
	}
	pm := libmpeg.NewPMT(0)
	if err := pm.Parse(easyio.NewEasyReader(bytes.NewReader(out.Bytes()[188+5 : 376]))); err != nil {
		return fmt.Errorf("PMT.Parse of its own table: %v", err)
	}
	if pm.ProgramNumber != cs.Program || pm.VersionNumber != cs.Version&31 || len(pm.Streams) != 2 || pm.Streams[libmpeg.VIDEO_PID] == nil || pm.Streams[libmpeg.AUDIO_PID] == nil {
		return fmt.Errorf("PMT.Parse of its own table reads %+v", pm)
	}
	if keys > 0 && len(want) >= 2 {
		c.NonTrivial()
	}
	return nil
}

func main() {
	eng.Register("C11", eng.Opts{
		Rule:     "at least two frames of which at least one is a keyframe",
		Quick:    eng.Budget{Shards: 8, Cases: 6000, Wall: 60 * time.Second},
		Thorough: eng.Budget{Shards: 8, Cases: 200000, Wall: 15 * time.Minute},
		Assumptions: []string{"callers set the section lengths of PAT/PMT as libhls does",
			"audio PES packets stay below 64 KiB (the format cannot express larger ones)"},
	}, genC11, runC11)
	eng.Main()
}
