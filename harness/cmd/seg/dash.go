package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/sbraveyoung/GGmpeg/libdash"
	"pgregory.net/rapid"

	"verif/harness/eng"
	"verif/harness/ref"
)

type picture = ref.PictureConfig

type dashCase struct {
	S    stream    `json:"s"`
	Cfg  []picture `json:"cfg"`
	Stop int       `json:"stop"`
	Race bool      `json:"race,omitempty"`
	ID   string    `json:"id"`
}

func genDash(t *rapid.T) dashCase {
	c := dashCase{S: genStream(t, 110), Stop: -1, ID: rapid.SampledFrom([]string{"s", "a-1", "x_y.z", "a b", "<&\">"}).Draw(t, "id")}
	n := 1
	for _, f := range c.S.V {
		if f.Ev == "vh" && f.Arg+1 > n {
			n = f.Arg + 1
		}
	}
	for i := 0; i < n; i++ {
		c.Cfg = append(c.Cfg, ref.GenPictureConfig(t, c.S.HEVC))
	}
	if rapid.IntRange(0, 3).Draw(t, "stop") == 0 {
		c.Stop = rapid.IntRange(0, 150).Draw(t, "stopat")
		c.Race = rapid.Bool().Draw(t, "race")
	}
	return c
}

type dashSeg struct {
	n    int
	uri  string
	t, d uint64
	seg  *ref.MSegment
	init string // name of its init segment
	body []byte
}

type dashHistory struct {
	c      *eng.Ctx
	cs     dashCase
	dir    string
	d      *libdash.DASH
	began  time.Time
	segs   []dashSeg // in order of first appearance
	inits  map[string][]byte
	rec    map[string][]byte // configuration record by init name
	start  map[string]int64  // by init name: Period@start - presentationTimeOffset
	avail  time.Time
	lastM  string
	oldest int
	max    int
	err    error
	step   int
}

func (x *dashHistory) fail(f string, a ...any) {
	if x.err == nil {
		x.err = fmt.Errorf("step %d: %s", x.step, fmt.Sprintf(f, a...))
	}
}

// cfgOf says which configuration an init segment holds.
func (x *dashHistory) cfgOf(name string, b []byte, p ref.DPeriod) []byte {
	in, err := ref.ParseInit(b)
	if err != nil {
		x.fail("%s: %v", name, err)
		return nil
	}
	entry, box := "avc1", "avcC"
	if x.cs.S.HEVC {
		entry, box = "hev1", "hvcC"
	}
	if in.Entry != entry && !(x.cs.S.HEVC && in.Entry == "hvc1") || in.ConfigType != box || in.Handler != "vide" {
		x.fail("%s: handler %s, sample entry %s with %s", name, in.Handler, in.Entry, in.ConfigType)
	}
	if in.TrackID == 0 || in.TrexID != in.TrackID {
		x.fail("%s: track %d, trex for track %d", name, in.TrackID, in.TrexID)
	}
	if uint64(in.Timescale) != p.Timescale {
		x.fail("%s: timescale %d, the manifest says %d", name, in.Timescale, p.Timescale)
	}
	for _, cfg := range x.cs.Cfg {
		_, rec, w, h, codecs := cfg.Render(x.cs.S.HEVC)
		if !bytes.Equal(rec, in.Config) {
			continue
		}
		if in.W != w || in.H != h || in.TkW != uint32(w)<<16 || in.TkH != uint32(h)<<16 {
			x.fail("%s: picture %dx%d, track %gx%g, want %dx%d", name, in.W, in.H, float64(in.TkW)/65536, float64(in.TkH)/65536, w, h)
		}
		if p.W != w || p.H != h || p.Codecs != codecs {
			x.fail("Period %s: %dx%d %s, want %dx%d %s", p.ID, p.W, p.H, p.Codecs, w, h, codecs)
		}
		return rec
	}
	x.fail("%s: a decoder configuration record nobody published: %x", name, in.Config)
	return nil
}

// observe looks at the manifest and the files between two tags.
func (x *dashHistory) observe(step int) {
	if x.err != nil {
		return
	}
	x.step = step
	files := map[string]bool{}
	es, _ := os.ReadDir(x.dir)
	for _, e := range es {
		files[e.Name()] = true
	}
	delete(files, "foreign.m4s")
	b := x.d.Manifest()
	if len(b) == 0 {
		for f := range files {
			if strings.HasSuffix(f, ".m4s") {
				x.fail("%s exists, there is no manifest", f)
			}
		}
		if len(x.segs) > 0 {
			x.fail("the manifest is gone")
		}
		return
	}
	key := string(b)
	if i := strings.Index(key, `publishTime="`); i >= 0 {
		key = key[:i] + key[i+34:]
	}
	same := key == x.lastM
	x.lastM = key
	m, err := ref.ParseMPD(b)
	if err != nil {
		x.fail("%v\n%s", err, b)
		return
	}
	if x.avail.IsZero() {
		x.avail = m.Available
		if d := m.Available.Sub(x.began); d < -2*time.Second || d > time.Since(x.began)+2*time.Second {
			x.fail("availabilityStartTime is %v after the start", d)
		}
	} else if !m.Available.Equal(x.avail) {
		x.fail("availabilityStartTime changed")
	}
	listed := 0
	next := -1
	depth := uint64(0)
	for pi, p := range m.Periods {
		if p.Timescale == 0 {
			x.fail("timescale 0")
			return
		}
		if _, ok := x.d.Path(p.Init); !ok || !files[p.Init] {
			x.fail("the initialisation segment %q of Period %s does not exist\n%s", p.Init, p.ID, b)
			return
		}
		ib, err := os.ReadFile(filepath.Join(x.dir, p.Init))
		if err != nil {
			x.fail("%v", err)
			return
		}
		if old, ok := x.inits[p.Init]; !ok {
			x.inits[p.Init] = ib
			x.rec[p.Init] = x.cfgOf(p.Init, ib, p)
			x.start[p.Init] = int64(p.Start) - int64(p.PTO*1000/p.Timescale)
		} else {
			if !bytes.Equal(old, ib) {
				x.fail("%s was changed", p.Init)
			}
			if !same {
				x.cfgOf(p.Init, ib, p)
			}
			if s := int64(p.Start) - int64(p.PTO*1000/p.Timescale); s != x.start[p.Init] {
				x.fail("the presentation times of Period %s moved by %d ms", p.ID, s-x.start[p.Init])
			}
		}
		if d := x.start[p.Init] - x.start[m.Periods[0].Init]; d < -1 || d > 1 {
			x.fail("Period %s is presented %d ms off its decode times, compared with Period %s\n%s", p.ID, d, m.Periods[0].ID, b)
		}
		for _, s := range p.Segs {
			depth += s.D * 1000 / p.Timescale
		}
		if pi > 0 && p.Start < m.Periods[pi-1].Start {
			x.fail("Periods go back in time\n%s", b)
		}
		delete(files, p.Init)
		for _, s := range p.Segs {
			listed++
			if next >= 0 && s.Number != next {
				x.fail("segment %d is listed after %d\n%s", s.Number, next-1, b)
			}
			next = s.Number + 1
			if !files[s.URI] {
				x.fail("%s is listed but does not exist\n%s", s.URI, b)
				return
			}
			delete(files, s.URI)
			if path, ok := x.d.Path(s.URI); !ok || path != filepath.Join(x.dir, s.URI) {
				x.fail("Path(%q) is %q, %v", s.URI, path, ok)
			}
			if len(x.segs) == 0 || s.Number > x.segs[len(x.segs)-1].n {
				if n := len(x.segs); n > 0 && s.Number != x.segs[n-1].n+1 {
					x.fail("segment %d was never listed", s.Number-1)
				}
				x.add(p, s)
			} else {
				i := s.Number - x.segs[0].n
				if i < 0 {
					x.fail("segment %d appears late", s.Number)
					return
				}
				o := x.segs[i]
				if o.uri != s.URI || o.t != s.T || o.d != s.D || o.init != p.Init {
					x.fail("segment %d changed from %v+%v to %v+%v", s.Number, o.t, o.d, s.T, s.D)
				}
			}
		}
		for i := 1; i < len(p.Segs); i++ {
			if p.Segs[i].T < p.Segs[i-1].T+p.Segs[i-1].D {
				x.fail("segments overlap\n%s", b)
			}
		}
	}
	if first := m.Periods[0].Segs[0].Number; first < x.oldest {
		x.fail("segment %d is listed again", first)
	} else {
		x.oldest = first
	}
	if listed > x.max {
		x.max = listed
	}
	if uint64(m.Depth) < depth {
		x.fail("the time shift buffer of %d ms is shorter than the %d ms listed", m.Depth, depth)
	}
	if listed > 6 {
		x.fail("%d segments are listed", listed)
	}
	if n := len(x.segs); n > 0 && (next != x.segs[n-1].n+1 || n >= 6 && listed < 6 || n < 6 && listed != n) {
		x.fail("%d of %d segments are listed, the last one is %d\n%s", listed, n, next-1, b)
	}
	// What else there is: an initialisation segment not used yet.
	for f := range files {
		if strings.HasSuffix(f, ".m4s") {
			x.fail("%s is not in the manifest\n%s", f, b)
		} else if !strings.HasSuffix(f, "-init.mp4") {
			x.fail("the file %s", f)
		}
	}
	if len(files) > 1 {
		x.fail("initialisation segments nobody needs: %v", files)
	}
}

func (x *dashHistory) add(p ref.DPeriod, s ref.DSeg) {
	body, err := os.ReadFile(filepath.Join(x.dir, s.URI))
	if err != nil {
		x.fail("%v", err)
		return
	}
	seg, err := ref.ParseSegment(body)
	if err != nil {
		x.fail("%s: %v", s.URI, err)
		return
	}
	in, err := ref.ParseInit(x.inits[p.Init])
	if err != nil {
		return
	}
	if seg.TrackID != in.TrackID {
		x.fail("%s: track %d, %s defines track %d", s.URI, seg.TrackID, p.Init, in.TrackID)
	}
	if n := len(x.segs); n > 0 && seg.Seq <= x.segs[n-1].seg.Seq {
		x.fail("%s: sequence number %d after %d", s.URI, seg.Seq, x.segs[n-1].seg.Seq)
	}
	if len(seg.Samples) == 0 {
		x.fail("%s is empty", s.URI)
		return
	}
	if !seg.Samples[0].Key {
		x.fail("%s does not start with a keyframe", s.URI)
	}
	var sum uint64
	for _, sm := range seg.Samples {
		sum += uint64(sm.Dur)
	}
	if seg.Base != s.T || sum != s.D {
		x.fail("%s holds %d+%d, the manifest says %d+%d", s.URI, seg.Base, sum, s.T, s.D)
	}
	x.segs = append(x.segs, dashSeg{n: s.Number, uri: s.URI, t: s.T, d: s.D, seg: seg, init: p.Init, body: body})
}

func (x *dashHistory) empty(when string) error {
	es, _ := os.ReadDir(x.dir)
	for _, e := range es {
		if e.Name() != "foreign.m4s" {
			return fmt.Errorf("%s: %s is still there", when, e.Name())
		}
	}
	if b, err := os.ReadFile(filepath.Join(x.dir, "foreign.m4s")); err != nil || string(b) != "keep" {
		return fmt.Errorf("%s: a file of somebody else was touched", when)
	}
	if b := x.d.Manifest(); len(b) > 0 {
		if m, err := ref.ParseMPD(b); err == nil && len(m.Periods) > 0 {
			return fmt.Errorf("%s: the manifest still is\n%s", when, b)
		}
	}
	for f := range x.inits {
		if _, ok := x.d.Path(f); ok {
			return fmt.Errorf("%s: %s is still offered", when, f)
		}
	}
	for _, s := range x.segs {
		if _, ok := x.d.Path(s.uri); ok {
			return fmt.Errorf("%s: %s is still offered", when, s.uri)
		}
	}
	return nil
}

// pollDash is somebody who plays while the stream is segmented.
func pollDash(d *libdash.DASH, dir string, quit chan struct{}) error {
	list := func() (map[string]bool, error) {
		b := d.Manifest()
		if len(b) == 0 {
			return nil, nil
		}
		m, err := ref.ParseMPD(b)
		if err != nil {
			return nil, fmt.Errorf("concurrently read manifest: %v\n%s", err, b)
		}
		l := map[string]bool{}
		for _, p := range m.Periods {
			l[p.Init] = true
			for _, s := range p.Segs {
				l[s.URI] = true
			}
		}
		return l, nil
	}
	for {
		select {
		case <-quit:
			return nil
		default:
		}
		l, err := list()
		if err != nil {
			return err
		}
		if l == nil {
			time.Sleep(50 * time.Microsecond)
			continue
		}
		var missing []string
		for f := range l {
			if b, err := os.ReadFile(filepath.Join(dir, f)); err != nil || len(b) == 0 {
				missing = append(missing, f)
			} else if _, err := ref.ParseBoxes(b, 0); err != nil {
				missing = append(missing, f)
			}
		}
		if len(missing) == 0 {
			continue
		}
		if l, err = list(); err != nil {
			return err
		}
		for _, f := range missing {
			if l[f] {
				return fmt.Errorf("%s was listed all the time, but is not there or not complete", f)
			}
		}
	}
}

func runC18(c *eng.Ctx, cs dashCase) error {
	cs.S.record = func(i int) []byte { _, rec, _, _, _ := cs.Cfg[i%len(cs.Cfg)].Render(cs.S.HEVC); return rec }
	items := cs.S.items(func(hevc bool, i int) [][][]byte { l, _, _, _, _ := cs.Cfg[i%len(cs.Cfg)].Render(hevc); return l })
	x := &dashHistory{c: c, cs: cs, dir: filepath.Join(c.Dir, "dash"), inits: map[string][]byte{}, rec: map[string][]byte{}, start: map[string]int64{}, oldest: -1}
	os.RemoveAll(x.dir)
	os.MkdirAll(x.dir, 0o755)
	os.WriteFile(filepath.Join(x.dir, "foreign.m4s"), []byte("keep"), 0o644)
	x.began = time.Now()
	x.d = libdash.NewDASH().WithStreamID(cs.ID).WithDir(x.dir)
	if cs.Stop > len(items) {
		cs.Stop = len(items)
	}
	var wg sync.WaitGroup
	pollErr := make(chan error, 1)
	quit := make(chan struct{})
	if cs.Race {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := pollDash(x.d, x.dir, quit); err != nil {
				pollErr <- err
			}
		}()
	}
	stopped := false
	var stopErr error
	r := &stepReader{items: items}
	r.onStep = func(i int) {
		if !stopped {
			x.observe(i)
		}
		if i == cs.Stop {
			stopped = true
			if cs.Race {
				wg.Add(1)
				go func() {
					defer wg.Done()
					x.d.Stop()
					if err := x.empty("when Stop has returned"); err != nil && stopErr == nil {
						stopErr = err
					}
				}()
			} else {
				x.d.Stop()
				stopErr = x.empty("after Stop")
			}
		}
	}
	startErr := x.d.Start(r)
	close(quit)
	wg.Wait()
	if startErr != nil {
		return fmt.Errorf("Start: %v", startErr)
	}
	if x.err != nil {
		return x.err
	}
	select {
	case err := <-pollErr:
		return err
	default:
	}
	if stopErr != nil {
		return stopErr
	}
	if cs.Stop >= 0 {
		c.Class("stopped-midway")
		if err := x.empty("after Stop and the end of the stream"); err != nil {
			return err
		}
		if len(x.segs) > 0 {
			c.NonTrivial()
		}
		return nil
	}
	x.observe(len(items))
	if x.err != nil {
		return x.err
	}
	if err := x.content(items); err != nil {
		return err
	}
	x.d.WaitFirstSegment() // must not hang once the stream is over
	x.d.Stop()
	if err := x.empty("after the end and Stop"); err != nil {
		return err
	}
	if len(x.segs) >= 3 {
		c.NonTrivial()
	}
	if len(x.inits) > 1 {
		c.Class("reconfigured")
	}
	c.Class(fmt.Sprintf("window-%d", x.max))
	if cs.S.HEVC {
		c.Class("hevc")
	}
	return nil
}

// content compares the segments with what was published.
func (x *dashHistory) content(items []item) error {
	type want struct {
		it  item
		rec []byte
		rel int64 // ms since the first video frame published
	}
	var ws []want
	var rec []byte
	var last uint32
	var rel int64
	seen := false
	for _, it := range items {
		switch it.kind {
		case 'V':
			rec = it.rec
		case 'v':
			if seen {
				rel += int64(int32(it.ts - last))
			}
			last, seen = it.ts, true
			if rec != nil && (len(ws) > 0 || it.key) {
				ws = append(ws, want{it, rec, rel})
			}
		}
	}
	i := 0
	var first uint64
	var prevEnd uint64
	var prevInit string
	for _, s := range x.segs {
		if s.init == prevInit && s.t != prevEnd {
			return fmt.Errorf("%s starts at %d, the segment before it ends at %d", s.uri, s.t, prevEnd)
		}
		prevEnd, prevInit = s.t+s.d, s.init
		for k, m := range s.seg.Samples {
			if i >= len(ws) {
				return fmt.Errorf("%s: sample %d was never published", s.uri, k)
			}
			w := ws[i]
			if i == 0 {
				first = m.DTS
			}
			if uint32(m.DTS) != w.it.ts || int64(m.DTS-first) != w.rel-ws[0].rel {
				return fmt.Errorf("%s: sample %d (frame %d) has decode time %d, published at %d (+%d)", s.uri, k, i, m.DTS, w.it.ts, w.rel-ws[0].rel)
			}
			if m.CTO != w.it.cts {
				return fmt.Errorf("%s: sample %d (frame %d) has composition offset %d, want %d", s.uri, k, i, m.CTO, w.it.cts)
			}
			if m.Key != w.it.key {
				return fmt.Errorf("%s: sample %d (frame %d) has sync %v, want %v", s.uri, k, i, m.Key, w.it.key)
			}
			if d := ref.AVCC(w.it.nals...); !bytes.Equal(m.Data, d) {
				return fmt.Errorf("%s: sample %d (frame %d) is %d bytes %.20x, want %d bytes %.20x", s.uri, k, i, len(m.Data), m.Data, len(d), d)
			}
			if !bytes.Equal(x.rec[s.init], w.rec) {
				return fmt.Errorf("%s: sample %d (frame %d) is decoded with another configuration than the one it was published with", s.uri, k, i)
			}
			if k > 0 && m.Key && m.DTS-s.t >= 2000 {
				return fmt.Errorf("%s: not cut at the keyframe %d ms after its start", s.uri, m.DTS-s.t)
			}
			i++
		}
		// On the timeline the whole stream starts at 0.
		if at := x.start[s.init] + int64(s.t); at != int64(s.t-first) {
			return fmt.Errorf("%s is presented at %d ms, it is %d ms into the stream", s.uri, at, s.t-first)
		}
	}
	if i != len(ws) {
		return fmt.Errorf("%d of %d frames are in segments", i, len(ws))
	}
	return nil
}

func registerDASH() {
	eng.Register("C18", eng.Opts{
		Rule:     "at least three segments, or stopped after the first one",
		Quick:    eng.Budget{Shards: 8, Cases: 2000, Wall: 60 * time.Second},
		Thorough: eng.Budget{Shards: 8, Cases: 60000, Wall: 15 * time.Minute},
		Assumptions: []string{"video only (the audio of a stream is not offered over DASH)", "decode times do not go back, except where the millisecond counter wraps",
			"one SPS per configuration; a new configuration is followed by a keyframe"},
	}, genDash, runC18)
}
