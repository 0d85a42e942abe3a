package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/sbraveyoung/GGmpeg/libhls"
	"pgregory.net/rapid"

	"verif/harness/eng"
	"verif/harness/ref"
)

type waiter struct {
	At   int `json:"at"`   // step at which it asks
	MSN  int `json:"msn"`  // relative to the next segment number
	Part int `json:"part"` // -1: the complete segment
	Ms   int `json:"ms"`   // timeout
}

type hlsCase struct {
	S    stream   `json:"s"`
	LL   bool     `json:"ll,omitempty"`
	Stop int      `json:"stop"`           // step at which it is stopped, -1: never
	Race bool     `json:"race,omitempty"` // from another goroutine
	ID   string   `json:"id"`
	Wait []waiter `json:"wait,omitempty"`
}

func genHLS(t *rapid.T, max int, ll int) hlsCase {
	c := hlsCase{S: genStream(t, max), Stop: -1, ID: rapid.SampledFrom([]string{"s", "a-1", "x_y.z"}).Draw(t, "id")}
	switch ll {
	case 0:
		c.LL = rapid.IntRange(0, 3).Draw(t, "ll") == 0
	case 1:
		c.LL = true
	}
	return c
}

// segFile is one segment as first seen.
type segFile struct {
	seq  int
	uri  string
	dur  float64
	data []byte
	part []ref.MPart
}

// history is everything seen while a stream was segmented.
type history struct {
	c     *eng.Ctx
	cs    hlsCase
	dir   string
	h     *libhls.HLS
	segs  []segFile // by sequence number
	last  *ref.M3U8
	lastB []byte
	vers  int
	cur   map[string][]ref.MPart // parts announced of the segment in progress
	max   int                    // longest window
	step  int
	err   error
	items []item
	long  float64
}

func (x *history) fail(f string, a ...any) {
	if x.err == nil {
		x.err = fmt.Errorf("after %d tags: %s", x.step, fmt.Sprintf(f, a...))
	}
}

// observe looks at the playlist and the files between two tags.
func (x *history) observe(i int) {
	x.step = i
	if x.err != nil {
		return
	}
	b := x.h.Playlist()
	if len(b) == 0 {
		if x.last != nil && len(x.last.Segs) > 0 {
			x.fail("the playlist vanished")
		}
		return
	}
	if bytes.Equal(b, x.lastB) {
		return
	}
	p, err := ref.ParseM3U8(b)
	if err != nil {
		x.fail("playlist: %v\n%s", err, b)
		return
	}
	x.vers++
	if p.End {
		x.fail("the playlist of a live stream has an end")
	}
	if p.Seq != 0 && len(p.Segs) == 0 {
		x.fail("no segments but media sequence %d", p.Seq)
	}
	if x.last != nil && p.Seq < x.last.Seq {
		x.fail("the media sequence went back from %d to %d", x.last.Seq, p.Seq)
	}
	if x.last != nil && p.Seq+len(p.Segs) < x.last.Seq+len(x.last.Segs) {
		x.fail("segments disappeared from the end of the playlist: %d then %d", x.last.Seq+len(x.last.Segs), p.Seq+len(p.Segs))
	}
	if p.Seq > len(x.segs) {
		x.fail("the playlist skips from segment %d to %d", len(x.segs), p.Seq)
		return
	}
	if len(p.Segs) > x.max {
		x.max = len(p.Segs)
	}
	if len(p.Segs) > 6 {
		x.fail("the window has %d segments", len(p.Segs))
	}
	listed := map[string]bool{}
	for _, s := range p.Segs {
		listed[s.URI] = true
		data, err := os.ReadFile(filepath.Join(x.dir, s.URI))
		if err != nil {
			x.fail("segment %d (%s) is listed but: %v", s.Seq, s.URI, err)
			return
		}
		if s.Seq < len(x.segs) {
			o := x.segs[s.Seq]
			if o.uri != s.URI || o.dur != s.Dur || !bytes.Equal(o.data, data) || len(o.part) != len(s.Parts) {
				x.fail("segment %d was %s of %v s, %d bytes, %d parts; now it is %s of %v s, %d bytes, %d parts (same bytes: %v)", s.Seq,
					o.uri, o.dur, len(o.data), len(o.part), s.URI, s.Dur, len(data), len(s.Parts), bytes.Equal(o.data, data))
				return
			}
			for k := range s.Parts {
				if s.Parts[k] != o.part[k] {
					x.fail("part %d of segment %d changed from %+v to %+v", k, s.Seq, o.part[k], s.Parts[k])
				}
			}
			continue
		}
		for _, o := range x.segs {
			if o.uri == s.URI {
				x.fail("the name %s of segment %d was that of segment %d", s.URI, s.Seq, o.seq)
			}
		}
		x.segs = append(x.segs, segFile{s.Seq, s.URI, s.Dur, data, s.Parts})
		x.completed(s, data)
	}
	es, _ := os.ReadDir(x.dir)
	extra := 0
	for _, e := range es {
		if !listed[e.Name()] && e.Name() != "foreign.ts" {
			extra++
		}
	}
	if extra > 2 {
		x.fail("%d files that are not listed", extra)
	}
	x.last, x.lastB = p, b
	if x.cs.LL {
		x.live(p, b)
	}
}

// completed checks a segment that has just been listed for what its parts
// promised.
func (x *history) completed(s ref.MSeg, data []byte) {
	for k, p := range x.cur[s.URI] {
		if k >= len(s.Parts) || s.Parts[k] != p {
			x.fail("part %d of %s was announced as %+v, the completed segment has %+v", k, s.URI, p, s.Parts)
			return
		}
	}
	delete(x.cur, s.URI)
}

// longestPart is the longest duration a part can need: the configured target,
// or the longest time a single frame is shown. It is 0 for streams with frames
// that have no definite duration.
func (x *history) longestPart() float64 {
	if len(x.items) == 0 {
		return 0
	}
	if x.long == 0 {
		x.long = x.h.PartTargetDur().Seconds()
		var prev *item
		for i := range x.items {
			it := &x.items[i]
			if it.kind != 'v' || prev == nil && !it.key {
				continue
			}
			if prev != nil {
				d := int64(int32(it.ts - prev.ts))
				if d < 0 {
					x.long = -1
					break
				}
				x.long = math.Max(x.long, float64(d)/1000)
			}
			prev = it
		}
		if prev != nil && x.long > 0 {
			first := true // only one time in the whole stream
			key := false
			for _, it := range x.items {
				key = key || it.key
				first = first && (it.kind != 'v' || !key || it.ts == prev.ts)
			}
			if first {
				x.long = -1
			}
		}
	}
	return math.Max(x.long, 0)
}

// live checks the parts of the segment in progress.
func (x *history) live(p *ref.M3U8, b []byte) {
	if p.PartTarget <= 0 || !p.CanBlock || p.HoldBack < 3*p.PartTarget-0.002 {
		x.fail("part target %v, blocking %v, hold back %v", p.PartTarget, p.CanBlock, p.HoldBack)
	}
	if t := x.longestPart(); t > 0 && p.PartTarget > t+0.0011 {
		x.fail("part target %v although no frame lasts longer than %v", p.PartTarget, t)
	}
	next := int64(0)
	for _, q := range p.Parts {
		if q.Off != next {
			x.fail("the parts in progress have a hole: %+v", p.Parts)
		}
		next = q.Off + q.Len
		if q.Dur <= 0 || q.Dur > p.PartTarget+1e-9 {
			x.fail("part %+v with part target %v", q, p.PartTarget)
		}
	}
	for _, s := range p.Segs {
		for _, q := range s.Parts {
			if q.Dur <= 0 || q.Dur > p.PartTarget+1e-9 {
				x.fail("part %+v of %s with part target %v", q, s.URI, p.PartTarget)
			}
		}
	}
	uri := p.HintURI
	if len(p.Parts) > 0 {
		if uri != p.Parts[0].URI {
			x.fail("preload hint %q after parts of %s", uri, p.Parts[0].URI)
			return
		}
		st, err := os.Stat(filepath.Join(x.dir, uri))
		if err != nil || st.Size() < next {
			x.fail("parts up to byte %d of %s are listed, but: %v %v", next, uri, st, err)
			return
		}
	}
	if uri != "" {
		if p.HintOff != next {
			x.fail("preload hint at %d, the parts end at %d", p.HintOff, next)
		}
		if x.cur == nil {
			x.cur = map[string][]ref.MPart{}
		}
		old := x.cur[uri]
		if len(p.Parts) < len(old) {
			x.fail("parts of %s disappeared", uri)
			return
		}
		for k := range old {
			if p.Parts[k] != old[k] {
				x.fail("part %d of %s changed from %+v to %+v", k, uri, old[k], p.Parts[k])
			}
		}
		x.cur[uri] = p.Parts
		for u := range x.cur {
			if u != uri {
				x.fail("%s was in progress, then %s was, but the first is not listed\n%s", u, uri, b)
			}
		}
	}
}

// run segments the stream; hook is called between tags.
func (x *history) run(items []item, hook func(i int)) error {
	x.items = items
	r := &stepReader{items: items, onStep: func(i int) {
		x.observe(i)
		if hook != nil {
			hook(i)
		}
	}}
	if err := x.h.Start(r); err != nil {
		return fmt.Errorf("Start: %v", err)
	}
	if x.cs.Stop < 0 {
		x.observe(len(items))
	}
	return x.err
}

func newHistory(c *eng.Ctx, cs hlsCase) *history {
	x := &history{c: c, cs: cs, dir: filepath.Join(c.Dir, "hls")}
	os.RemoveAll(x.dir)
	x.h = libhls.NewHls().WithStreamID(cs.ID).WithDir(x.dir).WithLowLatency(cs.LL)
	return x
}

// ---------------------------------------------------------------- C12 ----

type wantAudio struct {
	ts         uint32
	data       []byte
	ot, sr, ch int
}
type wantVideo struct {
	it   item
	sets [][]byte
}

func expected(items []item) (v []wantVideo, a []wantAudio) {
	started := false
	var sets [][]byte
	var ah item
	for _, it := range items {
		switch it.kind {
		case 'V':
			sets = it.sets
		case 'A':
			ah = it
		case 'v':
			if it.key {
				started = true
			}
			if started {
				v = append(v, wantVideo{it, sets})
			}
		case 'a':
			if started {
				a = append(a, wantAudio{it.ts, it.data, ah.ot, ah.sr, ah.ch})
			}
		}
	}
	return
}

// checkAU compares the NAL units of an access unit with the published ones.
func checkAU(hevc bool, w wantVideo, got [][]byte) error {
	strip := func(l [][]byte) (out [][]byte) {
		for _, n := range l {
			if !isSet(hevc, n) && !isAUD(hevc, n) {
				out = append(out, n)
			}
		}
		return
	}
	g, p := strip(got), strip(w.it.nals)
	same := len(g) == len(p)
	for i := 0; same && i < len(g); i++ {
		same = bytes.Equal(g[i], p[i])
	}
	if !same {
		return fmt.Errorf("NAL units%s, published%s", fmtNALs(got), fmtNALs(w.it.nals))
	}
	for i, n := range got {
		if isAUD(hevc, n) && i > 0 {
			return fmt.Errorf("access unit delimiter in the middle:%s", fmtNALs(got))
		}
	}
	if !w.it.key {
		return nil
	}
	var want [][]byte
	inband := false
	for _, n := range w.it.nals {
		if isSet(hevc, n) {
			want = append(want, n)
			inband = inband || isSPS(hevc, n)
		}
	}
	if !inband {
		want = append(append([][]byte{}, w.sets...), want...)
	}
	k := 0
	for _, n := range got {
		vcl := n[0]&31 == 5
		if hevc {
			vcl = n[0]>>1&63 < 32
		}
		if vcl {
			break
		}
		if isSet(hevc, n) && k < len(want) && bytes.Equal(n, want[k]) {
			k++
		}
	}
	if k != len(want) {
		return fmt.Errorf("keyframe is not preceded by its parameter sets%s:%s", fmtNALs(want), fmtNALs(got))
	}
	return nil
}

const vPID, aPID = 0x100, 0x101

func runC12(c *eng.Ctx, cs hlsCase) error {
	items := cs.S.items(paramSets)
	x := newHistory(c, cs)
	defer x.h.Stop()
	if err := x.run(items, nil); err != nil {
		return err
	}
	return x.checkContent(items)
}

// pids finds the elementary streams by their types.
func pids(d *ref.TSDump) (v, a uint16, vt byte, err error) {
	for _, m := range d.PMTs {
		for pid, ty := range m.Streams {
			switch ty {
			case 0x1b, 0x24:
				v, vt = pid, ty
			case 0x0f:
				a = pid
			default:
				return 0, 0, 0, fmt.Errorf("stream type %#x", ty)
			}
		}
	}
	return
}

func (x *history) checkContent(items []item) error {
	wv, wa := expected(items)
	nv, na := 0, 0
	hevc := x.cs.S.HEVC
	for si, s := range x.segs {
		in := func(f string, a ...any) error {
			return fmt.Errorf("segment %d of %d: %s", si, len(x.segs), fmt.Sprintf(f, a...))
		}
		d, err := ref.TSDemux(s.data)
		if err != nil {
			return in("%v", err)
		}
		if len(d.PATs) == 0 || len(d.PMTs) == 0 || d.PATs[0].Offset != 0 || d.PMTs[0].Offset != 188 {
			return in("does not start with its tables")
		}
		vp, ap, vt, err := pids(d)
		if err != nil {
			return in("%v", err)
		}
		if want := map[bool]byte{false: 0x1b, true: 0x24}[hevc]; vt != want {
			return in("video stream type %#x, want %#x", vt, want)
		}
		if len(d.Frames) == 0 || d.Frames[0].PID != vp {
			return in("does not start with video")
		}
		first := true
		for _, f := range d.Frames {
			switch f.PID {
			case vp:
				if nv >= len(wv) {
					return in("more video frames than the %d published", len(wv))
				}
				w := wv[nv]
				fr := func(f string, a ...any) error {
					return in("video frame %d (published at %d ms, key %v): %s", nv, w.it.ts, w.it.key, fmt.Sprintf(f, a...))
				}
				if first && !w.it.key {
					return fr("a segment starts with it")
				}
				first = false
				dts := uint64(w.it.ts) * 90 & m33
				pts := uint64(int64(w.it.ts)*90+int64(w.it.cts)*90) & m33
				if !f.HasPTS || f.DTS != dts || f.PTS != pts {
					return fr("DTS %d PTS %d, want %d %d", f.DTS, f.PTS, dts, pts)
				}
				if f.PCR >= 0 && wrapSub(f.DTS, uint64(f.PCR)) != 0 {
					return fr("clock reference %d, decode time %d", f.PCR, f.DTS)
				}
				if f.RAI != w.it.key {
					return fr("random access flag %v", f.RAI)
				}
				nals, err := ref.SplitAnnexB(f.Data)
				if err != nil {
					return fr("%v", err)
				}
				if err := checkAU(hevc, w, nals); err != nil {
					return fr("%v", err)
				}
				nv++
			case ap:
				frames, err := ref.SplitADTS(f.Data)
				if err != nil {
					return in("audio frame %d: %v", na, err)
				}
				for k, g := range frames {
					if na >= len(wa) {
						return in("more audio frames than the %d published", len(wa))
					}
					w := wa[na]
					if !bytes.Equal(g.Data, w.data) {
						return in("audio frame %d (published at %d ms): %d bytes, published %d others", na, w.ts, len(g.Data), len(w.data))
					}
					if g.OT != w.ot || g.SR != w.sr || g.CH != w.ch {
						return in("audio frame %d: object type %d rate %d channels %d, want %d %d %d", na, g.OT, g.SR, g.CH, w.ot, w.sr, w.ch)
					}
					t := f.PTS + uint64(k*1024*90000/rates[w.sr])
					if diff := wrapSub(t, uint64(w.ts)*90); !f.HasPTS || diff > 200 || diff < -200 {
						return in("audio frame %d is at %d, published at %d (difference %d)", na, t, uint64(w.ts)*90&m33, diff)
					}
					na++
				}
			default:
				return in("unit on pid %#x", f.PID)
			}
		}
	}
	if nv != len(wv) {
		return fmt.Errorf("%d video frames in the segments, %d published", nv, len(wv))
	}
	if na != len(wa) {
		return fmt.Errorf("%d audio frames in the segments, %d published after the first keyframe", na, len(wa))
	}
	if len(x.segs) >= 2 {
		x.c.NonTrivial()
	}
	if na > 0 {
		x.c.Class("with-audio")
	}
	if x.cs.LL {
		x.c.Class("low-latency")
	}
	if hevc {
		x.c.Class("hevc")
	}
	if uint64(x.cs.S.Base)*90 >= 1<<32-400000 {
		x.c.Class("beyond-32-bit-90kHz")
	}
	x.c.Class(fmt.Sprintf("segments-%d", min(len(x.segs), 8)))
	return nil
}

// ---------------------------------------------------------------- C13 ----

func genC13(t *rapid.T) hlsCase {
	c := genHLS(t, 110, 0)
	switch rapid.IntRange(0, 3).Draw(t, "stop") {
	case 0:
		c.Stop = rapid.IntRange(0, 150).Draw(t, "stopat")
		c.Race = rapid.Bool().Draw(t, "race")
	}
	return c
}

func runC13(c *eng.Ctx, cs hlsCase) error {
	items := cs.S.items(paramSets)
	x := newHistory(c, cs)
	x.items = items
	foreign := filepath.Join(x.dir, "foreign.ts")
	os.MkdirAll(x.dir, 0o755)
	os.WriteFile(foreign, []byte("keep"), 0o644)
	stopped := false
	var wg sync.WaitGroup
	if cs.Stop > len(items) {
		cs.Stop = len(items)
	}
	x.cs.Stop = cs.Stop
	pollErr := make(chan error, 1)
	quit := make(chan struct{})
	if cs.Race {
		wg.Add(1)
		go func() { // somebody who plays meanwhile
			defer wg.Done()
			if err := poll(x.h, x.dir, quit); err != nil {
				pollErr <- err
			}
		}()
	}
	empty := func(when string) error {
		es, _ := os.ReadDir(x.dir)
		for _, e := range es {
			if e.Name() != "foreign.ts" {
				return fmt.Errorf("%s: %s is still there", when, e.Name())
			}
		}
		if b, err := os.ReadFile(foreign); err != nil || string(b) != "keep" {
			return fmt.Errorf("%s: a file of somebody else was touched", when)
		}
		if b := x.h.Playlist(); len(b) > 0 {
			if p, err := ref.ParseM3U8(b); err != nil || len(p.Segs)+len(p.Parts) > 0 || p.HintURI != "" {
				return fmt.Errorf("%s: the playlist still is\n%s", when, b)
			}
		}
		return nil
	}
	var stopErr error
	r := &stepReader{items: items}
	r.onStep = func(i int) {
		if !stopped {
			x.observe(i)
		}
		if i == cs.Stop {
			stopped = true
			if cs.Race {
				wg.Add(1)
				go func() {
					defer wg.Done()
					x.h.Stop()
					if err := empty("when Stop has returned"); err != nil && stopErr == nil {
						stopErr = err
					}
				}()
			} else {
				x.h.Stop()
				stopErr = empty("after Stop")
			}
		}
	}
	startErr := x.h.Start(r)
	close(quit)
	wg.Wait()
	if startErr != nil {
		return fmt.Errorf("Start: %v", startErr)
	}
	if x.err != nil {
		return x.err
	}
	select {
	case err := <-pollErr:
		return err
	default:
	}
	if stopErr != nil {
		return stopErr
	}
	if cs.Stop >= 0 {
		c.Class("stopped-midway")
		if cs.Race {
			c.Class("stopped-concurrently")
		}
		if err := empty("after Stop and the end of the stream"); err != nil {
			return err
		}
		if len(x.segs) > 0 {
			c.NonTrivial()
		}
		return nil
	}
	x.observe(len(items))
	if x.err != nil {
		return x.err
	}
	if err := x.checkDurations(items); err != nil {
		return err
	}
	x.h.WaitFirstSegment() // must not hang once the stream is over
	x.h.Stop()
	if err := empty("after the end and Stop"); err != nil {
		return err
	}
	if len(x.segs) >= 3 {
		c.NonTrivial()
	}
	if len(x.segs) > 6 {
		c.Class("window-moved")
	}
	c.Class(fmt.Sprintf("window-%d", x.max))
	return nil
}

// poll reads playlists and the files they list until quit; a file listed
// before and after must have been there.
func poll(h *libhls.HLS, dir string, quit chan struct{}) error {
	for {
		select {
		case <-quit:
			return nil
		default:
		}
		b := h.Playlist()
		if len(b) == 0 {
			time.Sleep(50 * time.Microsecond)
			continue
		}
		p, err := ref.ParseM3U8(b)
		if err != nil {
			return fmt.Errorf("concurrently read playlist: %v\n%s", err, b)
		}
		missing := map[string]error{}
		for _, s := range p.Segs {
			if _, err := os.Stat(filepath.Join(dir, s.URI)); err != nil {
				missing[s.URI] = err
			}
		}
		if len(missing) == 0 {
			continue
		}
		if b = h.Playlist(); len(b) == 0 {
			continue
		}
		if p, err = ref.ParseM3U8(b); err != nil {
			return fmt.Errorf("concurrently read playlist: %v\n%s", err, b)
		}
		for _, s := range p.Segs {
			if e := missing[s.URI]; e != nil {
				return fmt.Errorf("%s was listed all the time, but %v", s.URI, e)
			}
		}
	}
}

// span returns the DTS of the first and last video frame and the DTS of all
// keyframes of a segment.
func span(data []byte) (d *ref.TSDump, vp uint16, video []ref.TSFrame, err error) {
	if d, err = ref.TSDemux(data); err != nil {
		return
	}
	if vp, _, _, err = pids(d); err != nil {
		return
	}
	for _, f := range d.Frames {
		if f.PID == vp {
			video = append(video, f)
		}
	}
	if len(video) == 0 {
		err = fmt.Errorf("no video")
	}
	return
}

func (x *history) checkDurations(items []item) error {
	maxGap := int64(0)
	var prev *item
	for i := range items {
		if items[i].kind == 'v' {
			if prev != nil {
				maxGap = max(maxGap, wrapSub(uint64(items[i].ts)*90, uint64(prev.ts)*90))
			}
			prev = &items[i]
		}
	}
	var firsts []uint64
	var spans [][]ref.TSFrame
	for i, s := range x.segs {
		_, _, v, err := span(s.data)
		if err != nil {
			return fmt.Errorf("segment %d: %v", i, err)
		}
		firsts = append(firsts, v[0].DTS)
		spans = append(spans, v)
	}
	for i, s := range x.segs {
		v := spans[i]
		if i+1 < len(x.segs) {
			want := float64(wrapSub(firsts[i+1], firsts[i])) / 90000
			if math.Abs(want-s.dur) > 0.0011 {
				return fmt.Errorf("segment %d: EXTINF %v, it covers %.4f s", i, s.dur, want)
			}
			for _, f := range v {
				if d := wrapSub(f.DTS, firsts[i]); f.RAI && d > 4*90000 {
					return fmt.Errorf("segment %d goes on at a keyframe after %.2f s", i, float64(d)/90000)
				}
			}
			continue
		}
		last := wrapSub(v[len(v)-1].DTS, firsts[i])
		lo, hi := float64(last)/90000-0.0011, float64(last+max(maxGap, 2*90000))/90000+0.0011
		if s.dur < lo || s.dur > hi || s.dur <= 0 {
			return fmt.Errorf("last segment: EXTINF %v, its frames start over %.4f s", s.dur, float64(last)/90000)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C14 ----

func genC14(t *rapid.T) hlsCase {
	c := genHLS(t, 110, 1)
	for k := rapid.IntRange(0, 4).Draw(t, "waiters"); k > 0; k-- {
		c.Wait = append(c.Wait, waiter{
			At:   rapid.IntRange(0, 120).Draw(t, "at"),
			MSN:  rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, -1, -3, 5, 50}).Draw(t, "msn"),
			Part: rapid.SampledFrom([]int{-1, 0, 1, 2, 3, 6, 100}).Draw(t, "part"),
			Ms:   rapid.SampledFrom([]int{2500, 2500, 2500, 1, 60}).Draw(t, "ms"),
		})
	}
	return c
}

// has tells whether a playlist contains part of segment msn (-1: all of it),
// or is already past it.
func has(p *ref.M3U8, msn, part int) bool {
	if p == nil {
		return false
	}
	next := p.Seq + len(p.Segs)
	return msn < next || msn == next && part >= 0 && part < len(p.Parts)
}

type pending struct {
	w         waiter
	msn       int
	start     time.Time
	done      chan struct{}
	took      time.Duration
	got       []byte
	doneAt    int
	satisfied bool
	seen      bool
}

func runC14(c *eng.Ctx, cs hlsCase) error {
	items := cs.S.items(paramSets)
	x := newHistory(c, cs)
	var ps []*pending
	check := func(w *pending) error {
		if w.seen {
			return nil
		}
		w.seen = true
		if len(w.got) == 0 {
			if x.last == nil || w.took >= time.Duration(w.w.Ms)*time.Millisecond {
				return nil // nothing to play yet
			}
			return fmt.Errorf("reload of %d/%d: no playlist after %v", w.msn, w.w.Part, w.took)
		}
		p, err := ref.ParseM3U8(w.got)
		if err != nil {
			return fmt.Errorf("reload of %d/%d: %v\n%s", w.msn, w.w.Part, err, w.got)
		}
		if !has(p, w.msn, w.w.Part) && w.took < time.Duration(w.w.Ms)*time.Millisecond-time.Millisecond {
			return fmt.Errorf("reload of segment %d part %d was answered after %v of %d ms with\n%s", w.msn, w.w.Part, w.took, w.w.Ms, w.got)
		}
		if w.took > 5*time.Millisecond && has(p, w.msn, w.w.Part) {
			c.Class("reload-waited")
		}
		return nil
	}
	hook := func(i int) {
		if x.err != nil {
			return
		}
		for _, w := range ps {
			if w.seen {
				continue
			}
			if has(x.last, w.msn, w.w.Part) {
				select {
				case <-w.done:
				case <-time.After(2 * time.Second):
					x.fail("a reload of segment %d part %d is not answered although the playlist has it:\n%s", w.msn, w.w.Part, x.lastB)
					return
				}
			}
			select {
			case <-w.done:
				if err := check(w); err != nil {
					x.fail("%v", err)
				}
			default:
			}
		}
		for _, w := range cs.Wait {
			if w.At != i {
				continue
			}
			next := 0
			if x.last != nil {
				next = x.last.Seq + len(x.last.Segs)
			}
			p := &pending{w: w, msn: max(0, next+w.MSN), start: time.Now(), done: make(chan struct{})}
			ps = append(ps, p)
			go func() {
				p.got = x.h.WaitForPlaylist(p.msn, p.w.Part, time.Duration(p.w.Ms)*time.Millisecond)
				p.took = time.Since(p.start)
				close(p.done)
			}()
			time.Sleep(200 * time.Microsecond)
		}
	}
	runErr := x.run(items, hook)
	if runErr == nil {
		hook(len(items) + 1)
		runErr = x.err
	}
	x.h.Stop()
	for _, w := range ps {
		select {
		case <-w.done:
		case <-time.After(time.Duration(w.w.Ms)*time.Millisecond + 4*time.Second):
			if runErr == nil {
				runErr = fmt.Errorf("a reload of segment %d part %d with a timeout of %d ms never returns", w.msn, w.w.Part, w.w.Ms)
			}
		}
	}
	if runErr != nil {
		return runErr
	}
	return x.checkParts()
}

func (x *history) checkParts() error {
	total := 0
	for i, s := range x.segs {
		in := func(f string, a ...any) error {
			return fmt.Errorf("segment %d of %d (%v s, %d bytes, parts %+v): %s", i, len(x.segs), s.dur, len(s.data), s.part, fmt.Sprintf(f, a...))
		}
		_, _, v, err := span(s.data)
		if err != nil {
			return in("%v", err)
		}
		next, sum := int64(0), 0.0
		for k, p := range s.part {
			if p.Off != next {
				return in("part %d starts at byte %d, want %d", k, p.Off, next)
			}
			if p.Len <= 0 || p.Len%188 != 0 {
				return in("part %d has %d bytes", k, p.Len)
			}
			next += p.Len
			key := false
			lo, hi := sum-0.0006*float64(k+1), sum+p.Dur+0.0006*float64(k+2)
			for _, f := range v {
				if int64(f.Offset) < p.Off || int64(f.Offset) >= next {
					continue
				}
				key = key || f.RAI
				if int64(f.End) > next {
					return in("part %d ends in the middle of a video frame", k)
				}
				if t := float64(wrapSub(f.DTS, v[0].DTS)) / 90000; t < lo || t > hi {
					return in("part %d covers %.3f-%.3f s but contains the frame at %.3f s", k, lo, hi, t)
				}
			}
			if p.Independent && !key {
				return in("part %d is marked independent without a keyframe", k)
			}
			if k == 0 && !p.Independent {
				return in("the first part is not marked independent")
			}
			sum += p.Dur
		}
		if next != int64(len(s.data)) {
			return in("the parts end at byte %d", next)
		}
		if math.Abs(sum-s.dur) > 0.0006*float64(len(s.part)+1)+0.001 {
			return in("the parts last %.3f s", sum)
		}
		total += len(s.part)
	}
	if len(x.segs) >= 2 && total > len(x.segs) {
		x.c.NonTrivial()
	}
	return nil
}

func main() {
	eng.Register("C12", eng.Opts{
		Rule:     "at least two segments",
		Quick:    eng.Budget{Shards: 8, Cases: 2000, Wall: 60 * time.Second},
		Thorough: eng.Budget{Shards: 8, Cases: 60000, Wall: 15 * time.Minute},
		Assumptions: []string{"streams have video; NAL units are slices, SEI, parameter sets and access unit delimiters",
			"keyframes are IDR (H.264) or IRAP (HEVC) pictures", "AAC frames fit ADTS"},
	}, func(t *rapid.T) hlsCase { return genHLS(t, 110, 0) }, runC12)
	eng.Register("C13", eng.Opts{
		Rule:        "at least three segments, or stopped after the first one",
		Quick:       eng.Budget{Shards: 8, Cases: 2000, Wall: 60 * time.Second},
		Thorough:    eng.Budget{Shards: 8, Cases: 60000, Wall: 15 * time.Minute},
		Assumptions: []string{"decode times do not go back, except where the millisecond counter wraps"},
	}, genC13, runC13)
	eng.Register("C14", eng.Opts{
		Rule:        "at least two segments and more parts than segments",
		Quick:       eng.Budget{Shards: 8, Cases: 1200, Wall: 60 * time.Second},
		Thorough:    eng.Budget{Shards: 8, Cases: 50000, Wall: 15 * time.Minute},
		Assumptions: []string{"the low-latency mode is a library feature (the server never enables it)"},
	}, genC14, runC14)
	registerDASH()
	eng.Main()
}
