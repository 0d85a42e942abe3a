// On-demand HLS (C32): an application whose mode is "delay" packages a stream
// from the first request of its playlist on, one whose mode is "none" never.
package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sbraveyoung/GGmpeg/libhls"
	"pgregory.net/rapid"

	"verif/harness/eng"
	"verif/harness/ref"
	"verif/harness/wire"
)

const (
	opPublish = iota
	opEnd
	opSend
	opAsk
	opOther
	opLook
	nOps
)

type op struct {
	K int   `json:"k"`
	N int   `json:"n"`           // which name; the last one is of the application without HLS
	A int   `json:"a,omitempty"` // variant
	F []int `json:"f,omitempty"` // frames: milliseconds since the one before, negative for a keyframe
}

type c32 struct {
	Ops []op `json:"ops"`
}

const nNames = 3

func genC32(t *rapid.T) (c c32) {
	if rapid.IntRange(0, 3).Draw(t, "start") > 0 {
		c.Ops = append(c.Ops, op{K: opPublish})
	}
	n := rapid.IntRange(4, 22).Draw(t, "ops")
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom([]int{opPublish, opPublish, opEnd, opSend, opSend, opSend, opSend, opSend, opAsk, opAsk, opAsk, opOther, opLook}).Draw(t, "k")
		o := op{K: k, N: rapid.SampledFrom([]int{0, 0, 0, 0, 1, 1, 2}).Draw(t, "n")}
		switch k {
		case opSend:
			m := rapid.IntRange(1, 9).Draw(t, "frames")
			for j := 0; j < m; j++ {
				f := rapid.IntRange(250, 1500).Draw(t, "ms")
				if rapid.IntRange(0, 2).Draw(t, "key") == 0 {
					f = -f
				}
				o.F = append(o.F, f)
			}
		case opAsk:
			o.A = rapid.IntRange(0, 11).Draw(t, "how")
		case opOther:
			o.A = rapid.IntRange(0, len(others)-1).Draw(t, "what")
		case opEnd, opPublish:
			o.A = rapid.IntRange(0, 1).Draw(t, "how")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

var others = []string{"0.ts", "%s-0.ts", "%s-1.ts", "%s.ts", "%s_0.ts", "index.mpd", "%s-init.mp4", "%s-1.m4s", "index.m3u", "index.html", "m3u8", "index.m3u8.bak"}

var queries = []string{"", "", "", "?x=1", "?_HLS_msn=0", "?_HLS_msn=0&_HLS_part=0", "?_HLS_msn=1"}

// frame is one published video frame.
type frame struct {
	ts  uint32
	key bool
}

// publication is one stay of a stream.
type publication struct {
	id     int64
	cl     *wire.Client
	frames []frame
	asked  int // frames sent when its playlist was first asked for, -1: never
	asks   []*answer
	over   bool
}

// answer is one request for a playlist and what became of it.
type answer struct {
	first  bool // of the requests that start the packager
	must   bool // a playlist had been served before
	mu     sync.Mutex
	done   bool
	status int
	ctype  string
	body   []byte
	err    error
}

func (a *answer) get() (bool, int) {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.done, a.status
}

var uids int64

var markRE = regexp.MustCompile(`<(\d{8})-(\d{6})>`)

func mark(id int64, k int) []byte {
	return []byte(strings.Repeat(fmt.Sprintf("<%08d-%06d>", id, k), 3))
}

func get(addr, target string) (status int, ctype string, body []byte, err error) {
	nc, err := net.DialTimeout("tcp", addr, wire.Wait)
	if err != nil {
		return 0, "", nil, fmt.Errorf("%w: %v", eng.ErrInconclusive, err)
	}
	defer nc.Close()
	fmt.Fprintf(nc, "GET %s HTTP/1.1\r\nHost: host\r\nConnection: close\r\n\r\n", target)
	nc.SetReadDeadline(time.Now().Add(2 * wire.Wait))
	r, err := http.ReadResponse(bufio.NewReader(nc), nil)
	if err != nil {
		return 0, "", nil, fmt.Errorf("GET %s: no response: %v", target, err)
	}
	if body, err = io.ReadAll(r.Body); err != nil {
		err = fmt.Errorf("GET %s: %v", target, err)
	}
	return r.StatusCode, r.Header.Get("Content-Type"), body, err
}

type world struct {
	c     *eng.Ctx
	s     *wire.Server
	names [nNames]string
	pubs  [nNames]*publication
	all   []*publication
	where map[*publication]int
}

func (w *world) app(n int) string {
	if n == nNames-1 {
		return wire.Apps[1]
	}
	return wire.Apps[0]
}

func (w *world) url(n int, file string) string { return "/" + w.app(n) + "/" + w.names[n] + "/" + file }

// files lists what is on disk of a name.
func (w *world) files(n int) (out []string) {
	filepath.Walk(w.s.Dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.Contains(p, w.names[n]) {
			out = append(out, p)
		}
		return nil
	})
	return
}

func waitFor(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(3 * time.Millisecond)
	}
}

// idle checks that nothing was written of a stream nobody asked for.
func (w *world) idle(n int) error {
	if p := w.pubs[n]; n != nNames-1 && p != nil && p.asked >= 0 {
		return nil
	}
	if f := w.files(n); len(f) > 0 && !waitFor(wire.Wait, func() bool { return w.pubs[n] == nil && len(w.files(n)) == 0 }) {
		if w.pubs[n] != nil {
			return fmt.Errorf("%s/%s: there is %v though nobody asked for its playlist", w.app(n), w.names[n], f)
		}
		return fmt.Errorf("%s/%s: there is %v though the stream is over", w.app(n), w.names[n], f)
	}
	return nil
}

func (w *world) publish(n int) error {
	var cl *wire.Client
	var err error
	if !waitFor(wire.Wait, func() bool { // the name becomes free a little after the end
		cl, err = wire.Publisher(w.s, w.app(n), w.names[n])
		return err == nil
	}) {
		return err
	}
	p := &publication{id: atomic.AddInt64(&uids, 1), cl: cl, asked: -1}
	w.pubs[n], w.where[p] = p, n
	w.all = append(w.all, p)
	rec := ref.AVCRecord([][]byte{sps}, [][]byte{pps})
	if err := cl.SendPubs([]wire.Pub{
		{FTag: ref.FTag{Type: 9, Data: append([]byte{0x17, 0, 0, 0, 0}, rec...)}},
		{FTag: ref.FTag{Type: 8, Data: []byte{0xaf, 0, 0x11, 0x90}}}, // AAC-LC, 48 kHz, stereo
	}); err != nil || !cl.Sync() {
		return fmt.Errorf("publishing %s: %v", w.names[n], err)
	}
	return nil
}

var (
	sps = append([]byte{0x67, 66, 0xc0, 30}, ref.Fill(9, 14)...)
	pps = append([]byte{0x68}, ref.Fill(10, 5)...)
)

func (w *world) send(n int, fs []int) error {
	p := w.pubs[n]
	var ps []wire.Pub
	for _, f := range fs {
		key := f < 0
		if key {
			f = -f
		}
		ts := uint32(f)
		if l := len(p.frames); l > 0 {
			ts += p.frames[l-1].ts
		}
		b := []byte{0x27, 1, 0, 0, 0}
		nal := []byte{0x41}
		if key {
			b[0], nal[0] = 0x17, 0x65
		}
		m := mark(p.id, len(p.frames))
		ps = append(ps, wire.Pub{FTag: ref.FTag{Type: 9, TS: ts, Data: append(b, ref.AVCC(append(nal, m...))...)}},
			wire.Pub{FTag: ref.FTag{Type: 8, TS: ts, Data: append([]byte{0xaf, 1}, m...)}})
		p.frames = append(p.frames, frame{ts, key})
	}
	if err := p.cl.SendPubs(ps); err != nil || !p.cl.Sync() {
		return fmt.Errorf("publishing %s: the connection ended: %v", w.names[n], err)
	}
	return nil
}

// lastKey is the latest keyframe of the first k frames, -1: none.
func (p *publication) lastKey(k int) int {
	for i := k - 1; i >= 0; i-- {
		if p.frames[i].key {
			return i
		}
	}
	return -1
}

// from is the first keyframe a packager can begin with that started when k
// frames had been published.
func (p *publication) from(k int) int {
	if i := p.lastKey(k); i >= 0 {
		return i
	}
	for i := k; i < len(p.frames); i++ {
		if p.frames[i].key {
			return i
		}
	}
	return -1
}

func (w *world) ask(n, how int) {
	p := w.pubs[n]
	count := []int{1, 1, 1, 2, 4, 8}[how%6]
	url := w.url(n, "index.m3u8"+queries[how%len(queries)])
	first := p.asked < 0
	if first {
		p.asked = len(p.frames)
	}
	must := false
	for _, a := range p.asks {
		d, st := a.get()
		must = must || d && st == 200
	}
	var up sync.WaitGroup
	for i := 0; i < count; i++ {
		a := &answer{first: first, must: must}
		p.asks = append(p.asks, a)
		up.Add(1)
		go func() {
			up.Done()
			st, ct, b, err := get(w.s.HLS, url)
			a.mu.Lock()
			a.done, a.status, a.ctype, a.body, a.err = true, st, ct, b, err
			a.mu.Unlock()
		}()
	}
	up.Wait()
	// Let it take effect before anything else happens.
	d := 40 * time.Millisecond
	if p.lastKey(len(p.frames)) >= 0 {
		d = time.Second
	}
	waitFor(d, func() bool { return len(w.files(n)) > 0 })
}

// settle waits for the answers that are due and judges all there are.
func (w *world) settle(n int) error {
	p := w.pubs[n]
	if p == nil || p.asked < 0 {
		return nil
	}
	name := w.app(n) + "/" + w.names[n]
	if n == nNames-1 {
		for _, a := range p.asks {
			if !waitFor(wire.Wait, func() bool { d, _ := a.get(); return d }) {
				return fmt.Errorf("%s: a request is not answered, though the application has no HLS", name)
			}
			if a.err != nil {
				return a.err
			}
			if a.status != 404 {
				return fmt.Errorf("%s: the application has no HLS but the playlist is answered with %d", name, a.status)
			}
		}
		return nil
	}
	// The first segment that can be due starts where the last request may
	// have taken effect; it is certainly complete at a keyframe 10 s later.
	due := false
	if f := p.from(len(p.frames)); f >= 0 {
		if s := p.from(p.asked); s >= 0 {
			for i := len(p.frames) - 1; i > s; i-- {
				if p.frames[i].key && p.frames[i].ts-p.frames[s].ts >= 10000 {
					due = true
				}
			}
		}
	}
	starters := 0
	for i, a := range p.asks {
		answered := func() bool { d, _ := a.get(); return d }
		if due && !waitFor(time.Second, answered) {
			// The request may have taken effect late.
			w.c.Class("stream prolonged")
			if err := w.send(n, []int{-11000, -11000, -100}); err != nil {
				return err
			}
			if !waitFor(wire.Wait, answered) {
				return fmt.Errorf("%s: request %d is not answered though %d frames were published, the first keyframe it could get being %d", name, i, len(p.frames), p.from(p.asked))
			}
		}
		d, _ := a.get()
		if !d {
			if a.first {
				starters++
			}
			continue
		}
		if a.err != nil {
			return a.err
		}
		if a.status == 404 && !a.must { // another request started it
			continue
		}
		if a.status != 200 {
			return fmt.Errorf("%s: request %d is answered with %d while the stream goes on", name, i, a.status)
		}
		if a.first {
			starters++
		}
		if !strings.Contains(strings.ToLower(a.ctype), "mpegurl") {
			return fmt.Errorf("%s: the content type of the playlist is %q", name, a.ctype)
		}
		if err := w.content(n, a.body, p.from(p.asked)); err != nil {
			return fmt.Errorf("%s: the answer to request %d: %v\n%s", name, i, err, a.body)
		}
	}
	if starters == 0 {
		return fmt.Errorf("%s: all requests that came first are answered with 404 while the stream goes on", name)
	}
	return nil
}

// content checks a playlist and the segments it lists, as far as they are
// still in the window.
func (w *world) content(n int, body []byte, from int) error {
	p := w.pubs[n]
	pl, err := ref.ParseM3U8(body)
	if err != nil {
		return err
	}
	if len(pl.Segs) == 0 {
		return fmt.Errorf("the playlist is empty")
	}
	if pl.End {
		return fmt.Errorf("the playlist of a live stream has an end")
	}
	next := -1
	for _, sg := range pl.Segs {
		st, ct, data, err := get(w.s.HLS, w.url(n, sg.URI))
		if err != nil {
			return err
		}
		if st == 404 { // it left the window
			_, _, now, err := get(w.s.HLS, w.url(n, "index.m3u8"))
			if err != nil {
				return err
			}
			if bytes.Contains(now, []byte("\n"+sg.URI+"\n")) {
				return fmt.Errorf("segment %s is listed but not served", sg.URI)
			}
			next = -1
			continue
		}
		if st != 200 || ct != "video/mp2t" {
			return fmt.Errorf("segment %s: status %d, type %q", sg.URI, st, ct)
		}
		d, err := ref.TSDemux(data)
		if err != nil {
			return fmt.Errorf("segment %s: %v", sg.URI, err)
		}
		var vp, ap uint16
		for _, m := range d.PMTs {
			for pid, ty := range m.Streams {
				if ty == 0x1b {
					vp = pid
				} else if ty == 0x0f {
					ap = pid
				}
			}
		}
		first, sound := true, 0
		for _, f := range d.Frames {
			if f.PID == ap && ap != 0 {
				as, err := ref.SplitADTS(f.Data)
				if err != nil {
					return fmt.Errorf("segment %s: audio: %v", sg.URI, err)
				}
				for _, a := range as {
					if m := markRE.FindSubmatch(a.Data); m == nil || string(m[1]) != fmt.Sprintf("%08d", p.id) {
						return fmt.Errorf("segment %s: audio of another publication", sg.URI)
					}
					if a.SR != 3 || a.CH != 2 {
						return fmt.Errorf("segment %s: the audio says rate index %d, %d channels; published 3, 2", sg.URI, a.SR, a.CH)
					}
				}
				sound += len(as)
				continue
			}
			if f.PID != vp {
				continue
			}
			m := markRE.FindSubmatch(f.Data)
			if m == nil || string(m[1]) != fmt.Sprintf("%08d", p.id) {
				return fmt.Errorf("segment %s: a video frame that is not of this publication", sg.URI)
			}
			k, _ := strconv.Atoi(string(m[2]))
			if k >= len(p.frames) {
				return fmt.Errorf("segment %s: frame %d was not published", sg.URI, k)
			}
			fr := p.frames[k]
			switch {
			case next >= 0 && k != next:
				return fmt.Errorf("segment %s: frame %d follows frame %d", sg.URI, k, next-1)
			case k < from:
				return fmt.Errorf("segment %s: frame %d is older than keyframe %d, the latest one when the playlist was asked for", sg.URI, k, from)
			case first && !fr.key:
				return fmt.Errorf("segment %s starts with frame %d, which is no keyframe", sg.URI, k)
			case f.DTS != uint64(fr.ts)*90:
				return fmt.Errorf("segment %s: frame %d has time %d, published at %d ms", sg.URI, k, f.DTS, fr.ts)
			case fr.key && (!bytes.Contains(f.Data, sps) || !bytes.Contains(f.Data, pps)):
				return fmt.Errorf("segment %s: keyframe %d comes without its parameter sets", sg.URI, k)
			case sg.Seq == 0 && first && from >= 0 && k != from && !w.late(p, k):
				return fmt.Errorf("segment %s, the first one, starts with frame %d; the latest keyframe when the playlist was asked for was %d", sg.URI, k, from)
			}
			first, next = false, k+1
		}
		if first {
			return fmt.Errorf("segment %s has no video", sg.URI)
		}
		if sound == 0 && ap != 0 && sg.Dur > 1 {
			w.c.Class("segment without audio")
		}
	}
	return nil
}

// late tells whether a packager may have begun with frame k: a keyframe that
// was published after the request was made, before it took effect.
func (w *world) late(p *publication, k int) bool { return k >= p.asked }

// end ends a publication; requests that wait get their answer.
func (w *world) end(n, how int) error {
	p := w.pubs[n]
	name := w.app(n) + "/" + w.names[n]
	pending := 0
	for _, a := range p.asks {
		if d, _ := a.get(); !d {
			pending++
		}
	}
	if how == 1 {
		p.cl.Command(ref.AS("FCUnpublish"), ref.AN(9), ref.ANil(), ref.AS(w.names[n]))
		p.cl.Sync()
	}
	p.cl.Close()
	for i, a := range p.asks {
		if !waitFor(wire.Wait, func() bool { d, _ := a.get(); return d }) {
			return fmt.Errorf("%s: the stream ended but request %d for its playlist is still not answered", name, i)
		}
		if a.err != nil {
			return a.err
		}
		if a.status != 200 && a.status != 404 {
			return fmt.Errorf("%s: the stream ended and request %d was answered with %d", name, i, a.status)
		}
	}
	if pending > 0 {
		w.c.Class("requests pending at the end of the stream")
	}
	w.pubs[n] = nil
	if !waitFor(wire.Wait, func() bool { return len(w.files(n)) == 0 }) {
		return fmt.Errorf("%s: the stream is over but %v remain", name, w.files(n))
	}
	if !waitFor(wire.Wait, func() bool { st, _, _, e := get(w.s.HLS, w.url(n, "index.m3u8")); return e == nil && st == 404 }) {
		return fmt.Errorf("%s: the stream is over but its playlist is still served", name)
	}
	return nil
}

func runC32(c *eng.Ctx, cs c32) (err error) {
	s, err := wire.Start(wire.Options{HLS: true, Modes: map[string]libhls.HLS_MODE{wire.Apps[0]: libhls.DELAY, wire.Apps[1]: libhls.NONE}})
	if err != nil {
		return err
	}
	w := &world{c: c, s: s, where: map[*publication]int{}}
	for i := range w.names {
		w.names[i] = wire.Name() + "z"
	}
	defer func() {
		for _, p := range w.pubs {
			if p != nil {
				p.cl.Close()
			}
		}
	}()
	started, fresh := 0, map[int]int{}
	for i, o := range cs.Ops {
		if o.N < 0 || o.N >= nNames || o.K < 0 || o.K >= nOps {
			continue
		}
		p := w.pubs[o.N]
		at := func(err error) error {
			if err != nil {
				return fmt.Errorf("operation %d: %w", i, err)
			}
			return nil
		}
		switch o.K {
		case opPublish:
			if p == nil {
				err = w.publish(o.N)
				if fresh[o.N]++; fresh[o.N] > 1 {
					c.Class("a name published again")
				}
			}
		case opEnd:
			if p != nil {
				err = w.end(o.N, o.A)
			}
		case opSend:
			if p != nil {
				err = w.send(o.N, o.F)
			}
		case opAsk:
			if p == nil {
				st, _, _, e := get(s.HLS, w.url(o.N, "index.m3u8"))
				if err = e; e == nil && st != 404 {
					err = fmt.Errorf("the playlist of a stream nobody publishes is answered with %d", st)
				}
				c.Class("playlist of no stream")
				break
			}
			if p.asked < 0 {
				c.Class(fmt.Sprintf("first asked with keyframe=%v", p.lastKey(len(p.frames)) >= 0))
			}
			w.ask(o.N, o.A)
		case opOther:
			f := others[o.A%len(others)]
			if strings.Contains(f, "%s") {
				f = fmt.Sprintf(f, w.names[o.N])
			}
			if p != nil && p.asked >= 0 && o.N != nNames-1 {
				break // it may be a segment
			}
			st, _, _, e := get(s.HLS, w.url(o.N, f))
			if err = e; e == nil && st != 404 {
				err = fmt.Errorf("%s of a stream that is not packaged is answered with %d", f, st)
			}
		case opLook:
			time.Sleep(20 * time.Millisecond)
			for n := range w.names {
				if err == nil {
					err = w.settle(n)
				}
			}
		}
		for n := 0; n < nNames && err == nil; n++ {
			err = w.idle(n)
		}
		if err != nil {
			return at(err)
		}
	}
	// Every stream that was asked for gets its segment.
	for n, p := range w.pubs {
		if p == nil {
			continue
		}
		if p.asked >= 0 && n%2 == 0 {
			var fs []int
			for i := 0; i < 12; i++ {
				fs = append(fs, []int{-1100, 700, 900}[i%3])
			}
			if err := w.send(n, append(fs, -2000, 100)); err != nil {
				return err
			}
		}
		if err := w.settle(n); err != nil {
			return err
		}
	}
	for _, p := range w.all {
		ok := 0
		for _, a := range p.asks {
			if d, st := a.get(); d && st == 200 {
				ok++
			}
		}
		if ok > 0 {
			started++
		}
		if ok > 1 {
			c.Class("several requests answered")
		}
	}
	for n, p := range w.pubs {
		if p != nil {
			if err := w.end(n, n&1); err != nil {
				return err
			}
		}
	}
	if started > 0 {
		c.NonTrivial()
	}
	return nil
}

func main() {
	eng.Register("C32", eng.Opts{
		Rule:     "a playlist was asked for and answered with segments",
		Quick:    eng.Budget{Shards: 8, Cases: 300, Wall: 45 * time.Second},
		Thorough: eng.Budget{Shards: 8, Cases: 12000, Wall: 15 * time.Minute},
		Net:      true,
		Assumptions: []string{"a segment is complete at the first keyframe 10 s after its start at the latest (the target is 2 s)",
			"a request takes effect within a second"},
	}, genC32, runC32)
	eng.Main()
}
