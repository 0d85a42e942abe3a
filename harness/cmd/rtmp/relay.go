package main

import (
	"crypto/sha1"
	"encoding/base64"
	"fmt"
	"io"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"verif/harness/eng"
	"verif/harness/ref"
	"verif/harness/wire"
)

// relay is a publication and its viewers.
type relay struct {
	Items []wire.Item
	Join  []int // per viewer: messages published before it joins
	Chunk int   // publisher's chunk size
	App   int
	Leave int // how the publisher ends: 0 keeps the stream, 1 deleteStream, 2 close, 3 reset
	WS    []wsOpts
	BadUp []int `json:",omitempty"` // upgrade requests that have to be refused
	Hold  bool  `json:",omitempty"` // wait for the last message before publishing anything else
	Tail  int   `json:",omitempty"` // size of a frame after it which is waited for in the same way
	Gone  int   `json:",omitempty"` // viewers that come and go while nothing is published
}

func genRelay(max int) func(*rapid.T) relay {
	return func(t *rapid.T) relay {
		c := relay{
			Items: wire.GenStream(t, rapid.SampledFrom([]int{3, 10, max}).Draw(t, "max"), rapid.IntRange(0, 5).Draw(t, "big") == 0),
			Chunk: rapid.SampledFrom([]int{128, 4096, 65536, 1 << 20}).Draw(t, "chunk"),
			App:   rapid.IntRange(0, 1).Draw(t, "app"),
			Leave: rapid.IntRange(0, 3).Draw(t, "leave"),
		}
		c.Hold = rapid.IntRange(0, 2).Draw(t, "hold") == 0
		if rapid.IntRange(0, 4).Draw(t, "tail") == 0 {
			c.Tail = rapid.SampledFrom([]int{100, 4094, 4096, 33000, 70000, 300000}).Draw(t, "size")
		}
		if rapid.IntRange(0, 7).Draw(t, "gone") == 0 {
			c.Gone = rapid.IntRange(8, 16).Draw(t, "visitors")
		}
		n := rapid.SampledFrom([]int{1, 1, 2, 3, 6}).Draw(t, "viewers")
		for i := 0; i < n; i++ {
			c.Join = append(c.Join, rapid.IntRange(0, len(c.Items)).Draw(t, "join"))
		}
		return c
	}
}

// run publishes the items, opens a viewer at each joining point with open and
// checks what each one received. It leaves the publisher connected.
func (c relay) run(x *eng.Ctx, s *wire.Server, name string, open func(i int) (wire.Viewer, error), during func(i int, v wire.Viewer) error) (p *wire.Client, views []wire.Viewer, all []wire.Pub, err error) {
	p, err = wire.Publisher(s, wire.Apps[c.App%2], name)
	if err != nil {
		return nil, nil, nil, fmt.Errorf("publishing: %w", err)
	}
	views = make([]wire.Viewer, len(c.Join))
	if err = p.SetChunkSize(max(c.Chunk, 1)); err != nil {
		return
	}
	pubs := wire.Pubs(c.Items)
	for at := 0; at <= len(pubs); at++ {
		var mu sync.Mutex
		var wg sync.WaitGroup
		var e1 error
		joins := 0
		for i, j := range c.Join {
			if j != at {
				continue
			}
			joins++
			if joins == 1 && at > 0 && !p.Sync() {
				return p, views, nil, fmt.Errorf("the publisher's ping is not answered")
			}
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				v, err := open(i)
				if err == nil {
					views[i] = v
					if at > 0 && !v.WaitMedia(wire.Wait, func(ts []ref.FTag) bool { return len(ts) > 0 }) {
						err = fmt.Errorf("viewer %d, which joined after %d messages, receives nothing", i, at)
					}
				}
				if err != nil {
					mu.Lock()
					e1 = err
					mu.Unlock()
				}
			}(i)
		}
		wg.Wait()
		if e1 != nil {
			return p, views, nil, e1
		}
		if at < len(pubs) {
			if err = p.SendPubs(pubs[at : at+1]); err != nil {
				return
			}
		}
	}
	if during != nil {
		for i, v := range views {
			if err = during(i, v); err != nil {
				return
			}
		}
	}
	if c.Tail > 0 {
		tail := wire.Item{K: "audio", TS: c.Items[len(c.Items)-1].TS + 1, N: c.Tail, S: 0x7a11}.Pub()
		if err = p.SendPubs([]wire.Pub{tail}); err != nil {
			return
		}
		pubs = append(pubs, tail)
		x.Class("nothing behind a frame")
	}
	if c.Hold || c.Tail > 0 {
		for i, v := range views {
			if !wire.HasTag(v, pubs[len(pubs)-1]) {
				joined := c.Join[i]
				if joined == 0 {
					joined = -1
				}
				_, e := wire.CheckRun(v.Media(), pubs[:len(pubs)-1], joined)
				return p, views, nil, fmt.Errorf("viewer %d (joined after %d messages) does not get the last of %d messages until something else is published, got %d (%v)", i, c.Join[i], len(pubs), len(v.Media()), e)
			}
		}
	}
	if c.Gone > 0 {
		if err = c.visit(p, open); err != nil {
			return
		}
		x.Class("viewers that come and go")
	}
	all = append(pubs, wire.Sentinel(c.Items[len(c.Items)-1].TS+1, 7))
	if err = p.SendPubs(all[len(all)-1:]); err != nil {
		return
	}
	for i, v := range views {
		ok := wire.HasTag(v, all[len(all)-1])
		got := v.Media()
		if _, e := v.End(); e != nil {
			return p, views, all, fmt.Errorf("viewer %d: %w", i, e)
		}
		joined := c.Join[i]
		if joined == 0 {
			joined = -1
		}
		if !ok {
			_, e := wire.CheckRun(got, all[:len(all)-1], joined)
			return p, views, all, fmt.Errorf("viewer %d (joined after %d messages) did not get the last of %d messages, got %d (%v)", i, c.Join[i], len(all), len(got), e)
		}
		st, e := wire.CheckRun(got, all, joined)
		if e != nil {
			return p, views, all, fmt.Errorf("viewer %d (joined after %d messages): %w", i, c.Join[i], e)
		}
		if st > 0 {
			x.Class("late join behind a keyframe")
		}
	}
	return p, views, all, nil
}

// visit lets viewers come and go; they may leave nothing behind.
func (c relay) visit(p *wire.Client, open func(i int) (wire.Viewer, error)) error {
	if !p.Sync() {
		return fmt.Errorf("the publisher's ping is not answered")
	}
	n := min(c.Gone, 32)
	before := runtime.NumGoroutine()
	for i := 0; i < n; i++ {
		v, err := open(0)
		if err != nil {
			return fmt.Errorf("visitor %d: %w", i, err)
		}
		ok := v.WaitMedia(wire.Wait, func(ts []ref.FTag) bool { return len(ts) > 0 })
		v.Close()
		if !ok {
			return fmt.Errorf("visitor %d receives nothing", i)
		}
	}
	var after int
	for end := time.Now().Add(wire.Wait); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		if after = runtime.NumGoroutine(); after < before+n/2 {
			return nil
		}
	}
	return fmt.Errorf("%d viewers came and went while nothing was published: %d goroutines before, %d after", n, before, after)
}

func (c relay) ok() bool {
	for _, j := range c.Join {
		if j < 0 || j > len(c.Items) {
			return false
		}
	}
	return len(c.Items) > 0 && len(c.Join) > 0
}

// finish ends the publication and waits until the viewers are released.
func (c relay) finish(p *wire.Client, views []wire.Viewer) error {
	switch c.Leave {
	case 0:
		return nil
	case 1:
		p.Command(ref.AS("FCUnpublish"), ref.AN(8), ref.ANil(), ref.AS("x"))
		p.Command(ref.AS("deleteStream"), ref.AN(9), ref.ANil(), ref.AN(1))
	case 2:
		p.Close()
	case 3:
		p.Reset()
	}
	for i, v := range views {
		if !wire.WaitEnd(v, wire.Wait) {
			return fmt.Errorf("viewer %d is not released after the publisher left", i)
		}
		if _, e := v.End(); e != nil {
			return fmt.Errorf("viewer %d: %w", i, e)
		}
	}
	return nil
}

func closeAll(p *wire.Client, views []wire.Viewer) {
	if p != nil {
		p.Close()
	}
	for _, v := range views {
		if v != nil {
			v.Close()
		}
	}
}

// ------------------------------------------------------------------ C04 ----

func runC04(x *eng.Ctx, c relay) error {
	if !c.ok() {
		return nil
	}
	s, err := wire.Start(wire.Options{})
	if err != nil {
		return err
	}
	name := wire.Name()
	p, views, _, err := c.run(x, s, name, func(int) (wire.Viewer, error) {
		return wire.Player(s, wire.Apps[c.App%2], name)
	}, nil)
	defer closeAll(p, views)
	if err != nil {
		return err
	}
	for i, v := range views {
		cl := v.(*wire.Client)
		ms := cl.Msgs()
		started := false
		for _, m := range ms {
			if m.Type == 20 {
				cs, e := wire.Cmds([]ref.RMsg{m})
				if e != nil {
					return e
				}
				if len(cs) == 1 && cs[0].Code() == "NetStream.Play.Start" {
					started = true
				}
			}
			if m.Type == 8 || m.Type == 9 || m.Type == 18 {
				if !started {
					return fmt.Errorf("player %d: media before the play response", i)
				}
				if m.MSID != 0 {
					return fmt.Errorf("player %d: media on message stream %d, created stream 0", i, m.MSID)
				}
			}
		}
	}
	if err := c.finish(p, views); err != nil {
		return err
	}
	marks(x, c)
	return nil
}

func marks(x *eng.Ctx, c relay) {
	big, ext := false, false
	for _, it := range c.Items {
		big = big || it.N > 4000
		ext = ext || it.TS >= 0xffffff
	}
	if big {
		x.Class("payload of several chunks")
	}
	if ext {
		x.Class("extended timestamps")
	}
	x.Class(fmt.Sprintf("%d viewers", len(c.Join)))
	for _, j := range c.Join {
		if j > 0 && j < len(c.Items) {
			x.NonTrivial()
		}
	}
}

// ------------------------------------------------------------------ C09 ----

func runC09(x *eng.Ctx, c relay) error {
	if !c.ok() {
		return nil
	}
	s, err := wire.Start(wire.Options{})
	if err != nil {
		return err
	}
	name := wire.Name()
	app := wire.Apps[c.App%2]
	check404 := func(app, name string) error {
		v, err := wire.GetFLV(s, app, name)
		if err != nil {
			return fmt.Errorf("request for an unknown stream: %w", err)
		}
		if v.Status < 400 || v.Status > 499 {
			v.Close()
			return fmt.Errorf("request for an unknown stream gets status %d", v.Status)
		}
		return nil
	}
	if err := check404(app, name); err != nil {
		return err
	}
	p, views, _, err := c.run(x, s, name, func(int) (wire.Viewer, error) {
		v, err := wire.GetFLV(s, app, name)
		if err == nil && v.Status != 200 {
			err = fmt.Errorf("HTTP-FLV of a published stream: status %d", v.Status)
		}
		if err != nil {
			return nil, err
		}
		return v, nil
	}, nil)
	defer closeAll(p, views)
	if err != nil {
		return err
	}
	if err := check404(wire.Apps[(c.App+1)%2], name); err != nil {
		return err
	}
	if err := check404(app, name+"x"); err != nil {
		return err
	}
	for i, v := range views {
		f := v.(*wire.FLV)
		if f.Flags&5 != 5 && false {
			return fmt.Errorf("viewer %d: flags %d", i, f.Flags)
		}
		if ct := f.Header.Get("Content-Type"); ct != "video/x-flv" {
			return fmt.Errorf("viewer %d: content type %q", i, ct)
		}
	}
	if err := c.finish(p, views); err != nil {
		return err
	}
	if c.Leave != 0 {
		for i, v := range views {
			if e := v.(*wire.FLV).EndErr(); e != io.EOF {
				return fmt.Errorf("viewer %d: the body does not end at a tag boundary: %v", i, e)
			}
		}
		if err := check404(app, name); err != nil {
			return err
		}
	}
	marks(x, c)
	return nil
}

// ------------------------------------------------------------------ C10 ----

// wsOpts are the details of one WebSocket viewer.
type wsOpts struct {
	Key    []byte // 16 bytes
	Head   int    // spelling of the upgrade headers
	Pings  [][]byte
	Client int // what else the client sends: see wsClient
	Close  int // -1: no close frame, 0: empty, else the status code
	Mask   []byte
}

func genC10(t *rapid.T) relay {
	c := genRelay(25)(t)
	if len(c.Join) > 3 {
		c.Join = c.Join[:3]
	}
	if rapid.IntRange(0, 3).Draw(t, "frames") == 0 {
		// WebSocket frames around the boundaries of their length encoding
		for i := range c.Items {
			if it := &c.Items[i]; it.K == "key" || it.K == "inter" || it.K == "audio" {
				it.N = rapid.SampledFrom([]int{125, 126, 127, 65535, 65536}).Draw(t, "frame") - rapid.IntRange(0, 25).Draw(t, "less")
			}
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "bad") == 0 {
		c.BadUp = rapid.SliceOfN(rapid.IntRange(0, 23), 1, 4).Draw(t, "upgrades")
	}
	for range c.Join {
		c.WS = append(c.WS, wsOpts{
			Key:    rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "key"),
			Head:   rapid.IntRange(0, 4).Draw(t, "head"),
			Pings:  rapid.SliceOfN(rapid.SliceOfN(rapid.Byte(), 0, 125), 0, 6).Draw(t, "pings"),
			Client: rapid.IntRange(0, 12).Draw(t, "client"),
			Close:  rapid.SampledFrom([]int{-1, 0, 1, 1000, 1001, 3000, 4999}).Draw(t, "close"),
			Mask:   rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "mask"),
		})
	}
	return c
}

func wsRequest(path string, key []byte, head int) (string, string) {
	k := base64.StdEncoding.EncodeToString(key)
	conn := []string{"Connection: Upgrade", "connection: keep-alive, Upgrade", "Connection: upgrade", "CONNECTION: Upgrade, keep-alive", "Connection: keep-alive\r\nConnection: Upgrade"}[head%5]
	up := []string{"Upgrade: websocket", "upgrade: WebSocket", "Upgrade: WEBSOCKET", "UPGRADE: websocket"}[head&3]
	h := sha1.Sum([]byte(k + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	return "GET " + path + " HTTP/1.1\r\nHost: x\r\n" + up + "\r\n" + conn + "\r\nSec-WebSocket-Key: " + k + "\r\nSec-WebSocket-Version: 13\r\nOrigin: http://x\r\n\r\n",
		base64.StdEncoding.EncodeToString(h[:])
}

// badFrames are client frames the server may not choke on.
func badFrames(kind int, mask []byte) (raw []byte, fatal bool) {
	switch kind {
	case 1: // text message
		return wire.EncodeWS(0x81, []byte("hello"), mask), false
	case 2: // unsolicited pong
		return wire.EncodeWS(0x8a, []byte("x"), mask), false
	case 3: // fragmented message with a ping in between
		return append(wire.EncodeWS(0x01, []byte("a"), mask), wire.EncodeWS(0x80, []byte("b"), mask)...), false
	case 4: // binary of 20000 bytes
		return wire.EncodeWS(0x82, make([]byte, 20000), mask), false
	case 5: // absurd length
		return append([]byte{0x82, 0xff, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, mask...), true
	case 6:
		return append([]byte{0x82, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, mask...), true
	case 7: // 64 GB
		return append([]byte{0x82, 0xff, 0, 0, 0, 16, 0, 0, 0, 0}, mask...), true
	case 8: // reserved opcode and bits
		return wire.EncodeWS(0xf5, []byte("x"), mask), true
	case 9: // ping with an extended length
		return wire.EncodeWS(0x89, make([]byte, 300), mask), true
	case 10: // unmasked
		return wire.EncodeWS(0x81, []byte("x"), nil), true
	case 11: // truncated
		return []byte{0x82, 0xfe, 1}, true
	}
	return nil, false
}

// badUpgrade is an upgrade request that lacks something.
func badUpgrade(path string, key []byte, kind int) (raw, what string) {
	raw, _ = wsRequest(path, key, kind/6)
	drop := func(re, by string) {
		raw = regexp.MustCompile(`(?i)\r\n`+re+`:[^\r]*`).ReplaceAllLiteralString(raw, by)
	}
	switch kind % 6 {
	case 0:
		drop("connection", "")
		return raw, "without Connection"
	case 1:
		drop("sec-websocket-key", "")
		return raw, "without a key"
	case 2:
		drop("sec-websocket-version", "")
		return raw, "without a version"
	case 3:
		drop("sec-websocket-version", "\r\nSec-WebSocket-Version: 8")
		return raw, "of version 8"
	case 4:
		return strings.Replace(raw, "GET ", "POST ", 1), "by POST"
	}
	drop("connection", "\r\nConnection: keep-alive")
	return raw, "with Connection: keep-alive"
}

func runC10(x *eng.Ctx, c relay) error {
	if !c.ok() || len(c.WS) != len(c.Join) {
		return nil
	}
	for _, o := range c.WS {
		if len(o.Key) != 16 || len(o.Mask) != 4 {
			return nil
		}
	}
	s, err := wire.Start(wire.Options{})
	if err != nil {
		return err
	}
	name := wire.Name()
	path := "/" + wire.Apps[c.App%2] + "/" + name + ".flv"
	req, _ := wsRequest(path, c.WS[0].Key, 0)
	if _, resp, err := wire.OpenWS(s, req); err != nil || resp.StatusCode == 101 || resp.StatusCode < 400 {
		return fmt.Errorf("upgrade for an unknown stream: %v %v", resp, err)
	}
	p, views, all, err := c.run(x, s, name, func(i int) (wire.Viewer, error) {
		o := c.WS[i]
		req, want := wsRequest(path, o.Key, o.Head)
		v, resp, err := wire.OpenWS(s, req)
		if err != nil {
			return nil, err
		}
		if v == nil {
			return nil, fmt.Errorf("upgrade refused: %v", resp.Status)
		}
		if got := resp.Header.Get("Sec-WebSocket-Accept"); got != want {
			v.Close()
			return nil, fmt.Errorf("Sec-WebSocket-Accept %q, want %q", got, want)
		}
		if !strings.EqualFold(resp.Header.Get("Upgrade"), "websocket") || !strings.Contains(strings.ToLower(resp.Header.Get("Connection")), "upgrade") {
			v.Close()
			return nil, fmt.Errorf("upgrade response headers %v", resp.Header)
		}
		go func() {
			for k, b := range o.Pings {
				if k > 0 {
					time.Sleep(time.Duration(len(b)%4) * 200 * time.Microsecond)
				}
				if len(b) > 125 {
					b = b[:125]
				}
				v.SendFrame(0x89, b, o.Mask)
			}
		}()
		return v, nil
	}, nil)
	defer closeAll(p, views)
	if err != nil {
		return err
	}
	for i, v := range views {
		w, o := v.(*wire.WS), c.WS[i]
		pongs := func() (out [][]byte) {
			for _, f := range w.Frames() {
				if f.Op == 10 {
					out = append(out, f.Payload)
				}
			}
			return
		}
		if !w.WaitFrames(wire.Wait, func([]wire.WSFrame) bool { return len(pongs()) >= len(o.Pings) }) {
			return fmt.Errorf("viewer %d: %d pings, %d pongs", i, len(o.Pings), len(pongs()))
		}
		for k, q := range pongs() {
			if k >= len(o.Pings) || string(q) != string(o.Pings[k]) {
				return fmt.Errorf("viewer %d: pong %d is %x", i, k, q)
			}
		}
		if len(o.Pings) > 0 {
			x.Class("ping")
		}
	}
	// requests that are no proper upgrades are refused
	for _, k := range c.BadUp {
		raw, what := badUpgrade(path, c.WS[0].Key, k)
		v, resp, err := wire.OpenWS(s, raw)
		if err != nil {
			return fmt.Errorf("upgrade %s: %w", what, err)
		}
		if v != nil {
			v.Close()
			return fmt.Errorf("an upgrade %s is accepted", what)
		}
		if resp.StatusCode < 400 || resp.StatusCode > 499 {
			return fmt.Errorf("an upgrade %s is answered with %d", what, resp.StatusCode)
		}
		if k%6 == 3 && resp.Header.Get("Sec-WebSocket-Version") != "13" {
			return fmt.Errorf("an upgrade %s is answered without the version that is supported: %v", what, resp.Header)
		}
		x.Class("bad upgrade")
	}
	// other frames of the clients
	hurt := map[int]bool{}
	for i, v := range views {
		w, o := v.(*wire.WS), c.WS[i]
		raw, fatal := badFrames(o.Client, o.Mask)
		if len(raw) > 0 {
			x.Class(fmt.Sprintf("client frame kind %d", o.Client))
			if w.SendRaw(raw) != nil && !fatal {
				return fmt.Errorf("viewer %d: connection lost", i)
			}
			hurt[i] = fatal
		}
		if fatal {
			continue
		}
		if o.Client <= 2 || o.Client >= 12 || o.Client == 3 || o.Client == 4 {
			if err := w.SendFrame(0x89, []byte("still there?"), o.Mask); err != nil {
				return fmt.Errorf("viewer %d: %w", i, err)
			}
			if !w.WaitFrames(wire.Wait, func(fs []wire.WSFrame) bool {
				n := len(fs)
				for n > 0 {
					n--
					if fs[n].Op == 10 {
						return string(fs[n].Payload) == "still there?"
					}
				}
				return false
			}) {
				return fmt.Errorf("viewer %d: no pong after client frame of kind %d", i, o.Client)
			}
		}
		if o.Close >= 0 && o.Client == 0 {
			var pl []byte
			if o.Close == 1 {
				pl = []byte{3} // neither empty nor a code
			} else if o.Close > 0 {
				pl = []byte{byte(o.Close >> 8), byte(o.Close), 'b', 'y', 'e'}
			}
			if err := w.SendFrame(0x88, pl, o.Mask); err != nil {
				return err
			}
			if !wire.WaitEnd(w, wire.Wait) {
				return fmt.Errorf("viewer %d: connection stays open after a close frame", i)
			}
			fs := w.Frames()
			if len(fs) == 0 || fs[len(fs)-1].Op != 8 {
				return fmt.Errorf("viewer %d: close frame not answered by one", i)
			}
			if q := fs[len(fs)-1].Payload; len(q) == 1 || (o.Close != 1 && len(q) >= 2 && int(q[0])<<8|int(q[1]) != o.Close) {
				return fmt.Errorf("viewer %d: close %d answered with %x", i, o.Close, q)
			}
			hurt[i] = true
			x.Class("close")
		}
	}
	// the others go on
	end := wire.Sentinel(all[len(all)-1].TS+1, 99)
	if err := p.SendPubs([]wire.Pub{end}); err != nil {
		return err
	}
	all = append(all, end)
	fresh, err := wire.GetFLV(s, wire.Apps[c.App%2], name)
	if err != nil || fresh.Status != 200 {
		return fmt.Errorf("HTTP-FLV viewer after the client frames: %v", err)
	}
	defer fresh.Close()
	if !wire.HasTag(fresh, end) {
		return fmt.Errorf("a fresh viewer receives nothing after the client frames")
	}
	var rest []wire.Viewer
	for i, v := range views {
		if hurt[i] {
			if _, e := v.End(); e != nil {
				return fmt.Errorf("viewer %d: %w", i, e)
			}
			continue
		}
		rest = append(rest, v)
		if !wire.HasTag(v, end) {
			return fmt.Errorf("viewer %d no longer receives the stream", i)
		}
		if _, e := wire.CheckRun(v.Media(), all, -1); e != nil {
			return fmt.Errorf("viewer %d: %w", i, e)
		}
	}
	if err := c.finish(p, append(rest, fresh)); err != nil {
		return err
	}
	marks(x, c)
	return nil
}

func init() {
	eng.Register("C04", eng.Opts{
		Rule:        "a player that joined in the middle of the publication",
		Quick:       eng.Budget{Shards: 8, Cases: 700, Wall: 60 * time.Second},
		Thorough:    eng.Budget{Shards: 8, Cases: 100000, Wall: 600 * time.Second},
		Net:         true,
		Assumptions: []string{"loopback TCP; players keep up (publications shorter than the backlog the server keeps)"},
	}, genRelay(60), runC04)
	eng.Register("C09", eng.Opts{
		Rule:        "a viewer that joined in the middle of the publication",
		Quick:       eng.Budget{Shards: 8, Cases: 700, Wall: 60 * time.Second},
		Thorough:    eng.Budget{Shards: 8, Cases: 100000, Wall: 600 * time.Second},
		Net:         true,
		Assumptions: []string{"loopback TCP; viewers keep up"},
	}, genRelay(60), runC09)
	eng.Register("C10", eng.Opts{
		Rule:        "a viewer that joined in the middle of the publication",
		Quick:       eng.Budget{Shards: 8, Cases: 500, Wall: 60 * time.Second},
		Thorough:    eng.Budget{Shards: 8, Cases: 100000, Wall: 600 * time.Second},
		Net:         true,
		Assumptions: []string{"loopback TCP; viewers keep up"},
	}, genC10, runC10)
}
