// Package main checks what names of streams and request paths can reach.
package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"strings"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	"verif/harness/eng"
	"verif/harness/ref"
	"verif/harness/wire"
)

type pub struct {
	App   int
	Name  []byte
	RTSP  bool
	Keys  int  // keyframes
	Leave bool // before the second look
}

type req struct {
	FLV  bool
	Path []byte
}

type c27 struct {
	Pubs []pub
	Reqs []req
}

var long = strings.Repeat("long-name.", 26)

func genName(t *rapid.T, have []pub) []byte {
	if rapid.IntRange(0, 3).Draw(t, "plain") == 0 {
		return []byte(rapid.SampledFrom([]string{"a", "b", "cam", "Cam", "a-1", "index", "x.ts"}).Draw(t, "name"))
	}
	atoms := []string{"..", "../", "/", "/", "\\", "..\\", "%2f", "%2e%2e", "%", "%25", "a", "b", "cam", "live", "app2", "-0", "-1.ts", "-init.mp4", "-0.m4s", ".ts",
		".flv", "index.m3u8", "~", "~2F", "~~", "~1-init.mp4", ".", " ", "\x00", "\n", "\r\nX: y\r\n", "?", "#", "&", "<", "\"", "é", "\xff", ":", "*", "$Number$", "secret", "foreign", "hls", "#EXT-X-ENDLIST\n", "?key=1", "=", ",", ";", long}
	s := ""
	if len(have) > 0 && rapid.IntRange(0, 2).Draw(t, "near") == 0 {
		s = string(have[rapid.IntRange(0, len(have)-1).Draw(t, "of")].Name)
		switch rapid.IntRange(0, 6).Draw(t, "how") {
		case 4: // other characters that need escaping
			b := []byte(s)
			for i := range b {
				if strings.IndexByte("/ \\%~:#?&", b[i]) >= 0 {
					b[i] = rapid.SampledFrom([]byte("/ :%~_")).Draw(t, "special")
				}
			}
			return b
		case 5:
			return []byte(strings.NewReplacer("/", "", "..", "").Replace(s) + "a")
		case 0:
			return []byte(strings.ReplaceAll(s, "/", "~2F"))
		case 1:
			return []byte("../live/" + s)
		case 2:
			return []byte("./" + s)
		case 3:
			if len(s) > 100 {
				return []byte(s[:len(s)-1] + "Z")
			}
			return []byte(strings.ToUpper(s))
		}
	}
	for k := rapid.IntRange(1, 5).Draw(t, "atoms"); k > 0; k-- {
		s += rapid.SampledFrom(atoms).Draw(t, "atom")
	}
	return []byte(s)
}

// esc percent-encodes a name as one path segment. mode varies how.
func esc(s string, mode int) string {
	switch mode {
	case 1:
		return s // not at all
	case 3: // twice
		return esc(esc(s, 0), 0)
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		plain := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("-_.~", c) >= 0
		switch {
		case plain && mode != 2:
			b.WriteByte(c)
		case mode == 4:
			fmt.Fprintf(&b, "%%%02x", c)
		default:
			fmt.Fprintf(&b, "%%%02X", c)
		}
	}
	return b.String()
}

func genC27(t *rapid.T) c27 {
	var c c27
	for k := rapid.IntRange(1, 3).Draw(t, "pubs"); k > 0; k-- {
		p := pub{App: rapid.IntRange(0, 1).Draw(t, "app"), Keys: rapid.IntRange(2, 9).Draw(t, "keys"), Leave: rapid.IntRange(0, 2).Draw(t, "leave") == 0}
		if len(c.Pubs) > 0 && rapid.IntRange(0, 3).Draw(t, "same") == 0 {
			p.Name, p.App = c.Pubs[0].Name, 1-c.Pubs[0].App
		} else {
			p.Name = genName(t, c.Pubs)
		}
		p.RTSP = rapid.IntRange(0, 4).Draw(t, "rtsp") == 0
		for _, b := range p.Name {
			if b <= ' ' || b >= 127 || b == '/' || b == '?' || b == '#' {
				p.RTSP = false
			}
		}
		if p.RTSP && strings.Contains(string(p.Name), "://") {
			p.RTSP = false
		}
		dup := len(p.Name) == 0
		for _, q := range c.Pubs {
			dup = dup || q.App == p.App && bytes.Equal(q.Name, p.Name)
		}
		if !dup {
			c.Pubs = append(c.Pubs, p)
		}
	}
	pick := func(l string) pub {
		if len(c.Pubs) == 0 {
			return pub{Name: []byte("none")}
		}
		return c.Pubs[rapid.IntRange(0, len(c.Pubs)-1).Draw(t, l)]
	}
	for k := rapid.IntRange(0, 14).Draw(t, "reqs"); k > 0; k-- {
		p, q := pick("p"), pick("q")
		m := rapid.IntRange(0, 4).Draw(t, "esc")
		app := rapid.SampledFrom([]string{wire.Apps[p.App], wire.Apps[p.App], wire.Apps[1-p.App], "%6Cive", "..", ".", "%2e%2e", "nosuch", ""}).Draw(t, "app")
		if rapid.IntRange(0, 5).Draw(t, "flv") == 0 {
			s := "/" + app + "/" + esc(string(p.Name), m) + ".flv"
			switch rapid.IntRange(0, 4).Draw(t, "fv") {
			case 0:
				s = "/" + app + "/x/../" + esc(string(p.Name), m) + ".flv"
			case 1:
				s = "/" + app + "/" + esc(string(p.Name), m) + "/" + esc(string(q.Name), m) + ".flv"
			case 2:
				s = "/" + app + "/" + esc(string(p.Name)+".flv", m) + "?x=/" + esc(string(q.Name), 0) + ".flv"
			}
			c.Reqs = append(c.Reqs, req{true, []byte(s)})
			continue
		}
		own := "\x01" + fmt.Sprint(rapid.IntRange(0, 7).Draw(t, "file")) // a real file, of q
		file := rapid.SampledFrom([]string{"index.m3u8", "index.mpd", own, own, own, "../" + own, esc("../", 4) + own, "..%5c" + own, "../../secret.ts", "..%2f..%2fsecret.ts", "..%2Fsecret.ts",
			"%2e%2e/%2e%2e/secret.ts", "secret.ts", "foreign.ts", "foreign.m4s", "-init.mp4", "~-init.mp4", own + "/", own + "%00.ts", "x/../" + own, "..%252f..%252fsecret.ts",
			"\x02secret.ts", esc("\x02secret.ts", 4), "index.m3u8/../" + own, "secret.mp4", "..%2f..%2fsecret-init.mp4", "..%2f..%2fsecret.m4s", "../../secret.m3u8", "..\\..\\secret.ts", ".ts", "%2e.ts"}).Draw(t, "what")
		sep := rapid.SampledFrom([]string{"/", "/", "/", "/", "//", "/./", "%2f", "/x/../", "/..;/", "\\"}).Draw(t, "sep")
		s := "/" + app + sep + esc(string(p.Name), m) + "/" + file
		if rapid.IntRange(0, 9).Draw(t, "abs") == 0 {
			s = "http://host" + s
		}
		c.Reqs = append(c.Reqs, req{false, []byte(s)})
	}
	return c
}

// live is a stream being published.
type live struct {
	pub
	mark string
	end  func()
	send func(k int) error
	on   bool
	next int // keyframe
}

var marks int64

var markRE = regexp.MustCompile(`MARK\d{8}!|SECRET\d!`)

func found(b []byte) map[string]bool {
	m := map[string]bool{}
	for _, x := range markRE.FindAll(b, -1) {
		m[string(x)] = true
	}
	return m
}

func (l *live) nal(t byte, n int) []byte {
	return append([]byte{t}, strings.Repeat(l.mark, n)...)
}

func (l *live) sps() []byte { return append([]byte{0x67, 66, 0xc0, 30}, ref.Fill(7, 12)...) }

func (l *live) start(s *wire.Server) error {
	l.mark = fmt.Sprintf("MARK%08d!", atomic.AddInt64(&marks, 1))
	app, name := wire.Apps[l.App], string(l.Name)
	l.on = true
	if l.RTSP {
		r, err := wire.DialRTSP(s)
		if err != nil {
			return err
		}
		l.end = r.Close
		u := s.RTSPURL(app, name)
		p, err := r.Request("ANNOUNCE", u, "Content-Type: application/sdp\r\n", wire.AnnounceSDP(l.sps(), l.nal(0x68, 3), nil, 0, 0))
		if err == nil && p.Status == 200 {
			p, err = r.Request("SETUP", u+"/streamid=0", "Transport: RTP/AVP/TCP;unicast;interleaved=0-1;mode=record\r\n", nil)
		}
		if err == nil && p.Status == 200 {
			p, err = r.Request("RECORD", u, "", nil)
		}
		if err != nil || p.Status != 200 {
			return fmt.Errorf("publishing %q by RTSP: status %d %v", l.Name, p.Status, err)
		}
		l.send = func(k int) error {
			h := ref.RTP{PT: 96, Seq: uint16(k), TS: uint32(k) * 2000 * 90, SSRC: 5, Marker: true, Payload: l.nal(0x65, 60)}
			return r.Write(wire.Interleave(0, h.Encode()))
		}
		return nil
	}
	cl, err := wire.Publisher(s, app, name)
	if err != nil {
		return err
	}
	l.end = cl.Close
	l.send = func(k int) error {
		var ps []wire.Pub
		add := func(ts int, b ...byte) { ps = append(ps, wire.Pub{FTag: ref.FTag{Type: 9, TS: uint32(ts), Data: b}}) }
		if k == 0 {
			add(0, append([]byte{0x17, 0, 0, 0, 0}, ref.AVCRecord([][]byte{l.sps()}, [][]byte{l.nal(0x68, 3)})...)...)
		}
		add(k*2000, append([]byte{0x17, 1, 0, 0, 0}, ref.AVCC(l.nal(0x65, 60))...)...)
		add(k*2000+900, append([]byte{0x27, 1, 0, 0, 0}, ref.AVCC(l.nal(0x41, 60))...)...)
		return cl.SendPubs(ps)
	}
	return nil
}

// get performs a request with the path as given.
func get(addr, target string) (status int, body []byte, err error) {
	nc, err := net.DialTimeout("tcp", addr, wire.Wait)
	if err != nil {
		return 0, nil, fmt.Errorf("%w: %v", eng.ErrInconclusive, err)
	}
	defer nc.Close()
	fmt.Fprintf(nc, "GET %s HTTP/1.1\r\nHost: host\r\nConnection: close\r\n\r\n", target)
	nc.SetReadDeadline(time.Now().Add(wire.Wait))
	r, err := http.ReadResponse(bufio.NewReader(nc), nil)
	if err != nil {
		return 0, nil, fmt.Errorf("GET %q: no response: %v", target, err)
	}
	if r.Header.Get("Content-Type") == "video/x-flv" { // goes on for ever
		nc.SetReadDeadline(time.Now().Add(120 * time.Millisecond))
	}
	body, err = io.ReadAll(io.LimitReader(r.Body, 1<<20))
	if err != nil && r.Header.Get("Content-Type") != "video/x-flv" {
		return r.StatusCode, body, fmt.Errorf("GET %q: %v", target, err)
	}
	return r.StatusCode, body, nil
}

// streams says which streams a request path may mean.
func streams(p string, parts int) (out [][2]string) {
	if u, err := url.Parse(p); err == nil {
		p = u.EscapedPath()
	}
	for _, v := range []string{p, path.Clean(p), path.Clean(strings.NewReplacer("%2e", ".", "%2E", ".").Replace(p))} {
		l := strings.Split(strings.TrimPrefix(v, "/"), "/")
		if len(l) != parts {
			continue
		}
		a, err1 := url.PathUnescape(l[0])
		n, err2 := url.PathUnescape(l[1])
		if err1 != nil || err2 != nil {
			continue
		}
		if parts == 2 {
			if !strings.HasSuffix(n, ".flv") {
				continue
			}
			n = strings.TrimSuffix(n, ".flv")
		}
		out = append(out, [2]string{a, n})
	}
	return out
}

// reachable tells whether HTTP servers answer for the canonical path of the
// stream instead of redirecting to a simpler one.
func (l *live) reachable() bool {
	p := "/" + wire.Apps[l.App] + "/" + string(l.Name) + "/index.m3u8"
	return path.Clean(p) == p
}

func (l *live) canonical(file string) string {
	return "/" + wire.Apps[l.App] + "/" + esc(string(l.Name), 0) + "/" + file
}

// look plays the stream by HLS and DASH and returns the files it got.
func (l *live) look(s *wire.Server) (files []string, err error) {
	for i := 0; ; i++ {
		var gone bool
		if files, gone, err = l.lookOnce(s); !gone || i == 20 {
			return files, err
		}
		time.Sleep(10 * time.Millisecond)
	}
}

func (l *live) lookOnce(s *wire.Server) (files []string, gone bool, err error) {
	fetch := func(from, uri string) ([]byte, error) {
		b, err := url.Parse("http://host" + from)
		if err != nil {
			return nil, err
		}
		r, err := url.Parse(uri)
		if err != nil {
			return nil, fmt.Errorf("%s lists %q: %v", from, uri, err)
		}
		abs := b.ResolveReference(r)
		status, body, err := get(s.HLS, abs.RequestURI())
		if err != nil {
			return nil, err
		}
		if status == 404 {
			gone = true // the window may have moved
			return nil, fmt.Errorf("%s lists %q, GET %s: status %d", from, uri, abs.RequestURI(), status)
		}
		if status != 200 {
			return nil, fmt.Errorf("%s lists %q, GET %s: status %d", from, uri, abs.RequestURI(), status)
		}
		m := found(body)
		if !m[l.mark] || len(m) != 1 {
			return nil, fmt.Errorf("%s lists %q; it has frames of %v, the stream's are %s", from, uri, m, l.mark)
		}
		files = append(files, path.Base(abs.Path))
		return body, nil
	}
	want := min(l.Keys-1, 3)
	deadline := time.Now().Add(wire.Wait)
	for try := 0; ; {
		files = nil
		at := l.canonical("index.m3u8")
		status, body, err := get(s.HLS, at)
		if err != nil {
			return nil, gone, err
		}
		n := 0
		if status == 200 {
			p, err := ref.ParseM3U8(body)
			if err != nil {
				return nil, gone, fmt.Errorf("%s: %v\n%s", at, err, body)
			}
			n = len(p.Segs)
			if n >= want {
				for _, seg := range p.Segs {
					if _, err := fetch(at, seg.URI); err != nil {
						return nil, gone, err
					}
				}
			}
		}
		at = l.canonical("index.mpd")
		d := 0
		if n >= want {
			if status, body, err = get(s.HLS, at); err != nil {
				return nil, gone, err
			}
			if status == 200 {
				m, err := ref.ParseMPD(body)
				if err != nil {
					return nil, gone, fmt.Errorf("%s: %v\n%s", at, err, body)
				}
				for _, p := range m.Periods {
					d += len(p.Segs)
				}
				if d >= want {
					for _, p := range m.Periods {
						for _, seg := range p.Segs {
							if _, err := fetch(at, seg.URI); err != nil {
								return nil, gone, err
							}
						}
						if _, err := fetch(at, p.Init); err != nil {
							return nil, gone, err
						}
					}
				}
			}
		}
		if n >= want && d >= want {
			return files, false, nil
		}
		if time.Now().After(deadline) {
			return nil, gone, fmt.Errorf("%q in %s: %d HLS and %d DASH segments available, want %d", l.Name, wire.Apps[l.App], n, d, want)
		}
		time.Sleep(5 * time.Millisecond)
		// The segmenters may have joined late, so the stream goes on.
		if try++; try%10 == 0 {
			if err := l.send(l.next); err != nil {
				return nil, gone, err
			}
			l.next++
		}
	}
}

// snapshot describes every file but those of the configured directory.
func snapshot(root, except string) (map[string]string, error) {
	m := map[string]string{}
	err := filepath.Walk(root, func(f string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if f == except {
			return filepath.SkipDir
		}
		if fi.IsDir() {
			m[f] = "directory"
			return nil
		}
		b, err := os.ReadFile(f)
		m[f] = fmt.Sprintf("%d bytes %x", len(b), sha256.Sum256(b))
		return err
	})
	return m, err
}

// owners lists the files of the configured directory with the streams their
// content is from.
func owners(dir string) (map[string]map[string]bool, error) {
	m := map[string]map[string]bool{}
	err := filepath.Walk(dir, func(f string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			if os.IsNotExist(err) {
				return nil
			}
			return err
		}
		b, err := os.ReadFile(f)
		if os.IsNotExist(err) {
			return nil
		}
		m[f] = found(b)
		return err
	})
	return m, err
}

func runC27(x *eng.Ctx, c c27) (err error) {
	root := filepath.Join(x.Dir, "root")
	dir := filepath.Join(root, "a", "b", "hls")
	if _, e := os.Stat(root); e != nil {
		os.MkdirAll(dir, 0o755)
		for _, d := range []string{root, filepath.Join(root, "a"), filepath.Join(root, "a", "b"), filepath.Join(root, "a", "b", "live")} {
			os.MkdirAll(d, 0o755)
			for _, f := range []string{"secret.ts", "secret.m4s", "secret-init.mp4", "secret.m3u8", "secret.mp4", "cam-0.ts", "a-0.ts", "cam-init.mp4", "a-0.m4s"} {
				if err := os.WriteFile(filepath.Join(d, f), []byte(strings.Repeat("SECRET1!", 30)), 0o644); err != nil {
					return err
				}
			}
		}
		for _, f := range []string{"foreign.ts", "foreign.m4s"} {
			os.WriteFile(filepath.Join(dir, f), []byte("foreign"), 0o644)
		}
	}
	s, err := wire.Start(wire.Options{HLS: true, DASH: true, RTSP: true, Dir: dir})
	if err != nil {
		return err
	}
	before, err := snapshot(root, dir)
	if err != nil {
		return err
	}
	outside := func(when string) error {
		after, err := snapshot(root, dir)
		if err != nil {
			return err
		}
		for f, v := range after {
			if before[f] == "" {
				return fmt.Errorf("%s: %s was created outside the configured directory", when, f)
			} else if before[f] != v {
				return fmt.Errorf("%s: %s was changed", when, f)
			}
		}
		for f := range before {
			if after[f] == "" {
				return fmt.Errorf("%s: %s was removed", when, f)
			}
		}
		es, err := os.ReadDir(x.Dir)
		if err != nil {
			return err
		}
		for _, e := range es {
			if e.Name() != "root" {
				return fmt.Errorf("%s: %s was created in the working directory", when, e.Name())
			}
		}
		for _, f := range []string{"foreign.ts", "foreign.m4s"} {
			if b, err := os.ReadFile(filepath.Join(dir, f)); err != nil || string(b) != "foreign" {
				return fmt.Errorf("%s: %s, which belongs to nobody, was touched", when, f)
			}
		}
		return nil
	}
	inside := func(ls []*live) error {
		m, err := owners(dir)
		if err != nil {
			return err
		}
		for f, o := range m {
			if strings.HasPrefix(filepath.Base(f), "foreign.") {
				continue
			}
			for _, l := range ls {
				if l.on && o[l.mark] {
					delete(o, l.mark)
					o["one"] = true
					break
				}
			}
			if len(o) > 1 || !o["one"] {
				return fmt.Errorf("%s has content of %v, which is not one live stream", f, o)
			}
		}
		return nil
	}
	eventually := func(f func() error) error {
		deadline := time.Now().Add(wire.Wait)
		for {
			err := f()
			if err == nil || time.Now().After(deadline) {
				return err
			}
			time.Sleep(3 * time.Millisecond)
		}
	}
	var ls []*live
	defer func() {
		for _, l := range ls {
			if l.on {
				l.on = false
				l.end()
			}
		}
		if err == nil {
			if err = eventually(func() error { return inside(ls) }); err == nil {
				err = outside("after all streams")
			}
		}
	}()
	for _, p := range c.Pubs {
		l := &live{pub: p}
		if err := l.start(s); err != nil {
			if l.end != nil {
				l.end()
			}
			if errors.Is(err, eng.ErrInconclusive) {
				return err
			}
			return fmt.Errorf("%q in %s cannot be published: %v", p.Name, wire.Apps[p.App], err)
		}
		ls = append(ls, l)
	}
	for k := 0; k < 9; k++ { // the streams interleave
		for _, l := range ls {
			if k < l.Keys {
				if err := l.send(k); err != nil {
					return fmt.Errorf("%q in %s: %v", l.Name, wire.Apps[l.App], err)
				}
				l.next = k + 1
			}
		}
	}
	files := map[*live][]string{}
	seen := 0
	for _, l := range ls {
		if !l.reachable() {
			x.Class("unreachable-name")
			continue
		}
		f, err := l.look(s)
		if err != nil {
			return err
		}
		files[l] = f
		seen++
	}
	if err := outside("while streams are live"); err != nil {
		return err
	}
	if err := eventually(func() error { return inside(ls) }); err != nil { // a file may be half written
		return err
	}
	special := false
	for _, l := range ls {
		special = special || esc(string(l.Name), 0) != string(l.Name) || strings.Contains(string(l.Name), "..") || len(l.Name) > 200
	}
	var real []string
	for _, l := range ls {
		real = append(real, files[l]...)
	}
	for _, r := range c.Reqs {
		t := string(r.Path)
		t = strings.ReplaceAll(t, "\x02", root+"/")
		for i := 0; i < 8; i++ {
			f := "index.m3u8"
			if len(real) > 0 {
				f = real[i*7%len(real)]
			}
			t = strings.ReplaceAll(t, "\x01"+fmt.Sprint(i), f)
		}
		addr, parts := s.HLS, 3
		if r.FLV {
			addr, parts = s.FLV, 2
		}
		if i := strings.IndexAny(t, "\x00\r\n \t#"); i >= 0 || t == "" {
			continue
		}
		status, body, err := get(addr, t)
		if err != nil {
			if errors.Is(err, eng.ErrInconclusive) {
				return err
			}
			return err
		}
		x.Class(fmt.Sprintf("status-%d", status))
		may := map[string]bool{}
		for _, a := range streams(t, parts) {
			for _, l := range ls {
				if wire.Apps[l.App] == a[0] && string(l.Name) == a[1] {
					may[l.mark] = true
				}
			}
		}
		for m := range found(body) {
			if !may[m] {
				return fmt.Errorf("GET %q: got content %s, the path means %q, whose streams have %v", t, m, streams(t, parts), may)
			}
		}
	}
	left := false
	for _, l := range ls {
		if l.Leave {
			l.on = false
			l.end()
			left = true
		}
	}
	if left {
		x.Class("left")
		if err := eventually(func() error { return inside(ls) }); err != nil {
			return fmt.Errorf("after streams have ended: %v", err)
		}
		for _, l := range ls {
			if !l.reachable() {
				continue
			}
			if l.on {
				if _, err := l.look(s); err != nil {
					return fmt.Errorf("after another stream has ended: %v", err)
				}
				continue
			}
			for _, f := range append([]string{"index.m3u8", "index.mpd"}, files[l]...) {
				if status, body, err := get(s.HLS, l.canonical(esc(f, 0))); err != nil {
					return err
				} else if status == 200 {
					return fmt.Errorf("%s is still served after the stream has ended: %d bytes", l.canonical(f), len(body))
				}
			}
		}
	}
	if special && seen > 0 {
		x.NonTrivial()
	}
	if len(ls) > 1 {
		x.Class("several-streams")
	}
	return nil
}

func main() {
	eng.Register("C27", eng.Opts{
		Rule:         "a stream whose name needs escaping is played by HLS and DASH",
		Quick:        eng.Budget{Shards: 8, Cases: 150, Wall: 60 * time.Second},
		Thorough:     eng.Budget{Shards: 8, Cases: 8000, Wall: 15 * time.Minute},
		Assumptions:  []string{"HTTP redirects to a cleaned path are not followed", "names published by RTSP are as they stand in the URL"},
		Unprivileged: true,
	}, genC27, runC27)
	eng.Main()
}
