package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"strconv"
	"strings"
	"time"

	"github.com/sbraveyoung/GGmpeg/librtsp"
	"pgregory.net/rapid"

	"verif/harness/eng"
)

type hdr struct {
	Name  string `json:"name"`
	Value string `json:"value"`
	Pre   string `json:"pre,omitempty"`
	Post  string `json:"post,omitempty"`
}
type msg struct {
	Frame  []byte `json:"frame,omitempty"` // an interleaved frame's payload instead of a message
	Chan   byte   `json:"chan,omitempty"`
	Method string `json:"method,omitempty"`
	URL    string `json:"url,omitempty"`
	Hdrs   []hdr  `json:"hdrs,omitempty"`
	Body   []byte `json:"body,omitempty"`
	LF     bool   `json:"lf,omitempty"`
	CLPos  int    `json:"clpos"`
	CLName string `json:"clname"`
	Look   int    `json:"look"`
}
type c20 struct {
	Msgs  []msg  `json:"msgs"`
	Segs  []int  `json:"segs"`
	Buf   int    `json:"buf"`
	Code  int    `json:"code"`
	Reas  string `json:"reason"`
	RHdrs []hdr  `json:"rhdrs"`
	RBody []byte `json:"rbody,omitempty"`
}

const tok = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._!#$%&'*+^`|~"

func genToken(t *rapid.T, label string) string {
	return rapid.StringOfN(rapid.SampledFrom([]rune(tok)), 1, 12, -1).Draw(t, label)
}

func genHdrs(t *rapid.T) (out []hdr) {
	seen := map[string]bool{"content-length": true}
	n := rapid.IntRange(0, 8).Draw(t, "nh")
	for i := 0; i < n; i++ {
		h := hdr{Name: rapid.OneOf(rapid.Custom(func(t *rapid.T) string { return genToken(t, "hn") }),
			rapid.SampledFrom([]string{"CSeq", "Transport", "Session", "Range", "User-Agent", "x-sessioncookie", "ACCEPT", "RTP-Info", "WWW-Authenticate"})).Draw(t, "name")}
		if seen[strings.ToLower(h.Name)] {
			continue
		}
		seen[strings.ToLower(h.Name)] = true
		h.Value = strings.TrimSpace(rapid.OneOf(
			rapid.SampledFrom([]string{"1", "RTP/AVP/TCP;unicast;interleaved=0-1", "npt=0.000-", "a: b: c", "", "rtsp://h:554/x y", "\"q\"; t=1"}),
			rapid.StringOfN(rapid.RuneFrom(nil, printable), 0, 30, -1)).Draw(t, "val"))
		sp := rapid.SampledFrom([]string{"", " ", "  ", "\t", " \t "})
		h.Pre, h.Post = sp.Draw(t, "pre"), sp.Draw(t, "post")
		out = append(out, h)
	}
	return out
}

func randCase(t *rapid.T, s string) string {
	m := rapid.Uint64().Draw(t, "case")
	b := []byte(s)
	for i, c := range b {
		if m>>(i%64)&1 == 1 {
			if c >= 'a' && c <= 'z' {
				b[i] = c - 32
			} else if c >= 'A' && c <= 'Z' {
				b[i] = c + 32
			}
		}
	}
	return string(b)
}

func genC20(t *rapid.T) c20 {
	var c c20
	n := rapid.IntRange(1, 5).Draw(t, "n")
	for i := 0; i < n; i++ {
		var m msg
		if rapid.IntRange(0, 3).Draw(t, "kind") == 0 {
			m.Chan = rapid.Byte().Draw(t, "ch")
			m.Frame = append([]byte{}, rapid.SliceOfN(rapid.Byte(), 1, 60).Draw(t, "frame")...)
			c.Msgs = append(c.Msgs, m)
			continue
		}
		m.Method = rapid.OneOf(rapid.SampledFrom([]string{"OPTIONS", "DESCRIBE", "ANNOUNCE", "SETUP", "PLAY", "RECORD", "TEARDOWN", "GET_PARAMETER"}),
			rapid.Custom(func(t *rapid.T) string { return "X" + genToken(t, "m") })).Draw(t, "method")
		m.URL = rapid.OneOf(rapid.SampledFrom([]string{"*", "rtsp://127.0.0.1:554/live/a", "rtsp://[::1]/live/a?x=1:2&y=%20/trackID=0"}),
			rapid.Custom(func(t *rapid.T) string { return "rtsp://h/" + genToken(t, "u") })).Draw(t, "url")
		m.Hdrs = genHdrs(t)
		if rapid.Bool().Draw(t, "hasbody") {
			m.Body = rapid.OneOf(rapid.SliceOfN(rapid.Byte(), 0, 50),
				rapid.SliceOfN(rapid.SampledFrom([]byte("\r\n$: a")), 0, 50),
				rapid.Custom(func(t *rapid.T) []byte {
					return bytes.Repeat([]byte("v=0\r\n"), rapid.SampledFrom([]int{10, 1000, 13107}).Draw(t, "rep"))
				})).Draw(t, "body")
		}
		m.LF = rapid.IntRange(0, 4).Draw(t, "lf") == 0
		m.CLPos = rapid.IntRange(-1, len(m.Hdrs)).Draw(t, "clpos")
		m.CLName = randCase(t, "Content-Length")
		m.Look = rapid.IntRange(0, 1000).Draw(t, "look")
		c.Msgs = append(c.Msgs, m)
	}
	c.Segs = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 3), rapid.IntRange(1, 200)), 1, 12).Draw(t, "segs")
	c.Buf = rapid.SampledFrom([]int{16, 64, 4096, 65536}).Draw(t, "buf")
	c.Code = rapid.OneOf(rapid.SampledFrom([]int{200, 400, 401, 404, 454, 455, 461, 500, 501, 551}), rapid.IntRange(100, 599)).Draw(t, "code")
	c.Reas = rapid.SampledFrom([]string{"OK", "Not Found", "Method Not Valid In This State", "x", ""}).Draw(t, "reas")
	c.RHdrs = genHdrs(t)
	c.RBody = rapid.OneOf(rapid.SliceOfN(rapid.Byte(), 0, 50), rapid.SliceOfN(rapid.SampledFrom([]byte("\r\n$: a")), 0, 50)).Draw(t, "rbody")
	return c
}

type segReader struct {
	b    []byte
	segs []int
	i    int
}

func (s *segReader) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := min(s.segs[s.i%len(s.segs)], len(p), len(s.b))
	s.i++
	copy(p, s.b[:n])
	s.b = s.b[n:]
	return n, nil
}

func runC20(c *eng.Ctx, cs c20) error {
	var wire bytes.Buffer
	bodies := 0
	for _, m := range cs.Msgs {
		if m.Method == "" {
			wire.Write([]byte{'$', m.Chan, byte(len(m.Frame) >> 8), byte(len(m.Frame))})
			wire.Write(m.Frame)
			continue
		}
		nl := "\r\n"
		if m.LF {
			nl = "\n"
		}
		fmt.Fprintf(&wire, "%s %s RTSP/1.0%s", m.Method, m.URL, nl)
		cl := func() {
			if len(m.Body) > 0 || m.CLPos >= 0 {
				fmt.Fprintf(&wire, "%s: %d%s", m.CLName, len(m.Body), nl)
			}
		}
		done := false
		for i, h := range m.Hdrs {
			if i == max(m.CLPos, 0) {
				cl()
				done = true
			}
			fmt.Fprintf(&wire, "%s:%s%s%s%s", h.Name, h.Pre, h.Value, h.Post, nl)
		}
		if !done {
			cl()
		}
		wire.WriteString(nl)
		wire.Write(m.Body)
		if len(m.Body) > 0 {
			bodies++
		}
	}
	br := bufio.NewReaderSize(&segReader{b: wire.Bytes(), segs: cs.Segs}, cs.Buf)
	reqs := 0
	for i, m := range cs.Msgs {
		if m.Method == "" {
			h := make([]byte, 4)
			if _, err := io.ReadFull(br, h); err != nil || h[0] != '$' || h[1] != m.Chan || int(h[2])<<8|int(h[3]) != len(m.Frame) {
				return fmt.Errorf("message %d: the reader is not at the interleaved frame: % x %v", i, h, err)
			}
			b := make([]byte, len(m.Frame))
			if _, err := io.ReadFull(br, b); err != nil || !bytes.Equal(b, m.Frame) {
				return fmt.Errorf("message %d: interleaved frame lost", i)
			}
			continue
		}
		reqs++
		r, err := librtsp.ReadRequest(br)
		if err != nil {
			return fmt.Errorf("message %d: %v", i, err)
		}
		if r.Method != m.Method || r.URL != m.URL || r.Version != "RTSP/1.0" {
			return fmt.Errorf("message %d: request line %q %q %q, want %q %q", i, r.Method, r.URL, r.Version, m.Method, m.URL)
		}
		want := len(m.Hdrs)
		if len(m.Body) > 0 || m.CLPos >= 0 {
			want++
		}
		if len(r.Headers) != want {
			return fmt.Errorf("message %d: %d headers, want %d: %v", i, len(r.Headers), want, r.Headers)
		}
		for _, h := range m.Hdrs {
			for _, k := range []string{h.Name, strings.ToUpper(h.Name), strings.ToLower(h.Name)} {
				if g := r.Headers.Get(k); g != h.Value {
					return fmt.Errorf("message %d: header %q is %q, want %q", i, k, g, h.Value)
				}
			}
		}
		if !bytes.Equal(r.Body, m.Body) {
			return fmt.Errorf("message %d: body of %d bytes, want %d", i, len(r.Body), len(m.Body))
		}
	}
	if _, err := br.ReadByte(); err != io.EOF {
		return fmt.Errorf("bytes left after the last message")
	}
	if reqs > 1 && bodies > 0 {
		c.NonTrivial()
	}
	// truncated: never a request made of missing bytes
	if last := cs.Msgs[len(cs.Msgs)-1]; last.Method != "" && len(cs.Msgs) == 1 {
		full := wire.Bytes()
		cut := last.Look % len(full)
		if _, err := librtsp.ReadRequest(bufio.NewReader(bytes.NewReader(full[:cut]))); err == nil {
			return fmt.Errorf("a request cut at byte %d of %d is accepted", cut, len(full))
		}
		c.Class("truncated")
	}
	// responses
	resp := &librtsp.Response{StatusCode: cs.Code, Reason: cs.Reas, Headers: librtsp.Headers{}, Body: cs.RBody}
	for _, h := range cs.RHdrs {
		resp.Headers.Set(h.Name, h.Value)
	}
	for pass := 0; pass < 2; pass++ {
		b := resp.Bytes()
		head, body, ok := bytes.Cut(b, []byte("\r\n\r\n"))
		if !ok {
			return fmt.Errorf("response without an empty line: %q", b)
		}
		lines := strings.Split(string(head), "\r\n")
		st := strings.SplitN(lines[0], " ", 3)
		if len(st) != 3 || st[0] != "RTSP/1.0" || st[1] != strconv.Itoa(cs.Code) || st[2] != cs.Reas {
			return fmt.Errorf("status line %q, want %d %q", lines[0], cs.Code, cs.Reas)
		}
		got := map[string]string{}
		for _, l := range lines[1:] {
			k, v, ok := strings.Cut(l, ":")
			k = strings.ToLower(k)
			if _, dup := got[k]; !ok || dup || strings.ContainsAny(l, "\r\n") {
				return fmt.Errorf("bad header line %q", l)
			}
			got[k] = strings.TrimSpace(v)
		}
		n := 0
		if v, ok := got["content-length"]; ok {
			var err error
			if n, err = strconv.Atoi(v); err != nil {
				return fmt.Errorf("Content-Length %q", v)
			}
			delete(got, "content-length")
		}
		if n != len(body) || !bytes.Equal(body, cs.RBody) {
			return fmt.Errorf("response body: announced %d, sent %d, want %d bytes", n, len(body), len(cs.RBody))
		}
		if len(got) != len(cs.RHdrs) {
			return fmt.Errorf("response headers %v, want %v", got, cs.RHdrs)
		}
		for _, h := range cs.RHdrs {
			if v, ok := got[strings.ToLower(h.Name)]; !ok || v != h.Value {
				return fmt.Errorf("response header %q is %q, want %q", h.Name, v, h.Value)
			}
		}
	}
	return nil
}

func init() {
	eng.Register("C20", eng.Opts{
		Rule:        "at least two requests of which one has a body",
		Quick:       eng.Budget{Shards: 8, Cases: 8000, Wall: 60 * time.Second},
		Thorough:    eng.Budget{Shards: 8, Cases: 400000, Wall: 15 * time.Minute},
		Assumptions: []string{"no repeated header names and no folded header lines"},
	}, genC20, runC20)
}
