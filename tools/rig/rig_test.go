// A small raw RTMP/HTTP/RTSP client used by the demonstrations of this folder.
package librtmp_test

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"os"
	"testing"
	"time"

	"github.com/sbraveyoung/GGmpeg/librtmp"
)

var rigIP = fmt.Sprintf("127.77.%d.%d", os.Getpid()>>8&0x7f+1, os.Getpid()&0xff)

const (
	rtmpPort = "31935"
	flvPort  = "31936"
	hlsPort  = "31937"
	rtspPort = "31938"
	srtPort  = "31939"
)

// rigStart starts a server (apps live and app2) with every front end.
func rigStart(t *testing.T) (dir string) {
	t.Helper()
	dir = t.TempDir()
	s := librtmp.NewServer(rigIP+":"+rtmpPort, "live", "app2").
		WithHTTPFlv(rigIP+":"+flvPort).WithHls(rigIP+":"+hlsPort).WithDASH().
		WithRTSP(rigIP+":"+rtspPort).WithSRT(rigIP+":"+srtPort, "live", "srt").
		SetHlsDir("live", dir).SetHlsDir("app2", dir)
	go s.Handler()
	for _, p := range []string{rtmpPort, flvPort, hlsPort, rtspPort} {
		for i := 0; ; i++ {
			c, err := net.Dial("tcp", rigIP+":"+p)
			if err == nil {
				c.Close()
				break
			}
			if i > 200 {
				t.Fatalf("server does not listen: %v", err)
			}
			time.Sleep(20 * time.Millisecond)
		}
	}
	return dir
}

type rmsg struct {
	typ  byte
	csid int
	sid  uint32
	ts   uint32
	body []byte
}

type rconn struct {
	t     *testing.T
	c     net.Conn
	r     *bufio.Reader
	limit int // incoming chunk size
	st    map[int]*rmsg
	fill  map[int]int
	delta map[int]uint32
	nread int
}

func dialRTMP(t *testing.T) *rconn {
	t.Helper()
	c, err := net.Dial("tcp", rigIP+":"+rtmpPort)
	if err != nil {
		t.Fatal(err)
	}
	k := &rconn{t: t, c: c, r: bufio.NewReader(c), limit: 128, st: map[int]*rmsg{}, fill: map[int]int{}, delta: map[int]uint32{}}
	c.SetDeadline(time.Now().Add(60 * time.Second))
	c0 := make([]byte, 1537)
	c0[0] = 3
	c.Write(c0)
	s := make([]byte, 1+1536+1536)
	if _, err := io.ReadFull(k.r, s); err != nil {
		t.Fatalf("handshake: %v", err)
	}
	c.Write(s[1:1537])
	return k
}

// send writes one message with a full header, cut in chunks of 128 bytes.
func (k *rconn) send(csid int, typ byte, ts, sid uint32, body []byte) {
	var b bytes.Buffer
	bt := ts
	if ts >= 0xffffff {
		bt = 0xffffff
	}
	b.WriteByte(byte(csid))
	b.Write([]byte{byte(bt >> 16), byte(bt >> 8), byte(bt), byte(len(body) >> 16), byte(len(body) >> 8), byte(len(body)), typ})
	binary.Write(&b, binary.LittleEndian, sid)
	ext := func() {
		if bt == 0xffffff {
			binary.Write(&b, binary.BigEndian, ts)
		}
	}
	ext()
	for len(body) > 128 {
		b.Write(body[:128])
		body = body[128:]
		b.WriteByte(0xc0 | byte(csid))
		ext()
	}
	b.Write(body)
	k.c.Write(b.Bytes())
}

func (k *rconn) u(n int) uint32 {
	var b [4]byte
	if _, err := io.ReadFull(k.r, b[4-n:]); err != nil {
		panic(err)
	}
	k.nread += n
	return binary.BigEndian.Uint32(b[:])
}

// recv returns the next message; nil at the end of the connection or after d.
func (k *rconn) recv(d time.Duration) (m *rmsg) {
	k.c.SetReadDeadline(time.Now().Add(d))
	defer func() {
		if r := recover(); r != nil {
			m = nil
		}
	}()
	for {
		h := k.u(1)
		csid := int(h & 63)
		if csid == 0 {
			csid = int(k.u(1)) + 64
		} else if csid == 1 {
			csid = int(k.u(1)) + 64
			csid += int(k.u(1)) << 8
		}
		f := h >> 6
		s := k.st[csid]
		if s == nil {
			s = &rmsg{csid: csid}
			k.st[csid] = s
		}
		var tm uint32
		length := len(s.body)
		if f < 3 {
			tm = k.u(3)
			if f < 2 {
				length = int(k.u(3))
				s.typ = byte(k.u(1))
				if f == 0 {
					x := k.u(4)
					s.sid = x>>24 | x>>8&0xff00 | x<<8&0xff0000 | x<<24
				}
			}
			if tm == 0xffffff {
				tm = k.u(4)
			}
			if f == 0 {
				s.ts = tm
			} else {
				s.ts += tm
			}
			k.delta[csid] = tm
			s.body = make([]byte, length)
			k.fill[csid] = 0
		}
		n := length - k.fill[csid]
		if n > k.limit {
			n = k.limit
		}
		if _, err := io.ReadFull(k.r, s.body[k.fill[csid]:k.fill[csid]+n]); err != nil {
			return nil
		}
		k.nread += n
		k.fill[csid] += n
		if k.fill[csid] < length {
			continue
		}
		k.fill[csid] = 0
		out := *s
		out.body = append([]byte(nil), s.body...)
		if out.typ == 1 && len(out.body) == 4 {
			k.limit = int(binary.BigEndian.Uint32(out.body))
		}
		return &out
	}
}

// want returns the next message that ok accepts.
func (k *rconn) want(d time.Duration, ok func(*rmsg) bool) *rmsg {
	end := time.Now().Add(d)
	for {
		m := k.recv(time.Until(end))
		if m == nil || ok(m) {
			return m
		}
	}
}

func astr(s string) []byte { return append([]byte{2, byte(len(s) >> 8), byte(len(s))}, s...) }
func anum(f float64) []byte {
	return binary.BigEndian.AppendUint64([]byte{0}, math.Float64bits(f))
}
func aobj(kv ...string) []byte {
	b := []byte{3}
	for i := 0; i+1 < len(kv); i += 2 {
		b = append(b, astr(kv[i])[1:]...)
		b = append(b, astr(kv[i+1])...)
	}
	return append(b, 0, 0, 9)
}
func cat(p ...[]byte) []byte { return bytes.Join(p, nil) }

var anull = []byte{5}

func has(s string) func(*rmsg) bool {
	return func(m *rmsg) bool { return m.typ == 20 && bytes.Contains(m.body, []byte(s)) }
}

func (k *rconn) connect(app string) {
	k.t.Helper()
	k.send(3, 20, 0, 0, cat(astr("connect"), anum(1), aobj("app", app, "tcUrl", "rtmp://x/"+app)))
	if k.want(5*time.Second, has("_result")) == nil {
		k.t.Fatal("connect not answered")
	}
}

func publish(t *testing.T, app, name string) *rconn {
	t.Helper()
	k := dialRTMP(t)
	k.connect(app)
	k.send(3, 20, 0, 0, cat(astr("createStream"), anum(2), anull))
	k.want(5*time.Second, has("_result"))
	k.send(3, 20, 0, 1, cat(astr("publish"), anum(3), anull, astr(name), astr("live")))
	if m := k.want(5*time.Second, has("onStatus")); m == nil || !bytes.Contains(m.body, []byte("NetStream.Publish.Start")) {
		t.Fatalf("publish of %s refused", name)
	}
	return k
}

func play(t *testing.T, app, name string) *rconn {
	t.Helper()
	k := dialRTMP(t)
	k.connect(app)
	k.send(3, 20, 0, 0, cat(astr("createStream"), anum(2), anull))
	k.want(5*time.Second, has("_result"))
	k.send(3, 20, 0, 1, cat(astr("play"), anum(3), anull, astr(name)))
	if k.want(5*time.Second, has("NetStream.Play.Start")) == nil {
		t.Fatalf("play of %s refused", name)
	}
	return k
}

func media(m *rmsg) bool { return m.typ == 8 || m.typ == 9 }

// httpGet returns status and body (up to n bytes, within d).
func httpGet(t *testing.T, port, path string, n int64, d time.Duration) (int, []byte) {
	t.Helper()
	resp, err := (&http.Client{Timeout: d}).Get("http://" + rigIP + ":" + port + path)
	if err != nil {
		t.Fatalf("GET %s: %v", path, err)
	}
	defer resp.Body.Close()
	b, _ := io.ReadAll(io.LimitReader(resp.Body, n))
	return resp.StatusCode, b
}

var avcHeader = []byte{0x17, 0, 0, 0, 0, 1, 0x42, 0, 0x1e, 0xff, 0xe1, 0, 9, 0x67, 0x42, 0, 0x1e, 0x96, 0x35, 0x40, 0xa0, 0x0b, 1, 0, 4, 0x68, 0xce, 0x3c, 0x80}
var aacHeader = []byte{0xaf, 0, 0x12, 0x10}

func keyframe(fill byte, n int) []byte {
	return cat([]byte{0x17, 1, 0, 0, 0}, nal(5, fill, n))
}
func interframe(fill byte, n int) []byte {
	return cat([]byte{0x27, 1, 0, 0, 0}, nal(1, fill, n))
}
func nal(typ, fill byte, n int) []byte {
	b := binary.BigEndian.AppendUint32(nil, uint32(n))
	return append(b, append([]byte{0x60 | typ}, bytes.Repeat([]byte{fill | 0x80}, n-1)...)...)
}

// rtsp is a plain RTSP client.
type rtspc struct {
	t    *testing.T
	c    net.Conn
	r    *bufio.Reader
	cseq int
}

func dialRTSP(t *testing.T) *rtspc {
	c, err := net.Dial("tcp", rigIP+":"+rtspPort)
	if err != nil {
		t.Fatal(err)
	}
	c.SetDeadline(time.Now().Add(60 * time.Second))
	return &rtspc{t: t, c: c, r: bufio.NewReader(c)}
}

// req sends a request and returns the status and the whole response;
// interleaved packets that come first are skipped.
func (k *rtspc) req(method, url, headers, body string) (int, string) {
	k.cseq++
	if body != "" {
		headers += fmt.Sprintf("Content-Length: %d\r\n", len(body))
	}
	fmt.Fprintf(k.c, "%s %s RTSP/1.0\r\nCSeq: %d\r\n%s\r\n%s", method, url, k.cseq, headers, body)
	for {
		b, err := k.r.Peek(1)
		if err != nil {
			return 0, ""
		}
		if b[0] == '$' {
			k.packet()
			continue
		}
		var head string
		n := 0
		for {
			l, err := k.r.ReadString('\n')
			if err != nil {
				return 0, head
			}
			head += l
			fmt.Sscanf(l, "Content-Length: %d", &n)
			if l == "\r\n" {
				break
			}
		}
		b = make([]byte, n)
		io.ReadFull(k.r, b)
		var st int
		fmt.Sscanf(head, "RTSP/1.0 %d", &st)
		return st, head + string(b)
	}
}

// packet reads one interleaved packet.
func (k *rtspc) packet() (ch byte, b []byte, ok bool) {
	h := make([]byte, 4)
	if _, err := io.ReadFull(k.r, h); err != nil || h[0] != '$' {
		return 0, nil, false
	}
	b = make([]byte, int(h[2])<<8|int(h[3]))
	if _, err := io.ReadFull(k.r, b); err != nil {
		return 0, nil, false
	}
	return h[1], b, true
}
