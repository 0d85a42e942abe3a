package wire

import (
	"bufio"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/harness/ref"
)

// RTSPResp is a response.
type RTSPResp struct {
	Status int
	Header map[string]string // lower-case names
	Body   []byte
}

// RTSPFrame is one interleaved frame (Chan >= 0) or one UDP packet received
// on the socket of track -1-Chan.
type RTSPFrame struct {
	Chan int
	Data []byte
	From int // UDP: the sender's port
	Seq  int // responses received before it
}

// RTSP is one RTSP connection.
type RTSP struct {
	NC      net.Conn
	Session string
	Splits  []int // segment lengths of what is written next
	cseq    int
	wmu     sync.Mutex

	mu     sync.Mutex
	cond   *sync.Cond
	resps  []RTSPResp
	frames []RTSPFrame
	err    error
	done   bool
	udp    []*net.UDPConn
}

// RTSPFormatError is malformed output of the server.
type RTSPFormatError struct{ Msg string }

func (e *RTSPFormatError) Error() string { return e.Msg }

// DialRTSP connects from the server's own address, so that UDP sockets of the
// same address can be used.
func DialRTSP(s *Server) (*RTSP, error) {
	d := net.Dialer{Timeout: Wait, LocalAddr: &net.TCPAddr{IP: net.ParseIP(s.IP)}}
	nc, err := d.Dial("tcp", s.RTSP)
	if err != nil {
		return nil, err
	}
	return DialRTSPOn(nc), nil
}

// DialRTSPOn is DialRTSP for a connection that exists.
func DialRTSPOn(nc net.Conn) *RTSP {
	r := &RTSP{NC: nc}
	r.cond = sync.NewCond(&r.mu)
	go r.read()
	return r
}

func (r *RTSP) read() {
	br := bufio.NewReaderSize(r.NC, 1<<16)
	var err error
	for {
		var b byte
		if b, err = br.ReadByte(); err != nil {
			break
		}
		if b == '$' {
			var h [3]byte
			if _, err = io.ReadFull(br, h[:]); err != nil {
				break
			}
			d := make([]byte, binary.BigEndian.Uint16(h[1:]))
			if _, err = io.ReadFull(br, d); err != nil {
				break
			}
			r.mu.Lock()
			r.frames = append(r.frames, RTSPFrame{Chan: int(h[0]), Data: d, Seq: len(r.resps)})
			r.cond.Broadcast()
			r.mu.Unlock()
			continue
		}
		br.UnreadByte()
		var p RTSPResp
		if p, err = readRTSPResp(br); err != nil {
			break
		}
		r.mu.Lock()
		r.resps = append(r.resps, p)
		r.cond.Broadcast()
		r.mu.Unlock()
	}
	r.mu.Lock()
	r.err, r.done = err, true
	r.cond.Broadcast()
	r.mu.Unlock()
}

func readRTSPResp(br *bufio.Reader) (p RTSPResp, err error) {
	line := func() (string, error) {
		l, err := br.ReadString('\n')
		if err != nil {
			return "", err
		}
		if !strings.HasSuffix(l, "\r\n") {
			return "", &RTSPFormatError{fmt.Sprintf("line %q does not end with CRLF", l)}
		}
		return strings.TrimSuffix(l, "\r\n"), nil
	}
	l, err := line()
	if err != nil {
		return p, err
	}
	f := strings.SplitN(l, " ", 3)
	if len(f) < 3 || f[0] != "RTSP/1.0" {
		return p, &RTSPFormatError{fmt.Sprintf("status line %q", l)}
	}
	if p.Status, err = strconv.Atoi(f[1]); err != nil || p.Status < 100 || p.Status > 599 {
		return p, &RTSPFormatError{fmt.Sprintf("status line %q", l)}
	}
	p.Header = map[string]string{}
	for {
		l, err := line()
		if err != nil {
			return p, err
		}
		if l == "" {
			break
		}
		k, v, ok := strings.Cut(l, ":")
		if !ok {
			return p, &RTSPFormatError{fmt.Sprintf("header line %q", l)}
		}
		p.Header[strings.ToLower(k)] = strings.TrimSpace(v)
	}
	if cl := p.Header["content-length"]; cl != "" {
		n, err := strconv.Atoi(cl)
		if err != nil || n < 0 || n > 1<<24 {
			return p, &RTSPFormatError{fmt.Sprintf("content length %q", cl)}
		}
		p.Body = make([]byte, n)
		if _, err := io.ReadFull(br, p.Body); err != nil {
			return p, err
		}
	}
	return p, nil
}

// Write sends raw bytes, split as Splits says.
func (r *RTSP) Write(b []byte) error {
	r.wmu.Lock()
	defer r.wmu.Unlock()
	r.NC.SetWriteDeadline(time.Now().Add(Wait))
	for len(b) > 0 {
		k := len(b)
		if len(r.Splits) > 0 {
			if r.Splits[0] > 0 {
				k = min(k, r.Splits[0])
			}
			r.Splits = r.Splits[1:]
			time.Sleep(100 * time.Microsecond)
		}
		if _, err := r.NC.Write(b[:k]); err != nil {
			return err
		}
		b = b[k:]
	}
	return nil
}

// Build makes a request.
func (r *RTSP) Build(method, url, headers string, body []byte) []byte {
	r.cseq++
	s := fmt.Sprintf("%s %s RTSP/1.0\r\nCSeq: %d\r\n%s", method, url, r.cseq, headers)
	if r.Session != "" {
		s += "Session: " + r.Session + "\r\n"
	}
	if body != nil {
		s += fmt.Sprintf("Content-Length: %d\r\n", len(body))
	}
	return append([]byte(s+"\r\n"), body...)
}

// Request sends a request and waits for its response. headers are complete
// lines.
func (r *RTSP) Request(method, url, headers string, body []byte) (p RTSPResp, err error) {
	r.mu.Lock()
	n := len(r.resps)
	r.mu.Unlock()
	b := r.Build(method, url, headers, body)
	want := r.cseq
	if err = r.Write(b); err != nil {
		return p, fmt.Errorf("%s: %w", method, err)
	}
	ok := waitCond(&r.mu, r.cond, Wait, func() (bool, bool) { return len(r.resps) > n, r.done })
	r.mu.Lock()
	defer r.mu.Unlock()
	if !ok {
		return p, fmt.Errorf("%s: no response (%v)", method, r.err)
	}
	p = r.resps[n]
	if p.Header["cseq"] != strconv.Itoa(want) {
		return p, fmt.Errorf("%s: the response carries CSeq %q, the request %d", method, p.Header["cseq"], want)
	}
	if s := p.Header["session"]; s != "" && p.Status == 200 {
		id, _, _ := strings.Cut(s, ";")
		if r.Session != "" && r.Session != id {
			return p, fmt.Errorf("%s: the session changes from %s to %s", method, r.Session, id)
		}
		r.Session = id
	}
	return p, nil
}

// URL of a stream.
func (s *Server) RTSPURL(app, name string) string {
	return "rtsp://" + s.RTSP + "/" + app + "/" + name
}

// Drop forgets the frames received so far.
func (r *RTSP) Drop() {
	r.mu.Lock()
	r.frames = nil
	r.mu.Unlock()
}

// Frames returns what was received so far.
func (r *RTSP) Frames() []RTSPFrame {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.frames[:len(r.frames):len(r.frames)]
}

// WaitFrames waits until pred holds for the frames received.
func (r *RTSP) WaitFrames(d time.Duration, pred func([]RTSPFrame) bool) bool {
	return waitCond(&r.mu, r.cond, d, func() (bool, bool) { return pred(r.frames), r.done })
}

// WaitClosed waits for the end of the connection.
func (r *RTSP) WaitClosed(d time.Duration) bool {
	return waitCond(&r.mu, r.cond, d, func() (bool, bool) { return r.done, r.done })
}

// End tells whether the connection is over, and whether it was malformed.
func (r *RTSP) End() (bool, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	var fe *RTSPFormatError
	if errors.As(r.err, &fe) {
		return r.done, fmt.Errorf("RTSP: %w", r.err)
	}
	return r.done, nil
}

func (r *RTSP) Close() {
	r.NC.Close()
	for _, u := range r.udp {
		u.Close()
	}
}

// Reset closes with a TCP reset.
func (r *RTSP) Reset() {
	if t, ok := r.NC.(*net.TCPConn); ok {
		t.SetLinger(0)
	}
	r.Close()
}

// OpenUDP opens an even/odd pair of UDP sockets; packets for the first one are
// recorded as frames of channel -1-track.
func (r *RTSP) OpenUDP(s *Server, track int) (port int, sock *net.UDPConn, err error) {
	ip := net.ParseIP(s.IP)
	for i := 0; i < 50; i++ {
		a, e := net.ListenUDP("udp", &net.UDPAddr{IP: ip})
		if e != nil {
			return 0, nil, e
		}
		p := a.LocalAddr().(*net.UDPAddr).Port
		if p%2 == 1 {
			a.Close()
			continue
		}
		b, e := net.ListenUDP("udp", &net.UDPAddr{IP: ip, Port: p + 1})
		if e != nil {
			a.Close()
			continue
		}
		a.SetReadBuffer(1 << 20)
		r.udp = append(r.udp, a, b)
		go func() {
			buf := make([]byte, 65536)
			for {
				n, from, err := a.ReadFromUDP(buf)
				if err != nil {
					return
				}
				r.mu.Lock()
				r.frames = append(r.frames, RTSPFrame{Chan: -1 - track, Data: append([]byte(nil), buf[:n]...), From: from.Port, Seq: len(r.resps)})
				r.cond.Broadcast()
				r.mu.Unlock()
			}
		}()
		return p, a, nil
	}
	return 0, nil, errors.New("no UDP port pair")
}

// Interleave frames an RTP packet.
func Interleave(ch int, p []byte) []byte {
	return append([]byte{'$', byte(ch), byte(len(p) >> 8), byte(len(p))}, p...)
}

// AnnounceSDP describes an H.264 and an AAC track (either may be nil).
func AnnounceSDP(sps, pps, asc []byte, rate, chans int) []byte {
	return AnnounceSDPControl(sps, pps, asc, rate, chans, "streamid=0", "streamid=1")
}

// AnnounceSDPControl is AnnounceSDP with the given control attributes.
func AnnounceSDPControl(sps, pps, asc []byte, rate, chans int, vctl, actl string) []byte {
	s := "v=0\r\no=- 1 1 IN IP4 127.0.0.1\r\ns=check\r\nc=IN IP4 0.0.0.0\r\nt=0 0\r\na=control:*\r\n"
	if sps != nil {
		s += "m=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\na=fmtp:96 packetization-mode=1; sprop-parameter-sets=" +
			base64.StdEncoding.EncodeToString(sps) + "," + base64.StdEncoding.EncodeToString(pps) + fmt.Sprintf("; profile-level-id=%02X%02X%02X", sps[1], sps[2], sps[3]) + "\r\na=control:" + vctl + "\r\n"
	}
	if asc != nil {
		s += fmt.Sprintf("m=audio 0 RTP/AVP 97\r\na=rtpmap:97 MPEG4-GENERIC/%d/%d\r\na=fmtp:97 profile-level-id=1;mode=AAC-hbr;sizelength=13;indexlength=3;indexdeltalength=3;config=%s\r\na=control:%s\r\n", rate, chans, hex.EncodeToString(asc), actl)
	}
	return []byte(s)
}

// ---------------------------------------------------------- RTP tracks ----

// Track collects the access units of one RTP track from frames.
type Track struct {
	Chan   int
	PT     byte
	HEVC   bool
	AAC    bool
	Opus   bool
	Port   int // UDP: expected sender port, 0 = any
	Seq    uint16
	SSRC   uint32
	n      int
	cur    [][]byte
	curTS  uint32
	pkts   int
	Units  []TrackUnit
	frames int // frames looked at
}

// TrackUnit is one received access unit (its NAL units) or audio frame.
type TrackUnit struct {
	NALs [][]byte
	TS   uint32
	At   int // index of its last packet among all frames
}

// Feed takes the frames received so far.
func (t *Track) Feed(fs []RTSPFrame) error {
	for ; t.frames < len(fs); t.frames++ {
		f := fs[t.frames]
		if f.Chan != t.Chan {
			continue
		}
		if t.Port != 0 && f.From != t.Port {
			return fmt.Errorf("packet from port %d, negotiated server port %d", f.From, t.Port)
		}
		p, err := ref.ParseRTP(f.Data)
		if err != nil {
			return err
		}
		if p.PT != t.PT {
			return fmt.Errorf("payload type %d, the description says %d", p.PT, t.PT)
		}
		if t.n > 0 && (p.Seq != t.Seq+1 || p.SSRC != t.SSRC) {
			return fmt.Errorf("packet %d: sequence %d after %d, source %x after %x", t.n, p.Seq, t.Seq, p.SSRC, t.SSRC)
		}
		t.Seq, t.SSRC = p.Seq, p.SSRC
		t.n++
		switch {
		case t.AAC:
			us, err := ref.DepayAAC(p.Payload)
			if err != nil {
				return err
			}
			if len(us) != 1 || !p.Marker {
				return fmt.Errorf("audio packet of %d frames, marker %v", len(us), p.Marker)
			}
			t.Units = append(t.Units, TrackUnit{us, p.TS, t.frames})
		case t.Opus:
			t.Units = append(t.Units, TrackUnit{[][]byte{p.Payload}, p.TS, t.frames})
		default:
			if len(t.cur) > 0 && p.TS != t.curTS {
				return fmt.Errorf("packet %d: timestamp changes from %d to %d inside an access unit", t.n, t.curTS, p.TS)
			}
			t.curTS = p.TS
			t.cur = append(t.cur, p.Payload)
			if len(p.Payload) > 1500 {
				return fmt.Errorf("packet %d: payload of %d bytes", t.n, len(p.Payload))
			}
			if p.Marker {
				ns, err := ref.DepayNALs(t.HEVC, t.cur)
				if err != nil {
					return err
				}
				t.Units = append(t.Units, TrackUnit{ns, p.TS, t.frames})
				t.cur = nil
			}
		}
	}
	return nil
}
