// Package wire runs the real server inside the checking process and talks to
// it over loopback sockets with independent protocol clients.
package wire

import (
	"bufio"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sbraveyoung/GGmpeg/libhls"
	"github.com/sbraveyoung/GGmpeg/librtmp"

	"verif/harness/eng"
	"verif/harness/ref"
)

// Wait is how long something that has to happen may take.
const Wait = 20 * time.Second

// Grace is how long we look for something that must not happen.
const Grace = 60 * time.Millisecond

// Options select what the server offers.
type Options struct {
	HLS, DASH, RTSP, SRT bool
	HLSMode              libhls.HLS_MODE
	Modes                map[string]libhls.HLS_MODE // by application
	Dir                  string
	Pulls                [][3]string // url, app, stream
}

// Server is the server under test.
type Server struct {
	IP                        string
	RTMP, FLV, HLS, RTSP, SRT string
	Dir                       string
}

var (
	once sync.Once
	srv  *Server
	serr error
	seq  int64
)

// IP is an address of the loopback network that belongs to this process.
func IP() string {
	p := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d", 64+(p>>16)&0x3f, (p>>8)&0xff, p&0xff)
}

// Apps are the applications the server has.
var Apps = []string{"live", "app2"}

// Start starts the server of this process (once).
func Start(o Options) (*Server, error) {
	once.Do(func() {
		ip := IP()
		dir := o.Dir
		if dir == "" {
			wd, _ := os.Getwd()
			dir = filepath.Join(wd, "hls")
		}
		srv = &Server{IP: ip, RTMP: ip + ":21935", FLV: ip + ":21936", HLS: ip + ":21937", RTSP: ip + ":21938", SRT: ip + ":21939", Dir: dir}
		s := librtmp.NewServer(srv.RTMP, Apps...).WithHTTPFlv(srv.FLV)
		for _, a := range Apps {
			s.SetHlsDir(a, dir)
		}
		ports := []string{srv.FLV}
		if o.HLS {
			s.WithHls(srv.HLS)
			ports = append(ports, srv.HLS)
			if o.HLSMode != 0 {
				for _, a := range Apps {
					s.SetHlsMode(a, o.HLSMode)
				}
			}
			for a, m := range o.Modes {
				s.SetHlsMode(a, m)
			}
			if o.DASH {
				s.WithDASH()
			}
		}
		if o.RTSP {
			s.WithRTSP(srv.RTSP)
			ports = append(ports, srv.RTSP)
		}
		if o.SRT {
			s.WithSRT(srv.SRT, "live", "srt")
		}
		for _, p := range o.Pulls {
			s.WithRTMPPull(p[0], p[1], p[2])
		}
		go func() {
			err := s.Handler()
			fmt.Fprintln(os.Stderr, "server handler returned:", err)
			os.Exit(96)
		}()
		deadline := time.Now().Add(Wait)
		for _, p := range append(ports, srv.RTMP) {
			for {
				c, err := net.DialTimeout("tcp", p, time.Second)
				if err == nil {
					c.Close()
					break
				}
				if time.Now().After(deadline) {
					serr = fmt.Errorf("%w: server did not start: %v", eng.ErrInconclusive, err)
					return
				}
				time.Sleep(5 * time.Millisecond)
			}
		}
		eng.ServerUp()
	})
	return srv, serr
}

// Name returns a stream name not used before in this process.
func Name() string { return fmt.Sprintf("s%d", atomic.AddInt64(&seq, 1)) }

// ---------------------------------------------------------- RTMP client ----

// Client is one RTMP connection to the server.
type Client struct {
	NC   net.Conn
	R    *ref.ChunkReader
	Size int // chunk size we send with
	CSID uint32

	wmu  sync.Mutex
	Sent int64

	mu   sync.Mutex
	cond *sync.Cond
	msgs []ref.RMsg
	pos  []int64
	err  error
	done bool
}

func newClient(nc net.Conn) *Client {
	c := &Client{NC: nc, Size: 128, CSID: 3}
	c.cond = sync.NewCond(&c.mu)
	c.R = &ref.ChunkReader{R: bufio.NewReaderSize(nc, 1<<16), MaxMsg: 1 << 24}
	return c
}

// Accepted is the server side of a connection somebody else made, read
// through br.
func Accepted(nc net.Conn, br *bufio.Reader) *Client {
	c := newClient(nc)
	c.R.R = br
	return c
}

// DialRaw connects without a handshake.
func DialRaw(addr string) (*Client, error) {
	nc, err := net.DialTimeout("tcp", addr, Wait)
	if err != nil {
		return nil, err
	}
	return newClient(nc), nil
}

// Dial connects and does a plain handshake.
func Dial(addr string) (*Client, error) {
	nc, err := net.DialTimeout("tcp", addr, Wait)
	if err != nil {
		return nil, err
	}
	return DialOn(nc)
}

// DialOn is Dial for a connection that exists.
func DialOn(nc net.Conn) (*Client, error) {
	c := newClient(nc)
	if err := c.Handshake(); err != nil {
		c.NC.Close()
		return nil, err
	}
	c.Run()
	return c, nil
}

// Handshake does the plain client handshake.
func (c *Client) Handshake() error {
	c0c1 := append([]byte{3, 0, 0, 0, 1, 0, 0, 0, 0}, ref.Fill(uint32(time.Now().UnixNano()), 1528)...)
	if err := c.Write(c0c1); err != nil {
		return err
	}
	c.NC.SetReadDeadline(time.Now().Add(Wait))
	s := make([]byte, 1+1536*2)
	if _, err := io.ReadFull(c.R.R, s); err != nil {
		return fmt.Errorf("handshake: %w", err)
	}
	c.NC.SetReadDeadline(time.Time{})
	if s[0] != 3 {
		return fmt.Errorf("handshake: version %d", s[0])
	}
	return c.Write(s[1:1537])
}

// Run starts reading messages.
func (c *Client) Run() {
	go func() {
		for {
			m, err := c.R.Read()
			c.mu.Lock()
			if err != nil {
				c.err, c.done = err, true
				c.cond.Broadcast()
				c.mu.Unlock()
				return
			}
			c.msgs = append(c.msgs, *m)
			c.pos = append(c.pos, c.R.Pos)
			c.cond.Broadcast()
			c.mu.Unlock()
		}
	}()
}

// Write sends raw bytes.
func (c *Client) Write(b []byte) error {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	c.NC.SetWriteDeadline(time.Now().Add(Wait))
	n, err := c.NC.Write(b)
	atomic.AddInt64(&c.Sent, int64(n))
	return err
}

// Send sends one message.
func (c *Client) Send(m ref.RMsg) error {
	return c.Write(ref.EncodeMsg(m, c.Size))
}

// Command sends one AMF0 command.
func (c *Client) Command(vals ...ref.AVal) error {
	return c.Send(ref.RMsg{CSID: c.CSID, Type: 20, Data: ref.AMFEncode(vals...)})
}

// Msgs returns what was received so far.
func (c *Client) Msgs() []ref.RMsg {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.msgs[:len(c.msgs):len(c.msgs)]
}

// Closed tells whether the connection ended, and how.
func (c *Client) Closed() (bool, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.done, c.err
}

// Close closes the connection.
func (c *Client) Close() { c.NC.Close() }

// Reset closes the connection with a TCP reset.
func (c *Client) Reset() {
	if t, ok := c.NC.(*net.TCPConn); ok {
		t.SetLinger(0)
	}
	c.NC.Close()
}

// WaitFor waits until pred holds for the messages received. It returns false
// when the connection ended or time is up.
func (c *Client) WaitFor(d time.Duration, pred func([]ref.RMsg) bool) bool {
	return waitCond(&c.mu, c.cond, d, func() (bool, bool) { return pred(c.msgs), c.done })
}

// WaitClosed waits until the server closes the connection.
func (c *Client) WaitClosed(d time.Duration) bool {
	return waitCond(&c.mu, c.cond, d, func() (bool, bool) { return c.done, c.done })
}

func waitCond(mu *sync.Mutex, cond *sync.Cond, d time.Duration, st func() (ok, done bool)) bool {
	deadline := time.Now().Add(d)
	t := time.AfterFunc(d+time.Millisecond, func() { mu.Lock(); cond.Broadcast(); mu.Unlock() })
	defer t.Stop()
	mu.Lock()
	defer mu.Unlock()
	for {
		ok, done := st()
		if ok {
			return true
		}
		if done || !time.Now().Before(deadline) {
			return false
		}
		cond.Wait()
	}
}

// Cmd is a decoded command message.
type Cmd struct {
	Name string
	Txn  float64
	Args []ref.AVal
	Msg  ref.RMsg
}

// Code returns the status code of a onStatus, _result or _error.
func (c Cmd) Code() string {
	for _, a := range c.Args {
		if a.K == ref.AObj || a.K == ref.AEcma {
			if v, ok := a.Get("code"); ok {
				return v.Str()
			}
		}
	}
	return ""
}

// Level is the status level.
func (c Cmd) Level() string {
	for _, a := range c.Args {
		if a.K == ref.AObj || a.K == ref.AEcma {
			if v, ok := a.Get("level"); ok {
				return v.Str()
			}
		}
	}
	return ""
}

// Cmds decodes the commands among msgs.
func Cmds(msgs []ref.RMsg) (out []Cmd, err error) {
	for _, m := range msgs {
		if m.Type != 20 {
			continue
		}
		v, e := ref.AMFDecode(m.Data)
		if e != nil {
			return out, fmt.Errorf("command message % x is no AMF0: %w", m.Data, e)
		}
		if len(v) < 2 || v[0].K != ref.AStr || v[1].K != ref.ANum {
			return out, fmt.Errorf("malformed command %v", v)
		}
		out = append(out, Cmd{v[0].Str(), v[1].F(), v[2:], m})
	}
	return out, nil
}

// Last returns the last received command for which pred holds.
func (c *Client) Find(pred func(Cmd) bool) (Cmd, bool) {
	cs, _ := Cmds(c.Msgs())
	for i := len(cs) - 1; i >= 0; i-- {
		if pred(cs[i]) {
			return cs[i], true
		}
	}
	return Cmd{}, false
}

// Await waits for a command for which pred holds among those after index from.
func (c *Client) Await(from int, d time.Duration, pred func(Cmd) bool) (Cmd, bool) {
	var got Cmd
	ok := c.WaitFor(d, func(ms []ref.RMsg) bool {
		cs, _ := Cmds(ms[from:])
		for _, x := range cs {
			if pred(x) {
				got = x
				return true
			}
		}
		return false
	})
	return got, ok
}

// Connect does the connect command.
func (c *Client) Connect(app string) error {
	if err := c.Command(ref.AS("connect"), ref.AN(1), ref.AO("app", ref.AS(app), "flashVer", ref.AS("LNX 9,0,124,2"), "tcUrl", ref.AS("rtmp://localhost/"+app), "objectEncoding", ref.AN(0))); err != nil {
		return err
	}
	if _, ok := c.Await(0, Wait, func(x Cmd) bool { return x.Txn == 1 && x.Name == "_result" }); !ok {
		return errors.New("connect got no _result")
	}
	return nil
}

// Publish does createStream and publish; it returns the status code.
func (c *Client) Publish(name string) (string, error) {
	from := len(c.Msgs())
	if err := c.Command(ref.AS("createStream"), ref.AN(4), ref.ANil()); err != nil {
		return "", err
	}
	if err := c.Command(ref.AS("publish"), ref.AN(5), ref.ANil(), ref.AS(name), ref.AS("live")); err != nil {
		return "", err
	}
	x, ok := c.Await(from, Wait, func(x Cmd) bool { return x.Name == "onStatus" && strings.HasPrefix(x.Code(), "NetStream.Publish.") })
	if !ok {
		return "", errors.New("publish got no status")
	}
	return x.Code(), nil
}

// Play does createStream and play; it returns the first play status code.
func (c *Client) Play(name string) (string, error) {
	from := len(c.Msgs())
	if err := c.Command(ref.AS("createStream"), ref.AN(6), ref.ANil()); err != nil {
		return "", err
	}
	if err := c.Command(ref.AS("play"), ref.AN(7), ref.ANil(), ref.AS(name)); err != nil {
		return "", err
	}
	x, ok := c.Await(from, Wait, func(x Cmd) bool { return x.Name == "onStatus" && strings.HasPrefix(x.Code(), "NetStream.Play.") })
	if !ok {
		return "", errors.New("play got no status")
	}
	return x.Code(), nil
}

// Publisher connects and publishes.
func Publisher(s *Server, app, name string) (*Client, error) {
	c, err := Dial(s.RTMP)
	if err != nil {
		return nil, err
	}
	if err := c.Connect(app); err != nil {
		c.Close()
		return nil, err
	}
	code, err := c.Publish(name)
	if err == nil && code != "NetStream.Publish.Start" {
		err = fmt.Errorf("publishing %q: %s", name, code)
	}
	if err != nil {
		c.Close()
		return nil, err
	}
	return c, nil
}

// Player connects and plays.
func Player(s *Server, app, name string) (*Client, error) {
	nc, err := net.DialTimeout("tcp", s.RTMP, Wait)
	if err != nil {
		return nil, err
	}
	return PlayerOn(nc, app, name)
}

// PlayerOn is Player for a connection that exists.
func PlayerOn(nc net.Conn, app, name string) (*Client, error) {
	c, err := DialOn(nc)
	if err != nil {
		return nil, err
	}
	if err := c.Connect(app); err != nil {
		c.Close()
		return nil, err
	}
	code, err := c.Play(name)
	if err == nil && code == "NetStream.Play.StreamNotFound" {
		err = fmt.Errorf("playing %q: %s", name, code)
	}
	if err != nil {
		c.Close()
		return nil, err
	}
	return c, nil
}

// Drop forgets the messages received so far.
func (c *Client) Drop() {
	c.mu.Lock()
	c.msgs, c.pos = nil, nil
	c.mu.Unlock()
}

// Drop forgets the tags received so far.
func (v *FLV) Drop() {
	v.mu.Lock()
	v.tags = nil
	v.mu.Unlock()
}

// Drop forgets what was received so far.
func (v *WS) Drop() {
	v.FLV.Drop()
	v.fmu.Lock()
	v.frames = nil
	v.fmu.Unlock()
}

// Media returns the media messages a client received.
func (c *Client) Media() (out []ref.FTag) {
	for _, m := range c.Msgs() {
		if m.Type == 8 || m.Type == 9 || m.Type == 18 {
			out = append(out, m.Tag())
		}
	}
	return out
}

// End tells whether the session is over, with the format error if any.
func (c *Client) End() (bool, error) {
	done, err := c.Closed()
	var ce *ref.ChunkError
	if errors.As(err, &ce) {
		return done, fmt.Errorf("RTMP player: %w", err)
	}
	return done, nil
}

// WaitMedia waits until pred holds for the media received.
func (c *Client) WaitMedia(d time.Duration, pred func([]ref.FTag) bool) bool {
	return c.WaitFor(d, func(ms []ref.RMsg) bool {
		var out []ref.FTag
		for _, m := range ms {
			if m.Type == 8 || m.Type == 9 || m.Type == 18 {
				out = append(out, m.Tag())
			}
		}
		return pred(out)
	})
}

// ------------------------------------------------------------- viewers ----

// Viewer receives the media of a stream.
type Viewer interface {
	Media() []ref.FTag
	WaitMedia(d time.Duration, pred func([]ref.FTag) bool) bool
	End() (bool, error) // over? malformed?
	Close()
}

// FLV is an HTTP-FLV viewer.
type FLV struct {
	Status int
	NC     net.Conn
	Header http.Header
	Flags  byte

	mu   sync.Mutex
	cond *sync.Cond
	tags []ref.FTag
	err  error
	done bool
}

// GetFLV opens an HTTP-FLV stream.
func GetFLV(s *Server, app, name string) (*FLV, error) {
	return GetFLVPath(s, "/"+app+"/"+name+".flv")
}

// GetFLVPath is GetFLV for a raw request path.
func GetFLVPath(s *Server, path string) (*FLV, error) {
	nc, err := net.DialTimeout("tcp", s.FLV, Wait)
	if err != nil {
		return nil, err
	}
	return GetFLVOn(nc, path)
}

// GetFLVOn is GetFLVPath for a connection that exists.
func GetFLVOn(nc net.Conn, path string) (*FLV, error) {
	fmt.Fprintf(nc, "GET %s HTTP/1.1\r\nHost: x\r\n\r\n", path)
	nc.SetReadDeadline(time.Now().Add(Wait))
	br := bufio.NewReaderSize(nc, 1<<16)
	resp, err := http.ReadResponse(br, nil)
	if err != nil {
		nc.Close()
		return nil, fmt.Errorf("HTTP-FLV response: %w", err)
	}
	v := &FLV{Status: resp.StatusCode, NC: nc, Header: resp.Header}
	v.cond = sync.NewCond(&v.mu)
	if resp.StatusCode != 200 {
		nc.Close()
		v.done = true
		return v, nil
	}
	nc.SetReadDeadline(time.Time{})
	fr := &ref.FLVReader{R: resp.Body}
	go v.read(fr)
	return v, nil
}

func (v *FLV) read(fr *ref.FLVReader) {
	fl, err := fr.ReadHeader()
	v.mu.Lock()
	v.Flags = fl
	if err != nil {
		v.err, v.done = &ref.FLVFormatError{Msg: "header: " + err.Error()}, true
		v.cond.Broadcast()
		v.mu.Unlock()
		return
	}
	v.mu.Unlock()
	for {
		t, err := fr.Read()
		v.mu.Lock()
		if err != nil {
			v.err, v.done = err, true
			v.cond.Broadcast()
			v.mu.Unlock()
			return
		}
		v.tags = append(v.tags, t)
		v.cond.Broadcast()
		v.mu.Unlock()
	}
}

func (v *FLV) Media() []ref.FTag {
	v.mu.Lock()
	defer v.mu.Unlock()
	return v.tags[:len(v.tags):len(v.tags)]
}

func (v *FLV) WaitMedia(d time.Duration, pred func([]ref.FTag) bool) bool {
	return waitCond(&v.mu, v.cond, d, func() (bool, bool) { return pred(v.tags), v.done })
}

func (v *FLV) End() (bool, error) {
	v.mu.Lock()
	defer v.mu.Unlock()
	var fe *ref.FLVFormatError
	if errors.As(v.err, &fe) {
		return v.done, fmt.Errorf("FLV viewer: %w", v.err)
	}
	return v.done, nil
}

// EndErr is the raw error the stream ended with.
func (v *FLV) EndErr() error {
	v.mu.Lock()
	defer v.mu.Unlock()
	return v.err
}

func (v *FLV) Close() { v.NC.Close() }

// WaitEnd waits until the stream of a viewer is over.
func WaitEnd(v Viewer, d time.Duration) bool {
	deadline := time.Now().Add(d)
	for {
		v.WaitMedia(50*time.Millisecond, func([]ref.FTag) bool { return false })
		if done, _ := v.End(); done {
			return true
		}
		if time.Now().After(deadline) {
			return false
		}
	}
}

// --------------------------------------------------------- comparison ----

// Pub is one published message.
type Pub struct {
	ref.FTag
	Meta *ref.AVal // metadata is compared by its properties
}

// Header kinds.
const (
	NotHeader = -1
	HMeta     = 0
	HVideo    = 1
	HAudio    = 2
)

// Kind tells which header a message is.
func (p Pub) Kind() int {
	if p.Meta != nil {
		return HMeta
	}
	return KindOf(p.FTag)
}

// KindOf tells which header a media tag is.
func KindOf(t ref.FTag) int {
	switch t.Type {
	case 9:
		if len(t.Data) >= 5 && t.Data[0]>>4 == 1 && isAVC(t.Data[0]) && t.Data[1] == 0 {
			return HVideo
		}
	case 8:
		if len(t.Data) >= 2 && (t.Data[0]>>4 == 10 || t.Data[0]>>4 == 13) && t.Data[1] == 0 {
			return HAudio
		}
	}
	return NotHeader
}

func isAVC(b byte) bool { c := b & 15; return c == 7 || c == 12 || c == 13 }

// Key tells whether the message is a video keyframe.
func (p Pub) Key() bool {
	d := p.Data
	if p.Type != 9 || len(d) == 0 || d[0]>>4 != 1 {
		return false
	}
	return !isAVC(d[0]) || (len(d) >= 5 && d[1] == 1)
}

// Same compares a received tag with a published message.
func (p Pub) Same(t ref.FTag) error {
	if p.Type != t.Type {
		return fmt.Errorf("type %d, published %d", t.Type, p.Type)
	}
	if p.TS != t.TS {
		return fmt.Errorf("timestamp %d, published %d", t.TS, p.TS)
	}
	if p.Meta != nil {
		v, err := ref.AMFDecode(t.Data)
		if err != nil {
			return fmt.Errorf("metadata is no AMF0: %w", err)
		}
		if len(v) != 2 || v[0].K != ref.AStr || v[0].Str() != "onMetaData" {
			return fmt.Errorf("metadata is not onMetaData and its properties: %v", v)
		}
		return ref.MetaContains(v[1], *p.Meta)
	}
	if len(p.Data) != len(t.Data) {
		return fmt.Errorf("%d bytes, published %d", len(t.Data), len(p.Data))
	}
	for i := range p.Data {
		if p.Data[i] != t.Data[i] {
			return fmt.Errorf("byte %d of %d is %#x, published %#x", i, len(p.Data), t.Data[i], p.Data[i])
		}
	}
	return nil
}

// CheckRun decides whether got is what a viewer of pub may have received:
// the headers in force at its starting point, then every message from there
// to the end. joined is the number of messages certainly published when the
// viewer started (it must not start later); -1 if unknown.
func CheckRun(got []ref.FTag, pub []Pub, joined int) (start int, err error) {
	var first error
	for h := 0; h <= 3 && h <= len(got); h++ {
		i := len(pub) - (len(got) - h)
		if i < 0 {
			continue
		}
		if i > len(pub) {
			break
		}
		e := tryRun(got, pub, h, i, joined)
		if e == nil {
			return i, nil
		}
		if first == nil || h == nHeaders(got) {
			first = e
		}
	}
	if first == nil {
		first = fmt.Errorf("received %d messages, only %d were published", len(got), len(pub))
	}
	return 0, first
}

func nHeaders(got []ref.FTag) int {
	n := 0
	for n < len(got) && n < 3 && (got[n].Type == 18 || KindOf(got[n]) != NotHeader) {
		n++
	}
	return n
}

func tryRun(got []ref.FTag, pub []Pub, h, i, joined int) error {
	if joined >= 0 && i > joined {
		return fmt.Errorf("starts at message %d although %d messages were published before it joined", i, joined)
	}
	if i > 0 && h == 0 && false {
		return nil
	}
	// headers
	var force [3]*Pub
	for k := 0; k < i; k++ {
		if n := pub[k].Kind(); n != NotHeader {
			force[n] = &pub[k]
		}
	}
	var seen [3]bool
	for k := 0; k < h; k++ {
		n := -1
		var e error
		for c := range force {
			if force[c] == nil || seen[c] {
				continue
			}
			if e2 := force[c].Same(got[k]); e2 == nil {
				n = c
				break
			} else if force[c].Type == got[k].Type {
				e = e2
			}
		}
		if n < 0 {
			return fmt.Errorf("message %d %v is no header in force at the start (message %d): %v", k, got[k], i, e)
		}
		seen[n] = true
	}
	for c := range force {
		if force[c] != nil && !seen[c] {
			return fmt.Errorf("header of kind %d in force at the start (message %d) is missing", c, i)
		}
	}
	if i > 0 && i < len(pub) && !pub[i].Key() {
		for k := 0; k < i; k++ {
			if pub[k].Key() {
				return fmt.Errorf("starts at message %d, which is no keyframe", i)
			}
		}
	}
	for k := i; k < len(pub); k++ {
		if e := pub[k].Same(got[h+k-i]); e != nil {
			return fmt.Errorf("received message %d %v: expected published message %d: %v", h+k-i, got[h+k-i], k, e)
		}
	}
	return nil
}

// ------------------------------------------------------------ WebSocket ----

// WSFrame is one frame of the server.
type WSFrame struct {
	Op      byte
	Payload []byte
}

// WS is a WebSocket-FLV viewer.
type WS struct {
	FLV
	fmu    sync.Mutex
	frames []WSFrame
	werr   error
	wmu    sync.Mutex
	pr     *io.PipeReader
	pw     *io.PipeWriter
}

// WSFormatError is a violation of RFC 6455.
type WSFormatError struct{ Msg string }

func (e *WSFormatError) Error() string { return e.Msg }

// OpenWS sends an upgrade request (head must be complete) and returns the
// response; on 101 the viewer is running.
func OpenWS(s *Server, head string) (*WS, *http.Response, error) {
	nc, err := net.DialTimeout("tcp", s.FLV, Wait)
	if err != nil {
		return nil, nil, err
	}
	return OpenWSOn(nc, head)
}

// OpenWSOn is OpenWS for a connection that exists.
func OpenWSOn(nc net.Conn, head string) (*WS, *http.Response, error) {
	io.WriteString(nc, head)
	nc.SetReadDeadline(time.Now().Add(Wait))
	br := bufio.NewReaderSize(nc, 1<<16)
	resp, err := http.ReadResponse(br, nil)
	if err != nil {
		nc.Close()
		return nil, nil, fmt.Errorf("upgrade response: %w", err)
	}
	if resp.StatusCode != 101 {
		nc.Close()
		return nil, resp, nil
	}
	nc.SetReadDeadline(time.Time{})
	v := &WS{}
	v.NC = nc
	v.Status = 101
	v.cond = sync.NewCond(&v.mu)
	v.pr, v.pw = io.Pipe()
	go v.read(&ref.FLVReader{R: v.pr})
	go v.frameLoop(br)
	return v, resp, nil
}

func (v *WS) frameLoop(br *bufio.Reader) {
	frag := false
	closed := false
	for {
		op, fin, p, err := readWSFrame(br)
		if err == nil {
			switch {
			case closed:
				err = &WSFormatError{"frame after the close frame"}
			case op >= 8 && (!fin || len(p) > 125):
				err = &WSFormatError{"control frame fragmented or too long"}
			case op == 0 && !frag, (op == 1 || op == 2) && frag:
				err = &WSFormatError{"bad fragmentation"}
			case op == 1:
				err = &WSFormatError{"text frame"}
			}
		}
		v.fmu.Lock()
		if err != nil {
			v.werr = err
			v.fmu.Unlock()
			var we *WSFormatError
			if errors.As(err, &we) {
				v.pw.CloseWithError(&ref.FLVFormatError{Msg: we.Msg})
			} else {
				v.pw.CloseWithError(io.EOF)
			}
			return
		}
		v.frames = append(v.frames, WSFrame{op, p})
		v.fmu.Unlock()
		v.mu.Lock()
		v.cond.Broadcast()
		v.mu.Unlock()
		if op < 8 {
			frag = !fin
			v.pw.Write(p)
		}
		if op == 8 {
			closed = true
		}
	}
}

func readWSFrame(br *bufio.Reader) (op byte, fin bool, p []byte, err error) {
	var h [8]byte
	if _, err = io.ReadFull(br, h[:2]); err != nil {
		return
	}
	fin = h[0]&0x80 != 0
	op = h[0] & 15
	bad := func(s string) (byte, bool, []byte, error) { return 0, false, nil, &WSFormatError{s} }
	if h[0]&0x70 != 0 {
		return bad("reserved bits set")
	}
	if h[1]&0x80 != 0 {
		return bad("masked server frame")
	}
	switch op {
	case 0, 1, 2, 8, 9, 10:
	default:
		return bad(fmt.Sprintf("opcode %d", op))
	}
	n := uint64(h[1] & 0x7f)
	switch n {
	case 126:
		if _, err = io.ReadFull(br, h[:2]); err != nil {
			return
		}
		n = uint64(binary.BigEndian.Uint16(h[:2]))
		if n < 126 {
			return bad("length not minimally encoded")
		}
	case 127:
		if _, err = io.ReadFull(br, h[:8]); err != nil {
			return
		}
		n = binary.BigEndian.Uint64(h[:8])
		if n < 65536 || n > 1<<40 {
			return bad("64-bit length of " + fmt.Sprint(n))
		}
	}
	if n > 1<<26 {
		return bad("frame of " + fmt.Sprint(n) + " bytes")
	}
	p = make([]byte, n)
	_, err = io.ReadFull(br, p)
	return
}

// Frames returns the frames received.
func (v *WS) Frames() []WSFrame {
	v.fmu.Lock()
	defer v.fmu.Unlock()
	return v.frames[:len(v.frames):len(v.frames)]
}

// WaitFrames waits until pred holds for the frames received.
func (v *WS) WaitFrames(d time.Duration, pred func([]WSFrame) bool) bool {
	return waitCond(&v.mu, v.cond, d, func() (bool, bool) { return pred(v.Frames()), v.done })
}

// SendFrame sends one client frame; mask is applied unless nil.
func (v *WS) SendFrame(b0 byte, payload []byte, mask []byte) error {
	return v.SendRaw(EncodeWS(b0, payload, mask))
}

// EncodeWS encodes a client frame.
func EncodeWS(b0 byte, payload []byte, mask []byte) []byte {
	b := []byte{b0}
	m := byte(0)
	if mask != nil {
		m = 0x80
	}
	switch n := len(payload); {
	case n < 126:
		b = append(b, m|byte(n))
	case n < 65536:
		b = append(b, m|126, byte(n>>8), byte(n))
	default:
		b = append(b, m|127)
		b = binary.BigEndian.AppendUint64(b, uint64(n))
	}
	if mask != nil {
		b = append(b, mask[:4]...)
		for i, c := range payload {
			b = append(b, c^mask[i&3])
		}
		return b
	}
	return append(b, payload...)
}

// SendRaw sends raw bytes.
func (v *WS) SendRaw(b []byte) error {
	v.wmu.Lock()
	defer v.wmu.Unlock()
	v.NC.SetWriteDeadline(time.Now().Add(Wait))
	_, err := v.NC.Write(b)
	return err
}
