package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/sbraveyoung/GGmpeg/libhls"

	"verif/harness/eng"
	"verif/harness/ref"
	"verif/harness/wire"
)

const nPulls = 48

var (
	remoteOnce sync.Once
	remotes    = make(chan net.Conn, nPulls)
	nameSeq    uint32
)

func freshName(c byte) string { return fmt.Sprintf("%c%05d", c, atomic.AddUint32(&nameSeq, 1)%100000) }

// startC06 starts the server and what it pulls from.
func startC06(c *eng.Ctx) (*wire.Server, error) {
	o := wire.Options{HLS: true, HLSMode: libhls.IMMEDIATELY, DASH: true, RTSP: true, SRT: true, Dir: c.Dir}
	var lerr error
	remoteOnce.Do(func() {
		l, err := net.Listen("tcp", wire.IP()+":21940")
		if err != nil {
			lerr = err
			return
		}
		go func() {
			for {
				nc, err := l.Accept()
				if err != nil {
					return
				}
				remotes <- nc
			}
		}()
	})
	if lerr != nil {
		return nil, lerr
	}
	for i := 0; i < nPulls; i++ {
		o.Pulls = append(o.Pulls, [3]string{fmt.Sprintf("rtmp://%s:21940/live/x%d", wire.IP(), i), "live", fmt.Sprintf("pull%d", i)})
	}
	return wire.Start(o)
}

// ------------------------------------------------------ the healthy stream ----

const step06 = 400 // ms between frames

func nal06(i int) []byte {
	b := []byte{0x61}
	if i%4 == 0 {
		b[0] = 0x65
	}
	b = binary.BigEndian.AppendUint32(append(b, 'H'), uint32(i))
	return append(b, ref.Fill(uint32(i)*31+9, i*131%2200)...)
}

var sps06, pps06 = []byte{0x67, 0x42, 0xc0, 0x1e, 0xd9, 0x00, 0xa0, 0x47, 0xfe, 0xc8}, []byte{0x68, 0xce, 0x3c, 0x80}

type healthy struct {
	s    *wire.Server
	name string
	rtmp *wire.Client
	rtsp *wire.RTSP
	n    int
}

func (h *healthy) close() {
	if h.rtmp != nil {
		h.rtmp.Close()
	}
	if h.rtsp != nil {
		h.rtsp.Close()
	}
}

func publishHealthy(s *wire.Server, name string, rtsp bool) (h *healthy, err error) {
	h = &healthy{s: s, name: name}
	if !rtsp {
		if h.rtmp, err = wire.Publisher(s, "live", name); err != nil {
			return nil, err
		}
		p := wire.Pub{FTag: ref.FTag{Type: 9, Data: append([]byte{0x17, 0, 0, 0, 0}, ref.AVCRecord([][]byte{sps06}, [][]byte{pps06})...)}}
		return h, h.rtmp.SendPubs([]wire.Pub{p})
	}
	if h.rtsp, err = wire.DialRTSP(s); err != nil {
		return nil, err
	}
	u := s.RTSPURL("live", name)
	p, err := h.rtsp.Request("ANNOUNCE", u, "Content-Type: application/sdp\r\n", wire.AnnounceSDP(sps06, pps06, nil, 0, 0))
	if err == nil && p.Status == 200 {
		if p, err = h.rtsp.Request("SETUP", u+"/streamid=0", "Transport: RTP/AVP/TCP;unicast;interleaved=0-1;mode=record\r\n", nil); err == nil && p.Status == 200 {
			p, err = h.rtsp.Request("RECORD", u, "", nil)
		}
	}
	if err == nil && p.Status != 200 {
		err = fmt.Errorf("publishing by RTSP: status %d", p.Status)
	}
	return h, err
}

// send publishes the next frame.
func (h *healthy) send() error {
	i := h.n
	h.n++
	nal := nal06(i)
	if h.rtsp == nil {
		b := byte(0x27)
		if i%4 == 0 {
			b = 0x17
		}
		return h.rtmp.SendPubs([]wire.Pub{{FTag: ref.FTag{Type: 9, TS: uint32(i * step06), Data: append([]byte{b, 1, 0, 0, 0}, ref.AVCC(nal)...)}}})
	}
	ps := ref.PackH264([][]byte{nal}, 3000, false)
	for k, p := range ps {
		r := ref.RTP{PT: 96, Seq: uint16(i), TS: uint32(i * step06 * 90), SSRC: 6, Marker: k == len(ps)-1, Payload: p}
		if err := h.rtsp.Write(wire.Interleave(0, r.Encode())); err != nil {
			return err
		}
	}
	return nil
}

// watcher is one viewer of the healthy stream.
type watcher struct {
	kind string
	v    wire.Viewer
	r    *wire.RTSP
	tr   wire.Track
	stop func()
}

func watch(s *wire.Server, name, kind string) (w *watcher, err error) {
	w = &watcher{kind: kind}
	switch kind {
	case "FLV":
		f, err := wire.GetFLV(s, "live", name)
		if err != nil {
			return nil, err
		}
		if f.Status != 200 {
			f.Close()
			return nil, fmt.Errorf("HTTP status %d", f.Status)
		}
		w.v, w.stop = f, f.Close
	case "RTMP":
		c, err := wire.Player(s, "live", name)
		if err != nil {
			return nil, err
		}
		w.v, w.stop = c, c.Close
	default:
		r, err := wire.DialRTSP(s)
		if err != nil {
			return nil, err
		}
		u := s.RTSPURL("live", name)
		p, err := r.Request("DESCRIBE", u, "Accept: application/sdp\r\n", nil)
		if err == nil && p.Status == 200 {
			p, err = r.Request("SETUP", u+"/trackID=0", "Transport: RTP/AVP/TCP;unicast;interleaved=0-1\r\n", nil)
			if err == nil && p.Status == 200 {
				p, err = r.Request("PLAY", u, "", nil)
			}
		}
		if err == nil && p.Status != 200 {
			err = fmt.Errorf("status %d", p.Status)
		}
		if err != nil {
			r.Close()
			return nil, err
		}
		w.r, w.stop, w.tr = r, r.Close, wire.Track{PT: 96}
	}
	return w, nil
}

// frames decodes what was received: the number of its first frame and how
// many follow each other.
func (w *watcher) frames(tags []ref.FTag, rtp []wire.RTSPFrame) (first, n int, err error) {
	next := func(nal []byte, ts, tol uint32, at uint32) error {
		if len(nal) < 6 || nal[1] != 'H' {
			return fmt.Errorf("a frame of %d bytes (% x) that was not published", len(nal), nal[:min(len(nal), 12)])
		}
		i := int(binary.BigEndian.Uint32(nal[2:]))
		if i > 1<<16 || !bytes.Equal(nal, nal06(i)) {
			return fmt.Errorf("frame %d is not the one published", i)
		}
		if n == 0 {
			first = i
			if i%4 != 0 {
				return fmt.Errorf("it starts with frame %d, no keyframe", i)
			}
		} else if i != first+n {
			return fmt.Errorf("frame %d follows frame %d", i, first+n-1)
		}
		if d := int32(ts - uint32(i)*at); d > int32(tol) || d < -int32(tol) {
			return fmt.Errorf("frame %d has timestamp %d", i, ts)
		}
		n++
		return nil
	}
	if w.r != nil {
		if err := w.tr.Feed(rtp); err != nil {
			return 0, 0, err
		}
		for _, u := range w.tr.Units {
			if len(u.NALs) == 0 {
				return first, n, fmt.Errorf("an empty access unit")
			}
			base := w.tr.Units[0].TS
			f := u.NALs[len(u.NALs)-1]
			off := uint32(0)
			if n > 0 {
				off = uint32(first) * step06 * 90
			} else if len(f) >= 6 {
				off = binary.BigEndian.Uint32(f[2:]) * step06 * 90
			}
			if err := next(f, u.TS-base+off, 180, step06*90); err != nil {
				return first, n, err
			}
		}
		return first, n, nil
	}
	for _, t := range tags {
		if t.Type == 9 && len(t.Data) > 1 && t.Data[1] == 0 && t.Data[0] == 0x17 {
			continue
		}
		if t.Type != 9 || len(t.Data) < 9 {
			return first, n, fmt.Errorf("%v was not published", t)
		}
		if err := next(t.Data[9:], t.TS, 1, step06); err != nil {
			return first, n, err
		}
	}
	return first, n, nil
}

// await waits until frame last arrived; the frames before it have to be
// complete from frame first (-1: from any keyframe).
func (w *watcher) await(first, last int) (err error) {
	var f, n int
	check := func(tags []ref.FTag, rtp []wire.RTSPFrame) bool {
		f, n, err = w.frames(tags, rtp)
		return err != nil || n > 0 && f+n > last
	}
	var ok bool
	var end error
	if w.r != nil {
		w.r.WaitFrames(wire.Wait, func(fs []wire.RTSPFrame) bool { return check(nil, fs) })
		ok = check(nil, w.r.Frames())
		_, end = w.r.End()
	} else {
		w.v.WaitMedia(wire.Wait, func(ts []ref.FTag) bool { return check(ts, nil) })
		ok = check(w.v.Media(), nil)
		_, end = w.v.End()
	}
	if err == nil && !ok {
		err = fmt.Errorf("no frame %d, only %d from %d (%v)", last, n, f, end)
	}
	if err == nil && (first >= 0 && f != first || f+n != last+1) {
		err = fmt.Errorf("frames %d to %d, expected %d to %d", f, f+n-1, first, last)
	}
	return err
}

// ------------------------------------------------------------- hostile peers ----

// hostiles are the connections of one case.
type hostiles struct {
	s         *wire.Server
	good, bad string
	mu        sync.Mutex
	open      []net.Conn
	skipped   int
}

func (h *hostiles) keep(nc net.Conn) {
	h.mu.Lock()
	h.open = append(h.open, nc)
	h.mu.Unlock()
}

func (h *hostiles) closeAll() {
	h.mu.Lock()
	for _, c := range h.open {
		c.Close()
	}
	h.open = nil
	h.mu.Unlock()
}

func (h *hostiles) sub(b []byte) []byte {
	b = bytes.ReplaceAll(b, []byte(good), []byte(h.good))
	return bytes.ReplaceAll(b, []byte(bad), []byte(h.bad))
}

func (h *hostiles) dial(addr string) (net.Conn, error) {
	d := net.Dialer{Timeout: wire.Wait, LocalAddr: &net.TCPAddr{IP: net.ParseIP(wire.IP())}}
	return d.Dial("tcp", addr)
}

func rtmpHello(msgs ...ref.RMsg) []byte {
	b := append([]byte{3}, make([]byte, 3072)...)
	for _, m := range msgs {
		b = append(b, ref.EncodeMsg(m, 128)...)
	}
	return b
}

func connectMsgs(cmd, name string) []ref.RMsg {
	return []ref.RMsg{
		cmdMsg(ref.AS("connect"), ref.AN(1), ref.AO("app", ref.AS("live"))),
		cmdMsg(ref.AS("createStream"), ref.AN(2), ref.ANil()),
		cmdMsg(ref.AS(cmd), ref.AN(3), ref.ANil(), ref.AS(name), ref.AS("live")),
	}
}

// views opens viewers of the hostile stream; nobody looks at what they get.
func (h *hostiles) views(bits int, name string) {
	try := func(addr string, b []byte) {
		nc, err := h.dial(addr)
		if err != nil {
			return
		}
		h.keep(nc)
		go io.Copy(io.Discard, nc)
		nc.SetWriteDeadline(time.Now().Add(2 * time.Second))
		nc.Write(b)
	}
	if bits&1 != 0 {
		try(h.s.FLV, []byte("GET /live/"+name+".flv HTTP/1.1\r\nHost: h\r\n\r\n"))
	}
	if bits&2 != 0 {
		try(h.s.RTMP, rtmpHello(connectMsgs("play", name)...))
	}
	if bits&4 != 0 {
		u := "rtsp://h/live/" + name
		try(h.s.RTSP, []byte("DESCRIBE "+u+" RTSP/1.0\r\nCSeq: 1\r\n\r\nSETUP "+u+"/trackID=0 RTSP/1.0\r\nCSeq: 2\r\nTransport: RTP/AVP/TCP;unicast;interleaved=0-1\r\n\r\nSETUP "+u+"/trackID=1 RTSP/1.0\r\nCSeq: 3\r\nTransport: RTP/AVP/TCP;unicast;interleaved=2-3\r\n\r\nPLAY "+u+" RTSP/1.0\r\nCSeq: 4\r\n\r\n"))
	}
	if bits&8 != 0 {
		try(h.s.HLS, []byte("GET /live/"+name+"/index.m3u8 HTTP/1.1\r\nHost: h\r\n\r\nGET /live/"+name+"/index.mpd HTTP/1.1\r\nHost: h\r\n\r\n"))
	}
}

// run plays one hostile peer.
func (h *hostiles) run(a *att) {
	if a.K == "srt" {
		h.runSRT(a)
		return
	}
	var nc net.Conn
	var err error
	switch a.K {
	case "rtmp":
		nc, err = h.dial(h.s.RTMP)
	case "rtsp":
		nc, err = h.dial(h.s.RTSP)
	case "flv":
		nc, err = h.dial(h.s.FLV)
	case "hls":
		nc, err = h.dial(h.s.HLS)
	case "pull":
		select {
		case nc = <-remotes:
		case <-time.After(50 * time.Millisecond):
			h.mu.Lock()
			h.skipped++
			h.mu.Unlock()
			return
		}
	}
	if err != nil {
		return // the ports are checked later
	}
	h.keep(nc)
	if a.Read {
		go io.Copy(io.Discard, nc)
	}
	nc.SetWriteDeadline(time.Now().Add(2 * time.Second))
	ask := func() {}
	if a.Ask {
		if q, err := h.dial(h.s.RTSP); err == nil {
			h.keep(q)
			buf := make([]byte, 4096)
			ask = func() {
				time.Sleep(500 * time.Microsecond) // for the message to be taken in
				q.SetDeadline(time.Now().Add(200 * time.Millisecond))
				fmt.Fprintf(q, "DESCRIBE rtsp://h/live/%s RTSP/1.0\r\nCSeq: 1\r\n\r\n", h.bad)
				q.Read(buf)
			}
		}
	}
	for i, b := range a.W {
		if i > 3 {
			ask()
		}
		if a.View != 0 && i == (len(a.W)+1)/2 {
			time.Sleep(2 * time.Millisecond)
			h.views(a.View, h.bad)
		}
		if _, err := nc.Write(h.sub(b)); err != nil {
			break
		}
	}
	ask()
	tc := nc.(*net.TCPConn)
	switch a.End {
	case endFIN:
		tc.CloseWrite()
		if !a.Read {
			nc.SetReadDeadline(time.Now().Add(150 * time.Millisecond))
			io.Copy(io.Discard, nc)
		}
	case endRST:
		time.Sleep(time.Millisecond)
		tc.SetLinger(0)
		nc.Close()
	case endClose:
		nc.Close()
	}
}

var srtIDs uint32 = 0x51000

func be32(vs ...uint32) (b []byte) {
	for _, v := range vs {
		b = binary.BigEndian.AppendUint32(b, v)
	}
	return b
}

// srtHello does the handshake of SRT; dest is 0 if there is none.
func srtHello(conn net.Conn, full bool, wait time.Duration) (dest uint32) {
	id := atomic.AddUint32(&srtIDs, 1)
	buf := make([]byte, 2000)
	cookie := uint32(0)
	for _, typ := range []int32{1, -1} {
		if typ < 0 && !full {
			return dest
		}
		end := time.Now().Add(wait)
		for ok := false; !ok; {
			conn.Write(append(be32(0x80000000, 0, 0, 0), be32(5, 2, 100, 1500, 8192, uint32(typ), id, cookie, 0x0100007f, 0, 0, 0)...))
			conn.SetReadDeadline(time.Now().Add(200 * time.Millisecond))
			for {
				n, err := conn.Read(buf)
				if err != nil {
					break
				}
				if n >= 64 && buf[0] == 0x80 && buf[1] == 0 && int32(binary.BigEndian.Uint32(buf[36:])) == typ {
					dest = binary.BigEndian.Uint32(buf[16+24:])
					cookie = binary.BigEndian.Uint32(buf[16+28:])
					if dest == 0 {
						dest = 1
					}
					ok = true
					break
				}
			}
			if !ok && time.Now().After(end) {
				return 0
			}
		}
	}
	return dest
}

func (h *hostiles) dialSRT() (net.Conn, error) {
	d := net.Dialer{LocalAddr: &net.UDPAddr{IP: net.ParseIP(wire.IP())}}
	return d.Dial("udp", h.s.SRT)
}

func (h *hostiles) runSRT(a *att) {
	nc, err := h.dialSRT()
	if err != nil {
		return
	}
	h.keep(nc)
	dest := uint32(0)
	if a.HS {
		dest = srtHello(nc, true, 2*time.Second)
	}
	seq := uint32(100)
	for i, b := range a.W {
		if a.View != 0 && i == (len(a.W)+1)/2 {
			time.Sleep(2 * time.Millisecond)
			h.views(a.View, "srt")
		}
		if i < len(a.Data) && a.Data[i] {
			b = append(be32(seq, 0xe0000000|seq, seq, dest), b...)
			seq++
		} else {
			b = bytes.ReplaceAll(b, []byte{0xdd, 0xdd, 0xdd, 0xdd}, be32(dest))
		}
		nc.Write(b)
	}
	if a.End != endKeep && dest != 0 {
		nc.Write(be32(0x80050000, 0, 0, dest))
	}
}

// ------------------------------------------------------------------ floods ----

var floodKinds = []string{"partial", "announce", "retain", "gop", "gop-audio", "gop-keys", "rtp-fu", "rtp-pending", "ws", "ws-many", "srt-pes", "rtsp-head", "metadata", "srt-sessions", "fds-rtsp", "fds-rtmp", "fds-flv"}

// runFlood sends a lot on few connections; within tells how much of it the
// server may keep.
func (h *hostiles) runFlood(f *flood) (within uint64, err error) {
	within = 64 << 20
	total := 160 << 20 * f.MB
	conn := func(addr string) net.Conn {
		var nc net.Conn
		if nc, err = h.dial(addr); err == nil {
			h.keep(nc)
			go io.Copy(io.Discard, nc)
			nc.SetWriteDeadline(time.Now().Add(wire.Wait))
		}
		return nc
	}
	chunk := func(csid uint32, typ byte, n int, ts uint32) []byte {
		return ref.ChunkHeader{CSID: csid, Time: ts, Len: n, Type: typ, MSID: 1}.Encode()
	}
	size := func(n uint32) ref.RMsg { return ref.RMsg{CSID: 2, Type: 1, Data: be32(n)} }
	mb := make([]byte, 1<<20)
	for i := range mb {
		mb[i] = byte(i*7 + i>>9)
	}
	switch f.Kind {
	case "partial": // many messages that are never completed
		nc := conn(h.s.RTMP)
		if err != nil {
			return
		}
		nc.Write(rtmpHello(append(connectMsgs("publish", h.bad), size(1<<20))...))
		for k := 0; k < total>>20; k++ {
			nc.Write(chunk(uint32(64+k), 9, 1<<24-1, 0))
			if _, e := nc.Write(mb); e != nil {
				break // closed: fine
			}
		}
	case "announce": // messages that are only announced
		for k := 0; k < 20*f.MB; k++ {
			nc := conn(h.s.RTMP)
			if err != nil {
				return
			}
			b := rtmpHello(size(0x7fffffff))
			nc.Write(append(b, chunk(6, 9, 1<<24-1, 0)...))
			nc.Write(mb[:10])
		}
	case "retain": // complete messages on many chunk streams
		nc := conn(h.s.RTMP)
		if err != nil {
			return
		}
		nc.Write(rtmpHello(append(connectMsgs("publish", h.bad), size(1<<20))...))
		for k := 0; k < total>>20; k++ {
			nc.Write(chunk(uint32(64+k), 99, 1<<20, 0))
			if _, e := nc.Write(mb); e != nil {
				break
			}
		}
	case "gop", "gop-audio", "gop-keys", "metadata":
		within = 420 << 20
		total *= 4
		nc := conn(h.s.RTMP)
		if err != nil {
			return
		}
		nc.Write(rtmpHello(append(connectMsgs("publish", h.bad), size(1<<20))...))
		rec := append([]byte{0x17, 0, 0, 0, 0}, ref.AVCRecord([][]byte{sps06}, [][]byte{pps06})...)
		nc.Write(append(chunk(6, 9, len(rec), 0), rec...))
		for k := 0; k < total>>20; k++ {
			d := append([]byte{0x27, 1, 0, 0, 0}, mb[:len(mb)-9]...)
			if k == 0 || f.Kind == "gop-keys" {
				d[0] = 0x17
			}
			binary.BigEndian.PutUint32(d[5:], uint32(len(d)-9))
			typ := byte(9)
			switch {
			case f.Kind == "gop-audio" && k > 0:
				typ, d = 8, append([]byte{0xaf, 1}, mb[:len(mb)-2]...)
			case f.Kind == "metadata":
				typ, d = 18, ref.AMFEncode(ref.AS("@setDataFrame"), ref.AS("onMetaData"), ref.AO("x", ref.AVal{K: ref.AStr, S: mb[:len(mb)-100], Long: true}))
			}
			nc.Write(chunk(6, typ, len(d), uint32(k*20)))
			if _, e := nc.Write(d); e != nil {
				break
			}
		}
	case "rtp-fu", "rtp-pending":
		nc := conn(h.s.RTSP)
		if err != nil {
			return
		}
		u := "rtsp://h/live/" + h.bad
		sdp := wire.AnnounceSDP(sps06, pps06, nil, 0, 0)
		fmt.Fprintf(nc, "ANNOUNCE %s RTSP/1.0\r\nCSeq: 1\r\nContent-Type: application/sdp\r\nContent-Length: %d\r\n\r\n%s", u, len(sdp), sdp)
		fmt.Fprintf(nc, "SETUP %s/streamid=0 RTSP/1.0\r\nCSeq: 2\r\nTransport: RTP/AVP/TCP;unicast;interleaved=0-1;mode=record\r\n\r\nRECORD %s RTSP/1.0\r\nCSeq: 3\r\n\r\n", u, u)
		p := append([]byte{0x7c, 0x05}, mb[:60000]...)
		for k := 0; k < total/60000; k++ {
			if k == 0 {
				p[1] = 0x85
			} else {
				p[1] = 5
			}
			if f.Kind == "rtp-pending" {
				p[0] = 0x61
			}
			r := ref.RTP{PT: 96, Seq: uint16(k), TS: 5, SSRC: 6, Payload: p}
			if _, e := nc.Write(wire.Interleave(0, r.Encode())); e != nil {
				break
			}
		}
	case "ws", "ws-many":
		h.views(0, "")
		nc := conn(h.s.FLV)
		if err != nil {
			return
		}
		fmt.Fprintf(nc, "GET /live/%s.flv HTTP/1.1\r\nHost: h\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n", h.good)
		if f.Kind == "ws" {
			nc.Write([]byte{0x82, 0xff, 0, 0, 0, 1, 0, 0, 0, 0, 1, 2, 3, 4})
		}
		for k := 0; k < total>>20; k++ {
			if f.Kind == "ws-many" {
				nc.Write([]byte{0x01 &^ byte(k&1), 0xff, 0, 0, 0, 0, 0, 0x10, 0, 0, 1, 2, 3, 4})
			}
			if _, e := nc.Write(mb); e != nil {
				break
			}
		}
	case "srt-pes": // a PES packet that never ends
		nc, e := h.dialSRT()
		if e != nil {
			return 0, e
		}
		h.keep(nc)
		dest := srtHello(nc, true, wire.Wait)
		if dest == 0 {
			return 0, fmt.Errorf("the SRT listener does not answer")
		}
		m := &ref.TSMux{CC: map[uint16]byte{}}
		var buf []byte
		seq := uint32(100)
		n, gone := 0, false
		flush := func(all bool) {
			for len(buf) >= 188*7 || all && len(buf) > 0 {
				k := min(188*7, len(buf))
				nc.Write(append(be32(seq, 0xe0000000|seq, seq, dest), buf[:k]...))
				buf = buf[k:]
				seq++
				if n++; n%40 == 0 || all {
					nc.Write(be32(0x80010000, 0, 0, dest)) // keepalive: answered in order
					r := make([]byte, 2000)
					nc.SetReadDeadline(time.Now().Add(2 * time.Second))
					for {
						k, e := nc.Read(r)
						if e != nil || k >= 16 && r[0] == 0x80 && r[1] == 5 {
							gone = true // refused, or another case's session owns the stream
							break
						}
						if k >= 16 && r[0] == 0x80 && r[1] == 1 {
							break
						}
					}
				}
			}
		}
		for _, p := range append(m.Sections(0, false, ref.PSISection(0, 1, 0, true, []byte{0, 1, 0xe1, 0x00})),
			m.Sections(0x100, false, ref.PSISection(2, 1, 0, true, []byte{0xe1, 0x01, 0xf0, 0x00, 0x1b, 0xe1, 0x01, 0xf0, 0x00}))...) {
			buf = append(buf, p.B...)
		}
		pkt := make([]byte, 188)
		copy(pkt, []byte{0x47, 0x41, 0x01, 0x10, 0, 0, 1, 0xe0, 0, 0, 0x80, 0x80, 5, 0x21, 0, 1, 0, 1, 0, 0, 0, 1, 0x65})
		buf = append(buf, pkt...)
		copy(pkt, append([]byte{0x47, 0x01, 0x01, 0x10}, mb[:184]...))
		for k := 1; k < (total/2)/188 && !gone; k++ {
			pkt[3] = 0x10 | byte(k&15)
			buf = append(buf, pkt...)
			flush(false)
		}
		flush(true)
		within = 40 << 20
	case "srt-sessions": // handshakes that lead nowhere
		nc, e := h.dialSRT()
		if e != nil {
			return 0, e
		}
		h.keep(nc)
		for k := 0; k < 20000; k++ {
			srtHello(nc, k%100 == 0, wire.Wait)
			if k%100 != 0 {
				continue
			}
		}
		within = 40 << 20
	case "fds-rtsp", "fds-rtmp", "fds-flv": // connections until no more can be accepted
		addr := map[string]string{"fds-rtsp": h.s.RTSP, "fds-rtmp": h.s.RTMP, "fds-flv": h.s.FLV}[f.Kind]
		var lim syscall.Rlimit
		if err = syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim); err != nil {
			return
		}
		fds, e := os.ReadDir("/proc/self/fd")
		if e != nil {
			return 0, fmt.Errorf("%w: %v", eng.ErrInconclusive, e)
		}
		low := lim
		low.Cur = uint64(len(fds) + 40)
		if err = syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low); err != nil {
			return 0, fmt.Errorf("%w: %v", eng.ErrInconclusive, err)
		}
		var cs []net.Conn
		for k, bad := 0, 0; k < 200 && bad < 20; k++ {
			nc, e := h.dial(addr)
			if e != nil { // the peers and the server share one table here
				bad++
				if len(cs) > 0 && bad%5 == 1 { // leave room for a connection nobody can accept
					time.Sleep(5 * time.Millisecond)
				}
				continue
			}
			cs = append(cs, nc)
		}
		time.Sleep(30 * time.Millisecond)
		for _, nc := range cs {
			nc.Close()
		}
		err = syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim)
	case "rtsp-head":
		nc := conn(h.s.RTSP)
		if err != nil {
			return
		}
		nc.Write([]byte("OPTIONS * RTSP/1.0\r\n"))
		for k := 0; k < total>>20; k++ {
			if _, e := nc.Write(bytes.Repeat([]byte("A: b\r\n"), 1<<17)); e != nil {
				break
			}
		}
	}
	return within, nil
}

func heap() uint64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&m)
	return m.HeapAlloc + m.StackInuse
}

// -------------------------------------------------------------------- a case ----

func runC06(c *eng.Ctx, cs c06) error {
	s, err := startC06(c)
	if err != nil {
		return err
	}
	if cs.N < 2 {
		cs.N = 2
	}
	h := &hostiles{s: s, good: freshName('g'), bad: freshName('b')}
	defer h.closeAll()
	pub, err := publishHealthy(s, h.good, cs.RTSP)
	if err != nil {
		return fmt.Errorf("a healthy publisher: %w", err)
	}
	defer pub.close()
	var ws []*watcher
	defer func() {
		for _, w := range ws {
			w.stop()
		}
	}()
	if err := pub.send(); err != nil {
		return fmt.Errorf("a healthy publisher: %w", err)
	}
	for i, k := range []string{"FLV", "RTMP", "RTSP"} {
		if cs.Kinds&(1<<i) == 0 && !(i == 0 && cs.Kinds&7 == 0) {
			continue
		}
		var w *watcher
		for try := 0; ; try++ { // frames are processed asynchronously
			if w, err = watch(s, h.good, k); err == nil || try == 50 {
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		if err != nil {
			return fmt.Errorf("a healthy %s viewer: %w", k, err)
		}
		ws = append(ws, w)
		if err := w.await(0, 0); err != nil {
			return fmt.Errorf("a healthy %s viewer: %w", k, err)
		}
	}

	var base, within uint64
	if cs.Flood != nil {
		base = heap()
	}
	var wg sync.WaitGroup
	for i := 1; i < cs.N; i++ {
		for k := range cs.Att {
			a := &cs.Att[k]
			if a.At != i && !(i == cs.N-1 && (a.At >= cs.N || a.At < 1)) {
				continue
			}
			if cs.Serial {
				h.run(a)
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				h.run(a)
			}()
		}
		if cs.Flood != nil && i == 1 && strings.HasPrefix(cs.Flood.Kind, "fds") {
			if within, err = h.runFlood(cs.Flood); err != nil {
				return err
			}
		} else if cs.Flood != nil && i == 1 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				within, err = h.runFlood(cs.Flood)
			}()
		}
		if err := pub.send(); err != nil {
			return fmt.Errorf("the healthy publisher lost its connection: %w", err)
		}
	}
	wg.Wait()
	if err != nil {
		return err
	}
	if cs.Flood != nil {
		var now uint64
		for end := time.Now().Add(10 * time.Second); ; time.Sleep(100 * time.Millisecond) {
			if now = heap(); now < base+within {
				break
			}
			if time.Now().After(end) {
				return fmt.Errorf("the server keeps %d MB for the sake of one peer (%s)", (now-base)>>20, cs.Flood.Kind)
			}
		}
		c.Class("flood-" + cs.Flood.Kind)
		c.NonTrivial()
	} else {
		time.Sleep(5 * time.Millisecond) // what was sent is being dealt with
	}
	if err := pub.send(); err != nil { // number N
		return fmt.Errorf("the healthy publisher lost its connection: %w", err)
	}
	for _, w := range ws {
		if err := w.await(0, cs.N); err != nil {
			return fmt.Errorf("the healthy %s viewer: %w", w.kind, err)
		}
	}
	// Everybody else is still served.
	for _, k := range []string{"FLV", "RTMP", "RTSP"} {
		w, err := watch(s, h.good, k)
		if err != nil {
			return fmt.Errorf("a new %s viewer: %w", k, err)
		}
		err = w.await(-1, cs.N)
		w.stop()
		if err != nil {
			return fmt.Errorf("a new %s viewer: %w", k, err)
		}
	}
	if cs.N >= 12 { // 4.8 s: there are segments
		for _, f := range []string{"index.m3u8", "index.mpd"} {
			if err := h.segmented(f, pub); err != nil {
				return err
			}
		}
	}
	if nc, err := h.dialSRT(); err == nil {
		dest := srtHello(nc, false, wire.Wait)
		nc.Close()
		if dest == 0 {
			return fmt.Errorf("the SRT listener no longer answers")
		}
	}
	// The names of the hostile peers are free once they are gone.
	h.closeAll()
	var nb *healthy
	for end := time.Now().Add(wire.Wait); ; time.Sleep(2 * time.Millisecond) {
		if nb, err = publishHealthy(s, h.bad, false); err == nil {
			break
		}
		if !strings.Contains(err.Error(), "BadName") || time.Now().After(end) {
			return fmt.Errorf("a new publisher of the name hostile peers used: %w", err)
		}
	}
	defer nb.close()
	if err := nb.send(); err != nil {
		return fmt.Errorf("a new publisher of the name hostile peers used: %w", err)
	}
	if !nb.rtmp.Sync() {
		return fmt.Errorf("a new publisher of the name hostile peers used lost its connection")
	}
	w, err := watch(s, h.bad, "FLV")
	if err != nil {
		return fmt.Errorf("a viewer of the name hostile peers used: %w", err)
	}
	err = w.await(0, 0)
	w.stop()
	if err != nil {
		return fmt.Errorf("a viewer of the name hostile peers used: %w", err)
	}
	muts := 0
	for i := range cs.Att {
		a := &cs.Att[i]
		c.Class("peer-" + a.K)
		muts += a.Muts
	}
	if h.skipped > 0 {
		c.Class("pull-not-due")
	}
	if muts > 0 && h.skipped < len(cs.Att) {
		c.NonTrivial()
	}
	return nil
}

// segmented fetches a playlist and what it lists.
func (h *hostiles) segmented(file string, pub *healthy) error {
	cl := &http.Client{Timeout: wire.Wait, Transport: &http.Transport{DisableKeepAlives: true}}
	get := func(f string) (int, []byte, error) {
		p, err := cl.Get("http://" + h.s.HLS + "/live/" + h.good + "/" + f)
		if err != nil {
			return 0, nil, err
		}
		defer p.Body.Close()
		b, err := io.ReadAll(p.Body)
		return p.StatusCode, b, err
	}
	var st int
	var b []byte
	var err error
	for end := time.Now().Add(wire.Wait); ; time.Sleep(5 * time.Millisecond) {
		st, b, err = get(file)
		if err == nil && st == 200 && (bytes.Contains(b, []byte(".ts")) || bytes.Contains(b, []byte("<S "))) {
			break
		}
		if time.Now().After(end) {
			return fmt.Errorf("%s of the healthy stream: status %d, %v, %.300q", file, st, err, b)
		}
		// A segmenter that started late begins at the last keyframe.
		if err := pub.send(); err != nil {
			return fmt.Errorf("the healthy publisher lost its connection: %w", err)
		}
	}
	sc := bufio.NewScanner(bytes.NewReader(b))
	for file == "index.m3u8" && sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if l == "" || l[0] == '#' {
			continue
		}
		if st, d, err := get(l); err != nil || st == 200 && len(d) < 188*3 {
			return fmt.Errorf("segment %s of the healthy stream: status %d, %d bytes, %v", l, st, len(d), err)
		}
	}
	return nil
}

func init() {
	eng.Register("C06", eng.Opts{
		Rule:      "at least one hostile peer sent something that is no conforming session (a damaged, reordered, incomplete or made-up message), or one flooded the server",
		Quick:     eng.Budget{Shards: 8, Cases: 500, Wall: 150 * time.Second},
		Thorough:  eng.Budget{Shards: 8, Cases: 20000, Wall: 780 * time.Second},
		HangLimit: 120 * time.Second, HangIsBug: true, MemLimit: 10 << 30,
		Net: true, Unprivileged: true, Shrink: 100 * time.Second,
		Assumptions: []string{
			"healthy peers keep up with the stream; 20 s without an expected frame means it was lost",
			"one peer may make the server keep 64 MB (40 MB by SRT, 420 MB when it publishes a stream that three segmenters or caches hold)",
		},
	}, genC06, runC06)
}
