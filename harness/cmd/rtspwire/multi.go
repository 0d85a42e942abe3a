package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	"verif/harness/eng"
	"verif/harness/ref"
	"verif/harness/wire"
)

// mop is one operation of a history of several clients.
type mop struct {
	Op  int `json:"o"`
	A   int `json:"a"` // client
	B   int `json:"b"` // stream
	N   int `json:"n,omitempty"`
	How int `json:"h,omitempty"`
}

const (
	opPub = iota
	opSend
	opStop
	opView
	opLeave
	opIntrude // a player sends media
	opDual    // a publisher plays another stream
	opRace
	opConnect // a client connects to another app
	nOps
)

type multi struct {
	Ops []mop
}

const nSlots, nStreams = 4, 4

func genMulti(weights []int) func(t *rapid.T) multi {
	var kinds []int
	for op, w := range weights {
		for ; w > 0; w-- {
			kinds = append(kinds, op)
		}
	}
	return func(t *rapid.T) multi {
		var m multi
		n := rapid.IntRange(2, rapid.SampledFrom([]int{6, 15, 30}).Draw(t, "max")).Draw(t, "n")
		for i := 0; i < n; i++ {
			o := mop{Op: rapid.SampledFrom(kinds).Draw(t, "op"), A: rapid.IntRange(0, 5).Draw(t, "a"), B: rapid.IntRange(0, nStreams-1).Draw(t, "b")}
			if rapid.IntRange(0, 3).Draw(t, "first") > 0 { // most happens around one stream
				o.B = 0
			}
			o.N = rapid.IntRange(1, 6).Draw(t, "frames")
			o.How = rapid.IntRange(0, 15).Draw(t, "how")
			if i == 0 {
				o.Op = opPub
			}
			m.Ops = append(m.Ops, o)
		}
		return m
	}
}

// epoch is one publication of a stream.
type epoch struct {
	id     uint32
	stream int
	keys   []bool
	synced int // frames certainly processed
	over   bool
	least  int // frames viewers must at least have got when it is over
}

type msess struct {
	rtsp bool
	c    *wire.Client
	r    *wire.RTSP
	app  string
	id   uint32 // marks its media
	n    uint32
	ep   *epoch
	ann  bool // RTSP: has announced
	late bool // publishes, but has sent nothing yet
	dual *mview
}

type mview struct {
	kind   int // 0 RTMP, 1 FLV, 2 WebSocket, 3 RTSP
	v      wire.Viewer
	r      *wire.RTSP
	tr     wire.Track
	ep     []*epoch // what it may show
	join   int
	sure   bool // it had certainly joined before any further frame
	shared bool // on the connection of a publisher
}

type world struct {
	x       *eng.Ctx
	s       *wire.Server
	apps    [nStreams]string
	names   [nStreams]string
	owner   [nStreams]*msess
	slots   [nSlots]*msess
	views   []*mview
	epochs  []*epoch
	all     []*msess
	refused int
	stops   int
	played  int
}

var ids uint32 // atomic

func (w *world) url(i int) string { return w.s.RTSPURL(w.apps[i], w.names[i]) }

func marker(id, n uint32, key bool) []byte {
	b := []byte{0x61}
	if key {
		b[0] = 0x65
	}
	b = binary.BigEndian.AppendUint32(append(b, 'M'), id)
	b = binary.BigEndian.AppendUint32(b, n)
	return append(b, ref.Fill(id*31+n, int(id*7+n*131)%900)...)
}

func (s *msess) frame(key bool, k uint32) []byte {
	nal := marker(s.id, k, key)
	if s.rtsp {
		h := ref.RTP{PT: 96, Seq: uint16(k), TS: k * 3600, SSRC: s.id, Marker: true, Payload: nal}
		return wire.Interleave(0, h.Encode())
	}
	b := byte(0x27)
	if key {
		b = 0x17
	}
	p := wire.Pub{FTag: ref.FTag{Type: 9, TS: k * 40, Data: append([]byte{b, 1, 0, 0, 0}, ref.AVCC(nal)...)}}
	return ref.EncodeMsg(p.Msg(6, k == 0), s.c.Size)
}

func (s *msess) write(b []byte) error {
	if s.rtsp {
		return s.r.Write(b)
	}
	return s.c.Write(b)
}

func (s *msess) sync() error {
	if s.rtsp {
		_, err := s.r.Request("GET_PARAMETER", "*", "", nil)
		return err
	}
	if !s.c.Sync() {
		return fmt.Errorf("the session ended")
	}
	return nil
}

func (s *msess) header() error {
	ps := sets(false, int(s.id))
	p := wire.Pub{FTag: ref.FTag{Type: 9, Data: append([]byte{0x17, 0, 0, 0, 0}, ref.AVCRecord(ps[:1], ps[1:])...)}}
	return s.c.SendPubs([]wire.Pub{p})
}

// send sends frames; they belong to the stream only if s publishes.
func (w *world) send(s *msess, n int, sync bool) error {
	if s.late && n > 0 {
		s.late = false
		if err := s.header(); err != nil {
			return err
		}
	}
	for i := 0; i < n; i++ {
		key := s.n%3 == 0
		if err := s.write(s.frame(key, s.n)); err != nil {
			return fmt.Errorf("session %d ended: %w", s.id, err)
		}
		s.n++
		if s.ep != nil {
			s.ep.keys = append(s.ep.keys, key)
		}
	}
	if sync {
		if err := s.sync(); err != nil {
			return fmt.Errorf("session %d: %w", s.id, err)
		}
		if s.ep != nil {
			s.ep.synced = len(s.ep.keys)
		}
	}
	return nil
}

// attempt tries to publish. It reports whether that was accepted.
func (w *world) attempt(s *msess, stream int) (bool, error) {
	if s.rtsp {
		ps := sets(false, int(s.id))
		u := w.url(stream)
		p, err := s.r.Request("ANNOUNCE", u, "Content-Type: application/sdp\r\n", wire.AnnounceSDP(ps[0], ps[1], nil, 0, 0))
		if err != nil {
			return false, err
		}
		if p.Status >= 400 {
			return false, nil
		}
		if p.Status != 200 {
			return false, fmt.Errorf("ANNOUNCE: status %d", p.Status)
		}
		if p, err = s.r.Request("SETUP", u+"/streamid=0", "Transport: RTP/AVP/TCP;unicast;interleaved=0-1;mode=record\r\n", nil); err != nil || p.Status != 200 {
			return false, fmt.Errorf("SETUP: status %d %v", p.Status, err)
		}
		if p, err = s.r.Request("RECORD", u, "", nil); err != nil || p.Status != 200 {
			return false, fmt.Errorf("RECORD: status %d %v", p.Status, err)
		}
		s.ann = true
		return true, nil
	}
	if s.app != w.apps[stream] {
		if err := s.connect(w.apps[stream]); err != nil {
			return false, err
		}
	}
	code, err := s.c.Publish(w.names[stream])
	if err != nil {
		return false, err
	}
	switch code {
	case "NetStream.Publish.Start":
		return true, nil
	case "NetStream.Publish.BadName":
		return false, nil
	}
	return false, fmt.Errorf("publish answered with %q", code)
}

func (s *msess) connect(app string) error {
	from := len(s.c.Msgs())
	if err := s.c.Command(ref.AS("connect"), ref.AN(1), ref.AO("app", ref.AS(app), "tcUrl", ref.AS("rtmp://localhost/"+app))); err != nil {
		return err
	}
	x, ok := s.c.Await(from, wire.Wait, func(x wire.Cmd) bool { return x.Txn == 1 })
	if !ok || x.Name != "_result" {
		done, e := s.c.Closed()
		return fmt.Errorf("connect is answered by %q (connection closed: %v, %v)", x.Name, done, e)
	}
	s.app = app
	return nil
}

func (w *world) newSession(rtsp bool) (*msess, error) {
	s := &msess{rtsp: rtsp, id: atomic.AddUint32(&ids, 1)}
	var err error
	if rtsp {
		s.r, err = wire.DialRTSP(w.s)
	} else {
		s.c, err = wire.Dial(w.s.RTMP)
	}
	if err != nil {
		return nil, fmt.Errorf("%w: %v", eng.ErrInconclusive, err)
	}
	w.all = append(w.all, s)
	return s, nil
}

// own makes s the publisher of a stream in the model.
func (w *world) own(s *msess, stream int, late bool) error {
	s.n = 0
	s.late = late && !s.rtsp
	s.ep = &epoch{id: s.id, stream: stream}
	w.epochs = append(w.epochs, s.ep)
	w.owner[stream] = s
	if !s.rtsp && !s.late {
		if err := s.header(); err != nil {
			return err
		}
		return s.sync()
	}
	return nil
}

func (w *world) publish(o mop) error {
	k, st := o.A%nSlots, o.B%nStreams
	s := w.slots[k]
	if s == nil {
		var err error
		if s, err = w.newSession(o.How&1 != 0); err != nil {
			return err
		}
		w.slots[k] = s
	}
	if s.ep == nil { // a new mark: what it sent before belongs to nothing
		s.id = atomic.AddUint32(&ids, 1)
	}
	want := w.owner[st] == nil && s.ep == nil && !(s.rtsp && s.ann)
	ok, err := w.attempt(s, st)
	if err != nil {
		return fmt.Errorf("publishing %s/%s: %w", w.apps[st], w.names[st], err)
	}
	if ok && !want {
		return fmt.Errorf("publishing %s/%s is accepted although it is taken or the client publishes already", w.apps[st], w.names[st])
	}
	if !ok && want {
		return fmt.Errorf("publishing %s/%s, which nobody publishes, is refused", w.apps[st], w.names[st])
	}
	if !ok {
		w.refused++
		return nil
	}
	return w.own(s, st, o.How&6 == 2)
}

// stop ends a session's publication (or just the session).
func (w *world) stop(k, how int) error {
	s := w.slots[k]
	if s == nil {
		return nil
	}
	ep := s.ep
	gone := true
	immediate := false
	least := -1
	if ep != nil {
		least = len(ep.keys)
	}
	shut := func(cw bool) {
		var nc net.Conn
		if s.rtsp {
			nc = s.r.NC
		} else {
			nc = s.c.NC
		}
		if cw {
			nc.(*net.TCPConn).CloseWrite()
			if s.rtsp {
				s.r.WaitClosed(wire.Wait)
			} else {
				s.c.WaitClosed(wire.Wait)
			}
			nc.Close()
			return
		}
		nc.(*net.TCPConn).SetLinger(0)
		nc.Close()
	}
	switch how % 8 {
	case 0, 1, 2: // the clean ways
		if s.rtsp {
			p, err := s.r.Request("TEARDOWN", "*", "", nil)
			if err != nil || p.Status != 200 {
				return fmt.Errorf("TEARDOWN: status %d %v", p.Status, err)
			}
			s.r.Close()
		} else {
			cmd := [][]ref.AVal{
				{ref.AS("deleteStream"), ref.AN(0), ref.ANil(), ref.AN(1)},
				{ref.AS("closeStream"), ref.AN(0), ref.ANil()},
				{ref.AS("FCUnpublish"), ref.AN(9), ref.ANil(), ref.AS("x")},
			}[how%8]
			if err := s.c.Command(cmd...); err != nil {
				return err
			}
			if !s.c.Sync() {
				return fmt.Errorf("%s ends the connection", cmd[0].Str())
			}
			gone = false
		}
		immediate = true
		w.x.Class("clean stop")
	case 3, 4: // orderly close, maybe in the middle of a message
		if how&8 != 0 && ep != nil {
			b := s.frame(true, s.n)
			s.write(b[:1+len(b)/2])
			w.x.Class("stop inside a message")
		}
		shut(true)
	case 5: // in the middle of a chunk or RTP packet header
		if ep != nil {
			b := s.frame(true, s.n)
			s.write(b[:min(len(b)-1, 1+how&3)])
		}
		shut(true)
	case 6: // reset
		if ep != nil {
			least = ep.synced
		}
		shut(false)
		w.x.Class("reset")
	case 7: // reset right after media
		if err := w.send(s, 2, false); err != nil {
			return err
		}
		if ep != nil {
			least = ep.synced
		}
		shut(false)
		w.x.Class("reset")
	}
	if gone {
		w.slots[k] = nil
	}
	if s.dual != nil && (gone || how%8 < 2) {
		w.drop(s.dual)
		s.dual = nil
	}
	if s.late && ep != nil {
		w.x.Class("a publisher leaves before it has sent anything")
	}
	s.ep, s.late = nil, false
	if ep == nil {
		return nil
	}
	w.stops++
	w.owner[ep.stream] = nil
	return w.ended(ep, least, immediate)
}

// ended checks what has to follow the end of a publication.
func (w *world) ended(ep *epoch, least int, immediate bool) error {
	ep.over, ep.least = true, least
	nm := w.apps[ep.stream] + "/" + w.names[ep.stream]
	deadline := time.Now().Add(wire.Wait)
	for w.owner[ep.stream] == nil {
		f, err := wire.GetFLV(w.s, w.apps[ep.stream], w.names[ep.stream])
		if err != nil {
			return fmt.Errorf("%w: %v", eng.ErrInconclusive, err)
		}
		f.Close()
		if f.Status == 404 {
			break
		}
		if immediate || time.Now().After(deadline) {
			return fmt.Errorf("%s can still be watched (status %d) after its publisher left", nm, f.Status)
		}
		time.Sleep(time.Millisecond)
	}
	var rest []*mview
	for _, v := range w.views {
		if len(v.ep) != 1 || v.ep[0] != ep {
			rest = append(rest, v)
			continue
		}
		if !v.released(wire.Wait) {
			return fmt.Errorf("the %s viewer of %s is not released after the publisher left", kindName(v.kind), nm)
		}
		if err := v.check(ep); err != nil {
			return fmt.Errorf("%s viewer of %s: %w", kindName(v.kind), nm, err)
		}
		if !v.shared {
			v.close()
		}
		for _, s := range w.all {
			if s.dual == v {
				s.dual = nil
				if s.ep == nil { // a mere player by now, so its connection may be closed
					for k := range w.slots {
						if w.slots[k] == s {
							w.slots[k] = nil
						}
					}
					continue
				}
				if err := s.sync(); err != nil {
					return fmt.Errorf("a publisher that played %s lost its connection when %s ended: %w", nm, nm, err)
				}
			}
		}
	}
	w.views = rest
	return nil
}

func kindName(k int) string { return []string{"RTMP", "FLV", "WebSocket", "RTSP"}[k] }

func (v *mview) close() {
	if v.r != nil {
		v.r.Close()
	} else {
		v.v.Close()
	}
}

// eof tells whether an RTMP player was told that the stream is over.
func eof(c *wire.Client) bool { return hasEOF(c.Msgs()) }

func hasEOF(ms []ref.RMsg) bool {
	for _, m := range ms {
		if m.Type == 4 && len(m.Data) >= 2 && m.Data[0] == 0 && m.Data[1] == 1 {
			return true
		}
	}
	return false
}

func (v *mview) released(d time.Duration) bool {
	if v.r != nil {
		return v.r.WaitClosed(d)
	}
	if c, ok := v.v.(*wire.Client); ok {
		c.WaitFor(d, func(ms []ref.RMsg) bool { return hasEOF(ms) })
		done, _ := c.Closed()
		return done || eof(c)
	}
	return wire.WaitEnd(v.v, d)
}

// marks lists the frames received; the headers have to be those of the epoch.
func (v *mview) marks(ep *epoch) (out []uint32, err error) {
	ps := sets(false, int(ep.id))
	one := func(nal []byte) error {
		if len(nal) < 10 || nal[1] != 'M' {
			return fmt.Errorf("unknown frame % x", nal[:min(12, len(nal))])
		}
		id, n := binary.BigEndian.Uint32(nal[2:]), binary.BigEndian.Uint32(nal[6:])
		if id != ep.id {
			return fmt.Errorf("frame %d of session %d, the publisher is session %d", n, id, ep.id)
		}
		if !bytes.Equal(nal, marker(id, n, nal[0] == 0x65)) {
			return fmt.Errorf("frame %d is damaged", n)
		}
		out = append(out, n)
		return nil
	}
	if v.r != nil {
		if err := v.tr.Feed(v.r.Frames()); err != nil {
			return nil, err
		}
		for _, u := range v.tr.Units {
			ns := u.NALs
			if len(ns) == 3 {
				if !bytes.Equal(ns[0], ps[0]) || !bytes.Equal(ns[1], ps[1]) {
					return nil, fmt.Errorf("parameter sets of another publication")
				}
				ns = ns[2:]
			}
			if len(ns) != 1 {
				return nil, fmt.Errorf("access unit of %d NAL units", len(ns))
			}
			if err := one(ns[0]); err != nil {
				return nil, err
			}
		}
		if _, err := v.r.End(); err != nil {
			return nil, err
		}
		return out, nil
	}
	hdr := false
	for _, t := range v.v.Media() {
		switch {
		case wire.KindOf(t) == wire.HVideo:
			if !bytes.Equal(t.Data[5:], ref.AVCRecord(ps[:1], ps[1:])) {
				return nil, fmt.Errorf("header of another publication")
			}
			hdr = true
		case t.Type == 9:
			if !hdr {
				return nil, fmt.Errorf("media before the header")
			}
			ns, err := ref.SplitAVCC(t.Data[min(5, len(t.Data)):])
			if err != nil || len(ns) != 1 {
				return nil, fmt.Errorf("frame of %d NAL units: %v", len(ns), err)
			}
			if err := one(ns[0]); err != nil {
				return nil, err
			}
		default:
			return nil, fmt.Errorf("%v, which nobody published", t)
		}
	}
	if _, err := v.v.End(); err != nil {
		return nil, err
	}
	return out, nil
}

// check compares what was received with the publication.
func (v *mview) check(ep *epoch) error {
	got, err := v.marks(ep)
	if err != nil {
		return err
	}
	for i := 1; i < len(got); i++ {
		if got[i] != got[i-1]+1 {
			return fmt.Errorf("frame %d follows frame %d", got[i], got[i-1])
		}
	}
	least := len(ep.keys)
	if ep.over {
		least = ep.least
	}
	if len(got) == 0 {
		if !v.sure || least == 0 {
			return nil
		}
		return fmt.Errorf("nothing received of %d frames (joined after %d)", least, v.join)
	}
	if first := int(got[0]); first > 0 && (!ep.keys[first] || v.sure && first > v.join) {
		return fmt.Errorf("starts at frame %d (keyframe %v), joined after %d", first, ep.keys[first], v.join)
	}
	if last := int(got[len(got)-1]); last+1 < least {
		return fmt.Errorf("ends with frame %d of %d", last, least)
	}
	return nil
}

func wsHead(path string) string {
	return "GET " + path + " HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n"
}

// open opens a viewer. It returns nil when the server refuses.
func (w *world) open(stream, kind int) (*mview, error) {
	v := &mview{kind: kind, sure: true}
	path := "/" + w.apps[stream] + "/" + w.names[stream] + ".flv"
	switch kind {
	case 0:
		c, err := wire.Dial(w.s.RTMP)
		if err != nil {
			return nil, fmt.Errorf("%w: %v", eng.ErrInconclusive, err)
		}
		if err := c.Connect(w.apps[stream]); err != nil {
			c.Close()
			return nil, err
		}
		code, err := c.Play(w.names[stream])
		if err != nil || code == "NetStream.Play.StreamNotFound" {
			c.Close()
			return nil, err
		}
		v.v = c
	case 1:
		f, err := wire.GetFLVPath(w.s, path)
		if err != nil {
			return nil, err
		}
		if f.Status == 404 {
			return nil, nil
		}
		if f.Status != 200 {
			return nil, fmt.Errorf("HTTP-FLV: status %d", f.Status)
		}
		v.v = f
	case 2:
		c, resp, err := wire.OpenWS(w.s, wsHead(path))
		if err != nil {
			return nil, err
		}
		if c == nil {
			if resp.StatusCode < 400 {
				return nil, fmt.Errorf("upgrade: status %d", resp.StatusCode)
			}
			return nil, nil
		}
		v.v = c
	case 3:
		r, err := wire.DialRTSP(w.s)
		if err != nil {
			return nil, fmt.Errorf("%w: %v", eng.ErrInconclusive, err)
		}
		v.r = r
		v.tr = wire.Track{Chan: 4, PT: 96}
		v.sure = false
		u := w.url(stream)
		p, err := r.Request("DESCRIBE", u, "Accept: application/sdp\r\n", nil)
		if err == nil && p.Status == 200 {
			p, err = r.Request("SETUP", u+"/trackID=0", "Transport: RTP/AVP/TCP;unicast;interleaved=4-5\r\n", nil)
		}
		if err == nil && p.Status == 200 {
			p, err = r.Request("PLAY", u, "", nil)
		}
		if err != nil || p.Status >= 400 {
			r.Close()
			return nil, err
		}
		if p.Status != 200 {
			r.Close()
			return nil, fmt.Errorf("RTSP playback: status %d", p.Status)
		}
	}
	return v, nil
}

func (w *world) view(o mop) error {
	st, kind := o.B%nStreams, o.How%4
	own := w.owner[st]
	if own != nil {
		if err := w.send(own, 0, true); err != nil {
			return err
		}
		if own.late && kind == 3 { // nothing to describe yet
			kind = o.How / 4 % 3
		}
	}
	v, err := w.open(st, kind)
	if err != nil {
		return fmt.Errorf("%s viewer: %w", kindName(kind), err)
	}
	if own == nil {
		if v != nil {
			v.close()
			return fmt.Errorf("a %s viewer may watch %s/%s, which nobody publishes", kindName(kind), w.apps[st], w.names[st])
		}
		w.refused++
		return nil
	}
	if v == nil {
		return fmt.Errorf("a %s viewer of the live stream %s/%s is refused", kindName(kind), w.apps[st], w.names[st])
	}
	w.played++
	v.ep = []*epoch{own.ep}
	v.join = len(own.ep.keys)
	w.views = append(w.views, v)
	if own.late {
		v.sure = false
		w.x.Class("a viewer of a stream that has sent nothing yet")
	} else if v.r == nil {
		if !v.v.WaitMedia(wire.Wait, func(ts []ref.FTag) bool { return len(ts) > 0 }) {
			return fmt.Errorf("the %s viewer gets nothing", kindName(kind))
		}
	} else if v.join > 0 {
		if !v.r.WaitFrames(wire.Wait, func(f []wire.RTSPFrame) bool { return len(f) > 0 }) {
			return fmt.Errorf("the RTSP viewer gets nothing of %d frames", v.join)
		}
		v.sure = true
	}
	return nil
}

func (w *world) drop(v *mview) {
	for i := range w.views {
		if w.views[i] == v {
			w.views = append(w.views[:i:i], w.views[i+1:]...)
			return
		}
	}
}

func (w *world) leave(o mop) error {
	if len(w.views) == 0 {
		return nil
	}
	v := w.views[o.A%len(w.views)]
	if v.shared || len(v.ep) != 1 || v.ep[0].over {
		return nil
	}
	// what it has so far must be of its stream
	if len(v.ep) == 1 {
		if _, err := v.marks(v.ep[0]); err != nil {
			return err
		}
	}
	switch {
	case o.How%3 == 0 && v.kind == 0:
		c := v.v.(*wire.Client)
		c.Command(ref.AS("deleteStream"), ref.AN(0), ref.ANil(), ref.AN(1))
		if !c.Sync() {
			return fmt.Errorf("deleteStream of a player ends the connection")
		}
	case o.How%3 == 0 && v.kind == 3:
		p, err := v.r.Request("TEARDOWN", "*", "", nil)
		if err != nil || p.Status != 200 {
			return fmt.Errorf("TEARDOWN of a player: status %d %v", p.Status, err)
		}
	case o.How%3 == 1:
		if v.r != nil {
			v.r.Reset()
		} else if c, ok := v.v.(*wire.Client); ok {
			c.Reset()
		}
	}
	w.drop(v)
	v.close()
	w.x.Class("viewer leaves")
	return nil
}

// intrude lets players send media.
func (w *world) intrude(o mop) error {
	if len(w.views) == 0 {
		return nil
	}
	v := w.views[o.A%len(w.views)]
	if v.shared || len(v.ep) != 1 || v.ep[0].over {
		return nil
	}
	s := &msess{id: atomic.AddUint32(&ids, 1)}
	switch v.kind {
	case 0:
		s.c = v.v.(*wire.Client)
		if err := s.header(); err != nil {
			return err
		}
	case 3:
		s.rtsp, s.r = true, v.r
	default:
		return nil
	}
	w.x.Class("a player sends media")
	if err := w.send(s, o.N, true); err != nil {
		return fmt.Errorf("a player that sends media: %w", err)
	}
	return nil
}

func (w *world) dual(o mop) error {
	s := w.slots[o.A%nSlots]
	if s == nil || s.rtsp || s.ep == nil || s.dual != nil || s.app != w.apps[s.ep.stream] {
		return nil
	}
	for d := 0; d < nStreams; d++ {
		st := (o.B + d) % nStreams
		own := w.owner[st]
		if own == nil || own == s || own.late || w.apps[st] != s.app {
			continue
		}
		if len(s.c.Media()) > 0 || eof(s.c) {
			return nil // played before
		}
		if err := w.send(own, 0, true); err != nil {
			return err
		}
		code, err := s.c.Play(w.names[st])
		if err != nil || code == "NetStream.Play.StreamNotFound" {
			return fmt.Errorf("a publisher plays another live stream: %s %v", code, err)
		}
		v := &mview{kind: 0, v: s.c, ep: []*epoch{own.ep}, join: len(own.ep.keys), shared: true, sure: true}
		if !v.v.WaitMedia(wire.Wait, func(ts []ref.FTag) bool { return len(ts) > 0 }) {
			return fmt.Errorf("a publisher that plays another stream gets nothing")
		}
		s.dual = v
		w.views = append(w.views, v)
		w.x.Class("publisher plays")
		return nil
	}
	return nil
}

// race lets several clients publish one name at once, perhaps while its
// publisher leaves and viewers come.
func (w *world) race(o mop) error {
	st := o.B % nStreams
	own := w.owner[st]
	k := 2 + o.N%3
	cs := make([]*msess, k)
	for i := range cs {
		var err error
		if cs[i], err = w.newSession((o.How>>i)&1 != 0); err != nil {
			return err
		}
		if !cs[i].rtsp {
			if err := cs[i].connect(w.apps[st]); err != nil {
				return err
			}
		}
	}
	var slot int
	for i, s := range w.slots {
		if s != nil && s == own {
			slot = i
		}
	}
	leaving := own != nil && o.How&8 != 0 && own.dual == nil
	okv := make([]bool, k)
	errs := make([]error, k+3)
	var late []*mview
	var mu sync.Mutex
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range cs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			okv[i], errs[i] = w.attempt(cs[i], st)
		}()
	}
	if leaving {
		if err := w.send(own, 0, true); err != nil {
			return err
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			if own.rtsp {
				own.r.Reset()
			} else {
				own.c.Reset()
			}
		}()
		for j := 0; j < 2; j++ {
			kind := (o.A + j) % 3
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				v, err := w.open(st, kind)
				errs[k+j] = err
				if v != nil {
					mu.Lock()
					v.sure = false
					late = append(late, v)
					mu.Unlock()
				}
			}()
		}
	}
	close(start)
	wg.Wait()
	win := -1
	for i := range cs {
		if errs[i] != nil {
			return fmt.Errorf("publishing at once: %w", errs[i])
		}
		if okv[i] {
			if win >= 0 {
				return fmt.Errorf("two of %d clients that publish %s/%s at once are accepted", k, w.apps[st], w.names[st])
			}
			win = i
		}
	}
	for _, e := range errs[k:] {
		if e != nil {
			return fmt.Errorf("viewer while the publisher leaves: %w", e)
		}
	}
	w.x.Class("race to publish")
	if !leaving {
		if own != nil && win >= 0 {
			return fmt.Errorf("%s/%s is published a second time", w.apps[st], w.names[st])
		}
		if own == nil && win < 0 {
			return fmt.Errorf("all of %d clients that publish the free name %s/%s at once are refused", k, w.apps[st], w.names[st])
		}
	}
	var old *epoch
	if leaving {
		old = own.ep
		own.ep = nil
		w.slots[slot] = nil
		w.owner[st] = nil
		w.x.Class("race with a leaving publisher")
	}
	if win >= 0 {
		if err := w.own(cs[win], st, false); err != nil {
			return err
		}
		free := -1
		for i := range w.slots {
			if w.slots[i] == nil {
				free = i
			}
		}
		if free < 0 { // no room: it takes the place of the last client
			free = nSlots - 1
			if w.slots[free] == own {
				free = 0
			}
			for w.slots[free].ep != nil && free > 0 {
				free--
			}
			if err := w.stop(free, 3); err != nil {
				return err
			}
			if w.slots[free] != nil {
				w.slots[free] = nil
			}
		}
		w.slots[free] = cs[win]
	}
	if leaving {
		w.stops++
		if err := w.ended(old, old.synced, false); err != nil {
			return err
		}
		for _, v := range late {
			// of the old publication or of the new one
			v.ep = []*epoch{old}
			if win >= 0 {
				v.ep = append(v.ep, cs[win].ep)
			}
			w.views = append(w.views, v)
		}
	}
	// the losers send media all the same
	for i, s := range cs {
		if i == win {
			continue
		}
		if !s.rtsp {
			if err := s.header(); err != nil {
				return err
			}
		}
		if err := w.send(s, 2, true); err != nil {
			return fmt.Errorf("a refused publisher: %w", err)
		}
		if s.rtsp {
			s.r.Close()
		} else {
			s.c.Close()
		}
	}
	return nil
}

func runMulti(x *eng.Ctx, c multi) error {
	s, err := wire.Start(wire.Options{RTSP: true})
	if err != nil {
		return err
	}
	w := &world{x: x, s: s}
	n := wire.Name()
	w.apps = [nStreams]string{"live", "live", "app2", "live"}
	w.names = [nStreams]string{n, n + "0", n, "x" + n}
	defer func() {
		for _, v := range w.views {
			v.close()
		}
		for _, s := range w.all {
			if s.rtsp {
				s.r.Close()
			} else {
				s.c.Close()
			}
		}
	}()
	step := func(o mop) error {
		if o.A < 0 || o.B < 0 || o.How < 0 || o.N < 0 || o.N > 50 {
			return nil
		}
		switch o.Op {
		case opPub:
			return w.publish(o)
		case opSend:
			if s := w.slots[o.A%nSlots]; s != nil {
				if s.ep == nil && s.rtsp == false {
					x.Class("a client that does not publish sends media")
					if err := s.header(); err != nil {
						return err
					}
				}
				return w.send(s, o.N, o.How%3 != 0)
			}
		case opStop:
			return w.stop(o.A%nSlots, o.How)
		case opView:
			return w.view(o)
		case opLeave:
			return w.leave(o)
		case opIntrude:
			return w.intrude(o)
		case opDual:
			return w.dual(o)
		case opRace:
			return w.race(o)
		case opConnect:
			if s := w.slots[o.A%nSlots]; s != nil && !s.rtsp {
				return s.connect(wire.Apps[o.B%2])
			}
		}
		return nil
	}
	for i, o := range c.Ops {
		if err := step(o); err != nil {
			return fmt.Errorf("operation %d: %w", i, err)
		}
	}
	return w.finish()
}

// finish checks the streams that are live at the end, then ends them.
func (w *world) finish() error {
	for _, s := range w.owner {
		if s == nil {
			continue
		}
		if err := w.send(s, 3, true); err != nil {
			return err
		}
	}
	for _, v := range w.views {
		if len(v.ep) != 1 || v.ep[0].over {
			continue
		}
		ep := v.ep[0]
		deadline := time.Now().Add(wire.Wait)
		for {
			got, err := v.marks(ep)
			if err != nil {
				return fmt.Errorf("%s viewer: %w", kindName(v.kind), err)
			}
			if len(got) > 0 && int(got[len(got)-1]) == len(ep.keys)-1 {
				break
			}
			if time.Now().After(deadline) {
				return fmt.Errorf("%s viewer (joined after %d frames): the last of %d frames does not arrive: %v", kindName(v.kind), v.join, len(ep.keys), got)
			}
			time.Sleep(200 * time.Microsecond)
		}
		if err := v.check(ep); err != nil {
			return fmt.Errorf("%s viewer: %w", kindName(v.kind), err)
		}
	}
	for k, s := range w.slots {
		if s != nil {
			if err := w.stop(k, 3); err != nil {
				return err
			}
		}
	}
	for _, v := range w.views { // those that raced with a leaving publisher
		if !v.released(wire.Wait) {
			return fmt.Errorf("a %s viewer that came while the publisher left is not released", kindName(v.kind))
		}
		var err error
		for _, ep := range v.ep {
			if err = v.check(ep); err == nil {
				break
			}
		}
		if err != nil {
			return fmt.Errorf("%s viewer that came while the publisher left: %w", kindName(v.kind), err)
		}
	}
	if w.played > 0 && (w.refused > 0 || w.stops > 1) {
		w.x.NonTrivial()
	}
	return nil
}

func init() {
	o := eng.Opts{
		Rule:     "somebody watched, and an attempt was refused or a publication ended before the end of the history",
		Quick:    eng.Budget{Shards: 8, Cases: 900, Wall: 60 * time.Second},
		Thorough: eng.Budget{Shards: 8, Cases: 100000, Wall: 600 * time.Second},
		Net:      true,
	}
	eng.Register("C07", o, genMulti([]int{opPub: 6, opSend: 5, opStop: 2, opView: 5, opLeave: 1, opIntrude: 2, opDual: 1, opRace: 2, opConnect: 1}), runMulti)
	eng.Register("C08", o, genMulti([]int{opPub: 5, opSend: 4, opStop: 5, opView: 5, opLeave: 1, opIntrude: 0, opDual: 1, opRace: 1, opConnect: 1}), runMulti)
}
