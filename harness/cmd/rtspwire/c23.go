package main

import (
	"bytes"
	"fmt"
	"math"
	"net"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verif/harness/eng"
	"verif/harness/ref"
	"verif/harness/wire"
)

// c23 is a publication over RTSP.
type c23 struct {
	Video, Audio bool
	ASC          []byte
	Rate, Chans  int
	Units        []au
	Group        []int // audio: frames that travel in the packet of this frame, before it
	TS0          [2]uint32
	Seq0         [2]uint16
	Step         []int // RTP ticks from the previous frame of the track
	MTU          int
	Agg          bool
	Ext          []int  // per packet: 1 extension, 2 csrcs, 4 padding
	Order        []bool // tracks in SETUP order, true audio
	UDP          []bool
	Chan         []int
	Form         int
	Single       bool   // the Transport header names the first channel or port only
	Ctl          int    // form of the announced control attributes
	URL          int    // spelling of the URL
	Long         [2]int // extra bytes of the announced parameter sets
	Splits       []int
	Wrong        []int
	Noise        int // interleaved frames on channels that were not set up
	Joins        []int
	Kinds        []int // viewer kinds: 0 RTMP, 1 FLV
	Leave        int   // 0 teardown, 1 close, 2 reset
	Forge        bool  // another host sends to the UDP ports of the session
}

func genC23(t *rapid.T) c23 {
	c := c23{Video: true, Audio: true}
	switch rapid.IntRange(0, 5).Draw(t, "tracks") {
	case 0:
		c.Audio = false
	case 1:
		c.Video = false
	}
	c.ASC, c.Rate, c.Chans = genASC(t)
	n := rapid.IntRange(1, rapid.SampledFrom([]int{3, 10, 25}).Draw(t, "max")).Draw(t, "n")
	switch {
	case !c.Video:
		c.Order = []bool{true}
	case !c.Audio:
		c.Order = []bool{false}
	default:
		c.Order = rapid.SampledFrom([][]bool{{false, true}, {true, false}, {false, true}, {false}, {true}}).Draw(t, "order")
	}
	free := rapid.Permutation([]int{0, 2, 4, 10, 36, 254}).Draw(t, "chans")
	udp := false
	for i := range c.Order {
		u := rapid.IntRange(0, 3).Draw(t, "udp") == 0
		udp = udp || u
		c.UDP = append(c.UDP, u)
		c.Chan = append(c.Chan, free[i])
	}
	c.MTU = rapid.SampledFrom([]int{1400, 1400, 1450, 500, 60, 30000}).Draw(t, "mtu")
	if udp && c.MTU > 20000 {
		c.MTU = 1400
	}
	c.Agg = rapid.Bool().Draw(t, "agg")
	maxNAL := 40000
	if udp {
		maxNAL = 4000
	}
	if c.MTU < 100 {
		maxNAL = 2000
	}
	c.Units = genUnits(t, n, c.Audio, false, maxNAL, false)
	for i := range c.TS0 {
		c.TS0[i] = rapid.OneOf(rapid.Uint32Range(0, 1000), rapid.Uint32(), rapid.Uint32Range(math.MaxUint32-20000, math.MaxUint32)).Draw(t, "ts0")
		c.Seq0[i] = rapid.OneOf(rapid.Uint16Range(0, 10), rapid.Uint16(), rapid.Uint16Range(65500, 65535)).Draw(t, "seq0")
	}
	for range c.Units {
		c.Step = append(c.Step, rapid.SampledFrom([]int{0, 1, 1024, 2048, 3000, 3600, 3003, 7200, 90000, 900000, -3000}).Draw(t, "step"))
		c.Group = append(c.Group, rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "group"))
	}
	c.Ext = rapid.SliceOfN(rapid.IntRange(0, 7), 1, 5).Draw(t, "ext")
	c.Form = rapid.IntRange(0, 3).Draw(t, "form")
	c.Single = rapid.IntRange(0, 3).Draw(t, "single") == 0
	c.Ctl = rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4, 5, 6, 7, 7}).Draw(t, "ctl")
	c.URL = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "url")
	for i := range c.Long {
		c.Long[i] = rapid.OneOf(rapid.Just(0), rapid.Just(0), rapid.IntRange(0, 300), rapid.SampledFrom([]int{238, 239, 240, 250, 1000, 5000})).Draw(t, "long")
	}
	c.Splits = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 12), rapid.IntRange(1, 1000), rapid.Just(0)), 0, 12).Draw(t, "splits")
	c.Wrong = rapid.SliceOfN(rapid.IntRange(0, 10), 0, 4).Draw(t, "wrong")
	c.Noise = rapid.IntRange(0, 3).Draw(t, "noise")
	for i := rapid.IntRange(1, 3).Draw(t, "viewers"); i > 0; i-- {
		c.Joins = append(c.Joins, rapid.IntRange(-1, n).Draw(t, "join"))
		c.Kinds = append(c.Kinds, rapid.IntRange(0, 1).Draw(t, "kind"))
	}
	c.Leave = rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "leave")
	c.Forge = udp && rapid.Bool().Draw(t, "forge")
	return c
}

// packet is what the publisher sends for one write: the frames it completes.
type packet23 struct {
	audio bool
	ts    uint32
	data  [][]byte // payloads
	done  []want23
}

// want23 is one frame viewers have to see.
type want23 struct {
	audio, key bool
	nals       [][]byte // of video
	frame      []byte   // of audio
	ms         float64  // since the first frame of the track
}

func (c c23) packets() (out []packet23) {
	used := [2]bool{}
	for _, a := range c.Order {
		if a {
			used[1] = true
		} else {
			used[0] = true
		}
	}
	var ext [2]int64
	var began [2]bool
	clock := [2]float64{90000, float64(c.Rate)}
	for i, u := range c.Units {
		k := 0
		if u.Audio {
			k = 1
		}
		if !used[k] {
			continue
		}
		if began[k] {
			ext[k] = max(0, ext[k]+int64(c.Step[i]))
		}
		began[k] = true
		p := packet23{audio: u.Audio, ts: c.TS0[k] + uint32(ext[k])}
		if u.Audio {
			var fs [][]byte
			for j := 0; j <= c.Group[i]; j++ {
				v := u
				v.S += uint32(j) * 100003
				if j > 0 {
					v.Size = u.Size%500 + j
				}
				fs = append(fs, v.payload())
				p.done = append(p.done, want23{audio: true, frame: fs[j], ms: 1000 * float64(ext[k]+int64(j)*1024) / clock[k]})
			}
			ext[k] += int64(c.Group[i]) * 1024
			p.data = [][]byte{ref.PackAAC(fs...)}
		} else {
			ns := u.nals(false)
			w := want23{nals: ns, ms: 1000 * float64(ext[k]) / clock[k]}
			for _, n := range ns {
				w.key = w.key || n[0]&31 == 5
			}
			p.data = ref.PackH264(ns, c.MTU, c.Agg)
			p.done = []want23{w}
		}
		out = append(out, p)
	}
	return out
}

type view23 struct {
	v    wire.Viewer
	join int // frames certainly published when it joined
}

// check compares what a viewer received with the frames published.
func (c c23) check(got []ref.FTag, all []want23, join int, inOrder bool) error {
	ps := c.sets()
	var hv, ha bool
	type rec struct {
		t     ref.FTag
		audio bool
	}
	var media []rec
	for i, t := range got {
		switch wire.KindOf(t) {
		case wire.HVideo:
			if !c.Video || !bytes.Equal(t.Data[5:], ref.AVCRecord(ps[:1], ps[1:])) {
				return fmt.Errorf("tag %d: video header % x, announced % x", i, t.Data, ref.AVCRecord(ps[:1], ps[1:]))
			}
			if hv {
				return fmt.Errorf("tag %d: the video header comes again", i)
			}
			hv = true
		case wire.HAudio:
			if !c.Audio || !bytes.Equal(t.Data[2:], c.ASC) || t.Data[0]>>4 != 10 {
				return fmt.Errorf("tag %d: audio header % x, announced % x", i, t.Data, c.ASC)
			}
			if ha {
				return fmt.Errorf("tag %d: the audio header comes again", i)
			}
			ha = true
		default:
			switch t.Type {
			case 18:
				continue
			case 8:
				if !ha {
					return fmt.Errorf("tag %d: audio before its header", i)
				}
				if len(t.Data) < 2 || t.Data[0]>>4 != 10 || t.Data[1] != 1 {
					return fmt.Errorf("tag %d is no AAC frame: % x", i, t.Data[:min(8, len(t.Data))])
				}
			case 9:
				if !hv {
					return fmt.Errorf("tag %d: video before its header", i)
				}
				if len(t.Data) < 5 || t.Data[0]&15 != 7 || t.Data[1] != 1 {
					return fmt.Errorf("tag %d is no H.264 frame: % x", i, t.Data[:min(8, len(t.Data))])
				}
			}
			media = append(media, rec{t, t.Type == 8})
		}
	}
	if hv != c.Video || ha != c.Audio {
		return fmt.Errorf("headers received: video %v audio %v", hv, ha)
	}
	track := func(rs []rec, ws []want23) error {
		if len(rs) != len(ws) {
			return fmt.Errorf("%d frames received, %d published from there", len(rs), len(ws))
		}
		var first [2]struct {
			ok bool
			ts uint32
			ms float64
		}
		for i, w := range ws {
			r := rs[i]
			if r.audio != w.audio {
				return fmt.Errorf("frame %d: audio %v, published audio %v", i, r.audio, w.audio)
			}
			k := 0
			if w.audio {
				k = 1
				if !bytes.Equal(r.t.Data[2:], w.frame) {
					return fmt.Errorf("audio frame %d differs: %d bytes, published %d", i, len(r.t.Data)-2, len(w.frame))
				}
			} else {
				ns, err := ref.SplitAVCC(r.t.Data[5:])
				if err != nil {
					return err
				}
				if len(ns) != len(w.nals) {
					return fmt.Errorf("video frame %d: %d NAL units, published %d", i, len(ns), len(w.nals))
				}
				for j := range ns {
					if !bytes.Equal(ns[j], w.nals[j]) {
						return fmt.Errorf("video frame %d: NAL unit %d differs (%d bytes, published %d)", i, j, len(ns[j]), len(w.nals[j]))
					}
				}
				if key := r.t.Data[0]>>4 == 1; key != w.key {
					return fmt.Errorf("video frame %d: marked as keyframe %v, published %v", i, key, w.key)
				}
				if r.t.Data[2]|r.t.Data[3]|r.t.Data[4] != 0 {
					return fmt.Errorf("video frame %d: composition offset % x", i, r.t.Data[2:5])
				}
			}
			f := &first[k]
			if !f.ok {
				f.ok, f.ts, f.ms = true, r.t.TS, w.ms
			}
			if d := float64(int32(r.t.TS-f.ts)) - (w.ms - f.ms); d < -1.01 || d > 1.01 {
				return fmt.Errorf("frame %d (audio %v): %d ms after the first one, the RTP clock says %.2f", i, w.audio, int32(r.t.TS-f.ts), w.ms-f.ms)
			}
		}
		return nil
	}
	var best error
	for from := min(max(join, 0), len(all)); from >= 0; from-- {
		if from > 0 && from < len(all) && !all[from].key {
			old := false
			for _, w := range all[:from] {
				old = old || w.key
			}
			if old {
				continue
			}
		}
		var e error
		if inOrder {
			e = track(media, all[from:])
		} else {
			for _, a := range []bool{false, true} {
				var rs []rec
				var ws []want23
				for _, r := range media {
					if r.audio == a {
						rs = append(rs, r)
					}
				}
				for _, w := range all[from:] {
					if w.audio == a {
						ws = append(ws, w)
					}
				}
				if e == nil {
					e = track(rs, ws)
				}
			}
		}
		if e == nil {
			return nil
		}
		best = e
	}
	return best
}

func count23(ts []ref.FTag) (n int) {
	for _, t := range ts {
		if t.Type != 18 && wire.KindOf(t) == wire.NotHeader {
			n++
		}
	}
	return n
}

// sets are the announced parameter sets.
func (c c23) sets() [][]byte {
	ps := sets(false, 0)
	for i := range c.Long {
		ps[i] = append(ps[i], ref.Fill(uint32(i)+77, min(max(c.Long[i], 0), 20000))...)
	}
	return ps
}

func runC23(x *eng.Ctx, c c23) error {
	n := len(c.Units)
	if n == 0 || len(c.Order) == 0 || len(c.UDP) != len(c.Order) || len(c.Chan) != len(c.Order) || len(c.Step) != n || len(c.Group) != n || len(c.Kinds) != len(c.Joins) || len(c.ASC) < 2 || c.MTU < 10 || len(c.Ext) == 0 || !c.Video && !c.Audio {
		return nil
	}
	for _, u := range c.Units {
		if !u.Audio && len(u.NALs) == 0 || u.Audio && u.Size < 1 {
			return nil
		}
	}
	s, err := wire.Start(wire.Options{RTSP: true})
	if err != nil {
		return err
	}
	name := wire.Name()
	url := s.RTSPURL("live", name)
	r, err := wire.DialRTSP(s)
	if err != nil {
		return fmt.Errorf("%w: %v", eng.ErrInconclusive, err)
	}
	defer r.Close()
	r.Splits = c.Splits
	switch c.URL {
	case 1:
		url += "?token=abc"
	case 2:
		url = "RTSP" + strings.TrimPrefix(url, "rtsp")
	}
	if c.URL != 0 {
		x.Class("URL with a query or in another case")
	}
	ps := c.sets()
	if len(ps[1]) > 255 || len(ps[0]) > 255 {
		x.Class("long parameter set")
	}
	var sps, pps, asc []byte
	if c.Video {
		sps, pps = ps[0], ps[1]
	}
	if c.Audio {
		asc = c.ASC
	}
	ctl := func(k int) (attr, setup string) {
		setup = fmt.Sprintf("%s/streamid=%d", url, k)
		switch c.Ctl {
		case 1:
			return setup, setup
		case 2:
			return setup + "/", setup + "/"
		case 3:
			return setup + "/", setup
		case 4:
			return fmt.Sprintf("trackID=%d", k+1), fmt.Sprintf("%s/trackID=%d/", url, k+1)
		case 5:
			return fmt.Sprintf("/stream%d/", k), fmt.Sprintf("%s/stream%d", url, k)
		case 7: // one name ends with the other
			return []string{"track1", "subtrack1"}[k], url + []string{"/track1", "/subtrack1"}[k]
		case 6:
			return fmt.Sprintf("av/track%d", k), fmt.Sprintf("%s/av/track%d", url, k)
		}
		return fmt.Sprintf("streamid=%d", k), setup
	}
	if c.Ctl != 0 {
		x.Class("control attributes of another form")
	}
	vctl, _ := ctl(0)
	actl, _ := ctl(1)
	sdp := wire.AnnounceSDPControl(sps, pps, asc, c.Rate, c.Chans, vctl, actl)
	wrong := append([]int(nil), c.Wrong...)
	trip := func(announced, setup bool) error {
		if len(wrong) == 0 {
			return nil
		}
		k := wrong[0]
		wrong = wrong[1:]
		x.Class("request that must fail")
		return wrong23(s, r, url, name, sdp, k, announced, setup)
	}
	if err := trip(false, false); err != nil {
		return err
	}
	a, err := r.Request("ANNOUNCE", url, "Content-Type: application/sdp\r\n", sdp)
	if err != nil {
		return err
	}
	if a.Status != 200 {
		return fmt.Errorf("ANNOUNCE: status %d", a.Status)
	}
	if err := trip(true, false); err != nil {
		return err
	}
	var socks [2]*net.UDPConn
	var ports, chans [2]int
	var opened []int
	var udp [2]bool
	inOrder := true
	for i, audio := range c.Order {
		k := 0
		if audio {
			k = 1
		}
		_, u := ctl(k)
		udp[k] = c.UDP[i]
		inOrder = inOrder && !c.UDP[i]
		if c.UDP[i] {
			port, sock, err := r.OpenUDP(s, i)
			if err != nil {
				return fmt.Errorf("%w: %v", eng.ErrInconclusive, err)
			}
			tr := fmt.Sprintf([]string{"RTP/AVP;unicast;client_port=%d-%d;mode=record", "RTP/AVP/UDP;unicast;client_port=%d-%d", "RTP/AVP;client_port=%d-%d;mode=record", "RTP/AVP;unicast; client_port=%d-%d"}[c.Form&3], port, port+1)
			if c.Single {
				tr = strings.Replace(tr, fmt.Sprintf("-%d", port+1), "", 1)
			}
			p, err := r.Request("SETUP", u, "Transport: "+tr+"\r\n", nil)
			if err != nil {
				return err
			}
			if p.Status != 200 {
				return fmt.Errorf("SETUP %s over UDP (%s): status %d", u, tr, p.Status)
			}
			var sp, sp2 int
			for _, f := range strings.Split(p.Header["transport"], ";") {
				fmt.Sscanf(f, "server_port=%d-%d", &sp, &sp2)
			}
			if sp <= 0 || sp2 != sp+1 {
				return fmt.Errorf("SETUP answered with transport %q, asked for %q", p.Header["transport"], tr)
			}
			socks[k], ports[k] = sock, sp
			opened = append(opened, sp)
			x.Class("UDP")
		} else {
			ch := c.Chan[i] & 0xff
			chans[k] = ch
			tr := fmt.Sprintf([]string{"RTP/AVP/TCP;unicast;interleaved=%d-%d;mode=record", "RTP/AVP/TCP;interleaved=%d-%d", "RTP/AVP/TCP;unicast;mode=record;interleaved=%d-%d", "RTP/AVP/TCP;unicast; interleaved=%d-%d"}[c.Form&3], ch, ch+1)
			if c.Single {
				tr = strings.Replace(tr, fmt.Sprintf("-%d", ch+1), "", 1)
			}
			p, err := r.Request("SETUP", u, "Transport: "+tr+"\r\n", nil)
			if err != nil {
				return err
			}
			if p.Status != 200 {
				return fmt.Errorf("SETUP %s over TCP (%s): status %d", u, tr, p.Status)
			}
			x.Class("interleaved")
		}
		if i+1 < len(c.Order) {
			if err := trip(true, true); err != nil {
				return err
			}
		}
	}
	if err := trip(true, true); err != nil {
		return err
	}
	p, err := r.Request("RECORD", url, "Range: npt=0.000-\r\n", nil)
	if err != nil {
		return err
	}
	if p.Status != 200 {
		return fmt.Errorf("RECORD: status %d", p.Status)
	}

	pk := c.packets()
	var all []want23
	var views []view23
	open := func(kind, join int) error {
		var v wire.Viewer
		if kind == 0 {
			cl, err := wire.Player(s, "live", name)
			if err != nil {
				return err
			}
			v = cl
		} else {
			f, err := wire.GetFLV(s, "live", name)
			if err != nil {
				return err
			}
			if f.Status != 200 {
				return fmt.Errorf("HTTP-FLV: status %d", f.Status)
			}
			v = f
		}
		views = append(views, view23{v, join})
		// the announced headers are there already: they tell that it joined
		if !v.WaitMedia(wire.Wait, func(ts []ref.FTag) bool { return len(ts) > 0 }) {
			return fmt.Errorf("a viewer of the announced stream receives no header")
		}
		return nil
	}
	defer func() {
		for _, v := range views {
			v.v.Close()
		}
	}()
	if err := open(1, 0); err != nil { // the witness
		return err
	}
	witness := views[0].v
	join := func(i int) error {
		for k, j := range c.Joins {
			if j == i {
				if err := open(c.Kinds[k], len(all)); err != nil {
					return err
				}
				if len(all) > 0 {
					x.Class("late viewer")
				}
			}
		}
		return nil
	}
	if err := join(-1); err != nil {
		return err
	}
	var forger *net.UDPConn
	if c.Forge {
		if forger, err = net.ListenUDP("udp", &net.UDPAddr{IP: net.IPv4(127, 1, 2, 3)}); err != nil {
			return fmt.Errorf("%w: %v", eng.ErrInconclusive, err)
		}
		defer forger.Close()
		x.Class("packets of another host")
	}
	var seq [2]uint16
	seq = c.Seq0
	npk := 0
	send := func(p packet23) error {
		k := 0
		if p.audio {
			k = 1
		}
		for i, d := range p.data {
			h := ref.RTP{PT: byte(96 + k), Seq: seq[k], TS: p.ts, SSRC: 0xabcd0000 + uint32(k), Marker: i == len(p.data)-1, Payload: d}
			if e := c.Ext[npk%len(c.Ext)]; e != 0 {
				if e&1 != 0 {
					h.ExtProf, h.Ext = 0xbede, []byte{0x10, 1, 0, 0}
				}
				if e&2 != 0 {
					h.CSRC = []uint32{1, 0xffffffff}
				}
				if e&4 != 0 {
					h.Pad = 7
				}
			}
			seq[k]++
			npk++
			b := h.Encode()
			if udp[k] && forger != nil && npk%3 == 1 {
				f := h
				f.Marker, f.ExtProf, f.Ext, f.CSRC, f.Pad = true, 0, nil, nil, 0
				f.Payload = []byte{0x65, 0x66, 0x67, 0x68}
				if p.audio {
					f.Payload = ref.PackAAC([]byte("forged"))
				}
				forger.WriteTo(f.Encode(), &net.UDPAddr{IP: net.ParseIP(s.IP), Port: ports[k]})
			}
			if udp[k] {
				if _, err := socks[k].WriteTo(b, &net.UDPAddr{IP: net.ParseIP(s.IP), Port: ports[k]}); err != nil {
					return fmt.Errorf("%w: %v", eng.ErrInconclusive, err)
				}
				continue
			}
			fr := wire.Interleave(chans[k], b)
			if c.Noise > 0 && npk%(c.Noise+1) == 0 {
				ch := 200 // set up by nobody
				if c.Noise == 2 {
					ch = chans[k] + 1 // RTCP
				}
				rtcp := []byte{0x80, 200, 0, 1, 0, 0, 0, 1}
				if npk&1 == 0 { // a sender report
					rtcp = append([]byte{0x80, 200, 0, 6, 0, 0, 0, 1, 1, 2, 3, 4}, 0, 16, 0, 96, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12)
					if k == 0 {
						copy(rtcp[12:], []byte{0x41, 1})
					}
				}
				fr = append(wire.Interleave(ch, rtcp), fr...)
			}
			if err := r.Write(fr); err != nil {
				return fmt.Errorf("the publisher's session ended: %w", err)
			}
		}
		return nil
	}
	wait := func() error {
		if !witness.WaitMedia(wire.Wait, func(ts []ref.FTag) bool { return count23(ts) >= len(all) }) {
			return fmt.Errorf("%d frames published, the viewer received %d (%v)", len(all), count23(witness.Media()), c.check(witness.Media(), all, 0, inOrder))
		}
		return nil
	}
	for i, q := range pk {
		need := i == 0 || !inOrder
		for _, j := range c.Joins {
			need = need || j == i
		}
		if need && i > 0 {
			if err := wait(); err != nil {
				return err
			}
		}
		if err := join(i); err != nil {
			return err
		}
		if err := send(q); err != nil {
			return err
		}
		all = append(all, q.done...)
	}
	if err := wait(); err != nil {
		return err
	}
	if err := join(len(pk)); err != nil {
		return err
	}
	if inOrder {
		g, err := r.Request("GET_PARAMETER", url, "", nil)
		if err != nil {
			return err
		}
		if g.Status != 200 {
			return fmt.Errorf("GET_PARAMETER while recording: status %d", g.Status)
		}
	}
	for i, v := range views {
		// whatever the viewer starts with, it ends with the last frame
		var e error
		deadline := time.Now().Add(wire.Wait)
		for {
			if e = c.check(v.v.Media(), all, v.join, inOrder); e == nil || time.Now().After(deadline) {
				break
			}
			if done, fe := v.v.End(); done {
				if e = c.check(v.v.Media(), all, v.join, inOrder); e == nil {
					break
				}
				return fmt.Errorf("viewer %d was cut off: %v %v", i, e, fe)
			}
			n := len(v.v.Media())
			v.v.WaitMedia(20*time.Millisecond, func(ts []ref.FTag) bool { return len(ts) > n })
		}
		if e != nil {
			return fmt.Errorf("viewer %d (joined after %d of %d frames): %w", i, v.join, len(all), e)
		}
	}
	switch c.Leave {
	case 0:
		t, err := r.Request("TEARDOWN", url, "", nil)
		if err != nil {
			return err
		}
		if t.Status != 200 {
			return fmt.Errorf("TEARDOWN: status %d", t.Status)
		}
	case 1:
		r.Close()
	case 2:
		r.Reset()
	}
	for i, v := range views {
		if !wire.WaitEnd(v.v, wire.Wait) {
			return fmt.Errorf("viewer %d is not released after the publisher left", i)
		}
		if _, fe := v.v.End(); fe != nil {
			return fe
		}
		if e := c.check(v.v.Media(), all, v.join, inOrder); e != nil {
			return fmt.Errorf("viewer %d at the end: %w", i, e)
		}
	}
	r.Close()
	if err := freed(opened); err != nil {
		return err
	}
	if len(pk) > 1 && (len(c.Splits) > 2 || !inOrder || len(c.Joins) > 0) {
		x.NonTrivial()
	}
	return nil
}

// wrong23 sends a request that must fail and leave the session usable.
func wrong23(s *wire.Server, r *wire.RTSP, url, name string, sdp []byte, k int, announced, setup bool) error {
	type rq struct {
		m, u, h string
		b       []byte
		want    []int
	}
	ct := "Content-Type: application/sdp\r\n"
	tcp := "Transport: RTP/AVP/TCP;unicast;interleaved=0-1\r\n"
	reqs := []rq{
		{"ANNOUNCE", "rtsp://" + s.RTSP + "/nosuchapp/" + name, ct, sdp, []int{404, 403}},
		{"RECORD", url, "", nil, []int{455, 454}},
		{"PLAY", url, "", nil, []int{455, 454}},
		{"FROBNICATE", url, "", nil, []int{501, 405, 551}},
		{"SETUP", url + "/nosuchtrack=9", tcp, nil, []int{404, 455}},
		{"SETUP", url + "/streamid=0", "Transport: RTP/AVP;multicast\r\n", nil, nil},
		{"SETUP", url + "/streamid=0", "Transport: RAW/RAW/UDP;unicast\r\n", nil, nil},
		{"ANNOUNCE", url, ct, []byte("this is no session description"), nil},
	}
	if announced {
		// another client cannot take the stream over
		q, err := wire.DialRTSP(s)
		if err != nil {
			return fmt.Errorf("%w: %v", eng.ErrInconclusive, err)
		}
		defer q.Close()
		p, err := q.Request("ANNOUNCE", url, ct, sdp)
		if err != nil {
			return err
		}
		if p.Status < 400 {
			return fmt.Errorf("a second publisher may ANNOUNCE the stream: status %d", p.Status)
		}
		reqs = append(reqs, rq{"ANNOUNCE", url, ct, sdp, []int{455, 461}}, rq{"ANNOUNCE", url + "x", ct, sdp, []int{455}})
	}
	q := reqs[k%len(reqs)]
	if setup && q.m == "RECORD" {
		return nil
	}
	p, err := r.Request(q.m, q.u, q.h, q.b)
	if err != nil {
		return err
	}
	if p.Status < 400 {
		return fmt.Errorf("%s %s %q: status %d, expected an error", q.m, q.u, q.h, p.Status)
	}
	ok := len(q.want) == 0
	for _, w := range q.want {
		ok = ok || w == p.Status
	}
	if !ok {
		return fmt.Errorf("%s %s %q: status %d, expected one of %v", q.m, q.u, q.h, p.Status, q.want)
	}
	return nil
}

func init() {
	eng.Register("C23", eng.Opts{
		Rule:     "more than one packet, and a segmented TCP stream, a UDP track or viewers joining at chosen points",
		Quick:    eng.Budget{Shards: 8, Cases: 700, Wall: 60 * time.Second},
		Thorough: eng.Budget{Shards: 8, Cases: 100000, Wall: 600 * time.Second},
		Net:      true,
	}, genC23, runC23)
}
