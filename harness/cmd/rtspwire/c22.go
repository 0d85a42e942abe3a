package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"net"
	"os"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verif/harness/eng"
	"verif/harness/ref"
	"verif/harness/wire"
)

// au is one published frame.
type au struct {
	Audio bool     `json:"a,omitempty"`
	Key   bool     `json:"k,omitempty"`
	NALs  [][2]int `json:"n,omitempty"` // type, payload bytes
	Size  int      `json:"z,omitempty"` // audio frame size
	TS    uint32   `json:"ts"`
	C     int      `json:"c,omitempty"`
	S     uint32   `json:"s"`
	Seq   bool     `json:"q,omitempty"` // a new video sequence header comes first
}

type c22 struct {
	HEVC   bool
	Audio  int // 0 none, 1 AAC, 2 Opus
	ASC    []byte
	Rate   int
	Chans  int
	Units  []au
	Join   int    // frames published before the player starts
	Tracks []bool // tracks set up, in order: false video, true audio
	UDP    []bool // per SETUP
	Chan   []int  // per SETUP: first interleaved channel
	Form   int    // spelling of the Transport header
	Single bool   // the Transport header names the first channel or port only
	URL    int    // spelling of the URL
	Wrong  []int  // requests that must fail, sent in between
	During []int  // requests while playing
	Leave  int    // 0 teardown, 1 close, 2 the publisher leaves
	Multi  bool   // H.264: the record has more parameter sets than one of each
	Again  []int  // per SETUP: an earlier one of the same track, 1 UDP, 2 interleaved
}

var aacRates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

// genASC draws an AudioSpecificConfig.
func genASC(t *rapid.T) (cfg []byte, rate, ch int) {
	sr := rapid.IntRange(0, 12).Draw(t, "sr")
	chc := rapid.IntRange(1, 7).Draw(t, "ch")
	v := uint16(rapid.IntRange(1, 4).Draw(t, "ot"))<<11 | uint16(sr)<<7 | uint16(chc)<<3
	ch = chc
	if chc == 7 {
		ch = 8
	}
	return []byte{byte(v >> 8), byte(v)}, aacRates[sr], ch
}

// genUnits draws frames of a stream.
func genUnits(t *rapid.T, n int, audio, hevc bool, maxNAL int, wrap bool) (out []au) {
	ts := uint32(0)
	switch rapid.IntRange(0, 4).Draw(t, "ts0") {
	case 0:
		ts = 0xffffff - uint32(rapid.IntRange(0, 300).Draw(t, "b"))
	case 1:
		ts = 47721858 - uint32(rapid.IntRange(0, 300).Draw(t, "b")) // 2^32/90
	case 2:
		ts = rapid.Uint32Range(0, 1<<31).Draw(t, "b")
	case 3:
		if wrap && !audio {
			ts = 0xffffffff - uint32(rapid.IntRange(0, 300).Draw(t, "b"))
		}
	}
	seed := rapid.Uint32Range(1, 1<<20).Draw(t, "seed")
	for i := 0; i < n; i++ {
		seed++
		u := au{TS: ts, S: seed}
		if audio && rapid.IntRange(0, 2).Draw(t, "audio") == 0 {
			u.Audio = true
			u.Size = rapid.OneOf(rapid.IntRange(1, 600), rapid.SampledFrom([]int{1, 2, 7, 1399, 1400, 1401, 4095, 8191})).Draw(t, "asize")
		} else {
			u.Key = i == 0 || rapid.IntRange(0, 3).Draw(t, "key") == 0
			u.C = rapid.SampledFrom([]int{0, 0, 0, 40, 80, -40, 1, 8388607}).Draw(t, "cts")
			if rapid.IntRange(0, 9).Draw(t, "newseq") == 0 && u.Key && i > 0 {
				u.Seq = true
			}
			size := func() int {
				switch rapid.IntRange(0, 4).Draw(t, "ns") {
				case 0:
					return rapid.IntRange(0, 6).Draw(t, "tiny")
				case 1:
					return min(maxNAL, rapid.IntRange(1, 6).Draw(t, "k")*1398+rapid.IntRange(-4, 6).Draw(t, "d"))
				}
				return min(maxNAL, rapid.IntRange(2, 500).Draw(t, "small"))
			}
			typ := []int{1, 1, 6, 2}
			kt := 5
			if hevc {
				typ, kt = []int{1, 0, 39, 8}, rapid.SampledFrom([]int{19, 20, 21}).Draw(t, "kt")
			}
			if u.Key {
				typ = append(typ, kt, kt) // further slices of the picture
			}
			for k := rapid.IntRange(0, 2).Draw(t, "more"); k > 0; k-- {
				u.NALs = append(u.NALs, [2]int{rapid.SampledFrom(typ).Draw(t, "type"), size()})
			}
			last := typ[0]
			if u.Key {
				last = kt
			}
			u.NALs = append(u.NALs, [2]int{last, size()})
			if rapid.IntRange(0, 5).Draw(t, "trailing") == 0 {
				u.NALs = append(u.NALs, [2]int{typ[len(typ)-1], size()})
			}
		}
		out = append(out, u)
		ts += uint32(rapid.SampledFrom([]int{0, 10, 20, 23, 33, 40, 40, 1000}).Draw(t, "dt"))
	}
	return out
}

func (u au) nals(hevc bool) (out [][]byte) {
	for i, n := range u.NALs {
		h := []byte{byte(u.S&3)<<5 | byte(n[0])&31} // any nal_ref_idc the type allows
		switch {
		case hevc:
		case n[0] == 5:
			h[0] = byte(1+u.S%3)<<5 | 5
		case n[0] == 6:
			h[0] = 6
		}
		if hevc {
			h = []byte{byte(n[0]&63) << 1, 1}
		}
		out = append(out, append(h, ref.Fill(u.S+uint32(i)*7919, max(n[1], 0))...))
	}
	return out
}

func sets(hevc bool, gen int) [][]byte {
	if hevc {
		return [][]byte{
			append([]byte{0x40, 1}, ref.Fill(uint32(gen)*3+11, 10)...),
			append([]byte{0x42, 1}, ref.Fill(uint32(gen)*3+12, 20+gen%4*250)...),
			append([]byte{0x44, 1}, ref.Fill(uint32(gen)*3+13, 7+gen%4*300)...),
		}
	}
	return [][]byte{
		append([]byte{0x67, 0x42, 0xc0, 0x1e}, ref.Fill(uint32(gen)*3+1, 12+gen%4*250)...),
		append([]byte{0x68}, ref.Fill(uint32(gen)*3+2, 5+gen%4*300)...),
	}
}

func (c c22) seqHeader(ts uint32, gen int) wire.Pub {
	s := sets(c.HEVC, gen)
	p := wire.Pub{FTag: ref.FTag{Type: 9, TS: ts}}
	if c.HEVC {
		p.Data = append([]byte{0x1c, 0, 0, 0, 0}, ref.HEVCRecord(s[:1], s[1:2], s[2:])...)
	} else {
		sps, pps := s[:1], s[1:]
		if c.Multi {
			sps, pps = c.more(gen)
		}
		p.Data = append([]byte{0x17, 0, 0, 0, 0}, ref.AVCRecord(sps, pps)...)
	}
	return p
}

// more returns the parameter sets of a record with several of each.
func (c c22) more(gen int) (sps, pps [][]byte) {
	s := sets(false, gen)
	return append(s[:1:1], append([]byte{0x67, 0x42, 0xc0, 0x1e, 0x11}, ref.Fill(uint32(gen)+91, 9)...)),
		append(s[1:2:2], append([]byte{0x68, 0x11}, ref.Fill(uint32(gen)+92, 4)...), append([]byte{0x68, 0x12}, ref.Fill(uint32(gen)+93, 4)...))
}

// announced tells whether l are the parameter sets of a record with several:
// the first of each at least.
func (c c22) announced(l [][]byte, gen int) bool {
	sps, pps := c.more(gen)
	all := append(append([][]byte(nil), sps...), pps...)
	i := 0
	for _, n := range l {
		for i < len(all) && !bytes.Equal(all[i], n) {
			i++
		}
		if i == len(all) {
			return false
		}
		i++
	}
	has := func(x []byte) bool {
		for _, n := range l {
			if bytes.Equal(n, x) {
				return true
			}
		}
		return false
	}
	return has(sps[0]) && has(pps[0])
}

func (c c22) pub(u au) wire.Pub {
	p := wire.Pub{FTag: ref.FTag{Type: 9, TS: u.TS}}
	if u.Audio {
		p.Type = 8
		h := byte(0xaf)
		if c.Audio == 2 {
			h = 0xdf
		}
		p.Data = append([]byte{h, 1}, u.payload()...)
		return p
	}
	b := byte(0x27)
	if u.Key {
		b = 0x17
	}
	if c.HEVC {
		b += 5
	}
	p.Data = append([]byte{b, 1, byte(u.C >> 16), byte(u.C >> 8), byte(u.C)}, ref.AVCC(u.nals(c.HEVC)...)...)
	return p
}

// payload of an audio frame. It does not begin like an ADTS header: no AAC
// frame does (its first element would be the end marker), and publishers that
// leave the header in are tolerated.
func (u au) payload() []byte {
	b := ref.Fill(u.S, u.Size)
	if len(b) > 0 {
		b[0] &= 0x7f
	}
	return b
}

func genC22(t *rapid.T) c22 {
	c := c22{HEVC: rapid.IntRange(0, 2).Draw(t, "hevc") == 0, Audio: rapid.SampledFrom([]int{0, 1, 1, 1, 2}).Draw(t, "audio")}
	c.ASC, c.Rate, c.Chans = genASC(t)
	n := rapid.IntRange(1, rapid.SampledFrom([]int{3, 10, 25}).Draw(t, "max")).Draw(t, "n")
	switch {
	case c.Audio == 0:
		c.Tracks = []bool{false}
	default:
		c.Tracks = rapid.SampledFrom([][]bool{{false, true}, {false, true}, {true, false}, {true, false}, {false}, {true}}).Draw(t, "tracks")
	}
	udp := false
	free := rapid.Permutation([]int{0, 2, 4, 10, 100, 252, 254}).Draw(t, "chans")
	for i := range c.Tracks {
		u := rapid.IntRange(0, 2).Draw(t, "udp") == 0
		udp = udp || u
		c.UDP = append(c.UDP, u)
		c.Chan = append(c.Chan, free[i])
	}
	maxNAL := 9000
	if udp {
		maxNAL = 3000
	}
	c.Units = genUnits(t, n, c.Audio != 0, c.HEVC, maxNAL, true)
	c.Join = rapid.IntRange(0, len(c.Units)).Draw(t, "join")
	c.Form = rapid.IntRange(0, 3).Draw(t, "form")
	c.Single = rapid.IntRange(0, 3).Draw(t, "single") == 0
	c.URL = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 4}).Draw(t, "url")
	c.Wrong = rapid.SliceOfN(rapid.IntRange(0, 18), 0, 4).Draw(t, "wrong")
	c.During = rapid.SliceOfN(rapid.IntRange(0, 6), 0, 3).Draw(t, "during")
	c.Leave = rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "leave")
	c.Multi = !c.HEVC && rapid.IntRange(0, 4).Draw(t, "multi") == 0
	for range c.Tracks {
		c.Again = append(c.Again, rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 2}).Draw(t, "again"))
	}
	return c
}

type setupTrack struct {
	wire.Track
	audio bool
	udp   bool
}

func runC22(x *eng.Ctx, c c22) error {
	if len(c.Units) == 0 || len(c.Tracks) == 0 || len(c.UDP) != len(c.Tracks) || len(c.Chan) != len(c.Tracks) || len(c.Again) > len(c.Tracks) || c.Join > len(c.Units) || c.Join < 0 || len(c.ASC) < 2 {
		return nil
	}
	for _, u := range c.Units {
		if !u.Audio && len(u.NALs) == 0 || u.Audio && (u.Size < 1 || c.Audio == 0) {
			return nil
		}
	}
	s, err := wire.Start(wire.Options{RTSP: true})
	if err != nil {
		return err
	}
	name := wire.Name()
	url := s.RTSPURL("live", name)
	switch c.URL {
	case 1:
		url += "?token=abc"
	case 2:
		url += "?a=1&b=x%2Fy"
	case 3:
		url += "/"
	case 4:
		url = "RTSP" + strings.TrimPrefix(url, "rtsp")
	}
	if c.URL != 0 {
		x.Class("URL with a query, a trailing slash or in another case")
	}
	p, err := wire.Publisher(s, "live", name)
	if err != nil {
		return err
	}
	defer p.Close()
	if err := p.SetChunkSize(65536); err != nil {
		return err
	}
	r, err := wire.DialRTSP(s)
	if err != nil {
		return fmt.Errorf("%w: %v", eng.ErrInconclusive, err)
	}
	defer r.Close()

	// the publication: headers, then frames
	hdr := []wire.Pub{c.seqHeader(c.Units[0].TS, 0)}
	switch c.Audio {
	case 1:
		hdr = append(hdr, wire.Pub{FTag: ref.FTag{Type: 8, TS: c.Units[0].TS, Data: append([]byte{0xaf, 0}, c.ASC...)}})
	case 2:
		hdr = append(hdr, wire.Pub{FTag: ref.FTag{Type: 8, TS: c.Units[0].TS, Data: append([]byte{0xdf, 0}, "OpusHead\x01\x02\x00\x00\x80\xbb\x00\x00\x00\x00\x00"...)}})
	}
	if err := p.SendPubs(hdr); err != nil {
		return err
	}
	gens := make([]int, len(c.Units)) // generation of the parameter sets per frame
	g := 0
	send := func(i int) error {
		u := c.Units[i]
		var ps []wire.Pub
		if u.Seq {
			ps = append(ps, c.seqHeader(u.TS, gens[i]))
		}
		return p.SendPubs(append(ps, c.pub(u)))
	}
	for i, u := range c.Units {
		if u.Seq {
			g++
		}
		gens[i] = g
	}
	for i := 0; i < c.Join; i++ {
		if err := send(i); err != nil {
			return err
		}
	}
	if !p.Sync() {
		return fmt.Errorf("the publisher's session ended")
	}
	wrong := append([]int(nil), c.Wrong...)
	trip := func(stage int) error {
		if len(wrong) == 0 {
			return nil
		}
		k := wrong[0]
		wrong = wrong[1:]
		x.Class("request that must fail")
		return c.wrongRequest(s, r, url, name, k, stage)
	}
	if err := trip(0); err != nil {
		return err
	}
	d, err := r.Request("DESCRIBE", url, "Accept: application/sdp\r\n", nil)
	if err != nil {
		return err
	}
	if d.Status != 200 {
		return fmt.Errorf("DESCRIBE of a published stream: status %d", d.Status)
	}
	sd, err := ref.ParseSDP(d.Body)
	if err != nil {
		return err
	}
	var mv, ma *ref.SDPMedia
	for _, m := range sd.Media {
		switch m.Kind {
		case "video":
			mv = m
		case "audio":
			ma = m
		}
	}
	if mv == nil || (ma == nil) != (c.Audio == 0) || len(mv.PTs) == 0 || ma != nil && len(ma.PTs) == 0 {
		return fmt.Errorf("the description does not announce the tracks of the stream: %q", d.Body)
	}
	gen := 0
	if c.Join > 0 {
		gen = gens[c.Join-1]
	}
	if err := c.described(mv, ma, gen); err != nil {
		return fmt.Errorf("%w: %q", err, d.Body)
	}
	if err := trip(0); err != nil {
		return err
	}
	base := d.Header["content-base"]
	if base == "" {
		base = url + "/"
	}
	var ports []int // UDP ports of the server
	var trk []*setupTrack
	rate := uint64(48000)
	if c.Audio == 1 {
		rate = uint64(c.Rate)
	}
	for i, audio := range c.Tracks {
		m := mv
		k := &setupTrack{audio: audio, udp: c.UDP[i]}
		k.HEVC = c.HEVC
		if audio {
			if ma == nil {
				return nil
			}
			m = ma
			k.AAC, k.Opus = c.Audio == 1, c.Audio == 2
			f := strings.Split(m.RTPMap[m.PTs[0]], "/")
			if len(f) < 2 || f[1] != fmt.Sprint(rate) {
				return fmt.Errorf("audio clock rate: rtpmap %q, expected %d", m.RTPMap[m.PTs[0]], rate)
			}
		}
		k.PT = byte(m.PTs[0])
		u := m.Control
		if !strings.Contains(u, "://") {
			u = base[:strings.LastIndex(base, "/")+1] + u // RFC 1808
		}
		if i < len(c.Again) && c.Again[i] > 0 {
			// a first choice that is taken back
			tr := fmt.Sprintf("RTP/AVP/TCP;unicast;interleaved=%d-%d", 60+2*i, 61+2*i)
			if c.Again[i] == 1 {
				port, _, err := r.OpenUDP(s, 4+i)
				if err != nil {
					return fmt.Errorf("%w: %v", eng.ErrInconclusive, err)
				}
				tr = fmt.Sprintf("RTP/AVP;unicast;client_port=%d-%d", port, port+1)
			}
			p, err := r.Request("SETUP", u, "Transport: "+tr+"\r\n", nil)
			if err != nil {
				return err
			}
			if p.Status != 200 {
				return fmt.Errorf("SETUP %s (%s): status %d", u, tr, p.Status)
			}
			if sp := serverPort(p); sp > 0 {
				ports = append(ports, sp)
			}
			x.Class("set up twice")
		}
		tr := ""
		if k.udp {
			port, _, err := r.OpenUDP(s, i)
			if err != nil {
				return fmt.Errorf("%w: %v", eng.ErrInconclusive, err)
			}
			k.Chan = -1 - i
			tr = []string{"RTP/AVP;unicast;client_port=%d-%d", "RTP/AVP/UDP;unicast;client_port=%d-%d", "RTP/AVP;client_port=%d-%d;mode=play", "RTP/AVP;unicast; client_port=%d-%d"}[c.Form&3]
			tr = fmt.Sprintf(tr, port, port+1)
			if c.Single {
				tr = strings.Replace(tr, fmt.Sprintf("-%d", port+1), "", 1)
			}
			p, err := r.Request("SETUP", u, "Transport: "+tr+"\r\n", nil)
			if err != nil {
				return err
			}
			if p.Status != 200 {
				return fmt.Errorf("SETUP %s over UDP (%s): status %d", u, tr, p.Status)
			}
			var cp, cp2, sp, sp2 int
			for _, f := range strings.Split(p.Header["transport"], ";") {
				fmt.Sscanf(f, "client_port=%d-%d", &cp, &cp2)
				fmt.Sscanf(f, "server_port=%d-%d", &sp, &sp2)
			}
			if cp != port || sp <= 0 || sp2 != sp+1 {
				return fmt.Errorf("SETUP answered with transport %q, asked for %q", p.Header["transport"], tr)
			}
			k.Port = sp
			ports = append(ports, sp)
			x.Class("UDP")
		} else {
			ch := c.Chan[i] & 0xff
			k.Chan = ch
			tr = []string{"RTP/AVP/TCP;unicast;interleaved=%d-%d", "RTP/AVP/TCP;interleaved=%d-%d", "RTP/AVP/TCP;unicast;interleaved=%d-%d;mode=play", "RTP/AVP/TCP;unicast; interleaved=%d-%d"}[c.Form&3]
			tr = fmt.Sprintf(tr, ch, ch+1)
			if c.Single {
				tr = strings.Replace(tr, fmt.Sprintf("-%d", ch+1), "", 1)
				x.Class("one channel named")
			}
			p, err := r.Request("SETUP", u, "Transport: "+tr+"\r\n", nil)
			if err != nil {
				return err
			}
			if p.Status != 200 {
				return fmt.Errorf("SETUP %s over TCP (%s): status %d", u, tr, p.Status)
			}
			if !strings.Contains(p.Header["transport"]+";", fmt.Sprintf("interleaved=%d-%d;", ch, ch+1)) {
				return fmt.Errorf("SETUP answered with transport %q, asked for %q", p.Header["transport"], tr)
			}
			x.Class("interleaved")
		}
		if r.Session == "" {
			return fmt.Errorf("SETUP opens no session")
		}
		trk = append(trk, k)
		if i == 0 && ma != nil && !k.udp && len(c.Wrong) > 0 {
			// the other track cannot have the same channel
			o := mv
			if !audio {
				o = ma
			}
			ou := o.Control
			if !strings.Contains(ou, "://") {
				ou = base[:strings.LastIndex(base, "/")+1] + ou
			}
			p, err := r.Request("SETUP", ou, fmt.Sprintf("Transport: RTP/AVP/TCP;unicast;interleaved=%d-%d\r\n", k.Chan, k.Chan+1), nil)
			if err != nil {
				return err
			}
			if p.Status < 400 {
				return fmt.Errorf("both tracks can be set up on channel %d: status %d", k.Chan, p.Status)
			}
		}
		if i+1 < len(c.Tracks) {
			if err := trip(1); err != nil {
				return err
			}
		}
	}
	if err := trip(1); err != nil {
		return err
	}
	if len(r.Frames()) > 0 {
		return fmt.Errorf("media before PLAY")
	}
	nresp := 0
	pl, err := r.Request("PLAY", url, "Range: npt=0.000-\r\n", nil)
	if err != nil {
		return err
	}
	if pl.Status != 200 {
		return fmt.Errorf("PLAY: status %d", pl.Status)
	}
	has := func(audio bool) bool {
		for _, k := range trk {
			if k.audio == audio {
				return true
			}
		}
		return false
	}
	// starting points allowed: the beginning or a keyframe not after the join
	starts := []int{0}
	for i, u := range c.Units {
		if u.Key && !u.Audio && i > 0 && i < max(c.Join, 1) {
			starts = append(starts, i)
		}
	}
	joined := false
	if c.Join > 0 {
		from := starts[len(starts)-1]
		for i := from; i < c.Join; i++ {
			if has(c.Units[i].Audio) {
				joined = true
			}
		}
		if joined && !r.WaitFrames(wire.Wait, func(f []wire.RTSPFrame) bool { return len(f) > 0 }) {
			return fmt.Errorf("nothing is played although frames were published before")
		}
	}
	if !joined {
		for i, u := range c.Units {
			if u.Key && !u.Audio && i >= max(c.Join, 1) {
				starts = append(starts, i)
			}
		}
		starts = append(starts, len(c.Units))
	}
	for i, k := range c.During {
		if i == len(c.During)-1 && c.Join < len(c.Units) {
			break
		}
		if err := c.duringPlay(s, r, url, trk, k); err != nil {
			return err
		}
	}
	feed := func() error {
		fs := r.Frames()
		for _, k := range trk {
			if err := k.Feed(fs); err != nil {
				return fmt.Errorf("track (audio %v): %w", k.audio, err)
			}
		}
		return nil
	}
	anyUDP := false
	for _, k := range trk {
		anyUDP = anyUDP || k.udp
	}
	for i := c.Join; i < len(c.Units); i++ {
		if err := send(i); err != nil {
			return err
		}
		if anyUDP { // do not outrun the socket's buffer
			if !p.Sync() {
				return fmt.Errorf("the publisher's session ended")
			}
			time.Sleep(500 * time.Microsecond)
		}
		if i == c.Join && len(c.During) > 0 {
			if err := c.duringPlay(s, r, url, trk, c.During[len(c.During)-1]); err != nil {
				return err
			}
		}
	}
	// sentinels: a keyframe and an audio frame
	end := []au{{Key: true, NALs: [][2]int{{5, 30}}, TS: c.Units[len(c.Units)-1].TS + 40, S: 0xfeed}}
	if c.HEVC {
		end[0].NALs[0][0] = 19
	}
	all := append(append([]au(nil), c.Units...), end[0])
	gens = append(gens, g)
	if c.Audio != 0 {
		all = append(all, au{Audio: true, Size: 33, TS: end[0].TS, S: 0xbeef})
		gens = append(gens, g)
	}
	for _, u := range all[len(c.Units):] {
		if err := p.SendPubs([]wire.Pub{c.pub(u)}); err != nil {
			return err
		}
	}
	var ferr error
	seen := func() bool {
		if ferr = feed(); ferr != nil {
			return true
		}
		for _, k := range trk {
			ok := false
			for j := len(all) - 1; j >= len(c.Units); j-- {
				if all[j].Audio == k.audio {
					ok = len(k.Units) > 0 && c.sameUnit(k, all[j], gens[j], k.Units[len(k.Units)-1], rate) == nil
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	deadline := time.Now().Add(wire.Wait)
	for !seen() && time.Now().Before(deadline) {
		n := len(r.Frames())
		r.WaitFrames(20*time.Millisecond, func(f []wire.RTSPFrame) bool { return len(f) > n })
		if done, e := r.End(); done {
			if seen() {
				break
			}
			return fmt.Errorf("the session ended while playing: %v", e)
		}
	}
	if ferr != nil {
		return ferr
	}
	var best error // of the earliest start: the usual one
	good := false
	for k := len(starts) - 1; k >= 0 && !good; k-- {
		e := c.compare(trk, all, gens, starts[k], rate)
		good = e == nil
		if e != nil {
			best = e
		}
	}
	if !good {
		return fmt.Errorf("the player (joined after %d of %d frames) did not receive the stream: %w", c.Join, len(c.Units), best)
	}
	for _, f := range r.Frames() {
		ok := false
		for _, k := range trk {
			ok = ok || f.Chan == k.Chan || (!k.udp && f.Chan == k.Chan+1)
		}
		if !ok {
			return fmt.Errorf("media on channel %d, which was not negotiated", f.Chan)
		}
	}
	_ = nresp

	switch c.Leave {
	case 0:
		t, err := r.Request("TEARDOWN", url, "", nil)
		if err != nil {
			return err
		}
		if t.Status != 200 {
			return fmt.Errorf("TEARDOWN: status %d", t.Status)
		}
		n := len(r.Frames())
		u := end[0]
		for i := 0; i < 3; i++ {
			u.TS += 40
			if err := p.SendPubs([]wire.Pub{c.pub(u)}); err != nil {
				return err
			}
		}
		if !p.Sync() {
			return fmt.Errorf("the publisher's session ended with the player's teardown")
		}
		if !r.WaitClosed(3 * time.Second) {
			// staying connected is fine as long as nothing comes
			x.Class("connection kept after TEARDOWN")
		}
		if anyUDP {
			time.Sleep(wire.Grace)
		}
		if fs := r.Frames(); len(fs) > n {
			return fmt.Errorf("%d packets after the response to TEARDOWN", len(fs)-n)
		}
	case 1:
		r.NC.Close()
		time.Sleep(time.Millisecond)
		if err := p.SendPubs([]wire.Pub{c.pub(end[0])}); err != nil {
			return err
		}
		if !p.Sync() {
			return fmt.Errorf("the publisher's session ended with the player's")
		}
	case 2:
		p.Close()
		if !r.WaitClosed(wire.Wait) {
			return fmt.Errorf("the player is not released after the publisher left")
		}
	}
	if _, e := r.End(); e != nil {
		return e
	}
	r.Close()
	if err := freed(ports); err != nil {
		return err
	}
	if c.Join > 0 || len(c.Wrong) > 0 {
		x.NonTrivial()
	}
	if c.HEVC {
		x.Class("HEVC")
	}
	x.Class([]string{"no audio", "AAC", "Opus"}[c.Audio])
	return nil
}

func serverPort(p wire.RTSPResp) int {
	sp, sp2 := 0, 0
	for _, f := range strings.Split(p.Header["transport"], ";") {
		fmt.Sscanf(f, "server_port=%d-%d", &sp, &sp2)
	}
	return sp
}

// freed waits until this process, which is the server's, has no UDP socket
// on one of the ports of a session that ended, nor on the ones after them.
func freed(ports []int) error {
	if len(ports) == 0 {
		return nil
	}
	open := func() int {
		own := map[string]bool{}
		es, _ := os.ReadDir("/proc/self/fd")
		for _, e := range es {
			if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, "socket:[") {
				own[strings.TrimSuffix(strings.TrimPrefix(l, "socket:["), "]")] = true
			}
		}
		for _, f := range []string{"/proc/self/net/udp", "/proc/self/net/udp6"} {
			b, _ := os.ReadFile(f)
			for _, l := range strings.Split(string(b), "\n") {
				w := strings.Fields(l)
				if len(w) < 10 || !own[w[9]] {
					continue
				}
				n, _ := strconv.ParseUint(w[1][strings.LastIndex(w[1], ":")+1:], 16, 16)
				for _, p := range ports {
					if int(n) == p || int(n) == p+1 {
						return int(n)
					}
				}
			}
		}
		return 0
	}
	deadline := time.Now().Add(wire.Wait)
	for p := open(); p != 0; p = open() {
		if time.Now().After(deadline) {
			return fmt.Errorf("the session ended, its UDP port %d is still open", p)
		}
		time.Sleep(2 * time.Millisecond)
	}
	return nil
}

// described tells whether the description carries the stream's parameters.
func (c c22) described(mv, ma *ref.SDPMedia, gen int) error {
	fm := mv.Fmtp[mv.PTs[0]]
	ps := sets(c.HEVC, gen)
	if c.HEVC {
		for i, k := range []string{"sprop-vps", "sprop-sps", "sprop-pps"} {
			if l, err := ref.B64List(fm[k]); err != nil || len(l) != 1 || !bytes.Equal(l[0], ps[i]) {
				return fmt.Errorf("the description has %s=%q for % x", k, fm[k], ps[i])
			}
		}
	} else if l, err := ref.B64List(fm["sprop-parameter-sets"]); c.Multi {
		if err != nil || !c.announced(l, gen) {
			return fmt.Errorf("the description has sprop-parameter-sets=%q for several sets that begin with % x and % x", fm["sprop-parameter-sets"], ps[0], ps[1])
		}
	} else if err != nil || len(l) != 2 || !bytes.Equal(l[0], ps[0]) || !bytes.Equal(l[1], ps[1]) {
		return fmt.Errorf("the description has sprop-parameter-sets=%q for % x, % x", fm["sprop-parameter-sets"], ps[0], ps[1])
	}
	if ma != nil && c.Audio == 1 {
		mp := strings.Split(ma.RTPMap[ma.PTs[0]], "/")
		if len(mp) == 2 {
			mp = append(mp, "1")
		}
		if len(mp) != 3 || mp[2] != fmt.Sprint(c.Chans) {
			return fmt.Errorf("the description has rtpmap %q for %d channels", ma.RTPMap[ma.PTs[0]], c.Chans)
		}
		if cfg, err := hex.DecodeString(ma.Fmtp[ma.PTs[0]]["config"]); err != nil || !bytes.Equal(cfg, c.ASC) {
			return fmt.Errorf("the description has config=%q for % x", ma.Fmtp[ma.PTs[0]]["config"], c.ASC)
		}
	}
	return nil
}

// sameUnit compares a received unit with a published frame.
func (c c22) sameUnit(k *setupTrack, u au, gen int, got wire.TrackUnit, rate uint64) error {
	var want [][]byte
	if u.Audio {
		want = [][]byte{u.payload()}
		ts := uint32(uint64(u.TS) * rate / 1000)
		if d := int32(got.TS - ts); d < -1 || d > 1 {
			return fmt.Errorf("timestamp %d, expected %d (%d ms at %d Hz)", got.TS, ts, u.TS, rate)
		}
	} else {
		want = u.nals(c.HEVC)
		if ts := (u.TS + uint32(int32(u.C))) * 90; got.TS != ts {
			return fmt.Errorf("timestamp %d, expected %d (%d ms %+d)", got.TS, ts, u.TS, u.C)
		}
	}
	ns := got.NALs
	if d := len(ns) - len(want); !u.Audio && u.Key && d > 0 && c.Multi {
		if !c.announced(ns[:d], gen) {
			return fmt.Errorf("%d NAL units in front of a keyframe, which are not the parameter sets", d)
		}
		ns = ns[d:]
	}
	if !u.Audio && u.Key && len(ns) > len(want) {
		ps := sets(c.HEVC, gen)
		if len(ns) != len(want)+len(ps) {
			return fmt.Errorf("%d NAL units, published %d", len(ns), len(want))
		}
		want = append(ps, want...)
	}
	if len(ns) != len(want) {
		return fmt.Errorf("%d NAL units, published %d", len(ns), len(want))
	}
	for i := range want {
		if !bytes.Equal(ns[i], want[i]) {
			return fmt.Errorf("NAL unit or frame %d: %d bytes % x..., published %d bytes % x...", i, len(ns[i]), ns[i][:min(8, len(ns[i]))], len(want[i]), want[i][:min(8, len(want[i]))])
		}
	}
	return nil
}

func (c c22) compare(trk []*setupTrack, all []au, gens []int, start int, rate uint64) error {
	at := map[int]int{} // published index -> position among interleaved frames
	for _, k := range trk {
		j := 0
		for i := start; i < len(all); i++ {
			if all[i].Audio != k.audio {
				continue
			}
			if j >= len(k.Units) {
				return fmt.Errorf("audio %v: only %d frames received, frame %d is missing", k.audio, len(k.Units), i)
			}
			if e := c.sameUnit(k, all[i], gens[i], k.Units[j], rate); e != nil {
				return fmt.Errorf("audio %v, received unit %d, published frame %d: %w", k.audio, j, i, e)
			}
			if !k.udp {
				at[i] = k.Units[j].At
			}
			j++
		}
		if j < len(k.Units) {
			return fmt.Errorf("audio %v: %d frames received, %d expected", k.audio, len(k.Units), j)
		}
	}
	prev := -1
	for i := start; i < len(all); i++ {
		if a, ok := at[i]; ok {
			if a < prev {
				return fmt.Errorf("frame %d overtakes the one before", i)
			}
			prev = a
		}
	}
	return nil
}

// wrongRequest sends a request that has to be refused (or a harmless one).
func (c c22) wrongRequest(s *wire.Server, r *wire.RTSP, url, name string, k, stage int) error {
	if k == 17 || k == 18 { // another stream, which is there, in the same session
		if stage == 0 {
			return nil
		}
		app := wire.Apps[k-17]
		other, err := wire.Publisher(s, app, name+"other")
		if err != nil {
			return err
		}
		defer other.Close()
		rec := ref.AVCRecord([][]byte{append([]byte{0x67, 66, 0xc0, 30}, ref.Fill(3, 9)...)}, [][]byte{append([]byte{0x68}, ref.Fill(4, 5)...)})
		if err := other.SendPubs([]wire.Pub{
			{FTag: ref.FTag{Type: 9, Data: append([]byte{0x17, 0, 0, 0, 0}, rec...)}},
			{FTag: ref.FTag{Type: 9, Data: append([]byte{0x17, 1, 0, 0, 0}, ref.AVCC([]byte{0x65, 9, 9, 9})...)}},
		}); err != nil || !other.Sync() {
			return fmt.Errorf("publishing another stream: %v", err)
		}
		for _, u := range []string{s.RTSPURL(app, name+"other") + "/trackID=0"} {
			p, err := r.Request("SETUP", u, "Transport: RTP/AVP/TCP;unicast;interleaved=40-41\r\n", nil)
			if err != nil {
				return fmt.Errorf("SETUP of another stream: %w", err)
			}
			if p.Status < 400 {
				return fmt.Errorf("SETUP of another stream in the same session: status %d", p.Status)
			}
		}
		return nil
	}
	type q struct{ m, u, h string }
	tcp := "Transport: RTP/AVP/TCP;unicast;interleaved=20-21\r\n"
	l := []q{
		{"PLAY", url, ""},
		{"SETUP", s.RTSPURL("live", name+"nobody") + "/trackID=0", tcp},
		{"DESCRIBE", s.RTSPURL("live", name+"nobody"), ""},
		{"DESCRIBE", s.RTSPURL("noapp", name), ""},
		{"RECORD", url, ""},
		{"SETUP", url + "/trackID=0", "Transport: RTP/SAVP;unicast;client_port=4000-4001\r\n"},
		{"SETUP", url + "/trackID=7", tcp},
		{"NONSENSE", url, ""},
		{"SETUP", url + "/trackID=0", ""},
		{"SETUP", url + "/trackID=0", "Transport: RTP/AVP/TCP;unicast;interleaved=300-301\r\n"},
		{"SETUP", url + "/trackID=0", "Transport: RTP/AVP;unicast;client_port=0-1\r\n"},
		{"SETUP", url + "/trackID=0", "Transport: RTP/AVP;unicast;client_port=70000-70001\r\n"},
		{"DESCRIBE", "rtsp://" + s.RTSP + "/live", ""},
		{"SETUP", s.RTSPURL("app2", name) + "/trackID=0", tcp},
		{"SETUP", url + "/trackID=1", tcp}, // only wrong without audio
		{"OPTIONS", url, ""},
		{"GET_PARAMETER", url, ""},
	}
	if k < 0 || k >= len(l) {
		return nil
	}
	if stage > 0 && k == 0 {
		return nil // would play
	}
	if k == 14 && c.Audio != 0 {
		return nil
	}
	p, err := r.Request(l[k].m, l[k].u, l[k].h, nil)
	if err != nil {
		return fmt.Errorf("%s %s: %w", l[k].m, strings.TrimSpace(l[k].h), err)
	}
	if k >= 15 {
		if p.Status != 200 {
			return fmt.Errorf("%s: status %d", l[k].m, p.Status)
		}
	} else if p.Status < 400 {
		return fmt.Errorf("%s %s (%s) succeeds with status %d", l[k].m, l[k].u, strings.TrimSpace(l[k].h), p.Status)
	}
	return nil
}

func (c c22) duringPlay(s *wire.Server, r *wire.RTSP, url string, trk []*setupTrack, k int) error {
	exp := 200
	var p wire.RTSPResp
	var err error
	switch k {
	case 0:
		p, err = r.Request("GET_PARAMETER", url, "", nil)
	case 1:
		p, err = r.Request("OPTIONS", url, "", nil)
	case 2:
		exp = 400
		p, err = r.Request("SETUP", url+"/trackID=0", "Transport: RTP/AVP/TCP;unicast;interleaved=30-31\r\n", nil)
	case 3:
		p, err = r.Request("PLAY", url, "", nil)
	case 4:
		p, err = r.Request("DESCRIBE", url, "", nil)
	case 5:
		exp = 400
		p, err = r.Request("ANNOUNCE", url+"other", "Content-Type: application/sdp\r\n", wire.AnnounceSDP(sets(false, 0)[0], sets(false, 0)[1], nil, 0, 0))
	case 6: // receiver reports
		for _, t := range trk {
			rr := append([]byte{0x81, 201, 0, 7}, make([]byte, 28)...)
			if t.udp {
				if u, e := net.Dial("udp", fmt.Sprintf("%s:%d", s.IP, t.Port+1)); e == nil {
					u.Write(rr)
					u.Close()
				}
			} else if e := r.Write(wire.Interleave(t.Chan+1, rr)); e != nil {
				return e
			}
		}
		return nil
	default:
		return nil
	}
	if err != nil {
		return fmt.Errorf("while playing: %w", err)
	}
	if exp == 200 && p.Status != 200 || exp == 400 && p.Status < 400 {
		return fmt.Errorf("request %d while playing: status %d", k, p.Status)
	}
	return nil
}

func init() {
	eng.Register("C22", eng.Opts{
		Rule:        "a player that joined a running stream, or requests that must be refused in between",
		Quick:       eng.Budget{Shards: 8, Cases: 300, Wall: 60 * time.Second},
		Thorough:    eng.Budget{Shards: 8, Cases: 100000, Wall: 600 * time.Second},
		Net:         true,
		Assumptions: []string{"loopback; UDP is not lossy at the paced rate; streams with video; parameter sets may be repeated before a keyframe"},
	}, genC22, runC22)
}
