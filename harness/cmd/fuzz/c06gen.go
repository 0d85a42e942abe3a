package main

import (
	"encoding/binary"
	"fmt"

	"pgregory.net/rapid"

	"verif/harness/ref"
	"verif/harness/wire"
)

// c06 is a history of hostile peers of a server that also carries a healthy
// stream. The tokens good and bad stand for the names of the healthy stream
// and of a stream that belongs to the hostile peers; they are replaced by
// fresh names of the same length.
type c06 struct {
	N      int    `json:"n"`              // frames of the healthy stream
	RTSP   bool   `json:"rtsp,omitempty"` // it is published by RTSP
	Kinds  int    `json:"kinds"`          // its viewers
	Att    []att  `json:"att,omitempty"`
	Serial bool   `json:"serial,omitempty"`
	Flood  *flood `json:"flood,omitempty"`
}

// att is one hostile peer.
type att struct {
	K    string   `json:"k"` // port
	W    [][]byte `json:"w"`
	Data []bool   `json:"data,omitempty"` // SRT: payload of a data packet, otherwise a whole packet
	HS   bool     `json:"hs,omitempty"`   // SRT: behind a proper handshake
	End  int      `json:"end,omitempty"`
	Read bool     `json:"read,omitempty"`
	At   int      `json:"at,omitempty"`   // starts when so many healthy frames have been sent
	View int      `json:"view,omitempty"` // viewers of its stream
	Ask  bool     `json:"ask,omitempty"`  // after every message somebody asks for a description of its stream
	Muts int      `json:"muts,omitempty"`
}

const (
	endFIN  = iota // half-close and read the rest
	endKeep        // stays until the end
	endRST
	endClose
	nEnds
)

// flood is one peer that sends a lot.
type flood struct {
	Kind string `json:"kind"`
	MB   int    `json:"mb"`
}

const good, bad = "goodgd", "badbad"

var names06 = []string{bad, bad, bad, bad, good, good, "nobody", "", "../x", "a/b", "srt"}

func genName(t *rapid.T) string { return rapid.SampledFrom(names06).Draw(t, "name") }

// ------------------------------------------------------------------ RTMP ----

var cmds06 = []string{"connect", "createStream", "publish", "publish", "play", "play", "play2", "deleteStream", "closeStream", "releaseStream", "FCPublish", "FCUnpublish", "pause", "seek",
	"receiveAudio", "receiveVideo", "getStreamLength", "onStatus", "_result", "_error", "close", "call", "", "unknown", "@setDataFrame", "onMetaData", "FCSubscribe", "checkbw"}

func genCmd(t *rapid.T) []byte {
	name := rapid.SampledFrom(cmds06).Draw(t, "cmd")
	vals := []ref.AVal{ref.AS(name), ref.AN(float64(rapid.IntRange(0, 9).Draw(t, "txn")))}
	switch name {
	case "connect":
		vals = append(vals, ref.AO("app", ref.AS("live"), "tcUrl", ref.AS("rtmp://h/live"), "objectEncoding", ref.AN(0)))
	case "publish":
		vals = append(vals, ref.ANil(), ref.AS(genName(t)), ref.AS("live"))
	case "play":
		vals = append(vals, ref.ANil(), ref.AS(genName(t)), ref.AN(-2), ref.AN(-1), ref.AB(true))
	case "play2":
		vals = append(vals, ref.ANil(), ref.AO("streamName", ref.AS(genName(t))))
	case "deleteStream", "closeStream":
		vals = append(vals, ref.ANil(), ref.AN(1))
	case "releaseStream", "FCPublish", "FCUnpublish", "getStreamLength":
		vals = append(vals, ref.ANil(), ref.AS(genName(t)))
	case "pause":
		vals = append(vals, ref.ANil(), ref.AB(true), ref.AN(1000))
	case "seek":
		vals = append(vals, ref.ANil(), ref.AN(1000))
	case "receiveAudio", "receiveVideo":
		vals = append(vals, ref.ANil(), ref.AB(false))
	case "onStatus", "_result", "_error":
		vals = append(vals, ref.ANil(), ref.AO("level", ref.AS("status"), "code", ref.AS("NetStream.Play.Start")))
	}
	for k := rapid.SampledFrom([]int{0, 1, 1, 2}).Draw(t, "changes"); k > 0; k-- {
		i := rapid.IntRange(0, len(vals)-1).Draw(t, "which")
		switch rapid.IntRange(0, 4).Draw(t, "change") {
		case 0:
			vals = vals[:i]
		case 1:
			vals[i] = genAMF(t, 2)
		case 2:
			vals = append(vals[:i:i], vals[i+1:]...)
		case 3:
			vals = append(vals[:i:i], append([]ref.AVal{genAMF(t, 2)}, vals[i:]...)...)
		case 4:
			if v := &vals[i]; v.K == ref.AObj || v.K == ref.AEcma {
				if n := len(v.Keys); n > 0 {
					j := rapid.IntRange(0, n-1).Draw(t, "key")
					if rapid.Bool().Draw(t, "drop") {
						v.Keys, v.Vals = append(v.Keys[:j:j], v.Keys[j+1:]...), append(v.Vals[:j:j], v.Vals[j+1:]...)
					} else {
						v.Vals[j] = genAMF(t, 2)
					}
				}
			} else {
				vals[i] = ref.AN(float64(rapid.SampledFrom([]int{-1, 0, 1 << 30, 7}).Draw(t, "number")))
			}
		}
		if len(vals) == 0 {
			break
		}
	}
	return ref.AMFEncode(vals...)
}

// genMedia draws the body of a message of the given type.
func genMedia(t *rapid.T, typ byte) []byte {
	hevc := rapid.IntRange(0, 3).Draw(t, "hevc") == 0
	codec := byte(7)
	if hevc {
		codec = 12
	}
	muts := 0
	var b []byte
	switch typ {
	case 9:
		switch rapid.IntRange(0, 5).Draw(t, "video") {
		case 0, 1:
			b = append([]byte{0x10 | codec, 0, 0, 0, 0}, genRecord(t, hevc, &muts)...)
		case 2:
			b = bytesN(t, 0, 20)
		case 3: // the enhanced form
			b = append([]byte{byte(0x80 | rapid.IntRange(0, 127).Draw(t, "ex"))}, rapid.SampledFrom([]string{"hvc1", "avc1", "av01", "vp09", "xxxx", "hv"}).Draw(t, "fourcc")...)
			b = append(b, bytesN(t, 0, 20)...)
		default:
			ft := rapid.SampledFrom([]byte{0x10, 0x10, 0x20, 0x50}).Draw(t, "ft")
			b = append([]byte{ft | codec, 1, 0, 0, 0}, ref.AVCC(genNALs(t, hevc)...)...)
		}
	case 8:
		switch rapid.IntRange(0, 3).Draw(t, "audio") {
		case 0:
			b = append([]byte{0xaf, 0}, bytesN(t, 0, 5)...)
		case 1:
			b = bytesN(t, 0, 20)
		default:
			b = append([]byte{rapid.SampledFrom([]byte{0xaf, 0xae, 0x2f, 0xdf, 0x10}).Draw(t, "h"), 1}, bytesN(t, 0, 30)...)
		}
	default:
		m := ref.GenMeta(t)
		b = ref.AMFEncode(ref.AS("@setDataFrame"), ref.AS("onMetaData"), m)
		if rapid.Bool().Draw(t, "other") {
			b = ref.AMFEncode(genAMF(t, 2), genAMF(t, 2), genAMF(t, 2))
		}
	}
	return b
}

func maybeApply(t *rapid.T, b []byte, muts *int) []byte {
	if rapid.IntRange(0, 2).Draw(t, "mutate") != 0 {
		return b
	}
	ms := genMuts(t)
	*muts += len(ms)
	return apply(b, ms)
}

func genMsg(t *rapid.T, muts *int) ref.RMsg {
	m := ref.RMsg{CSID: uint32(rapid.SampledFrom([]int{2, 3, 4, 5, 6, 63, 64, 319, 320, 65599}).Draw(t, "csid"))}
	m.MSID = uint32(rapid.SampledFrom([]int{0, 1, 1, 1, 7}).Draw(t, "msid"))
	m.TS = rapid.OneOf(rapid.Uint32Range(0, 5000), rapid.Uint32()).Draw(t, "ts")
	switch rapid.IntRange(0, 9).Draw(t, "msg") {
	case 0, 1, 2:
		m.Type = rapid.SampledFrom([]byte{20, 20, 20, 17, 18, 15}).Draw(t, "ctype")
		m.Data = genCmd(t)
		if m.Type == 17 && rapid.Bool().Draw(t, "amf3") {
			m.Data = append([]byte{0}, m.Data...)
		}
	case 3:
		m.Type = byte(rapid.IntRange(1, 7).Draw(t, "control"))
		m.MSID = 0
		v := rapid.SampledFrom(extremes).Draw(t, "v")
		switch m.Type {
		case 4:
			m.Data = binary.BigEndian.AppendUint16(nil, uint16(rapid.SampledFrom([]int{0, 1, 2, 3, 4, 6, 7, 31, 32, 65535}).Draw(t, "event")))
			m.Data = append(m.Data, bytesN(t, 0, 9)...)
		default:
			m.Data = binary.BigEndian.AppendUint32(nil, v)
			if m.Type == 6 {
				m.Data = append(m.Data, byte(rapid.IntRange(0, 4).Draw(t, "limit")))
			}
		}
		if rapid.IntRange(0, 2).Draw(t, "len") == 0 {
			m.Data = bytesN(t, 0, 10)
		}
	case 4, 5, 6:
		m.Type = rapid.SampledFrom([]byte{8, 9, 9, 18}).Draw(t, "mtype")
		m.Data = genMedia(t, m.Type)
	case 7: // an aggregate
		m.Type = 22
		ts := m.TS
		for i := rapid.IntRange(0, 4).Draw(t, "nsub"); i > 0; i-- {
			typ := rapid.SampledFrom([]byte{8, 9, 18, 20, 1, 22}).Draw(t, "subtype")
			var d []byte
			switch typ {
			case 8, 9, 18:
				d = genMedia(t, typ)
			default:
				d = bytesN(t, 0, 10)
			}
			m.Data = append(m.Data, typ, byte(len(d)>>16), byte(len(d)>>8), byte(len(d)), byte(ts>>16), byte(ts>>8), byte(ts), byte(ts>>24), 0, 0, 0)
			m.Data = append(m.Data, d...)
			m.Data = binary.BigEndian.AppendUint32(m.Data, uint32(11+len(d)))
			ts += 20
		}
	case 8:
		m.Type = rapid.Byte().Draw(t, "type")
		m.Data = bytesN(t, 0, 40)
	default:
		m.Type = 18
		m.Data = genMedia(t, 18)
	}
	m.Data = maybeApply(t, m.Data, muts)
	return m
}

func cmdMsg(vals ...ref.AVal) ref.RMsg {
	return ref.RMsg{CSID: 3, Type: 20, Data: ref.AMFEncode(vals...)}
}

// genRTMP draws what an RTMP client sends.
func genRTMP(t *rapid.T) (a att) {
	a.K = "rtmp"
	hs := append([]byte{3}, make([]byte, 3072)...)
	if rapid.Bool().Draw(t, "digest") {
		c1 := ref.Fill(5, 1536)
		copy(c1, []byte{0, 0, 0, 0, 9, 0, 124, 2})
		copy(hs[1:], c1)
	}
	if rapid.IntRange(0, 9).Draw(t, "badhs") == 0 {
		hs = maybeApply(t, hs, &a.Muts)
		if len(hs) > 0 {
			hs[0] = rapid.SampledFrom([]byte{3, 3, 0, 6, 'G', 255}).Draw(t, "version")
		}
		a.Muts++
	}
	state := rapid.SampledFrom([]int{0, 1, 2, 3, 3, 3, 4, 5, 5, 6, 7, 8, 8}).Draw(t, "state")
	size := 128
	var msgs []ref.RMsg
	if state >= 1 {
		msgs = append(msgs, cmdMsg(ref.AS("connect"), ref.AN(1), ref.AO("app", ref.AS(rapid.SampledFrom([]string{"live", "live", "live", "live", "app2", "none", ""}).Draw(t, "app")), "tcUrl", ref.AS("rtmp://h/live"))))
	}
	if state >= 2 {
		msgs = append(msgs, cmdMsg(ref.AS("createStream"), ref.AN(2), ref.ANil()))
	}
	pub := func(n string) ref.RMsg {
		return cmdMsg(ref.AS("publish"), ref.AN(3), ref.ANil(), ref.AS(n), ref.AS("live"))
	}
	play := func(n string) ref.RMsg { return cmdMsg(ref.AS("play"), ref.AN(4), ref.ANil(), ref.AS(n)) }
	switch state {
	case 3:
		msgs = append(msgs, pub(bad))
		a.View = rapid.IntRange(0, 15).Draw(t, "view")
		if rapid.Bool().Draw(t, "config") {
			hevc := rapid.IntRange(0, 3).Draw(t, "hevc") == 0
			p := ref.GenPictureConfig(t, hevc)
			_, rec, _, _, _ := p.Render(hevc)
			c := byte(0x17)
			if hevc {
				c = 0x1c
			}
			msgs = append(msgs, ref.RMsg{CSID: 6, Type: 9, MSID: 1, Data: append([]byte{c, 0, 0, 0, 0}, rec...)},
				ref.RMsg{CSID: 4, Type: 8, MSID: 1, Data: []byte{0xaf, 0, 0x12, 0x10}})
		}
	case 4:
		msgs = append(msgs, pub(good))
	case 5:
		msgs = append(msgs, play(good))
	case 6:
		msgs = append(msgs, play(bad))
	case 7:
		msgs = append(msgs, pub(bad), play(good), play(bad))
	case 8: // one configuration after the other
		msgs = append(msgs, pub(bad))
		a.View, a.Ask = 15, true
		for i := rapid.IntRange(2, 8).Draw(t, "nconfig"); i > 0; i-- {
			hevc := rapid.Bool().Draw(t, "hevc")
			c := byte(7)
			if hevc {
				c = 12
			}
			rec := genRecord(t, hevc, &a.Muts)
			ts := uint32(i%3) * 2500
			msgs = append(msgs, ref.RMsg{CSID: 6, Type: 9, MSID: 1, TS: ts, Data: append([]byte{0x10 | c, 0, 0, 0, 0}, rec...)})
			if rapid.Bool().Draw(t, "asc") {
				msgs = append(msgs, ref.RMsg{CSID: 4, Type: 8, MSID: 1, TS: ts, Data: append([]byte{0xaf, 0}, bytesN(t, 0, 4)...)})
			}
			if rapid.Bool().Draw(t, "key") {
				msgs = append(msgs, ref.RMsg{CSID: 6, Type: 9, MSID: 1, TS: ts, Data: append([]byte{0x10 | c, 1, 0, 0, 0}, ref.AVCC(genNALs(t, hevc)...)...)})
			}
		}
	}
	n := len(msgs)
	for i := rapid.IntRange(0, 12).Draw(t, "nmsg"); i > 0; i-- {
		msgs = append(msgs, genMsg(t, &a.Muts))
	}
	a.W = append(a.W, hs)
	for i, m := range msgs {
		b := ref.EncodeMsg(m, size)
		if i >= n {
			switch rapid.IntRange(0, 9).Draw(t, "how") {
			case 0: // the bytes on the wire are damaged
				b = maybeApply(t, b, &a.Muts)
			case 1: // any chunk
				h := ref.ChunkHeader{Fmt: rapid.IntRange(0, 3).Draw(t, "fmt"), CSID: m.CSID, Time: rapid.SampledFrom(extremes).Draw(t, "time"), Len: rapid.OneOf(rapid.IntRange(0, 400), rapid.IntRange(0, 1<<24-1)).Draw(t, "len"), Type: m.Type, MSID: m.MSID, Ext: rapid.Bool().Draw(t, "ext")}
				b = append(h.Encode(), bytesN(t, 0, 140)...)
				a.Muts++
			case 2: // part of a message
				if len(b) > 1 {
					b = b[:rapid.IntRange(1, len(b)-1).Draw(t, "cut")]
					a.Muts++
				}
			}
		}
		if m.Type == 1 && len(m.Data) >= 4 && i >= n {
			if v := binary.BigEndian.Uint32(m.Data); v >= 1 && v < 1<<24 {
				size = int(v)
			}
		}
		a.W = append(a.W, b)
	}
	return a
}

// ------------------------------------------------------------------ RTSP ----

var transports = []string{
	"RTP/AVP/TCP;unicast;interleaved=0-1", "RTP/AVP/TCP;unicast;interleaved=0-1", "RTP/AVP/TCP;unicast;interleaved=2-3", "RTP/AVP/TCP", "RTP/AVP/TCP;interleaved=300-301", "RTP/AVP/TCP;interleaved=-1--2", "RTP/AVP/TCP;interleaved=", "RTP/AVP/TCP;unicast;interleaved=0-1;mode=record",
	"RTP/AVP;unicast;client_port=45000-45001", "RTP/AVP;unicast;client_port=0-0", "RTP/AVP;unicast;client_port=70000-70001", "RTP/AVP;unicast;client_port=-5", "RTP/AVP;unicast", "RTP/AVP;multicast", "", ";;;", "interleaved", "RTP/AVP/TCP;interleaved=1-0,RTP/AVP;client_port=1"}

func genRTSPAttack(t *rapid.T) (a att) {
	a.K = "rtsp"
	url := func() string {
		return rapid.SampledFrom([]string{"rtsp://h/live/", "rtsp://h/live/", "rtsp://h/live/", "rtsp://h/app2/", "rtsp://h/", "/live/", "live/", "*", "", "rtsp://", "rtsp://h/none/", "rtsp://h/live/a/b/"}).Draw(t, "base") + genName(t) +
			rapid.SampledFrom([]string{"", "", "/trackID=0", "/trackID=0", "/trackID=1", "/trackID=", "/trackID=99999999999999999999", "/", "/streamid=0", "?x=1"}).Draw(t, "track")
	}
	cseq := 0
	req := func(m, u, h string, body []byte) {
		cseq++
		s := fmt.Sprintf("%s %s RTSP/1.0\r\nCSeq: %d\r\n%s", m, u, cseq, h)
		if body != nil {
			s += fmt.Sprintf("Content-Type: application/sdp\r\nContent-Length: %d\r\n", len(body))
		}
		a.W = append(a.W, append([]byte(s+"\r\n"), body...))
	}
	tr := func() string { return "Transport: " + rapid.SampledFrom(transports).Draw(t, "transport") + "\r\n" }
	switch rapid.IntRange(0, 4).Draw(t, "role") {
	case 0, 1: // a publisher
		sdp := wire.AnnounceSDP([]byte{0x67, 0x42, 0xc0, 0x1e, 1, 2}, []byte{0x68, 1, 2}, []byte{0x12, 0x10}, 44100, 2)
		if rapid.IntRange(0, 2).Draw(t, "sdp") == 0 {
			sdp = maybeApply(t, genSDP(t), &a.Muts)
		}
		req("ANNOUNCE", "rtsp://h/live/"+bad, "", sdp)
		u := "rtsp://h/live/" + bad + "/streamid="
		tv := "Transport: RTP/AVP/TCP;unicast;interleaved=0-1;mode=record\r\n"
		ta := "Transport: RTP/AVP/TCP;unicast;interleaved=2-3;mode=record\r\n"
		if rapid.IntRange(0, 3).Draw(t, "odd") == 0 {
			tv, ta = tr(), tr()
			a.Muts++
		}
		req("SETUP", u+"0", tv, nil)
		if rapid.Bool().Draw(t, "audio") {
			req("SETUP", u+"1", ta, nil)
		}
		req("RECORD", "rtsp://h/live/"+bad, "", nil)
		a.View = rapid.IntRange(0, 15).Draw(t, "view")
	case 2, 3: // a player
		n := rapid.SampledFrom([]string{good, good, bad, "srt"}).Draw(t, "name")
		req("DESCRIBE", "rtsp://h/live/"+n, "", nil)
		h := "Transport: RTP/AVP/TCP;unicast;interleaved=0-1\r\n"
		if rapid.IntRange(0, 2).Draw(t, "odd") == 0 {
			h = tr()
			a.Muts++
		}
		req("SETUP", "rtsp://h/live/"+n+"/trackID=0", h, nil)
		req("PLAY", "rtsp://h/live/"+n, "", nil)
	}
	seq := rapid.Uint16().Draw(t, "seq")
	ts := rapid.Uint32().Draw(t, "ts")
	for i := rapid.IntRange(0, 12).Draw(t, "nop"); i > 0; i-- {
		switch rapid.IntRange(0, 5).Draw(t, "op") {
		case 0: // any request
			m := rapid.SampledFrom([]string{"OPTIONS", "DESCRIBE", "SETUP", "PLAY", "ANNOUNCE", "RECORD", "GET_PARAMETER", "SET_PARAMETER", "TEARDOWN", "PAUSE", "REDIRECT", "x", ""}).Draw(t, "method")
			var body []byte
			if m == "ANNOUNCE" || rapid.IntRange(0, 5).Draw(t, "body") == 0 {
				body = maybeApply(t, genSDP(t), &a.Muts)
			}
			h := ""
			for k := rapid.IntRange(0, 2).Draw(t, "nh"); k > 0; k-- {
				h += rapid.SampledFrom([]string{"Session: 1\r\n", "Session:\r\n", "Range: npt=0-\r\n", "CSeq: x\r\n", "CSeq: -1\r\n", "Content-Length: 5\r\n", "Content-Length: -1\r\n", "Content-Length: 99999999999\r\n", ":\r\n", "Require: x\r\n"}).Draw(t, "h")
			}
			if m == "SETUP" {
				h += tr()
			}
			req(m, url(), h, body)
			a.Muts++
			a.W[len(a.W)-1] = maybeApply(t, a.W[len(a.W)-1], &a.Muts)
		case 1, 2, 3: // video
			nals := genNALs(t, false)
			ps := ref.PackH264(nals, rapid.SampledFrom([]int{10, 30, 1400}).Draw(t, "mtu"), rapid.Bool().Draw(t, "agg"))
			for k, p := range ps {
				b := maybeApply(t, genPacket(t, p, seq, ts, k == len(ps)-1), &a.Muts)
				a.W = append(a.W, wire.Interleave(rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 2, 3, 255}).Draw(t, "chan"), b))
				seq++
			}
			ts += 3600
		case 4: // audio
			var fs [][]byte
			for k := rapid.IntRange(0, 3).Draw(t, "nau"); k > 0; k-- {
				fs = append(fs, bytesN(t, 1, 20))
			}
			b := maybeApply(t, genPacket(t, ref.PackAAC(fs...), seq, ts, true), &a.Muts)
			a.W = append(a.W, wire.Interleave(rapid.SampledFrom([]int{2, 2, 2, 0, 3}).Draw(t, "chan"), b))
		default: // a frame of any kind
			a.W = append(a.W, wire.Interleave(rapid.IntRange(0, 255).Draw(t, "chan"), bytesN(t, 0, 40)))
			if rapid.IntRange(0, 3).Draw(t, "raw") == 0 {
				a.W = append(a.W, bytesN(t, 0, 30))
			}
			a.Muts++
		}
	}
	return a
}

// ------------------------------------------------------------------ HTTP ----

func genHTTP(t *rapid.T, port string) (a att) {
	a.K = port
	for i := rapid.IntRange(1, 3).Draw(t, "nreq"); i > 0; i-- {
		m := rapid.SampledFrom([]string{"GET", "GET", "GET", "GET", "HEAD", "POST", "OPTIONS", "PUT", "CONNECT", "x", ""}).Draw(t, "method")
		p := "/" + rapid.SampledFrom([]string{"live", "live", "live", "live", "app2", "", "..", "%2e%2e", "none"}).Draw(t, "app") + "/" + genName(t)
		if port == "flv" {
			p += rapid.SampledFrom([]string{".flv", ".flv", ".flv", "", ".", ".flv/", ".FLV", "%2eflv", "%00.flv", ".flv?x=%zz"}).Draw(t, "ext")
		} else {
			p += rapid.SampledFrom([]string{"/index.m3u8", "/index.m3u8", "/index.mpd", "/index.mpd", ".m3u8", "/0.ts", "/" + good + "-0.ts", "/" + bad + "-0.ts", "/" + good + "-init.mp4", "/../" + good + "/index.m3u8", "/%2e%2e/x.ts", "/", ""}).Draw(t, "file") +
				rapid.SampledFrom([]string{"", "", "?_HLS_msn=0&_HLS_part=0", "?_HLS_msn=99999999999999999999", "?_HLS_msn=-1&_HLS_part=-1", "?_HLS_msn=1000000000&_HLS_part=1000000000", "?_HLS_part=3", "?%zz"}).Draw(t, "query")
		}
		s := m + " " + p + " HTTP/1." + rapid.SampledFrom([]string{"1", "1", "1", "0", "9"}).Draw(t, "ver") + "\r\n"
		if rapid.IntRange(0, 9).Draw(t, "host") != 0 {
			s += "Host: h\r\n"
		}
		ws := port == "flv" && rapid.IntRange(0, 2).Draw(t, "ws") != 0
		if ws {
			s += "Connection: " + rapid.SampledFrom([]string{"Upgrade", "Upgrade", "keep-alive, Upgrade", "close"}).Draw(t, "conn") + "\r\n"
			s += "Upgrade: " + rapid.SampledFrom([]string{"websocket", "websocket", "WebSocket", "h2c"}).Draw(t, "up") + "\r\n"
			s += "Sec-WebSocket-Version: " + rapid.SampledFrom([]string{"13", "13", "13", "0", "x"}).Draw(t, "wsv") + "\r\n"
			if rapid.IntRange(0, 9).Draw(t, "key") != 0 {
				s += "Sec-WebSocket-Key: " + rapid.SampledFrom([]string{"dGhlIHNhbXBsZSBub25jZQ==", "dGhlIHNhbXBsZSBub25jZQ==", "", "x", "!!!!", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=="}).Draw(t, "wskey") + "\r\n"
			}
		}
		for k := rapid.IntRange(0, 2).Draw(t, "nh"); k > 0; k-- {
			s += rapid.SampledFrom([]string{"Range: bytes=0-", "Range: bytes=-5", "Range: bytes=99999999999999-", "Range: bytes=5-1", "Transfer-Encoding: chunked", "Content-Length: 5", "Content-Length: 99999999999", "Expect: 100-continue", "Origin: x", "X:", "If-Modified-Since: x"}).Draw(t, "h") + "\r\n"
			a.Muts++
		}
		a.W = append(a.W, maybeApply(t, []byte(s+"\r\n"), &a.Muts))
		if ws {
			for k := rapid.IntRange(0, 6).Draw(t, "nframes"); k > 0; k-- {
				b0 := byte(rapid.SampledFrom([]int{0x81, 0x82, 0x88, 0x88, 0x89, 0x89, 0x8a, 0x80, 0x01, 0x09, 0x08, 0x8f, 0xf1, 0x00}).Draw(t, "op"))
				var mask []byte
				if rapid.IntRange(0, 5).Draw(t, "mask") != 0 {
					mask = []byte{1, 2, 3, 4}
				}
				f := wire.EncodeWS(b0, bytesN(t, 0, 140), mask)
				if rapid.IntRange(0, 2).Draw(t, "lie") == 0 {
					f = []byte{b0, byte(rapid.SampledFrom([]int{0x80, 0xfd, 0xfe, 0xff, 0x7e, 0x7f}).Draw(t, "lenbyte"))}
					f = append(f, rapid.SampledFrom([][]byte{{}, {0}, {0, 0}, {255, 255}, {0, 0, 0, 0, 0, 0, 0, 0}, {255, 255, 255, 255, 255, 255, 255, 255}, {127, 255, 255, 255, 255, 255, 255, 255}, {0, 0, 0, 1, 0, 0, 0, 0}, {128, 0, 0, 0, 0, 0, 0, 0}}).Draw(t, "long")...)
					f = append(f, bytesN(t, 0, 20)...)
					a.Muts++
				}
				a.W = append(a.W, f)
			}
			break
		}
	}
	return a
}

// ------------------------------------------------------------------- SRT ----

func genSRTAttack(t *rapid.T) (a att) {
	a.K = "srt"
	a.HS = rapid.IntRange(0, 4).Draw(t, "hs") != 0
	put := func(data bool, b []byte) { a.W, a.Data = append(a.W, b), append(a.Data, data) }
	if rapid.Bool().Draw(t, "ts") {
		ps := genTS(t, rapid.IntRange(0, 3).Draw(t, "hevc") == 0)
		for len(ps) > 0 {
			n := rapid.IntRange(1, 7).Draw(t, "per")
			if n > len(ps) {
				n = len(ps)
			}
			var b []byte
			for _, p := range ps[:n] {
				b = append(b, maybeApply(t, p, &a.Muts)...)
			}
			put(true, b)
			ps = ps[n:]
		}
		a.View = rapid.IntRange(0, 15).Draw(t, "view")
	}
	for i := rapid.IntRange(0, 8).Draw(t, "npkt"); i > 0; i-- {
		switch rapid.IntRange(0, 3).Draw(t, "pkt") {
		case 0:
			put(true, bytesN(t, 0, 60))
		case 1:
			put(false, bytesN(t, 0, 70))
		case 2: // a control packet for this session
			typ := rapid.SampledFrom([]byte{0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 0x7f}).Draw(t, "type")
			b := []byte{0x80, typ, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0xdd, 0xdd, 0xdd, 0xdd}
			if typ == 0x7f {
				b[0] = 0xff
			}
			put(false, append(b, bytesN(t, 0, 70)...))
		default:
			put(false, maybeApply(t, genSRT(t), &a.Muts))
		}
		a.Muts++
		if rapid.IntRange(0, 9).Draw(t, "big") == 0 {
			put(true, ref.Fill(uint32(i), rapid.SampledFrom([]int{1472, 9000, 60000}).Draw(t, "n")))
		}
	}
	return a
}

// ---------------------------------------------------- a server pulled from ----

func genRemote(t *rapid.T) (a att) {
	a.K = "pull"
	hs := append([]byte{3}, make([]byte, 3072)...)
	if rapid.IntRange(0, 5).Draw(t, "badhs") == 0 {
		hs = maybeApply(t, hs, &a.Muts)
	}
	a.W = append(a.W, hs)
	msgs := []ref.RMsg{
		{CSID: 2, Type: 5, Data: []byte{0, 0x26, 0x25, 0xa0}},
		{CSID: 2, Type: 6, Data: []byte{0, 0x26, 0x25, 0xa0, 2}},
		cmdMsg(ref.AS("_result"), ref.AN(1), ref.AO("fmsVer", ref.AS("FMS/3"), "capabilities", ref.AN(31)), ref.AO("level", ref.AS("status"), "code", ref.AS("NetConnection.Connect.Success"))),
		cmdMsg(ref.AS("_result"), ref.AN(2), ref.ANil(), ref.AN(1)),
		{CSID: 2, Type: 4, Data: []byte{0, 0, 0, 0, 0, 1}},
		cmdMsg(ref.AS("onStatus"), ref.AN(0), ref.ANil(), ref.AO("level", ref.AS("status"), "code", ref.AS("NetStream.Play.Start"), "description", ref.AS("x"))),
		{CSID: 6, Type: 9, MSID: 1, Data: append([]byte{0x17, 0, 0, 0, 0}, ref.AVCRecord([][]byte{{0x67, 66, 0, 30, 1}}, [][]byte{{0x68, 1}})...)},
	}
	k := rapid.SampledFrom([]int{7, 7, 7, 6, 4, 3, 2, 0}).Draw(t, "prefix")
	msgs = msgs[:k]
	if rapid.IntRange(0, 2).Draw(t, "swap") == 0 && k > 0 {
		i := rapid.IntRange(0, k-1).Draw(t, "i")
		switch rapid.IntRange(0, 2).Draw(t, "change") {
		case 0:
			msgs[i].Data = maybeApply(t, msgs[i].Data, &a.Muts)
		case 1:
			msgs = append(msgs[:i:i], msgs[i+1:]...)
		default:
			msgs[i] = genMsg(t, &a.Muts)
		}
		a.Muts++
	}
	for i := rapid.IntRange(0, 10).Draw(t, "nmsg"); i > 0; i-- {
		msgs = append(msgs, genMsg(t, &a.Muts))
	}
	size := 128
	for _, m := range msgs {
		b := ref.EncodeMsg(m, size)
		if rapid.IntRange(0, 9).Draw(t, "damage") == 0 {
			b = maybeApply(t, b, &a.Muts)
		}
		if m.Type == 1 && len(m.Data) >= 4 {
			if v := binary.BigEndian.Uint32(m.Data); v >= 1 && v < 1<<24 {
				size = int(v)
			}
		}
		a.W = append(a.W, b)
	}
	return a
}

func genC06(t *rapid.T) (c c06) {
	c.N = rapid.IntRange(4, 20).Draw(t, "frames")
	c.RTSP = rapid.IntRange(0, 2).Draw(t, "rtsp") == 0
	c.Kinds = rapid.IntRange(0, 7).Draw(t, "viewers")
	if rapid.IntRange(0, 60).Draw(t, "flood") == 0 {
		c.Flood = &flood{Kind: rapid.SampledFrom(floodKinds).Draw(t, "kind"), MB: rapid.SampledFrom([]int{1, 1, 2}).Draw(t, "mb")}
		return c
	}
	c.Serial = rapid.Bool().Draw(t, "serial")
	for i := rapid.SampledFrom([]int{1, 1, 2, 3, 5}).Draw(t, "natt"); i > 0; i-- {
		var a att
		switch rapid.IntRange(0, 11).Draw(t, "port") {
		case 0, 1, 2, 3:
			a = genRTMP(t)
		case 4, 5, 6:
			a = genRTSPAttack(t)
		case 7, 8:
			a = genHTTP(t, "flv")
		case 9:
			a = genHTTP(t, "hls")
		case 10:
			a = genSRTAttack(t)
		default:
			a = genRemote(t)
		}
		if rapid.IntRange(0, 19).Draw(t, "noise") == 0 { // no protocol at all
			a.W, a.Data = nil, nil
			for k := rapid.IntRange(0, 4).Draw(t, "nw"); k > 0; k-- {
				a.W, a.Data = append(a.W, bytesN(t, 0, 300)), append(a.Data, false)
			}
			a.Muts++
		}
		if len(a.W) > 0 && rapid.IntRange(0, 5).Draw(t, "cut") == 0 { // ends anywhere
			k := rapid.IntRange(0, len(a.W)-1).Draw(t, "at")
			a.W = a.W[:k+1]
			a.W[k] = a.W[k][:rapid.IntRange(0, len(a.W[k])).Draw(t, "in")]
			if len(a.Data) > k {
				a.Data = a.Data[:k+1]
			}
			a.Muts++
		}
		a.End = rapid.IntRange(0, nEnds-1).Draw(t, "end")
		a.Read = rapid.Bool().Draw(t, "read")
		a.At = rapid.IntRange(1, c.N).Draw(t, "begin")
		c.Att = append(c.Att, a)
	}
	return c
}
