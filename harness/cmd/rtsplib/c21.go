package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"strings"
	"time"
	"unicode"

	"github.com/sbraveyoung/GGmpeg/librtsp"
	"pgregory.net/rapid"

	"verif/harness/eng"
	"verif/harness/ref"
)

var printable = &unicode.RangeTable{R16: []unicode.Range16{{Lo: 0x21, Hi: 0x7e, Stride: 1}}, LatinOffset: 1}

type track struct {
	Kind     string   `json:"kind"` // video audio other
	Codec    string   `json:"codec"`
	PT       int      `json:"pt"`
	Alt      bool     `json:"alt"` // a second payload type with its own attributes
	Control  string   `json:"control"`
	SPS      []byte   `json:"sps,omitempty"`
	PPS      []byte   `json:"pps,omitempty"`
	Config   []byte   `json:"config,omitempty"`
	Rate     int      `json:"rate,omitempty"`
	Chans    int      `json:"chans,omitempty"`
	Perm     []int    `json:"perm"`
	Extra    []string `json:"extra,omitempty"`
	Sep      string   `json:"sep"`
	UpperKey bool     `json:"upkey"`
	LowerHex bool     `json:"lowhex"`
}
type c21 struct {
	Name    string   `json:"name"`
	Video   string   `json:"video"` // "", h264, hevc
	Audio   string   `json:"audio"` // "", aac, opus
	VPS     []byte   `json:"vps"`
	SPS     []byte   `json:"sps"`
	PPS     []byte   `json:"pps"`
	Config  []byte   `json:"config"`
	Rate    int      `json:"rate"`
	Chans   int      `json:"chans"`
	Ctl     string   `json:"ctl,omitempty"` // characters put into the name
	LF      bool     `json:"lf"`
	NoFinal bool     `json:"nofinal"`
	Session []string `json:"session"`
	Tracks  []track  `json:"tracks"`
}

var aacRates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

func genASC(t *rapid.T) (cfg []byte, rate, ch int) {
	sr := rapid.IntRange(0, 12).Draw(t, "sr")
	chc := rapid.IntRange(1, 7).Draw(t, "ch")
	ot := rapid.IntRange(1, 4).Draw(t, "ot")
	v := uint16(ot)<<11 | uint16(sr)<<7 | uint16(chc)<<3
	cfg = []byte{byte(v >> 8), byte(v)}
	if rapid.IntRange(0, 3).Draw(t, "sbr") == 0 {
		cfg = append(cfg, 0x56, 0xe5, 0x00)
	}
	ch = chc
	if chc == 7 {
		ch = 8
	}
	return cfg, aacRates[sr], ch
}

func genPS(t *rapid.T, h ...byte) []byte {
	return append(h, rapid.SliceOfN(rapid.Byte(), 3, 40).Draw(t, "ps")...)
}

func genC21(t *rapid.T) c21 {
	c := c21{
		Name:    rapid.OneOf(rapid.SampledFrom([]string{"cam1", "live/x", "a b", "日本", "a=b", "m=video 0 RTP/AVP 1"}), rapid.StringOfN(rapid.RuneFrom(nil, printable), 1, 20, -1)).Draw(t, "name"),
		Video:   rapid.SampledFrom([]string{"", "h264", "h264", "hevc"}).Draw(t, "video"),
		Audio:   rapid.SampledFrom([]string{"", "aac", "aac", "opus"}).Draw(t, "audio"),
		LF:      rapid.IntRange(0, 3).Draw(t, "lf") == 0,
		NoFinal: rapid.IntRange(0, 5).Draw(t, "nofinal") == 0,
	}
	if rapid.IntRange(0, 3).Draw(t, "ctl?") == 0 {
		c.Ctl = string(rapid.SliceOfN(rapid.SampledFrom([]rune{0, '\r', '\n', '\t', 1, 0x1f, 0x7f}), 1, 3).Draw(t, "ctl"))
	}
	switch c.Video {
	case "h264":
		c.SPS, c.PPS = genPS(t, 0x67), genPS(t, 0x68)
	case "hevc":
		c.VPS, c.SPS, c.PPS = genPS(t, 0x40, 1), genPS(t, 0x42, 1), genPS(t, 0x44, 1)
	}
	c.Config, c.Rate, c.Chans = genASC(t)
	if c.Audio == "opus" {
		c.Rate, c.Chans = 48000, rapid.IntRange(1, 2).Draw(t, "och")
	}
	for _, l := range []string{"i=info text", "u=http://x/", "e=a@b", "c=IN IP4 0.0.0.0", "b=AS:500", "t=0 0", "a=tool:libavformat 60", "a=control:*", "a=range:npt=now-", "a=fmtp:96 config=00", "k=clear:x", "a=recvonly"} {
		if rapid.Bool().Draw(t, "sl") {
			c.Session = append(c.Session, l)
		}
	}
	n := rapid.IntRange(1, 4).Draw(t, "nt")
	pts := rapid.Permutation([]int{96, 97, 98, 99, 100, 111, 127, 126}).Draw(t, "pts")
	for i := 0; i < n; i++ {
		k := track{PT: pts[i], Sep: rapid.SampledFrom([]string{";", "; ", " ; "}).Draw(t, "sep"),
			UpperKey: rapid.Bool().Draw(t, "uk"), LowerHex: rapid.Bool().Draw(t, "lh"),
			Alt:     rapid.IntRange(0, 3).Draw(t, "alt") == 0,
			Control: rapid.SampledFrom([]string{"trackID=%d", "streamid=%d", "rtsp://h:554/live/a/trackID=%d", "t%d", "track=%d?x=1"}).Draw(t, "ctl"),
			Perm:    rapid.Permutation([]int{0, 1, 2, 3, 4}).Draw(t, "perm")}
		k.Control = fmt.Sprintf(k.Control, i)
		for _, e := range []string{"a=framerate:25", "b=AS:1000", "c=IN IP4 1.2.3.4", "a=x-dimensions:640,480", "a=cliprect:0,0,1,1", "i=title", "a=recvonly"} {
			if rapid.IntRange(0, 3).Draw(t, "ex") == 0 {
				k.Extra = append(k.Extra, e)
			}
		}
		switch rapid.IntRange(0, 5).Draw(t, "kind") {
		case 0, 1:
			k.Kind, k.Codec = "video", rapid.SampledFrom([]string{"H264", "h264"}).Draw(t, "c")
			k.SPS, k.PPS = genPS(t, 0x67), genPS(t, 0x68)
		case 2, 3:
			k.Kind, k.Codec = "audio", rapid.SampledFrom([]string{"mpeg4-generic", "MPEG4-GENERIC", "mpeg4-GENERIC"}).Draw(t, "c")
			k.Config, k.Rate, k.Chans = genASC(t)
		case 4:
			k.Kind = "other"
			k.Codec = rapid.SampledFrom([]string{"video H265/90000", "video VP8/90000", "audio PCMU/8000", "audio opus/48000/2", "application vnd.onvif.metadata/90000", "text t140/1000", "video JPEG/90000", "application H264/90000", "text mpeg4-generic/48000/2", "audio H264/90000", "video mpeg4-generic/48000", "application ", "text ", "message "}).Draw(t, "oc")
		case 5:
			k.Kind = "other"
			k.Codec = "application smart/1"
		}
		c.Tracks = append(c.Tracks, k)
	}
	return c
}

func (c c21) render() []byte {
	var l []string
	l = append(l, "v=0", "o=- 1 1 IN IP4 127.0.0.1", "s=No Name")
	l = append(l, c.Session...)
	for _, k := range c.Tracks {
		media, codec := k.Kind, ""
		var fm [][2]string
		switch k.Kind {
		case "video":
			codec = k.Codec + "/90000"
			b := base64.StdEncoding.EncodeToString
			fm = [][2]string{{"packetization-mode", "1"}, {"sprop-parameter-sets", b(k.SPS) + "," + b(k.PPS)}, {"profile-level-id", strings.ToUpper(hex.EncodeToString(k.SPS[1:4]))}}
		case "audio":
			codec = fmt.Sprintf("%s/%d", k.Codec, k.Rate)
			if k.Chans > 1 || k.LowerHex {
				codec += fmt.Sprintf("/%d", k.Chans)
			}
			h := strings.ToUpper(hex.EncodeToString(k.Config))
			if k.LowerHex {
				h = strings.ToLower(h)
			}
			fm = [][2]string{{"profile-level-id", "1"}, {"mode", "AAC-hbr"}, {"config", h}, {"sizelength", "13"}, {"indexlength", "3"}, {"indexdeltalength", "3"}}
		default:
			media, codec, _ = strings.Cut(k.Codec, " ")
			fm = [][2]string{{"config", "deadbeef"}, {"sprop-parameter-sets", "AAAA,BBBB"}}
		}
		m := fmt.Sprintf("m=%s 0 RTP/AVP %d", media, k.PT)
		if k.Alt {
			m += " 35"
		}
		var ps []string
		for i := range fm {
			f := fm[(i+k.Perm[0])%len(fm)]
			if k.UpperKey {
				f[0] = strings.ToUpper(f[0][:1]) + f[0][1:]
			}
			ps = append(ps, f[0]+"="+f[1])
		}
		as := []string{
			fmt.Sprintf("a=rtpmap:%d %s", k.PT, codec),
			fmt.Sprintf("a=fmtp:%d %s", k.PT, strings.Join(ps, k.Sep)),
			"a=control:" + k.Control,
		}
		if codec == "" {
			as = as[1:] // no rtpmap
		}
		if k.Alt {
			as = append(as, "a=rtpmap:35 x-other/1234/7", "a=fmtp:35 config=ff;sprop-parameter-sets=BBBB,AAAA")
		}
		l = append(l, m)
		l = append(l, k.Extra...)
		for _, i := range k.Perm {
			if i < len(as) {
				l = append(l, as[i])
			}
		}
	}
	nl := "\r\n"
	if c.LF {
		nl = "\n"
	}
	s := strings.Join(l, nl)
	if !c.NoFinal {
		s += nl
	}
	return []byte(s)
}

func runC21(c *eng.Ctx, cs c21) error {
	// writing
	r := []rune(cs.Name)
	b := librtsp.BuildSDP(librtsp.SDPParams{StreamID: string(r[:len(r)/2]) + cs.Ctl + string(r[len(r)/2:]), HasVideo: cs.Video != "", HasAudio: cs.Audio != "",
		IsHEVC: cs.Video == "hevc", VPS: cs.VPS, SPS: cs.SPS, PPS: cs.PPS, IsOpus: cs.Audio == "opus", AudioConfig: cs.Config, AudioRate: cs.Rate, AudioChans: cs.Chans})
	s, err := ref.ParseSDP(b)
	if err != nil {
		return fmt.Errorf("%v in %q", err, b)
	}
	if s.Session != cs.Name {
		return fmt.Errorf("session name %q, want %q", s.Session, cs.Name)
	}
	var v, a *ref.SDPMedia
	ctl := map[string]bool{}
	pt := map[int]bool{}
	for _, m := range s.Media {
		if m.Proto != "RTP/AVP" || len(m.PTs) != 1 || m.RTPMap[m.PTs[0]] == "" || m.Control == "" || ctl[m.Control] || pt[m.PTs[0]] {
			return fmt.Errorf("bad media section %+v", m)
		}
		ctl[m.Control], pt[m.PTs[0]] = true, true
		switch {
		case m.Kind == "video" && v == nil:
			v = m
		case m.Kind == "audio" && a == nil:
			a = m
		default:
			return fmt.Errorf("unexpected media section %+v", m)
		}
	}
	if (v != nil) != (cs.Video != "") || (a != nil) != (cs.Audio != "") {
		return fmt.Errorf("sections for %q %q missing or too many: %q", cs.Video, cs.Audio, b)
	}
	if v != nil {
		mp, fm := v.RTPMap[v.PTs[0]], v.Fmtp[v.PTs[0]]
		if cs.Video == "h264" {
			ps, err := ref.B64List(fm["sprop-parameter-sets"])
			if mp != "H264/90000" || err != nil || len(ps) != 2 || !bytes.Equal(ps[0], cs.SPS) || !bytes.Equal(ps[1], cs.PPS) ||
				!strings.EqualFold(fm["profile-level-id"], hex.EncodeToString(cs.SPS[1:4])) || fm["packetization-mode"] != "1" {
				return fmt.Errorf("H.264 section %q %v, SPS %x PPS %x", mp, fm, cs.SPS, cs.PPS)
			}
		} else {
			if mp != "H265/90000" {
				return fmt.Errorf("HEVC rtpmap %q", mp)
			}
			for k, w := range map[string][]byte{"sprop-vps": cs.VPS, "sprop-sps": cs.SPS, "sprop-pps": cs.PPS} {
				if ps, err := ref.B64List(fm[k]); err != nil || len(ps) != 1 || !bytes.Equal(ps[0], w) {
					return fmt.Errorf("HEVC section: %s=%q, want %x", k, fm[k], w)
				}
			}
		}
	}
	if a != nil {
		mp, fm := a.RTPMap[a.PTs[0]], a.Fmtp[a.PTs[0]]
		if cs.Audio == "aac" {
			cfg, err := hex.DecodeString(fm["config"])
			if mp != fmt.Sprintf("mpeg4-generic/%d/%d", cs.Rate, cs.Chans) && !(cs.Chans == 1 && mp == fmt.Sprintf("mpeg4-generic/%d", cs.Rate)) {
				return fmt.Errorf("AAC rtpmap %q, want %d/%d", mp, cs.Rate, cs.Chans)
			}
			if err != nil || !bytes.Equal(cfg, cs.Config) || !strings.EqualFold(fm["mode"], "AAC-hbr") || fm["sizelength"] != "13" || fm["indexlength"] != "3" || fm["indexdeltalength"] != "3" {
				return fmt.Errorf("AAC section %v, config %x", fm, cs.Config)
			}
		} else if mp != "opus/48000/2" && mp != fmt.Sprintf("opus/48000/%d", cs.Chans) {
			return fmt.Errorf("Opus rtpmap %q", mp)
		} else if (cs.Chans == 2) != (fm["sprop-stereo"] == "1") {
			return fmt.Errorf("Opus with %d channels: sprop-stereo=%q", cs.Chans, fm["sprop-stereo"])
		}
	}
	// the library reads back what it wrote
	p, err := librtsp.ParseSDP(b)
	if (err != nil) != (cs.Video != "h264" && cs.Audio != "aac") {
		return fmt.Errorf("ParseSDP of %q: %v", b, err)
	}
	if err == nil {
		if cs.Video == "h264" && (!p.HasVideo || !bytes.Equal(p.SPS, cs.SPS) || !bytes.Equal(p.PPS, cs.PPS) || p.VideoControl != v.Control || int(p.VideoPayloadType) != v.PTs[0]) {
			return fmt.Errorf("video read back as %+v", p)
		}
		if cs.Audio == "aac" && (!p.HasAudio || !bytes.Equal(p.AudioConfig, cs.Config) || p.AudioRate != cs.Rate || p.AudioChans != cs.Chans || p.AudioControl != a.Control || int(p.AudioPayloadType) != a.PTs[0]) {
			return fmt.Errorf("audio read back as %+v", p)
		}
	}
	// reading a publisher's description
	txt := cs.render()
	p, err = librtsp.ParseSDP(txt)
	var wv, wa *track
	for i, k := range cs.Tracks {
		if k.Kind == "video" && wv == nil {
			wv = &cs.Tracks[i]
		}
		if k.Kind == "audio" && wa == nil {
			wa = &cs.Tracks[i]
		}
	}
	if wv == nil && wa == nil {
		c.Class("no-usable-track")
		if err == nil && (p.HasVideo || p.HasAudio) {
			return fmt.Errorf("a description without H.264 or AAC yields %+v from\n%s", p, txt)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("ParseSDP: %v of\n%s", err, txt)
	}
	if p.HasVideo != (wv != nil) || p.HasAudio != (wa != nil) {
		return fmt.Errorf("video %v audio %v of\n%s", p.HasVideo, p.HasAudio, txt)
	}
	if wv != nil && (!bytes.Equal(p.SPS, wv.SPS) || !bytes.Equal(p.PPS, wv.PPS) || p.VideoControl != wv.Control || int(p.VideoPayloadType) != wv.PT) {
		return fmt.Errorf("video: %x %x %q %d, want %x %x %q %d of\n%s", p.SPS, p.PPS, p.VideoControl, p.VideoPayloadType, wv.SPS, wv.PPS, wv.Control, wv.PT, txt)
	}
	if wa != nil && (!bytes.Equal(p.AudioConfig, wa.Config) || p.AudioRate != wa.Rate || p.AudioChans != wa.Chans || p.AudioControl != wa.Control || int(p.AudioPayloadType) != wa.PT) {
		return fmt.Errorf("audio: %x %d/%d %q %d, want %x %d/%d %q %d of\n%s", p.AudioConfig, p.AudioRate, p.AudioChans, p.AudioControl, p.AudioPayloadType, wa.Config, wa.Rate, wa.Chans, wa.Control, wa.PT, txt)
	}
	c.NonTrivial()
	return nil
}

func init() {
	eng.Register("C21", eng.Opts{
		Rule:        "the publisher's description has an H.264 or AAC track",
		Quick:       eng.Budget{Shards: 8, Cases: 8000, Wall: 60 * time.Second},
		Thorough:    eng.Budget{Shards: 8, Cases: 400000, Wall: 15 * time.Minute},
		Assumptions: []string{"one SPS and one PPS per track; control characters of the name may be left out; either Opus channel form"},
	}, genC21, runC21)
}
