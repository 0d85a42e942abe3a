package wire

import (
	"encoding/binary"
	"sync/atomic"

	"pgregory.net/rapid"

	"verif/harness/ref"
)

// Item describes one message to publish.
type Item struct {
	K    string    `json:"k"` // meta data vseq aseq key inter audio voth aoth
	TS   uint32    `json:"ts"`
	N    int       `json:"n"` // bytes after the codec header
	S    uint32    `json:"s"` // content seed
	C    int32     `json:"c,omitempty"`
	B    int       `json:"b,omitempty"` // codec / variant
	Meta *ref.AVal `json:"m,omitempty"`
}

var videoCodecs = []byte{7, 7, 7, 12, 13}

func cts24(c int32) []byte { return []byte{byte(c >> 16), byte(c >> 8), byte(c)} }

// Pub builds the message.
func (it Item) Pub() Pub {
	p := Pub{FTag: ref.FTag{TS: it.TS}}
	vc := videoCodecs[it.B%len(videoCodecs)]
	body := ref.Fill(it.S, it.N)
	video := func(frame, pkt byte) {
		p.Type = 9
		p.Data = append([]byte{frame<<4 | vc, pkt}, cts24(it.C)...)
		p.Data = append(p.Data, body...)
	}
	switch it.K {
	case "meta":
		p.Type = 18
		p.Meta = it.Meta
		p.Data = ref.AMFEncode(ref.AS("onMetaData"), *it.Meta)
	case "data": // script data other than metadata
		p.Type = 18
		txt := []byte("x")
		for _, b := range ref.Fill(it.S, min(it.N, 300)) {
			txt = append(txt, 'a'+b%26)
		}
		p.Data = ref.AMFEncode([][]ref.AVal{
			{ref.AS("|RtmpSampleAccess"), ref.AB(true), ref.AB(it.S&1 == 0)},
			{ref.AS("onTextData"), ref.AO("type", ref.AS("Text"), "text", ref.AS(string(txt)), "n", ref.AN(float64(it.S)))},
			{ref.AS("onCuePoint"), ref.AS(string(txt)), ref.AN(float64(it.S))},
			{ref.AS("custom"), ref.AN(float64(it.S)), ref.ANil(), ref.AE("b", ref.AN(1), "a", ref.AB(true)), ref.AS(string(txt))},
		}[it.B&3]...)
	case "vseq":
		it.C = 0
		video(1, 0)
	case "key":
		video(1, 1)
	case "inter":
		video(2+byte(it.B/16)%2, 1)
	case "eos": // end of sequence
		it.C, body = 0, nil
		video(1+byte(it.B/16)%2, 2)
	case "info": // generated keyframes, commands
		video(4+byte(it.B/16)%2, 1)
	case "voth": // codecs without a packet type
		p.Type = 9
		f := []byte{1, 2, 3, 5}[it.B%4]
		c := []byte{2, 4, 3, 6}[it.B/4%4]
		p.Data = append([]byte{f<<4 | c}, body...)
	case "aseq":
		p.Type = 8
		p.Data = append([]byte{0xaf, 0}, body...)
	case "audio":
		p.Type = 8
		p.Data = append([]byte{0xaf, 1}, body...)
	case "aoth":
		p.Type = 8
		p.Data = append([]byte{[]byte{0x2f, 0x7a, 0x8b, 0xb6, 0xdf, 0xe2, 0xde}[it.B%7]}, body...)
		if len(p.Data) == 1 {
			p.Data = append(p.Data, byte(it.S))
		}
		if p.Data[0]>>4 == 13 && len(p.Data) < 3 {
			p.Data = append(p.Data, 1, 2)
		}
	}
	return p
}

// Msg is the RTMP message of a publication. set selects the @setDataFrame form.
func (p Pub) Msg(csid uint32, set bool) ref.RMsg {
	d := p.Data
	if p.Meta != nil && set {
		d = ref.AMFEncode(ref.AS("@setDataFrame"), ref.AS("onMetaData"), *p.Meta)
	}
	if p.Meta == nil && p.Type == 18 && set {
		d = append(ref.AMFEncode(ref.AS("@setDataFrame")), d...)
	}
	return ref.RMsg{CSID: csid, Type: p.Type, TS: p.TS, MSID: 1, Data: d}
}

// Sentinel is a last message that cannot be confused with another one.
func Sentinel(ts uint32, n int64) Pub {
	b := append([]byte{0xaf, 1}, "sentinel"...)
	b = binary.BigEndian.AppendUint64(b, uint64(n)*0x9e3779b97f4a7c15+1)
	return Pub{FTag: ref.FTag{Type: 8, TS: ts, Data: b}}
}

// GenSize draws a payload size around interesting boundaries.
func GenSize(t *rapid.T, big bool) int {
	switch rapid.IntRange(0, 9).Draw(t, "sz") {
	case 0:
		return rapid.IntRange(0, 4).Draw(t, "n")
	case 1:
		return 128*rapid.IntRange(1, 3).Draw(t, "k") + rapid.IntRange(-8, 2).Draw(t, "d")
	case 2:
		return 4096*rapid.IntRange(1, 3).Draw(t, "k") + rapid.IntRange(-8, 2).Draw(t, "d")
	case 3:
		if big {
			return rapid.SampledFrom([]int{65535, 65536, 65530, 70000, 131072 - 5, 200000}).Draw(t, "n")
		}
		return rapid.IntRange(100, 1500).Draw(t, "n")
	default:
		return rapid.IntRange(4, 400).Draw(t, "n")
	}
}

// GenTS draws a starting timestamp.
func GenTS(t *rapid.T) uint32 {
	switch rapid.IntRange(0, 6).Draw(t, "ts0") {
	case 0, 1:
		return 0
	case 2:
		return 0xffffff - uint32(rapid.IntRange(0, 400).Draw(t, "b"))
	case 3:
		return 0x7fffffff - uint32(rapid.IntRange(0, 400).Draw(t, "b"))
	case 4:
		return 0xffffffff - uint32(rapid.IntRange(0, 400).Draw(t, "b"))
	case 5:
		return 47721858 - uint32(rapid.IntRange(0, 400).Draw(t, "b")) // 2^32/90
	default:
		return rapid.Uint32().Draw(t, "b")
	}
}

// GenStream draws a publication of up to max messages.
func GenStream(t *rapid.T, max int, big bool) (out []Item) {
	n := rapid.IntRange(1, max).Draw(t, "items")
	ts := GenTS(t)
	vb := rapid.IntRange(0, 4).Draw(t, "vcodec")
	hdr := rapid.IntRange(0, 7).Draw(t, "hdrs")
	seed := rapid.Uint32Range(1, 1<<20).Draw(t, "seed")
	add := func(it Item) {
		it.TS = ts
		seed++
		it.S = seed
		if it.K == "meta" {
			m := ref.GenMeta(t)
			it.Meta = &m
		}
		if it.K != "voth" && it.K != "aoth" && it.K != "data" && it.B == 0 {
			it.B = vb
		}
		out = append(out, it)
	}
	if hdr&1 == 0 {
		add(Item{K: "meta"})
	}
	if hdr&2 == 0 {
		add(Item{K: "vseq", N: rapid.IntRange(7, 60).Draw(t, "n")})
	}
	if hdr&4 == 0 {
		add(Item{K: "aseq", N: rapid.IntRange(2, 8).Draw(t, "n")})
	}
	for len(out) < n {
		switch rapid.IntRange(0, 9).Draw(t, "step") {
		case 0:
			ts += uint32(rapid.IntRange(1, 5000).Draw(t, "gap"))
		case 1:
		case 2:
			if rapid.IntRange(0, 5).Draw(t, "jump?") == 0 {
				ts += rapid.Uint32().Draw(t, "jump")
			}
		default:
			ts += uint32(rapid.SampledFrom([]int{10, 20, 23, 33, 40}).Draw(t, "dt"))
		}
		it := Item{K: rapid.SampledFrom([]string{"key", "inter", "inter", "audio", "audio", "inter", "audio", "voth", "aoth", "vseq", "aseq", "meta", "key", "data", "eos", "info"}).Draw(t, "kind")}
		it.N = GenSize(t, big)
		switch it.K {
		case "key", "inter":
			it.C = rapid.SampledFrom([]int32{0, 0, 40, 80, -40, 8388607, -8388608}).Draw(t, "cts")
			if it.K == "inter" && rapid.IntRange(0, 3).Draw(t, "disp") == 0 {
				it.B = vb + 16*5 // disposable
			}
		case "eos", "info":
			if it.B = vb; rapid.Bool().Draw(t, "other") {
				it.B = vb + 16*5
			}
		case "voth", "aoth", "data":
			it.B = rapid.IntRange(0, 27).Draw(t, "variant")
		case "vseq", "aseq":
			if it.N > 300 {
				it.N = 40
			}
			if it.N < 2 {
				it.N = 2
			}
		}
		add(it)
	}
	return out
}

// Pubs builds all messages.
func Pubs(items []Item) (out []Pub) {
	for _, it := range items {
		out = append(out, it.Pub())
	}
	return out
}

// SendPubs publishes messages the plain way, video, audio and data on their
// own chunk streams.
func (c *Client) SendPubs(ps []Pub) error {
	var b []byte
	for i, p := range ps {
		b = append(b, ref.EncodeMsg(p.Msg(map[byte]uint32{8: 4, 9: 6, 18: 5}[p.Type], (i+int(p.TS%64)+len(p.Data))%2 == 0), c.Size)...)
	}
	if len(b) == 0 {
		return nil
	}
	return c.Write(b)
}

// SetChunkSize announces and uses a chunk size.
func (c *Client) SetChunkSize(n int) error {
	if err := c.Send(ref.RMsg{CSID: 2, Type: 1, Data: binary.BigEndian.AppendUint32(nil, uint32(n))}); err != nil {
		return err
	}
	c.Size = n
	return nil
}

var pingSeq uint32 // atomic

// Sync waits until the server has processed everything sent so far.
func (c *Client) Sync() bool {
	v := atomic.AddUint32(&pingSeq, 1) ^ 0xa5000000
	want := binary.BigEndian.AppendUint32([]byte{0, 7}, v)
	from := len(c.Msgs())
	if c.Send(ref.RMsg{CSID: 2, Type: 4, Data: binary.BigEndian.AppendUint32([]byte{0, 6}, v)}) != nil {
		return false
	}
	return c.WaitFor(Wait, func(ms []ref.RMsg) bool {
		for _, m := range ms[from:] {
			if m.Type == 4 && string(m.Data) == string(want) {
				return true
			}
		}
		return false
	})
}

// HasTag waits until a viewer received the given publication.
func HasTag(v Viewer, p Pub) bool {
	return v.WaitMedia(Wait, func(ts []ref.FTag) bool {
		for i := len(ts) - 1; i >= 0; i-- {
			if p.Same(ts[i]) == nil {
				return true
			}
		}
		return false
	})
}
