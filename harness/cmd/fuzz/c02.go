package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"testing/iotest"
	"time"

	"github.com/SmartBrave/Athena/easyio"
	"github.com/sbraveyoung/GGmpeg/libaac"
	"github.com/sbraveyoung/GGmpeg/libamf"
	"github.com/sbraveyoung/GGmpeg/libavc"
	"github.com/sbraveyoung/GGmpeg/libdash"
	"github.com/sbraveyoung/GGmpeg/libflv"
	"github.com/sbraveyoung/GGmpeg/libhls"
	"github.com/sbraveyoung/GGmpeg/libmp4"
	"github.com/sbraveyoung/GGmpeg/libmpeg"
	"github.com/sbraveyoung/GGmpeg/librtsp"
	"github.com/sbraveyoung/GGmpeg/libsrt"
	"pgregory.net/rapid"

	"verif/harness/eng"
	"verif/harness/ref"
)

// c02 is one call of a parser, or a series of calls of a stateful one.
type c02 struct {
	T    string   `json:"t"`
	In   [][]byte `json:"in"`
	Kind []byte   `json:"kind,omitempty"` // tags: type of each
	TS   []uint32 `json:"ts,omitempty"`   // tags: timestamp of each
	Unit []byte   `json:"unit,omitempty"` // In[0] is followed by Rep copies of it
	Rep  int      `json:"rep,omitempty"`
	Full bool     `json:"full,omitempty"` // In[0] is a complete message: no proper prefix of it is
	Muts int      `json:"muts,omitempty"` // how many changes were made to valid input
	Slow bool     `json:"slow,omitempty"` // a reader that delivers single bytes
}

// ------------------------------------------------------------ inputs ----

func bytesN(t *rapid.T, lo, hi int) []byte {
	return rapid.SliceOfN(rapid.Byte(), lo, hi).Draw(t, "bytes")
}

func genAMF(t *rapid.T, depth int) ref.AVal {
	hi := 7
	if depth == 0 {
		hi = 5
	}
	str := func() []byte { return []byte(rapid.StringMatching(`[a-zA-Z]{1,9}`).Draw(t, "str")) }
	switch rapid.IntRange(0, hi).Draw(t, "amf") {
	case 0, 1:
		return ref.AN(float64(rapid.Int32().Draw(t, "n")))
	case 2:
		return ref.AVal{K: ref.AStr, S: str(), Long: rapid.IntRange(0, 3).Draw(t, "long") == 0}
	case 3:
		return ref.AB(rapid.Bool().Draw(t, "b"))
	case 4:
		return ref.AVal{K: ref.ADate, N: math.Float64bits(1e12)}
	case 5:
		return ref.ANil()
	case 6:
		v := ref.AVal{K: rapid.SampledFrom([]int{ref.AObj, ref.AEcma}).Draw(t, "k")}
		for i := rapid.IntRange(0, 4).Draw(t, "nk"); i > 0; i-- {
			v.Keys = append(v.Keys, append(str(), byte('0'+i)))
			v.Vals = append(v.Vals, genAMF(t, depth-1))
		}
		return v
	default:
		v := ref.AVal{K: ref.AArr}
		for i := rapid.IntRange(0, 4).Draw(t, "na"); i > 0; i-- {
			v.Vals = append(v.Vals, genAMF(t, depth-1))
		}
		return v
	}
}

func genNAL(t *rapid.T, hevc bool) []byte {
	if hevc {
		typ := rapid.SampledFrom([]byte{0, 1, 19, 20, 21, 32, 33, 34, 35, 39}).Draw(t, "htyp")
		return ref.EPB(append([]byte{typ << 1, 1}, bytesN(t, 0, 60)...))
	}
	typ := rapid.SampledFrom([]byte{1, 1, 5, 5, 6, 7, 8, 9}).Draw(t, "typ")
	return ref.EPB(append([]byte{0x60 | typ}, bytesN(t, 0, 60)...))
}

func genNALs(t *rapid.T, hevc bool) (out [][]byte) {
	for i := rapid.IntRange(1, 4).Draw(t, "nnal"); i > 0; i-- {
		out = append(out, genNAL(t, hevc))
	}
	return out
}

// genRecord draws a decoder configuration record whose sequence parameter
// set, or whose whole, may be damaged.
func genRecord(t *rapid.T, hevc bool, muts *int) []byte {
	p := ref.GenPictureConfig(t, hevc)
	if rapid.IntRange(0, 3).Draw(t, "bomb") == 0 { // a count or size that is out of range
		p.P.Bomb = rapid.IntRange(1, 30).Draw(t, "code")
		p.P.BombV = rapid.SampledFrom(extremes).Draw(t, "value")
		*muts++
	}
	lists, rec, _, _, _ := p.Render(hevc)
	switch rapid.IntRange(0, 7).Draw(t, "damage") {
	case 6, 7:
		*muts++
		return genCutRecord(t, hevc)
	case 0, 1, 2: // the parameter sets
		ms := genMuts(t)
		*muts += len(ms)
		for i := range lists {
			if len(lists) == 2 && i == 1 {
				break
			}
			for j := range lists[i] {
				lists[i][j] = apply(lists[i][j], ms)
			}
		}
		if rapid.IntRange(0, 3).Draw(t, "garbage") == 0 {
			sps := &lists[len(lists)-2][0]
			n := 2
			if n > len(*sps) {
				n = len(*sps)
			}
			*sps = append((*sps)[:n:n], bytesN(t, 0, 40)...)
			*muts++
		}
		if hevc {
			rec = p.P.HEVCRecord(lists[0], lists[1], lists[2])
		} else {
			rec = ref.AVCRecord(lists[0], lists[1])
		}
	case 3, 4: // the record
		ms := genMuts(t)
		*muts += len(ms)
		rec = apply(rec, ms)
	}
	return rec
}

// genCutRecord draws a record that ends near the border of two of its
// fields, or whose counts and lengths do not match what follows.
func genCutRecord(t *rapid.T, hevc bool) []byte {
	count := func(n int) int {
		return rapid.SampledFrom([]int{n, n, n, n, n + 1, 0, 31, 255, 0x7fff}).Draw(t, "count")
	}
	var b []byte
	var at []int
	mark := func() { at = append(at, len(b)) }
	nals := func(typ int) {
		for k := rapid.SampledFrom([]int{1, 1, 1, 2, 0}).Draw(t, "nals"); k > 0; k-- {
			n := rapid.IntRange(0, 6).Draw(t, "n")
			l := count(n)
			b = append(b, byte(l>>8), byte(l))
			mark()
			if n > 0 {
				b = append(b, byte(typ))
				b = append(b, ref.Fill(uint32(n), n-1)...)
			}
			mark()
		}
	}
	if hevc {
		b = append(b, ref.HEVCRecord(nil, nil, nil)[:22]...)
		mark()
		types := rapid.SampledFrom([][]int{{32, 33, 34}, {32, 33, 34}, {34}, {33, 34}, {39, 32}, {}}).Draw(t, "types")
		b = append(b, byte(count(len(types))))
		mark()
		for _, typ := range types {
			b = append(b, 0x80|byte(typ))
			mark()
			l := count(1)
			b = append(b, byte(l>>8), byte(l))
			mark()
			nals(typ << 1)
		}
	} else {
		b = append(b, 1, 0x42, 0xc0, 0x1e, 0xff)
		mark()
		b = append(b, 0xe0|byte(count(1)))
		mark()
		nals(0x67)
		b = append(b, byte(count(1)))
		mark()
		nals(0x68)
	}
	if rapid.IntRange(0, 3).Draw(t, "whole") != 0 {
		k := rapid.SampledFrom(at).Draw(t, "border") + rapid.SampledFrom([]int{0, 0, 0, -1, 1}).Draw(t, "off")
		b = b[:min(k, len(b))]
	}
	return b
}

func genPacket(t *rapid.T, payload []byte, seq uint16, ts uint32, marker bool) []byte {
	r := ref.RTP{PT: 96, Seq: seq, TS: ts, SSRC: 7, Marker: marker, Payload: payload}
	if rapid.IntRange(0, 5).Draw(t, "csrc") == 0 {
		r.CSRC = []uint32{1, 2}[:rapid.IntRange(1, 2).Draw(t, "ncsrc")]
	}
	if rapid.IntRange(0, 5).Draw(t, "ext") == 0 {
		r.Ext = make([]byte, 4*rapid.IntRange(0, 3).Draw(t, "extn"))
	}
	if rapid.IntRange(0, 5).Draw(t, "pad") == 0 {
		r.Pad = rapid.IntRange(1, 9).Draw(t, "padn")
	}
	return r.Encode()
}

const hdrNames = `CSeq|Content-Length|Transport|Session|User-Agent|Range|X-A`

func genRTSP(t *rapid.T) []byte {
	m := rapid.SampledFrom([]string{"OPTIONS", "DESCRIBE", "SETUP", "PLAY", "ANNOUNCE", "RECORD", "GET_PARAMETER", "TEARDOWN", "x"}).Draw(t, "method")
	s := m + " rtsp://127.0.0.1/live/" + rapid.StringMatching(`[a-z]{0,6}`).Draw(t, "path") + " RTSP/1.0\r\n"
	for i := rapid.IntRange(0, 4).Draw(t, "nh"); i > 0; i-- {
		h := rapid.SampledFrom([]string{"CSeq: 3", "Transport: RTP/AVP/TCP;unicast;interleaved=0-1", "Session: 123;timeout=60", "User-Agent: x", "A:", ": b", "Range: npt=0-"}).Draw(t, "hdr")
		s += h + "\r\n"
	}
	var body []byte
	switch rapid.IntRange(0, 3).Draw(t, "body") {
	case 0:
		body = bytesN(t, 1, 60)
	case 1:
		body = ref.Fill(1, rapid.IntRange(100, 9000).Draw(t, "bodyn"))
	}
	if body != nil {
		s += fmt.Sprintf("Content-Length: %d\r\n", len(body))
	}
	return append([]byte(s+"\r\n"), body...)
}

func genSDP(t *rapid.T) []byte {
	s := "v=0\r\no=- 1 1 IN IP4 127.0.0.1\r\ns=x\r\nt=0 0\r\n"
	for i := rapid.IntRange(1, 3).Draw(t, "nm"); i > 0; i-- {
		s += rapid.SampledFrom([]string{"m=video 0 RTP/AVP 96\r\n", "m=audio 0 RTP/AVP 97\r\n", "m=video 0 RTP/AVP 96 97\r\n", "m=video\r\n", "m=application 0 RTP/AVP 300\r\n", "m=audio 0 RTP/AVP -1\r\n"}).Draw(t, "m")
		for j := rapid.IntRange(0, 4).Draw(t, "na"); j > 0; j-- {
			s += rapid.SampledFrom([]string{
				"a=rtpmap:96 H264/90000\r\n", "a=rtpmap:97 mpeg4-generic/44100/2\r\n", "a=rtpmap:96 H265/90000\r\n", "a=rtpmap:97 MPEG4-GENERIC\r\n", "a=rtpmap:97\r\n", "a=rtpmap:97 /\r\n",
				"a=fmtp:96 packetization-mode=1;sprop-parameter-sets=Z0IAH5WoFAFuQA==,aM48gA==\r\n", "a=fmtp:96 sprop-parameter-sets=,\r\n", "a=fmtp:96 sprop-parameter-sets=Zw==\r\n", "a=fmtp:97 config=1210;mode=AAC-hbr\r\n", "a=fmtp:97 config=1\r\n", "a=fmtp:97 =\r\n", "a=fmtp:97 config\r\n",
				"a=control:trackID=0\r\n", "a=control:\r\n", "a=control:rtsp://x/y/streamid=1\r\n", "a=\r\n", "a=fmtp:\r\n", "b=AS:1\r\n"}).Draw(t, "a")
		}
	}
	return []byte(s)
}

func genSRT(t *rapid.T) []byte {
	b := make([]byte, 16)
	binary.BigEndian.PutUint32(b[8:], rapid.Uint32().Draw(t, "ts"))
	binary.BigEndian.PutUint32(b[12:], rapid.Uint32().Draw(t, "dst"))
	switch rapid.IntRange(0, 3).Draw(t, "srt") {
	case 0:
		binary.BigEndian.PutUint32(b, rapid.Uint32Range(0, 1<<31-1).Draw(t, "seq"))
		binary.BigEndian.PutUint32(b[4:], rapid.Uint32().Draw(t, "msg"))
		b = append(b, bytesN(t, 0, 60)...)
	case 1:
		b[0] = 0x80
		h := make([]byte, 48)
		h[3], h[23] = 5, 1
		b = append(b, h...)
		b = append(b, bytesN(t, 0, 30)...)
	case 2:
		b[0], b[1] = 0x80, 3
		for i := rapid.IntRange(0, 9).Draw(t, "nnak"); i > 0; i-- {
			b = binary.BigEndian.AppendUint32(b, rapid.Uint32().Draw(t, "loss"))
		}
	default:
		b[0], b[1] = 0x80, byte(rapid.IntRange(0, 8).Draw(t, "type"))
		b = append(b, bytesN(t, 0, 60)...)
	}
	return b
}

// genTS draws a short transport stream, one chunk per packet.
func genTS(t *rapid.T, hevc bool) (out [][]byte) {
	m := &ref.TSMux{CC: map[uint16]byte{}, Stuff: rapid.SliceOfN(rapid.IntRange(0, 182), 0, 3).Draw(t, "stuff")}
	put := func(ps []ref.TSPacket) {
		for _, p := range ps {
			out = append(out, p.B)
		}
	}
	vt := byte(0x1b)
	if hevc {
		vt = 0x24
	}
	pat := ref.PSISection(0, 1, 0, true, []byte{0, 1, 0xe1, 0x00})
	pmtBody := append([]byte{0xe1, 0x01, 0xf0, 0x00}, vt, 0xe1, 0x01, 0xf0, 0x00, 0x0f, 0xe1, 0x02, 0xf0, 0x02, 0x0a, 0x00)
	pmt := ref.PSISection(2, 1, 0, true, pmtBody)
	put(m.Sections(0, false, pat))
	put(m.Sections(0x100, false, pmt))
	pts := rapid.Uint64Range(0, 1<<33-1).Draw(t, "pts")
	for i := rapid.IntRange(1, 5).Draw(t, "npes"); i > 0; i-- {
		pid, body, sid := uint16(0x101), []byte{}, byte(0xe0)
		if rapid.IntRange(0, 2).Draw(t, "audio") == 0 {
			pid, sid = 0x102, 0xc0
			for k := rapid.IntRange(1, 3).Draw(t, "adts"); k > 0; k-- {
				f := bytesN(t, 1, 30)
				n := len(f) + 7
				body = append(append(body, 0xff, 0xf1, 0x50, 0x80|byte(n>>11), byte(n>>3), byte(n<<5)|0x1f, 0xfc), f...)
			}
		} else {
			for _, n := range genNALs(t, hevc) {
				body = append(append(body, 0, 0, 0, 1), n...)
			}
			body = append(body, ref.Fill(3, rapid.SampledFrom([]int{0, 0, 100, 400}).Draw(t, "fill"))...)
		}
		pes, hdr := ref.PESHeader(sid, pts, (pts-uint64(rapid.IntRange(0, 1).Draw(t, "dts")))&(1<<33-1), rapid.SampledFrom([]int{0, 0, 5, 100}).Draw(t, "pstuff"), rapid.Bool().Draw(t, "plen"), body)
		put(m.Packets(pid, i, false, -1, pes, hdr))
		pts = (pts + 3600) & (1<<33 - 1)
	}
	return out
}

var targets = []string{"amf", "amf", "amf", "amf", "meta", "meta", "audio", "video", "avc", "avc", "aac", "rtp", "h264", "h264", "aacau", "avcc", "pack", "rtsp", "rtsp", "rtsp", "sdp", "sdp",
	"srt", "srt", "tsdemux", "tsdemux", "mpeg", "mpeg", "mp4", "dash", "dash", "hls", "hls"}

var bombs = [][2][]byte{
	{nil, {0x0a, 0, 0, 0, 1}},             // arrays of one array
	{nil, {0x03, 0, 1, 'a'}},              // objects
	{nil, {0x08, 0, 0, 0, 1, 0, 1, 'a'}},  // ECMA arrays
	{nil, {0x10, 0, 1, 'c', 0, 1, 'a'}},   // typed objects
	{nil, {0x0a, 0, 0, 0, 0}},             // empty arrays
	{nil, {0x03, 0, 0, 9}},                // empty objects
	{nil, {0x05}},                         // nulls
	{nil, {0x02, 0, 0}},                   // empty strings
	{{3}, {0, 1, 'a', 5}},                 // one key again and again
	{{0x0a, 0xff, 0xff, 0xff, 0xff}, {5}}, // a long array
	{{0x0a, 0x7f, 0xff, 0xff, 0xff}, nil},
	{{0x0c, 0xff, 0xff, 0xff, 0xf0}, nil}, // a long string
	{{0x0f, 0x7f, 0xff, 0xff, 0xf0}, nil}, // XML
	{{0x03, 0, 0, 9}, {7, 0, 0}},          // references to one object
}

func genC02(t *rapid.T) c02 {
	c := c02{T: rapid.SampledFrom(targets).Draw(t, "target")}
	var valid [][]byte
	random := rapid.IntRange(0, 9).Draw(t, "random") == 0
	switch c.T {
	case "amf":
		if rapid.IntRange(0, 20).Draw(t, "bomb") == 0 {
			b := rapid.SampledFrom(bombs).Draw(t, "kind")
			c.In = [][]byte{append(append([]byte{}, b[0]...), bytesN(t, 0, 3)...)}
			if rapid.IntRange(0, 2).Draw(t, "junk") != 0 {
				c.In[0] = b[0]
			}
			c.Unit = b[1]
			c.Rep = rapid.OneOf(rapid.IntRange(1, 300), rapid.IntRange(1000, 100000), rapid.IntRange(100000, 1500000)).Draw(t, "rep")
			c.Muts = 1
			return c
		}
		var b []byte
		n := rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "nv")
		for i := 0; i < n; i++ {
			b = append(b, ref.AMFEncode(genAMF(t, 3))...)
		}
		c.Full = n == 1
		c.Slow = rapid.IntRange(0, 5).Draw(t, "slow") == 0
		valid = [][]byte{b}
	case "meta":
		m := ref.GenMeta(t)
		for i := rapid.IntRange(0, 2).Draw(t, "odd"); i > 0; i-- { // names that mean something to the implementation
			k := rapid.SampledFrom([]string{"TagBase", "tagbase", "TagType", "TimeStamp", "timestamp", "DataSize", "StreamID", "FirstField", "SecondField", "Properties", "raw", "width", "encoder", "stereo", ""}).Draw(t, "key")
			v := genAMF(t, 2)
			if rapid.Bool().Draw(t, "nested") {
				v = ref.AO("TimeStamp", ref.AN(5), "TagType", ref.AN(9), "DataSize", ref.AS("x"))
			}
			if k != "" {
				m.Keys, m.Vals = append(m.Keys, []byte(k)), append(m.Vals, v)
			}
		}
		vals := []ref.AVal{ref.AS("onMetaData"), m}
		switch rapid.IntRange(0, 4).Draw(t, "shape") {
		case 0:
			vals = append([]ref.AVal{ref.AS("@setDataFrame")}, vals...)
		case 1:
			vals[0] = ref.AS("onCuePoint")
		case 2:
			vals = append([]ref.AVal{{K: ref.AStr, S: []byte("@setDataFrame"), Long: true}}, vals...)
		case 3:
			vals = append([]ref.AVal{ref.AS("@setDataFrame")}, genAMF(t, 1), genAMF(t, 1))
		}
		valid = [][]byte{ref.AMFEncode(vals...)}
	case "audio":
		valid = [][]byte{append([]byte{rapid.SampledFrom([]byte{0xaf, 0xae, 0x2f, 0xdf, 0x10}).Draw(t, "h"), 1}, bytesN(t, 0, 9)...)}
	case "video":
		valid = [][]byte{append([]byte{rapid.SampledFrom([]byte{0x17, 0x27, 0x1c, 0x1d, 0x12}).Draw(t, "h"), 1, 0, 0, 0}, bytesN(t, 0, 9)...)}
	case "avc":
		switch rapid.IntRange(0, 2).Draw(t, "rec") {
		case 0:
			c.In = [][]byte{ref.AVCRecord([][]byte{append([]byte{0x67, 66, 0, 30}, bytesN(t, 1, 20)...)}, [][]byte{append([]byte{0x68}, bytesN(t, 1, 9)...)})}
			c.Full = true
		default:
			c.In = [][]byte{genRecord(t, false, &c.Muts)}
		}
		for i := rapid.IntRange(0, 3).Draw(t, "nau"); i > 0; i-- {
			ms := genMuts(t)
			c.Muts += len(ms)
			c.In = append(c.In, apply(ref.AVCC(genNALs(t, false)...), ms))
		}
		if random {
			c.In[0] = bytesN(t, 0, 60)
			c.Full = false
		}
		return c
	case "aac":
		valid = [][]byte{{0x12, 0x10}, bytesN(t, 0, 40)}
	case "rtp":
		valid = [][]byte{genPacket(t, bytesN(t, 0, 40), 1, 2, true)}
	case "h264":
		seq := rapid.Uint16().Draw(t, "seq")
		for i := rapid.IntRange(1, 4).Draw(t, "nau"); i > 0; i-- {
			nals := genNALs(t, false)
			ps := ref.PackH264(nals, rapid.SampledFrom([]int{10, 30, 1400}).Draw(t, "mtu"), rapid.Bool().Draw(t, "agg"))
			for k, p := range ps {
				valid = append(valid, genPacket(t, p, seq, uint32(i)*3600, k == len(ps)-1))
				seq++
			}
		}
	case "aacau":
		var fs [][]byte
		for i := rapid.IntRange(0, 4).Draw(t, "nau"); i > 0; i-- {
			fs = append(fs, bytesN(t, 1, 30))
		}
		valid = [][]byte{ref.PackAAC(fs...)}
	case "avcc":
		valid = [][]byte{ref.AVCC(genNALs(t, rapid.Bool().Draw(t, "hevc"))...)}
	case "pack":
		valid = [][]byte{genNAL(t, rapid.Bool().Draw(t, "hevc"))}
		if rapid.IntRange(0, 2).Draw(t, "bign") == 0 {
			valid[0] = append(valid[0], ref.Fill(1, rapid.IntRange(1300, 9000).Draw(t, "n"))...)
		}
	case "rtsp":
		if rapid.IntRange(0, 20).Draw(t, "endless") == 0 {
			c.In = [][]byte{[]byte(rapid.SampledFrom([]string{"", "OPTIONS * RTSP/1.0\r\n", "OPTIONS * RTSP/1.0\r\nCSeq: ", "OPTIONS * RTSP/1.0\r\nContent-Length: 5\r\n"}).Draw(t, "start"))}
			c.Unit = []byte(rapid.SampledFrom([]string{"a", "a:b\r\n", "\r", " ", ":", "\x00", "$", "a: b\n"}).Draw(t, "unit"))
			c.Rep = 1 << 26 / len(c.Unit)
			c.Muts = 1
			return c
		}
		n := rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "nreq")
		var b []byte
		for i := 0; i < n; i++ {
			b = append(b, genRTSP(t)...)
		}
		if rapid.IntRange(0, 3).Draw(t, "length") == 0 { // a lie about the body
			l := rapid.SampledFrom([]string{"-1", "0", "99999999999999999999", "9223372036854775807", "2147483647", "4294967295", "1048576", "1048577", "300000000", "0x10", "1e9", "", " 5", "+5", "5 5"}).Draw(t, "len")
			b = append([]byte("SETUP rtsp://h/live/s RTSP/1.0\r\nContent-Length: "+l+"\r\n\r\n"), b...)
			c.Muts++
			n++
		}
		c.Full = n == 1
		c.Slow = rapid.IntRange(0, 5).Draw(t, "slow") == 0
		valid = [][]byte{b}
	case "sdp":
		valid = [][]byte{genSDP(t)}
	case "srt":
		valid = [][]byte{genSRT(t)}
	case "tsdemux":
		ps := genTS(t, rapid.IntRange(0, 3).Draw(t, "hevc") == 0)
		for len(ps) > 0 { // a few packets per datagram
			n := rapid.IntRange(1, 7).Draw(t, "per")
			if n > len(ps) {
				n = len(ps)
			}
			valid = append(valid, bytes.Join(ps[:n], nil))
			ps = ps[n:]
		}
	case "mpeg":
		valid = genTS(t, false)
		if rapid.Bool().Draw(t, "bare") { // a section or a PES packet alone
			pes, _ := ref.PESHeader(rapid.SampledFrom([]byte{0xe0, 0xc0, 0xbc, 0xbe, 0xbf, 0xf0, 0xff, 0xbd}).Draw(t, "sid"), 5, 4, 3, true, bytesN(t, 0, 40))
			valid = [][]byte{rapid.SampledFrom([][]byte{
				ref.PSISection(0, 1, 0, true, []byte{0, 1, 0xe1, 0, 0, 2, 0xe2, 0}),
				ref.PSISection(2, 1, 0, true, []byte{0xe1, 1, 0xf0, 2, 5, 0, 0x1b, 0xe1, 1, 0xf0, 0, 0x0f, 0xe1, 2, 0xf0, 2, 10, 0}),
				pes}).Draw(t, "bareunit")}
		}
	case "mp4":
		valid = [][]byte{bytesN(t, 0, 60), bytesN(t, 0, 30), bytesN(t, 0, 60)}
	case "dash", "hls":
		hevc := rapid.IntRange(0, 2).Draw(t, "hevc") == 0
		codec := byte(7)
		if hevc {
			codec = 12
		}
		ts := rapid.SampledFrom([]uint32{0, 1000, 1<<32 - 3000}).Draw(t, "ts0")
		add := func(kind byte, b []byte) {
			ms := genMuts(t)
			if rapid.IntRange(0, 2).Draw(t, "mutate") != 0 {
				ms = nil
			}
			c.Muts += len(ms)
			c.In = append(c.In, apply(b, ms))
			c.Kind = append(c.Kind, kind)
			if rapid.IntRange(0, 9).Draw(t, "jump") == 0 {
				ts = rapid.Uint32().Draw(t, "ts")
			}
			c.TS = append(c.TS, ts)
			ts += uint32(rapid.IntRange(0, 900).Draw(t, "dts"))
		}
		for i := rapid.IntRange(1, 25).Draw(t, "ntags"); i > 0; i-- {
			k := rapid.IntRange(0, 9).Draw(t, "tag")
			switch {
			case k == 0 || i == 25 || len(c.In) == 0:
				add(9, append([]byte{0x10 | codec, 0, 0, 0, 0}, genRecord(t, hevc, &c.Muts)...))
			case k <= 6:
				ft := rapid.SampledFrom([]byte{0x10, 0x10, 0x20, 0x50}).Draw(t, "ft")
				add(9, append([]byte{ft | codec, rapid.SampledFrom([]byte{1, 1, 1, 1, 2, 0}).Draw(t, "pt"), 0, 0, byte(rapid.IntRange(0, 200).Draw(t, "cts"))}, ref.AVCC(genNALs(t, hevc)...)...))
			case k == 7:
				add(8, []byte{0xaf, 0, rapid.Byte().Draw(t, "a0"), rapid.Byte().Draw(t, "a1")})
			case k == 8:
				add(8, append([]byte{0xaf, 1}, bytesN(t, 0, 40)...))
			default:
				add(rapid.SampledFrom([]byte{8, 9, 18}).Draw(t, "oddkind"), bytesN(t, 0, 20))
			}
		}
		return c
	}
	if random {
		c.In = nil
		for i := rapid.IntRange(1, 3).Draw(t, "nrand"); i > 0; i-- {
			c.In = append(c.In, bytesN(t, 0, 200))
		}
		c.Full = false
		c.Muts++
		return c
	}
	for i, b := range valid {
		if len(valid) > 2 && rapid.IntRange(0, 2).Draw(t, "which") != 0 {
			c.In = append(c.In, b)
			continue
		}
		ms := genMuts(t)
		if i == 0 && len(ms) > 0 {
			c.Full = false
		}
		c.Muts += len(ms)
		c.In = append(c.In, apply(b, ms))
	}
	return c
}

// ----------------------------------------------------------- targets ----

// counting counts what a parser takes from its reader.
type counting struct {
	r io.Reader
	n int64
}

func (c *counting) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	c.n += int64(n)
	return n, err
}

// repeat is start followed by n times unit.
type repeat struct {
	start, unit []byte
	n, off      int
}

func (r *repeat) Read(p []byte) (n int, err error) {
	n = copy(p, r.start)
	r.start = r.start[n:]
	for n < len(p) && r.n > 0 {
		k := copy(p[n:], r.unit[r.off:])
		n, r.off = n+k, r.off+k
		if r.off == len(r.unit) {
			r.off, r.n = 0, r.n-1
		}
	}
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

type tagReader struct {
	tags []libflv.Tag
	i    int
}

func (r *tagReader) Read() (interface{}, bool) {
	if r.i >= len(r.tags) {
		return nil, false
	}
	r.i++
	return r.tags[r.i-1], true
}

func xor(what string, nilValue bool, err error) error {
	if nilValue == (err == nil) {
		return fmt.Errorf("%s: value nil=%v, error %v", what, nilValue, err)
	}
	return nil
}

func within(what string, in int, parts ...[]byte) error {
	n := 0
	for _, p := range parts {
		n += len(p)
	}
	if n > in {
		return fmt.Errorf("%s: %d bytes out of %d", what, n, in)
	}
	return nil
}

// parse runs the target on the inputs. desc describes the outcome, and failed
// tells whether the parser reported an error.
func parse(c *eng.Ctx, cs c02, in [][]byte) (desc string, failed bool, err error) {
	at := func(i int) []byte {
		if i < len(in) {
			return in[i]
		}
		return nil
	}
	b := at(0)
	total := 0
	for _, x := range in {
		total += len(x)
	}
	res := func(v any, e error) (string, bool, error) { return fmt.Sprintf("%+v %v", v, e != nil), e != nil, nil }
	var reader io.Reader = bytes.NewReader(b)
	if cs.Slow {
		reader = iotest.OneByteReader(reader)
	}
	switch cs.T {
	case "amf":
		vals, e := libamf.AMF0.Decode(easyio.NewEasyReader(reader))
		if len(b) > 1<<16 {
			return fmt.Sprint(len(vals), e != nil), e != nil, nil
		}
		return res(vals, e)
	case "meta":
		tb := libflv.TagBase{TagType: 18, DataSize: uint32(len(b)), TimeStamp: 77}
		m, e := libflv.ParseMetaTag(tb, libamf.AMF0, b)
		if e != nil {
			return res(nil, e)
		}
		if m == nil {
			return "", false, errors.New("ParseMetaTag: neither a tag nor an error")
		}
		if *m.GetTagInfo() != tb {
			return "", false, fmt.Errorf("ParseMetaTag: tag header %+v became %+v", tb, *m.GetTagInfo())
		}
		out := m.Marshal()
		if len(out) == 0 {
			return "", false, errors.New("ParseMetaTag: accepted, but nothing to send")
		}
		ps := []string{}
		for k, v := range m.Properties {
			ps = append(ps, fmt.Sprintf("%q=%+v", k, v))
		}
		sort.Strings(ps)
		return fmt.Sprint(m.SecondField, ps), false, nil
	case "audio":
		a, e := libflv.ParseAudioTag(libflv.TagBase{TagType: 8}, b)
		if err := xor("ParseAudioTag", a == nil, e); err != nil {
			return "", false, err
		}
		if a == nil {
			return res(nil, e)
		}
		return res(*a, e)
	case "video":
		v, e := libflv.ParseVideoTag(libflv.TagBase{TagType: 9}, b)
		if err := xor("ParseVideoTag", v == nil, e); err != nil {
			return "", false, err
		}
		if v == nil {
			return res(nil, e)
		}
		return res(*v, e)
	case "avc":
		p := &libavc.Parser{Pps: bytes.NewBuffer(make([]byte, libavc.MaxSpsPpsLen))}
		e := p.ParseSpecificInfo(b)
		if err := within("parameter sets", 3*len(b), p.SpecificInfo); err != nil {
			return "", false, err
		}
		desc = fmt.Sprintf("%x %v", p.SpecificInfo, e != nil)
		for i := 1; i < len(in); i++ {
			var out bytes.Buffer
			e := p.GetAnnexbH264(in[i], &out)
			if err := within("Annex B", 6+len(p.SpecificInfo)+len(in[i]), out.Bytes()); err != nil {
				return "", false, err
			}
			desc += fmt.Sprintf(" %x %v", out.Bytes(), e != nil)
		}
		return desc, e != nil, nil
	case "aac":
		var h libaac.AACHeader
		e := h.Parse(b)
		if e != nil {
			return res(nil, e)
		}
		a := h.Adts(at(1))
		if len(a) != 7 {
			return "", false, fmt.Errorf("ADTS header of %d bytes", len(a))
		}
		return res(a, nil)
	case "rtp":
		p, e := librtsp.ParseRTP(b)
		if err := xor("ParseRTP", p == nil, e); err != nil {
			return "", false, err
		}
		if p == nil {
			return res(nil, e)
		}
		return fmt.Sprintf("%+v", *p), false, within("RTP payload", len(b)-12, p.Payload)
	case "h264":
		r := &librtsp.H264Reassembler{}
		out := 0
		for _, x := range in {
			p, e := librtsp.ParseRTP(x)
			if e != nil {
				desc += "E"
				continue
			}
			nals, ts := r.Push(p)
			for _, n := range nals {
				if len(n) == 0 {
					return "", false, errors.New("H264Reassembler: empty NAL unit")
				}
				out += len(n)
			}
			librtsp.ContainsKeyframe(nals)
			desc += fmt.Sprintf("[%x %d]", nals, ts)
		}
		if out > total {
			return "", false, fmt.Errorf("H264Reassembler: %d bytes of NAL units from %d", out, total)
		}
		return desc, false, nil
	case "aacau":
		fs := librtsp.AACAUExtract(b)
		return fmt.Sprintf("%x", fs), len(fs) == 0, within("AACAUExtract", len(b), fs...)
	case "avcc":
		nals := librtsp.SplitAVCC(b)
		for _, n := range nals {
			if len(n) == 0 {
				return "", false, errors.New("SplitAVCC: empty NAL unit")
			}
		}
		if j := librtsp.AVCCFromNALs(nals); !bytes.HasPrefix(b, j) {
			return "", false, fmt.Errorf("SplitAVCC: the units are not those of the input: % x", j)
		}
		return fmt.Sprintf("%x %v %v", nals, librtsp.ContainsKeyframe(nals), librtsp.HEVCContainsKeyframe(nals)), false, nil
	case "pack":
		for _, mtu := range []int{100, 1400} {
			a, h := librtsp.PackNAL(b, mtu), librtsp.PackHEVCNAL(b, mtu)
			for _, l := range [][][]byte{a, h} {
				for _, p := range l {
					if len(p) > mtu {
						return "", false, fmt.Errorf("a payload of %d bytes, MTU %d", len(p), mtu)
					}
				}
				desc += fmt.Sprintf("%x", l)
			}
		}
		desc += fmt.Sprintf("%x%x%x", librtsp.PackAACFrame(b), librtsp.PackOpusFrame(b), librtsp.AdtsToRaw(b))
		for _, p := range []librtsp.SDPParams{
			{HasVideo: true, SPS: b, PPS: b, HasAudio: true, AudioConfig: b, AudioRate: 44100, AudioChans: 2, StreamID: string(b)},
			{HasVideo: true, IsHEVC: true, VPS: b, SPS: b, PPS: b, HasAudio: true, IsOpus: true, AudioChans: len(b)},
		} {
			desc += fmt.Sprintf("%x", librtsp.BuildSDP(p))
		}
		return desc, false, nil
	case "rtsp":
		br := bufio.NewReader(reader)
		for i := 0; ; i++ {
			q, e := librtsp.ReadRequest(br)
			if err := xor("ReadRequest", q == nil, e); err != nil {
				return "", false, err
			}
			if e != nil {
				return desc, i == 0, nil
			}
			if i > len(b) {
				return "", false, fmt.Errorf("ReadRequest: %d requests in %d bytes", i, len(b))
			}
			n := len(q.Method) + len(q.URL) + len(q.Version) + len(q.Body)
			ks := []string{}
			for k, v := range q.Headers {
				n += len(k) + len(v)
				ks = append(ks, k+"="+v)
			}
			sort.Strings(ks)
			if n > 3*len(b) { // lower-casing may lengthen keys
				return "", false, fmt.Errorf("ReadRequest: %d bytes from %d", n, len(b))
			}
			desc += fmt.Sprintf("%q %q %q %q %x\n", q.Method, q.URL, q.Version, ks, q.Body)
			(&librtsp.Response{StatusCode: 200, Headers: q.Headers, Body: q.Body}).Bytes()
		}
	case "sdp":
		s, e := librtsp.ParseSDP(b)
		if err := xor("ParseSDP", s == nil, e); err != nil {
			return "", false, err
		}
		if s == nil {
			return res(nil, e)
		}
		out := librtsp.BuildSDP(librtsp.SDPParams{HasVideo: s.HasVideo, SPS: s.SPS, PPS: s.PPS, HasAudio: s.HasAudio, AudioConfig: s.AudioConfig, AudioRate: s.AudioRate, AudioChans: s.AudioChans})
		return fmt.Sprintf("%+v %q", *s, out), false, nil
	case "srt":
		h, body, e := libsrt.ParseHeader(b)
		if err := xor("ParseHeader", h == nil, e); err != nil {
			return "", false, err
		}
		if h == nil {
			return res(nil, e)
		}
		if len(body) != len(b)-16 {
			return "", false, fmt.Errorf("ParseHeader: body of %d bytes in a packet of %d", len(body), len(b))
		}
		hs, he := libsrt.ParseHandshake(body)
		if err := xor("ParseHandshake", hs == nil, he); err != nil {
			return "", false, err
		}
		if hs != nil && !bytes.Equal(hs.Marshal(), body[:48]) {
			return "", false, errors.New("ParseHandshake: does not marshal to what was parsed")
		}
		nak := libsrt.ParseNAK(body)
		if len(nak) > len(body)/4 {
			return "", false, fmt.Errorf("ParseNAK: %d ranges in %d bytes", len(nak), len(body))
		}
		for kk := uint8(0); kk < 4; kk++ {
			s := &libsrt.CryptoState{Active: true}
			copy(s.Salt[:], body)
			p, e := s.DecryptDataPayload(kk, h.SeqNumber, body)
			if e == nil && len(p) != len(body) {
				return "", false, fmt.Errorf("DecryptDataPayload: %d bytes from %d", len(p), len(body))
			}
		}
		return fmt.Sprintf("%+v %+v", *h, nak), he != nil, nil
	case "tsdemux":
		d := libsrt.NewDemuxer()
		out := 0
		d.OnVideo = func(au libsrt.AccessUnit) {
			out += len(au.NAL)
			desc += fmt.Sprintf("v%x %v", au.NAL, au.Key)
		}
		d.OnAudio = func(f libsrt.AudioFrame) {
			out += len(f.Data)
			desc += fmt.Sprintf("a%x", f.Data)
		}
		for _, x := range in {
			d.Feed(x)
		}
		if out > total {
			return "", false, fmt.Errorf("Demuxer: %d bytes of frames from %d", out, total)
		}
		return desc, false, nil
	case "mpeg":
		pat, pmt, pes := libmpeg.NewPAT(), libmpeg.NewPMT(1), libmpeg.NewPES()
		for _, psi := range []libmpeg.PSI{pat, pmt, pes} {
			desc += fmt.Sprint(psi.Parse(easyio.NewEasyReader(bytes.NewReader(b))) != nil)
		}
		pids := map[uint16]libmpeg.PSI{0: libmpeg.NewPAT()}
		n := 0
		for _, x := range in {
			r := bytes.NewReader(x)
			ts := &libmpeg.TS{}
			e := ts.DeMux(pids, easyio.NewEasyReader(r))
			desc += fmt.Sprint(e != nil)
			if e == nil {
				n++
			}
			for pid, p := range pids[0].(*libmpeg.PAT).PMTs {
				if pid != 0 {
					pids[pid] = p
				}
				for pid, p := range p.Streams {
					if pid != 0 {
						pids[pid] = p
					}
				}
			}
		}
		return desc, n == 0, nil
	case "mp4":
		boxes := 0
		for _, f := range [][]byte{
			libmp4.BuildInitSegment(libmp4.InitSegmentParams{TrackID: 1, Timescale: 90000, SPS: b, PPS: at(1)}),
			libmp4.BuildInitSegment(libmp4.InitSegmentParams{TrackID: 1, Timescale: 90000, AVCCRecord: at(2)}),
			libmp4.BuildHEVCInitSegment(libmp4.HEVCInitParams{TrackID: 1, Timescale: 90000, HVCCRecord: at(2)}),
		} {
			l, e := ref.ParseBoxes(f, 0)
			if e != nil || len(l) != 2 {
				return "", false, fmt.Errorf("initialisation segment: %d boxes, %v", len(l), e)
			}
			if len(f) > 4096+total {
				return "", false, fmt.Errorf("initialisation segment of %d bytes from %d", len(f), total)
			}
			boxes += len(f)
		}
		return fmt.Sprint(boxes), false, nil
	case "dash", "hls":
		r := &tagReader{}
		for i, x := range in {
			tb := libflv.TagBase{TagType: cs.Kind[i], DataSize: uint32(len(x)), TimeStamp: cs.TS[i]}
			switch cs.Kind[i] {
			case 8:
				if a, e := libflv.ParseAudioTag(tb, x); e == nil {
					r.tags = append(r.tags, a)
				}
			case 9:
				if v, e := libflv.ParseVideoTag(tb, x); e == nil {
					r.tags = append(r.tags, v)
				}
			default:
				if m, e := libflv.ParseMetaTag(tb, libamf.AMF0, x); e == nil {
					r.tags = append(r.tags, m)
				}
			}
		}
		dir, e := os.MkdirTemp(c.Dir, "seg")
		if e != nil {
			return "", false, eng.ErrInconclusive
		}
		defer os.RemoveAll(dir)
		if cs.T == "dash" {
			d := libdash.NewDASH().WithStreamID("s").WithDir(dir)
			d.Start(r)
			desc = fmt.Sprint(len(d.Manifest()), len(d.InitSegment()))
			d.Stop()
		} else {
			h := libhls.NewHls().WithStreamID("s").WithDir(dir)
			h.Start(r)
			desc = fmt.Sprint(len(h.Playlist()))
			h.Stop()
		}
		left := 0
		filepath.Walk(dir, func(_ string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				left += int(fi.Size())
			}
			return nil
		})
		if left > 64<<10+20*total {
			return "", false, fmt.Errorf("%d bytes of files for %d bytes of tags", left, total)
		}
		return desc, false, nil
	}
	return "", false, errors.New("unknown target " + cs.T)
}

// allowance is what handling n bytes may allocate.
func allowance(t string, n int) uint64 {
	k := uint64(4 << 20)
	if t == "hls" || t == "dash" {
		k = 64 << 20
	}
	return k + 500*uint64(n)
}

// cpu is the time this thread has been computing.
func cpu() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(1, &u) != nil { // RUSAGE_THREAD
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func runC02(c *eng.Ctx, cs c02) error {
	in := make([][]byte, len(cs.In))
	total := 0
	for i, b := range cs.In {
		in[i] = make([]byte, len(b)) // no spare capacity
		copy(in[i], b)
		total += len(b)
	}
	if cs.T == "rtsp" && cs.Rep > 0 { // without an end in sight
		r := &counting{r: &repeat{start: cs.In[0], unit: cs.Unit, n: cs.Rep}}
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		br := bufio.NewReader(r)
		for i := 0; i < 1<<16; i++ {
			if _, err := librtsp.ReadRequest(br); err != nil {
				break
			}
		}
		runtime.ReadMemStats(&m1)
		if r.n > 16<<20 {
			return fmt.Errorf("rtsp: a request without an end (%q and then %q over and over): still reading after %d bytes, %d bytes allocated", cs.In[0], cs.Unit, r.n, m1.TotalAlloc-m0.TotalAlloc)
		}
		c.Class("rtsp-endless")
		c.NonTrivial()
		return nil
	}
	if cs.Rep > 0 && len(in) > 0 {
		in[0] = append(in[0], bytes.Repeat(cs.Unit, cs.Rep)...)
		in[0] = in[0][:len(in[0]):len(in[0])]
		total += len(cs.Unit) * cs.Rep
	}
	keep := make([][]byte, len(in))
	for i := range in {
		keep[i] = append([]byte{}, in[i]...)
	}
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	runtime.LockOSThread()
	start := cpu()
	desc, failed, err := parse(c, cs, in)
	took := cpu() - start
	runtime.UnlockOSThread()
	runtime.ReadMemStats(&m1)
	if err != nil {
		return fmt.Errorf("%s: %v", cs.T, err)
	}
	for i := range in {
		if !bytes.Equal(in[i], keep[i]) {
			return fmt.Errorf("%s: the parser changed its input", cs.T)
		}
	}
	used := m1.TotalAlloc - m0.TotalAlloc
	if m1.StackInuse > m0.StackInuse+64<<20+uint64(8*total) {
		return fmt.Errorf("%s: the stack grew by %d bytes for %d bytes of input", cs.T, m1.StackInuse-m0.StackInuse, total)
	}
	// What describes the outcome is ours.
	if lim := allowance(cs.T, total) + uint64(16*len(desc)); used > lim {
		return fmt.Errorf("%s: %d bytes allocated for %d bytes of input (took %v)", cs.T, used, total, took)
	}
	if lim := 4*time.Second + time.Duration(total)*time.Microsecond; took > lim {
		return fmt.Errorf("%s: %v of computing for %d bytes of input", cs.T, took, total)
	}
	if total < 1<<16 {
		desc2, _, err := parse(c, cs, in)
		if err != nil || desc != desc2 {
			return fmt.Errorf("%s: a second run differs: %.200q then %.200q (%v)", cs.T, desc, desc2, err)
		}
	}
	if cs.Full {
		if failed {
			return fmt.Errorf("%s: valid input was rejected", cs.T)
		}
		step := 1 + len(in[0])/400
		for n := step; n < len(in[0]); n += step {
			_, failed, err := parse(c, cs, [][]byte{in[0][:n:n]})
			if err != nil {
				return fmt.Errorf("%s cut to %d bytes: %v", cs.T, n, err)
			}
			if !failed {
				return fmt.Errorf("%s: the first %d of %d bytes were taken for a complete message", cs.T, n, len(in[0]))
			}
		}
		c.Class(cs.T + "-prefixes")
	}
	switch {
	case failed:
		c.Class(cs.T + "-rejected")
	default:
		c.Class(cs.T + "-accepted")
	}
	if cs.Muts > 0 && total > 0 || cs.Full {
		c.NonTrivial()
	}
	if strings.HasPrefix(cs.T, "amf") && cs.Rep > 100000 {
		c.Class("amf-large")
	}
	return nil
}

func init() {
	eng.Register("C02", eng.Opts{
		Rule:      "the input is a mutation of a valid message (1 to 10 changes of bytes, lengths, order), a structure repeated up to 1500000 times, or random; or every prefix of a valid message is tried",
		Quick:     eng.Budget{Shards: 8, Cases: 15000, Wall: 60 * time.Second},
		Thorough:  eng.Budget{Shards: 8, Cases: 400000, Wall: 700 * time.Second},
		HangLimit: 30 * time.Second, HangIsBug: true, MemLimit: 8 << 30,
		Unprivileged: true,
		Assumptions: []string{
			"out of proportion means more than 4 MiB (64 MiB for the segmenters) and 500 times the input, or more than 64 MiB and 8 times the input of stack",
			"forever means more than 4 s and 1 µs per byte of computing, or 30 s altogether",
		},
	}, genC02, runC02)
}
