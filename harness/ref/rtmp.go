package ref

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"io"
)

// RMsg is one RTMP message as seen by a chunk reader.
type RMsg struct {
	CSID uint32
	Type byte
	TS   uint32
	MSID uint32
	Data []byte
}

func (m RMsg) Tag() FTag { return FTag{m.Type, m.TS, m.Data} }

// ChunkHeader is one chunk header as it is on the wire.
type ChunkHeader struct {
	Fmt  int
	CSID uint32
	Form int    // bytes of the basic header: 0 (shortest), 1, 2 or 3
	Time uint32 // timestamp (fmt 0) or delta (fmt 1, 2); fmt 3: the value repeated in the extended field
	Ext  bool   // fmt 3 only: an extended timestamp field is present
	Len  int
	Type byte
	MSID uint32
}

// Encode writes a chunk header.
func (h ChunkHeader) Encode() (b []byte) {
	form := h.Form
	if form == 0 {
		switch {
		case h.CSID < 64:
			form = 1
		case h.CSID < 320:
			form = 2
		default:
			form = 3
		}
	}
	f := byte(h.Fmt << 6)
	switch form {
	case 1:
		b = append(b, f|byte(h.CSID))
	case 2:
		b = append(b, f, byte(h.CSID-64))
	default:
		b = append(b, f|1, byte((h.CSID-64)&0xff), byte((h.CSID-64)>>8))
	}
	ext := h.Ext
	if h.Fmt < 3 {
		t := h.Time
		if t >= 0xffffff {
			t, ext = 0xffffff, true
		} else {
			ext = false
		}
		b = append(b, byte(t>>16), byte(t>>8), byte(t))
	}
	if h.Fmt < 2 {
		b = append(b, byte(h.Len>>16), byte(h.Len>>8), byte(h.Len), h.Type)
	}
	if h.Fmt < 1 {
		b = binary.LittleEndian.AppendUint32(b, h.MSID)
	}
	if ext {
		b = binary.BigEndian.AppendUint32(b, h.Time)
	}
	return b
}

type rcs struct {
	ts, delta uint32
	ext       bool
	extv      uint32
	length    int
	typ       byte
	msid      uint32
	buf       []byte
	inMsg     bool
}

// ChunkReader is a strict RTMP chunk stream parser.
type ChunkReader struct {
	R       io.Reader
	Size    int // current chunk size
	MaxSize int // largest chunk payload seen
	MaxMsg  int // limit for a message's length (0: none)
	Pos     int64
	cs      map[uint32]*rcs
}

// ChunkError is a protocol violation.
type ChunkError struct{ Msg string }

func (e *ChunkError) Error() string { return e.Msg }

func (c *ChunkReader) full(b []byte) error {
	n, err := io.ReadFull(c.R, b)
	c.Pos += int64(n)
	return err
}

// Read returns the next complete message. Chunk size changes and aborts are
// applied (and returned as messages).
func (c *ChunkReader) Read() (*RMsg, error) {
	if c.cs == nil {
		c.cs = map[uint32]*rcs{}
		if c.Size == 0 {
			c.Size = 128
		}
	}
	var h [16]byte
	for {
		if err := c.full(h[:1]); err != nil {
			return nil, err
		}
		f := int(h[0] >> 6)
		id := uint32(h[0] & 0x3f)
		switch id {
		case 0:
			if err := c.full(h[:1]); err != nil {
				return nil, unexp(err)
			}
			id = uint32(h[0]) + 64
		case 1:
			if err := c.full(h[:2]); err != nil {
				return nil, unexp(err)
			}
			id = uint32(h[0]) + uint32(h[1])*256 + 64
		}
		s := c.cs[id]
		if s == nil {
			if f != 0 {
				return nil, &ChunkError{fmt.Sprintf("first chunk of chunk stream %d has format %d", id, f)}
			}
			s = &rcs{}
			c.cs[id] = s
		}
		if s.inMsg && f != 3 {
			return nil, &ChunkError{fmt.Sprintf("chunk stream %d: header of format %d in the middle of a message (%d of %d bytes)", id, f, len(s.buf), s.length)}
		}
		n := []int{11, 7, 3, 0}[f]
		if err := c.full(h[:n]); err != nil {
			return nil, unexp(err)
		}
		var t uint32
		if f < 3 {
			t = uint32(h[0])<<16 | uint32(h[1])<<8 | uint32(h[2])
			s.ext = t == 0xffffff
		}
		if f < 2 {
			s.length = int(h[3])<<16 | int(h[4])<<8 | int(h[5])
			s.typ = h[6]
		}
		if f < 1 {
			s.msid = binary.LittleEndian.Uint32(h[7:])
		}
		if s.ext {
			if err := c.full(h[:4]); err != nil {
				return nil, unexp(err)
			}
			v := binary.BigEndian.Uint32(h[:4])
			if f < 3 {
				t = v
				s.extv = v
				if v < 0xffffff {
					return nil, &ChunkError{fmt.Sprintf("extended timestamp used for %d", v)}
				}
			} else if v != s.extv {
				return nil, &ChunkError{fmt.Sprintf("extended timestamp of a continuation chunk is %d, not %d", v, s.extv)}
			}
		}
		switch f {
		case 0:
			s.ts, s.delta = t, t
		case 1, 2:
			s.ts, s.delta = s.ts+t, t
		case 3:
			if !s.inMsg {
				s.ts += s.delta
			}
		}
		if !s.inMsg {
			s.inMsg = true
			s.buf = nil
			if c.MaxMsg > 0 && s.length > c.MaxMsg {
				return nil, &ChunkError{fmt.Sprintf("message of %d bytes", s.length)}
			}
		}
		k := s.length - len(s.buf)
		if k > c.Size {
			k = c.Size
		}
		if k > c.MaxSize {
			c.MaxSize = k
		}
		p := make([]byte, k)
		if err := c.full(p); err != nil {
			return nil, unexp(err)
		}
		s.buf = append(s.buf, p...)
		if len(s.buf) < s.length {
			continue
		}
		s.inMsg = false
		m := &RMsg{id, s.typ, s.ts, s.msid, s.buf}
		s.buf = nil
		switch {
		case m.Type == 1 && len(m.Data) >= 4:
			n := binary.BigEndian.Uint32(m.Data)
			if n == 0 || n > 0x7fffffff {
				return nil, &ChunkError{fmt.Sprintf("chunk size %d", n)}
			}
			c.Size = int(n)
		case m.Type == 2 && len(m.Data) >= 4:
			if o := c.cs[binary.BigEndian.Uint32(m.Data)]; o != nil {
				o.inMsg, o.buf = false, nil
			}
		}
		return m, nil
	}
}

func unexp(err error) error {
	if err == io.EOF {
		return io.ErrUnexpectedEOF
	}
	return err
}

// EncodeMsg writes a message with format 0 and 3 chunks.
func EncodeMsg(m RMsg, size int) (b []byte) {
	h := ChunkHeader{CSID: m.CSID, Time: m.TS, Len: len(m.Data), Type: m.Type, MSID: m.MSID, Ext: m.TS >= 0xffffff}
	d := m.Data
	for first := true; first || len(d) > 0; first = false {
		if !first {
			h.Fmt = 3
		}
		b = append(b, h.Encode()...)
		k := len(d)
		if k > size {
			k = size
		}
		b = append(b, d[:k]...)
		d = d[k:]
	}
	return b
}

// ------------------------------------------------------------ handshake ----

var (
	rtmpTail = []byte{
		0xf0, 0xee, 0xc2, 0x4a, 0x80, 0x68, 0xbe, 0xe8, 0x2e, 0x00, 0xd0, 0xd1, 0x02, 0x9e, 0x7e, 0x57,
		0x6e, 0xec, 0x5d, 0x2d, 0x29, 0x80, 0x6f, 0xab, 0x93, 0xb8, 0xe6, 0x36, 0xcf, 0xeb, 0x31, 0xae,
	}
	// RTMPClientKey and RTMPServerKey are the published handshake keys.
	RTMPClientKey = append([]byte("Genuine Adobe Flash Player 001"), rtmpTail...)
	RTMPServerKey = append([]byte("Genuine Adobe Flash Media Server 001"), rtmpTail...)
)

func hm(key []byte, parts ...[]byte) []byte {
	m := hmac.New(sha256.New, key)
	for _, p := range parts {
		m.Write(p)
	}
	return m.Sum(nil)
}

// DigestOffset returns where the digest of a C1/S1 block is, for a block
// layout (0: digest block first, at 8; 1: key block first, digest at 772).
func DigestOffset(b []byte, layout int) int {
	base := 8
	if layout == 1 {
		base = 772
	}
	return base + 4 + (int(b[base])+int(b[base+1])+int(b[base+2])+int(b[base+3]))%728
}

// SignC1 puts a client digest into a C1 block.
func SignC1(c1 []byte, layout int) (digest []byte) {
	return sign(c1, layout, RTMPClientKey[:30])
}

// SignS1 puts a server digest into an S1 block.
func SignS1(s1 []byte, layout int) []byte { return sign(s1, layout, RTMPServerKey[:36]) }

func sign(b []byte, layout int, key []byte) []byte {
	o := DigestOffset(b, layout)
	d := hm(key, b[:o], b[o+32:])
	copy(b[o:], d)
	return d
}

// VerifyS1 returns the server digest if the block carries one in this layout.
func VerifyS1(s1 []byte, layout int) ([]byte, bool) {
	o := DigestOffset(s1, layout)
	d := hm(RTMPServerKey[:36], s1[:o], s1[o+32:])
	return d, bytes.Equal(d, s1[o:o+32])
}

// VerifyC1 is VerifyS1 for a client block.
func VerifyC1(c1 []byte, layout int) ([]byte, bool) {
	o := DigestOffset(c1, layout)
	d := hm(RTMPClientKey[:30], c1[:o], c1[o+32:])
	return d, bytes.Equal(d, c1[o:o+32])
}

// VerifyS2 checks the response to a client digest.
func VerifyS2(s2, clientDigest []byte) bool {
	return bytes.Equal(hm(hm(RTMPServerKey, clientDigest), s2[:1504]), s2[1504:])
}

// SignC2 makes the client's response to a server digest.
func SignC2(c2, serverDigest []byte) {
	copy(c2[1504:], hm(hm(RTMPClientKey, serverDigest), c2[:1504]))
}
