package ref

import (
	"encoding/binary"
	"fmt"
)

// RTP is one RTP packet.
type RTP struct {
	PT      byte
	Marker  bool
	Seq     uint16
	TS      uint32
	SSRC    uint32
	CSRC    []uint32
	ExtProf uint16
	Ext     []byte // multiple of 4, nil = no extension
	Pad     int    // padding bytes, 0 = none
	Payload []byte
}

// Encode serialises the packet.
func (r RTP) Encode() []byte {
	b := []byte{2<<6 | byte(len(r.CSRC)), r.PT & 0x7f}
	if r.Pad > 0 {
		b[0] |= 0x20
	}
	if r.Ext != nil {
		b[0] |= 0x10
	}
	if r.Marker {
		b[1] |= 0x80
	}
	b = binary.BigEndian.AppendUint16(b, r.Seq)
	b = binary.BigEndian.AppendUint32(b, r.TS)
	b = binary.BigEndian.AppendUint32(b, r.SSRC)
	for _, c := range r.CSRC {
		b = binary.BigEndian.AppendUint32(b, c)
	}
	if r.Ext != nil {
		b = binary.BigEndian.AppendUint16(b, r.ExtProf)
		b = binary.BigEndian.AppendUint16(b, uint16(len(r.Ext)/4))
		b = append(b, r.Ext...)
	}
	b = append(b, r.Payload...)
	for i := 0; i < r.Pad; i++ {
		b = append(b, 0)
	}
	if r.Pad > 0 {
		b[len(b)-1] = byte(r.Pad)
	}
	return b
}

// ParseRTP reads a packet.
func ParseRTP(b []byte) (r RTP, err error) {
	if len(b) < 12 || b[0]>>6 != 2 {
		return r, fmt.Errorf("rtp: bad header % x", b[:min(len(b), 12)])
	}
	r.PT, r.Marker = b[1]&0x7f, b[1]&0x80 != 0
	r.Seq, r.TS, r.SSRC = binary.BigEndian.Uint16(b[2:]), binary.BigEndian.Uint32(b[4:]), binary.BigEndian.Uint32(b[8:])
	o := 12
	for i := 0; i < int(b[0]&15); i++ {
		if o+4 > len(b) {
			return r, fmt.Errorf("rtp: truncated csrc")
		}
		r.CSRC = append(r.CSRC, binary.BigEndian.Uint32(b[o:]))
		o += 4
	}
	if b[0]&0x10 != 0 {
		if o+4 > len(b) {
			return r, fmt.Errorf("rtp: truncated extension")
		}
		r.ExtProf = binary.BigEndian.Uint16(b[o:])
		n := int(binary.BigEndian.Uint16(b[o+2:])) * 4
		o += 4
		if o+n > len(b) {
			return r, fmt.Errorf("rtp: truncated extension")
		}
		r.Ext = b[o : o+n]
		o += n
	}
	e := len(b)
	if b[0]&0x20 != 0 {
		r.Pad = int(b[e-1])
		if r.Pad == 0 || r.Pad > e-o {
			return r, fmt.Errorf("rtp: bad padding")
		}
		e -= r.Pad
	}
	r.Payload = b[o:e]
	return r, nil
}

// DepayNALs recovers the NAL units of the payloads of one access unit,
// strictly (RFC 6184 or RFC 7798).
func DepayNALs(hevc bool, payloads [][]byte) (out [][]byte, err error) {
	var fu []byte
	in := false
	var hdr0, hdr1 byte
	hl := 1
	typ := func(b []byte) byte { return b[0] & 31 }
	fuT, agT := byte(28), byte(24)
	if hevc {
		hl = 2
		typ = func(b []byte) byte { return b[0] >> 1 & 63 }
		fuT, agT = 49, 48
	}
	for i, p := range payloads {
		if len(p) < hl {
			return nil, fmt.Errorf("payload %d has %d bytes", i, len(p))
		}
		t := typ(p)
		if in && t != fuT {
			return nil, fmt.Errorf("payload %d interrupts a fragmented NAL unit", i)
		}
		switch {
		case t == fuT:
			if len(p) < hl+2 {
				return nil, fmt.Errorf("payload %d: empty fragment", i)
			}
			f := p[hl]
			s, e := f&0x80 != 0, f&0x40 != 0
			if s && e {
				return nil, fmt.Errorf("payload %d: start and end in one fragment", i)
			}
			if s == in {
				return nil, fmt.Errorf("payload %d: fragment start %v while inside %v", i, s, in)
			}
			var h []byte
			if hevc {
				h = []byte{p[0]&0x81 | f&63<<1, p[1]}
			} else {
				if f&0x20 != 0 {
					return nil, fmt.Errorf("payload %d: reserved FU bit", i)
				}
				h = []byte{p[0]&0xe0 | f&31}
			}
			if s {
				fu = append([]byte{}, h...)
				in = true
			} else if h[0] != hdr0 || (hevc && h[1] != hdr1) {
				return nil, fmt.Errorf("payload %d: fragment header changes", i)
			}
			hdr0 = h[0]
			if hevc {
				hdr1 = h[1]
			}
			fu = append(fu, p[hl+1:]...)
			if e {
				out = append(out, fu)
				in = false
			}
		case t == agT:
			b := p[hl:]
			if len(b) == 0 {
				return nil, fmt.Errorf("payload %d: empty aggregation", i)
			}
			for len(b) > 0 {
				if len(b) < 2 {
					return nil, fmt.Errorf("payload %d: bad aggregation", i)
				}
				n := int(b[0])<<8 | int(b[1])
				b = b[2:]
				if n == 0 || n > len(b) {
					return nil, fmt.Errorf("payload %d: bad aggregation", i)
				}
				out = append(out, b[:n])
				b = b[n:]
			}
		case !hevc && (t == 0 || t > 23), hevc && t > 47:
			return nil, fmt.Errorf("payload %d: type %d", i, t)
		default:
			out = append(out, p)
		}
	}
	if in {
		return nil, fmt.Errorf("the last fragmented NAL unit never ends")
	}
	return out, nil
}

// PackH264 packetises an access unit: NAL units larger than mtu become FU-A,
// runs of smaller ones are aggregated when aggregate is true.
func PackH264(nals [][]byte, mtu int, aggregate bool) (out [][]byte) {
	var ag [][]byte
	size := 1
	flush := func() {
		if len(ag) == 1 {
			out = append(out, ag[0])
		} else if len(ag) > 1 {
			var nri byte
			p := []byte{0}
			for _, n := range ag {
				nri = max(nri, n[0]&0x60)
				p = append(p, byte(len(n)>>8), byte(len(n)))
				p = append(p, n...)
			}
			p[0] = nri | 24
			out = append(out, p)
		}
		ag, size = nil, 1
	}
	for _, n := range nals {
		switch {
		case len(n) > mtu:
			flush()
			b := n[1:]
			first := true
			for len(b) > 0 {
				k := min(mtu-2, len(b))
				h := n[0] & 31
				if first {
					h |= 0x80
				}
				if k == len(b) {
					h |= 0x40
				}
				out = append(out, append([]byte{n[0]&0xe0 | 28, h}, b[:k]...))
				b = b[k:]
				first = false
			}
		case aggregate:
			if size+2+len(n) > mtu {
				flush()
			}
			ag = append(ag, n)
			size += 2 + len(n)
		default:
			out = append(out, n)
		}
	}
	flush()
	return out
}

// PackAAC builds one AAC-hbr payload of several frames.
func PackAAC(frames ...[]byte) []byte {
	b := binary.BigEndian.AppendUint16(nil, uint16(16*len(frames)))
	for _, f := range frames {
		b = binary.BigEndian.AppendUint16(b, uint16(len(f))<<3)
	}
	for _, f := range frames {
		b = append(b, f...)
	}
	return b
}

// DepayAAC reads an AAC-hbr payload strictly.
func DepayAAC(p []byte) (out [][]byte, err error) {
	if len(p) < 4 {
		return nil, fmt.Errorf("aac: payload of %d bytes", len(p))
	}
	bits := int(binary.BigEndian.Uint16(p))
	if bits%16 != 0 || bits == 0 || 2+bits/8 > len(p) {
		return nil, fmt.Errorf("aac: AU-headers-length %d", bits)
	}
	h, b := p[2:2+bits/8], p[2+bits/8:]
	for ; len(h) > 0; h = h[2:] {
		v := binary.BigEndian.Uint16(h)
		n := int(v >> 3)
		if v&7 != 0 || n > len(b) {
			return nil, fmt.Errorf("aac: AU header %#x", v)
		}
		out = append(out, b[:n])
		b = b[n:]
	}
	if len(b) > 0 {
		return nil, fmt.Errorf("aac: %d extra bytes", len(b))
	}
	return out, nil
}
