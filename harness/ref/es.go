package ref

import (
	"bytes"
	"fmt"

	"pgregory.net/rapid"
)

// EPB inserts H.264/HEVC emulation prevention bytes and makes sure a NAL unit
// does not end in a zero byte, so that it is a legal NAL unit payload.
func EPB(b []byte) []byte {
	out := make([]byte, 0, len(b)+4)
	z := 0
	for _, c := range b {
		if z >= 2 && c <= 3 {
			out = append(out, 3)
			z = 0
		}
		out = append(out, c)
		if c == 0 {
			z++
		} else {
			z = 0
		}
	}
	if len(out) > 0 && out[len(out)-1] == 0 {
		out = append(out, 0x80)
	}
	return out
}

// SplitAnnexB splits a byte stream into NAL units (3 or 4 byte start codes,
// trailing zero bytes belong to the next start code).
func SplitAnnexB(b []byte) ([][]byte, error) {
	var out [][]byte
	i := 0
	find := func(from int) (pos, n int) {
		for k := from; k+2 < len(b); k++ {
			if b[k] == 0 && b[k+1] == 0 && b[k+2] == 1 {
				return k, 3
			}
		}
		return -1, 0
	}
	p, n := find(0)
	if p < 0 {
		if len(b) == 0 {
			return nil, nil
		}
		return nil, fmt.Errorf("no start code")
	}
	for _, c := range b[:p] {
		if c != 0 {
			return nil, fmt.Errorf("bytes before the first start code")
		}
	}
	i = p + n
	for {
		p, n = find(i)
		var nal []byte
		if p < 0 {
			nal = b[i:]
		} else {
			nal = b[i:p]
		}
		nal = bytes.TrimRight(nal, "\x00")
		if len(nal) == 0 {
			return nil, fmt.Errorf("empty NAL unit")
		}
		out = append(out, nal)
		if p < 0 {
			return out, nil
		}
		i = p + n
	}
}

// AVCC joins NAL units with 4-byte length prefixes.
func AVCC(nals ...[]byte) []byte {
	var b []byte
	for _, n := range nals {
		b = append(b, byte(len(n)>>24), byte(len(n)>>16), byte(len(n)>>8), byte(len(n)))
		b = append(b, n...)
	}
	return b
}

// SplitAVCC splits 4-byte length prefixed NAL units.
func SplitAVCC(b []byte) ([][]byte, error) {
	var out [][]byte
	for len(b) > 0 {
		if len(b) < 4 {
			return nil, fmt.Errorf("avcc: truncated length")
		}
		n := int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
		b = b[4:]
		if n > len(b) {
			return nil, fmt.Errorf("avcc: truncated nal")
		}
		out = append(out, b[:n])
		b = b[n:]
	}
	return out, nil
}

// AVCRecord builds an AVCDecoderConfigurationRecord.
func AVCRecord(sps, pps [][]byte) []byte {
	b := []byte{1, 0x42, 0xc0, 0x1e, 0xff, 0xe0 | byte(len(sps))}
	if len(sps) > 0 && len(sps[0]) >= 4 {
		copy(b[1:4], sps[0][1:4])
	}
	for _, s := range sps {
		b = append(b, byte(len(s)>>8), byte(len(s)))
		b = append(b, s...)
	}
	b = append(b, byte(len(pps)))
	for _, s := range pps {
		b = append(b, byte(len(s)>>8), byte(len(s)))
		b = append(b, s...)
	}
	switch b[1] {
	case 100, 110, 122, 144:
		b = append(b, 0xfd, 0xf8, 0xf8, 0) // chroma_format 4:2:0, 8 bit, no SPS ext
	}
	return b
}

// GenNAL draws a NAL unit of an H.264 type with a legal payload.
func GenNAL(t *rapid.T, typ byte, max int) []byte {
	n := rapid.IntRange(1, 40).Draw(t, "nal")
	switch rapid.IntRange(0, 7).Draw(t, "nalsize") {
	case 0:
		n = rapid.IntRange(0, max).Draw(t, "nalbig")
	case 1:
		n = 0
	}
	var b []byte
	if n > 64 {
		// long payloads: a pattern, cheap to draw and to store
		s := rapid.Byte().Draw(t, "fill")
		b = make([]byte, n)
		for i := range b {
			b[i] = s + byte(i*7) ^ byte(i>>8)
		}
	} else {
		b = rapid.SliceOfN(rapid.SampledFrom([]byte{0, 0, 1, 2, 3, 9, 0x80, 0xff, 0x65, 0x41}), n, n).Draw(t, "body")
	}
	nri := byte(rapid.IntRange(1, 3).Draw(t, "nri")) << 5
	return EPB(append([]byte{nri | typ}, b...))
}

// HEVCRecord builds an HEVCDecoderConfigurationRecord with the parameter sets
// in arrays of their type.
func HEVCRecord(vps, sps, pps [][]byte) []byte {
	b := make([]byte, 22)
	b[0] = 1
	b[1] = 1 // main profile
	b[2], b[3] = 0x60, 0
	b[12] = 93 // level 3.1
	b[13], b[14] = 0xf0, 0
	b[15] = 0xfc
	b[16] = 0xfd // 4:2:0
	b[17], b[18] = 0xf8, 0xf8
	b[21] = 0x0f // 4-byte lengths
	b = append(b, 3)
	for i, l := range [][][]byte{vps, sps, pps} {
		b = append(b, 0x80|byte(32+i), byte(len(l)>>8), byte(len(l)))
		for _, n := range l {
			b = append(b, byte(len(n)>>8), byte(len(n)))
			b = append(b, n...)
		}
	}
	return b
}
