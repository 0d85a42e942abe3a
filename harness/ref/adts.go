package ref

import "fmt"

// ADTSFrame is one frame of an ADTS stream.
type ADTSFrame struct {
	OT, SR, CH int
	Data       []byte
}

// SplitADTS parses an ADTS stream strictly.
func SplitADTS(b []byte) (out []ADTSFrame, err error) {
	for len(b) > 0 {
		if len(b) < 7 {
			return out, fmt.Errorf("adts: truncated header")
		}
		if b[0] != 0xff || b[1]&0xf6 != 0xf0 {
			return out, fmt.Errorf("adts: bad sync % x", b[:2])
		}
		hl := 7
		if b[1]&1 == 0 {
			hl = 9
		}
		f := ADTSFrame{OT: int(b[2]>>6) + 1, SR: int(b[2]>>2) & 15, CH: int(b[2]&1)<<2 | int(b[3]>>6)}
		n := int(b[3]&3)<<11 | int(b[4])<<3 | int(b[5]>>5)
		if n < hl || n > len(b) {
			return out, fmt.Errorf("adts: frame length %d of %d bytes", n, len(b))
		}
		if b[6]&3 != 0 {
			return out, fmt.Errorf("adts: more than one raw block")
		}
		f.Data = b[hl:n]
		out = append(out, f)
		b = b[n:]
	}
	return out, nil
}
