package ref

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
)

// FTag is one FLV tag / RTMP media message.
type FTag struct {
	Type byte   `json:"type"`
	TS   uint32 `json:"ts"`
	Data []byte `json:"data"`
}

func (t FTag) String() string {
	d := t.Data
	if len(d) > 24 {
		d = d[:24]
	}
	return fmt.Sprintf("{type %d ts %d len %d % x}", t.Type, t.TS, len(t.Data), d)
}

func (t FTag) Equal(o FTag) bool {
	return t.Type == o.Type && t.TS == o.TS && bytes.Equal(t.Data, o.Data)
}

// Encode writes the tag and its back pointer.
func (t FTag) Encode() []byte {
	n := len(t.Data)
	b := []byte{t.Type, byte(n >> 16), byte(n >> 8), byte(n), byte(t.TS >> 16), byte(t.TS >> 8), byte(t.TS), byte(t.TS >> 24), 0, 0, 0}
	b = append(b, t.Data...)
	return binary.BigEndian.AppendUint32(b, uint32(n+11))
}

// FLVReader reads a FLV stream strictly.
type FLVReader struct {
	R     io.Reader
	begun bool
}

// ReadHeader reads the file header and the first back pointer.
func (f *FLVReader) ReadHeader() (flags byte, err error) {
	h := make([]byte, 13)
	if _, err = io.ReadFull(f.R, h); err != nil {
		return 0, err
	}
	if string(h[:3]) != "FLV" || h[3] != 1 || binary.BigEndian.Uint32(h[5:]) != 9 || binary.BigEndian.Uint32(h[9:]) != 0 {
		return 0, fmt.Errorf("bad FLV header % x", h)
	}
	if h[4]&^5 != 0 {
		return 0, fmt.Errorf("bad FLV flags %#x", h[4])
	}
	f.begun = true
	return h[4], nil
}

// FLVFormatError is a malformed tag.
type FLVFormatError struct{ Msg string }

func (e *FLVFormatError) Error() string { return e.Msg }

// Read reads the next tag. io.EOF at a clean end.
func (f *FLVReader) Read() (t FTag, err error) {
	h := make([]byte, 11)
	if _, err = io.ReadFull(f.R, h); err != nil {
		return t, err
	}
	if h[0] != 8 && h[0] != 9 && h[0] != 18 {
		return t, &FLVFormatError{fmt.Sprintf("FLV tag type %d", h[0])}
	}
	if h[8]|h[9]|h[10] != 0 {
		return t, &FLVFormatError{"FLV stream id not 0"}
	}
	n := int(h[1])<<16 | int(h[2])<<8 | int(h[3])
	t.Type = h[0]
	t.TS = uint32(h[4])<<16 | uint32(h[5])<<8 | uint32(h[6]) | uint32(h[7])<<24
	t.Data = make([]byte, n)
	if _, err = io.ReadFull(f.R, t.Data); err != nil {
		return t, err
	}
	p := make([]byte, 4)
	if _, err = io.ReadFull(f.R, p); err != nil {
		return t, err
	}
	if got := binary.BigEndian.Uint32(p); int(got) != n+11 {
		return t, &FLVFormatError{fmt.Sprintf("FLV back pointer %d after a tag of %d bytes", got, n+11)}
	}
	return t, nil
}
