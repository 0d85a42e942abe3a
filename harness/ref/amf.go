// Package ref holds independent reference codecs. They share no code with the
// repository under test.
package ref

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
)

// AMF kinds.
const (
	ANum = iota
	ABool
	AStr
	ANull
	AUndef
	AObj
	AEcma
	AArr
	ADate
)

// AVal is one AMF0 value.
type AVal struct {
	K    int      `json:"k"`
	N    uint64   `json:"n,omitempty"` // float bits
	B    bool     `json:"b,omitempty"`
	S    []byte   `json:"s,omitempty"`
	Long bool     `json:"long,omitempty"` // written as a long string
	Rep  int      `json:"rep,omitempty"`  // string is S repeated Rep+1 times
	Keys [][]byte `json:"keys,omitempty"`
	Vals []AVal   `json:"vals,omitempty"`
	Cnt  int      `json:"cnt,omitempty"` // advertised ECMA count = len+Cnt
}

func (v AVal) Str() string {
	s := make([]byte, 0, len(v.S)*(v.Rep+1))
	for i := 0; i <= v.Rep; i++ {
		s = append(s, v.S...)
	}
	return string(s)
}

func AN(f float64) AVal { return AVal{K: ANum, N: math.Float64bits(f)} }
func AS(s string) AVal  { return AVal{K: AStr, S: []byte(s)} }
func AB(b bool) AVal    { return AVal{K: ABool, B: b} }
func ANil() AVal        { return AVal{K: ANull} }
func AO(kv ...any) AVal { return aobj(AObj, kv) }
func AE(kv ...any) AVal { return aobj(AEcma, kv) }
func aobj(k int, kv []any) AVal {
	v := AVal{K: k}
	for i := 0; i+1 < len(kv); i += 2 {
		v.Keys = append(v.Keys, []byte(kv[i].(string)))
		switch x := kv[i+1].(type) {
		case AVal:
			v.Vals = append(v.Vals, x)
		case string:
			v.Vals = append(v.Vals, AS(x))
		case float64:
			v.Vals = append(v.Vals, AN(x))
		case int:
			v.Vals = append(v.Vals, AN(float64(x)))
		case bool:
			v.Vals = append(v.Vals, AB(x))
		case nil:
			v.Vals = append(v.Vals, ANil())
		default:
			panic("aobj")
		}
	}
	return v
}
func (v AVal) F() float64 { return math.Float64frombits(v.N) }

// Get returns a property of an object.
func (v AVal) Get(k string) (AVal, bool) {
	for i := range v.Keys {
		if string(v.Keys[i]) == k {
			return v.Vals[i], true
		}
	}
	return AVal{}, false
}

// AMFEncode writes values as AMF0.
func AMFEncode(vals ...AVal) []byte {
	var b []byte
	for _, v := range vals {
		b = amfEnc(b, v)
	}
	return b
}

func amfEnc(b []byte, v AVal) []byte {
	switch v.K {
	case ANum:
		b = append(b, 0)
		return binary.BigEndian.AppendUint64(b, v.N)
	case ABool:
		if v.B {
			return append(b, 1, 1)
		}
		return append(b, 1, 0)
	case AStr:
		s := v.Str()
		if v.Long || len(s) > 65535 {
			b = append(b, 0x0c)
			b = binary.BigEndian.AppendUint32(b, uint32(len(s)))
		} else {
			b = append(b, 2)
			b = binary.BigEndian.AppendUint16(b, uint16(len(s)))
		}
		return append(b, s...)
	case ANull:
		return append(b, 5)
	case AUndef:
		return append(b, 6)
	case AObj, AEcma:
		if v.K == AObj {
			b = append(b, 3)
		} else {
			b = append(b, 8)
			b = binary.BigEndian.AppendUint32(b, uint32(len(v.Vals)+v.Cnt))
		}
		for i, k := range v.Keys {
			b = binary.BigEndian.AppendUint16(b, uint16(len(k)))
			b = append(b, k...)
			b = amfEnc(b, v.Vals[i])
		}
		return append(b, 0, 0, 9)
	case AArr:
		b = append(b, 0x0a)
		b = binary.BigEndian.AppendUint32(b, uint32(len(v.Vals)))
		for _, e := range v.Vals {
			b = amfEnc(b, e)
		}
		return b
	case ADate:
		b = append(b, 0x0b)
		b = binary.BigEndian.AppendUint64(b, v.N)
		return append(b, 0, 0)
	}
	panic("amfEnc")
}

var errAMF = errors.New("amf: truncated")

// AMFDecode parses a list of AMF0 values.
func AMFDecode(b []byte) (out []AVal, err error) {
	for len(b) > 0 {
		var v AVal
		v, b, err = amfDec(b, 0)
		if err != nil {
			return out, err
		}
		out = append(out, v)
	}
	return out, nil
}

func amfDec(b []byte, depth int) (v AVal, rest []byte, err error) {
	if depth > 200 {
		return v, nil, errors.New("amf: too deep")
	}
	if len(b) < 1 {
		return v, nil, errAMF
	}
	m := b[0]
	b = b[1:]
	need := func(n int) bool { return len(b) >= n }
	switch m {
	case 0:
		if !need(8) {
			return v, nil, errAMF
		}
		return AVal{K: ANum, N: binary.BigEndian.Uint64(b)}, b[8:], nil
	case 1:
		if !need(1) {
			return v, nil, errAMF
		}
		return AVal{K: ABool, B: b[0] != 0}, b[1:], nil
	case 2:
		if !need(2) {
			return v, nil, errAMF
		}
		n := int(binary.BigEndian.Uint16(b))
		if !need(2 + n) {
			return v, nil, errAMF
		}
		return AVal{K: AStr, S: append([]byte(nil), b[2:2+n]...)}, b[2+n:], nil
	case 0x0c:
		if !need(4) {
			return v, nil, errAMF
		}
		n := int(binary.BigEndian.Uint32(b))
		if !need(4 + n) {
			return v, nil, errAMF
		}
		return AVal{K: AStr, S: append([]byte(nil), b[4:4+n]...), Long: true}, b[4+n:], nil
	case 5:
		return AVal{K: ANull}, b, nil
	case 6:
		return AVal{K: AUndef}, b, nil
	case 3, 8:
		v.K = AObj
		if m == 8 {
			v.K = AEcma
			if !need(4) {
				return v, nil, errAMF
			}
			v.Cnt = int(binary.BigEndian.Uint32(b))
			b = b[4:]
		}
		for {
			if !need(2) {
				return v, nil, errAMF
			}
			n := int(binary.BigEndian.Uint16(b))
			if !need(2 + n + 1) {
				return v, nil, errAMF
			}
			k := append([]byte(nil), b[2:2+n]...)
			b = b[2+n:]
			if n == 0 && b[0] == 9 {
				b = b[1:]
				break
			}
			var e AVal
			e, b, err = amfDec(b, depth+1)
			if err != nil {
				return v, nil, err
			}
			v.Keys = append(v.Keys, k)
			v.Vals = append(v.Vals, e)
		}
		if m == 8 {
			v.Cnt -= len(v.Vals)
		}
		return v, b, nil
	case 0x0a:
		if !need(4) {
			return v, nil, errAMF
		}
		n := int(binary.BigEndian.Uint32(b))
		b = b[4:]
		v.K = AArr
		for i := 0; i < n; i++ {
			var e AVal
			e, b, err = amfDec(b, depth+1)
			if err != nil {
				return v, nil, err
			}
			v.Vals = append(v.Vals, e)
		}
		return v, b, nil
	case 0x0b:
		if !need(10) {
			return v, nil, errAMF
		}
		return AVal{K: ADate, N: binary.BigEndian.Uint64(b)}, b[10:], nil
	}
	return v, nil, fmt.Errorf("amf: marker %#x", m)
}
