package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"testing/iotest"
	"time"

	"github.com/SmartBrave/Athena/easyio"
	"github.com/sbraveyoung/GGmpeg/libamf"
	"pgregory.net/rapid"

	"verif/harness/eng"
	"verif/harness/ref"
)

type c01 struct {
	Vals    []ref.AVal `json:"vals"`
	Enc     bool       `json:"enc"`      // values go through the library's encoder
	OneByte bool       `json:"one_byte"` // reader delivers one byte at a time
	Ints    bool       `json:"ints"`     // integral top-level numbers are passed as Go integers
}

func genStr(t *rapid.T) ref.AVal {
	v := ref.AVal{K: ref.AStr, S: rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "s")}
	switch rapid.IntRange(0, 11).Draw(t, "strkind") {
	case 0: // around the 16-bit limit
		v.S = []byte{'x'}
		v.Rep = rapid.IntRange(65533, 65538).Draw(t, "rep")
	case 1:
		v.Long = true
	case 2:
		v.S = []byte("abc")
		v.Rep = rapid.IntRange(0, 3000).Draw(t, "rep2")
	}
	return v
}

func genKeys(t *rapid.T, n int) [][]byte {
	seen := map[string]bool{}
	var ks [][]byte
	for i := 0; i < n; i++ {
		k := rapid.SliceOfN(rapid.Byte(), 1, 12).Draw(t, "key")
		if rapid.IntRange(0, 15).Draw(t, "longkey") == 0 {
			k = bytes.Repeat(k[:1], rapid.IntRange(200, 300).Draw(t, "kl"))
		}
		if seen[string(k)] {
			k = append(k, []byte(fmt.Sprint("#", i))...)
		}
		if seen[string(k)] {
			continue
		}
		seen[string(k)] = true
		ks = append(ks, k)
	}
	return ks
}

func genVal(t *rapid.T, depth int) ref.AVal {
	hi := 9
	if depth <= 0 {
		hi = 5
	}
	switch rapid.IntRange(0, hi).Draw(t, "kind") {
	case 0:
		f := rapid.Float64().Draw(t, "f")
		return ref.AN(f)
	case 1:
		return ref.AN(float64(rapid.Int32().Draw(t, "i")))
	case 2:
		return ref.AB(rapid.Bool().Draw(t, "b"))
	case 3:
		return genStr(t)
	case 4:
		return ref.AVal{K: ref.ANull}
	case 5:
		if rapid.Bool().Draw(t, "date") {
			return ref.AVal{K: ref.ADate, N: math.Float64bits(float64(rapid.IntRange(-4e12, 4e12).Draw(t, "ms")))}
		}
		return ref.AVal{K: ref.AUndef}
	case 6, 7, 8:
		v := ref.AVal{K: ref.AObj}
		if rapid.Bool().Draw(t, "ecma") {
			v.K = ref.AEcma
		}
		v.Keys = genKeys(t, rapid.IntRange(0, 5).Draw(t, "n"))
		for range v.Keys {
			v.Vals = append(v.Vals, genVal(t, depth-1))
		}
		if v.K == ref.AEcma && rapid.IntRange(0, 2).Draw(t, "wrongcnt") == 0 {
			v.Cnt = rapid.IntRange(-len(v.Vals), 7).Draw(t, "cnt")
		}
		return v
	default:
		v := ref.AVal{K: ref.AArr}
		if rapid.IntRange(0, 30).Draw(t, "wide") == 0 {
			w := rapid.IntRange(250, 700).Draw(t, "w")
			for i := 0; i < w; i++ {
				v.Vals = append(v.Vals, ref.AN(float64(i)))
			}
			return v
		}
		n := rapid.IntRange(0, 5).Draw(t, "n")
		for i := 0; i < n; i++ {
			v.Vals = append(v.Vals, genVal(t, depth-1))
		}
		return v
	}
}

func genC01(t *rapid.T) c01 {
	c := c01{Enc: rapid.Bool().Draw(t, "enc"), OneByte: rapid.IntRange(0, 4).Draw(t, "ob") == 0, Ints: rapid.IntRange(0, 3).Draw(t, "ints") == 0}
	n := rapid.IntRange(1, 5).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Vals = append(c.Vals, genVal(t, 4))
	}
	return c
}

// toGo is the documented Go view of a value (what callers of the codec use).
func toGo(v ref.AVal) any {
	switch v.K {
	case ref.ANum:
		return v.F()
	case ref.ABool:
		return v.B
	case ref.AStr:
		return v.Str()
	case ref.AObj, ref.AEcma:
		m := map[string]any{}
		for i, k := range v.Keys {
			m[string(k)] = toGo(v.Vals[i])
		}
		return m
	case ref.AArr:
		a := []any{}
		for _, e := range v.Vals {
			a = append(a, toGo(e))
		}
		return a
	case ref.ADate:
		return time.UnixMilli(int64(v.F()))
	}
	return nil
}

func same(a, b any) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && (math.Float64bits(x) == math.Float64bits(y) || (math.IsNaN(x) && math.IsNaN(y)))
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k, e := range x {
			f, ok := y[k]
			if !ok || !same(e, f) {
				return false
			}
		}
		return true
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	}
	return a == b
}

func hasDate(vs []ref.AVal) bool {
	for _, v := range vs {
		if v.K == ref.ADate || hasDate(v.Vals) {
			return true
		}
	}
	return false
}

func depth(vs []ref.AVal) int {
	d := 0
	for _, v := range vs {
		if v.K == ref.AObj || v.K == ref.AEcma || v.K == ref.AArr {
			if x := 1 + depth(v.Vals); x > d {
				d = x
			}
		}
	}
	return d
}

func show(v any) string {
	s := fmt.Sprintf("%#v", v)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func runC01(c *eng.Ctx, cs c01) error {
	want := []any{}
	for _, v := range cs.Vals {
		want = append(want, toGo(v))
	}
	d := depth(cs.Vals)
	c.Class(fmt.Sprintf("depth%d", d))
	if d >= 1 && len(cs.Vals) >= 2 {
		c.NonTrivial()
	}
	var wire []byte
	if cs.Enc {
		c.Class("library-encoded")
		buf := &bytes.Buffer{}
		for i, v := range want {
			if f, ok := v.(float64); ok && cs.Ints && f == math.Trunc(f) && math.Abs(f) < 1<<31 && !math.Signbit(f) {
				v = []any{int(f), int32(f), uint32(f), int64(f)}[i%4]
			}
			if err := libamf.AMF0.Encode(easyio.NewEasyWriter(buf), v); err != nil {
				return fmt.Errorf("encode %s: %v", show(v), err)
			}
		}
		wire = append([]byte(nil), buf.Bytes()...)
		vs, err := ref.AMFDecode(wire)
		if err != nil {
			return fmt.Errorf("independent decoder rejects what was encoded from %s: %v (% x)", show(want), err, trunc(wire))
		}
		got := []any{}
		for _, v := range vs {
			got = append(got, toGo(v))
		}
		if !same(want, got) {
			return fmt.Errorf("independent decoder reads %s, encoded %s", show(got), show(want))
		}
	} else {
		c.Class("foreign-encoded")
		wire = ref.AMFEncode(cs.Vals...)
	}
	var r io.Reader = bytes.NewReader(wire)
	if cs.OneByte {
		r = iotest.OneByteReader(r)
	}
	got, err := libamf.AMF0.Decode(easyio.NewEasyReader(r))
	if err != nil {
		return fmt.Errorf("decode of %s: %v", show(want), err)
	}
	if got == nil {
		got = []any{}
	}
	if !same(want, []any(got)) {
		return fmt.Errorf("decoded %s, want %s", show(got), show(want))
	}
	return nil
}

func trunc(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

func main() {
	eng.Register("C01", eng.Opts{
		Rule:     "lists of 1-5 AMF0 value trees of depth<=4, encoded by the library or by an independent encoder (wrong ECMA counts, long strings, dates); non-trivial: at least two values of which one is a container",
		Quick:    eng.Budget{Shards: 8, Cases: 25000, Wall: 40 * time.Second},
		Thorough: eng.Budget{Shards: 16, Cases: 400000, Wall: 5 * time.Minute},
		Assumptions: []string{
			"map keys are non-empty and at most 65535 bytes (AMF0 cannot express others)",
			"the Go view of undefined and null is nil, of objects and ECMA arrays a map, of dates a time.Time",
		},
	}, genC01, runC01)
	eng.Main()
}
