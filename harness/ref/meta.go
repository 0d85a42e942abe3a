package ref

import (
	"fmt"
	"math"

	"pgregory.net/rapid"
)

// GenMeta draws onMetaData properties of the kinds real encoders send.
func GenMeta(t *rapid.T) AVal {
	v := AVal{K: AEcma}
	if rapid.IntRange(0, 3).Draw(t, "metaobj") == 0 {
		v.K = AObj
	}
	add := func(k string, x AVal) {
		v.Keys = append(v.Keys, []byte(k))
		v.Vals = append(v.Vals, x)
	}
	opt := func(k string, gen func() AVal) {
		if rapid.Bool().Draw(t, "has_"+k) {
			add(k, gen())
		}
	}
	num := func(lo, hi int) func() AVal {
		return func() AVal { return AN(float64(rapid.IntRange(lo, hi).Draw(t, "n"))) }
	}
	frac := func() AVal { return AN(float64(rapid.IntRange(1, 100000).Draw(t, "milli")) / 1000) }
	opt("duration", frac)
	opt("width", num(0, 8192))
	opt("height", num(0, 8192))
	opt("framerate", frac)
	opt("videodatarate", frac)
	opt("videocodecid", num(0, 15))
	opt("audiocodecid", num(0, 15))
	opt("audiodatarate", frac)
	opt("audiosamplerate", num(8000, 96000))
	opt("audiosamplesize", num(8, 16))
	opt("audiochannels", num(1, 8))
	opt("stereo", func() AVal { return AB(rapid.Bool().Draw(t, "b")) })
	opt("encoder", func() AVal { return AS(rapid.StringMatching(`[A-Za-z0-9 ./()-]{0,30}`).Draw(t, "enc")) })
	opt("filesize", num(0, 1<<30))
	opt("2.1", func() AVal { return AB(false) })
	opt("custom", func() AVal { return AS(rapid.StringMatching(`[a-z]{0,12}`).Draw(t, "cs")) })
	return v
}

// MetaContains checks that every property of want is in got with an equal value.
func MetaContains(got, want AVal) error {
	if got.K != AObj && got.K != AEcma {
		return fmt.Errorf("metadata properties are not an object but kind %d", got.K)
	}
	for i, k := range want.Keys {
		w := want.Vals[i]
		g, ok := got.Get(string(k))
		if !ok {
			return fmt.Errorf("metadata property %q lost", k)
		}
		same := g.K == w.K
		if same {
			switch g.K {
			case ANum:
				same = math.Float64bits(g.F()) == math.Float64bits(w.F())
			case ABool:
				same = g.B == w.B
			case AStr:
				same = g.Str() == w.Str()
			}
		}
		if !same {
			return fmt.Errorf("metadata property %q is %v, published %v", k, g, w)
		}
	}
	return nil
}
