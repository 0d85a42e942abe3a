package main

import (
	"encoding/binary"

	"pgregory.net/rapid"
)

// mut is one change to a byte string; positions are taken modulo its length.
type mut struct {
	Op  int    `json:"o"`
	Pos int    `json:"p"`
	N   int    `json:"n,omitempty"`
	V   uint32 `json:"v,omitempty"`
	B   []byte `json:"b,omitempty"`
}

const (
	mSet = iota
	mFlip
	mInsert
	mDelete
	mTruncate
	mDuplicate
	mU16
	mU24
	mU32
	mLU32
	mSwap
	nMut
)

var extremes = []uint32{0, 1, 2, 3, 4, 5, 6, 7, 8, 0x7f, 0x80, 0xff, 0x100, 0x1ff, 0x3ff, 0x7ff, 0xfff, 0x1fff, 0x7fff, 0x8000,
	0xfffe, 0xffff, 0x10000, 0x7fffff, 0x800000, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffff8, 0xfffffffc, 0xfffffffe, 0xffffffff}

func genMut(t *rapid.T) mut {
	m := mut{Op: rapid.IntRange(0, nMut-1).Draw(t, "op")}
	// Most formats keep their lengths near the start.
	m.Pos = rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 1<<16), rapid.Custom(func(t *rapid.T) int { return -rapid.IntRange(1, 24).Draw(t, "back") })).Draw(t, "pos")
	switch m.Op {
	case mSet, mFlip:
		m.V = uint32(rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte{0, 1, 0x7f, 0x80, 0xff})).Draw(t, "v"))
	case mInsert:
		m.B = rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(t, "b")
	case mDelete, mDuplicate, mSwap:
		m.N = rapid.OneOf(rapid.IntRange(1, 8), rapid.IntRange(1, 300)).Draw(t, "n")
	case mU16, mU24, mU32, mLU32:
		m.V = rapid.OneOf(rapid.SampledFrom(extremes), rapid.Uint32()).Draw(t, "v")
	}
	return m
}

func genMuts(t *rapid.T) (ms []mut) {
	n := rapid.SampledFrom([]int{0, 1, 1, 1, 2, 2, 3, 4, 6, 10}).Draw(t, "nmut")
	for i := 0; i < n; i++ {
		ms = append(ms, genMut(t))
	}
	return ms
}

func apply(b []byte, ms []mut) []byte {
	b = append([]byte{}, b...)
	for _, m := range ms {
		p := 0
		if len(b) > 0 {
			p = m.Pos % len(b)
			if p < 0 {
				p += len(b)
			}
		}
		n := m.N
		if n > len(b)-p {
			n = len(b) - p
		}
		put := func(v []byte) {
			for i := 0; i < len(v) && p+i < len(b); i++ {
				b[p+i] = v[i]
			}
		}
		var w [4]byte
		binary.BigEndian.PutUint32(w[:], m.V)
		switch m.Op {
		case mSet:
			put([]byte{byte(m.V)})
		case mFlip:
			if p < len(b) {
				b[p] ^= 1 << (m.V & 7)
			}
		case mInsert:
			b = append(b[:p:p], append(append([]byte{}, m.B...), b[p:]...)...)
		case mDelete:
			b = append(b[:p:p], b[p+n:]...)
		case mTruncate:
			b = b[:p]
		case mDuplicate:
			b = append(b[:p+n:p+n], append(append([]byte{}, b[p:p+n]...), b[p+n:]...)...)
		case mU16:
			put(w[2:])
		case mU24:
			put(w[1:])
		case mU32:
			put(w[:])
		case mLU32:
			put([]byte{w[3], w[2], w[1], w[0]})
		case mSwap:
			if p+2*n <= len(b) {
				x := append([]byte{}, b[p:p+n]...)
				copy(b[p:], b[p+n:p+2*n])
				copy(b[p+n:], x)
			}
		}
	}
	return b
}
