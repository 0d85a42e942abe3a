package main

import (
	"bytes"
	"crypto/aes"
	"encoding/binary"
	"fmt"
	"time"

	"github.com/sbraveyoung/GGmpeg/libsrt"
	"pgregory.net/rapid"

	"verif/harness/eng"
	"verif/harness/ref"
)

// ---------------------------------------------------------------- C26 ----

type c26loss struct {
	From uint32 `json:"f"`
	Len  uint32 `json:"n"` // sequence numbers in the range, >= 1
}

type c26 struct {
	Kind string `json:"kind"`
	// headers
	Seq  uint32 `json:"seq,omitempty"`
	PP   uint32 `json:"pp,omitempty"`
	O    uint32 `json:"o,omitempty"`
	KK   uint32 `json:"kk,omitempty"`
	R    uint32 `json:"r,omitempty"`
	Msg  uint32 `json:"msg,omitempty"`
	Type uint16 `json:"type,omitempty"`
	Sub  uint16 `json:"sub,omitempty"`
	Info uint32 `json:"info,omitempty"`
	TS   uint32 `json:"ts,omitempty"`
	Dst  uint32 `json:"dst,omitempty"`
	Size int    `json:"size,omitempty"`
	Fill uint32 `json:"fill,omitempty"`
	// handshake / ack words
	W      []uint32  `json:"w,omitempty"`
	Losses []c26loss `json:"losses,omitempty"`
	Active bool      `json:"active,omitempty"`
}

func genSeq31(t *rapid.T, l string) uint32 {
	return rapid.OneOf(
		rapid.Uint32Range(0, 20),
		rapid.Uint32Range(1<<31-20, 1<<31-1),
		rapid.Uint32Range(1<<30-20, 1<<30+20),
		rapid.Uint32Range(0, 1<<31-1),
	).Draw(t, l)
}

func genC26(t *rapid.T) c26 {
	c := c26{Kind: rapid.SampledFrom([]string{"data", "ctrl", "hs", "ack", "nak", "seq", "crypto", "crypto"}).Draw(t, "kind")}
	u32 := func(l string) uint32 {
		return rapid.OneOf(rapid.Uint32(), rapid.SampledFrom([]uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff})).Draw(t, l)
	}
	c.Seq = genSeq31(t, "seq")
	c.Fill = rapid.Uint32().Draw(t, "fill")
	switch c.Kind {
	case "data":
		c.PP = rapid.Uint32Range(0, 3).Draw(t, "pp")
		c.O = rapid.Uint32Range(0, 1).Draw(t, "o")
		c.KK = rapid.Uint32Range(0, 3).Draw(t, "kk")
		c.R = rapid.Uint32Range(0, 1).Draw(t, "r")
		c.Msg = rapid.Uint32Range(0, 1<<26-1).Draw(t, "msg")
		c.TS, c.Dst = u32("ts"), u32("dst")
		c.Size = rapid.IntRange(0, 1456).Draw(t, "size")
	case "ctrl":
		c.Type = rapid.OneOf(rapid.Uint16Range(0, 8), rapid.Uint16Range(0, 0x7fff)).Draw(t, "type")
		c.Sub = rapid.Uint16().Draw(t, "sub")
		c.Info, c.TS, c.Dst = u32("info"), u32("ts"), u32("dst")
		c.Size = rapid.IntRange(0, 1456).Draw(t, "size")
	case "hs":
		for i := 0; i < 13; i++ {
			c.W = append(c.W, u32("w"))
		}
		c.Size = rapid.SampledFrom([]int{0, 0, 4, 12, 28, 100}).Draw(t, "ext")
	case "ack":
		for i := 0; i < 7; i++ {
			c.W = append(c.W, u32("w"))
		}
	case "nak":
		n := rapid.IntRange(0, 8).Draw(t, "n")
		for i := 0; i < n; i++ {
			c.Losses = append(c.Losses, c26loss{genSeq31(t, "from"), rapid.OneOf(rapid.Just(uint32(1)), rapid.Uint32Range(1, 5), rapid.Uint32Range(1, 1<<29)).Draw(t, "len")})
		}
	case "seq":
		c.Info = rapid.OneOf(
			rapid.Custom(func(t *rapid.T) uint32 {
				return (c.Seq + uint32(rapid.IntRange(-3, 3).Draw(t, "d"))) & (1<<31 - 1)
			}),
			rapid.Custom(func(t *rapid.T) uint32 {
				return (c.Seq + 1<<30 + uint32(rapid.IntRange(-3, 3).Draw(t, "d"))) & (1<<31 - 1)
			}),
			rapid.Uint32Range(0, 1<<31-1)).Draw(t, "b")
	case "crypto":
		c.KK = rapid.Uint32Range(0, 3).Draw(t, "kk")
		c.Active = rapid.IntRange(0, 4).Draw(t, "active") > 0
		c.Size = rapid.OneOf(rapid.IntRange(0, 48), rapid.IntRange(0, 1456)).Draw(t, "size")
	}
	return c
}

func be(ws ...uint32) []byte {
	var b []byte
	for _, w := range ws {
		b = binary.BigEndian.AppendUint32(b, w)
	}
	return b
}

// ctr is AES counter mode written out: block i is encrypted with iv + i as
// one 128-bit big-endian number.
func ctr(key, iv, data []byte) []byte {
	blk, _ := aes.NewCipher(key)
	out := append([]byte(nil), data...)
	cnt := append([]byte(nil), iv...)
	var ks [16]byte
	for i := range out {
		if i%16 == 0 {
			blk.Encrypt(ks[:], cnt)
			for j := 15; j >= 0; j-- {
				if cnt[j]++; cnt[j] != 0 {
					break
				}
			}
		}
		out[i] ^= ks[i%16]
	}
	return out
}

func runC26(c *eng.Ctx, cs c26) error {
	c.Class(cs.Kind)
	payload := ref.Fill(cs.Fill, cs.Size)
	switch cs.Kind {
	case "data":
		info := cs.PP<<30 | cs.O<<29 | cs.KK<<27 | cs.R<<26 | cs.Msg
		want := be(cs.Seq, info, cs.TS, cs.Dst)
		buf := append(make([]byte, libsrt.HeaderSize), payload...)
		libsrt.MarshalDataHeader(buf, cs.Seq, info, cs.TS, cs.Dst)
		if !bytes.Equal(buf[:16], want) {
			return fmt.Errorf("data header written as % x, want % x", buf[:16], want)
		}
		if !bytes.Equal(buf[16:], payload) {
			return fmt.Errorf("writing the header changed the payload")
		}
		h, body, err := libsrt.ParseHeader(buf)
		if err != nil {
			return fmt.Errorf("data packet refused: %v", err)
		}
		if h.Kind != libsrt.KindData || h.SeqNumber != cs.Seq || h.MessageInfo != info || h.Timestamp != cs.TS || h.DestSocketID != cs.Dst {
			return fmt.Errorf("data packet % x parsed as %+v", want, *h)
		}
		if !bytes.Equal(body, payload) {
			return fmt.Errorf("data packet payload changed")
		}
		if cs.Size > 0 {
			c.NonTrivial()
		}
	case "ctrl":
		want := be(0x80000000|uint32(cs.Type)<<16|uint32(cs.Sub), cs.Info, cs.TS, cs.Dst)
		buf := append(make([]byte, libsrt.HeaderSize), payload...)
		libsrt.MarshalControlHeader(buf, libsrt.ControlType(cs.Type), cs.Sub, cs.Info, cs.TS, cs.Dst)
		if !bytes.Equal(buf[:16], want) {
			return fmt.Errorf("control header written as % x, want % x", buf[:16], want)
		}
		h, body, err := libsrt.ParseHeader(buf)
		if err != nil {
			return fmt.Errorf("control packet refused: %v", err)
		}
		if h.Kind != libsrt.KindControl || uint16(h.ControlType) != cs.Type || h.SubType != cs.Sub || h.TypeInfo != cs.Info || h.Timestamp != cs.TS || h.DestSocketID != cs.Dst {
			return fmt.Errorf("control packet % x parsed as %+v", want, *h)
		}
		if !bytes.Equal(body, payload) {
			return fmt.Errorf("control packet body changed")
		}
		c.NonTrivial()
	case "hs":
		if len(cs.W) < 13 {
			return nil
		}
		w := cs.W
		want := be(w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7], w[8], w[9], w[10], w[11])
		in := libsrt.Handshake{Version: w[0], EncryptionField: uint16(w[1] >> 16), ExtensionField: uint16(w[1]),
			InitialSequence: w[2], MaxPacketSize: w[3], MaxFlowWindow: w[4], HandshakeType: int32(w[5]), SrtSocketID: w[6], SyncCookie: w[7]}
		copy(in.PeerIP[:], want[32:])
		if got := in.Marshal(); !bytes.Equal(got, want) {
			return fmt.Errorf("handshake written as % x, want % x", got, want)
		}
		h, err := libsrt.ParseHandshake(append(append([]byte(nil), want...), payload...))
		if err != nil {
			return fmt.Errorf("handshake with %d extension bytes refused: %v", len(payload), err)
		}
		if *h != in {
			return fmt.Errorf("handshake % x parsed as %+v", want, *h)
		}
		if n := int(w[12] % 48); true {
			if _, err := libsrt.ParseHandshake(want[:n]); err == nil {
				return fmt.Errorf("handshake cut to %d bytes accepted", n)
			}
		}
		c.NonTrivial()
	case "ack":
		if len(cs.W) < 7 {
			return nil
		}
		w := cs.W
		a := libsrt.ACKBody{LastAckedSeq: w[0], RTT: w[1], RTTVariance: w[2], AvailableBuffer: w[3], ReceivingRate: w[4], LinkCapacity: w[5], ReceivingBytes: w[6]}
		if got, want := a.Marshal(), be(w[:7]...); !bytes.Equal(got, want) {
			return fmt.Errorf("ACK written as % x, want % x", got, want)
		}
		c.NonTrivial()
	case "nak":
		var in []libsrt.LossRange
		var want []byte
		for _, l := range cs.Losses {
			if l.Len == 0 {
				l.Len = 1
			}
			to := (l.From + l.Len - 1) & (1<<31 - 1)
			in = append(in, libsrt.LossRange{From: l.From, To: to})
			if l.Len == 1 {
				want = append(want, be(l.From)...)
			} else {
				want = append(want, be(l.From|1<<31, to)...)
				c.NonTrivial()
			}
		}
		got := libsrt.MarshalNAK(in)
		if !bytes.Equal(got, want) {
			return fmt.Errorf("loss list %v written as % x, want % x", in, got, want)
		}
		back := libsrt.ParseNAK(want)
		if len(back) != len(in) {
			return fmt.Errorf("loss list %v read back as %v", in, back)
		}
		for i := range in {
			if in[i] != back[i] {
				return fmt.Errorf("loss list %v read back as %v", in, back)
			}
		}
	case "seq":
		a, b := cs.Seq, cs.Info&(1<<31-1)
		d := (int64(a) - int64(b) + 1<<32) % (1 << 31)
		if d > 1<<30 {
			d -= 1 << 31
		}
		got := int64(libsrt.SeqDiff(a, b))
		if d == 1<<30 {
			if got != d && got != -d {
				return fmt.Errorf("SeqDiff(%d,%d) = %d, want ±%d", a, b, got, d)
			}
		} else if got != d {
			return fmt.Errorf("SeqDiff(%d,%d) = %d, want %d", a, b, got, d)
		}
		if a != b {
			c.NonTrivial()
		}
	case "crypto":
		keys := ref.Fill(cs.Fill^0x5a5a, 48)
		st := &libsrt.CryptoState{Active: cs.Active}
		copy(st.EvenSEK[:], keys[:16])
		copy(st.OddSEK[:], keys[16:32])
		copy(st.Salt[:], keys[32:48])
		iv := append([]byte(nil), keys[32:46]...)
		iv = append(iv, 0, 0)
		for i, x := range be(cs.Seq) {
			iv[i] ^= x
		}
		var key []byte
		want := payload
		in := payload
		wantErr := false
		if cs.Active {
			switch cs.KK {
			case 1:
				key = keys[:16]
			case 2:
				key = keys[16:32]
			case 3:
				wantErr = true
			}
			if key != nil {
				in = ctr(key, iv, payload)
				if cs.Size > 16 {
					c.NonTrivial()
				}
			}
		}
		out, err := st.DecryptDataPayload(uint8(cs.KK), cs.Seq, append([]byte(nil), in...))
		if wantErr {
			if err == nil {
				return fmt.Errorf("a payload marked with both keys was decrypted")
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("decrypting: %v", err)
		}
		if !bytes.Equal(out, want) {
			return fmt.Errorf("KK %d seq %d active %v: %d bytes decrypted to something else", cs.KK, cs.Seq, cs.Active, len(in))
		}
	}
	return nil
}

func init() {
	eng.Register("C26", eng.Opts{
		Rule:      "headers with a payload, full handshakes/ACKs, loss lists with a range, unequal sequence numbers, encrypted payloads longer than one block",
		Quick:     eng.Budget{Shards: 4, Cases: 20000, Wall: 20 * time.Second},
		Thorough:  eng.Budget{Shards: 8, Cases: 2000000, Wall: 10 * time.Minute},
		HangLimit: 20 * time.Second, HangIsBug: true,
		Assumptions: []string{"the packet counter is XORed into the first four counter bytes, as the repository documents and tests (the SRT draft uses bytes 10-13)"},
	}, genC26, runC26)
}
