package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"time"

	"pgregory.net/rapid"

	"github.com/sbraveyoung/GGmpeg/librtmp"

	"verif/harness/eng"
	"verif/harness/ref"
	"verif/harness/wire"
)

// c05 is one handshake.
type c05 struct {
	Client bool // the code under test is the client
	Mode   int  // block of the scripted side: 0 plain, 1 digest in layout 0, 2 digest in layout 1
	Seed   uint32
	Off    int    // sum of the four offset bytes of the digest block
	Time   uint32 // time field of the block
	Zero   uint32 // second field of the block (plain: 0 as specified or a version)
	Second int    // the scripted side's second block: 0 conforming, 1 zeros, 2 random
	Early  bool   // (client under test) the server sends its S0 and S1 before it has read C1
	Splits []int
}

func genC05(t *rapid.T) c05 {
	return c05{
		Client: rapid.IntRange(0, 2).Draw(t, "client") == 0,
		Mode:   rapid.IntRange(0, 2).Draw(t, "mode"),
		Seed:   rapid.Uint32Range(1, 1<<30).Draw(t, "seed"),
		Off:    rapid.OneOf(rapid.SampledFrom([]int{0, 1, 726, 727, 728, 729, 1019, 1020}), rapid.IntRange(0, 1020)).Draw(t, "off"),
		Time:   rapid.OneOf(rapid.SampledFrom([]uint32{0, 1, 0xffffffff}), rapid.Uint32()).Draw(t, "time"),
		Zero:   rapid.SampledFrom([]uint32{0, 0, 0x80000702, 0x09007c02, 0x01020304}).Draw(t, "zero"),
		Second: rapid.IntRange(0, 2).Draw(t, "second"),
		Early:  rapid.Bool().Draw(t, "early"),
		Splits: rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 8, 12, 500, 1535, 1536, 1537}), 0, 12).Draw(t, "splits"),
	}
}

// block makes a C1 or S1.
func (c c05) block(sign func([]byte, int) []byte) (b, digest []byte) {
	b = ref.Fill(c.Seed, 1536)
	binary.BigEndian.PutUint32(b, c.Time)
	binary.BigEndian.PutUint32(b[4:], c.Zero)
	if c.Mode == 0 {
		return b, nil
	}
	if c.Zero == 0 {
		binary.BigEndian.PutUint32(b[4:], 0x80000702)
	}
	at := 8
	if c.Mode == 2 {
		at = 772
	}
	o := c.Off
	if o < 0 || o > 1020 {
		o = 0
	}
	for i := 0; i < 4; i++ {
		v := min(o, 255)
		b[at+i] = byte(v)
		o -= v
	}
	return b, sign(b, c.Mode-1)
}

type splitter struct {
	w      io.Writer
	splits []int
}

func (s *splitter) Write(b []byte) (int, error) {
	n := len(b)
	for len(b) > 0 {
		k := len(b)
		if len(s.splits) > 0 {
			if s.splits[0] > 0 {
				k = min(k, s.splits[0])
			}
			s.splits = s.splits[1:]
			time.Sleep(200 * time.Microsecond)
		}
		if _, err := s.w.Write(b[:k]); err != nil {
			return 0, err
		}
		b = b[k:]
	}
	return n, nil
}

func runC05(x *eng.Ctx, c c05) error {
	if c.Mode < 0 || c.Mode > 2 {
		return nil
	}
	if c.Client {
		return c.asClient(x)
	}
	s, err := wire.Start(wire.Options{})
	if err != nil {
		return err
	}
	cl, err := wire.DialRaw(s.RTMP)
	if err != nil {
		return fmt.Errorf("%w: %v", eng.ErrInconclusive, err)
	}
	defer cl.Close()
	cl.NC.(*net.TCPConn).SetNoDelay(true)
	w := &splitter{w: cl.NC, splits: c.Splits}
	c1, cd := c.block(ref.SignC1)
	cl.NC.SetDeadline(time.Now().Add(wire.Wait))
	if _, err := w.Write(append([]byte{3}, c1...)); err != nil {
		return fmt.Errorf("sending C0 C1: %w", err)
	}
	rep := make([]byte, 1+1536*2)
	if n, err := io.ReadFull(cl.R.R, rep); err != nil {
		return fmt.Errorf("the server's handshake ends after %d bytes: %w", n, err)
	}
	s1, s2 := rep[1:1537], rep[1537:]
	if rep[0] != 3 {
		return fmt.Errorf("S0 is %d", rep[0])
	}
	c2 := ref.Fill(c.Seed+1, 1536)
	if c.Mode == 0 {
		if !bytes.Equal(s2, c1) {
			return fmt.Errorf("S2 does not echo the client's block")
		}
		if !bytes.Equal(s1[4:8], []byte{0, 0, 0, 0}) {
			return fmt.Errorf("S1 of a plain handshake has % x in its zero field", s1[4:8])
		}
		if c.Second == 0 {
			copy(c2, s1)
		}
	} else {
		sd, ok := ref.VerifyS1(s1, c.Mode-1)
		if !ok {
			other := ""
			if _, o := ref.VerifyS1(s1, 2-c.Mode); o {
				other = " (it is in the other layout)"
			}
			return fmt.Errorf("the digest of S1 does not verify in the client's layout %d%s", c.Mode-1, other)
		}
		if !ref.VerifyS2(s2, cd) {
			return fmt.Errorf("the digest of S2 does not verify")
		}
		if c.Second == 0 {
			ref.SignC2(c2, sd)
		}
	}
	if c.Second == 1 {
		c2 = make([]byte, 1536)
	}
	cmd := ref.EncodeMsg(ref.RMsg{CSID: 3, Type: 20, Data: ref.AMFEncode(ref.AS("connect"), ref.AN(1), ref.AO("app", ref.AS("live"), "tcUrl", ref.AS("rtmp://localhost/live")))}, 128)
	if _, err := w.Write(append(c2, cmd...)); err != nil {
		return fmt.Errorf("sending C2: %w", err)
	}
	cl.NC.SetDeadline(time.Time{})
	cl.Run()
	r, ok := cl.Await(0, wire.Wait, func(x wire.Cmd) bool { return x.Txn == 1 })
	if !ok {
		_, e := cl.Closed()
		return fmt.Errorf("the connect command behind the handshake is not answered (connection: %v)", e)
	}
	if r.Name != "_result" {
		return fmt.Errorf("connect answered by %s %s", r.Name, r.Code())
	}
	x.Class(fmt.Sprintf("server, mode %d", c.Mode))
	if c.Mode > 0 || len(c.Splits) > 0 {
		x.NonTrivial()
	}
	return nil
}

// asClient runs the library's client against a scripted server.
func (c c05) asClient(x *eng.Ctx) error {
	a, b := net.Pipe()
	defer a.Close()
	defer b.Close()
	dl := time.Now().Add(wire.Wait)
	a.SetDeadline(dl)
	b.SetDeadline(dl)
	s1, _ := c.block(ref.SignS1)
	type out struct {
		c0c1, c2 []byte
		err      error
	}
	res := make(chan out, 1)
	go func() {
		var o out
		defer func() { res <- o }()
		w := &splitter{w: b, splits: c.Splits}
		o.c0c1 = make([]byte, 1537)
		if _, o.err = io.ReadFull(b, o.c0c1[:1]); o.err != nil {
			return
		}
		early := make(chan error, 1)
		if c.Early {
			go func() { _, e := w.Write(append([]byte{3}, s1...)); early <- e }()
		}
		if _, o.err = io.ReadFull(b, o.c0c1[1:]); o.err != nil {
			return
		}
		if c.Early {
			o.err = <-early
		} else {
			_, o.err = w.Write(append([]byte{3}, s1...))
		}
		if o.err != nil {
			return
		}
		s2 := append([]byte(nil), o.c0c1[1:]...)
		switch c.Second {
		case 1:
			s2 = make([]byte, 1536)
		case 2:
			s2 = ref.Fill(c.Seed+2, 1536)
		}
		if _, o.err = w.Write(s2); o.err != nil {
			return
		}
		o.c2 = make([]byte, 1536)
		_, o.err = io.ReadFull(b, o.c2)
	}()
	if err := librtmp.HandshakeClient(librtmp.NewRTMP(a, "check", nil)); err != nil {
		return fmt.Errorf("the client side of the handshake fails: %w", err)
	}
	o := <-res
	if o.err != nil {
		return fmt.Errorf("the client's handshake is incomplete: %w", o.err)
	}
	if o.c0c1[0] != 3 {
		return fmt.Errorf("C0 is %d", o.c0c1[0])
	}
	c1 := o.c0c1[1:]
	_, d0 := ref.VerifyC1(c1, 0)
	_, d1 := ref.VerifyC1(c1, 1)
	if !d0 && !d1 {
		if !bytes.Equal(c1[4:8], []byte{0, 0, 0, 0}) {
			return fmt.Errorf("C1 has % x in its zero field and carries no digest", c1[4:8])
		}
		if !bytes.Equal(o.c2[:4], s1[:4]) || !bytes.Equal(o.c2[8:], s1[8:]) {
			return fmt.Errorf("C2 does not echo the server's block")
		}
	}
	x.Class(fmt.Sprintf("client, mode %d", c.Mode))
	if c.Mode > 0 || len(c.Splits) > 0 || c.Early {
		x.NonTrivial()
	}
	return nil
}

func init() {
	eng.Register("C05", eng.Opts{
		Rule:        "a digest-carrying block, a segmented handshake or a server that answers early",
		Quick:       eng.Budget{Shards: 8, Cases: 1200, Wall: 60 * time.Second},
		Thorough:    eng.Budget{Shards: 8, Cases: 200000, Wall: 600 * time.Second},
		Net:         true,
		Assumptions: []string{"the client side is driven through HandshakeClient over an in-memory connection (and over TCP by C31)"},
	}, genC05, runC05)
}
