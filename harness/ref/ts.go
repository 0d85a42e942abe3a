package ref

import (
	"fmt"
	"sort"
)

// TSFrame is one PES packet recovered from a transport stream.
type TSFrame struct {
	PID      uint16
	StreamID byte
	HasPTS   bool
	PTS, DTS uint64 // DTS = PTS when absent
	RAI      bool
	PCR      int64 // -1: none
	Data     []byte
	Offset   int // byte offset of its first TS packet
	End      int // byte offset just after its last TS packet
}

// TSTable is one PMT.
type TSTable struct {
	Offset  int
	Version byte
	Program uint16
	PCRPID  uint16
	Streams map[uint16]byte
}

// TSPAT is one PAT.
type TSPAT struct {
	Offset   int
	Version  byte
	TSID     uint16
	Programs map[uint16]uint16 // program number -> PMT PID
}

// TSDump is everything found in a transport stream.
type TSDump struct {
	Frames []TSFrame // in order of their first packet
	PATs   []TSPAT
	PMTs   []TSTable
	PCRs   int
}

func crcMPEG(b []byte) uint32 {
	crc := uint32(0xffffffff)
	for _, c := range b {
		crc ^= uint32(c) << 24
		for i := 0; i < 8; i++ {
			if crc&0x80000000 != 0 {
				crc = crc<<1 ^ 0x04c11db7
			} else {
				crc <<= 1
			}
		}
	}
	return crc
}

func pesTime(b []byte, prefix byte) (uint64, error) {
	if b[0]>>4 != prefix {
		return 0, fmt.Errorf("timestamp prefix %x, want %x", b[0]>>4, prefix)
	}
	if b[0]&1 == 0 || b[2]&1 == 0 || b[4]&1 == 0 {
		return 0, fmt.Errorf("timestamp marker bits % x", b[:5])
	}
	return uint64(b[0]>>1&7)<<30 | uint64(b[1])<<22 | uint64(b[2]>>1)<<15 | uint64(b[3])<<7 | uint64(b[4]>>1), nil
}

func section(p []byte) ([]byte, error) {
	if len(p) < 1 {
		return nil, fmt.Errorf("empty section packet")
	}
	ptr := int(p[0])
	if 1+ptr+3 > len(p) {
		return nil, fmt.Errorf("pointer field %d", ptr)
	}
	s := p[1+ptr:]
	if s[1]&0x80 == 0 {
		return nil, fmt.Errorf("section syntax indicator not set")
	}
	n := int(s[1]&15)<<8 | int(s[2])
	if 3+n > len(s) || n < 9 {
		return nil, fmt.Errorf("section length %d", n)
	}
	if crcMPEG(s[:3+n]) != 0 {
		return nil, fmt.Errorf("section checksum wrong")
	}
	for _, c := range s[3+n:] {
		if c != 0xff {
			return nil, fmt.Errorf("bytes after the section are not stuffing")
		}
	}
	return s[:3+n], nil
}

// TSDemux strictly demultiplexes a whole transport stream.
func TSDemux(b []byte) (*TSDump, error) {
	d := &TSDump{}
	if len(b)%188 != 0 {
		return d, fmt.Errorf("ts: %d bytes is not a whole number of packets (%d too many)", len(b), len(b)%188)
	}
	cc := map[uint16]int{}
	pmtPID := map[uint16]bool{}
	streams := map[uint16]bool{}
	type open struct {
		buf    []byte
		rai    bool
		pcr    int64
		off    int
		end    int
		serial int
	}
	cur := map[uint16]*open{}
	serial := 0
	type done struct {
		serial int
		f      TSFrame
	}
	var all []done
	flush := func(pid uint16) error {
		o := cur[pid]
		if o == nil {
			return nil
		}
		delete(cur, pid)
		p := o.buf
		if len(p) < 9 || p[0] != 0 || p[1] != 0 || p[2] != 1 {
			return fmt.Errorf("ts: pid %#x: bad PES start code", pid)
		}
		f := TSFrame{PID: pid, StreamID: p[3], RAI: o.rai, PCR: o.pcr, Offset: o.off, End: o.end}
		n := int(p[4])<<8 | int(p[5])
		if n != 0 && n != len(p)-6 {
			return fmt.Errorf("ts: pid %#x: PES packet length %d but %d bytes follow", pid, n, len(p)-6)
		}
		if n == 0 && p[3]&0xf0 != 0xe0 {
			return fmt.Errorf("ts: pid %#x: unbounded PES packet outside video (stream id %#x, %d bytes)", pid, p[3], len(p))
		}
		if p[6]>>6 != 2 {
			return fmt.Errorf("ts: pid %#x: PES flags %#x", pid, p[6])
		}
		hl := int(p[8])
		if 9+hl > len(p) {
			return fmt.Errorf("ts: pid %#x: PES header length %d", pid, hl)
		}
		var err error
		switch p[7] >> 6 {
		case 2:
			if hl < 5 {
				return fmt.Errorf("ts: PES header length %d with a PTS", hl)
			}
			f.HasPTS = true
			if f.PTS, err = pesTime(p[9:], 2); err != nil {
				return fmt.Errorf("ts: PTS: %w", err)
			}
			f.DTS = f.PTS
		case 3:
			if hl < 10 {
				return fmt.Errorf("ts: PES header length %d with PTS and DTS", hl)
			}
			f.HasPTS = true
			if f.PTS, err = pesTime(p[9:], 3); err != nil {
				return fmt.Errorf("ts: PTS: %w", err)
			}
			if f.DTS, err = pesTime(p[14:], 1); err != nil {
				return fmt.Errorf("ts: DTS: %w", err)
			}
		case 1:
			return fmt.Errorf("ts: forbidden PTS_DTS flags")
		}
		f.Data = p[9+hl:]
		all = append(all, done{o.serial, f})
		return nil
	}
	for off := 0; off < len(b); off += 188 {
		p := b[off : off+188]
		where := func(f string, a ...any) error {
			return fmt.Errorf("ts: packet %d (offset %d): %s", off/188, off, fmt.Sprintf(f, a...))
		}
		if p[0] != 0x47 {
			return d, where("sync byte %#x", p[0])
		}
		if p[1]&0x80 != 0 || p[3]&0xc0 != 0 {
			return d, where("error or scrambling bits set")
		}
		pid := uint16(p[1]&31)<<8 | uint16(p[2])
		pusi := p[1]&0x40 != 0
		afc := p[3] >> 4 & 3
		if afc == 0 {
			return d, where("reserved adaptation field control")
		}
		rest := p[4:]
		rai := false
		pcr := int64(-1)
		if afc&2 != 0 {
			n := int(rest[0])
			if (afc == 3 && n > 182) || (afc == 2 && n != 183) {
				return d, where("adaptation field length %d with control %d", n, afc)
			}
			af := rest[1 : 1+n]
			rest = rest[1+n:]
			if n > 0 {
				k := 1
				rai = af[0]&0x40 != 0
				if af[0]&0x2f != 0 {
					return d, where("unexpected adaptation flags %#x", af[0])
				}
				if af[0]&0x10 != 0 {
					if n < 7 {
						return d, where("PCR flag with length %d", n)
					}
					k = 7
					pcr = int64(af[1])<<25 | int64(af[2])<<17 | int64(af[3])<<9 | int64(af[4])<<1 | int64(af[5])>>7
					if e := int(af[5]&1)<<8 | int(af[6]); e >= 300 {
						return d, where("PCR extension %d", e)
					}
					d.PCRs++
				}
				for _, c := range af[k:] {
					if c != 0xff {
						return d, where("adaptation stuffing is not 0xff")
					}
				}
			}
		}
		if afc&1 == 0 {
			continue
		}
		if last, ok := cc[pid]; ok && int(p[3]&15) != (last+1)&15 {
			return d, where("pid %#x: continuity counter %d after %d", pid, p[3]&15, last)
		}
		cc[pid] = int(p[3] & 15)
		switch {
		case pid == 0:
			if !pusi {
				return d, where("PAT packet without unit start")
			}
			s, err := section(rest)
			if err != nil {
				return d, where("PAT: %v", err)
			}
			if s[0] != 0 || (len(s)-12)%4 != 0 {
				return d, where("PAT: table id %d, %d bytes", s[0], len(s))
			}
			t := TSPAT{Offset: off, Version: s[5] >> 1 & 31, TSID: uint16(s[3])<<8 | uint16(s[4]), Programs: map[uint16]uint16{}}
			for i := 8; i+4 <= len(s)-4; i += 4 {
				pp := uint16(s[i+2]&31)<<8 | uint16(s[i+3])
				t.Programs[uint16(s[i])<<8|uint16(s[i+1])] = pp
				pmtPID[pp] = true
			}
			d.PATs = append(d.PATs, t)
		case pmtPID[pid]:
			if !pusi {
				return d, where("PMT packet without unit start")
			}
			s, err := section(rest)
			if err != nil {
				return d, where("PMT: %v", err)
			}
			if s[0] != 2 || len(s) < 16 {
				return d, where("PMT: table id %d, %d bytes", s[0], len(s))
			}
			t := TSTable{Offset: off, Version: s[5] >> 1 & 31, Program: uint16(s[3])<<8 | uint16(s[4]), PCRPID: uint16(s[8]&31)<<8 | uint16(s[9]), Streams: map[uint16]byte{}}
			i := 12 + (int(s[10]&15)<<8 | int(s[11]))
			for i+5 <= len(s)-4 {
				sp := uint16(s[i+1]&31)<<8 | uint16(s[i+2])
				t.Streams[sp] = s[i]
				streams[sp] = true
				i += 5 + (int(s[i+3]&15)<<8 | int(s[i+4]))
			}
			if i != len(s)-4 {
				return d, where("PMT: stream loop does not end at the checksum")
			}
			d.PMTs = append(d.PMTs, t)
		case streams[pid]:
			if pusi {
				if err := flush(pid); err != nil {
					return d, err
				}
				serial++
				cur[pid] = &open{rai: rai, pcr: pcr, off: off, serial: serial}
			}
			o := cur[pid]
			if o == nil {
				return d, where("pid %#x: payload before a unit start", pid)
			}
			if pcr >= 0 && !pusi {
				return d, where("clock reference in the middle of a unit")
			}
			if rai && !pusi {
				return d, where("random access flag in the middle of a unit")
			}
			o.buf = append(o.buf, rest...)
			o.end = off + 188
		default:
			return d, where("pid %#x is not announced", pid)
		}
	}
	for pid := range cur {
		if err := flush(pid); err != nil {
			return d, err
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].serial < all[j].serial })
	for _, x := range all {
		d.Frames = append(d.Frames, x.f)
	}
	if len(d.Frames) > 0 && len(d.Frames) != serial {
		return d, fmt.Errorf("ts: internal: %d frames of %d", len(d.Frames), serial)
	}
	return d, nil
}

// Fill makes n deterministic pseudo-random bytes.
func Fill(seed uint32, n int) []byte {
	x := seed*2654435761 + 12345
	b := make([]byte, n)
	for i := range b {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b[i] = byte(x >> 8)
	}
	return b
}
