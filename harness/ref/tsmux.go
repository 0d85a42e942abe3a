package ref

// TSPacket is one packet of a generated transport stream.
type TSPacket struct {
	B    []byte // 188 bytes
	PID  uint16
	Unit int  // number of the unit it carries a part of, -1 for none
	PUSI bool // starts a PES packet or a section
	Last bool // last packet of its unit
}

// TSMux writes transport packets.
type TSMux struct {
	CC    map[uint16]byte
	Stuff []int // how many bytes to stuff the packets with, in turn
	n     int
}

func (m *TSMux) next() int {
	if len(m.Stuff) == 0 {
		return 0
	}
	m.n++
	return m.Stuff[m.n%len(m.Stuff)]
}

// packet makes a packet of at most len(data) bytes of payload and returns how
// many it took. At least min bytes are taken if there are as many.
func (m *TSMux) packet(pid uint16, pusi, rai bool, pcr int64, data []byte, min int) ([]byte, int) {
	b := make([]byte, 4, 188)
	b[0], b[1], b[2] = 0x47, byte(pid>>8), byte(pid)
	if pusi {
		b[1] |= 0x40
	}
	stuff := m.next()
	if min > len(data) {
		min = len(data)
	}
	if stuff > 184-min {
		stuff = 184 - min
	}
	need := 0
	if rai {
		need = 2
	}
	if pcr >= 0 {
		need = 8
	}
	if stuff < need {
		stuff = need
	}
	if 184-stuff > len(data) {
		stuff = 184 - len(data)
	}
	cc := m.CC[pid] & 15
	b[3] = 0x10 | cc
	m.CC[pid] = cc + 1
	if stuff > 0 {
		b[3] |= 0x20
		b = append(b, byte(stuff-1))
		if stuff > 1 {
			f := byte(0)
			if rai {
				f |= 0x40
			}
			var p []byte
			if pcr >= 0 && stuff >= 8 {
				f |= 0x10
				x := uint64(pcr) & (1<<33 - 1)
				p = []byte{byte(x >> 25), byte(x >> 17), byte(x >> 9), byte(x >> 1), byte(x<<7) | 0x7e, 0}
			}
			b = append(b, f)
			b = append(b, p...)
			for len(b) < 4+stuff {
				b = append(b, 0xff)
			}
		}
	}
	n := 188 - len(b)
	return append(b, data[:n]...), n
}

// Packets spreads a PES packet over transport packets. The first one holds
// at least min bytes (the PES header).
func (m *TSMux) Packets(pid uint16, unit int, rai bool, pcr int64, data []byte, min int) (out []TSPacket) {
	for first := true; first || len(data) > 0; first = false {
		mn := 1
		if first {
			mn = min
		}
		b, n := m.packet(pid, first, rai && first, map[bool]int64{true: pcr, false: -1}[first], data, mn)
		data = data[n:]
		out = append(out, TSPacket{B: b, PID: pid, Unit: unit, PUSI: first, Last: len(data) == 0})
	}
	return out
}

// Sections spreads sections over transport packets; a section may start in
// the packet in which the previous one ends.
func (m *TSMux) Sections(pid uint16, share bool, secs ...[]byte) (out []TSPacket) {
	for len(secs) > 0 {
		var tail []byte // of the previous section
		rest := secs
		for first := true; first || len(tail) > 0; first = false {
			var data []byte
			pusi := false
			if len(rest) > 0 && (first || (share && len(tail) < 120)) {
				pusi = true
				data = append([]byte{byte(len(tail))}, tail...)
				data = append(data, rest[0]...)
				rest = rest[1:]
			} else {
				data = tail
			}
			min := 1
			if pusi {
				min = 1 + len(tail) + 4
			}
			if len(data) < 184 && m.next()%3 > 0 { // stuffing bytes rather than an adaptation field
				for len(data) < 184 {
					data = append(data, 0xff)
				}
				old := m.Stuff
				m.Stuff = nil
				b, _ := m.packet(pid, pusi, false, -1, data, 184)
				m.Stuff = old
				out = append(out, TSPacket{B: b, PID: pid, Unit: -1, PUSI: pusi})
				tail = nil
				continue
			}
			b, n := m.packet(pid, pusi, false, -1, data, min)
			tail = data[n:]
			out = append(out, TSPacket{B: b, PID: pid, Unit: -1, PUSI: pusi})
		}
		secs = rest
	}
	return out
}

// PSISection builds a section with its CRC.
func PSISection(tableID byte, ext uint16, version byte, current bool, body []byte) []byte {
	n := 5 + len(body) + 4
	b := []byte{tableID, 0xb0 | byte(n>>8), byte(n), byte(ext >> 8), byte(ext), 0xc0 | version<<1, 0, 0}
	if current {
		b[5] |= 1
	}
	b = append(b, body...)
	c := crcMPEG(b)
	return append(b, byte(c>>24), byte(c>>16), byte(c>>8), byte(c))
}

// PESHeader builds a PES packet. length 0 leaves the packet length open.
func PESHeader(sid byte, pts, dts uint64, stuffing int, withLen bool, payload []byte) (pes []byte, header int) {
	ts := func(p byte, x uint64) []byte {
		return []byte{p<<4 | byte(x>>29)&0x0e | 1, byte(x >> 22), byte(x>>14) | 1, byte(x >> 7), byte(x<<1) | 1}
	}
	f, t := byte(0x80), ts(2, pts)
	if pts != dts {
		f, t = 0xc0, append(ts(3, pts), ts(1, dts)...)
	}
	for i := 0; i < stuffing; i++ {
		t = append(t, 0xff)
	}
	b := []byte{0, 0, 1, sid, 0, 0, 0x80, f, byte(len(t))}
	b = append(b, t...)
	header = len(b)
	b = append(b, payload...)
	if n := len(b) - 6; withLen && n <= 65535 {
		b[4], b[5] = byte(n>>8), byte(n)
	}
	return b, header
}
