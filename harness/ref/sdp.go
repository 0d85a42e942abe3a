package ref

import (
	"encoding/base64"
	"fmt"
	"strconv"
	"strings"
)

// SDPMedia is one media section.
type SDPMedia struct {
	Kind, Proto, Control string
	Port                 int
	PTs                  []int
	RTPMap               map[int]string            // pt -> "NAME/rate[/chans]"
	Fmtp                 map[int]map[string]string // lower-case keys
}

// SDP is a session description.
type SDP struct {
	Session string
	Control string
	Media   []*SDPMedia
}

// ParseSDP reads a description strictly (RFC 4566 line order on session level).
func ParseSDP(b []byte) (*SDP, error) {
	s := &SDP{}
	txt := string(b)
	if !strings.HasSuffix(txt, "\r\n") {
		return nil, fmt.Errorf("sdp: does not end with CRLF")
	}
	order := "vosiuepcbtrzka"
	last := -1
	seen := map[byte]bool{}
	var m *SDPMedia
	conn := map[*SDPMedia]bool{} // nil: the session
	for _, l := range strings.Split(strings.TrimSuffix(txt, "\r\n"), "\r\n") {
		if len(l) < 3 || l[1] != '=' || strings.ContainsAny(l, "\r\n") {
			return nil, fmt.Errorf("sdp: bad line %q", l)
		}
		k, v := l[0], l[2:]
		if k == 'c' {
			f := strings.Fields(v)
			if len(f) != 3 || f[0] != "IN" || (f[1] != "IP4" && f[1] != "IP6") {
				return nil, fmt.Errorf("sdp: bad connection line %q", l)
			}
			conn[m] = true
		}
		if k == 'm' {
			f := strings.Fields(v)
			if len(f) < 4 {
				return nil, fmt.Errorf("sdp: bad m line %q", l)
			}
			m = &SDPMedia{Kind: f[0], Proto: f[2], RTPMap: map[int]string{}, Fmtp: map[int]map[string]string{}}
			var err error
			if m.Port, err = strconv.Atoi(f[1]); err != nil {
				return nil, fmt.Errorf("sdp: bad port %q", l)
			}
			for _, p := range f[3:] {
				n, err := strconv.Atoi(p)
				if err != nil || n < 0 || n > 127 {
					return nil, fmt.Errorf("sdp: bad payload type %q", l)
				}
				m.PTs = append(m.PTs, n)
			}
			s.Media = append(s.Media, m)
			continue
		}
		if m == nil {
			i := strings.IndexByte(order, k)
			if i < 0 || i < last {
				return nil, fmt.Errorf("sdp: line %q out of order", l)
			}
			last = i
			seen[k] = true
			if k == 's' {
				s.Session = v
			}
			if k == 'v' && v != "0" {
				return nil, fmt.Errorf("sdp: version %q", v)
			}
		}
		if k != 'a' {
			continue
		}
		name, val, _ := strings.Cut(v, ":")
		if m == nil {
			if name == "control" {
				s.Control = val
			}
			continue
		}
		switch name {
		case "control":
			m.Control = val
		case "rtpmap", "fmtp":
			p, rest, ok := strings.Cut(val, " ")
			n, err := strconv.Atoi(p)
			if !ok || err != nil {
				return nil, fmt.Errorf("sdp: bad attribute %q", l)
			}
			if name == "rtpmap" {
				m.RTPMap[n] = rest
				break
			}
			pm := map[string]string{}
			for _, kv := range strings.Split(rest, ";") {
				k, v, ok := strings.Cut(strings.TrimSpace(kv), "=")
				if !ok {
					return nil, fmt.Errorf("sdp: bad fmtp %q", l)
				}
				pm[strings.ToLower(k)] = v
			}
			m.Fmtp[n] = pm
		}
	}
	for _, k := range []byte("vost") {
		if !seen[k] {
			return nil, fmt.Errorf("sdp: no %c= line", k)
		}
	}
	for _, m := range s.Media {
		if !conn[nil] && !conn[m] {
			return nil, fmt.Errorf("sdp: no connection line for the %s media", m.Kind)
		}
	}
	return s, nil
}

// B64List decodes comma-separated base64.
func B64List(s string) (out [][]byte, err error) {
	for _, p := range strings.Split(s, ",") {
		b, err := base64.StdEncoding.DecodeString(p)
		if err != nil {
			return nil, err
		}
		out = append(out, b)
	}
	return out, nil
}
