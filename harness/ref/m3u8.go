package ref

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// MPart is one EXT-X-PART.
type MPart struct {
	Dur         float64
	URI         string
	Off, Len    int64
	Independent bool
}

// MSeg is one media segment of a playlist.
type MSeg struct {
	Seq   int
	Dur   float64
	URI   string
	Parts []MPart
}

// M3U8 is a parsed media playlist.
type M3U8 struct {
	Version    int
	Target     int
	Seq        int
	PartTarget float64 // 0: none
	HoldBack   float64
	CanBlock   bool
	Segs       []MSeg
	Parts      []MPart // of the segment in progress
	HintURI    string
	HintOff    int64
	End        bool
}

func m3u8Attrs(s string) (map[string]string, error) {
	out := map[string]string{}
	for s != "" {
		i := strings.IndexByte(s, '=')
		if i <= 0 {
			return nil, fmt.Errorf("attribute list %q", s)
		}
		k := s[:i]
		s = s[i+1:]
		var v string
		if strings.HasPrefix(s, "\"") {
			j := strings.IndexByte(s[1:], '"')
			if j < 0 {
				return nil, fmt.Errorf("unterminated string in %q", s)
			}
			v, s = s[1:1+j], s[j+2:]
		} else if j := strings.IndexByte(s, ','); j >= 0 {
			v, s = s[:j], s[j:]
		} else {
			v, s = s, ""
		}
		if _, dup := out[k]; dup {
			return nil, fmt.Errorf("attribute %s twice", k)
		}
		out[k] = v
		if s != "" {
			if s[0] != ',' {
				return nil, fmt.Errorf("attribute list: %q after %s", s, k)
			}
			s = s[1:]
			if s == "" {
				return nil, fmt.Errorf("attribute list ends in a comma")
			}
		}
	}
	return out, nil
}

func m3u8Uint(s string) (int, error) {
	n, err := strconv.Atoi(s)
	if err != nil || n < 0 {
		return 0, fmt.Errorf("%q is no decimal integer", s)
	}
	return n, nil
}

func m3u8Float(s string) (float64, error) {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || f < 0 || math.IsInf(f, 0) || math.IsNaN(f) || strings.ContainsAny(s, "eExX") {
		return 0, fmt.Errorf("%q is no decimal number", s)
	}
	return f, nil
}

func m3u8URI(s string) error {
	if s == "" {
		return fmt.Errorf("empty URI")
	}
	for _, c := range []byte(s) {
		if c <= ' ' || c >= 0x7f || strings.IndexByte("\"<>\\^`{|}#?/", c) >= 0 {
			return fmt.Errorf("URI %q is not a plain relative name", s)
		}
	}
	return nil
}

// ParseM3U8 parses a live media playlist strictly; unknown tags are ignored.
func ParseM3U8(b []byte) (*M3U8, error) {
	p := &M3U8{Target: -1, Version: 1}
	if len(b) == 0 || b[len(b)-1] != '\n' {
		return nil, fmt.Errorf("playlist does not end with a newline: %q", b)
	}
	lines := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	if lines[0] != "#EXTM3U" {
		return nil, fmt.Errorf("playlist starts with %q", lines[0])
	}
	seen := map[string]bool{}
	var inf *float64
	var parts []MPart
	for _, l := range lines[1:] {
		l = strings.TrimSuffix(l, "\r")
		tag, val := l, ""
		if i := strings.IndexByte(l, ':'); i >= 0 && strings.HasPrefix(l, "#") {
			tag, val = l[:i], l[i+1:]
		}
		var err error
		switch tag {
		case "#EXT-X-VERSION", "#EXT-X-TARGETDURATION", "#EXT-X-MEDIA-SEQUENCE", "#EXT-X-PART-INF", "#EXT-X-SERVER-CONTROL", "#EXT-X-PRELOAD-HINT":
			if seen[tag] {
				return nil, fmt.Errorf("%s twice", tag)
			}
			seen[tag] = true
			if tag == "#EXT-X-MEDIA-SEQUENCE" && (len(p.Segs) > 0 || len(parts) > 0) {
				return nil, fmt.Errorf("%s after a segment", tag)
			}
		}
		switch tag {
		case "#EXT-X-VERSION":
			p.Version, err = m3u8Uint(val)
		case "#EXT-X-TARGETDURATION":
			p.Target, err = m3u8Uint(val)
		case "#EXT-X-MEDIA-SEQUENCE":
			p.Seq, err = m3u8Uint(val)
		case "#EXT-X-ENDLIST":
			p.End = true
		case "#EXTINF":
			if inf != nil {
				return nil, fmt.Errorf("EXTINF without a URI")
			}
			d := val
			if i := strings.IndexByte(d, ','); i >= 0 {
				d = d[:i]
			} else {
				return nil, fmt.Errorf("EXTINF %q without a comma", val)
			}
			var f float64
			f, err = m3u8Float(d)
			inf = &f
		case "#EXT-X-PART-INF":
			var a map[string]string
			if a, err = m3u8Attrs(val); err == nil {
				p.PartTarget, err = m3u8Float(a["PART-TARGET"])
			}
		case "#EXT-X-SERVER-CONTROL":
			var a map[string]string
			if a, err = m3u8Attrs(val); err == nil {
				p.CanBlock = a["CAN-BLOCK-RELOAD"] == "YES"
				if s, ok := a["PART-HOLD-BACK"]; ok {
					p.HoldBack, err = m3u8Float(s)
				}
			}
		case "#EXT-X-PART":
			var a map[string]string
			if a, err = m3u8Attrs(val); err != nil {
				break
			}
			x := MPart{URI: a["URI"], Independent: a["INDEPENDENT"] == "YES"}
			if x.Dur, err = m3u8Float(a["DURATION"]); err != nil {
				break
			}
			if err = m3u8URI(x.URI); err != nil {
				break
			}
			l, o, ok := strings.Cut(a["BYTERANGE"], "@")
			if !ok {
				err = fmt.Errorf("BYTERANGE %q", a["BYTERANGE"])
				break
			}
			var n int
			if n, err = m3u8Uint(l); err != nil {
				break
			}
			x.Len = int64(n)
			n, err = m3u8Uint(o)
			x.Off = int64(n)
			parts = append(parts, x)
		case "#EXT-X-PRELOAD-HINT":
			var a map[string]string
			if a, err = m3u8Attrs(val); err != nil {
				break
			}
			if a["TYPE"] != "PART" {
				err = fmt.Errorf("TYPE %q", a["TYPE"])
				break
			}
			p.HintURI = a["URI"]
			if err = m3u8URI(p.HintURI); err != nil {
				break
			}
			if s, ok := a["BYTERANGE-START"]; ok {
				var n int
				n, err = m3u8Uint(s)
				p.HintOff = int64(n)
			}
		default:
			if strings.HasPrefix(l, "#") || l == "" {
				continue
			}
			if inf == nil {
				return nil, fmt.Errorf("URI %q without EXTINF", l)
			}
			if err = m3u8URI(l); err != nil {
				break
			}
			p.Segs = append(p.Segs, MSeg{Dur: *inf, URI: l, Parts: parts})
			inf, parts = nil, nil
		}
		if err != nil {
			return nil, fmt.Errorf("%s: %v", l, err)
		}
	}
	if inf != nil {
		return nil, fmt.Errorf("EXTINF without a URI")
	}
	if p.Target < 0 {
		return nil, fmt.Errorf("no EXT-X-TARGETDURATION")
	}
	p.Parts = parts
	names := map[string]bool{}
	for i := range p.Segs {
		s := &p.Segs[i]
		s.Seq = p.Seq + i
		if names[s.URI] {
			return nil, fmt.Errorf("%s is listed twice", s.URI)
		}
		names[s.URI] = true
		if math.Round(s.Dur) > float64(p.Target) {
			return nil, fmt.Errorf("%s lasts %v s, above the target duration %d", s.URI, s.Dur, p.Target)
		}
		if s.Dur <= 0 {
			return nil, fmt.Errorf("%s lasts %v s", s.URI, s.Dur)
		}
		for _, x := range s.Parts {
			if x.URI != s.URI {
				return nil, fmt.Errorf("part of %s before %s", x.URI, s.URI)
			}
		}
	}
	for _, x := range p.Parts {
		if names[x.URI] || x.URI != p.Parts[0].URI {
			return nil, fmt.Errorf("part of %s after its segment", x.URI)
		}
	}
	return p, nil
}
