package ref

import (
	"encoding/xml"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"time"
)

// DSeg is a segment listed by a DASH manifest.
type DSeg struct {
	Number int
	URI    string
	T, D   uint64
}

// DPeriod is a Period with one video Representation.
type DPeriod struct {
	ID        string
	Start     int // ms
	Init      string
	Timescale uint64
	PTO       uint64
	Codecs    string
	W, H      int
	Segs      []DSeg
}

// DManifest is a dynamic DASH manifest with explicit timelines.
type DManifest struct {
	Available time.Time
	Depth     int // ms
	Update    int // ms, minimumUpdatePeriod
	Periods   []DPeriod
}

type xmlMPD struct {
	XMLName xml.Name `xml:"urn:mpeg:dash:schema:mpd:2011 MPD"`
	Type    string   `xml:"type,attr"`
	Avail   string   `xml:"availabilityStartTime,attr"`
	Publish string   `xml:"publishTime,attr"`
	MinBuf  string   `xml:"minBufferTime,attr"`
	Prof    string   `xml:"profiles,attr"`
	Update  string   `xml:"minimumUpdatePeriod,attr"`
	Depth   string   `xml:"timeShiftBufferDepth,attr"`
	Periods []struct {
		ID    string `xml:"id,attr"`
		Start string `xml:"start,attr"`
		Sets  []struct {
			Mime string `xml:"mimeType,attr"`
			Reps []struct {
				ID     string   `xml:"id,attr"`
				Codecs string   `xml:"codecs,attr"`
				BW     string   `xml:"bandwidth,attr"`
				W      int      `xml:"width,attr"`
				H      int      `xml:"height,attr"`
				Mime   string   `xml:"mimeType,attr"`
				Tmpl   *xmlTmpl `xml:"SegmentTemplate"`
			} `xml:"Representation"`
			Tmpl *xmlTmpl `xml:"SegmentTemplate"`
		} `xml:"AdaptationSet"`
	} `xml:"Period"`
}

type xmlTmpl struct {
	Timescale string `xml:"timescale,attr"`
	PTO       string `xml:"presentationTimeOffset,attr"`
	Start     string `xml:"startNumber,attr"`
	Init      string `xml:"initialization,attr"`
	Media     string `xml:"media,attr"`
	Timeline  *struct {
		S []struct {
			T string `xml:"t,attr"`
			D string `xml:"d,attr"`
			R string `xml:"r,attr"`
		} `xml:"S"`
	} `xml:"SegmentTimeline"`
}

var durRE = regexp.MustCompile(`^PT(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)(?:\.(\d+))?S)?$`)

func xmlDuration(s string) (ms int, err error) {
	m := durRE.FindStringSubmatch(s)
	if m == nil || s == "PT" {
		return 0, fmt.Errorf("mpd: duration %q", s)
	}
	n := func(s string) int { v, _ := strconv.Atoi(s); return v }
	return n(m[1])*3600000 + n(m[2])*60000 + n(m[3])*1000 + n((m[4] + "000")[:3]), nil
}

func attrNum(s string, def uint64) (uint64, error) {
	if s == "" {
		return def, nil
	}
	return strconv.ParseUint(s, 10, 64)
}

// ParseMPD reads a manifest.
func ParseMPD(b []byte) (*DManifest, error) {
	var x xmlMPD
	d := xml.NewDecoder(strings.NewReader(string(b)))
	if err := d.Decode(&x); err != nil {
		return nil, fmt.Errorf("mpd: %w", err)
	}
	if _, err := d.Token(); err == nil || err.Error() != "EOF" {
		if rest := strings.TrimSpace(string(b[d.InputOffset():])); rest != "" {
			return nil, fmt.Errorf("mpd: %q after the document", rest)
		}
	}
	if x.Type != "dynamic" || x.Prof == "" || x.MinBuf == "" {
		return nil, fmt.Errorf("mpd: type %q, profiles %q, minBufferTime %q", x.Type, x.Prof, x.MinBuf)
	}
	m := &DManifest{}
	var err error
	if m.Available, err = time.Parse(time.RFC3339, x.Avail); err != nil {
		return nil, fmt.Errorf("mpd: availabilityStartTime: %w", err)
	}
	if _, err = time.Parse(time.RFC3339, x.Publish); err != nil {
		return nil, fmt.Errorf("mpd: publishTime: %w", err)
	}
	if _, err = xmlDuration(x.MinBuf); err != nil {
		return nil, err
	}
	if m.Update, err = xmlDuration(x.Update); err != nil {
		return nil, err
	}
	if m.Depth, err = xmlDuration(x.Depth); err != nil {
		return nil, err
	}
	ids := map[string]bool{}
	for _, xp := range x.Periods {
		p := DPeriod{ID: xp.ID, Timescale: 1}
		if p.ID == "" || ids[p.ID] {
			return nil, fmt.Errorf("mpd: Period id %q (dynamic manifests need distinct ones)", p.ID)
		}
		ids[p.ID] = true
		if p.Start, err = xmlDuration(xp.Start); err != nil {
			return nil, err
		}
		if len(xp.Sets) != 1 || len(xp.Sets[0].Reps) != 1 {
			return nil, fmt.Errorf("mpd: Period %s has not one Representation", p.ID)
		}
		set := xp.Sets[0]
		rep := set.Reps[0]
		if set.Mime != "video/mp4" && rep.Mime != "video/mp4" {
			return nil, fmt.Errorf("mpd: mimeType %q", set.Mime)
		}
		if bw, err := strconv.Atoi(rep.BW); err != nil || bw <= 0 || rep.ID == "" {
			return nil, fmt.Errorf("mpd: Representation id %q bandwidth %q", rep.ID, rep.BW)
		}
		p.Codecs, p.W, p.H = rep.Codecs, rep.W, rep.H
		t := rep.Tmpl
		if t == nil {
			t = set.Tmpl
		}
		if t == nil || t.Timeline == nil {
			return nil, fmt.Errorf("mpd: no SegmentTemplate with a timeline")
		}
		if p.Timescale, err = attrNum(t.Timescale, 1); err != nil {
			return nil, err
		}
		if p.PTO, err = attrNum(t.PTO, 0); err != nil {
			return nil, err
		}
		num, err := attrNum(t.Start, 1)
		if err != nil {
			return nil, err
		}
		sub := func(s string, number int, time uint64) string {
			s = strings.ReplaceAll(s, "$RepresentationID$", rep.ID)
			s = strings.ReplaceAll(s, "$Bandwidth$", rep.BW)
			if number >= 0 {
				s = strings.ReplaceAll(s, "$Number$", strconv.Itoa(number))
				s = strings.ReplaceAll(s, "$Time$", strconv.FormatUint(time, 10))
			}
			return s
		}
		p.Init = sub(t.Init, -1, 0)
		var at uint64
		for _, s := range t.Timeline.S {
			if at, err = attrNum(s.T, at); err != nil {
				return nil, err
			}
			dur, err := strconv.ParseUint(s.D, 10, 64)
			if err != nil {
				return nil, err
			}
			r, err := attrNum(s.R, 0)
			if err != nil || r > 100 {
				return nil, fmt.Errorf("mpd: r=%q", s.R)
			}
			for ; ; r-- {
				u := sub(t.Media, int(num), at)
				if strings.Contains(u, "$") {
					return nil, fmt.Errorf("mpd: media %q", t.Media)
				}
				p.Segs = append(p.Segs, DSeg{int(num), u, at, dur})
				num++
				at += dur
				if r == 0 {
					break
				}
			}
		}
		if len(p.Segs) == 0 {
			return nil, fmt.Errorf("mpd: Period %s has no segment", p.ID)
		}
		m.Periods = append(m.Periods, p)
	}
	if len(m.Periods) == 0 {
		return nil, fmt.Errorf("mpd: no Period")
	}
	return m, nil
}
