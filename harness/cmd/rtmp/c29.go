package main

import (
	"fmt"
	"strings"
	"time"

	"pgregory.net/rapid"

	"verif/harness/eng"
	"verif/harness/ref"
	"verif/harness/wire"
)

// cmdOp is one command of the client.
type cmdOp struct {
	K     string
	Txn   float64
	V     int // variant
	Extra int // extra arguments
	AMF3  bool
	Step  bool // wait until it was processed and look at the streams
}

type c29 struct {
	Ops  []cmdOp
	Size int
	Fin  int // 1: end with a connect to an unknown application
}

var cmdKinds = []string{"connect", "connect", "connect2", "create", "create", "release", "fcpublish", "publish", "publish", "publish", "play", "play", "fcunpublish", "delete", "delete", "closestream", "pause", "seek", "recva", "recvv", "unknown", "malformed", "unknown", "malformed", "other"}

func genC29(t *rapid.T) c29 {
	c := c29{Size: rapid.SampledFrom([]int{64, 128, 4096}).Draw(t, "size"), Fin: rapid.IntRange(0, 3).Draw(t, "fin")}
	n := rapid.IntRange(1, rapid.SampledFrom([]int{6, 15, 40}).Draw(t, "max")).Draw(t, "n")
	if rapid.IntRange(0, 7).Draw(t, "connected") > 0 {
		c.Ops = append(c.Ops, cmdOp{K: "connect", Txn: 1})
	}
	for len(c.Ops) < n {
		c.Ops = append(c.Ops, cmdOp{
			K:     rapid.SampledFrom(cmdKinds).Draw(t, "cmd"),
			Txn:   rapid.OneOf(rapid.SampledFrom([]float64{0, 1, 2, 3, 4, 5, 255, 65536, 2147483647, 2147483648, 4294967296, 9007199254740991}), rapid.Map(rapid.IntRange(0, 100000), func(i int) float64 { return float64(i) })).Draw(t, "txn"),
			V:     rapid.IntRange(0, 11).Draw(t, "v"),
			Extra: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 4, 5}).Draw(t, "extra"),
			AMF3:  rapid.IntRange(0, 9).Draw(t, "amf3") == 0,
			Step:  rapid.IntRange(0, 3).Draw(t, "step") == 0,
		})
	}
	return c
}

func extras(n int) []ref.AVal {
	switch n {
	case 1:
		return []ref.AVal{ref.AN(12345)}
	case 2:
		return []ref.AVal{ref.AS("more"), ref.ANil(), ref.AB(true)}
	case 3:
		return []ref.AVal{ref.AO("a", ref.AO("b", ref.AS("c"), "d", ref.AN(1)), "e", ref.ANil())}
	case 4:
		return []ref.AVal{ref.AS(strings.Repeat("x", 5000))}
	case 5:
		return []ref.AVal{{K: ref.AArr, Vals: []ref.AVal{ref.AN(1), ref.AS("two")}}, {K: ref.AUndef}}
	}
	return nil
}

// expected answers of one command: 0..n statuses and exactly one or at most
// one result.
type expect struct {
	what  string
	codes []string // onStatus codes in order
	opt   bool     // the codes may be missing
	res   int      // 0 none, 1 one _result, 2 _result or _error, 3 at most one _error, 4 at most one of any, 5 _error
	code  string   // code of the result
	txn   float64
}

func runC29(x *eng.Ctx, c c29) error {
	s, err := wire.Start(wire.Options{})
	if err != nil {
		return err
	}
	base := wire.Name()
	names := []string{base + "a", base + "b"}
	helpName := base + "h"
	helper, err := wire.Publisher(s, "live", helpName)
	if err != nil {
		return err
	}
	defer helper.Close()
	cl, err := wire.Dial(s.RTMP)
	if err != nil {
		return err
	}
	defer cl.Close()
	if c.Size >= 1 {
		if err := cl.SetChunkSize(c.Size); err != nil {
			return err
		}
	}
	app, pubApp, pubName, playing := "", "", "", false
	var exps []expect
	var out []byte
	states, refused := 0, 0

	verify := func() error {
		if len(out) > 0 {
			if err := cl.Write(out); err != nil {
				return fmt.Errorf("sending: %w", err)
			}
			out = nil
		}
		if !cl.Sync() {
			done, e := cl.Closed()
			return fmt.Errorf("the session does not go on (closed: %v %v)", done, e)
		}
		cs, err := wire.Cmds(cl.Msgs())
		if err != nil {
			return err
		}
		if err := match(cs, exps); err != nil {
			return err
		}
		for _, a := range wire.Apps {
			for _, n := range names {
				f, err := wire.GetFLV(s, a, n)
				if err != nil {
					return err
				}
				f.Close()
				want := 404
				if a == pubApp && n == pubName {
					want = 200
				}
				if f.Status != want {
					return fmt.Errorf("stream %s/%s: HTTP-FLV status %d, expected %d", a, n[len(base):], f.Status, want)
				}
			}
		}
		states++
		return nil
	}

	for i, o := range c.Ops {
		if o.Txn < 0 || o.Txn != float64(int64(o.Txn)) {
			return nil
		}
		txn := ref.AN(o.Txn)
		e := expect{what: fmt.Sprintf("command %d %s", i, o.K), txn: o.Txn}
		var vals []ref.AVal
		raw := []byte(nil)
		cobj := ref.ANil()
		if o.V%4 == 3 {
			cobj = ref.AO("k", ref.AN(1))
		}
		switch o.K {
		case "connect", "connect2":
			a := "live"
			if o.K == "connect2" {
				a = "app2"
			}
			app = a
			vals = []ref.AVal{ref.AS("connect"), txn, ref.AO("app", ref.AS(a), "type", ref.AS("nonprivate"), "fpad", ref.AB(false), "capabilities", ref.AN(15), "audioCodecs", ref.AN(4071), "x", ref.ANil())}
			e.res, e.code = 1, "NetConnection.Connect.Success"
		case "create":
			vals = []ref.AVal{ref.AS("createStream"), txn, cobj}
			e.res = 2
			if app != "" {
				e.res = 1
			}
		case "release", "fcpublish":
			cmd := map[string]string{"release": "releaseStream", "fcpublish": "FCPublish"}[o.K]
			vals = []ref.AVal{ref.AS(cmd), txn, cobj, ref.AS(names[o.V%2])}
			e.res = 2
			if o.Txn == 0 {
				e.res = 4
			}
		case "publish":
			n := names[o.V%2]
			if o.V >= 10 {
				n = []string{"", helpName}[o.V%2]
			}
			vals = []ref.AVal{ref.AS("publish"), txn, cobj, ref.AS(n)}
			if o.V%5 != 4 || o.Extra > 0 {
				vals = append(vals, ref.AS([]string{"live", "record", "append"}[o.V%3]))
			}
			if app != "" && pubName == "" && n != "" && !(n == helpName && app == "live") {
				pubApp, pubName = app, n
				e.codes = []string{"NetStream.Publish.Start"}
			} else {
				e.codes = []string{"NetStream.Publish.BadName"}
				refused++
			}
			if n == helpName && pubName == helpName {
				// only in app2: its name is not among those looked at
				x.Class("same name in the other application")
			}
		case "play":
			n := helpName
			if o.V >= 6 {
				n = base + "nobody"
			}
			vals = []ref.AVal{ref.AS("play"), txn, cobj, ref.AS(n)}
			if o.V%3 == 0 {
				vals = append(vals, ref.AN(-2000))
			}
			if n == helpName && app == "live" {
				playing = true
				e.codes = []string{"NetStream.Play.Start"}
			} else if n == helpName && app == "app2" && pubName == helpName {
				return nil // would play its own stream
			} else {
				e.codes = []string{"NetStream.Play.StreamNotFound"}
				refused++
			}
		case "fcunpublish":
			vals = []ref.AVal{ref.AS("FCUnpublish"), txn, cobj, ref.AS(names[o.V%2])}
			if pubName != "" {
				vals[3] = ref.AS(pubName)
			}
			pubApp, pubName = "", ""
			e.codes, e.opt = []string{"NetStream.Unpublish.Success"}, true
		case "delete", "closestream":
			cmd := map[string]string{"delete": "deleteStream", "closestream": "closeStream"}[o.K]
			vals = []ref.AVal{ref.AS(cmd), txn, cobj, ref.AN(float64(o.V % 2))}
			pubApp, pubName, playing = "", "", false
			e.codes, e.opt = []string{"NetStream.Unpublish.Success"}, true
		case "pause":
			vals = []ref.AVal{ref.AS("pause"), txn, cobj, ref.AB(o.V%2 == 0), ref.AN(1000)}
			e.codes = []string{[]string{"NetStream.Pause.Notify", "NetStream.Unpause.Notify"}[o.V%2]}
		case "seek":
			vals = []ref.AVal{ref.AS("seek"), txn, cobj, ref.AN(float64(o.V))}
			e.codes = []string{"NetStream.Seek.Notify"}
		case "recva", "recvv":
			cmd := map[string]string{"recva": "receiveAudio", "recvv": "receiveVideo"}[o.K]
			vals = []ref.AVal{ref.AS(cmd), txn, cobj, ref.AB(true)}
			e.res = 4
		case "unknown":
			n := []string{"foo", "Publish", "", "getStreamLength", "@setDataFrame", "onFCPublish", "PLAY", "play2", "call", "close", strings.Repeat("n", 300), "_checkbw"}[o.V%12]
			vals = []ref.AVal{ref.AS(n), txn, cobj, ref.AS(names[0])}
			e.res = 4
		case "other":
			vals = []ref.AVal{ref.AS([]string{"_result", "_error", "onStatus"}[o.V%3]), txn, ref.ANil(), ref.AO("code", ref.AS("NetStream.Publish.Start"), "level", ref.AS("status"))}
		case "malformed":
			e.res = 4
			switch o.V {
			case 0:
				vals = []ref.AVal{ref.AS("publish"), txn, ref.ANil()}
			case 1:
				vals = []ref.AVal{ref.AS("publish"), txn, ref.ANil(), ref.AN(5)}
			case 2:
				vals = []ref.AVal{ref.AS("play"), txn, ref.ANil()}
			case 3:
				vals = []ref.AVal{ref.AS("play"), txn, ref.ANil(), ref.AB(true)}
			case 4:
				vals = []ref.AVal{ref.AN(1), txn, ref.ANil(), ref.AS(names[0])}
			case 5:
				vals = []ref.AVal{ref.AS("publish"), ref.AS("five"), ref.ANil(), ref.AS(names[0])}
			case 6:
				raw = []byte{}
			case 7:
				raw = ref.AMFEncode(ref.AS("publish"), txn, ref.ANil(), ref.AS(names[0]))
				raw = raw[:len(raw)-3]
			case 8:
				vals = []ref.AVal{ref.AS("publish")}
			case 9:
				vals = []ref.AVal{ref.AS("connect"), txn}
			case 10:
				raw = ref.AMFEncode(ref.AS("publish"), txn)
				raw = append(raw, 3, 0, 1, 'a') // an object cut off
			case 11:
				vals = []ref.AVal{ref.AS("publish"), txn, ref.ANil(), ref.ANil(), ref.AS("live")}
			}
			if raw == nil && o.V != 0 && o.V != 2 && o.V < 8 {
				vals = append(vals, extras(o.Extra)...)
			}
			e.codes, e.opt = []string{"error"}, true
		default:
			return nil
		}
		d := raw
		if raw == nil {
			if o.K != "malformed" && !(o.K == "publish" && len(vals) == 4) {
				vals = append(vals, extras(o.Extra)...)
			}
			d = ref.AMFEncode(vals...)
		}
		typ := byte(20)
		if o.AMF3 && raw == nil {
			typ = 17
			d = append([]byte{0}, d...)
			x.Class("AMF3 command message")
		}
		exps = append(exps, e)
		out = append(out, ref.EncodeMsg(ref.RMsg{CSID: 3, Type: typ, Data: d}, cl.Size)...)
		x.Class(o.K)
		if o.Step {
			if err := verify(); err != nil {
				return fmt.Errorf("after command %d (%s): %w", i, o.K, err)
			}
		}
	}
	if err := verify(); err != nil {
		return fmt.Errorf("after the last command: %w", err)
	}
	// who plays receives the stream, who does not does not
	mark := wire.Sentinel(5, 29)
	f, err := wire.GetFLV(s, "live", helpName)
	if err != nil || f.Status != 200 {
		return fmt.Errorf("the other stream is gone: %v", err)
	}
	defer f.Close()
	if err := helper.SendPubs([]wire.Pub{mark}); err != nil {
		return err
	}
	if !wire.HasTag(f, mark) {
		return fmt.Errorf("the other stream stopped")
	}
	if playing {
		if !wire.HasTag(cl, mark) {
			return fmt.Errorf("the player does not receive the stream it plays")
		}
		x.Class("plays")
	} else if !cl.Sync() {
		return fmt.Errorf("the session ended")
	}
	n := 0
	for _, t := range cl.Media() {
		if mark.Same(t) == nil {
			n++
		}
	}
	if want := map[bool]int{true: 1}[playing]; n != want {
		return fmt.Errorf("the client received the marker of the other stream %d times, expected %d", n, want)
	}
	for _, m := range cl.Msgs() {
		if m.MSID != 0 {
			return fmt.Errorf("message of type %d on message stream %d, created stream is 0", m.Type, m.MSID)
		}
	}
	if c.Fin == 1 {
		cl.Command(ref.AS("connect"), ref.AN(77), ref.AO("app", ref.AS("nosuchapp")))
		r, ok := cl.Await(0, wire.Wait, func(x wire.Cmd) bool { return x.Txn == 77 && x.Code() == "NetConnection.Connect.InvalidApp" })
		if !ok || r.Name != "_error" {
			return fmt.Errorf("connect to an unknown application is not refused: %v %s", r.Name, r.Code())
		}
	}
	if len(c.Ops) > 2 && (refused > 0 || pubName != "" || playing) && states > 0 {
		x.NonTrivial()
	}
	return nil
}

// match compares the commands received with the expected answers. Optional
// answers can be ambiguous, so all positions reachable are followed.
func match(cs []wire.Cmd, exps []expect) error {
	at := map[int]bool{0: true}
	for _, e := range exps {
		next := map[int]bool{}
		var first error
		for i := range at {
			js, err := e.consume(cs, i)
			for _, j := range js {
				next[j] = true
			}
			if err != nil {
				first = err
			}
		}
		if len(next) == 0 {
			return first
		}
		at = next
	}
	best := 0
	for i := range at {
		best = max(best, i)
	}
	if best < len(cs) {
		return fmt.Errorf("an answer nobody asked for, or in the wrong order: %s", show(cs, best))
	}
	return nil
}

func status(c wire.Cmd, e expect, code string) bool {
	if c.Name != "onStatus" || (c.Txn != e.txn && c.Txn != 0) {
		return false
	}
	want := "status"
	if strings.HasSuffix(code, "BadName") || strings.HasSuffix(code, "StreamNotFound") || code == "error" {
		want = "error"
	}
	return (c.Code() == code || code == "error") && c.Level() == want
}

// consume returns the positions behind the answers to e if they start at i.
func (e expect) consume(cs []wire.Cmd, i int) (out []int, err error) {
	start := i
	for _, code := range e.codes {
		// a play is announced by several statuses
		if code == "NetStream.Play.Start" && i < len(cs) && status(cs[i], e, "NetStream.Play.Reset") {
			i++
		}
		if i < len(cs) && status(cs[i], e, code) {
			i++
			for code == "NetStream.Play.Start" && i < len(cs) && (status(cs[i], e, "NetStream.Data.Start") || status(cs[i], e, "NetStream.Play.PublishNotify")) {
				i++
			}
		} else if !e.opt {
			return nil, fmt.Errorf("%s (transaction %v): expected onStatus %s, got %s", e.what, e.txn, code, show(cs, i))
		}
	}
	ends := []int{i}
	if e.opt && i > start {
		ends = append(ends, start)
	}
	if e.res == 0 {
		return ends, nil
	}
	for _, i := range ends {
		if e.res >= 3 {
			out = append(out, i)
		}
		if i >= len(cs) || cs[i].Txn != e.txn {
			continue
		}
		switch cs[i].Name {
		case "_result":
			if e.res == 3 {
				continue
			}
		case "_error":
			if e.res == 1 {
				continue
			}
		default:
			continue
		}
		if e.code != "" && cs[i].Code() != e.code {
			err = fmt.Errorf("%s: result code %q", e.what, cs[i].Code())
			continue
		}
		if strings.HasSuffix(e.what, " create") && cs[i].Name == "_result" {
			if len(cs[i].Args) < 2 || cs[i].Args[1].K != ref.ANum || cs[i].Args[1].F() != 0 {
				err = fmt.Errorf("%s: no stream id, or not the one statuses are sent on: %v", e.what, cs[i].Args)
				continue
			}
		}
		out = append(out, i+1)
	}
	if len(out) == 0 && err == nil {
		err = fmt.Errorf("%s (transaction %v): expected a result, got %s", e.what, e.txn, show(cs, i))
	}
	return out, err
}

func show(cs []wire.Cmd, i int) string {
	if i >= len(cs) {
		return "nothing more"
	}
	return fmt.Sprintf("%s (transaction %v) %s", cs[i].Name, cs[i].Txn, cs[i].Code())
}

func init() {
	eng.Register("C29", eng.Opts{
		Rule:        "three or more commands with a stream published or played, or an attempt refused",
		Quick:       eng.Budget{Shards: 8, Cases: 700, Wall: 60 * time.Second},
		Thorough:    eng.Budget{Shards: 8, Cases: 200000, Wall: 600 * time.Second},
		Net:         true,
		Assumptions: []string{"integer transaction numbers; createStream is sent on message stream 0"},
	}, genC29, runC29)
}
