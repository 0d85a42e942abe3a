// Package eng drives one property at a time: it generates cases with rapid,
// runs them against the code under test in child processes, shrinks failures,
// confirms them in a fresh process and writes the evidence file.
package eng

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Ctx is handed to every case.
type Ctx struct {
	Dir        string // scratch directory of the child process (its cwd)
	Tier       string
	Replay     bool
	classes    map[string]int
	nontrivial bool
}

// Class counts the case in a named class (shown in the evidence).
func (c *Ctx) Class(name string) { c.classes[name]++ }

// NonTrivial marks the case as non-trivial by the property's rule.
func (c *Ctx) NonTrivial() { c.nontrivial = true }

// Budget bounds one tier.
type Budget struct {
	Shards int           // child processes
	Cases  int           // cases per shard
	Wall   time.Duration // no new case is started after this
}

// Opts are the per-property settings.
type Opts struct {
	Rule        string
	Quick       Budget
	Thorough    Budget
	Net         bool          // uses sockets/timing: confirm by several replays
	HangLimit   time.Duration // a case running longer than this is abandoned
	HangIsBug   bool          // ... and counts as a violation (else: no answer)
	MemLimit    uint64        // RLIMIT_AS of the child
	Shrink      time.Duration
	Assumptions []string
	// Unprivileged runs the cases as a user that owns nothing but its
	// scratch directory.
	Unprivileged bool
}

type prop struct {
	id   string
	opts Opts
	gen  func(*rapid.T) any
	dec  func([]byte) (any, error)
	run  func(*Ctx, any) error
}

var props = map[string]*prop{}

// Register adds a property: gen builds a JSON-serialisable case, run decides it.
func Register[T any](id string, opts Opts, gen func(*rapid.T) T, run func(*Ctx, T) error) {
	props[id] = &prop{
		id: id, opts: opts,
		gen: func(t *rapid.T) any { return gen(t) },
		dec: func(b []byte) (any, error) {
			var v T
			err := json.Unmarshal(b, &v)
			return v, err
		},
		run: func(c *Ctx, v any) error { return run(c, v.(T)) },
	}
}

// genOnly draws cases without running them, to exercise the generators.
var genOnly = os.Getenv("PBT_GENONLY") != ""

// draw makes a case; a run-time error in the generator is returned as text.
func draw(p *prop, rt *rapid.T) (cs any, bad string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(runtime.Error); !ok {
				panic(r)
			}
			bad = fmt.Sprintf("%v\n%s", r, debug.Stack())
			fmt.Fprintln(os.Stderr, "generator:", bad)
		}
	}()
	return p.gen(rt), ""
}

// ErrInconclusive marks a case that could not be decided (environment trouble).
var ErrInconclusive = errors.New("inconclusive")

type failure struct {
	Case json.RawMessage `json:"case"`
	Msg  string          `json:"msg"`
}

type result struct {
	Evals        int            `json:"evals"`
	Hashes       []uint64       `json:"hashes"`
	Classes      map[string]int `json:"classes"`
	Samples      []string       `json:"samples"`
	Failure      *failure       `json:"failure,omitempty"`
	Exhausted    bool           `json:"exhausted"`
	Inconclusive int            `json:"inconclusive"`
	GenErr       string         `json:"gen_err,omitempty"`
	Discarded    int            `json:"discarded,omitempty"`
}

type replayFile struct {
	Property string          `json:"property"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
	Seed     uint64          `json:"shard_seed,omitempty"`
	Kind     string          `json:"kind,omitempty"`
}

func hash64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// Main is the entry point of every cmd.
func Main() {
	var (
		id      = flag.String("prop", "", "property id")
		tier    = flag.String("tier", "quick", "quick or thorough")
		child   = flag.String("child", "", "internal: child output directory")
		seed    = flag.Uint64("seed", 0, "internal: shard seed")
		cases   = flag.Int("cases", 0, "override the number of cases per shard")
		shards  = flag.Int("shards", 0, "override shards")
		wall    = flag.Duration("wall", 0, "override the wall budget")
		replay  = flag.String("replay", "", "run one saved case")
		verbose = flag.Bool("v", false, "child output to the terminal")
	)
	testing.Init()
	flag.Parse()
	p := props[*id]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *id)
		os.Exit(2)
	}
	b := p.opts.Quick
	if *tier == "thorough" {
		b = p.opts.Thorough
	}
	if *cases > 0 {
		b.Cases = *cases
	}
	if *shards > 0 {
		b.Shards = *shards
	}
	if *wall > 0 {
		b.Wall = *wall
	}
	switch {
	case *child != "" && *replay != "":
		childReplay(p, *child, *replay, *tier)
	case *child != "":
		childRun(p, *child, *seed, b, *tier)
	case *replay != "":
		kind, msg := runReplay(p, *replay, *tier, *verbose)
		fmt.Printf("replay: %s %s\n", kind, msg)
		if kind == "pass" {
			os.Exit(0)
		}
		if kind == "fail" || kind == "crash" || kind == "hang" {
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, *replay)
			os.Exit(1)
		}
		os.Exit(2)
	default:
		os.Exit(parent(p, b, *tier))
	}
}

// ---------------------------------------------------------------- child ----

type stopTB struct{}

type ctb struct {
	failed bool
	log    strings.Builder
}

func (t *ctb) Helper()                   {}
func (t *ctb) Name() string              { return "pbt" }
func (t *ctb) Logf(f string, a ...any)   { fmt.Fprintf(&t.log, f+"\n", a...) }
func (t *ctb) Log(a ...any)              { fmt.Fprintln(&t.log, a...) }
func (t *ctb) Skipf(f string, a ...any)  { panic(stopTB{}) }
func (t *ctb) Skip(a ...any)             { panic(stopTB{}) }
func (t *ctb) SkipNow()                  { panic(stopTB{}) }
func (t *ctb) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *ctb) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *ctb) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(stopTB{}) }
func (t *ctb) Fatal(a ...any)            { t.Error(a...); panic(stopTB{}) }
func (t *ctb) FailNow()                  { t.failed = true; panic(stopTB{}) }
func (t *ctb) Fail()                     { t.failed = true }
func (t *ctb) Failed() bool              { return t.failed }

func guarded(p *prop, c *Ctx, cs any) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i > 0 {
				st = st[i:]
			}
			if len(st) > 1500 {
				st = st[:1500]
			}
			err = fmt.Errorf("panic: %v\n%s", r, st)
		}
	}()
	return p.run(c, cs)
}

func withHang(p *prop, dir string, c *Ctx, cs any) error {
	lim := p.opts.HangLimit
	if lim == 0 {
		lim = 120 * time.Second
	}
	timer := time.AfterFunc(lim, func() {
		buf := make([]byte, 1<<16)
		n := runtime.Stack(buf, true)
		os.WriteFile(filepath.Join(dir, "hang"), buf[:n], 0o644)
		os.Exit(97)
	})
	defer timer.Stop()
	return guarded(p, c, cs)
}

// nobody is the user without rights that unprivileged checks run as.
const nobody = 61234

// dropPrivileges makes the process unable to touch anything but dir.
func (p *prop) dropPrivileges(dir string) {
	if !p.opts.Unprivileged || os.Getuid() != 0 {
		return
	}
	filepath.Walk(dir, func(f string, _ os.FileInfo, err error) error {
		if err == nil {
			os.Lchown(f, nobody, nobody)
		}
		return nil
	})
	err := syscall.Setgroups(nil)
	if err == nil {
		err = syscall.Setgid(nobody)
	}
	if err == nil {
		err = syscall.Setuid(nobody)
	}
	if err != nil || os.Getuid() != nobody {
		fmt.Fprintln(os.Stderr, "cannot become an unprivileged user:", err)
		os.Exit(95)
	}
	// Changing the user cleared it.
	syscall.RawSyscall(syscall.SYS_PRCTL, syscall.PR_SET_PDEATHSIG, uintptr(syscall.SIGKILL), 0)
}

func childRun(p *prop, dir string, seed uint64, b Budget, tier string) {
	childDir = dir
	p.dropPrivileges(dir)
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.checks", strconv.Itoa(b.Cases))
	flag.Set("rapid.nofailfile", "true")
	sh := p.opts.Shrink
	if sh == 0 {
		sh = 15 * time.Second
	}
	if fast() {
		sh = 0
	}
	flag.Set("rapid.shrinktime", sh.String())
	cwd, _ := os.Getwd()
	deadline := time.Now().Add(b.Wall)
	res := &result{Classes: map[string]int{}}
	seen := map[uint64]bool{}
	curPath := filepath.Join(dir, "current.json")
	t := &ctb{}
	failing := false
	var shrinkEnd time.Time
	hung := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopTB); !ok {
					res.GenErr = fmt.Sprintf("%v", r)
				}
			}
		}()
		rapid.Check(t, func(rt *rapid.T) {
			if !failing && time.Now().After(deadline) {
				res.Exhausted = true
				return
			}
			if hung || failing && time.Now().After(shrinkEnd) {
				// rapid looks at its own limit only now and then.
				return
			}
			cs, bad := draw(p, rt)
			if bad != "" {
				// A slip of the generator costs one case, not the run.
				res.Discarded++
				if res.Discarded > 20 {
					res.GenErr = bad
				}
				return
			}
			js, err := json.Marshal(cs)
			if genOnly {
				res.Evals++
				return
			}
			if err != nil {
				res.GenErr = err.Error()
				return
			}
			os.WriteFile(curPath, js, 0o644)
			c := &Ctx{Dir: cwd, Tier: tier, classes: res.Classes}
			if failing {
				c.classes = map[string]int{}
			}
			err = withHang(p, dir, c, cs)
			if !failing {
				res.Evals++
				if errors.Is(err, ErrInconclusive) {
					res.Inconclusive++
				} else if c.nontrivial {
					h := hash64(js)
					if !seen[h] {
						seen[h] = true
						res.Hashes = append(res.Hashes, h)
						if len(res.Samples) < 3 {
							s := string(js)
							if len(s) > 700 {
								s = s[:700] + "..."
							}
							res.Samples = append(res.Samples, s)
						}
					}
				}
			}
			if err != nil && !errors.Is(err, ErrInconclusive) {
				if !failing {
					failing, shrinkEnd = true, time.Now().Add(sh)
				}
				res.Failure = &failure{Case: js, Msg: err.Error()}
				rt.Fatalf("case failed")
			}
		})
	}()
	if t.failed && res.Failure == nil && res.GenErr == "" {
		res.GenErr = t.log.String()
	}
	out, _ := json.Marshal(res)
	os.WriteFile(filepath.Join(dir, "result.json"), out, 0o644)
	os.Exit(0)
}

// childDir is where the child leaves its files.
var childDir string

// ServerUp records that the server under test is running: from here on it is
// the server that ends this process, if it does.
func ServerUp() {
	if childDir != "" {
		os.WriteFile(filepath.Join(childDir, "up"), nil, 0o644)
	}
}

func childReplay(p *prop, dir, file, tier string) {
	childDir = dir
	b, err := os.ReadFile(file)
	if err != nil {
		os.Exit(98)
	}
	var rf replayFile
	if json.Unmarshal(b, &rf) != nil {
		os.Exit(98)
	}
	cs, err := p.dec(rf.Case)
	if err != nil {
		os.Exit(98)
	}
	p.dropPrivileges(dir)
	cwd, _ := os.Getwd()
	c := &Ctx{Dir: cwd, Tier: tier, Replay: true, classes: map[string]int{}}
	err = withHang(p, dir, c, cs)
	res := &result{Evals: 1, Classes: c.classes}
	if errors.Is(err, ErrInconclusive) {
		res.Inconclusive = 1
	} else if err != nil {
		res.Failure = &failure{Case: rf.Case, Msg: err.Error()}
	}
	out, _ := json.Marshal(res)
	os.WriteFile(filepath.Join(dir, "result.json"), out, 0o644)
	os.Exit(0)
}

// --------------------------------------------------------------- parent ----

func spawn(p *prop, verbose bool, args ...string) (kind, msg string, res *result, cur []byte) {
	dir, err := os.MkdirTemp("", "pbt")
	if err != nil {
		return "error", err.Error(), nil, nil
	}
	defer os.RemoveAll(dir)
	work := filepath.Join(dir, "work")
	os.Mkdir(work, 0o755)
	self, _ := os.Executable()
	cmd := exec.Command(self, append([]string{"-prop", p.id, "-child", dir}, args...)...)
	cmd.Dir = work
	mem := p.opts.MemLimit
	if mem == 0 {
		mem = 12 << 30
	}
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMEMLIMIT=3GiB", "PBT_MEM="+strconv.FormatUint(mem, 10))
	errf, _ := os.Create(filepath.Join(dir, "stderr"))
	cmd.Stderr = errf
	if verbose {
		cmd.Stdout = os.Stderr
		cmd.Stderr = os.Stderr
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	err = cmd.Start()
	if err != nil {
		return "error", err.Error(), nil, nil
	}
	err = cmd.Wait()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	errf.Close()
	cur, _ = os.ReadFile(filepath.Join(dir, "current.json"))
	if rb, e := os.ReadFile(filepath.Join(dir, "result.json")); e == nil {
		res = &result{}
		if json.Unmarshal(rb, res) == nil {
			if res.Failure != nil {
				return "fail", res.Failure.Msg, res, res.Failure.Case
			}
			if res.GenErr != "" {
				return "error", "generator: " + res.GenErr, res, nil
			}
			if strings.Contains(strings.Join(args, " "), "-replay") && res.Inconclusive > 0 {
				return "inconclusive", "", res, nil
			}
			return "pass", "", res, nil
		}
	}
	stderr, _ := os.ReadFile(filepath.Join(dir, "stderr"))
	if h, e := os.ReadFile(filepath.Join(dir, "hang")); e == nil {
		s := string(h)
		if len(s) > 6000 {
			s = s[:6000]
		}
		return "hang", s, nil, cur
	}
	s := string(stderr)
	if _, e := os.Stat(filepath.Join(dir, "up")); e == nil && cmd.ProcessState != nil {
		if code := cmd.ProcessState.ExitCode(); code == 1 || code == 96 {
			if len(s) > 1000 {
				s = s[len(s)-1000:]
			}
			return "crash", "the server ended its process: " + s, nil, cur
		}
	}
	for _, mark := range []string{"panic: ", "fatal error: ", "WARNING: DATA RACE", "concurrent map"} {
		if i := strings.Index(s, mark); i >= 0 {
			s = s[i:]
			if len(s) > 3000 {
				s = s[:3000]
			}
			return "crash", s, nil, cur
		}
	}
	if len(s) > 2000 {
		s = s[len(s)-2000:]
	}
	return "error", fmt.Sprintf("child ended: %v: %s", err, s), nil, cur
}

func init() {
	if m := os.Getenv("PBT_MEM"); m != "" {
		if n, err := strconv.ParseUint(m, 10, 64); err == nil {
			syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: n, Max: n})
		}
	}
}

func runReplay(p *prop, file, tier string, verbose bool) (kind, msg string) {
	abs, _ := filepath.Abs(file)
	kind, msg, _, _ = spawn(p, verbose, "-replay", abs, "-tier", tier)
	return kind, msg
}

func (p *prop) bad(kind string) bool {
	return kind == "fail" || kind == "crash" || (kind == "hang" && p.opts.HangIsBug)
}

func writeReplay(path string, rf replayFile) {
	b, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(path, b, 0o644)
}

// shrinkJSON minimises a crashing case by dropping array elements.
func shrinkJSON(p *prop, tier string, rf replayFile, tmp string, limit time.Duration) replayFile {
	deadline := time.Now().Add(limit)
	tries := 0
	try := func(v any) bool {
		b, err := json.Marshal(v)
		if err != nil {
			return false
		}
		if _, err := p.dec(b); err != nil {
			return false
		}
		tries++
		c := rf
		c.Case = b
		writeReplay(tmp, c)
		k, _ := runReplay(p, tmp, tier, false)
		if p.bad(k) {
			rf.Case = b
			return true
		}
		return false
	}
	for changed := true; changed && time.Now().Before(deadline) && tries < 200; {
		changed = false
		var root any
		if json.Unmarshal(rf.Case, &root) != nil {
			return rf
		}
		var paths [][]any
		var walk func(v any, path []any)
		walk = func(v any, path []any) {
			switch x := v.(type) {
			case []any:
				paths = append(paths, append([]any(nil), path...))
				for i, e := range x {
					walk(e, append(path, i))
				}
			case map[string]any:
				keys := make([]string, 0, len(x))
				for k := range x {
					keys = append(keys, k)
				}
				sort.Strings(keys)
				for _, k := range keys {
					walk(x[k], append(path, k))
				}
			}
		}
		walk(root, nil)
		for _, path := range paths {
			for n := -1; ; {
				var cur any
				json.Unmarshal(rf.Case, &cur)
				arr, set, ok := at(cur, path)
				if !ok || len(arr) == 0 {
					break
				}
				if n < 0 {
					n = (len(arr) + 1) / 2
				}
				did := false
				for i := 0; i < len(arr); i += n {
					if time.Now().After(deadline) || tries >= 200 {
						return rf
					}
					j := i + n
					if j > len(arr) {
						j = len(arr)
					}
					na := append(append([]any{}, arr[:i]...), arr[j:]...)
					if try(set(na)) {
						did, changed = true, true
						break
					}
				}
				if !did {
					if n <= 1 {
						break
					}
					n = n / 2
				}
			}
		}
	}
	return rf
}

func at(root any, path []any) (arr []any, set func([]any) any, ok bool) {
	cur := root
	var parent any
	var last any
	for _, k := range path {
		parent, last = cur, k
		switch x := cur.(type) {
		case []any:
			i, isInt := k.(int)
			if !isInt || i >= len(x) {
				return nil, nil, false
			}
			cur = x[i]
		case map[string]any:
			s, isS := k.(string)
			if !isS {
				return nil, nil, false
			}
			cur = x[s]
		default:
			return nil, nil, false
		}
	}
	arr, ok = cur.([]any)
	return arr, func(n []any) any {
		if parent == nil {
			return n
		}
		switch x := parent.(type) {
		case []any:
			x[last.(int)] = n
		case map[string]any:
			x[last.(string)] = n
		}
		return root
	}, ok
}

type knownEntry struct{ file, what string }

func knownFindings(root, id string) (out []knownEntry) {
	b, err := os.ReadFile(filepath.Join(root, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "finding:" && f[1] == "property="+id && strings.HasPrefix(f[2], "case=") {
			out = append(out, knownEntry{filepath.Join(root, f[2][5:]), f[3]})
		}
	}
	return out
}

func parent(p *prop, b Budget, tier string) int {
	start := time.Now()
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	base := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			base = uint64(n)
		}
	}
	os.MkdirAll(filepath.Join(root, "replays"), 0o755)
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)

	type shardOut struct {
		seed      uint64
		kind, msg string
		res       *result
		cur       []byte
	}
	shardSeed := func(i int) uint64 {
		s := hash64([]byte(fmt.Sprintf("%s/%d/%d", p.id, base, i)))
		if s == 0 {
			s = 1
		}
		return s
	}
	runShard := func(i int) shardOut {
		s := shardSeed(i)
		k, m, r, c := spawn(p, false, "-seed", strconv.FormatUint(s, 10), "-tier", tier,
			"-cases", strconv.Itoa(b.Cases), "-wall", b.Wall.String())
		return shardOut{s, k, m, r, c}
	}

	var violations []replayFile
	var notes []string
	errorExit := ""

	confirm := func(rf replayFile, rerun func() shardOut) {
		path := filepath.Join(root, "replays", fmt.Sprintf("%s-%016x.json", p.id, hash64(rf.Case)))
		writeReplay(path, rf)
		tries := 3
		if p.opts.Net {
			tries = 4
		}
		ok := false
		for i := 0; i < tries && !ok; i++ {
			k, m := runReplay(p, path, tier, false)
			if p.bad(k) {
				ok = true
				if m != "" {
					rf.Message = m
				}
			}
		}
		if !ok && rerun != nil {
			// The single case does not reproduce it alone: run the whole
			// shard again (state left by earlier cases may matter).
			so := rerun()
			if p.bad(so.kind) {
				ok = true
				rf.Kind = "shard"
				rf.Seed = so.seed
			}
		}
		if !ok {
			notes = append(notes, "unconfirmed: "+trunc(rf.Message, 300))
			os.Remove(path)
			return
		}
		if rf.Kind == "crash" {
			rf = shrinkJSON(p, tier, rf, path, 60*time.Second)
		}
		writeReplay(path, rf)
		violations = append(violations, rf)
		fmt.Printf("%s\n", trunc(rf.Message, 2000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)
	}

	// 1. saved regression cases
	regress := 0
	files, _ := filepath.Glob(filepath.Join(root, "regress", p.id, "*.json"))
	sort.Strings(files)
	for _, f := range files {
		regress++
		k, m := runReplay(p, f, tier, false)
		if p.bad(k) {
			fb, _ := os.ReadFile(f)
			var rf replayFile
			json.Unmarshal(fb, &rf)
			rf.Message = "regression case " + filepath.Base(f) + ": " + m
			confirm(rf, nil)
		} else if k == "error" {
			errorExit = "regression case " + f + ": " + m
		}
	}
	// 2. known findings
	known := 0
	for _, kf := range knownFindings(root, p.id) {
		k, _ := runReplay(p, kf.file, tier, false)
		if k != "pass" && k != "inconclusive" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.id, kf.what)
			known++
		} else {
			notes = append(notes, "listed finding no longer fails: "+kf.what)
		}
	}
	// 3. search
	outs := make([]shardOut, b.Shards)
	if len(violations) == 0 {
		sem := make(chan struct{}, runtime.NumCPU())
		var wg sync.WaitGroup
		for i := 0; i < b.Shards; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				outs[i] = runShard(i)
				if fast() && p.bad(outs[i].kind) {
					fastKill(p, root, outs[i].kind, outs[i].msg, outs[i].cur, tier)
				}
			}(i)
		}
		wg.Wait()
	}
	total := &result{Classes: map[string]int{}}
	hashes := map[uint64]bool{}
	for i, o := range outs {
		if o.res != nil {
			total.Evals += o.res.Evals
			total.Inconclusive += o.res.Inconclusive
			total.Discarded += o.res.Discarded
			total.Exhausted = total.Exhausted || o.res.Exhausted
			for _, h := range o.res.Hashes {
				hashes[h] = true
			}
			for k, v := range o.res.Classes {
				total.Classes[k] += v
			}
			if len(total.Samples) < 4 {
				total.Samples = append(total.Samples, o.res.Samples...)
			}
		}
		if o.kind == "" || o.kind == "pass" || len(violations) > 0 {
			continue
		}
		if o.kind == "error" {
			errorExit = fmt.Sprintf("shard %d: %s", i, o.msg)
			continue
		}
		if o.kind == "hang" && !p.opts.HangIsBug {
			errorExit = fmt.Sprintf("shard %d: case did not finish: %s\n%s", i, trunc(string(o.cur), 500), trunc(o.msg, 4000))
			continue
		}
		i := i
		confirm(replayFile{Property: p.id, Message: o.kind + ": " + o.msg, Case: o.cur, Seed: o.seed, Kind: o.kind}, func() shardOut { return runShard(i) })
	}
	if len(total.Samples) > 4 {
		total.Samples = total.Samples[:4]
	}
	samples := []any{}
	for _, s := range total.Samples {
		samples = append(samples, s)
	}
	ev := map[string]any{
		"property": p.id, "tier": tier, "seed": int64(base), "level": "exploration",
		"coverage": map[string]any{
			"evaluations": total.Evals, "distinct_nontrivial": len(hashes), "rule": p.opts.Rule,
			"samples": samples, "classes": total.Classes, "shards": b.Shards,
			"regression_cases": regress, "known_findings_reproduced": known,
			"inconclusive": total.Inconclusive, "discarded": total.Discarded, "stopped_by_time_budget": total.Exhausted, "notes": notes,
		},
		"assumptions": p.opts.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(violations),
	}
	if p.opts.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(root, "evidence", p.id+".json"), eb, 0o644)
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	if len(violations) > 0 {
		return 1
	}
	if errorExit != "" {
		fmt.Println("ERROR:", errorExit)
		return 2
	}
	if total.Evals == 0 || (total.Inconclusive*2 > total.Evals) {
		fmt.Println("ERROR: nothing decided")
		return 2
	}
	fmt.Printf("OK property=%s tier=%s cases=%d nontrivial=%d wall=%.1fs\n", p.id, tier, total.Evals, len(hashes), time.Since(start).Seconds())
	return 0
}

// fast reports whether PBT_FAST is set: a development mode (used to measure
// the checks against many small changes) that stops at the first confirmed
// failure and does not shrink it.
func fast() bool { return os.Getenv("PBT_FAST") != "" }

func fastKill(p *prop, root, kind, msg string, cur []byte, tier string) {
	path := filepath.Join(root, "replays", fmt.Sprintf("%s-%016x.json", p.id, hash64(cur)))
	writeReplay(path, replayFile{Property: p.id, Message: kind + ": " + msg, Case: cur, Kind: kind})
	for i := 0; i < 2; i++ {
		if k, _ := runReplay(p, path, tier, false); p.bad(k) {
			fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", trunc(kind+": "+msg, 600), p.id, path)
			os.Exit(1)
		}
	}
	os.Remove(path)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
