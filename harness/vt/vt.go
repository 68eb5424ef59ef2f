// Package vt is the property-checking engine: rapid generates and shrinks a
// plain-data case, Run executes it against the code under test and an oracle.
// Cases are JSON, so a shrunk failure is a replay file that bypasses rapid.
package vt

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"maps"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Ctx is handed to Run. All methods must be called from the goroutine running
// the case, except Class.
type Ctx struct {
	mu         sync.Mutex
	dir        string
	nontrivial bool
	classes    map[string]int
	spec       string
	excluded   bool
	errorsOK   bool
	kept       []kept
	offered    int
	stride     int
}

// kept is something the code under test gave, which must stay what it was.
type kept struct {
	what  string
	still func() bool
}

// Keep remembers something that the code under test has given, and looks at the
// end of the case whether it still is what it was. Of many things some are kept.
func (c *Ctx) Keep(what string, still func() bool) {
	c.stride = max(1, c.stride)
	if c.offered++; c.offered%c.stride > 0 {
		return
	}
	c.kept = append(c.kept, kept{what, still})
	if len(c.kept) < 200 {
		return
	}
	for i := range 100 {
		c.kept[i] = c.kept[2*i+1]
	}
	c.kept, c.stride = c.kept[:100], 2*c.stride
}

// KeepSlice keeps a slice.
func KeepSlice[T comparable](c *Ctx, what string, given []T) {
	was := slices.Clone(given)
	c.Keep(what, func() bool { return slices.Equal(given, was) })
}

// KeepMap keeps a map.
func KeepMap[K, V comparable](c *Ctx, what string, given map[K]V) {
	was := maps.Clone(given)
	c.Keep(what, func() bool { return maps.Equal(given, was) })
}

// CheckKept looks at what is kept, and keeps it no longer.
func (c *Ctx) CheckKept() {
	for _, k := range c.kept {
		if !k.still() {
			c.Failf("%s: it changes after it has been given", k.what)
		}
	}
	c.kept, c.offered, c.stride = nil, 0, 0
}

// Failure is what a broken oracle panics with.
type Failure struct{ Msg string }

// HarnessError is an environment trouble, never a violation.
type HarnessError struct{ Msg string }

func (c *Ctx) Failf(format string, a ...any) { panic(Failure{fmt.Sprintf(format, a...)}) }
func Harnessf(format string, a ...any)       { panic(HarnessError{fmt.Sprintf(format, a...)}) }

// NoErr fails the property when an operation that must succeed returns an error.
func (c *Ctx) NoErr(err error, format string, a ...any) {
	if err != nil && c.errorsOK {
		panic(reported{err})
	}
	if err != nil {
		c.Failf("%s: unexpected error: %v", fmt.Sprintf(format, a...), err)
	}
}

type reported struct{ err error }

// Tolerate runs f, in which something may be wrong with the machine: it may end
// early, by an error or a panic of the code under test, which is returned, but
// must not give a wrong answer.
func (c *Ctx) Tolerate(f func()) (err error) {
	was := c.errorsOK
	c.errorsOK = true
	defer func() {
		c.errorsOK = was
		switch x := recover().(type) {
		case nil:
		case Failure, HarnessError:
			panic(x)
		case reported:
			err = x.err
		default:
			err = fmt.Errorf("it panics: %v", x)
		}
	}()
	f()
	return nil
}

// NonTrivial marks the case as non-trivial by the check's rule.
func (c *Ctx) NonTrivial() { c.nontrivial = true }

// Class counts the case under a label in the evidence.
func (c *Ctx) Class(l string) {
	c.mu.Lock()
	c.classes[l]++
	c.mu.Unlock()
}
func (c *Ctx) ClassIf(b bool, l string) {
	if b {
		c.Class(l)
	}
}

// Parallel runs f(0) to f(n-1) at the same time, each with a context of its own
// (of which only the directory is not to be used).
func (c *Ctx) Parallel(n int, f func(i int, c *Ctx)) {
	subs, bad := make([]*Ctx, n), make([]any, n)
	var wg sync.WaitGroup
	for i := range n {
		subs[i] = &Ctx{classes: map[string]int{}, spec: c.spec}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				switch x := recover().(type) {
				case nil, Failure, HarnessError:
					bad[i] = x
				default:
					m := fmt.Sprintf("panic: %v\n%s", x, trimStack(string(debug.Stack())))
					bad[i] = Failure{m}
				}
			}()
			f(i, subs[i])
			subs[i].CheckKept()
		}()
	}
	wg.Wait()
	for i := range n {
		if bad[i] != nil {
			panic(bad[i])
		}
		for l, k := range subs[i].classes {
			c.classes[l] += k
		}
		c.nontrivial = c.nontrivial || subs[i].nontrivial
	}
}

// Dir returns a fresh scratch directory for the case, removed afterwards.
func (c *Ctx) Dir() string {
	if c.dir == "" {
		d, err := os.MkdirTemp(scratch(), "case")
		if err != nil {
			Harnessf("mkdtemp: %v", err)
		}
		c.dir = d
	}
	return c.dir
}

// SubDir returns a fresh directory below Dir.
func (c *Ctx) SubDir(name string) string {
	d := filepath.Join(c.Dir(), name)
	if err := os.MkdirAll(d, 0o755); err != nil {
		Harnessf("mkdir: %v", err)
	}
	return d
}

func scratch() string {
	if s := os.Getenv("VT_SCRATCH"); s != "" {
		return s
	}
	return os.TempDir()
}

// Spec is one sub-check of a property.
type Spec struct {
	Name     string
	Rule     string
	Quick    int // cases per run in the quick tier, over all shards
	Thorough int
	HangSec  int // a case that takes longer never ends: a violation (0: 200)
	drawJSON func(t *rapid.T) []byte
	runJSON  func(c *Ctx, b []byte)
}

func New[T any](name, rule string, quick, thorough int, gen func(t *rapid.T) T, run func(c *Ctx, v T)) *Spec {
	s := &Spec{Name: name, Rule: rule, Quick: quick, Thorough: thorough}
	s.drawJSON = func(t *rapid.T) []byte {
		v := gen(t)
		b, err := json.Marshal(v)
		if err != nil {
			Harnessf("marshal: %v", err)
		}
		return b
	}
	s.runJSON = func(c *Ctx, b []byte) {
		var v T
		if err := json.Unmarshal(b, &v); err != nil {
			Harnessf("unmarshal: %v", err)
		}
		run(c, v)
	}
	return s
}

// Hang says after how long a case is taken to never end.
func (s *Spec) Hang(sec int) *Spec { s.HangSec = sec; return s }

type specResult struct {
	Name         string         `json:"name"`
	Rule         string         `json:"rule"`
	Evaluations  int            `json:"evaluations"`
	NonTrivial   []string       `json:"nontrivial"` // digests, merged by the runner
	Classes      map[string]int `json:"classes"`
	Samples      []string       `json:"samples"`
	StoppedEarly bool           `json:"stopped_early"`
}

type replay struct {
	Property string          `json:"property"`
	Spec     string          `json:"spec"`
	Message  string          `json:"message"`
	Shrunk   bool            `json:"shrunk"`
	Case     json.RawMessage `json:"case"`
}

type outFile struct {
	Specs   []specResult `json:"specs"`
	Failure *replay      `json:"failure"`
	Error   string       `json:"error"`
}

type tbT struct {
	failed bool
	said   string
}

type tbStop struct{}

func (t *tbT) Helper()                   {}
func (t *tbT) Name() string              { return "vt" }
func (t *tbT) Logf(string, ...any)       {}
func (t *tbT) Log(...any)                {}
func (t *tbT) Skipf(string, ...any)      {}
func (t *tbT) Skip(...any)               {}
func (t *tbT) SkipNow()                  {}
func (t *tbT) Errorf(f string, a ...any) { t.failed = true; t.said = fmt.Sprintf(f, a...) }
func (t *tbT) Error(...any)              { t.failed = true }
func (t *tbT) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(tbStop{}) }
func (t *tbT) Fatal(...any)              { t.failed = true; panic(tbStop{}) }
func (t *tbT) FailNow()                  { t.failed = true; panic(tbStop{}) }
func (t *tbT) Fail()                     { t.failed = true }
func (t *tbT) Failed() bool              { return t.failed }

type caseMark struct {
	spec  *Spec
	start time.Time
	b     []byte
}

var current atomic.Pointer[caseMark]

// runCase executes one case; returns "" or the failure message.
func runCase(s *Spec, b []byte) (msg string, ctx *Ctx) {
	ctx = &Ctx{classes: map[string]int{}, spec: s.Name}
	current.Store(&caseMark{s, time.Now(), b})
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case Failure:
				msg = e.Msg
			case HarnessError:
				panic(e)
			default:
				msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
				if isEnv(msg) {
					panic(HarnessError{msg})
				}
			}
			if isEnv(msg) {
				panic(HarnessError{msg})
			}
		}
		if p := os.Getenv("VT_SLOW"); p != "" { // for whoever works on the harness
			if d := time.Since(current.Load().start); d > 5*time.Second {
				if f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
					fmt.Fprintln(f, s.Name, d)
					f.Close()
				}
			}
		}
		current.Store(nil)
		if ctx.dir != "" {
			cleanup(ctx.dir)
		}
	}()
	s.runJSON(ctx, b)
	ctx.CheckKept()
	return
}

func isEnv(m string) bool {
	for _, s := range []string{"no space left on device", "too many open files", "cannot allocate memory", "disk quota exceeded"} {
		if strings.Contains(m, s) {
			return true
		}
	}
	return false
}

func cleanup(dir string) {
	base := scratch()
	if strings.HasPrefix(dir, base+"/case") {
		_ = os.RemoveAll(dir)
	}
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "rapid") && !strings.Contains(l, "/repo/") {
			break
		}
		out = append(out, l)
		if len(out) > 60 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Main is the entry of every property binary.
//
//	VT_OUT=file VT_SEED=n VT_SHARD=i VT_SHARDS=k VT_TIER=quick|thorough VT_DEADLINE=sec [VT_REPLAY=file] [VT_ONLY=spec]
func Main(property string, specs ...*Spec) {
	realErr := os.Stderr
	devnull, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		fmt.Fprintln(realErr, "no /dev/null")
		os.Exit(3)
	}
	realOut := os.Stdout
	os.Stdout = devnull
	testing.Init()
	_ = flag.CommandLine.Parse(nil)

	outPath := os.Getenv("VT_OUT")
	var out outFile
	write := func() {
		b, _ := json.Marshal(out)
		if outPath != "" {
			tmp := outPath + ".tmp"
			if err := os.WriteFile(tmp, b, 0o644); err != nil {
				fmt.Fprintln(realErr, "cannot write result:", err)
				os.Exit(3)
			}
			_ = os.Rename(tmp, outPath)
		}
	}
	if rp := os.Getenv("VT_REPLAY"); rp != "" {
		b, err := os.ReadFile(rp)
		if err != nil {
			fmt.Fprintln(realErr, err)
			os.Exit(3)
		}
		var r replay
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Fprintln(realErr, err)
			os.Exit(3)
		}
		for _, s := range specs {
			if s.Name == r.Spec {
				go watchdog(property, &out, write)
				msg, _ := runCase(s, r.Case)
				if msg != "" {
					fmt.Fprintf(realOut, "REPLAY FAILED property=%s spec=%s: %s\n", property, s.Name, msg)
					os.Exit(1)
				}
				fmt.Fprintf(realOut, "REPLAY PASSED property=%s spec=%s\n", property, s.Name)
				os.Exit(0)
			}
		}
		fmt.Fprintln(realErr, "unknown spec", r.Spec)
		os.Exit(3)
	}

	if p := os.Getenv("VT_PROFILE"); p != "" { // for whoever works on the harness
		if f, err := os.Create(p); err == nil {
			_ = pprof.StartCPUProfile(f)
		}
	}
	seed := envInt("VT_SEED", 1)
	shard := envInt("VT_SHARD", 0)
	shards := envInt("VT_SHARDS", 1)
	thorough := os.Getenv("VT_TIER") == "thorough"
	deadline := time.Now().Add(time.Duration(envInt("VT_DEADLINE", 600)) * time.Second)
	only := os.Getenv("VT_ONLY")
	journal := os.Getenv("VT_JOURNAL")

	_ = flag.Set("rapid.nofailfile", "true")
	_ = flag.Set("rapid.shrinktime", "20s")
	if s := os.Getenv("VT_SHRINK"); s != "" {
		_ = flag.Set("rapid.shrinktime", s)
	}

	go watchdog(property, &out, write)

	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(HarnessError); ok {
				out.Error = h.Msg
			} else {
				out.Error = fmt.Sprintf("%v\n%s", r, debug.Stack())
			}
			write()
			os.Exit(3)
		}
	}()

	// one result record per spec
	type state struct {
		s     *Spec
		todo  int
		done  int
		seen  map[string]bool
		res   specResult
		batch int
	}
	var states []*state
	for _, s := range specs {
		if only != "" && only != s.Name {
			continue
		}
		n := s.Quick
		if thorough {
			n = s.Thorough
		}
		if x, err := strconv.ParseFloat(os.Getenv("VT_SCALE"), 64); err == nil { // for whoever works on the harness
			n = int(float64(n) * x)
		}
		todo := n / shards
		if shard < n%shards {
			todo++
		}
		states = append(states, &state{s: s, todo: todo, seen: map[string]bool{},
			res: specResult{Name: s.Name, Rule: s.Rule, Classes: map[string]int{}}})
	}
	finish := func() {
		for _, st := range states {
			for d := range st.seen {
				st.res.NonTrivial = append(st.res.NonTrivial, d)
			}
			sort.Strings(st.res.NonTrivial)
			out.Specs = append(out.Specs, st.res)
		}
		write()
	}
	for {
		progressed := false
		for si, st := range states {
			if st.done >= st.todo {
				continue
			}
			if time.Now().After(deadline) {
				st.res.StoppedEarly = true
				continue
			}
			progressed = true
			n := st.todo / 8
			if n < 1 {
				n = 1
			}
			if n > st.todo-st.done {
				n = st.todo - st.done
			}
			_ = flag.Set("rapid.checks", fmt.Sprint(n))
			_ = flag.Set("rapid.seed", fmt.Sprint(mix(seed, shard, si, st.batch, property)))
			st.batch++
			var best *replay
			failures := 0
			var hErr *HarnessError
			prop := func(t *rapid.T) {
				if hErr != nil {
					return
				}
				b := st.s.drawJSON(t)
				if journal != "" && failures == 0 {
					jb, _ := json.Marshal(replay{Property: property, Spec: st.s.Name, Message: "process died while running this case", Case: b})
					_ = os.WriteFile(journal, jb, 0o644)
				}
				var msg string
				var c *Ctx
				func() {
					defer func() {
						if r := recover(); r != nil {
							if h, ok := r.(HarnessError); ok {
								hErr = &h
								return
							}
							panic(r)
						}
					}()
					msg, c = runCase(st.s, b)
				}()
				if hErr != nil {
					return
				}
				if failures == 0 {
					st.res.Evaluations++
					for k, v := range c.classes {
						if v > 0 {
							st.res.Classes[k]++
						}
					}
					if c.nontrivial {
						h := sha256.Sum256(b)
						d := hex.EncodeToString(h[:8])
						if !st.seen[d] {
							st.seen[d] = true
							if len(st.res.Samples) < 2 && len(st.seen)%3 == 0 {
								st.res.Samples = append(st.res.Samples, clip(string(b), 1500))
							}
						}
					}
				}
				if msg != "" {
					failures++
					if best == nil || len(b) < len(best.Case) {
						best = &replay{Property: property, Spec: st.s.Name, Message: msg, Shrunk: failures > 1, Case: append([]byte(nil), b...)}
					}
					t.Fatalf("violation")
				}
			}
			tb := &tbT{}
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(tbStop); !ok {
							panic(r)
						}
					}
				}()
				rapid.Check(tb, prop)
			}()
			if hErr != nil {
				panic(*hErr)
			}
			if best != nil {
				out.Failure = best
				finish()
				os.Exit(1)
			}
			if tb.failed {
				panic(HarnessError{"generator of " + st.s.Name + " rejected too many cases: " + tb.said})
			}
			st.done += n
		}
		if !progressed {
			break
		}
	}
	finish()
	pprof.StopCPUProfile()
	os.Exit(0)
}

// watchdog turns a hang into a violation: what never answers does not answer rightly.
func watchdog(property string, out *outFile, write func()) {
	for {
		time.Sleep(time.Second)
		m := current.Load()
		if m == nil {
			continue
		}
		lim := m.spec.HangSec
		if lim == 0 {
			lim = 200
		}
		if time.Since(m.start) > time.Duration(lim)*time.Second {
			if current.Load() != m {
				continue
			}
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			out.Failure = &replay{Property: property, Spec: m.spec.Name,
				Message: fmt.Sprintf("did not finish within %d s\n%s", lim, clip(string(buf), 6000)), Case: m.b}
			write()
			os.Exit(1)
		}
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

func envInt(k string, d int) int {
	var n int
	if _, err := fmt.Sscan(os.Getenv(k), &n); err != nil {
		return d
	}
	return n
}

func mix(a ...any) uint64 {
	h := sha256.New()
	fmt.Fprintf(h, "%v", a)
	s := h.Sum(nil)
	var r uint64
	for i := 0; i < 8; i++ {
		r = r<<8 | uint64(s[i])
	}
	if r == 0 {
		r = 1
	}
	return r
}

var _ = io.EOF
