// Package hx is the harness: it registers generated checks ("subs") under a
// property id, runs each with rapid under a pinned seed, counts what was
// generated, and saves the inputs of the (shrunk) failing case as a replay.
package hx

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Sub is one generated check of a property.
type Sub struct {
	ID, Name string
	N        int // cases in the quick tier
	Journal  bool
	Race     bool // run under the race detector
	Fn       func(c *C)
	Rule     string // how cases are made and what makes one non-trivial
}

var subs []*Sub

// Reg registers a sub.
func Reg(id, name string, n int, rule string, fn func(c *C)) *Sub {
	s := &Sub{ID: id, Name: name, N: n, Fn: fn, Rule: rule}
	subs = append(subs, s)
	return s
}

// Known is a recorded genuine defect: Probe reports whether it still fails.
type Known struct {
	ID    string // property
	Key   string // identifies the entry in known-findings.jsonl
	Probe func() (fails bool, what string)
}

var knowns []*Known

func RegKnown(id, key string, probe func() (bool, string)) {
	knowns = append(knowns, &Known{id, key, probe})
}

// C is the context of one generated case.
type C struct {
	*rapid.T
	st    *stats
	dumps []dump
	jr    string
	again *Again
	Local map[string]any // what the check keeps for the case
}

// Again runs a check's function several times on the same draws, to compare
// what it produces. The function's own verdicts are set aside.
type Again struct {
	tape  []drawn
	pos   int
	play  bool
	seen  []Seen
	keep  []kept
	fault string
}

type kept struct {
	name   string
	v      any
	before string
}

type drawn struct {
	label string
	v     any
}

// Seen is something a run produced.
type Seen struct{ Name, V string }

type stopped struct{ why string }

// Replayer prepares repeated runs of functions on the draws of the first run.
func (c *C) Replayer() *Again { return &Again{} }

// Run runs fn. The first run draws; the following ones repeat its draws. It
// returns what was produced and how the run ended ("" if fn returned).
func (a *Again) Run(c *C, fn func(c *C)) (seen []Seen, end string) {
	sub := &C{T: c.T, jr: c.jr, again: a, st: &stats{nt: map[uint64]struct{}{}, classes: map[string]int{}, excluded: map[string]int{}}}
	a.pos, a.seen, a.keep, a.fault = 0, nil, nil, ""
	defer func() {
		seen = a.seen
		if !a.play {
			c.dumps = append(c.dumps, sub.dumps...)
		}
		a.play = true
		if r := recover(); r != nil {
			if t := reflect.TypeOf(r); strings.Contains(t.PkgPath(), "rapid") || t.Kind() == reflect.Pointer && strings.Contains(t.Elem().PkgPath(), "rapid") {
				panic(r)
			}
			end = fmt.Sprint(r)
			if s, ok := r.(stopped); ok {
				end = s.why
			}
		}
	}()
	fn(sub)
	return
}

// See records something the run produced, where runs are compared.
func (c *C) See(name string, v any) {
	if c.again != nil {
		b, ok := v.([]byte)
		if !ok {
			b = []byte(Show(v))
		}
		c.again.seen = append(c.again.seen, Seen{name, string(b)})
	}
}

// Emits records what emit produced and, where runs are compared, has it emit
// a second time.
func (c *C) Emits(name string, b []byte, emit func() ([]byte, error)) {
	c.Dump(name, b)
	if c.again == nil {
		return
	}
	if b2, err := emit(); err != nil || string(b2) != string(b) {
		c.again.fault = fmt.Sprintf("emitting %s a second time gives %d other bytes (%d before, error %v)", name, len(b2), len(b), err)
	}
}

// Fault returns what Emits found.
func (a *Again) Fault() string { return a.fault }

// Keep notes that v must be the same at the end of the run, where runs are
// compared.
func (c *C) Keep(name string, v any) {
	if c.again != nil {
		c.again.keep = append(c.again.keep, kept{name, v, showArg(v)})
	}
}

func showArg(v any) string {
	if b, ok := v.([]byte); ok {
		return string(b)
	}
	return Show(v)
}

// Changed returns the first value handed to Keep that changed since.
func (a *Again) Changed() (name, before, after string, changed bool) {
	for _, k := range a.keep {
		if now := showArg(k.v); now != k.before {
			return k.name, k.before, now, true
		}
	}
	return
}

// Fn returns the function of a registered sub.
func Fn(id, name string) func(c *C) {
	for _, s := range subs {
		if s.ID == id && s.Name == name {
			return s.Fn
		}
	}
	panic("no sub " + id + "/" + name)
}

// Repeated tells whether the case runs under a Replayer.
func (c *C) Repeated() bool { return c.again != nil }

func clone(v any) any {
	if b, ok := v.([]byte); ok {
		return append([]byte{}, b...)
	}
	return v
}

// Draw draws a value. Every draw goes through it.
func Draw[V any](c *C, g *rapid.Generator[V], label string) V {
	a := c.again
	if a == nil || !a.play {
		v := g.Draw(c.T, label)
		if a != nil {
			a.tape = append(a.tape, drawn{label, clone(v)})
		}
		return v
	}
	if a.pos < len(a.tape) && a.tape[a.pos].label == label {
		if v, ok := a.tape[a.pos].v.(V); ok {
			a.pos++
			return clone(v).(V)
		}
	}
	panic(stopped{"draws " + label + " next, unlike the first run"})
}

type dump struct {
	name string
	b    []byte
}

type stats struct {
	mu       sync.Mutex
	evals    int
	nt       map[uint64]struct{}
	classes  map[string]int
	excluded map[string]int
	samples  []string
	lastKey  string
}

// NT marks the case non-trivial; key identifies it for distinctness.
func (c *C) NT(key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	c.st.nt[h.Sum64()] = struct{}{}
	if len(c.st.samples) < 4 && (len(c.st.nt) == 3 || len(c.st.nt) == 11 || len(c.st.nt) == 37 || len(c.st.nt) == 101) {
		if len(key) > 600 {
			key = key[:600] + "..."
		}
		c.st.samples = append(c.st.samples, strings.ToValidUTF8(key, "?"))
	}
}

// Class counts the case under a label.
func (c *C) Class(label string) { c.st.classes[label]++ }
func (c *C) ClassIf(cond bool, label string) {
	if cond {
		c.st.classes[label]++
	}
}

// Excluded counts a draw replaced because it would hit a known finding.
func (c *C) Excluded(label string) { c.st.excluded[label]++ }

// Dump records an input of the case; it is saved if the case fails.
func (c *C) Dump(name string, b []byte) {
	c.dumps = append(c.dumps, dump{name, append([]byte(nil), b...)})
	c.See(name, c.dumps[len(c.dumps)-1].b)
	if c.jr != "" {
		os.WriteFile(filepath.Join(c.jr, name), b, 0o644)
	}
}

// Fail reports a violation.
func (c *C) Fail(format string, args ...any) {
	if c.again != nil {
		panic(stopped{"fails"})
	}
	c.Helper()
	c.Fatalf("%s", clip(fmt.Sprintf(format, args...)))
}

func clip(s string) string {
	s = strings.ToValidUTF8(s, "?")
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return s
}

func env(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return def
}

func cpu() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

var (
	curMu    sync.Mutex
	curCase  *C
	curStart time.Duration
)

// ExitRunaway is the exit code for a case that exceeds the CPU or memory bound.
const ExitRunaway = 7

func watchdog(replay string) {
	lim := 60 * time.Second
	if n, err := strconv.Atoi(os.Getenv("VERIF_CASE_CPU")); err == nil {
		lim = time.Duration(n) * time.Second
	}
	var last *C
	ticks := 0
	for {
		time.Sleep(100 * time.Millisecond)
		curMu.Lock()
		c, st := curCase, curStart
		curMu.Unlock()
		if c != last {
			last, ticks = c, 0
		}
		if c == nil {
			continue
		}
		ticks++
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		why := ""
		if d := cpu() - st; d > lim {
			why = fmt.Sprintf("case used %v of CPU time (limit %v)", d, lim)
		} else if ms.HeapAlloc > 3<<30 {
			why = fmt.Sprintf("case holds %d MB of heap (limit 3072 MB)", ms.HeapAlloc>>20)
		}
		if why == "" && ticks > 2000 && cpu()-st < 10*time.Second {
			why = "case neither works nor ends: it is waiting for something that does not happen"
		}
		if why != "" {
			save(replay, c)
			fmt.Printf("RUNAWAY %s\n", why)
			// a dump of a very deep stack can take minutes: it gets ten seconds
			runtime.LockOSThread()
			cmd := exec.Command("/bin/sh", "-c", fmt.Sprintf("sleep 10; kill -9 %d", os.Getpid()))
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			if cmd.Start() == nil {
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				os.WriteFile(filepath.Join(replay, "runaway.txt"), []byte(why+"\n\n"+string(buf[:n])), 0o644)
				cmd.Process.Kill()
			}
			os.Exit(ExitRunaway)
		}
	}
}

func save(dir string, c *C) {
	if dir == "" {
		return
	}
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0o755)
	for i, d := range c.dumps {
		os.WriteFile(filepath.Join(dir, fmt.Sprintf("%02d-%s", i, d.name)), d.b, 0o644)
	}
}

type Out struct {
	Evaluations int
	NonTrivial  int
	Rule        string
	Classes     map[string]int
	Excluded    map[string]int
	Samples     []string
	Failed      bool
	Known       []string // lines of known findings that still fail
	Unlisted    []string // probes that fail but are not listed
}

// List prints the subs of a property as JSON.
func List() {
	type item struct {
		ID, Name string
		N        int
		Race     bool
	}
	var l []item
	for _, s := range subs {
		l = append(l, item{s.ID, s.Name, s.N, s.Race})
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].ID < l[j].ID })
	json.NewEncoder(os.Stdout).Encode(l)
}

// RunKnown runs the known-finding probes of a property.
func RunKnown(id string) {
	type res struct {
		Key   string
		Fails bool
		What  string
	}
	out := []res{}
	for _, k := range knowns {
		if k.ID == id {
			f, w := probe(k)
			out = append(out, res{k.Key, f, w})
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

func probe(k *Known) (f bool, w string) {
	defer func() {
		if r := recover(); r != nil {
			f, w = true, fmt.Sprintf("panic: %v", r)
		}
	}()
	return k.Probe()
}

// Run executes the sub named by VERIF_SUB.
func Run(t *testing.T) {
	want := os.Getenv("VERIF_SUB")
	if want == "" {
		t.Skip("VERIF_SUB not set")
	}
	debug.SetMaxStack(256 << 20)
	for _, s := range subs {
		if s.ID+"/"+s.Name == want {
			runSub(t, s)
			return
		}
	}
	t.Fatalf("no sub %s", want)
}

func runSub(t *testing.T, s *Sub) {
	n := s.N
	if v, err := strconv.Atoi(os.Getenv("VERIF_CHECKS")); err == nil {
		n = v
	}
	if n < 1 {
		n = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.shrinktime", env("VERIF_SHRINK", "15s"))
	replay := os.Getenv("VERIF_REPLAY_DIR")
	jr := ""
	if s.Journal {
		jr = os.Getenv("VERIF_JOURNAL_DIR")
	}
	st := &stats{nt: map[uint64]struct{}{}, classes: map[string]int{}, excluded: map[string]int{}}
	go watchdog(replay)
	defer func() {
		o := Out{Evaluations: st.evals, NonTrivial: len(st.nt), Rule: s.Rule, Classes: st.classes, Excluded: st.excluded, Samples: st.samples, Failed: t.Failed()}
		b, _ := json.Marshal(o)
		if p := os.Getenv("VERIF_OUT"); p != "" {
			os.WriteFile(p, b, 0o644)
		} else {
			fmt.Printf("%s\n", b)
		}
	}()
	rapid.Check(t, func(rt *rapid.T) {
		c := &C{T: rt, st: st, jr: jr}
		st.evals++
		now := cpu()
		curMu.Lock()
		curCase, curStart = c, now
		curMu.Unlock()
		ok := false
		defer func() {
			curMu.Lock()
			curCase = nil
			curMu.Unlock()
			if !ok {
				save(replay, c)
			}
		}()
		s.Fn(c)
		ok = !rt.Failed()
	})
}
