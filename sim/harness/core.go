// Command harness drives the simulated interpreter: it generates runs from a
// seed, executes them in worker processes, judges them, minimises violations
// and writes replay files and evidence.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	gmnlisp "github.com/hymkor/gmnlisp"
	"github.com/hymkor/gmnlisp/zz_verif/simos"
	"github.com/hymkor/gmnlisp/zz_verif/simrt"
)

// ---- pseudo random numbers ----

type Rand struct{ s uint64 }

func newRand(parts ...any) *Rand {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return &Rand{h.Sum64()}
}

func (r *Rand) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rand) P(percent int) bool      { return r.N(100) < percent }
func (r *Rand) Range(lo, hi int) int    { return lo + r.N(hi-lo+1) }
func (r *Rand) Str(ss ...string) string { return ss[r.N(len(ss))] }
func (r *Rand) Fork() *Rand             { return &Rand{r.U64()} }

// W picks an index with the given weights.
func (r *Rand) W(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.N(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

// ---- plans and results ----

// Plan is one run: a pure function of it and the code decides everything.
type Plan struct {
	Check string          `json:"check"`
	Tier  string          `json:"tier"`
	Seed  uint64          `json:"seed"`
	Idx   int             `json:"idx"`
	Data  json.RawMessage `json:"data"`
}

type Result struct {
	Viol   string         `json:"viol,omitempty"` // violation class, "" when the property held
	Msg    string         `json:"msg,omitempty"`
	Detail string         `json:"detail,omitempty"`
	Hash   string         `json:"hash"`            // of the event log
	Inter  string         `json:"inter,omitempty"` // identity of the interleaving or fault placement
	Key    string         `json:"key,omitempty"`   // identity of a non-trivial case, "" when trivial
	Faults map[string]int `json:"faults,omitempty"`
	Probes map[string]int `json:"probes,omitempty"`
	Steps  uint64         `json:"steps"`
	SimNs  int64          `json:"simns"`
	Evals  int            `json:"evals"`
	Sample string         `json:"sample,omitempty"`
}

// Run collects the observations of one run.
type Run struct {
	Result
	log []string
	h   uint64
}

func newRun() *Run {
	return &Run{Result: Result{Faults: map[string]int{}, Probes: map[string]int{}}, h: 14695981039346656037}
}

func (r *Run) Log(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	for i := 0; i < len(s); i++ {
		r.h = (r.h ^ uint64(s[i])) * 1099511628211
	}
	r.h = (r.h ^ 10) * 1099511628211
	if len(r.log) < 4000 {
		r.log = append(r.log, s)
	}
}

func (r *Run) Probe(name string)         { r.Probes[name]++ }
func (r *Run) Fault(name string)         { r.Faults[name]++ }
func (r *Run) FaultN(name string, n int) { r.Faults[name] += n }

// Fail records the first violation of the run.
func (r *Run) Fail(class, format string, a ...any) {
	if r.Viol == "" {
		r.Viol = class
		r.Msg = fmt.Sprintf(format, a...)
	}
}

func (r *Run) finish() *Result {
	r.Hash = fmt.Sprintf("%016x", r.h)
	if r.Viol != "" || os.Getenv("SIM_DETAIL") != "" {
		r.Detail = strings.Join(r.log, "\n")
	}
	return &r.Result
}

func hashOf(parts ...any) string {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprint(h, p, "\x00")
	}
	return fmt.Sprintf("%016x", h.Sum64())
}

// ---- checks ----

type Check struct {
	ID      string
	Race    bool
	Stmts   bool
	Fresh   bool // every run has a process of its own
	Quick   int  // runs
	Thor    int
	Rule    string
	Level   string
	Real    []string
	Stub    []string
	Assume  []string
	gen     func(r *Rand, idx int, tier string) any
	exec    func(data json.RawMessage, r *Run)
	shrink  func(data json.RawMessage) []json.RawMessage
	explain func(data json.RawMessage) string
	alone   func(data json.RawMessage, i int) []string // part i of a run in a process of its own
}

var checks = map[string]*Check{}

// register adds a check whose plans are of type T.
func register[T any](c Check, gen func(*Rand, int, string) *T, exec func(*T, *Run), shrink func(*T) []*T, explain func(*T) string) {
	c.gen = func(r *Rand, i int, tier string) any { return gen(r, i, tier) }
	dec := func(d json.RawMessage) *T {
		t := new(T)
		if err := json.Unmarshal(d, t); err != nil {
			panic(err)
		}
		return t
	}
	c.exec = func(d json.RawMessage, r *Run) { exec(dec(d), r) }
	c.shrink = func(d json.RawMessage) []json.RawMessage {
		if shrink == nil {
			return nil
		}
		var out []json.RawMessage
		for _, x := range shrink(dec(d)) {
			b, _ := json.Marshal(x)
			if len(b) <= len(d)+8 && string(b) != string(d) {
				out = append(out, b)
			}
		}
		return out
	}
	c.explain = func(d json.RawMessage) string {
		if explain == nil {
			return string(d)
		}
		return explain(dec(d))
	}
	if c.Level == "" {
		c.Level = "exploration"
	}
	checks[c.ID] = &c
}

func makePlan(c *Check, tier string, seed uint64, idx int) *Plan {
	d := c.gen(newRand("plan", c.ID, seed, idx), idx, tier)
	b, err := json.Marshal(d)
	if err != nil {
		panic(err)
	}
	return &Plan{Check: c.ID, Tier: tier, Seed: seed, Idx: idx, Data: b}
}

var warmOnce sync.Once

// warmUp does what the interpreter does once per process.
func warmUp() {
	simos.Reset(nil, -1, nil)
	w := gmnlisp.New()
	for _, f := range strings.Fields(libraryNames) {
		guard(func() { w.Interpret(context.Background(), "(ignore-errors ("+f+"))") })
	}
	intern(preamble + wrapDefs + strings.Join(wraps, " "))
	for _, f := range []string{"(defmacro x (a) a) (x 1)", "(let ((x (list 1 2))) (setf (car x) 3) (setf (elt x 1) 2) (setf x 1))", "(defclass x () ())", "(block a (with-handler (lambda (c) (return-from a 1)) (error \"x\")))",
		"(let ((h (make-hash-table))) (setf (gethash 1 h) 2) (case-using #'= 1 ((1) 1)) (incf h))"} {
		guard(func() { w.Interpret(context.Background(), f) })
	}
	intern("set-car set-cdr set-gethash set-aref set-elt set-property set-dynamic set-caar set-nth set-subseq")
}

// libraryNames are the embedded functions and macros.
const libraryNames = `1+ 1- caar cadddr caddr cadr case-using cdddr cddr cerror decf dolist dotimes error first for incf max min nth nthcdr
prog1 prog2 rest second set-assoc set-cadddr set-caddr set-cadr set-cdddr set-cddr set-dynamic set-elt set-nth set-nthcdr set-setq set-subseq
setf swap-elt swap-subseq third unless when property set-property remove-property`

// intern makes the symbols of a text known to the process, so that the number
// of steps of an execution does not depend on what ran before it.
func intern(text string) {
	guard(func() { gmnlisp.New().Interpret(context.Background(), "'("+text+"\n)") })
}

// execute runs one plan in this process.
func execute(p *Plan) (res *Result) {
	c := checks[p.Check]
	if !c.Fresh {
		warmOnce.Do(warmUp)
	}
	r := newRun()
	races := simrt.RaceErrors()
	defer func() {
		if e := recover(); e != nil {
			simrt.End()
			r.Fail("panic", "panic outside of the interpreter's own protection: %v\n%s", e, debug.Stack())
		}
		if n := simrt.RaceErrors() - races; n > 0 {
			r.Fail("data-race", "the race detector reported %d race(s)", n)
		}
		res = r.finish()
	}()
	c.exec(p.Data, r)
	return
}

// ---- helpers shared by the checks ----

// guard runs fn under the simulator and returns its panic value.
func guard(fn func()) (p any, stack string) {
	defer func() {
		if p = recover(); p != nil {
			stack = string(debug.Stack())
		}
	}()
	fn()
	return
}

func panicText(p any) string {
	switch v := p.(type) {
	case error:
		return v.Error()
	default:
		return fmt.Sprint(v)
	}
}

// frames keeps the interpreter's own frames of a stack trace.
func frames(stack string) string {
	var out []string
	for _, l := range strings.Split(stack, "\n") {
		if strings.Contains(l, ".go:") && !strings.Contains(l, "zz_verif") && !strings.Contains(l, "/runtime/") {
			out = append(out, strings.TrimSpace(l))
			if len(out) == 4 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

func begin(limit uint64, mapSeed uint64) {
	simrt.Start(simrt.Config{Limit: limit, Now: 1_700_000_000_000_000_000, Map: mapSeed})
}

func (r *Run) end() {
	simrt.End()
	r.Steps += simrt.Steps()
	r.SimNs += simrt.Mono() - 1_000_000_000
	for k, v := range simos.Fired() {
		if v > 0 {
			r.Faults[k] += v
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness: "+format+"\n", a...)
	os.Exit(2)
}

func jsonText(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}
