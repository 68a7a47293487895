package main

import (
	"context"
	"fmt"
	"strings"

	gmnlisp "github.com/hymkor/gmnlisp"
	"github.com/hymkor/gmnlisp/zz_verif/simos"
)

// Checks C03, C17 and C18: generated control-flow programs with injected
// failures of host functions and of the standard input, compared step by step
// with the reference model.

type CtlPlan struct {
	P      *Prog    `json:"p"`
	Faults []HFault `json:"f,omitempty"`
	In     []string `json:"in,omitempty"` // lines of the standard input; "!" = the read fails here
	Map    uint64   `json:"map,omitempty"`

	Call *CallPlan `json:"call,omitempty"` // instead of the program
}

// ctlModel runs the model with the given treatment of plain errors.
func (p *CtlPlan) model(point map[string]bool, probe func(string)) (*model, string) {
	m := newModel()
	m.point = point
	m.probe = probe
	for _, f := range p.P.Fns {
		m.fns[f.Name] = f
	}
	for _, f := range p.Faults {
		m.faults[f.At] = f.Kind
	}
	m.in = [][]string{append([]string{}, p.In...)}
	v, s := m.eval(p.P.Main, nil)
	return m, m.outcome(v, s)
}

// setStdin makes the standard input deliver one line per read, with the faults.
func setStdin(lines []string) []simos.Fault {
	var fs []simos.Fault
	var b strings.Builder
	n := 0
	for _, l := range lines {
		n++
		if l == "!" {
			fs = append(fs, simos.Fault{Op: "read", Path: "stdin", Nth: n, Err: "EIO"})
			continue
		}
		b.WriteString(l + "\n")
	}
	simos.Reset(fs, -1, []int{3})
	simos.SetStdin(b.String())
	return fs
}

func ctlExplain(p *CtlPlan) string {
	if p.Call != nil {
		return preamble + wrapDefs + callDefs + "\n" + p.Call.String()
	}
	var b strings.Builder
	b.WriteString(preambleOf(p.P.String()) + "\n" + p.P.String() + "\n")
	for _, f := range p.Faults {
		fmt.Fprintf(&b, "; host call %d: %s\n", f.At, f.Kind)
	}
	if len(p.In) > 0 {
		fmt.Fprintf(&b, "; standard input: %q (! = read error)\n", p.In)
	}
	return b.String()
}

func ctlShrink(p *CtlPlan) []*CtlPlan {
	var out []*CtlPlan
	if p.Call != nil {
		for _, c := range p.Call.smaller() {
			q := *p
			q.Call = c
			out = append(out, &q)
		}
		return out
	}
	for i := range p.Faults {
		q := *p
		q.Faults = append(append([]HFault{}, p.Faults[:i]...), p.Faults[i+1:]...)
		out = append(out, &q)
	}
	if len(p.In) > 0 {
		q := *p
		q.In = nil
		out = append(out, &q)
	}
	if p.Map != 0 {
		q := *p
		q.Map = 0
		out = append(out, &q)
	}
	for _, s := range p.P.smaller() {
		q := *p
		q.P = s
		out = append(out, &q)
	}
	for i, f := range p.Faults {
		if f.At > 1 {
			q := *p
			q.Faults = append([]HFault{}, p.Faults...)
			q.Faults[i].At--
			out = append(out, &q)
		}
	}
	return out
}

func ctlGen(w weights, ways []string, want func(notes map[string]int) bool) func(r *Rand, idx int, tier string) *CtlPlan {
	return func(r *Rand, idx int, tier string) *CtlPlan {
		if ways != nil && r.P(30) {
			return &CtlPlan{Call: genCall(r, ways), Map: r.U64() >> 12}
		}
		var last *CtlPlan
		for try := 0; try < 40; try++ {
			g := &gen{r: r, w: w}
			if tier == "thorough" && r.P(30) {
				g.limit = 110
			}
			p := &CtlPlan{P: g.program(), Map: r.U64() >> 12}
			for i, n := 0, r.N(4); i < n; i++ {
				p.In = append(p.In, fmt.Sprintf("S%d", i+1))
			}
			if len(p.In) > 0 && r.P(30) {
				k := r.N(len(p.In))
				p.In = append(p.In[:k:k], append([]string{"!"}, p.In[k:]...)...)
			}
			m, out := p.model(allModes[0], nil)
			if out == "unspecified" {
				last = p
				continue
			}
			if m.calls > 0 && r.P(65) {
				for i, n := 0, r.W(0, 5, 2, 1); i < n; i++ {
					p.Faults = append(p.Faults, HFault{At: 1 + r.N(m.calls), Kind: r.Str("err", "err", "dom")})
				}
			}
			notes := map[string]int{}
			_, out = p.model(allModes[0], func(s string) { notes[s]++ })
			last = p
			if out != "unspecified" && want(notes) {
				return p
			}
		}
		return last
	}
}

func ctlExec(want func(map[string]int) bool) func(p *CtlPlan, r *Run) {
	return func(p *CtlPlan, r *Run) {
		if p.Call != nil {
			p.Call.exec(p, r)
			return
		}
		notes := map[string]int{}
		m, out := p.model(allModes[0], func(s string) { notes[s]++ })
		if out == "unspecified" {
			r.Probe("discarded: " + m.unspec)
			r.Log("discarded")
			return
		}
		setStdin(p.In)
		host = &hostSide{faults: map[int]string{}, fired: r.Faults}
		for _, f := range p.Faults {
			host.faults[f.At] = f.Kind
		}
		begin(0, p.Map)
		defer r.end()
		w := gmnlisp.New()
		ctx := context.Background()
		defs := ""
		for _, f := range p.P.Fns {
			defs += f.String() + "\n"
		}
		if s := evalText(w, ctx, preambleOf(p.P.String())+"\n"+defs+" 0"); s != "value 0" {
			r.Fail("definitions", "the definitions of the program fail: %s", s)
			return
		}
		got := evalText(w, ctx, p.P.Main.String())
		for _, l := range host.log {
			r.Log("%s", l)
		}
		r.Log("%s", got)
		var first string
		for i, mode := range allModes {
			if i > 0 {
				m, out = p.model(mode, nil)
			}
			if out == "unspecified" || (out == got && sameLog(m.log, host.log)) {
				first = ""
				if out == "unspecified" {
					r.Probe("unspecified in another mode")
				}
				break
			}
			if i == 0 {
				first = describeDiff(m.log, host.log, out, got)
			}
		}
		if first != "" {
			r.Fail(diffClass(got, out, m.log, host.log), "%s", first)
		}
		for k := range notes {
			r.Probe(k)
		}
		if want(notes) {
			r.Key = hashOf(p.P.String(), p.Faults)
			r.Inter = hashOf(strings.Join(host.log, " "), got)
		}
	}
}

func sameLog(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func diffClass(got, want string, wl, gl []string) string {
	if strings.HasPrefix(got, "crash") {
		return "crash"
	}
	if got == "no end" {
		return "no-end"
	}
	return "differs"
}

func describeDiff(wl, gl []string, want, got string) string {
	n := 0
	for n < len(wl) && n < len(gl) && wl[n] == gl[n] {
		n++
	}
	at := func(l []string) string {
		if n < len(l) {
			return l[n]
		}
		return "nothing"
	}
	s := ""
	if n < len(wl) || n < len(gl) {
		s = fmt.Sprintf("after %d equal host calls the next is %s instead of %s; ", n, at(gl), at(wl))
	}
	return s + fmt.Sprintf("result: %s, expected: %s", got, want)
}

var baseWeights = weights{"atom": 2, "h": 3, "setq": 2, "let": 3, "progn": 4, "if": 3, "rep": 4, "block": 6, "leave": 8, "catch": 4, "tagbody": 3, "unwind": 4,
	"dynlet": 4, "setdyn": 2, "handler": 4, "ignore": 3, "error": 5, "call": 6, "funcall": 3, "mapcar": 2, "labels": 2, "exit": 1, "winput": 2, "readline": 2, "cond": 1, "prog1": 1, "wrap": 4, "and": 1}

func (w weights) with(kv ...any) weights {
	o := weights{}
	for k, v := range w {
		o[k] = v
	}
	for i := 0; i < len(kv); i += 2 {
		o[kv[i].(string)] = kv[i+1].(int)
	}
	return o
}

var realAll = []string{"the interpreter (reader, evaluator, library, conditions, streams) as in /repo's working tree"}
var stubAll = []string{"os, time, os/exec, flag, filepath.Glob: in-memory file system, clock and processes", "order of map iteration", "host functions written by the harness"}

func init() {
	cleanup := func(n map[string]int) bool {
		for k := range n {
			if strings.HasPrefix(k, "cleanup-on-") && k != "cleanup-on-normal" {
				return true
			}
		}
		return false
	}
	register(Check{ID: "C03", Quick: 24000, Thor: 900000,
		Rule: "a generated program with unwind-protect, executed under injected failures of host calls and input reads, whose cleanup forms run on at least one abnormal exit; distinct by program text and fault placement",
		Real: realAll, Stub: stubAll},
		ctlGen(baseWeights.with("unwind", 20, "handler", 3, "exit", 2), nil, cleanup), ctlExec(cleanup), ctlShrink, ctlExplain)

	handled := func(n map[string]int) bool { return n["handler-called"] > 0 || n["ignored"] > 0 }
	register(Check{ID: "C17", Quick: 24000, Thor: 900000,
		Rule: "a generated program in which at least one condition (from Lisp, the runtime or an injected host failure) reaches a handler or ignore-errors; distinct by program text and fault placement",
		Real: realAll, Stub: stubAll},
		ctlGen(baseWeights.with("handler", 16, "ignore", 4, "error", 12, "unwind", 3, "exit", 1), callWays17, handled), ctlExec(handled), ctlShrink, ctlExplain)

	exits := func(n map[string]int) bool {
		return n["block-left"]+n["caught"]+n["went"] > 0 || n["no-destination"] > 0
	}
	register(Check{ID: "C18", Quick: 24000, Thor: 900000,
		Rule: "a generated program that executes at least one nonlocal exit; distinct by program text and fault placement",
		Real: realAll, Stub: stubAll},
		ctlGen(baseWeights.with("leave", 18, "catch", 8, "block", 9, "tagbody", 6, "dynlet", 6, "winput", 4, "readline", 4, "ignore", 4, "mapcar", 4, "exit", 2), callWays18, exits), ctlExec(exits), ctlShrink, ctlExplain)
}
