package main

import (
	"context"
	"fmt"
	"sort"
	"strings"

	gmnlisp "github.com/hymkor/gmnlisp"
	"github.com/hymkor/gmnlisp/zz_verif/simos"
)

// Check C04: file handles. Generated control-flow programs that open files in
// all ways are left in all ways while the file system fails; the number of
// open files is compared with the reference model at every host call and at
// the end.

type HandlePlan struct {
	P      *Prog         `json:"p"`
	Faults []HFault      `json:"f,omitempty"`
	Fs     []simos.Fault `json:"fs,omitempty"`
	Cut    *Cut          `json:"cut,omitempty"`
	Map    uint64        `json:"map,omitempty"`
	Odd    string        `json:"odd,omitempty"` // in place of P: forms with strange arguments
}

// oddHandles makes a text that opens files with with-open-... only, with all
// kinds of names, file names and bodies. Afterwards no file may be open.
func oddHandles(r *Rand, d int) string {
	name := r.Str("s", "s", "s", "x", "5", "\"s\"", "(s)", "nil", "t", ":s", "(h1 1)", "'s", "#\\s", "|s|")
	file := r.Str("\"f1\"", "\"f1\"", "\"f2\"", "\"oo\"", "(h2 \"f1\")", "\"none\"", "5", "nil", "'f1", "(car 5)", "(progn (h3 3) \"f1\")", "(throw 'zc \"f1\")", "(return-from zb 1)", "(open-none)")
	param := r.Str("(%s %s)", "(%s %s)", "(%s %s)", "(%s %s)", "(%s %s 8)", "(%s %s . 8)", "(%s . %s)", "%s", "(%s)", "()", "((%s %s))")
	if r.P(60) {
		name = r.Str("s", "s", "x")
		file = r.Str("\"f1\"", "\"f1\"", "\"f2\"", "\"oo\"", "(h2 \"f1\")")
		param = "(%s %s)"
	}
	switch strings.Count(param, "%s") {
	case 2:
		param = fmt.Sprintf(param, name, file)
	case 1:
		param = fmt.Sprintf(param, name)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "(with-open-%s-file %s", r.Str("input", "input", "output"), param)
	for i := r.W(2, 4, 3, 1); i > 0; i-- {
		b.WriteByte(' ')
		switch r.W(5, 3, 4, 3) {
		case 0:
			b.WriteString(r.Str("1", "s", "x", "(h4 1)", "(car 5)", "(h5 (read-line s nil 0))", "(h6 (read-char s nil 0))", "(format s \"out ~a\" (h7 1))", "(close s)", "(setq s nil)", "(setq s 5)", "(setq x s)",
				"(throw 'zc s)", "(return-from zb s)", "(go zg)", "(exit)", "(abort)", "(error \"x\")", "(nofn)", "novar", "(cerror \"a\" \"b\")", "(throw 'nowhere 1)", "(return-from nowhere 1)", "(x . y)", "(h8 (lambda () s))", "(while t (h9 (read s)))"))
		case 1, 2:
			if d < 4 {
				b.WriteString(oddHandles(r, d+1))
			} else {
				b.WriteString("(h4 2)")
			}
		case 3:
			b.WriteString(strings.Replace(oddAround(r), "@", r.Str("(h4 3)", "(car 6)", "(throw 'zc 2)", "(return-from zb 2)", "(close s)"), 1))
		}
	}
	if r.P(4) {
		b.WriteString(" . 5")
	}
	b.WriteByte(')')
	if r.P(50) {
		return strings.Replace(oddAround(r), "@", b.String(), 1)
	}
	return b.String()
}

func oddAround(r *Rand) string {
	return r.Str("(with-handler (lambda (c) (continue-condition c 's)) @)", "(with-handler (lambda (c) (continue-condition c \"f2\")) @)", "(with-handler (lambda (c) (return-from zb 3)) @)",
		"(with-handler (lambda (c) (throw 'zc 4)) @)", "(with-handler (lambda (c) (h0 0) nil) @)", "(ignore-errors @)", "(unwind-protect @ (h0 1))", "(unwind-protect (h0 2) @)", "(catch 'zc @)", "(block zb @)", "(tagbody @ zg)",
		"(let ((s 1)) @)", "(let ((s @)) (h0 3) s)", "(mapcar (lambda (x) @) '(1 2))", "(eval '@)", "(dynamic-let ((d1 @)) @)", "((lambda (s) @) 2)", "(labels ((f (n) (if (= n 0) @ (f (- n 1))))) (f 2))",
		"(with-standard-input (create-string-input-stream \"z\") @)", "(progn @ (car 7))", "(list @ (h0 4))", "(dolist (x '(1 2)) @)", "(let ((n 0)) (while (< n 2) (setq n (+ n 1)) @))")
}

func (p *HandlePlan) main() string {
	if p.Odd != "" {
		return "(tagbody (catch 'zc (block zb " + p.Odd + ")) zg)"
	}
	return p.P.Main.String()
}

var handleFiles = map[string]int{"f1": 2, "f2": 1, "f3": 0}

func (p *HandlePlan) model(mode map[string]bool, probe func(string)) (*model, string) {
	m := newModel()
	m.point, m.probe = mode, probe
	m.fs = modelFS{faults: p.Fs, hits: make([]int, len(p.Fs)), lines: handleFiles, track: true}
	for _, f := range p.P.Fns {
		m.fns[f.Name] = f
	}
	for _, f := range p.Faults {
		m.faults[f.At] = f.Kind
	}
	v, s := m.eval(p.P.Main, nil)
	return m, m.outcome(v, s)
}

// modelSteps runs the model for its step count only.
func handleWant(n map[string]int) bool {
	for k := range n {
		if strings.HasPrefix(k, "left-by-") || k == "can-not-open" || k == "close-fails" || k == "read-fails" || k == "closed-twice" {
			return true
		}
	}
	return n["closed"] > 1
}

var handleWeights = baseWeights.with("wopen", 14, "wcreate", 14, "sopen", 8, "sio", 8, "sclose", 3, "winput", 0, "readline", 0, "setdyn", 0, "dynlet", 1,
	"leave", 14, "error", 6, "exit", 2, "mapcar", 2, "cond", 0, "prog1", 0, "and", 0)

func handleGen(r *Rand, idx int, tier string) *HandlePlan {
	if r.P(30) {
		p := &HandlePlan{Odd: oddHandles(r, 0), Map: r.U64() >> 12}
		if r.P(60) {
			p.Odd = "(progn " + p.Odd + " " + oddHandles(r, 0) + ")"
		}
		for i := r.W(3, 4, 1); i > 0; i-- {
			f := simos.Fault{Op: r.Str("open", "create", "read", "write", "close", "close", "write"), Nth: 1 + r.N(3), Err: r.Str("EIO", "EMFILE", "EACCES", "ENOSPC"), Keep: r.P(30)}
			p.Fs = append(p.Fs, f)
		}
		for i := r.W(3, 4, 1); i > 0; i-- {
			p.Faults = append(p.Faults, HFault{At: 1 + r.N(8), Kind: r.Str("err", "dom", "panic")})
		}
		switch r.W(5, 2, 3) {
		case 1:
			p.Cut = &Cut{Call: 1 + r.N(8), Deadline: r.P(30)}
		case 2:
			p.Cut = &Cut{Tick: uint64(1 + r.N(2000)), Deadline: r.P(30)}
		}
		return p
	}
	cut := r.P(25)
	w := handleWeights
	if cut {
		w = w.with("sopen", 0, "sclose", 1)
	}
	var p *HandlePlan
	for try := 0; try < 60; try++ {
		g := &gen{r: r, w: w}
		if tier == "thorough" && r.P(30) {
			g.limit = 110
		}
		p = &HandlePlan{P: g.program(), Map: r.U64() >> 12}
		m, out := p.model(allModes[0], nil)
		if out == "unspecified" || len(m.fs.streams) == 0 {
			continue
		}
		if r.P(60) {
			for i, n := 0, r.Range(1, 3); i < n; i++ {
				op := r.Str("open", "create", "read", "write", "close", "close", "write")
				f := simos.Fault{Op: op, Nth: 1 + r.N(3), Err: r.Str("EIO", "EMFILE", "EACCES")}
				if op == "write" {
					f.Err, f.Part = r.Str("EIO", "ENOSPC"), r.N(2)
				} else if op != "open" && op != "create" {
					f.Err = "EIO"
				}
				if r.P(50) && m.fs.streams != nil {
					f.Path = m.fs.streams[r.N(len(m.fs.streams))].file
				}
				p.Fs = append(p.Fs, f)
			}
		}
		if m.calls > 0 && r.P(40) {
			for i, n := 0, r.Range(1, 2); i < n; i++ {
				p.Faults = append(p.Faults, HFault{At: 1 + r.N(m.calls), Kind: r.Str("err", "dom", "panic")})
			}
		}
		if cut {
			if m.calls > 0 && r.P(40) {
				p.Cut = &Cut{Call: 1 + r.N(m.calls), Deadline: r.P(30)}
			} else {
				p.Cut = &Cut{Tick: uint64(1 + r.N(200+m.steps*25)), Deadline: r.P(30)}
			}
			return p
		}
		notes := map[string]int{}
		_, out = p.model(allModes[0], func(s string) { notes[s]++ })
		if out != "unspecified" && handleWant(notes) {
			return p
		}
	}
	return p
}

func handleExec(p *HandlePlan, r *Run) {
	notes := map[string]int{}
	defs := preamble + " " + wrapDefs + "\n"
	var m *model
	out := ""
	if p.Odd == "" {
		m, out = p.model(allModes[0], func(s string) { notes[s]++ })
		if p.Cut == nil && out == "unspecified" {
			r.Probe("discarded: " + m.unspec)
			r.Log("discarded")
			return
		}
		for _, f := range p.P.Fns {
			defs += f.String() + "\n"
		}
	}
	intern(defs + p.main())
	simos.Reset(append([]simos.Fault{}, p.Fs...), -1, []int{3})
	for f, n := range handleFiles {
		s := ""
		for i := 1; i <= n; i++ {
			s += fmt.Sprintf("%s%d\n", f[1:], i)
		}
		simos.Put(f, s)
	}
	host = &hostSide{faults: map[int]string{}, fired: r.Faults, note: func() string { return fmt.Sprintf(" (%d open)", simos.OpenHandles()) }}
	for _, f := range p.Faults {
		host.faults[f.At] = f.Kind
	}
	begin(0, p.Map)
	defer r.end()
	w := gmnlisp.New()
	if s := evalText(w, context.Background(), defs+" 0"); s != "value 0" {
		r.Fail("definitions", "the definitions of the program fail: %s", s)
		return
	}
	ctx, at := p.Cut.install(r)
	got := rxGensym.ReplaceAllString(evalText(w, ctx, p.main()), "?")
	for i := range host.log {
		host.log[i] = rxGensym.ReplaceAllString(host.log[i], "?")
	}
	for _, l := range host.log {
		r.Log("%s", l)
	}
	r.Log("%s, %d open", got, simos.OpenHandles())
	for _, e := range simos.Log() {
		r.Log("fs %s %s %d %s", e.Op, e.Path, e.Handle, e.Err)
	}
	if p.Odd != "" && (got == "no end" || strings.HasPrefix(got, "crash") && !strings.Contains(got, "host")) {
		r.Probe("discarded: " + clip(got, 30))
		r.Log("discarded")
		return
	}
	if p.Odd == "" && (strings.HasPrefix(got, "crash") || got == "no end") {
		r.Fail("crash", "%s", got)
		return
	}
	if p.Cut != nil || p.Odd != "" {
		if n := simos.OpenHandles(); n > 0 {
			r.Fail("leak", "%d file(s) opened by with-open-... are still open after an evaluation that ended with: %s", n, got)
		}
		if (p.Odd != "" || at() > 0) && len(simos.Log()) > 0 {
			r.Key = hashOf(p.main(), p.Fs, p.Faults, p.Cut)
			r.Inter = hashOf(strings.Join(host.log, " "), got, at())
		}
		if p.Odd != "" {
			r.Probe("strange forms: " + strings.Fields(got)[0])
		}
		return
	}
	first, class := "", ""
	for i, mode := range allModes {
		if i > 0 {
			m, out = p.model(mode, nil)
		}
		if out == "unspecified" || (out == got && sameLog(m.log, host.log) && m.fs.opened() == simos.OpenHandles()) {
			first = ""
			break
		}
		if i == 0 {
			first, class = describeDiff(m.log, host.log, out, got), diffClass(got, out, m.log, host.log)
			if out == got && sameLog(m.log, host.log) {
				class = "leak"
				first = fmt.Sprintf("%d file(s) are open at the end instead of %d", simos.OpenHandles(), m.fs.opened())
			}
		}
	}
	if first != "" {
		r.Fail(class, "%s", first)
	}
	for k := range notes {
		r.Probe(k)
	}
	if handleWant(notes) {
		r.Key = hashOf(p.P.String(), p.Faults, p.Fs)
		r.Inter = hashOf(strings.Join(host.log, " "), got)
	}
}

func fsFaultText(fs []simos.Fault) string {
	var b strings.Builder
	for _, f := range fs {
		fmt.Fprintf(&b, "; file system: call %d of %s on %q fails with %s", f.Nth, f.Op, f.Path, f.Err)
		if f.Op == "readat" {
			fmt.Fprintf(&b, " at offset %d", f.Off)
		}
		if f.Part > 0 {
			fmt.Fprintf(&b, " after %d byte(s)", f.Part)
		}
		if f.Keep {
			b.WriteString(" from then on")
		}
		b.WriteByte('\n')
	}
	return b.String()
}

func handleExplain(p *HandlePlan) string {
	s := p.main() + "\n" + jsonText(p.Faults) + "\n" + fsFaultText(p.Fs)
	if p.Odd == "" {
		s = ctlExplain(&CtlPlan{P: p.P, Faults: p.Faults}) + fsFaultText(p.Fs)
	}
	if p.Cut != nil {
		s += "; context: " + p.Cut.String() + "\n"
	}
	return s
}

func without[T any](s []T, i int) []T { return append(append([]T{}, s[:i]...), s[i+1:]...) }

func handleShrink(p *HandlePlan) []*HandlePlan {
	var out []*HandlePlan
	for i := range p.Faults {
		q := *p
		q.Faults = without(p.Faults, i)
		out = append(out, &q)
	}
	for i := range p.Fs {
		q := *p
		q.Fs = without(p.Fs, i)
		out = append(out, &q)
	}
	if p.Cut != nil {
		q := *p
		q.Cut = nil
		out = append(out, &q)
	}
	if p.Odd != "" {
		for _, t := range smallerText(p.Odd) {
			q := *p
			q.Odd = t
			out = append(out, &q)
		}
	} else {
		for _, s := range p.P.smaller() {
			q := *p
			q.P = s
			out = append(out, &q)
		}
	}
	if p.Cut != nil && p.Cut.Tick > 0 {
		for _, t := range []uint64{p.Cut.Tick / 2, p.Cut.Tick - 1} {
			q := *p
			c := *p.Cut
			c.Tick = t
			if t > 0 {
				q.Cut = &c
				out = append(out, &q)
			}
		}
	}
	return out
}

func init() {
	register(Check{ID: "C04", Quick: 24000, Thor: 900000,
		Rule: "a generated program that opens files and leaves a with-open-... form abnormally, meets a failing file operation, or closes a file more than once; distinct by program text and fault placement",
		Real: realAll, Stub: stubAll}, handleGen, handleExec, handleShrink, handleExplain)
}

// smallerText replaces forms of a text by one of their parts or by 1.
func smallerText(t string) []string {
	var out []string
	var open []int
	for i := 0; i < len(t); i++ {
		switch t[i] {
		case '"':
			for i++; i < len(t) && t[i] != '"'; i++ {
			}
		case '(':
			open = append(open, i)
		case ')':
			if len(open) == 0 {
				return out
			}
			from := open[len(open)-1]
			open = open[:len(open)-1]
			if from > 0 || i < len(t)-1 {
				out = append(out, t[from:i+1], t[:from]+"1"+t[i+1:], strings.TrimRight(t[:from], " ")+t[i+1:])
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return len(out[i]) < len(out[j]) })
	return out
}
