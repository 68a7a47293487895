package main

import (
	"context"
	"fmt"
	"sort"
	"strings"

	gmnlisp "github.com/hymkor/gmnlisp"
	"github.com/hymkor/gmnlisp/zz_verif/simos"
	"github.com/hymkor/gmnlisp/zz_verif/simrt"
)

// Check C02: aborted evaluations leave the interpreter as it was.

type Episode struct {
	Sets   []int    `json:"sets,omitempty"` // definitions and assignments made first: values of the names s0, s1, ...
	P      *Prog    `json:"p"`
	Wrap   []string `json:"wrap,omitempty"` // forms left open around the program
	Faults []HFault `json:"f,omitempty"`
	Cut    *Cut     `json:"cut,omitempty"`
	Tail   string   `json:"tail,omitempty"` // an abort at the end
	Nest   []string `json:"nest,omitempty"` // forms of a surrounding evaluation, from which a host function starts this one
}

// surroundForms are what is open in the surrounding evaluation.
var surroundForms = []string{
	"(dynamic-let ((d1 71) (d3 72)) @)", "(dynamic-let (d2 d3) @)", "(dynamic-let ((d2 73)) @)", "(block nb @)", "(block nil @)", "(catch 'nc @)", "(catch 1.0 @)", "(tagbody @ nt)", "(tagbody nt2 @)",
	"(with-standard-input (create-string-input-stream \"n1\nn2\nn3\nn4\nn5\nn6\nn7\nn8\n\") @)",
	"(with-handler (lambda (c) (h3 1) (return-from nb 5)) @)", "(with-handler (lambda (c) (h4 2) (throw 'nc 6)) @)", "(with-handler (lambda (c) (continue-condition c 7)) @)",
	"(ignore-errors @)", "(unwind-protect @ (h0 3))", "(unwind-protect (h0 3) @)", "(with-handler (lambda (cc) (list @ (continue-condition cc 8))) (cerror \"a\" \"b\"))",
	"(with-handler (lambda (cc) @ (return-from nb 9)) (car 5))", "(mapcar (lambda (x) @) '(1))", "((lambda (x) @) 1)", "(labels ((nf () @)) (nf))", "(let ((v (list @))) v)",
	"(progn (ignore-errors @) (h1 4))", "(list (h1 5) @ (h1 6))", "(eval '@)", "(for ((i 0 (+ i 1))) ((> i 0) 1) @)",
}

// surroundProbes are evaluated in the surrounding evaluation, before and after.
var surroundProbes = []string{
	"(list (dynamic d1) (dynamic d2))", "(dynamic d3)", "(error \"P1\")", "(cerror \"P2\" \"P3\")", "(car 5)", "(undefined-function-p 1)", "(read-line (standard-input))",
	"(return-from nb 1)", "(return-from nil 1)", "(throw 'nc 1)", "(throw 1.0 1)", "(go nt)", "(go nt2)", "(continue-condition cc 1)", "(if ec (continue-condition ec 1) (return-from nowhere 1))",
	"(block wb (return-from wb 3))", "(throw 'wc 1)", "(return-from wb 1)", "(ignore-errors (error \"P4\"))",
}

type RestorePlan struct {
	Eps  []*Episode `json:"eps"`
	Late bool       `json:"late,omitempty"` // nothing is evaluated before the first episode
	Map  uint64     `json:"map,omitempty"`
}

var openForms = []string{
	"(dynamic-let ((d1 (h5 61)) (d2 62)) @)", "(dynamic-let ((d3 63)) @)", "(dynamic-let ((d3 63) (d2 (h5 69)) (d3 67)) @)", "(dynamic-let ((d2 64)) (setf (dynamic d2) 65) @)",
	"(with-handler (lambda (c) (h6 1) (return-from wb 1)) @)", "(with-handler (lambda (c) (h6 2) (error \"in handler\")) @)",
	"(block wb (with-handler (lambda (c) (dynamic-let ((d1 66)) @)) (error \"x\")))",
	"(with-standard-input (create-string-input-stream \"wrong\nwrong\n\") @)", "(with-open-input-file (ws \"in.txt\") (with-standard-input ws @))",
	"(block wb @)", "(block nil @)", "(catch 'wc @)", "(tagbody wt @)", "(ignore-errors @)", "(unwind-protect @ 1)",
	"(catch 'c1 (block wb2 (tagbody wt2 @)))", "((lambda (x) @) 1)", "(mapcar (lambda (x) @) '(1 2))", "(labels ((wf () @)) (wf))",
	"(let ((x (list @))) x)", "(while t @)", "(dolist (x '(1 2 3)) @)", "(for ((i 0 (+ i 1))) ((> i 3) 1) @)",
	"(with-handler (lambda (c) (continue-condition c 7)) (cerror \"a\" \"b\") @)",
	"(block wb (with-handler (lambda (c) (setq ec c) (return-from wb 1)) (list @ (cerror \"a\" \"b\"))))", "(with-handler (lambda (c) (setq ec c) @) (cerror \"a\" \"b\"))",
	"(catch 'wc (with-handler (lambda (c) (setq ec c) (throw 'wc (list @))) (signal-condition (create (class <wc>)) t)))",
	"(with-open-output-file (wo \"out.txt\") @)", "(eval (quote @))", "(create (class <wi>))", "(wgen 1)", "(wmac @)", "((lambda () (wmac @)))", "(labels ((wf2 () (wmac @))) (wf2))",
	"(dynamic-let (d1 (d2 62)) @)", "(dynamic-let ((did (list 1 \"a\")) (dih (make-hash-table))) @)", "(dynamic-let ((did idl)) (setf (dynamic did) (list 1 \"a\")) @)", "(dynamic-let ((dis (create-string-input-stream \"id\")) (d3 1)) @)", "(dynamic-let (dih did dis) @)", "(dynamic-let (d3 d1) @)", "(dynamic-let (d2) (setf (dynamic d2) 65) @)", "(dynamic-let ((d1 66) d1 (d3 67)) @)", "(funcall wclos)",
}

func restoreGen(r *Rand, idx int, tier string) *RestorePlan {
	p := &RestorePlan{Late: r.P(25), Map: r.U64() >> 12}
	n := r.Range(1, 3)
	if tier == "thorough" {
		n = r.Range(1, 6)
	}
	for i := 0; i < n; i++ {
		p.Eps = append(p.Eps, episodeGen(r, i))
	}
	return p
}

func episodeGen(r *Rand, i int) *Episode {
	for {
		w := baseWeights.with("readline", 0, "setdyn", 0, "dynlet", 8, "handler", 7, "winput", 6, "block", 8, "catch", 6, "tagbody", 5, "leave", 4, "unwind", 3)
		g := &gen{r: r, w: w}
		p := g.program()
		c := &CtlPlan{P: p}
		m, out := c.model(allModes[0], nil)
		if out == "unspecified" || m.calls == 0 {
			continue
		}
		renameFns(p, fmt.Sprint("e", i))
		e := &Episode{P: p}
		for j := r.N(4); j > 0; j-- {
			e.Sets = append(e.Sets, r.N(900)+100)
		}
		for j := r.N(5); j > 0; j-- {
			e.Wrap = append(e.Wrap, openForms[r.N(len(openForms))])
		}
		calls := m.calls + len(e.Wrap) + 1
		switch r.W(4, 3, 3, 4, 3, 2) {
		case 0:
			e.Faults = append(e.Faults, HFault{At: 1 + r.N(calls), Kind: "err"})
		case 1:
			e.Faults = append(e.Faults, HFault{At: 1 + r.N(calls), Kind: "dom"})
		case 2:
			e.Faults = append(e.Faults, HFault{At: 1 + r.N(calls), Kind: "panic"})
		case 3:
			e.Cut = &Cut{Tick: uint64(1 + r.N(500+m.steps*25)), Deadline: r.P(30)}
			if r.P(20) {
				e.Cut.Tick += 9000 // past the startup
			}
		case 4:
			e.Cut = &Cut{Call: 1 + r.N(calls), Deadline: r.P(30)}
		}
		if r.P(20) {
			e.Sets = nil
			for j := r.Range(1, 5); j > 0; j-- {
				e.Nest = append(e.Nest, surroundForms[r.N(len(surroundForms))])
			}
		}
		if r.P(50) {
			e.Tail = r.Str("(error \"tail\")", "(exit)", "(abort)", "(car 5)", "(undefined-function)", "(return-from nowhere 1)", "(throw 'nowhere 1)", "(h7 1)",
				"(go nowhere)", "(signal-condition 5 nil)", "(cerror \"a\" \"b\")", "(quit)")
		}
		return e
	}
}

// renameFns makes the functions of a program its own.
func renameFns(p *Prog, prefix string) {
	names := map[string]bool{}
	for _, f := range p.Fns {
		names[f.Name] = true
	}
	var walk func(e *E)
	walk = func(e *E) {
		if e == nil {
			return
		}
		if (e.K == "call" || e.K == "rcall") && names[e.S] {
			e.S = prefix + e.S
		}
		for _, c := range e.A {
			walk(c)
		}
	}
	walk(p.Main)
	for _, f := range p.Fns {
		walk(f.Body)
		walk(f.Arg)
		f.Name = prefix + f.Name
	}
}

// definitions used by the open forms; evaluated in a healthy interpreter
const restoreDefs = `(defglobal ec nil) (defclass <wc> () ())
(defclass <wi> () ((s :initform (dynamic-let ((d1 1)) (h6 6)))))
(defgeneric wgen (x)) (defmethod wgen ((x <integer>)) (dynamic-let ((d2 2)) (with-handler (lambda (c) (h6 3) (error "w")) (h6 7))))
(defmacro wmac (x) (dynamic-let ((d1 3)) (h6 8)) x)
(defglobal idl (list 1 "a")) (defglobal ids (create-string-input-stream "id")) (defglobal idh (make-hash-table)) (defdynamic did idl) (defdynamic dis ids) (defdynamic dih idh)
(defglobal wclos (let ((n 1)) (lambda () (dynamic-let ((d3 4)) (h6 9)))))`

func (e *Episode) text(i int) string {
	var b strings.Builder
	for j, v := range e.Sets {
		switch j % 4 {
		case 0:
			fmt.Fprintf(&b, "(setf (dynamic d1) %d) ", v)
		case 1:
			fmt.Fprintf(&b, "(defglobal sg %d) (setq sh (lambda (x) (list x %d))) ", v, v)
		case 2:
			fmt.Fprintf(&b, "(defun sf (x) (+ x %d)) (defclass <sc> () ((s :initform (h0 %d) :initarg s :accessor scs))) ", v, v)
		case 3:
			fmt.Fprintf(&b, "(set-property %d 'sp 'q) (setf (dynamic d2) %d) (defmacro sm (x) `(list ,x %d)) ", v, v, v)
		}
	}
	s := e.P.Main.String()
	if e.Tail != "" {
		s = "(progn " + s + " " + e.Tail + ")"
	}
	for _, w := range e.Wrap {
		s = strings.Replace(w, "@", s, 1)
	}
	b.WriteString("(h8 'mark) ")
	for _, f := range e.P.Fns {
		b.WriteString(f.String() + " ")
	}
	b.WriteString(s)
	return b.String()
}

type probe struct{ code, want string }

// names used by a text as destinations of nonlocal exits.
func destinations(p *Prog, wrap []string) (blocks, catches, tags []string) {
	bs, cs, ts := map[string]bool{"nil": true}, map[string]bool{}, map[string]bool{}
	var walk func(e *E)
	walk = func(e *E) {
		if e == nil {
			return
		}
		switch e.K {
		case "block", "retfrom":
			bs[e.S] = true
		case "catch", "throw":
			cs[e.S] = true
		case "tag", "go":
			ts[e.S] = true
		}
		for _, a := range e.A {
			walk(a)
		}
	}
	walk(p.Main)
	for _, f := range p.Fns {
		walk(f.Body)
	}
	for _, w := range wrap {
		for _, n := range []string{"wb", "wb2"} {
			if strings.Contains(w, "(block "+n+" ") {
				bs[n] = true
			}
		}
		if strings.Contains(w, "'wc") {
			cs["wc"] = true
		}
		if strings.Contains(w, "'c1") {
			cs["c1"] = true
		}
		for _, n := range []string{"wt", "wt2"} {
			if strings.Contains(w, "tagbody "+n+" ") {
				ts[n] = true
			}
		}
	}
	return sortedKeys(bs), sortedKeys(cs), sortedKeys(ts)
}

func restoreExec(p *RestorePlan, r *Run) {
	base := preamble + " " + wrapDefs + " (defglobal sg 0) (defglobal sh nil) (defun sf (x) (+ x 0)) (defclass <sc> () ((s :initform (h0 0) :initarg s :accessor scs))) (defmacro sm (x) `(list ,x 0)) (set-property 0 'sp 'q)\n" + restoreDefs
	// what each program does in a fresh interpreter
	solo := func(e *Episode) (string, []string) {
		simos.Reset(nil, -1, []int{4})
		simos.Put("in.txt", "f1\nf2\n")
		host = &hostSide{faults: map[int]string{}}
		begin(300000, p.Map)
		defer simrt.End()
		w := gmnlisp.New()
		w.SetStdout(&simOut{})
		evalText(w, context.Background(), base)
		host.calls, host.log = 0, nil
		for _, f := range e.P.Fns {
			evalText(w, context.Background(), f.String())
		}
		out := evalText(w, context.Background(), e.P.Main.String())
		return out, host.log
	}
	want := make([]string, len(p.Eps))
	wlog := make([][]string, len(p.Eps))
	for i, e := range p.Eps {
		want[i], wlog[i] = solo(e)
		intern(e.text(i))
	}
	intern(base)

	simos.Reset(nil, -1, []int{4})
	simos.Put("in.txt", "f1\nf2\n")
	var in strings.Builder
	for i := 1; i < 400; i++ {
		fmt.Fprintf(&in, "line%d\n", i)
	}
	simos.SetStdin(in.String())
	host = &hostSide{faults: map[int]string{}, fired: r.Faults}
	begin(0, p.Map)
	defer r.end()
	w := gmnlisp.New()
	out := &simBuf{}
	w.SetStdout(out)
	bg := context.Background()
	ready := false
	setup := func() bool {
		if ready {
			return true
		}
		ready = true
		if s := evalText(w, bg, base+" 0"); s != "value 0" {
			r.Fail("definitions", "the definitions fail: %s", s)
			return false
		}
		return true
	}
	if !p.Late && !setup() {
		return
	}
	exp := map[string]int{"d1": 100, "d2": 200, "sg": 0, "sh": -1, "sf": 0, "sc": 0, "sm": 0, "sp": 0}
	apply := func(e *Episode) {
		for j, v := range e.Sets {
			for _, k := range [][]string{{"d1"}, {"sg", "sh"}, {"sf", "sc"}, {"sp", "d2", "sm"}}[j%4] {
				exp[k] = v
			}
		}
	}
	line := 0
	for i, e := range p.Eps {
		host.calls, host.log, host.hook, host.cancel = 0, nil, nil, nil
		host.faults = map[int]string{}
		for _, f := range e.Faults {
			host.faults[f.At] = f.Kind
		}
		if len(e.Nest) > 0 && !setup() {
			return
		}
		simrt.Extend(400000)
		var res string
		if len(e.Nest) > 0 {
			if !restoreNested(r, w, i, e, &res, &line) {
				return
			}
		} else {
			ctx, _ := e.Cut.install(r)
			res = evalText(w, ctx, e.text(i))
		}
		host.hook, host.faults = nil, map[int]string{}
		r.Log("episode %d: %v -> %s", i, host.log, res)
		r.Probe("aborted by " + strings.SplitN(strings.SplitN(res, ":", 2)[0], " ", 2)[0])
		simrt.Extend(400000)
		if strings.HasPrefix(res, "crash") {
			r.Fail("crash", "episode %d: %s", i, res)
			return
		}
		if res == "no end" {
			r.Probe("discarded: no end")
			r.Log("discarded")
			return
		}
		marked := false
		for _, l := range host.log {
			marked = marked || l == "h8:mark"
		}
		if !ready {
			if !setup() {
				return
			}
			for k := range exp {
				exp[k] = map[string]int{"d1": 100, "d2": 200, "sh": -1}[k]
			}
			if len(e.Sets) > 0 {
				r.Probe("definitions evaluated again")
			}
		} else if marked {
			apply(e)
		} else {
			// it is not known how far it came; do it again
			x := *e
			q := x.text(i)
			q = q[:strings.Index(q, "(h8 'mark)")] + " 0"
			if s := evalText(w, bg, q); s != "value 0" {
				r.Fail("definitions", "after episode %d the definitions fail: %s", i, s)
				return
			}
			apply(e)
			r.Probe("cut before the program")
		}
		line++
		bs, cs, ts := destinations(e.P, e.Wrap)
		probes := []probe{
			{"(list (dynamic d1) (dynamic d2))", fmt.Sprintf("value (%d %d)", exp["d1"], exp["d2"])},
			{"(dynamic d3)", "error undef:d3"},
			{"(error \"P1\")", "error text:P1"},
			{"(car 5)", "error dom"},
			{"(undefined-function-p 1)", "error undef:undefined-function-p"},
			{"(read-line (standard-input))", fmt.Sprintf("value \"line%d\"", line)},
			{"sg", fmt.Sprintf("value %d", exp["sg"])},
			{"(sf 1)", fmt.Sprintf("value %d", exp["sf"]+1)},
			{"(scs (create (class <sc>)))", fmt.Sprintf("value %d", exp["sc"])},
			{"(sm 1)", fmt.Sprintf("value (1 %d)", exp["sm"])},
			{"(property 'sp 'q)", fmt.Sprintf("value %d", exp["sp"])},
			{"(block pb (with-handler (lambda (c) (return-from pb 42)) (error \"P\")))", "value 42"},
			{"(with-handler (lambda (c) (continue-condition c 43)) (+ 1 (cerror \"P\" \"Q\")))", "value 44"},
			{"(let ((x 1)) (incf x) (list (nth 1 '(1 2 3)) (cadr '(1 2)) x (when t 3) (case-using #'= 1 ((1) 4))))", "value (2 2 2 3 4)"},
			{"(dynamic-let ((d3 5)) (dynamic d3))", "value 5"},
			{"(ignore-errors (error \"P\"))", "value nil"},
			{"(if ec (continue-condition ec 1) (return-from nowhere 1))", "error control"},
			{"(wgen 1)", "value 7"},
			{"(funcall wclos)", "value 9"},
			{"(list (eq (dynamic did) idl) (eq (dynamic dis) ids) (eq (dynamic dih) idh))", "value (t t t)"},
		}
		if exp["sh"] > 0 {
			probes = append(probes, probe{"(funcall sh 1)", fmt.Sprintf("value (1 %d)", exp["sh"])})
		}
		for _, b := range bs {
			probes = append(probes, probe{fmt.Sprintf("(return-from %s 1)", b), "error control"}, probe{fmt.Sprintf("(block %s (block %s (return-from %s 1)) 2)", b, b, b), "value 2"},
				probe{fmt.Sprintf("(return-from %s 1)", b), "error control"})
		}
		for _, c := range cs {
			probes = append(probes, probe{fmt.Sprintf("(throw %s 1)", tagText(c)), "error control"}, probe{strings.ReplaceAll("(catch @ (catch @ (throw @ 1)) 2)", "@", tagText(c)), "value 2"})
		}
		for _, g := range ts {
			probes = append(probes, probe{fmt.Sprintf("(go %s)", g), "error control"}, probe{fmt.Sprintf("(tagbody (go %s) 1 %s)", g, g), "value nil"})
		}
		for _, q := range probes {
			before := len(host.log)
			got := evalText(w, bg, q.code)
			if strings.HasPrefix(q.want, "error") && len(host.log) != before {
				r.Fail("handler-left", "after episode %d (%s) the evaluation of %s calls a handler left behind: %v", i, res, q.code, host.log[before:])
				return
			}
			if got != q.want {
				r.Fail("not-restored", "after episode %d (%s) the evaluation of %s gives %s instead of %s", i, res, q.code, got, q.want)
				return
			}
		}
		out.b = nil
		evalText(w, bg, "(format (standard-output) \"out~%\")")
		if string(out.b) != "out\n" {
			r.Fail("not-restored", "after episode %d (%s) the standard output receives %q", i, res, out.b)
			return
		}
		// the program again, undisturbed, must do what it does in a fresh interpreter
		if want[i] != "no end" {
			evalText(w, bg, "(setf (dynamic d1) 100) (setf (dynamic d2) 200) (setq ek 0)")
			host.calls, host.log = 0, nil
			for _, f := range e.P.Fns {
				evalText(w, bg, f.String())
			}
			got := evalText(w, bg, e.P.Main.String())
			if got != want[i] || !sameLog(host.log, wlog[i]) {
				r.Fail("not-restored", "after episode %d (%s) its program does not do what it does in a fresh interpreter: %s", i, res, describeDiff(wlog[i], host.log, want[i], got))
				return
			}
			evalText(w, bg, fmt.Sprintf("(setf (dynamic d1) %d) (setf (dynamic d2) %d)", exp["d1"], exp["d2"]))
		}
		r.Inter += hashOf(res, i, simrt.Ticks())
	}
	r.Key = hashOf(restoreExplain(p))
	r.Inter = hashOf(r.Inter)
}

// restoreNested lets a host function start the episode from within another
// evaluation, in which everything must be after it as it was before.
func restoreNested(r *Run, w *gmnlisp.World, i int, e *Episode, res *string, line *int) bool {
	code := "(hnest)"
	for _, f := range e.Nest {
		code = strings.Replace(f, "@", code, 1)
	}
	intern(code)
	faults := host.faults
	var ahead []string
	look := func(w *gmnlisp.World) []string {
		var a []string
		for _, c := range surroundProbes {
			before := len(host.log)
			s := evalText(w, context.Background(), c)
			if strings.HasPrefix(s, "value \"line") {
				*line++
				if s != fmt.Sprintf("value \"line%d\"", *line) {
					s = "wrong line " + s
				} else {
					s = "the next line of the standard input"
				}
			} else if strings.HasPrefix(s, "value \"n") {
				s = "a line of the surrounding input"
			}
			a = append(a, fmt.Sprintf("%s -> %s %v", c, s, host.log[before:]))
			host.log = host.log[:before]
		}
		return a
	}
	bad := ""
	run := func(do bool) (string, []string) {
		host.calls, host.log, host.faults = 0, nil, map[int]string{}
		nest = func(w *gmnlisp.World) {
			b := look(w)
			keep := append([]string{}, host.log...)
			if do {
				host.calls, host.faults, host.log = 0, faults, nil
				ctx, _ := e.Cut.install(r)
				*res = evalText(w, ctx, e.text(i))
				host.hook, host.faults = nil, map[int]string{}
				ahead = host.log
				r.Probe("started from within another evaluation")
			}
			host.log = keep
			simrt.Extend(400000)
			a := look(w)
			for j := range a {
				if a[j] != b[j] && bad == "" {
					bad = "before: " + b[j] + ", after: " + a[j]
				}
			}
		}
		defer func() { nest = nil }()
		s := evalText(w, context.Background(), code)
		return s, host.log
	}
	evalText(w, context.Background(), "(setq ec nil)")
	rb, lb := run(false)
	if bad != "" {
		r.Fail("harness", "nothing happens within %s, yet %s", code, bad)
		return false
	}
	ra, la := run(true)
	if *res == "no end" || strings.HasPrefix(*res, "crash") {
		return true
	}
	if bad != "" {
		r.Fail("not-restored", "episode %d (%s) started from within %s: %s", i, *res, code, bad)
		return false
	}
	if ra != rb || !sameLog(la, lb) {
		r.Fail("not-restored", "the evaluation around episode %d (%s), %s, does not end as it does without: %s", i, *res, code, describeDiff(lb, la, rb, ra))
		return false
	}
	host.log = ahead
	return true
}

// nest is what the special form (hnest) does.
var nest func(w *gmnlisp.World)

func init() {
	gmnlisp.Export(gmnlisp.NewSymbol("hnest"), gmnlisp.SpecialF(func(ctx context.Context, w *gmnlisp.World, n gmnlisp.Node) (gmnlisp.Node, error) {
		if nest != nil {
			nest(w)
		}
		return gmnlisp.Integer(0), nil
	}))
}

// simBuf keeps output.
type simBuf struct{ b []byte }

func (s *simBuf) Write(b []byte) (int, error) { s.b = append(s.b, b...); return len(b), nil }

func restoreExplain(p *RestorePlan) string {
	var b strings.Builder
	if p.Late {
		b.WriteString("; in a new interpreter:\n")
	}
	for i, e := range p.Eps {
		fmt.Fprintf(&b, "; episode %d\n%s\n; the context: %v\n", i, e.text(i), e.Cut)
		if len(e.Nest) > 0 {
			fmt.Fprintf(&b, "; started by a host function within %q\n", e.Nest)
		}
		for _, f := range e.Faults {
			fmt.Fprintf(&b, "; host call %d: %s\n", f.At, f.Kind)
		}
	}
	return b.String()
}

func restoreShrink(p *RestorePlan) []*RestorePlan {
	var out []*RestorePlan
	with := func(i int, f func(e *Episode)) {
		q := *p
		q.Eps = append([]*Episode{}, p.Eps...)
		e := *p.Eps[i]
		f(&e)
		q.Eps[i] = &e
		out = append(out, &q)
	}
	for i := range p.Eps {
		if len(p.Eps) > 1 {
			q := *p
			q.Eps = append(append([]*Episode{}, p.Eps[:i]...), p.Eps[i+1:]...)
			out = append(out, &q)
		}
	}
	if p.Late {
		q := *p
		q.Late = false
		out = append(out, &q)
	}
	if p.Map != 0 {
		q := *p
		q.Map = 0
		out = append(out, &q)
	}
	for i, e := range p.Eps {
		if e.Cut != nil {
			with(i, func(e *Episode) { e.Cut = nil })
			if e.Cut.Tick > 1 {
				for _, t := range []uint64{e.Cut.Tick / 2, e.Cut.Tick - e.Cut.Tick/10, e.Cut.Tick - 1} {
					with(i, func(e *Episode) { c := *e.Cut; c.Tick = t; e.Cut = &c })
				}
			}
		}
		if len(e.Faults) > 0 {
			with(i, func(e *Episode) { e.Faults = nil })
		}
		if len(e.Nest) > 0 {
			with(i, func(e *Episode) { e.Nest = nil })
		}
		for j := range e.Nest {
			with(i, func(e *Episode) { e.Nest = append(append([]string{}, e.Nest[:j]...), e.Nest[j+1:]...) })
		}
		if len(e.Sets) > 0 {
			with(i, func(e *Episode) { e.Sets = e.Sets[:len(e.Sets)-1] })
		}
		if e.Tail != "" {
			with(i, func(e *Episode) { e.Tail = "" })
		}
		for j := range e.Wrap {
			with(i, func(e *Episode) { e.Wrap = append(append([]string{}, e.Wrap[:j]...), e.Wrap[j+1:]...) })
		}
		for _, s := range e.P.smaller() {
			with(i, func(e *Episode) { e.P = s })
		}
		if len(e.Faults) > 0 && e.Faults[0].At > 1 {
			with(i, func(e *Episode) { f := e.Faults[0]; f.At--; e.Faults = []HFault{f} })
		}
	}
	return out
}

func init() {
	_ = sort.Strings
	register(Check{ID: "C02", Quick: 12000, Thor: 500000,
		Rule: "one to six evaluations on one interpreter, each with open binding, handler, redirection and control forms and an abort (injected error, condition or panic of a host function, cancellation or deadline at a step or in a host call, error, exit, abort), some of them started by a host function from within another evaluation, followed by probes (also in the surrounding evaluation) of everything that must be restored; distinct by programs and aborts",
		Real: realAll, Stub: stubAll},
		restoreGen, restoreExec, restoreShrink, restoreExplain)
}
