package main

import (
	"fmt"
	"strings"
)

// E is an expression of the small language in which control-flow programs are
// generated. It is rendered to Lisp for the interpreter and interpreted by the
// reference model in model.go.
type E struct {
	K string   `json:"k"`
	S string   `json:"s,omitempty"`
	N int      `json:"n,omitempty"`
	L []string `json:"l,omitempty"`
	A []*E     `json:"a,omitempty"`
}

// Fn is a top-level definition.
type Fn struct {
	Name string `json:"name"`
	Kind string `json:"kind"` // defun generic macro rec tailrec
	Body *E     `json:"body"`
	Arg  *E     `json:"arg,omitempty"` // argument of the recursive call
}

type Prog struct {
	Fns  []*Fn `json:"fns,omitempty"`
	Main *E    `json:"main"`
}

func seq(es []*E) string {
	var b strings.Builder
	for _, e := range es {
		b.WriteByte(' ')
		b.WriteString(e.String())
	}
	return b.String()
}

func arg(e *E, i int) *E {
	if i < len(e.A) {
		return e.A[i]
	}
	return &E{K: "nil"}
}
func rest(e *E, i int) []*E {
	if i < len(e.A) {
		return e.A[i:]
	}
	return nil
}

func nums(n int) string {
	s := make([]string, n)
	for i := range s {
		s[i] = fmt.Sprint(i + 1)
	}
	return strings.Join(s, " ")
}

// tagText is the form that gives a catch tag: a symbol or a literal.
func tagText(s string) string {
	switch {
	case s == "nil", s == "t", s[0] < 'a', s[0] > 'z', strings.HasPrefix(s, "tg"):
		return s
	}
	return "'" + s
}

// catchTag chooses a catch tag. Tags that merely resemble each other are
// different destinations.
func (g *gen) catchTag() string {
	if g.r.P(70) {
		return g.r.Str("c1", "c2", "c3")
	}
	return g.r.Str("c1", "'C1", "1", "1.0", "2", "\"c\"", "\"C\"", "#\\c", "#\\C", "nil", "t", "tgl", "tgm", "tgh", "tgs")
}

// wraps are forms that evaluate @ once and have its value. Control passes
// through them like through everything else.
var wraps = []string{
	"(case 1 ((1) @) (t 0))", "(case 3 ((1) 2) (t @))", "(case-using #'= 1 ((1) @) (t 0))", "(for ((wz @)) (t wz))", "(for ((wi 0 (+ wi 1)) (wz 0 @)) ((>= wi 1) wz))", "(for ((wi 0 (+ wi 1))) ((>= wi 0) @))",
	"(let ((wz 0)) (for ((wi 0 (+ wi 1))) ((>= wi 1) wz) (setq wz @)))", "(the <object> @)", "(assure <object> @)", "(prog2 1 @ 2)", "(elt (vector @) 0)", "(aref (vector 1 @) 1)",
	"(let ((wh (make-hash-table))) (setf (gethash 1 wh) @) (gethash 1 wh))", "(car (maplist (lambda (wq) @) '(1)))", "(car (mapcan (lambda (wq) (list @)) '(1)))", "(car (mapcon (lambda (wq) (list @)) '(1)))", "(let ((wz 0)) (mapc (lambda (wq) (setq wz @)) '(1)) wz)", "(let ((wz 0)) (mapl (lambda (wq) (setq wz @)) '(1)) wz)",
	"(eval (list 'quote @))", "(funcall (lambda (&rest wq) (car wq)) @ 2)", "(let ((wz 0)) (psetq wz @) wz)", "(let ((wz (list 1))) (setf (car wz) @) (car wz))", "(let ((wz (vector 1 2))) (setf (elt wz 1) @) (elt wz 1))", "(wrapx (create (class <wrapc>) 'x @))", "(progn (setq wrapf (lambda () @)) (wrapx (create (class <wrapd>))))",
	"(let ((wz (create (class <wrapc>) 'x 1))) (setf (wrapx wz) @) (wrapx wz))", "(wrapm 1 (lambda () @))", "(wrapm \"s\" (lambda () @))", "(car (reverse (list 1 @)))", "(cdr (cons 1 @))", "(car (append (list @) '(1)))", "(apply (lambda (wq) wq) (list @))", "(car (apply #'list @ '(2)))", "(cond (t @) (t 1))",
	"(let* ((wz @) (wy wz)) wy)", "(flet ((wf () @)) (wf))", "(labels ((wf (wn) (if (= wn 0) @ (wf (- wn 1))))) (wf 2))", "(nth 1 (list 1 @))", "(let ((wz 0)) (while (eql wz 0) (setq wz (list @))) (car wz))",
	"(if (not (functionp (lambda () 1))) 1 @)", "(when t 1 @)", "(unless nil 1 @)", "(wrapmac @)", "(wrapmac2 (lambda () @))", "(wrapgr 1 2 (lambda () @))", "(third (list 1 2 @))", "(car (subseq (list 1 @) 1 2))",
}

// wrapDefs are what wraps need.
const wrapDefs = `(defglobal wrapf 0) (defclass <wrapc> () ((x :initarg x :accessor wrapx))) (defclass <wrapd> (<wrapc>) ((x :initform (funcall wrapf)))) (defgeneric wrapm (a b)) (defmethod wrapm ((a <integer>) (b <function>)) (funcall b)) (defmethod wrapm ((a <string>) (b <object>)) (funcall b)) (defmacro wrapmac (x) (list 'progn 1 x)) (defmacro wrapmac2 (x) (list 'let (list (list 'wz (list 'funcall x))) 'wz)) (defgeneric wrapgr (a &rest r)) (defmethod wrapgr ((a <integer>) &rest (r <object>)) (funcall (car (cdr r)))) `

// preambleOf is what a program needs.
func preambleOf(text string) string {
	if strings.Contains(text, "wrap") {
		return preamble + " " + wrapDefs
	}
	return preamble
}

func (e *E) String() string {
	switch e.K {
	case "int":
		return fmt.Sprint(e.N)
	case "nil", "t":
		return e.K
	case "h":
		return fmt.Sprintf("(h%d %s)", e.N, arg(e, 0))
	case "var":
		return e.S
	case "setq":
		return fmt.Sprintf("(setq %s %s)", e.S, arg(e, 0))
	case "let":
		var b strings.Builder
		for i, n := range e.L {
			fmt.Fprintf(&b, "(%s %s)", n, arg(e, i))
		}
		return fmt.Sprintf("(let (%s)%s)", b.String(), seq(rest(e, len(e.L))))
	case "let*":
		var b strings.Builder
		for i, n := range e.L {
			fmt.Fprintf(&b, "(%s %s)", n, arg(e, i))
		}
		return fmt.Sprintf("(let* (%s)%s)", b.String(), seq(rest(e, len(e.L))))
	case "progn", "ignore", "and", "or":
		k := e.K
		if k == "ignore" {
			k = "ignore-errors"
		}
		return "(" + k + seq(e.A) + ")"
	case "prog1":
		return "(prog1" + seq(e.A) + ")"
	case "wrap":
		return strings.Replace(wraps[e.N%len(wraps)], "@", arg(e, 0).String(), 1)
	case "if":
		return fmt.Sprintf("(if %s %s %s)", arg(e, 0), arg(e, 1), arg(e, 2))
	case "when", "unless":
		return fmt.Sprintf("(%s%s)", e.K, seq(e.A))
	case "cond":
		return fmt.Sprintf("(cond (%s %s) (%s %s) (t %s))", arg(e, 0), arg(e, 1), arg(e, 2), arg(e, 3), arg(e, 4))
	case "rep":
		v := e.L[0]
		switch e.S {
		case "while":
			return fmt.Sprintf("(let ((%s 0)) (while (< %s %d)%s (setq %s (+ %s 1))) %s)", v, v, e.N, seq(e.A), v, v, v)
		case "dotimes":
			return fmt.Sprintf("(progn (dotimes (%s %d)%s) %d)", v, e.N, seq(e.A), e.N)
		case "dolist":
			return fmt.Sprintf("(progn (dolist (%s '(%s))%s) %d)", v, nums(e.N), seq(e.A), e.N)
		default:
			return fmt.Sprintf("(for ((%s 0 (+ %s 1))) ((>= %s %d) %s)%s)", v, v, v, e.N, v, seq(e.A))
		}
	case "block":
		return fmt.Sprintf("(block %s%s)", e.S, seq(e.A))
	case "retfrom":
		return fmt.Sprintf("(return-from %s %s)", e.S, arg(e, 0))
	case "return":
		return fmt.Sprintf("(return %s)", arg(e, 0))
	case "catch":
		return fmt.Sprintf("(catch %s%s)", tagText(e.S), seq(e.A))
	case "throw":
		return fmt.Sprintf("(throw %s %s)", tagText(e.S), arg(e, 0))
	case "tagbody":
		return fmt.Sprintf("(let ((%s %d)) (tagbody%s))", e.L[0], e.N, seq(e.A))
	case "tag":
		return e.S
	case "go":
		return fmt.Sprintf("(go %s)", e.S)
	case "gocnt":
		return fmt.Sprintf("(if (> %s 0) (progn (setq %s (- %s 1)) (go %s)))", e.L[0], e.L[0], e.L[0], e.S)
	case "unwind":
		return "(unwind-protect" + seq(e.A) + ")"
	case "dynlet":
		var b strings.Builder
		for i, n := range e.L {
			fmt.Fprintf(&b, "(%s %s)", n, arg(e, i))
		}
		return fmt.Sprintf("(dynamic-let (%s)%s)", b.String(), seq(rest(e, len(e.L))))
	case "dyn":
		return fmt.Sprintf("(dynamic %s)", e.S)
	case "setdyn":
		return fmt.Sprintf("(progn (setf (dynamic %s) %s) 0)", e.S, arg(e, 0))
	case "handler":
		return fmt.Sprintf("(with-handler (lambda (%s) %s)%s)", e.L[0], arg(e, 0), seq(rest(e, 1)))
	case "contif":
		return fmt.Sprintf("(if (> ek 0) (let ((k ek)) (setq ek 0) (continue-condition %s (if (= k 2) (list 7) 7))))", e.S)
	case "cont":
		if e.N == 1 {
			return fmt.Sprintf("(continue-condition %s (list %s))", e.S, arg(e, 0))
		}
		return fmt.Sprintf("(continue-condition %s %s)", e.S, arg(e, 0))
	case "err":
		return fmt.Sprintf("(error \"E%d\")", e.N)
	case "cerr":
		return fmt.Sprintf("(progn (setq ek 1) (cerror \"go on\" \"E%d\"))", e.N)
	case "cardom":
		return "(progn (setq ek 2) (car 5))"
	case "undefvar":
		return fmt.Sprintf("novar%d", e.N)
	case "undeffn":
		return fmt.Sprintf("(nofn%d)", e.N)
	case "badret":
		return fmt.Sprintf("(return-from nob%d 0)", e.N)
	case "badthrow":
		return fmt.Sprintf("(throw 'noc%d 0)", e.N)
	case "badgo":
		return fmt.Sprintf("(go nog%d)", e.N)
	case "call":
		return fmt.Sprintf("(%s %s)", e.S, arg(e, 0))
	case "rcall":
		return fmt.Sprintf("(%s %d %s)", e.S, e.N, arg(e, 0))
	case "funcall":
		return fmt.Sprintf("(funcall (lambda (%s)%s) %s)", e.L[0], seq(rest(e, 1)), arg(e, 0))
	case "apply":
		return fmt.Sprintf("(apply (lambda (%s)%s) (list %s))", e.L[0], seq(rest(e, 1)), arg(e, 0))
	case "mapcar":
		return fmt.Sprintf("(mapcar (lambda (%s)%s) '(%s))", e.L[0], seq(e.A), nums(e.N))
	case "labels", "flet":
		return fmt.Sprintf("(%s ((%s (%s) %s))%s)", e.K, e.S, e.L[0], arg(e, 0), seq(rest(e, 1)))
	case "exit", "abort", "quit":
		return "(" + e.K + ")"
	case "winput":
		return fmt.Sprintf("(with-standard-input (create-string-input-stream \"%s1\n%s2\n\")%s)", e.S, e.S, seq(e.A))
	case "readline":
		return "(read-line (standard-input) nil 'eof)"
	case "wopen":
		return fmt.Sprintf("(with-open-input-file (%s %q)%s)", e.L[0], e.S, seq(e.A))
	case "wcreate":
		return fmt.Sprintf("(with-open-output-file (%s %q)%s)", e.L[0], e.S, seq(e.A))
	case "sopen":
		return fmt.Sprintf("(let ((%s (open-%s-file %q)))%s)", e.L[0], []string{"input", "output"}[e.N], e.S, seq(e.A))
	case "sread":
		return fmt.Sprintf("(read-line %s nil 'eof)", e.S)
	case "swrite":
		return fmt.Sprintf("(progn (format %s \"w~a\" %d) 0)", e.S, e.N)
	case "sclose":
		if e.N == 1 {
			return fmt.Sprintf("(progn (close %s) 0)", e.S)
		}
		return fmt.Sprintf("(progn (ignore-errors (close %s)) 0)", e.S)
	case "probe":
		return fmt.Sprintf("(probe-file %q)", e.S)
	}
	return "<" + e.K + "?>"
}

func (f *Fn) String() string {
	switch f.Kind {
	case "generic":
		return fmt.Sprintf("(defgeneric %s (x))\n(defmethod %s ((x <object>)) %s)", f.Name, f.Name, f.Body)
	case "macro":
		return fmt.Sprintf("(defmacro %s (a) `(let ((x ,a)) %s))", f.Name, f.Body)
	case "rec":
		return fmt.Sprintf("(defun %s (n x) (if (= n 0) x (let ((y (%s (- n 1) %s))) %s)))", f.Name, f.Name, f.Arg, f.Body)
	case "tailrec":
		return fmt.Sprintf("(defun %s (n x) (if (= n 0) x (progn %s (%s (- n 1) %s))))", f.Name, f.Body, f.Name, f.Arg)
	}
	if f.Kind == "openrec" { // the call of itself is the last form, but the file is open around it
		return fmt.Sprintf("(defun %s (n x) (if (= n 0) x (with-open-input-file (so \"f1\") %s (%s (- n 1) %s))))", f.Name, f.Body, f.Name, f.Arg)
	}
	return fmt.Sprintf("(defun %s (x) %s)", f.Name, f.Body)
}

func (p *Prog) String() string {
	var b strings.Builder
	for _, f := range p.Fns {
		b.WriteString(f.String())
		b.WriteByte('\n')
	}
	b.WriteString(p.Main.String())
	return b.String()
}

// ---- generation ----

type weights map[string]int

type gen struct {
	r     *Rand
	w     weights
	n     int // fresh names
	hosts int
	size  int
	limit int // of the size, 0 = default
	fns   []*Fn
}

// scope is what may be referred to at a place of the program.
type scope struct {
	vars   []string
	blocks []string
	nilblk bool
	tags   []string // catch tags, anywhere
	gotags []string
	depth  int
	fn     int    // functions with a smaller index may be called
	local  string // local function
	handle bool   // inside of a handler body
	cnt    string
	conds  []string // variables that hold conditions
	ins    []string // variables that hold input or output streams
	outs   []string
}

func (s scope) deeper() scope { s.depth++; return s }
func (s scope) with(v ...string) scope {
	s.vars = append(append([]string{}, s.vars...), v...)
	return s
}

func (g *gen) name(p string) string { g.n++; return fmt.Sprintf("%s%d", p, g.n) }

func (g *gen) host(e *E) *E {
	k := g.hosts
	g.hosts++
	return &E{K: "h", N: k % maxHosts, A: []*E{e}}
}

func I(n int) *E { return &E{K: "int", N: n} }

func (g *gen) atom(s scope) *E {
	switch g.r.W(4, 2, 1, 1, 2) {
	case 0:
		return I(g.r.N(9))
	case 1:
		if len(s.vars) > 0 {
			return &E{K: "var", S: s.vars[g.r.N(len(s.vars))]}
		}
	case 2:
		return &E{K: "nil"}
	case 3:
		return &E{K: "t"}
	case 4:
		return &E{K: "dyn", S: g.r.Str("d1", "d2")}
	}
	return I(g.r.N(9))
}

func (g *gen) body(s scope, max int) []*E {
	n := 1 + g.r.N(max)
	es := make([]*E, n)
	for i := range es {
		es[i] = g.expr(s)
	}
	return es
}

// leave makes an expression that leaves somewhere, if there is somewhere to go.
func (g *gen) leave(s scope) *E {
	type c struct {
		w int
		f func() *E
	}
	var cs []c
	if len(s.blocks) > 0 {
		cs = append(cs, c{4, func() *E {
			return &E{K: "retfrom", S: s.blocks[g.pickNear(len(s.blocks))], A: []*E{g.leaveValue(s)}}
		}})
	}
	if s.nilblk {
		cs = append(cs, c{2, func() *E { return &E{K: "return", A: []*E{g.leaveValue(s)}} }})
	}
	if len(s.tags) > 0 {
		cs = append(cs, c{3, func() *E { return &E{K: "throw", S: s.tags[g.pickNear(len(s.tags))], A: []*E{g.leaveValue(s)}} }})
	}
	if len(s.gotags) > 0 {
		cs = append(cs, c{2, func() *E { return &E{K: "go", S: s.gotags[g.pickNear(len(s.gotags))]} }})
	}
	if len(s.conds) > 0 {
		cs = append(cs, c{2, func() *E {
			return &E{K: "cont", S: s.conds[g.r.N(len(s.conds))], N: g.r.N(2), A: []*E{g.leaveValue(s)}}
		}})
	}
	if len(cs) == 0 {
		return nil
	}
	ws := make([]int, len(cs))
	for i := range cs {
		ws[i] = cs[i].w
	}
	return cs[g.r.W(ws...)].f()
}

// leaveValue is the value to leave with; computing it may itself leave.
func (g *gen) leaveValue(s scope) *E {
	if g.r.P(12) && s.depth < 7 {
		if e := g.leave(s.deeper()); e != nil {
			return e
		}
	}
	return g.small(s)
}

// pickNear prefers the last (innermost) ones.
func (g *gen) pickNear(n int) int {
	if g.r.P(50) {
		return n - 1
	}
	return g.r.N(n)
}

func (g *gen) small(s scope) *E {
	if g.r.P(35) {
		return g.host(g.atom(s))
	}
	if g.r.P(10) && s.depth < 7 {
		return g.expr(s.deeper())
	}
	return g.atom(s)
}

var kinds = []string{"atom", "h", "setq", "let", "progn", "if", "rep", "block", "leave", "catch", "tagbody", "unwind", "dynlet", "setdyn",
	"handler", "ignore", "error", "call", "funcall", "mapcar", "labels", "exit", "winput", "readline", "cond", "prog1", "wrap", "and",
	"wopen", "wcreate", "sopen", "sio", "sclose"}

func (g *gen) max() int {
	if g.limit > 0 {
		return g.limit
	}
	return 60
}

func (g *gen) expr(s scope) *E {
	g.size++
	if s.depth >= 6 || g.size > g.max() {
		if g.r.P(60) {
			return g.host(g.atom(s))
		}
		return g.atom(s)
	}
	ws := make([]int, len(kinds))
	for i, k := range kinds {
		ws[i] = g.w[k]
	}
	d := s.deeper()
	switch kinds[g.r.W(ws...)] {
	case "h":
		return g.host(g.expr(d))
	case "setq":
		if len(s.vars) > 0 {
			return &E{K: "setq", S: s.vars[g.r.N(len(s.vars))], A: []*E{g.expr(d)}}
		}
	case "let":
		v := g.name("v")
		k := g.r.Str("let", "let*")
		if g.r.P(40) {
			v2 := g.name("v")
			a1 := g.small(d)
			sc := d
			if k == "let*" {
				sc = d.with(v)
			}
			a2 := g.small(sc)
			return &E{K: k, L: []string{v, v2}, A: append([]*E{a1, a2}, g.body(d.with(v, v2), 2)...)}
		}
		a := g.expr(d)
		return &E{K: k, L: []string{v}, A: append([]*E{a}, g.body(d.with(v), 2)...)}
	case "progn":
		return &E{K: "progn", A: g.body(d, 3)}
	case "wrap":
		return &E{K: "wrap", N: g.r.N(len(wraps)), A: []*E{g.expr(d)}}
	case "prog1":
		return &E{K: "prog1", A: []*E{g.expr(d), g.expr(d)}}
	case "and":
		return &E{K: g.r.Str("and", "or"), A: []*E{g.expr(d), g.expr(d)}}
	case "if":
		if g.r.P(30) {
			return &E{K: g.r.Str("when", "unless"), A: append([]*E{g.small(d)}, g.body(d, 2)...)}
		}
		return &E{K: "if", A: []*E{g.small(d), g.expr(d), g.expr(d)}}
	case "cond":
		return &E{K: "cond", A: []*E{g.small(d), g.small(d), g.small(d), g.expr(d), g.expr(d)}}
	case "rep":
		v := g.name("i")
		k := g.r.Str("while", "dotimes", "dolist", "for")
		sc := d
		if k == "dolist" {
			sc.nilblk = true
		}
		// the variable of a loop is read through a host call only
		return &E{K: "rep", S: k, L: []string{v}, N: g.r.Range(1, 3), A: append([]*E{g.host(&E{K: "var", S: v})}, g.body(sc, 2)...)}
	case "block":
		sc := d
		n := "nil"
		if g.r.P(75) {
			n = g.name("b")
			if len(s.blocks) > 0 && !s.handle && g.r.P(15) { // shadow an outer block
				n = s.blocks[g.r.N(len(s.blocks))]
			}
			sc.blocks = append(append([]string{}, s.blocks...), n)
		} else {
			sc.nilblk = true
		}
		return &E{K: "block", S: n, A: g.body(sc, 3)}
	case "leave":
		if e := g.leave(d); e != nil {
			return e
		}
	case "catch":
		sc := d
		n := g.catchTag()
		sc.tags = append(append([]string{}, s.tags...), n)
		return &E{K: "catch", S: n, A: g.body(sc, 3)}
	case "tagbody":
		sc := d
		cnt := g.name("k")
		sc.cnt = cnt
		e := &E{K: "tagbody", L: []string{cnt}, N: g.r.Range(0, 2)}
		n := g.r.Range(1, 3)
		tags := make([]string, n)
		for i := range tags {
			tags[i] = g.name("g")
			if len(s.gotags) > 0 && !s.handle && g.r.P(30) { // shadow a tag of an outer tagbody
				n := s.gotags[g.r.N(len(s.gotags))]
				if !oneOf(tags[:i], n) {
					tags[i] = n
				}
			}
		}
		var outer []string // the tags of outer tagbodies: jumps to them lead forward, too
		for _, n := range s.gotags {
			if !oneOf(tags, n) {
				outer = append(outer, n)
			}
		}
		for i := 0; i < n; i++ {
			fw := sc
			fw.gotags = append(append([]string{}, tags[i:]...), outer...) // forward jumps only
			for j := g.r.N(3); j > 0; j-- {
				e.A = append(e.A, g.stmt(fw))
			}
			e.A = append(e.A, &E{K: "tag", S: tags[i]})
			fw.gotags = append(append([]string{}, tags[i+1:]...), outer...)
			if g.r.P(70) {
				e.A = append(e.A, g.stmt(fw))
			}
			if g.r.P(40) {
				e.A = append(e.A, &E{K: "gocnt", S: tags[g.r.N(i+1)], L: []string{cnt}})
			}
		}
		return e
	case "unwind":
		c := d
		es := []*E{g.expr(d)}
		for j := g.r.Range(1, 2); j > 0; j-- {
			if g.r.P(75) {
				es = append(es, g.host(I(g.r.N(9))))
			} else {
				es = append(es, g.expr(c))
			}
		}
		return &E{K: "unwind", A: es}
	case "dynlet":
		k := g.r.Range(1, 2)
		ns := []string{"d1", "d2", "d3"}
		if g.r.P(50) {
			ns = []string{"d2", "d1", "d3"}
		}
		e := &E{K: "dynlet", L: ns[:k]}
		for i := 0; i < k; i++ {
			if k == 1 && g.r.P(40) {
				e.A = append(e.A, g.expr(d))
			} else {
				e.A = append(e.A, g.host(I(g.r.N(90)+10)))
			}
		}
		e.A = append(e.A, g.body(d, 3)...)
		return e
	case "setdyn":
		return &E{K: "setdyn", S: g.r.Str("d1", "d2"), A: []*E{g.small(d)}}
	case "handler":
		return g.handler(d)
	case "ignore":
		return &E{K: "ignore", A: g.body(d, 2)}
	case "error":
		switch g.r.W(4, 4, 3, 2, 2, 1, 1, 1) {
		case 0:
			return &E{K: "err", N: g.r.N(20)}
		case 1:
			return &E{K: "cerr", N: g.r.N(20)}
		case 2:
			return &E{K: "cardom"}
		case 3:
			return &E{K: "undefvar", N: g.r.N(3)}
		case 4:
			return &E{K: "undeffn", N: g.r.N(3)}
		case 5:
			return &E{K: "badret", N: g.r.N(3)}
		case 6:
			return &E{K: "badthrow", N: g.r.N(3)}
		case 7:
			return &E{K: "badgo", N: g.r.N(3)}
		}
	case "call":
		if s.local != "" && g.r.P(30) {
			return &E{K: "call", S: s.local, A: []*E{g.small(d)}}
		}
		if s.fn > 0 {
			f := g.fns[g.r.N(s.fn)]
			if f.Kind == "rec" || f.Kind == "tailrec" || f.Kind == "openrec" {
				return &E{K: "rcall", S: f.Name, N: g.r.Range(1, 3), A: []*E{g.small(d)}}
			}
			return &E{K: "call", S: f.Name, A: []*E{g.small(d)}}
		}
	case "funcall":
		v := g.name("v")
		a := g.small(d)
		return &E{K: g.r.Str("funcall", "apply"), L: []string{v}, A: append([]*E{a}, g.body(d.with(v), 2)...)}
	case "mapcar":
		v := g.name("v")
		return &E{K: "mapcar", L: []string{v}, N: g.r.Range(1, 3), A: g.body(d.with(v), 2)}
	case "labels":
		f := g.name("l")
		v := g.name("v")
		fs := d.with(v)
		sc := d
		sc.local = f
		return &E{K: g.r.Str("labels", "flet"), S: f, L: []string{v}, A: append([]*E{g.expr(fs)}, g.body(sc, 2)...)}
	case "exit":
		return &E{K: g.r.Str("exit", "abort", "quit")}
	case "winput":
		return &E{K: "winput", S: g.name("w"), A: g.body(d, 3)}
	case "readline":
		return g.host(&E{K: "readline"})
	case "wopen":
		v := g.name("s")
		sc := d
		sc.ins = append(append([]string{}, s.ins...), v)
		return &E{K: "wopen", S: g.r.Str("f1", "f2", "f3", "f1", "f2", "f3", "f1", "nofile"), L: []string{v}, A: g.body(sc, 3)}
	case "wcreate":
		v := g.name("s")
		sc := d
		sc.outs = append(append([]string{}, s.outs...), v)
		return &E{K: "wcreate", S: g.r.Str("o1", "o2", "o3", "o1", "o2", "o3", "o1", "nodir/o"), L: []string{v}, A: g.body(sc, 3)}
	case "sopen":
		v := g.name("s")
		sc := d
		e := &E{K: "sopen", N: g.r.N(2), L: []string{v}}
		if e.N == 0 {
			e.S = g.r.Str("f1", "f2", "f3")
			sc.ins = append(append([]string{}, s.ins...), v)
		} else {
			e.S = g.r.Str("o1", "o2", "o3")
			sc.outs = append(append([]string{}, s.outs...), v)
		}
		e.A = g.body(sc, 3)
		c := &E{K: "sclose", S: v, N: g.r.N(2)}
		if g.r.P(50) {
			e.A = append(e.A, c, g.host(I(3)))
		} else if g.r.P(70) {
			e.A = []*E{{K: "unwind", A: []*E{{K: "progn", A: e.A}, c}}, g.host(I(3))}
		}
		return e
	case "sio":
		if len(s.ins)+len(s.outs) == 0 {
			if g.r.P(20) {
				return &E{K: "probe", S: g.r.Str("f1", "nofile", "f3")}
			}
			break
		}
		if k := g.pickNear(len(s.ins) + len(s.outs)); k < len(s.ins) {
			return g.host(&E{K: "sread", S: s.ins[k]})
		} else {
			return &E{K: "swrite", S: s.outs[k-len(s.ins)], N: g.r.N(90)}
		}
	case "sclose":
		if len(s.ins)+len(s.outs) == 0 {
			break
		}
		n := 1
		if g.r.P(30) {
			n = 0
		}
		if k := g.pickNear(len(s.ins) + len(s.outs)); k < len(s.ins) {
			return &E{K: "sclose", S: s.ins[k], N: n}
		} else {
			return &E{K: "sclose", S: s.outs[k-len(s.ins)], N: n}
		}
	}
	return g.host(g.atom(s))
}

// stmt is an expression that is not a symbol, for the body of tagbody.
func (g *gen) stmt(s scope) *E {
	e := g.expr(s)
	switch e.K {
	case "var", "nil", "t", "int", "undefvar":
		return g.host(e)
	}
	return e
}

// handler makes with-handler, mostly inside of something its handler can leave for.
func (g *gen) handler(d scope) *E {
	var wrap *E
	sc := d
	switch g.r.W(4, 2, 2, 2) {
	case 0:
		n := g.name("b")
		wrap = &E{K: "block", S: n}
		sc.blocks = append(append([]string{}, d.blocks...), n)
	case 1:
		n := g.catchTag()
		wrap = &E{K: "catch", S: n}
		sc.tags = append(append([]string{}, d.tags...), n)
	case 2:
		n := g.name("g")
		wrap = &E{K: "tagbody", L: []string{g.name("k")}}
		sc.gotags = append(append([]string{}, d.gotags...), n)
	}
	hs := sc.deeper()
	hs.handle = true
	cn := g.name("e")
	hs.conds = append(append([]string{}, hs.conds...), cn)
	hb := &E{K: "progn", A: []*E{g.host(I(g.r.N(9)))}}
	if g.r.P(60) {
		hb.A = append(hb.A, &E{K: "contif", S: cn})
	}
	var signal *E
	switch {
	case g.r.P(18):
		hb.A = append(hb.A, g.expr(hs))
	case d.depth < 5 && g.size < g.max() && g.r.P(18): // a handler that handles its own conditions
		x := g.handler(hs.deeper())
		if g.r.P(60) {
			for x.K != "handler" {
				x = x.A[0]
			}
			x.A = append(x.A[:1:1], &E{K: g.r.Str("err", "cerr", "cardom"), N: 80 + g.r.N(9)})
			if g.r.P(50) {
				x.A[0].A = append(x.A[0].A[:1:1], &E{K: "cont", S: cn, N: g.r.N(2), A: []*E{I(81)}})
				signal = &E{K: g.r.Str("cerr", "cardom", "h"), N: g.r.N(9), A: []*E{I(82)}}
			}
		}
		hb.A = append(hb.A, x)
	}
	switch g.r.W(8, 2, 2) {
	case 0:
		if l := g.leave(hs); l != nil {
			hb.A = append(hb.A, l)
		} else {
			hb.A = append(hb.A, &E{K: "err", N: 90 + g.r.N(9)})
		}
	case 1:
		hb.A = append(hb.A, &E{K: g.r.Str("err", "cerr", "undefvar"), N: 90 + g.r.N(9)})
	}
	e := &E{K: "handler", L: []string{cn}, A: append([]*E{hb}, g.body(sc.deeper(), 3)...)}
	if signal != nil {
		e.A = append(e.A[:1:1], append([]*E{signal}, e.A[1:]...)...)
	}
	if wrap == nil {
		return e
	}
	wrap.A = []*E{e}
	if wrap.K == "tagbody" {
		wrap.A = append(wrap.A, &E{K: "tag", S: sc.gotags[len(sc.gotags)-1]}, g.host(I(5)))
	}
	return wrap
}

func (g *gen) program() *Prog {
	p := &Prog{}
	nf := g.r.N(4)
	for i := 0; i < nf; i++ {
		f := &Fn{Name: fmt.Sprintf("f%d", i), Kind: g.r.Str("defun", "defun", "generic", "macro", "rec", "tailrec")}
		s := scope{vars: []string{"x"}, depth: 2, fn: i, tags: []string{"c1", "c2"}}
		if g.r.P(60) {
			s.tags = nil
		}
		g.fns = p.Fns
		if f.Kind == "rec" {
			s.vars = append(s.vars, "y")
		}
		f.Body = g.expr(s)
		if f.Kind == "tailrec" && g.w["wopen"] > 0 && g.r.P(70) {
			f.Kind = "openrec"
		}
		if f.Kind != "defun" && f.Kind != "generic" && f.Kind != "macro" {
			f.Arg = g.host(&E{K: "var", S: "x"})
		}
		p.Fns = append(p.Fns, f)
		g.size = 0
	}
	g.fns = p.Fns
	p.Main = g.expr(scope{fn: nf})
	for i := 0; i < 5 && g.size < 12; i++ {
		p.Main = &E{K: "progn", A: []*E{p.Main, g.expr(scope{fn: nf})}}
	}
	return p
}

// ---- shrinking ----

func (e *E) clone() *E {
	if e == nil {
		return nil
	}
	c := *e
	c.A = make([]*E, len(e.A))
	for i := range e.A {
		c.A[i] = e.A[i].clone()
	}
	return &c
}

func (p *Prog) clone() *Prog {
	q := &Prog{Main: p.Main.clone()}
	for _, f := range p.Fns {
		g := *f
		g.Body, g.Arg = f.Body.clone(), f.Arg.clone()
		q.Fns = append(q.Fns, &g)
	}
	return q
}

// minArgs is the number of leading sub-expressions an expression must keep.
func (e *E) minArgs() int {
	switch e.K {
	case "h", "setq", "cont", "retfrom", "return", "throw", "setdyn", "call", "rcall", "prog1", "wrap", "unwind", "funcall", "apply", "labels", "flet", "handler", "when", "unless":
		return 1
	case "if":
		return 3
	case "cond":
		return 5
	case "let", "let*", "dynlet":
		return len(e.L)
	}
	return 0
}

// smaller lists programs that are p with one part simplified.
func (p *Prog) smaller() []*Prog {
	var out []*Prog
	for i := range p.Fns {
		q := p.clone()
		name := q.Fns[i].Name
		q.Fns = append(q.Fns[:i], q.Fns[i+1:]...)
		if !strings.Contains(q.String(), "("+name+" ") {
			out = append(out, q)
		}
	}
	type root struct{ get func(*Prog) **E }
	roots := []root{{func(q *Prog) **E { return &q.Main }}}
	for i := range p.Fns {
		i := i
		roots = append(roots, root{func(q *Prog) **E { return &q.Fns[i].Body }})
	}
	for _, rt := range roots {
		// enumerate paths
		var walk func(path []int, e *E)
		at := func(q *Prog, path []int) **E {
			x := rt.get(q)
			for _, i := range path {
				x = &(*x).A[i]
			}
			return x
		}
		walk = func(path []int, e *E) {
			if e.K != "int" && e.K != "nil" && e.K != "tag" && e.K != "var" {
				for _, rep := range []*E{I(0)} {
					q := p.clone()
					*at(q, path) = rep
					out = append(out, q)
				}
			}
			for i, c := range e.A { // a part in place of the whole
				if c.K == "tag" || c.K == "int" || c.K == "nil" {
					continue
				}
				q := p.clone()
				*at(q, path) = c.clone()
				out = append(out, q)
				_ = i
			}
			for i := len(e.A) - 1; i >= e.minArgs(); i-- { // fewer parts
				q := p.clone()
				x := *at(q, path)
				x.A = append(x.A[:i], x.A[i+1:]...)
				out = append(out, q)
			}
			if e.N > 1 && (e.K == "rep" || e.K == "mapcar" || e.K == "rcall") {
				q := p.clone()
				(*at(q, path)).N = 1
				out = append(out, q)
			}
			for i, c := range e.A {
				walk(append(append([]int{}, path...), i), c)
			}
		}
		walk(nil, *rt.get(p))
	}
	return out
}

func oneOf(names []string, n string) bool {
	for _, x := range names {
		if x == n {
			return true
		}
	}
	return false
}
