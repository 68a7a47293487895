package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync/atomic"
	"time"

	gmnlisp "github.com/hymkor/gmnlisp"
	"github.com/hymkor/gmnlisp/zz_verif/simos"
	"github.com/hymkor/gmnlisp/zz_verif/simrt"
)

// Check C01: cancellation at every step stops every construct.

// simCtx is a context whose end is an event of the simulation.
type simCtx struct {
	context.Context
	done chan struct{}
	err  atomic.Pointer[error]
}

func newSimCtx() *simCtx { return &simCtx{Context: context.Background(), done: make(chan struct{})} }

func (c *simCtx) Done() <-chan struct{} { return c.done }
func (c *simCtx) Err() error {
	if e := c.err.Load(); e != nil {
		return *e
	}
	return nil
}
func (c *simCtx) end(err error) {
	if c.err.CompareAndSwap(nil, &err) {
		close(c.done)
	}
}
func (c *simCtx) Deadline() (time.Time, bool) { return time.Time{}, false }

// Cut is the end of a context: at a step or in the n-th host call.
type Cut struct {
	Tick     uint64 `json:"tick,omitempty"`
	Call     int    `json:"call,omitempty"`
	Deadline bool   `json:"deadline,omitempty"`
	Cause    bool   `json:"cause,omitempty"` // the host gives another error as the cause
}

func (c *Cut) String() string {
	if c == nil {
		return "never"
	}
	k := "cancelled"
	if c.Deadline {
		k = "deadline passes"
	}
	if c.Call > 0 {
		return fmt.Sprintf("%s in host call %d", k, c.Call)
	}
	return fmt.Sprintf("%s at step %d", k, c.Tick)
}

func (c *Cut) err() error {
	if c.Deadline {
		return context.DeadlineExceeded
	}
	return context.Canceled
}

// install arranges for the cut; step counts start now. It returns the context
// and a function telling at which step it happened (0 = not yet).
func (c *Cut) install(r *Run) (context.Context, func() uint64) {
	var at uint64
	if c == nil {
		return context.Background(), func() uint64 { return 0 }
	}
	kind := "cancel"
	if c.Deadline {
		kind = "deadline"
	}
	var ctx context.Context
	var end func()
	if c.Deadline {
		s := newSimCtx()
		ctx, end = s, func() { s.end(context.DeadlineExceeded) }
	} else if c.Cause {
		x, cancel := context.WithCancelCause(context.Background())
		ctx, end = x, func() { cancel(errHost) }
	} else {
		x, cancel := context.WithCancel(context.Background())
		ctx, end = x, cancel
	}
	fire := func() {
		if at == 0 {
			at = simrt.Ticks()
			end()
			if r != nil {
				r.Fault(kind)
			}
		}
	}
	if c.Call > 0 {
		old := host.hook
		host.hook = func(call, k int, v gmnlisp.Node) {
			if old != nil {
				old(call, k, v)
			}
			if call == c.Call {
				fire()
			}
		}
	} else if c.Tick == 0 {
		fire()
	} else {
		simrt.At(simrt.Ticks()+c.Tick, fire)
	}
	return ctx, func() uint64 { return at }
}

type CancelPlan struct {
	// an endless program: definitions, the loop, and the forms around it
	Defs string   `json:"defs,omitempty"`
	Loop string   `json:"loop,omitempty"`
	Wrap []string `json:"wrap,omitempty"` // "@" is the place of the inside
	Kind string   `json:"kind,omitempty"`
	In   string   `json:"in,omitempty"`
	// or a generated finite one
	P   *CtlPlan `json:"p,omitempty"`
	Cut *Cut     `json:"cut"`
	Map uint64   `json:"map,omitempty"`
}

const circ = "(let ((l (list 1 2 3))) (set-cdr l (cdr (cdr l))) l)"
const circA = "(let ((l (list (cons 1 2) (cons 3 4)))) (set-cdr l (cdr l)) l)"

// endless lists the constructs that go on forever: name, definitions, form. B
// is the place of an arbitrary harmless form.
var endless = [][3]string{
	{"while", "", "(while t B)"},
	{"while-empty", "", "(while t)"},
	{"dolist-circular", "", "(dolist (x " + circ + ") B)"},
	{"dotimes", "", "(dotimes (i 1000000000) B)"},
	{"dotimes-empty", "", "(dotimes (i 1000000000))"},
	{"for", "", "(for ((i 0 (+ i 1))) (nil) B)"},
	{"for-test", "", "(for ((i 0 (+ i 1))) ((progn B nil) 1))"},
	{"tail-top", "(defun ft (n) B (ft (+ n 1)))", "(ft 0)"},
	{"tail-none", "(defun ft () (ft))", "(ft)"},
	{"tail-rest", "(defun ft (:rest r) B (ft 1 2 3))", "(ft)"},
	{"tail-cond", "(defun ft (n) (cond ((< n 0) 1) (t B (ft (+ n 1)))))", "(ft 0)"},
	{"tail-let", "(defun ft (n) (let ((m (+ n 1))) B (ft m)))", "(ft 0)"},
	{"tail-if", "(defun ft (n) (if (>= n 0) (progn B (ft (+ n 1)))))", "(ft 0)"},
	{"tail-labels", "", "(labels ((g (n) B (g (+ n 1)))) (g 0))"},
	{"tail-labels-none", "", "(labels ((g () (g))) (g))"},
	{"plain", "(defun fp (n) (+ 1 (fp (+ n 1))))", "(fp 0)"},
	{"plain-body", "(defun fp (n) B (list (fp n)))", "(fp 0)"},
	{"plain-labels", "", "(labels ((g (n) (+ 1 (g n)))) (g 0))"},
	{"mutual", "(defun fa (n) B (fb n)) (defun fb (n) (fa (+ n 1)))", "(fa 0)"},
	{"mutual-labels", "", "(labels ((a (n) (b n)) (b (n) B (a n))) (a 0))"},
	{"generic", "(defgeneric gf (x)) (defmethod gf ((x <integer>)) B (gf (+ x 1)))", "(gf 0)"},
	{"generic-none", "(defgeneric gf (x)) (defmethod gf ((x <object>)) (gf x))", "(gf 0)"},
	{"macro-self", "(defmacro mself () '(mself))", "(mself)"},
	{"macro-body", "(defmacro mloop (x) `(progn ,x (mloop ,x)))", "(mloop B)"},
	{"macro-var", "(defglobal mform '(mself2)) (defmacro mself2 () mform)", "(mself2)"},
	{"macro-mutual", "(defglobal mfa '(mb)) (defglobal mfb '(ma)) (defmacro ma () mfa) (defmacro mb () mfb)", "(ma)"},
	{"macro-nested", "(defglobal mfc '(progn (mc) 1)) (defmacro mc () mfc)", "(mc)"},
	{"lambda-macro", "(defglobal mfd '(flet ((f () 1)) (md))) (defmacro md () mfd)", "(md)"},
	{"generic-call", "(defgeneric gc (x)) (defmethod gc ((x <object>)) 1)", "(while t (funcall #'gc 1) B)"},
	{"generic-map", "(defgeneric gm (x)) (defmethod gm ((x <object>)) 1)", "(mapc #'gm " + circ + ")"},
	{"generic-mutual", "(defgeneric ga (x)) (defgeneric gb (x)) (defmethod ga ((x <object>)) (gb x)) (defmethod gb ((x <object>)) (ga x))", "(ga 1)"},
	{"generic-plain", "(defgeneric gp (x)) (defmethod gp ((x <integer>)) (list (gp x)))", "(gp 1)"},
	{"generic-rest", "(defgeneric gr (x &rest y)) (defmethod gr ((x <object>) &rest (y <object>)) (gr 1 2 3))", "(gr 1)"},
	{"initform-rec", "(defclass <rc> () ((s :initform (create (class <rc>)))))", "(create (class <rc>))"},
	{"initialize-rec", "(defclass <ri> () ()) (defmethod initialize-object ((o <ri>) (i <object>)) (create (class <ri>)))", "(while t (create (class <ri>)) B)"},
	{"accessor", "(defclass <ra> () ((s :initform 1 :accessor ras)))", "(let ((o (create (class <ra>)))) (while t (setf (ras o) (ras o))))"},
	{"signal", "", "(while t (catch 'k (with-handler (lambda (c) (throw 'k 1)) (signal-condition (create (class <error>)) nil))))"},
	{"case-using", "", "(while t (case-using #'= 2 ((1) 0) ((2) B)))"},
	{"dolist-nested", "", "(dolist (x " + circ + ") (dolist (y '(1 2)) B))"},
	{"quasi", "", "(while t `(a ,B b))"},
	{"trace-generic", "(defun tg (n) (ignore-errors (tg (+ n 1))) (tg n))", "(tg 0)"},
	{"string-stream", "", "(let ((s (create-string-output-stream))) (while t (format s \"~a\" B) (if (> (length (get-output-stream-string s)) 100) (setq s (create-string-output-stream)))))"},
	{"labels-mutual-tail", "", "(labels ((a (n) (if (> n 5) (b 0) (a (+ n 1)))) (b (n) B (a n))) (a 0))"},
	{"tail-closure", "(defun tc (f) (tc (lambda () f)))", "(tc 1)"},
	{"flet", "", "(flet ((f (x) B)) (while t (f 1)))"},
	{"handler-ret", "", "(while t (ignore-errors (with-handler (lambda (c) B) (car 1))))"},
	{"handler-builtin", "", "(while t (ignore-errors (with-handler #'car (error \"x\"))))"},
	{"handler-generic", "(defgeneric hg (c)) (defmethod hg ((c <error>)) B (hg c))", "(with-handler #'hg (error \"x\"))"},
	{"macro-expander", "(defmacro mw () (while t B) 1)", "(mw)"},
	{"mapcar", "", "(mapcar (lambda (x) B) " + circ + ")"},
	{"mapcar-builtin", "", "(mapcar #'list " + circ + ")"},
	{"mapcar-rest", "", "(mapcar (lambda (x y) B) " + circ + " " + circ + ")"},
	{"mapc", "", "(mapc (lambda (x) B) " + circ + ")"},
	{"mapcan", "", "(mapcan (lambda (x) B (list x)) " + circ + ")"},
	{"maplist", "", "(maplist (lambda (x) B) " + circ + ")"},
	{"maplist-builtin", "", "(maplist #'car " + circ + ")"},
	{"mapl", "", "(mapl (lambda (x) B) " + circ + ")"},
	{"mapcon", "", "(mapcon (lambda (x) B (list 1)) " + circ + ")"},
	{"length", "", "(length " + circ + ")"},
	{"reverse", "", "(reverse " + circ + ")"},
	{"append", "", "(append " + circ + " '(1))"},
	{"last", "", "(last " + circ + ")"},
	{"member", "", "(member 'zz " + circ + ")"},
	{"assoc", "", "(assoc 'zz " + circA + ")"},
	{"subseq", "", "(subseq " + circ + " 0 1000000000)"},
	{"elt", "", "(while t (elt " + circ + " 50))"},
	{"convert", "", "(convert " + circ + " <general-vector>)"},
	{"apply-circular", "", "(apply #'list " + circ + ")"},
	{"tagbody", "", "(tagbody again B (go again))"},
	{"tagbody-nested", "", "(tagbody again (tagbody (B0) (go again)))"},
	{"tagbody-two", "", "(tagbody a (go b) c (go a) b B (go c))"},
	{"retry", "", "(labels ((retry () (block b (with-handler (lambda (c) B (return-from b nil)) (error \"x\"))) (retry))) (retry))"},
	{"retry-while", "", "(while t (block b (with-handler (lambda (c) (return-from b nil)) B (car 1))))"},
	{"retry-catch", "", "(while t (catch 'k (with-handler (lambda (c) (throw 'k nil)) B (error \"x\"))))"},
	{"retry-go", "", "(tagbody again (with-handler (lambda (c) (go again)) B (undefined-thing)))"},
	{"ignore", "", "(while t (ignore-errors B (error \"x\")))"},
	{"ignore-in", "", "(ignore-errors (while t B))"},
	{"ignore-rec", "(defun ig (n) (ignore-errors B (error \"x\")) (ig (+ n 1)))", "(ig 0)"},
	{"ignore-deep", "(defun ig (n) (ignore-errors (ig (+ n 1))) 1)", "(ig 0)"},
	{"ignore-retry", "(defun ig (n) (ignore-errors (ig (+ n 1))) (ig (+ n 1)))", "(ig 0)"},
	{"catch", "", "(while t (catch 'k B (throw 'k 1)))"},
	{"block", "", "(while t (block k B (return-from k 1)))"},
	{"continue", "", "(with-handler (lambda (c) (continue-condition c 1)) (while t B (cerror \"a\" \"b\")))"},
	{"continue-rec", "", "(with-handler (lambda (c) (continue-condition c 1)) (labels ((g () (cerror \"a\" \"b\") (g))) (g)))"},
	{"handler-body", "", "(with-handler (lambda (c) (while t B)) (error \"x\"))"},
	{"handler-nested", "", "(labels ((g (n) (with-handler (lambda (c) (g (+ n 1))) (error \"x\")))) (g 0))"},
	{"eval", "(defun ev () B (eval '(ev)))", "(ev)"},
	{"eval-form", "(defglobal evf nil) (setq evf '(eval evf))", "(eval evf)"},
	{"funcall", "(defglobal fv nil) (setq fv (lambda () B (funcall fv)))", "(funcall fv)"},
	{"apply", "(defun ap (:rest r) B (apply #'ap 1 '(2)))", "(ap)"},
	{"lambda-call", "(defglobal fv nil) (setq fv (lambda (x) ((lambda (y) (funcall fv y)) x)))", "(funcall fv 1)"},
	{"read-string", "", "(let ((s (create-string-input-stream \"a b\"))) (while t (read-char s nil t) B))"},
	{"read-stdin", "", "(while t (read-line (standard-input) nil t) B)"},
	{"read-stdin2", "", "(while t (read (standard-input) nil t) B)"},
	{"write", "", "(while t (format (create-string-output-stream) \"x\"))"},
	{"cleanup", "", "(unwind-protect 1 (while t B))"},
	{"cleanup-error", "", "(unwind-protect (error \"x\") (while t B))"},
	{"protected", "", "(unwind-protect (while t B) (h1 7))"},
	{"initform", "(defclass <cl> () ((s :initform (while t B) :reader cls)))", "(create (class <cl>))"},
	{"load", "", "(load \"loop.lsp\")"},
	{"load-self", "", "(load \"self.lsp\")"},
	{"open", "", "(with-open-input-file (s \"data.txt\") (while t (read-char s nil t)))"},
	{"open-out", "", "(with-open-output-file (s \"o.txt\") (while t B))"},
	{"open-all", "", "(while t (with-open-input-file (s \"data.txt\") (read-line s)))"},
	{"winput", "", "(with-standard-input (create-string-input-stream \"a\") (while t B))"},
	{"dynamic-let", "", "(dynamic-let ((dd 1)) (while t B))"},
	{"dynamic-rec", "(defun dr () (dynamic-let ((dd 1)) (dr)))", "(dr)"},
	{"report", "(defclass <e2> (<error>) ()) (defmethod report-condition ((e <e2>) (s <object>)) (while t B))", "(report-condition (create (class <e2>)) (standard-output))"},
	{"report-uncaught", "(defclass <e3> (<error>) ()) (defmethod report-condition ((e <e3>) (s <object>)) (while t B))", "(ignore-errors (signal-condition (create (class <e3>)) nil) (while t))"},
	{"case", "", "(while t (case 2 ((1) 0) ((2) B)))"},
	{"arg", "(defun id (x) x)", "(id (while t B))"},
	{"let-init", "", "(let ((v (while t B))) v)"},
	{"cond-test", "", "(cond ((while t B) 1))"},
	{"setf", "", "(let ((v (list 1 2))) (while t (setf (car v) 3)))"},
	{"hash", "", "(let ((h (make-hash-table))) (while t (setf (gethash 1 h) 2)))"},
	{"incf", "", "(let ((v 1)) (while t (incf v)))"},
	{"setq", "", "(let ((v 1)) (while t (setq v (+ v 1))))"},
	{"ackermann", "(defun ack (m n) (cond ((= m 0) (+ n 1)) ((= n 0) (ack (- m 1) 1)) (t (ack (- m 1) (ack m (- n 1))))))", "(ack 4 1)"},
	{"fib", "(defun fib (n) (if (< n 2) n (+ (fib (- n 1)) (fib (- n 2)))))", "(fib 60)"},
	{"trace", "(defun tf (n) B (tf (+ n 1)))", "(tf 0)"},
	{"gensym", "", "(while t (gensym))"},
	{"prop", "", "(while t (set-property 1 'a 'b) (property 'a 'b))"},
	{"throw-tail", "(defun th (n) (catch 'k (th (+ n 1))))", "(th 0)"},
	{"psetq", "", "(let ((a 1) (b 2)) (while t (psetq a b b a)))"},
	{"nested-loops", "", "(while t (dotimes (i 3) (dolist (j '(1 2)) B)))"},
	{"command", "", "(while t (probe-file \"data.txt\"))"},
}

var harmless = []string{"1", "(h0 1)", "(+ 1 2)", "(list 1 2)", "(let ((q 1)) (setq q 2))", "(ignore-errors (error \"z\"))", "(catch 'hh (throw 'hh 1))",
	"(block hb (return-from hb 1))", "((lambda (z) z) 1)", "(format (standard-output) \"x\")", "(when t 1)", "(dynamic-let ((dz 1)) (dynamic dz))",
	"(unwind-protect 1 2)", "(mapcar #'list '(1 2))", "(if t 1 2)", "(eval '(+ 1 2))"}

var wrappings = []string{"(progn (h1 1) @)", "(let ((w 1)) @)", "(ignore-errors @)", "(block wb @)", "(catch 'wc @)", "(unwind-protect @ (h2 1))",
	"(with-handler (lambda (c) (return-from wout 5)) @)", "(with-handler #'car @)", "(with-handler #'list @)", "(with-handler #'report-condition @)",
	"(flet ((wf (x) x)) (wf @))", "(funcall #'list @)", "(ignore-errors (with-handler #'cdr @))", "(catch 'wc (unwind-protect @ (throw 'wc 1)))", "(or @ @)", "(with-handler (lambda (c) (continue-condition c 1)) @)", "(dynamic-let ((wd 1)) @)",
	"((lambda (x) @) 1)", "(funcall (lambda () @))", "(mapcar (lambda (x) @) '(1 2))", "(if t @ 1)", "(list @)", "(tagbody wt @)", "(while t (h3 1) @)",
	"(labels ((wf () @)) (wf))", "(with-standard-input (create-string-input-stream \"q\") @)", "(let ((wv @)) wv)", "(while t (ignore-errors @))",
	"(tagbody again @ (go again))", "(unwind-protect (h0 1) @)", "(with-open-output-file (ws \"w.txt\") @)", "(cond (@ 1))", "(apply (lambda (:rest r) @) '(1))",
	"(with-handler (lambda (c) (throw 'wthrow 1)) @)", "(unwind-protect @ (list 1) (dotimes (i 3) (h2 i)))", "(prog1 @ 1)", "(and t @)", "(or nil @)", "(when t @)", "(case 1 ((1) @))"}

func (p *CancelPlan) text() string {
	s := p.Loop
	for _, w := range p.Wrap {
		s = strings.Replace(w, "@", s, 1)
	}
	return "(block wout (catch 'wthrow " + s + "))"
}

func cancelGen(r *Rand, idx int, tier string) *CancelPlan {
	cut := &Cut{Deadline: r.P(30), Cause: r.P(25)}
	if r.P(35) { // a finite program, cut anywhere
		for try := 0; try < 40; try++ {
			w := baseWeights.with("readline", 0)
			if r.P(60) {
				w = w.with("unwind", 0)
			}
			g := &gen{r: r, w: w}
			if tier == "thorough" && r.P(30) {
				g.limit = 110
			}
			c := &CtlPlan{P: g.program()}
			m, out := c.model(allModes[0], nil)
			if out == "unspecified" || m.calls == 0 {
				continue
			}
			if r.P(40) {
				c.Faults = []HFault{{At: 1 + r.N(m.calls), Kind: r.Str("err", "dom")}}
			}
			if r.P(40) {
				cut.Call = 1 + r.N(m.calls+1)
			} else {
				cut.Tick = uint64(1 + r.N(200+m.steps*25))
			}
			return &CancelPlan{P: c, Cut: cut, Map: r.U64() >> 12}
		}
	}
	k := endless[r.N(len(endless))]
	b := harmless[r.N(len(harmless))]
	p := &CancelPlan{Kind: k[0], Defs: strings.ReplaceAll(strings.ReplaceAll(k[1], "B0", b), "B", b), Loop: strings.ReplaceAll(k[2], "(B0)", b), Cut: cut, Map: r.U64() >> 12}
	p.Loop = strings.ReplaceAll(p.Loop, "B", b)
	if k[0] == "trace" {
		p.Defs += " (trace tf)"
	}
	for i := r.N(4); i > 0; i-- {
		w := wrappings[r.N(len(wrappings))]
		p.Wrap = append(p.Wrap, w)
	}
	p.In = r.Str("", "1 2 3\n", "a\n")
	switch r.W(2, 4, 3, 1) {
	case 0:
		cut.Tick = uint64(r.N(60))
	case 1:
		cut.Tick = uint64(r.N(3000))
	case 2:
		cut.Tick = uint64(r.N(20000))
	case 3:
		cut.Call = 1 + r.N(20)
	}
	return p
}

// after this many steps beyond its end the context must have been obeyed; the
// second term is the cleanup of the active forms, at most as many as steps.
// Reading the program takes some steps before the evaluation begins.
func cancelBound(at uint64, text string) uint64 { return at + 4000 + at + uint64(40*len(text)) }

func cancelExec(p *CancelPlan, r *Run) {
	if p.P != nil {
		cancelFinite(p, r)
		return
	}
	simos.Reset(nil, -1, []int{5})
	simos.SetStdin(p.In)
	simos.Put("loop.lsp", "(h0 1) (while t (h0 2))")
	simos.Put("self.lsp", "(load \"self.lsp\")")
	simos.Put("data.txt", "a\nb\n")
	host = &hostSide{faults: map[int]string{}}
	intern(p.text() + " h0 h1 h2 h3 loop self data")
	guard(func() { gmnlisp.New().Interpret(context.Background(), p.Defs) })
	begin(0, p.Map)
	defer r.end()
	w := gmnlisp.New()
	w.SetStdout(&simOut{})
	// the startup library is evaluated together with the definitions
	if _, err := w.Interpret(context.Background(), p.Defs+" 0"); err != nil {
		r.Fail("definitions", "the definitions fail: %v", err)
		return
	}
	ctx, at := p.Cut.install(r)
	start := simrt.Ticks()
	limit := start + p.Cut.Tick + 60000
	if p.Cut.Call > 0 {
		limit = start + 400000
	}
	simrt.Extend(limit - start)
	var v gmnlisp.Node
	var err error
	pan, stack := guard(func() { v, err = w.Interpret(ctx, p.text()) })
	t := simrt.Ticks()
	r.Log("%s %d calls, cut at %d, end at %d", p.text(), host.calls, at(), t)
	if _, ok := pan.(simrt.Stop); ok {
		if at() == 0 { // a cut in a host call that never happened
			r.Probe("cut not reached")
			return
		}
		r.Fail("not-stopped", "%d steps after the context ended (%v) the evaluation still goes on in %s", t-at(), p.Cut, frames(stack))
		return
	}
	if pan != nil {
		r.Fail("crash", "panic: %s at %s", panicText(pan), frames(stack))
		return
	}
	r.Log("%v %v", valueText(v), err)
	if at() == 0 {
		r.Probe("ended before the cut")
		return
	}
	r.Probe("stopped:" + p.Kind)
	rel := at() - start
	if err == nil || !errors.Is(err, p.Cut.err()) {
		if err != nil && errors.Is(err, gmnlisp.ErrTooFewArguments) {
			r.Probe("oops")
		}
		r.Fail("wrong-result", "the context ended (%v) but the evaluation returned %s, %v", p.Cut, valueText(v), err)
		return
	}
	if t > start+cancelBound(rel, p.text()) {
		r.Fail("late", "stopped only %d steps after the context ended (%v), which had taken %d steps", t-at(), p.Cut, rel)
	}
	r.Key = hashOf(p.text(), p.Defs, p.Cut.String())
	r.Inter = hashOf(p.Kind, p.Wrap, rel, host.calls)
}

// simOut swallows output.
type simOut struct{ n int }

func (s *simOut) Write(b []byte) (int, error) { s.n += len(b); return len(b), nil }

func cancelFinite(p *CancelPlan, r *Run) {
	run := func(cut *Cut, rr *Run) (log []string, out string, at, start, end uint64, calls int) {
		setStdin(p.P.In)
		host = &hostSide{faults: map[int]string{}}
		if rr != nil {
			host.fired = rr.Faults
		}
		for _, f := range p.P.Faults {
			host.faults[f.At] = f.Kind
		}
		begin(0, p.Map)
		defer r.end()
		w := gmnlisp.New()
		w.SetStdout(&simOut{})
		defs := ""
		for _, f := range p.P.P.Fns {
			defs += f.String() + "\n"
		}
		if s := evalText(w, context.Background(), preamble+" "+wrapDefs+"\n"+defs+" 0"); s != "value 0" {
			return nil, "definitions: " + s, 0, 0, 0, 0
		}
		start = simrt.Ticks()
		var h = func() uint64 { return 0 }
		ctx := context.Background()
		if cut != nil {
			ctx, h = cut.install(rr)
			old := host.hook
			host.hook = func(c, k int, v gmnlisp.Node) {
				if h() == 0 {
					calls = c
				}
				if old != nil {
					old(c, k, v)
				}
			}
		}
		out = evalText(w, ctx, p.P.P.Main.String())
		return host.log, out, h(), start, simrt.Ticks(), calls
	}
	run(nil, nil)
	wlog, want, _, wstart, wend, _ := run(nil, nil)
	if want == "no end" {
		r.Probe("discarded")
		r.Log("discarded")
		return
	}
	log, out, at, start, end, calls := run(p.Cut, r)
	r.Log("%v\n%s cut %d", log, out, at)
	if start != wstart {
		r.Fail("nondeterminism", "the definitions took %d and %d steps", wstart, start)
		return
	}
	if at == 0 || at >= wend { // after the end: nothing changes
		if out != want || !sameLog(log, wlog) {
			r.Fail("changed", "nothing was cut, but the result is %s instead of %s", out, want)
		}
		r.Probe("cut after the end")
		return
	}
	if len(log) < calls || len(wlog) < calls || !sameLog(log[:calls], wlog[:calls]) {
		r.Fail("changed", "the host calls before the cut differ: %v instead of %v", log, wlog)
		return
	}
	cleanups := p.P.P.kindsUsed()["unwind"]
	if cleanups && out != "cancelled" && !strings.HasPrefix(out, "value") && !strings.HasPrefix(out, "crash") && out != "no end" {
		r.Probe("a cleanup form replaced the cancellation")
		return
	}
	if out != "cancelled" && out != want {
		r.Fail("wrong-result", "with the context ending (%v) the result is %s; it is %s without", p.Cut, out, want)
		return
	}
	if out == "cancelled" {
		r.Probe("finite program cut")
		if cleanups {
			r.Probe("finite program cut, with cleanups")
		} else if len(log) > len(wlog) || !sameLog(log, wlog[:len(log)]) {
			r.Fail("resumed", "after the cut (in host call %d) the program went on elsewhere: %v instead of %v", calls, log, wlog)
			return
		}
	} else {
		r.Probe("finite program finished first")
	}
	if end > start+cancelBound(at-start, p.P.P.Main.String()) {
		r.Fail("late", "stopped only %d steps after the context ended (%v)", end-at, p.Cut)
	}
	r.Key = hashOf(p.P.P.String(), p.P.Faults, p.Cut.String())
	r.Inter = hashOf(p.P.P.String(), at-start)
}

// kindsUsed tells which kinds of expressions occur.
func (p *Prog) kindsUsed() map[string]bool {
	m := map[string]bool{}
	var walk func(e *E)
	walk = func(e *E) {
		if e == nil {
			return
		}
		m[e.K] = true
		for _, c := range e.A {
			walk(c)
		}
	}
	walk(p.Main)
	for _, f := range p.Fns {
		walk(f.Body)
		walk(f.Arg)
	}
	return m
}

func cancelShrink(p *CancelPlan) []*CancelPlan {
	var out []*CancelPlan
	if p.P != nil {
		for _, c := range ctlShrink(p.P) {
			q := *p
			q.P = c
			out = append(out, &q)
		}
	}
	for i := range p.Wrap {
		q := *p
		q.Wrap = append(append([]string{}, p.Wrap[:i]...), p.Wrap[i+1:]...)
		out = append(out, &q)
	}
	for _, t := range []uint64{p.Cut.Tick / 2, p.Cut.Tick - p.Cut.Tick/10, p.Cut.Tick - 1} {
		if p.Cut.Call == 0 && t < p.Cut.Tick {
			q := *p
			c := *p.Cut
			c.Tick = t
			q.Cut = &c
			out = append(out, &q)
		}
	}
	return out
}

func cancelExplain(p *CancelPlan) string {
	if p.P != nil {
		return ctlExplain(p.P) + "; the context: " + p.Cut.String() + "\n"
	}
	return p.Defs + "\n" + p.text() + "\n; the context: " + p.Cut.String() + "\n"
}

func init() {
	register(Check{ID: "C01", Quick: 40000, Thor: 1500000,
		Rule: "an endless program (one of the looping constructs in any wrapping) or a generated finite one whose context ends while it runs; distinct by program text and step of the cut",
		Real: realAll, Stub: stubAll},
		cancelGen, cancelExec, cancelShrink, cancelExplain)
}
