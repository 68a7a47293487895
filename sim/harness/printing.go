package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"syscall"

	gmnlisp "github.com/hymkor/gmnlisp"
	"github.com/hymkor/gmnlisp/zz_verif/simos"
)

// Checks C06 and C07: output operations onto failing streams. The text of one
// directive or function is what it delivers in another interpreter to a stream
// that never fails; what operations made of them must deliver to each stream,
// where new lines start, and what is reported when a stream fails, follows
// from that.

// PrDir is one directive of a format control string with its argument.
type PrDir struct {
	D string `json:"d"`
	A string `json:"a,omitempty"`
	N int    `json:"n,omitempty"` // for ~&
}

type PrOp struct {
	K    string   `json:"k"` // fmt obj char int float expand dump; host (the host program writes), swap (it exchanges streams)
	S    string   `json:"s,omitempty"`
	D    []*PrDir `json:"ds,omitempty"`
	A    string   `json:"a,omitempty"`
	N    int      `json:"n,omitempty"`
	Mode int      `json:"m,omitempty"` // 0 handler, 1 ignore-errors, 2 the error ends the evaluation
	Via  int      `json:"v,omitempty"`
	Nest *PrOp    `json:"nest,omitempty"` // performed by the last argument
}

type PrSink struct {
	OS    bool   `json:"os,omitempty"` // the process's own standard output
	Fails []int  `json:"f,omitempty"`  // offsets at which a write fails
	Keep  bool   `json:"keep,omitempty"`
	Full  bool   `json:"full,omitempty"` // everything is taken and an error is returned all the same
	SW    bool   `json:"sw,omitempty"`
	Err   string `json:"err,omitempty"`
}

type PrPlan struct {
	Evals [][]*PrOp     `json:"evals"`
	Sinks []*PrSink     `json:"sinks"` // [0] standard output, [1] error output (nil: same stream), others swapped in
	Fs    []simos.Fault `json:"fs,omitempty"`
	Map   uint64        `json:"map,omitempty"`
}

const prDefs = `(defglobal g-hash (let ((h (make-hash-table))) (setf (gethash 'k h) "v") (setf (gethash 2 h) '(a "b")) h))
(defglobal g-arr #2a((1 "x") (b #\c)))
(defglobal g-arr0 (create-array (quote ()) "zero"))
(defclass <pc> () ((p1 :initform 1 :initarg p1) (p2 :initform "two
lines")))
(defglobal g-obj (create (class <pc>)))
(defglobal g-obj2 (create (class <pc>) 'p1 (list g-obj "in")))
(defgeneric p-gen (x))
(defglobal g-c1 (block b (with-handler (lambda (c) (return-from b c)) (car 1))))
(defglobal g-c2 (block b (with-handler (lambda (c) (return-from b c)) (error "x ~a
" '("q" 1)))))
(defglobal g-c3 (block b (with-handler (lambda (c) (return-from b c)) (div 1 0))))
(defglobal g-c4 (block b (with-handler (lambda (c) (return-from b c)) (car no-such-variable))))
(defun pf (x y) (list x "s" #\a 1.5 'sym) (if x y (pf y "a~&b")))
(defun pg () 1)
(defun ph (a :rest b) (let ((c (cons a b))) (format nil "
") c))
`

var prObjs = []string{`"abc"`, `""`, `"line` + "\n" + `"`, `"\"q\\"`, `1`, `-45`, `123456789`, `1.5`, `-0.25`, `1e10`, `#\a`, `#\newline`, `#\space`, `'sym`, `'|od d|`, `:key`, `nil`, `t`,
	`'(1 2 3)`, `'(a . b)`, `'(1 "two" #\3 (4.5 (six)) . seven)`, `''x`, "'`(a ,b)", `'(quote)`, `#(1 "a" b)`, `g-hash`, `g-arr`, `g-arr0`, `g-obj`, `"あいう"`, `#\あ`, `'("nl` + "\n" + `" #\newline)`,
	`#'pf`, `#'car`, `#'append`, `#'p-gen`, `(list #'pf "x")`, `(class <pc>)`, `(class <integer>)`, `(standard-output)`, `12345678901234567890`, `#3a(((1 "x")) ((2 #\a)))`, `g-obj2`, `g-c1`, `g-c2`, `g-c3`, `g-c4`, `*err-exist*`, `'(unquote x)`, `'(function x)`, `'(quote a b)`, `(vector "a" (vector #\newline))`, `"` + strings.Repeat("long ", 30) + `"`}
var prNums = []string{"0", "1", "-45", "123456789", "255", "1.5", "-3.25"}
var prText = []string{"a", "b\n", "text", "\n", "あ", "two\nlines", "x\n\n", " ", "", "(", "~~"}

func prDir(r *Rand, bad int) *PrDir {
	switch r.W(22, 8, 22, 24, 10, 6, bad) {
	case 0:
		n := 1
		if r.P(15) {
			n = r.Range(2, 3)
			return &PrDir{D: fmt.Sprintf("~%d&", n), N: n}
		}
		return &PrDir{D: "~&", N: n}
	case 1:
		return &PrDir{D: r.Str("~%", "~2%", "~%", "~3%")}
	case 2:
		return &PrDir{D: r.Str(prText...)}
	case 3:
		return &PrDir{D: r.Str("~a", "~s", "~A", "~S", "~12a", "~9s"), A: r.Str(prObjs...)}
	case 4:
		return &PrDir{D: r.Str("~d", "~x", "~o", "~b", "~8d", "~12,'0x", "~6,'*d", "~5o", "~20b"), A: r.Str(prNums...)}
	case 5:
		return &PrDir{D: r.Str("~f", "~e", "~g", "~10f", "~12,3f", "~9e", "~8g"), A: r.Str(prNums...)}
	}
	return &PrDir{D: r.Str("~d", "~x", "~f", "~q"), A: r.Str(`"abc"`, "'sym", "nil", `#\a`)}
}

func prOp(r *Rand, streams []string, depth int) *PrOp {
	o := &PrOp{S: streams[r.N(len(streams))], Via: r.N(5), Mode: r.W(5, 3, 2)}
	bad := 0
	if o.S == "out" || o.S == "err" || o.S == "t" {
		bad = 3
	}
	switch r.W(50, 10, 7, 5, 4, 5, 4, 6) {
	case 0:
		o.K = "fmt"
		for i, n := 0, r.Range(1, 5); i < n; i++ {
			o.D = append(o.D, prDir(r, bad))
		}
		if r.P(6) { // not a directive at the end of the string
			o.D = append(o.D, &PrDir{D: "~"})
		}
		if depth == 0 && r.P(12) {
			o.Nest = prOp(r, streams, 1)
			if o.Nest.K == "expand" || o.Nest.K == "dump" || o.Nest.S == o.S {
				o.Nest = nil
			} else {
				o.Nest.Nest, o.Nest.Mode = nil, r.N(2)
			}
		}
	case 1:
		o.K, o.A, o.N = "obj", r.Str(prObjs...), r.N(2)
	case 2:
		o.K, o.A = "char", r.Str(`#\a`, `#\newline`, `#\newline`, `#\あ`, `#\space`)
	case 3:
		o.K, o.A, o.N = "int", r.Str(prNums[:5]...), []int{2, 8, 10, 16, 36}[r.N(5)]
	case 4:
		o.K, o.A = "float", r.Str("1.5", "-0.125", "2", "1e20")
	case 5:
		o.K, o.S, o.A = "expand", "t", r.Str("pf", "pg", "ph")
	case 6:
		o.K, o.S, o.Mode = "dump", "t", 2
	case 7:
		o.K, o.A, o.N = "host", r.Str(prText...), r.N(4)
		if o.A == "" {
			o.A = "h"
		}
		o.S = r.Str("t", "t", "err")
	}
	return o
}

func prSink(r *Rand, fail bool) *PrSink {
	s := &PrSink{SW: r.P(40), Err: r.Str("EPIPE", "ENOSPC", "EOF", "text", "closed")}
	if fail {
		for i, n := 0, r.Range(1, 2); i < n; i++ {
			s.Fails = append(s.Fails, r.W(1, 1, 1)*r.N(40)+r.N(12))
		}
		sort.Ints(s.Fails)
		s.Keep = r.P(50)
		s.Full = !s.Keep && r.P(8)
	}
	return s
}

func prGen(fresh bool) func(r *Rand, idx int, tier string) *PrPlan {
	return func(r *Rand, idx int, tier string) *PrPlan {
		p := &PrPlan{Map: r.U64() >> 12}
		fail := 75
		if fresh {
			fail = 30
		}
		p.Sinks = []*PrSink{prSink(r, r.P(fail)), prSink(r, r.P(fail/2))}
		if r.P(15) {
			p.Sinks[1] = nil
		}
		if r.P(25) {
			p.Sinks[0] = &PrSink{OS: true}
			for i, n := 0, r.N(3); i < n; i++ {
				p.Fs = append(p.Fs, simos.Fault{Op: "write", Path: "/dev/stdout", Nth: 1 + r.N(12), Err: r.Str("EPIPE", "ENOSPC", "EIO"), Part: r.N(3), Keep: r.P(30)})
			}
		}
		for i, n := 0, r.W(6, 2, 1); i < n; i++ {
			p.Sinks = append(p.Sinks, prSink(r, r.P(fail)))
		}
		all := []string{"t", "t", "out", "err", "s1", "s2", "f1", "f2", "nil"}
		var streams []string
		for i, n := 0, r.Range(1, 3); i < n; i++ {
			streams = append(streams, all[r.N(len(all))])
		}
		if !fresh && r.P(80) {
			streams = append(streams, "t")
		}
		if r.P(12) && !fresh {
			p.Fs = append(p.Fs, simos.Fault{Op: "write", Path: r.Str("f1", "f2"), Nth: 1, Err: "ENOSPC", Part: r.N(4), Keep: true})
		}
		if fresh && r.P(10) { // a text with a newline at its end is cut, and a fresh line is asked for
			sw := r.P(60)
			p.Sinks = []*PrSink{{SW: sw, Fails: []int{r.N(9)}, Err: r.Str("EPIPE", "text")}, nil}
			if r.P(40) {
				p.Sinks[0].Fails = append(p.Sinks[0].Fails, p.Sinks[0].Fails[0]+1+r.N(6))
			}
			first := &PrOp{K: "host", S: "t", A: r.Str("b\n", "two\nlines", "x\n\n", "\nab", "あ\n", "\nあ"), N: r.N(4), Mode: r.N(2)}
			switch r.N(4) {
			case 0:
				first = &PrOp{K: "obj", S: r.Str("t", "out", "err"), A: "\"line\n\"", N: r.N(2), Mode: r.N(2), Via: r.N(5)}
			case 1:
				first = &PrOp{K: "fmt", S: r.Str("t", "out", "err"), D: []*PrDir{{D: r.Str("~a", "~s", "~12a"), A: r.Str("\"line\n\"", "\"\nb\"", "#\\newline", "g-c2", "#\\あ")}}, Mode: r.N(2), Via: r.N(5)}
			}
			p.Fs, p.Evals = nil, [][]*PrOp{{first, {K: "fmt", S: r.Str("t", "out", "err"), D: []*PrDir{{D: "~&", N: 1}}, Mode: r.N(2), Via: r.N(5)}}}
			if r.P(50) {
				p.Evals = append(p.Evals, []*PrOp{prOp(r, []string{"t", "out"}, 0)}, []*PrOp{{K: "fmt", S: "t", D: []*PrDir{{D: "~&", N: 1}}, Mode: r.N(2)}})
			}
			return p
		}
		n := r.Range(2, 9)
		if tier == "thorough" && r.P(25) {
			n = r.Range(9, 30)
		}
		var cur []*PrOp
		for i := 0; i < n; i++ {
			o := prOp(r, streams, 0)
			if r.P(7) {
				o = &PrOp{K: "swap", S: r.Str("t", "err"), N: r.N(len(p.Sinks) + 1)}
			}
			if o.Mode == 2 || o.K == "swap" {
				if len(cur) > 0 {
					p.Evals = append(p.Evals, cur)
					cur = nil
				}
				p.Evals = append(p.Evals, []*PrOp{o})
				continue
			}
			cur = append(cur, o)
			if r.P(25) {
				p.Evals = append(p.Evals, cur)
				cur = nil
			}
		}
		if len(cur) > 0 {
			p.Evals = append(p.Evals, cur)
		}
		return p
	}
}

var prStreamExpr = map[string]string{"t": "t", "out": "(standard-output)", "err": "(error-output)", "nil": "nil", "s1": "g-s1", "s2": "g-s2", "f1": "g-f1", "f2": "g-f2"}

// form renders the bare operation onto a stream.
func (o *PrOp) form(stream string, ids *int) string {
	fn, args := "format", ""
	switch o.K {
	case "fmt":
		f := ""
		for _, d := range o.D {
			f += d.D
			if d.A != "" {
				args += " " + d.A
			}
		}
		args = lispString(f) + args
		if o.Nest != nil {
			args += " " + o.Nest.step(ids)
		}
	case "obj":
		fn, args = "format-object", o.A+" "+[]string{"nil", "t"}[o.N]
	case "char":
		fn, args = "format-char", o.A
	case "int":
		fn, args = "format-integer", fmt.Sprintf("%s %d", o.A, o.N)
	case "float":
		fn, args = "format-float", o.A
	case "expand":
		return "(expand-defun " + o.A + ")"
	case "dump":
		return "(gmn:dump-session)"
	}
	switch o.Via {
	case 1:
		return fmt.Sprintf("(funcall #'%s %s %s)", fn, stream, args)
	case 2:
		return fmt.Sprintf("(apply #'%s (list %s %s))", fn, stream, args)
	case 3:
		return fmt.Sprintf("(let ((o %s)) (%s o %s))", stream, fn, args)
	}
	return fmt.Sprintf("(%s %s %s)", fn, stream, args)
}

// step renders the operation with the report of its outcome.
func (o *PrOp) step(ids *int) string {
	if o.K == "host" {
		id := *ids
		*ids++
		return fmt.Sprintf("(h1 %d)", id)
	}
	op := o.form(prStreamExpr[o.S], ids) // a nested operation comes first
	id := *ids
	*ids++
	if o.S != "nil" {
		op = "(progn " + op + " 'ok)"
	}
	switch o.Mode {
	case 0:
		op = "(catch 'q (with-handler (lambda (c) (throw 'q 'failed)) " + op + "))"
	case 1:
		op = "(ignore-errors " + op + ")"
	}
	return fmt.Sprintf("(h0 (list %d %s))", id, op)
}

// order lists the operations as they are reported.
func (p *PrPlan) order() []*PrOp {
	var r []*PrOp
	for _, e := range p.Evals {
		for _, o := range e {
			if o.K == "swap" {
				continue
			}
			if o.Nest != nil {
				r = append(r, o.Nest)
			}
			r = append(r, o)
		}
	}
	return r
}

// prSeg is a part of what an operation delivers.
type prSeg struct {
	fresh int // a fresh-line directive with so many lines
	text  string
}

// texts computes what an operation delivers if nothing fails; bad tells that it
// fails by itself after that.
func prSegs(ref *gmnlisp.World, o *PrOp) (segs []prSeg, bad bool) {
	run := func(code string) (string, bool) {
		b := &simBuf{}
		ref.SetStdout(b)
		s := evalText(ref, context.Background(), "(progn "+code+" 'fine)")
		return string(b.b), s != "value fine"
	}
	switch o.K {
	case "fmt":
		for _, d := range o.D {
			if d.N > 0 {
				segs = append(segs, prSeg{fresh: d.N})
				continue
			}
			t, bad := run("(format t " + lispString(d.D) + " " + d.A + ")")
			segs = append(segs, prSeg{text: t})
			if bad {
				return segs, true
			}
		}
	case "host":
		return []prSeg{{text: o.A}}, false
	case "dump":
		return nil, false
	default:
		t, bad := run((&PrOp{K: o.K, A: o.A, N: o.N}).form("t", new(int)))
		return []prSeg{{text: t}}, bad
	}
	return segs, false
}

// prTexts gives the text for a stream whose last byte is or is not a newline,
// following the rule of ~&, and every text that other rules would give.
func prTexts(segs []prSeg, lf bool) (want string, all []string) {
	all = []string{""}
	for _, s := range segs {
		if s.fresh == 0 {
			want += s.text
			for i := range all {
				all[i] += s.text
			}
			continue
		}
		n := s.fresh
		if (want == "" && lf) || strings.HasSuffix(want, "\n") {
			n--
		}
		want += strings.Repeat("\n", n)
		var next []string
		for _, a := range all {
			for k := 0; k <= s.fresh; k++ {
				next = append(next, a+strings.Repeat("\n", k))
			}
		}
		all = next
	}
	return
}

func prefixOfAny(s string, all []string) bool {
	for _, a := range all {
		if strings.HasPrefix(a, s) {
			return true
		}
	}
	return false
}

func isAny(s string, all []string) bool {
	for _, a := range all {
		if a == s {
			return true
		}
	}
	return false
}

// prSinkState is a host program's stream.
type prSinkState struct {
	*PrSink
	b     []byte
	fails []int
	fired int
	r     *Run
}

var errSink = errors.New("the stream is broken")

func (s *prSinkState) error() error {
	switch s.Err {
	case "EOF":
		return io.EOF
	case "text":
		return errSink
	case "closed":
		return io.ErrClosedPipe
	case "ENOSPC":
		return syscall.ENOSPC
	}
	return syscall.EPIPE
}

func (s *prSinkState) Write(b []byte) (int, error) {
	if len(s.fails) > 0 && len(s.b)+len(b) > s.fails[0] {
		n := s.fails[0] - len(s.b)
		if n < 0 {
			n = 0
		}
		if !(s.Keep && len(s.fails) == 1) {
			s.fails = s.fails[1:]
		}
		if s.Full {
			n = len(b)
		}
		s.b = append(s.b, b[:n]...)
		s.fired++
		s.r.Fault("stream-write:" + s.Err)
		return n, s.error()
	}
	s.b = append(s.b, b...)
	return len(b), nil
}

type prSinkSW struct{ *prSinkState }

func (s prSinkSW) WriteString(t string) (int, error) { return s.Write([]byte(t)) }

func (s *prSinkState) writer() io.Writer {
	switch {
	case s.OS:
		return simos.Stdout
	case s.SW:
		return prSinkSW{s}
	}
	return s
}

func (s *prSinkState) content() string {
	if s.OS {
		return simos.Output(simos.Stdout)
	}
	return string(s.b)
}

func prExec(fresh bool) func(p *PrPlan, r *Run) {
	return func(p *PrPlan, r *Run) {
		fail := func(rule bool, class, format string, a ...any) {
			if rule == fresh {
				r.Fail(class, format, a...)
			} else {
				r.Probe("left-to-the-other-check")
			}
		}
		order := p.order()
		ids := 0
		for _, e := range p.Evals {
			for _, o := range e {
				if o.K != "swap" {
					intern("g-s1 g-s2 g-f1 g-f2 q ok failed fine " + o.step(&ids))
				}
			}
		}
		intern(prDefs)
		simos.Reset(nil, -1, nil)
		begin(0, p.Map)
		defer r.end()
		defs := prDefs + "(defglobal g-s1 (create-string-output-stream)) (defglobal g-s2 (create-string-output-stream)) (defglobal g-f1 (open-output-file \"f1\")) (defglobal g-f2 (open-output-file \"f2\"))\n0"
		// what every operation delivers without faults
		ref := gmnlisp.New()
		ref.SetErrout(&simBuf{})
		if s := evalText(ref, context.Background(), prDefs+" 0"); s != "value 0" {
			r.Fail("definitions", "%s", s)
			return
		}
		type opText struct {
			segs []prSeg
			bad  bool
		}
		texts := make([]opText, len(order))
		for i, o := range order {
			texts[i].segs, texts[i].bad = prSegs(ref, o)
		}
		// the streams
		var sinks []*prSinkState
		for _, s := range p.Sinks {
			if s == nil {
				sinks = append(sinks, nil)
				continue
			}
			sinks = append(sinks, &prSinkState{PrSink: s, fails: append([]int{}, s.Fails...), r: r})
		}
		w := gmnlisp.New()
		nodes := make([]io.Writer, len(sinks))
		if !sinks[0].OS {
			w.SetStdout(sinks[0].writer())
		}
		nodes[0] = w.Stdout()
		cur := map[string]int{"t": 0, "err": 0}
		if sinks[1] != nil {
			w.SetErrout(sinks[1].writer())
			nodes[1] = w.Errout()
			cur["err"] = 1
		} else {
			w.SetErrout(w.Stdout())
		}
		if s := evalText(w, context.Background(), defs); s != "value 0" {
			r.Fail("definitions", "%s", s)
			return
		}
		simos.SetFaults(append([]simos.Fault{}, p.Fs...))
		// what is on the streams
		have := make([]string, len(sinks))
		soft := map[string]string{} // string and file streams: what they must hold
		fuzzy := map[string]bool{}
		fired, hostFired := fsFired(), 0
		state := func() (f int) {
			for _, s := range sinks {
				if s != nil {
					f += s.fired
				}
			}
			return
		}
		target := func(o *PrOp) (int, string) {
			switch o.S {
			case "t", "out":
				return cur["t"], ""
			case "err":
				return cur["err"], ""
			}
			return -1, o.S
		}
		seen, hits := 0, 0
		judge := func(id int, ok bool, value gmnlisp.Node, how string) {
			o, x := order[id], texts[id]
			faulted := fsFired() > fired || state() > hostFired
			fired, hostFired = fsFired(), state()
			if faulted {
				hits++
				r.Probe("failing-" + o.K)
			}
			if faulted && ok {
				fail(false, "silent", "operation %d %s: its stream failed but the operation was reported as successful", id, how)
			}
			if !faulted && ok == x.bad && !fuzzy[o.S] {
				if ok {
					fail(false, "success", "operation %d %s: reported as successful although it fails on every stream", id, how)
				} else {
					fail(false, "failure", "operation %d %s: failed although its stream works", id, how)
				}
			}
			// every stream of the host program
			sink, name := target(o)
			for i, s := range sinks {
				if s == nil {
					continue
				}
				now := s.content()
				was := have[i]
				have[i] = now
				if !strings.HasPrefix(now, was) {
					fail(false, "lost", "operation %d %s: output delivered before to stream %d has changed", id, how, i)
					continue
				}
				delta := now[len(was):]
				if i != sink {
					if delta != "" {
						fail(false, "misdirected", "operation %d %s: delivered %q to stream %d", id, how, delta, i)
					}
					continue
				}
				lf := was == "" || strings.HasSuffix(was, "\n")
				want, all := prTexts(x.segs, lf)
				if ok && faulted {
					continue // reported above
				}
				good := isAny
				right := delta == want
				if faulted || x.bad {
					good = prefixOfAny
					right = strings.HasPrefix(want, delta)
				}
				if right {
					for _, g := range x.segs {
						if g.fresh > 0 {
							r.Probe("fresh-line")
							if faulted || len(was) > 0 {
								r.Probe("fresh-line-after-output")
							}
						}
					}
					continue
				}
				if good(delta, all) {
					fail(true, "fresh-line", "operation %d %s: delivered %q to a stream holding %q instead of %q", id, how, delta, brief(tail(was)), want)
				} else {
					fail(false, "text", "operation %d %s: delivered %q instead of %q (stream failed: %v)", id, how, delta, want, faulted)
				}
			}
			if sink < 0 {
				was := soft[name]
				if name == "nil" {
					was = ""
				}
				want, all := prTexts(x.segs, was == "" || strings.HasSuffix(was, "\n"))
				switch {
				case faulted || x.bad || fuzzy[name] || !ok:
					fuzzy[name] = true
				case name == "nil":
					s, isS := value.(gmnlisp.String)
					if !isS || s.String() != want {
						fail(isS && isAny(s.String(), all), "string", "operation %d %s: returned %s instead of %q", id, how, valueText(value), want)
					}
				default:
					soft[name] += want
				}
			}
		}
		host = &hostSide{faults: map[int]string{}, fired: r.Faults}
		host.hook = func(call, k int, v gmnlisp.Node) {
			id := -1
			if k == 1 {
				n, _ := v.(gmnlisp.Integer)
				id = int(n)
			} else if l, ok := nodeList(v); ok && len(l) == 2 {
				n, _ := l[0].(gmnlisp.Integer)
				id = int(n)
				v = l[1]
			}
			if id != seen || id >= len(order) {
				r.Fail("order", "operation %d was reported when operation %d was due", id, seen)
				return
			}
			seen++
			o := order[id]
			if k == 1 {
				out := w.Stdout()
				if o.S == "err" {
					out = w.Errout()
				}
				var err error
				switch b := out.(type) {
				case io.ByteWriter:
					if o.N == 1 {
						for i := 0; i < len(o.A) && err == nil; i++ {
							err = b.WriteByte(o.A[i])
						}
						break
					}
					err = hostWrite(out, o)
				default:
					err = hostWrite(out, o)
				}
				judge(id, err == nil, nil, "(the host program writes "+fmt.Sprintf("%q", o.A)+")")
				return
			}
			text := valueText(v)
			ok := text == "ok"
			if o.S == "nil" {
				_, ok = v.(gmnlisp.String)
			}
			judge(id, ok, v, o.form(prStreamExpr[o.S], new(int)))
		}
		id := 0
		for _, e := range p.Evals {
			if e[0].K == "swap" {
				o := e[0]
				if o.N < len(sinks) && sinks[o.N] != nil {
					if nodes[o.N] == nil { // its first use
						if o.S == "t" {
							w.SetStdout(sinks[o.N].writer())
							nodes[o.N] = w.Stdout()
						} else {
							w.SetErrout(sinks[o.N].writer())
							nodes[o.N] = w.Errout()
						}
					} else if o.S == "t" {
						w.SetStdout(nodes[o.N])
					} else {
						w.SetErrout(nodes[o.N])
					}
					cur[o.S] = o.N
				}
				r.Log("swap %s %d", o.S, o.N)
				continue
			}
			if e[0].K == "dump" && id < len(texts) {
				old := w.Stdout()
				b := &simBuf{}
				w.SetStdout(b)
				evalText(w, context.Background(), "(gmn:dump-session)")
				w.SetStdout(old)
				texts[id].segs = []prSeg{{text: string(b.b)}}
				if len(b.b) > 0 {
					r.Probe("dump")
				}
			}
			var b strings.Builder
			from := id
			for _, o := range e {
				b.WriteString(o.step(&id) + "\n")
			}
			b.WriteString("0")
			got := evalText(w, context.Background(), b.String())
			r.Evals++
			r.Log("%s", got)
			switch {
			case strings.HasPrefix(got, "crash") || got == "no end":
				r.Fail("crash", "%s", got)
			case got == "value 0" && seen != id:
				r.Fail("order", "%d of %d operations were performed", seen-from, id-from)
			case got != "value 0" && e[0].Mode == 2 && seen == id-1:
				seen++
				judge(id-1, false, nil, e[0].form(prStreamExpr[e[0].S], new(int)))
			case got != "value 0":
				r.Fail("outcome", "the evaluation ended with %s", got)
			}
			if r.Viol != "" {
				break
			}
		}
		for _, l := range host.log {
			r.Log("%s", l)
		}
		for i, s := range sinks {
			if s != nil {
				r.Log("stream %d: %q", i, s.content())
			}
		}
		if r.Viol != "" {
			return
		}
		for _, name := range sortedKeys(soft) {
			if fuzzy[name] || name == "nil" {
				continue
			}
			var got string
			if name[0] == 's' {
				var v gmnlisp.Node
				guard(func() { v, _ = w.Interpret(context.Background(), "(get-output-stream-string g-"+name+")") })
				s, _ := v.(gmnlisp.String)
				got = s.String()
			} else {
				n := fsFired()
				if s := evalText(w, context.Background(), "(close g-"+name+")"); s != "value nil" || fsFired() > n {
					continue // C05
				}
				got, _ = simos.Get(name)
			}
			if got != soft[name] {
				sameButLines := strings.ReplaceAll(got, "\n", "") == strings.ReplaceAll(soft[name], "\n", "")
				fail(sameButLines, "content", "stream %s holds %q instead of %q", name, got, soft[name])
			}
		}
		if fresh {
			if r.Probes["fresh-line-after-output"] > 0 {
				r.Key = hashOf(jsonText(p))
			}
		} else if hits > 0 {
			r.Key = hashOf(jsonText(p))
		}
		r.Inter = hashOf(strings.Join(have, "\x00"), strings.Join(host.log, " "))
	}
}

func tail(s string) string {
	if len(s) > 20 {
		return s[len(s)-20:]
	}
	return s
}

func hostWrite(out io.Writer, o *PrOp) error {
	var err error
	switch o.N {
	case 2:
		_, err = io.WriteString(out, o.A)
	case 3:
		_, err = fmt.Fprint(out, o.A)
	default:
		_, err = out.Write([]byte(o.A))
	}
	return err
}

func prShrink(p *PrPlan) []*PrPlan {
	var out []*PrPlan
	evals := func(i int, e []*PrOp) {
		q := *p
		if e == nil {
			q.Evals = without(p.Evals, i)
		} else {
			q.Evals = append([][]*PrOp{}, p.Evals...)
			q.Evals[i] = e
		}
		out = append(out, &q)
	}
	for i := range p.Fs {
		q := *p
		q.Fs = without(p.Fs, i)
		out = append(out, &q)
	}
	for i, e := range p.Evals {
		evals(i, nil)
		for j, o := range e {
			if len(e) > 1 {
				evals(i, without(e, j))
			}
			put := func(x PrOp) {
				f := append([]*PrOp{}, e...)
				f[j] = &x
				evals(i, f)
			}
			if o.Nest != nil {
				x := *o
				x.Nest = nil
				put(x)
			}
			if o.Via > 0 {
				x := *o
				x.Via = 0
				put(x)
			}
			for k := range o.D {
				if len(o.D) > 1 {
					x := *o
					x.D = without(o.D, k)
					put(x)
				}
			}
		}
	}
	for i, s := range p.Sinks {
		if s != nil && len(s.Fails) > 0 {
			for k := range s.Fails {
				q := *p
				q.Sinks = append([]*PrSink{}, p.Sinks...)
				x := *s
				x.Fails = without(s.Fails, k)
				q.Sinks[i] = &x
				out = append(out, &q)
			}
		}
	}
	return out
}

func prExplain(p *PrPlan) string {
	var b strings.Builder
	id := 0
	for i, s := range p.Sinks {
		switch {
		case s == nil:
			fmt.Fprintf(&b, "; stream %d: the error output is the standard output\n", i)
		case s.OS:
			fmt.Fprintf(&b, "; stream %d: os.Stdout\n", i)
		default:
			fmt.Fprintf(&b, "; stream %d: a writer that fails at offsets %v with %s (from then on: %v; after taking all: %v)\n", i, s.Fails, s.Err, s.Keep, s.Full)
		}
	}
	for _, e := range p.Evals {
		if e[0].K == "swap" {
			fmt.Fprintf(&b, "; the host program makes stream %d the %s output\n", e[0].N, map[string]string{"t": "standard", "err": "error"}[e[0].S])
			continue
		}
		b.WriteString("; evaluation\n")
		for _, o := range e {
			b.WriteString(o.step(&id))
			if o.K == "host" {
				fmt.Fprintf(&b, " ; the host program writes %q to %s", o.A, o.S)
			}
			b.WriteString("\n")
		}
	}
	return b.String() + fsFaultText(p.Fs)
}

func init() {
	register(Check{ID: "C06", Quick: 40000, Thor: 2000000,
		Rule: "a sequence of output operations in which at least one stream fails; distinct by operations and fault placement",
		Real: realAll, Stub: stubAll}, prGen(false), prExec(false), prShrink, prExplain)
	register(Check{ID: "C07", Quick: 50000, Thor: 2000000,
		Rule: "a sequence of output operations with a ~& that follows output on the same stream or a failing write; distinct by operations and fault placement",
		Real: realAll, Stub: stubAll}, prGen(true), prExec(true), prShrink, prExplain)
}
