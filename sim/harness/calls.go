package main

import (
	"context"
	"fmt"
	"regexp"
	"strings"

	gmnlisp "github.com/hymkor/gmnlisp"
)

// Part of the checks C17 and C18: a single call of anything in the library with
// arguments that may make little sense. What the call does alone decides what
// it has to do inside of handlers, ignore-errors and exits: handlers are called
// once for a call that fails and never for one that does not, and whoever
// leaves from a handler, an argument or a callback arrives.

type CallPlan struct {
	Name string   `json:"name"`
	Args []string `json:"args,omitempty"`
	Way  string   `json:"way"`
	Good string   `json:"good,omitempty"` // resumes the condition; "" in Form = the whole call
	Form string   `json:"form,omitempty"`
}

// names that establish handlers themselves, signal without failing, or change
// what other interpreters see
var callExcluded = map[string]bool{"signal-condition": true, "error": true, "cerror": true, "with-handler": true, "ignore-errors": true, "unwind-protect": true,
	"continue-condition": true, "gmn:dump-session": true, "defclass": true, "defgeneric": true, "load": true,
	"setq": true, "psetq": true, "setf": true, "incf": true, "decf": true} // global variables belong to the process

var callNames = func() (out []string) {
	for _, n := range oddNames {
		if !callExcluded[n] {
			out = append(out, n)
		}
	}
	for i := 0; i < 4; i++ { // arithmetic of mixed types
		out = append(out, "+", "-", "*", "/", "<", "<=", ">", ">=", "=", "assure", "create", "generic-function-p", "mapcar", "apply")
	}
	return out
}()

var callArgs = append([]string{"2", "3.5", "1.0", "-2.5", "#\\b", "100", "(lambda (&rest y) (h9 7) 1)", "(lambda (&rest y) (h9 8) (car 5))", "(lambda (y) (nofn5 y))",
	"(lambda () (zzmac))", "'(1 2.5)", "(class <string>)", "(class <zzclass>)", "'name", "(list #'+ 1)", "(car 7)", "(create (class <zzclass>))"}, oddArgs...)

// calls whose failing argument a handler may replace
var callResume = [][3]string{
	{"(car %s)", "5", "'(1 2)"}, {"(cdr %s)", "\"abc\"", "'(1 2)"}, {"(string-append \"a\" %s \"b\")", "5", "\"x\""}, {"(char= #\\a %s)", "5", "#\\a"},
	{"(char-index %s \"abc\")", "'a", "#\\b"}, {"(elt '(1 2 3) %s)", "\"x\"", "1"}, {"(create-string %s)", "2.5", "2"}, {"(+ 1 %s)", "'a", "5"}, {"(- 9 %s)", "\"x\"", "5"},
	{"(* 3 %s)", "'a", "5"}, {"(/ 12 %s)", "'a", "5"}, {"(< 1 %s)", "'a", "5"}, {"(+ 1.5 %s)", "'a", "2.5"}, {"(- 1.5 %s)", "'a", "2.5"}, {"(* 1.5 %s)", "#\\a", "2.5"}, {"(/ 5.0 %s)", "'a", "2.5"},
	{"(> 1 %s)", "1.5", "1.5"}, {"(length %s)", "5", "'(1 2)"}, {"(member 1 %s)", "5", "'(0 1 2)"}, {"(assoc 1 (list %s))", "5", "'(1 . 2)"}, {"(set-car 1 %s)", "5", "(list 3)"},
	{"(nreverse %s)", "5", "(list 1 2)"}, {"(gethash 'a %s)", "5", "(make-hash-table)"}, {"(funcall %s 1)", "5", "(lambda (x) (+ x 1))"}, {"(apply %s '(1))", "5", "(lambda (x) (+ x 1))"},
	{"(mapcar %s '(1 2))", "5", "(lambda (x) (+ x 1))"}, {"(maplist %s '(1 2))", "5", "(lambda (x) (length x))"}, {"(subseq \"abc\" %s 2)", "'a", "1"}, {"(string< \"a\" %s)", "5", "\"b\""}, {"(format-char nil %s)", "5", "#\\a"},
	{"(format nil %s 1)", "5", "\"<~a>\""}, {"(format-integer nil 5 %s)", "'a", "2"}, {"(parse-number %s)", "5", "\"12\""}, {"(string-index %s \"abc\")", "5", "\"b\""}, {"(probe-file %s)", "5", "\"nofile\""},
	{"(file-length \"nofile\" %s)", "'a", "8"}, {"(read-line (create-string-input-stream %s))", "5", "\"line\""}, {"(aref %s 0)", "5", "(vector 7)"}, {"(aref (vector 1 2) %s)", "\"x\"", "1"},
	{"(hash-table-count %s)", "5", "(make-hash-table)"}, {"(set-gethash 1 'a %s)", "5", "(make-hash-table)"}, {"(symbolp (class %s))", "", ""},
}

// calls that a handler may give a value in place of the failing operation
var callWhole = []string{`(convert "abc" <integer>)`, `(convert "1x" <float>)`, `(parse-number "abc")`, `(parse-number "")`, "(/ 1 0)", "(/ 1.0 0)", "(/ 1 0.0)", "(/ 1.5 0.0)", "(rem 1 0)",
	`(read-line (create-string-input-stream ""))`, `(read-char (create-string-input-stream ""))`, `(read (create-string-input-stream " "))`, "(close 5)",
	`(the <integer> "x")`, `(assure <integer> "x")`, `(assure <string> 1)`, `(file-length "x" 0)`,
	`(read (create-string-input-stream ""))`}

// calls that fail at each of the places where the runtime signals a condition
var callFails = []string{"(create-array '(0))", "(create-array '(2 -1) 5)", "(create-array '(100000 100000))", "(set-aref 1 (vector 1 2) 2)", "(set-aref 1 (vector 1 2) -1)", "(set-aref 7 (create-array '(2 2) 0) 1 2)", "(set-aref 7 (create-array '(2 2) 0) 2 0)", "(setf (aref (vector 1) 1) 2)",
	"(set-aref 7 (create-array '(2 2) 0) 1)", "(create-string -1)", "(create-string 2000000000)", "(create-string 2 5)", "(create (class <integer>))", "(create (class <function>))", "(create 5)", "(create (class <string>))", "(name \"x\")", "(name 1.5)",
	"(file-length \"nofile\" 0)", "(file-length \"nofile\" -8)", "(create-list 'a 1)", "(create-list \"3\" 1)", "(parse-number \"1e999\")", "(parse-number \"1e-999\")", "(parse-number \"1.2.3\")", "(convert \"1e999\" <float>)", "(convert 'a <integer>)", "(convert \"\" <integer>)", "(convert #\\a <float>)", "(convert 5 <list>)",
	"((lambda (x x) x) 1 2)", "(lambda (x &rest x) x)", "(defun zzf (x x) 1)", "(flet ((zzf (y &rest y) 1)) 1)", "(labels ((zzf (y y) 1)) (zzf 1 2))", "(defun if (x) 1)", "(defgeneric if (x))", "(defun quote () 1)", "(return 1)", "(return-from zznone 1)", "(throw 'zznone 1)", "(throw 5 1)", "(go zznone)",
	"(progn (h1 1) (return-from zznone (h1 2)))", "(catch 'zza (throw 'zzk 1))", "(block zza (return-from zzk 1))", "(tagbody zza (go zzk))", "(let ((f (block zzk (lambda () (return-from zzk 1))))) (funcall f))", "(let ((f (catch 'zzc (lambda () (throw 'zzc 1))))) (funcall f))", "(let ((f nil)) (tagbody (setq f (lambda () (go zzl))) zzl) (funcall f))",
	"(mapcar #'car '((1) 5 (2)))", "(mapc (lambda (x) (/ 1 x)) '(1 0))", "(maplist (lambda (x) (car (car x))) '(1 2))", "(mapcan #'list 5)", "(mapcon (lambda (x) (nofn9 x)) '(1))", "(mapl #'nofn8 '(1))", "(apply #'car '(5))", "(apply #'+ 1 '(a))", "(funcall 'car '(1))", "(funcall #'vector)", "(funcall (lambda (x) x))", "(funcall (lambda () 1) 2)",
	"((lambda (x) x))", "((lambda () 1) 2)", "(car)", "(car 1 2)", "(cons 1)", "(cons 1 2 3)", "(let ((x)) x)", "(let (5) 1)", "(let ((5 1)) 1)", "(let* ((x 1) (y (car x))) y)", "(setf 5 1)", "(setf (car 5) 1)", "(setf (cdr 'a) 1)", "(setf (elt \"abc\" 9) #\\a)", "(setf (nofn7 1) 2)", "(incf zzundef)", "(setq zzundef 1)", "(zzundef)", "zzundef", "(list zzundef 1)", "(dynamic zzundef)", "(setf (dynamic zzundef) 1)",
	"(function zzundef)", "(1 2)", "(\"x\" 1)", "((car (list #'car)) 5)", "((list 1) 2)", "(nth 5 5)", "(nthcdr 2 5)", "(aref (vector 1 2) 2)", "(aref (vector 1 2) -1)", "(aref (vector 1) 0 0)", "(aref (create-array '(2 2) 0) 2 0)", "(elt (vector 1 2) 5)", "(elt (vector 1 2) -1)", "(elt \"abc\" 3)", "(vector-zz 1)", "(subseq \"abc\" 2 'a)", "(length '(1 2 . 3))", "(reverse '(1 . 2))", "(append '(1 . 2) '(3))", "(nreverse '(1 . 2))", "(assoc 1 '(2 3))", "(member 1 '(2 . 3))",
	"(case-using 5 1 ((1) 2))", "(case-using #'nofn4 1 ((1) 2))", "(cond 5)", "(cond ((car 5) 1))", "(when (car 5) 1)", "(dolist (x 5) x)", "(dotimes (i 'a) i)", "(for ((i 0 (car i))) ((eql i 9) i))", "(while (car 5) 1)", "(unwind-protect (car 5) (h1 1))", "(block zzr (unwind-protect 1 (return-from zzr 2)))", "(catch 'zzr (unwind-protect 1 (throw 'zzr 2)))", "(tagbody (unwind-protect 1 (go zzr)) zzr)",
	"(the <integer> 1.5)", "(assure <list> 5)", "(assure 5 5)", "(instancep 1 2)", "(subclassp 1 2)", "(class-of)", "(gethash '(1) (make-hash-table))", "(gethash 1 5)", "(remhash 1 5)", "(clrhash 5)", "(symbol-name 5)", "(intern 5)", "(string<= \"a\" 'b)", "(char< #\\a 5)", "(string-append \"a\" 'b)", "(< 'a 1)", "(> 1 'a)", "(<= #\\a \"b\")", "(max 'a 1)", "(min 1 'a)", "(mod 5 0)", "(rem 5 0)", "(div 5 0)", "(mod 'a 1)", "(div 1 'a)", "(abs 'a)", "(sqrt 'a)", "(sqrt -1)", "(floor 'a)", "(exp \"x\")", "(log 0)", "(expt 'a 2)", "(1+ 'a)", "(1- \"x\")", "(- 'a)", "(/ 0)",
	"(read-line 5)", "(read-char 5)", "(read 5)", "(preview-char 5)", "(open-input-file 5)", "(open-input-file \"nofile\")", "(with-open-input-file (s \"nofile\") 1)", "(with-open-input-file (s 5) 1)", "(open-output-file 5)", "(create-string-input-stream 5)", "(get-output-stream-string 5)", "(format 5 \"x\")", "(format nil \"~d\" \"x\")", "(format nil \"~a\")", "(format nil \"~c\" 5)", "(format nil \"~x\" 'a)", "(format-object 5 1 t)", "(format-float nil 'a)", "(format-integer nil 'a 10)", "(format-tab nil 'a)", "(with-standard-input 5 1)",
	"(macroexpand-1 '(car 5))", "(macroexpand 5)", "(zzmac)", "(defmacro zzm2 (x x) 1)", "(defmethod nofn3 ((x <integer>)) 1)", "(defmethod car ((x <integer>)) 1)", "(defmethod name ((x 5)) 1)", "(defmethod name ((x zzundef)) 1)", "(defgeneric 5 (x))", "(defclass 5 () ())", "(defclass <zzkad> (5) ())", "(create (class <zzclass>) 5 1)", "(create (class <zzclass>) 's)", "(eval '(car 5))", "(eval '(nofn2))", "(eval 'zzundef)",
	"(arithmetic-error-operands 5)", "(domain-error-object 5)", "(parse-error-string 5)", "(undefined-entity-name 5)", "(condition-continuable 5)", "(stream-error-stream 5)", "(simple-error-format-string 5)"}

// those of them that are program errors the runtime signals, where they occur
var callAtForm = map[string]bool{"(create (class <function>))": true, "(name \"x\")": true, "(name 1.5)": true, "(defun if (x) 1)": true, "(defgeneric if (x))": true, "(defun quote () 1)": true, "(funcall (lambda (x) x))": true,
	"((lambda (x) x))": true, "(car)": true, "(cons 1)": true, "(cond 5)": true, "(class-of)": true, "(1 2)": true, "(\"x\" 1)": true}

var callWays17 = []string{"note", "note", "nested", "leave", "ignored", "errin", "resume", "whole"}
var callWays18 = []string{"leave", "throw", "go", "exit", "abort", "arg", "callback", "argthrow", "arggo", "argexit"}

func genCall(r *Rand, ways []string) *CallPlan {
	p := &CallPlan{Way: ways[r.N(len(ways))]}
	switch p.Way {
	case "resume":
		t := callResume[r.N(len(callResume)-1)]
		p.Form, p.Args, p.Good = t[0], []string{t[1]}, t[2]
		if r.P(40) && t[0][1] != '<' && t[0][1] != '>' { // which compare with the next operand
			p.Args[0] = r.Str("nil", "5", "2.5", "'a", "#\\b", "\"x\"", "t", "(vector 1)", "(class <integer>)", "(lambda () 1)")
		}
		return p
	case "whole":
		p.Form, p.Good = callWhole[r.N(len(callWhole))], r.Str("7", "\"seven\"", "'(7)", "nil", "#\\7")
		return p
	}
	if r.P(30) && !strings.HasPrefix(p.Way, "arg") && p.Way != "callback" {
		p.Form = callFails[r.N(len(callFails))]
		if r.P(35) {
			p.Form = strings.Replace(wraps[r.N(len(wraps))], "@", p.Form, 1)
		}
		return p
	}
	var call func(depth int) (string, []string)
	last := ""
	call = func(depth int) (string, []string) {
		name := callNames[r.N(len(callNames))]
		var args []string
		for i := r.W(1, 4, 5, 2, 1); i > 0; i-- {
			a := callArgs[r.N(len(callArgs))]
			if last != "" && r.P(15) {
				a = last
			}
			last = a
			if depth < 2 && r.P(12) {
				n, as := call(depth + 1)
				a = callText(n, as)
			}
			args = append(args, a)
		}
		return name, args
	}
	p.Name, p.Args = call(0)
	leave := ""
	switch p.Way {
	case "arg":
		leave = "(progn (h6 6) (return-from zzout (h3 'left)))"
	case "argthrow":
		leave = "(progn (h6 6) (throw 'zztag (h3 'left)))"
	case "arggo":
		leave = "(progn (h6 6) (go zzgo))"
	case "argexit":
		leave = r.Str("(progn (h6 6) (exit))", "(progn (h6 6) (abort))")
	case "callback":
		leave = "(lambda (&rest y) (h6 6) " + r.Str("(return-from zzout 'left)", "(throw 'zztag 'left)", "(go zzgo)") + ")"
	}
	if leave != "" {
		if k := r.N(len(p.Args) + 1); k == len(p.Args) {
			p.Args = append(p.Args, leave)
		} else {
			p.Args[k] = leave
		}
	}
	return p
}

func callText(name string, args []string) string {
	return "(" + strings.Join(append([]string{name}, args...), " ") + ")"
}

func (p *CallPlan) call() string {
	if p.Way == "resume" {
		return strings.Replace(p.Form, "%s", p.Args[0], 1)
	}
	if p.Form != "" {
		return p.Form
	}
	return "(let ((h (make-hash-table)) (x 5)) " + callText(p.Name, p.Args) + ")"
}

// usual tells whether the bad argument is the one of the table.
func (p *CallPlan) usual() bool {
	for _, t := range callResume {
		if t[0] == p.Form && t[1] == p.Args[0] {
			return true
		}
	}
	return false
}

func (p *CallPlan) inside() string {
	b := p.call()
	switch p.Way {
	case "note":
		return "(with-handler (lambda (c) (h0 (dynamic d1)) nil) (dynamic-let ((d1 5)) " + b + "))"
	case "nested":
		return "(with-handler (lambda (c) (h3 2) nil) (with-handler (lambda (c) (h0 1) nil) " + b + "))"
	case "errin":
		return "(with-handler (lambda (c) (h3 2) nil) (with-handler (lambda (c) (h0 1) (car 6)) " + b + "))"
	case "leave":
		return "(with-handler (lambda (c) (h3 2) nil) (block zzout (with-handler (lambda (c) (h0 1) (return-from zzout 'left)) " + b + ")))"
	case "throw":
		return "(with-handler (lambda (c) (h3 2) nil) (catch 'zztag (with-handler (lambda (c) (h0 1) (throw 'zztag 'left)) " + b + ")))"
	case "go":
		return "(block zzb (tagbody (return-from zzb (with-handler (lambda (c) (h0 1) (go zzgo)) " + b + ")) zzgo (return-from zzb 'left)))"
	case "exit", "abort":
		return "(with-handler (lambda (c) (h3 2) nil) (with-handler (lambda (c) (h0 1) (" + p.Way + ")) " + b + "))"
	case "ignored":
		return "(with-handler (lambda (c) (h0 1) nil) (ignore-errors " + b + "))"
	case "resume", "whole":
		return "(with-handler (lambda (c) (h0 1) (continue-condition c " + p.Good + ")) " + b + ")"
	}
	return "(catch 'zztag (block zzout (block zzb (tagbody (return-from zzb (with-handler (lambda (c) (h0 1) nil) " + b + ")) zzgo (return-from zzb 'left)))))"
}

const callDefs = " (defclass <zzclass> () ((s :initarg s :initform 3))) (defmacro zzmac () (nofn6)) (defgeneric name (x)) (defmethod name ((x <integer>)) (list x))"

var rxGensym = regexp.MustCompile(`-gensym-\d+-|serial:\d+|0x[0-9a-f]+|[0-9]{12,}`)

func (p *CallPlan) exec(c *CtlPlan, r *Run) {
	run := func(code string) (string, []string) {
		setStdin(c.In)
		host = &hostSide{faults: map[int]string{}, fired: r.Faults}
		begin(3_000_000, c.Map)
		defer r.end()
		w := gmnlisp.New()
		ctx := context.Background()
		if s := evalText(w, ctx, preamble+wrapDefs+callDefs+" 0"); s != "value 0" {
			r.Fail("definitions", "the definitions of the program fail: %s", s)
			return "", nil
		}
		host.log = nil
		return rxGensym.ReplaceAllString(evalText(w, ctx, code), "?"), host.log
	}
	readable, _ := run("(progn '" + p.call() + " 1)")
	alone, alog := run(p.call())
	switch p.Way {
	case "arg", "argthrow", "arggo", "argexit", "callback": // only functions evaluate their arguments
		f, _ := run("(progn #'" + p.Name + " 1)")
		m, _ := run("(macroexpand '(" + p.Name + "))")
		if f != "value 1" || !strings.Contains(m, "expected macro") {
			alone = "crash: not a function"
		}
	}
	if readable != "value 1" {
		alone = "crash: cannot be read"
	}
	if strings.HasPrefix(alone, "crash") || alone == "no end" {
		r.Probe("discarded: " + alone[:5])
		r.Log("discarded")
		return
	}
	got, log := run(p.inside())
	var mine, handled []string
	for _, l := range log {
		if strings.HasPrefix(l, "h0:") || strings.HasPrefix(l, "h3:2") {
			handled = append(handled, l)
		} else {
			mine = append(mine, l)
		}
	}
	r.Log("alone: %s %v", alone, alog)
	r.Log("%s: %s %v", p.Way, got, log)
	fails := !strings.HasPrefix(alone, "value ")
	expect := func(res string, calls ...string) {
		if !sameLog(handled, calls) {
			r.Fail("handlers", "alone: %s; inside: %s with the handler calls %v instead of %v", alone, got, handled, calls)
		}
		if got != res && !(res == "error" && strings.HasPrefix(got, "error")) {
			r.Fail("outcome", "alone: %s; inside: %s instead of %s", alone, got, res)
		}
	}
	count := func(l []string, s string) (n int) {
		for _, x := range l {
			if strings.HasPrefix(x, s) {
				n++
			}
		}
		return n
	}
	switch p.Way {
	case "arg", "argthrow", "arggo", "argexit", "callback":
		n := count(log, "h6:")
		if n > 0 {
			want := "value left"
			if p.Way == "argexit" {
				want = "quit"
				if strings.Contains(p.call(), "(abort)") {
					want = "abort"
				}
			}
			if n > 1 || got != want || (p.Way == "argexit" || p.Way == "callback") && alone != got && p.Way == "argexit" {
				r.Fail("exit", "the exit is made %d times and the result is %s instead of %s", n, got, want)
			}
			r.Probe("call-left-by-" + p.Way)
		}
	case "resume", "whole":
		if !fails {
			expect(alone)
			break
		}
		if p.Way == "resume" && alone != "error dom" && !p.usual() {
			r.Probe("discarded: another error")
			break
		}
		want, _ := run(p.Good)
		if p.Way == "resume" {
			want, _ = run(strings.Replace(p.Form, "%s", p.Good, 1))
		}
		expect(want, "h0:1")
		r.Probe("call-resumed")
	default:
		if !fails {
			expect(alone)
			r.Probe("call-without-error")
			break
		}
		r.Probe("call-fails-" + p.Way)
		switch p.Way {
		case "note":
			if alone != "error dom" && alone != "error control" && !callAtForm[p.call()] && len(handled) == 1 && handled[0] == "h0:100" {
				handled[0] = "h0:5" // plain errors may be handled at the form
			}
			expect("error", "h0:5")
		case "nested", "errin":
			expect("error", "h0:1", "h3:2")
		case "leave", "throw", "go":
			expect("value left", "h0:1")
		case "exit":
			expect("quit", "h0:1")
		case "abort":
			expect("abort", "h0:1")
		case "ignored":
			expect("value nil")
		}
	}
	_ = mine
	r.Key = hashOf(p.call(), p.Way, p.Good)
	r.Inter = hashOf(strings.Join(log, " "), got)
}

func (p *CallPlan) smaller() []*CallPlan {
	var out []*CallPlan
	if p.Form != "" {
		return nil
	}
	for i, a := range p.Args {
		q := *p
		q.Args = append(append([]string{}, p.Args[:i]...), p.Args[i+1:]...)
		out = append(out, &q)
		for _, s := range []string{"nil", "1"} {
			if a != s && len(a) > len(s) {
				q := *p
				q.Args = append([]string{}, p.Args...)
				q.Args[i] = s
				out = append(out, &q)
			}
		}
	}
	return out
}

func (p *CallPlan) String() string {
	return fmt.Sprintf("; alone:\n%s\n; %s:\n%s\n", p.call(), p.Way, p.inside())
}
