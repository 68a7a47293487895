package main

import (
	"fmt"
	"io"
	"strings"

	"github.com/hymkor/gmnlisp/zz_verif/climain"
	"github.com/hymkor/gmnlisp/zz_verif/simmultiline"
	"github.com/hymkor/gmnlisp/zz_verif/simos"
	"github.com/hymkor/gmnlisp/zz_verif/simrt"
)

// Check C23: the interactive prompt, with a simulated user at the line editor.

type Typed struct {
	K string   `json:"k"` // form set get call val multi force recall
	N int      `json:"n,omitempty"`
	V int      `json:"v,omitempty"`
	F []*PForm `json:"f,omitempty"`

	Breaks int    `json:"breaks,omitempty"` // where the user presses Enter within a form: every Breaks-th possible place
	Fault  string `json:"fault,omitempty"`  // the standard output fails while this input is evaluated
	Off    int    `json:"off,omitempty"`
	Keep   bool   `json:"keep,omitempty"`
	Mute   string `json:"mute,omitempty"` // the error output fails when the message is written
	MuteAt int    `json:"muteat,omitempty"`
}

type PromptPlan struct {
	In     []*Typed         `json:"in"`
	End    string           `json:"end"` // eof interrupt ioerr
	Stdin  string           `json:"stdin,omitempty"`
	Libs   map[string]*PLib `json:"libs,omitempty"`
	Faults []simos.Fault    `json:"f,omitempty"`
	Chunks []int            `json:"chunks,omitempty"`
	Map    uint64           `json:"map,omitempty"`
}

var incomplete = []string{`(list 1`, `(car '(1 2)`, `"text`, `'`, `(format t "a`, `(`, `(progn (error "x") `, `)`, `(list 1))`, "`(a ,", `(+ 1 2))) (`, `(let ((x 1)) x`, `(length "a\")`, `(length "\\" "\\)`, `(list "\")" `}

var promptVals = [][2]string{{"(+ 1 2)", "3"}, {"(list 1 (list 2))", "(1 (2))"}, {"'(1 2 3)", "(1 2 3)"}, {"7", "7"}, {"(car '(5 6))", "5"}, {"(mapcar (lambda (x) (+ x 1)) '(1 2))", "(2 3)"},
	{`(length "a)b(c")`, "5"}, {`(length (list ")" "(" "(("))`, "3"}, {"(block b (return-from b 4))", "4"}, {"1 2 3", "3"}, {"(let ((x 1)) (while (< x 5) (setq x (* x 2))) x)", "8"},
	{"(catch 'c (throw 'c 9))", "9"}, {"nil", ""}, {"(if nil 1)", ""}, {"", ""}, {"(progn 1 nil)", ""}, {"(unwind-protect 6 1)", "6"}, {"(elt '(3 4) 1)", "4"},
	{`(length "two (
lines")`, "11"}, {`(length "a\"(b")`, "4"}, {`(list 1 (length "\\"))`, "(1 1)"}, {`(length "\\\")\\")`, "4"}, {`(length "a (
\" ) ( \" (
")`, "14"}, {`(list (length "a\\\"") 2)`, "(3 2)"}, {`(length "((\"(")`, "4"}, {`(length "x\\(")`, "3"}, {"(ignore-errors (error \"gone\"))", ""}, {"(length \"a\\\n\")", "2"}, {"(list (length \"a\\\n\\\"\") 1)", "(3 1)"}, {"(length \"\\\n(\")", "2"}, {"(list \n\n(length \"b\\\n\\\\\"\n))", "(3)"}, {"(truncate (/ 7 2))", "3"}}

// calls that make little sense: they may fail or not, but never end the prompt
var oddNames = strings.Fields(`* + - / /= 1+ 1- < <= = > >= and append apply aref arithmetic-error-operands arithmetic-error-operation array-dimensions assoc assure atom basic-array*-p basic-array-p block caar cadddr caddr cadr car case case-using catch cdddr cddr cdr ceiling cerror char-index char/= char< char<= char= char> char>= characterp class class-of close clrhash cond cons consp continue-condition convert create create-array create-list create-string create-string-input-stream create-string-output-stream decf defclass defgeneric domain-error-expected-class domain-error-object dynamic dynamic-let elt eq eql equal equalp error eval evenp expand-defun file-length first flet floatp floor format format-char format-float format-integer format-object funcall function functionp general-array*-p generic-function-p get-output-stream-string gethash gmn:dump-session go hash-table-count if ignore-errors incf instancep integerp labels lambda lambda-macro last length let let* list listp load macroexpand mapc mapcan mapcar mapcon mapl maplist max member min minusp mod not nreverse nth nthcdr null numberp oddp open-input-file or parse-number plusp probe-file prog1 prog2 progn psetq quasiquote quote rem remhash rest return return-from reverse round second set-aref set-assoc set-cadddr set-car set-cdr set-elt set-gethash set-nth set-subseq setf setq signal-condition sqrt string-append string-index string/= string< string= subclassp subseq swap-elt symbolp tagbody the third throw truncate undefined-entity-name unless unwind-protect vector when with-handler with-open-input-file with-standard-input zerop regexp-match wildcard`)

var oddArgs = []string{"nil", "1", "-1", "2.5", `"abc"`, "#\\a", "'sym", ":key", "'(1 2)", "'(1 . 2)", "h", "h", "(lambda (x) x)", "(vector 1 2)", "#2a((1 2)(3 4))", `(create-string-input-stream "x")`,
	"(create-string-output-stream)", "(class <integer>)", "7", "(standard-output)", "((a 1))", "'((a . 1))", "(list h)", "x", "(x)", "#'car", "#'+", "'h",
	"0", "0.0", `""`, "(vector h)", "(vector #'car)", "(cons #'car x)", "<function>", "<hashtable>", "<standard-class>", "<arithmetic-error-class>", "<string-builder>", "<input-stream>", "<reader>",
	"(create <function>)", "(create <hashtable>)", "(create <list>)", "(create <standard-class>)", "(lambda (x &rest y) y)", "#0a()", "#0a(1)", "'(nil)", "(gensym)", `"~a~s"`, `"~5d~v"`, "<object>", "<integer>"}

// where state is set, and where a failing input leaves it
var promptFails = []string{
	"(progn (setq v%d %d) (error \"after\"))", "(dynamic-let ((pd 77)) (setq v%d %d) (car 1))", "(with-handler (lambda (c) (error \"h\")) (setq v%d %d) (undefined-fn))",
	"(block b (setq v%d %d) (return-from c 1))", "(with-standard-input (create-string-input-stream \"wrong\") (setq v%d %d) (hf 1))", "(let ((x 1)) (setq v%d %d) (abort))",
	"(catch 'c (setq v%d %d) (throw 'd 1))", "(progn (setq v%d %d) (unwind-protect (error \"a\") (error \"b\")))", "(tagbody (setq v%d %d) (go away))", "(setq v%d %d) (nothing-there)",
	"(progn (setq v%d %d) (error \"line one~%%line two\"))", "(mapcar (lambda (x) (setq v%d %d) (error \"~a\" x)) '(1 2))", "(progn (setq v%d %d) (signal-condition 5 nil))",
	"(progn (setq v%d %d) (read (create-string-input-stream \"(1\")))", "(progn (setq v%d %d) (open-input-file \"missing\"))", "(progn (setq v%d %d) (load \"missing\"))",
}

func promptGen(r *Rand, idx int, tier string) *PromptPlan {
	p := &PromptPlan{End: r.Str("eof", "eof", "interrupt", "ioerr"), Libs: map[string]*PLib{}}
	for i := r.N(2); i > 0; i-- {
		p.Libs[fmt.Sprintf("lib%d.lsp", r.N(6))] = &PLib{Forms: []*PForm{procForm(r, 1, 5, true)}, Cut: r.P(20)}
	}
	for _, l := range p.Libs {
		plainForms(l.Forms)
	}
	n := r.Range(2, 10)
	if tier == "thorough" {
		n = r.Range(2, 25)
	}
	for i := 0; i < n; i++ {
		t := &Typed{N: r.N(3), V: r.N(900) + 100}
		switch r.W(6, 4, 4, 2, 3, 2, 2, 3, 2, 3) {
		case 0:
			t.K = "form"
			for j := r.Range(1, 2); j > 0; j-- {
				f := procForm(r, r.N(4), 12, false)
				t.F = append(t.F, f)
				plainForms(t.F)
			}
		case 1:
			t.K = "set"
		case 2:
			t.K = "get"
		case 3:
			t.K = "call"
		case 4:
			t.K, t.N = "val", r.N(len(promptVals))
		case 5:
			t.K = "def"
		case 6:
			t.K, t.V = "force", r.N(len(incomplete))
		case 7:
			t.K, t.N = "failset", r.N(3)+3*r.N(len(promptFails))
		case 8:
			t.K, t.N = "recall", r.N(4)
		case 9:
			t.K, t.N = "odd", r.N(1<<30)
		}
		if r.P(50) {
			t.Breaks = r.Range(1, 6)
		}
		if r.P(8) {
			t.Fault, t.Off, t.Keep = r.Str("EIO", "ENOSPC", "EPIPE"), r.N(12), r.P(30)
		}
		if r.P(6) {
			t.Mute, t.MuteAt = r.Str("EIO", "ENOSPC", "EPIPE"), r.N(3)*r.N(20)
		}
		p.In = append(p.In, t)
	}
	for i := r.N(4); i > 0; i-- {
		p.Stdin += r.Str("line\n", "a b\n", "\n", "(1 2)\n")
	}
	if r.P(20) {
		p.Faults = append(p.Faults, simos.Fault{Op: "readat", Path: "stdin", Err: "EIO", Off: r.N(len(p.Stdin) + 2), Keep: true})
	}
	if r.P(20) {
		p.Faults = append(p.Faults, simos.Fault{Op: r.Str("create", "write", "close"), Path: fmt.Sprintf("out%d", r.N(6)), Err: r.Str("EIO", "ENOSPC", "EACCES"), Keep: true})
	}
	if r.P(50) {
		p.Chunks = []int{r.Range(1, 5)}
	}
	if r.P(30) {
		p.Map = r.U64() >> 12
	}
	return p
}

// plainForms: what the prompt shows itself is not known to the interpreter's stream.
func plainForms(fs []*PForm) {
	for _, f := range fs {
		if f.K == "fresh" {
			f.K = "chr"
		}
		if f.K == "big" {
			f.N %= 100
		}
		if f.K == "nop" && f.N == 8 { // a comment, which line breaks would end
			f.N = 1
		}
		plainForms(f.A)
	}
}

// lines is the text as the user types it: with Enter at some places inside of forms.
func (t *Typed) lines(text string) []string {
	var b strings.Builder
	depth, places := 0, 0
	quote := false
	for i := 0; i < len(text); i++ {
		c := text[i]
		if c == '"' {
			k := i // an odd number of backslashes in front of it escapes it
			for k > 0 && text[k-1] == '\\' {
				k--
			}
			if !quote || (i-k)%2 == 0 {
				quote = !quote
			}
		}
		if !quote && c == '(' {
			depth++
		}
		if !quote && c == ')' {
			depth--
		}
		if c == ' ' && !quote && depth > 0 && t.Breaks > 0 {
			if places++; places%t.Breaks == 0 {
				b.WriteByte('\n')
				continue
			}
		}
		b.WriteByte(c)
	}
	return strings.Split(b.String(), "\n")
}

func balanced(s string) bool {
	n := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			n++
		case ')':
			n--
		case '"':
			for i++; i < len(s) && s[i] != '"'; i++ {
				if s[i] == '\\' && i+1 < len(s) && (s[i+1] == '"' || s[i+1] == '\\') {
					i++
				}
			}
		}
	}
	return n == 0
}

func (t *Typed) text() string {
	switch t.K {
	case "form":
		return strings.TrimSpace(procText(t.F))
	case "set":
		return fmt.Sprintf("(setq v%d %d)", t.N%3, t.V)
	case "get":
		return fmt.Sprintf("(list v%d (dynamic pd))", t.N%3)
	case "def":
		return fmt.Sprintf("(defun pf%d (x) (list x %d))", t.N%3, t.V)
	case "call":
		return fmt.Sprintf("(pf%d v%d)", t.N%3, t.N%3)
	case "val":
		return promptVals[t.N%len(promptVals)][0]
	case "force":
		return incomplete[t.V%len(incomplete)]
	case "odd":
		r := newRand(uint64(t.N))
		last := ""
		var call func(depth int) string
		call = func(depth int) string {
			s := "(" + oddNames[r.N(len(oddNames))]
			n := r.N(4)
			if depth == 0 {
				n = t.V % 4
			}
			for i := n; i > 0; i-- {
				a := oddArgs[r.N(len(oddArgs))]
				if last != "" && r.P(35) {
					a = last
				}
				last = a
				if depth == 0 && r.P(15) {
					a = call(1)
				}
				s += " " + a
			}
			return s + ")"
		}
		return "(let ((h (make-hash-table)) (x 5)) " + call(0) + ")"
	case "failset":
		return fmt.Sprintf(promptFails[t.N/3%len(promptFails)], t.N%3, t.V)
	}
	return ""
}

const promptDefs = `(progn (defglobal v0 0) (defglobal v1 0) (defglobal v2 0) (defdynamic pd 1) (defun pf0 (x) (list x 0)) (defun pf1 (x) (list x 0)) (defun pf2 (x) (list x 0)) 0)`

func promptExec(p *PromptPlan, r *Run) {
	simos.Reset(nil, -1, p.Chunks)
	simos.SetStdin(p.Stdin)
	base := append(append([]simos.Fault{}, p.Faults...), placeLibs(p.Libs)...)
	simos.SetFaults(base)
	m := newProcModel(p.Faults, p.Libs, nil, p.Stdin)
	m.noArgv = true
	host = &hostSide{faults: map[int]string{}, fired: r.Faults}
	intern(promptDefs)
	for _, t := range p.In {
		intern(t.text())
	}
	begin(0, p.Map)
	defer r.end()

	var vars, fns [3]int
	next := -1 // the input that comes next; -1: the definitions
	var sent []string
	var done []*Typed // what each of them is
	outAt, errAt := 0, 0
	var lastFault simos.Fault
	lasting := -1 // from there the standard output fails for good
	check := func() {}
	ended, quit := false, false
	simmultiline.User = func(e *simmultiline.Editor) ([]string, error) {
		check()
		check = func() {}
		if r.Viol != "" {
			return nil, io.EOF
		}
		if quit {
			r.Fail("goes-on", "the prompt goes on after exit: %q", sent[len(sent)-1])
			return nil, io.EOF
		}
		if ended {
			r.Fail("goes-on", "the prompt goes on after the end of its input (%s)", p.End)
			return nil, io.EOF
		}
		if next >= len(p.In) || m.unknown {
			if m.unknown {
				r.Probe("discarded: unspecified")
			}
			ended = true
			switch p.End {
			case "interrupt":
				return nil, simmultiline.Interrupt
			case "ioerr":
				return nil, simos.Errno("EIO")
			}
			return nil, io.EOF
		}
		past := e.Past()
		if strings.Join(past, "\x00") != strings.Join(sent, "\x00") {
			r.Fail("history", "the history holds %q after the inputs %q", past, sent)
			return nil, io.EOF
		}
		simrt.Extend(1 << 20)
		t := &Typed{K: "defs"}
		if next >= 0 {
			t = p.In[next]
		}
		next++
		var lines []string
		again := t
		switch t.K {
		case "defs":
			lines = []string{promptDefs}
		case "recall":
			if len(sent) == 0 {
				return nil, io.EOF
			}
			k := len(sent) - 1 - t.N
			if k < 0 {
				k = 0
			}
			lines = strings.Split(past[k], "\n")
			again = done[k]
			r.Probe("recalled from the history")
		default:
			lines = t.lines(t.text())
		}
		if again.K != "force" {
			if t.K == "recall" {
				if !e.Enter(lines) {
					r.Fail("not-submitted", "Enter does not submit %q", lines)
				}
			} else {
				for i := range lines {
					if e.Enter(lines[:i+1]) != (i == len(lines)-1) {
						if i == len(lines)-1 {
							r.Fail("not-submitted", "Enter does not submit the complete input %q", lines)
						} else {
							r.Fail("submitted-early", "Enter submits the incomplete input %q", lines[:i+1])
						}
						return nil, io.EOF
					}
				}
			}
		}
		if text := strings.Join(lines, "\n"); t.K == "force" && !balanced(text) && e.Enter(lines) {
			r.Fail("submitted-early", "Enter submits the unbalanced input %q", text)
			return nil, io.EOF
		}
		sent = append(sent, strings.Join(lines, "\n"))
		done = append(done, again)
		// what it must do
		outAt, errAt = len(simos.Output(simos.Stdout)), len(simos.Output(simos.Stderr))
		m.out, m.err, m.outFault, m.hits, m.pageAt = nil, nil, nil, 0, 0
		if lasting >= 0 {
			simos.SetFaults(append(append([]simos.Fault{}, base...), lastFault))
			m.outFault = &simos.Fault{Off: lasting - outAt, Keep: true}
		} else if t.Fault != "" {
			if t.Keep {
				lasting = outAt + t.Off
			}
			m.outFault = &simos.Fault{Off: t.Off, Keep: t.Keep}
			lastFault = simos.Fault{Op: "writeat", Path: "stdout", Err: t.Fault, Off: outAt + t.Off, Keep: t.Keep}
			simos.SetFaults(append(append([]simos.Fault{}, base...), lastFault))
		} else {
			simos.SetFaults(base)
		}
		want, val, known, odd := "", "", true, false
		switch again.K {
		case "defs":
			val = "0"
			vars, fns = [3]int{}, [3]int{}
		case "form":
			known = false
			want = m.seq(again.F)
		case "set":
			vars[again.N%3] = again.V
			val = fmt.Sprint(again.V)
		case "get":
			val = fmt.Sprintf("(%d 1)", vars[again.N%3])
		case "def":
			fns[again.N%3] = again.V
			known = false
		case "call":
			val = fmt.Sprintf("(%d %d)", vars[again.N%3], fns[again.N%3])
		case "val":
			val = promptVals[again.N%len(promptVals)][1]
		case "odd":
			odd = true
		case "force":
			want = "fail"
		case "failset":
			want = "fail"
			vars[again.N%3] = again.V
		}
		if t.Mute != "" && !m.unknown && !odd {
			fs := append([]simos.Fault{}, simos.Faults()...)
			simos.SetFaults(append(fs, simos.Fault{Op: "writeat", Path: "stderr", Err: t.Mute, Off: errAt + len(m.err) + t.MuteAt, Keep: true}))
		}
		faulty := m.outFault != nil
		quit = want == "quit" && !m.unknown
		r.Probe("input: " + again.K + map[bool]string{true: " while the output fails"}[faulty])
		if want != "" {
			r.Probe("input ends by " + want)
		}
		text := sent[len(sent)-1]
		check = func() {
			out, errs := simos.Output(simos.Stdout)[outAt:], simos.Output(simos.Stderr)[errAt:]
			r.Log("%q -> stdout %q stderr %q", text, out, errs)
			if m.unknown || odd {
				return
			}
			if !strings.HasPrefix(errs, string(m.err)) {
				r.Fail("message", "the input %q wrote %q to the error output instead of %q", text, errs, m.err)
				return
			}
			if msg := strings.TrimSpace(errs[len(m.err):]); (msg != "") != (want == "fail" || want == "abort") && (t.Mute == "" || msg != "") {
				if msg == "" {
					r.Fail("message", "the error of the input %q is not reported", text)
				} else {
					r.Fail("message", "an error is reported for the input %q: %s", text, msg)
				}
				return
			}
			if faulty {
				return
			}
			if !strings.HasPrefix(out, string(m.out)) {
				r.Fail("output", "the input %q wrote %s instead of %s", text, clip(fmt.Sprintf("%q", out), 300), clip(fmt.Sprintf("%q", m.out), 300))
				return
			}
			rest := strings.TrimSpace(out[len(m.out):])
			if want != "" && rest != "" {
				r.Fail("output", "the failing input %q wrote %q", text, rest)
			} else if want == "" && known && rest != val {
				r.Fail("value", "the value of the input %q was shown as %q instead of %q", text, rest, val)
			}
		}
		return lines, nil
	}
	defer func() { simmultiline.User = nil }()
	status, crash := runMain(climain.Main)
	r.Evals++
	check()
	r.Log("status %d %s", status, crash)
	if r.Viol != "" {
		return
	}
	if crash != "" {
		r.Fail("crash", "after %q: %s", sent, crash)
		return
	}
	if m.unknown && !ended {
		r.Probe("discarded: unspecified")
		return
	}
	if !quit && !ended {
		r.Fail("ends", "the prompt ends (status %d) after the input %q: %s", status, sent[len(sent)-1], clip(simos.Output(simos.Stderr)[errAt:], 300))
		return
	}
	if quit && status != 0 {
		r.Fail("status", "exit ends the prompt with status %d", status)
	}
	if ended && p.End == "ioerr" && status == 0 {
		r.Fail("status", "the line editor fails, and the command ends with status 0")
	}
	r.Probe("sessions ended by " + map[bool]string{true: "exit", false: p.End}[quit])
	r.Key = hashOf(jsonText(p))
	r.Inter = hashOf(jsonText(sent), jsonText(p.Faults))
}

func promptShrink(p *PromptPlan) []*PromptPlan {
	var out []*PromptPlan
	add := func(f func(q *PromptPlan)) {
		q := *p
		f(&q)
		out = append(out, &q)
	}
	for i, t := range p.In {
		i, t := i, t
		add(func(q *PromptPlan) { q.In = without(p.In, i) })
		set := func(f func(x *Typed)) {
			x := *t
			f(&x)
			add(func(q *PromptPlan) {
				q.In = append([]*Typed{}, p.In...)
				q.In[i] = &x
			})
		}
		if t.Fault != "" {
			set(func(x *Typed) { x.Fault, x.Off, x.Keep = "", 0, false })
		}
		if t.Breaks > 0 {
			set(func(x *Typed) { x.Breaks = 0 })
		}
		for _, fs := range pformShrink(t.F) {
			fs := fs
			if len(fs) > 0 {
				set(func(x *Typed) { x.F = fs })
			}
		}
	}
	for i := range p.Faults {
		add(func(q *PromptPlan) { q.Faults = without(p.Faults, i) })
	}
	if len(p.Libs) > 0 {
		add(func(q *PromptPlan) { q.Libs = nil })
	}
	if p.Stdin != "" {
		add(func(q *PromptPlan) { q.Stdin = "" })
	}
	if len(p.Chunks) > 0 {
		add(func(q *PromptPlan) { q.Chunks = nil })
	}
	if p.Map > 0 {
		add(func(q *PromptPlan) { q.Map = 0 })
	}
	return out
}

func promptExplain(p *PromptPlan) string {
	var b strings.Builder
	for _, t := range p.In {
		if t.K == "recall" {
			fmt.Fprintf(&b, "; the input %d before, again", t.N+1)
		} else {
			b.WriteString(strings.Join(t.lines(t.text()), "\n       > "))
		}
		if t.K == "force" {
			b.WriteString("   ; submitted as it is")
		}
		if t.Fault != "" {
			fmt.Fprintf(&b, "   ; the standard output fails with %s after %d bytes (lasting: %v)", t.Fault, t.Off, t.Keep)
		}
		b.WriteString("\n")
	}
	fmt.Fprintf(&b, "; then %s\n; standard input %q\n", p.End, p.Stdin)
	for _, n := range sortedKeys(p.Libs) {
		fmt.Fprintf(&b, "; %s %s: %s\n", n, p.Libs[n].Fault, clip(p.Libs[n].text(), 300))
	}
	for _, f := range p.Faults {
		fmt.Fprintf(&b, "; %s of %s fails with %s (byte %d)\n", f.Op, f.Path, f.Err, f.Off)
	}
	return b.String()
}

func init() {
	register(Check{ID: "C23", Quick: 20000, Thor: 400000, Fresh: true,
		Rule: "a session of 3 to 26 inputs at the prompt (definitions, uses, failing and incomplete ones, recalled ones, exits), each with typed line breaks and perhaps failing output, input or files; distinct by inputs and faults",
		Real: append([]string{"the gmnlisp command's interactive mode"}, realAll...), Stub: append([]string{"the line editor and its user"}, stubAll...)}, promptGen, promptExec, promptShrink, promptExplain)
}
