package main

import (
	"context"
	"fmt"
	"sort"
	"strings"

	gmnlisp "github.com/hymkor/gmnlisp"
	"github.com/hymkor/gmnlisp/zz_verif/climain"
	"github.com/hymkor/gmnlisp/zz_verif/simos"
	"github.com/hymkor/gmnlisp/zz_verif/simrt"
)

// Whole simulated processes: the commands with their arguments, files and
// standard streams, and their exit status.

// runMain executes the main function of a command.
func runMain(main func(), args ...string) (status int, crash string) {
	simos.Args = append([]string{"prog"}, args...)
	p, st := guard(main)
	switch e := p.(type) {
	case nil:
		return 0, ""
	case simos.ExitPanic:
		return e.Code, ""
	case simrt.Stop:
		return -1, "no end"
	}
	return 2, "crash: " + panicText(p) + " at " + frames(st)
}

// PForm is a form of a script whose effects a small model knows.
type PForm struct {
	K string   `json:"k"`
	N int      `json:"n,omitempty"`
	A []*PForm `json:"a,omitempty"`
}

var procFails = []string{
	`(error "boom ~a" 1)`, `(car 1)`, `(undefined-fn 1)`, `(progn undefined-var)`, `(throw 'no-such 1)`, `(open-input-file "missing")`, `(div 1 0)`,
	`(elt (vector 1 2) 7)`, `(assure <integer> "x")`, `(parse-number "x")`, `(funcall 1)`, `(setf (car 1) 2)`, `(close 1)`, `(string-append 1)`,
	`(create 1)`, `(go no-tag)`, `(load "missing.lsp")`, `(read (create-string-input-stream "(1 2"))`,
	`(read-char (create-string-input-stream ""))`, `(read-line (create-string-input-stream ""))`, `(read (create-string-input-stream ""))`,
	`(format 1 "x")`, `(hf 1)`, `(return-from no-block 1)`, `(error "")`, `(error "bye")`, `(error "abort")`, `(error "EOF")`,
	`(signal-condition (create (class <stream-error>)) nil)`, `(let ((f (lambda (n) (error "deep ~a" n)))) (mapcar f '(1 2)))`,
	`(labels ((f (n) (if (= n 0) (car 'x) (f (- n 1))))) (f 20))`, `(with-open-input-file (s "missing.txt") 1)`,
	`(dynamic no-such-dynamic)`, `(1 2)`, `(if)`, `(gethash)`, `(unwind-protect (error "in") (car '(1)))`, `(unwind-protect 1 (car 1))`,
	`(progn (defmacro bad (x) (car 1)) (bad 2))`, `(with-open-output-file (o "no-dir/x") 1)`,
}

// procModel predicts what a script does.
type procModel struct {
	out, err []byte
	outFault *simos.Fault
	hits     int
	in       string
	inFault  *simos.Fault
	pos      int
	inDead   bool
	argv     []string
	files    map[string]string
	bad      map[string]string // files whose operations fail: open, create, read, write, close
	libs     map[string]*PLib
	unknown  bool // from here on the model does not know
	pageAt   int  // where the output of the page began
	varA     string
	hasA     bool
	noText   bool
	noArgv   bool
	textHit  bool
	varHit   bool
}

type PLib struct {
	Forms []*PForm `json:"forms"`
	Cut   bool     `json:"cut,omitempty"` // the file ends inside a form
	Fault string   `json:"fault,omitempty"`
	At    int      `json:"at,omitempty"`
}

func (m *procModel) put(s string) string {
	if f := m.outFault; f != nil && (m.hits == 0 || f.Keep) {
		if len(m.out) <= f.Off && len(m.out)+len(s) > f.Off {
			m.out = append(m.out, s[:f.Off-len(m.out)]...)
			m.hits++
			return "fail"
		}
	}
	m.out = append(m.out, s...)
	return ""
}

func (m *procModel) seq(fs []*PForm) string {
	for _, f := range fs {
		if r := m.form(f); r != "" || m.unknown {
			return r
		}
	}
	return ""
}

func (m *procModel) fresh() string {
	if n := len(m.out); n > m.pageAt && m.out[n-1] != '\n' {
		return "\n"
	}
	return ""
}

func (m *procModel) line() (string, string) {
	if m.inDead {
		m.unknown = true
		return "", ""
	}
	if m.pos > len(m.in) {
		m.pos = len(m.in)
	}
	rest := m.in[m.pos:]
	end := len(m.in)
	nl := strings.IndexByte(rest, '\n')
	if nl >= 0 {
		end = m.pos + nl
	}
	if f := m.inFault; f != nil && f.Off <= end && f.Off >= m.pos {
		m.inDead = true
		return "", "fail"
	}
	if rest == "" {
		return "", "eof"
	}
	s := m.in[m.pos:end]
	m.pos = end + 1
	return s, ""
}

func (m *procModel) form(f *PForm) string {
	a := f.A
	switch f.K {
	case "out", "outt", "outs":
		return m.put(fmt.Sprintf("o%d\n", f.N))
	case "big":
		return m.put(pattern(f.N*97) + "\n")
	case "obj":
		return m.put(fmt.Sprintf("<%d>", f.N))
	case "chr":
		return m.put("c")
	case "fresh":
		return m.put(m.fresh() + "f")
	case "err":
		m.err = append(m.err, fmt.Sprintf("e%d\n", f.N)...)
		return ""
	case "argv":
		if m.noArgv {
			return "fail"
		}
		if len(m.argv) == 0 {
			return m.put("nil\n")
		}
		return m.put("(\"" + strings.Join(m.argv, "\" \"") + "\")\n")
	case "rl":
		s, r := m.line()
		if r != "" {
			return "fail"
		}
		return m.put("[" + s + "]")
	case "rleof":
		s, r := m.line()
		if r == "fail" {
			return r
		}
		if r == "eof" {
			s = "none"
		}
		return m.put("[" + s + "]")
	case "file":
		n := fmt.Sprintf("out%d", f.N)
		if m.bad[n] != "" {
			return "fail"
		}
		m.files[n] = "text\n"
		return ""
	case "load":
		n := fmt.Sprintf("lib%d.lsp", f.N)
		l := m.libs[n]
		if l == nil || l.Cut || l.Fault != "" {
			return "fail"
		}
		return m.seq(l.Forms)
	case "fail":
		return "fail"
	case "quit":
		return "quit"
	case "abort":
		return "abort"
	case "def", "nop":
		return ""
	// around other forms
	case "progn", "let", "block", "catch", "flet", "dyn", "lambda", "if", "defun", "tagbody", "dotimes", "for", "method", "macro", "decline":
		return m.seq(a)
	case "twice":
		for i := 0; i < 2; i++ {
			if r := m.seq(a); r != "" || m.unknown {
				return r
			}
		}
		return ""
	case "ignore", "handle":
		r := m.seq(a)
		if r == "fail" {
			r = ""
		}
		return r
	case "leave": // leaves the block before the end
		r := m.seq(a)
		return r
	case "unwind":
		r := m.seq(a[:len(a)-1])
		if m.unknown {
			return r
		}
		if c := m.form(a[len(a)-1]); c != "" {
			if r != "" && r != c {
				m.unknown = true // which of them comes through is another property
			}
			return c
		}
		return r
	}
	return ""
}

func procText(fs []*PForm) string {
	var b strings.Builder
	for _, f := range fs {
		b.WriteString(" " + f.text())
	}
	return b.String()
}

func (f *PForm) text() string {
	n := f.N
	in := procText(f.A)
	switch f.K {
	case "out":
		return fmt.Sprintf(`(format (standard-output) "o%d~%%")`, n)
	case "outt":
		return fmt.Sprintf(`(format (standard-output) "o~a~%%" %d)`, n)
	case "outs":
		return fmt.Sprintf(`(progn (format-char (standard-output) #\o) (format-integer (standard-output) %d 10) (format (standard-output) "~%%"))`, n)
	case "big":
		return fmt.Sprintf(`(format (standard-output) "~a~%%" "%s")`, pattern(n*97))
	case "obj":
		return fmt.Sprintf(`(format-object (standard-output) "<%d>" nil)`, n)
	case "chr":
		return `(format-char (standard-output) #\c)`
	case "fresh":
		return `(format (standard-output) "~&f")`
	case "err":
		return fmt.Sprintf(`(format (error-output) "e%d~%%")`, n)
	case "argv":
		return `(format (standard-output) "~s~%" *posix-argv*)`
	case "rl":
		return `(format (standard-output) "[~a]" (read-line))`
	case "rleof":
		return `(format (standard-output) "[~a]" (read-line (standard-input) nil "none"))`
	case "file":
		return fmt.Sprintf(`(with-open-output-file (o "out%d") (format o "text~%%"))`, n)
	case "load":
		return fmt.Sprintf(`(load "lib%d.lsp")`, n)
	case "fail":
		return procFails[n%len(procFails)]
	case "quit":
		return []string{"(exit)", "(quit)", "((lambda () (exit)))", "(funcall #'exit)"}[n%4]
	case "abort":
		return "(abort)"
	case "def":
		return fmt.Sprintf("(defun f%d (x) (list x %d))", n, n)
	case "nop":
		return []string{"1", "nil", "\"text\"", "'(a b)", "(list 1 2)", "(setq v 1)", "(list #'car)", "(f0)", "; comment\n 5", "(let ((x 1)) x)"}[n%10]
	case "progn":
		return "(progn" + in + ")"
	case "let":
		return "(let ((x 1) (y 2))" + in + ")"
	case "block":
		return "(block b" + in + ")"
	case "leave":
		return "(block b" + in + " (return-from b 1) (error \"not reached\"))"
	case "catch":
		return "(catch 'c" + in + " (throw 'c 1))"
	case "flet":
		return "(flet ((g ()" + in + ")) (g))"
	case "lambda":
		return "((lambda (x)" + in + ") 1)"
	case "dyn":
		return "(progn (defdynamic dd 1) (dynamic-let ((dd 2))" + in + "))"
	case "if":
		return "(if t (progn" + in + ") (error \"else\"))"
	case "defun":
		return fmt.Sprintf("(progn (defun g%d (x)%s) (g%d 1))", n, in, n)
	case "tagbody":
		return "(tagbody (go in) out (go end) in" + in + " (go out) end)"
	case "dotimes":
		return "(dotimes (i 1)" + in + ")"
	case "for":
		return "(for ((i 0 (+ i 1))) ((= i 1) 1)" + in + ")"
	case "method":
		return fmt.Sprintf("(progn (defgeneric m%d (x)) (defmethod m%d ((x <integer>))%s) (m%d 1))", n, n, in, n)
	case "macro":
		return fmt.Sprintf("(progn (defmacro mc%d () '(progn%s)) (mc%d))", n, in, n)
	case "decline":
		return "(with-handler (lambda (c) (error \"again\"))" + in + ")"
	case "twice":
		return "(mapcar (lambda (x)" + in + ") '(1 2))"
	case "ignore":
		return "(ignore-errors" + in + ")"
	case "handle":
		return "(catch 'h (with-handler (lambda (c) (throw 'h 0))" + in + "))"
	case "unwind":
		return "(unwind-protect (progn" + procText(f.A[:len(f.A)-1]) + ") " + f.A[len(f.A)-1].text() + ")"
	}
	return "nil"
}

// procForm makes a form; fails is how likely it ends the script.
func procForm(r *Rand, depth, fails int, lib bool) *PForm {
	if depth > 0 && r.P(40) {
		f := &PForm{K: r.Str("progn", "let", "block", "leave", "catch", "flet", "dyn", "lambda", "if", "defun", "tagbody", "dotimes", "for", "method", "macro", "decline", "twice", "ignore", "ignore", "handle", "handle", "unwind", "unwind"), N: r.N(1_000_000_000)}
		n := r.Range(1, 3)
		if f.K == "unwind" {
			n = r.Range(2, 3)
		}
		sub := fails
		if f.K == "ignore" || f.K == "handle" {
			sub = fails + 30
		}
		for i := 0; i < n; i++ {
			f.A = append(f.A, procForm(r, depth-1, sub, lib))
		}
		return f
	}
	if r.P(fails) {
		switch r.W(8, 2, 2) {
		case 0:
			return &PForm{K: "fail", N: r.N(len(procFails))}
		case 1:
			return &PForm{K: "quit", N: r.N(4)}
		default:
			return &PForm{K: "abort"}
		}
	}
	k := r.Str("out", "out", "outt", "outs", "obj", "chr", "fresh", "err", "argv", "rl", "rleof", "rleof", "file", "def", "nop", "nop", "big", "load")
	n := r.N(6)
	if k == "load" && lib {
		k = "out"
	}
	if k == "big" {
		n = 1 + r.N(100)
		if r.P(4) {
			n = 600 + r.N(500)
		}
	}
	if k == "nop" {
		n = []int{0, 1, 2, 3, 4, 6, 8, 9}[r.N(8)]
	}
	return &PForm{K: k, N: n}
}

func pformShrink(fs []*PForm) [][]*PForm {
	var out [][]*PForm
	for i, f := range fs {
		out = append(out, without(fs, i))
		put := func(x ...*PForm) {
			q := append(append([]*PForm{}, fs[:i]...), x...)
			out = append(out, append(q, fs[i+1:]...))
		}
		if len(f.A) > 0 {
			put(f.A...)
			for _, a := range pformShrink(f.A) {
				if len(a) == 0 || (f.K == "unwind" && len(a) < 2) {
					continue
				}
				x := *f
				x.A = a
				put(&x)
			}
		}
		if f.K == "big" && f.N > 1 {
			x := *f
			x.N = f.N / 2
			put(&x)
		}
	}
	return out
}

// ---- C19: the command ----

type CliPlan struct {
	E      bool             `json:"e,omitempty"` // -e
	First  string           `json:"first,omitempty"`
	Pad    int              `json:"pad,omitempty"`  // the first line is that much longer
	Lead   string           `json:"lead,omitempty"` // text without effect in front of the forms
	Forms  []*PForm         `json:"forms"`
	Seps   []string         `json:"seps,omitempty"`
	Args   []string         `json:"args,omitempty"`
	Stdin  string           `json:"stdin,omitempty"`
	Libs   map[string]*PLib `json:"libs,omitempty"`
	Cut    int              `json:"cut,omitempty"` // the script ends after so many bytes
	Script string           `json:"script,omitempty"`
	// missing dir
	Faults []simos.Fault `json:"f,omitempty"`
	Mute   string        `json:"mute,omitempty"` // the error output fails when the final message is written
	MuteAt int           `json:"muteat,omitempty"`
	Chunks []int         `json:"chunks,omitempty"`
	Map    uint64        `json:"map,omitempty"`
}

func (p *CliPlan) render() (text string, spans []span, first int) {
	var b strings.Builder
	if !p.E {
		b.WriteString(p.First)
		if p.First != "" {
			b.WriteString(strings.Repeat("x(", p.Pad) + "\n")
		}
	}
	first = b.Len()
	b.WriteString(p.Lead)
	for i, f := range p.Forms {
		t := f.text()
		if i > 0 || p.E {
			b.WriteString(p.Seps[i%len(p.Seps)])
		}
		at := b.Len()
		b.WriteString(t)
		spans = append(spans, span{from: at, to: b.Len()})
	}
	b.WriteString("\n")
	return b.String(), spans, first
}

func cliLibs(r *Rand, fails int) map[string]*PLib {
	libs := map[string]*PLib{}
	for i := 0; i < 6; i++ {
		if r.P(25) {
			continue
		}
		l := &PLib{}
		for j := r.Range(0, 3); j > 0; j-- {
			l.Forms = append(l.Forms, procForm(r, 1, fails, true))
		}
		switch r.W(12, 1, 1, 1) {
		case 1:
			l.Cut = true
		case 2:
			l.Fault = "open"
		case 3:
			l.Fault, l.At = "readat", r.N(8)
		}
		libs[fmt.Sprintf("lib%d.lsp", i)] = l
	}
	return libs
}

func (l *PLib) text() string {
	t := strings.TrimPrefix(procText(l.Forms), " ") + "\n"
	if l.Cut {
		t += "(format (standard-output) \"x"
	}
	return t
}

// place puts the libraries on the disk and returns their faults.
func placeLibs(libs map[string]*PLib) (faults []simos.Fault) {
	for _, n := range sortedKeys(libs) {
		l := libs[n]
		t := l.text()
		simos.Put(n, t)
		switch l.Fault {
		case "open":
			faults = append(faults, simos.Fault{Op: "open", Path: n, Nth: 1, Err: "EACCES", Keep: true})
		case "readat":
			faults = append(faults, simos.Fault{Op: "readat", Path: n, Off: min2(l.At, len(t)), Err: "EIO", Keep: true})
		}
	}
	return
}

func cliGen(r *Rand, idx int, tier string) *CliPlan {
	p := &CliPlan{E: r.P(25), Chunks: genChunks(r)}
	n, depth := r.Range(1, 7), 2
	if tier == "thorough" {
		n, depth = r.Range(1, 20), 4
	}
	fails := []int{0, 4, 10, 25}[r.N(4)]
	for i := 0; i < n; i++ {
		p.Forms = append(p.Forms, procForm(r, depth, fails, false))
	}
	if r.P(5) {
		p.Forms = nil
	}
	if r.P(25) {
		p.Lead = r.Str("'!a ", "'%b\n", "\"s\" ", "'$x ", "'&y\n", ";@\n", " #(1 2) ", "\t'@c ", "-1 ", "`(1) ", "'|a b| ", "\n", " ;#!\n", "'/* ", ":key ", "'=\n", "\"\n\" ", "'- ", "'// ", "'<x> ", "1.5 ")
		if r.P(20) {
			p.Lead = r.Str("!a ", "%\n", "$x\n", "!x! ", "~ ", "!\n")
		}
	}
	for i := 0; i < 3; i++ {
		p.Seps = append(p.Seps, r.Str("\n", " ", "\n\n", "\r\n", "\t", " ; note\n", "\n;; (a comment\n", "\n; \" #|\n"))
	}
	if !p.E && r.P(45) {
		p.First = r.Str("#!/usr/bin/env gmnlisp", "#!gmnlisp \"", "@gmnlisp \"%~f0\" %* & exit /b", "@(error", "#", "@", "# (format (standard-output) \"no\")", "#|", "@; \r")
		if r.P(30) {
			p.Pad = []int{r.N(20), r.N(3000), 2000 + r.N(200), r.N(20000)}[r.N(4)]
		}
	}
	for i := r.W(3, 2, 2, 1); i > 0; i-- {
		a := r.Str("a", "b c", "", "\u00e9t\u00e9", "x=1", "file.txt", "-e", "--", "-x", "(car 1)", "1", "a*")
		if p.E && strings.HasPrefix(a, "-") {
			a = "z"
		}
		p.Args = append(p.Args, a)
	}
	for i := r.N(5); i > 0; i-- {
		p.Stdin += r.Str("one\n", "two words\n", "\n", "last", "x\ny\n", "\u00e9\n")
	}
	p.Libs = cliLibs(r, fails)
	switch r.W(10, 2, 1, 1) {
	case 1:
		text, _, _ := p.render()
		p.Cut = 1 + r.N(len(text))
		if r.P(30) {
			p.Cut = len(text) - 1 - r.N(min2(4, len(text)))
		}
	case 2:
		p.Script = "missing"
	case 3:
		p.Script = "dir"
	}
	if p.E {
		p.Script = ""
	}
	if r.P(35) {
		switch r.N(8) {
		case 0:
			p.Faults = append(p.Faults, simos.Fault{Op: "open", Path: "/script.lsp", Nth: 1, Err: r.Str("EACCES", "EIO", "EMFILE"), Keep: true})
		case 1, 2:
			text, _, first := p.render()
			k := r.N(len(text) + 1)
			if first > 0 && r.P(30) {
				k = r.N(first)
			}
			if r.P(20) {
				k = len(text)
			}
			if p.Cut > 0 && k > p.Cut {
				k = p.Cut
			}
			p.Faults = append(p.Faults, simos.Fault{Op: "readat", Path: "/script.lsp", Off: k, Err: r.Str("EIO", "EBADF"), Keep: true})
		case 3, 4:
			p.Faults = append(p.Faults, simos.Fault{Op: "writeat", Path: "stdout", Off: r.N(40), Err: r.Str("EIO", "ENOSPC", "EPIPE"), Keep: r.P(60)})
			if r.P(30) {
				p.Faults[0].Off = r.N(8000)
			}
		case 5:
			p.Faults = append(p.Faults, simos.Fault{Op: "readat", Path: "stdin", Off: r.N(len(p.Stdin) + 1), Err: "EIO", Keep: true})
		case 6:
			p.Faults = append(p.Faults, simos.Fault{Op: r.Str("create", "write", "close"), Path: fmt.Sprintf("out%d", r.N(6)), Nth: 1, Err: r.Str("EIO", "ENOSPC", "EACCES"), Keep: true})
		default:
			p.Faults = append(p.Faults, simos.Fault{Op: "host"})
		}
	}
	if r.P(8) {
		p.Mute, p.MuteAt = r.Str("EIO", "ENOSPC", "EPIPE", "EBADF"), r.N(3)*r.N(20)
	}
	if r.P(30) {
		p.Map = r.U64() >> 12
	}
	return p
}

func newProcModel(faults []simos.Fault, libs map[string]*PLib, argv []string, stdin string) *procModel {
	m := &procModel{libs: libs, argv: argv, in: stdin, files: map[string]string{}, bad: map[string]string{}}
	for i := range faults {
		f := &faults[i]
		switch {
		case f.Op == "writeat":
			m.outFault = f
		case f.Op == "readat" && f.Path == "stdin":
			m.inFault = f
		case strings.HasPrefix(f.Path, "out"):
			m.bad[f.Path] = f.Op
		}
	}
	return m
}

func init() {
	gmnlisp.Export(gmnlisp.NewSymbol("hf"), gmnlisp.Function1(func(context.Context, *gmnlisp.World, gmnlisp.Node) (gmnlisp.Node, error) {
		return nil, errHost
	}))
}

func cliExec(p *CliPlan, r *Run) {
	text, spans, first := p.render()
	if p.Cut > 0 && p.Cut < len(text) {
		text = text[:p.Cut]
	}
	if strings.TrimSpace(p.Lead) != "" && len(text) < first+len(p.Lead) {
		r.Probe("discarded: cut in an atom")
		return
	}
	// What is there of the script?
	whole, complete := 0, true
	for _, s := range spans {
		if s.to <= len(text) {
			whole++
		} else if s.from < len(text) {
			complete = false
		}
	}
	if !complete && len(text) > 0 {
		if s := spans[whole]; p.Forms[whole].K == "nop" || p.Forms[whole].K == "fail" || text[s.from:] == "'" {
			if c := p.Forms[whole].text()[0]; c != '(' {
				r.Probe("discarded: cut in an atom")
				return
			}
		}
	}
	if whole == len(spans) && len(spans) > 0 && len(text) < spans[len(spans)-1].to {
		complete = false
	}
	readable := p.Script == ""
	var fs []simos.Fault
	for _, f := range p.Faults {
		if f.Op == "host" {
			continue
		}
		fs = append(fs, f)
		if f.Path == "/script.lsp" && !p.E && (f.Op == "open" || f.Off <= len(text)) {
			readable = false
		}
	}
	m := newProcModel(fs, p.Libs, p.Args, p.Stdin)
	want := ""
	seq := func(m *procModel) string {
		if p.Lead != "" && strings.Contains("!%$~", p.Lead[:1]) {
			return "fail" // a variable without a value
		}
		return m.seq(p.Forms[:whole])
	}
	if readable && complete {
		want = seq(m)
	}
	partial := newProcModel(fs, p.Libs, p.Args, p.Stdin)
	if readable && complete {
		partial = m
	} else {
		seq(partial)
	}

	simos.Reset(nil, -1, p.Chunks)
	simos.SetStdin(p.Stdin)
	all := append(append([]simos.Fault{}, fs...), placeLibs(p.Libs)...)
	if p.Mute != "" {
		all = append(all, simos.Fault{Op: "writeat", Path: "stderr", Off: len(partial.err) + p.MuteAt, Err: p.Mute, Keep: true})
	}
	simos.SetFaults(all)
	switch p.Script {
	case "":
		simos.Put("script.lsp", text)
	case "dir":
		simos.PutDir("script.lsp")
	}
	args := append([]string{"script.lsp"}, p.Args...)
	if p.E {
		args = append([]string{"-e", text}, p.Args...)
		if text == "" {
			r.Probe("discarded: no program")
			return
		}
	}
	host = &hostSide{faults: map[int]string{}, fired: r.Faults}
	begin(0, p.Map)
	defer r.end()
	status, crash := runMain(climain.Main, args...)
	r.Evals++
	out, errs := simos.Output(simos.Stdout), simos.Output(simos.Stderr)
	r.Log("status %d %s", status, crash)
	r.Log("stdout %q", out)
	r.Log("stderr %q", errs)
	for _, e := range simos.Log() {
		r.Log("fs %s %s %s", e.Op, e.Path, e.Err)
	}
	if m.unknown || partial.unknown {
		r.Probe("discarded: unspecified")
		return
	}
	what := "script"
	if p.E {
		what = "-e"
	}
	if crash != "" {
		r.Fail("crash", "%s: %s", what, crash)
		return
	}
	ok := readable && complete && (want == "" || want == "quit")
	why := want
	switch {
	case !readable:
		why = "the script cannot be read"
	case !complete:
		why = "the script is cut"
	case why == "":
		why = "the script succeeds"
	}
	r.Probe("case: " + why)
	if ok && status != 0 {
		r.Fail("status", "%s: exit status %d although %s: stderr %s", what, status, why, clip(errs, 300))
	}
	if !ok && status != 1 {
		r.Fail("status", "%s: exit status %d instead of 1 (%s)", what, status, why)
	}
	if readable && complete {
		if out != string(m.out) {
			r.Fail("output", "%s (%s): the standard output was %s instead of %s", what, why, clip(fmt.Sprintf("%q", out), 300), clip(fmt.Sprintf("%q", m.out), 300))
		}
		for _, n := range sortedKeys(m.files) {
			if got, _ := simos.Get(n); got != m.files[n] {
				r.Fail("file", "%s (%s): file %s holds %q instead of %q", what, why, n, got, m.files[n])
			}
		}
		if want == "quit" || want == "" {
			if errs != string(m.err) {
				r.Fail("message", "%s (%s): the error output was %q instead of %q", what, why, clip(errs, 300), m.err)
			}
		} else if !strings.HasPrefix(errs, string(m.err)) || p.Mute == "" && strings.TrimSpace(errs[len(m.err):]) == "" && want != "fail" {
			r.Fail("message", "%s (%s): the error output was %q", what, why, clip(errs, 300))
		}
	} else if !strings.HasPrefix(string(partial.out), out) {
		r.Fail("output", "%s (%s): the standard output was %s, which is no prefix of %s", what, why, clip(fmt.Sprintf("%q", out), 300), clip(fmt.Sprintf("%q", partial.out), 300))
	}
	if p.Mute != "" {
		if !ok {
			r.Probe("the message can not be written")
		}
	} else if !ok && errs == string(m.err) && (!readable || !complete) {
		r.Fail("message", "%s (%s): nothing was reported on the error output", what, why)
	}
	if p.Mute == "" && want == "fail" && len(errs) <= len(m.err) {
		r.Fail("message", "%s (%s): nothing was reported on the error output", what, why)
	}
	if n := simos.OpenHandles(); n > 0 {
		r.Probe("open-handles-at-exit")
	}
	if first > 0 {
		r.Probe("first-line")
	}
	if !ok || len(fs) > 0 || len(p.Chunks) > 0 || p.Mute != "" {
		r.Key = hashOf(jsonText(p))
	}
	r.Inter = hashOf(why, jsonText(p.Faults), fmt.Sprint(p.Chunks), p.Cut)
}

func cliShrink(p *CliPlan) []*CliPlan {
	var out []*CliPlan
	add := func(f func(q *CliPlan)) {
		q := *p
		f(&q)
		out = append(out, &q)
	}
	for _, fs := range pformShrink(p.Forms) {
		fs := fs
		add(func(q *CliPlan) { q.Forms = fs })
	}
	for i := range p.Faults {
		add(func(q *CliPlan) { q.Faults = without(p.Faults, i) })
	}
	if p.Lead != "" && p.Cut == 0 {
		add(func(q *CliPlan) { q.Lead = "" })
	}
	if p.Mute != "" {
		add(func(q *CliPlan) { q.Mute = "" })
	}
	for i := range p.Args {
		add(func(q *CliPlan) { q.Args = without(p.Args, i) })
	}
	for _, n := range sortedKeys(p.Libs) {
		libs := map[string]*PLib{}
		for k, v := range p.Libs {
			if k != n {
				libs[k] = v
			}
		}
		add(func(q *CliPlan) { q.Libs = libs })
	}
	if p.Stdin != "" {
		add(func(q *CliPlan) { q.Stdin = "" })
	}
	if len(p.Chunks) > 0 {
		add(func(q *CliPlan) { q.Chunks = nil })
	}
	if p.First != "" && p.Pad == 0 {
		add(func(q *CliPlan) { q.First = "" })
	}
	if p.Pad > 0 {
		add(func(q *CliPlan) { q.Pad = 0 })
		add(func(q *CliPlan) { q.Pad = p.Pad / 2 })
		add(func(q *CliPlan) { q.Pad = p.Pad - 1 })
	}
	if p.Map > 0 {
		add(func(q *CliPlan) { q.Map = 0 })
	}
	if len(p.Seps) > 0 && p.Seps[0] != "\n" {
		add(func(q *CliPlan) { q.Seps = []string{"\n"} })
	}
	if p.Cut > 0 {
		add(func(q *CliPlan) { q.Cut = 0 })
	}
	return out
}

func cliExplain(p *CliPlan) string {
	var b strings.Builder
	text, _, _ := p.render()
	if p.Cut > 0 && p.Cut < len(text) {
		text = text[:p.Cut]
	}
	if p.E {
		fmt.Fprintf(&b, "gmnlisp -e %q %q\n", text, p.Args)
	} else {
		fmt.Fprintf(&b, "gmnlisp script.lsp %q   (script: %s)\n%s\n", p.Args, p.Script, clip(text, 3000))
	}
	names := sortedKeys(p.Libs)
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&b, "; %s %s: %s\n", n, p.Libs[n].Fault, clip(p.Libs[n].text(), 300))
	}
	fmt.Fprintf(&b, "; standard input %q, reads split as %v\n", p.Stdin, p.Chunks)
	for _, f := range p.Faults {
		if f.Op == "writeat" || f.Op == "readat" {
			fmt.Fprintf(&b, "; %s fails with %s at byte %d (lasting: %v)\n", f.Path, f.Err, f.Off, f.Keep)
		} else {
			fmt.Fprintf(&b, "; %s of %s fails with %s\n", f.Op, f.Path, f.Err)
		}
	}
	return b.String()
}

func init() {
	register(Check{ID: "C19", Quick: 20000, Thor: 300000, Fresh: true,
		Rule: "a process that had to fail, met a failing system call or split reads; distinct by script, arguments, input and faults",
		Real: append([]string{"the gmnlisp command (everything but its interactive mode)"}, realAll...), Stub: stubAll}, cliGen, cliExec, cliShrink, cliExplain)
}
