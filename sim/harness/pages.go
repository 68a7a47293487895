package main

import (
	"fmt"
	"strings"

	"github.com/hymkor/gmnlisp/zz_verif/lppmain"
	"github.com/hymkor/gmnlisp/zz_verif/simos"
)

// Check C22: simulated processes of the template preprocessor.

type Seg struct {
	K string `json:"k"` // text expr code loop
	S string `json:"s,omitempty"`
	N int    `json:"n,omitempty"`
	F *PForm `json:"f,omitempty"`
	B string `json:"b,omitempty"` // blank inside the tag
	A []*Seg `json:"a,omitempty"`
}

type LppArg struct {
	Var   string `json:"var,omitempty"` // a definition name=value
	Segs  []*Seg `json:"segs,omitempty"`
	Fault string `json:"fault,omitempty"` // missing open readat dir cut
	At    int    `json:"at,omitempty"`
}

type LppPlan struct {
	Args   []*LppArg        `json:"args"` // the last one is the standard input, if Std
	Std    bool             `json:"std,omitempty"`
	Stdin  string           `json:"stdin,omitempty"` // if it is not the page
	Libs   map[string]*PLib `json:"libs,omitempty"`
	Faults []simos.Fault    `json:"f,omitempty"`
	Chunks []int            `json:"chunks,omitempty"`
	Map    uint64           `json:"map,omitempty"`
}

var pageTexts = []string{"plain text\n", "two\nlines\n", "no newline", "\n", "\n\n", "\"quoted\"", "back\\slash\\n", "(car 1)", "; comment\n", "100% < 5 > 3\n", "a = b\n", "=x\n",
	"<html>\n<p class=\"x\">\n", "~a ~% ~s\n", "#| x\n", "'(", "\u00e9t\u00e9 \u3042\n", "  indented\n\ttab\n", "<", "%", "=", ")\n", "|#", "#\\(", "\\\"", " "}

func pageText(r *Rand) string {
	var b strings.Builder
	for i := r.Range(1, 3); i > 0; i-- {
		b.WriteString(r.Str(pageTexts...))
	}
	if r.P(4) {
		b.WriteString(pattern(r.N(6000)) + "\n")
	}
	s := strings.NewReplacer("<%", "< %", "%>", "% >").Replace(b.String())
	return strings.TrimSuffix(s, "<") // so that nothing becomes a tag
}

func pageSegs(r *Rand, depth, n, fails int, text bool) []*Seg {
	var out []*Seg
	for ; n > 0; n-- {
		last := len(out) > 0 && out[len(out)-1].K == "text"
		k := r.W(5, 4, 4, 2)
		if !text && k < 2 {
			k = 2
		}
		switch {
		case k == 0 && !last:
			out = append(out, &Seg{K: "text", S: pageText(r)})
		case k == 3 && depth > 0:
			s := &Seg{K: "loop", N: r.N(4), S: r.Str("dotimes", "dotimes", "if", "ignore", "let", "while", "defun"), B: r.Str(" ", "\n", "")}
			s.A = pageSegs(r, depth-1, r.Range(1, 3), fails, text)
			out = append(out, s)
		case k == 2 && r.P(12):
			out = append(out, &Seg{K: "var", B: r.Str("", " ", "\n")})
		case k == 1:
			out = append(out, &Seg{K: "expr", N: r.N(len(pageExprs)), B: r.Str("", " ", "\n")})
			if r.P(fails) {
				out[len(out)-1].F = &PForm{K: "fail", N: r.N(len(procFails))}
			}
		default:
			f := procForm(r, depth, fails, true)
			s := &Seg{K: "code", F: f, B: r.Str(" ", "\n", "", " ; note\n")}
			if strings.HasPrefix(f.text(), "=") || strings.Contains(f.text(), "%>") || strings.Contains(f.text(), "<%") {
				continue
			}
			out = append(out, s)
		}
	}
	return out
}

// expressions and their values; "" is the value of the variable A
var pageExprs = [][2]string{{"(+ 1 2)", "3"}, {`"text"`, "text"}, {"A", ""}, {"'sym", "sym"}, {"(list 1 2)", "(1 2)"}, {`(string-append "a" "b")`, "ab"}, {"-5", "-5"},
	{`"q\"q"`, "q\"q"}, {"A", ""}, {"(let ((x 4)) (* x x))", "16"}, {`"a\\b"`, "a\\b"}, {`(if A "yes" "no")`, "yes"}}

func (s *Seg) text() string {
	switch s.K {
	case "text":
		return s.S
	case "expr":
		e := pageExprs[s.N%len(pageExprs)][0]
		if s.F != nil {
			e = s.F.text()
		}
		return "<%=" + s.B + e + s.B + "%>"
	case "var":
		return "<%" + s.B + `(format (standard-output) "~a" A)` + s.B + "%>"
	case "code":
		t := s.F.text()
		if s.B == "" && !strings.HasSuffix(t, ")") {
			t += " " // else it runs into what follows
		}
		return "<%" + s.B + t + s.B + "%>"
	}
	in := pageTextOf(s.A)
	switch s.S {
	case "dotimes":
		return fmt.Sprintf("<%%%s(dotimes (i %d)%s%%>%s<%%%s)%%>", s.B, s.N, s.B, in, s.B)
	case "while":
		return fmt.Sprintf("<%% (let ((k 0)) (while (< k %d) (setq k (+ k 1)) %%>%s<%%%s)) %%>", s.N, in, s.B)
	case "if":
		return fmt.Sprintf("<%%%s(if (> %d 1) (progn %%>%s<%%%s)) %%>", s.B, s.N, in, s.B)
	case "ignore":
		return fmt.Sprintf("<%%%s(ignore-errors %%>%s<%%%s) %%>", s.B, in, s.B)
	case "defun":
		return fmt.Sprintf("<%%%s(defun page-fn%d (x) %%>%s<%%%s) (page-fn%d 1) (page-fn%d 2) %%>", s.B, len(in), in, s.B, len(in), len(in))
	}
	return fmt.Sprintf("<%%%s(let ((x 1)) %%>%s<%%%s) %%>", s.B, in, s.B)
}

func pageTextOf(ss []*Seg) string {
	var b strings.Builder
	for _, s := range ss {
		b.WriteString(s.text())
	}
	return b.String()
}

func (m *procModel) page(ss []*Seg) string {
	for _, s := range ss {
		if r := m.seg(s); r != "" || m.unknown {
			return r
		}
	}
	return ""
}

func (m *procModel) seg(s *Seg) string {
	switch s.K {
	case "text": // a newline at the start of the page or directly after a tag is dropped
		if m.noText && strings.TrimPrefix(s.S, "\n") != "" {
			m.textHit = true
			return "fail"
		}
		return m.put(strings.TrimPrefix(s.S, "\n"))
	case "expr":
		if m.noText {
			m.textHit = true
			return "fail"
		}
		if s.F != nil {
			return "fail"
		}
		v := pageExprs[s.N%len(pageExprs)]
		if v[0] == "A" || strings.Contains(v[0], " A ") {
			if !m.hasA {
				return "fail"
			}
			if v[0] == "A" {
				return m.put(m.varA)
			}
		}
		return m.put(v[1])
	case "var":
		if !m.hasA {
			return "fail"
		}
		return m.put(m.varA)
	case "code":
		return m.form(s.F)
	}
	n := 1
	switch s.S {
	case "dotimes", "while":
		n = s.N
	case "defun":
		n = 2
	case "if":
		if s.N <= 1 {
			n = 0
		}
	}
	for i := 0; i < n; i++ {
		r := m.page(s.A)
		if s.S == "ignore" && r == "fail" {
			r = ""
		}
		if r != "" || m.unknown {
			return r
		}
	}
	return ""
}

func lppGen(r *Rand, idx int, tier string) *LppPlan {
	p := &LppPlan{Chunks: genChunks(r), Std: r.P(35)}
	fails := []int{0, 0, 5, 15}[r.N(4)]
	files := r.Range(1, 3)
	if p.Std {
		files = 1
	}
	n, depth := 6, 2
	if tier == "thorough" {
		n, depth = 15, 3
	}
	for i := 0; i < files; i++ {
		for r.P(40) {
			p.Args = append(p.Args, &LppArg{Var: r.Str("A", "a", "A", "b") + "=" + r.Str("1", "value", "", "x=y", "two words", "\u00e9", "\"q\"", "(car 1)")})
		}
		a := &LppArg{}
		text := r.P(50)
		a.Segs = pageSegs(r, depth, r.Range(1, n), fails, text)
		// a page that is all text, or ends with =, is made on purpose only
		if len(a.Segs) > 0 && a.Segs[len(a.Segs)-1].K == "text" && strings.HasSuffix(a.Segs[len(a.Segs)-1].S, "=") && !r.P(10) {
			a.Segs[len(a.Segs)-1].S += "."
		}
		if tags := strings.Contains(pageTextOf(a.Segs), "<%"); !tags && text && !r.P(10) {
			a.Segs = append(a.Segs, &Seg{K: "expr", N: 1})
		}
		switch r.W(14, 1, 1, 1, 1, 2) {
		case 1:
			a.Fault = "missing"
		case 2:
			a.Fault = "open"
		case 3:
			a.Fault = "dir"
		case 4:
			a.Fault, a.At = "readat", r.N(len(pageTextOf(a.Segs))+1)
		case 5:
			a.Fault, a.At = "cut", r.N(1000)
		}
		if p.Std && a.Fault != "readat" && a.Fault != "cut" {
			a.Fault = ""
		}
		p.Args = append(p.Args, a)
	}
	if r.P(15) {
		p.Args = append(p.Args, &LppArg{Var: "A=late"})
		if p.Std { // definitions only: the page is read afterwards
			k := len(p.Args) - 1
			p.Args[k], p.Args[k-1] = p.Args[k-1], p.Args[k]
		}
	}
	if !p.Std {
		for i := r.N(4); i > 0; i-- {
			p.Stdin += r.Str("one\n", "two words\n", "\n", "last")
		}
	}
	p.Libs = cliLibs(r, fails)
	switch r.W(8, 2, 1) {
	case 1:
		f := simos.Fault{Op: "writeat", Path: "stdout", Off: r.N(60), Err: r.Str("EIO", "ENOSPC", "EPIPE"), Keep: r.P(70)}
		if r.P(30) {
			f.Off = r.N(9000)
		}
		p.Faults = append(p.Faults, f)
	case 2:
		p.Faults = append(p.Faults, simos.Fault{Op: r.Str("create", "write", "close"), Path: fmt.Sprintf("out%d", r.N(6)), Nth: 1, Err: r.Str("EIO", "ENOSPC", "EACCES"), Keep: true})
	}
	if r.P(30) {
		p.Map = r.U64() >> 12
	}
	return p
}

// cutPage cuts a page inside a form and tells which segments are before it.
func cutPage(ss []*Seg, at int) (string, []*Seg, bool) {
	type place struct{ seg, from, n int }
	var places []place
	off := 0
	for i, s := range ss {
		t := s.text()
		if s.K == "code" && strings.HasPrefix(s.F.text(), "(") {
			k := strings.IndexByte(t, '(')
			places = append(places, place{i, off + k + 1, len(s.F.text()) - 1})
		}
		off += len(t)
	}
	if len(places) == 0 {
		return pageTextOf(ss), ss, false
	}
	p := places[at%len(places)]
	k := p.from + at/len(places)%p.n
	return pageTextOf(ss)[:k], ss[:p.seg], true
}

// lppWant is what a process does.  With broken, text outside of tags and
// values fail, as they do at the pinned commit (see known_findings.txt).
type lppWant struct {
	m         *procModel
	want, why string
	loose     int // from here on only a prefix of the expected output is required
	tail      []byte
	shape     string
	pages     int
}

func (a *LppArg) source() (text string, segs []*Seg, cut bool) {
	if a.Fault == "cut" {
		return cutPage(a.Segs, a.At)
	}
	return pageTextOf(a.Segs), a.Segs, false
}

func lppPredict(p *LppPlan, noText, noVars bool) *lppWant {
	in := p.Stdin
	if p.Std {
		in = ""
	}
	m := newProcModel(nil, p.Libs, nil, in)
	m.noText, m.noArgv = noText, true
	w := &lppWant{m: m}
	for _, f := range p.Faults {
		if f.Op != "writeat" {
			m.bad[f.Path] = f.Op
		}
	}
	for _, a := range p.Args {
		if w.want != "" {
			break
		}
		if a.Var != "" {
			if k := strings.IndexByte(a.Var, '='); strings.ToUpper(a.Var[:k]) == "A" {
				if noVars {
					m.varHit = true
					continue
				}
				m.varA, m.hasA = a.Var[k+1:], true
			}
			continue
		}
		w.pages++
		text, segs, bad := a.source()
		bad = bad || a.Fault == "missing" || a.Fault == "dir" || a.Fault == "open" || a.Fault == "readat" && a.At <= len(text)
		if w.shape == "" && !bad {
			switch {
			case !strings.Contains(text, "<%") && text != "":
				w.shape = "page-without-tags"
			case strings.HasSuffix(text, "="):
				w.shape = "page-ends-with-equals"
			}
		}
		m.pageAt = len(m.out)
		w.loose = len(m.out)
		if bad {
			w.want, w.why, w.tail = "fail", a.Fault, m.out
			if a.Fault == "cut" { // some of it may have happened
				save, files := append([]byte{}, m.out...), map[string]string{}
				for k, v := range m.files {
					files[k] = v
				}
				m.page(segs)
				w.tail = m.out
				m.out = save
				for k, v := range m.files {
					if files[k] != v {
						delete(files, k)
					}
				}
				m.files = files
			}
			break
		}
		if w.want = m.page(segs); w.want != "" {
			w.why = w.want
		}
		w.loose = len(m.out)
		w.tail = m.out
	}
	if w.why == "" {
		w.why = "success"
	}
	return w
}

// judge compares a process with the prediction.
func (w *lppWant) judge(p *LppPlan, status int, got, errs string) (class, msg string) {
	fail := func(c, f string, a ...interface{}) {
		if class == "" {
			if w.shape != "" && c != "lost-output" {
				c = w.shape
			}
			class, msg = c, fmt.Sprintf(f, a...)
		}
	}
	var out *simos.Fault
	for i := range p.Faults {
		if p.Faults[i].Op == "writeat" {
			out = &p.Faults[i]
		}
	}
	lost := out != nil && simos.Fired()["write:"+out.Err] > 0
	m, full := w.m, string(w.m.out)
	switch {
	case lost && status == 0:
		fail("lost-output", "exit status 0 although writing the standard output failed at byte %d: %d of %d bytes were delivered", out.Off, len(got), len(full))
	case lost:
		if status != 1 {
			fail("status", "exit status %d instead of 1 (the standard output failed)", status)
		}
		if (out.Keep || w.pages == 1) && !strings.HasPrefix(string(w.tail), got) {
			fail("output", "(the standard output failed) it holds %s, no prefix of %s", clip(fmt.Sprintf("%q", got), 300), clip(fmt.Sprintf("%q", w.tail), 300))
		}
	case w.want == "" && status != 0:
		fail("status", "exit status %d although everything succeeds: %s", status, lastLine(errs))
	case w.want != "" && status != 1:
		fail("status", "exit status %d instead of 1 (%s)", status, w.why)
	}
	if !lost {
		if len(got) < w.loose || got[:w.loose] != full[:w.loose] || !strings.HasPrefix(string(w.tail), got) || (w.loose == len(full) && len(w.tail) == w.loose && got != full) {
			fail("output", "(%s) the standard output was %s instead of %s", w.why, clip(fmt.Sprintf("%q", got), 300), clip(fmt.Sprintf("%q", w.tail), 300))
		}
		for _, n := range sortedKeys(m.files) {
			if s, _ := simos.Get(n); s != m.files[n] {
				fail("file", "(%s) file %s holds %q instead of %q", w.why, n, s, m.files[n])
			}
		}
	}
	if status != 0 && lastLine(errs) == "" {
		fail("message", "(%s) nothing was reported on the error output", w.why)
	}
	return
}

func lppExec(p *LppPlan, r *Run) {
	simos.Reset(nil, -1, p.Chunks)
	fs := append(append([]simos.Fault{}, p.Faults...), placeLibs(p.Libs)...)
	simos.SetStdin(p.Stdin)
	var args []string
	for i, a := range p.Args {
		if a.Var != "" {
			args = append(args, a.Var)
			continue
		}
		name := fmt.Sprintf("page%d.txt", i)
		text, _, _ := a.source()
		path := name
		if p.Std {
			path = "stdin"
			simos.SetStdin(text)
		} else {
			args = append(args, name)
			switch a.Fault {
			case "missing":
			case "dir":
				simos.PutDir(name)
			default:
				simos.Put(name, text)
			}
		}
		switch a.Fault {
		case "open":
			fs = append(fs, simos.Fault{Op: "open", Path: path, Nth: 1, Err: "EACCES", Keep: true})
		case "readat":
			if a.At <= len(text) {
				fs = append(fs, simos.Fault{Op: "readat", Path: path, Off: a.At, Err: "EIO", Keep: true})
			}
		}
	}
	simos.SetFaults(fs)
	begin(0, p.Map)
	defer r.end()
	host = &hostSide{faults: map[int]string{}, fired: r.Faults}
	status, crash := runMain(lppmain.Main, args...)
	r.Evals++
	got, errs := simos.Output(simos.Stdout), simos.Output(simos.Stderr)
	r.Log("status %d %s", status, crash)
	r.Log("stdout %q", got)
	r.Log("stderr %q", errs)
	for _, e := range simos.Log() {
		r.Log("fs %s %s %s", e.Op, e.Path, e.Err)
	}
	w := lppPredict(p, false, false)
	if crash != "" {
		r.Fail("crash", "%s", crash)
		return
	}
	class, msg := "", ""
	if !w.m.unknown {
		class, msg = w.judge(p, status, got, errs)
	}
	known := false
	if (class != "" || w.m.unknown) && w.shape == "" {
		// is it the known refusals, and nothing else?
		for k := 3; k >= 1 && !known; k-- {
			b := lppPredict(p, k&1 != 0, k&2 != 0)
			if b.m.unknown || b.m.textHit != (k&1 != 0) || b.m.varHit != (k&2 != 0) {
				continue
			}
			switch c, x := b.judge(p, status, got, errs); {
			case c == "" && k&1 != 0:
				known, class, msg = true, "page-text", "text outside of tags and values of <%= %> are refused: undefined function"
			case c == "":
				known, class, msg = true, "page-definition", "name=value has no effect"
			case c == "lost-output":
				known, class, msg = true, c, x
			}
		}
	}
	if w.m.unknown && !known {
		r.Probe("discarded: unspecified")
		return
	}
	if class != "" {
		r.Fail(class, "%s", msg)
	}
	r.Probe("case: " + w.why)
	if w.shape != "" {
		r.Probe(w.shape)
	}
	if w.want != "" || len(fs) > 0 || len(p.Chunks) > 0 {
		r.Key = hashOf(jsonText(p))
	}
	r.Inter = hashOf(w.why, jsonText(fs), fmt.Sprint(p.Chunks), len(got))
}

func lastLine(s string) string {
	s = strings.TrimRight(s, "\n \t")
	return strings.TrimSpace(s[strings.LastIndexByte(s, '\n')+1:])
}

func segShrink(ss []*Seg) [][]*Seg {
	var out [][]*Seg
	for i, s := range ss {
		out = append(out, without(ss, i))
		put := func(x ...*Seg) {
			q := append(append([]*Seg{}, ss[:i]...), x...)
			out = append(out, append(q, ss[i+1:]...))
		}
		if len(s.A) > 0 {
			put(s.A...)
			for _, a := range segShrink(s.A) {
				x := *s
				x.A = a
				put(&x)
			}
		}
		if s.F != nil && s.K == "code" {
			for _, f := range pformShrink([]*PForm{s.F}) {
				if len(f) == 1 {
					x := *s
					x.F = f[0]
					put(&x)
				}
			}
		}
		if s.K == "text" && len(s.S) > 1 {
			x, y := *s, *s
			x.S, y.S = s.S[:len(s.S)/2], s.S[len(s.S)/2:]
			put(&x)
			put(&y)
		}
		if s.B != " " && s.K != "text" {
			x := *s
			x.B = " "
			put(&x)
		}
	}
	return out
}

func lppShrink(p *LppPlan) []*LppPlan {
	var out []*LppPlan
	add := func(f func(q *LppPlan)) {
		q := *p
		f(&q)
		out = append(out, &q)
	}
	for i, a := range p.Args {
		if !p.Std || a.Var != "" {
			add(func(q *LppPlan) { q.Args = without(p.Args, i) })
		}
		for _, ss := range segShrink(a.Segs) {
			x := *a
			x.Segs = ss
			add(func(q *LppPlan) {
				q.Args = append([]*LppArg{}, p.Args...)
				q.Args[i] = &x
			})
		}
	}
	for i := range p.Faults {
		add(func(q *LppPlan) { q.Faults = without(p.Faults, i) })
	}
	if len(p.Chunks) > 0 {
		add(func(q *LppPlan) { q.Chunks = nil })
	}
	if len(p.Libs) > 0 {
		add(func(q *LppPlan) { q.Libs = nil })
	}
	if p.Map > 0 {
		add(func(q *LppPlan) { q.Map = 0 })
	}
	return out
}

func lppExplain(p *LppPlan) string {
	var b strings.Builder
	b.WriteString("gmnlpp")
	for i, a := range p.Args {
		switch {
		case a.Var != "":
			fmt.Fprintf(&b, " %q", a.Var)
		case p.Std:
			b.WriteString(" < page")
		default:
			fmt.Fprintf(&b, " page%d.txt", i)
		}
	}
	b.WriteByte('\n')
	for i, a := range p.Args {
		if a.Var == "" {
			t := pageTextOf(a.Segs)
			if a.Fault == "cut" {
				t, _, _ = cutPage(a.Segs, a.At)
			}
			fmt.Fprintf(&b, "; page%d.txt (%s %d): %q\n", i, a.Fault, a.At, clip(t, 1500))
		}
	}
	for _, n := range sortedKeys(p.Libs) {
		if strings.Contains(b.String(), n) {
			fmt.Fprintf(&b, "; %s %s: %s\n", n, p.Libs[n].Fault, clip(p.Libs[n].text(), 300))
		}
	}
	fmt.Fprintf(&b, "; standard input %q, reads split as %v\n", p.Stdin, p.Chunks)
	for _, f := range p.Faults {
		if f.Op == "writeat" {
			fmt.Fprintf(&b, "; %s fails with %s at byte %d (lasting: %v)\n", f.Path, f.Err, f.Off, f.Keep)
		} else {
			fmt.Fprintf(&b, "; %s of %s fails with %s\n", f.Op, f.Path, f.Err)
		}
	}
	return b.String()
}

func init() {
	register(Check{ID: "C22", Quick: 20000, Thor: 300000, Fresh: true,
		Rule: "a process that had to fail, met a failing system call or split reads; distinct by pages, arguments, input and faults",
		Real: append([]string{"the gmnlpp command"}, realAll...), Stub: stubAll}, lppGen, lppExec, lppShrink, lppExplain)
}
