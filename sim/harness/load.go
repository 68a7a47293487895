package main

import (
	"context"
	"fmt"
	"strings"

	gmnlisp "github.com/hymkor/gmnlisp"
	"github.com/hymkor/gmnlisp/zz_verif/simos"
	"github.com/hymkor/gmnlisp/zz_verif/simrt"
)

// Check C10: load evaluates all of a file or nothing.

type LoadForm struct {
	K   string `json:"k"`
	N   int    `json:"n,omitempty"`
	F   string `json:"f,omitempty"`
	Pre int    `json:"p,omitempty"` // what stands before it
}

type LoadFile struct {
	Name  string      `json:"name"`
	Forms []*LoadForm `json:"forms,omitempty"`
	Tail  int         `json:"tail,omitempty"`
	Cut   int         `json:"cut"` // the file ends after so many bytes; -1 = complete
}

type LoadStep struct {
	Wrap string `json:"w,omitempty"`
	F    string `json:"f"`
}

type LoadPlan struct {
	Files  []*LoadFile   `json:"files"`
	Steps  []*LoadStep   `json:"steps"`
	Fs     []simos.Fault `json:"fs,omitempty"`
	Hosts  []HFault      `json:"h,omitempty"`
	Chunks []int         `json:"chunks,omitempty"`
	Cut    *Cut          `json:"cancel,omitempty"`
	Map    uint64        `json:"map,omitempty"`
}

var loadPre = []string{"", "\n", " ", "\t\n", "; comment ( \" #|\n", "#| block ( \" comment |#", "#| two\nlines |#\n", ";\n", "\r\n", "%pad", "; あ\n", "#||#", "\n\n\n", "#| far\n\n\n\n( apart |#", "\n\n\n; one\n\n\n; two\n\n\n", "\f\v\n", "; 1\n; 2\n;3\n"}

func (f *LoadForm) pre() string {
	if loadPre[f.Pre] == "%pad" {
		return "; " + strings.Repeat("padding ", 60+f.N*40) + "\n"
	}
	return loadPre[f.Pre]
}

func (f *LoadForm) text() string {
	switch f.K {
	case "h":
		return fmt.Sprintf("(h%d %d)", f.N%9, f.N)
	case "str":
		return fmt.Sprintf("(h1 \"あ)(%d\")", f.N)
	case "h0":
		return fmt.Sprintf("(h0 %d)", f.N)
	case "def":
		return fmt.Sprintf("(defun lf (x) (list x %d))", f.N)
	case "use":
		return "(h2 (ignore-errors (lf 1)))"
	case "set":
		return fmt.Sprintf("(setq lg %d)", f.N)
	case "get":
		return "(h0 lg)"
	case "quote":
		return "'(a . b)"
	case "bar":
		return "'|sym (|"
	case "top":
		return "\"string ( \\\" at top\""
	case "load":
		return fmt.Sprintf("(load %q)", f.F)
	case "iload":
		return fmt.Sprintf("(ignore-errors (load %q))", f.F)
	case "err":
		return "(error \"x\")"
	case "undef":
		return "(no-such-function)"
	case "cerr":
		return "(h3 (cerror \"go on\" \"c\"))"
	case "wide":
		return fmt.Sprintf("(h6\n\n\n\n%d\n\n\n)", f.N)
	case "throw":
		return "(throw 'top 1)"
	case "exit":
		return "(exit)"
	case "rewrite":
		return fmt.Sprintf("(with-open-output-file (o %q) (format o \"(h0 ~d)\" %d))", f.F, f.N)
	case "dyn":
		return "(h4 (dynamic d1))"
	case "setdyn":
		return fmt.Sprintf("(setf (dynamic d1) %d)", f.N)
	case "bq":
		return fmt.Sprintf("`(a ,(h4 %d))", f.N)
	case "char":
		return "(h5 #\\a)"
	case "long":
		return "'(\"" + strings.Repeat("0123456789 ", f.N*13) + "\" b)"
	case "deep":
		return "'" + strings.Repeat("(a ", f.N) + strings.Repeat(")", f.N)
	case "vec":
		return "#(1 2 (3 \"x)\"))"
	case "fn":
		return fmt.Sprintf("(h6 (funcall #'list %d))", f.N)
	case "let":
		return fmt.Sprintf("(let ((lg %d)) (h7 lg)\n  (unwind-protect 1 (h8 lg)))", f.N)
	}
	return "1"
}

type span struct {
	from, to int
	f        *LoadForm // nil for a block comment
}

// render gives the text of the file and where its forms and block comments are.
func (f *LoadFile) render() (string, []span) {
	var b strings.Builder
	var sp []span
	put := func(pre string) {
		at := b.Len()
		b.WriteString(pre)
		if strings.HasPrefix(pre, "#|") {
			sp = append(sp, span{at, at + strings.Index(pre, "|#") + 2, nil})
		}
	}
	for i, x := range f.Forms {
		if i > 0 && (f.Forms[i-1].K == "bar" || f.Forms[i-1].K == "top") {
			put(" ")
		}
		put(x.pre())
		if x.K == "many" {
			for j := 0; j < x.N; j++ {
				at := b.Len()
				b.WriteString("(+ 1 2)")
				sp = append(sp, span{at, b.Len(), &LoadForm{K: "nop"}})
				b.WriteString("\n")
			}
			continue
		}
		at := b.Len()
		b.WriteString(x.text())
		sp = append(sp, span{at, b.Len(), x})
	}
	put((&LoadForm{Pre: f.Tail, N: f.Tail}).pre())
	s := b.String()
	if f.Cut >= 0 && f.Cut < len(s) {
		s = s[:f.Cut]
	}
	return s, sp
}

var loadKinds = []string{"h", "h", "h", "str", "def", "use", "set", "get", "quote", "bar", "top", "load", "load", "iload", "err", "undef", "throw", "exit", "rewrite", "dyn", "setdyn", "bq", "char", "vec", "fn", "let", "cerr", "wide"}

func loadGen(r *Rand, idx int, tier string) *LoadPlan {
	p := &LoadPlan{Map: r.U64() >> 12}
	n := r.Range(1, 4)
	for i := 0; i < n; i++ {
		f := &LoadFile{Name: fmt.Sprintf("l%d", i), Cut: -1, Tail: r.N(len(loadPre))}
		for j, k := 0, r.N(8); j < k; j++ {
			x := &LoadForm{K: loadKinds[r.N(len(loadKinds))], N: r.N(50)}
			if r.P(60) {
				x.Pre = r.N(len(loadPre))
			}
			switch x.K {
			case "load", "iload":
				if i == 0 {
					x.K = "h"
				} else {
					x.F = fmt.Sprintf("l%d", r.N(i))
					if r.P(10) {
						x.F = "missing"
					}
				}
			case "rewrite":
				x.F = fmt.Sprintf("l%d", r.N(n))
			case "err", "undef", "throw", "exit":
				if r.P(50) {
					x.K = "h"
				}
			}
			f.Forms = append(f.Forms, x)
		}
		if r.P(2) { // a large file
			x := &LoadForm{K: r.Str("many", "many", "long", "deep"), N: []int{20, 130, 300, 520, 1100}[r.N(5)]}
			at := r.N(len(f.Forms) + 1)
			f.Forms = append(f.Forms[:at:at], append([]*LoadForm{x}, f.Forms[at:]...)...)
		}
		s, _ := f.render()
		if r.P(30) && len(s) > 0 {
			f.Cut = r.N(len(s))
		}
		p.Files = append(p.Files, f)
		if s, _ := f.render(); r.P(25) {
			ft := simos.Fault{Op: "readat", Path: f.Name, Off: r.N(len(s) + 1), Err: "EIO", Keep: r.P(40)}
			if r.P(25) {
				ft = simos.Fault{Op: "open", Path: f.Name, Nth: r.Range(1, 2), Err: r.Str("EACCES", "EMFILE", "EIO")}
			}
			p.Fs = append(p.Fs, ft)
		}
	}
	for i, k := 0, r.Range(1, 4); i < k; i++ {
		s := &LoadStep{Wrap: r.Str("", "", "ignore", "handler", "note", "note", "dyn", "catch", "fun", "eval"), F: fmt.Sprintf("l%d", r.N(n))}
		if r.P(4) {
			s.F = r.Str("missing", "dir")
		}
		p.Steps = append(p.Steps, s)
	}
	for i, k := 0, r.N(4); i < k; i++ {
		p.Chunks = append(p.Chunks, []int{1, 2, 3, 7, 100, 511, 5000}[r.N(7)])
	}
	if r.P(20) {
		p.Hosts = append(p.Hosts, HFault{At: 1 + r.N(12), Kind: r.Str("err", "panic")})
	}
	if r.P(12) {
		p.Cut = &Cut{Tick: uint64(1 + r.N(6000)), Deadline: r.P(30)}
	}
	return p
}

// ---- reference ----

type loadModel struct {
	p      *LoadPlan
	files  map[string]*LoadFile
	hits   []int
	events []string
	calls  int
	lf     int
	lg     string
	d1     string
	size   int
	catch  bool
	note   bool // a handler is established that continues
	noted  bool // and has been called for the present error
	eof    bool // a failing read at the very end is noticed
	notes  map[string]int
}

func (m *loadModel) host(k int, v string) string {
	m.calls++
	m.events = append(m.events, fmt.Sprintf("h%d:%s", k, v))
	for _, f := range m.p.Hosts {
		if f.At == m.calls {
			return f.Kind
		}
	}
	return ""
}

// load returns "" or how it ends otherwise: error, throw, quit, panic.
func (m *loadModel) load(name string) string {
	m.size++
	if m.size > 300 {
		return "too long"
	}
	f := m.files[name]
	var text string
	var sp []span
	if f != nil {
		text, sp = f.render()
	}
	for i, ft := range m.p.Fs {
		if ft.Path != name {
			continue
		}
		if ft.Op == "open" {
			m.hits[i]++
			if m.hits[i] == ft.Nth {
				m.notes["open failed"]++
				return "error"
			}
		}
	}
	if f == nil {
		m.notes["missing"]++
		return "error"
	}
	for i, ft := range m.p.Fs {
		if ft.Path == name && ft.Op == "readat" && (m.hits[i] == 0 || ft.Keep) && (ft.Off < len(text) || ft.Off == len(text) && m.eof) {
			m.hits[i]++
			m.notes["read failed"]++
			return "error"
		}
	}
	for _, s := range sp {
		if s.from < len(text) && len(text) < s.to {
			if text[s.from:] != "#" {
				m.notes["cut inside"]++
				return "error"
			}
			m.notes["unspecified"]++ // a single # may be a symbol
			return "unspecified"
		}
	}
	if len(text) == f.Cut {
		m.notes["cut between forms"]++
	}
	for _, s := range sp {
		if s.f == nil || s.to > len(text) {
			continue
		}
		if x := m.form(s.f); x != "" {
			return x
		}
	}
	return ""
}

func (m *loadModel) form(f *LoadForm) string {
	how := ""
	h := func(k int, v string) { how = m.host(k, v) }
	n := fmt.Sprint(f.N)
	switch f.K {
	case "h":
		h(f.N%9, n)
	case "str":
		h(1, fmt.Sprintf("%q", "あ)("+n))
	case "def":
		m.lf = f.N + 1
	case "use":
		if m.lf == 0 {
			h(2, "nil")
		} else {
			h(2, fmt.Sprintf("(1 %d)", m.lf-1))
		}
	case "set":
		m.lg = n
	case "get":
		h(0, m.lg)
	case "load":
		return m.load(f.F)
	case "iload":
		note := m.note
		m.note = false
		s := m.load(f.F)
		m.note = note
		if s != "error" && s != "err" {
			return s
		}
		return ""
	case "cerr":
		if !m.note {
			return "error"
		}
		m.notes["continued"]++
		if h(8, "noted"); how == "" {
			h(3, "7")
		} else {
			m.noted = true
		}
	case "wide":
		h(6, n)
	case "err", "undef":
		return "error"
	case "throw":
		if !m.catch { // a control error at this place
			return "error"
		}
		return "throw"
	case "exit":
		return "quit"
	case "rewrite":
		m.files[f.F] = &LoadFile{Name: f.F, Cut: -1, Forms: []*LoadForm{{K: "h0", N: f.N}}}
	case "h0":
		h(0, n)
	case "dyn":
		h(4, m.d1)
	case "setdyn":
		m.d1 = n
	case "bq":
		h(4, n)
	case "char":
		h(5, "#\\61")
	case "fn":
		h(6, "("+n+")")
	case "let":
		h(7, n)
		if how == "" {
			h(8, n)
		}
	}
	if how == "err" {
		return "error"
	}
	return how
}

func (m *loadModel) step(s *LoadStep) string {
	old := m.d1
	if s.Wrap == "dyn" {
		m.d1 = "55"
	}
	m.catch = s.Wrap == "catch"
	m.note, m.noted = s.Wrap == "note", false
	how := m.load(s.F)
	if s.Wrap == "dyn" {
		m.d1 = old
	}
	for k := range m.notes {
		if k == "unspecified" {
			return k
		}
	}
	switch how {
	case "":
		return "value"
	case "error":
		if s.Wrap == "ignore" {
			return "value"
		}
		if s.Wrap == "note" && !m.noted {
			if x := m.host(8, "noted"); x == "panic" {
				return x
			}
		}
		if s.Wrap == "handler" {
			m.calls++
			m.events = append(m.events, "h0:caught")
			for _, f := range m.p.Hosts {
				if f.At == m.calls {
					if f.Kind == "panic" {
						return f.Kind
					}
					return "error"
				}
			}
			return "value"
		}
	case "throw":
		return "value"
	}
	return how
}

func (s *LoadStep) text() string {
	l := fmt.Sprintf("(load %q)", s.F)
	switch s.Wrap {
	case "ignore":
		return "(ignore-errors " + l + ")"
	case "handler":
		return "(block b (with-handler (lambda (c) (h0 'caught) (return-from b 1)) " + l + "))"
	case "note":
		return "(with-handler (lambda (c) (h8 'noted) (continue-condition c 7)) " + l + ")"
	case "dyn":
		return "(dynamic-let ((d1 55)) " + l + ")"
	case "catch":
		return "(catch 'top " + l + ")"
	case "fun":
		return "(labels ((lo (x) (if x " + l + " 1))) (lo t))"
	case "eval":
		return "(eval '" + l + ")"
	}
	return l
}

func loadExec(p *LoadPlan, r *Run) {
	model := func(eof bool) (outs []string, evs [][]string, m *loadModel) {
		m = &loadModel{p: p, files: map[string]*LoadFile{}, hits: make([]int, len(p.Fs)), lg: "0", d1: "100", notes: map[string]int{}, eof: eof}
		for _, f := range p.Files {
			m.files[f.Name] = f
		}
		for _, s := range p.Steps {
			m.events, m.size = nil, 0
			outs = append(outs, m.step(s))
			evs = append(evs, m.events)
		}
		return
	}
	outs, evs, m := model(true)
	outs2, evs2, _ := model(false)
	defs := "(defdynamic d1 100) (defglobal lg 0) (defglobal d1 0)"
	intern(defs)
	simos.Reset(append([]simos.Fault{}, p.Fs...), -1, p.Chunks)
	simos.PutDir("dir")
	for _, f := range p.Files {
		s, _ := f.render()
		simos.Put(f.Name, s)
		r.Log("%s: %q", f.Name, s)
	}
	host = &hostSide{faults: map[int]string{}, fired: r.Faults}
	for _, f := range p.Hosts {
		host.faults[f.At] = f.Kind
	}
	begin(0, p.Map)
	defer r.end()
	w := gmnlisp.New()
	w.SetStdout(&simBuf{})
	if s := evalText(w, context.Background(), defs+" 0"); s != "value 0" {
		r.Fail("definitions", "%s", s)
		return
	}
	ctx, at := p.Cut.install(r)
	sig := ""
	for i, s := range p.Steps {
		host.log = nil
		got := evalText(w, ctx, s.text())
		kind := strings.SplitN(got, " ", 2)[0]
		r.Log("%s => %s %v", s.text(), got, host.log)
		sig += kind + ";"
		if strings.HasPrefix(got, "crash") || got == "no end" {
			r.Fail("crash", "%s: %s", s.text(), got)
			break
		}
		if n := simos.OpenHandles(); n > 0 {
			r.Fail("leak", "%d file(s) open after %s", n, s.text())
		}
		if outs[i] == "unspecified" || outs[i] == "too long" {
			r.Probe(outs[i])
			break
		}
		if at() > 0 {
			if len(host.log) > len(evs[i]) || !sameLog(evs[i][:len(host.log)], host.log) {
				if len(host.log) > len(evs2[i]) || !sameLog(evs2[i][:len(host.log)], host.log) {
					r.Fail("differs", "cancelled at step %d of %d: %s made the host calls %v, which do not begin %v", at(), simrt.Ticks(), s.text(), host.log, evs[i])
				}
			}
			r.Probe("cancelled")
			break
		}
		ok := func(out string, ev []string) bool { return kind == out && sameLog(ev, host.log) }
		if !ok(outs[i], evs[i]) && !ok(outs2[i], evs2[i]) {
			class := "differs"
			if outs[i] == "error" && len(evs[i]) == 0 && len(host.log) > 0 {
				class = "partly-evaluated"
			}
			r.Fail(class, "%s made the host calls %v and ended with %s; expected are %v and %s", s.text(), host.log, got, evs[i], outs[i])
			break
		}
	}
	for k := range m.notes {
		r.Probe(k)
	}
	if len(m.notes) > 0 || at() > 0 {
		r.Key = hashOf(jsonText(p.Files), jsonText(p.Steps), p.Fs, p.Hosts, p.Chunks, p.Cut)
		r.Inter = hashOf(sig, len(host.log), at())
	}
}

func loadExplain(p *LoadPlan) string {
	var b strings.Builder
	for _, f := range p.Files {
		s, _ := f.render()
		fmt.Fprintf(&b, "; file %s: %q\n", f.Name, s)
	}
	for _, s := range p.Steps {
		b.WriteString(s.text() + "\n")
	}
	b.WriteString(fsFaultText(p.Fs))
	for _, f := range p.Hosts {
		fmt.Fprintf(&b, "; host call %d: %s\n", f.At, f.Kind)
	}
	fmt.Fprintf(&b, "; reads deliver %v bytes; context: %s\n", p.Chunks, p.Cut)
	return b.String()
}

func loadShrink(p *LoadPlan) []*LoadPlan {
	var out []*LoadPlan
	add := func(f func(q *LoadPlan)) {
		q := *p
		f(&q)
		out = append(out, &q)
	}
	for i := range p.Steps {
		if len(p.Steps) > 1 {
			add(func(q *LoadPlan) { q.Steps = without(p.Steps, i) })
		}
		if p.Steps[i].Wrap != "" {
			add(func(q *LoadPlan) {
				q.Steps = append([]*LoadStep{}, p.Steps...)
				q.Steps[i] = &LoadStep{F: p.Steps[i].F}
			})
		}
	}
	for i := range p.Fs {
		add(func(q *LoadPlan) { q.Fs = without(p.Fs, i) })
	}
	for i := range p.Hosts {
		add(func(q *LoadPlan) { q.Hosts = without(p.Hosts, i) })
	}
	if p.Chunks != nil {
		add(func(q *LoadPlan) { q.Chunks = nil })
	}
	if p.Cut != nil {
		add(func(q *LoadPlan) { q.Cut = nil })
	}
	for i, f := range p.Files {
		used := false
		for _, s := range p.Steps {
			used = used || s.F == f.Name
		}
		if !used && len(p.Files) > 1 {
			add(func(q *LoadPlan) { q.Files = without(p.Files, i) })
		}
		put := func(x LoadFile) {
			add(func(q *LoadPlan) {
				q.Files = append([]*LoadFile{}, p.Files...)
				q.Files[i] = &x
			})
		}
		for j := range f.Forms {
			x := *f
			x.Forms = without(f.Forms, j)
			if x.Cut >= 0 {
				s, _ := f.render()
				t, _ := x.render()
				x.Cut -= len(s) - len(t)
				if x.Cut < 0 {
					x.Cut = 0
				}
			}
			put(x)
			if x := f.Forms[j]; x.N > 1 && f.Cut < 0 && (x.K == "many" || x.K == "long" || x.K == "deep") {
				y := *f
				y.Forms = append([]*LoadForm{}, f.Forms...)
				z := *x
				z.N /= 2
				y.Forms[j] = &z
				put(y)
			}
			if f.Forms[j].Pre != 0 {
				y := *f
				y.Forms = append([]*LoadForm{}, f.Forms...)
				z := *f.Forms[j]
				z.Pre = 0
				y.Forms[j] = &z
				put(y)
			}
		}
		if f.Cut >= 0 {
			x := *f
			x.Cut = -1
			put(x)
		}
	}
	return out
}

func init() {
	register(Check{ID: "C10", Quick: 40000, Thor: 1500000,
		Rule: "a sequence of loads in which a file cannot be opened, a read fails, a file is cut at some byte, or the context ends; distinct by files, steps and fault placement",
		Real: realAll, Stub: stubAll}, loadGen, loadExec, loadShrink, loadExplain)
}
