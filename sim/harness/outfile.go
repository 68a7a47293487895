package main

import (
	"context"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	gmnlisp "github.com/hymkor/gmnlisp"
	"github.com/hymkor/gmnlisp/zz_verif/simos"
)

// Check C05: what has been acknowledged to a program that writes files is on
// the disk, whatever the file system does.

type OutOp struct {
	K    string   `json:"k"` // one of outOps, or "sess"
	N    int      `json:"n,omitempty"`
	Wrap bool     `json:"w,omitempty"` // in ignore-errors
	Up   bool     `json:"up,omitempty"`
	In   *OutSess `json:"in,omitempty"`
}

type OutSess struct {
	File string   `json:"file"`
	With bool     `json:"with,omitempty"`
	Ops  []*OutOp `json:"ops,omitempty"`
	Exit string   `json:"exit"`
	Late bool     `json:"late,omitempty"`
}

type OutPlan struct {
	Sess []*OutSess    `json:"s"`
	Fs   []simos.Fault `json:"fs,omitempty"`
	Cap  int           `json:"cap"` // bytes of disk space, -1 = enough
	Cut  *Cut          `json:"cut,omitempty"`
	CutS int           `json:"cs,omitempty"` // the evaluation that is cut
	Map  uint64        `json:"map,omitempty"`
}

var outOps = []string{"str", "str", "str", "quote", "int", "hex", "char", "uni", "fint", "fobj", "flt", "nl", "fresh", "list", "bigchars", "loop", "pad"}

func pattern(n int) string {
	const s = "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ.."
	b := make([]byte, n)
	for i := range b {
		b[i] = s[(i*7+n)%len(s)]
	}
	return string(b)
}

// form is the Lisp form of the operation and the text it writes, given whether
// the stream is at the start of a line.
func (o *OutOp) form(s string, lf bool) (string, string) {
	switch o.K {
	case "str":
		return fmt.Sprintf("(format %s \"~a\" %q)", s, pattern(o.N)), pattern(o.N)
	case "quote":
		return fmt.Sprintf("(format %s \"<~s>\" %q)", s, pattern(o.N)), "<\"" + pattern(o.N) + "\">"
	case "int":
		return fmt.Sprintf("(format %s \"~d,\" %d)", s, o.N), fmt.Sprintf("%d,", o.N)
	case "hex":
		return fmt.Sprintf("(format %s \"~8x\" %d)", s, o.N), fmt.Sprintf("%8X", o.N)
	case "char":
		c := 'a' + rune(o.N%26)
		return fmt.Sprintf("(format-char %s #\\%c)", s, c), string(c)
	case "uni":
		return fmt.Sprintf("(format-char %s #\\あ)", s), "あ"
	case "fint":
		return fmt.Sprintf("(format-integer %s %d 10)", s, o.N), fmt.Sprint(o.N)
	case "fobj":
		return fmt.Sprintf("(format-object %s %q nil)", s, pattern(o.N)), pattern(o.N)
	case "flt":
		return fmt.Sprintf("(format-float %s %d.5)", s, o.N), fmt.Sprintf("%d.5", o.N)
	case "nl":
		return fmt.Sprintf("(format %s \"x~%%\")", s), "x\n"
	case "fresh":
		if lf {
			return fmt.Sprintf("(format %s \"~&y\")", s), "y"
		}
		return fmt.Sprintf("(format %s \"~&y\")", s), "\ny"
	case "list":
		return fmt.Sprintf("(format-object %s '(%d %q) t)", s, o.N, pattern(o.N%50)), fmt.Sprintf("(%d \"%s\")", o.N, pattern(o.N%50))
	case "bigchars":
		return fmt.Sprintf("(format %s %q)", s, pattern(o.N)), pattern(o.N)
	case "loop":
		n := o.N%40 + 1
		return fmt.Sprintf("(dotimes (i %d) (format-char %s #\\z))", n, s), strings.Repeat("z", n)
	case "pad":
		return fmt.Sprintf("(format %s \"~%da|\" \"q\")", s, o.N%5000+2), "q" + strings.Repeat(" ", o.N%5000+1) + "|"
	}
	return "nil", ""
}

var outExits = []string{"normal", "normal", "normal", "error", "handled", "throw", "return", "go", "top", "exit", "abort", "panic", "hosterr", "raise", "cont"}

func outSess(r *Rand, depth int, file string) *OutSess {
	s := &OutSess{File: file, With: r.P(70), Exit: outExits[r.N(len(outExits))], Late: r.P(20)}
	for i, n := 0, r.N(6); i < n; i++ {
		o := &OutOp{K: outOps[r.N(len(outOps))], Wrap: r.P(30)}
		switch r.W(5, 3, 3, 1) {
		case 0:
			o.N = r.N(40)
		case 1:
			o.N = r.N(1500)
		case 2:
			o.N = 4090 + r.N(12)
		case 3:
			o.N = 4096 + r.N(6000)
		}
		if depth > 0 {
			o.Up = r.P(25)
		}
		s.Ops = append(s.Ops, o)
	}
	if depth < 2 && r.P(30) {
		k := r.N(len(s.Ops) + 1)
		in := &OutOp{K: "sess", In: outSess(r, depth+1, fmt.Sprintf("%s%d", file, depth+1))}
		s.Ops = append(s.Ops[:k:k], append([]*OutOp{in}, s.Ops[k:]...)...)
	}
	if !s.With {
		switch s.Exit {
		case "throw", "return", "go", "handled", "error", "cont":
			s.Exit = "normal"
		}
	}
	return s
}

func (s *OutSess) size() int {
	n := 0
	for _, o := range s.Ops {
		if o.In != nil {
			n += o.In.size()
		} else {
			_, t := o.form("s", false)
			n += len(t)
		}
	}
	return n
}

func outGen(r *Rand, idx int, tier string) *OutPlan {
	p := &OutPlan{Cap: -1, Map: r.U64() >> 12}
	n := r.Range(1, 3)
	if tier == "thorough" {
		n = r.Range(1, 6)
	}
	total := 0
	for i := 0; i < n; i++ {
		s := outSess(r, 0, r.Str("oa", "oa", "ob"))
		total += s.size()
		p.Sess = append(p.Sess, s)
	}
	switch r.W(6, 3, 2, 2) {
	case 0:
		for i, k := 0, r.Range(1, 2); i < k; i++ {
			f := simos.Fault{Op: r.Str("write", "write", "write", "write", "close", "close", "create"), Nth: 1 + r.N(4), Err: "EIO", Keep: r.P(30)}
			if f.Op == "write" {
				f.Err = r.Str("EIO", "ENOSPC")
				f.Part = r.N(5000)
				if r.P(40) {
					f.Part = r.N(10)
				}
			}
			if f.Op == "close" {
				f.Part = r.N(50)
			}
			if r.P(25) {
				f.Path = r.Str("oa", "ob", "1", "2")
			}
			p.Fs = append(p.Fs, f)
		}
	case 1:
		p.Cap = r.N(total + 1)
	case 2:
		p.Cut = &Cut{Tick: uint64(1 + r.N(4000)), Deadline: r.P(30)}
		p.CutS = r.N(n)
		if r.P(40) {
			p.Cut = &Cut{Call: 1 + r.N(20), Deadline: r.P(30)}
		}
	}
	return p
}

// ---- rendering ----

type outNode struct {
	op   *OutOp
	sess *OutSess
	up   int // node of the session whose stream is written
	at   int // node of the enclosing session, -1 = none
}

type outText struct {
	nodes []*outNode
}

func (t *outText) session(s *OutSess, parent, depth int) string {
	id := len(t.nodes)
	t.nodes = append(t.nodes, &outNode{sess: s, at: parent})
	v := fmt.Sprintf("s%d", depth)
	var b strings.Builder
	fmt.Fprintf(&b, "(setq gs %s) (h0 'o%d)", v, id)
	for _, o := range s.Ops {
		if o.In != nil {
			b.WriteString("\n " + t.session(o.In, id, depth+1))
			continue
		}
		k := len(t.nodes)
		nd := &outNode{op: o, up: id, at: id}
		name := v
		if o.Up && depth > 0 {
			nd.up, name = parent, fmt.Sprintf("s%d", depth-1)
		}
		t.nodes = append(t.nodes, nd)
		form, _ := o.form(name, false)
		if o.Wrap {
			fmt.Fprintf(&b, "\n (h0 'b%d) (h1 (ignore-errors (progn %s 'a%d)))", k, form, k)
		} else {
			fmt.Fprintf(&b, "\n (h0 'b%d) %s (h1 'a%d)", k, form, k)
		}
	}
	b.WriteString("\n ")
	mark := "c"
	pre, post := "", ""
	switch s.Exit {
	case "normal":
		b.WriteString("1")
	case "error":
		b.WriteString("(error \"x\")")
		pre, post, mark = "(ignore-errors ", ")", "e"
	case "handled":
		b.WriteString("(car 1)")
		pre, post, mark = fmt.Sprintf("(block k%d (with-handler (lambda (c) (return-from k%d 1)) ", id, id), "))", "e"
	case "throw":
		fmt.Fprintf(&b, "(throw 'k%d 1)", id)
		pre, post = fmt.Sprintf("(catch 'k%d ", id), ")"
	case "return":
		fmt.Fprintf(&b, "(return-from k%d 1)", id)
		pre, post = fmt.Sprintf("(block k%d ", id), ")"
	case "go":
		fmt.Fprintf(&b, "(go k%d)", id)
		pre, post = "(tagbody ", fmt.Sprintf(" k%d)", id)
	case "cont": // leaves the form by continuing a condition signalled outside of it
		b.WriteString("(continue-condition c 1)")
		pre, post = "(with-handler (lambda (c) ", " (h3 0)) (cerror \"a\" \"b\"))"
	case "top":
		b.WriteString("(throw 'top 1)")
	case "exit":
		b.WriteString("(exit)")
	case "abort":
		b.WriteString("(abort)")
	case "panic":
		b.WriteString("(h2 'panic)")
	case "hosterr":
		b.WriteString("(h2 'err)")
	case "raise":
		b.WriteString("(error \"x\")")
	}
	late := ""
	if s.Late {
		late = fmt.Sprintf("\n(progn (setq gs (elt gq %d)) (if gs (h1 (ignore-errors (progn (format gs \"late\") 'l%d)))))", id, id)
		b2 := b.String()
		b.Reset()
		b.WriteString(strings.Replace(b2, fmt.Sprintf("(h0 'o%d)", id), fmt.Sprintf("(set-elt gs gq %d) (h0 'o%d)", id, id), 1))
	}
	if s.With {
		return fmt.Sprintf("(progn %s(with-open-output-file (%s %q) %s)%s (h0 '%s%d)%s)", pre, v, s.File, b.String(), post, mark, id, late)
	}
	again := ""
	if len(s.Ops)%2 == 1 {
		again = fmt.Sprintf(" (ignore-errors (close %s)) (ignore-errors (close %s))", v, v)
	}
	return fmt.Sprintf("(let ((%s (open-output-file %q))) %s\n (if (ignore-errors (progn (close %s) t)) (h0 'c%d) (h0 'e%d))%s%s)", v, s.File, b.String(), v, id, id, again, late)
}

func (s *OutSess) text() (string, *outText) {
	t := &outText{}
	x := t.session(s, -1, 0)
	return "(progn (setq gq (create-array '(60) nil)) (catch 'top " + x + ") (h0 'top))", t
}

// ---- execution ----

type outInst struct {
	id     int
	file   string
	with   bool
	w      string // acknowledged
	pend   string // the operation in progress or failed
	failed bool   // an operation on it reported an error
	open   bool
	fired  int
}

func fsFired() int {
	n := 0
	for k, v := range simos.Fired() {
		if k != "short-read" {
			n += v
		}
	}
	return n
}

func outExec(p *OutPlan, r *Run) {
	var texts []string
	var ts []*outText
	for _, s := range p.Sess {
		x, t := s.text()
		texts, ts = append(texts, x), append(ts, t)
		intern(x)
	}
	simos.Reset(append([]simos.Fault{}, p.Fs...), p.Cap, nil)
	host = &hostSide{faults: map[int]string{}, fired: r.Faults}
	begin(0, p.Map)
	defer r.end()
	w := gmnlisp.New()
	bg := context.Background()
	if s := evalText(w, bg, "(defglobal gs nil) (defglobal gq (create-array '(60) nil)) 0"); s != "value 0" {
		r.Fail("definitions", "%s", s)
		return
	}
	var insts []*outInst
	var t *outText
	last := -1
	find := func(id int) *outInst {
		for i := len(insts) - 1; i >= 0; i-- {
			if insts[i].id == id {
				return insts[i]
			}
		}
		return &outInst{}
	}
	content := func(i *outInst) string { s, _ := simos.Get(i.file); return s }
	prefix := func(i *outInst, when string) {
		c := content(i)
		if !strings.HasPrefix(i.w+i.pend, c) {
			r.Fail("wrong-bytes", "%s: %s holds %s, which is not the beginning of what was written: %s", when, i.file, brief(c), brief(i.w+i.pend))
		}
	}
	// full is demanded when success was reported
	full := func(i *outInst, when string) {
		if i.failed {
			prefix(i, when)
			return
		}
		if c := content(i); c != i.w {
			r.Fail("lost-output", "%s: %s holds %s instead of %s", when, i.file, brief(c), brief(i.w))
		}
	}
	// partly is demanded when an error was reported
	partly := func(i *outInst, when string) {
		prefix(i, when)
		if fsFired() == i.fired && !strings.HasPrefix(content(i), i.w) {
			r.Fail("lost-output", "%s, and no file operation failed: %s holds %s instead of %s", when, i.file, brief(content(i)), brief(i.w))
		}
	}
	opFailed := func() {
		if last < 0 {
			return
		}
		i := find(t.nodes[last].up)
		i.failed = true
		r.Probe("write reported an error")
		if fsFired() == i.fired && p.Cut == nil {
			r.Fail("false-error", "nothing failed, but writing to %s was reported as an error", i.file)
		}
		last = -1
	}
	host.hook = func(call, k int, v gmnlisp.Node) {
		m := valueText(v)
		if k == 2 {
			host.faults[call] = m
			return
		}
		for _, i := range insts {
			if i.open {
				prefix(i, "while it is open")
			}
		}
		if m == "nil" {
			opFailed()
			return
		}
		if last >= 0 && m != fmt.Sprint("a", last) {
			opFailed()
		}
		if m == "top" {
			for _, i := range insts {
				if i.open && i.with {
					full(i, "after all its forms were left by throw")
					i.open = false
				}
			}
			return
		}
		id, err := strconv.Atoi(m[1:])
		if err != nil || id >= len(t.nodes) {
			return
		}
		nd := t.nodes[id]
		switch m[0] {
		case 'o':
			insts = append(insts, &outInst{id: id, file: nd.sess.File, with: nd.sess.With, open: true, fired: fsFired()})
		case 'b':
			i := find(nd.up)
			s := i.w
			if i.failed {
				s += i.pend
			}
			_, x := nd.op.form("s", s == "" || strings.HasSuffix(s, "\n"))
			if i.failed {
				i.pend += x
			} else {
				i.pend = x
			}
			last = id
		case 'a':
			i := find(nd.up)
			if !i.failed {
				i.w, i.pend = i.w+i.pend, ""
			}
			last = -1
		case 'c':
			i := find(id)
			full(i, "after closing it was reported as successful")
			i.open = false
			r.Probe("closed")
		case 'e':
			in := false
			for _, i := range insts { // also those that were left by the same error
				if i == find(id) {
					in = true
				}
				if in && i.open && (i.with || i.id == id) {
					partly(i, "after an error was reported")
					i.open = false
				}
			}
			r.Probe("left by an error")
		case 'l':
			r.Fail("lost-output", "writing to the closed stream of %s was reported as successful", nd.sess.File)
		}
	}
	sig := ""
	for k, s := range p.Sess {
		t, last, insts = ts[k], -1, nil
		host.calls, host.faults = 0, map[int]string{}
		ctx, at := context.Context(bg), func() uint64 { return 0 }
		if p.Cut != nil && p.CutS == k {
			old := host.hook
			ctx, at = p.Cut.install(r)
			defer func() { host.hook = old }()
		}
		before := fsFired()
		got := evalText(w, ctx, texts[k])
		r.Log("evaluation %d: %s", k, got)
		sig += got + ";"
		if strings.HasPrefix(got, "crash") || got == "no end" {
			r.Fail("crash", "%s", got)
			break
		}
		r.Probe("outcome " + strings.SplitN(got, ":", 2)[0])
		for _, i := range insts {
			switch {
			case !i.open:
				// judged when it was closed
				if c := content(i); !i.failed && c != i.w && fsFired() == i.fired {
					r.Fail("wrong-bytes", "%s holds %s instead of %s after it was closed", i.file, brief(c), brief(i.w))
				}
			case !i.with:
				prefix(i, "at the end")
			case got == "quit":
				full(i, "after (exit)")
			default:
				partly(i, "after an evaluation that ended with "+got)
			}
		}
		if fsFired() == before && at() == 0 {
			want := map[string]string{"exit": "quit", "abort": "abort", "panic": "panic", "hosterr": "error host", "raise": "error text:x"}[endOf(s)]
			if want == "" {
				want = "value top"
			}
			if got != want {
				r.Fail("false-error", "nothing failed, but the evaluation ended with %s instead of %s", got, want)
			}
		}
		if fsFired() != before {
			r.Probe("evaluations in which a file operation failed")
		}
	}
	for _, l := range simos.Log() {
		r.Log("fs %s %s %d %d %s", l.Op, l.Path, l.Handle, l.N, l.Err)
	}
	if fsFired() > 0 || p.Cut != nil || strings.Trim(sig, ";") != "value top" {
		r.Key = hashOf(texts, p.Fs, p.Cap, p.Cut)
		r.Inter = hashOf(sig, fsFired())
	}
}

// endOf is how the evaluation of a session ends if nothing fails: the exits of
// inner sessions come first.
func endOf(s *OutSess) string {
	for _, o := range s.Ops {
		if o.In != nil {
			switch e := endOf(o.In); e {
			case "top", "exit", "abort", "panic":
				return e
			case "hosterr", "raise":
				if s.Exit == "error" || s.Exit == "handled" {
					return "normal"
				}
				return e
			}
		}
	}
	switch s.Exit {
	case "top", "exit", "abort", "panic", "hosterr", "raise":
		return s.Exit
	}
	return "normal"
}

func brief(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%q...%q (%d bytes)", s[:25], s[len(s)-20:], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func outExplain(p *OutPlan) string {
	var b strings.Builder
	for i, s := range p.Sess {
		x, _ := s.text()
		fmt.Fprintf(&b, "; evaluation %d\n%s\n", i, x)
	}
	b.WriteString(fsFaultText(p.Fs))
	if p.Cap >= 0 {
		fmt.Fprintf(&b, "; the disk has room for %d bytes\n", p.Cap)
	}
	if p.Cut != nil {
		fmt.Fprintf(&b, "; evaluation %d: context %s\n", p.CutS, p.Cut)
	}
	return longText.ReplaceAllStringFunc(b.String(), func(x string) string { return fmt.Sprintf("[%d characters]", len(x)) })
}

var longText = regexp.MustCompile(`[a-zA-Z0-9.]{50,}`)

func (s *OutSess) smaller() []*OutSess {
	var out []*OutSess
	for i, o := range s.Ops {
		q := *s
		q.Ops = without(s.Ops, i)
		out = append(out, &q)
		put := func(x *OutOp) {
			q := *s
			q.Ops = append([]*OutOp{}, s.Ops...)
			q.Ops[i] = x
			out = append(out, &q)
		}
		if o.In != nil {
			for _, x := range o.In.smaller() {
				put(&OutOp{K: "sess", In: x})
			}
			continue
		}
		if o.N > 1 {
			x := *o
			x.N = o.N / 2
			put(&x)
			y := *o
			y.N--
			put(&y)
		}
		if o.Wrap {
			x := *o
			x.Wrap = false
			put(&x)
		}
	}
	if s.Exit != "normal" {
		q := *s
		q.Exit = "normal"
		out = append(out, &q)
	}
	if s.Late {
		q := *s
		q.Late = false
		out = append(out, &q)
	}
	return out
}

func outShrink(p *OutPlan) []*OutPlan {
	var out []*OutPlan
	for i := range p.Sess {
		if len(p.Sess) > 1 {
			q := *p
			q.Sess = without(p.Sess, i)
			if q.CutS > i {
				q.CutS--
			}
			out = append(out, &q)
		}
		for _, x := range p.Sess[i].smaller() {
			q := *p
			q.Sess = append([]*OutSess{}, p.Sess...)
			q.Sess[i] = x
			out = append(out, &q)
		}
	}
	for i := range p.Fs {
		q := *p
		q.Fs = without(p.Fs, i)
		out = append(out, &q)
		if p.Fs[i].Part > 0 {
			q := *p
			q.Fs = append([]simos.Fault{}, p.Fs...)
			q.Fs[i].Part /= 2
			out = append(out, &q)
		}
	}
	if p.Cap > 0 {
		for _, c := range []int{-1, 0, p.Cap / 2} {
			q := *p
			q.Cap = c
			out = append(out, &q)
		}
	}
	if p.Cut != nil {
		q := *p
		q.Cut = nil
		out = append(out, &q)
	}
	return out
}

func init() {
	register(Check{ID: "C05", Quick: 24000, Thor: 700000,
		Rule: "a sequence of evaluations that write files while file operations fail, the disk fills up, the context ends, or forms are left abnormally; distinct by program text and fault placement",
		Real: realAll, Stub: stubAll}, outGen, outExec, outShrink, outExplain)
}
