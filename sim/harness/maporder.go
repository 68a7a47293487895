package main

import (
	"context"
	"fmt"
	"strings"

	gmnlisp "github.com/hymkor/gmnlisp"
	"github.com/hymkor/gmnlisp/zz_verif/simos"
	"github.com/hymkor/gmnlisp/zz_verif/simrt"
)

// Check C14: the order of Go's maps. The same program is executed several
// times; in every execution the simulator decides the order of every iteration
// over a map from another seed. Everything that can be observed must be equal.

type MapPlan struct {
	Forms  []string      `json:"forms"`
	Faults []HFault      `json:"f,omitempty"`
	Cuts   map[int]int   `json:"cuts,omitempty"` // the evaluation of a form ends at this check of its context
	Fs     []simos.Fault `json:"fs,omitempty"`
	Fail   int           `json:"fail,omitempty"` // the standard output fails after so many bytes
	Maps   []uint64      `json:"maps"`
}

// mapGenForm makes one form; the state of r decides which.
func mapForm(r *Rand, vars *[]string, about int) string {
	keys := []string{"1", "2", "-3", "12", "1.5", "2.25", "\"a\"", "\"b c\"", "\"\"", "'k1", "'k2", "'zeta", "#\\a", "#\\z", ":kw", ":alpha", "100000", "\"A\"", "'K1", "'ZETA", ":KW", "\"B C\"", "\"B c\"", "3.0", "3"}
	val := func() string {
		return r.Str("1", "'v", "\"s\"", "(h0 2)", "(list 1 'a)", "1.5", "#\\x", "nil", "(make-hash-table)")
	}
	slots := []string{"a", "b", "c", "dd", "e", "zz", "Aa", "A", "DD", "aa"}
	cls := func(i int) string { return fmt.Sprintf("<mc%d>", i) }
	classes := 4
	if about == 1 {
		classes = 2
	}
	hash := func(n int) string {
		var b strings.Builder
		b.WriteString("(let ((h (make-hash-table)))")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, " (setf (gethash %s h) %s)", r.Str(keys...), val())
		}
		return b.String()
	}
	obj := func() string {
		var b strings.Builder
		fmt.Fprintf(&b, "(create (class %s)", cls(r.N(classes)))
		for i := r.N(5); i > 0; i-- {
			fmt.Fprintf(&b, " '%s %s", r.Str("ia", "ib", "ic", "shared", "none"), val())
		}
		return b.String() + ")"
	}
	show := func(x string) string {
		switch r.N(6) {
		case 0:
			return "(format (standard-output) \"~a|~s~%\" " + x + " " + x + ")"
		case 1:
			return "(let ((s (create-string-output-stream))) (format s \"~s\" " + x + ") (get-output-stream-string s))"
		case 2:
			return "(format-object (standard-output) " + x + " " + r.Str("t", "nil") + ")"
		case 3:
			return "(h0 " + x + ")"
		case 4:
			return "(error \"~a ~s\" " + x + " " + x + ")"
		}
		return x
	}
	use := func(o string) string { // accessors
		n := r.Str(append(slots, "x", "x", "x", "y", "y", "y")...)
		switch r.N(6) {
		case 0, 1:
			return fmt.Sprintf("(ac-%s %s)", n, o)
		case 2:
			return fmt.Sprintf("(re-%s %s)", n, o)
		case 3:
			return fmt.Sprintf("(bo-%s %s)", n, o)
		case 4:
			return fmt.Sprintf("(wr-%s %s %s)", n, val(), o)
		}
		return fmt.Sprintf("(setf (ac-%s %s) %s)", n, o, val())
	}
	kind := r.W(6, 3, 8, 8, 3, 4, 4, 3, 4, 3, 3, 6, 9)
	switch about { // programs about one matter
	case 1:
		kind = []int{2, 2, 2, 3, 12, 12, 12, 12}[r.N(8)]
	case 2:
		kind = []int{0, 1, 5, 6}[r.N(4)]
	}
	switch kind {
	case 0:
		return hash(r.Range(2, 12)) + " " + show("h") + ")"
	case 1:
		return hash(r.Range(2, 8)) + " (remhash " + r.Str(keys...) + " h) (list (hash-table-count h) " + show("h") + " (gethash " + r.Str(keys...) + " h) (progn (clrhash h) h)))"
	case 2: // a class with many slots
		var b strings.Builder
		n := r.N(classes)
		fmt.Fprintf(&b, "(defclass %s (", cls(n))
		for i := 0; i < n; i++ {
			if r.P(50) {
				fmt.Fprintf(&b, "%s ", cls(i))
			}
		}
		b.WriteString(") (")
		seen := map[string]bool{}
		for i := r.Range(1, 6); i > 0; i-- {
			s := r.Str(slots...)
			if seen[s] {
				continue
			}
			seen[s] = true
			fmt.Fprintf(&b, "(%s", s)
			if r.P(80) {
				fmt.Fprintf(&b, " :initform %s", r.Str("(h0 '"+s+")", "(h1 '"+s+")", "'init-"+s, "\"i "+s+"\"", "(list '"+s+")", "(list counter '"+s+")", "(h0 (list '"+s+"))", "(setq counter (+ counter 1))", "(progn (h0 counter) counter)", "(error \"initform "+s+"\")", "(car '"+s+")"))
			}
			if r.P(60) {
				fmt.Fprintf(&b, " :initarg %s", r.Str("ia", "ib", "ic", "shared", "shared"))
			}
			for _, k := range []string{"accessor", "reader", "writer", "boundp"} {
				if r.P(25) { // often the same name for several slots and classes
					fmt.Fprintf(&b, " :%s %s-%s", k, k[:2], r.Str(s, "x", "x", "y"))
				}
			}
			b.WriteString(") ")
		}
		return b.String() + "))"
	case 12:
		var b strings.Builder
		fmt.Fprintf(&b, "(let ((o %s)) (list", obj())
		for i := r.Range(1, 4); i > 0; i-- {
			b.WriteString(" " + r.Str("(ignore-errors "+use("o")+")", use("o"), show("o")))
		}
		return b.String() + "))"
	case 3:
		return show(obj())
	case 4:
		return "(let ((o " + obj() + ") (p " + obj() + ")) (list (equal o p) (eql o p) o p))"
	case 5:
		return "(progn (setq counter (h0 (+ counter 1))) (gmn:dump-session))"
	case 6:
		x := r.Str("alpha", "beta", "gamma", "zz", "m1", "aa", "Q")
		*vars = append(*vars, x)
		return fmt.Sprintf("(defglobal mv-%s %s)", x, r.Str("1", "\"x\"", "(h0 'q)", hash(3)+" h)", obj()))
	case 7:
		var b strings.Builder
		b.WriteString("(dynamic-let (")
		for i := r.Range(2, 6); i > 0; i-- {
			fmt.Fprintf(&b, "(%s (h0 %d))", r.Str("d1", "d2", "d3", "d4", "d5"), r.N(90))
		}
		return b.String() + ") (h1 (list (dynamic d1) (dynamic d2))) " + r.Str("(dynamic d3)", "(error \"x\")", "(dynamic d4)", "1") + ")"
	case 8:
		var b strings.Builder
		w := r.Str("flet", "labels")
		fmt.Fprintf(&b, "(%s (", w)
		for i := r.Range(2, 5); i > 0; i-- {
			fmt.Fprintf(&b, "(%s (x) (h0 (list '%s x)))", r.Str("fa", "fb", "fc", "fd"), r.Str("p", "q", "r"))
		}
		return b.String() + ") (fa 1) (fb 2) (fc 3))"
	case 9:
		return "(let ((a 1) (b 2) (c 3)) (psetq " + r.Str("a", "b", "nope1") + " (h0 (+ a 1)) " + r.Str("b", "c", "nope2") + " (h1 b) " + r.Str("c", "a", "nope3") + " (h0 c)) (list a b c))"
	case 10:
		return "(let ((n 0)) (tagbody ta (h0 n) tb (setq n (+ n 1)) tc (if (< n 3) (go " + r.Str("ta", "tb", "tc", "td") + ")) td (h1 n)) (case n ((1 2) 'low) ((3) 'three) (t (h0 'other))))"
	}
	for {
		it := &WItem{T: r.N(len(worldForms)), S: r.N(6)}
		if r.P(30) {
			it.In = []int{r.N(len(worldOpen))}
		}
		s := it.text(0, false)
		if !strings.Contains(s, "(go t1)") && !strings.Contains(s, "(go t2)") {
			return s
		}
	}
}

func mapGen(r *Rand, idx int, tier string) *MapPlan {
	p := &MapPlan{Cuts: map[int]int{}}
	n := r.Range(2, 9)
	if tier == "thorough" {
		n = r.Range(3, 25)
	}
	vars := []string{}
	about := r.W(5, 4, 1)
	for i := 0; i < n; i++ {
		p.Forms = append(p.Forms, mapForm(r, &vars, about))
		if r.P(10) {
			p.Cuts[i] = 1 + r.N(40)
		}
	}
	for i := r.W(5, 3, 2); i > 0; i-- {
		p.Faults = append(p.Faults, HFault{At: 1 + r.N(15), Kind: r.Str("err", "dom", "panic")})
	}
	if r.P(25) {
		p.Fail = 1 + r.N(3000)
	}
	if r.P(15) {
		p.Fs = append(p.Fs, simos.Fault{Op: r.Str("open", "create", "read", "write", "close"), Nth: 1 + r.N(3), Err: "EIO"})
	}
	p.Maps = []uint64{0}
	for i := 0; i < 3; i++ {
		p.Maps = append(p.Maps, r.U64()>>12|1)
	}
	return p
}

// failAfter is an output that fails after n bytes.
type failAfter struct {
	b []byte
	n int
}

func (f *failAfter) Write(b []byte) (int, error) {
	if f.n > 0 && len(f.b)+len(b) > f.n {
		k := f.n - len(f.b)
		f.b = append(f.b, b[:k]...)
		return k, simos.Errno("EIO")
	}
	f.b = append(f.b, b...)
	return len(b), nil
}

func mapExec(p *MapPlan, r *Run) {
	intern(strings.Join(p.Forms, "\n"))
	names := func(in string) string { // symbols generated by a program differ from time to time
		return genName.ReplaceAllString(in, "-gensym-")
	}
	one := func(seed uint64, count bool) (log []string, ranges uint64) {
		simos.Reset(append([]simos.Fault{}, p.Fs...), -1, nil)
		simos.Put("in.txt", "l1\nm\nn\n")
		simos.Put("defs.lsp", defsFile)
		simos.SetStdin("first (a b) c\n\"d\" e f g h i\nj k l\n")
		host = &hostSide{faults: map[int]string{}}
		if count {
			host.fired = r.Faults
		}
		simrt.Start(simrt.Config{Now: 1_700_000_000_000_000_000, Still: true, Map: seed})
		before := simrt.MapRanges
		defer func() {
			r.Steps += simrt.Ticks()
			if count {
				r.end()
			} else {
				simrt.End()
			}
			ranges = simrt.MapRanges - before
		}()
		w := gmnlisp.New()
		out := &failAfter{n: p.Fail}
		w.SetStdout(out)
		w.SetErrout(out)
		bg := context.Background()
		evalText(w, bg, preamble+" (defdynamic d3 3) (defglobal counter 0) (defglobal k0 0) (defgeneric g1 (x)) (defgeneric g2 (x)) (defun f1 (x) x) (defmacro m1 (x) x)")
		for i := 0; i < 4; i++ {
			evalText(w, bg, fmt.Sprintf("(defclass <mc%d> () ((a :initform (h0 'a) :initarg ia :accessor ac-x :reader re-y) (b :initform (h0 'b) :initarg shared :reader re-x :writer wr-x :boundp bo-x) (zz :initarg shared :accessor ac-y :writer wr-y)))", i))
		}
		host.calls, host.log = 0, nil
		for _, f := range p.Faults {
			host.faults[f.At] = f.Kind
		}
		for i, f := range p.Forms {
			ctx, cancel := context.WithCancel(bg)
			host.cancel = cancel
			host.faults[host.calls+150] = "cancel"
			if n := p.Cuts[i]; n > 0 {
				ctx = &countCtx{ctx, &n}
			}
			v, err := gmnlisp.Node(nil), error(nil)
			pv, st := guard(func() { v, err = w.Interpret(ctx, f) })
			cancel()
			text := ""
			switch {
			case pv != nil:
				text = "panic " + panicText(pv)
				if _, ok := pv.(simrt.Stop); ok {
					log = append(log, "no end")
					return
				}
				if s, ok := pv.(string); !ok || s != hostPanic {
					text += frames(st)
				}
			case err != nil:
				text = "error " + err.Error()
			default:
				text = fmt.Sprintf("%v / %#v", v, v)
			}
			log = append(log, fmt.Sprintf("%s => %s [%s]", f, names(text), names(strings.Join(host.log, " "))))
			host.log = nil
			if count {
				r.Evals++
				if p.Cuts[i] > 0 && ctx.Err() != nil {
					r.Fault("cancel")
				}
			}
		}
		var enum []string
		w.Let(gmnlisp.Variables{gmnlisp.NewSymbol("zz"): gmnlisp.Integer(1), gmnlisp.NewSymbol("aa"): gmnlisp.Integer(2), gmnlisp.NewSymbol("mm"): gmnlisp.Integer(3)}).Range(func(s gmnlisp.Symbol, v gmnlisp.Node) bool {
			enum = append(enum, s.String())
			return true
		})
		log = append(log, "variables "+strings.Join(enum, " "))
		log = append(log, "output "+names(fmt.Sprintf("%q", out.b)))
		for _, n := range simos.Names() {
			d, _ := simos.Get(n)
			log = append(log, fmt.Sprintf("file %s %q", n, d))
		}
		if p.Fail > 0 && len(out.b) == p.Fail && count {
			r.Fault("output-fails")
		}
		return
	}
	one(0, false) // global variables are there in the following executions
	var first []string
	for i, m := range p.Maps {
		log, ranges := one(m, i == 0)
		for _, l := range log {
			if l == "no end" {
				r.Probe("discarded: no end")
				return
			}
		}
		if i == 0 {
			first = log
			for _, l := range log {
				r.Log("%s", l)
			}
			continue
		}
		if ranges > 0 {
			r.Probe("map-orders-chosen")
			r.Key = hashOf(jsonText(p.Forms), jsonText(p.Faults), jsonText(p.Cuts), p.Fail)
		}
		for j := 0; j < len(log) && j < len(first); j++ {
			if log[j] != first[j] {
				k := 0
				for k < len(log[j]) && k < len(first[j]) && log[j][k] == first[j][k] {
					k++
				}
				if k > 30 {
					k -= 30
				} else {
					k = 0
				}
				what := log[j][:min2(k, 60)]
				r.Fail("order", "with another order of Go's maps: %s...%s instead of ...%s", what, clip(log[j][k:], 150), clip(first[j][k:], 150))
				break
			}
		}
	}
	r.Inter = hashOf(fmt.Sprint(p.Maps))
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func mapShrink(p *MapPlan) []*MapPlan {
	var out []*MapPlan
	for i := range p.Forms {
		q := *p
		q.Forms = append(append([]string{}, p.Forms[:i]...), p.Forms[i+1:]...)
		q.Cuts = map[int]int{}
		for k, v := range p.Cuts {
			if k < i {
				q.Cuts[k] = v
			} else if k > i {
				q.Cuts[k-1] = v
			}
		}
		out = append(out, &q)
	}
	if len(p.Cuts) > 0 {
		q := *p
		q.Cuts = map[int]int{}
		out = append(out, &q)
	}
	if p.Fail > 0 {
		q := *p
		q.Fail = 0
		out = append(out, &q)
	}
	for i := range p.Faults {
		q := *p
		q.Faults = append(append([]HFault{}, p.Faults[:i]...), p.Faults[i+1:]...)
		out = append(out, &q)
	}
	if p.Fs != nil {
		q := *p
		q.Fs = nil
		out = append(out, &q)
	}
	for i := range p.Maps {
		if len(p.Maps) > 2 && i > 0 {
			q := *p
			q.Maps = append(append([]uint64{}, p.Maps[:i]...), p.Maps[i+1:]...)
			out = append(out, &q)
		}
	}
	return out
}

func mapExplain(p *MapPlan) string {
	var b strings.Builder
	for i, f := range p.Forms {
		b.WriteString(f)
		if n := p.Cuts[i]; n > 0 {
			fmt.Fprintf(&b, " ; cancelled at check %d of its context", n)
		}
		b.WriteString("\n")
	}
	for _, f := range p.Faults {
		fmt.Fprintf(&b, "; host call %d: %s\n", f.At, f.Kind)
	}
	if p.Fail > 0 {
		fmt.Fprintf(&b, "; the output fails after %d bytes\n", p.Fail)
	}
	fmt.Fprintf(&b, "; map orders %v\n", p.Maps)
	return b.String()
}

func init() {
	register(Check{ID: "C14", Quick: 6000, Thor: 400000, Fresh: true,
		Rule: "a program in whose execution the simulator chose the order of at least one iteration over a map with two or more keys; distinct by program and faults",
		Real: realAll, Stub: stubAll}, mapGen, mapExec, mapShrink, mapExplain)
}
