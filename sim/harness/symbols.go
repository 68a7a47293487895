package main

import (
	"context"
	"fmt"
	"strings"

	gmnlisp "github.com/hymkor/gmnlisp"
	"github.com/hymkor/gmnlisp/zz_verif/simos"
	"github.com/hymkor/gmnlisp/zz_verif/simrt"
)

// Check C13: interning, printing and generating symbols at the same time. The
// history of all operations must be one that a table from names to symbols
// could have produced.

type SymOp struct {
	K   string `json:"k"` // sym kw read kwread convert gensym guess show text name new
	N   int    `json:"n,omitempty"`
	Cut int    `json:"cut,omitempty"` // the evaluation is cancelled after so many steps
}

type SymTask struct {
	Ops  []*SymOp `json:"ops"`
	Late bool     `json:"late,omitempty"`
}

type SymPlan struct {
	Tasks []*SymTask  `json:"tasks"`
	Segs  []simrt.Seg `json:"segs"`
}

var symNames = []string{"alpha", "beta", "gamma-1", "delta", "car", "list", "x", "Alpha", "a-very-long-name-that-is-used-nowhere-else-0123456789", "-gensym-", "-gensym-x-", "-gensym-0-", "nil?", "<new-class>", "gensym"}
var symOdd = []string{"", "two words", "\u00e9t\u00e9", "\x00", "|", "(", "-gensym-1-\n", "\xff"}

func symName(i int) string {
	if i < 100 {
		return symNames[i%len(symNames)]
	}
	switch {
	case i >= 300: // a name beginning like the other
		return symNames[i%len(symNames)] + "-2"
	case i >= 200: // the other case
		n := symNames[i%len(symNames)]
		if u := strings.ToUpper(n); i%2 == 0 || len(n) < 2 {
			return u
		}
		return strings.ToUpper(n[:1]) + n[1:len(n)-1] + strings.ToUpper(n[len(n)-1:])
	}
	return symOdd[i%len(symOdd)]
}

func unreadable(i int) bool { return i >= 100 && i < 200 }

// box hands symbols from task to task behind the back of the race detector:
// a symbol is a number that programs may have got in any way.
type box[T comparable] struct {
	v [512]T
	n int
}

//go:norace
func (b *box[T]) put(x T) {
	if b.n < len(b.v) {
		b.v[b.n] = x
		b.n++
	}
}

//go:norace
func (b *box[T]) get(i int) (x T, ok bool) {
	if b.n == 0 {
		return x, false
	}
	return b.v[i%b.n], true
}

func newBox[T comparable](T) *box[T] { return &box[T]{} }

type symRec[S, K comparable] struct {
	op       string
	name     string // for sym and kw: the name given; for show: the text
	sym      S
	kw       K
	beg, end int
}

var symClock int

//go:norace
func symTick() int { symClock++; return symClock }

func symGen(r *Rand, idx int, tier string) *SymPlan {
	p := &SymPlan{}
	n := r.Range(2, 4)
	ops := 8
	if tier == "thorough" {
		n, ops = r.Range(2, 6), 20
	}
	var pool []int
	for i := r.Range(1, 4); i > 0; i-- {
		k := r.N(len(symNames))
		if r.P(15) {
			k = 100 + r.N(len(symOdd))
		}
		pool = append(pool, k)
		if k < 100 && r.P(30) {
			pool = append(pool, 210+k, 225+k)
		}
		if k < 100 && r.P(10) {
			pool = append(pool, 300+k)
		}
	}
	w := []int{r.N(6) + 1, r.N(3), r.N(3), r.N(2), r.N(2), r.N(6) + 1, r.N(5), r.N(4) + 1, r.N(2), r.N(2)}
	kinds := strings.Fields("sym kw read kwread convert gensym guess show text name")
	for i := 0; i < n; i++ {
		t := &SymTask{Late: r.P(30)}
		for j := r.Range(1, ops); j > 0; j-- {
			o := &SymOp{K: kinds[r.W(w...)], N: pool[r.N(len(pool))]}
			if o.K == "guess" || o.K == "show" || o.K == "text" {
				o.N = r.N(20)
			}
			if r.P(10) {
				o.Cut = 1 + r.N(200)
			}
			t.Ops = append(t.Ops, o)
		}
		p.Tasks = append(p.Tasks, t)
	}
	k := r.Range(1, 6)
	for i := r.Range(5, 200); i > 0; i-- {
		l := 1 + r.N(1<<uint(k))
		if r.P(5) {
			l += r.N(20000)
		}
		p.Segs = append(p.Segs, simrt.Seg{Task: r.N(n), Len: l})
	}
	return p
}

func symExec(p *SymPlan, r *Run) {
	simos.Reset(nil, -1, nil)
	simrt.Start(simrt.Config{Now: 1_700_000_000_000_000_000, Still: true})
	defer r.end()
	symRun(p, r, gmnlisp.NewSymbol("car"), gmnlisp.NewKeyword("first"))
}

func symRun[S interface {
	comparable
	gmnlisp.Symbol
}, K interface {
	comparable
	gmnlisp.Node
}](p *SymPlan, r *Run, s0 S, k0 K) {
	symClock = 0
	syms, gens := newBox(s0), newBox(s0)
	recs := make([][]symRec[S, K], len(p.Tasks))
	cuts := make([]int, len(p.Tasks))
	bad := make([]string, len(p.Tasks))
	var fns []func()
	for i, t := range p.Tasks {
		i, t := i, t
		var w *gmnlisp.World
		if !t.Late {
			w = gmnlisp.New()
			evalText(w, context.Background(), "0")
		}
		eval := func(code string, cut int) gmnlisp.Node {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			if cut > 0 {
				n := cut
				ctx = &countCtx{ctx, &n}
			}
			v, err := w.Interpret(ctx, code)
			if err != nil {
				if cut > 0 && ctx.Err() != nil {
					cuts[i]++
				} else {
					bad[i] = code + ": " + err.Error()
				}
				return nil
			}
			return v
		}
		fns = append(fns, func() {
			if w == nil {
				w = gmnlisp.New()
			}
			for _, o := range t.Ops {
				rec := symRec[S, K]{op: o.K, name: symName(o.N), beg: symTick()}
				if unreadable(o.N) && (strings.HasSuffix(o.K, "read") || o.K == "convert" || o.K == "name") {
					rec.op = "sym"
				}
				ok := false
				switch rec.op {
				case "sym":
					rec.sym, ok = any(gmnlisp.NewSymbol(rec.name)).(S)
				case "kw":
					rec.kw, ok = any(gmnlisp.NewKeyword(rec.name)).(K)
				case "read":
					rec.sym, ok = eval("'"+rec.name, o.Cut).(S)
				case "kwread":
					rec.name = strings.ToLower(rec.name)
					rec.kw, ok = eval("(car '(:"+rec.name+"))", o.Cut).(K)
					rec.name = ":" + rec.name
				case "convert":
					rec.sym, ok = eval("(convert \""+rec.name+"\" <symbol>)", o.Cut).(S)
				case "gensym":
					rec.sym, ok = eval("(gensym)", o.Cut).(S)
					rec.name = ""
				case "guess": // a name spelled like one that was generated
					g, have := gens.get(o.N)
					if !have {
						continue
					}
					if o.N >= 12 { // and several that follow it
						for k := 1; k < o.N-10; k++ {
							gmnlisp.NewSymbol(nextName(g.String(), o.N-10+k))
						}
						rec.name = nextName(g.String(), o.N-10)
					} else {
						rec.name = nextName(g.String(), o.N%4)
					}
					rec.sym, ok = any(gmnlisp.NewSymbol(rec.name)).(S)
				case "show", "text":
					rec.sym, ok = syms.get(o.N)
					if ok {
						if rec.op == "show" {
							rec.name = rec.sym.String()
						} else {
							rec.name = fmt.Sprintf("%#v", rec.sym)
						}
					}
				case "name":
					v := eval("(convert '"+rec.name+" <string>)", o.Cut)
					if s, isS := v.(gmnlisp.String); isS {
						if s.String() != rec.name {
							bad[i] = fmt.Sprintf("(convert '%s <string>) is %q", rec.name, s.String())
						}
					}
					continue
				}
				rec.end = symTick()
				if ok {
					recs[i] = append(recs[i], rec)
					var zero K
					if rec.kw == zero && rec.op != "kw" && rec.op != "kwread" {
						syms.put(rec.sym)
						if rec.op == "gensym" {
							gens.put(rec.sym)
						}
					}
				}
			}
		})
	}
	errs := simrt.RunTasks(fns, p.Segs)
	for i, e := range errs {
		if e != nil {
			r.Fail("crash", "task %d ends with %s", i, panicText(e))
		}
		if bad[i] != "" {
			r.Fail("error", "task %d: %s", i, bad[i])
		}
		r.FaultN("cancel", cuts[i])
	}
	for k, v := range r.Faults {
		if v == 0 {
			delete(r.Faults, k)
		}
	}
	r.Log("switches %d, hash %x", simrt.Switches, simrt.SchedHash())
	// the history against a table of names
	name2sym, sym2name := map[string]S{}, map[S]string{}
	name2kw, kw2name := map[string]K{}, map[K]string{}
	var all []symRec[S, K]
	for i := range recs {
		for _, x := range recs[i] {
			r.Evals++
			all = append(all, x)
		}
	}
	for _, x := range all {
		r.Log("%s %q [%d,%d]", x.op, x.name, x.beg, x.end)
		name := x.name
		switch x.op {
		case "kw", "kwread":
			if k, ok := name2kw[name]; ok && k != x.kw {
				r.Fail("interning", "the keyword %q was made twice", name)
			}
			if n, ok := kw2name[x.kw]; ok && n != name {
				r.Fail("interning", "the names %q and %q gave the same keyword", n, name)
			}
			name2kw[name], kw2name[x.kw] = x.kw, name
			if t := x.kw.String(); t != name {
				r.Fail("name", "the keyword %q has become %q", name, t)
			}
			continue
		case "gensym":
			name = x.sym.String()
			for _, y := range all {
				if y.op == "kw" || y.op == "kwread" || (y.beg == x.beg && y.op == x.op) {
					continue
				}
				if y.sym == x.sym && (y.op == "gensym" || y.end < x.beg) {
					r.Fail("generated", "the generated symbol %s existed before (%s %q)", name, y.op, y.name)
				}
			}
		}
		if s, ok := name2sym[name]; ok && s != x.sym {
			r.Fail("interning", "the symbol %q was made twice", name)
		}
		if n, ok := sym2name[x.sym]; ok && n != name {
			r.Fail("name", "a symbol has the names %q and %q", n, name)
		}
		name2sym[name], sym2name[x.sym] = x.sym, name
		if t := x.sym.String(); t != name {
			r.Fail("name", "the symbol %q has become %q", name, t)
		}
		if s := gmnlisp.NewSymbol(name); any(s) != any(x.sym) {
			r.Fail("interning", "the symbol %q is another one later", name)
		}
	}
	for _, n := range append([]string{"first"}, append(oddNames, embeddedNames...)...) {
		if t := gmnlisp.NewSymbol(n).String(); t != n {
			r.Fail("name", "the symbol %q is printed as %q", n, t)
		}
	}
	for _, n := range []string{"test", "rest", "first", "alpha"} {
		if t := gmnlisp.NewKeyword(":" + n).String(); t != ":"+n {
			r.Fail("name", "the keyword %q is printed as %q", n, t)
		}
	}
	if any(gmnlisp.NewSymbol("car")) != any(s0) || any(gmnlisp.NewKeyword("first")) != any(k0) {
		r.Fail("interning", "a symbol made before is another one now")
	}
	if simrt.Switches > 0 && len(all) > 1 {
		r.Key = hashOf(jsonText(p))
	}
	r.Inter = fmt.Sprintf("%x", simrt.SchedHash())
}

// countCtx ends after it was asked so many times.
type countCtx struct {
	context.Context
	n *int
}

func (c *countCtx) Err() error {
	*c.n--
	if *c.n <= 0 {
		return context.Canceled
	}
	return nil
}

func (c *countCtx) Done() <-chan struct{} {
	if c.Err() != nil {
		ch := make(chan struct{})
		close(ch)
		return ch
	}
	return c.Context.Done()
}

// nextName adds k to the last number in a name.
func nextName(s string, k int) string {
	end := len(s)
	for end > 0 && (s[end-1] < '0' || s[end-1] > '9') {
		end--
	}
	beg := end
	for beg > 0 && s[beg-1] >= '0' && s[beg-1] <= '9' {
		beg--
	}
	if beg == end || end-beg > 15 {
		return s + "1"
	}
	n := 0
	fmt.Sscan(s[beg:end], &n)
	return s[:beg] + fmt.Sprint(n+k) + s[end:]
}

func symShrink(p *SymPlan) []*SymPlan {
	var out []*SymPlan
	for i, t := range p.Tasks {
		if len(p.Tasks) > 2 {
			q := *p
			q.Tasks = without(p.Tasks, i)
			out = append(out, &q)
		}
		put := func(x SymTask) {
			q := *p
			q.Tasks = append([]*SymTask{}, p.Tasks...)
			q.Tasks[i] = &x
			out = append(out, &q)
		}
		for j, o := range t.Ops {
			put(SymTask{without(t.Ops, j), t.Late})
			if o.Cut > 0 {
				ops := append([]*SymOp{}, t.Ops...)
				ops[j] = &SymOp{K: o.K, N: o.N}
				put(SymTask{ops, t.Late})
			}
		}
		if t.Late {
			put(SymTask{t.Ops, false})
		}
	}
	for d := len(p.Segs); d >= 1 && len(out) < 400; d /= 2 {
		for i := 0; i+d <= len(p.Segs); i += d {
			q := *p
			q.Segs = append(append([]simrt.Seg{}, p.Segs[:i]...), p.Segs[i+d:]...)
			out = append(out, &q)
		}
	}
	return out
}

func symExplain(p *SymPlan) string {
	var b strings.Builder
	for i, t := range p.Tasks {
		fmt.Fprintf(&b, "task %d:", i)
		for _, o := range t.Ops {
			switch o.K {
			case "gensym":
				b.WriteString(" (gensym)")
			case "guess":
				fmt.Fprintf(&b, " intern-the-name-of-generated-symbol-%d+%d", o.N, o.N%4)
			case "show", "text":
				fmt.Fprintf(&b, " print-symbol-%d", o.N)
			default:
				fmt.Fprintf(&b, " %s %q", o.K, symName(o.N))
			}
			if o.Cut > 0 {
				fmt.Fprintf(&b, "(cut %d)", o.Cut)
			}
			b.WriteString(";")
		}
		b.WriteString("\n")
	}
	fmt.Fprintf(&b, "turns (task, steps): ")
	for i, s := range p.Segs {
		if i > 40 {
			b.WriteString("...")
			break
		}
		fmt.Fprintf(&b, "%d,%d  ", s.Task, s.Len)
	}
	b.WriteString("\n")
	return b.String()
}

func init() {
	register(Check{ID: "C13", Race: true, Stmts: true, Quick: 5000, Thor: 200000, Fresh: true,
		Rule: "histories of two or more tasks that were switched at least once; distinct by operations and turns",
		Real: realAll, Stub: stubAll}, symGen, symExec, symShrink, symExplain)
}
