package main

import (
	"context"
	"fmt"
	"io"
	"strings"

	gmnlisp "github.com/hymkor/gmnlisp"
	_ "github.com/hymkor/gmnlisp/pkg/command"
	"github.com/hymkor/gmnlisp/zz_verif/simexec"
	"github.com/hymkor/gmnlisp/zz_verif/simos"
	"github.com/hymkor/gmnlisp/zz_verif/simrt"
)

// Check C20: external commands. The children are simulated processes; what
// they were given, what became of their output and what the evaluation
// reported is compared with a model.

type CmdArg struct {
	C string `json:"c"` // expression
	T string `json:"t"` // the argument
}

type CmdItem struct {
	K    string   `json:"k"` // call, say, esay, fresh, swap, none ((command) without arguments)
	P    int      `json:"p"` // program; -1: there is none of this name
	A    []CmdArg `json:"a,omitempty"`
	S    string   `json:"s,omitempty"`
	T    int      `json:"t,omitempty"` // swap: 2*stream + (0 standard output, 1 error output)
	Via  int      `json:"v,omitempty"`
	Mode int      `json:"m,omitempty"` // 0 handler, 1 ignore-errors, 2 the error ends the evaluation
}

type CmdPlan struct {
	Evals [][]*CmdItem   `json:"evals"`
	Progs []simexec.Prog `json:"progs"`
	Sinks []*PrSink      `json:"sinks"` // standard output, error output, others
	Cut   *Cut           `json:"cut,omitempty"`
	At    int            `json:"at,omitempty"` // the evaluation that is cut; a program may do it, too (hook)
	Map   uint64         `json:"map,omitempty"`
}

var cmdStrings = []string{"", "a", "-x", "--long=1", "two words", "  lead", "trail ", "\"", "\"quoted\"", "a\\b", "'", "$HOME", "*", "a\nb", "~a~%", "%s", "\u3042\u00e9", "|", "> f", ";", "(car 1)", "nil", "-", "--", "/", "tab\tx", "#\\a", "{}", "\u20ac"}

func cmdArg(r *Rand) CmdArg {
	switch r.W(10, 3, 2, 2, 1, 1) {
	case 1:
		n := []int{0, 1, -1, 42, 1234567890, -99999}[r.N(6)]
		return CmdArg{fmt.Sprint(n), fmt.Sprint(n)}
	case 2:
		s := r.Str("sym", "x", "an-option")
		return CmdArg{"'" + s, s}
	case 3:
		s := r.Str("a", "Z", "\"", "1", "\u3042")
		return CmdArg{"#\\" + s, s}
	case 4:
		s := pattern(r.Range(50, 3000))
		return CmdArg{lispString(s), s}
	case 5:
		s, t := r.Str(cmdStrings...), r.Str(cmdStrings...)
		return CmdArg{"(string-append " + lispString(s) + " " + lispString(t) + ")", s + t}
	}
	s := r.Str(cmdStrings...)
	return CmdArg{lispString(s), s}
}

func cmdProg(r *Rand, tier string) simexec.Prog {
	p := simexec.Prog{NoPipe: r.P(20), NoInt: r.P(20)}
	if r.P(40) {
		p.Chunk = r.Range(1, 9)
	}
	if r.P(7) {
		p.StartErr = r.Str("permission denied", "exec format error", "resource temporarily unavailable")
		return p
	}
	for n := r.N(6); n > 0; n-- {
		o := simexec.Op{}
		switch r.W(8, 4, 3, 3, 2, 1, 2) {
		case 0:
			o.Kind, o.Text = "out", r.Str("o\n", "out", "two\nlines\n", "\u3042\u00e9", "\n", "", "x")
		case 1:
			o.Kind, o.Text = "err", r.Str("e\n", "err", "warn: x\n", "\u3042")
		case 2:
			o.Kind = "args"
		case 3:
			o.Kind, o.N = "sleep", []int{1, 5, 50, 1000, 20000, 600000}[r.N(6)]
		case 4:
			o.Kind, o.N = "read", r.N(20)
		case 5:
			o.Kind, o.Text = "out", pattern(r.Range(3000, 70000))
		case 6:
			o.Kind, o.N = "orphan", []int{1, 1000, 3600000}[r.N(3)]
		}
		p.Ops = append(p.Ops, o)
	}
	switch r.W(6, 3, 2) {
	case 1:
		p.Ops = append(p.Ops, simexec.Op{Kind: "exit", N: []int{0, 1, 2, 127, 255}[r.N(5)]})
	case 2:
		p.Ops = append(p.Ops, simexec.Op{Kind: "signal", Text: r.Str("killed", "segmentation fault", "terminated", "hangup")})
	}
	return p
}

func commandGen(r *Rand, idx int, tier string) *CmdPlan {
	p := &CmdPlan{Map: r.U64() >> 12}
	for n := r.Range(1, 4); n > 0; n-- {
		p.Progs = append(p.Progs, cmdProg(r, tier))
	}
	bad := []int{0, 20, 50}[r.N(3)]
	for n := r.Range(2, 4); n > 0; n-- {
		s := &PrSink{SW: r.P(40), Err: r.Str("EPIPE", "ENOSPC", "text", "closed"), Keep: r.P(50), Full: r.P(10)}
		if r.P(bad) {
			for k := r.Range(1, 3); k > 0; k-- {
				s.Fails = append(s.Fails, r.N(30))
			}
			if len(s.Fails) > 1 && s.Fails[0] > s.Fails[1] {
				s.Fails[0], s.Fails[1] = s.Fails[1], s.Fails[0]
			}
		}
		p.Sinks = append(p.Sinks, s)
	}
	if r.P(15) {
		p.Sinks[0] = &PrSink{OS: true}
	}
	n := 8
	if tier == "thorough" {
		n = 25
	}
	for k := r.Range(1, 3); k > 0; k-- {
		var e []*CmdItem
		for m := r.Range(1, n); m > 0; m-- {
			it := &CmdItem{Mode: r.W(5, 3, 2), Via: r.N(7)}
			switch r.W(12, 3, 2, 3, 2, 1) {
			case 0:
				it.K, it.P = "call", r.N(len(p.Progs))
				if r.P(6) {
					it.P = -1
				}
				for a := r.W(2, 4, 4, 2, 1); a > 0; a-- {
					it.A = append(it.A, cmdArg(r))
				}
				if r.P(3) {
					for a := r.Range(5, 40); a > 0; a-- {
						it.A = append(it.A, cmdArg(r))
					}
				}
			case 1:
				it.K, it.S = "say", r.Str("s", "say\n", "\u3042", "S ")
			case 2:
				it.K, it.S = "esay", r.Str("t", "esay\n", "T ")
			case 3:
				it.K, it.S = "fresh", r.Str("f", "F\n")
			case 4:
				it.K, it.T = "swap", r.N(2*len(p.Sinks))
			case 5:
				it.K = "none"
			}
			if it.K != "call" {
				it.Via = 0
			}
			e = append(e, it)
		}
		p.Evals = append(p.Evals, e)
	}
	if r.P(45) {
		p.At = r.N(len(p.Evals))
		p.Cut = &Cut{Deadline: r.P(40), Cause: r.P(25)}
		switch r.N(3) {
		case 0: // in the middle of a program
			k := r.N(len(p.Progs))
			g := &p.Progs[k]
			if g.StartErr == "" {
				i := r.N(len(g.Ops) + 1)
				g.Ops = append(g.Ops[:i:i], append([]simexec.Op{{Kind: "hook"}}, g.Ops[i:]...)...)
				p.Cut.Tick = 1 << 60
				break
			}
			fallthrough
		case 1:
			p.Cut.Tick = uint64(r.N(3000))
		case 2: // while something sleeps
			p.Cut.Tick = uint64(r.N([]int{10000, 1000000, 20000000, 600000000}[r.N(4)]))
		}
	}
	return p
}

func (it *CmdItem) form(id int) string {
	var f string
	switch it.K {
	case "swap":
		return fmt.Sprintf("(h1 %d)\n", it.T)
	case "say":
		f = "(format (standard-output) \"~a\" " + lispString(it.S) + ")"
	case "esay":
		f = "(format (error-output) \"~a\" " + lispString(it.S) + ")"
	case "fresh":
		f = "(format (standard-output) \"~&~a\" " + lispString(it.S) + ")"
	case "none":
		f = "(command)"
	case "call":
		args := lispString(fmt.Sprintf("p%d", it.P))
		if it.P < 0 {
			args = `"nowhere"`
		}
		for _, a := range it.A {
			args += " " + a.C
		}
		switch it.Via {
		case 1:
			f = "(funcall #'command " + args + ")"
		case 2:
			f = "(apply #'command (list " + args + "))"
		case 3:
			f = "(let ((f (lambda (:rest a) (apply #'command a)))) (funcall f " + args + "))"
		case 4:
			f = "(progn (defun cmd-f (x) (if x (apply #'command x))) (cmd-f (list " + args + ")))"
		case 5:
			f = "(unwind-protect (command " + args + ") 1)"
		case 6:
			f = "(block b (command " + args + "))"
		default:
			f = "(command " + args + ")"
		}
	}
	switch it.Mode {
	case 0:
		f = "(catch 'q (with-handler (lambda (c) (throw 'q 'failed)) (progn " + f + " 'ok)))"
	case 1:
		f = "(if (ignore-errors (progn " + f + " 'ok)) 'ok 'failed)"
	default:
		f = "(progn " + f + " 'ok)"
	}
	return fmt.Sprintf("(h0 (list %d %s))\n", id, f)
}

func (p *CmdPlan) code(e int) string {
	id := 1
	for _, x := range p.Evals[:e] {
		id += len(x)
	}
	var b strings.Builder
	for i, it := range p.Evals[e] {
		b.WriteString(it.form(id + i))
	}
	return b.String() + "0"
}

// cmdModel predicts the calls of an evaluation.
type cmdModel struct {
	p     *CmdPlan
	sinks []*prSinkState
	cur   [2]int
	last  []byte // last character through every stream
	odd   []bool // the column is unknown after a failure
	runs  []string
	log   []string
	hook  bool // programs cut the context in this evaluation
	cut   bool
	skip  bool // not predicted
}

func (m *cmdModel) write(n int, s string) bool {
	k, err := m.sinks[n].Write([]byte(s))
	if s != "" {
		m.last[n] = s[len(s)-1]
	}
	if err != nil || k < len(s) {
		m.odd[n] = true
		return false
	}
	return true
}

func (m *cmdModel) call(it *CmdItem) bool {
	if it.P < 0 {
		return false
	}
	g := m.p.Progs[it.P]
	if g.StartErr != "" {
		return false
	}
	var args []string
	text := ""
	for _, a := range it.A {
		args = append(args, a.T)
		text += "[" + a.T + "]"
	}
	m.runs = append(m.runs, fmt.Sprintf("p%d %q", it.P, args))
	var dead [2]bool
	ok := true
	for _, o := range g.Ops {
		which, t := 0, o.Text
		switch o.Kind {
		case "err":
			which = 1
		case "args":
			t = text
		case "exit":
			return ok && o.N == 0
		case "signal":
			return false
		case "hook":
			if m.hook {
				m.cut = true
				return false
			}
			continue
		case "out":
		default:
			continue
		}
		d := &dead[which]
		if m.cur[0] == m.cur[1] {
			d = &dead[0]
		}
		for t != "" {
			k := len(t)
			if g.Chunk > 0 && g.Chunk < k {
				k = g.Chunk
			}
			if *d {
				if !g.NoPipe {
					return false
				}
				break
			}
			if !m.write(m.cur[which], t[:k]) {
				*d, ok = true, false
			}
			t = t[k:]
		}
	}
	return ok
}

func (m *cmdModel) eval(e int) string {
	id := 1
	for _, x := range m.p.Evals[:e] {
		id += len(x)
	}
	for i, it := range m.p.Evals[e] {
		ok := true
		switch it.K {
		case "swap":
			m.cur[it.T%2] = it.T / 2
			m.log = append(m.log, fmt.Sprintf("h1:%d", it.T))
			continue
		case "say":
			ok = m.write(m.cur[0], it.S)
		case "esay":
			ok = m.write(m.cur[1], it.S)
		case "fresh":
			n, s := m.cur[0], it.S
			if m.odd[n] {
				m.skip = true
				return ""
			}
			ok = m.last[n] == '\n' || m.write(n, "\n")
			ok = ok && m.write(n, s)
		case "none":
			ok = false
		case "call":
			ok = m.call(it)
		}
		if m.cut {
			return "cancelled"
		}
		v := "ok"
		if !ok {
			if it.Mode == 2 {
				return "error"
			}
			v = "failed"
		}
		m.log = append(m.log, fmt.Sprintf("h0:(%d %s)", id+i, v))
	}
	return "value 0"
}

func newCmdSinks(p *CmdPlan, r *Run) (out []*prSinkState) {
	for _, s := range p.Sinks {
		out = append(out, &prSinkState{PrSink: s, fails: append([]int{}, s.Fails...), r: r})
	}
	return
}

func commandExec(p *CmdPlan, r *Run) {
	intern("q ok failed cmd-f a b c f x")
	for i := range p.Evals {
		intern(p.code(i))
	}
	simos.Reset(nil, -1, nil)
	simos.SetStdin(pattern(200))
	begin(2000000, p.Map)
	defer r.end()
	host = &hostSide{faults: map[int]string{}, fired: r.Faults}
	progs := map[string]simexec.Prog{}
	for i, g := range p.Progs {
		progs[fmt.Sprintf("p%d", i)] = g
		if g.StartErr != "" {
			r.Probe("program that does not start")
		}
	}
	simexec.Reset(progs)
	sinks := newCmdSinks(p, r)
	w := gmnlisp.New()
	nodes := make([]io.Writer, len(sinks))
	for i := len(sinks) - 1; i >= 0; i-- {
		if !sinks[i].OS {
			w.SetStdout(sinks[i].writer())
			nodes[i] = w.Stdout()
		}
	}
	if sinks[0].OS {
		w = gmnlisp.New()
		nodes[0] = w.Stdout()
	}
	w.SetStdout(nodes[0])
	w.SetErrout(nodes[1])
	m := &cmdModel{p: p, sinks: newCmdSinks(p, newRun()), cur: [2]int{0, 1}}
	for range sinks {
		m.last, m.odd = append(m.last, '\n'), append(m.odd, false)
	}
	swaps := func(call, k int, v gmnlisp.Node) {
		if n, ok := v.(gmnlisp.Integer); ok && k == 1 {
			if n%2 == 0 {
				w.SetStdout(nodes[n/2])
			} else {
				w.SetErrout(nodes[n/2])
			}
		}
	}
	var texts []string
	for e := range p.Evals {
		ctx := context.Background()
		at := func() uint64 { return 0 }
		host.hook = swaps
		m.hook, m.cut = false, false
		simexec.Hook = nil
		logged := -1
		from := len(simexec.Log)
		if p.Cut != nil && e == p.At {
			c := *p.Cut
			if c.Tick == 1<<60 { // a program does it
				r.Probe("cut in a program")
				m.hook = true
				x, cancel := context.WithCancel(context.Background())
				s := newSimCtx()
				ctx = x
				if c.Deadline {
					ctx = s
				}
				done := uint64(0)
				at = func() uint64 { return done }
				simexec.Hook = func(int) {
					if done == 0 {
						done, logged = simrt.Ticks(), len(host.log)
						cancel()
						s.end(context.DeadlineExceeded)
						r.Fault("cancel in a program")
					}
				}
			} else {
				ctx, at = c.install(r)
				tick := c.Tick
				simrt.At(simrt.Ticks()+tick, func() { logged = len(host.log) })
				if tick == 0 {
					logged = len(host.log)
				}
			}
		}
		simrt.Extend(2000000)
		got := evalText(w, ctx, p.code(e))
		r.Evals++
		end := simrt.Ticks()
		cut := at()
		want := m.eval(e)
		r.Log("eval %d: %s", e, got)
		r.Log("log %v", host.log)
		r.Log("runs %s", cmdRuns(simexec.Log))
		if m.skip {
			r.Probe("discarded: column after a failure")
			return
		}
		if strings.HasPrefix(got, "crash") || got == "no end" {
			r.Fail("crash", "%s", got)
			return
		}
		texts = append(texts, got)
		have := strings.Join(host.log, "\n")
		full := strings.Join(m.log, "\n")
		runs, wantRuns := cmdRuns(simexec.Log), strings.Join(m.runs, "\n")
		killed := false
		for _, s := range simexec.Log[from:] {
			if s.Signal != "" {
				r.Probe("program ended by " + s.Signal)
			}
			if cut > 0 && s.At/1000 > 1_000_000+int64(cut) {
				r.Fail("late-start", "%s was started after the context had ended", s.Name)
				return
			}
			if cut > 0 && (!s.Done || s.End/1000 >= 1_000_000+int64(cut)) {
				killed = true // it was running
				if s.Done && !s.Killed && m.hook {
					r.Fail("not-killed", "%s was not killed when the context ended", s.Name)
					return
				}
			}
		}
		outs := func(prefix bool) bool {
			for i, s := range sinks {
				x, y := s.content(), m.sinks[i].content()
				if s.OS {
					y = string(m.sinks[i].b)
				}
				if x != y && !(prefix && strings.HasPrefix(y, x)) {
					r.Fail("output", "stream %d received %s instead of %s", i, clip(fmt.Sprintf("%q", x), 400), clip(fmt.Sprintf("%q", y), 400))
					return false
				}
			}
			return true
		}
		if cut > 0 {
			r.Probe("cut")
			if logged >= 0 && len(host.log) > logged && killed {
				r.Fail("goes-on", "after the context had ended the program went on: %v", host.log[logged:])
				return
			}
			if killed {
				r.Probe("cut while a program ran")
				if got != "cancelled" && got != "error" && !strings.HasPrefix(got, "error ") {
					r.Fail("not-reported", "the context ended while a program ran, but the evaluation returned %s", got)
					return
				}
			}
			// A program that had ended before may have left its output open to
			// others: until they end, os/exec waits, whatever the context.
			left := false
			if n := len(simexec.Log); n > from && !killed {
				left = strings.Contains(jsonText(progs[simexec.Log[n-1].Name]), "orphan")
			}
			if end-cut > 10_000_000 && !left { // ten seconds
				r.Fail("not-stopped", "the evaluation went on for %d ms after the context had ended", (end-cut)/1000)
				return
			}
			if !strings.HasPrefix(full, have) && full != have {
				r.Fail("result", "the program observed %q instead of %q (or a part of it)", host.log, m.log)
				return
			}
			if !strings.HasPrefix(wantRuns, runs) {
				r.Fail("arguments", "the programs run were %s, not %s (or a part)", runs, wantRuns)
				return
			}
			if !outs(true) {
				return
			}
			break // what follows depends on how far it went
		}
		if want == "error" && strings.HasPrefix(got, "error ") || want == "error" && got == "cancelled" {
			want = got
		}
		if runs != wantRuns {
			r.Fail("arguments", "the programs run were:\n%s\ninstead of:\n%s", clip(runs, 500), clip(wantRuns, 500))
			return
		}
		if have != full {
			r.Fail("result", "the program observed %q instead of %q", host.log, m.log)
			return
		}
		if got != want {
			r.Fail("result", "the evaluation returned %s instead of %s", got, want)
			return
		}
		if !outs(false) {
			return
		}
	}
	r.Key = hashOf(jsonText(p))
	r.Inter = hashOf(fmt.Sprint(texts), cmdRuns(simexec.Log), jsonText(p.Progs), jsonText(p.Cut))
}

func cmdRuns(log []*simexec.Started) string {
	var out []string
	for _, s := range log {
		out = append(out, fmt.Sprintf("%s %q", s.Name, s.Args))
	}
	return strings.Join(out, "\n")
}

func commandShrink(p *CmdPlan) []*CmdPlan {
	var out []*CmdPlan
	add := func(f func(q *CmdPlan)) {
		q := *p
		f(&q)
		out = append(out, &q)
	}
	for i := range p.Evals {
		i := i
		if len(p.Evals) > 1 {
			add(func(q *CmdPlan) {
				q.Evals = without(p.Evals, i)
				if q.At > i || q.At == len(q.Evals) {
					q.At--
				}
			})
		}
		set := func(e []*CmdItem) {
			add(func(q *CmdPlan) {
				q.Evals = append([][]*CmdItem{}, p.Evals...)
				q.Evals[i] = e
			})
		}
		for j, it := range p.Evals[i] {
			set(without(p.Evals[i], j))
			put := func(x CmdItem) {
				e := append([]*CmdItem{}, p.Evals[i]...)
				e[j] = &x
				set(e)
			}
			if it.Via > 0 {
				x := *it
				x.Via = 0
				put(x)
			}
			for k := range it.A {
				x := *it
				x.A = without(it.A, k)
				put(x)
			}
		}
	}
	for i, g := range p.Progs {
		i := i
		set := func(g simexec.Prog) {
			add(func(q *CmdPlan) {
				q.Progs = append([]simexec.Prog{}, p.Progs...)
				q.Progs[i] = g
			})
		}
		for j, o := range g.Ops {
			x := g
			x.Ops = without(g.Ops, j)
			set(x)
			if len(o.Text) > 2 && o.Kind != "signal" {
				x := g
				x.Ops = append([]simexec.Op{}, g.Ops...)
				x.Ops[j].Text = o.Text[:1]
				set(x)
			}
		}
		if g.Chunk > 0 {
			x := g
			x.Chunk = 0
			set(x)
		}
	}
	for i, s := range p.Sinks {
		i := i
		if len(s.Fails) > 0 {
			x := *s
			x.Fails = x.Fails[1:]
			add(func(q *CmdPlan) {
				q.Sinks = append([]*PrSink{}, p.Sinks...)
				q.Sinks[i] = &x
			})
		}
	}
	if p.Cut != nil {
		add(func(q *CmdPlan) { q.Cut = nil })
	}
	if p.Map > 0 {
		add(func(q *CmdPlan) { q.Map = 0 })
	}
	return out
}

func commandExplain(p *CmdPlan) string {
	var b strings.Builder
	for i := range p.Evals {
		fmt.Fprintf(&b, "; evaluation %d\n%s\n", i, clip(p.code(i), 2500))
	}
	for i, g := range p.Progs {
		fmt.Fprintf(&b, "; program p%d: %s\n", i, clip(jsonText(g), 600))
	}
	for i, s := range p.Sinks {
		fmt.Fprintf(&b, "; stream %d (0: standard output, 1: error output at first): %s\n", i, jsonText(s))
	}
	if p.Cut != nil {
		s := p.Cut.String()
		if p.Cut.Tick == 1<<60 {
			s = "it ends when a program reaches its hook"
		}
		fmt.Fprintf(&b, "; context of evaluation %d: %s\n", p.At, s)
	}
	return b.String()
}

func init() {
	register(Check{ID: "C20", Quick: 20000, Thor: 300000,
		Rule: "evaluations with calls of programs; distinct by programs, arguments, streams, failures and cut",
		Real: append([]string{"pkg/command"}, realAll...), Stub: append([]string{"os/exec: simulated child processes"}, stubAll...)}, commandGen, commandExec, commandShrink, commandExplain)
}
