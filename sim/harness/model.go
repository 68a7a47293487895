package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"syscall"

	gmnlisp "github.com/hymkor/gmnlisp"
	"github.com/hymkor/gmnlisp/zz_verif/simos"
	"github.com/hymkor/gmnlisp/zz_verif/simrt"
)

// The reference model of the control-flow language of lang.go: a direct
// interpreter that shares no code with the one under test.

const maxHosts = 9

// V is a value of the model.
type V struct {
	k byte // 'n' nil 't' t 'i' integer 's' symbol 'q' string 'l' list 'c' condition
	n int
	s string
	l []V
}

var vNil = V{k: 'n'}

func vInt(n int) V { return V{k: 'i', n: n} }

func (v V) String() string {
	switch v.k {
	case 'n':
		return "nil"
	case 't':
		return "t"
	case 'i':
		return fmt.Sprint(v.n)
	case 'q':
		return fmt.Sprintf("%q", v.s)
	case 'l':
		if len(v.l) == 0 {
			return "nil"
		}
		s := make([]string, len(v.l))
		for i := range v.l {
			s[i] = v.l[i].String()
		}
		return "(" + strings.Join(s, " ") + ")"
	}
	return v.s
}

func (v V) true() bool { return v.k != 'n' && !(v.k == 'l' && len(v.l) == 0) }

// valueText renders a value of the interpreter in the same way.
func valueText(n gmnlisp.Node) string {
	if n == nil || gmnlisp.IsNone(n) {
		return "nil"
	}
	switch v := n.(type) {
	case gmnlisp.Integer:
		return fmt.Sprint(int(v))
	case gmnlisp.String:
		return fmt.Sprintf("%q", v.String())
	case gmnlisp.Rune:
		return fmt.Sprintf("#\\%x", rune(v))
	case *gmnlisp.Cons:
		var b strings.Builder
		b.WriteByte('(')
		var x gmnlisp.Node = v
		for i := 0; ; i++ {
			c, ok := x.(*gmnlisp.Cons)
			if !ok {
				if x != nil && gmnlisp.IsSome(x) {
					b.WriteString(" . " + valueText(x))
				}
				break
			}
			if i > 0 {
				b.WriteByte(' ')
			}
			if i > 200 {
				b.WriteString("...")
				break
			}
			b.WriteString(valueText(c.Car))
			x = c.Cdr
		}
		b.WriteByte(')')
		return b.String()
	}
	return strings.ToLower(n.String())
}

// merr is an error of the model.
type merr struct {
	id       int
	class    string // text:E1 dom undefvar:x undeffn:x control host io
	informed map[int]bool
}

type sig struct {
	kind string // return throw go err quit abort cont panic
	name string
	id   int
	v    V
	e    *merr
}

// accept tells which values a condition may be continued with.
type accept func(V) bool

func anyValue(V) bool { return true }

type hnd struct {
	id    int
	name  string
	body  *E
	env   *menv
	outer *hnd
}

type cell struct{ v V }

type menv struct {
	up    *menv
	name  string
	cell  *cell
	fn    *mfn
	block string
	id    int // of the block or tagbody
	tags  map[string]bool
}

type mfn struct {
	param string
	body  *E
	env   *menv
}

// Fault of a run of the control-flow language: the At-th host call (1-based,
// over the whole run) fails in the given way.
type HFault struct {
	At   int    `json:"at"`
	Kind string `json:"kind"` // err dom panic cancel
}

type active struct {
	kind byte // 'b' 'c' 'g'
	name string
	id   int
	tags map[string]bool
}

type model struct {
	fns    map[string]*Fn
	faults map[int]string
	calls  int
	log    []string
	dyn    map[string]V
	h      *hnd
	act    []active
	ids    int
	ek     V
	in     [][]string // stdin lines, innermost last; "!" = read error
	steps  int
	cont   []int // the conditions that may be continued
	unspec string
	// how errors that are returned as plain values reach handlers: at the
	// place where they occur, or on leaving (with-handler)
	point map[string]bool
	probe func(string)
	fs    modelFS
}

// modelFS are the files of a run as far as their handles are concerned.
type modelFS struct {
	faults  []simos.Fault
	hits    []int
	lines   map[string]int // input files, two bytes and a newline per line
	streams []*mstream
	track   bool // the number of open files is part of every host call's record
}

type mstream struct {
	file string
	out  bool
	open bool
	pos  int
	buf  int
}

func (f *modelFS) fault(op, path string) bool {
	r := false
	for i, x := range f.faults {
		if x.Op == op && strings.HasSuffix(path, x.Path) {
			f.hits[i]++
			r = r || f.hits[i] == x.Nth
		}
	}
	return r
}

func (f *modelFS) opened() int {
	n := 0
	for _, s := range f.streams {
		if s.open {
			n++
		}
	}
	return n
}

// openStream is nil if the file can not be opened.
func (f *modelFS) openStream(file string, out bool) (int, bool) {
	op := "open"
	if out {
		op = "create"
	}
	bad := f.fault(op, file)
	if _, ok := f.lines[file]; bad || (!out && !ok) || strings.Contains(file, "/") {
		return 0, false
	}
	f.streams = append(f.streams, &mstream{file: file, out: out, open: true})
	return len(f.streams) - 1, true
}

// closeStream tells whether closing succeeds.
func (f *modelFS) closeStream(i int) bool {
	s := f.streams[i]
	if !s.open {
		return true
	}
	s.open = false
	ok := true
	if s.out && s.buf > 0 && f.fault("write", s.file) {
		ok = false
	}
	if f.fault("close", s.file) {
		ok = false
	}
	return ok
}

func (m *model) stream(env *menv, name string, out bool) *mstream {
	c := m.lookup(env, name)
	if c == nil || c.v.k != 'f' || m.fs.streams[c.v.n].out != out || !m.fs.streams[c.v.n].open {
		return nil
	}
	return m.fs.streams[c.v.n]
}

func newModel() *model {
	return &model{fns: map[string]*Fn{}, faults: map[int]string{}, dyn: map[string]V{"d1": vInt(100), "d2": vInt(200)}, ek: vInt(0), in: [][]string{nil}, point: map[string]bool{}}
}

func (m *model) note(s string) {
	if m.probe != nil {
		m.probe(s)
	}
}

const modelBudget = 30000

func (m *model) dead(why string) *sig {
	if m.unspec == "" {
		m.unspec = why
	}
	return &sig{kind: "unspec"}
}

func (m *model) lookup(env *menv, name string) *cell {
	for e := env; e != nil; e = e.up {
		if e.cell != nil && e.name == name {
			return e.cell
		}
	}
	return nil
}
func (m *model) local(env *menv, name string) *mfn {
	for e := env; e != nil; e = e.up {
		if e.fn != nil && e.name == name {
			return e.fn
		}
	}
	return nil
}
func bind(env *menv, name string, v V) *menv { return &menv{up: env, name: name, cell: &cell{v}} }

// raise signals an error at this place; ok is nil if it can not be continued.
func (m *model) raise(class string, ok accept) (V, *sig) {
	m.ids++
	e := &merr{id: m.ids, class: class, informed: map[int]bool{}}
	if m.h == nil {
		return vNil, &sig{kind: "err", e: e}
	}
	return m.callHandler(e, ok)
}

func (m *model) callHandler(e *merr, ok accept) (V, *sig) {
	h := m.h
	m.h = h.outer
	if ok != nil {
		m.cont = append(m.cont, e.id)
	}
	m.note("handler-called")
	v, s := m.eval(h.body, bind(h.env, h.name, V{k: 'c', n: e.id}))
	m.h = h
	if ok != nil {
		m.cont = m.cont[:len(m.cont)-1]
	}
	if s == nil {
		_ = v
		if strings.HasPrefix(e.class, "text:E") { // of (error) and (cerror)
			return vNil, m.dead("handler returned")
		}
		m.note("handler declined")
		e.informed[h.id] = true
		return vNil, &sig{kind: "err", e: e}
	}
	switch s.kind {
	case "cont":
		if s.id != e.id {
			m.note("continued further out")
			break
		}
		if ok(s.v) {
			m.note("continued")
			return s.v, nil
		}
		m.note("continued with a value of another class")
		return vNil, &sig{kind: "err", e: &merr{class: "text:continue-condition failed", informed: map[int]bool{h.id: true}}}
	case "err":
		s.e.informed[h.id] = true
		m.note("error-in-handler")
	}
	return vNil, s
}

// resume continues the condition in the variable.
func (m *model) resume(env *menv, name string, v V) (V, *sig) {
	c := m.lookup(env, name)
	if c == nil || c.v.k != 'c' {
		return vNil, m.dead("shrunk")
	}
	for _, id := range m.cont {
		if id == c.v.n {
			return vNil, &sig{kind: "cont", id: id, v: v}
		}
	}
	m.note("continue of a condition that can not be continued")
	return m.raise("control", nil)
}

// late is an error that is returned without asking the handler first.
func (m *model) late(kind, class string) (V, *sig) {
	if m.point[kind] {
		return m.raise(class, nil)
	}
	return vNil, &sig{kind: "err", e: &merr{class: class, informed: map[int]bool{}}}
}

func (m *model) progn(es []*E, env *menv) (V, *sig) {
	v := vNil
	for _, e := range es {
		var s *sig
		if v, s = m.eval(e, env); s != nil {
			return vNil, s
		}
	}
	return v, nil
}

func (m *model) find(kind byte, name string) *active {
	for i := len(m.act) - 1; i >= 0; i-- {
		a := &m.act[i]
		if a.kind == kind && (a.name == name || (kind == 'g' && a.tags[name])) {
			return a
		}
	}
	return nil
}

func (m *model) enter(kind byte, name string, tags map[string]bool) int {
	m.ids++
	m.act = append(m.act, active{kind, name, m.ids, tags})
	return m.ids
}
func (m *model) leave() { m.act = m.act[:len(m.act)-1] }

func (m *model) block(name string, env *menv, body func(*menv) (V, *sig)) (V, *sig) {
	id := m.enter('b', name, nil)
	v, s := body(&menv{up: env, block: name, id: id})
	m.leave()
	if s != nil && s.kind == "return" && s.id == id {
		m.note("block-left")
		return s.v, nil
	}
	return v, s
}

func lexical(env *menv, kind byte, name string) int {
	for e := env; e != nil; e = e.up {
		if kind == 'b' && e.block == name && e.id > 0 && e.tags == nil {
			return e.id
		}
		if kind == 'g' && e.tags[name] {
			return e.id
		}
	}
	return 0
}

func (m *model) host(k int, v V) (V, *sig) {
	m.calls++
	s := fmt.Sprintf("h%d:%s", k, v)
	if m.fs.track {
		s += fmt.Sprintf(" (%d open)", m.fs.opened())
	}
	m.log = append(m.log, s)
	switch m.faults[m.calls] {
	case "err":
		return m.late("host", "host")
	case "dom":
		m.ek = vInt(3)
		return m.raise("dom", func(v V) bool { return v.k == 'i' })
	case "panic":
		return vNil, &sig{kind: "panic"}
	}
	return v, nil
}

func (m *model) call(param string, body func(*menv) (V, *sig), env *menv, v V) (V, *sig) {
	return body(bind(env, param, v))
}

func (m *model) readline() (V, *sig) {
	q := &m.in[len(m.in)-1]
	if len(*q) == 0 {
		return V{k: 's', s: "eof"}, nil
	}
	l := (*q)[0]
	*q = (*q)[1:]
	if l == "!" {
		return m.late("io", "io")
	}
	return V{k: 'q', s: l}, nil
}

func (m *model) loop(e *E, env *menv) (V, *sig) {
	c := &cell{}
	for i := 0; i < e.N; i++ {
		n := i
		if e.S == "dolist" {
			n = i + 1
		}
		c.v = vInt(n)
		if _, s := m.progn(e.A, &menv{up: env, name: e.L[0], cell: c}); s != nil {
			return vNil, s
		}
	}
	return vInt(e.N), nil
}

func (m *model) eval(e *E, env *menv) (V, *sig) {
	m.steps++
	if m.steps > modelBudget || m.unspec != "" {
		return vNil, m.dead("too long")
	}
	switch e.K {
	case "int":
		return vInt(e.N), nil
	case "nil":
		return vNil, nil
	case "t":
		return V{k: 't'}, nil
	case "h":
		v, s := m.eval(arg(e, 0), env)
		if s != nil {
			return vNil, s
		}
		return m.host(e.N, v)
	case "var":
		if c := m.lookup(env, e.S); c != nil {
			return c.v, nil
		}
		return m.late("undefvar", "undef:"+e.S)
	case "setq":
		v, s := m.eval(arg(e, 0), env)
		if s != nil {
			return vNil, s
		}
		if c := m.lookup(env, e.S); c != nil {
			c.v = v
			return v, nil
		}
		return m.late("undefvar", "undef:"+e.S)
	case "let", "let*":
		inner := env
		for i, n := range e.L {
			sc := env
			if e.K == "let*" {
				sc = inner
			}
			v, s := m.eval(arg(e, i), sc)
			if s != nil {
				return vNil, s
			}
			inner = bind(inner, n, v)
		}
		return m.progn(rest(e, len(e.L)), inner)
	case "progn":
		return m.progn(e.A, env)
	case "wrap":
		return m.eval(arg(e, 0), env)
	case "prog1":
		v, s := m.eval(arg(e, 0), env)
		if s != nil {
			return vNil, s
		}
		_, s = m.progn(rest(e, 1), env)
		return v, s
	case "and":
		v := vNil
		for _, x := range e.A {
			var s *sig
			if v, s = m.eval(x, env); s != nil {
				return vNil, s
			}
			if !v.true() {
				return vNil, nil
			}
		}
		return v, nil
	case "or":
		for _, x := range e.A {
			v, s := m.eval(x, env)
			if s != nil || v.true() {
				return v, s
			}
		}
		return vNil, nil
	case "if", "when", "unless":
		v, s := m.eval(arg(e, 0), env)
		if s != nil {
			return vNil, s
		}
		switch {
		case e.K == "if" && v.true():
			return m.eval(arg(e, 1), env)
		case e.K == "if":
			return m.eval(arg(e, 2), env)
		case v.true() == (e.K == "when"):
			return m.progn(rest(e, 1), env)
		}
		return vNil, nil
	case "cond":
		for i := 0; i < 4; i += 2 {
			v, s := m.eval(arg(e, i), env)
			if s != nil {
				return vNil, s
			}
			if v.true() {
				return m.eval(arg(e, i+1), env)
			}
		}
		return m.eval(arg(e, 4), env)
	case "rep":
		if e.S != "dolist" {
			return m.loop(e, env)
		}
		if _, s := m.block("nil", env, func(b *menv) (V, *sig) { return m.loop(e, b) }); s != nil {
			return vNil, s
		}
		return vInt(e.N), nil
	case "block":
		return m.block(e.S, env, func(b *menv) (V, *sig) { return m.progn(e.A, b) })
	case "retfrom", "return":
		name := e.S
		if e.K == "return" {
			name = "nil"
			// the value is computed first
			v, s := m.eval(arg(e, 0), env)
			if s != nil {
				return vNil, s
			}
			return m.exit('b', name, v, env)
		}
		if m.find('b', name) == nil {
			return m.raise("control", nil)
		}
		v, s := m.eval(arg(e, 0), env)
		if s != nil {
			return vNil, s
		}
		return m.exit('b', name, v, env)
	case "badret", "badgo":
		return m.raise("control", nil)
	case "badthrow":
		return m.raise("control", nil)
	case "catch":
		id := m.enter('c', e.S, nil)
		v, s := m.progn(e.A, env)
		m.leave()
		if s != nil && s.kind == "throw" && s.id == id {
			m.note("caught")
			return s.v, nil
		}
		return v, s
	case "throw":
		v, s := m.eval(arg(e, 0), env)
		if s != nil {
			return vNil, s
		}
		return m.exit('c', e.S, v, env)
	case "tagbody":
		tags := map[string]bool{}
		for _, x := range e.A {
			if x.K == "tag" {
				tags[x.S] = true
			}
		}
		cnt := bind(env, e.L[0], vInt(e.N))
		id := m.enter('g', "", tags)
		defer m.leave()
		sc := &menv{up: cnt, tags: tags, id: id}
		for i := 0; i < len(e.A); i++ {
			if e.A[i].K == "tag" {
				continue
			}
			_, s := m.eval(e.A[i], sc)
			if s == nil {
				continue
			}
			if s.kind != "go" || s.id != id {
				return vNil, s
			}
			m.note("went")
			for j, x := range e.A {
				if x.K == "tag" && x.S == s.name {
					i = j
				}
			}
		}
		return vNil, nil
	case "go":
		return m.exit('g', e.S, vNil, env)
	case "gocnt":
		c := m.lookup(env, e.L[0])
		if c == nil {
			return vNil, m.dead("shrunk")
		}
		if c.v.n > 0 {
			c.v = vInt(c.v.n - 1)
			return m.exit('g', e.S, vNil, env)
		}
		return vNil, nil
	case "unwind":
		v, s := m.eval(arg(e, 0), env)
		if s != nil && (s.kind == "panic" || s.kind == "unspec") {
			return vNil, s
		}
		n := len(m.log)
		_, s2 := m.progn(rest(e, 1), env)
		if s != nil {
			m.note("cleanup-on-" + s.kind)
		} else if len(m.log) > n {
			m.note("cleanup-on-normal")
		}
		if s2 != nil {
			switch s2.kind {
			case "return", "throw", "go":
				m.note("exit-from-cleanup")
				return m.raise("control", nil)
			}
			if s2.kind == "cont" {
				return vNil, m.dead("a cleanup form continues a condition")
			}
			if s2.kind == "err" {
				m.note("error-in-cleanup")
			}
			return vNil, s2
		}
		return v, s
	case "dynlet":
		old := map[string]*V{}
		restore := func() {
			for k, p := range old {
				if p == nil {
					delete(m.dyn, k)
				} else {
					m.dyn[k] = *p
				}
			}
		}
		for i, n := range e.L {
			v, s := m.eval(arg(e, i), env)
			if s != nil {
				restore()
				return vNil, s
			}
			if p, ok := m.dyn[n]; ok {
				p := p
				old[n] = &p
			} else {
				old[n] = nil
			}
			m.dyn[n] = v
		}
		v, s := m.progn(rest(e, len(e.L)), env)
		restore()
		return v, s
	case "dyn":
		if v, ok := m.dyn[e.S]; ok {
			return v, nil
		}
		return m.late("undefvar", "undef:"+e.S)
	case "setdyn":
		v, s := m.eval(arg(e, 0), env)
		if s != nil {
			return vNil, s
		}
		m.dyn[e.S] = v
		return vInt(0), nil
	case "handler":
		m.ids++
		h := &hnd{m.ids, e.L[0], arg(e, 0), env, m.h}
		m.h = h
		v, s := m.progn(rest(e, 1), env)
		if s == nil || s.kind != "err" || s.e.informed[h.id] {
			m.h = h.outer
			return v, s
		}
		m.h = h
		v, s = m.callHandler(s.e, nil)
		m.h = h.outer
		return v, s
	case "ignore":
		old := m.h
		m.h = nil
		v, s := m.progn(e.A, env)
		m.h = old
		if s != nil && s.kind == "err" {
			m.note("ignored")
			return vNil, nil
		}
		return v, s
	case "contif":
		if m.ek.n > 0 {
			v := vInt(7)
			if m.ek.n == 2 {
				v = V{k: 'l', l: []V{vInt(7)}}
			}
			m.ek = vInt(0)
			return m.resume(env, e.S, v)
		}
		return vNil, nil
	case "cont":
		if c := m.lookup(env, e.S); c == nil || c.v.k != 'c' {
			return vNil, m.dead("shrunk")
		}
		v, s := m.eval(arg(e, 0), env)
		if s != nil {
			return vNil, s
		}
		if e.N == 1 {
			v = V{k: 'l', l: []V{v}}
		}
		return m.resume(env, e.S, v)
	case "err":
		return m.raise(fmt.Sprintf("text:E%d", e.N), nil)
	case "cerr":
		m.ek = vInt(1)
		return m.raise(fmt.Sprintf("text:E%d", e.N), anyValue)
	case "cardom":
		m.ek = vInt(2)
		v, s := m.raise("dom", func(v V) bool { return v.k == 'l' })
		if s != nil {
			return vNil, s
		}
		return v.l[0], nil
	case "undefvar":
		return m.late("undefvar", fmt.Sprintf("undef:novar%d", e.N))
	case "undeffn":
		return m.late("undeffn", fmt.Sprintf("undef:nofn%d", e.N))
	case "call", "rcall":
		if f := m.local(env, e.S); f != nil {
			v, s := m.eval(arg(e, 0), env)
			if s != nil {
				return vNil, s
			}
			return m.eval(f.body, bind(f.env, f.param, v))
		}
		f := m.fns[e.S]
		if f == nil {
			return m.late("undeffn", "undef:"+e.S)
		}
		v, s := m.eval(arg(e, 0), env)
		if s != nil {
			return vNil, s
		}
		switch f.Kind {
		case "rec":
			return m.rec(f, e.N, v)
		case "openrec":
			return m.openrec(f, e.N, v)
		case "tailrec":
			for n := e.N; n > 0; n-- {
				fe := bind(bind(nil, "n", vInt(n)), "x", v)
				if _, s := m.eval(f.Body, fe); s != nil {
					return vNil, s
				}
				if v, s = m.eval(f.Arg, fe); s != nil {
					return vNil, s
				}
			}
			return v, nil
		}
		return m.eval(f.Body, bind(nil, "x", v))
	case "funcall", "apply":
		v, s := m.eval(arg(e, 0), env)
		if s != nil {
			return vNil, s
		}
		return m.progn(rest(e, 1), bind(env, e.L[0], v))
	case "mapcar":
		out := V{k: 'l'}
		for i := 1; i <= e.N; i++ {
			v, s := m.progn(e.A, bind(env, e.L[0], vInt(i)))
			if s != nil {
				return vNil, s
			}
			out.l = append(out.l, v)
		}
		return out, nil
	case "labels", "flet":
		f := &mfn{param: e.L[0], body: arg(e, 0), env: env}
		inner := &menv{up: env, name: e.S, fn: f}
		if e.K == "labels" {
			f.env = inner
		}
		return m.progn(rest(e, 1), inner)
	case "exit", "quit":
		return vNil, &sig{kind: "quit"}
	case "abort":
		return vNil, &sig{kind: "abort"}
	case "winput":
		m.in = append(m.in, []string{e.S + "1", e.S + "2"})
		v, s := m.progn(e.A, env)
		m.in = m.in[:len(m.in)-1]
		return v, s
	case "readline":
		return m.readline()
	case "wopen", "wcreate":
		return m.withOpen(e.S, e.K == "wcreate", func(i int) (V, *sig) {
			return m.progn(e.A, bind(env, e.L[0], V{k: 'f', n: i}))
		})
	case "sopen":
		i, ok := m.fs.openStream(e.S, e.N == 1)
		if !ok {
			m.note("can-not-open")
			return m.late("io", "io")
		}
		return m.progn(e.A, bind(env, e.L[0], V{k: 'f', n: i}))
	case "sread":
		s := m.stream(env, e.S, false)
		if s == nil {
			return vNil, m.dead("not readable")
		}
		if m.fs.fault("read", s.file) {
			m.note("read-fails")
			return m.late("io", "io")
		}
		if s.pos >= m.fs.lines[s.file] {
			return V{k: 's', s: "eof"}, nil
		}
		s.pos++
		return V{k: 'q', s: fmt.Sprintf("%s%d", s.file[1:], s.pos)}, nil
	case "swrite":
		s := m.stream(env, e.S, true)
		if s == nil {
			return vNil, m.dead("not writable")
		}
		s.buf++
		return vInt(0), nil
	case "sclose":
		c := m.lookup(env, e.S)
		if c == nil || c.v.k != 'f' {
			return vNil, m.dead("shrunk")
		}
		if !m.fs.streams[c.v.n].open {
			if e.N == 1 {
				return vNil, m.dead("closed twice")
			}
			m.note("closed-twice")
			return vInt(0), nil
		}
		m.note("closed")
		if !m.fs.closeStream(c.v.n) && e.N == 1 {
			m.note("close-fails")
			return m.late("io", "io")
		}
		return vInt(0), nil
	case "probe":
		if _, ok := m.fs.lines[e.S]; ok {
			return V{k: 't'}, nil
		}
		return vNil, nil
	}
	return vNil, m.dead("unknown " + e.K)
}

func (m *model) rec(f *Fn, n int, x V) (V, *sig) {
	env := bind(bind(nil, "n", vInt(n)), "x", x)
	if n == 0 {
		return x, nil
	}
	a, s := m.eval(f.Arg, env)
	if s != nil {
		return vNil, s
	}
	y, s := m.rec(f, n-1, a)
	if s != nil {
		return vNil, s
	}
	return m.eval(f.Body, bind(env, "y", y))
}

func (m *model) openrec(f *Fn, n int, x V) (V, *sig) {
	if n == 0 {
		return x, nil
	}
	return m.withOpen("f1", false, func(i int) (V, *sig) {
		env := bind(bind(nil, "n", vInt(n)), "x", x)
		if _, s := m.eval(f.Body, env); s != nil {
			return vNil, s
		}
		a, s := m.eval(f.Arg, env)
		if s != nil {
			return vNil, s
		}
		return m.openrec(f, n-1, a)
	})
}

func (m *model) withOpen(file string, out bool, body func(i int) (V, *sig)) (V, *sig) {
	i, ok := m.fs.openStream(file, out)
	if !ok {
		m.note("can-not-open")
		return m.late("io", "io")
	}
	v, s := body(i)
	if s != nil && s.kind == "unspec" {
		return vNil, s
	}
	ok = m.fs.closeStream(i)
	if s != nil {
		m.note("left-by-" + s.kind)
	}
	if !ok && out && (s == nil || (s.kind != "err" && s.kind != "abort" && s.kind != "panic")) {
		m.note("close-fails")
		return m.late("io", "io")
	}
	return v, s
}

// exit leaves for the innermost active destination, or signals a control error.
func (m *model) exit(kind byte, name string, v V, env *menv) (V, *sig) {
	a := m.find(kind, name)
	if a == nil {
		m.note("no-destination")
		return m.raise("control", nil)
	}
	if kind != 'c' && lexical(env, kind, name) != a.id {
		return vNil, m.dead("lexical and dynamic destination differ")
	}
	k := map[byte]string{'b': "return", 'c': "throw", 'g': "go"}[kind]
	return vNil, &sig{kind: k, name: name, id: a.id, v: v}
}

// outcome is the final result as text comparable with that of the interpreter.
func (m *model) outcome(v V, s *sig) string {
	if m.unspec != "" {
		return "unspecified"
	}
	if s == nil {
		return "value " + v.String()
	}
	switch s.kind {
	case "err":
		return "error " + s.e.class
	case "quit", "abort", "panic":
		return s.kind
	}
	return "unexpected " + s.kind
}

// ---- the interpreter's side ----

var (
	errHost   = errors.New("host function failed")
	hostPanic = "host function panics"
)

// hostSide is what the host functions of the run under way do.
type hostSide struct {
	calls  int
	faults map[int]string
	log    []string
	ticks  []uint64
	cancel func()
	hook   func(call int, k int, v gmnlisp.Node)
	fired  map[string]int
	suffix string        // of global names
	note   func() string // added to the record of every call
}

var host *hostSide

// taskHosts are the host sides of simulated tasks, if there are any.
var taskHosts []*hostSide

// hostNow is the host side of the running task.
//
//go:norace
func hostNow() *hostSide {
	if taskHosts != nil {
		if t := simrt.TaskID(); t >= 0 && t < len(taskHosts) {
			return taskHosts[t]
		}
	}
	return host
}

func (h *hostSide) call(ctx context.Context, w *gmnlisp.World, k int, v gmnlisp.Node) (gmnlisp.Node, error) {
	h.calls++
	line := fmt.Sprintf("h%d:%s", k, valueText(v))
	if h.note != nil {
		line += h.note()
	}
	h.log = append(h.log, line)
	h.ticks = append(h.ticks, simrt.Ticks())
	if h.hook != nil {
		h.hook(h.calls, k, v)
	}
	f := h.faults[h.calls]
	if f != "" && h.fired != nil {
		h.fired["host-"+f]++
	}
	switch f {
	case "err":
		return nil, errHost
	case "dom":
		if e := w.Set(gmnlisp.NewSymbol("ek"+h.suffix), gmnlisp.Integer(3)); e != nil {
			return nil, e
		}
		return gmnlisp.ExpectClass[gmnlisp.Integer](ctx, w, gmnlisp.String("text"))
	case "panic":
		panic(hostPanic)
	case "cancel":
		if h.cancel != nil {
			h.cancel()
		}
	}
	return v, nil
}

func init() {
	for i := 0; i < maxHosts; i++ {
		i := i
		name := gmnlisp.NewSymbol(fmt.Sprintf("h%d", i))
		switch i % 3 {
		case 0:
			gmnlisp.Export(name, &gmnlisp.Function{C: 1, F: func(ctx context.Context, w *gmnlisp.World, a []gmnlisp.Node) (gmnlisp.Node, error) {
				return hostNow().call(ctx, w, i, a[0])
			}})
		case 1:
			gmnlisp.Export(name, gmnlisp.Function1(func(ctx context.Context, w *gmnlisp.World, a gmnlisp.Node) (gmnlisp.Node, error) {
				return hostNow().call(ctx, w, i, a)
			}))
		case 2:
			gmnlisp.Export(name, gmnlisp.SpecialF(func(ctx context.Context, w *gmnlisp.World, n gmnlisp.Node) (gmnlisp.Node, error) {
				v, _, err := w.ShiftAndEvalCar(ctx, n)
				if err != nil {
					return nil, err
				}
				return hostNow().call(ctx, w, i, v)
			}))
		}
	}
}

const preamble = `(defglobal ek 0) (defdynamic d1 100) (defdynamic d2 200) (defglobal tgl (list 1)) (defglobal tgm (list 1)) (defglobal tgh (make-hash-table)) (defglobal tgs (create-string-input-stream "x"))`

// errText classifies an error of the interpreter like the model does.
func errText(err error) string {
	var de *gmnlisp.DomainError
	var ce gmnlisp.ControlError
	var eos gmnlisp.EndOfStream
	var en syscall.Errno
	switch {
	case errors.As(err, &eos):
		return "error eof"
	case errors.Is(err, gmnlisp.ErrQuit):
		return "quit"
	case errors.Is(err, gmnlisp.ErrAbort):
		return "abort"
	case errors.Is(err, context.Canceled), errors.Is(err, context.DeadlineExceeded):
		return "cancelled"
	case errors.Is(err, errHost):
		return "error host"
	case errors.As(err, &en):
		return "error io"
	case errors.As(err, &de):
		return "error dom"
	case errors.As(err, &ce):
		return "error control"
	}
	t := err.Error()
	if i := strings.IndexByte(t, '\n'); i >= 0 {
		t = t[:i]
	}
	if strings.HasPrefix(t, "undefined ") {
		if i := strings.LastIndex(t, ": "); i >= 0 {
			return "error undef:" + strings.ToLower(strings.Trim(t[i+2:], "\""))
		}
	}
	if strings.HasPrefix(t, "continue-condition failed") {
		t = "continue-condition failed"
	}
	return "error text:" + t
}

// evalText evaluates code and describes the outcome.
func evalText(w *gmnlisp.World, ctx context.Context, code string) string {
	return evalBy(func() (gmnlisp.Node, error) { return w.Interpret(ctx, code) })
}

func evalBy(f func() (gmnlisp.Node, error)) string {
	var v gmnlisp.Node
	var err error
	p, stack := guard(func() { v, err = f() })
	switch {
	case p != nil:
		if s, ok := p.(string); ok && s == hostPanic {
			return "panic"
		}
		if _, ok := p.(simrt.Stop); ok {
			return "no end"
		}
		return "crash: " + panicText(p) + " at " + frames(stack)
	case err != nil:
		return errText(err)
	}
	return "value " + valueText(v)
}

// lateModes are the ways in which plain errors may reach handlers.
func lateModes() []map[string]bool {
	var r []map[string]bool
	kinds := []string{"undefvar", "undeffn", "host", "io"}
	for i := 0; i < 16; i++ {
		m := map[string]bool{}
		for j, k := range kinds {
			if i>>j&1 == 1 {
				m[k] = true
			}
		}
		r = append(r, m)
	}
	return r
}

var allModes = lateModes()
