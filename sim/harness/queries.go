package main

import (
	"context"
	"fmt"
	"path"
	"sort"
	"strconv"
	"strings"

	gmnlisp "github.com/hymkor/gmnlisp"
	_ "github.com/hymkor/gmnlisp/pkg/wildcard"
	"github.com/hymkor/gmnlisp/zz_verif/simos"
)

// Check C21: probe-file, file-length and wildcard tell what the simulated disk
// holds when they are called, while it changes between the calls.

type QOp struct {
	K   string `json:"k"` // probe length wildcard, or a change: put del dir sparse append (outside), lput lappend (by the program), open close (a stream of the program)
	F   string `json:"f,omitempty"`
	N   int64  `json:"n,omitempty"`
	Via int    `json:"v,omitempty"`  // how the function is called
	Arg string `json:"a,omitempty"`  // a wrong argument
	To  string `json:"to,omitempty"` // for links
}

type QPlan struct {
	Evals  [][]*QOp      `json:"evals"`
	Faults []simos.Fault `json:"fs,omitempty"`
	Map    uint64        `json:"map,omitempty"`
}

var qNames = []string{"f1", "f2", "f3", "f10", "a b", "あ", "d/f1", "d/x", "d", "e", "e/y", "./f1", "d/../f2", "/w/f1", "/w/d/x", "none", "f1/f1", "/w", "/", ".", "F1", ".h", "f1.txt", "d/F1", "[x]", "nl\ny", qLong, "d/s", "d/s/deep", "..", "d/", "d/.", "l1", "l2", "l1/f1", "l2/x", "d/l", "f1/", "l1/", "l2/..", "none/../f1", "d/l/..", "f1 ", " f1", "\tf1", "f1\n", "f1\r", "none ", "\"f1\"", "f1\x00", "~", "~/f1", "$HOME", "file:f1", "f*", "f\\1", "f2.", "lead ", " lead", "lead", "lead ", "\u3000f1", "F2", "d\\f1"}
var qFiles = []string{"f1", "f2", "f3", "f10", "a b", "あ", "d/f1", "d/x", "e/y", "f1", "f2", "d/f1", "d/x", "F1", ".h", "f1.txt", "f1~", "d/F1", "[x]", "nl\ny", "-x", "あ1", qLong, "lead ", "lead ", " lead", "f*"}
var qLong = strings.Repeat("long", 30)
var qPatterns = []string{"*", "f*", "f?", "f1", "f[12]", "f[2-9]", "f[^1]", "d/*", "*/*", "*/f1", "d/f*", "[de]/?", "/w/*", "/w/f?", "/w/*/x", "no*", "f1*", "?", "*1", "*1*", "f\\1", "none", "* *", "あ", "d", "**", ".*", "*.txt", "F*", "f1~", "d/?1", "\\[x]", "*/*/*", "d/s/*", "-*", "あ*", "[fF]1", "nl?y", "long*", "[", "f[", "[]a]", "?????", "./*", "./f1", "d/../f?", "l*", "l1/*", "l?/f*", "*/l", "l1", "l2", "d//f*", "../w/f1", "l1/x", "none/../*", "d/./*", "l*/*"}
var qLinks = []string{"l1", "l1", "l2", "d/l", "f3"}
var qTargets = []string{"d", "f1", "f2", "none", "/w/d/x", "l1", "l2", "d/f1", "..", "../f1", ".", "d/l", "d/none", "f1/", "/w/e"}
var qBits = []int64{8, 8, 8, 1, 16, 32, 64, 7, 3, 4, 9, 12, 24, 100, 1000000, 0, -1, -8, 1 << 40, 2, 5}

func queryGen(r *Rand, idx int, tier string) *QPlan {
	p := &QPlan{Map: r.U64() >> 12}
	n := r.Range(3, 16)
	if tier == "thorough" && r.P(20) {
		n = r.Range(16, 60)
	}
	var cur []*QOp
	focus := qFiles[r.N(len(qFiles))]
	file := func() string {
		if r.P(50) {
			return focus
		}
		return qFiles[r.N(len(qFiles))]
	}
	if r.P(4) { // many names
		for i := r.Range(20, 300); i > 0; i-- {
			cur = append(cur, &QOp{K: "put", F: fmt.Sprintf(r.Str("m%d", "d/m%d", "M%d"), i), N: int64(r.N(5))})
		}
		cur = append(cur, &QOp{K: "wildcard", F: r.Str("m*", "[mM]*", "d/m*", "*/*", "m1?", "*")})
	}
	for i := 0; i < n; i++ {
		o := &QOp{Via: r.N(6)}
		switch r.W(20, 26, 16, 32, 6) {
		case 0:
			o.K, o.F = "probe", r.Str(qNames...)
		case 1:
			o.K, o.F, o.N = "length", file(), qBits[r.N(len(qBits))]
			if r.P(15) {
				o.F = "none"
			}
			if r.P(15) {
				o.F = r.Str("./f1", "/w/f1", "d/../f2", "f1/f1", "d/none", "l1", "l2", "l1/f1", "d/l", "l1", "l2", "f1/", "f3")
			}
		case 2:
			o.K, o.F = "wildcard", r.Str(qPatterns...)
		case 3:
			o.F = file()
			o.N = int64(r.N(40))
			if r.P(10) {
				o.N = int64(4096*r.Range(1, 3) + r.N(3) - 1)
			}
			switch r.W(5, 4, 3, 2, 3, 5, 3, 3, 3, 4) {
			case 0:
				o.K = "put"
			case 1:
				o.K = "del"
			case 2:
				o.K, o.F = "dir", r.Str("d", "e", "d/s", "g")
			case 3:
				o.K, o.N = "sparse", 1<<uint(r.Range(20, 52))+int64(r.N(100))
			case 4:
				o.K = "append"
			case 5:
				o.K = "lput"
			case 6:
				o.K = "lappend"
			case 7:
				o.K, o.Via = "open", 0
			case 8:
				o.K, o.Via = "close", 0
			case 9:
				o.K, o.F, o.To = "link", r.Str(qLinks...), r.Str(qTargets...)
				if r.P(20) {
					o.K = "del"
				}
			}
		case 4:
			o.K = r.Str("probe", "length", "wildcard")
			o.Arg = r.Str("5", "'sym", "nil", "#\\a", "'(1)")
			o.F, o.N = "f1", 8
			if o.K == "length" && r.P(60) {
				o.Arg = r.Str("\"8\"", "'b", "1.5", "nil", "(list 8)")
				o.N = -99
			}
		}
		cur = append(cur, o)
		if r.P(20) {
			p.Evals = append(p.Evals, cur)
			cur = nil
		}
	}
	if len(cur) > 0 {
		p.Evals = append(p.Evals, cur)
	}
	for i, k := 0, r.W(6, 3, 1); i < k; i++ {
		f := simos.Fault{Op: "stat", Nth: 1 + r.N(6), Err: r.Str("EACCES", "EIO", "ENOENT"), Keep: r.P(20)}
		if r.P(40) {
			f.Path = focus
		}
		p.Faults = append(p.Faults, f)
	}
	return p
}

// form renders an operation; id identifies it in the host calls.
func (o *QOp) form(id int) string {
	q := ""
	arg := lispString(o.F)
	if o.Arg != "" && o.N != -99 {
		arg = o.Arg
	}
	bits := strconv.FormatInt(o.N, 10)
	if o.N == -99 {
		bits = o.Arg
	}
	fn, args := "probe-file", arg
	switch o.K {
	case "length":
		fn, args = "file-length", arg+" "+bits
	case "wildcard":
		fn = "wildcard"
	case "put", "del", "dir", "sparse", "append", "link":
		return fmt.Sprintf("(h1 %d)", id)
	case "lput":
		return fmt.Sprintf("(ignore-errors (with-open-output-file (o %s) (format o %s)))(h2 %d)", lispString(o.F), lispString(pattern(int(o.N))), id)
	case "lappend":
		return fmt.Sprintf("(if qs (ignore-errors (format qs %s)))(h2 %d)", lispString(pattern(int(o.N))), id)
	case "open":
		return fmt.Sprintf("(if (null qs) (setq qs (ignore-errors (open-output-file %s))))(h2 %d)", lispString(o.F), id)
	case "close":
		return fmt.Sprintf("(if qs (progn (ignore-errors (close qs)) (setq qs nil)))(h2 %d)", id)
	}
	switch o.Via {
	case 1:
		q = fmt.Sprintf("(funcall #'%s %s)", fn, args)
	case 2:
		q = fmt.Sprintf("(apply #'%s (list %s))", fn, args)
	case 3:
		q = fmt.Sprintf("(let ((f (lambda () (%s %s)))) (funcall f))", fn, args)
	case 4:
		q = fmt.Sprintf("(car (mapcar (lambda (x) (%s x%s)) (list %s)))", fn, strings.TrimPrefix(args, arg), arg)
	default:
		q = fmt.Sprintf("(%s %s)", fn, args)
	}
	return fmt.Sprintf("(h0 (list %d (catch 'q (with-handler (lambda (c) (throw 'q 'failed)) %s))))", id, q)
}

// globMatch is shell matching of one path segment: 1 match, 0 no match, -1 bad pattern.
func globMatch(p, s []rune) int {
	if len(p) == 0 {
		if len(s) == 0 {
			return 1
		}
		return 0
	}
	switch p[0] {
	case '*':
		for i := 0; i <= len(s); i++ {
			if m := globMatch(p[1:], s[i:]); m != 0 {
				return m
			}
		}
		return 0
	case '?':
		if len(s) == 0 {
			return 0
		}
		return globMatch(p[1:], s[1:])
	case '\\':
		p = p[1:]
	case '[':
		if len(s) == 0 {
			return 0
		}
		i, neg, hit := 1, false, false
		if i < len(p) && p[i] == '^' {
			neg = true
			i++
		}
		for i < len(p) && p[i] != ']' {
			lo, hi := p[i], p[i]
			if i+2 < len(p) && p[i+1] == '-' {
				hi = p[i+2]
				i += 2
			}
			hit = hit || (lo <= s[0] && s[0] <= hi)
			i++
		}
		if hit == neg {
			return 0
		}
		return globMatch(p[i+1:], s[1:])
	}
	if len(s) > 0 && len(p) > 0 && s[0] == p[0] {
		return globMatch(p[1:], s[1:])
	}
	return 0
}

// globWant lists what a pattern matches on the simulated disk.
func globWant(pattern string) (names []string, bad bool) {
	if strings.Contains(pattern, "[]") {
		return nil, true
	}
	if i := strings.LastIndexByte(pattern, '['); i >= 0 && !strings.Contains(pattern[i:], "]") {
		return nil, true
	}
	if !strings.ContainsAny(pattern, `*?[\\`) {
		if simos.Exists(pattern) {
			names = append(names, pattern)
		}
		return names, false
	}
	// the directories before the first segment with a special character
	segs := strings.Split(pattern, "/")
	n := 0
	for n < len(segs)-1 && !strings.ContainsAny(segs[n], `*?[\\`) {
		n++
	}
	at := []string{strings.Join(segs[:n], "/")}
	if at[0] == "" && n == 0 {
		at[0] = "."
	}
	for _, seg := range segs[n:] {
		var next []string
		for _, d := range at {
			dir, ok := simos.Leads(d + "/")
			if !ok {
				continue
			}
			for _, e := range simos.Entries() {
				if i := strings.LastIndexByte(e, '/'); e != "/" && (e[:i] == dir || e[:i+1] == dir) && globMatch([]rune(seg), []rune(e[i+1:])) == 1 {
					next = append(next, d+"/"+e[i+1:])
				}
			}
		}
		at = next
	}
	for _, x := range at {
		names = append(names, path.Clean(x))
	}
	sort.Strings(names)
	return names, false
}

func nodeList(v gmnlisp.Node) ([]gmnlisp.Node, bool) {
	var out []gmnlisp.Node
	for gmnlisp.IsSome(v) {
		c, ok := v.(*gmnlisp.Cons)
		if !ok {
			return out, false
		}
		out = append(out, c.Car)
		v = c.Cdr
	}
	return out, true
}

func (p *QPlan) ops() []*QOp {
	var r []*QOp
	for _, e := range p.Evals {
		r = append(r, e...)
	}
	return r
}

// sizeAt tells what a name leads to: its size, -1 for a directory, -2 for nothing.
func sizeAt(name string) int64 {
	if p, ok := simos.Leads(name); ok {
		return simos.SizeOf(p)
	}
	return -2
}

func queryExec(p *QPlan, r *Run) {
	simos.Reset(nil, -1, nil)
	for i, f := range []string{"f1", "f2", "d/f1"} {
		simos.Put(f, pattern(5*i+3))
	}
	simos.PutDir("d")
	simos.SetFaults(append([]simos.Fault{}, p.Faults...))
	ops := p.ops()
	for i, o := range ops {
		intern("qs failed " + o.form(i))
	}
	tree, handles, fired := simos.Tree(), 0, 0
	changed := map[string]bool{}
	seen := 0
	hit := false
	host = &hostSide{faults: map[int]string{}, fired: r.Faults}
	settle := func() { tree, handles, fired = simos.Tree(), simos.OpenHandles(), fsFired() }
	host.hook = func(call, k int, v gmnlisp.Node) {
		id := -1
		var res gmnlisp.Node
		if k == 0 {
			l, ok := nodeList(v)
			if !ok || len(l) != 2 {
				r.Fail("result", "the result of a query can not be put in a list: %s", valueText(v))
				return
			}
			n, _ := l[0].(gmnlisp.Integer)
			id, res = int(n), l[1]
		} else if n, ok := v.(gmnlisp.Integer); ok {
			id = int(n)
		}
		if id != seen || id >= len(ops) {
			r.Fail("order", "operation %d was performed when operation %d was due", id, seen)
			return
		}
		seen++
		o := ops[id]
		if k != 0 {
			if k == 1 && (path.Dir(o.F) == "." || simos.SizeOf(path.Dir(o.F)) == -1) {
				switch o.K {
				case "put":
					simos.Put(o.F, pattern(int(o.N)))
				case "del":
					simos.Del(o.F)
				case "link":
					if simos.SizeOf(o.F) != -1 {
						simos.PutLink(o.F, o.To)
					}
				case "dir":
					simos.PutDir(o.F)
				case "sparse":
					simos.Put(o.F, "x")
					simos.PutSparse(o.F, o.N)
				case "append":
					if simos.SizeOf(o.F) == -1 {
						break
					}
					s, _ := simos.Get(o.F)
					simos.Put(o.F, s+pattern(int(o.N)))
				}
			}
			changed[simos.Abs(o.F)] = true
			settle()
			return
		}
		failed := fsFired() > fired
		text := valueText(res)
		if simos.Tree() != tree {
			r.Fail("effect", "operation %d: (%s) changed the file system", id, o.K)
		}
		if simos.OpenHandles() != handles {
			r.Fail("handle", "operation %d: (%s) left %d file(s) open", id, o.K, simos.OpenHandles()-handles)
		}
		want := ""
		switch {
		case o.Arg != "":
			want = "failed"
		case o.K == "probe":
			want = "nil"
			if sizeAt(o.F) >= -1 && !failed {
				want = "t"
			}
		case o.K == "length" && o.N < 1:
			want = "failed"
		case o.K == "length":
			want = "nil"
			if n := sizeAt(o.F); n >= 0 && !failed {
				want = strconv.FormatInt(n*8/o.N, 10)
			} else if n == -1 { // the size of a directory means nothing
				want = text
			}
		case o.K == "wildcard":
			names, bad := globWant(o.F)
			if bad {
				want = "failed"
				break
			}
			l, ok := nodeList(res)
			var got []string
			for _, x := range l {
				s, isS := x.(gmnlisp.String)
				ok = ok && isS
				if strings.ContainsAny(o.F, `*?[\\`) {
					got = append(got, path.Clean(s.String()))
				} else {
					got = append(got, s.String())
				}
			}
			sort.Strings(got)
			if failed {
				text = want
				break
			}
			if !ok || strings.Join(got, "\n") != strings.Join(names, "\n") {
				r.Fail("wildcard", "operation %d: (wildcard %q) returned %s, the file system has %q", id, o.F, text, names)
			}
			text = want
			if len(names) > 0 {
				r.Probe("wildcard-match")
			}
		}
		if text != want {
			r.Fail(o.K, "operation %d: (%s %q %d %s) returned %s instead of %s (size there: %d)", id, o.K, o.F, o.N, o.Arg, text, want, sizeAt(o.F))
		}
		if failed {
			r.Probe("failed-query")
			hit = true
		}
		if changed[simos.Abs(o.F)] || (o.K == "wildcard" && len(changed) > 0) {
			r.Probe("query-after-change")
			hit = true
		}
		settle()
	}
	settle()
	begin(0, p.Map)
	defer r.end()
	w := gmnlisp.New()
	if s := evalText(w, context.Background(), "(defglobal qs nil) 0"); s != "value 0" {
		r.Fail("definitions", "%s", s)
		return
	}
	id := 0
	for _, e := range p.Evals {
		var b strings.Builder
		for _, o := range e {
			b.WriteString(o.form(id))
			b.WriteByte('\n')
			id++
		}
		b.WriteString("0")
		got := evalText(w, context.Background(), b.String())
		r.Evals++
		r.Log("%s", got)
		if got != "value 0" {
			r.Fail("outcome", "the evaluation ended with %s", got)
			break
		}
		if seen != id {
			r.Fail("order", "%d of %d operations were performed", seen, id)
			break
		}
	}
	for _, l := range host.log {
		r.Log("%s", l)
	}
	for _, e := range simos.Log() {
		r.Log("fs %s %s %s", e.Op, e.Path, e.Err)
	}
	if hit {
		r.Key = hashOf(jsonText(p))
		r.Inter = hashOf(strings.Join(host.log, " "))
	}
}

func queryShrink(p *QPlan) []*QPlan {
	var out []*QPlan
	for i := range p.Faults {
		q := *p
		q.Faults = without(p.Faults, i)
		out = append(out, &q)
	}
	for i := range p.Evals {
		q := *p
		q.Evals = without(p.Evals, i)
		out = append(out, &q)
		for j := range p.Evals[i] {
			q := *p
			q.Evals = append([][]*QOp{}, p.Evals...)
			q.Evals[i] = without(p.Evals[i], j)
			out = append(out, &q)
			if p.Evals[i][j].Via > 0 {
				x := *p.Evals[i][j]
				x.Via = 0
				q := *p
				q.Evals = append([][]*QOp{}, p.Evals...)
				q.Evals[i] = append([]*QOp{}, p.Evals[i]...)
				q.Evals[i][j] = &x
				out = append(out, &q)
			}
		}
	}
	return out
}

func queryExplain(p *QPlan) string {
	var b strings.Builder
	b.WriteString("; files at first: f1 (3 bytes), f2 (8 bytes), d/f1 (13 bytes); (h0 (list k v)) reports query k, (h1 k) performs change k\n")
	id := 0
	for _, e := range p.Evals {
		b.WriteString("; evaluation\n")
		for _, o := range e {
			fmt.Fprintf(&b, "%s ; %s %s %d %s\n", o.form(id), o.K, o.F, o.N, o.To)
			id++
		}
	}
	return b.String() + fsFaultText(p.Faults)
}

func init() {
	register(Check{ID: "C21", Quick: 30000, Thor: 1200000,
		Rule: "a query that meets a failing file-system call or follows a change of what it asks about; distinct by operations and fault placement",
		Real: realAll, Stub: stubAll}, queryGen, queryExec, queryShrink, queryExplain)
}
