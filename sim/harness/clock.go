package main

import (
	"context"
	"fmt"
	"math/big"
	"strings"
	"time"

	gmnlisp "github.com/hymkor/gmnlisp"
	"github.com/hymkor/gmnlisp/zz_verif/simos"
	"github.com/hymkor/gmnlisp/zz_verif/simrt"
	"github.com/hymkor/gmnlisp/zz_verif/simtime"
)

// Check C15: the time functions against a simulated clock that runs at any
// speed and jumps. The wall clock and the monotonic clock are separate.

type ClockJump struct {
	At  uint64 `json:"at,omitempty"` // at this step (of the run or of a reading), or when (h2 i) is called
	In  int    `json:"in,omitempty"` // the reading
	Sec int64  `json:"sec"`
	Ns  int64  `json:"ns,omitempty"`
	By  bool   `json:"by,omitempty"` // time goes by (sleeping) instead of a jump
	Rel bool   `json:"rel,omitempty"`
}

type ClockOp struct {
	K   string `json:"k"` // u r run unit jump abort
	N   int    `json:"n,omitempty"`
	Via int    `json:"via,omitempty"`
	W   int    `json:"w,omitempty"`
	Cut int    `json:"cut,omitempty"`
}

type ClockPlan struct {
	Sec   int64        `json:"sec"`
	Ns    int64        `json:"ns"`
	Tick  int64        `json:"tick"`
	Zone  int          `json:"zone"`
	Jumps []*ClockJump `json:"jumps,omitempty"`
	Evals [][]*ClockOp `json:"evals"`
}

const y1900 = -2208988800

// The clock values around which something could change.
var clockEdges = []int64{
	y1900, -1, 0, 946684800, 1_000_000_000, 1_700_000_000, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32,
	1<<31 + y1900, 1<<32 + y1900, // 1968, 2036: 32 bits from 1900
	951782400, 1709164800, 4107542400, // leap days and none
	7014383236,         // 2192: nanoseconds from 1900 in 63 bits
	9223372036,         // 2262: nanoseconds from 1970 in 63 bits
	5907646592,         // 2157: no monotonic reading any more
	1 << 53 / 1000000,  // microseconds as floating-point numbers
	253402300800,       // 10000
	1 << 33, 1<<33 - 1, // and beyond
	1262304000, 1483228800, 1483228799, // 2010, 2017: new year after a leap second
}

var clockZones = []*time.Location{
	time.UTC,
	time.FixedZone("A", 9*3600),
	time.FixedZone("B", -11*3600-1800),
	time.FixedZone("C", 5*3600+45*60),
	time.FixedZone("D", 14*3600),
	time.FixedZone("E", -4*3600-27*60-40),
}

func clockGen(r *Rand, idx int, tier string) *ClockPlan {
	p := &ClockPlan{Tick: []int64{1, 1000, 1_000_000, 37_000_003, 499_999_999}[r.W(3, 5, 4, 3, 1)], Zone: r.N(len(clockZones))}
	instant := func() (int64, int64) {
		s := clockEdges[r.N(len(clockEdges))]
		switch r.N(6) {
		case 0:
			s += int64(r.Range(-3, 3))
		case 1:
			s += int64(r.Range(-90000, 90000))
		case 2:
			s = y1900 + int64(r.U64()%(13_000_000_000))
		case 3:
			s = 1_600_000_000 + int64(r.U64()%1_000_000_000)
		}
		if s < y1900 {
			s = y1900
		}
		ns := int64(0)
		switch r.N(5) {
		case 0:
			ns = 999_999_999
		case 1:
			ns = 1_000_000_000 - int64(1+r.N(2_000_000))
		case 2:
			ns = int64(r.N(1_000_000_000))
		case 3:
			ns = int64(r.N(3))
		}
		return s, ns
	}
	p.Sec, p.Ns = instant()
	n := r.Range(1, 4)
	k := 6
	if tier == "thorough" {
		n, k = r.Range(1, 8), 12
	}
	for i := r.W(2, 4, 3, 2, 1); i > 0; i-- {
		j := &ClockJump{}
		switch r.N(4) {
		case 0, 1:
			j.Sec, j.Ns = instant()
		case 2: // the clock is set back or forth a bit
			j.Rel = true
			j.Sec, j.Ns = int64(r.Range(-4, 4)), int64(r.Range(-999_999_999, 999_999_999))
			if r.P(30) {
				j.Sec *= 3600
			}
		default:
			j.By = true
			j.Sec, j.Ns = int64(r.N(3)*r.N(5000)), int64(r.N(1_000_000_000))
			if r.P(10) {
				j.Sec *= 100000
			}
		}
		if r.P(40) && !j.By {
			j.At = uint64(1 + r.N(150<<uint(r.N(5))))
			if r.P(60) {
				j.At, j.In = uint64(1+r.N(26)), 1+r.N(8)
			}
		}
		p.Jumps = append(p.Jumps, j)
	}
	for i := 0; i < n; i++ {
		var ev []*ClockOp
		w := r.N(3)
		for j := r.Range(1, k); j > 0; j-- {
			o := &ClockOp{K: r.Str("u", "u", "u", "r", "r", "run", "unit"), Via: r.N(len(clockVias)), W: w}
			if len(p.Jumps) > 0 && r.P(35) {
				o = &ClockOp{K: "jump", N: r.N(len(p.Jumps)), W: w}
			}
			ev = append(ev, o)
		}
		if r.P(15) {
			ev[0].Cut = 1 + r.N(400)
		}
		p.Evals = append(p.Evals, ev)
	}
	return p
}

// %P is a form that reports one value, %F the name of the function.
var clockVias = []string{
	"%P",
	"(h0 (list (h1 %I) (funcall #'%F)))",
	"(h0 (list (h1 %I) (apply #'%F nil)))",
	"((lambda () %P))",
	"(mapcar (lambda (x) %P) '(1 2 3))",
	"(let ((i 0)) (while (< i 3) %P (setq i (+ i 1))))",
	"(dotimes (i 3) %P)",
	"(flet ((now () (%F))) (h0 (list (h1 %I) (now))) (h0 (list (h1 %I) (now))))",
	"(labels ((f (n) (if (> n 0) (progn %P (f (- n 1)))))) (f 4))",
	"(unwind-protect 1 %P)",
	"(catch 'a (unwind-protect (throw 'a 1) %P))",
	"(catch 'a (with-handler (lambda (c) (throw 'a %P)) (error \"x\")))",
	"(with-handler (lambda (c) %P (continue-condition c 0)) (cerror \"go on\" \"x\"))",
	"(ignore-errors (progn %P (error \"x\")))",
	"(progn (defmacro cm () '%P) (cm) (cm))",
	"(progn (defun cf () %P) (cf) (cf))",
	"(progn (defclass <ck> () ((now :initform %P))) (create (class <ck>)) (create (class <ck>)))",
	"(dynamic-let ((d1 (h1 %I))) (h0 (list (dynamic d1) (%F))))",
	"(let* ((k (h1 %I)) (v (%F))) (h0 (list k v)))",
	"(let ((s (create-string-output-stream))) (h0 (list (h1 %I) (convert (progn (format s \"~a\" (%F)) (get-output-stream-string s)) <integer>))))",
	"(block b (tagbody again %P (return-from b 1)))",
	"(progn (defgeneric cg (x)) (defmethod cg ((x <integer>)) %P) (cg 1))",
	"(for ((i 0 (+ i 1))) ((= i 2) nil) %P)",
	"(progn (eval '%P))",
	"(let ((f (let ((v #'%F)) (lambda () (funcall v))))) (h0 (list (h1 %I) (funcall f))))",
}

var clockFuncs = map[string]string{"u": "get-universal-time", "r": "get-internal-real-time", "run": "get-internal-run-time", "unit": "internal-time-units-per-second"}

func (o *ClockOp) form(id int) string {
	if o.K == "jump" {
		return fmt.Sprintf("(h2 %d)", o.N)
	}
	s := strings.ReplaceAll(clockVias[o.Via%len(clockVias)], "%P", "(h0 (list (h1 %I) (%F)))")
	return strings.NewReplacer("%F", clockFuncs[o.K], "%I", fmt.Sprint(id)).Replace(s)
}

// a span of time without a jump, on both clocks
type clockSpan struct{ sec0, ns0, sec1, ns1, mono0, mono1 int64 }

func secNs(sec, ns int64) *big.Int {
	x := new(big.Int).Mul(big.NewInt(sec), big.NewInt(1_000_000_000))
	return x.Add(x, big.NewInt(ns))
}

// offsets is the set of what a counter can have shown when the clock was zero.
type offsets struct {
	lo, hi *big.Rat
	from   string
	bad    string
}

func (o *offsets) meet(lo, hi *big.Rat, what string) {
	if o.bad != "" {
		return
	}
	if o.lo == nil {
		o.lo, o.hi, o.from = lo, hi, what
		return
	}
	if lo.Cmp(o.hi) > 0 || hi.Cmp(o.lo) < 0 {
		o.bad = what + " but " + o.from
		return
	}
	if lo.Cmp(o.lo) > 0 {
		o.lo = lo
	}
	if hi.Cmp(o.hi) < 0 {
		o.hi = hi
	}
}

func clockExec(p *ClockPlan, r *Run) {
	simos.Reset(nil, -1, nil)
	var ops []*ClockOp
	for _, e := range p.Evals {
		ops = append(ops, e...)
	}
	for i, o := range ops {
		intern(o.form(i))
	}
	host = &hostSide{faults: map[int]string{}, fired: r.Faults}
	simtime.Local = clockZones[p.Zone%len(clockZones)]
	defer func() { simtime.Local = time.FixedZone("Local", 5*3600+45*60) }()
	simrt.Start(simrt.Config{Now: 1_700_000_000_000_000_000, TickNs: p.Tick})
	defer r.end()

	var span clockSpan
	var spans []clockSpan
	beg := func() {
		span.sec0, span.ns0 = simrt.Clock()
		span.mono0 = simrt.Mono()
	}
	end := func() {
		span.sec1, span.ns1 = simrt.Clock()
		span.mono1 = simrt.Mono()
		spans = append(spans, span)
	}
	jumped, jumps := false, 0
	jump := func(j *ClockJump) {
		end()
		sec, ns := j.Sec, j.Ns
		if j.Rel {
			s0, n0 := simrt.Clock()
			sec, ns = s0+sec, n0+ns
			if ns < 0 {
				sec, ns = sec-1, ns+1_000_000_000
			}
			if ns >= 1_000_000_000 {
				sec, ns = sec+1, ns-1_000_000_000
			}
			if sec < y1900 {
				sec, ns = y1900, 0
			}
		}
		simrt.SetClock(sec, ns)
		r.Fault("clock-jump")
		r.Log("jump to %d.%09d", sec, ns)
		jumped = true
		jumps++
		beg()
	}
	probing, began := -1, 0
	seen := map[int]int{}
	wall, mono := map[string]*offsets{}, map[string]*offsets{}
	for _, k := range []string{"r", "run"} {
		wall[k], mono[k] = &offsets{}, &offsets{}
	}
	unit := int64(0)
	type reading struct {
		id    int
		v     gmnlisp.Integer
		spans []clockSpan
	}
	var counters []reading
	host.hook = func(call, k int, v gmnlisp.Node) {
		switch k {
		case 1:
			n, _ := v.(gmnlisp.Integer)
			probing, spans = int(n), nil
			beg()
			began++
			for _, j := range p.Jumps {
				if j.In == began {
					j := j
					simrt.At(simrt.Ticks()+j.At, func() { jump(j) })
				}
			}
		case 2:
			n, _ := v.(gmnlisp.Integer)
			j := p.Jumps[int(n)%len(p.Jumps)]
			if j.By {
				simrt.Sleep(j.Sec*1_000_000_000 + j.Ns)
				r.Fault("sleep")
				jumps++
				return
			}
			jump(j)
		case 0:
			end()
			l, ok := nodeList(v)
			if !ok || len(l) != 2 || valueText(l[0]) != fmt.Sprint(probing) {
				r.Fail("order", "reading %s where reading %d was due", valueText(v), probing)
				return
			}
			o := ops[probing]
			n, isInt := l[1].(gmnlisp.Integer)
			if !isInt {
				r.Fail("type", "(%s) returned %s", clockFuncs[o.K], valueText(l[1]))
				return
			}
			seen[probing]++
			r.Log("reading %d: (%s) = %d between %d.%09d and %d.%09d", probing, clockFuncs[o.K], n, spans[0].sec0, spans[0].ns0, span.sec1, span.ns1)
			if jumps > 0 {
				r.Probe("reading-after-jump")
			}
			if len(spans) > 1 {
				r.Probe("jump-while-reading")
			}
			switch o.K {
			case "u":
				ok := false
				for _, s := range spans {
					ok = ok || (int64(n) >= s.sec0-y1900 && int64(n) <= s.sec1-y1900)
				}
				if !ok {
					r.Fail("universal", "(get-universal-time) returned %d while the clock went from %s to %s, %d to %d seconds after 1900", n,
						clockText(spans[0].sec0, spans[0].ns0), clockText(span.sec1, span.ns1), spans[0].sec0-y1900, span.sec1-y1900)
				}
			case "unit":
				if unit == 0 {
					unit = int64(n)
				}
				if int64(n) != unit || n < 1 {
					r.Fail("unit", "(internal-time-units-per-second) returned %d, before that %d", n, unit)
				}
			default:
				counters = append(counters, reading{probing, n, spans})
			}
			probing = -1
		}
	}
	var ws [3]*gmnlisp.World
	bg := context.Background()
	for i := range ws {
		for _, e := range p.Evals {
			if len(e) > 0 && e[0].W%3 == i && ws[i] == nil {
				ws[i] = gmnlisp.New()
				evalText(ws[i], bg, preamble+" 0")
			}
		}
	}
	if ws[0] == nil {
		ws[0] = gmnlisp.New()
	}
	base := simrt.Ticks()
	simrt.SetClock(p.Sec, p.Ns)
	for _, j := range p.Jumps {
		if j.At > 0 && j.In == 0 {
			j := j
			simrt.At(base+j.At, func() { jump(j) })
		}
	}
	id := 0
	for _, e := range p.Evals {
		var b strings.Builder
		first := id
		for _, o := range e {
			b.WriteString(o.form(id))
			b.WriteByte('\n')
			id++
		}
		b.WriteString("0")
		if len(e) == 0 {
			continue
		}
		w := e[0].W % 3
		ctx := bg
		cut := e[0].Cut
		if cut > 0 {
			n := cut
			ctx = &countCtx{bg, &n}
		}
		got := evalText(ws[w], ctx, b.String())
		r.Evals++
		r.Log("%s", got)
		if cut > 0 && ctx.Err() != nil {
			r.Fault("cancel")
			probing = -1
			continue
		}
		if got != "value 0" {
			r.Fail("outcome", "the evaluation ended with %s", got)
			return
		}
		for i := first; i < id; i++ {
			if ops[i].K != "jump" && seen[i] == 0 {
				r.Fail("order", "reading %d was not made", i)
				return
			}
		}
	}
	if unit == 0 {
		v, err := ws[0].Interpret(bg, "(internal-time-units-per-second)")
		if n, ok := v.(gmnlisp.Integer); ok && err == nil {
			unit = int64(n)
		}
		if unit < 1 {
			r.Fail("unit", "(internal-time-units-per-second) returned %v %v", v, err)
			return
		}
	}
	// The counters: for some clock, each reading is that clock, in units, plus a constant.
	perNs := big.NewRat(unit, 1_000_000_000)
	one := big.NewRat(1, 1)
	for _, c := range counters {
		k := ops[c.id].K
		for _, m := range []bool{false, true} {
			if len(c.spans) > 1 {
				continue // which of them is not known
			}
			s := c.spans[0]
			if s.sec0 < y1900 || s.sec1 > 10_100_000_000 {
				continue // 64 bits do not hold nanoseconds from 2000
			}
			a, b := secNs(s.sec0, s.ns0), secNs(s.sec1, s.ns1)
			if m {
				a, b = big.NewInt(s.mono0), big.NewInt(s.mono1)
			}
			v := new(big.Rat).SetInt64(int64(c.v))
			lo := new(big.Rat).Sub(v, new(big.Rat).Mul(new(big.Rat).SetInt(b), perNs))
			hi := new(big.Rat).Sub(v, new(big.Rat).Mul(new(big.Rat).SetInt(a), perNs))
			lo.Sub(lo, one)
			hi.Add(hi, one)
			what := fmt.Sprintf("reading %d was %d at %s", c.id, c.v, clockText(s.sec0, s.ns0))
			if m {
				mono[k].meet(lo, hi, what)
			} else {
				wall[k].meet(lo, hi, what)
			}
		}
	}
	for _, k := range []string{"r", "run"} {
		if wall[k].bad != "" && mono[k].bad != "" {
			r.Fail("counter", "(%s): %s (%d units per second)", clockFuncs[k], wall[k].bad, unit)
		}
	}
	if jumps > 0 || jumped {
		r.Key = hashOf(jsonText(p))
	}
	r.Inter = hashOf(fmt.Sprint(p.Sec, p.Ns, p.Tick, jsonText(p.Jumps)))
}

func clockText(sec, ns int64) string {
	return time.Unix(sec, ns).UTC().Format("2006-01-02T15:04:05.999999999Z")
}

func clockShrink(p *ClockPlan) []*ClockPlan {
	var out []*ClockPlan
	for i := range p.Evals {
		q := *p
		q.Evals = without(p.Evals, i)
		out = append(out, &q)
		for j := range p.Evals[i] {
			q := *p
			q.Evals = append([][]*ClockOp{}, p.Evals...)
			q.Evals[i] = without(p.Evals[i], j)
			if len(q.Evals[i]) > 0 {
				x := *q.Evals[i][0]
				x.W, x.Cut = p.Evals[i][0].W, p.Evals[i][0].Cut
				q.Evals[i] = append([]*ClockOp{&x}, q.Evals[i][1:]...)
			}
			out = append(out, &q)
			x := *p.Evals[i][j]
			if x.Via > 0 || x.Cut > 0 || x.W > 0 {
				x.Via, x.Cut, x.W = 0, 0, 0
				q := *p
				q.Evals = append([][]*ClockOp{}, p.Evals...)
				q.Evals[i] = append([]*ClockOp{}, p.Evals[i]...)
				q.Evals[i][j] = &x
				out = append(out, &q)
			}
		}
	}
	for i, j := range p.Jumps {
		if j.At > 0 {
			q := *p
			q.Jumps = append([]*ClockJump{}, p.Jumps...)
			x := *j
			x.At, x.In = 0, 0
			q.Jumps[i] = &x
			out = append(out, &q)
		}
		if j.Ns != 0 {
			q := *p
			q.Jumps = append([]*ClockJump{}, p.Jumps...)
			x := *j
			x.Ns = 0
			q.Jumps[i] = &x
			out = append(out, &q)
		}
	}
	if p.Zone > 0 {
		q := *p
		q.Zone = 0
		out = append(out, &q)
	}
	if p.Tick > 1 {
		q := *p
		q.Tick = 1
		out = append(out, &q)
	}
	if p.Ns > 0 {
		q := *p
		q.Ns = 0
		out = append(out, &q)
	}
	return out
}

func clockExplain(p *ClockPlan) string {
	var b strings.Builder
	fmt.Fprintf(&b, "; the clock starts at %s, a step takes %d ns, time zone %s\n", clockText(p.Sec, p.Ns), p.Tick, clockZones[p.Zone%len(clockZones)])
	for i, j := range p.Jumps {
		what := "jump to " + clockText(j.Sec, j.Ns)
		switch {
		case j.By:
			what = fmt.Sprintf("%d.%09d s go by", j.Sec, j.Ns)
		case j.Rel:
			what = fmt.Sprintf("jump by %d s and %d ns", j.Sec, j.Ns)
		}
		fmt.Fprintf(&b, "; (h2 %d): %s", i, what)
		if j.At > 0 {
			fmt.Fprintf(&b, ", also at step %d", j.At)
			if j.In > 0 {
				fmt.Fprintf(&b, " of reading %d", j.In)
			}
		}
		b.WriteByte('\n')
	}
	id := 0
	for _, e := range p.Evals {
		b.WriteString("; evaluation")
		if len(e) > 0 {
			fmt.Fprintf(&b, " on interpreter %d", e[0].W)
			if e[0].Cut > 0 {
				fmt.Fprintf(&b, ", cancelled at check %d of its context", e[0].Cut)
			}
		}
		b.WriteByte('\n')
		for _, o := range e {
			fmt.Fprintf(&b, "%s\n", o.form(id))
			id++
		}
	}
	return b.String()
}

func init() {
	register(Check{ID: "C15", Quick: 20000, Thor: 1200000,
		Rule: "a run in which the clock jumped or time went by between two readings; distinct by readings, clock and jumps",
		Real: realAll, Stub: stubAll}, clockGen, clockExec, clockShrink, clockExplain)
}
