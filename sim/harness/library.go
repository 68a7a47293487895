package main

import (
	"context"
	"fmt"
	"strings"

	gmnlisp "github.com/hymkor/gmnlisp"
	"github.com/hymkor/gmnlisp/zz_verif/simos"
)

// Check C16: the embedded library and the startup library behave the same on
// every use. Every run has a process of its own, in which nothing of the
// library has been used before. A sequence of uses in hostile places, some of
// which are cut, is performed by interpreters that never used the library and,
// for comparison, by interpreters that had used all of it.

type LibUse struct {
	U     int    `json:"u"`            // use
	C     int    `json:"c"`            // place
	C2    int    `json:"c2,omitempty"` // place around the place
	Sub   int    `json:"s,omitempty"`  // what is shadowed
	W     int    `json:"w,omitempty"`  // interpreter
	Host  int    `json:"h,omitempty"`  // the host call that fails
	Kind  string `json:"k,omitempty"`
	Var   string `json:"v,omitempty"`  // U is a use with this variable
	Scope int    `json:"sc,omitempty"` // evaluated in a scope made by the host program
	Cut   *Cut   `json:"cut,omitempty"`
}

type LibPlan struct {
	Uses []*LibUse `json:"uses"`
	Map  uint64    `json:"map,omitempty"`
}

var libUses = []struct{ code, want string }{
	{"(1+ (h0 4))", "5"}, {"(1- (h0 4))", "3"}, {"(caar (h0 '((1) 2)))", "1"}, {"(cadr (list 1 (h0 2) 3))", "2"}, {"(caddr '(1 2 3))", "3"}, {"(cadddr '(1 2 3 4))", "4"},
	{"(cddr (h0 '(1 2 3)))", "(3)"}, {"(cdddr '(1 2 3 4 5))", "(4 5)"}, {"(first '(1 2))", "1"}, {"(second '(1 2))", "2"}, {"(third '(1 2 3))", "3"}, {"(rest '(1 2 3))", "(2 3)"},
	{"(nth 1 '(a b c))", "b"}, {"(nthcdr 2 '(a b c d))", "(c d)"}, {"(nthcdr 5 '(a b))", "nil"}, {"(max 1 (h0 5) 3)", "5"}, {"(min 4 (h0 2) 3)", "2"},
	{"(prog1 (h0 1) (h0 2))", "1"}, {"(prog2 (h0 1) (h0 2) (h0 3))", "2"}, {"(when (h0 t) (h0 1) 2)", "2"}, {"(when nil 1)", "nil"}, {"(unless (h0 nil) (h0 1) 2)", "2"}, {"(unless t 1)", "nil"},
	{"(let ((acc nil)) (dolist (e '(1 2)) (setq acc (cons (h0 e) acc))) acc)", "(2 1)"}, {"(dolist (e '(1 2 3)) (if (= e 2) (return (h0 e))))", "2"},
	{"(let ((n 0)) (dotimes (i 4) (setq n (+ n (h0 i)))) n)", "6"}, {"(for ((i 0 (+ i 1)) (s 0 (+ s i))) ((= i 4) (list i s)) (h0 i))", "(4 6)"}, {"(for ((i 0 (+ i 1)) (k 7)) ((= i 2) k))", "7"},
	{"(let ((q (list 5 6))) (incf (car q)) (decf (cadr q) (h0 4)) q)", "(6 2)"}, {"(let ((q 5)) (incf q) (incf q 10) (decf q) q)", "15"},
	{"(case-using #'= (h0 2) ((1) 'one) ((2 3) 'two) (t 'other))", "two"}, {"(case-using #'equal (h0 \"z\") ((\"a\") 1) (t 'other))", "other"},
	{"(catch 'e (with-handler (lambda (c) (throw 'e (list (simple-error-format-string c) (simple-error-format-arguments c)))) (error \"m ~a\" (h0 1))))", "(\"m ~a\" (1))"},
	{"(catch 'e (with-handler (lambda (c) (let ((s (create-string-output-stream))) (report-condition c s) (throw 'e (get-output-stream-string s)))) (error \"m ~a\" (h0 1))))", "\"m 1\""},
	{"(with-handler (lambda (c) (continue-condition c (list 'went (simple-error-format-arguments c)))) (list (cerror \"go ~a\" \"bad ~a\" (h0 5))))", "((went (5)))"},
	{"(ignore-errors (error \"x\"))", "nil"}, {"(catch 'e (with-handler (lambda (c) (throw 'e (instancep c (class <simple-error>)))) (error \"y\")))", "t"},
	{"(let ((q (list 1 2 3 4))) (setf (car q) (h0 9)) (setf (cadr q) 8) (setf (caddr q) 7) (setf (cadddr q) 6) q)", "(9 8 7 6)"},
	{"(let ((q (list 1 2 3 4))) (setf (first q) 9) (setf (second q) (h0 8)) (setf (third q) 7) q)", "(9 8 7 4)"},
	{"(let ((q (list 1 2 3 4 5))) (setf (cdddr q) (list (h0 9))) q)", "(1 2 3 9)"}, {"(let ((q (list 1 2 3))) (setf (cddr q) nil) q)", "(1 2)"}, {"(let ((q (list 1 2))) (setf (cdr q) (h0 5)) q)", "(1 . 5)"},
	{"(let ((q (list 1 2 3))) (setf (elt q 1) (h0 'x)) q)", "(1 x 3)"}, {"(let ((q (create-array '(3) 0))) (setf (elt q 1) (h0 'x)) (setf (aref q 2) 'y) q)", "#(0 x y)"},
	{"(let ((q (list 1 2 3))) (setf (nth 2 q) (h0 'x)) q)", "(1 2 x)"}, {"(let ((q \"abcde\")) (setf (subseq q 1 3) \"XY\") q)", "\"aXYde\""}, {"(let ((q (list 1 2 3 4))) (setf (subseq q 1 3) '(x y)) q)", "(1 x y 4)"},
	{"(let ((q 1)) (setf q (h0 2)) q)", "2"}, {"(let ((h (make-hash-table))) (setf (gethash 1 h) (h0 2)) (gethash 1 h))", "2"}, {"(progn (defdynamic lib-d 1) (setf (dynamic lib-d) (h0 3)) (dynamic lib-d))", "3"},
	{"(progn (set-property (h0 5) 'pa 'pb) (list (property 'pa 'pb) (ignore-errors (list (property 'pa 'pz)))))", "(5 nil)"},
	{"(progn (set-property 1 'pc 'pb) (set-property 2 'pc 'pd) (remove-property 'pc 'pb) (list (property 'pc 'pd) (ignore-errors (list (property 'pc 'pb)))))", "(2 nil)"},
	{"(progn (setf (property 'pe 'pb) (h0 5)) (property 'pe 'pb))", "5"}, {"(mapcar #'1+ '(1 2))", "(2 3)"}, {"(funcall #'cadr '(1 2))", "2"}, {"(apply #'max '(1 4 2))", "4"}, {"(mapcar #'second '((1 2) (3 4)))", "(2 4)"},
	{"(progn (defun lib-f (n) (unless (= n 0) (lib-f (1- n)))) (lib-f 3))", "nil"}, {"(progn (macroexpand '(incf x)) (let ((x 1)) (incf x) x))", "2"}, {"(progn (defun set-lib-x (v p) (list 'set p v)) (setf (lib-x 1) (h0 2)))", "(set 1 2)"},
	{"(let ((q (list (cons 'a 1) (cons 'b 2)))) (setf (assoc 'b q) (h0 (cons 'b 3))) q)", "((a . 1) (b . 3))"}, {"(swap-elt 9 (list 1 2 3) 1)", "(1 9 3)"}, {"(swap-subseq \"abcd\" 1 2 \"Z\")", "\"aZcd\""}, {"(set-nthcdr '(9) 1 (list 1 2 3))", "(1 9)"}, {"(set-nth 'z 0 (list 1 2))", "(z 2)"},
}

// libMacro tells the uses whose expansion is evaluated where they stand.
func libMacro(code string) bool {
	for _, m := range []string{"prog", "when", "unless", "dolist", "dotimes", "(for ", "incf", "decf", "case-using", "setf"} {
		if strings.Contains(code, m) {
			return true
		}
	}
	return false
}

var libVars = strings.Fields("x a b r n s z seq body vars var values rest expr expr1 name pair tmp setter arguments setf-table keyform_ inits steps delta place test result iters iteration-spec init step sym sym-props properties all-properties orig source newvalue value count end commands args key m obj str error-string continue-string predform keyform e w entry key1 name-value val L K")
var libFuncs = strings.Fields("car cdr elt + - > < = >= append list cons mapcar funcall gensym length assoc convert string-append subseq set-car set-cdr set-elt nthcdr signal-condition create format apply equal zerop 1- 1+ consp stringp symbolp basic-array-p set-aref swap-elt create-string cadr error get-output-stream-string create-string-output-stream simple-error-format-string simple-error-format-arguments report-condition rm-item set-item")

// Uses with a variable %V of the program, which may have the name of any
// variable of the library.
var libHygiene = []struct{ code, want string }{
	{"(let ((%V 5) (zza nil)) (dolist (zze '(1 2)) (setq zza (cons %V zza))) zza)", "(5 5)"},
	{"(let ((%V '(1 2)) (zza nil)) (dolist (zze %V) (setq zza (cons zze zza))) (list zza %V))", "((2 1) (1 2))"},
	{"(let ((zza nil)) (dolist (%V '(1 2)) (setq zza (cons (h0 %V) zza))) zza)", "(2 1)"},
	{"(let ((%V 5) (zza nil)) (dotimes (zzi 2) (setq zza (cons (h0 %V) zza))) zza)", "(5 5)"},
	{"(let ((%V 3) (zza 0)) (dotimes (zzi %V) (setq zza (+ zza zzi %V))) (list %V zza))", "(3 12)"},
	{"(let ((zza nil)) (dotimes (%V 3) (setq zza (cons %V zza))) zza)", "(2 1 0)"},
	{"(let ((%V 2)) (for ((zzi 0 (+ zzi %V)) (zzj %V)) ((>= zzi 6) (list %V zzi zzj)) (h0 %V)))", "(2 6 2)"},
	{"(for ((%V 0 (+ %V 1)) (zzj 5 (- zzj %V))) ((= %V 3) (list %V zzj)))", "(3 2)"},
	{"(let ((%V 3) (zzq (list 1 2 3))) (incf (elt zzq (- %V 2)) %V) (decf (car zzq) %V) zzq)", "(-2 5 3)"},
	{"(let ((%V 3)) (incf %V) (incf %V %V) (decf %V) %V)", "7"},
	{"(let ((%V 2)) (case-using #'= (h0 %V) ((1) 'one) ((2) (list %V %V)) (t 'other)))", "(2 2)"},
	{"(let ((%V 1)) (list (prog1 %V (setq %V 2)) %V))", "(1 2)"},
	{"(let ((%V 1)) (list (prog2 (setq %V 2) (setq %V 3) (setq %V 4)) %V))", "(3 4)"},
	{"(let ((%V 1)) (list (when %V (setq %V nil) 7) (unless %V (setq %V 3) %V)))", "(7 3)"},
	{"(let ((zzq (list 1 2 3 4)) (%V 9)) (setf (car zzq) %V) (setf (caddr zzq) %V) (setf (cadr zzq) (+ %V 1)) zzq)", "(9 10 9 4)"},
	{"(let ((%V (list 1 2 3 4))) (setf (car %V) 9) (setf (third %V) 8) (setf (cdddr %V) nil) %V)", "(9 2 8)"},
	{"(let ((zzq (list 1 2 3)) (%V 1)) (setf (elt zzq %V) (+ %V 10)) zzq)", "(1 11 3)"},
	{"(let ((%V (list (cons 'a 1) (cons 'b 2)))) (setf (assoc 'b %V) (cons 'b 3)) %V)", "((a . 1) (b . 3))"},
	{"(let ((zzq (list (cons 'a 1) (cons 'b 2))) (%V 'b)) (setf (assoc %V zzq) (cons %V 3)) zzq)", "((a . 1) (b . 3))"},
	{"(let ((%V \"abcde\")) (setf (subseq %V 1 3) \"XY\") %V)", "\"aXYde\""},
	{"(let ((zzq \"abcde\") (%V 1)) (setf (subseq zzq %V (+ %V 2)) \"XY\") zzq)", "\"aXYde\""},
	{"(let ((%V (make-hash-table))) (setf (gethash 1 %V) 2) (gethash 1 %V))", "2"},
	{"(let ((%V 4)) (setf %V (+ %V 1)) %V)", "5"},
	{"(let ((%V 0)) (dotimes (zzi 2) (dotimes (zzj 2) (dolist (zze '(1 2)) (incf %V)))) %V)", "8"},
	{"(let ((%V 1) (zzq (list 1 2 3))) (setf (nth %V zzq) %V) zzq)", "(1 1 3)"},
	{"(let ((%V 2) (zzq (list 1 2 3 4))) (list (nth %V zzq) (nthcdr %V zzq) (max %V 1) (min %V 9) (1+ %V)))", "(3 (3 4) 2 2 3)"},
	{"(let ((%V 7)) (catch 'e (with-handler (lambda (c) (throw 'e (list %V (simple-error-format-arguments c)))) (error \"m ~a\" %V))))", "(7 (7))"},
	{"(let ((%V 'pv)) (set-property 3 %V 'pw) (list (property %V 'pw) (progn (remove-property %V 'pw) (ignore-errors (property %V 'pw)))))", "(3 nil)"},
}

func hygienic(name string) bool {
	return name != "t" && name != "nil" && name != "pi" && !strings.HasPrefix(name, "zz") && !strings.ContainsAny(name, "&:<>")
}

const libPlaces = 22

// place puts a use somewhere; %s-free because the use contains directives.
func libPlace(c, sub int, x string) string {
	r := newRand("place", c, sub)
	switch c % libPlaces {
	case 0:
		return x
	case 1, 2: // variables
		b := ""
		for _, v := range libNames(r, libVars, 12) {
			b += "(" + v + " " + r.Str("5", "'(9 9)", "nil", "\"s\"", "t") + ")"
		}
		return "(let (" + b + ") " + x + ")"
	case 3, 4: // functions
		b := ""
		for _, v := range libNames(r, libFuncs, 6) {
			b += "(" + v + " (&rest z) " + r.Str("'mine", "nil", "(h1 'mine)", "z") + ")"
		}
		return "(" + r.Str("flet", "labels") + " (" + b + ") " + x + ")"
	case 5:
		return r.Str("(block nil ", "(block x ", "(catch 'x ", "(catch nil ") + x + ")"
	case 6:
		return "(progn (defmacro lib-mm () (let ((v " + x + ")) (list 'quote v))) (lib-mm))"
	case 7:
		return "(catch 'hh (with-handler (lambda (c) (throw 'hh " + x + ")) (car 5)))"
	case 8:
		return "(let ((res nil)) (unwind-protect 1 (setq res " + x + ")) res)"
	case 9:
		return "(let ((res nil)) (catch 'cc (unwind-protect (throw 'cc 1) (setq res " + x + "))) res)"
	case 10:
		return "(ignore-errors " + x + ")"
	case 11:
		return "(dynamic-let ((lib-dd 1)) " + x + ")"
	case 12:
		return "(car (mapcar (lambda (x) " + x + ") '(1)))"
	case 13:
		return "(labels ((f (n) (if (= n 0) " + x + " (f (- n 1))))) (f 2))"
	case 14:
		return "(let ((res nil)) (tagbody (setq res " + x + ")) res)"
	case 15:
		return "(let ((i 0) (res nil)) (while (< i 2) (setq res " + x + ") (setq i (+ i 1))) res)"
	case 16:
		return "(progn (defmacro lib-m2 (f) f) (lib-m2 " + x + "))"
	case 17:
		return "(progn (defgeneric lib-g (x)) (defmethod lib-g ((x <integer>)) " + x + ") (lib-g 1))"
	case 18:
		return "(with-open-output-file (s \"out\") " + x + ")"
	case 19:
		return "(with-handler (lambda (c) (h3 'handler) nil) (progn " + x + "))"
	case 20:
		return "(progn (defclass <lib-c> () ((a :initform " + x + " :accessor lib-ca))) (lib-ca (create (class <lib-c>))))"
	}
	return "(with-standard-input (create-string-input-stream \"a b\") (let ((list 1)) " + x + "))"
}

// expects gives the value of a use in a place that must not matter to it.
func (u *LibUse) expects() string {
	want := ""
	if u.Var != "" {
		want = libHygiene[u.U].want
	} else {
		want = libUses[u.U].want
	}
	if u.Host > 0 || u.Cut != nil || u.Scope > 1 {
		return ""
	}
	code := u.code()
	words := map[string]bool{}
	for _, w := range strings.FieldsFunc(code, func(c rune) bool { return strings.ContainsRune("()'# ", c) }) {
		words[w] = true
	}
	for i, c := range []int{u.C, u.C2} {
		switch c % libPlaces {
		case 0, 1, 2:
		case 3, 4:
			if libMacro(code) {
				return ""
			}
			for _, n := range libNames(newRand("place", c, u.Sub+i), libFuncs, 6) {
				if words[n] {
					return ""
				}
			}
		default:
			return ""
		}
	}
	return want
}

func (u *LibUse) code() string {
	if u.Var != "" {
		return strings.ReplaceAll(libHygiene[u.U].code, "%V", u.Var)
	}
	return libUses[u.U].code
}

func libNames(r *Rand, from []string, most int) []string {
	var out []string
	seen := map[string]bool{}
	for i, n := 0, r.Range(1, most); i < n; i++ {
		s := from[r.N(len(from))]
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

func (u *LibUse) form() string {
	x := libPlace(u.C, u.Sub, u.code())
	if u.C2 > 0 {
		x = libPlace(u.C2, u.Sub+1, x)
	}
	return x
}

func libGen(r *Rand, idx int, tier string) *LibPlan {
	p := &LibPlan{Map: r.U64() >> 12}
	n := r.Range(1, 4)
	if tier == "thorough" && r.P(30) {
		n = r.Range(4, 10)
	}
	base := r.N(len(libUses))
	for i := 0; i < n; i++ {
		u := &LibUse{U: r.N(len(libUses)), C: r.N(libPlaces), Sub: r.N(1000), W: r.N(2)}
		if i > 0 && r.P(40) {
			u.U = base
		} else {
			base = u.U
		}
		if r.P(25) {
			u.U = r.N(len(libHygiene))
			for u.Var == "" || !hygienic(u.Var) {
				u.Var = libVars[r.N(len(libVars))]
				if r.P(60) && len(embeddedNames) > 0 {
					u.Var = embeddedNames[r.N(len(embeddedNames))]
				}
			}
			if r.P(60) {
				u.C = 0
			}
		}
		if r.P(30) {
			u.C2 = 1 + r.N(libPlaces-1)
		}
		if r.P(20) {
			u.Scope = r.Range(1, 2)
		}
		switch r.W(5, 2, 3) {
		case 1:
			u.Host, u.Kind = 1+r.N(2), r.Str("err", "panic")
		case 2:
			if r.P(25) && u.Scope != 2 && u.C != 3 && u.C != 4 && u.C2 != 3 && u.C2 != 4 {
				u.Cut = &Cut{Call: 1 + r.N(2), Deadline: r.P(30)}
			} else {
				u.Cut = &Cut{Tick: uint64(r.N(1 << uint(r.Range(2, 12)))), Deadline: r.P(30)}
			}
		}
		p.Uses = append(p.Uses, u)
	}
	return p
}

func libExec(p *LibPlan, r *Run) {
	simos.Reset(nil, -1, nil)
	begin(0, p.Map)
	defer r.end()
	probeAll := func(worlds []*gmnlisp.World, what string) {
		for wi, w := range worlds {
			for i, u := range libUses {
				host = &hostSide{faults: map[int]string{}}
				if got := evalText(w, context.Background(), u.code); got != "value "+u.want {
					r.Fail("later-use", "%s: interpreter %d evaluates %s to %q instead of %q", what, wi, u.code, got, u.want)
					return
				}
				_ = i
			}
			for code, want := range map[string]string{"(error \"top ~a\" 1)": "error text:top 1"} {
				if got := evalText(w, context.Background(), code); got != want {
					r.Fail("later-use", "%s: interpreter %d ends %s with %q instead of %q", what, wi, code, got, want)
				}
			}
		}
	}
	cutAny := false
	run := func(worlds []*gmnlisp.World, faults bool) (out []string) {
		for _, u := range p.Uses {
			simos.Reset(nil, -1, nil)
			host = &hostSide{faults: map[int]string{}, fired: map[string]int{}}
			if faults {
				host.fired = r.Faults
			}
			if u.Host > 0 {
				host.faults[u.Host] = u.Kind
			}
			ctx := context.Background()
			at := func() uint64 { return 0 }
			if faults && u.Cut != nil {
				ctx, at = u.Cut.install(r)
			} else { // loops that end because of what is shadowed need not end
				ctx, at = (&Cut{Tick: 60000}).install(newRun())
			}
			w := worlds[u.W]
			rr := newRand("scope", u.Sub)
			switch u.Scope {
			case 1:
				v := gmnlisp.Variables{}
				for i := 0; i < 5; i++ {
					v[gmnlisp.NewSymbol(libVars[rr.N(len(libVars))])] = gmnlisp.Integer(7)
				}
				w = w.Let(v)
			case 2:
				f := gmnlisp.Functions{}
				for i := 0; i < 3; i++ {
					f[gmnlisp.NewSymbol(libFuncs[rr.N(len(libFuncs))])] = &gmnlisp.Function{C: -1, F: func(context.Context, *gmnlisp.World, []gmnlisp.Node) (gmnlisp.Node, error) {
						return gmnlisp.Integer(8), nil
					}}
				}
				w = w.Flet(f)
			}
			s := evalText(w, ctx, u.form())
			if at() > 0 {
				if faults && u.Cut != nil {
					cutAny = true
				}
				s = "cut"
				host.log = nil
			}
			if strings.HasPrefix(s, "crash") || s == "no end" {
				r.Fail("crash", "%s ends with %s", u.form(), s)
			}
			if want := u.expects(); want != "" && s != "cut" && s != "value "+want {
				r.Fail("wrong-value", "%s: %s instead of %s", u.form(), s, want)
			}
			out = append(out, s+" ["+strings.Join(host.log, " ")+"]")
			r.Evals++
		}
		return
	}
	cold := []*gmnlisp.World{gmnlisp.New(), gmnlisp.New()}
	for _, w := range cold {
		w.SetStdout(&simBuf{})
		w.SetErrout(&simBuf{})
	}
	first := run(cold, true)
	for _, l := range first {
		r.Log("first: %s", l)
	}
	if r.Viol != "" {
		return
	}
	probeAll(cold, "after the first uses")
	if r.Viol != "" {
		return
	}
	warm := []*gmnlisp.World{gmnlisp.New(), gmnlisp.New()}
	for _, w := range warm {
		w.SetStdout(&simBuf{})
		w.SetErrout(&simBuf{})
	}
	probeAll(warm, "in another interpreter")
	if r.Viol != "" {
		return
	}
	second := run(warm, false)
	for i, l := range second {
		r.Log("later: %s", l)
		u := p.Uses[i]
		if r.Viol == "" && l != first[i] && u.Cut == nil && l != "cut []" && first[i] != "cut []" {
			r.Fail("first-use", "use %d ends with %s when it is the first one and with %s when the library has been used before", i, first[i], l)
		}
	}
	probeAll(warm, "in an interpreter that had used the library")
	if cutAny {
		r.Probe("cut-in-first-uses")
	}
	for _, u := range p.Uses {
		if u.C > 0 || u.Scope > 0 || u.Cut != nil || u.Host > 0 {
			r.Key = hashOf(jsonText(p.Uses))
		}
	}
	r.Inter = hashOf(strings.Join(first, "\n"))
}

func libShrink(p *LibPlan) []*LibPlan {
	var out []*LibPlan
	for i, u := range p.Uses {
		q := *p
		q.Uses = without(p.Uses, i)
		out = append(out, &q)
		put := func(x LibUse) {
			q := *p
			q.Uses = append([]*LibUse{}, p.Uses...)
			q.Uses[i] = &x
			out = append(out, &q)
		}
		if u.Cut != nil {
			x := *u
			x.Cut = nil
			put(x)
			if u.Cut.Tick > 1 {
				x.Cut = &Cut{Tick: u.Cut.Tick / 2, Deadline: u.Cut.Deadline}
				put(x)
			}
		}
		if u.Host > 0 {
			x := *u
			x.Host, x.Kind = 0, ""
			put(x)
		}
		if u.C2 > 0 {
			x := *u
			x.C2 = 0
			put(x)
		}
		if u.C > 0 {
			x := *u
			x.C = 0
			put(x)
		}
		if u.Scope > 0 {
			x := *u
			x.Scope = 0
			put(x)
		}
		if u.Var != "" && u.Var != "v1" {
			x := *u
			x.Var = "v1"
			put(x)
		}
		if u.W > 0 {
			x := *u
			x.W = 0
			put(x)
		}
	}
	return out
}

func libExplain(p *LibPlan) string {
	var b strings.Builder
	for i, u := range p.Uses {
		fmt.Fprintf(&b, "; use %d, interpreter %d", i, u.W)
		if u.Scope > 0 {
			fmt.Fprintf(&b, ", in a scope of the host program (World.%s)", []string{"Let", "Flet"}[u.Scope-1])
		}
		if u.Host > 0 {
			fmt.Fprintf(&b, ", host call %d: %s", u.Host, u.Kind)
		}
		if u.Cut != nil {
			fmt.Fprintf(&b, ", %s", u.Cut)
		}
		fmt.Fprintf(&b, "\n%s\n", u.form())
	}
	return b.String()
}

func init() {
	register(Check{ID: "C16", Quick: 7000, Thor: 300000, Fresh: true,
		Rule: "a sequence of first uses of library functions of which one stands in a hostile place, is cut or fails; distinct by uses, places and faults",
		Real: realAll, Stub: stubAll}, libGen, libExec, libShrink, libExplain)
}
