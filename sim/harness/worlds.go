package main

import (
	"context"
	"encoding/json"
	"fmt"
	"regexp"
	"strings"

	gmnlisp "github.com/hymkor/gmnlisp"
	_ "github.com/hymkor/gmnlisp/pkg/regexp"
	"github.com/hymkor/gmnlisp/zz_verif/simos"
	"github.com/hymkor/gmnlisp/zz_verif/simrt"
)

// Checks C11 and C12: several interpreters in one process. Every interpreter
// executes its own program, in which the same names occur as in the programs
// of the others; the scheduler interleaves them. Each must do exactly what the
// same program does alone in a process of its own.

type WItem struct {
	T     int     `json:"t"`            // template
	S     int     `json:"s"`            // seed of its parameters
	In    []int   `json:"in,omitempty"` // templates around it
	P     *Prog   `json:"p,omitempty"`  // a generated program instead
	Call  int     `json:"c,omitempty"`  // the context ends in this host call
	F     *HFault `json:"f,omitempty"`
	Share bool    `json:"sh,omitempty"` // parsed once, the same nodes for all interpreters
}

type WProg struct {
	Items []*WItem      `json:"items"`
	Late  bool          `json:"late,omitempty"` // the interpreter is made by the task
	Tick  uint64        `json:"tick,omitempty"` // everything is cancelled at this step; its results do not count
	Fs    []simos.Fault `json:"fs,omitempty"`
}

type WorldsPlan struct {
	Check  string      `json:"check"`
	Worlds []*WProg    `json:"worlds"`
	Segs   []simrt.Seg `json:"segs"`
	Yield  bool        `json:"yield,omitempty"` // host calls end the turn
	Meet   bool        `json:"meet,omitempty"`  // so do the starts of the forms
	Map    uint64      `json:"map,omitempty"`
	Par    bool        `json:"par,omitempty"` // uses of shared data are included
}

// #1..#3 are numbers, #w the number of the interpreter, #n one of two names.
var worldForms = []string{
	"(defun f#n (x) (list x #1))", "(defun f#n (x) (list 'other (h0 x) #1))", "(f#n #2)", "(mapcar #'f#n '(1 2))",
	"(defmacro m#n (x) (list 'list x #1))", "(defmacro m#n (x) (h1 'expanding) (list 'quote (list x #1)))", "(m#n #2)", "(funcall (lambda (z) (m#n z)) #1)", "(defun f#n (x) (m#n x))",
	"(defgeneric g#n (x))", "(defmethod g#n ((x <integer>)) (list 'int x #1))", "(defmethod g#n ((x <string>)) (list 'str x #1))", "(defmethod g#n ((x <object>)) (list 'obj #1))", "(g#n #1)", "(g#n \"s\")", "(g#n 'y)",
	"(defmethod g#n ((x <float>)) (list 'num x #1))", "(g#n 1.5)", "(defmethod g#n ((x <list>)) (h2 'list) (list 'li #1))", "(g#n '(1))",
	"(defmethod report-condition ((c <domain-error>) (s <object>)) (format s \"domain #1\"))", "(defmethod report-condition ((c <error>) (s <object>)) (format s \"error #1\"))",
	"(defmethod report-condition ((c <simple-error>) (s <object>)) (format s \"simple #1\"))", "(defmethod report-condition ((c <division-by-zero>) (s <object>)) (h0 'reporting) (format s \"div #1\"))",
	"(catch 'rc (with-handler (lambda (c) (let ((s (create-string-output-stream))) (report-condition c s) (throw 'rc (get-output-stream-string s)))) (car #1)))",
	"(catch 'rc (with-handler (lambda (c) (report-condition c (standard-output)) (throw 'rc #1)) (error \"e ~a\" #2)))",
	"(catch 'rc (with-handler (lambda (c) (report-condition c (error-output)) (throw 'rc (h0 #1))) (div #2 0)))",
	"(set-property #1 'p#n 'q)", "(property 'p#n 'q)", "(remove-property 'p#n 'q)", "(progn (set-property #1 'p#n 'q#n) (h1 0) (property 'p#n 'q#n))",
	"(defdynamic d#n #1)", "(dynamic d#n)", "(setf (dynamic d#n) (h0 #1))", "(progn (set-dynamic #1 d#n) (dynamic d#n))",
	"(trace f#n)", "(trace f1 f2)", "(trace)",
	"(format (standard-output) \"o#1~&x#2~%y\")", "(format (error-output) \"~&e#1\")", "(format t \"~&t#1\")",
	"(list (read-line) (h0 #1))", "(read)", "(read-char)", "(with-standard-input (create-string-input-stream \"s#1 u v\") (list (read) (h0 #2) (read)))",
	"(throw 'c#n #1)", "(return-from b#n #1)", "(tagbody (go t#n))", "(error \"err #1 ~a\" (h0 #2))", "(car (h0 #1))", "(undefined-#n #1)", "(exit)", "(abort)", "(signal-condition (create (class <error>)) nil)",
	"(defun 1+ (x) (list 'mine x #1))", "(defmacro when (&rest z) (list 'quote (list 'mine #1)))", "(defun cadr (x) (list 'mine #1))", "(defun nthcdr (i x) (list 'mine #1))", "(defun car (x) (list 'mine #1))", "(defun list (&rest z) 'mine#1)",
	"(1+ #1)", "(when t #1)", "(cadr '(1 #1))", "(nth 1 '(1 #2 3))", "(caddr '(1 2 #3))", "(let ((q (list 1 2 3))) (setf (cadr q) #1) q)", "(let ((q 1)) (incf q #1) q)",
	"(let ((n 0)) (dotimes (i 3) (setq n (+ n (h0 i)))) n)", "(dolist (e '(1 2)) (h0 e))", "(case #1 ((#1) 'a) (t 'b))", "(for ((i 0 (+ i 1))) ((= i 2) #1) (h0 i))",
	"(defglobal k#w #1)", "(setq k#w (h0 #2))", "k#w", "(progn (defglobal lam#w (lambda (x) (dynamic-let ((d1 #1)) (h0 (list x (dynamic d1)))))) (funcall lam#w #2))",
	"(defclass <c#w> () ((a :initform (h0 #1) :initarg a :accessor ca#w) (b :initarg b :reader cb#w)))", "(ca#w (create (class <c#w>)))", "(ca#w (create (class <c#w>) 'a #2))", "(let ((o (create (class <c#w>) 'b 1))) (setf (ca#w o) #3) (list (ca#w o) (cb#w o)))",
	"(defmethod g#n ((x <c#w>)) (list 'c (ca#w x) #2))", "(g#n (create (class <c#w>)))", "(defclass <e#w> (<simple-error>) ())", "(defmethod report-condition ((c <e#w>) (s <object>)) (format s \"own #1\"))",
	"(catch 'rc (with-handler (lambda (c) (let ((s (create-string-output-stream))) (report-condition c s) (throw 'rc (get-output-stream-string s)))) (signal-condition (create (class <e#w>) 'format-string \"x ~a\" 'format-arguments (list #1)) nil)))",
	"(defmethod initialize-object ((o <c#w>) (i <object>)) (h0 (list 'init #1)) o)",
	"(let ((s (gensym))) (h1 0) (list (eq s s) (eq s (gensym))))", "(defmacro gs#n (x) (let ((v (gensym))) (list 'let (list (list v x)) (list 'list v '(h0 #1) v))))", "(gs#n #2)",
	"(let ((h (make-hash-table))) (setf (gethash 'a h) #1) (h0 0) (setf (gethash 'b h) #2) (list (gethash 'a h) (hash-table-count h)))",
	"(let ((s (create-string-output-stream))) (format s \"a~d\" #1) (h0 1) (format s \"~&b\") (get-output-stream-string s))",
	"(load \"defs.lsp\")", "(with-open-output-file (s \"out.txt\") (format s \"n#1\") (h0 1) (format s \"m~%\"))", "(with-open-input-file (s \"in.txt\") (list (read-line s) (h0 1) (read-line s)))", "(probe-file \"out.txt\")",
	"(let ((s (open-output-file \"o2.txt\"))) (format s \"k#1\") (h0 0) (close s))", "(eval '(progn (defun f#n (x) (list 'ev x #1)) (f#n 2)))", "(eval (read (create-string-input-stream \"(h0 #1)\")))",
	"(=~ \"a(b*)\" (h0 \"xabby\"))", "(=~ \"#1+\" \"z#1#1\")", "(convert \"#1\" <integer>)", "(format-object (standard-output) '(a \"b\" #1) t)", "(list 'a \"b\" #\\c #1 1.5)", "(funcall (lambda (x) (* x #1)) 3)",
	"(assoc 'b '((a . 1) (b . #1)))", "(mapcar (lambda (x) (h0 (+ x #1))) '(1 2))", "(vector #1 'two \"three\")", "(string-append \"a\" (create-string 2 #\\z))", "(defun set-foo#n (v x) (list 'set v x #1))", "(setf (foo#n 1) #2)",
	"(get-universal-time)", "(get-internal-real-time)", "(internal-time-units-per-second)", "(macroexpand '(m#n 4))", "(instancep #1 (class <integer>))", "(class-of #1)", "(subclassp (class <integer>) (class <object>))", "(labels ((ev (n) (if (= n 0) (h0 #1) (ev (- n 1))))) (ev 3))",
	"(parse-number \"#1\")", "(ignore-errors (parse-number \"zz\"))", "#(1 #1", "(elt '(1 2) 5)", "'(a . b)", "(let ((z (list #2 2))) `(a ,(h0 #1) ,@z))", "(let ((x #1)) (while (> x 0) (setq x (- x (h0 x)))) x)", "(quit)",
	"(defgeneric g#n (x y))", "(defmethod g#n ((x <integer>) (y <object>)) (list 'two #1))", "(g#n 1 2)", "(reverse (list 1 #1))", "(create-array '(2 2) #1)", "(let ((a (create-array '(2) 0))) (setf (aref a 1) (h0 #1)) a)",
	"(defgeneric gr#n (x &rest r))", "(defmethod gr#n ((x <integer>) &rest (r <object>)) (list 'rest x r #1))", "(defmethod gr#n ((x <string>) &rest (r <integer>)) (list 'srest x r #1))", "(gr#n #1 2 3)", "(gr#n \"s\" #1)", "(gr#n 5)",
	"(progn (defgeneric gr#n (x &rest r)) (defmethod gr#n ((x <object>) &rest (r <object>)) (list 'orest r #1)) (gr#n 1 #2))",
	"(defgeneric g0#n ())", "(defmethod g0#n () (list 'none #1))", "(g0#n)", "(defgeneric gw#n (a b c d))", "(defmethod gw#n ((a <object>) (b <object>) (c <object>) (d <integer>)) (list 'four a #1))", "(gw#n 1 2 3 #1)", "(funcall #'gr#n 1 #2)", "(generic-function-p #'gr#n)",
	"(defun fr#n (&rest r) (list 'r r #1))", "(fr#n 1 #2)", "(defun fz#n () #1)", "(fz#n)", "(apply #'fr#n '(1 2))", "(defun fl#n (a b c d e) (list a e #1))", "(fl#n 1 2 3 4 #2)", "(defun ft#n (n) (if (> n 0) (ft#n (- n 1)) (list 'tail #1)))", "(ft#n 3)",
	"(defmacro mr#n (x &rest r) (list 'list x (list 'quote r) #1))", "(mr#n #2 a b)", "(defmacro mz#n () #1)", "(mz#n)", "(defmacro f#n (x) (list 'list ''mac x #1))", "(defun m#n (x) (list 'fun x #1))", "(defgeneric f#n (x))", "(defun g#n (x) (list 'plain x #1))", "(defgeneric m#n (x))",
	"(set-property #1 'car 'q)", "(property 'car 'q)", "(set-property '(#1) nil 'q#n)", "(property nil 'q#n)", "(set-property #1 :k#n 'q)", "(property :k#n 'q)", "(remove-property 'car 'q)", "(property 'nothing 'q #1)", "(setf (property 'p#n 'z) #1)", "(property 'p#n 'z)",
	"(defdynamic car #1)", "(dynamic car)", "(defdynamic *standard-output* #1)", "(dynamic *standard-output*)", "(defun set-g#n (v x) (list 'set-g v x #1))", "(setf (g#n 1) #2)", "(defun |odd name#n| (x) (list 'odd x #1))", "(|odd name#n| #2)", "(defun <f#n> (x) (list 'angle x #1))", "(<f#n> 1)",
	"(defun set-car (v x) (list 'mine #1))", "(let ((q (list 1 2))) (setf (car q) #1) q)", "(defmacro dolist (&rest z) ''mine#1)", "(defmacro incf (&rest z) ''mine#1)", "(defgeneric nth (a b))", "(defmethod nth ((a <integer>) (b <list>)) (list 'gen #1))", "(defgeneric length (x))", "(defmethod length ((x <integer>)) (list 'len #1))", "(length #1)", "(length \"abc\")",
	"(defun report-condition (c s) (format s \"plain #1\"))", "(defgeneric report-condition (c s))", "(defmethod report-condition ((c <undefined-function>) (s <object>)) (format s \"undefined #1\"))", "(catch 'rc (with-handler (lambda (c) (let ((s (create-string-output-stream))) (report-condition c s) (throw 'rc (get-output-stream-string s)))) (undefined-#n #1)))",
	"(with-handler (lambda (c) (continue-condition c #1)) (list 'got (cerror \"go\" \"stop\")))", "(catch 'cc (with-handler (lambda (c) (throw 'cc (list (simple-error-format-string c) #1))) (error \"fs\" 1)))",
}

// worldOpen are forms around others, during which other interpreters run.
var worldOpen = []string{
	"(dynamic-let ((d#n #1)) (h0 'in) (list (dynamic d#n) @ (dynamic d#n)))", "(with-handler (lambda (c) (h0 'handler#1) (throw 'wh (list 'handled #1))) (catch 'wh (h0 'in) @))",
	"(catch 'wh (with-handler (lambda (c) (h0 'handler#1) (throw 'wh (list 'handled #1))) (h1 'in) @))", "(block b#n (h0 'in) @ (return-from b#n (h1 #1)))", "(catch 'c#n (h0 'in) @ (throw 'c#n (h0 #1)))",
	"(let ((n 0)) (tagbody t#n (h0 'in) (setq n (+ n 1)) @ (if (< n 2) (go t#n))) n)", "(with-standard-input (create-string-input-stream \"n#1 line#nc d e f\") (h0 'in) (list @ (read-char)))",
	"(unwind-protect (progn (h0 'in) @) (h1 'cleanup#1))", "(flet ((f#n (x) (h0 (list 'flet x #1)))) (list @ (f#n 0)))", "(let ((k#w 5)) @)", "(ignore-errors @)", "(labels ((f1 (x) (list 'l x #1))) (h0 (f1 1)) @)", "(mapcar (lambda (x) (h0 x) @) '(1 2))",
	"(block nil (dolist (e '(1 2)) (h0 e) @ (return #1)))", "(progn (h0 'in) @ (h0 'out))", "(with-open-output-file (s \"w.txt\") (format s \"w#1\") @ (format s \"~&v\"))",
}

// parForms also use what interpreters share.
var parForms = []string{
	"(defglobal shared-g #1)", "(progn (setq shared-g #1) 0)", "(progn shared-g 0)", "(defglobal nw#w-#1 #2)", "nw#w-#1", "(ex#w 1)", "(ex#w (h0 2))", "(let ((s (gensym))) (list (eq s (gensym)) (symbolp s)))", "(defclass <pc#w-#1> (<object>) ((z :initform #2 :accessor pz#w-#1)))",
	"(pz#w-#1 (create (class <pc#w-#1>)))", "'newsym#1", "(convert \"ns#1\" <symbol>)", "(eq (convert \"ns#1\" <symbol>) 'ns#1)", ":kw#1", "(list ':kw#1 'a#1)", "(progn (gmn:dump-session) 0)",
	"(progn (defglobal nw#w-#1 #2) (gmn:dump-session) (defglobal nv#w-#2 #1) 0)", "(list (defglobal nu#w-#1 #2) nu#w-#1 (setq nu#w-#1 #3) (progn (gmn:dump-session) nu#w-#1))",
}

// featForms use one feature of the language each and do not depend on others,
// so that any two interpreters that come upon the same form use it at the same
// time.
var featForms = []string{
	"(progn (defclass <ha#w> () ((x :initform #1 :initarg x :accessor hax#w :boundp hab#w :reader har#w :writer haw#w))) (defclass <hb#w> (<ha#w>) ((y :initarg y :accessor hby#w))) (defclass <hc#w> (<hb#w>) ()) (defgeneric hg#w (o)) (defmethod hg#w ((o <ha#w>)) (list 'a (hax#w o))) (defmethod hg#w ((o <hb#w>)) (list 'b (hby#w o))) (mapcar #'hg#w (list (create (class <ha#w>)) (create (class <hb#w>) 'y #2) (create (class <hc#w>) 'x #3 'y 1))))",
	"(progn (defclass <ia#w> () ((x :initarg x))) (defclass <ib#w> (<ia#w>) ()) (list (subclassp (class <ib#w>) (class <ia#w>)) (subclassp (class <ia#w>) (class <ib#w>)) (instancep (create (class <ib#w>)) (class <ia#w>)) (equal (create (class <ib#w>) 'x #1) (create (class <ib#w>) 'x #1)) (class-of (create (class <ia#w>)))))",
	"(progn (defclass <ja#w> () ((x :initform #1 :accessor jax#w))) (defmethod initialize-object ((o <ja#w>) (i <object>)) (setf (jax#w o) (list 'init i)) o) (defclass <jb#w> (<ja#w>) ()) (list (jax#w (create (class <ja#w>))) (jax#w (create (class <jb#w>)))))",
	"(progn (defgeneric kg#w (a b)) (defmethod kg#w ((a <integer>) (b <string>)) 'is) (defmethod kg#w ((a <float>) (b <list>)) 'fl) (defmethod kg#w ((a <symbol>) (b <object>)) 'so) (list (kg#w #1 \"x\") (kg#w 1.5 '(1)) (kg#w 'a #2)))",
	"(progn (defclass <ca#w> (<error>) ((v :initarg v :reader cav#w))) (defmethod report-condition ((c <ca#w>) (s <object>)) (format s \"own ~a\" (cav#w c))) (catch 'rc (with-handler (lambda (c) (let ((s (create-string-output-stream))) (report-condition c s) (throw 'rc (get-output-stream-string s)))) (signal-condition (create (class <ca#w>) 'v #1) nil))))",
	"(let ((s (create-string-output-stream))) (format s \"~d ~a ~s ~x ~o ~b ~5d|~g ~% ~~ ~&\" #1 'sym \"str\" #2 #3 5 #1 1.25 7) (format-integer s #1 16) (format-float s 0.1) (format-char s #\\z) (format-object s '(a \"b\" #\\c #1) t) (get-output-stream-string s))",
	"(list (convert #1 <string>) (convert #1 <float>) (convert #\\a <integer>) (convert #\\a <symbol>) (convert 65 <character>) (convert \"abc\" <list>) (convert \"ab\" <general-vector>) (convert '(1 2) <general-vector>) (convert 'sy <string>) (convert \"#1\" <integer>) (convert \"1.5\" <float>) (convert \"sy\" <symbol>) (convert #(1 2) <list>))",
	"(list (parse-number \"#1\") (parse-number \"1.5e3\") (catch 'pn (with-handler (lambda (c) (throw 'pn (class-of c))) (parse-number \"z#1\"))))",
	"(let ((a (create-array '(2 3) #1)) (b (vector 3 'x 'y)) (c #2a((1 2) (3 4)))) (setf (aref a 1 2) 'q) (set-aref #2 b 1) (setf (aref c 0 1) 'g) (list a b c (array-dimensions a) (basic-array-p b) (general-array*-p c) (elt b 1)))",
	"(let ((l (list 3 1 2))) (setf (elt l 1) 9) (list (subseq l 0 2) (reverse l) (nreverse (list 1 2 3)) (append l '(x)) (member 2 l) (assoc 'b '((a . 1) (b . 2))) (mapcan #'list l) (maplist #'length l) (mapcon (lambda (x) (list (car x))) l) (length l) (elt l 2) (last l) (nth 1 l)))",
	"(list (string-append \"a\" \"#1\") (string-index \"b\" \"abc\") (char-index #\\c \"abc\") (create-string 3 #\\z) (string< \"a\" \"b\") (string= \"x\" \"x\") (subseq \"hello\" 1 3) (length \"abc\") (elt \"abc\" 1) (char< #\\a #\\b) (stringp \"s\") (list))",
	"(list (floor 7.5) (ceiling 7.2) (round 7.6) (truncate -7.2) (mod 7 3) (rem -7 3) (max 1 #1) (min 1 #1) (sqrt 16.0) (+ 1 2.5) (- 5 #1) (* 2 #2) (= 1 1) (/= 1 2) (< 1 2) (>= 2 #1) (1+ #1) (1- #1) (<= 1 1.5))",
	"(list (numberp 1) (integerp 1.5) (floatp 1.5) (symbolp 'a) (stringp 1) (characterp #\\a) (consp '(1)) (listp nil) (functionp #'car) (generic-function-p #'report-condition) (eq 'a 'a) (eql 1 1) (equal '(1 (2)) '(1 (2))) (equalp \"A\" \"a\") (not nil) (null 1) (zerop 0) (oddp 3) (evenp 2) (plusp 1) (minusp 1))",
	"(let ((h (make-hash-table))) (setf (gethash \"k\" h) #1) (setf (gethash 'k h) #2) (setf (gethash 1 h) 3) (setf (gethash #\\k h) 4) (list (gethash \"k\" h) (gethash 'k h) (gethash 2 h) (hash-table-count h) (remhash 'k h) (format nil \"~a\" h) h (clrhash h)))",
	"(list (=~ \"(a+)(b*)\" \"xaabby a\") (=~ \"q\" \"abc\") (=~ \"[0-9]+\" \"a#1 b#2\") (=~i \"b\" \"abcb\") (ignore-errors (=~ \"(\" \"x\")))",
	"(let ((f (lambda (x &rest r) (list x r #1))) (c 0)) (list (funcall f 1 2 3) (apply f 1 '(2 3)) (apply #'+ #1 '(1 2)) (mapcar f '(1 2)) (let ((g (lambda () (setq c (+ c 1)) c))) (funcall g) (funcall g)) (mapc #'list '(1))))",
	"(progn (defmacro fm#w (a &rest b) `(list ,a ,@b ',b #1)) (defmacro fn#w (x) (list 'fm#w x x)) (list (fm#w 1 2 3) (fn#w 4) (macroexpand '(fm#w 1)) (let ((z 5)) (fn#w z))))",
	"(let ((n 0) (l nil)) (dotimes (i 3) (setq l (cons i l))) (dolist (x '(1 2)) (setq l (cons x l))) (for ((i 0 (+ i 1)) (j 9 (- j 1))) ((>= i 2) (setq l (cons j l)))) (while (< n 3) (setq n (+ n 1))) (case n ((1 2) 'low) ((3) (setq l (cons 'three l))) (t 'else)) (cond ((= n 1) 1) ((= n 3) (setq l (cons #1 l)))) (case-using #'= n ((3) 'cu) (t 'no)) (incf n) (decf n) (setq l (cons n l)) l)",
	"(progn (defdynamic fd#w #1) (defun fdr#w () (dynamic fd#w)) (list (fdr#w) (dynamic-let ((fd#w #2)) (fdr#w)) (setf (dynamic fd#w) 5) (set-dynamic 6 fd#w) (fdr#w)))",
	"(list (catch 'fc (throw 'fc #1)) (block fb (return-from fb #2)) (block nil (return #3)) (let ((n 0)) (tagbody ft (setq n (+ n 1)) (if (< n 3) (go ft))) n) (unwind-protect 1 2) (catch 'fc (unwind-protect (throw 'fc 'in) (list 1))) (ignore-errors (car 1)) (flet ((f (x) (list x #1))) (f 1)) (labels ((g (n) (if (= n 0) 'end (g (- n 1))))) (g 3)))",
	"(list (catch 'fe (with-handler (lambda (c) (throw 'fe (list (domain-error-object c) (domain-error-expected-class c)))) (car #1))) (catch 'fe (with-handler (lambda (c) (throw 'fe (list (undefined-entity-name c) (undefined-entity-namespace c)))) (undefined-fe#1))) (catch 'fe (with-handler (lambda (c) (throw 'fe (list (class-of c)))) (truncate 'x))) (catch 'fe (with-handler (lambda (c) (throw 'fe (simple-error-format-arguments c))) (error \"e\" #1))) (with-handler (lambda (c) (continue-condition c #1)) (cerror \"c\" \"d\")))",
	"(let ((s (create-string-input-stream \"(a . b) #(1 2) \\\"x\\\" #\\\\c #| block |# 1.5 'q `(x ,y) #2a((1)) #b101 #xff\"))) (list (read s) (read s) (read s) (read s) (read s nil 'eof) (read s nil 'eof) (read s nil 'eof) (read s nil 'eof) (read s nil 'eof)))",
	"(let ((s (create-string-input-stream \"line#1\\nabc\\n\"))) (list (read-char s) (read-char s) (read-line s) (read-line s nil 'end) (read-char s nil 'end)))",
	"(progn (with-open-output-file (s \"ff.txt\") (format s \"n#1~%m~%\") (h0 1)) (list (probe-file \"ff.txt\") (file-length \"ff.txt\" 8) (with-open-input-file (s \"ff.txt\") (list (read-line s) (h0 1) (read-line s nil 0) (read-line s nil 0)))))",
	"(list (symbolp (gensym)) (set-property #1 'fp#w 'q) (property 'fp#w 'q) (remove-property 'fp#w 'q) ':key (eq ':key ':key) (eq 'Abc 'abc))",
	"(let ((l (list 1 2 3)) (v (vector 1 2)) (s '((a . 1)))) (setf (car l) #1) (setf (cadr l) 'x) (setf (nth 2 l) 'y) (setf (elt v 0) 'z) (setf (cdr l) (list 4 5)) (set-car 'c s) (psetq l (cdr l) v l) (let* ((a 1) (b (+ a 1))) (list l v s a b)))",
	"(progn (defun fo#w (n) (if (= n 0) 0 (+ 1 (fo#w (- n 1))))) (defun ft#w (n a) (if (= n 0) a (ft#w (- n 1) (+ a 1)))) (list (fo#w 5) (ft#w 9 0) #'fo#w (trace fo#w) (fo#w 1) (trace)))",
	"(list (load \"defs.lsp\") (f1 #1) (probe-file \"defs.lsp\") (eval '(+ 1 #1)) (macroexpand '(when 1 2)) (quote (a . b)) (assure <integer> #1) (the <integer> #2))",
	"(list (get-universal-time) (get-internal-real-time) (internal-time-units-per-second) (integerp (get-internal-run-time)) most-positive-fixnum pi)",
	"(progn (defconstant fk#w-#1 #2) (defglobal fg#w-#1 (list #1)) (list fk#w-#1 fg#w-#1 (setq fg#w-#1 #3) fg#w-#1))",
	"(list (string-append (create-string 2 #\\あ) \"漢字#1\") (length \"漢字\") (elt \"漢字\" 1) (char-index #\\字 \"漢字\") (convert #\\あ <integer>) (format nil \"~a ~s\" \"é\" #\\é))",
	"(list (and 1 #1) (or nil #2) (if nil 1 #3) (when t #1) (unless nil #2) (not #1) (caar '((1))) (cddr '(1 2 3)) (caddr '(1 2 #1)))",
	// the last macroForms of them
	"(progn (defmacro fp#w (x &rest b) `(if ,x (progn ,@b) 'no#1)) (defun fq#w (n) (fp#w (< n #2) (h0 n) (fp#w (= n 1) 'one) (list n (fp#w nil 1)))) (list (fq#w 1) (fq#w 2) (fq#w 90) (mapcar (lambda (x) (fp#w x x)) '(1 nil 2))))",
	"(progn (defmacro fr#w (v n &rest b) `(let ((,v 0)) (while (< ,v ,n) ,@b (setq ,v (+ ,v 1))) ,v)) (let ((l nil)) (list (fr#w i 3 (fr#w j 2 (setq l (cons (list i j) l)))) l)))",
	"(progn (defmacro fs#w (x) (list 'quote (list x #1))) (defmacro ft#w (f &rest a) (cons f a)) (let ((g (lambda () (fs#w (a b))))) (list (g) (funcall g) (ft#w list 1 (fs#w c)) (eval '(ft#w + 1 #2)) (cond ((ft#w = 1 2) 1) (t (fs#w d))) (case (ft#w + 1 1) ((2) (fs#w e)) (t 0)))))",
}

const macroForms = 3

var defsFile = "(defun f1 (x) (list 'loaded x #1))\n(h0 'loading)\n(defmacro m2 (x) (list 'list ''loaded x))\n(dynamic d1)\n"

// notShared tells which features define global variables or change constants.
var notShared = regexp.MustCompile(`defglobal|defconstant|defclass|set-car`)

// shareable: interpreters that evaluate this at the same time have nothing in
// common but the parsed program.
func (it *WItem) shareable() bool {
	if it.P != nil {
		c := &WItem{P: it.P, Share: true}
		return !ekWord.MatchString(c.text(0, true))
	}
	k := it.T - len(worldForms) - len(parForms)
	return k >= 0 && !notShared.MatchString(featForms[k%len(featForms)])
}

func (it *WItem) text(w int, par bool) string {
	if it.Share {
		w = 0
	}
	r := newRand("item", it.T, it.S)
	fill := func(s string) string {
		s = strings.ReplaceAll(s, "#w", fmt.Sprint(w))
		s = strings.ReplaceAll(s, "#n", fmt.Sprint(1+r.N(2)))
		// numbers are different in every interpreter
		for i := 1; i <= 3; i++ {
			s = strings.ReplaceAll(s, fmt.Sprint("#", i), fmt.Sprint(1+r.N(4)+10*(w+1)))
		}
		return s
	}
	var s string
	if it.P != nil {
		var b strings.Builder
		for _, f := range it.P.Fns {
			b.WriteString(f.String() + " ")
		}
		s = b.String() + it.P.Main.String()
		if !it.Share {
			s = ekWord.ReplaceAllString(s, fmt.Sprintf("ek%d", w))
		}
		if len(it.In) > 0 {
			s = "(progn " + s + ")"
		}
	} else {
		switch t := it.T; {
		case t < len(worldForms):
			s = fill(worldForms[t])
		case t < len(worldForms)+len(parForms):
			s = fill(parForms[t-len(worldForms)])
		default:
			s = fill(featForms[(t-len(worldForms)-len(parForms))%len(featForms)])
		}
	}
	for _, o := range it.In {
		s = strings.Replace(fill(worldOpen[o%len(worldOpen)]), "@", s, 1)
	}
	return s
}

// sharedProgram makes one program of the language of the reference model.
func sharedProgram(r *Rand) *Prog {
	for try := 0; try < 5; try++ {
		g := &gen{r: r, w: baseWeights.with("winput", 3, "readline", 2, "dynlet", 8, "handler", 8, "setdyn", 4, "wrap", 0)}
		q := g.program()
		c := &CtlPlan{P: q}
		if m, out := c.model(allModes[0], nil); out != "unspecified" && m.calls < 60 {
			renameFns(q, "p")
			return q
		}
	}
	return nil
}

var ekWord = regexp.MustCompile(`\bek\b`)
var genName = regexp.MustCompile(`-gensym-[0-9]+-`)

func worldsGen(check string) func(r *Rand, idx int, tier string) *WorldsPlan {
	return func(r *Rand, idx int, tier string) *WorldsPlan {
		p := &WorldsPlan{Check: check, Map: r.U64() >> 12, Par: check == "C12"}
		n := 2
		if r.P(30) {
			n = 3
		}
		items := 7
		if tier == "thorough" {
			n, items = r.Range(2, 4), 16
		}
		// programs that are about the same matters meet more often
		focus := make([]int, r.Range(3, 14))
		for i := range focus {
			focus[i] = r.N(len(worldForms))
			if i > 0 && r.P(60) { // neighbours are related
				focus[i] = (focus[i-1] + r.Range(-3, 3) + len(worldForms)) % len(worldForms)
			}
			if p.Par && r.P(30) {
				focus[i] = len(worldForms) + r.N(len(parForms))
			}
			if r.P(30) {
				focus[i] = len(worldForms) + len(parForms) + r.N(len(featForms))
			}
		}
		duel := r.P(40)  // the programs consist of the same forms
		share := r.P(40) // and even of the same parsed nodes
		if p.Par && duel {
			focus = focus[:r.Range(1, 3)]
			for i := range focus {
				switch r.W(5, 3, 2) {
				case 0:
					focus[i] = len(worldForms) + len(parForms) + r.N(len(featForms))
				case 1:
					focus[i] = len(worldForms) + r.N(len(parForms))
				}
			}
		}
		var duelP []*Prog
		if p.Par && duel && share {
			for i := r.Range(0, 2); i > 0; i-- {
				if q := sharedProgram(r); q != nil {
					duelP = append(duelP, q)
				}
			}
			if r.P(40) {
				focus[0] = len(worldForms) + len(parForms) + len(featForms) - 1 - r.N(macroForms)
			}
		}
		openFocus := []int{r.N(len(worldOpen)), r.N(len(worldOpen))}
		for i := 0; i < n; i++ {
			w := &WProg{Late: r.P(50)}
			if p.Par && duel {
				for k, t := range focus {
					it := &WItem{T: t, S: r.N(6)}
					if share && it.shareable() {
						it.S, it.Share = k, true
					}
					w.Items = append(w.Items, it)
				}
				for k, q := range duelP {
					it := &WItem{P: q, S: k}
					it.Share = it.shareable()
					w.Items = append(w.Items, it)
				}
				p.Worlds = append(p.Worlds, w)
				continue
			}
			for j := r.Range(1, items); j > 0; j-- {
				it := &WItem{T: focus[r.N(len(focus))], S: r.N(6)}
				if r.P(20) {
					it.T = r.N(len(worldForms))
				}
				if r.P(12) {
					it.P = sharedProgram(r)
				}
				for k := r.W(5, 3, 2); k > 0; k-- {
					o := openFocus[r.N(2)]
					if r.P(30) {
						o = r.N(len(worldOpen))
					}
					it.In = append(it.In, o)
				}
				switch r.W(8, 1, 2) {
				case 1:
					it.Call = 1 + r.N(3)
				case 2:
					it.F = &HFault{At: 1 + r.N(3), Kind: r.Str("err", "dom", "panic")}
				}
				w.Items = append(w.Items, it)
			}
			if r.P(15) {
				w.Tick = uint64(r.N(30000))
			}
			if r.P(15) {
				w.Fs = append(w.Fs, simos.Fault{Op: r.Str("open", "create", "read", "write", "close"), Nth: 1 + r.N(3), Err: "EIO"})
			}
			p.Worlds = append(p.Worlds, w)
		}
		p.Yield = r.P(60)
		if p.Par && duel && r.P(70) {
			// The interpreters meet before every form and then take short turns.
			p.Yield, p.Meet = true, true
			for j := len(p.Worlds[0].Items); j > 0; j-- {
				for i := 0; i < n; i++ {
					p.Segs = append(p.Segs, simrt.Seg{Task: i, Len: 1 << 30})
				}
				k := r.N(8)
				for i := r.Range(20, 200); i > 0; i-- {
					p.Segs = append(p.Segs, simrt.Seg{Task: r.N(n), Len: 1 + r.N(1<<uint(k))})
				}
			}
			return p
		}
		k := r.Range(2, 10)
		for i := r.Range(3, 150); i > 0; i-- {
			s := simrt.Seg{Task: r.N(n)}
			if p.Yield && r.P(70) {
				s.Len = 1 << 30
			} else {
				s.Len = 1 + r.N(1<<uint(k))
				if r.P(10) {
					s.Len += r.N(9000)
				}
			}
			p.Segs = append(p.Segs, s)
		}
		return p
	}
}

// worldTask is one interpreter executing its program.
type worldTask struct {
	i    int
	p    *WProg
	par  bool
	meet bool
	w    *gmnlisp.World
	h    *hostSide
	out  *simBuf
	err  *simBuf
	disk any
	log  []string
	ctx  context.Context
	end  context.CancelFunc
	cut  bool
}

func newWorldTask(plan *WorldsPlan, i int) *worldTask {
	p := plan.Worlds[i]
	t := &worldTask{i: i, p: p, par: plan.Par, meet: plan.Meet, h: &hostSide{faults: map[int]string{}, fired: map[string]int{}, suffix: fmt.Sprint(i)}, out: &simBuf{}, err: &simBuf{}}
	t.disk = simos.NewDisk(append([]simos.Fault{}, p.Fs...), []int{5})
	simos.Put("in.txt", fmt.Sprintf("l%d\nm\nn\n", i))
	simos.Put("defs.lsp", strings.ReplaceAll(defsFile, "#1", fmt.Sprint(50+i)))
	simos.SetStdin(fmt.Sprintf("first%d (a b) c\n\"d\" e f g h i\nj k l m n o p\nq r s t u v\n1 2 3 4 5\n", i))
	return t
}

func (t *worldTask) create() {
	t.w = gmnlisp.New()
	t.w.SetStdout(t.out)
	t.w.SetErrout(t.err)
	if t.par {
		i := t.i
		f := gmnlisp.Function1(func(ctx context.Context, w *gmnlisp.World, a gmnlisp.Node) (gmnlisp.Node, error) {
			return &gmnlisp.Cons{Car: gmnlisp.Integer(i), Cdr: a}, nil
		})
		if name := gmnlisp.NewSymbol(fmt.Sprint("ex", i)); i%2 == 0 {
			gmnlisp.Export(name, f)
		} else {
			gmnlisp.ExportRange(gmnlisp.Functions{name: f, gmnlisp.NewSymbol(fmt.Sprint("ey", i)): f})
		}
	}
}

func (t *worldTask) eval(ctx context.Context, code string) {
	s := evalText(t.w, ctx, code)
	t.log = append(t.log, s+" ["+strings.Join(t.h.log, " ")+"]")
	t.h.log, t.h.calls = nil, 0
}

// sharedNodes are programs that the host has parsed once for all interpreters.
var sharedNodes map[string][]gmnlisp.Node

func parseShared(p *WorldsPlan) {
	sharedNodes = map[string][]gmnlisp.Node{}
	for i, w := range p.Worlds {
		for _, it := range w.Items {
			if !it.Share {
				continue
			}
			code := it.text(i, p.Par)
			if _, ok := sharedNodes[code]; !ok {
				if nodes, err := gmnlisp.ReadAll(strings.NewReader(code)); err == nil {
					sharedNodes[code] = nodes
				}
			}
		}
	}
}

func (t *worldTask) evalShared(ctx context.Context, code string) {
	nodes := sharedNodes[code]
	s := evalBy(func() (gmnlisp.Node, error) { return t.w.InterpretNodes(ctx, nodes) })
	t.log = append(t.log, s+" ["+strings.Join(t.h.log, " ")+"]")
	t.h.log, t.h.calls = nil, 0
}

// setEnd tells the timer what to cancel.
//
//go:norace
func (t *worldTask) setEnd(f context.CancelFunc) { t.end = f }

//go:norace
func (t *worldTask) fire() {
	if t.end != nil {
		t.end()
		t.cut = true
	}
}

func (t *worldTask) run() {
	defer func() {
		if e := recover(); e != nil {
			t.log = append(t.log, "task ends with "+panicText(e))
		}
	}()
	if t.w == nil {
		t.create()
	}
	t.eval(t.ctx, fmt.Sprintf("(defglobal ek%d 0) (defdynamic d1 %d) (defdynamic d2 %d) 0", t.i, 100+t.i, 200+t.i))
	for _, it := range t.p.Items {
		t.h.faults = map[int]string{}
		if it.F != nil {
			t.h.faults[it.F.At] = it.F.Kind
		}
		ctx, cancel := context.WithCancel(t.ctx)
		t.h.cancel = cancel
		t.h.faults[120] = "cancel" // some programs would never end
		if it.Call > 0 {
			t.h.faults[it.Call] = "cancel"
		}
		t.setEnd(cancel)
		code := it.text(t.i, t.par)
		if t.meet {
			simrt.Yield()
		}
		if strings.Contains(code, "dump-session") { // shows what is shared
			t.w.SetStdout(&simBuf{})
		}
		if it.Share {
			t.evalShared(ctx, code)
		} else {
			t.eval(ctx, code)
		}
		if strings.Contains(code, "dump-session") {
			t.w.SetStdout(t.out)
		}
	}
	t.h.faults = map[int]string{}
	for _, c := range worldProbes {
		t.eval(t.ctx, strings.ReplaceAll(c, "#w", fmt.Sprint(t.i)))
	}
}

var worldProbes = strings.Split(`(f1 1)|(funcall (lambda (z) (m1 z)) 1)|(f2 1)|(m1 1)|(m2 1)|(g1 1)|(g1 "s")|(g2 1)|(g2 'x)|(list (dynamic d1) (dynamic d2))|(property 'p1 'q)|(property 'p2 'q)|(1+ 5)|(cadr '(1 2))|(throw 'c1 0)|(return-from b1 0)|(car 5)|(error "p ~a" 1)|`+
	`(catch 'rc (with-handler (lambda (c) (let ((s (create-string-output-stream))) (report-condition c s) (throw 'rc (get-output-stream-string s)))) (car 5)))|(when t 1)|(format (standard-output) "~&p")|(format (error-output) "~&p")|(read-line)|k#w|(foo1 1)`, "|")

func (t *worldTask) finish() []string {
	simos.UseDisk(t.disk)
	l := append([]string{}, t.log...)
	l = append(l, fmt.Sprintf("output %q", t.out.b), fmt.Sprintf("error output %q", t.err.b), fmt.Sprintf("stderr %q", simos.Output(simos.Stderr)), fmt.Sprintf("stdout %q", simos.Output(simos.Stdout)))
	for _, n := range simos.Names() {
		d, _ := simos.Get(n)
		l = append(l, fmt.Sprintf("file %s %q", n, d))
	}
	return l
}

// worldAlone executes one program with nobody else in the process.
func worldAlone(data json.RawMessage, i int) []string {
	p := &WorldsPlan{}
	if err := json.Unmarshal(data, p); err != nil {
		panic(err)
	}
	simos.Reset(nil, -1, nil)
	simrt.Start(simrt.Config{Now: 1_700_000_000_000_000_000, Still: true, Map: p.Map})
	defer simrt.End()
	t := newWorldTask(p, i)
	host = t.h
	t.ctx = context.Background()
	if p.Par {
		gmnlisp.New().DefineGlobal(gmnlisp.NewSymbol("shared-g"), gmnlisp.Integer(0))
	}
	parseShared(p)
	t.run()
	return t.finish()
}

func worldsExec(p *WorldsPlan, r *Run) {
	simos.Reset(nil, -1, nil)
	simrt.Start(simrt.Config{Now: 1_700_000_000_000_000_000, Still: true, Map: p.Map, Limit: 8_000_000})
	defer r.end()
	var ts []*worldTask
	var fns []func()
	var disks []any
	taskHosts = nil
	if p.Par {
		// no evaluation, which would be the first use of the startup code
		gmnlisp.New().DefineGlobal(gmnlisp.NewSymbol("shared-g"), gmnlisp.Integer(0))
	}
	for i, w := range p.Worlds {
		t := newWorldTask(p, i)
		t.ctx = context.Background()
		ts = append(ts, t)
		disks = append(disks, t.disk)
		if w.Tick > 0 {
			simrt.At(simrt.Ticks()+w.Tick, t.fire)
		}
		if p.Yield {
			t.h.hook = func(int, int, gmnlisp.Node) { simrt.Yield() }
		}
		fns = append(fns, t.run)
	}
	parseShared(p)
	for i, t := range ts { // those that exist before the others start
		taskHosts = append(taskHosts, t.h)
		if !p.Worlds[i].Late {
			simos.UseDisk(t.disk)
			t.create()
			host = t.h
			evalText(t.w, context.Background(), "0")
		}
	}
	simos.SetDisks(disks)
	errs := simrt.RunTasks(fns, p.Segs)
	simos.SetDisks(nil)
	taskHosts = nil
	for _, e := range errs {
		if e != nil {
			r.Fail("crash", "a task ends with %v", panicText(e))
		}
	}
	r.Log("switches %d, hash %x", simrt.Switches, simrt.SchedHash())
	want := aloneRuns(p.Check, p, len(ts))
	meet := simrt.Switches > 0
	for i, t := range ts {
		if strings.Contains(strings.Join(t.log, ""), "no end") {
			for _, w := range want {
				if strings.Contains(strings.Join(w, ""), "no end") {
					r.Probe("discarded: no end")
					return
				}
			}
			r.Fail("crash", "interpreter %d does not end", i)
		}
	}
	for i, t := range ts {
		got := t.finish()
		for k, v := range simos.Fired() {
			if v > 0 {
				r.Faults[k] += v
			}
		}
		for k, v := range t.h.fired {
			if v > 0 {
				r.Faults[k] += v
			}
		}
		r.Evals += len(t.log)
		for j, l := range got {
			r.Log("%d: %s", i, l)
			if strings.Contains(l, "crash: ") || strings.HasPrefix(l, "task ends with") || strings.HasPrefix(l, "no end") {
				if j >= len(want[i]) || want[i][j] != l || strings.Contains(l, "concurrent map") {
					r.Fail("crash", "interpreter %d: %s", i, l)
				}
			}
		}
		if t.cut {
			r.Fault("cancel")
			continue
		}
		for j := 0; j < len(got) || j < len(want[i]); j++ {
			g, w := "nothing", "nothing"
			if j < len(got) {
				g = got[j]
			}
			if j < len(want[i]) {
				w = want[i][j]
			}
			if g != w {
				what := ""
				switch {
				case j > len(p.Worlds[i].Items) && j <= len(p.Worlds[i].Items)+len(worldProbes):
					what = worldProbes[j-1-len(p.Worlds[i].Items)] + " "
				case j > 0 && j <= len(p.Worlds[i].Items):
					what = p.Worlds[i].Items[j-1].text(i, p.Par) + " "
				}
				r.Fail("interference", "interpreter %d: %s%s; alone: %s", i, what, g, w)
				break
			}
		}
	}
	if meet {
		r.Key = hashOf(jsonText(p.Worlds))
	}
	r.Inter = fmt.Sprintf("%x", simrt.SchedHash())
}

func worldsShrink(p *WorldsPlan) []*WorldsPlan {
	var out []*WorldsPlan
	put := func(f func(q *WorldsPlan)) {
		q := &WorldsPlan{}
		json.Unmarshal([]byte(jsonText(p)), q)
		f(q)
		out = append(out, q)
	}
	for i, w := range p.Worlds {
		i := i
		if len(p.Worlds) > 2 {
			put(func(q *WorldsPlan) { q.Worlds = without(q.Worlds, i) })
		}
		if len(w.Items) > 3 {
			put(func(q *WorldsPlan) { q.Worlds[i].Items = q.Worlds[i].Items[:len(w.Items)/2] })
			put(func(q *WorldsPlan) { q.Worlds[i].Items = q.Worlds[i].Items[len(w.Items)/2:] })
		}
		for j, it := range w.Items {
			j := j
			put(func(q *WorldsPlan) { q.Worlds[i].Items = without(q.Worlds[i].Items, j) })
			if len(it.In) > 0 {
				put(func(q *WorldsPlan) { q.Worlds[i].Items[j].In = it.In[1:] })
				put(func(q *WorldsPlan) { q.Worlds[i].Items[j].In = nil })
			}
			if it.F != nil {
				put(func(q *WorldsPlan) { q.Worlds[i].Items[j].F = nil })
			}
			if it.Call > 0 {
				put(func(q *WorldsPlan) { q.Worlds[i].Items[j].Call = 0 })
			}
			if it.P != nil {
				for _, s := range it.P.smaller() {
					s := s
					put(func(q *WorldsPlan) { q.Worlds[i].Items[j].P = s })
				}
			}
		}
		if w.Tick > 0 {
			put(func(q *WorldsPlan) { q.Worlds[i].Tick = 0 })
		}
		if w.Fs != nil {
			put(func(q *WorldsPlan) { q.Worlds[i].Fs = nil })
		}
		if w.Late {
			put(func(q *WorldsPlan) { q.Worlds[i].Late = false })
		}
	}
	n := len(p.Segs)
	for d := n; d >= 1; d /= 2 {
		for i := 0; i+d <= n; i += d {
			i, d := i, d
			put(func(q *WorldsPlan) { q.Segs = append(append([]simrt.Seg{}, q.Segs[:i]...), q.Segs[i+d:]...) })
		}
		if len(out) > 400 {
			break
		}
	}
	for i, s := range p.Segs {
		i := i
		if n < 12 && s.Len > 1 {
			put(func(q *WorldsPlan) { q.Segs[i].Len /= 2 })
		}
	}
	return out
}

func worldsExplain(p *WorldsPlan) string {
	var b strings.Builder
	for i, w := range p.Worlds {
		fmt.Fprintf(&b, "; interpreter %d", i)
		if w.Late {
			b.WriteString(", made by its task")
		}
		if w.Tick > 0 {
			fmt.Fprintf(&b, ", cancelled at step %d", w.Tick)
		}
		for _, f := range w.Fs {
			fmt.Fprintf(&b, ", %s", jsonText(f))
		}
		b.WriteString("\n")
		for _, it := range w.Items {
			b.WriteString(it.text(i, p.Par))
			if it.Call > 0 {
				fmt.Fprintf(&b, " ; cancelled in host call %d", it.Call)
			}
			if it.F != nil {
				fmt.Fprintf(&b, " ; host call %d: %s", it.F.At, it.F.Kind)
			}
			b.WriteString("\n")
		}
	}
	b.WriteString("; turns (task, steps): ")
	for i, s := range p.Segs {
		if i > 40 {
			b.WriteString("...")
			break
		}
		if s.Len >= 1<<30 {
			fmt.Fprintf(&b, "%d until host call  ", s.Task)
		} else {
			fmt.Fprintf(&b, "%d,%d  ", s.Task, s.Len)
		}
	}
	b.WriteString("\n")
	return b.String()
}

func init() {
	rule := "programs of two or more interpreters that were switched at least once; distinct by programs"
	register(Check{ID: "C11", Quick: 6000, Thor: 120000, Fresh: true, Rule: rule, Real: realAll, Stub: stubAll}, worldsGen("C11"), worldsExec, worldsShrink, worldsExplain)
	checks["C11"].alone = worldAlone
	register(Check{ID: "C12", Race: true, Stmts: true, Quick: 1600, Thor: 60000, Fresh: true, Rule: rule, Real: realAll, Stub: stubAll}, worldsGen("C12"), worldsExec, worldsShrink, worldsExplain)
	checks["C12"].alone = worldAlone
}
