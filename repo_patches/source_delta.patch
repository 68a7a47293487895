From a7962d65e67000dba3d9ef43679393127af8b982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:17 +0000
Subject: [PATCH 01/61] fix: a tail-recursive loop observes cancellation of its
 context

---
 lambda.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambda.go b/lambda.go
index b431521..c459ed5 100644
--- a/lambda.go
+++ b/lambda.go
@@ -287,6 +287,9 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 		if !errors.As(err, &errTailRecOpt) {
 			break
 		}
+		if err := checkContext(ctx); err != nil {
+			return nil, err
+		}
 		n = errTailRecOpt.params
 		foundSlash = false
 		for _, name := range L.param {
-- 
2.43.0


From b51994a4c9142a1a4adb0025a02fcdc99b289aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:22 +0000
Subject: [PATCH 02/61] fix: startup library is complete even if the first
 evaluation is cancelled

---
 world.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/world.go b/world.go
index 348d176..befef55 100644
--- a/world.go
+++ b/world.go
@@ -552,16 +552,32 @@ func inject(list []Node, f func(left, right Node) (Node, error)) (Node, error) {
 //go:embed startup.lsp
 var startupCode string
 
+// root returns the outermost scope of the interpreter.
+func (w *World) root() *World {
+	for w.parent != nil {
+		w = w.parent
+	}
+	return w
+}
+
 func (w *World) InterpretNodes(ctx context.Context, ns []Node) (Node, error) {
+	var result Node = Null
+	var err error
+
+	// The startup code belongs to the interpreter, not to the caller that
+	// happens to be the first: neither its context nor its scope matters.
 	w.startup.Do(func() {
 		compiled, err := ReadAll(strings.NewReader(startupCode))
 		if err != nil {
 			panic(err.Error())
 		}
-		ns = append(compiled, ns...)
+		root := w.root()
+		for _, c := range compiled {
+			if _, err := root.Eval(context.Background(), c); err != nil {
+				panic(err.Error())
+			}
+		}
 	})
-	var result Node = Null
-	var err error
 
 	for _, c := range ns {
 		result, err = w.Eval(ctx, c)
-- 
2.43.0


From 1318528f5f1da61bc5d1886144837adb3d6201ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:56 +0000
Subject: [PATCH 03/61] fix: :initform is evaluated with the context of
 (create), not of (defclass)

---
 class.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/class.go b/class.go
index 2dab2ac..6a9152a 100644
--- a/class.go
+++ b/class.go
@@ -14,6 +14,7 @@ type _SlotSpec struct {
 	accessor   []Symbol
 	boundp     []Symbol
 	initform   func() (Node, error)
+	initformIn func(context.Context) (Node, error)
 	initarg    []Symbol
 }
 
@@ -145,7 +146,9 @@ func readSlotSpec(ctx context.Context, w *World, list Node) (*_SlotSpec, error)
 				return nil, fmt.Errorf("%#v: %w", keyword.String(), err)
 			}
 		case kwInitForm:
-			slotSpec.initform = func() (Node, error) { return w.Eval(ctx, value) }
+			initformIn := func(ctx context.Context) (Node, error) { return w.Eval(ctx, value) }
+			slotSpec.initform = func() (Node, error) { return initformIn(ctx) }
+			slotSpec.initformIn = initformIn
 		case kwInitArg:
 			if v, err := ExpectSymbol(ctx, w, value); err == nil {
 				slotSpec.initarg = append(slotSpec.initarg, v)
@@ -434,18 +437,18 @@ func (c *_StandardObject) GoString() string {
 	return buffer.String()
 }
 
-func (reciever *_StandardObject) callInitForm(classDef *_StandardClass) error {
+func (reciever *_StandardObject) callInitForm(ctx context.Context, classDef *_StandardClass) error {
 	for _, super := range classDef.Super {
 		if uc, ok := super.(*_StandardClass); ok {
-			if err := reciever.callInitForm(uc); err != nil {
+			if err := reciever.callInitForm(ctx, uc); err != nil {
 				return err
 			}
 		}
 	}
 	for name, slot1 := range classDef.Slot {
-		if _, ok := reciever.Slot[name]; !ok && slot1.initform != nil {
+		if _, ok := reciever.Slot[name]; !ok && slot1.initformIn != nil {
 			var err error
-			reciever.Slot[name], err = slot1.initform()
+			reciever.Slot[name], err = slot1.initformIn(ctx)
 			if err != nil {
 				return err
 			}
@@ -539,7 +542,7 @@ func defaultInitializeObject(ctx context.Context, w *World, args []Node) (Node,
 		initVal, args = args[0], args[1:]
 		this.callInitArg(this._StandardClass, initArg, initVal)
 	}
-	return this, this.callInitForm(this._StandardClass)
+	return this, this.callInitForm(ctx, this._StandardClass)
 }
 
 func defInstanceP(ctx context.Context, w *World, node Node) (Node, error) {
-- 
2.43.0


From 1f5b1fed7de271048641a1928c78c750dda8f71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:38 +0000
Subject: [PATCH 04/61] fix: a failure to flush or close an output file is
 reported

---
 io.go | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/io.go b/io.go
index c85ab9a..6e13292 100644
--- a/io.go
+++ b/io.go
@@ -218,13 +218,31 @@ func cmdWithOpenInputFile(ctx context.Context, w *World, list Node) (Node, error
 }
 
 type _OutputFileStream struct {
-	*bufio.Writer
+	*_WriterNode
+	buffer *bufio.Writer
 	closer io.Closer
+	closed bool
 }
 
+type closedWriter struct{}
+
+func (closedWriter) Write([]byte) (int, error) {
+	return 0, os.ErrClosed
+}
+
+// Close reports that some of the output could not be stored. Output after it
+// is an error, and closing again does nothing.
 func (o *_OutputFileStream) Close() error {
-	o.Writer.Flush()
-	return o.closer.Close()
+	if o.closed {
+		return nil
+	}
+	o.closed = true
+	o._WriterNode._Writer = closedWriter{}
+	err := o.buffer.Flush()
+	if e := o.closer.Close(); err == nil {
+		err = e
+	}
+	return err
 }
 
 func openOutputFile(ctx context.Context, w *World, fnameNode Node) (*_OutputFileStream, error) {
@@ -236,14 +254,19 @@ func openOutputFile(ctx context.Context, w *World, fnameNode Node) (*_OutputFile
 	if err != nil {
 		return nil, err
 	}
-	return &_OutputFileStream{Writer: bufio.NewWriter(writer), closer: writer}, nil
+	buffer := bufio.NewWriter(writer)
+	return &_OutputFileStream{
+		_WriterNode: &_WriterNode{_Writer: buffer},
+		buffer:      buffer,
+		closer:      writer,
+	}, nil
 }
 
 func funOpenOutputFile(ctx context.Context, w *World, arg Node) (Node, error) {
 	return openOutputFile(ctx, w, arg)
 }
 
-func cmdWithOpenOutputFile(ctx context.Context, w *World, list Node) (Node, error) {
+func cmdWithOpenOutputFile(ctx context.Context, w *World, list Node) (result Node, err error) {
 	param, list, err := Shift(list)
 	if err != nil {
 		return nil, err
@@ -264,7 +287,11 @@ func cmdWithOpenOutputFile(ctx context.Context, w *World, list Node) (Node, erro
 	if err != nil {
 		return nil, err
 	}
-	defer stream.Close()
+	defer func() {
+		if e := stream.Close(); e != nil && err == nil {
+			result, err = nil, e
+		}
+	}()
 
 	nw := w.Let(&Pair{Key: symbol, Value: stream})
 	return Progn(ctx, nw, list)
-- 
2.43.0


From 0eced6bd241227a6a55593e248ab25ee9a469b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:10 +0000
Subject: [PATCH 05/61] fix: ~& of (format) knows what was last written to the
 stream

---
 format.go   |  9 ++++-----
 sequence.go |  6 ++++++
 world.go    | 18 ++++++++++++------
 3 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/format.go b/format.go
index e12df35..3df8071 100644
--- a/format.go
+++ b/format.go
@@ -295,6 +295,9 @@ func tAndNilToWriter(w *World, argv []Node, f func(*_WriterNode, []Node) error)
 		rw, ok := output.(*_WriterNode)
 		if !ok {
 			rw = &_WriterNode{_Writer: output}
+			if c, ok := output.(CanKnowLastOutput); ok {
+				rw.lastOutputIsNotLf = !c.IsLastOutputLf()
+			}
 		}
 		err := f(rw, argv[1:])
 		return Null, err
@@ -305,11 +308,7 @@ func tAndNilToWriter(w *World, argv []Node, f func(*_WriterNode, []Node) error)
 		return String(buffer.String()), err
 	}
 	if True.Equals(argv[0], STRICT) {
-		W, ok := w.stdout._Writer.(*_WriterNode)
-		if !ok {
-			W = &_WriterNode{_Writer: w.stdout._Writer}
-		}
-		return Null, f(W, argv[1:])
+		return Null, f(w.stdout, argv[1:])
 	}
 	return nil, MakeError(ErrExpectedWriter, argv[0])
 }
diff --git a/sequence.go b/sequence.go
index 2a7054c..573d1f1 100644
--- a/sequence.go
+++ b/sequence.go
@@ -64,6 +64,12 @@ type StringBuilder struct {
 	strings.Builder
 }
 
+// IsLastOutputLf implements CanKnowLastOutput
+func (S *StringBuilder) IsLastOutputLf() bool {
+	s := S.Builder.String()
+	return len(s) <= 0 || s[len(s)-1] == '\n'
+}
+
 func (S *StringBuilder) Add(ctx context.Context, w *World, n Node) error {
 	r, err := ExpectClass[Rune](ctx, w, n)
 	if err != nil {
diff --git a/world.go b/world.go
index befef55..0f6d057 100644
--- a/world.go
+++ b/world.go
@@ -142,6 +142,14 @@ func (w *_WriterNode) IsLastOutputLf() bool {
 	return !w.lastOutputIsNotLf
 }
 
+// newWriterNode returns writer itself when it already knows its last output.
+func newWriterNode(writer io.Writer) *_WriterNode {
+	if w, ok := writer.(*_WriterNode); ok {
+		return w
+	}
+	return &_WriterNode{_Writer: writer}
+}
+
 func (w *_WriterNode) Write(p []byte) (nn int, err error) {
 	nn, err = w._Writer.Write(p)
 	if nn >= 1 {
@@ -151,16 +159,14 @@ func (w *_WriterNode) Write(p []byte) (nn int, err error) {
 }
 
 func (w *_WriterNode) WriteByte(c byte) error {
-	w.lastOutputIsNotLf = (c != '\n')
-	_, err := w._Writer.Write([]byte{c})
+	_, err := w.Write([]byte{c})
 	return err
 }
 
 func (w *_WriterNode) WriteRune(c rune) (int, error) {
 	var buffer [utf8.UTFMax]byte
 	size := utf8.EncodeRune(buffer[:], c)
-	w.lastOutputIsNotLf = (c != '\n')
-	return w._Writer.Write(buffer[:size])
+	return w.Write(buffer[:size])
 }
 
 func (w *_WriterNode) WriteString(s string) (size int, err error) {
@@ -222,7 +228,7 @@ func (w *World) Stdout() io.Writer {
 }
 
 func (w *World) SetStdout(writer io.Writer) {
-	w.stdout = &_WriterNode{_Writer: writer}
+	w.stdout = newWriterNode(writer)
 }
 
 func funErrorOutput(ctx context.Context, w *World) (Node, error) {
@@ -234,7 +240,7 @@ func (w *World) Errout() io.Writer {
 }
 
 func (w *World) SetErrout(writer io.Writer) {
-	w.errout = &_WriterNode{_Writer: writer}
+	w.errout = newWriterNode(writer)
 }
 
 func funStandardInput(ctx context.Context, w *World) (Node, error) {
-- 
2.43.0


From 72adc52a3ba60a81b22004275e488d24e4807bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:53 +0000
Subject: [PATCH 06/61] fix: (format) reports the failure of its output stream

---
 format.go | 57 ++++++++++++++++++++++++++++++++++++-------------------
 lambda.go |  4 ++--
 2 files changed, 40 insertions(+), 21 deletions(-)

diff --git a/format.go b/format.go
index 3df8071..63460f7 100644
--- a/format.go
+++ b/format.go
@@ -43,11 +43,13 @@ func printInt(w io.Writer, value Node, base int, args ...int) error {
 			padding = ' '
 		}
 		for i := len(body); i < width; i++ {
-			w.Write([]byte{byte(padding)})
+			if _, err := w.Write([]byte{byte(padding)}); err != nil {
+				return err
+			}
 		}
 	}
-	io.WriteString(w, strings.ToUpper(body))
-	return nil
+	_, err := io.WriteString(w, strings.ToUpper(body))
+	return err
 }
 
 func funFormatObject(_ context.Context, w *World, list []Node) (Node, error) {
@@ -104,11 +106,13 @@ func printFloat(w runeWriter, value Node, mark byte, args ...int) error {
 	}
 	if len(body) < width {
 		for i := len(body); i < width; i++ {
-			w.WriteRune(' ')
+			if _, err := w.WriteRune(' '); err != nil {
+				return err
+			}
 		}
 	}
-	io.WriteString(w, body)
-	return nil
+	_, err := io.WriteString(w, body)
+	return err
 }
 
 func funFormatFloat(_ context.Context, w *World, args []Node) (Node, error) {
@@ -117,11 +121,14 @@ func funFormatFloat(_ context.Context, w *World, args []Node) (Node, error) {
 	})
 }
 
-func printSpaces(n int, w io.Writer) {
+func printSpaces(n int, w io.Writer) error {
 	for n > 0 {
-		w.Write([]byte{' '})
+		if _, err := w.Write([]byte{' '}); err != nil {
+			return err
+		}
 		n--
 	}
+	return nil
 }
 
 var NewLineOnFormat = []byte{'\n'}
@@ -142,19 +149,23 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 			break
 		}
 		if c != '~' {
-			tryPrintTo(w, c, PRINC)
+			if _, err := tryPrintTo(w, c, PRINC); err != nil {
+				return err
+			}
 			continue
 		}
 		if IsNone(format) {
-			w.WriteRune('~')
-			break
+			_, err := w.WriteRune('~')
+			return err
 		}
 		c, format, ok = format.firstRuneAndRestString()
 		if !ok {
 			break
 		}
 		if c == '~' {
-			w.Write([]byte{'~'})
+			if _, err := w.Write([]byte{'~'}); err != nil {
+				return err
+			}
 			continue
 		}
 		parameter := []int{}
@@ -226,17 +237,21 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 				continue
 			}
 			for ; n >= 1; n-- {
-				w.Write(NewLineOnFormat)
+				if _, err := w.Write(NewLineOnFormat); err != nil {
+					return err
+				}
 			}
 			continue
 		}
 		if c == '%' {
+			n := 1
 			if len(parameter) >= 1 {
-				for n := parameter[0]; n >= 1; n-- {
-					w.Write(NewLineOnFormat)
+				n = parameter[0]
+			}
+			for ; n >= 1; n-- {
+				if _, err := w.Write(NewLineOnFormat); err != nil {
+					return err
 				}
-			} else {
-				w.Write(NewLineOnFormat)
 			}
 			continue
 		}
@@ -270,7 +285,9 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 				return err
 			}
 			if len(parameter) >= 1 {
-				printSpaces(parameter[0]-n, w)
+				if err := printSpaces(parameter[0]-n, w); err != nil {
+					return err
+				}
 			}
 		case 's', 'S':
 			n, err := tryPrintTo(w, value, PRINT)
@@ -278,7 +295,9 @@ func formatSub(ctx context.Context, world *World, w *_WriterNode, argv []Node) e
 				return err
 			}
 			if len(parameter) >= 1 {
-				printSpaces(parameter[0]-n, w)
+				if err := printSpaces(parameter[0]-n, w); err != nil {
+					return err
+				}
 			}
 		default:
 			err = fmt.Errorf("not support code '%c'", c)
diff --git a/lambda.go b/lambda.go
index c459ed5..ed96b6b 100644
--- a/lambda.go
+++ b/lambda.go
@@ -673,6 +673,6 @@ func cmdExpandDefun(ctx context.Context, w *World, n Node) (Node, error) {
 	result := &Cons{Car: param, Cdr: f.code}
 	result = &Cons{Car: symbol, Cdr: result}
 	result = &Cons{Car: NewSymbol("defun"), Cdr: result}
-	fmt.Fprintln(w.stdout, result.GoString())
-	return Null, nil
+	_, err = fmt.Fprintln(w.stdout, result.GoString())
+	return Null, err
 }
-- 
2.43.0


From ef5e22c3a547a13c40fa6ff52e0ba1f98d8afbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:58 +0000
Subject: [PATCH 07/61] fix: (read), (read-line) and (read-char) do not crash
 at the end of the standard input

---
 io.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/io.go b/io.go
index 6e13292..82ccfcc 100644
--- a/io.go
+++ b/io.go
@@ -25,6 +25,7 @@ func chomp(s string) string {
 
 type _StreamInput struct {
 	reader   _Reader
+	node     Node
 	eofFlag  bool
 	eofValue Node
 }
@@ -50,8 +51,10 @@ func newStreamInput(w *World, argv []Node) (*_StreamInput, error) {
 		if !ok {
 			return nil, fmt.Errorf("expected Reader %#v", argv[0])
 		}
+		this.node = argv[0]
 	case 0:
 		this.reader = w.Stdin()
+		this.node = w.Stdin()
 	}
 	return this, nil
 }
@@ -90,7 +93,7 @@ func funReadLine(ctx context.Context, w *World, argv []Node) (Node, error) {
 	if err == io.EOF {
 		if stream.eofFlag {
 			return callHandler[Node](ctx, w, true, EndOfStream{
-				Stream: argv[0],
+				Stream: stream.node,
 			})
 		}
 		return stream.eofValue, nil
@@ -109,7 +112,7 @@ func funRead(ctx context.Context, w *World, argv []Node) (Node, error) {
 			return stream.eofValue, nil
 		}
 		return callHandler[Node](ctx, w, true, EndOfStream{
-			Stream: argv[0],
+			Stream: stream.node,
 		})
 	}
 	if err != nil {
@@ -133,7 +136,7 @@ func funReadChar(ctx context.Context, w *World, argv []Node) (Node, error) {
 	if err == io.EOF {
 		if stream.eofFlag {
 			return callHandler[Node](ctx, w, true, EndOfStream{
-				Stream: argv[0],
+				Stream: stream.node,
 			})
 		}
 		return stream.eofValue, nil
-- 
2.43.0


From 1b8316da6aaa367595f58ce10c539d1b687f929d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:03 +0000
Subject: [PATCH 08/61] fix: a failing input stream is not mistaken for the end
 of a line or a token

---
 io.go                  | 10 ++++++++--
 pkg/parser/tokenize.go | 11 ++++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/io.go b/io.go
index 82ccfcc..e63b80a 100644
--- a/io.go
+++ b/io.go
@@ -87,6 +87,9 @@ func funReadLine(ctx context.Context, w *World, argv []Node) (Node, error) {
 	} else {
 		s, err = readString(stream.reader, '\n')
 	}
+	if err != nil && err != io.EOF {
+		return nil, err
+	}
 	if len(s) > 0 {
 		return String(chomp(s)), nil
 	}
@@ -98,7 +101,7 @@ func funReadLine(ctx context.Context, w *World, argv []Node) (Node, error) {
 		}
 		return stream.eofValue, nil
 	}
-	return String(chomp(s)), err
+	return String(chomp(s)), nil
 }
 
 func funRead(ctx context.Context, w *World, argv []Node) (Node, error) {
@@ -141,7 +144,10 @@ func funReadChar(ctx context.Context, w *World, argv []Node) (Node, error) {
 		}
 		return stream.eofValue, nil
 	}
-	return Rune(ch), err
+	if err != nil {
+		return nil, err
+	}
+	return Rune(ch), nil
 }
 
 func funClose(ctx context.Context, w *World, arg Node) (Node, error) {
diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index 79c92c6..ace3d03 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -130,8 +130,11 @@ func readToken(r io.RuneScanner) (string, error) {
 			continue
 		}
 		if lastRune == ';' {
-			for err == nil && lastRune != '\n' {
+			for lastRune != '\n' {
 				lastRune, _, err = r.ReadRune()
+				if err != nil {
+					return "", err
+				}
 			}
 			continue
 		}
@@ -144,8 +147,14 @@ func readToken(r io.RuneScanner) (string, error) {
 		}
 		var token string
 		token, err = readtokenWord(r)
+		if err != nil && err != io.EOF {
+			return "", err
+		}
 		if token != "" {
 			return token, nil
 		}
+		if err != nil {
+			return "", err
+		}
 	}
 }
-- 
2.43.0


From 610ad7e19fe07dbd480a5ffc9cc84dc62a7e6ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:41 +0000
Subject: [PATCH 09/61] fix: (unwind-protect) returns the value of the
 protected form

---
 progn.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/progn.go b/progn.go
index 9fe2110..13d7eb9 100644
--- a/progn.go
+++ b/progn.go
@@ -316,11 +316,9 @@ func raiseError(ctx context.Context, w *World, e error) (Node, error) {
 }
 
 func cmdUnwindProtect(ctx context.Context, w *World, list Node) (Node, error) {
-	var formErr error
+	value, list, formErr := w.ShiftAndEvalCar(ctx, list)
 
-	_, list, formErr = w.ShiftAndEvalCar(ctx, list)
-
-	value, err := Progn(ctx, w, list)
+	_, err := Progn(ctx, w, list)
 	if err != nil {
 		var e1 *_ErrEarlyReturns // block & return-from
 		var e2 *_ErrThrown       // catch & throw
-- 
2.43.0


From 6e8a916fa570c34bca6c8adb272508b2d54c1ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:31 +0000
Subject: [PATCH 10/61] fix: (ignore-errors) lets nonlocal exits and
 cancellation through

---
 progn.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/progn.go b/progn.go
index 13d7eb9..f8b8b0c 100644
--- a/progn.go
+++ b/progn.go
@@ -425,9 +425,24 @@ mainloop:
 	return Null, nil
 }
 
+// isNonlocalExit returns true when err is not an error but a transfer of
+// control on the way to its destination.
+func isNonlocalExit(err error) bool {
+	var e1 *_ErrEarlyReturns // block & return-from
+	var e2 *_ErrThrown       // catch & throw
+	var e3 *_ErrTagBody      // tagbody & go
+	return errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3)
+}
+
 func cmdIgnoreErrors(ctx context.Context, w *World, n Node) (Node, error) {
 	val, err := Progn(ctx, w, n)
 	if err != nil {
+		if isNonlocalExit(err) || errors.Is(err, ErrQuit) || errors.Is(err, ErrAbort) {
+			return nil, err
+		}
+		if e := checkContext(ctx); e != nil {
+			return nil, e
+		}
 		return Null, nil
 	}
 	return val, nil
-- 
2.43.0


From 78e968759960dee6b32f61cf2f0303fea190898f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:05 +0000
Subject: [PATCH 11/61] fix: a condition handler is called once, and outside of
 its own extent

---
 cond.go  | 33 ++++++++++++++------------
 error.go | 70 +++++++++++++++++++++++++++++++++++++++++++++-----------
 world.go |  2 +-
 3 files changed, 76 insertions(+), 29 deletions(-)

diff --git a/cond.go b/cond.go
index 5c6e2b7..c8ce648 100644
--- a/cond.go
+++ b/cond.go
@@ -17,7 +17,8 @@ func cmdWithHandler(ctx context.Context, w *World, node Node) (Node, error) {
 	}
 	oldHandler := w.handler
 	defer func() { w.handler = oldHandler }()
-	w.handler = handler
+	current := &_Handler{Callable: handler, outer: oldHandler}
+	w.handler = current
 	value, err := Progn(ctx, w, node)
 
 	// 本来、場合によっては継続処理があるため、ハンドラー関数はエラーが起きた場所で
@@ -29,23 +30,21 @@ func cmdWithHandler(ctx context.Context, w *World, node Node) (Node, error) {
 	// ようにしている
 	// (将来的にはエラーが起きた場所で呼ぶよう変更しなくてはいけない)
 
-	var e1 *_ErrEarlyReturns // block & return-from
-	var e2 *_ErrThrown       // catch & throw
-	var e3 *_ErrTagBody      // tagbody & go
-	if err == nil || errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3) {
+	if err == nil || isNonlocalExit(err) {
 		return value, err
 	}
-
-	var errorValue interface {
-		Node
-		Error() string
+	if current.isInformedOf(err) {
+		if e, ok := err.(*_ErrHandled); ok {
+			err = e.error
+		}
+		return nil, err
 	}
-	var err2 error
-	if errors.As(err, &errorValue) {
-		_, err2 = handler.Call(ctx, w, &Cons{Car: errorValue, Cdr: Null})
-	} else {
-		_, err2 = handler.Call(ctx, w, &Cons{Car: ErrorNode{Value: err}, Cdr: Null})
+
+	var errorValue errorAndNode
+	if !errors.As(err, &errorValue) {
+		errorValue = ErrorNode{Value: err}
 	}
+	_, err2 := w.callHandler(ctx, errorValue)
 	if err2 != nil {
 		return nil, err2
 	}
@@ -81,11 +80,15 @@ func funSignalCondition(ctx context.Context, w *World, cond, continueable Node)
 		}
 		return nil, errors.New(cond.String())
 	}
-	rv, err := w.handler.Call(ctx, w, &Cons{Car: cond})
+	handler := w.handler
+	rv, err := w.callHandler(ctx, cond)
 	var e *_ErrContinueCondition
 	if IsSome(continueable) && errors.As(err, &e) {
 		return e.Value, nil
 	}
+	if err != nil && !isNonlocalExit(err) {
+		err = &_ErrHandled{error: err, handler: handler}
+	}
 	return rv, err
 }
 
diff --git a/error.go b/error.go
index 8c49c20..4791637 100644
--- a/error.go
+++ b/error.go
@@ -134,24 +134,68 @@ type errorAndNode interface {
 	Node
 }
 
-type callHandlerLimitter struct{}
+// _Handler is a handler established by (with-handler).
+type _Handler struct {
+	Callable
+	outer *_Handler
+}
+
+// callHandler runs the current handler in the dynamic context of
+// (with-handler), where only the outer handlers are established.
+func (w *World) callHandler(ctx context.Context, condition Node) (Node, error) {
+	handler := w.handler
+	w.handler = handler.outer
+	defer func() { w.handler = handler }()
+	return handler.Call(ctx, w, UnevalList(condition))
+}
+
+// _ErrHandled is an error that the handler has already been informed of.
+type _ErrHandled struct {
+	error
+	handler *_Handler
+}
+
+func (e *_ErrHandled) Unwrap() error {
+	return e.error
+}
+
+// ClassOf tells raiseError and the others that e must not be raised again.
+func (e *_ErrHandled) ClassOf() Class {
+	return errorClass
+}
+
+// isInformedOf returns whether h has been called for err.
+func (h *_Handler) isInformedOf(err error) bool {
+	var e *_ErrHandled
+	for errors.As(err, &e) {
+		if e.handler == h {
+			return true
+		}
+		err = e.error
+	}
+	return false
+}
 
 func callHandler[T Node](ctx context.Context, w *World, cont bool, condition errorAndNode) (T, error) {
 	var zero T
-	if w.handler != nil {
-		if v := ctx.Value(callHandlerLimitter{}); v != nil {
-			return zero, condition
-		}
-		ctx = context.WithValue(ctx, callHandlerLimitter{}, 1)
-		_, e := w.handler.Call(ctx, w, UnevalList(condition))
-		var ce *_ErrContinueCondition
-		if cont && errors.As(e, &ce) {
-			if v, ok := ce.Value.(T); ok {
-				return v, nil
-			}
+	handler := w.handler
+	if handler == nil {
+		return zero, condition
+	}
+	_, err := w.callHandler(ctx, condition)
+	if err == nil {
+		return zero, &_ErrHandled{error: condition, handler: handler}
+	}
+	if isNonlocalExit(err) {
+		return zero, err
+	}
+	var ce *_ErrContinueCondition
+	if cont && errors.As(err, &ce) {
+		if v, ok := ce.Value.(T); ok {
+			return v, nil
 		}
 	}
-	return zero, condition
+	return zero, &_ErrHandled{error: err, handler: handler}
 }
 
 func ExpectInterface[T Node](ctx context.Context, w *World, v Node, class Class) (T, error) {
diff --git a/world.go b/world.go
index 0f6d057..8c60b74 100644
--- a/world.go
+++ b/world.go
@@ -98,7 +98,7 @@ func (m *Pair) Range(f func(Symbol, Node) bool) {
 
 type shared struct {
 	macro     map[Symbol]*_Macro
-	handler   Callable
+	handler   *_Handler
 	global    Scope
 	defun     FuncScope
 	dynamic   Variables
-- 
2.43.0


From a671d70b2eabe349687315ec6152e7bb10537264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:26 +0000
Subject: [PATCH 12/61] fix: errors in (ignore-errors) do not call the outer
 handlers

---
 progn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/progn.go b/progn.go
index f8b8b0c..ee082c1 100644
--- a/progn.go
+++ b/progn.go
@@ -435,6 +435,11 @@ func isNonlocalExit(err error) bool {
 }
 
 func cmdIgnoreErrors(ctx context.Context, w *World, n Node) (Node, error) {
+	// the errors in n are of no concern to the handlers established outside
+	handler := w.handler
+	defer func() { w.handler = handler }()
+	w.handler = nil
+
 	val, err := Progn(ctx, w, n)
 	if err != nil {
 		if isNonlocalExit(err) || errors.Is(err, ErrQuit) || errors.Is(err, ErrAbort) {
-- 
2.43.0


From 95ac744c337e9aa32783cd68bbf45477d2aebddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:31 +0000
Subject: [PATCH 13/61] fix: (return) in (lambda) leaves the enclosing nil
 block

---
 lambda.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambda.go b/lambda.go
index ed96b6b..6750b53 100644
--- a/lambda.go
+++ b/lambda.go
@@ -312,7 +312,7 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 		}
 	}
 	var errEarlyReturns *_ErrEarlyReturns
-	if errors.As(err, &errEarlyReturns) && errEarlyReturns.Name == L.name {
+	if L.name != nulSymbol && errors.As(err, &errEarlyReturns) && errEarlyReturns.Name == L.name {
 		return errEarlyReturns.Value, nil
 	}
 	if traceDo {
-- 
2.43.0


From e17f2439ea1a3243b3377802e5dcadadc1a14194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:50 +0000
Subject: [PATCH 14/61] fix: (with-standard-input) accepts file streams and is
 always undone

---
 io.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/io.go b/io.go
index e63b80a..87960b7 100644
--- a/io.go
+++ b/io.go
@@ -346,11 +346,14 @@ func cmdWithStandardInput(ctx context.Context, w *World, node Node) (Node, error
 	}
 	stream, ok := _stream.(_ReaderNode)
 	if !ok {
-		return nil, fmt.Errorf("%v: %w", _stream, ErrExpectedStream)
+		reader, ok := _stream.(_Reader)
+		if !ok {
+			return nil, fmt.Errorf("%v: %w", _stream, ErrExpectedStream)
+		}
+		stream = _ReaderNode{_Reader: reader}
 	}
 	save := w.stdin
+	defer func() { w.stdin = save }()
 	w.stdin = stream
-	result, err := Progn(ctx, w, node)
-	w.stdin = save
-	return result, err
+	return Progn(ctx, w, node)
 }
-- 
2.43.0


From c7a4e86f7f3b3c6f7805c839c2f881983ce4b749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:54 +0000
Subject: [PATCH 15/61] fix: symbols and keywords can be made by concurrent
 interpreters, and (gensym) is always new

---
 atom.go | 48 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/atom.go b/atom.go
index 51d2ada..22be981 100644
--- a/atom.go
+++ b/atom.go
@@ -3,6 +3,7 @@ package gmnlisp
 import (
 	"context"
 	"fmt"
+	"sync"
 	"unicode"
 )
 
@@ -55,25 +56,58 @@ func (nt _NullType) Id() int {
 
 var Null Node = _NullType{}
 
+// idMap is shared by all the interpreters of the process.
 type idMap[T ~int] struct {
+	mutex   sync.RWMutex
 	id2name []string
 	name2id map[string]T
 }
 
-func (idm *idMap[T]) NameToId(name string) T {
+func (idm *idMap[T]) lookup(name string) (T, bool) {
+	idm.mutex.RLock()
+	defer idm.mutex.RUnlock()
+	id, ok := idm.name2id[name]
+	return id, ok
+}
+
+// add must be called with idm.mutex locked, and not for existing names.
+func (idm *idMap[T]) add(name string) T {
 	if idm.name2id == nil {
 		idm.name2id = make(map[string]T)
 	}
-	if id, ok := idm.name2id[name]; ok {
-		return id
-	}
 	id := T(len(idm.name2id))
 	idm.name2id[name] = id
 	idm.id2name = append(idm.id2name, name)
 	return id
 }
 
+func (idm *idMap[T]) NameToId(name string) T {
+	if id, ok := idm.lookup(name); ok {
+		return id
+	}
+	idm.mutex.Lock()
+	defer idm.mutex.Unlock()
+	if id, ok := idm.name2id[name]; ok {
+		return id
+	}
+	return idm.add(name)
+}
+
+// newId makes a new id whose name is not used yet.
+func (idm *idMap[T]) newId(makeName func(int) string) T {
+	idm.mutex.Lock()
+	defer idm.mutex.Unlock()
+	for i := len(idm.name2id); ; i++ {
+		name := makeName(i)
+		if _, ok := idm.name2id[name]; !ok {
+			return idm.add(name)
+		}
+	}
+}
+
 func (idm *idMap[T]) Count() int {
+	idm.mutex.RLock()
+	defer idm.mutex.RUnlock()
 	return len(idm.name2id)
 }
 
@@ -89,6 +123,8 @@ func (s _Symbol) Id() int {
 }
 
 func (idm *idMap[T]) IdToName(id T) string {
+	idm.mutex.RLock()
+	defer idm.mutex.RUnlock()
 	if id < 0 || int(id) >= len(idm.id2name) {
 		return "(undefined)"
 	}
@@ -102,7 +138,9 @@ func NewSymbol(s string) _Symbol {
 }
 
 func genSym() _Symbol {
-	return NewSymbol(fmt.Sprintf("-gensym-%d-", symbolManager.Count()))
+	return symbolManager.newId(func(n int) string {
+		return fmt.Sprintf("-gensym-%d-", n)
+	})
 }
 
 func funGensym(ctx context.Context, w *World) (Node, error) {
-- 
2.43.0


From c73f43b919607d0e590a5ca69635c2a686862375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:26 +0000
Subject: [PATCH 16/61] fix: global variables and exported functions can be
 used by concurrent interpreters

---
 world.go | 46 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/world.go b/world.go
index 8c60b74..ecba6d9 100644
--- a/world.go
+++ b/world.go
@@ -50,6 +50,34 @@ func (m Variables) Range(f func(Symbol, Node) bool) {
 	}
 }
 
+// globalVariables are the variables shared by all the interpreters.
+type globalVariables struct {
+	mutex sync.RWMutex
+	vars  Variables
+}
+
+func (g *globalVariables) Get(key Symbol) (Node, bool) {
+	g.mutex.RLock()
+	defer g.mutex.RUnlock()
+	return g.vars.Get(key)
+}
+
+func (g *globalVariables) Set(key Symbol, value Node) {
+	g.mutex.Lock()
+	defer g.mutex.Unlock()
+	g.vars.Set(key, value)
+}
+
+func (g *globalVariables) Range(f func(Symbol, Node) bool) {
+	g.mutex.RLock()
+	snapshot := make(Variables, len(g.vars))
+	for key, val := range g.vars {
+		snapshot[key] = val
+	}
+	g.mutex.RUnlock()
+	snapshot.Range(f)
+}
+
 type Functions map[Symbol]Callable
 
 func (m Functions) Get(key Symbol) (Callable, bool) {
@@ -458,11 +486,18 @@ var autoLoadFunc = Functions{
 	// *sort*end*
 }
 
+// autoLoadMutex guards autoLoadFunc, which is shared by all the interpreters.
+var autoLoadMutex sync.RWMutex
+
 func Export(name Symbol, value Callable) {
+	autoLoadMutex.Lock()
+	defer autoLoadMutex.Unlock()
 	autoLoadFunc[name] = value
 }
 
 func ExportRange(v Functions) {
+	autoLoadMutex.Lock()
+	defer autoLoadMutex.Unlock()
 	for key, val := range v {
 		autoLoadFunc[key] = val
 	}
@@ -477,7 +512,10 @@ func (rw _RootWorld) Get(symbol Symbol) (Callable, bool) {
 	if value, ok := rw[symbol]; ok {
 		return value, true
 	}
-	if value, ok := autoLoadFunc[symbol]; ok {
+	autoLoadMutex.RLock()
+	value, ok := autoLoadFunc[symbol]
+	autoLoadMutex.RUnlock()
+	if ok {
 		return value, true
 	}
 	fname := "embed/" + symbol.String() + ".lsp"
@@ -485,7 +523,7 @@ func (rw _RootWorld) Get(symbol Symbol) (Callable, bool) {
 	script, err := embedLisp.ReadFile(fname)
 	if err == nil {
 		value := &LispString{S: string(script)}
-		autoLoadFunc[symbol] = value
+		Export(symbol, value)
 		return value, true
 	}
 	return nil, false
@@ -499,7 +537,7 @@ func (rw _RootWorld) Range(f func(Symbol, Callable) bool) {
 }
 
 func New() *World {
-	rwvars := &autoLoadVars
+	rwvars := sharedVars
 	rwfuncs := _RootWorld{}
 	w := &World{
 		shared: &shared{
@@ -516,6 +554,8 @@ func New() *World {
 	return w
 }
 
+var sharedVars = &globalVariables{vars: autoLoadVars}
+
 func (w *World) Eval(ctx context.Context, node Node) (Node, error) {
 	type canEval interface {
 		Eval(context.Context, *World) (Node, error)
-- 
2.43.0


From 3bb4eb893b0b3d0630cc81ff65fbfe2b456e4379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:45 +0000
Subject: [PATCH 17/61] fix: library functions are compiled for each
 interpreter, outside of the caller's scope

---
 lambda.go | 23 ++++++++++++++---------
 world.go  |  1 +
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/lambda.go b/lambda.go
index 6750b53..357ed12 100644
--- a/lambda.go
+++ b/lambda.go
@@ -618,20 +618,25 @@ func (f *Function) Call(ctx context.Context, w *World, list Node) (Node, error)
 	return f.F(ctx, w, args)
 }
 
+// LispString is the source code of a function. It is compiled once for each
+// interpreter, whoever the first caller is.
 type LispString struct {
-	S       string
-	compile Node
+	S string
 }
 
 func (L *LispString) Eval(ctx context.Context, w *World) (Node, error) {
-	if L.compile == nil {
-		c, err := w.Interpret(ctx, L.S)
-		if err != nil {
-			return nil, err
-		}
-		L.compile = c
+	if c, ok := w.compiled[L]; ok {
+		return c, nil
+	}
+	c, err := w.root().Interpret(ctx, L.S)
+	if err != nil {
+		return nil, err
+	}
+	if w.compiled == nil {
+		w.compiled = make(map[*LispString]Node)
 	}
-	return L.compile, nil
+	w.compiled[L] = c
+	return c, nil
 }
 
 func (L *LispString) Call(ctx context.Context, w *World, n Node) (Node, error) {
diff --git a/world.go b/world.go
index ecba6d9..33db16d 100644
--- a/world.go
+++ b/world.go
@@ -134,6 +134,7 @@ type shared struct {
 	errout    *_WriterNode
 	stdin     _ReaderNode
 	startup   sync.Once
+	compiled  map[*LispString]Node
 	blockName map[Symbol]struct{}
 	catchTag  map[Node]struct{}
 	goTag     map[Symbol]struct{}
-- 
2.43.0


From 611b045463d705da6414db064c89c19613c4b1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:49 +0000
Subject: [PATCH 18/61] fix: (trace) affects its own interpreter only

---
 lambda.go | 14 +++++---------
 world.go  |  1 +
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/lambda.go b/lambda.go
index 357ed12..af1fa30 100644
--- a/lambda.go
+++ b/lambda.go
@@ -202,8 +202,6 @@ func (t _Lambda) String() string {
 	return buffer.String()
 }
 
-var trace = map[Symbol]int{}
-
 type _ErrTailRecOpt struct {
 	params Node
 }
@@ -219,12 +217,12 @@ func (L *_Lambda) Call(ctx context.Context, w *World, n Node) (Node, error) {
 	}
 	lexical := Variables{}
 	foundSlash := false
-	traceCount, traceDo := trace[L.name]
+	traceCount, traceDo := w.trace[L.name]
 	if traceDo {
 		fmt.Fprintf(os.Stderr, "[%d: (%s", traceCount, L.name)
-		trace[L.name]++
+		w.trace[L.name]++
 		defer func() {
-			trace[L.name]--
+			w.trace[L.name]--
 		}()
 	}
 	for _, name := range L.param {
@@ -497,9 +495,7 @@ func (f SpecialF) Call(ctx context.Context, w *World, n Node) (Node, error) {
 
 func cmdTrace(ctx context.Context, w *World, list Node) (Node, error) {
 	// from CommonLisp
-	if len(trace) > 0 {
-		trace = map[Symbol]int{}
-	}
+	w.trace = map[Symbol]int{}
 	for IsSome(list) {
 		var symbolNode Node
 		var err error
@@ -512,7 +508,7 @@ func cmdTrace(ctx context.Context, w *World, list Node) (Node, error) {
 		if err != nil {
 			return nil, err
 		}
-		trace[symbol] = 0
+		w.trace[symbol] = 0
 	}
 	return Null, nil
 }
diff --git a/world.go b/world.go
index 33db16d..a76c147 100644
--- a/world.go
+++ b/world.go
@@ -138,6 +138,7 @@ type shared struct {
 	blockName map[Symbol]struct{}
 	catchTag  map[Node]struct{}
 	goTag     map[Symbol]struct{}
+	trace     map[Symbol]int
 }
 
 type World struct {
-- 
2.43.0


From c2f9f171147fc8aff596fe4ae352518f855caf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:16 +0000
Subject: [PATCH 19/61] fix: report-condition methods belong to their
 interpreter and class serials are unique

---
 class.go |  8 ++++----
 cond.go  | 17 +++++++++++++----
 world.go |  3 +--
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/class.go b/class.go
index 6a9152a..b7eda1b 100644
--- a/class.go
+++ b/class.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"strings"
+	"sync/atomic"
 )
 
 type _SlotSpec struct {
@@ -178,7 +179,7 @@ var standardClass = &_BuiltInClass{
 		return ok
 	},
 	create: func() Node {
-		classCounter++
+		atomic.AddInt64(&classCounter, 1)
 		return &_StandardClass{}
 	},
 	super: []Class{objectClass},
@@ -258,7 +259,7 @@ func (c *_StandardClass) Create() Node {
 
 var symInitializeObject = NewSymbol("initialize-object")
 
-var classCounter = 0
+var classCounter int64 = 0
 
 func cmdDefClass(ctx context.Context, w *World, args Node) (Node, error) {
 	// (defclass class-name (sc-name*) (slot-spec*) class-opt*)
@@ -272,9 +273,8 @@ func cmdDefClass(ctx context.Context, w *World, args Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	classCounter++
 	class := &_StandardClass{
-		serial: classCounter,
+		serial: int(atomic.AddInt64(&classCounter, 1)),
 		Symbol: className,
 		Slot:   make(map[Symbol]*_SlotSpec),
 	}
diff --git a/cond.go b/cond.go
index c8ce648..411280f 100644
--- a/cond.go
+++ b/cond.go
@@ -61,15 +61,24 @@ func (e *_ErrContinueCondition) Error() string {
 }
 
 var symReportCondition = NewSymbol("report-condition")
-var reportCondition = &_Generic{
-	Symbol:  symReportCondition,
-	argc:    2,
-	methods: []*_Method{},
+
+// newReportCondition makes the generic function for an interpreter, because
+// its methods must not be shared with the others.
+func newReportCondition() *_Generic {
+	return &_Generic{
+		Symbol:  symReportCondition,
+		argc:    2,
+		methods: []*_Method{},
+	}
 }
 
 func funSignalCondition(ctx context.Context, w *World, cond, continueable Node) (Node, error) {
 	if w.handler == nil {
 		buffer := &StringBuilder{}
+		reportCondition, ok := w.defun.Get(symReportCondition)
+		if !ok {
+			return nil, &_UndefinedEntity{name: symReportCondition, space: symFunction}
+		}
 		if _, err := reportCondition.Call(ctx, w, UnevalList(cond, buffer)); err == nil {
 			return nil, errors.New(buffer.String())
 		} else if !errors.Is(err, ErrNoMatchMethods) {
diff --git a/world.go b/world.go
index a76c147..d80a605 100644
--- a/world.go
+++ b/world.go
@@ -484,7 +484,6 @@ var autoLoadFunc = Functions{
 	NewSymbol("with-open-output-file"):          SpecialF(cmdWithOpenOutputFile),
 	NewSymbol("with-standard-input"):            SpecialF(cmdWithStandardInput),
 	NewSymbol("zerop"):                          Function1(funZerop),
-	symReportCondition:                          reportCondition,
 	// *sort*end*
 }
 
@@ -540,7 +539,7 @@ func (rw _RootWorld) Range(f func(Symbol, Callable) bool) {
 
 func New() *World {
 	rwvars := sharedVars
-	rwfuncs := _RootWorld{}
+	rwfuncs := _RootWorld{symReportCondition: newReportCondition()}
 	w := &World{
 		shared: &shared{
 			global:  rwvars,
-- 
2.43.0


From 6698d637c795f54f34f6c6bae95c46ba950a286d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:52 +0000
Subject: [PATCH 20/61] fix: what is printed and the order of :initform do not
 depend on the order of Go's map

---
 class.go | 20 +++++++++++++++++---
 hash.go  | 16 ++++++++++++++--
 world.go |  7 +++++--
 3 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/class.go b/class.go
index b7eda1b..47cfc39 100644
--- a/class.go
+++ b/class.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"sort"
 	"strings"
 	"sync/atomic"
 )
@@ -391,13 +392,24 @@ func (c *_StandardObject) ClassOf() Class {
 	return c._StandardClass
 }
 
+// sortedSymbols returns the keys in the order that does not vary from run to run.
+func sortedSymbols[T any](m map[Symbol]T) []Symbol {
+	keys := make([]Symbol, 0, len(m))
+	for key := range m {
+		keys = append(keys, key)
+	}
+	sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
+	return keys
+}
+
 func (c *_StandardObject) PrintTo(w io.Writer, mode PrintMode) (int, error) {
 	n, err := tryPrintTo(w, c._StandardClass.Symbol, mode)
 	if err != nil {
 		return n, err
 	}
 	delim := []byte{'{'}
-	for key, val := range c.Slot {
+	for _, key := range sortedSymbols(c.Slot) {
+		val := c.Slot[key]
 		n1, err := w.Write(delim)
 		n += n1
 		if err != nil {
@@ -445,7 +457,8 @@ func (reciever *_StandardObject) callInitForm(ctx context.Context, classDef *_St
 			}
 		}
 	}
-	for name, slot1 := range classDef.Slot {
+	for _, name := range sortedSymbols(classDef.Slot) {
+		slot1 := classDef.Slot[name]
 		if _, ok := reciever.Slot[name]; !ok && slot1.initformIn != nil {
 			var err error
 			reciever.Slot[name], err = slot1.initformIn(ctx)
@@ -458,7 +471,8 @@ func (reciever *_StandardObject) callInitForm(ctx context.Context, classDef *_St
 }
 
 func (reciever *_StandardObject) callInitArg(classDef *_StandardClass, initArg Symbol, initVal Node) bool {
-	for name, slot := range classDef.Slot {
+	for _, name := range sortedSymbols(classDef.Slot) {
+		slot := classDef.Slot[name]
 		for _, slotInitArg := range slot.initarg {
 			if slotInitArg == initArg {
 				reciever.Slot[name] = initVal
diff --git a/hash.go b/hash.go
index e330e0c..a27d601 100644
--- a/hash.go
+++ b/hash.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"sort"
 	"strings"
 )
 
@@ -14,10 +15,21 @@ func (h _Hash) Equals(other Node, mode EqlMode) bool {
 }
 
 func (h _Hash) PrintTo(w io.Writer, mode PrintMode) (int, error) {
+	// The order of keys must not depend on that of Go's map
+	type keyText struct {
+		text string
+		key  Node
+	}
+	keys := make([]keyText, 0, len(h))
+	for key := range h {
+		keys = append(keys, keyText{text: fmt.Sprintf("%#v %T", key, key), key: key})
+	}
+	sort.Slice(keys, func(i, j int) bool { return keys[i].text < keys[j].text })
+
 	var wc writeCounter
 	dem := '{'
-	for key, val := range h {
-		if wc.Try(fmt.Fprintf(w, "%c%#v:%#v", dem, key, val)) {
+	for _, k := range keys {
+		if wc.Try(fmt.Fprintf(w, "%c%#v:%#v", dem, k.key, h[k.key])) {
 			return wc.Result()
 		}
 		dem = ','
diff --git a/world.go b/world.go
index d80a605..07e1c80 100644
--- a/world.go
+++ b/world.go
@@ -43,8 +43,8 @@ func (m Variables) Set(key Symbol, value Node) {
 }
 
 func (m Variables) Range(f func(Symbol, Node) bool) {
-	for key, val := range m {
-		if !f(key, val) {
+	for _, key := range sortedSymbols(m) {
+		if !f(key, m[key]) {
 			return
 		}
 	}
@@ -683,6 +683,9 @@ func (w *World) Assert(equation string, expect Node) string {
 func (w *World) Range(f func(Symbol, Node) bool) {
 	marked := map[Symbol]struct{}{}
 	for ; w != nil; w = w.parent {
+		if w.vars == nil { // the scope of (flet) or (labels)
+			continue
+		}
 		w.vars.Range(func(key Symbol, val Node) bool {
 			if _, ok := marked[key]; !ok {
 				if !f(key, val) {
-- 
2.43.0


From ea99c300b79539f8606ca365f080db09c83fb0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:08 +0000
Subject: [PATCH 21/61] fix: (gmn:dump-session) stops at the first output error
 and reports it

---
 world.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/world.go b/world.go
index 07e1c80..5f5f5ad 100644
--- a/world.go
+++ b/world.go
@@ -682,6 +682,7 @@ func (w *World) Assert(equation string, expect Node) string {
 
 func (w *World) Range(f func(Symbol, Node) bool) {
 	marked := map[Symbol]struct{}{}
+	stopped := false
 	for ; w != nil; w = w.parent {
 		if w.vars == nil { // the scope of (flet) or (labels)
 			continue
@@ -689,12 +690,16 @@ func (w *World) Range(f func(Symbol, Node) bool) {
 		w.vars.Range(func(key Symbol, val Node) bool {
 			if _, ok := marked[key]; !ok {
 				if !f(key, val) {
+					stopped = true
 					return false
 				}
 				marked[key] = struct{}{}
 			}
 			return true
 		})
+		if stopped {
+			return
+		}
 	}
 }
 
-- 
2.43.0


From d232aa81fffaf063738e303675c7d982c5899a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:41 +0000
Subject: [PATCH 22/61] fix: a string, symbol, array or comment cut off by the
 end of input is an error

---
 pkg/parser/main.go     |  4 ++--
 pkg/parser/tokenize.go | 22 ++++++++++++++++++----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index 54d4da2..9a619c4 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -75,7 +75,7 @@ func (p *_Parser[N]) readArray(lenDim int, rs io.RuneScanner) (N, error) {
 		if countDim == lenDim-1 {
 			newNode, err := p.ReadNode(rs)
 			if err != nil {
-				return p.Null(), err
+				return p.Null(), tooShort(err)
 			}
 			if newNode == p.parenCloseSymbol {
 				fix[countDim] = true
@@ -92,7 +92,7 @@ func (p *_Parser[N]) readArray(lenDim int, rs io.RuneScanner) (N, error) {
 		} else {
 			token, err := readToken(rs)
 			if err != nil {
-				return p.Null(), err
+				return p.Null(), tooShort(err)
 			}
 			if token == "(" {
 				if !fix[countDim] {
diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index ace3d03..6771c00 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -8,8 +8,19 @@ import (
 	"unicode"
 )
 
+// tooShort is for the end of input where a token is not completed yet.
+func tooShort(err error) error {
+	if err == io.EOF {
+		return ErrTooShortTokens
+	}
+	return err
+}
+
 func skipComment(r io.RuneScanner) (bool, error) {
 	c, _, err := r.ReadRune()
+	if err == io.EOF {
+		return false, nil // the last character is just a sharp
+	}
 	if err != nil {
 		return false, err
 	}
@@ -23,13 +34,13 @@ func skipComment(r io.RuneScanner) (bool, error) {
 	for {
 		c, _, err = r.ReadRune()
 		if err != nil {
-			return true, err
+			return true, tooShort(err)
 		}
 		switch c {
 		case '|':
 			c, _, err = r.ReadRune()
 			if err != nil {
-				return true, err
+				return true, tooShort(err)
 			}
 			if c == '#' {
 				nest--
@@ -42,7 +53,7 @@ func skipComment(r io.RuneScanner) (bool, error) {
 		case '#':
 			c, _, err = r.ReadRune()
 			if err != nil {
-				return true, err
+				return true, tooShort(err)
 			}
 			if c == '|' {
 				nest++
@@ -66,13 +77,16 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 	for {
 		lastRune, _, err := r.ReadRune()
 		if err != nil {
+			if quote || bar4symbol {
+				err = tooShort(err)
+			}
 			return buffer.String(), err
 		}
 
 		if lastRune == '\\' {
 			nextRune, _, err := r.ReadRune()
 			if err != nil {
-				return "", fmt.Errorf("too near EOF: %w", err)
+				return "", fmt.Errorf("too near EOF: %w", tooShort(err))
 			}
 			if nextRune == '\\' {
 				buffer.WriteString(`\\`)
-- 
2.43.0


From 71566902ff8429414a09aab3a777343d3e6efda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:04 +0000
Subject: [PATCH 23/61] fix: (command) and (wildcard) without arguments are
 errors

---
 pkg/command/main.go  | 2 +-
 pkg/wildcard/main.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/command/main.go b/pkg/command/main.go
index 017d875..1587beb 100644
--- a/pkg/command/main.go
+++ b/pkg/command/main.go
@@ -9,7 +9,7 @@ import (
 )
 
 func init() {
-	gmnlisp.Export(gmnlisp.NewSymbol("command"), &gmnlisp.Function{F: funCommand})
+	gmnlisp.Export(gmnlisp.NewSymbol("command"), &gmnlisp.Function{Min: 1, F: funCommand})
 }
 
 func funCommand(ctx context.Context, w *gmnlisp.World, list []gmnlisp.Node) (gmnlisp.Node, error) {
diff --git a/pkg/wildcard/main.go b/pkg/wildcard/main.go
index 8427462..929e90f 100644
--- a/pkg/wildcard/main.go
+++ b/pkg/wildcard/main.go
@@ -9,7 +9,7 @@ import (
 )
 
 func init() {
-	gmnlisp.Export(gmnlisp.NewSymbol("wildcard"), &gmnlisp.Function{F: funWildcard})
+	gmnlisp.Export(gmnlisp.NewSymbol("wildcard"), &gmnlisp.Function{C: 1, F: funWildcard})
 }
 
 func funWildcard(ctx context.Context, w *gmnlisp.World, list []gmnlisp.Node) (gmnlisp.Node, error) {
-- 
2.43.0


From 51e601f101a4c30c1560a39afe41d6054a27e0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:08 +0000
Subject: [PATCH 24/61] fix: (file-length) with a unit of zero bits does not
 crash

---
 io.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/io.go b/io.go
index 87960b7..3a87331 100644
--- a/io.go
+++ b/io.go
@@ -331,6 +331,9 @@ func funFileLength(ctx context.Context, w *World, first, second Node) (Node, err
 		return nil, err
 	}
 	n := int64(_n)
+	if n <= 0 {
+		return callHandler[Node](ctx, w, true, &DomainError{Object: _n, ExpectedClass: integerClass})
+	}
 
 	stat, err := os.Stat(fname)
 	if err != nil {
-- 
2.43.0


From f9f9f1e51049931299a37343ea924d5593d361e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:10 +0000
Subject: [PATCH 25/61] fix: an empty script succeeds, and an error on the
 first line of a script is reported

---
 cmd/gmnlisp/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/gmnlisp/main.go b/cmd/gmnlisp/main.go
index e74eb87..bb56778 100644
--- a/cmd/gmnlisp/main.go
+++ b/cmd/gmnlisp/main.go
@@ -180,11 +180,16 @@ func mains(args []string) error {
 
 		br := bufio.NewReader(fd)
 		magicByte, err := br.Peek(1)
+		if err == io.EOF { // empty script
+			return nil
+		}
 		if err != nil {
 			return fmt.Errorf("%s: %w", args[0], err)
 		}
 		if magicByte[0] == '#' || magicByte[0] == '@' {
-			br.ReadString('\n')
+			if _, err := br.ReadString('\n'); err != nil && err != io.EOF {
+				return fmt.Errorf("%s: %w", args[0], err)
+			}
 		}
 		script, err := io.ReadAll(br)
 		if err != nil {
-- 
2.43.0


From 43522c2f7c7ab114faed2afa50c6de89bba320dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 26/61] fix: gmnlpp reports that its output could not be
 written

---
 examples/gmnlpp/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/examples/gmnlpp/main.go b/examples/gmnlpp/main.go
index 7b16673..fdf321c 100644
--- a/examples/gmnlpp/main.go
+++ b/examples/gmnlpp/main.go
@@ -105,7 +105,9 @@ func replaceReader(lisp *gmnlisp.World, r io.Reader, w, sourceOut io.Writer) (er
 		if err == io.EOF {
 			err = nil
 		}
-		bw.Flush()
+		if e := bw.Flush(); err == nil {
+			err = e
+		}
 		lisp.SetStdout(orgStdout)
 	}()
 
-- 
2.43.0


From 00fd7a13916016da7971ad810eaa313bfd156860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:44 +0000
Subject: [PATCH 27/61] fix: failure of the output is reported for arrays
 without dimensions

---
 array.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/array.go b/array.go
index 89d9cee..c30fb85 100644
--- a/array.go
+++ b/array.go
@@ -46,7 +46,9 @@ func (A *Array) printTo(w io.Writer, mode PrintMode, list []Node, dim []int) ([]
 	dem := byte('(')
 	n := 0
 	if len(dim) < 1 {
-		w.Write([]byte{dem})
+		if _n, err := w.Write([]byte{dem}); err != nil {
+			return nil, n + _n, err
+		}
 	} else {
 		for i := 0; i < dim[0]; i++ {
 			_n, err := w.Write([]byte{dem})
-- 
2.43.0


From 6fbd102c4cd8ac6f2b7715ae037704b19524c349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:54 +0000
Subject: [PATCH 28/61] fix: assigning the variable of (with-open-output-file)
 does not crash

---
 world.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/world.go b/world.go
index 5f5f5ad..ef3117a 100644
--- a/world.go
+++ b/world.go
@@ -116,6 +116,7 @@ func (m *Pair) Get(key Symbol) (Node, bool) {
 func (m *Pair) Set(key Symbol, value Node) {
 	if key == m.Key {
 		m.Value = value
+		return
 	}
 	panic("Pair can be set value")
 }
-- 
2.43.0


From 43a1bda13351e3edc1d544d8b0984cd8c7bfa409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:40 +0000
Subject: [PATCH 29/61] fix: (get-universal-time) is right after the year 2192

---
 misc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misc.go b/misc.go
index 1e1b449..996aefb 100644
--- a/misc.go
+++ b/misc.go
@@ -8,9 +8,9 @@ import (
 func funUniversalTime(ctx context.Context, w *World) (Node, error) {
 	start := time.Date(1900, time.Month(1), 1, 0, 0, 0, 0, time.UTC)
 	now := time.Now()
-	duration := now.Sub(start)
 
-	return Integer(duration / time.Second), nil
+	// time.Duration can not hold the time after the year 2192
+	return Integer(now.Unix() - start.Unix()), nil
 }
 
 func funInternalRealTime(ctx context.Context, w *World) (Node, error) {
-- 
2.43.0


From b545620509c6a0dd2d1f2dfb3bd5731770ce3dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 30/61] fix: (exit), (abort) and cancellation are not
 conditions for (with-handler)

---
 cond.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cond.go b/cond.go
index 411280f..3596737 100644
--- a/cond.go
+++ b/cond.go
@@ -33,6 +33,13 @@ func cmdWithHandler(ctx context.Context, w *World, node Node) (Node, error) {
 	if err == nil || isNonlocalExit(err) {
 		return value, err
 	}
+	// the end of the evaluation is not a condition
+	if errors.Is(err, ErrQuit) || errors.Is(err, ErrAbort) {
+		return nil, err
+	}
+	if e := checkContext(ctx); e != nil {
+		return nil, e
+	}
 	if current.isInformedOf(err) {
 		if e, ok := err.(*_ErrHandled); ok {
 			err = e.error
-- 
2.43.0


From e014afddbbe0c1b27f87dd6ed215ddf96b18af05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:53 +0000
Subject: [PATCH 31/61] fix: a call of a lambda expression in a function body
 does not crash

---
 lambda.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lambda.go b/lambda.go
index af1fa30..d47ae72 100644
--- a/lambda.go
+++ b/lambda.go
@@ -89,9 +89,7 @@ func expandMacroOne(ctx context.Context, w *World, value Node) Node {
 	}
 	symbol, ok := cons.Car.(Symbol)
 	if !ok {
-		car := expandMacroOne(ctx, w, cons.Car)
-		cdr := expandMacroOne(ctx, w, cons.Cdr)
-		return &Cons{Car: car, Cdr: cdr}
+		return nil
 	}
 	macro, ok := w.macro[symbol]
 	if !ok {
-- 
2.43.0


From b17131defb69e6b7300b94eea3bcf601bf8a49b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 32/61] fix: the body of a method sees the scope of its
 definition

---
 generic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generic.go b/generic.go
index 87b9f49..e1d53e9 100644
--- a/generic.go
+++ b/generic.go
@@ -220,7 +220,8 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 		}
 		method.types = append(method.types, type1)
 	}
-	method.method = func(ctx context.Context, w *World, args []Node) (Node, error) {
+	// the body belongs to the scope of (defmethod), not to that of the caller
+	method.method = func(ctx context.Context, _ *World, args []Node) (Node, error) {
 		vars := Variables{}
 		for i, v := range args {
 			if i >= len(paramNames) {
-- 
2.43.0


From 6594c92f88fad6b69094de308ffe56c29de1b33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 33/61] fix: (cerror) signals its condition instead of failing
 itself

---
 embed/cerror.lsp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embed/cerror.lsp b/embed/cerror.lsp
index ce120a8..32909c1 100644
--- a/embed/cerror.lsp
+++ b/embed/cerror.lsp
@@ -4,5 +4,5 @@
         'format-string error-string
         'format-arguments obj)
     (let ((str (create-string-output-stream)))
-      (apply format str continue-string obj)
+      (apply #'format str continue-string obj)
       (get-output-stream-string str))))
-- 
2.43.0


From b431c9bf20a619002ced11f5ff247bdf5cfcdb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 34/61] fix: (go) to a tag of an outer (tagbody) is not lost in
 an inner one

---
 progn.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/progn.go b/progn.go
index ee082c1..f831436 100644
--- a/progn.go
+++ b/progn.go
@@ -407,9 +407,10 @@ mainloop:
 			continue
 		}
 		for IsSome(args) {
-			current, args, err = Shift(args)
-			if err != nil {
-				return nil, err
+			var e error
+			current, args, e = Shift(args)
+			if e != nil {
+				return nil, e
 			}
 			symbol, ok := current.(Symbol)
 			if !ok {
-- 
2.43.0


From 56e7b6315684c3b6441de087e256c2be2e45f4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:58 +0000
Subject: [PATCH 35/61] fix: generic functions, macros, eval and list functions
 observe cancellation

---
 convert.go  |  3 +++
 generic.go  |  3 +++
 lambda.go   |  8 +++++---
 list.go     |  9 +++++++++
 macro.go    |  3 +++
 sequence.go | 33 +++++++++++++++++++++++++++++++--
 utils.go    |  3 +++
 7 files changed, 57 insertions(+), 5 deletions(-)

diff --git a/convert.go b/convert.go
index de9224d..0ebd7be 100644
--- a/convert.go
+++ b/convert.go
@@ -98,6 +98,9 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 		case classVector:
 			var buffer VectorBuilder
 			for IsSome(val) {
+				if err := checkContext(ctx); err != nil {
+					return nil, err
+				}
 				buffer.Add(ctx, w, val.Car)
 				var ok bool
 				val, ok = val.Cdr.(*Cons)
diff --git a/generic.go b/generic.go
index e1d53e9..6dd23dc 100644
--- a/generic.go
+++ b/generic.go
@@ -105,6 +105,9 @@ func cmdDefGeneric(ctx context.Context, w *World, node Node) (Node, error) {
 }
 
 func (c *_Generic) Call(ctx context.Context, w *World, node Node) (Node, error) {
+	if err := checkContext(ctx); err != nil {
+		return nil, err
+	}
 	values := []Node{}
 	for IsSome(node) {
 		var v Node
diff --git a/lambda.go b/lambda.go
index d47ae72..58d62dd 100644
--- a/lambda.go
+++ b/lambda.go
@@ -468,10 +468,12 @@ func cmdApply(ctx context.Context, w *World, list Node) (Node, error) {
 			if err != nil {
 				return nil, err
 			}
-			SeqEach(ctx, w, value, func(n Node) error {
-				newargs.Add(ctx, w, Uneval{n})
-				return nil
+			err = SeqEach(ctx, w, value, func(n Node) error {
+				return newargs.Add(ctx, w, Uneval{n})
 			})
+			if err != nil {
+				return nil, err
+			}
 			return f.Call(ctx, w, newargs.Sequence())
 		}
 		newargs.Add(ctx, w, value)
diff --git a/list.go b/list.go
index a1ae67a..8dd42bf 100644
--- a/list.go
+++ b/list.go
@@ -36,6 +36,9 @@ func funList(_ context.Context, _ *World, list []Node) (Node, error) {
 
 func lastOfList(ctx context.Context, w *World, node Node) (*Cons, error) {
 	for {
+		if err := checkContext(ctx); err != nil {
+			return nil, err
+		}
 		if IsNone(node) {
 			return nil, nil
 		}
@@ -79,6 +82,9 @@ func funAppend(ctx context.Context, w *World, list []Node) (Node, error) {
 	}
 	for _, list1 := range list[:len(list)-1] {
 		for IsSome(list1) {
+			if err := checkContext(ctx); err != nil {
+				return nil, err
+			}
 			value, list1, err = Shift(list1)
 			if err != nil {
 				return nil, err
@@ -118,6 +124,9 @@ func funListp(_ context.Context, _ *World, arg Node) (Node, error) {
 
 func Assoc(ctx context.Context, w *World, key Node, list Node) (Node, error) {
 	for IsSome(list) {
+		if err := checkContext(ctx); err != nil {
+			return nil, err
+		}
 		var element Node
 		var err error
 
diff --git a/macro.go b/macro.go
index bb0c4a2..8ceb67e 100644
--- a/macro.go
+++ b/macro.go
@@ -93,6 +93,9 @@ func expandJoinedForm(n Node) Node {
 }
 
 func (m *_Macro) expand(ctx context.Context, w *World, n Node) (Node, error) {
+	if err := checkContext(ctx); err != nil {
+		return nil, err
+	}
 	var err error
 
 	lexical := Variables{}
diff --git a/sequence.go b/sequence.go
index 573d1f1..c74fc82 100644
--- a/sequence.go
+++ b/sequence.go
@@ -16,6 +16,9 @@ var listClass = registerNewBuiltInClass[Sequence]("<list>")
 
 func SeqEach(ctx context.Context, w *World, list Node, f func(Node) error) error {
 	for IsSome(list) {
+		if err := checkContext(ctx); err != nil {
+			return err
+		}
 		seq, err := ExpectInterface[Sequence](ctx, w, list, listClass)
 		if err != nil {
 			return err
@@ -138,6 +141,9 @@ func MapCar(ctx context.Context, w *World, funcNode Node, sourceSet []Node, stor
 	listSet := make([]Node, len(sourceSet))
 	copy(listSet, sourceSet)
 	for {
+		if err := checkContext(ctx); err != nil {
+			return err
+		}
 		paramSet := make([]Node, len(listSet))
 		for i := 0; i < len(listSet); i++ {
 			if IsNone(listSet[i]) {
@@ -215,6 +221,9 @@ func mapList(ctx context.Context, w *World, funcNode Node, sourceSet []Node, sto
 	listSet := make([]Node, len(sourceSet))
 	copy(listSet, sourceSet)
 	for {
+		if err := checkContext(ctx); err != nil {
+			return err
+		}
 		result, err := _f.Call(ctx, w, listToQuotedList(listSet))
 		if err != nil {
 			return err
@@ -301,8 +310,25 @@ func NReverse(ctx context.Context, w *World, list Node) (Node, error) {
 	return result, nil
 }
 
-func funReverse(_ context.Context, _ *World, arg Node) (Node, error) {
-	return Reverse(arg)
+func funReverse(ctx context.Context, w *World, arg Node) (Node, error) {
+	var result Node = Null
+	for IsSome(arg) {
+		if err := checkContext(ctx); err != nil {
+			return nil, err
+		}
+		var car Node
+		var err error
+
+		car, arg, err = Shift(arg)
+		if err != nil {
+			return nil, err
+		}
+		result = &Cons{
+			Car: car,
+			Cdr: result,
+		}
+	}
+	return result, nil
 }
 
 type SeqBuilder interface {
@@ -341,6 +367,9 @@ func funSubSeq(ctx context.Context, w *World, args []Node) (Node, error) {
 
 func funMember(ctx context.Context, w *World, expr, list Node) (Node, error) {
 	for IsSome(list) {
+		if err := checkContext(ctx); err != nil {
+			return nil, err
+		}
 		seq, err := ExpectInterface[Sequence](ctx, w, list, listClass)
 		if err != nil {
 			return nil, err
diff --git a/utils.go b/utils.go
index dc050b7..e0dca83 100644
--- a/utils.go
+++ b/utils.go
@@ -132,5 +132,8 @@ func MakeError(e error, s any) error {
 }
 
 func funEval(ctx context.Context, w *World, arg Node) (Node, error) {
+	if err := checkContext(ctx); err != nil {
+		return nil, err
+	}
 	return w.Eval(ctx, arg)
 }
-- 
2.43.0


From 214cc2ece0d6c5a0461ec4b2f3f4527484f2963b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:55 +0000
Subject: [PATCH 36/61] Revert "fix: gmnlpp reports that its output could not
 be written"

This reverts commit 43522c2f7c7ab114faed2afa50c6de89bba320dc.
---
 examples/gmnlpp/main.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/examples/gmnlpp/main.go b/examples/gmnlpp/main.go
index fdf321c..7b16673 100644
--- a/examples/gmnlpp/main.go
+++ b/examples/gmnlpp/main.go
@@ -105,9 +105,7 @@ func replaceReader(lisp *gmnlisp.World, r io.Reader, w, sourceOut io.Writer) (er
 		if err == io.EOF {
 			err = nil
 		}
-		if e := bw.Flush(); err == nil {
-			err = e
-		}
+		bw.Flush()
 		lisp.SetStdout(orgStdout)
 	}()
 
-- 
2.43.0


From cc445422f2b7d7210569ea9928d77f12c7bb4f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 37/61] fix: scripts and (load) observe cancellation before
 each form

---
 world.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/world.go b/world.go
index ef3117a..3070992 100644
--- a/world.go
+++ b/world.go
@@ -628,6 +628,9 @@ func (w *World) InterpretNodes(ctx context.Context, ns []Node) (Node, error) {
 	})
 
 	for _, c := range ns {
+		if err := checkContext(ctx); err != nil {
+			return result, err
+		}
 		result, err = w.Eval(ctx, c)
 		if err != nil {
 			return result, err
-- 
2.43.0


From d385aa1a2a5a5f095e8ab85a89bb2ac5d9514fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:02 +0000
Subject: [PATCH 38/61] fix: a dynamic variable bound twice by one dynamic-let
 is restored to the value before it

---
 setq.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/setq.go b/setq.go
index 4d8f66e..0d7872b 100644
--- a/setq.go
+++ b/setq.go
@@ -233,10 +233,14 @@ func (w *World) Dynamic(name Symbol) Node {
 }
 
 func (D *Dynamics) Set(symbol Symbol, newValue Node) {
-	if orig, ok := D.world.dynamic.Get(symbol); ok {
-		D.backups[symbol] = orig
-	} else {
-		D.removes[symbol] = struct{}{}
+	_, backuped := D.backups[symbol]
+	_, removed := D.removes[symbol]
+	if !backuped && !removed { // the first value is the one to restore
+		if orig, ok := D.world.dynamic.Get(symbol); ok {
+			D.backups[symbol] = orig
+		} else {
+			D.removes[symbol] = struct{}{}
+		}
 	}
 	if newValue != nil {
 		D.world.dynamic.Set(symbol, newValue)
-- 
2.43.0


From b95684ab8dd5b0375d4f559164ae633a901862a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:51 +0000
Subject: [PATCH 39/61] fix: (continue-condition) resumes the given condition
 only, through everything in between

---
 cond.go  | 20 ++++++++++++++++----
 error.go | 18 ++++++++++++------
 progn.go |  3 ++-
 world.go | 31 +++++++++++++++++--------------
 4 files changed, 47 insertions(+), 25 deletions(-)

diff --git a/cond.go b/cond.go
index 3596737..3a3af8e 100644
--- a/cond.go
+++ b/cond.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"reflect"
 )
 
 func cmdWithHandler(ctx context.Context, w *World, node Node) (Node, error) {
@@ -51,7 +52,7 @@ func cmdWithHandler(ctx context.Context, w *World, node Node) (Node, error) {
 	if !errors.As(err, &errorValue) {
 		errorValue = ErrorNode{Value: err}
 	}
-	_, err2 := w.callHandler(ctx, errorValue)
+	_, err2 := w.callHandler(ctx, errorValue, false)
 	if err2 != nil {
 		return nil, err2
 	}
@@ -67,6 +68,11 @@ func (e *_ErrContinueCondition) Error() string {
 	return "continue-condition failed for " + e.Value.String()
 }
 
+// sameCondition returns whether a and b are the same object.
+func sameCondition(a, b Node) bool {
+	return reflect.ValueOf(a).Comparable() && reflect.ValueOf(b).Comparable() && a == b
+}
+
 var symReportCondition = NewSymbol("report-condition")
 
 // newReportCondition makes the generic function for an interpreter, because
@@ -97,9 +103,9 @@ func funSignalCondition(ctx context.Context, w *World, cond, continueable Node)
 		return nil, errors.New(cond.String())
 	}
 	handler := w.handler
-	rv, err := w.callHandler(ctx, cond)
+	rv, err := w.callHandler(ctx, cond, IsSome(continueable))
 	var e *_ErrContinueCondition
-	if IsSome(continueable) && errors.As(err, &e) {
+	if IsSome(continueable) && errors.As(err, &e) && sameCondition(e.Cond, cond) {
 		return e.Value, nil
 	}
 	if err != nil && !isNonlocalExit(err) {
@@ -120,5 +126,11 @@ func cmdContinueCondition(ctx context.Context, w *World, node Node) (Node, error
 	if IsSome(node) {
 		return nil, ErrTooManyArguments
 	}
-	return nil, &_ErrContinueCondition{Cond: cond, Value: value}
+	exit := &_ErrContinueCondition{Cond: cond, Value: value}
+	for _, c := range w.continuable {
+		if sameCondition(c, cond) {
+			return nil, exit
+		}
+	}
+	return raiseControlError(ctx, w, errors.New(exit.Error()))
 }
diff --git a/error.go b/error.go
index 4791637..b84e56a 100644
--- a/error.go
+++ b/error.go
@@ -142,10 +142,15 @@ type _Handler struct {
 
 // callHandler runs the current handler in the dynamic context of
 // (with-handler), where only the outer handlers are established.
-func (w *World) callHandler(ctx context.Context, condition Node) (Node, error) {
+func (w *World) callHandler(ctx context.Context, condition Node, continuable bool) (Node, error) {
 	handler := w.handler
 	w.handler = handler.outer
 	defer func() { w.handler = handler }()
+	if continuable {
+		depth := len(w.continuable)
+		w.continuable = append(w.continuable, condition)
+		defer func() { w.continuable = w.continuable[:depth] }()
+	}
 	return handler.Call(ctx, w, UnevalList(condition))
 }
 
@@ -182,18 +187,19 @@ func callHandler[T Node](ctx context.Context, w *World, cont bool, condition err
 	if handler == nil {
 		return zero, condition
 	}
-	_, err := w.callHandler(ctx, condition)
+	_, err := w.callHandler(ctx, condition, cont)
 	if err == nil {
 		return zero, &_ErrHandled{error: condition, handler: handler}
 	}
-	if isNonlocalExit(err) {
-		return zero, err
-	}
 	var ce *_ErrContinueCondition
-	if cont && errors.As(err, &ce) {
+	if cont && errors.As(err, &ce) && sameCondition(ce.Cond, condition) {
 		if v, ok := ce.Value.(T); ok {
 			return v, nil
 		}
+		err = errors.New(ce.Error())
+	}
+	if isNonlocalExit(err) {
+		return zero, err
 	}
 	return zero, &_ErrHandled{error: err, handler: handler}
 }
diff --git a/progn.go b/progn.go
index f831436..a33fa4b 100644
--- a/progn.go
+++ b/progn.go
@@ -432,7 +432,8 @@ func isNonlocalExit(err error) bool {
 	var e1 *_ErrEarlyReturns // block & return-from
 	var e2 *_ErrThrown       // catch & throw
 	var e3 *_ErrTagBody      // tagbody & go
-	return errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3)
+	var e4 *_ErrContinueCondition
+	return errors.As(err, &e1) || errors.As(err, &e2) || errors.As(err, &e3) || errors.As(err, &e4)
 }
 
 func cmdIgnoreErrors(ctx context.Context, w *World, n Node) (Node, error) {
diff --git a/world.go b/world.go
index 3070992..58f3b4c 100644
--- a/world.go
+++ b/world.go
@@ -126,20 +126,23 @@ func (m *Pair) Range(f func(Symbol, Node) bool) {
 }
 
 type shared struct {
-	macro     map[Symbol]*_Macro
-	handler   *_Handler
-	global    Scope
-	defun     FuncScope
-	dynamic   Variables
-	stdout    *_WriterNode
-	errout    *_WriterNode
-	stdin     _ReaderNode
-	startup   sync.Once
-	compiled  map[*LispString]Node
-	blockName map[Symbol]struct{}
-	catchTag  map[Node]struct{}
-	goTag     map[Symbol]struct{}
-	trace     map[Symbol]int
+	macro   map[Symbol]*_Macro
+	handler *_Handler
+	// continuable are the conditions on which handlers are running that may
+	// call (continue-condition)
+	continuable []Node
+	global      Scope
+	defun       FuncScope
+	dynamic     Variables
+	stdout      *_WriterNode
+	errout      *_WriterNode
+	stdin       _ReaderNode
+	startup     sync.Once
+	compiled    map[*LispString]Node
+	blockName   map[Symbol]struct{}
+	catchTag    map[Node]struct{}
+	goTag       map[Symbol]struct{}
+	trace       map[Symbol]int
 }
 
 type World struct {
-- 
2.43.0


From bdf708e32e5baaa90af6be5a2a8cd1412b735579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:14 +0000
Subject: [PATCH 40/61] fix: output lost on leaving with-open-output-file by a
 nonlocal exit is reported

---
 io.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/io.go b/io.go
index 3a87331..881d6a0 100644
--- a/io.go
+++ b/io.go
@@ -297,7 +297,8 @@ func cmdWithOpenOutputFile(ctx context.Context, w *World, list Node) (result Nod
 		return nil, err
 	}
 	defer func() {
-		if e := stream.Close(); e != nil && err == nil {
+		// an error, abort or cancellation in progress is more important
+		if e := stream.Close(); e != nil && (err == nil || isNonlocalExit(err) || errors.Is(err, ErrQuit)) {
 			result, err = nil, e
 		}
 	}()
-- 
2.43.0


From 9151fd9afc479492a0ccad0d7ecec1bf80af5996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:07 +0000
Subject: [PATCH 41/61] fix: a quoted form directly after a block comment was
 read as a symbol

---
 pkg/parser/tokenize.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/parser/tokenize.go b/pkg/parser/tokenize.go
index 6771c00..0d26e6f 100644
--- a/pkg/parser/tokenize.go
+++ b/pkg/parser/tokenize.go
@@ -106,6 +106,10 @@ func readtokenWord(r io.RuneScanner) (string, error) {
 					return "", err
 				}
 				if done {
+					if buffer.Len() == 0 {
+						// a new token starts after the comment
+						return "", nil
+					}
 					continue
 				}
 			}
-- 
2.43.0


From c1dbd162274bdf17f0280ee303c1c7ff11fa1eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:15 +0000
Subject: [PATCH 42/61] fix: wildcard returns an empty list if nothing matches

---
 pkg/wildcard/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/wildcard/main.go b/pkg/wildcard/main.go
index 929e90f..b5cb1b5 100644
--- a/pkg/wildcard/main.go
+++ b/pkg/wildcard/main.go
@@ -21,7 +21,7 @@ func funWildcard(ctx context.Context, w *gmnlisp.World, list []gmnlisp.Node) (gm
 	if err != nil {
 		return nil, fmt.Errorf("%w: %#v", err, pattern)
 	}
-	var result gmnlisp.Node
+	var result gmnlisp.Node = gmnlisp.Null
 	for i := len(files) - 1; i >= 0; i-- {
 		result = &gmnlisp.Cons{
 			Car: gmnlisp.String(files[i]),
-- 
2.43.0


From a8191c92d6ffdfb204fd299f2b27c80465108d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:14 +0000
Subject: [PATCH 43/61] fix: symbols in hash tables are printed by name,
 whatever other interpreters interned

---
 atom.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/atom.go b/atom.go
index 22be981..427ed9f 100644
--- a/atom.go
+++ b/atom.go
@@ -166,6 +166,10 @@ func (s _Symbol) String() string {
 	return symbolManager.IdToName(s)
 }
 
+func (s _Symbol) GoString() string {
+	return s.String()
+}
+
 type Rune rune
 
 var characterClass = registerNewBuiltInClass[Rune]("<character>")
@@ -315,6 +319,10 @@ func (k Keyword) String() string {
 	return keywordManager.IdToName(k)
 }
 
+func (k Keyword) GoString() string {
+	return k.String()
+}
+
 func (k Keyword) Equals(n Node, m EqlMode) bool {
 	ks, ok := n.(Keyword)
 	return ok && k == ks
-- 
2.43.0


From e78f38cae16c2924c205353325326f08636925ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 44/61] fix: printed functions showed memory addresses,
 different in every execution

---
 functionref.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/functionref.go b/functionref.go
index f4ec65c..ea1cbcc 100644
--- a/functionref.go
+++ b/functionref.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"strings"
 )
 
 type FunctionRef struct {
@@ -24,16 +25,32 @@ func (f FunctionRef) Equals(other Node, mode EqlMode) bool {
 	return f.value == _other.value
 }
 
-func (f FunctionRef) PrintTo(w io.Writer, _ PrintMode) (int, error) {
-	return fmt.Fprintf(w, "(function to %#v)", f.value)
+func (f FunctionRef) PrintTo(w io.Writer, mode PrintMode) (int, error) {
+	var wc writeCounter
+	if wc.Try(io.WriteString(w, "(function to ")) {
+		return wc.Result()
+	}
+	if node, ok := f.value.(Node); ok {
+		if wc.Try(tryPrintTo(w, node, mode)) {
+			return wc.Result()
+		}
+	} else if wc.Try(fmt.Fprintf(w, "%T", f.value)) {
+		return wc.Result()
+	}
+	wc.Try(io.WriteString(w, ")"))
+	return wc.Result()
 }
 
 func (f FunctionRef) String() string {
-	return fmt.Sprintf("(function to %#v)", f.value)
+	var buffer strings.Builder
+	f.PrintTo(&buffer, PRINC)
+	return buffer.String()
 }
 
 func (f FunctionRef) GoString() string {
-	return fmt.Sprintf("function to %#v)", f.value)
+	var buffer strings.Builder
+	f.PrintTo(&buffer, PRINT)
+	return buffer.String()
 }
 
 func cmdFunction(ctx context.Context, w *World, node Node) (Node, error) {
-- 
2.43.0


From 759183d77a85ceb264fcdf58cdeae4a1784c817e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 45/61] fix: cancelling (command) waited for orphans of the
 killed program, and handlers took it for an error of the program

---
 pkg/command/main.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/command/main.go b/pkg/command/main.go
index 1587beb..151a009 100644
--- a/pkg/command/main.go
+++ b/pkg/command/main.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"os"
 	"os/exec"
+	"time"
 
 	"github.com/hymkor/gmnlisp"
 )
@@ -12,6 +13,9 @@ func init() {
 	gmnlisp.Export(gmnlisp.NewSymbol("command"), &gmnlisp.Function{Min: 1, F: funCommand})
 }
 
+// waitDelay is how long the output of what a killed program left behind is waited for.
+const waitDelay = time.Second
+
 func funCommand(ctx context.Context, w *gmnlisp.World, list []gmnlisp.Node) (gmnlisp.Node, error) {
 	argv := make([]string, len(list))
 	for i, value := range list {
@@ -22,5 +26,14 @@ func funCommand(ctx context.Context, w *gmnlisp.World, list []gmnlisp.Node) (gmn
 	cmd.Stdout = w.Stdout()
 	cmd.Stderr = w.Errout()
 	cmd.Stdin = os.Stdin // w.Stdin()
-	return gmnlisp.Null, cmd.Run()
+	cmd.Cancel = func() error {
+		// Processes started by the program may survive it and keep its output open
+		cmd.WaitDelay = waitDelay
+		return cmd.Process.Kill()
+	}
+	err := cmd.Run()
+	if err != nil && ctx.Err() != nil {
+		err = ctx.Err() // not an error of the program, which handlers could take
+	}
+	return gmnlisp.Null, err
 }
-- 
2.43.0


From b54f616b658bf7a244ab2945d3d1ee4c65c46784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:32 +0000
Subject: [PATCH 46/61] fix: a throw reaches the (catch) with the same tag, not
 one whose tag looks alike, and any object can be a tag

---
 progn.go | 33 ++++++++++++++++++++-------------
 world.go |  2 +-
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/progn.go b/progn.go
index a33fa4b..45eb3d6 100644
--- a/progn.go
+++ b/progn.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"reflect"
 )
 
 type _ErrEarlyReturns struct {
@@ -117,30 +118,36 @@ func cmdCatch(ctx context.Context, w *World, node Node) (Node, error) {
 		return nil, err
 	}
 
-	if w.catchTag == nil {
-		w.catchTag = make(map[Node]struct{})
-	}
-	if _, ok := w.catchTag[tagForm]; !ok {
-		w.catchTag[tagForm] = struct{}{}
-		defer delete(w.catchTag, tagForm)
-	}
+	depth := len(w.catchTag)
+	w.catchTag = append(w.catchTag, tagForm)
+	defer func() { w.catchTag = w.catchTag[:depth] }()
 
 	var errThrown *_ErrThrown
 	rv, err := Progn(ctx, w, statements)
-	if errors.As(err, &errThrown) && errThrown.TagForm.Equals(tagForm, EQUALP) {
+	if errors.As(err, &errThrown) && isSameTag(errThrown.TagForm, tagForm) {
 		return errThrown.Value, nil
 	}
 	return rv, err
 }
 
 func funThrow(ctx context.Context, w *World, tagForm, value Node) (Node, error) {
-	if w.catchTag == nil {
-		w.catchTag = make(map[Node]struct{})
+	for _, tag := range w.catchTag {
+		if isSameTag(tag, tagForm) {
+			return nil, &_ErrThrown{TagForm: tagForm, Value: value}
+		}
 	}
-	if _, ok := w.catchTag[tagForm]; !ok {
-		return raiseControlError(ctx, w, fmt.Errorf("catch-tag '%s' not found", tagForm.String()))
+	return raiseControlError(ctx, w, fmt.Errorf("catch-tag '%s' not found", tagForm.String()))
+}
+
+// isSameTag returns whether a and b are the same catch tag. Tags that merely
+// look alike are different destinations.
+func isSameTag(a, b Node) bool {
+	v, u := reflect.ValueOf(a), reflect.ValueOf(b)
+	if v.Comparable() && u.Comparable() {
+		return a == b
 	}
-	return nil, &_ErrThrown{TagForm: tagForm, Value: value}
+	// hash tables
+	return v.Kind() == reflect.Map && u.Kind() == reflect.Map && v.Pointer() == u.Pointer()
 }
 
 func cmdCond(ctx context.Context, w *World, list Node) (Node, error) {
diff --git a/world.go b/world.go
index 58f3b4c..d9e4353 100644
--- a/world.go
+++ b/world.go
@@ -140,7 +140,7 @@ type shared struct {
 	startup     sync.Once
 	compiled    map[*LispString]Node
 	blockName   map[Symbol]struct{}
-	catchTag    map[Node]struct{}
+	catchTag    []Node
 	goTag       map[Symbol]struct{}
 	trace       map[Symbol]int
 }
-- 
2.43.0


From 36846f1b722aed3042f54f37e2049ec5e6720085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:18 +0000
Subject: [PATCH 47/61] fix: (eq) crashed the interpreter when it was given
 hash tables

---
 cmds.go  |  2 +-
 progn.go | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmds.go b/cmds.go
index 803753e..74c0ff1 100644
--- a/cmds.go
+++ b/cmds.go
@@ -68,7 +68,7 @@ func equalSub(ctx context.Context, w *World, list []Node, eq func(Node, Node) bo
 
 func funEq(ctx context.Context, w *World, list []Node) (Node, error) {
 	return equalSub(ctx, w, list, func(left, right Node) bool {
-		return left == right
+		return isSame(left, right)
 	})
 }
 
diff --git a/progn.go b/progn.go
index 45eb3d6..3fef788 100644
--- a/progn.go
+++ b/progn.go
@@ -124,7 +124,7 @@ func cmdCatch(ctx context.Context, w *World, node Node) (Node, error) {
 
 	var errThrown *_ErrThrown
 	rv, err := Progn(ctx, w, statements)
-	if errors.As(err, &errThrown) && isSameTag(errThrown.TagForm, tagForm) {
+	if errors.As(err, &errThrown) && isSame(errThrown.TagForm, tagForm) {
 		return errThrown.Value, nil
 	}
 	return rv, err
@@ -132,16 +132,16 @@ func cmdCatch(ctx context.Context, w *World, node Node) (Node, error) {
 
 func funThrow(ctx context.Context, w *World, tagForm, value Node) (Node, error) {
 	for _, tag := range w.catchTag {
-		if isSameTag(tag, tagForm) {
+		if isSame(tag, tagForm) {
 			return nil, &_ErrThrown{TagForm: tagForm, Value: value}
 		}
 	}
 	return raiseControlError(ctx, w, fmt.Errorf("catch-tag '%s' not found", tagForm.String()))
 }
 
-// isSameTag returns whether a and b are the same catch tag. Tags that merely
-// look alike are different destinations.
-func isSameTag(a, b Node) bool {
+// isSame returns whether a and b are the same object. Objects that merely
+// look alike are different ones.
+func isSame(a, b Node) bool {
 	v, u := reflect.ValueOf(a), reflect.ValueOf(b)
 	if v.Comparable() && u.Comparable() {
 		return a == b
-- 
2.43.0


From 0196046c9b5b44306fb563d7d544a0947ff78d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 48/61] fix: Enter at the prompt submits inputs with escaped
 quotation marks in their strings

---
 cmd/gmnlisp/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/gmnlisp/main.go b/cmd/gmnlisp/main.go
index bb56778..a152b98 100644
--- a/cmd/gmnlisp/main.go
+++ b/cmd/gmnlisp/main.go
@@ -102,7 +102,13 @@ func interactive(lisp *gmnlisp.World) error {
 		quote := false
 		count := 0
 		for _, line := range lines {
+			escape := false
 			for _, c := range line {
+				if escape && (c == '"' || c == '\\') {
+					escape = false
+					continue
+				}
+				escape = c == '\\'
 				if c == '"' {
 					quote = !quote
 				}
-- 
2.43.0


From 5edcf323d2ff938787b94613a5bc8260881fe427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 49/61] fix: comparing functions, or arrays of functions or
 hash tables, crashed the interpreter

---
 array.go       |  2 +-
 functionref.go |  6 +-----
 progn.go       | 11 ++++++++---
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/array.go b/array.go
index c30fb85..b9d3a73 100644
--- a/array.go
+++ b/array.go
@@ -120,7 +120,7 @@ func (A *Array) Equals(_B Node, mode EqlMode) bool {
 		return false
 	}
 	for i, v := range A.list {
-		if v != B.list[i] {
+		if !isSame(v, B.list[i]) {
 			return false
 		}
 	}
diff --git a/functionref.go b/functionref.go
index ea1cbcc..bc4ec73 100644
--- a/functionref.go
+++ b/functionref.go
@@ -18,11 +18,7 @@ func (f FunctionRef) ClassOf() Class {
 }
 
 func (f FunctionRef) Equals(other Node, mode EqlMode) bool {
-	_other, ok := other.(FunctionRef)
-	if !ok {
-		return false
-	}
-	return f.value == _other.value
+	return isSame(f, other)
 }
 
 func (f FunctionRef) PrintTo(w io.Writer, mode PrintMode) (int, error) {
diff --git a/progn.go b/progn.go
index 3fef788..7781ee1 100644
--- a/progn.go
+++ b/progn.go
@@ -141,13 +141,18 @@ func funThrow(ctx context.Context, w *World, tagForm, value Node) (Node, error)
 
 // isSame returns whether a and b are the same object. Objects that merely
 // look alike are different ones.
-func isSame(a, b Node) bool {
+func isSame(a, b any) bool {
+	if f, ok := a.(FunctionRef); ok {
+		g, ok := b.(FunctionRef)
+		return ok && isSame(f.value, g.value)
+	}
 	v, u := reflect.ValueOf(a), reflect.ValueOf(b)
 	if v.Comparable() && u.Comparable() {
 		return a == b
 	}
-	// hash tables
-	return v.Kind() == reflect.Map && u.Kind() == reflect.Map && v.Pointer() == u.Pointer()
+	// hash tables and functions of Go
+	k := v.Kind()
+	return (k == reflect.Map || k == reflect.Func) && k == u.Kind() && v.Pointer() == u.Pointer()
 }
 
 func cmdCond(ctx context.Context, w *World, list Node) (Node, error) {
-- 
2.43.0


From 492ea627664c6e233188ac37c476200357ab1191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 50/61] fix: (rem x 0) crashed the interpreter

---
 operator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/operator.go b/operator.go
index adaa3fd..6084c86 100644
--- a/operator.go
+++ b/operator.go
@@ -259,6 +259,9 @@ func funMod(ctx context.Context, w *World, first, second Node) (Node, error) {
 func funRem(ctx context.Context, w *World, first, second Node) (Node, error) {
 	if left, ok := first.(Integer); ok {
 		if right, ok := second.(Integer); ok {
+			if right == 0 {
+				return raiseDivisionByZero(ctx, w, first, second)
+			}
 			return Integer(left % right), nil
 		}
 	}
-- 
2.43.0


From e774ca993f0549eb049b384a4ffa528f7db385c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 51/61] fix: reading #0a(...) or an array of absurd rank
 crashed

---
 pkg/parser/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/main.go b/pkg/parser/main.go
index 9a619c4..a8655eb 100644
--- a/pkg/parser/main.go
+++ b/pkg/parser/main.go
@@ -274,8 +274,8 @@ func (p *_Parser[N]) ReadNode(rs io.RuneScanner) (N, error) {
 	}
 	if m := rxArray.FindStringSubmatch(token); m != nil {
 		dim, err := strconv.Atoi(m[1])
-		if err != nil {
-			panic(err.Error())
+		if err != nil || dim < 1 {
+			return p.Null(), fmt.Errorf("array syntax error: %#v", token)
 		}
 		return p.readArray(dim, rs)
 	}
-- 
2.43.0


From d2c5695edfe75c8b92984ecf9aa2a1512b40106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 52/61] fix: (create) returned unusable functions, hash tables,
 streams, errors and classes, which crashed the interpreter

---
 class.go       |  3 +--
 functionref.go |  2 +-
 hash.go        |  2 +-
 macro.go       |  2 +-
 newtypes.go    | 10 +++++-----
 number.go      |  2 +-
 6 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/class.go b/class.go
index 47cfc39..9df779d 100644
--- a/class.go
+++ b/class.go
@@ -180,8 +180,7 @@ var standardClass = &_BuiltInClass{
 		return ok
 	},
 	create: func() Node {
-		atomic.AddInt64(&classCounter, 1)
-		return &_StandardClass{}
+		return nil
 	},
 	super: []Class{objectClass},
 }
diff --git a/functionref.go b/functionref.go
index bc4ec73..b26d4c8 100644
--- a/functionref.go
+++ b/functionref.go
@@ -11,7 +11,7 @@ type FunctionRef struct {
 	value Callable
 }
 
-var functionRefClassObject = registerNewBuiltInClass[FunctionRef]("<function>")
+var functionRefClassObject = registerNewAbstractClass[FunctionRef]("<function>")
 
 func (f FunctionRef) ClassOf() Class {
 	return functionRefClassObject
diff --git a/hash.go b/hash.go
index a27d601..eb43d57 100644
--- a/hash.go
+++ b/hash.go
@@ -38,7 +38,7 @@ func (h _Hash) PrintTo(w io.Writer, mode PrintMode) (int, error) {
 	return wc.Result()
 }
 
-var hashClass = registerNewBuiltInClass[_Hash]("<hashtable>")
+var hashClass = registerNewAbstractClass[_Hash]("<hashtable>")
 
 func (_Hash) ClassOf() Class {
 	return hashClass
diff --git a/macro.go b/macro.go
index 8ceb67e..4916584 100644
--- a/macro.go
+++ b/macro.go
@@ -17,7 +17,7 @@ type _Macro struct {
 	lexical *World
 }
 
-var macroClass = registerNewBuiltInClass[*_Macro]("<macro>")
+var macroClass = registerNewAbstractClass[*_Macro]("<macro>")
 
 func (*_Macro) ClassOf() Class {
 	return macroClass
diff --git a/newtypes.go b/newtypes.go
index 41f0ec6..501a44a 100644
--- a/newtypes.go
+++ b/newtypes.go
@@ -1,6 +1,6 @@
 package gmnlisp
 
-var stringBuilderClass = registerNewBuiltInClass[*StringBuilder]("<string-builder>")
+var stringBuilderClass = registerNewAbstractClass[*StringBuilder]("<string-builder>")
 
 func (*StringBuilder) ClassOf() Class {
 	return stringBuilderClass
@@ -10,7 +10,7 @@ func (t *StringBuilder) Equals(Node, EqlMode) bool {
 	return false
 }
 
-var inputStreamClass = registerNewBuiltInClass[*inputStream]("<input-stream>")
+var inputStreamClass = registerNewAbstractClass[*inputStream]("<input-stream>")
 
 func (t *inputStream) ClassOf() Class {
 	return inputStreamClass
@@ -24,7 +24,7 @@ func (t *inputStream) String() string {
 	return "(*inputStream)"
 }
 
-var outputFileStreamClass = registerNewBuiltInClass[*_OutputFileStream]("<output-file-stream>")
+var outputFileStreamClass = registerNewAbstractClass[*_OutputFileStream]("<output-file-stream>")
 
 func (*_OutputFileStream) ClassOf() Class {
 	return outputFileStreamClass
@@ -46,7 +46,7 @@ func (t *_Macro) String() string {
 	return "(*_Macro)"
 }
 
-var readerNodeClass = registerNewBuiltInClass[_ReaderNode]("<reader>")
+var readerNodeClass = registerNewAbstractClass[_ReaderNode]("<reader>")
 
 func (_ReaderNode) ClassOf() Class {
 	return readerNodeClass
@@ -60,7 +60,7 @@ func (t _ReaderNode) String() string {
 	return "(_ReaderNode)"
 }
 
-var writerNodeClass = registerNewBuiltInClass[_WriterNode]("<_WriterNode>")
+var writerNodeClass = registerNewAbstractClass[_WriterNode]("<_WriterNode>")
 
 func (_WriterNode) ClassOf() Class {
 	return writerNodeClass
diff --git a/number.go b/number.go
index 78ce32a..0f0e299 100644
--- a/number.go
+++ b/number.go
@@ -90,7 +90,7 @@ type ArithmeticError struct {
 	Class     Class
 }
 
-var arithmeticErrorClass = registerNewBuiltInClass[*ArithmeticError]("<arithmetic-error-class>")
+var arithmeticErrorClass = registerNewAbstractClass[*ArithmeticError]("<arithmetic-error-class>")
 
 func (e *ArithmeticError) ClassOf() Class {
 	if e != nil && e.Class != nil {
-- 
2.43.0


From 44d525f989750458362df0ec71c228f8b6cc5d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:22 +0000
Subject: [PATCH 53/61] fix: (- x) crashed while reporting that x is no number

---
 operator.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/operator.go b/operator.go
index 6084c86..4fe83bc 100644
--- a/operator.go
+++ b/operator.go
@@ -37,12 +37,11 @@ type canMinus interface {
 func funSub(ctx context.Context, w *World, args []Node) (Node, error) {
 	if len(args) == 1 {
 		class := args[0].ClassOf()
-		zero := class.Create()
-		z, err := ExpectInterface[canMinus](ctx, w, zero, class)
-		if err != nil {
-			return nil, err
+		zero, ok := class.Create().(canMinus)
+		if !ok {
+			return nil, MakeError(ErrNotSupportType, args[0])
 		}
-		return z.Sub(ctx, w, args[0])
+		return zero.Sub(ctx, w, args[0])
 	}
 	return inject(args, func(left, right Node) (Node, error) {
 		if _left, ok := left.(canMinus); ok {
-- 
2.43.0


From 8ca1769286dfb134b41112fb10ec35784c5ad16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 54/61] fix: mapcar and the like never ended without a list

---
 sequence.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sequence.go b/sequence.go
index c74fc82..96ffe29 100644
--- a/sequence.go
+++ b/sequence.go
@@ -130,6 +130,9 @@ func funLength(ctx context.Context, w *World, arg Node) (Node, error) {
 }
 
 func MapCar(ctx context.Context, w *World, funcNode Node, sourceSet []Node, store func(Node)) error {
+	if len(sourceSet) <= 0 {
+		return ErrTooFewArguments
+	}
 	f, err := w.Eval(ctx, funcNode)
 	if err != nil {
 		return err
@@ -210,6 +213,9 @@ func listToQuotedList(list []Node) Node {
 }
 
 func mapList(ctx context.Context, w *World, funcNode Node, sourceSet []Node, store func(Node)) error {
+	if len(sourceSet) <= 0 {
+		return ErrTooFewArguments
+	}
 	f, err := w.Eval(ctx, funcNode)
 	if err != nil {
 		return err
-- 
2.43.0


From 9b9b9c6927a615a1a6fd36f79934430f5bf76eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:33 +0000
Subject: [PATCH 55/61] fix: mixed arithmetic does not call handlers for
 operands of the other numeric type

---
 atom.go   |  20 +++++-----
 number.go | 112 +++++++++++++++++++++++++++---------------------------
 2 files changed, 66 insertions(+), 66 deletions(-)

diff --git a/atom.go b/atom.go
index 427ed9f..a70dfb3 100644
--- a/atom.go
+++ b/atom.go
@@ -218,25 +218,25 @@ func (r Rune) Equals(n Node, m EqlMode) bool {
 }
 
 func (r Rune) Add(ctx context.Context, w *World, n Node) (Node, error) {
-	value, err := ExpectClass[Rune](ctx, w, n)
-	if err == nil {
-		return r + value, nil
-	}
 	if value, ok := n.(Integer); ok {
 		return r + Rune(value), nil
 	}
-	return nil, err
+	value, err := ExpectClass[Rune](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return r + value, nil
 }
 
 func (r Rune) Sub(ctx context.Context, w *World, n Node) (Node, error) {
-	value, err := ExpectClass[Rune](ctx, w, n)
-	if err == nil {
-		return r - value, nil
-	}
 	if value, ok := n.(Integer); ok {
 		return r - Rune(value), nil
 	}
-	return nil, err
+	value, err := ExpectClass[Rune](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return r - value, nil
 }
 
 func compareRune(ctx context.Context, w *World, argv []Node, f func(rune) bool) (Node, error) {
diff --git a/number.go b/number.go
index 0f0e299..3aac059 100644
--- a/number.go
+++ b/number.go
@@ -52,36 +52,36 @@ func (i Integer) Equals(n Node, m EqlMode) bool {
 }
 
 func (i Integer) Add(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Integer](ctx, w, n)
-	if err == nil {
-		return i + _n, nil
-	}
 	if _n, ok := n.(Float); ok {
 		return Float(i) + _n, nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Integer](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return i + _n, nil
 }
 
 func (i Integer) Sub(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Integer](ctx, w, n)
-	if err == nil {
-		return i - _n, nil
-	}
 	if _n, ok := n.(Float); ok {
 		return Float(i) - _n, nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Integer](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return i - _n, nil
 }
 
 func (i Integer) Multi(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Integer](ctx, w, n)
-	if err == nil {
-		return i * _n, nil
-	}
 	if _n, ok := n.(Float); ok {
 		return Float(i) * _n, nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Integer](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return i * _n, nil
 }
 
 type ArithmeticError struct {
@@ -147,31 +147,31 @@ func funArithmeticErrorOperands(ctx context.Context, w *World, n Node) (Node, er
 }
 
 func (i Integer) Divide(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Integer](ctx, w, n)
-	if err == nil {
-		if _n == 0 {
-			return raiseDivisionByZero(ctx, w, i, n)
-		}
-		return i / _n, nil
-	}
 	if _n, ok := n.(Float); ok {
 		if _n == 0 {
 			return raiseDivisionByZero(ctx, w, i, n)
 		}
 		return Float(i) / _n, nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Integer](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	if _n == 0 {
+		return raiseDivisionByZero(ctx, w, i, n)
+	}
+	return i / _n, nil
 }
 
 func (i Integer) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
-	_n, err := ExpectClass[Integer](ctx, w, n)
-	if err == nil {
-		return i < _n, nil
-	}
 	if _n, ok := n.(Float); ok {
 		return Float(i) < _n, nil
 	}
-	return false, err
+	_n, err := ExpectClass[Integer](ctx, w, n)
+	if err != nil {
+		return false, err
+	}
+	return i < _n, nil
 }
 
 type Float float64
@@ -200,64 +200,64 @@ func (f Float) Equals(n Node, m EqlMode) bool {
 }
 
 func (f Float) Add(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Float](ctx, w, n)
-	if err == nil {
-		return f + _n, nil
-	}
 	if _n, ok := n.(Integer); ok {
 		return f + Float(_n), nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Float](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return f + _n, nil
 }
 
 func (f Float) Sub(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Float](ctx, w, n)
-	if err == nil {
-		return f - _n, nil
-	}
 	if _n, ok := n.(Integer); ok {
 		return f - Float(_n), nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Float](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return f - _n, nil
 }
 
 func (f Float) Multi(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Float](ctx, w, n)
-	if err == nil {
-		return f * _n, nil
-	}
 	if _n, ok := n.(Integer); ok {
 		return f * Float(_n), nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Float](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	return f * _n, nil
 }
 
 func (f Float) Divide(ctx context.Context, w *World, n Node) (Node, error) {
-	_n, err := ExpectClass[Float](ctx, w, n)
-	if err == nil {
-		if _n == 0 {
-			return raiseDivisionByZero(ctx, w, f, n)
-		}
-		return f / _n, nil
-	}
 	if _n, ok := n.(Integer); ok {
 		if _n == 0 {
 			return raiseDivisionByZero(ctx, w, f, n)
 		}
 		return f / Float(_n), nil
 	}
-	return nil, err
+	_n, err := ExpectClass[Float](ctx, w, n)
+	if err != nil {
+		return nil, err
+	}
+	if _n == 0 {
+		return raiseDivisionByZero(ctx, w, f, n)
+	}
+	return f / _n, nil
 }
 
 func (f Float) LessThan(ctx context.Context, w *World, n Node) (bool, error) {
-	_n, err := ExpectClass[Float](ctx, w, n)
-	if err == nil {
-		return f < _n, nil
-	}
 	if _n, ok := n.(Integer); ok {
 		return f < Float(_n), nil
 	}
-	return false, err
+	_n, err := ExpectClass[Float](ctx, w, n)
+	if err != nil {
+		return false, err
+	}
+	return f < _n, nil
 }
 
 func funSqrt(ctx context.Context, w *World, arg Node) (Node, error) {
-- 
2.43.0


From a9afc1333629def7163499182d0a327ab423b353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:53 +0000
Subject: [PATCH 56/61] fix: create does not go on after an init argument that
 is not a symbol

---
 class.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/class.go b/class.go
index 9df779d..7900917 100644
--- a/class.go
+++ b/class.go
@@ -545,7 +545,7 @@ func defaultInitializeObject(ctx context.Context, w *World, args []Node) (Node,
 		var _initArg Node
 		_initArg, args = args[0], args[1:]
 		initArg, err := ExpectSymbol(ctx, w, _initArg)
-		if !ok {
+		if err != nil {
 			return nil, fmt.Errorf("defaultInitializeObject: initArg: %w: %v", err, _initArg)
 		}
 		if len(args) <= 0 {
-- 
2.43.0


From 9e93720fa19dfc01ca1a890d92a8ff86f19b67f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:57 +0000
Subject: [PATCH 57/61] fix: generic-function-p does not signal errors for what
 is no function

---
 generic.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/generic.go b/generic.go
index 6dd23dc..a6c0498 100644
--- a/generic.go
+++ b/generic.go
@@ -244,12 +244,10 @@ func cmdDefMethod(ctx context.Context, w *World, node Node) (Node, error) {
 }
 
 func funGenericFunctionP(ctx context.Context, w *World, arg Node) (Node, error) {
-	f, err := ExpectFunction(ctx, w, arg)
-	if err != nil {
-		return Null, nil
-	}
-	if _, ok := f.(*_Generic); ok {
-		return True, nil
+	if f, ok := arg.(FunctionRef); ok {
+		if _, ok := f.value.(*_Generic); ok {
+			return True, nil
+		}
 	}
 	return Null, nil
 }
-- 
2.43.0


From 65052c91a4990822ffeadc92465cfeda5520ac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 58/61] fix: assure and the signal the domain error where it
 happens

---
 convert.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/convert.go b/convert.go
index 0ebd7be..8a410ac 100644
--- a/convert.go
+++ b/convert.go
@@ -135,18 +135,15 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 }
 
 func funAssure(ctx context.Context, w *World, first, second Node) (Node, error) {
-	class, ok := first.(Class)
-	if !ok {
-		return nil, &DomainError{
-			Object:        first,
-			ExpectedClass: classClass,
-		}
+	class, err := ExpectInterface[Class](ctx, w, first, classClass)
+	if err != nil {
+		return nil, err
 	}
 	if !class.InstanceP(second) {
-		return nil, &DomainError{
+		return callHandler[Node](ctx, w, true, &DomainError{
 			Object:        second,
 			ExpectedClass: class,
-		}
+		})
 	}
 	return second, nil
 }
-- 
2.43.0


From ebf248fafa822d2c487c5d1f0e50db829feef1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:05 +0000
Subject: [PATCH 59/61] fix: handlers can give the value in place of what
 cannot be parsed

---
 cmds.go    | 4 ++--
 convert.go | 4 ++--
 io.go      | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmds.go b/cmds.go
index 74c0ff1..b568a9e 100644
--- a/cmds.go
+++ b/cmds.go
@@ -198,14 +198,14 @@ func funParseNumber(ctx context.Context, w *World, arg Node) (Node, error) {
 					class = floatingPointUnderflowClass
 				}
 
-				return callHandler[*ArithmeticError](ctx, w, true, &ArithmeticError{
+				return callHandler[Node](ctx, w, true, &ArithmeticError{
 					Operation: FunctionRef{value: Function1(funParseNumber)},
 					Operands:  s,
 					Class:     class,
 				})
 			}
 		}
-		return callHandler[*ParseError](ctx, w, true, &ParseError{
+		return callHandler[Node](ctx, w, true, &ParseError{
 			str:           s,
 			ExpectedClass: numberClass,
 		})
diff --git a/convert.go b/convert.go
index 8a410ac..0811046 100644
--- a/convert.go
+++ b/convert.go
@@ -39,7 +39,7 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 		case integerClass.name:
 			i, err := strconv.ParseInt(val.String(), 10, 64)
 			if err != nil {
-				return callHandler[*ParseError](ctx, w, true, &ParseError{
+				return callHandler[Node](ctx, w, true, &ParseError{
 					str:           String(val.String()),
 					ExpectedClass: integerClass,
 				})
@@ -48,7 +48,7 @@ func cmdConvert(ctx context.Context, w *World, list Node) (Node, error) {
 		case floatClass.name:
 			f, err := strconv.ParseFloat(val.String(), 64)
 			if err != nil {
-				return callHandler[*ParseError](ctx, w, true, &ParseError{
+				return callHandler[Node](ctx, w, true, &ParseError{
 					str:           String(val.String()),
 					ExpectedClass: floatClass,
 				})
diff --git a/io.go b/io.go
index 881d6a0..1db4f26 100644
--- a/io.go
+++ b/io.go
@@ -121,7 +121,7 @@ func funRead(ctx context.Context, w *World, argv []Node) (Node, error) {
 	if err != nil {
 		var numError *strconv.NumError
 		if errors.As(err, &numError) {
-			return callHandler[*ParseError](ctx, w, true, &ParseError{
+			return callHandler[Node](ctx, w, true, &ParseError{
 				str:           String(numError.Num),
 				ExpectedClass: numberClass,
 			})
-- 
2.43.0


From 2cb38ce666bb05af43d3aa807a5b72112d2bbb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:23 +0000
Subject: [PATCH 60/61] fix: handlers are not called for macros expanded ahead
 of the call

---
 lambda.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lambda.go b/lambda.go
index 58d62dd..cfb980e 100644
--- a/lambda.go
+++ b/lambda.go
@@ -125,7 +125,13 @@ func expandMacroOne(ctx context.Context, w *World, value Node) Node {
 	return expandCode
 }
 
+// expandMacroInList expands the macros known already. What fails is left to
+// be expanded again by the call, so that it is no business of the handlers.
 func expandMacroInList(ctx context.Context, w *World, code Node) (Node, error) {
+	handler := w.handler
+	w.handler = nil
+	defer func() { w.handler = handler }()
+
 	var newCode Node
 	for IsSome(code) {
 		var value Node
-- 
2.43.0


From 6cbe75e8be9d6f98c08dff518e9d2c5f32080d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:23 +0000
Subject: [PATCH 61/61] fix: lambda does not take exits made by handlers for
 program errors

---
 lambda.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambda.go b/lambda.go
index cfb980e..22a3e4f 100644
--- a/lambda.go
+++ b/lambda.go
@@ -531,6 +531,9 @@ func raiseProgramError(ctx context.Context, w *World, e error) (Node, error) {
 	if _, ok := e.(interface{ ClassOf() Class }); ok {
 		return nil, e
 	}
+	if isNonlocalExit(e) || errors.Is(e, ErrQuit) || errors.Is(e, ErrAbort) {
+		return nil, e
+	}
 	condition := ProgramError{err: e}
 	return callHandler[Node](ctx, w, false, condition)
 }
-- 
2.43.0

