import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Cancelling the context, or its deadline, stops every evaluation",
"When the context given to an evaluation is cancelled or its deadline passes, the evaluation returns within a bounded number of further steps with an error that is the context's error, whatever construct is looping or recursing: while, dolist, dotimes, for, tail, mutual and plain recursion, local and generic functions, macros, mapping functions, tagbody/go, retry loops built on error handlers, ignore-errors or catch/throw, and loops that read streams. Neither condition handlers that resume nor ignore-errors nor unwind-protect cleanups let the program go on for long after it. Cancellation that comes after the program has finished changes nothing.",
["programs","schedules","fault_sequences"],
"every program assembled from the looping, recursing and retrying constructs; every step at which the context can be cancelled or its deadline can pass",
"No test cancels a context at all; which step the cancellation hits and which construct is running then is a schedule, not an input.",
["lambda.go","progn.go","utils.go","cond.go"],
[("checkContext before function calls, special forms, loop iterations and tail calls","lambda.go, progn.go"),("ignore-errors re-raises the context's error","progn.go cmdIgnoreErrors")],
[("context","the caller's cancellation signal","every Eval/Call")],["return of Interpret","steps executed after the cancellation"])
p("C02","An aborted evaluation leaves the interpreter usable and restored",
"However an evaluation on an interpreter ends early (a Lisp error, an error or a panic of a host function, cancellation at any step, exit or abort, a nonlocal exit without destination), the next evaluation on it (and, if a host function had started it from within another evaluation, the rest of that one) finds dynamic variables, condition handlers, the standard input, and the sets of valid block names, catch tags and go tags as they were before. Definitions and assignments made before the abort stay, and the library keeps working.",
["histories","crash_points","fault_sequences","programs"],
"every history of evaluations on one interpreter where any of them is cut at any step while any nest of binding, handler, redirection and control forms is open",
"The tests never abort an evaluation and then look at the interpreter again; the cut can be at any of thousands of steps.",
["world.go","setq.go","cond.go","progn.go","io.go","error.go"],
[("deferred restoration of dynamic bindings, handlers, standard input and of the tables of blocks and tags","setq.go, cond.go, io.go, progn.go"),("the startup library is evaluated once, independently of the caller's context","world.go InterpretNodes")],
[("dynamic variables, handler, stdin, block names, catch tags, go tags","interpreter-wide mutable state that must be undone","world.go shared")],["probes evaluated after the abort"])
p("C03","Cleanup forms run exactly once, inside out, on every kind of exit",
"The cleanup forms of unwind-protect run exactly once each time control leaves the protected form: normally, by return-from, throw or go, by an error (from Lisp or from a host function), or by exit/abort; nested cleanups run from the innermost to the outermost, each after the protected form and before anything outside of it. The value of the protected form, or the exit in progress, is what continues afterwards, except that an error in a cleanup form replaces it and a nonlocal exit out of a cleanup form is a control error.",
["programs","fault_sequences","crash_points"],
"every nesting of unwind-protect with the control constructs and handlers, every host call at which an error or condition is injected",
"Tests exercise a few hand-written exits; the failing call and the nesting at that moment are what matters.",
["progn.go","cond.go","lambda.go"],
[("unwind-protect evaluates its cleanup forms whatever the outcome of the form","progn.go cmdUnwindProtect")],None,["order of host calls recorded by the simulation"])
p("C04","Streams opened by with-open-... are closed on every exit",
"A file stream opened by with-open-input-file or with-open-output-file is closed exactly once when control leaves the form, whether normally or by an error, an I/O fault, a nonlocal exit, exit/abort, cancellation or a panic in a host function, and also if the file cannot be read or written. Closing a stream explicitly releases its handle at once, closing it again has no further effect, and nothing else keeps a file open.",
["fault_sequences","crash_points","programs"],
"every body and every way of leaving it, every file-system call failing",
"Tests open, read and close without any failure; handles leaked on failing paths are invisible to them.",
["io.go"],[("deferred Close of the scoped stream","io.go cmdWithOpenInputFile, cmdWithOpenOutputFile"),("idempotent Close of output files","io.go")],None,["open handles of the simulated kernel"])
p("C05","Acknowledged file output is on the disk; lost output is reported",
"When closing an output file (by close, or by leaving with-open-output-file) is reported as successful, the file holds exactly the bytes written to the stream, in order, and nothing else. If the file system loses any of it (failing or short writes, a full disk, a failing close), the loss is reported as an error at the latest by close or by leaving the form, and the file holds a prefix of what was written.",
["fault_sequences","histories","inputs"],
"every sequence of writes of any size to any number of files, every file-system call failing or stopping short, every disk size",
"Tests write a few bytes to a healthy file system; buffering hides failures until flush or close.",
["io.go","format.go"],[("buffered writer flushed and closed with its error returned","io.go (*_OutputFileStream).Close")],None,["content of the simulated disk against the result of the evaluation"])
p("C06","Output failures are reported, and what was delivered is a prefix",
"When a stream that an output operation writes to fails, the operation reports the failure as an error: format with every directive and every kind of object, format-char, format-integer, format-float, format-object, expand-defun and the session dump. The bytes delivered before the failure are a prefix of what the same operation delivers without it, and output to the standard streams is delivered in program order before the evaluation goes on.",
["fault_sequences","inputs"],
"every output operation and object, a failure (also after a partial write) at every byte position",
"Tests print to writers that never fail.",
["format.go","cons.go","array.go","hash.go","class.go","world.go"],[("write errors are propagated by the printing functions","format.go, cons.go, array.go")],None,["bytes received by the simulated writer, result of the evaluation"])
p("C07","Fresh-line output knows what was last delivered to the stream",
"The ~& directive starts a new line if and only if the last byte actually delivered to that stream was not a newline, per stream and not per caller, across evaluations, across all output operations and across interleaved use of several streams (standard output, error output, string streams, files). On a stream without output it writes nothing. Failed or partial writes count as far as they were delivered.",
["histories","fault_sequences"],
"every history of output operations on several streams, with failing and partial writes",
"Tests check ~& after one or two writes on one stream.",
["format.go","world.go"],[("writers remember whether the last byte was a newline","world.go _WriterNode")],[("last byte","whether the cursor is at the start of a line","world.go _WriterNode")],["bytes received by each simulated stream"])
p("C08","Reading does not depend on chunking, and I/O errors are never disguised",
"read, read-line and read-char return the same values in the same order from a file or the standard input, however the operating system splits the data into reads, as from a string holding the same text, and each consumes exactly its own part of the input. A read error other than the end of input is reported as an error by the operation that meets it; it is never taken for the end of the input, of a line or of a datum.",
["fault_sequences","inputs","schedules"],
"every text, every mix of read operations on several streams, every split into short reads, a read error at every position",
"Tests read from strings and intact files in one piece.",
["io.go","pkg/parser/tokenize.go","pkg/parser/main.go"],[("token reader over a rune scanner with one rune of push-back","pkg/parser/tokenize.go"),("errors other than end of file are returned","io.go funRead, funReadLine, funReadChar")],None,["values and errors of the read operations against a reference reader"])
p("C09","End of input is signalled once the input is exhausted, and only then",
"At the end of the input, and only there, read, read-line and read-char signal an end-of-stream condition, or return the given end-of-file value if the caller asked for that; they do so again on every further attempt and never crash, whichever stream is used and whichever optional arguments are given. A last line without newline is returned as a line, and input that ends inside a datum (list, string, quoted symbol, block comment) is an error, not the end of the input.",
["inputs","fault_sequences","histories"],
"every text cut at every byte, every sequence of read operations beyond the end, on every kind of input stream",
"Tests hit the end of a string stream a few times; truncation at every byte is not tried.",
["io.go","pkg/parser/tokenize.go","pkg/parser/main.go"],[("end-of-stream condition or value","io.go"),("ErrTooShortTokens","pkg/parser")],None,["values and errors of the read operations"])
p("C10","Loading a file evaluates all of it or nothing",
"load evaluates the forms of a file in order in the calling interpreter if the file can be read completely and parsed; if it cannot be opened, if reading fails at any point, or if the file is cut inside a form, load reports an error and evaluates none of its forms. How the reads are split makes no difference, and the file is closed in every case.",
["fault_sequences","crash_points"],
"every file, truncated at every byte, every failing or short read",
"No test loads a damaged or unreadable file.",
["cmds.go","world.go","io.go"],[("the whole file is read and parsed before evaluation","cmds.go funLoad, world.go InterpretBytes")],None,["effects recorded by host functions"])
p("C11","Interpreters in one process do not affect each other",
"Functions, macros, generic functions and methods (also methods added to report-condition), property lists, dynamic variables, condition handlers, tracing, standard streams, and blocks and tags in progress belong to one interpreter: whatever another interpreter in the same process defines, redefines, binds, aborts or cancels, an interpreter behaves as if it were alone. Only global variables and functions exported by the host program are shared.",
["histories","schedules"],
"every interleaving, at evaluation boundaries, of any number of evaluations on several interpreters, some of which fail or are cancelled",
"Each test uses its own interpreter but none interleaves two and compares with running alone.",
["world.go","lambda.go","cond.go","generic.go","class.go"],[("interpreter-wide state is allocated by New","world.go"),("library functions are compiled per interpreter","lambda.go LispString")],None,["results and output of each interpreter compared with a solo run"])
p("C12","Concurrent evaluations on different interpreters are race-free",
"Different interpreters can evaluate programs at the same time in different goroutines, including creating interpreters, their first use of library functions, defining classes, generating symbols, using global variables and exporting host functions, without data races, deadlocks or crashes. Each evaluation has the same results and output as when it runs alone.",
["schedules","programs"],
"every interleaving of the steps of evaluations on different interpreters",
"Tests are sequential; a race shows only under particular interleavings.",
["world.go","atom.go","lambda.go","class.go","newtypes.go"],[("locks around symbol tables, global variables and exported functions","atom.go, world.go"),("per-interpreter compilation of library functions","lambda.go")],[("symbol tables, globals, exported functions, class serials","process-wide state","atom.go, world.go, class.go")],["race detector reports, results compared with solo runs"])
p("C13","Symbols are interned once; generated symbols are always new",
"Equal names always give the same symbol (or keyword), different names give different ones, and the name of a symbol never changes, no matter how many goroutines intern, generate and print symbols at the same time. A generated symbol is different from every symbol made before by anyone, including ones spelled like generated names.",
["schedules","histories"],
"every interleaving of interning, generation and name lookup by several goroutines",
"Tests intern sequentially.",
["atom.go","newtypes.go"],[("one lock around name to id and id to name tables","atom.go idMap")],[("symbol table","name to id and back","atom.go")],["linearizability of the recorded history against a sequential symbol table"])
p("C14","Results do not depend on the iteration order of Go maps",
"The result, the output and the order of side effects of a program are the same in every execution with the same input: they do not depend on the order in which Go happens to iterate over maps. In particular this holds for hash tables, printed objects and tables, slot initialisation and initargs, class definition, the session dump and variable enumeration.",
["schedules","programs"],
"every iteration order the runtime may choose, for every program",
"One test execution sees one of the orders.",
["class.go","hash.go","world.go","array.go"],[("sorted or insertion-ordered iteration","world.go Variables.Range, class.go, hash.go")],None,["results and output under different map orders"])
p("C15","Time functions follow the clock",
"get-universal-time is the number of seconds since 1900-01-01 00:00 UTC at the moment of the call, independently of the time zone; get-internal-real-time and get-internal-run-time differ between two calls by the elapsed time in the unit given by internal-time-units-per-second. This holds for every clock value (for the last two as far as 64-bit nanoseconds after 2000 reach, that is, up to 2292), across second and era boundaries and when the clock jumps in either direction between calls.",
["schedules","configurations"],
"every clock reading, zone, and jump between calls",
"Tests can only read the present real clock once.",
["misc.go"],[("computed from the clock at each call","misc.go")],[("wall clock","the only source of time","time.Now")],["values against the simulated clock"])
p("C16","The embedded library does not depend on who uses it first",
"A function or macro of the embedded library, and the startup library, behaves the same on every use: its first use may happen anywhere (inside any lexical scope that shadows variables or functions it uses, inside a macro expansion or handler, during an evaluation that is cancelled or fails in the middle of that first use, in another interpreter), and later uses are as if none of that had happened.",
["histories","crash_points","schedules"],
"every library function, every place and step at which its first use is cut or happens",
"Tests use each library function in a fresh interpreter at top level.",
["world.go","lambda.go","embed","startup.lsp"],[("library code is compiled in the root scope of each interpreter","lambda.go LispString.Eval"),("startup with a context of its own","world.go InterpretNodes")],None,["values of library calls compared with first use in a fresh interpreter"])
p("C17","A condition is handled once, by the innermost handler, where it occurs",
"A condition signalled with error, cerror or signal-condition, and a domain, control or program error that the runtime or a host function signals, calls the innermost handler established by with-handler exactly once, in the dynamic context of the signalling operation but with only the outer handlers in force, and the handlers that are established there again afterwards are exactly the ones before. Other errors (undefined names, errors returned by host functions, failing I/O) are handled the same way at the latest when they reach the with-handler form. A handler can resume a continuable condition with a value, leave by a nonlocal exit, or let the error propagate out of the form; errors raised in a handler go to the outer handlers. Errors inside ignore-errors call no handler established outside of it.",
["programs","fault_sequences"],
"every nesting of handlers with the control constructs, every host call at which an error or condition is injected",
"Tests use one handler and one error at a time.",
["cond.go","error.go","progn.go"],[("handler stack replaced during handler calls and restored afterwards","error.go callHandler, cond.go")],[("handler","innermost established handler","world.go shared")],["order of handler and host calls recorded by the simulation against a reference model"])
p("C18","Nonlocal exits reach exactly their destination, through everything",
"return-from, return, throw and go (across functions, closures, loops, mapping functions, handlers, bindings, redirections and cleanup forms) arrive at the innermost active matching destination with their value, undo every dynamic binding and handler in between and skip everything else; without an active destination they are control errors at the place where they are attempted. exit and abort end the evaluation with their own error. None of these is ever swallowed or diverted by ignore-errors, handlers or bindings, whatever faults are injected meanwhile.",
["programs","fault_sequences"],
"every nesting of exits and destinations, every host call at which an error or condition is injected",
"Tests check isolated pairs of exit and destination.",
["progn.go","lambda.go","cond.go","setq.go"],[("exits travel as errors matched by name or tag","progn.go")],[("block names, catch tags, go tags","which destinations are active","world.go shared")],["order of host calls and final result against a reference model"])
p("C19","The command reports every failure of a script through its exit status",
"The gmnlisp command run with -e or with a script file ends with status 0 exactly if the program was read completely and evaluated without an uncaught error (or left by exit/quit), and otherwise with status 1 and a message on standard error: unreadable or missing script, read error at any point, truncated script, Lisp error, abort, failing output. Output before the failure is delivered, a first line starting with # or @ is skipped, script arguments are available in *posix-argv*, and how reads are split makes no difference.",
["fault_sequences","inputs","configurations"],
"every script and argument list, every failing or short read and write",
"The command has no tests.",
["cmd/gmnlisp/main.go","world.go"],[("mains returns the error, main prints it and exits with 1","cmd/gmnlisp/main.go")],None,["exit status, standard output and standard error of the simulated process"])
p("C20","External commands: arguments, status, output and cancellation",
"(command) runs the program named by its first argument with the remaining ones in order and unchanged, passes its standard output and error output on to the interpreter's standard output and error output of that moment, and waits for its end. A program that cannot be started, ends with a nonzero status, is killed, or whose output cannot be delivered makes the call an error, and success is reported only otherwise; cancelling the context while the program runs kills it and ends the evaluation with the context's error, which handlers and ignore-errors do not take, soon afterwards even if something that the program had started keeps its output open; no program is started any more.",
["fault_sequences","schedules","inputs"],
"every argument list, every behaviour of the child, every step of the context's cancellation, output failing at any byte",
"There is no test of external commands.",
["pkg/command/main.go"],[("exec.CommandContext with the interpreter's writers","pkg/command/main.go")],None,["what the simulated child received and what the evaluation returned"])
p("C21","File queries tell the state of the file system at the call",
"probe-file is true exactly if the named file or directory can be examined at that moment, file-length is the size of the file at that moment in complete elements of the given number of bits (nil if it cannot be examined; a number of bits below one is an error), and wildcard lists exactly the existing names that match its pattern. They follow symbolic links (a link that leads nowhere exists as a name, but cannot be examined) and creation, growth, truncation and removal of files between calls, reflect failures of the file system, and have no effect on files or handles.",
["histories","fault_sequences"],
"every history of file changes by the program and from outside, every failing status call",
"Tests query one file in one state.",
["io.go","pkg/wildcard/main.go"],[("each call asks the operating system","io.go funProbeFile, funFileLength; pkg/wildcard")],None,["values against the simulated disk"])
p("C22","The template preprocessor delivers every page completely or fails",
"The gmnlpp command copies the text outside of <% %> in order, inserts the values of <%= %> and the output of the code between, for its file arguments in order or for the standard input if there are none, and ends with status 0 only if all of that was read, evaluated and delivered to the standard output. Any read error, missing file, Lisp error or failing output gives status 1 and a message; what was produced before is still delivered, and how reads are split makes no difference. Line ends are normalised, and a line end at the start of the page or directly after %> belongs to the tag. Arguments name=value define variables for the pages after them.",
["fault_sequences","inputs"],
"every template, every failing or short read and write",
"gmnlpp has no tests.",
["examples/gmnlpp/main.go"],[("buffered output flushed at the end of each page with its error reported","examples/gmnlpp/main.go replaceReader")],None,["exit status and standard output of the simulated process"])

W="It is a pure function of the program text: no schedule, clock, fault or interleaving takes part."
def n(id,title,st,files,why):
    p(id,title,st,["inputs","programs"],"every program or input",why,files,[("see files",", ".join(files))])
p("C23","The interactive prompt survives every error and loses nothing",
"At the prompt, Enter submits an input exactly when its parentheses outside of strings are balanced. The inputs are evaluated in order in one interpreter; the value of each, unless it is nil, is shown on the standard output after what the input itself wrote, and every error (also abort, an incomplete input that was submitted anyway, and failing input and output) is reported on the error output, after which the prompt goes on with everything that was defined or assigned before. Every submitted input, also one that failed, can be recalled from the history. The prompt ends only by exit or quit, with status 0, or when the line editor reports the end of its input, an interrupt or an error; an error is a failure of the command, with a status that is not 0.",
["histories","fault_sequences","inputs"],
"every history of inputs at one prompt, complete or not, typed with any line breaks, failing in any way, with the standard streams and files failing at any byte",
"The loop has no tests.",
["cmd/gmnlisp/main.go","world.go"],[("interactive reads, evaluates, reports and goes on","cmd/gmnlisp/main.go")],[("history and interpreter","kept over errors","cmd/gmnlisp/main.go")],["standard output and error output of the simulated process, input by input, and whether the line editor is asked again"])
n("D01","Printed data read back as equal data","Printing a datum in its readable form and reading the text gives an equal datum, for all numbers, strings, characters, symbols, keywords, lists, dotted pairs and arrays.",["format.go","cons.go","array.go","string.go","pkg/parser/main.go","parse.go"],"Tests print and read single examples.")
n("D02","Integer division and rounding follow ISLisp","Division, floor, ceiling, round, truncate, mod and rem follow ISLisp for every combination of signs and types, and division by zero is an arithmetic error.",["number.go","operator.go"],"Tests sample a few operands.")
n("D03","Lexical scope and closures","A variable reference always means the innermost lexically enclosing binding; closures keep and share their bindings after the binding form is left.",["world.go","setq.go","lambda.go"],"Tests sample a few closures.")
n("D04","Tail calls equal ordinary calls","A self tail call has the same result as an ordinary call and does not consume stack, for fixed and rest parameters and in every tail position.",["lambda.go"],"Tests sample a few loops.")
n("D05","Generic functions call an applicable method only","For every class graph and set of methods the method that is called is applicable to the classes of the arguments, and slot readers, writers, initargs and initforms follow the class definition.",["generic.go","class.go","builtinclass.go"],"Tests define a handful of classes.")
n("D06","Sequences, arrays, strings and hash tables follow ISLisp","Element access, update, copy, search and conversion agree with a mathematical model for every index and content, and out-of-range access is an error.",["sequence.go","array.go","string.go","hash.go","convert.go","list.go"],"Tests sample a few values.")
n("D07","Macro expansion is what the macro definition says","A macro call evaluates the form its definition computes from the unevaluated arguments, in the scope of the call, with quasiquotation and spliced arguments expanded as written.",["macro.go","cmds.go"],"Tests expand a few macros.")
n("D08","No text makes the reader or evaluator crash","Reading and evaluating any text ends with a value or an error, never with a crash of the host program.",["pkg/parser/main.go","pkg/parser/tokenize.go","world.go"],"Tests evaluate well-formed programs.")
n("D09","Regular-expression and substitution extensions","The optional regular-expression and substitution functions agree with Go's regexp and strings packages for every pattern and text.",["pkg/regexp/main.go","pkg/subst/main.go"],"Tests run a few patterns.")
open('properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
