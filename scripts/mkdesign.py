import json,glob,re
p='/verif/DESIGN.md'
s=open('/verif/DESIGN.md').read()
checks=[
("C01","an endless program built from one looping or recursing construct (about forty kinds) in any wrapping (handlers, ignore-errors, cleanups, macros, streams), or a generated finite one; the context is cancelled at a seeded step, in a host call, or its virtual deadline passes","bounded liveness: at most N further steps (N fixed, far above what one primitive may take), the error is the context's; cancellation after the end changes nothing"),
("C02","one to six evaluations on one interpreter, each leaving open bindings, handlers, redirections, blocks, tags, catches by an injected abort; some are started by a host function out of another evaluation","differential: the same interpreter without the episode must give the same answers to the probes; explicit probes of dynamic variables, streams, handlers, tags"),
("C03","generated programs with unwind-protect, host faults at seeded calls","reference model of control flow (model.go): order and number of cleanups, which exit wins"),
("C04","generated programs that open, use and close files, with failing opens, reads, writes, closes, panics, cancellation","handles of the simulated kernel at every leave, close count per handle, model"),
("C05","evaluations that write files on a disk with a capacity, short/failing writes, failing closes","at each acknowledgement (successful close or leave) the file holds exactly the bytes; at any time a prefix"),
("C06","sequences of output operations (every directive, every kind of object) on streams that fail at seeded bytes once or for good","a failure of the sink during an operation must be reported by it; delivered bytes are a prefix of the same operation without failure"),
("C07","interleaved output on several streams with partial writes, replaced streams and the host writing too","the fresh-line rule computed from the bytes that arrived"),
("C08","read, read-line, read-char on one to three streams, text in seeded chunks, read errors at seeded offsets","reference reader; an operation that needs a byte behind the error must report it"),
("C09","the same with text cut at seeded bytes and reading going on beyond the end, all forms of end-of-file arguments","reference reader: value, end of input, or cut inside a datum"),
("C10","files, loads and nested loads; open failures, read failures at a byte, cuts at a byte, split reads, changes between loads, cancellation","reference model: all forms in order or none and an error; handles"),
("C11","two to five interpreters in one process, whose evaluations are interleaved at steps and host calls, with aborts, faults, cancellation","each interpreter's history equals that of the same program alone in its own process"),
("C12","two to six goroutines, switched at statements by the seed, built with the race detector; the scheduler's own synchronisation is hidden from the detector","no race, deadlock, crash; results equal to running alone"),
("C13","tasks that intern, print and generate symbols, switched at statements","history against a table of names; race detector"),
("C14","one program executed under several seeded orders of every iteration over a Go map, in fresh processes, with faults","everything observable is identical"),
("C15","wall and monotonic clocks with jumps, speeds, zones; readings between and across jumps; eras from 1900 to 12000","every reading against the clock within the ticks of its own execution"),
("C16","first uses of library functions and macros in hostile scopes, macro expansions, handlers; cut or failed in the middle; in a fresh process","the same use in an interpreter that had used the library undisturbed"),
("C17","programs with handlers, conditions, continue-condition, ignore-errors, host faults; single calls of anything in the library with odd arguments inside of handlers","reference model; the same call alone: handlers are called once, at the failing form, for a call that fails, and never for one that does not; what a handler gives takes the place of the argument or of the operation"),
("C18","programs with blocks, catches, tagbodies, exits, aborts; single calls of anything in the library left from a handler, an argument or a callback","reference model; whoever leaves arrives"),
("C19","whole processes of the command: script file, -e, standard input, arguments, faults on all of them","status, output and message against a model of the command"),
("C20","evaluations that run simulated children (output in pieces, statuses, signals, orphans), failing sinks, cancellation","model of delivery, order, status and of which processes remain"),
("C21","queries about a file system that changes or fails between calls","state at the call"),
("C22","whole processes of gmnlpp","model of the page; five known findings are the exact refusals of the pinned commit"),
("C23","sessions of 3 to 26 inputs at the prompt by a simulated user at the line editor, faults on the standard streams and files","model of what each input prints, of the submission rule and of how the session ends"),
]
t="| check | what is generated and injected | oracle |\n|---|---|---|\n"+"".join("| %s | %s | %s |\n"%c for c in checks)
t+='''
What the oracles trust: the reference model (C03, C04, C17, C18), the reference reader (C08, C09), the models of the
command, of gmnlpp and of the prompt (C19, C22, C23). Everything else is differential against the same code undisturbed,
or judged by the state of the simulated kernel, clock and processes. What cannot be seen that way: a change that makes
the undisturbed and the disturbed run wrong alike (for that the tests and the models exist).

Cost: a quick check takes 5 to 45 s on 8 cores and explores 1,600 (C12, instrumented at statements, with the race
detector) to 60,000 plans; a thorough check up to an hour. `VERIF_SEED` selects another set of plans.
'''
if 'CHECKTABLE' in s: s=s.replace('CHECKTABLE',t)
first_missed={'S29':'read operations inside of other forms (wraps) were added to C08/C09','S08':'names that differ in case only were added','S14':'files of hundreds of forms were added','S23':'programs that dispatch on their own classes while others do (featForms, "duel" programs) were added','S24':'shared accessor names were added','S26':'about 60 further kinds of definitions (generics with &rest among them) were added to the worlds','S25':'hygiene uses (bodies that use likely names) were added'}
rows="| change | check | needs | first missed |\n|---|---|---|---|\n"
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); i=f.split('/')[3]
    rows+="| %s | %s | %s | %s |\n"%(i,m['property'],m['needs'].replace('\n',' ').replace('|','/'),first_missed.get(i,''))
a=s.find('SEEDTABLE')
if a>=0: s=s.replace('SEEDTABLE','<!-- seeds -->\n'+rows+'<!-- /seeds -->')
else: s=re.sub(r'<!-- seeds -->.*<!-- /seeds -->',lambda _: '<!-- seeds -->\n'+rows+'<!-- /seeds -->',s,flags=re.S)
open(p,'w').write(s)
