# writes MANIFEST.json from the table of checks below and properties.jsonl
import json
T={ # property: (technique, note)
"C01":("deterministic simulation: cancellation injected at seeded interpreter steps, host calls and virtual deadlines","seeded search over constructs, nestings and cut points; bounded liveness in simulated steps after the cut"),
"C02":("deterministic simulation: episodes ended by injected errors, panics, exits and cancellation, differential against an interpreter that never saw them","seeded search; the oracle is the same implementation run without the aborted episode, plus explicit probes"),
"C04":("deterministic simulation: seeded programs with failing file operations, host faults, panics and cancellation; open handles of the simulated kernel against a reference model","seeded search; trusts the reference model in sim/harness/model.go; under cancellation only the handles of with-open-... forms are judged"),
"C05":("deterministic simulation: simulated disk with failing and short writes, full disk and failing close; content compared with the acknowledged output at every acknowledgement","seeded search; the disk has no write-back cache beyond the process: crash of the machine is not simulated since the code never syncs"),
"C08":("deterministic simulation: simulated file system with seeded short reads and read errors, against a reference reader","seeded search; trusts the reference reader in sim/harness/reading.go, which leaves exotic tokens unspecified"),
"C09":("deterministic simulation: inputs truncated at seeded points and read errors, against a reference reader","seeded search; trusts the reference reader in sim/harness/reading.go, which leaves exotic tokens unspecified"),
"C10":("deterministic simulation: files cut at seeded bytes, failing opens and reads, split reads, cancellation; against a reference model of load","seeded search; trusts the reference in sim/harness/load.go; a file that ends in a single # is left unspecified"),
"C21":("deterministic simulation: a file system that changes and fails between seeded calls; answers against its state at the call","seeded search over names, patterns, sizes (up to 2^52), changes and stat failures; the order of wildcard's list and the rounding of a fraction of an element are left open"),
"C16":("deterministic simulation: first uses of library code in seeded hostile places, cut at seeded steps, with host faults; every run in a fresh process, compared with interpreters that had used the library before","seeded search; the oracle is the same library used undisturbed in another interpreter"),
"C11":("deterministic simulation: seeded interleavings, at interpreter steps and host calls, of several interpreters with aborts, host faults, cancellation and failing files; each compared with the same program alone in its own process","seeded search; what an interpreter that was cancelled at a step does afterwards is not judged, only the others"),
"C12":("deterministic simulation: seeded interleavings at statements with the scheduler hidden from the race detector, so that only the synchronisation of the code counts; results compared with each program alone in its own process","seeded search over programs and interleavings; the race detector judges the explored interleavings; results of shared global variables are not compared"),
"C13":("deterministic simulation: seeded interleavings at statements of interning, printing and generating tasks; the history is checked against a table of names, with the race detector","seeded search over histories"),
"C14":("deterministic simulation: the order of every iteration over a Go map chosen from seeds, with host faults, failing output and cancellation; everything observable compared across orders","seeded search over programs and orders"),
"C15":("deterministic simulation: seeded wall and monotonic clocks, time zones, speeds, clock jumps between and in the middle of readings, over eras from 1900 to 12000; every reading against the clock","seeded search over instants and jumps; whether get-internal-real-time follows the wall or the monotonic clock across jumps is left open, but it must be one of them throughout"),
"C19":("deterministic simulation: whole simulated processes of the command with seeded scripts, arguments, split reads, cut or unreadable scripts, failing standard streams and files; status, output and message against a model","seeded search; what an unreadable or cut script may have printed is only required to be a prefix"),
"C20":("deterministic simulation: simulated child processes with seeded output, statuses, signals, orphans and split writes, failing streams, streams exchanged between calls, cancellation in the middle; against a model","seeded search; os/exec itself is a stand-in written after its documentation (kill on cancel, SIGPIPE after a failed copy, WaitDelay); a program that has already ended while its orphans hold its output is waited for, whatever the context, and not judged"),
"C22":("deterministic simulation: whole simulated processes of gmnlpp with seeded pages, definitions, split reads, cut or unreadable pages and failing output; status, output and message against a model","seeded search; at the pinned commit the tool refuses all text outside of tags and ignores definitions (known findings: examples/ may not be changed), so what is decided is the code in tags, the order, failures and delivery; where the behaviour is neither right nor exactly the known refusal, it is reported"),
"C23":("deterministic simulation: whole simulated sessions at the interactive prompt with a simulated user at the line editor, failing inputs, standard streams and files; every input's output and message against a model","seeded search; the line editor (a library outside the repository) is a stand-in that asks the repository's submission rule at every Enter; escapes and comments in submitted text are not generated, and the layout around a shown value is left open"),
"C06":("deterministic simulation: seeded output operations onto streams that fail at seeded bytes, once or for good","seeded search; the text of a directive comes from the same code writing to a stream that never fails, order, prefix and reports are judged independently"),
"C07":("deterministic simulation: seeded interleaved output on several streams with partial writes; fresh-line rule recomputed from the delivered bytes","seeded search; a host program that hands the same Go writer to the interpreter twice is not covered"),
"C03":("deterministic simulation: seeded programs and host faults against a reference model","seeded search; trusts the reference model of control flow in sim/harness/model.go"),
"C17":("deterministic simulation: seeded programs and host faults against a reference model","seeded search; trusts the reference model of control flow in sim/harness/model.go; plain errors may reach a handler early or late"),
"C18":("deterministic simulation: seeded programs and host faults against a reference model","seeded search; trusts the reference model of control flow in sim/harness/model.go; nested same-named blocks whose lexical and dynamic targets differ are left unspecified"),
}
NB="its simulation check is not built yet"
ND="a pure function of the program text or input: no schedule, clock, fault, crash or interleaving takes part, so a simulator has nothing to decide"
ids=[json.loads(l)["id"] for l in open('properties.jsonl')]
m={"version":1,"setup_cmd":"./check.sh setup","checks":[],"not_applicable":[],
 "notes":"The simulator reaches the code through a build overlay (tools/instr rewrites imports of os, time, os/exec, ... and inserts scheduling points into a copy); /repo has no hooks. known_findings.txt lists repaired defects and open findings."}
for i in ids:
    if i in T:
        t,n=T[i]
        m["checks"].append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","technique":t,"level":"exploration","level_note":n})
    else:
        m["not_applicable"].append({"property":i,"reason":ND if i[0]=="D" else NB})
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write("\n")
