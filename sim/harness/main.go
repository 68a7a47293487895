package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

const (
	batchSize  = 100
	planLimit  = 60 * time.Second // real time: exceeding it is an error of the check, not a violation
	shrinkTime = 45 * time.Second
)

func main() {
	if len(os.Args) < 2 {
		fatal("usage: harness run|worker|one|replay|list ...")
	}
	debug.SetMaxStack(96 << 20)
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	check := fs.String("check", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 0, "")
	runs := fs.Int("runs", 0, "override the number of runs")
	evidence := fs.String("evidence", "", "")
	replays := fs.String("replays", "", "")
	known := fs.String("known", "", "")
	cap_ := fs.Duration("cap", 0, "")
	verbose := fs.Bool("v", false, "")
	fs.Parse(os.Args[2:])
	switch cmd {
	case "list":
		for _, k := range sortedKeys(checks) {
			fmt.Println(k, checks[k].Race, checks[k].Stmts)
		}
	case "worker":
		worker(*check, *tier, *seed, *from, *to)
	case "alone":
		alone()
	case "one":
		one()
	case "show":
		c := checks[*check]
		for i := *from; i < *to; i++ {
			p := makePlan(c, *tier, *seed, i)
			fmt.Printf("--- %d\n%s\n", i, c.explain(p.Data))
			if *verbose {
				r := execute(p)
				b, _ := json.MarshalIndent(r, "", " ")
				fmt.Println(string(b))
			}
		}
	case "replay":
		replay(fs.Arg(0))
	case "run":
		o := &orch{c: checks[*check], tier: *tier, seed: *seed, evidence: *evidence, replays: *replays, known: loadKnown(*known, *check)}
		if o.c == nil {
			fatal("unknown check %q", *check)
		}
		o.n = o.c.Quick
		o.cap = 240 * time.Second
		if *tier == "thorough" {
			o.n = o.c.Thor
			o.cap = 780 * time.Second
		}
		if *runs > 0 {
			o.n = *runs
		}
		if *cap_ > 0 {
			o.cap = *cap_
		}
		o.run()
	default:
		fatal("unknown command %q", cmd)
	}
}

// ---- worker side ----

func worker(check, tier string, seed uint64, from, to int) {
	c := checks[check]
	out := bufio.NewWriter(os.Stdout)
	for i := from; i < to; i++ {
		fmt.Fprintf(out, "S %d\n", i)
		out.Flush()
		p := makePlan(c, tier, seed, i)
		res := execute(p)
		if i%17 == 0 && res.Sample == "" {
			res.Sample = clip(c.explain(p.Data), 900)
		}
		b, err := json.Marshal(res)
		if err != nil {
			fatal("%v", err)
		}
		fmt.Fprintf(out, "D %d %s\n", i, b)
		out.Flush()
	}
}

type aloneReq struct {
	Check string          `json:"check"`
	Data  json.RawMessage `json:"data"`
	I     int             `json:"i"`
}

// alone executes one part of a run, in this process.
func alone() {
	var q aloneReq
	if err := json.NewDecoder(os.Stdin).Decode(&q); err != nil {
		fatal("%v", err)
	}
	b, _ := json.Marshal(checks[q.Check].alone(q.Data, q.I))
	os.Stdout.Write(append(b, '\n'))
}

// aloneRuns executes parts of a run in processes of their own.
func aloneRuns(check string, data any, n int) [][]string {
	d, _ := json.Marshal(data)
	res := make([][]string, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			in, _ := json.Marshal(aloneReq{check, d, i})
			c := self("alone")
			c.Stdin = bytes.NewReader(in)
			var so, se bytes.Buffer
			c.Stdout, c.Stderr = &so, &se
			if err := c.Run(); err != nil {
				res[i] = []string{"process died: " + crashLine(se.String())}
				return
			}
			if err := json.Unmarshal(so.Bytes(), &res[i]); err != nil {
				fatal("alone: %v", err)
			}
		}()
	}
	wg.Wait()
	return res
}

// one executes the plans of stdin in order and prints the last result.
func one() {
	var plans []*Plan
	if err := json.NewDecoder(os.Stdin).Decode(&plans); err != nil {
		fatal("%v", err)
	}
	var res *Result
	for _, p := range plans {
		res = execute(p)
	}
	b, _ := json.Marshal(res)
	os.Stdout.Write(append(b, '\n'))
}

// ---- orchestrator ----

type outcome struct {
	res   *Result
	crash string // the process died: first line of its last words
	hang  bool
}

func (o outcome) class() string {
	if o.crash != "" {
		return "crash"
	}
	if o.res != nil {
		return o.res.Viol
	}
	return ""
}

func self(args ...string) *exec.Cmd {
	exe, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	c := exec.Command(exe, args...)
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	c.Env = append(os.Environ(), "GORACE=exitcode=0 halt_on_error=0 atexit_sleep_ms=0", "GOGC=200", "GOMAXPROCS=2", "GOTRACEBACK=single")
	return c
}

func crashLine(stderr string) string {
	for _, l := range strings.Split(stderr, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
			return clip(l, 200)
		}
	}
	return clip(strings.TrimSpace(stderr), 200)
}

func runPlans(plans []*Plan) outcome {
	in, _ := json.Marshal(plans)
	c := self("one")
	c.Stdin = bytes.NewReader(in)
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	if err := c.Start(); err != nil {
		fatal("%v", err)
	}
	t := time.AfterFunc(planLimit, func() { c.Process.Kill() })
	err := c.Wait()
	if !t.Stop() {
		return outcome{hang: true}
	}
	if err != nil {
		return outcome{crash: crashLine(se.String())}
	}
	res := &Result{}
	if err := json.Unmarshal(so.Bytes(), res); err != nil {
		return outcome{crash: "no result: " + err.Error()}
	}
	if res.Viol == "data-race" {
		res.Detail += "\n" + clip(se.String(), 6000)
	}
	return outcome{res: res}
}

// runUntil executes the plans, several times where it is about a data race:
// what the race detector remembers depends on more than the plan.
func runUntil(plans []*Plan, want string) (out outcome) {
	tries := 1
	if want == "data-race" {
		tries = 8
	}
	for ; tries > 0; tries-- {
		if out = runPlans(plans); out.class() == want {
			break
		}
	}
	return out
}

type violation struct {
	idx, from int
	outcome
}

type orch struct {
	c        *Check
	tier     string
	seed     uint64
	n        int
	cap      time.Duration
	evidence string
	replays  string
	known    []knownFinding
	start    time.Time

	mu       sync.Mutex
	next     int
	stop     bool
	capped   bool
	viols    []violation
	lost     []violation // seen, and not seen again
	hangs    []int
	done     int
	evals    int
	steps    uint64
	simNs    int64
	keys     map[string]struct{}
	inters   map[string]struct{}
	faults   map[string]int
	probes   map[string]int
	hashes   map[int]string
	samples  []string
	recheck  int
	mismatch int
	differ   []int
	knownHit map[string]int
}

// size is the number of runs of one process.
func (o *orch) size() int {
	if o.c.Fresh {
		return 1
	}
	return batchSize
}

func (o *orch) run() {
	o.start = time.Now()
	o.keys, o.inters = map[string]struct{}{}, map[string]struct{}{}
	o.faults, o.probes = map[string]int{}, map[string]int{}
	o.hashes, o.knownHit = map[int]string{}, map[string]int{}
	workers := 8
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		workers, _ = strconv.Atoi(s)
	}
	for {
		o.explore(workers)
		if len(o.viols) == 0 || len(o.hangs) > 0 {
			break
		}
		// A violation that cannot be shown again does not end the search.
		sort.Slice(o.viols, func(i, j int) bool { return o.viols[i].idx < o.viols[j].idx })
		for n, v := range o.viols {
			if n >= 4 {
				break
			}
			if path, ok := o.confirm(v, false); ok {
				o.found(path)
			}
		}
		o.lost = append(o.lost, o.viols...)
		o.viols = nil
		if o.capped || o.next >= o.n || len(o.lost) >= 12 {
			break
		}
		o.stop = false
	}
	if len(o.lost) > 0 && len(o.hangs) == 0 {
		// The reports of the race detector are sound, and how far back its
		// history reaches is not under the control of a plan: a race that was
		// seen counts, with everything its process had executed as the replay.
		for _, v := range o.lost {
			if v.class() == "data-race" {
				path, _ := o.confirm(v, true)
				o.found(path)
			}
		}
	}
	// determinism: some runs again, in other processes and other batches
	if len(o.lost) == 0 && !o.capped {
		k := o.n / 50
		if k > 400 {
			k = 400
		}
		off := o.size() / 2
		var wg sync.WaitGroup
		sem := make(chan struct{}, workers)
		for f := off; f < o.n && k > 0; f += o.size() * (1 + o.n/(o.size()*20)) {
			m := 25
			if o.c.Fresh {
				m = 1
			}
			k -= m
			wg.Add(1)
			sem <- struct{}{}
			go func(f, t int) {
				defer wg.Done()
				if t > o.n {
					t = o.n
				}
				o.batch(f, t, f, true)
				<-sem
			}(f, f+m)
		}
		wg.Wait()
	}
	o.report()
}

// explore executes batches until the runs are used up or a violation is seen.
func (o *orch) explore(workers int) {
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				o.mu.Lock()
				if time.Since(o.start) > o.cap {
					o.capped = true
					o.stop = true
				}
				stop := o.stop || o.next >= o.n
				from := o.next
				if !stop {
					o.next += o.size()
				}
				o.mu.Unlock()
				if stop {
					return
				}
				to := from + o.size()
				if to > o.n {
					to = o.n
				}
				o.batch(from, to, from, false)
			}
		}()
	}
	wg.Wait()
}

// found ends the check with a violation.
func (o *orch) found(path string) {
	o.printKnown()
	o.writeEvidence(1)
	fmt.Printf("VIOLATION property=%s replay=%s\n", o.c.ID, path)
	os.Exit(1)
}

func (o *orch) printKnown() {
	for _, k := range o.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (seen in %d runs)\n", o.c.ID, k.what, o.knownHit[k.what])
	}
}

// batch executes [from,to) in one process, and the rest in another one if it dies.
func (o *orch) batch(from, to, first int, again bool) {
	c := self("worker", "-check", o.c.ID, "-tier", o.tier, "-seed", fmt.Sprint(o.seed), "-from", fmt.Sprint(from), "-to", fmt.Sprint(to))
	var se bytes.Buffer
	c.Stderr = &se
	so, err := c.StdoutPipe()
	if err != nil {
		fatal("%v", err)
	}
	if err := c.Start(); err != nil {
		fatal("%v", err)
	}
	hung := false
	t := time.AfterFunc(planLimit, func() { hung = true; c.Process.Kill() })
	cur, doneIdx := from-1, from-1
	rd := bufio.NewReaderSize(so, 1<<20)
	for {
		line, err := rd.ReadString('\n')
		if err != nil {
			break
		}
		t.Reset(planLimit)
		f := strings.SplitN(strings.TrimSpace(line), " ", 3)
		if len(f) < 2 {
			continue
		}
		i, _ := strconv.Atoi(f[1])
		if f[0] == "S" {
			cur = i
		} else if f[0] == "D" && len(f) == 3 {
			doneIdx = i
			res := &Result{}
			if err := json.Unmarshal([]byte(f[2]), res); err != nil {
				fatal("bad result: %v", err)
			}
			o.record(i, from, res, again)
		}
	}
	err = c.Wait()
	t.Stop()
	if doneIdx >= to-1 {
		return
	}
	o.mu.Lock()
	if hung {
		o.hangs = append(o.hangs, cur)
		o.stop = true
		o.mu.Unlock()
		return
	}
	o.viols = append(o.viols, violation{idx: cur, from: from, outcome: outcome{crash: crashLine(se.String())}})
	o.stop = true
	o.mu.Unlock()
}

func (o *orch) record(i, from int, res *Result, again bool) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if again {
		o.recheck++
		if o.hashes[i] != res.Hash+res.Viol {
			o.mismatch++
			o.differ = append(o.differ, i)
		}
		return
	}
	o.hashes[i] = res.Hash + res.Viol
	o.done++
	o.evals += 1
	o.steps += res.Steps
	o.simNs += res.SimNs
	if res.Key != "" {
		o.keys[res.Key] = struct{}{}
	}
	if res.Inter != "" {
		o.inters[res.Inter] = struct{}{}
	}
	for k, v := range res.Faults {
		o.faults[k] += v
	}
	for k, v := range res.Probes {
		o.probes[k] += v
	}
	if res.Sample != "" && len(o.samples) < 5 && res.Key != "" {
		o.samples = append(o.samples, res.Sample)
	}
	if res.Viol != "" {
		if k := o.isKnown(res.Viol, res.Msg); k != "" {
			o.knownHit[k]++
			return
		}
		o.viols = append(o.viols, violation{idx: i, from: from, outcome: outcome{res: res}})
		o.stop = true
	}
}

// ---- known findings ----

type knownFinding struct {
	class string
	match *regexp.Regexp
	what  string
}

// Lines: "finding: property=C01 class=<class> match=<regexp> :: <what fails>".
var rxFinding = regexp.MustCompile(`^finding: property=(\S+) class=(\S+) match=(.*?) :: (.*)$`)

func loadKnown(file, id string) (r []knownFinding) {
	if file == "" {
		return
	}
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if m := rxFinding.FindStringSubmatch(l); m != nil && m[1] == id {
			r = append(r, knownFinding{m[2], regexp.MustCompile(m[3]), m[4]})
		}
	}
	return
}

func (o *orch) isKnown(class, msg string) string {
	for _, k := range o.known {
		if k.class == class && k.match.MatchString(msg) {
			return k.what
		}
	}
	return ""
}

// ---- reporting ----

type ReplayFile struct {
	Check  string  `json:"check"`
	Class  string  `json:"class"`
	Msg    string  `json:"msg"`
	Hash   string  `json:"hash,omitempty"`
	Seed   uint64  `json:"seed"`
	Idx    int     `json:"idx"`
	Text   string  `json:"text"`
	Detail string  `json:"detail,omitempty"`
	Plans  []*Plan `json:"plans"`
}

func (o *orch) report() {
	if len(o.hangs) > 0 {
		fmt.Fprintf(os.Stderr, "harness: run %d of %s did not finish in %v of real time\n", o.hangs[0], o.c.ID, planLimit)
		o.writeEvidence(0)
		os.Exit(2)
	}
	o.printKnown()
	if len(o.lost) > 0 {
		o.writeEvidence(len(o.lost))
		v := o.lost[0]
		fmt.Fprintf(os.Stderr, "harness: violation of run %d (%s: %s) could not be reproduced\n", v.idx, v.class(), v.crash)
		os.Exit(2)
	}
	o.writeEvidence(0)
	fmt.Printf("%s: held on %d runs (%d distinct non-trivial, %d steps, %.1fs)\n", o.c.ID, o.done, len(o.keys), o.steps, time.Since(o.start).Seconds())
	if o.mismatch > 0 {
		fmt.Printf("%s: note: %d of %d repeated runs differed: %v\n", o.c.ID, o.mismatch, o.recheck, o.differ)
	}
}

// confirm reproduces the violation in a fresh process, minimises it and writes the replay file.
// With asSeen, the violation is written down even if it does not show again.
func (o *orch) confirm(v violation, asSeen bool) (string, bool) {
	want := v.class()
	plan := func(i int) *Plan { return makePlan(o.c, o.tier, o.seed, i) }
	plans := []*Plan{plan(v.idx)}
	out := runUntil(plans, want)
	if out.class() != want {
		plans = nil
		for i := v.from; i <= v.idx; i++ {
			plans = append(plans, plan(i))
		}
		if out = runUntil(plans, want); out.class() != want {
			if !asSeen {
				return "", false
			}
			out = v.outcome
		}
	}
	deadline := time.Now().Add(shrinkTime)
	good := out
	try := func(cands [][]*Plan) int {
		type r struct{ i int }
		res := make([]outcome, len(cands))
		var wg sync.WaitGroup
		sem := make(chan struct{}, 8)
		for i := range cands {
			wg.Add(1)
			sem <- struct{}{}
			go func(i int) {
				defer wg.Done()
				if time.Now().Before(deadline) {
					res[i] = runPlans(cands[i])
					if want == "data-race" && res[i].class() != want {
						res[i] = runPlans(cands[i])
					}
				}
				<-sem
			}(i)
		}
		wg.Wait()
		for i := range cands {
			if res[i].class() == want && (res[i].res == nil || o.isKnown(want, res[i].res.Msg) == "") {
				good = res[i]
				return i
			}
		}
		return -1
	}
	// the prefix of earlier runs, if any
	for size := (len(plans) - 1) / 2; size >= 1 && len(plans) > 1; size /= 2 {
		for lo := 0; lo+size < len(plans); {
			c := append(append([]*Plan{}, plans[:lo]...), plans[lo+size:]...)
			if try([][]*Plan{c}) == 0 {
				plans = c
			} else {
				lo += size
			}
		}
	}
	// the run itself
	tried := map[string]bool{}
	steps := 0
	for time.Now().Before(deadline) {
		main := plans[len(plans)-1]
		var cands [][]*Plan
		for _, d := range o.c.shrink(main.Data) {
			if tried[string(d)] {
				continue
			}
			tried[string(d)] = true
			q := *main
			q.Data = d
			cands = append(cands, append(append([]*Plan{}, plans[:len(plans)-1]...), &q))
		}
		ok := false
		for len(cands) > 0 && time.Now().Before(deadline) {
			m := len(cands)
			if m > 16 {
				m = 16
			}
			if k := try(cands[:m]); k >= 0 {
				plans = cands[k]
				ok = true
				steps++
				break
			}
			cands = cands[m:]
		}
		if !ok {
			break
		}
	}
	final := runUntil(plans, want)
	if final.class() != want {
		final = good
	}
	rf := &ReplayFile{Check: o.c.ID, Class: want, Seed: o.seed, Idx: v.idx, Plans: plans, Text: o.c.explain(plans[len(plans)-1].Data)}
	if final.res != nil {
		rf.Msg, rf.Hash, rf.Detail = final.res.Msg, final.res.Hash, final.res.Detail
	} else {
		rf.Msg = final.crash
	}
	b, _ := json.MarshalIndent(rf, "", " ")
	os.MkdirAll(o.replays, 0o777)
	path := filepath.Join(o.replays, fmt.Sprintf("%s-%s.json", o.c.ID, hashOf(want, string(plans[len(plans)-1].Data))[:10]))
	if err := os.WriteFile(path, append(b, '\n'), 0o666); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("%s: %s: %s\n  run %d of seed %d, minimised in %d steps; the case:\n%s\n", o.c.ID, want, clip(rf.Msg, 1500), v.idx, o.seed, steps, clip(rf.Text, 2500))
	return path, true
}

func replay(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	rf := &ReplayFile{}
	if err := json.Unmarshal(b, rf); err != nil {
		fatal("%v", err)
	}
	out := runUntil(rf.Plans, rf.Class)
	fmt.Println(rf.Text)
	if out.class() == "" {
		if out.hang {
			fatal("the replay did not finish")
		}
		fmt.Println("replay: the property holds on this run now")
		return
	}
	msg := out.crash
	hash := ""
	if out.res != nil {
		msg, hash = out.res.Msg, out.res.Hash
		fmt.Println(out.res.Detail)
	}
	fmt.Printf("replay: %s: %s\n", out.class(), msg)
	if hash == rf.Hash && out.class() == rf.Class {
		fmt.Println("replay: identical to the recorded execution")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Check, file)
	os.Exit(1)
}

func (o *orch) writeEvidence(viols int) {
	if o.evidence == "" {
		return
	}
	wall := time.Since(o.start).Seconds()
	perHour := 0
	if wall > 0 {
		perHour = int(float64(o.done) / wall * 3600)
	}
	samples := o.samples
	if len(samples) == 0 && o.done > 0 {
		samples = []string{clip(o.c.explain(makePlan(o.c, o.tier, o.seed, 0).Data), 900)}
	}
	cov := map[string]any{
		"evaluations":         o.evals,
		"distinct_nontrivial": len(o.keys),
		"rule":                o.c.Rule,
		"samples":             samples,
		"simulated_runs":      o.done,
		"runs_planned":        o.n,
		"seeds_per_hour":      perHour,
		"runs_per_hour":       perHour,
		"simulated_seconds":   float64(o.simNs) / 1e9,
		"simulated_steps":     o.steps,
		"faults_injected":     o.faults,
		"probes":              o.probes,
		"distinct_interleavings_or_fault_placements": len(o.inters),
		"determinism_rechecks":                       map[string]int{"runs_executed_again_in_another_process": o.recheck, "different": o.mismatch},
		"components_real":                            o.c.Real,
		"components_stub":                            o.c.Stub,
		"stopped_by_wall_clock_cap":                  o.capped,
	}
	ev := map[string]any{
		"property": o.c.ID, "tier": o.tier, "seed": o.seed, "level": o.c.Level,
		"coverage": cov, "wall_s": wall, "violations": viols, "assumptions": o.c.Assume,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(o.evidence), 0o777)
	if err := os.WriteFile(o.evidence, append(b, '\n'), 0o666); err != nil {
		fatal("%v", err)
	}
}
