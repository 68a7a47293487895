// Package simrt is the core of the simulator: the step counter (simulated
// time), timers, seeded map order, and the cooperative task scheduler.
// Every function that touches state shared between tasks is go:norace, so a
// -race build reports only races of the code under test.
package simrt

import (
	"fmt"
	"sort"
	"sync"
)

// Stop is the panic value used when a run exceeds its step budget.
type Stop struct{ Ticks uint64 }

func (s Stop) Error() string {
	return fmt.Sprintf("simulated step budget exhausted after %d steps", s.Ticks)
}

// Deadlock is the panic value used when every live task is blocked.
type Deadlock struct{}

func (Deadlock) Error() string { return "all simulated tasks are blocked" }

type timer struct {
	at uint64
	fn func()
}

var (
	on      bool
	ticks   uint64
	limit   uint64
	nowNs   int64 // the wall clock, in nanoseconds after baseSec
	baseSec int64
	slept   uint64
	monoNs  int64 // the monotonic clock, which no jump affects
	tickNs  int64
	stepNs  int64
	timers  []timer
	mapRng  uint64
	mapMix  bool

	MapRanges uint64 // map iterations whose order the simulator chose (>1 key)
)

// Config of one run.
type Config struct {
	Limit  uint64 // step budget, 0 = default
	Now    int64  // unix nanoseconds at the start
	TickNs int64  // simulated nanoseconds per step
	Still  bool   // steps take no time
	Map    uint64 // seed of the map iteration order; 0 = sorted
}

const DefaultLimit = 4_000_000

//go:norace
func Start(c Config) {
	if c.Limit == 0 {
		c.Limit = DefaultLimit
	}
	if c.TickNs == 0 {
		c.TickNs = 1000
	}
	ticks, limit, nowNs, tickNs = 0, c.Limit, c.Now, c.TickNs
	baseSec, monoNs, slept = 0, 1_000_000_000, 0
	stepNs = tickNs
	if c.Still {
		stepNs = 0
	}
	timers = timers[:0]
	mapRng, mapMix = c.Map, c.Map != 0
	cur, ntasks, multi = nil, 0, false
	on = true
}

//go:norace
func End() { on = false; multi = false }

//go:norace
func Ticks() uint64 { return ticks }

//go:norace
func Now() int64 { return nowNs }

//go:norace
func SetNow(ns int64) { nowNs, baseSec = ns, 0 }

// SetClock makes the wall clock jump; the monotonic clock goes on.
//
//go:norace
func SetClock(sec, ns int64) { nowNs, baseSec = ns, sec }

// Clock returns the wall clock as seconds and nanoseconds after 1970.
//
//go:norace
func Clock() (sec, ns int64) {
	sec, ns = baseSec+nowNs/1_000_000_000, nowNs%1_000_000_000
	if ns < 0 {
		sec, ns = sec-1, ns+1_000_000_000
	}
	return
}

// Steps returns the number of steps made, without those slept through.
//
//go:norace
func Steps() uint64 { return ticks - slept }

// Mono returns the monotonic clock in nanoseconds.
//
//go:norace
func Mono() int64 { return monoNs }

// Extend gives a run n more steps from now (e.g. after faults have stopped).
func Extend(n uint64) { limit = ticks + n }

// At registers fn to run when the step counter reaches t.
func At(t uint64, fn func()) {
	timers = append(timers, timer{t, fn})
	sort.SliceStable(timers, func(i, j int) bool { return timers[i].at < timers[j].at })
}

// Sleep advances simulated time by ns nanoseconds.
func Sleep(ns int64) {
	if ns <= 0 {
		Tick()
		return
	}
	n := uint64(ns / tickNs)
	slept += n
	limit += n
	for n > 0 && len(timers) > 0 {
		if timers[0].at > ticks+n {
			break
		}
		d := timers[0].at - ticks
		ticks += d
		nowNs += int64(d) * tickNs
		monoNs += int64(d) * tickNs
		n -= d
		fireTimers()
	}
	ticks += n
	nowNs += int64(n) * tickNs
	monoNs += int64(n) * tickNs
}

//go:norace
func fireTimers() {
	for len(timers) > 0 && timers[0].at <= ticks {
		f := timers[0].fn
		timers = timers[1:]
		f()
	}
}

// Tick is inserted by the instrumenter at every function entry and loop body.
//
//go:norace
func Tick() {
	if !on {
		return
	}
	ticks++
	nowNs += stepNs
	monoNs += stepNs
	if len(timers) != 0 && timers[0].at <= ticks {
		fireTimers()
	}
	if ticks >= limit {
		panic(Stop{ticks})
	}
	if multi {
		step()
	}
}

// ---- maps ----

func ZeroKey[M ~map[K]V, K comparable, V any](m M) (k K) { return }
func ZeroVal[M ~map[K]V, K comparable, V any](m M) (v V) { return }

//go:norace
func splitmix(s *uint64) uint64 {
	*s += 0x9E3779B97F4A7C15
	z := *s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// MapKeys lists the keys of m in an order decided by the run's map seed.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	o := isOn()
	if !o {
		return keys
	}
	setOn(false) // String methods of keys must not consume steps
	text := make(map[K]string, len(keys))
	for _, k := range keys {
		text[k] = fmt.Sprintf("%T:%v", k, k)
	}
	setOn(o)
	sort.SliceStable(keys, func(i, j int) bool { return text[keys[i]] < text[keys[j]] })
	for i, x := range mapOrder(len(keys)) {
		keys[len(keys)-1-i], keys[x] = keys[x], keys[len(keys)-1-i]
	}
	return keys
}

// mapOrder decides the exchanges that shuffle n keys.
//
//go:norace
func mapOrder(n int) []int {
	if !mapMix {
		return nil
	}
	MapRanges++
	r := make([]int, 0, n)
	for i := n - 1; i > 0; i-- {
		r = append(r, int(splitmix(&mapRng)%uint64(i+1)))
	}
	return r
}

//go:norace
func isOn() bool { return on }

//go:norace
func setOn(b bool) { on = b }

// ---- tasks ----

// Seg is one scheduling decision: run task number Task (modulo the live tasks)
// for Len steps.
type Seg struct {
	Task int `json:"t"`
	Len  int `json:"n"`
}

type task struct {
	id   int
	wake chan struct{}
	done bool
	err  any
}

const maxTasks = 16

var (
	multi    bool
	cur      *task
	tasks    [maxTasks]*task
	ntasks   int
	segs     []Seg
	segPos   int
	segLeft  int
	allDone  chan struct{}
	spin     int
	Switches uint64
	hash     uint64
)

// RunTasks runs the functions as cooperative tasks: exactly one runs at a time
// and segs decides which and for how long. When segs is used up, tasks run to
// completion in order. It returns the panic value of each task (nil = normal).
func RunTasks(fns []func(), s []Seg) []any {
	segs, segPos, segLeft = s, 0, 0
	Switches, hash, spin = 0, 14695981039346656037, 0
	ntasks = len(fns)
	allDone = make(chan struct{}, 1)
	for i := range fns {
		tasks[i] = &task{id: i, wake: make(chan struct{}, 1)}
	}
	// only orders what the tasks did before what follows, not the tasks
	var ended sync.WaitGroup
	ended.Add(len(fns))
	for i := range fns {
		t, fn := tasks[i], fns[i]
		go func() {
			defer ended.Done()
			runTask(t, fn)
		}()
	}
	raceDisable()
	startTasks()
	<-allDone
	raceEnable()
	ended.Wait()
	multi, cur = false, nil
	errs := make([]any, len(fns))
	for i := range fns {
		errs[i] = tasks[i].err
	}
	return errs
}

//go:norace
func startTasks() {
	multi = true
	next := pick(nil)
	cur = next
	next.wake <- struct{}{}
}

//go:norace
func runTask(t *task, fn func()) {
	raceDisable()
	<-t.wake
	raceEnable()
	callTask(t, fn)
	finish(t)
}

//go:norace
func callTask(t *task, fn func()) {
	defer func() { t.err = recover() }()
	fn()
}

//go:norace
func finish(t *task) {
	t.done = true
	raceDisable()
	next := pick(nil)
	if next == nil {
		multi = false
		allDone <- struct{}{}
	} else {
		cur = next
		next.wake <- struct{}{}
	}
	raceEnable()
}

// pick chooses the next task to run; not == excluded task (when blocked).
//
//go:norace
func pick(not *task) *task {
	live := 0
	for i := 0; i < ntasks; i++ {
		if !tasks[i].done && tasks[i] != not {
			live++
		}
	}
	if live == 0 {
		return nil
	}
	k := 0
	if segPos < len(segs) {
		k = segs[segPos].Task
		segLeft = segs[segPos].Len
		segPos++
	} else {
		segLeft = 1 << 60
	}
	if k < 0 {
		k = -k
	}
	k %= live
	for i := 0; i < ntasks; i++ {
		if !tasks[i].done && tasks[i] != not {
			if k == 0 {
				return tasks[i]
			}
			k--
		}
	}
	return nil
}

//go:norace
func step() {
	spin = 0
	segLeft--
	if segLeft > 0 {
		return
	}
	switchTo(pick(nil))
}

//go:norace
func switchTo(next *task) {
	me := cur
	if next == nil || next == me {
		return
	}
	Switches++
	hash = (hash ^ uint64(next.id+1) ^ ticks<<8) * 1099511628211
	cur = next
	raceDisable()
	next.wake <- struct{}{}
	<-me.wake
	raceEnable()
}

// Block is called by the simulated locks when the current task cannot proceed.
//
//go:norace
func Block() {
	if !on || !multi {
		panic(Deadlock{})
	}
	spin++
	if spin > 10000 {
		panic(Deadlock{})
	}
	n := pick(cur)
	if spin > 8 || segPos >= len(segs) { // everyone must get a turn, or tasks wait for each other without need
		n = nil
		for i := 1; i < ntasks && n == nil; i++ {
			if t := tasks[(cur.id+i)%ntasks]; !t.done {
				n = t
			}
		}
	}
	if n == nil {
		panic(Deadlock{})
	}
	switchTo(n)
}

// Yield ends the turn of the running task.
//
//go:norace
func Yield() {
	if on && multi {
		segLeft = 1
		step()
	}
}

// Multi reports whether cooperative tasks are running.
//
//go:norace
func Multi() bool { return on && multi }

// TaskID is the number of the running task.
//
//go:norace
func TaskID() int {
	if cur == nil {
		return -1
	}
	return cur.id
}

// SchedHash identifies the interleaving that was executed.
func SchedHash() uint64 { return hash }
