// Package simtime is package time with a simulated clock.
package simtime

import (
	"time"
	"unsafe"

	"github.com/hymkor/gmnlisp/zz_verif/simrt"
)

// Local is the simulated host's time zone. It is not UTC, so that anything
// computed with it at the start of the process can be told from UTC.
var Local = time.FixedZone("Local", 5*3600+45*60)

// Reads counts clock reads made by the code under test.
var Reads int

// what package time keeps in a Time that has a monotonic reading
type timeBits struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

const (
	hasMonotonic = 1 << 63
	wallStart    = -2682288000 // 1885-01-01 in seconds after 1970
)

// Now returns the simulated wall clock with the simulated monotonic clock, as
// time.Now does (which leaves the latter out where it cannot represent both).
//
//go:norace
func Now() time.Time {
	Reads++
	sec, ns := simrt.Clock()
	t := time.Unix(sec, ns).In(Local)
	if since := sec - wallStart; since >= 0 && since>>33 == 0 {
		b := (*timeBits)(unsafe.Pointer(&t))
		b.wall = hasMonotonic | uint64(since)<<30 | uint64(ns)
		b.ext = simrt.Mono()
	}
	return t
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { simrt.Sleep(int64(d)) }
func After(d time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	simrt.At(simrt.Ticks()+uint64(d/1000)+1, func() { c <- Now() })
	return c
}

// Timer is a timer of the simulated clock.
type Timer struct {
	C   <-chan time.Time
	c   chan time.Time
	f   func()
	set *bool
}

func (t *Timer) start(d time.Duration) {
	if d < 0 {
		d = 0
	}
	on := true
	t.set = &on
	simrt.At(simrt.Ticks()+uint64(d/1000)+1, func() {
		if !on {
			return
		}
		on = false
		if t.f != nil {
			t.f()
			return
		}
		select {
		case t.c <- Now():
		default:
		}
	})
}

func (t *Timer) Stop() bool {
	was := *t.set
	*t.set = false
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}
