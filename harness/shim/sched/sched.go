// Package sched receives the events of goroutines started by the code under
// test (see cmd/rewrite), writes them down in order, and delays them as the
// harness says. It synchronizes with nothing the race detector knows of, so
// that it hides no race.
package sched

import (
	"runtime"
	"time"
)

// A Policy says where to wait. Tasks are numbered from 0 in the order in which
// they are started after Reset.
type Policy struct {
	Seed   uint64
	Task   int           // the task to delay; -1: all, -2: none
	Start  time.Duration // before the task does anything
	End    time.Duration // after it did everything
	Points time.Duration // at synchronization within any goroutine, one time in two
	Spawn  time.Duration // after each start of a goroutine, in the one that starts it
	Random time.Duration // up to so long everywhere, one time in two
}

const size = 1 << 16

var (
	policy  Policy
	events  [size]uint32 // task<<2 | kind
	nEvents uint64
	nTasks  uint64
	nPoints uint64
	total   uint64
)

// xadd adds atomically and returns the old value.
func xadd(p *uint64, n uint64) uint64

// Reset forgets the events and sets the policy. Nothing may run meanwhile.
//
//go:norace
func Reset(p Policy) {
	total += nEvents
	policy, nEvents, nTasks, nPoints = p, 0, 0, 0
}

// Events returns what happened since Reset: tasks and kinds ('s'tart, 'e'nd,
// start of the goroutine ordered: 'o').
//
//go:norace
func Events() (tasks []int, kinds []byte) {
	n := nEvents
	if n > size {
		n = size
	}
	for _, e := range events[:n] {
		tasks = append(tasks, int(e>>2))
		kinds = append(kinds, "ose"[e&3])
	}
	return
}

// Total is the number of events since the beginning.
//
//go:norace
func Total() uint64 { return total + nEvents }

//go:norace
func note(task int, kind uint32) {
	if i := xadd(&nEvents, 1); i < size {
		events[i] = uint32(task)<<2 | kind
	}
}

//go:norace
func wait(d time.Duration) {
	if d > 0 {
		time.Sleep(d)
	} else if d < 0 {
		runtime.Gosched()
	}
}

//go:norace
func random(d time.Duration) {
	if d == 0 {
		return
	}
	x := (xadd(&nPoints, 1) + policy.Seed) * 0x9e3779b97f4a7c15
	x ^= x >> 29
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 32
	switch x & 3 {
	case 0:
		runtime.Gosched()
	case 1, 2:
		time.Sleep(time.Duration((x >> 8) % uint64(d)))
	}
}

//go:norace
func Spawn() int {
	t := int(xadd(&nTasks, 1))
	note(t, 0)
	return t
}

//go:norace
func Spawned() {
	wait(policy.Spawn)
	random(policy.Random)
}

//go:norace
func Start(task int) {
	note(task, 1)
	if policy.Task == -1 || policy.Task == task {
		wait(policy.Start)
	}
	random(policy.Random)
}

//go:norace
func End(task int) {
	note(task, 2)
	if policy.Task == -1 || policy.Task == task {
		wait(policy.End)
	}
}

//go:norace
func Point() {
	random(policy.Points)
	random(policy.Random)
}
