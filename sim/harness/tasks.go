package main

import (
	"runtime"
	"runtime/debug"
	"sync"
)

// Tasks runs the given functions as concurrent tasks of the simulated caller
// and waits for all of them.
func (t *T) Tasks(fs ...func()) {
	var wg sync.WaitGroup
	for _, f := range fs {
		wg.Add(1)
		go func(f func()) {
			defer wg.Done()
			defer t.taskEnd()
			f()
		}(f)
	}
	wg.Wait()
	if t.class != "" {
		panic(stopRun{})
	}
}

func (t *T) taskEnd() {
	if r := recover(); r != nil {
		if _, ok := r.(stopRun); ok {
			return
		}
		st := string(debug.Stack())
		where, harness := blame(st)
		if harness {
			panic(r)
		}
		t.Note("panic@"+where, "library panicked: %v (in %s)", r, where)
	}
}

// sched draws the processor count and pre-emption density of the run.
func (t *T) sched(cpus bool) int {
	n := 8
	if cpus {
		n = 1 + t.D(8)
		if t.P(1, 20) {
			n = 9 + t.D(56)
		}
	}
	gaps := []uint32{0, 1 << 10, 200, 60, 20, 6, 2}
	runtime.VerifSetSched(n, gaps[t.D(len(gaps))])
	return n
}
