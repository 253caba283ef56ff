// Package sched runs a few goroutines one at a time and decides at every
// scheduling point which of them goes on. The explorer drives it through all
// schedules up to a preemption bound.
//
// The threads hand over by spinning on plain variables inside functions that
// the race detector does not instrument: the scheduler orders the threads
// without creating happens-before edges, so the detector sees exactly the
// synchronisation of the code under test. This needs GOMAXPROCS(1).
package sched

import (
	"runtime"
	"sync"
)

const (
	MaxThreads = 4
	maxChoices = 4096
	maxSteps   = 400000
	stickySpin = 3000 // steps one thread may take while others wait, before it has to yield
)

type choice struct {
	n     int // number of options
	taken int
	cost  int // of every option but the first
	used  int // budget used before this choice
}

var (
	active   bool
	cur      int
	nthreads int
	done     [MaxThreads]bool
	blocked  [MaxThreads]any

	prefix    [maxChoices]uint8
	prefixLen int
	path      [maxChoices]choice
	pathLen   int
	used      int
	bound     int
	sticky    int

	PoolOldest bool  // pools may also return what was put first
	Steps      int64 // scheduling points of this execution
	Deadlock   bool
	TooLong    bool
	Diverged   bool
	Seen       int64 // points seen since the start of the process, also outside executions
	Kinds      [16]int64
	abort      bool
	abortPanic = new(struct{ s string })
)

// Kinds of scheduling points.
const (
	KAtomicLoad = iota
	KAtomicStore
	KPoolGet
	KPoolPut
	KLock
	KUnlock
	KMap
	KUser
	KOther
)

//go:norace
func Active() bool { return active }

// Point is a place where another thread may be given the processor.
//
//go:norace
func Point(kind int) {
	Seen++
	if !active {
		return
	}
	Kinds[kind]++
	Steps++
	if Steps > maxSteps {
		TooLong = true
		abort = true
	}
	if abort {
		panic(abortPanic)
	}
	me := cur
	next := me
	others := false
	for i := 0; i < nthreads; i++ {
		if i != me && !done[i] && blocked[i] == nil {
			others = true
		}
	}
	if !others {
		return
	}
	sticky++
	if sticky > stickySpin {
		next = pickOther(me, 0)
	} else {
		n := 1
		for i := 0; i < nthreads; i++ {
			if i != me && !done[i] && blocked[i] == nil {
				n++
			}
		}
		c := choose(n, 1)
		if c > 0 {
			next = pickOther(me, c-1)
		}
	}
	if next != me {
		switchTo(me, next)
	}
}

//go:norace
func pickOther(me, k int) int {
	for d := 1; d < nthreads; d++ {
		i := (me + d) % nthreads
		if !done[i] && blocked[i] == nil {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return me
}

//go:norace
func switchTo(me, next int) {
	sticky = 0
	cur = next
	for cur != me {
		runtime.Gosched()
	}
	if abort {
		panic(abortPanic)
	}
}

// choose takes the next decision; every option but 0 costs cost of the budget.
//
//go:norace
func choose(n, cost int) int {
	if n > 1 && cost > 0 && used+cost > bound {
		n = 1
	}
	if n <= 1 || pathLen >= maxChoices {
		return 0
	}
	c := 0
	if pathLen < prefixLen {
		c = int(prefix[pathLen])
		if c >= n {
			Diverged = true
			c = 0
		}
	}
	path[pathLen] = choice{n, c, cost, used}
	pathLen++
	if c > 0 {
		used += cost
	}
	return c
}

// Choose explores n alternatives; the first is the usual one.
//
//go:norace
func Choose(n int) int {
	if !active {
		return 0
	}
	return choose(n, 1)
}

// Block parks the current thread until Wake(obj). Outside executions it only yields.
//
//go:norace
func Block(obj any) {
	if !active {
		runtime.Gosched()
		return
	}
	if abort {
		panic(abortPanic)
	}
	me := cur
	blocked[me] = obj
	n := 0
	for i := 0; i < nthreads; i++ {
		if !done[i] && blocked[i] == nil {
			n++
		}
	}
	if n == 0 {
		Deadlock = true
		abort = true
		for i := range blocked {
			blocked[i] = nil
		}
		panic(abortPanic)
	}
	switchTo(me, pickOther(me, choose(n, 0)))
}

//go:norace
func Wake(obj any) {
	for i := 0; i < nthreads; i++ {
		if blocked[i] == obj {
			blocked[i] = nil
		}
	}
}

//go:norace
func threadStart(me int) {
	for cur != me {
		runtime.Gosched()
	}
}

//go:norace
func threadEnd(me int) {
	done[me] = true
	n := 0
	for i := 0; i < nthreads; i++ {
		if !done[i] && blocked[i] == nil {
			n++
		}
	}
	if n == 0 {
		for i := 0; i < nthreads; i++ {
			if !done[i] { // all others wait for something
				Deadlock = true
				abort = true
				for j := range blocked {
					blocked[j] = nil
				}
				cur = i
				return
			}
		}
		return
	}
	sticky = 0
	if abort {
		cur = pickOther(me, 0)
		return
	}
	cur = pickOther(me, choose(n, 0))
}

// IsAbort tells the scheduler's own panic, which ends the threads of a broken execution.
//
//go:norace
func IsAbort(r any) bool { return r == any(abortPanic) }

//go:norace
func begin(n, b int) {
	cur = -1
	nthreads = n
	for i := range done {
		done[i], blocked[i] = false, nil
	}
	pathLen, used, bound, sticky, Steps = 0, 0, b, 0, 0
	Deadlock, TooLong, Diverged, abort = false, false, false, false
	active = true
	cur = choose(n, 0)
}

//go:norace
func end() { active = false }

// Run executes the threads under the schedule given by the prefix and the default policy.
func Run(threads []func(), b int) {
	var wg sync.WaitGroup
	wg.Add(len(threads))
	setCur(-1)
	for i, f := range threads {
		go func() {
			defer wg.Done()
			threadStart(i)
			defer threadEnd(i)
			defer func() {
				if r := recover(); r != nil && !IsAbort(r) {
					panic(r)
				}
			}()
			f()
		}()
	}
	begin(len(threads), b)
	wg.Wait()
	end()
}

//go:norace
func setCur(i int) { cur = i }

// Reset starts a new exploration.
//
//go:norace
func Reset() { prefixLen = 0 }

// Next sets the prefix for the next unexplored schedule; false when all are explored.
//
//go:norace
func Next() bool {
	for i := pathLen - 1; i >= 0; i-- {
		c := &path[i]
		if c.taken+1 < c.n && (c.cost == 0 || c.used+c.cost <= bound) {
			for j := 0; j < i; j++ {
				prefix[j] = uint8(path[j].taken)
			}
			prefix[i] = uint8(c.taken + 1)
			prefixLen = i + 1
			return true
		}
	}
	return false
}

// Schedule renders the decisions of the last execution that were not the default.
//
//go:norace
func Schedule() (out []int) {
	for i := 0; i < pathLen; i++ {
		out = append(out, path[i].taken)
	}
	return
}

//go:norace
func Choices() int { return pathLen }

//go:norace
func Budget() int { return used }

// SetPrefix makes the next execution follow these decisions.
//
//go:norace
func SetPrefix(p []int) {
	prefixLen = len(p)
	for i, c := range p {
		prefix[i] = uint8(c)
	}
}

//go:norace
func Prefix() (out []int) {
	for i := 0; i < prefixLen; i++ {
		out = append(out, int(prefix[i]))
	}
	return
}
