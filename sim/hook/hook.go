// Package hook is the seam the instrumenter inserts before every statement of
// the code under test. It counts simulated steps, records which statements
// ran, bounds each consultation, and is where the cooperative scheduler takes
// control away from a task. Nothing here may use maps, channels or locks on
// the yield path: the functions are exempt from race instrumentation and must
// not create happens-before edges between tasks, so that the race detector
// still sees unsynchronised accesses of the code under test.
package hook

import (
	"runtime"
	"time"
)

const MaxSites = 1 << 14

var (
	steps    uint64 // statements executed since start
	limit    uint64 = 1 << 63
	budget   uint64 = 1 << 63
	Hits     [MaxSites]bool
	sched    *Sched
	NumSites int
)

// StepLimit is the panic value of an exhausted step budget.
type StepLimit struct{}

func (StepLimit) Error() string { return "step budget exhausted (no progress)" }

//go:norace
func Yield(site int) {
	Hits[site] = true
	steps++
	if steps >= limit {
		slow(site)
	}
}

//go:norace
func slow(site int) {
	if steps >= budget {
		budget = 1 << 63
		recalc()
		panic(StepLimit{})
	}
	if s := sched; s != nil {
		if steps >= s.next {
			s.yield(site)
		}
	} else if a := amb; a != nil && steps >= a.next {
		a.pass()
	}
	recalc()
}

//go:norace
func recalc() {
	limit = budget
	if s := sched; s != nil {
		if s.next < limit {
			limit = s.next
		}
	} else if a := amb; a != nil && a.next < limit {
		limit = a.next
	}
}

// Budget allows n more steps before a StepLimit panic; it returns the step count.
func Budget(n uint64) uint64 {
	budget = steps + n
	recalc()
	return steps
}

// NoBudget lifts the bound.
func NoBudget() { budget = 1 << 63; recalc() }

//go:norace
func Steps() uint64 { return steps }

// Sched runs tasks one at a time. A decision list fixes where control passes
// on: at global step Switches[i].Step the running task is parked and task
// Switches[i].To runs (if it is finished or blocked, the next runnable one).
// A finishing or blocking task passes control to the lowest-numbered runnable
// task after it.
type Sched struct {
	Switches  []Switch
	next      uint64 // step of the next switch
	pos       int
	turn      int
	start     uint64
	alive     [64]bool
	waiting   [64]bool // parked in Block since the last progress of another task
	n         int
	lastBlock uint64
	Blocked   bool // every live task is blocked: deadlock
	Waits     int  // times a task had to wait for a lock another one held
	Fired     int
	Sites     []int32 // site at which each switch fired
	fired     [4096]int32
	trace     [4096]int32
	hash      uint64
}

type Switch struct {
	Step uint64
	To   int
}

// Run executes the tasks under the schedule on the calling goroutine's turn.
func Run(s *Sched, tasks []func()) {
	s.n = len(tasks)
	s.turn = -1
	s.start = steps
	done := make(chan struct{})
	for i := range tasks {
		s.alive[i] = true
		go func() {
			s.waitTurn(i)
			defer func() {
				s.finish(i)
				done <- struct{}{}
			}()
			tasks[i]()
		}()
	}
	s.arm()
	setSched(s)
	s.give(0)
	for range tasks {
		<-done
	}
	setSched(nil)
	s.Sites = s.fired[:min(s.Fired, len(s.fired))]
}

//go:norace
func setSched(s *Sched) { sched = s; recalc() }

//go:norace
func (s *Sched) arm() {
	if s.pos < len(s.Switches) {
		s.next = s.start + s.Switches[s.pos].Step
	} else {
		s.next = 1 << 63
	}
}

//go:norace
func (s *Sched) give(i int) { s.turn = i }

//go:norace
func (s *Sched) waitTurn(i int) {
	spins, seen := 0, steps
	var since time.Time
	for s.turn != i {
		runtime.Gosched()
		if spins++; spins == 1<<16 {
			// The clock is only read to notice that the simulation is stuck;
			// it decides nothing else.
			spins = 0
			now := time.Now()
			if steps != seen || since.IsZero() {
				seen, since = steps, now
			} else if now.Sub(since) > 8*time.Second && OnHang != nil {
				OnHang()
			}
		}
	}
}

//go:norace
func (s *Sched) pickFrom(i int) int {
	for k := 0; k < s.n; k++ {
		j := (i + k) % s.n
		if s.alive[j] && !s.waiting[j] {
			return j
		}
	}
	return -1
}

//go:norace
func (s *Sched) yield(site int) {
	me := s.turn
	to := s.Switches[s.pos].To
	s.pos++
	s.arm()
	to = s.pickFrom(to % s.n)
	if to < 0 || to == me {
		return
	}
	if s.Fired < len(s.fired) {
		s.fired[s.Fired] = int32(site)
		s.trace[s.Fired] = int32(me<<8 | to)
	}
	s.Fired++
	s.hash = (s.hash ^ uint64(site)<<16 ^ uint64(me)<<8 ^ uint64(to)) * 0x9e3779b97f4a7c15
	s.hash ^= s.hash >> 29
	s.clearWaiting()
	s.turn = to
	s.waitTurn(me)
}

//go:norace
func (s *Sched) clearWaiting() {
	for k := 0; k < s.n; k++ {
		s.waiting[k] = false
	}
}

//go:norace
func (s *Sched) finish(i int) {
	s.alive[i] = false
	s.clearWaiting()
	to := s.pickFrom(i + 1)
	s.turn = to
	recalc()
}

// Hash identifies the interleaving (where control passed between which tasks).
func (s *Sched) Hash() uint64 { return s.hash }

// Deadlock is the panic value when every live task is blocked.
type Deadlock struct{}

func (Deadlock) Error() string { return "all tasks blocked" }

// OnHang is called when the running task is blocked by something the
// simulator does not control (a channel, say): nothing can run any more.
var OnHang func()

// Wait is Block for a lock: it is counted.
//
//go:norace
func Wait() {
	if s := sched; s != nil {
		s.Waits++
	}
	Block()
}

// Block parks the running task until another one has made progress. The
// simulated locks call it while they cannot be taken.
//
//go:norace
func Block() {
	s := sched
	if s == nil {
		if a := amb; a != nil {
			a.block()
			return
		}
		// Not a simulated task: the code under test started a goroutine of
		// its own, which may be what it waits for.
		if !alone() {
			return
		}
		panic(Deadlock{})
	}
	me := s.turn
	if steps != s.lastBlock { // somebody progressed: the others may retry
		s.clearWaiting()
		s.lastBlock = steps
	}
	s.waiting[me] = true
	to := s.pickFrom(me + 1)
	if to < 0 {
		s.Blocked = true
		panic(Deadlock{})
	}
	s.turn = to
	s.waitTurn(me)
	s.waiting[me] = false
}

var (
	idle  int
	seenN uint64
	since time.Time
)

// alone reports that nothing has happened for a while.
//
//go:norace
func alone() bool {
	runtime.Gosched()
	if steps != seenN {
		seenN, idle, since = steps, 0, time.Time{}
		return false
	}
	if idle++; idle < 1000 {
		return false
	}
	idle = 0
	time.Sleep(time.Millisecond)
	if since.IsZero() {
		since = time.Now()
	}
	if runtime.NumGoroutine() <= 2 {
		return time.Since(since) > 50*time.Millisecond
	}
	return time.Since(since) > 4*time.Second
}

// Pass is an explicit scheduling point of the harness (a simulated read): it
// counts as one step, so decisions can fall on it.
func Pass() { Yield(0) }

// AddSteps accounts for statements executed in another process.
func AddSteps(n uint64) { steps += n }
