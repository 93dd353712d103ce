package hook

import (
	"bytes"
	randv2 "math/rand/v2"
	"runtime"
	"strconv"
)

// The ambient scheduler runs the goroutines the code under test starts by
// itself, one at a time. It comes into being with the first of them. The
// goroutine that started it is task 0. At seeded steps, and whenever the
// running task ends or blocks, a seeded choice among the tasks that can run
// decides which goes on.
//
// Locks and wait groups are simulated (simsync) and hand control over. A task
// that blocks in something real, a channel operation, is recognised by the
// state the Go runtime reports for its goroutine; when the operation is done,
// Regain makes it queue again. Which tasks can run is only ever asked when
// every other goroutine has come to rest, so the answer does not depend on
// real time.

const (
	ready   = iota // can run when given the turn
	polling        // waits for a simulated lock; ready after progress
	inOp           // blocked in a channel operation
	finished
)

type atask struct {
	gid   int64
	state int
	since uint64 // step at which polling began
}

type ambient struct {
	tasks []*atask
	turn  int
	next  uint64
	mean  uint64
	left  int
	rnd   *randv2.Rand
	real  int // tasks in channel operations
	dead  bool
	hash  uint64
}

var (
	amb *ambient
	// OnTaskPanic receives a panic that ends a goroutine of the code under
	// test (in reality the end of the process).
	OnTaskPanic func(x any)
	// AmbientSwitches and AmbientTasks count over the life of the process.
	AmbientSwitches, AmbientTasks int
	AmbientHash                   uint64
)

const patience = 3_000_000 // steps one task may run while others can

func stopAmbient() {
	if amb != nil {
		amb.dead = true
		amb = nil
		recalc()
	}
}

// Go starts a goroutine of the code under test.
func Go(f func()) {
	if sched != nil {
		go f()
		return
	}
	a := amb
	if a == nil {
		runtime.GOMAXPROCS(1) // the waiting tasks spin
		a = &ambient{rnd: randv2.New(randv2.NewPCG(chance().seed, 9)), left: 1500}
		switch a.rnd.IntN(4) {
		case 0: // no preemption: tasks change when they block
			a.mean = 0
		case 1:
			a.mean = 3 + a.rnd.Uint64N(30)
		case 2:
			a.mean = 30 + a.rnd.Uint64N(3000)
		case 3:
			a.mean = 3000 + a.rnd.Uint64N(2_000_000)
		}
		a.tasks = []*atask{{gid: gid()}}
		amb = a
		a.arm()
	}
	id := len(a.tasks)
	t := &atask{}
	a.tasks = append(a.tasks, t)
	AmbientTasks++
	up := make(chan struct{})
	go func() {
		t.gid = gid()
		close(up)
		a.wait(id)
		defer func() {
			x := recover()
			if a.dead {
				return
			}
			if x != nil {
				if OnTaskPanic == nil {
					panic(x)
				}
				OnTaskPanic(x)
			}
			a.finish(id)
		}()
		f()
	}()
	<-up
	if a.rnd.IntN(2) == 0 {
		a.pass()
	}
}

func (a *ambient) arm() {
	a.next = steps + patience
	if a.mean > 0 && a.left > 0 {
		a.next = steps + 1 + a.rnd.Uint64N(2*a.mean)
	}
	recalc()
}

// pass is a scheduling point of the task that has the turn.
func (a *ambient) pass() {
	me := a.turn
	a.hand(me, a.pick(-1))
}

func (a *ambient) hand(me, to int) {
	a.arm()
	if to < 0 || to == me {
		return
	}
	a.note(me, to)
	a.turn = to
	a.wait(me)
}

func (a *ambient) note(me, to int) {
	a.left--
	AmbientSwitches++
	a.hash = (a.hash ^ steps<<16 ^ uint64(me)<<8 ^ uint64(to)) * 0x9e3779b97f4a7c15
	a.hash ^= a.hash >> 29
	AmbientHash = a.hash
}

// pick chooses a task that can run; not is one that cannot.
func (a *ambient) pick(not int) int {
	a.settle()
	var l []int
	for i, t := range a.tasks {
		if i == not {
			continue
		}
		if t.state == ready || t.state == polling && t.since != steps {
			l = append(l, i)
		}
	}
	if len(l) == 0 {
		return -1
	}
	to := l[a.rnd.IntN(len(l))]
	a.tasks[to].state = ready
	return to
}

// settle waits until every task in a channel operation is really blocked in
// it or has come back from it.
func (a *ambient) settle() {
	for a.real > 0 {
		st := states()
		moving := false
		for _, t := range a.tasks {
			if t.state == inOp && !blocked(st[t.gid]) {
				moving = true
			}
		}
		if !moving {
			return
		}
		runtime.Gosched()
	}
}

func (a *ambient) wait(id int) {
	spins, limit := 0, 3
	last := -1
	for a.turn != id {
		if a.dead {
			runtime.Goexit()
		}
		runtime.Gosched()
		if a.turn != last {
			spins, limit, last = 0, 3, a.turn
		}
		if spins++; spins < limit {
			continue
		}
		spins = 0
		if limit < 1<<20 {
			limit *= 2
		}
		if id == a.watcher() {
			a.watch()
		}
	}
}

// watcher is the one waiting task that looks whether the running one blocked.
func (a *ambient) watcher() int {
	for i, t := range a.tasks {
		if i != a.turn && (t.state == ready || t.state == polling) {
			return i
		}
	}
	return -1
}

func (a *ambient) watch() {
	was, n := a.turn, steps
	t := a.tasks[was]
	if t.state != ready || !blocked(states()[t.gid]) || a.turn != was || steps != n {
		return
	}
	t.state = inOp
	a.real++
	to := a.pick(was)
	if to < 0 {
		// Only tasks polling for locks are left, and nothing can progress:
		// let one of them find out.
		for i, t := range a.tasks {
			if t.state == polling {
				to = i
			}
		}
	}
	a.note(was, to)
	a.arm()
	a.turn = to
}

// Regain is called after every channel operation.
func Regain() {
	a := amb
	if a == nil || a.real == 0 {
		return
	}
	g := gid()
	for i, t := range a.tasks {
		if t.gid == g && t.state == inOp {
			t.state = ready
			a.real--
			a.wait(i)
			return
		}
	}
}

// R is Regain after a receive in an expression.
func R[T any](v T) T { Regain(); return v }

func (a *ambient) finish(id int) {
	a.tasks[id].state = finished
	to := a.pick(id)
	if to < 0 {
		for i, t := range a.tasks {
			if t.state == polling {
				to = i
			}
		}
	}
	if to < 0 {
		return // all others are blocked for good: the runtime reports it
	}
	a.note(id, to)
	a.arm()
	a.turn = to
}

// block parks the running task until another has made progress.
func (a *ambient) block() {
	me := a.turn
	t := a.tasks[me]
	t.state, t.since = polling, steps
	to := a.pick(me)
	if to < 0 {
		t.state = ready
		panic(Deadlock{})
	}
	a.hand(me, to)
	t.state = ready
}

// Nap lets other tasks run (a sleeping task).
func Nap() {
	if a := amb; a != nil && sched == nil {
		a.pass()
	}
}

func gid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	id, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return id
}

var stackBuf = make([]byte, 1<<16)

// states are the wait states of all goroutines.
func states() map[int64]string {
	var b []byte
	for {
		n := runtime.Stack(stackBuf, true)
		if n < len(stackBuf) {
			b = stackBuf[:n]
			break
		}
		stackBuf = make([]byte, 2*len(stackBuf))
	}
	out := map[int64]string{}
	for _, p := range bytes.Split(b, []byte("\n\ngoroutine ")) {
		p = bytes.TrimPrefix(p, []byte("goroutine "))
		num, rest, ok := bytes.Cut(p, []byte(" "))
		if !ok {
			continue
		}
		id, err := strconv.ParseInt(string(num), 10, 64)
		i, j := bytes.IndexByte(rest, '['), bytes.IndexByte(rest, ']')
		if err != nil || i < 0 || j < i {
			continue
		}
		s, _, _ := bytes.Cut(rest[i+1:j], []byte(","))
		out[id] = string(s)
	}
	return out
}

func blocked(state string) bool {
	switch state {
	case "chan receive", "chan send", "select", "select (no cases)", "chan receive (nil chan)", "chan send (nil chan)",
		"semacquire", "sync.Mutex.Lock", "sync.RWMutex.RLock", "sync.RWMutex.Lock", "sync.WaitGroup.Wait", "sync.Cond.Wait", "sleep":
		return true
	}
	return false
}
