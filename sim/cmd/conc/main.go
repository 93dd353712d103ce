// The concurrency simulator (C08): several callers in one process, scheduled
// statement by statement by a seeded decision list.
package main

import (
	"fmt"
	"os"

	"github.com/apparentlymart/go-textseg/v17/textseg"

	"verifsim/engine"
	"verifsim/hook"
	"verifsim/ref"
	"verifsim/rng"
	"verifsim/stream"
	"verifsim/workload"
)

// Plan is one concurrent execution.
type Plan struct {
	Tasks    []Task        `json:"tasks"`
	Shared   engine.Hex    `json:"shared,omitempty"` // bytes several tasks read at once
	After    bool          `json:"alone_afterwards"` // the solo passes come after the concurrent one
	Switches []hook.Switch `json:"switches"`
}

// Task is one goroutine.
type Task struct {
	Text   engine.Hex      `json:"text,omitempty"`
	Shared bool            `json:"shared,omitempty"` // segments the shared bytes in place
	From   int             `json:"from,omitempty"`
	To     int             `json:"to,omitempty"`     // end of its part of the shared bytes, 0: all of them
	Window int             `json:"window,omitempty"` // looks at so many more bytes at a time, 0: all at once
	Del    stream.Delivery `json:"delivery"`
	Repeat int             `json:"repeat,omitempty"`
}

type result struct {
	ends [][]int
	errs []error
	cat  string
	bad  string
	kind string
}

func (a *result) equal(b *result) bool {
	return fmt.Sprint(a.ends, a.errs) == fmt.Sprint(b.ends, b.errs) && a.cat == b.cat
}

func (t *Task) run(shared []byte, out *result) {
	for k := 0; k <= t.Repeat && out.bad == ""; k++ {
		if t.Shared {
			func() {
				defer func() {
					switch x := recover().(type) {
					case nil:
					case hook.Deadlock:
						out.kind, out.bad = "deadlock", "every caller waits for another"
					case hook.StepLimit:
						out.kind, out.bad = "no-termination", "step budget exhausted"
					default:
						out.kind, out.bad = "panic", fmt.Sprint("panic: ", x)
					}
				}()
				data := t.part(shared) // with the rest of the array as spare capacity
				var ends []int
				off, seen := 0, len(data)
				if t.Window > 0 {
					seen = min(seen, t.Window)
				}
				for off < len(data) {
					hook.Pass()
					n, tok, err := textseg.ScanGraphemeClusters(data[off:seen], seen == len(data))
					if n == 0 && err == nil && seen < len(data) {
						seen = min(len(data), seen+t.Window)
						continue
					}
					if n <= 0 || err != nil || n > seen-off {
						out.kind, out.bad = "bad-result", fmt.Sprintf("advance %d, error %v with %d bytes left", n, err, seen-off)
						return
					}
					out.cat += string(tok)
					off += n
					ends = append(ends, off)
				}
				out.ends = append(out.ends, ends)
			}()
			continue
		}
		o := stream.Run(t.Text, &t.Del, textseg.ScanGraphemeClusters, stream.Hooks{NoBound: true})
		out.ends = append(out.ends, o.Ends)
		out.errs = append(out.errs, o.Err)
		out.cat += string(o.Cat)
		if o.Bad != "" {
			out.kind, out.bad = o.Kind, o.Bad
		}
	}
}

func (t *Task) part(shared []byte) []byte {
	to := len(shared)
	if t.To > 0 {
		to = min(to, t.To)
	}
	return shared[min(t.From, to):to]
}

// budget bounds the statements a task may take. Splitting is linear in the
// bytes of one consultation, and there is one for each read.
func (t *Task) budget(shared []byte) uint64 {
	n := uint64(len(t.Text))
	if t.Shared {
		n = uint64(len(shared))
	}
	return uint64(t.Repeat+1) * (100_000_000 + 100*n*n)
}

func alone(p *Plan) []*result {
	rs := make([]*result, len(p.Tasks))
	for i := range p.Tasks {
		rs[i] = &result{}
		hook.Budget(p.Tasks[i].budget(p.Shared))
		p.Tasks[i].run(p.Shared, rs[i])
		hook.NoBudget()
	}
	return rs
}

func text(r *rng.R) []byte {
	s := workload.NewStyle(r)
	s.Invalid = []int{0, 0, 8}[r.N(3)]
	if s.MaxRun > 40 {
		s.MaxRun = 40
	}
	b := workload.Text(r, s, r.In(1, []int{4, 10, 24}[r.N(3)]))
	if len(b) == 0 {
		b = []byte("ab")
	}
	return b[:min(len(b), 20000)]
}

const batch = 40

func c08() *engine.Check {
	return &engine.Check{
		ID: "C08", Runs: map[string]int{"quick": 40000, "thorough": 1500000}, Batch: batch, Race: true,
		Setup: func() error {
			hook.OnHang = func() {
				fmt.Fprintln(os.Stderr, "fatal error: a call is blocked for ever while all other callers wait their turn")
				os.Exit(4)
			}
			return nil
		},
		Gen: func(r *rng.R, seed uint64, idx int, tier string) any {
			p := &Plan{After: idx%batch == 0 || r.N(2) == 0}
			n := r.In(2, 5)
			p.Shared = text(r)
			same := text(r)
			est := 0
			pieces := r.N(4) == 0 // each has a piece of one array
			at := 0
			for i := 0; i < n; i++ {
				t := Task{}
				kind := r.N(4)
				if pieces {
					kind = 0
				}
				switch kind {
				case 0:
					t.Shared = true
					us := ref.Units(p.Shared, true)
					if pieces {
						t.From = at
						at += r.N(2*len(p.Shared)/n + 1)
						if i == n-1 || at > len(p.Shared) {
							at = len(p.Shared)
						}
						t.To = max(at, 1)
					} else if r.N(3) == 0 {
						t.From = us[r.N(len(us))].Off
					}
					if r.N(2) == 0 {
						t.Window = r.In(1, 9)
					}
					est += len(p.Shared) * 30
				case 1:
					t.Text = same
				default:
					t.Text = text(r)
				}
				if !t.Shared {
					t.Del = stream.GenDelivery(r, len(t.Text), nil, 0)
					if r.N(4) == 0 {
						t.Del.End = []string{stream.Err, stream.ErrData, stream.ErrUnexp}[r.N(3)]
						t.Del.FailAt = r.N(len(t.Text) + 1)
					}
					est += len(t.Text) * 60
				}
				t.Repeat = r.N(6) / 4
				p.Tasks = append(p.Tasks, t)
			}
			if r.N(16) == 0 { // texts that look the same to some hash function
				cp := workload.Collisions[r.N(len(workload.Collisions))]
				for i := range p.Tasks[:2] {
					p.Tasks[i] = Task{Text: engine.Hex(cp[i]), Del: stream.GenDelivery(r, len(cp[i]), nil, 0), Repeat: 1}
				}
			}
			// The schedule.
			step := uint64(0)
			add := func(gap int) {
				step += uint64(1 + r.N(gap))
				p.Switches = append(p.Switches, hook.Switch{Step: step, To: r.N(n)})
			}
			switch r.N(5) {
			case 0: // a context switch every few statements
				for g := []int{2, 6, 20}[r.N(3)]; step < uint64(est) && len(p.Switches) < 4000; {
					add(g)
				}
			case 1: // bursts
				for step < uint64(est) && len(p.Switches) < 3000 {
					for k := r.N(30); k > 0; k-- {
						add(3)
					}
					step += uint64(r.N(400))
				}
			case 2, 3: // a few preemptions: callers stall in the middle of calls
				for k := r.In(1, 8); k > 0; k-- {
					add(est/4 + 1)
				}
			case 4:
				for step < uint64(est) && len(p.Switches) < 3000 {
					add(120)
				}
			}
			return p
		},
		New: func() any { return &Plan{} },
		Exec: func(pl any, c *engine.Ctx) *engine.Violation {
			p := pl.(*Plan)
			var want []*result
			keep := append([]byte(nil), p.Shared...)
			if !p.After {
				want = alone(p)
			}
			got := make([]*result, len(p.Tasks))
			tasks := make([]func(), len(p.Tasks))
			for i := range p.Tasks {
				got[i] = &result{}
				tasks[i] = func() { p.Tasks[i].run(p.Shared, got[i]) }
			}
			s := &hook.Sched{Switches: p.Switches}
			total := uint64(0)
			for i := range p.Tasks {
				total += 2 * p.Tasks[i].budget(p.Shared)
			}
			hook.Budget(total)
			hook.Run(s, tasks)
			hook.NoBudget()
			if p.After {
				want = alone(p)
			}
			c.Add("schedules", 1)
			c.Add("tasks", len(tasks))
			c.Add("fault:preemption", s.Fired)
			inCall := 0
			for _, site := range s.Sites {
				if site > 0 {
					inCall++
				}
			}
			c.Add("fault:preemption-inside-a-call", inCall)
			c.Mix(s.Hash())
			for i := range got {
				c.MixInts(flat(got[i].ends))
				g, w := got[i], want[i]
				if w.bad != "" && g.bad == "" {
					return engine.V("alone-fails", "caller %d: alone: %s", i, w.bad)
				}
				if g.bad != "" && w.bad == "" {
					return engine.V(g.kind, "caller %d: %s; alone it succeeds", i, g.bad)
				}
				if !g.equal(w) {
					return engine.V("interference", "caller %d of %d: cluster ends %v (errors %v), alone %v (errors %v)", i, len(got), g.ends, g.errs, w.ends, w.errs)
				}
				if g.bad == "" && !prefixes(p, i, g) {
					return engine.V("interference", "caller %d of %d: the tokens are not the bytes of its stream", i, len(got))
				}
			}
			if string(keep) != string(p.Shared) {
				return engine.V("memory-written", "the shared bytes changed")
			}
			if s.Waits > 0 {
				return engine.V("blocked", "a call had to wait %d times for a lock held by another call", s.Waits)
			}
			if inCall > 0 {
				c.Distinct(s.Hash())
			}
			if len(c.Samples) < 2 && inCall > 0 {
				c.Sample("%d callers, %d preemptions (%d inside a call), first decisions %v", len(tasks), s.Fired, inCall, p.Switches[:min(6, len(p.Switches))])
			}
			return nil
		},
		Shrink: shrink,
		Rule:   "a run is two to five goroutines, each segmenting its own stream, its own copy of the same stream, the same read-only bytes, or adjacent pieces of one array, switched at seeded statements; half the batches run under the race detector. Non-trivial: at least one switch fired inside a call; distinct by the full sequence of (statement, from, to) switches.",
		Real:   []string{"textseg.ScanGraphemeClusters and everything below it, as goroutines", "bufio.Scanner", "the Go race detector (every other batch)"},
		Stub:   []string{"the goroutine scheduler", "senders and transports", "locks, pools and one-time initialisation, if the code used any (it uses none)"},
		Assume: []string{"interleavings are explored at statement granularity under sequential consistency; weaker behaviour requires a data race, which the race detector reports on executed paths"},
	}
}

func prefixes(p *Plan, i int, g *result) bool {
	t := &p.Tasks[i]
	src := []byte(t.Text)
	if t.Shared {
		src = t.part(p.Shared)
	}
	rest := g.cat
	for range g.ends {
		n := min(len(src), len(rest))
		e := 0
		if l := len(g.ends[0]); l > 0 {
			e = g.ends[0][l-1]
		}
		n = min(n, e)
		if rest[:n] != string(src[:n]) {
			return false
		}
		rest = rest[n:]
	}
	return rest == ""
}

func flat(v [][]int) (o []int) {
	for _, x := range v {
		o = append(o, x...)
	}
	return
}

func shrink(pl any, try0 func(any) bool) any {
	p := pl.(*Plan)
	clone := func() *Plan {
		q := *p
		q.Tasks = append([]Task(nil), p.Tasks...)
		q.Switches = append([]hook.Switch(nil), p.Switches...)
		return &q
	}
	try := func(q *Plan) bool {
		if try0(q) {
			p = q
			return true
		}
		return false
	}
	for round := 0; round < 2; round++ {
		for i := 0; i < len(p.Tasks) && len(p.Tasks) > 2; {
			q := clone()
			q.Tasks = append(q.Tasks[:i:i], q.Tasks[i+1:]...)
			for k := range q.Switches {
				if q.Switches[k].To > i {
					q.Switches[k].To--
				}
			}
			if !try(q) {
				i++
			}
		}
		for ch := max(1, len(p.Switches)/2); ch >= 1; ch /= 2 {
			for i := 0; i < len(p.Switches); {
				q := clone()
				q.Switches = append(q.Switches[:i:i], q.Switches[min(i+ch, len(q.Switches)):]...)
				if !try(q) {
					i += ch
				}
			}
		}
		for i := range p.Tasks {
			if p.Tasks[i].Repeat > 0 {
				q := clone()
				q.Tasks[i].Repeat = 0
				try(q)
			}
			if p.Tasks[i].Window > 0 {
				q := clone()
				q.Tasks[i].Window = 0
				try(q)
			}
			if !p.Tasks[i].Shared && p.Tasks[i].Del.Cons != "whole" {
				q := clone()
				q.Tasks[i].Del = stream.Delivery{Cons: "whole", FailAt: -1}
				try(q)
			}
			for ch := max(1, len(p.Tasks[i].Text)/2); ch >= 1; ch /= 2 {
				for k := 0; k < len(p.Tasks[i].Text); {
					q := clone()
					t := p.Tasks[i].Text
					q.Tasks[i].Text = append(append(engine.Hex(nil), t[:k]...), t[min(k+ch, len(t)):]...)
					if !try(q) {
						k += ch
					}
				}
			}
		}
	}
	return p
}

func main() { engine.Main(c08()) }
