// The boundary-detector simulator (C18): suspended, copied, forked, handed over
// and interleaved detectors, stepped by tasks that are scheduled statement by
// statement.
package main

import (
	"fmt"
	"unicode/utf8"

	"github.com/apparentlymart/go-textseg/v17/textseg"
	"github.com/apparentlymart/go-textseg/v17/textseg/verifbridge/machine"

	"verifsim/engine"
	"verifsim/hook"
	"verifsim/ref"
	"verifsim/rng"
	"verifsim/workload"
)

func main() { engine.Main(c18()) }

// Plan is one execution.
type Plan struct {
	Texts    []engine.Hex  `json:"texts"`
	Tasks    [][]Op        `json:"tasks"`
	Switches []hook.Switch `json:"switches,omitempty"`
	Style    string        `json:"style,omitempty"`
}

// Op is one thing a task does with the pool of detectors.
type Op struct {
	K    string     `json:"k"`
	D    int        `json:"d"`              // which detector, modulo their number
	N    int        `json:"n,omitempty"`    // step: characters; futures: depth
	Text engine.Hex `json:"text,omitempty"` // fork: how the copy goes on; noise: bytes
	Seed uint64     `json:"seed,omitempty"`
}

const (
	step     = "step"     // feed N characters
	fork     = "fork"     // copy, and let the copy go on differently
	save     = "save"     // keep a copy
	rollback = "rollback" // continue from the kept copy
	restart  = "restart"  // at its next boundary, forget the state and begin anew
	futures  = "futures"  // try every class of character on copies
	noise    = "noise"    // use the same code on unrelated bytes
	exact    = "exact"    // from now on show it one character's bytes only
)

type det struct {
	d       machine.Det
	text    []byte
	us      []ref.Unit
	pos     int // characters consumed
	begin   bool
	short   bool
	busy    bool
	last    int // task that stepped it last
	saved   *det
	forks   int
	crossed bool
}

type world struct {
	pool []*det
	c    map[string]int
	viol *engine.Violation
	hash uint64
}

func (w *world) fail(kind, f string, a ...any) {
	if w.viol == nil {
		w.viol = engine.V(kind, f, a...)
	}
}

func newDet(text []byte) *det {
	return &det{text: text, us: ref.Units(text, true), last: -1}
}

func (x *det) rest(i int) []byte {
	u := x.us[i]
	if x.short {
		return x.text[u.Off : u.Off+u.Len : u.Off+u.Len]
	}
	return x.text[u.Off:]
}

func context(x *det, i int) string {
	s := ""
	for j := max(0, i-12); j <= i; j++ {
		r, _ := utf8.DecodeRune(x.text[x.us[j].Off:])
		if j > max(0, i-12) {
			s += " "
		}
		if j == i {
			s += "? "
		}
		s += fmt.Sprintf("U+%04X:%s", r, ref.ClassName(x.us[j].Class))
	}
	return s
}

// advance feeds one character.
func (w *world) advance(x *det, how string) bool {
	i := x.pos
	if i >= len(x.us) {
		return false
	}
	var n int
	want := ref.BreakAt(x.us, i)
	if i == 0 || x.begin && want {
		x.d, n = machine.Begin(x.rest(i))
		if i > 0 {
			w.c["fault:state lost and begun anew at a boundary"]++
		}
		x.begin = false
	} else {
		split, d, k := x.d.Step(x.rest(i))
		n = k
		if split != want {
			w.fail("wrong-boundary", "%s: boundary=%v must be %v at %s", how, split, want, context(x, i))
			return false
		}
		x.d = d
	}
	if n != x.us[i].Len {
		w.fail("wrong-character", "%s: character of %d bytes taken as %d bytes at %s", how, x.us[i].Len, n, context(x, i))
		return false
	}
	w.hash = (w.hash ^ uint64(i)<<1 ^ uint64(b2i(want))) * 1099511628211
	x.pos++
	w.c["characters"]++
	return true
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (w *world) futures(x *det, depth int, seed uint64) {
	if x.pos == 0 {
		return
	}
	r := rng.New(seed)
	for _, k := range ref.Combos {
		y := &det{d: x.d, text: append([]byte(nil), x.text[:x.end()]...), us: append([]ref.Unit(nil), x.us[:x.pos]...), pos: x.pos, short: x.short}
		for l := 0; l < depth; l++ {
			kk := k
			if l > 0 {
				kk = ref.Combos[r.N(len(ref.Combos))]
			}
			off := len(y.text)
			y.text = workload.Enc(y.text, workload.Member(r, kk))
			y.us = append(y.us, ref.Unit{Off: off, Len: len(y.text) - off, Kind: ref.KChar, Class: kk})
			if !w.advance(y, "copied state with another continuation") {
				return
			}
			w.c["fault:forked continuations"]++
		}
	}
}

func (x *det) end() int {
	if x.pos == 0 {
		return 0
	}
	u := x.us[x.pos-1]
	return u.Off + u.Len
}

func (w *world) do(task int, op *Op) {
	x := w.pool[op.D%len(w.pool)]
	if x.busy {
		w.c["detector busy"]++
		return
	}
	x.busy = true
	defer func() { x.busy = false }()
	switch op.K {
	case step:
		if x.last >= 0 && x.last != task {
			w.c["fault:handed over to another task"]++
		}
		x.last = task
		for k := 0; k < op.N && w.viol == nil; k++ {
			if !w.advance(x, "detector") {
				break
			}
		}
	case fork:
		y := newDet(append(append([]byte(nil), x.text[:x.end()]...), op.Text...))
		y.d, y.pos, y.begin, y.short, y.last = x.d, x.pos, x.begin, x.short, x.last
		if len(w.pool) < 12 {
			w.pool = append(w.pool, y)
		} else {
			for w.viol == nil && w.advance(y, "forked detector") {
			}
		}
		w.c["fault:forked"]++
	case save:
		y := *x
		y.saved = nil
		x.saved = &y
	case rollback:
		if s := x.saved; s != nil {
			x.d, x.pos, x.begin = s.d, s.pos, s.begin
			w.c["fault:rolled back to a copy"]++
		}
	case restart:
		x.begin = true
	case exact:
		x.short = !x.short
	case futures:
		w.futures(x, op.N, op.Seed)
	case noise:
		b := []byte(op.Text)
		for len(b) > 0 {
			n, _, _ := textseg.ScanGraphemeClusters(b, true)
			if n <= 0 || n > len(b) {
				break
			}
			b = b[n:]
		}
		if b = op.Text; len(b) > 0 {
			d, n := machine.Begin(b)
			for n > 0 && n < len(b) {
				b = b[n:]
				_, d, n = d.Step(b)
			}
		}
		w.c["fault:unrelated use in between"]++
	}
}

func (w *world) guarded(f func()) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case hook.StepLimit:
			w.fail("no-termination", "step budget exhausted")
		case hook.Deadlock:
			w.fail("deadlock", "every task waits for another")
		default:
			w.fail("panic", "panic: %v", x)
		}
	}()
	f()
}

func text(r *rng.R, n int) []byte {
	s := workload.NewStyle(r)
	b := workload.Text(r, s, r.In(1, n))
	if len(b) == 0 || !utf8.Valid(b) {
		b = []byte("a\u0301b")
	}
	return b
}

func genOps(r *rng.R, n, dets int) []Op {
	var ops []Op
	for i := 0; i < n; i++ {
		o := Op{D: r.N(dets + 4)}
		switch r.N(16) {
		case 0:
			o.K, o.Text = fork, text(r, 12)
		case 1:
			o.K = save
		case 2:
			o.K = rollback
		case 3:
			o.K = restart
		case 4:
			o.K, o.N, o.Seed = futures, r.In(1, 3), r.U64()>>16
		case 5:
			o.K, o.Text = noise, workload.Raw(r, r.In(1, 20))
			if r.N(2) == 0 {
				o.Text = workload.Bad(r, text(r, 4))
			}
		case 6:
			o.K = exact
		default:
			o.K, o.N = step, []int{1, 1, 2, 5, 20}[r.N(5)]
		}
		ops = append(ops, o)
	}
	return ops
}

const perRun = 512
const cpsPerRun = 96

func c18() *engine.Check {
	k := len(ref.Combos)
	grams := func(tier string) (n, runs int) {
		n = 4
		if tier == "thorough" {
			n = 5
		}
		return n, (workload.Pow(k, n) + perRun - 1) / perRun
	}
	nb := (workload.NCP + cpsPerRun - 1) / cpsPerRun
	_, gq := grams("quick")
	_, gt := grams("thorough")
	return &engine.Check{
		ID: "C18", Runs: map[string]int{"quick": nb + gq + 40000, "thorough": nb + gt + 1500000}, Batch: 400,
		New: func() any { return &Plan{} },
		Gen: func(r *rng.R, seed uint64, idx int, tier string) any {
			p := &Plan{}
			n, gr := grams(tier)
			all := func(b []byte, style string) any {
				p.Texts, p.Style = []engine.Hex{b}, style
				return p
			}
			switch {
			case idx < nb:
				dk := workload.NewDeck(seed, workload.NCP)
				var b []byte
				for j := idx * cpsPerRun; j < (idx+1)*cpsPerRun && j < workload.NCP; j++ {
					b = workload.CPShort(r, b, workload.Scalar(dk.At(j)))
				}
				p.Tasks = [][]Op{{{K: step, N: r.N(40)}, {K: save}, {K: step, N: r.N(40)}, {K: rollback}}}
				return all(b, "code-points")
			case idx < nb+gr:
				i := (idx - nb) * perRun
				tot := workload.Pow(k, n)
				dk := workload.NewDeck(seed, tot)
				var b []byte
				var ops []Op
				for j := i; j < i+perRun && j < tot; j++ {
					b = workload.NGram(r, b, dk.At(j), n)
					ops = append(ops, Op{K: step, N: n}, Op{K: futures, N: 1 + r.N(8)/7, Seed: r.U64() >> 16})
					if r.N(4) == 0 {
						ops = append(ops, Op{K: restart})
					}
				}
				p.Tasks = [][]Op{ops}
				return all(b, "class-sequences")
			}
			p.Style = "histories"
			nt := r.In(1, 5)
			for i := 0; i < nt; i++ {
				p.Texts = append(p.Texts, text(r, []int{3, 8, 30}[r.N(3)]))
			}
			tasks := []int{1, 2, 3, 4}[r.N(4)]
			for i := 0; i < tasks; i++ {
				p.Tasks = append(p.Tasks, genOps(r, r.In(3, 40), nt))
			}
			if tasks > 1 {
				s := uint64(0)
				gap := []int{2, 8, 40, 300}[r.N(4)]
				for len(p.Switches) < 1500 && s < 20000 {
					s += uint64(1 + r.N(gap))
					p.Switches = append(p.Switches, hook.Switch{Step: s, To: r.N(tasks)})
				}
			}
			return p
		},
		Exec: func(pl any, c *engine.Ctx) *engine.Violation {
			p := pl.(*Plan)
			w := &world{c: map[string]int{}}
			for _, t := range p.Texts {
				if !utf8.Valid(t) {
					return nil // minimiser candidates only
				}
				w.pool = append(w.pool, newDet(t))
			}
			if len(w.pool) == 0 {
				return nil
			}
			inCall := 0
			hook.Budget(20_000_000_000)
			if len(p.Tasks) == 1 {
				w.guarded(func() {
					for i := range p.Tasks[0] {
						if w.viol != nil {
							return
						}
						w.do(0, &p.Tasks[0][i])
					}
				})
			} else {
				tasks := make([]func(), len(p.Tasks))
				for t := range p.Tasks {
					tasks[t] = func() {
						w.guarded(func() {
							for i := range p.Tasks[t] {
								if w.viol != nil {
									return
								}
								hook.Pass()
								w.do(t, &p.Tasks[t][i])
							}
						})
					}
				}
				s := &hook.Sched{Switches: p.Switches}
				hook.Run(s, tasks)
				c.Add("fault:preemption", s.Fired)
				for _, site := range s.Sites {
					if site > 0 {
						inCall++
					}
				}
				c.Mix(s.Hash())
				w.hash ^= s.Hash()
			}
			w.guarded(func() { // everything suspended is taken to its end
				for _, x := range w.pool {
					for w.viol == nil && w.advance(x, "resumed detector") {
					}
				}
			})
			hook.NoBudget()
			c.Add("fault:preemption-inside-a-call", inCall)
			c.Add("style_"+p.Style, 1)
			c.Add("detectors", len(w.pool))
			for k, n := range w.c {
				c.Add(k, n)
			}
			c.Mix(w.hash)
			if w.viol != nil {
				return w.viol
			}
			if w.c["characters"] > 2 {
				c.Distinct(w.hash)
			}
			if p.Style == "histories" {
				c.Sample("%d texts, %d detectors, %d tasks, %d switches inside a call, %v", len(p.Texts), len(w.pool), len(p.Tasks), inCall, w.c)
			}
			return nil
		},
		Shrink: shrink,
		Rule:   "a run is up to five texts and up to four tasks that step, copy, fork, save, roll back, restart at boundaries and hand over their detectors, switched at seeded statements; the first runs are a deck of every scalar value and of all class sequences of length 4 (thorough: 5), each followed by every class. Non-trivial: more than two characters fed; distinct by the sequence of decisions and switches.",
		Real:   []string{"textseg/internal/machine", "textseg/internal/charprops (lookup code and table)"},
		Stub:   []string{"the tasks that own the detectors and their scheduler"},
		Assume: []string{"the reference model's copy of the Unicode 17.0 property assignments is the standard's", "well-formed text: what the detector says about undecodable bytes is not specified"},
	}
}

func shrink(pl any, try0 func(any) bool) any {
	p := pl.(*Plan)
	clone := func() *Plan {
		q := *p
		q.Texts = append([]engine.Hex(nil), p.Texts...)
		q.Tasks = nil
		for _, t := range p.Tasks {
			q.Tasks = append(q.Tasks, append([]Op(nil), t...))
		}
		q.Switches = append([]hook.Switch(nil), p.Switches...)
		return &q
	}
	try := func(q *Plan) bool {
		if try0(q) {
			p = q
			return true
		}
		return false
	}
	for round := 0; round < 2; round++ {
		if len(p.Switches) > 0 {
			q := clone()
			q.Switches = nil
			try(q)
		}
		for i := 0; i < len(p.Tasks) && len(p.Tasks) > 1; {
			q := clone()
			q.Tasks = append(q.Tasks[:i], q.Tasks[i+1:]...)
			if !try(q) {
				i++
			}
		}
		for i := 0; i < len(p.Texts) && len(p.Texts) > 1; {
			q := clone()
			q.Texts = append(q.Texts[:i], q.Texts[i+1:]...)
			if !try(q) {
				i++
			}
		}
		for t := range p.Tasks {
			for ch := max(1, len(p.Tasks[t])); ch >= 1; ch /= 2 {
				for i := 0; i < len(p.Tasks[t]); {
					q := clone()
					q.Tasks[t] = append(q.Tasks[t][:i], q.Tasks[t][min(i+ch, len(q.Tasks[t])):]...)
					if !try(q) {
						i += ch
					}
				}
			}
		}
		for ch := max(1, len(p.Switches)/2); ch >= 1 && len(p.Switches) > 0; ch /= 2 {
			for i := 0; i < len(p.Switches); {
				q := clone()
				q.Switches = append(q.Switches[:i], q.Switches[min(i+ch, len(q.Switches)):]...)
				if !try(q) {
					i += ch
				}
			}
		}
		for t := range p.Texts {
			for ch := max(1, utf8.RuneCount(p.Texts[t])/2); ch >= 1; ch /= 2 {
				for i := 0; ; {
					rs := []rune(string(p.Texts[t]))
					if i >= len(rs) {
						break
					}
					q := clone()
					q.Texts[t] = engine.Hex(string(rs[:i]) + string(rs[min(i+ch, len(rs)):]))
					if !try(q) {
						i += ch
					}
				}
			}
		}
	}
	return p
}
