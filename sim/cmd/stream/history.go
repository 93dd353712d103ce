package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/gob"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"syscall"
	"time"
	"unsafe"

	"verifsim/engine"
	"verifsim/hook"
	"verifsim/ref"
	"verifsim/rng"
	"verifsim/stream"
	"verifsim/workload"
)

// Op is one consultation in a history: bytes [From,To) of text T are placed
// somewhere and the split function is called on them.
type Op struct {
	T    int    `json:"t"`
	From int    `json:"from"`
	To   int    `json:"to"`
	EOF  bool   `json:"eof,omitempty"`
	Loc  string `json:"loc"` // arena, exact, ro (read-only memory), guard (unmapped memory follows)
	Off  int    `json:"off,omitempty"`
	Fill uint64 `json:"fill,omitempty"` // what surrounds the bytes
	Rep  int    `json:"rep,omitempty"`  // the call is made so many times more
}

const page = 4096

var (
	arena    = make([]byte, 40*page)
	shadow   = make([]byte, 40*page)
	roMem    []byte // one writable/read-only page
	guardMem []byte // two pages, then an inaccessible one
	memo     = map[string]answer{}
)

type answer struct {
	adv int
	at  string
}

func setupHistory() error {
	debug.SetPanicOnFault(true)
	var err error
	if roMem, err = syscall.Mmap(-1, 0, page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE); err != nil {
		return err
	}
	if guardMem, err = syscall.Mmap(-1, 0, 2*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE); err != nil {
		return err
	}
	return syscall.Mprotect(guardMem[page:], syscall.PROT_NONE)
}

func fill(b []byte, seed uint64) {
	r := rng.New(seed)
	pat := []string{"\u0301", "\u200d\U0001f468", "\U0001f1e6", "\n", "\xf0\x9f\x91", "\u0915\u094d", "\x00", "a"}[r.N(8)]
	for i := range b {
		b[i] = pat[i%len(pat)]
	}
}

// place puts the bytes and returns the slice to pass and a check to make
// afterwards.
func place(op *Op, in []byte) (data []byte, after func() string) {
	switch op.Loc {
	case "ro":
		syscall.Mprotect(roMem, syscall.PROT_READ|syscall.PROT_WRITE)
		fill(roMem, op.Fill)
		n := min(len(in), page)
		off := min(op.Off, page-n)
		copy(roMem[off:], in[:n])
		syscall.Mprotect(roMem, syscall.PROT_READ)
		return roMem[off : off+n], func() string { return "" }
	case "guard":
		n := min(len(in), page)
		copy(guardMem[page-n:page], in[:n])
		// The capacity reaches into memory that cannot even be read.
		return unsafe.Slice(&guardMem[page-n], n+page)[:n], func() string { return "" }
	case "exact":
		b := make([]byte, len(in))
		copy(b, in)
		return b[:len(b):len(b)], func() string {
			if !bytes.Equal(b, in) {
				return "the caller's bytes were changed"
			}
			return ""
		}
	}
	lo := max(0, op.Off-64)
	hi := min(len(arena), op.Off+len(in)+256)
	fill(arena[lo:hi], op.Fill)
	copy(arena[op.Off:], in)
	copy(shadow[lo:hi], arena[lo:hi])
	return arena[op.Off : op.Off+len(in)], func() string {
		if !bytes.Equal(arena[lo:hi], shadow[lo:hi]) {
			return "the caller's memory was written to"
		}
		return ""
	}
}

func c09() *engine.Check {
	return &engine.Check{
		ID: "C09", Runs: map[string]int{"quick": 120000, "thorough": 1200000}, Batch: 400, Setup: setupHistory,
		Gen: func(r *rng.R, seed uint64, idx int, tier string) any {
			p := &Plan{Style: "history"}
			// Half the histories use a pool of texts shared by many runs, so
			// that the same question is asked in very different pasts.
			tr := r
			if r.N(2) == 0 {
				tr = rng.New(seed, 0x9001, uint64(r.N(40)))
			}
			nt := tr.In(1, 4)
			for i := 0; i < nt; i++ {
				s := workload.NewStyle(tr)
				s.Invalid = []int{0, 0, 6}[tr.N(3)]
				s.Weird = []int{0, 0, 10}[tr.N(3)]
				b := workload.Text(tr, s, tr.In(1, []int{4, 12, 40}[tr.N(3)]))
				switch tr.N(24) {
				case 0, 1:
					b = workload.Long(tr, tr.In(300, 6000))
				case 2:
					if tr.N(8) == 0 {
						b = workload.Sized(tr, b, workload.Size(tr, []int{9000, 140000}[tr.N(2)]), true)
					}
				}
				if tr.N(20) == 0 { // two that look the same to some hash function
					cp := workload.Collisions[tr.N(len(workload.Collisions))]
					p.Futures = append(p.Futures, engine.Hex(cp[0]), engine.Hex(cp[1]))
					nt++
					i++
					continue
				}
				if i > 0 && tr.N(3) == 0 { // a text that differs from an earlier one in one character
					b = mutate(tr, p.Futures[tr.N(i)])
				}
				p.Futures = append(p.Futures, b)
			}
			locs := []string{"arena", "arena", "arena", "exact", "ro", "guard"}
			off := r.N(64)
			for k := r.In(4, 60); k > 0; k-- {
				t := r.N(nt)
				n := len(p.Futures[t])
				if n == 0 {
					continue
				}
				us := ref.Units(p.Futures[t], true)
				op := Op{T: t, From: us[r.N(len(us))].Off, Loc: locs[r.N(len(locs))], Fill: r.U64()}
				if r.N(2) == 0 {
					op.From = 0
				}
				op.To = op.From + r.N(n-op.From) + 1
				if r.N(3) == 0 {
					op.To = n
				}
				op.EOF = r.N(3) == 0
				switch r.N(4) {
				case 0:
					off = r.N(300)
				}
				op.Off = off
				if r.N(4000) == 0 {
					op.To = min(op.To, op.From+40)
					op.Rep = workload.Size(r, 1<<[]int{13, 17, 19}[r.N(3)])
				}
				p.Ops = append(p.Ops, op)
				op.Rep = 0
				// A buffer that fills up step by step in place, as a scanner's.
				if r.N(3) == 0 {
					for op.To < n && r.N(5) > 0 {
						op.To = min(n, op.To+r.In(1, 5))
						if r.N(6) == 0 { // ... while the rest of the program does something else
							op2 := op
							op2.T, op2.From = r.N(nt), 0
							op2.To = min(op.To-op.From, len(p.Futures[op2.T]))
							if r.N(2) == 0 {
								op2.Loc = "exact"
							}
							if op2.To > 0 {
								p.Ops = append(p.Ops, op2)
							}
						}
						p.Ops = append(p.Ops, op)
					}
				}
			}
			p.Dels = []stream.Delivery{stream.GenDelivery(r, 0, nil, 0)}
			if idx%97 == 5 {
				// The same questions asked in two new processes, in different orders.
				p.Fresh = r.U64()>>12 | 1
				for k := r.In(0, 12); k > 0; k-- {
					cp := workload.Collisions[r.N(len(workload.Collisions))]
					for i, x := range cp {
						p.Ops = append(p.Ops, Op{T: len(p.Futures) + i, To: len(x), Loc: "exact", EOF: true})
					}
					p.Futures = append(p.Futures, engine.Hex(cp[0]), engine.Hex(cp[1]))
				}
			}
			return p
		},
		New: newPlan, Shrink: shrinkHistory,
		Exec: func(pl any, c *engine.Ctx) (viol *engine.Violation) {
			p := pl.(*Plan)
			if p.Fresh != 0 {
				return orders(p, c)
			}
			for i := range p.Ops {
				op := &p.Ops[i]
				if op.T >= len(p.Futures) || op.To > len(p.Futures[op.T]) || op.From >= op.To {
					continue
				}
				in := p.Futures[op.T][op.From:op.To]
				if op.Loc == "ro" || op.Loc == "guard" {
					in = in[:min(len(in), page)]
				}
				if op.Loc != "ro" && op.Loc != "guard" && op.Loc != "exact" {
					in = in[:max(0, min(len(in), len(arena)-op.Off))]
				}
				data, afterwards := place(op, in)
				o := &stream.Outcome{}
				var adv int
				func() {
					defer func() {
						hook.NoBudget()
						if x := recover(); x != nil {
							kind := "panic"
							what := fmt.Sprint(x)
							if _, ok := x.(interface{ Addr() uintptr }); ok {
								kind = "memory-fault"
								what = map[string]string{"ro": "write to the caller's read-only memory", "guard": "access beyond the slice's length"}[op.Loc]
							}
							viol = engine.V(kind, "%s; data %s (eof=%v, %s)", what, show(in), op.EOF, op.Loc)
						}
					}()
					hook.Budget(stream.StepBudget(len(data)))
					n, tok, err := split(data, op.EOF)
					for k := 0; k < op.Rep; k++ {
						if k%1024 == 0 {
							hook.Budget(1024 * stream.StepBudget(len(data)))
						}
						n2, tok2, err2 := split(data, op.EOF)
						if n2 != n || len(tok2) != len(tok) || (err2 == nil) != (err == nil) {
							o.Kind, o.Bad = "history-dependent", fmt.Sprintf("repeated %d times, the answer changes from %d bytes to %d; data %s", k+1, n, n2, show(in))
							return
						}
					}
					c.Add("calls", op.Rep)
					hook.NoBudget()
					adv = n
					o.Contract(data, op.EOF, n, tok, err, true)
					if tok != nil && len(tok) == n && cap(tok) > cap(data) {
						o.Kind, o.Bad = "token-not-prefix", "the token's capacity exceeds that of the data"
					}
				}()
				if viol != nil {
					return
				}
				if o.Bad != "" {
					return engine.V(o.Kind, "call %d: %s", i, o.Bad)
				}
				if what := afterwards(); what != "" {
					return engine.V("memory-written", "call %d: %s; data %s", i, what, show(in))
				}
				key := string(in)
				if len(key) > 64 {
					h := sha256.Sum256(in)
					key = "\xff\xff" + string(h[:])
				}
				if op.EOF {
					key += "\x00EOF"
				}
				here := fmt.Sprintf("in %s memory", op.Loc)
				if a, ok := memo[key]; !ok {
					if len(memo) < 400000 {
						memo[key] = answer{adv, here}
					}
				} else {
					c.Add("questions_repeated", 1)
					c.Distinct(hash(in, op.EOF, op.Loc, op.Off))
					if a.adv != adv {
						return engine.V("history-dependent", "the same %d bytes %s (eof=%v) gave a cluster of %d bytes once (%s) and of %d bytes now (%s)", len(in), show(in), op.EOF, a.adv, a.at, adv, here)
					}
				}
				c.Add("calls", 1)
				c.Add("fault:memory-"+op.Loc, 1)
				c.Mix(uint64(adv))
			}
			if len(c.Samples) < 2 && len(p.Ops) > 2 {
				c.Sample("%d calls on %d texts, first text %s, ops %v ...", len(p.Ops), len(p.Futures), show(p.Futures[0]), p.Ops[:2])
			}
			return nil
		},
		Rule: "a run is a history of calls on prefixes of a few related texts, placed in a reused arena, in exactly sized, read-only or page-guarded memory, with different surroundings, often growing in place; every question (bytes, end flag) asked before in the process, in whatever past and place, must get the same answer, results must be leading bytes, and memory stay untouched. Non-trivial: a repeated question; distinct by question and place.",
		Real: real, Stub: []string{"the caller's memory (arena, read-only pages, inaccessible pages)", "the order and content of earlier calls"},
		Assume: []string{"a dependence that neither a history within one process nor two orders of the same questions in new processes shows is not seen"},
	}
}

// question is a call and, afterwards, its answer.
type question struct {
	Data []byte
	EOF  bool
	Adv  int
	What string
}

// ask is the other end of orders: it answers questions in the order given.
func ask() {
	var qs []question
	if err := gob.NewDecoder(os.Stdin).Decode(&qs); err != nil {
		fmt.Fprintln(os.Stderr, "bad request:", err)
		os.Exit(90)
	}
	for i := range qs {
		q := &qs[i]
		func() {
			defer func() {
				hook.NoBudget()
				if x := recover(); x != nil {
					q.What = fmt.Sprint("panic: ", x)
				}
			}()
			hook.Budget(stream.StepBudget(len(q.Data)))
			n, tok, err := split(q.Data, q.EOF)
			q.Adv, q.What = n, fmt.Sprintf("token of %d bytes, error %v", len(tok), err)
		}()
	}
	if err := gob.NewEncoder(os.Stdout).Encode(qs); err != nil {
		os.Exit(91)
	}
	os.Exit(80)
}

func askNew(qs []question) ([]question, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	var in, out, errb bytes.Buffer
	if err := gob.NewEncoder(&in).Encode(qs); err != nil {
		return nil, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "ask")
	cmd.Stdin, cmd.Stdout, cmd.Stderr = &in, &out, &errb
	cmd.Run()
	if cmd.ProcessState == nil || cmd.ProcessState.ExitCode() != 80 {
		return nil, fmt.Errorf("the process ends with %v: %.300s", cmd.ProcessState, errb.String())
	}
	var as []question
	return as, gob.NewDecoder(&out).Decode(&as)
}

// orders asks the plan's questions in two new processes, in different orders.
func orders(p *Plan, c *engine.Ctx) *engine.Violation {
	var qs []question
	for _, op := range p.Ops {
		if op.T >= len(p.Futures) || op.To > len(p.Futures[op.T]) || op.From >= op.To {
			continue
		}
		qs = append(qs, question{Data: p.Futures[op.T][op.From:op.To], EOF: op.EOF})
	}
	if len(qs) == 0 {
		return nil
	}
	perm := make([]int, len(qs))
	for i := range perm {
		perm[i] = len(qs) - 1 - i
	}
	if p.Fresh%3 != 0 {
		r := rng.New(p.Fresh)
		for i := len(perm) - 1; i > 0; i-- {
			j := r.N(i + 1)
			perm[i], perm[j] = perm[j], perm[i]
		}
	}
	other := make([]question, len(qs))
	for i, j := range perm {
		other[i] = qs[j]
	}
	a, err := askNew(qs)
	if err != nil {
		return engine.V("fatal", "asked %d questions in a new process: %v", len(qs), err)
	}
	b, err := askNew(other)
	if err != nil {
		return engine.V("fatal", "asked %d questions in a new process: %v", len(qs), err)
	}
	for i, j := range perm {
		x, y := a[j], b[i]
		c.Mix(uint64(x.Adv))
		c.Distinct(hash(x.Data, x.EOF, "new process"))
		if x.Adv != y.Adv || x.What != y.What {
			return engine.V("history-dependent", "in a new process, after %d other questions, the %d bytes %s (eof=%v) give a cluster of %d bytes (%s); in another, after %d, one of %d bytes (%s)",
				j, len(x.Data), show(x.Data), x.EOF, x.Adv, x.What, i, y.Adv, y.What)
		}
	}
	c.Add("calls", 2*len(qs))
	c.Add("fault:new-process-other-order", 1)
	return nil
}

func mutate(r *rng.R, b []byte) []byte {
	us := ref.Units(b, true)
	if len(us) == 0 {
		return []byte("a")
	}
	u := us[r.N(len(us))]
	out := append([]byte(nil), b[:u.Off]...)
	out = workload.Enc(out, workload.Member(r, ref.Combos[r.N(len(ref.Combos))]))
	return append(out, b[u.Off+u.Len:]...)
}

func shrinkHistory(pl any, try0 func(any) bool) any {
	p := pl.(*Plan)
	clone := func() *Plan {
		q := *p
		q.Futures = append([]engine.Hex(nil), p.Futures...)
		q.Ops = append([]Op(nil), p.Ops...)
		return &q
	}
	try := func(q *Plan) bool {
		if try0(q) {
			p = q
			return true
		}
		return false
	}
	for round := 0; round < 2; round++ {
		for ch := max(1, len(p.Ops)/2); ch >= 1; ch /= 2 {
			for i := 0; i < len(p.Ops); {
				q := clone()
				q.Ops = append(q.Ops[:i:i], q.Ops[min(i+ch, len(q.Ops)):]...)
				if !try(q) {
					i += ch
				}
			}
		}
		used := map[int]bool{}
		for _, o := range p.Ops {
			used[o.T] = true
		}
		for t := range p.Futures {
			if !used[t] && len(p.Futures[t]) > 0 {
				q := clone()
				q.Futures[t] = nil
				try(q)
			}
		}
		for i := range p.Ops {
			q := clone()
			q.Ops[i].Loc = "arena"
			if p.Ops[i].Loc != "arena" {
				try(q)
			}
		}
		for t := range p.Futures {
			for ch := max(1, len(p.Futures[t])/2); ch >= 1; ch /= 2 {
				for i := 0; i < len(p.Futures[t]); {
					q := clone()
					j := min(i+ch, len(p.Futures[t]))
					q.Futures[t] = append(append(engine.Hex(nil), p.Futures[t][:i]...), p.Futures[t][j:]...)
					for k := range q.Ops {
						if q.Ops[k].T == t {
							for _, x := range []*int{&q.Ops[k].From, &q.Ops[k].To} {
								if *x >= j {
									*x -= j - i
								} else if *x > i {
									*x = i
								}
							}
						}
					}
					if !try(q) {
						i += ch
					}
				}
			}
		}
	}
	return p
}
