// Package genrun executes the table generator, each time in an operating
// system process of its own (as in reality: package state starts afresh, exits
// and kills run no deferred function), against a simulated file system that is
// handed in and out.
package genrun

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"sync"
	"time"

	"verifsim/hook"
	"verifsim/rng"
	"verifsim/simos"
)

// Table is the name of the generator's output.
const Table = "property_table_raw.go"

// Proc describes one simulated process.
type Proc struct {
	Faults   []simos.Fault `json:"faults,omitempty"`
	ReadMode int           `json:"read_mode,omitempty"`
	Seed     uint64        `json:"seed,omitempty"`
	Pid      int           `json:"pid,omitempty"`
}

type req struct {
	Proc  Proc
	Files map[string][]byte
}

// Result of a simulated process.
type Result struct {
	Exit     int
	Killed   bool
	Lost     bool // the process died in a way that took its file system with it
	Files    map[string][]byte
	Same     []string // files as they were, left out of the answer
	Ops      int
	OpCount  map[string]int
	Fired    map[string]int
	Stderr   string
	Digest   uint64
	Steps    uint64
	Hits     []int
	Switches int // between goroutines of the generator's own
}

const budget = 20_000_000_000

// Child is the other end: it runs the generator and writes the result.
func Child(genMain func(), args []string) {
	var rq req
	if err := gob.NewDecoder(os.Stdin).Decode(&rq); err != nil {
		fmt.Fprintln(os.Stderr, "bad request:", err)
		os.Exit(90)
	}
	debug.SetGCPercent(400)
	real := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Args, simos.Args = args, args // for package flag
	s := simos.NewFS()
	s.Files = rq.Files
	if s.Files == nil {
		s.Files = map[string][]byte{}
	}
	orig := map[string][]byte{}
	for k, v := range s.Files {
		orig[k] = v
	}
	s.Faults, s.ReadMode, s.Rng = rq.Proc.Faults, rq.Proc.ReadMode, rng.New(rq.Proc.Seed, 77)
	s.Seed, s.Pid = rq.Proc.Seed, rq.Proc.Pid
	simos.Cur = s
	var once sync.Mutex
	simos.End = func(code int, killed bool) {
		once.Lock() // never released: the first end counts
		s.Finish()
		var same []string
		for k, v := range s.Files {
			if o, ok := orig[k]; ok && len(o) == len(v) && len(v) > 0 && &o[0] == &v[0] {
				delete(s.Files, k)
				same = append(same, k)
			}
		}
		res := Result{Same: same, Exit: code, Killed: killed, Files: s.Files, Ops: s.Ops, OpCount: s.OpCount, Fired: s.FiredBy,
			Stderr: s.Stderr.String(), Digest: s.Digest ^ hook.AmbientHash, Steps: hook.Steps(), Switches: hook.AmbientSwitches}
		for i, h := range hook.Hits {
			if h {
				res.Hits = append(res.Hits, i)
			}
		}
		if err := gob.NewEncoder(real).Encode(&res); err != nil {
			os.Exit(91)
		}
		os.Exit(80)
	}
	hook.Chance(func() uint64 { return rq.Proc.Seed })
	hook.OnTaskPanic = func(x any) {
		fmt.Fprintf(&s.Stderr, "panic: %v\n%s", x, debug.Stack())
		simos.Exit(2)
	}
	hook.Budget(budget)
	func() {
		defer func() {
			hook.NoBudget()
			if x := recover(); x != nil {
				fmt.Fprintf(&s.Stderr, "panic: %v\n%s", x, debug.Stack())
				simos.Exit(2)
			}
		}()
		genMain()
	}()
	simos.Exit(0)
}

// Run starts a process.
func Run(bin string, p Proc, files map[string][]byte) (*Result, error) {
	var in, out, errb bytes.Buffer
	if err := gob.NewEncoder(&in).Encode(&req{p, files}); err != nil {
		return nil, err
	}
	cmd := exec.Command(bin, "gen")
	cmd.Stdin, cmd.Stdout, cmd.Stderr = &in, &out, &errb
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	killed := false
	t := time.AfterFunc(100*time.Second, func() { killed = true; cmd.Process.Kill() })
	cmd.Wait()
	t.Stop()
	code := cmd.ProcessState.ExitCode()
	switch {
	case killed:
		return nil, fmt.Errorf("generator process exceeded its time limit")
	case code == 80:
		var r Result
		if err := gob.NewDecoder(&out).Decode(&r); err != nil {
			return nil, err
		}
		if r.Files == nil {
			r.Files = map[string][]byte{}
		}
		for _, k := range r.Same {
			r.Files[k] = files[k]
		}
		for _, h := range r.Hits {
			hook.Hits[h] = true
		}
		hook.AddSteps(r.Steps)
		return &r, nil
	case code == 2:
		return &Result{Exit: 2, Lost: true, Stderr: errb.String()}, nil
	}
	return nil, fmt.Errorf("generator process ended with status %d: %s", code, errb.String())
}
