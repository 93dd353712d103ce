// Package engine runs seeded simulation batches in worker processes, merges
// what they covered, minimises and confirms violations, and writes evidence.
//
// Determinism: run number idx of property P under seed S is a pure function of
// (P, S, idx, tier) and the code under test. A worker process executes a fixed
// list of runs in order on one processor, so state the code under test might
// keep between runs is part of the (repeatable) execution as well.
package engine

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifsim/hook"
	"verifsim/rng"
)

// Hex is a byte string shown as hexadecimal in replay files.
type Hex []byte

func (h Hex) MarshalJSON() ([]byte, error) { return json.Marshal(hex.EncodeToString(h)) }
func (h *Hex) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	d, err := hex.DecodeString(s)
	*h = d
	return err
}

// Violation of a property. Kind is the class preserved by minimisation.
type Violation struct {
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
}

func V(kind, format string, a ...any) *Violation {
	return &Violation{kind, fmt.Sprintf(format, a...)}
}

// Ctx collects what a run covered.
type Ctx struct {
	Stats    map[string]int64
	distinct map[uint64]struct{}
	Samples  []string
	digest   uint64
	Tier     string
}

func newCtx(tier string) *Ctx {
	return &Ctx{Stats: map[string]int64{}, distinct: map[uint64]struct{}{}, Tier: tier}
}

// Add counts an event.
func (c *Ctx) Add(name string, n int) {
	if n != 0 {
		c.Stats[name] += int64(n)
	}
}

// Distinct records one non-trivial case by its hash.
func (c *Ctx) Distinct(h uint64) { c.distinct[h] = struct{}{} }

// Mix adds to the digest of the event log.
func (c *Ctx) Mix(x uint64) {
	c.digest = (c.digest ^ x) * 1099511628211
	c.digest ^= c.digest >> 31
}
func (c *Ctx) MixBytes(b []byte) {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	c.Mix(h)
}
func (c *Ctx) MixInts(v []int) {
	for _, x := range v {
		c.Mix(uint64(x) + 0x51)
	}
}

// Sample keeps a few cases written out.
func (c *Ctx) Sample(format string, a ...any) {
	if len(c.Samples) < 3 {
		c.Samples = append(c.Samples, fmt.Sprintf(format, a...))
	}
}

// Check is one property's simulation.
type Check struct {
	ID     string
	Title  string
	Runs   map[string]int // per tier
	Batch  int            // runs per worker process
	Gen    func(r *rng.R, seed uint64, idx int, tier string) any
	New    func() any
	Exec   func(plan any, c *Ctx) *Violation
	Shrink func(plan any, try func(any) bool) any
	Rule   string
	Real   []string // components that ran real code
	Stub   []string // components that were simulated
	Faults []string // stats that are fault kinds (prefix)
	Assume []string
	Race   bool // run under the race detector (the binary is built with -race)
	Setup  func() error
}

type workerResult struct {
	Stats   map[string]int64
	Samples []string
	Digest  uint64
	Runs    int
	Steps   uint64
	Hits    []int
	Idx     int // run that violated
	Plan    json.RawMessage
	Viol    *Violation
}

// Replay is the replay file.
type Replay struct {
	Property  string            `json:"property"`
	Seed      uint64            `json:"seed"`
	Tier      string            `json:"tier"`
	Runs      []int             `json:"runs"` // run numbers the plans came from
	Binary    string            `json:"binary"`
	Minimised bool              `json:"minimised"`
	Violation *Violation        `json:"violation"`
	Plans     []json.RawMessage `json:"plans"` // executed in order in one fresh process; the last violates
	HowTo     string            `json:"how_to"`
	Inexact   string            `json:"inexact,omitempty"` // why replaying need not give the same
}

// Main is the entry point of every simulator binary.
func Main(checks ...*Check) {
	if len(os.Args) < 2 {
		fatal("usage: check|worker|exec|replay|selftest")
	}
	mode := os.Args[1]
	if mode == "alive" { // can this binary run here?
		fmt.Println("alive")
		return
	}
	fl := flag.NewFlagSet(mode, flag.ExitOnError)
	prop := fl.String("prop", "", "")
	seed := fl.Uint64("seed", 1, "")
	tier := fl.String("tier", "quick", "")
	from := fl.Int("from", 0, "")
	to := fl.Int("to", 0, "")
	out := fl.String("out", "", "")
	file := fl.String("file", "", "")
	alt := fl.String("alt", "", "further binaries for the same property, comma separated name=path")
	verif := fl.String("verif", "/verif", "")
	runs := fl.Int("runs", 0, "override number of runs")
	cap := fl.Int("cap", 0, "wall-clock cap in seconds")
	fl.Parse(os.Args[2:])
	find := func(id string) *Check {
		for _, c := range checks {
			if c.ID == id {
				return c
			}
		}
		fatal("no such property here: %s", id)
		return nil
	}
	switch mode {
	case "worker":
		worker(find(*prop), *seed, *tier, *from, *to, *out)
	case "exec":
		execFile(find, *file)
	case "check":
		o := &orch{c: find(*prop), seed: *seed, tier: *tier, verif: *verif, runs: *runs, cap: *cap}
		o.addBins(*alt)
		os.Exit(o.check())
	case "replay":
		os.Exit(replay(find, *file, *alt))
	case "selftest":
		o := &orch{c: find(*prop), seed: *seed, tier: *tier, verif: *verif, runs: *runs, cap: *cap}
		o.addBins(*alt)
		os.Exit(o.selftest())
	default:
		fatal("unknown mode %s", mode)
	}
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "ERROR: "+f+"\n", a...)
	os.Exit(2)
}

// ---------------------------------------------------------------- worker

// A run uses a few MB; one that exceeds this has run away.
const dataLimit = 3 << 30

func limitMemory() {
	if !raceBuild { // the race detector maps its shadow memory
		syscall.Setrlimit(syscall.RLIMIT_DATA, &syscall.Rlimit{Cur: dataLimit, Max: dataLimit})
	}
}

func safeExec(c *Check, plan any, ctx *Ctx) (v *Violation) {
	defer func() {
		if r := recover(); r != nil {
			// A panic that reaches this point escaped the check's own recovery:
			// an error of the simulator.
			fmt.Fprintf(os.Stderr, "SIMULATOR PANIC: %v\n%s", r, debug.Stack())
			os.Exit(2)
		}
	}()
	return c.Exec(plan, ctx)
}

// chanceOf is the seed for what a program leaves to chance (map order, clock,
// random numbers, its own goroutines): a function of the plan, so that the
// replay file decides it.
func chanceOf(plan []byte) uint64 {
	var b bytes.Buffer
	if json.Compact(&b, plan) == nil {
		plan = b.Bytes()
	}
	return rng.Str(string(plan))
}

func init() {
	hook.OnTaskPanic = func(x any) {
		fmt.Fprintf(os.Stderr, "fatal error: a goroutine the code under test started panics: %v\n", x)
		os.Exit(67)
	}
}

func planRNG(c *Check, seed uint64, idx int) *rng.R { return rng.New(seed, rng.Str(c.ID), uint64(idx)) }

func worker(c *Check, seed uint64, tier string, from, to int, out string) {
	limitMemory()
	if c.Setup != nil {
		if err := c.Setup(); err != nil {
			fatal("setup: %v", err)
		}
	}
	ctx := newCtx(tier)
	res := &workerResult{}
	prog, err := os.Create(out + ".progress")
	if err != nil {
		fatal("%v", err)
	}
	var pb [8]byte
	for idx := from; idx < to; idx++ {
		binary.LittleEndian.PutUint64(pb[:], uint64(idx))
		prog.WriteAt(pb[:], 0)
		plan := c.Gen(planRNG(c, seed, idx), seed, idx, tier)
		ctx.Mix(uint64(idx))
		hook.Chance(func() uint64 {
			j, _ := json.Marshal(plan)
			return chanceOf(j)
		})
		v := safeExec(c, plan, ctx)
		res.Runs++
		if v != nil {
			res.Viol, res.Idx = v, idx
			res.Plan, _ = json.Marshal(plan)
			break
		}
	}
	res.Stats, res.Samples, res.Digest, res.Steps = ctx.Stats, ctx.Samples, ctx.digest, hook.Steps()
	for i, h := range hook.Hits {
		if h {
			res.Hits = append(res.Hits, i)
		}
	}
	hb := make([]byte, 0, len(ctx.distinct)*8)
	for h := range ctx.distinct {
		hb = binary.LittleEndian.AppendUint64(hb, h)
	}
	if err := os.WriteFile(out+".hashes", hb, 0o644); err != nil {
		fatal("%v", err)
	}
	j, err := json.Marshal(res)
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(out+".json", j, 0o644); err != nil {
		fatal("%v", err)
	}
	if res.Viol != nil {
		os.Exit(3)
	}
}

// execFile runs the plans of a replay file in this fresh process.
func execFile(find func(string) *Check, file string) {
	raw, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(raw, &rp); err != nil {
		fatal("%v", err)
	}
	limitMemory()
	c := find(rp.Property)
	if c.Setup != nil {
		if err := c.Setup(); err != nil {
			fatal("setup: %v", err)
		}
	}
	ctx := newCtx(rp.Tier)
	for _, raw := range rp.Plans {
		p := c.New()
		if err := json.Unmarshal(raw, p); err != nil {
			fatal("%v", err)
		}
		hook.Chance(func() uint64 { return chanceOf(raw) })
		if v := safeExec(c, p, ctx); v != nil {
			j, _ := json.Marshal(v)
			fmt.Println(string(j))
			os.Exit(3)
		}
	}
}

// ---------------------------------------------------------------- orchestrator

type bin struct{ name, path string }

type orch struct {
	c       *Check
	seed    uint64
	tier    string
	verif   string
	bins    []bin
	runs    int
	cap     int
	dir     string
	mu      sync.Mutex
	stats   map[string]int64
	samples []string
	hashes  map[uint64]struct{}
	hits    map[int]bool
	steps   uint64
	nruns   int
	digests map[int]uint64 // per batch
	begin   time.Time
}

func (o *orch) addBins(alt string) {
	self, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	o.bins = append(o.bins, bin{"main", self})
	for _, a := range strings.Split(alt, ",") {
		if n, p, ok := strings.Cut(a, "="); ok {
			o.bins = append(o.bins, bin{n, p})
		}
	}
}

type batchOut struct {
	res    workerResult
	code   int
	stderr string
	last   int
	bin    bin
	killed bool
}

// patience is how long one run, which takes milliseconds, may take.
func (o *orch) patience() time.Duration {
	if o.tier == "thorough" {
		return 400 * time.Second
	}
	return 150 * time.Second
}

func childEnv() []string {
	env := []string{"GOMAXPROCS=1", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0 history_size=4", "GOTRACEBACK=single"}
	for _, e := range os.Environ() {
		if k, _, _ := strings.Cut(e, "="); k != "GOMAXPROCS" && k != "GORACE" && k != "GOTRACEBACK" && k != "GODEBUG" {
			env = append(env, e)
		}
	}
	return env
}

func (o *orch) batch(n, from, to int, b bin, tag string) batchOut {
	out := filepath.Join(o.dir, fmt.Sprintf("%s%d", tag, n))
	cmd := exec.Command(b.path, "worker", "-prop", o.c.ID, "-seed", strconv.FormatUint(o.seed, 10), "-tier", o.tier,
		"-from", strconv.Itoa(from), "-to", strconv.Itoa(to), "-out", out)
	cmd.Env = childEnv()
	var eb bytes.Buffer
	cmd.Stderr = &eb
	r := batchOut{bin: b}
	if err := cmd.Start(); err != nil {
		fatal("starting worker: %v", err)
	}
	ended := make(chan struct{})
	watched := make(chan struct{})
	go func() {
		defer close(watched)
		var seen []byte
		since := time.Now()
		for {
			select {
			case <-ended:
				return
			case <-time.After(2 * time.Second):
			}
			if b, _ := os.ReadFile(out + ".progress"); !bytes.Equal(b, seen) {
				seen, since = b, time.Now()
			} else if time.Since(since) > o.patience() {
				r.killed = true
				cmd.Process.Kill()
				return
			}
		}
	}()
	cmd.Wait()
	close(ended)
	<-watched
	r.code = cmd.ProcessState.ExitCode()
	r.stderr = eb.String()
	if pb, err := os.ReadFile(out + ".progress"); err == nil && len(pb) == 8 {
		r.last = int(binary.LittleEndian.Uint64(pb))
	}
	if j, err := os.ReadFile(out + ".json"); err == nil {
		json.Unmarshal(j, &r.res)
	}
	hb, _ := os.ReadFile(out + ".hashes")
	o.mu.Lock()
	defer o.mu.Unlock()
	if tag == "b" {
		for i := 0; i+8 <= len(hb); i += 8 {
			o.hashes[binary.LittleEndian.Uint64(hb[i:])] = struct{}{}
		}
		for k, v := range r.res.Stats {
			o.stats[k] += v
		}
		for _, h := range r.res.Hits {
			o.hits[h] = true
		}
		o.steps += r.res.Steps
		o.nruns += r.res.Runs
		if len(o.samples) < 6 {
			o.samples = append(o.samples, r.res.Samples...)
		}
		o.digests[n] = r.res.Digest
	}
	for _, x := range []string{".progress", ".json", ".hashes"} {
		os.Remove(out + x)
	}
	return r
}

func (o *orch) init() {
	o.begin = time.Now()
	d, err := os.MkdirTemp("", "verifsim")
	if err != nil {
		fatal("%v", err)
	}
	o.dir = d
	o.stats, o.hashes, o.hits, o.digests = map[string]int64{}, map[uint64]struct{}{}, map[int]bool{}, map[int]uint64{}
	if o.runs == 0 {
		o.runs = o.c.Runs[o.tier]
		if o.runs == 0 {
			o.runs = o.c.Runs["quick"]
		}
	}
	if o.cap == 0 {
		o.cap = 300
		if o.tier == "thorough" {
			o.cap = 3000
		}
	}
}

func (o *orch) binFor(n int) bin { return o.bins[n%len(o.bins)] }

// sweep runs batches 0..n-1 on all processors and stops when one fails; the
// failed ones come in batch order.
func (o *orch) sweep(workers int) (bad []batchOut, ns []int, n int) {
	bs := o.c.Batch
	total := (o.runs + bs - 1) / bs
	next := 0
	stop := false
	fails := map[int]batchOut{}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				o.mu.Lock()
				if stop || next >= total || time.Since(o.begin) > time.Duration(o.cap)*time.Second {
					o.mu.Unlock()
					return
				}
				k := next
				next++
				o.mu.Unlock()
				r := o.batch(k, k*bs, min((k+1)*bs, o.runs), o.binFor(k), "b")
				if r.code != 0 {
					o.mu.Lock()
					fails[k] = r
					stop = true
					o.mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	var ks []int
	for k := range fails {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		bad, ns = append(bad, fails[k]), append(ns, k)
	}
	return bad, ns, next
}

func workers() int { return max(1, runtime.NumCPU()) }

func (o *orch) check() int {
	o.init()
	defer os.RemoveAll(o.dir)
	fmt.Printf("property=%s seed=%d tier=%s runs=%d batch=%d workers=%d\n", o.c.ID, o.seed, o.tier, o.runs, o.c.Batch, workers())
	bad, ns, n := o.sweep(workers())
	if bad != nil {
		return o.report(bad, ns)
	}
	// Determinism: repeat a sample of batches in new processes and compare logs.
	same := 0
	for k := 0; k < n && k < 3*len(o.bins); k++ {
		r := o.batch(k, k*o.c.Batch, min((k+1)*o.c.Batch, o.runs), o.binFor(k), "d")
		if r.code != 0 {
			return o.report([]batchOut{r}, []int{k})
		}
		if r.res.Digest != o.digests[k] {
			// Not an alarm: nothing was violated either time.
			fmt.Printf("note: batch %d did not repeat exactly: the code under test has nondeterminism of its own\n", k)
			continue
		}
		same++
		if time.Since(o.begin) > time.Duration(o.cap)*time.Second {
			break
		}
	}
	o.evidence(0, same)
	fmt.Printf("held on %d runs (%d distinct non-trivial cases, %d simulated steps) in %.1fs\n", o.nruns, len(o.hashes), o.steps, time.Since(o.begin).Seconds())
	return 0
}

// report explains failed batches: the first that can be explained counts.
func (o *orch) report(bad []batchOut, ns []int) int {
	var first error
	for i := range bad {
		rp, err := o.investigate(&bad[i], ns[i])
		if err != nil {
			if first == nil {
				first = err
			}
			continue
		}
		path := o.writeReplay(rp)
		o.evidence(1, -1)
		fmt.Printf("%s: %s\n", rp.Violation.Kind, rp.Violation.Detail)
		if rp.Inexact != "" {
			fmt.Println("note:", rp.Inexact)
		}
		fmt.Printf("replay: %s\n", rp.HowTo)
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.c.ID, path)
		return 1
	}
	fmt.Fprintf(os.Stderr, "ERROR: %v\n", first)
	return 2
}

func tail(s string) string {
	if len(s) > 4000 {
		return s[:2000] + "\n...\n" + s[len(s)-2000:]
	}
	return s
}

// run executes plans in a fresh process.
func (o *orch) run(b bin, plans []json.RawMessage) (*Violation, error) {
	rp := Replay{Property: o.c.ID, Seed: o.seed, Tier: o.tier, Plans: plans}
	return runReplay(o.dir, b, &rp)
}

// hang: a run that takes milliseconds has not ended after a minute, although
// every loop of the code under test counts its steps.
var hang = &Violation{"hang", "the execution does not end"}

var seq int

func runReplay(dir string, b bin, rp *Replay) (*Violation, error) {
	seq++
	f := filepath.Join(dir, fmt.Sprintf("x%d.json", seq))
	j, _ := json.Marshal(rp)
	if err := os.WriteFile(f, j, 0o644); err != nil {
		return nil, err
	}
	defer os.Remove(f)
	cmd := exec.Command(b.path, "exec", "-file", f)
	cmd.Env = childEnv()
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	killed := false
	timer := time.AfterFunc(60*time.Second+time.Duration(len(rp.Plans))*2*time.Second, func() { killed = true; cmd.Process.Kill() })
	cmd.Wait()
	timer.Stop()
	if killed {
		return hang, nil
	}
	return classify(cmd.ProcessState.ExitCode(), ob.Bytes(), eb.String())
}

var frameRe = regexp.MustCompile(`(?m)^\s+(\S*(?:go-textseg|verifbridge)\S*)\(`)

func classify(code int, stdout []byte, stderr string) (*Violation, error) {
	switch {
	case code == 0:
		return nil, nil
	case code == 3:
		var v Violation
		stdout = bytes.TrimSpace(stdout)
		stdout = stdout[bytes.LastIndexByte(stdout, '\n')+1:]
		if err := json.Unmarshal(stdout, &v); err != nil {
			return nil, fmt.Errorf("bad worker output: %v", err)
		}
		return &v, nil
	case code == 66 && strings.Contains(stderr, "WARNING: DATA RACE"):
		fr := []string{}
		for _, m := range frameRe.FindAllStringSubmatch(stderr, -1) {
			if len(fr) == 0 || fr[len(fr)-1] != m[1] {
				fr = append(fr, m[1])
			}
		}
		if len(fr) == 0 {
			return nil, fmt.Errorf("data race outside the code under test:\n%s", tail(stderr))
		}
		return &Violation{"data-race", "unsynchronised access: " + strings.Join(fr, " / ")}, nil
	case strings.Contains(stderr, "cannot allocate memory") || strings.Contains(stderr, "out of memory"):
		return &Violation{"memory", fmt.Sprintf("the execution uses more than %d MB of memory", dataLimit>>20)}, nil
	case strings.Contains(stderr, "fatal error:"):
		i := strings.Index(stderr, "fatal error:")
		l, _, _ := strings.Cut(stderr[i:], "\n")
		return &Violation{"fatal", l}, nil
	}
	return nil, fmt.Errorf("worker ended with status %d\n%s", code, tail(stderr))
}

// investigate turns a failed batch into a confirmed, minimised replay.
func (o *orch) investigate(bad *batchOut, n int) (*Replay, error) {
	var v *Violation
	idx := bad.last
	if bad.code == 3 {
		v, idx = bad.res.Viol, bad.res.Idx
	} else if bad.killed {
		v = hang
	} else {
		var err error
		v, err = classify(bad.code, nil, bad.stderr)
		if err != nil || v == nil {
			return nil, fmt.Errorf("batch %d: %v", n, err)
		}
	}
	fmt.Printf("run %d (%s): %s: %s\n", idx, bad.bin.name, v.Kind, v.Detail)
	if o.c.Setup != nil { // plans are made here again
		if err := o.c.Setup(); err != nil {
			return nil, err
		}
	}
	plan := func(i int) json.RawMessage {
		j, _ := json.Marshal(o.c.Gen(planRNG(o.c, o.seed, i), o.seed, i, o.tier))
		return j
	}
	rp := &Replay{Property: o.c.ID, Seed: o.seed, Tier: o.tier, Binary: bad.bin.name}
	same := func(x *Violation) bool { return x != nil && x.Kind == v.Kind }
	repeats := func(plans []json.RawMessage, times int) bool {
		for i := 0; i < times; i++ {
			if x, err := o.run(bad.bin, plans); err == nil && same(x) {
				return true
			}
		}
		return false
	}
	if repeats([]json.RawMessage{plan(idx)}, 2) {
		rp.Runs = []int{idx}
		best := plan(idx)
		deadline := time.Now().Add(60 * time.Second)
		tries := 0
		if o.c.Shrink != nil && v.Kind != hang.Kind {
			p := o.c.New()
			if err := json.Unmarshal(best, p); err != nil {
				return nil, err
			}
			func() {
				// Out of time: the minimiser is left wherever it is.
				type enough struct{}
				defer func() {
					if x := recover(); x != nil {
						if _, ok := x.(enough); !ok {
							panic(x)
						}
					}
				}()
				o.c.Shrink(p, func(cand any) bool {
					if time.Now().After(deadline) || tries > 3000 {
						panic(enough{})
					}
					tries++
					j, _ := json.Marshal(cand)
					x, err := o.run(bad.bin, []json.RawMessage{j})
					if err == nil && same(x) {
						best = j
						return true
					}
					return false
				})
			}()
			rp.Minimised = true
		}
		rp.Plans = []json.RawMessage{best}
	} else {
		// The run fails only after earlier runs of its process: hidden state in
		// the code under test. Replay the process from its start and drop runs.
		first := n * o.c.Batch
		var list []int
		for i := first; i <= idx; i++ {
			list = append(list, i)
		}
		mk := func(l []int) (ps []json.RawMessage) {
			for _, i := range l {
				ps = append(ps, plan(i))
			}
			return
		}
		if !repeats(mk(list), 3) {
			// It did happen, in an execution of the real code: everything the
			// simulator decides was the same, so the rest is the code's own doing.
			rp.Runs, rp.Plans, rp.Violation = list, mk(list), v
			rp.Inexact = "repeating the process did not show the violation again: the code under test depends on something that is not simulated (addresses, garbage collection, map order)"
			return rp, nil
		}
		deadline := time.Now().Add(60 * time.Second)
		for chunk := len(list) / 2; chunk >= 1 && time.Now().Before(deadline); {
			removed := false
			for i := 0; i+chunk < len(list) && time.Now().Before(deadline); {
				cand := append(append([]int(nil), list[:i]...), list[i+chunk:]...)
				if x, err := o.run(bad.bin, mk(cand)); err == nil && same(x) {
					list, removed = cand, true
				} else {
					i += chunk
				}
			}
			if !removed || chunk > len(list) {
				chunk /= 2
			}
		}
		rp.Runs, rp.Plans, rp.Minimised = list, mk(list), true
	}
	// Confirm in fresh processes; the outcome must be the same each time.
	failed := 0
	for i := 0; i < 2; i++ {
		x, err := o.run(bad.bin, rp.Plans)
		if err != nil {
			return nil, err
		}
		if x == nil {
			continue
		}
		if failed++; failed == 1 {
			rp.Violation = x
		} else if *x != *rp.Violation {
			rp.Inexact = "the violation is not the same each time: the code under test depends on something that is not simulated"
		}
	}
	if failed < 2 {
		rp.Inexact = "replaying does not show the violation every time: the code under test depends on something that is not simulated"
		if failed == 0 {
			rp.Violation = v
		}
	}
	return rp, nil
}

func (o *orch) writeReplay(rp *Replay) string {
	dir := filepath.Join(o.verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", o.c.ID, o.seed, rp.Runs[len(rp.Runs)-1]))
	rp.HowTo = fmt.Sprintf("%s/check.sh replay %s", o.verif, path)
	j, _ := json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(path, j, 0o644); err != nil {
		fatal("%v", err)
	}
	return path
}

func replay(find func(string) *Check, file, alt string) int {
	raw, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(raw, &rp); err != nil {
		fatal("%v", err)
	}
	o := &orch{c: find(rp.Property)}
	o.addBins(alt)
	b := o.bins[0]
	for _, x := range o.bins {
		if x.name == rp.Binary {
			b = x
		}
	}
	dir, err := os.MkdirTemp("", "verifsim")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	v, err := runReplay(dir, b, &rp)
	if err != nil {
		fmt.Fprintln(os.Stderr, "ERROR:", err)
		return 2
	}
	if v == nil {
		fmt.Printf("property=%s: the replayed execution does not violate it\n", rp.Property)
		return 0
	}
	fmt.Printf("%s: %s\n", v.Kind, v.Detail)
	if *v == *rp.Violation {
		fmt.Println("reproduced exactly")
	} else {
		fmt.Println("a violation, but not the recorded one")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, file)
	return 1
}

// selftest proves determinism at more than one worker count.
func (o *orch) selftest() int {
	o.init()
	defer os.RemoveAll(o.dir)
	var ref map[int]uint64
	for _, w := range []int{1, 3, workers(), workers() * 2} {
		o.digests = map[int]uint64{}
		o.begin = time.Now()
		if bad, ns, _ := o.sweep(w); bad != nil {
			fmt.Fprintf(os.Stderr, "batch %d failed: %d\n%s", ns[0], bad[0].code, tail(bad[0].stderr))
			return 2
		}
		if ref == nil {
			ref = o.digests
			continue
		}
		for k, d := range o.digests {
			if ref[k] != d {
				fmt.Printf("DIVERGENCE batch %d\n", k)
				return 2
			}
		}
	}
	fmt.Printf("%s seed %d: %d batches repeated identically in %d processes each\n", o.c.ID, o.seed, len(ref), 4)
	return 0
}

func (o *orch) evidence(violations, repeated int) {
	wall := time.Since(o.begin).Seconds()
	faults := map[string]int64{}
	probes := map[string]int64{}
	for k, v := range o.stats {
		if k == "sim_ms" {
			continue
		}
		if strings.HasPrefix(k, "fault:") {
			faults[k[6:]] = v
		} else {
			probes[k] = v
		}
	}
	var sites []string
	if raw, err := os.ReadFile(filepath.Join(filepath.Dir(o.bins[0].path), "sites.json")); err == nil {
		json.Unmarshal(raw, &sites)
	}
	perFile := map[string][2]int{}
	for i, s := range sites {
		if i == 0 {
			continue
		}
		f, _, _ := strings.Cut(s, ":")
		x := perFile[f]
		x[1]++
		if o.hits[i] {
			x[0]++
		}
		perFile[f] = x
	}
	cov := map[string]string{}
	for f, x := range perFile {
		if x[0] > 0 {
			cov[f] = fmt.Sprintf("%d of %d statements reached", x[0], x[1])
		}
	}
	for len(o.samples) > 4 {
		o.samples = o.samples[:4]
	}
	for i, s := range o.samples {
		if len(s) > 3000 {
			o.samples[i] = s[:3000] + "..."
		}
	}
	ev := map[string]any{
		"property": o.c.ID, "tier": o.tier, "seed": o.seed, "level": "exploration", "wall_s": wall, "violations": violations,
		"coverage": map[string]any{
			"evaluations": o.nruns, "distinct_nontrivial": len(o.hashes), "rule": o.c.Rule, "samples": o.samples,
			"runs_per_hour":             int64(float64(o.nruns) / wall * 3600),
			"simulated_steps":           o.steps,
			"simulated_time_ms":         o.stats["sim_ms"],
			"faults_injected":           faults,
			"probes":                    probes,
			"statements_reached":        cov,
			"ran_real_code":             o.c.Real,
			"ran_simulated":             o.c.Stub,
			"batches_repeated_equal":    repeated,
			"worker_processes_parallel": workers(),
			"instrumented":              len(sites) > 1,
		},
		"assumptions": o.c.Assume,
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	path := filepath.Join(o.verif, "evidence", o.c.ID+".json")
	os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, append(j, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}
