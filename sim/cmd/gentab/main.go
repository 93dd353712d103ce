// The simulator of the table generator (C15, C16, C19, C20).
package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/apparentlymart/go-textseg/v17/textseg/verifbridge/genmain"

	"verifsim/engine"
	"verifsim/genrun"
	"verifsim/rng"
	"verifsim/simos"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "gen" {
		genrun.Child(genmain.GenMain, genmain.Args)
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "emit" {
		emit(os.Args[2])
		return
	}
	engine.Main(c15(), c16(), c19(), c20())
}

var names = []string{"DerivedCoreProperties.txt", "auxiliary/GraphemeBreakProperty.txt", "emoji/emoji-data.txt"}

// plan is a history of generator processes on one file system.
type plan struct {
	Full   bool                `json:"full,omitempty"`  // all of the shipped data
	Lines  map[string][][2]int `json:"lines,omitempty"` // otherwise these ranges of lines of each shipped file
	Damage []damage            `json:"damage,omitempty"`
	Rot    []splice            `json:"rot,omitempty"`
	Prev   string              `json:"prev"` // the table file at the start
	PrevAt int                 `json:"prev_at,omitempty"`
	Old    *plan               `json:"old,omitempty"` // processes that worked on other data before, and were killed or failed
	Procs  []genrun.Proc       `json:"procs"`         // one after the other
}

// damage spoils a data line.
type damage struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Text string `json:"text"`
}

var (
	shipped = map[string][][]byte{}
	table   []byte // the shipped table
	self    string
)

func load() (err error) {
	r := os.Getenv("VERIF_REPO")
	if r == "" {
		r = "/repo"
	}
	d := filepath.Join(r, "textseg/internal/charprops")
	// The whole directory is what a generator could read.
	err = filepath.WalkDir(filepath.Join(d, "ucd"), func(p string, e os.DirEntry, err error) error {
		if err != nil || e.IsDir() {
			return err
		}
		b, err := os.ReadFile(p)
		rel, _ := filepath.Rel(filepath.Join(d, "ucd"), p)
		shipped[rel] = bytes.SplitAfter(b, []byte("\n"))
		return err
	})
	if err != nil {
		return err
	}
	table, _ = os.ReadFile(filepath.Join(d, genrun.Table))
	self, err = os.Executable()
	return err
}

func (p *plan) files() map[string][]byte {
	out := map[string][]byte{}
	for f, l := range shipped {
		if rs, ok := p.Lines[f]; ok && !p.Full {
			var sub [][]byte
			for _, r := range rs {
				sub = append(sub, l[min(r[0], len(l)):min(r[1], len(l))]...)
			}
			l = sub
		}
		if len(p.Damage) > 0 {
			l = append([][]byte(nil), l...)
		}
		for _, d := range p.Damage {
			if d.File == f && d.Line < len(l) {
				l[d.Line] = []byte(d.Text)
			}
		}
		out["ucd/"+f] = bytes.Join(l, nil)
	}
	for i := range p.Rot {
		out[p.Rot[i].File] = p.Rot[i].apply(out[p.Rot[i].File])
	}
	switch p.Prev {
	case "shipped":
		out[genrun.Table] = bytes.Clone(table)
	case "long":
		out[genrun.Table] = append(bytes.Clone(table), bytes.Repeat([]byte("// previous table\n"), 20000)...)
	case "short":
		out[genrun.Table] = []byte("package charprops\n")
	case "empty":
		out[genrun.Table] = []byte{}
	}
	return out
}

func clone(m map[string][]byte) map[string][]byte {
	o := map[string][]byte{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

// emit writes the table the generator makes of the shipped data to a file (C17).
func emit(out string) {
	if err := load(); err != nil {
		fatal(err)
	}
	p := &plan{Full: true, Prev: "none"}
	r, err := genrun.Run(self, genrun.Proc{}, p.files())
	if err != nil {
		fatal(err)
	}
	t, ok := r.Files[genrun.Table]
	if r.Exit != 0 || !ok {
		fmt.Println("note: the generator writes no table:", clip(r.Stderr))
		os.Exit(3)
	}
	if err := os.WriteFile(out, t, 0o644); err != nil {
		fatal(err)
	}
}

type health struct {
	ok     bool
	table  []byte
	stderr string
}

// healthy is what one undisturbed process makes of the data.
func (p *plan) healthy(c *engine.Ctx) (*health, error) {
	key := fmt.Sprint(p.Full, p.Lines, p.Damage, p.Rot)
	if key == lastKey {
		return lastHealth, nil
	}
	f := p.files()
	delete(f, genrun.Table)
	r, err := genrun.Run(self, genrun.Proc{}, f)
	if err != nil {
		return nil, err
	}
	c.Add("generator processes", 1)
	t, ok := r.Files[genrun.Table]
	lastKey, lastHealth = key, &health{r.Exit == 0 && ok && !r.Lost, t, r.Stderr}
	return lastHealth, nil
}

var (
	lastKey    string
	lastHealth *health
)

func hash(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%v", parts)
	return h.Sum64()
}

func pickData(r *rng.R, p *plan) {
	if r.N(12) == 0 {
		p.Full = true
		return
	}
	p.Lines = map[string][][2]int{}
	for _, f := range names {
		l := shipped[f]
		var rs [][2]int
		for i := r.N(3); i >= 0; i-- {
			if len(l) == 0 {
				break
			}
			a := r.N(len(l))
			if f == "DerivedCoreProperties.txt" && r.N(3) > 0 {
				a = incb(r, l)
			}
			rs = append(rs, [2]int{a, min(len(l), a+1+r.N(60))})
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i][0] < rs[j][0] })
		for i := 1; i < len(rs); i++ { // no line twice
			rs[i][0] = max(rs[i][0], rs[i-1][1])
			rs[i][1] = max(rs[i][1], rs[i][0])
		}
		p.Lines[f] = rs
	}
}

var incbAt []int

func incb(r *rng.R, l [][]byte) int {
	if incbAt == nil {
		for i, x := range l {
			if bytes.Contains(x, []byte("InCB")) {
				incbAt = append(incbAt, i)
			}
		}
	}
	if len(incbAt) == 0 {
		return r.N(len(l))
	}
	return incbAt[r.N(len(incbAt))]
}

var badLines = []string{"XYZ ; Extend # bad\n", "0300", "110000..110010 ; Extend\n", "0300..02FF ; Control\n", ";\n", "\x00\xff\n",
	"0041 ; NoSuchProperty\n", "0041..FFFFFFFFFF ; Extend\n", "D800 ; Control\n", "0300 ; InCB; Extend\n", "00A9 ; Extended_Pictographic\n"}

func pickFault(r *rng.R, files map[string][]byte, kinds []string) simos.Fault {
	f := simos.Fault{Kind: kinds[r.N(len(kinds))]}
	data := "ucd/" + names[r.N(len(names))]
	switch f.Kind {
	case simos.OpenENOENT, simos.OpenEMFILE, simos.OpenEACCES, simos.OpenFail:
		f.Path = data
	case simos.StatFail:
		if r.N(2) == 0 {
			f.Path = data
		}
	case simos.ReadEIO, simos.ReadPartEIO:
		f.Path = data
		b := files[data]
		switch r.N(5) {
		case 0:
			f.Off = len(b)
		case 1, 2:
			// at a line's end or a field's
			k := r.N(len(b) + 1)
			if i := bytes.IndexAny(b[k:], "\n;#"); i >= 0 {
				k += i + r.N(2)
			}
			f.Off = k
		case 3:
			f.Off = max(0, len(b)-r.N(80))
		default:
			f.Off = r.N(len(b) + 1)
		}
	case simos.WriteENOSPC, simos.WriteEIO, simos.KillWrite, simos.CloseEIO:
		switch r.N(6) {
		case 0:
			f.Off = 0
		case 1:
			f.Off = 1 + r.N(4096)
		default:
			f.Off = r.N(len(table) + 1)
		}
		if r.N(3) == 0 { // only of the table itself, not of what is written to replace it
			f.Path = genrun.Table
		}
	case simos.KillOp:
		f.Off = r.N(60)
	case simos.KillMut:
		f.Off = r.N(14)
	}
	if e := errnos[f.Kind]; e != nil && r.N(2) == 0 {
		f.Errno = e[r.N(len(e))]
	}
	if r.N(3) == 0 { // it does not go away, or only after some tries
		f.Times = []int{2, 3, 5, 10, 200}[r.N(5)]
	}
	return f
}

// errnos says what else the failures look like on real systems.
var errnos = map[string][]string{
	simos.OpenFail:    {"EIO", "ESTALE", "ETIMEDOUT", "EINTR", "ENFILE", "ENOMEM", "ELOOP", "EPERM", "ENOTDIR", "ENXIO", "ENODEV", "deadline"},
	simos.ReadEIO:     {"ESTALE", "ETIMEDOUT", "EAGAIN", "EINTR", "ENOMEM", "ENXIO", "deadline", "EACCES", "EINVAL", "ENODEV"},
	simos.ReadPartEIO: {"ESTALE", "ETIMEDOUT", "EAGAIN", "EINTR", "ENOMEM", "ENXIO", "deadline", "EACCES", "EINVAL", "ENODEV"},
	simos.CreateFail:  {"EROFS", "ENOSPC", "EDQUOT", "EPERM", "EMFILE", "ENFILE", "EBUSY", "EIO", "EEXIST", "ENOENT", "EINTR"},
	simos.WriteENOSPC: {"EDQUOT", "EFBIG", "EINTR", "EAGAIN", "EPIPE", "EIO"},
	simos.WriteEIO:    {"EAGAIN", "EINTR", "ESTALE", "ETIMEDOUT", "EROFS", "ENOSPC"},
	simos.SyncEIO:     {"ENOSPC", "EINVAL", "ENOTSUP", "EROFS", "EINTR"},
	simos.RenameFail:  {"EXDEV", "EXDEV", "EACCES", "EPERM", "EBUSY", "EROFS", "ENOSPC", "EEXIST", "ENOENT"},
	simos.StatFail:    {"EACCES", "ESTALE", "ETIMEDOUT", "ENOENT", "ELOOP"},
	simos.RemoveFail:  {"EACCES", "EPERM", "EBUSY", "EROFS", "ENOENT"},
	simos.MetaFail:    {"EPERM", "EROFS", "ENOTSUP", "EEXIST", "ENOSPC"},
}

var errKinds = []string{simos.OpenENOENT, simos.OpenEMFILE, simos.OpenEACCES, simos.ReadEIO, simos.ReadEIO, simos.ReadEIO, simos.ReadPartEIO, simos.ReadPartEIO,
	simos.ReadPartEIO, simos.CreateFail, simos.WriteENOSPC, simos.WriteENOSPC, simos.WriteEIO, simos.CloseEIO, simos.SyncEIO, simos.RenameFail, simos.RenameFail, simos.OpenFail, simos.StatFail, simos.RemoveFail, simos.MetaFail}
var killKinds = []string{simos.KillOp, simos.KillMut, simos.KillMut, simos.KillMut, simos.KillWrite, simos.KillWrite}

var mixedKinds = []string{simos.KillOp, simos.KillMut, simos.KillMut, simos.KillMut, simos.KillWrite, simos.KillWrite, simos.WriteENOSPC, simos.WriteEIO, simos.CloseEIO, simos.SyncEIO,
	simos.CreateFail, simos.RenameFail, simos.RenameFail, simos.RenameFail, simos.MetaFail, simos.RemoveFail, simos.StatFail}

// start is the file system at the start. Some previous tables are much like
// the new one: cut, extended, damaged in place, or already it.
func (p *plan) start(h *health) map[string][]byte {
	out := p.files()
	if !h.ok {
		return out
	}
	t := bytes.Clone(h.table)
	n := len(t)
	at := p.PrevAt % max(1, n)
	switch p.Prev {
	case "same":
	case "near": // one byte differs
		for i := 0; i < n && !(t[at] >= '0' && t[at] <= '8'); i++ {
			at = (at + 1) % n
		}
		if n > 0 {
			t[at]++
		}
	case "cut":
		t = t[:at]
	case "torn": // as long, but zeros from somewhere on
		clear(t[at:])
	case "tail":
		t = append(t, []byte("\n// merge conflict\n"[:1+at%18])...)
	default:
		return out
	}
	out[genrun.Table] = t
	return out
}

var alikes = []string{"same", "near", "near", "near", "cut", "torn", "tail"}

var prevs = []string{"none", "shipped", "shipped", "long", "short", "empty"}

func proc(r *rng.R, files map[string][]byte, kinds []string, atLeast int) genrun.Proc {
	pr := genrun.Proc{ReadMode: r.N(3), Seed: r.U64() >> 16}
	n := atLeast
	for n < 3 && r.N(4) == 0 {
		n++
	}
	if len(kinds) == len(mixedKinds) && r.N(2) == 0 {
		// Replacing the table does not work, and then another way does not either.
		first := pickFault(r, files, []string{simos.RenameFail, simos.RenameFail, simos.CreateFail, simos.RemoveFail, simos.SyncEIO, simos.MetaFail})
		if e := errnos[first.Kind]; r.N(4) > 0 {
			first.Errno = e[r.N(len(e))]
		}
		second := pickFault(r, files, []string{simos.KillWrite, simos.KillWrite, simos.WriteENOSPC, simos.WriteEIO, simos.CloseEIO})
		second.Path = genrun.Table
		pr.Faults = append(pr.Faults, first, second)
		n--
	}
	for i := 0; i < n; i++ {
		pr.Faults = append(pr.Faults, pickFault(r, files, kinds))
	}
	return pr
}

var fsReal = []string{"textseg/internal/charprops/generate.go (main)", "textseg/internal/charprops/gentable", "textseg/internal/charprops/ucdparse", "bufio, go/format (Go's standard library)"}
var fsStub = []string{"package os: files, their contents, failures and the life of the process", "package log, if used"}

func c15() *engine.Check {
	return &engine.Check{
		ID: "C15", Title: "generator success means a complete table",
		Runs: map[string]int{"quick": 10000, "thorough": 250000}, Batch: 60,
		Setup: load,
		New:   func() any { return &plan{} },
		Gen: func(r *rng.R, seed uint64, idx int, tier string) any {
			p := &plan{Prev: prevs[r.N(len(prevs))]}
			if r.N(4) == 0 {
				p.Prev, p.PrevAt = alikes[r.N(len(alikes))], r.N(60000)
			}
			pickData(rng.New(seed, 15, uint64(idx/6)), p)
			f := p.files()
			least := 1
			if r.N(6) == 0 {
				least = 0
			}
			p.Procs = []genrun.Proc{proc(r, f, errKinds, least)}
			return p
		},
		Exec: func(pl any, c *engine.Ctx) *engine.Violation {
			p := pl.(*plan)
			h, err := p.healthy(c)
			if err != nil {
				fatal(err)
			}
			if !h.ok {
				if p.Full && len(p.Damage)+len(p.Rot) == 0 {
					return engine.V("healthy-failure", "on the shipped data and a healthy file system the generator does not write a table: %s", clip(h.stderr))
				}
				c.Add("data set refused by the generator", 1)
				return nil
			}
			start := p.start(h)
			prev, had := start[genrun.Table]
			r, err := genrun.Run(self, p.Procs[0], start)
			if err != nil {
				fatal(err)
			}
			note(c, p, 0, r)
			if r.Lost {
				c.Add("process lost", 1)
				return nil
			}
			got, ok := r.Files[genrun.Table]
			if r.Exit == 0 {
				c.Add("exits with success", 1)
				if !ok {
					return engine.V("false-success", "exit status 0 without a table (%s)", faults(r))
				}
				if !bytes.Equal(got, h.table) {
					what := "that differs from the normal one"
					if had && bytes.Equal(got, prev) {
						what = "that is still the previous one"
					} else if bytes.HasPrefix(h.table, got) {
						what = "that is truncated"
					}
					if len(r.Fired) == 0 {
						return engine.V("unstable-output", "with no fault the table differs from that of another fault-free run: %d bytes, %d normally", len(got), len(h.table))
					}
					return engine.V("false-success", "exit status 0 with a table %s: %d bytes of %d (%s)", what, len(got), len(h.table), faults(r))
				}
				return nil
			}
			c.Add("exits with failure", 1)
			if len(r.Fired) == 0 {
				return engine.V("fault-free-failure", "exit status %d without any fault: %s", r.Exit, clip(r.Stderr))
			}
			return nil
		},
		Shrink: shrink,
		Rule:   "distinct sequences of file-system operations with the faults that fired in them and the exit status",
		Real:   fsReal, Stub: fsStub,
		Assume: []string{"The simulated file system stands for the real one: reads may be short or fail anywhere, writes fail whole or in part, a failing close loses the tail of what was written, also when the process leaves closing to the kernel."},
	}
}

func c16() *engine.Check {
	return &engine.Check{
		ID: "C16", Title: "interrupted regeneration leaves a whole table",
		Runs: map[string]int{"quick": 5000, "thorough": 200000}, Batch: 50,
		Setup: load,
		New:   func() any { return &plan{} },
		Gen: func(r *rng.R, seed uint64, idx int, tier string) any {
			p := &plan{Prev: prevs[r.N(len(prevs))]}
			if r.N(4) == 0 {
				p.Prev, p.PrevAt = alikes[r.N(len(alikes))], r.N(60000)
			}
			d := rng.New(seed, 16, uint64(idx/6))
			pickData(d, p)
			if r := d; r.N(8) == 0 {
				f := names[r.N(len(names))]
				p.Damage = append(p.Damage, damage{f, r.N(60), badLines[r.N(len(badLines))]})
			} else if r.N(5) == 0 {
				p.Rot = append(p.Rot, rot(r, p.files()))
			}
			f := p.files()
			for i := r.N(3); i >= 0; i-- {
				kinds := killKinds
				if r.N(3) == 0 {
					kinds = errKinds
				}
				if r.N(3) == 0 { // a failure, and a kill in what is done about it
					kinds = mixedKinds
				}
				least := 1
				if len(kinds) == len(mixedKinds) {
					least = r.In(2, 3)
				}
				p.Procs = append(p.Procs, proc(r, f, kinds, least))
			}
			if r.N(4) == 0 {
				p.Old = &plan{Prev: p.Prev}
				pickData(r, p.Old)
				if r.N(2) == 0 { // more than now
					for _, f := range names {
						if p.Old.Lines != nil {
							p.Old.Lines[f] = [][2]int{{0, min(len(shipped[f]), 400+r.N(400))}}
						}
					}
				}
				f := p.Old.files()
				for i := r.N(2); i >= 0; i-- {
					p.Old.Procs = append(p.Old.Procs, proc(r, f, [][]string{killKinds, killKinds, errKinds, mixedKinds}[r.N(4)], 1))
				}
			}
			return p
		},
		Exec: func(pl any, c *engine.Ctx) *engine.Violation {
			p := pl.(*plan)
			h, err := p.healthy(c)
			if err != nil {
				fatal(err)
			}
			if !h.ok && p.Full && len(p.Damage)+len(p.Rot) == 0 {
				return engine.V("healthy-failure", "on the shipped data and a healthy file system the generator does not write a table: %s", clip(h.stderr))
			}
			cur := p.start(h)
			if p.Old != nil {
				was := p.Old.files()
				was[genrun.Table] = cur[genrun.Table]
				if _, ok := cur[genrun.Table]; !ok {
					delete(was, genrun.Table)
				}
				for i, pr := range p.Old.Procs {
					pr.Pid = -100 + i
					r, err := genrun.Run(self, pr, was)
					if err != nil {
						fatal(err)
					}
					c.Add("generator processes on other data before", 1)
					if r.Lost {
						return nil
					}
					was = r.Files
				}
				for k := range cur {
					if !strings.HasPrefix(k, "ucd/") {
						delete(cur, k)
					}
				}
				for k, v := range was {
					if !strings.HasPrefix(k, "ucd/") {
						cur[k] = v
					}
				}
			}
			prev, had := cur[genrun.Table]
			// The last process sees the data files' times of the first (they
			// were not touched in between), and every process its own pid.
			last := genrun.Proc{}
			if len(p.Procs) > 0 {
				last.Seed = p.Procs[0].Seed
			}
			for i, pr := range append(append([]genrun.Proc(nil), p.Procs...), last) {
				pr.Pid = 7 * i
				r, err := genrun.Run(self, pr, clone(cur))
				if err != nil {
					fatal(err)
				}
				note(c, p, i, r)
				if r.Lost {
					c.Add("process lost", 1)
					return nil
				}
				got, ok := r.Files[genrun.Table]
				isPrev := ok == had && bytes.Equal(got, prev)
				isNew := h.ok && ok && bytes.Equal(got, h.table)
				how := fmt.Sprintf("exited with status %d (%s)", r.Exit, faults(r))
				if r.Killed {
					how = fmt.Sprintf("was killed at file operation %d (%s)", r.Ops, faults(r))
				}
				if !isPrev && !isNew {
					switch {
					case !ok:
						return engine.V("table-lost", "the table is gone after process %d %s", i+1, how)
					default:
						return engine.V("partial-table", "after process %d %s the table has %d bytes; the previous one has %d, the new one %d", i+1, how, len(got), len(prev), len(h.table))
					}
				}
				if i == len(p.Procs) && h.ok && (r.Exit != 0 || !isNew) {
					return engine.V("no-recovery", "after %d interrupted processes a healthy one exits with status %d and leaves the table at %d bytes instead of %d: %s", i, r.Exit, len(got), len(h.table), clip(r.Stderr))
				}
				if isNew && !isPrev {
					c.Add("states with the new table", 1)
				} else {
					c.Add("states with the previous table", 1)
				}
				if len(r.Files) > len(cur) {
					c.Add("left-over files", len(r.Files)-len(cur))
				}
				cur, prev, had = r.Files, got, ok
			}
			return nil
		},
		Shrink: shrink,
		Rule:   "distinct sequences of file-system operations with the faults that fired in them and the exit status",
		Real:   fsReal, Stub: fsStub,
		Assume: []string{"A kill ends the process, not the machine: what was written before it stays. Loss of unsynced data at a power failure is not modelled.", "Renaming within a directory is atomic."},
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "ERROR:", err)
	os.Exit(2)
}

func note(c *engine.Ctx, p *plan, i int, r *genrun.Result) {
	c.Add("generator processes", 1)
	c.Add("file operations", r.Ops)
	for k, n := range r.Fired {
		c.Add("fault:"+k, n)
	}
	if i < len(p.Procs) && p.Procs[i].ReadMode > 0 {
		c.Add("fault:short reads (processes)", 1)
	}
	if r.Switches > 0 {
		c.Add("switches between goroutines of the generator", r.Switches)
	}
	if p.Full {
		c.Add("processes on the full data", 1)
	}
	c.Mix(r.Digest)
	c.Mix(uint64(r.Exit))
	c.MixBytes(r.Files[genrun.Table])
	c.Distinct(hash(r.Digest, faults(r), r.Exit, p.Prev))
	if i == 0 {
		c.Sample("full=%v prev=%s faults=%v read_mode=%d -> %d operations, exit %d killed=%v, fired: %s, table %d bytes", p.Full, p.Prev, p.Procs[0].Faults, p.Procs[0].ReadMode, r.Ops, r.Exit, r.Killed, faults(r), len(r.Files[genrun.Table]))
	}
}

func faults(r *genrun.Result) string {
	var l []string
	for k, n := range r.Fired {
		l = append(l, fmt.Sprintf("%s x%d", k, n))
	}
	sort.Strings(l)
	if len(l) == 0 {
		return "no fault"
	}
	return strings.Join(l, ", ")
}

func clip(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.Index(s, "\n"); i > 0 {
		s = s[:i]
	}
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

func shrink(pl any, try func(any) bool) any {
	p := *pl.(*plan)
	attempt := func(f func(q *plan)) bool {
		q := p
		q.Procs = nil
		for _, x := range p.Procs {
			x.Faults = append([]simos.Fault(nil), x.Faults...)
			q.Procs = append(q.Procs, x)
		}
		q.Lines = map[string][][2]int{}
		for k, v := range p.Lines {
			q.Lines[k] = append([][2]int(nil), v...)
		}
		q.Damage = append([]damage(nil), p.Damage...)
		q.Rot = append([]splice(nil), p.Rot...)
		f(&q)
		if try(&q) {
			p = q
			return true
		}
		return false
	}
	attempt(func(q *plan) { q.Old = nil })
	for p.Old != nil && len(p.Old.Procs) > 1 && attempt(func(q *plan) { o := *p.Old; o.Procs = o.Procs[1:]; q.Old = &o }) {
	}
	if p.Full {
		attempt(func(q *plan) {
			q.Full = false
			q.Lines = map[string][][2]int{}
			for _, f := range names {
				q.Lines[f] = nil
			}
		})
		attempt(func(q *plan) {
			if q.Full {
				q.Full = false
				q.Lines = map[string][][2]int{}
				for _, f := range names {
					q.Lines[f] = [][2]int{{0, 400}}
				}
			}
		})
	}
	for i := 0; i < len(p.Procs) && len(p.Procs) > 1; {
		if !attempt(func(q *plan) { q.Procs = append(q.Procs[:i], q.Procs[i+1:]...) }) {
			i++
		}
	}
	for i := range p.Procs {
		for j := 0; j < len(p.Procs[i].Faults); {
			if !attempt(func(q *plan) { q.Procs[i].Faults = append(q.Procs[i].Faults[:j], q.Procs[i].Faults[j+1:]...) }) {
				j++
			}
		}
		if p.Procs[i].ReadMode != 0 {
			attempt(func(q *plan) { q.Procs[i].ReadMode = 0 })
		}
	}
	for i := 0; i < len(p.Rot); {
		if !attempt(func(q *plan) { q.Rot = append(q.Rot[:i], q.Rot[i+1:]...) }) {
			i++
		}
	}
	for i := 0; i < len(p.Damage); {
		if !attempt(func(q *plan) { q.Damage = append(q.Damage[:i], q.Damage[i+1:]...) }) {
			i++
		}
	}
	for _, f := range names {
		for k := 0; k < 40; k++ {
			rs := p.Lines[f]
			if len(rs) == 0 {
				break
			}
			if attempt(func(q *plan) { q.Lines[f] = nil }) {
				break
			}
			if len(rs) > 1 && attempt(func(q *plan) { q.Lines[f] = q.Lines[f][1:] }) {
				continue
			}
			if len(rs) > 1 && attempt(func(q *plan) { q.Lines[f] = q.Lines[f][:len(rs)-1] }) {
				continue
			}
			a, b := rs[0][0], rs[0][1]
			m := (a + b) / 2
			if m > a && (attempt(func(q *plan) { q.Lines[f][0][1] = m }) || attempt(func(q *plan) { q.Lines[f][0][0] = m })) {
				continue
			}
			break
		}
	}
	for i := range p.Procs {
		for j := range p.Procs[i].Faults {
			for k := 0; k < 20; k++ {
				off := p.Procs[i].Faults[j].Off
				if off == 0 || !(attempt(func(q *plan) { q.Procs[i].Faults[j].Off = off / 2 }) || attempt(func(q *plan) { q.Procs[i].Faults[j].Off = off - 1 })) {
					break
				}
			}
		}
	}
	return &p
}
