package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"slices"
	"strings"

	"verifsim/buildtab"
	"verifsim/engine"
	"verifsim/genrun"
	"verifsim/ref"
	"verifsim/rng"
)

// C20: the generator on Unicode data that the storage has damaged, or that was
// wrong from the beginning.

// rotPlan is data with damage.
type rotPlan struct {
	Data  plan                  `json:"data"` // the lines there were
	Rot   []splice              `json:"rot,omitempty"`
	Text  map[string]engine.Hex `json:"text,omitempty"` // instead of both: what is in the files
	Prev  string                `json:"prev"`
	Model bool                  `json:"model,omitempty"` // also compare the library with the model
	Proc  genrun.Proc           `json:"proc"`
}

// splice replaces part of a file.
type splice struct {
	Kind string     `json:"kind"`
	File string     `json:"file"`
	Off  int        `json:"off"`
	Len  int        `json:"len"`
	Text engine.Hex `json:"text,omitempty"`
}

func (s *splice) apply(b []byte) []byte {
	lo := min(s.Off, len(b))
	hi := min(lo+s.Len, len(b))
	return append(append(append([]byte(nil), b[:lo]...), s.Text...), b[hi:]...)
}

func (p *rotPlan) files() map[string][]byte {
	out := map[string][]byte{}
	if p.Text != nil {
		for f, b := range p.Text {
			out[f] = b
		}
	} else {
		out = p.Data.files()
		for i := range p.Rot {
			s := &p.Rot[i]
			out[s.File] = s.apply(out[s.File])
		}
	}
	delete(out, genrun.Table)
	if t, ok := (&plan{Full: true, Prev: p.Prev}).files()[genrun.Table]; ok {
		out[genrun.Table] = t
	}
	return out
}

// reading is what three files say.
type reading struct {
	t    ref.Classes
	must string // why this data is unusable
	open string // why it may be taken in more than one way
	data int    // lines that give properties
}

var gcbOf = func() map[string]uint8 {
	m := map[string]uint8{}
	for g := ref.None + 1; g < ref.ExtPict; g++ {
		m[ref.GCBName[g]] = g
	}
	delete(m, ref.GCBName[ref.RI])
	m["Regional_Indicator"] = ref.RI
	return m
}()
var incbOf = map[string]uint8{"Consonant": ref.ICons, "Extend": ref.IExt, "Linker": ref.ILink}

func asciiTrim(s string) string { return strings.Trim(s, " \t\r\v\f") }

func codePoint(s string) int {
	if s == "" {
		return -1
	}
	n := 0
	for _, c := range []byte(s) {
		d := strings.IndexByte("0123456789abcdef", c|0x20)
		if c < '0' || d < 0 || c > 'f' || d < 10 && c > '9' {
			return -1
		}
		if n = n*16 + d; n > 0x10ffff {
			return -1
		}
	}
	return n
}

func understand(files map[string][]byte) *reading {
	v := &reading{}
	var g, in [0x110000]uint8 // 1+value: seen
	var twice [0x110000]bool
	say := func(at *string, f, l, why string) {
		if *at == "" {
			*at = fmt.Sprintf("%s: the line %q %s", f, clip(strings.ReplaceAll(l, "\x00", "\\0")), why)
		}
	}
	for _, k := range []int{1, 2, 0} {
		f := names[k]
		for _, l := range strings.Split(string(files["ucd/"+f]), "\n") {
			if len(l) >= 65000 {
				say(&v.open, f, l[:40], "is too long")
			}
			body, _, _ := strings.Cut(l, "#")
			fs := strings.Split(body, ";")
			if len(fs) < 2 {
				continue
			}
			odd := false
			for i := range fs {
				odd = odd || strings.TrimSpace(fs[i]) != asciiTrim(fs[i])
				fs[i] = asciiTrim(fs[i])
			}
			var val uint8
			relevant := true
			switch k {
			case 1:
				val = gcbOf[fs[1]]
			case 2:
				if relevant = fs[1] == "Extended_Pictographic"; relevant {
					val = ref.ExtPict
				}
			case 0:
				if relevant = fs[1] == "InCB" && len(fs) > 2; relevant {
					val = incbOf[fs[2]]
				}
			}
			if odd {
				say(&v.open, f, l, "has strange spaces")
				continue
			}
			if !relevant {
				continue
			}
			from, to, isRange := strings.Cut(fs[0], "..")
			if !isRange {
				to = from
			}
			if asciiTrim(from) != from || asciiTrim(to) != to {
				say(&v.open, f, l, "has spaces in its range")
				continue
			}
			lo, hi := codePoint(from), codePoint(to)
			if lo < 0 || hi < lo {
				if val != 0 {
					say(&v.must, f, l, "has no valid code points")
				}
				continue
			}
			if val != 0 {
				v.data++
			}
			for c := lo; c <= hi; c++ {
				switch k {
				case 1:
					if g[c] != 0 && g[c] != val+1 {
						twice[c] = true
						say(&v.open, f, l, "contradicts another")
					}
					g[c] = val + 1
				case 2:
					if g[c] > 1 && g[c] != val+1 && !twice[c] && !isSurr(c) {
						say(&v.must, f, l, fmt.Sprintf("makes U+%04X, which is %s, Extended_Pictographic", c, ref.GCBName[g[c]-1]))
					}
					g[c] = val + 1
				case 0:
					if in[c] != 0 && in[c] != val+1 {
						say(&v.open, f, l, "contradicts another")
					}
					in[c] = val + 1
				}
			}
		}
	}
	for c := range v.t {
		if g[c] > 1 {
			v.t[c] = g[c] - 1
		}
		if in[c] > 1 {
			v.t[c] |= (in[c] - 1) << 4
		}
	}
	return v
}

// lineAt picks a line of a file, mostly one that matters, and gives the bounds
// of what stands before its comment.
func lineAt(r *rng.R, f string, b []byte) (lo, hi int) {
	if len(b) == 0 {
		return
	}
	for try := 0; try < 12; try++ {
		at := r.N(len(b))
		lo = bytes.LastIndexByte(b[:at], '\n') + 1
		hi = len(b)
		if i := bytes.IndexByte(b[lo:], '\n'); i >= 0 {
			hi = lo + i
		}
		if i := bytes.IndexByte(b[lo:hi], '#'); i >= 0 {
			hi = lo + i
		}
		l := b[lo:hi]
		if bytes.IndexByte(l, ';') >= 0 && (f == names[1] || bytes.Contains(l, []byte("InCB")) || bytes.Contains(l, []byte("Extended_Pict"))) {
			break
		}
	}
	return
}

var wrongPoints = []string{"110000", "110000..110005", "10FFFE..110000", "FFFFFFFF", "FFFFFF..FFFFFFFF", "100000041", "0041..100000041", "1F5..1F4", "0301..0300", "E000..D800",
	"", "..", "0300..", "..0300", "0300...0302", "0300..0301..0302", "03O0", "0300,0301", "0300-0310", "0300.0310", "U+0300", "0x300", "-0300", "+300", "03 00", "03_00", "\\u0300", "0300G", "GG", "٣", "0300..031G",
	"FFFD..FFFC", "10FFFF..110000", "80000000", "D800..D7FF", "7FFFFFFF", "0..FFFFFFFF", "1FFFFFFFFFFFFFFFFF", "0300\x00", "\x000300", "0300..\x00"}
var otherPoints = []string{"00000300", "300", "0300..0300", "10FFFF", "E0..E5", "d7b0..d7c6", "D7FF..E000", "00000000000300..0000000000036F", "E01EF..E0FFF", "FFFD", "10FFFE..10FFFF", "80", "7F..80", "aBcD..abce"}

func rot(r *rng.R, files map[string][]byte) splice {
	f := names[[]int{0, 1, 1, 2}[r.N(4)]]
	b := files["ucd/"+f]
	s := splice{File: "ucd/" + f}
	lo, hi := lineAt(r, f, b)
	at := lo
	if hi > lo {
		at += r.N(hi - lo)
	}
	if i := bytes.IndexByte(b[lo:hi], ';'); i > 0 && r.N(2) == 0 {
		at = lo + r.N(i)
	}
	if r.N(8) == 0 {
		at = r.N(len(b) + 1)
	}
	points := hi
	if i := bytes.IndexByte(b[lo:hi], ';'); i >= 0 {
		points = lo + i
	}
	s.Off = at
	switch k := r.N(18); k {
	case 0, 1, 2:
		s.Kind, s.Len = "bit flip", 1
		if at < len(b) {
			s.Text = engine.Hex{b[at] ^ 1<<r.N(8)}
		}
	case 3:
		s.Kind, s.Len, s.Text = "byte changed", 1, engine.Hex{"0123456789ABCDEFabcdef.;# \n\r\x00\xffGgOx"[r.N(34)]}
	case 4:
		s.Kind, s.Len = "bytes lost", r.In(1, []int{1, 4, 20, 512}[r.N(4)])
	case 5:
		s.Kind = "bytes doubled"
		n := r.In(1, []int{1, 4, 60, 512}[r.N(4)])
		s.Text = append(s.Text, b[min(at, len(b)):min(at+n, len(b))]...)
	case 6, 7:
		s.Kind, s.Len = "bytes zeroed", r.In(1, 40)
		if k == 6 {
			s.Kind, s.Len, s.Off = "sector zeroed", 512, at&^511
		}
		s.Len = max(0, min(s.Len, len(b)-s.Off))
		s.Text = make(engine.Hex, s.Len)
	case 8:
		s.Kind = "sectors exchanged"
		n := (len(b) + 511) / 512
		if n > 1 {
			x := r.N(n - 1)
			y := x + 1 + r.N(min(8, n-x-1))
			sec := func(i int) []byte { return b[i*512 : min(i*512+512, len(b))] }
			s.Off, s.Len = x*512, min(y*512+512, len(b))-x*512
			s.Text = append(s.Text, sec(y)...)
			s.Text = append(s.Text, b[x*512+512:y*512]...)
			s.Text = append(s.Text, sec(x)...)
		}
	case 9:
		s.Kind, s.Len = "torn write", len(b)-at
	case 10:
		s.Kind, s.Len = "misdirected sector", 512
		o := files["ucd/"+names[r.N(3)]]
		s.Off = at &^ 511
		x := r.N(len(o)+1) &^ 511
		s.Text = append(s.Text, o[x:min(x+512, len(o))]...)
	case 11:
		s.Kind, s.Len = "line end lost", 1
		if i := bytes.IndexByte(b[min(at, len(b)):], '\n'); i >= 0 {
			s.Off = at + i
		}
	case 12, 13, 14:
		s.Kind, s.Off, s.Len = "wrong code points", lo, points-lo
		s.Text = engine.Hex(wrongPoints[r.N(len(wrongPoints))])
		was := asciiTrim(string(b[lo:points]))
		if a, z, ok := strings.Cut(was, ".."); ok && r.N(3) == 0 {
			s.Text = engine.Hex(z + ".." + a)
		} else if r.N(4) == 0 && len(was) > 0 {
			// Right, but for a bit too high for the integer it may be kept in.
			wide := func(h string) string {
				n := []int{8, 8, 8, 16, 5, 6, 7}[r.N(7)]
				return "1" + strings.Repeat("0", max(0, n-len(h))) + h
			}
			switch {
			case !ok || r.N(3) == 0:
				s.Text = engine.Hex(wide(was))
				if ok {
					s.Text = engine.Hex(wide(a) + ".." + wide(z))
				}
			case r.N(2) == 0:
				s.Text = engine.Hex(a + ".." + wide(z))
			default:
				s.Text = engine.Hex(wide(a) + ".." + z)
			}
		}
		s.Text = append(s.Text, []string{"", " ", "          ", "\t"}[r.N(4)]...)
	case 15:
		s.Kind, s.Off, s.Len, s.Text = "other code points", lo, points-lo, engine.Hex(otherPoints[r.N(len(otherPoints))]+" ")
	case 16:
		// a line that gives the code points of another another value
		s.Kind, s.Off = "two values", lo
		s.File = "ucd/" + names[2]
		s.Off = bytes.LastIndexByte(files[s.File], '\n') + 1
		if i := r.N(s.Off + 1); r.N(2) == 0 {
			s.Off = bytes.LastIndexByte(files[s.File][:i], '\n') + 1
		}
		s.Text = engine.Hex(asciiTrim(string(b[lo:points])) + " ; Extended_Pictographic# x\n")
	default:
		s.Kind, s.Off, s.Len = "value changed", points, hi-points
		s.Text = engine.Hex("; " + []string{"Extend", "Exten", "extend", "EXTEND", "InCB", "InCB; Linker", "InCB; Linker; x", "InCB ;Extend", "Extended_Pictographic ", "ZWJ;", "Regional Indicator", "RI", "E_Base", "None", "Other", "Control\x00", "LVT", "InCB; None"}[r.N(18)] + " ")
	}
	return s
}

func c20() *engine.Check {
	return &engine.Check{
		ID: "C20", Title: "damaged Unicode data never silently becomes a table",
		Runs: map[string]int{"quick": 3600, "thorough": 250000}, Batch: 60,
		Setup: loadFaithful,
		New:   func() any { return &rotPlan{} },
		Gen: func(r *rng.R, seed uint64, idx int, tier string) any {
			p := &rotPlan{Prev: prevs[r.N(len(prevs))], Proc: genrun.Proc{ReadMode: r.N(3), Seed: r.U64() >> 16}, Model: r.N(12) == 0}
			pickData(r, &p.Data)
			p.Data.Prev = "none"
			if p.Model && r.N(4) > 0 && !p.Data.Full { // what the table is made of, and nothing else
				incb(r, shipped["DerivedCoreProperties.txt"])
				for _, n := range names {
					p.Data.Lines[n] = [][2]int{{0, len(shipped[n])}}
				}
				if k := len(incbAt); k > 0 {
					p.Data.Lines["DerivedCoreProperties.txt"] = [][2]int{{incbAt[0], incbAt[k-1] + 1}}
				}
			}
			f := p.Data.files()
			n := 1
			for n < 6 && r.N(3) == 0 {
				n++
			}
			for i := 0; i < n; i++ {
				s := rot(r, f)
				f[s.File] = s.apply(f[s.File])
				p.Rot = append(p.Rot, s)
			}
			return p
		},
		Exec: decayed,
		Shrink: func(pl any, try0 func(any) bool) any {
			p := *pl.(*rotPlan)
			left := 400
			try := func(q rotPlan) bool {
				if left--; left < 0 || !try0(&q) {
					return false
				}
				p = q
				return true
			}
			q := p
			q.Proc = genrun.Proc{}
			try(q)
			for i := 0; i < len(p.Rot); {
				q := p
				q.Rot = slices.Delete(slices.Clone(p.Rot), i, i+1)
				if !try(q) {
					i++
				}
			}
			q = p
			q.Text, q.Rot, q.Data = map[string]engine.Hex{}, nil, plan{}
			fs := p.files()
			for _, f := range names {
				q.Text["ucd/"+f] = fs["ucd/"+f]
			}
			if !try(q) {
				return &p
			}
			for _, n := range names {
				f := "ucd/" + n
				ls := func() [][]byte {
					return slices.DeleteFunc(bytes.SplitAfter(p.Text[f], []byte("\n")), func(l []byte) bool { return len(l) == 0 })
				}
				for ch := len(ls()); ch >= 1; ch /= 2 {
					for i := 0; ; {
						l := ls()
						if i >= len(l) {
							break
						}
						q := p
						q.Text = map[string]engine.Hex{}
						for k, v := range p.Text {
							q.Text[k] = v
						}
						q.Text[f] = bytes.Join(slices.Delete(slices.Clone(l), i, min(i+ch, len(l))), nil)
						if !try(q) {
							i += ch
						}
					}
				}
			}
			return &p
		},
		Rule: "a run is the generator on some lines of the shipped data, or all of it, after one or more kinds of damage to their bytes, read under some schedule. An independent parser says whether the data is unusable, and otherwise what it says; a table is then compared with the one made of the same values written down afresh (and, where they differ, the library built with either segments texts around every edge). Distinct by data, damage and schedule.",
		Real: fsReal, Stub: fsStub,
		Assume: []string{"Unknown property names give no property, as the lookup functions document.", "Data that contradicts itself in Grapheme_Cluster_Break or in Indic_Conjunct_Break, lines over 64 KiB and spaces inside a range are left open.", "A generator may refuse more than it must; that it takes well-formed data is decided by C17 and C19."},
	}
}

var cleanOf = map[uint64]*health{}

// afresh is the table made of the same values, written down without fault.
func afresh(c *engine.Ctx, t *ref.Classes) *health {
	k := hash(t[:])
	if h := cleanOf[k]; h != nil {
		return h
	}
	if len(cleanOf) > 50 {
		clear(cleanOf)
	}
	r, err := genrun.Run(self, genrun.Proc{}, (&dataPlan{Style: 20}).files(t))
	if err != nil {
		fatal(err)
	}
	c.Add("generator processes", 1)
	tab, ok := r.Files[genrun.Table]
	h := &health{r.Exit == 0 && ok && !r.Lost, tab, r.Stderr}
	cleanOf[k] = h
	return h
}

func decayed(pl any, c *engine.Ctx) *engine.Violation {
	p := pl.(*rotPlan)
	in := p.files()
	prev, had := in[genrun.Table]
	v := understand(in)
	r, err := genrun.Run(self, p.Proc, clone(in))
	if err != nil {
		fatal(err)
	}
	c.Add("generator processes", 1)
	c.Add("file operations", r.Ops)
	if p.Proc.ReadMode > 0 {
		c.Add("fault:short reads (processes)", 1)
	}
	var kinds []string
	for _, s := range p.Rot {
		c.Add("fault:"+s.Kind, 1)
		kinds = append(kinds, s.Kind)
	}
	if r.Lost {
		c.Add("process lost", 1)
		return nil
	}
	c.Mix(r.Digest)
	c.Mix(uint64(r.Exit))
	got, ok := r.Files[genrun.Table]
	c.MixBytes(got)
	c.Distinct(hash(p.Data.Full, p.Data.Lines, p.Rot, p.Text, p.Proc))
	if r.Exit != 0 {
		if ok != had || !bytes.Equal(got, prev) {
			return engine.V("table-touched", "the generator refuses the data (exit status %d, %s), but the table file, which had %d bytes, has %d now", r.Exit, clip(r.Stderr), len(prev), len(got))
		}
		if v.must != "" {
			c.Add("unusable data refused", 1)
		} else {
			c.Add("other data refused", 1)
		}
		c.Sample("%s: exit %d, %s", strings.Join(kinds, ", "), r.Exit, clip(r.Stderr))
		return nil
	}
	if v.must != "" {
		return engine.V("bad-data-accepted", "exit status 0, although in %s", v.must)
	}
	if !ok {
		return engine.V("no-table", "exit status 0 and no table")
	}
	if v.open != "" {
		c.Add("data left open", 1)
		return nil
	}
	h := afresh(c, &v.t)
	if !h.ok {
		c.Add("same values refused when written afresh", 1)
		return nil
	}
	if bytes.Equal(h.table, got) {
		c.Add("damaged data, table of what it says", 1)
		c.Sample("%s: %d data lines left, table of %d bytes for exactly these", strings.Join(kinds, ", "), v.data, len(got))
		if p.Model {
			return asModel(c, got, &v.t)
		}
		return nil
	}
	// The bytes differ; do the tables?
	list, _ := (&dataPlan{}).texts(&v.t)
	if len(list) > 40000 {
		list = list[:40000]
	}
	buf := wire(list)
	var outs [2]*bufio.Reader
	for i, tab := range [][]byte{got, h.table} {
		dir, err := os.MkdirTemp("", "verifsim")
		if err != nil {
			fatal(err)
		}
		diag, err := builder.Build(dir, tab)
		if err != nil {
			fatal(err)
		}
		var out []byte
		var errs string
		if diag == "" {
			out, errs, err = buildtab.Exec(dir, buf)
		}
		os.RemoveAll(dir)
		if diag != "" || err != nil {
			if i == 1 {
				c.Add("same values broken when written afresh", 1)
				return nil
			}
			return engine.V("broken", "the library with the table made of this data: %v %s", err, strings.Join(strings.Fields(diag+errs), " "))
		}
		outs[i] = bufio.NewReader(bytes.NewReader(out))
	}
	for _, x := range list {
		var toks [2][]int
		for i := range outs {
			n, _ := binary.ReadUvarint(outs[i])
			for ; n > 0; n-- {
				e, _ := binary.ReadUvarint(outs[i])
				toks[i] = append(toks[i], int(e))
			}
		}
		if !slices.Equal(toks[0], toks[1]) {
			k := 0
			for k < len(toks[0]) && k < len(toks[1]) && toks[0][k] == toks[1][k] {
				k++
			}
			from := 0
			if k > 0 {
				from = toks[0][k-1]
			}
			s := ""
			for _, ch := range string(x[from:min(len(x), from+16)]) {
				s += fmt.Sprintf(" U+%04X(%s)", ch, ref.ClassName(v.t[ch]))
			}
			return engine.V("wrong-table", "the table made of this data divides%s otherwise than the one made of the same values written afresh", s)
		}
	}
	c.Add("tables that differ only in form", 1)
	return nil
}

func wire(list [][]byte) (buf []byte) {
	for _, x := range list {
		buf = append(binary.AppendUvarint(buf, uint64(len(x))), x...)
	}
	return buf
}

// usual tells whether the rules say all there is to say about a class: its two
// values may occur together.
func usual(k uint8) bool {
	g := ref.GCB(k)
	switch ref.InCB(k) {
	case 0:
		return true
	case ref.ICons:
		return g == ref.None || g == ref.Prepend || g == ref.L || g == ref.V || g == ref.T || g == ref.LV || g == ref.LVT
	}
	return g == ref.Extend || g == ref.ZWJ
}

// asModel compares the library built with the table with the model under what
// the data says, on texts of characters of which it says something usual.
func asModel(c *engine.Ctx, table []byte, t *ref.Classes) *engine.Violation {
	list, _ := (&dataPlan{}).texts(t)
	list = slices.DeleteFunc(list, func(x []byte) bool {
		for _, ch := range string(x) {
			if !usual(t[ch]) {
				return true
			}
		}
		return false
	})
	if len(list) > 40000 {
		list = list[:40000]
	}
	dir, err := os.MkdirTemp("", "verifsim")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	diag, err := builder.Build(dir, table)
	if err != nil {
		fatal(err)
	}
	var out []byte
	var errs string
	if diag == "" {
		out, errs, err = buildtab.Exec(dir, wire(list))
	}
	if diag != "" || err != nil {
		return engine.V("broken", "the library with the table made of this data: %v %s", err, strings.Join(strings.Fields(diag+errs), " "))
	}
	c.Add("libraries compared with the model", 1)
	in := bufio.NewReader(bytes.NewReader(out))
	for _, x := range list {
		n, _ := binary.ReadUvarint(in)
		var toks []int
		for ; n > 0; n-- {
			e, _ := binary.ReadUvarint(in)
			toks = append(toks, int(e))
		}
		want, _ := ref.TokensBy(x, t)
		if slices.Equal(toks, want) {
			continue
		}
		k := 0
		for k < len(toks) && k < len(want) && toks[k] == want[k] {
			k++
		}
		from := 0
		if k > 0 {
			from = want[k-1]
		}
		s := ""
		for _, ch := range string(x[from:min(len(x), from+16)]) {
			s += fmt.Sprintf(" U+%04X(%s)", ch, ref.ClassName(t[ch]))
		}
		return engine.V("wrong-table", "the library with the table made of this data divides%s otherwise than the rules and the data say", s)
	}
	return nil
}
