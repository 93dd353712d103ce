package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode/utf8"

	"verifsim/buildtab"
	"verifsim/engine"
	"verifsim/genrun"
	"verifsim/ref"
	"verifsim/rng"
	"verifsim/workload"
)

// C19: the generator on Unicode data of other versions than the shipped one.

// dataPlan assigns classes to code points, writes them down as Unicode data
// files in some style, has the generator make a table of these, and the
// library segment texts with it.
type dataPlan struct {
	Small bool        `json:"small,omitempty"` // start from ASCII alone, not from Unicode 17
	Bare  int         `json:"bare,omitempty"`  // 1, 2: without the properties of the first 64 or 128 code points
	Echo  int         `json:"echo,omitempty"`  // the block here has the properties of the first block
	Over  []over      `json:"over,omitempty"`  // then these ranges are changed
	Style uint64      `json:"style"`           // how the files are written
	Seed  uint64      `json:"seed"`            // of the texts
	Sweep bool        `json:"sweep,omitempty"` // look at every code point
	Cps   []int       `json:"cps,omitempty"`   // look at these only
	Proc  genrun.Proc `json:"proc"`
}

type over struct {
	Lo    int   `json:"lo"`
	Hi    int   `json:"hi"`
	Class uint8 `json:"class"`
}

func isSurr(c int) bool { return c >= 0xd800 && c <= 0xdfff }

func (p *dataPlan) classes() *ref.Classes {
	t := ref.Shipped()
	if p.Small {
		clear(t[128:])
	}
	if p.Echo > 0 {
		copy(t[p.Echo*64:], t[:64])
	}
	clear(t[:64*p.Bare])
	for _, o := range p.Over {
		for c := max(o.Lo, 128); c <= min(o.Hi, 0x10ffff); c++ {
			t[c] = o.Class
		}
	}
	return t
}

// skip says which code points are in no text, because a library may well know
// that ASCII does not change.
func (p *dataPlan) skip(c int, t *ref.Classes) bool {
	if isSurr(c) || c < 0 || c > 0x10ffff {
		return true
	}
	if g := ref.GCB(t[c]); c >= 128 && (g == ref.CR || g == ref.LF) {
		return true
	}
	return p.Bare > 0 && (c < 32 || c == 127)
}

// size measures a table for the classes: blocks with properties, and distinct
// blocks of properties and of indices.
func size(t *ref.Classes) (used, props, indices int) {
	pb, ib := map[string]int{}, map[string]bool{}
	id := make([]int, 0x110000/64)
	for i := range id {
		b := string(t[i*64 : i*64+64])
		if _, ok := pb[b]; !ok {
			pb[b] = len(pb)
		}
		id[i] = pb[b]
		if strings.Trim(b, "\x00") != "" {
			used++
		}
	}
	for i := 0; i < len(id); i += 64 {
		ib[fmt.Sprint(id[i:i+64])] = true
	}
	return used, len(pb), len(ib)
}

// modest data is no larger than a few more versions of Unicode would be; a
// generator must cope with it.
func modest(t *ref.Classes) bool {
	u, p, i := size(t)
	return u < 1000 && p < 250 && i < 200
}

// style writes the files.
func (p *dataPlan) files(t *ref.Classes) map[string][]byte {
	r := rng.New(p.Style, 1900)
	nl := "\n"
	if r.N(4) == 0 {
		nl = "\r\n"
	}
	split := []int{0, 0, 40, 4}[r.N(4)]
	order := r.N(3)
	comment := r.N(4)
	extra := rng.New(p.Style, 1903)
	words, longs := extra.N(4) == 0, extra.N(3) == 0
	word := func() string {
		return strings.Map(func(x rune) rune {
			if x == '\n' || x == '\r' {
				return ' '
			}
			return x
		}, workload.Word(extra))
	}
	var out [3][]string
	put := func(file, lo, hi int, val string) {
		for lo <= hi {
			z := hi
			if split > 0 && r.N(split) == 0 && lo < hi {
				z = lo + r.N(hi-lo)
			}
			s := fmt.Sprintf("%04X..%04X", lo, z)
			if lo == z && (split == 0 || r.N(3) > 0) {
				s = fmt.Sprintf("%04X", lo)
			}
			switch comment {
			case 0:
				s += "; " + val
			case 1:
				s = fmt.Sprintf("%-14s; %s # Mn", s, val)
			default:
				s = fmt.Sprintf("%-14s; %s # Lo [%d] NAME OF; THE..CHARACTER", s, val, z-lo+1)
			}
			if words && extra.N(20) == 0 {
				s += " # " + word() + " ; " + word()
			}
			if longs && extra.N(400) == 0 {
				n := workload.Size(extra, []int{600, 9000, 60000}[extra.N(3)])
				s += " # " + strings.Repeat(" 0041..005A ; Extend #", n/21)
			}
			out[file] = append(out[file], s)
			lo = z + 1
		}
	}
	emit := func(file int, val func(uint8) string) {
		lo := 0
		for c := 1; c <= 0x110000; c++ {
			if c < 0x110000 && val(t[c]) == val(t[lo]) {
				continue
			}
			if v := val(t[lo]); v != "" {
				put(file, lo, c-1, v)
			}
			lo = c
		}
	}
	emit(1, func(k uint8) string {
		switch g := ref.GCB(k); g {
		case ref.None, ref.ExtPict:
			return ""
		case ref.RI:
			return "Regional_Indicator"
		default:
			return ref.GCBName[g]
		}
	})
	emit(2, func(k uint8) string {
		if ref.GCB(k) == ref.ExtPict {
			return "Extended_Pictographic"
		}
		return ""
	})
	emit(0, func(k uint8) string {
		return []string{"", "InCB; Consonant", "InCB; Extend", "InCB; Linker"}[ref.InCB(k)]
	})
	for i, n := 0, r.N(60); i < n; i++ { // what the generator has no use for
		lo := r.N(0x110000)
		hi := min(0x10ffff, lo+r.N(3000))
		put(0, lo, hi, []string{"Alphabetic", "Uppercase", "Grapheme_Link", "Grapheme_Extend", "XID_Continue"}[r.N(5)])
		put(2, lo, hi, []string{"Emoji", "Emoji_Presentation", "Emoji_Modifier", "Emoji_Component"}[r.N(4)])
	}
	if words {
		for i := extra.N(20); i > 0; i-- {
			lo := extra.N(0x110000)
			v := strings.Map(func(x rune) rune {
				if x < 'A' || x > 'z' {
					return -1
				}
				return x
			}, workload.Word(extra))
			if v == "InCB" || v == "Extended_Pictographic" {
				v = "Emoji"
			}
			put(0, lo, min(0x10ffff, lo+extra.N(100)), v+[]string{"", "; Y"}[extra.N(2)])
			put(2, lo, min(0x10ffff, lo+extra.N(100)), v)
		}
		for i := extra.N(4); i > 0; i-- { // the default value, spelt out
			lo := 0x80 + extra.N(0x10ff00)
			hi := lo
			for hi < 0x10ffff && hi < lo+90 && ref.GCB(t[hi]) == ref.None && ref.GCB(t[hi+1]) == ref.None {
				hi++
			}
			if ref.GCB(t[lo]) == ref.None {
				put(1, lo, hi, "Other")
			}
		}
	}
	res := map[string][]byte{}
	for f, l := range out {
		switch order {
		case 1:
			sort.SliceStable(l, func(i, j int) bool { return l[i][strings.IndexByte(l[i], ';'):] < l[j][strings.IndexByte(l[j], ';'):] })
		case 2:
			for i := range l {
				j := i + r.N(len(l)-i)
				l[i], l[j] = l[j], l[i]
			}
		}
		var b bytes.Buffer
		b.WriteString("# " + filepath.Base(names[f]) + nl + "# @missing: 0000..10FFFF; Other" + nl + nl)
		if extra.N(4) == 0 { // a file that begins with a text
			for n := workload.Size(extra, []int{5000, 70000, 1 << 20}[extra.N(3)]); b.Len() < n; {
				b.WriteString("# 0041..005A ; Extend # from the licence of these data files" + nl)
			}
		}
		for i, x := range l {
			if comment > 1 && r.N(30) == 0 {
				b.WriteString(nl + "# ========" + nl + "# Total code points: 12; 0041..005A" + nl)
			}
			b.WriteString(x)
			if i < len(l)-1 || order != 2 {
				b.WriteString(nl)
			}
		}
		if order != 2 {
			b.WriteString(nl + "# EOF" + nl)
		}
		res["ucd/"+names[f]] = b.Bytes()
	}
	return res
}

// texts to segment: the code points near every edge of a range, and others,
// each among neighbours that tell its classes apart; and mixtures.
func (p *dataPlan) texts(t *ref.Classes) (list [][]byte, about []int) {
	r := rng.New(p.Seed, 1901)
	var reps [64]int // one code point of each class
	for i := range reps {
		reps[i] = -1
	}
	seen := [256]int{}
	for c := 0; c < 0x110000; c++ {
		if k := t[c]; !p.skip(c, t) {
			if seen[k]++; r.N(seen[k]) == 0 {
				reps[k&63] = c
			}
		}
	}
	rep := func(g, in uint8) int { return reps[g|in<<4] }
	ctx := [][]int{ // 0 stands for the code point, -1: no such code point here
		{'a', 0, 'a'}, {0, 0}, {'\r', 0, '\n'},
		{rep(ref.L, 0), 0, rep(ref.V, 0)}, {rep(ref.V, 0), 0, rep(ref.T, 0)}, {rep(ref.LVT, 0), 0, rep(ref.LV, 0)},
		{rep(ref.RI, 0), 0, rep(ref.RI, 0)},
		{rep(ref.ExtPict, 0), rep(ref.ZWJ, ref.IExt), 0, rep(ref.ZWJ, ref.IExt), rep(ref.ExtPict, 0)},
		{rep(ref.None, ref.ICons), rep(ref.Extend, ref.ILink), 0, rep(ref.None, ref.ICons)},
		{rep(ref.None, ref.ICons), 0, rep(ref.None, ref.ICons)},
		{0, rep(ref.Extend, ref.ILink), rep(ref.None, ref.ICons)},
		{rep(ref.ExtPict, 0), 0, rep(ref.ExtPict, 0)},
	}
	one := func(c int) {
		if p.skip(c, t) {
			return
		}
		var b []byte
		for _, x := range ctx {
			for _, y := range x {
				if y == 0 {
					y = c
				}
				if y > 0 && !p.skip(y, t) {
					b = utf8.AppendRune(b, rune(y))
				}
			}
			if p.Bare == 0 {
				b = append(b, '\n')
			}
		}
		list, about = append(list, b), append(about, c)
	}
	if p.Cps != nil {
		for _, c := range p.Cps {
			one(c)
		}
		return
	}
	var edge []int
	near := func(c int) {
		for d := -2; d <= 2; d++ {
			edge = append(edge, c+d)
		}
	}
	for c := 1; c < 0x110000; c++ {
		if t[c] != t[c-1] {
			near(c)
		} else if c%64 == 0 && t[c] != 0 {
			edge = append(edge, c-1, c)
		}
	}
	for _, c := range []int{0x80, 0x800, 0xd800, 0xe000, 0xfffd, 0x10000, 0x40000, 0xc0000, 0x10ffff} {
		near(c)
	}
	for i := 0; i < 0x110000; i += 64 * (1 + r.N(9)) {
		edge = append(edge, i+r.N(64))
	}
	sort.Ints(edge)
	last := -1
	for _, c := range edge {
		if c != last {
			one(c)
		}
		last = c
	}
	for i := 0; i < 1500; i++ {
		var b []byte
		for k := r.In(2, 30); k > 0; k-- {
			c := edge[r.N(len(edge))]
			if r.N(2) == 0 {
				c = reps[r.N(64)]
			}
			if !p.skip(c, t) {
				b = utf8.AppendRune(b, rune(c))
			}
		}
		list, about = append(list, b), append(about, -1)
	}
	if p.Sweep {
		x := rep(ref.None, ref.ICons)
		for c := 128; c < 0x110000; c += 64 {
			if isSurr(c) {
				continue
			}
			b := []byte("a")
			for k := c; k < c+64; k++ {
				if p.skip(k, t) {
					continue
				}
				b = utf8.AppendRune(b, rune(k))
				b = append(b, 'a')
				if x > 0 {
					b = utf8.AppendRune(utf8.AppendRune(b, rune(k)), rune(x))
				}
			}
			list, about = append(list, b), append(about, -1)
		}
	}
	return
}

// sameGCB lists the classes that share their Grapheme_Cluster_Break with others.
var sameGCB = func() (l [][]uint8) {
	by := map[uint8][]uint8{}
	for _, k := range ref.Combos {
		if g := ref.GCB(k); g != ref.CR && g != ref.LF {
			by[g] = append(by[g], k)
		}
	}
	for g := uint8(0); g < 16; g++ {
		if len(by[g]) > 1 {
			l = append(l, by[g])
		}
	}
	return l
}()

var builder *buildtab.Builder

func loadFaithful() (err error) {
	if err := load(); err != nil {
		return err
	}
	r := os.Getenv("VERIF_REPO")
	if r == "" {
		r = "/repo"
	}
	builder, err = buildtab.New(os.Getenv("VERIF_GO"), os.Getenv("VERIF_SIM"), r)
	return err
}

func c19() *engine.Check {
	return &engine.Check{
		ID: "C19", Title: "regeneration is faithful to the data",
		Runs: map[string]int{"quick": 320, "thorough": 9000}, Batch: 5,
		Setup: loadFaithful,
		New:   func() any { return &dataPlan{} },
		Gen: func(r *rng.R, seed uint64, idx int, tier string) any {
			p := &dataPlan{Small: r.N(3) == 0, Style: r.U64() >> 16, Seed: r.U64() >> 16, Sweep: r.N(6) == 0, Proc: genrun.Proc{ReadMode: r.N(3), Seed: r.U64() >> 16}}
			large := r.N(25) == 0
			switch rr := rng.New(p.Seed, 1904); rr.N(12) {
			case 0:
				p.Bare = 1 + rr.N(2)
			case 1:
				p.Echo = rr.In(2, 0x110000/64-1)
			}
			n := []int{1, 6, 30, 120}[r.N(4)]
			size := []int{3, 64, 300, 5000, 40000}[r.N(5)]
			for i := 0; i < n; i++ {
				lo := r.N(0x110000)
				switch r.N(6) {
				case 0:
					lo = r.N(0x3000)
				case 1:
					lo = r.N(0x440) * 4096
				case 2:
					lo = []int{0x80, 0x800, 0xd800, 0xe000, 0xfffd, 0x10000, 0x40000, 0x100000, 0x10ffff}[r.N(9)]
				case 3:
					lo = 0xa0000 + r.N(0x5000)
				}
				if r.N(10) == 0 {
					lo = workload.Num(r, 0x10ffff)
				}
				if r.N(2) == 0 {
					lo -= r.N(5)
				}
				hi := lo + r.N(size)
				if r.N(12) == 0 {
					hi = lo + workload.Num(r, 40000)
				}
				if r.N(3) == 0 {
					hi = lo | 63
				}
				k := ref.Combos[r.N(len(ref.Combos))]
				if g := ref.GCB(k); g == ref.CR || g == ref.LF {
					k = ref.Extend
				}
				if r.N(8) == 0 {
					k = 0
				}
				p.Over = append(p.Over, over{max(lo, 128), min(hi, 0x10ffff), k})
			}
			for i := r.N(5) - 2; i > 0; i-- { // wide runs of one property, with islands that differ in another
				w := []int{64, 4096, 4096, 8192}[r.N(4)]
				lo := r.In(4, 0x110000/w-1) * w
				hi := lo + w - 1
				if r.N(3) == 0 {
					lo -= r.N(70)
					hi += r.N(70)
				}
				of := sameGCB[r.N(len(sameGCB))]
				p.Over = append(p.Over, over{max(lo, 128), min(hi, 0x10ffff), of[r.N(len(of))]})
				for k := r.In(1, 4); k > 0; k-- {
					x := lo + r.N(w)
					p.Over = append(p.Over, over{max(x, 128), min(0x10ffff, x+r.N([]int{1, 3, 100}[r.N(3)])), of[r.N(len(of))]})
				}
			}
			for !large && len(p.Over) > 0 && !modest(p.classes()) {
				p.Over = p.Over[:len(p.Over)*3/4]
			}
			return p
		},
		Exec: faithful,
		Shrink: func(pl any, try func(any) bool) any {
			p := *pl.(*dataPlan)
			left := 60
			attempt := func(f func(q *dataPlan)) bool {
				if left--; left < 0 {
					return false
				}
				q := p
				q.Over = append([]over(nil), p.Over...)
				f(&q)
				if try(&q) {
					p = q
					return true
				}
				return false
			}
			attempt(func(q *dataPlan) { q.Sweep = false })
			attempt(func(q *dataPlan) { q.Bare, q.Echo = 0, 0 })
			attempt(func(q *dataPlan) { q.Small = true })
			attempt(func(q *dataPlan) { q.Proc = genrun.Proc{} })
			for ch := len(p.Over); ch >= 1; ch /= 2 {
				for i := 0; i+ch <= len(p.Over); {
					if !attempt(func(q *dataPlan) { q.Over = append(q.Over[:i], q.Over[i+ch:]...) }) {
						i += ch
					}
				}
			}
			for i := range p.Over {
				for k := 0; k < 12; k++ {
					o := p.Over[i]
					if o.Hi == o.Lo || !(attempt(func(q *dataPlan) { q.Over[i].Hi = (o.Lo + o.Hi) / 2 }) || attempt(func(q *dataPlan) { q.Over[i].Lo = (o.Lo + o.Hi + 1) / 2 })) {
						break
					}
				}
			}
			return &p
		},
		Rule: "a run is one set of data files: an assignment of the classes Unicode uses (from Unicode 17 or from ASCII alone, with up to 120 ranges changed), written in some style and line order and read under some schedule. The library built with the generated table then segments texts around every edge of a range, compared with the reference model under the same assignment. Distinct by data; non-trivial: a table came out.",
		Real: append([]string{"Go's compiler and linker on the library with the generated table", "textseg"}, fsReal...), Stub: fsStub,
		Assume: []string{"Only combinations of properties that occur in Unicode 17 are assigned. The properties of ASCII stay or are missing altogether; then no text contains the control characters concerned.", "Data that needs more than 1000 blocks of 64 code points with properties, 250 distinct ones or 200 distinct blocks of indices may be refused."},
	}
}

func faithful(pl any, c *engine.Ctx) *engine.Violation {
	p := pl.(*dataPlan)
	t := p.classes()
	in := p.files(t)
	r, err := genrun.Run(self, p.Proc, in)
	if err != nil {
		fatal(err)
	}
	c.Add("generator processes", 1)
	c.Add("file operations", r.Ops)
	if p.Proc.ReadMode > 0 {
		c.Add("fault:short reads (processes)", 1)
	}
	c.Mix(r.Digest)
	c.Mix(uint64(r.Exit))
	table, ok := r.Files[genrun.Table]
	if r.Exit != 0 {
		c.Add("data refused", 1)
		if modest(t) {
			return engine.V("refused", "the generator fails on well-formed data, exit status %d: %s", r.Exit, clip(r.Stderr))
		}
		return nil
	}
	if !ok {
		return engine.V("no-table", "exit status 0 and no table")
	}
	c.MixBytes(table)
	dir, err := os.MkdirTemp("", "verifsim")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	diag, err := builder.Build(dir, table)
	if err != nil {
		fatal(err)
	}
	if diag != "" {
		return engine.V("table-does-not-compile", "the library does not compile with the table: %s", strings.Join(strings.Fields(diag), " "))
	}
	list, about := p.texts(t)
	var buf []byte
	for _, x := range list {
		buf = append(binary.AppendUvarint(buf, uint64(len(x))), x...)
	}
	out, errs, err := buildtab.Exec(dir, buf)
	if err != nil {
		return engine.V("broken", "segmenting with the table ends in %v: %s", err, clip(errs))
	}
	rd := bufio.NewReader(bytes.NewReader(out))
	for i, x := range list {
		n, _ := binary.ReadUvarint(rd)
		got := make([]int, 0, n)
		for ; n > 0; n-- {
			e, _ := binary.ReadUvarint(rd)
			got = append(got, int(e))
		}
		want, _ := ref.TokensBy(x, t)
		for k := 0; ; k++ {
			if k == len(got) && k == len(want) {
				break
			}
			if k < len(got) && k < len(want) && got[k] == want[k] {
				continue
			}
			if errs != "" {
				return engine.V("broken", "segmenting with the table: %s", clip(errs))
			}
			from := 0
			if k > 0 {
				from = want[k-1]
			}
			to := len(x)
			if k < len(want) {
				to = want[k]
			}
			s := ""
			for _, ch := range string(x[from:min(len(x), to+4)]) {
				s += fmt.Sprintf(" U+%04X(%s)", ch, ref.ClassName(t[ch]))
			}
			g := 0
			if k < len(got) {
				g = got[k] - from
			}
			sub := ""
			if about[i] >= 0 {
				sub = fmt.Sprintf(" (looking at U+%04X, %s in the data)", about[i], ref.ClassName(t[about[i]]))
			}
			return engine.V("unfaithful-table", "with the table made of this data a cluster of%s has %d bytes, by the rules %d%s", s, g, to-from, sub)
		}
	}
	c.Add("texts segmented", len(list))
	c.Add("code points looked at", len(list)-1500)
	u, props, idx := size(t)
	c.Distinct(hash(p.Small, p.Bare, p.Echo, p.Over, p.Style))
	c.Sample("small=%v, %d ranges changed: %d used blocks, %d distinct, %d of indices; %d lines; %d texts, all as the rules say", p.Small, len(p.Over), u, props, idx, bytes.Count(in["ucd/"+names[1]], []byte("\n")), len(list))
	return nil
}
