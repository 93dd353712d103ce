// The simulator of the Unicode data file parsers (C13, C14).
package main

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"unicode"

	"github.com/apparentlymart/go-textseg/v17/textseg/verifbridge/ucd"

	"verifsim/engine"
	"verifsim/hook"
	"verifsim/ref"
	"verifsim/rng"
	"verifsim/stream"
	"verifsim/workload"
)

func main() { engine.Main(c13(), c14()) }

// plan is one file read under one behaviour of its reader.
type plan struct {
	File string          `json:"file,omitempty"` // a shipped file, lines From..To
	From int             `json:"from,omitempty"`
	To   int             `json:"to,omitempty"`
	Text engine.Hex      `json:"text,omitempty"`
	Del  stream.Delivery `json:"delivery"`
}

var shipped = map[string][][]byte{}

func repo() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}

func load() error {
	for _, f := range []string{"DerivedCoreProperties.txt", "auxiliary/GraphemeBreakProperty.txt", "emoji/emoji-data.txt", "auxiliary/GraphemeBreakTest.txt"} {
		b, err := os.ReadFile(filepath.Join(repo(), "textseg/internal/charprops/ucd", f))
		if err != nil {
			continue // then there is nothing to read there
		}
		shipped[f] = bytes.SplitAfter(b, []byte("\n"))
	}
	return nil
}

func (p *plan) bytes() []byte {
	if p.File == "" {
		return p.Text
	}
	l := shipped[p.File]
	return bytes.Join(l[min(p.From, len(l)):min(p.To, len(l))], nil)
}

func hash(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%v", parts)
	return h.Sum64()
}

func delivery(r *rng.R, text []byte) stream.Delivery {
	var tears []int
	every := 1 + len(text)/20000
	for i, x := range text {
		if (x == '\n' || x == ';' || x >= 0x80) && (every == 1 || r.N(every) == 0) {
			tears = append(tears, i, i+1)
		}
	}
	d := stream.Delivery{FailAt: -1, Script: stream.GenScript(r, len(text), tears, 0), Scribble: r.N(3) == 0, Cons: "parser"}
	d.End = []string{stream.EOF, stream.EOF, stream.EOFData}[r.N(3)]
	if r.N(3) > 0 {
		d.End = []string{stream.Err, stream.ErrData, stream.ErrUnexp, stream.Stuck}[r.N(4)]
		if r.N(2) == 0 {
			d.Why = stream.WhyNames[r.N(len(stream.WhyNames))]
		}
		switch r.N(5) {
		case 0:
		case 1, 2:
			if len(tears) > 0 {
				d.FailAt = min(len(text), tears[r.N(len(tears))]+r.N(2))
			}
		default:
			d.FailAt = r.N(len(text) + 1)
		}
	}
	return d
}

// lines splits what was delivered into complete lines and an unfinished rest.
func lines(b []byte) (full []string, rest string) {
	s := string(b)
	for {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			return full, s
		}
		full = append(full, strings.TrimSuffix(s[:i], "\r"))
		s = s[i+1:]
	}
}

func trim(s string) string { return strings.Trim(s, " \t\r\v\f") }

func clip(s string) string {
	if len(s) > 160 {
		return s[:160] + "..."
	}
	return s
}

// pull runs the parser to its end, giving a description of every result in
// order. Errors that are not the reader's (malformed lines) count as results;
// one that is repeated over and over is where the parser stands still.
func pull(next func() (string, error), limit int) (got []string, errs []error, stands bool, bad string) {
	defer func() {
		hook.NoBudget()
		if x := recover(); x != nil {
			bad = fmt.Sprintf("panic: %v", x)
			if _, ok := x.(hook.StepLimit); ok {
				bad = "does not finish"
			}
		}
	}()
	hook.Budget(3_000_000_000)
	same := 0
	for {
		s, err := next()
		if err == nil {
			same = 0
			got = append(got, s)
			if len(got) > limit {
				return got, nil, false, "more results than the file has lines"
			}
			continue
		}
		if !isRead(err) {
			s = "error: " + err.Error()
			if len(got) > 0 && got[len(got)-1] == s {
				same++
			} else {
				same = 0
			}
			if got = append(got, s); same >= 8 {
				return got[:len(got)-same], nil, true, ""
			}
			if len(got) > limit+40 {
				return got, nil, true, ""
			}
			continue
		}
		errs = append(errs, err)
		if err != io.EOF { // it must stay
			for k := 0; k < 3; k++ {
				_, e := next()
				errs = append(errs, e)
			}
		}
		return
	}
}

func isRead(err error) bool {
	for _, e := range stream.Whys {
		if errors.Is(err, e) {
			return true
		}
	}
	return errors.Is(err, io.EOF) || errors.Is(err, stream.ErrInjected) || errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, io.ErrNoProgress)
}

// What a line of a file must give.
const (
	skip  = iota // nothing
	entry        // the entry
	wrong        // an error: it is malformed
)

type line struct {
	text string
	kind int
	long bool // so long that a parser may refuse it, and all after it
}

// judge compares the results with the model's, line by line.
func judge(c *engine.Ctx, p *plan, text []byte, next func(io.Reader) func() (string, error), parse func(string) (string, int)) *engine.Violation {
	d := &p.Del
	rd := stream.NewReader(text, d)
	sent := text[:d.Delivered(len(text))]
	full, rest := lines(sent)
	mk := func(l string) line {
		s, k := parse(l)
		return line{s, k, len(l) >= 65000}
	}
	var want []line
	for _, l := range full {
		want = append(want, mk(l))
	}
	opt := mk(strings.TrimSuffix(rest, "\r")) // what the unfinished last line may give before the error
	end := d.EndErr()
	if end == nil {
		end = io.EOF
		want = append(want, opt)
		opt = line{}
	}
	got, errs, stands, bad := pull(next(rd), len(full)+2)
	c.Add("files", 1)
	c.Add("bytes_delivered", len(rd.Delivered()))
	c.Add("entries", len(got))
	c.Add("sim_ms", rd.Ms)
	for k, v := range rd.Fault {
		c.Add("fault:"+k, v)
	}
	if d.FailAt >= 0 {
		c.Add("fault:cut-short", 1)
	}
	c.Mix(uint64(len(got)))
	c.Mix(hash(got))
	if bad != "" {
		return engine.V("broken", "%s", bad)
	}
	isErr := func(s string) bool { return strings.HasPrefix(s, "error: ") }
	i, entries := 0, 0
	for k, w := range want {
		if w.long || w.kind == wrong {
			c.Add("fault:"+map[bool]string{true: "long-line", false: "malformed-line"}[w.long], 1)
			if i < len(got) && isErr(got[i]) && (w.long || stands && i == len(got)-1) {
				c.Add("refused_for_good", 1)
				return nil // it refuses the line and says so
			}
		}
		if w.kind == skip {
			continue
		}
		if w.kind == entry {
			entries++
		}
		if i >= len(got) {
			what := "entries-lost"
			return engine.V(what, "only %d results were given before %v (%d bytes delivered, reader ended with %v); line %d of them must give %s", len(got), errs, len(sent), end, k, say(w))
		}
		if w.kind == wrong {
			if !isErr(got[i]) {
				return engine.V("wrong-entry", "result %d is %s, but line %d is malformed: an error is due", i, clip(got[i]), k)
			}
		} else if got[i] != w.text {
			return engine.V("wrong-entry", "result %d is %s, the file says %s (%d bytes delivered, reader ended with %v)", i, clip(got[i]), clip(w.text), len(sent), end)
		}
		i++
	}
	extra := got[i:]
	if opt.long && len(extra) > 0 && isErr(extra[0]) {
		c.Add("refused_for_good", 1)
		return nil
	}
	if end == io.EOF {
		if len(extra) > 0 {
			return engine.V("invented-entry", "after all %d entries another was yielded: %s", entries, clip(extra[0]))
		}
	} else if len(extra) > 0 {
		// The unfinished line before the failure may still be seen, as it is.
		if len(extra) > 1 || stands || !(opt.kind == entry && extra[0] == opt.text) && !(rest != "" && isErr(extra[0])) {
			return engine.V("invented-entry", "after all %d complete entries: %s (unfinished line %q)", entries, clip(strings.Join(extra, " | ")), clip(rest))
		}
		c.Add("unfinished_line_seen", 1)
	}
	for _, e := range errs {
		if !errors.Is(e, end) {
			return engine.V("wrong-error", "the reader ended with %v after %d of %d bytes, the parser reports %v", end, len(sent), len(text), errs)
		}
	}
	if end != io.EOF {
		c.Add("failures_reported", 1)
	}
	if entries > 0 {
		c.Distinct(hash(text, d.Script, d.End, d.FailAt))
	}
	if len(c.Samples) < 1 {
		c.Sample("%d bytes, %d reads, fail at %d, end %q: %d entries", len(text), len(d.Script), d.FailAt, d.End, entries)
	}
	return nil
}

func say(w line) string {
	if w.kind == wrong {
		return "an error"
	}
	return clip(w.text)
}

func shrink(pl any, try0 func(any) bool) any {
	p := *pl.(*plan)
	try := func(q plan) bool {
		if try0(&q) {
			p = q
			return true
		}
		return false
	}
	if p.File != "" {
		q := p
		q.Text, q.File = p.bytes(), ""
		if !try(q) {
			return &p
		}
	}
	cut := func(lo, hi int) bool {
		q := p
		q.Text = append(append(engine.Hex(nil), p.Text[:lo]...), p.Text[hi:]...)
		if f := q.Del.FailAt; f >= hi {
			q.Del.FailAt -= hi - lo
		} else if f > lo {
			q.Del.FailAt = lo
		}
		return try(q)
	}
	q := p
	q.Del.Script = nil
	try(q)
	q = p
	q.Del.Scribble = false
	try(q)
	ls := func() []int {
		o := []int{0}
		for i, x := range p.Text {
			if x == '\n' {
				o = append(o, i+1)
			}
		}
		if o[len(o)-1] != len(p.Text) {
			o = append(o, len(p.Text))
		}
		return o
	}
	for ch := max(1, len(ls())/2); ch >= 1; ch /= 2 {
		for i := 0; ; {
			o := ls()
			if i >= len(o)-1 {
				break
			}
			if !cut(o[i], o[min(i+ch, len(o)-1)]) {
				i += ch
			}
		}
	}
	for ch := max(1, len(p.Text)/4); ch >= 1 && len(p.Text) < 2000; ch /= 2 {
		for i := 0; i < len(p.Text); {
			if !cut(i, min(i+ch, len(p.Text))) {
				i += ch
			}
		}
	}
	return &p
}

func pick(r *rng.R, p *plan, files ...string) bool {
	f := files[r.N(len(files))]
	n := len(shipped[f])
	if n == 0 {
		return false
	}
	p.File = f
	if r.N(12) == 0 {
		p.From, p.To = 0, n
	} else {
		p.From = r.N(n)
		p.To = min(n, p.From+r.In(1, 200))
	}
	return true
}

// long is a comment around the length at which line readers give up.
func long(r *rng.R, mark string) string {
	n := 65536
	switch r.N(3) {
	case 0:
		n += r.In(-300, 300)
	case 1:
		n = r.In(60000, 140000)
	}
	body := []string{" 0041", "0041; Lo ", " 0041..005A ; x", " ;"}[r.N(4)]
	return mark + strings.Repeat(body, n/len(body))
}

// word is text for names and comments, without what ends them.
func word(r *rng.R) string {
	return strings.Map(func(x rune) rune {
		if x == '\n' || x == '\r' || x == '#' || x == ';' || x > 0x7f && unicode.IsSpace(x) {
			return -1 // (whether other white space is trimmed is left open)
		}
		return x
	}, workload.Word(r))
}

func sp(r *rng.R) string { return []string{"", " ", " ", "  ", "\t", "          "}[r.N(6)] }

// ---------------------------------------------------------------- C13

func genProps(r *rng.R) []byte {
	var b bytes.Buffer
	nl := "\n"
	if r.N(4) == 0 {
		nl = "\r\n"
	}
	names := []string{"Extend", "Prepend", "InCB", "Linker", "Consonant", "Extended_Pictographic", "Latin-1 Supplement", "x", "", "Lo", "Ärger", "CJK_二"}
	hex := func(n int) string {
		s := fmt.Sprintf("%04X", n)
		if r.N(8) == 0 {
			s = strings.ToLower(s)
		}
		return s
	}
	n := r.In(0, []int{3, 20, 80}[r.N(3)])
	if r.N(400) == 0 {
		n = workload.Size(r, []int{400, 5000, 5000, 60000}[r.N(4)])
	}
	malformed := 100
	if n > 300 && r.N(3) > 0 { // otherwise most long files would end early
		malformed = 40 * n
	}
	name := func() string {
		if r.N(10) == 0 {
			return word(r)
		}
		return names[r.N(len(names))]
	}
	wide := r.N(20) == 0 // many or long fields
	if r.N(30) == 0 {
		b.WriteString("\ufeff" + []string{"# a byte order mark", "0041..005A ; x # where none is", "Lo"}[r.N(3)] + nl)
	}
	for i := 0; i < n; i++ {
		if n > 300 && r.N(10) > 0 { // plain ones
			fmt.Fprintf(&b, "%04X;%s%s", workload.Scalar(r.N(workload.NCP)), name(), nl)
			continue
		}
		switch r.N(8) {
		case 0:
			b.WriteString("# " + names[r.N(len(names))] + "; not data" + nl)
		case 1:
			b.WriteString(sp(r) + nl)
		case 2:
			b.WriteString("# @missing: 0000..10FFFF; Other" + nl)
		default:
			lo := workload.Scalar(r.N(workload.NCP))
			if r.N(3) == 0 {
				lo = r.N(0x300)
			}
			switch r.N(24) {
			case 0, 1:
				lo = 0xd800 + r.N(0x800)
			case 2, 3:
				lo = max(0, workload.Num(r, 0x10ffff))
			}
			s := sp(r)
			if r.N(3) > 0 {
				s = ""
			}
			s += hex(lo)
			if r.N(2) == 0 {
				s += ".." + hex(min(0x10ffff, lo+r.N([]int{2, 100, 70000}[r.N(3)])))
			}
			s += sp(r)
			k := 1 + r.N(4)*r.N(2)
			if wide {
				k = workload.RunLen(r, 300) + 1
			}
			for ; k > 0; k-- {
				s += ";" + sp(r) + name() + sp(r)
				if wide && r.N(6) == 0 {
					s += strings.Repeat(name()+" ", workload.RunLen(r, 900))
				}
			}
			switch r.N(3) {
			case 0:
				s += "# So   [4] SOME NAME; with semicolon..and dots"
			case 1:
				if r.N(10) == 0 {
					s += "#" + word(r) + "; " + word(r)
				}
				if r.N(20) == 0 {
					s += "#" + strings.Repeat([]string{" very long comment", " 0041 ; Extend", "; Lo 00", "0041..", "; "}[r.N(5)], r.In(10, 3000))
				}
				if r.N(malformed+malformed/2) == 0 {
					s += long(r, "#")
				}
			}
			if r.N(malformed) == 0 { // a malformed line
				s = []string{"G041; Extend", "00Q1..00Q5 ; Lo", "0041..; Lo", "..0041; Lo", " ; Extend # nothing", "0041..ZZZZ ; InCB; Linker", "00 41; Lo", "0041.005A; Lo", "100000041; Lo", "0041..100000041; Lo",
					"110000; Lo", "FFFFFFFF; Lo", "0041..110000 ; Lo", "0042..0041; Lo", "10FFFF..10FFFE; InCB; Linker", "0041..FFFFFFFF ; Lo", "80000000..80000005; x", "0x41; Lo", "U+0041; Lo", "0041-005A; Lo", "0041...005A; Lo", "+41; Lo", "-41; Lo", "00_41; Lo", "\ufeff0041; Lo", "\xff0041; Lo", "0041\x00; Lo"}[r.N(27)]
				if r.N(3) == 0 {
					s = []string{badHex(r), "0041.." + badHex(r), badHex(r) + "..10FFFF"}[r.N(3)] + []string{"; Lo", " ; InCB; Linker # x"}[r.N(2)]
				}
			}
			b.WriteString(s + nl)
		}
	}
	out := b.Bytes()
	if len(out) > 0 && r.N(4) == 0 { // no newline at the end
		out = bytes.TrimRight(out, "\r\n")
	}
	return out
}

func parseProp(l string) (string, int) {
	if i := strings.IndexByte(l, '#'); i >= 0 {
		l = l[:i]
	}
	f := strings.Split(l, ";")
	if len(f) < 2 {
		return "", skip
	}
	lo, hi, ranged := strings.Cut(trim(f[0]), "..")
	if strings.ContainsAny(lo+hi, "+-") {
		return "", wrong
	}
	a, err := strconv.ParseInt(lo, 16, 32)
	if err != nil {
		return "", wrong
	}
	z := a
	if ranged {
		if z, err = strconv.ParseInt(hi, 16, 32); err != nil {
			return "", wrong
		}
	}
	if z < a || z > 0x10ffff {
		return "", wrong
	}
	var vs []string
	for _, x := range f[1:] {
		vs = append(vs, trim(x))
	}
	return fmt.Sprintf("[%X,%X) %q %q", a, z+1, vs[0], vs), entry
}

func c13() *engine.Check {
	return &engine.Check{
		ID: "C13", Runs: map[string]int{"quick": 80000, "thorough": 2000000}, Batch: 1000, Setup: load,
		Gen: func(r *rng.R, seed uint64, idx int, tier string) any {
			p := &plan{}
			if !(r.N(8) == 0 && pick(r, p, "DerivedCoreProperties.txt", "auxiliary/GraphemeBreakProperty.txt", "emoji/emoji-data.txt")) {
				p.Text = genProps(r)
			}
			p.Del = delivery(r, p.bytes())
			return p
		},
		New: func() any { return &plan{} }, Shrink: shrink,
		Exec: func(pl any, c *engine.Ctx) *engine.Violation {
			p := pl.(*plan)
			return judge(c, p, p.bytes(), func(rd io.Reader) func() (string, error) {
				next := ucd.Props(rd)
				return func() (string, error) {
					a, z, f, fs, err := next()
					return fmt.Sprintf("[%X,%X) %q %q", a, z, f, fs), err
				}
			}, parseProp)
		},
		Rule: "a run is one property file (generated, or lines of a shipped one) delivered under one schedule, two in three ending in a read failure, compared entry by entry with an independent parser. Non-trivial: at least one complete entry; distinct by bytes, schedule, end and failure offset.",
		Real: []string{"textseg/internal/charprops/ucdparse", "bufio.Scanner inside it"}, Stub: []string{"the file and its reader", "time"},
		Assume: []string{"an unfinished last line before a read failure may still be yielded as it stands; on a malformed line, or one over 64 KiB, an error that stays is accepted in place of what follows, end of file is not"},
	}
}

// ---------------------------------------------------------------- C14

func genTests(r *rng.R) []byte {
	var b bytes.Buffer
	nl := "\n"
	if r.N(4) == 0 {
		nl = "\r\n"
	}
	n := r.In(0, []int{3, 20, 60}[r.N(3)])
	if r.N(400) == 0 {
		n = workload.Size(r, []int{400, 3000, 3000, 30000}[r.N(4)])
	}
	malformed := 100
	if n > 300 && r.N(3) > 0 { // otherwise most long files would end early
		malformed = 40 * n
	}
	long1 := r.N(20) == 0 // long cases
	for i := 0; i < n; i++ {
		switch r.N(8) {
		case 0:
			b.WriteString("# comment ÷ 0020 ×" + nl)
		case 1:
			b.WriteString(nl)
		default:
			s := "÷"
			k := r.In(1, []int{3, 8, 40}[r.N(3)])
			if n > 300 {
				k = r.In(1, 4)
			} else if long1 && r.N(8) == 0 {
				k = 1 + workload.RunLen(r, 2500)
			}
			for ; k > 0; k-- {
				cp := workload.Member(r, ref.Combos[r.N(len(ref.Combos))])
				if x := workload.Num(r, 0x10ffff); r.N(20) == 0 && x >= 0 && (x < 0xd800 || x > 0xdfff) {
					cp = x
				}
				s += fmt.Sprintf(" %04X %s", cp, []string{"×", "÷"}[r.N(2)])
			}
			if !strings.HasSuffix(s, "÷") {
				s = strings.TrimSuffix(s, "×") + "÷"
			}
			switch r.N(3) {
			case 0:
				s += "\t#  ÷ [0.2] SPACE (Other) × [9.0] COMBINING DIAERESIS (Extend) ÷ [0.3]"
			case 1:
				s += "\t"
			case 2:
				if r.N(10) == 0 {
					s += " # " + word(r) + " ÷ " + word(r)
				}
			}
			if r.N(malformed+malformed/2) == 0 {
				s += long(r, " #")
			}
			if r.N(malformed) == 0 { // a malformed line
				s = []string{"÷ 0020 × 0G08 ÷ 0020 ÷", "÷ XYZ ÷ # comment", "÷ 0020 ÷ 00-41 ÷"}[r.N(3)]
				if r.N(2) == 0 {
					s = "÷ 0020 × " + badHex(r) + []string{" ÷", " × 0308 ÷", " ÷ 0020 ÷ # comment"}[r.N(3)]
				}
			}
			b.WriteString(s + nl)
		}
	}
	out := b.Bytes()
	if len(out) > 0 && r.N(4) == 0 {
		out = bytes.TrimRight(out, "\r\n")
	}
	return out
}

// badHex is no hexadecimal number, or one of more than 32 bits.
func badHex(r *rng.R) string {
	b := make([]byte, r.In(1, []int{4, 7, 20}[r.N(3)]))
	for i := range b {
		b[i] = "0123456789ABCDEF0000"[r.N(20)]
	}
	if len(b) > 9 && r.N(2) == 0 {
		b[0] = '1'
	} else {
		b[r.N(len(b))] = "GHOlQSXxZ_@`/:gz"[r.N(16)]
	}
	return string(b)
}

func parseTest(l string) (string, int) {
	if i := strings.IndexByte(l, '#'); i >= 0 {
		l = l[:i]
	}
	l = trim(l)
	if l == "" {
		return "", skip
	}
	var segs []string
	all, cur := "", ""
	for _, w := range strings.Fields(strings.NewReplacer("÷", " ÷ ", "×", " × ").Replace(l)) {
		switch w {
		case "÷":
			if cur != "" {
				segs = append(segs, cur)
			}
			cur = ""
		case "×":
		default:
			n, err := strconv.ParseInt(w, 16, 32)
			if err != nil {
				return "", wrong
			}
			cur += string(rune(n))
			all += string(rune(n))
		}
	}
	if cur != "" {
		segs = append(segs, cur)
	}
	return fmt.Sprintf("%q %q", all, segs), entry
}

func c14() *engine.Check {
	return &engine.Check{
		ID: "C14", Runs: map[string]int{"quick": 80000, "thorough": 1500000}, Batch: 1000, Setup: load,
		Gen: func(r *rng.R, seed uint64, idx int, tier string) any {
			p := &plan{}
			if !(r.N(8) == 0 && pick(r, p, "auxiliary/GraphemeBreakTest.txt")) {
				p.Text = genTests(r)
			}
			p.Del = delivery(r, p.bytes())
			return p
		},
		New: func() any { return &plan{} }, Shrink: shrink,
		Exec: func(pl any, c *engine.Ctx) *engine.Violation {
			p := pl.(*plan)
			type kept struct {
				in   []byte
				segs [][]byte
				was  string
			}
			var keep []kept
			v := judge(c, p, p.bytes(), func(rd io.Reader) func() (string, error) {
				next := ucd.Tests(rd)
				return func() (string, error) {
					in, segs, err := next()
					s := fmt.Sprintf("%q %q", in, segs)
					if err == nil {
						keep = append(keep, kept{in, segs, s})
					}
					return s, err
				}
			}, parseTest)
			if v != nil {
				return v
			}
			for i, k := range keep {
				if s := fmt.Sprintf("%q %q", k.in, k.segs); s != k.was {
					return engine.V("case-overwritten", "case %d was %s when yielded and is %s after later ones were read", i, clip(k.was), clip(s))
				}
				if !bytes.Equal(bytes.Join(k.segs, nil), k.in) {
					return engine.V("wrong-entry", "the segments of case %d do not concatenate to its input: %s", i, clip(k.was))
				}
			}
			c.Add("cases_kept_and_rechecked", len(keep))
			return nil
		},
		Rule: "a run is one break-test file (generated, or lines of the shipped one) delivered under one schedule, two in three ending in a read failure, compared case by case with an independent parser; all cases are kept and compared again at the end. Non-trivial: at least one complete case; distinct by bytes, schedule, end and failure offset.",
		Real: []string{"textseg/internal/charprops/ucdparse", "bufio.Scanner inside it"}, Stub: []string{"the file and its reader", "time"},
		Assume: []string{"an unfinished last line before a read failure may still be yielded as it stands, or be reported as malformed; on a malformed line, or one over 64 KiB, an error that stays is accepted in place of what follows, end of file is not"},
	}
}
