// The simulator of the autoversion module (C10-C12). It is built once per Go
// release under test; the batches alternate between the builds.
package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"runtime"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	auto "github.com/apparentlymart/go-textseg/autoversion/textseg"
	v15 "github.com/apparentlymart/go-textseg/v15/textseg"
	v17 "github.com/apparentlymart/go-textseg/v17/textseg"

	"verifsim/engine"
	"verifsim/hook"
	"verifsim/ref"
	"verifsim/rng"
	"verifsim/stream"
	"verifsim/workload"
)

var versions = map[int]stream.Split{15: v15.ScanGraphemeClusters, 17: v17.ScanGraphemeClusters}

// major is the Unicode major version of this build's standard library.
func major() int {
	s, _, _ := strings.Cut(unicode.Version, ".")
	n, _ := strconv.Atoi(s)
	return n
}

func main() { engine.Main(c10(), c11(), c12()) }

func hash(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%v", parts)
	return h.Sum64()
}

func account(c *engine.Ctx, d *stream.Delivery, o *stream.Outcome) {
	c.Add("passes", 1)
	c.Add("bytes_delivered", len(o.Rd.Delivered()))
	c.Add("tokens", len(o.Ends))
	c.Add("reads", o.Rd.Reads)
	c.Add("sim_ms", o.Rd.Ms)
	for k, v := range o.Rd.Fault {
		c.Add("fault:"+k, v)
	}
	if d.FailAt >= 0 {
		c.Add("fault:cut-short", 1)
	}
	c.MixInts(o.Ends)
	c.Mix(uint64(o.Calls))
}

func rel() string {
	v := runtime.Version()
	if p := strings.Split(v, "."); len(p) > 1 {
		return p[0] + "." + p[1]
	}
	return v
}

func genText(r *rng.R, big bool) []byte {
	s := workload.NewStyle(r)
	s.Invalid = []int{0, 0, 4, 20}[r.N(4)]
	s.Weird = []int{0, 0, 5, 30}[r.N(4)]
	switch {
	case r.N(12) == 0:
		if r.N(10) == 0 {
			return workload.Mixed(r, r.In(100, 5000), s.Invalid+s.Weird > 0)
		}
		return workload.Raw(r, r.In(1, 300))
	case r.N(30) == 0:
		if r.N(10) == 0 {
			return workload.Long(r, workload.Size(r, 1<<[]int{15, 17, 20, 21, 21}[r.N(5)]))
		}
		return workload.Long(r, r.In(100, 9000))
	case r.N(40) == 0: // of a size at which someone may have drawn a line
		max := 6000
		if r.N(60) == 0 {
			max = 1 << []int{17, 18, 20, 21}[r.N(4)]
		}
		return workload.Sized(r, workload.Text(r, s, r.In(1, 40)), workload.Size(r, max), s.Invalid+s.Weird > 0)
	case big && r.N(8) == 0:
		return workload.Text(r, s, r.In(500, 5000))
	}
	return workload.Text(r, s, r.In(1, []int{3, 10, 30, 100}[r.N(4)]))
}

func delivery(r *rng.R, text []byte) stream.Delivery {
	ends, _ := ref.Tokens(text)
	long, prev := 0, 0
	for _, e := range ends {
		long = max(long, e-prev)
		prev = e
	}
	d := stream.GenDelivery(r, len(text), nil, long)
	if d.Cons == "scanner" && d.Cap == 0 && len(text) > 60000 && r.N(4) > 0 {
		d.Cap, d.Max = 512, 1<<22
	}
	if r.N(map[bool]int{false: 2, true: 8}[len(text) > 60000]) == 0 {
		d.End = []string{stream.Err, stream.ErrData, stream.ErrUnexp, stream.Stuck, stream.EOF, stream.EOFData}[r.N(6)]
		if r.N(3) > 0 {
			d.FailAt = r.N(len(text) + 1)
		}
	}
	return d
}

func longDiffers(a, b *stream.Outcome) bool {
	return fmt.Sprint(a.Ends) != fmt.Sprint(b.Ends) || !bytes.Equal(a.Cat, b.Cat) || a.Err != b.Err || (a.Bad == "") != (b.Bad == "")
}

func clip(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

// ---------------------------------------------------------------- C10

type plan10 struct {
	Text engine.Hex      `json:"text"`
	Del  stream.Delivery `json:"delivery"`
	// Interleave two versions' streams token by token.
	Other engine.Hex `json:"other,omitempty"`
	Turns uint64     `json:"turns,omitempty"`
}

func c10() *engine.Check {
	const per = 32
	nb := (workload.NCP + per - 1) / per
	return &engine.Check{
		ID: "C10", Runs: map[string]int{"quick": 3*nb/2 + 60000, "thorough": 6*nb + 2000000}, Batch: 1500,
		Gen: func(r *rng.R, seed uint64, idx int, tier string) any {
			p := &plan10{}
			if lim := map[string]int{"quick": 3 * nb / 2, "thorough": 6 * nb}[tier]; idx < lim {
				// every code point, in the contexts that versions differ in
				dk := workload.NewDeck(seed, workload.NCP)
				var b []byte
				k := idx % nb
				for j := k * per; j < (k+1)*per && j < workload.NCP; j++ {
					b = workload.CPShort(r, b, workload.Scalar(dk.At(j)))
				}
				p.Text = b
				p.Del = stream.GenDelivery(r, len(b), nil, 0)
				return p
			}
			p.Text = genText(r, false)
			p.Del = delivery(r, p.Text)
			if p.Del.Cons == "scanner" && r.N(6) == 0 {
				p.Del.Max = r.In(1, 60)
				p.Del.Cap = r.In(1, p.Del.Max)
			}
			if r.N(3) == 0 {
				p.Other = genText(r, false)
				p.Turns = r.U64()
			}
			return p
		},
		New: func() any { return &plan10{} },
		Exec: func(pl any, c *engine.Ctx) *engine.Violation {
			p := pl.(*plan10)
			m := major()
			direct, ok := versions[m]
			if !ok {
				return engine.V("unknown-unicode-version", "no version-specific package for Unicode %s of %s", unicode.Version, runtime.Version())
			}
			if auto.UnicodeMajorVersion != m {
				return engine.V("wrong-advertised-version", "%s has Unicode %s, autoversion advertises %d", runtime.Version(), unicode.Version, auto.UnicodeMajorVersion)
			}
			c.Add("with_"+rel(), 1)
			a := stream.Run(p.Text, &p.Del, auto.ScanGraphemeClusters, stream.Hooks{})
			b := stream.Run(p.Text, &p.Del, direct, stream.Hooks{})
			account(c, &p.Del, a)
			if longDiffers(a, b) {
				return engine.V("differs-from-its-version", "%s (Unicode %s): autoversion gives cluster ends %v, error %v %s; textseg v%d gives %v, error %v %s; text % x", rel(), unicode.Version, clipInts(a.Ends, b.Ends), a.Err, a.Bad, m, clipInts(b.Ends, a.Ends), b.Err, b.Bad, clip(p.Text))
			}
			if len(a.Ends) > 1 {
				c.Distinct(hash(p.Text, p.Del.Script, p.Del.Cons, p.Del.End, p.Del.FailAt, rel()))
			}
			if len(p.Other) > 0 {
				if v := p.lockstep(c, m); v != nil {
					return v
				}
			}
			if len(c.Samples) < 1 {
				c.Sample("%s, Unicode %d: %d bytes % x ... -> %d tokens, %s", rel(), m, len(p.Text), clip(p.Text), len(a.Ends), p.Del.Cons)
			}
			return nil
		},
		Shrink: func(pl any, try0 func(any) bool) any {
			p := *pl.(*plan10)
			try := func(q plan10) bool {
				if try0(&q) {
					p = q
					return true
				}
				return false
			}
			if len(p.Other) > 0 {
				q := p
				q.Other = nil
				try(q)
			}
			q := p
			q.Del = stream.Delivery{Cons: "whole", FailAt: -1}
			try(q)
			for ch := max(1, len(p.Text)/2); ch >= 1; ch /= 2 {
				for i := 0; i < len(p.Text); {
					q := p
					q.Text = append(append(engine.Hex(nil), p.Text[:i]...), p.Text[min(i+ch, len(p.Text)):]...)
					if !try(q) {
						i += ch
					}
				}
			}
			return &p
		},
		Rule: "a run is one byte string under one faulty delivery, segmented through autoversion and through the version-specific package chosen by unicode.Version, in builds with each supported Go release; a third also advance scanners of all versions in lockstep. The first runs meet every scalar value under every release. Non-trivial: at least two tokens; distinct by bytes, schedule, end and release.",
		Real: []string{"autoversion/textseg", "textseg v15 (as required by autoversion/go.mod)", "textseg v17 (this tree)", "bufio.Scanner"}, Stub: []string{"the sender and its transport", "time"},
		Assume: []string{"Go releases without a toolchain in this sandbox are not built"},
	}
}

func clipInts(v, w []int) []int {
	n := 0
	for n < len(v) && n < len(w) && v[n] == w[n] {
		n++
	}
	n = max(0, n-1)
	v = v[n:]
	if len(v) > 6 {
		v = v[:6]
	}
	return v
}

// lockstep advances one scanner per version on two texts in seeded turns.
func (p *plan10) lockstep(c *engine.Ctx, m int) *engine.Violation {
	r := rng.New(p.Turns)
	type run struct {
		sc   *bufio.Scanner
		name string
		got  []string
		want []string
		done bool
	}
	fns := []struct {
		name string
		f    stream.Split
	}{{"autoversion", auto.ScanGraphemeClusters}, {"v15", v15.ScanGraphemeClusters}, {"v17", v17.ScanGraphemeClusters}}
	var rs []*run
	for _, fn := range fns {
		for j, t := range [][]byte{p.Text, p.Other} {
			x := &run{name: fmt.Sprintf("%s on text %d", fn.name, j)}
			room := r.In(1, 64)
			mk := func() *bufio.Scanner {
				sc := bufio.NewScanner(bytes.NewReader(t))
				sc.Buffer(make([]byte, 0, room), 1<<22)
				sc.Split(bufio.SplitFunc(fn.f))
				return sc
			}
			// Alone, with the very same reads.
			for sc := mk(); sc.Scan(); {
				x.want = append(x.want, string(sc.Bytes()))
			}
			x.sc = mk()
			rs = append(rs, x)
		}
	}
	for left := len(rs); left > 0; {
		x := rs[r.N(len(rs))]
		if x.done {
			continue
		}
		if x.sc.Scan() {
			x.got = append(x.got, string(x.sc.Bytes()))
		} else {
			x.done = true
			left--
		}
	}
	c.Add("versions_in_lockstep", 1)
	for _, x := range rs {
		if strings.Join(x.got, "\x00|") != strings.Join(x.want, "\x00|") {
			return engine.V("versions-interfere", "%s: interleaved with other versions it gives %q, alone %q", x.name, clipS(x.got), clipS(x.want))
		}
	}
	return nil
}

func clipS(s []string) []string {
	if len(s) > 10 {
		return s[:10]
	}
	return s
}

// ---------------------------------------------------------------- C11

type plan11 struct {
	Text  engine.Hex `json:"text"`
	Base  string     `json:"base"`
	K     int        `json:"at_token"`
	Twist string     `json:"twist,omitempty"`
}

var errSplit = errors.New("injected split failure")

var bases = map[string]bufio.SplitFunc{
	"autoversion-graphemes": auto.ScanGraphemeClusters, "v17-graphemes": v17.ScanGraphemeClusters, "utf8": auto.ScanUTF8Sequences,
	"lines": bufio.ScanLines, "words": bufio.ScanWords, "runes": bufio.ScanRunes, "bytes": bufio.ScanBytes,
	"fixed7": func(d []byte, eof bool) (int, []byte, error) {
		if len(d) >= 7 {
			return 7, d[:7], nil
		}
		if eof && len(d) > 0 {
			return len(d), d, nil
		}
		return 0, nil, nil
	},
	"paragraphs": func(d []byte, eof bool) (int, []byte, error) { // long tokens, many growths of the buffer
		if i := bytes.Index(d, []byte("\n\n")); i >= 0 {
			return i + 2, d[:i], nil
		}
		if eof && len(d) > 0 {
			return len(d), d, nil
		}
		return 0, nil, nil
	},
}
var baseNames = []string{"autoversion-graphemes", "autoversion-graphemes", "v17-graphemes", "utf8", "lines", "words", "runes", "bytes", "fixed7", "paragraphs"}
var twists = []string{"", "", "", "error", "error-with-token", "final-token", "final-nil", "final-empty", "skip", "empty-token", "negative", "too-far", "own-buffer", "in-place", "substitute", "stop", "eof-tail"}

// splitter makes a fresh split function; its behaviour depends on the number
// of tokens delivered so far, never on how the bytes happen to be chunked.
func (p *plan11) splitter() bufio.SplitFunc {
	base := bases[p.Base]
	n := 0
	var own []byte
	return func(d []byte, eof bool) (int, []byte, error) {
		hook.Pass()
		adv, tok, err := base(d, eof)
		if err != nil || tok == nil {
			if p.Twist == "eof-tail" && eof && len(d) == 0 && n < p.K+3 && n > 0 { // one or more tokens after the end
				n++
				return 0, []byte("tail" + strconv.Itoa(n)), bufio.ErrFinalToken
			}
			return adv, tok, err
		}
		n++
		switch {
		case p.Twist == "own-buffer": // every token is handed out in the same memory
			own = append(own[:0], tok...)
			return adv, own, nil
		case p.Twist == "in-place": // rewrites its input, as it may
			for i := range tok {
				if 'a' <= tok[i] && tok[i] <= 'z' {
					tok[i] -= 32
				}
			}
			return adv, tok, nil
		}
		if n-1 != p.K {
			return adv, tok, nil
		}
		switch p.Twist {
		case "error":
			return 0, nil, errSplit
		case "error-with-token":
			return adv, tok, errSplit
		case "final-token":
			return adv, tok, bufio.ErrFinalToken
		case "final-nil":
			return adv, nil, bufio.ErrFinalToken
		case "final-empty":
			return adv, []byte{}, bufio.ErrFinalToken
		case "skip":
			return adv, nil, nil
		case "empty-token":
			return adv, []byte{}, nil
		case "negative":
			return -1, tok, nil
		case "too-far":
			return len(d) + 1, tok, nil
		case "substitute":
			return adv, []byte("substituted"), nil
		case "stop":
			return adv, tok, fmt.Errorf("wrapped: %w", errSplit)
		}
		return adv, tok, nil
	}
}

func c11() *engine.Check {
	return &engine.Check{
		ID: "C11", Runs: map[string]int{"quick": 90000, "thorough": 4000000}, Batch: 1500,
		Gen: func(r *rng.R, seed uint64, idx int, tier string) any {
			p := &plan11{Base: baseNames[r.N(len(baseNames))], Twist: twists[r.N(len(twists))]}
			switch r.N(30) {
			case 0:
				p.Text = nil
			case 1:
				for len(p.Text) < 4096*r.In(1, 4) {
					p.Text = append(p.Text, genText(r, true)...)
				}
			case 2:
				if r.N(20) == 0 { // beyond the scanner's limit
					p.Text = bytes.Repeat([]byte("long line without an end "), r.In(2500, 3000))
				} else {
					n := r.In(4090, 4100)
					p.Text = append(bytes.Repeat([]byte("x"), n), genText(r, false)...)
				}
			default:
				p.Text = genText(r, true)
			}
			if r.N(3) == 0 {
				for i := range p.Text {
					if p.Text[i] < 0x80 && r.N(6) == 0 {
						p.Text[i] = " \n\na"[r.N(4)]
					}
				}
			}
			p.K = r.N([]int{2, 10, 100, 2000}[r.N(4)])
			if len(p.Text) > 100 && r.N(4) == 0 {
				p.K = workload.Size(r, len(p.Text))
			}
			return p
		},
		New: func() any { return &plan11{} },
		Exec: func(pl any, c *engine.Ctx) *engine.Violation {
			p := pl.(*plan11)
			guard := func(what string, f func()) *engine.Violation {
				var v *engine.Violation
				func() {
					defer func() {
						hook.NoBudget()
						if x := recover(); x != nil {
							v = engine.V("panic", "%s: panic: %v", what, x)
						}
					}()
					hook.Budget(20_000_000_000)
					f()
				}()
				return v
			}
			// The oracle: a streaming consumer that notes each token as it comes.
			var want []string
			sc := bufio.NewScanner(bytes.NewReader(append([]byte(nil), p.Text...)))
			sc.Split(p.splitter())
			if v := guard("streaming", func() {
				for sc.Scan() {
					want = append(want, string(sc.Bytes()))
				}
			}); v != nil {
				return v
			}
			buf := append(make([]byte, 0, len(p.Text)+32), p.Text...)
			tail := buf[len(buf):cap(buf)]
			for i := range tail {
				tail[i] = 'T'
			}
			what := fmt.Sprintf("%s, split %s %s at token %d of %d bytes", rel(), p.Base, p.Twist, p.K, len(p.Text))
			var toks [][]byte
			var err error
			if v := guard("AllTokens: "+what, func() { toks, err = auto.AllTokens(buf, p.splitter()) }); v != nil {
				return v
			}
			c.Add("with_"+rel(), 1)
			if p.Twist != "" {
				c.Add("fault:split-"+p.Twist, 1)
			}
			c.Mix(uint64(len(toks)))
			if !sameErr(err, sc.Err()) {
				return engine.V("wrong-error", "AllTokens: %s: error %v, streaming gives %v", what, err, sc.Err())
			}
			if len(toks) != len(want) {
				return engine.V("wrong-tokens", "AllTokens: %s: %d tokens, streaming gives %d", what, len(toks), len(want))
			}
			for i := range toks {
				if string(toks[i]) != want[i] {
					return engine.V("wrong-tokens", "AllTokens: %s: token %d of %d is %q, streaming gives %q", what, i, len(toks), clip(toks[i]), clip([]byte(want[i])))
				}
			}
			if !bytes.Equal(buf, p.Text) {
				return engine.V("buffer-changed", "AllTokens: %s: the caller's buffer changed", what)
			}
			n := 0
			if v := guard("TokenCount: "+what, func() { n, err = auto.TokenCount(buf, p.splitter()) }); v != nil {
				return v
			}
			if n != len(want) {
				return engine.V("wrong-count", "TokenCount: %s: %d, streaming gives %d", what, n, len(want))
			}
			if !sameErr(err, sc.Err()) {
				return engine.V("wrong-error", "TokenCount: %s: error %v, streaming gives %v", what, err, sc.Err())
			}
			if !bytes.Equal(buf, p.Text) {
				return engine.V("buffer-changed", "TokenCount: %s: the caller's buffer changed", what)
			}
			for _, x := range tail {
				if x != 'T' {
					return engine.V("buffer-changed", "%s: memory beyond the caller's buffer changed", what)
				}
			}
			if len(want) > 1 {
				c.Distinct(hash(p.Text, p.Base, p.Twist, p.K, rel()))
			}
			c.Add("inputs_over_4096_bytes", len(p.Text)/4097)
			if sc.Err() != nil {
				c.Add("errors_reported", 1)
			}
			if len(c.Samples) < 1 {
				c.Sample("%s: %d tokens, error %v", what, len(want), sc.Err())
			}
			return nil
		},
		Shrink: func(pl any, try0 func(any) bool) any {
			p := *pl.(*plan11)
			try := func(q plan11) bool {
				if try0(&q) {
					p = q
					return true
				}
				return false
			}
			q := p
			q.Twist, q.K = "", 0
			try(q)
			for _, k := range []int{0, 1, 2, 5, 10} {
				if k < p.K {
					q := p
					q.K = k
					if try(q) {
						break
					}
				}
			}
			for ch := max(1, len(p.Text)/2); ch >= 1; ch /= 2 {
				for i := 0; i < len(p.Text); {
					q := p
					q.Text = append(append(engine.Hex(nil), p.Text[:i]...), p.Text[min(i+ch, len(p.Text)):]...)
					if !try(q) {
						i += ch
					}
				}
			}
			q = p
			q.Text = bytes.Repeat([]byte("a"), len(p.Text))
			try(q)
			return &p
		},
		Rule: "a run is one buffer and one split function (segmenters and the standard library's, twisted to fail, stop, skip, hand out shared memory, rewrite in place, or misbehave at one token), comparing AllTokens and TokenCount with a streaming consumer recording each token as it arrives. Non-trivial: at least two tokens; distinct by buffer, split function and release.",
		Real: []string{"autoversion AllTokens and TokenCount", "textseg v15 helpers", "bufio.Scanner"}, Stub: []string{"the split functions' faults"},
	}
}

func sameErr(a, b error) bool {
	return a == b || a != nil && b != nil && a.Error() == b.Error() && errors.Is(a, errSplit) == errors.Is(b, errSplit)
}

// ---------------------------------------------------------------- C12

type plan12 struct {
	Text engine.Hex      `json:"text"`
	Del  stream.Delivery `json:"delivery"`
}

func runeEnds(b []byte) (ends []int) {
	for i := 0; i < len(b); {
		_, n := utf8.DecodeRune(b[i:])
		i += n
		ends = append(ends, i)
	}
	return
}

func c12() *engine.Check {
	return &engine.Check{
		ID: "C12", Runs: map[string]int{"quick": 500000, "thorough": 12000000}, Batch: 3000,
		Gen: func(r *rng.R, seed uint64, idx int, tier string) any {
			p := &plan12{}
			switch r.N(6) {
			case 0: // the replacement character, and what looks like it
				for k := r.In(1, 8); k > 0; k-- {
					switch r.N(5) {
					case 0:
						p.Text = append(p.Text, "\ufffd"...)
					case 1:
						p.Text = append(p.Text, 0xef, 0xbf)
					case 2:
						p.Text = workload.Weird(r, p.Text)
					case 3:
						p.Text = workload.Bad(r, p.Text)
					default:
						p.Text = workload.Enc(p.Text, workload.Scalar(r.N(workload.NCP)))
					}
				}
			case 1:
				p.Text = workload.Raw(r, r.In(1, 60))
			case 2:
				dk := workload.NewDeck(seed, workload.NCP)
				for j := 0; j < 50; j++ {
					p.Text = workload.Enc(p.Text, workload.Scalar(dk.At(idx*50+j)))
				}
			default:
				p.Text = genText(r, false)
			}
			p.Del = delivery(r, p.Text)
			if p.Del.Cons == "scanner" && r.N(2) == 0 {
				p.Del.Max = r.In(4, 12)
				p.Del.Cap = r.In(1, p.Del.Max)
			}
			return p
		},
		New: func() any { return &plan12{} },
		Exec: func(pl any, c *engine.Ctx) *engine.Violation {
			p := pl.(*plan12)
			d := &p.Del
			if d.Cons == "scanner" && d.Cap == 0 && len(p.Text) > 60000 {
				d.Cap, d.Max = 64, 1<<20
			}
			sent := p.Text[:d.Delivered(len(p.Text))]
			want := runeEnds(sent)
			var viol *engine.Violation
			onRead := func(o *stream.Outcome, delivered int) {
				at := 0
				if len(o.Ends) > 0 {
					at = o.Ends[len(o.Ends)-1]
				}
				c.Add("stall_points", 1)
				if viol == nil && at < delivered && utf8.FullRune(sent[at:delivered]) {
					viol = engine.V("held-back", "%s: with %d bytes delivered the sequence at byte %d (% x) is complete but has not been reported", rel(), delivered, at, clip(sent[at:delivered]))
				}
			}
			o := stream.Run(p.Text, d, auto.ScanUTF8Sequences, stream.Hooks{OnRead: onRead})
			account(c, d, o)
			c.Add("with_"+rel(), 1)
			if viol != nil {
				return viol
			}
			if o.Bad != "" {
				return engine.V(o.Kind, "%s: %s", rel(), o.Bad)
			}
			if !bytes.Equal(o.Cat, sent) {
				return engine.V("bytes-lost", "%s: %d bytes delivered, tokens hold %d (error %v): % x / % x", rel(), len(sent), len(o.Cat), o.Err, clip(sent), clip(o.Cat))
			}
			if o.Err != d.EndErr() {
				return engine.V("wrong-error", "%s: consumer sees error %v, reader ended with %v", rel(), o.Err, d.EndErr())
			}
			if fmt.Sprint(o.Ends) != fmt.Sprint(want) {
				return engine.V("wrong-sequence", "%s: sequence ends %v, decoding gives %v for % x", rel(), clipInts(o.Ends, want), clipInts(want, o.Ends), clip(sent))
			}
			if len(want) > 1 {
				c.Distinct(hash(p.Text, d.Script, d.Cons, d.End, d.FailAt, d.Cap, d.Max, rel()))
			}
			if len(c.Samples) < 1 {
				c.Sample("%s: % x -> %d sequences, %s end=%q", rel(), clip(p.Text), len(want), d.Cons, d.End)
			}
			return nil
		},
		Shrink: func(pl any, try0 func(any) bool) any {
			p := *pl.(*plan12)
			try := func(q plan12) bool {
				if try0(&q) {
					p = q
					return true
				}
				return false
			}
			for _, d := range []stream.Delivery{{Cons: "whole", FailAt: -1}, {Cons: "scanner", FailAt: -1}, {Cons: "scanner", FailAt: -1, Cap: 4, Max: 4}} {
				q := p
				q.Del = d
				if try(q) {
					break
				}
			}
			for ch := max(1, len(p.Text)/2); ch >= 1; ch /= 2 {
				for i := 0; i < len(p.Text); {
					q := p
					q.Text = append(append(engine.Hex(nil), p.Text[:i]...), p.Text[min(i+ch, len(p.Text)):]...)
					if !try(q) {
						i += ch
					}
				}
			}
			if len(p.Del.Script) > 0 {
				q := p
				q.Del.Script = []stream.Ev{{N: 1}}
				try(q)
			}
			return &p
		},
		Rule: "a run is one byte string (U+FFFD, undecodable and weird bytes over-represented) under one faulty delivery, with scanner limits down to four bytes; the tokens must be the rune-by-rune encodings and, at every read, no complete sequence may be held back. Non-trivial: at least two sequences; distinct by bytes, schedule, end, limits and release.",
		Real: []string{"autoversion ScanUTF8Sequences", "textseg v15 ScanUTF8Sequences", "bufio.Scanner"}, Stub: []string{"the sender and its transport", "time"},
	}
}
