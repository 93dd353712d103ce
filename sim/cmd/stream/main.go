// The stream simulator: real segmentation code between a simulated sender and
// a simulated (or the real bufio.Scanner) consumer, for C01-C07 and C09.
package main

import (
	"bufio"
	"bytes"
	"fmt"
	"os"
	"sort"
	"unicode/utf8"

	"github.com/apparentlymart/go-textseg/v17/textseg"

	"verifsim/engine"
	"verifsim/ref"
	"verifsim/rng"
	"verifsim/stream"
	"verifsim/workload"
)

var split = textseg.ScanGraphemeClusters

var real = []string{"textseg.ScanGraphemeClusters", "textseg/internal/machine", "textseg/internal/charprops (lookup code and table)", "bufio.Scanner (Go standard library)"}
var stub = []string{"the sender and its transport (io.Reader)", "time", "the push-style consumer and its buffers"}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "ask" {
		ask()
	}
	engine.Main(c01(), c02(), c03(), c04(), c05(), c06(), c07(), c09(), c17())
}

// account records what a pass met.
func account(c *engine.Ctx, text []byte, d *stream.Delivery, o *stream.Outcome) {
	c.Add("passes", 1)
	c.Add("bytes_delivered", len(o.Rd.Delivered()))
	c.Add("tokens", len(o.Ends))
	c.Add("consultations", o.Calls)
	c.Add("reads", o.Rd.Reads)
	c.Add("sim_ms", o.Rd.Ms)
	c.Add("consumer_"+d.Cons, 1)
	for k, v := range o.Rd.Fault {
		c.Add("fault:"+k, v)
	}
	if d.FailAt >= 0 {
		c.Add("fault:cut-short", 1)
	}
	c.MixInts(o.Ends)
	c.Mix(uint64(o.Calls))
	c.Mix(uint64(o.Rd.Reads))
	c.MixBytes([]byte(fmt.Sprint(o.Err, o.Kind)))
}

// probes counts how a schedule tore the text.
func probe(c *engine.Ctx, text []byte, d *stream.Delivery, ends []int) {
	off, k := 0, 0
	for i, e := range d.Script {
		if i > 200 {
			break
		}
		off += e.N
		if off >= len(text) {
			break
		}
		for k < len(ends) && ends[k] < off {
			k++
		}
		switch {
		case !utf8.RuneStart(text[off]):
			c.Add("tear_inside_character", 1)
		case k < len(ends) && ends[k] == off:
			c.Add("tear_at_boundary", 1)
		default:
			c.Add("tear_inside_cluster", 1)
		}
	}
}

func pass(c *engine.Ctx, text []byte, d *stream.Delivery, h stream.Hooks) *stream.Outcome {
	o := stream.Run(text, d, split, h)
	account(c, text, d, o)
	return o
}

// whole segments complete bytes at rest with the code under test.
func whole(text []byte) *stream.Outcome {
	d := stream.Delivery{Cons: "whole", FailAt: -1}
	return stream.Run(text, &d, split, stream.Hooks{})
}

func bad(o *stream.Outcome, what string) *engine.Violation {
	if o.Bad == "" {
		return nil
	}
	return engine.V(o.Kind, "%s: %s", what, o.Bad)
}

func sample(c *engine.Ctx, p *Plan, ends []int) {
	if len(c.Samples) >= 2 {
		return
	}
	d := ""
	for i := range p.Dels {
		if i < 3 {
			d += "; " + describe(&p.Dels[i])
		}
	}
	c.Sample("text %s -> %d tokens%s", show(p.Text), len(ends), d)
}

// charOffs are the offsets inside and between characters, where tears matter.
func tornOffs(text []byte) []int {
	var t []int
	for i := range text {
		if text[i] >= 0x80 {
			t = append(t, i)
		}
	}
	return t
}

// text draws a text; kind selects the population.
func genText(r *rng.R, tier string, allowBad, allowWeird bool) ([]byte, string) {
	s := workload.NewStyle(r)
	if allowBad {
		s.Invalid = []int{0, 3, 10, 40}[r.N(4)]
	}
	if allowWeird {
		s.Weird = []int{0, 0, 5, 30}[r.N(4)]
	}
	switch r.N(40) {
	case 0:
		if allowWeird {
			return workload.Raw(r, r.In(1, 400)), "raw"
		}
	case 1:
		n := r.In(100, 9000)
		switch {
		case tier == "thorough" && r.N(10) == 0:
			n = r.In(60000, 200000)
			if r.N(40) == 0 {
				n = r.In(200000, 1200000)
			}
		case r.N(80) == 0:
			n = r.In(60000, 140000)
			if r.N(3) == 0 {
				n = workload.Size(r, 1<<[]int{17, 18, 20, 21}[r.N(4)])
			}
		}
		return workload.Long(r, n), "long-cluster"
	case 2:
		if (allowWeird || !allowBad) && r.N(3) == 0 {
			return workload.Mixed(r, r.In(100, 4000), allowWeird), "mixed"
		}
		return workload.Text(r, s, r.In(200, 3000)), "long-text"
	case 3:
		return workload.CPDoc(r, nil, workload.Scalar(r.N(workload.NCP))), "code-point"
	case 4:
		if r.N(8) == 0 {
			return nil, "empty"
		}
	case 5: // of a size at which someone may have drawn a line
		max := 9000
		if r.N(map[string]int{"quick": 25, "thorough": 60}[tier]) == 0 {
			max = 1 << []int{17, 18, 20, 21}[r.N(4)]
		}
		n := workload.Size(r, max)
		return workload.Sized(r, workload.Text(r, s, r.In(1, 40)), n, allowBad), "sized"
	}
	n := []int{1, 2, 3, 4, 6, 10, 20, 60}[r.N(8)]
	return workload.Text(r, s, r.In(1, n)), "text"
}

// ---------------------------------------------------------------- C01

const cpsPerRun = 64
const gramsPerRun = 1024

func c01() *engine.Check {
	nb := (workload.NCP + cpsPerRun - 1) / cpsPerRun
	k := len(ref.Combos)
	grams := func(tier string) (n, runs int) {
		n = 5
		if tier == "thorough" {
			n = 6
		}
		return n, (workload.Pow(k, n) + gramsPerRun - 1) / gramsPerRun
	}
	_, gq := grams("quick")
	_, gt := grams("thorough")
	return &engine.Check{
		ID: "C01", Runs: map[string]int{"quick": nb + gq + 12000, "thorough": nb*4 + gt + 400000}, Batch: 250,
		Gen: func(r *rng.R, seed uint64, idx int, tier string) any {
			p := &Plan{}
			n, gr := grams(tier)
			sweeps := 1
			if tier == "thorough" {
				sweeps = 4
			}
			switch {
			case idx < nb*sweeps:
				dk := workload.NewDeck(seed+uint64(idx/nb), workload.NCP)
				i := idx % nb * cpsPerRun
				var b []byte
				for j := i; j < i+cpsPerRun && j < workload.NCP; j++ {
					b = workload.CPDoc(r, b, workload.Scalar(dk.At(j)))
				}
				p.Text, p.Style = b, "code-points"
			case idx < nb*sweeps+gr:
				i := (idx - nb*sweeps) * gramsPerRun
				tot := workload.Pow(k, n)
				dk := workload.NewDeck(seed, tot)
				var b []byte
				for j := i; j < i+gramsPerRun && j < tot; j++ {
					b = workload.NGram(r, b, dk.At(j), n)
					if r.N(3) == 0 {
						b = append(b, '\n')
					}
				}
				p.Text, p.Style = b, "class-sequences"
			default:
				p.Text, p.Style = genText(r, tier, false, false)
				if tier == "quick" && r.N(400) == 0 {
					p.Text, p.Style = workload.Long(r, r.In(66000, 160000)), "long-cluster"
					if r.N(12) == 0 {
						p.Text = workload.Long(r, r.In(260000, 540000))
					}
				}
			}
			big := len(p.Text) > 4000
			for i := 0; i < 3; i++ {
				d := delivery(r, p.Text)
				if big && len(p.Dels) == 1 {
					break
				}
				if d.Cons == "scanner" && d.Cap == 0 { // the default limit is 64 KiB
					if len(p.Text) > 60000 {
						d.Cap, d.Max = 512, 1<<22
					}
				}
				if r.N(5) == 0 { // a failure between two characters
					us := ref.Units(p.Text, true)
					if len(us) > 0 {
						d.FailAt = us[r.N(len(us))].Off
						d.End = []string{stream.Err, stream.ErrData, stream.ErrUnexp, stream.Stuck, stream.EOF}[r.N(5)]
					}
				}
				p.Dels = append(p.Dels, d)
			}
			return p
		},
		New: newPlan, Shrink: shrink,
		Exec: func(pl any, c *engine.Ctx) *engine.Violation {
			p := pl.(*Plan)
			want, open := ref.Tokens(p.Text)
			if open || !utf8.Valid(p.Text) {
				return nil // minimiser candidates only
			}
			c.Add("style_"+p.Style, 1)
			for i := range p.Dels {
				d := &p.Dels[i]
				n := d.Delivered(len(p.Text))
				if n < len(p.Text) && !utf8.RuneStart(p.Text[n]) {
					return nil
				}
				w := want
				if n < len(p.Text) {
					w, _ = ref.Tokens(p.Text[:n])
				}
				o := pass(c, p.Text, d, stream.Hooks{})
				probe(c, p.Text, d, w)
				if o.Bad == "" && !bytes.HasPrefix(p.Text, o.Cat) {
					return engine.V("bytes-altered", "%s: tokens are not the bytes of the text", describe(d))
				}
				if o.Err == bufio.ErrTooLong {
					return engine.V("too-long", "%s: token too long although the limit is %d and the longest cluster %d bytes", describe(d), d.Max, longest(w))
				}
				if v := diff("wrong-cluster", p.Text, o.Ends, w, describe(d)); v != nil {
					if o.Bad != "" {
						v.Detail += "; " + o.Bad
					}
					return v
				}
				if v := bad(o, describe(d)); v != nil {
					return v
				}
				if len(w) > 1 {
					c.Distinct(hash([]byte(p.Text[:n]), tears(p.Text, d), d.Cons, d.Cap, d.CSeed))
				}
				c.Add("long_cluster_over_64KiB", b2i(longest(w) > 65536))
			}
			sample(c, p, want)
			return nil
		},
		Rule:   "a run is one text with up to three deliveries and consumers; the first runs are a seed-ordered deck of every scalar value, each in 36 contexts, then of all class sequences of length 5 (thorough: 6), then random texts. Non-trivial: at least two clusters; distinct by text, tear points and consumer.",
		Real:   real,
		Stub:   stub,
		Assume: []string{"the reference model's copy of the Unicode 17.0 Grapheme_Cluster_Break, Extended_Pictographic and Indic_Conjunct_Break assignments is the standard's", "texts not sampled are not covered"},
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func longest(ends []int) int {
	m, prev := 0, 0
	for _, e := range ends {
		m = max(m, e-prev)
		prev = e
	}
	return m
}

// ---------------------------------------------------------------- C02

func delivery(r *rng.R, text []byte) stream.Delivery {
	ends, _ := ref.Tokens(text)
	return stream.GenDelivery(r, len(text), tornOffs(text), longest(ends))
}

func faultyDelivery(r *rng.R, text []byte) stream.Delivery {
	d := delivery(r, text)
	n, tears := len(text), tornOffs(text)
	switch r.N(6) {
	case 0: // healthy
	default:
		d.End = []string{stream.Err, stream.ErrData, stream.ErrUnexp, stream.Stuck, stream.EOF, stream.EOFData}[r.N(6)]
		if r.N(4) > 0 {
			d.FailAt = r.N(n + 1)
			if len(tears) > 0 && r.N(2) == 0 {
				d.FailAt = tears[r.N(len(tears))]
			}
		}
	}
	return d
}

func c02() *engine.Check {
	return &engine.Check{
		ID: "C02", Runs: map[string]int{"quick": 150000, "thorough": 3000000}, Batch: 1000,
		Gen: func(r *rng.R, seed uint64, idx int, tier string) any {
			p := &Plan{}
			p.Text, p.Style = genText(r, tier, true, true)
			if r.N(200) == 0 {
				p.Text, p.Style = workload.Long(r, r.In(60000, 70000)), "long-cluster"
			}
			for i := 0; i < 2; i++ {
				d := faultyDelivery(r, p.Text)
				if d.Cons == "scanner" && r.N(4) == 0 {
					d.Max = r.In(1, 80)
					d.Cap = r.In(1, d.Max)
				}
				p.Dels = append(p.Dels, d)
			}
			return p
		},
		New: newPlan, Shrink: shrink,
		Exec: func(pl any, c *engine.Ctx) *engine.Violation {
			p := pl.(*Plan)
			c.Add("style_"+p.Style, 1)
			for i := range p.Dels {
				d := &p.Dels[i]
				sent := p.Text[:d.Delivered(len(p.Text))]
				o := pass(c, p.Text, d, stream.Hooks{})
				if v := bad(o, describe(d)); v != nil {
					return v
				}
				if !bytes.HasPrefix(sent, o.Cat) {
					n := 0
					for n < len(sent) && n < len(o.Cat) && sent[n] == o.Cat[n] {
						n++
					}
					return engine.V("bytes-altered", "%s: delivered bytes and tokens differ at byte %d: sent % x, tokens % x", describe(d), n, clip(sent[n:]), clip(o.Cat[n:]))
				}
				if o.Err == bufio.ErrTooLong && d.Cons == "scanner" && (d.Cap > 0 && d.Max < len(sent)+8 || d.Cap == 0 && len(sent)+8 > bufio.MaxScanTokenSize) {
					c.Add("token_too_long", 1)
				} else {
					if len(o.Cat) != len(sent) {
						return engine.V("bytes-lost", "%s: %d bytes were delivered, the tokens hold only the first %d (error %v); missing: % x", describe(d), len(sent), len(o.Cat), o.Err, clip(sent[len(o.Cat):]))
					}
					if o.Err != d.EndErr() {
						return engine.V("wrong-error", "%s: consumer sees error %v, reader ended with %v", describe(d), o.Err, d.EndErr())
					}
				}
				if len(o.Ends) > 1 {
					c.Distinct(hash([]byte(sent), tears(p.Text, d), d.Cons, d.Cap, d.Max, d.End, d.CSeed))
				}
				if d.FailAt >= 0 && len(sent) > 0 && len(sent) < len(p.Text) && !utf8.RuneStart(p.Text[len(sent)]) {
					c.Add("failed_inside_character", 1)
				}
			}
			sample(c, p, nil)
			return nil
		},
		Rule: "a run is one byte string (well formed, damaged or arbitrary) with two deliveries, five in six of which end in a fault (error alone or with data, early end, unexpected end, no progress), some with a tight token limit. Non-trivial: at least two tokens; distinct by bytes, tear points, end and consumer.",
		Real: real, Stub: stub,
	}
}

func clip(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}

// ---------------------------------------------------------------- C03

// futures are ways the stream may go on: one of each class, line ends,
// undecodable bytes, truncated sequences, and continuation bytes.
func genFutures(r *rng.R, text []byte) []engine.Hex {
	var fs []engine.Hex
	for _, k := range ref.Combos {
		b := workload.Enc(nil, workload.Member(r, k))
		if r.N(2) == 0 {
			b = workload.Motif(r, b, 5)
		}
		fs = append(fs, b)
	}
	fs = append(fs, nil, workload.Bad(r, nil), workload.Weird(r, nil), workload.Raw(r, r.In(1, 8)))
	for i := 0; i < 4; i++ { // continuation bytes that may complete a torn character
		b := []byte{}
		for k := r.In(1, 3); k > 0; k-- {
			b = append(b, byte(0x80+r.N(64)))
		}
		fs = append(fs, append(b, workload.Enc(nil, workload.Member(r, ref.Combos[r.N(len(ref.Combos))]))...))
	}
	return fs
}

func c03() *engine.Check {
	const per = 96
	nb := (workload.NCP + per - 1) / per
	return &engine.Check{
		ID: "C03", Runs: map[string]int{"quick": nb + 16000, "thorough": 4*nb + 700000}, Batch: 300,
		Gen: func(r *rng.R, seed uint64, idx int, tier string) any {
			p := &Plan{}
			sweeps := 1
			if tier == "thorough" {
				sweeps = 4
			}
			if idx < nb*sweeps {
				dk := workload.NewDeck(seed+uint64(idx/nb)*77, workload.NCP)
				var b []byte
				for j := idx % nb * per; j < (idx%nb+1)*per && j < workload.NCP; j++ {
					b = workload.CPShort(r, b, workload.Scalar(dk.At(j)))
				}
				p.Text, p.Style = b, "code-points"
				s := make([]stream.Ev, len(b))
				for i := range s {
					s[i].N = 1
				}
				p.Dels = []stream.Delivery{{Cons: "push", Script: s, FailAt: -1, CSeed: r.U64()}}
				return p
			}
			p.Text, p.Style = genText(r, tier, r.N(2) == 0, r.N(2) == 0)
			if len(p.Text) <= 120 {
				p.Futures = genFutures(r, p.Text)
			}
			for i := 0; i < 3; i++ {
				p.Dels = append(p.Dels, delivery(r, p.Text))
			}
			fixLimits(p)
			return p
		},
		New: newPlan, Shrink: shrink,
		Exec: func(pl any, c *engine.Ctx) *engine.Violation {
			p := pl.(*Plan)
			c.Add("style_"+p.Style, 1)
			rest := whole(p.Text)
			for i := range p.Dels {
				d := &p.Dels[i]
				if d.FailAt >= 0 {
					return nil
				}
				o := pass(c, p.Text, d, stream.Hooks{})
				probe(c, p.Text, d, rest.Ends)
				if v := diff("schedule-dependent", p.Text, o.Ends, rest.Ends, describe(d)+" compared with the same bytes at rest"); v != nil {
					v.Detail += "; " + o.Bad
					return v
				}
				if len(rest.Ends) > 1 {
					c.Distinct(hash([]byte(p.Text), tears(p.Text, d), d.Cons, d.Cap, d.CSeed))
				}
			}
			if v := bad(rest, "bytes at rest"); v != nil {
				return v
			}
			if len(p.Futures) > 0 {
				// Every prefix, every future: what was reported must stay true.
				for n := 1; n <= len(p.Text); n++ {
					got := committed(p.Text[:n])
					c.Add("prefixes_consulted", 1)
					if len(got) == 0 {
						continue
					}
					for _, f := range p.Futures {
						full := append(append([]byte(nil), p.Text[:n]...), f...)
						// Only the last report and the ones before it from its
						// start can move; judging from the last two suffices.
						from := 0
						if len(got) > 2 {
							from = got[len(got)-3]
						}
						w := whole(full[from:])
						c.Add("futures_forked", 1)
						for j, e := range got {
							if e <= from {
								continue
							}
							k := j - (len(got) - min(len(got), 2))
							if k < 0 || k >= len(w.Ends) || w.Ends[k]+from != e {
								return engine.V("revoked-boundary", "after %s a cluster ending at byte %d was reported, but if %s follows the clusters end at %v", show(p.Text[:n]), e, show(f), plus(w.Ends, from))
							}
						}
					}
				}
			}
			sample(c, p, rest.Ends)
			return nil
		},
		Rule: "a run compares the tokens of one byte string under up to three schedules and consumers with the tokens of the same bytes at rest (also by the code under test), and for strings up to 120 bytes forks every prefix into about 26 futures. The first runs deliver every scalar value in 9 contexts one byte at a time. Non-trivial: at least two tokens; distinct by bytes, tear points and consumer.",
		Real: real, Stub: stub,
	}
}

func plus(v []int, n int) []int {
	var o []int
	for _, x := range v {
		o = append(o, x+n)
	}
	if len(o) > 4 {
		o = o[:4]
	}
	return o
}

// committed gives the ends of the clusters reported for a prefix while more
// may follow.
func committed(b []byte) []int {
	var ends []int
	off := 0
	for off < len(b) {
		adv, _, err := call(b[off:], false)
		if adv <= 0 || err != nil || adv > len(b)-off {
			break
		}
		off += adv
		ends = append(ends, off)
	}
	return ends
}

// call makes one consultation, turning a panic into an impossible advance.
func call(b []byte, eof bool) (adv int, tok []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			adv, tok, err = -1, nil, fmt.Errorf("panic: %v", r)
		}
	}()
	return split(b, eof)
}

func fixLimits(p *Plan) {
	fix := func(d *stream.Delivery) {
		if d.Cons == "scanner" && d.Cap == 0 && len(p.Text) > 60000 {
			d.Cap, d.Max = 512, 1<<22
		}
	}
	for i := range p.Dels {
		fix(&p.Dels[i])
	}
	for i := range p.Crashes {
		fix(&p.Crashes[i].Del)
	}
}

// ---------------------------------------------------------------- C04

func c04() *engine.Check {
	return &engine.Check{
		ID: "C04", Runs: map[string]int{"quick": 150000, "thorough": 3000000}, Batch: 1000,
		Gen: func(r *rng.R, seed uint64, idx int, tier string) any {
			p := &Plan{}
			if idx%20 == 0 {
				dk := workload.NewDeck(seed, workload.NCP)
				for j := idx / 20 * 8; j < idx/20*8+8; j++ {
					p.Text = workload.CPShort(r, p.Text, workload.Scalar(dk.At(j)))
				}
				p.Style = "code-points"
			} else {
				p.Text, p.Style = genText(r, tier, r.N(2) == 0, r.N(3) == 0)
			}
			for i := 0; i < 2; i++ {
				d := faultyDelivery(r, p.Text)
				if r.N(2) == 0 {
					d.Cons, d.Cap, d.Max = "scanner", r.In(1, 20), -4 // exactly four bytes above the longest cluster
				}
				p.Dels = append(p.Dels, d)
			}
			fixLimits(p)
			return p
		},
		New: newPlan, Shrink: shrink,
		Exec: func(pl any, c *engine.Ctx) *engine.Violation {
			p := pl.(*Plan)
			c.Add("style_"+p.Style, 1)
			for i := range p.Dels {
				d := p.Dels[i]
				sent := p.Text[:d.Delivered(len(p.Text))]
				rest := whole(sent)
				if v := bad(rest, "bytes at rest"); v != nil {
					return v
				}
				if d.Max == -4 {
					d.Max = longest(rest.Ends) + 4
					d.Cap = min(d.Cap, d.Max)
					c.Add("limit_four_above_longest", 1)
				}
				var viol *engine.Violation
				next := 0 // first cluster of rest not yet owed
				onRead := func(o *stream.Outcome, delivered int) {
					c.Add("stall_points", 1)
					for next < len(rest.Ends) && rest.Ends[next]+4 <= delivered {
						next++
					}
					have := 0
					if len(o.Ends) > 0 {
						have = o.Ends[len(o.Ends)-1]
					}
					if next > 0 && have < rest.Ends[next-1] && viol == nil {
						viol = engine.V("held-back", "%s: with %d bytes delivered the consumer asks for more, but the cluster ending at byte %d (%s) has not been reported", describe(&d), delivered, rest.Ends[next-1], show(clip(sent[have:])))
					}
				}
				o := pass(c, p.Text, &d, stream.Hooks{OnRead: onRead})
				if viol != nil {
					return viol
				}
				if v := bad(o, describe(&d)); v != nil {
					return v
				}
				if o.Err == bufio.ErrTooLong && !(d.Cap == 0 && longest(rest.Ends)+4 > bufio.MaxScanTokenSize) {
					return engine.V("too-long", "%s: token too long although the longest cluster has %d bytes", describe(&d), longest(rest.Ends))
				}
				if len(rest.Ends) > 1 {
					c.Distinct(hash([]byte(sent), tears(p.Text, &d), d.Cons, d.Cap, d.Max, d.End, d.CSeed))
				}
				sample(c, p, rest.Ends)
			}
			return nil
		},
		Rule: "at every read the consumer makes (each a possible stall), all clusters ending at least four bytes before the delivered bytes must have been reported; half the deliveries set the scanner's limit to the longest cluster plus four. Every consultation runs under a step budget. Non-trivial: at least two tokens; distinct by bytes, tear points, end and consumer.",
		Real: real, Stub: stub,
	}
}

// ---------------------------------------------------------------- C05

// isolated gives the tokens the property demands: undecodable bytes alone,
// and the stretches between them as if each were a text of its own.
func isolated(b []byte) ([]int, int, *stream.Outcome) {
	us := ref.Units(b, true)
	var ends []int
	nbad := 0
	for i := 0; i < len(us); {
		if us[i].Kind == ref.KInvalid {
			ends = append(ends, us[i].Off+1)
			nbad++
			i++
			continue
		}
		j := i
		for j < len(us) && us[j].Kind != ref.KInvalid {
			j++
		}
		end := len(b)
		if j < len(us) {
			end = us[j].Off
		}
		o := whole(b[us[i].Off:end])
		if o.Bad != "" {
			return nil, 0, o
		}
		ends = append(ends, o.Shift(us[i].Off)...)
		i = j
	}
	return ends, nbad, nil
}

func c05() *engine.Check {
	return &engine.Check{
		ID: "C05", Runs: map[string]int{"quick": 240000, "thorough": 3000000}, Batch: 1000,
		Gen: func(r *rng.R, seed uint64, idx int, tier string) any {
			p := &Plan{}
			s := workload.NewStyle(r)
			s.Invalid = []int{1, 2, 4, 10}[r.N(4)]
			if r.N(3) == 0 {
				s.Weird = []int{4, 20}[r.N(2)]
			}
			switch {
			case idx%8 == 0: // every byte pair and beyond: short raw strings around real characters
				b := []byte{}
				for k := r.N(3); k > 0; k-- {
					b = workload.Enc(b, workload.Member(r, ref.Combos[r.N(len(ref.Combos))]))
				}
				n := idx / 8
				b = append(b, byte(n), byte(n>>8))
				b = append(b, workload.Raw(r, r.N(5))...)
				for k := r.N(3); k > 0; k-- {
					b = workload.Enc(b, workload.Member(r, ref.Combos[r.N(len(ref.Combos))]))
				}
				p.Text, p.Style = b, "byte-pairs"
			case idx%8 == 1: // truncated characters of the whole repertoire
				b := workload.Enc(nil, workload.Scalar(workload.NewDeck(seed, workload.NCP).At(idx/8)))
				pre := workload.Motif(r, nil, 4)
				p.Text = append(append(pre, b[:r.In(min(1, len(b)-1), len(b)-1)]...), workload.Motif(r, nil, 4)...)
				p.Style = "cut-character"
			case idx%8 == 2:
				p.Text, p.Style = workload.Raw(r, r.In(1, 60)), "raw"
			default:
				p.Text, p.Style = workload.Text(r, s, r.In(1, []int{3, 8, 30, 100}[r.N(4)])), "text"
				if r.N(300) == 0 {
					max := 9000
					if r.N(20) == 0 {
						max = 1 << r.In(16, 20)
					}
					p.Text, p.Style = workload.Sized(r, p.Text, workload.Size(r, max), true), "sized"
				}
			}
			for i := 0; i < 2; i++ {
				d := faultyDelivery(r, p.Text)
				p.Dels = append(p.Dels, d)
			}
			fixLimits(p)
			return p
		},
		New: newPlan, Shrink: shrink,
		Exec: func(pl any, c *engine.Ctx) *engine.Violation {
			p := pl.(*Plan)
			c.Add("style_"+p.Style, 1)
			for i := range p.Dels {
				d := &p.Dels[i]
				sent := p.Text[:d.Delivered(len(p.Text))]
				want, nbad, fail := isolated(sent)
				if fail != nil {
					return bad(fail, "a decodable stretch at rest")
				}
				o := pass(c, p.Text, d, stream.Hooks{})
				if v := bad(o, describe(d)); v != nil {
					return v
				}
				if !bytes.HasPrefix(sent, o.Cat) {
					return engine.V("bytes-altered", "%s: tokens are not the bytes of the stream", describe(d))
				}
				if v := diff("not-isolated", sent, o.Ends, want, describe(d)); v != nil {
					return v
				}
				c.Add("undecodable_bytes", nbad)
				if nbad > 0 {
					c.Distinct(hash([]byte(sent), tears(p.Text, d), d.Cons, d.Cap, d.End, d.CSeed))
				}
				sample(c, p, want)
			}
			return nil
		},
		Rule: "a run is one byte string with undecodable bytes (stray, cut by another byte, by the end, or by a read failure) under two deliveries, compared with single-byte clusters for those bytes and independent segmentation of each stretch between them. Non-trivial: at least one undecodable byte; distinct by bytes, tear points, end and consumer.",
		Real: real, Stub: stub,
		Assume: []string{"the treatment of structurally complete but overlong, surrogate or out-of-range sequences is left open by the documentation; they are only required to count as text or as undecodable consistently"},
	}
}

// ---------------------------------------------------------------- C06

func genDamage(r *rng.R, text []byte) Damage {
	n := len(text)
	d := Damage{Off: r.N(n)}
	span := min(r.In(1, []int{1, 4, 16, 200}[r.N(4)]), n-d.Off)
	src := text[d.Off : d.Off+span]
	d.Len = span
	switch r.N(7) {
	case 0:
		d.Kind = "bit-flip"
		w := append([]byte(nil), src...)
		w[r.N(len(w))] ^= 1 << r.N(8)
		d.With = w
	case 1:
		d.Kind = "dropped-bytes"
	case 2:
		d.Kind = "duplicated-bytes"
		d.With = append(append([]byte(nil), src...), src...)
	case 3:
		d.Kind = "reordered-chunks"
		k := r.N(len(src) + 1)
		d.With = append(append([]byte(nil), src[k:]...), src[:k]...)
	case 4:
		d.Kind = "overwritten"
		d.With = workload.Raw(r, span)
	case 5:
		d.Kind = "zeroed"
		d.With = make([]byte, span)
	case 6:
		d.Kind = "inserted"
		d.Len = 0
		if r.N(2) == 0 {
			d.With = workload.Raw(r, r.In(1, 12))
		} else {
			d.With = workload.Motif(r, nil, 6)
		}
	}
	return d
}

func c06() *engine.Check {
	return &engine.Check{
		ID: "C06", Runs: map[string]int{"quick": 120000, "thorough": 3000000}, Batch: 1000,
		Gen: func(r *rng.R, seed uint64, idx int, tier string) any {
			p := &Plan{}
			s := workload.NewStyle(r)
			s.LineP = []int{2, 4, 10, 30}[r.N(4)]
			if r.N(4) == 0 {
				s.Invalid = 10
			}
			p.Text = workload.Text(r, s, r.In(1, []int{5, 20, 60, 200}[r.N(4)]))
			if len(p.Text) == 0 {
				p.Text = []byte("a\n")
			}
			for k := r.In(1, 3); k > 0; k-- {
				p.Damage = append(p.Damage, genDamage(r, p.Text))
			}
			sort.Slice(p.Damage, func(i, j int) bool { return p.Damage[i].Off < p.Damage[j].Off })
			p.Dels = append(p.Dels, delivery(r, p.Text))
			return p
		},
		New: newPlan, Shrink: shrink,
		Exec: func(pl any, c *engine.Ctx) *engine.Violation {
			p := pl.(*Plan)
			// Damage, left to right; overlapping damages are merged by skipping.
			var dmg []byte
			first, pos := -1, 0
			lastClean, lastDmg := 0, 0
			for _, d := range p.Damage {
				if d.Off < pos || d.Off+d.Len > len(p.Text) {
					continue
				}
				dmg = append(dmg, p.Text[pos:d.Off]...)
				if first < 0 {
					first = d.Off
				}
				dmg = append(dmg, d.With...)
				pos = d.Off + d.Len
				lastClean, lastDmg = pos, len(dmg)
				c.Add("fault:"+d.Kind, 1)
			}
			if first < 0 {
				return nil
			}
			dmg = append(dmg, p.Text[pos:]...)
			clean := whole(p.Text)
			if v := bad(clean, "undamaged bytes at rest"); v != nil {
				return v
			}
			for i := range p.Dels {
				d := &p.Dels[i]
				o := pass(c, dmg, d, stream.Hooks{})
				if v := bad(o, describe(d)+" on the damaged stream"); v != nil {
					return v
				}
				if o.Err != nil {
					return engine.V("error", "%s on the damaged stream: error %v", describe(d), o.Err)
				}
				what := fmt.Sprintf("%s with %s at byte %d (damaged: %s)", describe(d), p.Damage[0].Kind, first, show(near(dmg, first)))
				n := 0
				for n < len(clean.Ends) && clean.Ends[n]+4 <= first {
					n++
				}
				pre := o.Ends
				if len(pre) > n {
					pre = pre[:n]
				}
				if v := diff("damage-spread-back", p.Text, pre, clean.Ends[:n], what); v != nil {
					return v
				}
				// After the first line feed following the damage.
				lf := bytes.IndexByte(p.Text[lastClean:], '\n')
				if lf < 0 {
					c.Add("no_line_feed_after_damage", 1)
					continue
				}
				at, atD := lastClean+lf+1, lastDmg+lf+1
				a, b := after(clean.Ends, at), after(o.Ends, atD)
				if v := diff("damage-spread-forward", p.Text[at:], b, a, what+", after the next line feed"); v != nil {
					return v
				}
				if !bytes.Equal(o.Cat, dmg) {
					return engine.V("bytes-altered", "%s: tokens are not the damaged stream's bytes", what)
				}
				c.Distinct(hash(dmg, []byte(p.Text), tears(dmg, d), d.Cons, d.Cap, d.CSeed))
				sample(c, p, o.Ends)
			}
			return nil
		},
		Rule: "a run damages one stream in one to three places (bit flips, drops, duplications, reordered chunks, overwrites, zeroing, insertions) and compares its segmentation with that of the undamaged stream, before the damage and after the next line feed. Non-trivial: damage applied and a line feed follows; distinct by both streams, tear points and consumer.",
		Real: real, Stub: stub,
	}
}

func near(b []byte, at int) []byte { return b[max(0, min(at, len(b))-8):min(len(b), at+16)] }

// after keeps the ends beyond at, relative to it; at itself is required to be
// a boundary and stands as the leading 0.
func after(ends []int, at int) []int {
	out := []int{}
	found := false
	for _, e := range ends {
		if e == at {
			found = true
		}
		if e > at {
			out = append(out, e-at)
		}
	}
	if !found && at > 0 {
		out = append([]int{-1}, out...)
	}
	return out
}

// ---------------------------------------------------------------- C07

func c07() *engine.Check {
	return &engine.Check{
		ID: "C07", Runs: map[string]int{"quick": 80000, "thorough": 2500000}, Batch: 1000,
		Gen: func(r *rng.R, seed uint64, idx int, tier string) any {
			p := &Plan{}
			p.Text, p.Style = genText(r, tier, r.N(4) == 0, r.N(8) == 0)
			p.Dels = append(p.Dels, delivery(r, p.Text))
			for k := r.In(1, 6); k > 0; k-- {
				p.Crashes = append(p.Crashes, Crash{Tokens: r.In(0, []int{1, 3, 20}[r.N(3)]), Lag: r.N(6) / 3 * r.N(6), Del: delivery(r, p.Text)})
			}
			if r.N(3) == 0 {
				hard := hardBreaks(p.Text)
				for k := r.In(1, 4); k > 0 && len(hard) > 0; k-- {
					p.Cuts = append(p.Cuts, hard[r.N(len(hard))])
				}
				sort.Ints(p.Cuts)
			}
			fixLimits(p)
			return p
		},
		New: newPlan, Shrink: shrink,
		Exec: func(pl any, c *engine.Ctx) *engine.Violation {
			p := pl.(*Plan)
			c.Add("style_"+p.Style, 1)
			one := &p.Dels[0]
			if one.FailAt >= 0 {
				return nil
			}
			base := pass(c, p.Text, one, stream.Hooks{})
			if v := bad(base, "uninterrupted: "+describe(one)); v != nil {
				return v
			}
			// Crash and restart: each incarnation gets the bytes after the last
			// token its predecessor had processed.
			var ends []int
			at := 0
			for i := 0; at < len(p.Text); i++ {
				if i > len(p.Text)+len(p.Crashes)+2 {
					return engine.V("no-progress", "restarting makes no progress at byte %d", at)
				}
				d := *one
				limit := -1
				if i < len(p.Crashes) {
					d, limit = p.Crashes[i].Del, p.Crashes[i].Tokens
					if d.FailAt >= 0 {
						return nil
					}
				}
				if limit == 0 { // crashed before processing anything
					c.Add("fault:crash", 1)
					continue
				}
				n := 0
				o := stream.Run(p.Text[at:], &d, split, stream.Hooks{OnToken: func(*stream.Outcome) bool { n++; return n != limit }})
				account(c, p.Text[at:], &d, o)
				if v := bad(o, fmt.Sprintf("after restart at byte %d: %s", at, describe(&d))); v != nil {
					return v
				}
				for _, e := range o.Ends {
					ends = append(ends, at+e)
				}
				if n == limit {
					c.Add("fault:crash", 1)
				}
				if len(o.Ends) == 0 {
					return engine.V("bytes-lost", "after restart at byte %d: %d bytes left but no token (error %v)", at, len(p.Text)-at, o.Err)
				}
				if n == limit && i < len(p.Crashes) && p.Crashes[i].Lag > 0 {
					c.Add("fault:lost-progress", 1)
					ends = ends[:max(0, len(ends)-p.Crashes[i].Lag)]
				}
				at = 0
				if len(ends) > 0 {
					at = ends[len(ends)-1]
				}
			}
			if v := diff("restart-changes-clusters", p.Text, ends, base.Ends, "crash and restart"); v != nil {
				return v
			}
			// Cuts: independent segmentation of the pieces.
			if len(p.Cuts) > 0 {
				ends = nil
				from := 0
				okCuts := map[int]bool{}
				for _, h := range hardBreaks(p.Text) {
					okCuts[h] = true
				}
				for _, cut := range append(append([]int(nil), p.Cuts...), len(p.Text)) {
					if cut < from || cut < len(p.Text) && !okCuts[cut] {
						continue
					}
					o := pass(c, p.Text[from:cut], one, stream.Hooks{})
					if v := bad(o, "piece"); v != nil {
						return v
					}
					for _, e := range o.Ends {
						ends = append(ends, from+e)
					}
					from = cut
					c.Add("pieces", 1)
				}
				if v := diff("cut-changes-clusters", p.Text, ends, base.Ends, "independent pieces"); v != nil {
					return v
				}
			}
			if len(base.Ends) > 1 {
				c.Distinct(hash([]byte(p.Text), p.Crashes, p.Cuts))
			}
			sample(c, p, base.Ends)
			return nil
		},
		Rule: "a run segments a byte string without interruption, then with one to six crashes after arbitrary numbers of tokens, each restart having its own read and buffer behaviour and some going back over tokens whose processing was not recorded, and a third also as independent pieces cut after hard breaks. Non-trivial: at least two tokens; distinct by bytes, crash points and cuts.",
		Real: real, Stub: stub,
	}
}

// hardBreaks are the offsets right after a line feed, a lone carriage return
// or another control character.
func hardBreaks(b []byte) []int {
	var hs []int
	us := ref.Units(b, true)
	for i, u := range us {
		if u.Kind != ref.KChar {
			continue
		}
		g := ref.GCB(u.Class)
		if g == ref.LF || g == ref.Control || g == ref.CR && !(i+1 < len(us) && us[i+1].Kind == ref.KChar && ref.GCB(us[i+1].Class) == ref.LF) {
			hs = append(hs, u.Off+u.Len)
		}
	}
	return hs
}
