package main

import (
	"fmt"
	"hash/fnv"
	"strings"
	"unicode/utf8"

	"verifsim/engine"
	"verifsim/genrun"
	"verifsim/ref"
	"verifsim/stream"
)

// Plan is one simulated execution: the bytes, the environments they are sent
// and consumed in, and the faults.
type Plan struct {
	Text    engine.Hex        `json:"text"`
	Dels    []stream.Delivery `json:"deliveries"`
	Futures []engine.Hex      `json:"futures,omitempty"`
	Damage  []Damage          `json:"damage,omitempty"`
	Crashes []Crash           `json:"crashes,omitempty"`
	Cuts    []int             `json:"cuts,omitempty"`
	Ops     []Op              `json:"ops,omitempty"`
	Style   string            `json:"style,omitempty"`
	Fresh   uint64            `json:"fresh,omitempty"` // ask in two new processes; the order in the second
	Regen   *genrun.Proc      `json:"regen,omitempty"`
}

// Damage replaces Len bytes at Off by With.
type Damage struct {
	Kind string     `json:"kind"`
	Off  int        `json:"off"`
	Len  int        `json:"len"`
	With engine.Hex `json:"with"`
}

// Crash kills the consumer after it processed Tokens tokens of an incarnation.
type Crash struct {
	Tokens int             `json:"tokens"`
	Lag    int             `json:"lag,omitempty"` // how many tokens its record of progress is behind
	Del    stream.Delivery `json:"delivery"`
}

func newPlan() any { return &Plan{} }

func hash(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		switch x := p.(type) {
		case []byte:
			h.Write(x)
		case string:
			h.Write([]byte(x))
		default:
			fmt.Fprint(h, x)
		}
		h.Write([]byte{0xfe})
	}
	return h.Sum64()
}

// show describes bytes with their classes.
func show(b []byte) string {
	var s strings.Builder
	us := ref.Units(b, true)
	for i, u := range us {
		if i == 24 {
			fmt.Fprintf(&s, " ... (%d bytes)", len(b))
			break
		}
		if i > 0 {
			s.WriteByte(' ')
		}
		if u.Kind == ref.KChar {
			r, _ := utf8.DecodeRune(b[u.Off:])
			fmt.Fprintf(&s, "U+%04X:%s", r, ref.ClassName(u.Class))
		} else {
			fmt.Fprintf(&s, "[% x]", b[u.Off:u.Off+u.Len])
		}
	}
	return s.String()
}

// diff compares token ends with the expected ones over text.
func diff(kind string, text []byte, got, want []int, what string) *engine.Violation {
	n := 0
	for n < len(got) && n < len(want) && got[n] == want[n] {
		n++
	}
	if n == len(got) && n == len(want) {
		return nil
	}
	start := 0
	if n > 0 {
		start = min(max(want[n-1], 0), len(text))
	}
	seg := func(e []int) string {
		if n >= len(e) {
			return "(no token)"
		}
		if e[n] < start { // ends before the part compared
			return fmt.Sprintf("ends %d bytes earlier", start-e[n])
		}
		return show(text[start:min(e[n], len(text))])
	}
	ctx := text[start:min(start+60, len(text))]
	return engine.V(kind, "%s: token %d at byte %d is <%s> but must be <%s>; bytes there: %s", what, n, start, seg(got), seg(want), show(ctx))
}

func describe(d *stream.Delivery) string {
	s := d.Cons
	if d.Cons == "scanner" && d.Cap > 0 {
		s += fmt.Sprintf("(buf %d, max %d)", d.Cap, d.Max)
	}
	s += fmt.Sprintf(" reads=%d", len(d.Script))
	if d.FailAt >= 0 {
		s += fmt.Sprintf(" fail@%d", d.FailAt)
	}
	if d.End != "" {
		s += " end=" + d.End
	}
	return s
}

// tearBuckets classifies where reads tore the text, for the coverage measure:
// inside a character, inside a cluster, or at a boundary, by character class.
func tears(text []byte, d *stream.Delivery) uint64 {
	if len(d.Script) == 0 {
		return 0
	}
	h := uint64(1469)
	off := 0
	for i, e := range d.Script {
		off += e.N
		if off >= len(text) || i > 400 {
			break
		}
		h = (h ^ uint64(off)) * 1099511628211
	}
	return h
}

// shrink is the minimiser for all stream plans.
func shrink(pl any, try0 func(any) bool) any {
	p := pl.(*Plan)
	clone := func() *Plan {
		q := *p
		q.Text = append(engine.Hex(nil), p.Text...)
		q.Dels = append([]stream.Delivery(nil), p.Dels...)
		q.Futures = append([]engine.Hex(nil), p.Futures...)
		q.Damage = append([]Damage(nil), p.Damage...)
		q.Crashes = append([]Crash(nil), p.Crashes...)
		q.Cuts = append([]int(nil), p.Cuts...)
		q.Ops = append([]Op(nil), p.Ops...)
		return &q
	}
	try := func(q *Plan) bool {
		if try0(q) {
			p = q
			return true
		}
		return false
	}
	for round := 0; round < 3; round++ {
		before := fmt.Sprint(len(p.Text), len(p.Dels), len(p.Futures), len(p.Damage), len(p.Crashes), len(p.Cuts), len(p.Ops))
		// One delivery is usually enough.
		for i := 0; i < len(p.Dels) && len(p.Dels) > 1; {
			q := clone()
			q.Dels = append(q.Dels[:i:i], q.Dels[i+1:]...)
			if !try(q) {
				i++
			}
		}
		for i := 0; i < len(p.Futures); {
			q := clone()
			q.Futures = append(q.Futures[:i:i], q.Futures[i+1:]...)
			if !try(q) {
				i++
			}
		}
		for i := 0; i < len(p.Damage) && len(p.Damage) > 1; {
			q := clone()
			q.Damage = append(q.Damage[:i:i], q.Damage[i+1:]...)
			if !try(q) {
				i++
			}
		}
		for i := 0; i < len(p.Crashes); {
			q := clone()
			q.Crashes = append(q.Crashes[:i:i], q.Crashes[i+1:]...)
			if !try(q) {
				i++
			}
		}
		for i := 0; i < len(p.Cuts); {
			q := clone()
			q.Cuts = append(q.Cuts[:i:i], q.Cuts[i+1:]...)
			if !try(q) {
				i++
			}
		}
		for ch := len(p.Ops) / 2; ch >= 1; ch /= 2 {
			for i := 0; i < len(p.Ops); {
				q := clone()
				q.Ops = append(q.Ops[:i:i], q.Ops[min(i+ch, len(q.Ops)):]...)
				if !try(q) {
					i += ch
				}
			}
		}
		// Shorter text: drop whole units, halving the chunk.
		for ch := max(1, len(ref.Units(p.Text, true))/2); ch >= 1; ch /= 2 {
			for i := 0; ; {
				us := ref.Units(p.Text, true)
				if i >= len(us) {
					break
				}
				j := min(i+ch, len(us))
				lo, hi := us[i].Off, len(p.Text)
				if j < len(us) {
					hi = us[j].Off
				}
				q := clone()
				q.Text = append(q.Text[:lo:lo], q.Text[hi:]...)
				shiftBy(q, lo, hi)
				if !try(q) {
					i += ch
				}
			}
		}
		// Simpler environments.
		for i := range p.Dels {
			simpler(func(f func(d *stream.Delivery)) bool { q := clone(); f(&q.Dels[i]); return try(q) }, func() *stream.Delivery { return &p.Dels[i] })
		}
		for i := range p.Crashes {
			simpler(func(f func(d *stream.Delivery)) bool { q := clone(); f(&q.Crashes[i].Del); return try(q) }, func() *stream.Delivery { return &p.Crashes[i].Del })
		}
		if before == fmt.Sprint(len(p.Text), len(p.Dels), len(p.Futures), len(p.Damage), len(p.Crashes), len(p.Cuts), len(p.Ops)) {
			break
		}
	}
	return p
}

// shiftBy moves offsets after the text lost the bytes [lo,hi).
func shiftBy(q *Plan, lo, hi int) {
	mv := func(x int) int {
		switch {
		case x >= hi:
			return x - (hi - lo)
		case x > lo:
			return lo
		}
		return x
	}
	for i := range q.Damage {
		d := &q.Damage[i]
		e := mv(d.Off + d.Len)
		d.Off = mv(d.Off)
		d.Len = e - d.Off
	}
	for i := range q.Cuts {
		q.Cuts[i] = mv(q.Cuts[i])
	}
	for i := range q.Dels {
		if q.Dels[i].FailAt >= 0 {
			q.Dels[i].FailAt = mv(q.Dels[i].FailAt)
		}
	}
}

func simpler(with func(func(d *stream.Delivery)) bool, cur func() *stream.Delivery) {
	if len(cur().Script) > 0 {
		with(func(d *stream.Delivery) { d.Script = nil })
	}
	if len(cur().Script) > 1 {
		with(func(d *stream.Delivery) {
			d.Script = []stream.Ev{{N: 1}}
			for len(d.Script) < 64 {
				d.Script = append(d.Script, stream.Ev{N: 1})
			}
		})
	}
	for ch := len(cur().Script) / 2; ch >= 1; ch /= 2 {
		for i := 0; i < len(cur().Script); {
			if !with(func(d *stream.Delivery) {
				s := append([]stream.Ev(nil), d.Script[:i]...)
				d.Script = append(s, d.Script[min(i+ch, len(d.Script)):]...)
			}) {
				i += ch
			}
		}
	}
	plain := false
	for _, e := range cur().Script {
		plain = plain || e.Zero > 0 || e.Delay > 0
	}
	if plain {
		with(func(d *stream.Delivery) {
			s := append([]stream.Ev(nil), d.Script...)
			for i := range s {
				s[i].Zero, s[i].Delay = 0, 0
			}
			d.Script = s
		})
	}
	if cur().Scribble {
		with(func(d *stream.Delivery) { d.Scribble = false })
	}
	if cur().End != "" {
		with(func(d *stream.Delivery) { d.End = "" })
	}
	if cur().FailAt >= 0 {
		with(func(d *stream.Delivery) { d.FailAt = -1 })
	}
	if cur().Cap > 0 {
		with(func(d *stream.Delivery) { d.Cap, d.Max = 0, 0 })
	}
	if cur().Cons != "whole" {
		with(func(d *stream.Delivery) { d.Cons, d.Script, d.Cap, d.Max = "whole", nil, 0, 0 })
	}
	if cur().Cons == "push" {
		with(func(d *stream.Delivery) { d.Cons = "scanner" })
	}
}
