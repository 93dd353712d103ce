// Package ref is the executable reference model: UAX#29 extended grapheme
// clusters for Unicode 17.0, written directly from the rules with full
// look-back over the decoded text (no state machine, no table walk over UTF-8
// bytes), plus the documented treatment of undecodable bytes. It shares no
// code and no table with the repository.
package ref

import (
	_ "embed"
	"strconv"
	"strings"
)

//go:embed ucd17.txt
var ucd string

// Grapheme_Cluster_Break values (ExtPict folded in) and Indic_Conjunct_Break.
const (
	None uint8 = iota
	CR
	LF
	Control
	Extend
	ZWJ
	RI
	Prepend
	SpacingMark
	L
	V
	T
	LV
	LVT
	ExtPict
	NGCB
)
const (
	INone uint8 = iota
	ICons
	IExt
	ILink
)

var gcbNames = map[string]uint8{"CR": CR, "LF": LF, "Control": Control, "Extend": Extend, "ZWJ": ZWJ,
	"Regional_Indicator": RI, "Prepend": Prepend, "SpacingMark": SpacingMark, "L": L, "V": V, "T": T,
	"LV": LV, "LVT": LVT, "ExtPict": ExtPict}
var GCBName = [...]string{"None", "CR", "LF", "Control", "Extend", "ZWJ", "RI", "Prepend", "SpacingMark", "L", "V", "T", "LV", "LVT", "ExtPict"}
var inName = map[string]uint8{"Consonant": ICons, "Extend": IExt, "Linker": ILink}
var INName = [...]string{"", "Cons", "Ext", "Link"}

// Class of each code point: gcb | incb<<4.
var class [0x110000]uint8

// Range is one run of equal-class code points.
type Range struct{ Lo, Hi int }

// Combos lists the distinct classes, with the code points that have them.
var Combos []uint8
var ComboRanges = map[uint8][]Range{}

func init() {
	for _, line := range strings.Split(ucd, "\n") {
		f := strings.Fields(line)
		if len(f) != 4 {
			continue
		}
		lo, _ := strconv.ParseInt(f[1], 16, 32)
		hi, _ := strconv.ParseInt(f[2], 16, 32)
		for c := lo; c <= hi; c++ {
			if f[0] == "I" {
				class[c] = class[c]&0x0f | inName[f[3]]<<4
			} else {
				class[c] = class[c]&0xf0 | gcbNames[f[3]]
			}
		}
	}
	start := 0
	for c := 1; c <= 0x110000; c++ {
		if c == 0x110000 || class[c] != class[start] || c == 0xd800 || c == 0xe000 {
			if start != 0xd800 {
				k := class[start]
				if ComboRanges[k] == nil {
					Combos = append(Combos, k)
				}
				ComboRanges[k] = append(ComboRanges[k], Range{start, c - 1})
			}
			start = c
		}
	}
	for i := 1; i < len(Combos); i++ { // sorted: order must not depend on data order
		for j := i; j > 0 && Combos[j] < Combos[j-1]; j-- {
			Combos[j], Combos[j-1] = Combos[j-1], Combos[j]
		}
	}
}

func ClassOf(cp int) uint8 { return class[cp] }
func GCB(k uint8) uint8    { return k & 0x0f }
func InCB(k uint8) uint8   { return k >> 4 }
func ClassName(k uint8) string {
	s := GCBName[GCB(k)]
	if InCB(k) != 0 {
		s += "/" + INName[InCB(k)]
	}
	return s
}

// Kind of a unit of the byte stream.
const (
	KChar    = iota // a well-formed UTF-8 sequence
	KInvalid        // one byte that belongs to no structurally complete sequence
	KWeird          // structurally complete, but overlong, a surrogate or beyond U+10FFFF
	KPartial        // at the end of the bytes: may still become a complete sequence
)

// Unit is one element of the byte stream.
type Unit struct {
	Off, Len int
	Kind     uint8
	Class    uint8
}

// seqLen is the structural length announced by a lead byte (0: none).
func seqLen(b byte) int {
	switch {
	case b < 0x80:
		return 1
	case b >= 0xc0 && b < 0xe0:
		return 2
	case b >= 0xe0 && b < 0xf0:
		return 3
	case b >= 0xf0 && b < 0xf8:
		return 4
	}
	return 0
}

// Classes assigns a class to every code point.
type Classes = [0x110000]uint8

// Shipped is a copy of the Unicode 17.0 classes.
func Shipped() *Classes { c := class; return &c }

// Decode1 decodes the unit at the start of b (which must not be empty). With
// eof, bytes end here; otherwise more may follow.
func Decode1(b []byte, eof bool) Unit { return decode(b, eof, &class) }

func decode(b []byte, eof bool, class *Classes) Unit {
	n := seqLen(b[0])
	if n == 0 {
		return Unit{0, 1, KInvalid, 0}
	}
	have := n
	if have > len(b) {
		have = len(b)
	}
	for i := 1; i < have; i++ {
		if b[i] < 0x80 || b[i] > 0xbf {
			return Unit{0, 1, KInvalid, 0}
		}
	}
	if have < n {
		if eof {
			return Unit{0, 1, KInvalid, 0}
		}
		return Unit{0, have, KPartial, 0}
	}
	var cp, min int
	switch n {
	case 1:
		return Unit{0, 1, KChar, class[b[0]]}
	case 2:
		cp, min = int(b[0]&0x1f)<<6|int(b[1]&0x3f), 0x80
	case 3:
		cp, min = int(b[0]&0x0f)<<12|int(b[1]&0x3f)<<6|int(b[2]&0x3f), 0x800
	case 4:
		cp, min = int(b[0]&0x07)<<18|int(b[1]&0x3f)<<12|int(b[2]&0x3f)<<6|int(b[3]&0x3f), 0x10000
	}
	if cp < min || cp > 0x10ffff || (cp >= 0xd800 && cp <= 0xdfff) {
		return Unit{0, n, KWeird, 0}
	}
	return Unit{0, n, KChar, class[cp]}
}

// Units decodes b completely.
func Units(b []byte, eof bool) []Unit { return UnitsBy(b, eof, &class) }

// UnitsBy decodes b with other classes.
func UnitsBy(b []byte, eof bool, class *Classes) []Unit {
	us := make([]Unit, 0, len(b)/2+4)
	for i := 0; i < len(b); {
		u := decode(b[i:], eof, class)
		u.Off = i
		us = append(us, u)
		i += u.Len
	}
	return us
}

// Breaks reports for each unit whether a cluster boundary lies before it.
// Every invalid byte is a cluster of its own and separates the text around
// it, which is what Text below means by "start of text".
func Breaks(us []Unit) []bool {
	br := make([]bool, len(us))
	ri := 0 // number of consecutive RIs ending at the previous unit
	for i := range us {
		br[i] = i == 0 || breakBefore(us, i, ri)
		if us[i].Kind == KChar && GCB(us[i].Class) == RI {
			ri++
		} else {
			ri = 0
		}
	}
	return br
}

func breakBefore(us []Unit, i, riRun int) bool {
	if us[i].Kind != KChar || us[i-1].Kind != KChar {
		return true
	}
	p, n := GCB(us[i-1].Class), GCB(us[i].Class)
	ctl := func(g uint8) bool { return g == CR || g == LF || g == Control }
	is := func(g uint8, set ...uint8) bool {
		for _, s := range set {
			if g == s {
				return true
			}
		}
		return false
	}
	switch {
	case p == CR && n == LF: // GB3
		return false
	case ctl(p) || ctl(n): // GB4, GB5
		return true
	case p == L && is(n, L, V, LV, LVT): // GB6
		return false
	case is(p, LV, V) && is(n, V, T): // GB7
		return false
	case is(p, LVT, T) && n == T: // GB8
		return false
	case is(n, Extend, ZWJ): // GB9
		return false
	case n == SpacingMark: // GB9a
		return false
	case p == Prepend: // GB9b
		return false
	}
	// GB9c: Consonant [Extend Linker]* Linker [Extend Linker]* x Consonant
	if InCB(us[i].Class) == ICons {
		linker := false
		j := i - 1
		for j >= 0 && us[j].Kind == KChar && is(InCB(us[j].Class), IExt, ILink) {
			linker = linker || InCB(us[j].Class) == ILink
			j--
		}
		if linker && j >= 0 && us[j].Kind == KChar && InCB(us[j].Class) == ICons {
			return false
		}
	}
	// GB11: ExtPict Extend* ZWJ x ExtPict
	if n == ExtPict && p == ZWJ {
		j := i - 2
		for j >= 0 && us[j].Kind == KChar && GCB(us[j].Class) == Extend {
			j--
		}
		if j >= 0 && us[j].Kind == KChar && GCB(us[j].Class) == ExtPict {
			return false
		}
	}
	// GB12, GB13: an odd number of RIs before
	if n == RI && p == RI && riRun%2 == 1 {
		return false
	}
	return true // GB999
}

// Tokens gives the end offsets of the clusters of b (complete input), and
// whether b contains sequences whose treatment is left open (KWeird).
func Tokens(b []byte) (ends []int, weird bool) { return TokensBy(b, &class) }

// TokensBy is Tokens with other classes.
func TokensBy(b []byte, class *Classes) (ends []int, weird bool) {
	us := UnitsBy(b, true, class)
	br := Breaks(us)
	for i, u := range us {
		if i > 0 && br[i] {
			ends = append(ends, u.Off)
		}
		weird = weird || u.Kind == KWeird
	}
	if len(us) > 0 {
		ends = append(ends, len(b))
	}
	return
}

// Open marks a consultation whose outcome the model leaves open.
const Open = -1

// First gives the model's answer for one consultation of the split function:
// the length of the first cluster of data. With eof false, 0 means that the
// available bytes do not decide it. Open is returned when an overlong,
// surrogate or out-of-range sequence takes part in the decision.
func First(data []byte, eof bool) int {
	var us []Unit
	ri := 0
	for i := 0; i < len(data); {
		u := Decode1(data[i:], eof)
		u.Off = i
		if u.Kind == KPartial {
			// (A partial lead right after an invalid byte or a control does not
			// matter for the boundary, but waiting for it is allowed.)
			return 0
		}
		if u.Kind == KWeird {
			return Open
		}
		us = append(us, u)
		if k := len(us) - 1; k > 0 {
			if breakBefore(us, k, ri) {
				return i
			}
		}
		if u.Kind == KChar && GCB(u.Class) == RI {
			ri++
		} else {
			ri = 0
		}
		i += u.Len
	}
	if eof {
		return len(data)
	}
	return 0
}

// BreakAt reports whether a boundary lies before unit i; it looks only at the
// units up to i.
func BreakAt(us []Unit, i int) bool {
	if i == 0 {
		return true
	}
	ri := 0
	for j := i - 1; j >= 0 && us[j].Kind == KChar && GCB(us[j].Class) == RI; j-- {
		ri++
	}
	return breakBefore(us, i, ri)
}
