// Package workload generates texts: every choice comes from the given rng.
package workload

import (
	"math/bits"
	"unicode/utf8"

	"verifsim/ref"
	"verifsim/rng"
)

const NCP = 0x110000 - 0x800 // number of scalar values

// Scalar maps an index in [0,NCP) to a scalar value.
func Scalar(i int) int {
	if i >= 0xd800 {
		return i + 0x800
	}
	return i
}

func Enc(b []byte, cp int) []byte { return utf8.AppendRune(b, rune(cp)) }

// Member picks a code point of the class.
func Member(r *rng.R, k uint8) int {
	rs := ref.ComboRanges[k]
	x := rs[r.N(len(rs))]
	if k == 0 {
		switch r.N(6) { // the default class is huge: favour familiar text and range edges
		case 0, 1:
			return 'a' + r.N(26)
		case 2:
			return []int{' ', '0', '~', 0xe9, 0x4e00, 0x20ac, 0xfffd, 0x1d54f, 0x10fffd, 0xe000, 0xffff, 0x10000, 0xd7ff, 0x7ff, 0x800, 0xa0}[r.N(16)]
		}
	}
	switch r.N(4) {
	case 0:
		return x.Lo
	case 1:
		return x.Hi
	}
	return x.Lo + r.N(x.Hi-x.Lo+1)
}

// Rep is the class a representative is wanted of.
var (
	byGCB  = map[uint8][]uint8{}
	kLink  []uint8
	kIExt  []uint8
	kCons_ []uint8
)

func init() {
	for _, k := range ref.Combos {
		byGCB[ref.GCB(k)] = append(byGCB[ref.GCB(k)], k)
		switch ref.InCB(k) {
		case ref.ILink:
			kLink = append(kLink, k)
		case ref.IExt:
			kIExt = append(kIExt, k)
		case ref.ICons:
			kCons_ = append(kCons_, k)
		}
	}
}

func G(r *rng.R, gcb uint8) int { ks := byGCB[gcb]; return Member(r, ks[r.N(len(ks))]) }
func Link(r *rng.R) int         { return Member(r, kLink[r.N(len(kLink))]) }
func IExt(r *rng.R) int         { return Member(r, kIExt[r.N(len(kIExt))]) }
func Cons(r *rng.R) int         { return Member(r, kCons_[r.N(len(kCons_))]) }

// RunLen picks a run length: mostly short, with the neighbourhoods of powers
// of two and of well-known limits over-represented, up to max.
func RunLen(r *rng.R, max int) int {
	var n int
	switch r.N(11) {
	case 10:
		if len(dictInts) > 0 {
			n = dictInts[r.N(len(dictInts))]
			if n < 1<<20 {
				n += r.In(-2, 2)
			}
			break
		}
		n = r.N(100)
	case 0, 1, 2, 3:
		n = r.N(4)
	case 4, 5, 6:
		n = r.N(12)
	case 7:
		n = []int{28, 29, 30, 31, 32, 33, 34, 62, 63, 64, 65, 66}[r.N(12)]
	default:
		n = 1<<r.In(4, 17) + r.In(-3, 3)
	}
	if n > max {
		n = r.N(max + 1)
	}
	if n < 0 {
		n = 0
	}
	return n
}

// Style weights of one run (swarm testing: each run draws its own).
type Style struct {
	W       []int // per combo
	Motif   int   // percent of motifs among items
	LineP   int   // one in LineP items ends a line (0: never)
	MaxRun  int
	Invalid int // one in Invalid items is undecodable bytes (0: never)
	Weird   int // one in Weird items is overlong/surrogate/out of range (0: never)
}

func NewStyle(r *rng.R) Style {
	s := Style{MaxRun: []int{6, 40, 40, 300}[r.N(4)]}
	for range ref.Combos {
		w := 1
		switch r.N(4) {
		case 0:
			w = 0
		case 1:
			w = 4
		case 2:
			w = 12
		}
		s.W = append(s.W, w)
	}
	s.W[r.N(len(s.W))] += 3
	s.Motif = []int{0, 20, 50, 90}[r.N(4)]
	s.LineP = []int{0, 8, 30, 100}[r.N(4)]
	return s
}

// Text makes a text of about n items.
func Text(r *rng.R, s Style, n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		switch {
		case s.Invalid > 0 && r.N(s.Invalid) == 0:
			b = Bad(r, b)
		case s.Weird > 0 && r.N(s.Weird) == 0:
			b = Weird(r, b)
		case r.N(100) < s.Motif:
			b = Motif(r, b, s.MaxRun)
		default:
			b = Enc(b, Member(r, ref.Combos[r.Pick(s.W)]))
		}
		if s.LineP > 0 && r.N(s.LineP) == 0 {
			b = append(b, []string{"\n", "\n", "\r\n", "\r"}[r.N(4)]...)
		}
	}
	max, bad := s.MaxRun, (s.Invalid > 0 || s.Weird > 0) && r.N(2) == 0
	if r.N(40) == 0 {
		max = 5000
	}
	switch r.N(12) {
	case 0, 1:
		b = Same(r, b, max, bad)
	case 2:
		b = append(Same(r, nil, max, bad), b...)
	case 3:
		if bad && max > 1000 { // of a kind throughout
			b = Same(r, b, max, bad)
			b = Same(r, b, max, bad)
		}
	}
	return b
}

// Same appends a run of one and the same character, or of a short string.
func Same(r *rng.R, b []byte, max int, bad bool) []byte {
	var u []byte
	k := r.N(4)
	if bad && r.N(2) == 0 {
		k = 4 + r.N(2)
	}
	switch k {
	case 4:
		u = []byte{byte(0x80 + r.N(128))}
	case 5:
		u = lit(r, true)
		max = max/(len(u)+1) + 2
	case 0:
		u = []byte{[]byte("\x00\x00 \t\n\r.-=a0\x7f\x1b")[r.N(13)]}
	case 1:
		u = Enc(nil, []int{0, 0xfeff, 0xfffd, 0xa0, 0x200d, 0x200b, 0xfe0f, 0x3000, 0x2028, 0xad, 0x1f1e6, 0x10ffff, 0xe000, 0xac00, 0x1100}[r.N(15)])
	case 2:
		u = Enc(nil, Member(r, ref.Combos[r.N(len(ref.Combos))]))
	default:
		u = lit(r, false)
		max = max/len(u) + 2
	}
	for n := RunLen(r, max+20); n >= 0; n-- {
		b = append(b, u...)
	}
	return b
}

// phrases occur in real streams.
var phrases = []string{"\r\n", "\n\r", "\x1b[31m", "\x1b[0m", "\x1b]8;;", "<b>", "&amp;", "{}", "\"\",", "://", "\\u0041", "%C3%A9", "--", "\ufeff\n", "\x00\n", "\x0c", "\u0085",
	"a\u0301", "\u00e9", "\U0001F468\u200d\U0001F469", "\U0001F1E9\U0001F1EA", "1\ufe0f\u20e3", "\u2764\ufe0f", "\u0915\u094d", "\u0e33", "\u1100\u1161\u11a8", "\u05d0", "\u0627\u0644", "\u200f", "\u202e", "\u2066", "\U000E0001", "\u0600", "\u00a9", "\u00ae", "\u3030", "\ud7a3",
	// what scripts and tailorings treat in ways of their own
	"\u0b95\u0bcd\u0bb7", "\u0bb8\u0bcd\u0bb0\u0bc0", "\u0bb6\u0bcd\u0bb0\u0bc0", "\u0e01\u0e33", "\u0e40\u0e01", "\u0e19\u0e49\u0e33", "\u0eb3", "\u0e81\u0eb3", "\u0edc\u0eb3",
	"\u1004\u103a\u1039\u1000", "\u1000\u1039\u1000", "\u1000\u103b\u1031", "\u1780\u17d2\u1780", "\u1780\u17d2", "\u1b13\u1b44\u1b13", "\u0f40\u0fb5\u0f72", "\u1a20\u1a60\u1a20", "\ua98f\ua9c0\ua98f",
	"\u0915\u094d\u200d\u0937", "\u0915\u094d\u200c\u0937", "\u0915\u094d\u0937\u093f", "\u0930\u094d\u0915", "\u0915\u093c\u094d\u0937", "\u0d28\u0d4d\u200d", "\u0d7b", "\u0d4e\u0d15", "\u0995\u09cd\u09b7", "\u09a4\u09cd\u200d", "\u0a15\u0acd", "\u0c95\u0ccd\u0cb7", "\u0dc1\u0dca\u200d\u0dbb\u0dd3", "\u0ab6\u0acd\u0ab0",
	"ch", "ll", "ij", "dz", "\u01c6", "\ufb01", "\u0132", "s\u030c", "o\u031b\u0323", "\u0344", "\u0345", "\u034f", "\u00df", "\u0130", "i\u0307",
	"\u05e9\u05c1\u05bc", "\u0628\u0651\u064e", "\u0644\u0627", "\ufdfd", "\u0640", "\u06dd1", "\u0710\u070f", "\U000110bd", "\u1820\u180b", "\u1820\u180e", "\u0f0b", "\u2d7f",
	"\u1112\u1161\u11ab", "\ud55c", "\uac00\u11a8", "\u115f\u1160", "\u3164", "\u302e", "\ua960\ud7b0\ud7cb", "\u304b\u3099", "\u304c", "\uff76\uff9e", "\u845b\U000E0100",
	"\U0001F44D\U0001F3FD", "\U0001F468\u200d\U0001F469\u200d\U0001F467", "\U0001F3F3\ufe0f\u200d\U0001F308", "\U0001F3F4\U000E0067\U000E0062\U000E0065\U000E006E\U000E0067\U000E007F", "#\ufe0f\u20e3", "\u263a\ufe0e", "\U0001F1FA\U0001F1F8\U0001F1EC\U0001F1E7", "\u2640\ufe0f", "\U0001F469\U0001F3FD\u200d\u2764\ufe0f\u200d\U0001F468", "\U0001FAF1\U0001F3FB\u200d\U0001FAF2\U0001F3FF",
	"\u00ad", "\u2060", "\u200b", "\u200c", "\u2028", "\u2029", "\u061c", "\ufff9", "\ufffc", "\ufffd", "\ufffe", "\uffff", "\U0010ffff", "\U000F0000", "\ue000", "\u0000", "\u007f", "\u0080", "\t", "\v", "\x1a", "\x04"}

// literal is a byte string out of the dictionary, or a phrase.
func literal(r *rng.R) []byte {
	switch k := r.N(4); {
	case k == 0 && len(dictStrings) > 0:
		return []byte(dictStrings[r.N(len(dictStrings))])
	case k == 1 && len(dictInts) > 0:
		for i := 0; i < 8; i++ {
			if n := dictInts[r.N(len(dictInts))]; n >= 0x80 && n <= 0x10ffff && (n < 0xd800 || n > 0xdfff) {
				return Enc(nil, n)
			}
		}
	case k == 2 && len(dictBytes) > 0:
		b := dictBytes[r.N(len(dictBytes))]
		i := r.N(len(b))
		return append([]byte(nil), b[i:min(len(b), i+1+r.N(4))]...)
	}
	return []byte(phrases[r.N(len(phrases))])
}

// lit is a literal that is decodable (any: not necessarily).
func lit(r *rng.R, any bool) []byte {
	b := literal(r)
	if any || utf8.Valid(b) && len(b) > 0 {
		return b
	}
	return []byte(phrases[r.N(len(phrases))])
}

// Word is a string the generator's sources mention, if any.
func Word(r *rng.R) string {
	if len(genStrings) == 0 || r.N(6) == 0 {
		return phrases[r.N(len(phrases))]
	}
	return genStrings[r.N(len(genStrings))]
}

// Num is a number the generator's sources mention, or one next to it.
func Num(r *rng.R, max int) int {
	for i := 0; i < 10 && len(genInts) > 0; i++ {
		if n := genInts[r.N(len(genInts))] + []int{-1, 0, 0, 1}[r.N(4)]; n <= max {
			return n
		}
	}
	return r.N(max + 1)
}

// Size picks a size that a limit might be drawn at, up to max: sizes of the
// dictionary and well-known ones.
func Size(r *rng.R, max int) int {
	if max > 1000 && r.N(5) == 0 {
		return r.In(max/2, max)
	}
	for i := 0; i < 20; i++ {
		n := 1 << r.In(6, 21)
		if r.N(3) == 0 {
			n = 1 << (bits.Len(uint(max)) - r.In(1, 3))
		}
		if r.N(5) == 0 {
			n = []int{100, 1000, 10000, 100000, 1000000, 65536, 65536, 1500, 4096, 32768}[r.N(10)]
		}
		if len(dictInts) > 0 && r.N(2) == 0 {
			n = dictInts[r.N(len(dictInts))]
		}
		if n >= 16 && n+8 <= max {
			return n + r.In(-3, 8)
		}
	}
	return r.In(1, max)
}

// Sized pads text to n bytes; the padding is cheap and the text lands at the
// start, the end or in between.
func Sized(r *rng.R, text []byte, n int, bad bool) []byte {
	if len(text) >= n {
		return text
	}
	var u []byte
	k := r.N(5)
	if bad && r.N(3) == 0 {
		k = 5
	}
	switch k {
	case 5:
		for len(u) == 0 || r.N(3) == 0 {
			u = Same(r, u, 1, true)
		}
		if r.N(3) == 0 {
			u = u[:1]
		}
	case 0:
		u = []byte("abc def ghi\n")
	case 1:
		u = []byte{"\n a"[r.N(3)]}
	case 2:
		u = append([]byte(nil), phrases[r.N(len(phrases))]...)
	case 3:
		for _, c := range Text(r, NewStyle(r), r.In(4, 60)) {
			u = append(u, c)
		}
		u = append(u, '\n')
	case 4:
		u = []byte("the quick brown \U0001F98A jumps over the lazy \U0001F436; c'est \u00e9t\u00e9\n")
	}
	pad := make([]byte, 0, n)
	for len(pad)+len(text)+len(u) <= n {
		pad = append(pad, u...)
	}
	for len(pad)+len(text) < n {
		pad = append(pad, "\n.a "[r.N(4)])
	}
	at := []int{0, len(pad), len(pad), r.N(len(pad) + 1)}[r.N(4)]
	for at < len(pad) && at > 0 && !utf8.RuneStart(pad[at]) {
		at--
	}
	return append(pad[:at:at], append(append([]byte(nil), text...), pad[at:]...)...)
}

// Motif appends one structured sequence, possibly subtly broken.
func Motif(r *rng.R, b []byte, max int) []byte {
	put := func(cp int) { b = Enc(b, cp) }
	rep := func(n int, f func() int) {
		for i := 0; i < n; i++ {
			put(f())
		}
	}
	ext := func() int { return G(r, ref.Extend) }
	if r.N(8) == 0 {
		put(G(r, ref.Prepend))
	}
	switch r.N(14) {
	case 12: // one and the same
		return Same(r, b, max, false)
	case 13: // from real streams
		for n := r.N(6); n >= 0; n-- {
			b = append(b, lit(r, false)...)
		}
	case 0: // flags
		rep(RunLen(r, max), func() int { return G(r, ref.RI) })
	case 1, 2: // emoji sequence
		for k := 0; k <= r.N(4); k++ {
			put(G(r, ref.ExtPict))
			rep(RunLen(r, max), ext)
			rep(1+r.N(8)/7, func() int { return G(r, ref.ZWJ) })
			if r.N(12) == 0 {
				put(ext())
			}
		}
		if r.N(3) > 0 {
			put(G(r, ref.ExtPict))
		}
	case 3, 4: // conjunct
		for k := 0; k <= r.N(3); k++ {
			put(Cons(r))
			rep(RunLen(r, max), func() int {
				if r.N(3) == 0 {
					return Link(r)
				}
				return IExt(r)
			})
			if r.N(3) > 0 {
				put(Link(r))
			}
			rep(RunLen(r, max)*r.N(2), func() int { return IExt(r) })
			if r.N(12) == 0 {
				put(G(r, ref.SpacingMark))
			}
		}
		put(Cons(r))
	case 5: // Hangul
		rep(RunLen(r, 6), func() int { return G(r, ref.L) })
		put(G(r, []uint8{ref.LV, ref.LVT, ref.V, ref.L}[r.N(4)]))
		rep(RunLen(r, max)*r.N(2), func() int { return G(r, ref.V) })
		rep(RunLen(r, max), func() int { return G(r, ref.T) })
	case 6: // base with marks
		put(G(r, ref.None))
		rep(RunLen(r, max), func() int {
			return G(r, []uint8{ref.Extend, ref.Extend, ref.SpacingMark, ref.ZWJ}[r.N(4)])
		})
	case 7: // prepend run
		rep(RunLen(r, max), func() int { return G(r, ref.Prepend) })
		put(G(r, uint8(r.N(int(ref.NGCB)))))
	case 8: // line ends
		rep(1+r.N(3), func() int { return []int{'\r', '\n', '\r', 0x2028, 0x200b, 0}[r.N(6)] })
	case 9: // words
		rep(r.N(12), func() int { return 'a' + r.N(26) })
		put(' ')
	case 10: // keycaps, tags
		put('0' + r.N(10))
		put(0xfe0f)
		put(0x20e3)
		if r.N(2) == 0 {
			put(0x1f3f4)
			rep(RunLen(r, max), func() int { return 0xe0020 + r.N(0x60) })
		}
	case 11: // one character of some class repeated
		k := ref.Combos[r.N(len(ref.Combos))]
		rep(RunLen(r, max), func() int { return Member(r, k) })
	}
	return b
}

// Bad appends bytes that contain at least one structurally undecodable byte.
func Bad(r *rng.R, b []byte) []byte {
	cont := func() byte { return byte(0x80 + r.N(64)) }
	switch r.N(8) {
	case 0:
		return append(b, cont())
	case 7:
		if x := literal(r); !utf8.Valid(x) {
			return append(b, x...)
		}
		return append(b, cont())
	case 6:
		return append(b, []string{"\xff\xfe", "\xfe\xff", "\xff\xff\xff\xff", "\x80\x80\x80\x80\x80", "\xff\xfb", "\x1f\x8b\xff"}[r.N(6)]...)
	case 1:
		return append(b, byte(0xf8+r.N(8)))
	case 2:
		b = append(b, byte(0xc2+r.N(30)))
	case 3:
		b = append(b, byte(0xe1+r.N(12)))
		for k := r.N(2); k > 0; k-- {
			b = append(b, cont())
		}
	case 4:
		b = append(b, byte(0xf1+r.N(3)))
		for k := r.N(3); k > 0; k-- {
			b = append(b, cont())
		}
	case 5: // a real character cut short
		e := Enc(nil, Member(r, ref.Combos[r.N(len(ref.Combos))]))
		if len(e) > 1 {
			return append(b, e[:1+r.N(len(e)-1)]...)
		}
		return append(b, 0xff)
	}
	// A truncated sequence must not be completed by what follows.
	if r.N(3) == 0 {
		b = append(b, byte(0xf8+r.N(8)))
	}
	return b
}

// Weird appends an overlong, surrogate or out-of-range sequence.
func Weird(r *rng.R, b []byte) []byte {
	cont := func() byte { return byte(0x80 + r.N(64)) }
	switch r.N(6) {
	case 0:
		return append(b, byte(0xc0+r.N(2)), cont())
	case 1:
		return append(b, 0xe0, byte(0x80+r.N(32)), cont())
	case 2:
		return append(b, 0xed, byte(0xa0+r.N(32)), cont())
	case 3:
		return append(b, 0xf0, byte(0x80+r.N(16)), cont(), cont())
	case 4:
		return append(b, 0xf4, byte(0x90+r.N(48)), cont(), cont())
	}
	return append(b, byte(0xf5+r.N(3)), cont(), cont(), cont())
}

// Raw makes n arbitrary bytes with a bias to lead and continuation bytes.
func Raw(r *rng.R, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch r.N(4) {
		case 0:
			b[i] = byte(r.U64())
		case 1:
			b[i] = byte(0x80 + r.N(64))
		case 2:
			b[i] = byte(0xc0 + r.N(64))
		default:
			b[i] = byte(r.N(128))
		}
	}
	for k := 0; n > 0 && k < 4; k++ {
		if r.N(6) == 0 {
			copy(b[r.N(n):], literal(r))
		}
	}
	for n > 0 && r.N(4) == 0 { // runs of one byte
		i := []int{0, r.N(n), max(0, n-1-r.N(70))}[r.N(3)]
		x := []byte{0, 0xff, ' ', '\n', 0x80, b[i]}[r.N(6)]
		for j := min(n, i+RunLen(r, 80)); i < j; i++ {
			b[i] = x
		}
	}
	return b
}

// Mixed makes about n bytes of a few short strings in random order, so that
// whatever one of them may trigger is met at most offsets and lengths.
func Mixed(r *rng.R, n int, bad bool) []byte {
	var us [][]byte
	for k := r.In(1, 4); k > 0; k-- {
		var u []byte
		for j := r.In(1, 2); j > 0; j-- {
			switch x := r.N(8); {
			case x < 2 && bad:
				u = Bad(r, u)
			case x < 3 && bad:
				u = Weird(r, u)
			case x < 5:
				u = Enc(u, Member(r, ref.Combos[r.N(len(ref.Combos))]))
			case x < 6:
				u = Enc(u, Scalar(r.N(NCP)))
			default:
				u = append(u, "aZ0 \n\r.\x00"[r.N(8)])
			}
		}
		us = append(us, u)
	}
	var b []byte
	for len(b) < n {
		b = append(b, us[r.N(len(us))]...)
	}
	return b
}

// Deck visits [0,n) in a seed-dependent order without repetition: index i of
// the deck is (a*i+b) mod n with a coprime to n.
type Deck struct{ n, a, b int }

func NewDeck(seed uint64, n int) Deck {
	r := rng.New(seed, 0xdec)
	a := 1 + r.N(n-1)
	for gcd(a, n) != 1 {
		a = 1 + r.N(n-1)
	}
	return Deck{n, a, r.N(n)}
}
func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func (d Deck) At(i int) int {
	i %= d.n
	return int((uint64(d.a)*uint64(i) + uint64(d.b)) % uint64(d.n))
}

// contexts name what surrounds the code point under study, X. Letters stand
// for classes; see fill.
var contexts = []string{
	"aXa", "aXx", "PXP", "cXl", "Xl", "cX", "LXV", "LXT", "vXV", "VXT", "VXV", "XL", "wXT", "TXT", "RXRR", "RRXR",
	"EXzE", "EzXE", "ExzXx", "ExXzE", "XzE", "XxzE", "CkXC", "CXC", "CXkC", "CkX", "XkC", "CxXkC", "CkXxC", "XS", "SX", "zX", "Xz", "XX", "XXX", "PX", "Xx",
}

// CPShort writes a few contexts for the code point, without line ends between.
func CPShort(r *rng.R, b []byte, cp int) []byte {
	b = append(b, 'a')
	b = Enc(b, cp)
	b = append(b, 'x')
	b = Enc(b, cp)
	b = Enc(b, cp)
	b = Enc(b, Member(r, ref.Combos[r.N(len(ref.Combos))]))
	b = Enc(b, cp)
	b = Enc(b, G(r, uint8(r.N(int(ref.NGCB)))))
	return append(b, '\n')
}

// CPDoc writes every context for the code point.
func CPDoc(r *rng.R, b []byte, cp int) []byte {
	for _, c := range contexts {
		for i := 0; i < len(c); i++ {
			switch c[i] {
			case 'X':
				b = Enc(b, cp)
			case 'a':
				b = append(b, 'a')
			case 'x':
				b = Enc(b, G(r, ref.Extend))
			case 'P':
				b = Enc(b, G(r, ref.Prepend))
			case 'c':
				b = append(b, '\r')
			case 'l':
				b = append(b, '\n')
			case 'L':
				b = Enc(b, G(r, ref.L))
			case 'V':
				b = Enc(b, G(r, ref.V))
			case 'T':
				b = Enc(b, G(r, ref.T))
			case 'v':
				b = Enc(b, G(r, ref.LV))
			case 'w':
				b = Enc(b, G(r, ref.LVT))
			case 'R':
				b = Enc(b, G(r, ref.RI))
			case 'E':
				b = Enc(b, G(r, ref.ExtPict))
			case 'z':
				b = Enc(b, 0x200d)
			case 'C':
				b = Enc(b, Cons(r))
			case 'k':
				b = Enc(b, Link(r))
			case 'S':
				b = Enc(b, G(r, ref.SpacingMark))
			}
		}
		b = append(b, '\n')
	}
	return b
}

// NGram writes the n-gram of classes with the given number (base len(Combos)).
func NGram(r *rng.R, b []byte, code, n int) []byte {
	k := len(ref.Combos)
	for i := 0; i < n; i++ {
		b = Enc(b, Member(r, ref.Combos[code%k]))
		code /= k
	}
	return b
}

// Pow is k^n.
func Pow(k, n int) int {
	p := 1
	for ; n > 0; n-- {
		p *= k
	}
	return p
}

// Long makes a text containing one cluster of about n bytes.
func Long(r *rng.R, n int) []byte {
	var b []byte
	if r.N(2) == 0 {
		b = append(b, "ab\n"...)
	}
	kind := r.N(6)
	start := len(b)
	switch kind {
	case 0:
		b = Enc(b, G(r, ref.None))
	case 1:
		b = Enc(b, G(r, ref.ExtPict))
	case 2, 3:
		b = Enc(b, Cons(r))
	case 4:
		b = Enc(b, G(r, ref.L))
	case 5:
		b = Enc(b, G(r, ref.Prepend))
	}
	link := false
	for len(b)-start < n {
		switch kind {
		case 0:
			b = Enc(b, G(r, []uint8{ref.Extend, ref.SpacingMark, ref.ZWJ}[r.N(3)]))
		case 1:
			b = Enc(b, G(r, ref.Extend))
		case 2:
			b = Enc(b, IExt(r))
		case 3:
			if !link || r.N(10) == 0 {
				b = Enc(b, Link(r))
				link = true
			} else {
				b = Enc(b, IExt(r))
			}
		case 4:
			b = Enc(b, G(r, ref.L))
		case 5:
			b = Enc(b, G(r, ref.Prepend))
		}
	}
	switch kind {
	case 1:
		b = Enc(b, 0x200d)
		b = Enc(b, G(r, ref.ExtPict))
	case 2, 3:
		b = Enc(b, Cons(r))
	case 4:
		b = Enc(b, G(r, ref.LVT))
	case 5:
		b = Enc(b, G(r, uint8(r.N(int(ref.NGCB)))))
	}
	b = append(b, "x\ny"...)
	return b
}
