package hook

import (
	"cmp"
	"fmt"
	"io"
	"iter"
	"math/rand"
	randv2 "math/rand/v2"
	"slices"
	"time"
)

// The sources of chance a Go program has besides its scheduler: the order in
// which a map is walked, the clock, the random number generators and the size
// of the machine. The instrumenter sends all of them here, and one seed
// decides them.

var (
	chanceNow  *chances
	chanceSeed = func() uint64 { return 0 }
)

type chances struct {
	seed  uint64
	maps  *randv2.Rand
	v1    *rand.Rand
	v2    *randv2.Rand
	clock *randv2.Rand
	now   time.Time
}

func newChance(seed uint64) *chances {
	g := func(k uint64) *randv2.Rand { return randv2.New(randv2.NewPCG(seed, k)) }
	c := &chances{seed: seed, maps: g(1), v2: g(3), clock: g(4), v1: rand.New(rand.NewSource(int64(seed) ^ 5))}
	// Any moment of the years 2020 to 2039.
	c.now = time.Unix(1577836800+int64(c.clock.Uint64N(631152000)), int64(c.clock.Uint64N(1e9)))
	return c
}

// Chance fixes everything that is otherwise left to chance from here on. The
// seed is only asked for if it matters.
func Chance(seed func() uint64) {
	chanceNow, chanceSeed = nil, seed
	stopAmbient()
}

func chance() *chances {
	if chanceNow == nil {
		chanceNow = newChance(chanceSeed())
	}
	return chanceNow
}

// MapRange walks a map in an order of the simulator's choice.
func MapRange[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range MapKeys(m) {
			v, ok := m[k]
			if !ok {
				continue // removed on the way
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// MapKeys are the keys in the order of the simulator's choice.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	sortKeys(keys)
	chance().maps.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	return keys
}

func sortKeys[K comparable](keys []K) {
	switch k := any(keys).(type) {
	case []string:
		slices.Sort(k)
	case []int:
		slices.Sort(k)
	case []rune:
		slices.Sort(k)
	default:
		type pair struct {
			s string
			k K
		}
		l := make([]pair, len(keys))
		for i, x := range keys {
			l[i] = pair{fmt.Sprintf("%020v", x), x}
		}
		slices.SortFunc(l, func(a, b pair) int { return cmp.Compare(a.s, b.s) })
		for i := range l {
			keys[i] = l[i].k
		}
	}
}

// Now is the simulated clock: it advances by anything from nothing to hours
// between two looks, and now and then it is set back.
func Now() time.Time {
	c := chance()
	switch r := c.clock.Uint64N(64); {
	case r == 0:
		c.now = c.now.Add(-time.Duration(c.clock.Uint64N(uint64(2 * time.Hour))))
	case r < 4:
		c.now = c.now.Add(time.Duration(c.clock.Uint64N(uint64(26 * time.Hour))))
	case r < 40:
		c.now = c.now.Add(time.Duration(c.clock.Uint64N(uint64(time.Second))))
	}
	return c.now
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration) {
	if d > 0 {
		chance().now = chance().now.Add(d)
	}
	Nap()
}

func NumCPU() int { return 1 + int(chance().seed%13) }
func GOMAXPROCS(n int) int {
	return NumCPU()
}
func Rand() *rand.Rand      { return chance().v1 }
func Rand2() *randv2.Rand   { return chance().v2 }
func RandReader() io.Reader { return Rand() }
func RandRead(b []byte) (int, error) {
	return Rand().Read(b)
}
