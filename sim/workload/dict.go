package workload

// The dictionary of the tree under test: literals of its sources, which the
// instrumenter writes in place of this file. They guide what is generated
// (as sizes, code points, byte strings), never what is right.
var (
	dictStrings []string
	dictInts    []int
	dictBytes   [][]byte // small integers of one function, in order

	// Those of the generator and its parsers.
	genStrings []string
	genInts    []int
	genBytes   [][]byte
)
