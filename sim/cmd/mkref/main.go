// mkref condenses the Unicode data files into the reference model's own table.
// It was run once on the pinned commit's copy of the Unicode 17.0 files; its
// output (ref/ucd17.txt) is committed and never regenerated by a check, so
// that a later change to the repository's data files is seen as a change.
// It has its own parser and shares no code with the repository.
package main

import (
	"fmt"
	"os"
	"strings"
)

func main() {
	dir := os.Args[1]
	emit := func(file, tag string, want func(f []string) (string, bool)) {
		raw, err := os.ReadFile(dir + "/" + file)
		if err != nil {
			panic(err)
		}
		for _, line := range strings.Split(string(raw), "\n") {
			if i := strings.IndexByte(line, '#'); i >= 0 {
				line = line[:i]
			}
			f := strings.Split(line, ";")
			for i := range f {
				f[i] = strings.TrimSpace(f[i])
			}
			if len(f) < 2 {
				continue
			}
			v, ok := want(f[1:])
			if !ok {
				continue
			}
			lo, hi, isRange := strings.Cut(f[0], "..")
			if !isRange {
				hi = lo
			}
			fmt.Printf("%s %s %s %s\n", tag, lo, hi, v)
		}
	}
	emit("auxiliary/GraphemeBreakProperty.txt", "G", func(f []string) (string, bool) { return f[0], true })
	emit("emoji/emoji-data.txt", "E", func(f []string) (string, bool) { return "ExtPict", f[0] == "Extended_Pictographic" })
	emit("DerivedCoreProperties.txt", "I", func(f []string) (string, bool) {
		if f[0] != "InCB" {
			return "", false
		}
		return f[1], true
	})
}
