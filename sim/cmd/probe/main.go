// probe segments the texts given on standard input with the library it is
// linked with (C19: one that contains a generated table).
package main

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"os"

	"github.com/apparentlymart/go-textseg/v17/textseg"
)

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<16)
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	var n [binary.MaxVarintLen64]byte
	put := func(v int) { out.Write(n[:binary.PutUvarint(n[:], uint64(v))]) }
	for {
		l, err := binary.ReadUvarint(in)
		if err != nil {
			break
		}
		b := make([]byte, l)
		if _, err := io.ReadFull(in, b); err != nil {
			os.Exit(3)
		}
		ends, bad := segment(b)
		if bad != "" {
			fmt.Fprintln(os.Stderr, bad)
			ends = nil
		}
		put(len(ends))
		for _, e := range ends {
			put(e)
		}
	}
	out.Flush()
}

func segment(b []byte) (ends []int, bad string) {
	defer func() {
		if x := recover(); x != nil {
			bad = fmt.Sprintf("panic: %v", x)
		}
	}()
	for at := 0; at < len(b); {
		adv, _, err := textseg.ScanGraphemeClusters(b[at:], true)
		if err != nil || adv <= 0 || adv > len(b)-at {
			return nil, fmt.Sprintf("advance %d of %d, error %v", adv, len(b)-at, err)
		}
		at += adv
		ends = append(ends, at)
	}
	return
}
