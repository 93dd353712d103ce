// mkcollide made sim/workload/collide.go, once.
package main

import (
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"hash/fnv"
	"math/bits"

	"verifsim/ref"
	"verifsim/rng"
	"verifsim/workload"
)

func poly(m uint32, init uint32, xor bool) func([]byte) uint32 {
	return func(b []byte) uint32 {
		h := init
		for _, c := range b {
			if xor {
				h = h*m ^ uint32(c)
			} else {
				h = h*m + uint32(c)
			}
		}
		return h
	}
}
func murmur(b []byte) uint32 {
	h := uint32(0)
	n := len(b)
	for len(b) >= 4 {
		k := uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
		k = bits.RotateLeft32(k*0xcc9e2d51, 15) * 0x1b873593
		h = bits.RotateLeft32(h^k, 13)*5 + 0xe6546b64
		b = b[4:]
	}
	k := uint32(0)
	for i := len(b) - 1; i >= 0; i-- {
		k = k<<8 | uint32(b[i])
	}
	if len(b) > 0 {
		h ^= bits.RotateLeft32(k*0xcc9e2d51, 15) * 0x1b873593
	}
	h ^= uint32(n)
	h ^= h >> 16
	h *= 0x85ebca6b
	h ^= h >> 13
	h *= 0xc2b2ae35
	return h ^ h>>16
}
func jenkins(b []byte) uint32 {
	h := uint32(0)
	for _, c := range b {
		h += uint32(c)
		h += h << 10
		h ^= h >> 6
	}
	h += h << 3
	h ^= h >> 11
	return h + h<<15
}

func main() {
	cast := crc32.MakeTable(crc32.Castagnoli)
	hs := []struct {
		name string
		f    func([]byte) uint32
	}{
		{"h*31+b", poly(31, 0, false)}, {"h*33+b", poly(33, 5381, false)}, {"h*33^b", poly(33, 5381, true)},
		{"h*65599+b", poly(65599, 0, false)}, {"h*131+b", poly(131, 0, false)}, {"h*37+b", poly(37, 0, false)}, {"h*31^b", poly(31, 0, true)},
		{"fnv1", func(b []byte) uint32 { h := fnv.New32(); h.Write(b); return h.Sum32() }},
		{"fnv1a", func(b []byte) uint32 { h := fnv.New32a(); h.Write(b); return h.Sum32() }},
		{"crc32", crc32.ChecksumIEEE}, {"crc32c", func(b []byte) uint32 { return crc32.Checksum(b, cast) }},
		{"adler32", adler32.Checksum},
		{"sum", func(b []byte) uint32 { return poly(1, 0, false)(b) }},
		{"xor", func(b []byte) uint32 { return poly(1, 0, true)(b) }},
		{"murmur3", murmur}, {"jenkins", jenkins},
		{"h*16777619^b0", poly(16777619, 0, true)}, {"h*16777619+b", poly(16777619, 2166136261, false)},
		{"h*5+b", poly(5, 0, false)}, {"h*257+b", poly(257, 0, false)}, {"h*101+b", poly(101, 0, false)}, {"h*53+b", poly(53, 0, false)},
		{"rotl5^b", func(b []byte) uint32 {
			h := uint32(0)
			for _, c := range b {
				h = bits.RotateLeft32(h, 5) ^ uint32(c)
			}
			return h
		}},
		{"rotl1+b", func(b []byte) uint32 {
			h := uint32(0)
			for _, c := range b {
				h = bits.RotateLeft32(h, 1) + uint32(c)
			}
			return h
		}},
	}
	r := rng.New(12345)
	type entry struct{ b []byte }
	var texts [][]byte
	for len(texts) < 3000000 {
		var b []byte
		for k := r.In(2, 5); k > 0; k-- {
			if r.N(3) == 0 {
				b = append(b, byte(r.In(10, 126)))
			} else {
				b = workload.Enc(b, workload.Member(r, ref.Combos[r.N(len(ref.Combos))]))
			}
		}
		if len(b) <= 12 {
			texts = append(texts, b)
		}
	}
	first := func(b []byte) int { e, _ := ref.Tokens(b); return e[0] }
	fmt.Print("package workload\n\n// Collisions are pairs of texts of one length that begin with different\n// clusters and are the same to a hash function that somebody might use.\nvar Collisions = [][2]string{\n")
	for _, h := range hs {
		seen := map[uint64]int{}
		n := 0
		fmt.Printf("\t// %s\n", h.name)
		for i, b := range texts {
			k := uint64(h.f(b))<<8 | uint64(len(b))
			j, ok := seen[k]
			if !ok {
				seen[k] = i
				continue
			}
			a := texts[j]
			if string(a) == string(b) {
				continue
			}
			if first(a) != first(b) {
				fmt.Printf("\t{%q, %q},\n", a, b)
				if n++; n == 10 {
					break
				}
			}
		}
	}
	fmt.Println("}")
}
