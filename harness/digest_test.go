package verifharness

import (
	"hash/crc32"
	"sync"
)

// Keys whose checksums are the extreme 32-bit numbers: whatever chooses a place by
// a checksum must find one for these too.

var digestSums = []uint32{0, 1, 2, 0x7fffffff, 0x7ffffffe, 0x80000000, 0x80000001, 0xffffffff, 0xfffffffe, 0xffff, 0x10000, 0xffff0000}

var digestNames = sync.OnceValue(func() []string {
	var out []string
	for _, tab := range []*crc32.Table{crc32.IEEETable, crc32.MakeTable(crc32.Castagnoli)} {
		for _, s := range digestSums {
			out = append(out, keyOf(tab, s))
		}
	}
	return out
})

// keyOf gives the four bytes with this checksum, which is affine in them.
func keyOf(tab *crc32.Table, want uint32) string {
	bytes := func(x uint32) []byte { return []byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)} }
	zero := crc32.Checksum(bytes(0), tab)
	var basis, who [32]uint32
	for i := 0; i < 32; i++ {
		v, w := crc32.Checksum(bytes(1<<i), tab)^zero, uint32(1)<<i
		for b := 31; b >= 0; b-- {
			if v>>b&1 == 0 {
				continue
			}
			if basis[b] == 0 {
				basis[b], who[b] = v, w
				break
			}
			v, w = v^basis[b], w^who[b]
		}
	}
	v, x := want^zero, uint32(0)
	for b := 31; b >= 0; b-- {
		if v>>b&1 == 1 {
			v, x = v^basis[b], x^who[b]
		}
	}
	return string(bytes(x))
}
