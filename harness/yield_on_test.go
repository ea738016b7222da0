//go:build yields

package verifharness

import (
	"runtime"
	"sync"
	"sync/atomic"
)

// Gives the processor away around lock operations, now and then.
func setYield(seed int64, every int) {
	if every == 0 {
		sync.VerifYield = nil
		return
	}
	var n atomic.Uint64
	n.Store(uint64(seed))
	sync.VerifYield = func() {
		x := n.Add(0x9E3779B97F4A7C15)
		x ^= x >> 31
		x *= 0xBF58476D1CE4E5B9
		x ^= x >> 27
		if x%uint64(every) == 0 {
			for i := uint64(0); i <= (x>>32)%4; i++ {
				runtime.Gosched()
			}
		}
	}
}
