//go:build !yields

package verifharness

func setYield(seed int64, every int) {}
