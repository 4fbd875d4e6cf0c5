// Package vrand stands in for golang.org/x/exp/rand in replays, so that the
// recorded random values are drawn again.
package vrand

import (
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
	"golang.org/x/exp/rand"
)

type (
	Rand         = rand.Rand
	Source       = rand.Source
	LockedSource = rand.LockedSource
	PCGSource    = rand.PCGSource
	Zipf         = rand.Zipf
)

var (
	New         = rand.New
	NewSource   = rand.NewSource
	NewZipf     = rand.NewZipf
	Seed        = rand.Seed
	Perm        = rand.Perm
	Shuffle     = rand.Shuffle
	Read        = rand.Read
	NormFloat64 = rand.NormFloat64
	ExpFloat64  = rand.ExpFloat64
	Float32     = rand.Float32
)

func Int63n(n int64) int64 {
	if v, ok := sym.RandHook("Int63n"); ok && n > 0 {
		return int64(v)
	}
	return rand.Int63n(n)
}

func Int31n(n int32) int32 {
	if v, ok := sym.RandHook("Int31n"); ok && n > 0 {
		return int32(v)
	}
	return rand.Int31n(n)
}

func Intn(n int) int {
	if v, ok := sym.RandHook("Intn"); ok && n > 0 {
		return int(v)
	}
	return rand.Intn(n)
}

func Int63() int64 {
	if v, ok := sym.RandHook("Int63"); ok {
		return int64(v)
	}
	return rand.Int63()
}

func Int31() int32 {
	if v, ok := sym.RandHook("Int31"); ok {
		return int32(v)
	}
	return rand.Int31()
}

func Int() int {
	if v, ok := sym.RandHook("Int"); ok {
		return int(v)
	}
	return rand.Int()
}

func Uint64() uint64 {
	if v, ok := sym.RandHook("Uint64"); ok {
		return v
	}
	return rand.Uint64()
}

func Uint32() uint32 {
	if v, ok := sym.RandHook("Uint32"); ok {
		return uint32(v)
	}
	return rand.Uint32()
}

func Float64() float64 {
	if v, ok := sym.RandHook("Float64"); ok {
		return float64(v) / (1 << 53)
	}
	return rand.Float64()
}
