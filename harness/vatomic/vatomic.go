// Package vatomic stands in for sync/atomic when a schedule is replayed.
package vatomic

import (
	"sync/atomic"

	"github.com/xconnio/wampproto-go/internal/zzverif/vsync"
)

func LoadInt32(p *int32) int32             { vsync.Point(); return atomic.LoadInt32(p) }
func LoadInt64(p *int64) int64             { vsync.Point(); return atomic.LoadInt64(p) }
func LoadUint32(p *uint32) uint32          { vsync.Point(); return atomic.LoadUint32(p) }
func LoadUint64(p *uint64) uint64          { vsync.Point(); return atomic.LoadUint64(p) }
func StoreInt32(p *int32, v int32)         { vsync.Point(); atomic.StoreInt32(p, v) }
func StoreInt64(p *int64, v int64)         { vsync.Point(); atomic.StoreInt64(p, v) }
func StoreUint32(p *uint32, v uint32)      { vsync.Point(); atomic.StoreUint32(p, v) }
func StoreUint64(p *uint64, v uint64)      { vsync.Point(); atomic.StoreUint64(p, v) }
func AddInt32(p *int32, d int32) int32     { vsync.Point(); return atomic.AddInt32(p, d) }
func AddInt64(p *int64, d int64) int64     { vsync.Point(); return atomic.AddInt64(p, d) }
func AddUint32(p *uint32, d uint32) uint32 { vsync.Point(); return atomic.AddUint32(p, d) }
func AddUint64(p *uint64, d uint64) uint64 { vsync.Point(); return atomic.AddUint64(p, d) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	vsync.Point()
	return atomic.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	vsync.Point()
	return atomic.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	vsync.Point()
	return atomic.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	vsync.Point()
	return atomic.CompareAndSwapUint64(p, o, n)
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

type Bool struct{ v uint32 }

func b2u(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}
func (x *Bool) Load() bool                    { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(v bool)                  { StoreUint32(&x.v, b2u(v)) }
func (x *Bool) CompareAndSwap(o, n bool) bool { return CompareAndSwapUint32(&x.v, b2u(o), b2u(n)) }
