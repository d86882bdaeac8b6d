// Package vatomic stands in for package sync/atomic in sched mode.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif.local/w/vsched"
)

type (
	Value  = atomic.Value
	Bool   = atomic.Bool
	Int32  = atomic.Int32
	Int64  = atomic.Int64
	Uint32 = atomic.Uint32
	Uint64 = atomic.Uint64
)

func p() { vsched.P("atomic") }

func AddInt32(a *int32, d int32) int32              { p(); return atomic.AddInt32(a, d) }
func AddInt64(a *int64, d int64) int64              { p(); return atomic.AddInt64(a, d) }
func AddUint32(a *uint32, d uint32) uint32          { p(); return atomic.AddUint32(a, d) }
func AddUint64(a *uint64, d uint64) uint64          { p(); return atomic.AddUint64(a, d) }
func LoadInt32(a *int32) int32                      { p(); return atomic.LoadInt32(a) }
func LoadInt64(a *int64) int64                      { p(); return atomic.LoadInt64(a) }
func LoadUint32(a *uint32) uint32                   { p(); return atomic.LoadUint32(a) }
func LoadUint64(a *uint64) uint64                   { p(); return atomic.LoadUint64(a) }
func StoreInt32(a *int32, v int32)                  { p(); atomic.StoreInt32(a, v) }
func StoreInt64(a *int64, v int64)                  { p(); atomic.StoreInt64(a, v) }
func StoreUint32(a *uint32, v uint32)               { p(); atomic.StoreUint32(a, v) }
func StoreUint64(a *uint64, v uint64)               { p(); atomic.StoreUint64(a, v) }
func SwapInt32(a *int32, v int32) int32             { p(); return atomic.SwapInt32(a, v) }
func SwapInt64(a *int64, v int64) int64             { p(); return atomic.SwapInt64(a, v) }
func CompareAndSwapInt32(a *int32, o, n int32) bool { p(); return atomic.CompareAndSwapInt32(a, o, n) }
func CompareAndSwapInt64(a *int64, o, n int64) bool { p(); return atomic.CompareAndSwapInt64(a, o, n) }
func CompareAndSwapUint32(a *uint32, o, n uint32) bool {
	p()
	return atomic.CompareAndSwapUint32(a, o, n)
}
func CompareAndSwapUint64(a *uint64, o, n uint64) bool {
	p()
	return atomic.CompareAndSwapUint64(a, o, n)
}
func LoadPointer(a *unsafe.Pointer) unsafe.Pointer     { p(); return atomic.LoadPointer(a) }
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) { p(); atomic.StorePointer(a, v) }
