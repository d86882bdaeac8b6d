// Package vruntime stands in for package runtime, with a settable CPU count.
package vruntime

import "runtime"

var CPUs = 0 // 0: the real number

const (
	GOOS     = runtime.GOOS
	GOARCH   = runtime.GOARCH
	Compiler = runtime.Compiler
)

type (
	MemStats = runtime.MemStats
	Error    = runtime.Error
	Frames   = runtime.Frames
	Frame    = runtime.Frame
	Func     = runtime.Func
)

var (
	GC             = runtime.GC
	Gosched        = runtime.Gosched
	GOMAXPROCS     = runtime.GOMAXPROCS
	NumGoroutine   = runtime.NumGoroutine
	ReadMemStats   = runtime.ReadMemStats
	KeepAlive      = runtime.KeepAlive
	SetFinalizer   = runtime.SetFinalizer
	Stack          = runtime.Stack
	Caller         = runtime.Caller
	Callers        = runtime.Callers
	CallersFrames  = runtime.CallersFrames
	FuncForPC      = runtime.FuncForPC
	Goexit         = runtime.Goexit
	LockOSThread   = runtime.LockOSThread
	UnlockOSThread = runtime.UnlockOSThread
	Version        = runtime.Version
	NumCgoCall     = runtime.NumCgoCall
)

func NumCPU() int {
	if CPUs > 0 {
		return CPUs
	}
	return runtime.NumCPU()
}
