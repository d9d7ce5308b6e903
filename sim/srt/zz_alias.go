// Code generated by aliasgen. DO NOT EDIT.

package runtime

import real_ "runtime"

const (
	Compiler = real_.Compiler
	GOARCH   = real_.GOARCH
	GOOS     = real_.GOOS
)

var (
	BlockProfile            = real_.BlockProfile
	Breakpoint              = real_.Breakpoint
	CPUProfile              = real_.CPUProfile
	Caller                  = real_.Caller
	Callers                 = real_.Callers
	CallersFrames           = real_.CallersFrames
	FuncForPC               = real_.FuncForPC
	GC                      = real_.GC
	GOMAXPROCS              = real_.GOMAXPROCS
	GOROOT                  = real_.GOROOT
	Goexit                  = real_.Goexit
	GoroutineProfile        = real_.GoroutineProfile
	KeepAlive               = real_.KeepAlive
	LockOSThread            = real_.LockOSThread
	MemProfile              = real_.MemProfile
	MemProfileRate          = real_.MemProfileRate
	MutexProfile            = real_.MutexProfile
	NumCPU                  = real_.NumCPU
	NumCgoCall              = real_.NumCgoCall
	ReadMemStats            = real_.ReadMemStats
	ReadTrace               = real_.ReadTrace
	SetBlockProfileRate     = real_.SetBlockProfileRate
	SetCPUProfileRate       = real_.SetCPUProfileRate
	SetCgoTraceback         = real_.SetCgoTraceback
	SetDefaultGOMAXPROCS    = real_.SetDefaultGOMAXPROCS
	SetFinalizer            = real_.SetFinalizer
	SetMutexProfileFraction = real_.SetMutexProfileFraction
	Stack                   = real_.Stack
	StartTrace              = real_.StartTrace
	StopTrace               = real_.StopTrace
	ThreadCreateProfile     = real_.ThreadCreateProfile
	UnlockOSThread          = real_.UnlockOSThread
	Version                 = real_.Version
)

type (
	BlockProfileRecord = real_.BlockProfileRecord
	Cleanup            = real_.Cleanup
	Error              = real_.Error
	Frame              = real_.Frame
	Frames             = real_.Frames
	Func               = real_.Func
	MemProfileRecord   = real_.MemProfileRecord
	MemStats           = real_.MemStats
	PanicNilError      = real_.PanicNilError
	Pinner             = real_.Pinner
	StackRecord        = real_.StackRecord
	TypeAssertionError = real_.TypeAssertionError
)
