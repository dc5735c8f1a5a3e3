// Package simruntime neutralises the parts of package runtime that depend on the
// real scheduler and collector.
package simruntime

import "dst/sim"

// SetFinalizer: finalizers never run during a simulated run.
func SetFinalizer(any, any) {}

// Gosched is a scheduling point.
func Gosched() {
	if sim.S != nil {
		sim.SyncPoint()
	}
}

func GC()                {}
func KeepAlive(any)      {}
func NumCPU() int        { return 4 }
func GOMAXPROCS(int) int { return 4 }
func NumGoroutine() int  { return 1 }
func LockOSThread()      {}
func UnlockOSThread()    {}
func Goexit()            { panic("simruntime: Goexit is not simulated") }
