//go:build race

package rt

import (
	"runtime"
	"unsafe"
)

const RaceBuild = true

// The happens-before edges of the stand-ins, and no others.

var poolTags [257]byte

//go:norace
func word(x any) uintptr { return (*[2]uintptr)(unsafe.Pointer(&x))[1] }

//go:norace
func Acquire(x any) { runtime.RaceAcquire(unsafe.Pointer(&poolTags[(word(x)>>4)%257])) }

//go:norace
func Release(x any) { runtime.RaceReleaseMerge(unsafe.Pointer(&poolTags[(word(x)>>4)%257])) }

//go:norace
func AcquireLock(tag **byte) {
	if *tag == nil {
		*tag = new(byte)
	}
	runtime.RaceAcquire(unsafe.Pointer(*tag))
}

//go:norace
func ReleaseLock(tag **byte) {
	if *tag == nil {
		*tag = new(byte)
	}
	runtime.RaceReleaseMerge(unsafe.Pointer(*tag))
}
func RaceErrors() int { return runtime.RaceErrors() }
