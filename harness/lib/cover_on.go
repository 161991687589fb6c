//go:build covfuzz

package lib

import "unsafe"

// The code under test is compiled with the instrumentation of the Go fuzzer: the linker places one
// counter for each branch between these two symbols, and each comparison of integers calls one of
// the functions below.

//go:linkname counters internal/fuzz._counters
var counters [0]byte

//go:linkname ecounters internal/fuzz._ecounters
var ecounters [0]byte

func coverCounters() []byte {
	a, b := uintptr(unsafe.Pointer(&counters)), uintptr(unsafe.Pointer(&ecounters))
	if b <= a {
		return nil
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(&counters)), b-a)
}

//go:linkname traceCmp1 runtime.libfuzzerTraceCmp1
func traceCmp1(a, b uint8, pc uint) { traceCompare(uint64(a), uint64(b), pc) }

//go:linkname traceCmp2 runtime.libfuzzerTraceCmp2
func traceCmp2(a, b uint16, pc uint) { traceCompare(uint64(a), uint64(b), pc) }

//go:linkname traceCmp4 runtime.libfuzzerTraceCmp4
func traceCmp4(a, b uint32, pc uint) { traceCompare(uint64(a), uint64(b), pc) }

//go:linkname traceCmp8 runtime.libfuzzerTraceCmp8
func traceCmp8(a, b uint64, pc uint) { traceCompare(a, b, pc) }

//go:linkname traceConstCmp1 runtime.libfuzzerTraceConstCmp1
func traceConstCmp1(a, b uint8, pc uint) { traceCompare(uint64(a), uint64(b), pc) }

//go:linkname traceConstCmp2 runtime.libfuzzerTraceConstCmp2
func traceConstCmp2(a, b uint16, pc uint) { traceCompare(uint64(a), uint64(b), pc) }

//go:linkname traceConstCmp4 runtime.libfuzzerTraceConstCmp4
func traceConstCmp4(a, b uint32, pc uint) { traceCompare(uint64(a), uint64(b), pc) }

//go:linkname traceConstCmp8 runtime.libfuzzerTraceConstCmp8
func traceConstCmp8(a, b uint64, pc uint) { traceCompare(a, b, pc) }

//go:linkname hookStrCmp runtime.libfuzzerHookStrCmp
func hookStrCmp(a, b string, pc uint) {}

//go:linkname hookEqualFold runtime.libfuzzerHookEqualFold
func hookEqualFold(a, b string, pc uint) {}
