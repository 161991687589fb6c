package props

import (
	"fmt"
	"runtime"
	"time"

	msreader "github.com/twuillemin/modes/pkg/modes/reader"
	"verif/harness/lib"
	"verif/harness/spec"
)

// feeder evaluates messages of one kind, drawn from a seed, and keeps nothing of them.
type feeder struct {
	e     *lib.Ent
	k     int
	h     history
	name  string
	n     int
	fully bool // every result is used, with all its methods
	rare  int  // how much more rarely the results are used
}

// The kinds of messages: those of keptResults, the parity check, the positions, and any bytes to each reader.
var fedKinds = keptKinds + opKinds + len(entries)

func newFeeder(seed uint64, k int) *feeder {
	f := &feeder{e: lib.NewEnt(seed), k: k, h: history{bufs: map[string][]byte{}}, rare: 1}
	switch i := 0; {
	case k < keptKinds:
		i, _ = kindOf(k)
		f.name = entries[i].name
	case k == keptKinds:
		f.name = "the parity check"
	case k == keptKinds+1:
		f.name = "the positions"
	default:
		f.name = "any bytes to " + entries[k-keptKinds-opKinds].name
	}
	return f
}

// next is the next message: the index of its reader (or of the operation), the parameter and the bytes.
func (f *feeder) next() (i, p int, d []byte) {
	e := f.e
	switch {
	case f.k < keptKinds:
		i, gen := kindOf(f.k)
		return i, e.N(3) | e.N(4)<<8, gen(e)
	case f.k == keptKinds:
		d = entries[0].gen(e)
		if df := d[0] >> 3; (df == 17 || df == 18) && !e.P(4) {
			seal(d, 0)
			switch e.N(8) { // received with errors, or sealed for an interrogator
			case 0:
				flip(d, 6+e.N(8*len(d)-5))
			case 1:
				a := 6 + e.N(8*len(d)-5)
				for b := min(a+e.N(24), 8*len(d)); b >= a; b-- {
					if e.Bool() {
						flip(d, b)
					}
				}
			case 2:
				seal(d, uint32(e.N(128)))
			}
		} else if e.P(6) {
			seal(d, uint32(e.N(128)))
		} else if !e.P(4) {
			seal(d, uint32(e.Value(24)))
		}
		return len(entries), e.N(16), d
	case f.k == keptKinds+1:
		return len(entries) + 1, e.N(1 << 16), e.Bytes(8)
	}
	i = f.k - keptKinds - opKinds
	n := entries[i].lens[e.N(len(entries[i].lens))]
	if e.P(3) {
		n = e.N(17)
	}
	return i, int(e.Value(8)) | e.N(4)<<8, e.Mixed(n)
}

// fedOps are n operations of a feeder.
func fedOps(e *lib.Ent, k, n int) (l []lib.Hex) {
	f := newFeeder(e.U64(), k)
	for ; n > 0; n-- {
		i, p, d := f.next()
		l = append(l, opOf(i, p, d))
	}
	return l
}

func flip(d []byte, i int) { d[(i-1)>>3] ^= 0x80 >> uint((i-1)&7) }

// consume evaluates a message, and uses its result from time to time.
func (f *feeder) consume(i, p int, d []byte) {
	f.n++
	var v any
	var err error
	switch {
	case i < len(entries):
		v, err = entries[i].read(d, p)
	case i == len(entries):
		m, e := msreader.ReadMessage(d)
		if e != nil {
			return
		}
		a, b := allowLists(p)
		_, _ = msreader.CheckCRC(m, d, a, b)
		return
	default:
		for k := range f.h.bufs {
			delete(f.h.bufs, k)
		}
		f.h.bufs[string(d)] = d
		_, _ = f.h.run(append(opOf(i, p, nil), d...))
		return
	}
	if f.fully && (f.n%8 == 0 || err != nil) {
		fingerprint(v, err)
		return
	}
	if err != nil || spec.IsNil(v) {
		if err != nil && f.n%(4*f.rare) == 0 {
			_ = err.Error()
		}
		return
	}
	if m, ok := v.(interface{ CheckCoherency() error }); ok {
		_ = m.CheckCoherency()
	}
	if m, ok := v.(interface {
		GetSpeed() (uint32, error)
		GetTrack() (float32, error)
	}); ok {
		_, _ = m.GetSpeed()
		_, _ = m.GetTrack()
	}
	if m, ok := v.(interface{ ToString() string }); ok && (f.fully || f.n%(4*f.rare) == 0) {
		_ = m.ToString()
	}
}

func (f *feeder) run(n int) {
	for ; n > 0; n-- {
		f.consume(f.next())
	}
}

type footprint struct {
	bytes, objects, goroutines int64
}

func measure() footprint {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return footprint{int64(m.HeapAlloc), int64(m.HeapObjects), int64(runtime.NumGoroutine())}
}

// settled waits, a little, for the goroutines that are ending.
func settled(limit int64) int64 {
	for i := 0; i < 60 && int64(runtime.NumGoroutine()) > limit; i++ {
		time.Sleep(50 * time.Millisecond)
	}
	return int64(runtime.NumGoroutine())
}

// nothingKept reads many distinct messages of a kind: what they leave in memory does not grow with their number.
func nothingKept(c *lib.Case, o *lib.Obs) error {
	if len(c.N) < 3 || c.N[1] < 0 || c.N[2] < 1000 || c.N[2] > 1<<20 {
		return nil
	}
	f := newFeeder(uint64(c.N[0]), int(c.N[1])%fedKinds)
	window := int(c.N[2])
	o.NonTrivial()
	o.Class("memory: " + f.name)
	f.run(window)
	start := measure()
	first := start
	f.run(3 * window)
	end := measure()
	if g := end.goroutines - start.goroutines; g > 16 {
		if settled(start.goroutines+16)-start.goroutines > 16 {
			// A pool of threads stops growing.
			mid := int64(runtime.NumGoroutine())
			f.run(4 * window)
			if g := settled(mid+16) - mid; g > 16 {
				return fmt.Errorf("%s: %d goroutines are left by %d messages, and %d by %d others", f.name, mid-start.goroutines, 3*window, g, 4*window)
			}
		}
	}
	if end.bytes-start.bytes < 4096 {
		return nil
	}
	// A table which grows doubles its size from time to time: each measure is made on four times more messages.
	start = end
	f.run(12 * window)
	if end = measure(); end.bytes-start.bytes < 16384 {
		return nil
	}
	// It can be a memory whose size is limited: more messages tell.
	o.Class("memory: more messages")
	f.rare = 16
	for limit := time.Now().Add(patience); end.bytes-first.bytes < memoryLimit; end = measure() {
		if time.Now().After(limit) {
			o.Class("memory: growth within the limit")
			return nil
		}
		f.run(100000)
	}
	n := f.n
	f.run(n)
	if last := measure(); last.bytes-end.bytes > memoryLimit/2 {
		return fmt.Errorf("%s: %d messages leave %d bytes in memory, and the %d next ones %d bytes more (%d objects)", f.name, n, end.bytes-first.bytes, n, last.bytes-end.bytes, last.objects-end.objects)
	}
	return nil
}

const (
	memoryLimit  = 8 << 20 // what the library may keep
	messageLimit = 1 << 20 // what a message may allocate
	patience     = 40 * time.Second
)

// smallWork evaluates a few messages: none of them allocates much.
func smallWork(c *lib.Case, o *lib.Obs) error {
	if len(c.N) < 3 || c.N[1] < 0 || c.N[2] < 1 || c.N[2] > 64 {
		return nil
	}
	type message struct {
		i, p int
		d    []byte
	}
	f := newFeeder(uint64(c.N[0]), int(c.N[1])%fedKinds)
	o.NonTrivial()
	o.Class("allocations: " + f.name)
	l := make([]message, c.N[2])
	for j := range l {
		l[j].i, l[j].p, l[j].d = f.next()
	}
	cost := func(l []message) uint64 {
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		for j := range l {
			f.n = 4*f.rare - 1 // with its report
			f.consume(l[j].i, l[j].p, l[j].d)
		}
		runtime.ReadMemStats(&b)
		return b.TotalAlloc - a.TotalAlloc
	}
	if cost(l) < messageLimit {
		return nil
	}
	for j := range l {
		// The first message can prepare tables: the others cannot.
		least := cost(l[j : j+1])
		for try := 0; try < 3; try++ {
			if n := cost(l[j : j+1]); n < least {
				least = n
			}
		}
		if least > messageLimit {
			return fmt.Errorf("%s: %x allocates %d bytes", f.name, l[j].d, least)
		}
	}
	return nil
}

func init() {
	add("C28", "messages of a kind were read", []string{
		"a memory of a limited size (8 MiB for each kind of messages) is not growth; nor is what does not reach it within 40 s",
		"tables prepared once are not counted in the allocations of a message",
	}, func(r *lib.Runner) {
		r.Add(&lib.Sub{Name: "nothing is kept",
			Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
				for k := 0; k < fedKinds; k++ {
					yield(&lib.Case{N: []int64{int64(e.U64() >> 1), int64(k), 20000}})
				}
			},
			Gen: lib.Random(func(e *lib.Ent) *lib.Case {
				return &lib.Case{N: []int64{int64(e.U64() >> 1), int64(e.N(fedKinds)), int64(20000 + e.N(80000))}}
			}),
			Check: nothingKept, EnumX: 10, Quick: 16, Thorough: 2000})
		r.Add(&lib.Sub{Name: "allocations of a message",
			Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
				for k := 0; k < fedKinds; k++ {
					for n := 0; n < 40; n++ {
						yield(&lib.Case{N: []int64{int64(e.U64() >> 1), int64(k), 20}})
					}
				}
			},
			Gen: lib.Random(func(e *lib.Ent) *lib.Case {
				return &lib.Case{N: []int64{int64(e.U64() >> 1), int64(e.N(fedKinds)), 20}}
			}),
			Check: smallWork, EnumX: 10, Quick: 4000, Thorough: 200000})
	})
}
