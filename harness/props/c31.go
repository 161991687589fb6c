package props

import (
	"fmt"
	"slices"
	"time"

	"verif/harness/lib"
)

const (
	timeLimit = time.Millisecond      // of a message
	probeCost = 10 * time.Microsecond // under which the time of a message is not looked at
)

// spent is the time to read a message, with its verdict and its report.
func spent(f *feeder, op lib.Hex) time.Duration {
	f.n = 4*f.rare - 1 // with its report
	start := time.Now()
	f.consume(int(op[0])%(len(entries)+opKinds), int(op[1])|int(op[2])<<8, op[3:])
	return time.Since(start)
}

// leastTime is the least of several times, until one is under the limit.
func leastTime(limit time.Duration, get func() time.Duration) time.Duration {
	least := get()
	for try := 0; try < 40 && least >= limit; try++ {
		if try >= 10 { // the machine may be busy
			time.Sleep(time.Duration(try) * time.Millisecond)
		}
		least = min(least, get())
	}
	return least
}

// shortTime measures each message: the least time is the one without the other programs of the machine.
func shortTime(c *lib.Case, o *lib.Obs) error {
	f := newFeeder(0, 0)
	f.h = *newHistory(nil)
	for _, op := range c.L {
		if len(op) < 3 {
			continue
		}
		o.NonTrivial()
		if t := leastTime(timeLimit, func() time.Duration { return spent(f, op) }); t >= timeLimit {
			return fmt.Errorf("%s takes %v at least", opName(op), t)
		}
	}
	return nil
}

// steadyTime measures messages before and after many others.
func steadyTime(c *lib.Case, o *lib.Obs) error {
	if len(c.N) < 3 || c.N[1] < 0 || c.N[2] < 1000 || c.N[2] > 1<<22 {
		return nil
	}
	f := newFeeder(uint64(c.N[0]), int(c.N[1])%fedKinds)
	g := newFeeder(0, 0)
	o.NonTrivial()
	o.Class(f.name)
	const n = 100
	one := func() time.Duration { // of messages never met
		probe := make([]lib.Hex, n)
		for j := range probe {
			i, p, d := f.next()
			probe[j] = opOf(i, p, d)
		}
		t := make([]time.Duration, n)
		for j, op := range probe {
			t[j] = spent(g, op)
		}
		slices.Sort(t)
		return t[n-4] // those left out may be interrupted
	}
	all := func() time.Duration {
		t := make([]time.Duration, 15)
		for j := range t {
			t[j] = one()
		}
		slices.Sort(t)
		return t[7]
	}
	all()
	first := all()
	start := time.Now()
	f.run(int(c.N[2]))
	mean := time.Since(start) / time.Duration(c.N[2])
	limit := max(probeCost, 6*first)
	if last := leastTime(limit, all); last >= limit {
		return fmt.Errorf("%s: a message takes %v, and %v after %d others", f.name, first, last, c.N[2])
	}
	// A few messages much longer than the others.
	if mean >= timeLimit/4 && first < timeLimit/50 {
		again := func() time.Duration {
			start := time.Now()
			f.run(int(c.N[2]))
			return time.Since(start) / time.Duration(c.N[2])
		}
		for try := 0; try < 4; try++ {
			mean = min(mean, again())
		}
		if mean >= timeLimit/4 {
			return fmt.Errorf("%s: a message takes %v, but %v in a long series", f.name, first, mean)
		}
	}
	return nil
}

func init() {
	add("C31", "at least one message was timed", []string{
		"the least of several times is compared with the limits, so that the other programs of the machine do not matter",
	}, func(r *lib.Runner) {
		r.Add(&lib.Sub{Name: "each message",
			Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
				for k := 0; k < fedKinds; k++ {
					f := newFeeder(e.U64(), k)
					for n := 0; n < 400; n++ {
						i, p, d := f.next()
						yield(&lib.Case{L: []lib.Hex{opOf(i, p, d)}})
					}
				}
			},
			Gen: lib.Random(func(e *lib.Ent) *lib.Case {
				i, p, d := newFeeder(e.U64(), e.N(fedKinds)).next()
				return &lib.Case{L: []lib.Hex{opOf(i, p, d)}}
			}),
			Check: shortTime, Free: true, FreeL: 3, EnumX: 10, Quick: 400000, Thorough: 12000000})
		r.Add(&lib.Sub{Name: "after many messages",
			Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
				for k := 0; k < fedKinds; k++ {
					yield(&lib.Case{N: []int64{int64(e.U64() >> 1), int64(k), 400000}})
				}
			},
			Gen: lib.Random(func(e *lib.Ent) *lib.Case {
				return &lib.Case{N: []int64{int64(e.U64() >> 1), int64(e.N(fedKinds)), int64(100000 + e.N(900000))}}
			}),
			Check: steadyTime, EnumX: 10, Quick: 16, Thorough: 2000})
	})
}
