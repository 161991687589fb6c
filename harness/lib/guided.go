package lib

import (
	"math/bits"
)

// Coverage-guided generation: a case that reaches something new in the code under test (a branch, a number
// of times it is taken, operands of a comparison closer to each other than ever) is kept, and some of the
// cases are mutations of the ones kept.

type compare struct{ a, b uint64 }

// tracing is set while a case of a part with guided generation runs. The comparisons are only recorded
// from the only goroutine that runs the cases.
var (
	tracing  bool
	compared [192]compare
	places   [192]uint32
	ncompare int
	closest  *[1 << 14]uint8 // closest operands ever seen by place, for the part that runs
	closer   bool
)

func traceCompare(a, b uint64, pc uint) {
	if !tracing || a == b {
		return
	}
	h := uint32(pc) * 2654435761 >> 18
	if d := uint8(65 - bits.OnesCount64(a^b)); d > closest[h] {
		closest[h] = d
		closer = true
	}
	if ncompare < len(compared) {
		for i := ncompare - 1; i >= 0 && i >= ncompare-4; i-- {
			if places[i] == h && compared[i].a == a {
				return // a loop
			}
		}
		compared[ncompare] = compare{a, b}
		places[ncompare] = h
		ncompare++
	}
}

const poolCap = 3000

type kept struct {
	c    *Case
	cmps []compare
}

type guide struct {
	counters []byte
	seen     []byte // buckets of each counter already reached
	closest  [1 << 14]uint8
	pool     []kept
	found    int64
}

func bucket(n byte) byte {
	switch {
	case n < 4:
		return 1 << (n - 1)
	case n < 8:
		return 8
	case n < 16:
		return 16
	case n < 32:
		return 32
	case n < 128:
		return 64
	}
	return 128
}

func (g *guide) begin() {
	clear(g.counters)
	ncompare = 0
	closer = false
	closest = &g.closest
	tracing = true
}

// end keeps the case if it is new.
func (g *guide) end(c *Case, e *Ent) {
	tracing = false
	fresh := closer
	for i, n := range g.counters {
		if n == 0 {
			continue
		}
		if b := bucket(n); g.seen[i]&b == 0 {
			g.seen[i] |= b
			fresh = true
		}
	}
	if !fresh {
		return
	}
	g.found++
	k := kept{c.clone(), append([]compare(nil), compared[:ncompare]...)}
	if len(g.pool) < poolCap {
		g.pool = append(g.pool, k)
	} else {
		g.pool[e.N(len(g.pool))] = k
	}
}

// mutate makes a case from one of those kept.
func (g *guide) mutate(s *Sub, e *Ent) *Case {
	n := len(g.pool)
	i := e.N(n)
	if n > 16 && e.Bool() { // a recent one
		i = n - 1 - e.N(16)
	}
	k := &g.pool[i]
	c := k.c.clone()
	for more := true; more; more = e.Bool() {
		f := &c.D
		if n := len(c.L); s.FreeL > 0 && n > 0 {
			x := c.L[e.N(n)]
			if e.P(4) { // after another one, a relative of it
				x = append(Hex{}, c.L[e.N(n)]...)
				at := e.N(n)
				c.L = append(c.L[:at:at], append([]Hex{x}, c.L[at:]...)...)
			}
			if len(x) <= s.FreeL {
				continue
			}
			x = x[s.FreeL:]
			f = &x
		} else if !s.KeepE && len(c.E) > 0 && (len(c.D) == 0 || e.Bool()) {
			f = &c.E
		}
		if s.FreeN != nil && (len(*f) == 0 || e.Bool()) {
			j := e.N(len(c.N))
			if j < len(s.FreeN) && s.FreeN[j] > 0 {
				w := s.FreeN[j]
				m := int64(1)<<uint(w) - 1
				switch e.N(4) {
				case 0:
					c.N[j] = int64(e.Value(w))
				case 1:
					c.N[j] = (c.N[j] + int64(e.N(5)) - 2) & m
				case 2:
					c.N[j] ^= 1 << uint(e.N(w))
				case 3:
					for t := 0; t < 8 && len(k.cmps) > 0; t++ {
						if x := k.cmps[e.N(len(k.cmps))]; int64(x.a) == c.N[j] && x.b <= uint64(m) {
							c.N[j] = int64(x.b)
						} else if int64(x.b) == c.N[j] && x.a <= uint64(m) {
							c.N[j] = int64(x.a)
						}
					}
				}
			}
			continue
		}
		d := *f
		if len(d) == 0 {
			break
		}
		switch e.N(8) {
		case 0, 1:
			b := 1 + e.N(8*len(d))
			Put(d, b, b, 1-U(d, b, b))
		case 2:
			a, z := g.bits(s, d, e)
			Put(d, a, z, e.Value(z-a+1))
		case 3:
			a, z := g.bits(s, d, e)
			Put(d, a, z, U(d, a, z)+uint64(e.N(5))-2)
		case 4: // a part of another one
			o := g.pool[e.N(n)].c
			x := o.D
			if f == &c.E {
				x = o.E
			} else if n := len(o.L); n > 0 && s.FreeL > 0 {
				if x = o.L[e.N(n)]; len(x) > s.FreeL {
					x = x[s.FreeL:]
				}
			}
			if len(x) == len(d) {
				a, z := g.bits(s, d, e)
				Put(d, a, z, U(x, a, z))
			}
		default: // make the operands of a comparison equal
			if len(k.cmps) == 0 {
				break
			}
			x := k.cmps[e.N(len(k.cmps))]
			if e.Bool() {
				x.a, x.b = x.b, x.a
			}
			to := x.b
			if e.P(4) {
				to += uint64(e.N(3)) - 1
			}
			solve(d, x.a, to, e)
		}
	}
	if s.Fix != nil && (s.Always || !e.P(4)) {
		s.Fix(c, e)
	}
	return c
}

// bits chooses a range of bits: a field if the part tells them.
func (g *guide) bits(s *Sub, d []byte, e *Ent) (int, int) {
	if len(s.Fields) > 0 && !e.P(4) {
		r := s.Fields[e.N(len(s.Fields))]
		if r[0] >= 1 && r[1] <= 8*len(d) && r[1]-r[0] < 60 {
			return r[0], r[1]
		}
	}
	w := 1 + e.N(16)
	if w > 8*len(d) {
		w = 8 * len(d)
	}
	a := 1 + e.N(8*len(d)-w+1)
	return a, a + w - 1
}

// solve replaces the bits that are equal to from, wherever they are, by to.
func solve(d []byte, from, to uint64, e *Ent) {
	w := bits.Len64(from | to)
	if w == 0 || w > 32 || w > 8*len(d) {
		return
	}
	w += e.N(3)
	if w > 8*len(d) {
		w = 8 * len(d)
	}
	at, n := 0, 0
	for a := 1; a+w-1 <= 8*len(d); a++ {
		if U(d, a, a+w-1) == from {
			if n++; e.N(n) == 0 {
				at = a
			}
		}
	}
	if at == 0 {
		at = 1 + e.N(8*len(d)-w+1)
	}
	Put(d, at, at+w-1, to)
}
