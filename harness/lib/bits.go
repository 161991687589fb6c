package lib

import (
	"math"
	"math/bits"
)

// U reads the bits first..last (1-indexed, most significant first) of d.
func U(d []byte, first, last int) uint64 {
	var v uint64
	for i := first; i <= last; i++ {
		v = v<<1 | uint64(d[(i-1)>>3]>>(7-uint((i-1)&7))&1)
	}
	return v
}

// B reads bit i of d.
func B(d []byte, i int) bool { return d[(i-1)>>3]>>(7-uint((i-1)&7))&1 == 1 }

// Put writes v in the bits first..last of d.
func Put(d []byte, first, last int, v uint64) {
	for i := last; i >= first; i-- {
		m := byte(1) << (7 - uint((i-1)&7))
		if v&1 == 1 {
			d[(i-1)>>3] |= m
		} else {
			d[(i-1)>>3] &^= m
		}
		v >>= 1
	}
}

// Sign reads the two's complement number whose sign is at the bit sign and whose magnitude is first..last.
func Sign(d []byte, sign, first, last int) int64 {
	v := int64(U(d, first, last))
	if B(d, sign) {
		v -= 1 << uint(last-first+1)
	}
	return v
}

// Ent expands a seed drawn from the property library in a stream of uniform values.
type Ent struct{ s uint64 }

// NewEnt makes a stream from words.
func NewEnt(words ...uint64) *Ent {
	e := &Ent{0x853c49e6748fea9b}
	for _, w := range words {
		e.s = mix(e.s ^ w)
	}
	return e
}

func mix(z uint64) uint64 {
	z += 0x9E3779B97F4A7C15
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// U64 is a uniform 64-bit value.
func (e *Ent) U64() uint64 {
	e.s += 0x9E3779B97F4A7C15
	z := e.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N is uniform in [0,n).
func (e *Ent) N(n int) int { h, _ := bits.Mul64(e.U64(), uint64(n)); return int(h) }

// Bool is a coin.
func (e *Ent) Bool() bool { return e.U64()>>63 == 1 }

// P is true once in n.
func (e *Ent) P(n int) bool { return e.N(n) == 0 }

// F is uniform in [a,b).
func (e *Ent) F(a, b float64) float64 {
	return a + (b-a)*float64(e.U64()>>11)/float64(1<<53)
}

// Bytes are n uniform bytes.
func (e *Ent) Bytes(n int) []byte {
	d := make([]byte, n)
	for i := 0; i < n; i += 8 {
		v := e.U64()
		for j := i; j < n && j < i+8; j++ {
			d[j] = byte(v)
			v >>= 8
		}
	}
	return d
}

// Mixed are n bytes, usually uniform, sometimes sparse, dense or made of repeated bytes.
func (e *Ent) Mixed(n int) []byte {
	if n == 0 {
		return []byte{}
	}
	switch e.N(10) {
	case 0: // few bits set
		d := make([]byte, n)
		for k := e.N(4); k >= 0; k-- {
			i := e.N(8*n) + 1
			Put(d, i, i, 1)
		}
		return d
	case 1: // few bits clear
		d := make([]byte, n)
		for i := range d {
			d[i] = 0xFF
		}
		for k := e.N(4); k >= 0; k-- {
			i := e.N(8*n) + 1
			Put(d, i, i, 0)
		}
		return d
	case 2: // a run of bits cleared or set
		d := e.Bytes(n)
		a := e.N(8*n) + 1
		b := a + e.N(8*n-a+1)
		v := uint64(0)
		if e.Bool() {
			v = 1
		}
		for i := a; i <= b; i++ {
			Put(d, i, i, v)
		}
		return d
	default:
		return e.Bytes(n)
	}
}

// Value is a value of w bits: uniform, one of the extremes and their neighbours, or a number of the source.
func (e *Ent) Value(w int) uint64 {
	max := uint64(1)<<uint(w) - 1
	if w > 6 && e.P(10) {
		return e.Literal(w)
	}
	switch e.N(8) {
	case 0:
		return 0
	case 1:
		return max
	case 2:
		return uint64(e.N(4)) & max
	case 3:
		return (max - uint64(e.N(4))) & max
	case 4:
		return (max/2 + uint64(e.N(4)) - 1) & max
	default:
		return e.U64() & max
	}
}

// Extremes gives most of the ranges of bits the same kind of value.
func (e *Ent) Extremes(d []byte, ranges [][2]int) {
	kind := e.N(6)
	for _, r := range ranges {
		if e.P(4) || r[1] > 8*len(d) || r[1]-r[0] > 31 {
			continue
		}
		max := uint64(1)<<uint(r[1]-r[0]+1) - 1
		v := [...]uint64{0, max, 1, max - 1, max/2 + 1, max / 2}[kind]
		Put(d, r[0], r[1], v&max)
	}
}

// Copies copies the values of some of the ranges of bits to others.
func (e *Ent) Copies(d []byte, ranges [][2]int) {
	if len(ranges) < 2 {
		return
	}
	for n := 1 + e.N(3); n > 0; n-- {
		from := ranges[e.N(len(ranges))]
		w := from[1] - from[0]
		if from[1] > 8*len(d) || w > 31 {
			continue
		}
		to := ranges[e.N(len(ranges))]
		for k := 0; k < 3*len(ranges) && (to == from || to[1]-to[0] != w); k++ { // preferably of the same width
			to = ranges[e.N(len(ranges))]
		}
		if to[1] > 8*len(d) || to[1]-to[0] > 31 {
			continue
		}
		v := U(d, from[0], from[1])
		if n := uint(to[1] - to[0] + 1); n < 64 {
			v &= 1<<n - 1
		}
		Put(d, to[0], to[1], v)
	}
}

// Near says whether two floats are equal up to the rounding of a float32 computation.
func Near(a, b float64) bool {
	if a == b {
		return true
	}
	d := math.Abs(a - b)
	return d <= 1e-5 || d <= 1e-6*math.Max(math.Abs(a), math.Abs(b))
}
