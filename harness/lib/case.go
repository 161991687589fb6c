// Package lib is the common part of the property checks: plain-data cases, the runner
// (generation, enumeration, minimisation, replay, evidence) and the bit-level helpers.
package lib

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"strings"
)

// Hex is a byte string written in hexadecimal in JSON.
type Hex []byte

// MarshalJSON writes the bytes in hexadecimal (null for nil).
func (h Hex) MarshalJSON() ([]byte, error) {
	if h == nil {
		return []byte("null"), nil
	}
	return json.Marshal(hex.EncodeToString(h))
}

// UnmarshalJSON is the inverse of MarshalJSON.
func (h *Hex) UnmarshalJSON(b []byte) error {
	if string(b) == "null" {
		*h = nil
		return nil
	}
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	d, err := hex.DecodeString(s)
	if d == nil {
		d = []byte{}
	}
	*h = d
	return err
}

// Case is the plain-data input of one check.
type Case struct {
	Sub string    `json:"sub"`
	D   Hex       `json:"data,omitempty"`
	E   Hex       `json:"data2,omitempty"`
	N   []int64   `json:"n,omitempty"`
	F   []float64 `json:"f,omitempty"`
	S   []string  `json:"s,omitempty"`
	L   []Hex     `json:"list,omitempty"`
}

func (c *Case) clone() *Case {
	n := &Case{Sub: c.Sub, D: append(Hex(nil), c.D...), E: append(Hex(nil), c.E...),
		N: append([]int64(nil), c.N...), F: append([]float64(nil), c.F...), S: append([]string(nil), c.S...)}
	if c.D != nil && n.D == nil {
		n.D = Hex{}
	}
	if c.E != nil && n.E == nil {
		n.E = Hex{}
	}
	for _, l := range c.L {
		n.L = append(n.L, append(Hex{}, l...))
	}
	return n
}

// String writes the case on one line.
func (c *Case) String() string {
	var b strings.Builder
	b.WriteString(c.Sub)
	if c.D != nil {
		fmt.Fprintf(&b, " data=%x", []byte(c.D))
	}
	if c.E != nil {
		fmt.Fprintf(&b, " data2=%x", []byte(c.E))
	}
	if len(c.N) > 0 {
		fmt.Fprintf(&b, " n=%v", c.N)
	}
	if len(c.F) > 0 {
		fmt.Fprintf(&b, " f=%v", c.F)
	}
	if len(c.S) > 0 {
		fmt.Fprintf(&b, " s=%q", c.S)
	}
	if len(c.L) > 0 {
		b.WriteString(" list=[")
		for i, l := range c.L {
			if i > 0 {
				b.WriteByte(' ')
			}
			fmt.Fprintf(&b, "%x", []byte(l))
		}
		b.WriteString("]")
	}
	s := b.String()
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

const fnvPrime = 1099511628211

func (c *Case) hash() uint64 {
	h := uint64(14695981039346656037)
	add := func(b byte) { h = (h ^ uint64(b)) * fnvPrime }
	add64 := func(u uint64) {
		for i := 0; i < 8; i++ {
			add(byte(u >> (8 * i)))
		}
	}
	for i := 0; i < len(c.Sub); i++ {
		add(c.Sub[i])
	}
	for _, b := range c.D {
		add(b)
	}
	add(0xA1)
	for _, b := range c.E {
		add(b)
	}
	add(0xA2)
	for _, n := range c.N {
		add64(uint64(n))
	}
	for _, f := range c.F {
		add64(math.Float64bits(f))
	}
	for _, s := range c.S {
		for i := 0; i < len(s); i++ {
			add(s[i])
		}
		add(0xA3)
	}
	for _, l := range c.L {
		for _, b := range l {
			add(b)
		}
		add(0xA4)
	}
	h ^= h >> 32
	h *= 0x9E3779B97F4A7C15
	return h ^ h>>29
}
