// Package props holds the properties: their generators and their checks.
package props

import (
	"bytes"
	"fmt"

	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/modes/common"
	"github.com/twuillemin/modes/pkg/modes/messages"
	"verif/harness/lib"
	"verif/harness/spec"
)

// All are the properties.
var All []*lib.Prop

var commonAssumptions = []string{
	"the oracle tables were written from ICAO Annex 10 vol. IV, Doc 9871 and DO-260/A/B as their authors understood them, and agree with the values pinned by the existing tests",
}

func add(id, rule string, assumptions []string, setup func(r *lib.Runner)) {
	All = append(All, &lib.Prop{ID: id, Rule: rule, Assumptions: append(append([]string{}, commonAssumptions...), assumptions...), Setup: func(r *lib.Runner) {
		r.Scale = scales[id]
		setup(r)
	}})
}

// scales multiply the random cases of the quick runs of the properties whose cases are cheap.
var scales = map[string]int{
	"C01": 3, "C03": 6, "C04": 20, "C05": 20, "C06": 20, "C07": 8, "C08": 8, "C09": 5, "C10": 20, "C11": 20, "C12": 20, "C13": 20, "C14": 10,
	"C15": 20, "C16": 25, "C17": 15, "C18": 6, "C19": 8, "C20": 20, "C21": 6, "C22": 5, "C23": 5, "C24": 8, "C25": 3, "C26": 3, "C27": 3, "C30": 2, "C33": 10,
}

// data makes a case of bytes.
func data(d []byte) *lib.Case { return &lib.Case{D: d} }

// specPart checks a decoder against its specification on generated and enumerated messages.
func specPart(s *spec.Spec, quick, backgrounds int) *lib.Sub {
	return &lib.Sub{
		Name: s.Name,
		Gen:  lib.Random(func(e *lib.Ent) *lib.Case { return data(s.Gen(e)) }),
		Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
			s.Enum(e, backgrounds, func(d []byte) { yield(data(d)) })
		},
		Check: func(c *lib.Case, o *lib.Obs) error {
			d := append([]byte{}, c.D...)
			return s.Check(d, o)
		},
		Quick: quick, EnumX: 10,
		Free: true, Fields: s.Ranges(),
		Fix: func(c *lib.Case, e *lib.Ent) {
			if s.Fix != nil {
				s.Fix(c.D, e)
			}
		},
	}
}

// Crc is the Mode S parity by the long division of the message polynomial (times x^24) by 0x1FFF409.
func Crc(d []byte) uint32 {
	b := append(append([]byte{}, d...), 0, 0, 0)
	for i := 0; i < 8*len(d); i++ {
		if b[i/8]>>(7-uint(i%8))&1 == 0 {
			continue
		}
		for k := 0; k <= 24; k++ {
			if 0x1FFF409>>(24-uint(k))&1 == 1 {
				j := i + k
				b[j/8] ^= 0x80 >> uint(j%8)
			}
		}
	}
	n := len(d)
	return uint32(b[n])<<16 | uint32(b[n+1])<<8 | uint32(b[n+2])
}

// seal writes the parity of a frame with the overlay.
func seal(d []byte, overlay uint32) {
	n := len(d)
	p := Crc(d[:n-3]) ^ overlay
	d[n-3], d[n-2], d[n-1] = byte(p>>16), byte(p>>8), byte(p)
}

// squitterFrame puts the 7 bytes of a squitter in a frame of format 17 or 18 (announcing an address).
func squitterFrame(df int, sub int, addr uint32, me []byte) []byte {
	d := make([]byte, 14)
	d[0] = byte(df<<3 | sub&7)
	d[1], d[2], d[3] = byte(addr>>16), byte(addr>>8), byte(addr)
	copy(d[4:11], me)
	seal(d, 0)
	return d
}

// carried decodes the frame and returns the squitter it carries.
func carried(frame []byte) ([]byte, error) {
	m, err := spec.ReadFrame(append([]byte{}, frame...))
	if err != nil {
		return nil, fmt.Errorf("frame %x: %v", frame, err)
	}
	switch m := m.(type) {
	case *messages.MessageDF17:
		return []byte(m.MessageExtendedSquitter), nil
	case *messages.MessageDF18:
		return []byte(m.MessageExtendedSquitter), nil
	case *messages.MessageDF16:
		return []byte(m.MessageACAS), nil
	case *messages.MessageDF20:
		return []byte(m.MessageCommB), nil
	case *messages.MessageDF21:
		return []byte(m.MessageCommB), nil
	}
	return nil, fmt.Errorf("frame %x decoded as %T", frame, m)
}

// squitterRanges are the ranges of the fields of the squitters of some type codes.
func squitterRanges(tcs []int) (out [][2]int) {
	seen := map[[2]int]bool{}
	for _, tc := range tcs {
		for sub := 0; sub < 8; sub++ {
			s, _ := spec.Inner([]byte{byte(tc<<3 | sub), 0, 0, 0, 0, 0, 0})
			if s == nil {
				continue
			}
			for _, r := range s.Ranges() {
				if !seen[r] {
					seen[r] = true
					out = append(out, r)
				}
			}
		}
	}
	return out
}

// fixSquitter gives the bytes one of the type codes and makes them acceptable.
func fixSquitter(d []byte, tcs []int, e *lib.Ent) {
	if len(d) != 7 {
		return
	}
	ok := false
	for _, tc := range tcs {
		ok = ok || tc == spec.TC(d)
	}
	if !ok {
		lib.Put(d, 1, 5, uint64(tcs[e.N(len(tcs))]))
	}
	if s, _ := spec.Inner(d); s != nil && s.Fix != nil {
		s.Fix(d, e)
	}
}

// squitterPart checks the content of squitters of the given type codes read by the ADS-B reader, some of
// them carried by a whole frame.
func squitterPart(name string, quick int, tcs []int, extra func(q spec.Squitter, v adsb.Message, o *lib.Obs) error) *lib.Sub {
	gen := func(e *lib.Ent) *lib.Case {
		c := spec.CaseOf(spec.GenSquitter(e, tcs...))
		c.N = append(c.N, int64(e.N(3)), int64(e.U64()&0xFFFFFFF))
		return c
	}
	return &lib.Sub{
		Name: name,
		Gen:  lib.Random(gen),
		Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
			// Every value of every field of the content, for each type code and version.
			for _, tc := range tcs {
				d := make([]byte, 7)
				lib.Put(d, 1, 5, uint64(tc))
				s, _ := spec.Inner(d)
				if s == nil {
					continue
				}
				for _, r := range s.Ranges() {
					if r[1]-r[0] > 12 {
						continue
					}
					for v := 0; v < 1<<uint(r[1]-r[0]+1); v++ {
						q := spec.Squitter{D: e.Mixed(7), Version: v % 3, A: e.Bool(), C: e.Bool()}
						if r[1]-r[0] < 5 {
							q.Version = e.N(3)
						}
						lib.Put(q.D, r[0], r[1], uint64(v))
						lib.Put(q.D, 1, 5, uint64(tc))
						if s.Fix != nil {
							s.Fix(q.D, e)
						}
						c := spec.CaseOf(q)
						c.N = append(c.N, int64(e.N(3)), int64(e.U64()&0xFFFFFFF))
						yield(c)
					}
				}
				spec.Pairs(s.Ranges(), e, func() []byte { return e.Mixed(7) }, func(d []byte) {
					lib.Put(d, 1, 5, uint64(tc))
					if s.Fix != nil {
						s.Fix(d, e)
					}
					c := spec.CaseOf(spec.Squitter{D: d, Version: e.N(3), A: e.Bool(), C: e.Bool()})
					c.N = append(c.N, int64(e.N(3)), int64(e.U64()&0xFFFFFFF))
					yield(c)
				})
			}
		},
		Check: func(c *lib.Case, o *lib.Obs) error {
			q := spec.SquitterOf(c)
			read := q
			if c.N[3] > 0 {
				df := 17
				if c.N[3] == 2 {
					df = 18
				}
				me, err := carried(squitterFrame(df, int(c.N[4]>>24), uint32(c.N[4]&0xFFFFFF), q.D))
				if err != nil {
					return err
				}
				if !bytes.Equal(me, q.D) {
					return fmt.Errorf("squitter %x carried as %x", q.D, me)
				}
				read.D = me
			}
			v, err := read.Read()
			if e := q.CheckKind(v, err); e != nil {
				return e
			}
			if err != nil {
				o.Class("rejected")
				return nil
			}
			o.NonTrivial()
			o.Class(fmt.Sprintf("type code %d version %d", spec.TC(q.D), v.GetADSBVersion()))
			if e := q.CompareContent(v, o); e != nil {
				return e
			}
			if extra != nil {
				return extra(q, v, o)
			}
			return nil
		},
		Quick: quick, EnumX: 10,
		Free: true, Fields: squitterRanges(tcs),
		Fix: func(c *lib.Case, e *lib.Ent) { fixSquitter(c.D, tcs, e) },
	}
}

// brief is a list for the text of an error.
func brief(l map[common.ICAOAddress]bool) string {
	if len(l) > 12 {
		return fmt.Sprintf("%d identifiers", len(l))
	}
	return fmt.Sprint(l)
}

// longLengths are lengths that keep something of the length l: its last bits, its remainder, its first digits.
func longLengths(l int) (r []int) {
	for _, m := range []int{16, 32, 64, 128, 256, 512, 1024, 4096, 1 << 15, 1 << 16} {
		r = append(r, m+l)
		if m >= 128 {
			r = append(r, m, m-l, m*3+l)
		}
	}
	return append(r, l*8, l*10, l*16, l*100, 112, 56, 255, 257, 65535)
}
