package props

import (
	"bytes"
	"fmt"

	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/bds"
	"verif/harness/lib"
	"verif/harness/spec"
)

const acceptedRule = "the message is accepted, so that every field is compared with its bits"

// coherence checks the verdict of the coherency check of a register.
func coherence(s *spec.Spec, quick int) *lib.Sub {
	gen := func(e *lib.Ent) []byte {
		d := e.Mixed(s.Len)
		if s.Cohere != nil && !e.P(5) {
			s.Cohere(d, e)
		}
		if s.Fix != nil {
			s.Fix(d, e)
		}
		for n := e.N(3); n > 0; n-- {
			switch e.N(3) {
			case 0:
				b := 1 + e.N(56)
				lib.Put(d, b, b, 1-lib.U(d, b, b))
			case 1:
				if rs := s.Ranges(); len(rs) > 0 {
					r := rs[e.N(len(rs))]
					lib.Put(d, r[0], r[1], e.Value(r[1]-r[0]+1))
				}
			case 2: // a value next to the one it has
				if rs := s.Ranges(); len(rs) > 0 {
					r := rs[e.N(len(rs))]
					lib.Put(d, r[0], r[1], lib.U(d, r[0], r[1])+uint64(e.N(3))-1)
				}
			}
		}
		return d
	}
	return &lib.Sub{
		Name: s.Name,
		Gen:  lib.Random(func(e *lib.Ent) *lib.Case { return data(gen(e)) }),
		Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
			coherent := func() []byte {
				d := e.Mixed(s.Len)
				for try := 0; try < 20; try++ {
					if s.Cohere != nil {
						s.Cohere(d, e)
					}
					if s.Fix != nil {
						s.Fix(d, e)
					}
					if s.Coherent(d) {
						break
					}
				}
				return d
			}
			// Every value of every field, and of two fields, in a coherent message.
			for _, r := range s.Ranges() {
				if r[1]-r[0] > 15 {
					continue
				}
				for v := 0; v < 1<<uint(r[1]-r[0]+1); v++ {
					for k := 0; k < 3; k++ {
						d := coherent()
						lib.Put(d, r[0], r[1], uint64(v))
						yield(data(d))
					}
				}
			}
			pool := make([][]byte, 512)
			for i := range pool {
				pool[i] = coherent()
			}
			spec.Pairs(s.Ranges(), e, func() []byte { return append([]byte(nil), pool[e.N(len(pool))]...) }, func(d []byte) { yield(data(d)) })
		},
		Check: func(c *lib.Case, o *lib.Obs) error {
			d := append([]byte{}, c.D...)
			if s.Valid != nil && !s.Valid(d) {
				o.Class(s.Name + " not this register")
				return nil
			}
			v, err := s.Decode(d)
			if err != nil || spec.IsNil(v) {
				return fmt.Errorf("%s: %x is rejected: %v", s.Name, d, err)
			}
			m, ok := v.(interface{ CheckCoherency() error })
			if !ok {
				panic(lib.HarnessError{Msg: fmt.Sprintf("%T has no coherency check", v)})
			}
			got, want := m.CheckCoherency(), s.Coherent(d)
			o.NonTrivial()
			o.Class(fmt.Sprintf("%s coherent %v", s.Name, want))
			if (got == nil) == want {
				return nil
			}
			if s.Relaxed != nil {
				if w, key := s.Relaxed(d); w == (got == nil) && o.Known(key) {
					return nil
				}
			}
			return fmt.Errorf("%s: %x is judged coherent: %v (%v), want %v", s.Name, d, got == nil, got, want)
		},
		Quick: quick,
		Free:  true, Fields: s.Ranges(),
		Fix: func(c *lib.Case, e *lib.Ent) {
			if s.Fix != nil {
				s.Fix(c.D, e)
			}
		},
	}
}

// CoherentSpecs are the registers whose verdict has a model.
var CoherentSpecs = []*spec.Spec{
	spec.BDS00, spec.BDS07, spec.BDS08, spec.BDS10, spec.BDS17, spec.BDS20, spec.BDS30, spec.BDS40, spec.BDS44V0, spec.BDS44V1, spec.BDS44V2, spec.BDS44,
	spec.BDS45V0, spec.BDS45V1, spec.BDS45, spec.BDS50, spec.BDS60, spec.BDS61E, spec.BDS61N, spec.BDS61A, spec.BDS61, spec.BDS62T0, spec.BDS62T1, spec.BDS62,
}

func init() {
	type q = spec.Squitter
	add("C10", acceptedRule, nil, func(r *lib.Runner) {
		r.Add(squitterPart("squitters", 300000, []int{0, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 22}, nil))
		r.Add(specPart(spec.BDS05, 100000, 4))
	})
	add("C11", acceptedRule, nil, func(r *lib.Runner) {
		r.Add(squitterPart("squitters", 300000, []int{5, 6, 7, 8}, nil))
		r.Add(specPart(spec.BDS06, 100000, 4))
		r.Add(&lib.Sub{Name: "monotonic speed",
			Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
				for k := 0; k < 20; k++ {
					for m := int64(1); m < 124; m++ {
						yield(&lib.Case{D: e.Bytes(7), E: e.Bytes(7), N: []int64{m, m + 1}})
					}
				}
			},
			Gen: lib.Random(func(e *lib.Ent) *lib.Case {
				a, b := 1+e.N(124), 1+e.N(124)
				if a > b {
					a, b = b, a
				}
				return &lib.Case{D: e.Bytes(7), E: e.Bytes(7), N: []int64{int64(a), int64(b)}}
			}),
			Check: func(c *lib.Case, o *lib.Obs) error {
				speed := func(d []byte, m int64) (float64, error) {
					d = append([]byte{}, d...)
					lib.Put(d, 1, 5, 5+uint64(d[0]&3))
					lib.Put(d, 6, 12, uint64(m))
					v, err := spec.BDS06.Decode(d)
					if err != nil {
						return 0, fmt.Errorf("%x: %v", d, err)
					}
					f, err := spec.Get(v, "MovementSpeed")
					if err != nil {
						return 0, err
					}
					return f.Float(), nil
				}
				a, err := speed(c.D, c.N[0])
				if err != nil {
					return err
				}
				b, err := speed(c.E, c.N[1])
				if err != nil {
					return err
				}
				o.NonTrivial()
				if a > b || c.N[0] < c.N[1] && a == b {
					return fmt.Errorf("movement %d is %v kt and movement %d is %v kt", c.N[0], a, c.N[1], b)
				}
				return nil
			}, Quick: 20000})
	})
	add("C12", "the position is accepted", nil, func(r *lib.Runner) {
		tcs := spec.PositionTCs
		r.Add(&lib.Sub{Name: "tables",
			Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
				for k := 0; k < 150; k++ {
					for _, tc := range tcs {
						for v := 0; v < 3; v++ {
							for s := 0; s < 8; s++ {
								d := e.Mixed(7)
								lib.Put(d, 1, 5, uint64(tc))
								if in, _ := spec.Inner(d); in.Fix != nil {
									in.Fix(d, e)
								}
								lib.Put(d, 8, 8, uint64(s>>2))
								yield(spec.CaseOf(q{D: d, Version: v, A: s&1 != 0, C: s&2 != 0}))
							}
						}
					}
				}
				for k := 0; k < 100; k++ {
					d := e.Mixed(7)
					lib.Put(d, 1, 5, 0)
					spec.FixAltitude(d, e)
					yield(spec.CaseOf(q{D: d, Version: e.N(3), A: e.Bool(), C: e.Bool()}))
				}
			},
			Check: func(c *lib.Case, o *lib.Obs) error {
				s := spec.SquitterOf(c)
				if tc := spec.TC(s.D); tc != 0 && (tc < 5 || tc == 19 || tc > 22) {
					return nil
				}
				if _, _, ok := s.Expect(); !ok {
					return nil
				}
				v, err := s.Read()
				if e := s.CheckKind(v, err); e != nil {
					return e
				}
				if spec.TC(s.D) == 0 {
					r, err := spec.Get(v, "NavigationIntegrityCategory")
					if err != nil {
						return err
					}
					o.NonTrivial()
					return spec.Same(r, spec.VI(0))
				}
				o.NonTrivial()
				o.Class(fmt.Sprintf("version %d type code %d", s.Version, spec.TC(s.D)))
				return s.CompareIntegrity(v)
			},
			Gen:  lib.Random(func(e *lib.Ent) *lib.Case { return spec.CaseOf(spec.GenSquitter(e, tcs...)) }),
			Free: true, Fields: squitterRanges(tcs), Fix: func(c *lib.Case, e *lib.Ent) { fixSquitter(c.D, tcs, e) },
			Quick: 100000, EnumX: 30})
		// A better category never comes with a larger radius: any two positions of the same kind and version.
		r.Add(&lib.Sub{Name: "monotonic",
			Gen: lib.Random(func(e *lib.Ent) *lib.Case {
				group := [][]int{{5, 6, 7, 8}, {9, 10, 11, 12, 13, 14, 15, 16, 17, 18}, {20, 21, 22}}[e.N(3)]
				v := 1 + e.N(2)
				mk := func() q {
					s := spec.GenSquitter(e, group...)
					if in, _ := spec.Inner(s.D); in.Fix != nil {
						in.Fix(s.D, e)
					}
					s.Version = v
					return s
				}
				a, b := mk(), mk()
				n := func(x bool) int64 {
					if x {
						return 1
					}
					return 0
				}
				return &lib.Case{D: a.D, E: b.D, N: []int64{int64(v), n(a.A), n(a.C), n(b.A), n(b.C)}}
			}),
			Check: func(c *lib.Case, o *lib.Obs) error {
				a := q{D: append([]byte{}, c.D...), Version: int(c.N[0]), A: c.N[1] != 0, C: c.N[2] != 0}
				b := q{D: append([]byte{}, c.E...), Version: int(c.N[0]), A: c.N[3] != 0, C: c.N[4] != 0}
				if spec.TC(a.D) < 5 || spec.TC(b.D) < 5 || !valid(a) || !valid(b) {
					return nil
				}
				va, err := a.Read()
				if err != nil {
					return fmt.Errorf("%x: %v", a.D, err)
				}
				vb, err := b.Read()
				if err != nil {
					return fmt.Errorf("%x: %v", b.D, err)
				}
				na, ra, err := spec.Radius(va)
				if err != nil {
					return err
				}
				nb, rb, err := spec.Radius(vb)
				if err != nil {
					return err
				}
				o.NonTrivial()
				if na > nb && ra > rb || nb > na && rb > ra {
					return fmt.Errorf("version %d: %x has the category %d and a radius of %v m, %x has %d and %v m", a.Version, a.D, na, ra, b.D, nb, rb)
				}
				return nil
			}, Quick: 100000})
	})
	add("C13", acceptedRule, []string{"the saturated 10-bit codes of the subsonic formats decode to 1023 and those of the supersonic formats to 4088, as the library documents; the magnitude of other saturated codes is the code minus one in the unit of the field"}, func(r *lib.Runner) {
		r.Add(squitterPart("squitters", 300000, []int{19}, nil))
		r.Add(specPart(spec.BDS09, 100000, 4))
		for _, s := range spec.BDS09S[1:] {
			r.Add(specPart(s, 30000, 3))
		}
	})
	add("C14", acceptedRule, nil, func(r *lib.Runner) {
		r.Add(squitterPart("squitters", 100000, []int{1, 2, 3, 4}, nil))
		r.Add(specPart(spec.BDS08, 100000, 6))
		r.Add(specPart(spec.BDS20, 100000, 6))
		r.Add(identityPart())
		r.Add(charPart())
	})
	add("C15", acceptedRule, nil, func(r *lib.Runner) {
		r.Add(squitterPart("squitters", 200000, []int{28, 29}, nil))
		for _, s := range []*spec.Spec{spec.BDS61E, spec.BDS61N, spec.BDS61A, spec.BDS61, spec.BDS62T0, spec.BDS62T1, spec.BDS62} {
			r.Add(specPart(s, 40000, 4))
		}
	})
	add("C16", acceptedRule, nil, func(r *lib.Runner) {
		r.Add(squitterPart("squitters", 200000, []int{31}, nil))
		for _, s := range append([]*spec.Spec{spec.BDS65}, spec.BDS65S...) {
			r.Add(specPart(s, 40000, 6))
		}
	})
	add("C17", acceptedRule, []string{
		"the 6-bit eddy dissipation rates of BDS 4,5 saturate at 1.26",
		"the average static pressure of BDS 4,5 V1 is not in the message and is not compared",
	}, func(r *lib.Runner) {
		for _, s := range []*spec.Spec{spec.BDS00, spec.BDS07, spec.BDS10, spec.BDS17, spec.BDS20, spec.BDS30, spec.BDS40, spec.BDS44V0, spec.BDS44V1, spec.BDS44V2, spec.BDS44,
			spec.BDS45V0, spec.BDS45V1, spec.BDS45, spec.BDS50, spec.BDS60} {
			r.Add(specPart(s, 40000, 4))
		}
		r.Add(sourcePart())
	})
	add("C18", "the bytes decode coherently as at least one register", nil, func(r *lib.Runner) { r.Add(inferencePart()) })
	add("C19", "the bytes are those of the register, so that there is a verdict", []string{
		"the plausibility rules are those the library documents in the code and comments of each register, which is the reference here, with their boundaries",
	}, func(r *lib.Runner) {
		for _, s := range CoherentSpecs {
			r.Add(coherence(s, 60000))
		}
		r.Add(alwaysPart())
		r.Add(reportPart())
	})
	add("C20", "the advisory is accepted", nil, func(r *lib.Runner) {
		r.Add(specPart(spec.RA, 100000, 6))
		r.Add(specPart(spec.BDS30, 60000, 4))
		r.Add(specPart(spec.BDS61A, 60000, 4))
		r.Add(advisoryPart())
	})
}

func valid(s spec.Squitter) bool {
	_, _, ok := s.Expect()
	return ok
}

// identityPart encodes eight characters in each carrier and reads them back.
func identityPart() *lib.Sub {
	alphabet := "ABCDEFGHIJKLMNOPQRSTUVWXYZ 0123456789"
	code := func(c byte) uint64 {
		switch {
		case c >= 'A' && c <= 'Z':
			return uint64(c-'A') + 1
		case c >= '0' && c <= '9':
			return uint64(c-'0') + 48
		}
		return 32
	}
	return &lib.Sub{Name: "encode and decode",
		Gen: lib.Random(func(e *lib.Ent) *lib.Case {
			b := make([]byte, 8)
			for i := range b {
				b[i] = alphabet[e.N(len(alphabet))]
			}
			if e.P(3) { // padded with spaces, as a real one
				for i := 1 + e.N(7); i < 8; i++ {
					b[i] = ' '
				}
			}
			return &lib.Case{S: []string{string(b)}, N: []int64{int64(e.N(4)), int64(1 + e.N(4)), int64(e.N(8)), int64(e.U64() & 0xFFFFFF)}}
		}),
		Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
			for p := 0; p < 8; p++ {
				for i := range alphabet {
					for j := range alphabet {
						for k := int64(0); k < 4; k++ {
							b := []byte("        ")
							b[p] = alphabet[i]
							b[(p+1)%8] = alphabet[j]
							yield(&lib.Case{S: []string{string(b)}, N: []int64{k, 1 + int64(e.N(4)), int64(e.N(8)), int64(e.U64() & 0xFFFFFF)}})
						}
					}
				}
			}
		},
		Check: func(c *lib.Case, o *lib.Obs) error {
			if len(c.S) == 0 {
				return nil
			}
			d := make([]byte, 7)
			for i := 0; i < 8; i++ {
				lib.Put(d, 9+6*i, 14+6*i, code(c.S[0][i]))
			}
			var v any
			var err error
			name := "Identification"
			switch c.N[0] {
			case 0:
				lib.Put(d, 1, 5, uint64(c.N[1]))
				lib.Put(d, 6, 8, uint64(c.N[2]))
				v, err = spec.BDS08.Decode(d)
			case 1:
				lib.Put(d, 1, 5, uint64(c.N[1]))
				lib.Put(d, 6, 8, uint64(c.N[2]))
				var me []byte
				if me, err = carried(squitterFrame(17, 5, uint32(c.N[3]), d)); err == nil {
					v, err = spec.Squitter{D: me, Version: int(c.N[2]) % 3}.Read()
				}
				name = "AircraftIdentificationAndCategory.Identification"
			case 2:
				d[0] = 0x20
				v, err = spec.BDS20.Decode(d)
			case 3: // a Comm-B reply
				d[0] = 0x20
				f := make([]byte, 14)
				f[0] = 20 << 3
				copy(f[4:], d)
				seal(f, uint32(c.N[3]))
				var mb []byte
				if mb, err = carried(f); err == nil {
					var l []bds.Message
					if l, err = infer(mb); err == nil {
						if len(l) != 1 {
							return fmt.Errorf("identification %q: %x gives %d registers", c.S[0], d, len(l))
						}
						v = l[0]
					}
				}
			}
			if err != nil {
				return fmt.Errorf("identification %q: %x: %v", c.S[0], d, err)
			}
			r, err := spec.Get(v, name)
			if err != nil {
				return err
			}
			o.NonTrivial()
			if r.String() != c.S[0] {
				return fmt.Errorf("identification %q: %x decoded as %q", c.S[0], d, r.String())
			}
			return nil
		}, Quick: 60000}
}

// charPart checks that the codes without character never give a letter, a digit or a space.
func charPart() *lib.Sub {
	return &lib.Sub{Name: "codes without character",
		Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
			for p := 0; p < 8; p++ {
				for code := 0; code < 64; code++ {
					for k := 0; k < 8; k++ {
						d := e.Bytes(7)
						lib.Put(d, 9+6*p, 14+6*p, uint64(code))
						if k&1 == 0 {
							d[0] = 0x20
						} else {
							lib.Put(d, 1, 5, uint64(1+k>>1))
						}
						yield(&lib.Case{D: d, N: []int64{int64(p), int64(k & 1)}})
					}
				}
			}
		},
		Check: func(c *lib.Case, o *lib.Obs) error {
			d := append([]byte{}, c.D...)
			s := spec.BDS20
			if c.N[1] == 1 {
				s = spec.BDS08
			}
			if !s.Valid(d) {
				return nil
			}
			v, err := s.Decode(d)
			if err != nil {
				return fmt.Errorf("%x: %v", d, err)
			}
			r, err := spec.Get(v, "Identification")
			if err != nil {
				return err
			}
			t := r.String()
			if len(t) != 8 {
				return fmt.Errorf("%s: %x decoded as %q, which has not eight characters", s.Name, d, t)
			}
			p := int(c.N[0])
			code := lib.U(d, 9+6*p, 14+6*p)
			isChar := func(b byte) bool {
				return b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || b == ' '
			}
			if want := code >= 1 && code <= 26 || code == 32 || code >= 48 && code <= 57; isChar(t[p]) != want {
				return fmt.Errorf("%s: %x: code %d decoded as %q", s.Name, d, code, t[p])
			}
			o.NonTrivial()
			return nil
		}, EnumX: 10}
}

// advisoryPart checks the advisories in the frames that carry them.
func advisoryPart() *lib.Sub {
	return &lib.Sub{Name: "carriers",
		Gen: lib.Random(func(e *lib.Ent) *lib.Case {
			d := spec.RA.Gen(e)
			spec.FixRA(d, e)
			return &lib.Case{D: d, N: []int64{int64(e.N(4)), int64(e.U64() & 0xFFFFFF)}}
		}),
		Check: func(c *lib.Case, o *lib.Obs) error {
			d := append([]byte{}, c.D...)
			if !spec.RAOK(d) {
				return nil
			}
			var err error
			var v any
			s := spec.RA
			k := c.N[0]
			f := make([]byte, 14)
			switch k {
			case 0: // air-air reply
				f[0], f[4] = 16<<3, 0x30
			case 1, 2: // Comm-B reply
				f[0], f[4] = 20<<3, 0x30
				if k == 2 {
					f[0] = 21 << 3
				}
			case 3:
				f[0], f[4] = 17<<3, 28<<3|2
			}
			copy(f[5:11], d)
			seal(f, uint32(c.N[1]))
			if k == 3 {
				f = squitterFrame(17, 5, uint32(c.N[1]), f[4:11])
			}
			mv, err := carried(f)
			if err != nil {
				return err
			}
			if !bytes.Equal(mv, f[4:11]) {
				return fmt.Errorf("frame %x: carries %x", f, mv)
			}
			switch k {
			case 0:
				v, err = s.Decode(mv[1:])
			case 1, 2:
				s = spec.BDS30
				l, e := infer(mv)
				if e != nil {
					return fmt.Errorf("%x: %v", mv, e)
				}
				for _, m := range l {
					if m.GetRegister().GetId() == "BDS 3,0" {
						v = m
					}
				}
				if v == nil {
					return fmt.Errorf("%x: no advisory among the registers inferred", mv)
				}
			case 3:
				var m adsb.Message
				m, err = spec.Squitter{D: mv, Version: int(c.N[1] % 3)}.Read()
				if err == nil {
					r, e := spec.Get(m, "AircraftStatus")
					if e != nil {
						return e
					}
					v = r.Addr().Interface()
				}
				s = spec.BDS61A
			}
			if err != nil {
				return fmt.Errorf("%x: %v", mv, err)
			}
			o.NonTrivial()
			o.Class(fmt.Sprintf("carrier %d threat type %d", k, lib.U(d, 21, 22)))
			if k == 0 {
				return s.Extra(v, d, o)
			}
			return s.Extra(v, mv, o)
		}, Free: true, Fields: spec.RA.Ranges(), Quick: 200000,
		Fix: func(c *lib.Case, e *lib.Ent) { spec.FixRA(c.D, e) }}
}
