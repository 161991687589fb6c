package props

import (
	"fmt"
	"reflect"

	"github.com/twuillemin/modes/pkg/adsb/aircraft_identification_and_category"
	"github.com/twuillemin/modes/pkg/bds"
	"github.com/twuillemin/modes/pkg/bds/bds44"
	bds44fields "github.com/twuillemin/modes/pkg/bds/bds44/fields"
	"github.com/twuillemin/modes/pkg/commb"
	"verif/harness/lib"
	"verif/harness/spec"
)

func infer(d []byte) ([]bds.Message, error) { return commb.ReadCommBMessage(d) }

// checkInference compares the inference with the one made from the individual readers and the models of coherency.
func checkInference(d []byte, o *lib.Obs) ([]bds.Message, error) {
	name := func(s *spec.Spec) string { return s.Name }
	plausible := func(s *spec.Spec, d []byte, o *lib.Obs) (any, bool, error) {
		ok := s.Valid == nil || s.Valid(d)
		v, err := s.Decode(append([]byte{}, d...))
		if ok != (err == nil) {
			return nil, false, fmt.Errorf("%s: %x: error %v", s.Name, d, err)
		}
		if !ok {
			return nil, false, nil
		}
		c := s.Coherent(d)
		if got := v.(bds.Message).CheckCoherency() == nil; got != c {
			// The verdict itself is the object of C19; here the inference has to follow it.
			o.Class("verdict differs from the model")
			c = got
		}
		return v, c, nil
	}
	got, err := infer(append([]byte{}, d...))
	if err != nil {
		return nil, fmt.Errorf("%x: the inference fails: %v", d, err)
	}
	var want []any
	var names []string
	alone := false
	for _, s := range spec.First {
		v, ok, err := plausible(s, d, o)
		if err != nil {
			return nil, err
		}
		if ok && !alone {
			want, names, alone = []any{v}, []string{name(s)}, true
		}
	}
	if !alone {
		for _, s := range spec.Others {
			v, ok, err := plausible(s, d, o)
			if err != nil {
				return nil, err
			}
			if ok {
				want, names = append(want, v), append(names, name(s))
			}
		}
	}
	if len(want) > 0 {
		o.NonTrivial()
	}
	o.Class(fmt.Sprintf("%d registers", len(want)))
	for _, n := range names {
		o.Class(n)
	}
	var ids []string
	for i, m := range got {
		if spec.IsNil(m) {
			return nil, fmt.Errorf("%x: the register %d is nil", d, i)
		}
		ids = append(ids, m.GetRegister().GetId())
	}
	if fmt.Sprint(ids) != fmt.Sprint(names) {
		return nil, fmt.Errorf("%x: inferred %v, want %v", d, ids, names)
	}
	for i := range got {
		if !reflect.DeepEqual(got[i], want[i]) {
			return nil, fmt.Errorf("%x: inferred %s as %+v, and its reader gives %+v", d, ids[i], got[i], want[i])
		}
		if err := got[i].CheckCoherency(); err != nil {
			return nil, fmt.Errorf("%x: inferred %s, which is not coherent: %v", d, ids[i], err)
		}
	}
	if spec.BDS00.Valid(d) != (len(ids) == 1 && ids[0] == "BDS 0,0") {
		return nil, fmt.Errorf("%x: inferred %v", d, ids)
	}
	return got, nil
}

func inferencePart() *lib.Sub {
	all := append(append([]*spec.Spec{}, spec.First...), spec.Others...)
	return &lib.Sub{Name: "inference",
		Gen: lib.Random(func(e *lib.Ent) *lib.Case {
			d := e.Mixed(7)
			if !e.P(6) {
				s := all[e.N(len(all))]
				if s.Cohere != nil {
					s.Cohere(d, e)
				}
				if s.Fix != nil {
					s.Fix(d, e)
				}
			}
			switch e.N(8) {
			case 0: // something plausible as several registers: few fields present
				for n := e.N(20); n > 0; n-- {
					b := 1 + e.N(56)
					lib.Put(d, b, b, 0)
				}
			case 1:
				b := 1 + e.N(56)
				lib.Put(d, b, b, 1-lib.U(d, b, b))
			case 2:
				a := 1 + e.N(56)
				lib.Put(d, a, a+e.N(57-a), 0)
			case 3: // almost nothing
				d = make([]byte, 7)
				for n := e.N(6); n > 0; n-- {
					b := 1 + e.N(56)
					lib.Put(d, b, b, 1)
				}
			}
			return data(d)
		}),
		Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
			yield(data(make([]byte, 7)))
			for a := 1; a <= 56; a++ {
				for b := a; b <= 56; b++ {
					for c := b; c <= 56; c++ {
						d := make([]byte, 7)
						lib.Put(d, a, a, 1)
						lib.Put(d, b, b, 1)
						lib.Put(d, c, c, 1)
						yield(data(d))
					}
				}
			}
			for b := 0; b < 256; b++ {
				for k := 0; k < 40; k++ {
					d := e.Mixed(7)
					d[0] = byte(b)
					yield(data(d))
				}
			}
		},
		Check: func(c *lib.Case, o *lib.Obs) error {
			_, err := checkInference(append([]byte{}, c.D...), o)
			return err
		}, Free: true, Quick: 2000000, Thorough: 40000000, EnumX: 5}
}

// alwaysPart checks the registers which are coherent whatever they contain.
func alwaysPart() *lib.Sub {
	specs := append([]*spec.Spec{spec.BDS05, spec.BDS06, spec.BDS09, spec.BDS65}, spec.BDS65S...)
	return &lib.Sub{Name: "always coherent",
		Gen: lib.Random(func(e *lib.Ent) *lib.Case {
			k := e.N(len(specs))
			d := specs[k].Gen(e)
			specs[k].Fix(d, e)
			return &lib.Case{D: d, N: []int64{int64(k)}}
		}),
		Check: func(c *lib.Case, o *lib.Obs) error {
			s := specs[c.N[0]]
			d := append([]byte{}, c.D...)
			if !s.Valid(d) {
				return nil
			}
			v, err := s.Decode(d)
			if err != nil {
				return fmt.Errorf("%s: %x: %v", s.Name, d, err)
			}
			o.NonTrivial()
			if err := v.(bds.Message).CheckCoherency(); err != nil {
				return fmt.Errorf("%s: %x is judged incoherent: %v", s.Name, d, err)
			}
			return nil
		}, Free: true, Quick: 500000, Thorough: 10000000,
		Fix: func(c *lib.Case, e *lib.Ent) { specs[c.N[0]].Fix(c.D, e) }}
}

// reportPart compares the verdict of the message that the reader of the squitters returns with the one of its content.
func reportPart() *lib.Sub {
	tcs := spec.AllTCs
	return &lib.Sub{Name: "squitters",
		Gen: lib.Random(func(e *lib.Ent) *lib.Case {
			q := spec.GenSquitter(e, tcs...)
			if s, _ := spec.Inner(q.D); s == spec.BDS08 || s == spec.BDS61 {
				if e.P(2) && s.Fix != nil {
					s.Fix(q.D, e)
				}
			} else if e.P(2) { // the contents that can be incoherent
				q = spec.GenSquitter(e, []int{1, 2, 3, 4, 28}[e.N(5)])
			}
			return spec.CaseOf(q)
		}),
		Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
			for _, tc := range tcs {
				for v := 0; v < 3; v++ {
					for st := 0; st < 64; st++ {
						for k := 0; k < 6; k++ {
							d := e.Mixed(7)
							lib.Put(d, 1, 5, uint64(tc))
							lib.Put(d, 6, 11, uint64(st))
							if s, _ := spec.Inner(d); s != nil && s.Fix != nil && k > 0 {
								s.Fix(d, e)
							}
							yield(spec.CaseOf(spec.Squitter{D: d, Version: v, A: k&1 != 0, C: k&2 != 0}))
						}
					}
				}
			}
		},
		Check: func(c *lib.Case, o *lib.Obs) error {
			q := spec.SquitterOf(c)
			if _, _, ok := q.Expect(); !ok {
				return nil
			}
			v, err := q.Read()
			if err != nil || spec.IsNil(v) {
				return fmt.Errorf("%x (version %d) is rejected: %v", q.D, q.Version, err)
			}
			want := true
			if s, _ := spec.Inner(q.D); s != nil && s.Coherent != nil {
				want = s.Coherent(q.D)
			}
			o.NonTrivial()
			o.Class(fmt.Sprintf("type code %d coherent %v", spec.TC(q.D), want))
			if got := v.CheckCoherency(); (got == nil) != want {
				return fmt.Errorf("%x (version %d) gives a %T judged coherent: %v (%v), want %v", q.D, q.Version, v, got == nil, got, want)
			}
			m, ok := v.(*aircraft_identification_and_category.AircraftIdentificationAndCategory)
			if !ok {
				return nil
			}
			// The verdict of the category alone.
			want = spec.TC(q.D) != 1 && !(spec.TC(q.D) == 2 && lib.U(q.D, 6, 8) > 3)
			if got := m.Category.CheckCoherency(); (got == nil) != want {
				return fmt.Errorf("%x: the category is judged coherent: %v (%v), want %v", q.D, got == nil, got, want)
			}
			return nil
		},
		Free: true, Fields: squitterRanges(tcs), Fix: func(c *lib.Case, e *lib.Ent) { fixSquitter(c.D, tcs, e) },
		Quick: 200000, Thorough: 10000000}
}

// sourcePart checks the source given by the methods of the meteorological reports.
func sourcePart() *lib.Sub {
	return &lib.Sub{Name: "source of BDS 4,4",
		Gen: lib.Random(func(e *lib.Ent) *lib.Case {
			d := e.Mixed(7)
			lib.Put(d, 1, 4, uint64(e.N(16)))
			return data(d)
		}),
		Check: func(c *lib.Case, o *lib.Obs) error {
			d := append([]byte{}, c.D...)
			src := bds44fields.Source(lib.U(d, 1, 4))
			v0, err := bds44.ReadMeteorologicalRoutineAirReportV0(d)
			if err != nil {
				return fmt.Errorf("%x: %v", d, err)
			}
			o.NonTrivial()
			if got := v0.GetSource(); got != src {
				return fmt.Errorf("BDS 4,4 V0: %x: source %v, want %v", d, got, src)
			}
			v2, err := bds44.ReadMeteorologicalRoutineAirReportV2(d)
			if err != nil {
				return fmt.Errorf("%x: %v", d, err)
			}
			if got := v2.GetSource(); got != src {
				if got == bds44fields.SourceInvalid && o.Known("bds44-v2-getsource") {
					return nil
				}
				return fmt.Errorf("BDS 4,4 V2: %x: source %v, want %v", d, got, src)
			}
			return nil
		}, Free: true, Quick: 100000, Thorough: 2000000}
}
