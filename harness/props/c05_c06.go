package props

import (
	"fmt"
	"math/bits"
	"sync"

	"github.com/twuillemin/modes/pkg/acas/ra"
	"github.com/twuillemin/modes/pkg/adsb/airborne_position"
	"github.com/twuillemin/modes/pkg/adsb/no_position_information"
	fields05 "github.com/twuillemin/modes/pkg/bds/bds05/fields"
	mfields "github.com/twuillemin/modes/pkg/modes/fields"
	"github.com/twuillemin/modes/pkg/modes/messages"
	"verif/harness/lib"
	"verif/harness/spec"
)

// altitude13 decodes a 13-bit code in a frame.
func altitude13(d []byte) (feet int64, method int64, err error) {
	m, err := spec.ReadFrame(d)
	if err != nil {
		if !spec.IsNil(m) {
			return 0, 0, fmt.Errorf("frame %x: an error comes with a value", d)
		}
		return 0, -1, nil
	}
	switch m := m.(type) {
	case *messages.MessageDF0:
		return int64(m.Altitude), int64(m.AltitudeReportMethod), nil
	case *messages.MessageDF4:
		return int64(m.Altitude), int64(m.AltitudeReportMethod), nil
	case *messages.MessageDF16:
		return int64(m.Altitude), int64(m.AltitudeReportMethod), nil
	case *messages.MessageDF20:
		return int64(m.Altitude), int64(m.AltitudeReportMethod), nil
	}
	return 0, 0, fmt.Errorf("frame %x decoded as %T", d, m)
}

// altitude12 decodes a 12-bit code in a squitter.
func altitude12(q spec.Squitter) (feet int64, method int64, err error) {
	v, e := q.Read()
	if e != nil {
		return 0, -1, nil
	}
	switch m := v.(type) {
	case *airborne_position.AirbornePositionV0:
		return int64(m.AltitudeInFeet), int64(m.AltitudeReportMethod), nil
	case *airborne_position.AirbornePositionV1:
		return int64(m.AltitudeInFeet), int64(m.AltitudeReportMethod), nil
	case *airborne_position.AirbornePositionV2:
		return int64(m.AltitudeInFeet), int64(m.AltitudeReportMethod), nil
	case *airborne_position.AirbornePositionType0:
		return int64(m.AltitudeInFeet), int64(m.AltitudeReportMethod), nil
	case *no_position_information.NoPositionInformation:
		return int64(m.AltitudeBarometric), int64(m.AltitudeReportMethod), nil
	}
	return 0, 0, fmt.Errorf("squitter %x decoded as %T", q.D, v)
}

var (
	levelsOnce sync.Once
	levels13   map[int64][]uint64
	levels12   map[int64][]uint64
)

func init() {
	add("C05", "the code is an altitude (of 25 or 100 ft), or is the code of no altitude or of a metric altitude",
		nil, func(r *lib.Runner) {
			dfs := []int{0, 4, 16, 20}
			r.Add(&lib.Sub{Name: "13-bit codes",
				Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
					for k := 0; k < 8; k++ {
						for code := 0; code < 8192; code++ {
							for _, df := range dfs {
								d := e.Mixed(spec.FrameLen(df))
								lib.Put(d, 1, 5, uint64(df))
								lib.Put(d, 20, 32, uint64(code))
								yield(data(d))
							}
						}
					}
				},
				Check: func(c *lib.Case, o *lib.Obs) error {
					d := append([]byte{}, c.D...)
					feet, method, err := altitude13(d)
					if err != nil {
						return err
					}
					kind, want := spec.AC13(lib.U(d, 20, 32))
					o.Class(fmt.Sprintf("kind %d", kind))
					if kind == spec.AltBad {
						if method != -1 {
							return fmt.Errorf("frame %x: the malformed altitude code %013b is decoded as %d ft", d, lib.U(d, 20, 32), feet)
						}
						return nil
					}
					o.NonTrivial()
					wm := map[int]int64{spec.AltUnavailable: int64(mfields.AltitudeCodeReportNotAvailable), spec.AltMetric: int64(mfields.AltitudeCodeReportMetricUnits),
						spec.Alt100: int64(mfields.AltitudeCodeReport100FootIncrements), spec.Alt25: int64(mfields.AltitudeCodeReport25FootIncrements)}[kind]
					if method != wm || feet != want {
						return fmt.Errorf("frame %x: the altitude code %013b is decoded as %d ft (method %d), want %d (method %d)", d, lib.U(d, 20, 32), feet, method, want, wm)
					}
					return nil
				},
				Gen: lib.Random(func(e *lib.Ent) *lib.Case {
					df := dfs[e.N(4)]
					d := e.Mixed(spec.FrameLen(df))
					lib.Put(d, 1, 5, uint64(df))
					lib.Put(d, 20, 32, e.Value(13))
					return data(d)
				}),
				Free: true, Always: true, Fields: [][2]int{{6, 8}, {9, 13}, {14, 19}, {20, 32}},
				Fix: func(c *lib.Case, e *lib.Ent) {
					k := 2 * (len(c.D) / 14)
					if df := spec.DF(c.D); df != dfs[k] && df != dfs[k+1] {
						lib.Put(c.D, 1, 5, uint64(dfs[k+e.N(2)]))
					}
				},
				Quick: 100000, EnumX: 40})
			tcs := []int{0, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 22}
			r.Add(&lib.Sub{Name: "12-bit codes",
				Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
					for k := 0; k < 2; k++ {
						for code := 0; code < 4096; code++ {
							for _, tc := range tcs {
								d := e.Mixed(7)
								lib.Put(d, 1, 5, uint64(tc))
								lib.Put(d, 9, 20, uint64(code))
								if tc == 0 && e.Bool() {
									lib.Put(d, 21, 56, 0)
								}
								yield(spec.CaseOf(spec.Squitter{D: d, Version: e.N(3), A: e.Bool(), C: e.Bool()}))
							}
						}
					}
				},
				Check: func(c *lib.Case, o *lib.Obs) error {
					q := spec.SquitterOf(c)
					if tc := spec.TC(q.D); tc != 0 && (tc < 9 || tc == 19 || tc > 22) {
						return nil
					}
					feet, method, err := altitude12(q)
					if err != nil {
						return err
					}
					kind, want := spec.AC12(lib.U(q.D, 9, 20))
					o.Class(fmt.Sprintf("kind %d", kind))
					if kind == spec.AltBad {
						if method != -1 {
							return fmt.Errorf("squitter %x: the malformed altitude code %012b is decoded as %d ft", q.D, lib.U(q.D, 9, 20), feet)
						}
						return nil
					}
					o.NonTrivial()
					wm := map[int]int64{spec.AltUnavailable: int64(fields05.AltitudeReportNotAvailable),
						spec.Alt100: int64(fields05.AltitudeReport100FootIncrements), spec.Alt25: int64(fields05.AltitudeReport25FootIncrements)}[kind]
					if method != wm || feet != want {
						return fmt.Errorf("squitter %x: the altitude code %012b is decoded as %d ft (method %d), want %d (method %d)", q.D, lib.U(q.D, 9, 20), feet, method, want, wm)
					}
					return nil
				},
				Gen: lib.Random(func(e *lib.Ent) *lib.Case {
					c := spec.CaseOf(spec.GenSquitter(e, tcs...))
					lib.Put(c.D, 9, 20, e.Value(12))
					c.N[0] %= 3
					return c
				}),
				Free: true, Always: true, Fields: squitterRanges(tcs),
				Fix: func(c *lib.Case, e *lib.Ent) {
					for _, tc := range tcs {
						if tc == spec.TC(c.D) {
							return
						}
					}
					lib.Put(c.D, 1, 5, uint64(tcs[e.N(len(tcs))]))
				},
				Quick: 100000, EnumX: 40})
			// The conversion with all the 12 pulses, which only the altitude of a threat has.
			r.Add(&lib.Sub{Name: "Gillham conversion", Exhaust: true,
				Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
					for code := int64(0); code < 4096; code++ {
						yield(&lib.Case{N: []int64{code}})
					}
				},
				Check: func(c *lib.Case, o *lib.Obs) error {
					g := int(c.N[0]) // D1 D2 D4 A1 A2 A4 B1 B2 B4 C1 C2 C4
					b := func(i int) bool { return g>>uint(11-i)&1 == 1 }
					// The order of the pulses in the message: C1 A1 C2 A2 C4 A4 0 B1 D1 B2 D2 B4 D4.
					d := []byte{0x80, 0, 0x08, 0, 0, 0} // a threat given by its position
					for i, k := range []int{9, 3, 10, 4, 11, 5, -1, 6, 0, 7, 1, 8, 2} {
						if k >= 0 && b(k) {
							lib.Put(d, 23+i, 23+i, 1)
						}
					}
					m, err := ra.ReadResolutionAdvisory(d)
					if g == 0 {
						return nil
					}
					feet := int64(0)
					if err == nil {
						feet = int64(m.ThreatIdentityAltitude.AltitudeInFeet)
					}
					want, ok := spec.Gillham(g)
					if !ok {
						if err == nil {
							return fmt.Errorf("the pulses %012b correspond to no altitude and give %d", g, feet)
						}
						return nil
					}
					o.NonTrivial()
					if err != nil || int64(feet) != want {
						return fmt.Errorf("the pulses %012b give %d (%v), want %d", g, feet, err, want)
					}
					return nil
				}})
			// The levels, from the decoders alone: which codes decode to each 100 ft level.
			scan := func() {
				levels13, levels12 = map[int64][]uint64{}, map[int64][]uint64{}
				for code := uint64(0); code < 8192; code++ {
					d := make([]byte, 7)
					lib.Put(d, 20, 32, code)
					if f, m, err := altitude13(d); err == nil && m == int64(mfields.AltitudeCodeReport100FootIncrements) {
						levels13[f] = append(levels13[f], code)
					}
				}
				for code := uint64(0); code < 4096; code++ {
					d := []byte{11 << 3, 0, 0, 0, 0, 0, 0}
					lib.Put(d, 9, 20, code)
					if f, m, err := altitude12(spec.Squitter{D: d}); err == nil && m == int64(fields05.AltitudeReport100FootIncrements) {
						levels12[f] = append(levels12[f], code)
					}
				}
			}
			r.Add(&lib.Sub{Name: "adjacent levels",
				Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
					for f := int64(-1200); f <= 50000; f += 100 {
						yield(&lib.Case{N: []int64{f}})
					}
				},
				Check: func(c *lib.Case, o *lib.Obs) error {
					levelsOnce.Do(scan)
					f := c.N[0]
					// In the message the pulse D1 is always off (its place is the Q bit): 256 bands of 5 levels, up to 126700 ft.
					for _, l := range []map[int64][]uint64{levels13, levels12} {
						if len(l[f]) != 1 {
							return fmt.Errorf("the level %d ft is given by the codes %b, want exactly one", f, l[f])
						}
						if f < 50000 {
							if len(l[f+100]) != 1 {
								return fmt.Errorf("the level %d ft is given by the codes %b, want exactly one", f+100, l[f+100])
							}
							if n := bits.OnesCount64(l[f][0] ^ l[f+100][0]); n != 1 {
								return fmt.Errorf("the codes %b and %b of the levels %d and %d ft differ in %d bits", l[f][0], l[f+100][0], f, f+100, n)
							}
						}
						if n := len(l); n != 1280 {
							return fmt.Errorf("%d levels of 100 ft, want 1280", n)
						}
					}
					o.NonTrivial()
					return nil
				}})
		})

	add("C06", "every case (a squawk in a frame of format 5 or 21)", nil, func(r *lib.Runner) {
		r.Add(&lib.Sub{Name: "squawks",
			Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
				for k := 0; k < 8; k++ {
					for s := 0; s < 8192; s++ {
						for _, df := range []int{5, 21} {
							d := e.Mixed(spec.FrameLen(df))
							lib.Put(d, 1, 5, uint64(df))
							lib.Put(d, 20, 32, uint64(s))
							yield(data(d))
						}
					}
				}
			},
			Check: func(c *lib.Case, o *lib.Obs) error {
				d := append([]byte{}, c.D...)
				m, err := spec.ReadFrame(d)
				if err != nil {
					return fmt.Errorf("frame %x: %v", d, err)
				}
				var id mfields.Identity
				switch m := m.(type) {
				case *messages.MessageDF5:
					id = m.Identity
				case *messages.MessageDF21:
					id = m.Identity
				default:
					return fmt.Errorf("frame %x decoded as %T", d, m)
				}
				want := spec.Squawk(lib.U(d, 20, 32))
				o.NonTrivial()
				o.Class("first digit " + want[:1])
				if id.Identity != want {
					return fmt.Errorf("frame %x: squawk %q, want %s", d, id.Identity, want)
				}
				for _, f := range []struct {
					code string
					got  bool
				}{
					{"7700", id.IsSpecialEmergency()}, {"7600", id.IsSpecialRadiocommunicationFailure()},
					{"7500", id.IsSpecialUnlawfulInterference()}, {"2000", id.IsSpecialInstructionNotReceived()},
				} {
					if f.got != (want == f.code) {
						return fmt.Errorf("frame %x: squawk %s, flag of %s is %v", d, want, f.code, f.got)
					}
				}
				return nil
			},
			Gen: lib.Random(func(e *lib.Ent) *lib.Case {
				df := []int{5, 21}[e.N(2)]
				d := e.Mixed(spec.FrameLen(df))
				lib.Put(d, 1, 5, uint64(df))
				return data(d)
			}),
			Free: true, Always: true, Fields: [][2]int{{6, 8}, {9, 13}, {14, 19}, {20, 32}},
			Fix:   func(c *lib.Case, e *lib.Ent) { lib.Put(c.D, 1, 5, uint64([]int{5, 21}[len(c.D)/14])) },
			Quick: 100000, EnumX: 50})
		r.Add(&lib.Sub{Name: "encode and decode",
			Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
				for s := 0; s < 4096; s++ {
					for k := 0; k < 8; k++ {
						yield(&lib.Case{D: e.Bytes(14), N: []int64{int64(s), int64(k & 1), int64(5 + 16*(k>>1&1))}})
					}
				}
			},
			Check: func(c *lib.Case, o *lib.Obs) error {
				d := append([]byte{}, c.D[:spec.FrameLen(int(c.N[2]))]...)
				s := int(c.N[0])
				code := spec.SquawkCode(s>>9&7, s>>6&7, s>>3&7, s&7) | uint64(c.N[1])<<6
				lib.Put(d, 1, 5, uint64(c.N[2]))
				lib.Put(d, 20, 32, code)
				m, err := spec.ReadFrame(d)
				if err != nil {
					return fmt.Errorf("frame %x: %v", d, err)
				}
				v, err := spec.Get(m, "Identity.Identity")
				if err != nil {
					return err
				}
				o.NonTrivial()
				if want := fmt.Sprintf("%04o", s); v.String() != want {
					return fmt.Errorf("frame %x: the squawk %s is decoded as %q", d, want, v.String())
				}
				return nil
			}, EnumX: 10})
	})
}
