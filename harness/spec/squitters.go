package spec

import (
	"fmt"
	"math"
	"strings"

	"github.com/twuillemin/modes/pkg/acas/ra"
	rafields "github.com/twuillemin/modes/pkg/acas/ra/fields"
	"github.com/twuillemin/modes/pkg/bds/bds05"
	fields05 "github.com/twuillemin/modes/pkg/bds/bds05/fields"
	"github.com/twuillemin/modes/pkg/bds/bds06"
	"github.com/twuillemin/modes/pkg/bds/bds08"
	fields08 "github.com/twuillemin/modes/pkg/bds/bds08/fields"
	"github.com/twuillemin/modes/pkg/bds/bds09"
	fields09 "github.com/twuillemin/modes/pkg/bds/bds09/fields"
	"github.com/twuillemin/modes/pkg/bds/bds30"
	"github.com/twuillemin/modes/pkg/bds/bds61"
	"github.com/twuillemin/modes/pkg/bds/bds62"
	fields62 "github.com/twuillemin/modes/pkg/bds/bds62/fields"
	"github.com/twuillemin/modes/pkg/bds/bds65"
	"verif/harness/lib"
)

// TC is the type code of a squitter.
func TC(d []byte) int { return int(lib.U(d, 1, 5)) }

func pick(e *lib.Ent, vs ...int) uint64 { return uint64(vs[e.N(len(vs))]) }

func oneOf(v int, vs ...int) bool {
	for _, x := range vs {
		if x == v {
			return true
		}
	}
	return false
}

// method05 is the report method of the kind of an altitude.
func method05(kind int) int64 {
	switch kind {
	case Alt100:
		return int64(fields05.AltitudeReport100FootIncrements)
	case Alt25:
		return int64(fields05.AltitudeReport25FootIncrements)
	}
	return int64(fields05.AltitudeReportNotAvailable)
}

// AltitudeFields are the fields of a 12-bit altitude at bits 9-20.
func AltitudeFields(method, feet string) []F {
	return []F{
		in(method, 9, 20, func(d []byte) int64 { k, _ := AC12(lib.U(d, 9, 20)); return method05(k) }),
		in(feet, 9, 20, func(d []byte) int64 { _, f := AC12(lib.U(d, 9, 20)); return f }),
	}
}

func altOK(d []byte) bool { k, _ := AC12(lib.U(d, 9, 20)); return k != AltBad }

// FixAltitude replaces a malformed altitude.
func FixAltitude(d []byte, e *lib.Ent) {
	for i := 0; !altOK(d); i++ {
		if i > 3 {
			lib.Put(d, 16, 16, 1)
		} else {
			g := GillhamCode[int64(-1200+100*e.N(1280))]
			c := Spread13(g)
			lib.Put(d, 9, 20, c>>7<<6|c&63)
		}
	}
}

// Position05 are the fields of an airborne position.
func Position05() []F {
	return join([]F{
		u("FormatTypeCode", 1, 5), u("SurveillanceStatus", 6, 7), u("SingleAntennaFlag", 8, 8),
		flag("AltitudeSource", 1, 5, func(d []byte) bool { return TC(d) >= 20 }),
	}, AltitudeFields("AltitudeReportMethod", "AltitudeInFeet"), []F{
		u("Time", 21, 21), u("CPRFormat", 22, 22), u("EncodedLatitude", 23, 39), u("EncodedLongitude", 40, 56),
	})
}

var tcs05 = []int{9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 22}

// BDS05 is the airborne position.
var BDS05 = &Spec{
	Name: "BDS 0,5", Len: 7, Fields: Position05(),
	Valid: func(d []byte) bool { return oneOf(TC(d), tcs05...) && altOK(d) },
	Fix: func(d []byte, e *lib.Ent) {
		if !oneOf(TC(d), tcs05...) {
			lib.Put(d, 1, 5, pick(e, tcs05...))
		}
		FixAltitude(d, e)
	},
	Decode: func(d []byte) (any, error) { return bds05.ReadAirbornePosition(d) },
}

// Movement is the ground speed of a movement code (Doc 9871 A.2.3.3.1); 0 when there is none.
func Movement(m int) float64 {
	switch {
	case m >= 2 && m <= 8:
		return 0.125 * float64(m-1)
	case m >= 9 && m <= 12:
		return 1 + 0.25*float64(m-9)
	case m >= 13 && m <= 38:
		return 2 + 0.5*float64(m-13)
	case m >= 39 && m <= 93:
		return 15 + float64(m-39)
	case m >= 94 && m <= 108:
		return 70 + 2*float64(m-94)
	case m >= 109 && m <= 123:
		return 100 + 5*float64(m-109)
	case m == 124:
		return 175
	}
	return 0
}

// Surface06 are the fields of a surface position.
func Surface06() []F {
	return []F{
		u("FormatTypeCode", 1, 5), u("MovementStatus", 6, 12),
		num("MovementSpeed", 6, 12, func(d []byte) float64 { return Movement(int(lib.U(d, 6, 12))) }),
		bo("GroundTrackStatus", 13), scaled("GroundTrack", 14, 20, 360.0/128, 0),
		u("Time", 21, 21), u("CPRFormat", 22, 22), u("EncodedLatitude", 23, 39), u("EncodedLongitude", 40, 56),
	}
}

// BDS06 is the surface position.
var BDS06 = &Spec{
	Name: "BDS 0,6", Len: 7, Fields: Surface06(),
	Valid: func(d []byte) bool { return TC(d) >= 5 && TC(d) <= 8 },
	Fix: func(d []byte, e *lib.Ent) {
		if TC(d) < 5 || TC(d) > 8 {
			lib.Put(d, 1, 5, pick(e, 5, 6, 7, 8))
		}
	},
	Decode: func(d []byte) (any, error) { return bds06.ReadSurfacePosition(d) },
}

// CategoryExtra checks the set and the value of an emitter category.
func CategoryExtra(cat any, d []byte) error {
	tc, ca := TC(d), int64(lib.U(d, 6, 8))
	var got int64
	set := ""
	switch c := cat.(type) {
	case fields08.AircraftCategorySetA:
		got, set = int64(c), "A"
	case fields08.AircraftCategorySetB:
		got, set = int64(c), "B"
	case fields08.AircraftCategorySetC:
		got, set = int64(c), "C"
	case fields08.AircraftCategorySetD:
		got, set = int64(c), "D"
	case *fields08.AircraftCategorySetA:
		got, set = int64(*c), "A"
	case *fields08.AircraftCategorySetB:
		got, set = int64(*c), "B"
	case *fields08.AircraftCategorySetC:
		got, set = int64(*c), "C"
	case *fields08.AircraftCategorySetD:
		got, set = int64(*c), "D"
	default:
		return fmt.Errorf("BDS 0,8: category is a %T", cat)
	}
	want := string("?DCBA"[tc])
	if set != want || got != ca {
		return fmt.Errorf("BDS 0,8: type code %d category %d decoded as set %s value %d", tc, ca, set, got)
	}
	if name := cat.(fields08.AircraftCategory).GetCategorySetName(); !strings.HasPrefix(name, "Set "+want) {
		return fmt.Errorf("BDS 0,8: type code %d: the set is named %q", tc, name)
	}
	return nil
}

// BDS08 is the identification and category.
var BDS08 = &Spec{
	Name: "BDS 0,8", Len: 7, Fields: []F{u("FormatTypeCode", 1, 5), str("Identification", 0, 0, Chars)},
	Valid: func(d []byte) bool { return TC(d) >= 1 && TC(d) <= 4 },
	Fix: func(d []byte, e *lib.Ent) {
		if TC(d) < 1 || TC(d) > 4 {
			lib.Put(d, 1, 5, pick(e, 1, 2, 3, 4))
		}
		if e.P(2) {
			putChars(d, e)
		}
	},
	Decode: func(d []byte) (any, error) { return bds08.ReadAircraftIdentificationAndCategory(d) },
	Extra: func(v any, d []byte, o *lib.Obs) error {
		return CategoryExtra(v.(*bds08.AircraftIdentificationAndCategory).Category, d)
	},
	Coherent: func(d []byte) bool {
		return !hasHash(Chars(d)) && TC(d) != 1 && !(TC(d) == 2 && lib.U(d, 6, 8) > 3)
	},
	Cells: [][2]int{{1, 8}, {9, 14}, {15, 20}, {21, 26}, {27, 32}, {33, 38}, {39, 44}, {45, 50}, {51, 56}},
}

const (
	nvsNone = int64(fields09.NVSNoInformation)
	nvsReg  = int64(fields09.NVSRegular)
	nvsMax  = int64(fields09.NVSMaximum)
)

// magnitude is a magnitude of ten bits: status and value.
func magnitude(status, value string, a, z int, step int64) []F {
	max := int64(1)<<uint(z-a+1) - 1
	return []F{
		in(status, a, z, func(d []byte) int64 {
			switch int64(lib.U(d, a, z)) {
			case 0:
				return nvsNone
			case max:
				return nvsMax
			}
			return nvsReg
		}),
		in(value, a, z, func(d []byte) int64 {
			switch n := int64(lib.U(d, a, z)); n {
			case 0:
				return 0
			case 1023:
				if step == 1 {
					return 1023 // the saturation value of the subsonic formats
				}
				return (n - 1) * step
			default:
				return (n - 1) * step
			}
		}),
	}
}

// Velocity is the specification of a subtype of the airborne velocity.
func velocity(sub int) []F {
	step := int64(1)
	if sub == 2 || sub == 4 {
		step = 4
	}
	fs := []F{
		u("FormatTypeCode", 1, 5), u("Subtype", 6, 8), u("IntentChange", 9, 9), u("IFRCapability", 10, 10),
		u("NavigationUncertaintyCategory", 11, 13),
		u("VerticalRateSource", 36, 36),
	}
	signedMag := func(status, value string, s, a, z int, step int64) []F {
		m := magnitude(status, value, a, z, step)
		w := m[1].W
		m[1] = F{value, s, z, func(d []byte) Val {
			v := w(d)
			if lib.B(d, s) {
				v.I = -v.I
			}
			return v
		}}
		return m
	}
	fs = append(fs, signedMag("VerticalRateStatus", "VerticalRate", 37, 38, 46, 64)...)
	if sub <= 2 {
		fs = append(fs, u("DirectionEastWest", 14, 14), u("DirectionNorthSouth", 25, 25))
		fs = append(fs, magnitude("VelocityEWStatus", "VelocityEW", 15, 24, step)...)
		fs = append(fs, magnitude("VelocityNSStatus", "VelocityNS", 26, 35, step)...)
		fs = append(fs, signedMag("DifferenceAltitudeGNSSBaroStatus", "DifferenceAltitudeGNSSBaro", 49, 50, 56, 25)...)
	} else {
		fs = append(fs, bo("MagneticHeadingStatus", 14), scaled("MagneticHeading", 15, 24, 360.0/1024, 0))
		fs = append(fs, magnitude("AirspeedStatus", "Airspeed", 26, 35, step)...)
		fs = append(fs, signedMag("HeightDifferenceFromBaroStatus", "HeightDifferenceFromBaro", 49, 50, 56, 25)...)
	}
	return fs
}

func fixSub(tc int, a, z int, subs ...int) func(d []byte, e *lib.Ent) {
	return func(d []byte, e *lib.Ent) {
		lib.Put(d, 1, 5, uint64(tc))
		if !oneOf(int(lib.U(d, a, z)), subs...) {
			lib.Put(d, a, z, pick(e, subs...))
		}
	}
}

// computed checks the speed and the track computed from the two components.
func computed(v any, d []byte, o *lib.Obs) error {
	type sp interface {
		GetSpeed() (uint32, error)
		GetTrack() (float32, error)
	}
	g, ok := v.(sp)
	if !ok {
		return nil
	}
	ew, ns := int64(lib.U(d, 15, 24)), int64(lib.U(d, 26, 35))
	speed, err1 := g.GetSpeed()
	track, err2 := g.GetTrack()
	if ew == 0 || ns == 0 || ew == 1023 || ns == 1023 {
		if err1 == nil || err2 == nil {
			return fmt.Errorf("BDS 0,9: %x: a speed (%v) or a track (%v) is computed from an unavailable or saturated component", d, speed, track)
		}
		return nil
	}
	o.Class("computed ground speed")
	step := 1.0
	if lib.U(d, 6, 8) == 2 {
		step = 4
	}
	x, y := float64(ew-1)*step, float64(ns-1)*step
	if lib.B(d, 14) {
		x = -x
	}
	if lib.B(d, 25) {
		y = -y
	}
	want := math.Hypot(x, y)
	if err1 != nil || math.Abs(float64(speed)-want) >= 1 {
		return fmt.Errorf("BDS 0,9: %x: speed %v (%v), want %v", d, speed, err1, want)
	}
	if x == 0 && y == 0 {
		// No movement, so no track; whatever is said must not be nonsense.
		if err2 == nil && !(track >= -360 && track <= 360) {
			return fmt.Errorf("BDS 0,9: %x: track %v without movement", d, track)
		}
		return nil
	}
	wt := math.Atan2(x, y) * 180 / math.Pi
	diff := math.Mod(float64(track)-wt, 360)
	if diff > 180 {
		diff -= 360
	}
	if diff < -180 {
		diff += 360
	}
	if err2 != nil || !(math.Abs(diff) <= 0.01) {
		return fmt.Errorf("BDS 0,9: %x: track %v (%v), want %v", d, track, err2, wt)
	}
	if track < 0 || track >= 360.0001 {
		return fmt.Errorf("BDS 0,9: %x: track %v is not within 0 to 360", d, track)
	}
	return nil
}

func bds09Spec(name string, sub int, dec func(d []byte) (any, error)) *Spec {
	return &Spec{
		Name: name, Len: 7, Fields: velocity(sub),
		Valid:  func(d []byte) bool { return TC(d) == 19 && int(lib.U(d, 6, 8)) == sub },
		Fix:    fixSub(19, 6, 8, sub),
		Decode: dec,
		Extra:  computed,
		Cells:  [][2]int{{1, 8}, {47, 48}, {6, 8}},
	}
}

// BDS09S are the four subtypes of the airborne velocity.
var BDS09S = [5]*Spec{
	nil,
	bds09Spec("BDS 0,9 subtype 1", 1, func(d []byte) (any, error) { return bds09.ReadAirborneVelocityGroundSpeedNormal(d) }),
	bds09Spec("BDS 0,9 subtype 2", 2, func(d []byte) (any, error) { return bds09.ReadAirborneVelocityGroundSpeedSupersonic(d) }),
	bds09Spec("BDS 0,9 subtype 3", 3, func(d []byte) (any, error) { return bds09.ReadAirborneVelocityAirSpeedNormal(d) }),
	bds09Spec("BDS 0,9 subtype 4", 4, func(d []byte) (any, error) { return bds09.ReadAirborneVelocityAirSpeedSupersonic(d) }),
}

var types09 = [5]string{"", "GroundSpeedNormal", "GroundSpeedSupersonic", "AirSpeedNormal", "AirSpeedSupersonic"}

// BDS09 is the generic reader.
var BDS09 = &Spec{
	Name: "BDS 0,9", Len: 7,
	Fields: []F{u("GetSubtype()", 6, 8)},
	Valid:  func(d []byte) bool { return TC(d) == 19 && oneOf(int(lib.U(d, 6, 8)), 1, 2, 3, 4) },
	Fix:    fixSub(19, 6, 8, 1, 2, 3, 4),
	Decode: func(d []byte) (any, error) { return bds09.ReadAirborneVelocity(d) },
	Extra: func(v any, d []byte, o *lib.Obs) error {
		s := int(lib.U(d, 6, 8))
		if want, got := "*bds09.AirborneVelocity"+types09[s], fmt.Sprintf("%T", v); got != want {
			return fmt.Errorf("BDS 0,9: %x decoded as %s", d, got)
		}
		if err := BDS09S[s].Compare(v, d); err != nil {
			return err
		}
		return computed(v, d, o)
	},
	Cells: [][2]int{{1, 8}, {14, 24}, {25, 35}, {36, 46}, {49, 56}, {9, 13}, {47, 48}},
}

// ---- ACAS resolution advisory (48 bits) ----

// RAFields checks a decoded advisory against the 48 bits of d (the MV field from its second byte on).
func RACompare(r *ra.ResolutionAdvisory, d []byte) error {
	bad := func(f string, a ...any) error {
		return fmt.Errorf("resolution advisory %x: %s", d, fmt.Sprintf(f, a...))
	}
	mte, tti := lib.U(d, 20, 20), int(lib.U(d, 21, 22))
	b := func(i int) bool { return lib.B(d, i) }
	n := func(i int) int { return int(lib.U(d, i, i)) }
	kind := rafields.NoVerticalRAGenerated
	switch {
	case b(1):
		kind = rafields.OneThreatOrSameSeparation
		a, ok := r.ActiveRA.(*rafields.ActiveRAOneThreatOrSameSeparation)
		if !ok || a == nil {
			return bad("advisory decoded as %T, want one threat", r.ActiveRA)
		}
		got := []int{int(a.PreventiveCorrective), int(a.Sense), b2i(a.IsIncreasedRate), b2i(a.IsSenseReversal), b2i(a.IsAltitudeCrossing), int(a.VerticalSpeedLimitOrPositive)}
		want := []int{n(2), n(3), n(4), n(5), n(6), n(7)}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return bad("advisory bits got %v, want %v", got, want)
		}
	case mte == 1:
		kind = rafields.MultipleThreatDifferentSeparation
		a, ok := r.ActiveRA.(*rafields.ActiveRAMultipleThreatsDifferentSeparation)
		if !ok || a == nil {
			return bad("advisory decoded as %T, want multiple threats", r.ActiveRA)
		}
		got := []bool{a.RequiresCorrectionUpwardSense, a.RequiresPositiveClimb, a.RequiresCorrectionDownwardSense, a.RequiresPositiveDescend, a.RequiresCrossing, a.IsSenseReversal}
		want := []bool{b(2), b(3), b(4), b(5), b(6), b(7)}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return bad("advisory bits got %v, want %v", got, want)
		}
	default:
		switch r.ActiveRA.(type) {
		case rafields.ActiveRANoVerticalRAGenerated, *rafields.ActiveRANoVerticalRAGenerated:
		default:
			return bad("advisory decoded as %T, want none", r.ActiveRA)
		}
	}
	if got := r.ActiveRA.GetType(); got != kind {
		return bad("advisory %T says it is of type %d, want %d", r.ActiveRA, got, kind)
	}
	c := r.RAComplement
	if got, want := []bool{c.DoNotPassBelow, c.DoNotPassAbove, c.DoNotTurnLeft, c.DoNotTurnRight}, []bool{b(15), b(16), b(17), b(18)}; fmt.Sprint(got) != fmt.Sprint(want) {
		return bad("complement got %v, want %v", got, want)
	}
	if int(r.RATerminatedIndicator) != n(19) {
		return bad("terminated indicator got %d", r.RATerminatedIndicator)
	}
	if uint64(r.MultipleThreatEncounter) != mte {
		return bad("multiple threat encounter got %d", r.MultipleThreatEncounter)
	}
	if int(r.ThreatTypeIndicator) != tti {
		return bad("threat type got %d, want %d", r.ThreatTypeIndicator, tti)
	}
	if (r.ThreatIdentityAddress != nil) != (tti == 1) {
		return bad("threat type %d, address %v", tti, r.ThreatIdentityAddress)
	}
	if tti == 1 && uint64(*r.ThreatIdentityAddress) != lib.U(d, 23, 46) {
		return bad("threat address %x, want %x", *r.ThreatIdentityAddress, lib.U(d, 23, 46))
	}
	if (r.ThreatIdentityAltitude != nil) != (tti == 2) || (r.ThreatIdentityRange != nil) != (tti == 2) || (r.ThreatIdentityBearing != nil) != (tti == 2) {
		return bad("threat type %d: altitude %v range %v bearing %v", tti, r.ThreatIdentityAltitude, r.ThreatIdentityRange, r.ThreatIdentityBearing)
	}
	if tti == 2 {
		kind, feet := Threat(lib.U(d, 23, 35))
		st := rafields.AltitudeValid
		if kind == AltUnavailable {
			st, feet = rafields.AltitudeInvalid, 0
		}
		if a := r.ThreatIdentityAltitude; a.AltitudeStatus != st || int64(a.AltitudeInFeet) != feet {
			return bad("threat altitude %+v, want %v %d", *a, st, feet)
		}
		rg, br := lib.U(d, 36, 42), lib.U(d, 43, 48)
		if uint64(*r.ThreatIdentityRange) != rg {
			return bad("threat range code %d, want %d", *r.ThreatIdentityRange, rg)
		}
		if got, want := r.ThreatIdentityRange.GetRange(), Range(int(rg)); math.Abs(got-want) > 1e-6 {
			return bad("threat range %v, want %v", got, want)
		}
		if uint64(*r.ThreatIdentityBearing) != br {
			return bad("threat bearing code %d, want %d", *r.ThreatIdentityBearing, br)
		}
		if got, want := r.ThreatIdentityBearing.GetBearing(), Bearing(int(br)); got != want {
			return bad("threat bearing %v, want %v", got, want)
		}
	}
	return nil
}

// Range is the range in NM of a threat.
func Range(n int) float64 {
	switch {
	case n == 0:
		return 0
	case n == 127:
		return 12.6
	}
	return float64(n-1) / 10
}

// Bearing is the bearing in degrees of a threat.
func Bearing(n int) int {
	switch {
	case n == 0:
		return 0
	case n > 60:
		return 363
	}
	return 6*n - 3
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// RAOK says whether the advisory can be decoded.
func RAOK(d []byte) bool {
	if lib.U(d, 21, 22) != 2 {
		return true
	}
	k, _ := Threat(lib.U(d, 23, 35))
	return k != AltBad
}

// FixRA makes the advisory acceptable.
func FixRA(d []byte, e *lib.Ent) {
	if !RAOK(d) {
		m := lib.U(d, 29, 29)
		lib.Put(d, 23, 35, Spread13(GillhamCode[int64(-1200+100*e.N(1280))]))
		lib.Put(d, 29, 29, m)
	}
}

// RACells are the ranges of an advisory worth enumerating.
var RACells = [][2]int{{1, 7}, {8, 14}, {15, 18}, {19, 22}, {23, 35}, {36, 42}, {43, 48}, {23, 46}}

func shift(cells [][2]int, k int) [][2]int {
	var out [][2]int
	for _, c := range cells {
		out = append(out, [2]int{c[0] + k, c[1] + k})
	}
	return out
}

// RA is the advisory itself.
var RA = &Spec{
	Name: "resolution advisory", Len: 6,
	Valid:  RAOK,
	Fix:    FixRA,
	Decode: func(d []byte) (any, error) { return ra.ReadResolutionAdvisory(d) },
	Extra: func(v any, d []byte, o *lib.Obs) error {
		o.Class(fmt.Sprintf("threat type %d", lib.U(d, 21, 22)))
		return RACompare(v.(*ra.ResolutionAdvisory), d)
	},
	Cells: RACells,
}

// BDS30 is the advisory register.
var BDS30 = &Spec{
	Name: "BDS 3,0", Len: 7,
	Valid: func(d []byte) bool { return d[0] == 0x30 && RAOK(d[1:]) },
	Fix: func(d []byte, e *lib.Ent) {
		d[0] = 0x30
		FixRA(d[1:], e)
	},
	Decode: func(d []byte) (any, error) { return bds30.ReadACASResolutionAdvisory(d) },
	Extra: func(v any, d []byte, o *lib.Obs) error {
		return RACompare(&v.(*bds30.ACASResolutionAdvisory).ResolutionAdvisory, d[1:])
	},
	Coherent: func(d []byte) bool { return true },
	Cells:    append([][2]int{{1, 8}}, shift(RACells, 8)...),
}

// ---- aircraft status ----

var type61 = [3]string{"NoInformation", "Emergency", "ACAS"}

// BDS61E is the emergency status.
var BDS61E = &Spec{
	Name: "BDS 6,1 emergency", Len: 7,
	Fields: []F{u("FormatTypeCode", 1, 5), u("Subtype", 6, 8), u("EmergencyPriorityStatus", 9, 11), u("ModeACode", 12, 24)},
	Valid:  func(d []byte) bool { return TC(d) == 28 && lib.U(d, 6, 8) == 1 && zero(d, 25, 56) },
	Fix: func(d []byte, e *lib.Ent) {
		lib.Put(d, 1, 8, 28<<3|1)
		clear(d, 25, 56)
	},
	Decode:   func(d []byte) (any, error) { return bds61.ReadAircraftStatusEmergency(d) },
	Coherent: func(d []byte) bool { return lib.U(d, 9, 11) <= 6 },
	Cells:    [][2]int{{1, 8}, {9, 16}, {25, 32}, {33, 40}, {41, 48}, {49, 56}},
}

// BDS61N is the status without information.
var BDS61N = &Spec{
	Name: "BDS 6,1 no information", Len: 7,
	Fields: []F{u("FormatTypeCode", 1, 5), u("Subtype", 6, 8), u("EmergencyPriorityStatus", 9, 11)},
	Valid:  func(d []byte) bool { return TC(d) == 28 && lib.U(d, 6, 8) == 0 && zero(d, 12, 56) },
	Fix: func(d []byte, e *lib.Ent) {
		lib.Put(d, 1, 8, 28<<3)
		clear(d, 12, 56)
	},
	Decode:   func(d []byte) (any, error) { return bds61.ReadAircraftStatusNoInformation(d) },
	Coherent: func(d []byte) bool { return lib.U(d, 9, 11) == 0 },
	Cells:    [][2]int{{1, 8}, {9, 16}, {12, 24}, {25, 32}, {33, 40}, {41, 48}, {49, 56}},
}

// BDS61A is the ACAS status.
var BDS61A = &Spec{
	Name: "BDS 6,1 ACAS", Len: 7,
	Fields: []F{u("FormatTypeCode", 1, 5), u("Subtype", 6, 8)},
	Valid:  func(d []byte) bool { return TC(d) == 28 && lib.U(d, 6, 8) == 2 && RAOK(d[1:]) },
	Fix: func(d []byte, e *lib.Ent) {
		lib.Put(d, 1, 8, 28<<3|2)
		FixRA(d[1:], e)
	},
	Decode: func(d []byte) (any, error) { return bds61.ReadAircraftStatusACAS(d) },
	Extra: func(v any, d []byte, o *lib.Obs) error {
		return RACompare(&v.(*bds61.AircraftStatusACAS).ResolutionAdvisory, d[1:])
	},
	Coherent: func(d []byte) bool { return true },
	Cells:    append([][2]int{{1, 8}}, shift(RACells, 8)...),
}

var specs61 = [3]*Spec{BDS61N, BDS61E, BDS61A}

// BDS61 is the generic reader.
var BDS61 = &Spec{
	Name: "BDS 6,1", Len: 7,
	Fields: []F{u("GetSubtype()", 6, 8)},
	Valid: func(d []byte) bool {
		s := int(lib.U(d, 6, 8))
		return TC(d) == 28 && s <= 2 && specs61[s].Valid(d)
	},
	Fix: func(d []byte, e *lib.Ent) {
		s := int(lib.U(d, 6, 8))
		if s > 2 {
			s = e.N(3)
		}
		specs61[s].Fix(d, e)
	},
	Decode: func(d []byte) (any, error) { return bds61.ReadAircraftStatus(d) },
	Extra: func(v any, d []byte, o *lib.Obs) error {
		s := int(lib.U(d, 6, 8))
		if want, got := "*bds61.AircraftStatus"+type61[s], fmt.Sprintf("%T", v); got != want {
			return fmt.Errorf("BDS 6,1: %x decoded as %s", d, got)
		}
		if err := specs61[s].Compare(v, d); err != nil {
			return err
		}
		if specs61[s].Extra != nil {
			return specs61[s].Extra(v, d, o)
		}
		return nil
	},
	Coherent: func(d []byte) bool { return specs61[lib.U(d, 6, 8)].Coherent(d) },
	Cells:    [][2]int{{1, 8}, {6, 11}, {12, 24}},
}

// ---- target state and status ----

// BDS62T0 is the first form of the target state.
var BDS62T0 = &Spec{
	Name: "BDS 6,2 subtype 0", Len: 7,
	Fields: []F{
		u("FormatTypeCode", 1, 5), u("Subtype", 6, 7), u("VerticalDataAvailableSourceIndicator", 8, 9), u("TargetAltitudeType", 10, 10),
		u("TargetAltitudeCapability", 12, 13), u("VerticalModeIndicator", 14, 15),
		in("TargetAltitudeStatus", 16, 25, func(d []byte) int64 {
			if lib.U(d, 16, 25) > 1010 {
				return int64(fields62.NVSMaximum)
			}
			return int64(fields62.NVSRegular)
		}),
		in("TargetAltitude", 16, 25, func(d []byte) int64 {
			n := int64(lib.U(d, 16, 25))
			if n > 1010 {
				return 0
			}
			return n*100 - 1000
		}),
		u("HorizontalDataAvailableSourceIndicator", 26, 27),
		in("TargetHeadingTrackAngleStatus", 28, 36, func(d []byte) int64 {
			if lib.U(d, 28, 36) > 359 {
				return int64(fields62.NVSMaximum)
			}
			return int64(fields62.NVSRegular)
		}),
		in("TargetHeadingTrackAngle", 28, 36, func(d []byte) int64 {
			if n := int64(lib.U(d, 28, 36)); n <= 359 {
				return n
			}
			return 0
		}),
		u("TargetHeadingTrackIndicator", 37, 37), u("HorizontalModeIndicator", 38, 39),
		u("NavigationalAccuracyCategoryPosition", 40, 43), u("NICBaro", 44, 44), u("SurveillanceIntegrityLevel", 45, 46),
		u("CapabilityModeCode", 52, 53), u("EmergencyPriorityStatus", 54, 56),
	},
	Valid: func(d []byte) bool { return TC(d) == 29 && lib.U(d, 6, 7) == 0 && zero(d, 47, 51) },
	Fix: func(d []byte, e *lib.Ent) {
		lib.Put(d, 1, 7, 29<<2)
		clear(d, 47, 51)
	},
	Decode:   func(d []byte) (any, error) { return bds62.ReadTargetStateAndStatus0(d) },
	Coherent: func(d []byte) bool { return true },
	Cells:    [][2]int{{1, 7}, {47, 51}, {11, 11}},
}

// BDS62T1 is the second form of the target state.
var BDS62T1 = &Spec{
	Name: "BDS 6,2 subtype 1", Len: 7,
	Fields: []F{
		u("FormatTypeCode", 1, 5), u("Subtype", 6, 7), u("SourceIntegrityLevelSupplement", 8, 8), u("SelectedAltitudeType", 9, 9),
		flag("SelectedAltitudeStatus", 10, 20, func(d []byte) bool { return lib.U(d, 10, 20) != 0 }),
		in("SelectedAltitude", 10, 20, func(d []byte) int64 {
			if n := int64(lib.U(d, 10, 20)); n > 0 {
				return (n - 1) * 32
			}
			return 0
		}),
		flag("BarometricPressureSettingStatus", 21, 29, func(d []byte) bool { return lib.U(d, 21, 29) != 0 }),
		num("BarometricPressureSetting", 21, 29, func(d []byte) float64 {
			if n := float64(lib.U(d, 21, 29)); n > 0 {
				return (n-1)*0.8 + 800
			}
			return 0
		}),
		bo("SelectedHeadingStatus", 30), signed("SelectedHeading", 31, 32, 39, 180.0/256),
		u("NavigationalAccuracyCategoryPosition", 40, 43), u("NICBaro", 44, 44), u("SourceIntegrityLevel", 45, 46),
		u("StatusMCPFCUBits", 47, 47), bo("AutopilotEngaged", 48), bo("VNAVModeEngaged", 49), bo("AltitudeHoldModeEngaged", 50),
		bo("ApproachModeEngaged", 52), bo("TCASACASOperational", 53), bo("LNAVModeEngaged", 54),
	},
	Valid:    func(d []byte) bool { return TC(d) == 29 && lib.U(d, 6, 7) == 1 },
	Fix:      func(d []byte, e *lib.Ent) { lib.Put(d, 1, 7, 29<<2|1) },
	Decode:   func(d []byte) (any, error) { return bds62.ReadTargetStateAndStatus1(d) },
	Coherent: func(d []byte) bool { return true },
	Cells:    [][2]int{{1, 7}, {51, 51}, {55, 56}},
}

var specs62 = [2]*Spec{BDS62T0, BDS62T1}

// BDS62 is the generic reader.
var BDS62 = &Spec{
	Name: "BDS 6,2", Len: 7,
	Fields: []F{u("GetSubtype()", 6, 7)},
	Valid: func(d []byte) bool {
		s := int(lib.U(d, 6, 7))
		return TC(d) == 29 && s <= 1 && specs62[s].Valid(d)
	},
	Fix: func(d []byte, e *lib.Ent) {
		s := int(lib.U(d, 6, 7))
		if s > 1 {
			s = e.N(2)
		}
		specs62[s].Fix(d, e)
	},
	Decode: func(d []byte) (any, error) { return bds62.ReadTargetStateAndStatus(d) },
	Extra: func(v any, d []byte, o *lib.Obs) error {
		s := int(lib.U(d, 6, 7))
		if want, got := fmt.Sprintf("*bds62.TargetStateAndStatus%d", s), fmt.Sprintf("%T", v); got != want {
			return fmt.Errorf("BDS 6,2: %x decoded as %s", d, got)
		}
		return specs62[s].Compare(v, d)
	},
	Coherent: func(d []byte) bool { return true },
	Cells:    [][2]int{{1, 8}, {47, 51}},
}

// ---- operational status ----

func head65() []F { return []F{u("FormatTypeCode", 1, 5), u("Subtype", 6, 8)} }

// BDS65S are the five layouts: version 0, version 1 airborne and surface, version 2 airborne and surface.
var BDS65S = []*Spec{
	{
		Name: "BDS 6,5 version 0", Len: 7,
		Fields: join(head65(), []F{
			u("EnRouteOperationalCapabilities", 9, 12), u("TerminalAreaOperationalCapabilities", 13, 16),
			u("ApproachLandingOperationalCapabilities", 17, 20), u("SurfaceOperationalCapabilities", 21, 24),
			u("EnRouteOperationalCapabilityStatus", 25, 28), u("TerminalAreaOperationalCapabilityStatus", 29, 32),
			u("ApproachLandingOperationalCapabilityStatus", 33, 36), u("SurfaceOperationalCapabilityStatus", 37, 40),
			in("GetADSBLevel()", 41, 43, func(d []byte) int64 { return 0 }),
		}),
		Valid: func(d []byte) bool { return TC(d) == 31 && zero(d, 6, 8, 41, 56) },
		Fix: func(d []byte, e *lib.Ent) {
			lib.Put(d, 1, 8, 31<<3)
			clear(d, 41, 56)
		},
		Decode: func(d []byte) (any, error) { return bds65.ReadAircraftOperationalStatusADSB0(d) },
		Cells:  [][2]int{{1, 8}, {41, 43}, {44, 48}, {49, 56}},
	},
	{
		Name: "BDS 6,5 version 1 airborne", Len: 7,
		Fields: join(head65(), []F{
			u("AirborneCapabilityClass.NotACASStatus", 11, 11), u("AirborneCapabilityClass.CockpitDisplayOfTrafficInformationStatus", 12, 12),
			u("AirborneCapabilityClass.AirReferencedVelocityReportCapability", 15, 15), u("AirborneCapabilityClass.TargetStateReportCapability", 16, 16),
			u("AirborneCapabilityClass.TargetChangeReportCapability", 17, 18),
			u("OperationalMode.ACASResolutionAdvisoryActive", 27, 27), u("OperationalMode.IdentSwitchActive", 28, 28), u("OperationalMode.ReceivingATCServices", 29, 29),
			u("VersionNumber", 41, 43), u("NICSupplement", 44, 44), u("NavigationalAccuracyCategoryPosition", 45, 48),
			u("SurveillanceIntegrityLevel", 51, 52), u("NICBaro", 53, 53), u("HorizontalReferenceDirection", 54, 54),
			in("GetADSBLevel()", 41, 43, func(d []byte) int64 { return 1 }),
		}),
		Valid: func(d []byte) bool {
			return TC(d) == 31 && lib.U(d, 6, 8) == 0 && lib.U(d, 41, 43) == 1 && zero(d, 9, 10, 13, 14, 25, 26, 49, 50, 55, 56)
		},
		Fix: func(d []byte, e *lib.Ent) {
			lib.Put(d, 1, 8, 31<<3)
			lib.Put(d, 41, 43, 1)
			clear(d, 9, 10, 13, 14, 25, 26, 49, 50, 55, 56)
		},
		Decode: func(d []byte) (any, error) { return bds65.ReadAircraftOperationalStatusAirborneADSB1(d) },
		Cells:  cells65,
	},
	{
		Name: "BDS 6,5 version 1 surface", Len: 7,
		Fields: join(head65(), []F{
			u("SurfaceCapabilityClass.PositionOffsetApplied", 11, 11), u("SurfaceCapabilityClass.CockpitDisplayOfTrafficInformationStatus", 12, 12),
			u("SurfaceCapabilityClass.B2Low", 15, 15), u("LengthAndWidth", 21, 24),
			u("OperationalMode.ACASResolutionAdvisoryActive", 27, 27), u("OperationalMode.IdentSwitchActive", 28, 28), u("OperationalMode.ReceivingATCServices", 29, 29),
			u("VersionNumber", 41, 43), u("NICSupplement", 44, 44), u("NavigationalAccuracyCategoryPosition", 45, 48),
			u("SurveillanceIntegrityLevel", 51, 52), u("TrackAngleHeading", 53, 53), u("HorizontalReferenceDirection", 54, 54),
			in("GetADSBLevel()", 41, 43, func(d []byte) int64 { return 1 }),
		}),
		Valid: func(d []byte) bool {
			return TC(d) == 31 && lib.U(d, 6, 8) == 1 && lib.U(d, 41, 43) == 1 && zero(d, 9, 10, 13, 14, 25, 26, 49, 50, 55, 56)
		},
		Fix: func(d []byte, e *lib.Ent) {
			lib.Put(d, 1, 8, 31<<3|1)
			lib.Put(d, 41, 43, 1)
			clear(d, 9, 10, 13, 14, 25, 26, 49, 50, 55, 56)
		},
		Decode: func(d []byte) (any, error) { return bds65.ReadAircraftOperationalStatusSurfaceADSB1(d) },
		Cells:  cells65,
	},
	{
		Name: "BDS 6,5 version 2 airborne", Len: 7,
		Fields: join(head65(), []F{
			u("AirborneCapabilityClass.ACASOperational", 11, 11), u("AirborneCapabilityClass.ExtendedSquitterIn", 12, 12),
			u("AirborneCapabilityClass.AirReferencedVelocityReportCapability", 15, 15), u("AirborneCapabilityClass.TargetStateReportCapability", 16, 16),
			u("AirborneCapabilityClass.TargetChangeReportCapability", 17, 18), u("AirborneCapabilityClass.UniversalAccessTransceiverCapability", 19, 19),
			u("OperationalMode.ACASResolutionAdvisoryActive", 27, 27), u("OperationalMode.IdentSwitchActive", 28, 28),
			u("OperationalMode.SingleAntennaFlag", 30, 30), u("OperationalMode.SystemDesignAssurance", 31, 32),
			u("VersionNumber", 41, 43), u("NICSupplementA", 44, 44), u("NavigationalAccuracyCategoryPosition", 45, 48),
			u("GeometricVerticalAccuracy", 49, 50), u("SourceIntegrityLevel", 51, 52), u("NICBaro", 53, 53),
			u("HorizontalReferenceDirection", 54, 54), u("SourceIntegrityLevelSupplement", 55, 55),
			in("GetADSBLevel()", 41, 43, func(d []byte) int64 { return 2 }),
		}),
		Valid: func(d []byte) bool {
			return TC(d) == 31 && lib.U(d, 6, 8) == 0 && lib.U(d, 41, 43) == 2 && zero(d, 9, 10, 25, 26, 56, 56)
		},
		Fix: func(d []byte, e *lib.Ent) {
			lib.Put(d, 1, 8, 31<<3)
			lib.Put(d, 41, 43, 2)
			clear(d, 9, 10, 25, 26, 56, 56)
		},
		Decode: func(d []byte) (any, error) { return bds65.ReadAircraftOperationalStatusAirborneADSB2(d) },
		Cells:  cells65,
	},
	{
		Name: "BDS 6,5 version 2 surface", Len: 7,
		Fields: join(head65(), []F{
			u("SurfaceCapabilityClass.ExtendedSquitterIn", 12, 12), u("SurfaceCapabilityClass.B2Low", 15, 15),
			u("SurfaceCapabilityClass.UniversalAccessTransceiverCapability", 16, 16), u("SurfaceCapabilityClass.NavigationAccuracyCategoryVelocity", 17, 19),
			u("SurfaceCapabilityClass.NICSupplementC", 20, 20), u("LengthAndWidth", 21, 24),
			u("OperationalMode.ACASResolutionAdvisoryActive", 27, 27), u("OperationalMode.IdentSwitchActive", 28, 28),
			u("OperationalMode.SingleAntennaFlag", 30, 30), u("OperationalMode.SystemDesignAssurance", 31, 32),
			u("OperationalMode.GPSAntenna.GPSAntennaLateral", 33, 35), u("OperationalMode.GPSAntenna.GPSAntennaLongitudinal", 36, 40),
			u("VersionNumber", 41, 43), u("NICSupplementA", 44, 44), u("NavigationalAccuracyCategoryPosition", 45, 48),
			u("SourceIntegrityLevel", 51, 52), u("TrackAngleHeading", 53, 53),
			u("HorizontalReferenceDirection", 54, 54), u("SourceIntegrityLevelSupplement", 55, 55),
			in("GetADSBLevel()", 41, 43, func(d []byte) int64 { return 2 }),
		}),
		Valid: func(d []byte) bool {
			return TC(d) == 31 && lib.U(d, 6, 8) == 1 && lib.U(d, 41, 43) == 2 && zero(d, 9, 10, 25, 26, 56, 56)
		},
		Fix: func(d []byte, e *lib.Ent) {
			lib.Put(d, 1, 8, 31<<3|1)
			lib.Put(d, 41, 43, 2)
			clear(d, 9, 10, 25, 26, 56, 56)
		},
		Decode: func(d []byte) (any, error) { return bds65.ReadAircraftOperationalStatusSurfaceADSB2(d) },
		Cells:  cells65,
	},
}

var cells65 = [][2]int{{1, 8}, {9, 14}, {15, 20}, {25, 26}, {27, 32}, {33, 40}, {41, 43}, {49, 50}, {51, 56}, {55, 56}}

var types65 = [5]string{"ADSB0", "AirborneADSB1", "SurfaceADSB1", "AirborneADSB2", "SurfaceADSB2"}

// Layout65 is the index in BDS65S of the layout that a message announces, or -1.
func Layout65(d []byte) int {
	v, s := int(lib.U(d, 41, 43)), int(lib.U(d, 6, 8))
	switch {
	case v == 0 && s == 0:
		return 0
	case v == 0 || v > 2 || s > 1:
		return -1
	}
	return 2*v - 1 + s
}

// BDS65 is the generic reader.
var BDS65 = &Spec{
	Name: "BDS 6,5", Len: 7,
	Valid: func(d []byte) bool {
		k := Layout65(d)
		return k >= 0 && BDS65S[k].Valid(d)
	},
	Fix: func(d []byte, e *lib.Ent) {
		k := Layout65(d)
		if k < 0 || TC(d) != 31 && e.P(2) {
			k = e.N(5)
		}
		BDS65S[k].Fix(d, e)
	},
	Decode: func(d []byte) (any, error) { return bds65.ReadAircraftOperationalStatus(d) },
	Extra: func(v any, d []byte, o *lib.Obs) error {
		k := Layout65(d)
		if want, got := "*bds65.AircraftOperationalStatus"+types65[k], fmt.Sprintf("%T", v); got != want {
			return fmt.Errorf("BDS 6,5: %x decoded as %s", d, got)
		}
		o.Class(BDS65S[k].Name)
		return BDS65S[k].Compare(v, d)
	},
	Cells: cells65,
}

// Registers are the Comm-B registers in the order in which they are inferred.
var (
	First  = []*Spec{BDS00, BDS07, BDS20}
	Others = []*Spec{BDS10, BDS17, BDS30, BDS40, BDS44, BDS45, BDS50, BDS60}
)
