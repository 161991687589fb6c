package spec

import (
	"fmt"

	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/adsb/airborne_position"
	ap "github.com/twuillemin/modes/pkg/adsb/airborne_position/fields"
	"github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/adsb/surface_position"
	sp "github.com/twuillemin/modes/pkg/adsb/surface_position/fields"
	"verif/harness/lib"
)

// Squitter is an extended squitter with the parameters of its decoding.
type Squitter struct {
	D       []byte
	Version int
	A, C    bool
}

// Read decodes it.
func (q Squitter) Read() (adsb.Message, error) {
	return reader.ReadADSBMessage(adsb.ADSBVersion(q.Version), q.A, q.C, q.D)
}

// SquitterOf reads a case: data and n = version, A, C.
func SquitterOf(c *lib.Case) Squitter {
	return Squitter{append([]byte{}, c.D...), int(c.N[0]), c.N[1]&1 != 0, c.N[2]&1 != 0}
}

// CaseOf is the inverse.
func CaseOf(q Squitter) *lib.Case {
	return &lib.Case{D: q.D, N: []int64{int64(q.Version), int64(b2i(q.A)), int64(b2i(q.C))}}
}

const adsbPkg = "*"

// Expect is the expected kind of report: its type and the version it must report; ok is false when the
// squitter must be rejected.
func (q Squitter) Expect() (typ string, version int, ok bool) {
	d, tc := q.D, TC(q.D)
	version = q.Version
	switch {
	case tc == 0:
		if zero(d, 21, 56) {
			typ = "no_position_information.NoPositionInformation"
		} else {
			typ = "airborne_position.AirbornePositionType0"
		}
		return typ, version, altOK(d)
	case tc <= 4:
		return "aircraft_identification_and_category.AircraftIdentificationAndCategory", version, true
	case tc <= 8:
		return fmt.Sprintf("surface_position.SurfacePositionV%d", q.Version), version, q.Version <= 2
	case tc == 19:
		return "airborne_velocity.AirborneVelocity", version, BDS09.Valid(d)
	case tc <= 22:
		return fmt.Sprintf("airborne_position.AirbornePositionV%d", q.Version), version, q.Version <= 2 && altOK(d)
	case tc == 28:
		return "aircraft_status.AircraftStatus", version, BDS61.Valid(d)
	case tc == 29:
		return "target_state_and_status.TargetStateAndStatus", version, BDS62.Valid(d)
	case tc == 31:
		return "aircraft_operational_status.AircraftOperationalStatus", int(lib.U(d, 41, 43)), BDS65.Valid(d)
	}
	return "", version, false
}

// CheckKind checks the type, the version and the presence of an error.
func (q Squitter) CheckKind(v adsb.Message, err error) error {
	typ, version, ok := q.Expect()
	if !ok {
		if err == nil {
			return fmt.Errorf("squitter %x version %d: decoded as %T, want an error", q.D, q.Version, v)
		}
		if !IsNil(v) {
			return fmt.Errorf("squitter %x version %d: an error comes with a value", q.D, q.Version)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("squitter %x version %d: rejected (%v), want %s", q.D, q.Version, err, typ)
	}
	if IsNil(v) {
		return fmt.Errorf("squitter %x version %d: no value and no error", q.D, q.Version)
	}
	if got := fmt.Sprintf("%T", v); got != adsbPkg+typ {
		return fmt.Errorf("squitter %x version %d: decoded as %s, want %s", q.D, q.Version, got, typ)
	}
	if int(v.GetADSBVersion()) != version {
		return fmt.Errorf("squitter %x version %d: reports version %d, want %d", q.D, q.Version, v.GetADSBVersion(), version)
	}
	return nil
}

// Inner is the specification of the content of a squitter, and the name of the embedded value in the report.
func Inner(d []byte) (*Spec, string) {
	switch tc := TC(d); {
	case tc == 0 && zero(d, 21, 56):
		return noPosition, ""
	case tc == 0:
		return type0, ""
	case tc <= 4:
		return BDS08, "AircraftIdentificationAndCategory"
	case tc <= 8:
		return BDS06, "SurfacePosition"
	case tc == 19:
		return BDS09, "AirborneVelocity"
	case tc <= 22:
		return BDS05, "AirbornePosition"
	case tc == 28:
		return BDS61, "AircraftStatus"
	case tc == 29:
		return BDS62, "TargetStateAndStatus"
	case tc == 31:
		return BDS65, "AircraftOperationalStatus"
	}
	return nil, ""
}

// InnerType is the name of the field of a report that holds its content, and the type of the content.
func InnerType(d []byte) (name, typ string) {
	switch tc := TC(d); {
	case tc >= 1 && tc <= 4:
		return "AircraftIdentificationAndCategory", "bds08.AircraftIdentificationAndCategory"
	case tc >= 5 && tc <= 8:
		return "SurfacePosition", "bds06.SurfacePosition"
	case tc == 19:
		return "AirborneVelocity", "bds09.AirborneVelocity" + types09[lib.U(d, 6, 8)]
	case tc >= 9 && tc <= 22:
		return "AirbornePosition", "bds05.AirbornePosition"
	case tc == 28:
		return "AircraftStatus", "bds61.AircraftStatus" + type61[lib.U(d, 6, 8)]
	case tc == 29:
		return "TargetStateAndStatus", fmt.Sprintf("bds62.TargetStateAndStatus%d", lib.U(d, 6, 7))
	case tc == 31:
		return "AircraftOperationalStatus", "bds65.AircraftOperationalStatus" + types65[Layout65(d)]
	}
	return "", ""
}

var noPosition = &Spec{
	Name: "no position information", Len: 7,
	Fields: join(AltitudeFields("AltitudeReportMethod", "AltitudeBarometric"), []F{
		in("FormatTypeCode", 1, 5, func([]byte) int64 { return 0 }),
		in("NavigationIntegrityCategory", 0, 0, func([]byte) int64 { return 0 }),
	}),
}

var type0 = &Spec{
	Name: "barometric position", Len: 7,
	Fields: join(Position05()[1:3], AltitudeFields("AltitudeReportMethod", "AltitudeInFeet"), []F{
		in("FormatTypeCode", 1, 5, func([]byte) int64 { return 0 }),
		in("AltitudeSource", 1, 5, func([]byte) int64 { return 0 }),
		u("Time", 21, 21), u("CPRFormat", 22, 22), u("EncodedLatitude", 23, 39), u("EncodedLongitude", 40, 56),
		in("NavigationIntegrityCategory", 0, 0, func([]byte) int64 { return 0 }),
	}),
}

// CompareContent compares the fields of the report with the bits.
func (q Squitter) CompareContent(v adsb.Message, o *lib.Obs) error {
	s, name := Inner(q.D)
	x := any(v)
	if name != "" && name != "SurfacePosition" && name != "AirbornePosition" {
		r, err := Get(v, name)
		if err != nil {
			return err
		}
		if r.CanAddr() {
			x = r.Addr().Interface()
		} else {
			x = r.Interface()
		}
	}
	if err := s.Compare(x, q.D); err != nil {
		return err
	}
	if s.Extra != nil {
		return s.Extra(x, q.D, o)
	}
	return nil
}

// Integrity is the expected radius (by its text) and category of a position.
type Integrity struct {
	Radius int // the constant of the library
	NIC    int
	Metres float64 // the largest radius of the class in metres (1e9 when unknown)
}

const nm = 1852.0
const unknownRadius = 1e9

// AirborneIntegrity gives the table of an airborne position.
func AirborneIntegrity(version, tc int, a, b bool) Integrity {
	type row struct {
		v1, v2 int
		nic    int
		m      float64
	}
	pickAB := func(yes bool, x, y row) row {
		if yes {
			return x
		}
		return y
	}
	var r row
	switch tc {
	case 9:
		r = row{int(ap.HCRBaroV1RcLowerThan7Point5MAndVPLLowerThan11M), int(ap.HCRBaroV2RcLowerThan7Point5M), 11, 7.5}
	case 10:
		r = row{int(ap.HCRBaroV1RcLowerThan25MAndVPLLowerThan37Point5M), int(ap.HCRBaroV2RcLowerThan25M), 10, 25}
	case 11:
		r = pickAB(a, row{int(ap.HCRBaroV1RcLowerThan75MAndVPLLowerThan112M), int(ap.HCRBaroV2RcLowerThan75M), 9, 75},
			row{int(ap.HCRBaroV1RcLowerThan0Point1NM), int(ap.HCRBaroV2RcLowerThan0Point1NM), 8, 0.1 * nm})
	case 12:
		r = row{int(ap.HCRBaroV1RcLowerThan0Point2NM), int(ap.HCRBaroV2RcLowerThan0Point2NM), 7, 0.2 * nm}
	case 13:
		r = pickAB(a, row{int(ap.HCRBaroV1RcLowerThan0Point6NM), int(ap.HCRBaroV2RcLowerThan0Point6NM), 6, 0.6 * nm},
			row{int(ap.HCRBaroV1RcLowerThan0Point5NM), int(ap.HCRBaroV2RcLowerThan0Point5NM), 6, 0.5 * nm})
		if version == 2 && !a && b {
			r = row{0, int(ap.HCRBaroV2RcLowerThan0Point3NM), 6, 0.3 * nm}
		}
	case 14:
		r = row{int(ap.HCRBaroV1RcLowerThan1Point0NM), int(ap.HCRBaroV2RcLowerThan1Point0NM), 5, nm}
	case 15:
		r = row{int(ap.HCRBaroV1RcLowerThan2NM), int(ap.HCRBaroV2RcLowerThan2NM), 4, 2 * nm}
	case 16:
		r = pickAB(a, row{int(ap.HCRBaroV1RcLowerThan4NM), int(ap.HCRBaroV2RcLowerThan4NM), 3, 4 * nm},
			row{int(ap.HCRBaroV1RcLowerThan8NM), int(ap.HCRBaroV2RcLowerThan8NM), 2, 8 * nm})
	case 17:
		r = row{int(ap.HCRBaroV1RcLowerThan20NM), int(ap.HCRBaroV2RcLowerThan20NM), 1, 20 * nm}
	case 18:
		r = row{int(ap.HCRBaroV1RcGreaterThan20NM), int(ap.HCRBaroV2RcGreaterThan20NM), 0, unknownRadius}
	case 20:
		r = row{int(ap.HCRGNSSV1RcLowerThan7Point5MAndVPLLowerThan11M), int(ap.HCRGNSSV2RcLowerThan7Point5M), 11, 7.5}
	case 21:
		r = row{int(ap.HCRGNSSV1RcLowerThan25MAndVPLLowerThan37Point5M), int(ap.HCRGNSSV2RcLowerThan25M), 10, 25}
	case 22:
		r = row{int(ap.HCRGNSSV1RcGreaterThan25MOrVPLGreaterThan37Point5MOrUnknown), int(ap.HCRGNSSV2RcGreaterThan25MOrUnknown), 0, unknownRadius}
	}
	if version == 1 {
		return Integrity{r.v1, r.nic, r.m}
	}
	return Integrity{r.v2, r.nic, r.m}
}

// SurfaceIntegrity gives the table of a surface position.
func SurfaceIntegrity(version, tc int, a, c bool) Integrity {
	if version == 1 {
		switch {
		case tc == 5:
			return Integrity{int(sp.HCRV1RcLowerThan7Point5M), 11, 7.5}
		case tc == 6:
			return Integrity{int(sp.HCRV1RcLowerThan25M), 10, 25}
		case tc == 7 && a:
			return Integrity{int(sp.HCRV1RcLowerThan75M), 9, 75}
		case tc == 7:
			return Integrity{int(sp.HCRV1RcLowerThan0Point1NM), 8, 0.1 * nm}
		}
		return Integrity{int(sp.HCRV1RcGreaterThan0Point1NM), 0, unknownRadius}
	}
	switch {
	case tc == 5:
		return Integrity{int(sp.HCRV2RcLowerThan7Point5M), 11, 7.5}
	case tc == 6:
		return Integrity{int(sp.HCRV2RcLowerThan25M), 10, 25}
	case tc == 7 && a:
		return Integrity{int(sp.HCRV2RcLowerThan75M), 9, 75}
	case tc == 7:
		return Integrity{int(sp.HCRV2RcLowerThan0Point1NM), 8, 0.1 * nm}
	case a && c:
		return Integrity{int(sp.HCRV2RcLowerThan0Point2NM), 7, 0.2 * nm}
	case a:
		return Integrity{int(sp.HCRV2RcLowerThan0Point3NM), 6, 0.3 * nm}
	case c:
		return Integrity{int(sp.HCRV2RcLowerThan0Point6NM), 6, 0.6 * nm}
	}
	return Integrity{int(sp.HCRV2RcGreaterThan0Point6NM), 0, unknownRadius}
}

// Radius is the category and the largest radius of a position, by the meaning of the constant it reports.
func Radius(v adsb.Message) (nic int, metres float64, err error) {
	metresOf := func(table func(tc int, a, b bool) Integrity, tcs []int, code int) (float64, error) {
		for _, tc := range tcs {
			for s := 0; s < 4; s++ {
				if x := table(tc, s&1 != 0, s&2 != 0); x.Radius == code {
					return x.Metres, nil
				}
			}
		}
		return 0, fmt.Errorf("%T reports the unknown radius %d", v, code)
	}
	air := func(version int) func(tc int, a, b bool) Integrity {
		return func(tc int, a, b bool) Integrity { return AirborneIntegrity(version, tc, a, b) }
	}
	surface := func(version int) func(tc int, a, b bool) Integrity {
		return func(tc int, a, b bool) Integrity { return SurfaceIntegrity(version, tc, a, b) }
	}
	surfaceTCs := []int{5, 6, 7, 8}
	switch m := v.(type) {
	case *airborne_position.AirbornePositionV1:
		metres, err = metresOf(air(1), tcs05, int(m.HorizontalContainmentRadius))
		return int(m.NavigationIntegrityCategory), metres, err
	case *airborne_position.AirbornePositionV2:
		metres, err = metresOf(air(2), tcs05, int(m.HorizontalContainmentRadius))
		return int(m.NavigationIntegrityCategory), metres, err
	case *surface_position.SurfacePositionV1:
		metres, err = metresOf(surface(1), surfaceTCs, int(m.HorizontalContainmentRadius))
		return int(m.NavigationIntegrityCategory), metres, err
	case *surface_position.SurfacePositionV2:
		metres, err = metresOf(surface(2), surfaceTCs, int(m.HorizontalContainmentRadius))
		return int(m.NavigationIntegrityCategory), metres, err
	}
	return 0, 0, fmt.Errorf("%T has no category", v)
}

// CompareIntegrity compares the integrity of a position report.
func (q Squitter) CompareIntegrity(v adsb.Message) error {
	tc := TC(q.D)
	bad := func(what string, got, want any) error {
		return fmt.Errorf("squitter %x version %d A %v C %v: %s got %v, want %v", q.D, q.Version, q.A, q.C, what, got, want)
	}
	b := lib.B(q.D, 8)
	air, surf := AirborneIntegrity(q.Version, tc, q.A, b), SurfaceIntegrity(q.Version, tc, q.A, q.C)
	switch m := v.(type) {
	case *airborne_position.AirbornePositionV0:
		if int(m.HorizontalProtectionLimit) != tc || int(m.ContainmentRadius) != tc {
			return bad("limit and radius", fmt.Sprint(m.HorizontalProtectionLimit, m.ContainmentRadius), tc)
		}
	case *airborne_position.AirbornePositionV1:
		if int(m.HorizontalContainmentRadius) != air.Radius || int(m.NavigationIntegrityCategory) != air.NIC {
			return bad("radius and category", fmt.Sprint(m.HorizontalContainmentRadius, m.NavigationIntegrityCategory), air)
		}
		if m.NavigationIntegrityCodeSupplementA != q.A {
			return bad("supplement A", m.NavigationIntegrityCodeSupplementA, q.A)
		}
	case *airborne_position.AirbornePositionV2:
		if int(m.HorizontalContainmentRadius) != air.Radius || int(m.NavigationIntegrityCategory) != air.NIC {
			return bad("radius and category", fmt.Sprint(m.HorizontalContainmentRadius, m.NavigationIntegrityCategory), air)
		}
		if m.NavigationIntegrityCodeSupplementA != q.A || (m.NavigationIntegrityCodeSupplementB == ap.NICBOne) != b {
			return bad("supplements", fmt.Sprint(m.NavigationIntegrityCodeSupplementA, m.NavigationIntegrityCodeSupplementB), fmt.Sprint(q.A, b))
		}
	case *surface_position.SurfacePositionV0:
		if int(m.HorizontalProtectionLimit) != tc || int(m.ContainmentRadius) != tc {
			return bad("limit and radius", fmt.Sprint(m.HorizontalProtectionLimit, m.ContainmentRadius), tc)
		}
		// The bounds of the classes in metres, -1 where there is none.
		want := [][4]float64{{-1, 7.5, -1, 3}, {-1, 25, 3, 10}, {-1, 185.2, 10, 92.6}, {185.2, -1, 92.6, -1}}[tc-5]
		got := [4]float64{m.HorizontalProtectionLimit.GetHPLLowerBound(), m.HorizontalProtectionLimit.GetHPLHigherBound(),
			m.ContainmentRadius.GetHorizontalContainmentLowerBound(), m.ContainmentRadius.GetHorizontalContainmentHigherBound()}
		for i := range want {
			if !lib.Near(got[i], want[i]) {
				return bad("bounds of the limit and of the radius", got, want)
			}
		}
	case *surface_position.SurfacePositionV1:
		if int(m.HorizontalContainmentRadius) != surf.Radius || int(m.NavigationIntegrityCategory) != surf.NIC {
			return bad("radius and category", fmt.Sprint(m.HorizontalContainmentRadius, m.NavigationIntegrityCategory), surf)
		}
	case *surface_position.SurfacePositionV2:
		if int(m.HorizontalContainmentRadius) != surf.Radius || int(m.NavigationIntegrityCategory) != surf.NIC {
			return bad("radius and category", fmt.Sprint(m.HorizontalContainmentRadius, m.NavigationIntegrityCategory), surf)
		}
	case *airborne_position.AirbornePositionType0:
		if m.NavigationIntegrityCategory != 0 {
			return bad("category", m.NavigationIntegrityCategory, 0)
		}
	default:
		return bad("type", fmt.Sprintf("%T", v), "a position")
	}
	return nil
}

// GenSquitter makes a squitter of the given type codes.
func GenSquitter(e *lib.Ent, tcs ...int) Squitter {
	q := Squitter{Version: e.N(3), A: e.Bool(), C: e.Bool()}
	if e.P(20) {
		q.Version = int(e.Value(8))
	}
	tc := tcs[e.N(len(tcs))]
	d := e.Mixed(7)
	lib.Put(d, 1, 5, uint64(tc))
	if s, _ := Inner(d); s != nil {
		for _, r := range s.Ranges() {
			if r[0] > 5 && e.P(3) {
				lib.Put(d, r[0], r[1], e.Value(r[1]-r[0]+1))
			}
		}
		if e.P(12) {
			e.Extremes(d, s.Ranges())
			lib.Put(d, 1, 5, uint64(tc))
		}
		if e.P(10) {
			e.Copies(d, s.Ranges())
			lib.Put(d, 1, 5, uint64(tc))
		}
		if tc == 0 {
			if e.P(3) {
				clear(d, 21, 56)
			}
			if !e.P(10) {
				FixAltitude(d, e)
			}
		} else if s.Fix != nil && !e.P(10) {
			s.Fix(d, e)
		}
	}
	if e.P(8) {
		OneBit(d, e)
	}
	q.D = d
	return q
}

// AllTCs are the 32 type codes.
var AllTCs = func() []int {
	a := make([]int, 32)
	for i := range a {
		a[i] = i
	}
	return a
}()

// PositionTCs are the type codes of positions with a version.
var PositionTCs = append([]int{5, 6, 7, 8}, tcs05...)
