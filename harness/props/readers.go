package props

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"sync"

	"github.com/twuillemin/modes/pkg/acas/ra"
	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/adsb/airborne_position"
	"github.com/twuillemin/modes/pkg/adsb/airborne_velocity"
	"github.com/twuillemin/modes/pkg/adsb/aircraft_identification_and_category"
	"github.com/twuillemin/modes/pkg/adsb/aircraft_operational_status"
	"github.com/twuillemin/modes/pkg/adsb/aircraft_status"
	"github.com/twuillemin/modes/pkg/adsb/no_position_information"
	adsbreader "github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/adsb/surface_position"
	"github.com/twuillemin/modes/pkg/adsb/target_state_and_status"
	"github.com/twuillemin/modes/pkg/bds/bds00"
	"github.com/twuillemin/modes/pkg/bds/bds05"
	"github.com/twuillemin/modes/pkg/bds/bds06"
	"github.com/twuillemin/modes/pkg/bds/bds07"
	"github.com/twuillemin/modes/pkg/bds/bds08"
	"github.com/twuillemin/modes/pkg/bds/bds09"
	"github.com/twuillemin/modes/pkg/bds/bds10"
	"github.com/twuillemin/modes/pkg/bds/bds17"
	"github.com/twuillemin/modes/pkg/bds/bds20"
	"github.com/twuillemin/modes/pkg/bds/bds30"
	"github.com/twuillemin/modes/pkg/bds/bds40"
	"github.com/twuillemin/modes/pkg/bds/bds44"
	"github.com/twuillemin/modes/pkg/bds/bds45"
	"github.com/twuillemin/modes/pkg/bds/bds50"
	"github.com/twuillemin/modes/pkg/bds/bds60"
	"github.com/twuillemin/modes/pkg/bds/bds61"
	"github.com/twuillemin/modes/pkg/bds/bds62"
	"github.com/twuillemin/modes/pkg/bds/bds65"
	"github.com/twuillemin/modes/pkg/commb"
	msreader "github.com/twuillemin/modes/pkg/modes/reader"
	"verif/harness/lib"
	"verif/harness/spec"
)

// An entry is an exported reader of messages.
type entry struct {
	name string
	lens []int // the acceptable lengths
	read func(d []byte, p int) (any, error)
	gen  func(e *lib.Ent) []byte
}

// The parameter of an entry: the low byte is the version, then the supplements A and C.
func version(p int) adsb.ADSBVersion { return adsb.ADSBVersion(p) }
func supA(p int) bool                { return p>>8&1 == 1 }
func supC(p int) bool                { return p>>9&1 == 1 }

func plain[T any](f func([]byte) (T, error)) func(d []byte, p int) (any, error) {
	return func(d []byte, p int) (any, error) { v, err := f(d); return v, err }
}

func versioned[T any](f func(adsb.ADSBVersion, []byte) (T, error)) func(d []byte, p int) (any, error) {
	return func(d []byte, p int) (any, error) { v, err := f(version(p), d); return v, err }
}

func withA[T any](f func([]byte, bool) (T, error)) func(d []byte, p int) (any, error) {
	return func(d []byte, p int) (any, error) { v, err := f(d, supA(p)); return v, err }
}

func genSquitterBytes(tcs ...int) func(e *lib.Ent) []byte {
	return func(e *lib.Ent) []byte { return spec.GenSquitter(e, tcs...).D }
}

func genRegister(s *spec.Spec) func(e *lib.Ent) []byte {
	return func(e *lib.Ent) []byte { return s.Gen(e) }
}

var registersOfCommB = [11]*spec.Spec{spec.BDS00, spec.BDS07, spec.BDS20, spec.BDS10, spec.BDS17, spec.BDS30, spec.BDS40, spec.BDS44, spec.BDS45, spec.BDS50, spec.BDS60}

func genAnyRegister(e *lib.Ent) []byte {
	return registersOfCommB[e.N(len(registersOfCommB))].Gen(e)
}

var air = []int{9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 22}

var entries = func() []entry {
	seven := []int{7}
	one := func(n string, f func(d []byte, p int) (any, error), g func(e *lib.Ent) []byte) entry {
		return entry{n, seven, f, g}
	}
	return []entry{
		{"modes/reader.ReadMessage", []int{7, 14}, plain(msreader.ReadMessage), func(e *lib.Ent) []byte { return spec.GenFrame(e, spec.Formats[e.N(len(spec.Formats))]) }},
		one("adsb/reader.ReadADSBMessage", func(d []byte, p int) (any, error) {
			v, err := adsbreader.ReadADSBMessage(version(p), supA(p), supC(p), d)
			return v, err
		}, genSquitterBytes(spec.AllTCs...)),
		one("no_position_information.ReadNoPositionInformation", versioned(no_position_information.ReadNoPositionInformation), genSquitterBytes(0)),
		one("airborne_position.ReadAirbornePositionType0", versioned(airborne_position.ReadAirbornePositionType0), genSquitterBytes(0)),
		one("airborne_position.ReadAirbornePosition", func(d []byte, p int) (any, error) {
			v, err := airborne_position.ReadAirbornePosition(version(p), d, supA(p))
			return v, err
		}, genSquitterBytes(air...)),
		one("airborne_position.ReadAirbornePositionV0", plain(airborne_position.ReadAirbornePositionV0), genSquitterBytes(air...)),
		one("airborne_position.ReadAirbornePositionV1", withA(airborne_position.ReadAirbornePositionV1), genSquitterBytes(air...)),
		one("airborne_position.ReadAirbornePositionV2", withA(airborne_position.ReadAirbornePositionV2), genSquitterBytes(air...)),
		one("surface_position.ReadSurfacePosition", func(d []byte, p int) (any, error) {
			v, err := surface_position.ReadSurfacePosition(version(p), d, supA(p), supC(p))
			return v, err
		}, genSquitterBytes(5, 6, 7, 8)),
		one("surface_position.ReadSurfacePositionV0", plain(surface_position.ReadSurfacePositionV0), genSquitterBytes(5, 6, 7, 8)),
		one("surface_position.ReadSurfacePositionV1", withA(surface_position.ReadSurfacePositionV1), genSquitterBytes(5, 6, 7, 8)),
		one("surface_position.ReadSurfacePositionV2", func(d []byte, p int) (any, error) {
			v, err := surface_position.ReadSurfacePositionV2(d, supA(p), supC(p))
			return v, err
		}, genSquitterBytes(5, 6, 7, 8)),
		one("aircraft_identification_and_category.Read", versioned(aircraft_identification_and_category.ReadAircraftIdentificationAndCategory), genSquitterBytes(1, 2, 3, 4)),
		one("airborne_velocity.Read", versioned(airborne_velocity.ReadAirborneVelocity), genSquitterBytes(19)),
		one("aircraft_status.Read", versioned(aircraft_status.ReadAircraftStatus), genSquitterBytes(28)),
		one("target_state_and_status.Read", versioned(target_state_and_status.ReadTargetStateAndStatus), genSquitterBytes(29)),
		one("aircraft_operational_status.Read", versioned(aircraft_operational_status.ReadAircraftOperationalStatus), genSquitterBytes(31)),
		one("commb.ReadCommBMessage", plain(commb.ReadCommBMessage), genAnyRegister),
		{"acas/ra.ReadResolutionAdvisory", []int{6}, plain(ra.ReadResolutionAdvisory), func(e *lib.Ent) []byte { return e.Mixed(6) }},
		one("bds00.ReadNoMessageAvailable", plain(bds00.ReadNoMessageAvailable), genRegister(spec.BDS00)),
		one("bds05.ReadAirbornePosition", plain(bds05.ReadAirbornePosition), genSquitterBytes(air...)),
		one("bds06.ReadSurfacePosition", plain(bds06.ReadSurfacePosition), genSquitterBytes(5, 6, 7, 8)),
		one("bds07.ReadStatus", plain(bds07.ReadStatus), genRegister(spec.BDS07)),
		one("bds08.ReadAircraftIdentificationAndCategory", plain(bds08.ReadAircraftIdentificationAndCategory), genSquitterBytes(1, 2, 3, 4)),
		one("bds09.ReadAirborneVelocity", plain(bds09.ReadAirborneVelocity), genSquitterBytes(19)),
		one("bds09.ReadAirborneVelocityGroundSpeedNormal", plain(bds09.ReadAirborneVelocityGroundSpeedNormal), genRegister(spec.BDS09S[1])),
		one("bds09.ReadAirborneVelocityGroundSpeedSupersonic", plain(bds09.ReadAirborneVelocityGroundSpeedSupersonic), genRegister(spec.BDS09S[2])),
		one("bds09.ReadAirborneVelocityAirSpeedNormal", plain(bds09.ReadAirborneVelocityAirSpeedNormal), genRegister(spec.BDS09S[3])),
		one("bds09.ReadAirborneVelocityAirSpeedSupersonic", plain(bds09.ReadAirborneVelocityAirSpeedSupersonic), genRegister(spec.BDS09S[4])),
		one("bds10.ReadDataLinkCapabilityReport", plain(bds10.ReadDataLinkCapabilityReport), genRegister(spec.BDS10)),
		one("bds17.ReadCommonUsageGICBCapabilityReport", plain(bds17.ReadCommonUsageGICBCapabilityReport), genRegister(spec.BDS17)),
		one("bds20.ReadAircraftIdentification", plain(bds20.ReadAircraftIdentification), genRegister(spec.BDS20)),
		one("bds30.ReadACASResolutionAdvisory", plain(bds30.ReadACASResolutionAdvisory), genRegister(spec.BDS30)),
		one("bds40.ReadSelectedVerticalIntention", plain(bds40.ReadSelectedVerticalIntention), genRegister(spec.BDS40)),
		one("bds44.ReadMeteorologicalRoutineAirReport", plain(bds44.ReadMeteorologicalRoutineAirReport), genRegister(spec.BDS44)),
		one("bds44.ReadMeteorologicalRoutineAirReportV0", plain(bds44.ReadMeteorologicalRoutineAirReportV0), genRegister(spec.BDS44V0)),
		one("bds44.ReadMeteorologicalRoutineAirReportV1", plain(bds44.ReadMeteorologicalRoutineAirReportV1), genRegister(spec.BDS44V1)),
		one("bds44.ReadMeteorologicalRoutineAirReportV2", plain(bds44.ReadMeteorologicalRoutineAirReportV2), genRegister(spec.BDS44V2)),
		one("bds45.ReadMeteorologicalHazardReport", plain(bds45.ReadMeteorologicalHazardReport), genRegister(spec.BDS45)),
		one("bds45.ReadMeteorologicalHazardReportV0", plain(bds45.ReadMeteorologicalHazardReportV0), genRegister(spec.BDS45V0)),
		one("bds45.ReadMeteorologicalHazardReportV1", plain(bds45.ReadMeteorologicalHazardReportV1), genRegister(spec.BDS45V1)),
		one("bds50.ReadTrackAndTurnReport", plain(bds50.ReadTrackAndTurnReport), genRegister(spec.BDS50)),
		one("bds60.ReadHeadingAndSpeedReport", plain(bds60.ReadHeadingAndSpeedReport), genRegister(spec.BDS60)),
		one("bds61.ReadAircraftStatus", plain(bds61.ReadAircraftStatus), genSquitterBytes(28)),
		one("bds61.ReadAircraftStatusACAS", plain(bds61.ReadAircraftStatusACAS), genRegister(spec.BDS61A)),
		one("bds61.ReadAircraftStatusEmergency", plain(bds61.ReadAircraftStatusEmergency), genRegister(spec.BDS61E)),
		one("bds61.ReadAircraftStatusNoInformation", plain(bds61.ReadAircraftStatusNoInformation), genRegister(spec.BDS61N)),
		one("bds62.ReadTargetStateAndStatus", plain(bds62.ReadTargetStateAndStatus), genSquitterBytes(29)),
		one("bds62.ReadTargetStateAndStatus0", plain(bds62.ReadTargetStateAndStatus0), genRegister(spec.BDS62T0)),
		one("bds62.ReadTargetStateAndStatus1", plain(bds62.ReadTargetStateAndStatus1), genRegister(spec.BDS62T1)),
		one("bds65.ReadAircraftOperationalStatus", plain(bds65.ReadAircraftOperationalStatus), genSquitterBytes(31)),
		one("bds65.ReadAircraftOperationalStatusADSB0", plain(bds65.ReadAircraftOperationalStatusADSB0), genSquitterBytes(31)),
		one("bds65.ReadAircraftOperationalStatusAirborneADSB1", plain(bds65.ReadAircraftOperationalStatusAirborneADSB1), genSquitterBytes(31)),
		one("bds65.ReadAircraftOperationalStatusAirborneADSB2", plain(bds65.ReadAircraftOperationalStatusAirborneADSB2), genSquitterBytes(31)),
		one("bds65.ReadAircraftOperationalStatusSurfaceADSB1", plain(bds65.ReadAircraftOperationalStatusSurfaceADSB1), genSquitterBytes(31)),
		one("bds65.ReadAircraftOperationalStatusSurfaceADSB2", plain(bds65.ReadAircraftOperationalStatusSurfaceADSB2), genSquitterBytes(31)),
	}
}()

func (en *entry) accepts(n int) bool {
	for _, l := range en.lens {
		if l == n {
			return true
		}
	}
	return false
}

type method struct {
	name string
	i    int
}

var methodCache sync.Map // reflect.Type -> []method

// methodsOf are the exported methods without argument.
func methodsOf(t reflect.Type) []method {
	if m, ok := methodCache.Load(t); ok {
		return m.([]method)
	}
	var out []method
	for i := 0; i < t.NumMethod(); i++ {
		if m := t.Method(i); m.IsExported() && m.Type.NumIn() == 1 && m.Type.NumOut() > 0 {
			out = append(out, method{m.Name, i})
		}
	}
	methodCache.Store(t, out)
	return out
}

// visitor walks over a decoded value: it writes what it finds (when w is not nil) and calls the methods.
type visitor struct {
	w     *strings.Builder
	calls int
	bad   error
}

const ours = "github.com/twuillemin/modes"

func (v *visitor) put(s string) {
	if v.w != nil {
		v.w.WriteString(s)
	}
}

// result writes what a method returned.
func (v *visitor) result(where string, r reflect.Value) {
	switch r.Kind() {
	case reflect.String:
		if s := r.String(); strings.Contains(s, "%!") && v.bad == nil {
			v.bad = fmt.Errorf("%s writes %q", where, s)
		}
		v.put(r.String())
	case reflect.Interface, reflect.Ptr:
		if r.IsNil() {
			v.put("nil")
			return
		}
		if e, ok := r.Interface().(error); ok {
			v.put("error " + e.Error())
			return
		}
		if p, ok := r.Interface().(interface{ ToString() string }); ok {
			v.put(p.ToString())
			return
		}
		v.put(r.Elem().Type().String())
	case reflect.Float32, reflect.Float64:
		v.put(fmt.Sprint(math.Float64bits(r.Float())))
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.put(fmt.Sprint(r.Interface()))
	default:
		v.put(r.Type().String())
	}
}

func (v *visitor) methods(where string, r reflect.Value) {
	for _, m := range methodsOf(r.Type()) {
		v.calls++
		v.put("\n" + where + "." + m.name + " = ")
		for _, x := range r.Method(m.i).Call(nil) {
			v.result(where+"."+m.name, x)
			v.put(" ")
		}
	}
}

// walk visits a value and what it contains.
func (v *visitor) walk(where string, r reflect.Value, depth int) {
	if depth > 12 {
		return
	}
	switch r.Kind() {
	case reflect.Interface, reflect.Ptr:
		if r.IsNil() {
			v.put("\n" + where + " = nil")
			return
		}
		if r.Kind() == reflect.Interface {
			v.put("\n" + where + " is " + r.Elem().Type().String())
		}
		v.walk(where, r.Elem(), depth+1)
		return
	case reflect.Slice, reflect.Array:
		if b, ok := spec.AsBytes(r); ok {
			v.put(fmt.Sprintf("\n%s = %x", where, b))
		} else {
			for i := 0; i < r.Len(); i++ {
				v.walk(fmt.Sprintf("%s[%d]", where, i), r.Index(i), depth+1)
			}
		}
	case reflect.Map:
		v.put(fmt.Sprintf("\n%s has %d entries", where, r.Len()))
	case reflect.Struct:
		t := r.Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.IsExported() {
				v.walk(where+"."+f.Name, r.Field(i), depth+1)
			}
		}
	case reflect.Float32, reflect.Float64:
		v.put(fmt.Sprintf("\n%s = %v", where, r.Float()))
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.String:
		v.put(fmt.Sprintf("\n%s = %v", where, r))
	}
	if !strings.HasPrefix(r.Type().PkgPath(), ours) || !r.CanInterface() {
		return
	}
	if r.CanAddr() {
		v.methods(where, r.Addr())
	} else {
		v.methods(where, r)
	}
}

// exercise calls every method of a decoded value and of what it contains.
func exercise(x any) (calls int, err error) {
	v := &visitor{}
	v.walk("value", reflect.ValueOf(x), 0)
	return v.calls, v.bad
}

// fingerprint is a complete description of a decoded value, with the results of its methods.
func fingerprint(x any, err error) string {
	v := &visitor{w: &strings.Builder{}}
	if err != nil {
		v.put("error " + err.Error())
	}
	if !spec.IsNil(x) {
		v.put(fmt.Sprintf("%T", x))
		v.walk("value", reflect.ValueOf(x), 0)
	}
	return v.w.String()
}

// differ is the first difference of two fingerprints.
func differ(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		var p, q string
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("%q and %q", p, q)
		}
	}
	return "no difference"
}
