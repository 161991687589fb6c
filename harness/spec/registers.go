package spec

import (
	"fmt"
	"math"

	"github.com/twuillemin/modes/pkg/bds/bds00"
	"github.com/twuillemin/modes/pkg/bds/bds07"
	"github.com/twuillemin/modes/pkg/bds/bds10"
	"github.com/twuillemin/modes/pkg/bds/bds17"
	"github.com/twuillemin/modes/pkg/bds/bds20"
	"github.com/twuillemin/modes/pkg/bds/bds40"
	"github.com/twuillemin/modes/pkg/bds/bds44"
	"github.com/twuillemin/modes/pkg/bds/bds45"
	"github.com/twuillemin/modes/pkg/bds/bds50"
	"github.com/twuillemin/modes/pkg/bds/bds60"
	"verif/harness/lib"
)

// Charset is the 6-bit character table (# marks the codes without character).
const Charset = "#ABCDEFGHIJKLMNOPQRSTUVWXYZ##### ###############0123456789######"

// Chars decodes the eight 6-bit characters that start at bit 9.
func Chars(d []byte) string {
	b := make([]byte, 8)
	for i := range b {
		b[i] = Charset[lib.U(d, 9+6*i, 14+6*i)]
	}
	return string(b)
}

func hasHash(s string) bool {
	for i := range s {
		if s[i] == '#' {
			return true
		}
	}
	return false
}

func putChars(d []byte, e *lib.Ent) {
	put := func(i, c int) { lib.Put(d, 9+6*i, 14+6*i, uint64(c)) }
	char := func() int {
		for {
			if c := e.N(64); Charset[c] != '#' {
				return c
			}
		}
	}
	for i := 0; i < 8; i++ {
		put(i, char())
	}
	switch e.N(12) {
	case 0: // one or two characters only
		a, b := char(), char()
		if e.Bool() {
			a = ' '
		}
		for i := 0; i < 8; i++ {
			put(i, a)
			if e.P(6) {
				put(i, b)
			}
		}
	case 1: // all the same
		c := e.N(64)
		if e.Bool() {
			c = ' '
		}
		for i := 0; i < 8; i++ {
			put(i, c)
		}
	case 2, 3, 4: // padded
		n := e.N(9)
		for i := 0; i < 8; i++ {
			if i >= n {
				put(i, ' ')
			}
		}
		if e.P(4) {
			put(e.N(8), ' ')
		}
	case 5: // a word at some place, padded
		w := e.Word()
		at := 0
		if e.P(4) {
			at = e.N(9)
		}
		for i := 0; i < 8; i++ {
			put(i, ' ')
			for c := 0; i >= at && i-at < len(w) && c < 64; c++ {
				if Charset[c] == w[i-at] && Charset[c] != '#' {
					put(i, c)
				}
			}
		}
	case 6: // letters only, digits only
		for i := 0; i < 8; i++ {
			c := 1 + e.N(26)
			if d[0]&1 == 1 {
				c = 48 + e.N(10)
			}
			put(i, c)
		}
	}
}

// gated says that a status bit which is off goes with a zero value.
func gated(d []byte, status, a, z int) bool { return lib.B(d, status) || lib.U(d, a, z) == 0 }

// gate clears the values whose status is off; sometimes it leaves one.
func gate(d []byte, e *lib.Ent, triples ...int) {
	for i := 0; i < len(triples); i += 3 {
		if !lib.B(d, triples[i]) && !e.P(40) {
			lib.Put(d, triples[i+1], triples[i+2], 0)
		}
	}
}

// within reports |v| <= max without float trouble.
func within(v, max float64) bool { return math.Abs(v) <= max+1e-9 }

// BDS00 is the register of no message.
var BDS00 = &Spec{
	Name: "BDS 0,0", Len: 7,
	Valid:    func(d []byte) bool { return zero(d, 1, 56) },
	Fix:      func(d []byte, e *lib.Ent) { clear(d, 1, 56) },
	Decode:   func(d []byte) (any, error) { return bds00.ReadNoMessageAvailable(d) },
	Coherent: func(d []byte) bool { return true },
	Cells:    [][2]int{{1, 8}, {9, 16}, {17, 24}, {25, 32}, {33, 40}, {41, 48}, {49, 56}},
}

// BDS07 is the status of the squitters.
var BDS07 = &Spec{
	Name: "BDS 0,7", Len: 7,
	Fields:   []F{u("TransmissionRateSubfield", 1, 2), u("AltitudeTypeSubfield", 3, 3)},
	Valid:    func(d []byte) bool { return zero(d, 4, 56) },
	Fix:      func(d []byte, e *lib.Ent) { clear(d, 4, 56) },
	Decode:   func(d []byte) (any, error) { return bds07.ReadStatus(d) },
	Coherent: func(d []byte) bool { return lib.U(d, 1, 2) != 3 },
	Cells:    [][2]int{{1, 8}},
}

// BDS10 is the data link capability.
var BDS10 = &Spec{
	Name: "BDS 1,0", Len: 7,
	Fields: []F{
		u("ContinuationFlag", 9, 9), u("OverlayCommandCapability", 15, 15), u("ACASStatus", 16, 16),
		u("ModeSSubnetworkVersion", 17, 23), u("TransponderEnhancedProtocolIndicator", 24, 24),
		u("ModeSSpecificServicesCapability", 25, 25), u("UplinkELMThroughputCapability", 26, 28),
		u("DownlinkELMThroughputCapability", 29, 32), u("AircraftIdentificationCapability", 33, 33),
		u("SquitterCapabilitySubfield", 34, 34), u("SurveillanceIdentifierCode", 35, 35),
		u("CommonUsageGICBCapability", 36, 36), u("ACASHybridSurveillanceCapability", 37, 37),
		u("ACASGenerationCapability", 38, 38), u("ACASApplicableDocument", 39, 40), u("DTESubAddressStatuses", 41, 56),
	},
	Valid: func(d []byte) bool { return lib.U(d, 1, 8) == 0x10 && zero(d, 10, 14) },
	Fix: func(d []byte, e *lib.Ent) {
		lib.Put(d, 1, 8, 0x10)
		clear(d, 10, 14)
	},
	Decode: func(d []byte) (any, error) { return bds10.ReadDataLinkCapabilityReport(d) },
	Coherent: func(d []byte) bool {
		if lib.U(d, 16, 16) == 0 { // no operational ACAS
			if !zero(d, 37, 40) {
				return false
			}
		} else if lib.U(d, 39, 40) > 2 {
			return false
		}
		return lib.U(d, 17, 23) <= 5 && lib.U(d, 26, 28) <= 6 && lib.U(d, 29, 32) <= 6
	},
	Cohere: func(d []byte, e *lib.Ent) {
		if lib.U(d, 16, 16) == 0 {
			clear(d, 37, 40)
		}
		lib.Put(d, 17, 23, uint64(e.N(7)))
		lib.Put(d, 26, 28, uint64(e.N(8)))
		lib.Put(d, 29, 32, uint64(e.N(8)))
		lib.Put(d, 1, 8, 0x10)
		clear(d, 10, 14)
	},
	Cells: [][2]int{{1, 8}, {10, 14}},
}

// BDS17Names are the capabilities of BDS 1,7 in the order of their bits.
var BDS17Names = []string{
	"ExtendedSquitterAirbornePosition", "ExtendedSquitterSurfacePosition", "ExtendedSquitterStatus",
	"ExtendedSquitterIdentificationAndCategory", "ExtendedSquitterAirborneVelocityInformation",
	"ExtendedSquitterEventDrivenInformation", "AircraftIdentification", "AircraftRegistrationNumber",
	"SelectedVerticalIntention", "NextWaypointIdentifier", "NextWaypointPosition", "NextWaypointInformation",
	"MeteorologicalRoutineReport", "MeteorologicalHazardReport", "VHFChannelReport", "TrackAndTurnReport",
	"PositionCoarse", "PositionFine", "AirReferencedStateVector", "Waypoint1", "Waypoint2", "Waypoint3",
	"QuasiStaticParameterMonitoring", "HeadingAndSpeedReport",
}

// BDS17 is the common usage GICB capability.
var BDS17 = func() *Spec {
	s := &Spec{
		Name: "BDS 1,7", Len: 7,
		Valid:    func(d []byte) bool { return zero(d, 30, 56) },
		Fix:      func(d []byte, e *lib.Ent) { clear(d, 30, 56) },
		Decode:   func(d []byte) (any, error) { return bds17.ReadCommonUsageGICBCapabilityReport(d) },
		Coherent: func(d []byte) bool { return true },
		Cells:    [][2]int{{25, 32}, {30, 32}, {33, 40}, {41, 48}, {49, 56}, {1, 8}},
	}
	for i, n := range BDS17Names {
		s.Fields = append(s.Fields, bo(n, i+1))
	}
	s.Fields = append(s.Fields, bo("MilitaryApplications", 29))
	return s
}()

// BDS20 is the aircraft identification.
var BDS20 = &Spec{
	Name: "BDS 2,0", Len: 7,
	Fields:   []F{str("Identification", 0, 0, Chars)},
	Valid:    func(d []byte) bool { return lib.U(d, 1, 8) == 0x20 },
	Fix:      func(d []byte, e *lib.Ent) { lib.Put(d, 1, 8, 0x20) },
	Decode:   func(d []byte) (any, error) { return bds20.ReadAircraftIdentification(d) },
	Coherent: func(d []byte) bool { return !hasHash(Chars(d)) },
	Cohere: func(d []byte, e *lib.Ent) {
		lib.Put(d, 1, 8, 0x20)
		putChars(d, e)
		if e.P(4) {
			i := e.N(8)
			lib.Put(d, 9+6*i, 14+6*i, uint64(e.N(64)))
		}
	},
	Cells: [][2]int{{1, 8}, {9, 14}, {15, 20}, {21, 26}, {27, 32}, {33, 38}, {39, 44}, {45, 50}, {51, 56}},
}

// BDS40 is the selected vertical intention.
var BDS40 = &Spec{
	Name: "BDS 4,0", Len: 7,
	Fields: []F{
		bo("MCPFCUSelectedAltitudeAvailable", 1), scaled("MCPFCUSelectedAltitude", 2, 13, 16, 0),
		bo("FMSSelectedAltitudeAvailable", 14), scaled("FMSSelectedAltitude", 15, 26, 16, 0),
		bo("BarometricPressureSettingAvailable", 27), scaled("BarometricPressureSetting", 28, 39, 0.1, 800),
		u("StatusOfModeBits", 48, 48), bo("VNAVMode", 49), bo("AltitudeHoldMode", 50), bo("ApproachMode", 51),
		u("StatusOfTargetAltitudeSource", 54, 54), u("TargetAltitudeSource", 55, 56),
	},
	Valid:  func(d []byte) bool { return zero(d, 40, 47, 52, 53) },
	Fix:    func(d []byte, e *lib.Ent) { clear(d, 40, 47, 52, 53) },
	Decode: func(d []byte) (any, error) { return bds40.ReadSelectedVerticalIntention(d) },
	Coherent: func(d []byte) bool {
		return (lib.B(d, 1) || lib.B(d, 14) || lib.B(d, 27)) &&
			gated(d, 1, 2, 13) && gated(d, 14, 15, 26) && gated(d, 27, 28, 39) &&
			gated(d, 48, 49, 51) && gated(d, 54, 55, 56)
	},
	Cohere: func(d []byte, e *lib.Ent) {
		clear(d, 40, 47, 52, 53)
		gate(d, e, 1, 2, 13, 14, 15, 26, 27, 28, 39, 48, 49, 51, 54, 55, 56)
	},
	Cells: [][2]int{{40, 47}, {52, 53}, {1, 1}, {14, 14}, {27, 27}},
}

// met44 are the model functions of the meteorological routine report.
func wind44(d []byte) bool { return lib.U(d, 6, 14) <= 250 }

// BDS44V0 is the oldest form of the meteorological routine report.
var BDS44V0 = &Spec{
	Name: "BDS 4,4 V0", Len: 7,
	Fields: []F{
		u("Source", 1, 4), bo("WindSpeedStatus", 5), u("WindSpeed", 6, 14),
		bo("WindDirectionStatus", 5), scaled("WindDirection", 15, 23, 180.0/256, 0),
		signed("StaticAirTemperature", 24, 25, 34, 0.25),
		bo("AverageStaticPressureStatus", 35), u("AverageStaticPressure", 36, 46),
		bo("TurbulenceStatus", 47), u("Turbulence", 48, 49),
		bo("HumidityStatus", 50), scaled("Humidity", 51, 56, 100.0/64, 0),
	},
	Decode: func(d []byte) (any, error) { return bds44.ReadMeteorologicalRoutineAirReportV0(d) },
	Coherent: func(d []byte) bool {
		t := float64(lib.Sign(d, 24, 25, 34)) * 0.25
		return lib.U(d, 1, 4) < 5 && (lib.B(d, 5) || lib.B(d, 35) || lib.B(d, 47) || lib.B(d, 50)) &&
			gated(d, 5, 6, 14) && gated(d, 5, 15, 23) && gated(d, 35, 36, 46) && gated(d, 47, 48, 49) && gated(d, 50, 51, 56) &&
			wind44(d) && t >= -80 && t <= 60
	},
	Cohere: func(d []byte, e *lib.Ent) {
		lib.Put(d, 1, 4, uint64(e.N(6)))
		lib.Put(d, 6, 14, uint64(e.N(256)))
		t := e.N(580) - 330 // quarters of degree
		if t < 0 {
			lib.Put(d, 24, 24, 1)
			lib.Put(d, 25, 34, uint64(t+1024))
		} else {
			lib.Put(d, 24, 24, 0)
			lib.Put(d, 25, 34, uint64(t))
		}
		gate(d, e, 5, 6, 14, 5, 15, 23, 35, 36, 46, 47, 48, 49, 50, 51, 56)
	},
}

func fields44() []F {
	return []F{
		bo("WindSpeedStatus", 5), u("WindSpeed", 6, 14),
		bo("WindDirectionStatus", 15), scaled("WindDirection", 16, 23, 180.0/128, 0),
		bo("StaticAirTemperatureStatus", 24), signed("StaticAirTemperature", 25, 26, 35, 0.125),
		bo("AverageStaticPressureStatus", 36), u("AverageStaticPressure", 37, 47),
		u("TurbulenceFlag", 48, 48), bo("HumidityStatus", 49), scaled("Humidity", 50, 56, 1, 0),
	}
}

func coherent44(d []byte) bool {
	t := float64(lib.Sign(d, 25, 26, 35)) * 0.125
	return (lib.B(d, 5) || lib.B(d, 15) || lib.B(d, 24) || lib.B(d, 36) || lib.B(d, 49)) &&
		gated(d, 5, 6, 14) && gated(d, 15, 16, 23) && gated(d, 24, 25, 35) && gated(d, 36, 37, 47) && gated(d, 49, 50, 56) &&
		wind44(d) && t >= -80 && t <= 60
}

func cohere44(d []byte, e *lib.Ent) {
	lib.Put(d, 6, 14, uint64(e.N(256)))
	t := e.N(1140) - 650 // eighths of degree
	if t < 0 {
		lib.Put(d, 25, 25, 1)
		lib.Put(d, 26, 35, uint64(t+1024))
	} else {
		lib.Put(d, 25, 25, 0)
		lib.Put(d, 26, 35, uint64(t))
	}
	gate(d, e, 5, 6, 14, 15, 16, 23, 24, 25, 35, 36, 37, 47, 49, 50, 56)
}

// BDS44V1 is the meteorological routine report without source.
var BDS44V1 = &Spec{
	Name: "BDS 4,4 V1", Len: 7, Fields: fields44(),
	Valid:    func(d []byte) bool { return zero(d, 1, 4) },
	Fix:      func(d []byte, e *lib.Ent) { clear(d, 1, 4) },
	Decode:   func(d []byte) (any, error) { return bds44.ReadMeteorologicalRoutineAirReportV1(d) },
	Coherent: coherent44,
	Cohere: func(d []byte, e *lib.Ent) {
		lib.Put(d, 1, 4, 0)
		cohere44(d, e)
	},
	Cells: [][2]int{{1, 4}},
}

// BDS44V2 is the meteorological routine report with source.
var BDS44V2 = &Spec{
	Name: "BDS 4,4 V2", Len: 7, Fields: join([]F{u("Source", 1, 4)}, fields44()),
	Decode:   func(d []byte) (any, error) { return bds44.ReadMeteorologicalRoutineAirReportV2(d) },
	Coherent: func(d []byte) bool { return lib.U(d, 1, 4) < 5 && coherent44(d) },
	Cohere: func(d []byte, e *lib.Ent) {
		lib.Put(d, 1, 4, uint64(e.N(5)))
		cohere44(d, e)
	},
}

// BDS44 is the generic reader: the form is chosen by the source.
var BDS44 = &Spec{
	Name: "BDS 4,4", Len: 7, Fields: fields44(),
	Valid:  func(d []byte) bool { return lib.U(d, 1, 4) < 5 },
	Fix:    func(d []byte, e *lib.Ent) { lib.Put(d, 1, 4, uint64(e.N(5))) },
	Decode: func(d []byte) (any, error) { return bds44.ReadMeteorologicalRoutineAirReport(d) },
	Extra: func(v any, d []byte, o *lib.Obs) error {
		want := "*bds44.MeteorologicalRoutineAirReportV1"
		if src := lib.U(d, 1, 4); src > 0 {
			want = "*bds44.MeteorologicalRoutineAirReportV2"
			if r, err := Get(v, "Source"); err != nil || uint64(r.Uint()) != src {
				return fmt.Errorf("BDS 4,4: source of %x: got %v", d, r)
			}
		}
		if got := fmt.Sprintf("%T", v); got != want {
			return fmt.Errorf("BDS 4,4: %x decoded as %s, want %s", d, got, want)
		}
		return nil
	},
	Coherent: coherent44,
	Cohere: func(d []byte, e *lib.Ent) {
		lib.Put(d, 1, 4, uint64(e.N(5)))
		cohere44(d, e)
	},
	Cells: [][2]int{{1, 4}},
}

// BDS45V0 is the oldest form of the meteorological hazard report.
var BDS45V0 = &Spec{
	Name: "BDS 4,5 V0", Len: 7,
	Fields: []F{
		bo("TurbulenceStatus", 1), bo("GetTurbulenceStatus()", 1), u("Turbulence", 2, 3), bo("WindShearStatus", 4), u("WindShear", 5, 6),
		bo("MicroBurstStatus", 7), u("MicroBurst", 8, 9), bo("IcingStatus", 10), u("Icing", 11, 12),
		bo("WakeVortexStatus", 13), u("WakeVortex", 14, 15),
		bo("StaticAirTemperatureStatus", 16), signed("StaticAirTemperature", 17, 18, 26, 0.25),
		bo("AverageStaticPressureStatus", 27), u("AverageStaticPressure", 28, 38),
		bo("RadioHeightStatus", 39), scaled("RadioHeight", 40, 51, 16, 0),
	},
	Valid:  func(d []byte) bool { return zero(d, 52, 56) },
	Fix:    func(d []byte, e *lib.Ent) { clear(d, 52, 56) },
	Decode: func(d []byte) (any, error) { return bds45.ReadMeteorologicalHazardReportV0(d) },
	Coherent: func(d []byte) bool {
		t := float64(lib.Sign(d, 17, 18, 26)) * 0.25
		any := false
		for _, b := range []int{1, 4, 7, 10, 13, 16, 27, 39} {
			any = any || lib.B(d, b)
		}
		return any && gated(d, 1, 2, 3) && gated(d, 4, 5, 6) && gated(d, 7, 8, 9) && gated(d, 10, 11, 12) && gated(d, 13, 14, 15) &&
			gated(d, 16, 17, 26) && gated(d, 27, 28, 38) && gated(d, 39, 40, 51) &&
			(!lib.B(d, 16) || t >= -80 && t <= 60)
	},
	Cohere: func(d []byte, e *lib.Ent) {
		clear(d, 52, 56)
		t := e.N(580) - 330
		if t < 0 {
			lib.Put(d, 17, 17, 1)
			lib.Put(d, 18, 26, uint64(t+512))
		} else {
			lib.Put(d, 17, 17, 0)
			lib.Put(d, 18, 26, uint64(t))
		}
		gate(d, e, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 26, 27, 28, 38, 39, 40, 51)
	},
	Cells: [][2]int{{52, 56}},
}

// edr is the eddy dissipation rate of 6 bits.
func edr(path string, a, z int) F {
	return num(path, a, z, func(d []byte) float64 { return math.Min(float64(lib.U(d, a, z))*0.02, 1.26) })
}

// BDS45V1 is the meteorological hazard report.
var BDS45V1 = &Spec{
	Name: "BDS 4,5 V1", Len: 7,
	Fields: []F{
		bo("WindShearStatus", 1), u("WindShear", 2, 3), bo("MicroBurstStatus", 4), u("MicroBurst", 5, 6),
		bo("IcingStatus", 7), u("Icing", 8, 9), bo("WakeVortexStatus", 10), u("WakeVortex", 11, 12),
		bo("StaticAirTemperatureStatus", 13), signed("StaticAirTemperature", 14, 15, 24, 0.125),
		bo("RadioHeightStatus", 25), scaled("RadioHeight", 26, 37, 2, 0),
		bo("TurbulenceStatus", 38), bo("GetTurbulenceStatus()", 38), edr("TurbulenceAverageEDR", 39, 44), edr("TurbulencePeakEDR", 45, 50),
		u("TurbulencePeakDelayInterval", 51, 54),
	},
	Valid:    func(d []byte) bool { return zero(d, 55, 56) },
	Fix:      func(d []byte, e *lib.Ent) { clear(d, 55, 56) },
	Decode:   func(d []byte) (any, error) { return bds45.ReadMeteorologicalHazardReportV1(d) },
	Coherent: func(d []byte) bool { return coherent45v1(d) && gated(d, 13, 14, 24) },
	Relaxed: func(d []byte) (bool, string) {
		return coherent45v1(d), "bds45-v1-temperature-status"
	},
	Cohere: func(d []byte, e *lib.Ent) {
		clear(d, 55, 56)
		t := e.N(1140) - 650
		lib.Put(d, 14, 14, 0)
		if t < 0 {
			lib.Put(d, 14, 14, 1)
		}
		lib.Put(d, 15, 24, uint64(t)&1023)
		gate(d, e, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 24, 25, 26, 37, 38, 39, 54)
	},
	Cells: [][2]int{{55, 56}, {39, 54}},
}

func coherent45v1(d []byte) bool {
	t := float64(lib.Sign(d, 14, 15, 24)) * 0.125
	any := false
	for _, b := range []int{1, 4, 7, 10, 13, 25, 38} {
		any = any || lib.B(d, b)
	}
	return any && gated(d, 1, 2, 3) && gated(d, 4, 5, 6) && gated(d, 7, 8, 9) && gated(d, 10, 11, 12) &&
		gated(d, 25, 26, 37) && gated(d, 38, 39, 54) && (!lib.B(d, 13) || t >= -80 && t <= 60)
}

// BDS45 is the generic reader: the form is chosen by the reserved bits.
var BDS45 = &Spec{
	Name: "BDS 4,5", Len: 7,
	Valid:  func(d []byte) bool { return zero(d, 55, 56) },
	Fix:    func(d []byte, e *lib.Ent) { clear(d, 55, 56) },
	Decode: func(d []byte) (any, error) { return bds45.ReadMeteorologicalHazardReport(d) },
	Extra: func(v any, d []byte, o *lib.Obs) error {
		if got := fmt.Sprintf("%T", v); got != "*bds45.MeteorologicalHazardReportV1" {
			return fmt.Errorf("BDS 4,5: %x decoded as %s", d, got)
		}
		return BDS45V1.Compare(v, d)
	},
	Coherent: BDS45V1.Coherent,
	Relaxed:  BDS45V1.Relaxed,
	Cohere:   BDS45V1.Cohere,
	Cells:    [][2]int{{55, 56}, {52, 56}, {1, 12}, {13, 24}, {25, 37}, {38, 44}, {45, 54}},
}

// BDS50 is the track and turn report.
var BDS50 = &Spec{
	Name: "BDS 5,0", Len: 7,
	Fields: []F{
		bo("RollAngleStatus", 1), signed("RollAngle", 2, 3, 11, 45.0/256),
		bo("TrueTrackAngleStatus", 12), signed("TrueTrackAngle", 13, 14, 23, 90.0/512),
		bo("GroundSpeedStatus", 24), scaled("GroundSpeed", 25, 34, 2, 0),
		bo("TrackAngleRateStatus", 35), signed("TrackAngleRate", 36, 37, 45, 8.0/256),
		bo("TrueAirSpeedStatus", 46), scaled("TrueAirSpeed", 47, 56, 2, 0),
	},
	Decode: func(d []byte) (any, error) { return bds50.ReadTrackAndTurnReport(d) },
	Coherent: func(d []byte) bool {
		gs, tas := float64(2*lib.U(d, 25, 34)), float64(2*lib.U(d, 47, 56))
		return (lib.B(d, 1) || lib.B(d, 12) || lib.B(d, 24) || lib.B(d, 35) || lib.B(d, 46)) &&
			gated(d, 1, 2, 11) && gated(d, 12, 13, 23) && gated(d, 24, 25, 34) && gated(d, 35, 36, 45) && gated(d, 46, 47, 56) &&
			within(float64(lib.Sign(d, 2, 3, 11))*45/256, 50) && gs <= 600 && tas <= 500 &&
			(!lib.B(d, 24) || !lib.B(d, 46) || math.Abs(gs-tas) <= 200)
	},
	Cohere: func(d []byte, e *lib.Ent) {
		r := e.N(600) - 300
		lib.Put(d, 2, 2, 0)
		if r < 0 {
			lib.Put(d, 2, 2, 1)
		}
		lib.Put(d, 3, 11, uint64(r)&511)
		gs := e.N(310)
		tas := gs + e.N(220) - 110
		if tas < 0 {
			tas = 0
		}
		if tas > 255 && !e.P(4) {
			tas = 250
		}
		lib.Put(d, 25, 34, uint64(gs))
		lib.Put(d, 47, 56, uint64(tas))
		if e.Bool() {
			lib.Put(d, 24, 24, 1)
			lib.Put(d, 46, 46, 1)
		}
		gate(d, e, 1, 2, 11, 12, 13, 23, 24, 25, 34, 35, 36, 45, 46, 47, 56)
	},
}

// BDS60 is the heading and speed report.
var BDS60 = &Spec{
	Name: "BDS 6,0", Len: 7,
	Fields: []F{
		bo("MagneticHeadingStatus", 1), signed("MagneticHeading", 2, 3, 12, 90.0/512),
		bo("IndicatedAirSpeedStatus", 13), u("IndicatedAirSpeed", 14, 23),
		bo("MachStatus", 24), scaled("Mach", 25, 34, 2.048/512, 0),
		bo("BarometricAltitudeRateStatus", 35), signed("BarometricAltitudeRate", 36, 37, 45, 32),
		bo("InitialVerticalVelocityStatus", 46), signed("InitialVerticalVelocity", 47, 48, 56, 32),
	},
	Decode: func(d []byte) (any, error) { return bds60.ReadHeadingAndSpeedReport(d) },
	Coherent: func(d []byte) bool {
		return (lib.B(d, 1) || lib.B(d, 13) || lib.B(d, 24) || lib.B(d, 35) || lib.B(d, 46)) &&
			gated(d, 1, 2, 12) && gated(d, 13, 14, 23) && gated(d, 24, 25, 34) && gated(d, 35, 36, 45) && gated(d, 46, 47, 56) &&
			lib.U(d, 14, 23) <= 500 && lib.U(d, 25, 34) <= 250 &&
			within(float64(lib.Sign(d, 36, 37, 45))*32, 6000) && within(float64(lib.Sign(d, 47, 48, 56))*32, 6000)
	},
	Cohere: func(d []byte, e *lib.Ent) {
		lib.Put(d, 14, 23, uint64(e.N(510)))
		lib.Put(d, 25, 34, uint64(e.N(254)))
		for _, b := range []int{36, 47} {
			r := e.N(384) - 192
			lib.Put(d, b, b, 0)
			if r < 0 {
				lib.Put(d, b, b, 1)
			}
			lib.Put(d, b+1, b+9, uint64(r)&511)
		}
		gate(d, e, 1, 2, 12, 13, 14, 23, 24, 25, 34, 35, 36, 45, 46, 47, 56)
	},
}
