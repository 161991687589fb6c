package props

import (
	"fmt"
	"math"

	"github.com/twuillemin/modes/pkg/adsb"
	"github.com/twuillemin/modes/pkg/adsb/airborne_position"
	"github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/adsb/surface_position"
	"github.com/twuillemin/modes/pkg/geo"
	"verif/harness/lib"
	"verif/harness/spec"
)

const exact = 1e-9 // degrees: the same formula in another order

// genLatitude is a latitude, often near something special.
func genLatitude(e *lib.Ent, cpr spec.CPR) float64 {
	near := func(x float64) float64 {
		switch e.N(4) {
		case 0:
			return x
		case 1:
			return x + e.F(-1e-5, 1e-5)
		case 2:
			return x + e.F(-1e-3, 1e-3)
		}
		return x + e.F(-0.1, 0.1)
	}
	var lat float64
	switch e.N(8) {
	case 0:
		t := spec.Transitions()
		lat = near(t[e.N(len(t))])
		if e.Bool() {
			lat = -lat
		}
	case 1:
		lat = near([]float64{0, 90, -90, 87, -87, 45, -45}[e.N(7)])
	case 2: // the border of a zone
		odd := e.Bool()
		d := cpr.DLat(odd)
		lat = near(d * float64(e.N(int(180/d)+1)-int(90/d)))
	case 3:
		lat = near(float64(e.N(181) - 90))
		if v, ok := e.LiteralF(-90, 90); ok && e.Bool() {
			lat = v
		}
	case 4: // uniform on the sphere
		lat = math.Asin(e.F(-1, 1)) * 180 / math.Pi
	default:
		lat = e.F(-90, 90)
	}
	return math.Max(-90, math.Min(90, lat))
}

// anotherTurn is the same longitude written with 360 degrees more or less.
func anotherTurn(e *lib.Ent, lon float64) float64 {
	if e.Bool() {
		return lon + 360
	}
	return lon - 360
}

// genLongitude is a longitude at a latitude.
func genLongitude(e *lib.Ent, cpr spec.CPR, lat float64) float64 {
	var lon float64
	switch e.N(6) {
	case 0:
		lon = []float64{0, 180, -180, 90, -90}[e.N(5)] + []float64{0, e.F(-1e-5, 1e-5), e.F(-1e-3, 1e-3), e.F(-0.1, 0.1)}[e.N(4)]
	case 1:
		nl, _ := spec.NL(lat)
		d := cpr.DLon(nl, e.Bool())
		lon = d*float64(e.N(int(360/d)+1)) + []float64{0, e.F(-1e-5, 1e-5), e.F(-1e-3, 1e-3)}[e.N(3)]
	default:
		lon = e.F(-180, 180)
		if e.P(10) {
			if v, ok := e.LiteralF(-180, 180); ok {
				lon = v
			}
		}
	}
	return spec.Turn(lon, 0)
}

// genFlight makes two positions close enough for a pair to be decoded: f = latitude and longitude of the even
// and of the odd position.
func genFlight(e *lib.Ent, cpr spec.CPR) []float64 {
	lat := genLatitude(e, cpr)
	lon := genLongitude(e, cpr, lat)
	lat1, lon1 := lat, lon
	scale := []float64{0, 0.01, 0.3, 0.97}[e.N(4)]
	if scale > 0 {
		// The half zone differences that a pair can tell apart.
		maxLat := 0.5 * cpr.Circle / 60 / 59
		lat1 = math.Max(-90, math.Min(90, lat+scale*e.F(-maxLat, maxLat)))
		nl, _ := spec.NL(math.Min(math.Abs(lat), math.Abs(lat1)))
		maxLon := 0.5 * cpr.Circle / float64(nl) / math.Max(float64(nl-1), 1)
		if nl < 2 {
			maxLon = cpr.Circle / 2
		}
		lon1 = spec.Turn(lon+scale*e.F(-maxLon, maxLon), 0)
	}
	return []float64{lat, lon, lat1, lon1}
}

// movable says whether the two positions are in the domain of the pair decoding.
func movable(cpr spec.CPR, a, b spec.Encoded) bool {
	if math.Abs(a.Lat-b.Lat) > 0.49*cpr.Circle/60/59 {
		return false
	}
	if a.NL < 2 {
		return true
	}
	return math.Abs(spec.Turn(a.Lon, b.Lon)) <= 0.49*cpr.Circle/float64(a.NL)/float64(a.NL-1)
}

// through sends the values through a squitter of the kind and reads them back.
func through(cpr spec.CPR, y, x uint32, odd bool, how int64) (uint32, uint32, error) {
	if how == 0 {
		return y, x, nil
	}
	d := make([]byte, 7)
	tc := 5 + uint64(how>>2)%4
	if cpr.Circle == 360 {
		tc = uint64([]int{9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 21, 22}[uint64(how>>2)%13])
	}
	for i := range d {
		d[i] = byte(how>>uint(8+i) + int64(i)*37)
	}
	lib.Put(d, 1, 5, tc)
	if cpr.Circle == 360 {
		lib.Put(d, 9, 20, 0xC38) // 38000 ft
	}
	b := uint64(0)
	if odd {
		b = 1
	}
	lib.Put(d, 22, 22, b)
	lib.Put(d, 23, 39, uint64(y))
	lib.Put(d, 40, 56, uint64(x))
	v, err := reader.ReadADSBMessage(adsb.ADSBVersion(how%3), how&8 != 0, how&16 != 0, d)
	if err != nil {
		return 0, 0, fmt.Errorf("position squitter %x: %v", d, err)
	}
	switch m := v.(type) {
	case *airborne_position.AirbornePositionV0:
		y, x = uint32(m.EncodedLatitude), uint32(m.EncodedLongitude)
	case *airborne_position.AirbornePositionV1:
		y, x = uint32(m.EncodedLatitude), uint32(m.EncodedLongitude)
	case *airborne_position.AirbornePositionV2:
		y, x = uint32(m.EncodedLatitude), uint32(m.EncodedLongitude)
	case *surface_position.SurfacePositionV0:
		y, x = uint32(m.EncodedLatitude), uint32(m.EncodedLongitude)
	case *surface_position.SurfacePositionV1:
		y, x = uint32(m.EncodedLatitude), uint32(m.EncodedLongitude)
	case *surface_position.SurfacePositionV2:
		y, x = uint32(m.EncodedLatitude), uint32(m.EncodedLongitude)
	default:
		return 0, 0, fmt.Errorf("position squitter %x decoded as %T", d, v)
	}
	return y, x, nil
}

// checkPosition compares a decoded position with the one which was encoded.
func checkPosition(what string, cpr spec.CPR, lat, lon float64, want spec.Encoded, trueLat, trueLon float64, odd bool) error {
	if !(math.Abs(lat-want.Lat) <= exact && math.Abs(spec.Turn(lon, want.Lon)) <= exact) {
		return fmt.Errorf("%s: got %v %v, want %v %v", what, lat, lon, want.Lat, want.Lon)
	}
	// The resolution: half a step.
	if math.Abs(lat-trueLat) > cpr.DLat(odd)/grid17/2+exact || math.Abs(spec.Turn(lon, trueLon)) > cpr.DLon(want.NL, odd)/grid17/2+exact {
		return fmt.Errorf("%s: got %v %v, away from %v %v by more than the resolution", what, lat, lon, trueLat, trueLon)
	}
	return nil
}

const grid17 = 131072

func place(o *lib.Obs, lat, lon float64) {
	switch {
	case math.Abs(lat) > 86.9:
		o.Class("pole")
	case math.Abs(lat) < 0.2:
		o.Class("equator")
	case lat > 0:
		o.Class("north")
	default:
		o.Class("south")
	}
	if math.Abs(lon) > 179 {
		o.Class("antimeridian")
	}
	for _, t := range spec.Transitions() {
		if math.Abs(math.Abs(lat)-t) < 0.01 {
			o.Class("change of the number of zones")
		}
	}
}

func pairCase(e *lib.Ent, cpr spec.CPR) *lib.Case {
	c := &lib.Case{F: genFlight(e, cpr), N: []int64{int64(e.N(2)), 0}}
	if e.P(4) {
		c.N[1] = int64(e.U64()>>1 | 1)
	}
	return c
}

// reference makes a reference close to a position: within 45 NM and less than 45 degrees of longitude.
func reference(e *lib.Ent, lat, lon float64) (float64, float64) {
	if e.P(5) {
		return lat, lon
	}
	r := e.F(0, 0.7499)
	if e.P(3) {
		r = 0.7499
	}
	a := e.F(0, 2*math.Pi)
	rlat := math.Max(-90, math.Min(90, lat+r*math.Sin(a)))
	dlon := r * math.Cos(a) / math.Max(math.Cos(math.Max(math.Abs(lat), math.Abs(rlat))*math.Pi/180), 1e-9)
	dlon = math.Max(-44, math.Min(44, dlon))
	rlon := spec.Turn(lon+dlon, 0)
	return rlat, rlon
}

func gridValue(e *lib.Ent) int64 { return int64(e.Value(17)) }

func init() {
	add("C21", "a pair that must be decoded (its two latitudes have the same number of zones)",
		[]string{"the number of longitude zones of a latitude within 1e-6 degree of a published transition is not judged",
			"a short flight is one in which neither coordinate changes by more than 0.98 of what the encoding can tell apart (3 NM in latitude)"},
		func(r *lib.Runner) {
			cpr := spec.Airborne
			r.Add(&lib.Sub{Name: "encoded positions",
				Gen: lib.Random(func(e *lib.Ent) *lib.Case { return pairCase(e, cpr) }),
				Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
					// Every zone, both sides of every transition and of the poles.
					lats := append([]float64{0, 90, 89.999, 88}, spec.Transitions()...)
					for k := 0; k <= 15*4; k++ {
						lats = append(lats, float64(k)*1.5, float64(k)*360/59/4)
					}
					for _, l := range lats {
						for _, d := range []float64{0, 2e-5, -2e-5, 2e-4, -2e-4, 0.01, -0.01} {
							for s := -1.0; s <= 1; s += 2 {
								lat := s * (l + d)
								if math.Abs(lat) > 90 {
									continue
								}
								for k := 0; k < 12; k++ {
									lon := []float64{0, 180, -180, 179.9999, -179.9999, e.F(-180, 180)}[k%6]
									yield(&lib.Case{F: []float64{lat, lon, lat, lon}, N: []int64{int64(k / 6), 0}})
								}
							}
						}
					}
				},
				Check: func(c *lib.Case, o *lib.Obs) error {
					a, b := cpr.Encode(c.F[0], c.F[1], false), cpr.Encode(c.F[2], c.F[3], true)
					place(o, c.F[0], c.F[1])
					if a.Near || b.Near {
						o.Class("too close to a transition")
						return nil
					}
					y0, x0, err := through(cpr, a.YZ, a.XZ, false, c.N[1])
					if err != nil {
						return err
					}
					y1, x1, err := through(cpr, b.YZ, b.XZ, true, c.N[1])
					if err != nil {
						return err
					}
					evenLast := c.N[0] == 1
					lat, lon, err := geo.GetCPRAirborneGlobalPosition(y0, x0, y1, x1, evenLast)
					what := fmt.Sprintf("even %d %d, odd %d %d, even last %v", y0, x0, y1, x1, evenLast)
					if math.Abs(a.Lat-b.Lat) > 0.49*cpr.Circle/60/59 {
						o.Class("too far")
						return nil
					}
					if a.NL != b.NL {
						o.Class("different zones")
						if err == nil {
							return fmt.Errorf("%s: latitudes %v and %v of %d and %d zones are decoded", what, a.Lat, b.Lat, a.NL, b.NL)
						}
						return nil
					}
					if !movable(cpr, a, b) {
						o.Class("too far")
						return nil
					}
					o.NonTrivial()
					if err != nil {
						return fmt.Errorf("%s: positions %v are rejected: %v", what, c.F, err)
					}
					if !(math.Abs(lat) <= 90 && math.Abs(lon) <= 180) {
						return fmt.Errorf("%s: position %v %v", what, lat, lon)
					}
					if evenLast {
						return checkPosition(what, cpr, lat, lon, a, c.F[0], c.F[1], false)
					}
					return checkPosition(what, cpr, lat, lon, b, c.F[2], c.F[3], true)
				}, Quick: 3000000, Thorough: 90000000})
			r.Add(&lib.Sub{Name: "arbitrary pairs",
				Gen: lib.Random(func(e *lib.Ent) *lib.Case {
					return &lib.Case{N: []int64{gridValue(e), gridValue(e), gridValue(e), gridValue(e), int64(e.N(2))}}
				}),
				Check: func(c *lib.Case, o *lib.Obs) error {
					y0, x0, y1, x1 := uint32(c.N[0])%grid17, uint32(c.N[1])%grid17, uint32(c.N[2])%grid17, uint32(c.N[3])%grid17
					p := cpr.Solve(y0, x0, y1, x1)
					evenLast := c.N[4] == 1
					lat, lon, err := geo.GetCPRAirborneGlobalPosition(y0, x0, y1, x1, evenLast)
					what := fmt.Sprintf("even %d %d, odd %d %d, even last %v", y0, x0, y1, x1, evenLast)
					for i := range p.Lat {
						if p.Lat[i] >= 270-exact {
							p.Lat[i] -= 360
						}
						if math.Abs(p.Lat[i]-90) < exact || math.Abs(p.Lat[i]+90) < exact {
							o.Class("on a pole")
							p.Lat[i] = math.Copysign(90, p.Lat[i])
						}
						if p.Lat[i] > 90 {
							o.Class("no latitude")
							if err == nil {
								return fmt.Errorf("%s: no latitude corresponds, and it is decoded as %v %v", what, lat, lon)
							}
							return nil
						}
					}
					n0, near0 := spec.NL(p.Lat[0])
					n1, near1 := spec.NL(p.Lat[1])
					if near0 || near1 {
						o.Class("too close to a transition")
						return nil
					}
					if n0 != n1 {
						o.Class("different zones")
						if err == nil {
							return fmt.Errorf("%s: latitudes %v of %d and %d zones are decoded", what, p.Lat, n0, n1)
						}
						return nil
					}
					o.NonTrivial()
					o.Class("decoded")
					if err != nil {
						return fmt.Errorf("%s: rejected: %v", what, err)
					}
					i := 1
					if evenLast {
						i = 0
					}
					wlat, wlon := p.Lat[i], p.Lon(n0, i)
					if !(math.Abs(lat-wlat) <= exact && math.Abs(spec.Turn(lon, wlon)) <= exact && math.Abs(lat) <= 90 && math.Abs(lon) <= 180) {
						return fmt.Errorf("%s: got %v %v, want %v %v", what, lat, lon, wlat, spec.Turn(wlon, 0))
					}
					return nil
				}, Free: true, FreeN: []int{17, 17, 17, 17, 1}, Quick: 3000000, Thorough: 90000000})
		})

	local := func(cpr spec.CPR) func(y, x uint32, lat, lon float64, odd bool) (float64, float64) {
		if cpr.Circle == 360 {
			return geo.GetCPRAirborneLocalPosition
		}
		return geo.GetCPRSurfaceLocalPosition
	}
	add("C22", "a position and a reference less than half a zone apart",
		[]string{"longitudes are compared modulo 360 degrees", "the number of longitude zones of a latitude within 1e-6 degree of a published transition is not judged",
			"half a zone is taken as 0.499 of a zone"},
		func(r *lib.Runner) {
			for _, cpr := range []spec.CPR{spec.Airborne, spec.Surface} {
				cpr := cpr
				name := "airborne"
				if cpr.Circle == 90 {
					name = "surface"
				}
				r.Add(&lib.Sub{Name: name + " positions",
					Gen: lib.Random(func(e *lib.Ent) *lib.Case {
						lat := genLatitude(e, cpr)
						lon := genLongitude(e, cpr, lat)
						odd := e.Bool()
						enc := cpr.Encode(lat, lon, odd)
						s := []float64{0, 0.1, 0.499, 0.499}[e.N(4)]
						off := func() float64 {
							if e.P(3) {
								return s * float64(1-2*e.N(2))
							}
							return e.F(-s, s)
						}
						rlat := math.Max(-90, math.Min(90, enc.Lat+off()*cpr.DLat(odd)))
						rlon := enc.Lon + off()*cpr.DLon(enc.NL, odd)
						if e.P(4) {
							rlon = spec.Turn(rlon, 0)
						}
						if e.P(8) {
							rlat = math.Round(rlat)
						}
						if e.P(8) {
							rlon = anotherTurn(e, rlon)
						}
						c := &lib.Case{F: []float64{lat, lon, rlat, rlon}, N: []int64{0, 0}}
						if odd {
							c.N[0] = 1
						}
						if e.P(4) {
							c.N[1] = int64(e.U64()>>1 | 1)
						}
						return c
					}),
					Check: func(c *lib.Case, o *lib.Obs) error {
						odd := c.N[0] == 1
						a := cpr.Encode(c.F[0], c.F[1], odd)
						place(o, c.F[0], c.F[1])
						if a.Near {
							o.Class("too close to a transition")
							return nil
						}
						if math.Abs(a.Lat-c.F[2]) > 0.4995*cpr.DLat(odd) || math.Abs(spec.Turn(a.Lon, c.F[3])) > 0.4995*cpr.DLon(a.NL, odd) {
							o.Class("too far")
							return nil
						}
						if c.F[0]*c.F[2] < 0 {
							o.Class("over the equator")
						}
						if math.Abs(spec.Turn(c.F[1], 0)-spec.Turn(c.F[3], 0)) > 180 {
							o.Class("over the antimeridian")
						}
						o.NonTrivial()
						y, x, err := through(cpr, a.YZ, a.XZ, odd, c.N[1])
						if err != nil {
							return err
						}
						lat, lon := local(cpr)(y, x, c.F[2], c.F[3], odd)
						return checkPosition(fmt.Sprintf("%s %d %d odd %v, reference %v %v", name, y, x, odd, c.F[2], c.F[3]), cpr, lat, lon, a, c.F[0], c.F[1], odd)
					}, Quick: 2500000, Thorough: 75000000})
				r.Add(&lib.Sub{Name: name + " arbitrary values",
					Gen: lib.Random(func(e *lib.Ent) *lib.Case {
						lat := genLatitude(e, cpr)
						lon := genLongitude(e, cpr, lat)
						if e.P(8) {
							lon = anotherTurn(e, lon)
						}
						return &lib.Case{N: []int64{gridValue(e), gridValue(e), int64(e.N(2))}, F: []float64{lat, lon}}
					}),
					Check: func(c *lib.Case, o *lib.Obs) error {
						y, x, odd := uint32(c.N[0])%grid17, uint32(c.N[1])%grid17, c.N[2] == 1
						lat, lon := local(cpr)(y, x, c.F[0], c.F[1], odd)
						what := fmt.Sprintf("%s %d %d odd %v, reference %v: got %v %v", name, y, x, odd, c.F, lat, lon)
						if !(math.Abs(lat-c.F[0]) <= cpr.DLat(odd)/2+exact) {
							return fmt.Errorf("%s, more than half a zone away in latitude", what)
						}
						nl, near := spec.NL(lat)
						if near {
							o.Class("too close to a transition")
							return nil
						}
						o.NonTrivial()
						if !(math.Abs(spec.Turn(lon, c.F[1])) <= cpr.DLon(nl, odd)/2+exact) {
							return fmt.Errorf("%s, more than half a zone away in longitude", what)
						}
						if b := cpr.Encode(lat, lon, odd); b.YZ != y || b.XZ != x {
							return fmt.Errorf("%s, which is encoded as %d %d", what, b.YZ, b.XZ)
						}
						return nil
					}, Free: true, FreeN: []int{17, 17, 1}, Quick: 1000000, Thorough: 30000000})
			}
		})

	add("C23", "a pair that must be decoded (its two latitudes have the same number of zones)",
		[]string{"the number of longitude zones of a latitude within 1e-6 degree of a published transition is not judged",
			"the reference is within 45 NM and less than 45 degrees of longitude away; a small movement is one in which neither coordinate changes by more than 0.98 of what the encoding can tell apart (0.76 NM in latitude)"},
		func(r *lib.Runner) {
			cpr := spec.Surface
			run := func(y0, x0, y1, x1 uint32, evenLast bool, rlat, rlon float64) (float64, float64, error) {
				return geo.GetCPRSurfaceGlobalPosition(y0, x0, y1, x1, evenLast, rlat, rlon)
			}
			r.Add(&lib.Sub{Name: "encoded positions",
				Gen: lib.Random(func(e *lib.Ent) *lib.Case {
					c := pairCase(e, cpr)
					k := 0
					if e.Bool() {
						k = 2
					}
					rlat, rlon := reference(e, c.F[k], c.F[k+1])
					if e.P(8) {
						rlon = anotherTurn(e, rlon)
					}
					c.F = append(c.F, rlat, rlon)
					return c
				}),
				Check: func(c *lib.Case, o *lib.Obs) error {
					a, b := cpr.Encode(c.F[0], c.F[1], false), cpr.Encode(c.F[2], c.F[3], true)
					place(o, c.F[0], c.F[1])
					if a.Near || b.Near {
						o.Class("too close to a transition")
						return nil
					}
					if math.Abs(a.Lat-b.Lat) > 0.49*cpr.Circle/60/59 {
						o.Class("too far")
						return nil
					}
					for _, p := range []spec.Encoded{a, b} {
						if math.Abs(p.Lat-c.F[4]) > 0.8 || math.Abs(spec.Turn(p.Lon, c.F[5])) > 44.9 {
							o.Class("too far")
							return nil
						}
					}
					y0, x0, err := through(cpr, a.YZ, a.XZ, false, c.N[1])
					if err != nil {
						return err
					}
					y1, x1, err := through(cpr, b.YZ, b.XZ, true, c.N[1])
					if err != nil {
						return err
					}
					evenLast := c.N[0] == 1
					lat, lon, err := run(y0, x0, y1, x1, evenLast, c.F[4], c.F[5])
					what := fmt.Sprintf("even %d %d, odd %d %d, even last %v, reference %v %v", y0, x0, y1, x1, evenLast, c.F[4], c.F[5])
					if a.NL != b.NL {
						o.Class("different zones")
						if err == nil {
							return fmt.Errorf("%s: latitudes %v and %v of %d and %d zones are decoded", what, a.Lat, b.Lat, a.NL, b.NL)
						}
						return nil
					}
					if !movable(cpr, a, b) {
						o.Class("too far")
						return nil
					}
					o.NonTrivial()
					if c.F[0]*c.F[4] < 0 {
						o.Class("over the equator")
					}
					if math.Abs(spec.Turn(c.F[1], 0)-spec.Turn(c.F[5], 0)) > 180 {
						o.Class("over the antimeridian")
					}
					if err != nil {
						return fmt.Errorf("%s: positions %v are rejected: %v", what, c.F, err)
					}
					if !(math.Abs(lat) <= 90 && math.Abs(lon) <= 180) {
						return fmt.Errorf("%s: position %v %v", what, lat, lon)
					}
					if evenLast {
						return checkPosition(what, cpr, lat, lon, a, c.F[0], c.F[1], false)
					}
					return checkPosition(what, cpr, lat, lon, b, c.F[2], c.F[3], true)
				}, Quick: 3000000, Thorough: 90000000})
			r.Add(&lib.Sub{Name: "arbitrary pairs",
				Gen: lib.Random(func(e *lib.Ent) *lib.Case {
					lat := genLatitude(e, cpr)
					lon := genLongitude(e, cpr, lat)
					if e.P(8) {
						lon = anotherTurn(e, lon)
					}
					return &lib.Case{N: []int64{gridValue(e), gridValue(e), gridValue(e), gridValue(e), int64(e.N(2))}, F: []float64{lat, lon}}
				}),
				Check: func(c *lib.Case, o *lib.Obs) error {
					y0, x0, y1, x1 := uint32(c.N[0])%grid17, uint32(c.N[1])%grid17, uint32(c.N[2])%grid17, uint32(c.N[3])%grid17
					rlat, rlon := c.F[0], c.F[1]
					evenLast := c.N[4] == 1
					lat, lon, err := run(y0, x0, y1, x1, evenLast, rlat, rlon)
					what := fmt.Sprintf("even %d %d, odd %d %d, even last %v, reference %v %v", y0, x0, y1, x1, evenLast, rlat, rlon)
					p := cpr.Solve(y0, x0, y1, x1)
					var n [2]int
					for i := range p.Lat {
						best, second := math.Inf(1), math.Inf(1)
						l := p.Lat[i]
						for k := -2.0; k <= 1; k++ {
							if x := l + 90*k; math.Abs(x) <= 90 {
								if d := math.Abs(x - rlat); d < best {
									best, second = d, best
									p.Lat[i] = x
								} else if d < second {
									second = d
								}
							}
						}
						if second-best < 0.5 {
							o.Class("between two hemispheres")
							return nil
						}
						var near bool
						if n[i], near = spec.NL(p.Lat[i]); near {
							o.Class("too close to a transition")
							return nil
						}
					}
					if math.Abs(p.Lat[0]-p.Lat[1]) > 1 {
						o.Class("on two sides of a pole")
						return nil
					}
					if n[0] != n[1] {
						o.Class("different zones")
						if err == nil {
							return fmt.Errorf("%s: latitudes %v of %d and %d zones are decoded", what, p.Lat, n[0], n[1])
						}
						return nil
					}
					i := 1
					if evenLast {
						i = 0
					}
					wlat, wlon := p.Lat[i], p.Lon(n[0], i)
					best, second := math.Inf(1), math.Inf(1)
					l := wlon
					for k := 0.0; k < 4; k++ {
						if d := math.Abs(spec.Turn(l+90*k, rlon)); d < best {
							best, second = d, best
							wlon = l + 90*k
						} else if d < second {
							second = d
						}
					}
					if second-best < 1e-6 {
						o.Class("between two quadrants")
						return nil
					}
					o.NonTrivial()
					o.Class("decoded")
					if err != nil {
						return fmt.Errorf("%s: rejected: %v", what, err)
					}
					if !(math.Abs(lat-wlat) <= exact && math.Abs(spec.Turn(lon, wlon)) <= exact) {
						return fmt.Errorf("%s: got %v %v, want %v %v", what, lat, lon, wlat, spec.Turn(wlon, 0))
					}
					return nil
				}, Free: true, FreeN: []int{17, 17, 17, 17, 1}, Quick: 2000000, Thorough: 60000000})
		})

	add("C24", "two different points", []string{"distances are compared within a millimetre plus 1e-9 of the distance, and within 5 m next to the antipode where the haversine form loses its digits"},
		func(r *lib.Runner) {
			const radius = 6371000.0
			vec := func(lat, lon float64) [3]float64 {
				la, lo := lat*math.Pi/180, lon*math.Pi/180
				return [3]float64{math.Cos(la) * math.Cos(lo), math.Cos(la) * math.Sin(lo), math.Sin(la)}
			}
			want := func(lat1, lon1, lat2, lon2 float64) float64 {
				a, b := vec(lat1, lon1), vec(lat2, lon2)
				x := [3]float64{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
				cross := math.Sqrt(x[0]*x[0] + x[1]*x[1] + x[2]*x[2])
				dot := a[0]*b[0] + a[1]*b[1] + a[2]*b[2]
				return radius * math.Atan2(cross, dot)
			}
			half := math.Pi * radius
			tol := func(d float64) float64 {
				t := 0.001 + 1e-9*d
				if d > 0.9999*half { // the haversine is close to one
					t = 5
				}
				return t
			}
			genPoint := func(e *lib.Ent) (float64, float64) {
				lat := genLatitude(e, spec.Airborne)
				return lat, genLongitude(e, spec.Airborne, lat)
			}
			r.Add(&lib.Sub{Name: "triples",
				Gen: lib.Random(func(e *lib.Ent) *lib.Case {
					lat, lon := genPoint(e)
					f := []float64{lat, lon}
					for k := 0; k < 2; k++ {
						a, b := genPoint(e)
						switch e.N(6) {
						case 0:
							a, b = lat, lon
						case 1: // close
							s := []float64{1e-6, 1e-4, 1e-2}[e.N(3)]
							a, b = lat+e.F(-s, s), lon+e.F(-s, s)
						case 2: // antipodal
							a, b = -lat, lon+180
							if e.Bool() {
								s := []float64{1e-6, 1e-3, 0.1}[e.N(3)]
								a, b = a+e.F(-s, s), b+e.F(-s, s)
							}
						case 3: // the same meridian or parallel
							if e.Bool() {
								a = lat
							} else {
								b = lon
							}
						}
						f = append(f, math.Max(-90, math.Min(90, a)), spec.Turn(b, 0))
					}
					return &lib.Case{F: f, N: []int64{int64(e.N(5) - 2)}}
				}),
				Check: func(c *lib.Case, o *lib.Obs) error {
					f := c.F
					d := geo.ComputeGroundDistance(f[0], f[1], f[2], f[3])
					w := want(f[0], f[1], f[2], f[3])
					what := fmt.Sprintf("from %v %v to %v %v: distance %v", f[0], f[1], f[2], f[3], d)
					if w > 0 {
						o.NonTrivial()
					}
					o.Class(fmt.Sprintf("10^%.0f m", math.Floor(math.Log10(w+1))))
					if w > 0.9999*half {
						o.Class("antipodal")
					}
					if !(math.Abs(d-w) <= tol(w)) {
						return fmt.Errorf("%s, want %v", what, w)
					}
					if !(d >= 0 && d <= half+0.001) {
						return fmt.Errorf("%s, beyond half the circumference", what)
					}
					if back := geo.ComputeGroundDistance(f[2], f[3], f[0], f[1]); !(math.Abs(back-d) <= tol(w)/5) {
						return fmt.Errorf("%s, and back %v", what, back)
					}
					if z := geo.ComputeGroundDistance(f[0], f[1], f[0], f[1]); z != 0 {
						return fmt.Errorf("from %v %v to itself: %v", f[0], f[1], z)
					}
					turns := 360 * float64(c.N[0])
					if x := geo.ComputeGroundDistance(f[0], f[1]+turns, f[2], f[3]); !(math.Abs(x-d) <= tol(w)) {
						return fmt.Errorf("%s, and %v after %v degrees", what, x, turns)
					}
					if x := geo.ComputeGroundDistance(f[0], f[1], f[2], f[3]-turns); !(math.Abs(x-d) <= tol(w)) {
						return fmt.Errorf("%s, and %v after %v degrees", what, x, turns)
					}
					d12, d23 := geo.ComputeGroundDistance(f[2], f[3], f[4], f[5]), geo.ComputeGroundDistance(f[0], f[1], f[4], f[5])
					if !(d23 <= d+d12+tol(w)+tol(d12)+tol(d23)) {
						return fmt.Errorf("%s, then %v more, but %v directly", what, d12, d23)
					}
					return nil
				}, Quick: 5000000, Thorough: 150000000})
		})
}
