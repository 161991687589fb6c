package spec

import "math"

// The latitudes where the number of longitude zones changes, from 59 zones to 1 (DO-260B, appendix A).
var nlTransitions = [58]float64{
	10.47047130, 14.82817437, 18.18626357, 21.02939493, 23.54504487, 25.82924707, 27.93898710, 29.91135686,
	31.77209708, 33.53993436, 35.22899598, 36.85025108, 38.41241892, 39.92256684, 41.38651832, 42.80914012,
	44.19454951, 45.54626723, 46.86733252, 48.16039128, 49.42776439, 50.67150166, 51.89342469, 53.09516153,
	54.27817472, 55.44378444, 56.59318756, 57.72747354, 58.84763776, 59.95459277, 61.04917774, 62.13216659,
	63.20427479, 64.26616523, 65.31845310, 66.36171008, 67.39646774, 68.42322022, 69.44242631, 70.45451075,
	71.45986473, 72.45884545, 73.45177442, 74.43893416, 75.42056257, 76.39684391, 77.36789461, 78.33374083,
	79.29428225, 80.24923213, 81.19801349, 82.13956981, 83.07199445, 83.99173563, 84.89166191, 85.75541621,
	86.53536998, 87.00000000,
}

// Transitions are these latitudes.
func Transitions() []float64 { return nlTransitions[:] }

// NL is the number of longitude zones at a latitude; near says that the latitude is so close to a change that
// the rounding of a computation may decide.
func NL(lat float64) (n int, near bool) {
	lat = math.Abs(lat)
	n = 59
	for _, t := range nlTransitions {
		if math.Abs(lat-t) < 1e-6 {
			near = true
		}
		if lat >= t {
			n--
		}
	}
	return
}

const grid = 131072

// CPR is the compact position encoding: Circle is 360 for airborne and 90 for surface positions.
type CPR struct{ Circle float64 }

// Airborne and Surface are the two encodings.
var (
	Airborne = CPR{360}
	Surface  = CPR{90}
)

// DLat is the height of a latitude zone.
func (c CPR) DLat(odd bool) float64 {
	if odd {
		return c.Circle / 59
	}
	return c.Circle / 60
}

// DLon is the width of a longitude zone where there are nl of them.
func (c CPR) DLon(nl int, odd bool) float64 {
	if odd {
		nl--
	}
	if nl < 1 {
		nl = 1
	}
	return c.Circle / float64(nl)
}

func fmod(x, y float64) float64 { return x - y*math.Floor(x/y) }

// Encoded is an encoded position: the values, the position they stand for and whether rounding may decide
// its number of zones.
type Encoded struct {
	YZ, XZ   uint32
	Lat, Lon float64
	NL       int
	Near     bool
}

// Encode encodes a position.
func (c CPR) Encode(lat, lon float64, odd bool) Encoded {
	var r Encoded
	dlat := c.DLat(odd)
	zone := math.Floor(lat / dlat)
	yz := math.Floor(grid*(lat/dlat-zone) + 0.5)
	r.Lat = dlat * (zone + yz/grid)
	r.YZ = uint32(yz) % grid
	r.NL, r.Near = NL(r.Lat)
	dlon := c.DLon(r.NL, odd)
	zone = math.Floor(lon / dlon)
	xz := math.Floor(grid*(lon/dlon-zone) + 0.5)
	r.Lon = dlon * (zone + xz/grid)
	r.XZ = uint32(xz) % grid
	return r
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func imod(a, b int64) int64 { return a - b*floorDiv(a, b) }

// A Pair is what an even and an odd value stand for, in whole numbers of zones.
type Pair struct {
	Lat [2]float64 // from 0 up to the circle
	y   [2]uint32
	x   [2]uint32
	c   CPR
}

// Solve computes the latitudes of a pair.
func (c CPR) Solve(y0, x0, y1, x1 uint32) Pair {
	p := Pair{y: [2]uint32{y0, y1}, x: [2]uint32{x0, x1}, c: c}
	j := floorDiv(59*int64(y0)-60*int64(y1)+grid/2, grid)
	for i := range p.Lat {
		n := int64(60 - i)
		p.Lat[i] = c.Circle / float64(n) * (float64(imod(j, n)) + float64(p.y[i])/grid)
	}
	return p
}

// Lon is the longitude (from 0 up to the circle) of the even (0) or odd (1) position with nl zones.
func (p Pair) Lon(nl, i int) float64 {
	m := floorDiv(int64(p.x[0])*int64(nl-1)-int64(p.x[1])*int64(nl)+grid/2, grid)
	n := int64(nl - i)
	if n < 1 {
		n = 1
	}
	return p.c.Circle / float64(n) * (float64(imod(m, n)) + float64(p.x[i])/grid)
}

// Turn is the difference of two longitudes brought in [-180,180).
func Turn(a, b float64) float64 { return fmod(a-b+180, 360) - 180 }
