package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"

	"github.com/twuillemin/modes/pkg/adsb"
	adsbreader "github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/geo"
	"github.com/twuillemin/modes/pkg/modes/common"
	"github.com/twuillemin/modes/pkg/modes/messages"
	"github.com/twuillemin/modes/pkg/modes/reader"
	"verif/harness/lib"
	"verif/harness/spec"
)

// A session is the traffic of a fleet. The list of a case holds the addresses of the aircraft (3 bytes each)
// and the transmissions (eventLen bytes each): which aircraft, what happens, its position, the frame before its
// address, position and parity are written in it, and some noise.
const (
	evWho   = 0
	evWhat  = 1
	evLat   = 2
	evLon   = 10
	evFrame = 18
	evNoise = 32
	evLen   = 40
)

const (
	evFair      = iota // what is transmitted is received
	evCorrupted        // a burst of errors
	evIntruder         // somebody else transmits
	evKinds
)

type event []byte

func (v event) position() (lat, lon float64, ok bool) {
	lat = math.Float64frombits(binary.BigEndian.Uint64(v[evLat:]))
	lon = math.Float64frombits(binary.BigEndian.Uint64(v[evLon:]))
	return lat, lon, math.Abs(lat) <= 90 && math.Abs(lon) <= 180
}

func (v event) setPosition(lat, lon float64) {
	binary.BigEndian.PutUint64(v[evLat:], math.Float64bits(lat))
	binary.BigEndian.PutUint64(v[evLon:], math.Float64bits(lon))
}

func isPositionTC(tc int) bool { return tc >= 5 && tc <= 22 && tc != 19 }

// carriesSquitter says whether the frame holds an ADS-B squitter.
func carriesSquitter(d []byte) bool {
	df := spec.DF(d)
	return df == 17 || df == 18 && (d[0]&7 <= 1 || d[0]&7 == 6)
}

// transmitted is the frame that is transmitted, the address of its transmitter and, for a position, what it encodes.
func (v event) transmitted(fleet []uint32) (frame []byte, addr uint32, at *spec.Encoded) {
	addr = fleet[int(v[evWho])%len(fleet)]
	if v[evWhat]%evKinds == evIntruder {
		addr = uint32(lib.U(v[evNoise:], 1, 24))
	}
	frame = append([]byte{}, v[evFrame:evFrame+14]...)
	df := spec.DF(frame)
	frame = frame[:spec.FrameLen(df)]
	overlay := addr
	switch df {
	case 11, 17, 18:
		lib.Put(frame, 9, 32, uint64(addr))
		overlay = 0
		if df == 11 {
			overlay = uint32(v[evNoise+3] & 0x7F)
		}
	}
	if carriesSquitter(frame) && isPositionTC(spec.TC(frame[4:11])) {
		if lat, lon, ok := v.position(); ok {
			me := frame[4:11]
			cpr := spec.Airborne
			if spec.TC(me) <= 8 {
				cpr = spec.Surface
			}
			p := cpr.Encode(lat, lon, lib.B(me, 22))
			lib.Put(me, 23, 39, uint64(p.YZ))
			lib.Put(me, 40, 56, uint64(p.XZ))
			at = &p
		}
	}
	seal(frame, overlay)
	return frame, addr, at
}

// A fix is a position squitter received from an aircraft.
type fix struct {
	true     spec.Encoded
	lat, lon float64
	y, x     uint32
}

// A track is what the receiver knows of an aircraft, all of it taken from the decoded messages, and its model.
type track struct {
	version     adsb.ADSBVersion
	nicA, nicC  bool
	last        [2][2]*fix // airborne or surface, even or odd
	known       bool
	lat, lon    float64
	trueLat     float64
	trueLon     float64
	wantVersion int
	wantA       bool
	wantC       bool
}

type session struct {
	o      *lib.Obs
	fleet  []uint32
	list   map[common.ICAOAddress]bool
	tracks map[uint32]*track
	again  []func() error // what was received must not change afterwards
	solved int
	who    map[uint32]bool
}

func (s *session) track(addr uint32) *track {
	t := s.tracks[addr]
	if t == nil {
		t = &track{}
		s.tracks[addr] = t
	}
	return t
}

// receive runs the chain on an event.
func (s *session) receive(v event) error {
	sent, addr, at := v.transmitted(s.fleet)
	got := append([]byte{}, sent...)
	df := spec.DF(sent)
	corrupted := v[evWhat]%evKinds == evCorrupted
	if corrupted {
		burst := uint32(lib.U(v[evNoise+4:], 1, 24)) | 1
		n := 8*len(sent) - 5 - 24
		start := 6 + int(v[evNoise])%(n+1)
		lib.Put(got, start, start+23, lib.U(got, start, start+23)^uint64(burst))
	}
	m, err := reader.ReadMessage(got)
	if !spec.FrameOK(got) {
		s.o.Class("rejected frame")
		if err == nil || !spec.IsNil(m) {
			return fmt.Errorf("it must be rejected and gives %T (error %v)", m, err)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("rejected: %v", err)
	}
	id, err := reader.CheckCRC(m, got, s.list, nil)
	if corrupted {
		s.o.Class(fmt.Sprintf("corrupted format %d", df))
		switch df {
		case 17, 18:
			if err == nil {
				return fmt.Errorf("corrupted from %x, and its parity is accepted", sent)
			}
		case 11:
			if err == nil && uint32(id) == uint32(v[evNoise+3]&0x7F) {
				return fmt.Errorf("corrupted from %x, and received as the reply to the interrogator %d", sent, id)
			}
		default:
			if err == nil && uint32(id) == addr {
				return fmt.Errorf("corrupted from %x, and attributed to its transmitter", sent)
			}
		}
		return nil
	}
	if err := spec.Frames[df].Compare(m, got); err != nil {
		return err
	}
	if df == 11 {
		if err != nil || uint32(id) != uint32(v[evNoise+3]&0x7F) {
			return fmt.Errorf("interrogator %v (error %v), want %d", id, err, v[evNoise+3]&0x7F)
		}
		id = common.ICAOAddress(m.(*messages.MessageDF11).AddressAnnounced.Address)
	} else if _, ok := s.list[common.ICAOAddress(addr)]; df != 17 && df != 18 && len(s.list) > 0 && !ok {
		s.o.Class("not on the list")
		if err == nil {
			return fmt.Errorf("its transmitter %06x is not on the list and it is accepted as from %06x", addr, id)
		}
		return nil
	}
	if err != nil || uint32(id) != addr {
		return fmt.Errorf("attributed to %06x (error %v), want %06x", id, err, addr)
	}
	s.who[addr] = true
	s.o.Class(fmt.Sprintf("format %d", df))
	s.again = append(s.again, func() error { return spec.Frames[df].Compare(m, got) })
	switch m := m.(type) {
	case *messages.MessageDF16:
		mv := []byte(m.MessageACAS)
		if mv[0] == 0x30 && spec.RAOK(mv[1:]) {
			return spec.RA.Check(append([]byte{}, mv[1:]...), s.o)
		}
	case *messages.MessageDF17:
		return s.squitter(v, uint32(id), m.MessageExtendedSquitter, got, at)
	case *messages.MessageDF18:
		if carriesSquitter(got) {
			return s.squitter(v, uint32(id), m.MessageExtendedSquitter, got, at)
		}
	case *messages.MessageDF20:
		return s.register(m.MessageCommB, got)
	case *messages.MessageDF21:
		return s.register(m.MessageCommB, got)
	}
	return nil
}

func (s *session) register(mb, frame []byte) error {
	want := append([]byte{}, frame[4:11]...)
	if !bytes.Equal(mb, want) {
		return fmt.Errorf("the register is %x", mb)
	}
	l, err := checkInference(mb, s.o)
	if err != nil {
		return err
	}
	for _, r := range l {
		r := r
		for _, x := range append(append([]*spec.Spec{}, spec.First...), spec.Others...) {
			if x.Name != r.GetRegister().GetId() {
				continue
			}
			x := x
			see := func() error {
				if err := x.Compare(r, want); err != nil {
					return err
				}
				if x.Extra != nil {
					return x.Extra(r, want, s.o)
				}
				return nil
			}
			if err := see(); err != nil {
				return err
			}
			s.again = append(s.again, see)
		}
	}
	return nil
}

func (s *session) squitter(v event, id uint32, me, frame []byte, at *spec.Encoded) error {
	t := s.track(id)
	want := spec.Squitter{D: append([]byte{}, frame[4:11]...), Version: t.wantVersion, A: t.wantA, C: t.wantC}
	tc := spec.TC(want.D)
	m, err := adsbreader.ReadADSBMessage(t.version, t.nicA, t.nicC, me)
	if err := want.CheckKind(m, err); err != nil {
		return err
	}
	if err != nil {
		s.o.Class("rejected squitter")
		return nil
	}
	s.o.Class(fmt.Sprintf("type code %d version %d", tc, t.wantVersion))
	see := func() error {
		if err := want.CompareContent(m, s.o); err != nil {
			return err
		}
		if isPositionTC(tc) {
			return want.CompareIntegrity(m)
		}
		return nil
	}
	if err := see(); err != nil {
		return err
	}
	s.again = append(s.again, see)
	if tc == 31 {
		// What the status announces governs the reading of the next messages of this aircraft.
		k := spec.Layout65(want.D)
		t.wantVersion, t.wantA, t.wantC = int(lib.U(want.D, 41, 43)), k > 0 && lib.B(want.D, 44), k == 4 && lib.B(want.D, 20)
		t.version, t.nicA, t.nicC = m.GetADSBVersion(), false, false
		if k > 0 {
			f := "AircraftOperationalStatus.NICSupplement"
			if k > 2 {
				f += "A"
			}
			r, err := spec.Get(m, f)
			if err != nil {
				return err
			}
			t.nicA = r.Uint() != 0
		}
		if k == 4 {
			r, err := spec.Get(m, "AircraftOperationalStatus.SurfaceCapabilityClass.NICSupplementC")
			if err != nil {
				return err
			}
			t.nicC = r.Uint() != 0
		}
		return nil
	}
	if !isPositionTC(tc) || at == nil {
		return nil
	}
	lat, lon, _ := v.position()
	var n [3]uint32
	for i, f := range []string{"EncodedLatitude", "EncodedLongitude", "CPRFormat"} {
		r, err := spec.Get(m, f)
		if err != nil {
			return err
		}
		n[i] = uint32(r.Uint())
	}
	if at.Near {
		s.o.Class("too close to a transition")
		return nil
	}
	return s.locate(v, t, tc <= 8, n[2] == 1, &fix{*at, lat, lon, n[0], n[1]})
}

// locate solves the position of an aircraft from the squitter just received and the ones before it.
func (s *session) locate(v event, t *track, surface, odd bool, f *fix) error {
	cpr, k := spec.Airborne, 0
	local := geo.GetCPRAirborneLocalPosition
	if surface {
		cpr, k = spec.Surface, 1
		local = geo.GetCPRSurfaceLocalPosition
	}
	i := 0
	if odd {
		i = 1
	}
	t.last[k][i] = f
	inRange := func(lat, lon float64) bool {
		return math.Abs(f.true.Lat-lat) <= 0.4995*cpr.DLat(odd) && math.Abs(spec.Turn(f.true.Lon, lon)) <= 0.4995*cpr.DLon(f.true.NL, odd)
	}
	// The place of the receiver, when the aircraft was not located before.
	refLat := math.Max(-90, math.Min(90, f.lat+(float64(v[evNoise+5])-127.5)/127.5*0.7))
	refLon := spec.Turn(f.lon+(float64(v[evNoise+6])-127.5)/127.5*0.3, 0)
	if t.known && inRange(t.lat, t.lon) {
		refLat, refLon = t.lat, t.lon
		s.o.Class("near its last position")
	}
	found := false
	var lat, lon float64
	if inRange(refLat, refLon) {
		lat, lon = local(f.y, f.x, refLat, refLon, odd)
		what := fmt.Sprintf("local position from %v %v", refLat, refLon)
		if err := checkPosition(what, cpr, lat, lon, f.true, f.lat, f.lon, odd); err != nil {
			return err
		}
		found = true
	}
	if e, d := t.last[k][0], t.last[k][1]; e != nil && d != nil && math.Abs(e.true.Lat-d.true.Lat) <= 0.49*cpr.Circle/60/59 {
		var glat, glon float64
		var err error
		judged := true
		if surface {
			for _, p := range []*fix{e, d} {
				judged = judged && math.Abs(p.true.Lat-refLat) <= 0.8 && math.Abs(spec.Turn(p.true.Lon, refLon)) <= 44.9
			}
			glat, glon, err = geo.GetCPRSurfaceGlobalPosition(e.y, e.x, d.y, d.x, !odd, refLat, refLon)
		} else {
			glat, glon, err = geo.GetCPRAirborneGlobalPosition(e.y, e.x, d.y, d.x, !odd)
		}
		what := fmt.Sprintf("pair %d %d, %d %d", e.y, e.x, d.y, d.x)
		switch {
		case !judged:
		case e.true.NL != d.true.NL:
			s.o.Class("different zones")
			if err == nil {
				return fmt.Errorf("%s: latitudes %v and %v of different zones are decoded", what, e.lat, d.lat)
			}
		case !movable(cpr, e.true, d.true):
		case err != nil:
			return fmt.Errorf("%s: rejected: %v", what, err)
		case !(math.Abs(glat) <= 90 && math.Abs(glon) <= 180):
			return fmt.Errorf("%s: position %v %v", what, glat, glon)
		default:
			if err := checkPosition(what, cpr, glat, glon, f.true, f.lat, f.lon, odd); err != nil {
				return err
			}
			lat, lon, found = glat, glon, true
			s.solved++
			s.o.Class("pair solved")
		}
	}
	if !found {
		return nil
	}
	if t.known {
		d, w := geo.ComputeGroundDistance(t.lat, t.lon, lat, lon), greatCircle(t.trueLat, t.trueLon, f.lat, f.lon)
		// Both positions are known within the resolution of the encoding, at most 5.2 m of longitude or 3.2 m of latitude
		// each at the equator; one zone of 360 degrees at the poles.
		if !(math.Abs(d-w) <= 25+1e-6*w) && math.Abs(f.lat) < 86 && math.Abs(t.trueLat) < 86 && w < 1e6 {
			return fmt.Errorf("it is %v m from the previous position, want %v", d, w)
		}
	}
	t.known, t.lat, t.lon, t.trueLat, t.trueLon = true, lat, lon, f.lat, f.lon
	return nil
}

// greatCircle is the distance on the sphere of 6371 km by the angle of the vectors.
func greatCircle(lat1, lon1, lat2, lon2 float64) float64 {
	vec := func(lat, lon float64) [3]float64 {
		la, lo := lat*math.Pi/180, lon*math.Pi/180
		return [3]float64{math.Cos(la) * math.Cos(lo), math.Cos(la) * math.Sin(lo), math.Sin(la)}
	}
	a, b := vec(lat1, lon1), vec(lat2, lon2)
	x := [3]float64{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
	return 6371000 * math.Atan2(math.Sqrt(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]), a[0]*b[0]+a[1]*b[1]+a[2]*b[2])
}

// genSession makes a fleet and its traffic.
func genSession(e *lib.Ent) *lib.Case {
	c := &lib.Case{N: []int64{int64(e.N(2))}}
	type plane struct {
		lat, lon float64
		surface  bool
		odd      [2]bool
		// The layout of its operational status, and whether it was sent.
		layout    int
		announced bool
	}
	n := 1 + e.N(4)
	var addrs []uint32
	planes := make([]*plane, n)
	for i := range planes {
		a := uint32(e.Value(24))
		if i > 0 { // often alike another one
			b := addrs[e.N(i)]
			switch e.N(6) {
			case 0:
				a = b ^ 1<<uint(e.N(24))
			case 1:
				a = b>>16 | b&0xFF00 | b<<16&0xFF0000
			case 2:
				a = b&0xFFFF | a&0xFF0000
			case 3:
				a = (b + 1) & 0xFFFFFF
			}
		}
		addrs = append(addrs, a)
		c.L = append(c.L, lib.Hex{byte(a >> 16), byte(a >> 8), byte(a)})
		p := &plane{surface: e.P(3), layout: e.N(5)}
		cpr := spec.Airborne
		if p.surface {
			cpr = spec.Surface
		}
		p.lat = genLatitude(e, cpr)
		p.lon = genLongitude(e, cpr, p.lat)
		if i > 0 && e.P(4) { // close to another one
			p.lat, p.lon = planes[i-1].lat, spec.Turn(planes[i-1].lon+e.F(-0.01, 0.01), 0)
		}
		planes[i] = p
	}
	count := 1 + e.N(40)
	if e.P(30) {
		count += e.N(200)
	}
	first := len(c.L)
	for len(c.L) < first+count {
		if k := len(c.L) - first; k > 0 && e.P(12) { // again, maybe from another aircraft
			i := first + e.N(k)
			if e.Bool() {
				i = first + k - 1
			}
			x := append(lib.Hex{}, c.L[i]...)
			if e.Bool() {
				x[evWho] = byte(e.N(n))
			}
			switch frame := x[evFrame : evFrame+14]; e.N(6) {
			case 0: // the same header and another content
				copy(frame[4:11], e.Mixed(7))
			case 1: // or almost the same one
				i := 5 + e.N(83)
				frame[i>>3] ^= 0x80 >> uint(i&7)
			case 2:
				i := 32 + e.N(56)
				frame[i>>3] ^= 0x80 >> uint(i&7)
			case 3: // the content of another one
				y := c.L[first+e.N(k)]
				copy(frame[4:11], y[evFrame+4:])
			}
			c.L = append(c.L, x)
			continue
		}
		w := e.N(n)
		p := planes[w]
		v := make(event, evLen)
		v[evWho] = byte(w)
		switch e.N(16) {
		case 0:
			v[evWhat] = evCorrupted
		case 1:
			v[evWhat] = evIntruder
		}
		copy(v[evNoise:], e.Bytes(8))
		df := spec.Formats[e.N(len(spec.Formats))]
		position := e.N(5) < 2
		if position || e.Bool() {
			df = 17 + e.N(5)/4
		}
		d := spec.GenFrame(e, df)
		switch df {
		case 16:
			if !e.P(4) {
				d[4] = 0x30
				r := e.Mixed(6)
				spec.FixRA(r, e)
				copy(d[5:], r)
			}
		case 17, 18:
			if position && e.P(30) { // takes off or lands
				p.surface = !p.surface
			}
			if df == 18 && !e.P(4) {
				d[0] = byte(18<<3 | []int{0, 1, 6}[e.N(3)])
			}
			tcs := spec.AllTCs
			switch {
			case position && p.surface:
				tcs = []int{5, 6, 7, 8}
			case position:
				tcs = air
			case e.P(8):
				tcs = []int{31}
			case e.Bool():
				tcs = []int{1, 2, 3, 4, 19, 19, 28, 29}
			}
			if !p.announced && e.P(2) {
				position, tcs = false, []int{31}
			}
			me := spec.GenSquitter(e, tcs...).D
			if spec.TC(me) == 31 && !e.P(6) { // most keep their version
				k := p.layout
				if k > 0 && e.P(4) {
					k = (k - 1) ^ 1 + 1
				}
				spec.BDS65S[k].Fix(me, e)
				p.announced = true
			}
			if position {
				k := 0
				cpr := spec.Airborne
				if p.surface {
					k, cpr = 1, spec.Surface
				}
				if !e.P(6) {
					p.odd[k] = !p.odd[k]
				}
				b := uint64(0)
				if p.odd[k] {
					b = 1
				}
				lib.Put(me, 22, 22, b)
				// A short flight.
				scale := []float64{0, 0.01, 0.3, 0.97}[e.N(4)] / 2
				maxLat := 0.5 * cpr.Circle / 60 / 59
				nl, _ := spec.NL(p.lat)
				maxLon := 0.5 * cpr.Circle / float64(nl) / math.Max(float64(nl-1), 1)
				p.lat = math.Max(-90, math.Min(90, p.lat+scale*e.F(-maxLat, maxLat)))
				p.lon = spec.Turn(p.lon+scale*e.F(-maxLon, maxLon), 0)
				if e.P(60) {
					p.lat = genLatitude(e, cpr)
					p.lon = genLongitude(e, cpr, p.lat)
				}
			}
			copy(d[4:11], me)
		case 20, 21:
			r := genAnyRegister(e)
			if all := append(append([]*spec.Spec{}, spec.First...), spec.Others...); e.Bool() {
				x := all[e.N(len(all))]
				r = e.Mixed(7)
				if x.Cohere != nil {
					x.Cohere(r, e)
				}
				if x.Fix != nil {
					x.Fix(r, e)
				}
			}
			copy(d[4:11], r)
		}
		copy(v[evFrame:], d)
		v.setPosition(p.lat, p.lon)
		c.L = append(c.L, lib.Hex(v))
	}
	return c
}

func init() {
	add("C27", "messages of several aircraft, or a position solved from a pair",
		[]string{"the receiver is the workflow documented in the README, in main.go and in the comments of the readers: the parity gives the transmitter, the last operational status gives the version and the supplements",
			"positions are judged in the domains of C21, C22 and C23"},
		func(r *lib.Runner) {
			r.Add(&lib.Sub{Name: "traffic",
				Gen: lib.Random(genSession),
				Check: func(c *lib.Case, o *lib.Obs) error {
					s := &session{o: o, tracks: map[uint32]*track{}, who: map[uint32]bool{}}
					var events []event
					for _, l := range c.L {
						switch len(l) {
						case 3:
							s.fleet = append(s.fleet, uint32(lib.U(l, 1, 24)))
						case evLen:
							events = append(events, event(l))
						}
					}
					if len(s.fleet) == 0 || len(c.N) == 0 {
						return nil
					}
					if c.N[0]&1 == 1 {
						s.list = map[common.ICAOAddress]bool{}
						for _, a := range s.fleet {
							s.list[common.ICAOAddress(a)] = true
						}
					}
					for i, v := range events {
						if err := s.receive(v); err != nil {
							frame, addr, _ := v.transmitted(s.fleet)
							return fmt.Errorf("message %d (%x of %06x): %v", i, frame, addr, err)
						}
					}
					for i, f := range s.again {
						if err := f(); err != nil {
							return fmt.Errorf("the message received %dth is, after the others, different: %v", i, err)
						}
					}
					if len(s.who) > 1 || s.solved > 0 {
						o.NonTrivial()
					}
					return nil
				},
				Free: true, FreeL: evFrame, Quick: 100000, Thorough: 6000000})
		})
}
