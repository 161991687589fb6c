import re
"""Rewrites a copy of /repo without changing what it does (a development tool: the checks must stay quiet on it).
   rewrite.py DIRECTORY/"""
import sys
R = sys.argv[1].rstrip('/') + '/'
def ed(f,*prs):
    s=open(R+f).read()
    for o,n in prs:
        assert s.count(o)==1,(f,s.count(o),o)
        s=s.replace(o,n)
    open(R+f,'w').write(s)
# 1 table CRC
f='pkg/modes/reader/crc.go'
s=open(R+f).read()
a=s.index('func computeParity(')
s=s[:a]+'''func computeParity(data []byte) uint32 {
	crc := uint32(0)
	for _, b := range data {
		crc = crc<<8&0xFFFFFF ^ crcTable[byte(crc>>16)^b]
	}
	return crc
}

var crcTable = buildTable()

func buildTable() [256]uint32 {
	var t [256]uint32
	poly := uint32(crcPolynomial[0])<<16 | uint32(crcPolynomial[1])<<8 | uint32(crcPolynomial[2])
	for i := range t {
		c := uint32(i) << 16
		for k := 0; k < 8; k++ {
			c <<= 1
			if c&0x1000000 != 0 {
				c ^= 0x1000000 | poly
			}
		}
		t[i] = c
	}
	return t
}
'''
open(R+f,'w').write(s)
# 2 distance by vectors
f='pkg/geo/ground_distance.go'
s=open(R+f).read()
a=s.index('	earthRadius')
s=s[:a]+'''	const earthRadius = 6371000.0
	x1, y1, z1 := unit(lat1, long1)
	x2, y2, z2 := unit(lat2, long2)
	cx, cy, cz := y1*z2-z1*y2, z1*x2-x1*z2, x1*y2-y1*x2
	return earthRadius * math.Atan2(math.Sqrt(cx*cx+cy*cy+cz*cz), x1*x2+y1*y2+z1*z2)
}

func unit(lat, long float64) (float64, float64, float64) {
	sp, cp := math.Sincos(lat * math.Pi / 180)
	sl, cl := math.Sincos(long * math.Pi / 180)
	return cp * cl, cp * sl, sp
}
'''
open(R+f,'w').write(s)
# 3 NL by a table of transitions
f='pkg/geo/cpr_common.go'
s=open(R+f).read()
a=s.index('func mod(')
s=s[:a]+'''func mod(x float64, y float64) float64 {
	return x - y*math.Floor(x/y)
}

var transitions = func() (t [60]float64) {
	a := 1 - math.Cos(math.Pi/(2*Nz))
	for nl := 2; nl < 60; nl++ {
		t[nl] = 180 / math.Pi * math.Acos(math.Sqrt(a/(1-math.Cos(2*math.Pi/float64(nl)))))
	}
	t[2] = 87
	return
}()

func getNumberOfLongitude(lat float64) float64 {
	lat = math.Abs(lat)
	for nl := 59; nl > 1; nl-- {
		if lat <= transitions[nl] {
			return float64(nl)
		}
	}
	return 1
}
'''
open(R+f,'w').write(s)
for p in ['pkg/geo/cpr_airborne_local_position.go', 'pkg/geo/cpr_surface_local_position.go']:
    s = open(R+p).read()
    for v, d, c in (('Latitude', 'dLat', 'latCPR'), ('Longitude', 'dLon', 'lonCPR')):
        o = 'math.Floor(reference%s/%s) + math.Floor(mod(reference%s, %s)/%s-%s+0.5)' % (v, d, v, d, d, c)
        assert s.count(o) == 1
        s = s.replace(o, 'math.Floor(0.5 + reference%s/%s - %s)' % (v, d, c))
    open(R+p, 'w').write(s)
# 4 Gillham table
f='pkg/bitutils/gillham.go'
s=open(R+f).read()
s=s.replace('func GillhamToAltitude(','func computeGillham(')
s+='''
var gillhamTable, gillhamErrors = func() (t [4096]int32, e [4096]error) {
	for i := range t {
		b := func(k uint) bool { return i>>k&1 == 1 }
		t[i], e[i] = computeGillham(b(0), b(1), b(2), b(3), b(4), b(5), b(6), b(7), b(8), b(9), b(10), b(11))
	}
	return
}()

// GillhamToAltitude convert an altitude given in Gillham bits to an altitude in feet
func GillhamToAltitude(d1, d2, d4, a1, a2, a4, b1, b2, b4, c1, c2, c4 bool) (int32, error) {
	n := 0
	for i, b := range [...]bool{d1, d2, d4, a1, a2, a4, b1, b2, b4, c1, c2, c4} {
		if b {
			n |= 1 << uint(i)
		}
	}
	return gillhamTable[n], gillhamErrors[n]
}
'''
open(R+f,'w').write(s)
# 5 Comm-B by a list of readers
f='pkg/commb/reader.go'
s=open(R+f).read()
a=s.index('	var message bds.Message'); 
s=s[:a]+'''	if m, err := bds00.ReadNoMessageAvailable(data); err == nil {
		return []bds.Message{m}, nil
	}
	for _, read := range sure {
		if m, err := read(data); err == nil && m.CheckCoherency() == nil {
			return []bds.Message{m}, nil
		}
	}
	result := []bds.Message{}
	for _, read := range doubtful {
		m, err := read(data)
		if err != nil {
			continue
		}
		if err := m.CheckCoherency(); err != nil {
			continue
		}
		result = append(result, m)
	}
	return result, nil
}

type readFunction func([]byte) (bds.Message, error)

var sure = []readFunction{
	func(d []byte) (bds.Message, error) { return bds07.ReadStatus(d) },
	func(d []byte) (bds.Message, error) { return bds20.ReadAircraftIdentification(d) },
}

var doubtful = []readFunction{
	func(d []byte) (bds.Message, error) { return bds10.ReadDataLinkCapabilityReport(d) },
	func(d []byte) (bds.Message, error) { return bds17.ReadCommonUsageGICBCapabilityReport(d) },
	func(d []byte) (bds.Message, error) { return bds30.ReadACASResolutionAdvisory(d) },
	func(d []byte) (bds.Message, error) { return bds40.ReadSelectedVerticalIntention(d) },
	func(d []byte) (bds.Message, error) { return bds44.ReadMeteorologicalRoutineAirReport(d) },
	func(d []byte) (bds.Message, error) { return bds45.ReadMeteorologicalHazardReport(d) },
	func(d []byte) (bds.Message, error) { return bds50.ReadTrackAndTurnReport(d) },
	func(d []byte) (bds.Message, error) { return bds60.ReadHeadingAndSpeedReport(d) },
}
'''
open(R+f,'w').write(s)
# 6 cmd: reader by ReadString, buffered output
f='cmd/main.go'
s=open(R+f).read()
a=s.index('	result := make([]string, 0, 1000)'); b=s.index('// processSingleLine processes')
s=s[:a]+'''	var lines []string
	in := bufio.NewReader(file)
	for {
		line, err := in.ReadString('\\n')
		if err != nil && err != io.EOF {
			log.Fatal(err)
		}
		if len(line) > 0 {
			line = strings.TrimSuffix(line, "\\n")
			line = strings.TrimSuffix(line, "\\r")
			lines = append(lines, line)
		}
		if err == io.EOF {
			return lines
		}
	}
}

'''+s[b:]
s=s.replace('	"math"\n','').replace('	"log"\n','	"io"\n	"log"\n').replace('	"os"\n','	"os"\n	"strings"\n')
s=s.replace('fmt.Printf(','fmt.Fprintf(out, ').replace('fmt.Println(','fmt.Fprintln(out, ')
s=s.replace('func main() {','''// out buffers the output
var out = bufio.NewWriter(os.Stdout)

func main() {

	defer out.Flush()
''')
open(R+f,'w').write(s)
# 7 identification: shift register
f='pkg/bds/bds20/aircraft_identification.go'
s=open(R+f).read()
a=s.index('	// Get the codes'); b=s.index('	return &AircraftIdentification{')
s=s[:a]+'''	all := uint64(0)
	for _, b := range data[1:] {
		all = all<<8 | uint64(b)
	}
	var chars [8]byte
	for i := len(chars) - 1; i >= 0; i-- {
		chars[i] = encoding.IdentificationCharacterCoding[all&0x3F]
		all >>= 6
	}

'''+s[b:].replace('string(chars)','string(chars[:])')
open(R+f,'w').write(s)
# 8 general: (data[i]&m)>>k != 0 -> data[i]&m != 0 everywhere
import glob
n=0
for p in glob.glob(R+'pkg/**/*.go',recursive=True):
    if p.endswith('_test.go'): continue
    s=open(p).read()
    t=re.sub(r'\((\w+(?:\.\w+)?\[\d\])\s*&\s*(0x[0-9A-Fa-f]+)\)\s*>>\s*\d+\s*!=\s*0',r'\1&\2 != 0',s)
    # copy of the data at the entry of the readers
    t=re.sub(r'(func (?:Read|Parse)\w+\(data \[\]byte[^{]*\{\n)',r'\1\n\tdata = append([]byte(nil), data...)\n',t)
    n+=t!=s
    open(p,'w').write(t)
print(n)
