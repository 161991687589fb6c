//go:build c33

package props

import (
	"errors"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/twuillemin/modes/pkg/bds"
	"github.com/twuillemin/modes/pkg/bds/register"
	"github.com/twuillemin/modes/pkg/bitutils"
	libcommon "github.com/twuillemin/modes/pkg/common"
	"github.com/twuillemin/modes/pkg/modes/common"
	"pgregory.net/rapid"
	"verif/harness/lib"
)

// registers are the registers that the library names, with the words of the standard that tell them apart.
var registers = []struct {
	id    string
	reg   register.Register
	words string
}{
	{"BDS 0,0", register.BDS00, "no message"},
	{"BDS 0,5", register.BDS05, "airborne position"},
	{"BDS 0,6", register.BDS06, "surface position"},
	{"BDS 0,7", register.BDS07, "status"},
	{"BDS 0,8", register.BDS08, "identification and category"},
	{"BDS 0,9", register.BDS09, "airborne velocity"},
	{"BDS 1,0", register.BDS10, "data link capability"},
	{"BDS 1,7", register.BDS17, "gicb capability"},
	{"BDS 2,0", register.BDS20, "aircraft identification"},
	{"BDS 3,0", register.BDS30, "resolution advisory"},
	{"BDS 4,0", register.BDS40, "selected vertical intention"},
	{"BDS 4,4", register.BDS44, "routine"},
	{"BDS 4,5", register.BDS45, "hazard"},
	{"BDS 5,0", register.BDS50, "track and turn"},
	{"BDS 6,0", register.BDS60, "heading and speed"},
	{"BDS 6,1", register.BDS61, "emergency"},
	{"BDS 6,2", register.BDS62, "target state"},
	{"BDS 6,5", register.BDS65, "operational status"},
}

func sameRegister(i int) error {
	x := registers[i]
	if x.reg.GetId() != x.id {
		return fmt.Errorf("the register %s names itself %q", x.id, x.reg.GetId())
	}
	if d := x.reg.GetDescription(); !strings.Contains(strings.ToLower(d), x.words) {
		return fmt.Errorf("the register %s is described as %q", x.id, d)
	}
	if t := x.reg.ToString(); !strings.Contains(t, x.id) || !strings.Contains(t, x.reg.GetDescription()) {
		return fmt.Errorf("the text of the register %s is %q", x.id, t)
	}
	for j, y := range registers {
		if i != j && (x.reg == y.reg || x.reg.ToString() == y.reg.ToString() || x.reg.GetDescription() == y.reg.GetDescription()) {
			return fmt.Errorf("the registers %s and %s are the same: %q", x.id, y.id, y.reg.ToString())
		}
	}
	return nil
}

var bdsName = regexp.MustCompile(`^bds(\d)(\d)$`)

// pulses is the altitude of the twelve pulses D1 D2 D4 A1 A2 A4 B1 B2 B4 C1 C2 C4 (from the most significant bit): the
// nine first ones count the slices of 500 feet in a reflected binary code, and the last ones the hundreds in the slice.
func pulses(v int) (int, error) {
	slice, up := 0, true
	for b := 11; b >= 3; b-- { // in the reflected code, a one changes the direction of what follows
		one := v>>b&1 == 1
		slice *= 2
		if one == up {
			slice++
		}
		if one {
			up = !up
		}
	}
	hundreds := strings.Index("x1326x4", string("01234567"[v&7])) // C1 C2 C4: 001, 011, 010, 110 and 100
	if v&7 == 0 || hundreds < 1 {
		return 0, errors.New("no altitude")
	}
	if hundreds == 6 {
		hundreds = 5
	}
	if slice%2 == 1 {
		hundreds = 6 - hundreds
	}
	return slice*500 + hundreds*100 - 1300, nil
}

func gillham(v int) (int32, error) {
	b := func(n int) bool { return v>>n&1 == 1 }
	return bitutils.GillhamToAltitude(b(11), b(10), b(9), b(8), b(7), b(6), b(5), b(4), b(3), b(2), b(1), b(0))
}

func samePulses(c *lib.Case, o *lib.Obs) error {
	if len(c.N) < 1 {
		return nil
	}
	v := int(c.N[0] & 4095)
	want, werr := pulses(v)
	got, err := gillham(v)
	if (err != nil) != (werr != nil) {
		return fmt.Errorf("the pulses %012b give %d and the error %v instead of %d and %v", v, got, err, want, werr)
	}
	if err != nil {
		o.Class("rejected")
		if got != 0 {
			return fmt.Errorf("the pulses %012b are rejected and give %d", v, got)
		}
		return nil
	}
	o.NonTrivial()
	if int(got) != want {
		return fmt.Errorf("the pulses %012b give %d ft instead of %d ft", v, got, want)
	}
	// the levels above and below are at one pulse from this one, and no other pulse leads there
	for _, d := range []int{-100, 100} {
		n := 0
		for b := 0; b < 12; b++ {
			if a, err := gillham(v ^ 1<<b); err == nil && int(a) == want+d {
				n++
			}
		}
		if last := want+d < -1200 || want+d > 511*500+500-1300; n != 1 && !last || n != 0 && last {
			return fmt.Errorf("%d codes at one pulse of %012b (%d ft) give %d ft", n, v, want, want+d)
		}
	}
	return nil
}

func samePacked(c *lib.Case, o *lib.Obs) error {
	d := append(append([]byte{}, c.D...), 0, 0, 0, 0)[:4]
	o.NonTrivial()
	value := func(n int) uint64 {
		v := uint64(0)
		for i := 0; i < 8*n; i++ {
			v = v*2 + uint64(d[i/8]>>(7-i%8)&1)
		}
		return v
	}
	if v := bitutils.Pack2Bytes(d[0], d[1]); uint64(v) != value(2) {
		return fmt.Errorf("the bytes % X are packed as %04X", d[:2], v)
	}
	if v := bitutils.Pack3Bytes(d[0], d[1], d[2]); uint64(v) != value(3) {
		return fmt.Errorf("the bytes % X are packed as %06X", d[:3], v)
	}
	if v := bitutils.Pack4Bytes(d[0], d[1], d[2], d[3]); uint64(v) != value(4) {
		return fmt.Errorf("the bytes % X are packed as %08X", d, v)
	}
	var b [16]bool
	for i := range b {
		b[i] = d[i/8]>>(7-i%8)&1 == 1
	}
	if v := bitutils.Pack8Bits(b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]); v != d[0] {
		return fmt.Errorf("the bits %08b are packed as %08b", d[0], v)
	}
	if v := bitutils.Pack16Bits(b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8], b[9], b[10], b[11], b[12], b[13], b[14], b[15]); uint64(v) != value(2) {
		return fmt.Errorf("the bits %016b are packed as %016b", value(2), v)
	}
	return nil
}

func sameAddress(c *lib.Case, o *lib.Obs) error {
	if len(c.N) < 1 {
		return nil
	}
	a := uint32(c.N[0])
	o.NonTrivial()
	if a>>24 != 0 {
		o.Class("more than 24 bits")
	}
	t := common.ICAOAddress(a).ToString()
	digits := strings.Join(strings.Fields(t), "")
	if v, err := strconv.ParseUint(digits, 16, 32); err != nil || len(digits) != 6 || uint32(v) != a&0xFFFFFF || digits != strings.ToUpper(digits) {
		return fmt.Errorf("the text of the address %06X is %q", a&0xFFFFFF, t)
	}
	return nil
}

func samePrefixed(c *lib.Case, o *lib.Obs) error {
	if len(c.S) < 2 {
		return nil
	}
	text, prefix := c.S[0], c.S[1]
	var want strings.Builder
	want.WriteString(prefix)
	for i := 0; i < len(text); i++ {
		want.WriteByte(text[i])
		if text[i] == '\n' {
			want.WriteString(prefix)
		}
	}
	if strings.Contains(text, "\n") && prefix != "" {
		o.NonTrivial()
	}
	if got := libcommon.PrefixMultiLine(text, prefix); got != want.String() {
		return fmt.Errorf("the lines %q prefixed by %q are %q", text, prefix, got)
	}
	return nil
}

func init() {
	add("C33", "a value packed, a code of pulses that is an altitude, an address, a text of several lines with a prefix, a value that names its register",
		nil, func(r *lib.Runner) {
			r.Add(&lib.Sub{Name: "bytes and bits packed", Exhaust: true, Check: samePacked, Free: true,
				Enum: func(e *lib.Ent, yield func(*lib.Case)) {
					for v := 0; v < 1<<16; v++ { // all the values of two bytes; the two others are drawn
						yield(&lib.Case{D: lib.Hex{byte(v >> 8), byte(v), byte(e.N(256)), byte(e.N(256))}})
					}
					for v := 0; v < 1<<16; v++ {
						yield(&lib.Case{D: lib.Hex{byte(e.N(256)), byte(e.N(256)), byte(v >> 8), byte(v)}})
					}
					for b := 0; b < 32; b++ {
						for _, x := range []uint32{0, 0xFFFFFFFF} {
							x ^= 1 << b
							yield(&lib.Case{D: lib.Hex{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)}})
						}
					}
				}})
			r.Add(&lib.Sub{Name: "pulses of an altitude", Exhaust: true, Check: samePulses,
				Enum: func(e *lib.Ent, yield func(*lib.Case)) {
					for v := 0; v < 4096; v++ {
						yield(&lib.Case{N: []int64{int64(v)}})
					}
				}})
			r.Add(&lib.Sub{Name: "text of an address", Check: sameAddress, Quick: 100000, Thorough: 10000000, FreeN: []int{32},
				Enum: func(e *lib.Ent, yield func(*lib.Case)) {
					for p := 0; p < 24; p += 8 {
						for v := 0; v < 256; v++ {
							for _, rest := range []int64{0, 0xFFFFFF, int64(e.N(1 << 24))} {
								yield(&lib.Case{N: []int64{rest&^(255<<p) | int64(v)<<p}})
							}
						}
					}
				},
				Gen: func(t *rapid.T) *lib.Case {
					a := rapid.Uint32().Draw(t, "address")
					if rapid.IntRange(0, 3).Draw(t, "long") > 0 {
						a &= 0xFFFFFF
					}
					return &lib.Case{N: []int64{int64(a)}}
				}})
			r.Add(&lib.Sub{Name: "prefix of lines", Check: samePrefixed, Quick: 100000, Thorough: 5000000,
				Gen: func(t *rapid.T) *lib.Case {
					piece := rapid.OneOf(rapid.SampledFrom([]string{"\n", "\n\n", "\r\n", "\r", " ", "\t", "", "%", "%d", "\\n", "\x00", "\u2028", "\v", "\f", "é", "\xff", "Message: BDS 0,5", "    "}),
						rapid.String(), rapid.StringMatching(`[a-z ]{0,80}`))
					join := func(name string, n int) string {
						return strings.Join(rapid.SliceOfN(piece, 0, n).Draw(t, name), "")
					}
					return &lib.Case{S: []string{join("text", 30), join("prefix", 3)}}
				}})
			r.Add(&lib.Sub{Name: "names of the registers", Exhaust: true,
				Enum: func(e *lib.Ent, yield func(*lib.Case)) {
					for i := range registers {
						yield(&lib.Case{N: []int64{int64(i)}})
					}
				},
				Check: func(c *lib.Case, o *lib.Obs) error {
					if len(c.N) < 1 || c.N[0] < 0 || int(c.N[0]) >= len(registers) {
						return nil
					}
					o.NonTrivial()
					return sameRegister(int(c.N[0]))
				}})
			for _, en := range entries {
				n := bdsName.FindStringSubmatch(strings.SplitN(en.name, ".", 2)[0])
				if n == nil {
					continue
				}
				id := "BDS " + n[1] + "," + n[2]
				r.Add(&lib.Sub{Name: "register named by " + en.name, Quick: 3000, Thorough: 300000, Free: true,
					Gen: func(t *rapid.T) *lib.Case {
						return &lib.Case{D: en.gen(lib.NewEnt(rapid.Uint64().Draw(t, "seed")))}
					},
					Check: func(c *lib.Case, o *lib.Obs) error {
						v, err := en.read(append([]byte{}, c.D...), 0)
						m, ok := v.(bds.Message)
						if err != nil || !ok {
							return nil
						}
						o.NonTrivial()
						for i, x := range registers {
							if x.id == id {
								if m.GetRegister() != x.reg {
									return fmt.Errorf("what %s reads names itself %s", en.name, m.GetRegister().ToString())
								}
								return sameRegister(i)
							}
						}
						return fmt.Errorf("the register %s of %s is unknown", id, en.name)
					}})
			}
		})
}
