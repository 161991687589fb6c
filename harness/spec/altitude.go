package spec

// Altitude codes (Annex 10 vol. IV, 3.1.2.6.5.4 and the table of the appendix to chapter 3).

// The 100 ft digits C1 C2 C4 within a band of 500 ft, from the lowest level up.
var cBands = [5]int{1, 3, 2, 6, 4}

// gillham maps the bits D1 D2 D4 A1 A2 A4 B1 B2 B4 C1 C2 C4 (D1 the most significant) to feet.
var gillham = map[int]int64{}

// GillhamCode is the inverse of gillham.
var GillhamCode = map[int64]int{}

func init() {
	for band := 0; band < 512; band++ {
		gray := band ^ band>>1
		for k := 0; k < 5; k++ {
			c := cBands[k]
			if band%2 == 1 {
				c = cBands[4-k]
			}
			code := gray<<3 | c
			// The band 0 starts at -1200 ft.
			feet := int64(-1200 + band*500 + k*100)
			gillham[code] = feet
			GillhamCode[feet] = code
		}
	}
}

// Gillham gives the altitude of the pulses D1 D2 D4 A1 A2 A4 B1 B2 B4 C1 C2 C4.
func Gillham(g int) (feet int64, ok bool) {
	feet, ok = gillham[g]
	return
}

// The order of the pulses in the 13-bit altitude and identity fields.
const (
	pC1 = iota
	pA1
	pC2
	pA2
	pC4
	pA4
	pX
	pB1
	pD1
	pB2
	pD2
	pB4
	pD4
)

func pulse(code uint64, p int) int { return int(code>>uint(12-p)) & 1 }

// pack12 gathers the Gillham bits of a 13-bit field.
func pack12(code uint64) int {
	g := 0
	for _, p := range []int{pD1, pD2, pD4, pA1, pA2, pA4, pB1, pB2, pB4, pC1, pC2, pC4} {
		g = g<<1 | pulse(code, p)
	}
	return g
}

// Spread13 is the inverse of pack12.
func Spread13(g int) uint64 {
	var code uint64
	for i, p := range []int{pC4, pC2, pC1, pB4, pB2, pB1, pA4, pA2, pA1, pD4, pD2, pD1} {
		if g>>uint(i)&1 == 1 {
			code |= 1 << uint(12-p)
		}
	}
	return code
}

// Kinds of altitude.
const (
	AltUnavailable = iota
	AltMetric
	Alt100
	Alt25
	AltBad
)

// AC13 decodes a 13-bit altitude code.
func AC13(code uint64) (kind int, feet int64) {
	switch {
	case code == 0:
		return AltUnavailable, 0
	case pulse(code, pX) == 1:
		return AltMetric, 0
	case pulse(code, pD1) == 1: // the Q bit
		n := code>>7<<5 | code>>5&1<<4 | code&15
		return Alt25, int64(n)*25 - 1000
	}
	if f, ok := gillham[pack12(code)]; ok {
		return Alt100, f
	}
	return AltBad, 0
}

// AC12 decodes a 12-bit altitude code (the 13-bit code without its M bit).
func AC12(code uint64) (kind int, feet int64) {
	return AC13(code>>6<<7 | code&63)
}

// Threat decodes the 13-bit altitude of a threat, whose bit at the place of M is not used.
func Threat(code uint64) (kind int, feet int64) {
	code &^= 1 << 6
	if code == 0 {
		return AltUnavailable, 0
	}
	if f, ok := gillham[pack12(code)]; ok {
		return Alt100, f
	}
	return AltBad, 0
}

// Squawk decodes the 13-bit identity field.
func Squawk(code uint64) string {
	return string([]byte{dig4(code, pA4, pA2, pA1), dig4(code, pB4, pB2, pB1), dig4(code, pC4, pC2, pC1), dig4(code, pD4, pD2, pD1)})
}

func dig4(code uint64, h, m, l int) byte {
	return byte('0' + pulse(code, h)*4 + pulse(code, m)*2 + pulse(code, l))
}

// SquawkCode encodes four octal digits.
func SquawkCode(a, b, c, d int) uint64 {
	var code uint64
	put := func(v, p4, p2, p1 int) {
		if v&4 != 0 {
			code |= 1 << uint(12-p4)
		}
		if v&2 != 0 {
			code |= 1 << uint(12-p2)
		}
		if v&1 != 0 {
			code |= 1 << uint(12-p1)
		}
	}
	put(a, pA4, pA2, pA1)
	put(b, pB4, pB2, pB1)
	put(c, pC4, pC2, pC1)
	put(d, pD4, pD2, pD1)
	return code
}
