package props

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"github.com/twuillemin/modes/pkg/modes/common"
	"github.com/twuillemin/modes/pkg/modes/messages"
	"github.com/twuillemin/modes/pkg/modes/reader"
	"verif/harness/lib"
	"verif/harness/spec"
)

type parts struct {
	df, first       int64
	payload, parity []byte
}

func partsOf(m messages.ModeSMessage) (p parts, err error) {
	get := func(n string) (v int64) {
		r, e := spec.Get(m, n)
		if e != nil {
			err = e
			return 0
		}
		return int64(r.Uint())
	}
	raw := func(n string) []byte {
		r, e := spec.Get(m, n)
		if e != nil {
			err = e
			return nil
		}
		b, _ := spec.AsBytes(r)
		return b
	}
	p.df, p.first = get("DownLinkFormat"), get("FirstField")
	p.payload, p.parity = raw("Payload"), raw("Parity")
	return
}

// sealable makes the bytes of a case an acceptable frame of one of the formats, which it returns.
func sealable(c *lib.Case, formats []int, e *lib.Ent) int {
	var same []int
	for _, df := range formats {
		if spec.FrameLen(df) == len(c.D) {
			if df == spec.DF(c.D) {
				same = []int{df}
				break
			}
			same = append(same, df)
		}
	}
	df := same[e.N(len(same))]
	if df == 24 {
		b := c.D[0] & 0x3F
		spec.FixFrame(c.D, df, e)
		c.D[0] = c.D[0]&0xC0 | b
	} else {
		spec.FixFrame(c.D, df, e)
	}
	return df
}

// fixFrame makes the bytes of a case an acceptable frame of the format they announce.
func fixFrame(c *lib.Case, e *lib.Ent) {
	if len(c.D) == 0 {
		return
	}
	if df := spec.DF(c.D); spec.Frames[df] != nil && len(c.D) == spec.FrameLen(df) {
		b := c.D[0]
		spec.FixFrame(c.D, df, e)
		c.D[0] = b
	}
}

func checkDispatch(d []byte, o *lib.Obs) error {
	m, err := spec.ReadFrame(append([]byte{}, d...))
	ok := len(d) > 0
	df := 0
	if ok {
		df = spec.DF(d)
		ok = spec.Frames[df] != nil && len(d) == spec.FrameLen(df)
	}
	if !ok {
		o.Class("no such format or length")
		if err == nil || !spec.IsNil(m) {
			return fmt.Errorf("frame %x of a format or a length that does not exist is decoded as %T (error %v)", d, m, err)
		}
		return nil
	}
	o.NonTrivial()
	o.Class(fmt.Sprintf("format %d", df))
	if !spec.FrameOK(d) {
		o.Class("malformed altitude")
		if err == nil {
			return fmt.Errorf("frame %x with a malformed altitude is accepted", d)
		}
		return nil
	}
	if err != nil || spec.IsNil(m) {
		return fmt.Errorf("frame %x of format %d is rejected: %v", d, df, err)
	}
	if got, want := fmt.Sprintf("%T", m), fmt.Sprintf("*messages.MessageDF%d", df); got != want {
		return fmt.Errorf("frame %x decoded as %s, want %s", d, got, want)
	}
	if m.GetDownLinkFormat() != df {
		return fmt.Errorf("frame %x reports the format %d, want %d", d, m.GetDownLinkFormat(), df)
	}
	if m.GetName() == "" {
		return fmt.Errorf("frame %x has no name", d)
	}
	p, err := partsOf(m)
	if err != nil {
		return err
	}
	n := len(d)
	if p.df != int64(d[0]>>3) || p.first != int64(d[0]&7) || !bytes.Equal(p.payload, d[1:n-3]) || !bytes.Equal(p.parity, d[n-3:]) {
		return fmt.Errorf("frame %x split as %d %d %x %x", d, p.df, p.first, p.payload, p.parity)
	}
	return nil
}

func init() {
	add("C03", "the frame has a format and a length that exist", nil, func(r *lib.Runner) {
		r.Add(&lib.Sub{Name: "dispatch",
			Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
				for b := 0; b < 256; b += 8 {
					for l := 7; l <= 14; l += 7 {
						for _, n := range longLengths(l) {
							d := append([]byte{byte(b) | byte(e.N(8))}, e.Bytes(13)...)
							yield(data(append(d, make([]byte, n)...)[:n]))
						}
					}
				}
				for b := 0; b < 256; b++ {
					for n := 0; n <= 80; n++ {
						k := 1
						if n == 7 || n == 14 {
							k = 150
						}
						for ; k > 0; k-- {
							d := e.Mixed(n)
							if n > 0 {
								d[0] = byte(b)
								if spec.Frames[spec.DF(d)] != nil && n == spec.FrameLen(spec.DF(d)) && !e.P(8) {
									spec.FixFrame(d, spec.DF(d), e)
									d[0] = byte(b)
								}
							}
							yield(data(d))
						}
					}
				}
			},
			Gen: lib.Random(func(e *lib.Ent) *lib.Case {
				d := e.Mixed(7 + 7*e.N(2))
				if e.P(2000) { // much too long
					l := longLengths(len(d))
					n := l[e.N(len(l))]
					return data(append(spec.GenFrame(e, spec.Formats[e.N(len(spec.Formats))]), make([]byte, n)...)[:n])
				}
				if spec.Frames[spec.DF(d)] != nil && len(d) == spec.FrameLen(spec.DF(d)) && !e.P(8) {
					b := d[0]
					spec.FixFrame(d, spec.DF(d), e)
					d[0] = b
				}
				return data(d)
			}),
			Check: func(c *lib.Case, o *lib.Obs) error { return checkDispatch(c.D, o) },
			Free:  true, Fix: fixFrame,
			Quick: 400000, Thorough: 10000000, EnumX: 20})
		r.Add(&lib.Sub{Name: "the parser of each format",
			Gen: lib.Random(func(e *lib.Ent) *lib.Case {
				df := spec.Formats[e.N(len(spec.Formats))]
				d := e.Mixed(4 + e.N(14))
				if e.P(8) {
					d[0] = byte(df)<<3 | d[0]&7
				} else {
					d = spec.GenFrame(e, df)
				}
				if e.P(4) {
					df = spec.Formats[e.N(len(spec.Formats))]
				} else if e.P(200) {
					l := longLengths(len(d))
					d = append(d, make([]byte, l[e.N(len(l))]-len(d))...)
				}
				return &lib.Case{D: d, N: []int64{int64(df)}}
			}),
			Free: true, Check: checkParser, Quick: 100000})
	})

	add("C04", "the frame is accepted, so that every field is compared with its bits", nil, func(r *lib.Runner) {
		for _, df := range spec.Formats {
			p := specPart(spec.Frames[df], 20000, 4)
			p.Check = func(c *lib.Case, o *lib.Obs) error {
				d := append([]byte{}, c.D...)
				// The frame may be of another format, when its first bits were varied.
				s := spec.Frames[spec.DF(d)]
				if s == nil || s.Len != len(d) {
					o.Class("no such format or length")
					if m, err := spec.ReadFrame(d); err == nil || !spec.IsNil(m) {
						return fmt.Errorf("frame %x is decoded as %T", d, m)
					}
					return nil
				}
				return s.Check(d, o)
			}
			r.Add(p)
		}
	})

	// frameOf is a frame of a format with a parity over the given overlay.
	frameOf := func(e *lib.Ent, df int) []byte {
		d := spec.GenFrame(e, df)
		for !spec.FrameOK(d) || spec.DF(d) != df {
			spec.FixFrame(d, df, e)
		}
		return d
	}

	toMap := func(l []lib.Hex) map[common.ICAOAddress]bool {
		if len(l) == 0 {
			return nil
		}
		m := map[common.ICAOAddress]bool{}
		for _, b := range l {
			if len(b) == 4 {
				m[common.ICAOAddress(uint32(b[0])<<16|uint32(b[1])<<8|uint32(b[2]))] = b[3] != 0
			}
		}
		return m
	}
	add("C07", "every case (each has a correct parity and an identifier to recover)",
		[]string{"an identifier listed with the value false is on the list (lists are sets of keys)"}, func(r *lib.Runner) {
			// data: the frame without parity; n: overlay, mode of the lists; list: the allowed addresses and, after an
			// empty entry, the allowed interrogators.
			r.Add(&lib.Sub{Name: "parity",
				Gen: lib.Random(func(e *lib.Ent) *lib.Case {
					df := spec.Formats[e.N(len(spec.Formats))]
					d := frameOf(e, df)
					overlay := uint32(e.Value(24))
					switch {
					case df == 11 && !e.P(4):
						overlay = uint32(e.N(128))
					case df == 17 || df == 18:
						overlay = 0
					}
					c := &lib.Case{D: d, N: []int64{int64(overlay), int64(e.N(2))}}
					entry := func(a uint32) lib.Hex {
						v := byte(1)
						if e.P(6) {
							v = 0
						}
						return lib.Hex{byte(a >> 16), byte(a >> 8), byte(a), v}
					}
					for k := 0; k < 2; k++ {
						for n := e.N(4); n > 0; n-- {
							a := uint32(e.U64() & 0xFFFFFF)
							switch e.N(5) {
							case 0:
								a = overlay
							case 1:
								a = overlay ^ 1<<uint(e.N(24))
							case 2:
								a = uint32(lib.U(d, 9, 32))
							case 3:
								a = uint32(e.N(3))
							}
							c.L = append(c.L, entry(a))
						}
						if k == 0 {
							c.L = append(c.L, lib.Hex{})
						}
					}
					if e.P(60) { // a long list: its length and what it is made of
						n := 4 << uint(e.N(11))
						c.N = append(c.N, int64(n+e.N(n)), int64(e.U64()>>1))
					}
					return c
				}),
				Check: func(c *lib.Case, o *lib.Obs) error {
					d := append([]byte{}, c.D...)
					df := spec.DF(d)
					overlay := uint32(c.N[0])
					seal(d, overlay)
					m, err := spec.ReadFrame(d)
					if err != nil {
						return fmt.Errorf("frame %x is rejected: %v", d, err)
					}
					var addrs, iis []lib.Hex
					second := false
					for _, l := range c.L {
						if len(l) == 0 {
							second = true
						} else if second {
							iis = append(iis, l)
						} else {
							addrs = append(addrs, l)
						}
					}
					am, im := toMap(addrs), toMap(iis)
					if c.N[1] == 1 { // empty lists rather than none
						if am == nil {
							am = map[common.ICAOAddress]bool{}
						}
						if im == nil {
							im = map[common.ICAOAddress]bool{}
						}
					}
					if len(c.N) > 3 && c.N[2] > 0 {
						e := lib.NewEnt(uint64(c.N[3]))
						long := map[common.ICAOAddress]bool{}
						if (df == 11) != e.P(8) {
							im = long
						} else {
							am = long
						}
						id := overlay
						if df == 17 || df == 18 {
							id = uint32(lib.U(d, 9, 32))
						}
						family, start := e.N(4), uint32(e.U64())
						for i := uint32(0); i < uint32(c.N[2]); i++ {
							a := [...]uint32{uint32(e.U64()), start + i, id ^ uint32(e.U64())<<16, id + uint32(e.N(int(c.N[2]))) + 1}[family]
							long[common.ICAOAddress(a&0xFFFFFF)] = !e.P(8)
						}
						delete(long, common.ICAOAddress(id))
						if e.Bool() {
							long[common.ICAOAddress(id)] = true
						}
						o.Class("a long list")
					}
					o.NonTrivial()
					na, ni := len(am), len(im)
					got, err := reader.CheckCRC(m, d, am, im)
					if len(am) != na || len(im) != ni {
						return fmt.Errorf("frame %x: the lists were modified", d)
					}
					want := common.ICAOAddress(overlay)
					list := am
					switch df {
					case 11:
						list = im
					case 17, 18:
						want, list = common.ICAOAddress(lib.U(d, 9, 32)), nil
					}
					allowed := len(list) == 0
					if _, ok := list[want]; ok {
						allowed = true
					}
					o.Class(fmt.Sprintf("format %d allowed %v list %v", df, allowed, len(list) > 0))
					if !allowed && err == nil {
						return fmt.Errorf("frame %x: identifier %06x is not in the list (%v) and is accepted", d, want, brief(list))
					}
					if allowed && (err != nil || got != want) {
						return fmt.Errorf("frame %x: identifier %06x (error %v), want %06x (addresses %v, interrogators %v)", d, got, err, want, brief(am), brief(im))
					}
					if len(list) == 0 {
						return nil
					}
					// The caller changes the list: an entry is replaced by another one.
					var other common.ICAOAddress
					for a := range list {
						if a != want {
							other = a
							break
						}
					}
					if allowed {
						delete(list, want)
						for other = want ^ 1; ; other++ {
							if _, ok := list[other]; !ok && other != want {
								break
							}
						}
						list[other] = true
					} else {
						delete(list, other)
						list[want] = true
					}
					got, err = reader.CheckCRC(m, d, am, im)
					if allowed && err == nil {
						return fmt.Errorf("frame %x: identifier %06x was removed from the list (%v) and is accepted", d, want, brief(list))
					}
					if !allowed && (err != nil || got != want) {
						return fmt.Errorf("frame %x: identifier %06x was added to the list (%v): %06x (error %v)", d, want, brief(list), got, err)
					}
					return nil
				},
				Free: true, Always: true, FreeN: []int{24, 0, 0, 0},
				Fix: func(c *lib.Case, e *lib.Ent) {
					if df := sealable(c, spec.Formats, e); df == 17 || df == 18 {
						c.N[0] = 0
					}
				},
				Quick: 1000000, Thorough: 25000000})
		})

	add("C08", "every case (a message with a correct parity and a non-empty error pattern)", nil, func(r *lib.Runner) {
		check := func(c *lib.Case, o *lib.Obs) error {
			d := append([]byte{}, c.D...)
			ii := uint32(0)
			df := spec.DF(d)
			if df == 11 {
				ii = uint32(c.N[0])
			}
			seal(d, ii)
			good, err := spec.ReadFrame(d)
			if err != nil {
				return fmt.Errorf("frame %x is rejected: %v", d, err)
			}
			if a, err := reader.CheckCRC(good, d, nil, nil); err != nil || df == 11 && uint32(a) != ii {
				return fmt.Errorf("frame %x: identifier %x error %v", d, a, err)
			}
			x := append([]byte{}, d...)
			n := 0
			for i := range c.E {
				x[i] ^= c.E[i]
				for m := c.E[i]; m != 0; m &= m - 1 {
					n++
				}
			}
			if n == 0 || x[0]>>3 != d[0]>>3 {
				return nil // minimised out of the class
			}
			o.NonTrivial()
			o.Class(fmt.Sprintf("format %d, %d errors", df, n))
			m, err := spec.ReadFrame(x)
			if err != nil {
				return fmt.Errorf("frame %x is rejected: %v", x, err)
			}
			a, err := reader.CheckCRC(m, x, nil, nil)
			if df == 11 {
				if err == nil && uint32(a) == ii {
					return fmt.Errorf("frame %x corrupted as %x: the interrogator %x is still returned", d, x, ii)
				}
				// The same, when the interrogator is required.
				if _, err = reader.CheckCRC(m, x, nil, map[common.ICAOAddress]bool{common.ICAOAddress(ii): true}); err == nil {
					return fmt.Errorf("frame %x corrupted as %x is accepted as a reply to the interrogator %x", d, x, ii)
				}
			} else if err == nil {
				return fmt.Errorf("frame %x corrupted as %x: the parity is accepted", d, x)
			}
			return nil
		}
		dfs := []int{17, 18, 11}
		pattern := func(n int, bitsAt ...int) lib.Hex {
			p := make(lib.Hex, n)
			for _, b := range bitsAt {
				p[b/8] ^= 0x80 >> uint(b%8)
			}
			return p
		}
		r.Add(&lib.Sub{Name: "one and two bits",
			Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
				for k := 0; k < 6; k++ {
					for _, df := range dfs {
						d := frameOf(e, df)
						ii := int64(e.N(128))
						n := 8 * len(d)
						for i := 5; i < n; i++ {
							for j := i; j < n; j++ {
								p := pattern(len(d), i)
								if j > i {
									p = pattern(len(d), i, j)
								}
								yield(&lib.Case{D: d, E: p, N: []int64{ii}})
							}
						}
					}
				}
			}, Check: check, EnumX: 20})
		r.Add(&lib.Sub{Name: "three to five bits and bursts",
			Gen: lib.Random(func(e *lib.Ent) *lib.Case {
				df := dfs[e.N(3)]
				d := frameOf(e, df)
				n := 8 * len(d)
				p := make(lib.Hex, len(d))
				if e.Bool() {
					for k := 3 + e.N(3); k > 0; {
						i := 5 + e.N(n-5)
						if lib.B(p, i+1) {
							continue
						}
						lib.Put(p, i+1, i+1, 1)
						k--
					}
				} else {
					w := 2 + e.N(23)
					a := 5 + e.N(n-5-w+1)
					for i := a; i < a+w; i++ {
						if i == a || i == a+w-1 || e.Bool() {
							lib.Put(p, i+1, i+1, 1)
						}
					}
				}
				return &lib.Case{D: d, E: p, N: []int64{int64(e.N(128))}}
			}), Check: check, Quick: 800000, Thorough: 20000000,
			Free: true, Always: true, KeepE: true, FreeN: []int{7},
			Fix: func(c *lib.Case, e *lib.Ent) { sealable(c, dfs, e) }})
	})

	add("C09", "the squitter is accepted", nil, func(r *lib.Runner) {
		check := func(c *lib.Case, o *lib.Obs) error {
			q := spec.SquitterOf(c)
			v, err := q.Read()
			if err == nil {
				o.NonTrivial()
			}
			o.Class(fmt.Sprintf("type code %d accepted %v", spec.TC(q.D), err == nil))
			if e := q.CheckKind(v, err); e != nil || err != nil {
				return e
			}
			name, typ := spec.InnerType(q.D)
			if name == "" {
				return nil
			}
			in, err := spec.Get(v, name)
			if err != nil {
				return err
			}
			if got := in.Type().String(); got != typ {
				return fmt.Errorf("squitter %x version %d: content decoded as %s, want %s", q.D, q.Version, got, typ)
			}
			return nil
		}
		r.Add(&lib.Sub{Name: "dispatch",
			Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
				for b := 0; b < 256; b++ {
					for _, version := range []int{0, 1, 2, 3, 4, 7, 255} {
						for s := 0; s < 4; s++ {
							for k := 0; k < 24; k++ {
								d := e.Mixed(7)
								d[0] = byte(b)
								if in, _ := spec.Inner(d); in != nil && in.Fix != nil && k < 16 {
									in.Fix(d, e)
									if k < 14 {
										d[0] = byte(b)
									}
								} else if b>>3 == 0 && k < 16 {
									spec.FixAltitude(d, e)
								}
								yield(spec.CaseOf(spec.Squitter{D: d, Version: version, A: s&1 != 0, C: s&2 != 0}))
							}
						}
					}
				}
			},
			Gen: lib.Random(func(e *lib.Ent) *lib.Case {
				return spec.CaseOf(spec.GenSquitter(e, spec.AllTCs...))
			}),
			Free: true, Fields: squitterRanges(spec.AllTCs), Fix: func(c *lib.Case, e *lib.Ent) { fixSquitter(c.D, spec.AllTCs, e) },
			Check: check, Quick: 800000, Thorough: 20000000, EnumX: 20})
		r.Add(&lib.Sub{Name: "the readers of one kind of report",
			Gen: lib.Random(func(e *lib.Ent) *lib.Case {
				q := spec.GenSquitter(e, spec.AllTCs...)
				if tc := spec.TC(q.D); tc == 0 || e.N(40) == 0 {
					q.D[0] = byte(e.N(256))
					if tc == 0 {
						q.D[0] &= 7
					}
				}
				return spec.CaseOf(q)
			}),
			Free: true, Fields: squitterRanges(spec.AllTCs), Fix: func(c *lib.Case, e *lib.Ent) { fixSquitter(c.D, spec.AllTCs, e) },
			Check: checkKindReaders, Quick: 150000, Thorough: 10000000})
		r.Add(&lib.Sub{Name: "wrong length",
			Gen: lib.Random(func(e *lib.Ent) *lib.Case {
				q := spec.GenSquitter(e, spec.AllTCs...)
				n := e.N(15)
				if n >= 7 {
					n++
				}
				if e.P(20) { // much too long
					l := longLengths(7)
					n = l[e.N(len(l))]
				}
				q.D = append(append(q.D, e.Bytes(8)...), make([]byte, n)...)[:n]
				return spec.CaseOf(q)
			}),
			Check: func(c *lib.Case, o *lib.Obs) error {
				if len(c.D) == 7 {
					return nil
				}
				q := spec.SquitterOf(c)
				if v, err := q.Read(); err == nil || !spec.IsNil(v) {
					return fmt.Errorf("squitter %x of a wrong length: decoded as %T", q.D, v)
				}
				return nil
			}, Quick: 20000})
	})
}

var readerOf = func() map[string]*entry {
	m := map[string]*entry{}
	for i := range entries {
		m[entries[i].name] = &entries[i]
	}
	return m
}()

// kindReaders are the readers that decode the same squitter: the one of the kind of report, then the one of the version.
func kindReaders(q spec.Squitter) (names []string) {
	v := fmt.Sprintf("V%d", q.Version)
	known := q.Version >= 0 && q.Version <= 2
	switch tc := spec.TC(q.D); {
	case tc == 0 && lib.U(q.D, 21, 56) == 0:
		return []string{"no_position_information.ReadNoPositionInformation"}
	case tc == 0:
		return []string{"airborne_position.ReadAirbornePosition", "airborne_position.ReadAirbornePositionType0"}
	case tc <= 4:
		return []string{"aircraft_identification_and_category.Read"}
	case tc <= 8:
		names = []string{"surface_position.ReadSurfacePosition"}
		if known {
			names = append(names, names[0]+v)
		}
	case tc == 19:
		return []string{"airborne_velocity.Read"}
	case tc <= 22:
		names = []string{"airborne_position.ReadAirbornePosition"}
		if known {
			names = append(names, names[0]+v)
		}
	case tc == 28:
		return []string{"aircraft_status.Read"}
	case tc == 29:
		return []string{"target_state_and_status.Read"}
	case tc == 31:
		return []string{"aircraft_operational_status.Read"}
	}
	return names
}

// checkKindReaders: reading a squitter with the reader of its kind of report, of its version or of its content is the
// same as reading it with the general reader.
func checkKindReaders(c *lib.Case, o *lib.Obs) error {
	q := spec.SquitterOf(c)
	if len(q.D) != 7 {
		return nil
	}
	p := q.Version & 255
	if q.A {
		p |= 1 << 8
	}
	if q.C {
		p |= 1 << 9
	}
	v, err := q.Read()
	o.Class(fmt.Sprintf("type code %d declared version known %v accepted %v", spec.TC(q.D), q.Version >= 0 && q.Version <= 2, err == nil))
	same := func(name string, want any, wantErr error) error {
		en := readerOf[name]
		if en == nil {
			return fmt.Errorf("harness: no reader %s", name)
		}
		got, gotErr := en.read(append([]byte{}, q.D...), p)
		if (gotErr == nil) != (wantErr == nil) {
			return fmt.Errorf("squitter %x version %d supplements %v %v: %s returns the error %v, the general reader %v", q.D, q.Version, q.A, q.C, name, gotErr, wantErr)
		}
		if gotErr != nil {
			return nil
		}
		o.NonTrivial()
		if a, b := fingerprint(got, nil), fingerprint(want, nil); a != b {
			return fmt.Errorf("squitter %x version %d supplements %v %v: %s and the general reader differ: %s", q.D, q.Version, q.A, q.C, name, differ(a, b))
		}
		return nil
	}
	for _, name := range kindReaders(q) {
		if e := same(name, v, err); e != nil {
			return e
		}
	}
	if err != nil {
		return nil
	}
	name, typ := spec.InnerType(q.D)
	if name == "" {
		return nil
	}
	in, err := spec.Get(v, name)
	if err != nil {
		return err
	}
	pkg, kind, _ := strings.Cut(typ, ".")
	x := reflect.New(in.Type())
	x.Elem().Set(in)
	for _, k := range append([]string{kind}, generalOf[pkg]...) {
		if e := same(pkg+".Read"+k, x.Interface(), nil); e != nil {
			return e
		}
	}
	return nil
}

// generalOf are the readers of the contents with several layouts.
var generalOf = map[string][]string{"bds09": {"AirborneVelocity"}, "bds61": {"AircraftStatus"}, "bds62": {"TargetStateAndStatus"}, "bds65": {"AircraftOperationalStatus"}}

func parser[T messages.ModeSMessage](f func(common.MessageData) (T, error)) func(common.MessageData) (messages.ModeSMessage, error) {
	return func(m common.MessageData) (messages.ModeSMessage, error) { v, err := f(m); return v, err }
}

var parsers = map[int]func(common.MessageData) (messages.ModeSMessage, error){
	0: parser(messages.ParseDF0), 4: parser(messages.ParseDF4), 5: parser(messages.ParseDF5), 11: parser(messages.ParseDF11),
	16: parser(messages.ParseDF16), 17: parser(messages.ParseDF17), 18: parser(messages.ParseDF18), 19: parser(messages.ParseDF19),
	20: parser(messages.ParseDF20), 21: parser(messages.ParseDF21), 24: parser(messages.ParseDF24),
}

// checkParser: the parser of a format accepts exactly the frames of its format, and decodes them as the reader does.
func checkParser(c *lib.Case, o *lib.Obs) error {
	if len(c.D) < 4 || len(c.N) == 0 || parsers[int(c.N[0])] == nil {
		return nil
	}
	d := append([]byte{}, c.D...)
	n := len(d)
	df := int(c.N[0])
	v, err := parsers[df](common.MessageData{DownLinkFormat: d[0] >> 3, FirstField: d[0] & 7, Payload: d[1 : n-3], Parity: d[n-3:]})
	want := spec.DF(d) == df && spec.FrameOK(d)
	o.Class(fmt.Sprintf("parser of format %d accepts %v", df, want))
	if (err == nil) != want || !want && !spec.IsNil(v) {
		return fmt.Errorf("frame %x: the parser of format %d returns the value %v and the error %v", d, df, !spec.IsNil(v), err)
	}
	if !want {
		return nil
	}
	o.NonTrivial()
	m, err := spec.ReadFrame(append([]byte{}, d...))
	if err != nil {
		return fmt.Errorf("frame %x is rejected: %v", d, err)
	}
	if a, b := fingerprint(v, nil), fingerprint(m, nil); a != b {
		return fmt.Errorf("frame %x: the parser of format %d and the reader differ: %s", d, df, differ(a, b))
	}
	return nil
}
