//go:build c25

package props

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"verif/harness/lib"
	"verif/harness/spec"
)

// The reviewed texts of the codes: those having a text of their own, and the text of the others, where %v is
// the code.
//
//go:embed labels.json
var labelsJSON []byte

type labelTable struct {
	Texts   map[int]string `json:"texts"`
	Default string         `json:"default"`
}

var labels = func() map[string]labelTable {
	m := map[string]labelTable{}
	if err := json.Unmarshal(labelsJSON, &m); err != nil {
		panic(err)
	}
	return m
}()

func (t labelTable) text(code int) string {
	if s, ok := t.Texts[code]; ok {
		return s
	}
	return strings.ReplaceAll(t.Default, "%v", fmt.Sprint(code))
}

// The texts of the types having too many codes for a table.
var wide = map[string]func(u uint64) string{
	"acas/ra/fields.ThreatIdentityAddress":   hexAddress,
	"modes/common.ICAOAddress":               hexAddress,
	"bds/bds06/fields.EncodedLatitude":       func(u uint64) string { return fmt.Sprint(u) },
	"bds/bds06/fields.EncodedLongitude":      func(u uint64) string { return fmt.Sprint(u) },
	"bds/bds10/fields.DTESubAddressStatuses": func(u uint64) string { return strings.Join(strings.Split(fmt.Sprintf("%016b", u), ""), ", ") },
}

func hexAddress(u uint64) string {
	return fmt.Sprintf("%02X %02X %02X", byte(u>>16), byte(u>>8), byte(u))
}

var messageNames = map[string]string{
	"MessageDF0": "Short air-air surveillance (ACAS)", "MessageDF4": "Surveillance, altitude reply", "MessageDF5": "Surveillance, identify reply",
	"MessageDF11": "All-call reply", "MessageDF16": "Long air-air surveillance (ACAS)", "MessageDF17": "Extended squitter",
	"MessageDF18": "Extended squitter/non transponder", "MessageDF19": "Military extended squitter", "MessageDF20": "Comm-B altitude reply",
	"MessageDF21": "Comm-B identify reply", "MessageDF24": "Comm-D (ELM)",
}

var registerNames = map[string]string{
	"bds00": "BDS 0,0 - No message waiting for transmission", "bds05": "BDS 0,5 - Extended squitter airborne position",
	"bds06": "BDS 0,6 - Extended squitter surface position", "bds07": "BDS 0,7 - Extended squitter status",
	"bds08": "BDS 0,8 - Extended squitter aircraft identification and category", "bds09": "BDS 0,9 - Extended squitter airborne velocity",
	"bds10": "BDS 1,0 - Data link capability report", "bds17": "BDS 1,7 - Common usage GICB capability report",
	"bds20": "BDS 2,0 - Aircraft identification", "bds30": "BDS 3,0 - ACAS active resolution advisory",
	"bds40": "BDS 4,0 - Selected vertical intention", "bds44": "BDS 4,4 - Meteorological routine air report",
	"bds45": "BDS 4,5 - Meteorological hazard report", "bds50": "BDS 5,0 - Track and turn report", "bds60": "BDS 6,0 - Heading and speed report",
	"bds61": "BDS 6,1 - Extended squitter emergency/priority status", "bds62": "BDS 6,2 - Target state and status information", "bds65": "BDS 6,5 - Extended squitter aircraft operational status",
}

// squeeze makes texts comparable: spaces are merged and the case is ignored.
func squeeze(s string) string { return strings.ToLower(strings.Join(strings.Fields(s), " ")) }

func typeName(t reflect.Type) string {
	return strings.TrimPrefix(t.PkgPath(), ours+"/pkg/") + "." + t.Name()
}

// A renderer writes the report that a decoded value should have.
type renderer struct {
	p      int // the parameter given to the reader
	values int // the decoded values written
	err    error
}

func (r *renderer) fail(f string, a ...any) string {
	if r.err == nil {
		r.err = fmt.Errorf(f, a...)
	}
	return ""
}

// render is the text of a value.
func (r *renderer) render(v reflect.Value) string {
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return r.fail("a nil value where a decoded one is expected")
		}
		v = v.Elem()
	}
	n := typeName(v.Type())
	if t, ok := labels[n]; ok {
		r.values++
		return t.text(asInt(v))
	}
	if f, ok := wide[n]; ok {
		r.values++
		return f(uint64(asInt(v)))
	}
	if lines, ok := reports[n]; ok {
		var out []string
		for _, l := range lines {
			parts := strings.Split(l.text, "\x00")
			s := parts[0]
			for i, p := range l.paths {
				s += r.at(v, p) + parts[i+1]
			}
			out = append(out, s)
		}
		return strings.Join(out, "\n")
	}
	switch n {
	case "acas/ra.ResolutionAdvisory":
		return r.advisory(v)
	case "modes/fields.AddressAnnounced":
		r.values++
		return hexAddress(v.FieldByName("Address").Uint())
	case "modes/fields.Identity":
		r.values++
		s := v.FieldByName("Identity").String()
		return s + map[string]string{"7700": " [Emergency]", "7600": " [Radiocommunication Failure]", "7500": " [Unlawful Interference]", "2000": " [Instruction Not Received]"}[s]
	case "modes/fields.MessageACAS":
		r.values++
		b, _ := spec.AsBytes(v)
		return fmt.Sprint([]byte(b))
	case "modes/fields.MessageCommB", "modes/fields.MessageCommD", "modes/fields.MessageExtendedSquitter":
		r.values++
		b, _ := spec.AsBytes(v)
		return fmt.Sprintf("% X", []byte(b))
	}
	switch v.Kind() {
	case reflect.Bool, reflect.String, reflect.Float32, reflect.Float64, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		r.values++
		return fmt.Sprint(v.Interface())
	}
	return r.fail("no expected report for %s", n)
}

func asInt(v reflect.Value) int {
	if v.CanInt() {
		return int(v.Int())
	}
	return int(v.Uint())
}

// at is the text of what a path designates in a value.
func (r *renderer) at(v reflect.Value, path string) string {
	switch path {
	case "@A":
		return fmt.Sprint(supA(r.p))
	case "@C":
		return fmt.Sprint(supC(r.p))
	case "@speed", "@track":
		m, unit := "GetSpeed", " (knots)"
		if path == "@track" {
			m, unit = "GetTrack", " (degrees)"
		}
		out := v.MethodByName(m).Call(nil)
		if !out[1].IsNil() {
			return "not computable"
		}
		return fmt.Sprint(out[0].Interface()) + unit
	case "GetRegister()":
		p := v.Type().PkgPath()
		return registerNames[p[strings.LastIndex(p, "/")+1:]]
	case "GetName()":
		return messageNames[v.Type().Name()]
	case "GetDownLinkFormat()":
		return strings.TrimPrefix(v.Type().Name(), "MessageDF")
	}
	if strings.HasSuffix(path, "()") {
		name := strings.TrimSuffix(path, "()")
		m := v.MethodByName(name)
		if !m.IsValid() && v.CanAddr() {
			m = v.Addr().MethodByName(name)
		}
		if !m.IsValid() {
			return r.fail("%s has no %s", v.Type(), path)
		}
		return r.render(m.Call(nil)[0])
	}
	f := v.FieldByName(path)
	if !f.IsValid() {
		return r.fail("%s has no %s", v.Type(), path)
	}
	return r.render(f)
}

// advisory is the report of a resolution advisory: the threat is shown as its type says.
func (r *renderer) advisory(v reflect.Value) string {
	lines := []string{
		"Active Resolution Advisory:", r.at(v, "ActiveRA"),
		"Active Resolution Advisory Complement:", r.at(v, "RAComplement"),
		"Active Resolution Advisory Terminated Indicator: " + r.at(v, "RATerminatedIndicator"),
		"Multiple Threat Encounter: " + r.at(v, "MultipleThreatEncounter"),
		"Threat Type Indicator: " + r.at(v, "ThreatTypeIndicator"),
	}
	switch asInt(v.FieldByName("ThreatTypeIndicator")) {
	case 1:
		lines = append(lines, "Threat Mode-S Identity: "+r.at(v, "ThreatIdentityAddress"))
	case 2:
		lines = append(lines, "Threat Altitude: "+r.at(v, "ThreatIdentityAltitude"), "Threat Range: "+r.at(v, "ThreatIdentityRange"), "Threat Bearing: "+r.at(v, "ThreatIdentityBearing"))
	}
	return strings.Join(lines, "\n")
}

// lacks is the first line of want that is not, in order, among the lines of got.
func lacks(got, want string) (string, bool) {
	g := strings.Split(got, "\n")
	i := 0
	for _, l := range strings.Split(want, "\n") {
		w := squeeze(l)
		if w == "" {
			continue
		}
		for ; i < len(g); i++ {
			x := squeeze(g[i])
			if x == w || strings.HasSuffix(w, "not computable") && strings.HasPrefix(x, w) {
				break
			}
		}
		if i == len(g) {
			return l, true
		}
		i++
	}
	return "", false
}

// texts lists the meaning of what a value contains: the texts of its coded fields and its other values.
func texts(where string, v reflect.Value, out map[string]string) {
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			out[where] = "nil"
			return
		}
		v = v.Elem()
	}
	n := typeName(v.Type())
	if t, ok := labels[n]; ok {
		out[where] = squeeze(t.text(asInt(v)))
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.IsExported() && f.Name != "MessageData" {
				texts(where+"."+f.Name, v.Field(i), out)
			}
		}
	case reflect.Slice, reflect.Array:
		b, _ := spec.AsBytes(v)
		out[where] = fmt.Sprintf("%x", b)
	case reflect.Func, reflect.Map, reflect.Chan:
	default:
		out[where] = fmt.Sprint(v.Interface())
	}
}

type printable interface{ ToString() string }

func reportOf(en *entry, d []byte, p int) (printable, error) {
	v, err := en.read(append([]byte{}, d...), p)
	if err != nil || spec.IsNil(v) {
		return nil, err
	}
	s, ok := v.(printable)
	if !ok {
		return nil, nil
	}
	return s, nil
}

// entryOf is the reader of a case, nil when the minimiser made a case without one.
func entryOf(c *lib.Case) *entry {
	for i := range entries {
		if len(c.S) == 1 && len(c.N) == 1 && entries[i].name == c.S[0] {
			return &entries[i]
		}
	}
	return nil
}

// pickEntry picks a reader: the frames and the squitters, having many forms, more often.
func pickEntry(e *lib.Ent) *entry {
	switch e.N(8) {
	case 0, 1:
		return &entries[0]
	case 2:
		return &entries[1]
	}
	return &entries[e.N(len(entries))]
}

func genParam(e *lib.Ent) int64 { return int64(e.N(3)) | int64(e.N(4))<<8 }

func init() {
	add("C25", "a code of a coded field, or a message accepted by its reader whose report shows at least one decoded value", []string{
		"the texts of the codes and the captions of the reports were reviewed once against the standards and then frozen: spelling and abbreviations are the library's",
	}, func(r *lib.Runner) {
		byName := map[string]labelled{}
		for _, l := range labelledTypes {
			byName[l.name] = l
		}
		r.Add(&lib.Sub{
			Name: "texts of the codes",
			Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
				for _, l := range labelledTypes {
					for code := 0; code < 256; code++ {
						yield(&lib.Case{S: []string{l.name}, N: []int64{int64(code)}})
					}
				}
			},
			Check: func(c *lib.Case, o *lib.Obs) error {
				if len(c.S) == 0 || len(c.N) == 0 || byName[c.S[0]].text == nil {
					return nil
				}
				l, code := byName[c.S[0]], int(c.N[0])
				if f, ok := wide[l.name]; ok {
					o.NonTrivial()
					if got, want := l.text(code), f(uint64(code)); squeeze(got) != squeeze(want) {
						return fmt.Errorf("%s %d is shown as %q, want %q", l.name, code, got, want)
					}
					return nil
				}
				t, ok := labels[l.name]
				if !ok {
					panic(lib.HarnessError{Msg: "no reviewed texts for " + l.name})
				}
				got := l.text(code)
				if _, ok := t.Texts[code]; ok {
					o.NonTrivial()
					o.Class("a code having a text")
				} else {
					o.Class("a code without meaning")
				}
				if squeeze(got) != squeeze(t.text(code)) {
					return fmt.Errorf("%s %d is shown as %q, want %q", l.name, code, got, t.text(code))
				}
				// Two codes share a text only where both are reserved.
				for other := range t.Texts {
					x := l.text(other)
					if other != code && squeeze(x) == squeeze(got) && !strings.Contains(strings.ToLower(x), "reserved") {
						return fmt.Errorf("%s: the codes %d and %d are both shown as %q", l.name, code, other, got)
					}
				}
				return nil
			},
		})
		r.Add(&lib.Sub{
			Name: "texts of addresses and wide fields",
			Gen: lib.Random(func(e *lib.Ent) *lib.Case {
				names := []string{"acas/ra/fields.ThreatIdentityAddress", "modes/common.ICAOAddress", "bds/bds06/fields.EncodedLatitude", "bds/bds06/fields.EncodedLongitude", "bds/bds10/fields.DTESubAddressStatuses"}
				n := names[e.N(len(names))]
				w := map[string]int{"bds/bds06/fields.EncodedLatitude": 17, "bds/bds06/fields.EncodedLongitude": 17, "bds/bds10/fields.DTESubAddressStatuses": 16}[n]
				if w == 0 {
					w = 24
				}
				return &lib.Case{S: []string{n}, N: []int64{int64(e.Value(w))}}
			}),
			Check: func(c *lib.Case, o *lib.Obs) error {
				if len(c.S) == 0 || len(c.N) == 0 {
					return nil
				}
				l, f := byName[c.S[0]], wide[c.S[0]]
				if l.text == nil || f == nil {
					return nil
				}
				o.NonTrivial()
				if got, want := l.text(int(c.N[0])), f(uint64(c.N[0])); squeeze(got) != squeeze(want) {
					return fmt.Errorf("%s %x is shown as %q, want %q", l.name, c.N[0], got, want)
				}
				return nil
			},
			Quick: 20000,
		})
		r.Add(&lib.Sub{
			Name: "reports",
			Gen: lib.Random(func(e *lib.Ent) *lib.Case {
				en := pickEntry(e)
				d := en.gen(e)
				return &lib.Case{S: []string{en.name}, D: d, N: []int64{genParam(e)}}
			}),
			Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
				for _, df := range spec.Formats {
					spec.Frames[df].Enum(e, 1, func(d []byte) {
						yield(&lib.Case{S: []string{entries[0].name}, D: d, N: []int64{0}})
					})
				}
			},
			EnumX: 10,
			Check: func(c *lib.Case, o *lib.Obs) error {
				en := entryOf(c)
				if en == nil {
					return nil
				}
				v, err := reportOf(en, c.D, int(c.N[0]))
				if v == nil || err != nil {
					o.Class("rejected")
					return nil
				}
				rd := &renderer{p: int(c.N[0])}
				want := rd.render(reflect.ValueOf(v))
				if rd.err != nil {
					return fmt.Errorf("%T: %v", v, rd.err)
				}
				if rd.values > 0 {
					o.NonTrivial()
				}
				o.Class(typeName(reflect.Indirect(reflect.ValueOf(v)).Type()))
				got := v.ToString()
				if l, missing := lacks(got, want); missing {
					return fmt.Errorf("the report of the %T lacks, or has not in its place, the line %q:\n%s", v, l, got)
				}
				return nil
			},
			Free: true, Quick: 400000,
		})
		r.Add(&lib.Sub{
			Name: "different values, different reports",
			Gen: lib.Random(func(e *lib.Ent) *lib.Case {
				en := pickEntry(e)
				d := en.gen(e)
				d2 := append([]byte{}, d...)
				for k := 1 + e.N(2); k > 0; k-- {
					// A neighbouring value: some bits of a group are changed.
					i := e.N(8 * len(d2))
					d2[i/8] ^= 0x80 >> uint(i%8)
					if e.Bool() && i > 0 {
						i--
						d2[i/8] ^= 0x80 >> uint(i%8)
					}
				}
				return &lib.Case{S: []string{en.name}, D: d, E: d2, N: []int64{genParam(e)}}
			}),
			Check: func(c *lib.Case, o *lib.Obs) error {
				en := entryOf(c)
				if en == nil {
					return nil
				}
				a, err := reportOf(en, c.D, int(c.N[0]))
				if a == nil || err != nil {
					o.Class("rejected")
					return nil
				}
				b, err := reportOf(en, c.E, int(c.N[0]))
				if b == nil || err != nil {
					o.Class("rejected")
					return nil
				}
				x, y := map[string]string{}, map[string]string{}
				texts("value", reflect.ValueOf(a), x)
				texts("value", reflect.ValueOf(b), y)
				diff := ""
				for k, s := range x {
					if t, ok := y[k]; ok && s != t && (diff == "" || k < diff) {
						diff = k
					}
				}
				if diff == "" {
					o.Class("no decoded value differs")
					return nil
				}
				o.NonTrivial()
				o.Class("a decoded value differs")
				if a.ToString() == b.ToString() {
					return fmt.Errorf("%T: %s is %q in one and %q in the other, and both have the same report:\n%s", a, diff, x[diff], y[diff], a.ToString())
				}
				return nil
			},
			Free: true, Quick: 400000,
		})
	})
}
