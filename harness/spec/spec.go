// Package spec holds the layout tables (the oracles) of the registers and squitters, and the
// machinery that generates messages from a layout and compares a decoded value with it.
package spec

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"sync"

	"github.com/twuillemin/modes/pkg/bds/register"
	"verif/harness/lib"
)

// Val is an expected value: kind 'i' (integer or enumeration), 'f', 'b' or 's'.
type Val struct {
	K byte
	I int64
	F float64
	S string
}

func (v Val) String() string {
	switch v.K {
	case 'i':
		return fmt.Sprint(v.I)
	case 'b':
		return fmt.Sprint(v.I != 0)
	case 'f':
		return fmt.Sprint(v.F)
	}
	return fmt.Sprintf("%q", v.S)
}

// VI, VF, VB and VS make expected values.
func VI(i int64) Val   { return Val{K: 'i', I: i} }
func VF(f float64) Val { return Val{K: 'f', F: f} }
func VS(s string) Val  { return Val{K: 's', S: s} }
func VB(b bool) Val {
	if b {
		return Val{K: 'b', I: 1}
	}
	return Val{K: 'b'}
}

// F is a decoded field: its path in the decoded value, the bits it depends on (A..Z, 0 when derived
// from bits of other fields) and its expected value.
type F struct {
	Path string
	A, Z int
	W    func(d []byte) Val
}

// u is a field equal to its bits.
func u(path string, a, z int) F {
	return F{path, a, z, func(d []byte) Val { return VI(int64(lib.U(d, a, z))) }}
}

// bo is a one-bit flag.
func bo(path string, a int) F {
	return F{path, a, a, func(d []byte) Val { return VB(lib.B(d, a)) }}
}

// num is a floating point number computed from the bits.
func num(path string, a, z int, f func(d []byte) float64) F {
	return F{path, a, z, func(d []byte) Val { return VF(f(d)) }}
}

// in is an integer computed from the bits.
func in(path string, a, z int, f func(d []byte) int64) F {
	return F{path, a, z, func(d []byte) Val { return VI(f(d)) }}
}

// flag is a boolean computed from the bits.
func flag(path string, a, z int, f func(d []byte) bool) F {
	return F{path, a, z, func(d []byte) Val { return VB(f(d)) }}
}

// str is a text computed from the bits.
func str(path string, a, z int, f func(d []byte) string) F {
	return F{path, a, z, func(d []byte) Val { return VS(f(d)) }}
}

// scaled is bits*step+offset.
func scaled(path string, a, z int, step, offset float64) F {
	return num(path, a, z, func(d []byte) float64 { return float64(lib.U(d, a, z))*step + offset })
}

// signed is a two's complement number with its sign at bit s: value*step.
func signed(path string, s, a, z int, step float64) F {
	return num(path, s, z, func(d []byte) float64 { return float64(lib.Sign(d, s, a, z)) * step })
}

// Spec describes a decoder.
type Spec struct {
	Name   string
	Len    int
	Fields []F
	// Valid says whether the bytes must be accepted.
	Valid func(d []byte) bool
	// Fix makes the bytes acceptable.
	Fix func(d []byte, e *lib.Ent)
	// Decode runs the code under test.
	Decode func(d []byte) (any, error)
	// Extra is checked on a decoded value.
	Extra func(v any, d []byte, o *lib.Obs) error
	// Coherent is the model of the coherency verdict.
	Coherent func(d []byte) bool
	// Relaxed is a deviation from the model that is listed as a known finding under the key.
	Relaxed func(d []byte) (bool, string)
	// Cohere makes the bytes (often) coherent.
	Cohere func(d []byte, e *lib.Ent)
	// Cells are other bit ranges worth enumerating.
	Cells [][2]int
}

// IsNil says whether a value holds nothing.
func IsNil(v any) bool {
	if v == nil {
		return true
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface:
		return r.IsNil()
	}
	return false
}

type pathKey struct {
	t reflect.Type
	n string
}

var (
	pathMu    sync.RWMutex
	pathCache = map[pathKey][]int{}
)

func fieldIndex(t reflect.Type, n string) []int {
	k := pathKey{t, n}
	pathMu.RLock()
	ix, ok := pathCache[k]
	pathMu.RUnlock()
	if ok {
		return ix
	}
	f, found := t.FieldByName(n)
	if !found {
		panic(lib.HarnessError{Msg: fmt.Sprintf("no field %s in %s", n, t)})
	}
	pathMu.Lock()
	pathCache[k] = f.Index
	pathMu.Unlock()
	return f.Index
}

// Get returns the field at the path of a decoded value.
func Get(v any, path string) (reflect.Value, error) {
	r := reflect.ValueOf(v)
	deref := func() error {
		for r.Kind() == reflect.Ptr || r.Kind() == reflect.Interface {
			if r.IsNil() {
				return fmt.Errorf("%s: nothing was decoded", path)
			}
			r = r.Elem()
		}
		return nil
	}
	for path != "" {
		n := path
		if i := strings.IndexByte(path, '.'); i >= 0 {
			n, path = path[:i], path[i+1:]
		} else {
			path = ""
		}
		if strings.HasSuffix(n, "()") {
			if (r.Kind() == reflect.Ptr || r.Kind() == reflect.Interface) && r.IsNil() {
				return r, fmt.Errorf("%s: nothing was decoded", n)
			}
			m := r.MethodByName(n[:len(n)-2])
			if !m.IsValid() {
				panic(lib.HarnessError{Msg: fmt.Sprintf("no method %s in %s", n, r.Type())})
			}
			out := m.Call(nil)
			if len(out) > 1 && !out[1].IsNil() {
				return r, fmt.Errorf("%s: %v", n, out[1])
			}
			r = out[0]
			continue
		}
		if err := deref(); err != nil {
			return r, err
		}
		r = r.FieldByIndex(fieldIndex(r.Type(), n))
	}
	return r, deref()
}

// Same compares a decoded field with an expected value.
func Same(r reflect.Value, w Val) error {
	switch w.K {
	case 'i':
		var i int64
		switch r.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			i = r.Int()
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			i = int64(r.Uint())
		case reflect.Float32, reflect.Float64:
			if lib.Near(r.Float(), float64(w.I)) {
				return nil
			}
			return fmt.Errorf("got %v, want %v", r.Float(), w)
		case reflect.Bool:
			if r.Bool() {
				i = 1
			}
		default:
			panic(lib.HarnessError{Msg: "kind " + r.Kind().String()})
		}
		if i != w.I {
			return fmt.Errorf("got %v, want %v", i, w)
		}
	case 'f':
		var f float64
		switch r.Kind() {
		case reflect.Float32, reflect.Float64:
			f = r.Float()
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			f = float64(r.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			f = float64(r.Uint())
		default:
			panic(lib.HarnessError{Msg: "kind " + r.Kind().String()})
		}
		if math.IsNaN(f) || !lib.Near(f, w.F) {
			return fmt.Errorf("got %v, want %v", f, w)
		}
	case 'b':
		var b bool
		switch r.Kind() {
		case reflect.Bool:
			b = r.Bool()
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			b = r.Int() != 0
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			b = r.Uint() != 0
		}
		if b != (w.I != 0) {
			return fmt.Errorf("got %v, want %v", b, w)
		}
	case 's':
		if b, ok := AsBytes(r); ok {
			if string(b) != w.S {
				return fmt.Errorf("got bytes %x, want %x", b, w.S)
			}
			return nil
		}
		if r.Kind() != reflect.String {
			panic(lib.HarnessError{Msg: "kind " + r.Kind().String()})
		}
		if r.String() != w.S {
			return fmt.Errorf("got %q, want %q", r.String(), w.S)
		}
	}
	return nil
}

// Compare compares every field.
func (s *Spec) Compare(v any, d []byte) error {
	for i := range s.Fields {
		f := &s.Fields[i]
		r, err := Get(v, f.Path)
		if err == nil {
			err = Same(r, f.W(d))
		}
		if err != nil {
			return fmt.Errorf("%s: field %s (bits %d-%d): %v", s.Name, f.Path, f.A, f.Z, err)
		}
	}
	return nil
}

// Check decodes the data and compares it.
func (s *Spec) Check(d []byte, o *lib.Obs) error {
	v, err := s.Decode(d)
	if s.Valid == nil || s.Valid(d) {
		if err != nil {
			return fmt.Errorf("%s: acceptable data is rejected: %v", s.Name, err)
		}
		if IsNil(v) {
			return fmt.Errorf("%s: no value and no error", s.Name)
		}
		o.NonTrivial()
		o.Class(s.Name + " accepted")
		if err = s.Compare(v, d); err != nil {
			return err
		}
		if m, ok := v.(interface{ GetRegister() register.Register }); ok && strings.HasPrefix(s.Name, "BDS ") {
			if got, want := m.GetRegister().GetId(), s.Name[:7]; got != want {
				return fmt.Errorf("%s: the decoded value says it is the register %q", s.Name, got)
			}
		}
		if s.Extra != nil {
			return s.Extra(v, d, o)
		}
		return nil
	}
	o.Class(s.Name + " rejected")
	if err == nil {
		return fmt.Errorf("%s: data with a wrong identifier or reserved bits is accepted as %+v", s.Name, v)
	}
	if !IsNil(v) {
		return fmt.Errorf("%s: an error comes with a value", s.Name)
	}
	return nil
}

// Ranges are the distinct bit ranges of the fields.
func (s *Spec) Ranges() [][2]int {
	seen := map[[2]int]bool{}
	var out [][2]int
	add := func(r [2]int) {
		if r[0] > 0 && !seen[r] {
			seen[r] = true
			out = append(out, r)
		}
	}
	for _, f := range s.Fields {
		add([2]int{f.A, f.Z})
	}
	for _, c := range s.Cells {
		add(c)
	}
	return out
}

// Gen makes the bytes of a message.
func (s *Spec) Gen(e *lib.Ent) []byte {
	d := e.Mixed(s.Len)
	for _, r := range s.Ranges() {
		if e.P(3) {
			lib.Put(d, r[0], r[1], e.Value(r[1]-r[0]+1))
		}
	}
	if e.P(12) {
		e.Extremes(d, s.Ranges())
	}
	if e.P(10) {
		e.Copies(d, s.Ranges())
	}
	if s.Cohere != nil && e.P(3) {
		s.Cohere(d, e)
	}
	if s.Fix != nil && !e.P(12) {
		s.Fix(d, e)
		if e.P(10) {
			OneBit(d, e)
		}
	}
	return d
}

// Enum enumerates every value of every range in several surroundings.
func (s *Spec) Enum(e *lib.Ent, backgrounds int, yield func(d []byte)) {
	for _, r := range s.Ranges() {
		w := r[1] - r[0] + 1
		n := 1 << uint(w)
		if w > 13 {
			n = 8192
		}
		for i := 0; i < n; i++ {
			v := uint64(i)
			if w > 13 {
				v = e.Value(w)
				if i < w {
					v = 1 << uint(i)
				}
			}
			for k := 0; k < backgrounds+2; k++ {
				var d []byte
				switch k {
				case 0:
					d = make([]byte, s.Len)
				case 1:
					d = make([]byte, s.Len)
					for j := range d {
						d[j] = 0xFF
					}
				default:
					d = e.Mixed(s.Len)
				}
				lib.Put(d, r[0], r[1], v)
				if s.Fix != nil && !(k > 2 && e.P(8)) {
					s.Fix(d, e)
				}
				yield(d)
			}
		}
	}
	Pairs(s.Ranges(), e, func() []byte { return e.Mixed(s.Len) }, func(d []byte) {
		if s.Fix != nil {
			s.Fix(d, e)
		}
		yield(d)
	})
	if s.Fix != nil && s.Valid != nil {
		// Every single bit (and pair of bits) away from an acceptable message.
		for k := 0; k < backgrounds; k++ {
			d := e.Mixed(s.Len)
			s.Fix(d, e)
			for i := 1; i <= 8*s.Len; i++ {
				for j := i; j <= 8*s.Len; j++ {
					x := append([]byte(nil), d...)
					x[(i-1)/8] ^= 0x80 >> uint((i-1)%8)
					if j != i {
						x[(j-1)/8] ^= 0x80 >> uint((j-1)%8)
					}
					yield(x)
				}
			}
		}
	}
}

// Pairs enumerates the values of every two ranges together: all of them when they are narrow, otherwise the extremes,
// the powers of two and some others. The other bits are those of the background.
func Pairs(ranges [][2]int, e *lib.Ent, background func() []byte, yield func(d []byte)) {
	values := func(w, room int) []uint64 {
		var out []uint64
		if w <= room {
			for v := uint64(0); v < 1<<uint(w); v++ {
				out = append(out, v)
			}
			return out
		}
		max := uint64(1)<<uint(w) - 1
		out = append(out, 0, 1, 2, max-1, max, max/2)
		for i := 2; i < w; i++ {
			out = append(out, 1<<uint(i))
		}
		for i := 0; i < 8; i++ {
			out = append(out, e.U64()&max)
		}
		return out
	}
	for i, a := range ranges {
		for _, b := range ranges[i+1:] {
			if a[0] <= b[1] && b[0] <= a[1] {
				continue
			}
			wa, wb := a[1]-a[0]+1, b[1]-b[0]+1
			ra, rb := 6, 6
			if wa+wb <= 13 {
				ra, rb = 13, 13
			} else if wa < 6 {
				rb = 13 - wa
			} else if wb < 6 {
				ra = 13 - wb
			}
			vb := values(wb, rb)
			for _, x := range values(wa, ra) {
				for _, y := range vb {
					d := background()
					lib.Put(d, a[0], a[1], x)
					lib.Put(d, b[0], b[1], y)
					yield(d)
				}
			}
		}
	}
}

// Prefixed returns fields with a prefix on their paths.
func Prefixed(p string, fs []F) []F {
	out := make([]F, len(fs))
	for i, f := range fs {
		f.Path = p + "." + f.Path
		out[i] = f
	}
	return out
}

func join(parts ...[]F) []F {
	var out []F
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func zero(d []byte, ranges ...int) bool {
	for i := 0; i < len(ranges); i += 2 {
		if lib.U(d, ranges[i], ranges[i+1]) != 0 {
			return false
		}
	}
	return true
}

func clear(d []byte, ranges ...int) {
	for i := 0; i < len(ranges); i += 2 {
		lib.Put(d, ranges[i], ranges[i+1], 0)
	}
}

// OneBit changes one bit after the type code: it is one bit away from what is accepted, perhaps.
func OneBit(d []byte, e *lib.Ent) {
	if i := 5 + e.N(8*len(d)-5); i/8 < len(d) {
		d[i/8] ^= 0x80 >> uint(i%8)
	}
}
