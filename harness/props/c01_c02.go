package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"unsafe"

	"github.com/twuillemin/modes/pkg/geo"
	"github.com/twuillemin/modes/pkg/modes/common"
	"github.com/twuillemin/modes/pkg/modes/messages"
	msreader "github.com/twuillemin/modes/pkg/modes/reader"
	"verif/harness/lib"
	"verif/harness/spec"
)

// allowLists makes the allow-lists of a parameter: none, empty, or of some identifiers.
func allowLists(p int) (a, b map[common.ICAOAddress]bool) {
	mk := func(k int) map[common.ICAOAddress]bool {
		switch k & 3 {
		case 0:
			return nil
		case 1:
			return map[common.ICAOAddress]bool{}
		case 2:
			return map[common.ICAOAddress]bool{0: true, 1: false, 0x4840D6: true}
		}
		return map[common.ICAOAddress]bool{0xFFFFFF: true}
	}
	return mk(p), mk(p >> 2)
}

// readEntry calls the reader of a message; the bytes outside of the slice, and those in it, must stay as they are.
func readEntry(en *entry, d []byte, p int) (v any, err error, bad error) {
	var arg []byte
	var whole []byte
	if d != nil {
		// The slice is a window in a larger array: its capacity shows reads or writes past its end.
		whole = append(append([]byte{0xA5, 0x5A, 0xC3}, d...), 0x3C, 0x99, 0x66, 0x17)
		arg = whole[3 : 3+len(d)]
	}
	before := append([]byte{}, whole...)
	v, err = en.read(arg, p)
	if !bytes.Equal(before, whole) {
		bad = fmt.Errorf("%s(%x) changed its input to %x", en.name, d, whole)
	}
	return
}

func caseOfEntry(e *lib.Ent) (i int, d []byte) {
	i = e.N(len(entries))
	en := &entries[i]
	switch e.N(12) {
	case 0: // any length
		d = e.Mixed(e.N(65))
	case 1: // a wrong length around the right one
		d = en.gen(e)
		if n := e.N(16); n < len(d) {
			d = d[:n]
		} else {
			d = append(d, e.Bytes(n-len(d))...)
		}
	case 2:
		d = e.Mixed(en.lens[e.N(len(en.lens))])
	case 3: // the message of another reader
		d = entries[e.N(len(entries))].gen(e)
	default:
		d = en.gen(e)
		for k := e.N(4); k > 0; k-- {
			if e.P(2) {
				b := 1 + e.N(8*len(d))
				lib.Put(d, b, b, 1-lib.U(d, b, b))
			}
		}
	}
	return
}

func total(c *lib.Case, o *lib.Obs) error {
	en := &entries[int(c.N[0])%len(entries)]
	d := []byte(c.D)
	v, err, bad := readEntry(en, d, int(c.N[1]))
	if bad != nil {
		return bad
	}
	if err != nil {
		if !spec.IsNil(v) && !(reflect.ValueOf(v).Kind() == reflect.Slice && reflect.ValueOf(v).Len() == 0) {
			return fmt.Errorf("%s(%x): the error %q comes with the value %+v", en.name, d, err, v)
		}
		if strings.Contains(err.Error(), "%!") {
			return fmt.Errorf("%s(%x): the error is %q", en.name, d, err)
		}
		o.Class("rejected by " + en.name)
		return nil
	}
	if !en.accepts(len(d)) {
		return fmt.Errorf("%s(%x): %d bytes are accepted", en.name, d, len(d))
	}
	if spec.IsNil(v) {
		return fmt.Errorf("%s(%x): no value and no error", en.name, d)
	}
	o.NonTrivial()
	o.Class("accepted by " + en.name)
	if _, err = exercise(v); err != nil {
		return fmt.Errorf("%s(%x): %v", en.name, d, err)
	}
	if m, ok := v.(messages.ModeSMessage); ok {
		for p := 0; p < 16; p++ {
			a, b := allowLists(p)
			id, err := msreader.CheckCRC(m, append([]byte{}, d...), a, b)
			if err == nil && uint32(id) > 0xFFFFFF {
				return fmt.Errorf("CheckCRC(%x): identifier %x", d, uint32(id))
			}
			if err == nil {
				_ = id.ToString()
			}
		}
	}
	return nil
}

func init() {
	add("C01", "the reader accepts the bytes, so that its value and all its methods are exercised",
		[]string{"the readers of single fields are not entry points: their callers have already checked the length",
			"a slice that is a window of a larger array is the way reads past the end of an input are made visible: the result must not depend on the bytes around it"},
		func(r *lib.Runner) {
			r.Add(&lib.Sub{Name: "readers",
				Gen: lib.Random(func(e *lib.Ent) *lib.Case {
					i, d := caseOfEntry(e)
					p := e.N(3)
					if e.P(6) {
						p = e.N(256)
					}
					return &lib.Case{D: d, N: []int64{int64(i), int64(p | e.N(4)<<8)}}
				}),
				Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
					for i := range entries {
						en := &entries[i]
						yield(&lib.Case{D: nil, N: []int64{int64(i), 0}})
						for n := 0; n <= 64; n++ {
							for k := 0; k < 6; k++ {
								d := make([]byte, n)
								switch k {
								case 1:
									for j := range d {
										d[j] = 0xFF
									}
								case 2:
									copy(d, en.gen(e))
								case 3, 4, 5:
									d = e.Bytes(n)
									copy(d[:n/(k-2)], en.gen(e))
								}
								yield(&lib.Case{D: d, N: []int64{int64(i), int64(k % 3)}})
							}
						}
						// And much longer ones.
						var long []int
						for n := 65; n < 300; n++ {
							long = append(long, n)
						}
						for _, l := range en.lens {
							long = append(long, longLengths(l)...)
						}
						for _, n := range long {
							d := en.gen(e)
							end := en.gen(e)
							switch {
							case n >= len(d)+len(end) && e.Bool():
								d = append(append(d, make([]byte, n-len(d)-len(end))...), end...)
							case n >= len(d):
								d = append(d, e.Bytes(n-len(d))...)
							}
							yield(&lib.Case{D: d, N: []int64{int64(i), int64(e.N(3))}})
						}
						// All the first bytes, and all the values of each byte of something acceptable.
						for _, l := range en.lens {
							for b := 0; b < 256; b++ {
								for p := 0; p < 4; p++ {
									d := e.Bytes(l)
									d[0] = byte(b)
									yield(&lib.Case{D: d, N: []int64{int64(i), int64(p)}})
								}
								for j := 0; j < l; j++ {
									d := en.gen(e)
									d[j%len(d)] = byte(b)
									yield(&lib.Case{D: d, N: []int64{int64(i), int64(b % 3)}})
								}
							}
						}
					}
				},
				Free: true, Check: total, Quick: 1000000, EnumX: 20})
			r.Add(&lib.Sub{Name: "the surroundings do not matter",
				Gen: lib.Random(func(e *lib.Ent) *lib.Case {
					i, d := caseOfEntry(e)
					return &lib.Case{D: d, E: e.Bytes(16), N: []int64{int64(i), int64(e.N(3) | e.N(4)<<8)}}
				}),
				Check: func(c *lib.Case, o *lib.Obs) error {
					en := &entries[int(c.N[0])%len(entries)]
					exact := append(make([]byte, 0, len(c.D)), c.D...)
					x, ex := en.read(exact, int(c.N[1]))
					around := append(append([]byte{}, c.D...), c.E...)
					y, ey := en.read(around[:len(c.D)], int(c.N[1]))
					if ex == nil {
						o.NonTrivial()
					}
					if a, b := fingerprint(x, ex), fingerprint(y, ey); a != b {
						return fmt.Errorf("%s(%x) depends on the bytes after its input: %s", en.name, []byte(c.D), differ(a, b))
					}
					return nil
				}, Free: true, Quick: 60000})
			r.Add(&lib.Sub{Name: "positions",
				Gen: lib.Random(func(e *lib.Ent) *lib.Case {
					f := func() float64 {
						switch e.N(8) {
						case 0:
							return math.Float64frombits(e.U64())
						case 1:
							return []float64{0, 90, -90, 87, -87, 180, -180, 360, 1e308, -1e308, 5e-324, math.Nextafter(87, 90), math.Nextafter(90, 91)}[e.N(13)]
						case 2:
							return e.F(-1e6, 1e6)
						default:
							return e.F(-181, 181)
						}
					}
					return &lib.Case{N: []int64{int64(e.Value(17)), int64(e.Value(17)), int64(e.Value(17)), int64(e.Value(17)), int64(e.N(2))},
						F: []float64{f(), f(), f(), f()}}
				}),
				Check: func(c *lib.Case, o *lib.Obs) error {
					a, b, x, y := uint32(c.N[0]), uint32(c.N[1]), uint32(c.N[2]), uint32(c.N[3])
					f := append([]float64{}, c.F...)
					for i := range f {
						if math.IsNaN(f[i]) || math.IsInf(f[i], 0) {
							f[i] = 0
						}
					}
					o.NonTrivial()
					odd := c.N[4] == 1
					lat, lon, err := geo.GetCPRAirborneGlobalPosition(a, b, x, y, odd)
					if err == nil && !(math.Abs(lat) <= 90 && math.Abs(lon) <= 180) {
						return fmt.Errorf("airborne pair: %v %v", lat, lon)
					}
					if err != nil && (lat != 0 || lon != 0) {
						return fmt.Errorf("airborne pair: the error comes with %v %v", lat, lon)
					}
					geo.GetCPRAirborneLocalPosition(a, b, f[0], f[1], odd)
					geo.GetCPRSurfaceLocalPosition(a, b, f[0], f[1], odd)
					if math.Abs(f[0]) <= 90 && math.Abs(f[1]) <= 360 {
						_, _, err = geo.GetCPRSurfaceGlobalPosition(a, b, x, y, odd, f[0], f[1])
						o.Class(fmt.Sprintf("surface pair: error %v", err != nil))
					}
					geo.ComputeGroundDistance(f[0], f[1], f[2], f[3])
					return nil
				}, Free: true, FreeN: []int{17, 17, 17, 17, 1}, Quick: 200000})
		})
}

// ---- histories ----

// An operation of a history: the reader (or one of the operations below), the parameter and the bytes.
func opOf(kind, p int, d []byte) lib.Hex {
	return append(lib.Hex{byte(kind), byte(p), byte(p >> 8)}, d...)
}

// The operations that are not readers.
const opKinds = 2 // the parity check, the positions

type history struct {
	ops  []lib.Hex
	bufs map[string][]byte // equal messages share their bytes
}

func newHistory(ops []lib.Hex) *history {
	h := &history{bufs: map[string][]byte{}}
	for _, op := range ops {
		if len(op) < 3 {
			continue
		}
		h.ops = append(h.ops, op)
		if _, ok := h.bufs[string(op[3:])]; !ok {
			b := make([]byte, len(op)-3, len(op)+5)
			copy(b, op[3:])
			h.bufs[string(op[3:])] = b
		}
	}
	return h
}

// run evaluates an operation.
func (h *history) run(op lib.Hex) (any, error) {
	k, p := int(op[0])%(len(entries)+opKinds), int(op[1])|int(op[2])<<8
	d := h.bufs[string(op[3:])]
	if k < len(entries) {
		return entries[k].read(d, p)
	}
	if k == len(entries) {
		m, err := msreader.ReadMessage(d)
		if err != nil {
			return nil, err
		}
		a, b := allowLists(p)
		id, err := msreader.CheckCRC(m, d, a, b)
		wa, wb := allowLists(p)
		if !reflect.DeepEqual(a, wa) || !reflect.DeepEqual(b, wb) {
			return nil, fmt.Errorf("the parity check changed its allow-lists: %v %v", a, b)
		}
		return id, err
	}
	if len(d) < 7 {
		return nil, nil
	}
	v := func(i int) uint32 { return uint32(lib.U(d, i, i+16)) }
	lat, lon := float64(lib.U(d, 1, 8))*180/255-90, float64(lib.U(d, 9, 17))*360/512-180
	if p&2 != 0 { // a reference on the limits of the zones, as near as a float64 may be
		n, z := 60-p&1, float64(90*(1+3*(p>>2&1))) // of the airborne or surface messages
		lat = z / float64(n) * float64(p>>3%n-n/2)
		n = 1 + p>>3%59
		lon = z / float64(n) * float64(p>>9%(n+1)-n/2)
		for lat < -90 || lat > 90 {
			lat /= 2
		}
	}
	s := ""
	x, y, err := geo.GetCPRAirborneGlobalPosition(v(1), v(18), v(30), v(40), p&1 == 1)
	s += fmt.Sprint(x, y, err)
	x, y, err = geo.GetCPRSurfaceGlobalPosition(v(1), v(18), v(30), v(40), p&1 == 1, lat, lon)
	s += fmt.Sprint(x, y, err)
	x, y = geo.GetCPRAirborneLocalPosition(v(1), v(18), lat, lon, p&1 == 1)
	s += fmt.Sprint(x, y)
	x, y = geo.GetCPRSurfaceLocalPosition(v(1), v(18), lat, lon, p&1 == 1)
	s += fmt.Sprint(x, y, geo.ComputeGroundDistance(lat, lon, x, y))
	// and two points at any distance
	x, y = lat, lon+float64(lib.U(d, 41, 48))-128
	if n := p >> 12 & 15; n > 0 {
		x, y = lat-lat/90*float64(lib.U(d, 33, 40))*math.Pow(0.2, float64(n)), lon+(y-lon)*math.Pow(0.2, float64(n))
	}
	s += fmt.Sprint(" ", geo.ComputeGroundDistance(lat, lon, x, y))
	return &s, nil
}

func opName(op lib.Hex) string {
	k := int(op[0]) % (len(entries) + opKinds)
	switch {
	case k < len(entries):
		return fmt.Sprintf("%s(%x)", entries[k].name, []byte(op[3:]))
	case k == len(entries):
		return fmt.Sprintf("CheckCRC(%x)", []byte(op[3:]))
	}
	return fmt.Sprintf("positions(%x)", []byte(op[3:]))
}

func (h *history) print(op lib.Hex) string {
	v, err := h.run(op)
	return fingerprint(v, err)
}

// intact says whether the messages are as they were given.
func (h *history) intact() error {
	for k, b := range h.bufs {
		if string(b) != k {
			return fmt.Errorf("the message %x was changed to %x", k, b)
		}
	}
	return nil
}

// evaluate runs the history in order and checks that nothing already returned changes; it returns the
// description of every result as it was when returned.
func (h *history) evaluate(order []int) ([]string, error) {
	type result struct {
		v   any
		err error
	}
	prints := make([]string, len(h.ops))
	kept := make([]result, len(h.ops))
	for _, i := range order {
		v, err := h.run(h.ops[i])
		kept[i] = result{v, err}
		prints[i] = fingerprint(v, err)
	}
	if err := h.intact(); err != nil {
		return nil, err
	}
	for k := len(order) - 1; k >= 0; k-- {
		i := order[k]
		if again := fingerprint(kept[i].v, kept[i].err); again != prints[i] {
			return nil, fmt.Errorf("the result of %s changed after later operations: %s", opName(h.ops[i]), differ(prints[i], again))
		}
		if again := h.print(h.ops[i]); again != prints[i] {
			return nil, fmt.Errorf("%s gives another result when repeated: %s", opName(h.ops[i]), differ(prints[i], again))
		}
	}
	return prints, h.intact()
}

func orderOf(n int, kind int, seed int64) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	switch kind {
	case 1:
		for i := range o {
			o[i] = n - 1 - i
		}
	case 2:
		e := lib.NewEnt(uint64(seed))
		for i := n - 1; i > 0; i-- {
			j := e.N(i + 1)
			o[i], o[j] = o[j], o[i]
		}
	}
	return o
}

// genHistory makes a history over a pool of related messages.
func genHistory(e *lib.Ent, max int) []lib.Hex {
	var pool []lib.Hex
	for n := 2 + e.N(max/3+1); n > 0; n-- {
		var op lib.Hex
		switch k := e.N(12); {
		case k == 0:
			op = opOf(len(entries), e.N(16), entries[0].gen(e))
		case k == 1:
			op = opOf(len(entries)+1, e.N(2), e.Bytes(8))
		case k <= 4 && len(pool) > 0: // the same bytes by another reader, or with other parameters
			d := pool[e.N(len(pool))]
			op = append(lib.Hex{byte(e.N(len(entries))), byte(e.N(3)), byte(e.N(4))}, d[3:]...)
			if e.Bool() {
				op[0] = d[0]
			}
		case k <= 8 && len(pool) > 0: // a relative of another message
			op = append(lib.Hex{}, pool[e.N(len(pool))]...)
			if len(op) > 3 {
				for b := e.N(4); b >= 0; b-- {
					i := 1 + e.N(8*(len(op)-3))
					lib.Put(op[3:], i, i, 1-lib.U(op[3:], i, i))
				}
			}
		default:
			i := 0
			switch e.N(4) { // the main readers more often
			case 0:
				i = 1
			case 1:
				i = 17
			default:
				i = e.N(len(entries))
			}
			op = opOf(i, e.N(3)|e.N(4)<<8, entries[i].gen(e))
		}
		pool = append(pool, op)
	}
	ops := append([]lib.Hex{}, pool...)
	for n := e.N(max); n > 0; n-- {
		ops = append(ops, pool[e.N(len(pool))])
	}
	for i := len(ops) - 1; i > 0; i-- {
		j := e.N(i + 1)
		ops[i], ops[j] = ops[j], ops[i]
	}
	return ops
}

// genRelatives makes a history of a few messages and their close relatives: every message differing by one bit,
// some differing by two, by an exchange of bytes or by a parameter, each following and preceding the message.
func genRelatives(e *lib.Ent) []lib.Hex {
	var ops []lib.Hex
	for n := 0; n < 3; n++ {
		k := e.N(len(entries) + opKinds)
		var base lib.Hex
		switch {
		case n == 0: // a Mode S message, by its reader or its parity check
			k = 0
			if e.P(4) {
				k = len(entries)
			}
			base = opOf(k, e.N(16), entries[0].gen(e))
		case k == len(entries)+1:
			base = opOf(k, e.N(2), e.Bytes(8))
		case k == len(entries):
			base = opOf(k, e.N(16), entries[0].gen(e))
		default:
			base = opOf(k, e.N(3)|e.N(4)<<8, entries[k].gen(e))
		}
		bits := 8 * (len(base) - 3)
		if bits == 0 {
			continue
		}
		flip := func(op lib.Hex, i int) { op[3+(i-1)/8] ^= 0x80 >> uint((i-1)%8) }
		one := func(f func(op lib.Hex)) {
			op := append(lib.Hex{}, base...)
			f(op)
			ops = append(ops, base, op)
		}
		for i := 1; i <= bits; i++ {
			one(func(op lib.Hex) { flip(op, i) })
		}
		for i := 0; i < 24; i++ {
			one(func(op lib.Hex) {
				a := 1 + e.N(bits)
				flip(op, a)
				if b := a + 8*(1+e.N(6)); b <= bits && e.Bool() {
					flip(op, b)
				} else {
					flip(op, 1+e.N(bits))
				}
			})
		}
		for i := 0; i < 6; i++ {
			one(func(op lib.Hex) {
				a, b := e.N(bits/8), e.N(bits/8)
				op[3+a], op[3+b] = op[3+b], op[3+a]
			})
		}
		for v := 0; v < 3; v++ {
			for w := 0; w < 4; w++ {
				one(func(op lib.Hex) { op[1], op[2] = byte(v), byte(w) })
			}
		}
	}
	return ops
}

// longHistory are many operations, most of them of one kind, on distinct messages and on close relatives of them.
func longHistory(seed, kind uint64, n int) []lib.Hex {
	e := lib.NewEnt(seed)
	ops := make([]lib.Hex, 0, n)
	kinds := len(entries) + opKinds
	main := []int{0, 1, 17, len(entries), len(entries) + 1}
	for len(ops) < n {
		if len(ops) > 0 && e.P(4) {
			op := append(lib.Hex{}, ops[e.N(len(ops))]...)
			if e.Bool() && len(op) > 3 {
				i := 1 + e.N(8*(len(op)-3))
				lib.Put(op[3:], i, i, 1-lib.U(op[3:], i, i))
			}
			ops = append(ops, op)
			continue
		}
		k := main[e.N(len(main))]
		if kind > 0 && !e.P(6) {
			k = int(kind-1) % kinds
		}
		switch {
		case k == len(entries)+1:
			ops = append(ops, opOf(k, e.N(2), e.Bytes(8)))
		case k == len(entries):
			ops = append(ops, opOf(k, e.N(16), entries[0].gen(e)))
		default:
			ops = append(ops, opOf(k, e.N(3)|e.N(4)<<8, entries[k].gen(e)))
		}
	}
	return ops
}

// The kinds of messages of keptResults: the readers, the downlink formats, the registers of Comm-B, the type codes.
var keptKinds = len(entries) + len(spec.Formats) + 11 + 32

// kindOf is the reader (its index) and the generator of a kind of message.
func kindOf(k int) (int, func(e *lib.Ent) []byte) {
	i := k - len(entries)
	switch {
	case i < 0:
		return k, entries[k].gen
	case i < len(spec.Formats):
		return 0, func(e *lib.Ent) []byte { return spec.GenFrame(e, spec.Formats[i]) }
	case i < len(spec.Formats)+11:
		s := registersOfCommB[i-len(spec.Formats)]
		for j := range entries {
			if entries[j].name == "commb.ReadCommBMessage" {
				return j, func(e *lib.Ent) []byte { return s.Gen(e) }
			}
		}
	}
	return 1, genSquitterBytes(i - len(spec.Formats) - 11)
}

// coldMain reads a few messages in eight threads, before anything else was read, and gives their descriptions.
func coldMain(ops []lib.Hex) ([]string, error) {
	h := newHistory(ops)
	const threads = 8
	type result struct {
		v   any
		err error
	}
	var results [threads][]result
	var prints [threads][]string
	var panicked atomic.Value
	phase := func(f func(t int)) {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for t := 0; t < threads; t++ {
			wg.Add(1)
			go func(t int) {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						panicked.Store(fmt.Sprint(p))
					}
				}()
				<-start
				f(t)
			}(t)
		}
		close(start)
		wg.Wait()
	}
	phase(func(t int) {
		r := make([]result, len(h.ops))
		for i := range h.ops {
			i = (i + t) % len(h.ops)
			r[i].v, r[i].err = h.run(h.ops[i])
		}
		results[t] = r
	})
	if p := panicked.Load(); p != nil {
		return nil, fmt.Errorf("a thread panics: %s", p)
	}
	phase(func(t int) {
		p := make([]string, len(h.ops))
		for i, r := range results[t] {
			p[i] = fingerprint(r.v, r.err)
		}
		prints[t] = p
	})
	if p := panicked.Load(); p != nil {
		return nil, fmt.Errorf("a thread panics: %s", p)
	}
	for i := range h.ops {
		alone := h.print(h.ops[i])
		for t := range prints {
			if prints[t][i] != alone {
				return nil, fmt.Errorf("%s gives another result in a thread: %s", opName(h.ops[i]), differ(alone, prints[t][i]))
			}
		}
	}
	return nil, h.intact()
}

// keptResults keeps a few results of one kind and reads thousands of other messages of this kind.
func keptResults(c *lib.Case, o *lib.Obs) error {
	if len(c.N) < 3 {
		return nil
	}
	e := lib.NewEnt(uint64(c.N[0]))
	k := int(c.N[1]) % keptKinds
	j, gen := kindOf(k)
	en := &entries[j]
	type kept struct {
		d, copy []byte
		p       int
		v       any
		err     error
		print   string
	}
	one := func(print bool) kept {
		d := gen(e)
		r := kept{d: d, p: e.N(3) | e.N(4)<<8}
		r.v, r.err = en.read(d, r.p)
		if print {
			r.copy = append([]byte{}, d...)
			r.print = fingerprint(r.v, r.err)
		}
		return r
	}
	all := make([]kept, 0, 64)
	for len(all) < 48 {
		all = append(all, one(true))
	}
	for n := int(c.N[2]); n > 0; n-- {
		r := one(n == 1 || n&0x3FF == 0)
		if r.print != "" {
			all = append(all, r)
		}
	}
	o.NonTrivial()
	o.Class("kept results of " + en.name)
	for i := range all {
		r := &all[i]
		if !bytes.Equal(r.d, r.copy) {
			return fmt.Errorf("%s: the message %x was changed to %x", en.name, r.copy, r.d)
		}
		if again := fingerprint(r.v, r.err); again != r.print {
			return fmt.Errorf("the result of %s(%x) changed after %d other messages: %s", en.name, r.d, c.N[2], differ(r.print, again))
		}
		v, err := en.read(r.d, r.p)
		if again := fingerprint(v, err); again != r.print {
			return fmt.Errorf("%s(%x) gives another result after %d other messages: %s", en.name, r.d, c.N[2], differ(r.print, again))
		}
	}
	return nil
}

// overAndOver reads the same message many times.
func overAndOver(c *lib.Case, o *lib.Obs) error {
	h := newHistory(c.L)
	if len(h.ops) == 0 || len(c.N) < 1 {
		return nil
	}
	if c.N[0] > 1<<12 {
		o.NonTrivial()
	}
	op := h.ops[0]
	first, err1 := h.run(op)
	want := fingerprint(first, err1)
	for n := int64(1); n < c.N[0] && n < 1<<20; n++ {
		v, err := h.run(op)
		if (err == nil) == (err1 == nil) && n&0x1F != 0 && reflect.DeepEqual(v, first) {
			continue
		}
		if got := fingerprint(v, err); got != want {
			return fmt.Errorf("%s gives another result the %dth time: %s", opName(op), n+1, differ(want, got))
		}
	}
	if got := fingerprint(first, err1); got != want {
		return fmt.Errorf("the result of %s changed when it was read again: %s", opName(op), differ(want, got))
	}
	return h.intact()
}

// evaluateLong is evaluate for long histories: the descriptions are reduced to numbers.
func (h *history) evaluateLong(order []int) ([]uint64, error) {
	type result struct {
		v   any
		err error
	}
	sum := func(v any, err error) uint64 {
		f := fnv.New64a()
		_, _ = f.Write([]byte(fingerprint(v, err)))
		return f.Sum64()
	}
	sums := make([]uint64, len(h.ops))
	kept := make([]result, len(h.ops))
	for _, i := range order {
		v, err := h.run(h.ops[i])
		kept[i] = result{v, err}
		sums[i] = sum(v, err)
	}
	for k := len(order) - 1; k >= 0; k-- {
		i := order[k]
		if sum(kept[i].v, kept[i].err) != sums[i] {
			return nil, fmt.Errorf("the result of operation %d, %s, changed after later operations", i, opName(h.ops[i]))
		}
	}
	for k := len(order) - 1; k >= 0; k-- {
		i := order[k]
		if v, err := h.run(h.ops[i]); sum(v, err) != sums[i] {
			return nil, fmt.Errorf("operation %d, %s, gives another result when repeated", i, opName(h.ops[i]))
		}
	}
	return sums, h.intact()
}

type childRequest struct {
	Ops   []lib.Hex
	Order []int
	Long  []uint64 // the arguments of longHistory, the kind of order
	Cold  bool     // in several threads, the first thing in the process
	Feed  []uint64 // seed, kind and number of messages of a feeder: the effects on the process are observed
	Own   bool     // the results are changed by their owner
	Idle  int      // goroutines that wait for the end
	env   []string // more variables of the environment
	args  []string // more arguments of the process
	cpus  int      // limit of the number of processors
}

type childAnswer struct {
	Prints []string
	Sums   []uint64
	Err    string
}

// HistoryMain is the child process: it evaluates a history in a fresh state.
func HistoryMain() {
	var q childRequest
	if err := json.NewDecoder(os.Stdin).Decode(&q); err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(2)
	}
	idle := make(chan bool)
	for i := 0; i < q.Idle; i++ {
		go func() { <-idle }()
	}
	var a childAnswer
	var err error
	if len(q.Feed) == 3 {
		err = watchEffects(q.Feed[0], int(q.Feed[1]), int(q.Feed[2]))
	} else if q.Own {
		err = newHistory(q.Ops).owned()
	} else if q.Cold {
		_, err = coldMain(q.Ops)
	} else if len(q.Long) == 4 {
		h := newHistory(longHistory(q.Long[0], q.Long[1], int(q.Long[2])))
		a.Sums, err = h.evaluateLong(orderOf(len(h.ops), int(q.Long[3]), int64(q.Long[0])))
	} else {
		h := newHistory(q.Ops)
		a.Prints, err = h.evaluate(q.Order)
	}
	if err != nil {
		a.Err = err.Error()
	}
	b, _ := json.Marshal(a)
	answer := os.NewFile(3, "answer")
	_, _ = answer.Write(b)
	_ = answer.Close()
}

func child(ops []lib.Hex, order []int) ([]string, error) {
	a, err := runChild(childRequest{Ops: ops, Order: order})
	return a.Prints, err
}

func runChild(q childRequest) (childAnswer, error) {
	a, _, err := runChildIn(os.Args[0], "", q)
	return a, err
}

// onProcessors limits the processors of this thread, which are the ones of the processes it starts; it returns the
// function that restores them.
func onProcessors(n int) func() {
	if n == 0 {
		return func() {}
	}
	runtime.LockOSThread()
	var old, some [128]uint64
	call := func(nr uintptr, m *[128]uint64) bool {
		_, _, e := syscall.RawSyscall(nr, 0, unsafe.Sizeof(*m), uintptr(unsafe.Pointer(m)))
		return e == 0
	}
	if !call(syscall.SYS_SCHED_GETAFFINITY, &old) {
		return runtime.UnlockOSThread
	}
	for i := 0; i < 64*len(old) && n > 0; i++ {
		if old[i/64]>>(i%64)&1 == 1 {
			some[i/64] |= 1 << (i % 64)
			n--
		}
	}
	call(syscall.SYS_SCHED_SETAFFINITY, &some)
	return func() {
		call(syscall.SYS_SCHED_SETAFFINITY, &old)
		runtime.UnlockOSThread()
	}
}

// runChildIn runs the child, of a build of the harness, in a folder; printed is what it wrote on its standard output and error.
func runChildIn(exe, dir string, q childRequest) (a childAnswer, printed string, err error) {
	b, _ := json.Marshal(q)
	exe, err = filepath.Abs(exe)
	if err != nil {
		panic(lib.HarnessError{Msg: err.Error()})
	}
	cmd := exec.Command(exe, append([]string{"history"}, q.args...)...)
	if dir != "" {
		cmd.Dir = dir
		cmd.Env = append(append(os.Environ(), "PWD="+dir, "HOME="+dir, "TMPDIR="+dir), q.env...)
	}
	cmd.Stdin = bytes.NewReader(b)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	r, w, err := os.Pipe()
	if err != nil {
		panic(lib.HarnessError{Msg: err.Error()})
	}
	cmd.ExtraFiles = []*os.File{w}
	answer := make(chan []byte, 1)
	go func() {
		b, _ := io.ReadAll(r)
		_ = r.Close()
		answer <- b
	}()
	restore := onProcessors(q.cpus)
	err = cmd.Start()
	restore()
	_ = w.Close()
	if err == nil {
		err = cmd.Wait()
	}
	got := <-answer
	msg := errs.String()
	if len(msg) > 2000 {
		msg = msg[:2000]
	}
	if err != nil {
		if strings.Contains(msg, "harness error") || cmd.ProcessState == nil || cmd.ProcessState.ExitCode() < 0 {
			panic(lib.HarnessError{Msg: "child process: " + err.Error() + " " + msg})
		}
		return a, "", fmt.Errorf("the history kills the process (%v): %s", err, msg)
	}
	if len(got) == 0 {
		return a, "", fmt.Errorf("the history ends the process: %s", msg)
	}
	if err := json.Unmarshal(got, &a); err != nil {
		panic(lib.HarnessError{Msg: "child process: " + err.Error()})
	}
	if a.Err != "" {
		return a, "", fmt.Errorf("%s", a.Err)
	}
	return a, out.String() + errs.String(), nil
}

func opsOf(c *lib.Case) []lib.Hex { return newHistory(c.L).ops }

func init() {
	add("C02", "a history of at least two operations on different messages",
		[]string{"the caller does not change the bytes of a frame while it uses the frame (the payload of a decoded frame is a part of the bytes given)",
			"a schedule is what the Go scheduler and the race detector make of eight goroutines; the schedules are not enumerated"},
		func(r *lib.Runner) {
			obs := func(h *history, o *lib.Obs) {
				if len(h.bufs) > 1 {
					o.NonTrivial()
				}
				o.Class(fmt.Sprintf("length around %d", 1<<uint(math.Log2(float64(len(h.ops)+1)))))
			}
			r.Add(&lib.Sub{Name: "one process",
				Gen: lib.Random(func(e *lib.Ent) *lib.Case {
					max := 12
					if e.P(8) {
						max = 60
					}
					return &lib.Case{L: genHistory(e, max), N: []int64{int64(e.U64() >> 1)}}
				}),
				Check: func(c *lib.Case, o *lib.Obs) error {
					h := newHistory(c.L)
					obs(h, o)
					a, err := h.evaluate(orderOf(len(h.ops), 0, 0))
					if err != nil {
						return err
					}
					b, err := h.evaluate(orderOf(len(h.ops), 2, c.N[0]))
					if err != nil {
						return err
					}
					for i := range a {
						if a[i] != b[i] {
							return fmt.Errorf("%s depends on the order of the operations: %s", opName(h.ops[i]), differ(a[i], b[i]))
						}
					}
					return nil
				}, Free: true, FreeL: 3, Quick: 6000})
			r.Add(&lib.Sub{Name: "results changed by their owner, bytes used again",
				Gen: lib.Random(func(e *lib.Ent) *lib.Case {
					if e.Bool() {
						return &lib.Case{L: genHistory(e, 40)}
					}
					return &lib.Case{L: fedOps(e, e.N(fedKinds), 20+e.N(200))}
				}),
				Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
					for k := 0; k < fedKinds; k++ {
						yield(&lib.Case{L: fedOps(e, k, 300)})
					}
				},
				Check: ownedResults, Free: true, FreeL: 3, EnumX: 4, Quick: 2000, Thorough: 60000})
			r.Add(&lib.Sub{Name: "results kept while thousands of messages of the same kind are read",
				Gen: lib.Random(func(e *lib.Ent) *lib.Case {
					n := 2500 + e.N(4000)
					if e.P(8) {
						n *= 10
					}
					return &lib.Case{N: []int64{int64(e.U64() >> 1), int64(e.N(keptKinds)), int64(n)}}
				}),
				Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
					for k := 0; k < keptKinds; k++ {
						yield(&lib.Case{N: []int64{int64(e.U64() >> 1), int64(k), 5000}})
					}
				},
				Check: keptResults, EnumX: 20, Quick: 48, Thorough: 4000})
			r.Add(&lib.Sub{Name: "a message read over and over",
				Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
					for k := 0; k < keptKinds+opKinds; k++ {
						n := 2
						if k >= len(entries) {
							n = 4
						}
						for ; n > 0; n-- {
							op := opOf(k-keptKinds+len(entries), e.N(16), entries[0].gen(e))
							if k == keptKinds+1 {
								op = opOf(len(entries)+1, e.N(2), e.Bytes(8))
							} else if k < keptKinds {
								i, gen := kindOf(k)
								op = opOf(i, e.N(3)|e.N(4)<<8, gen(e))
							}
							yield(&lib.Case{L: []lib.Hex{op}, N: []int64{1<<16 + 1}})
						}
					}
				},
				Check: overAndOver, EnumX: 30})
			r.Add(&lib.Sub{Name: "fresh processes",
				Gen: lib.Random(func(e *lib.Ent) *lib.Case {
					return &lib.Case{L: genHistory(e, 60+e.N(700)), N: []int64{int64(e.U64() >> 1), int64(1 + e.N(2))}}
				}),
				Check: func(c *lib.Case, o *lib.Obs) error {
					h := newHistory(c.L)
					obs(h, o)
					n := len(h.ops)
					a, err := child(h.ops, orderOf(n, 0, 0))
					if err != nil {
						return err
					}
					b, err := child(h.ops, orderOf(n, int(c.N[1]), c.N[0]))
					if err != nil {
						return err
					}
					for i := range a {
						if a[i] != b[i] {
							return fmt.Errorf("%s depends on the operations before it in the process: %s", opName(h.ops[i]), differ(a[i], b[i]))
						}
					}
					return nil
				}, Quick: 48, Thorough: 1600})
			r.Add(&lib.Sub{Name: "relatives in fresh processes",
				Gen: lib.Random(func(e *lib.Ent) *lib.Case {
					return &lib.Case{L: genRelatives(e), N: []int64{int64(e.U64() >> 1)}}
				}),
				Check: func(c *lib.Case, o *lib.Obs) error {
					h := newHistory(c.L)
					obs(h, o)
					var first []string
					for kind := 0; kind < 3; kind++ {
						p, err := child(h.ops, orderOf(len(h.ops), kind, c.N[0]))
						if err != nil {
							return err
						}
						if kind == 0 {
							first = p
						}
						for i := range p {
							if p[i] != first[i] {
								return fmt.Errorf("%s depends on the operations before it in the process: %s", opName(h.ops[i]), differ(first[i], p[i]))
							}
						}
					}
					return nil
				}, Quick: 160, Thorough: 6000})
			r.Add(&lib.Sub{Name: "long histories in fresh processes",
				Gen: lib.Random(func(e *lib.Ent) *lib.Case {
					k := 0
					if e.P(3) {
						k = 1 + e.N(len(entries)+opKinds)
					} else if e.Bool() { // the main readers more often
						k = 1 + []int{0, 1, 17, len(entries), len(entries) + 1}[e.N(5)]
					}
					return &lib.Case{N: []int64{int64(e.U64() >> 1), int64(k), int64(3000 + e.N(9000)), int64(1 + e.N(2))}}
				}),
				Check: func(c *lib.Case, o *lib.Obs) error {
					if len(c.N) < 4 || c.N[2] < 2 || c.N[2] > 1<<20 {
						return nil
					}
					q := []uint64{uint64(c.N[0]), uint64(c.N[1]), uint64(c.N[2]), 0}
					o.NonTrivial()
					o.Class(fmt.Sprintf("length around %d", 1<<uint(math.Log2(float64(c.N[2])))))
					a, err := runChild(childRequest{Long: q})
					if err != nil {
						return err
					}
					q[3] = uint64(c.N[3])
					b, err := runChild(childRequest{Long: q})
					if err != nil {
						return err
					}
					for i := range a.Sums {
						if a.Sums[i] != b.Sums[i] {
							return fmt.Errorf("operation %d, %s, depends on the operations before it in the process", i, opName(longHistory(q[0], q[1], i+1)[i]))
						}
					}
					return nil
				}, Quick: 56, Thorough: 3000})
			r.Add(&lib.Sub{Name: "the first messages of a process in several threads",
				Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
					for k := 0; k < keptKinds+opKinds; k++ {
						c := &lib.Case{}
						for n := 1 + e.N(6); n > 0; n-- {
							switch k {
							case keptKinds:
								c.L = append(c.L, opOf(len(entries), e.N(16), entries[0].gen(e)))
							case keptKinds + 1:
								c.L = append(c.L, opOf(len(entries)+1, e.N(2), e.Bytes(8)))
							default:
								i, gen := kindOf(k)
								c.L = append(c.L, opOf(i, e.N(3)|e.N(4)<<8, gen(e)))
							}
						}
						yield(c)
					}
				},
				Check: func(c *lib.Case, o *lib.Obs) error {
					h := newHistory(c.L)
					if len(h.ops) == 0 {
						return nil
					}
					o.NonTrivial()
					_, err := runChild(childRequest{Ops: h.ops, Cold: true})
					return err
				}, Race: true, EnumX: 10})
			r.Add(&lib.Sub{Name: "threads",
				Gen: lib.Random(func(e *lib.Ent) *lib.Case {
					return &lib.Case{L: genHistory(e, 40), N: []int64{int64(e.U64() >> 1)}}
				}),
				Check: func(c *lib.Case, o *lib.Obs) error {
					h := newHistory(c.L)
					obs(h, o)
					const threads = 8
					prints := [threads][]string{}
					var wg sync.WaitGroup
					panics := make(chan string, threads)
					start := make(chan struct{})
					for t := 0; t < threads; t++ {
						wg.Add(1)
						go func(t int) {
							defer wg.Done()
							defer func() {
								if p := recover(); p != nil {
									panics <- fmt.Sprint(p)
								}
							}()
							order := orderOf(len(h.ops), t%3, c.N[0]+int64(t))
							p := make([]string, len(h.ops))
							<-start
							for _, i := range order {
								p[i] = h.print(h.ops[i])
							}
							prints[t] = p
						}(t)
					}
					close(start)
					wg.Wait()
					select {
					case p := <-panics:
						return fmt.Errorf("a thread panics: %s", p)
					default:
					}
					if err := h.intact(); err != nil {
						return err
					}
					for i := range h.ops {
						alone := h.print(h.ops[i])
						for t := range prints {
							if prints[t][i] != alone {
								return fmt.Errorf("%s gives another result in a thread: %s", opName(h.ops[i]), differ(alone, prints[t][i]))
							}
						}
					}
					return nil
				}, Race: true, Quick: 1500, Thorough: 60000})
		})
}
