package props

import (
	"fmt"
	"reflect"
	"unsafe"

	"verif/harness/lib"
)

// scramble changes all that the owner of a result can change through its exported fields, its pointers, slices and
// maps, but the bytes of the messages.
func scramble(v reflect.Value, keep func(p uintptr) bool, depth int) int {
	if depth > 12 || !v.IsValid() {
		return 0
	}
	n := 0
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			n = scramble(v.Elem(), keep, depth+1)
		}
		return n
	case reflect.Interface:
		if !v.IsNil() {
			n = scramble(v.Elem(), keep, depth+1)
		}
		return n
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				n += scramble(v.Field(i), keep, depth+1)
			}
		}
		return n
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Len() > 0 && keep(v.Pointer()) {
			return 0
		}
		for i := 0; i < v.Len(); i++ {
			n += scramble(v.Index(i), keep, depth+1)
		}
		return n
	case reflect.Map:
		for _, k := range v.MapKeys() {
			v.SetMapIndex(k, reflect.Value{})
			n++
		}
		return n
	}
	if !v.CanSet() {
		return 0
	}
	n = 1
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(^v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(^v.Uint())
	case reflect.Float32, reflect.Float64:
		v.SetFloat(v.Float() + 12345.5)
	case reflect.String:
		v.SetString(v.String() + "?")
	default:
		n = 0
	}
	return n
}

// owned evaluates operations, then changes results as their owner may: no other result, earlier or later, changes.
// When the bytes are used again for something else, only the payload of the frames, which is a part of them, changes.
func (h *history) owned() error {
	in := func(p uintptr) bool {
		for _, b := range h.bufs {
			if cap(b) == 0 {
				continue
			}
			s := uintptr(unsafe.Pointer(unsafe.SliceData(b)))
			if p >= s && p < s+uintptr(cap(b)) {
				return true
			}
		}
		return false
	}
	type result struct {
		v     any
		err   error
		print string
	}
	kept := make([]result, len(h.ops))
	for i, op := range h.ops {
		v, err := h.run(op)
		kept[i] = result{v, err, fingerprint(v, err)}
	}
	for i, op := range h.ops {
		v, err := h.run(op)
		if err != nil || v == nil {
			continue
		}
		if scramble(reflect.ValueOf(v), in, 0) == 0 {
			continue
		}
		if now := fingerprint(kept[i].v, kept[i].err); now != kept[i].print {
			return fmt.Errorf("changing a result of %s changes the one obtained before: %s", opName(op), differ(kept[i].print, now))
		}
		if now := h.print(op); now != kept[i].print {
			return fmt.Errorf("changing a result of %s changes the next ones: %s", opName(op), differ(kept[i].print, now))
		}
	}
	for i, op := range h.ops {
		if now := fingerprint(kept[i].v, kept[i].err); now != kept[i].print {
			return fmt.Errorf("changing other results changes the one of %s: %s", opName(op), differ(kept[i].print, now))
		}
		if now := h.print(op); now != kept[i].print {
			return fmt.Errorf("changing other results changes what %s gives: %s", opName(op), differ(kept[i].print, now))
		}
	}
	if err := h.intact(); err != nil {
		return err
	}
	for _, b := range h.bufs {
		b = b[:cap(b)]
		for i := range b {
			b[i] = ^b[i]
		}
	}
	for i, op := range h.ops {
		if int(op[0])%(len(entries)+opKinds) == 0 {
			continue // a frame
		}
		if now := fingerprint(kept[i].v, kept[i].err); now != kept[i].print {
			return fmt.Errorf("the result of %s changes when its bytes are used for another message: %s", opName(op), differ(kept[i].print, now))
		}
	}
	return nil
}

func ownedResults(c *lib.Case, o *lib.Obs) error {
	h := newHistory(c.L)
	if len(h.bufs) > 1 {
		o.NonTrivial()
	}
	if len(h.ops) == 0 {
		return nil
	}
	// In a process of its own, as what is shared would be changed for ever.
	_, err := runChild(childRequest{Ops: h.ops, Own: true})
	return err
}
