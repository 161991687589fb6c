package spec

import (
	"fmt"
	"reflect"

	mfields "github.com/twuillemin/modes/pkg/modes/fields"
	"github.com/twuillemin/modes/pkg/modes/messages"
	"github.com/twuillemin/modes/pkg/modes/reader"
	"verif/harness/lib"
)

// Formats are the formats with a decoder.
var Formats = []int{0, 4, 5, 11, 16, 17, 18, 19, 20, 21, 24}

// FrameLen is the length in bytes of a frame of the format.
func FrameLen(df int) int {
	if df < 16 {
		return 7
	}
	return 14
}

// DF is the format of a frame (24 for 24 to 31).
func DF(d []byte) int {
	f := int(d[0] >> 3)
	if f >= 24 {
		return 24
	}
	return f
}

func method13(kind int) int64 {
	switch kind {
	case AltMetric:
		return int64(mfields.AltitudeCodeReportMetricUnits)
	case Alt100:
		return int64(mfields.AltitudeCodeReport100FootIncrements)
	case Alt25:
		return int64(mfields.AltitudeCodeReport25FootIncrements)
	}
	return int64(mfields.AltitudeCodeReportNotAvailable)
}

func alt13() []F {
	return []F{
		in("AltitudeReportMethod", 20, 32, func(d []byte) int64 { k, _ := AC13(lib.U(d, 20, 32)); return method13(k) }),
		in("Altitude", 20, 32, func(d []byte) int64 { _, f := AC13(lib.U(d, 20, 32)); return f }),
	}
}

func utility() []F {
	return []F{
		u("FlightStatus", 6, 8), u("DownlinkRequest", 9, 13),
		u("UtilityMessage.InterrogatorIdentifier", 14, 17), u("UtilityMessage.IdentifierDesignator", 18, 19),
	}
}

// bytesF is a field whose bytes are those of the message.
func bytesF(path string, a, z int) F {
	return F{path, a, z, func(d []byte) Val { return VS(string(d[(a-1)/8 : z/8])) }}
}

func squawk() []F {
	return []F{str("Identity.Identity", 20, 32, func(d []byte) string { return Squawk(lib.U(d, 20, 32)) })}
}

// Frames are the specifications of the formats.
var Frames = map[int]*Spec{}

func init() {
	add := func(df int, parts ...[]F) {
		fs := join(parts...)
		n := FrameLen(df)
		fs = append(fs, u("FirstField", 6, 8), bytesF("Payload", 9, 8*n-24), bytesF("Parity", 8*n-23, 8*n),
			in("GetDownLinkFormat()", 1, 5, func([]byte) int64 { return int64(df) }),
			u("DownLinkFormat", 1, 5))
		s := &Spec{
			Name: fmt.Sprintf("DF%d", df), Len: n, Fields: fs,
			Valid:  func(d []byte) bool { return DF(d) == df && FrameOK(d) },
			Fix:    func(d []byte, e *lib.Ent) { FixFrame(d, df, e) },
			Decode: func(d []byte) (any, error) { return ReadFrame(d) },
			Extra: func(v any, d []byte, o *lib.Obs) error {
				if got, want := fmt.Sprintf("%T", v), fmt.Sprintf("*messages.MessageDF%d", df); got != want {
					return fmt.Errorf("frame %x decoded as %s, want %s", d, got, want)
				}
				return nil
			},
		}
		Frames[df] = s
	}
	add(0, []F{u("VerticalStatus", 6, 6), u("CrossLinkCapability", 7, 7), u("SensitivityLevel", 9, 11), u("ReplyInformation", 14, 17)}, alt13())
	add(4, utility(), alt13())
	add(5, utility(), squawk())
	add(11, []F{u("Capability", 6, 8), u("AddressAnnounced.Address", 9, 32)})
	add(16, []F{u("VerticalStatus", 6, 6), u("SensitivityLevel", 9, 11), u("ReplyInformation", 14, 17)}, alt13(), []F{bytesF("MessageACAS", 33, 88)})
	add(17, []F{u("Capability", 6, 8), u("AddressAnnounced.Address", 9, 32), bytesF("MessageExtendedSquitter", 33, 88)})
	add(18, []F{u("ControlField", 6, 8), u("AddressAnnounced.Address", 9, 32), bytesF("MessageExtendedSquitter", 33, 88)})
	add(19, []F{u("ApplicationField", 6, 8)})
	add(20, utility(), alt13(), []F{bytesF("MessageCommB", 33, 88)})
	add(21, utility(), squawk(), []F{bytesF("MessageCommB", 33, 88)})
	add(24, []F{u("ControlELM", 4, 4), u("NumberOfDSegment", 5, 8), bytesF("MessageCommD", 9, 88)})
}

// ReadFrame decodes a frame.
func ReadFrame(d []byte) (messages.ModeSMessage, error) { return reader.ReadMessage(d) }

// FrameOK says whether a frame of 7 or 14 bytes must be accepted.
func FrameOK(d []byte) bool {
	df := DF(d)
	if Frames[df] == nil || len(d) != FrameLen(df) {
		return false
	}
	switch df {
	case 0, 4, 16, 20:
		k, _ := AC13(lib.U(d, 20, 32))
		return k != AltBad
	}
	return true
}

// FixFrame sets the format and replaces a malformed altitude.
func FixFrame(d []byte, df int, e *lib.Ent) {
	if df == 24 {
		lib.Put(d, 1, 2, 3)
	} else {
		lib.Put(d, 1, 5, uint64(df))
	}
	switch df {
	case 0, 4, 16, 20:
		if k, _ := AC13(lib.U(d, 20, 32)); k == AltBad {
			lib.Put(d, 20, 32, GenAC13(e))
		}
	}
}

// GenAC13 is a 13-bit altitude code that can be decoded.
func GenAC13(e *lib.Ent) uint64 {
	for {
		c := e.Value(13)
		switch e.N(6) {
		case 0:
			c = 0
		case 1:
			c |= 1 << 4
		case 2, 3:
			c = Spread13(GillhamCode[int64(-1200+100*e.N(1280))])
		}
		if k, _ := AC13(c); k != AltBad {
			return c
		}
	}
}

// GenFrame is a frame of a format.
func GenFrame(e *lib.Ent, df int) []byte { return Frames[df].Gen(e) }

// AsBytes is the content of a slice or array of bytes.
func AsBytes(r reflect.Value) ([]byte, bool) {
	switch r.Kind() {
	case reflect.Slice, reflect.Array:
		if r.Type().Elem().Kind() != reflect.Uint8 {
			return nil, false
		}
		b := make([]byte, r.Len())
		for i := range b {
			b[i] = byte(r.Index(i).Uint())
		}
		return b, true
	}
	return nil, false
}
