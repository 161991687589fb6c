package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/twuillemin/modes/pkg/acas/ra"
	"github.com/twuillemin/modes/pkg/adsb"
	adsbreader "github.com/twuillemin/modes/pkg/adsb/reader"
	"github.com/twuillemin/modes/pkg/commb"
	"github.com/twuillemin/modes/pkg/modes/messages"
	msreader "github.com/twuillemin/modes/pkg/modes/reader"
	"verif/harness/lib"
	"verif/harness/spec"
)

// lineOutput is what the tool must print for a line; kind names what the line is.
func lineOutput(line string, level int) (out, kind string) {
	var b strings.Builder
	p := func(f string, a ...any) { fmt.Fprintf(&b, f, a...) }
	p("Reading: %s\n", line)
	d, err := hex.DecodeString(line)
	if err != nil {
		p("unable to convert the given text to hexadecimal values due to: %v\n", err)
		return b.String(), "not hexadecimal"
	}
	m, err := msreader.ReadMessage(d)
	if err != nil {
		p("%v\n", err)
		return b.String(), "not a message"
	}
	id, err := msreader.CheckCRC(m, d, nil, nil)
	if err != nil {
		p("%v\n", err)
		return b.String(), "bad parity"
	}
	p(" -- Mode-S Information --\n")
	df := spec.DF(d)
	kind = fmt.Sprintf("format %d", df)
	if df == 11 {
		p("In reply to interrogator: %v\n", id.ToString())
	} else {
		p("From: %v\n", id.ToString())
	}
	p("%v\n", m.ToString())
	squitter := func(me []byte) {
		p(" -- ADSB Information --\n")
		v, err := adsbreader.ReadADSBMessage(adsb.ADSBVersion(level), false, false, me)
		if err != nil {
			p("%v\n", err)
			return
		}
		kind += fmt.Sprintf(" type code %d", me[0]>>3)
		p("%v\n", v.ToString())
	}
	register := func(mb []byte) {
		p(" -- Comm-B Information --\n")
		vs, err := commb.ReadCommBMessage(mb)
		if err != nil {
			p("%v\n", err)
			return
		}
		kind += fmt.Sprintf(" %d registers", len(vs))
		if len(vs) == 0 {
			p("Unknown message format\n")
		}
		for i, v := range vs {
			if i > 0 {
				p("-------------------------------\n")
			}
			p("%v\n", v.ToString())
		}
	}
	switch m := m.(type) {
	case *messages.MessageDF16:
		p(" -- ACAS Information --\n")
		mv := d[4:11]
		if mv[0] != 0x30 {
			p("Unknown message type: [%X:%X]\n", mv[0]>>4, mv[0]&15)
			break
		}
		v, err := ra.ReadResolutionAdvisory(mv[1:])
		if err != nil {
			p("%v\n", err)
			break
		}
		kind += " advisory"
		p("%v\n", v.ToString())
	case *messages.MessageDF17:
		squitter(d[4:11])
	case *messages.MessageDF18:
		cf := d[0] & 7
		kind += fmt.Sprintf(" control %d", cf)
		switch cf {
		case 0, 1, 6:
			squitter(d[4:11])
		case 2, 3, 4, 5:
			p(" -- TISB Information --\nNot implemented\n")
		}
	case *messages.MessageDF20, *messages.MessageDF21:
		register(d[4:11])
	default:
		_ = m
		p("\n")
	}
	p("\n")
	return b.String(), kind
}

// genLine makes a line.
func genLine(e *lib.Ent) string {
	df := spec.Formats[e.N(len(spec.Formats))]
	d := spec.GenFrame(e, df)
	switch df {
	case 16:
		if e.P(4) {
			break
		}
		d[4] = 0x30
		copy(d[5:], spec.BDS30.Gen(e)[1:])
	case 17, 18:
		copy(d[4:11], spec.GenSquitter(e, spec.AllTCs...).D)
	case 20, 21:
		if !e.P(4) {
			r := genAnyRegister(e)
			for _, s := range []*spec.Spec{spec.BDS10, spec.BDS17, spec.BDS20, spec.BDS30, spec.BDS40, spec.BDS44, spec.BDS45, spec.BDS50, spec.BDS60} {
				if e.P(9) {
					r = e.Mixed(7)
					if s.Cohere != nil {
						s.Cohere(r, e)
					}
					if s.Fix != nil {
						s.Fix(r, e)
					}
					if e.P(6) {
						spec.OneBit(r, e)
					}
				}
			}
			copy(d[4:11], r)
		}
	}
	overlay := uint32(0)
	if df != 17 && df != 18 {
		overlay = uint32(e.Value(24))
	}
	if !e.P(12) {
		seal(d, overlay)
	}
	switch e.N(24) {
	case 0: // another length
		if n := e.N(20); n < len(d) {
			d = d[:n]
		} else {
			d = append(d, e.Bytes(n-len(d))...)
		}
	case 1: // any bytes
		d = e.Mixed(e.N(20))
	case 2:
		lib.Put(d, 1, 5, uint64(e.N(32)))
	}
	s := hex.EncodeToString(d)
	if e.Bool() {
		s = strings.ToUpper(s)
	}
	switch e.N(30) {
	case 0: // an odd number of digits
		if len(s) > 0 {
			s = s[:len(s)-1]
		}
	case 1: // something which is not hexadecimal
		if len(s) > 0 {
			i := e.N(len(s))
			s = s[:i] + []string{"g", " ", "*", ";", "-", "é", "%d", "\t", "\x00"}[e.N(9)] + s[i:]
		}
	case 2:
		s = []string{"", " ", "#", "8D", "zz", "0x" + s, s + " ", " " + s, "*" + s + ";", "%s%v", s + s}[e.N(11)]
	case 3:
		if e.P(10) {
			s = strings.Repeat(s+"00", 1+e.N(6000))
		}
	}
	return s
}

var fileCount atomic.Int64

// runTool runs the command.
func runTool(args ...string) (stdout string, code int, err error) { return runToolOn("", args...) }

// runToolOn runs the command with a standard input, which is a pipe.
func runToolOn(input string, args ...string) (stdout string, code int, err error) {
	tool := os.Getenv("VERIF_CMD")
	if tool == "" {
		panic(lib.HarnessError{Msg: "the command was not built (VERIF_CMD)"})
	}
	cmd := exec.Command(tool, args...)
	var out bytes.Buffer
	cmd.Stdout = &out
	if input != "" {
		cmd.Stdin = strings.NewReader(input)
	}
	cmd.Dir = scratch()
	if err := cmd.Start(); err != nil {
		panic(lib.HarnessError{Msg: "the command does not start: " + err.Error()})
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(60 * time.Second):
		_ = cmd.Process.Kill()
		<-done
		return out.String(), -1, fmt.Errorf("the command does not terminate")
	}
	if err != nil {
		if x, ok := err.(*exec.ExitError); ok {
			return out.String(), x.ExitCode(), nil
		}
		panic(lib.HarnessError{Msg: "the command: " + err.Error()})
	}
	return out.String(), 0, nil
}

func scratch() string {
	if d := os.Getenv("VERIF_RUN_DIR"); d != "" {
		return d
	}
	return os.TempDir()
}

// firstDifference shows where two outputs part.
func firstDifference(got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := 0; ; i++ {
		if i >= len(g) || i >= len(w) || g[i] != w[i] {
			at := func(x []string) string {
				if i >= len(x) {
					return "the end"
				}
				return fmt.Sprintf("%.200q", x[i])
			}
			return fmt.Sprintf("line %d of the output: got %s, want %s", i+1, at(g), at(w))
		}
	}
}

func init() {
	add("C26", "at least one line is decoded",
		[]string{"the content of the reports is the one the library gives, whose correctness is the object of the other properties",
			"the lines of a file end with a newline or a carriage return and a newline and hold neither inside"},
		func(r *lib.Runner) {
			// n: level, how the level is given, ends of lines, how the file is given.
			check := func(c *lib.Case, o *lib.Obs) error {
				level := int(c.N[0])
				if len(c.N) > 4 && c.N[4] > 0 && len(c.S) > 0 { // many lines, of which few are distinct
					lines := make([]string, c.N[4]&0xFFFFF)
					for i := range lines {
						lines[i] = c.S[i%len(c.S)]
					}
					c = &lib.Case{S: lines, N: c.N}
				}
				var args []string
				input := ""
				switch c.N[1] & 3 {
				case 0:
					args = []string{"-adsb_reader_level", strconv.Itoa(level)}
				case 1:
					args = []string{fmt.Sprintf("-adsb_reader_level=%d", level)}
				case 2:
					args = []string{fmt.Sprintf("--adsb_reader_level=%d", level)}
				default:
					level = 0
				}
				var want strings.Builder
				decoded := false
				known := map[string][2]string{}
				for _, l := range c.S {
					x, ok := known[l]
					if !ok {
						x[0], x[1] = lineOutput(l, level)
						known[l] = x
					}
					s, kind := x[0], x[1]
					want.WriteString(s)
					o.Class(kind)
					decoded = decoded || strings.HasPrefix(kind, "format")
				}
				if decoded {
					o.NonTrivial()
				}
				if c.N[3] == 1 && len(c.S) == 1 && len(c.S[0]) < 100000 && !strings.HasPrefix(c.S[0], "-") && !strings.Contains(c.S[0], "\x00") {
					o.Class("argument")
					args = append(args, c.S[0])
				} else {
					o.Class("file")
					end := "\n"
					if c.N[2]&1 == 1 {
						end = "\r\n"
					}
					text := strings.Join(c.S, end)
					if c.N[2]&2 == 0 && len(c.S) > 0 || (len(c.S) > 0 && c.S[len(c.S)-1] == "") {
						text += end
					}
					base := fmt.Sprintf("in-%d-%d.txt", os.Getpid(), fileCount.Add(1))
					kind := c.N[1] >> 5 & 7
					if kind == 1 {
						base = []string{"a file of ", "8D4B969699155600E87406F5B69F ", "été,%s;", "=", "$HOME*?"}[c.N[1]>>8&3] + base
					}
					name := filepath.Join(scratch(), base)
					if err := os.WriteFile(name, []byte(text), 0o600); err != nil {
						panic(lib.HarnessError{Msg: err.Error()})
					}
					defer os.Remove(name)
					switch {
					case kind == 1 || kind == 2: // its name in the working folder
						o.Class("name in the folder")
						name = base
					case kind == 3:
						if link := name + ".link"; os.Symlink(base, link) == nil {
							o.Class("link")
							defer os.Remove(link)
							name = link
						}
					case kind == 4 && text != "":
						o.Class("pipe")
						name, input = "/dev/stdin", text
					}
					f := []string{"-file", name}
					if c.N[1]&4 != 0 {
						f = []string{"-file=" + name}
					}
					if c.N[1]&8 != 0 {
						args = append(args, f...)
					} else {
						args = append(f, args...)
					}
					if c.N[1]&16 != 0 { // the file is what is read
						o.Class("file and argument")
						args = append(args, "--", "8D4B969699155600E87406F5B69F")
					}
				}
				out, code, err := runToolOn(input, args...)
				if err != nil {
					return err
				}
				if out != want.String() {
					return fmt.Errorf("%s", firstDifference(out, want.String()))
				}
				if code != 0 {
					return fmt.Errorf("the exit status is %d", code)
				}
				return nil
			}
			mk := func(e *lib.Ent, lines []string, arg int64) *lib.Case {
				return &lib.Case{S: lines, N: []int64{int64(e.N(3)), int64(e.N(1024)), int64(e.N(4)), arg}}
			}
			r.Add(&lib.Sub{Name: "files",
				Gen: lib.Random(func(e *lib.Ent) *lib.Case {
					n := 1 + e.N(60)
					if e.P(40) {
						n = 1200 + e.N(1500) // more than the first allocation of the reader
					}
					if e.P(100) {
						n = 0
					}
					lines := make([]string, n)
					for i := range lines {
						if i > 0 && e.P(6) {
							lines[i] = lines[e.N(i)]
						} else {
							lines[i] = genLine(e)
						}
					}
					return mk(e, lines, 0)
				}),
				Check: check, Quick: 2400, Thorough: 120000})
			r.Add(&lib.Sub{Name: "many lines",
				Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
					for _, n := range []int{1025, 4097, 5000, 8193, 10001, 20000, 32769, 65537, 100003} {
						c := mk(e, nil, 0)
						for k := 1 + e.N(5); k > 0; k-- {
							c.S = append(c.S, genLine(e))
						}
						for i, l := range c.S {
							if len(l) > 28 {
								c.S[i] = l[:28]
							}
						}
						c.N = append(c.N, int64(n))
						yield(c)
					}
				},
				Check: check, EnumX: 4})
			r.Add(&lib.Sub{Name: "arguments",
				Gen:   lib.Random(func(e *lib.Ent) *lib.Case { return mk(e, []string{genLine(e)}, 1) }),
				Check: check, Quick: 2400, Thorough: 60000})
			r.Add(&lib.Sub{Name: "refused",
				// n: what is wrong (1: the level, 2: the file, 3: the level is not a number), the level, how the line is given.
				Gen: lib.Random(func(e *lib.Ent) *lib.Case {
					level := int64(3 + e.N(300))
					if e.P(3) {
						level = -1 - int64(e.N(5))
					} else if e.P(4) {
						level = int64(e.U64()>>1) | 4
					} else if e.P(3) { // whose last bits are those of a level
						level = 1<<(8*uint(1+e.N(5))) + int64(e.N(3))
					}
					return &lib.Case{S: []string{"8D4B969699155600E87406F5B69F", genLine(e)}[e.N(2):][:1], N: []int64{int64(1 + e.N(3)), level, int64(e.N(4))}}
				}),
				Check: func(c *lib.Case, o *lib.Obs) error {
					if len(c.N) < 3 || len(c.S) == 0 || len(c.S[0]) > 1000 || strings.Contains(c.S[0], "\x00") {
						return nil
					}
					level := c.N[1]
					if level >= 0 && level <= 2 {
						return nil
					}
					name := filepath.Join(scratch(), fmt.Sprintf("in-%d-%d.txt", os.Getpid(), fileCount.Add(1)))
					given := []string{"-file", name}
					switch {
					case c.N[0] == 2: // a file that does not exist
						if c.N[2] == 1 { // or a folder
							given[1] = scratch()
						}
						if c.N[2] > 1 {
							given = append(given, "--", c.S[0])
						}
					default:
						if c.N[2]&1 == 1 {
							given = []string{"--", c.S[0]}
							break
						}
						if err := os.WriteFile(name, []byte(c.S[0]+"\n"), 0o600); err != nil {
							panic(lib.HarnessError{Msg: err.Error()})
						}
						defer os.Remove(name)
					}
					args := given
					switch c.N[0] {
					case 1:
						args = append([]string{fmt.Sprintf("-adsb_reader_level=%d", level)}, given...)
					case 3:
						args = append([]string{"-adsb_reader_level", []string{"x", "", "1.5", "V2"}[c.N[2]&3]}, given...)
					}
					o.Class([]string{"a level", "a file", "a word for level"}[(c.N[0]+2)%3])
					out, code, err := runTool(args...)
					if err != nil {
						return err
					}
					if code == 0 || strings.Contains(out, "Reading: ") || strings.Contains(out, " -- ") {
						return fmt.Errorf("with %q: status %d and %.200q", args, code, out)
					}
					o.NonTrivial()
					return nil
				}, Quick: 400, Thorough: 8000})
			r.Add(&lib.Sub{Name: "nothing",
				Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
					for k := int64(0); k < 4; k++ {
						yield(&lib.Case{N: []int64{k}})
					}
				},
				Check: func(c *lib.Case, o *lib.Obs) error {
					var args []string
					if c.N[0] > 0 {
						args = []string{"-adsb_reader_level", strconv.Itoa(int(c.N[0] - 1))}
					}
					out, code, err := runTool(args...)
					if err != nil {
						return err
					}
					if out != "No data provided" || code != 0 {
						return fmt.Errorf("without message: %q, status %d", out, code)
					}
					return nil
				}})
		})
}
