package props

import (
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"time"

	"verif/harness/lib"
)

// surroundingsOf answers the questions that the library would ask to the system: the moment in milliseconds since 1970
// (0: the real one), and the value of any variable, the name of the host (empty: the real ones). It is only in the
// program built with the packages of cmd/elsewhere.
var surroundingsOf func(moment int64, answer string, all bool)

// asked is the number of questions of the library to the system.
var asked func() int64

var answers = []string{"1", "0", "true", "false", "on", "off", "yes", "debug", "strict", "2", "-1", "32", "C", "fr_FR.UTF-8", "tr_TR", "UTC", "/nonexistent", "modes", "localhost", "raspberrypi", " "}

// answerOf is a usual value, or a word of the source.
func answerOf(e *lib.Ent) string {
	if e.P(3) {
		return e.Text()
	}
	return answers[e.N(len(answers))]
}

// moments are the limits of the calendar, in seconds.
var moments = []int64{
	1,
	951782400,    // 29 February 2000
	1709164800,   // 29 February 2024
	4107542400,   // 1 March 2100
	1554595200,   // roll-over of the weeks of GPS
	2173219200,   // the next one
	2147483648,   // past the 31 bits
	4294967296,   // past the 32 bits
	1483228799,   // leap second
	1767225600,   // 1 January 2026
	253402300800, // year 10000
}

// momentAfter is another moment, sometimes near the one before.
func momentAfter(e *lib.Ent, m int64) int64 {
	switch e.N(6) {
	case 0:
		m += int64(e.N(2000)) - 500
	case 1:
		m += int64(e.N(7200000)) - 1800000
	case 2:
		m = moments[e.N(len(moments))]*1000 + int64(e.N(4000)) - 2000
	case 3:
		m = m/86400000*86400000 + int64(e.N(4000)) - 2000 // midnight
	default:
		m = int64(e.N(1<<30)) * 4400 // till 2119
	}
	return max(m, 1)
}

// sameMoment reads the messages in the real surroundings and in others.
func sameMoment(c *lib.Case, o *lib.Obs) error {
	if surroundingsOf == nil {
		panic(lib.HarnessError{Msg: "not built with the packages of cmd/elsewhere"})
	}
	if len(c.N) < 1 {
		return nil
	}
	h := newHistory(c.L)
	e := lib.NewEnt(uint64(c.N[0]))
	m := int64(1767225600000)
	defer surroundingsOf(0, "", false)
	before := asked()
	for _, op := range h.ops {
		o.NonTrivial()
		surroundingsOf(0, "", false)
		here := h.print(op)
		for k := 0; k < 4; k++ {
			m = momentAfter(e, m)
			answer := ""
			if k > 0 {
				answer = answerOf(e)
			}
			if e.P(300) {
				runtime.GC()
			}
			surroundingsOf(m, answer, k == 3)
			there := h.print(op)
			if there != here {
				surroundingsOf(0, "", false)
				if again := h.print(op); again != here {
					return fmt.Errorf("%s gives another result when repeated: %s", opName(op), differ(here, again))
				}
				if answer == "" {
					return fmt.Errorf("%s depends on the moment: %s on %s", opName(op), differ(here, there), time.UnixMilli(m).UTC().Format(time.RFC3339Nano))
				}
				surroundingsOf(m, "", false)
				if h.print(op) == here {
					return fmt.Errorf("%s depends on the environment: %s when the variables are %q", opName(op), differ(here, there), answer)
				}
				return fmt.Errorf("%s depends on the moment: %s on %s", opName(op), differ(here, there), time.UnixMilli(m).UTC().Format(time.RFC3339Nano))
			}
		}
	}
	if asked() != before {
		o.Class("the library asked something to the system")
	}
	return nil
}

// sameStart reads the messages in a process started in other surroundings.
func sameStart(c *lib.Case, o *lib.Obs) error {
	h := newHistory(c.L)
	if len(h.ops) == 0 || len(c.N) < 1 {
		return nil
	}
	o.NonTrivial()
	here := make([]string, len(h.ops))
	for i, op := range h.ops {
		here[i] = h.print(op)
	}
	dir, err := os.MkdirTemp("", "verif-elsewhere")
	if err != nil {
		panic(lib.HarnessError{Msg: err.Error()})
	}
	defer os.RemoveAll(dir)
	e := lib.NewEnt(uint64(c.N[0]))
	pick := func(s ...string) string { return s[e.N(len(s))] }
	answer := answerOf(e)
	file := dir + "/file"
	if err := os.WriteFile(file, []byte(answer+"\n"), 0o600); err != nil {
		panic(lib.HarnessError{Msg: err.Error()})
	}
	env := []string{
		"TZ=" + pick("UTC", "Asia/Kathmandu", "America/St_Johns", "Nowhere", ":"),
		"LANG=" + pick("C", "fr_FR.UTF-8", "tr_TR.UTF-8", "zh_CN.GB18030"),
		"LC_ALL=" + pick("C", "fr_FR.UTF-8", "ar_EG"),
		"TERM=" + pick("dumb", "xterm-256color", ""),
		"USER=" + pick("root", "nobody", ""),
		"GOMAXPROCS=" + pick("1", "2", "3", "64"),
		"GOGC=" + pick("off", "5", "100"),
		"DEBUG=" + answer, "VERBOSE=" + answer, "NO_COLOR=" + answer, "CI=" + answer,
	}
	if !e.P(4) {
		env = append(env, "VERIF_MOMENT="+strconv.FormatInt(momentAfter(e, 1767225600000), 10), "VERIF_ANSWER="+answer)
	}
	if e.Bool() {
		env = append(env, "VERIF_FILE="+file)
	}
	if e.P(3) {
		env = append(env, "VERIF_ALL=1")
	}
	env = append(env, "VERIF_NAMES="+strings.Join(lib.Names(), ",")+",")
	q := childRequest{Ops: h.ops, Order: orderOf(len(h.ops), 0, 0), Idle: []int{0, 0, 100, 3000}[e.N(4)], env: env, cpus: e.N(4)}
	for e.Bool() {
		q.args = append(q.args, pick("-", "--", "")+answerOf(e))
	}
	if q.cpus > 0 {
		o.Class("fewer processors")
	}
	a, _, err := runChildIn(os.Args[0], dir, q)
	if err != nil {
		return fmt.Errorf("in other surroundings (%v): %v", env[:len(env)-1], err)
	}
	if len(a.Prints) != len(here) {
		panic(lib.HarnessError{Msg: fmt.Sprintf("%d answers for %d messages", len(a.Prints), len(here))})
	}
	for i, op := range h.ops {
		if here[i] != a.Prints[i] {
			return fmt.Errorf("%s depends on the surroundings: %s with %v", opName(op), differ(here[i], a.Prints[i]), env[:len(env)-1])
		}
	}
	return nil
}

func init() {
	add("C32", "at least one message was read in other surroundings", []string{
		"the moment, the variables of the environment, the name of the host, the numbers of the process and of the user and the files are those asked through the packages syscall, time and os, of which the program has a copy that answers as told when the library asks",
	}, func(r *lib.Runner) {
		messages := func(e *lib.Ent, k, n int) *lib.Case {
			c := &lib.Case{N: []int64{int64(e.U64() >> 1)}, L: fedOps(e, k, n)}
			if k < keptKinds || k > keptKinds+1 { // parities and positions too
				c.L = append(c.L, fedOps(e, keptKinds, n/10)...)
				c.L = append(c.L, fedOps(e, keptKinds+1, n/5)...)
			}
			return c
		}
		every := func(n int) func(e *lib.Ent, yield func(c *lib.Case)) {
			return func(e *lib.Ent, yield func(c *lib.Case)) {
				for k := 0; k < fedKinds; k++ {
					yield(messages(e, k, n))
				}
			}
		}
		r.Add(&lib.Sub{Name: "moments",
			Enum:  every(400),
			Gen:   lib.Random(func(e *lib.Ent) *lib.Case { return messages(e, e.N(fedKinds), 20+e.N(200)) }),
			Check: sameMoment, Free: true, FreeL: 3, EnumX: 4, Quick: 3000, Thorough: 100000})
		r.Add(&lib.Sub{Name: "starts",
			Enum:  every(100),
			Gen:   lib.Random(func(e *lib.Ent) *lib.Case { return messages(e, e.N(fedKinds), 20+e.N(200)) }),
			Check: sameStart, Free: true, FreeL: 3, EnumX: 10, Quick: 500, Thorough: 20000})
	})
}
