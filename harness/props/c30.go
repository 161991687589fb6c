package props

import (
	"fmt"
	"math"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"verif/harness/lib"
)

// machines are the other builds of the harness.
var machines = sync.OnceValue(func() map[string]string {
	m := map[string]string{}
	for name, v := range map[string]string{"32 bits (386)": "VERIF_MACHINE_386", "fused products (amd64 v3)": "VERIF_MACHINE_V3", "fused products (as arm64)": "VERIF_MACHINE_FMA"} {
		exe := os.Getenv(v)
		if exe == "" && strings.HasSuffix(v, "FMA") {
			continue
		}
		if exe == "" {
			panic(lib.HarnessError{Msg: "no " + v})
		}
		if log := os.Getenv("VERIF_MACHINE_LOG"); log != "" && strings.HasSuffix(v, "386") {
			b, _ := os.ReadFile(log)
			m[name] = "!" + string(b)
			continue
		}
		// A machine that can not run here says nothing.
		cmd := exec.Command(exe, "history")
		cmd.Stdin = strings.NewReader("{}")
		if out, err := cmd.CombinedOutput(); err == nil || strings.Contains(string(out), "goroutine ") {
			m[name] = exe
		}
	}
	return m
})

var number = regexp.MustCompile(`[-+]?[0-9]+(\.[0-9]+)?([eE][-+][0-9]+)?`)

// alike says whether two descriptions are equal but for the last digits of their numbers with decimals.
func alike(a, b string) bool {
	if a == b {
		return true
	}
	if number.ReplaceAllString(a, "0") != number.ReplaceAllString(b, "0") {
		return false
	}
	x, y := number.FindAllString(a, -1), number.FindAllString(b, -1)
	for i := range x {
		if x[i] == y[i] {
			continue
		}
		if !strings.ContainsAny(x[i]+y[i], ".e") {
			return false
		}
		v, err := strconv.ParseFloat(x[i], 64)
		w, err2 := strconv.ParseFloat(y[i], 64)
		if err != nil || err2 != nil || math.Abs(v-w) > 1e-6*math.Max(1, math.Abs(v)) {
			return false
		}
	}
	return true
}

// halfway says whether an encoded coordinate is a simple fraction of a zone, possibly as far from a solution as from another.
func halfway(d []byte) bool {
	for _, i := range []int{1, 18, 30, 40} {
		if len(d) >= 7 && lib.U(d, i, i+16)%1024 == 0 {
			return true
		}
	}
	return false
}

func sameEverywhere(c *lib.Case, o *lib.Obs) error {
	h := newHistory(c.L)
	if len(h.ops) == 0 {
		return nil
	}
	o.NonTrivial()
	here := make([]string, len(h.ops))
	for i, op := range h.ops {
		here[i] = h.print(op)
	}
	for name, exe := range machines() {
		if exe[0] == '!' {
			return fmt.Errorf("the library does not build for a machine of %s: %s", name, exe[1:])
		}
		ops := h.ops
		o.Class(name)
		a, _, err := runChildIn(exe, "", childRequest{Ops: ops, Order: orderOf(len(ops), 0, 0)})
		if err != nil {
			return fmt.Errorf("on a machine of %s: %v", name, err)
		}
		if len(a.Prints) != len(here) {
			panic(lib.HarnessError{Msg: fmt.Sprintf("%d answers for %d messages", len(a.Prints), len(here))})
		}
		for i, op := range ops {
			if int(op[0])%(len(entries)+opKinds) == len(entries)+1 && !strings.HasPrefix(name, "32") && halfway(op[3:]) {
				continue // the nearest position is one or the other, depending on the last digit
			}
			if !alike(here[i], a.Prints[i]) {
				return fmt.Errorf("%s depends on the machine: %s on one of %s", opName(op), differ(here[i], a.Prints[i]), name)
			}
		}
	}
	return nil
}

func init() {
	add("C30", "at least one message was read on the other machines", []string{
		"numbers with decimals are compared within 1e-6: the last digit of a product and of its fused form may differ",
		"a machine whose program can not run here is left out (a class of the histogram counts each machine)",
	}, func(r *lib.Runner) {
		messages := func(seed uint64, k, n int) *lib.Case {
			f := newFeeder(seed, k)
			c := &lib.Case{}
			for ; n > 0; n-- {
				i, p, d := f.next()
				c.L = append(c.L, opOf(i, p, d))
			}
			return c
		}
		many := func(e *lib.Ent) *lib.Case {
			k := e.N(fedKinds)
			if e.P(6) {
				k = keptKinds + 1 // the positions, where the products are
			}
			return messages(e.U64(), k, 100+e.N(400))
		}
		r.Add(&lib.Sub{Name: "machines",
			Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
				for k := 0; k < fedKinds; k++ {
					yield(messages(e.U64(), k, 400))
				}
			},
			Gen:   lib.Random(many),
			Check: sameEverywhere, Free: true, FreeL: 3, EnumX: 10, Quick: 1200, Thorough: 40000})
	})
}
