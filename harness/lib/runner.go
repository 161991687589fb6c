package lib

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Obs is what a check says of the case it evaluates.
type Obs struct {
	nontrivial bool
	classes    []string
	r          *Runner
}

// NonTrivial marks the case as non-trivial.
func (o *Obs) NonTrivial() { o.nontrivial = true }

// Class counts the case in a class of the histogram.
func (o *Obs) Class(s string) { o.classes = append(o.classes, s) }

// Known says whether key is a listed known finding of the property (and reports it).
func (o *Obs) Known(key string) bool {
	if _, ok := o.r.known[key]; ok {
		o.r.knownSeen[key]++
		return true
	}
	return false
}

// Sub is a part of a property: a generator or an enumeration, and a check.
type Sub struct {
	Name     string
	Gen      func(t *rapid.T) *Case            // random cases
	Enum     func(e *Ent, yield func(c *Case)) // enumerated cases; e is seeded by the run
	Exhaust  bool                              // the enumeration is the whole space
	Check    func(c *Case, o *Obs) error
	Quick    int // number of generated cases of a quick run, all shards together
	Thorough int // the same of a thorough run
	// Free says that the check accepts any value of the bytes of a case, so that it can be mutated;
	// Fields are ranges of bits worth changing, Fix is applied to most of the mutations.
	Free   bool
	Fields [][2]int
	Race   bool  // this part needs the race detector
	FreeN  []int // width of the numbers of a case that can be changed (0 for the others)
	Fix    func(c *Case, e *Ent)
	Always bool // Fix is applied to all of them: the check needs it
	KeepE  bool // the second bytes are not mutated
	FreeL  int  // the elements of the list can be mutated from this byte on (0 if they can not)
	EnumX  int  // repetitions of the enumeration (with other backgrounds) in a thorough run
}

// Runner runs one property.
type Runner struct {
	ID          string
	Rule        string
	Assumptions []string
	subs        []*Sub

	tier      string
	seed      int64
	shard     int
	shards    int
	known     map[string]string
	knownSeen map[string]int

	deadline time.Time

	// Scale multiplies the number of the random cases of a quick run.
	Scale int

	truncated bool

	evals     int64
	nontriv   int64
	hashes    map[uint64]struct{}
	classes   map[string]int64
	samples   []string
	nsample   map[string]int64
	traceFile string
	outFile   string
	current   atomic.Pointer[Case]
	started   atomic.Int64
	stop      atomic.Bool // another shard failed
	fail      *failure
	guides    map[string]*guide
	ent       *Ent
}

type failure struct {
	Property string `json:"property"`
	Case     *Case  `json:"case"`
	Error    string `json:"error"`
}

type shardResult struct {
	Evals, NonTrivial int64
	Classes           map[string]int64
	Samples           []string
	Known             map[string]int
	Truncated         bool
	Fail              *failure
	Capped            bool
}

const hashCap = 400000

// Add adds a part.
func (r *Runner) Add(s *Sub) { r.subs = append(r.subs, s) }

// Ctx draws the entropy of a case from the library.
func Ctx(t *rapid.T) *Ent {
	a := rapid.Uint64().Draw(t, "a")
	b := rapid.Uint64().Draw(t, "b")
	c := rapid.Uint64().Draw(t, "c")
	return NewEnt(a, b, c)
}

// Random is a generator from the entropy alone.
func Random(f func(e *Ent) *Case) func(t *rapid.T) *Case {
	return func(t *rapid.T) *Case { return f(Ctx(t)) }
}

func env(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

// Prop is a property.
type Prop struct {
	ID          string
	Rule        string // what makes a case non-trivial
	Assumptions []string
	Setup       func(r *Runner)
}

// Main is the entry point: the first argument is the property.
func Main(props []*Prop) {
	var p *Prop
	if len(os.Args) > 1 {
		for _, x := range props {
			if x.ID == os.Args[1] {
				p = x
			}
		}
	}
	if p == nil {
		fmt.Println("harness error: unknown property")
		os.Exit(2)
	}
	os.Args = append(os.Args[:1:1], os.Args[2:]...)
	r := &Runner{ID: p.ID, Rule: p.Rule, Assumptions: p.Assumptions,
		hashes: map[uint64]struct{}{}, classes: map[string]int64{}, nsample: map[string]int64{},
		known: map[string]string{}, knownSeen: map[string]int{}}
	testing.Init()
	shard := flag.Int("shard", -1, "run one shard")
	shards := flag.Int("shards", 8, "number of shards")
	out := flag.String("out", "", "result file of the shard")
	replay := flag.String("replay", "", "replay a case")
	root := flag.String("root", "/verif", "where evidence and replays are written")
	trace := flag.String("trace", "", "write each case in this file before running it")
	only := flag.String("only", "", "run only the part of this name")
	race := flag.Bool("race", false, "run the parts that need the race detector")
	flag.Parse()
	r.tier = env("VERIF_TIER", "quick")
	r.seed, _ = strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	r.loadKnown(filepath.Join(*root, "known_findings.txt"))
	p.Setup(r)
	if *only != "" {
		var keep []*Sub
		for _, s := range r.subs {
			if s.Name == *only {
				keep = append(keep, s)
			}
		}
		r.subs = keep
	}
	r.traceFile, r.outFile = *trace, *out
	debug.SetMaxStack(64 << 20) // an endless recursion ends before the memory
	if *replay == "" && *shard >= 0 && raceBinary() != "" {
		var keep []*Sub
		for _, s := range r.subs {
			if s.Race == *race {
				keep = append(keep, s)
			}
		}
		r.subs = keep
	}
	if *replay != "" {
		os.Exit(r.replay(*replay))
	}
	if *shard >= 0 {
		r.shard, r.shards = *shard, *shards
		r.runShard(*out)
		os.Exit(0)
	}
	os.Exit(r.parent(*root, *shards, *only))
}

func (r *Runner) loadKnown(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "known:" && f[1] == "property="+r.ID && strings.HasPrefix(f[2], "key=") {
			r.known[f[2][4:]] = strings.Join(f[3:], " ")
		}
	}
}

// raceBinary is this program built with the race detector, for the parts that need it (and without the counters
// that guide the generation: with them the race detector takes the reuse of a stack for a race).
func raceBinary() string { return os.Getenv("VERIF_RACE") }

func (r *Runner) sub(name string) *Sub {
	for _, s := range r.subs {
		if s.Name == name {
			return s
		}
	}
	return nil
}

func (r *Runner) replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println("harness error:", err)
		return 2
	}
	var f failure
	if err = json.Unmarshal(b, &f); err != nil || f.Case == nil {
		fmt.Println("harness error: bad replay file", err)
		return 2
	}
	s := r.sub(f.Case.Sub)
	if s == nil {
		fmt.Println("harness error: unknown part", f.Case.Sub)
		return 2
	}
	if s.Race && raceBinary() != "" && os.Args[0] != raceBinary() {
		cmd := exec.Command(raceBinary(), r.ID, "-replay", path)
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		_ = cmd.Run()
		return cmd.ProcessState.ExitCode()
	}
	go r.watchdog("")
	if err = r.eval(s, f.Case, &Obs{r: r}); err != nil {
		fmt.Printf("%s: %v\n", f.Case, err)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, path)
		return 1
	}
	fmt.Println("the case passes")
	return 0
}

// eval runs the check on a case; a panic is a failure.
func (r *Runner) eval(s *Sub, c *Case, o *Obs) (err error) {
	r.current.Store(c)
	r.started.Add(1)
	if r.traceFile != "" {
		b, _ := json.Marshal(failure{r.ID, c, "the process died on this case"})
		_ = os.WriteFile(r.traceFile, b, 0o644)
	}
	finished := false
	defer func() {
		r.current.Store(nil)
		p := recover()
		if p == nil && !finished { // runtime.Goexit
			r.abandon(c)
		}
		if p != nil {
			if hp, ok := p.(HarnessError); ok {
				fmt.Fprintln(os.Stderr, "harness error:", hp.Msg)
				os.Exit(2)
			}
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 1500 {
				st = st[:1500]
			}
			err = fmt.Errorf("panic: %v\n%s", p, st)
		}
	}()
	err = s.Check(c, o)
	finished = true
	return err
}

// abandon reports a case which ended its goroutine, and ends the process.
func (r *Runner) abandon(c *Case) {
	f := &failure{r.ID, c, "the case ends its goroutine (runtime.Goexit)"}
	if r.outFile == "" {
		fmt.Printf("%s: %s\nVIOLATION property=%s replay=-\n", c, f.Error, r.ID)
		os.Exit(1)
	}
	_ = os.WriteFile(stopFile(), nil, 0o644)
	b, _ := json.Marshal(shardResult{Fail: f, Evals: r.evals, Classes: map[string]int64{}})
	_ = os.WriteFile(r.outFile, b, 0o644)
	os.Exit(0)
}

// HarnessError is a panic value that is an error of the check and not a violation.
type HarnessError struct{ Msg string }

const caseLimit = 90 * time.Second

// watchdog ends the process when a single case does not finish.
func (r *Runner) watchdog(out string) {
	var last int64 = -1
	var since time.Time
	for {
		time.Sleep(2 * time.Second)
		if _, err := os.Stat(stopFile()); err == nil {
			r.stop.Store(true)
		}
		n := r.started.Load()
		c := r.current.Load()
		if n != last || c == nil {
			last, since = n, time.Now()
			continue
		}
		if time.Since(since) > caseLimit {
			r.fail = &failure{r.ID, c, "the case does not terminate"}
			if out != "" {
				b, _ := json.Marshal(shardResult{Fail: r.fail, Evals: r.evals, Classes: map[string]int64{}})
				_ = os.WriteFile(out, b, 0o644)
				os.Exit(0)
			}
			fmt.Printf("%s: does not terminate\nVIOLATION property=%s replay=-\n", c, r.ID)
			os.Exit(1)
		}
	}
}

// stopFile is made by the first shard that fails: the others then stop.
func stopFile() string { return filepath.Join(env("VERIF_RUN_DIR", "/nonexistent"), "stop") }

func (r *Runner) over() bool { return r.stop.Load() || time.Now().After(r.deadline) }

// run evaluates and records a case; it returns the failure.
func (r *Runner) run(s *Sub, c *Case) error {
	c.Sub = s.Name
	o := &Obs{r: r}
	g := r.guideOf(s)
	if g != nil {
		g.begin()
	}
	err := r.eval(s, c, o)
	if g != nil {
		g.end(c, r.ent)
	}
	r.evals++
	r.classes["part "+s.Name]++
	for _, k := range o.classes {
		r.classes[k]++
	}
	if o.nontrivial {
		r.nontriv++
		if len(r.hashes) < hashCap {
			r.hashes[c.hash()] = struct{}{}
		}
		n := r.nsample[s.Name]
		r.nsample[s.Name] = n + 1
		if r.shard == 0 && (n == 0 || n == 37 || n == 1009) {
			r.samples = append(r.samples, c.String())
		}
	}
	return err
}

// guideOf returns the guide of the generation of the part, if it has one.
func (r *Runner) guideOf(s *Sub) *guide {
	if !s.Free {
		return nil
	}
	g, ok := r.guides[s.Name]
	if !ok {
		if n := coverCounters(); n != nil {
			g = &guide{counters: n, seen: make([]byte, len(n))}
		}
		if r.guides == nil {
			r.guides = map[string]*guide{}
			r.ent = NewEnt(r.seedFor("guide", r.shard))
		}
		r.guides[s.Name] = g
	}
	return g
}

type tb struct{ failed bool }

func (*tb) Helper()                     {}
func (*tb) Name() string                { return "property" }
func (*tb) Logf(string, ...any)         {}
func (*tb) Log(...any)                  {}
func (*tb) Skipf(string, ...any)        { runtime.Goexit() }
func (*tb) Skip(...any)                 { runtime.Goexit() }
func (*tb) SkipNow()                    { runtime.Goexit() }
func (t *tb) Errorf(f string, a ...any) { t.failed = true }
func (t *tb) Error(a ...any)            { t.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.failed = true; runtime.Goexit() }
func (t *tb) Fatal(a ...any)            { t.failed = true; runtime.Goexit() }
func (t *tb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * fnvPrime
	}
	return h
}

func (r *Runner) seedFor(name string, shard int) uint64 {
	s := mix(uint64(r.seed)*0x9E3779B97F4A7C15 ^ mix(uint64(shard)+1) ^ strHash(name))
	if s == 0 {
		s = 1
	}
	return s
}

func (r *Runner) runShard(out string) {
	budget := 240 * time.Second
	if r.tier == "thorough" {
		budget = 780 * time.Second
	}
	r.deadline = time.Now().Add(budget)
	go r.watchdog(out)
	_ = flag.Set("rapid.nofailfile", "true")
	_ = flag.Set("rapid.shrinktime", "3s")
	for _, s := range r.subs {
		if r.fail != nil {
			break
		}
		if s.Enum != nil {
			r.runEnum(s)
		}
		if s.Gen != nil && r.fail == nil {
			r.runGen(s)
		}
	}
	if r.fail != nil {
		_ = os.WriteFile(stopFile(), nil, 0o644)
		r.minimise()
	}
	hb := make([]byte, 8*len(r.hashes))
	i := 0
	for h := range r.hashes {
		binary.LittleEndian.PutUint64(hb[8*i:], h)
		i++
	}
	_ = os.WriteFile(out+".h", hb, 0o644)
	b, err := json.Marshal(shardResult{r.evals, r.nontriv, r.classes, r.samples, r.knownSeen, r.truncated, r.fail, len(r.hashes) >= hashCap})
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(2)
	}
	if err = os.WriteFile(out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(2)
	}
}

type stopEnum struct{}

func (r *Runner) runEnum(s *Sub) {
	rep := 1
	if r.tier == "thorough" && s.EnumX > 1 {
		rep = s.EnumX
	}
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(stopEnum); !ok {
				panic(p)
			}
		}
	}()
	for k := 0; k < rep; k++ {
		i := 0
		e := NewEnt(r.seedFor(s.Name, 1000+k))
		s.Enum(e, func(c *Case) {
			i++
			if (i-1)%r.shards != r.shard {
				return
			}
			if i&0xFF == 0 && r.over() {
				r.truncated = true
				panic(stopEnum{})
			}
			if err := r.run(s, c); err != nil {
				r.fail = &failure{r.ID, c.clone(), err.Error()}
				panic(stopEnum{})
			}
		})
	}
}

func (r *Runner) runGen(s *Sub) {
	n := s.Quick
	if r.tier == "thorough" {
		n = s.Thorough
		if n == 0 {
			n = 100 * s.Quick
		}
	} else if r.Scale > 1 {
		n *= r.Scale
	}
	n = (n + r.shards - 1) / r.shards
	chunk := 20000
	for k := 0; n > 0 && r.fail == nil; k++ {
		if r.over() {
			r.truncated = true
			return
		}
		m := n
		if m > chunk {
			m = chunk
		}
		n -= m
		_ = flag.Set("rapid.checks", strconv.Itoa(m))
		_ = flag.Set("rapid.seed", strconv.FormatUint(r.seedFor(s.Name+"#"+strconv.Itoa(k), r.shard), 10))
		t := &tb{}
		done := make(chan struct{})
		var last *failure
		var end time.Time
		go func() {
			defer close(done)
			rapid.Check(t, func(rt *rapid.T) {
				// The limit of rapid is only looked at between its passes: too late for cases that are slow to run.
				if last != nil && time.Now().After(end) {
					return
				}
				var c *Case
				if g := r.guideOf(s); g != nil && len(g.pool) > 0 && last == nil {
					if e := Ctx(rt); !e.P(3) {
						c = g.mutate(s, e)
						r.classes["mutated from an earlier case, guided by the coverage"]++
					}
				}
				if c == nil {
					c = s.Gen(rt)
				}
				if last == nil && r.over() {
					r.truncated = true
					return
				}
				if err := r.run(s, c); err != nil {
					if last == nil {
						end = time.Now().Add(4 * time.Second)
					}
					last = &failure{r.ID, c.clone(), err.Error()}
					rt.Fatalf("violation")
				}
			})
		}()
		<-done
		if last != nil {
			r.fail = last
		} else if t.failed {
			fmt.Fprintln(os.Stderr, "harness error: generation failed in", s.Name)
			os.Exit(2)
		}
	}
}

// minimise simplifies the failing case, keeping it failing.
func (r *Runner) minimise() {
	s := r.sub(r.fail.Case.Sub)
	if s == nil {
		return
	}
	best := r.fail.Case.clone()
	if e := r.eval(s, best.clone(), &Obs{r: r}); e == nil {
		r.fail.Error += " (not reproduced when run again alone)"
		return
	} else {
		r.fail.Error = e.Error()
	}
	tries := 0
	end := time.Now().Add(20 * time.Second)
	over := func() bool { return tries > 20000 || time.Now().After(end) }
	try := func(c *Case) bool {
		if tries++; over() {
			return false
		}
		if err := r.eval(s, c.clone(), &Obs{r: r}); err != nil {
			best = c
			r.fail.Error = err.Error()
			return true
		}
		return false
	}
	for pass := 0; pass < 4 && !over(); pass++ {
		changed := false
		// Long lists by halves first.
		for w := len(best.L) / 2; w > 1; w /= 2 {
			for i := len(best.L) - w; i >= 0 && !over(); i -= w {
				c := best.clone()
				if i+w > len(c.L) {
					continue
				}
				c.L = append(c.L[:i], c.L[i+w:]...)
				if try(c) {
					changed = true
				}
			}
		}
		for i := len(best.L) - 1; i >= 0 && !over(); i-- {
			if i >= len(best.L) {
				continue
			}
			c := best.clone()
			c.L = append(c.L[:i], c.L[i+1:]...)
			if try(c) {
				changed = true
			}
		}
		for i := len(best.S) - 1; i >= 0 && !over(); i-- {
			if i >= len(best.S) {
				continue
			}
			c := best.clone()
			c.S = append(c.S[:i], c.S[i+1:]...)
			if try(c) {
				changed = true
			}
		}
		bytesOf := func(get func(c *Case) Hex) {
			for i := range get(best) {
				if get(best)[i] == 0 || over() {
					continue
				}
				c := best.clone()
				get(c)[i] = 0
				if try(c) {
					changed = true
					continue
				}
				for m := byte(0x80); m != 0; m >>= 1 {
					if get(best)[i]&m != 0 && !over() {
						c := best.clone()
						get(c)[i] &^= m
						if try(c) {
							changed = true
						}
					}
				}
			}
		}
		bytesOf(func(c *Case) Hex { return c.D })
		bytesOf(func(c *Case) Hex { return c.E })
		for k := range best.L {
			k := k
			bytesOf(func(c *Case) Hex {
				if k < len(c.L) {
					return c.L[k]
				}
				return nil
			})
		}
		for i := range best.N {
			for _, v := range []int64{0, best.N[i] / 2, best.N[i] - 1} {
				if best.N[i] > 0 && v < best.N[i] {
					c := best.clone()
					c.N[i] = v
					if try(c) {
						changed = true
					}
				}
			}
		}
		for i := range best.F {
			for _, v := range []float64{0, float64(int64(best.F[i])), float64(int64(best.F[i]*100)) / 100} {
				if v != best.F[i] {
					c := best.clone()
					c.F[i] = v
					if try(c) {
						changed = true
						break
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	best.Sub = s.Name
	r.fail.Case = best
}

// kills says whether a case ends its process, in one of two tries (a race may need several).
func (r *Runner) kills(c *Case, dir string) bool {
	p := filepath.Join(dir, "killer.json")
	b, _ := json.Marshal(failure{r.ID, c, ""})
	_ = os.WriteFile(p, b, 0o644)
	for k := 0; k < 2; k++ {
		bin := os.Args[0]
		if s := r.sub(c.Sub); s != nil && s.Race && raceBinary() != "" {
			bin = raceBinary()
		}
		cmd := exec.Command(bin, r.ID, "-replay", p, "-root", dir)
		cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB")
		out, err := cmd.CombinedOutput()
		if err != nil && (bytes.Contains(out, []byte("DATA RACE")) || bytes.Contains(out, []byte("fatal error:"))) {
			return true
		}
		if !answered(out) {
			return true
		}
	}
	return false
}

// answered says whether a replay came to its end.
func answered(out []byte) bool {
	for _, s := range []string{"the case passes", "VIOLATION", "harness error"} {
		if bytes.Contains(out, []byte(s)) {
			return true
		}
	}
	return false
}

// minimiseKilled shortens the lists of a case that kills the process, each try in its own process.
func (r *Runner) minimiseKilled(f *failure, dir string) {
	end := time.Now().Add(60 * time.Second)
	for w := len(f.Case.L) / 2; w > 0; w /= 2 {
		for i := len(f.Case.L) - w; i >= 0 && time.Now().Before(end); i -= w {
			if i+w > len(f.Case.L) {
				continue
			}
			c := f.Case.clone()
			c.L = append(c.L[:i], c.L[i+w:]...)
			if r.kills(c, dir) {
				f.Case = c
			}
		}
	}
}

var errSilent = errors.New("it ended without a result")

// died says whether it is the code under test that ended a shard.
func died(err error, log []byte) bool {
	has := func(s string) bool { return bytes.Contains(log, []byte(s)) }
	var status *exec.ExitError
	switch {
	case has("DATA RACE"):
		return true
	case has("harness error"), has("out of memory"):
		return false
	case has("fatal error:"), err == errSilent:
		return true
	case has("panic: ") && has("goroutine "): // in a goroutine of the library, or in the harness
		return has("twuillemin/modes/pkg/")
	}
	return errors.As(err, &status) && status.ExitCode() >= 0
}

func (r *Runner) parent(root string, shards int, only string) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "verif-"+r.ID+"-")
	if err != nil {
		fmt.Println("harness error:", err)
		return 2
	}
	defer os.RemoveAll(dir)
	type res struct {
		i   int
		err error
		log []byte
	}
	// The shards of the race detector come after the others.
	processes := shards
	if raceBinary() != "" {
		processes = 2 * shards
	}
	runOne := func(i int, trace string) res {
		args := []string{r.ID, "-shard", strconv.Itoa(i % shards), "-shards", strconv.Itoa(shards), "-root", root,
			"-out", filepath.Join(dir, fmt.Sprintf("s%d.json", i))}
		if trace != "" {
			args = append(args, "-trace", trace)
		}
		if only != "" {
			args = append(args, "-only", only)
		}
		bin := os.Args[0]
		if i >= shards {
			bin = raceBinary()
			args = append(args, "-race")
		}
		result := filepath.Join(dir, fmt.Sprintf("s%d.json", i))
		_ = os.Remove(result)
		cmd := exec.Command(bin, args...)
		cmd.Env = append(os.Environ(), "GOMAXPROCS="+env("VERIF_GOMAXPROCS", "2"), "GOMEMLIMIT=2GiB", "VERIF_RUN_DIR="+dir)
		var b bytes.Buffer
		cmd.Stdout, cmd.Stderr = &b, &b
		err := cmd.Start()
		if err == nil {
			if trace != "" { // a second run, to find the case that killed the first one
				t := time.AfterFunc(150*time.Second, func() { _ = cmd.Process.Kill() })
				defer t.Stop()
			}
			err = cmd.Wait()
		}
		if err == nil {
			if _, e := os.Stat(result); e != nil {
				err = errSilent
			}
		}
		return res{i, err, b.Bytes()}
	}
	ch := make(chan res, processes)
	for i := 0; i < processes; i++ {
		go func(i int) { ch <- runOne(i, "") }(i)
	}
	var fails []*failure
	infra := ""
	var killed, suspects []res
	for k := 0; k < processes; k++ {
		x := <-ch
		if x.err == nil {
			continue
		}
		msg := string(x.log)
		if len(msg) > 3000 {
			msg = msg[:3000]
		}
		switch {
		case died(x.err, x.log):
			_ = os.WriteFile(filepath.Join(dir, "stop"), nil, 0o644)
			killed = append(killed, x)
			continue
		case !bytes.Contains(x.log, []byte("harness error")): // a signal, or no memory any more
			_ = os.WriteFile(filepath.Join(dir, "stop"), nil, 0o644)
			suspects = append(suspects, x)
		}
		infra += fmt.Sprintf("shard %d: %v\n%s\n", x.i, x.err, msg)
	}
	_ = os.Remove(filepath.Join(dir, "stop"))
	if len(killed) > 0 {
		// The code under test ended the process: find the case again, and simplify it.
		x := killed[0]
		tf := filepath.Join(dir, "trace.json")
		f := &failure{Property: r.ID}
		if y := runOne(x.i, tf); y.err != nil {
			if b, e := os.ReadFile(tf); e == nil && json.Unmarshal(b, f) == nil && f.Case != nil {
				r.minimiseKilled(f, dir)
			}
		}
		msg := string(x.log)
		if len(msg) > 3000 {
			msg = msg[:3000]
		}
		f.Error = "the case ends the process (" + x.err.Error() + "): " + msg
		fails = append(fails, f)
	} else if len(suspects) > 0 {
		// The code under test may have done it, or the machine: only a case which does it again, alone, tells.
		tf := filepath.Join(dir, "trace.json")
		f := &failure{Property: r.ID}
		if y := runOne(suspects[0].i, tf); y.err != nil {
			if b, e := os.ReadFile(tf); e == nil && json.Unmarshal(b, f) == nil && f.Case != nil && r.kills(f.Case, dir) && r.kills(f.Case, dir) {
				f.Error = "the case ends the process: " + y.err.Error()
				fails = append(fails, f)
			}
		}
	}
	tot := shardResult{Classes: map[string]int64{}, Known: map[string]int{}}
	all := map[uint64]struct{}{}
	for i := 0; i < processes; i++ {
		p := filepath.Join(dir, fmt.Sprintf("s%d.json", i))
		b, err := os.ReadFile(p)
		if err != nil {
			continue
		}
		var s shardResult
		if json.Unmarshal(b, &s) != nil {
			continue
		}
		tot.Evals += s.Evals
		tot.NonTrivial += s.NonTrivial
		tot.Truncated = tot.Truncated || s.Truncated
		tot.Capped = tot.Capped || s.Capped
		for k, v := range s.Classes {
			tot.Classes[k] += v
		}
		for k, v := range s.Known {
			tot.Known[k] += v
		}
		tot.Samples = append(tot.Samples, s.Samples...)
		if s.Fail != nil {
			fails = append(fails, s.Fail)
		}
		if hb, err := os.ReadFile(p + ".h"); err == nil {
			for j := 0; j+8 <= len(hb); j += 8 {
				all[binary.LittleEndian.Uint64(hb[j:])] = struct{}{}
			}
		}
	}
	exhaustive := len(r.subs) > 0
	for _, s := range r.subs {
		if !s.Exhaust || s.Gen != nil {
			exhaustive = false
		}
	}
	rule := r.Rule
	if tot.Capped {
		rule += fmt.Sprintf(" (distinct cases are counted up to %d per shard, so the count is a lower bound)", hashCap)
	}
	cov := map[string]any{
		"evaluations": tot.Evals, "distinct_nontrivial": len(all), "rule": rule, "samples": tot.Samples,
		"classes": tot.Classes, "truncated": tot.Truncated, "shards": shards,
	}
	if exhaustive && !tot.Truncated {
		cov["exhaustive"] = true
	}
	if len(tot.Known) > 0 {
		cov["known_findings"] = tot.Known
	}
	if tot.Samples == nil {
		cov["samples"] = []string{}
	}
	ev := map[string]any{
		"property": r.ID, "tier": r.tier, "seed": r.seed, "level": "exploration", "coverage": cov,
		"assumptions": r.Assumptions, "wall_s": float64(int(time.Since(start).Seconds()*100)) / 100, "violations": len(fails),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", r.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("harness error:", err)
		return 2
	}
	var keys []string
	for k := range tot.Known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s %s (%d cases)\n", r.ID, k, r.known[k], tot.Known[k])
	}
	if len(fails) > 0 {
		_ = os.MkdirAll(filepath.Join(root, "replays"), 0o755)
		seen := map[string]bool{}
		for _, f := range fails {
			if f.Case == nil {
				f.Case = &Case{Sub: "unknown"}
			}
			key := f.Case.String()
			if seen[key] || len(seen) >= 4 {
				continue
			}
			seen[key] = true
			b, _ := json.MarshalIndent(f, "", " ")
			p := filepath.Join(root, "replays", fmt.Sprintf("%s-%016x.json", r.ID, f.Case.hash()))
			_ = os.WriteFile(p, append(b, '\n'), 0o644)
			fmt.Printf("%s\n  %s\n", f.Case, f.Error)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, p)
		}
		return 1
	}
	if infra != "" {
		fmt.Print("harness error: ", infra)
		return 2
	}
	if tot.Evals == 0 {
		fmt.Println("harness error: no case was run")
		return 2
	}
	fmt.Printf("%s %s seed %d: held on %d cases, %d distinct non-trivial, %.1f s\n", r.ID, r.tier, r.seed, tot.Evals, len(all), time.Since(start).Seconds())
	return 0
}
