package props

import (
	"flag"
	"fmt"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/harness/lib"
)

// written is the number of bytes that the process wrote, anywhere; ok is false when it is not known.
func written() (int64, bool) {
	b, err := os.ReadFile("/proc/self/io")
	if err != nil {
		return 0, false
	}
	for _, l := range strings.Split(string(b), "\n") {
		if v, ok := strings.CutPrefix(l, "wchar: "); ok {
			n, err := strconv.ParseInt(v, 10, 64)
			return n, err == nil
		}
	}
	return 0, false
}

// surroundings are the settings of the process that decoding has no reason to change.
func surroundings() map[string]string {
	m := map[string]string{}
	put := func(k string, v ...any) { m[k] = fmt.Sprint(v...) }
	env := os.Environ()
	sort.Strings(env)
	put("environment", strings.Join(env, "\n"))
	dir, err := os.Getwd()
	put("working folder", dir, err)
	mask := syscall.Umask(0)
	syscall.Umask(mask)
	put("mask of the files", mask)
	put("logger", log.Flags(), " ", log.Prefix(), " ", log.Writer() == os.Stderr)
	put("time zone", time.Local.String(), " ", time.Unix(0, 0).Format(time.RFC3339))
	put("processors", runtime.GOMAXPROCS(0))
	gc := debug.SetGCPercent(100)
	debug.SetGCPercent(gc)
	put("garbage collector", gc, " ", debug.SetMemoryLimit(-1))
	put("standard files", os.Stdin.Fd(), os.Stdout.Fd(), os.Stderr.Fd())
	put("arguments", os.Args)
	n := 0
	flag.CommandLine.VisitAll(func(*flag.Flag) { n++ })
	put("flags", n)
	for _, r := range []int{syscall.RLIMIT_NOFILE, syscall.RLIMIT_CORE, syscall.RLIMIT_AS, syscall.RLIMIT_FSIZE} {
		var l syscall.Rlimit
		if syscall.Getrlimit(r, &l) == nil {
			put(fmt.Sprint("limit ", r), l.Cur, " ", l.Max)
		}
	}
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_CHILDREN, &u) == nil {
		put("children", u.Maxrss)
	}
	if b, err := os.ReadFile("/proc/self/status"); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if k, v, ok := strings.Cut(l, ":"); ok && (strings.HasPrefix(k, "Sig") || k == "Uid" || k == "Gid") && k != "SigQ" && k != "SigPnd" && k != "SigBlk" { // a thread that makes another blocks everything for a moment
				put(k, v)
			}
		}
	}
	if d, err := os.Open("/proc/self/fd"); err == nil {
		names, _ := d.Readdirnames(-1)
		own := fmt.Sprint(d.Fd())
		_ = d.Close()
		var l []string
		for _, f := range names {
			t, err := os.Readlink("/proc/self/fd/" + f)
			if f != own && err == nil && !strings.HasPrefix(t, "anon_inode:") { // those of the runtime of Go
				l = append(l, f+" "+t)
			}
		}
		sort.Strings(l)
		put("open files", strings.Join(l, "\n"))
	}
	return m
}

// watchEffects reads messages and compares the process before and after.
func watchEffects(seed uint64, kind, n int) error {
	f := newFeeder(seed, kind%fedKinds)
	f.fully = true
	surroundings() // opens what the runtime opens
	f.run(20)
	before := surroundings()
	a, known := written()
	f.run(n)
	b, _ := written()
	after := surroundings()
	for k, v := range before {
		if after[k] != v {
			return fmt.Errorf("%s: the messages change a setting of the process, the %s: %q, and %q before", f.name, k, after[k], v)
		}
	}
	// The runtime of Go writes a few bytes to wake its threads.
	if known && b-a > 128 {
		return fmt.Errorf("%s: the process writes %d bytes while it reads %d messages", f.name, b-a, n)
	}
	return nil
}

func noEffect(c *lib.Case, o *lib.Obs) error {
	if len(c.N) < 3 || c.N[1] < 0 || c.N[2] < 0 || c.N[2] > 1<<20 {
		return nil
	}
	k := int(c.N[1]) % fedKinds
	name := newFeeder(0, k).name
	dir, err := os.MkdirTemp("", "effects")
	if err != nil {
		panic(lib.HarnessError{Msg: err.Error()})
	}
	defer os.RemoveAll(dir)
	o.NonTrivial()
	o.Class(name)
	printed := ""
	for i := 0; i < 3; i++ {
		// What the messages do is done again by the same messages; what the runtime of Go does is not.
		_, printed, err = runChildIn(os.Args[0], dir, childRequest{Feed: []uint64{uint64(c.N[0]), uint64(k), uint64(c.N[2])}})
		if err == nil || printed != "" {
			break
		}
	}
	if err != nil {
		return err
	}
	if printed != "" {
		if len(printed) > 300 {
			printed = printed[:300] + "..."
		}
		return fmt.Errorf("%s: the library writes %q", name, printed)
	}
	l, err := os.ReadDir(dir)
	if err != nil {
		panic(lib.HarnessError{Msg: err.Error()})
	}
	if len(l) > 0 {
		return fmt.Errorf("%s: the library makes the file %s", name, l[0].Name())
	}
	return nil
}

func init() {
	add("C29", "messages of a kind were read in a process of their own", []string{
		"the effects observed are those that the process can see of itself, and those in its folder",
		"writes of at most 128 bytes in all, which reach neither the standard files nor the folder, are not distinguished from those of the runtime of Go",
	}, func(r *lib.Runner) {
		r.Add(&lib.Sub{Name: "effects",
			Enum: func(e *lib.Ent, yield func(c *lib.Case)) {
				for k := 0; k < fedKinds; k++ {
					yield(&lib.Case{N: []int64{int64(e.U64() >> 1), int64(k), 15000}})
				}
			},
			Gen: lib.Random(func(e *lib.Ent) *lib.Case {
				return &lib.Case{N: []int64{int64(e.U64() >> 1), int64(e.N(fedKinds)), int64(5000 + e.N(20000))}}
			}),
			Check: noEffect, EnumX: 10, Quick: 64, Thorough: 8000})
	})
}
