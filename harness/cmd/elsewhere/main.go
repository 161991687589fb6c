// Command elsewhere writes, for go build -overlay, a copy of the files of the packages syscall, time and os where the questions
// that the library asks (the time, a variable of the environment, the name of the host, a file) may get another answer.
// The argument is the folder to write in.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

const syscallGo = `package syscall

import (
	"runtime"
	"sync/atomic"
)

// VerifAnswer is the answer to the questions of the library: the value of a variable which is not set (or of any one,
// with VerifAll), the name of the host, the number of the process or of the user.
var VerifAnswer atomic.Pointer[string]

// VerifAll says that the variables which are set get the answer too.
var VerifAll atomic.Bool

// VerifNames are the names of more variables, for the library which lists them.
var VerifNames atomic.Pointer[[]string]

// VerifAsked counts the questions of the library.
var VerifAsked atomic.Int64

func init() {
	if s, ok := verifGetenv("VERIF_ANSWER"); ok {
		VerifAnswer.Store(&s)
	}
	if s, ok := verifGetenv("VERIF_NAMES"); ok {
		names := []string{}
		for i := 0; i < len(s); i++ {
			if s[i] == ',' {
				names = append(names, s[:i])
				s, i = s[i+1:], -1
			}
		}
		VerifNames.Store(&names)
	}
	_, all := verifGetenv("VERIF_ALL")
	VerifAll.Store(all)
}

// VerifLibrary says whether the caller is the library.
func VerifLibrary() bool {
	var pcs [64]uintptr
	frames := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs[:])])
	const path = "github.com/twuillemin/modes/"
	for {
		f, more := frames.Next()
		if len(f.Function) > len(path) && f.Function[:len(path)] == path {
			VerifAsked.Add(1)
			return true
		}
		if !more {
			return false
		}
	}
}

// VerifOther is the answer to a question, if it is of the library.
func VerifOther(known bool) (string, bool) {
	a := VerifAnswer.Load()
	if a == nil || known && !VerifAll.Load() || !VerifLibrary() {
		return "", false
	}
	return *a, true
}

func Getenv(key string) (value string, found bool) {
	value, found = verifGetenv(key)
	if a, other := VerifOther(found); other && key != "" {
		return a, true
	}
	return value, found
}

func Environ() []string {
	l := verifEnviron()
	if names := VerifNames.Load(); names != nil {
		if a, other := VerifOther(false); other {
			for _, n := range *names {
				l = append(l, n+"="+a)
			}
		}
	}
	return l
}
`

const timeGo = `package time

import (
	"sync/atomic"
	"syscall"
)

// VerifMoment is the moment that the library gets, in milliseconds since 1970, when it is not zero.
var VerifMoment atomic.Int64

func init() {
	s, _ := syscall.Getenv("VERIF_MOMENT")
	n := int64(0)
	for i := 0; i < len(s); i++ {
		n = n*10 + int64(s[i]-'0')
	}
	VerifMoment.Store(n)
}

// verifNow is without the monotonic clock, so that the time elapsed follows the moments too.
func verifNow() (Time, bool) {
	n := VerifMoment.Load()
	if n == 0 || !syscall.VerifLibrary() {
		return Time{}, false
	}
	sec := n / 1000
	return Time{uint64(n%1000) * 1000000, sec + unixToInternal, Local}, true
}
`

const osGo = `package os

import (
	"sync/atomic"
	"syscall"
)

// VerifFile is the file that the library gets for one that does not exist.
var VerifFile atomic.Pointer[string]

func init() {
	if s, ok := syscall.Getenv("VERIF_FILE"); ok {
		VerifFile.Store(&s)
	}
}

func verifNumber(n int) int {
	if a, other := syscall.VerifOther(false); other {
		n = 1 + len(a)
		if a == "0" {
			n = 0
		}
	}
	return n
}

func verifPath(name string) string {
	f := VerifFile.Load()
	if f == nil {
		return name
	}
	var st syscall.Stat_t
	if syscall.Stat(name, &st) == nil || !syscall.VerifLibrary() {
		return name
	}
	return *f
}
`

type edit struct{ file, old, new string }

var edits = []edit{
	{"time/time.go", "func Now() Time {\n", "func Now() Time {\n\tif t, ok := verifNow(); ok {\n\t\treturn t\n\t}\n"},
	{"syscall/env_unix.go", "func Getenv(key string)", "func verifGetenv(key string)"},
	{"syscall/env_unix.go", "func Environ() []string", "func verifEnviron() []string"},
	{"os/sys.go", "\treturn hostname()\n", "\tif a, other := syscall.VerifOther(false); other {\n\t\treturn a, nil\n\t}\n\treturn hostname()\n"},
	{"os/sys.go", "package os\n", "package os\n\nimport \"syscall\"\n"},
	{"os/exec.go", "return syscall.Getpid() }", "return verifNumber(syscall.Getpid()) }"},
	{"os/exec.go", "return syscall.Getppid() }", "return verifNumber(syscall.Getppid()) }"},
	{"os/proc.go", "return syscall.Getuid() }", "return verifNumber(syscall.Getuid()) }"},
	{"os/proc.go", "return syscall.Geteuid() }", "return verifNumber(syscall.Geteuid()) }"},
	{"os/file.go", "\ttestlog.Open(name)\n\tf, err := openFileNolog(name, flag, perm)\n", "\ttestlog.Open(name)\n\tif flag == O_RDONLY {\n\t\tname = verifPath(name)\n\t}\n\tf, err := openFileNolog(name, flag, perm)\n"},
	{"os/stat.go", "\treturn statNolog(name)\n", "\treturn statNolog(verifPath(name))\n"},
	{"os/stat.go", "\treturn lstatNolog(name)\n", "\treturn lstatNolog(verifPath(name))\n"},
}

func main() {
	out, err := filepath.Abs(os.Args[1])
	check(err)
	root, err := exec.Command("go", "env", "GOROOT").Output()
	check(err)
	src := filepath.Join(strings.TrimSpace(string(root)), "src")
	texts := map[string]string{"syscall/verif.go": syscallGo, "time/verif.go": timeGo, "os/verif.go": osGo}
	for _, e := range edits {
		if texts[e.file] == "" {
			b, err := os.ReadFile(filepath.Join(src, e.file))
			check(err)
			texts[e.file] = string(b)
		}
		if strings.Count(texts[e.file], e.old) != 1 {
			check(fmt.Errorf("%s: the text to replace is not there once", e.file))
		}
		texts[e.file] = strings.Replace(texts[e.file], e.old, e.new, 1)
	}
	replace := map[string]string{}
	for name, text := range texts {
		to := filepath.Join(out, strings.ReplaceAll(name, "/", "_"))
		check(os.WriteFile(to, []byte(text), 0o644))
		replace[filepath.Join(src, name)] = to
	}
	b, _ := json.Marshal(map[string]any{"Replace": replace})
	check(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "elsewhere:", err)
		os.Exit(1)
	}
}
