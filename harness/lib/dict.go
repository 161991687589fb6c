package lib

import (
	"go/scanner"
	"go/token"
	"math/bits"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
)

var (
	dictOnce   sync.Once
	dictInts   []uint64 // sorted
	dictFloats []float64
	dictWords  []string // short, as in an identification
	dictNames  []string // as the name of a variable of the environment
	dictTexts  []string // of one word
)

// readDict collects the numbers written in the source of the code under test: they are tried as values.
func readDict() {
	ints := map[uint64]bool{}
	floats := map[float64]bool{}
	words := map[string]bool{}
	names := map[string]bool{}
	texts := map[string]bool{}
	root := env("VERIF_REPO", "/repo")
	_ = filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		var s scanner.Scanner
		fs := token.NewFileSet()
		s.Init(fs.AddFile(p, -1, len(b)), b, func(token.Position, string) {}, 0)
		for {
			_, tok, lit := s.Scan()
			if tok == token.EOF {
				return nil
			}
			switch tok {
			case token.INT:
				if v, err := strconv.ParseUint(lit, 0, 64); err == nil && v > 3 {
					ints[v] = true
					floats[float64(v)] = true
				}
			case token.STRING, token.CHAR:
				if v, err := strconv.Unquote(lit); err == nil {
					if len(v) <= 24 && v != "" && !strings.ContainsAny(v, " \t\n%=,\x00") {
						texts[v] = true
						if nameOnly(v) {
							names[v] = true
						}
					}
					if v = strings.ToUpper(v); len(v) <= 8 && wordOnly(v) {
						words[v] = true
					}
				}
			case token.FLOAT:
				if v, err := strconv.ParseFloat(lit, 64); err == nil {
					floats[v] = true
				}
			}
		}
	})
	for v := range ints {
		dictInts = append(dictInts, v)
	}
	sort.Slice(dictInts, func(i, j int) bool { return dictInts[i] < dictInts[j] })
	for v := range words {
		dictWords = append(dictWords, v)
	}
	sort.Strings(dictWords)
	for v := range names {
		dictNames = append(dictNames, v)
	}
	sort.Strings(dictNames)
	for _, v := range dictNames { // and those made of a beginning
		if strings.HasSuffix(v, "_") {
			for _, w := range dictNames {
				if len(dictNames) < 4000 && !strings.HasSuffix(w, "_") {
					dictNames = append(dictNames, v+w)
				}
			}
		}
	}
	for v := range texts {
		dictTexts = append(dictTexts, v)
	}
	sort.Strings(dictTexts)
	for v := range floats {
		dictFloats = append(dictFloats, v)
	}
	sort.Float64s(dictFloats)
}

func wordOnly(s string) bool {
	for i := range s {
		if c := s[i]; !(c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == ' ') {
			return false
		}
	}
	return s != ""
}

// nameOnly says whether a text may be the name, or the beginning of the name, of a variable of the environment.
func nameOnly(s string) bool {
	for i := range s {
		if c := s[i]; !(c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' && i > 0 || c == '_') {
			return false
		}
	}
	return len(s) >= 2
}

// Names are the words of the source that may be the name of a variable of the environment.
func Names() []string {
	dictOnce.Do(readDict)
	return dictNames
}

// Text is a word of the source.
func (e *Ent) Text() string {
	dictOnce.Do(readDict)
	if len(dictTexts) == 0 {
		return "1"
	}
	return dictTexts[e.N(len(dictTexts))]
}

// Word is a short word: one of the source, or one that is usual in identifications.
func (e *Ent) Word() string {
	dictOnce.Do(readDict)
	usual := [...]string{"TEST", "UNKNOWN", "N/A", "NONE", "NULL", "HELP", "SOS", "00000000", "12345678", "ABCDEFGH", "AAAAAAAA", "FLIGHT", "KLM1023", "AFR1234", "N123AB", "GABCD", "RESCUE"}
	if n := len(dictWords); n > 0 && e.Bool() {
		return dictWords[e.N(n)]
	}
	return usual[e.N(len(usual))]
}

// Literal is a number of the source that fits in w bits, or one next to it. It is usually a wide one.
func (e *Ent) Literal(w int) uint64 {
	dictOnce.Do(readDict)
	n := len(dictInts)
	if w < 64 {
		n = sort.Search(n, func(i int) bool { return dictInts[i]>>uint(w) != 0 })
	}
	if n == 0 {
		return e.U64() & (1<<uint(w) - 1)
	}
	lo := 0
	if w > 8 && !e.P(4) {
		lo = sort.Search(n, func(i int) bool { return bits.Len64(dictInts[i]) > w/2 })
		if lo == n {
			lo = 0
		}
	}
	v := dictInts[lo+e.N(n-lo)]
	if e.P(3) {
		v += uint64(e.N(3)) - 1
	}
	return v & (1<<uint(w) - 1)
}

// LiteralF is a number of the source, with any sign, in [a,b], or one very near; ok is false if there is none.
func (e *Ent) LiteralF(a, b float64) (float64, bool) {
	dictOnce.Do(readDict)
	for t := 0; t < 16 && len(dictFloats) > 0; t++ {
		v := dictFloats[e.N(len(dictFloats))]
		if e.Bool() {
			v = -v
		}
		switch e.N(4) {
		case 0:
			v += e.F(-1e-4, 1e-4)
		case 1:
			v += e.F(-0.01, 0.01)
		}
		if v >= a && v <= b {
			return v, true
		}
	}
	return 0, false
}
