// Package ucd gives the Unicode data the models use: it is taken from the
// Unicode Character Database (perl's copy, and the UCD text files), never from
// the code under test.
package ucd

import (
	"embed"
	"fmt"
	"strconv"
	"strings"
	"sync"
)

//go:embed *.txt
var files embed.FS

// Lines returns the lines of a data file
func Lines(name string) []string {
	b, err := files.ReadFile(name)
	if err != nil {
		panic(err)
	}
	return strings.Split(strings.TrimSpace(string(b)), "\n")
}

func hex(s string) rune {
	v, err := strconv.ParseUint(s, 16, 32)
	if err != nil {
		panic(err)
	}
	return rune(v)
}

// Ranges loads a property as one value per code point
func Ranges(name string) []string {
	out := make([]string, 0x110000)
	for _, l := range Lines(name) {
		f := strings.SplitN(l, " ", 3)
		a, b := hex(f[0]), hex(f[1])
		v := ""
		if len(f) > 2 {
			v = f[2]
		}
		for r := a; r <= b; r++ {
			out[r] = v
		}
	}
	return out
}

// Pairs loads a rune to rune table
func Pairs(name string) map[rune]rune {
	out := map[rune]rune{}
	for _, l := range Lines(name) {
		f := strings.Fields(l)
		out[hex(f[0])] = hex(f[1])
	}
	return out
}

// Cache
var (
	mu    sync.Mutex
	cache = map[string][]string{}
)

// Get is Ranges, cached
func Get(prop string) []string {
	mu.Lock()
	defer mu.Unlock()
	if v, ok := cache[prop]; ok {
		return v
	}
	v := Ranges(prop + ".txt")
	cache[prop] = v
	return v
}

// AgeAtMost is true if the code point was assigned in Unicode max or before
func AgeAtMost(r rune, max float64) bool {
	a := Get("Age")[r]
	if a == "" || a == "Unassigned" || a == "NA" {
		return false
	}
	f, err := strconv.ParseFloat(strings.TrimPrefix(a, "V"), 64)
	if err != nil {
		panic(fmt.Sprint("age ", a))
	}
	// 5.2 < 10.0 : all the versions have one decimal digit
	return f <= max
}

// BracketInfo describes a paired bracket
type BracketInfo struct {
	Pair rune
	Open bool
}

// Brackets loads BidiBrackets.txt
func Brackets() map[rune]BracketInfo {
	out := map[rune]BracketInfo{}
	for _, l := range Lines("BidiBrackets.txt") {
		f := strings.Fields(l)
		out[hex(f[0])] = BracketInfo{hex(f[1]), f[2] == "o"}
	}
	return out
}

// ArabicForm is a presentation form
type ArabicForm struct {
	Kind string // isolated, final, initial, medial
	Of   []rune
}

// ArabicForms loads the presentation forms
func ArabicForms() map[rune]ArabicForm {
	out := map[rune]ArabicForm{}
	for _, l := range Lines("ArabicForms.txt") {
		f := strings.Fields(l)
		var of []rune
		for _, x := range f[2:] {
			of = append(of, hex(x))
		}
		out[hex(f[0])] = ArabicForm{f[1], of}
	}
	return out
}
