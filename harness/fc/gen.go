// Package fc monitors the fontconfig package.
package fc

import (
	"fmt"
	"io"
	"log"
	"math"
	"sort"
	"strings"

	fontconfig "github.com/benoitkugler/textprocessing/fontconfig"
	"verifharness/run"
	"verifharness/ucd"
)

func init() { log.SetOutput(io.Discard) }

// ---------------------------------------------------------- charsets

// cset is a charset together with its model
type cset struct {
	fc fontconfig.Charset
	m  map[rune]bool
}

var genPages = []rune{0, 1, 4, 5, 6, 0x1e, 0x20, 0x4e, 0x4f, 0x7f, 0xac, 0xff, 0x100, 0x1f6, 0x2a6, 0x10ff}

func genRune(t *run.T, pages int) rune {
	if pages > len(genPages) {
		pages = len(genPages)
	}
	p := genPages[t.IntN(pages)]
	switch t.IntN(4) {
	case 0:
		return p<<8 | run.Pick[rune](t, 0, 0x1f, 0x20, 0x3f, 0x40, 0x7f, 0x80, 0xdf, 0xe0, 0xff)
	case 1:
		return p<<8 | rune(t.IntN(256))
	default:
		return p<<8 | rune(t.IntN(12))
	}
}

// genCset builds a charset by additions and removals
func genCset(t *run.T, max, pages int) cset {
	c := cset{m: map[rune]bool{}}
	n := t.IntN(max + 1)
	perm := genPages
	_ = perm
	for i := 0; i < n; i++ {
		r := genRune(t, pages)
		c.fc.AddChar(r)
		c.m[r] = true
	}
	if n > 0 && t.Chance(0.2) {
		// a whole page
		p := genPages[t.IntN(pages)] << 8
		for r := p; r < p+256; r++ {
			c.fc.AddChar(r)
			c.m[r] = true
		}
	}
	return c
}

func (c cset) delSome(t *run.T) cset {
	for _, r := range c.sorted() {
		if t.Chance(0.4) {
			c.fc.DelChar(r)
			delete(c.m, r)
		}
	}
	return c
}

func (c cset) sorted() []rune {
	out := make([]rune, 0, len(c.m))
	for r := range c.m {
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (c cset) clone() cset {
	m := make(map[rune]bool, len(c.m))
	for r := range c.m {
		m[r] = true
	}
	return cset{fc: c.fc.Copy(), m: m}
}

func subset(a, b map[rune]bool) bool {
	for r := range a {
		if !b[r] {
			return false
		}
	}
	return true
}

func minus(a, b map[rune]bool) int {
	n := 0
	for r := range a {
		if !b[r] {
			n++
		}
	}
	return n
}

// runesOf lists the content of a charset through HasChar, on the pages where
// anything may be
func runesOf(c fontconfig.Charset) map[rune]bool {
	out := map[rune]bool{}
	for _, p := range genPages {
		for r := p << 8; r < (p+1)<<8; r++ {
			if c.HasChar(r) {
				out[r] = true
			}
		}
	}
	return out
}

func sameRunes(a, b map[rune]bool) bool { return len(a) == len(b) && subset(a, b) }

func showRunes(m map[rune]bool) string {
	s := cset{m: m}.sorted()
	if len(s) > 40 {
		return fmt.Sprintf("%x...(%d)", s[:40], len(s))
	}
	return fmt.Sprintf("%x", s)
}

// ---------------------------------------------------------- languages

var (
	knownLangs = map[string]bool{}
	langList   []string
)

func init() {
	for _, l := range ucd.Lines("FcLangs.txt") {
		l = strings.TrimSpace(l)
		knownLangs[l] = true
		langList = append(langList, l)
	}
}

var langPool = []string{
	"en", "fr", "de", "ar", "he", "ja", "ko", "zh-cn", "zh-tw", "zh-hk", "zh-sg", "zh-mo", "az-az", "az-ir",
	"ber-dz", "ber-ma", "ku-am", "ku-tr", "ku-iq", "mn-cn", "mn-mn", "pap-an", "pap-aw", "ps-af", "ps-pk", "ti-er", "ti-et",
	"aa", "zu", "yuw", "za", "quz", "hsb",
	// not in the table
	"zh", "az", "ber", "mn", "en-us", "en-gb", "fr-ca", "de-at", "ja-jp", "zh-xx", "tlh", "tlh-xx", "xx", "xx-yy", "xx-zz", "qaa", "zzz", "a", "ab-cd", "ks-deva", "zhx", "kux",
	"EN", "Fr", "ZH-CN", "zh-Tw", "En-Us", "Xx", "XX-YY",
}

func genLang(t *run.T) string {
	if t.Chance(0.15) {
		for {
			l := langList[t.IntN(len(langList))]
			if l != "pa" && l != "pa-pk" && !strings.HasPrefix(l, "und") {
				return l
			}
		}
	}
	return langPool[t.IntN(len(langPool))]
}

func genLangs(t *run.T, max int) []string {
	n := t.Range(1, max)
	out := make([]string, n)
	for i := range out {
		out[i] = genLang(t)
		if i > 0 && t.Chance(0.3) { // same primary language
			p := strings.SplitN(out[i-1], "-", 2)[0]
			out[i] = p + run.Pick(t, "", "-cn", "-tw", "-us", "-ir", "-yy")
		}
	}
	return out
}

func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// lang set model: known languages in lower case, others as they are
func langModel(ls []string) map[string]bool {
	out := map[string]bool{}
	for _, l := range ls {
		if knownLangs[lower(l)] {
			out[lower(l)] = true
		} else {
			out[l] = true
		}
	}
	return out
}

func keys(m map[string]bool) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// same language, and same country or one of them without
func langContains(a, b string) bool {
	a, b = lower(a), lower(b)
	return a == b || strings.HasPrefix(a, b+"-") || strings.HasPrefix(b, a+"-")
}

func setContains(set map[string]bool, l string) bool {
	for s := range set {
		if langContains(s, l) {
			return true
		}
	}
	return false
}

func setIncludes(set, query map[string]bool) bool {
	for q := range query {
		if !setContains(set, q) {
			return false
		}
	}
	return true
}

// 0 equal, 1 same language only, 2 different
func langDistance(a, b string) int {
	a, b = lower(a), lower(b)
	if a == b {
		if a == "und" {
			return 2 // an undetermined language is not another one
		}
		return 0
	}
	if strings.HasPrefix(a, "und-") || a == "und" || strings.HasPrefix(b, "und-") || b == "und" {
		return 2
	}
	if strings.SplitN(a, "-", 2)[0] == strings.SplitN(b, "-", 2)[0] {
		return 1
	}
	return 2
}

func setDistance(set map[string]bool, l string) int {
	best := 2
	for s := range set {
		best = min(best, langDistance(s, l))
	}
	return best
}

func setsDistance(a, b map[string]bool) int {
	best := 2
	for x := range b {
		best = min(best, setDistance(a, x))
	}
	return best
}

// ---------------------------------------------------------- values

func canonValue(v fontconfig.Value) string {
	switch v := v.(type) {
	case fontconfig.Int:
		return fmt.Sprintf("i%d", int32(v))
	case fontconfig.Float:
		return fmt.Sprintf("f%08x", math.Float32bits(float32(v)))
	case fontconfig.String:
		return fmt.Sprintf("s%q", string(v))
	case fontconfig.Bool:
		return fmt.Sprintf("b%d", v)
	case fontconfig.Charset:
		return "c" + showAll(runesOf(v))
	case fontconfig.Langset:
		l := strings.Split(v.String(), "|")
		sort.Strings(l)
		return "l" + strings.Join(l, "|")
	case fontconfig.Matrix:
		return fmt.Sprintf("m%08x,%08x,%08x,%08x", math.Float32bits(v.Xx), math.Float32bits(v.Xy), math.Float32bits(v.Yx), math.Float32bits(v.Yy))
	case fontconfig.Range:
		return fmt.Sprintf("r%08x,%08x", math.Float32bits(v.Begin), math.Float32bits(v.End))
	case nil:
		return "nil"
	}
	return fmt.Sprintf("?%T", v)
}

func showAll(m map[rune]bool) string { return fmt.Sprintf("%x", cset{m: m}.sorted()) }

// values reads the values of an object one by one
func values(p fontconfig.Pattern, o fontconfig.Object) []fontconfig.Value {
	var out []fontconfig.Value
	for i := 0; ; i++ {
		v, r := p.GetAt(o, i)
		if r != fontconfig.ResultMatch {
			return out
		}
		out = append(out, v)
	}
}

func canonList(vs []fontconfig.Value) string {
	var sb strings.Builder
	for _, v := range vs {
		sb.WriteString(canonValue(v))
		sb.WriteByte(';')
	}
	return sb.String()
}

// canonPattern is a description of the pattern: equal exactly for equal contents
func canonPattern(p fontconfig.Pattern) string {
	if p == nil {
		return "nil"
	}
	var objs []int
	for o := range p {
		objs = append(objs, int(o))
	}
	sort.Ints(objs)
	var sb strings.Builder
	for _, o := range objs {
		l := canonList(values(p, fontconfig.Object(o)))
		if l == "" {
			continue
		}
		fmt.Fprintf(&sb, "%s={%s} ", fontconfig.Object(o), l)
	}
	return sb.String()
}

func canonSet(fs fontconfig.Fontset) []string {
	out := make([]string, len(fs))
	for i, p := range fs {
		out[i] = canonPattern(p)
	}
	return out
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// loadConfig builds a configuration from rules
func loadConfig(body string) (*fontconfig.Config, error) {
	c := fontconfig.NewConfig()
	err := c.LoadFromMemory(strings.NewReader("<fontconfig>" + body + "</fontconfig>"))
	return c, err
}
