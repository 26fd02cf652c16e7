package pg

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/benoitkugler/textprocessing/pango"

	"verifharness/run"
	"verifharness/ucd"
)

func showRunes(s []rune) string {
	var sb strings.Builder
	for i, r := range s {
		if i > 0 {
			sb.WriteByte(' ')
		}
		fmt.Fprintf(&sb, "%04X", r)
	}
	return sb.String()
}

// tuple of classes -> characters
var brkAlphabet = sync.OnceValue(func() [][]rune {
	d := brkData()
	m := map[string][]rune{}
	for r := rune(1); r < 0x110000; r++ {
		if r >= 0xD800 && r < 0xE000 {
			continue
		}
		if !ucd.AgeAtMost(r, 12.0) || brkApprox(r) {
			continue
		}
		k := d.gcb[r] + "|" + d.wb[r] + "|" + d.sb[r] + "|" + lbClass(r) + "|" + gcShort(d.gc[r]) + "|" + fmt.Sprint(d.pict[r])
		m[k] = append(m[k], r)
	}
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var out [][]rune
	for _, k := range keys {
		out = append(out, m[k])
	}
	return out
})

func brkText(t *run.T) []rune {
	al := brkAlphabet()
	n := t.Range(1, 14)
	pool := make([][]rune, t.Range(2, 8))
	for i := range pool {
		pool[i] = run.Pick(t, al...)
	}
	var out []rune
	for i := 0; i < n; i++ {
		p := pool[t.IntN(len(pool))]
		r := p[t.IntN(len(p))]
		out = append(out, r)
		for t.Chance(0.15) {
			out = append(out, r)
		}
	}
	return out
}

// P01 : boundaries
func P01() *run.Prop {
	return &run.Prop{
		ID: "P01", Quick: 600000, Thorough: 15000000,
		Need: map[string]int64{"graphemes": 10000, "words": 10000, "sentences": 10000, "lines": 10000, "mandatory": 1000},
		Run: func(t *run.T) {
			text := brkText(t)
			if t.Chance(0.3) {
				text = proseText(t)
			}
			t.Input("text [%s]", showRunes(text))
			attrs := pango.ComputeCharacterAttributes(text, -1)
			if len(attrs) != len(text)+1 {
				t.Failf("length", "%d attributes for %d characters", len(attrs), len(text))
			}
			joiner, prepend := brkTailored(text)
			if joiner {
				return
			}
			g, w, s := graphemes(text), wordBounds(text), sentenceBounds(text)
			l, m, un := lineBreaks(text)
			noSentence, noWord := false, false
			for _, r := range text {
				noSentence = noSentence || brkNoSentence(r) || brkApprox(r)
				noWord = noWord || r >= 0x1F3FB && r <= 0x1F3FF || brkApprox(r)
			}
			for i := range attrs {
				if a := attrs[i].IsCursorPosition(); a != g[i] {
					t.Failf("grapheme", "position %d: cursor position %v, the grapheme rules give %v", i, a, g[i])
				}
				if g[i] {
					t.Count("graphemes", 1)
				}
			}
			t.Eval(len(attrs))
			if prepend {
				return
			}
			for i := range attrs {
				if un[i] {
					continue
				}
				on := g[i] || lbMid(text, i)
				if a, b := attrs[i].IsLineBreak(), l[i] && on; a != b {
					t.Failf("line", "position %d: line break %v, the rules give %v", i, a, b)
				}
				if a, b := attrs[i].IsMandatoryBreak(), m[i] && on; a != b {
					t.Failf("mandatory", "position %d: mandatory break %v, the rules give %v", i, a, b)
				}
				if l[i] {
					t.Count("lines", 1)
				}
				if m[i] {
					t.Count("mandatory", 1)
				}
			}
			t.Eval(2 * len(attrs))
			if noWord {
				return
			}
			for i := range attrs {
				ri := i < len(text) && ucd.Get("GCB")[text[i]] == "Regional_Indicator"
				if a, b := attrs[i].IsWordBoundary(), w[i] && (g[i] || ri); a != b {
					t.Failf("word", "position %d: word boundary %v, the rules give %v", i, a, b)
				}
				if w[i] {
					t.Count("words", 1)
				}
			}
			t.Eval(len(attrs))
			if noSentence || brkSentenceQuirks(text, w) {
				return
			}
			for i := range attrs {
				if a, b := attrs[i].IsSentenceBoundary(), s[i] && w[i] && g[i]; a != b {
					t.Failf("sentence", "position %d: sentence boundary %v, the rules give %v", i, a, b)
				}
				if s[i] {
					t.Count("sentences", 1)
				}
			}
			t.Eval(len(attrs))
		},
	}
}

// lbMid : the classes whose line break opportunities do not depend on the graphemes
func lbMid(text []rune, i int) bool {
	return i < len(text) && in(lbClass(text[i]), "EM ZWJ CM JL JV JT H2 H3 RI")
}

// brkApprox : the characters whose class is approximated by pango (as by the C library),
// which derives the UAX #29 classes from the general category
func brkApprox(r rune) bool {
	d := brkData()
	gc := gcShort(d.gc[r])
	switch {
	case d.gcb[r] == "Other" && gc == "Mc", r == 0x0E33, r == 0x0EB3: // SpacingMark
	case d.gcb[r] == "Prepend" && (gc == "Lo" || r == 0x110CD):
	case r == 0x0DCA: // Indic tailoring
	case r == 0x1DCD, r == 0x1DFC, r == 0x2057: // line breaking class changed
	case in(d.gcb[r], "Extend SpacingMark") && !in(lbClass(r), "CM EM ZWJ"):
	case r == 0x200B, r == 0x202F, r == 0x055F:
	case d.wb[r] == "ALetter" && in(gc, "Po Sk Pd So") && r != 0x05F3 && !(r >= 0x24B6 && r <= 0x24E9):
	case r >= 0xFF10 && r <= 0xFF19: // Numeric
	case d.wb[r] == "Other" && d.sb[r] == "OLetter" && lbClass(r) == "ID" && gc == "Lo": // Ideographic
		return r >= 0x9FC4 && r < 0xA000 || r > 0xA000 && !(r >= 0xF900 && r <= 0xFAD9 && !(r >= 0xFA2E && r < 0xFA30 || r >= 0xFA6B && r < 0xFA70) || r >= 0x20000 && r <= 0x2A6D6 || r >= 0x2F800 && r <= 0x2FA1D)
	default:
		return false
	}
	return true
}

// brkNoSentence : the characters whose sentence class is approximated
func brkNoSentence(r rune) bool {
	d := brkData()
	gc := gcShort(d.gc[r])
	return gc == "Pc" || d.sb[r] == "Lower" && gc != "Ll" || r == 0x0295 || d.sb[r] == "OLetter" && gc != "Lo" || d.sb[r] == "Upper" && in(gc, "So Nl") ||
		r >= 0x1F3FB && r <= 0x1F3FF
}

// brkTailored : with a joiner in an Indic text, or a prepended mark, the tailoring and the approximations apply
func brkTailored(text []rune) (indic, prepend bool) {
	z := false
	for _, r := range text {
		z = z || r == 0x200C || r == 0x200D
		indic = indic || r >= 0x900 && r < 0xE00 || r > 0x80 && ucd.Get("InSC")[r] != "Other"
		prepend = prepend || brkData().gcb[r] == "Prepend"
	}
	return z && indic, prepend
}

// brkSentenceQuirks : the sequences for which the algorithm of the C library, which looks
// for the sentences at the word boundaries only and in one pass, departs from the rules :
// a full stop inside a word, several separated spaces or a closing character after a terminator
func brkSentenceQuirks(text []rune, w []bool) bool {
	d := brkData()
	skip := func(i int) bool { return in(d.sb[text[i]], "Extend Format") }
	for i, r := range text {
		if !in(d.sb[r], "ATerm STerm") {
			continue
		}
		j := i + 1
		for j < len(text) && skip(j) {
			j++
		}
		if i > 0 && !w[i] || j < len(text) && !w[j] {
			return true
		}
		for k := i - 1; k > 0; k-- { // the character before
			if skip(k) {
				continue
			}
			if !w[k] {
				return true
			}
			break
		}
		for k := j; k < len(text); k++ { // rule SB8
			if in(d.sb[text[k]], "OLetter Upper Lower Sep CR LF ATerm STerm") {
				if !w[k] {
					return true
				}
				break
			}
		}
		closes, spaces := 0, 0
		for ; j < len(text); j++ {
			if skip(j) {
				continue
			}
			if d.sb[text[j]] == "Close" && spaces == 0 {
				closes++
				continue
			}
			if in(d.sb[text[j]], "Sp") {
				if spaces > 0 && w[j] {
					return true
				}
				spaces++
				continue
			}
			if closes > 0 && spaces == 0 && d.sb[text[j]] == "Numeric" {
				return true
			}
			break
		}
	}
	return false
}
