package bidi

import (
	"fmt"
	"strings"

	fb "github.com/benoitkugler/textprocessing/fribidi"

	"verifharness/run"
)

func classString(cl []class) string {
	var sb strings.Builder
	for i, c := range cl {
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(c.String())
	}
	return sb.String()
}

func showRunes(s []rune) string {
	var sb strings.Builder
	for i, r := range s {
		if i > 0 {
			sb.WriteByte(' ')
		}
		fmt.Fprintf(&sb, "%04X", r)
	}
	return sb.String()
}

var parDirs = []fb.ParType{fb.ON, fb.LTR, fb.RTL, fb.WLTR, fb.WRTL}

// baseArgs gives the arguments of the model for a requested direction
func baseArgs(d fb.ParType) (base, weak int) {
	switch d {
	case fb.LTR:
		return 0, 0
	case fb.RTL:
		return 1, 1
	case fb.WRTL:
		return -1, 1
	default:
		return -1, 0
	}
}

func dirName(d fb.ParType) string { return d.String() }

// checkLevels compares one paragraph
func checkLevels(t *run.T, cl []class, br []bracket, dir fb.ParType) modelOut {
	types := make([]fb.CharType, len(cl))
	for i, c := range cl {
		types[i] = toFB[c]
	}
	var fbr []fb.BracketType
	if br != nil {
		fbr = make([]fb.BracketType, len(cl))
		for i, b := range br {
			fbr[i] = fb.BracketType(b.id)
			if b.open {
				fbr[i] |= 1 << 31
			}
		}
	}
	typesCopy := append([]fb.CharType(nil), types...)
	got := dir
	levels, mx := fb.GetParEmbeddingLevels(types, fbr, &got)
	base, weak := baseArgs(dir)
	m := model(cl, br, base, weak)
	fail := func(fp, f string, args ...interface{}) {
		if fp == "levels" || fp == "levels-removed" {
			cl, br = shrink(cl, br, dir)
			t.Step("shrunk to [%s] brackets %v", classString(cl), br)
		}
		t.Input("classes [%s] brackets %v direction %s", classString(cl), br, dirName(dir))
		t.Failf(fp, f, args...)
	}
	if len(levels) != len(cl) {
		fail("length", "%d levels for %d characters", len(levels), len(cl))
	}
	for i := range levels {
		if int(levels[i]) != m.levels[i] {
			fp := "levels"
			if m.removed[i] {
				fp = "levels-removed"
			}
			fail(fp, "character %d (%s): level %d, the standard gives %d (got %v want %v)", i, cl[i], levels[i], m.levels[i], levels, m.levels)
		}
	}
	for i := range types {
		if types[i] != typesCopy[i] {
			fail("types-mutated", "bidi type %d changed", i)
		}
	}
	if len(cl) > 0 && int(mx) != m.max+1 {
		fail("max-level", "returned maximum %d, want %d", mx, m.max+1)
	}
	if len(cl) == 0 && mx != 1 {
		fail("max-level", "returned maximum %d for the empty text", mx)
	}
	wantDir := dir
	if base < 0 && m.strong {
		wantDir = fb.LTR
		if m.base == 1 {
			wantDir = fb.RTL
		}
	}
	if got != wantDir {
		fail("base-direction", "resolved direction %s, want %s", dirName(got), dirName(wantDir))
	}
	return m
}

// B01 : embedding levels follow UAX #9
func B01() *run.Prop {
	const total = 23*23*23*23 + 23*23*23 + 23*23 + 23 + 1 // strings of length <= 4
	const chunk = 1000
	nEx := (total + chunk - 1) / chunk
	return &run.Prop{
		ID:       "B01",
		Rule:     "every class string of length <= 4 in every direction, every code point, and weighted random paragraphs (nested embeddings and isolates beyond depth 125, more than 63 nested brackets, numbers, marks); non-trivial: at least two distinct levels or a level above 1",
		Quick:    nEx + 30 + 120000,
		Thorough: nEx + 30 + 4000000,
		Need:     map[string]int64{"paragraphs": 100000, "depth>60": 10, "bracket pairs": 100, "code points": 0x110000},
		Run: func(t *run.T) {
			switch {
			case t.Idx < nEx:
				t.Input("exhaustive class strings, chunk %d", t.Idx)
				for k := t.Idx * chunk; k < (t.Idx+1)*chunk && k < total; k++ {
					cl := decodeClasses(k)
					if !singleParagraph(cl) {
						continue
					}
					for _, d := range parDirs {
						m := checkLevels(t, cl, nil, d)
						note(t, cl, m, 0)
					}
				}
			case t.Idx < nEx+30:
				checkCodePoints(t, t.Idx-nEx, 30)
			default:
				randomParagraph(t)
			}
		},
	}
}

func note(t *run.T, cl []class, m modelOut, salt uint64) {
	t.Eval(1)
	t.Count("paragraphs", 1)
	nontrivial := false
	for i := range m.levels {
		if m.levels[i] > 1 || m.levels[i] != m.levels[0] {
			nontrivial = true
		}
	}
	if m.max > 60 {
		t.Count("depth>60", 1)
	}
	t.Max("level", m.max)
	t.Max("length", len(cl))
	if nontrivial {
		h := uint64(14695981039346656037) ^ salt
		for i := range cl {
			h = (h ^ uint64(cl[i])) * 1099511628211
		}
		h = (h ^ uint64(m.base+7)) * 1099511628211
		t.DistinctHash(h)
	}
}

func decodeClasses(k int) []class {
	n := 0
	size := 1
	for k >= size {
		k -= size
		size *= int(nClass)
		n++
	}
	out := make([]class, n)
	for i := range out {
		out[i] = class(k % int(nClass))
		k /= int(nClass)
	}
	return out
}

// singleParagraph : a paragraph separator may only end the text
func singleParagraph(cl []class) bool {
	for i, c := range cl {
		if c == cB && i+1 < len(cl) {
			return false
		}
	}
	return true
}

func checkCodePoints(t *run.T, part, of int) {
	tb := loadTables()
	t.Input("code points, part %d of %d", part, of)
	size := 0x110000/of + 1
	for r := part * size; r < (part+1)*size && r < 0x110000; r++ {
		t.Count("code points", 1)
		if tb.assigned[r] && (r < 0xD800 || r > 0xDFFF) { // surrogates are not characters
			if got := fb.GetBidiType(rune(r)); got != toFB[tb.class[r]] {
				if !knownClassChange(rune(r)) {
					t.Errorf("bidi-class", "U+%04X: bidi type %s, the UCD says %s", r, got, tb.class[r])
				}
			}
		}
		got := fb.GetBracket(rune(r))
		b, ok := tb.brackets[rune(r)]
		if !ok {
			if got != fb.NoBracket {
				t.Errorf("bracket", "U+%04X: bracket type %x for a character which is not a paired bracket", r, got)
			}
			continue
		}
		if (got&(1<<31) != 0) != b.open {
			t.Errorf("bracket", "U+%04X: bracket type %x, open should be %v", r, got, b.open)
		}
		// two brackets have the same id iff they may pair
		for r2, b2 := range tb.brackets {
			same := fb.GetBracket(r2)&^(1<<31) == got&^(1<<31)
			if same != (b.id == b2.id) {
				t.Errorf("bracket", "U+%04X and U+%04X: same pair is %v, the UCD says %v", r, r2, same, b.id == b2.id)
			}
		}
	}
}

// knownClassChange lists the characters whose class was changed by a later version of the standard
func knownClassChange(r rune) bool { return r == 0x1734 } // NSM until Unicode 13, L since Unicode 14

func randomParagraph(t *run.T) {
	cl, br := genParagraph(t)
	for _, d := range parDirs {
		m := checkLevels(t, cl, br, d)
		note(t, cl, m, 1)
	}
	t.Input("classes [%s] brackets %v", classString(cl), br)
	if br != nil {
		for _, b := range br {
			if b.id != 0 {
				t.Count("bracket pairs", 1)
			}
		}
	}
}

// genParagraph makes a random class string
func genParagraph(t *run.T) ([]class, []bracket) {
	var alpha []class
	mode := t.IntN(8)
	n := t.Range(1, 14)
	switch mode {
	case 0: // anything
		for c := class(0); c < nClass; c++ {
			if c != cB {
				alpha = append(alpha, c)
			}
		}
	case 1: // numbers
		alpha = []class{cEN, cEN, cES, cET, cET, cCS, cAN, cAL, cR, cL, cNSM, cWS, cON, cBN}
	case 2: // isolates
		alpha = []class{cLRI, cRLI, cFSI, cPDI, cPDI, cL, cR, cAL, cEN, cON, cNSM, cWS}
	case 3: // embeddings
		alpha = []class{cLRE, cRLE, cLRO, cRLO, cPDF, cPDF, cL, cR, cEN, cAN, cON, cBN, cWS, cNSM}
	case 4: // all together
		alpha = []class{cLRE, cRLE, cLRO, cRLO, cPDF, cLRI, cRLI, cFSI, cPDI, cPDI, cL, cR, cAL, cEN, cET, cON, cNSM, cBN, cS, cWS}
	case 5: // deep
		alpha = []class{cLRE, cRLE, cLRO, cRLO, cLRI, cRLI, cFSI}
	case 6, 7: // brackets
		alpha = []class{cON, cON, cON, cON, cON, cL, cR, cAL, cEN, cAN, cNSM, cLRI, cRLI, cPDI, cBN, cWS, cRLE, cPDF, cLRO}
	}
	if t.Chance(0.2) {
		n = t.Range(1, 60)
	}
	var cl []class
	if mode == 5 {
		depth := t.Range(40, 140)
		for i := 0; i < depth; i++ {
			c := alpha[t.IntN(len(alpha))]
			cl = append(cl, c)
			if t.Chance(0.15) {
				cl = append(cl, run.Pick(t, cL, cR, cEN, cON, cNSM, cBN, cPDF, cPDI))
			}
		}
		for i := t.IntN(140); i > 0; i-- {
			cl = append(cl, run.Pick(t, cPDF, cPDI, cPDI, cL, cR, cEN, cON, cRLE, cLRI))
		}
	} else {
		if t.Chance(0.3) { // small alphabet
			k := t.Range(2, min(5, len(alpha)))
			t.Shuffle(len(alpha), func(i, j int) { alpha[i], alpha[j] = alpha[j], alpha[i] })
			alpha = alpha[:k]
		}
		for i := 0; i < n; i++ {
			cl = append(cl, alpha[t.IntN(len(alpha))])
		}
	}
	if t.Chance(0.05) {
		cl = append(cl, cB)
	}
	var br []bracket
	if mode >= 6 || t.Chance(0.1) {
		br = make([]bracket, len(cl))
		ids := []rune{'(', '[', '{'}
		for i, c := range cl {
			if c == cON && t.Chance(0.75) {
				br[i] = bracket{ids[t.IntN(len(ids))], t.Chance(0.5)}
			}
		}
		if mode == 7 && t.Chance(0.05) { // overflow of the bracket stack
			var ncl []class
			var nbr []bracket
			k := t.Range(60, 66)
			for i := 0; i < k; i++ {
				ncl = append(ncl, cON)
				nbr = append(nbr, bracket{'(', true})
			}
			ncl = append(ncl, cR, cL)
			nbr = append(nbr, bracket{}, bracket{})
			for i := 0; i < k; i++ {
				ncl = append(ncl, cON)
				nbr = append(nbr, bracket{'(', false})
			}
			at := t.IntN(len(cl) + 1)
			cl = append(append(append([]class(nil), cl[:at]...), ncl...), cl[at:]...)
			br = append(append(append([]bracket(nil), br[:at]...), nbr...), br[at:]...)
			if len(cl) > 0 && !singleParagraph(cl) {
				cl, br = ncl, nbr
			}
		}
	}
	return cl, br
}

// differs is true if the levels of a paragraph differ from the model
func differs(cl []class, br []bracket, dir fb.ParType) (bad bool) {
	types := make([]fb.CharType, len(cl))
	for i, c := range cl {
		types[i] = toFB[c]
	}
	var fbr []fb.BracketType
	if br != nil {
		fbr = make([]fb.BracketType, len(cl))
		for i, b := range br {
			fbr[i] = fb.BracketType(b.id)
			if b.open {
				fbr[i] |= 1 << 31
			}
		}
	}
	defer func() {
		if recover() != nil {
			bad = true
		}
	}()
	levels, _ := fb.GetParEmbeddingLevels(types, fbr, &dir)
	base, weak := baseArgs(dir)
	m := model(cl, br, base, weak)
	for i := range levels {
		if int(levels[i]) != m.levels[i] {
			return true
		}
	}
	return false
}

func shrink(cl []class, br []bracket, dir fb.ParType) ([]class, []bracket) {
	for again := true; again; {
		again = false
		for size := len(cl) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(cl); {
				ncl := append(append([]class(nil), cl[:i]...), cl[i+size:]...)
				var nbr []bracket
				if br != nil {
					nbr = append(append([]bracket(nil), br[:i]...), br[i+size:]...)
				}
				if differs(ncl, nbr, dir) {
					cl, br = ncl, nbr
					again = true
				} else {
					i++
				}
			}
		}
	}
	return cl, br
}

// Levels gives the embedding levels of one paragraph according to the model
func Levels(text []rune, base int) []int {
	cl, br := describe(text)
	return model(cl, br, base, 0).levels
}

// FirstStrong gives the direction (0 or 1) of the first strong letter, or -1
func FirstStrong(text []rune) int {
	cl, _ := describe(text)
	for _, c := range cl {
		switch c {
		case cL:
			return 0
		case cR, cAL:
			return 1
		}
	}
	return -1
}
