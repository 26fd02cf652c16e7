package bidi

import (
	"fmt"
	"reflect"

	fb "github.com/benoitkugler/textprocessing/fribidi"

	"verifharness/run"
	"verifharness/ucd"
)

// ---- model of the line reordering

// reorderModel returns the new levels of the line and its visual order (indexes in the paragraph)
func reorderModel(cl []class, lv []int, off, length, base int, nsm bool) (levels, order []int, max int) {
	levels = append([]int(nil), lv...)
	for i := off + length - 1; i >= off; i-- {
		c := cl[i]
		if c == cWS || c.isolateInit() || c == cPDI || c.removed() {
			levels[i] = base
		} else {
			break
		}
	}
	type unit struct {
		level int
		items []int
	}
	// units, from the end: a sequence of marks at an odd level and its base stay in logical order
	var units []unit
	for i := off + length - 1; i >= off; i-- {
		if nsm && levels[i]&1 == 1 && cl[i] == cNSM {
			l := levels[i]
			j := i - 1
			for j >= off && levels[j] == l && (cl[j] == cNSM || cl[j].removed()) {
				j--
			}
			if j < off || levels[j] != l {
				j++
			}
			var it []int
			for k := j; k <= i; k++ {
				it = append(it, k)
			}
			units = append(units, unit{l, it})
			i = j
			continue
		}
		units = append(units, unit{levels[i], []int{i}})
	}
	for i, j := 0, len(units)-1; i < j; i, j = i+1, j-1 {
		units[i], units[j] = units[j], units[i]
	}
	for _, u := range units {
		if u.level > max {
			max = u.level
		}
	}
	// L2, recursively: at level l, maximal stretches of units >= l are reversed
	var rec func(us []unit, l int) []unit
	rec = func(us []unit, l int) []unit {
		if l > max {
			return us
		}
		var out []unit
		for i := 0; i < len(us); {
			if us[i].level < l {
				out = append(out, us[i])
				i++
				continue
			}
			j := i
			for j < len(us) && us[j].level >= l {
				j++
			}
			sub := rec(us[i:j], l+1)
			for k := len(sub) - 1; k >= 0; k-- {
				out = append(out, sub[k])
			}
			i = j
		}
		return out
	}
	for _, u := range rec(units, 1) {
		order = append(order, u.items...)
	}
	return levels, order, max
}

// B02 : reordering of lines
func B02() *run.Prop {
	return &run.Prop{
		ID:       "B02",
		Rule:     "random paragraphs with levels from the algorithm or arbitrary levels, cut at random places into lines, each reordered with random options; non-trivial: the visual order of some line is not the identity",
		Quick:    40000,
		Thorough: 2000000,
		Need:     map[string]int64{"lines": 50000, "lines reordered": 10000, "mark groups kept": 1000, "multi-line paragraphs": 10000},
		Run: func(t *run.T) {
			cl, br := genParagraph(t)
			if t.Chance(0.4) {
				for i := range cl {
					if t.Chance(0.25) && cl[i] != cB {
						cl[i] = run.Pick(t, cNSM, cNSM, cBN, cWS)
						if br != nil {
							br[i] = bracket{}
						}
					}
				}
			}
			n := len(cl)
			base := t.IntN(2)
			types := make([]fb.CharType, n)
			for i, c := range cl {
				types[i] = toFB[c]
			}
			lv := make([]int, n)
			levels := make([]fb.Level, n)
			if t.Chance(0.7) {
				dir := fb.ParType(fb.LTR)
				if base == 1 {
					dir = fb.RTL
				}
				ls, _ := fb.GetParEmbeddingLevels(types, nil, &dir)
				copy(levels, ls)
			} else {
				m := run.Pick(t, 1, 2, 3, 5, 126)
				for i := range levels {
					if i > 0 && t.Chance(0.4) {
						levels[i] = levels[i-1]
					} else {
						levels[i] = fb.Level(t.IntN(m + 1))
					}
				}
			}
			for i, l := range levels {
				lv[i] = int(l)
			}
			flags := fb.Options(0)
			if t.Chance(0.7) {
				flags |= fb.ReorderNSM
			}
			if t.Chance(0.3) {
				flags |= fb.ShapeMirroring | fb.ShapeArabPres
			}
			baseDir := fb.ParType(fb.LTR)
			if base == 1 {
				baseDir = run.Pick(t, fb.ParType(fb.RTL), fb.ParType(fb.WRTL))
			} else {
				baseDir = run.Pick(t, fb.ParType(fb.LTR), fb.ParType(fb.WLTR), fb.ParType(fb.ON))
			}
			str := make([]rune, n)
			mp := make([]int, n)
			for i := range str {
				str[i] = rune(1000 + i)
				mp[i] = i
			}
			hasStr, hasMap := true, true
			if t.Chance(0.1) {
				str, hasStr = nil, false
			} else if t.Chance(0.1) {
				mp, hasMap = nil, false
			}
			typesCopy := append([]fb.CharType(nil), types...)
			t.Input("classes [%s] levels %v base %d flags %x", classString(cl), lv, base, flags)
			off, lines := 0, 0
			changed := false
			wantOrder := make([]int, 0, n)
			for off < n {
				length := n - off
				if t.Chance(0.6) {
					length = t.Range(1, n-off)
				}
				wl, order, max := reorderModel(cl, lv, off, length, base, flags&fb.ReorderNSM != 0)
				got := fb.ReorderLine(flags, types, length, off, baseDir, levels, str, mp)
				t.Step("line [%d,%d)", off, off+length)
				if int(got) != max+1 {
					t.Failf("max-level", "returned maximum %d, want %d", got, max+1)
				}
				lv = wl
				for i := range levels {
					if int(levels[i]) != lv[i] {
						t.Failf("levels", "after the line, level of character %d is %d, want %d (all: %v want %v)", i, levels[i], lv[i], levels, lv)
					}
				}
				wantOrder = append(wantOrder, order...)
				for k, o := range order {
					if o != off+k {
						changed = true
					}
					if k > 0 && cl[o] == cNSM && order[k-1] == o-1 && lv[o]&1 == 1 {
						t.Count("mark groups kept", 1)
					}
				}
				full := append([]int(nil), wantOrder...)
				for i := off + length; i < n; i++ {
					full = append(full, i)
				}
				for k := range full {
					if hasMap && mp[k] != full[k] {
						t.Failf("map", "position map %v, want %v", mp, full)
					}
					if hasStr && str[k] != rune(1000+full[k]) {
						t.Failf("string", "visual string %v, want the order %v", str, full)
					}
				}
				t.Count("lines", 1)
				if changed {
					t.Count("lines reordered", 1)
				}
				off += length
				lines++
			}
			if !reflect.DeepEqual(types, typesCopy) {
				t.Failf("types-mutated", "the bidi types were changed")
			}
			if lines > 1 {
				t.Count("multi-line paragraphs", 1)
			}
			if changed {
				t.Distinct(cl, lv, flags)
			}
		},
	}
}

// ---- joining and shaping

type joinTables struct {
	jt     []string      // joining type per code point
	listed map[rune]bool // listed in ArabicShaping.txt
	forms  map[rune][4]rune
}

var jtab *joinTables

func loadJoin() *joinTables {
	if jtab != nil {
		return jtab
	}
	j := &joinTables{jt: make([]string, 0x110000), forms: map[rune][4]rune{}, listed: map[rune]bool{}}
	for _, l := range ucd.Lines("ArabicShaping.txt") {
		var r rune
		fmt.Sscanf(l, "%x", &r)
		j.listed[r] = true
	}
	short := map[string]string{"Non_Joining": "U", "Right_Joining": "R", "Dual_Joining": "D", "Join_Causing": "C", "Transparent": "T", "Left_Joining": "L"}
	for r, v := range ucd.Get("Joining_Type") {
		if s, ok := short[v]; ok {
			v = s
		}
		j.jt[r] = v
	}
	for p, f := range ucd.ArabicForms() {
		if len(f.Of) != 1 {
			continue
		}
		idx := map[string]int{"isolated": 0, "final": 1, "initial": 2, "medial": 3}[f.Kind]
		e, ok := j.forms[f.Of[0]]
		if !ok {
			e = [4]rune{f.Of[0], f.Of[0], f.Of[0], f.Of[0]}
		}
		e[idx] = p
		j.forms[f.Of[0]] = e
	}
	jtab = j
	return j
}

// shapeModel applies joining, ligatures and mirroring
func shapeModel(cl []class, lv []int, str []rune, flags fb.Options) []rune {
	j := loadJoin()
	tb := loadTables()
	n := len(str)
	out := append([]rune(nil), str...)
	level := func(i int) int {
		if cl[i].removed() {
			return -1
		}
		return lv[i]
	}
	match := func(a, b int) bool { return a == b || a == -1 || b == -1 }
	rtl := func(l int) bool { return l == -1 || l&1 == 1 }
	right := func(s string) bool { return s == "R" || s == "D" || s == "C" }
	left := func(s string) bool { return s == "L" || s == "D" || s == "C" }
	following := func(i int) bool { // may i join to what follows it ?
		if rtl(level(i)) {
			return left(j.jt[str[i]])
		}
		return right(j.jt[str[i]])
	}
	preceding := func(i int) bool {
		if rtl(level(i)) {
			return right(j.jt[str[i]])
		}
		return left(j.jt[str[i]])
	}
	joinPrev := make([]bool, n)
	joinNext := make([]bool, n)
	prev := -1
	broken := false
	for i := 0; i < n; i++ {
		ty := j.jt[str[i]]
		if prev >= 0 && !j.ignored(cl[i], str[i]) && !match(level(prev), level(i)) {
			broken = true
		}
		if ty == "T" || j.ignored(cl[i], str[i]) {
			continue
		}
		if prev >= 0 && !broken && following(prev) && preceding(i) {
			joinPrev[i], joinNext[prev] = true, true
		}
		prev, broken = i, false
	}
	if flags&fb.ShapeArabPres != 0 {
		for i := range out {
			switch j.jt[str[i]] {
			case "R", "D", "L":
			default:
				continue
			}
			f, ok := j.forms[str[i]]
			if !ok {
				continue
			}
			jp, jn := joinPrev[i], joinNext[i]
			if !rtl(level(i)) {
				jp, jn = jn, jp // the shape is chosen by the visual sides
			}
			k := 0
			if jp {
				k |= 1
			}
			if jn {
				k |= 2
			}
			out[i] = f[k]
		}
	}
	if flags&fb.ShapeArabLiga != 0 {
		lig := map[[2]rune]rune{
			{0xFEDF, 0xFE82}: 0xFEF5, {0xFEDF, 0xFE84}: 0xFEF7, {0xFEDF, 0xFE88}: 0xFEF9, {0xFEDF, 0xFE8E}: 0xFEFB,
			{0xFEE0, 0xFE82}: 0xFEF6, {0xFEE0, 0xFE84}: 0xFEF8, {0xFEE0, 0xFE88}: 0xFEFA, {0xFEE0, 0xFE8E}: 0xFEFC,
		}
		for i := 0; i+1 < n; i++ {
			if l, ok := lig[[2]rune{out[i], out[i+1]}]; ok && lv[i]&1 == 1 && lv[i] == lv[i+1] {
				out[i], out[i+1] = 0xFEFF, l
			}
		}
	}
	if flags&fb.ShapeMirroring != 0 {
		for i := range out {
			if lv[i]&1 == 1 {
				if m, ok := tb.mirror[out[i]]; ok {
					out[i] = m
				}
			}
		}
	}
	return out
}

// isIgnored : the characters which are not in the joining data and are
// formatting characters for the bidi algorithm
func (j *joinTables) ignored(c class, r rune) bool {
	if j.listed[r] || j.jt[r] == "T" {
		return false
	}
	return c.removed() || c.isolateInit() || c == cPDI
}

// genText makes a random text with many bidi features
func genText(t *run.T, maxLen int) []rune {
	tb := loadTables()
	n := t.Range(0, maxLen)
	out := make([]rune, 0, n)
	arabic := []rune("ابتثجحخدذرزسشصضطظعغفقكلمنهويآأؤإئىةﻻـ")
	marks := []rune{0x64B, 0x651, 0x670, 0x5B0, 0x300, 0x34F}
	format := []rune{0x200C, 0x200D, 0x200E, 0x200F, 0x202A, 0x202B, 0x202C, 0x202D, 0x202E, 0x2066, 0x2067, 0x2068, 0x2069, 0xAD, 0xFEFF, 0x61C, 0x1, 0x200B}
	punct := []rune("()[]{}<>«»,.:;+-/%$€! \t  ⟨⟩≤≥∈_=")
	mode := t.IntN(6)
	for len(out) < n {
		w := t.IntN(20)
		switch {
		case mode == 0: // any class
			c := class(t.IntN(int(nClass)))
			if c == cB {
				continue
			}
			l := tb.byClass[c]
			out = append(out, l[t.IntN(len(l))])
		case mode == 1 && w < 16:
			out = append(out, arabic[t.IntN(len(arabic))])
		case mode == 2 && w < 10:
			out = append(out, run.Pick(t, 'ل', 'ا', 'أ', 'إ', 'آ', 'ل', 'ب'))
		case w < 4:
			out = append(out, arabic[t.IntN(len(arabic))])
		case w < 7:
			out = append(out, rune(t.Range(0x5D0, 0x5EA)))
		case w < 11:
			out = append(out, rune(t.Range('a', 'z')))
		case w < 13:
			out = append(out, rune(t.Range('0', '9')))
		case w < 14:
			out = append(out, rune(t.Range(0x660, 0x669)))
		case w < 15:
			out = append(out, marks[t.IntN(len(marks))])
		case w < 17 && mode >= 3 || w < 16:
			out = append(out, format[t.IntN(len(format))])
		default:
			out = append(out, punct[t.IntN(len(punct))])
		}
	}
	return out
}

// describe gives the classes and brackets of a text
func describe(str []rune) ([]class, []bracket) {
	tb := loadTables()
	cl := make([]class, len(str))
	br := make([]bracket, len(str))
	for i, r := range str {
		cl[i] = tb.class[r]
		if cl[i] == cON {
			br[i] = tb.brackets[r]
		}
	}
	return cl, br
}

// B03 : the whole pipeline, shaping and mirroring
func B03() *run.Prop {
	return &run.Prop{
		ID:       "B03",
		Rule:     "random texts (Arabic letters, lam-alef sequences, marks, joiners, formatting characters, brackets, digits), every mirrored character and every Arabic letter with random neighbours, random options and directions; non-trivial: at least one character changed by shaping or mirroring",
		Quick:    60000,
		Thorough: 2500000,
		Need:     map[string]int64{"texts": 50000, "joined letters": 50000, "ligatures": 1000, "mirrored": 5000},
		Run: func(t *run.T) {
			tb, jt := loadTables(), loadJoin()
			str := genText(t, run.Pick(t, 4, 12, 12, 40))
			if t.Chance(0.15) { // systematic characters
				for k := t.Range(1, 3); k > 0; k-- {
					at := t.IntN(len(str) + 1)
					var r rune
					if t.Chance(0.5) {
						r = systematic(t, tb.mirror)
					} else {
						r = rune(t.Range(0x600, 0x6FF))
					}
					if !tb.assigned[r] {
						continue
					}
					str = append(append(append([]rune(nil), str[:at]...), r), str[at:]...)
				}
			}
			for i, r := range str {
				if tb.class[r] == cB { // one paragraph
					str[i] = 'x'
				}
			}
			flags := fb.Options(fb.DefaultFlags)
			if t.Chance(0.5) {
				flags = 0
				for _, f := range []fb.Options{fb.ReorderNSM, fb.ShapeMirroring, fb.ShapeArabPres, fb.ShapeArabLiga} {
					if t.Chance(0.6) {
						flags |= f
					}
				}
			}
			dir := parDirs[t.IntN(len(parDirs))]
			got := dir
			in := append([]rune(nil), str...)
			t.Input("text [%s] flags %x direction %s", showRunes(str), flags, dirName(dir))
			vis, max := fb.LogicalToVisual(flags, str, &got)
			t.Count("texts", 1)
			if string(in) != string(str) {
				t.Failf("input-mutated", "the logical string was changed")
			}
			cl, br := describe(str)
			base, weak := baseArgs(dir)
			m := model(cl, br, base, weak)
			shaped := shapeModel(cl, m.levels, str, flags)
			n := len(str)
			lv, order, _ := reorderModel(cl, m.levels, 0, n, m.base, flags&fb.ReorderNSM != 0)
			if len(vis.Str) != n || len(vis.VisualToLogical) != n || len(vis.EmbeddingLevels) != n {
				t.Failf("length", "lengths %d %d %d for %d characters", len(vis.Str), len(vis.VisualToLogical), len(vis.EmbeddingLevels), n)
			}
			want := make([]rune, n)
			for k, o := range order {
				want[k] = shaped[o]
				if vis.VisualToLogical[k] != o {
					t.Failf("order", "visual to logical %v, want %v", vis.VisualToLogical, order)
				}
				if int(vis.EmbeddingLevels[k]) != lv[k] {
					t.Failf("levels", "levels %v, want %v", vis.EmbeddingLevels, lv)
				}
			}
			for k := range want {
				if vis.Str[k] != want[k] {
					o := order[k]
					t.Failf("visual", "visual string [%s], want [%s] (logical %d, U+%04X joining %s)", showRunes(vis.Str), showRunes(want), o, str[o], jt.jt[str[o]])
				}
			}
			if n > 0 && int(max) != m.max+1 {
				t.Failf("max-level", "returned maximum %d, want %d", max, m.max+1)
			}
			l2v := vis.LogicalToVisual()
			for k, o := range order {
				if l2v[o] != k {
					t.Failf("inverse-map", "the logical to visual map %v is not the inverse of %v", l2v, order)
				}
			}
			changed := false
			for i := range str {
				if shaped[i] != str[i] {
					changed = true
					if _, ok := tb.mirror[str[i]]; ok {
						t.Count("mirrored", 1)
					} else if shaped[i] >= 0xFEF5 && shaped[i] <= 0xFEFC {
						t.Count("ligatures", 1)
					} else {
						t.Count("joined letters", 1)
					}
				}
			}
			if changed {
				t.Distinct(str, flags, dir)
			}
		},
	}
}

var mirrorList []rune

func systematic(t *run.T, m map[rune]rune) rune {
	if mirrorList == nil {
		for r := rune(0); r < 0x110000; r++ {
			if _, ok := m[r]; ok {
				mirrorList = append(mirrorList, r)
			}
		}
	}
	return mirrorList[t.IntN(len(mirrorList))]
}

// B04 : removal of the marks
func B04() *run.Prop {
	return &run.Prop{
		ID:       "B04",
		Rule:     "random texts with formatting characters, removal on the logical and on the visual string, with every subset of the accompanying lists; non-trivial: at least one character is removed and one is kept",
		Quick:    60000,
		Thorough: 2000000,
		Need:     map[string]int64{"removals": 30000, "removed characters": 50000},
		Run: func(t *run.T) {
			tb := loadTables()
			str := genText(t, run.Pick(t, 6, 20, 60))
			for i, r := range str {
				if tb.class[r] == cB {
					str[i] = 'x'
				}
			}
			n := len(str)
			dir := parDirs[t.IntN(len(parDirs))]
			vis, _ := fb.LogicalToVisual(fb.ReorderNSM, str, &dir)
			l2v := vis.LogicalToVisual()
			visual := t.Chance(0.5)
			var s []rune
			var to, from []int
			var levels []fb.Level
			if visual {
				s, to, from = vis.Str, append([]int(nil), l2v...), append([]int(nil), vis.VisualToLogical...)
			} else {
				s, to, from = append([]rune(nil), str...), append([]int(nil), vis.VisualToLogical...), append([]int(nil), l2v...)
			}
			levels = append([]fb.Level(nil), vis.EmbeddingLevels...)
			useTo, useFrom, useLevels := t.Chance(0.7), t.Chance(0.7), t.Chance(0.7)
			orig := append([]rune(nil), s...)
			origFrom := append([]int(nil), from...)
			origLevels := append([]fb.Level(nil), levels...)
			var aTo, aFrom []int
			var aLev []fb.Level
			if useTo {
				aTo = to
			}
			if useFrom {
				aFrom = from
			}
			if useLevels {
				aLev = levels
			}
			t.Input("string [%s] visual %v to %v from %v levels %v", showRunes(orig), visual, aTo, aFrom, aLev)
			got := fb.RemoveBidiMarks(s, aTo, aFrom, aLev)
			var want []rune
			var wFrom []int
			var wLev []fb.Level
			wTo := make([]int, n)
			for i := range wTo {
				wTo[i] = -1
			}
			for i, r := range orig {
				c := tb.class[r]
				if c.removed() || c.isolateInit() || c == cPDI || r == 0x200E || r == 0x200F {
					t.Count("removed characters", 1)
					continue
				}
				wTo[origFrom[i]] = len(want)
				want = append(want, r)
				wFrom = append(wFrom, origFrom[i])
				wLev = append(wLev, origLevels[i])
			}
			if len(got) != len(want) {
				t.Failf("string", "result [%s], want [%s]", showRunes(got), showRunes(want))
			}
			for i := range want {
				if got[i] != want[i] {
					t.Failf("string", "result [%s], want [%s]", showRunes(got), showRunes(want))
				}
				if useFrom && from[i] != wFrom[i] {
					t.Failf("from", "positions from this %v, want %v", from[:len(want)], wFrom)
				}
				if useLevels && levels[i] != wLev[i] {
					t.Failf("levels", "levels %v, want %v", levels[:len(want)], wLev)
				}
			}
			if useTo {
				for i := range wTo {
					if to[i] != wTo[i] {
						t.Failf("to", "positions to this %v, want %v", to, wTo)
					}
				}
			}
			t.Count("removals", 1)
			if len(want) != n && len(want) > 0 {
				t.Distinct(orig, visual, useTo, useFrom, useLevels)
			}
		},
	}
}
