// Package bidi monitors the fribidi package against an executable model of
// UAX #9 (written from the text of the standard, with isolating run sequences,
// unlike the run lists of the implementation).
package bidi

import (
	"sort"

	fb "github.com/benoitkugler/textprocessing/fribidi"

	"verifharness/ucd"
)

// class is a bidi class
type class uint8

const (
	cL class = iota
	cR
	cAL
	cEN
	cES
	cET
	cAN
	cCS
	cNSM
	cBN
	cB
	cS
	cWS
	cON
	cLRE
	cLRO
	cRLE
	cRLO
	cPDF
	cLRI
	cRLI
	cFSI
	cPDI
	nClass
)

var classNames = [nClass]string{"L", "R", "AL", "EN", "ES", "ET", "AN", "CS", "NSM", "BN", "B", "S", "WS", "ON", "LRE", "LRO", "RLE", "RLO", "PDF", "LRI", "RLI", "FSI", "PDI"}

var toFB = [nClass]fb.CharType{fb.LTR, fb.RTL, fb.AL, fb.EN, fb.ES, fb.ET, fb.AN, fb.CS, fb.NSM, fb.BN, fb.BS, fb.SS, fb.WS, fb.ON, fb.LRE, fb.LRO, fb.RLE, fb.RLO, fb.PDF, fb.LRI, fb.RLI, fb.FSI, fb.PDI}

var nameToClass = map[string]class{}

func init() {
	for i, n := range classNames {
		nameToClass[n] = class(i)
	}
	for k, v := range map[string]class{"Left_To_Right": cL, "Right_To_Left": cR, "Arabic_Letter": cAL, "European_Number": cEN, "European_Separator": cES, "European_Terminator": cET, "Arabic_Number": cAN, "Common_Separator": cCS, "Nonspacing_Mark": cNSM, "Boundary_Neutral": cBN, "Paragraph_Separator": cB, "Segment_Separator": cS, "White_Space": cWS, "Other_Neutral": cON} {
		nameToClass[k] = v
	}
}

func (c class) String() string { return classNames[c] }

func (c class) removed() bool {
	return c == cLRE || c == cLRO || c == cRLE || c == cRLO || c == cPDF || c == cBN
}
func (c class) isolateInit() bool { return c == cLRI || c == cRLI || c == cFSI }

// bracket info given to the model : 0 no bracket, id with sign for close
type bracket struct {
	id   rune // canonical id
	open bool
}

type modelOut struct {
	levels   []int // after L1 on the whole paragraph
	implicit []int // before L1
	base     int
	strong   bool // a strong character gave the base level
	max      int  // the maximum level, before L1, of the characters kept by X9, and base level
	nonempty int
	removed  []bool
}

// firstStrong implements P2 P3 from i, stopping at the PDI matching an enclosing initiator if inIsolate
func firstStrong(cl []class, from int, inIsolate bool) (int, bool) {
	depth := 0
	for i := from; i < len(cl); i++ {
		switch c := cl[i]; {
		case c.isolateInit():
			depth++
		case c == cPDI:
			if depth > 0 {
				depth--
			} else if inIsolate {
				return 0, false
			}
		case depth == 0 && c == cL:
			return 0, true
		case depth == 0 && (c == cR || c == cAL):
			return 1, true
		}
	}
	return 0, false
}

// model resolves one paragraph. base is 0 or 1, or -1 for automatic, weak is the level used
// without strong character.
func model(orig []class, br []bracket, base, weak int) modelOut {
	n := len(orig)
	out := modelOut{}
	if base < 0 {
		b, ok := firstStrong(orig, 0, false)
		out.strong = ok
		if ok {
			base = b
		} else {
			base = weak
		}
	}
	out.base = base
	cl := append([]class(nil), orig...)
	lv := make([]int, n)

	// matching isolates, BD9
	match := make([]int, n) // initiator -> PDI or n ; PDI -> initiator or -1
	{
		var st []int
		for i, c := range orig {
			match[i] = -1
			if c.isolateInit() {
				match[i] = n
				st = append(st, i)
			} else if c == cPDI && len(st) > 0 {
				o := st[len(st)-1]
				st = st[:len(st)-1]
				match[o], match[i] = i, o
			}
		}
	}

	// X1-X8
	const maxDepth = 125
	type entry struct {
		level    int
		override int // -1 none, cL, cR
		isolate  bool
	}
	st := []entry{{base, -1, false}}
	ovIso, ovEmb, validIso := 0, 0, 0
	next := func(level int, rtl bool) int {
		if rtl {
			return (level + 1) | 1
		}
		return (level + 2) &^ 1
	}
	for i, c := range orig {
		top := st[len(st)-1]
		switch {
		case c == cRLE || c == cLRE || c == cRLO || c == cLRO:
			lv[i] = top.level
			nl := next(top.level, c == cRLE || c == cRLO)
			if nl <= maxDepth && ovIso == 0 && ovEmb == 0 {
				o := -1
				if c == cRLO {
					o = int(cR)
				} else if c == cLRO {
					o = int(cL)
				}
				st = append(st, entry{nl, o, false})
			} else if ovIso == 0 {
				ovEmb++
			}
		case c.isolateInit():
			lv[i] = top.level
			if top.override >= 0 {
				cl[i] = class(top.override)
			}
			rtl := c == cRLI
			if c == cFSI {
				b, _ := firstStrong(orig, i+1, true)
				rtl = b == 1
			}
			nl := next(top.level, rtl)
			if nl <= maxDepth && ovIso == 0 && ovEmb == 0 {
				validIso++
				st = append(st, entry{nl, -1, true})
			} else {
				ovIso++
			}
		case c == cPDI:
			if ovIso > 0 {
				ovIso--
			} else if validIso > 0 {
				ovEmb = 0
				for !st[len(st)-1].isolate {
					st = st[:len(st)-1]
				}
				st = st[:len(st)-1]
				validIso--
			}
			top = st[len(st)-1]
			lv[i] = top.level
			if top.override >= 0 {
				cl[i] = class(top.override)
			}
		case c == cPDF:
			lv[i] = top.level
			if ovIso > 0 {
			} else if ovEmb > 0 {
				ovEmb--
			} else if !top.isolate && len(st) >= 2 {
				st = st[:len(st)-1]
			}
		case c == cBN:
			lv[i] = top.level
		case c == cB:
			lv[i] = base
		default:
			lv[i] = top.level
			if top.override >= 0 {
				cl[i] = class(top.override)
			}
		}
	}
	removed := make([]bool, n)
	var kept []int
	for i, c := range orig {
		removed[i] = c.removed()
		if !removed[i] {
			kept = append(kept, i)
		}
	}
	out.removed = removed

	// X10 : level runs
	var runs [][]int
	for k, i := range kept {
		if k == 0 || lv[kept[k-1]] != lv[i] {
			runs = append(runs, nil)
		}
		runs[len(runs)-1] = append(runs[len(runs)-1], i)
	}
	runOf := make(map[int]int)
	for r, run := range runs {
		for _, i := range run {
			runOf[i] = r
		}
	}
	keptPos := make([]int, n)
	for k, i := range kept {
		keptPos[i] = k
	}
	for _, run := range runs {
		first := run[0]
		if orig[first] == cPDI && match[first] >= 0 {
			continue // continued from its initiator
		}
		seq := append([]int(nil), run...)
		for {
			last := seq[len(seq)-1]
			if orig[last].isolateInit() && match[last] < n {
				seq = append(seq, runs[runOf[match[last]]]...)
			} else {
				break
			}
		}
		level := lv[seq[0]]
		// sos eos
		prevLv := base
		if k := keptPos[seq[0]]; k > 0 {
			prevLv = lv[kept[k-1]]
		}
		last := seq[len(seq)-1]
		nextLv := base
		if orig[last].isolateInit() && match[last] == n {
			nextLv = base
		} else if k := keptPos[last]; k+1 < len(kept) {
			nextLv = lv[kept[k+1]]
		}
		dir := func(l int) class {
			if l&1 == 1 {
				return cR
			}
			return cL
		}
		sos, eos := dir(max(level, prevLv)), dir(max(level, nextLv))
		resolveSequence(seq, orig, cl, lv, br, sos, eos, level)
	}
	// I1 I2
	out.max = base
	for _, i := range kept {
		if lv[i]&1 == 0 {
			switch cl[i] {
			case cR:
				lv[i]++
			case cAN, cEN:
				lv[i] += 2
			}
		} else {
			switch cl[i] {
			case cL, cAN, cEN:
				lv[i]++
			}
		}
		out.max = max(out.max, lv[i])
	}
	// the removed characters take the level of the previous character (documented by the implementation)
	for i := range lv {
		if removed[i] {
			if i == 0 {
				lv[i] = base
			} else {
				lv[i] = lv[i-1]
			}
		}
	}
	out.implicit = append([]int(nil), lv...)
	// L1
	reset := true
	for i := n - 1; i >= 0; i-- {
		switch c := orig[i]; {
		case c == cB || c == cS:
			reset = true
			lv[i] = base
		case c == cWS || c.isolateInit() || c == cPDI || removed[i]:
			if reset {
				lv[i] = base
			}
		default:
			reset = false
		}
	}
	out.levels = lv
	return out
}

func resolveSequence(seq []int, orig, cl []class, lv []int, br []bracket, sos, eos class, level int) {
	m := len(seq)
	t := make([]class, m)
	for k, i := range seq {
		t[k] = cl[i]
	}
	// W1
	prev := sos
	for k := range t {
		if t[k] == cNSM {
			t[k] = prev
			// prev unchanged : if the previous is an isolate, becomes ON
			if k > 0 {
				if p := t[k-1]; p.isolateInit() || p == cPDI {
					t[k] = cON
				}
			}
		}
		prev = t[k]
		if prev.isolateInit() || prev == cPDI {
			prev = cON
		}
	}
	// W2 W3 (W2 uses AL)
	strong := sos
	for k := range t {
		switch t[k] {
		case cL, cR, cAL:
			strong = t[k]
		case cEN:
			if strong == cAL {
				t[k] = cAN
			}
		}
	}
	for k := range t {
		if t[k] == cAL {
			t[k] = cR
		}
	}
	// W4
	for k := 1; k+1 < m; k++ {
		if t[k] == cES && t[k-1] == cEN && t[k+1] == cEN {
			t[k] = cEN
		} else if t[k] == cCS && t[k-1] == t[k+1] && (t[k-1] == cEN || t[k-1] == cAN) {
			t[k] = t[k-1]
		}
	}
	// W5
	for k := 0; k < m; k++ {
		if t[k] != cET {
			continue
		}
		e := k
		for e < m && t[e] == cET {
			e++
		}
		if (k > 0 && t[k-1] == cEN) || (e < m && t[e] == cEN) {
			for x := k; x < e; x++ {
				t[x] = cEN
			}
		}
		k = e - 1
	}
	// W6
	for k := range t {
		if t[k] == cES || t[k] == cET || t[k] == cCS {
			t[k] = cON
		}
	}
	// W7
	strong = sos
	for k := range t {
		switch t[k] {
		case cL, cR:
			strong = t[k]
		case cEN:
			if strong == cL {
				t[k] = cL
			}
		}
	}
	// N0
	e := cL
	if level&1 == 1 {
		e = cR
	}
	strongOf := func(c class) (class, bool) {
		switch c {
		case cL:
			return cL, true
		case cR, cEN, cAN:
			return cR, true
		}
		return 0, false
	}
	if br != nil {
		type pair struct{ o, c int }
		var pairs []pair
		var st []int
		for k := 0; k < m; k++ {
			b := br[seq[k]]
			if b.id == 0 || t[k] != cON {
				continue
			}
			if b.open {
				if len(st) == 63 {
					// BD16: stop processing for the remainder of the sequence
					break
				}
				st = append(st, k)
			} else {
				for s := len(st) - 1; s >= 0; s-- {
					if br[seq[st[s]]].id == b.id {
						pairs = append(pairs, pair{st[s], k})
						st = st[:s]
						break
					}
				}
			}
		}
		sort.Slice(pairs, func(i, j int) bool { return pairs[i].o < pairs[j].o })
		for _, p := range pairs {
			foundE, foundO := false, false
			for k := p.o + 1; k < p.c; k++ {
				if s, ok := strongOf(t[k]); ok {
					if s == e {
						foundE = true
						break
					}
					foundO = true
				}
			}
			var set class
			if foundE {
				set = e
			} else if foundO {
				ctx := sos
				for k := p.o - 1; k >= 0; k-- {
					if s, ok := strongOf(t[k]); ok {
						ctx = s
						break
					}
				}
				if ctx != e {
					set = ctx
				} else {
					set = e
				}
			} else {
				continue
			}
			for _, k := range []int{p.o, p.c} {
				t[k] = set
				// NSM following
				for x := k + 1; x < m; x++ {
					if orig[seq[x]] != cNSM {
						break
					}
					t[x] = set
				}
			}
		}
	}
	// N1 N2
	ni := func(c class) bool {
		return c == cB || c == cS || c == cWS || c == cON || c.isolateInit() || c == cPDI
	}
	for k := 0; k < m; k++ {
		if !ni(t[k]) {
			continue
		}
		x := k
		for x < m && ni(t[x]) {
			x++
		}
		l, r := sos, eos
		if k > 0 {
			l, _ = strongOf(t[k-1])
		}
		if x < m {
			r, _ = strongOf(t[x])
		}
		d := e
		if l == r {
			d = l
		}
		for y := k; y < x; y++ {
			t[y] = d
		}
		k = x - 1
	}
	for k, i := range seq {
		cl[i] = t[k]
	}
}

// ---- characters

type tables struct {
	class    []class // per code point
	assigned []bool
	brackets map[rune]bracket
	mirror   map[rune]rune
	byClass  [nClass][]rune
}

var tab *tables

func loadTables() *tables {
	if tab != nil {
		return tab
	}
	t := &tables{class: make([]class, 0x110000), assigned: make([]bool, 0x110000), brackets: map[rune]bracket{}}
	for r, v := range ucd.Get("Bidi_Class") {
		c, ok := nameToClass[v]
		if !ok {
			panic("unknown class " + v)
		}
		t.class[r] = c
		t.assigned[r] = ucd.AgeAtMost(rune(r), 11)
		if t.assigned[r] && (len(t.byClass[c]) < 400) {
			t.byClass[c] = append(t.byClass[c], rune(r))
		}
	}
	decomp := ucd.Pairs("SingletonDecomp.txt")
	for r, b := range ucd.Brackets() {
		id := r
		if !b.Open {
			id = b.Pair
		}
		// canonical equivalents (U+2329 and U+3008)
		if d, ok := decomp[id]; ok {
			id = d
		}
		t.brackets[r] = bracket{id, b.Open}
	}
	t.mirror = ucd.Pairs("BidiMirroring.txt")
	tab = t
	return t
}
