package pg

import (
	"github.com/benoitkugler/textprocessing/pango"

	"verifharness/run"
	"verifharness/ucd"
)

// the composed letters and vowels deleted as a whole
var indicComposites = func() map[rune]bool {
	m := map[rune]bool{}
	for _, s := range []string{
		"\u09DC\u09DD\u09DE\u09DF", // Bengali
		"\u0931\u0958\u0959\u095A\u095B\u095C\u095D\u095E\u095F",
		"\u0CC7\u0CC8\u0CCA\u0CCB", "\u0BCA\u0BCB\u0BCC", "\u0C47\u0C48", "\u0B48\u0B4B\u0B4C",
		"\u0A59\u0A5A\u0A5B\u0A5C\u0A5E\u0A33\u0A36",
		"\u09CB\u09CC", "\u0D4A\u0D4B\u0D4C",
	} {
		for _, r := range s {
			m[r] = true
		}
	}
	return m
}()

var indicBlocks = []rune{0x900, 0x980, 0xA00, 0xA80, 0xB00, 0xB80, 0xC00, 0xC80, 0xD00}

// scriptTailoring : a text of one script, whose tailoring is applied
func scriptTailoring(t *run.T) {
	d := brkData()
	var text []rune
	kind := t.IntN(4)
	letter := func(b rune) rune { return b }
	switch kind {
	case 0: // Arabic
		letter = func(rune) rune {
			return run.Pick[rune](t, 0x622, 0x623, 0x624, 0x625, 0x626, 0x627, 0x627, 0x628, 0x648, 0x648, 0x64A, 0x64A, 0x649, 0x653, 0x654, 0x654, 0x655, 0x656, 0x6C0, 0x6D3)
		}
	case 1: // Sinhala
		letter = func(rune) rune {
			return run.Pick[rune](t, 0x0D9A, 0x0DC6, rune(t.Range(0x0D9A, 0x0DB1)), 0x0DCA, 0x0DCA, 0x200D, 0x200D, 0x0D85, 0x0DD2)
		}
	default:
		base := indicBlocks[t.IntN(len(indicBlocks))]
		name := ucd.Get("Script")[base+0x15]
		letter = func(rune) rune {
			for {
				var r rune
				switch t.IntN(6) {
				case 0:
					return run.Pick[rune](t, 0x200C, 0x200D)
				case 1:
					r = base + 0x4D
				case 2:
					r = base + rune(t.Range(0x3C, 0x4C))
				case 3:
					r = base + rune(t.Range(1, 0x7F))
				default:
					r = base + rune(t.Range(0x15, 0x39))
				}
				if ucd.Get("Script")[r] == name && ucd.Get("GCB")[r] != "Prepend" {
					return r
				}
			}
		}
	}
	first := letter(0)
	for first == 0x200C || first == 0x200D || in(gcShort(d.gc[first]), "Mc Me Mn") {
		first = letter(0)
	}
	text = append(text, first)
	for range t.Range(1, 9) {
		if t.Chance(0.05) {
			text = append(text, run.Pick[rune](t, ' ', '\n'))
		} else {
			text = append(text, letter(0))
		}
	}
	n := len(text)
	t.Input("tailored text [%s]", showRunes(text))
	at := func(i int) rune {
		if i < 0 || i >= n {
			return 0
		}
		return text[i]
	}

	cursor := graphemes(text)
	composite := make([]bool, n+1)
	joined := make([]bool, n+1) // no break
	mand := func(i int) bool { return i > 0 && text[i-1] == '\n' }
	join := func(i int) {
		if !mand(i) {
			joined[i], cursor[i] = true, false
		}
	}
	virama := func(r rune) bool { return r >= 0x900 && r < 0xD80 && r&0x7F == 0x4D }
	conjunct := false
	bs := make([]bool, n+1)
	var base rune
	for i := 0; i < n; i++ {
		insc := ""
		if i > 0 {
			insc = ucd.Get("InSC")[text[i-1]]
		}
		bs[i] = cursor[i] && (!backspaceWhole(base) || i > 0 && in(insc, "Virama Vowel_Dependent"))
		if !in(gcShort(d.gc[text[i]]), "Mc Me Mn") {
			base = text[i]
		}
	}
	for i, r := range text {
		switch kind {
		case 0:
			p := at(i - 1)
			composite[i+1] = r >= 0x622 && r <= 0x626 || p == 0x627 && r >= 0x653 && r <= 0x655 || (p == 0x648 || p == 0x64A) && r == 0x654
		case 1:
			switch {
			case r == 0x0DCA && at(i+1) == 0x200D, r == 0x200D && at(i+1) == 0x0DCA:
				join(i)
				join(i + 1)
				conjunct = true
			case conjunct && (at(i-1) == 0x200D || at(i-1) == 0x0DCA) && r >= 0x0D9A && r <= 0x0DC6:
				join(i)
				conjunct = false
			case !conjunct && at(i-1) == 0x0DCA && r != 0x200D:
				cursor[i] = true
			}
		default:
			composite[i+1] = indicComposites[r]
			if i > 0 && (r == 0x200C || r == 0x200D) {
				join(i)
				if i+1 < n {
					join(i + 1)
				}
				if i+2 < n && virama(text[i+1]) {
					join(i + 2)
				}
			}
		}
	}
	attrs := pango.ComputeCharacterAttributes(text, -1)
	if len(attrs) != n+1 {
		t.Failf("length", "%d attributes for %d characters", len(attrs), n)
		return
	}
	for i := 1; i < n; i++ {
		a := attrs[i]
		if a.IsCursorPosition() != cursor[i] {
			t.Failf("tailored-cursor", "position %d: cursor position is %v, the script makes it %v", i, a.IsCursorPosition(), cursor[i])
		}
		if joined[i] {
			t.Count("joined characters", 1)
			if a.IsCharBreak() || a.IsLineBreak() || a.IsMandatoryBreak() {
				t.Failf("tailored-break", "position %d: a break inside joined characters", i)
			}
		}
		want := bs[i] && !composite[i]
		if composite[i] {
			t.Count("composed characters", 1)
		}
		if a.IsBackspaceDeletesCharacter() != want {
			t.Failf("tailored-backspace", "position %d: backspace deletes a character is %v, the script makes it %v", i, a.IsBackspaceDeletesCharacter(), want)
		}
		t.DistinctHash(uint64(a))
	}
	if composite[n] && attrs[n].IsBackspaceDeletesCharacter() {
		t.Failf("tailored-backspace", "position %d: backspace deletes a part of a composed character", n)
	}
	t.Count("tailored texts", 1)
	t.Eval(n + 1)
}

// catalan : the middle dot between two l is inside the word, in this language only
func catalan(t *run.T) {
	n := t.Range(3, 14)
	text := make([]rune, n)
	for i := range text {
		text[i] = run.Pick(t, 'l', 'l', 'L', '·', '·', 'a', ' ', 'l')
		if i > 0 && text[i-1] == '·' && t.Chance(0.5) {
			text[i] = run.Pick(t, 'l', 'L')
		}
	}
	lang := run.Pick(t, "ca", "ca-es", "en", "cab", "fr")
	t.Input("text %q in %s", string(text), lang)
	l := pango.NewLayout(newContext(true))
	l.SetRunes(append([]rune(nil), text...))
	a := pango.NewAttrLanguage(pango.Language(lang))
	a.StartIndex, a.EndIndex = 0, n
	l.SetAttributes(pango.AttrList{a})
	attrs := l.GetCharacterAttributes()
	if len(attrs) != n+1 {
		t.Failf("length", "%d attributes for %d characters", len(attrs), n)
		return
	}
	w := wordRuns(text)
	isL := func(i int) bool { return i >= 0 && i < n && (text[i] == 'l' || text[i] == 'L') }
	dot := func(i int) bool {
		return i >= 0 && i < n && lang[:2] == "ca" && lang != "cab" && text[i] == '·' && isL(i-1) && isL(i+1)
	}
	for i := range attrs {
		start, end := w.start[i], w.end[i]
		if dot(i) {
			end = false
			t.Count("middle dots", 1)
		}
		if dot(i - 1) {
			start = false
		}
		if attrs[i].IsWordStart() != start || attrs[i].IsWordEnd() != end {
			t.Failf("catalan", "position %d of %q (%s): word start %v end %v, want %v %v", i, string(text), lang, attrs[i].IsWordStart(), attrs[i].IsWordEnd(), start, end)
			return
		}
	}
	t.Eval(n)
}
