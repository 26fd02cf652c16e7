package pg

import (
	"github.com/benoitkugler/textprocessing/pango"

	"verifharness/run"
	"verifharness/ucd"
)

// ---- the attributes derived from the classes and the boundaries ----

type wordMarks struct{ start, end []bool }

// wordRuns : the words are the runs starting with a letter or a number, going on
// with letters, numbers, marks and format characters ; Japanese words also
// end at the changes of script
func wordRuns(text []rune) wordMarks {
	d := brkData()
	n := len(text)
	m := wordMarks{make([]bool, n+1), make([]bool, n+1)}
	jap := func(r rune) int {
		switch {
		case r >= 0x3040 && r <= 0x309F:
			return 2
		case r >= 0x30A0 && r <= 0x30FF:
			return 3
		case r >= 0x2F00 && r <= 0x2FDF:
			return 1
		case r >= 0x2F00 && r < 0x3040:
			return 4
		}
		return 0
	}
	type state int
	const (
		none state = iota
		letters
		numbers
	)
	st := none
	var last rune
	for i := 0; i <= n; i++ {
		kind := "end"
		if i < n {
			switch gc := gcShort(d.gc[text[i]]); {
			case in(gc, "Ll Lm Lo Lt Lu"):
				kind = "letter"
			case in(gc, "Nd Nl No"):
				kind = "number"
			case in(gc, "Mc Me Mn Cf"):
				kind = "mark"
			}
		}
		if st == none {
			switch kind {
			case "letter":
				st = letters
			case "number":
				st = numbers
			default:
				continue
			}
			last = text[i]
			m.start[i] = true
			continue
		}
		switch kind {
		case "mark":
		case "number":
			last = text[i]
		case "letter":
			if st == letters {
				a, b := jap(last), jap(text[i])
				split := false
				switch a {
				case 0:
					split = b != 0
				case 1: // kanji, followed by hiragana
					split = b != 1 && b != 2
				case 2:
					split = b != 2
				case 3:
					split = b != 3 && b != 2
				default:
					split = b == 0
				}
				if split {
					m.start[i], m.end[i] = true, true
				}
			}
			last = text[i]
		default:
			st = none
			m.end[i] = true
		}
	}
	return m
}

func isWhite(r rune) bool {
	return in(gcShort(brkData().gc[r]), "Zs Zl Zp") || r == '\t' || r == '\n' || r == '\r' || r == '\f'
}

// sentenceRuns : the sentences of more than one character, without the space around them, given the boundaries
func sentenceRuns(text []rune, bound []bool) wordMarks {
	n := len(text)
	m := wordMarks{make([]bool, n+1), make([]bool, n+1)}
	a := 0
	for b := 1; b <= n; b++ {
		if !bound[b] {
			continue
		}
		s, e := a, b
		for s < e && isWhite(text[s]) {
			s++
		}
		for e > s && isWhite(text[e-1]) {
			e--
		}
		if s < e && b > a+1 {
			m.start[s], m.end[e] = true, true
		}
		a = b
	}
	return m
}

func isHyphenChar(r rune) bool {
	switch r {
	case '-', 0x058a, 0x1400, 0x1806, 0x2010, 0x2e17, 0x2e40, 0x30a0, 0xfe63, 0xff0d:
		return true
	}
	return false
}

// backspaceWhole : the scripts for which backspace deletes a whole cluster
func backspaceWhole(r rune) bool {
	return r >= 0x20 && r <= 0x2AF || r >= 0x1E00 && r <= 0x1EFF || r >= 0x400 && r <= 0x52F ||
		r >= 0x370 && r <= 0x3FF || r >= 0x1F00 && r <= 0x1FFF || r >= 0x3040 && r <= 0x30FF ||
		r >= 0xAC00 && r <= 0xD7A3 || ucd.Get("Emoji")[r] == "Y"
}

// P02 : the other character attributes
func P02() *run.Prop {
	return &run.Prop{
		ID: "P02", Quick: 600000, Thorough: 15000000,
		Need: map[string]int64{"words": 10000, "sentences": 10000, "tailored texts": 10000, "joined characters": 5000, "composed characters": 5000, "middle dots": 200},
		Run: func(t *run.T) {
			d := brkData()
			if t.Chance(0.15) {
				if t.Chance(0.05) {
					catalan(t)
				} else {
					scriptTailoring(t)
				}
				return
			}
			text := brkText(t)
			if t.Chance(0.3) {
				text = proseText(t)
			}
			t.Input("text [%s]", showRunes(text))
			attrs := pango.ComputeCharacterAttributes(text, -1)
			n := len(text)
			if len(attrs) != n+1 {
				t.Failf("length", "%d attributes for %d characters", len(attrs), n)
			}
			bound := make([]bool, n+1)
			for i := range attrs {
				bound[i] = attrs[i].IsSentenceBoundary()
			}
			w, s := wordRuns(text), sentenceRuns(text, bound)
			chk := func(fp string, i int, got, want bool) {
				if got != want {
					t.Failf(fp, "position %d: %s is %v, the text makes it %v", i, fp, got, want)
				}
			}
			tail, prepend := brkTailored(text)
			quirk := prepend || brkSentenceQuirks(text, wordBounds(text))
			for _, r := range text {
				quirk = quirk || brkApprox(r)
			}
			indic, arabic := false, false
			for _, r := range text {
				indic = indic || r > 0x80 && ucd.Get("InSC")[r] != "Other"
				arabic = arabic || r >= 0x600 && r < 0x700
			}
			var base rune
			for i, a := range attrs {
				chk("word-start", i, a.IsWordStart(), w.start[i])
				chk("word-end", i, a.IsWordEnd(), w.end[i])
				chk("sentence-start", i, a.IsSentenceStart(), s.start[i])
				chk("sentence-end", i, a.IsSentenceEnd(), s.end[i])
				if a.IsMandatoryBreak() && !a.IsLineBreak() {
					t.Failf("mandatory", "position %d: a mandatory break is not a line break", i)
				}
				if i == 0 || i == n {
					chk("cursor-ends", i, a.IsCursorPosition(), true)
					chk("line-ends", i, a.IsLineBreak(), i == n)
					chk("word-boundary-ends", i, a.IsWordBoundary(), true)
					chk("sentence-boundary-ends", i, a.IsSentenceBoundary(), true)
				} else {
					chk("char-break", i, a.IsCharBreak(), a.IsCursorPosition())
					if a.IsSentenceBoundary() && !a.IsWordBoundary() && !quirk {
						t.Failf("sentence-in-word", "position %d: a sentence ends inside a word", i)
					}
					if a.IsWordBoundary() && !a.IsCursorPosition() && ucd.Get("GCB")[text[i]] != "Regional_Indicator" && !tail {
						t.Failf("word-in-grapheme", "position %d: a word ends inside a grapheme", i)
					}
				}
				if i < n {
					r := text[i]
					chk("white", i, a.IsWhite(), isWhite(r))
					chk("expandable", i, a.IsExpandableSpace(), r == 0x20 || r == 0xA0)
					// hyphens
					if i > 0 {
						p := text[i-1]
						sh := func(r rune) bool { return isWhite(r) || isHyphenChar(r) }
						want := false
						switch sc := ucd.Get("Script")[p]; {
						case a.IsWordBoundary() || sh(p) || sh(r):
						case in(sc, "Common Zyyy"):
							want = p == 0xAD
						case in(sc, "Han Hani Hangul Hang Hiragana Hira Katakana Kana"):
						default:
							want = true
						}
						want = want || p == 0x2027
						if !prepend && !in(d.wb[r], "MidLetter MidNum MidNumLet Single_Quote Double_Quote") { // looks ahead
							chk("insert-hyphen", i, a.IsBreakInsertsHyphen(), want)
						}
						chk("removes-preceding", i, a.IsBreakRemovesPreceding(), p == 0x2027)
					}
					// backspace
					if i > 0 && !indic && !arabic {
						chk("backspace", i, a.IsBackspaceDeletesCharacter(), a.IsCursorPosition() && !backspaceWhole(base))
					}
					if !in(gcShort(d.gc[r]), "Mc Me Mn") {
						base = r
					}
				}
				if a.IsWordStart() {
					t.Count("words", 1)
				}
				if a.IsSentenceStart() {
					t.Count("sentences", 1)
				}
				t.DistinctHash(uint64(a))
			}
			t.Count("positions", len(attrs))
			t.Eval(len(attrs))
		},
	}
}

// proseText : words and punctuation, of several scripts
func proseText(t *run.T) []rune {
	words := []string{"the", "cat", "Mr", "e.g", "can't", "12.5", "3rd", "été", "Ünï", "дом", "שלום", "漢字", "ひらがな", "カタカナ", "한국어", "ไทย",
		"👩‍👩‍👧", "🇫🇷", "co-op", "soft\u00adhyphen", "hy\u2027phen", "A", "b", "!", "?", ".", "...", "\"x\"", "(y)", "$5", "50%", "http://a.b/c"}
	seps := []string{" ", " ", " ", "  ", ". ", ", ", "\n", "\r\n", "\u2029", "\t", "! ", "? ", "\u00a0", "。", "-", "", "\u200b"}
	var out []rune
	for range t.Range(1, 12) {
		out = append(out, []rune(run.Pick(t, words...))...)
		out = append(out, []rune(run.Pick(t, seps...))...)
	}
	return out
}
