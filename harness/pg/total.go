package pg

import (
	"fmt"
	"math"
	"strings"
	"unicode/utf8"

	"github.com/benoitkugler/textprocessing/pango"

	"verifharness/run"
)

// ---- P20 : any text and settings ----

// hostileText mixes everything Unicode has
func hostileText(t *run.T) []rune {
	var out []rune
	n := t.Range(0, 40)
	if t.Chance(0.03) {
		n = t.Range(100, 300)
	}
	for len(out) < n {
		switch t.IntN(12) {
		case 0:
			out = append(out, brkText(t)...)
		case 1:
			out = append(out, realText(t)...)
		case 2:
			out = append(out, genLText(t, true, true)...)
		case 3:
			out = append(out, run.Pick(t, rune(0), 1, 0x7f, 0x85, 0xad, 0x34f, 0x61c, 0x115f, 0x180e, 0x200b, 0x200c, 0x200d, 0x2028, 0x2029, 0x2060, 0xfeff, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x1fffe, 0xe0001, 0xe0100, 0xe007f, 0x10fffd, 0x10fffe, 0x10ffff))
		case 4:
			out = append(out, run.Pick(t, rune(0x200e), 0x200f, 0x202a, 0x202b, 0x202c, 0x202d, 0x202e, 0x2066, 0x2067, 0x2068, 0x2069))
		case 5:
			out = append(out, run.Pick(t, '\n', '\r', '\t', ' ', '\t', 0x0b, 0x0c))
			if t.Chance(0.3) {
				out = append(out, '\n')
			}
		case 6: // a block of Unicode
			b := rune(t.IntN(0x1100)) << 8
			for k := t.Range(1, 6); k > 0; k-- {
				if r := b + rune(t.IntN(256)); r < 0xd800 || 0xdfff < r {
					out = append(out, r)
				}
			}
		case 7: // scripts of the first planes
			b := rune(t.IntN(0x200)) << 7
			for k := t.Range(1, 8); k > 0; k-- {
				if r := b + rune(t.IntN(128)); r < 0xd800 || 0xdfff < r {
					out = append(out, r)
				}
			}
		case 8: // emojis
			out = append(out, run.Pick(t, rune(0x1f468), 0x1f469, 0x2764, 0x1f3f4, 0x1f1e6, 0x1f1ff, 0x1f600, 0x1f44d, 0x2600, '1', '#', 0xa9, 0x303d))
			out = append(out, run.Pick(t, []rune{0xfe0f}, []rune{0xfe0e}, []rune{0x1f3fb}, []rune{0x200d}, []rune{0xe0067, 0xe007f}, []rune{0x20e3}, []rune{0xfe0f, 0x20e3}, nil)...)
		case 9: // many marks
			for k := t.Range(1, 12); k > 0; k-- {
				out = append(out, run.Pick(t, rune(0x300), 0x301, 0x323, 0x489, 0x5b0, 0x64b, 0x670, 0x93c, 0x94d, 0x93f, 0xe31, 0x1ab0, 0x20d0, 0xfe20, 0x1d165, 0x3099))
			}
		default:
			out = append(out, []rune(run.Pick(t, "ab", "العربية", "שלום", "हिन्दी", "ภาษาไทย", "한국어", "\u1112\u1161\u11ab", "日本", "ខ្មែរ", "မြန်မာ", "བོད", "ᠮᠣᠩ", "ⵣ", "𐐷", "\U0001d11e"))...)
		}
	}
	if t.Chance(0.1) { // the same, again
		out = append(out, out...)
	}
	return out
}

// hostileAttr has the values nobody uses
func hostileAttr(t *run.T, n int) (*pango.Attribute, string) {
	sizes := []int{0, 1, 5, 512, 1024, 16384, 1 << 17, -1, -1024}
	size := run.Pick(t, sizes...)
	var a *pango.Attribute
	switch t.IntN(24) {
	case 0:
		a = pango.NewAttrSize(size)
	case 1:
		a = pango.NewAttrAbsoluteSize(size)
	case 2:
		a = pango.NewAttrScale(run.Pick(t, pango.Fl(0), 1e-6, 0.1, 1, 2, -1))
	case 3:
		a = pango.NewAttrLetterSpacing(run.Pick(t, int32(0), 1, -1, 5000, -5000, 1<<17, -1<<17))
	case 4:
		a = pango.NewAttrRise(run.Pick(t, 0, 1, -1, 1<<20, -1<<20))
	case 5:
		a = pango.NewAttrBaselineShift(run.Pick(t, 0, 1, 2, -1, 1<<20, -1<<20))
	case 6:
		a = pango.NewAttrFontScale(pango.FontScale(t.IntN(4)))
	case 7:
		a = pango.NewAttrLineHeight(run.Pick(t, float32(0), 1e-6, 0.5, 3, 1000, -1))
	case 8:
		a = pango.NewAttrAbsoluteLineHeight(size)
	case 9:
		r := pango.Rectangle{X: pango.Unit(t.Range(-2, 2) * 1024), Y: pango.Unit(t.Range(-9, 2) * 1024), Width: pango.Unit(t.Range(-3, 9) * 1024), Height: pango.Unit(t.Range(-1, 9) * 1024)}
		a = pango.NewAttrShape(r, r)
	case 10:
		a = pango.NewAttrFontFeatures(run.Pick(t, "", ",", "liga=0", "liga", "=", "liga=", "liga=-1", "liga[3:5]=0", "liga[:]=2", "liga[", "abcdefgh", "\"kern\"", "kern off, smcp on", "aalt=99999999999", "é", "smcp,c2sc,frac", "vert"))
	case 11:
		a = pango.NewAttrFamily(run.Pick(t, "", ",", "DejaVu Sans,", ",,,", "no such family", "Emoji", "emoji", "DejaVu Sans Mono,Serif", strings.Repeat("x", 300), "a\x00b"))
	case 12:
		a = pango.NewAttrLanguage(run.Pick(t, pango.Language(""), "xx", "zz-zzzz", "ja", "ar", "th", "km", "my", "tr", "c", "en-us-posix", "-", "zz", "sr-latn"))
	case 13:
		a = pango.NewAttrWeight(run.Pick(t, pango.Weight(0), 1, 100, 400, 1000, 5000))
	case 14:
		a = pango.NewAttrStretch(pango.Stretch(t.IntN(9)))
	case 15:
		a = pango.NewAttrVariant(pango.Variant(t.IntN(7)))
	case 16:
		a = pango.NewAttrGravity(run.Pick(t, pango.GRAVITY_SOUTH, pango.GRAVITY_EAST, pango.GRAVITY_NORTH, pango.GRAVITY_WEST))
	case 17:
		a = pango.NewAttrGravityHint(run.Pick(t, pango.GRAVITY_HINT_NATURAL, pango.GRAVITY_HINT_STRONG, pango.GRAVITY_HINT_LINE))
	case 18:
		a = pango.NewAttrShow(pango.ShowFlags(t.IntN(8)))
	case 19:
		a = pango.NewAttrTextTransform(pango.TextTransform(t.IntN(4)))
	case 20:
		a = pango.NewAttrWord()
	case 21:
		a = pango.NewAttrSentence()
	case 22:
		a = pango.NewAttrFontDescription(pango.NewFontDescriptionFrom(run.Pick(t, "", "Sans 0", "Serif Bold 30", "12", ",", "Sans @wght=200", "DejaVu Sans Mono Small-Caps 3", "Sans Rotated-Left 12", "Sans 100px")))
	default:
		mk, name := anyAttr(t, n)
		return mk(), name
	}
	a.StartIndex = t.IntN(n + 2)
	a.EndIndex = a.StartIndex + t.IntN(n+3)
	if t.Chance(0.2) {
		a.StartIndex, a.EndIndex = 0, math.MaxInt32
	}
	return a, fmt.Sprintf("%v[%d,%d)", attrValue(a), a.StartIndex, a.EndIndex)
}

// checkLayout runs every query, and checks that the layout covers the text
func checkLayout(t *run.T, l *pango.Layout, ellipsize, shapes bool) {
	n := len(l.Text)
	lines := l.GetLinesReadonly()
	if len(lines) != l.GetLineCount() || len(lines) == 0 {
		t.Failf("line-count", "%d lines, GetLineCount %d", len(lines), l.GetLineCount())
		return
	}
	if g := len(l.GetCharacterAttributes()); g != n+1 {
		t.Failf("attributes-count", "%d character attributes for %d characters", g, n)
		return
	}
	pos, glyphs := 0, 0
	for k, ln := range lines {
		if ln.StartIndex < pos || ln.StartIndex > pos+2 || ln.StartIndex+ln.Length > n || ln.Length < 0 {
			t.Failf("line-partition", "the line %d is [%d,+%d), the former one ends at %d", k, ln.StartIndex, ln.Length, pos)
			return
		}
		for ; pos < ln.StartIndex; pos++ {
			if r := l.Text[pos]; r != '\n' && r != '\r' && r != 0x2029 {
				t.Failf("line-gap", "the character %d %U is not in a line", pos, r)
				return
			}
		}
		pos += ln.Length
		cover := make([]bool, ln.Length)
		nb := 0
		for _, r := range lineRuns(ln) {
			it := r.Item
			glyphs += len(r.Glyphs.Glyphs)
			for i := it.Offset; i < it.Offset+it.Length; i++ {
				if i < ln.StartIndex || i >= ln.StartIndex+ln.Length || cover[i-ln.StartIndex] {
					t.Failf("run-partition", "the run [%d,+%d) of the line [%d,+%d)", it.Offset, it.Length, ln.StartIndex, ln.Length)
					return
				}
				cover[i-ln.StartIndex] = true
				nb++
			}
			if len(r.Glyphs.Glyphs) != len(r.Glyphs.LogClusters) || len(r.Glyphs.Glyphs) == 0 {
				t.Failf("glyph-count", "%d glyphs, %d clusters in the run [%d,+%d)", len(r.Glyphs.Glyphs), len(r.Glyphs.LogClusters), it.Offset, it.Length)
				return
			}
			for g, c := range r.Glyphs.LogClusters {
				bad := c < 0 || c >= it.Length
				if g > 0 {
					if p := r.Glyphs.LogClusters[g-1]; it.Analysis.Level%2 == 0 {
						bad = bad || c < p
					} else {
						bad = bad || c > p
					}
				}
				if bad {
					t.Failf("clusters", "the run [%d,+%d) of level %d has the clusters %v", it.Offset, it.Length, it.Analysis.Level, r.Glyphs.LogClusters)
					return
				}
			}
		}
		if nb != ln.Length {
			t.Failf("run-partition", "the runs of the line [%d,+%d) have %d characters", ln.StartIndex, ln.Length, nb)
			return
		}
	}
	for ; pos < n && !ellipsize; pos++ { // the lines which are too low are dropped
		if r := l.Text[pos]; r != '\n' && r != '\r' && r != 0x2029 {
			t.Failf("line-gap", "the character %d %U after the last line", pos, r)
			return
		}
	}
	t.Count("glyphs", glyphs)
	t.Count("lines", len(lines))

	var a, b, c pango.Rectangle
	l.GetExtents(&a, &b)
	l.GetSize()
	l.GetBaseline()
	l.IsWrapped()
	if e := l.IsEllipsized(); e && !ellipsize {
		t.Failf("ellipsized", "IsEllipsized without ellipsize mode")
	}
	for _, i := range []int{0, n, t.IntN(n + 1), t.IntN(n + 1), t.IntN(n + 1)} {
		l.IndexToPos(i, &a)
		l.GetCursorPos(i, &a, &c)
		l.GetDirectionAt(i)
		for _, s := range []bool{true, false} {
			for _, d := range []int{-1, 1} {
				idx, trailing := l.MoveCursorVisually(s, i, t.IntN(2), d)
				if idx != -1 && idx != math.MaxInt32 && idx != math.MaxInt && (idx < 0 || idx > n || trailing < 0 || idx+trailing > n) {
					t.Failf("cursor", "MoveCursorVisually(%v, %d, %d) = %d, %d", s, i, d, idx, trailing)
				}
			}
		}
	}
	for _, ln := range lines {
		ln.GetExtents(&a, &b)
		i, j := t.IntN(n+1), t.IntN(n+1)
		ln.IndexToX(ln.StartIndex+t.IntN(ln.Length+1), t.Chance(0.5))
		for _, x := range ln.GetXRanges(min(i, j), max(i, j)) {
			_ = x
		}
	}
	for _, mode := range []int{0, 1, 2, 3} {
		it := l.GetIter()
		steps := 0
		for {
			it.GetLine()
			it.GetRun()
			switch mode {
			case 0:
				it.GetLineExtents(&a, &b)
			case 1:
				it.GetRunExtents(&a, &b)
			case 2:
				it.GetClusterExtents(&a, &b)
			case 3:
				it.GetCharExtents()
			}
			it.GetBaseline()
			it.IsAtLastLine()
			if it.Index < 0 || it.Index > n {
				t.Failf("iterator", "the iterator is at %d of %d characters", it.Index, n)
				return
			}
			ok := false
			switch mode {
			case 0:
				ok = it.NextLine()
			case 1:
				ok = it.NextRun()
			case 2:
				ok = it.NextCluster()
			case 3:
				ok = it.NextChar()
			}
			if !ok {
				break
			}
			if steps++; steps > 4*(n+len(lines)+glyphs)+100 {
				t.Failf("iterator", "the iterator does not end")
				return
			}
		}
	}
}

// P20 : nothing fails
func P20() *run.Prop {
	return &run.Prop{
		ID: "P20", Quick: 40000, Thorough: 1200000, HeapMB: 4000,
		Rule: "layouts of any text with any settings : no panic, and a structure covering the text",
		Need: map[string]int64{"layouts": 5000, "real fonts": 2000, "fonts without tables": 500, "invalid UTF-8": 500, "wrapped": 2000, "ellipsized": 500, "vertical contexts": 300},
		Run: func(t *run.T) {
			var ctx *pango.Context
			var in strings.Builder
			real := false
			switch k := t.IntN(20); {
			case k < 9:
				if fm := realMap(false); fm != nil {
					ctx, real = pango.NewContext(fm), true
					t.Count("real fonts", 1)
					break
				}
				fallthrough
			case k < 17:
				ctx = newContext(true)
			default:
				ctx = (&icase{variant: t.IntN(8), lang: "en"}).context()
				t.Count("fonts without tables", 1)
			}
			if t.Chance(0.1) {
				g := run.Pick(t, pango.GRAVITY_EAST, pango.GRAVITY_WEST, pango.GRAVITY_NORTH, pango.GRAVITY_AUTO)
				ctx.SetBaseGravity(g)
				fmt.Fprintf(&in, "gravity=%v ", g)
				t.Count("vertical contexts", 1)
			}
			if t.Chance(0.1) {
				m := run.Pick(t, pango.Matrix{Xx: 1, Yy: 1}, pango.Matrix{Xy: 1, Yx: -1}, pango.Matrix{Xx: 0.5, Xy: 0.3, Yx: -2, Yy: 1e-3})
				ctx.Matrix = &m
				fmt.Fprintf(&in, "matrix=%v ", m)
			}
			base := run.Pick(t, "Verif 12", "DejaVu Sans 12", "DejaVu Serif Bold Italic 9", "", "Sans", "no such font 10", "Monospace 0", "Sans 80", "Serif Small-Caps 14")
			d := pango.NewFontDescriptionFrom(base)
			ctx.SetFontDescription(d)
			fmt.Fprintf(&in, "desc=%q ", base)
			l := pango.NewLayout(ctx)
			ellipsize := false
			textLen := 0
			for round := t.Range(1, 2); round > 0; round-- {
				switch t.IntN(8) {
				case 0: // any bytes
					b := []byte(string(hostileText(t)))
					for k := t.Range(1, 5); k > 0 && len(b) > 0; k-- {
						b[t.IntN(len(b))] = byte(t.IntN(256))
					}
					if !utf8.Valid(b) {
						t.Count("invalid UTF-8", 1)
					}
					l.SetText(string(b))
					fmt.Fprintf(&in, "text=%q ", b)
				default:
					text := hostileText(t)
					l.SetRunes(append([]rune(nil), text...))
					fmt.Fprintf(&in, "text=%+q ", string(text))
				}
				textLen = len(l.Text)
				if t.Chance(0.7) {
					var list pango.AttrList
					for k := t.Range(0, 8); k > 0; k-- {
						a, name := hostileAttr(t, textLen)
						fmt.Fprintf(&in, "attr %s ", name)
						list.Insert(a)
					}
					l.SetAttributes(list)
				}
				if t.Chance(0.8) {
					w := pango.Unit(run.Pick(t, -1, 0, 1, 10, 50, 100, 200, 1000, 30000) * 1024)
					fmt.Fprintf(&in, "width=%d ", w)
					l.SetWidth(w)
				}
				if t.Chance(0.3) {
					e := run.Pick(t, pango.ELLIPSIZE_START, pango.ELLIPSIZE_MIDDLE, pango.ELLIPSIZE_END, pango.ELLIPSIZE_NONE)
					h := pango.Unit(run.Pick(t, -1, -1, -2, -5, 0, 1, 20*1024, 100*1024))
					fmt.Fprintf(&in, "ellipsize=%v height=%d ", e, h)
					l.SetEllipsize(e)
					l.SetHeight(h)
					ellipsize = true
				}
				for k := t.IntN(5); k > 0; k-- {
					for _, h := range genSetting(t, &textLen, real) {
						if h.key == "ellipsize" || h.key == "height" {
							ellipsize = true
						}
						fmt.Fprintf(&in, "%s=%s ", h.key, h.desc)
						t.SetInput(in.String())
						h.apply(ctx, l)
					}
				}
				t.SetInput(in.String())
				if p, stack := run.Guard(func() { checkLayout(t, l, ellipsize, false) }); p != nil {
					t.Failf("panic "+run.PanicFP(stack), "the layout panics : %v", p)
					return
				}
				t.Count("layouts", 1)
				if l.IsWrapped() {
					t.Count("wrapped", 1)
				}
				if l.IsEllipsized() {
					t.Count("ellipsized", 1)
				}
			}
			t.Distinct("inputs", in.String())
		},
	}
}
