package pg

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/benoitkugler/textprocessing/pango"

	"verifharness/run"
)

// ---- P09 : a layout depends on its settings, not on how they were reached ----

// hset is a setting of a layout or of its context
type hset struct {
	key   string
	desc  string
	apply func(ctx *pango.Context, l *pango.Layout)
	// check returns an error if the values given to the library were modified
	check func() string
}

// anyAttr returns a function building the same attribute every time
func anyAttr(t *run.T, n int) (func() *pango.Attribute, string) {
	s := t.IntN(n + 1)
	e := s + t.IntN(n+2-s)
	if t.Chance(0.2) {
		s, e = 0, math.MaxInt32
	}
	v := t.IntN(4)
	name, mk := "", func() *pango.Attribute { return nil }
	set := func(nm string, f func() *pango.Attribute) { name, mk = nm, f }
	rise := []int{-3000, 2048, 5000, 10240}[v]
	switch t.IntN(25) {
	case 0, 1:
		set("size", func() *pango.Attribute { return pango.NewAttrAbsoluteSize((16 + 16*v) * px) })
	case 2:
		set("scale", func() *pango.Attribute { return pango.NewAttrScale([]pango.Fl{0.5, 1, 1.5, 2}[v]) })
	case 3:
		set("underline", func() *pango.Attribute { return pango.NewAttrUnderline(pango.Underline(v)) })
	case 4:
		set("spacing", func() *pango.Attribute { return pango.NewAttrLetterSpacing([]int32{0, 512, 1024, 3000}[v]) })
	case 5:
		set("rise", func() *pango.Attribute { return pango.NewAttrRise(rise) })
	case 6:
		set("family", func() *pango.Attribute {
			return pango.NewAttrFamily([]string{"Verif Two", "Verif", "Sans", "None, Verif Two"}[v])
		})
	case 7:
		set("weight", func() *pango.Attribute {
			return pango.NewAttrWeight([]pango.Weight{400, 700, 300, 600}[v])
		})
	case 8:
		set("style", func() *pango.Attribute { return pango.NewAttrStyle(pango.Style(v % 3)) })
	case 9:
		set("lang", func() *pango.Attribute {
			return pango.NewAttrLanguage([]pango.Language{"fr", "tr", "de", "ja"}[v])
		})
	case 10:
		set("fallback", func() *pango.Attribute { return pango.NewAttrFallback(v%2 == 0) })
	case 11:
		set("foreground", func() *pango.Attribute {
			return pango.NewAttrForeground(pango.AttrColor{Red: uint16(v * 1000)})
		})
	case 12:
		set("features", func() *pango.Attribute {
			return pango.NewAttrFontFeatures([]string{"kern=0", "liga 0", "-kern, dlig", "ss01=1"}[v])
		})
	case 13:
		set("breaks", func() *pango.Attribute { return pango.NewAttrAllowBreaks(v%2 == 0) })
	case 14:
		set("hyphens", func() *pango.Attribute { return pango.NewAttrInsertHyphens(v%2 == 0) })
	case 15:
		set("lineheight", func() *pango.Attribute { return pango.NewAttrLineHeight([]float32{0.5, 1, 1.5, 2}[v]) })
	case 16:
		set("abslineheight", func() *pango.Attribute { return pango.NewAttrAbsoluteLineHeight((10 + 15*v) * px) })
	case 17:
		set("show", func() *pango.Attribute { return pango.NewAttrShow(pango.ShowFlags(2 * v)) })
	case 18:
		set("shape", func() *pango.Attribute {
			r := pango.Rectangle{Y: -5 * px, Width: pango.Unit((1 + v) * 5 * px), Height: 7 * px}
			return pango.NewAttrShape(r, r)
		})
	case 19:
		set("transform", func() *pango.Attribute { return pango.NewAttrTextTransform(pango.TextTransform(v)) })
	case 20:
		set("shift", func() *pango.Attribute { return pango.NewAttrBaselineShift([]int{1, 2, 2048, -4096}[v]) })
	case 21:
		set("fontscale", func() *pango.Attribute { return pango.NewAttrFontScale(pango.FontScale(v)) })
	case 22:
		set("word", func() *pango.Attribute { return pango.NewAttrWord() })
	case 23:
		set("desc", func() *pango.Attribute {
			d := pango.NewFontDescription()
			if v&1 != 0 {
				d.SetFamily("Verif Two")
			}
			if v&2 != 0 {
				d.SetAbsoluteSize(48 * px)
			}
			return pango.NewAttrFontDescription(d)
		})
	default:
		set("stretch", func() *pango.Attribute { return pango.NewAttrStretch(pango.Stretch(2 * v)) })
	}
	return func() *pango.Attribute {
		a := mk()
		a.StartIndex, a.EndIndex = s, e
		return a
	}, fmt.Sprintf("%s(%d)[%d,%d)", name, v, s, e)
}

func anyAttrs(t *run.T, n int) (mks []func() *pango.Attribute, names []string) {
	for k := t.IntN(4); k > 0; k-- {
		m, s := anyAttr(t, n)
		mks, names = append(mks, m), append(names, s)
	}
	return mks, names
}

func listOf(mks []func() *pango.Attribute) func() pango.AttrList {
	return func() pango.AttrList {
		var out pango.AttrList
		for _, m := range mks {
			out.Insert(m())
		}
		return out
	}
}

func attrDump(l pango.AttrList) string {
	var sb strings.Builder
	for _, a := range l {
		fmt.Fprintf(&sb, "%s[%d,%d) ", attrValue(a), a.StartIndex, a.EndIndex)
	}
	return sb.String()
}

func attrValue(a *pango.Attribute) string { return fmt.Sprintf("%d:%v", a.Kind, a.Data) }

func histMarkup(t *run.T, n int) string {
	words := []string{"abc", "de fgh", "\n", "שלום", "x&amp;y", "foo bar baz", "-", "\u00ad", "012 345"}
	tags := []string{"b", "i", "u", "s", "tt", "big", "small", "sup", "sub", `span size="16384"`, `span rise="2048"`, `span letter_spacing="1024"`, `span font_family="Verif Two"`, `span allow_breaks="false"`, `span foreground="red"`}
	var sb strings.Builder
	var open []string
	for k := t.Range(1, n); k > 0; k-- {
		switch t.IntN(4) {
		case 0:
			if len(open) < 3 {
				tag := run.Pick(t, tags...)
				sb.WriteString("<" + tag + ">")
				open = append(open, strings.Fields(tag)[0])
				continue
			}
			fallthrough
		case 1:
			if len(open) > 0 {
				sb.WriteString("</" + open[len(open)-1] + ">")
				open = open[:len(open)-1]
				continue
			}
			fallthrough
		default:
			sb.WriteString(run.Pick(t, words...))
		}
	}
	for len(open) > 0 {
		sb.WriteString("</" + open[len(open)-1] + ">")
		open = open[:len(open)-1]
	}
	return sb.String()
}

func histDesc(t *run.T, real bool) func() pango.FontDescription {
	fam := run.Pick(t, "Verif", "Verif", "Verif Two", "Sans", "")
	if real {
		fam = run.Pick(t, "DejaVu Sans", "DejaVu Serif", "DejaVu Sans Mono", "")
	}
	size := 16 * t.Range(1, 3)
	w := run.Pick(t, 0, 0, 400, 700)
	it := t.IntN(4)
	noSize, gr := t.Chance(0.1), t.IntN(30)
	return func() pango.FontDescription {
		d := pango.NewFontDescription()
		if fam != "" {
			d.SetFamily(fam)
		}
		if !noSize {
			d.SetAbsoluteSize(int32(size * px))
		}
		if w != 0 {
			d.SetWeight(pango.Weight(w))
		}
		if it == 0 {
			d.SetStyle(pango.STYLE_ITALIC)
		} else if it == 1 {
			d.SetStyle(pango.STYLE_NORMAL)
		}
		if gr == 0 {
			d.SetGravity(pango.GRAVITY_SOUTH)
		} else if gr == 1 {
			d.SetGravity(pango.GRAVITY_EAST)
		}
		return d
	}
}

// genSetting draws a change, as the new values of some settings
func genSetting(t *run.T, textLen *int, real bool) []hset {
	one := func(key, desc string, f func(*pango.Context, *pango.Layout)) []hset {
		return []hset{{key: key, desc: desc, apply: f}}
	}
	textOf := func(text []rune) hset {
		given := append([]rune(nil), text...)
		return hset{
			key: "text", desc: fmt.Sprintf("%q", string(text)),
			apply: func(_ *pango.Context, l *pango.Layout) { l.SetRunes(given) },
			check: func() string {
				if string(given) != string(text) {
					return "the runes given to SetRunes were modified"
				}
				return ""
			},
		}
	}
	attrsOf := func(mk func() pango.AttrList, name string) hset {
		var given []pango.AttrList
		return hset{
			key: "attrs", desc: name,
			apply: func(_ *pango.Context, l *pango.Layout) {
				al := mk()
				given = append(given, al)
				l.SetAttributes(al)
			},
			check: func() string {
				for _, g := range given {
					if a, b := attrDump(g), attrDump(mk()); a != b {
						return fmt.Sprintf("the attributes given to SetAttributes became %s instead of %s", a, b)
					}
				}
				return ""
			},
		}
	}
	newText := func() []rune {
		if real {
			return realText(t)
		}
		return genLText(t, t.Chance(0.4), t.Chance(0.4))
	}
	switch k := t.IntN(30); k {
	case 0, 1:
		text := newText()
		*textLen = len(text)
		return []hset{textOf(text)}
	case 2:
		text := newText()
		*textLen = len(text)
		return one("text", fmt.Sprintf("SetText %q", string(text)), func(_ *pango.Context, l *pango.Layout) { l.SetText(string(text)) })
	case 3:
		mk := histMarkup(t, 10)
		p, err := pango.ParseMarkup([]byte(mk), 0)
		if err != nil {
			t.Count("rejected markups", 1)
			return one("", "invalid markup", func(_ *pango.Context, l *pango.Layout) {
				if l.SetMarkup([]byte(mk)) == nil {
					t.Failf("markup", "SetMarkup accepts the markup %q, not ParseMarkup", mk)
				}
			})
		}
		*textLen = len(p.Text)
		tx := textOf(append([]rune(nil), p.Text...))
		at := attrsOf(func() pango.AttrList {
			q, _ := pango.ParseMarkup([]byte(mk), 0)
			return q.Attr
		}, "markup")
		first := hset{key: "markup", desc: fmt.Sprintf("markup %q", mk), apply: func(_ *pango.Context, l *pango.Layout) {
			if err := l.SetMarkup([]byte(mk)); err != nil {
				t.Failf("markup", "SetMarkup rejects the markup %q, not ParseMarkup : %s", mk, err)
			}
		}}
		return []hset{first, tx, at}
	case 4:
		mk := run.Pick(t, "<b>a", "a</b>", "<foo>a</foo>", "a&b", "<span size='x'>a</span>")
		return one("", fmt.Sprintf("invalid markup %q", mk), func(_ *pango.Context, l *pango.Layout) {
			if l.SetMarkup([]byte(mk)) == nil {
				t.Failf("markup", "SetMarkup accepts the markup %q", mk)
			}
		})
	case 5, 6, 7:
		w := pango.Unit(t.Range(0, 400) * px)
		if t.Chance(0.25) {
			w = -1
		}
		return one("width", fmt.Sprint(w), func(_ *pango.Context, l *pango.Layout) { l.SetWidth(w) })
	case 8, 9:
		h := pango.Unit(run.Pick(t, -1, -1, -2, -3, -4, 0, 20*px, 60*px, 100*px))
		return one("height", fmt.Sprint(h), func(_ *pango.Context, l *pango.Layout) { l.SetHeight(h) })
	case 10:
		v := pango.Unit(t.Range(-5, 5) * 8 * px)
		return one("indent", fmt.Sprint(v), func(_ *pango.Context, l *pango.Layout) { l.SetIndent(v) })
	case 11:
		v := pango.Unit(t.Range(-3, 5) * 2 * px)
		return one("spacing", fmt.Sprint(v), func(_ *pango.Context, l *pango.Layout) { l.SetSpacing(v) })
	case 12:
		v := run.Pick(t, float32(0), 0, 0.5, 1, 1.5, 2)
		return one("lineSpacing", fmt.Sprint(v), func(_ *pango.Context, l *pango.Layout) { l.SetLineSpacing(v) })
	case 13, 14:
		v := run.Pick(t, pango.WRAP_WORD, pango.WRAP_CHAR, pango.WRAP_WORD_CHAR)
		return one("wrap", fmt.Sprint(v), func(_ *pango.Context, l *pango.Layout) { l.SetWrap(v) })
	case 15:
		v := run.Pick(t, pango.ALIGN_LEFT, pango.ALIGN_CENTER, pango.ALIGN_RIGHT)
		return one("align", fmt.Sprint(v), func(_ *pango.Context, l *pango.Layout) { l.SetAlignment(v) })
	case 16:
		v := t.Chance(0.5)
		return one("justify", fmt.Sprint(v), func(_ *pango.Context, l *pango.Layout) { l.SetJustify(v) })
	case 17:
		v := t.Chance(0.5)
		return one("justifyLast", fmt.Sprint(v), func(_ *pango.Context, l *pango.Layout) { l.SetJustifyLastLine(v) })
	case 18:
		v := t.Chance(0.5)
		return one("autoDir", fmt.Sprint(v), func(_ *pango.Context, l *pango.Layout) { l.SetAutoDir(v) })
	case 19:
		v := t.Chance(0.5)
		return one("single", fmt.Sprint(v), func(_ *pango.Context, l *pango.Layout) { l.SetSingleParagraphMode(v) })
	case 20, 21:
		if t.Chance(0.3) {
			return one("tabs", "nil", func(_ *pango.Context, l *pango.Layout) { l.SetTabs(nil) })
		}
		var ts []pango.Tab
		for n := t.IntN(4); n > 0; n-- {
			ts = append(ts, pango.Tab{Location: pango.Unit(t.Range(0, 20) * 8 * px), Alignment: run.Pick(t, pango.TAB_LEFT, pango.TAB_LEFT, pango.TAB_RIGHT, pango.TAB_CENTER, pango.TAB_DECIMAL)})
		}
		inPx := t.Chance(0.3)
		if inPx {
			for i := range ts {
				ts[i].Location /= px
			}
		}
		reuse := t.Chance(0.3)
		var given []*pango.TabArray
		mk := func() *pango.TabArray {
			return &pango.TabArray{Tabs: append([]pango.Tab(nil), ts...), PositionsInPixels: inPx}
		}
		return []hset{{
			key: "tabs", desc: fmt.Sprint(ts, inPx),
			apply: func(_ *pango.Context, l *pango.Layout) {
				ta := mk()
				if reuse { // another content first : the array is copied
					ta.Tabs = append(ta.Tabs, pango.Tab{Location: 1})
					l.SetTabs(ta)
					_ = l.GetLineCount()
					ta.Tabs = append([]pango.Tab(nil), ts...)
				}
				given = append(given, ta)
				l.SetTabs(ta)
			},
			check: func() string {
				for _, g := range given {
					if a, b := fmt.Sprint(*g), fmt.Sprint(*mk()); a != b {
						return fmt.Sprintf("the tabs given to SetTabs became %s instead of %s", a, b)
					}
				}
				return ""
			},
		}}
	case 22, 23:
		mks, names := anyAttrs(t, *textLen)
		if len(mks) > 0 && t.Chance(0.3) { // close variations
			for k := t.Range(1, 2); k > 0; k-- {
				if i := t.IntN(len(mks)); t.Chance(0.5) {
					m, n := anyAttr(t, *textLen)
					mks, names = append(mks, m), append(names, n)
				} else {
					mks, names = append(mks, mks[i]), append(names, names[i])
				}
			}
			first := attrsOf(listOf(mks), strings.Join(names, " "))
			mks2 := append([]func() *pango.Attribute(nil), mks...)
			names2 := append([]string(nil), names...)
			t.Shuffle(len(mks2), func(i, j int) {
				mks2[i], mks2[j] = mks2[j], mks2[i]
				names2[i], names2[j] = names2[j], names2[i]
			})
			second := attrsOf(listOf(mks2), strings.Join(names2, " "))
			t.Count("reordered attributes", 1)
			return []hset{{key: "markup", desc: "attributes " + first.desc + " then", apply: func(ctx *pango.Context, l *pango.Layout) {
				first.apply(ctx, l)
				l.GetLineCount()
				second.apply(ctx, l)
			}}, second}
		}
		return []hset{attrsOf(listOf(mks), strings.Join(names, " "))}
	case 24, 25:
		v := run.Pick(t, pango.ELLIPSIZE_NONE, pango.ELLIPSIZE_START, pango.ELLIPSIZE_MIDDLE, pango.ELLIPSIZE_END)
		return one("ellipsize", fmt.Sprint(v), func(_ *pango.Context, l *pango.Layout) { l.SetEllipsize(v) })
	case 26:
		if t.Chance(0.15) {
			return one("desc", "nil", func(_ *pango.Context, l *pango.Layout) { l.SetFontDescription(nil) })
		}
		mk := histDesc(t, real)
		d0 := mk()
		var given []*pango.FontDescription
		return []hset{{
			key: "desc", desc: d0.String(),
			apply: func(_ *pango.Context, l *pango.Layout) {
				d := mk()
				given = append(given, &d)
				l.SetFontDescription(&d)
			},
			check: func() string {
				for _, g := range given {
					if !reflect.DeepEqual(*g, mk()) {
						return fmt.Sprintf("the description given to SetFontDescription became %s instead of %s", g, d0.String())
					}
				}
				return ""
			},
		}}
	case 27:
		mk := histDesc(t, real)
		d0 := mk()
		return one("ctxDesc", d0.String(), func(ctx *pango.Context, _ *pango.Layout) { ctx.SetFontDescription(mk()) })
	case 28:
		v := t.Chance(0.5)
		return one("round", fmt.Sprint(v), func(ctx *pango.Context, _ *pango.Layout) { ctx.SetRoundGlyphPositions(v) })
	default:
		if t.Chance(0.3) {
			g := run.Pick(t, pango.GRAVITY_SOUTH, pango.GRAVITY_EAST, pango.GRAVITY_AUTO, pango.GRAVITY_NORTH)
			return one("gravity", fmt.Sprint(g), func(ctx *pango.Context, _ *pango.Layout) { ctx.SetBaseGravity(g) })
		}
		v := run.Pick(t, pango.Language("fr"), "tr", "ja", "ar", "de-de")
		return one("ctxLang", string(v), func(ctx *pango.Context, _ *pango.Layout) { ctx.SetLanguage(v) })
	}
}

// layoutDump is everything an application can see
func layoutDump(l *pango.Layout) []string {
	var out []string
	add := func(format string, args ...any) { out = append(out, fmt.Sprintf(format, args...)) }
	add("text %q", string(l.Text))
	add("log attrs %v", l.GetCharacterAttributes())
	add("wrapped %v ellipsized %v", l.IsWrapped(), l.IsEllipsized())
	var ink, logical pango.Rectangle
	l.GetExtents(&ink, &logical)
	add("%d lines, ink %v, logical %v, baseline %v", l.GetLineCount(), ink, logical, l.GetBaseline())
	for i, ln := range l.GetLinesReadonly() {
		h := ln.GetExtents(&ink, &logical)
		add("line %d : [%d,+%d) paragraph start %v dir %v ink %v logical %v height %v", i, ln.StartIndex, ln.Length, ln.IsParagraphStart, ln.ResolvedDir, ink, logical, h)
		for _, r := range lineRuns(ln) {
			a := r.Item.Analysis
			font := "none"
			if a.Font != nil {
				d := a.Font.Describe(true)
				font = fmt.Sprintf("%s(%s,%d)", d.String(), a.Font.FaceID().File, a.Font.FaceID().Index)
			}
			add("run [%d,+%d) font %s lang %s script %v level %d gravity %v flags %d extra %s", r.Item.Offset, r.Item.Length, font, a.Language, a.Script, a.Level, a.Gravity, a.Flags, attrDump(a.ExtraAttrs))
			add("glyphs %v clusters %v", r.Glyphs.Glyphs, r.Glyphs.LogClusters)
		}
	}
	it := l.GetIter()
	for {
		var ri, rl, li, ll pango.Rectangle
		it.GetRunExtents(&ri, &rl)
		it.GetLineExtents(&li, &ll)
		add("iterator at %d : run %v %v line %v %v baseline %v", it.Index, ri, rl, li, ll, it.GetBaseline())
		if !it.NextRun() {
			break
		}
	}
	for i := 0; i <= len(l.Text); i++ {
		var p, s, w pango.Rectangle
		l.IndexToPos(i, &p)
		l.GetCursorPos(i, &s, &w)
		add("position of %d : %v, cursors %v %v, dir %v", i, p, s, w, l.GetDirectionAt(i))
	}
	return out
}

// queryLayout runs a random query, which may cache something
func queryLayout(t *run.T, l *pango.Layout) string {
	var a, b pango.Rectangle
	n := len(l.Text)
	switch t.IntN(12) {
	case 0:
		l.GetLineCount()
		return "GetLineCount"
	case 1:
		l.GetExtents(&a, nil)
		return "GetExtents ink"
	case 2:
		l.GetExtents(nil, &a)
		return "GetExtents logical"
	case 3:
		l.GetSize()
		return "GetSize"
	case 4:
		l.IndexToPos(t.IntN(n+1), &a)
		return "IndexToPos"
	case 5:
		l.GetCursorPos(t.IntN(n+1), &a, &b)
		return "GetCursorPos"
	case 6:
		it := l.GetIter()
		for k := 0; k < 3; k++ {
			it.GetRunExtents(&a, &b)
			it.GetLineExtents(&a, nil)
			if !it.NextRun() {
				break
			}
		}
		return "GetIter"
	case 7:
		l.GetCharacterAttributes()
		return "GetCharacterAttributes"
	case 8:
		l.IsEllipsized()
		return "IsEllipsized"
	case 9:
		l.IsWrapped()
		return "IsWrapped"
	case 10:
		for _, ln := range l.GetLinesReadonly() {
			ln.GetExtents(&a, &b)
		}
		return "line extents"
	default:
		if ln := l.GetLine(0); ln != nil {
			ln.GetExtents(nil, &b)
			ln.IndexToX(ln.StartIndex, false)
		}
		return "GetLine"
	}
}

// P09 : whatever the history of a layout, it is the one a new layout gives with the final settings
func P09() *run.Prop {
	return &run.Prop{
		ID: "P09", Quick: 40_000, Thorough: 900_000,
		Rule: "the changes applied to the layout (runes, text, markup, widths, heights, indents, spacings, wrap and ellipsize modes, alignments, justification, directions, paragraph mode, tabs, attributes, font descriptions of the layout and of its context, rounding, gravity, language), interleaved with queries which fill its caches ; after the changes, everything visible (runs, glyphs, fonts, extents, positions, cursors, log attributes) is compared with a new layout, in a new context with a new font map, receiving only the final values in another order",
		Need: map[string]int64{"changes": 100_000, "queries": 30_000, "comparisons": 40_000, "wrapped": 4000, "ellipsized": 1500, "real fonts": 100},
		Run: func(t *run.T) {
			real := t.Chance(0.02)
			mkCtx := func(shared bool) *pango.Context {
				if real {
					if fm := realMap(!shared && t.Chance(0.1)); fm != nil {
						ctx := pango.NewContext(fm)
						ctx.SetLanguage("en")
						return ctx
					}
					real = false
				}
				return newContext(shared)
			}
			ctx := mkCtx(true)
			if real {
				t.Count("real fonts", 1)
			}
			l := pango.NewLayout(ctx)
			settings := map[string]hset{}
			textLen := 0
			var input strings.Builder
			do := func(hs []hset) {
				for _, h := range hs {
					fmt.Fprintf(&input, "%s=%s ; ", h.key, h.desc)
					if h.key != "" && h.key != "markup" {
						settings[h.key] = h
					}
				}
				t.SetInput(input.String())
				hs[0].apply(ctx, l)
			}
			base := histDesc(t, real)
			bd := base()
			bd.SetAbsoluteSize(16 * px)
			if !real {
				bd.SetFamily("Verif")
			}
			do([]hset{{key: "ctxDesc", desc: bd.String(), apply: func(ctx *pango.Context, _ *pango.Layout) { ctx.SetFontDescription(bd) }}})
			text := genLText(t, t.Chance(0.3), t.Chance(0.3))
			textLen = len(text)
			do([]hset{{key: "text", desc: fmt.Sprintf("%q", string(text)), apply: func(_ *pango.Context, l *pango.Layout) { l.SetRunes(text) }}})
			if t.Chance(0.8) {
				w := pango.Unit(t.Range(10, 300) * px)
				do([]hset{{key: "width", desc: fmt.Sprint(w), apply: func(_ *pango.Context, l *pango.Layout) { l.SetWidth(w) }}})
			}
			if t.Chance(0.3) { // a valid combination for the ellipses
				do([]hset{{key: "ellipsize", desc: "end", apply: func(_ *pango.Context, l *pango.Layout) { l.SetEllipsize(pango.ELLIPSIZE_END) }}})
			}
			steps := t.Range(1, 8)
			for s := 0; s < steps; s++ {
				for k := t.IntN(3); k > 0; k-- {
					q := ""
					if _, p := run.Guard(func() { q = queryLayout(t, l) }); p != "" {
						t.Count("panics", 1)
						t.Count("panic "+run.PanicFP(p), 1)
						return
					}
					fmt.Fprintf(&input, "%s ; ", q)
					t.Count("queries", 1)
				}
				do(genSetting(t, &textLen, real))
				t.Count("changes", 1)
				if s < steps-1 && t.Chance(0.7) {
					continue
				}
				if h, ok := settings["height"]; ok && h.desc != "-1" {
					if e, ok := settings["ellipsize"]; !ok || e.desc == "none" || e.desc == fmt.Sprint(pango.ELLIPSIZE_NONE) {
						continue // documented as undefined
					}
				}
				// the same, from scratch
				ctx2 := mkCtx(t.Chance(0.7))
				l2 := pango.NewLayout(ctx2)
				keys := make([]string, 0, len(settings))
				for k := range settings {
					keys = append(keys, k)
				}
				sort.Strings(keys)
				t.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
				for _, k := range keys {
					settings[k].apply(ctx2, l2)
				}
				var d1, d2 []string
				v1, p1 := run.Guard(func() { d1 = layoutDump(l) })
				v2, p2 := run.Guard(func() { d2 = layoutDump(l2) })
				if p1 != "" || p2 != "" {
					t.Count("panics", 1)
					t.Count("panic "+run.PanicFP(p1), 1)
					if (p1 == "") != (p2 == "") {
						t.Failf("history", "the layout panics with %v, the new layout with %v", v1, v2)
					}
					return
				}
				t.Count("comparisons", 1)
				diffDump(t, "history", d1, d2)
				if l.IsWrapped() {
					t.Count("wrapped", 1)
				}
				if l.IsEllipsized() {
					t.Count("ellipsized", 1)
				}
				t.Distinct("layouts", strings.Join(d1, "\n"))
				// asking twice changes nothing
				diffDump(t, "repeat", layoutDump(l), d1)
			}
			for _, h := range settings {
				if h.check != nil {
					if m := h.check(); m != "" {
						t.Failf("input", "%s", m)
					}
				}
			}
		},
	}
}

func diffDump(t *run.T, fp string, got, want []string) {
	for i := range want {
		if i >= len(got) || got[i] != want[i] {
			g := "nothing"
			if i < len(got) {
				g = got[i]
			}
			what := map[string]string{"history": "a new layout has", "repeat": "it was", "order": "otherwise"}[fp]
			t.Failf(fp, "the layout has\n   %s\n %s\n   %s", g, what, want[i])
		}
	}
	if len(got) > len(want) {
		t.Failf(fp, "the layout has more : %s", got[len(want)])
	}
}
