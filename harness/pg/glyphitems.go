package pg

import (
	"fmt"
	"sort"
	"sync"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
	"github.com/benoitkugler/textprocessing/pango"
	"github.com/benoitkugler/textprocessing/pango/fcfonts"

	"verifharness/run"
)

// ---- real fonts ----

const realFontDir = "/usr/share/fonts/truetype/dejavu"

var realFonts struct {
	sync.Mutex
	cfg *fc.Config
	set fc.Fontset
	m   *fcfonts.FontMap
	n   int
}

// realMap returns a map of the DejaVu fonts, or nil if they are not installed
func realMap(fresh bool) *fcfonts.FontMap {
	realFonts.Lock()
	defer realFonts.Unlock()
	if realFonts.cfg == nil {
		realFonts.cfg = fc.NewConfig()
		realFonts.set, _ = realFonts.cfg.ScanFontDirectories(realFontDir)
	}
	if len(realFonts.set) == 0 {
		return nil
	}
	if fresh {
		return fcfonts.NewFontMap(realFonts.cfg, realFonts.set)
	}
	if realFonts.m == nil || realFonts.n > 2000 {
		realFonts.m, realFonts.n = fcfonts.NewFontMap(realFonts.cfg, realFonts.set), 0
	}
	realFonts.n++
	return realFonts.m
}

// gcluster is a cluster of a run : characters and glyphs, relative to the item
type gcluster struct{ start, end, w, x int }

// checkRun checks the structure of the glyphs of a run, and returns its clusters in logical order
func checkRun(t *run.T, text []rune, r *pango.GlyphItem) ([]gcluster, bool) {
	gs, it := r.Glyphs, r.Item
	fail := func(fp, format string, args ...any) ([]gcluster, bool) {
		t.Failf(fp, "item [%d,%d) level %d clusters %v : %s", it.Offset, it.Offset+it.Length, it.Analysis.Level, gs.LogClusters, fmt.Sprintf(format, args...))
		return nil, false
	}
	if len(gs.Glyphs) != len(gs.LogClusters) {
		return fail("glyph-count", "%d glyphs", len(gs.Glyphs))
	}
	if len(gs.Glyphs) == 0 {
		return fail("glyph-count", "no glyph")
	}
	ltr := it.Analysis.Level%2 == 0
	if r.LTR() != ltr {
		return fail("glyph-ltr", "LTR is %v", r.LTR())
	}
	var out []gcluster
	x := 0
	for i, k := range gs.LogClusters {
		if k < 0 || k >= it.Length {
			return fail("cluster-range", "cluster %d out of the item", k)
		}
		w := int(gs.Glyphs[i].Geometry.Width)
		if i > 0 && (ltr && k < gs.LogClusters[i-1] || !ltr && k > gs.LogClusters[i-1]) {
			return fail("cluster-order", "clusters out of order at %d", i)
		}
		if i > 0 && k == gs.LogClusters[i-1] {
			out[len(out)-1].w += w
		} else {
			out = append(out, gcluster{start: k, w: w, x: x})
		}
		x += w
	}
	sort.Slice(out, func(i, j int) bool { return out[i].start < out[j].start })
	if out[0].start != 0 {
		return fail("cluster-first", "no cluster for the first character")
	}
	for i := range out {
		out[i].end = it.Length
		if i+1 < len(out) {
			out[i].end = out[i+1].start
		}
	}
	t.Count("runs", 1)
	for _, k := range out {
		if k.end-k.start > 1 {
			t.Count("clusters of several characters", 1)
		}
	}
	if len(gs.Glyphs) > len(out) {
		t.Count("runs with clusters of several glyphs", 1)
	}

	// iterators
	var gi pango.GlyphItemIter
	at := func(k int, how string) bool {
		c := out[k]
		if gi.StartChar != c.start || gi.EndChar != c.end || gi.StartIndex != it.Offset+c.start || gi.EndIndex != it.Offset+c.end {
			fail("glyph-iter", "%s : cluster %d is [%d,%d) index [%d,%d), want [%d,%d)", how, k, gi.StartChar, gi.EndChar, gi.StartIndex, gi.EndIndex, c.start, c.end)
			return false
		}
		return true
	}
	if !gi.InitStart(r, text) {
		return fail("glyph-iter", "no first cluster")
	}
	for k := 0; ; k++ {
		if !at(k, "forward") {
			return nil, false
		}
		if next := gi.NextCluster(); next != (k+1 < len(out)) {
			return fail("glyph-iter", "NextCluster is %v at the cluster %d of %d", next, k, len(out))
		} else if !next {
			break
		}
	}
	if !gi.InitEnd(r, text) {
		return fail("glyph-iter", "no last cluster")
	}
	k := len(out) - 1
	for {
		if !at(k, "backward") {
			return nil, false
		}
		k--
		if prev := gi.PrevCluster(); prev != (k >= 0) {
			return fail("glyph-iter", "PrevCluster is %v before the cluster %d", prev, k)
		} else if !prev {
			break
		}
	}
	// mixed walk
	gi.InitStart(r, text)
	k = 0
	for s := 0; s < 8; s++ {
		if t.Chance(0.5) {
			if k+1 >= len(out) {
				continue
			}
			gi.NextCluster()
			k++
		} else {
			if k == 0 {
				continue
			}
			gi.PrevCluster()
			k--
		}
		if !at(k, "mixed") {
			return nil, false
		}
	}

	// the widths of the characters
	lw := r.GetLogicalWidths(text)
	if len(lw) != it.Length {
		return fail("logical-widths", "%d widths", len(lw))
	}
	for _, c := range out {
		n, total := c.end-c.start, 0
		for i := c.start; i < c.end; i++ {
			total += int(lw[i])
			if d := int(lw[i]) - c.w/n; d < 0 && c.w >= 0 || d >= n && d >= 0 {
				return fail("logical-widths", "widths %v for a cluster [%d,%d) of width %d", lw[c.start:c.end], c.start, c.end, c.w)
			}
		}
		if total != c.w {
			return fail("logical-widths", "widths %v for a cluster [%d,%d) of width %d", lw[c.start:c.end], c.start, c.end, c.w)
		}
	}

	// positions
	itemText := text[it.Offset : it.Offset+it.Length]
	for _, c := range out {
		lead, trail := c.x, c.x+c.w
		if !ltr {
			lead, trail = trail, lead
		}
		if x := int(gs.IndexToX(itemText, &it.Analysis, c.start, false)); x != lead {
			return fail("index-to-x", "leading edge of %d at %d, want %d", c.start, x, lead)
		}
		if x := int(gs.IndexToX(itemText, &it.Analysis, c.end-1, true)); x != trail {
			return fail("index-to-x", "trailing edge of %d at %d, want %d", c.end-1, x, trail)
		}
		prev := lead
		for i := c.start; i < c.end; i++ {
			a, b := int(gs.IndexToX(itemText, &it.Analysis, i, false)), int(gs.IndexToX(itemText, &it.Analysis, i, true))
			if a != prev {
				return fail("index-to-x", "leading edge of %d at %d, the trailing edge of the previous character is at %d", i, a, prev)
			}
			if b < min(c.x, c.x+c.w) || b > max(c.x, c.x+c.w) {
				return fail("index-to-x", "trailing edge of %d at %d, out of the cluster %v", i, b, c)
			}
			prev = b
		}
	}

	// extents
	var ink, logical, wantInk pango.Rectangle
	gs.Extents(it.Analysis.Font, &ink, &logical)
	if int(logical.Width) != x || logical.X != 0 {
		return fail("glyph-extents", "logical extents %v, want a width of %d", logical, x)
	}
	px := pango.Unit(0)
	for _, g := range gs.Glyphs {
		var gr, lr pango.Rectangle
		it.Analysis.Font.GlyphExtents(g.Glyph, &gr, &lr)
		gr.X += px + g.Geometry.XOffset
		gr.Y += g.Geometry.YOffset
		wantInk = union(wantInk, gr)
		px += g.Geometry.Width
		if lr.Y < logical.Y || lr.Y+lr.Height > logical.Y+logical.Height {
			return fail("glyph-extents", "logical extents %v do not contain the ones of a glyph %v", logical, lr)
		}
	}
	if ink != wantInk && !(emptyRect(ink) && emptyRect(wantInk)) {
		return fail("glyph-extents", "ink extents %v, want %v", ink, wantInk)
	}
	return out, true
}

// realText is a text for the DejaVu fonts
func realText(t *run.T) []rune {
	if t.Chance(0.4) {
		return genLText(t, t.Chance(0.5), false)
	}
	words := []string{"office", "fluffy", "affluent", "fi", "ﬁ", "لا", "سلام", "لالالا", "e\u0301", "é", "o\u0308\u0301", "A\u030a\u0302", "שָׁלוֹם", "AVAToWa", "1/2", "ա\u0587", "ไทย", "ฝน", "ລາວ", "მზე", "ნ", "\u2200x\u2208ℝ", "→", "i\u0307\u0323", "كَلِمَة", "مُحَمَّد", "x\u20dd", "\U0001D54F", "日本", "\U0001F600", "a\u200db", "\u0915\u094d\u0937"}
	var out []rune
	for k := t.Range(1, 7); k > 0; k-- {
		out = append(out, []rune(run.Pick(t, words...))...)
		if t.Chance(0.6) {
			out = append(out, ' ')
		}
	}
	return out
}

// P12 : glyphs and clusters
func P12() *run.Prop {
	return &run.Prop{
		ID: "P12", Quick: 120000, Thorough: 2500000,
		Rule: "the glyphs of a run are grouped in clusters which partition its characters in order, found in both directions, and whose widths are shared between their characters",
		Need: map[string]int64{"runs": 5000, "clusters of several characters": 200, "runs with clusters of several glyphs": 50, "runs shaped again": 1000, "letter spaced lines": 200},
		Run: func(t *run.T) {
			if t.Chance(0.25) {
				letterSpacing(t)
				return
			}
			var ctx *pango.Context
			d := pango.NewFontDescription()
			text := realText(t)
			real := t.Chance(0.7)
			if fm := realMap(t.Chance(0.005)); fm != nil && real {
				ctx = pango.NewContext(fm)
				ctx.SetLanguage("en")
				d.SetFamily(run.Pick(t, "DejaVu Sans", "DejaVu Serif", "DejaVu Sans Mono"))
				d.SetSize(int32(t.Range(4*1024, 40*1024)))
				if t.Chance(0.2) {
					d.SetWeight(pango.WEIGHT_BOLD)
				}
				t.Count("real fonts", 1)
			} else {
				ctx = newContext(true)
				d = verifDesc(16)
			}
			round := t.Chance(0.5)
			ctx.SetRoundGlyphPositions(round)
			l := pango.NewLayout(ctx)
			l.SetFontDescription(&d)
			l.SetRunes(append([]rune(nil), text...))
			wrap := t.Chance(0.4)
			if wrap {
				l.SetWrap(run.Pick(t, pango.WRAP_WORD, pango.WRAP_CHAR, pango.WRAP_WORD_CHAR))
				l.SetWidth(pango.Unit(t.IntN(200 * px)))
			}
			var al pango.AttrList
			attrs := ""
			shapable := !wrap
			if n := len(text); t.Chance(0.5) && n > 1 {
				var a *pango.Attribute
				switch t.IntN(3) {
				case 0:
					a = pango.NewAttrLetterSpacing(int32(t.Range(-2, 8) * 512))
					shapable = false
				case 1:
					f := run.Pick(t, "liga=0", "smcp=1", "kern=0", "dlig=1, liga=1", "salt=1,ccmp=0", "init=0")
					attrs = f
					a = pango.NewAttrFontFeatures(f)
				case 2:
					a = pango.NewAttrUnderline(pango.UNDERLINE_SINGLE)
					shapable = false // the runs are split after the shaping
				}
				a.StartIndex = t.IntN(n)
				a.EndIndex = t.Range(a.StartIndex+1, n)
				attrs += fmt.Sprintf(" %v [%d,%d)", a.Kind, a.StartIndex, a.EndIndex)
				al.Insert(a)
				l.SetAttributes(al)
			}
			t.SetInput(fmt.Sprintf("text %q font %s round %v wrap %v attributes %s", string(text), d.String(), round, wrap, attrs))
			t.Distinct(string(text), d.String(), attrs)
			dirty := &pango.GlyphString{}
			for _, ln := range l.GetLinesReadonly() {
				for _, r := range lineRuns(ln) {
					if _, ok := checkRun(t, text, r); !ok {
						return
					}
					if !shapable || round || len(text) > 0 && (text[r.Item.Offset] == '\t' || text[r.Item.Offset] == lineSep) {
						continue
					}
					// the same glyphs when shaped again
					var fresh pango.GlyphString
					for _, gs := range []*pango.GlyphString{&fresh, dirty} {
						gs.ShapeRange(text, r.Item.Offset, r.Item.Length, &r.Item.Analysis)
						same := fmt.Sprint(gs.LogClusters) == fmt.Sprint(r.Glyphs.LogClusters) && len(gs.Glyphs) == len(r.Glyphs.Glyphs)
						for i := 0; same && i < len(gs.Glyphs); i++ {
							same = gs.Glyphs[i].Glyph == r.Glyphs.Glyphs[i].Glyph && gs.Glyphs[i].Geometry == r.Glyphs.Glyphs[i].Geometry
						}
						t.Count("runs shaped again", 1)
						if !same {
							t.Failf("shape-again", "item [%d,%d) : glyphs %v %v when shaped again, %v %v in the layout", r.Item.Offset, r.Item.Offset+r.Item.Length, gs.Glyphs, gs.LogClusters, r.Glyphs.Glyphs, r.Glyphs.LogClusters)
							return
						}
					}
				}
			}
		},
	}
}

// letterSpacing checks the total added to a line
func letterSpacing(t *run.T) {
	c := &lcase{size: 16, width: -1, autoDir: true, shared: true, noRound: t.Chance(0.5)}
	for _, r := range genLText(t, t.Chance(0.4), false) {
		if !zeroWidth(r) && r != '\n' && r != '\r' && r != '\t' {
			c.text = append(c.text, r)
		}
	}
	n := len(c.text)
	if n == 0 {
		return
	}
	for i := t.IntN(8); i < n-1; i += t.Range(1, 8) {
		c.marks = append(c.marks, sizeSpan{i, i + 1, 0})
	}
	s := t.IntN(6) * 512
	if t.Chance(0.3) {
		s = t.IntN(5000)
	}
	t.SetInput(c.String() + fmt.Sprintf(" letter spacing %d", s))
	l := c.layout()
	natural := l.GetLinesReadonly()[0]
	w0 := 0
	for _, r := range lineRuns(natural) {
		w0 += int(sumWidth(r.Glyphs))
	}
	al := c.attrs()
	al.Insert(pango.NewAttrLetterSpacing(int32(s)))
	l.SetAttributes(al)
	ln := l.GetLinesReadonly()[0]
	w := 0
	for _, r := range lineRuns(ln) {
		w += int(sumWidth(r.Glyphs))
		if _, ok := checkRun(t, c.text, r); !ok {
			return
		}
	}
	t.Count("letter spaced lines", 1)
	if want := w0 + (n-1)*s; w != want {
		t.Failf("letter-spacing", "the line is %d wide, %d without the spacing of %d : want %d (%d characters)", w, w0, s, want, n)
	}
}
