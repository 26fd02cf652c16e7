package pg

import (
	"fmt"
	"math"
	"strings"
	"unicode"

	"github.com/benoitkugler/textprocessing/pango"

	"verifharness/bidi"
	"verifharness/run"
)

// ---- the parameters of a layout ----

type sizeSpan struct{ s, e, size int } // size in pixels

type lcase struct {
	text                     []rune
	size                     int // in pixels, multiple of 16
	width, indent            int // in pixels ; width -1 : none
	spacing                  int // in pixels
	lineSpacing              float32
	wrap                     pango.WrapMode
	align                    pango.Alignment
	justify, justifyLast     bool
	autoDir, single, noRound bool
	sizes                    []sizeSpan
	marks                    []sizeSpan // underline spans : splits runs without effect on the geometry
	breaks                   []sizeSpan // changes of the breaks : 0 none allowed, 1 no hyphen, 2 a single word
	tabs                     []int      // in pixels, left aligned
	tabsInPixels             bool
	shared                   bool // use a font map with history
	ellipsize                pango.EllipsizeMode
	height                   int // negative : the lines by paragraph, positive : in pixels (only when ellipsizing)
}

func (c *lcase) String() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "text %q size %d width %d wrap %d indent %d spacing %d lineSpacing %g align %d justify %v/%v autoDir %v single %v noRound %v",
		string(c.text), c.size, c.width, c.wrap, c.indent, c.spacing, c.lineSpacing, c.align, c.justify, c.justifyLast, c.autoDir, c.single, c.noRound)
	if len(c.sizes) > 0 {
		fmt.Fprintf(&sb, " sizes %v", c.sizes)
	}
	if len(c.marks) > 0 {
		fmt.Fprintf(&sb, " underlines %v", c.marks)
	}
	if len(c.breaks) > 0 {
		fmt.Fprintf(&sb, " breaks %v", c.breaks)
	}
	if c.tabs != nil {
		fmt.Fprintf(&sb, " tabs %v pixels %v", c.tabs, c.tabsInPixels)
	}
	if c.ellipsize != pango.ELLIPSIZE_NONE {
		fmt.Fprintf(&sb, " ellipsize %d height %d", c.ellipsize, c.height)
	}
	return sb.String()
}

func (c *lcase) attrs() pango.AttrList {
	var al pango.AttrList
	for _, s := range c.sizes {
		a := pango.NewAttrAbsoluteSize(s.size * px)
		a.StartIndex, a.EndIndex = s.s, s.e
		al.Insert(a)
	}
	for _, s := range c.marks {
		a := pango.NewAttrUnderline(pango.UNDERLINE_SINGLE)
		a.StartIndex, a.EndIndex = s.s, s.e
		al.Insert(a)
	}
	for _, s := range c.breaks {
		a := pango.NewAttrAllowBreaks(false)
		switch s.size {
		case 1:
			a = pango.NewAttrInsertHyphens(false)
		case 2:
			a = pango.NewAttrWord()
		}
		a.StartIndex, a.EndIndex = s.s, s.e
		al.Insert(a)
	}
	return al
}

func (c *lcase) tabArray() *pango.TabArray {
	if c.tabs == nil {
		return nil
	}
	ta := &pango.TabArray{PositionsInPixels: c.tabsInPixels}
	for _, x := range c.tabs {
		if !c.tabsInPixels {
			x *= px
		}
		ta.Tabs = append(ta.Tabs, pango.Tab{Location: pango.Unit(x)})
	}
	return ta
}

func verifDesc(size int) pango.FontDescription {
	d := pango.NewFontDescription()
	d.SetFamily("Verif")
	d.SetAbsoluteSize(int32(size * px))
	return d
}

// newContext returns a context whose language is fixed
func newContext(shared bool) *pango.Context {
	fm := pango.FontMap(nil)
	if shared {
		fm = vFontMap()
	} else {
		fm = newVFontMap()
	}
	ctx := pango.NewContext(fm)
	ctx.SetLanguage("en")
	return ctx
}

func (c *lcase) layout() *pango.Layout {
	ctx := newContext(c.shared)
	ctx.SetRoundGlyphPositions(!c.noRound)
	l := pango.NewLayout(ctx)
	c.apply(l)
	return l
}

func (c *lcase) apply(l *pango.Layout) {
	d := verifDesc(c.size)
	l.SetFontDescription(&d)
	l.SetRunes(append([]rune(nil), c.text...))
	if c.width >= 0 {
		l.SetWidth(pango.Unit(c.width * px))
	} else {
		l.SetWidth(-1)
	}
	l.SetIndent(pango.Unit(c.indent * px))
	l.SetSpacing(pango.Unit(c.spacing * px))
	l.SetLineSpacing(c.lineSpacing)
	l.SetWrap(c.wrap)
	l.SetAlignment(c.align)
	l.SetJustify(c.justify)
	l.SetJustifyLastLine(c.justifyLast)
	l.SetAutoDir(c.autoDir)
	l.SetSingleParagraphMode(c.single)
	l.SetTabs(c.tabArray())
	if c.ellipsize != pango.ELLIPSIZE_NONE {
		l.SetEllipsize(c.ellipsize)
		if c.height < 0 {
			l.SetHeight(pango.Unit(c.height))
		} else {
			l.SetHeight(pango.Unit(c.height * px))
		}
	}
	if al := c.attrs(); len(al) > 0 {
		l.SetAttributes(al)
	} else {
		l.SetAttributes(nil)
	}
}

// ---- the model ----

type mchar struct {
	adv           int // in pixels
	size          int
	level         int
	white, cursor bool
}

// mcluster is a grapheme, all the widths are in Pango units
type mcluster struct {
	start, n int
	x, w     int
	level    int
	size     int
}

func (c mcluster) rtl() bool { return c.level%2 == 1 }

type mline struct {
	start, length   int
	paraStart       bool
	rtl             bool
	wrapped, hyphen bool
	clusters        []mcluster // in visual order
	logical         []mcluster // the same in logical order, before the gap is removed
	width           int
	asc, desc, hgt  int // in Pango units
	x, y, baseline  int // logical rectangle in the layout
	terminated      bool
	goal            int       // in pixels
	afterPara       int       // the start of the next paragraph
	gap             *mcluster // the ellipsis
}

func (l *mline) end() int { return l.start + l.length }

type mlayout struct {
	lines        []*mline
	wrapped      bool
	width        int // of the logical rectangle
	x, y, height int
	vague        string // why the geometry is not predicted
	ellipsized   bool
}

const (
	paraSep = 0x2029
	lineSep = 0x2028
)

// paragraphs splits the text : [start, end, next)
func paragraphs(text []rune, single bool) (out [][3]int) {
	if single {
		return [][3]int{{0, len(text), len(text)}}
	}
	start := 0
	for i := 0; i < len(text); i++ {
		switch r := text[i]; {
		case r == '\r' && i+1 < len(text) && text[i+1] == '\n':
			out = append(out, [3]int{start, i, i + 2})
			i++
			start = i + 1
		case r == '\n' || r == '\r' || r == paraSep:
			out = append(out, [3]int{start, i, i + 1})
			start = i + 1
		}
	}
	return append(out, [3]int{start, len(text), len(text)})
}

func (c *lcase) sizeAt(i int) int {
	size := c.size
	for _, s := range c.sizes { // the spans do not overlap
		if s.s <= i && i < s.e {
			size = s.size
		}
	}
	return size
}

// model predicts the layout from the break opportunities (log, checked by P01 and P02).
// The lines are only used to choose between the acceptable breaks when nothing fits.
func (c *lcase) model(log []pango.CharAttr, got []*pango.LayoutLine) *mlayout {
	ends := map[int]int{}
	for _, l := range got {
		ends[l.StartIndex] = l.StartIndex + l.Length
	}
	m := &mlayout{}
	n := len(c.text)
	chars := make([]mchar, n+1)
	for i, r := range c.text {
		sz := c.sizeAt(i)
		chars[i] = mchar{adv: advance64(r, 0) * sz / 16, size: sz, white: log[i].IsWhite(), cursor: log[i].IsCursorPosition()}
	}
	prevDir := 0
	if c.autoDir {
		if d := bidi.FirstStrong(c.text); d >= 0 {
			prevDir = d
		}
	}
	remaining, lineHeight := c.height*px, (vAscent+vDescent)*c.size // for positive heights, where all the lines have the same height
	for _, p := range paragraphs(c.text, c.single) {
		if len(m.lines) > 0 && c.ellipsize != pango.ELLIPSIZE_NONE && c.height >= 0 && remaining < lineHeight {
			break
		}
		base, level := 0, 0
		if c.autoDir {
			if d := bidi.FirstStrong(c.text[p[0]:p[1]]); d >= 0 {
				prevDir = d
			}
			base = prevDir
		} else if d := bidi.FirstStrong(c.text[p[0]:p[1]]); d >= 0 {
			level = d // the direction of the context is weak
		}
		if c.autoDir {
			level = base
		}
		for i, l := range bidi.Levels(c.text[p[0]:p[1]], level) {
			chars[p[0]+i].level = l
		}
		if p[0] == p[1] {
			m.lines = append(m.lines, &mline{start: p[0], paraStart: true, rtl: base == 1, goal: c.goal(true), afterPara: p[2]})
			remaining -= lineHeight + c.spacing*px
			continue
		}
		for start, nth := p[0], 1; start < p[1]; nth++ {
			first := start == p[0]
			goal := c.goal(first)
			if c.ellipsize != pango.ELLIPSIZE_NONE && c.width >= 0 && (c.height < 0 && nth == -c.height || c.height >= 0 && 2*lineHeight > remaining) {
				// the last line has the rest of the paragraph
				l := &mline{start: start, length: p[1] - start, paraStart: first, rtl: base == 1, goal: goal, afterPara: p[2]}
				c.fill(l, chars, log)
				if l.width > goal*px {
					c.ellipsizeLine(l, chars, log)
					m.ellipsized = true
				}
				m.lines = append(m.lines, l)
				remaining -= lineHeight + c.spacing*px
				break
			}
			remaining -= lineHeight + c.spacing*px
			end, wrapped := c.breakLine(chars, log, start, p[1], goal, first, ends)
			l := &mline{start: start, length: end - start, paraStart: first, rtl: base == 1, wrapped: wrapped, goal: goal, afterPara: p[2]}
			l.hyphen = end < p[1] && log[end].IsBreakInsertsHyphen()
			m.wrapped = m.wrapped || wrapped
			c.fill(l, chars, log)
			m.lines = append(m.lines, l)
			start = end
		}
	}
	for i, l := range m.lines {
		l.terminated = i+1 < len(m.lines) && m.lines[i+1].paraStart
	}
	c.place(m)
	return m
}

// goal is the width available to a line, in pixels
func (c *lcase) goal(first bool) int {
	if c.width < 0 {
		return -1
	}
	w := c.width
	if c.align != pango.ALIGN_CENTER {
		if first && c.indent > 0 {
			w -= c.indent
		} else if !first && c.indent < 0 {
			w += c.indent
		}
	}
	return max(w, 0)
}

// tabAdvance is the width of a tab at position x (in pixels) of a line
func (c *lcase) tabAdvance(x int, first bool) int {
	offset := 0
	if c.align != pango.ALIGN_CENTER {
		if first && c.indent > 0 {
			offset = c.indent
		} else if !first && c.indent < 0 {
			offset = -c.indent
		}
	}
	space := advance64(' ', 0) * c.sizeAt(0) / 16
	for i := 0; ; i++ {
		pos, isDefault := c.tabPos(i, space*8)
		if isDefault {
			if pos-offset >= x+space {
				return pos - offset - x
			}
		} else if pos-offset > x {
			return pos - offset - x
		}
	}
}

// tabPos is the position of the tab i
func (c *lcase) tabPos(i, gap int) (int, bool) {
	n := len(c.tabs)
	if n == 0 {
		return i * gap, c.tabs == nil
	}
	if i < n {
		return c.tabs[i], false
	}
	last, before := c.tabs[n-1], 0
	if n > 1 {
		before = c.tabs[n-2]
	}
	if last > before {
		gap = last - before
	}
	return last + gap*(i-n+1), false
}

// hyphenWidth is the width of the hyphen inserted after the character i
func (c *lcase) hyphenWidth(i int) int { return advance64(0x2010, 0) * c.sizeAt(i) / 16 }

// advances gives the advances of the characters of a line, with the tabs
func (c *lcase) advances(chars []mchar, start, end int, first bool) []int {
	out := make([]int, end-start)
	x := 0
	for i := start; i < end; i++ {
		w := chars[i].adv
		if c.text[i] == '\t' {
			w = c.tabAdvance(x, first)
		}
		out[i-start] = w
		x += w
	}
	return out
}

// breakLine finds the end of the line : the last opportunity for which the text fits
func (c *lcase) breakLine(chars []mchar, log []pango.CharAttr, start, end, goal int, first bool, ends map[int]int) (int, bool) {
	hint, ok := ends[start]
	if !ok {
		hint = -2
	}
	forced := end
	if !c.single {
		for i := start; i < end; i++ {
			if c.text[i] == lineSep {
				forced = i + 1
				break
			}
		}
	}
	if goal < 0 {
		return forced, forced < end || forced > start && c.text[forced-1] == lineSep && !c.single
	}
	adv := c.advances(chars, start, forced, first)
	widths := make([]int, forced-start+1)
	for i, w := range adv {
		widths[i+1] = widths[i] + w
	}
	width := func(b int) int { return c.lineWidth(chars, log, adv, start, b, end, widths[b-start]) }
	allowed := func(b int, word bool) bool {
		return b == forced || b == end || word && log[b].IsLineBreak() || !word && (log[b].IsCharBreak() || c.wrap == pango.WRAP_WORD_CHAR && log[b].IsLineBreak())
	}
	try := func(word bool) (fit, over int) {
		fit, over = -1, -1
		for b := start + 1; b <= forced; b++ {
			if !allowed(b, word) {
				continue
			}
			if width(b) <= goal {
				fit = b
			} else if over < 0 {
				over = b
			}
		}
		return
	}
	word := c.wrap != pango.WRAP_CHAR
	fit, over := try(word)
	if fit < 0 && c.wrap == pango.WRAP_WORD_CHAR {
		word = false
		fit, over = try(word)
	}
	// The choice may differ from the last opportunity which fits, in cases where
	// the search, which looks at one item at a time, is not optimal
	hyphen := 0 // there is an hyphen at the end of an item, which overflows
	for b := start + 1; b < forced && b <= max(hint, fit); b++ {
		if log[b].IsBreakInsertsHyphen() && widths[b-start] <= goal && width(b) > goal && c.itemBoundary(chars, b) {
			hyphen = max(hyphen, c.hyphenWidth(b-1))
		}
	}
	accept := func(h int) bool {
		if h == fit {
			return true
		}
		if h <= start || h > forced || !allowed(h, false) && !allowed(h, word) {
			return false
		}
		if h == end && c.text[h-1] == 0x3000 && width(h)-adv[h-1-start] <= goal {
			// the space at the very end is not collapsed, but for the ones wider than
			// the margin of the search, which are not measured
			return true
		}
		if !word && c.wrap == pango.WRAP_WORD_CHAR && h > fit {
			// the breaks between characters of the previous items are not searched
			for b := max(fit, start); b < h; b++ {
				if !log[b+1].IsCharBreak() && log[b+1].IsCursorPosition() && b+1 < h {
					return true
				}
			}
		}
		if fit < 0 && (h == over || h > over && width(h) <= width(over)) {
			return true // nothing fits : a longer text may be narrower, without hyphen or with a collapsed space
		}
		if fit > 0 && h < fit && allowed(h, word) && width(h) <= goal {
			// an opportunity which does not fit because of its hyphen may stop the search
			for b := h + 1; b <= fit; b++ {
				if allowed(b, word) {
					return width(b) > goal
				}
			}
		}
		return hyphen > 0 && allowed(h, word) && width(h) <= goal+hyphen
	}
	for h := hint; h > start && h <= forced && (allowed(hint, false) || allowed(hint, word)); h-- {
		// more spaces may hang after the ones which overflow
		if accept(h) && (h == hint || fit < 0 || chars[h-1].white) {
			fit = hint
			break
		}
		if !chars[h-1].white && chars[h-1].adv != 0 {
			break
		}
	}
	if fit < 0 {
		fit = over
	}
	return fit, fit < end || c.text[fit-1] == lineSep && !c.single
}

// itemBoundary tells if the characters b-1 and b may be in different items
func (c *lcase) itemBoundary(chars []mchar, b int) bool {
	if chars[b-1].level != chars[b].level {
		return true
	}
	for _, l := range [][]sizeSpan{c.sizes, c.marks} {
		for _, s := range l {
			if s.s == b || s.e == b {
				return true
			}
		}
	}
	sc := func(r rune) string {
		for n, t := range unicode.Scripts {
			if unicode.Is(t, r) {
				return n
			}
		}
		return ""
	}
	return sc(c.text[b-1]) != sc(c.text[b])
}

func sum(l []int) (s int) {
	for _, v := range l {
		s += v
	}
	return
}

// lineWidth is the width of the line [start, b) whose characters are w wide
func (c *lcase) lineWidth(chars []mchar, log []pango.CharAttr, adv []int, start, b, end, w int) int {
	if b == end && c.text[b-1] != '\t' {
		return w
	}
	if b < end && log[b].IsBreakInsertsHyphen() {
		w += c.hyphenWidth(b - 1)
		if log[b].IsBreakRemovesPreceding() {
			w -= adv[b-1-start]
		}
		return w
	}
	if chars[b-1].white {
		// the tabs never go to the next line
		i := b - 1
		if c.text[i] == '\t' {
			for ; i > start && c.text[i-1] == '\t'; i-- {
				w -= adv[i-start]
			}
		}
		w -= adv[i-start]
	}
	return w
}

// fill computes the clusters of a line, in visual order
func (c *lcase) fill(l *mline, chars []mchar, log []pango.CharAttr) {
	adv := c.advances(chars, l.start, l.end(), l.paraStart)
	last := l.length - 1
	if l.hyphen {
		if log[l.end()].IsBreakRemovesPreceding() {
			adv[last] = 0
		}
		adv[last] += c.hyphenWidth(l.end() - 1)
	} else if l.wrapped && chars[l.end()-1].white {
		adv[last] = 0
	}
	// graphemes
	var cl []mcluster
	for i := l.start; i < l.end(); i++ {
		ch := chars[i]
		if i > l.start && !ch.cursor {
			p := &cl[len(cl)-1]
			p.n++
			p.w += adv[i-l.start] * px
			continue
		}
		cl = append(cl, mcluster{start: i, n: 1, w: adv[i-l.start] * px, level: ch.level, size: ch.size})
	}
	l.logical = append([]mcluster(nil), cl...)
	l.clusters = reorder(cl)
	l.sum()
	for i := l.start; i < l.end(); i++ {
		l.metrics(chars[i].size)
	}
}

// reorder applies the rule L2
func reorder(cl []mcluster) []mcluster {
	top := 0
	for _, k := range cl {
		top = max(top, k.level)
	}
	for lv := top; lv > 0; lv-- {
		for i := 0; i < len(cl); i++ {
			if cl[i].level < lv {
				continue
			}
			j := i
			for j < len(cl) && cl[j].level >= lv {
				j++
			}
			for a, b := i, j-1; a < b; a, b = a+1, b-1 {
				cl[a], cl[b] = cl[b], cl[a]
			}
			i = j
		}
	}
	return cl
}

func (l *mline) metrics(size int) {
	l.asc = max(l.asc, vAscent*size)
	l.desc = max(l.desc, vDescent*size)
	l.hgt = max(l.hgt, (vAscent+vDescent+vLineGap)*size)
}

func (l *mline) sum() {
	x := 0
	for i := range l.clusters {
		l.clusters[i].x = x
		x += l.clusters[i].w
	}
	l.width = x
}

// place computes the position of the lines
func (c *lcase) place(m *mlayout) {
	width := c.width * px
	if c.width < 0 {
		width = 0
		for _, l := range m.lines {
			width = max(width, l.width)
		}
	}
	y := 0
	for i, l := range m.lines {
		if l.length == 0 {
			l.metrics(c.sizeAt(l.start))
		}
		l.x = 0
		align := c.align
		if c.autoDir && l.rtl {
			switch align {
			case pango.ALIGN_LEFT:
				align = pango.ALIGN_RIGHT
			case pango.ALIGN_RIGHT:
				align = pango.ALIGN_LEFT
			}
		}
		switch align {
		case pango.ALIGN_RIGHT:
			l.x = width - l.width
		case pango.ALIGN_CENTER:
			l.x = (width - l.width) / 2
			if (width|l.width)%px == 0 {
				l.x = int(math.Floor(float64(l.x)/px+0.5)) * px
			}
		}
		if width == 0 {
			l.x = 0
		}
		ind := 0
		if l.paraStart && c.indent > 0 {
			ind = c.indent * px
		} else if !l.paraStart && c.indent < 0 {
			ind = -c.indent * px
		}
		switch align {
		case pango.ALIGN_LEFT:
			l.x += ind
		case pango.ALIGN_RIGHT:
			l.x -= ind
		}
		if i == 0 || c.lineSpacing == 0 {
			l.baseline = y + l.asc
		} else {
			l.baseline = m.lines[i-1].baseline + int(c.lineSpacing*float32(l.hgt))
		}
		l.y = l.baseline - l.asc
		y = l.y + l.asc + l.desc + c.spacing*px
	}
	// the logical rectangle
	last := m.lines[len(m.lines)-1]
	m.height = last.baseline + last.desc
	if c.width < 0 {
		m.width = width
		return
	}
	x0, x1 := m.lines[0].x, m.lines[0].x+m.lines[0].width
	for _, l := range m.lines {
		x0, x1 = min(x0, l.x), max(x1, l.x+l.width)
	}
	m.x, m.width = x0, x1-x0
}

// ---- generation ----

var (
	lWords  = []string{"hello", "a", "the", "world", "fi", "office", "I", "internationalization", "x", "12.50", "well-known", "don't", "foo/bar", "end.", "(see", "it)", "\u201cquote\u201d", "α\u0332βγ", "слово", "a\u0332b\u0332\u0331c", "n\u00a0b", "x\u2014y", "100%"}
	lHebrew = []string{"שלום", "עולם", "אבג", "ה", "א\u05b8ב", "מן", "(עברית)", "ה-12"}
	lArabic = []string{"سلام", "عالم", "لا", "ب", "٤٥", "د\u064e"}
	lOthers = []string{"丁七万", "\u4e00\u3001", "ひらがな", "กขค", "co\u00adop\u00ader\u00ada\u00adtion", "zero\u200bwidth\u200bspace"}
)

func genLText(t *run.T, bidiText, tabs bool) []rune {
	var sb strings.Builder
	mode := t.IntN(4)
	for k := t.IntN(9); k >= 0; k-- {
		words := lWords
		if bidiText {
			switch t.IntN(mode + 2) {
			case 0:
				words = lHebrew
			case 1:
				words = lArabic
			}
		}
		if t.Chance(0.15) {
			words = lOthers
		}
		w := words[t.IntN(len(words))]
		sb.WriteString(w)
		if bidiText && t.Chance(0.06) {
			sb.WriteString("x") // the embeddings are not the first strong characters
			sb.WriteString(run.Pick(t, "\u200e", "\u200f", "\u202b", "\u202a", "\u202e", "\u202c", "\u2067", "\u2066", "\u2069"))
			sb.WriteString(lWords[t.IntN(len(lWords))])
		}
		switch v := t.IntN(24); {
		case v < 2:
			sb.WriteString(run.Pick(t, "\n", "\r\n", "\u2029", "\r", "\n\n"))
		case v == 2:
			sb.WriteString("\u2028")
		case v == 3:
			sb.WriteString("  ")
		case v == 4:
			sb.WriteString("-")
		case v == 5 && tabs:
			sb.WriteString("\t")
		case v == 6 && tabs:
			sb.WriteString("\t\t")
		case v == 7:
			if t.Chance(0.5) {
				sb.WriteString("\u3000")
			}
		case v == 8:
			sb.WriteString("   ")
		default:
			sb.WriteString(" ")
		}
	}
	s := sb.String()
	if t.Chance(0.5) {
		s = strings.TrimRight(s, " ")
	}
	if strings.Contains(s, "\u202e") {
		// textlayout does not keep the clusters in order for the Latin marks shaped from right to left
		s = strings.NewReplacer("\u0332", "", "\u0331", "").Replace(s)
	}
	return []rune(s)
}

func genLCase(t *run.T) *lcase {
	c := &lcase{size: 16, width: -1, autoDir: true, shared: t.Chance(0.98)}
	c.text = genLText(t, t.Chance(0.45), t.Chance(0.15))
	if t.Chance(0.1) {
		c.size = run.Pick(t, 32, 48)
	}
	if t.Chance(0.75) {
		c.width = t.IntN(12*c.size + 10)
		if t.Chance(0.2) {
			c.width = t.IntN(20)
		}
		c.wrap = run.Pick(t, pango.WRAP_WORD, pango.WRAP_CHAR, pango.WRAP_WORD_CHAR)
	}
	if t.Chance(0.3) {
		c.indent = t.Range(-40, 40)
	}
	if t.Chance(0.3) {
		c.spacing = t.IntN(10)
		if t.Chance(0.2) { // the lines overlap, or go up
			c.spacing = -t.IntN(60)
		}
	}
	if t.Chance(0.2) {
		c.lineSpacing = run.Pick[float32](t, 0.5, 1, 1.5, 2, 0.1, -1, 3.25)
	}
	c.align = run.Pick(t, pango.ALIGN_LEFT, pango.ALIGN_LEFT, pango.ALIGN_CENTER, pango.ALIGN_RIGHT)
	if t.Chance(0.15) {
		c.autoDir = false
	}
	c.noRound = t.Chance(0.2)
	n := len(c.text)
	if t.Chance(0.3) {
		for i := 0; i < n; {
			s := i + t.IntN(6)
			e := s + t.Range(1, 8)
			if e >= n {
				break
			}
			if markAt(c.text, s) || markAt(c.text, e) {
				i++
				continue
			}
			if t.Chance(0.5) {
				c.sizes = append(c.sizes, sizeSpan{s, e, run.Pick(t, 16, 32, 48)})
			} else {
				c.marks = append(c.marks, sizeSpan{s, e, 0})
			}
			i = e
		}
	}
	if t.Chance(0.1) && n > 0 {
		tab := strings.ContainsRune(string(c.text), '\t') // the breaks before a tab, which words may create, are not searched
		for k := t.Range(1, 3); k > 0; k-- {
			i := t.IntN(n)
			if e := i + t.Range(1, 20); e <= n && !markAt(c.text, i) && !markAt(c.text, e) {
				if k := t.IntN(3); k == 1 || !tab {
					c.breaks = append(c.breaks, sizeSpan{i, e, k})
				}
			}
		}
	}
	if t.Chance(0.1) {
		c.tabsInPixels = t.Chance(0.5)
		x := 0
		c.tabs = []int{}
		for k := t.IntN(4); k > 0; k-- {
			x += t.Range(1, 80)
			c.tabs = append(c.tabs, x)
		}
	}
	return c
}

// markAt : no attribute starts inside a grapheme
func markAt(text []rune, i int) bool {
	return i < len(text) && zeroWidth(text[i]) || i > 0 && i < len(text) && text[i] == '\n' && text[i-1] == '\r'
}

func (c *lcase) noteCase(t *run.T, m *mlayout) {
	t.SetInput(c.String())
	t.Count("lines", len(m.lines))
	for _, l := range m.lines {
		if l.wrapped {
			t.Count("wrapped lines", 1)
		}
		if l.hyphen {
			t.Count("lines ending with a hyphen", 1)
		}
		if l.rtl {
			t.Count("right to left lines", 1)
		}
		lv := 0
		for _, k := range l.clusters {
			lv = max(lv, k.level)
		}
		if lv > 1 {
			t.Count("mixed lines", 1)
		}
		if l.length == 0 {
			t.Count("empty lines", 1)
		}
	}
	t.Distinct(string(c.text), c.width, c.wrap, c.indent, c.align, c.size, c.spacing, c.lineSpacing)
}
