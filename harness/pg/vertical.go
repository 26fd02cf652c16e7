package pg

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"unicode"

	"github.com/benoitkugler/textprocessing/pango"

	"verifharness/run"
)

// ---- P22 : heights and vertical positions ----

const (
	vUnderPos, vUnderThick = -128, 64 // underline of the fonts, in font units
	vStrikePos             = 256
	vStrikeThick           = 64
	vSuper, vSub           = 350, 75 // offsets of the superscripts and subscripts
)

// vattr is an attribute on the characters [s, e)
type vattr struct {
	kind pango.AttrKind
	s, e int
	i    int     // value
	f    float32 // value
	ink  pango.Rectangle
	log  pango.Rectangle
}

func (a vattr) String() string {
	return fmt.Sprintf("%s[%d:%d]=%d/%g/%v/%v", a.kind, a.s, a.e, a.i, a.f, a.ink, a.log)
}

func (a vattr) attr() *pango.Attribute {
	var out *pango.Attribute
	switch a.kind {
	case pango.ATTR_SIZE:
		out = pango.NewAttrAbsoluteSize(a.i * px)
	case pango.ATTR_RISE:
		out = pango.NewAttrRise(a.i)
	case pango.ATTR_BASELINE_SHIFT:
		out = pango.NewAttrBaselineShift(a.i)
	case pango.ATTR_FONT_SCALE:
		out = pango.NewAttrFontScale(pango.FontScale(a.i))
	case pango.ATTR_LINE_HEIGHT:
		out = pango.NewAttrLineHeight(a.f)
	case pango.ATTR_ABSOLUTE_LINE_HEIGHT:
		out = pango.NewAttrAbsoluteLineHeight(a.i)
	case pango.ATTR_UNDERLINE:
		out = pango.NewAttrUnderline(pango.Underline(a.i))
	case pango.ATTR_OVERLINE:
		out = pango.NewAttrOverline(pango.OVERLINE_SINGLE)
	case pango.ATTR_STRIKETHROUGH:
		out = pango.NewAttrStrikethrough(true)
	case pango.ATTR_SHAPE:
		out = pango.NewAttrShape(a.ink, a.log)
	}
	out.StartIndex, out.EndIndex = a.s, a.e
	return out
}

func genVAttrs(t *run.T, text []rune) (out []vattr) {
	n := len(text)
	// disjoint ranges of each kind
	seq := func(kind pango.AttrKind, p float64, val func() vattr) {
		if !t.Chance(p) {
			return
		}
		for i := t.IntN(n + 1); i < n; {
			j := min(n, i+t.Range(1, 8))
			a := val()
			a.kind, a.s, a.e = kind, i, j
			spaces := false
			for _, r := range text[i:j] {
				spaces = spaces || unicode.IsSpace(r)
			}
			if kind != pango.ATTR_SHAPE || !spaces { // the last spaces of the lines have no width
				out = append(out, a)
			}
			i = j + t.IntN(6)
		}
	}
	seq(pango.ATTR_SIZE, 0.5, func() vattr { return vattr{i: run.Pick(t, 8, 16, 32, 48)} })
	seq(pango.ATTR_RISE, 0.4, func() vattr { return vattr{i: t.Range(-12, 12) * 1024} })
	seq(pango.ATTR_FONT_SCALE, 0.2, func() vattr { return vattr{i: t.IntN(4)} })
	seq(pango.ATTR_LINE_HEIGHT, 0.4, func() vattr { return vattr{f: run.Pick(t, float32(0.5), 1, 1.25, 2, 3.5)} })
	seq(pango.ATTR_ABSOLUTE_LINE_HEIGHT, 0.3, func() vattr { return vattr{i: t.Range(1, 60) * 1024} })
	seq(pango.ATTR_UNDERLINE, 0.5, func() vattr { return vattr{i: t.IntN(8)} })
	seq(pango.ATTR_OVERLINE, 0.3, func() vattr { return vattr{i: 1} })
	seq(pango.ATTR_STRIKETHROUGH, 0.3, func() vattr { return vattr{i: 1} })
	seq(pango.ATTR_SHAPE, 0.3, func() vattr {
		return vattr{
			ink: rectOf(t.Range(-5, 5)*512, -t.Range(-5, 40)*512, t.Range(1, 40)*512, t.Range(1, 60)*512),
			log: rectOf(0, -t.Range(-5, 40)*512, t.Range(0, 40)*512, t.Range(0, 60)*512),
		}
	})
	// the shifts add to each other
	if t.Chance(0.5) {
		used := map[int]bool{}
		for k := t.Range(1, 4); k > 0; k-- {
			v := t.Range(2, 14) * 1024 * run.Pick(t, 1, -1)
			if t.Chance(0.4) {
				v = t.IntN(3)
			}
			if used[v] {
				continue
			}
			used[v] = true
			i := t.IntN(n)
			out = append(out, vattr{kind: pango.ATTR_BASELINE_SHIFT, s: i, e: min(n, i+t.Range(1, 12)), i: v})
		}
	}
	t.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// vrun is a run with its expected extents, relative to the baseline and to the start of the run
type vrun struct {
	*pango.GlyphItem
	start, end int
	size       int // 1024 by pixel
	ink, log   pango.Rectangle
	line       pango.Rectangle
	height     int
	tol        int
	shape      bool
	shift      int
}

type vcase struct {
	text  []rune
	size  int
	attrs []vattr
}

// at returns the value of the attribute at i
func (c *vcase) at(kind pango.AttrKind, i int) *vattr {
	for k := range c.attrs {
		if a := &c.attrs[k]; a.kind == kind && a.s <= i && i < a.e {
			return a
		}
	}
	return nil
}

// hyphenGlyph is the glyph of U+2010
var hyphenGlyph = func() pango.Glyph {
	for i, r := range vCharset() {
		if r == 0x2010 {
			return pango.Glyph(i + 1)
		}
	}
	panic("no hyphen")
}()

func mulUnits(units, size int) int { return units * size / 1024 }

func (c *vcase) run(g *pango.GlyphItem) *vrun {
	r := &vrun{GlyphItem: g, start: g.Item.Offset, end: g.Item.Offset + g.Item.Length}
	r.size = c.size * px
	if a := c.at(pango.ATTR_SIZE, r.start); a != nil {
		r.size = a.i * px
	}
	if d := g.Item.Analysis.Font.Describe(true); int(d.Size) != r.size {
		if a := c.at(pango.ATTR_FONT_SCALE, r.start); a != nil && a.i != 0 {
			r.size, r.tol = int(d.Size), 4
		} else {
			return nil // left to P04
		}
	}
	r.height = mulUnits(vAscent+vDescent+vLineGap, r.size)
	width := int(sumWidth(g.Glyphs))
	if s := c.at(pango.ATTR_SHAPE, r.start); s != nil {
		r.shape = true
		n := pango.Unit(g.Item.Length - 1)
		r.ink, r.log = s.ink, s.log
		r.ink.Width += n * s.log.Width
		r.log.Width += n * s.log.Width
	} else {
		r.log = rectOf(0, -mulUnits(vAscent, r.size), width, mulUnits(vAscent, r.size)+mulUnits(vDescent, r.size))
		x := 0
		for i, gl := range g.Glyphs.Glyphs {
			ch := c.text[r.start+g.Glyphs.LogClusters[i]]
			if gl.Glyph == hyphenGlyph { // inserted at the end of the line
				ch = 0x2010
			}
			if a := advance64(ch, 0) * 64; a > 0 && !unicode.IsSpace(ch) {
				r.ink = union(r.ink, rectOf(x+int(gl.Geometry.XOffset)+mulUnits(32, r.size), int(gl.Geometry.YOffset)-mulUnits(512, r.size), mulUnits(a-64, r.size), mulUnits(512, r.size)))
			}
			x += int(gl.Geometry.Width)
		}
	}
	return r
}

// decorate adds the lines to the ink, then the shift
func (c *vcase) decorate(r *vrun) {
	ul, ol, st := 0, c.at(pango.ATTR_OVERLINE, r.start) != nil, c.at(pango.ATTR_STRIKETHROUGH, r.start) != nil
	if a := c.at(pango.ATTR_UNDERLINE, r.start); a != nil {
		ul = a.i
	}
	thick, pos := pango.Unit(mulUnits(vUnderThick, r.size)), pango.Unit(mulUnits(vUnderPos, r.size))
	if ul != 0 || ol || st {
		x := min(r.ink.X, r.log.X)
		r.ink.Width = max(r.ink.X+r.ink.Width, r.log.X+r.log.Width) - x
		r.ink.X = x
	}
	if st && r.ink.Height == 0 {
		r.ink.Y, r.ink.Height = -pango.Unit(mulUnits(vStrikePos, r.size)), pango.Unit(mulUnits(vStrikeThick, r.size))
	}
	if ol {
		r.ink.Y -= thick
		r.ink.Height += thick
	}
	switch pango.Underline(ul) {
	case pango.UNDERLINE_SINGLE, pango.UNDERLINE_SINGLE_LINE:
		r.ink.Height = max(r.ink.Height, thick-pos-r.ink.Y)
	case pango.UNDERLINE_LOW:
		r.ink.Height += 2 * thick
	case pango.UNDERLINE_DOUBLE, pango.UNDERLINE_DOUBLE_LINE, pango.UNDERLINE_ERROR, pango.UNDERLINE_ERROR_LINE:
		r.ink.Height = max(r.ink.Height, 3*thick-pos-r.ink.Y)
	}
	r.ink.Y -= pango.Unit(r.shift)
	r.log.Y -= pango.Unit(r.shift)
	r.line = c.leading(r.log, r.start)
}

// leading applies the line height
func (c *vcase) leading(r pango.Rectangle, i int) pango.Rectangle {
	h, any := 0, false
	if a := c.at(pango.ATTR_LINE_HEIGHT, i); a != nil {
		h, any = int(math.Ceil(float64(a.f)*float64(r.Height))), true
	}
	if a := c.at(pango.ATTR_ABSOLUTE_LINE_HEIGHT, i); a != nil {
		h, any = max(h, a.i), true
	}
	if any {
		lead := pango.Unit(h) - r.Height
		r.Y -= lead / 2
		r.Height += lead
	}
	return r
}

func within(a, b, tol int) bool { return a-b <= tol && b-a <= tol }

func nearRect(a, b pango.Rectangle, tol int) bool {
	return within(int(a.X), int(b.X), tol) && within(int(a.Y), int(b.Y), tol) && within(int(a.Width), int(b.Width), tol) && within(int(a.Height), int(b.Height), tol)
}

func P22() *run.Prop {
	return &run.Prop{
		ID: "P22", Quick: 100000, Thorough: 4000000,
		Rule: "the heights of the runs and lines are the ones of their fonts, shapes, shifts, decorations and line heights",
		Need: map[string]int64{"runs": 10000, "shifted runs": 2000, "superscripts and subscripts": 500, "decorated runs": 2000, "shapes": 500,
			"runs with a line height": 2000, "empty lines": 500, "empty lines with a line height": 50, "scaled runs": 200, "positions": 5000, "shifts on several lines": 50},
		Run: func(t *run.T) {
			c := &vcase{size: 16}
			for k := t.Range(1, 5); k > 0; k-- {
				switch t.IntN(5) {
				case 0:
					c.text = append(c.text, []rune(run.Pick(t, "שלום", "ב", "עולם מן"))...)
				case 1:
					c.text = append(c.text, run.Pick(t, '\n', '\n', '\u2029', ' '))
				default:
					c.text = append(c.text, []rune(run.Pick(t, "abc", "word", "x", "two words", "12.5", "a, b", " ", "Mixed"))...)
				}
			}
			n := len(c.text)
			c.attrs = genVAttrs(t, c.text)
			width := -1
			if t.Chance(0.4) {
				width = t.Range(1, 120)
			}
			spacing, factor := t.IntN(3)*1024, float32(0)
			if t.Chance(0.3) {
				factor = run.Pick(t, float32(0.5), 1, 1.5, 2)
			}
			var desc []string
			for _, a := range c.attrs {
				desc = append(desc, a.String())
			}
			t.SetInput(fmt.Sprintf("text %q size %d width %d spacing %d factor %g attributes %s", string(c.text), c.size, width, spacing, factor, strings.Join(desc, " ")))

			ctx := newContext(t.Chance(0.8))
			ctx.SetRoundGlyphPositions(t.Chance(0.5))
			l := pango.NewLayout(ctx)
			d := verifDesc(c.size)
			l.SetFontDescription(&d)
			l.SetRunes(append([]rune(nil), c.text...))
			var al pango.AttrList
			for _, a := range c.attrs {
				al.Insert(a.attr())
			}
			l.SetAttributes(al)
			l.SetSpacing(pango.Unit(spacing))
			l.SetLineSpacing(factor)
			if width >= 0 {
				l.SetWidth(pango.Unit(width * px))
				l.SetWrap(run.Pick(t, pango.WRAP_WORD, pango.WRAP_CHAR, pango.WRAP_WORD_CHAR))
			}

			lines := l.GetLinesReadonly()
			values := map[*vattr]int{} // of the shifts, and where they were first
			first := map[*vattr]int{}
			y, base := 0, 0
			it := l.GetIter()
			type place struct{ y, h, tol int }
			where := make(map[int]place)
			for li, ln := range lines {
				t.Step("line %d", li)
				var runs []*vrun
				for _, g := range lineRuns(ln) {
					r := c.run(g)
					if r == nil {
						t.Count("other sizes", 1)
						return
					}
					runs = append(runs, r)
				}
				logical := append([]*vrun(nil), runs...)
				sort.SliceStable(logical, func(i, j int) bool { return logical[i].start < logical[j].start })
				for i, r := range logical {
					if a := c.at(pango.ATTR_RISE, r.start); a != nil {
						r.shift += a.i
					}
					super := false
					for k := range c.attrs {
						a := &c.attrs[k]
						if a.kind != pango.ATTR_BASELINE_SHIFT || r.start < a.s || a.e <= r.start {
							continue
						}
						v, ok := values[a]
						if !ok {
							v = a.i
							up, down := 5000, 5000
							if i > 0 {
								up, down = mulUnits(vSuper, logical[i-1].size), mulUnits(vSub, logical[i-1].size)
								r.tol += logical[i-1].tol
							}
							switch a.i {
							case 1:
								v = up
							case 2:
								v = -down
							}
							values[a], first[a] = v, li
							super = super || a.i > 0 && a.i < 3
						}
						if first[a] != li {
							t.Count("shifts on several lines", 1)
						}
						r.shift += v
						if 0 < a.i && a.i < 3 {
							t.Count("superscripts and subscripts", 1)
							r.tol += 2
						}
					}
					c.decorate(r)
				}
				// extents of the line
				var log, ink pango.Rectangle
				x, hgt, tol := 0, 0, 0
				for _, r := range runs {
					t.Count("runs", 1)
					if r.tol == 0 {
						t.Distinct("run", r.ink.Y, r.ink.Height, r.log.Y, r.log.Height, r.line.Y, r.line.Height)
					}
					if r.shift != 0 {
						t.Count("shifted runs", 1)
					}
					if r.shape {
						t.Count("shapes", 1)
					}
					if r.line != r.log {
						t.Count("runs with a line height", 1)
					}
					if r.tol > 0 {
						t.Count("scaled runs", 1)
					}
					if c.at(pango.ATTR_UNDERLINE, r.start) != nil || c.at(pango.ATTR_OVERLINE, r.start) != nil || c.at(pango.ATTR_STRIKETHROUGH, r.start) != nil {
						t.Count("decorated runs", 1)
					}
					a := r.line
					a.X += pango.Unit(x)
					// with the origin on the baseline
					x0, y0 := min(log.X, a.X), min(log.Y, a.Y)
					log = pango.Rectangle{X: x0, Y: y0, Width: max(log.X+log.Width, a.X+a.Width) - x0, Height: max(log.Y+log.Height, a.Y+a.Height) - y0}
					b := r.ink
					b.X += pango.Unit(x)
					ink = union(ink, b)
					hgt, tol = max(hgt, r.height), max(tol, 2*r.tol)
					x += int(r.log.Width)
				}
				if len(runs) == 0 {
					size := c.size
					if a := c.at(pango.ATTR_SIZE, ln.StartIndex); a != nil {
						size = a.i
					}
					log = rectOf(0, -vAscent*size, 0, (vAscent+vDescent)*size)
					w := c.leading(log, ln.StartIndex)
					t.Count("empty lines", 1)
					if w != log {
						t.Count("empty lines with a line height", 1)
						log, tol = w, 1
					}
					hgt = (vAscent + vDescent + vLineGap) * size
					if c.at(pango.ATTR_FONT_SCALE, ln.StartIndex) != nil {
						t.Count("scaled empty lines", 1)
					}
				}
				var gi, gl pango.Rectangle
				gh := ln.GetExtents(&gi, &gl)
				if !nearRect(gl, log, tol) {
					t.Failf("line-logical", "line %d (%d+%d) : logical extents %v, want %v", li, ln.StartIndex, ln.Length, gl, log)
					return
				}
				if !emptyRect(ink) && !nearRect(gi, ink, tol) {
					t.Failf("line-ink", "line %d (%d+%d) : ink %v, want %v", li, ln.StartIndex, ln.Length, gi, ink)
					return
				}
				if !within(int(gh), hgt, tol) {
					t.Failf("line-height", "line %d (%d+%d) : height %d, want %d", li, ln.StartIndex, ln.Length, gh, hgt)
					return
				}
				// from now on, use the actual extents if they differ from the roundings
				if li == 0 || factor == 0 {
					base = y - int(gl.Y)
				} else {
					base += int(factor * float32(gh))
				}
				y = base + int(gl.Y) + int(gl.Height) + spacing
				if b := int(it.GetBaseline()); b != base {
					t.Failf("baseline", "baseline of the line %d at %d, want %d", li, b, base)
					return
				}
				var ll pango.Rectangle
				it.GetLineExtents(nil, &ll)
				if int(ll.Y) != base+int(gl.Y) || ll.Height != gl.Height {
					t.Failf("line-place", "line %d at %v, want %d + %v", li, ll, base, gl)
					return
				}
				x = int(ll.X)
				for _, r := range runs {
					var ri, rl pango.Rectangle
					if g := it.GetRun(); g != r.GlyphItem {
						t.Failf("iterator", "line %d : another run", li)
						return
					}
					it.GetRunExtents(&ri, &rl)
					wi, wl := r.ink, r.log
					wi.X += pango.Unit(x)
					wl.X += pango.Unit(x)
					wi.Y += pango.Unit(base)
					wl.Y += pango.Unit(base)
					if !nearRect(rl, wl, 2*r.tol) {
						t.Failf("run-logical", "run %d-%d : logical extents %v, want %v", r.start, r.end, rl, wl)
						return
					}
					if !emptyRect(wi) && !nearRect(ri, wi, 2*r.tol) {
						t.Failf("run-ink", "run %d-%d : ink %v, want %v", r.start, r.end, ri, wi)
						return
					}
					for i := r.start; i < r.end; i++ {
						where[i] = place{int(wl.Y), int(wl.Height), 2 * r.tol}
					}
					if !r.shape {
						var cl pango.Rectangle
						it.GetClusterExtents(nil, &cl)
						if cc := it.GetCharExtents(); !within(int(cl.Y), int(wl.Y), 2*r.tol) || !within(int(cl.Height), int(wl.Height), 2*r.tol) || cc.Y != cl.Y || cc.Height != cl.Height {
							t.Failf("cluster", "run %d-%d : the first cluster is at %v, its character at %v, want the height of %v", r.start, r.end, cl, cc, wl)
							return
						}
					}
					x += int(r.log.Width)
					it.NextRun()
				}
				if len(runs) == 0 || it.GetRun() == nil { // after the last run
					it.NextRun()
				}
			}
			var all pango.Rectangle
			l.GetExtents(nil, &all)
			if int(all.Y+all.Height) != y-spacing && factor == 0 {
				t.Failf("layout", "layout extents %v, want the end at %d", all, y-spacing)
				return
			}
			for k := 0; k < 3; k++ {
				i := t.IntN(n)
				w, ok := where[i]
				if !ok {
					continue
				}
				t.Count("positions", 1)
				var p, s, wk pango.Rectangle
				l.IndexToPos(i, &p)
				l.GetCursorPos(i, &s, &wk)
				for name, r := range map[string]pango.Rectangle{"position": p, "strong cursor": s, "weak cursor": wk} {
					if !within(int(r.Y), w.y, w.tol) || !within(int(r.Height), w.h, w.tol) {
						t.Failf("index", "%s of the index %d %v, want y %d and height %d", name, i, r, w.y, w.h)
						return
					}
				}
			}
		},
	}
}
