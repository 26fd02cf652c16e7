package pg

import (
	"fmt"

	"github.com/benoitkugler/textprocessing/pango"

	"verifharness/run"
)

// ---- P13 : ellipsized lines ----

func wideChar(r rune) bool {
	return r >= 0x3000 && r <= 0x30FF || r >= 0x4E00 && r <= 0x9FFF
}

// ellipsisWidth is the width of the ellipsis replacing the text from i : the fonts
// have no centered ellipsis, used for wide characters, which is replaced by three dots
func (c *lcase) ellipsisWidth(i int) int {
	if wideChar(c.text[i]) {
		return 3 * advance64('.', 0) * c.sizeAt(i) / 16 * px
	}
	return advance64(0x2026, 0) * c.sizeAt(i) / 16 * px
}

// ellipsizeLine removes the smallest gap around the center of the removal (the start, the middle
// or the end of the line) such that the line with the ellipsis fits : the gap grows by
// graphemes on the side which stays the closest to its center.
func (c *lcase) ellipsizeLine(l *mline, chars []mchar, log []pango.CharAttr) {
	cl := l.logical
	n := len(cl)
	goal := l.goal * px
	xs := make([]int, n+1)
	for i, k := range cl {
		xs[i+1] = xs[i] + k.w
	}
	total := xs[n]
	center := 0
	switch c.ellipsize {
	case pango.ELLIPSIZE_MIDDLE:
		center = total / 2
	case pango.ELLIPSIZE_END:
		center = total
	}
	// the grapheme at the center (the last one for the end)
	s := 0
	for s < n-1 && xs[s+1] <= center {
		s++
	}
	e := s + 1
	width := func() int { return total - (xs[e] - xs[s]) + c.ellipsisWidth(cl[s].start) }
	for width() > goal {
		// the next graphemes : the gap does not end at invisible characters (nor at marks,
		// which go with the next character)
		ns, ne := s-1, e+1
		for ns > 0 && (cl[ns].w == 0 || c.text[cl[ns].start] != '\t' && chars[cl[ns].start].adv == 0) {
			ns--
		}
		for ne < n && (cl[ne-1].w == 0 || c.text[cl[ne-1].start] != '\t' && chars[cl[ne-1].start+cl[ne-1].n-1].adv == 0) {
			ne++
		}
		canS := ns >= 0 && xs[ns] != xs[s]
		canE := ne <= n && xs[ne] != xs[e]
		if !canS && !canE {
			break
		}
		if canS && (!canE || center-xs[ns] < xs[ne]-center) {
			s = ns
		} else {
			e = ne
		}
	}
	gap := mcluster{start: cl[s].start, w: c.ellipsisWidth(cl[s].start) + max(0, goal-width()), level: 127, size: c.sizeAt(cl[s].start)}
	gap.n = l.end() - gap.start
	if e < n {
		gap.n = cl[e].start - gap.start
	}
	for _, k := range cl[s:e] {
		gap.level = min(gap.level, k.level)
	}
	l.gap = &gap
	out := append([]mcluster(nil), cl[:s]...)
	out = append(out, gap)
	out = append(out, cl[e:]...)
	l.asc, l.desc, l.hgt = 0, 0, 0
	for _, k := range out {
		l.metrics(k.size)
	}
	l.clusters = reorder(out)
	l.sum()
}

func P13() *run.Prop {
	return &run.Prop{
		ID: "P13", Quick: 400000, Thorough: 8000000,
		Rule: "lines which do not fit have the smallest gap around the start, the middle or the end replaced by an ellipsis, in the lines allowed by the height",
		Need: map[string]int64{"lines": 1000, "ellipsized lines": 500, "ellipsized mixed lines": 50, "layouts cut by the height": 50, "dots": 20, "lines too narrow for the ellipsis": 20, "gaps of several runs": 50},
		Run: func(t *run.T) {
			c := genLCase(t)
			c.justify = false
			c.ellipsize = run.Pick(t, pango.ELLIPSIZE_START, pango.ELLIPSIZE_MIDDLE, pango.ELLIPSIZE_END)
			c.breaks = nil
			if c.width < 0 && t.Chance(0.8) {
				c.width = t.IntN(12*c.size + 10)
			}
			switch t.IntN(10) {
			case 0, 1, 2, 3:
				c.height = -1
			case 4, 5, 6:
				c.height = -t.Range(2, 5)
			default:
				c.height = run.Pick(t, 0, t.IntN(6*c.size), t.IntN(12*c.size))
				c.lineSpacing = 0
				for i := range c.sizes { // the heights of the lines would be guessed
					c.sizes[i].size = c.size
				}
			}
			t.SetInput(c.String())
			l := c.layout()
			m := c.model(l.GetCharacterAttributes(), l.GetLinesReadonly())
			c.noteCase(t, m)
			if !sameLines(t, c, l, m) {
				return
			}
			if l.IsEllipsized() != m.ellipsized {
				t.Failf("is-ellipsized", "IsEllipsized is %v, want %v", l.IsEllipsized(), m.ellipsized)
			}
			if l.IsWrapped() != m.wrapped {
				t.Failf("is-wrapped", "IsWrapped is %v, want %v", l.IsWrapped(), m.wrapped)
			}
			if last := m.lines[len(m.lines)-1]; last.end() < len(c.text)-2 {
				t.Count("layouts cut by the height", 1)
			}
			for i, ln := range l.GetLinesReadonly() {
				ml := m.lines[i]
				if !c.sameEllipsis(t, l, ln, ml) {
					t.Failf("ellipsis", "line %d is %s, want the gap %v", i, dumpLine(ln), ml.gap)
					return
				}
				if !runsPartition(t, ln, ml) {
					return
				}
				if got := fmt.Sprint(graphemeWidths(ln, ml)); got != fmt.Sprint(ml.clusters) {
					t.Failf("widths", "line %d is %s, widths %v, want %v", i, dumpLine(ln), got, ml.clusters)
				}
				if ml.gap == nil {
					continue
				}
				for _, k := range ml.clusters {
					if k.w == 0 {
						continue
					}
					for i := k.start; i < k.start+k.n; i++ {
						for _, trailing := range []bool{false, true} {
							if x := int(ln.IndexToX(i, trailing)); x < k.x || x > k.x+k.w {
								t.Failf("index-to-x", "character %d of the ellipsized line is at %d, want inside [%d,%d] : %s", i, x, k.x, k.x+k.w, dumpLine(ln))
							}
						}
					}
				}
			}
		},
	}
}

// sameEllipsis compares the ellipsis of the line with the gap expected
func (c *lcase) sameEllipsis(t *run.T, l *pango.Layout, ln *pango.LayoutLine, ml *mline) bool {
	found := 0
	for r := ln.Runs; r != nil; r = r.Next {
		it := r.Data.Item
		if it.Analysis.Flags&pango.AFIsEllipsis == 0 {
			continue
		}
		found++
		if ml.gap == nil || ml.gap.start != it.Offset || ml.gap.n != it.Length {
			return false
		}
		want := 1
		if wideChar(c.text[it.Offset]) {
			want = 3
			t.Count("dots", 1)
		}
		if len(r.Data.Glyphs.Glyphs) != want {
			return false
		}
	}
	if ml.gap == nil {
		return found == 0
	}
	t.Count("ellipsized lines", 1)
	levels := map[int]bool{}
	sizes := map[int]bool{}
	for _, k := range ml.logical {
		levels[k.level] = true
		if k.start >= ml.gap.start && k.start < ml.gap.start+ml.gap.n {
			sizes[k.level<<16|k.size] = true
		}
	}
	if len(levels) > 1 {
		t.Count("ellipsized mixed lines", 1)
	}
	if len(sizes) > 1 {
		t.Count("gaps of several runs", 1)
	}
	if ml.width > ml.goal*px {
		t.Count("lines too narrow for the ellipsis", 1)
	}
	t.Distinct("gaps", c.ellipsize, ml.gap.start-ml.start, ml.gap.n, ml.gap.level)
	return found == 1
}

// graphemeWidths measures the graphemes of the model in the runs of the line
func graphemeWidths(ln *pango.LayoutLine, ml *mline) []mcluster {
	out := append([]mcluster(nil), ml.clusters...)
	at := map[int]int{}
	for i := range out {
		for k := 0; k < out[i].n; k++ {
			at[out[i].start+k] = i
		}
		out[i].w = 0
	}
	for r := ln.Runs; r != nil; r = r.Next {
		for i, g := range r.Data.Glyphs.Glyphs {
			if k, ok := at[r.Data.Item.Offset+r.Data.Glyphs.LogClusters[i]]; ok {
				out[k].w += int(g.Geometry.Width)
			}
		}
	}
	x := 0
	for i := range out {
		out[i].x = x
		x += out[i].w
	}
	return out
}
