package pg

import (
	"fmt"
	"sort"
	"strings"

	"github.com/benoitkugler/textprocessing/pango"

	"verifharness/run"
)

// ---- P16 : tab stops ----

type tabPart struct {
	text []rune // "\t" or a text in one size
	size int    // in pixels
}

// tabWant is the expected position of a part
type tabWant struct {
	start, end int // in the text
	x, w       int // Pango units
}

func genTabs(t *run.T) (tabs []pango.Tab) {
	seen := map[int]bool{}
	for k := t.Range(0, 5); k > 0; k-- {
		loc := t.Range(0, 80) * 8
		if seen[loc] {
			continue
		}
		seen[loc] = true
		tab := pango.Tab{Location: pango.Unit(loc), Alignment: run.Pick(t, pango.TAB_LEFT, pango.TAB_RIGHT, pango.TAB_CENTER, pango.TAB_DECIMAL, pango.TAB_DECIMAL)}
		if tab.Alignment == pango.TAB_DECIMAL {
			tab.DecimalPoint = run.Pick(t, rune(0), 0, '.', ',', 'x')
		}
		tabs = append(tabs, tab)
	}
	return tabs
}

func tabText(t *run.T) []rune {
	var out []rune
	switch t.IntN(3) {
	case 0:
		out = []rune(run.Pick(t, "12.50", "3,14", "100", "1.2.3", ".5", "7.", "1,234.5", "x", "0x10"))
	case 1:
		for k := t.Range(1, 12); k > 0; k-- {
			out = append(out, run.Pick(t, 'a', 'b', 'm', 'w', 'i', 'x', '.', ',', '1', '2', '-'))
		}
	default:
		out = []rune(run.Pick(t, "foo bar", "a", "some words here", "x.y", "a b.c d", "internationalization"))
	}
	return out
}

func P16() *run.Prop {
	return &run.Prop{
		ID: "P16", Quick: 150000, Thorough: 5000000,
		Rule: "the parts of a paragraph between its tabs start, end, are centered or have their decimal point at the tab stops",
		Need: map[string]int64{"tabs": 50000, "right tabs": 3000, "centered tabs": 3000, "decimal tabs": 3000, "tabs without room": 500, "extrapolated tabs": 3000, "default tabs": 3000, "parts of several runs": 2000},
		Run: func(t *run.T) {
			base := 16 * t.Range(1, 3)
			var tabs []pango.Tab
			hasTabs := t.Chance(0.85)
			if hasTabs {
				tabs = genTabs(t)
			}
			inPx := t.Chance(0.5)
			indent := 0
			if t.Chance(0.3) {
				indent = t.Range(-6, 6) * 8 * px
			}
			align := run.Pick(t, pango.ALIGN_LEFT, pango.ALIGN_LEFT, pango.ALIGN_CENTER, pango.ALIGN_RIGHT)
			// the paragraphs
			var (
				text  []rune
				paras [][]tabPart
				sizes []sizeSpan
			)
			for k := t.Range(1, 3); k > 0; k-- {
				var parts []tabPart
				for j := t.Range(1, 7); j > 0; j-- {
					if t.Chance(0.5) {
						parts = append(parts, tabPart{text: []rune("\t"), size: base})
						continue
					}
					size := base
					if t.Chance(0.3) {
						size = 16 * t.Range(1, 4)
					}
					p := tabPart{text: tabText(t), size: size}
					if n := len(parts); n > 0 && parts[n-1].size == size && parts[n-1].text[0] != '\t' {
						parts[n-1].text = append(parts[n-1].text, p.text...)
					} else {
						parts = append(parts, p)
					}
				}
				for _, p := range parts {
					if p.size != base {
						sizes = append(sizes, sizeSpan{len(text), len(text) + len(p.text), p.size})
					}
					text = append(text, p.text...)
				}
				paras = append(paras, parts)
				if k > 1 {
					text = append(text, '\n')
				}
			}
			var in strings.Builder
			fmt.Fprintf(&in, "text=%q size=%d sizes=%v tabs=%v (%v) pixels=%v indent=%d align=%d", string(text), base, sizes, tabs, hasTabs, inPx, indent, align)
			t.SetInput(in.String())

			ctx := newContext(t.Chance(0.9))
			l := pango.NewLayout(ctx)
			d := verifDesc(base)
			given := &pango.TabArray{PositionsInPixels: inPx}
			for _, tab := range tabs {
				if !inPx {
					tab.Location *= px
				}
				given.Tabs = append(given.Tabs, tab)
			}
			show := fmt.Sprint(*given)
			steps := []func(){
				func() { l.SetFontDescription(&d) },
				func() { l.SetRunes(append([]rune(nil), text...)) },
				func() { l.SetIndent(pango.Unit(indent)) },
				func() { l.SetAlignment(align) },
				func() {
					if hasTabs {
						l.SetTabs(given)
						if t.Chance(0.5) { // the array is copied
							keep := given.Copy()
							for i := range given.Tabs {
								given.Tabs[i] = pango.Tab{}
							}
							given = keep
						}
					} else if t.Chance(0.3) {
						l.SetTabs(given)
						l.SetTabs(nil)
					}
				},
				func() {
					var list pango.AttrList
					for _, s := range sizes {
						a := pango.NewAttrAbsoluteSize(s.size * px)
						a.StartIndex, a.EndIndex = s.s, s.e
						list.Insert(a)
					}
					l.SetAttributes(list)
				},
			}
			t.Shuffle(len(steps), func(i, j int) { steps[i], steps[j] = steps[j], steps[i] })
			for _, f := range steps {
				f()
			}
			lines := l.GetLinesReadonly()
			if fmt.Sprint(*given) != show {
				t.Failf("input", "the tab array became %v instead of %s", *given, show)
			}
			if len(lines) != len(paras) {
				t.Failf("lines", "%d lines, want %d", len(lines), len(paras))
				return
			}

			// the model, in Pango units
			sorted := append([]pango.Tab(nil), tabs...)
			for i := range sorted {
				sorted[i].Location *= px
			}
			sort.Slice(sorted, func(i, j int) bool { return sorted[i].Location < sorted[j].Location })
			space := advance64(' ', 0) * base / 16 * px
			if len(text) > 0 && sizes != nil && sizes[0].s == 0 {
				space = advance64(' ', 0) * sizes[0].size / 16 * px
			}
			stop := func(i, offset int) (tab pango.Tab, isDefault bool) {
				n := len(sorted)
				switch {
				case i < n:
					tab = sorted[i]
				case n > 0:
					tab = sorted[n-1]
					gap := tab.Location
					if n > 1 {
						gap -= sorted[n-2].Location
					}
					if gap <= 0 {
						gap = pango.Unit(8 * space)
					}
					tab.Location += gap * pango.Unit(i-n+1)
				default:
					tab.Location = pango.Unit(8 * space * i)
				}
				tab.Location -= pango.Unit(offset)
				return tab, !hasTabs
			}
			pos := 0
			for k, parts := range paras {
				offset := 0
				if align != pango.ALIGN_CENTER && indent > 0 {
					offset = indent
				}
				var want []tabWant
				index, cur := 0, 0
				for i := 0; i < len(parts); i++ {
					p := parts[i]
					if p.text[0] != '\t' {
						w := 0
						for _, r := range p.text {
							w += advance64(r, 0) * p.size / 16 * px
						}
						want = append(want, tabWant{pos, pos + len(p.text), cur, w})
						cur += w
						pos += len(p.text)
						continue
					}
					// the next stop, leaving the width of a space when the stops are not chosen
					t.Count("tabs", 1)
					var tab pango.Tab
					for ; ; index++ {
						var def bool
						min := 1
						if tab, def = stop(index, offset); def {
							min = space
						}
						if int(tab.Location) >= cur+min {
							break
						}
					}
					switch {
					case !hasTabs:
						t.Count("default tabs", 1)
					case index >= len(sorted):
						t.Count("extrapolated tabs", 1)
					}
					room := int(tab.Location) - cur
					// the part of the following text which goes before the stop
					before, runs := 0, 0
					point := tab.DecimalPoint
					if point == 0 {
						point = '.'
					}
				loop:
					for j := i + 1; j < len(parts) && parts[j].text[0] != '\t'; j++ {
						runs++
						for _, r := range parts[j].text {
							w := advance64(r, 0) * parts[j].size / 16 * px
							switch tab.Alignment {
							case pango.TAB_RIGHT:
								before += w
							case pango.TAB_CENTER:
								before += w / 2
							case pango.TAB_DECIMAL:
								if r == point {
									before += w / 2
									break loop
								}
								before += w
							}
						}
						if before >= room { // no room left : the text starts here
							break
						}
					}
					if runs > 1 {
						t.Count("parts of several runs", 1)
					}
					if runs > 0 {
						switch tab.Alignment {
						case pango.TAB_RIGHT:
							t.Count("right tabs", 1)
						case pango.TAB_CENTER:
							t.Count("centered tabs", 1)
						case pango.TAB_DECIMAL:
							t.Count("decimal tabs", 1)
						}
					}
					w := room - before
					if w <= 0 {
						t.Count("tabs without room", 1)
						w = 0
					}
					want = append(want, tabWant{pos, pos + 1, cur, w})
					cur += w
					pos++
				}
				ln := lines[k]
				x := 0
				rs := lineRuns(ln)
				if len(rs) != len(want) {
					t.Failf("runs", "%d runs in the paragraph %d, want %d", len(rs), k, len(want))
					return
				}
				for i, r := range rs {
					w := 0
					for _, g := range r.Glyphs.Glyphs {
						w += int(g.Geometry.Width)
					}
					q := want[i]
					if r.Item.Offset != q.start || r.Item.Length != q.end-q.start || absInt(x-q.x) > 16 || absInt(w-q.w) > 16 {
						t.Failf("position", "the run [%d,+%d) is at %d with the width %d, want [%d,+%d) at %d, width %d", r.Item.Offset, r.Item.Length, x, w, q.start, q.end-q.start, q.x, q.w)
						return
					}
					if g := int(ln.IndexToX(q.start, false)) - int(ln.IndexToX(ln.StartIndex, false)); absInt(g-q.x) > 16 {
						t.Failf("index-x", "IndexToX(%d) is at %d of the start, want %d", q.start, g, q.x)
						return
					}
					x += w
				}
				pos++ // the separator
			}
			t.Distinct("layouts", in.String())
		},
	}
}

func absInt(a int) int {
	if a < 0 {
		return -a
	}
	return a
}
