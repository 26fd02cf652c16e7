package pg

import (
	"github.com/benoitkugler/textprocessing/pango"

	"verifharness/run"
)

// P14 : alignment, indent and justification
func P14() *run.Prop {
	return &run.Prop{
		ID: "P14", Quick: 150000, Thorough: 4000000,
		Rule: "lines are aligned in the width of the layout, with their indent, and the justified ones fill it by expanding their spaces, or their clusters",
		Need: map[string]int64{"lines justified by words": 500, "lines justified by clusters": 100, "lines left alone": 500, "right to left lines": 100},
		Run: func(t *run.T) {
			c := genLCase(t)
			if t.Chance(0.8) && c.width < 0 {
				c.width = t.Range(20, 14*c.size)
			}
			justify := t.Chance(0.8)
			justifyLast := justify && t.Chance(0.3) || t.Chance(0.1)
			t.SetInput(c.String())
			natural := c.layout()
			c.justify, c.justifyLast = justify, justifyLast
			t.SetInput(c.String())
			l := c.layout()
			lines := l.GetLinesReadonly()
			log := l.GetCharacterAttributes()
			m := c.model(log, lines)
			c.noteCase(t, m)
			if !comparable(t, natural, m) {
				return
			}
			nl := natural.GetLinesReadonly()
			if len(nl) != len(lines) {
				t.Failf("justify-lines", "%d lines, %d when justified", len(nl), len(lines))
				return
			}
			for i, ml := range m.lines {
				a, b := nl[i], lines[i]
				if a.StartIndex != b.StartIndex || a.Length != b.Length {
					t.Failf("justify-lines", "line %d is [%d,+%d), [%d,+%d) when justified", i, a.StartIndex, a.Length, b.StartIndex, b.Length)
					return
				}
				ra, rb := lineRuns(a), lineRuns(b)
				if len(ra) != len(rb) {
					t.Failf("justify-runs", "line %d has %d runs, %d when justified", i, len(ra), len(rb))
					return
				}
				last := i+1 == len(m.lines) || m.lines[i+1].paraStart
				goal := ml.goal * px
				want := ml.width
				mode := "alone"
				if justify && (ml.wrapped || !last || justifyLast) && ml.length > 0 && ml.goal >= 0 && goal > want {
					mode = "words"
				}
				// the expansion of each cluster
				type exp struct {
					w, delta  int
					space, ok bool
				}
				var exps []exp
				spaces, total, gaps := 0, 0, 0
				for k := range ra {
					ca, cb := glyphClusters(ra[k]), glyphClusters(rb[k])
					if len(ca) != len(cb) || ra[k].Item.Offset != rb[k].Item.Offset {
						t.Failf("justify-runs", "line %d : the clusters of the run %d are not the same when justified", i, k)
						return
					}
					for j := range ca {
						if ca[j].start != cb[j].start || ca[j].n != cb[j].n {
							t.Failf("justify-runs", "line %d : the clusters of the run %d are not the same when justified", i, k)
							return
						}
						e := exp{w: ca[j].w, delta: cb[j].w - ca[j].w}
						e.space = log[ca[j].start].IsExpandableSpace() && e.w > 0
						e.ok = log[ca[j].start].IsCursorPosition() && e.w > 0
						if e.space {
							spaces += e.w
						}
						if e.ok {
							gaps++
						}
						total += cb[j].w
						exps = append(exps, e)
					}
				}
				if mode == "words" && spaces == 0 {
					mode = "clusters"
					if gaps < 2 {
						mode = "alone"
					}
				}
				R := goal - want
				switch mode {
				case "alone":
					t.Count("lines left alone", 1)
					for _, e := range exps {
						if e.delta != 0 {
							t.Failf("justify-alone", "line %d : a cluster %d wide is expanded by %d, but the line is not justified (%d for %d)", i, e.w, e.delta, want, goal)
							return
						}
					}
				case "words":
					t.Count("lines justified by words", 1)
					if total != goal {
						t.Failf("justify-width", "line %d : justified to %d instead of %d (natural width %d)", i, total, goal, want)
						return
					}
					// the unit of the positions : pixels if the space is in pixels
					unit := 1
					if R%px == 0 {
						unit = px
					}
					for _, e := range exps {
						if !e.space && e.delta != 0 {
							t.Failf("justify-other", "line %d : a cluster which is not a space is expanded by %d", i, e.delta)
							return
						}
						if e.delta%unit != 0 {
							t.Failf("justify-pixels", "line %d : a space is expanded by %d, the missing width %d being whole pixels", i, e.delta, R)
							return
						}
						if d := e.delta - e.w*R/max(spaces, 1); e.space && (d > unit || d < -unit) {
							t.Failf("justify-share", "line %d : a space %d wide is expanded by %d, want about %d", i, e.w, e.delta, e.w*R/spaces)
							return
						}
					}
				case "clusters":
					t.Count("lines justified by clusters", 1)
					if d := total - goal; d > 512 || d < -512-gaps {
						t.Failf("justify-width", "line %d : justified to %d instead of %d (natural width %d, %d gaps)", i, total, goal, want, gaps-1)
						return
					}
					each := R / (gaps - 1)
					seen := 0
					for _, e := range exps {
						if !e.ok {
							if e.delta != 0 {
								t.Failf("justify-other", "line %d : a cluster inside a grapheme or without width is expanded by %d", i, e.delta)
								return
							}
							continue
						}
						share := each
						if seen == 0 || seen == gaps-1 {
							share = each / 2
						}
						seen++
						if d := e.delta - share; d > px+1 || d < -px-1 {
							t.Failf("justify-share", "line %d : a cluster is expanded by %d, want about %d", i, e.delta, share)
							return
						}
					}
				}
				ml.width = total
			}
			// the position of the lines
			c.place(m)
			it := l.GetIter()
			for i := range lines {
				ml := m.lines[i]
				var r pango.Rectangle
				it.GetLineExtents(nil, &r)
				if w := rectOf(ml.x, ml.y, ml.width, ml.asc+ml.desc); r != w {
					t.Failf("line-position", "line %d at %v, want %v", i, r, w)
					return
				}
				it.NextLine()
			}
		},
	}
}
