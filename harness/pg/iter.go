package pg

import (
	"fmt"

	"github.com/benoitkugler/textprocessing/pango"

	"verifharness/run"
)

func rectOf(x, y, w, h int) pango.Rectangle {
	return pango.Rectangle{X: pango.Unit(x), Y: pango.Unit(y), Width: pango.Unit(w), Height: pango.Unit(h)}
}

func lineRuns(ln *pango.LayoutLine) (out []*pango.GlyphItem) {
	for r := ln.Runs; r != nil; r = r.Next {
		out = append(out, r.Data)
	}
	return
}

// union of two rectangles, ignoring the empty ones
func union(a, b pango.Rectangle) pango.Rectangle {
	if a.Width == 0 || a.Height == 0 {
		return b
	}
	if b.Width == 0 || b.Height == 0 {
		return a
	}
	x, y := min(a.X, b.X), min(a.Y, b.Y)
	return pango.Rectangle{X: x, Y: y, Width: max(a.X+a.Width, b.X+b.Width) - x, Height: max(a.Y+a.Height, b.Y+b.Height) - y}
}

func emptyRect(r pango.Rectangle) bool { return r.Width == 0 || r.Height == 0 }

// miter is the model of a layout iterator
type miter struct {
	c    *lcase
	m    *mlayout
	runs [][]*pango.GlyphItem
	cl   [][][]mcluster // clusters by line and run

	line, run, cluster, char int // run == len(runs) : after the last run
}

func newMiter(c *lcase, m *mlayout, lines []*pango.LayoutLine) *miter {
	it := &miter{c: c, m: m}
	for _, ln := range lines {
		runs := lineRuns(ln)
		var byRun [][]mcluster
		x := 0
		for _, r := range runs {
			cl := glyphClusters(r)
			for k := range cl {
				cl[k].x = x
				cl[k].size = c.sizeAt(r.Item.Offset)
				x += cl[k].w
			}
			byRun = append(byRun, cl)
		}
		it.runs = append(it.runs, runs)
		it.cl = append(it.cl, byRun)
	}
	return it
}

func (it *miter) ln() *mline    { return it.m.lines[it.line] }
func (it *miter) atEnd() bool   { return it.run >= len(it.runs[it.line]) }
func (it *miter) cur() mcluster { return it.cl[it.line][it.run][it.cluster] }

func (it *miter) nextLine() bool {
	if it.line+1 >= len(it.m.lines) {
		return false
	}
	it.line++
	it.run, it.cluster, it.char = 0, 0, 0
	return true
}

func (it *miter) nextRun() bool {
	if it.atEnd() {
		return it.nextLine()
	}
	it.run++
	it.cluster, it.char = 0, 0
	return true
}

func (it *miter) nextCluster(terminators bool) bool {
	if it.atEnd() {
		for it.nextLine() {
			if !it.atEnd() || terminators && it.ln().terminated {
				return true
			}
		}
		return false
	}
	if it.cluster+1 < len(it.cl[it.line][it.run]) {
		it.cluster++
		it.char = 0
		return true
	}
	for it.nextRun() {
		if !it.atEnd() || terminators && it.ln().terminated {
			return true
		}
	}
	return false
}

func (it *miter) nextChar() bool {
	if it.atEnd() {
		l := it.ln()
		if it.char == 0 && l.terminated && l.end()+1 < len(it.c.text) && it.c.text[l.end()] == '\r' && it.c.text[l.end()+1] == '\n' {
			it.char++
			return true
		}
		return it.nextCluster(true)
	}
	if it.char+1 < it.cur().n {
		it.char++
		return true
	}
	return it.nextCluster(true)
}

func (it *miter) index() int {
	l := it.ln()
	if it.atEnd() {
		if l.length == 0 {
			return l.start
		}
		for _, k := range l.clusters {
			if k.rtl() {
				return -1 // follows the last displayed run
			}
		}
		return l.end()
	}
	k := it.cur()
	if k.rtl() {
		return k.start + k.n - 1 - it.char
	}
	return k.start + it.char
}

// glyphClusters groups the glyphs of a run by cluster, in visual order
func glyphClusters(r *pango.GlyphItem) (out []mcluster) {
	gs := r.Glyphs
	for i, g := range gs.Glyphs {
		start := r.Item.Offset + gs.LogClusters[i]
		if len(out) > 0 && out[len(out)-1].start == start {
			out[len(out)-1].w += int(g.Geometry.Width)
			continue
		}
		out = append(out, mcluster{start: start, w: int(g.Geometry.Width), level: int(r.Item.Analysis.Level)})
	}
	end := r.Item.Offset + r.Item.Length
	if r.LTR() {
		for i := len(out) - 1; i >= 0; i-- {
			out[i].n, end = end-out[i].start, out[i].start
		}
	} else {
		for i := range out {
			out[i].n, end = end-out[i].start, out[i].start
		}
	}
	return
}

// check compares an iterator with its model
func (it *miter) check(t *run.T, got *pango.LayoutIter, lines []*pango.LayoutLine, how string) bool {
	fail := func(fp, format string, args ...any) bool {
		t.Failf(fp, "%s line %d run %d cluster %d char %d : %s", how, it.line, it.run, it.cluster, it.char, fmt.Sprintf(format, args...))
		return false
	}
	l := it.ln()
	if got.GetLine() != lines[it.line] {
		return fail("iter-line", "GetLine is another line")
	}
	if got.IsAtLastLine() != (it.line == len(lines)-1) {
		return fail("iter-last", "IsAtLastLine is %v", got.IsAtLastLine())
	}
	if b := got.GetBaseline(); int(b) != l.baseline {
		return fail("iter-baseline", "baseline %d, want %d", b, l.baseline)
	}
	if w := it.index(); w >= 0 && got.Index != w {
		return fail("iter-index", "index %d, want %d", got.Index, w)
	}
	var ink, r pango.Rectangle
	got.GetLineExtents(nil, &r)
	if w := rectOf(l.x, l.y, l.width, l.asc+l.desc); r != w {
		return fail("iter-line-extents", "line extents %v, want %v", r, w)
	}
	if it.atEnd() {
		if got.GetRun() != nil {
			return fail("iter-run", "there is a run at the end of the line")
		}
		x := l.x + l.width
		if len(it.runs[it.line]) == 0 {
			x = l.x
			if len(it.c.sizes) > 0 { // only the attributes of the start of the text are used
				return true
			}
		}
		size := it.c.size
		if n := len(it.runs[it.line]); n > 0 {
			size = it.c.sizeAt(it.runs[it.line][n-1].Item.Offset)
		}
		want := rectOf(x, l.baseline-vAscent*size, 0, (vAscent+vDescent)*size)
		got.GetRunExtents(nil, &r)
		if r != want {
			return fail("iter-end-extents", "run extents %v, want %v", r, want)
		}
		got.GetClusterExtents(nil, &r)
		if r != want {
			return fail("iter-end-extents", "cluster extents %v, want %v", r, want)
		}
		if r = got.GetCharExtents(); r != want {
			return fail("iter-end-extents", "character extents %v, want %v", r, want)
		}
		return true
	}
	run := it.runs[it.line][it.run]
	if got.GetRun() != run {
		return fail("iter-run", "GetRun is another run")
	}
	k := it.cur()
	cl := it.cl[it.line][it.run]
	first, last := cl[0], cl[len(cl)-1]
	y, h := l.baseline-vAscent*k.size, (vAscent+vDescent)*k.size
	got.GetRunExtents(&ink, &r)
	if w := rectOf(l.x+first.x, y, last.x+last.w-first.x, h); r != w {
		return fail("iter-run-extents", "run extents %v, want %v", r, w)
	}
	// the ink of the run is the one of its glyphs
	x := l.x + first.x
	var want pango.Rectangle
	for _, g := range run.Glyphs.Glyphs {
		var gi pango.Rectangle
		run.Item.Analysis.Font.GlyphExtents(g.Glyph, &gi, nil)
		gi.X += pango.Unit(x) + g.Geometry.XOffset
		gi.Y += pango.Unit(l.baseline) + g.Geometry.YOffset
		want = union(want, gi)
		x += int(g.Geometry.Width)
	}
	if len(it.c.marks) == 0 && ink != want && !(emptyRect(ink) && emptyRect(want)) {
		return fail("iter-run-ink", "run ink %v, want %v", ink, want)
	}
	var kink pango.Rectangle
	got.GetClusterExtents(&kink, &r)
	if w := rectOf(l.x+k.x, y, k.w, h); r != w {
		return fail("iter-cluster-extents", "cluster extents %v, want %v", r, w)
	}
	if u := union(want, kink); u != want && !emptyRect(kink) {
		return fail("iter-cluster-ink", "cluster ink %v is not in the one of the run %v", kink, want)
	}
	if !emptyRect(kink) {
		t.Count("inks compared", 1)
	}
	x0, x1 := it.char*k.w/k.n, (it.char+1)*k.w/k.n
	if r, w := got.GetCharExtents(), rectOf(l.x+k.x+x0, y, x1-x0, h); r != w {
		return fail("iter-char-extents", "character extents %v, want %v", r, w)
	}
	return true
}

// P11 : layout iterators
func P11() *run.Prop {
	return &run.Prop{
		ID: "P11", Quick: 150000, Thorough: 4000000,
		Rule: "iterators visit the lines, runs, clusters and characters of a layout in visual order, once each, with the extents where they are displayed",
		Need: map[string]int64{"steps": 10000, "mixed lines": 50, "inks compared": 1000},
		Run: func(t *run.T) {
			c := genLCase(t)
			t.SetInput(c.String())
			l := c.layout()
			lines := l.GetLinesReadonly()
			m := c.model(l.GetCharacterAttributes(), lines)
			c.noteCase(t, m)
			if !comparable(t, l, m) {
				return
			}
			modes := []int{0, 1, 2, 3, 4}
			t.Shuffle(len(modes), func(i, j int) { modes[i], modes[j] = modes[j], modes[i] })
			for _, mode := range modes[:t.Range(1, 5)] {
				it, got := newMiter(c, m, lines), l.GetIter()
				how := []string{"char", "cluster", "run", "line", "mixed"}[mode]
				for k := 0; ; k++ {
					if !it.check(t, got, lines, how) {
						return
					}
					t.Count("steps", 1)
					op := mode
					if mode == 4 {
						op = run.Pick(t, 0, 0, 0, 0, 0, 1, 1, 1, 2, 2, 3)
					}
					var a, b bool
					switch op {
					case 0:
						a, b = got.NextChar(), it.nextChar()
					case 1:
						a, b = got.NextCluster(), it.nextCluster(false)
					case 2:
						a, b = got.NextRun(), it.nextRun()
					case 3:
						a, b = got.NextLine(), it.nextLine()
					}
					if a != b {
						t.Failf("iter-next", "%s : Next (mode %d) is %v after line %d run %d cluster %d char %d, want %v", how, op, a, it.line, it.run, it.cluster, it.char, b)
						return
					}
					if !a {
						break
					}
				}
			}
		},
	}
}

// comparable tells if the lines are the ones of the model (what P08 checks)
func comparable(t *run.T, l *pango.Layout, m *mlayout) bool {
	if fmt.Sprint(layoutSigs(l)) != fmt.Sprint(modelSigs(m)) {
		t.Count("other lines", 1)
		return false
	}
	for i, ln := range l.GetLinesReadonly() {
		w, start := 0, -1
		for _, r := range lineRuns(ln) {
			w += int(sumWidth(r.Glyphs))
			if start < 0 {
				start = r.Item.Offset
			}
		}
		if w != m.lines[i].width {
			t.Count("other lines", 1)
			return false
		}
	}
	return true
}

func sumWidth(gs *pango.GlyphString) (w pango.Unit) {
	for _, g := range gs.Glyphs {
		w += g.Geometry.Width
	}
	return
}

// P21 : the extents of the lines and of the layout
func P21() *run.Prop {
	return &run.Prop{
		ID: "P21", Quick: 150000, Thorough: 4000000,
		Rule: "the extents of a layout are the union of the ones of its lines, stacked with the spacing and line spacing, whatever the order of the calls",
		Need: map[string]int64{"lines": 1000, "mixed lines": 50, "inks compared": 1000},
		Run: func(t *run.T) {
			c := genLCase(t)
			t.SetInput(c.String())
			l := c.layout()
			var got struct {
				ink, logical pango.Rectangle
			}
			for k := t.IntN(3); k > 0; k-- { // some calls first
				switch t.IntN(6) {
				case 0:
					l.GetSize()
				case 1:
					l.GetBaseline()
				case 2:
					l.GetExtents(nil, &got.logical)
				case 3:
					l.GetExtents(&got.ink, nil)
				case 4:
					l.GetLine(t.IntN(3))
				case 5:
					it := l.GetIter()
					it.GetRun()
				}
			}
			lines := l.GetLinesReadonly()
			m := c.model(l.GetCharacterAttributes(), lines)
			c.noteCase(t, m)
			if !comparable(t, l, m) {
				return
			}
			ops := []int{0, 1, 2, 3, 4, 5}
			t.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
			for _, op := range ops {
				t.Step("op %d", op)
				switch op {
				case 0:
					l.GetExtents(nil, &got.logical)
					if w := rectOf(m.x, 0, m.width, m.height); got.logical != w {
						t.Failf("layout-extents", "layout extents %v, want %v", got.logical, w)
					}
				case 1:
					w, h := l.GetSize()
					if int(w) != m.width || int(h) != m.height {
						t.Failf("layout-size", "size %d x %d, want %d x %d", w, h, m.width, m.height)
					}
				case 2:
					if b := int(l.GetBaseline()); b != m.lines[0].baseline {
						t.Failf("baseline", "baseline %d, want %d", b, m.lines[0].baseline)
					}
				case 3:
					for i, ln := range lines {
						ml := m.lines[i]
						var r, r2 pango.Rectangle
						h := ln.GetExtents(nil, &r)
						if w := rectOf(0, -ml.asc, ml.width, ml.asc+ml.desc); r != w || int(h) != ml.hgt {
							t.Failf("line-extents", "extents of the line %d %v height %d, want %v height %d", i, r, h, w, ml.hgt)
							return
						}
						var ink pango.Rectangle
						h2 := ln.GetExtents(&ink, &r2)
						if r2 != r || h2 != h {
							t.Failf("line-extents-again", "extents of the line %d %v height %d, then %v height %d", i, r, h, r2, h2)
						}
					}
				case 4:
					it := l.GetIter()
					for i := range lines {
						ml := m.lines[i]
						var r pango.Rectangle
						it.GetLineExtents(nil, &r)
						if w := rectOf(ml.x, ml.y, ml.width, ml.asc+ml.desc); r != w || int(it.GetBaseline()) != ml.baseline {
							t.Failf("line-position", "line %d at %v baseline %d, want %v baseline %d", i, r, it.GetBaseline(), w, ml.baseline)
							return
						}
						it.NextLine()
					}
				case 5:
					// inks
					var all pango.Rectangle
					l.GetExtents(&all, nil)
					it := l.GetIter()
					var u pango.Rectangle
					var inks []pango.Rectangle
					for i := range lines {
						var li, lu pango.Rectangle
						it.GetLineExtents(&li, nil)
						for range lineRuns(lines[i]) {
							var ri pango.Rectangle
							it.GetRunExtents(&ri, nil)
							lu = union(lu, ri)
							it.NextRun()
						}
						inks = append(inks, li)
						if !emptyRect(lu) {
							t.Count("inks compared", 1)
							if li != lu {
								t.Failf("line-ink", "ink of the line %d %v, want %v", i, li, lu)
							}
						}
						u = union(u, lu)
						it.NextLine()
					}
					// the lines without ink may count for their position
					hull := u
					for _, r := range inks {
						x, y := min(hull.X, r.X), min(hull.Y, r.Y)
						hull = pango.Rectangle{X: x, Y: y, Width: max(hull.X+hull.Width, r.X+r.Width) - x, Height: max(hull.Y+hull.Height, r.Y+r.Height) - y}
					}
					if !emptyRect(u) && (union(all, u) != all || union(hull, all) != hull) {
						t.Failf("layout-ink", "ink of the layout %v, want %v", all, u)
					}
				}
			}
		},
	}
}
