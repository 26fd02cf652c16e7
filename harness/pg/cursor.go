package pg

import (
	"math"

	"github.com/benoitkugler/textprocessing/pango"

	"verifharness/run"
)

// lineOf is the line of an index : the last one which starts before
func (m *mlayout) lineOf(i int) int {
	k := 0
	for k+1 < len(m.lines) && m.lines[k+1].start <= i {
		k++
	}
	return k
}

func (l *mline) clusterAt(i int) (mcluster, bool) {
	for _, k := range l.clusters {
		if k.start <= i && i < k.start+k.n {
			return k, true
		}
	}
	return mcluster{}, false
}

// edges are the leading and trailing edges of a grapheme, in the line
func (k mcluster) edges() (int, int) {
	if k.rtl() {
		return k.x + k.w, k.x
	}
	return k.x, k.x + k.w
}

func (l *mline) hasRTL() bool {
	for _, k := range l.clusters {
		if k.rtl() {
			return true
		}
	}
	return l.rtl
}

func (l *mline) hasLTR() bool {
	for _, k := range l.clusters {
		if !k.rtl() {
			return true
		}
	}
	return !l.rtl
}

// cursorX predicts the positions of the cursors before the character i : the trailing edge of the
// previous character, the leading edge of the next one, and which is the strong one (-1 if not known)
func (l *mline) cursorX(i int) (x1, x2 int, strong int) {
	start, end := 0, l.width
	if l.rtl {
		start, end = end, start
	}
	d1, d2 := l.rtl, l.rtl
	lv1, lv2 := -1, -1
	if i == l.start {
		x1 = start
	} else if k, ok := l.clusterAt(i - 1); ok {
		_, x1 = k.edges()
		d1, lv1 = k.rtl(), k.level
	}
	if i >= l.end() {
		x2 = end
	} else if k, ok := l.clusterAt(i); ok {
		x2, _ = k.edges()
		d2, lv2 = k.rtl(), k.level
	}
	switch {
	case d1 == l.rtl && d2 != l.rtl:
		return x1, x2, 1
	case d2 == l.rtl && d1 != l.rtl:
		return x1, x2, 2
	case lv1 >= 0 && lv1 == lv2:
		return x1, x2, 2
	}
	return x1, x2, -1
}

// P10 : positions of the cursor
func P10() *run.Prop {
	return &run.Prop{
		ID: "P10", Quick: 80000, Thorough: 1200000,
		Rule: "the position of an index is the one of its grapheme, cursors are between the graphemes on the side of the base direction, selections cover their graphemes and the cursor moves by graphemes in the visual order",
		Need: map[string]int64{"positions": 10000, "cursors with two positions": 200, "ranges": 1000, "moves": 10000, "walks": 200, "mixed lines": 50},
		Run: func(t *run.T) {
			c := genLCase(t)
			t.SetInput(c.String())
			l := c.layout()
			lines := l.GetLinesReadonly()
			log := l.GetCharacterAttributes()
			m := c.model(log, lines)
			c.noteCase(t, m)
			if !comparable(t, l, m) {
				return
			}
			n := len(c.text)
			// positions
			every := 1
			if n > 24 {
				every = t.Range(1, n/8)
			}
			for i := 0; i <= n; i++ {
				if t.IntN(every) > 0 {
					continue
				}
				li := m.lineOf(i)
				ml := m.lines[li]
				var got pango.Rectangle
				l.IndexToPos(i, &got)
				k, ok := ml.clusterAt(i)
				t.Count("positions", 1)
				if ok {
					a, b := k.edges()
					size := c.sizeAt(i)
					if w := rectOf(ml.x+a, ml.baseline-vAscent*size, b-a, (vAscent+vDescent)*size); got != w {
						t.Failf("index-to-pos", "position of %d is %v, want %v", i, got, w)
						return
					}
					if x := int(lines[li].IndexToX(i, false)); x != a {
						t.Failf("index-to-x", "leading edge of %d at %d, want %d", i, x, a)
					}
					if x := int(lines[li].IndexToX(i, true)); x != b {
						t.Failf("index-to-x", "trailing edge of %d at %d, want %d", i, x, b)
					}
					dir := pango.DIRECTION_LTR
					if k.rtl() {
						dir = pango.DIRECTION_RTL
					}
					if d := l.GetDirectionAt(i); d != dir {
						t.Failf("direction", "direction at %d is %d, want %d", i, d, dir)
					}
				} else {
					if got.Width != 0 {
						t.Failf("index-to-pos", "position at the end of the line %d is %v", i, got)
					}
					if w := ml.x + ml.width; !ml.hasRTL() && int(got.X) != w {
						t.Failf("index-to-pos", "position of %d is %v, want x %d", i, got, w)
					}
				}
				if !log[i].IsCursorPosition() || i > ml.end() {
					continue
				}
				var s, w pango.Rectangle
				l.GetCursorPos(i, &s, &w)
				x1, x2, strong := ml.cursorX(i)
				x1, x2 = x1+ml.x, x2+ml.x
				if x1 != x2 {
					t.Count("cursors with two positions", 1)
				}
				gs, gw := int(s.X), int(w.X)
				bad := !(gs == x1 && gw == x2 || gs == x2 && gw == x1)
				if strong == 1 {
					bad = gs != x1 || gw != x2
				} else if strong == 2 {
					bad = gs != x2 || gw != x1
				}
				if bad {
					t.Failf("cursor", "cursors at %d : strong %d weak %d, want (after the previous grapheme) %d and (before the next one) %d, strong %d", i, gs, gw, x1, x2, strong)
					return
				}
				if s.Width != 0 || w.Width != 0 || s.Y != w.Y || s.Height != w.Height {
					t.Failf("cursor-rect", "cursors at %d : %v %v", i, s, w)
				}
				if ok {
					size := c.sizeAt(i)
					if int(s.Y) != ml.baseline-vAscent*size || int(s.Height) != (vAscent+vDescent)*size {
						t.Failf("cursor-rect", "strong cursor at %d : %v, the baseline is %d", i, s, ml.baseline)
					}
				}
			}
			var cursors []int
			for i := 0; i <= n; i++ {
				if log[i].IsCursorPosition() {
					cursors = append(cursors, i)
				}
			}
			for k := 0; k < 6; k++ {
				if !checkRanges(t, c, m, lines, cursors) {
					return
				}
			}
			if n > 24 && t.Chance(0.85) {
				return // slow
			}
			checkMoves(t, c, l, m, log, cursors)
		},
	}
}

// checkRanges compares a selection
func checkRanges(t *run.T, c *lcase, m *mlayout, lines []*pango.LayoutLine, cursors []int) bool {
	li := t.IntN(len(lines))
	ml := m.lines[li]
	a, b := cursors[t.IntN(len(cursors))], cursors[t.IntN(len(cursors))]
	if t.Chance(0.4) && ml.length > 0 {
		a = cursors[0]
		for _, k := range cursors {
			if k >= ml.start && k <= ml.end() && t.Chance(0.3) {
				a = k
			}
		}
	}
	if a > b {
		a, b = b, a
	}
	got := lines[li].GetXRanges(a, b)
	if len(got)%2 != 0 {
		t.Failf("ranges", "%d positions in the ranges", len(got))
		return false
	}
	t.Count("ranges", 1)
	type seg struct{ a, b int }
	norm := func(l []seg) (out []seg) {
		for _, s := range l {
			if s.a == s.b {
				continue
			}
			if k := len(out) - 1; k >= 0 && out[k].b == s.a {
				out[k].b = s.b
				continue
			}
			out = append(out, s)
		}
		return
	}
	var want, have []seg
	width := c.width * px
	before, after := a < ml.start, b > ml.end()
	left, right := before, after
	if ml.rtl {
		left, right = after, before
	}
	if left && ml.x > 0 {
		want = append(want, seg{0, ml.x})
	}
	for _, k := range ml.clusters {
		if k.start >= a && k.start < b {
			want = append(want, seg{ml.x + k.x, ml.x + k.x + k.w})
		}
	}
	if right && c.width >= 0 && ml.x+ml.width < width {
		want = append(want, seg{ml.x + ml.width, width})
	}
	prev := math.MinInt
	for i := 0; i < len(got); i += 2 {
		s := seg{int(got[i]), int(got[i+1])}
		if s.a < prev || s.b < s.a {
			t.Failf("ranges-order", "ranges of [%d,%d) in the line %d are not sorted : %v", a, b, li, got)
			return false
		}
		prev = s.b
		have = append(have, s)
	}
	w, h := norm(want), norm(have)
	ok := len(w) == len(h)
	for i := 0; ok && i < len(w); i++ {
		ok = w[i] == h[i]
	}
	if !ok {
		t.Failf("ranges", "ranges of [%d,%d) in the line %d (x %d width %d) : %v, want %v", a, b, li, ml.x, ml.width, h, w)
	}
	return ok
}

// sameX tells if two positions of the cursor are displayed at the same place
func (m *mlayout) sameX(i, j int) bool {
	i, j = min(i, j), max(i, j)
	for _, ml := range m.lines {
		if i < ml.start || j > ml.end() {
			continue
		}
		for _, k := range ml.clusters {
			if k.start >= i && k.start < j && k.w != 0 {
				return false
			}
		}
		return true
	}
	return false
}

// checkMoves moves the cursor in both directions
func checkMoves(t *run.T, c *lcase, l *pango.Layout, m *mlayout, log []pango.CharAttr, cursors []int) {
	n := len(c.text)
	ltr, rtl := true, true
	dirs := map[bool]bool{}
	for _, ml := range m.lines {
		if ml.hasRTL() {
			ltr = false
		}
		if ml.hasLTR() {
			rtl = false
		}
		dirs[ml.rtl] = true
	}
	strong := t.Chance(0.5)
	if ltr || rtl {
		// the whole walk is known
		t.Count("walks", 1)
		for _, dir := range []int{1, -1} {
			forward := (dir > 0) == ltr
			pos := 0
			if !forward {
				pos = len(cursors) - 1
			}
			i, tr := cursors[pos], 0
			for {
				ni, nt := l.MoveCursorVisually(strong, i, tr, dir)
				t.Count("moves", 1)
				old := pos
				for {
					if forward {
						pos++
					} else {
						pos--
					}
					// the graphemes without width may be skipped, or not
					if pos < 0 || pos >= len(cursors) || cursors[pos] == ni+nt || !m.sameX(cursors[old], cursors[pos]) && !m.sameX(cursors[pos], ni+nt) {
						break
					}
				}
				if pos < 0 || pos >= len(cursors) {
					want := math.MaxInt32
					if pos < 0 {
						want = -1
					}
					if ni != want {
						t.Failf("move-off", "moving from %d+%d in direction %d : %d+%d, want to leave the layout (%d)", i, tr, dir, ni, nt, want)
					}
					break
				}
				if ni+nt != cursors[pos] {
					t.Failf("move-walk", "moving from %d+%d in direction %d : %d+%d, want %d", i, tr, dir, ni, nt, cursors[pos])
					return
				}
				if nt != 0 {
					// the end of a line
					if ml := m.lines[m.lineOf(ni)]; ni+nt != ml.end() {
						t.Failf("move-trailing", "moving from %d+%d in direction %d : %d+%d, inside a line", i, tr, dir, ni, nt)
						return
					}
				}
				i, tr = ni, nt
			}
		}
		return
	}
	for _, dir := range []int{1, -1} {
		i, tr := cursors[t.IntN(len(cursors))], 0
		for steps := 0; ; steps++ {
			ni, nt := l.MoveCursorVisually(strong, i, tr, dir)
			t.Count("moves", 1)
			if ni == -1 || ni == math.MaxInt32 {
				break
			}
			if ni < 0 || ni+nt > n || nt < 0 || !log[ni+nt].IsCursorPosition() {
				t.Failf("move-cursor", "moving from %d+%d in direction %d : %d+%d, not a position of the cursor", i, tr, dir, ni, nt)
				return
			}
			lo, ln := m.lineOf(i), m.lineOf(ni)
			if ln > lo+1 || ln < lo-1 {
				t.Failf("move-line", "moving from %d+%d in direction %d : %d+%d, from the line %d to %d", i, tr, dir, ni, nt, lo, ln)
				return
			}
			if c.autoDir && ln == lo && m.lineOf(i+tr) == lo && m.lineOf(ni+nt) == lo {
				x := func(i int) int {
					var s, w pango.Rectangle
					l.GetCursorPos(i, &s, &w)
					if strong {
						return int(s.X)
					}
					return int(w.X)
				}
				if a, b := x(i+tr), x(ni+nt); (b-a)*dir < 0 {
					t.Failf("move-back", "moving from %d+%d (x %d) in direction %d : %d+%d (x %d)", i, tr, a, dir, ni, nt, b)
					return
				}
			}
			i, tr = ni, nt
			if len(dirs) > 1 && steps > 10 {
				break // the paragraphs of opposite directions bring the cursor back
			}
			if steps > 2*n+2*len(m.lines)+10 {
				t.Failf("move-endless", "moving the cursor in direction %d does not leave the layout", dir)
				return
			}
		}
	}
}
