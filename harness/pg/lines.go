package pg

import (
	"fmt"
	"sort"
	"strings"

	"github.com/benoitkugler/textprocessing/pango"

	"verifharness/run"
)

type lineSig struct {
	start, length int
	paraStart     bool
	rtl           bool
}

func (s lineSig) String() string {
	return fmt.Sprintf("[%d,%d)%s%s", s.start, s.start+s.length, map[bool]string{true: "P"}[s.paraStart], map[bool]string{true: "R"}[s.rtl])
}

func layoutSigs(l *pango.Layout) (out []lineSig) {
	for _, ln := range l.GetLinesReadonly() {
		out = append(out, lineSig{ln.StartIndex, ln.Length, ln.IsParagraphStart, ln.ResolvedDir == pango.DIRECTION_RTL})
	}
	return
}

func modelSigs(m *mlayout) (out []lineSig) {
	for _, l := range m.lines {
		out = append(out, lineSig{l.start, l.length, l.paraStart, l.rtl})
	}
	return
}

// sameLines compares the lines with the ones of the model
func sameLines(t *run.T, c *lcase, l *pango.Layout, m *mlayout) bool {
	got, want := layoutSigs(l), modelSigs(m)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		fp := "lines"
		for i := range got {
			if i >= len(want) {
				break
			}
			if g, w := got[i], want[i]; g != w {
				switch {
				case g.start == w.start && g.length != w.length:
					fp = "break"
				case g.rtl != w.rtl:
					fp = "direction"
				}
				break
			}
		}
		t.Failf(fp, "lines %v, want %v", got, want)
		return false
	}
	return true
}

// runsPartition checks that the runs of a line are a permutation of its text, in the order of the model
func runsPartition(t *run.T, ln *pango.LayoutLine, ml *mline) bool {
	var order [][2]int
	var items []*pango.Item
	for r := ln.Runs; r != nil; r = r.Next {
		it := r.Data.Item
		order = append(order, [2]int{it.Offset, it.Offset + it.Length})
		items = append(items, it)
		if it.Length <= 0 {
			t.Failf("empty-run", "line %v has an empty run at %d", ml.start, it.Offset)
			return false
		}
	}
	sorted := append([][2]int(nil), order...)
	sort.Slice(sorted, func(i, j int) bool { return sorted[i][0] < sorted[j][0] })
	pos := ml.start
	for _, r := range sorted {
		if r[0] != pos {
			t.Failf("runs-partition", "line [%d,%d): runs %v do not cover its text once", ml.start, ml.end(), order)
			return false
		}
		pos = r[1]
	}
	if pos != ml.end() {
		t.Failf("runs-partition", "line [%d,%d): runs %v do not cover its text once", ml.start, ml.end(), order)
		return false
	}
	// the visual order
	i := 0
	for k, r := range order {
		for n := 0; i < len(ml.clusters) && ml.clusters[i].start >= r[0] && ml.clusters[i].start < r[1]; i++ {
			if int(items[k].Analysis.Level)%2 != ml.clusters[i].level%2 {
				t.Failf("level", "run [%d,%d) has level %d, character %d has level %d", r[0], r[1], items[k].Analysis.Level, ml.clusters[i].start, ml.clusters[i].level)
				return false
			}
			n++
		}
	}
	if i != len(ml.clusters) {
		var want []int
		for _, c := range ml.clusters {
			want = append(want, c.start)
		}
		t.Failf("visual-order", "line [%d,%d): runs in the order %v, the graphemes are displayed in the order %v", ml.start, ml.end(), order, want)
		return false
	}
	return true
}

// P08 : the lines of a layout
func P08() *run.Prop {
	return &run.Prop{
		ID: "P08", Quick: 250000, Thorough: 8000000,
		Rule: "the lines of a layout partition its text, are broken at the last opportunity which fits, and their runs are in visual order",
		Need: map[string]int64{"lines": 1000, "wrapped lines": 500, "mixed lines": 50, "lines ending with a hyphen": 20},
		Run: func(t *run.T) {
			c := genLCase(t)
			t.SetInput(c.String())
			l := c.layout()
			m := c.model(l.GetCharacterAttributes(), l.GetLinesReadonly())
			c.noteCase(t, m)
			if !sameLines(t, c, l, m) {
				return
			}
			if l.IsWrapped() != m.wrapped {
				t.Failf("is-wrapped", "IsWrapped is %v, want %v", l.IsWrapped(), m.wrapped)
			}
			if l.GetLineCount() != len(m.lines) {
				t.Failf("line-count", "GetLineCount is %d, want %d", l.GetLineCount(), len(m.lines))
			}
			lines := l.GetLinesReadonly()
			for i, ml := range m.lines {
				if l.GetLine(i) != lines[i] {
					t.Failf("get-line", "GetLine(%d) is not the line %d", i, i)
				}
				if !runsPartition(t, lines[i], ml) {
					return
				}
				w := 0
				for r := lines[i].Runs; r != nil; r = r.Next {
					for _, g := range r.Data.Glyphs.Glyphs {
						w += int(g.Geometry.Width)
					}
				}
				if w != ml.width {
					t.Failf("line-width", "line %d is %d wide, want %d : %s, want %v", i, w, ml.width, dumpLine(lines[i]), ml.clusters)
				}
			}
			if l.GetLine(len(lines)) != nil || l.GetLine(-1) != nil {
				t.Failf("get-line", "GetLine out of range is not nil")
			}
		},
	}
}

// dumpLine gives the glyphs of a line
func dumpLine(ln *pango.LayoutLine) string {
	var sb strings.Builder
	for r := ln.Runs; r != nil; r = r.Next {
		fmt.Fprintf(&sb, "[%d,%d)L%d", r.Data.Item.Offset, r.Data.Item.Offset+r.Data.Item.Length, r.Data.Item.Analysis.Level)
		for i, g := range r.Data.Glyphs.Glyphs {
			fmt.Fprintf(&sb, " %d:%x:%d", r.Data.Glyphs.LogClusters[i], uint32(g.Glyph), g.Geometry.Width)
		}
		sb.WriteByte(' ')
	}
	return sb.String()
}
