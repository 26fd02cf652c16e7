package pg

import (
	"fmt"
	"sort"
	"strings"

	"github.com/benoitkugler/textprocessing/pango"

	"verifharness/run"
)

const attrEnd = 24 // the positions of the model ; MaxInt stands after them

// attrMaker builds one of a few values of one of a few kinds
func attrMaker(kind, value int) *pango.Attribute {
	switch kind {
	case 0:
		return pango.NewAttrWeight(pango.Weight(400 + 100*value))
	case 1:
		return pango.NewAttrFamily([]string{"Sans", "Serif", "sans"}[value])
	case 2:
		return pango.NewAttrForeground(pango.AttrColor{Red: uint16(value)})
	case 3:
		return pango.NewAttrScale([]pango.Fl{1, 1.5, 2}[value])
	case 4:
		d := pango.NewFontDescriptionFrom([]string{"Sans 12", "Sans Bold", "Sans 13"}[value])
		return pango.NewAttrFontDescription(d)
	case 5:
		return pango.NewAttrShape(pango.Rectangle{Width: pango.Unit(value)}, pango.Rectangle{Width: 10})
	case 6:
		return pango.NewAttrBackground(pango.AttrColor{Red: uint16(value)})
	}
	return pango.NewAttrUnderline(pango.Underline(value))
}

const attrKinds = 8

type attrID struct{ kind, value int }

func (a attrID) String() string { return fmt.Sprintf("k%dv%d", a.kind, a.value) }

type attrSpan struct {
	id   attrID
	s, e int
}

func (a attrSpan) String() string { return fmt.Sprintf("%s[%d,%d)", a.id, a.s, a.e) }

// attrIdent finds back the identity of an attribute from its public content
func attrIdent(a *pango.Attribute) (attrID, bool) {
	for k := 0; k < attrKinds; k++ {
		m := attrMaker(k, 0)
		if m.Kind != a.Kind {
			continue
		}
		for v := 0; v < 3; v++ {
			if m := attrMaker(k, v); fmt.Sprint(m.Data) == fmt.Sprint(a.Data) && (k != 5 || m.Data == a.Data) {
				return attrID{k, v}, true
			}
		}
	}
	return attrID{}, false
}

func attrSpans(t *run.T, l pango.AttrList) (out []attrSpan, ok bool) {
	for i, a := range l {
		if a == nil {
			t.Failf("nil", "the element %d of the list is nil", i)
			return nil, false
		}
		id, ok := attrIdent(a)
		if !ok {
			t.Failf("value", "unknown attribute %v in the list", a)
			return nil, false
		}
		out = append(out, attrSpan{id, a.StartIndex, a.EndIndex})
	}
	return out, true
}

// P03 : the operations of the attribute lists
func P03() *run.Prop {
	return &run.Prop{
		ID:    "P03",
		Rule:  "the operations of the attribute lists, on lists built by histories of operations, agree with the value of each kind at each position",
		Quick: 60000, Thorough: 3000000,
		Need: map[string]int64{"changes": 1000, "change splits": 100, "change merges": 100, "inserts": 1000, "filters": 1000, "changes with the last attribute to the end": 100},
		Run: func(t *run.T) {
			if t.Chance(0.6) {
				attrChanges(t)
			} else {
				attrInserts(t)
			}
		},
	}
}

// attrChanges : a history of Change and Filter
func attrChanges(t *run.T) {
	var list pango.AttrList
	// for each kind the value at each position, -1 for none
	var model [attrKinds][attrEnd + 1]int
	for k := range model {
		for p := range model[k] {
			model[k][p] = -1
		}
	}
	n := t.Range(2, 14)
	kinds := t.Range(1, 4)
	k0 := t.IntN(attrKinds)
	t.SetInput("history of changes")
	for op := 0; op < n; op++ {
		if op > 2 && t.Chance(0.08) {
			// remove the attributes of one kind
			k := (k0 + t.IntN(kinds)) % attrKinds
			kind := attrMaker(k, 0).Kind
			t.Step("Filter(kind %d)", k)
			var before []attrSpan
			b, ok := attrSpans(t, list)
			if !ok {
				return
			}
			for _, s := range b {
				if s.id.kind == k {
					before = append(before, s)
				}
			}
			out := list.Filter(func(a *pango.Attribute) bool { return a.Kind == kind })
			got, ok := attrSpans(t, out)
			if !ok {
				return
			}
			if fmt.Sprint(got) != fmt.Sprint(before) {
				t.Failf("filter", "Filter gives %v, expected %v", got, before)
				return
			}
			for p := range model[k] {
				model[k][p] = -1
			}
			t.Count("filters", 1)
		} else {
			k := (k0 + t.IntN(kinds)) % attrKinds
			v := t.IntN(3)
			s := t.IntN(attrEnd)
			e := t.Range(s, min(attrEnd, s+t.Range(0, attrEnd)))
			a := attrMaker(k, v)
			a.StartIndex, a.EndIndex = s, e
			if e == attrEnd {
				if t.Chance(0.7) {
					a.EndIndex = pango.MaxInt
					t.Count("changes with the last attribute to the end", 1)
				}
				e = attrEnd
			}
			full := a.EndIndex == pango.MaxInt
			t.Step("Change(k%dv%d[%d,%d))", k, v, s, a.EndIndex)
			list.Change(a)
			for p := s; p < e; p++ {
				model[k][p] = v
			}
			if full {
				model[k][attrEnd] = v
			}
			t.Count("changes", 1)
		}
		t.Eval(1)
		got, ok := attrSpans(t, list)
		if !ok {
			return
		}
		if !sort.SliceIsSorted(got, func(i, j int) bool { return got[i].s < got[j].s }) {
			t.Failf("order", "the list is not sorted by start: %v", got)
			return
		}
		// the maximal segments of the model, sorted
		want := map[attrSpan]int{}
		nbw := 0
		for k := range model {
			for p := 0; p <= attrEnd; {
				v := model[k][p]
				q := p
				for q <= attrEnd && model[k][q] == v {
					q++
				}
				if v >= 0 {
					end := q
					if q > attrEnd {
						end = pango.MaxInt
					}
					want[attrSpan{attrID{k, v}, p, end}]++
					nbw++
				}
				p = q
			}
		}
		for _, g := range got {
			want[g]--
		}
		for sp, c := range want {
			if c != 0 {
				t.Failf("change", "after the history the list is %v: unexpected count (%+d) of %v", got, -c, sp)
				return
			}
		}
		if len(got) > 1 {
			t.Count("change splits", 1)
		}
		if len(got) <= op && len(got) > 0 {
			t.Count("change merges", 1)
		}
		if op == n-1 {
			var l []string
			for _, g := range got {
				l = append(l, g.String())
			}
			t.Distinct(strings.Join(l, " "))
		}
	}
}

// attrInserts : a history of Insert and Filter, with overlapping attributes
func attrInserts(t *run.T) {
	var list pango.AttrList
	type elt struct {
		attrSpan
		ptr *pango.Attribute
	}
	var model []elt
	t.SetInput("history of insertions")
	n := t.Range(1, 20)
	for op := 0; op < n; op++ {
		if t.Chance(0.12) {
			mod, rem := t.Range(1, 4), t.IntN(4)
			t.Step("Filter(value and start, %d, %d)", mod, rem)
			calls := map[*pango.Attribute]int{}
			keepFn := func(a *pango.Attribute) bool { return (a.StartIndex+int(a.Kind))%mod == rem }
			out := list.Filter(func(a *pango.Attribute) bool { calls[a]++; return keepFn(a) })
			var rest, removed []elt
			for _, m := range model {
				if calls[m.ptr] != 1 {
					t.Failf("filter calls", "the filter is called %d times on %v", calls[m.ptr], m.attrSpan)
					return
				}
				if keepFn(m.ptr) {
					removed = append(removed, m)
				} else {
					rest = append(rest, m)
				}
			}
			if len(out) != len(removed) {
				t.Failf("filter", "Filter gives %d attributes, expected %d", len(out), len(removed))
				return
			}
			for i, a := range out {
				if a != removed[i].ptr {
					t.Failf("filter", "Filter gives %v at %d, expected %v", a, i, removed[i].attrSpan)
					return
				}
			}
			model = rest
			t.Count("filters", 1)
		} else {
			id := attrID{t.IntN(attrKinds), t.IntN(3)}
			a := attrMaker(id.kind, id.value)
			a.StartIndex = t.IntN(8)
			a.EndIndex = a.StartIndex + t.IntN(8)
			t.Step("Insert(%v[%d,%d))", id, a.StartIndex, a.EndIndex)
			list.Insert(a)
			e := elt{attrSpan{id, a.StartIndex, a.EndIndex}, a}
			i := sort.Search(len(model), func(i int) bool { return model[i].s > e.s })
			model = append(model[:i:i], append([]elt{e}, model[i:]...)...)
			t.Count("inserts", 1)
		}
		t.Eval(1)
		if len(list) != len(model) {
			t.Failf("insert", "the list has %d attributes, expected %d", len(list), len(model))
			return
		}
		got, ok := attrSpans(t, list)
		if !ok {
			return
		}
		for i, m := range model {
			if got[i] != m.attrSpan || list[i] != m.ptr {
				t.Failf("insert", "at %d the list has %v, expected %v", i, got[i], m.attrSpan)
				return
			}
		}
	}
	t.Distinct(fmt.Sprint(len(model)), func() (s string) {
		for _, m := range model {
			s += m.attrSpan.String()
		}
		return
	}())
}
