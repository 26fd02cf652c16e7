package fc

import (
	"fmt"
	"math"
	"os"
	"sort"
	"strings"

	fontconfig "github.com/benoitkugler/textprocessing/fontconfig"
	"verifharness/run"
)

// ---------------------------------------------------------- model of the rules

// values of the model: the ones of the library, but for the sets
type (
	mchars map[rune]bool
	mlangs map[string]bool
)

func toModel(v fontconfig.Value) interface{} {
	switch v := v.(type) {
	case fontconfig.Charset:
		return mchars(runesOf(v))
	case fontconfig.Langset:
		return mlangs(sliceSet(strings.Split(v.String(), "|")))
	case nil:
		return nil
	}
	return v
}

func canonModel(v interface{}) string {
	switch v := v.(type) {
	case mchars:
		return "c" + showAll(v)
	case mlangs:
		ks := keys(v)
		if len(ks) == 0 {
			ks = []string{""}
		}
		return "l" + strings.Join(ks, "|")
	case nil:
		return "nil"
	}
	return canonValue(v.(fontconfig.Value))
}

type melt struct {
	v       interface{}
	binding byte // w, s, =
}

type mpat map[obj][]*melt

func (m mpat) canon() string {
	var os []obj
	for o, l := range m {
		if len(l) != 0 {
			os = append(os, o)
		}
	}
	sort.Slice(os, func(i, j int) bool { return os[i] < os[j] })
	var sb strings.Builder
	for _, o := range os {
		fmt.Fprintf(&sb, "%s={", o)
		for _, e := range m[o] {
			fmt.Fprintf(&sb, "%s(%c);", canonModel(e.v), e.binding)
		}
		sb.WriteString("} ")
	}
	return sb.String()
}

// observed pattern, in the same form
func canonObserved(p fontconfig.Pattern) string {
	var os []obj
	for o := range p {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i] < os[j] })
	var sb strings.Builder
	for _, o := range os {
		l := values(p, o)
		if len(l) == 0 {
			continue
		}
		fmt.Fprintf(&sb, "%s={", o)
		b := bindings(p, o)
		for i, v := range l {
			k := byte('?')
			if len(b) == len(l) {
				k = b[i]
			}
			fmt.Fprintf(&sb, "%s(%c);", canonValue(v), k)
		}
		sb.WriteString("} ")
	}
	return sb.String()
}

func mpatOf(p fontconfig.Pattern) mpat {
	m := mpat{}
	for o := range p {
		b := bindings(p, o)
		for i, v := range values(p, o) {
			m[o] = append(m[o], &melt{toModel(v), b[i]})
		}
	}
	return m
}

type rexpr struct {
	op   string
	v    fontconfig.Value // leaf
	o    obj
	name string // name of the object or of the constant
	tgt  string
	kids []*rexpr
}

type rtest struct {
	o                  obj
	name               string
	target, qual, cmp  string
	blanks             bool
	e                  *rexpr
	resolvedToRuleKind bool
}

type redit struct {
	o             obj
	name          string
	mode, binding string
	es            []*rexpr
}

type rrule struct {
	target string // pattern, font, scan
	tests  []rtest
	edits  []redit
	alias  bool
}

func promoteM(v, u interface{}) interface{} {
	switch x := v.(type) {
	case fontconfig.Int:
		if _, ok := u.(fontconfig.Range); ok {
			return fontconfig.Range{Begin: float32(x), End: float32(x)}
		}
	case fontconfig.Float:
		if _, ok := u.(fontconfig.Range); ok {
			return fontconfig.Range{Begin: float32(x), End: float32(x)}
		}
	case nil:
		switch u.(type) {
		case fontconfig.Matrix:
			return fontconfig.Matrix{Xx: 1, Yy: 1}
		case mchars:
			return mchars{}
		case mlangs:
			return mlangs{}
		}
	case fontconfig.String:
		if _, ok := u.(mlangs); ok {
			if x == "" {
				return mlangs{}
			}
			return mlangs(langModel([]string{string(x)}))
		}
	}
	return v
}

func num(v interface{}) (float64, bool) {
	switch v := v.(type) {
	case fontconfig.Int:
		return float64(v), true
	case fontconfig.Float:
		return float64(v), true
	}
	return 0, false
}

func sameLangs(a, b mlangs) bool {
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return len(a) == len(b)
}

func compareM(l interface{}, op string, r interface{}, blanks bool) bool {
	neg := op == "not_eq" || op == "not_contains"
	l = promoteM(l, r)
	r = promoteM(r, l)
	if a, ok := num(l); ok {
		b, ok := num(r)
		if !ok {
			return neg
		}
		switch op {
		case "eq", "contains":
			return a == b
		case "not_eq", "not_contains":
			return a != b
		case "less":
			return a < b
		case "less_eq":
			return a <= b
		case "more":
			return a > b
		}
		return a >= b
	}
	switch a := l.(type) {
	case fontconfig.Bool:
		b, ok := r.(fontconfig.Bool)
		if !ok {
			return neg
		}
		dl, dr := a == fontconfig.DontCare, b == fontconfig.DontCare
		switch op {
		case "eq":
			return a == b
		case "not_eq":
			return a != b
		case "contains":
			return a == b || dl
		case "not_contains":
			return !(a == b || dl)
		case "less":
			return a != b && dr
		case "less_eq":
			return a == b || dr
		case "more":
			return a != b && dl
		}
		return a == b || dl
	case fontconfig.String:
		b, ok := r.(fontconfig.String)
		if !ok {
			return neg
		}
		x, y := strings.ToLower(string(a)), strings.ToLower(string(b))
		if blanks && (op == "eq" || op == "not_eq") {
			x, y = normName(x), normName(y)
		}
		switch op {
		case "eq":
			return x == y
		case "not_eq":
			return x != y
		case "contains":
			return strings.Contains(x, y)
		case "not_contains":
			return !strings.Contains(x, y)
		}
		return false
	case fontconfig.Matrix:
		b, ok := r.(fontconfig.Matrix)
		if !ok {
			return neg
		}
		switch op {
		case "eq", "contains":
			return a == b
		case "not_eq", "not_contains":
			return a != b
		}
		return false
	case mchars:
		b, ok := r.(mchars)
		if !ok {
			return neg
		}
		switch op {
		case "contains":
			return subset(b, a)
		case "not_contains":
			return !subset(b, a)
		case "eq":
			return sameRunes(a, b)
		case "not_eq":
			return !sameRunes(a, b)
		}
		return false
	case mlangs:
		b, ok := r.(mlangs)
		if !ok {
			return neg
		}
		switch op {
		case "contains":
			return setIncludes(a, b)
		case "not_contains":
			return !setIncludes(a, b)
		case "eq":
			return sameLangs(a, b)
		case "not_eq":
			return !sameLangs(a, b)
		}
		return false
	case fontconfig.Range:
		b, ok := r.(fontconfig.Range)
		if !ok {
			return neg
		}
		in := a.Begin >= b.Begin && a.End <= b.End
		switch op {
		case "eq":
			return a == b
		case "not_eq":
			return a != b
		case "contains":
			return in
		case "not_contains":
			return !in
		case "less":
			return a.End < b.Begin
		case "less_eq":
			return a.End <= b.Begin
		case "more":
			return a.Begin > b.End
		}
		return a.Begin >= b.End
	}
	// no value
	if r != nil {
		return neg
	}
	return op == "eq" || op == "contains"
}

var constants = map[string]int{"thin": 0, "bold": 200, "regular": 80, "light": 50, "black": 210, "roman": 0, "italic": 100, "oblique": 110, "condensed": 75, "expanded": 125,
	"mono": 100, "dual": 90, "rgb": 1, "none": 5, "hintslight": 1, "hintfull": 3, "lcddefault": 1, "charcell": 110, "book": 75, "demibold": 180, "normal": 100}

type evalCtx struct {
	p, query mpat
	kind     string
	unclear  bool // something not specified has been evaluated
}

func (c *evalCtx) eval(e *rexpr) interface{} {
	switch e.op {
	case "leaf":
		return toModel(e.v)
	case "matrix":
		var f [4]float32
		for i, k := range e.kids {
			v, ok := num(c.eval(k))
			if !ok {
				return nil
			}
			f[i] = float32(v)
		}
		return fontconfig.Matrix{Xx: f[0], Xy: f[1], Yx: f[2], Yy: f[3]}
	case "name":
		m := c.p
		if c.kind == "font" && e.tgt == "pattern" {
			m = c.query
		} else if c.kind == "pattern" && e.tgt == "font" {
			return nil
		}
		if l := m[e.o]; len(l) != 0 {
			return l[0].v
		}
		return nil
	case "const":
		return fontconfig.Int(constants[e.name])
	case "if":
		b, ok := c.eval(e.kids[0]).(fontconfig.Bool)
		if !ok {
			return nil
		}
		if b != 0 {
			return c.eval(e.kids[1])
		}
		return c.eval(e.kids[2])
	case "eq", "not_eq", "less", "less_eq", "more", "more_eq", "contains", "not_contains":
		if compareM(c.eval(e.kids[0]), e.op, c.eval(e.kids[1]), false) {
			return fontconfig.True
		}
		return fontconfig.False
	case "not":
		b, ok := c.eval(e.kids[0]).(fontconfig.Bool)
		if !ok {
			return nil
		}
		if b == 0 {
			return fontconfig.True
		}
		return fontconfig.False
	case "floor", "ceil", "round", "trunc":
		v := c.eval(e.kids[0])
		if _, ok := v.(fontconfig.Int); ok {
			return v
		}
		f, ok := num(v)
		if !ok {
			return nil
		}
		switch e.op {
		case "floor":
			f = math.Floor(f)
		case "ceil":
			f = math.Ceil(f)
		case "round":
			f = math.Round(f)
		default:
			f = math.Trunc(f)
		}
		if math.Abs(f) >= 1<<31 || math.IsNaN(f) {
			c.unclear = true
			return nil
		}
		return fontconfig.Int(f)
	}
	// binary operations, the last ones first
	r := c.eval(e.kids[len(e.kids)-1])
	for i := len(e.kids) - 2; i >= 0; i-- {
		r = c.binary(e.op, c.eval(e.kids[i]), r)
	}
	return r
}

func (c *evalCtx) binary(op string, l, r interface{}) interface{} {
	l = promoteM(l, r)
	r = promoteM(r, l)
	if a, ok := num(l); ok {
		b, ok := num(r)
		if !ok {
			return nil
		}
		_, i1 := l.(fontconfig.Int)
		_, i2 := r.(fontconfig.Int)
		if !(i1 && i2) {
			a, b = float64(float32(a)), float64(float32(b))
		}
		var f float64
		switch op {
		case "plus":
			f = a + b
		case "minus":
			f = a - b
		case "times":
			f = a * b
		case "divide":
			f = a / b
		default:
			return nil
		}
		if !(i1 && i2) {
			f = float64(float32(f))
		}
		if f == math.Trunc(f) && f >= math.MinInt32 && f <= math.MaxInt32 {
			return fontconfig.Int(f)
		}
		return fontconfig.Float(f)
	}
	switch a := l.(type) {
	case fontconfig.Bool:
		b, ok := r.(fontconfig.Bool)
		if !ok {
			return nil
		}
		var v bool
		switch op {
		case "or":
			v = a != 0 || b != 0
		case "and":
			v = a != 0 && b != 0
		default:
			return nil
		}
		if v {
			return fontconfig.True
		}
		return fontconfig.False
	case fontconfig.String:
		if b, ok := r.(fontconfig.String); ok && op == "plus" {
			return a + b
		}
	case fontconfig.Matrix:
		if b, ok := r.(fontconfig.Matrix); ok && op == "times" {
			return fontconfig.Matrix{
				Xx: a.Xx*b.Xx + a.Xy*b.Yx, Xy: a.Xx*b.Xy + a.Xy*b.Yy,
				Yx: a.Yx*b.Xx + a.Yy*b.Yx, Yy: a.Yx*b.Xy + a.Yy*b.Yy,
			}
		}
	case mchars:
		if b, ok := r.(mchars); ok {
			out := mchars{}
			for k := range a {
				if op == "plus" || op == "minus" && !b[k] {
					out[k] = true
				}
			}
			if op == "plus" {
				for k := range b {
					out[k] = true
				}
			} else if op != "minus" {
				return nil
			}
			return out
		}
	case mlangs:
		if b, ok := r.(mlangs); ok {
			out := mlangs{}
			for k := range a {
				if op == "plus" || op == "minus" && !b[k] {
					out[k] = true
				}
			}
			if op == "plus" {
				for k := range b {
					out[k] = true
				}
			} else if op != "minus" {
				return nil
			}
			return out
		}
	}
	return nil
}

func kindOfModel(o obj, v interface{}) bool {
	k, ok := objKinds[o]
	if !ok {
		k = kAny
	}
	switch v.(type) {
	case mchars:
		return k == kCharset || k == kAny
	case mlangs:
		return k == kLang || k == kAny
	}
	return validType(k, v.(fontconfig.Value))
}

// apply a rule; stats counts what happens. false if the behaviour is not specified
func (r *rrule) apply(t *run.T, p, query mpat) bool {
	c := &evalCtx{p: p, query: query, kind: r.target}
	matched := map[obj]*melt{}
	gone := map[obj]bool{}
	for _, ts := range r.tests {
		m := p
		target := ts.target
		if target == "" {
			target = r.target
		}
		if r.target == "font" && target == "pattern" {
			m = query
		}
		l := m[ts.o]
		if len(l) == 0 {
			if ts.qual == "all" {
				delete(matched, ts.o) // as in the C library
				continue
			}
			t.Count("test_failed", 1)
			return true
		}
		ce := *c
		ce.p = m
		v := ce.eval(ts.e)
		if ce.unclear {
			return false
		}
		idx := -1
		if ts.qual == "all" {
			idx = 0
		}
		for i, x := range l {
			ok := compareM(x.v, ts.cmp, v, ts.blanks)
			if ts.qual == "all" && !ok {
				idx = -1
				break
			}
			if ts.qual != "all" && ok {
				idx = i
				break
			}
		}
		if idx >= 0 && matched[ts.o] == nil && target == r.target {
			matched[ts.o] = l[idx]
		}
		if idx < 0 || ts.qual == "first" && idx != 0 || ts.qual == "not_first" && idx == 0 {
			t.Count("test_failed", 1)
			return true
		}
	}
	t.Count("applied", 1)
	for _, e := range r.edits {
		var l []*melt
		for _, x := range e.es {
			v := c.eval(x)
			if c.unclear {
				return false
			}
			b := map[string]byte{"": 'w', "weak": 'w', "strong": 's', "same": '='}[e.binding]
			l = append(l, &melt{v, b})
		}
		// the missing values are skipped
		k := 0
		for _, x := range l {
			if x.v != nil {
				l[k] = x
				k++
			}
		}
		l = l[:k]
		valid := true
		for _, x := range l {
			if !kindOfModel(e.o, x.v) {
				valid = false
			}
		}
		mt := matched[e.o]
		same := byte('w')
		pos := -1
		uses := e.mode == "assign" || e.mode == "" || e.mode == "prepend" || e.mode == "append" || e.mode == "delete"
		if uses && gone[e.o] {
			t.Count("unspecified", 1)
			return false
		}
		if uses && mt != nil {
			for i, x := range p[e.o] {
				if x == mt {
					pos = i
				}
			}
			if pos < 0 {
				t.Count("unspecified", 1)
				return false
			}
			same = mt.binding
			t.Count("at_match", 1)
		}
		for _, x := range l {
			if x.binding == '=' {
				x.binding = same
			}
		}
		if !valid {
			t.Count("bad_type", 1)
			l = nil
		}
		cur := p[e.o]
		insert := func(at int) {
			n := append([]*melt(nil), cur[:at]...)
			n = append(n, l...)
			p[e.o] = append(n, cur[at:]...)
		}
		mode := e.mode
		if mode == "" {
			mode = "assign"
		}
		t.Count("edit_"+mode, 1)
		if pos < 0 {
			mode = map[string]string{"assign": "assign_replace", "prepend": "prepend_first", "append": "append_last", "delete": "delete_all"}[mode]
			if mode == "" {
				mode = e.mode
			}
		}
		switch mode {
		case "assign":
			n := append([]*melt(nil), cur[:pos]...)
			n = append(n, l...)
			p[e.o] = append(n, cur[pos+1:]...)
			delete(matched, e.o)
			if !valid {
				gone[e.o] = true // the place is lost
			} else if len(l) > 0 {
				matched[e.o] = l[0]
			}
		case "assign_replace":
			p[e.o] = l
			delete(matched, e.o)
		case "prepend":
			insert(pos)
		case "prepend_first":
			insert(0)
		case "append":
			insert(pos + 1)
		case "append_last":
			insert(len(cur))
		case "delete":
			p[e.o] = append(append([]*melt(nil), cur[:pos]...), cur[pos+1:]...)
			gone[e.o] = true
		case "delete_all":
			if matched[e.o] != nil {
				gone[e.o] = true
			}
			p[e.o] = nil
		}
	}
	return true
}

// ---------------------------------------------------------- generator of rules

var substObjs = []obj{
	fontconfig.FAMILY, fontconfig.FAMILY, fontconfig.FAMILY, fontconfig.FAMILY, fontconfig.STYLE, fontconfig.LANG, fontconfig.LANG, fontconfig.CHARSET,
	fontconfig.MATRIX, fontconfig.SIZE, fontconfig.WEIGHT, fontconfig.PIXEL_SIZE, fontconfig.SLANT, fontconfig.SPACING, fontconfig.ANTIALIAS, fontconfig.HINTING,
	fontconfig.FOUNDRY, fontconfig.DPI, fontconfig.HINT_STYLE, fontconfig.FONTVERSION,
	fontconfig.FirstCustomObject + 21, fontconfig.FirstCustomObject + 22,
}

func objName(o obj) string {
	if o >= fontconfig.FirstCustomObject {
		return fmt.Sprintf("mine%d", o-fontconfig.FirstCustomObject-20)
	}
	return o.String()
}

func kindOf(o obj) int {
	if k, ok := objKinds[o]; ok {
		return k
	}
	return kAny
}

var ruleFamilies = []string{"A", "B", "a", "Aa", "a A", "Dejavu", "deja vu", "é", "É", "B "}

// genLeaf gives a constant value of a kind
func genLeaf(t *run.T, k int) fontconfig.Value {
	switch k {
	case kString:
		return fontconfig.String(ruleFamilies[t.IntN(len(ruleFamilies))])
	case kInt:
		return fontconfig.Int(run.Pick(t, 0, 1, 2, 3, 100, 200, -1, 12, 16777217, 16777216, 2000000000))
	case kFloat:
		if t.Chance(0.5) {
			return genLeaf(t, kInt)
		}
		return fontconfig.Float(run.Pick(t, 0.5, 1, 2.5, 12, 100, -1.5, 0.25))
	case kRange:
		if t.Chance(0.3) {
			a := run.Pick[float32](t, 0, 50, 80, 100)
			return fontconfig.Range{Begin: a, End: a + run.Pick[float32](t, 0, 20, 50)}
		}
		return genLeaf(t, kFloat)
	case kBool:
		return run.Pick(t, fontconfig.False, fontconfig.True, fontconfig.DontCare)
	case kMatrix:
		return fontconfig.Matrix{Xx: run.Pick[float32](t, 1, 2, 0.5), Xy: run.Pick[float32](t, 0, 0.25), Yx: run.Pick[float32](t, 0, -1), Yy: run.Pick[float32](t, 1, 2)}
	case kCharset:
		c := genCset(t, 6, 3)
		for len(c.m) == 0 {
			c = genCset(t, 6, 3)
		}
		return c.fc
	case kLang:
		if t.Chance(0.5) {
			return fontconfig.String(run.Pick(t, "en", "fr", "zh-cn", "zh-tw", "zh", "tlh", "und", "de"))
		}
		n := t.Range(1, 3)
		var ls []string
		for ; n > 0; n-- {
			ls = append(ls, run.Pick(t, "en", "fr", "zh-cn", "zh-tw", "zh", "tlh", "und", "de"))
		}
		return fontconfig.NewLangset(strings.Join(ls, "|"))
	}
	return genLeaf(t, t.IntN(kAny))
}

func leaf(v fontconfig.Value) *rexpr { return &rexpr{op: "leaf", v: v} }

var constOf = map[obj][]string{
	fontconfig.WEIGHT: {"thin", "bold", "regular", "light", "black", "book", "demibold"}, fontconfig.SLANT: {"roman", "italic", "oblique"}, fontconfig.WIDTH: {"condensed", "expanded", "normal"},
	fontconfig.SPACING: {"mono", "dual", "charcell"}, fontconfig.RGBA: {"rgb", "none"}, fontconfig.HINT_STYLE: {"hintslight", "hintfull"}, fontconfig.LCD_FILTER: {"lcddefault"},
}

// genExpr gives an expression accepted where a value of kind k is expected
func genExpr(t *run.T, k int, depth int, target string) *rexpr {
	if k == kAny {
		k = t.IntN(kAny)
	}
	if depth <= 0 || t.Chance(0.35) {
		switch t.IntN(5) {
		case 0: // a value of the pattern or of the query
			for i := 0; i < 30; i++ {
				o := substObjs[t.IntN(len(substObjs))]
				ko := kindOf(o)
				ok := ko == k || ko == kAny || k == kFloat && ko == kInt || k == kInt && ko == kFloat || k == kRange && (ko == kInt || ko == kFloat) ||
					k == kString && ko == kLang || k == kLang && ko == kString
				if ok {
					return &rexpr{op: "name", o: o, name: objName(o), tgt: run.Pick(t, "", "", "default", "pattern", "font")}
				}
			}
		case 1:
			if k == kInt || k == kFloat {
				o := run.Pick(t, fontconfig.SLANT, fontconfig.SPACING, fontconfig.RGBA, fontconfig.HINT_STYLE)
				return &rexpr{op: "const", name: run.Pick(t, constOf[o]...)}
			}
			if k == kRange {
				o := run.Pick(t, fontconfig.SLANT, fontconfig.WEIGHT, fontconfig.WIDTH)
				return &rexpr{op: "const", name: run.Pick(t, constOf[o]...)}
			}
		case 2:
			if k == kMatrix {
				e := &rexpr{op: "matrix"}
				for i := 0; i < 4; i++ {
					e.kids = append(e.kids, genExpr(t, kFloat, depth-1, target))
				}
				return e
			}
		}
		return leaf(genLeaf(t, k))
	}
	sub := func(k int) *rexpr { return genExpr(t, k, depth-1, target) }
	many := func(op string, k int) *rexpr {
		e := &rexpr{op: op}
		for n := run.Pick(t, 2, 2, 2, 3, 1); n > 0; n-- {
			e.kids = append(e.kids, sub(k))
		}
		return e
	}
	if t.Chance(0.15) {
		return &rexpr{op: "if", kids: []*rexpr{sub(kBool), sub(k), sub(k)}}
	}
	switch k {
	case kInt, kFloat, kRange:
		if t.Chance(0.3) {
			return &rexpr{op: run.Pick(t, "floor", "ceil", "round", "trunc"), kids: []*rexpr{sub(kFloat)}}
		}
		return many(run.Pick(t, "plus", "minus", "times", "divide"), k)
	case kString:
		return many("plus", kString)
	case kMatrix:
		return many("times", kMatrix)
	case kCharset:
		return many(run.Pick(t, "plus", "minus"), kCharset)
	case kLang:
		return many(run.Pick(t, "plus", "minus"), kLang)
	case kBool:
		switch t.IntN(3) {
		case 0:
			return many(run.Pick(t, "or", "and"), kBool)
		case 1:
			return &rexpr{op: "not", kids: []*rexpr{sub(kBool)}}
		}
		k2 := t.IntN(kAny)
		k3 := k2
		if t.Chance(0.1) {
			k3 = t.IntN(kAny)
		}
		return &rexpr{op: run.Pick(t, compareNames...), kids: []*rexpr{sub(k2), sub(k3)}}
	}
	return leaf(genLeaf(t, k))
}

var compareNames = []string{"eq", "not_eq", "less", "less_eq", "more", "more_eq", "contains", "not_contains"}

func (e *rexpr) xml() string {
	switch e.op {
	case "leaf":
		return xmlValue(e.v)
	case "name":
		a := ""
		if e.tgt != "" {
			a = ` target="` + e.tgt + `"`
		}
		return "<name" + a + ">" + e.name + "</name>"
	case "const":
		return "<const>" + e.name + "</const>"
	}
	s := "<" + e.op + ">"
	for _, k := range e.kids {
		s += k.xml()
	}
	return s + "</" + e.op + ">"
}

func genRule(t *run.T) rrule {
	r := rrule{target: run.Pick(t, "pattern", "pattern", "pattern", "font", "font", "scan")}
	objs := []obj{substObjs[t.IntN(len(substObjs))], substObjs[t.IntN(len(substObjs))]}
	if r.target == "scan" {
		for i := range objs {
			for objs[i] >= fontconfig.FirstCustomObject {
				objs[i] = substObjs[t.IntN(len(substObjs))]
			}
		}
	}
	genTest := func() rtest {
		o := objs[t.IntN(2)]
		if t.Chance(0.2) {
			o = substObjs[t.IntN(len(substObjs))]
		}
		ts := rtest{o: o, name: objName(o), qual: run.Pick(t, "", "any", "any", "all", "first", "not_first"), blanks: t.Chance(0.3)}
		ts.cmp = run.Pick(t, "eq", "eq", "eq", "not_eq", "contains", "not_contains", "less", "less_eq", "more", "more_eq")
		ts.target = run.Pick(t, "", "", "", "", "default", "pattern", "font", "scan")
		ts.e = genExpr(t, kindOf(o), run.Pick(t, 0, 0, 0, 1, 2), r.target)
		return ts
	}
	if t.Chance(0.2) {
		// alias
		r.alias = true
		r.target = "pattern"
		for n := run.Pick(t, 0, 0, 1); n > 0; n-- {
			r.tests = append(r.tests, genTest())
		}
		fam := func() *rexpr { return leaf(fontconfig.String(ruleFamilies[t.IntN(len(ruleFamilies))])) }
		r.tests = append(r.tests, rtest{o: fontconfig.FAMILY, name: "family", cmp: "eq", blanks: true, e: fam(), qual: "any"})
		bind := run.Pick(t, "", "weak", "strong", "same")
		for _, mode := range []string{"prepend", "append", "append_last"} {
			if t.Chance(0.6) {
				e := redit{o: fontconfig.FAMILY, name: "family", mode: mode, binding: bind}
				for n := t.Range(1, 3); n > 0; n-- {
					e.es = append(e.es, fam())
				}
				r.edits = append(r.edits, e)
			}
		}
		return r
	}
	for n := run.Pick(t, 0, 1, 1, 1, 2, 3); n > 0; n-- {
		r.tests = append(r.tests, genTest())
	}
	for n := run.Pick(t, 0, 1, 1, 1, 2, 3, 4); n > 0 || len(r.tests)+len(r.edits) == 0; n-- {
		o := objs[t.IntN(2)]
		e := redit{o: o, name: objName(o), binding: run.Pick(t, "", "weak", "strong", "same")}
		e.mode = run.Pick(t, "", "assign", "assign", "assign_replace", "prepend", "prepend", "prepend_first", "append", "append", "append_last", "delete", "delete_all")
		if !strings.HasPrefix(e.mode, "delete") {
			for k := run.Pick(t, 0, 1, 1, 1, 1, 2, 3); k > 0; k-- {
				kind := kindOf(o)
				e.es = append(e.es, genExpr(t, kind, run.Pick(t, 0, 0, 1, 2, 3), r.target))
			}
		}
		r.edits = append(r.edits, e)
	}
	return r
}

func (r *rrule) xml() string {
	var sb strings.Builder
	attr := func(k, v string) {
		if v != "" {
			fmt.Fprintf(&sb, ` %s="%s"`, k, v)
		}
	}
	test := func(ts rtest) {
		sb.WriteString("<test")
		attr("name", ts.name)
		attr("qual", ts.qual)
		attr("compare", ts.cmp)
		attr("target", ts.target)
		if ts.blanks {
			attr("ignore-blanks", "true")
		}
		sb.WriteString(">" + ts.e.xml() + "</test>")
	}
	if r.alias {
		bind := ""
		if len(r.edits) > 0 {
			bind = r.edits[0].binding
		}
		sb.WriteString("<alias")
		attr("binding", bind)
		sb.WriteString(">")
		for _, ts := range r.tests[:len(r.tests)-1] {
			test(ts)
		}
		family := func(e *rexpr) {
			sb.WriteString("<family>" + strings.TrimSuffix(strings.TrimPrefix(e.xml(), "<string>"), "</string>") + "</family>")
		}
		family(r.tests[len(r.tests)-1].e)
		for _, e := range r.edits {
			tag := map[string]string{"prepend": "prefer", "append": "accept", "append_last": "default"}[e.mode]
			sb.WriteString("<" + tag + ">")
			for _, x := range e.es {
				family(x)
			}
			sb.WriteString("</" + tag + ">")
		}
		sb.WriteString("</alias>")
		return sb.String()
	}
	sb.WriteString("<match")
	attr("target", r.target)
	sb.WriteString(">")
	for _, ts := range r.tests {
		test(ts)
	}
	for _, e := range r.edits {
		sb.WriteString("<edit")
		attr("name", e.name)
		attr("mode", e.mode)
		attr("binding", e.binding)
		sb.WriteString(">")
		for _, x := range e.es {
			sb.WriteString(x.xml())
		}
		sb.WriteString("</edit>")
	}
	sb.WriteString("</match>")
	return sb.String()
}

// resolve the default target of the tests
func (r *rrule) resolve() {
	for i := range r.tests {
		if r.tests[i].target == "default" || r.tests[i].target == "" {
			r.tests[i].target = r.target
		}
	}
}

func genSubject(t *run.T) fontconfig.Pattern {
	p := fontconfig.NewPattern()
	for i := run.Pick(t, 0, 1, 2, 4, 6); i > 0; i-- {
		o := substObjs[t.IntN(len(substObjs))]
		if o == fontconfig.FAMILY || t.Chance(0.8) {
			for k := t.Range(1, 3); k > 0; k-- {
				p.Add(o, genLeaf(t, kindOf(o)), true)
			}
		}
	}
	if t.Chance(0.6) {
		for k := t.Range(1, 3); k > 0; k-- {
			p.Add(fontconfig.FAMILY, genLeaf(t, kString), true)
		}
	}
	return p
}

// the custom objects are numbered in their order of appearance
const preamble = `<match target="font"><edit name="mine1" mode="assign"><int>1</int></edit><edit name="mine2" mode="assign"><int>2</int></edit></match>`

// F08: rules
func F08() *run.Prop {
	exe, _ := os.Executable()
	return &run.Prop{
		ID:    "F08",
		Rule:  "Substitute against an interpreter of the rules",
		Quick: 60000, Thorough: 2500000,
		Need: map[string]int64{"applied": 1000, "test_failed": 1000, "at_match": 1000, "bad_type": 10, "edit_assign": 100, "edit_prepend": 100, "edit_append": 100, "edit_delete": 100, "edit_assign_replace": 100, "edit_delete_all": 100, "edit_prepend_first": 100, "edit_append_last": 100, "compared": 5000},
		Run: func(t *run.T) {
			cfg := fontconfig.NewConfig()
			load := func(s string) {
				if err := cfg.LoadFromMemory(strings.NewReader("<fontconfig>" + s + "</fontconfig>")); err != nil {
					t.Step("%s", s)
					t.Failf("refused", "a valid configuration is refused: %s", err)
				}
			}
			load(preamble)
			var rules []rrule
			for f := run.Pick(t, 1, 1, 2); f > 0; f-- {
				s := ""
				for n := t.Range(1, 4); n > 0; n-- {
					r := genRule(t)
					s += r.xml() + "\n"
					r.resolve()
					rules = append(rules, r)
				}
				t.Step("%s", s)
				load(s)
			}

			for k := t.Range(1, 3); k > 0; k-- {
				p, query := genSubject(t), genSubject(t)
				kind := run.Pick(t, "pattern", "pattern", "font", "font", "scan")
				p0, q0 := p.Duplicate(), query.Duplicate()
				t.Step("%s %s [query %s]", kind, canonObserved(p), canonObserved(query))
				m, mq := mpatOf(p), mpatOf(query)
				switch kind {
				case "pattern":
					found := false
					for _, e := range m[fontconfig.LANG] {
						switch v := e.v.(type) {
						case fontconfig.String:
							l := lower(string(v))
							found = found || l == "en" || l == "und"
						case mlangs:
							found = found || setContains(v, "en") || setContains(v, "und")
						}
					}
					if !found {
						m[fontconfig.LANG] = append(m[fontconfig.LANG], &melt{fontconfig.String("en"), 'w'})
					}
					m[fontconfig.PRGNAME] = []*melt{{fontconfig.String(exe), 's'}}
				case "font":
					for i := obj(1); i <= 2; i++ {
						m[fontconfig.FirstCustomObject+20+i] = []*melt{{fontconfig.Int(i), 'w'}}
					}
				}
				specified := true
				for i := range rules {
					if rules[i].target == kind && specified {
						specified = rules[i].apply(t, m, mq)
					}
				}
				kinds := map[string]func(){
					"pattern": func() { cfg.Substitute(p, nil, fontconfig.MatchQuery) },
					"font":    func() { cfg.Substitute(p, query, fontconfig.MatchResult) },
					"scan":    func() { cfg.Substitute(p, nil, fontconfig.MatchScan) },
				}
				kinds[kind]()
				if canonObserved(query) != canonObserved(q0) {
					t.Failf("query", "Substitute changed the query")
				}
				if !specified {
					continue
				}
				t.Count("compared", 1)
				got, want := canonObserved(p), m.canon()
				if got != want {
					t.Failf("result", "%s: %s\n gives %s\n want  %s", kind, canonObserved(p0), got, want)
				}
				t.Distinct(fmt.Sprint(len(rules)), want)
				// the values put in the pattern belong to it
				for o := range p {
					for _, v := range values(p, o) {
						if c, ok := v.(fontconfig.Charset); ok {
							for i := 0; i < 10; i++ {
								c.AddChar(genRune(t, 3))
								c.DelChar(genRune(t, 3))
							}
						}
					}
				}
				p = p0
				kinds[kind]()
				if canonObserved(p) != want {
					t.Failf("again", "applying the rules a second time to the same pattern gives %s\n want %s", canonObserved(p), want)
				}
			}
		},
	}
}
