package fc

import (
	"fmt"
	"math"
	"sort"
	"strings"

	fontconfig "github.com/benoitkugler/textprocessing/fontconfig"
	"verifharness/run"
)

const tagObj = fontconfig.FirstCustomObject + 1

func normName(s string) string {
	return strings.NewReplacer(" ", "", "\t", "").Replace(strings.ToLower(s))
}

// ------------------------------------------------------------ generators

var (
	familyPool = []string{"DejaVu Sans", "dejavusans", "DejaVu Serif", "Times", "TIMES", "Times New Roman", "Helvetica", "Arial", "arial ", " Arial", "Noto Sans CJK", "Serif", "sans-serif", "日本", "", "A"}
	stylePool  = []string{"Regular", "Bold", "bold", "Italic", "Bold Italic", "Book", ""}
	psPool     = []string{"DejaVuSans", "DejaVuSans-Bold", "DejaVuSerif", "dejavu-sans", "Times-Roman", "TimesNewRoman", "", "A"}
	filePool   = []string{"/a/b.ttf", "/a/B.ttf", "/a/c.otf", "/a", "b.ttf", "", "/a/b.ttf.gz"}
	fmtPool    = []string{"TrueType", "CFF", "Type 1", "truetype"}
)

// the objects which order the fonts
var matchObjs = []obj{
	fontconfig.FILE, fontconfig.FONTFORMAT, fontconfig.VARIABLE, fontconfig.SCALABLE, fontconfig.COLOR, fontconfig.FOUNDRY,
	fontconfig.CHARSET, fontconfig.FAMILY, fontconfig.POSTSCRIPT_NAME, fontconfig.LANG, fontconfig.SYMBOL, fontconfig.SPACING,
	fontconfig.SIZE, fontconfig.PIXEL_SIZE, fontconfig.STYLE, fontconfig.SLANT, fontconfig.WEIGHT, fontconfig.WIDTH,
	fontconfig.FONT_HAS_HINT, fontconfig.DECORATIVE, fontconfig.ANTIALIAS, fontconfig.RASTERIZER, fontconfig.OUTLINE,
	fontconfig.ORDER, fontconfig.FONTVERSION,
}

// narrow is set in the cases where the fonts are near each other
var narrow bool

func rangeWidth(t *run.T) int {
	if narrow {
		return run.Pick(t, 0, 2, 4, 6)
	}
	return run.Pick(t, 0, 1, 30, 100, 800)
}

func genMatchValue(t *run.T, o obj, font bool) fontconfig.Value {
	str := func(l []string) fontconfig.Value { return fontconfig.String(l[t.IntN(len(l))]) }
	switch o {
	case fontconfig.FILE:
		if !font && t.Chance(0.5) {
			return fontconfig.String(run.Pick(t, "*", "/a/*", "*.ttf", "/a/?.ttf", "*b*", "/a/*.otf", "*.pfb", "?", "**", "/*/b.*", "*/b.ttf"))
		}
		return str(filePool)
	case fontconfig.FONTFORMAT:
		return str(fmtPool)
	case fontconfig.FOUNDRY, fontconfig.RASTERIZER, fontconfig.STYLE:
		return str(stylePool)
	case fontconfig.FAMILY:
		return str(familyPool)
	case fontconfig.POSTSCRIPT_NAME:
		return str(psPool)
	case fontconfig.CHARSET:
		return genCset(t, run.Pick(t, 4, 30), 3).fc
	case fontconfig.LANG:
		if !font && t.Chance(0.5) || t.Chance(0.1) {
			if t.Chance(0.15) {
				return fontconfig.String(run.Pick(t, "und", "und-zmth", "und-zsye", "und-xx", "UND-Zmth", "un", "unx"))
			}
			return fontconfig.String(genLang(t))
		}
		return fontconfig.NewLangset(strings.Join(genLangs(t, 4), "|"))
	case fontconfig.SPACING:
		return fontconfig.Int(run.Pick(t, 0, 90, 100, 110))
	case fontconfig.SLANT:
		return fontconfig.Int(run.Pick(t, 0, 100, 110))
	case fontconfig.ORDER:
		return fontconfig.Int(t.Range(0, 3))
	case fontconfig.FONTVERSION:
		if !font && t.Chance(0.7) {
			return fontconfig.Int(0x7fffffff)
		}
		return fontconfig.Int(run.Pick(t, 65536, 65537, 65540, 131072, 155320, 155319, 0, -1, 0x7ffffff0))
	case fontconfig.PIXEL_SIZE:
		if t.Chance(0.5) {
			return fontconfig.Int(t.Range(5, 20))
		}
		return fontconfig.Float(t.Range(5, 20))
	case fontconfig.SIZE, fontconfig.WEIGHT, fontconfig.WIDTH:
		a := run.Pick[int](t, 0, 10, 12, 40, 50, 80, 100, 180, 200, 215)
		if narrow {
			// adjacent and overlapping ranges
			a = run.Pick[int](t, 10, 12, 16)
		}
		switch t.IntN(3) {
		case 0:
			return fontconfig.Int(a)
		case 1:
			return fontconfig.Float(a)
		}
		return fontconfig.Range{Begin: float32(a), End: float32(a + rangeWidth(t))}
	}
	v := genValue(t, objKinds[o])
	if s, ok := v.(fontconfig.String); ok {
		v = fontconfig.String(strings.ReplaceAll(string(s), "\x00", "0")) // a NUL ends the names of languages
	}
	return v
}

// bval is a value with its binding
type bval struct {
	v    fontconfig.Value
	weak bool
}

type bmodel map[obj][]bval

// xmlValue writes a value for the rules
func xmlValue(v fontconfig.Value) string {
	esc := strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;")
	switch v := v.(type) {
	case fontconfig.Int:
		return fmt.Sprintf("<int>%d</int>", int32(v))
	case fontconfig.Float:
		return fmt.Sprintf("<double>%s</double>", strings.TrimSuffix(fmt.Sprintf("%.9f", float64(v)), "000000000")+"0")
	case fontconfig.String:
		return "<string>" + esc.Replace(string(v)) + "</string>"
	case fontconfig.Bool:
		return "<bool>" + map[fontconfig.Bool]string{0: "false", 1: "true", 2: "dontcare"}[v] + "</bool>"
	case fontconfig.Charset:
		return xmlCharset(cset{m: runesOf(v)})
	case fontconfig.Langset:
		s := "<langset>"
		for _, l := range strings.Split(v.String(), "|") {
			s += "<string>" + esc.Replace(l) + "</string>"
		}
		return s + "</langset>"
	case fontconfig.Range:
		return fmt.Sprintf("<range><double>%g</double><double>%g</double></range>", v.Begin, v.End)
	case fontconfig.Matrix:
		return fmt.Sprintf("<matrix><double>%g</double><double>%g</double><double>%g</double><double>%g</double></matrix>", v.Xx, v.Xy, v.Yx, v.Yy)
	}
	return ""
}

// addWeak adds values with a weak binding, through a rule
func addWeak(t *run.T, p fontconfig.Pattern, o obj, vs []fontconfig.Value, last bool) {
	mode := "prepend_first"
	if last {
		mode = "append_last"
	}
	s := ""
	for _, v := range vs {
		s += xmlValue(v)
	}
	cfg, err := loadConfig(`<match target="font"><edit name="` + o.String() + `" mode="` + mode + `" binding="weak">` + s + `</edit></match>`)
	if err != nil {
		t.Failf("config", "%s", err)
	}
	n := len(values(p, o))
	cfg.Substitute(p, nil, fontconfig.MatchResult)
	if len(values(p, o)) != n+len(vs) {
		t.Failf("weak", "adding weak values to %s has no effect", o)
	}
}

func genQuery(t *run.T, objs []obj) (fontconfig.Pattern, bmodel) {
	p, m := fontconfig.NewPattern(), bmodel{}
	for _, o := range objs {
		if t.Chance(0.25) {
			continue
		}
		for n := run.Pick(t, 1, 1, 1, 2, 3); n > 0; n-- {
			v := genMatchValue(t, o, false)
			p.Add(o, v, true)
			m[o] = append(m[o], bval{v, false})
		}
	}
	for _, o := range []obj{fontconfig.FAMILY, fontconfig.POSTSCRIPT_NAME} {
		if t.Chance(0.3) && len(m[o]) != 0 {
			var vs []fontconfig.Value
			var bs []bval
			for n := t.Range(1, 2); n > 0; n-- {
				v := genMatchValue(t, o, false)
				if v == fontconfig.String("") || strings.TrimSpace(string(v.(fontconfig.String))) != string(v.(fontconfig.String)) {
					continue // not written the same in XML
				}
				vs = append(vs, v)
				bs = append(bs, bval{v, true})
			}
			if len(vs) == 0 {
				continue
			}
			last := t.Chance(0.5)
			addWeak(t, p, o, vs, last)
			if last {
				m[o] = append(m[o], bs...)
			} else {
				m[o] = append(bs, m[o]...)
			}
		}
	}
	return p, m
}

func genFonts(t *run.T, objs []obj, n int) (fontconfig.Fontset, []pmodel) {
	var (
		fs fontconfig.Fontset
		ms []pmodel
	)
	for i := 0; i < n; i++ {
		m := pmodel{}
		if i > 0 && (narrow || t.Chance(0.6)) {
			m = ms[t.IntN(i)].clone()
			o := objs[t.IntN(len(objs))]
			delete(m, o)
			if t.Chance(0.9) {
				m[o] = append(m[o], genMatchValue(t, o, true))
			}
			if t.Chance(0.2) {
				m[o] = append(m[o], genMatchValue(t, o, true))
			}
		} else {
			for _, o := range objs {
				if t.Chance(0.85) {
					m[o] = append(m[o], genMatchValue(t, o, true))
					if t.Chance(0.2) {
						m[o] = append(m[o], genMatchValue(t, o, true))
					}
				}
			}
		}
		m[tagObj] = []fontconfig.Value{fontconfig.Int(i)}
		ms = append(ms, m)
		p := fontconfig.NewPattern()
		for o, l := range m {
			for _, v := range l {
				p.Add(o, v, true)
			}
		}
		fs = append(fs, p)
	}
	return fs, ms
}

func pickObjs(t *run.T) []obj {
	var out []obj
	narrow = t.Chance(0.3)
	if narrow && t.Chance(0.7) {
		out = append(out, run.Pick(t, fontconfig.SIZE, fontconfig.WEIGHT, fontconfig.WIDTH, fontconfig.LANG, fontconfig.SIZE, fontconfig.CHARSET, fontconfig.FAMILY))
		if o := matchObjs[t.IntN(len(matchObjs))]; o != out[0] {
			out = append(out, o)
		}
		return out
	}
	n := run.Pick(t, 1, 2, 4, 8, len(matchObjs))
	for _, i := range t.Perm(len(matchObjs))[:n] {
		out = append(out, matchObjs[i])
	}
	return out
}

func (m bmodel) String() string {
	var os []obj
	for o := range m {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i] < os[j] })
	s := ""
	for _, o := range os {
		s += o.String() + "={"
		for _, b := range m[o] {
			s += canonValue(b.v)
			if b.weak {
				s += "(weak)"
			}
			s += ";"
		}
		s += "} "
	}
	return s
}

// ------------------------------------------------------------ distances

func bounds(v fontconfig.Value) (float64, float64, bool) {
	switch v := v.(type) {
	case fontconfig.Int:
		return float64(v), float64(v), true
	case fontconfig.Float:
		return float64(v), float64(v), true
	case fontconfig.Range:
		return float64(v.Begin), float64(v.End), true
	}
	return 0, 0, false
}

func globMatch(g, s string) bool {
	if g == "" {
		return s == ""
	}
	if g[0] == '*' {
		for i := 0; i <= len(s); i++ {
			if globMatch(g[1:], s[i:]) {
				return true
			}
		}
		return false
	}
	return s != "" && (g[0] == '?' || g[0] == s[0]) && globMatch(g[1:], s[1:])
}

func langOf(v fontconfig.Value) (map[string]bool, string, bool) {
	switch v := v.(type) {
	case fontconfig.Langset:
		return sliceSet(strings.Split(v.String(), "|")), "", true
	case fontconfig.String:
		return nil, string(v), false
	}
	return nil, "", false
}

func valueLangDistance(a, b fontconfig.Value) int {
	sa, la, oka := langOf(a)
	sb, lb, okb := langOf(b)
	switch {
	case oka && okb:
		return setsDistance(sa, sb)
	case oka:
		return setDistance(sa, lb)
	case okb:
		return setDistance(sb, la)
	}
	return langDistance(la, lb)
}

// distance between a requested value and the one of a font, and the value resulting
func distance(o obj, q, f fontconfig.Value) (float64, fontconfig.Value) {
	neq := func(b bool) float64 {
		if b {
			return 0
		}
		return 1
	}
	switch o {
	case fontconfig.FILE:
		a, b := string(q.(fontconfig.String)), string(f.(fontconfig.String))
		switch {
		case a == b:
			return 0, f
		case strings.ToLower(a) == strings.ToLower(b):
			return 1, f
		case globMatch(a, b):
			return 2, f
		}
		return 3, f
	case fontconfig.FAMILY:
		return neq(normName(string(q.(fontconfig.String))) == normName(string(f.(fontconfig.String)))), f
	case fontconfig.POSTSCRIPT_NAME:
		a, b := string(q.(fontconfig.String)), string(f.(fontconfig.String))
		if a == b {
			return 0, f
		}
		if a == "" || b == "" {
			return 1, f
		}
		r := strings.NewReplacer(" ", "", "-", "")
		x, y := r.Replace(strings.ToLower(a)), r.Replace(strings.ToLower(b))
		n := 0
		for n < len(x) && n < len(y) && x[n] == y[n] {
			n++
		}
		return float64(len(a)-n) / float64(len(a)), f
	case fontconfig.CHARSET:
		return float64(minus(runesOf(q.(fontconfig.Charset)), runesOf(f.(fontconfig.Charset)))), f
	case fontconfig.LANG:
		return float64(valueLangDistance(q, f)), f
	case fontconfig.FAMILYLANG:
		return float64(langDistance(string(q.(fontconfig.String)), string(f.(fontconfig.String)))), f
	case fontconfig.STYLE, fontconfig.FOUNDRY, fontconfig.RASTERIZER, fontconfig.FONTFORMAT:
		return neq(strings.EqualFold(string(q.(fontconfig.String)), string(f.(fontconfig.String)))), f
	case fontconfig.SLANT, fontconfig.SPACING, fontconfig.PIXEL_SIZE, fontconfig.FONTVERSION, fontconfig.ORDER:
		a, _, _ := bounds(q)
		b, _, _ := bounds(f)
		return math.Abs(a - b), f
	case fontconfig.WEIGHT, fontconfig.WIDTH, fontconfig.SIZE:
		b1, e1, _ := bounds(q)
		b2, e2, _ := bounds(f)
		var d, v float64
		switch {
		case e1 < b2:
			d, v = math.Min(b2-e1, math.Abs(b1-e2)), b2
		case e2 < b1:
			d, v = math.Min(b1-e2, math.Abs(b2-e1)), e2
		default:
			v = (math.Max(b1, b2) + math.Min(e1, e2)) / 2
		}
		if o == fontconfig.SIZE {
			v = (b1 + e1) / 2
			if d == 0 && b2 != e2 && b1 == e2 {
				d = 1e-15 // the range of a font does not include its end
			}
		}
		return d, fontconfig.Float(v)
	}
	// booleans
	a, b := q.(fontconfig.Bool), f.(fontconfig.Bool)
	v := b
	if b == fontconfig.DontCare {
		v = a
	}
	return neq(a == b), v
}

// bestPair gives the least score of a pair of values, and the resulting value
func bestPair(o obj, qs []bval, fs []fontconfig.Value, keep func(b bval) bool) (float64, fontconfig.Value, int) {
	best, pos := math.MaxFloat64, 0
	var val fontconfig.Value
	for j, q := range qs {
		if keep != nil && !keep(q) {
			continue
		}
		for k, f := range fs {
			d, v := distance(o, q.v, f)
			if s := d*1000 + float64(j); s < best {
				best, val, pos = s, v, k
			}
			if o != fontconfig.FAMILY && o != fontconfig.POSTSCRIPT_NAME && best < 1000 {
				return best, val, pos // any match will do, the first one is used
			}
		}
	}
	return best, val, pos
}

// by decreasing importance; strong or weak where the binding matters
type prio struct {
	o      obj
	strong int // 0: whatever the binding, 1 strong, 2 weak
}

var priorities = []prio{
	{fontconfig.FILE, 0}, {fontconfig.FONTFORMAT, 0}, {fontconfig.VARIABLE, 0}, {fontconfig.SCALABLE, 0}, {fontconfig.COLOR, 0}, {fontconfig.FOUNDRY, 0},
	{fontconfig.CHARSET, 0}, {fontconfig.FAMILY, 1}, {fontconfig.POSTSCRIPT_NAME, 1}, {fontconfig.LANG, 0}, {fontconfig.FAMILY, 2}, {fontconfig.POSTSCRIPT_NAME, 2},
	{fontconfig.SYMBOL, 0}, {fontconfig.SPACING, 0}, {fontconfig.SIZE, 0}, {fontconfig.PIXEL_SIZE, 0}, {fontconfig.STYLE, 0}, {fontconfig.SLANT, 0},
	{fontconfig.WEIGHT, 0}, {fontconfig.WIDTH, 0}, {fontconfig.FONT_HAS_HINT, 0}, {fontconfig.DECORATIVE, 0}, {fontconfig.ANTIALIAS, 0},
	{fontconfig.RASTERIZER, 0}, {fontconfig.OUTLINE, 0}, {fontconfig.ORDER, 0}, {fontconfig.FONTVERSION, 0},
}

const langPrio = 9

func scores(q bmodel, f pmodel) []float64 {
	out := make([]float64, len(priorities))
	for i, p := range priorities {
		qs, fs := q[p.o], f[p.o]
		if len(qs) == 0 || len(fs) == 0 {
			continue
		}
		switch p.strong {
		case 0:
			out[i], _, _ = bestPair(p.o, qs, fs, nil)
		default:
			if p.o == fontconfig.FAMILY {
				// a family is either there or not
				out[i] = math.MaxFloat64
				for j, x := range qs {
					for _, y := range fs {
						if d, _ := distance(p.o, x.v, y); d == 0 && x.weak == (p.strong == 2) {
							out[i] = math.Min(out[i], float64(j))
						}
					}
				}
			} else {
				out[i], _, _ = bestPair(p.o, qs, fs, func(b bval) bool { return b.weak == (p.strong == 2) })
			}
		}
	}
	return out
}

func cmpScores(a, b []float64) int {
	for i := range a {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	return 0
}

func tagOf(p fontconfig.Pattern) int {
	i, ok := p.GetInt(tagObj)
	if !ok {
		return -1
	}
	return int(i)
}

func matchInput(t *run.T, q bmodel, fs []pmodel) {
	t.Step("query %s", q)
	for i, f := range fs {
		t.Step("font %d %s", i, f.canon())
	}
}

// F05: the best font is chosen
func F05() *run.Prop {
	return &run.Prop{
		ID:    "F05",
		Rule:  "Match against an exhaustive search of the least score under the priority order",
		Quick: 30000, Thorough: 1200000,
		Need: map[string]int64{"tie": 50, "decided_at_0": 1, "decided_at_6": 1, "decided_at_7": 1, "decided_at_9": 1, "decided_at_10": 1, "decided_at_18": 1, "decided_at_26": 1},
		Run: func(t *run.T) {
			objs := pickObjs(t)
			q, qm := genQuery(t, objs)
			fs, ms := genFonts(t, objs, run.Pick(t, 1, 2, 3, 5, 12))
			matchInput(t, qm, ms)
			best := 0
			var sc [][]float64
			for i, m := range ms {
				sc = append(sc, scores(qm, m))
				if cmpScores(sc[i], sc[best]) < 0 {
					best = i
				}
			}
			before := canonPattern(q)
			beforeFonts := canonSet(fs)
			got := fs.Match(q, fontconfig.NewConfig())
			if got == nil {
				t.Failf("nil", "no font chosen, font %d should be", best)
			}
			g := tagOf(got)
			if g != best {
				k := 0
				for k < len(sc[0])-1 && sc[g][k] == sc[best][k] {
					k++
				}
				t.Failf(fmt.Sprintf("best %d", k), "font %d chosen, font %d is closer: on %s their scores are %g and %g", g, best, priorities[k].o, sc[g][k], sc[best][k])
			}
			if canonPattern(q) != before || !same(canonSet(fs), beforeFonts) {
				t.Failf("mutated", "Match changed its arguments")
			}
			second := -1
			for i := range sc {
				if i != best && (second < 0 || cmpScores(sc[i], sc[second]) < 0) {
					second = i
				}
			}
			if second >= 0 {
				k := 0
				for k < len(sc[0]) && sc[second][k] == sc[best][k] {
					k++
				}
				if k == len(sc[0]) {
					t.Count("tie", 1)
				} else {
					t.Count(fmt.Sprintf("decided_at_%d", k), 1)
				}
			}
			t.Distinct(sc)
		},
	}
}

// F06: order of Sort
func F06() *run.Prop {
	return &run.Prop{
		ID:    "F06",
		Rule:  "Sort against a reference ordering with the language settlement, and against the greedy coverage trim",
		Quick: 20000, Thorough: 400000,
		Need: map[string]int64{"exact": 100, "ties": 100, "lang_settled": 100, "trimmed": 100},
		Run: func(t *run.T) {
			objs := pickObjs(t)
			if t.Chance(0.5) {
				objs = append(objs, fontconfig.CHARSET)
			}
			if t.Chance(0.5) {
				objs = append(objs, fontconfig.LANG)
			}
			uniq := map[obj]bool{}
			var os []obj
			for _, o := range objs {
				if !uniq[o] {
					uniq[o] = true
					os = append(os, o)
				}
			}
			objs = os
			q, qm := genQuery(t, objs)
			n := run.Pick(t, 0, 1, 2, 5, 14, 30)
			fs, ms := genFonts(t, objs, n)
			matchInput(t, qm, ms)
			before := canonPattern(q)
			beforeFonts := canonSet(fs)

			type node struct {
				i     int
				first []float64
				final []float64
				lang  string
				class string
			}
			nodes := make([]*node, n)
			union := map[rune]bool{}
			charsets := make([]map[rune]bool, n)
			for i, m := range ms {
				s := scores(qm, m)
				l := ""
				if len(m[fontconfig.LANG]) != 0 {
					l = canonValue(m[fontconfig.LANG][0])
				}
				nodes[i] = &node{i: i, first: s, final: append([]float64(nil), s...), lang: l, class: fmt.Sprint(s, l)}
				if cs := m[fontconfig.CHARSET]; len(cs) != 0 {
					charsets[i] = runesOf(cs[0].(fontconfig.Charset))
					for r := range charsets[i] {
						union[r] = true
					}
				}
			}
			sort.SliceStable(nodes, func(i, j int) bool { return cmpScores(nodes[i].first, nodes[j].first) < 0 })
			exact, ambiguous := true, false
			for i := 1; i < n; i++ {
				if cmpScores(nodes[i].first, nodes[i-1].first) == 0 {
					exact = false
					if nodes[i].lang != nodes[i-1].lang && nodes[i].first[langPrio] < 2000 {
						ambiguous = true
					}
				}
			}
			sat := make([]bool, len(qm[fontconfig.LANG]))
			for _, nd := range nodes {
				ok := false
				if nd.first[langPrio] < 2000 && len(ms[nd.i][fontconfig.LANG]) != 0 {
					for k, l := range qm[fontconfig.LANG] {
						if !sat[k] && valueLangDistance(l.v, ms[nd.i][fontconfig.LANG][0]) < 2 {
							sat[k], ok = true, true
							t.Count("lang_settled", 1)
							break
						}
					}
				}
				if !ok {
					nd.final[langPrio] = 10000
				}
			}
			sort.SliceStable(nodes, func(i, j int) bool { return cmpScores(nodes[i].final, nodes[j].final) < 0 })
			for i := 1; i < n; i++ {
				if cmpScores(nodes[i].final, nodes[i-1].final) == 0 {
					exact = false
				}
			}
			t.Distinct(n, fmt.Sprint(nodes))

			full, cov := fs.Sort(q, false)
			if len(full) != n {
				t.Failf("count", "%d fonts sorted of %d", len(full), n)
			}
			if !sameRunes(runesOf(cov), union) {
				t.Failf("coverage", "coverage is %s, want %s", showRunes(runesOf(cov)), showRunes(union))
			}
			var order []int
			seen := map[int]bool{}
			for _, p := range full {
				g := tagOf(p)
				if g < 0 || g >= n || seen[g] || canonPattern(p) != beforeFonts[g] {
					t.Failf("permutation", "font %d returned twice or altered", g)
				}
				seen[g] = true
				order = append(order, g)
			}
			byIndex := map[int]*node{}
			for _, nd := range nodes {
				byIndex[nd.i] = nd
			}
			if ambiguous {
				t.Count("ambiguous", 1)
			} else {
				if exact {
					t.Count("exact", 1)
				} else {
					t.Count("ties", 1)
				}
				// one class may be split in two by the settlement (which of its
				// fonts settles a language is not specified): compare the classes
				finals := map[string]bool{}
				for _, nd := range nodes {
					finals[nd.class+fmt.Sprint(nd.final)] = true
				}
				for i, nd := range nodes {
					if c := byIndex[order[i]].class; c != nd.class && !finals[c+fmt.Sprint(nd.final)] {
						t.Failf("order", "position %d: font %d, want font %d; order %v", i, order[i], nd.i, order)
					}
				}
			}
			again, _ := fs.Sort(q, false)
			if !same(canonSet(again), canonSet(full)) {
				t.Failf("deterministic", "two sorts differ")
			}
			// trim
			trim, cov := fs.Sort(q, true)
			if !sameRunes(runesOf(cov), union) || cov.Len() != len(union) {
				t.Failf("trim coverage", "coverage is %s, want %s", showRunes(runesOf(cov)), showRunes(union))
			}
			var want []int
			acc := map[rune]bool{}
			for i, g := range order {
				cs := charsets[g]
				if cs == nil {
					continue
				}
				if i == 0 || !subset(cs, acc) {
					want = append(want, g)
				}
				for r := range cs {
					acc[r] = true
				}
			}
			var got []int
			for _, p := range trim {
				got = append(got, tagOf(p))
			}
			// the order is the one of the full sort (same algorithm on the same fonts)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				t.Failf("trim", "trimmed to %v, want %v (order %v)", got, want, order)
			}
			if len(want) < n {
				t.Count("trimmed", 1)
			}
			if canonPattern(q) != before || !same(canonSet(fs), beforeFonts) {
				t.Failf("mutated", "Sort changed its arguments")
			}
		},
	}
}

var nameObjs = []obj{fontconfig.FAMILY, fontconfig.STYLE, fontconfig.FULLNAME}

// F07: rendering pattern
func F07() *run.Prop {
	return &run.Prop{
		ID:    "F07",
		Rule:  "PrepareRender against the merge rules",
		Quick: 40000, Thorough: 1500000,
		Need: map[string]int64{"name_lang": 100, "variations": 50, "both": 100},
		Run: func(t *run.T) {
			objs := pickObjs(t)
			objs = append(objs, fontconfig.HINTING, fontconfig.MATRIX, fontconfig.INDEX)
			q, qm := genQuery(t, objs)
			fs, ms := genFonts(t, objs, 1)
			f, m := fs[0], ms[0]
			add := func(query bool, o obj, v fontconfig.Value) {
				if query {
					q.Add(o, v, true)
					qm[o] = append(qm[o], bval{v, false})
				} else {
					f.Add(o, v, true)
					m[o] = append(m[o], v)
				}
			}
			for _, o := range nameObjs {
				if t.Chance(0.4) {
					f.Del(o)
					delete(m, o)
					n := t.Range(1, 3)
					for i := 0; i < n; i++ {
						add(false, o, fontconfig.String(fmt.Sprintf("name %d", i)))
					}
					n += run.Pick(t, 0, 0, 0, 1, -1)
					for i := 0; i < n; i++ {
						add(false, o+1, fontconfig.String(run.Pick(t, "en", "fr", "de", "ja", "fr-ca", "en-us")))
					}
				}
				if t.Chance(0.4) {
					for i := t.Range(1, 2); i > 0; i-- {
						add(true, o+1, fontconfig.String(run.Pick(t, "en", "fr", "de", "ja", "fr-ca", "it")))
					}
				}
			}
			for i := t.IntN(3); i > 0; i-- {
				o := allObjs[t.IntN(len(allObjs))]
				isMatch := o == fontconfig.FAMILYLANG || o == fontconfig.STYLELANG || o == fontconfig.FULLNAMELANG || o == fontconfig.FULLNAME
				for _, mo := range matchObjs {
					isMatch = isMatch || mo == o
				}
				if !isMatch {
					add(t.Chance(0.5), o, genValue(t, objKinds[o]))
				}
			}
			matchInput(t, qm, ms)
			bq, bf := canonPattern(q), canonPattern(f)
			got := fontconfig.NewConfig().PrepareRender(q, f)
			if canonPattern(q) != bq || canonPattern(f) != bf {
				t.Failf("mutated", "PrepareRender changed its arguments")
			}
			// expected
			want := pmodel{}
			isLang := func(o obj) bool {
				return o == fontconfig.FAMILYLANG || o == fontconfig.STYLELANG || o == fontconfig.FULLNAMELANG
			}
			variations := ""
			variable := len(m[fontconfig.VARIABLE]) != 0 && m[fontconfig.VARIABLE][0] != fontconfig.False
			var os []obj
			for o := range m {
				os = append(os, o)
			}
			sort.Slice(os, func(i, j int) bool { return os[i] < os[j] })
			for _, o := range os {
				fv := m[o]
				if isLang(o) {
					continue
				}
				isName := o == fontconfig.FAMILY || o == fontconfig.STYLE || o == fontconfig.FULLNAME
				if isName && len(m[o+1]) != 0 {
					fl := m[o+1]
					if len(qm[o+1]) == 0 {
						want[o], want[o+1] = fv, fl
						continue
					}
					t.Count("name_lang", 1)
					_, _, pos := bestPair(fontconfig.FAMILYLANG, qm[o+1], fl, nil)
					want[o], want[o+1] = toFront(fv, pos), toFront(fl, pos)
					continue
				}
				if len(qm[o]) == 0 {
					want[o] = fv
					continue
				}
				t.Count("both", 1)
				v := fv[0]
				if isMatchObj(o) {
					_, v, _ = bestPair(o, qm[o], fv, nil)
				}
				want[o] = []fontconfig.Value{v}
				if _, isRange := fv[0].(fontconfig.Range); isRange && variable && (o == fontconfig.WEIGHT || o == fontconfig.WIDTH || o == fontconfig.SIZE) {
					num := float32(v.(fontconfig.Float))
					tag := "wdth"
					if o == fontconfig.WEIGHT {
						tag, num = "wght", fontconfig.WeightToOT(num)
					} else if o == fontconfig.SIZE {
						tag = "opsz"
					}
					if variations != "" {
						variations += ","
					}
					variations += fmt.Sprintf("%s=%g", tag, num)
				}
			}
			for o, l := range qm {
				if len(m[o]) != 0 || isLang(o) {
					continue
				}
				for _, b := range l {
					want[o] = append(want[o], b.v)
				}
			}
			if variations != "" {
				t.Count("variations", 1)
				if l := want[fontconfig.FONT_VARIATIONS]; len(l) != 0 {
					variations += "," + string(l[0].(fontconfig.String))
				}
				want[fontconfig.FONT_VARIATIONS] = []fontconfig.Value{fontconfig.String(variations)}
			}
			if a, b := modelOf(got).canon(), want.canon(); a != b {
				fp := "merge"
				for _, o := range allObjs {
					if canonList(values(got, o)) != canonList(want[o]) {
						fp = "merge " + o.String()
						break
					}
				}
				t.Failf(fp, "result %s, want %s", a, b)
			}
			t.Distinct(want.canon())
		},
	}
}

func isMatchObj(o obj) bool {
	for _, m := range matchObjs {
		if m == o {
			return true
		}
	}
	return false
}

func toFront(l []fontconfig.Value, pos int) []fontconfig.Value {
	if pos >= len(l) {
		return l
	}
	out := []fontconfig.Value{l[pos]}
	out = append(out, l[:pos]...)
	return append(out, l[pos+1:]...)
}

// ------------------------------------------------------------------- F10

// listed: the value of the font contains the one of the query
func listed(f, q fontconfig.Value) bool {
	b1, e1, ok1 := bounds(f)
	b2, e2, ok2 := bounds(q)
	if ok1 && ok2 {
		return b1 >= b2 && e1 <= e2
	}
	switch f := f.(type) {
	case fontconfig.Bool:
		q, ok := q.(fontconfig.Bool)
		return ok && (f == q || f == fontconfig.DontCare)
	case fontconfig.Matrix:
		q, ok := q.(fontconfig.Matrix)
		return ok && f == q
	case fontconfig.Charset:
		q, ok := q.(fontconfig.Charset)
		return ok && subset(runesOf(q), runesOf(f))
	case fontconfig.Langset:
		fm, _, _ := langOf(f)
		switch q := q.(type) {
		case fontconfig.Langset:
			qm, _, _ := langOf(q)
			return setIncludes(fm, qm)
		case fontconfig.String:
			return q == "" || setContains(fm, string(q)) // no language is in any set
		}
	case fontconfig.String:
		switch q := q.(type) {
		case fontconfig.String:
			return normName(string(f)) == normName(string(q))
		case fontconfig.Langset:
			qm, _, _ := langOf(q)
			return setIncludes(langModel([]string{string(f)}), qm)
		}
	}
	return false
}

func langIndex(l []fontconfig.Value, lang string) int {
	idx, def := -1, -1
	for i, v := range l {
		s, ok := v.(fontconfig.String)
		if !ok {
			continue
		}
		switch langDistance(string(s), lang) {
		case 0:
			return i
		case 1:
			if idx < 0 {
				idx = i
			}
		}
		if def < 0 && langDistance(string(s), "en") == 0 {
			def = i
		}
	}
	if idx > 0 {
		return idx
	}
	return max(def, 0)
}

func F10() *run.Prop {
	return &run.Prop{
		ID:    "F10",
		Rule:  "List against filtering, projecting and removing the duplicates",
		Quick: 40000, Thorough: 1500000,
		Need: map[string]int64{"duplicates": 100, "some": 100, "none": 100},
		Run: func(t *run.T) {
			objs := pickObjs(t)
			objs = append(objs, fontconfig.MATRIX, fontconfig.FirstCustomObject)
			n := run.Pick(t, 0, 1, 3, 8)
			fs, ms := genFonts(t, objs, n)
			for i, m := range ms {
				delete(m, tagObj)
				fs[i].Del(tagObj)
				for _, o := range nameObjs {
					if t.Chance(0.3) {
						fs[i].Del(o)
						fs[i].Del(o + 1)
						delete(m, o)
						delete(m, o+1)
						for k := t.Range(1, 3); k > 0; k-- {
							s, l := fontconfig.String(fmt.Sprintf("name %d", t.IntN(3))), fontconfig.String(run.Pick(t, "en", "fr", "de", "ja", "fr-ca", "en-us"))
							fs[i].Add(o, s, true)
							m[o] = append(m[o], s)
							if t.Chance(0.9) {
								fs[i].Add(o+1, l, true)
								m[o+1] = append(m[o+1], l)
							}
						}
					}
				}
			}
			// the query: values of the fonts, close values, others
			q := fontconfig.NewPattern()
			for k := run.Pick(t, 0, 1, 1, 2, 4); k > 0; k-- {
				o := objs[t.IntN(len(objs))]
				v := genMatchValue(t, o, false)
				if len(ms) != 0 && t.Chance(0.7) {
					if l := ms[t.IntN(len(ms))][o]; len(l) != 0 {
						v = l[t.IntN(len(l))]
						switch w := v.(type) {
						case fontconfig.String:
							if t.Chance(0.3) {
								v = fontconfig.String(strings.ToUpper(string(w)))
							}
							if t.Chance(0.1) && len(w) > 1 {
								v = w[:len(w)-1]
							}
						case fontconfig.Charset:
							c := cset{fc: w.Copy(), m: runesOf(w)}
							if t.Chance(0.5) {
								c = c.delSome(t)
							}
							if t.Chance(0.2) {
								c.fc.AddChar(genRune(t, 3))
							}
							v = c.fc
						case fontconfig.Langset:
							v = fontconfig.String(strings.Split(w.String(), "|")[0])
						}
					}
				}
				q.Add(o, v, true)
			}
			lang := "en"
			if t.Chance(0.3) {
				lang = run.Pick(t, "fr", "de", "ja", "it")
				q.AddString(fontconfig.NAMELANG, lang)
			}
			var project []obj
			for _, o := range append(objs, fontconfig.FAMILYLANG, fontconfig.STYLELANG, fontconfig.FULLNAMELANG, fontconfig.FULLNAME) {
				if t.Chance(0.3) {
					project = append(project, o)
				}
			}
			qm := modelOf(q)
			t.Step("query %s objects %v", qm.canon(), project)
			for i, m := range ms {
				t.Step("font %d %s", i, m.canon())
			}
			before := canonSet(fs)
			used := project
			if len(used) == 0 {
				used = append(used, allObjs[:len(allObjs)-2]...)
			}
			want := []string{}
			group := map[string]bool{}
			matched := 0
			for i := range fs {
				ok := true
				m := modelOf(fs[i])
				for o, l := range qm {
					if o == fontconfig.NAMELANG {
						continue
					}
					for _, v := range l {
						found := false
						for _, fv := range m[o] {
							found = found || listed(fv, v)
						}
						ok = ok && found
					}
				}
				if !ok {
					continue
				}
				matched++
				proj := pmodel{}
				for _, o := range used {
					if len(m[o]) != 0 {
						proj[o] = m[o]
					}
				}
				key := proj.canonHash()
				if group[key] {
					t.Count("duplicates", 1)
					continue
				}
				group[key] = true
				res := pmodel{}
				for o, l := range proj {
					idx := 0
					switch o {
					case fontconfig.FAMILY, fontconfig.STYLE, fontconfig.FULLNAME:
						idx = langIndex(m[o+1], lang)
					case fontconfig.FAMILYLANG, fontconfig.STYLELANG, fontconfig.FULLNAMELANG:
						idx = langIndex(m[o], lang)
					}
					res[o] = toFront(l, idx)
				}
				want = append(want, res.canon())
			}
			got := []string{}
			for _, p := range fs.List(q, project...) {
				got = append(got, modelOf(p).canon())
			}
			sort.Strings(got)
			sort.Strings(want)
			if !same(got, want) {
				fp := "list"
				if len(got) < len(want) {
					fp = "missing"
				} else if len(got) > len(want) {
					fp = "extra"
				}
				t.Failf(fp, "listed %d: %s\nwant %d: %s", len(got), strings.Join(got, " | "), len(want), strings.Join(want, " | "))
			}
			if matched == 0 {
				t.Count("none", 1)
			} else {
				t.Count("some", 1)
			}
			if !same(canonSet(fs), before) {
				t.Failf("mutated", "List changed the fonts")
			}
			t.Distinct(want)
		},
	}
}
