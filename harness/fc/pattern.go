package fc

import (
	"fmt"
	"math"
	"os"
	"os/exec"
	"sort"
	"strings"

	fontconfig "github.com/benoitkugler/textprocessing/fontconfig"
	"verifharness/run"
)

type obj = fontconfig.Object

// kind of values of an object
const (
	kString = iota
	kInt
	kRange // Int, Float or Range
	kFloat // Int or Float
	kBool
	kMatrix
	kCharset
	kLang // Langset or String
	kAny
)

var objKinds = map[obj]int{
	fontconfig.FAMILY: kString, fontconfig.FAMILYLANG: kString, fontconfig.STYLE: kString, fontconfig.STYLELANG: kString,
	fontconfig.FULLNAME: kString, fontconfig.FULLNAMELANG: kString, fontconfig.FOUNDRY: kString, fontconfig.RASTERIZER: kString,
	fontconfig.CAPABILITY: kString, fontconfig.NAMELANG: kString, fontconfig.FONT_FEATURES: kString, fontconfig.PRGNAME: kString,
	fontconfig.HASH: kString, fontconfig.POSTSCRIPT_NAME: kString, fontconfig.FONTFORMAT: kString, fontconfig.FILE: kString,
	fontconfig.FONT_VARIATIONS: kString,
	fontconfig.ORDER:           kInt, fontconfig.SLANT: kInt, fontconfig.SPACING: kInt, fontconfig.HINT_STYLE: kInt, fontconfig.RGBA: kInt,
	fontconfig.INDEX: kInt, fontconfig.CHARWIDTH: kInt, fontconfig.LCD_FILTER: kInt, fontconfig.FONTVERSION: kInt, fontconfig.CHAR_HEIGHT: kInt,
	fontconfig.WEIGHT: kRange, fontconfig.WIDTH: kRange, fontconfig.SIZE: kRange,
	fontconfig.ASPECT: kFloat, fontconfig.PIXEL_SIZE: kFloat, fontconfig.SCALE: kFloat, fontconfig.DPI: kFloat,
	fontconfig.ANTIALIAS: kBool, fontconfig.HINTING: kBool, fontconfig.VERTICAL_LAYOUT: kBool, fontconfig.AUTOHINT: kBool,
	fontconfig.GLOBAL_ADVANCE: kBool, fontconfig.OUTLINE: kBool, fontconfig.SCALABLE: kBool, fontconfig.MINSPACE: kBool,
	fontconfig.EMBOLDEN: kBool, fontconfig.COLOR: kBool, fontconfig.SYMBOL: kBool, fontconfig.VARIABLE: kBool,
	fontconfig.FONT_HAS_HINT: kBool, fontconfig.EMBEDDED_BITMAP: kBool, fontconfig.DECORATIVE: kBool,
	fontconfig.MATRIX: kMatrix, fontconfig.CHARSET: kCharset, fontconfig.LANG: kLang,
	fontconfig.FirstCustomObject: kAny, fontconfig.FirstCustomObject + 3: kAny,
}

var allObjs []obj

func init() {
	for o := range objKinds {
		allObjs = append(allObjs, o)
	}
	sort.Slice(allObjs, func(i, j int) bool { return allObjs[i] < allObjs[j] })
}

var stringPool = []string{"a", "b", "ab", "A", "a b", "", "DejaVu Sans", "dejavusans", "Times", "Times New Roman", "Bold", "Regular", "en", "1", "true", "{1 2}", "é", "É", "ﬁ", "日本", "\x00", "a\x00b", "x;y", "100", "0.5"}

func genValue(t *run.T, k int) fontconfig.Value {
	switch k {
	case kString:
		return fontconfig.String(stringPool[t.IntN(len(stringPool))])
	case kInt:
		return fontconfig.Int(run.Pick(t, 0, 1, 2, 12, 100, -1, 200, math.MaxInt32, math.MinInt32, 65536))
	case kFloat:
		if t.Chance(0.3) {
			return genValue(t, kInt)
		}
		return fontconfig.Float(run.Pick(t, 0, 0.5, 1, 12, 100, -3.25, 1e-9, 3.4e38, 12.000001))
	case kRange:
		if t.Chance(0.4) {
			a, b := run.Pick[float32](t, 0, 1, 40, 80, 100, 200), run.Pick[float32](t, 0, 0.5, 20, 100, 1000)
			return fontconfig.Range{Begin: a, End: a + b}
		}
		return genValue(t, kFloat)
	case kBool:
		return run.Pick(t, fontconfig.False, fontconfig.True, fontconfig.DontCare)
	case kMatrix:
		return fontconfig.Matrix{Xx: run.Pick[float32](t, 0, 1, 0.5), Xy: run.Pick[float32](t, 0, 0.2), Yx: run.Pick[float32](t, 0, -1), Yy: run.Pick[float32](t, 1, 2)}
	case kCharset:
		return genCset(t, 8, 4).fc
	case kLang:
		if t.Chance(0.3) {
			return fontconfig.String(genLang(t))
		}
		return fontconfig.NewLangset(strings.Join(genLangs(t, 3), "|"))
	}
	return genValue(t, t.IntN(kAny))
}

func validType(k int, v fontconfig.Value) bool {
	switch v.(type) {
	case fontconfig.String:
		return k == kString || k == kLang || k == kAny
	case fontconfig.Int:
		return k == kInt || k == kFloat || k == kRange || k == kAny
	case fontconfig.Float:
		return k == kFloat || k == kRange || k == kAny
	case fontconfig.Range:
		return k == kRange || k == kAny
	case fontconfig.Bool:
		return k == kBool || k == kAny
	case fontconfig.Matrix:
		return k == kMatrix || k == kAny
	case fontconfig.Charset:
		return k == kCharset || k == kAny
	case fontconfig.Langset:
		return k == kLang || k == kAny
	}
	return false
}

// pmodel is the model of a pattern
type pmodel map[obj][]fontconfig.Value

func (m pmodel) clone() pmodel {
	out := pmodel{}
	for o, l := range m {
		for _, v := range l {
			switch w := v.(type) {
			case fontconfig.Charset:
				v = w.Copy()
			case fontconfig.Langset:
				v = w.Copy()
			}
			out[o] = append(out[o], v)
		}
	}
	return out
}

func (m pmodel) canon() string {
	var os []obj
	for o, l := range m {
		if len(l) != 0 {
			os = append(os, o)
		}
	}
	sort.Slice(os, func(i, j int) bool { return os[i] < os[j] })
	var sb strings.Builder
	for _, o := range os {
		fmt.Fprintf(&sb, "%s={%s} ", o, canonList(m[o]))
	}
	return sb.String()
}

// canonHash: as canon, the numbers which are equal being the same
func (m pmodel) canonHash() string {
	c := pmodel{}
	for o, l := range m {
		for _, v := range l {
			if i, ok := v.(fontconfig.Int); ok {
				v = fontconfig.Float(i)
			}
			c[o] = append(c[o], v)
		}
	}
	return c.canon()
}

func modelOf(p fontconfig.Pattern) pmodel {
	m := pmodel{}
	for o := range p {
		if l := values(p, o); len(l) != 0 {
			m[o] = l
		}
	}
	return m
}

func genPattern(t *run.T, nobj, nval int) fontconfig.Pattern {
	p := fontconfig.NewPattern()
	for i := t.IntN(nobj + 1); i > 0; i-- {
		o := allObjs[t.IntN(len(allObjs))]
		for k := t.Range(1, nval); k > 0; k-- {
			p.Add(o, genValue(t, objKinds[o]), t.Chance(0.8))
		}
	}
	return p
}

// F12: patterns
func F12() *run.Prop {
	return &run.Prop{
		ID:    "F12",
		Rule:  "pattern edit histories against a model; independence of the copies; equality and hash",
		Quick: 60000, Thorough: 2500000,
		Need: map[string]int64{"refused": 100, "hash_equal": 100, "hash_differ": 100},
		Run: func(t *run.T) {
			type pm struct {
				p fontconfig.Pattern
				m pmodel
			}
			ps := []pm{{fontconfig.NewPattern(), pmodel{}}}
			checkAll := func(op string) {
				for i, x := range ps {
					if a, b := canonPattern(x.p), x.m.canon(); a != b {
						t.Failf("content "+op, "after %s pattern %d is %s, want %s", op, i, a, b)
					}
				}
			}
			objs := make([]obj, t.Range(1, 4))
			for i := range objs {
				objs[i] = allObjs[t.IntN(len(allObjs))]
				if t.Chance(0.2) {
					objs[i] = run.Pick(t, fontconfig.CHARSET, fontconfig.LANG, fontconfig.FirstCustomObject)
				}
			}
			for n := t.Range(1, 12); n > 0; n-- {
				i := t.IntN(len(ps))
				x := ps[i]
				o := objs[t.IntN(len(objs))]
				k := objKinds[o]
				switch t.IntN(8) {
				case 0, 1, 2, 3:
					v := genValue(t, k)
					if t.Chance(0.1) {
						v = genValue(t, kAny)
					}
					app := t.Chance(0.7)
					t.Step("Add %d %s %s %v", i, o, canonValue(v), app)
					x.p.Add(o, v, app)
					mv := pmodel{o: {v}}.clone()[o]
					// the pattern keeps no reference
					if c, ok := v.(fontconfig.Charset); ok {
						c.DelChar(65)
						for r := rune(0); r < 12; r++ {
							c.DelChar(r)
						}
					}
					if !validType(k, v) {
						t.Count("refused", 1)
						break
					}
					if app {
						x.m[o] = append(x.m[o], mv...)
					} else {
						x.m[o] = append(mv, x.m[o]...)
					}
				case 4:
					t.Step("typed Add %d %s", i, o)
					var v fontconfig.Value
					switch t.IntN(4) {
					case 0:
						b := t.Chance(0.5)
						x.p.AddBool(o, b)
						v = fontconfig.False
						if b {
							v = fontconfig.True
						}
					case 1:
						x.p.AddInt(o, 7)
						v = fontconfig.Int(7)
					case 2:
						x.p.AddFloat(o, 7.5)
						v = fontconfig.Float(7.5)
					default:
						x.p.AddString(o, "seven")
						v = fontconfig.String("seven")
					}
					if validType(k, v) {
						x.m[o] = append(x.m[o], v)
					}
				case 5:
					t.Step("Del %d %s", i, o)
					x.p.Del(o)
					delete(x.m, o)
				case 6:
					if len(ps) < 5 {
						t.Step("Duplicate %d -> %d", i, len(ps))
						ps = append(ps, pm{x.p.Duplicate(), x.m.clone()})
					}
				case 7:
					// change a value held by the caller
					if v, ok := x.p.GetCharset(o); ok {
						_ = v
					}
					if len(ps) < 5 {
						var els []fontconfig.PatternElement
						m := pmodel{}
						for k := t.IntN(4); k > 0; k-- {
							o := objs[t.IntN(len(objs))]
							v := genValue(t, objKinds[o])
							els = append(els, fontconfig.PatternElement{Object: o, Value: v})
							m[o] = append(m[o], v)
						}
						t.Step("Build %s -> %d", m.canon(), len(ps))
						ps = append(ps, pm{fontconfig.BuildPattern(els...), m})
					}
				}
				checkAll("step")
			}
			for i, x := range ps {
				t.Distinct(x.m.canon())
				for _, o := range objs {
					checkGetters(t, i, x.p, o, x.m[o])
				}
				for j := 0; j < i; j++ {
					comparePatterns(t, i, j, x.p, ps[j].p)
				}
			}
			// a close variant
			x := ps[t.IntN(len(ps))]
			y := variant(t, x.m)
			q := fontconfig.NewPattern()
			for o, l := range y {
				for _, v := range l {
					q.Add(o, v, true)
				}
			}
			t.Step("variant %s", y.canon())
			comparePatterns(t, -1, -2, x.p, q)
			checkAll("end")
		},
	}
}

func variant(t *run.T, m pmodel) pmodel {
	out := m.clone()
	var os []obj
	for o := range out {
		if len(out[o]) != 0 {
			os = append(os, o)
		}
	}
	sort.Slice(os, func(i, j int) bool { return os[i] < os[j] })
	if len(os) == 0 {
		return out
	}
	o := os[t.IntN(len(os))]
	l := out[o]
	i := t.IntN(len(l))
	switch t.IntN(5) {
	case 0: // split or join strings
		if s, ok := l[i].(fontconfig.String); ok && len(s) > 1 {
			out[o] = append(append(append([]fontconfig.Value{}, l[:i]...), s[:1], s[1:]), l[i+1:]...)
		} else if i+1 < len(l) {
			a, ok1 := l[i].(fontconfig.String)
			b, ok2 := l[i+1].(fontconfig.String)
			if ok1 && ok2 {
				out[o] = append(append(append([]fontconfig.Value{}, l[:i]...), a+b), l[i+2:]...)
			}
		}
	case 1: // same text, other type
		if objKinds[o] == kAny {
			l[i] = fontconfig.String(fmt.Sprint(l[i]))
		}
	case 2:
		l[i] = genValue(t, objKinds[o])
	case 3:
		k := t.IntN(len(l))
		l[i], l[k] = l[k], l[i]
	case 4:
		if ls, ok := l[i].(fontconfig.Langset); ok {
			l[i] = fontconfig.NewLangset(strings.Replace(ls.String(), "|", "", 1))
		}
	}
	return out
}

func comparePatterns(t *run.T, i, j int, p, q fontconfig.Pattern) {
	eq := canonPattern(p) == canonPattern(q)
	loose := modelOf(p).canonHash() == modelOf(q).canonHash()
	h := p.Hash() == q.Hash()
	if h && !loose {
		t.Failf("hash collision", "patterns %d and %d have the same hash: %s and %s", i, j, canonPattern(p), canonPattern(q))
	}
	if eq && !h {
		t.Failf("hash differs", "patterns %d and %d have different hashes: %s", i, j, canonPattern(p))
	}
	if h {
		t.Count("hash_equal", 1)
	} else {
		t.Count("hash_differ", 1)
	}
}

func checkGetters(t *run.T, i int, p fontconfig.Pattern, o obj, l []fontconfig.Value) {
	bad := func(name string, got interface{}) {
		t.Failf("getter "+name, "pattern %d: %s(%s) is %v, values are %s", i, name, o, got, canonList(l))
	}
	if _, r := p.GetAt(o, len(l)); r != fontconfig.ResultNoId && !(r == fontconfig.ResultNoMatch && len(l) == 0) {
		bad("GetAt", r)
	}
	var first fontconfig.Value
	if len(l) != 0 {
		first = l[0]
	}
	s, ok := p.GetString(o)
	if fs, w := first.(fontconfig.String); ok != w || s != string(fs) {
		bad("GetString", s)
	}
	b, ok := p.GetBool(o)
	if fb, w := first.(fontconfig.Bool); ok != w || b != fb {
		bad("GetBool", b)
	}
	n, ok := p.GetInt(o)
	if fi, w := first.(fontconfig.Int); ok != w || n != int32(fi) {
		bad("GetInt", n)
	}
	f, ok := p.GetFloat(o)
	switch ff := first.(type) {
	case fontconfig.Int:
		if !ok || f != float32(ff) {
			bad("GetFloat", f)
		}
	case fontconfig.Float:
		if !ok || f != float32(ff) {
			bad("GetFloat", f)
		}
	default:
		if ok {
			bad("GetFloat", f)
		}
	}
	m, ok := p.GetMatrix(o)
	if fm, w := first.(fontconfig.Matrix); ok != w || m != fm {
		bad("GetMatrix", m)
	}
	_, ok = p.GetCharset(o)
	if _, w := first.(fontconfig.Charset); ok != w {
		bad("GetCharset", ok)
	}
	var ss, is, fs, ms []fontconfig.Value
	for _, v := range l {
		switch v.(type) {
		case fontconfig.String:
			ss = append(ss, v)
		case fontconfig.Int:
			is = append(is, v)
		case fontconfig.Float:
			fs = append(fs, v)
		case fontconfig.Matrix:
			ms = append(ms, v)
		}
	}
	var g []fontconfig.Value
	for _, v := range p.GetStrings(o) {
		g = append(g, fontconfig.String(v))
	}
	if canonList(g) != canonList(ss) {
		bad("GetStrings", canonList(g))
	}
	g = nil
	for _, v := range p.GetInts(o) {
		g = append(g, fontconfig.Int(v))
	}
	if canonList(g) != canonList(is) {
		bad("GetInts", canonList(g))
	}
	g = nil
	for _, v := range p.GetFloats(o) {
		g = append(g, fontconfig.Float(v))
	}
	if canonList(g) != canonList(fs) {
		bad("GetFloats", canonList(g))
	}
	g = nil
	for _, v := range p.GetMatrices(o) {
		g = append(g, v)
	}
	if canonList(g) != canonList(ms) {
		bad("GetMatrices", canonList(g))
	}
	if o == fontconfig.FILE || o == fontconfig.INDEX {
		id := p.FaceID()
		file, _ := p.GetString(fontconfig.FILE)
		idx, _ := p.GetInt(fontconfig.INDEX)
		if id.File != file || uint32(id.Index)|uint32(id.Instance)<<16 != uint32(idx) {
			bad("FaceID", id)
		}
	}
}

// ------------------------------------------------------------------- F13

// Default prints the default language, for F13
func Default() {
	p := fontconfig.NewPattern()
	p.SubstituteDefault()
	fmt.Print(canonList(values(p, fontconfig.NAMELANG)))
}

var defaultVals = []struct {
	o obj
	v fontconfig.Value
}{
	{fontconfig.WEIGHT, fontconfig.Int(80)},
	{fontconfig.SLANT, fontconfig.Int(0)},
	{fontconfig.WIDTH, fontconfig.Int(100)},
	{fontconfig.HINTING, fontconfig.True},
	{fontconfig.VERTICAL_LAYOUT, fontconfig.False},
	{fontconfig.AUTOHINT, fontconfig.False},
	{fontconfig.GLOBAL_ADVANCE, fontconfig.True},
	{fontconfig.EMBEDDED_BITMAP, fontconfig.True},
	{fontconfig.DECORATIVE, fontconfig.False},
	{fontconfig.SYMBOL, fontconfig.False},
	{fontconfig.VARIABLE, fontconfig.False},
	{fontconfig.FONTVERSION, fontconfig.Int(0x7fffffff)},
	{fontconfig.HINT_STYLE, fontconfig.Int(3)},
	{fontconfig.ORDER, fontconfig.Int(0)},
}

func near(a, b float64) bool {
	return math.Abs(a-b) <= 1e-5*(math.Abs(a)+math.Abs(b))+1e-30
}

func F13() *run.Prop {
	return &run.Prop{
		ID:    "F13",
		Rule:  "SubstituteDefault against the documented defaults",
		Quick: 40000, Thorough: 1500000,
		Need: map[string]int64{"pixel_given": 50, "size_given": 50, "locale": 4},
		Run: func(t *run.T) {
			if t.Idx%400 == 0 && (!t.Thorough || t.Idx%8000 == 0) {
				locale(t)
				return
			}
			p := genPattern(t, 12, 2)
			for _, o := range []obj{fontconfig.SIZE, fontconfig.PIXEL_SIZE, fontconfig.DPI, fontconfig.SCALE} {
				if t.Chance(0.4) {
					p.Del(o)
					switch {
					case o == fontconfig.SIZE && t.Chance(0.2):
						p.Add(o, fontconfig.Range{Begin: 10, End: float32(t.Range(10, 30))}, true)
					case t.Chance(0.3):
						p.AddInt(o, int32(t.Range(1, 300)))
					default:
						p.AddFloat(o, float32(t.Range(1, 3000))/8)
					}
				}
			}
			t.Input("%s", canonPattern(p))
			in := modelOf(p)
			t.Distinct(in.canon())
			p.SubstituteDefault()
			out := modelOf(p)
			for _, d := range defaultVals {
				want := in[d.o]
				if len(want) == 0 {
					want = []fontconfig.Value{d.v}
				}
				if canonList(out[d.o]) != canonList(want) {
					t.Errorf("default "+d.o.String(), "%s is %s, want %s", d.o, canonList(out[d.o]), canonList(want))
				}
			}
			num := func(o obj, def float64) float64 {
				if len(in[o]) == 0 {
					return def
				}
				switch v := in[o][0].(type) {
				case fontconfig.Int:
					return float64(v)
				case fontconfig.Float:
					return float64(v)
				case fontconfig.Range:
					return float64(v.Begin+v.End) / 2
				}
				return def
			}
			one := func(o obj, want float64) {
				l := out[o]
				f, ok := fontconfig.Float(0), false
				if len(l) == 1 {
					f, ok = l[0].(fontconfig.Float)
				}
				if !ok || !(near(float64(f), want) || math.Abs(want) > 3e38 || math.IsNaN(want) || math.Abs(want) < 1e-36) {
					t.Errorf("size "+o.String(), "%s is %s, want %g", o, canonList(l), want)
				}
			}
			dpi, scale := num(fontconfig.DPI, 75), num(fontconfig.SCALE, 1)
			unchanged := func(o obj) {
				if canonList(out[o]) != canonList(in[o]) {
					t.Errorf("unchanged "+o.String(), "%s is %s, was %s", o, canonList(out[o]), canonList(in[o]))
				}
			}
			if len(in[fontconfig.PIXEL_SIZE]) == 0 {
				size := num(fontconfig.SIZE, 12)
				one(fontconfig.SIZE, size)
				one(fontconfig.DPI, dpi)
				one(fontconfig.SCALE, scale)
				one(fontconfig.PIXEL_SIZE, size*scale*dpi/72)
				if len(in[fontconfig.SIZE]) != 0 {
					t.Count("size_given", 1)
				}
			} else {
				unchanged(fontconfig.PIXEL_SIZE)
				unchanged(fontconfig.DPI)
				unchanged(fontconfig.SCALE)
				one(fontconfig.SIZE, num(fontconfig.PIXEL_SIZE, 0)/dpi*72/scale)
				t.Count("pixel_given", 1)
			}
			nl := in[fontconfig.NAMELANG]
			if len(nl) == 0 {
				nl = []fontconfig.Value{fontconfig.String("en")}
			}
			if canonList(out[fontconfig.NAMELANG]) != canonList(nl) {
				t.Errorf("namelang", "namelang is %s, want %s", canonList(out[fontconfig.NAMELANG]), canonList(nl))
			}
			for _, o := range []obj{fontconfig.FAMILYLANG, fontconfig.STYLELANG, fontconfig.FULLNAMELANG} {
				want := in[o]
				if len(want) == 0 {
					want = []fontconfig.Value{nl[0], fontconfig.String("en-us")}
				}
				if canonList(out[o]) != canonList(want) {
					t.Errorf("default "+o.String(), "%s is %s, want %s", o, canonList(out[o]), canonList(want))
				}
			}
			if len(in[fontconfig.PRGNAME]) != 0 {
				unchanged(fontconfig.PRGNAME)
			} else if len(out[fontconfig.PRGNAME]) != 1 {
				t.Errorf("prgname", "no program name")
			}
			for _, o := range allObjs {
				switch o {
				case fontconfig.SIZE, fontconfig.PIXEL_SIZE, fontconfig.DPI, fontconfig.SCALE, fontconfig.NAMELANG, fontconfig.FAMILYLANG,
					fontconfig.STYLELANG, fontconfig.FULLNAMELANG, fontconfig.PRGNAME:
				default:
					isDef := false
					for _, d := range defaultVals {
						isDef = isDef || d.o == o
					}
					if !isDef {
						unchanged(o)
					}
				}
			}
			// a second call only rounds the size
			q := p.Duplicate()
			q.SubstituteDefault()
			a, b := modelOf(p), modelOf(q)
			delete(a, fontconfig.SIZE)
			delete(b, fontconfig.SIZE)
			if a.canon() != b.canon() {
				t.Errorf("idempotent", "second call: %s then %s", a.canon(), b.canon())
			}
		},
	}
}

// locale runs a process under various locales
func locale(t *run.T) {
	lang := func() (string, string) {
		type c struct{ v, want string }
		cs := []c{
			{"zh_CN.UTF-8", "zh-cn"}, {"zh_TW", "zh-tw"}, {"zh_HK.big5", "zh-hk"}, {"fr_FR.UTF-8", "fr"}, {"de_AT@euro", "de"}, {"en_US.UTF-8", "en"}, {"C", "en"},
			{"POSIX", "en"}, {"C.UTF-8", "en"}, {"ja_JP.eucJP", "ja"}, {"ku_TR.UTF-8", "ku-tr"}, {"mn_MN", "mn-mn"}, {"az_IR", "az-ir"}, {"sr_RS@latin", "sr"}, {"pt_BR", "pt"},
			{"tlh_XX", "tlh-xx"}, {"quz_PE.UTF-8", "quz"}, {"fr", "fr"}, {"x", "en"},
		}
		x := cs[t.IntN(len(cs))]
		return x.v, x.want
	}
	var env []string
	want := "en"
	set := false
	for _, v := range []string{"FC_LANG", "LC_ALL", "LC_CTYPE", "LANG"} {
		if v != "FC_LANG" && t.Chance(0.6) {
			s, w := lang()
			env = append(env, v+"="+s)
			if !set {
				want, set = w, true
			}
		}
	}
	t.Input("%v", env)
	t.Count("locale", 1)
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "-default-lang")
	cmd.Env = env
	out, err := cmd.Output()
	if err != nil {
		t.Failf("locale run", "%s", err)
	}
	if got := strings.ToLower(string(out)); got != fmt.Sprintf("s%q;", want) {
		t.Failf("locale", "default language is %s, want %s", out, want)
	}
}

// ------------------------------------------------------------------- F14

func F14() *run.Prop {
	anchors := [][2]float32{{0, 0}, {100, 0}, {200, 40}, {300, 50}, {350, 55}, {380, 75}, {400, 80}, {500, 100}, {600, 180}, {700, 200}, {800, 205}, {900, 210}, {1000, 215}}
	return &run.Prop{
		ID:    "F14",
		Rule:  "weight conversions: anchors, monotonicity, interpolation, inverse",
		Quick: 200000, Thorough: 5000000,
		Run: func(t *run.T) {
			if t.Idx == 0 {
				for i, a := range anchors {
					if g := fontconfig.WeightFromOT(a[0]); g != a[1] {
						t.Failf("anchor", "WeightFromOT(%g) = %g", a[0], g)
					}
					if g := fontconfig.WeightToOT(a[1]); i > 0 && g != a[0] {
						t.Failf("anchor", "WeightToOT(%g) = %g", a[1], g)
					}
				}
				for _, v := range []float32{-1, -0.001, 215.001, 1e9, float32(math.Inf(1)), float32(math.Inf(-1))} {
					if g := fontconfig.WeightToOT(v); g != -1 {
						t.Failf("range", "WeightToOT(%g) = %g", v, g)
					}
				}
				for _, v := range []float32{-1, -0.001, float32(math.Inf(-1))} {
					if g := fontconfig.WeightFromOT(v); g != -1 {
						t.Failf("range", "WeightFromOT(%g) = %g", v, g)
					}
				}
				for _, v := range []float32{1000.5, 1e9, float32(math.Inf(1))} {
					if g := fontconfig.WeightFromOT(v); g != 215 {
						t.Failf("range", "WeightFromOT(%g) = %g", v, g)
					}
				}
				return
			}
			i := t.Range(1, len(anchors)-1)
			a, b := anchors[i-1], anchors[i]
			x := a[0] + (b[0]-a[0])*t.Float32()
			y := a[0] + (b[0]-a[0])*t.Float32()
			if x > y {
				x, y = y, x
			}
			t.Input("%g %g", x, y)
			t.Distinct(x)
			fx, fy := fontconfig.WeightFromOT(x), fontconfig.WeightFromOT(y)
			if fx > fy || fx < a[1] || fy > b[1] {
				t.Failf("monotone", "WeightFromOT: %g -> %g, %g -> %g", x, fx, y, fy)
			}
			if want := float64(a[1]) + float64(x-a[0])*float64(b[1]-a[1])/float64(b[0]-a[0]); math.Abs(float64(fx)-want) > 1e-3 {
				t.Failf("interpolation", "WeightFromOT(%g) = %g, want %g", x, fx, want)
			}
			if i > 1 {
				if back := fontconfig.WeightToOT(fx); math.Abs(float64(back-x)) > 1e-2 {
					t.Failf("inverse", "WeightToOT(WeightFromOT(%g)) = %g", x, back)
				}
				w, z := fontconfig.WeightToOT(fx), fontconfig.WeightToOT(fy)
				if w > z || w < a[0] || z > b[0] {
					t.Failf("monotone", "WeightToOT: %g -> %g, %g -> %g", fx, w, fy, z)
				}
			}
		},
	}
}
