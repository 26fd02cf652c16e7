package fc

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"

	fontconfig "github.com/benoitkugler/textprocessing/fontconfig"
	"verifharness/run"
	"verifharness/sfnt"
	"verifharness/ucd"
)

// ------------------------------------------------ orthographies (reference data)

type orth struct {
	lang   string
	ranges [][2]rune
	n      int
}

var (
	orthOnce sync.Once
	orths    []orth
)

// loadOrth gives the characters required by each language: dumped from the
// orthographies of the C library
func loadOrth() []orth {
	orthOnce.Do(func() {
		for _, l := range ucd.Lines("FcOrth.txt") {
			f := strings.Fields(l)
			if !knownLangs[f[0]] {
				continue
			}
			o := orth{lang: f[0]}
			for _, r := range f[1:] {
				var a, b rune
				if strings.Contains(r, "-") {
					fmt.Sscanf(r, "%x-%x", &a, &b)
				} else {
					fmt.Sscanf(r, "%x", &a)
					b = a
				}
				o.ranges = append(o.ranges, [2]rune{a, b})
				o.n += int(b - a + 1)
			}
			orths = append(orths, o)
		}
	})
	return orths
}

func (o orth) covered(m map[rune]uint16) bool {
	if o.n > len(m) {
		return false
	}
	for _, r := range o.ranges {
		for c := r[0]; c <= r[1]; c++ {
			if _, ok := m[c]; !ok {
				return false
			}
		}
	}
	return true
}

var hanLangs = map[string]bool{"ja": true, "zh-cn": true, "ko": true, "zh-tw": true}

// ------------------------------------------------------------ font model

type nameLang struct {
	platform, encoding, lang uint16
	code                     string
}

var nameLangs = []nameLang{
	{3, 1, 0x409, "en"}, {3, 1, 0x409, "en"}, {3, 1, 0x809, "en"}, {3, 1, 0x40c, "fr"}, {3, 1, 0xc0c, "fr"}, {3, 1, 0x407, "de"}, {3, 1, 0x411, "ja"},
	{3, 1, 0x804, "zh-cn"}, {3, 1, 0x404, "zh-tw"}, {3, 1, 0x412, "ko"}, {3, 1, 0x419, "ru"}, {3, 1, 0x401, "ar"}, {3, 0, 0x409, "en"}, {3, 10, 0x40c, "fr"}, {3, 10, 0x409, "en"},
	{1, 0, 0, "en"}, {1, 0, 0, "en"}, {1, 0, 1, "fr"}, {1, 0, 2, "de"}, {1, 0, 3, "it"},
	{0, 3, 0, ""}, {0, 1, 0, ""},
	// another encoding than Unicode or Mac roman
	{1, 1, 11, "ja"},
}

// the few names written in MacJapanese (Shift JIS)
var sjis = map[string][]byte{
	"ゴシック": {0x83, 0x53, 0x83, 0x56, 0x83, 0x62, 0x83, 0x4e},
	"明朝":   {0x96, 0xbe, 0x92, 0xa9},
}

// an English Mac name which is in fact Shift JIS is read as such (and its language is Japanese)

var famPool = []string{"Foo Sans", "foosans", "Foo  Sans", "Bar", "Bär Serif", "Été", "明朝", "ゴシック", "Quux\tMono", "A", "Noto Foo", "Ω mega", "B𝒞D", "x(y)/z", "Regular"}

var scanStyles = []string{"Regular", "Bold", "Bold Italic", "Italic", "Oblique", "Semi Condensed Oblique", "Ultra", "Condensed Ultra", "Ultra Bold", "UltraBold", "UltraBoldCondensed", "Ultra-Light", "Extra Light", "Demi", "demi light", "SemiLight", "Thin Shadow",
	"Black Italic Caps", "Gras", "Kursiv", "Heavy", "Book", "Medium", "Small Caps", "Extra Expanded", "Ultra Condensed Light", "Extended", "My Ultra", "Multra", "Ultraviolet", "Extra Black", "Super Bold", "normal", "x Ultra.", "Antiqua", "明朝"}

var constTables = struct{ weight, width, slant, deco [][2]interface{} }{
	weight: [][2]interface{}{{"thin", 0.}, {"extralight", 40.}, {"ultralight", 40.}, {"demilight", 55.}, {"semilight", 55.}, {"light", 50.}, {"book", 75.}, {"regular", 80.}, {"normal", 80.}, {"medium", 100.},
		{"demibold", 180.}, {"demi", 180.}, {"semibold", 180.}, {"extrabold", 205.}, {"superbold", 205.}, {"ultrabold", 205.}, {"bold", 200.}, {"ultrablack", 215.}, {"superblack", 215.}, {"extrablack", 215.}, {"<ultra", 205.}, {"black", 210.}, {"heavy", 210.}},
	width: [][2]interface{}{{"ultracondensed", 50.}, {"extracondensed", 63.}, {"semicondensed", 87.}, {"condensed", 75.}, {"normal", 100.}, {"semiexpanded", 113.}, {"extraexpanded", 150.}, {"ultraexpanded", 200.}, {"expanded", 125.}, {"extended", 125.}},
	slant: [][2]interface{}{{"italic", 100.}, {"kursiv", 100.}, {"oblique", 110.}},
	deco:  [][2]interface{}{{"shadow", 1.}, {"caps", 1.}, {"antiqua", 1.}, {"romansc", 1.}, {"embosed", 1.}, {"dunhill", 1.}},
}

func noBlanks(s string) string {
	return strings.NewReplacer(" ", "", "\t", "").Replace(strings.ToLower(s))
}

// lookConst searches the names of a style
func lookConst(style string, tb [][2]interface{}) float64 {
	for _, e := range tb {
		n := e[0].(string)
		if n[0] == '<' {
			// as a whole word: delimited by ASCII punctuation or blanks
			isp := func(c byte) bool {
				return c < 0x7f && !('0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z')
			}
			l, w := lower(style), n[1:]
			for i := 0; i+len(w) <= len(l); i++ {
				if l[i:i+len(w)] == w && (i == 0 || isp(l[i-1])) && (i+len(w) == len(l) || isp(l[i+len(w)])) {
					return e[1].(float64)
				}
			}
		} else if strings.Contains(noBlanks(style), n) {
			return e[1].(float64)
		}
	}
	return -1
}

var foundries = []struct{ notice, name string }{
	{"Copyright Adobe Systems", "adobe"}, {"made by Bigelow & Holmes", "b&h"}, {"Bitstream Vera", "bitstream"}, {"hinted by URW++", "urw"}, {"Bigelow and URW", "b&h"},
	{"IBM Corp", "ibm"}, {"Monotype Imaging", "monotype"}, {"nobody", ""}, {"adobe in lower case", ""}, {"Xorg Foundation", "xorg"}, {"International Typeface Corporation", "itc"},
}

type scanFont struct {
	spec      *sfnt.Spec
	notices   map[int]string // by name record
	encOther  bool
	symbol    bool
	coverage  map[rune]uint16
	psLast    string // the postscript name, if any
	names     []nameRec
	instNames []string
}

type nameRec struct {
	nl    nameLang
	id    uint16
	text  string
	index int
}

func genScanFont(t *run.T) *scanFont {
	f := &scanFont{spec: &sfnt.Spec{Ascent: 800, Descent: -200, Revision: uint32(t.IntN(5))<<16 | uint32(t.IntN(65536)), MacStyle: uint16(t.IntN(4)), Prep: t.Chance(0.5)}, coverage: map[rune]uint16{}}
	s := f.spec
	// glyphs
	ng := t.Range(2, 8)
	kind := t.IntN(4)
	for i := 0; i < ng; i++ {
		adv := uint16(0)
		switch kind {
		case 0:
			adv = 600
		case 1:
			adv = uint16(500 * t.Range(1, 2))
		case 2:
			adv = run.Pick[uint16](t, 0, 600, 605, 620, 1200, 1210)
		default:
			adv = run.Pick[uint16](t, 0, 300, 500, 600, 1000, 2000, uint16(t.IntN(2000)))
		}
		s.Glyphs = append(s.Glyphs, sfnt.Glyph{Adv: adv, W: int16(t.IntN(2) * 300), H: 500})
	}
	// coverage
	glyph := func() uint16 { return uint16(t.Range(1, ng-1)) }
	m := map[rune]uint16{}
	if t.Chance(0.6) {
		os := loadOrth()
		for k := t.Range(1, 3); k > 0; k-- {
			o := os[t.IntN(len(os))]
			if t.Chance(0.3) {
				for o = os[t.IntN(len(os))]; !hanLangs[o.lang] && o.lang != "zh-hk" && o.lang != "zh-sg" && o.lang != "zh-mo"; o = os[t.IntN(len(os))] {
				}
			}
			for _, r := range o.ranges {
				for c := r[0]; c <= r[1]; c++ {
					m[c] = glyph()
				}
			}
		}
		if t.Chance(0.4) { // one missing
			for r := range m {
				_ = r
			}
			rs := make([]rune, 0, len(m))
			for r := range m {
				rs = append(rs, r)
			}
			sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
			if len(rs) > 0 {
				delete(m, rs[t.IntN(len(rs))])
			}
		}
	}
	for k := t.IntN(30); k > 0; k-- {
		m[genRune(t, len(genPages))] = glyph()
	}
	delete(m, 0xffff)
	if len(m) == 0 {
		m['A'] = 1
	}
	// characters mapped to the missing glyph are not covered
	hole := func(in map[rune]uint16) map[rune]uint16 {
		out := map[rune]uint16{}
		for r, g := range in {
			if g != 0 {
				out[r] = g
			}
		}
		return out
	}
	if t.Chance(0.2) {
		for k := t.IntN(10); k > 0; k-- {
			if r := genRune(t, len(genPages)); m[r] == 0 {
				m[r] = 0
			}
		}
		delete(m, 0xffff)
	}
	big := false
	for r := range m {
		big = big || r > 0xffff
	}
	switch x := t.IntN(10); {
	case x == 0: // symbol
		f.symbol = true
		sy := map[rune]uint16{}
		for k := t.Range(1, 40); k > 0; k-- {
			sy[0xf000+rune(t.IntN(0x110))] = glyph()
		}
		s.Cmaps = append(s.Cmaps, sfnt.CmapTable{3, 0, sy})
		if t.Chance(0.5) {
			s.Cmaps = append(s.Cmaps, sfnt.CmapTable{3, 1, m})
		}
		f.coverage = sy
	case x == 1 && !big: // Mac roman only
		f.encOther = true
		s.Cmaps = append(s.Cmaps, sfnt.CmapTable{1, 0, m})
	default:
		f.coverage = map[rune]uint16{}
		if big || t.Chance(0.5) {
			s.Cmaps = append(s.Cmaps, sfnt.CmapTable{run.Pick[uint16](t, 3, 0), 0, m})
			if s.Cmaps[0].Platform == 3 {
				s.Cmaps[0].Encoding = 10
			} else {
				s.Cmaps[0].Encoding = 4
			}
			if t.Chance(0.5) { // and a smaller one, which is ignored
				s.Cmaps = append(s.Cmaps, sfnt.CmapTable{3, 1, map[rune]uint16{'A': 1, 0x3b1: 1}})
			}
		} else {
			s.Cmaps = append(s.Cmaps, sfnt.CmapTable{run.Pick[uint16](t, 3, 0), 0, m})
			if s.Cmaps[0].Platform == 3 {
				s.Cmaps[0].Encoding = 1
			} else {
				s.Cmaps[0].Encoding = uint16(t.IntN(4))
			}
		}
		if t.Chance(0.3) {
			s.Cmaps = append(s.Cmaps, sfnt.CmapTable{1, 0, map[rune]uint16{'A': 1}})
		}
		f.coverage = hole(m)
	}
	// names
	addName := func(nl nameLang, id uint16, text string) {
		val := sfnt.UTF16(text)
		if nl.platform == 1 {
			val = []byte(text)
			if nl.encoding == 1 {
				val = sjis[text]
				if val == nil {
					return
				}
			} else {
				for _, r := range text {
					if r > 127 {
						return
					}
				}
			}
		}
		f.names = append(f.names, nameRec{nl, id, text, len(s.Names)})
		s.Names = append(s.Names, sfnt.Name{Platform: nl.platform, Encoding: nl.encoding, Lang: nl.lang, ID: id, Value: val})
	}
	pad := func(x string) string {
		if t.Chance(0.1) {
			return " " + x + "\t "
		}
		return x
	}
	for k := t.IntN(10); k > 0; k-- {
		nl := nameLangs[t.IntN(len(nameLangs))]
		switch t.IntN(4) {
		case 0, 1:
			addName(nl, run.Pick[uint16](t, 1, 1, 16, 21), pad(famPool[t.IntN(len(famPool))]))
		case 2:
			addName(nl, run.Pick[uint16](t, 2, 2, 17, 22), pad(scanStyles[t.IntN(len(scanStyles))]))
		case 3:
			switch t.IntN(4) {
			case 0:
				addName(nl, run.Pick[uint16](t, 4, 18), "Full "+famPool[t.IntN(len(famPool))])
			case 1:
				addName(nl, run.Pick[uint16](t, 0, 3, 5, 9, 25), "unrelated")
			default:
				addName(nl, run.Pick[uint16](t, 7, 8), foundries[t.IntN(len(foundries))].notice)
			}
		}
	}
	if t.Chance(0.7) {
		addName(nameLangs[0], 1, famPool[t.IntN(len(famPool))])
		addName(nameLangs[0], 2, scanStyles[t.IntN(len(scanStyles))])
	}
	if t.Chance(0.3) && !f.encOther {
		// variable
		for _, a := range []string{"wght", "wdth", "opsz", "slnt"} {
			if !t.Chance(0.5) {
				continue
			}
			def := float64(run.Pick(t, 400, 100, 12, 300))
			ax := sfnt.Axis{Tag: a, Min: def - float64(t.IntN(2)*50), Def: def, Max: def + float64(t.IntN(3)*100), NameID: 1}
			if t.Chance(0.1) {
				ax.Def = ax.Max + 1
			}
			if ax.Min < 1 {
				ax.Min = 1
			}
			s.Axes = append(s.Axes, ax)
		}
		if len(s.Axes) > 0 {
			for k := t.IntN(4); k > 0; k-- {
				in := sfnt.Instance{Subfamily: uint16(256 + t.IntN(4)), PS: -1}
				for _, a := range s.Axes {
					in.Coords = append(in.Coords, run.Pick(t, a.Def, a.Min, a.Max))
				}
				s.Instances = append(s.Instances, in)
			}
			if t.Chance(0.5) {
				for i := range s.Instances {
					s.Instances[i].PS = 280 + i
				}
				addName(nameLangs[0], 280, "Foo-PSname")
			}
			for i := 0; i < 4; i++ {
				{
					addName(nameLangs[t.IntN(4)], uint16(256+i), scanStyles[t.IntN(len(scanStyles))])
				}
			}
		}
	}
	if s.Names != nil && t.Chance(0.6) {
		f.psLast = "Foo-" + run.Pick(t, "Bold", "Italic", "X")
		s.Names = append(s.Names, sfnt.MS(0x409, 6, f.psLast))
	}
	if t.Chance(0.75) {
		o := &sfnt.OS2{Version: uint16(t.IntN(6)), Weight: run.Pick[uint16](t, 100, 200, 300, 350, 400, 500, 600, 700, 800, 900, 950, uint16(t.IntN(1000))), Width: uint16(t.IntN(11)), Vendor: run.Pick(t, "ABCD", "PYRS", "a b ", "\x00\x00\x00\x00", "\x00\x00\x00\x00")}
		o.Selection = run.Pick[uint16](t, 0, 1, 1<<5, 1<<9, 1|1<<5, 1<<6)
		if t.Chance(0.5) {
			o.CodePage1 = run.Pick[uint32](t, 1, 1<<17, 1<<18, 1<<19, 1<<20, 1<<17|1, 1<<17|1<<18, 1<<19|1<<20|1<<18)
		}
		o.LowerPt, o.UpperPt = uint16(t.IntN(3)*100), uint16(200+t.IntN(2)*100)
		s.OS2 = o
	}
	for _, sc := range []string{"arab", "DFLT", "latn", "cyrl", "hang", "grek", "a-b ", "latn"} {
		if t.Chance(0.15) {
			s.GSUBScripts = append(s.GSUBScripts, sc)
			if sc == "latn" {
				break
			}
		}
	}
	for _, sc := range []string{"arab", "DFLT", "latn", "hang"} {
		if t.Chance(0.15) {
			s.GPOSScripts = append(s.GPOSScripts, sc)
		}
	}
	return f
}

type wantPat struct {
	strs   map[fontconfig.Object][]string
	vals   map[fontconfig.Object][]fontconfig.Value
	chars  map[rune]uint16
	langs  map[string]bool
	absent bool
}

func nearly(a, b int) bool {
	d, m := a-b, a
	if d < 0 {
		d = -d
	}
	if b > m {
		m = b
	}
	return d*33 <= m
}

// pattern predicts the pattern of an instance (-1: the font itself). file is
// the identifier of the content.
func (f *scanFont) pattern(file string, face int, inst int) wantPat {
	s := f.spec
	w := wantPat{strs: map[fontconfig.Object][]string{}, vals: map[fontconfig.Object][]fontconfig.Value{}}
	if f.encOther {
		w.absent = true
		return w
	}
	one := func(o fontconfig.Object, v fontconfig.Value) { w.vals[o] = append(w.vals[o], v) }
	fl := func(x float64) fontconfig.Value { return fontconfig.Float(float32(x)) }
	b := func(x bool) fontconfig.Value {
		if x {
			return fontconfig.True
		}
		return fontconfig.False
	}
	one(fontconfig.OUTLINE, b(true))
	one(fontconfig.SCALABLE, b(true))
	one(fontconfig.COLOR, b(false))
	wMult, dMult := 1., 1.
	varW, varD, varS, variable := false, false, false, false
	if inst < 0 {
		for _, a := range s.Axes {
			if a.Min > a.Def || a.Def > a.Max || a.Min == a.Max {
				continue
			}
			r := fontconfig.Range{Begin: float32(a.Min), End: float32(a.Max)}
			switch a.Tag {
			case "wght":
				r.Begin, r.End = fontconfig.WeightFromOT(r.Begin), fontconfig.WeightFromOT(r.End)
				one(fontconfig.WEIGHT, r)
				varW, variable = true, true
			case "wdth":
				one(fontconfig.WIDTH, r)
				varD, variable = true, true
			case "opsz":
				one(fontconfig.SIZE, r)
				varS, variable = true, true
			}
		}
	} else {
		for i, a := range s.Axes {
			c, mult := s.Instances[inst].Coords[i], 1.
			if a.Def != 0 {
				mult = c / a.Def
			}
			switch a.Tag {
			case "wght":
				wMult = mult
			case "wdth":
				dMult = mult
			case "opsz":
				one(fontconfig.SIZE, fl(c))
			}
		}
	}
	one(fontconfig.VARIABLE, b(variable))
	// names
	foundry := ""
	if s.OS2 != nil && s.OS2.Version >= 1 && s.OS2.Vendor[0] != 0 {
		foundry = s.OS2.Vendor
	}
	eng := func(n nameRec) bool {
		return n.nl.platform == 1 && n.nl.lang == 0 || n.nl.platform == 3 && n.nl.lang == 0x409
	}
	type lists struct{ vals, langs []string }
	collect := func(l *lists, obj fontconfig.Object, recs []nameRec) {
		for _, n := range recs {
			v := strings.TrimSpace(n.text)
			dup := false
			for _, o := range l.vals {
				dup = dup || noBlanks(o) == noBlanks(v)
			}
			if dup {
				continue
			}
			l.vals = append(l.vals, v)
			l.langs = append(l.langs, n.nl.code)
		}
	}
	var fam, sty lists
	for _, pl := range []uint16{3, 0, 1, 2} {
		for _, id := range []uint16{21, 16, 1, 18, 4, 22, 17, 2, 7, 8} {
			look := id
			if inst >= 0 {
				if id == 22 || id == 17 || id == 4 {
					continue
				}
				if id == 2 {
					look = s.Instances[inst].Subfamily
				}
			}
			var recs []nameRec
			for _, n := range f.names {
				if n.nl.platform == pl && n.id == look {
					recs = append(recs, n)
				}
			}
			sort.SliceStable(recs, func(i, j int) bool {
				a, c := recs[i], recs[j]
				if a.nl.encoding != c.nl.encoding {
					return a.nl.encoding < c.nl.encoding
				}
				if a.nl.lang != c.nl.lang {
					if eng(a) != eng(c) {
						return eng(a)
					}
					return a.nl.lang < c.nl.lang
				}
				return a.index < c.index
			})
			switch id {
			case 21, 16, 1:
				collect(&fam, fontconfig.FAMILY, recs)
			case 22, 17, 2:
				if !variable {
					collect(&sty, fontconfig.STYLE, recs)
				}
			case 7, 8:
				for _, n := range recs {
					if foundry != "" {
						break
					}
					for _, e := range foundries {
						if e.notice == n.text {
							foundry = e.name
						}
					}
				}
			}
		}
	}
	if len(fam.vals) == 0 {
		// the file name, without directories and extension
		if file == "" {
			w.absent = true
			return w
		}
		base := file[strings.LastIndexByte(file, '/')+1:]
		if i := strings.LastIndexByte(base, '.'); i >= 0 {
			base = base[:i]
		}
		fam = lists{[]string{base}, []string{"en"}}
	}
	if !variable && len(sty.vals) == 0 {
		sty = lists{[]string{"Regular"}, []string{"en"}}
	}
	put := func(l lists, o, ol fontconfig.Object) {
		w.strs[o] = l.vals
		last := -1
		for i, c := range l.langs {
			if c != "" {
				last = i
			}
		}
		var out []string
		for i := 0; i <= last; i++ {
			c := l.langs[i]
			if c == "" {
				c = "und"
			}
			out = append(out, c)
		}
		w.strs[ol] = out
	}
	put(fam, fontconfig.FAMILY, fontconfig.FAMILYLANG)
	put(sty, fontconfig.STYLE, fontconfig.STYLELANG)
	if !variable {
		best := func(l lists) string {
			for i, c := range l.langs {
				if c == "en" {
					return l.vals[i]
				}
			}
			return l.vals[0]
		}
		full := best(fam)
		if st := best(sty); noBlanks(st) != "regular" {
			full += " " + st
		}
		w.strs[fontconfig.FULLNAME] = []string{full}
		w.strs[fontconfig.FULLNAMELANG] = []string{"en"}
		if inst < 0 {
			if f.psLast != "" {
				w.strs[fontconfig.POSTSCRIPT_NAME] = []string{f.psLast}
			} else if len(s.Names) == 0 {
				w.strs[fontconfig.POSTSCRIPT_NAME] = []string{strings.NewReplacer("(", "-", ")", "-", "/", "-", " ", "-", "\t", "-").Replace(best(fam))}
			}
		}
	}
	if file != "" {
		w.strs[fontconfig.FILE] = []string{file}
	} else {
		w.strs[fontconfig.FILE] = nil
	}
	id := face
	if inst >= 0 {
		id |= (inst + 1) << 16
	}
	one(fontconfig.INDEX, fontconfig.Int(id))
	one(fontconfig.FONTVERSION, fontconfig.Int(int32(s.Revision)))
	one(fontconfig.ORDER, fontconfig.Int(0))
	weight, width := -1., -1.
	if s.OS2 != nil {
		weight = float64(fontconfig.WeightFromOT(float32(float64(s.OS2.Weight) * wMult)))
		if wd := s.OS2.Width; wd >= 1 && wd <= 9 {
			width = []float64{50, 63, 75, 87, 100, 113, 125, 150, 200}[wd-1] * dMult
		} else {
			width *= dMult
		}
	}
	var caps []string
	for _, sc := range []string{"DFLT", "arab", "cyrl", "grek", "hang", "latn"} {
		has := false
		for _, x := range append(append([]string(nil), s.GSUBScripts...), s.GPOSScripts...) {
			has = has || x == sc
		}
		if has {
			caps = append(caps, "otlayout:"+sc)
		}
	}
	w.strs[fontconfig.CAPABILITY] = nil
	if s.OS2 != nil && len(caps) > 0 {
		w.strs[fontconfig.CAPABILITY] = []string{strings.Join(caps, " ")}
	}
	one(fontconfig.FONT_HAS_HINT, b(s.Prep))
	if !varS && s.OS2 != nil && s.OS2.Version >= 5 {
		lo, hi := float32(s.OS2.LowerPt)/20, float32(s.OS2.UpperPt)/20
		if lo == hi {
			one(fontconfig.SIZE, fontconfig.Float(lo))
		} else {
			one(fontconfig.SIZE, fontconfig.Range{Begin: lo, End: hi})
		}
	}
	slant, deco := -1., false
	for _, st := range sty.vals {
		if variable {
			break
		}
		if weight == -1 {
			weight = lookConst(st, constTables.weight)
		}
		if width == -1 {
			width = lookConst(st, constTables.width)
		}
		if slant == -1 {
			slant = lookConst(st, constTables.slant)
		}
		deco = deco || lookConst(st, constTables.deco) > 0
	}
	bold, ital := s.MacStyle&1 != 0, s.MacStyle&2 != 0
	if s.OS2 != nil {
		bold, ital = s.OS2.Selection&(1<<5) != 0, s.OS2.Selection&(1|1<<9) != 0
	}
	if slant == -1 {
		slant = 0
		if ital {
			slant = 100
		}
	}
	if weight == -1 {
		weight = 100
		if bold {
			weight = 200
		}
	}
	if width == -1 {
		width = 100
	}
	if foundry == "" {
		foundry = "unknown"
	}
	one(fontconfig.SLANT, fontconfig.Int(int32(slant)))
	if !varW {
		one(fontconfig.WEIGHT, fl(weight))
	}
	if !varD {
		one(fontconfig.WIDTH, fl(width))
	}
	w.strs[fontconfig.FOUNDRY] = []string{foundry}
	one(fontconfig.DECORATIVE, b(deco))
	one(fontconfig.SYMBOL, b(f.symbol))
	// coverage
	w.chars = f.coverage
	if f.symbol {
		m := map[rune]uint16{}
		for r, g := range f.coverage {
			m[r] = g
			if r < 0xf100 {
				m[r-0xf000] = g
			}
		}
		w.chars = m
	}
	w.langs = map[string]bool{}
	excl, nb := "", 0
	if s.OS2 != nil && s.OS2.Version >= 1 {
		for i, l := range []string{"ja", "zh-cn", "ko", "zh-tw"} {
			if s.OS2.CodePage1&(1<<(17+i)) != 0 {
				excl = l
				nb++
			}
		}
	}
	if nb > 1 {
		excl = ""
	}
	if !f.symbol {
		for _, o := range loadOrth() {
			if excl != "" && hanLangs[o.lang] && o.lang != excl {
				continue
			}
			if o.covered(w.chars) {
				w.langs[o.lang] = true
			}
		}
	}
	// spacing: up to three distinct advances, in the order of the characters
	var advs []int
	var rs []rune
	for r := range f.coverage {
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
	for _, r := range rs {
		if len(advs) == 3 {
			break
		}
		a := int(s.Glyphs[f.coverage[r]].Adv)
		if a == 0 {
			continue
		}
		seen := false
		for _, o := range advs {
			seen = seen || nearly(a, o)
		}
		if !seen {
			advs = append(advs, a)
		}
	}
	w.vals[fontconfig.SPACING] = nil
	if len(advs) <= 1 {
		one(fontconfig.SPACING, fontconfig.Int(fontconfig.MONO))
	} else if len(advs) == 2 && nearly(2*min(advs[0], advs[1]), max(advs[0], advs[1])) {
		one(fontconfig.SPACING, fontconfig.Int(fontconfig.DUAL))
	}
	w.strs[fontconfig.FONTFORMAT] = []string{"TrueType"}
	return w
}

func listOf(p fontconfig.Pattern, o fontconfig.Object) (out []fontconfig.Value) {
	for i := 0; ; i++ {
		v, res := p.GetAt(o, i)
		if res != fontconfig.ResultMatch {
			return out
		}
		out = append(out, v)
	}
}

func sameValue(a, b fontconfig.Value) bool {
	close := func(x, y float32) bool { return math.Abs(float64(x-y)) <= 1e-4*(1+math.Abs(float64(x))) }
	switch a := a.(type) {
	case fontconfig.Float:
		b, ok := b.(fontconfig.Float)
		return ok && close(float32(a), float32(b))
	case fontconfig.Range:
		b, ok := b.(fontconfig.Range)
		return ok && close(a.Begin, b.Begin) && close(a.End, b.End)
	}
	return a == b
}

func checkScanned(t *run.T, p fontconfig.Pattern, w wantPat) {
	for o, want := range w.strs {
		got := p.GetStrings(o)
		if len(got) != len(want) || len(want) > 0 && !reflect.DeepEqual(got, want) {
			t.Failf("scan-"+o.String(), "%s of the font: %q, expected %q", o, got, want)
		}
	}
	for o, want := range w.vals {
		got := listOf(p, o)
		ok := len(got) == len(want)
		for i := range want {
			ok = ok && sameValue(got[i], want[i])
		}
		if !ok {
			t.Failf("scan-"+o.String(), "%s of the font: %v, expected %v", o, got, want)
		}
	}
	cs, ok := p.GetCharset(fontconfig.CHARSET)
	if !ok || cs.Len() != len(w.chars) {
		t.Failf("scan-charset", "the charset has %d characters, expected %d", cs.Len(), len(w.chars))
	}
	for r := range w.chars {
		if !cs.HasChar(r) {
			t.Failf("scan-charset", "the charset misses U+%04X", r)
		}
	}
	v, _ := p.GetAt(fontconfig.LANG, 0)
	ls, ok := v.(fontconfig.Langset)
	if !ok {
		t.Failf("scan-lang", "no languages")
	}
	got := map[string]bool{}
	for _, l := range strings.Split(ls.String(), "|") {
		if l != "" && l != "cop" && l != "got" {
			got[l] = true
		}
	}
	for l := range got {
		if !w.langs[l] {
			t.Failf("scan-lang", "the font does not cover the language %s", l)
		}
	}
	for l := range w.langs {
		if !got[l] {
			t.Failf("scan-lang", "the font covers the language %s", l)
		}
	}
	t.Count("languages checked", len(got))
	t.Count("characters checked", len(w.chars))
}

func (f *scanFont) describe() string {
	var sb strings.Builder
	s := f.spec
	for _, n := range f.names {
		fmt.Fprintf(&sb, "name(%d,%d,%x,%d)=%q ", n.nl.platform, n.nl.encoding, n.nl.lang, n.id, n.text)
	}
	fmt.Fprintf(&sb, "ps=%q os2=%+v mac=%d axes=%v inst=%v gsub=%v gpos=%v symbol=%v other=%v glyphs=%v chars=%d", f.psLast, s.OS2, s.MacStyle, s.Axes, s.Instances, s.GSUBScripts, s.GPOSScripts, f.symbol, f.encOther, s.Glyphs, len(f.coverage))
	return sb.String()
}

// expected patterns of a file made of these fonts
func expectFile(fs []*scanFont, file string) (out []wantPat) {
	for i, f := range fs {
		if w := f.pattern(file, i, -1); !w.absent {
			out = append(out, w)
		}
		if len(f.spec.Axes) == 0 {
			continue
		}
		for k, in := range f.spec.Instances {
			def := true
			for j, c := range in.Coords {
				def = def && c == f.spec.Axes[j].Def
			}
			if def {
				continue
			}
			if w := f.pattern(file, i, k); !w.absent {
				out = append(out, w)
			}
		}
	}
	return out
}

func buildFile(fs []*scanFont) []byte {
	if len(fs) == 1 {
		return fs[0].spec.Build()
	}
	var sp []*sfnt.Spec
	for _, f := range fs {
		sp = append(sp, f.spec)
	}
	return sfnt.Collection(sp...)
}

func F11() *run.Prop {
	return &run.Prop{ID: "F11", Rule: "F11-scan", Quick: 12000, Thorough: 120000,
		Need: map[string]int64{"fonts": 2000, "instances": 200, "collections": 200, "file trees": 300, "damaged files": 300, "languages checked": 5000, "filtered fonts": 50, "real fonts": 5},
		// the parsers of the font formats are in another module
		Ignore: func(st string) bool { return strings.Contains(st, "fontconfig.ReadFontFile") },
		Run: func(t *run.T) {
			switch {
			case t.Idx < len(realFonts()):
				scanReal(t, realFonts()[t.Idx])
			case t.IntN(10) < 6:
				scanSynth(t)
			case t.IntN(2) == 0:
				scanTree(t)
			default:
				scanDamaged(t)
			}
		}}
}

func scanSynth(t *run.T) {
	n := 1
	if t.Chance(0.15) {
		n = t.Range(2, 3)
		t.Count("collections", 1)
	}
	var fs []*scanFont
	var desc []string
	for i := 0; i < n; i++ {
		f := genScanFont(t)
		fs = append(fs, f)
		desc = append(desc, f.describe())
	}
	file := run.Pick(t, "/a/b/Foo.ttf", "Foo", "dir.d/x.y.ttf", "./x/foo.bar.otf", "/.hidden/foo", "/x.y/z")
	content := buildFile(fs)
	t.SetInput(fmt.Sprintf("file %q: %s", file, strings.Join(desc, " || ")))
	want := expectFile(fs, file)
	cfg := fontconfig.NewConfig()
	var got fontconfig.Fontset
	var err error
	if p, st := run.Guard(func() { got, err = cfg.ScanFontRessource(bytes.NewReader(content), file) }); p != nil {
		t.Failf("panic-"+run.PanicFP(st), "panic: %v\n%s", p, st)
	}
	if len(want) == 0 {
		if err == nil || len(got) != 0 {
			t.Failf("scan-invalid", "a file without usable fonts is not an error")
		}
		t.Count("files without usable fonts", 1)
		return
	}
	if err != nil || len(got) != len(want) {
		t.Failf("scan-count", "%d fonts (error %v), expected %d", len(got), err, len(want))
	}
	for i := range want {
		checkScanned(t, got[i], want[i])
		t.Count("fonts", 1)
		if v := want[i].vals[fontconfig.INDEX][0].(fontconfig.Int); v >= 1<<16 {
			t.Count("instances", 1)
		}
	}
	t.Distinct(content)
	// a filter applies to the content too
	if t.Chance(0.3) {
		checkSelect(t, func(c *fontconfig.Config) (fontconfig.Fontset, error) {
			return c.ScanFontRessource(bytes.NewReader(content), file)
		}, got)
	}
	// a rule on the scanned fonts
	if t.Chance(0.2) {
		c := fontconfig.NewConfig()
		err := c.LoadFromMemory(strings.NewReader(`<fontconfig><match target="scan"><edit name="family" mode="append"><string>Scanned</string></edit></match><match target="font"><edit name="family"><string>Never</string></edit></match><match><edit name="family"><string>Never</string></edit></match></fontconfig>`))
		if err != nil {
			t.Failf("scan-config", "%v", err)
		}
		fsr, err := c.ScanFontRessource(bytes.NewReader(content), file)
		if err != nil || len(fsr) != len(want) {
			t.Failf("scan-rules", "%v", err)
		}
		for i := range fsr {
			w := append(append([]string(nil), want[i].strs[fontconfig.FAMILY]...), "Scanned")
			if g := fsr[i].GetStrings(fontconfig.FAMILY); !reflect.DeepEqual(g, w) {
				t.Failf("scan-rules", "families %q after the scan rules, expected %q", g, w)
			}
		}
		t.Count("scan rules", 1)
	}
}

// checkSelect verifies the accept and reject patterns
func checkSelect(t *run.T, scan func(c *fontconfig.Config) (fontconfig.Fontset, error), all fontconfig.Fontset) {
	pick := func() string {
		p := all[t.IntN(len(all))]
		fams := p.GetStrings(fontconfig.FAMILY)
		if t.Chance(0.2) {
			return "Nothing"
		}
		return fams[t.IntN(len(fams))]
	}
	esc := strings.NewReplacer("&", "&amp;", "<", "&lt;", "\t", "&#9;")
	acc, rej := pick(), pick()
	accept := t.Chance(0.5)
	pat := func(kind, f string) string {
		return "<" + kind + `><pattern><patelt name="family"><string>` + esc.Replace(f) + "</string></patelt></pattern></" + kind + ">"
	}
	doc := "<fontconfig><selectfont>"
	if accept {
		doc += pat("acceptfont", acc)
	}
	doc += pat("rejectfont", rej) + "</selectfont></fontconfig>"
	c := fontconfig.NewConfig()
	if err := c.LoadFromMemory(strings.NewReader(doc)); err != nil {
		t.Failf("scan-config", "%v", err)
	}
	has := func(p fontconfig.Pattern, f string) bool {
		for _, x := range p.GetStrings(fontconfig.FAMILY) {
			if noBlanks(x) == noBlanks(f) {
				return true
			}
		}
		return false
	}
	var want []string
	for _, p := range all {
		if accept && has(p, acc) || !has(p, rej) {
			want = append(want, p.Hash())
		}
	}
	got, err := scan(c)
	if err != nil && len(want) > 0 {
		t.Failf("scan-select", "%v", err)
	}
	var gh []string
	for _, p := range got {
		gh = append(gh, p.Hash())
	}
	if len(gh) != len(want) || len(want) > 0 && !reflect.DeepEqual(gh, want) {
		t.Failf("scan-select", "%d fonts selected out of %d, expected %d (accept %v %q, reject %q)", len(gh), len(all), len(want), accept, acc, rej)
	}
	t.Count("filtered fonts", len(all)-len(want))
}

// ------------------------------------------------------------ directories

func scanTree(t *run.T) {
	root, err := os.MkdirTemp("", "verif-scan")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(root)
	t.SetInput("tree")
	type entry struct {
		rel     string
		fonts   []*scanFont
		fail    bool
		content []byte
		link    string // absolute target of the link
	}
	var files []*entry
	dirs := []string{"."}
	for k := t.IntN(4); k > 0; k-- {
		d := filepath.Join(dirs[t.IntN(len(dirs))], run.Pick(t, "a", "b", "c.d", ".hid", "Z"))
		if os.MkdirAll(filepath.Join(root, d), 0o755) == nil {
			dirs = append(dirs, d)
		}
	}
	used := map[string]bool{}
	for k := t.Range(1, 7); k > 0; k-- {
		name := run.Pick(t, "f.ttf", "g.otf", "x", "k.ttc", "f2.TTF", ".hidden.ttf", "m.afm", "m.pfm", "fonts.dir", "fonts.scale", "fonts.alias", "e.enc.gz", "z.pcf", "readme", "alias", "dir")
		rel := filepath.Join(dirs[t.IntN(len(dirs))], name)
		if _, err := os.Lstat(filepath.Join(root, rel)); err == nil || used[rel] {
			continue
		}
		used[rel] = true
		e := &entry{rel: rel}
		switch x := t.IntN(10); {
		case x < 7 || len(files) == 0:
			n := 1
			if t.Chance(0.2) {
				n = 2
			}
			for i := 0; i < n; i++ {
				f := genScanFont(t)
				e.fonts = append(e.fonts, f)
			}
			e.content = buildFile(e.fonts)
			os.WriteFile(filepath.Join(root, rel), e.content, 0o644)
		case x < 8: // not a font
			e.content = []byte(run.Pick(t, "", "hello", "\x00\x01\x00\x00", "%!PS-AdobeFont-1.0", "OTTO\x00\x20", "ttcf"))
			os.WriteFile(filepath.Join(root, rel), e.content, 0o644)
		default: // link to a file, or to a directory
			var target string
			if t.Chance(0.7) {
				o := files[t.IntN(len(files))]
				if o.link != "" {
					continue
				}
				target = filepath.Join(root, o.rel)
				e.fonts = o.fonts
			} else {
				target = filepath.Join(root, dirs[t.IntN(len(dirs))])
			}
			e.link = target
			if os.Symlink(target, filepath.Join(root, rel)) != nil {
				continue
			}
		}
		files = append(files, e)
	}
	byRel := map[string]*entry{}
	for _, e := range files {
		byRel[e.rel] = e
	}
	// the directories given, in order
	var args []string
	args = append(args, ".")
	if t.Chance(0.5) {
		args = nil
		for k := t.Range(1, 3); k > 0; k-- {
			args = append(args, dirs[t.IntN(len(dirs))])
		}
	}
	// globs, on one path component
	type glob struct{ pat, name string }
	var rejG, accG string
	doc := ""
	if t.Chance(0.4) {
		e := files[t.IntN(len(files))]
		p := filepath.Join(root, e.rel)
		if e.link != "" {
			p = e.link
		}
		switch t.IntN(3) {
		case 0:
			rejG = p
		case 1:
			rejG = filepath.Dir(p) + "/*"
		case 2:
			rejG = filepath.Dir(p) + "/*.?tf"
		}
		doc = "<fontconfig><selectfont><rejectfont><glob>" + rejG + "</glob></rejectfont>"
		if t.Chance(0.4) {
			accG = filepath.Dir(p) + run.Pick(t, "/f*", "/g.*", "/[gx]*")
			doc += "<acceptfont><glob>" + accG + "</glob></acceptfont>"
		}
		doc += "</selectfont></fontconfig>"
	}
	cfg := fontconfig.NewConfig()
	if doc != "" {
		if err := cfg.LoadFromMemory(strings.NewReader(doc)); err != nil {
			t.Failf("scan-config", "%v", err)
		}
	}
	// model: walk in lexical order
	var want []wantPat
	var wantFiles []string
	seen := map[string]bool{}
	rejected := 0
	var walk func(dir string)
	walk = func(dir string) {
		if seen[dir] {
			return
		}
		seen[dir] = true
		ents, err := os.ReadDir(filepath.Join(root, dir))
		if err != nil {
			panic(err)
		}
		for _, en := range ents {
			rel := filepath.Join(dir, en.Name())
			if en.IsDir() {
				walk(rel)
				continue
			}
			e := byRel[rel]
			name := en.Name()
			skip := name[0] == '.'
			for _, suf := range []string{".enc.gz", ".afm", ".pfm", ".dir", ".scale", ".alias"} {
				skip = skip || strings.HasSuffix(name, suf)
			}
			if e == nil || skip {
				continue
			}
			path := filepath.Join(root, rel)
			if e.link != "" {
				path = e.link
			}
			m := func(g string) bool {
				if g == "" {
					return false
				}
				ok, _ := filepath.Match(g, path)
				return ok
			}
			if !m(accG) && m(rejG) {
				rejected++
				continue
			}
			for _, w := range expectFile(e.fonts, path) {
				want = append(want, w)
				wantFiles = append(wantFiles, path)
			}
		}
	}
	var abs []string
	for _, a := range args {
		walk(filepath.Clean(a))
		abs = append(abs, filepath.Join(root, a))
	}
	t.SetInput(fmt.Sprintf("tree %v, args %q, reject %q accept %q", func() (s []string) {
		for _, e := range files {
			s = append(s, fmt.Sprintf("%s(%d fonts,link %q)", e.rel, len(e.fonts), e.link))
		}
		return
	}(), args, rejG, accG))
	got, err := cfg.ScanFontDirectories(abs...)
	if err != nil {
		t.Failf("tree-error", "%v", err)
	}
	if len(got) != len(want) {
		var g []string
		for _, p := range got {
			f, _ := p.GetString(fontconfig.FILE)
			g = append(g, f)
		}
		t.Failf("tree-count", "%d fonts %v, expected %d %v", len(got), g, len(want), wantFiles)
	}
	for i := range want {
		checkScanned(t, got[i], want[i])
	}
	t.Count("file trees", 1)
	t.Count("rejected paths", rejected)
	t.Distinct(fmt.Sprint(wantFiles, args, rejG))
	if len(got) > 0 && doc == "" && t.Chance(0.4) {
		checkSelect(t, func(c *fontconfig.Config) (fontconfig.Fontset, error) { return c.ScanFontDirectories(abs...) }, got)
	}
	// one file
	if len(got) > 0 && doc == "" {
		f, _ := got[0].GetString(fontconfig.FILE)
		one, err := cfg.ScanFontFile(f)
		if err != nil {
			t.Failf("file-error", "%v", err)
		}
		for i, p := range one {
			if p.Hash() != got[i].Hash() {
				t.Failf("file-differs", "ScanFontFile gives %s, ScanFontDirectories %s", p, got[i])
			}
		}
	}
	// the cached scan gives the same set
	if doc == "" && t.Chance(0.3) {
		if _, err := cfg.ScanFontDirectories(append(abs, filepath.Join(root, "missing"))...); err == nil {
			t.Failf("tree-missing", "no error for a missing directory")
		}
		// every face counts for the partial scan
		fd, err := fontconfig.PartialScanFontDirectories(abs...)
		if err != nil {
			t.Failf("partial-error", "%v", err)
		}
		n := 0
		seen = map[string]bool{}
		want, wantFiles = nil, nil
		for _, a := range args {
			walk(filepath.Clean(a))
		}
		_ = n
		if len(want) > 0 && len(fd) == 0 {
			t.Failf("partial-empty", "the partial scan finds nothing, the full one %d fonts", len(want))
		}
	}
}

// ------------------------------------------------------------ damaged and real files

func scanDamaged(t *run.T) {
	var content []byte
	if t.Chance(0.1) {
		rf := realFonts()
		content, _ = os.ReadFile(rf[t.IntN(len(rf))])
	} else {
		content = buildFile([]*scanFont{genScanFont(t)})
	}
	content = append([]byte(nil), content...)
	var desc []string
	for k := t.Range(1, 4); k > 0 && len(content) > 0; k-- {
		switch t.IntN(4) {
		case 0:
			n := t.IntN(len(content))
			content = content[:n]
			desc = append(desc, fmt.Sprintf("cut at %d", n))
		case 1: // in the table directory
			i := t.IntN(min(len(content), 300))
			content[i] = byte(t.IntN(256))
			desc = append(desc, fmt.Sprintf("byte %d = %d", i, content[i]))
		default:
			i := t.IntN(len(content))
			content[i] ^= 1 << t.IntN(8)
			desc = append(desc, fmt.Sprintf("flip in %d", i))
		}
	}
	t.SetInput("damaged: " + strings.Join(desc, ", "))
	t.Count("damaged files", 1)
	if hugeTables(content) {
		t.Count("damaged files set aside: the parser (another module) allocates the announced sizes", 1)
		return
	}
	cfg := fontconfig.NewConfig()
	var fs fontconfig.Fontset
	var err error
	p, st := run.Guard(func() { fs, err = cfg.ScanFontRessource(bytes.NewReader(content), "x.ttf") })
	if p != nil {
		if strings.HasPrefix(depFrame(st), "textlayout") {
			t.Count("panics inside the font parser (another module)", 1)
			return
		}
		t.Failf("panic-"+run.PanicFP(st), "panic: %v\n%s", p, st)
	}
	if (err == nil) != (len(fs) > 0) {
		t.Failf("damaged-error", "%d fonts and error %v", len(fs), err)
	}
	t.Distinct(content)
	for _, f := range fs {
		checkSane(t, f)
	}
}

// hugeTables tells if a table of the file is announced with a size far beyond
// the one of the file
func hugeTables(b []byte) bool {
	u32 := func(i int) int {
		if i < 0 || i+4 > len(b) {
			return 0
		}
		return int(b[i])<<24 | int(b[i+1])<<16 | int(b[i+2])<<8 | int(b[i+3])
	}
	offs := []int{0}
	if len(b) > 12 && string(b[:4]) == "ttcf" {
		for i := 0; i < min(u32(8), 100); i++ {
			offs = append(offs, u32(12+4*i))
		}
	}
	for _, o := range offs {
		for i := 0; i < min(u32(o+4)>>16, 4096); i++ {
			if u32(o+12+16*i+12) > len(b)+1<<26 && u32(o+12+16*i) != 0 {
				return true
			}
		}
	}
	return false
}

// depFrame tells which module panicked
func depFrame(st string) string {
	if i := strings.Index(st, "panic("); i >= 0 {
		st = st[i:]
	}
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "github.com/benoitkugler/textlayout") && !strings.HasPrefix(l, "\t") {
			return "textlayout"
		}
		if strings.Contains(l, "github.com/benoitkugler/textprocessing") && !strings.HasPrefix(l, "\t") {
			return "textprocessing"
		}
	}
	return "?"
}

// what every scanned font gives
func checkSane(t *run.T, p fontconfig.Pattern) {
	for _, o := range []fontconfig.Object{fontconfig.FAMILY, fontconfig.FILE, fontconfig.FOUNDRY, fontconfig.FONTFORMAT} {
		if _, ok := p.GetString(o); !ok {
			t.Failf("sane", "no %s in %s", o, p)
		}
	}
	for _, o := range []fontconfig.Object{fontconfig.WEIGHT, fontconfig.WIDTH, fontconfig.SLANT, fontconfig.INDEX, fontconfig.OUTLINE, fontconfig.SCALABLE, fontconfig.CHARSET, fontconfig.LANG} {
		if len(listOf(p, o)) != 1 {
			t.Failf("sane", "%d values for %s in %s", len(listOf(p, o)), o, p)
		}
	}
	if v, _ := p.GetBool(fontconfig.VARIABLE); v != fontconfig.True {
		for _, o := range []fontconfig.Object{fontconfig.FULLNAME, fontconfig.STYLE, fontconfig.POSTSCRIPT_NAME} {
			if _, ok := p.GetString(o); !ok {
				t.Failf("sane", "no %s in %s", o, p)
			}
		}
	}
}

var (
	realOnce sync.Once
	realList []string
)

func realFonts() []string {
	realOnce.Do(func() {
		for _, g := range []string{"/usr/share/fonts/truetype/dejavu/*.ttf", "/repo/fontconfig/test/*.ttf", "/repo/fontconfig/test/*.pcf", "/repo/pango/test/*.otf"} {
			l, _ := filepath.Glob(g)
			sort.Strings(l)
			realList = append(realList, l...)
		}
	})
	return realList
}

// what the C library says of the real fonts
var realWant = map[string]string{
	"DejaVuSans.ttf":                  "DejaVu Sans|Book|80|100|0",
	"DejaVuSans-Bold.ttf":             "DejaVu Sans|Bold|200|100|0",
	"DejaVuSans-ExtraLight.ttf":       "DejaVu Sans,DejaVu Sans Light|ExtraLight|40|100|0",
	"DejaVuSansMono.ttf":              "DejaVu Sans Mono|Book|80|100|0",
	"DejaVuSansMono-Bold.ttf":         "DejaVu Sans Mono|Bold|200|100|0",
	"DejaVuSansMono-BoldOblique.ttf":  "DejaVu Sans Mono|Bold Oblique|200|100|110",
	"DejaVuSansMono-Oblique.ttf":      "DejaVu Sans Mono|Oblique|80|100|110",
	"DejaVuSerif.ttf":                 "DejaVu Serif|Book|80|100|0",
	"DejaVuSerif-Bold.ttf":            "DejaVu Serif|Bold|200|100|0",
	"DejaVuSerif-Italic.ttf":          "DejaVu Serif|Italic|80|100|100",
	"DejaVuSansCondensed.ttf":         "DejaVu Sans,DejaVu Sans Condensed|Condensed,Book|80|75|0",
	"DejaVuMathTeXGyre.ttf":           "",
	"4x6.pcf":                         "Misc Fixed|Regular|80|100|0",
	"8x16.pcf":                        "Sony Fixed|Regular|80|100|0",
	"weasyprint.otf":                  "Ahem,WeasyPrint|Regular|80|100|0",
	"DejaVuSansCondensed-Bold.ttf":    "DejaVu Sans,DejaVu Sans Condensed|Condensed Bold,Bold|200|75|0",
	"DejaVuSansCondensed-Oblique.ttf": "DejaVu Sans,DejaVu Sans Condensed|Condensed Oblique,Oblique|80|75|110",
	"DejaVuSans-Oblique.ttf":          "DejaVu Sans|Oblique|80|100|110",
	"DejaVuSans-BoldOblique.ttf":      "DejaVu Sans|Bold Oblique|200|100|110",
	"DejaVuSerifCondensed.ttf":        "DejaVu Serif,DejaVu Serif Condensed|Condensed,Book|80|75|0",
}

func scanReal(t *run.T, path string) {
	t.SetInput(path)
	fs, err := fontconfig.NewConfig().ScanFontFile(path)
	if err != nil {
		t.Failf("real-error", "%v", err)
	}
	t.Count("real fonts", 1)
	t.Distinct(path)
	for _, p := range fs {
		checkSane(t, p)
		w := realWant[filepath.Base(path)]
		wt, _ := p.GetFloat(fontconfig.WEIGHT)
		wd, _ := p.GetFloat(fontconfig.WIDTH)
		sl, _ := p.GetInt(fontconfig.SLANT)
		got := fmt.Sprintf("%s|%s|%g|%g|%d", strings.Join(p.GetStrings(fontconfig.FAMILY), ","), strings.Join(p.GetStrings(fontconfig.STYLE), ","), wt, wd, sl)
		if w != "" && got != w {
			t.Failf("real-"+filepath.Base(path), "scanned as %s, expected %s", got, w)
		}
	}
}
