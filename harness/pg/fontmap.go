package pg

import (
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"unicode"

	"github.com/benoitkugler/textlayout/fonts"
	fc "github.com/benoitkugler/textprocessing/fontconfig"
	"github.com/benoitkugler/textprocessing/pango"
	"github.com/benoitkugler/textprocessing/pango/fcfonts"

	"verifharness/run"
	"verifharness/sfnt"
)

// ---- P19 : fonts of the descriptions ----

// wFace is a face of the families of P19
type wFace struct {
	family, style string
	face          int
	weight, width uint16
	italic        bool
	upem          uint16
	only          *unicode.RangeTable // the characters which are in the face
	file          string
	glyphs        map[rune]uint16
	spec          *sfnt.Spec
}

var (
	wOnce  sync.Once
	wFaces []*wFace
	wBy    = map[string]*wFace{} // by file
	wSet   fc.Fontset
	wCfgs  []*fc.Config
)

var wConfigs = []string{
	`<fontconfig><alias binding="same"><family>Sans</family><prefer><family>Wide</family></prefer></alias></fontconfig>`,
	`<fontconfig>
	<match target="pattern"><test name="family"><string>Other</string></test><edit name="family" mode="assign" binding="strong"><string>Few</string></edit></match>
	<match target="pattern"><test name="lang" compare="contains"><string>he</string></test><edit name="family" mode="prepend" binding="strong"><string>Letters</string></edit></match>
	<match target="pattern"><test name="size" compare="more"><double>40</double></test><edit name="weight" mode="assign"><const>bold</const></edit></match>
	<match target="font"><test name="family"><string>Few</string></test><edit name="matrix" mode="assign"><times><name>matrix</name><matrix><double>1</double><double>0.2</double><double>0</double><double>1</double></matrix></times></edit></match>
	<match target="font"><test name="slant"><const>italic</const></test><edit name="fontfeatures" mode="append"><string>ital=1</string></edit></match>
	</fontconfig>`,
}

type wLoader struct{ fail func(fonts.FaceID) bool }

func (l wLoader) LoadFace(key fonts.FaceID, format fc.FontFormat) (fonts.Face, error) {
	if l.fail != nil && l.fail(key) {
		return nil, errors.New("the font is broken")
	}
	return memLoader{}.LoadFace(key, format)
}

func wInit() {
	wOnce.Do(func() {
		log.SetOutput(io.Discard) // the fonts which can't be loaded are reported there
		vFontSet()                // before fontFiles is used
		dir, err := os.MkdirTemp("", "verif-fonts.")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		add := func(f wFace) {
			f.upem = []uint16{1000, 1024, 2048}[len(wFaces)%3]
			s := vSpec(f.family, f.style, f.face, f.weight, f.italic)
			s.UPEM = f.upem
			s.Ascent, s.Descent, s.LineGap = int16(800+20*len(wFaces)), int16(-200-7*len(wFaces)), int16(10*len(wFaces))
			s.OS2.Width = f.width
			m := map[rune]uint16{}
			for r, g := range s.Cmaps[0].Map {
				if f.only == nil || unicode.Is(f.only, r) || r == ' ' {
					m[r] = g
				}
			}
			s.Cmaps[0].Map = m
			f.glyphs, f.spec = m, s
			f.file = filepath.Join(dir, fmt.Sprintf("w%d.ttf", len(wFaces)))
			b := s.Build()
			if err := os.WriteFile(f.file, b, 0o600); err != nil {
				panic(err)
			}
			fontFiles[f.file] = b
			wFaces = append(wFaces, &f)
			wBy[f.file] = &f
		}
		for _, w := range []uint16{300, 400, 700, 900} {
			for _, it := range []bool{false, true} {
				add(wFace{family: "Wide", style: fmt.Sprintf("W%d%v", w, it), face: len(wFaces) % 3, weight: w, width: 5, italic: it})
			}
		}
		for _, w := range []uint16{1, 3, 7, 9} {
			add(wFace{family: "Wide", style: fmt.Sprintf("S%d", w), face: len(wFaces) % 3, weight: 400, width: w})
		}
		add(wFace{family: "Few", style: "Regular", face: 1, weight: 400, width: 5})
		add(wFace{family: "Few", style: "Bold Italic", face: 2, weight: 700, width: 5, italic: true})
		add(wFace{family: "Letters", style: "Hebrew", face: 0, weight: 400, width: 5, only: unicode.Hebrew})
		add(wFace{family: "Letters", style: "Greek", face: 0, weight: 500, width: 4, only: unicode.Greek})
		for i, c := range wConfigs {
			cfg := fc.NewConfig()
			if err := cfg.LoadFromMemory(strings.NewReader(c)); err != nil {
				panic(err)
			}
			if i == 0 {
				wSet, err = cfg.ScanFontDirectories(dir)
				if err != nil {
					panic(err)
				}
				if len(wSet) != len(wFaces) {
					panic(fmt.Sprintf("the scan found %d fonts instead of %d", len(wSet), len(wFaces)))
				}
			}
			wCfgs = append(wCfgs, cfg)
		}
	})
}

// wDesc is a font description
type wDesc struct {
	family     string
	style      pango.Style
	variant    pango.Variant
	weight     pango.Weight
	stretch    pango.Stretch
	size       int // Pango units
	absolute   bool
	variations string
}

func (d wDesc) desc() *pango.FontDescription {
	out := pango.NewFontDescription()
	out.SetFamily(d.family)
	out.SetStyle(d.style)
	out.SetVariant(d.variant)
	out.SetWeight(d.weight)
	out.SetStretch(d.stretch)
	if d.absolute {
		out.SetAbsoluteSize(int32(d.size))
	} else {
		out.SetSize(int32(d.size))
	}
	if d.variations != "" {
		out.SetVariations(d.variations)
	}
	return &out
}

// pixels is the size in Pango units
func (d wDesc) pixels(scale float64) int {
	s := float64(d.size)
	if !d.absolute {
		s *= 96. / 72
	}
	return int(s*scale + .5)
}

func (d wDesc) pattern(lang string, pixels int) fc.Pattern {
	slant := map[pango.Style]int{pango.STYLE_NORMAL: fc.SLANT_ROMAN, pango.STYLE_ITALIC: fc.SLANT_ITALIC, pango.STYLE_OBLIQUE: fc.SLANT_OBLIQUE}[d.style]
	width := []int{50, 63, 75, 87, 100, 113, 125, 150, 200}[d.stretch]
	p := fc.NewPattern()
	p.AddFloat(fc.WEIGHT, fc.WeightFromOT(float32(d.weight)))
	p.AddInt(fc.SLANT, int32(slant))
	p.AddInt(fc.WIDTH, int32(width))
	p.AddBool(fc.VERTICAL_LAYOUT, false)
	p.Add(fc.VARIABLE, fc.DontCare, true)
	p.AddFloat(fc.DPI, 96)
	p.AddFloat(fc.SIZE, float32(pixels)*(72./1024./96))
	p.AddFloat(fc.PIXEL_SIZE, float32(pixels)/1024)
	if d.variations != "" {
		p.AddString(fc.FONT_VARIATIONS, d.variations)
	}
	if d.family != "" {
		for _, f := range strings.Split(d.family, ",") {
			p.AddString(fc.FAMILY, f)
		}
	}
	if lang != "" {
		p.AddString(fc.LANG, lang)
	}
	for _, f := range map[pango.Variant][]string{pango.VARIANT_SMALL_CAPS: {"smcp=1"}, pango.VARIANT_ALL_SMALL_CAPS: {"smcp=1", "c2sc=1"},
		pango.VARIANT_PETITE_CAPS: {"pcap=1"}, pango.VARIANT_ALL_PETITE_CAPS: {"pcap=1", "c2pc=1"}, pango.VARIANT_UNICASE: {"unic=1"}, pango.VARIANT_TITLE_CAPS: {"titl=1"}}[d.variant] {
		p.AddString(fc.FONT_FEATURES, f)
	}
	return p
}

// wantFonts is the list of fonts of a description
func wantFonts(d wDesc, lang string, pixels, cfg int, set fc.Fontset) (out []fc.Pattern) {
	p := d.pattern(lang, pixels)
	wCfgs[cfg].Substitute(p, nil, fc.MatchQuery)
	p.SubstituteDefault()
	out = append(out, set.Match(p, wCfgs[cfg]))
	sorted, _ := set.Sort(p, true)
	for _, f := range sorted[1:] {
		out = append(out, wCfgs[cfg].PrepareRender(p, f))
	}
	return out
}

func mulMatrix(a, b fc.Matrix) fc.Matrix {
	return fc.Matrix{
		Xx: a.Xx*b.Xx + a.Xy*b.Yx, Xy: a.Xx*b.Xy + a.Xy*b.Yy,
		Yx: a.Yx*b.Xx + a.Yy*b.Yx, Yy: a.Yx*b.Xy + a.Yy*b.Yy,
	}
}

func genWDesc(t *run.T) wDesc {
	return wDesc{
		family:     run.Pick(t, "Wide", "Wide", "wide", "Few", "Letters", "Sans", "Other", "Missing", "", "Missing,Few", "Letters,Wide"),
		style:      run.Pick(t, pango.STYLE_NORMAL, pango.STYLE_NORMAL, pango.STYLE_ITALIC, pango.STYLE_OBLIQUE),
		variant:    pango.Variant(t.IntN(7) * t.IntN(2)),
		weight:     run.Pick(t, pango.WEIGHT_NORMAL, pango.WEIGHT_NORMAL, 300, 500, 700, 900, 1000, 350),
		stretch:    run.Pick(t, pango.STRETCH_NORMAL, pango.STRETCH_NORMAL, pango.Stretch(t.IntN(9))),
		size:       run.Pick(t, 10, 12, 16, 40, 100)*1024 + run.Pick(t, 0, 0, 512, t.IntN(1024)),
		absolute:   t.Chance(0.6),
		variations: run.Pick(t, "", "", "", "wght=500", "wght=300,wdth=80"),
	}
}

func P19() *run.Prop {
	wInit()
	return &run.Prop{
		ID: "P19", Quick: 5000, Thorough: 150000,
		Rule: "the fontsets are the fonts fontconfig gives for the description, with their sizes, coverages and metrics",
		Need: map[string]int64{"fontsets": 5000, "fonts": 5000, "matrices of the fonts": 300, "rotated or scaled contexts": 1000, "glyphs": 10000, "same fontsets": 300,
			"descriptions given back": 500, "new configurations": 200, "failures": 500, "no context": 100, "metrics": 1000, "missing characters": 500},
		Run: runP19,
	}
}

type wKey struct {
	d     wDesc
	lang  string
	scale float64
	angle int
}

func runP19(t *run.T) {
	cfg, set := t.IntN(len(wCfgs)), wSet
	fm := fcfonts.NewFontMap(wCfgs[cfg], set)
	bad := map[string]bool{}
	if t.Chance(0.25) {
		for k := t.Range(1, 12); k > 0; k-- {
			bad[run.Pick(t, wFaces...).file] = true
		}
	}
	loader := wLoader{}
	if len(bad) > 0 {
		loader.fail = func(id fonts.FaceID) bool { return bad[id.File] }
	}
	fm.SetFaceLoader(loader)
	var done []wKey
	seen := map[wKey][]pango.Font{}
	var trace []string
	for k := t.Range(1, 5); k > 0; k-- {
		if t.Chance(0.15) {
			cfg = t.IntN(len(wCfgs))
			set = wSet
			if t.Chance(0.5) { // a part of the fonts
				set = nil
				for _, f := range wSet {
					if t.Chance(0.6) {
						set = append(set, f)
					}
				}
				if len(set) == 0 {
					set = wSet[:1]
				}
			}
			fm.SetConfig(wCfgs[cfg], set)
			seen = map[wKey][]pango.Font{}
			t.Count("new configurations", 1)
			trace = append(trace, fmt.Sprintf("config %d with %d fonts", cfg, len(set)))
		}
		key := wKey{d: genWDesc(t), lang: run.Pick(t, "en", "he", "el", "zh-cn", "fr"), scale: 1}
		if t.Chance(0.3) {
			key.scale, key.angle = run.Pick(t, 1, 2, 0.5, 3), t.IntN(4)
		}
		if len(done) > 0 && t.Chance(0.4) {
			old := run.Pick(t, done...)
			switch t.IntN(4) {
			case 0:
				key = old
			case 1:
				key.d = old.d
			case 2:
				size := key.d.size
				key = old
				key.d.size = size
			default:
				style := key.d.style
				key = old
				key.d.style = style
			}
		}
		done = append(done, key)
		trace = append(trace, fmt.Sprintf("%+v", key))
		t.SetInput(fmt.Sprintf("%d broken fonts, %s", len(bad), strings.Join(trace, "; ")))

		ctx := pango.NewContext(fm)
		ctx.SetLanguage(pango.Language(key.lang))
		m := fc.Identity
		if key.scale != 1 || key.angle != 0 {
			t.Count("rotated or scaled contexts", 1)
			c, s := float32([]float64{1, 0, -1, 0}[key.angle]*key.scale), float32([]float64{0, 1, 0, -1}[key.angle]*key.scale)
			pm := pango.Matrix{Xx: c, Xy: s, Yx: -s, Yy: c, X0: float32(t.IntN(3))}
			ctx.Matrix = &pm
			m = fc.Matrix{Xx: c, Xy: -s, Yx: s, Yy: c}
		}
		desc := key.d.desc()
		lang := pango.Language(key.lang)
		switch {
		case t.Chance(0.3):
			lang = "" // the one of the context
		case key.scale == 1 && key.angle == 0 && t.Chance(0.1):
			ctx = nil
			t.Count("no context", 1)
		}
		var got []*fcfonts.Font
		fs := fm.LoadFontset(ctx, desc, lang)
		stop := -1
		if t.Chance(0.3) {
			stop = t.IntN(4)
		}
		fs.Foreach(func(f pango.Font) bool {
			got = append(got, f.(*fcfonts.Font))
			return len(got)-1 == stop
		})
		t.Count("fontsets", 1)
		if fs.GetLanguage() != pango.Language(key.lang) {
			t.Failf("language", "language %q of the fontset, want %q", fs.GetLanguage(), key.lang)
			return
		}
		pixels := key.d.pixels(key.scale)
		var want []fc.Pattern
		for _, p := range wantFonts(key.d, key.lang, pixels, cfg, set) {
			if bad[p.FaceID().File] {
				t.Count("failures", 1)
				continue // the fonts which can't be loaded are left out
			}
			want = append(want, p)
		}
		if stop >= 0 && len(want) > stop+1 {
			want = want[:stop+1]
		}
		if len(got) != len(want) {
			t.Failf("fonts", "%d fonts, want %d", len(got), len(want))
			return
		}
		// the same fonts are returned again
		if old := seen[key]; old != nil {
			t.Count("same fontsets", 1)
			for i := range got {
				if i < len(old) && old[i] != pango.Font(got[i]) {
					t.Failf("same", "the font %d is not the same the second time", i)
					return
				}
			}
		}
		var list []pango.Font
		for i, f := range got {
			t.Count("fonts", 1)
			list = append(list, f)
			if !wantFont(t, key, i, f, want[i], m) {
				return
			}
		}
		seen[key] = list
	}
}

func wantFont(t *run.T, key wKey, i int, f *fcfonts.Font, want fc.Pattern, m fc.Matrix) bool {
	if f.FaceID() != want.FaceID() {
		t.Failf("face", "the font %d is %v, want %v", i, f.FaceID(), want.FaceID())
		return false
	}
	for _, b := range want.GetMatrices(fc.MATRIX) {
		if b != fc.Identity {
			t.Count("matrices of the fonts", 1)
		}
		m = mulMatrix(m, b)
	}
	for o, v := range want {
		if o == fc.MATRIX {
			continue
		}
		if g, ok := f.Pattern[o]; !ok || fmt.Sprint(g) != fmt.Sprint(v) {
			t.Failf("pattern", "the object %v of the font %d is %v, want %v", o, i, g, v)
			return false
		}
	}
	if g, _ := f.Pattern.GetMatrix(fc.MATRIX); g != m {
		t.Failf("matrix", "the matrix of the font %d is %v, want %v", i, g, m)
		return false
	}
	w := wBy[want.FaceID().File]
	// its description
	d, abs := f.Describe(false), f.Describe(true)
	fail := func(what string, g, w interface{}) bool {
		t.Failf("describe-"+what, "the font %d has the %s %v, want %v", i, what, g, w)
		return false
	}
	style := pango.STYLE_NORMAL
	if w.italic {
		style = pango.STYLE_ITALIC
	}
	stretch := map[uint16]pango.Stretch{1: 0, 3: 2, 4: 3, 5: 4, 7: 6, 9: 8}[w.width]
	size, _ := want.GetFloat(fc.SIZE)
	pix, _ := want.GetFloat(fc.PIXEL_SIZE)
	switch {
	case d.FamilyName != w.family:
		return fail("family", d.FamilyName, w.family)
	case d.Style != style:
		return fail("style", d.Style, style)
	case absInt(int(d.Weight)-int(w.weight)) > 1:
		return fail("weight", d.Weight, w.weight)
	case d.Stretch != stretch:
		return fail("stretch", d.Stretch, stretch)
	case d.Variant != key.d.variant:
		return fail("variant", d.Variant, key.d.variant)
	case d.Variations != key.d.variations:
		return fail("variations", d.Variations, key.d.variations)
	case d.SizeIsAbsolute || key.scale == 1 && m.Xx == 1 && m.Xy == 0 && absInt(int(d.Size)-int(size*1024)) > 2:
		return fail("size", d.Size, size*1024)
	case !abs.SizeIsAbsolute || absInt(int(abs.Size)-int(pix*1024)) > 2:
		return fail("pixel size", abs.Size, pix*1024)
	case absInt(int(pix*1024)-key.d.pixels(key.scale)) > 2:
		return fail("pixel size", pix*1024, key.d.pixels(key.scale))
	}
	if key.scale == 1 && m == fc.Identity && key.d.absolute == false {
		t.Count("descriptions given back", 1)
		if absInt(int(d.Size)-key.d.size) > 2 {
			return fail("size", d.Size, key.d.size)
		}
	}
	// its characters
	cov := f.GetCoverage(pango.Language(key.lang))
	hb := f.GetHarfbuzzFont()
	if hb == nil {
		return fail("harfbuzz font", nil, "one")
	}
	units := float64(key.d.pixels(key.scale)) / key.scale
	// the matrices of the fonts of the configuration do not change the vertical scale
	us := units / float64(w.upem)
	chars := vCharset()
	for k := 0; k < 4; k++ {
		r := run.Pick(t, chars...)
		if t.Chance(0.2) {
			r = rune(t.IntN(0x3000))
		}
		g, has := w.glyphs[r]
		if cov.Get(r) != has {
			t.Failf("coverage", "the coverage of %U by the font %d is %v, want %v", r, i, cov.Get(r), has)
			return false
		}
		if !has {
			t.Count("missing characters", 1)
			continue
		}
		if n, ok := hb.Face().NominalGlyph(r); !ok || uint16(n) != g {
			t.Failf("glyph", "the glyph of %U in the font %d is %d, want %d", r, i, n, g)
			return false
		}
		if m.Xy != 0 && key.angle%2 == 0 && m.Xx != 0 {
			continue // slanted : the horizontal scale is not documented
		}
		t.Count("glyphs", 1)
		s := w.spec.Glyphs[g]
		var ink, log pango.Rectangle
		f.GlyphExtents(pango.Glyph(g), &ink, &log)
		wl := fRect(0, -us*float64(w.spec.Ascent), us*float64(s.Adv), us*float64(int(w.spec.Ascent)-int(w.spec.Descent)))
		wi := fRect(us*float64(s.X), -us*float64(s.Y+s.H), us*float64(s.W), us*float64(s.H))
		if !nearRect(log, wl, 3) {
			t.Failf("logical", "the logical extents of %U in the font %d (%d units per em) are %v, want %v", r, i, w.upem, log, wl)
			return false
		}
		if s.W > 0 && s.H > 0 && !nearRect(ink, wi, 3) {
			t.Failf("ink", "the ink extents of %U in the font %d are %v, want %v", r, i, ink, wi)
			return false
		}
	}
	feats := f.GetFeatures()
	if names := want.GetStrings(fc.FONT_FEATURES); len(feats) != len(names) {
		return fail("features", feats, names)
	} else {
		for k, n := range names {
			if string([]byte{byte(feats[k].Tag >> 24), byte(feats[k].Tag >> 16), byte(feats[k].Tag >> 8), byte(feats[k].Tag)}) != n[:4] || feats[k].Value != 1 {
				return fail("feature", feats[k], n)
			}
		}
	}
	if i == 0 && key.scale == 1 && key.angle == 0 && m == fc.Identity {
		t.Count("metrics", 1)
		mt := f.GetMetrics(pango.Language(key.lang))
		asc, desc, gap := us*float64(w.spec.Ascent), -us*float64(w.spec.Descent), us*float64(w.spec.LineGap)
		for name, p := range map[string][2]float64{
			"ascent": {float64(mt.Ascent), asc}, "descent": {float64(mt.Descent), desc}, "height": {float64(mt.Height), asc + desc + gap},
			"underline position": {float64(mt.UnderlinePosition), -128 * us}, "underline thickness": {float64(mt.UnderlineThickness), 64 * us},
			"strikethrough position": {float64(mt.StrikethroughPosition), 256 * us}, "strikethrough thickness": {float64(mt.StrikethroughThickness), 64 * us},
		} {
			if p[0]-p[1] > 4 || p[1]-p[0] > 4 {
				t.Failf("metrics", "the %s of the font %d is %g, want %g", name, i, p[0], p[1])
				return false
			}
		}
		if mt != f.GetMetrics(pango.Language(key.lang)) {
			t.Failf("metrics-again", "the metrics of the font %d change", i)
			return false
		}
	}
	t.Distinct("font", want.FaceID().File, key.d.variant, key.d.size, key.angle)
	return true
}

func fRect(x, y, w, h float64) pango.Rectangle {
	return rectOf(int(x), int(y), int(w), int(h))
}
