package pg

import (
	"fmt"
	"math"
	"strings"

	"github.com/benoitkugler/textprocessing/pango"

	"verifharness/run"
)

// ---- P15 : font descriptions and their string forms ----

type fdWord struct {
	word  string
	field int // 0 none, 1 style, 2 variant, 3 weight, 4 stretch, 5 gravity
	value int
}

// the words of the documentation of NewFontDescriptionFrom
var fdWords = []fdWord{
	{"Normal", 0, 0},
	{"Roman", 1, int(pango.STYLE_NORMAL)}, {"Oblique", 1, int(pango.STYLE_OBLIQUE)}, {"Italic", 1, int(pango.STYLE_ITALIC)},
	{"Small-Caps", 2, int(pango.VARIANT_SMALL_CAPS)}, {"All-Small-Caps", 2, int(pango.VARIANT_ALL_SMALL_CAPS)},
	{"Petite-Caps", 2, int(pango.VARIANT_PETITE_CAPS)}, {"All-Petite-Caps", 2, int(pango.VARIANT_ALL_PETITE_CAPS)},
	{"Unicase", 2, int(pango.VARIANT_UNICASE)}, {"Title-Caps", 2, int(pango.VARIANT_TITLE_CAPS)},
	{"Thin", 3, 100}, {"Ultra-Light", 3, 200}, {"Extra-Light", 3, 200}, {"Light", 3, 300}, {"Semi-Light", 3, 350},
	{"Demi-Light", 3, 350}, {"Book", 3, 380}, {"Regular", 3, 400}, {"Medium", 3, 500}, {"Semi-Bold", 3, 600}, {"Demi-Bold", 3, 600},
	{"Bold", 3, 700}, {"Ultra-Bold", 3, 800}, {"Extra-Bold", 3, 800}, {"Heavy", 3, 900}, {"Black", 3, 900}, {"Ultra-Black", 3, 1000},
	{"Extra-Black", 3, 1000},
	{"Ultra-Condensed", 4, int(pango.STRETCH_ULTRA_CONDENSED)}, {"Extra-Condensed", 4, int(pango.STRETCH_EXTRA_CONDENSED)},
	{"Condensed", 4, int(pango.STRETCH_CONDENSED)}, {"Semi-Condensed", 4, int(pango.STRETCH_SEMI_CONDENSED)},
	{"Semi-Expanded", 4, int(pango.STRETCH_SEMI_EXPANDED)}, {"Expanded", 4, int(pango.STRETCH_EXPANDED)},
	{"Extra-Expanded", 4, int(pango.STRETCH_EXTRA_EXPANDED)}, {"Ultra-Expanded", 4, int(pango.STRETCH_ULTRA_EXPANDED)},
	{"Not-Rotated", 5, int(pango.GRAVITY_SOUTH)}, {"South", 5, int(pango.GRAVITY_SOUTH)}, {"Upside-Down", 5, int(pango.GRAVITY_NORTH)},
	{"North", 5, int(pango.GRAVITY_NORTH)}, {"Rotated-Left", 5, int(pango.GRAVITY_EAST)}, {"East", 5, int(pango.GRAVITY_EAST)},
	{"Rotated-Right", 5, int(pango.GRAVITY_WEST)}, {"West", 5, int(pango.GRAVITY_WEST)},
}

func fdSet(d *pango.FontDescription, w fdWord) {
	switch w.field {
	case 1:
		d.SetStyle(pango.Style(w.value))
	case 2:
		d.SetVariant(pango.Variant(w.value))
	case 3:
		d.SetWeight(pango.Weight(w.value))
	case 4:
		d.SetStretch(pango.Stretch(w.value))
	case 5:
		d.SetGravity(pango.Gravity(w.value))
	}
}

// fdBase is what reading a string gives: the style options are always set
func fdBase() pango.FontDescription {
	d := pango.NewFontDescription()
	d.SetStyle(pango.STYLE_NORMAL)
	d.SetVariant(pango.VARIANT_NORMAL)
	d.SetWeight(pango.WEIGHT_NORMAL)
	d.SetStretch(pango.STRETCH_NORMAL)
	return d
}

func fdShow(d pango.FontDescription) string {
	type raw pango.FontDescription // without methods
	return fmt.Sprintf("%+v", raw(d))
}

func fdFamilyName(t *run.T) string {
	plain := []string{"Sans", "DejaVu Sans", "Cantarell", "Noto Sans CJK", "Courier", "é", "ＭＳ ゴシック", "A-B", "x.y", "Nan Madol", "-", "weight", "px", "Auto", "b@c", "X11", "11X", "N=2", "West Coast", "Infinity War"}
	tricky := []string{"Bold", "Arial Black", "Univers 57", "Font 12px", "Font Italic", "South", "Old West", "Gill Sans Ultra-Bold", "12", "1e3", "Normal", "NaN", "Inf", "Times Roman", "A -", "Book", "Not-Rotated", "weight=450", "X weight=450", "0x1p3", "-5", "- -", "Font -3", "A Heavy 12"}
	if t.Chance(0.6) {
		return run.Pick(t, plain...)
	}
	return run.Pick(t, tricky...)
}

func fdFamilies(t *run.T) string {
	n := 1 + t.IntN(2)
	if t.Chance(0.2) {
		n += t.IntN(3)
	}
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, fdFamilyName(t))
	}
	return strings.Join(l, ",")
}

func fdVariations(t *run.T) string {
	n := 1 + t.IntN(3)
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, run.Pick(t, "wght=200", "wdth=7.5", "slnt=-12", "opsz=0", "ABCD=1e3", "wght", "@x=2", "wght300"))
	}
	return strings.Join(l, ",")
}

func fdSize(t *run.T) int32 {
	switch t.IntN(6) {
	case 0:
		return int32(t.IntN(50) * 1024)
	case 1:
		return int32(t.IntN(2000))
	case 2:
		return int32(t.IntN(1000000*1024 + 1))
	case 3:
		return int32(t.IntN(1000001)) * 1024
	case 4:
		return run.Pick(t, int32(0), 1, 512, 1023, 1024, 1025, 1000000*1024, 1000000*1024-1, 10*1024+102)
	default:
		return int32(t.IntN(72*1024) + 1)
	}
}

func mangleCase(t *run.T, w string) string {
	switch t.IntN(5) {
	case 0:
		w = strings.ToLower(w)
	case 1:
		w = strings.ToUpper(w)
	case 2:
		b := []byte(w)
		for i := range b {
			if t.Chance(0.5) {
				b[i] = strings.ToUpper(string(b[i]))[0]
			} else {
				b[i] = strings.ToLower(string(b[i]))[0]
			}
		}
		w = string(b)
	}
	return w
}

func p15Parse(t *run.T) {
	want := fdBase()
	var parts []string
	if t.Chance(0.8) {
		// families which cannot be taken for options, or ended by a comma
		n := 1 + t.IntN(3)
		var l, written []string
		for i := 0; i < n; i++ {
			f := fdFamilyName(t)
			l = append(l, f)
			if t.Chance(0.3) {
				f = " " + strings.ReplaceAll(f, " ", run.Pick(t, " ", "  ", "\t ")) + run.Pick(t, "", " ")
			}
			written = append(written, f)
		}
		s := strings.Join(written, ",")
		for i := 1 + t.IntN(2); i > 0; i-- {
			s += run.Pick(t, ",", ",", " ,")
		}
		if t.Chance(0.5) {
			last := run.Pick(t, "Sans", "Cantarell", "é", "weights", "Nano", "X11", "West-Coast", "Infinite", "b@c")
			l, written = append(l, last), append(written, last)
			s = strings.Join(written, ",")
			t.Count("families", 1)
		} else {
			t.Count("families ended by a comma", 1)
		}
		want.SetFamily(strings.Join(l, ","))
		parts = append(parts, s)
	}
	// one value at most for each field
	seen := map[int]bool{}
	for i := t.IntN(4); i > 0; i-- {
		w := run.Pick(t, fdWords...)
		if w.field != 0 && seen[w.field] {
			continue
		}
		seen[w.field] = true
		fdSet(&want, w)
		word := mangleCase(t, w.word)
		if t.Chance(0.2) {
			word = strings.ReplaceAll(word, "-", "")
		}
		parts = append(parts, word)
		t.Count("style words", 1)
		t.Distinct("words", w.word)
	}
	if t.Chance(0.6) {
		abs := t.Chance(0.4)
		var s string
		var v float64
		switch t.IntN(4) {
		case 0:
			n := t.IntN(1000)
			s, v = fmt.Sprint(n), float64(n)
		case 1:
			n, d := t.IntN(500), t.IntN(1000)
			s, v = fmt.Sprintf("%d.%03d", n, d), float64(n)+float64(d)/1000
		case 2:
			n := t.IntN(1000001)
			s, v = fmt.Sprint(n), float64(n)
		default:
			n := t.IntN(100)
			s, v = fmt.Sprintf("%d.5", n), float64(n)+0.5
		}
		size := int32(math.Floor(v*1024 + 0.5))
		if abs {
			s += "px"
			want.SetAbsoluteSize(size)
			t.Count("absolute sizes", 1)
		} else {
			want.SetSize(size)
		}
		t.Count("sizes", 1)
		parts = append(parts, s)
	}
	if t.Chance(0.3) {
		v := fdVariations(t)
		parts = append(parts, "@"+v)
		want.SetVariations(v)
		t.Count("variations", 1)
	}
	str := strings.Join(parts, run.Pick(t, " ", " ", " ", "  ", "\t"))
	if t.Chance(0.1) {
		str = " " + str + " "
	}
	t.SetInput(fmt.Sprintf("%q", str))
	got := pango.NewFontDescriptionFrom(str)
	if got != want {
		t.Failf("parse", "%q is read as %s instead of %s", str, fdShow(got), fdShow(want))
	}
	t.Count("strings read", 1)
	p15Round(t, got, str)
}

// p15Round checks that the string form of a description gives it back
func p15Round(t *run.T, d pango.FontDescription, from string) {
	s := d.String()
	back := pango.NewFontDescriptionFrom(s)
	// what is not set does not appear: the style fields come back as set
	want := fdBase()
	want.Style, want.Variant, want.Weight, want.Stretch = d.Style, d.Variant, d.Weight, d.Stretch
	zero := d
	has := func(m pango.FontMask) bool { c := zero; c.UnsetFields(m); return c != zero }
	if has(pango.FmFamily) {
		want.SetFamily(d.FamilyName)
	}
	if has(pango.FmSize) {
		if d.SizeIsAbsolute {
			want.SetAbsoluteSize(d.Size)
		} else {
			want.SetSize(d.Size)
		}
	}
	if has(pango.FmGravity) {
		want.SetGravity(d.Gravity)
	}
	if has(pango.FmVariations) {
		want.SetVariations(d.Variations)
	}
	if back != want {
		t.Failf("round trip", "%s (from %s) is written %q, read as %s", fdShow(d), from, s, fdShow(back))
	}
	t.Count("round trips", 1)
	t.Distinct("string forms", s)
	if i := strings.Index(s, ","); i >= 0 && (i == len(s)-1 || s[i+1] == ' ') {
		t.Count("commas written", 1)
	}
}

func p15Setters(t *run.T) {
	// a model of the fields which are set, through random histories
	type model struct {
		fam, vars                    string
		style, variant, weight, str_ int
		size                         int32
		abs                          bool
		gr                           int
		mask                         pango.FontMask
	}
	def := model{weight: 400, str_: int(pango.STRETCH_NORMAL)}
	m := def
	d := pango.NewFontDescription()
	var log []string
	for i := 1 + t.IntN(8); i > 0; i-- {
		switch t.IntN(10) {
		case 0:
			v := fdFamilies(t)
			if t.Chance(0.15) {
				v = ""
			}
			d.SetFamily(v)
			m.fam = v
			if m.mask |= pango.FmFamily; v == "" {
				m.mask &^= pango.FmFamily
			}
			log = append(log, "family "+v)
		case 1:
			v := t.IntN(3)
			d.SetStyle(pango.Style(v))
			m.style = v
			m.mask |= pango.FmStyle
			log = append(log, fmt.Sprint("style ", v))
		case 2:
			v := t.IntN(7)
			d.SetVariant(pango.Variant(v))
			m.variant = v
			m.mask |= pango.FmVariant
			log = append(log, fmt.Sprint("variant ", v))
		case 3:
			v := run.Pick(t, 100, 200, 300, 350, 380, 400, 500, 600, 700, 800, 900, 1000, t.IntN(1001))
			d.SetWeight(pango.Weight(v))
			m.weight = v
			m.mask |= pango.FmWeight
			log = append(log, fmt.Sprint("weight ", v))
		case 4:
			v := t.IntN(9)
			d.SetStretch(pango.Stretch(v))
			m.str_ = v
			m.mask |= pango.FmStretch
			log = append(log, fmt.Sprint("stretch ", v))
		case 5, 6:
			v := fdSize(t)
			if t.Chance(0.05) {
				v = -1 - v/2
			}
			abs := t.Chance(0.5)
			if abs {
				d.SetAbsoluteSize(v)
			} else {
				d.SetSize(v)
			}
			if v >= 0 {
				m.size, m.abs = v, abs
				m.mask |= pango.FmSize
			}
			log = append(log, fmt.Sprint("size ", v, abs))
		case 7:
			v := t.IntN(5)
			d.SetGravity(pango.Gravity(v))
			if pango.Gravity(v) == pango.GRAVITY_AUTO {
				m.gr = 0
				m.mask &^= pango.FmGravity
			} else {
				m.gr = v
				m.mask |= pango.FmGravity
			}
			log = append(log, fmt.Sprint("gravity ", v))
		case 8:
			v := fdVariations(t)
			if t.Chance(0.15) {
				v = ""
			}
			d.SetVariations(v)
			m.vars = v
			if m.mask |= pango.FmVariations; v == "" {
				m.mask &^= pango.FmVariations
			}
			log = append(log, "variations "+v)
		case 9:
			u := pango.FontMask(t.IntN(256)) & pango.FontMask(t.IntN(256))
			d.UnsetFields(u)
			if u&pango.FmFamily != 0 {
				m.fam = ""
			}
			if u&pango.FmStyle != 0 {
				m.style = def.style
			}
			if u&pango.FmVariant != 0 {
				m.variant = def.variant
			}
			if u&pango.FmWeight != 0 {
				m.weight = def.weight
			}
			if u&pango.FmStretch != 0 {
				m.str_ = def.str_
			}
			if u&pango.FmSize != 0 {
				m.size, m.abs = 0, false
			}
			if u&pango.FmGravity != 0 {
				m.gr = 0
			}
			if u&pango.FmVariations != 0 {
				m.vars = ""
			}
			m.mask &^= u
			log = append(log, fmt.Sprintf("unset %x", u))
			t.Count("fields unset", 1)
		}
	}
	t.SetInput(fmt.Sprintf("%q", log))
	t.Count("histories", 1)
	t.Distinct("sets of fields", fmt.Sprint(m.mask))
	// the values
	if d.FamilyName != m.fam || int(d.Style) != m.style || int(d.Variant) != m.variant || int(d.Weight) != m.weight || int(d.Stretch) != m.str_ ||
		d.Size != m.size || d.SizeIsAbsolute != m.abs || int(d.Gravity) != m.gr || d.Variations != m.vars {
		t.Failf("values", "after %q the description is %s instead of %+v", log, fdShow(d), m)
	}
	// the fields set: unsetting one of them is visible only if it is set
	for f := pango.FmFamily; f <= pango.FmVariations; f <<= 1 {
		c := d
		c.UnsetFields(f)
		if (c != d) != (m.mask&f != 0) {
			t.Failf("mask", "after %q the field %x of %s is set %v, expected %v", log, f, fdShow(d), c != d, m.mask&f != 0)
		}
	}
	// hashes
	h := d.AsHash()
	c := d
	c.FamilyName = mangleASCII(t, d.FamilyName)
	if c.AsHash() != h {
		t.Failf("hash", "%s and %s do not share the same hash", fdShow(c), fdShow(d))
	}
	o := d
	switch t.IntN(6) {
	case 0:
		o.SetStyle((d.Style + 1) % 3)
	case 1:
		o.SetWeight(d.Weight + 1)
	case 2:
		if d.SizeIsAbsolute {
			o.SetSize(d.Size)
		} else {
			o.SetAbsoluteSize(d.Size)
		}
	case 3:
		o.SetFamily(d.FamilyName + "x")
	case 4:
		o.SetVariations(d.Variations + ",x")
	case 5:
		o.SetGravity((d.Gravity + 1) % 4)
	}
	if o.AsHash() == h {
		t.Failf("hash", "%s and %s share the same hash", fdShow(o), fdShow(d))
	}
	if d.Size <= 1000000*1024 {
		p15Round(t, d, strings.Join(log, ", "))
	}
}

func mangleASCII(t *run.T, s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'a' <= c && c <= 'z' && t.Chance(0.5) {
			b[i] = c - 32
		}
	}
	return string(b)
}

func p15Any(t *run.T) {
	// any string is read, and its description written and read back
	var l []string
	for i := t.IntN(7); i > 0; i-- {
		switch t.IntN(8) {
		case 0:
			l = append(l, fdFamilyName(t))
		case 1, 2:
			l = append(l, mangleCase(t, run.Pick(t, fdWords...).word))
		case 3:
			l = append(l, run.Pick(t, "12", "-3", "12px", "px", "1e3", "NaN", "inf", "NaNpx", "1e300", "2000000", "0x10", "1_000", "0.0001", "-0", "+5", ".5", "5.", "1e-9"))
		case 4:
			l = append(l, run.Pick(t, "@", "@a", "@@", "@wght=1,", "-", "--", ",", ",,", "a,", ",a", "auto", "weight=", "weight=3x", "weight=999999999999", "weight=-3", "style=1", "\x00", "\xff", "\u00a0", "\u2003"))
		default:
			l = append(l, fdFamilies(t))
		}
	}
	s := strings.Join(l, run.Pick(t, " ", " ", ",", ""))
	t.SetInput(fmt.Sprintf("%q", s))
	var d pango.FontDescription
	if p, st := run.Guard(func() { d = pango.NewFontDescriptionFrom(s) }); p != nil {
		t.Failf(run.PanicFP(st), "reading %q panics: %v\n%s", s, p, st)
	}
	if d.Size < 0 || d.Size > 1000000*1024 {
		t.Failf("size", "%q is read with the size %d", s, d.Size)
	}
	t.Count("any strings", 1)
	if strings.Contains(" "+strings.ReplaceAll(d.FamilyName, ",", ", "), " @") {
		t.Count("families not representable", 1)
		return
	}
	p15Round(t, d, fmt.Sprintf("%q", s))
}

// P15 checks the font descriptions.
func P15() *run.Prop {
	return &run.Prop{
		ID:       "P15",
		Rule:     "font descriptions: strings read as the fields documented, fields set and unset like a record of optional fields, string forms read back as the same description",
		Quick:    2000000,
		Thorough: 50000000,
		Run: func(t *run.T) {
			switch t.IntN(3) {
			case 0:
				p15Parse(t)
			case 1:
				p15Setters(t)
			default:
				p15Any(t)
			}
		},
		Need: map[string]int64{"families": 1, "families ended by a comma": 1, "style words": 1, "sizes": 1, "absolute sizes": 1, "variations": 1, "round trips": 1, "commas written": 1, "histories": 1, "fields unset": 1},
	}
}
