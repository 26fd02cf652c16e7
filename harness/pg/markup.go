package pg

import (
	"fmt"
	"sort"
	"strings"

	"github.com/benoitkugler/textprocessing/pango"

	"verifharness/run"
)

// ---- P05 : markup ----

// mkNode is a node of the tree of a markup : text, comment or element
type mkNode struct {
	text []rune // displayed
	src  string // its source, for texts and comments
	tag  string
	args []mkArg
	kids []*mkNode
	acc  []int // accelerators in text
}

type mkArg struct {
	name, value string
	attrs       []*pango.Attribute
	group       string // the arguments which exclude each other
	rel         int    // relative size
	scale       float32
	size        int // absolute size
	sizePx      bool
	font        bool
}

func pt(v float64) int { return int(v * 1024) }

func genColor(t *run.T, alpha bool) (string, pango.AttrColor, int) {
	if t.Chance(0.3) {
		keys := cssNames
		k := run.Pick(t, keys...)
		v := cssColors[k]
		return mangleCase(t, k), pango.AttrColor{Red: uint16(v>>16) * 0x101, Green: uint16(v>>8&0xff) * 0x101, Blue: uint16(v&0xff) * 0x101}, -1
	}
	n := 1 + t.IntN(4)
	comp := func() (string, uint16) {
		v := t.IntN(1 << (4 * n))
		s := fmt.Sprintf("%0*x", n, v)
		if t.Chance(0.3) {
			s = strings.ToUpper(s)
		}
		// the digits are repeated up to 16 bits
		r := s
		for len(r) < 4 {
			r += s
		}
		var u uint16
		fmt.Sscanf(r[:4], "%x", &u)
		return s, u
	}
	r, rv := comp()
	g, gv := comp()
	b, bv := comp()
	a := -1
	s := "#" + r + g + b
	if alpha && n != 3 && t.Chance(0.3) {
		as, av := comp()
		s += as
		a = int(av)
	}
	return s, pango.AttrColor{Red: rv, Green: gv, Blue: bv}, a
}

var cssNames = func() (out []string) {
	for k := range cssColors {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}()

func genBool(t *run.T) (string, bool) {
	if t.Chance(0.5) {
		return run.Pick(t, "true", "yes", "t", "y"), true
	}
	return run.Pick(t, "false", "no", "f", "n"), false
}

func genLength(t *run.T) (string, int) {
	if t.Chance(0.5) {
		v := t.Range(-20000, 20000)
		return fmt.Sprint(v), v
	}
	v := float64(t.Range(-160, 160)) / 4
	return fmt.Sprintf("%gpt", v), pt(v)
}

type enumWord struct {
	w string
	v int
}

func genMkArg(t *run.T) mkArg {
	one := func(group, value string, attrs ...*pango.Attribute) mkArg {
		names := strings.Split(group, "/")
		name := run.Pick(t, names...)
		if t.Chance(0.2) {
			name = strings.ReplaceAll(name, "_", "-")
		}
		return mkArg{name: name, value: value, attrs: attrs, group: group}
	}
	enum := func(l ...enumWord) (string, int) {
		e := run.Pick(t, l...)
		return e.w, e.v
	}
	switch t.IntN(29) {
	case 0:
		// font descriptions : the words are checked by P15
		fam := run.Pick(t, "", "Sans", "Foo Bar")
		word := run.Pick(t, "", "", "Bold", "Italic", "Condensed")
		size := run.Pick(t, "", "", "12", "7.5", "20px")
		s := strings.Join(strings.Fields(fam+" "+word+" "+size), " ")
		if s == "" {
			s = "Normal"
		}
		d := pango.NewFontDescriptionFrom(s)
		a := one("font/font_desc", s, pango.NewAttrFontDescription(d))
		a.font = true
		if size != "" {
			a.size, a.sizePx = int(d.Size), d.SizeIsAbsolute
		}
		return a
	case 1:
		f := run.Pick(t, "Sans", "Serif", "Foo Bar", "A,B")
		return one("font_family/face", f, pango.NewAttrFamily(f))
	case 2, 3:
		switch t.IntN(4) {
		case 0:
			v := t.Range(1, 30000)
			a := one("font_size/size", fmt.Sprint(v), pango.NewAttrSize(v))
			a.size = v
			return a
		case 1:
			v := float64(t.Range(1, 120)) / 4
			a := one("font_size/size", fmt.Sprintf("%gpt", v), pango.NewAttrSize(pt(v)))
			a.size = pt(v)
			return a
		case 2:
			w := run.Pick(t, enumWord{"smaller", -1}, enumWord{"larger", 1})
			a := one("font_size/size", w.w)
			a.rel = w.v
			return a
		default:
			type sc struct {
				s string
				f float32
			}
			v := run.Pick(t, sc{"xx-small", 0.5787037}, sc{"x-small", 0.6944444}, sc{"small", 0.8333333}, sc{"medium", 1}, sc{"large", 1.2}, sc{"x-large", 1.44}, sc{"xx-large", 1.728}, sc{"150%", 1.5}, sc{"50%", 0.5}, sc{"33.5%", 0.335})
			a := one("font_size/size", v.s, pango.NewAttrScale(pango.Fl(v.f)))
			a.scale = v.f
			return a
		}
	case 4:
		w, v := enum(enumWord{"normal", 0}, enumWord{"oblique", 1}, enumWord{"italic", 2})
		return one("font_style/style", mangleCase(t, w), pango.NewAttrStyle(pango.Style(v)))
	case 5:
		w, v := enum(enumWord{"ultralight", 200}, enumWord{"light", 300}, enumWord{"normal", 400}, enumWord{"bold", 700}, enumWord{"ultrabold", 800}, enumWord{"heavy", 900})
		if t.Chance(0.4) {
			v = t.Range(1, 1000)
			w = fmt.Sprint(v)
		}
		return one("font_weight/weight", mangleCase(t, w), pango.NewAttrWeight(pango.Weight(v)))
	case 6:
		w, v := enum(enumWord{"normal", 0}, enumWord{"smallcaps", int(pango.VARIANT_SMALL_CAPS)}, enumWord{"small-caps", int(pango.VARIANT_SMALL_CAPS)})
		return one("font_variant/variant", w, pango.NewAttrVariant(pango.Variant(v)))
	case 7:
		w, v := enum(enumWord{"ultracondensed", 0}, enumWord{"extracondensed", 1}, enumWord{"condensed", 2}, enumWord{"semicondensed", 3}, enumWord{"normal", 4},
			enumWord{"semiexpanded", 5}, enumWord{"expanded", 6}, enumWord{"extraexpanded", 7}, enumWord{"ultraexpanded", 8})
		return one("font_stretch/stretch", mangleCase(t, w), pango.NewAttrStretch(pango.Stretch(v)))
	case 8:
		f := run.Pick(t, "dlig=1, -kern", "afrc on", "liga=0")
		return one("font_features", f, pango.NewAttrFontFeatures(f))
	case 9, 10:
		s, c, a := genColor(t, true)
		attrs := []*pango.Attribute{pango.NewAttrForeground(c)}
		if a >= 0 && a != 0xffff {
			attrs = append(attrs, pango.NewAttrForegroundAlpha(uint16(a)))
		}
		return one("foreground/fgcolor/color", s, attrs...)
	case 11:
		s, c, a := genColor(t, true)
		attrs := []*pango.Attribute{pango.NewAttrBackground(c)}
		if a >= 0 && a != 0xffff {
			attrs = append(attrs, pango.NewAttrBackgroundAlpha(uint16(a)))
		}
		return one("background/bgcolor", s, attrs...)
	case 12, 13:
		v := t.Range(1, 0xffff)
		s := fmt.Sprint(v)
		if t.Chance(0.5) {
			v = t.Range(1, 100)
			s = fmt.Sprintf("%d%%", v)
			v = v * 0xffff / 100
		}
		if t.Chance(0.5) {
			return one("alpha/fgalpha", s, pango.NewAttrForegroundAlpha(uint16(v)))
		}
		return one("background_alpha/bgalpha", s, pango.NewAttrBackgroundAlpha(uint16(v)))
	case 14:
		w, v := enum(enumWord{"none", 0}, enumWord{"single", int(pango.UNDERLINE_SINGLE)}, enumWord{"double", int(pango.UNDERLINE_DOUBLE)}, enumWord{"low", int(pango.UNDERLINE_LOW)}, enumWord{"error", int(pango.UNDERLINE_ERROR)},
			enumWord{"single-line", int(pango.UNDERLINE_SINGLE_LINE)}, enumWord{"double-line", int(pango.UNDERLINE_DOUBLE_LINE)}, enumWord{"error-line", int(pango.UNDERLINE_ERROR_LINE)})
		return one("underline", w, pango.NewAttrUnderline(pango.Underline(v)))
	case 15:
		s, c, _ := genColor(t, false)
		switch t.IntN(3) {
		case 0:
			return one("underline_color", s, pango.NewAttrUnderlineColor(c))
		case 1:
			return one("overline_color", s, pango.NewAttrOverlineColor(c))
		default:
			return one("strikethrough_color", s, pango.NewAttrStrikethroughColor(c))
		}
	case 16:
		w, v := enum(enumWord{"none", 0}, enumWord{"single", int(pango.OVERLINE_SINGLE)})
		return one("overline", w, pango.NewAttrOverline(pango.Overline(v)))
	case 17:
		s, v := genLength(t)
		return one("rise", s, pango.NewAttrRise(v))
	case 18:
		s, v := genBool(t)
		return one("strikethrough", s, pango.NewAttrStrikethrough(v))
	case 19:
		s, v := genBool(t)
		return one("fallback", s, pango.NewAttrFallback(v))
	case 20:
		s, v := genBool(t)
		return one("allow_breaks", s, pango.NewAttrAllowBreaks(v))
	case 21:
		s, v := genBool(t)
		return one("insert_hyphens", s, pango.NewAttrInsertHyphens(v))
	case 22:
		var l []string
		var f pango.ShowFlags
		for i := 1 + t.IntN(3); i > 0; i-- {
			w, v := enum(enumWord{"spaces", int(pango.SHOW_SPACES)}, enumWord{"line-breaks", int(pango.SHOW_LINE_BREAKS)}, enumWord{"ignorables", int(pango.SHOW_IGNORABLES)}, enumWord{"none", 0})
			l = append(l, w)
			f |= pango.ShowFlags(v)
		}
		return one("show", strings.Join(l, run.Pick(t, "|", " | ")), pango.NewAttrShow(f))
	case 23:
		l := run.Pick(t, "en", "fr-fr", "he", "zh-cn")
		return one("lang", l, pango.NewAttrLanguage(pango.Language(l)))
	case 24:
		v := t.Range(-3000, 3000)
		return one("letter_spacing", fmt.Sprint(v), pango.NewAttrLetterSpacing(int32(v)))
	case 25:
		if t.Chance(0.5) {
			w, v := enum(enumWord{"south", int(pango.GRAVITY_SOUTH)}, enumWord{"east", int(pango.GRAVITY_EAST)}, enumWord{"north", int(pango.GRAVITY_NORTH)}, enumWord{"west", int(pango.GRAVITY_WEST)})
			return one("gravity", w, pango.NewAttrGravity(pango.Gravity(v)))
		}
		w, v := enum(enumWord{"natural", int(pango.GRAVITY_HINT_NATURAL)}, enumWord{"strong", int(pango.GRAVITY_HINT_STRONG)}, enumWord{"line", int(pango.GRAVITY_HINT_LINE)})
		return one("gravity_hint", w, pango.NewAttrGravityHint(pango.GravityHint(v)))
	case 26:
		if t.Chance(0.5) {
			w, v := enum(enumWord{"superscript", int(pango.BASELINE_SHIFT_SUPERSCRIPT)}, enumWord{"subscript", int(pango.BASELINE_SHIFT_SUBSCRIPT)}, enumWord{"none", 0}, enumWord{"3000", 3000}, enumWord{"-5pt", -5120})
			return one("baseline_shift", w, pango.NewAttrBaselineShift(v))
		}
		w, v := enum(enumWord{"superscript", int(pango.FONT_SCALE_SUPERSCRIPT)}, enumWord{"subscript", int(pango.FONT_SCALE_SUBSCRIPT)}, enumWord{"none", 0})
		return one("font_scale", w, pango.NewAttrFontScale(pango.FontScale(v)))
	case 27:
		if t.Chance(0.5) {
			w, v := enum(enumWord{"none", int(pango.TEXT_TRANSFORM_NONE)}, enumWord{"lowercase", int(pango.TEXT_TRANSFORM_LOWERCASE)}, enumWord{"uppercase", int(pango.TEXT_TRANSFORM_UPPERCASE)}, enumWord{"capitalize", int(pango.TEXT_TRANSFORM_CAPITALIZE)})
			return one("text_transform", w, pango.NewAttrTextTransform(pango.TextTransform(v)))
		}
		if t.Chance(0.5) {
			return one("segment", "word", pango.NewAttrWord())
		}
		return one("segment", "sentence", pango.NewAttrSentence())
	default:
		if t.Chance(0.5) {
			v := t.Range(1025, 9000)
			return one("line_height", fmt.Sprint(v), pango.NewAttrAbsoluteLineHeight(v))
		}
		v := float32(t.Range(1, 40)) / 8
		return one("line_height", fmt.Sprint(v), pango.NewAttrLineHeight(v))
	}
}

// the convenience tags
func tagArgs(tag string) []mkArg {
	switch tag {
	case "b":
		return []mkArg{{attrs: []*pango.Attribute{pango.NewAttrWeight(700)}}}
	case "big":
		return []mkArg{{rel: 1}}
	case "small":
		return []mkArg{{rel: -1}}
	case "i":
		return []mkArg{{attrs: []*pango.Attribute{pango.NewAttrStyle(pango.STYLE_ITALIC)}}}
	case "s":
		return []mkArg{{attrs: []*pango.Attribute{pango.NewAttrStrikethrough(true)}}}
	case "sub":
		return []mkArg{{attrs: []*pango.Attribute{pango.NewAttrFontScale(pango.FONT_SCALE_SUBSCRIPT), pango.NewAttrBaselineShift(int(pango.BASELINE_SHIFT_SUBSCRIPT))}}}
	case "sup":
		return []mkArg{{attrs: []*pango.Attribute{pango.NewAttrFontScale(pango.FONT_SCALE_SUPERSCRIPT), pango.NewAttrBaselineShift(int(pango.BASELINE_SHIFT_SUPERSCRIPT))}}}
	case "tt":
		return []mkArg{{attrs: []*pango.Attribute{pango.NewAttrFamily("Monospace")}}}
	case "u":
		return []mkArg{{attrs: []*pango.Attribute{pango.NewAttrUnderline(pango.UNDERLINE_SINGLE)}}}
	}
	return nil
}

func xmlEscape(t *run.T, r rune) string {
	switch r {
	case '<':
		return run.Pick(t, "&lt;", "&#60;", "&#x3c;")
	case '&':
		return run.Pick(t, "&amp;", "&#38;")
	case '>':
		return "&gt;"
	case '"':
		return run.Pick(t, "&quot;", "\"")
	case '\'':
		return run.Pick(t, "&apos;", "'")
	}
	return string(r)
}

func genMkText(t *run.T, acc rune) *mkNode {
	n := &mkNode{}
	var sb strings.Builder
	for k := t.Range(1, 6); k > 0; k-- {
		r := run.Pick(t, 'a', 'b', ' ', 'Z', 'é', 'א', '丁', '\u0301', '\U0001F600', '<', '&', '>', '"', '\'', '\n', '\t', '-', ';')
		if r == acc { // written twice below
			r = 'x'
		}
		if acc != 0 && t.Chance(0.25) {
			if t.Chance(0.5) {
				sb.WriteString(string(acc) + string(acc))
				n.text = append(n.text, acc)
				continue
			}
			sb.WriteRune(acc)
			n.acc = append(n.acc, len(n.text))
		}
		if t.Chance(0.05) && acc == 0 && !strings.ContainsRune("\n\t", r) {
			fmt.Fprintf(&sb, "&#%d;", r)
		} else {
			sb.WriteString(xmlEscape(t, r))
		}
		n.text = append(n.text, r)
	}
	n.src = sb.String()
	if t.Chance(0.05) && acc == 0 {
		n.src = "<![CDATA[" + string(n.text) + "]]>"
		if strings.Contains(string(n.text), "]]>") {
			n.src = sb.String()
		}
	}
	return n
}

func genMkTree(t *run.T, depth int, acc rune) []*mkNode {
	var out []*mkNode
	lastText := false
	for k := t.IntN(4) + 1; k > 0; k-- {
		switch x := t.IntN(10); {
		case x < 5 || depth == 0:
			if lastText {
				out = append(out, &mkNode{src: "<!-- <b> comment -->"})
			}
			out = append(out, genMkText(t, acc))
			lastText = true
		default:
			n := &mkNode{tag: run.Pick(t, "b", "big", "small", "i", "s", "sub", "sup", "tt", "u", "span", "span", "span", "span", "span", "span", "markup")}
			if n.tag == "span" {
				seen := map[string]bool{}
				for i := t.IntN(4); i > 0; i-- {
					a := genMkArg(t)
					if seen[a.group] {
						continue
					}
					seen[a.group] = true
					n.args = append(n.args, a)
				}
			}
			n.kids = genMkTree(t, depth-1, acc)
			if t.Chance(0.1) {
				n.kids = nil
			}
			out = append(out, n)
			lastText = false
		}
	}
	return out
}

func mkSource(t *run.T, sb *strings.Builder, l []*mkNode) {
	for _, n := range l {
		if n.tag == "" {
			sb.WriteString(n.src)
			continue
		}
		sb.WriteString("<" + n.tag)
		for _, a := range n.args {
			q := run.Pick(t, "'", "\"")
			fmt.Fprintf(sb, " %s=%s%s%s", a.name, q, a.value, q)
		}
		if len(n.kids) == 0 && t.Chance(0.5) {
			sb.WriteString("/>")
			continue
		}
		sb.WriteString(">")
		mkSource(t, sb, n.kids)
		sb.WriteString("</" + n.tag + ">")
	}
}

type mkState struct {
	hasSize bool
	size    int
	sizePx  bool
	scale   float32
	level   int
}

// mkModel flattens the tree : the text, its accelerators and the attributes of each character, from the
// lowest priority to the highest
type mkModel struct {
	text  []rune
	acc   map[int]bool
	first rune
	attrs [][]*pango.Attribute
}

func (m *mkModel) walk(l []*mkNode, st mkState, over []*pango.Attribute) {
	for _, n := range l {
		if n.tag == "" {
			for _, a := range n.acc {
				m.acc[len(m.text)+a] = true
				if m.first == 0 {
					m.first = n.text[a]
				}
			}
			m.text = append(m.text, n.text...)
			for range n.text {
				m.attrs = append(m.attrs, over)
			}
			continue
		}
		s := st
		rel := 0
		args := n.args
		if n.tag != "span" {
			args = tagArgs(n.tag)
		}
		// the font first, then its size
		var fonts, own []*pango.Attribute
		for _, a := range args {
			if a.font {
				fonts = a.attrs
				if a.size > 0 {
					s.hasSize, s.size, s.sizePx, s.level = true, a.size, a.sizePx, 0
				}
			}
		}
		for _, a := range args {
			if !a.font {
				own = append(own, a.attrs...)
			}
			switch {
			case a.rel != 0:
				rel = a.rel
				s.level += rel
			case a.scale != 0:
				s.hasSize, s.scale, s.level = false, a.scale, 0
			case a.size != 0 && !a.font:
				s.hasSize, s.size, s.sizePx, s.level = true, a.size, false, 0
			}
		}
		all := append([]*pango.Attribute(nil), over...)
		all = append(all, fonts...)
		if rel != 0 {
			f := float32(1)
			for i := 0; i < s.level; i++ {
				f *= 1.2
			}
			for i := 0; i > s.level; i-- {
				f /= 1.2
			}
			switch {
			case s.hasSize && s.sizePx:
				all = append(all, pango.NewAttrAbsoluteSize(int(f*float32(s.size))))
			case s.hasSize:
				all = append(all, pango.NewAttrSize(int(f*float32(s.size))))
			default:
				all = append(all, pango.NewAttrScale(pango.Fl(f*s.scale)))
			}
		}
		// the plain alpha goes after the one of the color
		sort.SliceStable(own, func(i, j int) bool { return alphaLast(args, own[i]) < alphaLast(args, own[j]) })
		all = append(all, own...)
		m.walk(n.kids, s, all)
	}
}

func alphaLast(args []mkArg, at *pango.Attribute) int {
	for _, a := range args {
		for _, x := range a.attrs {
			if x == at && strings.Contains(a.group, "alpha") {
				return 1
			}
		}
	}
	return 0
}

// effective gives the values of the attributes, the last ones having the priority
func effective(l []*pango.Attribute) (map[string]string, float64, float64) {
	out := map[string]string{}
	var acc []string
	var size, scale float64
	for _, a := range l {
		switch a.Kind {
		case pango.ATTR_FONT_DESC:
			d := a.Data.(pango.FontDescription)
			has := func(m pango.FontMask) bool { c := d; c.UnsetFields(m); return c != d }
			if has(pango.FmFamily) {
				out["family"] = d.FamilyName
			}
			if has(pango.FmStyle) {
				out["style"] = fmt.Sprint(int(d.Style))
			}
			if has(pango.FmVariant) {
				out["variant"] = fmt.Sprint(int(d.Variant))
			}
			if has(pango.FmWeight) {
				out["weight"] = fmt.Sprint(int(d.Weight))
			}
			if has(pango.FmStretch) {
				out["stretch"] = fmt.Sprint(int(d.Stretch))
			}
			if has(pango.FmSize) {
				out["unit"], size = fmt.Sprint(d.SizeIsAbsolute), float64(d.Size)
			}
		case pango.ATTR_FAMILY:
			out["family"] = fmt.Sprint(a.Data)
		case pango.ATTR_STYLE:
			out["style"] = fmt.Sprint(int(a.Data.(pango.AttrInt)))
		case pango.ATTR_VARIANT:
			out["variant"] = fmt.Sprint(int(a.Data.(pango.AttrInt)))
		case pango.ATTR_WEIGHT:
			out["weight"] = fmt.Sprint(int(a.Data.(pango.AttrInt)))
		case pango.ATTR_STRETCH:
			out["stretch"] = fmt.Sprint(int(a.Data.(pango.AttrInt)))
		case pango.ATTR_SIZE:
			out["unit"], size = "false", float64(a.Data.(pango.AttrInt))
		case pango.ATTR_ABSOLUTE_SIZE:
			out["unit"], size = "true", float64(a.Data.(pango.AttrInt))
		case pango.ATTR_SCALE:
			scale = float64(a.Data.(pango.AttrFloat))
		case pango.ATTR_FONT_FEATURES, pango.ATTR_BASELINE_SHIFT, pango.ATTR_FONT_SCALE:
			acc = append(acc, fmt.Sprint(a.Kind, a.Data))
		default:
			out[fmt.Sprint("kind ", int(a.Kind))] = fmt.Sprint(a.Data)
		}
	}
	// the accumulated ones keep their order by kind
	sort.SliceStable(acc, func(i, j int) bool { return strings.Fields(acc[i])[0] < strings.Fields(acc[j])[0] })
	out["accumulated"] = fmt.Sprint(acc)
	return out, size, scale
}

func near(a, b, tol float64) bool { return a-b <= tol && b-a <= tol }

func p05Valid(t *run.T) {
	acc := rune(0)
	if t.Chance(0.4) {
		acc = run.Pick(t, '_', '_', 'é', '丁', 'a')
	}
	tree := genMkTree(t, t.IntN(6), acc)
	// no relative size besides a font or a color with an alpha besides an alpha
	var sb strings.Builder
	fixTree(tree)
	mkSource(t, &sb, tree)
	src := sb.String()
	if t.Chance(0.1) {
		src = "<markup>" + src + "</markup>"
	}
	t.SetInput(fmt.Sprintf("%q %q", src, acc))
	var got pango.ParsedMarkup
	var err error
	if p, st := run.Guard(func() { got, err = pango.ParseMarkup([]byte(src), acc) }); p != nil {
		t.Failf(run.PanicFP(st), "parsing %q panics: %v\n%s", src, p, st)
		return
	}
	if err != nil {
		t.Failf("error", "parsing %q : %s", src, err)
		return
	}
	m := mkModel{acc: map[int]bool{}}
	m.walk(tree, mkState{scale: 1}, nil)
	t.Count("markups", 1)
	t.Count("characters", len(m.text))
	t.Distinct("markups", src)
	if len(m.acc) > 0 {
		t.Count("markups with accelerators", 1)
	}
	if string(got.Text) != string(m.text) {
		t.Failf("text", "the text of %q is %q, want %q", src, string(got.Text), string(m.text))
		return
	}
	if got.AccelChar != m.first {
		t.Failf("accelerator", "the accelerator of %q is %q, want %q", src, got.AccelChar, m.first)
	}
	for i, a := range got.Attr {
		if a.StartIndex < 0 || a.EndIndex > len(m.text) || a.StartIndex > a.EndIndex || i > 0 && a.StartIndex < got.Attr[i-1].StartIndex {
			t.Failf("ranges", "the attributes of %q are %s", src, attrDump(got.Attr))
			return
		}
	}
	for i := range m.text {
		var l []*pango.Attribute
		for _, a := range got.Attr {
			if a.StartIndex <= i && i < a.EndIndex {
				l = append(l, a)
			}
		}
		gv, gsize, gscale := effective(l)
		wv, wsize, wscale := effective(m.attrs[i])
		if m.acc[i] {
			k := fmt.Sprint("kind ", int(pango.ATTR_UNDERLINE))
			low := fmt.Sprint(pango.AttrInt(pango.UNDERLINE_LOW))
			if g := gv[k]; g != low && (wv[k] == "" || g != wv[k]) {
				t.Failf("accelerator", "the accelerator %d of %q has the underline %q", i, src, g)
			}
			delete(gv, k)
			delete(wv, k)
		}
		if fmt.Sprint(gv) != fmt.Sprint(wv) || !near(gsize, wsize, 1+wsize*1e-4) || !near(gscale, wscale, 1e-4*(1+wscale)) {
			t.Failf("attributes", "the attributes of the character %d of %q are %v size %v scale %v, want %v size %v scale %v", i, src, gv, gsize, gscale, wv, wsize, wscale)
			return
		}
		t.Count("values", len(wv)-1)
		t.Distinct("values", fmt.Sprint(wv))
	}
}

func fixTree(l []*mkNode) {
	for _, n := range l {
		font := false
		for _, a := range n.args {
			font = font || a.font
		}
		if font {
			var args []mkArg
			for _, a := range n.args {
				if a.rel == 0 {
					args = append(args, a)
				}
			}
			n.args = args
		}
		fixTree(n.kids)
	}
}

// broken markups
func p05Broken(t *run.T) {
	tree := genMkTree(t, t.IntN(4), 0)
	var sb strings.Builder
	mkSource(t, &sb, tree)
	src := sb.String()
	bad := []string{
		"<c>x</c>", "<B>x</B>", "<spann>x</spann>", "<b>x", "</b>", "<b>x</i>", "<b><i>x</b></i>", "</markup>", "<markup>x", "a & b", "&foo;", "<", "<b", "<b x>y</b>", "<b weight='bold'>x</b>", "<i size='12'/>",
		"<markup lang='en'/>", "<span foo='x'>y</span>", "<span font_siz='12'/>", "<span size='12' font_size='13'>x</span>", "<span color='red' fgcolor='blue'/>", "<span weight='bold' font-weight='bold'/>",
		"<span size='-5'>x</span>", "<span size='big'/>", "<span size='12p'/>", "<span size='%'/>", "<span size='pt'/>", "<span style='bold'/>", "<span weight='italic'/>", "<span weight='12x'/>", "<span variant='bold'/>", "<span stretch='wide'/>",
		"<span color='#12'/>", "<span color='#12345'/>", "<span color='#+1+1+1'/>", "<span color='#gggggg'/>", "<span color='rouge'/>", "<span color='#'/>", "<span underline_color='#11223344'/>", "<span bgcolor='#-1-1-1'/>",
		"<span alpha='0'/>", "<span alpha='101%'/>", "<span alpha='-1'/>", "<span alpha='70000'/>", "<span alpha='x'/>", "<span bgalpha='0%'/>", "<span underline='triple'/>", "<span overline='double'/>",
		"<span gravity='up'/>", "<span gravity_hint='weak'/>", "<span strikethrough='maybe'/>", "<span fallback='1'/>", "<span show='all'/>", "<span show='spaces|all'/>", "<span text_transform='bold'/>",
		"<span rise='high'/>", "<span rise='5px'/>", "<span baseline_shift='10'/>", "<span baseline_shift='up'/>", "<span font_scale='big'/>", "<span font_scale='2'/>", "<span letter_spacing='1.5'/>", "<span letter_spacing='wide'/>",
		"<span line_height='tall'/>", "<span allow_breaks='2'/>", "<span insert_hyphens='on'/>", "<span segment='line'/>", "\x00", "\xff", "a\x01b", "<span lang=en/>",
	}
	b := run.Pick(t, bad...)
	// at a boundary of the tree
	if t.Chance(0.5) {
		src += b
	} else {
		src = b + src
	}
	t.SetInput(fmt.Sprintf("%q", src))
	var err error
	if p, st := run.Guard(func() { _, err = pango.ParseMarkup([]byte(src), run.Pick(t, 0, '_')) }); p != nil {
		t.Failf(run.PanicFP(st), "parsing %q panics: %v\n%s", src, p, st)
		return
	}
	if err == nil {
		t.Failf("accepted", "%q (with %q) is accepted", src, b)
	}
	t.Count("broken markups", 1)
	t.Distinct("broken", b)
}

// mutated markups : never a panic, and the ranges are inside the text
func p05Mutated(t *run.T) {
	acc := run.Pick(t, 0, '_', 'a')
	tree := genMkTree(t, t.IntN(5), acc)
	var sb strings.Builder
	mkSource(t, &sb, tree)
	b := []byte(sb.String())
	for k := t.Range(1, 4); k > 0 && len(b) > 0; k-- {
		i := t.IntN(len(b))
		switch t.IntN(4) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			b[i] = byte(t.IntN(256))
		case 2:
			j := min(len(b), i+t.IntN(12))
			b = append(b[:j:j], b[i:]...)
		default:
			b = append(b[:i:i], append([]byte(run.Pick(t, "<", ">", "&", "</", "/>", "'", "_", "<b>", "</b>", "</span>", "-", "9999999999", "1e999pt", "NaN", "1e999%")), b[i:]...)...)
		}
	}
	t.SetInput(fmt.Sprintf("%q", b))
	var got pango.ParsedMarkup
	var err error
	if p, st := run.Guard(func() { got, err = pango.ParseMarkup(b, acc) }); p != nil {
		t.Failf(run.PanicFP(st), "parsing %q panics: %v\n%s", b, p, st)
		return
	}
	t.Count("mutated markups", 1)
	if err != nil {
		t.Count("mutated markups rejected", 1)
		return
	}
	for i, a := range got.Attr {
		if a.StartIndex < 0 || a.EndIndex > len(got.Text) || a.StartIndex > a.EndIndex || i > 0 && a.StartIndex < got.Attr[i-1].StartIndex {
			t.Failf("ranges", "the attributes of %q are %s", b, attrDump(got.Attr))
			return
		}
	}
}

// P05 checks the markup parser.
func P05() *run.Prop {
	return &run.Prop{
		ID:       "P05",
		Rule:     "markups give the text of the document, its accelerators, and for each character the attributes of the elements around it, inner ones first; anything else is an error",
		Quick:    400000,
		Thorough: 8000000,
		Run: func(t *run.T) {
			switch t.IntN(5) {
			case 0:
				p05Broken(t)
			case 1:
				p05Mutated(t)
			default:
				p05Valid(t)
			}
		},
		Need: map[string]int64{"markups": 1000, "characters": 1000, "markups with accelerators": 100, "broken markups": 100, "mutated markups": 100, "values": 1000},
	}
}
