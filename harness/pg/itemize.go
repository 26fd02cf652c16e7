package pg

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"unicode"

	"github.com/benoitkugler/textlayout/fonts"
	"github.com/benoitkugler/textlayout/harfbuzz"
	"github.com/benoitkugler/textlayout/language"
	ucdt "github.com/benoitkugler/textlayout/unicodedata"
	"github.com/benoitkugler/textprocessing/pango"

	"verifharness/bidi"
	"verifharness/run"
	"verifharness/ucd"
)

// ---- P04, P06 : itemization ----

// a font map whose choices are known : the fonts of a set are the faces named by the family,
// then the other ones in an order which depends on the language

const iFaces = 5 // the last one has every character

func iFaceName(k int) string { return fmt.Sprintf("f%d", k) }

// iCovers tells whether the face k has the character
func iCovers(variant, k int, r rune) bool {
	if r == ' ' || k == iFaces-1 || k == iEmoji {
		return true
	}
	h := uint32(r)*2654435761 + uint32(variant)*40503
	h ^= h >> 15
	switch k {
	case 0:
		return r < 0x250 && variant%2 == 0 || h%4 != 0
	case 1:
		return h%8 < 5
	case 2:
		return h%16 < 5
	}
	return r >= 0x590
}

const iEmoji = 99

type iMap struct {
	variant  int
	mu       sync.Mutex
	sets     map[iSetKey]*iSet
	fonts    map[iFontKey]*iFont
	loads    int
	lastLang pango.Language
}

type iSetKey struct {
	desc pango.FontDescription
	lang pango.Language
}

type iFontKey struct {
	face int
	desc pango.FontDescription
}

type iSet struct {
	m    *iMap
	key  iSetKey
	list []*iFont
}

type iFont struct {
	m  *iMap
	id iFontKey
}

type iCov struct{ f *iFont }

// iOrder is the order of the faces of a set
func iOrder(family string, lang pango.Language) (out []int) {
	var seen [iFaces]bool
	for _, w := range strings.Split(strings.ToLower(family), ",") {
		w = strings.TrimSpace(w)
		if w == "emoji" {
			out = append(out, iEmoji)
		}
		for k := 0; k < iFaces; k++ {
			if w == iFaceName(k) && !seen[k] {
				seen[k] = true
				out = append(out, k)
			}
		}
	}
	h := 0
	for _, c := range string(lang) {
		h = h*31 + int(c)
	}
	for i := 0; i < iFaces; i++ {
		k := (i + h%iFaces + iFaces) % iFaces
		if !seen[k] {
			out = append(out, k)
		}
	}
	return out
}

func (m *iMap) font(face int, desc pango.FontDescription) *iFont {
	k := iFontKey{face, desc}
	f := m.fonts[k]
	if f == nil {
		f = &iFont{m, k}
		m.fonts[k] = f
	}
	return f
}

func (m *iMap) LoadFontset(_ *pango.Context, desc *pango.FontDescription, lang pango.Language) pango.Fontset {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.loads++
	key := iSetKey{*desc, lang}
	s := m.sets[key]
	if s == nil {
		s = &iSet{m: m, key: key}
		for _, k := range iOrder(desc.FamilyName, lang) {
			s.list = append(s.list, m.font(k, *desc))
		}
		m.sets[key] = s
	}
	return s
}
func (m *iMap) GetSerial() uint { return 1 }

func (s *iSet) GetLanguage() pango.Language { return s.key.lang }
func (s *iSet) Foreach(fn pango.FontsetForeachFunc) {
	for _, f := range s.list {
		if fn(f) {
			return
		}
	}
}

func (f *iFont) FaceID() fonts.FaceID { return fonts.FaceID{File: iFaceName(f.id.face)} }
func (f *iFont) Describe(bool) pango.FontDescription {
	d := f.id.desc
	if f.id.face == iEmoji {
		d.SetFamily("emoji")
	} else {
		d.SetFamily(iFaceName(f.id.face))
	}
	return d
}
func (f *iFont) GetCoverage(pango.Language) pango.Coverage { return iCov{f} }
func (f *iFont) GlyphExtents(_ pango.Glyph, ink, logical *pango.Rectangle) {
	r := pango.Rectangle{Y: -10 * 1024, Width: 8 * 1024, Height: 12 * 1024}
	if ink != nil {
		*ink = r
	}
	if logical != nil {
		*logical = r
	}
}
func (f *iFont) GetMetrics(pango.Language) pango.FontMetrics {
	return pango.FontMetrics{Ascent: 10 * 1024, Descent: 2 * 1024, Height: 12 * 1024}
}
func (f *iFont) GetFontMap() pango.FontMap       { return f.m }
func (f *iFont) GetFeatures() []harfbuzz.Feature { return nil }

var iHB struct {
	sync.Once
	f *harfbuzz.Font
}

func (f *iFont) GetHarfbuzzFont() *harfbuzz.Font {
	iHB.Do(func() {
		c := pango.NewContext(vFontMap())
		d := verifDesc(16)
		set := vFontMap().LoadFontset(c, &d, "en")
		set.Foreach(func(g pango.Font) bool {
			iHB.f = g.GetHarfbuzzFont()
			return true
		})
	})
	return iHB.f
}

func (c iCov) Get(r rune) bool {
	return iCovers(c.f.m.variant, c.f.id.face, r)
}
func (c iCov) Set(rune, bool) {}

var iMaps struct {
	sync.Mutex
	l map[int]*iMap
	n int
}

// iFontMap returns a map which may have been used by other cases
func iFontMap(variant int) *iMap {
	iMaps.Lock()
	defer iMaps.Unlock()
	iMaps.n++
	if iMaps.l == nil || iMaps.n%4000 == 0 {
		iMaps.l = map[int]*iMap{}
	}
	m := iMaps.l[variant]
	if m == nil {
		m = &iMap{variant: variant, sets: map[iSetKey]*iSet{}, fonts: map[iFontKey]*iFont{}}
		iMaps.l[variant] = m
	}
	return m
}

// ---- the model ----

type icase struct {
	text          []rune
	start, length int
	attrs         []*pango.Attribute // in the order of the list
	variant       int                // of the coverages
	variants      bool               // with small caps and scaled fonts
	gravity       pango.Gravity
	lang          pango.Language
	base          int // the direction + 1 ; 0 to look for it
	desc          pango.FontDescription
}

func (c *icase) String() string {
	var a []string
	for _, x := range c.attrs {
		v := fmt.Sprint(x.Data)
		if d, ok := x.Data.(pango.FontDescription); ok {
			v = fdShow(d)
		}
		a = append(a, fmt.Sprintf("%d:%s[%d,%d)", x.Kind, v, x.StartIndex, x.EndIndex))
	}
	return fmt.Sprintf("text=%U %q range=%d+%d attrs=%v gravity=%d lang=%q desc=%s coverage=%d",
		c.text, string(c.text), c.start, c.length, a, c.gravity, c.lang, fdShow(c.desc), c.variant)
}

func realScript(s language.Script) bool {
	return s != language.Common && s != language.Inherited && s != language.Unknown
}

const pairs = "()<>[]{}«»༺༻༼༽᚛᚜‘’“”‹›⁅⁆⁽⁾₍₎⟦⟧⟨⟩⟪⟫⟬⟭⟮⟯⦃⦄⦅⦆⦇⦈⦉⦊⦋⦌⦍⦎⦏⦐⦑⦒⦓⦔⦕⦖⦗⦘⧼⧽⸂⸃⸄⸅⸉⸊⸌⸍⸜⸝⸠⸡⸢⸣⸤⸥⸦⸧⸨⸩〈〉《》「」『』【】〔〕〖〗〘〙〚〛﹙﹚﹛﹜﹝﹞（）［］｛｝｟｠｢｣"

var pairOf = func() map[rune]int {
	out := map[rune]int{}
	for i, r := range []rune(pairs) {
		if language.LookupScript(r) == language.Common {
			out[r] = i + 1
		}
	}
	return out
}()

// iScripts resolves the script of every character : a common character takes the script of its
// run, a closing punctuation mark the one its opening mark has had
func iScripts(text []rune) []language.Script {
	out := make([]language.Script, len(text))
	type open struct {
		pair, at int // at : index of the opening mark
	}
	var stack []open
	runStart, cur := 0, language.Common
	for i, r := range text {
		sc := language.LookupScript(r)
		p := pairOf[r]
		closing := false
		if p != 0 && p%2 == 1 {
			stack = append(stack, open{p, i})
		} else if p != 0 {
			for len(stack) > 0 && stack[len(stack)-1].pair != p-1 {
				stack = stack[:len(stack)-1]
			}
			if len(stack) > 0 {
				// the script of the run of the opening mark : known, or still to be found
				at := stack[len(stack)-1].at
				if at < runStart {
					sc = out[at]
				} else {
					sc = cur
				}
				stack = stack[:len(stack)-1]
				closing = true
			}
		}
		_ = closing
		if realScript(sc) {
			if realScript(cur) && cur != sc {
				runStart, cur = i, sc
			} else if !realScript(cur) {
				cur = sc
				for j := runStart; j < i; j++ {
					out[j] = cur
				}
			}
		}
		out[i] = cur
	}
	return out
}

var emojiTokens = [3]*regexp.Regexp{}

func init() {
	// one letter for each category : see emojiClass
	any := `[ETPKBG]`
	pres := any + `V`
	mod := `BM`
	elt := `(?:` + pres + `|` + mod + `|` + any + `)`
	emoji := `(?:P|G|B|` + pres + `|` + mod + `|RR|GS+Z|KVC|` + elt + `(?:J` + elt + `)+|` + any + `D)`
	for i, s := range []string{any + `v`, emoji, `.`} {
		emojiTokens[i] = regexp.MustCompile(`^(?:` + s + `)`)
		emojiTokens[i].Longest()
	}
}

func emojiClass(r rune) byte {
	switch {
	case r == 0x20E3:
		return 'C'
	case r == 0x20E0:
		return 'D'
	case r == 0x200D:
		return 'J'
	case r == 0xFE0E:
		return 'v'
	case r == 0xFE0F:
		return 'V'
	case r == 0x1F3F4:
		return 'G'
	case r == 0xE007F:
		return 'Z'
	case r >= 0xE0030 && r <= 0xE0039, r >= 0xE0061 && r <= 0xE007A:
		return 'S'
	case r >= 0x1F3FB && r <= 0x1F3FF:
		return 'M'
	case r >= 0x1F1E6 && r <= 0x1F1FF:
		return 'R'
	case r >= '0' && r <= '9', r == '#', r == '*':
		return 'K'
	case unicode.Is(ucdt.Emoji_Modifier_Base, r):
		return 'B'
	case unicode.Is(ucdt.Emoji_Presentation, r):
		return 'P'
	case unicode.Is(ucdt.Emoji, r):
		return 'T'
	}
	return 'x'
}

// iEmojis tells which characters are presented as emojis
func iEmojis(text []rune) []bool {
	cl := make([]byte, len(text))
	for i, r := range text {
		cl[i] = emojiClass(r)
	}
	out := make([]bool, len(text))
	for i := 0; i < len(text); {
		best, kind := 0, 0
		for k, re := range emojiTokens {
			if m := re.FindIndex(cl[i:]); m != nil && m[1] > best {
				best, kind = m[1], k
			}
		}
		for j := i; j < i+best; j++ {
			out[j] = kind == 1
		}
		i += best
	}
	return out
}

// iUpright is the vertical orientation of the characters of the vertical cases
func iUpright(r rune) bool {
	switch {
	case r == 0xA9, r >= 0x1100 && r <= 0x11FF, r >= 0x20DD && r <= 0x20E0, r == 0x20E2 || r == 0x20E3,
		r >= 0x3001 && r <= 0x3007, r >= 0x3041 && r <= 0x9FFF, r >= 0xAC00 && r <= 0xD7A3,
		r >= 0xFF21 && r <= 0xFF3A, r >= 0x1F1E6 && r <= 0x1F9FF:
		return true
	}
	return false
}

// iWidths cuts a text in stretches of one orientation ; the emojis are not cut
func iWidths(text []rune, emoji []bool) (upright []bool, starts map[int]bool) {
	n := len(text)
	upright, starts = make([]bool, n), map[int]bool{}
	for i := 0; i < n; {
		starts[i] = true
		up := iUpright(text[i])
		j := i
		for j < n {
			r := text[j]
			if r == 0x200D { // what is joined follows
				for j < n && text[j] == 0x200D {
					j++
				}
				j++
				continue
			}
			if r == 0xFE0E || r == 0xFE0F || r >= 0xE0020 && r <= 0xE007F || r >= 0x1F3FB && r <= 0x1F3FF {
				j++
				continue
			}
			if iUpright(r) != up {
				break
			}
			j++
		}
		j = min(j, n)
		// an emoji run which starts in the stretch, or just after it, extends it
		for k := i; k <= j && k < n; k++ {
			if emoji[k] && (k == i || !emoji[k-1]) {
				e := k
				for e < n && emoji[e] {
					e++
				}
				j = max(j, e)
			}
		}
		for k := i; k < j; k++ {
			upright[k] = up
		}
		i = j
	}
	return
}

type langInfo struct {
	lang    pango.Language
	scripts []language.Script
}

var iLangs = []langInfo{
	{"en-us", []language.Script{language.Latin}},
	{"fr", []language.Script{language.Latin}},
	{"ru", []language.Script{language.Cyrillic}},
	{"el", []language.Script{language.Greek}},
	{"he", []language.Script{language.Hebrew}},
	{"ar", []language.Script{language.Arabic}},
	{"ja", []language.Script{language.Han, language.Katakana, language.Hiragana}},
	{"ko", []language.Script{language.Hangul}},
	{"hi", []language.Script{language.Devanagari}},
	{"th", []language.Script{language.Thai}},
	{"zh-cn", []language.Script{language.Han}},
	{"qaa", nil},
}

var sampleLang = map[language.Script]pango.Language{
	language.Latin: "en", language.Cyrillic: "ru", language.Greek: "el", language.Hebrew: "he", language.Arabic: "ar",
	language.Hiragana: "ja", language.Katakana: "ja", language.Hangul: "ko", language.Devanagari: "hi", language.Thai: "th",
	language.Han: "xx", language.Armenian: "hy", language.Ogham: "xx",
}

// iDerived is the language of a text of the given script ; "?" when it is not known
func iDerived(lang pango.Language, sc language.Script) pango.Language {
	if lang != "" {
		if !realScript(sc) {
			return lang
		}
		for _, l := range iLangs {
			if l.lang == lang {
				if l.scripts == nil {
					return lang
				}
				for _, s := range l.scripts {
					if s == sc {
						return lang
					}
				}
			}
		}
	}
	if l, ok := sampleLang[sc]; ok {
		return l
	}
	return "?"
}

// iNeutral : the characters which never choose a font
func iNeutral(r rune) bool {
	switch {
	case unicode.In(r, unicode.Cc, unicode.Cf, unicode.Cs, unicode.Zl, unicode.Zp):
		return true
	case unicode.Is(unicode.Zs, r):
		return r != 0x1680
	}
	return r >= 0xFE00 && r <= 0xFE0F || r >= 0xE0100 && r <= 0xE01EF
}

// ichar is what is expected for one character
type ichar struct {
	level  int
	script language.Script
	lang   pango.Language
	emoji  bool
	desc   pango.FontDescription
	grav   pango.Gravity
	extra  string
	noFall bool
	face   int
	font   iFontKey
	active []*pango.Attribute
	scaled bool
}

func (c ichar) String() string {
	return fmt.Sprintf("level %d, script %s, language %s, gravity %d, face %d of %s (%s), %s", c.level, c.script, c.lang, c.grav, c.font.face, fdShow(c.font.desc), c.font.desc.String(), c.extra)
}

func vertical(g pango.Gravity) bool { return g == pango.GRAVITY_EAST || g == pango.GRAVITY_WEST }

// iGravity is the gravity of a character, when neither the description gives it
func iGravity(sc language.Script, upright bool, base pango.Gravity, hint pango.GravityHint) pango.Gravity {
	cjk := sc == language.Han || sc == language.Hiragana || sc == language.Katakana || sc == language.Hangul || sc == language.Bopomofo
	if base == pango.GRAVITY_AUTO {
		base = pango.GRAVITY_SOUTH
		if cjk {
			base = pango.GRAVITY_EAST
		}
		if sc == language.Mongolian || sc == language.Ogham {
			base = pango.GRAVITY_WEST
		}
	}
	if !vertical(base) || upright {
		return base
	}
	if base, ttb := base, sc == language.Mongolian; ttb || sc == language.Ogham {
		if hint == pango.GRAVITY_HINT_NATURAL {
			if (base == pango.GRAVITY_EAST) != !ttb {
				return pango.GRAVITY_SOUTH
			}
			return pango.GRAVITY_NORTH
		}
	}
	rtl := sc == language.Hebrew || sc == language.Arabic
	flip := func(b bool) pango.Gravity {
		if b {
			return pango.GRAVITY_SOUTH
		}
		return pango.GRAVITY_NORTH
	}
	switch hint {
	case pango.GRAVITY_HINT_STRONG:
		return base
	case pango.GRAVITY_HINT_LINE:
		return flip((base == pango.GRAVITY_EAST) != rtl)
	}
	if !cjk {
		return pango.GRAVITY_SOUTH
	}
	return flip(base == pango.GRAVITY_EAST)
}

func activeAt(attrs []*pango.Attribute, i int) (out []*pango.Attribute) {
	for _, a := range attrs {
		if a.StartIndex <= i && i < a.EndIndex {
			out = append(out, a)
		}
	}
	return out
}

func hasField(d pango.FontDescription, m pango.FontMask) bool {
	e := d
	e.UnsetFields(m)
	return e != d
}

// iDesc applies the attributes to a description
func iDesc(d pango.FontDescription, l []*pango.Attribute) pango.FontDescription {
	scale := float32(1)
	for _, a := range l {
		switch a.Kind {
		case pango.ATTR_FONT_DESC:
			o := a.Data.(pango.FontDescription)
			if hasField(o, pango.FmFamily) {
				d.SetFamily(o.FamilyName)
			}
			if hasField(o, pango.FmStyle) {
				d.SetStyle(o.Style)
			}
			if hasField(o, pango.FmVariant) {
				d.SetVariant(o.Variant)
			}
			if hasField(o, pango.FmWeight) {
				d.SetWeight(o.Weight)
			}
			if hasField(o, pango.FmStretch) {
				d.SetStretch(o.Stretch)
			}
			if hasField(o, pango.FmGravity) {
				d.SetGravity(o.Gravity)
			}
			if hasField(o, pango.FmVariations) {
				d.SetVariations(o.Variations)
			}
			if hasField(o, pango.FmSize) {
				if o.SizeIsAbsolute {
					d.SetAbsoluteSize(o.Size)
				} else {
					d.SetSize(o.Size)
				}
			}
		case pango.ATTR_FAMILY:
			d.SetFamily(string(a.Data.(pango.AttrString)))
		case pango.ATTR_STYLE:
			d.SetStyle(pango.Style(a.Data.(pango.AttrInt)))
		case pango.ATTR_VARIANT:
			d.SetVariant(pango.Variant(a.Data.(pango.AttrInt)))
		case pango.ATTR_WEIGHT:
			d.SetWeight(pango.Weight(a.Data.(pango.AttrInt)))
		case pango.ATTR_STRETCH:
			d.SetStretch(pango.Stretch(a.Data.(pango.AttrInt)))
		case pango.ATTR_SIZE:
			d.SetSize(int32(a.Data.(pango.AttrInt)))
		case pango.ATTR_ABSOLUTE_SIZE:
			d.SetAbsoluteSize(int32(a.Data.(pango.AttrInt)))
		case pango.ATTR_SCALE:
			scale = float32(a.Data.(pango.AttrFloat))
		}
	}
	if scale != 1 {
		s := int32(scale * float32(d.Size))
		if d.SizeIsAbsolute {
			d.SetAbsoluteSize(s)
		} else {
			d.SetSize(s)
		}
	}
	return d
}

func isFontKind(k pango.AttrKind) bool {
	switch k {
	case pango.ATTR_FONT_DESC, pango.ATTR_FAMILY, pango.ATTR_STYLE, pango.ATTR_VARIANT, pango.ATTR_WEIGHT, pango.ATTR_STRETCH,
		pango.ATTR_SIZE, pango.ATTR_ABSOLUTE_SIZE, pango.ATTR_SCALE, pango.ATTR_LANGUAGE:
		return true
	}
	return false
}

// iExtra renders the non font attributes which apply : the last of each kind, or all of them for
// the kinds which accumulate
func iExtra(l []*pango.Attribute) string {
	last := map[pango.AttrKind]int{}
	var out []string
	acc := map[pango.AttrKind]int{}
	for i, a := range l {
		last[a.Kind] = i
	}
	for i, a := range l {
		if isFontKind(a.Kind) {
			continue
		}
		switch a.Kind {
		case pango.ATTR_FONT_FEATURES, pango.ATTR_BASELINE_SHIFT, pango.ATTR_FONT_SCALE:
			acc[a.Kind]++
			out = append(out, fmt.Sprintf("%d.%d=%v[%d,%d)", a.Kind, acc[a.Kind], a.Data, a.StartIndex, a.EndIndex))
		default:
			if last[a.Kind] == i {
				out = append(out, fmt.Sprintf("%d=%v[%d,%d)", a.Kind, a.Data, a.StartIndex, a.EndIndex))
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

type ipiece struct {
	start, end int
	ichar
}

// model gives the expected items ; nil when they can not be told
func (c *icase) model(t *run.T) []ipiece {
	n := c.length
	sub := c.text[c.start : c.start+n]
	base := bidi.FirstStrong(sub)
	if c.base != 0 {
		base = c.base - 1
	}
	if base < 0 {
		base = 0
	}
	levels := bidi.Levels(sub, base)
	scripts := iScripts(sub)
	emojis := iEmojis(sub)
	var ups []bool
	wStarts := map[int]bool{}
	if vertical(c.gravity) {
		ups, wStarts = iWidths(sub, emojis)
	}
	chars := make([]ichar, n)
	edge := make([]bool, n+1)
	edge[0], edge[n] = true, true
	for _, a := range c.attrs {
		for _, p := range []int{a.StartIndex - c.start, a.EndIndex - c.start} {
			if p > 0 && p < n {
				edge[p] = true
			}
		}
	}
	for i := range chars {
		ch := &chars[i]
		act := activeAt(c.attrs, c.start+i)
		ch.active = act
		ch.script, ch.emoji = scripts[i], emojis[i]
		ch.desc = iDesc(c.desc, act)
		ch.extra = iExtra(act)
		lang := c.lang
		grav, hint := c.gravity, pango.GRAVITY_HINT_NATURAL
		for _, a := range act {
			switch a.Kind {
			case pango.ATTR_LANGUAGE:
				lang = pango.Language(a.Data.(pango.AttrString))
			case pango.ATTR_FALLBACK:
				ch.noFall = a.Data.(pango.AttrInt) == 0
			case pango.ATTR_GRAVITY:
				grav = pango.Gravity(a.Data.(pango.AttrInt))
				if grav == pango.GRAVITY_AUTO {
					grav = c.gravity
				}
			case pango.ATTR_GRAVITY_HINT:
				hint = pango.GravityHint(a.Data.(pango.AttrInt))
			}
		}
		if lang == "" {
			lang = pango.DefaultLanguage()
		}
		ch.lang = iDerived(lang, ch.script)
		if ch.lang == "?" {
			return nil
		}
		if hasField(ch.desc, pango.FmGravity) {
			ch.grav = ch.desc.Gravity
		} else {
			ch.grav = iGravity(ch.script, ups != nil && ups[i], grav, hint)
		}
		ch.desc.SetGravity(ch.grav)
		ch.level = levels[i]
		if i > 0 && (levels[i] != levels[i-1] || ch.script != chars[i-1].script || ch.emoji != chars[i-1].emoji || wStarts[i]) {
			edge[i] = true
		}
	}
	for i := range chars {
		ch := &chars[i]
		switch ch.grav {
		case pango.GRAVITY_NORTH:
			ch.level++
		case pango.GRAVITY_EAST:
			ch.level += ch.level & 1
		case pango.GRAVITY_WEST:
			ch.level |= 1
		}
	}

	// the fonts, in each run
	var out []ipiece
	for s := 0; s < n; {
		e := s + 1
		for !edge[e] {
			e++
		}
		out = append(out, c.fonts(t, sub, chars, s, e)...)
		s = e
	}
	for i := range out {
		out[i].start += c.start
		out[i].end += c.start
	}
	if c.variants {
		out = c.caps(t, out, nil)
		c.scales(t, out)
	}
	return out
}

// caps cuts the items whose font has no small caps
func (c *icase) caps(t *run.T, in []ipiece, log []pango.CharAttr) (out []ipiece) {
	for _, p := range in {
		v := p.font.desc.Variant
		lowScale, upScale, transform := false, false, false
		switch v {
		case pango.VARIANT_SMALL_CAPS, pango.VARIANT_PETITE_CAPS:
			lowScale, transform = true, true
		case pango.VARIANT_ALL_SMALL_CAPS, pango.VARIANT_ALL_PETITE_CAPS:
			lowScale, transform, upScale = true, true, true
		case pango.VARIANT_UNICASE:
			upScale = true
		default:
			out = append(out, p)
			continue
		}
		own := pango.TEXT_TRANSFORM_NONE
		for _, a := range p.active {
			if a.Kind == pango.ATTR_TEXT_TRANSFORM {
				own = pango.TextTransform(a.Data.(pango.AttrInt))
			}
		}
		low := true // the spaces go with what comes before them
		var lows []bool
		for i := p.start; i < p.end; i++ {
			r := c.text[i]
			if !iNeutral(r) {
				switch own {
				case pango.TEXT_TRANSFORM_LOWERCASE:
					low = true
				case pango.TEXT_TRANSFORM_UPPERCASE:
					low = false
				case pango.TEXT_TRANSFORM_CAPITALIZE:
					low = unicode.IsLower(r) && !(log != nil && log[i].IsWordStart())
				default:
					low = unicode.IsLower(r)
				}
			}
			lows = append(lows, low)
		}
		for i := 0; i < len(lows); {
			j := i
			for j < len(lows) && lows[j] == lows[i] {
				j++
			}
			q := p
			q.start, q.end = p.start+i, p.start+j
			q.active = append([]*pango.Attribute{}, p.active...)
			add := func(a *pango.Attribute) {
				a.StartIndex, a.EndIndex = q.start, q.end
				q.active = append(q.active, a)
			}
			if lows[i] {
				t.Count("stretches of small caps", 1)
				if transform {
					add(pango.NewAttrTextTransform(pango.TEXT_TRANSFORM_UPPERCASE))
				}
				if lowScale {
					add(pango.NewAttrFontScale(pango.FONT_SCALE_SMALL_CAPS))
				}
			} else if upScale {
				add(pango.NewAttrFontScale(pango.FONT_SCALE_SMALL_CAPS))
			}
			q.extra = iExtra(q.active)
			out = append(out, q)
			i = j
		}
	}
	return out
}

// scaleFactor is the factor of a scaled font, after another item or not
func scaleFactor(k pango.FontScale, after bool) float64 {
	var f iFont
	face := f.GetHarfbuzzFont().Face()
	upem := float64(face.Upem())
	m := func(k fonts.LineMetric) float64 {
		v, ok := face.LineMetric(k)
		if !ok || !after {
			return 0
		}
		return float64(v)
	}
	switch k {
	case pango.FONT_SCALE_SUPERSCRIPT:
		if v := m(fonts.SuperscriptEmYSize); v > 0 {
			return v / upem
		}
		return 1 / 1.2
	case pango.FONT_SCALE_SUBSCRIPT:
		if v := m(fonts.SubscriptEmYSize); v > 0 {
			return v / upem
		}
		return 1 / 1.2
	case pango.FONT_SCALE_SMALL_CAPS:
		if x, cap := m(fonts.XHeight), m(fonts.CapHeight); x > 0 && cap > 0 {
			return x / cap
		}
		return 0.8
	}
	return 1
}

// scales applies the scales of the fonts ; the size of the description is -size when it is scaled
func (c *icase) scales(t *run.T, l []ipiece) {
	for i := range l {
		p := &l[i]
		scale, any := 1., false
		for _, a := range p.active {
			if a.Kind == pango.ATTR_FONT_SCALE {
				any = true
				// relative to the item before the one where the scale begins
				scale *= scaleFactor(pango.FontScale(a.Data.(pango.AttrInt)), a.StartIndex > l[0].start)
			}
		}
		if any {
			t.Count("items with a scaled font", 1)
			d := p.font.desc
			name := "emoji"
			if p.font.face != iEmoji {
				name = iFaceName(p.font.face)
			}
			d.SetFamily(name)
			s := int32(scale * float64(d.Size))
			if d.SizeIsAbsolute {
				d.SetAbsoluteSize(s)
			} else {
				d.SetSize(s)
			}
			p.font = iFontKey{p.font.face, d}
			p.scaled = true
		}
	}
}

// sameSize forgives the rounding of the size of the scaled fonts
func sameSize(got *ipiece, want ipiece) {
	if d := got.font.desc.Size - want.font.desc.Size; want.scaled && d != 0 && d >= -2 && d <= 2 {
		if want.font.desc.SizeIsAbsolute {
			got.font.desc.SetAbsoluteSize(want.font.desc.Size)
		} else if !got.font.desc.SizeIsAbsolute {
			got.font.desc.SetSize(want.font.desc.Size)
		}
	}
}

// fonts cuts a run by font : the characters which are not spaces take the first font having them ;
// the spaces take the font of the characters around them which is the first in the list
func (c *icase) fonts(t *run.T, sub []rune, chars []ichar, s, e int) (out []ipiece) {
	ch := chars[s]
	desc := ch.desc
	if ch.emoji {
		desc.SetFamily("emoji")
	}
	order := iOrder(desc.FamilyName, ch.lang)
	if ch.noFall {
		desc = ch.desc
		order = iOrder(desc.FamilyName, c.lang)
	}
	choose := func(r rune) int { // position in order
		if ch.noFall {
			return 0
		}
		for p, k := range order {
			if iCovers(c.variant, k, r) {
				return p
			}
		}
		return -1
	}
	const none = -1
	forced := func(i int) bool { return sub[i] == '\t' || sub[i] == 0x2028 }
	// the position of the font of each character
	pos := make([]int, e)
	for i := s; i < e; i++ {
		pos[i] = none
		if !iNeutral(sub[i]) {
			pos[i] = choose(sub[i])
		}
	}
	first := none
	for i := s; i < e && first == none; i++ {
		first = pos[i]
	}
	if first == none {
		first = choose(' ')
	}
	// the spaces at the beginning of the run take the font of the first character, then every
	// sequence of spaces follows what comes before it ...
	for i, cur := s, first; i < e; i++ {
		if pos[i] == none {
			pos[i] = cur
		}
		cur = pos[i]
	}
	// ... or what comes after it, if it is better
	for i := s; i < e; {
		if !iNeutral(sub[i]) {
			i++
			continue
		}
		j, tab := i, false
		for j < e && iNeutral(sub[j]) {
			tab = tab || forced(j)
			j++
		}
		// the tabs are items of their own
		if i > s && j < e && !tab && pos[j] < pos[i] {
			t.Count("spaces moved to a better font", 1)
			for k := i; k < j; k++ {
				pos[k] = pos[j]
			}
		}
		i = j
	}
	for i := s; i < e; {
		j := i + 1
		if !forced(i) {
			for j < e && !forced(j) && pos[j] == pos[i] {
				j++
			}
		}
		p := ipiece{i, j, ch}
		p.face = order[pos[i]]
		p.font = iFontKey{p.face, desc}
		if pos[i] > 0 {
			t.Count("items with a fallback font", 1)
		}
		out = append(out, p)
		i = j
	}
	return out
}

func gotItems(l *pango.ItemList) (out []*pango.Item) {
	for ; l != nil; l = l.Next {
		out = append(out, l.Data)
	}
	return out
}

func itemPiece(it *pango.Item) ipiece {
	p := ipiece{start: it.Offset, end: it.Offset + it.Length}
	p.level, p.script, p.lang, p.grav = int(it.Analysis.Level), it.Analysis.Script, it.Analysis.Language, it.Analysis.Gravity
	p.extra = iExtra(it.Analysis.ExtraAttrs)
	if f, ok := it.Analysis.Font.(*iFont); ok {
		p.font = f.id
	} else {
		p.font.face = -1
	}
	return p
}

func piecesEqual(a, b ipiece) bool {
	return a.start == b.start && a.end == b.end && a.level == b.level && a.script == b.script && a.lang == b.lang && a.grav == b.grav &&
		a.extra == b.extra && a.font == b.font
}

func showPieces(l []ipiece) string {
	var b strings.Builder
	for _, p := range l {
		fmt.Fprintf(&b, "\n\t[%d,%d) %s", p.start, p.end, p.ichar)
	}
	return b.String()
}

// ---- the generators ----

var iPool = []string{
	"abcdef XYZ", "éàü", "βγδ ΑΩ", "жзя", "אבג", "دوو", "漢字丁", "かなカ", "한글", "กขค", "12 345", "  ", "\t", "\u2028", " \u00a0\u2009",
	"()[]{}", "“”‘’", "-,.;:!?", "ե", "हि", "\u0301\u0300", "\u200d", "\u200b\u2060", "\u1680", "🙂😀🚀", "👍🏽👩", "❤☺✂©", "\ufe0f", "\ufe0e",
	"#*7", "\u20e3", "🇫🇷🇩", "🏴\U000E0067\U000E0062\U000E007F", "「」『』", "\u20e0",
}

func genIText(t *run.T, n int, vert bool) []rune {
	var out []rune
	for len(out) < n {
		if !vert && t.Chance(0.02) { // anything
			r := rune(t.IntN(0x3100))
			if t.Chance(0.3) {
				r = rune(0x10000 + t.IntN(0xfffff))
			}
			if bad := !ucd.AgeAtMost(r, 12) || r >= 0x202A && r <= 0x202E || r >= 0x2066 && r <= 0x2069 || r >= 0xD800 && r < 0xE000 || r == 0x1734; !bad {
				out = append(out, r)
			}
			continue
		}
		w := []rune(iPool[t.IntN(len(iPool))])
		switch t.IntN(4) {
		case 0:
			out = append(out, w[t.IntN(len(w))])
		case 1:
			out = append(out, w...)
		case 2:
			for k := t.IntN(4); k >= 0; k-- {
				out = append(out, w[t.IntN(len(w))])
			}
		default: // words of a pool with spaces
			out = append(out, w[t.IntN(len(w))], ' ')
		}
	}
	out = out[:n]
	for i, r := range out {
		if r == '\n' || r == '\r' || r == 0x85 || r == 0x2029 || r >= 0x1C && r <= 0x1E { // the ends of paragraphs
			out[i] = 'p'
		}
		if vert && r >= 0x2600 && r <= 0x27BF {
			out[i] = '漢'
		}
	}
	return out
}

func genFamily(t *run.T) string {
	var w []string
	for k := 0; k <= t.IntN(3); k++ {
		w = append(w, iFaceName(t.IntN(iFaces)))
	}
	return strings.Join(w, ",")
}

func genIDesc(t *run.T, full bool) pango.FontDescription {
	d := pango.NewFontDescription()
	p := 0.35
	if full {
		p = 1
	}
	if t.Chance(p) {
		d.SetFamily(genFamily(t))
	}
	if t.Chance(p) {
		d.SetStyle(pango.Style(t.IntN(3)))
	}
	if t.Chance(p) {
		d.SetWeight(pango.Weight(100 * t.Range(1, 9)))
	}
	if t.Chance(p) {
		d.SetStretch(pango.Stretch(t.IntN(9)))
	}
	if t.Chance(p) {
		if t.Chance(0.3) {
			d.SetAbsoluteSize(int32(1024 * 4 * t.Range(1, 8)))
		} else {
			d.SetSize(int32(1024 * 4 * t.Range(1, 8)))
		}
	}
	if !full && t.Chance(0.1) {
		d.SetVariations("wght=3")
	}
	return d
}

func genIAttr(t *run.T, c *icase) *pango.Attribute {
	b := t.Chance(0.5)
	n := 26
	if c.variants {
		n = 34
	}
	switch t.IntN(n) {
	case 26, 27:
		return pango.NewAttrVariant(pango.Variant(t.IntN(7)))
	case 28, 29, 30:
		return pango.NewAttrFontScale(pango.FontScale(t.IntN(4)))
	case 31:
		return pango.NewAttrTextTransform(pango.TextTransform(t.IntN(4)))
	case 32:
		d := pango.NewFontDescription()
		d.SetVariant(pango.Variant(t.IntN(7)))
		return pango.NewAttrFontDescription(d)
	case 33:
		return pango.NewAttrBaselineShift(-t.Range(1, 4) * 2048)
	case 0, 1:
		return pango.NewAttrFamily(genFamily(t))
	case 2:
		return pango.NewAttrStyle(pango.Style(t.IntN(3)))
	case 3:
		return pango.NewAttrWeight(pango.Weight(100 * t.Range(1, 9)))
	case 4:
		return pango.NewAttrStretch(pango.Stretch(t.IntN(9)))
	case 5:
		return pango.NewAttrSize(1024 * 4 * t.Range(1, 8))
	case 6:
		return pango.NewAttrAbsoluteSize(1024 * 4 * t.Range(1, 8))
	case 7, 8:
		return pango.NewAttrScale(run.Pick(t, pango.Fl(0.5), 1, 1.5, 2))
	case 9, 10:
		d := genIDesc(t, false)
		if t.Chance(0.15) {
			d.SetGravity(pango.GRAVITY_SOUTH)
		}
		return pango.NewAttrFontDescription(d)
	case 11, 12:
		return pango.NewAttrLanguage(iLangs[t.IntN(len(iLangs))].lang)
	case 13:
		return pango.NewAttrFallback(b)
	case 14:
		g := run.Pick(t, pango.GRAVITY_SOUTH, pango.GRAVITY_NORTH, pango.GRAVITY_AUTO)
		if vertical(c.gravity) {
			g = run.Pick(t, pango.GRAVITY_SOUTH, pango.GRAVITY_NORTH, pango.GRAVITY_EAST, pango.GRAVITY_WEST)
		}
		return pango.NewAttrGravity(g)
	case 15:
		return pango.NewAttrGravityHint(run.Pick(t, pango.GRAVITY_HINT_LINE, pango.GRAVITY_HINT_NATURAL, pango.GRAVITY_HINT_STRONG))
	case 16:
		return pango.NewAttrUnderline(pango.Underline(t.IntN(4)))
	case 17:
		return pango.NewAttrForeground(pango.AttrColor{Red: uint16(t.IntN(3))})
	case 18:
		return pango.NewAttrLetterSpacing(int32(t.IntN(3)))
	case 19:
		return pango.NewAttrFontFeatures(run.Pick(t, "liga=0", "smcp", "onum"))
	case 20:
		return pango.NewAttrBaselineShift(t.Range(1, 4) * 2048)
	case 21:
		return pango.NewAttrTextTransform(pango.TextTransform(t.IntN(4)))
	case 22:
		return pango.NewAttrRise(t.IntN(3))
	case 23:
		return pango.NewAttrLineHeight(run.Pick(t, float32(1), 1.5))
	case 24:
		return pango.NewAttrShape(pango.Rectangle{Width: 5}, pango.Rectangle{Width: pango.Unit(t.IntN(4))})
	}
	return pango.NewAttrStrikethrough(b)
}

func genICase(t *run.T, attrs bool) *icase {
	c := &icase{variant: t.IntN(8)}
	c.variants = attrs && t.Chance(0.5)
	c.gravity = pango.GRAVITY_SOUTH
	if t.Chance(0.3) {
		c.gravity = run.Pick(t, pango.GRAVITY_EAST, pango.GRAVITY_EAST, pango.GRAVITY_WEST, pango.GRAVITY_NORTH)
	}
	n := t.Range(1, 30)
	if t.Chance(0.1) {
		n = t.Range(30, 120)
	}
	c.text = genIText(t, n, c.gravity != pango.GRAVITY_SOUTH)
	c.length = n
	if t.Chance(0.3) {
		c.start = t.IntN(n)
		c.length = t.Range(1, n-c.start)
	}
	c.desc = genIDesc(t, true)
	if c.variants && t.Chance(0.3) {
		c.desc.SetVariant(pango.Variant(t.IntN(7)))
	}
	c.lang = iLangs[t.IntN(len(iLangs))].lang
	if t.Chance(0.1) {
		c.lang = ""
	}
	m := t.IntN(4)
	if attrs {
		m = t.IntN(14)
	}
	for ; m > 0; m-- {
		a := genIAttr(t, c)
		a.StartIndex = t.IntN(n)
		a.EndIndex = t.Range(a.StartIndex+1, n+2)
		if t.Chance(0.1) {
			a.EndIndex = 1<<31 - 1
		}
		if t.Chance(0.1) {
			a.StartIndex = 0
		}
		c.attrs = append(c.attrs, a)
	}
	sort.SliceStable(c.attrs, func(i, j int) bool { return c.attrs[i].StartIndex < c.attrs[j].StartIndex })
	return c
}

func copyAttr(a *pango.Attribute) *pango.Attribute {
	b := *a
	return &b
}

func attrListString(l pango.AttrList) string {
	var s []string
	for _, a := range l {
		s = append(s, fmt.Sprintf("%d=%v[%d,%d)", a.Kind, a.Data, a.StartIndex, a.EndIndex))
	}
	return strings.Join(s, " ")
}

func (c *icase) list() pango.AttrList {
	var l pango.AttrList
	for _, a := range c.attrs {
		l.Insert(copyAttr(a))
	}
	return l
}

func (c *icase) context() *pango.Context {
	ctx := pango.NewContext(iFontMap(c.variant))
	ctx.SetFontDescription(c.desc)
	ctx.SetLanguage(c.lang)
	ctx.SetBaseGravity(c.gravity)
	return ctx
}

func runItemize(t *run.T, attrs bool) {
	c := genICase(t, attrs)
	t.SetInput(c.String())
	want := c.model(t)
	if want == nil {
		t.Count("cases with a script whose language is not known", 1)
		return
	}
	ctx := c.context()
	list := c.list()
	before := attrListString(list)
	textBefore := string(c.text)

	var got []*pango.Item
	p, stack := run.Guard(func() { got = gotItems(ctx.Itemize(c.text, c.start, c.length, list)) })
	if p != nil {
		t.Failf("panic "+run.PanicFP(stack), "Itemize panics : %v", p)
		return
	}
	check := func(got []*pango.Item, when string) bool {
		pos := c.start
		var pieces []ipiece
		for _, it := range got {
			if it.Offset != pos || it.Length <= 0 {
				t.Failf("partition", "%s the items do not partition the range %d+%d : an item starts at %d with length %d, want %d", when, c.start, c.length, it.Offset, it.Length, pos)
				return false
			}
			pos += it.Length
			pieces = append(pieces, itemPiece(it))
		}
		if pos != c.start+c.length {
			t.Failf("partition", "%s the items end at %d, want %d", when, pos, c.start+c.length)
			return false
		}
		// first, what is expected of every character
		k := 0
		for i := range pieces {
			g := pieces[i]
			for j := g.start; j < g.end; j++ {
				for j >= want[k].end {
					k++
				}
				w := want[k]
				if g.start == w.start {
					sameSize(&g, w)
					pieces[i] = g
				}
				fail := func(fp string, a, b interface{}) bool {
					t.Failf(fp, "%s character %d %U : %s is %v, want %v\ngot :%s\nwant :%s", when, j, c.text[j], fp, a, b, showPieces(pieces), showPieces(want))
					return false
				}
				switch {
				case g.level != w.level:
					return fail("level", g.level, w.level)
				case g.script != w.script:
					return fail("script", g.script, w.script)
				case g.lang != w.lang:
					return fail("language", g.lang, w.lang)
				case g.grav != w.grav:
					return fail("gravity", g.grav, w.grav)
				case g.extra != w.extra:
					return fail("attributes", g.extra, w.extra)
				case g.font.desc != w.font.desc:
					return fail("description", fdShow(g.font.desc), fdShow(w.font.desc))
				case g.font.face != w.font.face:
					return fail("font", g.font.face, w.font.face)
				}
			}
		}
		if len(pieces) != len(want) {
			t.Failf("boundaries", "%s %d items, want %d\ngot :%s\nwant :%s", when, len(pieces), len(want), showPieces(pieces), showPieces(want))
			return false
		}
		for i := range pieces {
			if !piecesEqual(pieces[i], want[i]) {
				t.Failf("boundaries", "%s item %d differs\ngot :%s\nwant :%s", when, i, showPieces(pieces), showPieces(want))
				return false
			}
			centered := got[i].Analysis.Flags&pango.AFCenterdBaseline != 0
			if centered != vertical(c.gravity) {
				t.Failf("centered", "%s item %d : centered baseline flag is %v with the context gravity %d", when, i, centered, c.gravity)
				return false
			}
		}
		return true
	}
	if !check(got, "") {
		return
	}
	t.Count("items checked", len(got))
	if len(want) > 1 {
		t.Count("texts of several items", 1)
	}
	scripts, emo := map[language.Script]bool{}, false
	for _, w := range want {
		scripts[w.script] = true
		emo = emo || w.emoji
		if len(w.active) > 1 {
			t.Count("items with several attributes", 1)
		}
	}
	if len(scripts) > 1 {
		t.Count("texts of several scripts", 1)
	}
	if emo {
		t.Count("texts with emojis", 1)
	}
	if vertical(c.gravity) {
		t.Count("vertical texts", 1)
	}
	if c.length < len(c.text) {
		t.Count("parts of a text", 1)
	}
	var sig []string
	for _, w := range want {
		sig = append(sig, fmt.Sprint(w.level, w.script, w.emoji, w.face, len(w.active)))
	}
	t.Distinct("itemizations " + strings.Join(sig, " "))

	// the arguments belong to the caller
	if s := attrListString(list); s != before {
		t.Failf("list-changed", "the attributes have been changed by Itemize : %s, they were %s", s, before)
		return
	}
	if string(c.text) != textBefore {
		t.Failf("text-changed", "the text has been changed by Itemize")
		return
	}
	if t.Chance(0.5) {
		// changing the result, or using the context for something else, does not change what follows
		for _, it := range got {
			for _, a := range it.Analysis.ExtraAttrs {
				a.StartIndex, a.EndIndex = 7, 3
				a.Data = pango.AttrInt(77)
			}
		}
		d := genIDesc(t, t.Chance(0.5))
		db := d
		var dp *pango.FontDescription
		if t.Chance(0.6) {
			dp = &d
		}
		l := iLangs[t.IntN(len(iLangs))].lang
		if p, stack := run.Guard(func() { ctx.GetMetrics(dp, l) }); p != nil {
			t.Failf("panic "+run.PanicFP(stack), "GetMetrics panics : %v", p)
			return
		}
		if d != db {
			t.Failf("desc-changed", "GetMetrics has changed the description given : %s, it was %s", fdShow(d), fdShow(db))
			return
		}
		t.Count("itemizations repeated after other uses of the context", 1)
		p, stack := run.Guard(func() { got = gotItems(ctx.Itemize(c.text, c.start, c.length, list)) })
		if p != nil {
			t.Failf("panic "+run.PanicFP(stack), "Itemize panics : %v", p)
			return
		}
		check(got, "[second call]")
	}
}

func iEnv() {
	for _, v := range []string{"PANGO_LANGUAGE", "LANGUAGE", "LC_ALL", "LC_CTYPE", "LANG"} {
		os.Unsetenv(v)
	}
}

// shapeKind : the attributes added after the itemization, which do not cut the runs
func shapeKind(k pango.AttrKind) bool {
	switch k {
	case pango.ATTR_ALLOW_BREAKS, pango.ATTR_WORD, pango.ATTR_SENTENCE, pango.ATTR_INSERT_HYPHENS, pango.ATTR_FONT_FEATURES, pango.ATTR_SHOW:
		return true
	}
	return false
}

func itemizeKind(k pango.AttrKind) bool {
	switch k {
	case pango.ATTR_FALLBACK, pango.ATTR_GRAVITY, pango.ATTR_GRAVITY_HINT, pango.ATTR_FONT_SCALE, pango.ATTR_LETTER_SPACING, pango.ATTR_SHAPE,
		pango.ATTR_RISE, pango.ATTR_LINE_HEIGHT, pango.ATTR_ABSOLUTE_LINE_HEIGHT, pango.ATTR_TEXT_TRANSFORM, pango.ATTR_BASELINE_SHIFT:
		return true
	}
	return isFontKind(k)
}

func splitKinds(l []*pango.Attribute) (item, shape, other []*pango.Attribute) {
	for _, a := range l {
		switch {
		case itemizeKind(a.Kind):
			item = append(item, a)
		case shapeKind(a.Kind):
			shape = append(shape, a)
		default:
			other = append(other, a)
		}
	}
	return
}

// runItemLayout checks what reaches the runs of a layout
func runItemLayout(t *run.T) {
	c := genICase(t, true)
	c.start, c.length = 0, len(c.text)
	c.gravity = pango.GRAVITY_SOUTH
	var attrs []*pango.Attribute
	for _, a := range c.attrs {
		switch a.Kind {
		case pango.ATTR_SHAPE, pango.ATTR_LINE_HEIGHT, pango.ATTR_GRAVITY, pango.ATTR_GRAVITY_HINT:
			if t.Chance(0.5) {
				a = &pango.Attribute{Kind: pango.ATTR_SHOW, Data: pango.NewAttrShow(pango.SHOW_SPACES).Data, StartIndex: a.StartIndex, EndIndex: a.EndIndex}
			} else {
				b := pango.NewAttrInsertHyphens(t.Chance(0.5))
				b.StartIndex, b.EndIndex = a.StartIndex, a.EndIndex
				a = b
			}
		case pango.ATTR_FONT_DESC:
			d := a.Data.(pango.FontDescription)
			d.UnsetFields(pango.FmGravity)
			a.Data = d
		}
		attrs = append(attrs, a)
	}
	c.attrs = attrs
	for k := t.IntN(4); k > 0; k-- {
		if i := t.IntN(len(c.text)); c.text[i] != 0x200d {
			c.text[i] = run.Pick(t, '\n', '\n', '\n', 0x2029, '\r')
		}
	}
	width := -1
	if t.Chance(0.4) {
		width = t.Range(5, 200) * 1024
	}
	t.SetInput(fmt.Sprintf("layout width=%d %s", width, c))
	ctx := c.context()
	layout := pango.NewLayout(ctx)
	layout.SetText(string(c.text))
	layout.SetAttributes(c.list())
	layout.SetWidth(pango.Unit(width))
	layout.SetWrap(run.Pick(t, pango.WRAP_CHAR, pango.WRAP_WORD_CHAR))
	p, stack := run.Guard(func() { layout.GetLineCount() })
	if p != nil {
		t.Failf("panic "+run.PanicFP(stack), "the layout panics : %v", p)
		return
	}
	log := layout.GetCharacterAttributes()

	// what is expected of the characters : the paragraphs are itemized each in turn
	n := len(c.text)
	want := make([]ipiece, n)
	has := make([]bool, n)
	itemAttrs, shapeAttrs, otherAttrs := splitKinds(c.attrs)
	prev := bidi.FirstStrong(c.text)
	if prev < 0 {
		prev = 0
	}
	for _, par := range paragraphs(c.text, false) {
		if d := bidi.FirstStrong(c.text[par[0]:par[1]]); d >= 0 {
			prev = d
		}
		if par[1] <= par[0] {
			continue
		}
		sub := *c
		sub.variants = false
		sub.attrs = itemAttrs
		sub.base = prev + 1
		sub.start, sub.length = par[0], par[1]-par[0]
		l := sub.model(t)
		if l == nil {
			return
		}
		l = sub.caps(t, l, log)
		sub.scales(t, l)
		for _, q := range l {
			for i := q.start; i < q.end; i++ {
				want[i], has[i] = q, true
			}
		}
	}
	seen := make([]int, n)
	it := layout.GetIter()
	nb := 0
	for {
		r := it.GetRun()
		if r == nil {
			if !it.NextRun() {
				break
			}
			continue
		}
		nb++
		g := itemPiece(r.Item)
		gi, gs, gother := splitKinds(r.Item.Analysis.ExtraAttrs)
		g.extra = iExtra(gi)
		for i := g.start; i < g.end; i++ {
			seen[i]++
			if !has[i] {
				t.Failf("layout-separator", "the character %d is in a run, it ends a paragraph", i)
				return
			}
			w := want[i]
			sameSize(&g, w)
			fail := func(fp string, a, b interface{}) {
				t.Failf("layout-"+fp, "character %d %U : %s is %v, want %v", i, c.text[i], fp, a, b)
			}
			switch {
			case g.script != w.script:
				fail("script", g.script, w.script)
				return
			case g.lang != w.lang:
				fail("language", g.lang, w.lang)
				return
			case g.extra != w.extra:
				fail("attributes", g.extra, w.extra)
				return
			case g.font != w.font:
				fail("font", g.font.face, w.font.face)
				t.Failf("layout-font", "%s, want %s", fdShow(g.font.desc), fdShow(w.font.desc))
				return
			}
		}
		// the shape attributes which touch the item the run comes from, in their order
		must := map[pango.AttrKind][]string{}
		for ai, a := range shapeAttrs {
			seen := false
			for i := max(a.StartIndex, g.start); i < a.EndIndex && i < g.end; i++ {
				over := false // hidden by a later one
				for _, b := range shapeAttrs[ai+1:] {
					over = over || b.Kind == a.Kind && a.Kind != pango.ATTR_FONT_FEATURES && b.StartIndex <= i && i < b.EndIndex
				}
				seen = seen || !over
			}
			x := attrListString(pango.AttrList{a})
			for _, y := range must[a.Kind] {
				seen = seen && y != x // duplicated attributes are kept once
			}
			if seen {
				must[a.Kind] = append(must[a.Kind], x)
			}
		}
		for _, m := range must {
			if len(m) > 1 {
				t.Count("runs with several shape attributes of a kind", 1)
			}
		}
		for _, a := range gs {
			x := attrListString(pango.AttrList{a})
			if m := must[a.Kind]; len(m) > 0 && x == m[0] {
				must[a.Kind] = m[1:]
			}
			// the runs are cut after these attributes are set : they come from the item of the run
			if s := g.start; a.EndIndex <= s && !sameItem(want, has, a.EndIndex-1, s) || a.StartIndex >= g.end && !sameItem(want, has, g.end-1, a.StartIndex) {
				t.Failf("layout-shape-leak", "the run %d-%d has the attribute %s", g.start, g.end, x)
				return
			}
		}
		for _, m := range must {
			if len(m) > 0 {
				t.Failf("layout-shape-lost", "the run %d-%d has the attributes %q, want also %q, in this order", g.start, g.end, attrListString(gs), m)
				return
			}
		}
		// the characters on both sides of j may be shaped together
		joins := func(j int) bool {
			for _, r := range c.text[j-1 : j+1] {
				if unicode.In(r, unicode.M, unicode.Cf) || 0x1F1E6 <= r && r <= 0x1F1FF || 0x1F3FB <= r && r <= 0x1F3FF {
					return true
				}
			}
			return !log[j].IsCursorPosition()
		}
		// the other ones, such as the colors, are exact
		starts := map[int]bool{}
		for _, x := range r.Glyphs.LogClusters {
			starts[x] = true
		}
		for i := g.start; i < g.end; i++ {
			if language.LookupScript(c.text[i]) == language.Devanagari || !starts[i-g.start] || i+1 < g.end && !starts[i+1-g.start] {
				continue // the boundaries of the attributes may be in the cluster
			}
			w, joined := iExtra(activeAt(otherAttrs, i)), false
			for j := i; j > 0 && joins(j); j-- {
				joined = joined || iExtra(activeAt(otherAttrs, j-1)) != w
			}
			for j := i + 1; j < n && joins(j); j++ {
				joined = joined || iExtra(activeAt(otherAttrs, j)) != w
			}
			if joined {
				continue
			}
			if iExtra(gother) != w {
				t.Failf("layout-other", "character %d : attributes %s, want %s", i, iExtra(gother), w)
				return
			}
		}
		// the rise
		shift, plain, dup := 0, true, false
		rise := 0
		for _, a := range want[g.start].active {
			switch a.Kind {
			case pango.ATTR_BASELINE_SHIFT:
				shift += int(a.Data.(pango.AttrInt))
				for _, b := range want[g.start].active { // duplicated attributes count once or twice
					dup = dup || b != a && b.Kind == a.Kind && b.StartIndex == a.StartIndex && b.EndIndex == a.EndIndex && b.Data == a.Data
				}
			case pango.ATTR_RISE:
				rise = int(a.Data.(pango.AttrInt))
			}
		}
		for i := g.start; i < g.end; i++ {
			if r := c.text[i]; r == '\t' || unicode.Is(unicode.Zl, r) {
				plain = false
			}
		}
		if plain {
			var rect pango.Rectangle
			it.GetRunExtents(nil, &rect)
			base := int(it.GetBaseline())
			got := base - int(rect.Y) - 10*1024
			if got != shift+rise && !dup {
				t.Failf("layout-shift", "the run %d-%d is raised by %d, want %d (baseline %d, extents %v)", g.start, g.end, got, shift+rise, base, rect)
				return
			}
			if shift != 0 {
				t.Count("runs with a baseline shift", 1)
			}
		}
		if !it.NextRun() {
			break
		}
	}
	for i, h := range has {
		if h && seen[i] != 1 {
			t.Failf("layout-partition", "the character %d is in %d runs", i, seen[i])
			return
		}
	}
	t.Count("runs of layouts checked", nb)
	if width >= 0 && layout.GetLineCount() > 1 {
		t.Count("wrapped layouts", 1)
	}
}

// sameItem tells whether two characters come from one item
func sameItem(want []ipiece, has []bool, i, j int) bool {
	if i < 0 || j >= len(has) || i > j {
		return i > j
	}
	for k := i; k <= j; k++ {
		if !has[k] {
			return false
		}
		if k > i {
			a, b := want[k-1], want[k]
			// the items are cut again for the small caps
			if a.level != b.level || a.script != b.script || a.lang != b.lang || a.emoji != b.emoji || a.face != b.face {
				return false
			}
		}
	}
	return true
}

// P04 : the attributes in the items
func P04() *run.Prop {
	iEnv()
	return &run.Prop{
		ID: "P04", Rule: "exact comparison with a model",
		Quick: 60000, Thorough: 1500000,
		Need: map[string]int64{"items checked": 50000, "items with several attributes": 20000, "parts of a text": 5000, "itemizations repeated after other uses of the context": 5000},
		Run: func(t *run.T) {
			if t.Chance(0.35) {
				runItemLayout(t)
			} else {
				runItemize(t, true)
			}
		},
	}
}

// P06 : the items of a text
func P06() *run.Prop {
	iEnv()
	return &run.Prop{
		ID: "P06", Rule: "exact comparison with a model",
		Quick: 80000, Thorough: 2000000,
		Need: map[string]int64{"items checked": 50000, "texts of several scripts": 20000, "texts with emojis": 5000, "vertical texts": 5000,
			"spaces moved to a better font": 200, "items with a fallback font": 10000},
		Run: func(t *run.T) {
			runItemize(t, false)
		},
	}
}
