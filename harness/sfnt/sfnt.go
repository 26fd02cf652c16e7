// Package sfnt builds small TrueType fonts from scratch, so that everything a
// monitor predicts about a font (coverage, advances, extents, names, ...) is
// known by construction.
package sfnt

import (
	"encoding/binary"
	"sort"
	"unicode/utf16"
)

// Name is one record of the 'name' table
type Name struct {
	Platform, Encoding, Lang, ID uint16
	Value                        []byte
}

// OS2 is the part of the 'OS/2' table under control
type OS2 struct {
	Version           uint16
	Weight, Width     uint16
	Vendor            string // 4 bytes
	Selection         uint16
	CodePage1         uint32
	CodePage2         uint32
	LowerPt, UpperPt  uint16 // twips, version 5
	YStrikeSize       int16
	YStrikePos        int16
	SubXSize, SubYOff int16
}

// Axis of a variable font
type Axis struct {
	Tag           string
	Min, Def, Max float64
	NameID        uint16
}

// Instance of a variable font
type Instance struct {
	Subfamily uint16
	PS        int // -1 : no field
	Coords    []float64
}

// Glyph is a glyph : its advance and the ink rectangle (none if W or H is 0)
type Glyph struct {
	Adv        uint16
	X, Y, W, H int16 // lower left corner and size
}

// Ligature replaces a sequence of glyphs by one
type Ligature struct {
	From []uint16
	To   uint16
}

// CmapTable is one cmap subtable
type CmapTable struct {
	Platform, Encoding uint16
	Map                map[rune]uint16
}

// Spec describes a font
type Spec struct {
	UPEM                     uint16 // default 1000
	Ascent, Descent, LineGap int16
	UnderPos, UnderThick     int16
	Revision                 uint32 // 16.16
	MacStyle                 uint16
	Names                    []Name
	OS2                      *OS2
	Cmaps                    []CmapTable
	Glyphs                   []Glyph
	Axes                     []Axis
	Instances                []Instance
	Prep                     bool
	GSUBScripts, GPOSScripts []string
	Ligatures                []Ligature // in 'liga' of the DFLT script
	Kern                     map[[2]uint16]int16
	NoHead                   bool
}

type buf struct{ b []byte }

func (w *buf) u8(v ...uint8) { w.b = append(w.b, v...) }
func (w *buf) u16(v ...uint16) {
	for _, x := range v {
		w.b = binary.BigEndian.AppendUint16(w.b, x)
	}
}
func (w *buf) i16(v ...int16) {
	for _, x := range v {
		w.b = binary.BigEndian.AppendUint16(w.b, uint16(x))
	}
}
func (w *buf) u32(v ...uint32) {
	for _, x := range v {
		w.b = binary.BigEndian.AppendUint32(w.b, x)
	}
}
func (w *buf) fx(v float64) { w.u32(uint32(int32(v * 65536))) }
func (w *buf) tag(s string) { w.b = append(w.b, (s + "    ")[:4]...) }

// UTF16 encodes a name for the Microsoft and Unicode platforms
func UTF16(s string) []byte {
	var w buf
	w.u16(utf16.Encode([]rune(s))...)
	return w.b
}

// MS, Mac, Uni build name records
func MS(lang, id uint16, s string) Name  { return Name{3, 1, lang, id, UTF16(s)} }
func Mac(lang, id uint16, s string) Name { return Name{1, 0, lang, id, []byte(s)} }
func Uni(id uint16, s string) Name       { return Name{0, 3, 0, id, UTF16(s)} }

func (s *Spec) tables() map[string][]byte {
	if s.UPEM == 0 {
		s.UPEM = 1000
	}
	out := map[string][]byte{}
	n := len(s.Glyphs)

	var head buf
	var maxw, maxh int16
	var minx, miny int16
	for _, g := range s.Glyphs {
		maxw, maxh = max(maxw, g.X+g.W), max(maxh, g.Y+g.H)
		minx, miny = min(minx, g.X), min(miny, g.Y)
	}
	head.u16(1, 0)
	head.u32(s.Revision, 0, 0x5F0F3CF5)
	head.u16(3, s.UPEM)
	head.u32(0, 0, 0, 0)
	head.i16(minx, miny, maxw, maxh)
	head.u16(s.MacStyle, 8)
	head.i16(2, 1, 0) // direction, long loca, glyf format
	out["head"] = head.b

	var hhea buf
	hhea.u16(1, 0)
	hhea.i16(s.Ascent, s.Descent, s.LineGap)
	maxAdv := uint16(0)
	for _, g := range s.Glyphs {
		maxAdv = max(maxAdv, g.Adv)
	}
	hhea.u16(maxAdv)
	hhea.i16(0, 0, maxw, 1, 0, 0, 0, 0, 0, 0, 0)
	hhea.u16(uint16(n))
	out["hhea"] = hhea.b

	var maxp buf
	maxp.u32(0x00010000)
	maxp.u16(uint16(n), 4, 1, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0)
	out["maxp"] = maxp.b

	var hmtx, glyf, loca buf
	for _, g := range s.Glyphs {
		hmtx.u16(g.Adv)
		hmtx.i16(g.X)
		loca.u32(uint32(len(glyf.b)))
		if g.W == 0 || g.H == 0 {
			continue
		}
		glyf.i16(1, g.X, g.Y, g.X+g.W, g.Y+g.H)
		glyf.u16(3, 0)
		glyf.u8(1, 1, 1, 1)
		glyf.i16(g.X, 0, g.W, 0) // deltas
		glyf.i16(g.Y, g.H, 0, -g.H)
		for len(glyf.b)%4 != 0 {
			glyf.u8(0)
		}
	}
	loca.u32(uint32(len(glyf.b)))
	if len(glyf.b) == 0 {
		glyf.u32(0)
	}
	out["hmtx"], out["glyf"], out["loca"] = hmtx.b, glyf.b, loca.b

	var post buf
	post.u32(0x00030000, 0)
	post.i16(s.UnderPos, s.UnderThick)
	post.u32(0, 0, 0, 0, 0)
	out["post"] = post.b

	out["cmap"] = s.cmap()

	if s.Names != nil {
		var hd, str buf
		hd.u16(0, uint16(len(s.Names)), uint16(6+12*len(s.Names)))
		for _, nm := range s.Names {
			hd.u16(nm.Platform, nm.Encoding, nm.Lang, nm.ID, uint16(len(nm.Value)), uint16(len(str.b)))
			str.u8(nm.Value...)
		}
		out["name"] = append(hd.b, str.b...)
	}

	if o := s.OS2; o != nil {
		var w buf
		w.u16(o.Version, 500, o.Weight, o.Width, 0)
		w.i16(600, 600, 0, 75, 600, 600, 0, 350, o.YStrikeSize, o.YStrikePos, 0)
		w.b = append(w.b, make([]byte, 10)...)
		w.u32(0, 0, 0, 0)
		w.tag(o.Vendor)
		w.u16(o.Selection, 0x20, 0xffff)
		w.i16(s.Ascent, s.Descent, s.LineGap)
		w.u16(uint16(s.Ascent), uint16(-s.Descent))
		if o.Version >= 1 {
			w.u32(o.CodePage1, o.CodePage2)
		}
		if o.Version >= 2 {
			w.i16(500, 700)
			w.u16(0, 32, 2)
		}
		if o.Version >= 5 {
			w.u16(o.LowerPt, o.UpperPt)
		}
		out["OS/2"] = w.b
	}

	if s.Axes != nil {
		var w buf
		isz := 4 + 4*len(s.Axes)
		withPS := false
		for _, in := range s.Instances {
			withPS = withPS || in.PS >= 0
		}
		if withPS {
			isz += 2
		}
		w.u16(1, 0, 16, 2, uint16(len(s.Axes)), 20, uint16(len(s.Instances)), uint16(isz))
		for _, a := range s.Axes {
			w.tag(a.Tag)
			w.fx(a.Min)
			w.fx(a.Def)
			w.fx(a.Max)
			w.u16(0, a.NameID)
		}
		for _, in := range s.Instances {
			w.u16(in.Subfamily, 0)
			for _, c := range in.Coords {
				w.fx(c)
			}
			if withPS {
				w.u16(uint16(in.PS))
			}
		}
		out["fvar"] = w.b
	}
	if s.Prep {
		out["prep"] = []byte{0xB0, 0x00, 0x18, 0x00}
	}
	if s.GSUBScripts != nil || s.Ligatures != nil {
		out["GSUB"] = layout(s.GSUBScripts, s.ligaLookup(), "liga")
	}
	if s.GPOSScripts != nil || s.Kern != nil {
		out["GPOS"] = layout(s.GPOSScripts, s.kernLookup(), "kern")
	}
	return out
}

// layout builds a GSUB or GPOS table with one feature and one lookup (or none)
func layout(scripts []string, lookup []byte, feat string) []byte {
	if lookup != nil {
		found := false
		for _, s := range scripts {
			found = found || s == "DFLT"
		}
		if !found {
			scripts = append([]string{"DFLT"}, scripts...)
		}
	}
	scripts = append([]string(nil), scripts...)
	sort.Strings(scripts)
	var sl, st buf
	sl.u16(uint16(len(scripts)))
	base := 2 + 6*len(scripts)
	for _, s := range scripts {
		sl.tag(s)
		sl.u16(uint16(base + len(st.b)))
		if lookup != nil {
			st.u16(4, 0)            // default lang sys
			st.u16(0, 0xffff, 1, 0) // one feature
		} else {
			st.u16(0, 0)
		}
	}
	sl.b = append(sl.b, st.b...)
	var fl, ll buf
	if lookup != nil {
		fl.u16(1)
		fl.tag(feat)
		fl.u16(8)
		fl.u16(0, 1, 0)
		ll.u16(1, 4)
		ll.b = append(ll.b, lookup...)
	} else {
		fl.u16(0)
		ll.u16(0)
	}
	var w buf
	w.u16(1, 0, 10, uint16(10+len(sl.b)), uint16(10+len(sl.b)+len(fl.b)))
	w.b = append(append(append(w.b, sl.b...), fl.b...), ll.b...)
	return w.b
}

func coverage(gs []uint16) []byte {
	var w buf
	w.u16(1, uint16(len(gs)))
	w.u16(gs...)
	return w.b
}

func (s *Spec) ligaLookup() []byte {
	if len(s.Ligatures) == 0 {
		return nil
	}
	byFirst := map[uint16][]Ligature{}
	var firsts []uint16
	for _, l := range s.Ligatures {
		if byFirst[l.From[0]] == nil {
			firsts = append(firsts, l.From[0])
		}
		byFirst[l.From[0]] = append(byFirst[l.From[0]], l)
	}
	sort.Slice(firsts, func(i, j int) bool { return firsts[i] < firsts[j] })
	// subtable : format, coverage offset, set count, set offsets
	hdr := 6 + 2*len(firsts)
	var sets buf
	var offs []uint16
	for _, f := range firsts {
		ls := byFirst[f]
		sort.SliceStable(ls, func(i, j int) bool { return len(ls[i].From) > len(ls[j].From) })
		offs = append(offs, uint16(hdr+len(sets.b)))
		var st, lt buf
		st.u16(uint16(len(ls)))
		for _, l := range ls {
			st.u16(uint16(2 + 2*len(ls) + len(lt.b)))
			lt.u16(l.To, uint16(len(l.From)))
			lt.u16(l.From[1:]...)
		}
		sets.b = append(append(sets.b, st.b...), lt.b...)
	}
	var sub buf
	sub.u16(1, uint16(hdr+len(sets.b)), uint16(len(firsts)))
	sub.u16(offs...)
	sub.b = append(append(sub.b, sets.b...), coverage(firsts)...)
	var w buf
	w.u16(4, 0, 1, 8)
	w.b = append(w.b, sub.b...)
	return w.b
}

func (s *Spec) kernLookup() []byte {
	if len(s.Kern) == 0 {
		return nil
	}
	byFirst := map[uint16]map[uint16]int16{}
	var firsts []uint16
	for k, v := range s.Kern {
		if byFirst[k[0]] == nil {
			byFirst[k[0]] = map[uint16]int16{}
			firsts = append(firsts, k[0])
		}
		byFirst[k[0]][k[1]] = v
	}
	sort.Slice(firsts, func(i, j int) bool { return firsts[i] < firsts[j] })
	hdr := 10 + 2*len(firsts)
	var sets buf
	var offs []uint16
	for _, f := range firsts {
		offs = append(offs, uint16(hdr+len(sets.b)))
		var seconds []uint16
		for g := range byFirst[f] {
			seconds = append(seconds, g)
		}
		sort.Slice(seconds, func(i, j int) bool { return seconds[i] < seconds[j] })
		sets.u16(uint16(len(seconds)))
		for _, g := range seconds {
			sets.u16(g)
			sets.i16(byFirst[f][g])
		}
	}
	var sub buf
	sub.u16(1, uint16(hdr+len(sets.b)), 4, 0, uint16(len(firsts)))
	sub.u16(offs...)
	sub.b = append(append(sub.b, sets.b...), coverage(firsts)...)
	var w buf
	w.u16(2, 0, 1, 8)
	w.b = append(w.b, sub.b...)
	return w.b
}

func (s *Spec) cmap() []byte {
	cm := append([]CmapTable(nil), s.Cmaps...)
	sort.SliceStable(cm, func(i, j int) bool {
		if cm[i].Platform != cm[j].Platform {
			return cm[i].Platform < cm[j].Platform
		}
		return cm[i].Encoding < cm[j].Encoding
	})
	var hd, body buf
	hd.u16(0, uint16(len(cm)))
	base := 4 + 8*len(cm)
	for _, c := range cm {
		hd.u16(c.Platform, c.Encoding)
		hd.u32(uint32(base + len(body.b)))
		body.b = append(body.b, subtable(c)...)
		for len(body.b)%4 != 0 {
			body.u8(0)
		}
	}
	return append(hd.b, body.b...)
}

func subtable(c CmapTable) []byte {
	var rs []rune
	for r := range c.Map {
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
	if c.Platform == 1 { // format 0
		var w buf
		w.u16(0, 262, 0)
		tb := make([]byte, 256)
		for _, r := range rs {
			if r < 256 {
				tb[r] = byte(c.Map[r])
			}
		}
		w.u8(tb...)
		return w.b
	}
	type seg struct {
		start, end rune
		g          uint16
	}
	var segs []seg
	for _, r := range rs {
		g := c.Map[r]
		if n := len(segs); n > 0 && segs[n-1].end+1 == r && segs[n-1].g+uint16(r-segs[n-1].start) == g {
			segs[n-1].end = r
			continue
		}
		segs = append(segs, seg{r, r, g})
	}
	full := c.Platform == 3 && c.Encoding == 10 || c.Platform == 0 && c.Encoding >= 4
	var w buf
	if full {
		w.u16(12, 0)
		w.u32(uint32(16+12*len(segs)), 0, uint32(len(segs)))
		for _, s := range segs {
			w.u32(uint32(s.start), uint32(s.end), uint32(s.g))
		}
		return w.b
	}
	k := 0
	for _, s := range segs {
		if s.end < 0xffff {
			segs[k] = s
			k++
		}
	}
	segs = append(segs[:k], seg{0xffff, 0xffff, 0})
	n := len(segs)
	w.u16(4, uint16(16+8*n), 0, uint16(2*n), 0, 0, 0)
	for _, s := range segs {
		w.u16(uint16(s.end))
	}
	w.u16(0)
	for _, s := range segs {
		w.u16(uint16(s.start))
	}
	for i, s := range segs {
		if i == n-1 {
			w.u16(1)
			continue
		}
		w.u16(s.g - uint16(s.start))
	}
	for range segs {
		w.u16(0)
	}
	return w.b
}

func directory(tbs map[string][]byte, base uint32) (dir, body []byte) {
	var tags []string
	for t := range tbs {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	var d, b buf
	d.u32(0x00010000)
	d.u16(uint16(len(tags)), 0, 0, 0)
	off := base + uint32(12+16*len(tags))
	for _, t := range tags {
		d.tag(t)
		d.u32(0, off+uint32(len(b.b)), uint32(len(tbs[t])))
		b.u8(tbs[t]...)
		for len(b.b)%4 != 0 {
			b.u8(0)
		}
	}
	return d.b, b.b
}

// Build returns the font file
func (s *Spec) Build() []byte {
	t := s.tables()
	if s.NoHead {
		delete(t, "head")
	}
	d, b := directory(t, 0)
	return append(d, b...)
}

// Collection returns a font collection
func Collection(specs ...*Spec) []byte {
	var w buf
	w.tag("ttcf")
	w.u32(0x00010000, uint32(len(specs)))
	base := uint32(12 + 4*len(specs))
	var all []byte
	var offs []uint32
	for _, s := range specs {
		off := base + uint32(len(all))
		offs = append(offs, off)
		d, b := directory(s.tables(), off)
		all = append(append(all, d...), b...)
	}
	w.u32(offs...)
	return append(w.b, all...)
}
