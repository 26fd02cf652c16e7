package pg

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"unicode"

	"github.com/benoitkugler/textlayout/fonts"
	fc "github.com/benoitkugler/textprocessing/fontconfig"
	"github.com/benoitkugler/textprocessing/pango/fcfonts"

	"verifharness/sfnt"
)

// The fonts of the monitors : "Verif" (regular, bold, italic) and "Verif Two",
// made of 1024 units per em, whose advances are multiples of 64 units, so
// that the advances at multiples of 16 pixels are whole pixels.

const (
	vAscent, vDescent, vLineGap = 896, 256, 128 // in font units
	px                          = 1024          // Pango units by pixel
)

// advance64 is the advance of a character in units of 1/16 em
func advance64(r rune, face int) int {
	if zeroWidth(r) {
		return 0
	}
	a := 0
	switch {
	case r == ' ' || r == 0xA0:
		a = 5
	case strings.ContainsRune("()[]{}<>«»", r): // mirrored
		a = 6
	case r == '-' || r == 0x2010:
		a = 4
	case r == 0x3000: // a very wide space
		a = 80
	case r == 0x2026:
		a = 13
	case r >= '0' && r <= '9':
		a = 8
	case r >= 0x4E00 && r <= 0x9FFF, r >= 0x3000 && r <= 0x30FF:
		a = 16
	default:
		a = 4 + int(r*7%9)
	}
	return a + face
}

// zeroWidth : marks and invisible characters
func zeroWidth(r rune) bool {
	return unicode.In(r, unicode.Mn, unicode.Me, unicode.Cf, unicode.Zl, unicode.Zp)
}

// the characters of the fonts
func vCharset() (out []rune) {
	add := func(a, b rune) {
		for r := a; r <= b; r++ {
			out = append(out, r)
		}
	}
	add(0x20, 0x7E)
	add(0x3000, 0x3000)
	add(0xA0, 0xBF) // no precomposed letter, so that nothing is recomposed
	add(0xD7, 0xD7)
	add(0xDF, 0xDF)
	add(0xE6, 0xE6)
	add(0x300, 0x36F)
	add(0x3B1, 0x3C9)
	add(0x391, 0x3A1)
	add(0x430, 0x44F)
	add(0x5B0, 0x5C7)
	add(0x5D0, 0x5EA)
	add(0x5BE, 0x5BE)
	add(0x60C, 0x60C)
	add(0x621, 0x63A)
	add(0x641, 0x655)
	add(0x660, 0x669)
	add(0xE01, 0xE3A)
	add(0xE40, 0xE4E)
	add(0x200B, 0x200F)
	add(0x2010, 0x2015)
	add(0x2018, 0x201D)
	add(0x2026, 0x2029)
	add(0x202A, 0x202E)
	add(0x2066, 0x2069)
	add(0x3001, 0x3002)
	add(0x3041, 0x3096)
	add(0x4E00, 0x4E40)
	return out
}

func vSpec(family, style string, face int, weight uint16, italic bool) *sfnt.Spec {
	s := &sfnt.Spec{
		UPEM: 1024, Ascent: vAscent, Descent: -vDescent, LineGap: vLineGap, UnderPos: -128, UnderThick: 64,
		Revision: 1 << 16,
	}
	for id, v := range []string{"", family, style, "", family + " " + style, "", strings.ReplaceAll(family, " ", "") + "-" + style} {
		if v != "" {
			s.Names = append(s.Names, sfnt.MS(0x409, uint16(id), v))
		}
	}
	sel := uint16(0)
	if weight >= 700 {
		sel |= 1 << 5
		s.MacStyle |= 1
	}
	if italic {
		sel |= 1
		s.MacStyle |= 2
	}
	if sel == 0 {
		sel = 1 << 6
	}
	s.OS2 = &sfnt.OS2{Version: 4, Weight: weight, Width: 5, Vendor: "VRIF", Selection: sel, YStrikeSize: 64, YStrikePos: 256, SubXSize: 512, SubYOff: 128}
	m := map[rune]uint16{}
	s.Glyphs = append(s.Glyphs, sfnt.Glyph{Adv: 640, X: 64, W: 512, H: 640})
	for _, r := range vCharset() {
		m[r] = uint16(len(s.Glyphs))
		a := advance64(r, face) * 64
		g := sfnt.Glyph{Adv: uint16(a)}
		if a > 0 && !unicode.IsSpace(r) {
			g.X, g.W, g.H = 32, int16(a-64), 512
		} else if unicode.In(r, unicode.Mn, unicode.Me) {
			g.X, g.Y, g.W, g.H = -128, 544, 64, 64
		}
		s.Glyphs = append(s.Glyphs, g)
	}
	s.Cmaps = []sfnt.CmapTable{{Platform: 3, Encoding: 1, Map: m}}
	return s
}

var vFaces = []struct {
	family, style string
	face          int
	weight        uint16
	italic        bool
}{
	{"Verif", "Regular", 0, 400, false},
	{"Verif", "Bold", 1, 700, false},
	{"Verif", "Italic", 2, 400, true},
	{"Verif Two", "Regular", 3, 400, false},
}

type memLoader struct{}

var fontFiles = map[string][]byte{}

func (memLoader) LoadFace(key fonts.FaceID, format fc.FontFormat) (fonts.Face, error) {
	b, ok := fontFiles[key.File]
	if !ok {
		return nil, fmt.Errorf("no font %s", key.File)
	}
	l, err := format.Loader()(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return l[key.Index], nil
}

var (
	fmOnce sync.Once
	fmSet  fc.Fontset
	fmCfg  *fc.Config
)

// vFontSet scans the synthetic fonts, written in a scratch directory. They are then loaded from memory.
func vFontSet() (*fc.Config, fc.Fontset) {
	fmOnce.Do(func() {
		dir, err := os.MkdirTemp("", "verif-fonts.")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		for i, f := range vFaces {
			b := vSpec(f.family, f.style, f.face, f.weight, f.italic).Build()
			path := filepath.Join(dir, fmt.Sprintf("f%d.ttf", i))
			if err := os.WriteFile(path, b, 0o600); err != nil {
				panic(err)
			}
			fontFiles[path] = b
		}
		fmCfg = fc.NewConfig()
		conf := `<fontconfig><alias binding="same"><family>Sans</family><prefer><family>Verif</family></prefer></alias></fontconfig>`
		if err := fmCfg.LoadFromMemory(strings.NewReader(conf)); err != nil {
			panic(err)
		}
		fmSet, err = fmCfg.ScanFontDirectories(dir)
		if err != nil {
			panic(err)
		}
		if len(fmSet) != len(vFaces) {
			panic(fmt.Sprintf("the scan found %d fonts instead of %d", len(fmSet), len(vFaces)))
		}
	})
	return fmCfg, fmSet
}

// newVFontMap returns a new map of the synthetic fonts
func newVFontMap() *fcfonts.FontMap {
	cfg, set := vFontSet()
	m := fcfonts.NewFontMap(cfg, set)
	m.SetFaceLoader(memLoader{})
	return m
}

var sharedMap struct {
	sync.Mutex
	m *fcfonts.FontMap
	n int
}

// vFontMap returns a map of the synthetic fonts, which may have been used before
func vFontMap() *fcfonts.FontMap {
	sharedMap.Lock()
	defer sharedMap.Unlock()
	if sharedMap.m == nil || sharedMap.n > 3000 {
		sharedMap.m, sharedMap.n = newVFontMap(), 0
	}
	sharedMap.n++
	return sharedMap.m
}
