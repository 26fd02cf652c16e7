package pg

import (
	"math"
	"sort"
	"strings"

	"github.com/benoitkugler/textprocessing/pango"
	"github.com/benoitkugler/textlayout/language"

	"verifharness/run"
)

var laterSamples = map[string]bool{"sd": true, "doi": true, "ks": true, "ne": true, "mai": true, "as": true}

// P17 : the conversions, and the texts of the languages
func P17() *run.Prop {
	const pangram = "The quick brown fox jumps over the lazy dog."
	tags := make([]string, 0, len(langSamples))
	for k := range langSamples {
		tags = append(tags, k)
	}
	sort.Strings(tags)
	return &run.Prop{
		ID: "P17", Quick: 1000000, Thorough: 15000000,
		Rule: "units of any value and near the multiples of half a pixel, converted and compared with the integer definition ; matrices made from their factors, rotations and mirrors ; language tags of any number of subtags, written with various cases and separators, against the table of the sample texts of C Pango",
		Need: map[string]int64{"ties": 1000, "negative units": 1000, "samples": 1000, "territories": 1000, "no sample": 1000, "mirrored": 1000},
		Run: func(t *run.T) {
			switch t.IntN(3) {
			case 0:
				for k := 0; k < 20; k++ {
					var v int64
					switch t.IntN(4) {
					case 0:
						v = int64(t.Range(-1<<21, 1<<21))*512 + int64(t.Range(-1, 1))
					case 1:
						v = int64(t.Range(-3000, 3000))
					default:
						v = int64(int32(t.Uint64()))
					}
					v = min(max(v, math.MinInt32), math.MaxInt32-1024) // the sum must not overflow
					t.Input("unit %d", v)
					if v < 0 {
						t.Count("negative units", 1)
					}
					floor := int64(math.Floor(float64(v) / 1024))
					ceil := int64(math.Ceil(float64(v) / 1024))
					near := floor
					switch rest := v - 1024*floor; {
					case rest == 512:
						t.Count("ties", 1)
						near = floor + 1
					case rest > 512:
						near = floor + 1
					}
					u := pango.Unit(v)
					if g := int64(u.Pixels()); g != near {
						t.Failf("pixels", "%d units are %d pixels, want %d", v, g, near)
					}
					if g := int64(u.PixelsFloor()); g != floor {
						t.Failf("floor", "%d units are %d pixels (floor), want %d", v, g, floor)
					}
					if g := int64(u.PixelsCeil()); g != ceil {
						t.Failf("ceil", "%d units are %d pixels (ceil), want %d", v, g, ceil)
					}
					if g := int64(u.Round()); g != near*1024 {
						t.Failf("round", "%d units are rounded to %d, want %d", v, g, near*1024)
					}
					t.Distinct(v)
				}
				g := pango.Gravity(t.IntN(4))
				// south, east, north, west : quarters of turn
				if g.IsVertical() != (g == pango.GRAVITY_EAST || g == pango.GRAVITY_WEST) || g.IsImproper() != (g == pango.GRAVITY_NORTH || g == pango.GRAVITY_WEST) {
					t.Failf("gravity", "gravity %s : vertical %v, improper %v", g, g.IsVertical(), g.IsImproper())
				}
			case 1:
				var nilm *pango.Matrix
				if x, y := nilm.GetFontScaleFactors(); x != 1 || y != 1 {
					t.Failf("matrix", "no matrix has the factors %g %g", x, y)
				}
				// R(angle) * [sx k ; 0 ±sy]
				sx, sy := math.Exp(8*t.Float64()-4), math.Exp(8*t.Float64()-4)
				k := (2*t.Float64() - 1) * sy
				sign := 1.0
				if t.Chance(0.5) {
					sign = -1
					t.Count("mirrored", 1)
				}
				a := 2 * math.Pi * t.Float64()
				if t.Chance(0.3) {
					a = math.Pi / 2 * float64(t.IntN(4))
				}
				c, s := math.Cos(a), math.Sin(a)
				m := pango.Matrix{Xx: float32(c * sx), Yx: float32(s * sx), Xy: float32(c*k - s*sign*sy), Yy: float32(s*k + c*sign*sy), X0: float32(t.IntN(10)), Y0: float32(t.IntN(10))}
				if t.Chance(0.05) {
					m.Xx, m.Yx, sx, sy = 0, 0, 0, 0
				}
				t.Input("%v", m)
				x, y := m.GetFontScaleFactors()
				// the determinant cancels when the horizontal shear is large
				tol := 1e-4 * (sy + math.Abs(k))
				if math.Abs(float64(x)-sx) > 1e-4*sx || math.Abs(float64(y)-sy) > tol || x < 0 || y < 0 {
					t.Failf("matrix", "the matrix %v has the factors %g %g, want %g %g", m, x, y, sx, sy)
				}
				t.Distinct(x, y)
			case 2:
				tag := tags[t.IntN(len(tags))]
				switch t.IntN(4) {
				case 0:
					tag = randLetters(t, t.Range(2, 3))
				case 1: // near one of the table
					b := []byte(tag)
					b[t.IntN(len(b))] = byte('a' + t.IntN(26))
					tag = string(b)
				}
				for k := t.IntN(3); k > 0; k-- {
					tag += "-" + run.Pick(t, "br", "cn", "tw", "hk", "mo", "sg", "latn", "fr", "x", "hant", randLetters(t, t.Range(1, 4)))
				}
				if strings.Trim(tag, "-") != tag || strings.Contains(tag, "--") {
					return
				}
				want, known, n := pangram, false, 0
				for p := tag; ; {
					if s, ok := langSamples[p]; ok {
						want, known = s, true
						break
					}
					i := strings.LastIndexByte(p, '-')
					if i < 0 {
						break
					}
					p = p[:i]
					n++
				}
				first, _, _ := strings.Cut(tag, "-")
				if laterSamples[first] {
					return
				}
				switch {
				case !known:
					t.Count("no sample", 1)
				case n > 0:
					t.Count("territories", 1)
				}
				t.Count("samples", 1)
				written := []byte(tag)
				for i, c := range written {
					if c == '-' && t.Chance(0.3) {
						written[i] = '_'
					} else if t.Chance(0.2) {
						written[i] = strings.ToUpper(string(c))[0]
					}
				}
				t.Input("%s", written)
				if got := pango.SampleString(language.NewLanguage(string(written))); got != want {
					t.Failf("sample", "the sample text of %s is %q, want %q", written, got, want)
				}
				t.Distinct(tag)
			}
		},
	}
}

func randLetters(t *run.T, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + t.IntN(26))
	}
	return string(b)
}
