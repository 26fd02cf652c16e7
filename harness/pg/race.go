package pg

import (
	"fmt"
	"hash/fnv"
	"runtime"
	"strings"
	"sync"

	"github.com/benoitkugler/textprocessing/fribidi"
	"github.com/benoitkugler/textprocessing/pango"
	"github.com/benoitkugler/textprocessing/pango/fcfonts"

	"verifharness/run"
)

// ---- P18 : independent layouts may be used by several goroutines ----

type raceTask struct {
	kind  int
	text  []rune
	width pango.Unit
	ell   pango.EllipsizeMode
	wrap  pango.WrapMode
	attrs func() pango.AttrList
	desc  func() pango.FontDescription
	lang  pango.Language
	mk    string
	input string
}

var raceKinds = []string{"layouts", "layouts", "layouts", "itemizations", "metrics", "markups", "visual conversions", "breaks", "descriptions"}

func genRaceTask(t *run.T) raceTask {
	k := raceTask{kind: t.IntN(len(raceKinds))}
	if t.Chance(0.6) {
		k.text = genLText(t, t.Chance(0.5), t.Chance(0.2))
	} else {
		k.text = realText(t)
	}
	k.width = -1
	if t.Chance(0.6) {
		k.width = pango.Unit(t.Range(20, 250) * px)
		k.ell = run.Pick(t, pango.ELLIPSIZE_NONE, pango.ELLIPSIZE_NONE, pango.ELLIPSIZE_START, pango.ELLIPSIZE_MIDDLE, pango.ELLIPSIZE_END)
	}
	k.wrap = run.Pick(t, pango.WRAP_WORD, pango.WRAP_CHAR, pango.WRAP_WORD_CHAR)
	mks, names := anyAttrs(t, len(k.text))
	k.attrs = listOf(mks)
	k.desc = histDesc(t, false)
	k.lang = run.Pick(t, pango.Language("en"), "en", "fr", "ar", "ja", "he-il", "")
	k.mk = histMarkup(t, 8)
	k.input = fmt.Sprintf("%s %q %d %v", raceKinds[k.kind], string(k.text), k.width, names)
	return k
}

func (k raceTask) do(fm *fcfonts.FontMap) string {
	ctx := pango.NewContext(fm)
	ctx.SetLanguage(k.lang)
	d := k.desc()
	switch k.kind {
	case 0, 1, 2:
		l := pango.NewLayout(ctx)
		l.SetFontDescription(&d)
		l.SetRunes(k.text)
		l.SetWidth(k.width)
		l.SetWrap(k.wrap)
		l.SetEllipsize(k.ell)
		l.SetAttributes(k.attrs())
		return strings.Join(layoutDump(l), "\n")
	case 3:
		ctx.SetFontDescription(d)
		var sb strings.Builder
		for it := ctx.Itemize(k.text, 0, len(k.text), k.attrs()); it != nil; it = it.Next {
			a := it.Data.Analysis
			fmt.Fprintf(&sb, "[%d,+%d) %s %v %d %v ", it.Data.Offset, it.Data.Length, a.Language, a.Script, a.Level, a.Gravity)
			if a.Font != nil {
				d := a.Font.Describe(true)
				sb.WriteString(d.String())
			}
		}
		return sb.String()
	case 4:
		m := ctx.GetMetrics(&d, k.lang)
		f := pango.LoadFont(fm, ctx, &d)
		if f == nil {
			return fmt.Sprint(m)
		}
		return fmt.Sprint(m, f.GetMetrics(k.lang), f.GetMetrics("ja"))
	case 5:
		p, err := pango.ParseMarkup([]byte(k.mk), 0)
		return fmt.Sprint(string(p.Text), attrDump(p.Attr), err)
	case 6:
		dir := fribidi.ParType(fribidi.ON)
		v, lev := fribidi.LogicalToVisual(fribidi.DefaultFlags, append([]rune(nil), k.text...), &dir)
		return fmt.Sprint(v, lev, dir)
	case 7:
		return fmt.Sprint(pango.ComputeCharacterAttributes(k.text, -1))
	default:
		d := pango.NewFontDescriptionFrom([]string{"Verif Bold 12", "Sans, Verif Italic Condensed 20px", "Verif Two @wght=300"}[len(k.text)%3])
		return d.String()
	}
}

// P18 : goroutines with their own font maps, contexts and layouts
func P18() *run.Prop {
	return &run.Prop{
		ID: "P18", Quick: 900, Thorough: 16_000, Workers: 24, CaseCPU: 60,
		Rule: "8 to 24 tasks (layouts with random settings and attributes, itemizations, metrics, markups, visual conversions, breaks, font descriptions) of goroutines started together, each with its own context and layout, and a font map of its own (or, for half of the cases, the map its previous tasks used) over the same configuration and font set ; the race detector watches them, and each result is compared with the one of the same task alone",
		Need: map[string]int64{"layouts": 3000, "itemizations": 800, "metrics": 800, "markups": 800, "visual conversions": 800, "breaks": 800, "descriptions": 800},
		Run: func(t *run.T) {
			vFontSet()
			type worker struct {
				tasks []raceTask
				got   []string
			}
			ws := make([]worker, t.Range(4, 8))
			var in strings.Builder
			fresh := t.Chance(0.5)
			same := 0.3
			if t.Idx < 24 { // the first use of the package in each of the 24 processes
				same = 0.8
				t.Count("cold starts", 1)
			}
			for i := range ws {
				for k := t.Range(2, 3); k > 0; k-- {
					tk := genRaceTask(t)
					if i > 0 && t.Chance(same) { // the same work elsewhere
						tk = run.Pick(t, ws[t.IntN(i)].tasks...)
					}
					ws[i].tasks = append(ws[i].tasks, tk)
					fmt.Fprintf(&in, "%d: %s\n", i, tk.input)
				}
				ws[i].got = make([]string, len(ws[i].tasks))
			}
			t.SetInput(in.String())
			var wg sync.WaitGroup
			start := make(chan struct{})
			n := 0
			for i := range ws {
				n += len(ws[i].tasks)
			}
			order := make(chan int, n)
			panics := make([]string, len(ws))
			for i := range ws {
				y := t.IntN(4)
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for ; y > 0; y-- {
						runtime.Gosched()
					}
					fm := newVFontMap()
					for j, k := range ws[i].tasks {
						if fresh {
							fm = newVFontMap()
						}
						v, p := run.Guard(func() { ws[i].got[j] = k.do(fm) })
						if p != "" {
							panics[i] = p
							ws[i].got[j] = fmt.Sprint("panic ", v)
						}
						order <- i
					}
				}()
			}
			close(start)
			wg.Wait()
			close(order)
			h := fnv.New64a()
			for i := range order {
				fmt.Fprint(h, i, ",")
			}
			t.DistinctHash(h.Sum64())
			for i := range ws {
				fm := newVFontMap()
				for j, k := range ws[i].tasks {
					t.Count(raceKinds[k.kind], 1)
					if fresh {
						fm = newVFontMap()
					}
					want := ""
					if v, p := run.Guard(func() { want = k.do(fm) }); p != "" {
						want = fmt.Sprint("panic ", v)
					}
					if ws[i].got[j] != want {
						t.Failf("result", "the task %s gives, concurrently, %s, and alone %s", k.input, ws[i].got[j], want)
					}
				}
			}
		},
	}
}
