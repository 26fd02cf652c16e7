package fc

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"runtime"
	"sort"
	"strings"
	"sync"

	fontconfig "github.com/benoitkugler/textprocessing/fontconfig"
	"verifharness/run"
)

// F15: the configurations and the font sets are shared by many goroutines
func F15() *run.Prop {
	return &run.Prop{ID: "F15", Rule: "F15-concurrent", Quick: 900, Thorough: 15000, Workers: 24, CaseCPU: 60,
		Need: map[string]int64{"concurrent operations": 5000, "substitutions": 1000, "matches": 500, "sorts": 500, "interleavings": 200, "cold starts": 8},
		Run:  runConcurrent}
}

// coldStart is the first use of the package in the process: goroutines doing the same
// operations in different orders, on objects of their own, or on the standard configuration.
func coldStart(t *run.T) {
	if t.Idx >= 24 { // the first cases of the 24 processes
		return
	}
	font := []byte(nil)
	ops := []func() string{
		func() string {
			p := fontconfig.NewPattern()
			p.AddString(fontconfig.FAMILY, "Arial")
			p.SubstituteDefault()
			return canonPattern(p)
		},
		func() string {
			p := fontconfig.NewPattern()
			p.AddString(fontconfig.FAMILY, "Arial")
			fontconfig.Standard.Substitute(p, nil, fontconfig.MatchQuery)
			return canonPattern(p)
		},
		func() string {
			p := fontconfig.NewPattern()
			p.AddString(fontconfig.LANG, "fr")
			f := fontconfig.NewPattern()
			f.Add(fontconfig.LANG, fontconfig.NewLangset("de|fr-ca|xx"), true)
			f.AddString(fontconfig.FILE, "a")
			fs := fontconfig.Fontset{f, f.Duplicate()}
			s, _ := fs.Sort(p, true)
			return canonPattern(fs.Match(p, fontconfig.NewConfig())) + canonAll(s)
		},
		func() string {
			f := fontconfig.NewPattern()
			f.AddString(fontconfig.FAMILY, "a")
			f.AddString(fontconfig.FAMILYLANG, "fr")
			q := fontconfig.NewPattern()
			return canonAll(fontconfig.Fontset{f}.List(q))
		},
		func() string {
			c := fontconfig.NewConfig()
			err := c.LoadFromMemory(strings.NewReader(`<fontconfig><match target="pattern"><test name="family"><string>A</string></test><edit name="weight" mode="assign"><const>bold</const></edit></match></fontconfig>`))
			p := fontconfig.NewPattern()
			p.AddString(fontconfig.FAMILY, "A")
			c.Substitute(p, nil, fontconfig.MatchQuery)
			return fmt.Sprint(err) + canonPattern(p)
		},
		func() string {
			var c fontconfig.Charset
			c.AddChar('a')
			f := fontconfig.NewPattern()
			f.Add(fontconfig.CHARSET, c, true)
			var b bytes.Buffer
			err := fontconfig.Fontset{f}.Serialize(&b)
			l, err2 := fontconfig.LoadFontset(&b)
			return fmt.Sprint(err, err2) + canonAll(l)
		},
		func() string {
			l, err := fontconfig.NewConfig().ScanFontRessource(bytes.NewReader(font), "/x/y.ttf")
			return canonAll(l) + fmt.Sprint(err)
		},
		func() string { return fmt.Sprint(fontconfig.WeightFromOT(450), fontconfig.WeightToOT(90)) },
	}
	font = buildFile([]*scanFont{genScanFont(t)})
	first := t.IntN(len(ops))
	const n = 8
	got := make([][]string, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		got[i] = make([]string, len(ops))
		k0 := first
		if i >= n/2 {
			k0 += i
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for j := range ops {
				k := (k0 + j) % len(ops)
				got[i][k] = ops[k]()
			}
		}()
	}
	close(start)
	wg.Wait()
	t.Count("cold starts", 1)
	for i := range got {
		for k := range ops {
			if got[i][k] != got[0][k] {
				t.Failf("cold", "the first operation %d gives, in different goroutines, %s and %s", k, got[0][k], got[i][k])
			}
		}
	}
}

func runConcurrent(t *run.T) {
	coldStart(t)
	// shared objects
	cfg := fontconfig.NewConfig()
	nd := 0
	for _, d := range genDocument(t, t.Range(1, 6)) {
		c := cfg.Copy()
		if c.LoadFromMemory(strings.NewReader("<fontconfig>"+d+"</fontconfig>")) == nil {
			cfg = c
			nd++
		}
	}
	if t.Chance(0.25) {
		cfg = fontconfig.Standard
	}
	objs := pickObjs(t)
	objs = append(objs, fontconfig.FAMILY, fontconfig.LANG, fontconfig.CHARSET)
	uniq := map[obj]bool{}
	var os []obj
	for _, o := range objs {
		if !uniq[o] {
			uniq[o] = true
			os = append(os, o)
		}
	}
	fs, _ := genFonts(t, os, t.Range(1, 12))
	var cache bytes.Buffer
	if err := fs.Serialize(&cache); err != nil {
		cache.Reset()
	}
	font := buildFile([]*scanFont{genScanFont(t)})
	type task struct {
		kind int
		q    fontconfig.Pattern
		trim bool
	}
	nt := t.Range(8, 24)
	tasks := make([]task, nt)
	for i := range tasks {
		q, _ := genQuery(t, os)
		if t.Chance(0.5) {
			q.AddString(fontconfig.FAMILY, run.Pick(t, "serif", "sans-serif", "monospace", "Arial", "Noto Sans"))
		}
		tasks[i] = task{t.IntN(9), q, t.Chance(0.5)}
	}
	t.SetInput(fmt.Sprintf("%d documents, %d fonts, %d tasks", nd, len(fs), nt))
	do := func(k task) string {
		q := k.q.Duplicate()
		switch k.kind {
		case 0, 1:
			cfg.Substitute(q, nil, fontconfig.MatchQuery)
			q.SubstituteDefault()
			return canonPattern(q)
		case 2:
			m := fs.Match(q, cfg)
			return canonPattern(m)
		case 3:
			s, cs := fs.Sort(q, k.trim)
			return canonAll(s) + fmt.Sprint(cs.Len())
		case 4:
			l := canonSet(fs.List(q, fontconfig.FAMILY, fontconfig.LANG)) // in any order
			sort.Strings(l)
			return strings.Join(l, "\n")
		case 5:
			var b bytes.Buffer
			err := fs.Serialize(&b)
			return fmt.Sprint(err)
		case 6:
			if cache.Len() == 0 {
				return ""
			}
			l, err := fontconfig.LoadFontset(bytes.NewReader(cache.Bytes()))
			return canonAll(l) + fmt.Sprint(err)
		case 7:
			l, err := cfg.ScanFontRessource(bytes.NewReader(font), "/x/y.ttf")
			return canonAll(l) + fmt.Sprint(err)
		default:
			if len(fs) == 0 {
				return ""
			}
			return canonPattern(cfg.PrepareRender(q, fs[0]))
		}
	}
	want := make([]string, nt)
	before := canonAll(fs)
	after := t.Chance(0.5)
	alone := func() {
		for i := range tasks {
			want[i] = do(tasks[i])
		}
	}
	if !after {
		alone()
	}
	var wg sync.WaitGroup
	got := make([]string, nt)
	order := make(chan int, nt)
	start := make(chan struct{})
	yield := make([]int, nt)
	for i := range yield {
		yield[i] = t.IntN(4)
	}
	for i := range tasks {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for k := 0; k < yield[i]; k++ {
				runtime.Gosched()
			}
			got[i] = do(tasks[i])
			order <- i
		}(i)
	}
	close(start)
	wg.Wait()
	close(order)
	if after {
		alone()
	}
	h := fnv.New64a()
	for i := range order {
		fmt.Fprint(h, i, ",")
	}
	t.DistinctHash(h.Sum64())
	t.Count("interleavings", 1)
	for i := range tasks {
		t.Count("concurrent operations", 1)
		t.Count([]string{"substitutions", "substitutions", "matches", "sorts", "lists", "writes", "reads", "scans", "renderings"}[tasks[i].kind], 1)
		if got[i] != want[i] {
			t.Failf("concurrent-result", "operation %d gives, concurrently, %s, and alone %s", tasks[i].kind, got[i], want[i])
		}
	}
	if now := canonAll(fs); now != before {
		t.Failf("concurrent-mutation", "the font set is changed")
	}
}

func canonAll(fs fontconfig.Fontset) string { return strings.Join(canonSet(fs), "\n") }
