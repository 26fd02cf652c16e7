// Package run is the supervisor shared by all the monitors.
//
// A check is a list of numbered cases. Case i of property P is generated from a
// PRNG seeded by hash(VERIF_SEED, P, i) only, so that the case list is fixed by
// the seed and the tier, never by time or by the number of workers. The parent
// process re-executes itself as several workers, each running its share of the
// cases; a worker journals the case it is running, so that a crash of the
// process (fatal error, stack overflow, race report), an endless loop (CPU time
// watchdog) or a memory blow-up (heap watchdog) is attributed to one case.
package run

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Prop is one property and the monitor deciding it.
type Prop struct {
	ID              string
	Rule            string
	Quick, Thorough int // number of cases
	// Run executes one case.
	Run func(t *T)
	// Need lists counters which must be reached for the run to mean anything.
	Need map[string]int64
	// CPU seconds allowed to one case (default 30)
	CaseCPU     float64
	HeapMB      uint64 // heap limit, default 3000
	Workers     int
	Assumptions []string
	Exhaustive  bool
	// Ignore tells that a crash, hang or memory blow-up is not in the code
	// under test, from its stack
	Ignore func(stack string) bool
}

// T is the context of one case.
type T struct {
	*rand.Rand
	Prop     string
	Idx      int
	Thorough bool
	w        *worker
	input    string
	trail    []string
}

type violation struct {
	Prop    string `json:"property"`
	Case    int    `json:"case"`
	Seed    uint64 `json:"seed"`
	Tier    string `json:"tier"`
	FP      string `json:"fingerprint"`
	Message string `json:"message"`
	Input   string `json:"input"`
	Stack   string `json:"stack,omitempty"`
}

type failure struct{ fp, msg string }

// Failf reports a violation and stops the case. fp is a short fingerprint of
// what fails (used to match known findings).
func (t *T) Failf(fp, format string, args ...interface{}) {
	panic(failure{fp, fmt.Sprintf(format, args...)})
}

// Errorf reports a violation and goes on.
func (t *T) Errorf(fp, format string, args ...interface{}) {
	t.w.report(t, fp, fmt.Sprintf(format, args...), "")
}

// Count adds n to an event counter of the evidence.
func (t *T) Count(name string, n int) { t.w.mu.Lock(); t.w.counters[name] += int64(n); t.w.mu.Unlock() }

// Max keeps the maximum of a value
func (t *T) Max(name string, n int) {
	t.w.mu.Lock()
	if int64(n) > t.w.maxes[name] {
		t.w.maxes[name] = int64(n)
	}
	t.w.mu.Unlock()
}

// Eval adds n evaluations (a case is one evaluation if Eval is never called).
func (t *T) Eval(n int) { t.w.mu.Lock(); t.w.evals += int64(n); t.w.evalUsed = true; t.w.mu.Unlock() }

// Distinct records a non trivial case by its content.
func (t *T) Distinct(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			h.Write([]byte(v))
		case []byte:
			h.Write(v)
		default:
			fmt.Fprintf(h, "%v|", v)
		}
		h.Write([]byte{0xff})
	}
	t.DistinctHash(h.Sum64())
}

// DistinctHash records a non trivial case by its hash
func (t *T) DistinctHash(h uint64) {
	t.w.mu.Lock()
	if len(t.w.distinct) < 3_000_000 {
		t.w.distinct[h] = struct{}{}
	}
	t.w.mu.Unlock()
}

// Input describes the case being run, for replays and samples.
func (t *T) Input(format string, args ...interface{}) { t.input = fmt.Sprintf(format, args...) }

// SetInput is Input without formatting
func (t *T) SetInput(s string) { t.input = s; t.trail = nil }

// Step appends to the description of the case
func (t *T) Step(format string, args ...interface{}) {
	t.trail = append(t.trail, fmt.Sprintf(format, args...))
}

func (t *T) desc() string {
	s := t.input
	if len(t.trail) != 0 {
		s += " :: " + strings.Join(t.trail, "; ")
	}
	return s
}

// Chance is true with probability p
func (t *T) Chance(p float64) bool { return t.Float64() < p }

// Range returns a number in [a, b]
func (t *T) Range(a, b int) int { return a + t.IntN(b-a+1) }

// Pick returns one of the values
func Pick[V any](t *T, vs ...V) V { return vs[t.IntN(len(vs))] }

// Guard runs f, and returns the panic value and stack if it panics
func Guard(f func()) (p interface{}, stack string) {
	defer func() {
		if r := recover(); r != nil {
			if fl, ok := r.(failure); ok {
				panic(fl)
			}
			p = r
			stack = string(debug.Stack())
		}
	}()
	f()
	return nil, ""
}

var reFrame = regexp.MustCompile(`(?m)^(github\.com/benoitkugler/[^\s]+)\(`)

// PanicFP is the fingerprint of a panic: the first function of the library on
// the stack.
func PanicFP(stack string) string {
	// skip what comes before the panic call
	if i := strings.Index(stack, "panic("); i >= 0 {
		stack = stack[i:]
	}
	for _, m := range reFrame.FindAllStringSubmatch(stack, -1) {
		f := m[1]
		if strings.Contains(f, "/textprocessing/") || strings.Contains(f, "/textlayout/") {
			if i := strings.LastIndexByte(f, '/'); i >= 0 {
				f = f[i+1:]
			}
			if j := strings.IndexByte(f, '('); j > 0 && !strings.HasPrefix(f[j:], "(*") {
				f = f[:j]
			}
			return f
		}
	}
	return "harness"
}

// ---------------------------------------------------------------- worker

type worker struct {
	mu       sync.Mutex
	prop     *Prop
	seed     uint64
	tier     string
	counters map[string]int64
	maxes    map[string]int64
	distinct map[uint64]struct{}
	samples  []string
	evals    int64
	evalUsed bool
	vfile    *os.File
	nviol    int
	fps      map[string]int
}

type result struct {
	Counters map[string]int64
	Maxes    map[string]int64
	Samples  []string
	Evals    int64
	Cases    int64
}

func (w *worker) report(t *T, fp, msg, stack string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.nviol++
	w.fps[fp]++
	if w.fps[fp] > 3 {
		return
	}
	if len(msg) > 60000 {
		msg = msg[:6000] + "..."
	}
	v := violation{t.Prop, t.Idx, w.seed, w.tier, fp, msg, t.desc(), stack}
	b, _ := json.Marshal(v)
	w.vfile.Write(append(b, '\n'))
}

func caseRand(seed uint64, prop string, idx int) *rand.Rand {
	h := fnv.New64a()
	h.Write([]byte(prop))
	var b [16]byte
	binary.LittleEndian.PutUint64(b[:], seed)
	binary.LittleEndian.PutUint64(b[8:], uint64(idx))
	h.Write(b[:])
	s := h.Sum64()
	return rand.New(rand.NewPCG(s, s^0x9e3779b97f4a7c15))
}

func (w *worker) runCase(idx int) {
	t := &T{Rand: caseRand(w.seed, w.prop.ID, idx), Prop: w.prop.ID, Idx: idx, Thorough: w.tier == "thorough", w: w}
	defer func() {
		if r := recover(); r != nil {
			if fl, ok := r.(failure); ok {
				w.report(t, fl.fp, fl.msg, "")
			} else {
				st := string(debug.Stack())
				w.report(t, "panic:"+PanicFP(st), fmt.Sprint("panic: ", r), st)
			}
		}
		w.mu.Lock()
		if len(w.samples) < 3 && t.input != "" && idx > 2 {
			s := t.desc()
			if len(s) > 1200 {
				s = s[:1200] + "..."
			}
			w.samples = append(w.samples, s)
		}
		w.mu.Unlock()
	}()
	w.prop.Run(t)
}

func cpuNow() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec) + float64(ru.Utime.Usec)/1e6 + float64(ru.Stime.Sec) + float64(ru.Stime.Usec)/1e6
}

const (
	exitHang   = 96
	exitMemory = 97
)

func workerMain(p *Prop, seed uint64, tier, dir string, shard, of, from, only int) {
	debug.SetMaxStack(256 << 20)
	vf, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("viol-%d", shard)), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	check(err)
	jf, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("journal-%d", shard)), os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
	check(err)
	w := &worker{prop: p, seed: seed, tier: tier, counters: map[string]int64{}, maxes: map[string]int64{}, distinct: map[uint64]struct{}{}, vfile: vf, fps: map[string]int{}}

	var cur atomic.Int64
	cur.Store(-1)
	limit := p.CaseCPU
	if limit == 0 {
		limit = 30
	}
	if only >= 0 {
		limit *= 2
	}
	heapMB := p.HeapMB
	if heapMB == 0 {
		heapMB = 3000
	}
	go func() {
		last, start := int64(-1), cpuNow()
		sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		for {
			time.Sleep(40 * time.Millisecond)
			c := cur.Load()
			now := cpuNow()
			if c != last {
				last, start = c, now
			} else if now-start > limit {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				os.Stderr.Write(buf[:n])
				fmt.Fprintf(os.Stderr, "\nWATCHDOG: case %d used %.0f s of CPU\n", c, now-start)
				os.Exit(exitHang)
			}
			metrics.Read(sample)
			if sample[0].Value.Uint64() > heapMB<<20 {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				os.Stderr.Write(buf[:n])
				fmt.Fprintf(os.Stderr, "\nWATCHDOG: case %d holds %d MB of heap\n", c, sample[0].Value.Uint64()>>20)
				os.Exit(exitMemory)
			}
		}
	}()

	n := p.Quick
	if tier == "thorough" {
		n = p.Thorough
	}
	var cases int64
	var jb [8]byte
	do := func(i int) {
		binary.LittleEndian.PutUint64(jb[:], uint64(i))
		jf.WriteAt(jb[:], 0)
		cur.Store(int64(i))
		w.runCase(i)
		cases++
	}
	if only >= 0 {
		do(only)
	} else {
		for i := from; i < n; i += of {
			do(i)
			if w.nviol > 400 {
				break
			}
		}
	}
	if !w.evalUsed {
		w.evals = cases
	}
	res := result{w.counters, w.maxes, w.samples, w.evals, cases}
	b, _ := json.Marshal(res)
	check(os.WriteFile(filepath.Join(dir, fmt.Sprintf("res-%d-%d", shard, from)), b, 0o644))
	df, err := os.Create(filepath.Join(dir, fmt.Sprintf("dist-%d-%d", shard, from)))
	check(err)
	bw := bufio.NewWriterSize(df, 1<<20)
	for h := range w.distinct {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], h)
		bw.Write(b[:])
	}
	check(bw.Flush())
	df.Close()
	os.Exit(0)
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(3)
	}
}

// ---------------------------------------------------------------- supervisor

// Main runs the property named on the command line.
func Main(props ...*Prop) {
	var (
		id    = flag.String("prop", "", "property")
		tier  = flag.String("tier", "", "quick or thorough")
		verif = flag.String("verif", "/verif", "directory of the framework")
		wk    = flag.Int("worker", -1, "(internal)")
		of    = flag.Int("of", 1, "(internal)")
		from  = flag.Int("from", 0, "(internal)")
		only  = flag.Int("case", -1, "run this case only, in this process, and print what it reports")
		dir   = flag.String("dir", "", "(internal)")
		seedF = flag.String("seed", "", "seed")
		n     = flag.Int("n", 0, "override the number of cases")
		list  = flag.Bool("list", false, "list the properties")
	)
	flag.Parse()
	if *list {
		for _, p := range props {
			fmt.Println(p.ID)
		}
		return
	}
	var p *Prop
	for _, q := range props {
		if q.ID == *id {
			p = q
		}
	}
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(3)
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
		if *tier == "" {
			*tier = "quick"
		}
	}
	if *seedF == "" {
		*seedF = os.Getenv("VERIF_SEED")
	}
	if *seedF == "" {
		*seedF = "1"
	}
	seed, err := strconv.ParseUint(*seedF, 10, 64)
	if err != nil {
		h := fnv.New64a()
		h.Write([]byte(*seedF))
		seed = h.Sum64() >> 1
	}
	if *n != 0 {
		p.Quick, p.Thorough = *n, *n
	}
	if *wk >= 0 {
		workerMain(p, seed, *tier, *dir, *wk, *of, *from, *only)
	}
	supervise(p, seed, *tier, *verif, *only, *n)
}

type finding struct{ prop, fp, what string }

func loadFindings(path string) (out []finding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^finding: property=(\S+) fp=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			out = append(out, finding{m[1], m[2], m[3]})
		}
	}
	return out
}

func supervise(p *Prop, seed uint64, tier, verif string, only, nOver int) {
	start := time.Now()
	dir, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	check(err)
	defer os.RemoveAll(dir)
	exe, err := os.Executable()
	check(err)
	n := p.Workers
	if n == 0 {
		n = 8
	}
	if only >= 0 {
		n = 1
	}
	total := p.Quick
	if tier == "thorough" {
		total = p.Thorough
	}
	var (
		mu           sync.Mutex
		viols        []violation
		inconclusive []string
		ignored      int64
		wg           sync.WaitGroup
	)
	spawn := func(shard, from, of, only int) (int, string) {
		args := []string{"-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-worker", fmt.Sprint(shard), "-of", fmt.Sprint(of), "-from", fmt.Sprint(from), "-dir", dir, "-case", fmt.Sprint(only)}
		if nOver != 0 {
			args = append(args, "-n", fmt.Sprint(nOver))
		}
		cmd := exec.Command(exe, args...)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all", "GOMAXPROCS="+gomaxprocs(p))
		ef, err := os.Create(filepath.Join(dir, fmt.Sprintf("stderr-%d", shard)))
		check(err)
		cmd.Stderr = ef
		cmd.Stdout = ef
		cmd.Run()
		ef.Close()
		b, _ := os.ReadFile(ef.Name())
		code := cmd.ProcessState.ExitCode()
		return code, string(b)
	}
	crash := func(code int, stderr string, idx int) violation {
		fp, msg := "crash:", ""
		switch {
		case code == exitHang:
			fp, msg = "hang:", "endless loop: the case exceeded its CPU budget"
			stderr = hangStack(stderr)
		case code == exitMemory:
			fp, msg = "memory:", "memory blow-up: the case exceeded its heap budget"
			stderr = hangStack(stderr)
		case code == 66:
			fp, msg = "race:", "data race"
		default:
			msg = fmt.Sprintf("the process died (exit %d)", code)
		}
		if len(stderr) > 20000 {
			stderr = stderr[:20000]
		}
		f := "harness"
		for _, m := range reFrameAny.FindAllStringSubmatch(stderr, -1) {
			f = m[1]
			if i := strings.LastIndexByte(f, '/'); i >= 0 {
				f = f[i+1:]
			}
			if j := strings.IndexByte(f, '('); j > 0 && !strings.HasPrefix(f[j:], "(*") {
				f = f[:j]
			}
			break
		}
		lines := strings.SplitN(stderr, "\n", 3)
		return violation{Prop: p.ID, Case: idx, Seed: seed, Tier: tier, FP: fp + f, Message: msg + ": " + strings.Join(lines[:min(2, len(lines))], " "), Stack: stderr}
	}
	for s := 0; s < n; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			from := s
			crashes := 0
			for restarts := 0; ; restarts++ {
				code, stderr := spawn(s, from, n, only)
				if code == 0 {
					return
				}
				if code == 3 {
					mu.Lock()
					inconclusive = append(inconclusive, "harness error: "+stderr)
					mu.Unlock()
					return
				}
				jb, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("journal-%d", s)))
				if err != nil || len(jb) < 8 {
					mu.Lock()
					inconclusive = append(inconclusive, fmt.Sprintf("worker %d died before its first case: exit %d %s", s, code, stderr))
					mu.Unlock()
					return
				}
				idx := int(binary.LittleEndian.Uint64(jb))
				v := crash(code, stderr, idx)
				confirmed := true
				if code == exitHang || code == exitMemory || code == -1 {
					// confirm alone, with a larger budget
					c2, e2 := spawn(1000+s, 0, 1, idx)
					if c2 == 0 {
						confirmed = false
						mu.Lock()
						inconclusive = append(inconclusive, fmt.Sprintf("case %d: %s (not reproduced alone)", idx, v.Message))
						mu.Unlock()
					} else if c2 != -1 {
						v = crash(c2, e2, idx)
					}
				}
				if confirmed && p.Ignore != nil && p.Ignore(v.Stack) {
					mu.Lock()
					ignored++
					mu.Unlock()
				} else if confirmed {
					mu.Lock()
					viols = append(viols, v)
					mu.Unlock()
					crashes++
				}
				if only >= 0 || crashes >= 4 || restarts > 20 {
					return
				}
				from = idx + n
				if from >= total {
					return
				}
			}
		}(s)
	}
	wg.Wait()

	// collect
	counters, maxes := map[string]int64{}, map[string]int64{}
	if ignored > 0 {
		counters["crashes, hangs or memory blow-ups of a dependency, set aside"] = ignored
	}
	distinct := map[uint64]struct{}{}
	var samples []string
	var evals, cases int64
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		path := filepath.Join(dir, e.Name())
		switch {
		case strings.HasPrefix(e.Name(), "viol-"):
			b, _ := os.ReadFile(path)
			for _, l := range strings.Split(string(b), "\n") {
				var v violation
				if l != "" && json.Unmarshal([]byte(l), &v) == nil {
					viols = append(viols, v)
				}
			}
		case strings.HasPrefix(e.Name(), "res-"):
			b, _ := os.ReadFile(path)
			var r result
			if json.Unmarshal(b, &r) == nil {
				for k, v := range r.Counters {
					counters[k] += v
				}
				for k, v := range r.Maxes {
					if v > maxes[k] {
						maxes[k] = v
					}
				}
				samples = append(samples, r.Samples...)
				evals += r.Evals
				cases += r.Cases
			}
		case strings.HasPrefix(e.Name(), "dist-"):
			b, _ := os.ReadFile(path)
			for ; len(b) >= 8; b = b[8:] {
				distinct[binary.LittleEndian.Uint64(b)] = struct{}{}
			}
		}
	}
	sort.SliceStable(viols, func(i, j int) bool { return viols[i].Case < viols[j].Case })

	known := loadFindings(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	seenKnown := map[string]bool{}
	var news []violation
	fps := map[string]bool{}
	for _, v := range viols {
		isKnown := false
		for _, k := range known {
			if k.prop == p.ID && k.fp == v.FP {
				isKnown = true
				if !seenKnown[k.fp] {
					seenKnown[k.fp] = true
					fmt.Printf("KNOWN-FINDING: property=%s fp=%s %s\n", p.ID, k.fp, k.what)
				}
			}
		}
		if !isKnown {
			if !fps[v.FP] {
				news = append(news, v)
			}
			fps[v.FP] = true
		}
	}
	for _, k := range known {
		if k.prop == p.ID && !seenKnown[k.fp] {
			fmt.Printf("KNOWN-FINDING: property=%s fp=%s %s (listed; not met by this run's cases)\n", p.ID, k.fp, k.what)
		}
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d evaluations, %d distinct non-trivial, %.1f s\n", p.ID, tier, seed, cases, evals, len(distinct), time.Since(start).Seconds())
	var names []string
	for k := range counters {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		fmt.Printf("  %-40s %d\n", k, counters[k])
	}
	for k, v := range maxes {
		fmt.Printf("  max %-36s %d\n", k, v)
	}
	for _, s := range inconclusive {
		fmt.Println("  INCONCLUSIVE:", s)
	}

	// replays
	if len(news) != 0 {
		rdir := filepath.Join(verif, "replays", p.ID)
		os.MkdirAll(rdir, 0o755)
		for i, v := range news {
			if i >= 25 {
				break
			}
			path := filepath.Join(rdir, fmt.Sprintf("case-%d-%d.json", v.Case, i))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(path, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			m := v.Message
			if len(m) > 1500 && os.Getenv("VERIF_FULL") == "" {
				m = m[:1500] + "..."
			}
			in := v.Input
			if len(in) > 1500 && os.Getenv("VERIF_FULL") == "" {
				in = in[:1500] + "..."
			}
			fmt.Printf("  [%s] case %d: %s\n  input: %s\n", v.FP, v.Case, m, in)
			if only >= 0 && v.Stack != "" {
				fmt.Println(v.Stack)
			}
		}
	}
	if only < 0 {
		if len(samples) > 6 {
			samples = samples[:6]
		}
		if len(samples) == 0 {
			samples = []string{fmt.Sprintf("cases 0..%d of %s with seed %d", cases-1, p.ID, seed)}
		}
		cov := map[string]interface{}{
			"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": p.Rule, "samples": samples,
			"cases": cases, "events": counters, "maxima": maxes, "inconclusive": len(inconclusive),
			"violation_fingerprints": len(fps), "known_findings_met": len(seenKnown),
		}
		if p.Exhaustive {
			cov["exhaustive"] = true
		}
		ev := map[string]interface{}{
			"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
			"wall_s": time.Since(start).Seconds(), "violations": len(news),
			"assumptions": append([]string{"held on the executions listed here; says nothing about executions not driven"}, p.Assumptions...),
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		check(os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644))
	}
	os.RemoveAll(dir)
	if len(news) != 0 {
		os.Exit(1)
	}
	if only < 0 && nOver == 0 {
		for k, v := range p.Need {
			if counters[k] < v {
				fmt.Printf("observed nothing: counter %q is %d, at least %d needed\n", k, counters[k], v)
				os.Exit(2)
			}
		}
		if cases == 0 || len(inconclusive) > 8 {
			fmt.Println("inconclusive run")
			os.Exit(2)
		}
	}
	os.Exit(0)
}

func gomaxprocs(p *Prop) string {
	if p.Workers != 0 && p.Workers < 8 {
		return fmt.Sprint(8 / p.Workers)
	}
	if p.Workers > 8 { // races: many processes, to see many starts
		return "4"
	}
	return "2"
}

var reFrameAny = regexp.MustCompile(`(?m)^\s*(github\.com/benoitkugler/text(?:processing|layout)/[^\s]+)\(`)

// hangStack keeps the stack of the goroutine running the case
func hangStack(s string) string {
	for _, g := range strings.Split(s, "\n\n") {
		if strings.Contains(g, "benoitkugler") {
			return g
		}
	}
	return s
}
