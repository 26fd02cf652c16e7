package fc

import (
	"fmt"
	"strings"

	fontconfig "github.com/benoitkugler/textprocessing/fontconfig"
	"verifharness/run"
)

func xmlCharset(c cset) string {
	var sb strings.Builder
	sb.WriteString("<charset>")
	rs := c.sorted()
	for i := 0; i < len(rs); {
		j := i
		for j+1 < len(rs) && rs[j+1] == rs[j]+1 {
			j++
		}
		if j == i {
			fmt.Fprintf(&sb, "<int>%d</int>", rs[i])
		} else {
			fmt.Fprintf(&sb, "<range><int>%d</int><int>%d</int></range>", rs[i], rs[j])
		}
		i = j + 1
	}
	sb.WriteString("</charset>")
	return sb.String()
}

// F01: charsets are sets of code points
func F01() *run.Prop {
	return &run.Prop{
		ID:    "F01",
		Rule:  "charset histories, containment, union, difference, coverage counts against sets of runes",
		Quick: 60000, Thorough: 400000,
		Need: map[string]int64{"listed": 50, "not_listed": 50, "union": 50, "difference": 50, "trimmed": 20},
		Run: func(t *run.T) {
			pages := t.Range(1, len(genPages))
			n := t.Range(2, 5)
			sets := make([]cset, n)
			for i := range sets {
				switch {
				case i > 0 && t.Chance(0.4):
					// related to a previous one
					sets[i] = sets[t.IntN(i)].clone()
					for k := t.IntN(4); k > 0; k-- {
						r := genRune(t, pages)
						sets[i].fc.AddChar(r)
						sets[i].m[r] = true
					}
				default:
					sets[i] = genCset(t, run.Pick(t, 3, 20, 80), pages)
				}
				if t.Chance(0.4) {
					sets[i] = sets[i].delSome(t)
				}
				t.Step("set %d = %s", i, showRunes(sets[i].m))
			}
			for i, s := range sets {
				if got := runesOf(s.fc); !sameRunes(got, s.m) {
					t.Failf("content", "set %d holds %s", i, showRunes(got))
				}
				if s.fc.Len() != len(s.m) {
					t.Failf("len", "set %d: Len = %d", i, s.fc.Len())
				}
				for _, r := range []rune{0x300, 0x2abc, 0xffff, 0x10fffd} {
					if s.fc.HasChar(r) && !s.m[r] {
						t.Failf("haschar", "set %d has %x", i, r)
					}
				}
				t.Distinct(showAll(s.m))
				// copies are independent
				cp := s.fc.Copy()
				r := genRune(t, pages)
				had := s.m[r]
				if t.Chance(0.5) {
					cp.AddChar(r)
				} else {
					cp.DelChar(r)
				}
				if s.fc.HasChar(r) != had {
					t.Failf("copy", "changing %x in a copy of set %d changed the original", r, i)
				}
			}
			font := func(i int) fontconfig.Pattern {
				p := fontconfig.NewPattern()
				p.Add(fontconfig.CHARSET, sets[i].fc, true)
				return p
			}
			// containment and equality
			for i := range sets {
				for j := range sets {
					res := fontconfig.Fontset{font(i)}.List(font(j), fontconfig.CHARSET)
					want := subset(sets[j].m, sets[i].m)
					if (len(res) != 0) != want {
						t.Failf("contains", "font with set %d listed for set %d: %v, should be %v", i, j, len(res) != 0, want)
					}
					if want {
						t.Count("listed", 1)
					} else {
						t.Count("not_listed", 1)
					}
					if i < j {
						res := fontconfig.Fontset{font(i), font(j)}.List(nil, fontconfig.CHARSET)
						eq := sameRunes(sets[i].m, sets[j].m)
						if (len(res) == 1) != eq {
							t.Failf("equal", "sets %d and %d listed as %d distinct values", i, j, len(res))
						}
						if (font(i).Hash() == font(j).Hash()) != eq {
							t.Failf("hash", "sets %d and %d: same hash is %v", i, j, !eq)
						}
					}
				}
			}
			// coverage: the font missing fewest characters is chosen, the first one on ties
			var all fontconfig.Fontset
			for i := range sets {
				p := font(i)
				p.AddInt(fontconfig.FirstCustomObject+1, int32(i))
				all = append(all, p)
			}
			cfg := fontconfig.NewConfig()
			for j := range sets {
				best, bn := -1, 0
				var fs fontconfig.Fontset
				for i := range sets {
					if i == j {
						continue
					}
					fs = append(fs, all[i])
					if m := minus(sets[j].m, sets[i].m); best < 0 || m < bn {
						best, bn = i, m
					}
				}
				got := fs.Match(font(j), cfg)
				if g, _ := got.GetInt(fontconfig.FirstCustomObject + 1); int(g) != best {
					t.Failf("missing count", "query set %d: font %d chosen (misses %d), font %d misses %d", j, g, minus(sets[j].m, sets[g].m), best, bn)
				}
			}
			// accumulation
			union := map[rune]bool{}
			kept := 0
			for i, s := range sets {
				if i == 0 || !subset(s.m, union) {
					kept++
				}
				for r := range s.m {
					union[r] = true
				}
			}
			res, cov := all.Sort(fontconfig.NewPattern(), true)
			if len(res) != kept {
				t.Failf("trim", "%d fonts kept of %d, want %d", len(res), len(all), kept)
			}
			if kept < len(all) {
				t.Count("trimmed", 1)
			}
			if !sameRunes(runesOf(cov), union) || cov.Len() != len(union) {
				t.Failf("coverage", "union of the coverage is %s, want %s", showRunes(runesOf(cov)), showRunes(union))
			}
			for i, s := range sets {
				if got := runesOf(s.fc); !sameRunes(got, s.m) {
					t.Failf("unchanged", "set %d changed to %s", i, showRunes(got))
				}
			}
			// union, difference and comparisons inside the rules
			if t.Chance(0.3) {
				a, b := sets[0], sets[1]
				ops := []string{"plus", "minus"}
				for k, op := range ops {
					cfg, err := loadConfig(`<match target="pattern"><edit name="charset" mode="assign"><` + op + `><name>charset</name>` + xmlCharset(b) + `</` + op + `></edit></match>`)
					if err != nil {
						t.Failf("config", "%s", err)
					}
					p := font(0)
					cfg.Substitute(p, nil, fontconfig.MatchQuery)
					got, _ := p.GetCharset(fontconfig.CHARSET)
					want := map[rune]bool{}
					for r := range a.m {
						if k == 0 || !b.m[r] {
							want[r] = true
						}
					}
					if k == 0 {
						for r := range b.m {
							want[r] = true
						}
						t.Count("union", 1)
					} else {
						t.Count("difference", 1)
					}
					if !sameRunes(runesOf(got), want) || got.Len() != len(want) {
						t.Failf(op, "%s of sets 0 and 1 is %s, want %s", op, showRunes(runesOf(got)), showRunes(want))
					}
				}
			}
		},
	}
}

// F02: language sets
func F02() *run.Prop {
	return &run.Prop{
		ID:    "F02",
		Rule:  "language set content, containment and distance against the definition",
		Quick: 200000, Thorough: 1500000,
		Need: map[string]int64{"listed": 100, "not_listed": 100, "d0": 100, "d1": 100, "d2": 100},
		Run: func(t *run.T) {
			var (
				n    = t.Range(2, 4)
				strs = make([][]string, n)
				ms   = make([]map[string]bool, n)
				ls   = make([]fontconfig.Langset, n)
			)
			for i := range strs {
				strs[i] = genLangs(t, run.Pick(t, 1, 2, 6))
				ms[i] = langModel(strs[i])
				ls[i] = fontconfig.NewLangset(strings.Join(strs[i], "|"))
				t.Step("set %d = %v", i, strs[i])
				got := strings.Split(ls[i].String(), "|")
				if !same(keys(sliceSet(got)), keys(ms[i])) || len(got) != len(ms[i]) {
					t.Failf("string", "set %d is %v, want %v", i, got, keys(ms[i]))
				}
				cp := ls[i].Copy()
				if cp.String() != ls[i].String() && len(ms[i]) == 1 {
					t.Failf("copy", "copy of set %d is %s", i, cp.String())
				}
				t.Distinct(keys(ms[i]))
			}
			font := func(i int) fontconfig.Pattern {
				p := fontconfig.NewPattern()
				p.Add(fontconfig.LANG, ls[i], true)
				p.AddInt(fontconfig.FirstCustomObject+1, int32(i))
				return p
			}
			cfg := fontconfig.NewConfig()
			for j := range ls {
				query := fontconfig.NewPattern()
				query.Add(fontconfig.LANG, ls[j], true)
				var fs fontconfig.Fontset
				best, bd := 0, 3
				for i := range ls {
					res := fontconfig.Fontset{font(i)}.List(query, fontconfig.LANG)
					want := setIncludes(ms[i], ms[j])
					if (len(res) != 0) != want {
						t.Failf("includes", "font with set %d listed for set %d: %v, should be %v", i, j, len(res) != 0, want)
					}
					count(t, want)
					if i != j {
						fs = append(fs, font(i))
						if d := setsDistance(ms[i], ms[j]); d < bd {
							best, bd = i, d
						}
					}
					if i < j {
						a, b := fontconfig.NewPattern(), fontconfig.NewPattern()
						a.Add(fontconfig.LANG, ls[i], true)
						b.Add(fontconfig.LANG, ls[j], true)
						eq := same(keys(ms[i]), keys(ms[j]))
						if (a.Hash() == b.Hash()) != eq {
							t.Failf("hash", "sets %d and %d: same hash is %v", i, j, !eq)
						}
					}
				}
				t.Count(fmt.Sprintf("d%d", bd), 1)
				got, _ := fs.Match(query, cfg).GetInt(fontconfig.FirstCustomObject + 1)
				if int(got) != best {
					t.Failf("distance", "query set %d: font %d chosen (distance %d), font %d is at distance %d", j, got, setsDistance(ms[got], ms[j]), best, bd)
				}
				// one language, as a string
				l := genLang(t)
				query = fontconfig.NewPattern()
				query.AddString(fontconfig.LANG, l)
				best, bd = 0, 3
				for i := range ls {
					if i == j {
						continue
					}
					if d := setDistance(ms[i], l); d < bd {
						best, bd = i, d
					}
					res := fontconfig.Fontset{font(i)}.List(query, fontconfig.LANG)
					if want := setContains(ms[i], l); (len(res) != 0) != want {
						t.Failf("contains", "font with set %d listed for %s: %v, should be %v", i, l, len(res) != 0, want)
					}
				}
				got, _ = fs.Match(query, cfg).GetInt(fontconfig.FirstCustomObject + 1)
				if int(got) != best {
					t.Failf("string distance", "query %s: font %d chosen (distance %d), font %d is at distance %d", l, got, setDistance(ms[got], l), best, bd)
				}
			}
			// union and difference in the rules
			if t.Chance(0.2) {
				for k, op := range []string{"plus", "minus"} {
					body := "<langset>"
					for _, l := range strs[1] {
						body += "<string>" + l + "</string>"
					}
					body += "</langset>"
					cfg, err := loadConfig(`<match target="pattern"><edit name="lang" mode="assign"><` + op + `><name>lang</name>` + body + `</` + op + `></edit></match>`)
					if err != nil {
						t.Failf("config", "%s", err)
					}
					p := fontconfig.NewPattern()
					p.Add(fontconfig.LANG, ls[0], true)
					cfg.Substitute(p, nil, fontconfig.MatchResult)
					cfg.Substitute(p, nil, fontconfig.MatchQuery)
					v, _ := p.GetAt(fontconfig.LANG, 0)
					want := map[string]bool{}
					for l := range ms[0] {
						if k == 0 || !ms[1][l] {
							want[l] = true
						}
					}
					if k == 0 {
						for l := range ms[1] {
							want[l] = true
						}
					}
					got, ok := v.(fontconfig.Langset)
					if !ok {
						t.Failf(op, "result is %v", v)
					}
					gots := strings.Split(got.String(), "|")
					if got.String() == "" {
						gots = nil
					}
					if !same(keys(sliceSet(gots)), keys(want)) {
						t.Failf(op, "%s of sets 0 and 1 is %v, want %v", op, gots, keys(want))
					}
				}
			}
		},
	}
}

func count(t *run.T, listed bool) {
	if listed {
		t.Count("listed", 1)
	} else {
		t.Count("not_listed", 1)
	}
}

func sliceSet(l []string) map[string]bool {
	out := map[string]bool{}
	for _, s := range l {
		out[s] = true
	}
	return out
}
