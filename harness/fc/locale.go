package fc

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"strings"

	"github.com/benoitkugler/textprocessing/fontconfig"

	"verifharness/run"
)

// The default languages are read once by a process : the check runs this program again,
// with various locales, and compares what the queries receive.

// localeQuery is sent to the child : the languages of the query, as strings, or sets when starting with a bar
type localeQuery struct{ Langs []string }

type localeResult struct {
	Langs, Name, FamilyLang, Listed []string
}

var localeFamilies = []string{"en", "de", "fr", "ja", "zh-cn", "zh-tw", "pt", "ku-tr", "tlh-xx"}

func strs(p fontconfig.Pattern, o obj) (out []string) {
	for i := 0; ; i++ {
		v, res := p.GetAt(o, i)
		if res != fontconfig.ResultMatch {
			return out
		}
		switch v := v.(type) {
		case fontconfig.String:
			out = append(out, string(v))
		case fontconfig.Langset:
			out = append(out, "|"+v.String())
		default:
			out = append(out, fmt.Sprintf("%T", v))
		}
	}
}

// LocaleChild answers to the queries read on the standard input
func LocaleChild() {
	var qs []localeQuery
	if err := json.NewDecoder(os.Stdin).Decode(&qs); err != nil {
		os.Exit(2)
	}
	font := fontconfig.NewPattern()
	for _, l := range localeFamilies {
		font.Add(fontconfig.FAMILY, fontconfig.String("family "+l), true)
		font.Add(fontconfig.FAMILYLANG, fontconfig.String(l), true)
	}
	c := fontconfig.NewConfig()
	var out []localeResult
	for _, q := range qs {
		p := fontconfig.NewPattern()
		for _, l := range q.Langs {
			if strings.HasPrefix(l, "|") {
				p.Add(fontconfig.LANG, fontconfig.NewLangset(l[1:]), true)
			} else {
				p.Add(fontconfig.LANG, fontconfig.String(l), true)
			}
		}
		c.Substitute(p, nil, fontconfig.MatchQuery)
		var r localeResult
		r.Langs = strs(p, fontconfig.LANG)
		p.SubstituteDefault()
		r.Name, r.FamilyLang = strs(p, fontconfig.NAMELANG), strs(p, fontconfig.FAMILYLANG)
		if fs := (fontconfig.Fontset{font}).List(fontconfig.NewPattern(), fontconfig.FAMILY, fontconfig.FAMILYLANG); len(fs) == 1 {
			r.Listed = strs(fs[0], fontconfig.FAMILY)
		}
		out = append(out, r)
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

// the names of locales, and the language they ask for, empty when not valid
var localeNames = [][2]string{
	{"zh_CN.UTF-8", "zh-cn"}, {"zh_TW", "zh-tw"}, {"zh_HK.big5", "zh-hk"}, {"zh_SG", "zh-sg"}, {"fr_FR.UTF-8", "fr"}, {"fr", "fr"}, {"fr_CA", "fr"},
	{"de_AT@euro", "de"}, {"de", "de"}, {"DE_de", "de"}, {"en_US.UTF-8", "en"}, {"C", "en"}, {"POSIX", "en"}, {"C.UTF-8", "en"}, {"c.utf8", "en"}, {"en", "en"},
	{"ja_JP.eucJP", "ja"}, {"ja", "ja"}, {"ku_TR.UTF-8", "ku-tr"}, {"ku_IQ", "ku-iq"}, {"mn_MN", "mn-mn"}, {"az_IR", "az-ir"}, {"az_AZ", "az-az"}, {"ps_PK", "ps-pk"},
	{"sr_RS@latin", "sr"}, {"pt_BR", "pt"}, {"pt-br", "pt"}, {"tlh_XX", "tlh-xx"}, {"tlh", "tlh"}, {"quz_PE.UTF-8", "quz"}, {"qqq_ABC", "qqq-abc"},
	{"x", ""}, {"abcd_FR", ""}, {"fr_F", ""}, {"de_ABCD", ""}, {"", ""}, {".UTF-8", ""}, {"_FR", ""}, {"@euro", ""},
}

func F16() *run.Prop {
	return &run.Prop{
		ID: "F16", Quick: 6000, Thorough: 120000,
		Rule: "a process is started for each combination of FC_LANG, LC_ALL, LC_CTYPE and LANG (lists of locales, with repetitions, territories, encodings, modifiers, badly formed names) ; the languages added to the queries, the default languages of the names and the name listed first are compared with the locale, several times",
		Need: map[string]int64{"several languages": 500, "languages added": 1000, "languages found": 500, "no valid language": 50},
		Run: func(t *run.T) {
			var env, want []string
			chosen := false
			for _, v := range []string{"FC_LANG", "LC_ALL", "LC_CTYPE", "LANG"} {
				if t.Chance(0.5) {
					continue
				}
				var names, langs []string
				k := 1
				if t.Chance(0.7) {
					k = t.IntN(7)
				}
				for ; k > 0; k-- {
					x := localeNames[t.IntN(len(localeNames))]
					names = append(names, x[0])
					found := x[1] == ""
					for _, l := range langs {
						found = found || l == x[1]
					}
					if !found {
						langs = append(langs, x[1])
					}
				}
				val := strings.Join(names, ":")
				env = append(env, v+"="+val)
				if !chosen && val != "" {
					chosen, want = true, langs
				}
			}
			if len(want) == 0 {
				want = []string{"en"}
				t.Count("no valid language", 1)
			}
			if len(want) > 1 {
				t.Count("several languages", 1)
			}
			qs := []localeQuery{{}, {}, {}}
			pool := append([]string{"en", "FR", "De", "ja", "xx", "UND", "zh-CN", "|ja|en", "|fr", "|und", "|de-at|xx", "|zh-tw"}, want...)
			for k := t.IntN(6); k > 0; k-- {
				var q localeQuery
				for n := t.IntN(3); n >= 0; n-- {
					q.Langs = append(q.Langs, pool[t.IntN(len(pool))])
				}
				qs = append(qs, q)
			}
			t.Input("%q %q", env, qs)
			t.Distinct(strings.Join(env, " "))
			exe, _ := os.Executable()
			cmd := exec.Command(exe, "-locale-child")
			cmd.Env = env
			in, _ := json.Marshal(qs)
			cmd.Stdin = strings.NewReader(string(in))
			data, err := cmd.Output()
			if err != nil {
				msg := err.Error()
				if e, ok := err.(*exec.ExitError); ok {
					msg += " " + string(e.Stderr)
					if len(msg) > 1500 {
						msg = msg[:1500]
					}
				}
				t.Failf("locale-run", "the process fails: %s", msg)
				return
			}
			var rs []localeResult
			if err := json.Unmarshal(data, &rs); err != nil || len(rs) != len(qs) {
				t.Failf("locale-run", "invalid answer %q", data)
				return
			}
			for i, r := range rs {
				exp := append([]string(nil), qs[i].Langs...)
				for j, l := range exp {
					if strings.HasPrefix(l, "|") {
						exp[j] = "|" + fontconfig.NewLangset(l[1:]).String()
					}
				}
				added := 0
			langs:
				for _, l := range want {
					for _, v := range exp {
						if strings.HasPrefix(v, "|") {
							if m := langModel(strings.Split(v[1:], "|")); setContains(m, l) || setContains(m, "und") {
								t.Count("languages found", 1)
								break langs
							}
						} else if strings.EqualFold(v, l) || strings.EqualFold(v, "und") {
							t.Count("languages found", 1)
							break langs
						}
					}
					exp = append(exp, l)
					added++
				}
				t.Count("languages added", added)
				for _, l := range [][]string{r.Langs, exp} {
					for j, v := range l { // the order in the sets is not specified
						if strings.HasPrefix(v, "|") {
							l[j] = fmt.Sprint(keys(sliceSet(strings.Split(v, "|"))))
						}
					}
				}
				if !reflect.DeepEqual(r.Langs, exp) {
					t.Failf("locale-langs", "query %q has the languages %q, want %q (locale %q)", qs[i].Langs, r.Langs, exp, want)
				}
				if len(r.Name) != 1 || r.Name[0] != want[0] {
					t.Failf("locale-name", "the default language is %q, want %q", r.Name, want[0])
				}
				if w := []string{want[0], "en-us"}; !reflect.DeepEqual(r.FamilyLang, w) {
					t.Failf("locale-family", "the language of the family is %q, want %q", r.FamilyLang, w)
				}
				for _, l := range localeFamilies {
					if l == want[0] && (len(r.Listed) != len(localeFamilies) || r.Listed[0] != "family "+l) {
						t.Failf("locale-list", "List gives the families %q, for the language %q", r.Listed, l)
					}
				}
			}
		},
	}
}
