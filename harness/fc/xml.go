package fc

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	fontconfig "github.com/benoitkugler/textprocessing/fontconfig"
	"verifharness/run"
)

// ---------------------------------------------------------- trees of elements

type xnode struct {
	name  string // "" for a text
	attrs [][2]string
	kids  []*xnode
	text  string
}

func parseTree(s string) *xnode {
	d := xml.NewDecoder(strings.NewReader(s))
	root := &xnode{}
	stack := []*xnode{root}
	for {
		tok, err := d.Token()
		if err != nil {
			break
		}
		top := stack[len(stack)-1]
		switch tok := tok.(type) {
		case xml.StartElement:
			n := &xnode{name: tok.Name.Local}
			for _, a := range tok.Attr {
				n.attrs = append(n.attrs, [2]string{a.Name.Local, a.Value})
			}
			top.kids = append(top.kids, n)
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			top.kids = append(top.kids, &xnode{text: string(tok)})
		}
	}
	for _, k := range root.kids {
		if k.name != "" {
			return k
		}
	}
	return root
}

var textElements = map[string]bool{"int": true, "double": true, "string": true, "bool": true, "const": true, "name": true, "family": true, "glob": true, "description": true}

// write the tree. If deco is set, the writing varies, but not its meaning
func (n *xnode) write(t *run.T, sb *strings.Builder, deco bool) {
	deco = deco && t != nil
	if n.name == "" {
		esc := strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;")
		if !deco {
			sb.WriteString(esc.Replace(n.text))
			return
		}
		for _, r := range n.text {
			switch t.IntN(8) {
			case 0:
				fmt.Fprintf(sb, "&#%d;", r)
			case 1:
				fmt.Fprintf(sb, "&#x%X;", r)
			case 2:
				if r != ']' && r != '>' {
					sb.WriteString("<![CDATA[" + string(r) + "]]>")
					continue
				}
				sb.WriteString(esc.Replace(string(r)))
			case 3:
				sb.WriteString("<!-- x -->" + esc.Replace(string(r)))
			default:
				sb.WriteString(esc.Replace(string(r)))
			}
		}
		return
	}
	inside := deco && !textElements[n.name]
	space := func() {
		if !inside {
			return
		}
		switch t.IntN(6) {
		case 0:
			sb.WriteString("\n\t ")
		case 1:
			sb.WriteString("<!-- <int>1</int> -->")
		case 2:
			sb.WriteString(" <?pi a?>")
		}
	}
	sb.WriteString("<" + n.name)
	attrs := n.attrs
	if deco {
		attrs = append([][2]string(nil), attrs...)
		t.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
	}
	for _, a := range attrs {
		q := `"`
		v := strings.NewReplacer("&", "&amp;", "<", "&lt;", `"`, "&quot;").Replace(a[1])
		if deco && t.Chance(0.3) && !strings.Contains(v, "'") {
			q = "'"
		}
		fmt.Fprintf(sb, " %s=%s%s%s", a[0], q, v, q)
	}
	if len(n.kids) == 0 && deco && t.Chance(0.5) {
		sb.WriteString("/>")
		return
	}
	sb.WriteString(">")
	for _, k := range n.kids {
		space()
		k.write(t, sb, deco)
	}
	space()
	sb.WriteString("</" + n.name + ">")
}

func (n *xnode) String() string {
	var sb strings.Builder
	n.write(nil, &sb, false)
	return sb.String()
}

func (n *xnode) all() []*xnode {
	out := []*xnode{n}
	for _, k := range n.kids {
		out = append(out, k.all()...)
	}
	return out
}

func (n *xnode) clone() *xnode {
	c := &xnode{name: n.name, text: n.text, attrs: append([][2]string(nil), n.attrs...)}
	for _, k := range n.kids {
		c.kids = append(c.kids, k.clone())
	}
	return c
}

var allElements = []string{"fontconfig", "match", "alias", "description", "prefer", "accept", "default", "family", "selectfont", "acceptfont", "rejectfont", "glob", "pattern", "patelt",
	"test", "edit", "int", "double", "string", "matrix", "range", "bool", "charset", "langset", "name", "const", "or", "and", "eq", "not_eq", "less", "less_eq", "more", "more_eq",
	"contains", "not_contains", "plus", "minus", "times", "divide", "not", "if", "floor", "ceil", "round", "trunc"}

var oddTexts = []string{"", " ", "0", "-1", "1", "2", "1e9", "1e300", "NaN", "-Inf", "0x41", "1114111", "1114112", "2147483647", "2147483648", "-2147483648", "4294967296", "99999999999999999999",
	"true", "o", "off", "family", "weight", "charset", "mine1", "other", "bold", "nosuch", "en", "zh-cn", "*", "[", "\x01", "é", "\\"}

var oddAttrs = [][2]string{{"target", "pattern"}, {"target", "font"}, {"target", "scan"}, {"target", "default"}, {"target", "x"}, {"qual", "any"}, {"qual", "all"}, {"qual", "first"}, {"qual", "not_first"}, {"qual", "x"},
	{"name", "family"}, {"name", "weight"}, {"name", "charset"}, {"name", "lang"}, {"name", "mine1"}, {"name", "other"}, {"name", ""}, {"mode", "assign"}, {"mode", "prepend"}, {"mode", "append"}, {"mode", "delete"}, {"mode", "delete_all"}, {"mode", "x"},
	{"binding", "same"}, {"binding", "strong"}, {"binding", "x"}, {"compare", "eq"}, {"compare", "less"}, {"compare", "contains"}, {"compare", "x"}, {"ignore-blanks", "true"}, {"ignore-blanks", "x"}, {"domain", "d"}, {"x", "y"}}

// small value trees of every kind
func randomTree(t *run.T, depth int) *xnode {
	n := &xnode{name: allElements[t.IntN(len(allElements))]}
	for t.Chance(0.4) {
		n.attrs = append(n.attrs, oddAttrs[t.IntN(len(oddAttrs))])
	}
	if textElements[n.name] || t.Chance(0.1) {
		n.kids = append(n.kids, &xnode{text: oddTexts[t.IntN(len(oddTexts))]})
	}
	if depth > 0 && !textElements[n.name] {
		for k := t.IntN(4); k > 0; k-- {
			n.kids = append(n.kids, randomTree(t, depth-1))
		}
	}
	return n
}

func mutateTree(t *run.T, root *xnode) {
	for k := run.Pick(t, 1, 1, 2, 3, 6); k > 0; k-- {
		ns := root.all()
		n := ns[t.IntN(len(ns))]
		m := ns[t.IntN(len(ns))]
		switch t.IntN(10) {
		case 0: // remove a kid
			if len(n.kids) > 0 {
				i := t.IntN(len(n.kids))
				n.kids = append(append([]*xnode(nil), n.kids[:i]...), n.kids[i+1:]...)
			}
		case 1, 2: // add a copy of something
			i := t.IntN(len(n.kids) + 1)
			n.kids = append(append(append([]*xnode(nil), n.kids[:i]...), m.clone()), n.kids[i:]...)
		case 3:
			if n.name != "" {
				n.name = allElements[t.IntN(len(allElements))]
			}
		case 4:
			if n.name == "" {
				n.text = oddTexts[t.IntN(len(oddTexts))]
			} else if len(n.kids) > 0 {
				n.kids = n.kids[:t.IntN(len(n.kids))]
			}
		case 5:
			if len(n.attrs) > 0 {
				i := t.IntN(len(n.attrs))
				n.attrs = append(append([][2]string(nil), n.attrs[:i]...), n.attrs[i+1:]...)
			}
		case 6:
			n.attrs = append(n.attrs, oddAttrs[t.IntN(len(oddAttrs))])
		case 7:
			if len(n.attrs) > 0 {
				n.attrs = append([][2]string(nil), n.attrs...)
				n.attrs[t.IntN(len(n.attrs))][1] = oddTexts[t.IntN(len(oddTexts))]
			}
		case 8:
			n.kids = append(n.kids, randomTree(t, 2))
		case 9: // replace the contents by the ones of another
			if n.name != "" && len(m.kids) > 0 {
				n.kids = m.clone().kids
			}
		}
	}
}

// ---------------------------------------------------------- values

type lexed struct {
	xml string
	v   interface{} // in the model
	ok  bool        // accepted, or not
}

func lexInt(t *run.T) (string, int64, bool) {
	v := int64(run.Pick(t, 0, 1, -1, 7, 65, 255, 1000, -1000, math.MaxInt32, math.MinInt32, math.MaxInt32+1, math.MinInt32-1, 1<<40, 0x110000, 0xFFFFFF))
	ok := v >= math.MinInt32 && v <= math.MaxInt32
	switch t.IntN(6) {
	case 0:
		if v >= 0 {
			return fmt.Sprintf("0x%x", v), v, ok
		}
	case 1:
		if v >= 0 {
			return fmt.Sprintf("0X%X", v), v, ok
		}
	case 2:
		if v > 0 {
			return fmt.Sprintf("+%d", v), v, ok
		}
	case 3:
		if t.Chance(0.3) {
			return run.Pick(t, "", "a", "1a", "1 2", "--1", "1.5", "0xg", "é"), 0, false
		}
	}
	return strconv.FormatInt(v, 10), v, ok
}

func lexFloat(t *run.T) (string, float64, bool) {
	v := run.Pick(t, 0, 1, -1, 0.5, 12.25, -3.75, 1e6, 1e-3, 1e30, 100)
	switch t.IntN(5) {
	case 0:
		return strconv.FormatFloat(v, 'e', 8, 64), v, true
	case 1:
		return strconv.FormatFloat(v, 'f', 6, 64), v, true
	case 2:
		if t.Chance(0.3) {
			return run.Pick(t, "", "a", "1,5", "1.5x", "1..5", "é"), 0, false
		}
	}
	return strconv.FormatFloat(v, 'g', -1, 64), v, true
}

func lexBool(t *run.T) (string, fontconfig.Bool, bool) {
	switch t.IntN(4) {
	case 0:
		return run.Pick(t, "true", "True", "TRUE", "yes", "Yes", "1", "on", "On", "t", "y", "ON"), fontconfig.True, true
	case 1:
		return run.Pick(t, "false", "False", "no", "NO", "0", "off", "Off", "f", "n"), fontconfig.False, true
	case 2:
		return run.Pick(t, "dontcare", "DontCare", "x", "2", "or", "d"), fontconfig.DontCare, true
	}
	return run.Pick(t, "", "a", "3", "-1", "o", "oa", "é", "=", "vrai"), 0, false
}

var allConstants = map[string]int{
	"thin": 0, "extralight": 40, "ultralight": 40, "demilight": 55, "semilight": 55, "light": 50, "book": 75, "regular": 80, "medium": 100, "demibold": 180, "semibold": 180,
	"bold": 200, "extrabold": 205, "ultrabold": 205, "black": 210, "heavy": 210, "roman": 0, "italic": 100, "oblique": 110, "ultracondensed": 50, "extracondensed": 63, "condensed": 75,
	"semicondensed": 87, "normal": 100, "semiexpanded": 113, "expanded": 125, "extraexpanded": 150, "ultraexpanded": 200, "proportional": 0, "dual": 90, "mono": 100, "charcell": 110,
	"unknown": 0, "rgb": 1, "bgr": 2, "vrgb": 3, "vbgr": 4, "none": 5, "hintnone": 0, "hintslight": 1, "hintmedium": 2, "hintfull": 3, "lcdnone": 0, "lcddefault": 1, "lcdlight": 2, "lcdlegacy": 3,
}

var constantNames = func() []string {
	var out []string
	for k := range allConstants {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}()

func genLexed(t *run.T) lexed {
	switch t.IntN(9) {
	case 0:
		s, v, ok := lexInt(t)
		return lexed{"<int>" + s + "</int>", fontconfig.Int(v), ok}
	case 1:
		s, v, ok := lexFloat(t)
		return lexed{"<double>" + s + "</double>", fontconfig.Float(v), ok}
	case 2:
		s, v, ok := lexBool(t)
		return lexed{"<bool>" + s + "</bool>", v, ok}
	case 3:
		s := run.Pick(t, "", "a", " a b ", "é&<>", "a\nb", "日本", "'\"", "-:,\\")
		return lexed{(&xnode{name: "string", kids: []*xnode{{text: s}}}).String(), fontconfig.String(s), true}
	case 4:
		s := constantNames[t.IntN(len(constantNames))]
		v := allConstants[s]
		if t.Chance(0.3) {
			s = strings.ToUpper(s[:1]) + s[1:]
		}
		return lexed{"<const>" + s + "</const>", fontconfig.Int(v), true}
	case 5: // range
		var f [2]float64
		out := lexed{ok: true}
		n := 2
		if t.Chance(0.1) {
			n = t.IntN(4)
		}
		for i := 0; i < n; i++ {
			var (
				s  string
				v  float64
				ok bool
			)
			if t.Chance(0.5) {
				var n int64
				s, n, ok = lexInt(t)
				s, v = "<int>"+s+"</int>", float64(n)
			} else {
				s, v, ok = lexFloat(t)
				s = "<double>" + s + "</double>"
			}
			out.xml += s
			out.ok = out.ok && ok
			if i < 2 {
				f[i] = v
			}
		}
		out.xml = "<range>" + out.xml + "</range>"
		out.ok = out.ok && n == 2 && f[0] <= f[1]
		out.v = fontconfig.Range{Begin: float32(f[0]), End: float32(f[1])}
		return out
	case 6: // charset
		m := mchars{}
		out := lexed{ok: true}
		for n := t.Range(1, 4); n > 0; n-- {
			if t.Chance(0.6) {
				s, v, ok := lexInt(t)
				if !ok && v != 0 && t.Chance(0.8) || v == math.MaxInt32 || v == math.MinInt32 {
					s, v, ok = "0x10FFFF", 0x10FFFF, true
				}
				out.xml += "<int>" + s + "</int>"
				out.ok = out.ok && ok && v >= 0 && v <= 0x10FFFF
				m[rune(v)] = true
			} else {
				a := run.Pick(t, 0, 65, 250, 0xFFFE, 0x10FFF0, -3)
				b := a + run.Pick(t, 0, 1, 15, 300)
				if t.Chance(0.1) {
					b = a - 1
				}
				out.xml += fmt.Sprintf("<range><int>%d</int><int>0x%x</int></range>", a, max(b, 0))
				b = max(b, 0)
				out.ok = out.ok && a >= 0 && b <= 0x10FFFF && a <= b
				for r := a; r <= b; r++ {
					m[rune(r)] = true
				}
			}
		}
		if t.Chance(0.05) {
			out.xml += run.Pick(t, "<string>a</string>", "<bool>true</bool>", "<double>65</double>")
			out.ok = false
		}
		out.xml = "<charset>" + out.xml + "</charset>"
		out.v = m
		return out
	case 7:
		out := lexed{ok: true}
		var ls []string
		for n := t.Range(1, 3); n > 0; n-- {
			l := run.Pick(t, "en", "fr", "zh-cn", "ZH-TW", "tlh", "de", "pt-br")
			ls = append(ls, l)
			out.xml += "<string>" + l + "</string>"
		}
		if t.Chance(0.05) {
			out.xml += "<int>1</int>"
			out.ok = false
		}
		out.xml = "<langset>" + out.xml + "</langset>"
		out.v = mlangs(langModel(ls))
		return out
	}
	// matrix
	var f [4]float64
	out := lexed{ok: true}
	n := 4
	if t.Chance(0.1) {
		n = t.Range(1, 6)
	}
	for i := 0; i < n; i++ {
		s, v, ok := lexFloat(t)
		out.xml += "<double>" + s + "</double>"
		out.ok = out.ok && ok
		if i < 4 {
			f[i] = v
		}
	}
	out.xml = "<matrix>" + out.xml + "</matrix>"
	out.ok = out.ok && n == 4
	out.v = fontconfig.Matrix{Xx: float32(f[0]), Xy: float32(f[1]), Yx: float32(f[2]), Yy: float32(f[3])}
	return out
}

// ---------------------------------------------------------- behaviour of a configuration

type probe struct {
	kind     string
	p, query fontconfig.Pattern
}

func genProbes(t *run.T) []probe {
	var out []probe
	for _, k := range []string{"pattern", "font", "scan"} {
		for i := 0; i < 2; i++ {
			out = append(out, probe{k, genSubject(t), genSubject(t)})
		}
	}
	return out
}

func (pr probe) run(c *fontconfig.Config) string {
	p := pr.p.Duplicate()
	switch pr.kind {
	case "pattern":
		c.Substitute(p, nil, fontconfig.MatchQuery)
	case "font":
		c.Substitute(p, pr.query, fontconfig.MatchResult)
	case "scan":
		c.Substitute(p, nil, fontconfig.MatchScan)
	}
	return canonObserved(p)
}

func runProbes(c *fontconfig.Config, ps []probe) []string {
	var out []string
	for _, p := range ps {
		out = append(out, p.run(c))
	}
	return out
}

func diffProbes(a, b []string) string {
	for i := range a {
		if a[i] != b[i] {
			return a[i] + "\n instead of " + b[i]
		}
	}
	return ""
}

func genSelect(t *run.T) string {
	s := "<selectfont>"
	for n := t.Range(1, 2); n > 0; n-- {
		tag := run.Pick(t, "acceptfont", "rejectfont")
		s += "<" + tag + ">"
		for k := t.Range(1, 2); k > 0; k-- {
			if t.Chance(0.5) {
				s += "<glob>" + run.Pick(t, "*", "/a/*.ttf", "[a", "*.pcf") + "</glob>"
			} else {
				s += "<pattern>"
				for j := t.IntN(3); j > 0; j-- {
					o := substObjs[t.IntN(len(substObjs))]
					s += `<patelt name="` + objName(o) + `">` + xmlPlain(genLeaf(t, kindOf(o))) + "</patelt>"
				}
				s += "</pattern>"
			}
		}
		s += "</" + tag + ">"
	}
	return s + "</selectfont>"
}

func xmlPlain(v fontconfig.Value) string {
	if _, ok := v.(fontconfig.Matrix); ok {
		return ""
	}
	return xmlValue(v)
}

func genDocument(t *run.T, n int) []string {
	var out []string
	for ; n > 0; n-- {
		if t.Chance(0.1) {
			out = append(out, genSelect(t))
			continue
		}
		r := genRule(t)
		out = append(out, r.xml())
	}
	return out
}

func wrap(s string) string { return "<fontconfig>" + s + "</fontconfig>" }

// F09: loading configurations
func F09() *run.Prop {
	return &run.Prop{
		ID:    "F09",
		Rule:  "loading of configurations: valid documents in varied forms, in several files, and hostile ones",
		Quick: 40000, Thorough: 1500000,
		CaseCPU: 5, HeapMB: 1500,
		Need: map[string]int64{"writing": 1000, "split": 1000, "dir": 100, "copy": 100, "value_ok": 1000, "value_refused": 300, "mutant_ok": 500, "mutant_refused": 500, "noise_refused": 100},
		Run: func(t *run.T) {
			cfg := fontconfig.NewConfig()
			load := func(c *fontconfig.Config, s string) {
				if err := c.LoadFromMemory(strings.NewReader(s)); err != nil {
					t.Step("%s", s)
					t.Failf("refused", "a valid configuration is refused: %s", err)
				}
			}
			load(cfg, wrap(preamble))
			probes := genProbes(t)
			switch mode := t.IntN(10); mode {
			case 0, 1: // the same rules, written otherwise
				doc := genDocument(t, t.Range(1, 4))
				ref := cfg.Copy()
				load(ref, wrap(strings.Join(doc, "")))
				var sb strings.Builder
				sb.WriteString(run.Pick(t, "", `<?xml version="1.0"?>`, `<?xml version="1.0" encoding="UTF-8"?><!DOCTYPE fontconfig SYSTEM "fonts.dtd">`, "<!-- c -->\n"))
				root := parseTree(wrap(strings.Join(doc, "")))
				if t.Chance(0.3) {
					root.kids = append([]*xnode{{name: "description", kids: []*xnode{{text: "some <words>"}}}}, root.kids...)
				}
				root.write(t, &sb, true)
				t.Step("%s", sb.String())
				load(cfg, sb.String())
				t.Count("writing", 1)
				a, b := runProbes(cfg, probes), runProbes(ref, probes)
				if d := diffProbes(a, b); d != "" {
					t.Failf("writing", "the same rules written otherwise give %s", d)
				}
				t.Distinct("w", a)
			case 2, 3: // in several files
				doc := genDocument(t, t.Range(2, 8))
				t.Step("%s", strings.Join(doc, "\n"))
				ref := cfg.Copy()
				load(ref, wrap(strings.Join(doc, "")))
				want := runProbes(ref, probes)
				if t.Chance(0.15) {
					dir, err := os.MkdirTemp("", "verif")
					if err != nil {
						t.Failf("dir", "%s", err)
					}
					defer os.RemoveAll(dir)
					names := []string{"01-b.conf", "10-a.conf", "2.conf", "2/1-x.conf", "3-é.conf", "3/0/9-z.conf", "3/0a.conf", "9.conf"}
					// the walk is in the order of the names in each directory
					sort.Slice(names, func(i, j int) bool {
						return strings.ReplaceAll(names[i], "/", "\x00") < strings.ReplaceAll(names[j], "/", "\x00")
					})
					names = names[:len(names)-t.IntN(3)]
					cut := make([]int, len(names)-1)
					for i := range cut {
						cut[i] = t.IntN(len(doc) + 1)
					}
					sort.Ints(cut)
					cut = append(append([]int{0}, cut...), len(doc))
					order := t.Perm(len(names))
					for _, i := range order {
						f := filepath.Join(dir, names[i])
						os.MkdirAll(filepath.Dir(f), 0o755)
						os.WriteFile(f, []byte(wrap(strings.Join(doc[cut[i]:cut[i+1]], ""))), 0o644)
					}
					for _, f := range []string{"README", "a.conf", "1.conf.bak", "conf", "1.CONF"} {
						os.WriteFile(filepath.Join(dir, f), []byte("<fontconfig><bad/></fontconfig>"), 0o644)
					}
					if err := cfg.LoadFromDir(dir); err != nil {
						t.Failf("dir refused", "LoadFromDir: %s", err)
					}
					t.Count("dir", 1)
				} else {
					for len(doc) > 0 {
						n := t.IntN(len(doc) + 1)
						old := cfg
						if t.Chance(0.3) {
							cfg = cfg.Copy()
						}
						before := runProbes(old, probes)
						load(cfg, wrap(strings.Join(doc[:n], "")))
						doc = doc[n:]
						if cfg != old {
							t.Count("copy", 1)
							if d := diffProbes(runProbes(old, probes), before); d != "" {
								t.Failf("copy", "rules loaded in a copy change the original configuration: %s", d)
							}
						}
					}
				}
				t.Count("split", 1)
				got := runProbes(cfg, probes)
				if d := diffProbes(got, want); d != "" {
					t.Failf("split", "the same rules in several files give %s", d)
				}
				if d := diffProbes(runProbes(cfg.Copy(), probes), want); d != "" {
					t.Failf("copy", "a copy of the configuration gives %s", d)
				}
				t.Distinct("s", got)
			case 4, 5: // values
				l := genLexed(t)
				s := wrap(`<match target="font"><edit name="mine1" mode="assign">` + l.xml + `</edit></match>`)
				t.Step("%s", s)
				err := cfg.LoadFromMemory(strings.NewReader(s))
				if (err == nil) != l.ok {
					t.Failf("value", "value %s: error %v, valid: %v", l.xml, err, l.ok)
				}
				if !l.ok {
					t.Count("value_refused", 1)
					return
				}
				t.Count("value_ok", 1)
				p := fontconfig.NewPattern()
				cfg.Substitute(p, nil, fontconfig.MatchResult)
				v, _ := p.GetAt(fontconfig.FirstCustomObject+21, 0)
				if c, ok := v.(fontconfig.Charset); ok {
					if m, ok := l.v.(mchars); ok {
						if c.Len() != len(m) {
							t.Failf("charset", "charset %s read with %d characters instead of %d", clip(l.xml, 300), c.Len(), len(m))
						}
						for r := range m {
							if !c.HasChar(r) {
								t.Failf("charset", "charset %s read without %x", clip(l.xml, 300), r)
							}
						}
						t.Distinct(l.xml)
						return
					}
				}
				if a, b := canonModel(toModel(v)), canonModel(l.v); a != b {
					t.Failf("value", "value %s read as %s, want %s", clip(l.xml, 300), clip(a, 300), clip(b, 300))
				}
				t.Distinct(l.xml)
			default: // hostile
				var data string
				kind := "mutant"
				if t.Chance(0.1) {
					kind = "noise"
					b := []byte(wrap(strings.Join(genDocument(t, 2), "")))
					if t.Chance(0.3) {
						b = b[:t.IntN(len(b)+1)]
					}
					for k := t.IntN(5); k > 0 && len(b) > 0; k-- {
						b[t.IntN(len(b))] = byte(run.Pick(t, '<', '>', '/', '"', '&', 0, 255, ' ', 'a', '0'))
					}
					data = string(b)
				} else {
					var root *xnode
					if t.Chance(0.2) {
						root = randomTree(t, 4)
					} else {
						root = parseTree(wrap(strings.Join(genDocument(t, t.Range(1, 3)), "")))
						mutateTree(t, root)
					}
					data = root.String()
				}
				t.SetInput(data)
				before := runProbes(cfg, probes)
				err := cfg.LoadFromMemory(strings.NewReader(data))
				after := runProbes(cfg, probes)
				if err != nil {
					t.Count(kind+"_refused", 1)
					if d := diffProbes(after, before); d != "" {
						t.Failf("not refused", "a refused configuration has an effect: %s", d)
					}
				} else {
					t.Count(kind+"_ok", 1)
					t.Distinct("h", after)
				}
				if d := diffProbes(runProbes(cfg.Copy(), probes), after); d != "" {
					t.Failf("copy", "a copy of the configuration gives %s", d)
				}
				// the result does not depend on the way the stream is read
				c2 := fontconfig.NewConfig()
				load(c2, wrap(preamble))
				err2 := c2.LoadFromMemory(&pieceReader{data: []byte(data)})
				if (err == nil) != (err2 == nil) {
					t.Failf("reader", "read in small pieces: error %v, instead of %v", err2, err)
				}
				if d := diffProbes(runProbes(c2, probes), after); d != "" {
					t.Failf("reader", "read in small pieces, it gives %s", d)
				}
				// a reader failing before the end
				if n := len(bytes.TrimSpace([]byte(data))); n > 1 && t.Chance(0.2) {
					c3 := fontconfig.NewConfig()
					load(c3, wrap(preamble))
					fail := &pieceReader{data: []byte(data)[:t.IntN(n-1)], err: os.ErrClosed}
					if c3.LoadFromMemory(fail) == nil && strings.Contains(data, "<") && err == nil && balanced(fail.orig) == 0 {
						t.Failf("truncated", "a configuration whose reader fails is accepted")
					}
				}
			}
		},
	}
}

// balanced is 1 if the root element is closed
func balanced(s []byte) int {
	d := xml.NewDecoder(bytes.NewReader(s))
	n := 0
	for {
		tok, err := d.Token()
		if err != nil {
			return 0
		}
		switch tok.(type) {
		case xml.StartElement:
			n++
		case xml.EndElement:
			n--
			if n == 0 {
				return 1
			}
		}
	}
}

type pieceReader struct {
	data, orig []byte
	err        error
	n          int
}

func (r *pieceReader) Read(b []byte) (int, error) {
	if r.orig == nil {
		r.orig = append([]byte{}, r.data...)
	}
	if len(r.data) == 0 {
		if r.err != nil {
			return 0, r.err
		}
		return 0, io.EOF
	}
	r.n++
	k := min(1+r.n%7, len(r.data), len(b))
	copy(b, r.data[:k])
	r.data = r.data[k:]
	return k, nil
}
