// Package pg holds the monitors of the pango package.
package pg

import (
	"strings"
	"sync"

	"verifharness/ucd"
)

// ---- character classes, from the Unicode Character Database ----

type brk struct {
	gcb, wb, sb, lb []string
	gc              []string
	pict            []bool
}

var brkData = sync.OnceValue(func() *brk {
	d := &brk{
		gcb: append([]string(nil), ucd.Get("GCB")...), wb: append([]string(nil), ucd.Get("WB")...),
		sb: append([]string(nil), ucd.Get("SB")...), lb: append([]string(nil), ucd.Get("LB")...), gc: ucd.Get("GC"),
		pict: make([]bool, 0x110000),
	}
	for r := range d.pict {
		d.pict[r] = ucd.Get("ExtPict")[r] == "Y"
		switch d.wb[r] { // perl's own splits
		case "ExtPict_LE":
			d.wb[r] = "ALetter"
		case "ExtPict_XX":
			d.wb[r] = "Other"
		}
		if d.wb[r] == "Perl_Tailored_HSpace" { // perl's own class : horizontal spaces
			d.wb[r] = "Other"
			if isGC(d.gc[r], "Zs") && d.lb[r] != "GL" {
				d.wb[r] = "WSegSpace"
			}
		}
	}
	return d
})

// isGC : the data uses long or short names
func isGC(v string, short ...string) bool {
	for _, s := range short {
		if gcShort(v) == s {
			return true
		}
	}
	return false
}

var gcNames = map[string]string{
	"Uppercase_Letter": "Lu", "Lowercase_Letter": "Ll", "Titlecase_Letter": "Lt", "Modifier_Letter": "Lm", "Other_Letter": "Lo",
	"Nonspacing_Mark": "Mn", "Spacing_Mark": "Mc", "Enclosing_Mark": "Me",
	"Decimal_Number": "Nd", "Letter_Number": "Nl", "Other_Number": "No",
	"Connector_Punctuation": "Pc", "Dash_Punctuation": "Pd", "Open_Punctuation": "Ps", "Close_Punctuation": "Pe",
	"Initial_Punctuation": "Pi", "Final_Punctuation": "Pf", "Other_Punctuation": "Po",
	"Math_Symbol": "Sm", "Currency_Symbol": "Sc", "Modifier_Symbol": "Sk", "Other_Symbol": "So",
	"Space_Separator": "Zs", "Line_Separator": "Zl", "Paragraph_Separator": "Zp",
	"Control": "Cc", "Cntrl": "Cc", "Format": "Cf", "Surrogate": "Cs", "Private_Use": "Co", "Unassigned": "Cn",
}

func gcShort(v string) string {
	if s, ok := gcNames[v]; ok {
		return s
	}
	return v
}

// ---- UAX #29, grapheme clusters ----

func graphemes(text []rune) []bool {
	d := brkData()
	n := len(text)
	out := make([]bool, n+1)
	out[0], out[n] = true, true
	c := func(i int) string { return d.gcb[text[i]] }
	ctl := func(s string) bool { return s == "Control" || s == "CR" || s == "LF" }
	for i := 1; i < n; i++ {
		a, b := c(i-1), c(i)
		switch {
		case a == "CR" && b == "LF": // GB3
		case ctl(a) || ctl(b): // GB4, GB5
			out[i] = true
		case a == "L" && (b == "L" || b == "V" || b == "LV" || b == "LVT"): // GB6
		case (a == "LV" || a == "V") && (b == "V" || b == "T"): // GB7
		case (a == "LVT" || a == "T") && b == "T": // GB8
		case b == "Extend" || b == "ZWJ": // GB9
		case b == "SpacingMark": // GB9a
		case a == "Prepend": // GB9b
		case a == "ZWJ" && d.pict[text[i]] && func() bool { // GB11
			j := i - 2
			for j >= 0 && c(j) == "Extend" {
				j--
			}
			return j >= 0 && d.pict[text[j]]
		}():
		case a == "Regional_Indicator" && b == "Regional_Indicator" && func() bool { // GB12, GB13
			k := 0
			for j := i - 1; j >= 0 && c(j) == "Regional_Indicator"; j-- {
				k++
			}
			return k%2 == 1
		}():
		default:
			out[i] = true
		}
	}
	return out
}

// ---- UAX #29, words ----

func wordBounds(text []rune) []bool {
	d := brkData()
	n := len(text)
	out := make([]bool, n+1)
	out[0], out[n] = true, true
	c := func(i int) string { return d.wb[text[i]] }
	skip := func(s string) bool { return s == "Extend" || s == "Format" || s == "ZWJ" }
	nl := func(s string) bool { return s == "Newline" || s == "CR" || s == "LF" }
	ah := func(s string) bool { return s == "ALetter" || s == "Hebrew_Letter" }
	mnlq := func(s string) bool { return s == "MidNumLet" || s == "Single_Quote" }
	// class of the k-th significant character before position i (k=1 is the nearest), or ""
	prev := func(i, k int) (string, int) {
		for j := i - 1; j >= 0; j-- {
			if skip(c(j)) && j > 0 && !nl(c(j-1)) {
				// attached to what precedes
				continue
			}
			k--
			if k == 0 {
				return c(j), j
			}
		}
		return "", -1
	}
	next := func(i int) string { // after i, skipping what attaches to i
		for j := i + 1; j < n; j++ {
			if skip(c(j)) && !nl(c(j-1)) {
				continue
			}
			return c(j)
		}
		return ""
	}
	for i := 1; i < n; i++ {
		ra, b := c(i-1), c(i)
		if ra == "CR" && b == "LF" {
			continue
		}
		if nl(ra) || nl(b) {
			out[i] = true
			continue
		}
		if ra == "ZWJ" && d.pict[text[i]] { // WB3c
			continue
		}
		if ra == "WSegSpace" && b == "WSegSpace" { // WB3d
			continue
		}
		if skip(b) { // WB4
			continue
		}
		a, ai := prev(i, 1)
		aa, _ := prev(i, 2)
		nx := next(i)
		switch {
		case ah(a) && ah(b): // WB5
		case ah(a) && (b == "MidLetter" || mnlq(b)) && ah(nx): // WB6
		case ah(aa) && (a == "MidLetter" || mnlq(a)) && ah(b): // WB7
		case a == "Hebrew_Letter" && b == "Single_Quote": // WB7a
		case a == "Hebrew_Letter" && b == "Double_Quote" && nx == "Hebrew_Letter": // WB7b
		case aa == "Hebrew_Letter" && a == "Double_Quote" && b == "Hebrew_Letter": // WB7c
		case a == "Numeric" && b == "Numeric": // WB8
		case ah(a) && b == "Numeric": // WB9
		case a == "Numeric" && ah(b): // WB10
		case aa == "Numeric" && (a == "MidNum" || mnlq(a)) && b == "Numeric": // WB11
		case a == "Numeric" && (b == "MidNum" || mnlq(b)) && nx == "Numeric": // WB12
		case a == "Katakana" && b == "Katakana": // WB13
		case (ah(a) || a == "Numeric" || a == "Katakana" || a == "ExtendNumLet") && b == "ExtendNumLet": // WB13a
		case a == "ExtendNumLet" && (ah(b) || b == "Numeric" || b == "Katakana"): // WB13b
		case a == "Regional_Indicator" && b == "Regional_Indicator" && func() bool { // WB15, WB16
			k := 1
			for j := ai; ; {
				cl, jj := prev(j, 1)
				if cl != "Regional_Indicator" {
					break
				}
				k++
				j = jj
			}
			return k%2 == 1
		}():
		default:
			out[i] = true
		}
	}
	return out
}

// ---- UAX #29, sentences ----

func sentenceBounds(text []rune) []bool {
	d := brkData()
	n := len(text)
	out := make([]bool, n+1)
	out[0], out[n] = true, true
	c := func(i int) string { return d.sb[text[i]] }
	skip := func(s string) bool { return s == "Extend" || s == "Format" }
	para := func(s string) bool { return s == "Sep" || s == "CR" || s == "LF" }
	sat := func(s string) bool { return s == "STerm" || s == "ATerm" }
	// significant characters : SB5 attaches Extend and Format to what precedes, except after a separator
	var sig []int
	for i := 0; i < n; i++ {
		if skip(c(i)) && i > 0 && !para(c(i-1)) {
			continue
		}
		sig = append(sig, i)
	}
	for k := 1; k < len(sig); k++ {
		i := sig[k]
		if c(i-1) == "CR" && c(i) == "LF" && sig[k-1] == i-1 { // SB3
			continue
		}
		if para(c(i - 1)) { // SB4
			out[i] = true
			continue
		}
		at := func(j int) string {
			if j < 0 || j >= len(sig) {
				return ""
			}
			return c(sig[j])
		}
		a, b := at(k-1), at(k)
		if a == "ATerm" && b == "Numeric" { // SB6
			continue
		}
		if a == "ATerm" && b == "Upper" && (at(k-2) == "Upper" || at(k-2) == "Lower") { // SB7
			continue
		}
		// SATerm Close* Sp* ParaSep?  before this position
		j := k - 1
		hasPara := false
		if para(at(j)) {
			hasPara = true
			j--
		}
		js := j
		for at(j) == "Sp" {
			j--
		}
		nsp := js - j
		jc := j
		for at(j) == "Close" {
			j--
		}
		_ = jc
		term := at(j)
		if !sat(term) {
			continue // SB998
		}
		if !hasPara {
			if term == "ATerm" { // SB8
				m := k
				for m < len(sig) {
					s := at(m)
					if s == "OLetter" || s == "Upper" || s == "Lower" || para(s) || sat(s) {
						break
					}
					m++
				}
				if at(m) == "Lower" {
					continue
				}
			}
			if b == "SContinue" || sat(b) { // SB8a
				continue
			}
			if nsp == 0 && (b == "Close" || b == "Sp" || para(b)) { // SB9
				continue
			}
			if b == "Sp" || para(b) { // SB10
				continue
			}
		}
		out[i] = true // SB11
	}
	return out
}

// ---- UAX #14, with the number tailoring of section 8.2 (example 7) ----

var lbShort = map[string]string{
	"Alphabetic": "AL", "Ambiguous": "AI", "Break_After": "BA", "Break_Before": "BB", "Break_Both": "B2", "Break_Symbols": "SY",
	"Carriage_Return": "CR", "Close_Parenthesis": "CP", "Close_Punctuation": "CL", "Combining_Mark": "CM", "Complex_Context": "SA",
	"Conditional_Japanese_Starter": "CJ", "Contingent_Break": "CB", "E_Base": "EB", "E_Modifier": "EM", "Exclamation": "EX", "Glue": "GL",
	"H2": "H2", "H3": "H3", "Hebrew_Letter": "HL", "Hyphen": "HY", "Ideographic": "ID", "Infix_Numeric": "IS", "Inseparable": "IN",
	"Inseperable": "IN", "JL": "JL", "JT": "JT", "JV": "JV", "Line_Feed": "LF", "Mandatory_Break": "BK", "Next_Line": "NL",
	"Nonstarter": "NS", "Numeric": "NU", "Open_Punctuation": "OP", "Postfix_Numeric": "PO", "Prefix_Numeric": "PR", "Quotation": "QU",
	"Regional_Indicator": "RI", "Space": "SP", "Surrogate": "SG", "Unknown": "XX", "Word_Joiner": "WJ", "ZWJ": "ZWJ", "ZWSpace": "ZW",
}

func lbClass(r rune) string {
	d := brkData()
	v := d.lb[r]
	s, ok := lbShort[v]
	if !ok {
		s = v
	}
	switch s { // LB1
	case "AI", "SG", "XX", "":
		return "AL"
	case "SA":
		if isGC(d.gc[r], "Mn", "Mc") {
			return "CM"
		}
		return "AL"
	case "CJ":
		return "NS"
	}
	return s
}

// in tells if s is one of the words of list
func in(s string, list string) bool {
	for len(list) > 0 {
		w := list
		if i := strings.IndexByte(list, ' '); i >= 0 {
			w, list = list[:i], list[i+1:]
		} else {
			list = ""
		}
		if w == s {
			return s != ""
		}
	}
	return false
}

// lineBreaks gives the break opportunities and the mandatory breaks ; unsure
// are the positions where the rules looking one character ahead meet a combining mark
func lineBreaks(text []rune) (opp, mand, unsure []bool) {
	d := brkData()
	n := len(text)
	opp, mand, unsure = make([]bool, n+1), make([]bool, n+1), make([]bool, n+1)
	opp[n], mand[n] = true, true
	type unit struct {
		at, last int
		cl       string
	}
	var us []unit
	for i, r := range text {
		cl := lbClass(r)
		if cl == "CM" || cl == "ZWJ" { // LB9, LB10
			if len(us) > 0 && !in(us[len(us)-1].cl, "BK CR LF NL SP ZW") {
				us[len(us)-1].last = i
				continue
			}
			cl = "AL"
		}
		us = append(us, unit{i, i, cl})
	}
	num := make([]bool, len(us)) // inside NU (NU|SY|IS)*
	for k, u := range us {
		num[k] = u.cl == "NU" || (k > 0 && num[k-1] && in(u.cl, "SY IS"))
	}
	for k := 1; k < len(us); k++ {
		i := us[k].at
		a, b := us[k-1].cl, us[k].cl
		at := func(j int) string {
			if j < 0 || j >= len(us) {
				return ""
			}
			return us[j].cl
		}
		// the class before any spaces
		j := k - 1
		for at(j) == "SP" {
			j--
		}
		before := at(j)
		ok := func() bool {
			switch {
			case a == "BK", a == "CR" && b != "LF", a == "LF", a == "NL": // LB4, LB5
				mand[i] = true
				return true
			case a == "CR":
				return false
			case in(b, "BK CR LF NL"): // LB6
				return false
			case in(b, "SP ZW"): // LB7
				return false
			case text[i-1] == 0x200D: // LB8a
				return false
			case before == "ZW": // LB8
				return true
			case a == "WJ" || b == "WJ": // LB11
				return false
			case a == "GL": // LB12
				return false
			case b == "GL" && !in(a, "SP BA HY"): // LB12a
				return false
			case b == "EX": // LB13
				return false
			case in(b, "CL CP IS SY") && a != "NU": // LB13, tailored
				return false
			case before == "OP": // LB14
				return false
			case before == "QU" && b == "OP": // LB15
				return false
			case in(before, "CL CP") && b == "NS": // LB16
				return false
			case before == "B2" && b == "B2": // LB17
				return false
			case a == "SP": // LB18
				return true
			case a == "QU" || b == "QU": // LB19
				return false
			case a == "CB" || b == "CB": // LB20
				return true
			case in(b, "BA HY NS") || a == "BB": // LB21
				return false
			case at(k-2) == "HL" && in(a, "HY BA"): // LB21a
				return false
			case a == "SY" && b == "HL": // LB21b
				return false
			case b == "IN" && in(a, "AL HL EX ID EB EM IN NU"): // LB22
				return false
			case in(a, "AL HL") && b == "NU", a == "NU" && in(b, "AL HL"): // LB23
				return false
			case a == "PR" && in(b, "ID EB EM"), in(a, "ID EB EM") && b == "PO": // LB23a
				return false
			case in(a, "PR PO") && in(b, "AL HL"), in(a, "AL HL") && in(b, "PR PO"): // LB24
				return false
			// LB25, tailored : (PR|PO)? (OP|HY)? NU (NU|SY|IS)* (CL|CP)? (PR|PO)?
			case in(a, "PR PO") && b == "NU":
				return false
			case in(a, "PR PO") && in(b, "OP HY") && at(k+1) == "NU":
				unsure[i] = us[k].last != us[k].at
				return false
			case in(a, "OP HY") && b == "NU":
				return false
			case num[k-1] && in(b, "NU SY IS CL CP"):
				return false
			case in(b, "PO PR") && (num[k-1] || (in(a, "CL CP") && k >= 2 && num[k-2])):
				return false
			case a == "JL" && in(b, "JL JV H2 H3"), in(a, "JV H2") && in(b, "JV JT"), in(a, "JT H3") && b == "JT": // LB26
				return false
			case in(a, "JL JV JT H2 H3") && b == "PO", a == "PR" && in(b, "JL JV JT H2 H3"): // LB27
				return false
			case in(a, "AL HL") && in(b, "AL HL"): // LB28
				return false
			case a == "IS" && in(b, "AL HL"): // LB29
				return false
			case in(a, "AL HL NU") && b == "OP", a == "CP" && in(b, "AL HL NU"): // LB30
				return false
			case a == "RI" && b == "RI": // LB30a
				m := 0
				for j := k - 1; at(j) == "RI"; j-- {
					m++
				}
				return m%2 == 0
			case a == "EB" && b == "EM": // LB30b
				return false
			}
			return true // LB31
		}()
		opp[i] = ok
	}
	_ = d
	return opp, mand, unsure
}
