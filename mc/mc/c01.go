package main

import (
	"fmt"
	"strings"

	"verifmc/model"
)

func init() {
	checks["C01"] = c01
	checks["C02"] = c02
	checks["C03"] = c03
	checks["C04"] = c04
}

var specAssume = []string{
	"the reference model (mc/model) is the reading of draft-04/06/07 validation; it is cross-checked against the official test suite in /repo/testdata by setup_cmd",
	"pattern and patternProperties follow Go's RE2 syntax, as documented; the model calls regexp as well",
	"values outside the enumerated alphabets are not covered",
}

func c01(c *Ctx) {
	c.Assume = specAssume
	c.Rule = "every schema of the keyword/argument alphabet x every document of the document alphabet x every draft; a state is one compiled schema, a trace one validation compared with the model"
	nums := insts(numbers...)
	c.Section("numeric keyword x number x number", fmt.Sprintf("%d number literals", len(numbers)), asc, func(emit func(Case)) {
		for _, d := range drafts() {
			for _, n := range numbers {
				var ms []string
				ms = append(ms, `"minimum":`+n, `"maximum":`+n)
				if model.MustParse(n).N.Sign() > 0 {
					ms = append(ms, `"multipleOf":`+n)
				}
				if d == model.D4 || d == model.Hybrid {
					for _, b := range []string{"true", "false"} {
						ms = append(ms, `"minimum":`+n+`,"exclusiveMinimum":`+b, `"maximum":`+n+`,"exclusiveMaximum":`+b)
					}
				}
				if d != model.D4 {
					ms = append(ms, `"exclusiveMinimum":`+n, `"exclusiveMaximum":`+n)
				}
				for _, m := range ms {
					emit(&Verdict{Draft: d, Schema: "{" + m + "}", Insts: nums})
				}
			}
		}
	})
	c.Section("several bounds together", fmt.Sprintf("%d x %d limits, up to 5 numeric keywords", len(numbersSmall), len(numbersSmall)), asc, func(emit func(Case)) {
		small := insts(numbersSmall...)
		for _, d := range drafts() {
			for _, a := range numbersSmall {
				for _, b := range numbersSmall {
					emit(&Verdict{Draft: d, Schema: fmt.Sprintf(`{"minimum":%s,"maximum":%s}`, a, b), Insts: small})
					if d != model.D4 {
						emit(&Verdict{Draft: d, Schema: fmt.Sprintf(`{"exclusiveMinimum":%s,"exclusiveMaximum":%s}`, a, b), Insts: small})
						emit(&Verdict{Draft: d, Schema: fmt.Sprintf(`{"minimum":%s,"exclusiveMinimum":%s}`, a, b), Insts: small})
						emit(&Verdict{Draft: d, Schema: fmt.Sprintf(`{"maximum":%s,"exclusiveMaximum":%s}`, a, b), Insts: small})
						emit(&Verdict{Draft: d, Schema: fmt.Sprintf(`{"minimum":%s,"exclusiveMaximum":%s,"multipleOf":0.5}`, a, b), Insts: small})
						emit(&Verdict{Draft: d, Schema: fmt.Sprintf(`{"minimum":-1,"maximum":%s,"exclusiveMinimum":%s,"exclusiveMaximum":10,"multipleOf":0.5}`, a, b), Insts: small})
					}
					if d == model.D4 || d == model.Hybrid {
						for i := 0; i < 4; i++ {
							emit(&Verdict{Draft: d, Schema: fmt.Sprintf(`{"minimum":%s,"maximum":%s,"exclusiveMinimum":%v,"exclusiveMaximum":%v}`, a, b, i&1 == 1, i&2 == 2), Insts: small})
						}
					}
					if d == model.Hybrid { // one side in the old, the other in the new form
						emit(&Verdict{Draft: d, Schema: fmt.Sprintf(`{"minimum":%s,"exclusiveMinimum":true,"exclusiveMaximum":%s}`, a, b), Insts: small})
						emit(&Verdict{Draft: d, Schema: fmt.Sprintf(`{"exclusiveMinimum":%s,"maximum":%s,"exclusiveMaximum":true}`, a, b), Insts: small})
					}
				}
			}
		}
	})
	docs := pool()
	c.Section("const and single enum x pool", fmt.Sprintf("%d values squared", len(docs)), asc, func(emit func(Case)) {
		for _, d := range drafts() {
			for _, v := range append(append([]string{}, poolTexts...), numbers...) {
				ds := docs
				if model.MustParse(v).K == model.Num {
					ds = append(append([]*Inst{}, docs...), nums...)
				}
				emit(&Verdict{Draft: d, Schema: `{"enum":[` + v + `]}`, Insts: ds})
				if d != model.D4 {
					emit(&Verdict{Draft: d, Schema: `{"const":` + v + `}`, Insts: ds})
				}
			}
		}
	})
	c.Section("enum of two and three", "all pairs of the pool that are not equal; thorough: 4 drafts and triples of a 20 value pool", asc, func(emit func(Case)) {
		ds := []model.Draft{model.Hybrid}
		if c.Thorough() {
			ds = drafts()
		}
		for _, d := range ds {
			for i, a := range poolTexts {
				for j, b := range poolTexts {
					if i == j || model.Equal(docs[i].V, docs[j].V) {
						continue
					}
					emit(&Verdict{Draft: d, Schema: `{"enum":[` + a + `,` + b + `]}`, Insts: docs})
				}
			}
			if c.Thorough() {
				tuples(smallPoolTexts, 3, func(t []string) {
					x, y, z := model.MustParse(t[0]), model.MustParse(t[1]), model.MustParse(t[2])
					if model.Equal(x, y) || model.Equal(y, z) || model.Equal(x, z) {
						return
					}
					emit(&Verdict{Draft: d, Schema: `{"enum":` + arr(t...) + `}`, Insts: docs})
				})
			}
		}
	})
	c.Section("type subsets", "all 127 subsets, all orders of up to 3", asc, func(emit func(Case)) {
		names := []string{`"null"`, `"boolean"`, `"integer"`, `"number"`, `"string"`, `"array"`, `"object"`}
		all := append(append([]*Inst{}, docs...), nums...)
		for _, d := range drafts() {
			for _, n := range names {
				emit(&Verdict{Draft: d, Schema: `{"type":` + n + `}`, Insts: all})
			}
			subsetsUpTo(names, 7, func(s []string) {
				if len(s) > 0 {
					emit(&Verdict{Draft: d, Schema: `{"type":` + arr(s...) + `}`, Insts: docs})
				}
			})
			tuples(names, 3, func(s []string) {
				if s[0] != s[1] && s[1] != s[2] && s[0] != s[2] {
					emit(&Verdict{Draft: d, Schema: `{"type":` + arr(s...) + `}`, Insts: docs})
				}
			})
		}
	})
	n := c.Pick(4, 5)
	c.Section("string lengths", fmt.Sprintf("all strings of at most %d of %d code points", n, len(runes)), asc, func(emit func(Case)) {
		var ss []*Inst
		for _, s := range stringsUpTo(runes, n) {
			ss = append(ss, inst(q(s)))
		}
		for _, s := range []string{strings.Repeat("a", 255), strings.Repeat("é", 256), strings.Repeat("😀", 257), strings.Repeat("\u0301", 1000)} {
			ss = append(ss, inst(q(s)))
		}
		limits := []string{"0", "1", "2", "3", "4", "5", "255", "256", "257", "1000", "1001", "2147483647", "2147483648", "4294967296", "9223372036854775807", "2.0", "2e0"}
		for _, d := range drafts() {
			for _, l := range limits {
				for _, m := range []string{`"minLength":` + l, `"maxLength":` + l} {
					batches(ss, 400, func(b []*Inst) { emit(&Verdict{Draft: d, Schema: "{" + m + "}", Insts: b}) })
				}
			}
			for a := 0; a <= 4; a++ {
				for b := a; b <= 4; b++ {
					batches(ss, 400, func(l []*Inst) {
						emit(&Verdict{Draft: d, Schema: fmt.Sprintf(`{"minLength":%d,"maxLength":%d}`, a, b), Insts: l})
					})
				}
			}
		}
	})
	c.Section("patterns", "36 expressions x all strings of at most 3 (thorough 4) characters of 8", asc, func(emit func(Case)) {
		pats := []string{"", "a", "^a", "a$", "^a$", "a|b", "^(a|b)+$", "^a*$", "[ab]", "[^ab]", "^[^ab]*$", ".", "^.$", "^..$", "(?s)^.$", "(?i)A", "(?m)^b$", `\d`, `\\`, `\.`, "é", "^\\p{L}$", "\\x{1F600}", "^$", "\\n", "a{2}", "a{0,1}b", "(a)(b)", "\\Aa", "b\\z", "\\bab\\b", "[[:alpha:]]", "^/", "<", "\"", "a.b"}
		var ss []*Inst
		for _, s := range stringsUpTo([]string{"a", "b", "A", "é", "😀", "\n", ".", "\\"}, c.Pick(3, 4)) {
			ss = append(ss, inst(q(s)))
		}
		ss = append(ss, inst("1"), inst("null"), inst("[]"), inst("{}"), inst("true"))
		for _, d := range drafts() {
			for _, p := range pats {
				batches(ss, 400, func(b []*Inst) { emit(&Verdict{Draft: d, Schema: `{"pattern":` + q(p) + `}`, Insts: b}) })
			}
		}
	})
	similarPatternsValues(c)
	deepKeywords(c, deepValues)
	c.Section("single keyword x foreign types", "every keyword x pool", asc, func(emit func(Case)) {
		for _, d := range drafts() {
			for _, m := range valueKeywords(d) {
				emit(&Verdict{Draft: d, Schema: "{" + m + "}", Insts: docs})
			}
		}
	})
	c.Section("keyword pairs", "all pairs of the keyword instances x pool", asc, func(emit func(Case)) {
		for _, d := range drafts() {
			kw := valueKeywords(d)
			for i, a := range kw {
				for _, b := range kw[i+1:] {
					if m := join(a, b); disjoint(a, b) && legalTogether(d, m) {
						emit(&Verdict{Draft: d, Schema: "{" + m + "}", Insts: docs})
					}
				}
			}
		}
	})
	c.Section("keyword triples", "all triples x 20 documents (quick: draft-07 and draft-04)", asc, func(emit func(Case)) {
		small := insts(smallPoolTexts...)
		ds := []model.Draft{model.D4, model.D7}
		if c.Thorough() {
			ds = drafts()
		}
		for _, d := range ds {
			kw := valueKeywords(d)
			for i, a := range kw {
				for j, b := range kw[i+1:] {
					if !disjoint(a, b) {
						continue
					}
					for _, e := range kw[i+j+2:] {
						if m := join(a, b, e); disjoint(a, e) && disjoint(b, e) && legalTogether(d, m) {
							emit(&Verdict{Draft: d, Schema: "{" + m + "}", Insts: small})
						}
					}
				}
			}
		}
	})
	largeValues(c)
	placements(c, func(d model.Draft) []string { return valueKeywords(d) }, smallPoolTexts)
}

// placements puts every keyword instance at every schema position, and at every pair of positions.
func placements(c *Ctx, members func(model.Draft) []string, docTexts []string) {
	ws := wraps()
	docs := insts(docTexts...)
	c.Section("placements", fmt.Sprintf("every keyword instance at %d positions", len(ws)), asc, func(emit func(Case)) {
		for _, d := range drafts() {
			for _, w := range ws {
				wrapCases(d, nil, w, members(d), docs, false, emit)
			}
		}
	})
	c.Section("nested placements", fmt.Sprintf("every keyword instance at %d x %d positions (quick: draft-07 and draft-04, every second document)", len(ws), len(ws)), asc, func(emit func(Case)) {
		ds := []model.Draft{model.D7}
		var some []*Inst
		for i, d := range docs {
			if i%2 == 1 || c.Thorough() {
				some = append(some, d)
			}
		}
		if c.Thorough() {
			ds = drafts()
		}
		for _, d := range ds {
			for i := range ws {
				if ws[i].Name == "root" {
					continue
				}
				for _, w := range ws {
					if w.Name == "root" {
						continue
					}
					wrapCases(d, &ws[i], w, members(d), some, false, emit)
				}
			}
		}
	})
}
