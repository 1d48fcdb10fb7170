package main

import (
	"fmt"

	"verifmc/model"
)

// atoms are the subschemas combinators are built from; they overlap and exclude each other.
func atoms(d model.Draft) []string {
	return append(boolSchemas(d), `{"type":"integer"}`, `{"minimum":5}`, `{"required":["a"]}`)
}

func moreAtoms(d model.Draft) []string {
	return append(atoms(d), `{"type":["string","null"]}`, `{"maxLength":1}`, `{"items":{"type":"integer"}}`, `{"properties":{"a":{"type":"integer"}}}`, `{"enum":[1,"ab",null]}`)
}

var combDocTexts = []string{"null", "true", "false", "0", `""`, "1", "5", "7.5", "9", `"a"`, `"ab"`, "[]", "[1]", `["x"]`, "{}", `{"a":1}`, `{"a":"x"}`, `{"b":2}`}

// combinators over a list of subschemas: one level.
func oneLevel(subs []string, d model.Draft, maxList int, f func(string)) {
	for _, s := range subs {
		f(`{"not":` + s + `}`)
	}
	for _, op := range []string{"allOf", "anyOf", "oneOf"} {
		for k := 1; k <= maxList; k++ {
			tuples(subs, k, func(t []string) { f(`{"` + op + `":` + arr(t...) + `}`) })
		}
	}
}

func conditionals(subs []string, f func(string)) {
	opt := append([]string{""}, subs...)
	for _, i := range opt {
		for _, t := range opt {
			for _, e := range opt {
				var p []string
				if i != "" {
					p = append(p, `"if":`+i)
				}
				if t != "" {
					p = append(p, `"then":`+t)
				}
				if e != "" {
					p = append(p, `"else":`+e)
				}
				f("{" + join(p...) + "}")
			}
		}
	}
}

func c04(c *Ctx) {
	c.Assume = specAssume
	c.Rule = "every combinator term of the grammar up to the nesting bound x documents of every type x every draft"
	docs := insts(combDocTexts...)
	c.Section("one combinator", "lists of 1..3 (thorough 4) of 5 subschemas, not, all if/then/else", asc, func(emit func(Case)) {
		for _, d := range drafts() {
			oneLevel(atoms(d), d, c.Pick(3, 4), func(s string) { emit(&Verdict{Draft: d, Schema: s, Insts: docs}) })
			oneLevel(moreAtoms(d), d, 2, func(s string) { emit(&Verdict{Draft: d, Schema: s, Insts: docs}) })
			conditionals(moreAtoms(d), func(s string) { emit(&Verdict{Draft: d, Schema: s, Insts: docs}) })
		}
	})
	c.Section("long lists", "one deviating branch at every position of lists of up to 12", asc, func(emit func(Case)) {
		for _, d := range drafts() {
			b := boolSchemas(d)
			for n := 1; n <= 12; n++ {
				for _, op := range []string{"allOf", "anyOf", "oneOf"} {
					for i := -1; i < n; i++ {
						for j := -1; j <= i; j++ {
							for flip := 0; flip < 2; flip++ {
								l := make([]string, n)
								for k := range l {
									l[k] = b[flip]
									if k == i || k == j {
										l[k] = b[1-flip]
									}
								}
								emit(&Verdict{Draft: d, Schema: `{"` + op + `":` + arr(l...) + `}`, Insts: docs[:3]})
							}
						}
					}
				}
			}
		}
	})
	c.Section("siblings", "every pair of combinators, and each combinator with each assertion", asc, func(emit func(Case)) {
		for _, d := range drafts() {
			var one []string
			a := atoms(d)
			for _, s := range a {
				one = append(one, `"not":`+s, `"allOf":[`+s+`]`)
				for _, t := range a {
					one = append(one, `"anyOf":[`+s+`,`+t+`]`, `"oneOf":[`+s+`,`+t+`]`)
				}
			}
			if d >= model.D7 {
				for _, s := range a {
					one = append(one, `"if":`+s+`,"then":{"type":"integer"}`, `"if":`+s+`,"else":{"minimum":5}`, `"if":`+s+`,"then":`+a[1], `"if":`+s+`,"else":`+a[1])
				}
			}
			sib := append(append([]string{}, valueKeywords(d)...), objectKeywords(d)...)
			for i, x := range one {
				for _, y := range one[i+1:] {
					if disjoint(x, y) {
						emit(&Verdict{Draft: d, Schema: "{" + join(x, y) + "}", Insts: docs})
					}
				}
				if i%c.Pick(3, 1) == 0 {
					for _, y := range sib {
						emit(&Verdict{Draft: d, Schema: "{" + join(x, y) + "}", Insts: docs})
					}
				}
			}
		}
	})
	c.Section("two levels", "combinator lists of at most 2 over all one-level terms with lists of at most 2 (3 subschemas)", asc, func(emit func(Case)) {
		ds := []model.Draft{model.D4, model.D7}
		if c.Thorough() {
			ds = drafts()
		}
		for _, d := range ds {
			base := []string{boolSchemas(d)[1], `{"type":"integer"}`, `{"minimum":5}`}
			var l1 []string
			oneLevel(base, d, 2, func(s string) { l1 = append(l1, s) })
			if d >= model.D7 {
				conditionals([]string{`{"type":"integer"}`, `{"minimum":5}`}, func(s string) {
					if s != "{}" {
						l1 = append(l1, s)
					}
				})
			}
			l1 = append(l1, base...)
			oneLevel(l1, d, 2, func(s string) { emit(&Verdict{Draft: d, Schema: s, Insts: docs[:12]}) })
			if d >= model.D7 {
				cond := l1
				if !c.Thorough() {
					cond = l1[:len(l1):len(l1)]
				}
				for _, i := range cond {
					for _, t := range []string{`{"type":"integer"}`, `{"minimum":5}`, boolSchemas(d)[1]} {
						emit(&Verdict{Draft: d, Schema: `{"if":` + i + `,"then":` + t + `}`, Insts: docs[:12]})
						emit(&Verdict{Draft: d, Schema: `{"if":` + i + `,"else":` + t + `}`, Insts: docs[:12]})
						emit(&Verdict{Draft: d, Schema: `{"if":` + t + `,"then":` + i + `}`, Insts: docs[:12]})
						emit(&Verdict{Draft: d, Schema: `{"if":` + t + `,"else":` + i + `}`, Insts: docs[:12]})
					}
				}
			}
		}
	})
	if c.Thorough() {
		c.Section("three levels", "unary and binary combinators over all two-level terms of 2 subschemas", asc, func(emit func(Case)) {
			for _, d := range []model.Draft{model.D4, model.D7} {
				base := []string{`{"type":"integer"}`, `{"minimum":5}`}
				var l1, l2 []string
				oneLevel(base, d, 2, func(s string) { l1 = append(l1, s) })
				oneLevel(append(l1, base...), d, 2, func(s string) { l2 = append(l2, s) })
				oneLevel(l2, d, 1, func(s string) { emit(&Verdict{Draft: d, Schema: s, Insts: docs[:10]}) })
				for _, a := range l2 {
					for _, b := range base {
						for _, op := range []string{"allOf", "anyOf", "oneOf"} {
							emit(&Verdict{Draft: d, Schema: `{"` + op + `":[` + a + `,` + b + `]}`, Insts: docs[:10]})
							emit(&Verdict{Draft: d, Schema: `{"` + op + `":[` + b + `,` + a + `]}`, Insts: docs[:10]})
						}
					}
				}
			}
		})
	}
	c.Section("deep nesting", "chains of each combinator to depth 12, not-chains to depth 40", asc, func(emit func(Case)) {
		for _, d := range drafts() {
			for _, base := range moreAtoms(d) {
				for _, t := range []string{`{"allOf":[%s]}`, `{"anyOf":[%s]}`, `{"oneOf":[%s]}`, `{"not":%s}`, `{"if":%s,"else":{"not":{}}}`, `{"if":{},"then":%s}`, `{"anyOf":[{"not":{}},%s]}`, `{"oneOf":[%s,{"not":{}}]}`} {
					s := base
					n := 12
					if t == `{"not":%s}` {
						n = 40
					}
					for k := 0; k < n; k++ {
						s = fmt.Sprintf(t, s)
						emit(&Verdict{Draft: d, Schema: s, Insts: docs})
					}
				}
			}
		}
	})
	members := func(d model.Draft) []string {
		var r []string
		a := atoms(d)
		for _, s := range a[1:] {
			r = append(r, `{"not":`+s+`}`, `{"allOf":[{"type":"integer"},`+s+`]}`, `{"anyOf":[{"type":"integer"},`+s+`]}`, `{"oneOf":[{"type":"integer"},`+s+`]}`)
			if d >= model.D7 {
				r = append(r, `{"if":`+s+`,"then":{"type":"integer"},"else":{"type":"string"}}`)
			}
		}
		return append(r, boolSchemas(d)...)
	}
	c.Section("branches in other documents", "every combinator over one, two and three references to alike parts of 3 documents, to their roots and to inline schemas", asc, func(emit func(Case)) {
		reg := map[string]string{
			"http://d.test/a": `{"type":"string","definitions":{"d":{"type":"integer"},"e":{"$ref":"b#/definitions/d"}}}`,
			"http://d.test/b": `{"minimum":3,"definitions":{"d":{"enum":[1,2,"x"]},"e":{"$ref":"#/definitions/d"}}}`,
			"http://e.test/a": `{"type":["object","integer"],"definitions":{"d":{"type":"string"},"e":{"$ref":"#/definitions/d"}}}`,
		}
		br := []string{`{"$ref":"#/definitions/d"}`, `{"$ref":"#/definitions/e"}`, `{"$ref":"http://d.test/a#/definitions/e"}`, `{"type":"number"}`}
		for _, u := range sortedKeys(reg) {
			br = append(br, `{"$ref":"`+u+`#/definitions/d"}`, `{"$ref":"`+u+`"}`)
		}
		ds := insts(`1`, `2`, `4`, `2.5`, `"x"`, `"y"`, `{}`, `[]`, `null`)
		for _, d := range []model.Draft{model.D4, model.D7, model.Hybrid} {
			put := func(s string) {
				emit(&Verdict{Draft: d, Docs: reg, Schema: `{"definitions":{"d":{"type":"null"},"e":{"$ref":"http://d.test/b#/definitions/d"}},"allOf":[` + s + `]}`, Insts: ds})
			}
			oneLevel(br, d, 3, put)
			if d >= model.D7 {
				for _, a := range br {
					for _, b := range br {
						put(`{"if":` + a + `,"then":` + b + `,"else":` + a + `}`)
						put(`{"if":` + a + `,"then":` + a + `,"else":` + b + `}`)
					}
				}
			}
		}
	})
	largeCombinators(c)
	deepKeywords(c, deepCombinators)
	placements(c, members, combDocTexts)
}
