package main

import (
	"fmt"
	"strings"

	"verifmc/model"
)

// member names that matter: empty, non-ASCII, dotted, keywords, pointer syntax, digits.
var names = []string{"", "a", "b", "ab", "é", "$ref", "a.b", "A", "properties", "0", "a/b", "~0", "(root)", "type", "\x00", "const", "$id", "root", "tor.", "{{.a}}", "%s", `"<&`}

func objectKeywords(d model.Draft) []string {
	r := []string{
		`"properties":{"a":{"type":"integer"}}`, `"properties":{"a":{},"b":{"type":"string"}}`, `"properties":{"a":{"not":{}}}`, `"properties":{}`,
		`"patternProperties":{"a":{"type":"integer"}}`, `"patternProperties":{"^b":{"not":{}}}`, `"patternProperties":{"a":{},"b$":{"minimum":2}}`,
		`"additionalProperties":false`, `"additionalProperties":true`, `"additionalProperties":{"type":"integer"}`, `"additionalProperties":{}`,
		`"required":["a"]`, `"required":["a","b"]`, `"required":[""]`,
		`"dependencies":{"a":["b"]}`, `"dependencies":{"a":{"required":["b"]}}`, `"dependencies":{"a":["b","c"],"b":["a"]}`, `"dependencies":{"a":{"properties":{"b":{"type":"integer"}}}}`,
		`"minProperties":1`, `"minProperties":2`, `"maxProperties":0`, `"maxProperties":1`, `"maxProperties":2`,
	}
	if d != model.D4 {
		r = append(r, `"propertyNames":{"maxLength":1}`, `"propertyNames":{"pattern":"a"}`, `"propertyNames":false`, `"propertyNames":true`,
			`"properties":{"a":false,"b":true}`, `"patternProperties":{"":false}`, `"dependencies":{"a":false}`, `"dependencies":{"a":true,"b":[]}`)
	}
	return r
}

// objects lists all objects with at most n members over the given names and values.
func objects(names, values []string, n int) []*Inst {
	var r []*Inst
	subsetsUpTo(names, n, func(ks []string) {
		tuples(values, len(ks), func(vs []string) {
			var p []string
			for i, k := range ks {
				p = append(p, q(k)+":"+vs[i])
			}
			r = append(r, inst("{"+join(p...)+"}"))
		})
	})
	return r
}

var objectDocTexts = []string{"null", "1", `"a"`, "[]", `["a","b"]`, "{}", `{"a":1}`, `{"a":"x"}`, `{"b":1}`, `{"b":"s"}`, `{"a":1,"b":"s"}`, `{"a":1,"b":2}`, `{"a":1,"b":"s","c":3}`, `{"ab":1}`, `{"ab":"x","b":3}`, `{"":0}`, `{"c":1.5}`, `{"a":null,"b":null,"c":null}`, `{"A":1,"aa":2}`}

func c03(c *Ctx) {
	c.Assume = append(append([]string{}, specAssume...), "map iteration inside the library is driven in ascending and in descending key order (C12 permutes it completely)")
	c.Rule = "every schema over the object keyword alphabet x every object up to the size bound x every draft x two map iteration orders"
	subs := []string{`{}`, `{"not":{}}`, `{"type":"integer"}`}
	values := []string{"1", `"x"`, "null"}
	objs := objects([]string{"a", "b", "ab", ""}, []string{"1", `"x"`}, 4)
	others := insts("null", "1", `"a"`, `["a","ab"]`, "true", "[]")
	all := append(append([]*Inst{}, objs...), others...)

	c.Section("properties x patternProperties x additionalProperties", "properties over 2 names, patterns over 3, 4 kinds of additionalProperties, all objects of at most 4 members", both, func(emit func(Case)) {
		props := []string{"", `"properties":{}`}
		for _, s := range subs {
			props = append(props, `"properties":{"a":`+s+`}`)
			for _, t := range subs[1:] {
				props = append(props, `"properties":{"a":`+s+`,"ab":`+t+`}`)
			}
		}
		props = append(props, `"properties":{"":{"type":"integer"}}`, `"properties":{"a":{},"b":{},"ab":{},"":{}}`)
		pats := []string{"", `"patternProperties":{}`, `"patternProperties":{"":{}}`, `"patternProperties":{"":{"type":"integer"}}`}
		for _, p := range []string{"a", "^b", "b$", "^$"} {
			for _, s := range subs {
				pats = append(pats, `"patternProperties":{`+q(p)+`:`+s+`}`)
			}
		}
		pats = append(pats, `"patternProperties":{"a":{},"b":{"type":"integer"}}`, `"patternProperties":{"a":{"type":"integer"},"b":{}}`, `"patternProperties":{"^a":{"type":"integer"},"b$":{"type":"string"},"^$":{"not":{}}}`,
			`"patternProperties":{"a":{"type":"null"},"b":{"type":"boolean"}}`, `"patternProperties":{"a":{"maximum":0,"maxLength":0},"b":{"type":"null"},"":{"enum":[2]}}`, `"patternProperties":{"a":{"type":"null"},"b$":{"type":"string"},"^a":{"type":"integer"}}`)
		for _, d := range drafts() {
			ads := []string{"", `"additionalProperties":true`, `"additionalProperties":false`, `"additionalProperties":{"type":"string"}`, `"additionalProperties":{"not":{}}`, `"additionalProperties":{}`}
			for _, p := range props {
				for _, pp := range pats {
					for _, ap := range ads {
						emit(&Verdict{Draft: d, Schema: "{" + joinNonEmpty(p, pp, ap) + "}", Insts: all})
					}
				}
			}
		}
	})
	c.Section("arbitrary member names", fmt.Sprintf("%d names squared, in every object keyword", len(names)), both, func(emit func(Case)) {
		for _, d := range drafts() {
			for _, k := range names {
				var ds []*Inst
				for _, k2 := range names {
					ds = append(ds, inst("{"+q(k2)+":1}"), inst("{"+q(k2)+`:"x"}`))
					if k2 != k {
						ds = append(ds, inst("{"+q(k2)+`:1,`+q(k)+`:"x"}`))
					}
				}
				ds = append(ds, inst("{}"))
				K := q(k)
				for _, s := range []string{
					`{"properties":{` + K + `:{"type":"integer"}}}`,
					`{"properties":{` + K + `:{"type":"integer"}},"additionalProperties":false}`,
					`{"properties":{` + K + `:{}},"additionalProperties":{"type":"string"}}`,
					`{"required":[` + K + `]}`,
					`{"required":["a b",` + K + `]}`,
					`{"dependencies":{` + K + `:["zz"]}}`,
					`{"dependencies":{"a":[` + K + `]}}`,
					`{"dependencies":{` + K + `:{"properties":{` + K + `:{"type":"integer"}}}}}`,
					`{"dependencies":{` + K + `:{"minProperties":2}}}`,
					`{"patternProperties":{` + q("^"+rxQuote(k)+"$") + `:{"type":"integer"}},"additionalProperties":false}`,
					`{"propertyNames":{"enum":[` + K + `]}}`,
					`{"propertyNames":{"not":{"enum":[` + K + `]}}}`,
					`{"properties":{` + K + `:{"properties":{` + K + `:{"type":"integer"}},"required":[` + K + `]}}}`,
				} {
					emit(&Verdict{Draft: d, Schema: s, Insts: ds})
				}
				var nested []*Inst
				for _, k2 := range names {
					nested = append(nested, inst("{"+K+":{"+q(k2)+":1}}"), inst("{"+K+":{"+q(k2)+`:"x"}}`))
				}
				emit(&Verdict{Draft: d, Schema: `{"properties":{` + K + `:{"properties":{` + K + `:{"type":"integer"}},"required":[` + K + `]}}}`, Insts: nested})
				emit(&Verdict{Draft: d, Schema: `{"additionalProperties":{"additionalProperties":{"type":"integer"},"properties":{` + K + `:{}}}}`, Insts: nested})
			}
		}
	})
	similarPatternsObjects(c)
	deepKeywords(c, deepObjects)
	c.Section("required", "all lists of at most 3 of 5 names x all objects over them", both, func(emit func(Case)) {
		ks := []string{"a", "b", "c", "", "é"}
		ds := append(objects(ks, []string{"null"}, 5), others...)
		for _, d := range drafts() {
			for k := 1; k <= 3; k++ {
				tuples(ks, k, func(t []string) {
					for i := range t {
						for j := 0; j < i; j++ {
							if t[i] == t[j] {
								return
							}
						}
					}
					var l []string
					for _, x := range t {
						l = append(l, q(x))
					}
					emit(&Verdict{Draft: d, Schema: `{"required":` + arr(l...) + `}`, Insts: ds})
				})
			}
			if d != model.D4 {
				emit(&Verdict{Draft: d, Schema: `{"required":[]}`, Insts: ds})
			}
		}
	})
	c.Section("dependencies", "all property dependencies over 3 names, schema dependencies, mixed", both, func(emit func(Case)) {
		ks := []string{"a", "b", "c"}
		ds := append(objects(ks, values, 3), others...)
		var lists []string
		subsetsUpTo([]string{`"a"`, `"b"`, `"c"`}, 3, func(s []string) {
			if len(s) > 0 {
				lists = append(lists, arr(s...))
			}
		})
		schemas := []string{`{}`, `{"not":{}}`, `{"required":["b"]}`, `{"properties":{"a":{"type":"integer"}}}`, `{"minProperties":2}`, `{"dependencies":{"b":["c"]}}`, `{"type":"object"}`, `{"type":"array"}`}
		for _, d := range drafts() {
			vals := append(append([]string{}, lists...), schemas...)
			if d != model.D4 {
				vals = append(vals, "true", "false", "[]")
			}
			for _, v := range vals {
				emit(&Verdict{Draft: d, Schema: `{"dependencies":{"a":` + v + `}}`, Insts: ds})
				for _, u := range vals {
					emit(&Verdict{Draft: d, Schema: `{"dependencies":{"a":` + v + `,"b":` + u + `}}`, Insts: ds})
				}
			}
		}
	})
	c.Section("minProperties/maxProperties", "limits 0..5 and large ones x objects of 0..5 members", both, func(emit func(Case)) {
		var ds []*Inst
		for k := 0; k <= 5; k++ {
			var p []string
			for i := 0; i < k; i++ {
				p = append(p, fmt.Sprintf(`"k%d":null`, i))
			}
			ds = append(ds, inst("{"+join(p...)+"}"))
		}
		ds = append(ds, insts(`[1,2,3]`, `"abcd"`, "5", "null", "true")...)
		lims := []string{"0", "1", "2", "3", "4", "5", "6", "2.0", "1e0", "4294967296", "9223372036854775807"}
		for _, d := range drafts() {
			for i, a := range lims {
				emit(&Verdict{Draft: d, Schema: `{"minProperties":` + a + `}`, Insts: ds})
				emit(&Verdict{Draft: d, Schema: `{"maxProperties":` + a + `}`, Insts: ds})
				for j, b := range lims {
					if i <= j && legalTogether(d, `"minProperties":`+a+`,"maxProperties":`+b) {
						emit(&Verdict{Draft: d, Schema: `{"minProperties":` + a + `,"maxProperties":` + b + `}`, Insts: ds})
					}
				}
			}
		}
	})
	c.Section("propertyNames", "subschemas over strings x objects over 5 names", both, func(emit func(Case)) {
		ds := append(objects([]string{"a", "b", "ab", "", "é"}, []string{"1", `"b"`}, 3), others...)
		ss := []string{`{}`, `{"not":{}}`, `{"maxLength":1}`, `{"minLength":1}`, `{"pattern":"^a"}`, `{"enum":["a","é"]}`, `{"type":"string"}`, `{"type":"integer"}`, `{"const":"a"}`, `{"minimum":3}`, `{"anyOf":[{"const":"a"},{"maxLength":0}]}`, `{"format":"ipv4"}`, `true`, `false`, `{"properties":{"a":false}}`}
		for _, d := range drafts() {
			for _, s := range ss {
				if d == model.D4 && (s == "true" || s == "false") {
					continue
				}
				if strings.Contains(s, "format") {
					continue
				}
				emit(&Verdict{Draft: d, Schema: `{"propertyNames":` + s + `}`, Insts: ds})
				emit(&Verdict{Draft: d, Schema: `{"propertyNames":` + s + `,"properties":{"a":{}},"additionalProperties":{"type":"integer"}}`, Insts: ds})
			}
		}
	})
	c.Section("large objects", "one bad member at every position of objects of up to 40 members", both, func(emit func(Case)) {
		for _, k := range []int{1, 2, 8, 9, 16, 40} {
			var ds []*Inst
			for bad := -1; bad < k; bad++ {
				var p []string
				for i := 0; i < k; i++ {
					v := "1"
					if i == bad {
						v = `"x"`
					}
					p = append(p, fmt.Sprintf(`"k%02d":%s`, i, v))
				}
				ds = append(ds, inst("{"+join(p...)+"}"))
			}
			var props []string
			for i := 0; i < k; i++ {
				props = append(props, fmt.Sprintf(`"k%02d":{"type":"integer"}`, i))
			}
			for _, d := range drafts() {
				emit(&Verdict{Draft: d, Schema: `{"additionalProperties":{"type":"integer"}}`, Insts: ds})
				emit(&Verdict{Draft: d, Schema: `{"patternProperties":{"^k":{"type":"integer"}}}`, Insts: ds})
				emit(&Verdict{Draft: d, Schema: `{"properties":{` + join(props...) + `},"additionalProperties":false}`, Insts: ds})
			}
		}
	})
	docs := insts(append(append([]string{}, objectDocTexts...), smallPoolTexts...)...)
	c.Section("object keyword pairs and triples", "all combinations of object keyword instances", both, func(emit func(Case)) {
		for _, d := range drafts() {
			kw := objectKeywords(d)
			for i, a := range kw {
				emit(&Verdict{Draft: d, Schema: "{" + a + "}", Insts: docs})
				for j, b := range kw[i+1:] {
					if !disjoint(a, b) || !legalTogether(d, join(a, b)) {
						continue
					}
					emit(&Verdict{Draft: d, Schema: "{" + join(a, b) + "}", Insts: docs})
					if d != model.D7 && d != model.D4 && !c.Thorough() {
						continue
					}
					for _, e := range kw[i+j+2:] {
						if m := join(a, b, e); disjoint(a, e) && disjoint(b, e) && legalTogether(d, m) {
							emit(&Verdict{Draft: d, Schema: "{" + m + "}", Insts: docs})
						}
					}
				}
			}
		}
	})
	largeObjects(c)
	placements(c, objectKeywords, objectDocTexts)
}

func joinNonEmpty(l ...string) string {
	var r []string
	for _, x := range l {
		if x != "" {
			r = append(r, x)
		}
	}
	return join(r...)
}

func rxQuote(s string) string {
	var b strings.Builder
	for _, r := range s {
		if strings.ContainsRune(`\.+*?()|[]{}^$`, r) {
			b.WriteByte('\\')
		}
		b.WriteRune(r)
	}
	return b.String()
}
