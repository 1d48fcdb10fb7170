package main

import (
	"fmt"
	"strings"

	"verifmc/model"
)

func boolSchemas(d model.Draft) []string {
	if d == model.D4 {
		return []string{`{}`, `{"not":{}}`}
	}
	return []string{`true`, `false`}
}

// elemSchemas are subschemas for items, contains, properties ...
func elemSchemas(d model.Draft) []string {
	return append(boolSchemas(d), `{"type":"integer"}`, `{"enum":["a",null]}`, `{"minimum":1}`)
}

// arrayKeywords lists array-keyword instances legal in the draft.
func arrayKeywords(d model.Draft) []string {
	r := []string{
		`"items":{"type":"integer"}`, `"items":[{"type":"integer"}]`, `"items":[{},{"type":"string"}]`, `"items":[{"minimum":1},{},{"not":{}}]`, `"items":{"not":{}}`,
		`"additionalItems":false`, `"additionalItems":true`, `"additionalItems":{"type":"string"}`,
		`"minItems":0`, `"minItems":1`, `"minItems":3`, `"maxItems":0`, `"maxItems":1`, `"maxItems":2`,
		`"uniqueItems":true`, `"uniqueItems":false`,
	}
	if d != model.D4 {
		r = append(r, `"contains":{"type":"string"}`, `"contains":{"const":1}`, `"contains":false`, `"contains":true`, `"items":false`, `"items":[true,false]`)
	}
	return r
}

var arrayDocTexts = []string{"null", "1", `"a"`, "{}", `{"0":1,"length":2}`, "[]", "[1]", `["a"]`, `[1,"a"]`, `["a",1]`, "[1,1]", "[1,1.0]", `[1,"a","a"]`, `[1,2,3]`, `[1,"a",null]`, `[0,"x",true,"a"]`, `[[1],[1]]`, `["a","b","c"]`}

func c02(c *Ctx) {
	c.Assume = specAssume
	c.Rule = "every schema over the array keyword alphabet x every array up to the length bound x every draft"
	elems := []string{"1", "1.5", `"a"`, "null", "[]", "0"}
	n := c.Pick(4, 5)
	arrays := arraysUpTo(elems[:5], n)
	c.Section("items single", fmt.Sprintf("all arrays of at most %d of 5 elements", n), asc, func(emit func(Case)) {
		for _, d := range drafts() {
			for _, s := range elemSchemas(d) {
				for _, ai := range []string{"", `,"additionalItems":false`, `,"additionalItems":{"type":"null"}`} {
					batches(arrays, 400, func(b []*Inst) { emit(&Verdict{Draft: d, Schema: `{"items":` + s + ai + `}`, Insts: b}) })
				}
			}
		}
	})
	c.Section("items list x additionalItems", "lists of 1 to 3 (thorough 4) subschemas x 6 additionalItems x all arrays of at most 5 of 3 elements", asc, func(emit func(Case)) {
		arrays := arraysUpTo([]string{"1", `"a"`, "null"}, 5)
		for _, d := range drafts() {
			es := elemSchemas(d)
			ais := append([]string{"", "true", "false"}, es[2:]...)
			if d != model.D4 {
				ais = append(ais, `{"not":{}}`)
			}
			for k := 1; k <= c.Pick(3, 4); k++ {
				if k == 3 && !c.Thorough() && d == model.D6 {
					continue
				}
				tuples(es, k, func(t []string) {
					for _, ai := range ais {
						m := `"items":` + arr(t...)
						if ai != "" {
							m += `,"additionalItems":` + ai
						}
						emit(&Verdict{Draft: d, Schema: "{" + m + "}", Insts: arrays})
					}
				})
			}
		}
	})
	c.Section("minItems/maxItems", "limits 0..6 and large ones, combined, x arrays of 0..6", asc, func(emit func(Case)) {
		var ds []*Inst
		for k := 0; k <= 6; k++ {
			ds = append(ds, inst("["+strings.TrimSuffix(strings.Repeat("1,", k), ",")+"]"))
			ds = append(ds, inst("["+strings.TrimSuffix(strings.Repeat(`[{"a":null}],`, k), ",")+"]"))
		}
		ds = append(ds, insts("null", "1", `"abc"`, "{}", `{"a":1,"b":2,"c":3}`, "true")...)
		lims := []string{"0", "1", "2", "3", "4", "5", "6", "7", "2.0", "3e0", "2147483648", "4294967296", "9223372036854775807"}
		for _, d := range drafts() {
			for _, a := range lims {
				emit(&Verdict{Draft: d, Schema: `{"minItems":` + a + `}`, Insts: ds})
				emit(&Verdict{Draft: d, Schema: `{"maxItems":` + a + `}`, Insts: ds})
				for _, b := range lims {
					emit(&Verdict{Draft: d, Schema: `{"minItems":` + a + `,"maxItems":` + b + `}`, Insts: ds})
				}
			}
		}
	})
	elementTypes(c)
	deepKeywords(c, deepArrays)
	c.Section("uniqueItems pairs", "all ordered pairs of the value pool and of the number literals", asc, func(emit func(Case)) {
		for _, list := range [][]string{poolTexts, numbers} {
			for _, a := range list {
				var ds []*Inst
				for _, b := range list {
					ds = append(ds, inst(arr(a, b)))
				}
				for _, d := range drafts() {
					emit(&Verdict{Draft: d, Schema: `{"uniqueItems":true}`, Insts: ds})
				}
				emit(&Verdict{Draft: model.D7, Schema: `{"uniqueItems":false}`, Insts: ds})
			}
		}
	})
	c.Section("uniqueItems tuples", "all arrays of 3 of 20 values and of 4 of 6 values", asc, func(emit func(Case)) {
		var ds []*Inst
		tuples(smallPoolTexts, 3, func(t []string) { ds = append(ds, inst(arr(t...))) })
		tuples([]string{"1", "1.0", `"1"`, "[1]", `{"a":1}`, `{"a":1.0}`}, 4, func(t []string) { ds = append(ds, inst(arr(t...))) })
		batches(ds, 300, func(b []*Inst) {
			emit(&Verdict{Draft: model.D7, Schema: `{"uniqueItems":true}`, Insts: b})
			emit(&Verdict{Draft: model.D4, Schema: `{"uniqueItems":true}`, Insts: b})
		})
	})
	m := c.Pick(24, 70)
	c.Section("uniqueItems long arrays", fmt.Sprintf("a duplicate at every pair of indices of arrays of up to %d elements", m), asc, func(emit func(Case)) {
		for k := 2; k <= m; k++ {
			if k > 16 && k != 17 && k != 24 && k != 33 && k != 65 && k != m {
				continue
			}
			for _, mk := range []func(i int) string{
				func(i int) string { return fmt.Sprint(i) },
				func(i int) string { return fmt.Sprintf(`{"k":[%d]}`, i) },
				func(i int) string { return fmt.Sprintf(`"s%d"`, i) },
			} {
				ds := []*Inst{}
				el := make([]string, k)
				for i := range el {
					el[i] = mk(i)
				}
				ds = append(ds, inst(arr(el...)))
				for i := 0; i < k; i++ {
					for j := i + 1; j < k; j++ {
						e2 := append([]string{}, el...)
						e2[j] = e2[i]
						ds = append(ds, inst(arr(e2...)))
					}
				}
				batches(ds, 300, func(b []*Inst) { emit(&Verdict{Draft: model.D6, Schema: `{"uniqueItems":true}`, Insts: b}) })
			}
		}
	})
	c.Section("items on long arrays", "a single bad element at every index of arrays of up to 40 (thorough 130)", asc, func(emit func(Case)) {
		for _, k := range []int{1, 2, 7, 8, 9, 16, 17, c.Pick(33, 33), c.Pick(40, 130)} {
			var ds []*Inst
			for bad := -1; bad < k; bad++ {
				el := make([]string, k)
				for i := range el {
					el[i] = "1"
				}
				if bad >= 0 {
					el[bad] = `"x"`
				}
				ds = append(ds, inst(arr(el...)))
			}
			for _, d := range drafts() {
				emit(&Verdict{Draft: d, Schema: `{"items":{"type":"integer"}}`, Insts: ds})
				emit(&Verdict{Draft: d, Schema: `{"items":[{"type":"integer"},{"type":"integer"}],"additionalItems":{"type":"integer"}}`, Insts: ds})
				emit(&Verdict{Draft: d, Schema: `{"contains":{"type":"string"}}`, Insts: ds})
				emit(&Verdict{Draft: d, Schema: `{"not":{"items":{"type":"string"}}}`, Insts: ds})
			}
		}
	})
	c.Section("contains", fmt.Sprintf("5 subschemas x all arrays of at most %d of 5 elements", n), asc, func(emit func(Case)) {
		for _, d := range drafts() {
			for _, s := range append(elemSchemas(d), `{"contains":{"type":"null"}}`, `{"not":{"type":"integer"}}`) {
				batches(arrays, 400, func(b []*Inst) { emit(&Verdict{Draft: d, Schema: `{"contains":` + s + `}`, Insts: b}) })
			}
		}
	})
	docs := insts(append(append([]string{}, arrayDocTexts...), smallPoolTexts...)...)
	small := arraysUpTo([]string{"1", `"a"`, "1.0"}, 4)
	c.Section("array keyword pairs and triples", "all combinations of array keyword instances", asc, func(emit func(Case)) {
		for _, d := range drafts() {
			kw := arrayKeywords(d)
			for i, a := range kw {
				emit(&Verdict{Draft: d, Schema: "{" + a + "}", Insts: append(append([]*Inst{}, docs...), small...)})
				for j, b := range kw[i+1:] {
					if !disjoint(a, b) {
						continue
					}
					emit(&Verdict{Draft: d, Schema: "{" + join(a, b) + "}", Insts: append(append([]*Inst{}, docs...), small...)})
					for _, e := range kw[i+j+2:] {
						if disjoint(a, e) && disjoint(b, e) {
							emit(&Verdict{Draft: d, Schema: "{" + join(a, b, e) + "}", Insts: docs})
						}
					}
				}
			}
		}
	})
	c.Section("arrays of arrays", "items nested to depth 4 with every array keyword at the innermost level", asc, func(emit func(Case)) {
		for _, d := range drafts() {
			for _, a := range arrayKeywords(d) {
				s := "{" + a + "}"
				ds := arrayDocTexts
				for depth := 0; depth < 4; depth++ {
					s = `{"items":` + s + `}`
					var next []string
					for _, x := range ds {
						next = append(next, "["+x+"]")
					}
					ds = next
					emit(&Verdict{Draft: d, Schema: s, Insts: insts(ds...)})
				}
			}
		}
	})
	largeArrays(c)
	placements(c, arrayKeywords, arrayDocTexts)
}
