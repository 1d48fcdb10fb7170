package main

import (
	"fmt"
	"strings"

	"verifmc/model"
)

// allKeywords are the keywords of all drafts, annotations and unknown ones.
var allKeywords = []string{
	"type", "enum", "const", "multipleOf", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "minLength", "maxLength", "pattern", "format",
	"items", "additionalItems", "minItems", "maxItems", "uniqueItems", "contains", "properties", "patternProperties", "additionalProperties", "required", "dependencies", "propertyNames", "minProperties", "maxProperties",
	"allOf", "anyOf", "oneOf", "not", "if", "then", "else", "definitions", "title", "description", "default", "id", "$id", "$schema", "$comment", "examples", "readOnly", "contentMediaType", "x-unknown", "Type", "$defs", "unevaluatedItems",
}

// keywordValues are values of every JSON type, in and out of the legal range of some keyword.
var keywordValues = []string{
	"null", "true", "false", "0", "-0", "-0.0", "1", "-1", "2", "1.0", "2.0", "20e-1", "1e1", "1.5", "-1.5", "0.5", "1e-1", "1e400", "-1e400", "1e-400", "9223372036854775807", "9223372036854775808", "-9223372036854775809",
	`"a"`, `"string"`, `"integer"`, `"any"`, `"String"`, `"("`, `"["`, `"*"`, `"^a$"`, `"[a-z]+"`, `"a{2,1}"`, `"\\"`, `"5"`, `"true"`,
	"[]", "[1]", `["a"]`, `["a","a"]`, `["a","b"]`, `["a","b","a"]`, `["string"]`, `["string","integer"]`, `["string","string"]`, `["string","any"]`, `["string",5]`, `["string",null]`, `["null","boolean","integer","number","string","array","object"]`, `["a",1]`, `[1,"a"]`, "[null]", "[true]", "[false,true]", "[1,1.0]", "[1,10e-1,2]", "[0,-0]", `[{"a":1},{"a":1.0}]`, `[1,true,"1"]`, "[[]]", "[[],[]]", `[[1,2],[2,1]]`, "[{}]", "[{},{}]", `[{},{"type":"string"}]`, `[{},1]`, `[{},null]`, `[{},[]]`, `[{},"a"]`, `[{"type":"any"}]`, `[{},{"minLength":-1}]`,
	"{}", `{"a":{}}`, `{"a":true}`, `{"a":1}`, `{"a":null}`, `{"a":"x"}`, `{"a":[]}`, `{"a":["b"]}`, `{"a":["b","b"]}`, `{"a":["b",1]}`, `{"a":[1]}`, `{"a":{},"b":1}`, `{"a":1,"b":{}}`, `{"":{}}`, `{"(":{}}`, `{"a":{},"[":{}}`, `{"^a":{"type":"any"}}`, `{"type":"any"}`, `{"type":"string"}`, `{"minimum":"5"}`, `{"a":{"required":"a"}}`, `{"properties":{"a":{"type":5}}}`, `{"items":[{"pattern":"("}]}`,
}

var (
	pairKeywords = []string{"type", "enum", "const", "multipleOf", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "minLength", "maxLength", "pattern", "format", "items", "additionalItems", "minItems", "maxItems", "uniqueItems", "contains", "properties", "patternProperties", "additionalProperties", "required", "dependencies", "propertyNames", "minProperties", "maxProperties", "allOf", "anyOf", "oneOf", "not", "if", "then", "else", "definitions", "title", "default"}
	pairValues   = []string{"true", "false", "5", "-1", "1.5", `"string"`, `"("`, `["a"]`, `["string","string"]`, "[{}]", "[5]", "{}", `{"a":{}}`, `{"a":5}`, `{"(":["b"]}`, "null"}
)

// badMembers are malformed in every draft; goodMembers are fine in every draft.
var badMembers = []string{
	`"type":5`, `"type":"any"`, `"type":["string","string"]`, `"type":["string",5]`, `"enum":{}`, `"enum":[1,1.0]`, `"multipleOf":0`, `"multipleOf":-1`, `"multipleOf":"1"`, `"minimum":"5"`, `"maximum":null`, `"exclusiveMinimum":"5"`, `"exclusiveMaximum":[]`,
	`"minLength":-1`, `"minLength":1.5`, `"maxLength":"1"`, `"maxLength":-1`, `"minLength":2,"maxLength":1`, `"pattern":"("`, `"pattern":5`, `"format":5`, `"items":5`, `"items":[{},5]`, `"additionalItems":5`, `"minItems":-1`, `"minItems":null`, `"maxItems":0.5`, `"maxItems":true`, `"uniqueItems":"true"`, `"uniqueItems":1`,
	`"properties":[]`, `"properties":{"a":5}`, `"properties":{"a":{},"b":[]}`, `"patternProperties":{"(":{}}`, `"patternProperties":{"a":5}`, `"patternProperties":[]`, `"additionalProperties":5`, `"additionalProperties":"x"`, `"required":"a"`, `"required":["a","a"]`, `"required":["a",5]`, `"required":{}`, `"dependencies":[]`, `"dependencies":{"a":5}`, `"dependencies":{"a":"b"}`, `"dependencies":{"a":[5]}`, `"dependencies":{"a":{},"b":5}`,
	`"minProperties":-1`, `"minProperties":"1"`, `"maxProperties":1.5`, `"maxProperties":-2`, `"minProperties":3,"maxProperties":2`, `"allOf":{}`, `"allOf":[5]`, `"allOf":[{},[]]`, `"anyOf":5`, `"anyOf":["a"]`, `"oneOf":true`, `"oneOf":[null]`, `"not":5`, `"not":[]`, `"definitions":[]`, `"definitions":{"a":5}`, `"title":5`, `"description":[]`,
}

var goodMembers = []string{
	`"type":"string"`, `"type":["string","integer"]`, `"enum":[1,"1",true,null]`, `"multipleOf":0.01`, `"minimum":-5`, `"maximum":1e400`, `"minimum":5,"exclusiveMinimum":%E`, `"minLength":2.0`, `"maxLength":1e1`, `"minLength":3,"maxLength":3`, `"pattern":"^\\p{L}+$"`, `"format":"no-such-format"`, `"items":{}`, `"items":[{},{}]`, `"additionalItems":false`, `"minItems":0`, `"maxItems":3`, `"minItems":4`, `"uniqueItems":false`,
	`"properties":{"type":{},"required":{}}`, `"properties":{}`, `"patternProperties":{"^x-":{}}`, `"additionalProperties":{"type":"null"}`, `"required":["a","b"]`, `"dependencies":{"a":["b"],"c":{}}`, `"minProperties":0`, `"maxProperties":2.0`, `"allOf":[{}]`, `"anyOf":[{},{}]`, `"oneOf":[{}]`, `"not":{}`, `"definitions":{"a":{},"items":{}}`, `"title":"5"`, `"description":""`, `"default":{"type":5}`, `"x-unknown":{"type":5}`, `"$defs":{"a":{"type":5}}`, `"discriminator":{"mapping":[]}`, `"minimumm":"x"`, `"nullable":true`,
}

func good(d model.Draft) []string {
	e := "5"
	if d == model.D4 {
		e = "true"
	}
	var r []string
	for _, g := range goodMembers {
		r = append(r, strings.ReplaceAll(g, "%E", e))
	}
	return r
}

var wfDocs = insts("null", "1", `"ab"`, "[1]", `{"a":1}`)

func c08(c *Ctx) {
	c.Assume = append(specAssume, "regular expressions are RE2, as documented", "left open (neither answer is an alarm): empty type, enum, items, allOf, anyOf, oneOf lists, empty required and dependency lists in draft-04, duplicate dependency names, malformed annotations that are not looked at, counts above the int64 range, malformed siblings of $ref")
	c.Rule = "every keyword x every value of the alphabet x every subschema position x every draft x both member orders, and all pairs of members; the model answers accept, reject or left open"
	c.Section("keyword x value", fmt.Sprintf("%d keywords x %d values", len(allKeywords), len(keywordValues)), both, func(emit func(Case)) {
		for _, d := range drafts() {
			for _, k := range allKeywords {
				for _, v := range keywordValues {
					emit(&Verdict{Draft: d, Schema: `{` + q(k) + `:` + v + `}`, Insts: wfDocs, WF: true})
					if d != model.Hybrid && k != "$schema" {
						emit(&Verdict{Draft: model.Hybrid, Schema: `{` + declare(d) + q(k) + `:` + v + `}`, Insts: wfDocs, WF: true})
					}
				}
			}
			for _, v := range keywordValues {
				emit(&Verdict{Draft: d, Schema: v, Insts: wfDocs, WF: true})
				if !strings.HasPrefix(v, `"`) {
					emit(&Verdict{Draft: d, Schema: `{"$ref":` + v + `}`, WF: true})
				}
			}
		}
	})
	c.Section("keyword x value x position", "33 positions", asc, func(emit func(Case)) {
		for _, w := range wraps() {
			docs := wrapDocs(w, wfDocs)
			for _, d := range drafts() {
				if d == model.Hybrid && !c.Thorough() {
					continue
				}
				for _, k := range allKeywords {
					if k == "$schema" || k == "id" || k == "$id" {
						continue
					}
					for _, v := range keywordValues {
						emit(&Verdict{Draft: d, Schema: w.Schema(`{` + q(k) + `:` + v + `}`), Insts: docs, WF: true})
					}
				}
				for _, v := range keywordValues {
					emit(&Verdict{Draft: d, Schema: w.Schema(v), Insts: docs, WF: true})
				}
			}
		}
	})
	c.Section("members x two positions", "33 x 33 positions x malformed and well-formed members", asc, func(emit func(Case)) {
		for _, o := range wraps() {
			for _, w := range wraps() {
				if strings.HasPrefix(w.Name, "ref") {
					continue
				}
				for _, d := range drafts() {
					if d != model.D7 && d != model.D4 && !c.Thorough() {
						continue
					}
					var l []string
					for i, m := range badMembers {
						if i%3 == 0 || c.Thorough() {
							l = append(l, m)
						}
					}
					l = append(l, good(d)...)
					for _, m := range l {
						emit(&Verdict{Draft: d, Schema: o.Schema(w.Schema(`{` + m + `}`)), WF: true})
					}
				}
			}
		}
	})
	c.Section("pairs of members", "all pairs of well-formed members, of a malformed and a well-formed one, in one schema", both, func(emit func(Case)) {
		for _, d := range drafts() {
			g := good(d)
			for _, a := range g {
				for _, b := range append(append([]string{}, g...), badMembers...) {
					if disjoint(a, b) {
						emit(&Verdict{Draft: d, Schema: `{` + a + `,` + b + `}`, WF: true})
					}
				}
			}
		}
	})
	c.Section("pairs of keywords x values", fmt.Sprintf("all pairs of keywords x %d values each", len(pairValues)), asc, func(emit func(Case)) {
		for _, d := range drafts() {
			if d == model.D6 && !c.Thorough() {
				continue
			}
			for i, k := range pairKeywords {
				for _, l := range pairKeywords[i+1:] {
					for _, v := range pairValues {
						for _, w := range pairValues {
							emit(&Verdict{Draft: d, Schema: `{` + q(k) + `:` + v + `,` + q(l) + `:` + w + `}`, WF: true})
						}
					}
				}
			}
		}
	})
	if c.Thorough() {
		c.Section("triples of members", "two well-formed members and a malformed or well-formed one", asc, func(emit func(Case)) {
			for _, d := range drafts() {
				g := good(d)
				for i, a := range g {
					for _, b := range g[:i] {
						if !disjoint(a, b) {
							continue
						}
						for _, x := range append(append([]string{}, g...), badMembers...) {
							if disjoint(a, x) && disjoint(b, x) {
								emit(&Verdict{Draft: d, Schema: `{` + a + `,` + b + `,` + x + `}`, WF: true})
							}
						}
					}
				}
			}
		})
	}
	c.Section("limits against each other", "min x max of lengths, properties and items over 8 values", asc, func(emit func(Case)) {
		vals := []string{"0", "1", "2", "2.0", "3", "20e-1", "9223372036854775807", "1e18", "-1", "1.5"}
		for _, d := range drafts() {
			for _, k := range []string{"Length", "Properties", "Items"} {
				for _, a := range vals {
					for _, b := range vals {
						emit(&Verdict{Draft: d, Schema: `{"min` + k + `":` + a + `,"max` + k + `":` + b + `}`, Insts: insts(`"ab"`, `{"a":1,"b":2}`, `[1,2]`), WF: true})
						emit(&Verdict{Draft: d, Schema: `{"not":{"max` + k + `":` + b + `,"min` + k + `":` + a + `}}`, Insts: insts(`"ab"`, `{"a":1,"b":2}`, `[1,2]`), WF: true})
					}
				}
			}
			for _, a := range []string{"true", "false", "5", "\"5\"", "null"} {
				for _, side := range []string{"inimum", "aximum"} {
					for _, m := range []string{"", `"m` + side + `":5,`, `"m` + side + `":"5",`} {
						emit(&Verdict{Draft: d, Schema: `{` + m + `"exclusiveM` + side + `":` + a + `}`, Insts: insts("4", "5", "6"), WF: true})
					}
				}
			}
		}
	})
	c.Section("in a referenced document", "malformed and well-formed members at the root or a part of a registered or fetched document", asc, func(emit func(Case)) {
		for _, remote := range []bool{false, true} {
			u := "http://d.test/x.json"
			if remote {
				u = "http://HOST/x.json"
			}
			for _, d := range drafts() {
				for _, m := range append(good(d), badMembers...) {
					if strings.Contains(m, `"definitions"`) {
						continue
					}
					for _, ref := range []string{u, u + "#/definitions/p", u + "#/x/p"} {
						for _, w := range wraps()[:12] {
							if w.Min > d {
								continue
							}
							doc := `{` + m + `}`
							if strings.HasSuffix(ref, "definitions/p") {
								doc = `{"definitions":{"p":{` + m + `}}}`
							} else if strings.HasSuffix(ref, "/x/p") {
								doc = `{"x":{"p":{` + m + `}}}`
							}
							emit(&Verdict{Draft: d, Schema: w.Schema(`{"$ref":` + q(ref) + `}`), Docs: map[string]string{u: doc}, WF: true, Remote: remote})
						}
					}
				}
			}
		}
	})
	shortLists(c)
	largeForms(c)
}

func init() { checks["C08"] = c08 }
