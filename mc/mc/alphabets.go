package main

import (
	"fmt"
	"strings"

	"verifmc/model"
)

// numbers: notation variants, precision and magnitude borders.
var numbers = []string{
	"0", "-0", "0.0", "-0.0", "0e5", "0E-5", "1", "1.0", "1e0", "10e-1", "0.1e1", "1.00", "-1", "-1.0", "2", "3", "4", "5", "7",
	"1.5", "15e-1", "0.15E+1", "-1.5", "0.5", "0.1", "0.2", "0.3", "0.30000000000000004", "1e-1", "0.01", "0.0075", "3.5",
	"10", "1e1", "100", "1E2", "1e2", "99.99", "9007199254740991", "9007199254740992", "9007199254740993", "9007199254740993.0",
	"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
	"1e18", "1e19", "1000000000000000000", "123456789012345678901234567890", "123456789012345678901234567891",
	"1.0000000000000000000001", "0.99999999999999999999", "1e308", "1e309", "1e400", "-1e400", "1e-400", "-1e-400", "5e-324", "1e-323",
	"4294967296", "2147483648", "16777217", "0.1000000000000000055511151231257827",
}

// numbersSmall is a subset used where several dimensions multiply.
var numbersSmall = []string{"0", "-0.0", "1", "1.0", "10e-1", "-1", "1.5", "0.1", "0.3", "2", "3", "10", "1e1", "9007199254740993", "9007199254740992", "18446744073709551616", "1e400", "1e-400"}

// runes for string enumeration.
var runes = []string{"a", "b", "é", "😀", "\u0301", "\x00", "\n"}

// pool is a set of documents of every JSON type with the equalities that matter.
var poolTexts = []string{
	"null", "true", "false", "0", "-0", "0.0", "1", "1.0", "10e-1", "-1", "1.5", "15e-1", "2", "0.1", "1e400", "10e399", "1e401", "9007199254740992", "9007199254740993", "9007199254740993.0", "18446744073709551616",
	`""`, `" "`, `"a"`, `"b"`, `"A"`, `"é"`, `"e\u0301"`, `"😀"`, `"\u0000"`, `"0"`, `"1"`, `"1.0"`, `"null"`, `"true"`, `"[]"`, `"{}"`, `"ab"`, `"<"`, `"\u2028"`,
	"[]", "[[]]", "[null]", "[0]", "[1]", "[1.0]", "[1,2]", "[2,1]", "[1,1]", `["1"]`, `["a"]`, "[true]", "[{}]", `[[1]]`, `[[1.0]]`, "[1,[2]]", "[9007199254740993]", "[9007199254740992]",
	"{}", `{"a":1}`, `{"a":1.0}`, `{"a":"1"}`, `{"a":2}`, `{"b":1}`, `{"a":null}`, `{"a":1,"b":2}`, `{"b":2,"a":1}`, `{"a":{"b":1}}`, `{"a":{"b":1e0}}`, `{"a":[]}`, `{"a":{}}`, `{"":1}`, `{"":""}`, `{"A":1}`, `{"a":[1,{"b":0}]}`, `{"a":[1,{"b":-0.0}]}`,
	`{"$ref":"#"}`, `{"é":1}`, `{"a":9007199254740993}`, `{"a":9007199254740992}`,
}

func pool() []*Inst { return insts(poolTexts...) }

// smallPool has one or two documents of each type.
var smallPoolTexts = []string{"null", "true", "false", "0", "1", "1.0", "-1", "1.5", "7", `""`, `"a"`, `"ab"`, `"é"`, "[]", "[1]", "[1,1]", `["a",1.5]`, "{}", `{"a":1}`, `{"a":"a","b":2}`}

// valueKeywords lists single value-keyword schemas (members without braces) legal in the draft.
func valueKeywords(d model.Draft) []string {
	r := []string{}
	for _, t := range []string{"null", "boolean", "integer", "number", "string", "array", "object"} {
		r = append(r, `"type":`+q(t))
	}
	r = append(r, `"type":["integer","string"]`, `"type":["null","boolean","object"]`, `"type":["array","number"]`,
		`"enum":[1]`, `"enum":["a",null]`, `"enum":[[1],{"a":1}]`, `"enum":[1.0,true,"1"]`,
		`"multipleOf":1`, `"multipleOf":0.1`, `"multipleOf":1.5`,
		`"minimum":0`, `"minimum":1`, `"minimum":1.5`, `"maximum":0`, `"maximum":1`, `"maximum":1.5`,
		`"minLength":0`, `"minLength":1`, `"minLength":2`, `"maxLength":0`, `"maxLength":1`, `"maxLength":2`,
		`"pattern":"a"`, `"pattern":"^a$"`, `"pattern":""`, `"pattern":"^[^a]"`)
	if d == model.D4 || d == model.Hybrid {
		r = append(r, `"minimum":1,"exclusiveMinimum":true`, `"minimum":1,"exclusiveMinimum":false`, `"maximum":1,"exclusiveMaximum":true`, `"maximum":1,"exclusiveMaximum":false`)
	}
	if d != model.D4 {
		r = append(r, `"exclusiveMinimum":1`, `"exclusiveMinimum":0`, `"exclusiveMaximum":1`, `"exclusiveMaximum":1.5`, `"const":1`, `"const":"a"`, `"const":null`, `"const":[1,1.0]`, `"const":{"a":1}`, `"const":false`)
	}
	return r
}

// keyName is the keyword a member text sets (the first one).
func keyNames(member string) []string {
	v := model.MustParse("{" + member + "}")
	return v.Keys
}

func disjoint(a, b string) bool {
	for _, x := range keyNames(a) {
		for _, y := range keyNames(b) {
			if x == y {
				return false
			}
		}
	}
	return true
}

// legalTogether excludes combinations compilation rejects by design.
func legalTogether(d model.Draft, member string) bool {
	v := model.MustParse("{" + member + "}")
	n := func(k string) (int64, bool) {
		x, ok := v.M[k]
		if !ok || x.K != model.Num {
			return 0, false
		}
		return x.N.Num().Int64(), true
	}
	if a, ok := n("minLength"); ok {
		if b, ok := n("maxLength"); ok && a > b {
			return false
		}
	}
	if a, ok := n("minProperties"); ok {
		if b, ok := n("maxProperties"); ok && a > b {
			return false
		}
	}
	return true
}

// Wrap places a schema inside a larger one, with documents to match.
type Wrap struct {
	Name   string
	Min    model.Draft
	Schema func(s string) string
	Doc    func(d string) string
	StrDoc bool // only for string documents (member names)
}

func never(d model.Draft) string {
	return `{"not":{}}`
}

func wraps() []Wrap {
	id := func(d string) string { return d }
	f := func(t string) func(string) string {
		return func(s string) string { return strings.ReplaceAll(t, "%S", s) }
	}
	g := func(t string) func(string) string {
		return func(s string) string { return strings.ReplaceAll(t, "%D", s) }
	}
	no := `{"not":{}}`
	return []Wrap{
		{"root", 0, f("%S"), id, false},
		{"properties", 0, f(`{"properties":{"p":%S}}`), g(`{"p":%D}`), false},
		{"properties+others", 0, f(`{"properties":{"o":{},"p":%S,"z":{"type":"null"}},"required":["p"]}`), g(`{"o":5,"p":%D,"z":null}`), false},
		{"properties empty name", 0, f(`{"properties":{"":%S}}`), g(`{"":%D}`), false},
		{"patternProperties", 0, f(`{"patternProperties":{"^x":%S}}`), g(`{"xy":%D,"y":0}`), false},
		{"properties+patternProperties", 0, f(`{"properties":{"xy":{}},"patternProperties":{"y$":%S},"additionalProperties":false}`), g(`{"xy":%D}`), false},
		{"additionalProperties", 0, f(`{"properties":{"q":` + no + `},"additionalProperties":%S}`), g(`{"r":%D}`), false},
		{"items", 0, f(`{"items":%S}`), g(`[%D]`), false},
		{"items several", 0, f(`{"items":%S}`), g(`[%D,%D,%D]`), false},
		{"items[0]", 0, f(`{"items":[%S]}`), g(`[%D,{"x":[]}]`), false},
		{"items[2]", 0, f(`{"items":[{},{},%S]}`), g(`[null,"",%D]`), false},
		{"items[2] absent", 0, f(`{"items":[{},{},%S]}`), g(`[%D,%D]`), false},
		{"additionalItems", 0, f(`{"items":[{}],"additionalItems":%S}`), g(`[[],%D]`), false},
		{"additionalItems last", 0, f(`{"items":[{}],"additionalItems":%S}`), g(`[[],%D,%D]`), false},
		{"contains", model.D6, f(`{"contains":%S}`), g(`[%D]`), false},
		{"contains absent", model.D4, f(`{"contains":%S}`), g(`[]`), false},
		{"dependencies", 0, f(`{"dependencies":{"k":{"properties":{"k":%S}}}}`), g(`{"k":%D}`), false},
		{"allOf", 0, f(`{"allOf":[%S]}`), id, false},
		{"allOf second", 0, f(`{"allOf":[{},%S]}`), id, false},
		{"anyOf", 0, f(`{"anyOf":[` + no + `,%S]}`), id, false},
		{"anyOf first", 0, f(`{"anyOf":[%S,` + no + `]}`), id, false},
		{"oneOf", 0, f(`{"oneOf":[` + no + `,%S,` + no + `]}`), id, false},
		{"oneOf exclusive", 0, f(`{"oneOf":[{},%S]}`), id, false},
		{"not", 0, f(`{"not":%S}`), id, false},
		{"not not", 0, f(`{"not":{"not":%S}}`), id, false},
		{"then", model.D7, f(`{"if":{},"then":%S}`), id, false},
		{"else", model.D7, f(`{"if":` + no + `,"else":%S}`), id, false},
		{"if", model.D7, f(`{"if":%S,"then":{},"else":` + no + `}`), id, false},
		{"if only", model.D7, f(`{"if":%S}`), id, false},
		{"ref", 0, f(`{"$ref":"#/definitions/d","definitions":{"d":%S}}`), id, false},
		{"ref twice", 0, f(`{"allOf":[{"$ref":"#/definitions/d"},{"$ref":"#/definitions/e"}],"definitions":{"d":%S,"e":{"$ref":"#/definitions/d"}}}`), id, false},
		{"definitions unused", 0, f(`{"definitions":{"d":%S}}`), id, false},
		{"propertyNames", model.D6, f(`{"propertyNames":%S}`), g(`{%D:1}`), true},
	}
}

func wrapCases(d model.Draft, outer *Wrap, w Wrap, members []string, docs []*Inst, errs bool, emit func(Case)) {
	if w.Min > d || outer != nil && outer.Min > d {
		return
	}
	if outer != nil && strings.HasPrefix(w.Name, "ref") {
		return // "#/definitions" has to stay at the root
	}
	var ds []*Inst
	for _, doc := range docs {
		if w.StrDoc && doc.V.K != model.Str {
			continue
		}
		t := w.Doc(doc.T)
		if outer != nil {
			if outer.StrDoc {
				continue
			}
			t = outer.Doc(t)
		}
		ds = append(ds, inst(t))
	}
	if len(ds) == 0 {
		return
	}
	for _, m := range members {
		s := m
		if !strings.HasPrefix(s, "{") && s != "true" && s != "false" {
			s = "{" + s + "}"
		}
		s = w.Schema(s)
		if outer != nil {
			s = outer.Schema(s)
		}
		emit(&Verdict{Draft: d, Schema: s, Insts: ds, Errors: errs, MayRef: strings.Contains(s, `"$ref"`)})
	}
}

var _ = fmt.Sprint
