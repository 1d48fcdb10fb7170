package main

import (
	"fmt"
	"strings"

	"verifmc/model"
)

// refNames are member names that need care in a JSON pointer or a URI fragment.
var refNames = []string{
	"a", "A", "ab", "", "0", "1", "01", "-", "a/b", "/", "//", "a~b", "~", "~0", "~1", "~01", "a%b", "%", "%25", "%2F", "a b", "é", "日本", "a?b", "a#b", "a\"b", "a\\b", "a|b", "a^b", "a+b", "a&b", "a.b", "..", ".", "a:b", "[0]", "{x}", "<x>",
	"$ref", "$id", "id", "const", "enum", "definitions", "properties", "items", "$schema", "default", "not", "type", "required", "dependencies", "patternProperties",
}

func ptrEsc(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "~", "~0"), "/", "~1")
}

// pctEsc percent-encodes: 0 only what has to be, 1 everything but letters and digits, 2 every byte in lower case hex.
func pctEsc(s string, mode int) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		alnum := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
		switch {
		case mode == 0 && (alnum || strings.IndexByte("-._~!$&'()*+,;=:@/?", c) >= 0):
			b.WriteByte(c)
		case mode == 1 && (alnum || c == '~'):
			b.WriteByte(c)
		case mode == 2:
			fmt.Fprintf(&b, "%%%02x", c)
		default:
			fmt.Fprintf(&b, "%%%02X", c)
		}
	}
	return b.String()
}

func ptrVariants(name string) []string {
	seen := map[string]bool{}
	var r []string
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			r = append(r, s)
		}
	}
	for m := 0; m < 3; m++ {
		add(pctEsc(ptrEsc(name), m))
	}
	return r
}

// wrongVariants are pointers that must not find the name (or find another one).
func wrongVariants(name string) []string {
	return []string{pctEsc(name, 0), pctEsc(strings.ToUpper(ptrEsc(name)), 0), pctEsc(ptrEsc(name), 0) + "/", pctEsc(ptrEsc(name)+"x", 0), pctEsc(pctEsc(ptrEsc(name), 1), 1)}
}

// holders are the positions a referenced schema can have; %T is the target.
type holder struct {
	schema, ptr string
	min         model.Draft
}

var holders = []holder{
	{`{"properties":{"p":%T,"q":{"enum":["N"]}}}`, "/properties/p", 0},
	{`{"properties":{"properties":{"properties":{"p":%T}}}}`, "/properties/properties/properties/p", 0},
	{`{"patternProperties":{"^x/~":%T,"b":{"enum":["N"]}}}`, "/patternProperties/%5Ex~1~0", 0},
	{`{"additionalProperties":%T}`, "/additionalProperties", 0},
	{`{"items":%T}`, "/items", 0},
	{`{"items":[{"enum":["N"]},%T]}`, "/items/1", 0},
	{`{"items":[%T,{"enum":["N"]}]}`, "/items/0", 0},
	{`{"items":[{}],"additionalItems":%T}`, "/additionalItems", 0},
	{`{"allOf":[{},%T]}`, "/allOf/1", 0},
	{`{"anyOf":[%T,{}]}`, "/anyOf/0", 0},
	{`{"oneOf":[{"enum":["N"]},{"enum":["M"]},%T]}`, "/oneOf/2", 0},
	{`{"not":%T}`, "/not", 0},
	{`{"not":{"not":{"not":%T}}}`, "/not/not/not", 0},
	{`{"dependencies":{"k":%T}}`, "/dependencies/k", 0},
	{`{"definitions":{"d":%T,"e":{"enum":["N"]}}}`, "/definitions/d", 0},
	{`{"definitions":{"definitions":{"definitions":{"d":%T}}}}`, "/definitions/definitions/definitions/d", 0},
	{`{"contains":%T}`, "/contains", model.D6},
	{`{"propertyNames":%T}`, "/propertyNames", model.D6},
	{`{"if":%T,"then":{}}`, "/if", model.D7},
	{`{"if":{},"then":%T}`, "/then", model.D7},
	{`{"if":{},"then":{"enum":["N"]},"else":%T}`, "/else", model.D7},
	{`{"unknown":{"deep":[0,%T]}}`, "/unknown/deep/1", 0},
	{`{"$defs":{"d":%T}}`, "/$defs/d", 0},
	{`{"default":%T}`, "/default", 0},
}

func declare(d model.Draft) string {
	if u := model.MetaURL(d); u != "" {
		return `"$schema":"` + u + `#",`
	}
	return ""
}

func c05(c *Ctx) {
	c.Assume = append(specAssume, "URI resolution follows RFC 3986 as implemented by Go's net/url, which the model uses as well",
		"every referenced schema accepts a document no other schema of the case accepts, so the verdict shows which one was resolved",
		"not enumerated: two schemas with the same identifier, identifiers next to $ref, reference loops that consume nothing")
	c.Rule = "every ($ref position, URI spelling, target position, base) of the alphabets x documents that tell all candidate targets apart x every draft x both member orders"

	c.Section("pointer spelling", fmt.Sprintf("%d member names x 3 percent encodings + 5 wrong spellings, one level", len(refNames)), both, func(emit func(Case)) {
		var defs []string
		var docs []*Inst
		for i, n := range refNames {
			defs = append(defs, q(n)+fmt.Sprintf(`:{"enum":["F%d"]}`, i))
			docs = append(docs, inst(fmt.Sprintf(`{"x":"F%d"}`, i)))
		}
		for _, d := range drafts() {
			for _, n := range refNames {
				for _, v := range append(ptrVariants(n), wrongVariants(n)...) {
					for _, home := range []string{"definitions", "properties", "patternProperties", "dependencies"} {
						if home == "patternProperties" {
							continue
						}
						defsText := `"` + home + `":{` + join(defs...) + `}`
						s := `{` + defsText + `,"allOf":[{"properties":{"x":{"$ref":` + q("#/"+home+"/"+v) + `}}}]}`
						if home == "properties" {
							s = `{"definitions":{"h":{` + defsText + `}},"properties":{"x":{"$ref":` + q("#/definitions/h/properties/"+v) + `}}}`
						}
						emit(&Verdict{Draft: d, Schema: s, Insts: docs, MayRef: true})
					}
				}
			}
		}
	})
	c.Section("pointer spelling, two levels", "all pairs of member names x 2 encodings", asc, func(emit func(Case)) {
		ds := []model.Draft{model.D4, model.D7}
		if c.Thorough() {
			ds = drafts()
		}
		for _, d := range ds {
			for i, n := range refNames {
				for j, m := range refNames {
					for _, mode := range []int{0, 1} {
						s := `{"definitions":{` + q(n) + `:{"enum":["F1"],"definitions":{` + q(m) + `:{"enum":["F2"]}}},"other":{"enum":["F3"]}},` +
							`"items":{"$ref":` + q("#/definitions/"+pctEsc(ptrEsc(n), mode)+"/definitions/"+pctEsc(ptrEsc(m), mode)) + `}}`
						_, _ = i, j
						emit(&Verdict{Draft: d, Schema: s, Insts: insts(`["F1"]`, `["F2"]`, `["F3"]`, `[]`), MayRef: true})
					}
				}
			}
		}
	})
	c.Section("position of $ref x position of target", "32 positions x 24 positions x chains of 0..3 intermediate references", both, func(emit func(Case)) {
		docs := insts(`"T"`, `"U"`, `"N"`, `"M"`, `1`)
		for _, d := range drafts() {
			for _, h := range holders {
				if h.min > d {
					continue
				}
				for _, w := range wraps() {
					if w.Min > d || strings.HasPrefix(w.Name, "ref") || strings.HasPrefix(w.Name, "definitions") {
						continue
					}
					for chain := 0; chain <= c.Pick(2, 4); chain++ {
						defs := []string{`"h":` + strings.ReplaceAll(h.schema, "%T", `{"enum":["T"]}`)}
						ref := "#/definitions/h" + h.ptr
						for k := 0; k < chain; k++ {
							defs = append(defs, fmt.Sprintf(`"c%d":{"$ref":%s}`, k, q(ref)))
							ref = fmt.Sprintf("#/definitions/c%d", k)
						}
						s := w.Schema(`{"$ref":` + q(ref) + `}`)
						s = `{"definitions":{` + join(defs...) + `},` + strings.TrimPrefix(s, "{")
						if w.Name == "root" && d != model.D4 {
							// siblings of $ref at the root: the definitions stay reachable
						}
						var ds []*Inst
						for _, x := range docs {
							if w.StrDoc && x.V.K != model.Str {
								continue
							}
							ds = append(ds, inst(w.Doc(x.T)))
						}
						emit(&Verdict{Draft: d, Schema: s, Insts: ds, MayRef: true})
					}
				}
			}
		}
	})
	c.Section("two references in one schema", "all ordered pairs of member names and of identifiers, both referenced from the same schema", both, func(emit func(Case)) {
		extra := []string{"B", "AB", "É", "a-b", "a_b", "a/", "aB", "Definitions", "a\u0301", "á"}
		names := append(append([]string{}, refNames...), extra...)
		docs := insts(`{"x":"F1"}`, `{"x":"F2"}`, `{"y":"F1"}`, `{"y":"F2"}`, `{"x":"F1","y":"F2"}`)
		for _, d := range drafts() {
			if d != model.D7 && d != model.D4 && !c.Thorough() {
				continue
			}
			for _, n := range names {
				for _, m := range names {
					if n == m {
						continue
					}
					s := `{"definitions":{` + q(n) + `:{"enum":["F1"]},` + q(m) + `:{"enum":["F2"]}},"properties":{"x":{"$ref":` + q("#/definitions/"+pctEsc(ptrEsc(n), 0)) + `},"y":{"$ref":` + q("#/definitions/"+pctEsc(ptrEsc(m), 0)) + `}}}`
					emit(&Verdict{Draft: d, Schema: s, Insts: docs, MayRef: true})
				}
			}
			idkw := "$id"
			if d == model.D4 {
				idkw = "id"
			}
			urls := []string{"http://h.test/a", "http://h.test/A", "http://h.test/a/", "http://h.test/a?q=1", "http://h.test/a?q=2", "http://h.test/a?Q=1", "http://h.test/a.json", "http://h.test/ab", "http://h.test/b/a", "http://h.test", "http://g.test/a", "https://h.test/a", "http://h.test:8080/a", "http://h.test/a%20b", "http://h.test/é", "#n", "#N", "#nn", "http://h.test/a#n", "http://h.test/a#N", "http://h.test/b#n"}
			for _, n := range urls {
				for _, m := range urls {
					if n == m {
						continue
					}
					for _, root := range []string{"", "http://h.test/root.json"} {
						id := declare(d)
						if root != "" {
							id += q(idkw) + ":" + q(root) + ","
						}
						for _, suffix := range []string{"", "#/definitions/t"} {
							if suffix != "" && strings.Contains(n+m, "#") {
								continue
							}
							t := func(u, v string) string {
								if suffix != "" {
									return `{` + q(idkw) + `:` + q(u) + `,"definitions":{"t":{"enum":[` + q(v) + `]}}}`
								}
								return `{` + q(idkw) + `:` + q(u) + `,"enum":[` + q(v) + `]}`
							}
							s := `{` + id + `"definitions":{"1":` + t(n, "F1") + `,"2":` + t(m, "F2") + `},"properties":{"x":{"$ref":` + q(n+suffix) + `},"y":{"$ref":` + q(m+suffix) + `}}}`
							emit(&Verdict{Draft: d, Schema: s, Insts: docs, MayRef: true, NoDup: true})
						}
					}
				}
			}
		}
	})
	c.Section("array indices and paths that lead nowhere", "list positions -1..3 and wrong tokens", asc, func(emit func(Case)) {
		for _, d := range drafts() {
			for _, tok := range []string{"0", "1", "2", "3", "-", "", "a", "4294967296", "18446744073709551616", "0/enum", "0/enum/0", "1/type", "0/", "0//", "~", "~2", "%"} {
				for _, list := range []string{"allOf", "anyOf", "oneOf", "items", "unknown"} {
					s := `{"definitions":{"h":{"` + list + `":[{"enum":["T0"]},{"enum":["T1"]},{"enum":["T2"]}]}},"properties":{"x":{"$ref":` + q("#/definitions/h/"+list+"/"+tok) + `}}}`
					emit(&Verdict{Draft: d, Schema: s, Insts: insts(`{"x":"T0"}`, `{"x":"T1"}`, `{"x":"T2"}`, `{"x":"T3"}`), MayRef: true})
				}
			}
			for _, ref := range []string{"#/definitions", "#/definitions/", "#/definitions/x", "#/definitions/h/type", "#/definitions/h/required", "#/definitions/h/required/0", "#/definitions/h/minimum", "#/nothing", "#/", "#nothing", "#definitions/h", "#h", "/definitions/h", "definitions/h", "h", "http://nowhere.test/x.json", "http://nowhere.test/x.json#/a", "nosuch:thing", "%", ":", "http://[", "#%", "#%zz"} {
				s := `{"definitions":{"h":{"type":"string","minimum":5,"required":["a"]}},"properties":{"x":{"$ref":` + q(ref) + `}}}`
				emit(&Verdict{Draft: d, Schema: s, Insts: insts(`{"x":"T0"}`, `{"x":1}`), MayRef: true})
			}
		}
	})
	c.Section("recursive schemas", "root and 2 definitions, 14 bodies each x documents of depth <= 3", both, func(emit func(Case)) {
		refs := []string{"#", "#/definitions/a", "#/definitions/b"}
		docs := recursiveDocs()
		for _, d := range drafts() {
			if d == model.Hybrid && !c.Thorough() {
				continue
			}
			var bodies []string
			for _, r := range refs {
				R := `{"$ref":"` + r + `"}`
				bodies = append(bodies, `"type":"object","properties":{"n":`+R+`},"additionalProperties":false`,
					`"items":`+R+`,"type":["array","integer"]`, `"anyOf":[{"type":"integer"},{"type":"object","additionalProperties":`+R+`}]`,
					`"type":"array","items":[`+R+`],"additionalItems":{"not":`+R+`}`)
			}
			bodies = append(bodies, `"type":"integer"`, `"type":"null"`)
			for _, root := range bodies {
				for _, a := range bodies {
					for _, b := range bodies {
						if strings.Contains(a+root, "definitions/b") || b == bodies[0] {
							s := `{` + root + `,"definitions":{"a":{` + a + `},"b":{` + b + `}}}`
							emit(&Verdict{Draft: d, Schema: s, Insts: docs, MayRef: true})
						}
					}
				}
			}
		}
	})
	c.Section("identifiers and bases", "3 levels of identifiers (9 values each) x 28 references x 3 positions, declared drafts and hybrid", both, func(emit func(Case)) {
		var idDocs [3][]*Inst
		rootIDs := []string{"", "http://h.test/a/root.json", "http://h.test"}
		ids := []string{"", "x.json", "sub/", "sub/x.json", "../x.json", "/abs.json", "http://g.test/o.json", "#plain", "?q=1"}
		refs := []string{"#", "", "#/definitions/t", "x.json", "x.json#", "x.json#/definitions/t", "sub/", "sub/x.json", "sub/x.json#/definitions/t", "sub/#/definitions/t", "../x.json", "../x.json#/definitions/t", "/abs.json", "/abs.json#/definitions/t", "http://g.test/o.json", "http://g.test/o.json#/definitions/t", "http://g.test/x.json#/definitions/t", "//g.test/o.json", "#plain", "x.json#plain", "http://h.test/a/root.json#plain", "http://h.test/a/x.json", "http://h.test/a/sub/x.json#/definitions/t", "http://h.test/x.json", "root.json", "http://h.test/a/root.json#/definitions/t", "?q=1", "#other", "#/properties/l1/definitions/t"}
		for _, d := range []model.Draft{model.D4, model.D6, model.D7, model.Hybrid, -1} {
			idkw, dd := "$id", d
			if d == model.D4 || d == -1 {
				idkw = "id"
			}
			if d == -1 {
				dd = model.Hybrid
			}
			idm := func(s string) string {
				if s == "" {
					return ""
				}
				return q(idkw) + ":" + q(s) + ","
			}
			for _, r := range rootIDs {
				for _, i1 := range ids {
					for _, i2 := range ids {
						for _, ref := range refs {
							for pos := 0; pos < 3; pos++ {
								R := func(p int) string {
									if p == pos {
										return `"r":{"$ref":` + q(ref) + `},`
									}
									return ""
								}
								l2 := `{` + idm(i2) + `"type":"object","definitions":{"t":{"enum":["F2"]}},"properties":{` + R(2) + `"me":{"enum":["L2"]}}}`
								l1 := `{` + idm(i1) + `"type":"object","definitions":{"t":{"enum":["F1"]}},"properties":{` + R(1) + `"me":{"enum":["L1"]},"l2":` + l2 + `}}`
								root := `{` + declare(dd) + idm(r) + `"type":"object","definitions":{"t":{"enum":["F0"]}},"properties":{` + R(0) + `"me":{"enum":["L0"]},"l1":` + l1 + `}}`
								pre, post := `{"r":`, `}`
								for k := 0; k < pos; k++ {
									pre, post = []string{`{"l1":`, `{"l1":{"l2":`}[pos-1]+`{"r":`, strings.Repeat("}", pos+1)
								}
								docs := idDocs[pos]
								if docs == nil {
									for _, x := range []string{`"F0"`, `"F1"`, `"F2"`, `{"me":"L0"}`, `{"me":"L1"}`, `{"me":"L2"}`} {
										docs = append(docs, inst(pre+x+post))
									}
									idDocs[pos] = docs
								}
								emit(&Verdict{Draft: dd, Schema: root, Insts: docs, MayRef: true, NoDup: true})
							}
						}
					}
				}
			}
		}
	})
	c.Section("plain names", "names on 12 positions, looked up by name under 3 bases", both, func(emit func(Case)) {
		pos := []holder{}
		for _, h := range holders {
			if !strings.HasPrefix(h.ptr, "/unknown") && !strings.HasPrefix(h.ptr, "/$defs") && !strings.HasPrefix(h.ptr, "/default") {
				pos = append(pos, h)
			}
		}
		for _, d := range drafts() {
			idkw := "$id"
			if d == model.D4 {
				idkw = "id"
			}
			for _, h := range pos {
				if h.min > d {
					continue
				}
				for _, name := range []string{"foo", "Foo", "a-b_c.d", "0"} {
					for _, base := range []string{"", "http://h.test/base/doc.json", "http://h.test/"} {
						for _, ref := range []string{"#" + name, "#FOO", "#/" + name, base + "#" + name, "http://other.test/#" + name, "doc.json#" + name, "#" + name + "/enum"} {
							id := ""
							if base != "" {
								id = q(idkw) + ":" + q(base) + ","
							}
							t := `{` + q(idkw) + `:` + q("#"+name) + `,"enum":["T"]}`
							s := `{` + declare(d) + id + `"definitions":{"h":` + strings.ReplaceAll(h.schema, "%T", t) + `},"properties":{"x":{"$ref":` + q(ref) + `}}}`
							emit(&Verdict{Draft: d, Schema: s, Insts: insts(`{"x":"T"}`, `{"x":"U"}`, `{"y":1}`), MayRef: true})
						}
					}
				}
			}
		}
	})
	c.Section("lookalikes are data", "reference and identifier texts inside const, enum and as member names", both, func(emit func(Case)) {
		data := []string{`{"$ref":"#/definitions/t"}`, `{"$ref":"x.json"}`, `{"$ref":"nowhere:x"}`, `{"$id":"http://h.test/i.json","enum":["E"]}`, `{"id":"http://h.test/i.json","enum":["E"]}`, `{"$id":"#i","enum":["E"]}`, `[{"$ref":"#/definitions/t"}]`, `{"a":{"$ref":"#/nothing"}}`, `{"properties":{"a":{"$ref":"#/nothing"}}}`, `{"$schema":"http://json-schema.org/draft-04/schema#"}`, `{"const":{"$ref":"#"}}`, `{"enum":[{"$ref":"#"}]}`}
		for _, d := range drafts() {
			for _, base := range []string{"", "http://h.test/root.json"} {
				for _, x := range data {
					for _, kw := range []string{`"const":%D`, `"enum":[%D,5]`, `"enum":[5,[%D],{"k":%D}]`} {
						if strings.HasPrefix(kw, `"const"`) && d == model.D4 {
							continue
						}
						for _, ref := range []string{"#/definitions/t", "http://h.test/i.json", "#i"} {
							idkw := "$id"
							if d == model.D4 {
								idkw = "id"
							}
							id := ""
							if base != "" {
								id = q(idkw) + ":" + q(base) + ","
							}
							s := `{` + declare(d) + id + `"definitions":{"t":{"enum":["T"]},"x.json":{}},"properties":{"c":{` + strings.ReplaceAll(kw, "%D", x) + `},"r":{"$ref":` + q(ref) + `}}}`
							var docs []*Inst
							for _, y := range data {
								docs = append(docs, inst(`{"c":`+y+`}`))
							}
							docs = append(docs, insts(`{"c":5}`, `{"c":[`+x+`]}`, `{"c":{"k":`+x+`}}`, `{"c":"T"}`, `{"r":"T"}`, `{"r":"E"}`, `{"r":`+x+`}`)...)
							emit(&Verdict{Draft: d, Schema: s, Insts: docs, MayRef: true})
						}
					}
				}
			}
			// member names that look like keywords
			names := []string{"$ref", "$id", "id", "const", "enum", "$schema", "definitions", "properties", "items", "allOf", "not", "default"}
			subs := []string{`{"type":"string"}`, `{"$ref":"#/definitions/t"}`, `{"enum":["#/definitions/t",{"$ref":"#"}]}`}
			for _, n := range names {
				for _, m := range names {
					for _, sub := range subs {
						for _, holder := range []string{`"properties":{%N:%S,%M:{"$ref":"#/definitions/t"}}`, `"patternProperties":{"^\\%n$":%S}`, `"dependencies":{%N:{"properties":{%N:%S}},%M:[%N]}`, `"definitions":{%N:%S},"properties":{%N:{"$ref":"#/definitions/%p"}}`, `"properties":{"o":{"properties":{%N:{"properties":{%M:%S}}}}}`} {
							if n == m && strings.Contains(holder, `%M:{`) || strings.Contains(holder, "%n") && !strings.HasPrefix(n, "$") {
								continue
							}
							h := strings.NewReplacer("%N", q(n), "%M", q(m), "%S", sub, "%n", n, "%p", pctEsc(ptrEsc(n), 0)).Replace(holder)
							t := `"t":{"enum":["T"]}`
							if strings.Contains(h, `"definitions":{`) && strings.HasPrefix(h, `"definitions"`) {
								h = strings.Replace(h, `"definitions":{`, `"definitions":{`+t+`,`, 1)
							} else {
								h = `"definitions":{` + t + `},` + h
							}
							var docs []*Inst
							for _, v := range []string{`"T"`, `"s"`, `1`, `{"$ref":"#"}`, `"#/definitions/t"`} {
								docs = append(docs, inst(`{`+q(n)+`:`+v+`}`), inst(`{`+q(m)+`:`+v+`}`))
								if n != m {
									docs = append(docs, inst(`{`+q(n)+`:"T",`+q(m)+`:`+v+`}`))
								}
								docs = append(docs, inst(`{"o":{`+q(n)+`:{`+q(m)+`:`+v+`}}}`))
							}
							emit(&Verdict{Draft: d, Schema: `{` + h + `}`, Insts: docs, MayRef: true})
						}
					}
				}
			}
		}
	})
	c.Section("keywords next to $ref are ignored", "every keyword that would reject x 9 positions x target seen before or not", both, func(emit func(Case)) {
		sibs := []string{`"type":"null"`, `"enum":["X"]`, `"const":"X"`, `"minimum":100`, `"maxLength":0`, `"pattern":"^X"`, `"required":["zz"]`, `"properties":{"a":false}`, `"properties":{"a":{"$ref":"#/nothing"}}`, `"not":{}`, `"allOf":[{"not":{}}]`, `"anyOf":[{"not":{}}]`, `"oneOf":[{"not":{}}]`, `"items":{"not":{}}`, `"contains":false`, `"additionalProperties":false`, `"minProperties":9`, `"minItems":9`, `"uniqueItems":true`, `"multipleOf":7`, `"if":true,"then":false`, `"propertyNames":false`, `"dependencies":{"a":["zz"]}`, `"patternProperties":{"":false}`, `"format":"ipv4"`, `"title":"x","description":"y","default":1`}
		docs := insts(`"T"`, `"U"`, `1`, `{"a":1}`, `{"a":"x"}`, `[1,1]`, `[]`, `null`)
		for _, d := range drafts() {
			for _, sib := range sibs {
				for _, first := range []bool{false, true} {
					for _, tgt := range []string{`{"enum":["T",1,null,{"a":1},[1,1]]}`, `{"not":{"enum":["T",{"a":"x"}]}}`} {
						for _, w := range wraps() {
							if w.Min > d || strings.HasPrefix(w.Name, "ref") || strings.HasPrefix(w.Name, "definitions") {
								continue
							}
							ref := `"$ref":"#/definitions/t"`
							node := `{` + ref + `,` + sib + `}`
							s := w.Schema(node)
							s = strings.TrimSuffix(s, "}")
							pre := `{"definitions":{"t":` + tgt
							if first {
								pre += `,"u":{"$ref":"#/definitions/t"}`
							}
							s = pre + `},` + strings.TrimPrefix(s, "{") + `}`
							var ds []*Inst
							for _, x := range docs {
								if w.StrDoc && x.V.K != model.Str {
									continue
								}
								ds = append(ds, inst(w.Doc(x.T)))
							}
							emit(&Verdict{Draft: d, Schema: s, Insts: ds, MayRef: true})
						}
					}
				}
			}
		}
	})
	neighbourIDs(c)
	reachedByPointer(c)
	largeRefs(c)
}

func recursiveDocs() []*Inst {
	leaf := []string{"1", "null"}
	lvl := leaf
	all := append([]string{}, leaf...)
	for depth := 0; depth < 3; depth++ {
		var next []string
		for _, x := range lvl {
			next = append(next, `{"n":`+x+`}`, `{"m":`+x+`}`, `[`+x+`]`)
			if depth < 2 {
				next = append(next, `[`+x+`,1]`, `[1,`+x+`]`, `{"n":`+x+`,"m":1}`)
			}
		}
		all = append(all, next...)
		lvl = next
		if depth == 1 {
			lvl = next[:len(next)/2]
		}
	}
	all = append(all, "{}", "[]", `{"n":{}}`, `[[]]`, `[{}]`)
	return insts(all...)
}

func init() { checks["C05"] = c05 }
