package main

import (
	"fmt"
	"strings"

	"verifmc/model"
)

// draftProbes are schema members whose meaning depends on the draft.
var draftProbes = []string{
	`"const":1`, `"const":{"if":1}`, `"contains":{"type":"integer"}`, `"contains":true`, `"propertyNames":{"maxLength":1}`, `"propertyNames":false`,
	`"if":{"type":"integer"},"then":{"minimum":5},"else":{"type":"string"}`, `"if":true,"then":false`, `"if":{"not":{}},"then":{},"else":{"type":"null"}`, `"then":{"not":{}},"else":{"not":{}}`,
	`"minimum":5,"exclusiveMinimum":true`, `"minimum":5,"exclusiveMinimum":false`, `"exclusiveMinimum":5`, `"minimum":7,"exclusiveMinimum":5`, `"minimum":3,"exclusiveMinimum":5`, `"exclusiveMinimum":true`,
	`"maximum":5,"exclusiveMaximum":true`, `"maximum":5,"exclusiveMaximum":false`, `"exclusiveMaximum":5`, `"maximum":3,"exclusiveMaximum":5`, `"maximum":7,"exclusiveMaximum":5`, `"exclusiveMaximum":false`,
	`"items":true`, `"items":[{},false]`, `"properties":{"a":false}`, `"properties":{"a":true}`, `"patternProperties":{"a":false}`, `"not":true`, `"not":false`, `"allOf":[true]`, `"anyOf":[false,true]`, `"oneOf":[true,{}]`,
	`"additionalItems":false,"items":[{}]`, `"additionalProperties":false`, `"dependencies":{"a":false}`, `"dependencies":{"a":["b"]}`, `"definitions":{"b":true}`,
	`"id":5`, `"$id":5`, `"const":null,"id":"x"`, `"contains":5`, `"propertyNames":5`, `"if":5`, `"then":[]`, `"else":"x"`, `"type":"integer","const":7`, `"required":["a"],"propertyNames":{"enum":["a"]}`,
}

var draftDocs = insts("null", "1", "2", "3", "4", "5", "6", "7", "8", `"a"`, `true`, "[]", "[1]", `["a"]`, `["a",1]`, "{}", `{"a":1}`, `{"ab":1}`, `{"a":1,"b":2}`, `{"if":1}`)

var schemaURLs = []string{
	"", "http://json-schema.org/draft-04/schema#", "http://json-schema.org/draft-04/schema", "http://json-schema.org/draft-06/schema#", "http://json-schema.org/draft-06/schema", "http://json-schema.org/draft-07/schema#", "http://json-schema.org/draft-07/schema",
	"https://json-schema.org/draft-07/schema#", "http://json-schema.org/draft-05/schema#", "http://json-schema.org/schema#", "http://example.test/my-schema", "http://json-schema.org/draft-04/schema#/definitions", "http://json-schema.org/draft-04/Schema#",
}

var declaredURLs = []string{"", schemaURLs[1], schemaURLs[4], schemaURLs[5]}

func schemaMember(u string) string {
	if u == "" {
		return ""
	}
	return `"$schema":` + q(u) + `,`
}

// effective is the draft in force for a document with that $schema.
func effective(cfg model.Draft, auto bool, u string) (model.Draft, bool) {
	if d := model.Declared(model.MustParse(`{` + strings.TrimSuffix(schemaMember(u), ",") + `}`)); auto && d != 0 {
		return d, true
	}
	return cfg, false
}

func wrapDocs(w Wrap, docs []*Inst) []*Inst {
	var r []*Inst
	for _, d := range docs {
		if w.StrDoc && d.V.K != model.Str {
			continue
		}
		r = append(r, inst(w.Doc(d.T)))
	}
	return r
}

func c07(c *Ctx) {
	c.Assume = append(specAssume, "not enumerated: a document that declares no draft and is reached from documents of another draft than the configured one")
	c.Rule = "full product of configured draft x autodetection x $schema of every document x draft-dependent keyword forms x documents that tell the drafts apart; compilation and every verdict are judged by the model of the draft in force"
	autos := []bool{true, false}
	c.Section("one document", fmt.Sprintf("4 configured drafts x autodetect x %d $schema values x %d keyword forms", len(schemaURLs), len(draftProbes)), both, func(emit func(Case)) {
		for _, cfg := range drafts() {
			for _, auto := range autos {
				for _, u := range schemaURLs {
					for _, p := range draftProbes {
						emit(&Verdict{Draft: cfg, NoAuto: !auto, Schema: `{` + schemaMember(u) + p + `}`, Insts: draftDocs, WF: true})
					}
				}
			}
		}
	})
	c.Section("one document, nested", "keyword form at every subschema position", asc, func(emit func(Case)) {
		for _, w := range wraps() {
			docs := wrapDocs(w, draftDocs)
			for _, cfg := range drafts() {
				for _, auto := range autos {
					for _, u := range declaredURLs {
						for _, p := range draftProbes {
							s := w.Schema(`{` + p + `}`)
							emit(&Verdict{Draft: cfg, NoAuto: !auto, Schema: `{` + schemaMember(u) + strings.TrimPrefix(s, "{"), Insts: docs, WF: true})
						}
					}
				}
			}
		}
	})
	for _, remote := range []bool{false, true} {
		prefix, how := "http://d.test", "registered"
		if remote {
			prefix, how = "http://HOST", "fetched"
		}
		c.Section("one document, compiled by reference, "+how, "whole document or a part of it", asc, func(emit func(Case)) {
			for _, cfg := range drafts() {
				for _, auto := range autos {
					for _, u := range schemaURLs {
						for _, p := range draftProbes {
							if strings.Contains(p, `"definitions"`) {
								continue
							}
							doc := `{` + schemaMember(u) + p + `}`
							emit(&Verdict{Draft: cfg, NoAuto: !auto, ByRef: prefix + "/r.json", Docs: map[string]string{prefix + "/r.json": doc}, Insts: draftDocs, WF: true, Remote: remote})
							doc = `{` + schemaMember(u) + `"definitions":{"part":{` + p + `}}}`
							emit(&Verdict{Draft: cfg, NoAuto: !auto, ByRef: prefix + "/r.json#/definitions/part", Docs: map[string]string{prefix + "/r.json": doc}, Insts: draftDocs, WF: true, Remote: remote})
						}
					}
				}
			}
		})
	}
	c.Section("pairs of keyword forms", "all pairs, 4 x 2 x 4 settings", asc, func(emit func(Case)) {
		for _, cfg := range drafts() {
			for _, auto := range autos {
				if !auto && !c.Thorough() {
					continue
				}
				for _, u := range declaredURLs {
					if u != "" && cfg != model.Hybrid && !c.Thorough() {
						continue
					}
					for i, p := range draftProbes {
						for _, r := range draftProbes[:i] {
							if disjoint(p, r) {
								emit(&Verdict{Draft: cfg, NoAuto: !auto, Schema: `{` + schemaMember(u) + p + `,` + r + `}`, Insts: draftDocs, WF: true})
							}
						}
					}
				}
			}
		}
	})
	probes2 := []string{draftProbes[0], draftProbes[2], draftProbes[4], draftProbes[6], draftProbes[10], draftProbes[12], draftProbes[24], draftProbes[27], draftProbes[35], draftProbes[37], draftProbes[38], draftProbes[40]}
	// chains of documents: root -> a -> b, registered or on the web; each has a probe of its own
	for _, remote := range []bool{false, true} {
		how := "registered"
		if remote {
			how = "fetched"
		}
		c.Section("documents of different drafts, "+how, "root -> a -> b, each with its own $schema, reference to the whole or a part, probe in each", asc, func(emit func(Case)) {
			prefix := "http://d.test"
			if remote {
				prefix = "http://HOST"
			}
			for _, cfg := range drafts() {
				for _, auto := range autos {
					for _, ur := range declaredURLs {
						for _, ua := range declaredURLs {
							for _, ub := range declaredURLs {
								ok := true
								dr, _ := effective(cfg, auto, ur)
								da, decA := effective(cfg, auto, ua)
								_, decB := effective(cfg, auto, ub)
								if !decA && dr != cfg {
									ok = false
								}
								if !decB && da != cfg {
									ok = false
								}
								if !ok {
									continue
								}
								for _, frag := range []string{"", "#/definitions/part"} {
									for _, p := range probes2 {
										// probe in root, in a, in b
										mk := func(u, self, next string) string {
											m := schemaMember(u)
											var props []string
											props = append(props, `"v":{`+self+`}`)
											if next != "" {
												props = append(props, `"n":{"$ref":`+q(next)+`}`)
											}
											body := `"properties":{` + join(props...) + `}`
											return `{` + m + body + `,"definitions":{"part":{` + body + `}}}`
										}
										for at := 0; at < 3; at++ {
											sel := func(i int) string {
												if i == at {
													return p
												}
												return ""
											}
											root := mk(ur, sel(0), prefix+"/a.json"+frag)
											a := mk(ua, sel(1), prefix+"/b.json"+frag)
											b := mk(ub, sel(2), "")
											emit(&Verdict{Draft: cfg, NoAuto: !auto, Schema: root, Docs: map[string]string{prefix + "/a.json": a, prefix + "/b.json": b}, Insts: chainDocs(at), WF: true, Remote: remote})
										}
									}
								}
							}
						}
					}
				}
			}
		})
	}
	c.Section("back and forth", "root and a refer to parts of each other, every pair of drafts, either one compiled", both, func(emit func(Case)) {
		for _, cfg := range drafts() {
			for _, ur := range declaredURLs[1:] {
				for _, ua := range declaredURLs[1:] {
					for _, p := range probes2 {
						for _, p2 := range probes2 {
							a := `{` + schemaMember(ua) + `"properties":{"v":{` + p + `},"n":{"$ref":"http://d.test/r.json"}},"definitions":{"q":{` + p2 + `}}}`
							r := `{` + schemaMember(ur) + `"properties":{"v":{` + p2 + `},"n":{"$ref":"http://d.test/a.json"},"w":{"$ref":"http://d.test/a.json#/definitions/q"}},"definitions":{"q":{` + p + `}}}`
							emit(&Verdict{Draft: cfg, Schema: `{` + schemaMember(ur) + `"allOf":[{"$ref":"http://d.test/r.json"},{"properties":{"x":{"$ref":"http://d.test/a.json#/properties/v"},"y":{"$ref":"http://d.test/r.json#/definitions/q"}}}]}`,
								Docs: map[string]string{"http://d.test/a.json": a, "http://d.test/r.json": r}, Insts: backDocs, WF: true})
						}
					}
				}
			}
		}
	})
	nestedSchemaURLs(c)
	draftHistories(c)
	c.Section("the identifier keyword", "id or $id on an embedded schema under every declared draft, found by its identifier or not", both, func(emit func(Case)) {
		for _, cfg := range drafts() {
			for _, u := range declaredURLs {
				if _, dec := effective(cfg, true, u); !dec && cfg != model.Hybrid {
					continue
				}
				for _, kw := range []string{"id", "$id"} {
					for _, id := range []string{"http://d.test/e.json", "#e"} {
						for _, h := range holders {
							if h.min != 0 || strings.HasPrefix(h.ptr, "/unknown") || strings.HasPrefix(h.ptr, "/$defs") || strings.HasPrefix(h.ptr, "/default") {
								continue
							}
							for _, p := range probes2[:6] {
								t := `{` + q(kw) + `:` + q(id) + `,` + p + `}`
								s := `{` + schemaMember(u) + `"definitions":{"h":` + strings.ReplaceAll(h.schema, "%T", t) + `},"properties":{"v":{"$ref":` + q(id) + `}}}`
								emit(&Verdict{Draft: cfg, Schema: s, Insts: chainDocs(0), WF: true, NoDup: true})
							}
						}
					}
				}
			}
		}
		// an identified part of another document
		for _, cfg := range drafts() {
			for _, ur := range declaredURLs[1:] {
				for _, ua := range declaredURLs[1:] {
					for _, kw := range []string{"id", "$id"} {
						for _, ref := range []string{"http://d.test/e.json", "http://d.test/a.json#/definitions/e", "http://d.test/e.json#/properties/z"} {
							for _, p := range probes2 {
								a := `{` + schemaMember(ua) + `"definitions":{"e":{` + q(kw) + `:"http://d.test/e.json",` + p + `,"properties":{"z":{` + p + `}}}}}`
								if strings.Contains(p, `"properties"`) || strings.Contains(p, `id":`) {
									continue
								}
								emit(&Verdict{Draft: cfg, Schema: `{` + schemaMember(ur) + `"properties":{"v":{"$ref":` + q(ref) + `}}}`, Docs: map[string]string{"http://d.test/a.json": a}, Insts: chainDocs(0), WF: true, NoDup: true})
							}
						}
					}
				}
			}
		}
	})
}

var chainDocsCache [3][]*Inst

func chainDocs(at int) []*Inst { return chainDocsCache[at] }

var backDocs []*Inst

func init() {
	checks["C07"] = c07
	for at := range chainDocsCache {
		for _, d := range draftDocs {
			t := `{"v":` + d.T + `}`
			for i := 0; i < at; i++ {
				t = `{"n":` + t + `}`
			}
			chainDocsCache[at] = append(chainDocsCache[at], inst(t))
		}
	}
	for _, d := range draftDocs {
		backDocs = append(backDocs, insts(`{"v":`+d.T+`}`, `{"w":`+d.T+`}`, `{"x":`+d.T+`}`, `{"y":`+d.T+`}`, `{"n":{"v":`+d.T+`}}`, `{"n":{"n":{"v":`+d.T+`}}}`, `{"n":{"n":{"n":{"v":`+d.T+`}}}}`)...)
	}
}
