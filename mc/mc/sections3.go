package main

import (
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"strings"

	"verifmc/model"

	gjs "github.com/xeipuuv/gojsonschema"
)

// ---- C12: the caller's values

// Untouched hands in a schema value and document values and compares them with what they were.
type Untouched struct {
	Draft  model.Draft `json:"draft"`
	Schema string      `json:"schema"`
	Insts  []*Inst     `json:"documents"`
	Via    string      `json:"via"` // raw, registered, validate
}

func init() { kinds["untouched"] = func() Case { return &Untouched{} } }

// Kind names the case type.
func (c *Untouched) Kind() string { return "untouched" }

// Run judges it.
func (c *Untouched) Run(st *Stat) *Fail {
	st.States++
	src, was := schemaValue(c.Schema), schemaValue(c.Schema)
	var s *gjs.Schema
	var err error
	sl := gjs.NewSchemaLoader()
	sl.Draft = libDraft(c.Draft)
	switch c.Via {
	case "raw":
		s, err = sl.Compile(gjs.NewRawLoader(src))
	case "registered":
		if err = sl.AddSchema("http://u.test/s.json", gjs.NewRawLoader(src)); err == nil {
			s, err = sl.Compile(gjs.NewReferenceLoader("http://u.test/s.json"))
		}
	case "meta-validated":
		sl.Validate = true
		s, err = sl.Compile(gjs.NewRawLoader(src))
	}
	st.Transitions++
	if !reflect.DeepEqual(src, was) {
		return failf("compiling (%s) changes the schema value of the caller from %s to %v", c.Via, c.Schema, src)
	}
	if err != nil {
		st.outcome("rejected")
		return nil
	}
	for _, in := range c.Insts {
		st.Traces++
		st.Transitions++
		doc, docWas := in.V.Go(), in.V.Go()
		res, err := s.Validate(gjs.NewRawLoader(doc))
		if err != nil {
			return failf("validating %s against %s: %v", in.T, c.Schema, err)
		}
		if !reflect.DeepEqual(doc, docWas) {
			return failf("validating by %s changes the document of the caller from %s to %v", c.Schema, in.T, doc)
		}
		obs := observe(res, nil)
		if !reflect.DeepEqual(doc, docWas) {
			return failf("printing the errors of %s by %s changes the document to %v", in.T, c.Schema, doc)
		}
		if again := observe(s.Validate(gjs.NewRawLoader(doc))); again != obs {
			return failf("validating %s by %s a second time gives %s, first %s", in.T, c.Schema, again, obs)
		}
		st.outcome(fmt.Sprint("valid ", res.Valid()))
	}
	if !reflect.DeepEqual(src, was) {
		return failf("validating changes the schema value of the caller (%s) from %s to %v", c.Via, c.Schema, src)
	}
	return nil
}

func callersValues(c *Ctx) {
	texts := append(append([]string{}, poolTexts...), "-0.0", "1e2", "100", "1E2", "1.50", `"2020-01-01"`, `" a "`, `[3,1,2]`, `["b","a","b"]`, `[null,[null]]`, `{"p":-0.0,"q":[-0.0,1.0]}`, `{"b":{"d":1,"c":-0.0},"a":null}`, `{"k":null,"xy":1,"r":{}}`)
	c.Section("values of the caller", fmt.Sprintf("every keyword form and malformed form x 33 positions x %d documents x 3 ways to hand the schema in, all values compared before and after", len(texts)), asc, func(emit func(Case)) {
		docs := insts(texts...)
		for _, d := range drafts() {
			for _, w := range wraps() {
				if w.Min > d {
					continue
				}
				ds := wrapDocs(w, docs)
				var forms []string
				forms = append(forms, keywordForms(d)...)
				forms = append(forms, badMembers...)
				forms = append(forms, `"default":1.0`, `"default":{"a":-0.0}`, `"enum":[-0.0,1.50,[1e2]]`, `"examples":[1.0]`, `"required":["b","a"]`, `"type":["string","null"]`, `"title":" x "`)
				for _, m := range forms {
					for _, via := range []string{"raw", "registered", "meta-validated"} {
						l := ds
						if via != "raw" {
							l = nil
						}
						if via != "raw" && d == model.Hybrid {
							continue
						}
						if d != model.D7 && d != model.Hybrid && len(l) > 0 && !c.Thorough() {
							l = nil
						}
						emit(&Untouched{d, w.Schema(`{` + m + `}`), l, via})
					}
				}
			}
		}
	})
}

// ---- C07: $schema below the root

func nestedSchemaURLs(c *Ctx) {
	c.Section("$schema below the root", "a $schema member (every spelling) in a schema at each of 33 positions and in definitions compiled by reference: the draft of the document stays in force", asc, func(emit func(Case)) {
		for _, w := range wraps() {
			docs := wrapDocs(w, draftDocs)
			for _, cfg := range drafts() {
				for _, auto := range []bool{true, false} {
					for _, u := range declaredURLs {
						for _, in := range schemaURLs[1:] {
							if w.Name == "root" {
								continue
							}
							if !c.Thorough() && in != schemaURLs[1] && in != schemaURLs[5] && in != schemaURLs[10] {
								continue
							}
							for i, p := range draftProbes {
								if strings.Contains(p, `id":`) || !c.Thorough() && i%3 != 0 && !strings.Contains(w.Name, "properties") {
									continue
								}
								s := w.Schema(`{` + schemaMember(in) + p + `}`)
								emit(&Verdict{Draft: cfg, NoAuto: !auto, Schema: `{` + schemaMember(u) + strings.TrimPrefix(s, "{"), Insts: docs, WF: true})
							}
						}
					}
				}
			}
		}
		// below the root of a document that is referenced
		for _, cfg := range drafts() {
			for _, u := range declaredURLs[1:] {
				for _, ua := range declaredURLs[1:] {
					for _, in := range declaredURLs[1:] {
						for _, p := range draftProbes {
							if strings.Contains(p, `id":`) {
								continue
							}
							a := `{` + schemaMember(ua) + `"definitions":{"e":{` + schemaMember(in) + p + `}},"allOf":[{` + schemaMember(in) + p + `}]}`
							for _, frag := range []string{"", "#/definitions/e", "#/allOf/0"} {
								emit(&Verdict{Draft: cfg, Schema: `{` + schemaMember(u) + `"properties":{"v":{"$ref":"http://d.test/a.json` + frag + `"}}}`, Docs: map[string]string{"http://d.test/a.json": a}, Insts: chainDocs(0), WF: true})
							}
						}
					}
				}
			}
		}
	})
}

// ---- C05: identifiers of neighbours

func neighbourIDs(c *Ctx) {
	c.Section("identifiers of neighbours", "an identified schema at each of 21 positions (alone or beside another) next to a $ref at each of 32 positions: it is no base for the reference", both, func(emit func(Case)) {
		docs := insts(`"N0"`, `"R0"`, `"E0"`, `"T0"`, `"P0"`, "1")
		for _, d := range []model.Draft{model.D4, model.D6, model.D7, model.Hybrid} {
			if d == model.D6 && !c.Thorough() {
				continue
			}
			idkw := "$id"
			if d == model.D4 {
				idkw = "id"
			}
			for _, h := range append([]holder{{`{"properties":{"p":%T}}`, "/properties/p", 0}, {`{"patternProperties":{"^x":%T}}`, "/patternProperties/%5Ex", 0}, {`{"items":[%T]}`, "/items/0", 0}, {`{"allOf":[%T]}`, "/allOf/0", 0}}, holders...) {
				if h.min > d || strings.HasPrefix(h.ptr, "/unknown") || strings.HasPrefix(h.ptr, "/$defs") || strings.HasPrefix(h.ptr, "/default") {
					continue
				}
				for _, w := range wraps() {
					if w.Min > d || strings.HasPrefix(w.Name, "ref") || strings.HasPrefix(w.Name, "definitions") || w.Name == "root" {
						continue
					}
					ds := wrapDocs(w, docs)
					for _, root := range []string{"", "http://h.test/root.json"} {
						for _, id := range []string{"http://g.test/e.json", "sub/e.json", "#e"} {
							if root == "" && id == "sub/e.json" {
								continue
							}
							for _, ref := range []string{"#/definitions/t", "t.json", "#n", "e.json#/definitions/t"} {
								e := `{` + q(idkw) + `:` + q(id) + `,"enum":["E0"],"definitions":{"t":{"enum":["P0"]}}}`
								hs := strings.ReplaceAll(h.schema, "%T", e)
								ws := w.Schema(`{"$ref":` + q(ref) + `}`)
								// the two are neighbours in one schema when they use different keywords
								if !disjoint(strings.TrimSuffix(strings.TrimPrefix(hs, "{"), "}"), strings.TrimSuffix(strings.TrimPrefix(ws, "{"), "}")+`,"definitions":{},"$id":"","id":""`) {
									continue
								}
								rid := ""
								if root != "" {
									rid = q(idkw) + ":" + q(root) + ","
								}
								defs := `"definitions":{"t":{"enum":["T0"]},"u":{` + q(idkw) + `:"#n","enum":["N0"]},"v":{` + q(idkw) + `:"http://h.test/t.json","enum":["R0"]}}`
								s := `{` + declare(d) + rid + defs + `,` + strings.TrimSuffix(strings.TrimPrefix(hs, "{"), "}") + `,` + strings.TrimPrefix(ws, "{")
								emit(&Verdict{Draft: d, Schema: s, Insts: ds, MayRef: true, NoDup: true})
							}
						}
					}
				}
			}
		}
	})
}

// ---- C08: lists of up to three elements

func shortLists(c *Ctx) {
	c.Section("lists of up to 3 elements", "all lists over 5 to 7 elements in dependencies (also naming the key), required, type, enum, items and the combinators", both, func(emit func(Case)) {
		for _, d := range drafts() {
			lists := []struct {
				text string
				alph []string
			}{
				{`{"dependencies":{"a":%L}}`, []string{`"a"`, `"b"`, `"c"`, `""`, "5", "null", "{}"}},
				{`{"dependencies":{"b":["a"],"a":%L}}`, []string{`"a"`, `"b"`, "5", "null", `["b"]`}},
				{`{"required":%L}`, []string{`"a"`, `"b"`, `"A"`, `""`, "5", "null", "{}"}},
				{`{"properties":{"a":{},"b":{}},"required":%L}`, []string{`"a"`, `"b"`, "5"}},
				{`{"type":%L}`, []string{`"string"`, `"integer"`, `"number"`, `"null"`, "5", `"any"`, `"String"`}},
				{`{"enum":%L}`, []string{"1", "1.0", `"1"`, "null", `{"a":1}`, `{"a":1.0}`, "[]"}},
				{`{"items":%L}`, []string{"{}", "true", "5", `{"type":5}`, "[]", "null"}},
				{`{"allOf":%L}`, []string{"{}", "true", "5", `{"type":5}`, "[]", "null"}},
				{`{"anyOf":%L}`, []string{"{}", "true", "5", `{"type":5}`, "[]", "null"}},
				{`{"oneOf":%L}`, []string{"{}", "true", "5", `{"type":5}`, "[]", "null"}},
			}
			ds := insts("null", "1", `"string"`, "[]", "[1]", `{"a":1}`, `{"b":1}`, `{"a":1,"b":1}`, `{"a":1,"b":1,"c":1}`, `{"":1}`)
			for _, l := range lists {
				for k := 0; k <= 3; k++ {
					tuples(l.alph, k, func(t []string) {
						emit(&Verdict{Draft: d, Schema: strings.ReplaceAll(l.text, "%L", arr(t...)), Insts: ds, WF: true})
					})
				}
			}
			// objects of up to 3 members
			for _, kw := range []string{"properties", "patternProperties", "definitions", "dependencies"} {
				vals := []string{"{}", "true", "5", `{"type":5}`, "[]", "null", `["a"]`}
				for _, x := range vals {
					for _, y := range vals {
						for _, z := range vals {
							emit(&Verdict{Draft: d, Schema: `{"` + kw + `":{"a":` + x + `,"b":` + y + `,"c":` + z + `}}`, Insts: ds, WF: true})
						}
					}
				}
			}
		}
	})
}

// ---- C02: elements of every type

func elementTypes(c *Ctx) {
	elems := []string{"null", "true", "false", "0", "1", `""`, `"a"`, "[]", "{}"}
	n := c.Pick(4, 5)
	c.Section("elements of every type", fmt.Sprintf("contains, items and uniqueItems x all arrays of at most %d of %d elements", n, len(elems)), asc, func(emit func(Case)) {
		arrays := arraysUpTo(elems, n)
		for _, d := range drafts() {
			if d == model.D6 && !c.Thorough() {
				continue
			}
			var forms []string
			for _, e := range elems {
				forms = append(forms, `"items":{"enum":[`+e+`]}`, `"items":{"not":{"enum":[`+e+`]}}`, `"items":[{},{"enum":[`+e+`]}]`, `"items":[{}],"additionalItems":{"not":{"enum":[`+e+`]}}`)
				if d != model.D4 {
					forms = append(forms, `"contains":{"const":`+e+`}`, `"contains":{"not":{"const":`+e+`}}`)
				}
			}
			for _, t := range []string{"null", "boolean", "integer", "string", "array", "object"} {
				forms = append(forms, `"items":{"type":"`+t+`"}`)
				if d != model.D4 {
					forms = append(forms, `"contains":{"type":"`+t+`"}`, `"contains":{"type":"`+t+`"},"uniqueItems":true`)
				}
			}
			for _, f := range forms {
				batches(arrays, 400, func(b []*Inst) { emit(&Verdict{Draft: d, Schema: `{` + f + `}`, Insts: b}) })
			}
		}
	})
}

// ---- C14: objects as other decoders deliver them

// AnyMaps validates a document some of whose objects are map[interface{}]interface{}.
type AnyMaps struct {
	Draft  model.Draft `json:"draft"`
	Schema string      `json:"schema"`
	Insts  []*Inst     `json:"documents"`
}

func init() { kinds["anymaps"] = func() Case { return &AnyMaps{} } }

// Kind names the case type.
func (c *AnyMaps) Kind() string { return "anymaps" }

// Run judges it.
func (c *AnyMaps) Run(st *Stat) *Fail {
	st.States++
	w := model.NewWorld(c.Draft, model.MustParse(c.Schema))
	sl := gjs.NewSchemaLoader()
	sl.Draft = libDraft(c.Draft)
	s, err := sl.Compile(gjs.NewStringLoader(c.Schema))
	if err != nil {
		return failf("compiling %s: %v", c.Schema, err)
	}
	for _, in := range c.Insts {
		n := countObjects(in.V)
		want := w.Valid(in.V)
		for mask := 1; mask < 1<<n; mask++ {
			st.Traces++
			k := 0
			x, was := otherMaps(in.V, mask, &k), interface{}(nil)
			k = 0
			was = otherMaps(in.V, mask, &k)
			res, err := s.Validate(gjs.NewRawLoader(x))
			if err != nil || res == nil {
				return &Fail{fmt.Sprintf("validating %s (objects %b as map[interface{}]interface{}) by %s: %v %v", in.T, mask, c.Schema, res, err), &AnyMaps{c.Draft, c.Schema, []*Inst{in}}}
			}
			if res.Valid() != want || len(res.Errors()) == 0 != want {
				return &Fail{fmt.Sprintf("document %s (objects %b as map[interface{}]interface{}) by %s: valid=%v, expected %v: %v", in.T, mask, c.Schema, res.Valid(), want, res.Errors()), &AnyMaps{c.Draft, c.Schema, []*Inst{in}}}
			}
			if !reflect.DeepEqual(x, was) {
				return &Fail{fmt.Sprintf("document %s (objects %b as map[interface{}]interface{}) is changed by validating with %s: %v", in.T, mask, c.Schema, x), &AnyMaps{c.Draft, c.Schema, []*Inst{in}}}
			}
			st.outcome(fmt.Sprint("valid ", want))
		}
	}
	return nil
}

func countObjects(v *model.V) int {
	n := 0
	if v.K == model.Obj {
		n = 1
	}
	for _, e := range v.A {
		n += countObjects(e)
	}
	for _, e := range v.M {
		n += countObjects(e)
	}
	return n
}

// otherMaps is the Go value of v in which the objects of the mask are map[interface{}]interface{}.
func otherMaps(v *model.V, mask int, k *int) interface{} {
	switch v.K {
	case model.Arr:
		r := make([]interface{}, len(v.A))
		for i, e := range v.A {
			r[i] = otherMaps(e, mask, k)
		}
		return r
	case model.Obj:
		bit := mask>>*k&1 == 1
		*k++
		r := map[string]interface{}{}
		o := map[interface{}]interface{}{}
		for _, key := range v.Keys {
			e := otherMaps(v.M[key], mask, k)
			r[key], o[key] = e, e
		}
		if bit {
			return o
		}
		return r
	}
	return v.Go()
}

func decodedMaps(c *Ctx) {
	texts := []string{"{}", `{"a":1}`, `{"a":"x"}`, `{"":null}`, `{"a":1,"b":2}`, `{"p":{"a":1}}`, `{"a":{"b":{"c":1}}}`, `{"xy":{},"r":{"p":[]}}`, `[{}]`, `[{"a":1},{"a":1.0}]`, `[{"a":1},{"a":2}]`, `[[{"a":{"a":1}}]]`, `{"a":[{"b":1},{"b":"x"}]}`, `{"k":{"a":null},"o":5}`}
	c.Section("objects as other decoders deliver them", "every keyword form x 33 positions x documents of which every subset of the objects is a map[interface{}]interface{} in the decoded value", asc, func(emit func(Case)) {
		docs := insts(texts...)
		for _, d := range drafts() {
			if !c.Thorough() && d != model.D4 && d != model.D7 {
				continue
			}
			for _, w := range wraps() {
				if w.Min > d || w.StrDoc {
					continue
				}
				ds := wrapDocs(w, docs)
				for _, m := range append(keywordForms(d), `"enum":[{"a":1},{"a":{"b":{"c":1}}}]`, `"uniqueItems":true`, `"required":["a"],"additionalProperties":{"type":"object","required":["a"]}`) {
					emit(&AnyMaps{d, w.Schema(`{` + m + `}`), ds})
				}
			}
		}
	})
}

// ---- C07: the configured draft is changed

// DraftHist is a history of settings and compilations on one loader.
type DraftHist struct {
	Ops    []string `json:"ops"`
	Probe  string   `json:"probe"`
	Remote bool     `json:"remote,omitempty"`
	Insts  []*Inst  `json:"documents"`
}

func init() { kinds["drafthist"] = func() Case { return &DraftHist{} } }

// Kind names the case type.
func (c *DraftHist) Kind() string { return "drafthist" }

func draftHistDocs(prefix, probe string) map[string]string {
	return map[string]string{
		prefix + "/none.json": `{` + probe + `}`,
		prefix + "/d4.json":   `{` + schemaMember(schemaURLs[1]) + probe + `}`,
		prefix + "/d7.json":   `{` + schemaMember(schemaURLs[5]) + probe + `}`,
		prefix + "/both.json": `{"allOf":[{"$ref":"` + prefix + `/none.json"}],"definitions":{"p":{` + probe + `}}}`,
		prefix + "/to4.json":  `{"allOf":[{"$ref":"` + prefix + `/d4.json"},{"$ref":"` + prefix + `/none.json"}]}`,
	}
}

// Run judges it.
func (c *DraftHist) Run(st *Stat) *Fail {
	st.States++
	prefix := "http://d.test"
	if c.Remote {
		host := <-hosts
		h := web.host(host)
		defer func() { web.drop(host); hosts <- host }()
		prefix = "http://" + host
		for u, t := range draftHistDocs(prefix, c.Probe) {
			h.pages[strings.TrimPrefix(u, prefix)] = &webPage{Status: 200, Body: t}
		}
	}
	docs := draftHistDocs(prefix, c.Probe)
	sl := gjs.NewSchemaLoader()
	if !c.Remote {
		for _, u := range sortedKeys(docs) {
			if err := sl.AddSchema(u, gjs.NewStringLoader(docs[u])); err != nil {
				return failf("AddSchema(%s): %v", u, err)
			}
		}
	}
	cfg := model.Hybrid
	for i, op := range c.Ops {
		st.Transitions++
		switch op {
		case "draft-04":
			cfg = model.D4
		case "draft-06":
			cfg = model.D6
		case "draft-07":
			cfg = model.D7
		case "hybrid":
			cfg = model.Hybrid
		}
		sl.Draft = libDraft(cfg)
		if !strings.HasPrefix(op, "compile ") {
			continue
		}
		v := &Verdict{Draft: cfg, ByRef: prefix + "/" + strings.TrimPrefix(op, "compile "), Docs: docs, WF: true}
		w := v.world()
		wf := w.WellFormed()
		if wf == model.Unspecified {
			continue
		}
		s, err := sl.Compile(gjs.NewReferenceLoader(v.ByRef))
		if (err == nil) != (wf == model.Accept) {
			return failf("%q with %s: operation %d: compiling gives %v, expected %v", c.Ops, c.Probe, i+1, err, wf)
		}
		if err != nil {
			st.outcome("rejected")
			continue
		}
		for _, in := range c.Insts {
			st.Traces++
			res, err := s.Validate(gjs.NewRawLoader(in.V.Go()))
			if err != nil || res.Valid() != w.Valid(in.V) {
				return failf("%q with %s: operation %d (configured draft %v), document %s: %v %v, expected valid=%v", c.Ops, c.Probe, i+1, cfg, in.T, res, err, w.Valid(in.V))
			}
		}
		st.outcome("compiled")
	}
	return nil
}

func draftHistories(c *Ctx) {
	n := c.Pick(4, 5)
	ops := []string{"draft-04", "draft-06", "draft-07", "hybrid", "compile none.json", "compile d4.json", "compile d7.json", "compile both.json", "compile to4.json"}
	c.Section("changing the configured draft", fmt.Sprintf("all sequences of up to %d of 4 settings and 5 compilations by reference, on one loader, documents registered or fetched", n), asc, func(emit func(Case)) {
		ds := insts("1", "5", "6", `"a"`, `{"a":1}`, `["a"]`, "[1]", `{"ab":1}`)
		for _, p := range []string{draftProbes[0], draftProbes[2], draftProbes[4], draftProbes[10], draftProbes[12], draftProbes[6]} {
			for k := 2; k <= n; k++ {
				tuples(ops, k, func(t []string) {
					if !strings.HasPrefix(t[k-1], "compile") || k > 3 && !strings.HasPrefix(t[0], "compile") {
						return
					}
					for _, remote := range []bool{false, true} {
						if remote && k > 3 && !c.Thorough() {
							continue
						}
						emit(&DraftHist{append([]string{}, t...), p, remote, ds})
					}
				})
			}
		}
	})
}

// ---- C12: the name of the root

func rootNames(c *Ctx) {
	c.Section("names of the root", "all sequences of up to 3 validations and SetRootSchemaName calls (5 names) on 8 schemas, recursive ones among them: no verdict and no error depends on the name", asc, func(emit func(Case)) {
		docs := insts(`{"a":{"b":{"a":1}},"b":{}}`, `{"a":"s","(root)":1,"":2}`, `[[1],1]`, `1`)
		for _, s := range []string{richSchemas[13], richSchemas[14], `{"properties":{"a":{"$ref":"#"},"(root)":{"type":"string"}},"type":"object"}`, `{"items":{"$ref":"#"},"type":["array","string"]}`, `{"additionalProperties":{"anyOf":[{"$ref":"#"},{"type":"string"}]},"type":"object"}`, richSchemas[1], richSchemas[5], `{"not":{"type":"integer"},"required":["b"]}`} {
			var ops []string
			for i := range docs {
				ops = append(ops, fmt.Sprintf("validate schema 0 document %d", i))
			}
			for _, n := range []string{"", "a", "(root)", "#", "é.x"} {
				ops = append(ops, "name schema 0 "+n)
			}
			for k := 2; k <= 3; k++ {
				tuples(ops, k, func(t []string) {
					if strings.HasPrefix(t[k-1], "validate") {
						emit(&RepeatCase{[]string{s}, docs, append([]string{}, t...)})
					}
				})
			}
		}
	})
}

// sharedReferences (C17): definitions of which each refers twice to the next one, so that there are 2^n
// paths through n definitions, and definitions that all refer to each other.
func sharedReferences(c *Ctx) {
	holders := []string{
		`"properties":{"a":R,"b":R}`,
		`"items":[R,R]`,
		`"items":[R],"additionalItems":R`,
		`"patternProperties":{"^a":R,"^b":R}`,
		`"properties":{"a":R},"additionalProperties":R`,
		`"properties":{"a":{"allOf":[R]},"b":{"not":{"not":R}}}`,
		`"properties":{"a":R},"definitions":{"x":R,"y":{"items":R}}`,
		`"items":R,"additionalProperties":R`,
	}
	docs := raws([]string{"null", "[]", "{}", `{"a":1}`, `[1,1]`, `«{"a":»1«}»`, `«[»1«]»`, `«{"b":»{"a":"x"}«}»`, `«{"a":»true«}»`})
	sizes := []int{1, 2, 3, 4, 8, 16, 24, 32, 40, 60}
	c.Section("shared references", fmt.Sprintf("%d ways of holding two references x (chains of 1 to 60 definitions, each referring twice to the next one; 1 to 16 definitions that all refer to each other) x named by pointer, by location-independent identifier, by base URI, registered, with the meta-schema validated", len(holders)), both, func(emit func(Case)) {
		for _, h := range holders {
			for _, n := range sizes {
				for _, way := range []string{"pointer", "fragment", "url"} {
					for _, ring := range []bool{false, true} {
						name := func(i int) string {
							switch way {
							case "pointer":
								return fmt.Sprintf("#/definitions/d%d", i)
							case "fragment":
								return fmt.Sprintf("#d%d", i)
							}
							return fmt.Sprintf("http://h/d%d", i)
						}
						ref := func(i int) string { return `{"$ref":` + q(name(i)) + `}` }
						var b strings.Builder
						b.WriteString(`{"$schema":"http://json-schema.org/draft-07/schema#",`)
						if way == "url" {
							b.WriteString(`"$id":"http://h/root",`)
						}
						b.WriteString(strings.Replace(h, "R", ref(0), -1))
						if strings.Contains(h, `"definitions"`) {
							if way == "pointer" { // the definitions would collide with the holder's
								continue
							}
							b.WriteString(`,"dependencies":{`)
						} else {
							b.WriteString(`,"definitions":{`)
						}
						for i := 0; i < n; i++ {
							if i > 0 {
								b.WriteString(",")
							}
							fmt.Fprintf(&b, `"d%d":{`, i)
							if way != "pointer" {
								fmt.Fprintf(&b, `"$id":%s,`, q(name(i)))
							}
							if i < n-1 {
								b.WriteString(strings.Replace(h, "R", ref(i+1), -1))
							} else if ring {
								b.WriteString(strings.Replace(h, "R", ref(0), -1))
							} else {
								b.WriteString(`"type":"integer"`)
							}
							b.WriteString("}")
						}
						b.WriteString("}}")
						emit(&Hostile{Draft: model.D7, Schema: Raw(b.String()), Repeat: n, Docs: docs})
						if way == "pointer" {
							emit(&Hostile{Draft: model.D7, Schema: Raw(b.String()), Repeat: n, Docs: docs[:4], URL: "http://h/reg"})
							emit(&Hostile{Draft: model.D7, Schema: Raw(b.String()), Repeat: n, Docs: docs[:4], Validate: true})
						}
					}
				}
			}
		}
		for _, n := range []int{2, 3, 4, 8, 12, 16} {
			for _, kw := range []string{"properties", "patternProperties"} {
				var b strings.Builder
				b.WriteString(`{"properties":{"r":{"$ref":"#/definitions/d0"}},"definitions":{`)
				for i := 0; i < n; i++ {
					if i > 0 {
						b.WriteString(",")
					}
					fmt.Fprintf(&b, `"d%d":{%q:{`, i, kw)
					for j := 0; j < n; j++ {
						if j > 0 {
							b.WriteString(",")
						}
						fmt.Fprintf(&b, `"p%d$":{"$ref":"#/definitions/d%d"}`, j, j)
					}
					b.WriteString("}}")
				}
				b.WriteString("}}")
				emit(&Hostile{Draft: model.D7, Schema: Raw(b.String()), Repeat: n, Docs: raws([]string{"{}", `{"r":{"p1$":{"p0$":1}}}`, `{"r":«{"p1":»1«}»}`})})
			}
		}
	})
}

// ---- C01, C03: expressions that look alike

var similarPatterns = []string{"^ab", "^ab ", " ^ab", "^ab\n", "^AB", "(?i)^ab", "(?m)^ab", "(?s)^a.b", "^a.b", `^a\.b`, "^ab$", `^ab\z`, `^ab\$`, "ab", " ab", "ab ", "(ab)", "^(ab)", "^(?:ab)$", "a b", "a  b", "a\tb", "^ab|", "|^ab", "^ab|x", "[a]b", "[ab]", `\x61b`, "^ab+", "^ab*", "^ab?", "^ab??", "^ab{1}", "^ab{2}", `\bab`, `ab\b`, "^äb", "^ÄB", "é", "e\u0301", "/ab/", "/ab/i", "^ab#", "^ab//", "", " ", "^", "$", "^$", "^ $", ".*", ".+", ".", "^.*$", "a", "A", "b", "^b", "^a", "a$"}

var similarStrings = []string{"", " ", "  ", "a", "A", "b", "ab", "AB", "Ab", "ab ", " ab", "xab", "abx", "abb", "a.b", "axb", "a\nb", "ab\n", "\nab", "x\nab", "a b", "a  b", "a\tb", "äb", "ÄB", "é", "e\u0301", "/ab/", "ab#", "ab//", "ab$", "^ab", "ba", "x"}

func similarPatternsObjects(c *Ctx) {
	c.Section("patterns that look alike", fmt.Sprintf("all pairs of %d expressions in one patternProperties x objects over %d names", len(similarPatterns), len(similarStrings)), both, func(emit func(Case)) {
		var ds []*Inst
		for _, k := range similarStrings {
			ds = append(ds, inst("{"+q(k)+":1}"), inst("{"+q(k)+`:"x"}`), inst("{"+q(k)+`:null}`))
		}
		var all []string
		for i, k := range similarStrings {
			all = append(all, q(k)+":"+[]string{"1", `"x"`}[i%2])
		}
		ds = append(ds, inst("{"+strings.Join(all, ",")+"}"))
		for i, a := range similarPatterns {
			for _, b := range similarPatterns[:i] {
				emit(&Verdict{Draft: model.D7, Schema: `{"patternProperties":{` + q(a) + `:{"type":["integer","null"]},` + q(b) + `:{"type":["string","null"]}},"additionalProperties":{"enum":[null,1]}}`, Insts: ds})
				if c.Thorough() {
					emit(&Verdict{Draft: model.D4, Schema: `{"properties":{` + q(a) + `:{"type":"integer"}},"patternProperties":{` + q(a) + `:{"type":["integer","null"]}},"additionalProperties":{"patternProperties":{` + q(b) + `:{"type":["string","null"]}},"additionalProperties":false}}`, Insts: ds})
				}
			}
		}
	})
}

func similarPatternsValues(c *Ctx) {
	c.Section("patterns that look alike", fmt.Sprintf("all pairs of %d expressions in one schema x %d strings", len(similarPatterns), len(similarStrings)), asc, func(emit func(Case)) {
		var ds []*Inst
		for _, k := range similarStrings {
			ds = append(ds, inst(q(k)))
		}
		for _, a := range similarPatterns {
			for _, b := range similarPatterns {
				if a != b {
					emit(&Verdict{Draft: model.D7, Schema: `{"pattern":` + q(a) + `,"not":{"pattern":` + q(b) + `}}`, Insts: ds})
				}
			}
		}
	})
}

// ---- C14: references that are no URLs

// BadURL uses a text that is not a URL wherever the library takes one.
type BadURL struct {
	Source string `json:"source"`
}

func init() { kinds["bad-url"] = func() Case { return &BadURL{} } }

// Kind names the case type.
func (c *BadURL) Kind() string { return "bad-url" }

// Run judges it.
func (c *BadURL) Run(st *Stat) *Fail {
	st.States++
	if _, err := url.Parse(c.Source); err == nil {
		panic("harness: a URL")
	}
	fs := &failFS{}
	for _, mk := range []func() gjs.JSONLoader{
		func() gjs.JSONLoader { return gjs.NewReferenceLoader(c.Source) },
		func() gjs.JSONLoader { return gjs.NewReferenceLoaderFileSystem(c.Source, fs) },
		func() gjs.JSONLoader { return gjs.DefaultJSONLoaderFactory{}.New(c.Source) },
		func() gjs.JSONLoader { return mkFactory(fs).New(c.Source) },
	} {
		st.Traces += 9
		if v, err := mk().LoadJSON(); err == nil || v != nil {
			return failf("loading the reference %q gives %v and the error %v", c.Source, v, err)
		}
		s, err := gjs.NewSchema(gjs.NewStringLoader("{}"))
		if err != nil {
			return failf("compiling {}: %v", err)
		}
		if r, err := s.Validate(mk()); err == nil || r != nil {
			return failf("validating the document %q gives %v and the error %v", c.Source, r, err)
		}
		if r, err := gjs.Validate(gjs.NewStringLoader("{}"), mk()); err == nil || r != nil {
			return failf("Validate with the document %q gives %v and the error %v", c.Source, r, err)
		}
		if r, err := gjs.Validate(mk(), gjs.NewStringLoader("{}")); err == nil || r != nil {
			return failf("Validate with the schema %q gives %v and the error %v", c.Source, r, err)
		}
		if s, err := gjs.NewSchema(mk()); err == nil || s != nil {
			return failf("NewSchema of the reference %q gives %v and the error %v", c.Source, s, err)
		}
		sl := gjs.NewSchemaLoader()
		if err := sl.AddSchema("http://ok.test/a", mk()); err == nil {
			return failf("AddSchema of the reference %q gives no error", c.Source)
		}
		if err := sl.AddSchemas(mk()); err == nil {
			return failf("AddSchemas of the reference %q gives no error", c.Source)
		}
		if err := sl.AddSchema(c.Source, gjs.NewStringLoader("{}")); err == nil {
			return failf("AddSchema under the URL %q gives no error", c.Source)
		}
		if s, err := sl.Compile(gjs.NewStringLoader(`{"properties":{"a":{"$ref":` + q(c.Source) + `}}}`)); err == nil || s != nil {
			return failf("compiling a $ref to %q gives %v and the error %v", c.Source, s, err)
		}
	}
	if fs.n > 0 {
		return failf("the reference %q opens a file", c.Source)
	}
	st.outcome("refused")
	return nil
}

// failFS counts what is opened.
type failFS struct{ n int }

// Open fails.
func (f *failFS) Open(string) (http.File, error) {
	f.n++
	return nil, fmt.Errorf("no such file")
}

func mkFactory(fs http.FileSystem) gjs.JSONLoaderFactory {
	return gjs.NewReferenceLoaderFileSystem("x", fs).LoaderFactory()
}

func badURLs(c *Ctx) {
	n := c.Pick(4, 5)
	c.Section("references that are no URLs", fmt.Sprintf("all texts of at most %d symbols that net/url cannot parse, after 5 prefixes, as document, schema, registered document, registered URL and $ref, with every reference loader", n), asc, func(emit func(Case)) {
		for _, p := range []string{"", "file:///", "file://", "http://h/", "#"} {
			for _, s := range stringsUpTo([]string{"%", "z", ":", "[", "/", "\x00", " ", "#", "1"}, n) {
				if _, err := url.Parse(p + s); err != nil {
					emit(&BadURL{p + s})
				}
			}
		}
	})
}
