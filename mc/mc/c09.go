package main

import (
	"fmt"
	"io"
	"net/url"
	"regexp"
	"strings"

	"verifmc/model"

	gjs "github.com/xeipuuv/gojsonschema"
)

// metaFormat judges the formats the meta-schemas use.
func metaFormat(name, s string) bool {
	switch name {
	case "regex":
		_, err := regexp.Compile(s)
		return err == nil
	case "uri", "uri-reference":
		u, err := url.Parse(s)
		return err == nil && !strings.Contains(s, `\`) && (name != "uri" || u.Scheme != "")
	}
	return true
}

var officialParsed = map[string]*model.V{}

func officialDoc(d model.Draft, enum string) *model.V {
	k := d.String() + enum
	parsedMu.Lock()
	defer parsedMu.Unlock()
	if officialParsed[k] == nil {
		t := strings.Replace(officialMeta[d], `"ENUM"`, enum, 1)
		if d == model.D6 && enum == strictEnum { // older revision
			t = strings.Replace(t, `,"propertyNames":{"format":"regex"}`, "", 1)
		}
		officialParsed[k] = model.MustParse(t)
	}
	return officialParsed[k]
}

// metaVerdict tells whether the schema conforms to the meta-schema that applies (Unspecified where revisions differ).
func metaVerdict(cfg model.Draft, auto bool, custom map[string]string, schema *model.V) model.Tri {
	r := -1
	for _, enum := range []string{strictEnum, `{"type":"array"}`} {
		w := &model.World{Draft: cfg, AutoDetect: auto, Docs: map[string]*model.V{}, RootURL: "none:", Format: metaFormat}
		for _, d := range []model.Draft{model.D4, model.D6, model.D7} {
			w.Docs[model.MetaURL(d)] = officialDoc(d, enum)
		}
		for u, t := range custom {
			w.Docs[u] = parse(t)
		}
		use := ""
		if auto && schema.K == model.Obj {
			if s, ok := schema.M["$schema"]; ok {
				if s.K != model.Str {
					return model.Reject
				}
				use = s.S
			}
		}
		if use == "" {
			if cfg == model.Hybrid {
				return model.Accept
			}
			use = model.MetaURL(cfg)
		}
		u, err := url.Parse(use)
		if err != nil {
			return model.Reject
		}
		root, err := w.Lookup(u)
		if err != nil {
			return model.Reject
		}
		v := 1
		if w.ValidAt(root, schema) {
			v = 0
		}
		if r >= 0 && r != v {
			return model.Unspecified
		}
		r = v
	}
	return model.Tri(r)
}

// MetaCase hands one schema to a loader with meta-schema validation switched on.
type MetaCase struct {
	Draft  model.Draft       `json:"draft"`
	NoAuto bool              `json:"autodetect_off,omitempty"`
	Custom map[string]string `json:"meta_schemas,omitempty"`
	Remote bool              `json:"meta_schemas_on_the_web,omitempty"`
	Schema string            `json:"schema"`
	Via    string            `json:"via"` // compile, add, adds
}

func init() {
	kinds["meta"] = func() Case { return &MetaCase{} }
	kinds["meta-history"] = func() Case { return &MetaHist{} }
	checks["C09"] = c09
}

// Kind names the case type.
func (c *MetaCase) Kind() string { return "meta" }

func (c *MetaCase) do(validate bool) (*gjs.Schema, *gjs.SchemaLoader, error) {
	sl := gjs.NewSchemaLoader()
	sl.Draft = libDraft(c.Draft)
	sl.AutoDetect = !c.NoAuto
	if !c.Remote {
		for _, u := range sortedKeys(c.Custom) {
			if err := sl.AddSchema(u, gjs.NewStringLoader(c.Custom[u])); err != nil {
				return nil, sl, err
			}
		}
	}
	sl.Validate = validate
	l := gjs.NewStringLoader(c.Schema)
	switch c.Via {
	case "add":
		return nil, sl, sl.AddSchema("http://d.test/s.json", l)
	case "adds":
		return nil, sl, sl.AddSchemas(l)
	}
	if u, ok := strings.CutPrefix(c.Via, "add "); ok {
		return nil, sl, sl.AddSchema(u, l)
	}
	if call, kind, ok := strings.Cut(c.Via, ":"); ok {
		l = sharedLoader(c.Schema, kind)
		fs := &memFS{files: map[string]string{"/x/s.json": c.Schema}}
		switch kind {
		case "file":
			l = gjs.NewReferenceLoaderFileSystem("file:///x/s.json", fs)
		case "part":
			fs.files["/x/s.json"] = `{"unknown":{"s":` + c.Schema + `}}`
			l = gjs.NewReferenceLoaderFileSystem("file:///x/s.json#/unknown/s", fs)
		case "registered":
			sl.Validate = false
			if err := sl.AddSchema("http://d.test/s.json", l); err != nil {
				return nil, sl, err
			}
			sl.Validate = validate
			l = gjs.NewReferenceLoader("http://d.test/s.json")
		case "reader":
			r, w := gjs.NewReaderLoader(strings.NewReader(c.Schema))
			if _, err := io.ReadAll(w); err != nil {
				panic("harness: " + err.Error())
			}
			l = r
		}
		switch call {
		case "add":
			return nil, sl, sl.AddSchema("http://d.test/other.json", l)
		case "adds":
			return nil, sl, sl.AddSchemas(l)
		}
	}
	s, err := sl.Compile(l)
	return s, sl, err
}

// Run compares with the model and with the same call without validation.
func (c *MetaCase) Run(st *Stat) *Fail {
	if c.Remote {
		host := <-hosts
		h := web.host(host)
		defer func() { web.drop(host); hosts <- host }()
		n := *c
		n.Custom = map[string]string{}
		for u, t := range c.Custom {
			u, t = strings.ReplaceAll(u, "HOST", host), strings.ReplaceAll(t, "HOST", host)
			n.Custom[u] = t
			h.pages[strings.TrimPrefix(u, "http://"+host)] = &webPage{Status: 200, Body: t}
		}
		n.Schema = strings.ReplaceAll(c.Schema, "HOST", host)
		return n.run(st)
	}
	return c.run(st)
}

func (c *MetaCase) run(st *Stat) *Fail {
	st.States++
	st.Traces++
	v := model.MustParse(c.Schema)
	want := metaVerdict(c.Draft, !c.NoAuto, c.Custom, v)
	st.outcome(c.Via + ": meta-schema says " + want.String())
	off, _, offErr := c.do(false)
	on, sl, err := c.do(true)
	if !sl.Validate {
		return failf("%s of %s (%v) switches meta-schema validation off", c.Via, c.Schema, c.Draft)
	}
	if on != nil && err != nil {
		return failf("%s of %s returns a schema and an error", c.Via, c.Schema)
	}
	if want == model.Reject && err == nil {
		return failf("%s with meta-schema validation accepts %s (%v, autodetect %v), which violates its meta-schema", c.Via, c.Schema, c.Draft, !c.NoAuto)
	}
	if want == model.Accept && offErr == nil && err != nil {
		return failf("%s with meta-schema validation rejects %s (%v, autodetect %v), which conforms to its meta-schema and compiles without: %v", c.Via, c.Schema, c.Draft, !c.NoAuto, err)
	}
	if offErr != nil && err == nil {
		return failf("%s of %s (%v) succeeds with meta-schema validation and fails without: %v", c.Via, c.Schema, c.Draft, offErr)
	}
	if on != nil && off != nil {
		for _, d := range wfDocs {
			a, e1 := on.Validate(gjs.NewRawLoader(d.V.Go()))
			b, e2 := off.Validate(gjs.NewRawLoader(d.V.Go()))
			if e1 != nil || e2 != nil || a.Valid() != b.Valid() {
				return failf("%s (%v): document %s is judged differently with meta-schema validation enabled", c.Schema, c.Draft, d.T)
			}
		}
	}
	return nil
}

// MetaHist is a history of calls on one loader with validation enabled.
type MetaHist struct {
	Draft model.Draft `json:"draft"`
	Ops   []string    `json:"calls"`
}

// Kind names the case type.
func (c *MetaHist) Kind() string { return "meta-history" }

const d7 = `"$schema":"http://json-schema.org/draft-07/schema#"`
const d4 = `"$schema":"http://json-schema.org/draft-04/schema#"`

// the documents of histories and whether they conform to their meta-schema and compile
var metaDocs = []struct {
	name, text string
	ok         bool
}{
	{"good7", `{` + d7 + `,"type":"string"}`, true},
	{"good4", `{` + d4 + `,"minimum":1,"exclusiveMinimum":true}`, true},
	{"bad7", `{` + d7 + `,"type":"string","examples":5}`, false},
	{"bad4", `{` + d4 + `,"exclusiveMinimum":true}`, false},
	{"custombad", `{"$schema":"http://HOST/meta.json","type":"string"}`, false},
	{"customgood", `{"$schema":"http://HOST/meta.json","type":"string","title":"t"}`, true},
	{"custom2bad", `{"$schema":"http://HOST/meta2.json","type":"string","title":"t"}`, false},
	{"custom2good", `{"$schema":"http://HOST/meta2.json","type":"string","description":"t","examples":5}`, true},
	{"nometa", `{"$schema":"http://HOST/nothing.json","type":"string"}`, false},
	{"badmeta", `{"$schema":"http://HOST/badmeta.json","type":"string"}`, false},
	{"notjson", `{"type":`, false},
}

var metaHistOps = func() []string {
	var r []string
	for _, d := range metaDocs {
		r = append(r, "add "+d.name)
		if strings.HasSuffix(d.name, "7") || strings.HasSuffix(d.name, "4") || d.name == "nometa" {
			r = append(r, "compile "+d.name)
		}
	}
	return append(r, "adds good7 bad7", "adds good4", "file good", "file bad", "addref good7", "addref bad7")
}()

// Run checks that every call answers as it does on a fresh loader.
func (c *MetaHist) Run(st *Stat) *Fail {
	host := <-hosts
	h := web.host(host)
	defer func() { web.drop(host); hosts <- host }()
	sub := func(s string) string { return strings.ReplaceAll(s, "HOST", host) }
	h.pages["/meta.json"] = &webPage{Status: 200, Body: `{` + d7 + `,"required":["title"]}`}
	h.pages["/meta2.json"] = &webPage{Status: 200, Body: `{` + d4 + `,"required":["description"]}`}
	h.pages["/badmeta.json"] = &webPage{Status: 200, Body: `{"type":5}`}
	doc := map[string]string{}
	ok := map[string]bool{}
	for _, d := range metaDocs {
		doc[d.name], ok[d.name] = sub(d.text), d.ok
	}
	st.States++
	sl := gjs.NewSchemaLoader()
	sl.Validate = true
	sl.Draft = libDraft(c.Draft)
	anon := 0
	for i, op := range c.Ops {
		st.Transitions++
		f := strings.Fields(op)
		at := fmt.Sprintf("call %d of %v (%v)", i+1, c.Ops, c.Draft)
		u := fmt.Sprintf("http://%s/doc%d.json", host, i)
		fetched := len(h.log)
		var err error
		var s *gjs.Schema
		want := ok[f[1]]
		switch f[0] {
		case "add":
			err = sl.AddSchema(u, gjs.NewStringLoader(doc[f[1]]))
		case "addref": // register, then compile what was (or was not) registered
			err = sl.AddSchema(u, gjs.NewStringLoader(doc[f[1]]))
			if (err == nil) != want {
				return failf("%s: AddSchema: error %v, expected success: %v", at, err, want)
			}
			s, err = sl.Compile(gjs.NewReferenceLoader(u))
		case "adds":
			var ls []gjs.JSONLoader
			want = true
			for _, d := range f[1:] {
				ls = append(ls, gjs.NewStringLoader(doc[d]))
				want = want && ok[d]
			}
			err = sl.AddSchemas(ls...)
		case "compile":
			if anon++; anon > 1 {
				return nil
			}
			s, err = sl.Compile(gjs.NewStringLoader(doc[f[1]]))
		case "file":
			want = f[1] == "good"
			extra := ""
			if !want {
				extra = `"examples":7,`
			}
			dir := fmt.Sprintf("/%s-%d", host, i)
			fs := &memFS{files: map[string]string{dir + "/r.json": `{` + d7 + `,` + extra + `"properties":{"a":{"$ref":"sub/a.json#/definitions/x"}}}`, dir + "/sub/a.json": `{"definitions":{"x":{"$ref":"../b.json"}}}`, dir + "/b.json": `{"type":"string"}`}}
			s, err = sl.Compile(gjs.NewReferenceLoaderFileSystem("file://"+dir+"/r.json", fs))
			if fs.opened != fs.closed {
				return failf("%s: %d files opened, %d closed", at, fs.opened, fs.closed)
			}
			if want && err == nil {
				for _, p := range []struct {
					doc string
					ok  bool
				}{{`{"a":"x"}`, true}, {`{"a":1}`, false}} {
					res, verr := s.Validate(gjs.NewStringLoader(p.doc))
					if verr != nil || res.Valid() != p.ok {
						return failf("%s: document %s: %v %v, expected valid=%v", at, p.doc, res, verr, p.ok)
					}
				}
			}
		}
		st.Traces++
		if !sl.Validate {
			return failf("%s: meta-schema validation is off afterwards", at)
		}
		if (err == nil) != want {
			return failf("%s: error %v, expected success: %v", at, err, want)
		}
		if err != nil && s != nil {
			return failf("%s: schema and error", at)
		}
		for _, p := range h.log[fetched:] {
			if p != "/meta.json" && p != "/meta2.json" && p != "/nothing.json" && p != "/badmeta.json" && !(f[0] == "addref" && !want) {
				return failf("%s: fetches %s", at, p)
			}
		}
	}
	return nil
}

func c09(c *Ctx) {
	c.Assume = append(specAssume, "the meta-schemas are the official ones; where their revisions differ (empty or duplicate enum in draft-06 and draft-07) either answer is accepted", "regular expressions are RE2")
	c.Rule = "every schema of the keyword x value x position space through Compile, AddSchema and AddSchemas with validation enabled: it must fail exactly if the model finds it in violation of its meta-schema or the call fails without validation; every history of calls up to the bound"
	vias := []string{"compile", "add", "adds"}
	c.Section("keyword x value", fmt.Sprintf("%d keywords x %d values x 3 calls x configured or declared draft", len(allKeywords), len(keywordValues)), asc, func(emit func(Case)) {
		for _, via := range vias {
			for _, d := range drafts() {
				for _, k := range allKeywords {
					for _, v := range keywordValues {
						if k == "$schema" && d != model.Hybrid {
							continue
						}
						emit(&MetaCase{Draft: d, Schema: `{` + q(k) + `:` + v + `}`, Via: via})
						if d != model.Hybrid && k != "$schema" {
							emit(&MetaCase{Draft: model.Hybrid, Schema: `{` + declare(d) + q(k) + `:` + v + `}`, Via: via})
						}
					}
				}
				for _, v := range keywordValues {
					emit(&MetaCase{Draft: d, Schema: v, Via: via})
				}
			}
		}
	})
	c.Section("which meta-schema applies", fmt.Sprintf("4 configured drafts x autodetect x %d $schema values x %d draft-dependent members", len(schemaURLs), len(draftProbes)), asc, func(emit func(Case)) {
		for _, via := range vias {
			for _, d := range drafts() {
				for _, auto := range []bool{true, false} {
					for _, u := range schemaURLs {
						for _, p := range draftProbes {
							emit(&MetaCase{Draft: d, NoAuto: !auto, Schema: `{` + schemaMember(u) + p + `}`, Via: via})
						}
					}
				}
			}
		}
	})
	c.Section("names and loaders", "4 drafts, autodetection on and off, declared or configured x 28 draft-dependent members x AddSchema under 14 names, and every call with 7 kinds of loader", asc, func(emit func(Case)) {
		var l []string
		for _, u := range []string{"https://d.test/s.json", "a.json", "/a", "../a/b.json", "a", "?q", "#frag", "http://d.test/s.json#", "http://d.test/s.json#/a", "http://d.test", "file:///x/y.json", "http://json-schema.org/draft-07/other", "HTTP://D.test/é", "x-y:z/w"} {
			l = append(l, "add "+u)
		}
		for _, call := range []string{"compile", "add", "adds"} {
			for _, k := range []string{"bytes", "go", "raw", "file", "part", "registered", "reader"} {
				if k == "part" && call != "compile" || k == "registered" && call != "compile" {
					continue
				}
				l = append(l, call+":"+k)
			}
		}
		for _, via := range l {
			for _, d := range drafts() {
				for _, u := range schemaURLs {
					for _, p := range draftProbes {
						emit(&MetaCase{Draft: d, Schema: `{` + schemaMember(u) + p + `}`, Via: via})
					}
				}
				for _, p := range draftProbes {
					emit(&MetaCase{Draft: d, NoAuto: true, Schema: `{` + p + `}`, Via: via})
				}
			}
		}
	})
	c.Section("keyword x value x position", "33 positions", asc, func(emit func(Case)) {
		for wi, w := range wraps() {
			if strings.HasPrefix(w.Name, "ref") {
				continue
			}
			for _, d := range drafts() {
				if d == model.Hybrid {
					continue
				}
				for ki, k := range allKeywords {
					if k == "$schema" || k == "id" || k == "$id" {
						continue
					}
					for vi, v := range keywordValues {
						if !c.Thorough() && (wi+ki+vi)%4 != 0 {
							continue
						}
						emit(&MetaCase{Draft: d, Schema: w.Schema(`{` + q(k) + `:` + v + `}`), Via: vias[(wi+vi)%2]})
					}
				}
			}
		}
	})
	c.Section("custom meta-schemas", "7 meta-schemas, registered or on the web, x 20 schemas", asc, func(emit func(Case)) {
		metas := []string{`{"required":["title"]}`, `{"properties":{"type":{"enum":["string"]}}}`, `{"not":{}}`, `{"allOf":[{"$ref":"http://json-schema.org/draft-07/schema#"},{"required":["title"]}]}`, `{` + d4 + `,"properties":{"minimum":{"minimum":5,"exclusiveMinimum":true}}}`, `{` + d7 + `,"propertyNames":{"maxLength":7}}`, `{"$ref":"http://json-schema.org/draft-04/schema#/definitions/stringArray"}`, `{"type":5}`, `{"definitions":{"s":{"required":["type"]}},"allOf":[{"$ref":"#/definitions/s"}]}`}
		bodies := append([]string{`"title":"t"`, `"title":"t","type":"string"`, `"type":"string"`, `"type":"integer"`, `"minimum":5`, `"minimum":6`, `"title":"t","minLength":-1`, `"title":"t","examples":3`, `"title":"t","$comment":3`}, draftProbes[:20]...)
		for _, via := range vias {
			for _, remote := range []bool{false, true} {
				host := "http://d.test"
				if remote {
					host = "http://HOST"
				}
				for _, d := range drafts() {
					for _, auto := range []bool{true, false} {
						for _, m := range metas {
							for _, b := range bodies {
								for _, frag := range []string{"", "#"} {
									emit(&MetaCase{Draft: d, NoAuto: !auto, Custom: map[string]string{host + "/meta.json": m}, Remote: remote, Schema: `{"$schema":"` + host + `/meta.json` + frag + `",` + b + `}`, Via: via})
								}
							}
						}
					}
				}
			}
		}
	})
	n := c.Pick(3, 4)
	c.Section("histories", fmt.Sprintf("%d calls, sequences of length <= %d, hybrid and draft-06", len(metaHistOps), n), asc, func(emit func(Case)) {
		for _, d := range []model.Draft{model.Hybrid, model.D6} {
			for k := 1; k <= n; k++ {
				tuples(metaHistOps, k, func(t []string) { emit(&MetaHist{Draft: d, Ops: append([]string{}, t...)}) })
			}
		}
	})
	few := []string{"add good7", "add bad4", "add custombad", "add nometa", "add badmeta", "compile bad7", "compile good4", "adds good7 bad7", "file good", "addref bad7", "add notjson"}
	c.Section("longer histories", fmt.Sprintf("%d calls, sequences of length %d", len(few), n+1), asc, func(emit func(Case)) {
		tuples(few, n+1, func(t []string) { emit(&MetaHist{Draft: model.Hybrid, Ops: append([]string{}, t...)}) })
	})
	largeForms(c)
}
