package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"verifmc/model"

	gjs "github.com/xeipuuv/gojsonschema"
)

// upTo are the sizes below a limit.
func upTo(c *Ctx, limit int) []int {
	var r []int
	for _, n := range sizes(c) {
		if n <= limit {
			r = append(r, n)
		}
	}
	return r
}

// largeRefs: references in large schemas (C05).
func largeRefs(c *Ctx) {
	ns := upTo(c, c.Pick(300, 2000))
	c.Section("sizes: references", fmt.Sprintf("%d sizes up to %d: chains of references, deep pointers, lists and objects of targets, nested identifiers, recursion by the document", len(ns), ns[len(ns)-1]), both, func(emit func(Case)) {
		for _, n := range ns {
			for _, d := range sizeDrafts(n) {
				id := "$id"
				if d == model.D4 {
					id = "id"
				}
				f := func(i int) string { return fmt.Sprintf(`{"enum":["F%d"]}`, i) }
				var docs []*Inst
				for _, p := range append(spots(n), n) {
					docs = append(docs, inst(fmt.Sprintf(`"F%d"`, p)))
				}
				docs = append(docs, inst("1"))
				// a chain of n references
				chain := rep(n+1, func(i int) string { return fmt.Sprintf(`"d%d":{"$ref":"#/definitions/d%d"}`, i, i+1) }, map[int]string{n: fmt.Sprintf(`"d%d":{"enum":["F%d"]}`, n, n)})
				for _, p := range spots(n) {
					emit(&Verdict{Draft: d, Schema: `{"definitions":` + obj(chain...) + `,"allOf":[{"$ref":"#/definitions/d` + fmt.Sprint(p) + `"}]}`, Insts: docs, MayRef: true})
				}
				// n targets in an object, a list, with identifiers, with names
				byKey := rep(n, func(i int) string { return fmt.Sprintf(`"d%d":`, i) + f(i) }, nil)
				list := rep(n, f, nil)
				byID := rep(n, func(i int) string {
					return fmt.Sprintf(`"d%d":{%q:"http://x.test/i%d.json","enum":["F%d"]}`, i, id, i, i)
				}, nil)
				byName := rep(n, func(i int) string { return fmt.Sprintf(`"d%d":{%q:"#n%d","enum":["F%d"]}`, i, id, i, i) }, nil)
				for _, p := range append(spots(n), n) {
					ref := func(s string) string {
						return fmt.Sprintf(`"allOf":[{"$ref":%q}]}`, strings.ReplaceAll(s, "#N", fmt.Sprint(p)))
					}
					emit(&Verdict{Draft: d, Schema: `{"definitions":` + obj(byKey...) + `,` + ref("#/definitions/d#N"), Insts: docs, MayRef: true})
					emit(&Verdict{Draft: d, Schema: `{"definitions":{"l":{"anyOf":` + arr(list...) + `}},` + ref("#/definitions/l/anyOf/#N"), Insts: docs, MayRef: true})
					emit(&Verdict{Draft: d, Schema: `{"definitions":{"l":{"items":` + arr(list...) + `}},` + ref("#/definitions/l/items/#N"), Insts: docs, MayRef: true})
					if p < n {
						emit(&Verdict{Draft: d, Schema: `{` + declare(d) + `"definitions":` + obj(byID...) + `,` + ref("http://x.test/i#N.json"), Insts: docs, MayRef: true})
						emit(&Verdict{Draft: d, Schema: `{` + declare(d) + `"definitions":` + obj(byName...) + `,` + ref("##N"), Insts: docs, MayRef: true})
						emit(&Verdict{Draft: d, Schema: `{` + declare(d) + `"definitions":` + obj(byName...) + `,` + ref("#n#N"), Insts: docs, MayRef: true})
					}
				}
				// n references to n targets
				all := rep(n, func(i int) string { return fmt.Sprintf(`"p%d":{"$ref":"#/definitions/d%d"}`, i, i) }, nil)
				var pd []*Inst
				for _, p := range spots(n) {
					for _, v := range []int{p, p + 1, 0, n - 1} {
						pd = append(pd, inst(fmt.Sprintf(`{"p%d":"F%d"}`, p, v)))
					}
				}
				emit(&Verdict{Draft: d, Schema: `{"definitions":` + obj(byKey...) + `,"properties":` + obj(all...) + `}`, Insts: pd, MayRef: true})
				// n references to one target
				same := rep(n, func(i int) string { return fmt.Sprintf(`"p%d":{"$ref":"#/definitions/d0"}`, i) }, nil)
				emit(&Verdict{Draft: d, Schema: `{"definitions":` + obj(byKey[0]) + `,"properties":` + obj(same...) + `}`, Insts: pd, MayRef: true})
				// a pointer of n tokens, and a long name
				deep := strings.Repeat(`{"a":`, n) + f(0) + strings.Repeat(`}`, n)
				emit(&Verdict{Draft: d, Schema: `{"definitions":{"d":` + deep + `},"allOf":[{"$ref":"#/definitions/d` + strings.Repeat("/a", n) + `"}]}`, Insts: docs, MayRef: true})
				emit(&Verdict{Draft: d, Schema: `{"definitions":{"d":` + deep + `},"allOf":[{"$ref":"#/definitions/d` + strings.Repeat("/a", n+1) + `"}]}`, Insts: docs, MayRef: true})
				name := strings.Repeat("x", n)
				emit(&Verdict{Draft: d, Schema: `{"definitions":{"` + name + `":` + f(0) + `,"` + name + `x":` + f(1) + `,"` + name[1:] + `y":` + f(2) + `},"allOf":[{"$ref":"#/definitions/` + name + `"}]}`, Insts: docs, MayRef: true})
				emit(&Verdict{Draft: d, Schema: `{"definitions":{"` + name + `":` + f(0) + `,"` + name + `x":` + f(1) + `,"` + name[1:] + `y":` + f(2) + `},"allOf":[{"$ref":"#/definitions/` + name + `x"}]}`, Insts: docs, MayRef: true})
				// a document that recurses n times
				rec := `{"properties":{"n":{"$ref":"#"},"v":{"type":"string"}},"additionalProperties":false}`
				nest := func(v string) *Inst { return inst(strings.Repeat(`{"n":`, n) + v + strings.Repeat(`}`, n)) }
				emit(&Verdict{Draft: d, Schema: rec, Insts: []*Inst{nest(`{"v":"s"}`), nest(`{"v":1}`), nest(`{"w":1}`), nest(`{}`)}, MayRef: true})
			}
			// identifiers nested n deep: each is a directory below the one around it
			if n <= 60 {
				s := `{"$id":"leaf.json","enum":["F0"]}`
				for i := 0; i < n; i++ {
					s = `{"$id":"a/","definitions":{"d":` + s + `,"o":{"$id":"leaf.json","enum":["F1"]}}}`
					s = strings.Replace(s, `"o":{"$id":"leaf.json"`, fmt.Sprintf(`"o":{"$id":"other%d.json"`, i), 1)
				}
				dirs := strings.Repeat("a/", n)
				ds := insts(`"F0"`, `"F1"`, "1")
				for _, r := range []string{"http://x.test/" + dirs + "leaf.json", "http://x.test/" + dirs[2:] + "leaf.json", dirs + "leaf.json", "http://x.test/" + dirs + "other0.json", fmt.Sprintf("http://x.test/a/other%d.json", n-1)} {
					emit(&Verdict{Draft: model.Hybrid, Schema: `{"$id":"http://x.test/","definitions":{"r":` + s + `},"allOf":[{"$ref":` + q(r) + `}]}`, Insts: ds, MayRef: true})
				}
			}
		}
	})
}

// largeLoaders: many documents and many calls (C06).
func largeLoaders(c *Ctx) {
	ns := upTo(c, c.Pick(130, 600))
	c.Section("sizes: documents and calls", fmt.Sprintf("%d sizes up to %d: that many documents registered one by one or at once, forming a chain, compiled at each end; that many Compile calls on one loader", len(ns), ns[len(ns)-1]), asc, func(emit func(Case)) {
		for _, n := range ns {
			var one, back []string
			all := "adds"
			for i := 0; i < n; i++ {
				one = append(one, fmt.Sprintf("add http://HOST/g%d.json chain:%d:%d", i, i, n))
				back = append(back, fmt.Sprintf("add http://HOST/g%d.json chain:%d:%d", n-1-i, n-1-i, n))
				all += fmt.Sprintf(" idchain:%d:%d", i, n)
			}
			for _, first := range [][]string{one, back, {all}} {
				for _, p := range spots(n) {
					emit(&LoaderHist{Ops: append(append([]string{}, first...), fmt.Sprintf("compile http://HOST/g%d.json", p), fmt.Sprintf("compile http://HOST/g%d.json", n-1-p))})
				}
				emit(&LoaderHist{Ops: append(append([]string{}, first...), fmt.Sprintf("add http://HOST/g%d.json leaf1", n-1), fmt.Sprintf("add http://HOST/g%d.json leaf1", n), "compile http://HOST/g0.json", fmt.Sprintf("compile http://HOST/g%d.json", n))})
				emit(&LoaderHist{Ops: append(append([]string{}, first...), "root root1", "compile http://HOST/g0.json")})
			}
			// n compilations
			for _, l := range [][]string{{"compile http://HOST/a.json", "compile http://HOST/b.json"}, {"compile http://HOST/a.json#/definitions/x", "compile http://HOST/a.json"}, {"compile http://HOST/missing.json", "compile http://HOST/w.json#wp"}} {
				ops := []string{"add http://HOST/b.json leaf2"}
				for i := 0; i < n; i++ {
					ops = append(ops, l[i%2])
				}
				emit(&LoaderHist{Ops: append(ops, "compile http://HOST/sub/b.json", "compile http://HOST/b.json")})
			}
		}
	})
}

// generated gives the text of a document of the histories.
func generated(name string) string {
	f := strings.Split(name, ":")
	if len(f) != 3 {
		if t, ok := loaderDocs[name]; ok {
			return t
		}
		panic("harness: document " + name)
	}
	var i, n int
	fmt.Sscan(f[1], &i)
	fmt.Sscan(f[2], &n)
	id := ""
	if f[0] == "idchain" {
		id = fmt.Sprintf(`"$id":"http://HOST/g%d.json",`, i)
	}
	if i == n-1 {
		return `{` + id + `"type":"string","pattern":"^l1$"}`
	}
	return fmt.Sprintf(`{%s"allOf":[{"$ref":"g%d.json"}]}`, id, i+1)
}

// ManyTexts renders many distinct templates, forwards and backwards (C11).
type ManyTexts struct {
	N     int    `json:"templates"`
	Shape string `json:"template"` // # is replaced by the number
}

// Kind names the case type.
func (c *ManyTexts) Kind() string { return "many-texts" }

// Run judges it.
func (c *ManyTexts) Run(st *Stat) *Fail {
	st.States++
	res := &gjs.Result{}
	one := func(i int) *Fail {
		st.Traces++
		e := &customError{}
		e.SetType("t")
		e.SetContext(gjs.NewJsonContext("(root)", nil))
		t := strings.ReplaceAll(c.Shape, "#", fmt.Sprint(i))
		e.SetDescriptionFormat(t)
		d := gjs.ErrorDetails{"x": i}
		e.SetDetails(d)
		res.AddError(e, d)
		want, err := render(t, nil, map[string]interface{}{"x": i, "context": "(root)"})
		if err != nil {
			panic("harness: " + err.Error())
		}
		if e.Description() != want {
			return failf("template %q (number %d of %d): description %q, expected %q", cut(t), i, c.N, cut(e.Description()), cut(want))
		}
		return nil
	}
	for i := 0; i < c.N; i++ {
		if f := one(i); f != nil {
			return f
		}
	}
	for i := c.N - 1; i >= 0; i-- {
		if f := one(i); f != nil {
			return f
		}
	}
	if len(res.Errors()) != 2*c.N || res.Valid() {
		return failf("%d errors after adding %d", len(res.Errors()), 2*c.N)
	}
	s, err := gjs.NewSchema(gjs.NewStringLoader(`{"type":"integer"}`))
	if err != nil {
		return failf("compile: %v", err)
	}
	r2, err := s.Validate(gjs.NewStringLoader(`"a"`))
	if err != nil || len(r2.Errors()) != 1 || r2.Errors()[0].Description() != "Invalid type. Expected: integer, given: string" {
		return failf("after %d templates: %v %v", c.N, r2, err)
	}
	st.outcome("rendered")
	return nil
}

func largeTexts(c *Ctx) {
	ns := sizes(c)
	c.Section("sizes: templates", fmt.Sprintf("%d numbers of distinct templates up to %d x 6 shapes, rendered forwards and backwards", len(ns), ns[len(ns)-1]), asc, func(emit func(Case)) {
		for _, n := range ns {
			for _, s := range []string{"#", "t# {{.x}}", "{{.x}} at {{.context}} #", strings.Repeat("long ", 60) + "{{.x}} #", "# " + strings.Repeat("long ", 60) + "{{.x}}", "{{if .x}}{{.x}}{{else}}#{{end}}"} {
				emit(&ManyTexts{n, s})
			}
		}
	})
}

// Repeats does the same thing many times (C12).
type Repeats struct {
	N int      `json:"times"`
	V *Verdict `json:"inputs"`
}

// Kind names the case type.
func (c *Repeats) Kind() string { return "repeats" }

// Run judges it.
func (c *Repeats) Run(st *Stat) *Fail {
	st.States++
	var docs []interface{}
	for _, in := range c.V.Insts {
		docs = append(docs, in.V.Go())
	}
	s0, err := c.V.compile()
	if err != nil {
		return failf("compiling %s: %v", c.V.Schema, err)
	}
	var want []string
	for i := range docs {
		want = append(want, observe(s0.Validate(gjs.NewRawLoader(docs[i]))))
	}
	var last *gjs.Result
	for k := 0; k < c.N; k++ {
		i := k % len(docs)
		st.Traces++
		var err error
		last, err = s0.Validate(gjs.NewRawLoader(docs[i]))
		if got := observe(last, err); got != want[i] {
			return failf("schema %s, document %s: validation %d gives\n  %s\nthe first one\n  %s", c.V.Schema, c.V.Insts[i].T, k, got, want[i])
		}
	}
	keep := observe(last, nil)
	for k := 0; k < c.N; k++ {
		i := k % len(docs)
		s, err := c.V.compile()
		if err != nil {
			return failf("compiling %s, the %dth time: %v", c.V.Schema, k+2, err)
		}
		if got := observe(s.Validate(gjs.NewRawLoader(docs[i]))); got != want[i] {
			return failf("schema %s, document %s: compilation %d gives\n  %s\nthe first one\n  %s", c.V.Schema, c.V.Insts[i].T, k+2, got, want[i])
		}
	}
	if got := observe(last, nil); got != keep {
		return failf("schema %s: an old result changed from\n  %s\nto\n  %s", c.V.Schema, keep, got)
	}
	st.outcome(fmt.Sprintf("%d distinct", len(uniqueStrings(want))))
	return nil
}

func uniqueStrings(l []string) map[string]bool {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return m
}

func largeRepeats(c *Ctx) {
	n := c.Pick(1100, 11000)
	c.Section("sizes: repetitions", fmt.Sprintf("%d validations and compilations of each of 6 schemas", n), asc, func(emit func(Case)) {
		for _, s := range []string{`{"type":"string"}`, `{"properties":{"a":{"$ref":"#/definitions/d"},"b":{"enum":[1,2]}},"required":["c"],"definitions":{"d":{"type":"integer","minimum":5}},"additionalProperties":false}`, `{"oneOf":[{"type":"integer"},{"minimum":2}],"not":{"const":7}}`, `{"items":{"format":"date"},"uniqueItems":true,"contains":{"type":"string"}}`, `{"patternProperties":{"^a":{"type":"string"},"b$":{"maxLength":1}},"dependencies":{"a":["z"]},"if":{"required":["a"]},"then":{"maxProperties":1}}`, `{"$id":"http://x.test/r.json","definitions":{"i":{"$id":"i.json","type":"boolean"}},"anyOf":[{"$ref":"i.json"},{"type":"array"}]}`} {
			emit(&Repeats{n, &Verdict{Draft: model.Hybrid, Schema: s, Insts: insts("1", "7", `"x"`, `{"a":1,"b":3,"x":2}`, `{"ab":"long","a":1}`, `["2020-01-01",1,1]`, "null", "{}")}})
		}
	})
}

// BigLoad loads a text of many bytes (C14).
type BigLoad struct {
	Loader string `json:"loader"`
	Bytes  int    `json:"bytes"`
	Shape  string `json:"shape"`
}

// Kind names the case type.
func (c *BigLoad) Kind() string { return "big-load" }

func (c *BigLoad) text() string {
	switch c.Shape {
	case "string":
		return `"` + strings.Repeat("a", c.Bytes-2) + `"`
	case "spaces in front":
		return strings.Repeat(" ", c.Bytes-3) + `"a"`
	case "spaces behind":
		return `"a"` + strings.Repeat("\n", c.Bytes-3)
	case "garbage behind":
		return `"a"` + strings.Repeat(" ", c.Bytes-4) + `x`
	case "list":
		return `[` + strings.Repeat("1,", (c.Bytes-3)/2) + `12345`[:1+(c.Bytes-3)%2] + `]`
	}
	panic("harness: shape " + c.Shape)
}

// Run judges it.
func (c *BigLoad) Run(st *Stat) *Fail {
	st.States++
	st.Traces += 3
	p := newPlace(c.Loader)
	defer p.drop()
	text := c.text()
	if len(text) != c.Bytes {
		panic(fmt.Sprintf("harness: %d bytes instead of %d", len(text), c.Bytes))
	}
	fails := c.Shape == "garbage behind"
	what := fmt.Sprintf("a text of %d bytes (%s) from a %s loader", c.Bytes, c.Shape, c.Loader)
	v, err := p.loader(c.Loader, text).LoadJSON()
	if (err != nil) != fails {
		return failf("%s: error %v", what, err)
	}
	if err == nil {
		ok := false
		switch x := v.(type) {
		case string:
			ok = c.Shape == "string" && len(x) == c.Bytes-2 || x == "a" && c.Shape != "string"
		case []interface{}:
			ok = c.Shape == "list" && len(x) == (c.Bytes-3)/2+1
			for _, e := range x[:len(x)-1] {
				ok = ok && e == json.Number("1")
			}
		}
		if !ok {
			return failf("%s: gives another value (%T)", what, v)
		}
	}
	// as a document
	s, cerr := gjs.NewSchema(gjs.NewStringLoader(`{"type":["string","array"]}`))
	if cerr != nil {
		return failf("%s: compile: %v", what, cerr)
	}
	res, err := s.Validate(p.loader(c.Loader, text))
	if (err != nil) != fails || (res == nil) != fails || res != nil && !res.Valid() {
		return failf("%s as document: %v %v", what, res, err)
	}
	// as part of a schema
	if c.Shape != "list" {
		s, err = gjs.NewSchema(p.loader(c.Loader, strings.Replace(text, `"a`, `{"const":"x","title":"a`, 1)+"}"))
		if c.Shape == "string" {
			if err != nil || s == nil {
				return failf("%s as schema: %v", what, err)
			}
			for _, d := range []string{"x", "y"} {
				res, err := s.Validate(gjs.NewRawLoader(d))
				if err != nil || res.Valid() != (d == "x") {
					return failf("%s as schema: document %q: %v %v", what, d, res, err)
				}
			}
		}
	}
	if l := p.leaks(); l != "" {
		return failf("%s: %s", what, l)
	}
	st.outcome(c.Shape)
	return nil
}

func largeLoads(c *Ctx) {
	var ns []int
	for k := 6; k <= c.Pick(22, 26); k++ {
		ns = append(ns, 1<<k-1, 1<<k, 1<<k+1)
	}
	for k := 100; k <= c.Pick(10000000, 100000000); k *= 10 {
		ns = append(ns, k, k+1)
	}
	c.Section("sizes: contents", fmt.Sprintf("%d sizes up to %d bytes x 5 shapes x every text loader", len(ns), c.Pick(10000001, 100000001)), asc, func(emit func(Case)) {
		for _, n := range ns {
			for _, k := range textKinds {
				if (k == "reader1" || k == "writer") && n > 1<<16+1 {
					continue
				}
				for _, s := range []string{"string", "spaces in front", "spaces behind", "garbage behind", "list"} {
					if n > 1<<20+1 && s != "string" && s != "spaces behind" {
						continue
					}
					emit(&BigLoad{k, n, s})
				}
			}
		}
	})
}

// ManyFormats registers many checkers (C16).
type ManyFormats struct {
	N int `json:"names"`
}

// Kind names the case type.
func (c *ManyFormats) Kind() string { return "many-formats" }

// Run judges it.
func (c *ManyFormats) Run(st *Stat) *Fail {
	st.States++
	name := func(i int) string { return fmt.Sprintf("f%d", i) }
	state := map[string]string{}
	defer func() {
		for i := 0; i < c.N; i++ {
			gjs.FormatCheckers.Remove(name(i))
		}
	}()
	var schemas []*gjs.Schema
	for i := 0; i < c.N; i++ {
		s, err := gjs.NewSchema(gjs.NewStringLoader(`{"format":"` + name(i) + `"}`))
		if err != nil {
			return failf("compile: %v", err)
		}
		schemas = append(schemas, s)
	}
	check := func(after string) *Fail {
		for i := 0; i < c.N; i++ {
			st.Traces++
			n := name(i)
			if gjs.FormatCheckers.Has(n) != (state[n] != "") {
				return failf("%d names, after %s: Has(%s) is %v", c.N, after, n, state[n] == "")
			}
			want := state[n] != "never"
			if gjs.FormatCheckers.IsFormat(n, "v") != want {
				return failf("%d names, after %s: IsFormat(%s) is %v", c.N, after, n, !want)
			}
			res, err := schemas[i].Validate(gjs.NewRawLoader("v"))
			if err != nil || res.Valid() != want {
				return failf("%d names, after %s: a schema of format %s gives %v %v", c.N, after, n, res, err)
			}
		}
		for _, n := range formatNames {
			if !gjs.FormatCheckers.Has(n) {
				return failf("%d names, after %s: the format %s is unknown", c.N, after, n)
			}
		}
		return nil
	}
	set := func(i int, k string) {
		if k == "" {
			gjs.FormatCheckers.Remove(name(i))
			delete(state, name(i))
			return
		}
		gjs.FormatCheckers.Add(name(i), fmtChecker{id: k})
		state[name(i)] = k
	}
	for i := 0; i < c.N; i++ {
		set(i, []string{"always", "never"}[i%2])
	}
	if f := check("adding all"); f != nil {
		return f
	}
	for i := 0; i < c.N; i += 3 {
		set(i, "")
	}
	if f := check("removing every third"); f != nil {
		return f
	}
	for i := c.N - 1; i >= 0; i-- {
		set(i, []string{"never", "always"}[i%2])
	}
	if f := check("replacing all"); f != nil {
		return f
	}
	for i := 0; i < c.N; i++ {
		set(i, "")
	}
	st.outcome("many")
	return check("removing all")
}

func largeRegistry(c *Ctx) {
	ns := sizes(c)
	c.Section("sizes: formats", fmt.Sprintf("%d numbers of registered formats up to %d", len(ns), ns[len(ns)-1]), asc, func(emit func(Case)) {
		for _, n := range ns {
			emit(&ManyFormats{n})
		}
	})
}

// largeForms: the malformed member of a large schema (C08, C09).
func largeForms(c *Ctx) {
	ns := upTo(c, c.Pick(130, 1100))
	c.Section("sizes: malformed members", fmt.Sprintf("%d sizes up to %d: one malformed or duplicate element in lists and objects of that size, one malformed schema that deep", len(ns), ns[len(ns)-1]), asc, func(emit func(Case)) {
		out := func(d model.Draft, s string) {
			if c.ID == "C09" {
				for _, via := range []string{"compile", "add", "adds"} {
					emit(&MetaCase{Draft: d, Schema: s, Via: via})
				}
				return
			}
			emit(&Verdict{Draft: d, Schema: s, Insts: wfDocs, WF: true})
		}
		for _, n := range ns {
			for _, d := range []model.Draft{model.D4, model.D7} {
				for _, p := range append(spots(n), -1) {
					one := func(el func(int) string, bad ...string) [][]string {
						var r [][]string
						for _, b := range bad {
							r = append(r, rep(n, el, map[int]string{p: b}))
						}
						return r
					}
					for _, l := range one(numbered(`"n%d"`), "5", `"n0"`, fmt.Sprintf(`"n%d"`, n-1)) {
						out(d, `{"required":`+arr(l...)+`}`)
						out(d, `{"dependencies":{"a":`+arr(l...)+`}}`)
						out(d, `{"enum":`+arr(l...)+`}`)
					}
					for _, l := range one(numbered("%d"), "0.0", fmt.Sprintf("%d.0", n-1), fmt.Sprintf("%de0", n-1), `"0"`) {
						out(d, `{"enum":`+arr(l...)+`}`)
					}
					for _, l := range one(constant("{}"), "5", `{"type":"any"}`, `{"pattern":"("}`) {
						for _, k := range []string{"allOf", "anyOf", "oneOf", "items"} {
							out(d, `{`+q(k)+`:`+arr(l...)+`}`)
						}
					}
					for _, l := range one(numbered(`"k%d":{}`), `"k":5`, `"k":{"minLength":-1}`, `"(":{}`) {
						for _, k := range []string{"properties", "patternProperties", "definitions", "dependencies"} {
							out(d, `{`+q(k)+`:`+obj(l...)+`}`)
						}
					}
				}
				for _, leaf := range []string{`{"type":"any"}`, `{"type":"string"}`, `{"maximum":"1"}`, "5"} {
					for _, w := range []string{`{"not":`, `{"items":`, `{"additionalProperties":`} {
						out(d, strings.Repeat(w, n)+leaf+strings.Repeat("}", n))
					}
					for _, w := range [][2]string{{`{"properties":{"a":`, `}}`}, {`{"allOf":[{},`, `]}`}, {`{"definitions":{"a":`, `}}`}} {
						out(d, strings.Repeat(w[0], n)+leaf+strings.Repeat(w[1], n))
					}
				}
			}
		}
	})
}

func init() {
	kinds["many-texts"] = func() Case { return &ManyTexts{} }
	kinds["repeats"] = func() Case { return &Repeats{} }
	kinds["big-load"] = func() Case { return &BigLoad{} }
	kinds["many-formats"] = func() Case { return &ManyFormats{} }
}

// Reused uses one loader again after its source changed (C12, C14).
type Reused struct {
	Loader string `json:"loader"`
	Role   string `json:"role"`
	Ops    string `json:"contents"` // one letter per use: a or b, x: unusable
}

// Kind names the case type.
func (c *Reused) Kind() string { return "reused" }

type marshalAs struct{ text string }

func (m *marshalAs) MarshalJSON() ([]byte, error) { return []byte(m.text), nil }

// Run judges it.
func (c *Reused) Run(st *Stat) *Fail {
	st.States++
	texts := map[byte]string{'a': `{"k":"a"}`, 'b': `{"k":"b"}`, 'x': `{"k":"a"x`}
	if c.Role == "schema" {
		texts = map[byte]string{'a': `{"enum":["a"]}`, 'b': `{"enum":["b"]}`, 'x': `{"enum":"a"}`}
	}
	var l gjs.JSONLoader
	var set func(b byte)
	switch c.Loader {
	case "bytes":
		buf := make([]byte, len(texts['a'])+2)
		l = gjs.NewBytesLoader(buf)
		set = func(b byte) { copy(buf, texts[b]+"   ") }
	case "go marshaler":
		m := &marshalAs{}
		l = gjs.NewGoLoader(m)
		set = func(b byte) { m.text = texts[b] }
	case "go", "raw":
		m := map[string]interface{}{}
		l = gjs.NewGoLoader(m)
		if c.Loader == "raw" {
			l = gjs.NewRawLoader(m)
		}
		set = func(b byte) {
			switch {
			case c.Role != "schema":
				m["k"] = string(b)
			case b == 'x':
				m["enum"] = "a"
			default:
				m["enum"] = []interface{}{string(b)}
			}
		}
	}
	isA, err := gjs.NewSchema(gjs.NewStringLoader(`{"properties":{"k":{"enum":["a"]}}}`))
	if err != nil {
		return failf("compile: %v", err)
	}
	for i := 0; i < len(c.Ops); i++ {
		b := c.Ops[i]
		set(b)
		st.Traces++
		st.Transitions++
		var res *gjs.Result
		switch c.Role {
		case "document":
			res, err = isA.Validate(l)
		case "document of Validate":
			res, err = gjs.Validate(gjs.NewStringLoader(`{"properties":{"k":{"enum":["a"]}}}`), l)
		case "schema":
			var s *gjs.Schema
			if s, err = gjs.NewSchema(l); err == nil {
				res, err = s.Validate(gjs.NewRawLoader("a"))
			}
		case "loaded":
			var v interface{}
			if v, err = l.LoadJSON(); err == nil {
				res, err = isA.Validate(gjs.NewRawLoader(v))
			}
		}
		if (err != nil) != (b == 'x') || err == nil && res.Valid() != (b == 'a') {
			return failf("%+v: use %d (content %s): %v %v", c, i+1, texts[b], res, err)
		}
		st.outcome(string(b))
	}
	return nil
}

func reused(c *Ctx) {
	c.Section("loaders used again", "every sequence of up to 4 contents behind one bytes, Go value or raw loader, as document, as schema or loaded directly", asc, func(emit func(Case)) {
		for _, k := range []string{"bytes", "go", "go marshaler", "raw"} {
			for _, r := range []string{"document", "document of Validate", "schema", "loaded"} {
				for n := 1; n <= 4; n++ {
					tuples([]string{"a", "b", "x"}, n, func(t []string) {
						ops := strings.Join(t, "")
						if (k == "go" || k == "raw") && r != "schema" && strings.Contains(ops, "x") {
							return
						}
						emit(&Reused{k, r, ops})
					})
				}
			}
		}
	})
}

// manyErrors: documents with many errors (C10).
func manyErrors(c *Ctx) {
	ns := []int{200, 255, 256, 257, 500, 999, 1000, 1001, 1024, 1025, 1500, 2000}
	if c.Thorough() {
		ns = append(ns, 4096, 5000, 10000, 10001)
	}
	c.Section("sizes: many errors", fmt.Sprintf("documents with %d numbers of errors up to %d", len(ns), ns[len(ns)-1]), asc, func(emit func(Case)) {
		for _, n := range ns {
			list := arr(rep(n, numbered("%d"), nil)...)
			same := arr(rep(n, constant("1"), nil)...)
			members := obj(rep(n, numbered(`"k%d":1`), nil)...)
			v := func(s, doc string) {
				emit(&Verdict{Draft: model.Hybrid, Schema: s, Insts: insts(doc), Errors: true})
			}
			v(`{"items":{"type":"string"}}`, list)
			v(`{"items":{"enum":["x"]}}`, same)
			v(`{"additionalProperties":{"type":"string"}}`, members)
			v(`{"additionalProperties":false}`, members)
			v(`{"patternProperties":{"^k":{"type":"string"}}}`, members)
			v(`{"required":`+arr(rep(n, numbered(`"r%d"`), nil)...)+`}`, "{}")
			v(`{"allOf":`+arr(rep(n, numbered(`{"enum":["e%d"]}`), nil)...)+`}`, "1")
			v(`{"items":{"allOf":[{"type":"string"},{"minimum":100000}]}}`, list)
			v(`{"uniqueItems":true}`, same)
		}
	})
}

// longTexts: errors about long values, names and limits (C11).
func longTexts(c *Ctx) {
	var ns []int
	for _, n := range sizes(c) {
		if n > 20 {
			ns = append(ns, n)
		}
	}
	ns = append(ns, 2000, 4095, 4096, 4097, 10000, 65535, 65536, 65537)
	c.Section("sizes: texts", fmt.Sprintf("errors about values, member names, limits and patterns of %d sizes up to 65537, paths that deep (to 500)", len(ns)), asc, func(emit func(Case)) {
		for _, loc := range []string{"default", "tagged"} {
			for _, n := range ns {
				x := strings.Repeat("é", n/2) + strings.Repeat("x", n%2)
				t := func(s, doc string) { emit(&TextCase{loc, model.Hybrid, s, insts(doc), ""}) }
				t(`{"type":"integer"}`, q(x))
				t(`{"maxLength":1}`, q(x))
				t(`{"required":[`+q(x)+`]}`, `{}`)
				t(`{"properties":{`+q(x)+`:{"type":"integer"}}}`, `{`+q(x)+`:"a"}`)
				t(`{"additionalProperties":false}`, `{`+q(x)+`:"a"}`)
				t(`{"enum":[`+q(x)+`]}`, `1`)
				t(`{"const":`+q(x)+`}`, `1`)
				t(`{"dependencies":{"a":[`+q(x)+`]}}`, `{"a":1}`)
				t(`{"propertyNames":{"maxLength":1}}`, `{`+q(x)+`:"a"}`)
				t(`{"not":{}}`, arr(rep(n, numbered("%d"), nil)...))
				if n <= 500 {
					t(`{"pattern":`+q("^"+x+"$")+`}`, `"a"`)
					t(`{"minimum":1`+strings.Repeat("0", n)+`}`, `1`)
					t(`{"maximum":0.`+strings.Repeat("0", n)+`1}`, `1`)
					t(`{"properties":{"a":{"$ref":"#"}},"type":"object"}`, strings.Repeat(`{"a":`, n)+"1"+strings.Repeat("}", n))
				}
			}
		}
	})
}

func init() { kinds["reused"] = func() Case { return &Reused{} } }
