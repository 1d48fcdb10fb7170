package main

import (
	"fmt"
	"strings"

	"verifmc/model"

	gjs "github.com/xeipuuv/gojsonschema"
)

// ---- C16: checkers that change their mind

// answerer is what a changing checker asks.
type answerer struct{ now *bool }

func (a answerer) IsFormat(interface{}) bool { return *a.now }

type pointerAnswerer struct{ now bool }

func (a *pointerAnswerer) IsFormat(interface{}) bool { return a.now }

type funcAnswerer func(interface{}) bool

func (f funcAnswerer) IsFormat(x interface{}) bool { return f(x) }

type sliceAnswerer []bool

func (s sliceAnswerer) IsFormat(interface{}) bool { return s[0] }

type mapAnswerer map[string]bool

func (m mapAnswerer) IsFormat(interface{}) bool { return m["now"] }

// MindCase asks one registered checker again and again while its answer changes.
type MindCase struct {
	Type    string `json:"checker_type"`
	Name    string `json:"name"`
	Answers []bool `json:"answers"`
	How     string `json:"asked_by"` // is, old (schema compiled before), new (compiled each time)
	Schema  string `json:"schema"`
	Inst    *Inst  `json:"document"`
}

func init() { kinds["mind"] = func() Case { return &MindCase{} } }

// Kind names the case type.
func (c *MindCase) Kind() string { return "mind" }

// Run judges it.
func (c *MindCase) Run(st *Stat) *Fail {
	st.States++
	defer restoreFormats(c.Name)
	var set func(bool)
	var k gjs.FormatChecker
	switch c.Type {
	case "value":
		now := new(bool)
		k, set = answerer{now}, func(b bool) { *now = b }
	case "pointer":
		p := &pointerAnswerer{}
		k, set = p, func(b bool) { p.now = b }
	case "func":
		now := new(bool)
		k, set = funcAnswerer(func(interface{}) bool { return *now }), func(b bool) { *now = b }
	case "slice":
		s := sliceAnswerer{false}
		k, set = s, func(b bool) { s[0] = b }
	case "map":
		m := mapAnswerer{}
		k, set = m, func(b bool) { m["now"] = b }
	}
	gjs.FormatCheckers.Add(c.Name, k)
	old := regSchema(c.Schema, c.Name, true)
	for i, a := range c.Answers {
		st.Transitions++
		st.Traces++
		set(a)
		got := false
		switch c.How {
		case "is":
			got = gjs.FormatCheckers.IsFormat(c.Name, c.Inst.V.Go())
		default:
			s := old
			if c.How == "new" {
				s = regSchema(c.Schema, c.Name, true)
			}
			res, err := s.Validate(gjs.NewRawLoader(c.Inst.V.Go()))
			if err != nil {
				return failf("validating: %v", err)
			}
			got = res.Valid()
		}
		if got != a {
			return failf("format %q, a checker (%s) that answers %v now: question %d (%s, schema %s, document %s) gives %v; its answers are %v", c.Name, c.Type, a, i, c.How, c.Schema, c.Inst.T, got, c.Answers)
		}
		st.outcome(fmt.Sprint("answer ", a))
	}
	return nil
}

func changingCheckers(c *Ctx) {
	n := c.Pick(4, 6)
	c.Section("checkers that change their mind", fmt.Sprintf("checkers of 5 Go types (not comparable ones among them) x all sequences of %d answers x asked directly, by a schema compiled before or each time x 3 schemas x 12 documents", n), asc, func(emit func(Case)) {
		for _, t := range []string{"value", "pointer", "func", "slice", "map"} {
			for _, name := range regNames {
				for m := 0; m < 1<<n; m++ {
					a := make([]bool, n)
					for i := range a {
						a[i] = m>>i&1 == 1
					}
					for _, in := range regDocs {
						emit(&MindCase{t, name, a, "is", regSchemas[0], in})
						for _, how := range []string{"old", "new"} {
							for _, s := range []string{regSchemas[0], regSchemas[5]} {
								emit(&MindCase{t, name, a, how, s, in})
							}
						}
					}
				}
			}
		}
	})
}

// ---- keywords deep inside a document

// depths at which keywords are tried.
func depths(c *Ctx) []int {
	l := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 200, 201, 255, 256, 257, 300, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025}
	if c.ID == "C10" && !c.Thorough() {
		for l[len(l)-1] > 300 {
			l = l[:len(l)-1]
		}
	}
	if c.Thorough() {
		l = append(l, 2000, 2048, 2049, 3000)
	}
	return l
}

// levels are the ways to go one level down: schema before and after, document before and after.
var levels = [][4]string{
	{`{"properties":{"a":`, `}}`, `{"a":`, `}`},
	{`{"items":`, `}`, `[`, `]`},
	{`{"items":[true,`, `]}`, `[0,`, `]`},
	{`{"items":[{}],"additionalItems":`, `}`, `[0,`, `]`},
	{`{"additionalProperties":`, `}`, `{"b":`, `}`},
	{`{"patternProperties":{"^p":`, `}}`, `{"pq":`, `}`},
	{`{"properties":{"a":{"items":`, `}}}`, `{"a":[`, `]}`},
	{`{"allOf":[{"properties":{"a":`, `}}]}`, `{"a":`, `}`},
	{`{"dependencies":{"a":{"properties":{"a":`, `}}}}`, `{"a":`, `}`},
	{`{"if":{"type":"object"},"then":{"properties":{"a":`, `}}}`, `{"a":`, `}`},
	{`{"anyOf":[{"type":"null"},{"properties":{"a":`, `}}]}`, `{"a":`, `}`},
	{`{"contains":`, `}`, `[`, `]`},
}

// deepKeywords puts keyword members (with documents for them) at every depth.
func deepKeywords(c *Ctx, members [][]string) {
	errors := c.ID == "C10"
	c.Section("sizes: depth", fmt.Sprintf("%d keywords under %d kinds of nesting, %d depths up to %d (quick: one keyword at each depth over 65), and under recursive references", len(members), len(levels), len(depths(c)), depths(c)[len(depths(c))-1]), both, func(emit func(Case)) {
		for di, n := range depths(c) {
			members := members
			if n > 65 && !c.Thorough() { // one keyword after the other
				members = members[di%len(members):][:1]
			}
			for li, l := range levels {
				if n > 300 && li > 5 && !c.Thorough() {
					continue
				}
				if errors && (strings.Contains(l[0], "anyOf") || strings.Contains(l[0], "contains")) && n > 12 {
					continue // which alternative's errors are reported is left open, and there are many
				}
				for _, m := range members {
					var ds []*Inst
					for _, d := range m[1:] {
						ds = append(ds, inst(strings.Repeat(l[2], n)+d+strings.Repeat(l[3], n)))
					}
					emit(&Verdict{Draft: model.D7, Schema: strings.Repeat(l[0], n) + "{" + m[0] + "}" + strings.Repeat(l[1], n), Insts: ds})
				}
			}
			for _, m := range members {
				var ds []*Inst
				for _, d := range m[1:] {
					ds = append(ds, inst(strings.Repeat(`{"k":`, n)+d+strings.Repeat("}", n)), inst(strings.Repeat(`[{"k":`, n)+d+strings.Repeat("}]", n)))
				}
				emit(&Verdict{Draft: model.D7, Schema: `{"definitions":{"d":{` + m[0] + `,"allOf":[{"properties":{"k":{"$ref":"#/definitions/d"}},"items":{"$ref":"#/definitions/d"}}]}},"properties":{"k":{"$ref":"#/definitions/d"}},"items":{"properties":{"k":{"$ref":"#/definitions/d"}}}}`, Insts: ds})
			}
		}
	})
}

var deepValues = [][]string{
	{`"type":["object","array","integer"]`, `1`, `"x"`, `null`},
	{`"minimum":2`, `1`, `3`, `"x"`},
	{`"pattern":"^a"`, `"b"`, `"a"`, `1`},
	{`"not":{"enum":[1,"x"]}`, `1`, `"x"`, `2`},
	{`"maxLength":1`, `"ab"`, `"a"`},
}

var deepArrays = [][]string{
	{`"maxItems":1`, `[1,2]`, `[1]`, `{}`},
	{`"uniqueItems":true`, `[1,1.0]`, `[1,2]`},
	{`"items":[{"type":["integer","object","array"]}]`, `["x"]`, `[1]`},
	{`"items":[{},{}],"additionalItems":false`, `[1,2,3]`, `[1,2]`},
	{`"contains":{"type":["integer","object","array"]}`, `["x"]`, `["x",1]`, `1`},
}

var deepObjects = [][]string{
	{`"properties":{"z":{"type":"integer"}}`, `{"z":"x"}`, `{"z":1}`},
	{`"maxProperties":1`, `{"y":1,"z":1}`, `{"z":1}`},
	{`"dependencies":{"z":["y"]}`, `{"z":1}`, `{"z":1,"y":1}`},
	{`"patternProperties":{"^z":false}`, `{"zz":1}`, `{"y":1}`},
	{`"propertyNames":{"maxLength":2}`, `{"zzz":1}`, `{"z":1}`},
}

var deepCombinators = [][]string{
	{`"not":{"type":"null"}`, `null`, `1`},
	{`"oneOf":[{"type":["object","array","integer"]},{"minimum":5}]`, `7`, `1`, `"x"`},
	{`"anyOf":[{"type":["object","array"]},{"const":1}]`, `2`, `1`},
	{`"if":{"type":"integer"},"then":{"minimum":2},"else":{"type":["object","array"]}`, `1`, `2`, `null`},
}

// ---- C12: large values of the caller

func largeCallersValues(c *Ctx) {
	ns := append(upTo(c, c.Pick(130, 1100)), 257, 513)
	c.Section("large values of the caller", fmt.Sprintf("%d sizes up to %d: documents and schemas of that size, in no order and with duplicates, x 30 schemas, all values compared before and after", len(ns), ns[len(ns)-1]), asc, func(emit func(Case)) {
		for _, n := range ns {
			mix := func(i int) int { return (i*7 + 3) % (n + 1) }
			var ds []*Inst
			for _, f := range []string{"%d", "%d.0", `"s%d"`, `[%d,0]`, `{"b":%d,"a":1}`} {
				el := func(i int) string { return fmt.Sprintf(f, mix(i)) }
				ds = append(ds, inst(arr(rep(n, el, nil)...)), inst(arr(rep(n, el, map[int]string{n - 1: el(0), n / 2: "null"})...)))
				ds = append(ds, inst(obj(rep(n, func(i int) string { return fmt.Sprintf(`"k%d":`, mix(i)) + el(i) }, nil)...)))
			}
			ds = append(ds, inst(q(strings.Repeat("é", n))), inst("1"+strings.Repeat("0", n)), inst("0."+strings.Repeat("0", n)+"10"))
			names := arr(rep(n, func(i int) string { return fmt.Sprintf(`"k%d"`, mix(i)) }, nil)...)
			each := func(f string) string {
				return rep2(n, func(i int) string { return strings.ReplaceAll(f, "N", fmt.Sprint(mix(i))) })
			}
			for _, m := range []string{`"uniqueItems":true`, `"items":{"type":"integer","minimum":5}`, `"items":[` + each(`{"maximum":N}`) + `],"additionalItems":false`, `"contains":{"enum":[null,"s0"]}`, `"minItems":3,"maxItems":20`, fmt.Sprintf(`"maxItems":%d`, n-1),
				`"properties":{` + each(`"kN":{"type":"integer"}`) + `},"additionalProperties":false`, `"patternProperties":{"^k1":{"type":"string"},"0$":{"minimum":7}},"additionalProperties":{"type":"integer"}`, `"required":` + names, `"dependencies":{"k0":` + names + `,"k1":{"maxProperties":2}}`, `"propertyNames":{"pattern":"^k[0-4]"}`, fmt.Sprintf(`"minProperties":%d`, n+1), `"maxProperties":1`,
				`"enum":[` + each("N") + `]`, `"enum":[` + each(`{"b":N.0,"a":[1e1]}`) + `]`, `"const":[` + each("N") + `]`, `"type":["object","string","array"]`, `"allOf":[` + each(`{"minItems":N}`) + `]`, `"anyOf":[` + each(`{"minProperties":N,"maxProperties":N}`) + `]`, `"oneOf":[` + each(`{"minItems":N}`) + `]`, `"not":{"uniqueItems":true}`, `"if":{"uniqueItems":true},"then":{"maxItems":2},"else":{"maxProperties":2}`,
				`"multipleOf":0.3`, `"minLength":3,"maxLength":9,"pattern":"^s"`, `"format":"date"`, `"items":{"$ref":"#/definitions/d"},"definitions":{"d":{"enum":[1,2,"s3"]}}`, `"examples":[` + each("N.0") + `],"default":{` + each(`"kN":N`) + `}`, `"title":` + q(strings.Repeat(" t", n)), `"unknown":[` + each("N.0") + `]`} {
				via := []string{"raw"}
				if n == 33 || n == 130 {
					via = []string{"raw", "registered", "meta-validated"}
				}
				for _, v := range via {
					emit(&Untouched{model.D7, "{" + m + "}", ds, v})
				}
			}
		}
	})
}

// rep2 joins n elements, leaving out repeated ones.
func rep2(n int, el func(int) string) string {
	seen := map[string]bool{}
	var l []string
	for i := 0; i < n; i++ {
		if e := el(i); !seen[e] {
			seen[e] = true
			l = append(l, e)
		}
	}
	return strings.Join(l, ",")
}

// ---- C15: long strings

func longMembers(c *Ctx) {
	ns := append(sizes(c), 2083, 2084, 20001, 65535, 65536, 65537)
	c.Section("sizes: strings", fmt.Sprintf("strings of %d sizes up to 65537 x all formats: members of that size, and ones wrong at the start, in the middle or at the end", len(ns)), asc, func(emit func(Case)) {
		for _, n := range ns {
			r := func(s string) string { return strings.Repeat(s, n) }
			fam := map[string][]string{
				"uri uri-reference iri iri-reference": {"http://a/" + r("b"), "http://a/" + r("b/"), "http://" + r("b") + "/c", "http://a?q=" + r("b"), "http://a/#" + r("b"), r("b") + "://c", r("b"), "/" + r("b/"), "http://a/" + r("b") + "\\", "\\" + r("b"), r("b") + "\\" + r("b"), "http://a/" + r("b") + "%zz", "http://a/" + r("%41"), r("b") + ":" + r("c"), "http://a/" + r("b") + "é", "http://a/" + r(" ")},
				"uri-template":                        {"{" + r("b") + "}", r("{b}"), "/a" + r("/{b}"), r("{b}") + "{", r("{b}") + "}", "{" + r("{b}") + "}", r("{") + r("}"), r("b"), r("b") + "\\", "{" + r("b")},
				"regex":                               {r("a"), r("(a)"), r("[a-z]"), r("a") + "(", r("a") + "[", "^" + r("é") + "$", r("a|") + "*", r("a?"), r("\\d")},
				"json-pointer":                        {r("/a"), "/" + r("a"), "/" + r("~0"), "/" + r("~1"), r("/"), r("/a") + "~", r("/a") + "~2", r("a"), "~" + r("/a"), r("/~0") + "/~"},
				"relative-json-pointer":               {r("1"), "1" + r("/a"), r("1") + "#", "0" + r("/a"), r("0"), "0" + r("1"), r("1") + "/a", "1" + r("/a") + "~", r("/a"), r("1") + "##", r("1") + "a"},
				"date":                                {"2020-01-01" + r(" "), r("2") + "-01-01", "2020-01-0" + r("1"), r("0") + "2020-01-01", "2020-" + r("0") + "1-01"},
				"time":                                {"10:00:00." + r("1") + "Z", "10:00:00." + r("1"), "10:00:00" + r("0") + "Z", r("0") + "10:00:00Z", "10:00:00" + r("Z"), "10:00:00." + r("0") + "+01:00"},
				"date-time":                           {"2020-01-01T10:00:00." + r("1") + "Z", "2020-01-01T10:00:00." + r("1"), "2020-01-01T10:00:00." + r("0") + "-05:00", "2020-01-01T10:00:00" + r("Z"), r("2") + "-01-01T10:00:00Z"},
				"hostname":                            {r("a"), r("a."), r("a.") + "b", r("a-") + "b", r("-"), r("a") + ".b", "b." + r("a"), r("1"), r("ab."), r("A")},
				"email idn-email":                     {r("a") + "@b.c", "a@" + r("b"), "a@" + r("b.") + "c", r("a"), r("a.") + "b@c", r("a") + "@", "@" + r("b"), r("a") + " <a@b.c>", r("a@"), "a@b.c" + r(" ")},
				"ipv4":                                {"1.2.3." + r("4"), r("1.") + "1", r("0") + "1.2.3.4", "1.2.3.4" + r(" "), r("1")},
				"ipv6":                                {r("1:") + "1", "::" + r("1"), "::" + r("0") + "1", "1::" + r("1:") + "1", "::1%" + r("a"), r(":"), "::ffff:1.2.3." + r("4")},
				"uuid":                                {"01234567-89ab-cdef-0123-456789abcdef" + r("a"), r("0") + "1234567-89ab-cdef-0123-456789abcdef", r("01234567-89ab-cdef-0123-456789abcdef"), r("0"), "01234567-89ab-cdef-0123-456789abcdef" + r("\n"), "0123456789abcdef0123456789abcdef" + r("-")},
			}
			for fs, l := range fam {
				for _, f := range strings.Fields(fs) {
					if f == "regex" && n > 1001 || n > 10001 && f != "uri" && f != "email" && f != "json-pointer" && f != "hostname" {
						continue
					}
					emit(&FormatCase{f, l})
				}
			}
		}
	})
}

// ---- C05: schemas that only a pointer reaches

func reachedByPointer(c *Ctx) {
	odd := append([]holder{{`{"then":%T}`, "/then", model.D7}, {`{"else":%T}`, "/else", model.D7}, {`{"if":%T}`, "/if", model.D7}, {`{"additionalItems":%T}`, "/additionalItems", 0}, {`{"items":%T,"additionalItems":{}}`, "/items", 0}, {`{"items":{},"additionalItems":%T}`, "/additionalItems", 0}}, holders...)
	refs := []string{"#/definitions/q", "q.json", "#", "sub.json#/definitions/q", "#n", "http://h.test/root.json#/definitions/q"}
	c.Section("references reached by pointer only", fmt.Sprintf("a pointer to a schema at each of %d positions (no effect of their own, some), inside a schema with an identifier, root with and without one, that holds one of %d references at each of 7 places", len(odd), len(refs)), both, func(emit func(Case)) {
		docs := insts(`"Q0"`, `"Q1"`, `"N0"`, `"N1"`, `"J0"`, `"J1"`, `"J2"`, `"S0"`, `"B0"`, `["Q0"]`, `["Q1"]`, `{"k":"Q0"}`, `{"k":"Q1"}`, `{"k":"J1"}`, `["N1"]`, `1`)
		inner := []string{`%R`, `{"allOf":[%R]}`, `{"items":%R}`, `{"properties":{"k":%R}}`, `{"additionalProperties":%R}`, `{"anyOf":[%R,{"enum":[1]}]}`, `{"not":%R}`}
		for _, d := range []model.Draft{model.D4, model.D6, model.D7, model.Hybrid} {
			if d == model.D6 && !c.Thorough() {
				continue
			}
			idkw := "$id"
			if d == model.D4 {
				idkw = "id"
			}
			for _, h := range odd {
				if h.min > d || strings.HasPrefix(h.ptr, "/default") {
					continue
				}
				for _, root := range []string{"", q(idkw) + `:"http://h.test/root.json",`} {
					for _, id := range []string{"", q(idkw) + `:"http://g.test/sub/b.json",`} {
						if id != "" && (strings.HasPrefix(h.ptr, "/unknown") || strings.HasPrefix(h.ptr, "/$defs")) {
							continue // the base inside an unknown keyword is not modelled
						}
						for _, ref := range refs {
							for _, in := range inner {
								if ref == "#" && !strings.Contains(in, "items") && !strings.Contains(in, "ropert") {
									continue // consumes nothing
								}
								held := strings.ReplaceAll(in, "%R", `{"$ref":`+q(ref)+`}`)
								part := strings.TrimPrefix(strings.ReplaceAll(h.schema, "%T", held), "{")
								if !strings.Contains(part, `"definitions"`) {
									part = `"definitions":{"q":{"enum":["Q1","B0"]},"n":{` + q(idkw) + `:"#n","enum":["N1"]}},` + part
								}
								s := `{` + declare(d) + root + `"definitions":{"q":{"enum":["Q0"]},"n":{` + q(idkw) + `:"http://h.test/root.json#n","enum":["N0"]},"j0":{` + q(idkw) + `:"http://h.test/q.json","enum":["J0"]},"j1":{` + q(idkw) + `:"http://g.test/sub/q.json","enum":["J1"]},"s":{` + q(idkw) + `:"http://h.test/sub.json","definitions":{"q":{"enum":["S0"]}}},"t":{` + id + part + `},"allOf":[{"$ref":"#/definitions/t` + h.ptr + `"}]}`
								emit(&Verdict{Draft: d, Schema: s, Insts: docs, MayRef: true, NoDup: true})
							}
						}
					}
				}
			}
		}
	})
}
