package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"verifmc/model"

	gjs "github.com/xeipuuv/gojsonschema"
)

// fmtChecker is a user-defined checker.
type fmtChecker struct {
	id  string
	got *[]interface{}
}

// verdictOf is what the checker of that kind answers.
func verdictOf(id string, v *model.V) bool {
	switch id {
	case "always":
		return true
	case "never", "removes itself", "adds another":
		return false
	case "strings":
		return v.K == model.Str
	case "numbers":
		return v.K == model.Num
	case "nonempty":
		return v.K != model.Str || v.S != ""
	}
	panic("harness: checker " + id)
}

// IsFormat answers by kind.
func (c fmtChecker) IsFormat(input interface{}) bool {
	if c.got != nil {
		*c.got = append(*c.got, input)
	}
	switch c.id {
	case "removes itself":
		gjs.FormatCheckers.Remove("zip")
		gjs.FormatCheckers.Remove("ipv4")
		return false
	case "adds another":
		gjs.FormatCheckers.Add("zip", fmtChecker{id: "always"}).Has("zip")
		return false
	}
	v, err := fromLib(input)
	if err != nil {
		return false
	}
	return verdictOf(c.id, v)
}

// RegistryCase is a sequence of changes of the registry; everything is observed after each.
type RegistryCase struct {
	Ops []string `json:"ops"`
}

// Kind names the case type.
func (c *RegistryCase) Kind() string { return "registry" }

type registryModel map[string]string // name -> checker id, "" is the built-in one

func restoreFormats(names ...string) {
	for _, n := range names {
		if b, ok := directCheckers[n]; ok {
			gjs.FormatCheckers.Add(n, b)
		} else {
			gjs.FormatCheckers.Remove(n)
		}
	}
}

var regNames = []string{"zip", "ipv4"}

// regSchemas: schemas over a format name F, and the places the format applies to.
var regSchemas = []string{
	`{"format":"F"}`,
	`{"type":"string","format":"F"}`,
	`{"properties":{"p":{"format":"F"}},"items":{"format":"F"}}`,
	`{"not":{"format":"F"}}`,
	`{"anyOf":[{"format":"F"},{"type":"null"}]}`,
	`{"definitions":{"d":{"format":"F"}},"$ref":"#/definitions/d"}`,
}

var regDocs = insts("null", "true", "1", "1.5", `""`, `"1.2.3.4"`, `"x"`, "[]", `["1.2.3.4",1,null]`, "{}", `{"p":"x"}`, `{"p":2}`)

var regCompiled = map[string]*gjs.Schema{}

func regSchema(s, name string, fresh bool) *gjs.Schema {
	text := strings.ReplaceAll(s, `"F"`, q(name))
	if !fresh {
		if r := regCompiled[text]; r != nil {
			return r
		}
	}
	r, err := gjs.NewSchema(gjs.NewStringLoader(text))
	if err != nil {
		panic(fmt.Sprintf("compiling %s fails: %v", text, err))
	}
	if !fresh {
		regCompiled[text] = r
	}
	return r
}

func (m registryModel) passes(name string, v *model.V) bool {
	id, ok := m[name]
	if !ok {
		return true
	}
	if id == "" {
		return v.K != model.Str || recognisers[name](v.S) == yes
	}
	return verdictOf(id, v)
}

func (m registryModel) valid(schema, name string, x *model.V) bool {
	switch schema {
	case regSchemas[0], regSchemas[5]:
		return m.passes(name, x)
	case regSchemas[1]:
		return x.K == model.Str && m.passes(name, x)
	case regSchemas[2]:
		if x.K == model.Obj {
			p, ok := x.M["p"]
			return !ok || m.passes(name, p)
		}
		if x.K == model.Arr {
			for _, e := range x.A {
				if !m.passes(name, e) {
					return false
				}
			}
		}
		return true
	case regSchemas[3]:
		return !m.passes(name, x)
	case regSchemas[4]:
		return x.K == model.Null || m.passes(name, x)
	}
	panic("harness: schema")
}

// Run executes the history.
func (c *RegistryCase) Run(st *Stat) *Fail {
	st.States++
	defer restoreFormats(append(regNames, "Zip", "date")...)
	m := registryModel{}
	for _, n := range formatNames {
		m[n] = ""
	}
	for i, op := range c.Ops {
		st.Transitions++
		chain := &gjs.FormatCheckers
		for _, step := range strings.Split(op, " then ") {
			f := strings.SplitN(step, " ", 3)
			var ret *gjs.FormatCheckerChain
			switch f[0] {
			case "add":
				ret = chain.Add(f[1], fmtChecker{id: f[2]})
				m[f[1]] = f[2]
			case "restore":
				ret = chain.Add(f[1], directCheckers[f[1]])
				m[f[1]] = ""
			case "remove":
				ret = chain.Remove(f[1])
				delete(m, f[1])
			}
			if ret != &gjs.FormatCheckers {
				return failf("%q: %s does not return the registry for chaining", c.Ops[:i+1], step)
			}
			chain = ret
		}
		if msg := m.observe(st, i == len(c.Ops)-1); msg != "" {
			return failf("after %q: %s", c.Ops[:i+1], msg)
		}
	}
	return nil
}

func (m registryModel) observe(st *Stat, full bool) string {
	for _, n := range []string{"zip", "ipv4", "date", "Zip", "ipv4 ", ""} {
		_, want := m[n]
		if gjs.FormatCheckers.Has(n) != want {
			return fmt.Sprintf("Has(%q) is %v", n, !want)
		}
	}
	for _, n := range regNames {
		for _, in := range regDocs {
			st.Traces++
			if got, want := gjs.FormatCheckers.IsFormat(n, in.V.Go()), m.passes(n, in.V); got != want {
				return fmt.Sprintf("IsFormat(%q, %s) is %v, the registered checker says %v", n, in.T, got, want)
			}
		}
		for si, s := range regSchemas {
			if !full && si > 1 {
				break
			}
			for k := 0; k < 2; k++ {
				sc := regSchema(s, n, k == 1)
				for _, in := range regDocs {
					st.Traces++
					res, err := sc.Validate(gjs.NewRawLoader(in.V.Go()))
					if err != nil {
						return err.Error()
					}
					want := m.valid(s, n, in.V)
					if res.Valid() != want {
						return fmt.Sprintf("schema %s with F=%s (compiled before: %v), document %s: valid=%v, expected %v", s, n, k == 0, in.T, res.Valid(), want)
					}
					st.Outcomes[fmt.Sprintf("schema %d valid=%v", si, want)]++
				}
			}
		}
	}
	return ""
}

// SeenCase checks which value a checker is given.
type SeenCase struct {
	Name   string `json:"name"`
	Schema string `json:"schema"` // F is the format name; it applies to exactly one value
	Inst   *Inst  `json:"document"`
	Value  string `json:"value"`
}

// Kind names the case type.
func (c *SeenCase) Kind() string { return "seen" }

// Run judges it.
func (c *SeenCase) Run(st *Stat) *Fail {
	st.States++
	defer restoreFormats(c.Name)
	for _, ans := range []string{"always", "never"} {
		st.Traces++
		var got []interface{}
		gjs.FormatCheckers.Add(c.Name, fmtChecker{ans, &got})
		s, err := gjs.NewSchema(gjs.NewStringLoader(strings.ReplaceAll(c.Schema, `"F"`, q(c.Name))))
		if err != nil {
			return failf("compiling %s: %v", c.Schema, err)
		}
		if len(got) != 0 {
			return failf("compiling calls the checker")
		}
		res, err := s.Validate(gjs.NewStringLoader(c.Inst.T))
		if err != nil {
			return failf("validating: %v", err)
		}
		if len(got) == 0 {
			return failf("format %q, schema %s, document %s: the checker is not consulted", c.Name, c.Schema, c.Inst.T)
		}
		want := model.MustParse(c.Value).Go()
		for _, g := range got {
			if !reflect.DeepEqual(g, want) {
				return failf("format %q, schema %s, document %s: the checker is given %T %v instead of %T %v", c.Name, c.Schema, c.Inst.T, g, g, want, want)
			}
		}
		if res.Valid() != (ans == "always") {
			return failf("format %q, schema %s, document %s: valid=%v although the checker answers %s", c.Name, c.Schema, c.Inst.T, res.Valid(), ans)
		}
		if !res.Valid() {
			n := 0
			for _, e := range res.Errors() {
				if e.Type() == "format" {
					n++
					if e.Details()["format"] != c.Name || !reflect.DeepEqual(e.Value(), want) {
						return failf("format %q: error with details %v and value %v", c.Name, e.Details(), e.Value())
					}
				}
			}
			if n != 1 {
				return failf("format %q, schema %s, document %s: %d format errors", c.Name, c.Schema, c.Inst.T, n)
			}
		}
		st.outcome("seen " + strings.SplitN(fmt.Sprintf("%T", want), "{", 2)[0])
	}
	return nil
}

// NamesCase registers a checker under one name and observes another.
type NamesCase struct {
	A string `json:"registered"`
	B string `json:"asked"`
}

// Kind names the case type.
func (c *NamesCase) Kind() string { return "names" }

// Run judges it.
func (c *NamesCase) Run(st *Stat) *Fail {
	st.States++
	st.Traces += 3
	defer restoreFormats(c.A, c.B)
	hadB := gjs.FormatCheckers.Has(c.B)
	_, builtin := directCheckers[c.B]
	if hadB != builtin {
		return failf("Has(%q) is %v", c.B, hadB)
	}
	check := func(known, never bool) *Fail {
		if gjs.FormatCheckers.Has(c.B) != known {
			return failf("with a checker under %q: Has(%q) is %v", c.A, c.B, !known)
		}
		want := true
		if never {
			want = false
		} else if known {
			want = recognisers[c.B]("\x00") == yes
		}
		if gjs.FormatCheckers.IsFormat(c.B, "\x00") != want {
			return failf("with a checker under %q: IsFormat(%q) is %v", c.A, c.B, !want)
		}
		if c.B != "" {
			b, _ := json.Marshal(c.B)
			s, err := gjs.NewSchema(gjs.NewStringLoader(`{"format":` + string(b) + `}`))
			if err != nil {
				return failf("format name %q: %v", c.B, err)
			}
			res, err := s.Validate(gjs.NewRawLoader("\x00"))
			if err != nil || res.Valid() != want {
				return failf("with a checker under %q: a schema of format %q says %v %v", c.A, c.B, res, err)
			}
		}
		return nil
	}
	gjs.FormatCheckers.Add(c.A, fmtChecker{id: "never"})
	if f := check(builtin || c.A == c.B, c.A == c.B); f != nil {
		return f
	}
	gjs.FormatCheckers.Remove(c.A)
	if f := check(builtin && c.A != c.B, false); f != nil {
		return f
	}
	gjs.FormatCheckers.Remove(c.A).Remove(c.B)
	st.outcome(fmt.Sprintf("same=%v", c.A == c.B))
	return check(false, false)
}

// ReentrantCase uses checkers that change the registry while they are consulted.
type ReentrantCase struct {
	Name, Checker, Schema string
	Inst                  *Inst
}

// Kind names the case type.
func (c *ReentrantCase) Kind() string { return "reentrant" }

// Run judges it.
func (c *ReentrantCase) Run(st *Stat) *Fail {
	st.States++
	st.Traces++
	defer restoreFormats("zip", "ipv4")
	s := regSchema(c.Schema, c.Name, true)
	gjs.FormatCheckers.Add(c.Name, fmtChecker{id: c.Checker})
	res, err := s.Validate(gjs.NewRawLoader(c.Inst.V.Go()))
	if err != nil || res == nil {
		return failf("%+v: %v", c, err)
	}
	_ = res.Valid()
	if c.Checker == "removes itself" && (gjs.FormatCheckers.Has("zip") || gjs.FormatCheckers.Has("ipv4")) {
		return failf("%s: a checker that removed itself is still known", c.Name)
	}
	if c.Checker == "adds another" && !gjs.FormatCheckers.Has("zip") {
		return failf("%s: a checker added from a checker is not known", c.Name)
	}
	st.outcome("reentrant " + c.Checker)
	return nil
}

func init() {
	kinds["registry"] = func() Case { return &RegistryCase{} }
	kinds["seen"] = func() Case { return &SeenCase{} }
	kinds["names"] = func() Case { return &NamesCase{} }
	kinds["reentrant"] = func() Case { return &ReentrantCase{} }
	checks["C16"] = c16
}

func c16(c *Ctx) {
	c.Workers = 1 // one process-wide registry
	var ops []string
	for _, n := range regNames {
		for _, k := range []string{"always", "never", "strings", "numbers"} {
			ops = append(ops, "add "+n+" "+k)
		}
		ops = append(ops, "remove "+n)
	}
	ops = append(ops, "restore ipv4", "add zip never then remove zip", "remove ipv4 then add ipv4 nonempty", "add zip always then add ipv4 never", "remove zip then remove ipv4", "add Zip never", "remove date")
	n := c.Pick(3, 4)
	c.Section("registry histories", fmt.Sprintf("all sequences of up to %d of %d operations on two names, observed after every step through Has, IsFormat and 6 schemas compiled before and after, on 12 documents", n, len(ops)), asc, func(emit func(Case)) {
		for k := 1; k <= n; k++ {
			tuples(ops, k, func(t []string) { emit(&RegistryCase{append([]string{}, t...)}) })
		}
	})
	c.Section("values given to checkers", "every value of the pool at 10 positions, a new and a built-in name", asc, func(emit func(Case)) {
		wraps := []struct{ schema, doc string }{
			{`{"format":"F"}`, `%s`},
			{`{"properties":{"p":{"format":"F"}}}`, `{"o":1,"p":%s}`},
			{`{"items":{"format":"F"}}`, `[%s]`},
			{`{"items":[{},{"format":"F"}]}`, `[0,%s]`},
			{`{"items":[{}],"additionalItems":{"format":"F"}}`, `[0,%s]`},
			{`{"additionalProperties":{"format":"F"}}`, `{"x":%s}`},
			{`{"patternProperties":{"^x":{"format":"F"}}}`, `{"xy":%s,"o":2}`},
			{`{"allOf":[{"format":"F"}]}`, `%s`},
			{`{"definitions":{"d":{"format":"F"}},"properties":{"p":{"$ref":"#/definitions/d"}}}`, `{"p":%s}`},
			{`{"if":{},"then":{"format":"F"}}`, `%s`},
			{`{"contains":{"format":"F"}}`, `[%s]`},
			{`{"not":{"not":{"format":"F"}}}`, `%s`},
		}
		for _, name := range []string{"zip", "date-time", "regex"} {
			for _, w := range wraps {
				if strings.HasPrefix(w.schema, `{"not"`) {
					continue // a negated failure is not reported as a format error
				}
				for _, t := range poolTexts {
					emit(&SeenCase{name, w.schema, inst(strings.ReplaceAll(w.doc, "%s", t)), t})
				}
			}
		}
		emit(&SeenCase{"zip", `{"propertyNames":{"format":"F"}}`, inst(`{"nm":1}`), `"nm"`})
		for _, t := range []string{"null", "boolean", "integer", "number", "string", "array", "object"} {
			for _, v := range []string{"null", "true", "1", "1.5", `"s"`, "[1]", `{"a":1}`} {
				k := model.MustParse(v)
				if k.TypeName() == t || t == "number" && k.K == model.Num {
					emit(&SeenCase{"zip", `{"type":` + q(t) + `,"format":"F"}`, inst(v), v})
				}
			}
		}
	})
	names := append([]string{"", " ", "zip", "Zip", "ZIP", "zip ", "é", "date-Time", "DATE", "a.b", "format", "ipv", "ipv44", "date_time", "\n", "$ref"}, formatNames...)
	c.Section("names", fmt.Sprintf("all pairs of %d names", len(names)), asc, func(emit func(Case)) {
		for _, a := range names {
			for _, b := range names {
				emit(&NamesCase{a, b})
			}
		}
	})
	changingCheckers(c)
	c.Section("checkers that use the registry", "2 kinds x 2 names x 6 schemas x 12 documents", asc, func(emit func(Case)) {
		for _, n := range regNames {
			for _, s := range []string{regSchemas[0], regSchemas[5], regSchemas[3]} {
				for _, k := range []string{"removes itself", "adds another"} {
					for _, in := range regDocs {
						emit(&ReentrantCase{n, k, s, in})
					}
				}
			}
		}
	})
	c.Assume = []string{"a schema with an empty format name is left open"}
	c.Rule = "after every prefix of every history the registry and the validations must agree with a map from names to checkers"
	largeRegistry(c)
}
