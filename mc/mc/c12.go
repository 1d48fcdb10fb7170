package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"verifmc/model"

	gjs "github.com/xeipuuv/gojsonschema"
	"github.com/xeipuuv/gojsonschema/verifshim"
)

// ---- exploring iteration orders

// chooser decides the permutation of every map loop of one execution.
type chooser struct {
	dev map[int]int // loop number -> permutation number (0 is the sorted order)
	ns  []int       // sizes of the loops seen
}

var choosers sync.Map // goroutine id -> *chooser

var permCache sync.Map

// perms lists the permutations explored for n keys: all of them up to n=4; above that the
// reversal, all rotations, all "one key first", all "one key last" and all neighbour swaps.
func perms(n int) [][]int {
	if p, ok := permCache.Load(n); ok {
		return p.([][]int)
	}
	id := make([]int, n)
	for i := range id {
		id[i] = i
	}
	var r [][]int
	seen := map[string]bool{}
	add := func(p []int) {
		k := fmt.Sprint(p)
		if !seen[k] {
			seen[k] = true
			r = append(r, append([]int{}, p...))
		}
	}
	add(id)
	if n <= 4 {
		var rec func(p []int, i int)
		rec = func(p []int, i int) {
			if i == n {
				add(p)
				return
			}
			for j := i; j < n; j++ {
				p[i], p[j] = p[j], p[i]
				rec(p, i+1)
				p[i], p[j] = p[j], p[i]
			}
		}
		rec(append([]int{}, id...), 0)
	} else {
		rev := make([]int, n)
		for i := range rev {
			rev[i] = n - 1 - i
		}
		add(rev)
		for s := 1; s < n; s++ {
			rot := append(append([]int{}, id[s:]...), id[:s]...)
			add(rot)
			first := append([]int{s}, append(append([]int{}, id[:s]...), id[s+1:]...)...)
			add(first)
			last := append(append(append([]int{}, id[:s-1]...), id[s:]...), s-1)
			add(last)
			sw := append([]int{}, id...)
			sw[s-1], sw[s] = sw[s], sw[s-1]
			add(sw)
		}
	}
	permCache.Store(n, r)
	return r
}

func (c *chooser) choose(n int) []int {
	i := len(c.ns)
	c.ns = append(c.ns, n)
	return perms(n)[c.dev[i]]
}

var chosen = []int{verifshim.Chosen}

func installChooser() {
	verifshim.Choose = func(n int) []int {
		if c, ok := choosers.Load(goid()); ok {
			return c.(*chooser).choose(n)
		}
		return perms(n)[0]
	}
}

var cappedOrders int64 // explorations that were cut off at the limit

// orders runs f under the sorted order and under every choice of at most bound loops that
// iterate in another order. f returns "" to go on. It returns the number of executions.
func orders(bound, limit int, f func(dev map[int]int) string) (int, string) {
	id := goid()
	runs := 0
	run := func(dev map[int]int) ([]int, string) {
		c := &chooser{dev: dev}
		choosers.Store(id, c)
		defer choosers.Delete(id)
		runs++
		msg := f(dev)
		return c.ns, msg
	}
	var rec func(dev map[int]int, from int, ns []int, left int) string
	rec = func(dev map[int]int, from int, ns []int, left int) string {
		if left == 0 {
			return ""
		}
		for i := from; i < len(ns); i++ {
			for p := 1; p < len(perms(ns[i])); p++ {
				if runs >= limit {
					atomic.AddInt64(&cappedOrders, 1)
					return ""
				}
				d := map[int]int{i: p}
				for k, v := range dev {
					d[k] = v
				}
				ns2, msg := run(d)
				if msg != "" {
					return msg
				}
				if msg := rec(d, i+1, ns2, left-1); msg != "" {
					return msg
				}
			}
		}
		return ""
	}
	ns, msg := run(nil)
	if msg != "" {
		return runs, msg
	}
	return runs, rec(nil, 0, ns, bound)
}

// OrderCase compiles and validates under every iteration order within the bound.
type OrderCase struct {
	V     *Verdict `json:"inputs"`
	Bound int      `json:"deviating_loops"`
	Limit int      `json:"limit"`
}

// Kind names the case type.
func (c *OrderCase) Kind() string { return "orders" }

// observe is what a validation shows.
func observe(res *gjs.Result, err error) string {
	if err != nil || res == nil {
		return fmt.Sprintf("result %v error %v", res != nil, err)
	}
	l := []string{fmt.Sprintf("valid=%v", res.Valid())}
	for _, e := range res.Errors() {
		l = append(l, errKey(e)+" "+e.Description()+" "+e.String())
	}
	sort.Strings(l[1:])
	return strings.Join(l, "\n  ")
}

// Run compares all orders with the sorted one.
func (c *OrderCase) Run(st *Stat) *Fail {
	if verifshim.Choose == nil {
		installChooser()
	}
	if w := c.V.world(); w.Duplicates() || c.V.WF && w.WellFormed() == model.Unspecified {
		return nil
	}
	st.States++
	ref := ""
	var schema *gjs.Schema
	docs := make([]interface{}, len(c.V.Insts))
	for i, in := range c.V.Insts {
		docs[i] = in.V.Go()
	}
	n, msg := orders(c.Bound, c.Limit, func(dev map[int]int) string {
		s, err := c.V.compile()
		obs := fmt.Sprintf("compiles=%v", err == nil)
		if err == nil {
			for i := range docs {
				obs += "\n " + c.V.Insts[i].T + ": " + observe(s.Validate(gjs.NewRawLoader(docs[i])))
			}
		}
		if dev == nil {
			ref, schema = obs, s
		} else if obs != ref {
			return fmt.Sprintf("the outcome depends on the iteration order of an object while compiling. Schema %s, other documents %v.\nsorted order: %s\nother order (%v): %s", c.V.Schema, c.V.Docs, ref, dev, obs)
		}
		return ""
	})
	st.Traces += int64(n)
	st.Transitions += int64(n) * int64(len(docs)+1)
	if msg != "" {
		return &Fail{Msg: msg}
	}
	if schema == nil {
		st.outcome("compilation fails in every order")
		return nil
	}
	for i, in := range c.V.Insts {
		n, msg := orders(c.Bound, c.Limit, func(dev map[int]int) string {
			obs := observe(schema.Validate(gjs.NewRawLoader(docs[i])))
			if dev == nil {
				ref = obs
			} else if obs != ref {
				return fmt.Sprintf("the result depends on the iteration order of an object. Schema %s, document %s.\nsorted order: %s\nother order (%v): %s", c.V.Schema, in.T, ref, dev, obs)
			}
			return ""
		})
		st.Traces += int64(n)
		st.Transitions += int64(n)
		if msg != "" {
			min := *c.V
			min.Insts = []*Inst{in}
			return &Fail{msg, &OrderCase{&min, c.Bound, c.Limit}}
		}
		st.outcome(strings.SplitN(ref, "\n", 2)[0])
	}
	return nil
}

// ---- histories of validations and compilations

// RepeatCase is a sequence of operations on a few schemas and documents.
type RepeatCase struct {
	Schemas []string `json:"schemas"`
	Docs    []*Inst  `json:"documents"`
	Ops     []string `json:"ops"`
}

// Kind names the case type.
func (c *RepeatCase) Kind() string { return "repeat" }

func deepText(x interface{}) string {
	b, err := json.Marshal(x)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

// schemaValue is a schema as a decoded Go value.
func schemaValue(text string) interface{} { return model.MustParse(text).Go() }

// Run executes the history.
func (c *RepeatCase) Run(st *Stat) *Fail {
	st.States++
	var sources []interface{}
	var before []interface{}
	var schemas []*gjs.Schema
	var worlds []*model.World
	compile := func(i int) error {
		s, err := gjs.NewSchema(gjs.NewRawLoader(sources[i]))
		if err == nil {
			schemas[i] = s
		}
		return err
	}
	schemas = make([]*gjs.Schema, len(c.Schemas))
	for i, t := range c.Schemas {
		sources = append(sources, schemaValue(t))
		before = append(before, schemaValue(t))
		worlds = append(worlds, model.NewWorld(model.Hybrid, model.MustParse(t)))
		if err := compile(i); err != nil {
			return failf("compiling %s: %v", t, err)
		}
	}
	var docs, docsBefore []interface{}
	for _, d := range c.Docs {
		docs = append(docs, d.V.Go())
		docsBefore = append(docsBefore, d.V.Go())
	}
	type kept struct {
		res  *gjs.Result
		obs  string
		what string
	}
	var results []kept
	for i, op := range c.Ops {
		st.Transitions++
		var a, b int
		switch {
		case strings.HasPrefix(op, "validate"):
			st.Traces++
			fmt.Sscanf(op, "validate schema %d document %d", &a, &b)
			res, err := schemas[a].Validate(gjs.NewRawLoader(docs[b]))
			if err != nil {
				return failf("after %q, %s: %v", c.Ops[:i], op, err)
			}
			if res.Valid() != worlds[a].Valid(c.Docs[b].V) {
				return failf("after %q, %s: schema %s, document %s: valid=%v", c.Ops[:i], op, c.Schemas[a], c.Docs[b].T, res.Valid())
			}
			var keys []string
			for _, e := range res.Errors() {
				keys = append(keys, errKey(e))
			}
			if rep := worlds[a].Report(c.Docs[b].V); !rep.Match(keys) {
				return failf("after %q, %s: schema %s, document %s: errors %q, expected %s", c.Ops[:i], op, c.Schemas[a], c.Docs[b].T, keys, rep)
			}
			results = append(results, kept{res, observe(res, nil), op})
		case strings.HasPrefix(op, "compile"):
			st.Traces++
			fmt.Sscanf(op, "compile schema %d", &a)
			if err := compile(a); err != nil {
				return failf("after %q, %s: %v", c.Ops[:i], op, err)
			}
		case strings.HasPrefix(op, "name schema 0 "):
			schemas[0].SetRootSchemaName(strings.TrimPrefix(op, "name schema 0 "))
		case op == "fail to compile":
			bad := schemaValue(`{"definitions":{"n":{"type":"object"}},"type":"strin"}`)
			if _, err := gjs.NewSchema(gjs.NewRawLoader(bad)); err == nil {
				return failf("compiling a malformed schema succeeds")
			}
		case op == "tamper":
			if len(results) == 0 {
				break
			}
			r := results[len(results)-1].res
			results = results[:len(results)-1]
			for _, e := range r.Errors() {
				for k := range e.Details() {
					e.Details()[k] = "tampered"
				}
				e.Details()["more"] = 1
				e.SetType("tampered")
				e.SetDescription("tampered")
				e.SetDescriptionFormat("tampered")
				e.SetContext(gjs.NewJsonContext("tampered", nil))
				e.SetValue("tampered")
			}
			e := &customError{}
			e.SetContext(gjs.NewJsonContext("(root)", nil))
			e.SetDescriptionFormat("x")
			r.AddError(e, gjs.ErrorDetails{})
			for j := range r.Errors() {
				r.Errors()[j] = e
			}
		}
		for _, k := range results {
			if o := observe(k.res, nil); o != k.obs {
				return failf("%q: the result of %q changed from\n%s\nto\n%s", c.Ops[:i+1], k.what, k.obs, o)
			}
		}
	}
	for i := range sources {
		if !reflect.DeepEqual(sources[i], before[i]) {
			return failf("%q changed the schema value the caller passed in from %s to %s", c.Ops, c.Schemas[i], deepText(sources[i]))
		}
	}
	for i := range docs {
		if !reflect.DeepEqual(docs[i], docsBefore[i]) {
			return failf("%q changed the document the caller passed in from %s to %s", c.Ops, c.Docs[i].T, deepText(docs[i]))
		}
	}
	st.outcome(fmt.Sprintf("%d results kept", len(results)))
	return nil
}

// ---- changes by the caller

// MutateCase compiles a schema from Go values, then changes those values at one place at a time.
type MutateCase struct {
	Draft  model.Draft `json:"draft"`
	Via    string      `json:"via"`
	Schema string      `json:"schema"`
	Other  string      `json:"other,omitempty"` // the document http://o/d
	Insts  []*Inst     `json:"documents"`
}

// Kind names the case type.
func (c *MutateCase) Kind() string { return "mutate" }

// site is one place in a decoded value and the changes possible there.
func sites(x interface{}, f func(change func())) {
	repl := []interface{}{nil, false, true, "x", json.Number("1"), map[string]interface{}{"not": map[string]interface{}{}}, []interface{}{}}
	switch t := x.(type) {
	case map[string]interface{}:
		ks := make([]string, 0, len(t))
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			k := k
			f(func() { delete(t, k) })
			for _, r := range repl {
				r := r
				f(func() { t[k] = r })
			}
			sites(t[k], f)
		}
		f(func() { t["not"] = map[string]interface{}{} })
		f(func() { t["$ref"] = "#/nowhere" })
		f(func() { t["type"] = "null" })
		f(func() {
			for k := range t {
				delete(t, k)
			}
		})
	case []interface{}:
		for i := range t {
			i := i
			for _, r := range repl {
				r := r
				f(func() { t[i] = r })
			}
			sites(t[i], f)
		}
	}
}

func (c *MutateCase) build() (src, other interface{}, s *gjs.Schema, err error) {
	src, other, sl, err := c.prepare()
	if err == nil && sl != nil {
		s, err = sl.compile()
	}
	return src, other, s, err
}

// prepared is a loader with everything registered.
type prepared struct{ compile func() (*gjs.Schema, error) }

func (c *MutateCase) prepare() (src, other interface{}, p *prepared, err error) {
	src = schemaValue(c.Schema)
	sl := gjs.NewSchemaLoader()
	sl.Draft = libDraft(c.Draft)
	if c.Other != "" {
		other = schemaValue(c.Other)
		if err = sl.AddSchema("http://o/d", gjs.NewRawLoader(other)); err != nil {
			return
		}
	}
	switch c.Via {
	case "raw":
		p = &prepared{func() (*gjs.Schema, error) { return sl.Compile(gjs.NewRawLoader(src)) }}
	case "go":
		p = &prepared{func() (*gjs.Schema, error) { return sl.Compile(gjs.NewGoLoader(src)) }}
	case "add", "later", "again":
		if err = sl.AddSchema("http://m/s", gjs.NewRawLoader(src)); err != nil {
			return
		}
		p = &prepared{func() (*gjs.Schema, error) { return sl.Compile(gjs.NewReferenceLoader("http://m/s")) }}
		if c.Via == "again" {
			_, err = p.compile()
		}
	case "bytes":
		b, _ := json.Marshal(src)
		src = b
		p = &prepared{func() (*gjs.Schema, error) { return sl.Compile(gjs.NewBytesLoader(b)) }}
	}
	return
}

// Run makes every single change.
func (c *MutateCase) Run(st *Stat) *Fail {
	st.States++
	w := model.NewWorld(c.Draft, model.MustParse(c.Schema))
	if c.Other != "" {
		w.Docs["http://o/d"] = model.MustParse(c.Other)
	}
	obs := func(s *gjs.Schema) string {
		l := []string{}
		for _, in := range c.Insts {
			st.Traces++
			l = append(l, in.T+": "+observe(s.Validate(gjs.NewRawLoader(in.V.Go()))))
		}
		return strings.Join(l, "\n ")
	}
	src, other, s, err := c.build()
	if err != nil {
		return failf("compiling %s: %v", c.Schema, err)
	}
	ref := obs(s)
	for _, in := range c.Insts {
		if strings.Contains(c.Schema, `"format"`) {
			break
		}
		if want := w.Valid(in.V); !strings.Contains(ref, in.T+": valid="+strconv.FormatBool(want)) {
			return failf("schema %s, document %s: valid is not %v\n%s", c.Schema, in.T, want, ref)
		}
	}
	if !reflect.DeepEqual(src, schemaValue(c.Schema)) && c.Via != "bytes" {
		return failf("compiling changed the schema value of the caller from %s to %s", c.Schema, deepText(src))
	}
	if other != nil && !reflect.DeepEqual(other, schemaValue(c.Other)) {
		return failf("compiling changed the registered schema value of the caller from %s to %s", c.Other, deepText(other))
	}
	if c.Via == "bytes" {
		b := src.([]byte)
		for i := range b {
			b[i] = 'x'
		}
		if o := obs(s); o != ref {
			return failf("schema %s: overwriting the bytes it was compiled from changes its meaning from\n %s\nto\n %s", c.Schema, ref, o)
		}
		return nil
	}
	late := c.Via == "later" || c.Via == "again"
	which := func(n int) (interface{}, interface{}, *prepared, func()) {
		src, other, p, err := c.prepare()
		if err != nil {
			return nil, nil, nil, nil
		}
		var ch func()
		i := 0
		take := func(f func()) {
			if i == n {
				ch = f
			}
			i++
		}
		sites(src, take)
		if other != nil {
			sites(other, take)
		}
		return src, other, p, ch
	}
	for n := 0; ; n++ {
		src, other, p, ch := which(n)
		if p == nil {
			return failf("registering %s again fails", c.Schema)
		}
		if ch == nil {
			break
		}
		if late { // everything is registered already
			ch()
		}
		s, err := p.compile()
		if err != nil {
			return failf("compiling %s (other document %s) via %s fails: %v; the caller's values are %s / %s", c.Schema, c.Other, c.Via, err, deepText(src), deepText(other))
		}
		if !late {
			ch()
		}
		st.Transitions++
		if o := obs(s); o != ref {
			return failf("schema %s (other document %s) via %s: after the caller changed its value to %s / %s the compiled schema answers\n %s\ninstead of\n %s", c.Schema, c.Other, c.Via, deepText(src), deepText(other), o, ref)
		}
	}
	st.outcome("mutated via " + c.Via)
	return nil
}

func init() {
	kinds["orders"] = func() Case { return &OrderCase{} }
	kinds["repeat"] = func() Case { return &RepeatCase{} }
	kinds["mutate"] = func() Case { return &MutateCase{} }
	checks["C12"] = c12
}

// richSchemas have several objects each, so that iteration order could matter.
var richSchemas = []string{
	`{"properties":{"a":{"type":"string"},"b":{"type":"string"},"c":{"type":"string"}}}`,
	`{"properties":{"a":{"enum":[1]},"b":{"enum":[2]}},"patternProperties":{"a":{"type":"string"},"b":{"type":"string"},"[ab]":{"type":"null"}}}`,
	`{"patternProperties":{"a":{"type":"string"},"^a":{"maxLength":1},"a$":{"minimum":5}},"additionalProperties":{"type":"null"}}`,
	`{"patternProperties":{"a":{},"b":{}},"additionalProperties":false}`,
	`{"properties":{"a":{},"b":{}},"additionalProperties":false}`,
	`{"dependencies":{"a":["b","z"],"b":["a","y"],"c":{"required":["x"]}}}`,
	`{"dependencies":{"a":{"properties":{"b":{"type":"string"}}},"b":{"properties":{"a":{"type":"string"}}}}}`,
	`{"propertyNames":{"pattern":"^[bc]$"}}`,
	`{"propertyNames":{"anyOf":[{"pattern":"a"},{"minLength":2}]}}`,
	`{"anyOf":[{"properties":{"a":{"type":"string"},"b":{"type":"string"}}},{"properties":{"a":{"type":"null"},"b":{"type":"number"}}},{"required":["z"]}]}`,
	`{"oneOf":[{"properties":{"a":{"type":"string"}},"required":["z"]},{"properties":{"b":{"type":"string"}},"required":["y"]}]}`,
	`{"oneOf":[{"patternProperties":{"a":{"type":"null"},"b":{"type":"null"}}},{"additionalProperties":{"type":"null"}}]}`,
	`{"anyOf":[{"additionalProperties":{"type":"string"}},{"additionalProperties":{"enum":[1,2]}}]}`,
	`{"definitions":{"a":{"type":"string"},"b":{"$ref":"#/definitions/a"},"c":{"$ref":"#/definitions/b"}},"properties":{"a":{"$ref":"#/definitions/c"},"b":{"$ref":"#/definitions/a"}}}`,
	`{"definitions":{"a":{"properties":{"a":{"$ref":"#/definitions/b"}},"type":"object"},"b":{"properties":{"b":{"$ref":"#/definitions/a"}},"type":"object"}},"allOf":[{"$ref":"#/definitions/a"},{"$ref":"#/definitions/b"}]}`,
	`{"$id":"http://x/root","definitions":{"a":{"$id":"a.json","type":"string"},"b":{"$id":"sub/b.json","definitions":{"c":{"$id":"c.json","type":"null"}}}},"properties":{"a":{"$ref":"a.json"},"b":{"$ref":"sub/c.json"}}}`,
	`{"$id":"http://x/root","definitions":{"a":{"$id":"#n","type":"string"},"b":{"$id":"#m","type":"null"}},"properties":{"a":{"$ref":"#n"},"b":{"$ref":"#m"},"c":{"$ref":"http://x/root#m"}}}`,
	`{"definitions":{"a":{"$id":"http://y/a","properties":{"a":{"$ref":"#/definitions/q"}},"definitions":{"q":{"type":"null"}}},"b":{"properties":{"b":{"$ref":"http://y/a"}}}},"allOf":[{"$ref":"http://y/a"},{"$ref":"#/definitions/b"}]}`,
	`{"properties":{"a":{"$ref":"#/properties/b"},"b":{"$ref":"#/properties/c"},"c":{"type":"string"}}}`,
	`{"contains":{"properties":{"a":{"type":"string"},"b":{"type":"null"}},"required":["a"]},"items":{"properties":{"a":{"minimum":5},"b":{"minimum":5}}}}`,
	`{"uniqueItems":true,"items":{"properties":{"a":{"type":"string"},"b":{"type":"string"}}}}`,
	`{"enum":[{"a":1,"b":2},{"b":1,"a":2},[{"x":1,"y":2}]]}`,
	`{"const":{"a":1,"b":{"c":[{"d":1,"e":2}],"f":null}}}`,
	`{"not":{"properties":{"a":{"type":"number"},"b":{"type":"number"}},"required":["a"]}}`,
	`{"if":{"properties":{"a":{"type":"number"},"b":{"type":"string"}}},"then":{"required":["t"]},"else":{"required":["e"],"properties":{"a":{"type":"null"},"b":{"type":"null"}}}}`,
	`{"allOf":[{"properties":{"a":{"type":"string"}}},{"patternProperties":{"a|b":{"type":"null"}}}],"minProperties":9,"maxProperties":10,"required":["p","q"]}`,
	`{"additionalProperties":{"additionalProperties":{"type":"string"},"minProperties":2}}`,
	`{"$ref":"#/definitions/x","definitions":{"x":{"properties":{"a":{"$ref":"#/definitions/y"},"b":{"$ref":"#/definitions/y"}}},"y":{"anyOf":[{"type":"string"},{"type":"object","additionalProperties":{"$ref":"#/definitions/y"}}]}}}`,
}

var richMalformed = []string{
	`{"properties":{"a":{"type":"x"},"b":{"type":"string"},"c":{}}}`,
	`{"properties":{"a":{"$ref":"#/nowhere"},"b":{"type":"string"}},"definitions":{"q":{},"r":{}}}`,
	`{"definitions":{"a":{"minLength":-1},"b":{"$ref":"#/definitions/a"},"c":{}},"properties":{"a":{"$ref":"#/definitions/b"},"b":{"$ref":"#/definitions/c"}}}`,
	`{"patternProperties":{"(":{},"a":{}},"dependencies":{"a":["b"],"b":{}}}`,
	`{"dependencies":{"a":1,"b":["a"],"c":{}}}`,
	`{"$id":"http://x/r","definitions":{"a":{"$id":"a","properties":{"a":{"$ref":"b"}}},"b":{"$id":"c"}},"properties":{"a":{"$ref":"a"},"b":{"$ref":"c"}}}`,
}

var richDocs = []string{`{"a":1,"b":2}`, `{"a":"s","b":"t","c":3}`, `{"a":{"b":{"a":1,"b":2}},"b":{"a":{}}}`, `[{"a":1,"b":2},{"b":2,"a":1},{"a":3}]`, `{"a":1,"b":2,"ab":3,"ba":"q"}`, `{}`, `{"b":1,"c":[],"a":null}`, `{"b":{"c":[{"e":2,"d":1}],"f":null},"a":1}`}

func c12(c *Ctx) {
	installChooser()
	bound := c.Pick(2, 3)
	limit := c.Pick(1000, 20000)
	if !verifshim.Instrumented {
		c.notes = append(c.notes, "the build is not instrumented: iteration orders are not controlled")
	}
	c.Section("orders of rich schemas", fmt.Sprintf("every execution in which at most %d object iterations deviate from the sorted order (cut off at %d executions), per compilation and per validation", bound, limit), chosen, func(emit func(Case)) {
		for _, s := range append(append([]string{}, richSchemas...), richMalformed...) {
			for _, d := range []model.Draft{model.Hybrid, model.D7} {
				emit(&OrderCase{&Verdict{Draft: d, Schema: s, Insts: insts(richDocs...), MayRef: true, WF: true}, bound, limit})
			}
		}
		for _, s := range richSchemas {
			// the same schema in a registered document, reached by reference
			if !strings.Contains(s, `"$id"`) {
				emit(&OrderCase{&Verdict{Draft: model.D7, Schema: `{"allOf":[{"$ref":"http://o/d"},{"$ref":"http://o/e#/definitions/z"}]}`, Docs: map[string]string{"http://o/d": s, "http://o/e": `{"definitions":{"y":{"type":"null"},"z":{"$ref":"d"}}}`}, Insts: insts(richDocs...), MayRef: true}, bound, limit})
			}
		}
	})
	c.Section("orders of pairs of rich schemas", "allOf, anyOf and oneOf of every pair of 20 rich schemas without identifiers, at most 1 deviating iteration", chosen, func(emit func(Case)) {
		var l []string
		for _, s := range richSchemas {
			if !strings.Contains(s, "$ref") && !strings.Contains(s, `"$id"`) {
				l = append(l, s)
			}
		}
		for i, a := range l {
			for j, b := range l {
				for k, op := range []string{"allOf", "anyOf", "oneOf"} {
					if k == 0 && j < i {
						continue
					}
					emit(&OrderCase{&Verdict{Draft: model.D7, Schema: `{"` + op + `":[` + a + `,` + b + `]}`, Insts: insts(richDocs...)}, c.Pick(1, 2), limit})
				}
			}
		}
	})
	c.mapCase = func(cs Case) Case {
		if v, ok := cs.(*Verdict); ok {
			n := *v
			if len(n.Insts) > 6 && !c.Thorough() {
				// the documents with the most members: those have orders
				l := append([]*Inst{}, n.Insts...)
				sort.SliceStable(l, func(i, j int) bool { return len(l[i].T) > len(l[j].T) })
				n.Insts = l[:6]
			}
			return &OrderCase{&n, 1, 2000}
		}
		return cs
	}
	wanted := map[string]bool{"arbitrary member names": true, "dependencies": true, "object keyword pairs and triples": true, "recursive schemas": true, "plain names": true, "lookalikes are data": true, "pairs of members": true}
	if c.Thorough() {
		wanted["properties x patternProperties x additionalProperties"] = true
		wanted["identifiers and bases"] = true
		wanted["pointer spelling"] = true
		wanted["position of $ref x position of target"] = true
		wanted["keywords next to $ref are ignored"] = true
		wanted["in a referenced document"] = true
	}
	c.skip = func(n string) bool { return !wanted[n] }
	c.once = chosen
	for _, f := range []func(*Ctx){c03, c05, c08} {
		f(c)
	}
	c.mapCase, c.skip, c.once = nil, nil, nil

	groups := []struct{ schemas, docs []string }{
		{[]string{richSchemas[13], richSchemas[14], `{"properties":{"a":{"$ref":"#"}},"type":"object"}`}, []string{`{"a":{"b":{"a":1}},"b":{}}`, `{"a":"s","b":"t"}`, `{"a":{"a":{}}}`}},
		{[]string{richSchemas[9], richSchemas[10], richSchemas[24]}, []string{`{"a":1,"b":2}`, `{"a":"s","b":"t"}`, `[]`}},
		{[]string{richSchemas[1], richSchemas[5], richSchemas[7]}, []string{`{"a":1,"b":2}`, `{"a":"s","c":null}`, `{"c":1}`}},
		{[]string{`{"uniqueItems":true,"items":{"type":"number"}}`, `{"contains":{"minimum":2},"maxItems":2}`, `{"items":[{"type":"null"}],"additionalItems":false}`}, []string{`[3,1,1.0]`, `[1]`, `[null,{"b":1,"a":2}]`}},
		{[]string{`{"enum":[[2,1],{"b":1,"a":[3,1]},1.0]}`, `{"const":{"a":[3,1],"b":1},"multipleOf":0.5}`, `{"pattern":"^a","minLength":2,"maximum":1}`}, []string{`{"b":1.0,"a":[3,1]}`, `1`, `"ab"`}},
		{[]string{richSchemas[15], richSchemas[16], richSchemas[17]}, []string{`{"a":1,"b":null}`, `{"a":"s","b":1}`, `{"a":null}`}},
	}
	n := c.Pick(4, 5)
	c.Section("histories", fmt.Sprintf("all sequences of up to %d of 14 operations (validate 3x3, compile again, fail to compile, tamper with the last result) on 6 groups of schemas", n), chosen, func(emit func(Case)) {
		for _, g := range groups {
			var ops []string
			for i := range g.schemas {
				for j := range g.docs {
					ops = append(ops, fmt.Sprintf("validate schema %d document %d", i, j))
				}
				ops = append(ops, fmt.Sprintf("compile schema %d", i))
			}
			ops = append(ops, "fail to compile", "tamper")
			ds := insts(g.docs...)
			for k := 1; k <= n; k++ {
				tuples(ops, k, func(t []string) {
					if !strings.HasPrefix(t[k-1], "validate") {
						return
					}
					emit(&RepeatCase{g.schemas, ds, append([]string{}, t...)})
				})
			}
		}
	})
	c.Section("one schema, many documents", "all sequences of 2 validations by one compiled schema over 20 documents (3 in the thorough tier)", chosen, func(emit func(Case)) {
		docs := append(append([]string{}, richDocs...), smallPoolTexts[:12]...)
		for _, s := range richSchemas {
			ds := insts(docs...)
			for k := range docs {
				for j := range docs {
					o := []string{fmt.Sprintf("validate schema 0 document %d", k), fmt.Sprintf("validate schema 0 document %d", j)}
					emit(&RepeatCase{[]string{s}, ds, o})
					if c.Thorough() {
						for i := range docs {
							emit(&RepeatCase{[]string{s}, ds, append(append([]string{}, o...), fmt.Sprintf("validate schema 0 document %d", i))})
						}
					}
				}
			}
		}
	})
	rootNames(c)
	callersValues(c)
	largeCallersValues(c)
	c.Section("changes by the caller", "every single change (delete, 7 replacements, additions) at every place of the schema value, after compiling from a raw value, a Go value, a registered value or bytes, or after registering and before (again) compiling", chosen, func(emit func(Case)) {
		docs := insts(richDocs...)
		for _, via := range []string{"raw", "go", "add", "later", "again", "bytes"} {
			for _, s := range richSchemas {
				if (via == "add" || via == "later" || via == "again") && strings.Contains(s, `"$id":"http://x`) {
					continue
				}
				emit(&MutateCase{model.Hybrid, via, s, "", docs})
			}
			for _, d := range drafts() {
				for _, k := range keywordForms(d) {
					emit(&MutateCase{d, via, "{" + k + "}", "", insts(smallPoolTexts...)})
				}
			}
		}
		for _, s := range richSchemas {
			if !strings.Contains(s, `"$id"`) {
				emit(&MutateCase{model.Hybrid, "raw", `{"allOf":[{"$ref":"http://o/d"}]}`, s, docs})
				emit(&MutateCase{model.Hybrid, "add", `{"properties":{"a":{"$ref":"http://o/d"}}}`, s, docs})
				emit(&MutateCase{model.Hybrid, "later", `{"allOf":[{"$ref":"http://o/d"}]}`, s, docs})
			}
		}
	})
	c.extra["order_explorations_cut_off_at_the_limit"] = atomic.LoadInt64(&cappedOrders)
	c.Assume = []string{"sorted keys and the listed permutations are the iteration orders of an object with more than 4 members", "which error a compilation with several malformed keywords returns is left open"}
	c.Rule = "an execution under any explored order, history or caller-made change must show the same verdict and the same set of errors as the execution in sorted order on its own"
	reused(c)
	largeRepeats(c)
}
