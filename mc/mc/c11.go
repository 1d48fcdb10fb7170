package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"sync/atomic"
	"text/template"

	"verifmc/model"

	gjs "github.com/xeipuuv/gojsonschema"
)

// tpl prints the request and every detail.
func (l taggedLocale) tpl(name string) string {
	if l.fresh != "" {
		return l.freshText(name)
	}
	return l.tag + "|" + name + "|{{range $k,$v := .}}{{$k}}={{$v}};{{end}}"
}

// render is the reference rendering.
func render(tpl string, funcs template.FuncMap, details map[string]interface{}) (string, error) {
	t := template.New("x")
	if funcs != nil {
		t.Funcs(funcs)
	}
	t, err := t.Parse(tpl)
	if err != nil {
		return "", err
	}
	var b bytes.Buffer
	if err := t.Execute(&b, details); err != nil {
		return "", err
	}
	return b.String(), nil
}

// kindsOfError maps error types to the locale request and the documented Go type.
var kindsOfError = map[string][2]string{
	"false": {"False", "FalseError"}, "required": {"Required", "RequiredError"}, "invalid_type": {"InvalidType", "InvalidTypeError"},
	"number_any_of": {"NumberAnyOf", "NumberAnyOfError"}, "number_one_of": {"NumberOneOf", "NumberOneOfError"}, "number_all_of": {"NumberAllOf", "NumberAllOfError"},
	"number_not": {"NumberNot", "NumberNotError"}, "missing_dependency": {"MissingDependency", "MissingDependencyError"}, "internal": {"Internal", "InternalError"},
	"const": {"Const", "ConstError"}, "enum": {"Enum", "EnumError"}, "array_no_additional_items": {"ArrayNoAdditionalItems", "ArrayNoAdditionalItemsError"},
	"array_min_items": {"ArrayMinItems", "ArrayMinItemsError"}, "array_max_items": {"ArrayMaxItems", "ArrayMaxItemsError"}, "unique": {"Unique", "ItemsMustBeUniqueError"},
	"contains": {"ArrayContains", "ArrayContainsError"}, "array_min_properties": {"ArrayMinProperties", "ArrayMinPropertiesError"},
	"array_max_properties": {"ArrayMaxProperties", "ArrayMaxPropertiesError"}, "additional_property_not_allowed": {"AdditionalPropertyNotAllowed", "AdditionalPropertyNotAllowedError"},
	"invalid_property_name": {"InvalidPropertyName", "InvalidPropertyNameError"}, "string_gte": {"StringGTE", "StringLengthGTEError"}, "string_lte": {"StringLTE", "StringLengthLTEError"},
	"pattern": {"DoesNotMatchPattern", "DoesNotMatchPatternError"}, "format": {"DoesNotMatchFormat", "DoesNotMatchFormatError"}, "multiple_of": {"MultipleOf", "MultipleOfError"},
	"number_gte": {"NumberGTE", "NumberGTEError"}, "number_gt": {"NumberGT", "NumberGTError"}, "number_lte": {"NumberLTE", "NumberLTEError"}, "number_lt": {"NumberLT", "NumberLTError"},
	"condition_then": {"ConditionThen", "ConditionThenError"}, "condition_else": {"ConditionElse", "ConditionElseError"},
}

// view is what the model knows about the rendering environment.
type view struct {
	text   func(method string) string
	format string
	funcs  template.FuncMap
}

func defaultView() view {
	return view{func(m string) string { return defaultTexts[m] }, defaultTexts["ErrorFormat"], nil}
}

func taggedView(l taggedLocale) view { return view{l.tpl, l.format, nil} }

func plain(d gjs.ErrorDetails) map[string]interface{} { return map[string]interface{}(d) }

// checkText judges one error as it was just reported under the view.
func checkText(e gjs.ResultError, v view) string {
	k, ok := kindsOfError[e.Type()]
	if !ok {
		return fmt.Sprintf("undocumented error type %q", e.Type())
	}
	if n := reflect.TypeOf(e).Elem().Name(); n != k[1] {
		return fmt.Sprintf("error type %q has the Go type %s, documented is %s", e.Type(), n, k[1])
	}
	tpl := v.text(k[0])
	if e.DescriptionFormat() != tpl {
		return fmt.Sprintf("%s: description format %q, the locale says %q", e.Type(), e.DescriptionFormat(), tpl)
	}
	want, err := render(tpl, v.funcs, plain(e.Details()))
	if err != nil {
		return "" // a template that cannot be rendered: the text is not specified
	}
	if e.Description() != want {
		return fmt.Sprintf("%s: text %q, the locale's template gives %q", e.Type(), e.Description(), want)
	}
	return checkFields(e, v)
}

// checkFields judges field, context and the printed form of an error.
func checkFields(e gjs.ResultError, v view) string {
	ctx := e.Context().String()
	segs := strings.Split(e.Context().String("\x1f"), "\x1f")
	if strings.Join(segs, ".") != ctx {
		return fmt.Sprintf("context %q, with another delimiter %q", ctx, segs)
	}
	for _, del := range []string{"/", "", ".", "<->", "\n"} {
		if g := e.Context().String(del); g != strings.Join(segs, del) {
			return fmt.Sprintf("context %q with delimiter %q is %q", segs, del, g)
		}
	}
	field := ctx
	if len(segs) > 1 && segs[0] == "(root)" {
		field = strings.Join(segs[1:], ".")
	}
	if e.Field() != field {
		return fmt.Sprintf("field %q of the context %q", e.Field(), ctx)
	}
	val := "null"
	if e.Value() != nil {
		if b, err := json.Marshal(e.Value()); err == nil {
			val = string(b)
		} else {
			val = fmt.Sprintf("%v", e.Value())
		}
	}
	want, err := render(v.format, v.funcs, map[string]interface{}{"context": ctx, "description": e.Description(), "value": val, "field": field})
	if err == nil && e.String() != want {
		return fmt.Sprintf("error prints as %q, the locale's error format gives %q", e.String(), want)
	}
	return ""
}

func setLocale(name string) view {
	switch name {
	case "tagged":
		l := taggedLocale{tag: "T", format: "{{.context}}~{{.field}}~{{.value}}~{{.description}}"}
		gjs.Locale = l
		return taggedView(l)
	}
	gjs.Locale = gjs.DefaultLocale{}
	return defaultView()
}

// TextCase validates documents and judges the text of every error.
type TextCase struct {
	Locale string      `json:"locale"`
	Draft  model.Draft `json:"draft"`
	Schema string      `json:"schema"`
	Insts  []*Inst     `json:"documents"`
	Want   string      `json:"expect_text,omitempty"` // one of the errors prints as this
}

// Kind names the case type.
func (c *TextCase) Kind() string { return "text" }

// Run judges it.
func (c *TextCase) Run(st *Stat) *Fail {
	st.States++
	sl := gjs.NewSchemaLoader()
	sl.Draft = libDraft(c.Draft)
	s, err := sl.Compile(gjs.NewStringLoader(c.Schema))
	if err != nil {
		return failf("compiling %s: %v", c.Schema, err)
	}
	v := setLocale(c.Locale)
	defer setLocale("default")
	for _, in := range c.Insts {
		st.Traces++
		res, err := s.Validate(gjs.NewStringLoader(in.T))
		if err != nil {
			return failf("validating %s: %v", in.T, err)
		}
		var all []string
		for _, e := range res.Errors() {
			st.Transitions++
			st.outcome(c.Locale + " " + e.Type())
			if k := errKey(e); strings.HasPrefix(k, "!") {
				return failf("schema %s, document %s: %s", c.Schema, in.T, k)
			}
			if msg := checkText(e, v); msg != "" {
				return failf("%s locale, schema %s, document %s: %s", c.Locale, c.Schema, in.T, msg)
			}
			all = append(all, e.String())
		}
		if c.Want != "" {
			if len(all) != 1 || all[0] != c.Want {
				return failf("schema %s, document %s: errors print as %q, expected %q", c.Schema, in.T, all, c.Want)
			}
		}
	}
	return nil
}

// CompileText compiles a malformed schema and judges the text of the error.
type CompileText struct {
	Locale  string                 `json:"locale"`
	Draft   model.Draft            `json:"draft"`
	Wrap    string                 `json:"wrap,omitempty"` // %s is the schema
	Schema  string                 `json:"schema"`
	Method  string                 `json:"locale_method"`
	Details map[string]interface{} `json:"details"`
}

// Kind names the case type.
func (c *CompileText) Kind() string { return "compile-text" }

// Run judges it.
func (c *CompileText) Run(st *Stat) *Fail {
	st.States++
	st.Traces++
	v := setLocale(c.Locale)
	defer setLocale("default")
	text := c.Schema
	if c.Wrap != "" {
		text = strings.ReplaceAll(c.Wrap, "%s", c.Schema)
	}
	sl := gjs.NewSchemaLoader()
	sl.Draft = libDraft(c.Draft)
	s, err := sl.Compile(gjs.NewStringLoader(text))
	if err == nil || s != nil {
		return failf("compiling %s (%v): schema %v, error %v", text, c.Draft, s, err)
	}
	want, rerr := render(v.text(c.Method), nil, c.Details)
	if rerr != nil {
		panic("harness: " + rerr.Error())
	}
	st.outcome(c.Locale + " compile " + c.Method)
	if err.Error() != want {
		return failf("%s locale, compiling %s (%v): error %q, expected %q", c.Locale, text, c.Draft, err.Error(), want)
	}
	return nil
}

// PathCase prints a context path.
type PathCase struct {
	Segs []string `json:"segments"`
	Dels []string `json:"delimiters"`
}

// Kind names the case type.
func (c *PathCase) Kind() string { return "path" }

// Run judges it.
func (c *PathCase) Run(st *Stat) *Fail {
	st.States++
	var ctx *gjs.JsonContext
	for _, s := range c.Segs {
		prev := ctx
		ctx = gjs.NewJsonContext(s, prev)
	}
	for _, d := range c.Dels {
		st.Traces++
		if g, w := ctx.String(d), strings.Join(c.Segs, d); g != w {
			return failf("context %q with delimiter %q prints as %q", c.Segs, d, g)
		}
	}
	if g, w := ctx.String(), strings.Join(c.Segs, "."); g != w {
		return failf("context %q prints as %q", c.Segs, g)
	}
	e := &customError{}
	e.SetContext(ctx)
	want := strings.Join(c.Segs, ".")
	if len(c.Segs) > 1 && c.Segs[0] == "(root)" {
		want = strings.Join(c.Segs[1:], ".")
	}
	if c.Segs[0] == "(root)" || !strings.HasPrefix(want, "(root).") {
		if e.Field() != want {
			return failf("the field of context %q is %q, not %q", c.Segs, e.Field(), want)
		}
	}
	return nil
}

type customError struct{ gjs.ResultErrorFields }

// TextHistory is a sequence of locale changes, renderings and user errors in one process.
type TextHistory struct {
	Ops []string `json:"ops"`
}

// Kind names the case type.
func (c *TextHistory) Kind() string { return "text-history" }

var freshTag int64

type histLocale struct {
	taggedLocale
	fn string
}

func (l histLocale) tplf(name string) string {
	return l.tag + "|" + name + "|{{" + l.fn + " .field}}|{{range $k,$v := .}}{{$k}}={{$v}};{{end}}"
}
func (l histLocale) Required() string    { return l.tplf("Required") }
func (l histLocale) InvalidType() string { return l.tplf("InvalidType") }
func (l histLocale) Enum() string        { return l.tplf("Enum") }

var histSchemas, histDocs = []string{
	`{"required":["p","q"],"properties":{"a":{"type":"string"},"b":{"enum":[1,"x"]}}}`,
	`{"minProperties":3,"additionalProperties":false}`,
}, []string{`{"a":1,"b":2}`, `{"a":[],"b":"y","c":3}`}

type keptError struct {
	e    gjs.ResultError
	desc string
}

// Run executes the history; expectations follow from the model state (locale, functions).
func (c *TextHistory) Run(st *Stat) *Fail {
	st.States++
	id := atomic.AddInt64(&freshTag, 1)
	defer func() { gjs.Locale = gjs.DefaultLocale{}; gjs.ErrorTemplateFuncs = nil }()
	gjs.ErrorTemplateFuncs = nil
	var schemas []*gjs.Schema
	for _, s := range histSchemas {
		sc, err := gjs.NewSchema(gjs.NewStringLoader(s))
		if err != nil {
			panic("harness: " + err.Error())
		}
		schemas = append(schemas, sc)
	}
	v := defaultView()
	f1, f2 := fmt.Sprintf("fa%d", id), fmt.Sprintf("fb%d", id)
	funcs := template.FuncMap{}
	addFunc := func(n string, f interface{}) {
		m := template.FuncMap{}
		for k, x := range funcs {
			m[k] = x
		}
		m[n] = f
		funcs = m
		gjs.ErrorTemplateFuncs = m
		v.funcs = m
	}
	var kept []keptError
	var results []*gjs.Result
	for i, op := range c.Ops {
		st.Transitions++
		where := func() string { return fmt.Sprintf("after %v, step %d (%s)", c.Ops[:i], i, op) }
		switch op {
		case "default locale":
			gjs.Locale = gjs.DefaultLocale{}
			v.text, v.format = defaultView().text, defaultView().format
		case "locale A", "locale B":
			l := taggedLocale{tag: fmt.Sprintf("%s%d", op[7:], id), format: op[7:] + "({{.field}})[{{.description}}]"}
			gjs.Locale = l
			v.text, v.format = l.tpl, l.format
		case "locale with f", "locale with g":
			l := histLocale{taggedLocale{tag: fmt.Sprintf("F%s%d", op[12:], id), format: "{{.description}}@{{.context}}"}, f1}
			if op == "locale with g" {
				l.fn = f2
			}
			gjs.Locale = l
			v.format = l.format
			v.text = func(m string) string {
				switch m {
				case "Required", "InvalidType", "Enum":
					return l.tplf(m)
				}
				return l.tpl(m)
			}
		case "add f":
			addFunc(f1, strings.ToUpper)
		case "add g":
			addFunc(f2, func(s string) string { return "<" + s + ">" })
		case "validate 0", "validate 1":
			st.Traces++
			n := int(op[9] - '0')
			for _, d := range histDocs {
				res, err := schemas[n].Validate(gjs.NewStringLoader(d))
				if err != nil || res.Valid() {
					return failf("%s: result %v, error %v", where(), res, err)
				}
				for _, e := range res.Errors() {
					if msg := checkText(e, v); msg != "" {
						return failf("%s: %s", where(), msg)
					}
					kept = append(kept, keptError{e, e.Description()})
				}
				results = append(results, res)
			}
		case "compile":
			st.Traces++
			_, err := gjs.NewSchema(gjs.NewStringLoader(`{"type":["string","strin"]}`))
			want, rerr := render(v.text("NotAValidType"), v.funcs, map[string]interface{}{"given": "/strin/", "expected": gjs.JSON_TYPES})
			if rerr == nil && (err == nil || err.Error() != want) {
				return failf("%s: compile error %v, expected %q", where(), err, want)
			}
		case "print earlier":
			for _, k := range kept {
				st.Traces++
				if k.e.Description() != k.desc {
					return failf("%s: the description of an earlier error changed from %q to %q", where(), k.desc, k.e.Description())
				}
				if msg := checkFields(k.e, v); msg != "" {
					return failf("%s: %s", where(), msg)
				}
			}
		case "add error", "add error with f", "add error again":
			st.Traces++
			if msg := addCustom(op, id, f1, v, &results, &kept); msg != "" {
				return failf("%s: %s", where(), msg)
			}
		}
	}
	st.outcome("history ok")
	return nil
}

// addCustom adds a user error to the last result (or a fresh one).
func addCustom(op string, id int64, f1 string, v view, results *[]*gjs.Result, kept *[]keptError) string {
	if len(*results) == 0 {
		*results = append(*results, &gjs.Result{})
	}
	res := (*results)[len(*results)-1]
	before := append([]gjs.ResultError{}, res.Errors()...)
	e := &customError{}
	e.SetType("custom_" + op)
	e.SetContext(gjs.NewJsonContext("y", gjs.NewJsonContext("x", gjs.NewJsonContext("(root)", nil))))
	val := map[string]interface{}{"v": 52}
	e.SetValue(val)
	f := fmt.Sprintf("custom%d {{.answer}} at {{.context}}", id)
	if op == "add error with f" {
		f = fmt.Sprintf("custom%d {{%s .word}}", id, f1)
	}
	e.SetDescriptionFormat(f)
	e.SetDescription("overwritten")
	d := gjs.ErrorDetails{"answer": 42, "word": "w"}
	if op == "add error again" {
		d["context"] = "my own"
	}
	e.SetDetails(d)
	res.AddError(e, d)
	if res.Valid() || len(res.Errors()) != len(before)+1 {
		return fmt.Sprintf("after AddError: Valid()=%v, %d errors, before %d", res.Valid(), len(res.Errors()), len(before))
	}
	for i, b := range before {
		if res.Errors()[i] != b {
			return "AddError changed the other errors"
		}
	}
	if res.Errors()[len(before)] != gjs.ResultError(e) {
		return "the added error is not the last one"
	}
	wantCtx := "(root).x.y"
	if op == "add error again" {
		wantCtx = "my own"
	}
	if e.Type() != "custom_"+op || !reflect.DeepEqual(e.Value(), val) || d["answer"] != 42 || d["word"] != "w" || d["context"] != wantCtx || !reflect.DeepEqual(e.Details(), d) || e.DescriptionFormat() != f {
		return fmt.Sprintf("the added error became %q %v %v %q", e.Type(), e.Value(), e.Details(), e.DescriptionFormat())
	}
	want, err := render(f, v.funcs, map[string]interface{}{"answer": 42, "word": "w", "context": wantCtx})
	if err == nil && e.Description() != want {
		return fmt.Sprintf("the added error reads %q, its template gives %q", e.Description(), want)
	}
	*kept = append(*kept, keptError{e, e.Description()})
	return checkFields(e, v)
}

// AddCase adds user errors with every combination of template, value and details.
type AddCase struct {
	Template string   `json:"template"`
	Value    string   `json:"value"`
	Path     []string `json:"path"`
	Detail   string   `json:"detail"`
	To       string   `json:"to"` // fresh, valid or invalid result
	Locale   string   `json:"locale,omitempty"`
}

// Kind names the case type.
func (c *AddCase) Kind() string { return "add-error" }

func addValue(n string) interface{} {
	switch n {
	case "nil":
		return nil
	case "nan":
		return math.NaN()
	case "struct":
		return struct{ A int }{7}
	case "chan":
		return (chan int)(nil)
	case "inf":
		return []interface{}{math.Inf(1)}
	case "bytes":
		return []byte("abc")
	}
	var x interface{}
	if json.Unmarshal([]byte(n), &x) != nil {
		panic("harness: value " + n)
	}
	return x
}

// Run judges it.
func (c *AddCase) Run(st *Stat) *Fail {
	st.States++
	st.Traces++
	res := &gjs.Result{}
	if c.To != "fresh" {
		s, _ := gjs.NewSchema(gjs.NewStringLoader(`{"type":"string","minLength":1}`))
		doc := `"a"`
		if c.To == "invalid" {
			doc = `""`
		}
		var err error
		if res, err = s.Validate(gjs.NewStringLoader(doc)); err != nil {
			return failf("validate: %v", err)
		}
	}
	v := setLocale(c.Locale)
	defer setLocale("default")
	n := len(res.Errors())
	var ctx *gjs.JsonContext
	for _, s := range c.Path {
		ctx = gjs.NewJsonContext(s, ctx)
	}
	e := &customError{}
	e.SetType("t")
	e.SetContext(ctx)
	e.SetValue(addValue(c.Value))
	e.SetDescriptionFormat(c.Template)
	d := gjs.ErrorDetails{"x": addValue(c.Detail)}
	e.SetDetails(d)
	res.AddError(e, d)
	st.outcome("added to " + c.To)
	if res.Valid() || len(res.Errors()) != n+1 {
		return failf("%+v: Valid()=%v with %d errors", c, res.Valid(), len(res.Errors()))
	}
	details := map[string]interface{}{"x": addValue(c.Detail)}
	if len(c.Path) > 0 {
		details["context"] = strings.Join(c.Path, ".")
	}
	want, err := render(c.Template, nil, details)
	if err == nil && e.Description() != want {
		return failf("%+v: description %q, expected %q", c, e.Description(), want)
	}
	if e.Type() != "t" || res.Errors()[n] != gjs.ResultError(e) || len(d) != len(details) {
		return failf("%+v: the added error became %q with details %v", c, e.Type(), d)
	}
	if len(c.Path) == 0 {
		return nil // an error without context has no field
	}
	if msg := checkFields(e, v); msg != "" {
		return failf("%+v: %s", c, msg)
	}
	return nil
}

func init() {
	kinds["text"] = func() Case { return &TextCase{} }
	kinds["compile-text"] = func() Case { return &CompileText{} }
	kinds["path"] = func() Case { return &PathCase{} }
	kinds["text-history"] = func() Case { return &TextHistory{} }
	kinds["add-error"] = func() Case { return &AddCase{} }
	checks["C11"] = c11
}

type compileError struct {
	schema, method string
	details        map[string]interface{}
	drafts         string
}

func dt(kv ...string) map[string]interface{} {
	m := map[string]interface{}{}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i]] = kv[i+1]
	}
	return m
}

// compileErrors lists malformed schemas with the text their error has to be rendered from.
func compileErrors() []compileError {
	var l []compileError
	add := func(drafts, method string, details map[string]interface{}, schemas ...string) {
		for _, s := range schemas {
			l = append(l, compileError{s, method, details, drafts})
		}
	}
	bad := func(key string, values ...string) (r []string) {
		for _, v := range values {
			r = append(r, `{`+q(key)+`:`+v+`}`)
		}
		return
	}
	notString := []string{"1", "null", "true", "[]", "{}"}
	notNumber := []string{`"1"`, "null", "true", "[]", "{}"}
	notSchema := []string{`"a"`, "null", "1"}
	invalid := func(expected, given string) map[string]interface{} { return dt("expected", expected, "given", given) }
	add("4", "InvalidType", invalid("string", "id"), bad("id", notString...)...)
	add("67h", "InvalidType", invalid("string", "$id"), bad("$id", notString...)...)
	add("467h", "InvalidType", invalid("string", "title"), bad("title", notString...)...)
	add("467h", "InvalidType", invalid("string", "description"), bad("description", notString...)...)
	add("467h", "InvalidType", invalid("string", "$ref"), bad("$ref", notString...)...)
	add("467h", "InvalidType", invalid("array of schemas", "definitions"), bad("definitions", "1", `"a"`, "null", "[]", "true", `{"a":1}`, `{"a":null}`, `{"a":"x"}`)...)
	add("467h", "InvalidType", invalid("string/array of strings", "type"), bad("type", "1", "null", "true", "{}", "[1]", "[null]", `["string",1]`)...)
	for _, t := range []string{"", "String", "strin", "any", "é"} {
		add("467h", "NotAValidType", map[string]interface{}{"given": "/" + t + "/", "expected": []string{"array", "boolean", "integer", "number", "null", "object", "string"}}, bad("type", q(t), arr(q(t)), arr(`"null"`, q(t)))...)
	}
	for _, t := range []string{"string", "integer", "null"} {
		add("467h", "Duplicated", dt("type", t), bad("type", arr(q(t), q(t)), arr(q(t), `"boolean"`, q(t)))...)
	}
	add("467h", "MustBeOfType", dt("key", "properties", "type", "object"), bad("properties", "1", `"a"`, "null", "[]", "true")...)
	add("467h", "MustBeOfType", dt("key", "dependencies", "type", "object"), bad("dependencies", "1", `"a"`, "null", "[]", "true")...)
	add("467h", "MustBeOfType", dt("key", "dependency", "type", "schema or array of strings"), bad("dependencies", `{"a":1}`, `{"a":null}`, `{"a":"x"}`, `{"a":[1]}`, `{"a":["b",null]}`)...)
	add("467h", "InvalidType", invalid("boolean/valid schema", "additionalProperties"), bad("additionalProperties", `"a"`, "null", "1", "[]")...)
	add("467h", "InvalidType", invalid("boolean/valid schema", "additionalItems"), bad("additionalItems", `"a"`, "null", "1", "[]")...)
	add("467h", "InvalidType", invalid("valid schema", "patternProperties"), bad("patternProperties", `"a"`, "null", "1", "[]", "true")...)
	for _, p := range []string{"(", "[", "a**", `\\`, "(?!x)"} {
		pat := p
		if p == `\\` {
			pat = `\`
		}
		add("467h", "RegexPattern", dt("pattern", pat), bad("patternProperties", `{"`+p+`":{}}`)...)
		add("467h", "MustBeValidRegex", dt("key", "pattern"), bad("pattern", `"`+p+`"`)...)
	}
	add("67h", "InvalidType", invalid("valid schema", "propertyNames"), bad("propertyNames", `"a"`, "null", "1", "[]")...)
	add("467h", "InvalidType", invalid("valid schema/array of schemas", "items"), bad("items", `"a"`, "null", "1", "[1]", `[{},null]`)...)
	add("467h", "InvalidType", invalid("number", "multipleOf"), bad("multipleOf", notNumber...)...)
	add("467h", "GreaterThanZero", dt("number", "multipleOf"), bad("multipleOf", "0", "-1", "-0.5", "0.0")...)
	add("467h", "MustBeOfA", dt("x", "minimum", "y", "number"), bad("minimum", notNumber...)...)
	add("467h", "MustBeOfA", dt("x", "maximum", "y", "number"), bad("maximum", notNumber...)...)
	for _, m := range []string{"Minimum", "Maximum"} {
		ex, base := "exclusive"+m, strings.ToLower(m)
		add("4", "InvalidType", invalid("boolean", ex), bad(ex, "1", `"a"`, "null", "[]")...)
		add("h", "InvalidType", invalid("boolean/number", ex), bad(ex, `"a"`, "null", "[]")...)
		add("67", "InvalidType", invalid("number", ex), bad(ex, "true", `"a"`, "null", "[]")...)
		add("4h", "CannotBeUsedWithout", dt("x", ex, "y", base), bad(ex, "true", "false")...)
	}
	for _, k := range []string{"minLength", "maxLength", "minProperties", "maxProperties", "minItems", "maxItems"} {
		add("467h", "MustBeOfAn", dt("x", k, "y", "integer"), bad(k, append([]string{"1.5", "-0.5"}, notNumber...)...)...)
		add("467h", "MustBeGTEZero", dt("key", k), bad(k, "-1", "-100")...)
	}
	add("467h", "CannotBeGT", dt("x", "minLength", "y", "maxLength"), `{"minLength":2,"maxLength":1}`)
	add("467h", "KeyCannotBeGreaterThan", dt("key", "minProperties", "y", "maxProperties"), `{"minProperties":2,"maxProperties":1}`)
	add("467h", "MustBeOfA", dt("x", "pattern", "y", "string"), bad("pattern", notString...)...)
	add("467h", "MustBeOfType", dt("key", "format", "type", "string"), bad("format", notString...)...)
	add("467h", "MustBeOfAn", dt("x", "required", "y", "array"), bad("required", "1", `"a"`, "null", "true", "{}")...)
	add("467h", "KeyItemsMustBeOfType", dt("key", "required", "type", "string"), bad("required", "[1]", `["a",null]`)...)
	add("467h", "KeyItemsMustBeUnique", dt("key", "required"), bad("required", `["a","a"]`, `["a","b","a"]`)...)
	add("467h", "MustBeOfA", dt("x", "uniqueItems", "y", "boolean"), bad("uniqueItems", "1", `"a"`, "null", "[]")...)
	add("467h", "KeyItemsMustBeUnique", dt("key", "enum"), bad("enum", `[1,1]`, `["a",1,"a"]`, `[1,1.0]`, `[{"a":1},{"a":1}]`)...)
	add("467h", "MustBeOfAn", dt("x", "enum", "y", "array"), bad("enum", "1", `"a"`, "null", "true", "{}")...)
	for _, k := range []string{"allOf", "anyOf", "oneOf"} {
		add("467h", "MustBeOfAn", dt("x", k, "y", "array"), bad(k, "1", `"a"`, "null", "true", "{}")...)
		add("467h", "ParseError", dt("expected", "valid schema"), bad(k, "[1]", `[{},null]`)...)
	}
	add("467h", "MustBeOfAn", dt("x", "not", "y", "object"), bad("not", append(notSchema, "[]")...)...)
	for _, k := range []string{"if", "then", "else"} {
		add("7h", "MustBeOfAn", dt("x", k, "y", "object"), bad(k, append(notSchema, "[]")...)...)
	}
	add("67h", "ParseError", dt("expected", "valid schema"), bad("contains", append(notSchema, "[]")...)...)
	add("467h", "ParseError", dt("expected", "valid schema"), bad("properties", `{"a":1}`, `{"a":null}`)...)
	add("467h", "MustBeOfType", dt("key", "valid schema", "type", "object"), `{"x":1,"not":{"$ref":"#/x"}}`, `{"x":"a","items":{"$ref":"#/x"}}`)
	for _, u := range []string{"/other.json", "/x/y.json#/z"} {
		add("467h", "ReferenceMustBeCanonical", dt("reference", u), `{"$ref":`+q(u)+`}`, `{"items":{"$ref":`+q(u)+`}}`)
	}
	return l
}

var draftLetters = map[model.Draft]string{model.D4: "4", model.D6: "6", model.D7: "7", model.Hybrid: "h"}

func c11(c *Ctx) {
	c.Workers = 1 // the locale is one process-wide variable
	names := []string{"a", "b.c", "", "é", "(root)", "<x>", "0"}
	c.Section("paths", "all context paths of up to 4 segments over an alphabet of 7, 6 delimiters", asc, func(emit func(Case)) {
		for _, first := range []string{"(root)", "question", ""} {
			for n := 0; n <= c.Pick(3, 5); n++ {
				tuples(names, n, func(t []string) {
					emit(&PathCase{append([]string{first}, t...), []string{".", "/", "", "::", "\x00", "é"}})
				})
			}
		}
	})
	c.Section("literal texts", "one schema and document per error type and detail form, default locale", asc, func(emit func(Case)) {
		for _, l := range literalTexts {
			emit(&TextCase{"default", model.Hybrid, l[0], insts(l[1]), l[2]})
		}
	})
	docs := pool()
	for _, loc := range []string{"default", "tagged"} {
		loc := loc
		c.Section("texts of single keywords, "+loc+" locale", "every keyword of the alphabets of C01 to C04, at the root and inside 5 positions x 86 documents", asc, func(emit func(Case)) {
			for _, d := range drafts() {
				for _, k := range keywordForms(d) {
					emit(&TextCase{loc, d, "{" + k + "}", docs, ""})
					for _, w := range []string{`{"properties":{"a":{%s},"":{%s}}}`, `{"items":{%s}}`, `{"additionalProperties":{%s}}`, `{"allOf":[{%s},{"not":{%s}}]}`, `{"anyOf":[{%s}]}`} {
						emit(&TextCase{loc, d, strings.ReplaceAll(w, "%s", k), docs, ""})
					}
				}
			}
		})
		c.Section("texts of pairs of keywords, "+loc+" locale", "all pairs of keywords x 86 documents, draft 7", asc, func(emit func(Case)) {
			ks := keywordForms(model.D7)
			if !c.Thorough() {
				var few []string
				for i, k := range ks {
					if i%3 == 0 {
						few = append(few, k)
					}
				}
				ks = few
			}
			for i, a := range ks {
				for _, b := range ks[:i] {
					if sameKey(a, b) {
						continue
					}
					emit(&TextCase{loc, model.D7, "{" + a + "," + b + "}", docs, ""})
				}
			}
		})
		c.Section("compile errors, "+loc+" locale", "every malformed keyword form x draft x position", asc, func(emit func(Case)) {
			wraps := []string{"", `{"properties":{"p":%s}}`, `{"items":[{},%s]}`, `{"allOf":[%s]}`, `{"not":%s}`, `{"additionalProperties":%s}`, `{"definitions":{"d":%s}}`, `{"patternProperties":{"a":%s}}`, `{"dependencies":{"a":%s}}`, `{"oneOf":[{"items":%s}]}`, `{"items":%s}`, `{"additionalItems":%s}`, `{"anyOf":[{},%s]}`}
			for _, e := range compileErrors() {
				for _, d := range drafts() {
					if !strings.Contains(e.drafts, draftLetters[d]) {
						continue
					}
					for _, w := range wraps {
						if w != "" && (strings.Contains(e.schema, "#/x") || strings.Contains(e.schema, `"$ref"`)) {
							continue
						}
						emit(&CompileText{loc, d, w, e.schema, e.method, e.details})
					}
				}
			}
		})
	}
	c.Section("user errors", "every combination of template, value, path, detail and receiving result", asc, func(emit func(Case)) {
		for _, t := range []string{"", "plain", "{{.x}}", "{{.x}}{{.x}} in {{.context}}", "{{.missing}}", `{{printf "%v" .x}}`, "é {{.x}}", "{{if .x}}yes{{else}}no{{end}}", " ", "{{/* c */}}", "errors-new"} {
			for _, v := range []string{"nil", "nan", "struct", "chan", "inf", "bytes", "1", `"s"`, `"<>"`, "[1,null]", `{"b":1,"a":[]}`, "true", "1e300"} {
				for _, p := range [][]string{{"(root)"}, {"(root)", "a"}, {"(root)", "a", "0"}, {"question", "answer"}, {"(root)", ""}, {"(root)", "(root)", "b"}, nil} {
					for _, d := range []string{"nil", "1", `"s"`, `""`, "[]", `"{{.x}}"`} {
						for _, to := range []string{"fresh", "valid", "invalid"} {
							emit(&AddCase{t, v, p, d, to, "default"})
							emit(&AddCase{t, v, p, d, to, "tagged"})
						}
					}
				}
			}
		}
	})
	ops := []string{"default locale", "locale A", "locale with f", "locale with g", "add f", "add g", "validate 0", "validate 1", "compile", "print earlier", "add error", "add error with f", "add error again"}
	n := c.Pick(4, 5)
	c.Section("histories", fmt.Sprintf("all sequences of up to %d operations over an alphabet of %d", n, len(ops)), asc, func(emit func(Case)) {
		for k := 1; k <= n; k++ {
			tuples(ops, k, func(t []string) {
				last := t[len(t)-1]
				if strings.HasPrefix(last, "add f") || strings.HasPrefix(last, "add g") || strings.Contains(last, "locale") {
					return // a sequence that ends with a change observes no more than its prefix
				}
				emit(&TextHistory{append([]string{}, t...)})
			})
		}
	})
	c.Assume = []string{"text/template renders a template and its data as documented", "the text is not specified while the locale's template cannot be parsed or executed", "template functions are added, not removed or redefined"}
	c.Rule = "every error text must equal the independent rendering of the template that the model's current locale has for that kind of error, with that error's own details"
	longTexts(c)
	largeTexts(c)
}

func sameKey(a, b string) bool {
	ka := topKeys(a)
	for _, k := range topKeys(b) {
		for _, x := range ka {
			if x == k {
				return true
			}
		}
	}
	return false
}

func topKeys(members string) []string {
	v := model.MustParse("{" + members + "}")
	r := append([]string{}, v.Keys...)
	sort.Strings(r)
	return r
}

// keywordForms lists members of single-keyword schemas of every keyword of the draft.
func keywordForms(d model.Draft) []string {
	r := valueKeywords(d)
	r = append(r, `"items":{"type":"string"}`, `"items":[{"type":"string"}]`, `"items":[{}],"additionalItems":false`, `"items":[{}],"additionalItems":{"type":"null"}`,
		`"minItems":1`, `"minItems":3`, `"maxItems":0`, `"maxItems":1`, `"uniqueItems":true`,
		`"properties":{"a":{"type":"string"},"b":{"enum":["q"]}}`, `"patternProperties":{"^a":{"type":"null"}}`, `"additionalProperties":false`, `"additionalProperties":{"type":"null"}`,
		`"properties":{"a":{}},"additionalProperties":false`, `"patternProperties":{"a":{}},"additionalProperties":false`,
		`"required":["a"]`, `"required":["z","é",""]`, `"dependencies":{"a":["z","b"]}`, `"dependencies":{"a":{"required":["y"]}}`, `"minProperties":2`, `"maxProperties":0`, `"maxProperties":1`,
		`"allOf":[{"type":"string"},{"type":"number"}]`, `"anyOf":[{"type":"string"},{"minimum":5}]`, `"oneOf":[{"type":"string"},{"minimum":5}]`, `"oneOf":[{"type":"number"},{}]`, `"not":{"type":"number"}`, `"not":{}`,
		`"format":"ipv4"`, `"format":"date"`)
	if d != model.D4 {
		r = append(r, `"contains":{"type":"string"}`, `"contains":{"const":5}`, `"propertyNames":{"maxLength":0}`, `"propertyNames":false`, `"not":true`, `"items":false`, `"properties":{"a":false}`, `"dependencies":{"a":false}`, `"allOf":[false]`, `"anyOf":[false,{"type":"null"}]`)
	}
	if d == model.D7 || d == model.Hybrid {
		r = append(r, `"if":{"type":"number"},"then":{"minimum":5},"else":{"type":"null"}`, `"if":{"type":"string"},"else":{"maxProperties":0}`)
	}
	return r
}

// literalTexts: schema, document, how the only error prints.
var literalTexts = [][3]string{
	{`false`, `1`, `(root): False always fails validation`},
	{`{"required":["a"]}`, `{}`, `(root): a is required`},
	{`{"required":["é é"]}`, `{}`, `(root): é é is required`},
	{`{"type":"string"}`, `1`, `(root): Invalid type. Expected: string, given: integer`},
	{`{"type":"string"}`, `1.5`, `(root): Invalid type. Expected: string, given: number`},
	{`{"type":"string"}`, `null`, `(root): Invalid type. Expected: string, given: null`},
	{`{"type":"string"}`, `[]`, `(root): Invalid type. Expected: string, given: array`},
	{`{"type":"string"}`, `{}`, `(root): Invalid type. Expected: string, given: object`},
	{`{"type":"string"}`, `true`, `(root): Invalid type. Expected: string, given: boolean`},
	{`{"type":["integer","null"]}`, `"s"`, `(root): Invalid type. Expected: [integer,null], given: string`},
	{`{"properties":{"a":{"properties":{"b":{"type":"null"}}}}}`, `{"a":{"b":1}}`, `a.b: Invalid type. Expected: null, given: integer`},
	{`{"items":{"items":{"type":"null"}}}`, `[[],[null,1]]`, `1.1: Invalid type. Expected: null, given: integer`},
	{`{"not":{}}`, `1`, `(root): Must not validate the schema (not)`},
	{`{"oneOf":[{},{}]}`, `1`, `(root): Must validate one and only one schema (oneOf)`},
	{`{"dependencies":{"a":["b"]}}`, `{"a":1}`, `(root): Has a dependency on b`},
	{`{"const":{"b":1,"a":[2]}}`, `1`, `(root): (root) does not match: {"a":[2],"b":1}`},
	{`{"properties":{"x":{"const":"y"}}}`, `{"x":1}`, `x: x does not match: "y"`},
	{`{"enum":[1,"a",null]}`, `2`, `(root): (root) must be one of the following: 1, "a", null`},
	{`{"properties":{"x":{"enum":["y"]}}}`, `{"x":1}`, `x: x must be one of the following: "y"`},
	{`{"items":[{}],"additionalItems":false}`, `[1,2]`, `(root): No additional items allowed on array`},
	{`{"minItems":2}`, `[1]`, `(root): Array must have at least 2 items`},
	{`{"maxItems":1}`, `[1,2]`, `(root): Array must have at most 1 items`},
	{`{"uniqueItems":true}`, `[1,2,1]`, `(root): array items[0,2] must be unique`},
	{`{"contains":{}}`, `[]`, `(root): At least one of the items must match`},
	{`{"minProperties":2}`, `{"a":1}`, `(root): Must have at least 2 properties`},
	{`{"maxProperties":0}`, `{"a":1}`, `(root): Must have at most 0 properties`},
	{`{"additionalProperties":false}`, `{"a":1}`, `(root): Additional property a is not allowed`},
	{`{"minLength":2}`, `"a"`, `(root): String length must be greater than or equal to 2`},
	{`{"maxLength":1}`, `"ab"`, `(root): String length must be less than or equal to 1`},
	{`{"pattern":"^a+$"}`, `"b"`, `(root): Does not match pattern '^a+$'`},
	{`{"format":"ipv4"}`, `"b"`, `(root): Does not match format 'ipv4'`},
	{`{"multipleOf":2}`, `1`, `(root): Must be a multiple of 2`},
	{`{"multipleOf":0.1}`, `0.25`, `(root): Must be a multiple of 0.1`},
	{`{"multipleOf":1.5}`, `1`, `(root): Must be a multiple of 1.5`},
	{`{"minimum":2}`, `1`, `(root): Must be greater than or equal to 2`},
	{`{"minimum":-2.5}`, `-3`, `(root): Must be greater than or equal to -2.5`},
	{`{"minimum":1000000}`, `1`, `(root): Must be greater than or equal to 1e+06`},
	{`{"exclusiveMinimum":2}`, `2`, `(root): Must be greater than 2`},
	{`{"exclusiveMinimum":0.5}`, `0.5`, `(root): Must be greater than 0.5`},
	{`{"maximum":2}`, `3`, `(root): Must be less than or equal to 2`},
	{`{"maximum":0.25}`, `3`, `(root): Must be less than or equal to 0.25`},
	{`{"exclusiveMaximum":2}`, `2`, `(root): Must be less than 2`},
	{`{"minimum":2,"exclusiveMinimum":true}`, `2`, `(root): Must be greater than 2`},
	{`{"maximum":2,"exclusiveMaximum":true}`, `2`, `(root): Must be less than 2`},
	{`{"properties":{"":{"type":"null"}}}`, `{"":1}`, `: Invalid type. Expected: null, given: integer`},
}
