package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strings"
	"unicode/utf8"

	"verifmc/model"

	gjs "github.com/xeipuuv/gojsonschema"
)

// Raw is a text that need not be valid UTF-8.
type Raw string

// MarshalJSON keeps invalid texts as base64 and shortens nothing.
func (r Raw) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(r)) {
		return json.Marshal(string(r))
	}
	return json.Marshal(map[string]string{"base64": base64.StdEncoding.EncodeToString([]byte(r))})
}

// UnmarshalJSON reads both forms.
func (r *Raw) UnmarshalJSON(b []byte) error {
	var s string
	if json.Unmarshal(b, &s) == nil {
		*r = Raw(s)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	d, err := base64.StdEncoding.DecodeString(m["base64"])
	*r = Raw(d)
	return err
}

func raws(l []string) []Raw {
	r := make([]Raw, len(l))
	for i, s := range l {
		r[i] = Raw(s)
	}
	return r
}

// Hostile compiles one text and validates texts with it: every call has to return, with exactly
// one of an answer and an error, and an error exactly when the text is not JSON.
type Hostile struct {
	Draft    model.Draft `json:"draft"`
	Validate bool        `json:"validate,omitempty"`
	Schema   Raw         `json:"schema"`
	Repeat   int         `json:"repeat,omitempty"` // Schema and Docs: «x» parts stand for x repeated that often
	URL      Raw         `json:"url,omitempty"`    // register the schema under this URL and compile by reference
	Docs     []Raw       `json:"documents"`
	Quiet    bool        `json:"-"`
}

func init() { kinds["hostile"] = func() Case { return &Hostile{} } }

// Kind names the case type.
func (c *Hostile) Kind() string { return "hostile" }

// expand replaces every «x» by x repeated n times.
func expand(t Raw, n int) string {
	s := string(t)
	if n == 0 || !strings.Contains(s, "«") {
		return s
	}
	var b strings.Builder
	for {
		i := strings.Index(s, "«")
		if i < 0 {
			b.WriteString(s)
			return b.String()
		}
		b.WriteString(s[:i])
		s = s[i+len("«"):]
		j := strings.Index(s, "»")
		b.WriteString(strings.Repeat(s[:j], n))
		s = s[j+len("»"):]
	}
}

func cut(s string) string {
	if len(s) > 300 {
		return s[:300] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

// Run checks the answers.
func (c *Hostile) Run(st *Stat) *Fail {
	st.States++
	sl := gjs.NewSchemaLoader()
	sl.Draft = libDraft(c.Draft)
	sl.Validate = c.Validate
	text := expand(c.Schema, c.Repeat)
	var s *gjs.Schema
	var err error
	isJSON := json.Valid([]byte(text))
	st.Traces++
	if c.URL != "" {
		if err = sl.AddSchema(string(c.URL), gjs.NewStringLoader(text)); err != nil {
			st.outcome("registration fails")
			return nil
		}
		if !isJSON {
			return failf("registering the text %q succeeds although it is not JSON", cut(text))
		}
		s, err = sl.Compile(gjs.NewReferenceLoader(string(c.URL)))
	} else {
		s, err = sl.Compile(gjs.NewStringLoader(text))
	}
	if s != nil && err != nil {
		return failf("compiling %q (%v) returns a schema and the error %v", cut(text), c.Draft, err)
	}
	if s == nil && err == nil {
		return failf("compiling %q (%v) returns neither a schema nor an error", cut(text), c.Draft)
	}
	if !isJSON && err == nil {
		return failf("compiling %q succeeds although it is not JSON", cut(text))
	}
	if err != nil {
		if err.Error() == "" && isJSON {
			st.outcome("compile error without text")
		}
		st.outcome("compile error")
		return nil
	}
	st.outcome("compiled")
	for _, d := range c.Docs {
		doc := expand(d, c.Repeat)
		st.Traces++
		res, err := s.Validate(gjs.NewStringLoader(doc))
		if (res == nil) == (err == nil) {
			return &Fail{fmt.Sprintf("validating %q with %q: result %v and error %v", cut(doc), cut(text), res, err), &Hostile{c.Draft, c.Validate, c.Schema, c.Repeat, c.URL, []Raw{d}, false}}
		}
		if docJSON := json.Valid([]byte(doc)); docJSON != (err == nil) {
			return &Fail{fmt.Sprintf("validating %q with %q: error %v although JSON is %v", cut(doc), cut(text), err, docJSON), &Hostile{c.Draft, c.Validate, c.Schema, c.Repeat, c.URL, []Raw{d}, false}}
		}
		if err != nil {
			st.outcome("document error")
			continue
		}
		if res.Valid() != (len(res.Errors()) == 0) {
			return failf("validating %q with %q: Valid() is %v with %d errors", cut(doc), cut(text), res.Valid(), len(res.Errors()))
		}
		for i, e := range res.Errors() {
			if c.Repeat < 1000 || i < 20 { // printing every error prints the value again
				_ = e.String()
			}
			_ = e.Field()
			if e.Type() == "" || e.Description() == "" {
				return failf("validating %q with %q: an error without type or description: %#v", cut(doc), cut(text), e)
			}
		}
		if res.Valid() {
			st.outcome("valid")
		} else {
			st.outcome("invalid")
		}
	}
	return nil
}

// PackageLevel uses the package-level functions with two texts.
type PackageLevel struct {
	Schema Raw `json:"schema"`
	Doc    Raw `json:"document"`
}

func init() { kinds["package-level"] = func() Case { return &PackageLevel{} } }

// Kind names the case type.
func (c *PackageLevel) Kind() string { return "package-level" }

// Run checks the answers.
func (c *PackageLevel) Run(st *Stat) *Fail {
	st.States++
	for _, l := range []struct {
		name string
		load func(string) gjs.JSONLoader
	}{{"string", gjs.NewStringLoader}, {"bytes", func(t string) gjs.JSONLoader { return gjs.NewBytesLoader([]byte(t)) }}} {
		st.Traces++
		res, err := gjs.Validate(l.load(string(c.Schema)), l.load(string(c.Doc)))
		if (res == nil) == (err == nil) {
			return failf("Validate(%q, %q) with %s loaders: result %v and error %v", c.Schema, c.Doc, l.name, res, err)
		}
		if err == nil && (!json.Valid([]byte(c.Schema)) || !json.Valid([]byte(c.Doc))) {
			return failf("Validate(%q, %q) with %s loaders gives no error although a text is not JSON", c.Schema, c.Doc, l.name)
		}
		s, err := gjs.NewSchema(l.load(string(c.Schema)))
		if (s == nil) == (err == nil) {
			return failf("NewSchema(%q) with %s loaders: schema %v and error %v", c.Schema, l.name, s, err)
		}
		if err == nil {
			st.outcome("ok")
		} else {
			st.outcome("error")
		}
	}
	return nil
}

var hostileNumbers = []string{
	"0", "-0", "1", "-1", "1.0", "0.1", "1e400", "-1e400", "1e-400", "1e5000", "1e-5000", "9223372036854775808", "-9223372036854775809", "18446744073709551616",
	"1e1000001", "1e-1000001", "1e999999999", "-1e999999999", "1e-999999999", "1e2147483648", "1e-2147483649", "1e9223372036854775808", "1e99999999999999999999999", "1E+99999999999999999999999", "-1e-99999999999999999999999",
	"0e999999999", "0.0e-999999999", "-0e99999999999999999999999", "1" + strings.Repeat("0", 400), "0." + strings.Repeat("0", 400) + "1", "1e0000000000000000000001", "123456789e-123456789", "4e324", "5e-325",
}

// costlyNumbers take long to handle, so they are not used everywhere.
var costlyNumbers = []string{"1e1000000", "-1e1000000", "1e-1000000", "3e-1000000", "1e100000", "1e-100000", "-7e-20000", "1e20000", strings.Repeat("9", 10000), "0." + strings.Repeat("3", 10000), "1." + strings.Repeat("0", 10000)}

// hostileStrings are JSON string literals.
var hostileStrings = []string{
	`""`, `"\u0000"`, `"\ud800"`, `"\udc00"`, `"\ud800\ud800"`, `"\udc00\ud800"`, `"\ud83d\ude00"`, `"\uffff"`, `"\ufffd"`, `"\ufeff"`, "\"\xff\"", "\"\xc0\x80\"", "\"\xed\xa0\x80\"", "\"\xf4\x90\x80\x80\"", "\"a\xffb\"", `"\u2028\u2029"`, `"\"\\\/\b\f\n\r\t"`, `"<script>&"`, `"{{.}}"`, `"{{"`, `"{{.context}}"`, `"%s%d%n"`, `"%"`, `"%zz"`, `"(("`, `"(?i)a"`, `"(?P<n>a)"`, `"\\p{L}"`, `"\\"`, `"[a-"`, `"a{1000}"`, `"a{1001}"`, `"(a{1000}){1000}"`, `"(((((a*)*)*)*)*)*b"`, `"#"`, `"#/"`, `"/"`, `"//"`, `"file:///"`, `"file://"`, `"http://"`, `"http://["`, `":"`, `"::"`, `"1:2"`, `"\u0000:"`, `" "`, `"a b"`, `"~"`, `"~2"`, `"null"`, `"0"`,
	`"2020-01-01T00:00:00Z"`, `"-1-01-01"`, `"99999-01-01"`, `"24:00:00"`, `"1.2.3.4"`, `"1.2.3.4.5"`, `"::1%eth0"`, `"@"`, `"a@b"`, `"\"@\""`, `"xn--"`, `"{"`, `"}"`, `"{{}}"`, `"{a"`, `"-"`, `"--------"`,
}

func longStrings() []string {
	return []string{`"` + strings.Repeat("a", 300) + `"`, `"` + strings.Repeat("a.", 200) + `"`, `"` + strings.Repeat("é", 2000) + `"`, `"` + strings.Repeat("(", 2000) + `"`, `"` + strings.Repeat(`\\`, 1000) + `"`, `"` + strings.Repeat("a", 3000) + `"`}
}

var hostileValues = append(append(append([]string{}, keywordValues...), hostileNumbers...),
	append(hostileStrings[:len(hostileStrings):len(hostileStrings)],
		`[{"a":{}},[[[]]],null,true,1.5,"x"]`, `{"a":{"a":{"a":{"a":[]}}}}`, `[[[[[[[[[[]]]]]]]]]]`, `{"":{"":{"":null}}}`, `{"\u0000":{}}`, "{\"\xff\":{}}", `{"\ud800":{}}`, `{"a":1,"a":2}`, `{"type":{"type":{"type":"type"}}}`, `{"$id":5}`, `{"$id":"%"}`, `{"id":"::"}`, `{"$ref":5}`, `{"$ref":"%zz"}`, `{"$ref":"::"}`, `{"$schema":5}`, `{"$schema":"::"}`, `[[1],[1.0],[1e0]]`, `["string","string"]`, `[1e999999999,1e999999999]`, `[1e999999999,10e999999998]`, `[{"a":1e-999999999}]`)...)

func hostileDocs(long bool) []Raw {
	l := append(append([]string{}, poolTexts...), hostileNumbers...)
	l = append(l, hostileStrings...)
	l = append(l, `[1e999999999]`, `{"a":1e999999999}`, `[1e999999999,1e999999999]`, `[[],{},[[]],{"":{}}]`, "{\"\xff\":1}", `{"\ud800":1,"\udc00":2}`, `{"a":1,"a":"x"}`, `{"p":1e1000001}`,
		"", " ", "\n", "nul", "truefalse", "{", "}", "[1,]", `{"a"}`, `{"a":}`, "1 2", "01", "+1", ".5", "1.", "1e", "NaN", "Infinity", "'a'", `"a`, "\x00", "\xef\xbb\xbf1", `"\x"`, `"\u12"`, "\"\n\"", "// c\n1", "[1}", "{}{}", "1;", "--1", "0x10")
	if long {
		l = append(l, longStrings()...)
	}
	return raws(l)
}

// hostileMember is a schema with one member; a $ref is put where even "#" consumes a part of the document.
func hostileMember(k, v string) string {
	if k == "$ref" {
		return `{"items":{"$ref":` + v + `},"additionalProperties":{"$ref":` + v + `}}`
	}
	return `{` + q(k) + `:` + v + `}`
}

func c17(c *Ctx) {
	c.Assume = []string{"the exploring process runs with a stack limit of 256 MB and a limit of 150 s per case; Go's default stack limit is 1 GB", "encoding/json decides what a JSON text is", "reference loops that consume nothing are not enumerated"}
	c.Rule = "every call returns, with exactly one of an answer and an error; an error exactly when the text is not JSON; every reported error can be printed"
	full, few := hostileDocs(true), hostileDocs(false)
	small := raws([]string{"null", "true", "0", "1.5", "1e1000001", "1e-5000", `""`, `"a"`, "\"\xff\"", "[]", "[1,1.0]", `[[],{}]`, "{}", `{"a":1}`, `{"":{"a":[1]}}`, `{"a":{"a":1e999999999},"b":null}`, "{"})

	c.Section("keyword x hostile value", fmt.Sprintf("%d keywords x %d values x %d documents", len(allKeywords)+1, len(hostileValues), len(few)), both, func(emit func(Case)) {
		kws := append([]string{"$ref"}, allKeywords...)
		for _, d := range drafts() {
			for _, k := range kws {
				for _, v := range hostileValues {
					emit(&Hostile{Draft: d, Schema: Raw(hostileMember(k, v)), Docs: few})
				}
			}
			for _, v := range hostileValues {
				emit(&Hostile{Draft: d, Schema: Raw(v), Docs: few})
			}
		}
	})
	c.Section("keyword x hostile value, meta-schema validation on", "the same with SchemaLoader.Validate", asc, func(emit func(Case)) {
		for _, d := range drafts() {
			for _, k := range append([]string{"$ref"}, allKeywords...) {
				for _, v := range hostileValues {
					emit(&Hostile{Draft: d, Validate: true, Schema: Raw(hostileMember(k, v)), Docs: small})
					if d != model.Hybrid && k != "$schema" && c.Thorough() {
						emit(&Hostile{Draft: model.Hybrid, Validate: true, Schema: Raw(`{` + declare(d) + q(k) + `:` + v + `}`), Docs: small})
					}
				}
			}
			for _, v := range hostileValues {
				emit(&Hostile{Draft: d, Validate: true, Schema: Raw(v), Docs: small})
			}
		}
	})
	c.Section("keyword x hostile value x position", "33 positions", asc, func(emit func(Case)) {
		for _, w := range wraps() {
			var docs []Raw
			for _, s := range small {
				if t := w.Doc(string(s)); !w.StrDoc || strings.HasPrefix(string(s), `"`) {
					docs = append(docs, Raw(t))
				}
			}
			for _, d := range []model.Draft{model.D4, model.D7, model.Hybrid, model.D6} {
				if (d == model.D6 || d == model.Hybrid) && !c.Thorough() {
					continue
				}
				for _, k := range allKeywords {
					for _, v := range hostileValues {
						emit(&Hostile{Draft: d, Schema: Raw(w.Schema(`{` + q(k) + `:` + v + `}`)), Docs: docs})
					}
				}
			}
		}
	})
	pairVals := []string{"null", "true", "1", "-1", "1.5", "1e999999999", `"a"`, `"string"`, `"("`, "[]", `["a"]`, "[{}]", "{}", `{"a":{}}`, `{"a":["b"]}`, `{"type":"string"}`}
	c.Section("pairs of keywords", fmt.Sprintf("all pairs of keywords x %d values each", len(pairVals)), asc, func(emit func(Case)) {
		n := len(pairVals)
		for i, k := range allKeywords {
			for _, k2 := range allKeywords[:i] {
				for _, v := range pairVals[:n] {
					for _, v2 := range pairVals[:n] {
						for _, d := range []model.Draft{model.Hybrid, model.D4, model.D7} {
							if d != model.Hybrid && !c.Thorough() {
								continue
							}
							emit(&Hostile{Draft: d, Schema: Raw(`{` + q(k) + `:` + v + `,` + q(k2) + `:` + v2 + `}`), Docs: small})
						}
					}
				}
			}
		}
	})
	c.Section("keyword inside keyword", "k1:{k2:v}, k1:[{k2:v}], k1:{x:{k2:v}}, k1:{k2:{k3:v}}", asc, func(emit func(Case)) {
		vals := []string{"null", "true", "1", "1e999999999", `"a"`, "[]", `["a",1]`, "{}", `{"a":1}`, `{"a":{}}`}
		for _, d := range []model.Draft{model.D4, model.D7, model.Hybrid} {
			if d == model.Hybrid && !c.Thorough() {
				continue
			}
			for _, k1 := range append([]string{"a", "$ref"}, allKeywords...) {
				for _, k2 := range append([]string{"$ref"}, allKeywords...) {
					for _, v := range vals {
						in := `{` + q(k2) + `:` + v + `}`
						for _, t := range []string{in, `[` + in + `]`, `{"x":` + in + `}`, `[{},` + in + `,{}]`, `{"x":[` + in + `]}`, `{"x":` + in + `,"y":5}`} {
							emit(&Hostile{Draft: d, Schema: Raw(`{` + q(k1) + `:` + t + `}`), Docs: small[:8]})
						}
					}
				}
			}
		}
	})
	c.Section("short texts", "all texts of at most 4 (5) symbols over a JSON alphabet as schema and as document", asc, func(emit func(Case)) {
		alpha := []string{"{", "}", "[", "]", ",", ":", `"`, `"a"`, `"type"`, `"string"`, "1", "0", "-", ".", "e", "true", "null", " ", "\x00", "\xff", `\`}
		docs := raws([]string{"1", "[]", `{"a":1}`, "x"})
		for n := 0; n <= c.Pick(4, 5); n++ {
			var buf []Raw
			tuples(alpha, n, func(t []string) {
				text := Raw(strings.Join(t, ""))
				emit(&Hostile{Draft: model.Hybrid, Schema: text, Docs: docs})
				if n <= 3 {
					emit(&Hostile{Draft: model.D7, Validate: true, Schema: text, Docs: docs})
					emit(&PackageLevel{text, "1"})
					emit(&PackageLevel{`{"type":"integer"}`, text})
				}
				buf = append(buf, text)
				if len(buf) == 500 {
					emit(&Hostile{Draft: model.D7, Schema: `{"type":["string","integer"],"enum":["a",1],"minimum":0}`, Docs: buf})
					buf = nil
				}
			})
			emit(&Hostile{Draft: model.D7, Schema: `{}`, Docs: buf})
		}
	})
	c.Section("numbers everywhere", fmt.Sprintf("every numeric keyword, const, enum, uniqueItems x %d numbers x %d numbers", len(hostileNumbers), len(hostileNumbers)), asc, func(emit func(Case)) {
		var docs, costly []Raw
		for _, n := range hostileNumbers {
			docs = append(docs, Raw(n), Raw(`[`+n+`,`+n+`,1]`), Raw(`{"a":`+n+`}`))
		}
		for _, n := range costlyNumbers {
			costly = append(costly, Raw(n), Raw(`[`+n+`,`+n+`]`))
		}
		for _, k := range []string{"multipleOf", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "minLength", "maxItems", "minProperties", "const", "default"} {
			for _, n := range costlyNumbers {
				for _, d := range []model.Draft{model.D4, model.D7} {
					for _, doc := range append([]Raw{"1", "-0.1", "[]"}, costly...) {
						emit(&Hostile{Draft: d, Schema: Raw(`{` + q(k) + `:` + n + `}`), Docs: []Raw{doc}})
					}
				}
			}
			for _, n := range hostileNumbers {
				emit(&Hostile{Draft: model.D7, Schema: Raw(`{` + q(k) + `:` + n + `}`), Docs: costly})
			}
		}
		for _, doc := range costly {
			emit(&Hostile{Draft: model.D7, Schema: `{"type":"integer","uniqueItems":true,"format":"date"}`, Docs: []Raw{doc}})
			emit(&Hostile{Draft: model.D7, Schema: `{"enum":[1,[2]],"items":{"type":"number","multipleOf":0.7}}`, Docs: []Raw{doc}})
		}
		for _, d := range []model.Draft{model.D4, model.D7, model.Hybrid} {
			for _, k := range []string{"multipleOf", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "minLength", "maxItems", "minProperties", "const", "default"} {
				for _, n := range hostileNumbers {
					emit(&Hostile{Draft: d, Schema: Raw(`{` + q(k) + `:` + n + `}`), Docs: docs})
					emit(&Hostile{Draft: d, Schema: Raw(`{"items":{` + q(k) + `:` + n + `}}`), Docs: docs})
					if k == "minimum" || k == "maximum" {
						emit(&Hostile{Draft: d, Schema: Raw(`{` + q(k) + `:` + n + `,"exclusiveM` + k[1:] + `":true}`), Docs: docs})
					}
				}
			}
			for _, n := range hostileNumbers {
				emit(&Hostile{Draft: d, Schema: Raw(`{"enum":[` + n + `,"x"]}`), Docs: docs})
				emit(&Hostile{Draft: d, Schema: Raw(`{"enum":[[` + n + `],{"a":` + n + `}],"uniqueItems":true}`), Docs: docs})
				emit(&Hostile{Draft: d, Schema: Raw(`{"type":"integer","format":"date","enum":[` + n + `]}`), Docs: docs})
			}
			emit(&Hostile{Draft: d, Schema: `{"type":"integer"}`, Docs: docs})
			emit(&Hostile{Draft: d, Schema: `{"uniqueItems":true}`, Docs: docs})
			emit(&Hostile{Draft: d, Schema: `{"minimum":1,"maximum":0,"multipleOf":0.3}`, Docs: docs})
		}
	})
	c.Section("strings everywhere", "hostile and long strings as pattern, format, member name, required name, const and as documents", asc, func(emit func(Case)) {
		strs := append(append([]string{}, hostileStrings...), longStrings()...)
		var docs []Raw
		for _, s := range strs {
			docs = append(docs, Raw(s), Raw(`[`+s+`,`+s+`]`), Raw(`{`+s+`:`+s+`}`))
		}
		for _, d := range []model.Draft{model.D4, model.D7} {
			for _, t := range []string{`{"pattern":%s}`, `{"format":%s}`, `{"properties":{%s:false}}`, `{"properties":{%s:{"type":"null"}}}`, `{"patternProperties":{%s:{"type":"null"}}}`, `{"required":[%s]}`, `{"dependencies":{%s:[%s]}}`, `{"dependencies":{%s:["zz"]}}`, `{"const":%s}`, `{"enum":[%s]}`, `{"title":%s,"description":%s,"type":"null"}`, `{"additionalProperties":{"enum":[%s]}}`, `{"definitions":{%s:{}},"type":"null"}`, `{%s:%s,"type":"null"}`, `{"propertyNames":{"maxLength":0,"pattern":%s}}`, `{"type":%s}`, `{"minLength":2,"maxLength":3,"uniqueItems":true,"minItems":%s}`} {
				for _, s := range strs {
					emit(&Hostile{Draft: d, Schema: Raw(strings.ReplaceAll(t, "%s", s)), Docs: docs})
				}
			}
			for _, f := range formatNames {
				emit(&Hostile{Draft: d, Schema: Raw(`{"format":` + q(f) + `}`), Docs: full})
				emit(&Hostile{Draft: d, Schema: Raw(`{"items":{"format":` + q(f) + `},"additionalProperties":{"format":` + q(f) + `},"minLength":3}`), Docs: docs})
			}
		}
	})
	c.Section("URL strings", "all strings of at most 3 (4) symbols as $ref, $id, id, $schema, registered URL and compiled reference", asc, func(emit func(Case)) {
		alpha := []string{"#", "/", "a", "~", "%", "0", ":", "?", ".", `\`, "[", "@", "é", "{", " ", "\x00", "//a", "http:"}
		docs := raws([]string{`{"x":1}`, `{"x":"a"}`, "1", `{}`})
		for n := 0; n <= c.Pick(3, 4); n++ {
			tuples(alpha, n, func(t []string) {
				u := q(strings.Join(t, ""))
				raw := Raw(strings.Join(t, ""))
				for _, d := range []model.Draft{model.D4, model.D7} {
					idk := "$id"
					if d == model.D4 {
						idk = "id"
					}
					emit(&Hostile{Draft: d, Schema: Raw(`{"definitions":{"a":{"type":"string"},"":{"type":"null"}},"properties":{"x":{"$ref":` + u + `}}}`), Docs: docs})
					emit(&Hostile{Draft: d, Schema: Raw(`{` + q(idk) + `:` + u + `,"properties":{"x":{"$ref":"#/definitions/a"},"y":{` + q(idk) + `:` + u + `,"items":{"$ref":"a"}}},"definitions":{"a":{"type":"string"}}}`), Docs: docs})
					emit(&Hostile{Draft: d, Schema: Raw(`{` + q(idk) + `:` + u + `,"items":{"$ref":` + u + `}}`), Docs: docs})
					emit(&Hostile{Draft: d, Schema: Raw(`{"$schema":` + u + `}`), Docs: docs})
					emit(&Hostile{Draft: d, Validate: true, Schema: Raw(`{"$schema":` + u + `,"type":"object"}`), Docs: docs})
				}
				if raw != "" {
					emit(&Hostile{Draft: model.D7, URL: raw, Schema: `{"type":"object","properties":{"x":{"$ref":"#/definitions/a"}},"definitions":{"a":{"type":"string"}}}`, Docs: docs})
				}
			})
		}
		short := stringsUpTo(alpha, 2)
		for _, a := range short {
			for _, b := range short {
				emit(&Hostile{Draft: model.Hybrid, Schema: Raw(`{"$id":` + q(a) + `,"items":{"$id":` + q(b) + `,"items":{"$ref":` + q(a) + `}},"additionalItems":{"$ref":` + q(b) + `}}`), Docs: docs[2:]})
			}
		}
	})
	c.Section("nesting", "documents and schemas nested up to the limit of encoding/json (10000) and beyond", asc, func(emit func(Case)) {
		levels := []int{1, 2, 3, 10, 100, 999, 1000, 2500, 4999, 5000, 9990, 9999, 10000, 10001, 20000}
		rec := []string{`{}`, `{"items":{"$ref":"#"},"additionalProperties":{"$ref":"#"}}`, `{"anyOf":[{"type":"integer"},{"items":{"$ref":"#"},"properties":{"a":{"$ref":"#"}}}]}`, `{"allOf":[{"items":{"$ref":"#"},"additionalProperties":{"$ref":"#"}}]}`, `{"const":5}`, `{"enum":[[]],"uniqueItems":true}`, `{"type":"string"}`, `{"if":{"type":"array"},"then":{"items":{"$ref":"#"}}}`, `{"dependencies":{"a":{"properties":{"a":{"$ref":"#"}}}}}`, `{"patternProperties":{"":{"$ref":"#"}},"contains":{"$ref":"#"}}`}
		docs := raws([]string{"«[»«]»", `«{"a":»1«}»`, `«[{"a":»1«}]»`, `«[»1«]»`, `«[»`, `«{"a":»`, `[«[],»1]`, `"«a»"`, `1«0»`, `0.«1»`, `{"«k»":1}`, `[«0,»0]`})
		for _, n := range levels {
			for _, s := range rec {
				emit(&Hostile{Draft: model.D7, Schema: Raw(s), Repeat: n, Docs: docs})
			}
			for _, s := range []string{`«{"not":»{}«}»`, `«{"items":»{"type":"null"}«}»`, `«{"items":[»{"type":"null"}«]}»`, `«{"properties":{"a":»{"type":"null"}«}}»`, `«{"allOf":[»{}«]}»`, `«{"anyOf":[»{"type":"null"}«]}»`, `«{"oneOf":[»{"type":"null"}«]}»`, `«{"additionalProperties":»{"type":"null"}«}»`, `«{"definitions":{"a":»{}«}}»`, `«{"if":{},"then":»{"type":"null"}«}»`, `«{"dependencies":{"a":»{"type":"null"}«}}»`, `«{"contains":»{"type":"null"}«}»`, `{"const":«[»«]»}`, `{"enum":[«{"a":»1«}»]}`, `{"default":«[»«]»}`, `«[»«]»`, `«{"x":»«}»`, `{"allOf":[«{},»{}]}`, `{"required":["«a»"]}`, `{"enum":["a«b»",«null»1]}`, `{"minimum":1«0»}`, `{"pattern":"«(»«)»"}`, `{"pattern":"«a»"}`} {
				emit(&Hostile{Draft: model.D7, Schema: Raw(s), Repeat: n, Docs: docs[:8]})
				if n <= 1000 {
					emit(&Hostile{Draft: model.D7, Validate: true, Schema: Raw(s), Repeat: n, Docs: docs[:2]})
				}
			}
		}
	})
	sharedReferences(c)
}

func init() { checks["C17"] = c17 }
