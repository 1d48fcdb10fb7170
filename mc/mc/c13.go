package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"text/template"

	"verifmc/model"

	gjs "github.com/xeipuuv/gojsonschema"
	"github.com/xeipuuv/gojsonschema/verifshim"
)

// COp is one operation of one goroutine.
//
//	add N C     register checker C under the name N      has N, is N V   query
//	remove N                                             vf N V          validate V with a compiled {"format":N}
//	ve I D      validate document D with the shared schema I, rendering the errors
//	vr I D      the same, the document being a decoded value that is shared
//	cp T D      compile schema text T with a loader of its own, validate D
//	cm T D      the same with validation of the schema by its meta-schema
//	cg T D      the same from a decoded schema value that is shared
//	rd          print a shared result
//	cx          print a shared context path and use it in an error of the caller
//	vl I L      validate with the shared schema I a document given by the shared loader L (d:kind)
//	cl L D      compile the schema given by the shared loader L with a schema loader of its own
//	flag K      let the checkers that wait for K go on
type COp struct {
	K string `json:"op"`
	A string `json:"a,omitempty"`
	B string `json:"b,omitempty"`
}

func (o COp) String() string { return strings.TrimSpace(o.K + " " + o.A + " " + o.B) }

func op(t string) COp {
	f := append(strings.SplitN(t, " ", 3), "", "")
	return COp{f[0], f[1], f[2]}
}

func ops(t ...string) []COp {
	r := make([]COp, len(t))
	for i, s := range t {
		r[i] = op(s)
	}
	return r
}

// Conc runs goroutines under every schedule with at most Bound preemptions.
type Conc struct {
	Init    []COp   `json:"init,omitempty"`
	Threads [][]COp `json:"goroutines"`
	Bound   int     `json:"preemptions"` // < 0: no bound
	Funcs   string  `json:"template_functions,omitempty"`
	Cold    bool    `json:"first_use_in_the_process,omitempty"`
	Only    bool    `json:"this_schedule_only,omitempty"`
	Script  []uint8 `json:"schedule,omitempty"`
	Max     int     `json:"-"`
}

func init() { kinds["concurrent"] = func() Case { return &Conc{} } }

// Kind names the case type.
func (c *Conc) Kind() string { return "concurrent" }

// event is an operation in a history.
type event struct {
	op         COp
	begin, end int64
	res        bool
	panicked   bool
	thread     int
}

type concRun struct {
	c       *Conc
	events  [8][64]event // per goroutine
	n       [8]int
	obs     [8][16]string
	flags   [4]verifshim.Object
	formats map[string]*gjs.Schema
	shared  map[string]*gjs.Schema
	docs    map[string]interface{}
	sources map[string]interface{}
	result  *gjs.Result
	context *gjs.JsonContext
	loaders map[string]gjs.JSONLoader
}

// checkers: yes, no, panic, re:<op> (performs an operation, then says no), wait:<k> (waits for flag k, then says no)
type checkerT struct {
	kind string
	r    *concRun
}

func (k checkerT) verdict() bool { return k.kind == "yes" }

// IsFormat answers.
func (k checkerT) IsFormat(interface{}) bool {
	switch {
	case k.kind == "panic":
		panic("checker panics")
	case strings.HasPrefix(k.kind, "re:"):
		if w := verifshim.Self(); w >= 0 {
			k.r.do(w, op(strings.ReplaceAll(k.kind[3:], "/", " ")))
		}
		return false
	case strings.HasPrefix(k.kind, "wait:"):
		if w := verifshim.Self(); w >= 0 {
			verifshim.Point(w, verifshim.OpFlag, &k.r.flags[k.kind[5]-'0'])
		}
		return false
	}
	return k.verdict()
}

func isRegistry(o COp) bool {
	switch o.K {
	case "add", "remove", "has", "is", "vf":
		return true
	}
	return false
}

var concSchemas = map[string]string{
	"S1": `{"required":["a"],"type":"object"}`,
	"S2": `{"properties":{"a":{"type":"string"},"b":{"minimum":5}},"required":["c"]}`,
	"S3": `{"anyOf":[{"required":["x"]},{"properties":{"a":{"type":"null"}}}],"not":{"required":["b"]}}`,
	"S4": `{"items":{"$ref":"#/definitions/d"},"definitions":{"d":{"enum":[1,"x"]}},"uniqueItems":true}`,
	"S5": `{"patternProperties":{"^a":{"pattern":"^b+$"}},"additionalProperties":false,"propertyNames":{"maxLength":3},"dependencies":{"a":["q"],"b":{"minProperties":9}}}`,
	"S6": `{"if":{"properties":{"a":{"const":1}}},"then":{"required":["t"]},"else":{"required":["e"]},"maxProperties":1,"properties":{"d":{"format":"date"},"m":{"format":"email","multipleOf":3}}}`,
	"S7": `{"properties":{"t":{"$ref":"#"},"v":{"type":"integer","maximum":3}}}`,
	"S8": `{"contains":{"type":"null"},"oneOf":[{"minItems":1},{"maxItems":0},{"minItems":2}],"additionalItems":false,"items":[{},{"format":"uuid"}]}`,
	"F1": `{"properties":{"a":{"format":"date"},"b":{"format":"time"},"c":{"format":"date-time"},"d":{"format":"hostname"},"e":{"format":"email"},"f":{"format":"ipv4"},"g":{"format":"ipv6"}}}`,
	"F2": `{"properties":{"a":{"format":"uri"},"b":{"format":"uri-reference"},"c":{"format":"uri-template"},"d":{"format":"uuid"},"e":{"format":"regex"},"f":{"format":"json-pointer"},"g":{"format":"relative-json-pointer"}}}`,
	"M1": `{"$schema":"http://json-schema.org/draft-07/schema#","$id":"http://x/y","properties":{"a":{"type":"string","minLength":2}}}`,
	"M2": `{"$schema":"http://json-schema.org/draft-04/schema#","properties":{"a":{"type":"string","minimum":2}}}`,
	"M3": `{"$schema":"http://json-schema.org/draft-06/schema#","type":"wrong"}`,
	"M4": `{"$ref":"http://json-schema.org/draft-04/schema#"}`,
	"B1": `{"minLength":-1}`,
	"B2": `{"type":"nosuch"}`,
	"B3": `{"properties":5,"pattern":"("}`,
}

var concDocs = map[string]string{
	"d1": `{}`, "d2": `{"a":1,"b":2}`, "d3": `[1,2,2]`, "d4": `{"abcd":"x","b":1,"a":"c"}`, "d5": `{"a":1,"d":"x","m":"@"}`, "d6": `{"t":{"t":{"v":7}}}`, "d7": `"x"`,
	"f1": `{"a":"x","b":"x","c":"x","d":"-","e":"x","f":"x","g":"x"}`, "f2": `{"a":"x","b":"\\","c":"{","d":"x","e":"(","f":"x","g":"x"}`, "ok": `{"a":"2020-01-01","t":{"v":1}}`,
}

// largeKinds are schemas that grow, or that are for documents that do.
var largeKinds = []string{"Litems", "Llist", "Laddi", "Lcont", "Luniq", "Lprops", "Lpat", "Ladd", "Lnames", "Lreq", "Ldep", "Lall", "Lany", "Lone", "Lenum", "Lref", "Lnest"}

func largeDoc(kind string) string {
	switch kind {
	case "Litems", "Llist", "Laddi", "Lcont", "Luniq", "Lref":
		return "larr"
	case "Lall", "Lany", "Lone", "Lenum":
		return "lnum"
	case "Lnest":
		return "lnest"
	}
	return "lobj"
}

func init() {
	for _, n := range []int{40, 300, 1100} {
		rep := func(sep string, f func(i int) string) string {
			l := make([]string, n)
			for i := range l {
				l[i] = f(i)
			}
			return strings.Join(l, sep)
		}
		mem := func(v string) string {
			return rep(",", func(i int) string { return fmt.Sprintf(`"k%d":%s`, i, v) })
		}
		put := func(kind, schema string) { concSchemas[fmt.Sprint(kind, n)] = schema }
		put("Litems", `{"items":{"type":"integer"}}`)
		put("Llist", `{"items":[`+rep(",", func(int) string { return `{"type":"integer"}` })+`]}`)
		put("Laddi", `{"items":[{}],"additionalItems":{"type":"integer"}}`)
		put("Lcont", `{"contains":{"type":"null"}}`)
		put("Luniq", `{"uniqueItems":true}`)
		put("Lref", `{"items":{"$ref":"#/definitions/d"},"definitions":{"d":{"type":"integer"}}}`)
		put("Lprops", `{"properties":{`+mem(`{"type":"integer"}`)+`}}`)
		put("Lpat", `{"patternProperties":{"^k":{"type":"integer"}}}`)
		put("Ladd", `{"additionalProperties":{"type":"integer"}}`)
		put("Lnames", `{"propertyNames":{"pattern":"^k([^3]|3.)"}}`)
		put("Lreq", `{"required":["k3","no","k5","never"]}`)
		put("Ldep", `{"dependencies":{`+rep(",", func(i int) string {
			if i%(n/3) == 1 {
				return fmt.Sprintf(`"k%d":["no"]`, i)
			}
			return fmt.Sprintf(`"k%d":{"minProperties":1}`, i)
		})+`}}`)
		put("Lall", `{"allOf":[`+rep(",", func(i int) string { return fmt.Sprintf(`{"maximum":%d}`, i%(n/3)+n-3) })+`]}`)
		put("Lany", `{"anyOf":[`+rep(",", func(i int) string { return fmt.Sprintf(`{"const":%d}`, i) })+`]}`)
		put("Lone", `{"oneOf":[`+rep(",", func(i int) string { return fmt.Sprintf(`{"const":%d}`, i) })+`]}`)
		put("Lenum", `{"enum":[`+rep(",", strconv.Itoa)+`]}`)
		put("Lnest", strings.Repeat(`{"properties":{"a":`, n)+`{"type":"null"}`+strings.Repeat(`}}`, n))
		part := func(i int) string {
			if i%(n/3) == 1 {
				return `"x"`
			}
			return strconv.Itoa(i)
		}
		concDocs[fmt.Sprint("larr", n)] = `[` + rep(",", part) + `]`
		concDocs[fmt.Sprint("lobj", n)] = `{` + rep(",", func(i int) string { return fmt.Sprintf(`"k%d":%s`, i, part(i)) }) + `}`
		concDocs[fmt.Sprint("lnum", n)] = strconv.Itoa(n - 2)
		concDocs[fmt.Sprint("lnest", n)] = strings.Repeat(`{"a":`, n) + `1` + strings.Repeat("}", n)
	}
}

// coldOnes: schema and valid document.
var coldOnes = [][2]string{
	{`{"format":"date"}`, `"2020-01-01"`}, {`{"format":"time"}`, `"10:00:00Z"`}, {`{"format":"date-time"}`, `"2020-01-01T10:00:00Z"`},
	{`{"format":"hostname"}`, `"a.b"`}, {`{"format":"email"}`, `"a@b.c"`}, {`{"format":"idn-email"}`, `"a@b.c"`}, {`{"format":"ipv4"}`, `"1.2.3.4"`}, {`{"format":"ipv6"}`, `"::1"`},
	{`{"format":"uri"}`, `"http://a/b"`}, {`{"format":"uri-reference"}`, `"a/b"`}, {`{"format":"iri"}`, `"http://a/b"`}, {`{"format":"iri-reference"}`, `"a/b"`}, {`{"format":"uri-template"}`, `"a/{b}"`},
	{`{"format":"uuid"}`, `"01234567-89ab-cdef-0123-456789abcdef"`}, {`{"format":"regex"}`, `"a*"`}, {`{"format":"json-pointer"}`, `"/a~0"`}, {`{"format":"relative-json-pointer"}`, `"1/a"`},
	{`{"format":"nosuch"}`, `"a"`}, {`{"pattern":"^a"}`, `"a"`}, {`{"patternProperties":{"^a":{}},"additionalProperties":false}`, `{"a":1}`}, {`{"multipleOf":0.1,"minimum":1,"exclusiveMaximum":3}`, `2`},
	{`{"type":["integer","null"]}`, `1`}, {`{"enum":[1,{"a":2}],"const":{"a":2}}`, `{"a":2}`}, {`{"uniqueItems":true,"items":{"type":"number"},"contains":{"const":1}}`, `[1,2]`},
	{`{"oneOf":[{"type":"string"},{"type":"null"}],"not":{"const":"b"}}`, `"a"`}, {`{"if":{"minLength":1},"then":{"maxLength":2},"else":false}`, `"a"`}, {`{"$ref":"#/definitions/a","definitions":{"a":{"$id":"http://x/a","$ref":"#/definitions/b","definitions":{"b":{}}}}}`, `1`},
	{`{"dependencies":{"a":["b"],"c":{"required":["a"]}},"propertyNames":{"maxLength":1},"required":["a"]}`, `{"a":1,"b":2}`},
	{`{"$schema":"http://json-schema.org/draft-04/schema#","minimum":1,"exclusiveMinimum":true}`, `2`}, {`{"$ref":"http://json-schema.org/draft-07/schema#"}`, `{"type":"string"}`}, {`{"$ref":"http://json-schema.org/draft-06/schema"}`, `true`},
}

var freshN int

func (l taggedLocale) freshText(name string) string {
	return defaultTexts[name] + "{{/*" + l.fresh + "*/}}"
}

func nextLocale() {
	freshN++
	n := fmt.Sprint(freshN)
	gjs.Locale = taggedLocale{fresh: n, format: defaultTexts["ErrorFormat"] + "{{/*" + n + "*/}}"}
}

// observeRun validates and prints everything.
func observeRun(s *gjs.Schema, err error, doc gjs.JSONLoader) string {
	if err != nil {
		return "compile error " + err.Error()
	}
	res, err := s.Validate(doc)
	if err != nil {
		return "error " + err.Error()
	}
	return printResult(res)
}

func printResult(res *gjs.Result) string {
	var l []string
	for _, e := range res.Errors() {
		l = append(l, e.Type()+"|"+e.Field()+"|"+e.Description()+"|"+e.String())
	}
	sort.Strings(l)
	return fmt.Sprintf("valid=%v %s", res.Valid(), strings.Join(l, "; "))
}

// work performs an operation that is not about the registry and returns what it shows.
func (r *concRun) work(o COp) string {
	switch o.K {
	case "ve":
		return observeRun(r.shared[o.A], nil, gjs.NewStringLoader(concDocs[o.B]))
	case "vr":
		return observeRun(r.shared[o.A], nil, gjs.NewRawLoader(r.docs[o.B]))
	case "vg":
		return observeRun(r.shared[o.A], nil, gjs.NewGoLoader(r.docs[o.B]))
	case "cp":
		s, err := gjs.NewSchema(gjs.NewStringLoader(concSchemas[o.A]))
		return observeRun(s, err, gjs.NewStringLoader(concDocs[o.B]))
	case "cm":
		sl := gjs.NewSchemaLoader()
		sl.Validate = true
		s, err := sl.Compile(gjs.NewStringLoader(concSchemas[o.A]))
		return observeRun(s, err, gjs.NewStringLoader(concDocs[o.B]))
	case "cg":
		s, err := gjs.NewSchema(gjs.NewRawLoader(r.sources[o.A]))
		return observeRun(s, err, gjs.NewStringLoader(concDocs[o.B]))
	case "cv":
		var i int
		fmt.Sscan(o.A, &i)
		s, err := gjs.NewSchema(gjs.NewStringLoader(coldOnes[i][0]))
		return observeRun(s, err, gjs.NewStringLoader(coldOnes[i][1]))
	case "vl":
		return observeRun(r.shared[o.A], nil, r.loaders[o.B])
	case "cl":
		s, err := gjs.NewSchema(r.loaders[o.A])
		return observeRun(s, err, gjs.NewStringLoader(concDocs[o.B]))
	case "rd":
		return printResult(r.result)
	case "cx":
		e := &gjs.ResultErrorFields{}
		e.SetContext(r.context)
		e.SetType("custom")
		e.SetDescriptionFormat("{{.context}} is wrong")
		var res gjs.Result
		details := gjs.ErrorDetails{}
		e.SetDetails(details)
		res.AddError(e, details)
		return printResult(&res) + r.context.String() + r.context.String("/") + fmt.Sprint(details)
	}
	panic("harness: op " + o.K)
}

// perform does a registry operation.
func (r *concRun) perform(o COp) bool {
	switch o.K {
	case "add":
		gjs.FormatCheckers.Add(o.A, checkerT{o.B, r})
	case "remove":
		gjs.FormatCheckers.Remove(o.A)
	case "has":
		return gjs.FormatCheckers.Has(o.A)
	case "is":
		return gjs.FormatCheckers.IsFormat(o.A, o.B)
	case "vf":
		res, err := r.formats[o.A].Validate(gjs.NewStringLoader(q(o.B)))
		return err == nil && res.Valid()
	}
	return false
}

// do performs an operation of worker w and records it.
func (r *concRun) do(w int, o COp) {
	if o.K == "flag" {
		verifshim.Release(&r.flags[o.A[0]-'0'], verifshim.OpFlag)
		return
	}
	if !verifshim.Scheduled {
		verifshim.Yield()
	}
	i := r.n[w]
	r.n[w]++
	e := &r.events[w][i]
	e.op, e.thread = o, w
	// nothing another goroutine could notice happens before the first point of the operation
	e.begin = verifshim.Now()
	verifshim.Stamp(w, &e.begin)
	defer verifshim.Stamp(w, nil)
	if !isRegistry(o) {
		r.obs[w][i%16] = r.work(o)
		e.end = verifshim.Now()
		return
	}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if s, ok := p.(string); !ok || s != "checker panics" {
					panic(p)
				}
				e.panicked = true
			}
		}()
		e.res = r.perform(o)
	}()
	e.end = verifshim.Now()
}

// names used by a scenario.
func (c *Conc) names() []string {
	m := map[string]bool{}
	note := func(o COp) {
		if isRegistry(o) {
			m[o.A] = true
		}
		if o.K == "add" && strings.HasPrefix(o.B, "re:") {
			in := op(strings.ReplaceAll(o.B[3:], "/", " "))
			if isRegistry(in) {
				m[in.A] = true
			}
		}
	}
	for _, o := range c.Init {
		note(o)
	}
	for _, t := range c.Threads {
		for _, o := range t {
			note(o)
		}
	}
	var l []string
	for n := range m {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

func (c *Conc) setup() *concRun {
	r := &concRun{c: c, formats: map[string]*gjs.Schema{}, shared: map[string]*gjs.Schema{}, docs: map[string]interface{}{}, sources: map[string]interface{}{}, loaders: map[string]gjs.JSONLoader{}}
	if !c.Cold {
		nextLocale()
	}
	gjs.ErrorTemplateFuncs = nil
	switch c.Funcs {
	case "plain":
		gjs.ErrorTemplateFuncs = template.FuncMap{"twice": func(x string) string { return x + x }}
	case "reentrant":
		gjs.ErrorTemplateFuncs = template.FuncMap{"twice": func(x string) string {
			if w := verifshim.Self(); w >= 0 && len(x) < 8 {
				s, err := gjs.NewSchema(gjs.NewStringLoader(concSchemas["S1"]))
				return x + fmt.Sprint(len(observeRun(s, err, gjs.NewStringLoader("[]"))))
			}
			return x
		}}
	}
	if c.Funcs != "" {
		l := gjs.Locale.(taggedLocale)
		gjs.Locale = funcLocale{l}
	}
	for _, n := range c.names() {
		gjs.FormatCheckers.Remove(n)
		s, err := gjs.NewSchema(gjs.NewStringLoader(`{"format":` + q(n) + `}`))
		if err != nil {
			panic("harness: " + err.Error())
		}
		r.formats[n] = s
	}
	for _, o := range c.Init {
		r.perform(o)
	}
	need := func(o COp) {
		switch o.K {
		case "ve", "vr", "vg":
			if r.shared[o.A] == nil {
				s, err := gjs.NewSchema(gjs.NewStringLoader(concSchemas[o.A]))
				if err != nil {
					panic("harness: " + err.Error())
				}
				r.shared[o.A] = s
			}
			r.docs[o.B] = model.MustParse(concDocs[o.B]).Go()
		case "vl":
			if r.shared[o.A] == nil {
				s, err := gjs.NewSchema(gjs.NewStringLoader(concSchemas[o.A]))
				if err != nil {
					panic("harness: " + err.Error())
				}
				r.shared[o.A] = s
			}
			if r.loaders[o.B] == nil {
				d, kind, _ := strings.Cut(o.B, ":")
				r.loaders[o.B] = sharedLoader(concDocs[d], kind)
			}
		case "cl":
			if r.loaders[o.A] == nil {
				d, kind, _ := strings.Cut(o.A, ":")
				r.loaders[o.A] = sharedLoader(concSchemas[d], kind)
			}
		case "cx":
			r.context = gjs.NewJsonContext("c", gjs.NewJsonContext("b.d", gjs.NewJsonContext("(root)", nil)))
		case "cg":
			r.sources[o.A] = model.MustParse(concSchemas[o.A]).Go()
		case "rd":
			s, err := gjs.NewSchema(gjs.NewStringLoader(concSchemas["S2"]))
			if err != nil {
				panic("harness: " + err.Error())
			}
			r.result, _ = s.Validate(gjs.NewStringLoader(concDocs["d2"]))
		}
	}
	for _, t := range c.Threads {
		for _, o := range t {
			need(o)
		}
	}
	return r
}

// sharedLoader is a loader that several goroutines use.
func sharedLoader(text, kind string) gjs.JSONLoader {
	switch kind {
	case "bytes":
		return gjs.NewBytesLoader([]byte(text))
	case "go":
		return gjs.NewGoLoader(model.MustParse(text).Go())
	case "raw":
		return gjs.NewRawLoader(model.MustParse(text).Go())
	case "meta":
		return gjs.NewReferenceLoader("http://json-schema.org/draft-07/schema")
	}
	return gjs.NewStringLoader(text)
}

// funcLocale uses a template function in its texts.
type funcLocale struct{ taggedLocale }

// Required calls the function.
func (l funcLocale) Required() string {
	return `{{twice .property}} is required{{/*` + l.fresh + `*/}}`
}

// specState is the sequential specification of the registry: name -> checker kind.
type specState map[string]string

func (s specState) step(o COp) (bool, specState, bool) { // result, state, panics
	switch o.K {
	case "add", "remove":
		n := specState{}
		for k, v := range s {
			n[k] = v
		}
		delete(n, o.A)
		if o.K == "add" {
			n[o.A] = o.B
		}
		return false, n, false
	case "has":
		_, ok := s[o.A]
		return ok, s, false
	}
	k, ok := s[o.A]
	if !ok {
		return true, s, false
	}
	return k == "yes", s, k == "panic"
}

// linearizable searches an order of the events that explains all results.
func linearizable(ev []*event, s specState, steps *int64) bool {
	*steps++
	left := 0
	for _, e := range ev {
		if e != nil {
			left++
		}
	}
	if left == 0 {
		return true
	}
	for i, e := range ev {
		if e == nil {
			continue
		}
		first := true
		for _, f := range ev {
			if f != nil && f != e && f.end < e.begin {
				first = false
				break
			}
		}
		if !first {
			continue
		}
		res, n, pan := s.step(e.op)
		if pan != e.panicked || !pan && res != e.res {
			continue
		}
		ev[i] = nil
		if linearizable(ev, n, steps) {
			ev[i] = e
			return true
		}
		ev[i] = e
	}
	return false
}

func (c *Conc) describe(choices []verifshim.Choice) string {
	var b strings.Builder
	fmt.Fprintf(&b, "init %v; ", c.Init)
	for i, t := range c.Threads {
		fmt.Fprintf(&b, "goroutine %d: %v; ", i, t)
	}
	b.WriteString("schedule")
	for _, ch := range choices {
		fmt.Fprintf(&b, " %d", ch.Chosen)
	}
	return b.String()
}

// once runs one schedule.
func (c *Conc) once(script []uint8, st *Stat) (*verifshim.Outcome, string) {
	r := c.setup()
	fs := make([]func(), len(c.Threads))
	for i := range c.Threads {
		i := i
		fs[i] = func() {
			for _, o := range c.Threads[i] {
				r.do(i, o)
			}
		}
	}
	races := verifshim.RaceCount()
	out := verifshim.Run(fs, script)
	st.Traces++
	st.Transitions += int64(len(out.Choices))
	if out.Diverged {
		st.outcome("schedule diverged")
	}
	if out.Stuck {
		return out, "the goroutines do not finish: they are blocked"
	}
	if n := verifshim.RaceCount(); n > races {
		return out, "data race\n" + raceReport()
	}
	for i, p := range out.Panics {
		if p != nil {
			return out, fmt.Sprintf("goroutine %d panics: %v", i, p)
		}
	}
	if out.Deadlock {
		return out, "deadlock: no goroutine can go on"
	}
	// registry operations
	var ev []*event
	s := specState{}
	for _, o := range c.Init {
		_, s, _ = s.step(o)
	}
	for w := range c.Threads {
		for i := 0; i < r.n[w]; i++ {
			if e := &r.events[w][i]; isRegistry(e.op) {
				ev = append(ev, e)
			}
		}
	}
	if len(ev) > 0 {
		names := c.names()
		fin := make([]event, 0, 2*len(names))
		for _, n := range names { // what the registry holds in the end
			for _, k := range []string{"has", "is"} {
				e := event{op: COp{k, n, "v"}, begin: verifshim.Now()}
				func() {
					defer func() {
						if p := recover(); p != nil {
							e.panicked = true
						}
					}()
					e.res = r.perform(e.op)
				}()
				e.end = verifshim.Now()
				fin = append(fin, e)
			}
		}
		for i := range fin {
			ev = append(ev, &fin[i])
		}
		steps := int64(0)
		if !linearizable(ev, s, &steps) {
			var l []string
			for _, e := range ev {
				l = append(l, fmt.Sprintf("[%d,%d] goroutine %d: %v -> %v panics %v", e.begin, e.end, e.thread, e.op, e.res, e.panicked))
			}
			return out, "no sequential order explains these results:\n " + strings.Join(l, "\n ")
		}
		st.outcome("linearizable")
	}
	// everything else: exactly the sequential result
	for w := range c.Threads {
		for i := 0; i < r.n[w]; i++ {
			e := &r.events[w][i]
			if isRegistry(e.op) {
				continue
			}
			want := c.sequential(r, e.op)
			if got := r.obs[w][i%16]; got != want {
				return out, fmt.Sprintf("goroutine %d, %v: %s\nalone it gives: %s", w, e.op, got, want)
			}
			st.outcome("sequential result")
		}
	}
	return out, ""
}

// seqCache holds sequential results; they do not depend on the run.
var seqCache = map[string]string{}

func (c *Conc) sequential(r *concRun, o COp) string {
	k := c.Funcs + o.String()
	if v, ok := seqCache[k]; ok {
		return v
	}
	if c.Funcs == "reentrant" {
		// the function behaves differently outside a controlled run: a run with a single goroutine
		one := *c
		one.Threads = [][]COp{{o}}
		one.Init = nil
		r1 := one.setup()
		verifshim.Run([]func(){func() { r1.do(0, o) }}, nil)
		seqCache[k] = r1.obs[0][0]
		return r1.obs[0][0]
	}
	v := r.work(o)
	seqCache[k] = v
	return v
}

// Run explores the schedules.
func (c *Conc) Run(st *Stat) *Fail {
	st.States++
	script := append([]uint8{}, c.Script...)
	base := len(script)
	for n := 0; ; n++ {
		out, msg := c.once(script, st)
		if msg != "" {
			m := *c
			m.Only = true
			m.Script = nil
			for _, ch := range out.Choices {
				m.Script = append(m.Script, ch.Chosen)
			}
			return &Fail{c.describe(out.Choices) + "\n" + msg, &m}
		}
		if c.Cold {
			b, _ := json.Marshal(out.Choices)
			fmt.Println(choicesMark + string(b))
		}
		if c.Only || out.Diverged {
			return nil
		}
		if c.Max > 0 && n > c.Max {
			st.outcome("schedule limit")
			return nil
		}
		script = nextSchedule(out.Choices, c.Bound, base)
		if script == nil {
			return nil
		}
	}
}

// nextSchedule is the next script in depth-first order with at most bound preemptions.
func nextSchedule(ch []verifshim.Choice, bound, base int) []uint8 {
	pre := make([]int, len(ch)+1)
	for i, c := range ch {
		pre[i+1] = pre[i]
		if c.Cur >= 0 && int(c.Chosen) != int(c.Cur) {
			pre[i+1]++
		}
	}
	for i := len(ch) - 1; i >= base; i-- {
		c := ch[i]
		// order of alternatives: default first (the running one, else the lowest), then ascending
		def := -1
		if c.Cur >= 0 {
			def = int(c.Cur)
		} else {
			for j := 0; j < 8; j++ {
				if c.Mask&(1<<uint(j)) != 0 {
					def = j
					break
				}
			}
		}
		from := 0
		if int(c.Chosen) != def {
			from = int(c.Chosen) + 1
		}
		for j := from; j < 8; j++ {
			if j == def || c.Mask&(1<<uint(j)) == 0 {
				continue
			}
			cost := 0
			if c.Cur >= 0 {
				cost = 1
			}
			if bound >= 0 && pre[i]+cost > bound {
				break
			}
			s := make([]uint8, 0, i+1)
			for _, p := range ch[:i] {
				s = append(s, p.Chosen)
			}
			return append(s, uint8(j))
		}
	}
	return nil
}

func raceLog() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(f, "log_path="); ok {
			return fmt.Sprintf("%s.%d", p, os.Getpid())
		}
	}
	return ""
}

func raceReport() string {
	b, _ := os.ReadFile(raceLog())
	t := string(b)
	if i := strings.LastIndex(t, "WARNING: DATA RACE"); i >= 0 {
		t = t[i:]
	}
	if len(t) > 3000 {
		t = t[:3000]
	}
	return t
}

// Cold runs a scenario in a process of its own, where nothing was used before.
type Cold struct {
	Conc Conc `json:"scenario"`
}

func init() { kinds["cold"] = func() Case { return &Cold{} } }

// Kind names the case type.
func (c *Cold) Kind() string { return "cold" }

// Run starts a process for every schedule.
func (c *Cold) Run(st *Stat) *Fail {
	st.States++
	one := c.Conc
	one.Only, one.Cold = true, true
	script := append([]uint8{}, c.Conc.Script...)
	for {
		one.Script = script
		choices, msg := coldOnce(&one)
		st.Traces++
		st.Transitions += int64(len(choices))
		if msg != "" {
			return &Fail{msg, &Cold{one}}
		}
		st.outcome("cold ok")
		if c.Conc.Only {
			return nil
		}
		script = nextSchedule(choices, c.Conc.Bound, 0)
		if script == nil {
			return nil
		}
	}
}

const choicesMark = "schedule choices "

func coldOnce(one *Conc) ([]verifshim.Choice, string) {
	f, err := os.CreateTemp("", "mccold")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.Remove(f.Name())
	f.Write((&Ctx{ID: "C13"}).encode(one, verifshim.Order, ""))
	f.Close()
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "replay", f.Name())
	b, err := cmd.CombinedOutput()
	out := string(b)
	if i := strings.Index(out, choicesMark); i >= 0 && strings.Contains(out, "no violation") && err == nil {
		l, _, _ := strings.Cut(out[i+len(choicesMark):], "\n")
		var ch []verifshim.Choice
		if err := json.Unmarshal([]byte(l), &ch); err != nil {
			panic("harness: " + err.Error())
		}
		return ch, ""
	}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 2 && !strings.Contains(out, "fatal error") && !strings.Contains(out, "panic:") {
		panic("harness: " + out)
	}
	return nil, firstLines(out, 40)
}

func c13(c *Ctx) {
	verifshim.Goid = goid
	c.Rule = "on every schedule: no race (Go race detector, blind to the scheduler's own hand-overs), no deadlock, no panic; registry operations linearizable against a map; every other operation returns its sequential result"
	c.Assume = []string{"scheduling points: before every acquisition of a lock, sync.Once, atomic operation of the library, at the start of every operation and inside custom checkers; between points the code runs alone, which loses nothing as long as it is free of races, and the race detector watches for those", "the lock model (writer preference as in sync.RWMutex)", "the race detector keeps a bounded history per memory cell"}
	c.extra["race_detector"] = verifshim.RaceBuild
	reg1 := []string{"add x yes", "add x no", "remove x", "has x", "is x v", "vf x v"}
	reg2 := []string{"add x no", "add y no", "remove x", "remove y", "is x v", "has y"}
	inits := [][]COp{nil, ops("add x no"), ops("add x yes", "add y no")}
	seqs := func(alpha []string, n int) [][]COp {
		var r [][]COp
		for k := 1; k <= n; k++ {
			tuples(alpha, k, func(t []string) { r = append(r, ops(t...)) })
		}
		return r
	}
	pairs := func(l [][]COp, f func(a, b []COp)) {
		for i, a := range l {
			for _, b := range l[:i+1] {
				f(a, b)
			}
		}
	}
	c.Section("registry, two goroutines, one name", fmt.Sprintf("all pairs of sequences of at most %d operations, all interleavings", c.Pick(2, 3)), asc, func(emit func(Case)) {
		for _, in := range inits {
			pairs(seqs(reg1, 2), func(a, b []COp) { emit(&Conc{Init: in, Threads: [][]COp{a, b}, Bound: -1}) })
		}
		if c.Thorough() {
			pairs(seqs(reg1, 3), func(a, b []COp) { emit(&Conc{Threads: [][]COp{a, b}, Bound: 3}) })
		}
	})
	c.Section("registry, two goroutines, two names", "all pairs of sequences of at most 2 operations", asc, func(emit func(Case)) {
		for _, in := range inits {
			pairs(seqs(reg2, 2), func(a, b []COp) { emit(&Conc{Init: in, Threads: [][]COp{a, b}, Bound: -1}) })
		}
	})
	c.Section("registry, three goroutines", "one operation each (thorough: up to two), all interleavings", asc, func(emit func(Case)) {
		one := seqs(append(append([]string{}, reg1...), "add y yes", "remove y", "is y v"), 1)
		for _, in := range inits {
			for i, a := range one {
				for j, b := range one[:i+1] {
					for _, d := range one[:j+1] {
						emit(&Conc{Init: in, Threads: [][]COp{a, b, d}, Bound: -1})
					}
				}
			}
		}
		if c.Thorough() {
			two := seqs(reg2, 2)
			for _, a := range two {
				for _, b := range one {
					for _, d := range one {
						emit(&Conc{Init: inits[1], Threads: [][]COp{a, b, d}, Bound: 2})
					}
				}
			}
		}
	})
	works := []string{"ve S1 d1", "ve S1 d3", "ve S2 d2", "ve S3 d2", "ve S4 d3", "ve S5 d4", "ve S6 d5", "ve S7 d6", "ve S8 d3", "vr S2 d2", "vr S4 d3", "vr S7 d6", "vg S5 d4", "cp S4 d3", "cp S6 d5", "cg S2 d2", "cg S4 d3", "cg S5 d4", "cm M1 d2", "cm M2 d2", "cm M3 d2", "cm S6 d5", "cp M4 d2", "cp B1 d1", "cp B2 d1", "cp B3 d1", "cm B1 d1", "rd", "ve F1 f1", "ve F2 f2", "cp S1 ok"}
	c.Section("validating and compiling, two goroutines", fmt.Sprintf("all pairs of %d operations, at most %d preemptions", len(works), c.Pick(1, 2)), asc, func(emit func(Case)) {
		pairs(seqs(works, 1), func(a, b []COp) { emit(&Conc{Threads: [][]COp{a, b}, Bound: c.Pick(1, 2), Max: 3000}) })
	})
	shared := []string{"cx", "rd", "vl S2 d2:string", "vl S2 d2:bytes", "vl S2 d2:go", "vl S2 d2:raw", "vl S2 d2:meta", "vl S4 d3:raw", "cl S4:string d3", "cl S4:bytes d3", "cl S4:go d3", "cl S4:raw d3", "cl S4:meta d3", "cl M1:raw d2", "cl B1:raw d1"}
	c.Section("shared loaders and context paths, two goroutines", fmt.Sprintf("all pairs of %d operations, at most %d preemptions", len(shared), c.Pick(1, 2)), asc, func(emit func(Case)) {
		pairs(seqs(shared, 1), func(a, b []COp) { emit(&Conc{Threads: [][]COp{a, b}, Bound: c.Pick(1, 2), Max: 3000}) })
	})
	c.Section("large schemas and documents, one or two goroutines", fmt.Sprintf("%d schemas x documents of 40, 300 and 1100 parts, some of them wrong, a second goroutine with the same or a small document, at most %d preemptions", len(largeKinds), c.Pick(1, 2)), asc, func(emit func(Case)) {
		for _, k := range largeKinds {
			for _, n := range []string{"40", "300", "1100"} {
				a := "ve " + k + n + " " + largeDoc(k) + n
				if k == "Ldep" && n == "1100" {
					continue // each dependency walks over the document
				}
				emit(&Conc{Threads: [][]COp{ops(a)}, Bound: 1})
				if k != "Lcont" && k != "Lany" && k != "Lone" { // hundreds of errors that are not reported
					emit(&Conc{Threads: [][]COp{ops(a), ops(a)}, Bound: c.Pick(1, 2), Max: 3000})
					emit(&Conc{Threads: [][]COp{ops(a), ops("ve S1 d1")}, Bound: c.Pick(1, 2), Max: 3000})
				}
				emit(&Conc{Threads: [][]COp{ops("cp " + k + n + " " + largeDoc(k) + n)}, Bound: 1})
			}
		}
	})
	short := []string{"ve S1 d1", "ve S1 d3", "cp B1 d1", "cp B2 d1", "rd", "vr S1 d1"}
	c.Section("error texts, two goroutines", "pairs of sequences of operations with one or two errors, new templates, all interleavings up to 4 preemptions", asc, func(emit func(Case)) {
		for _, fn := range []string{"", "plain", "reentrant"} {
			b := c.Pick(2, 4)
			if fn == "" {
				b = c.Pick(3, 5)
			}
			l := short
			if fn == "reentrant" {
				l = short[:2]
			}
			pairs(seqs(l, 2), func(x, y []COp) {
				if len(x)+len(y) <= c.Pick(3, 4) {
					emit(&Conc{Threads: [][]COp{x, y}, Bound: b, Funcs: fn})
				}
			})
		}
	})
	c.Section("three goroutines", fmt.Sprintf("registry and validation mixed, at most %d preemptions", c.Pick(1, 2)), asc, func(emit func(Case)) {
		mix := seqs([]string{"add x no", "remove x", "vf x v", "ve S1 d1", "ve S6 d5", "cp S1 d3", "cm M1 d2", "cp B2 d1", "rd"}, 1)
		for i, a := range mix {
			for j, b := range mix[:i+1] {
				for _, d := range mix[:j+1] {
					emit(&Conc{Init: inits[1], Threads: [][]COp{a, b, d}, Bound: c.Pick(1, 2), Max: 20000})
				}
			}
		}
	})
	c.Section("checkers that call back, wait or panic", "a checker that queries, adds, removes, validates or compiles; that waits for another goroutine; that panics", asc, func(emit func(Case)) {
		inner := []string{"has/x", "has/y", "is/y/v", "add/y/no", "remove/y", "add/x/no", "remove/x", "vf/y/v", "ve/S1/d1", "cp/S6/d5"}
		others := seqs(append(append([]string{}, reg2...), "ve S1 d1", "vf x v"), 1)
		for _, in := range inner {
			if strings.HasPrefix(in, "ve") || strings.HasPrefix(in, "cp") {
				// the shared schema is prepared by naming it in a goroutine
				for _, o := range others {
					emit(&Conc{Init: ops("add x re:" + in), Threads: [][]COp{ops("vf x v", "ve S1 d1"), o}, Bound: c.Pick(2, 3)})
				}
				continue
			}
			for _, q := range []string{"is x v", "vf x v"} {
				for _, o := range others {
					emit(&Conc{Init: ops("add x re:"+in, "add y no"), Threads: [][]COp{ops(q), o}, Bound: -1})
					emit(&Conc{Init: ops("add x re:" + in), Threads: [][]COp{ops(q, "has y"), o}, Bound: -1})
					emit(&Conc{Init: ops("add x re:" + in), Threads: [][]COp{ops(q), o, ops("add z no")}, Bound: c.Pick(2, -1)})
				}
			}
		}
		for _, q := range []string{"is x v", "vf x v"} {
			for _, o := range append(others, seqs([]string{"cp S6 d5", "cm M1 d2"}, 1)...) {
				if o[0].A == "x" && (o[0].K == "vf" || o[0].K == "is") {
					continue // it would wait for itself
				}
				// goroutine 0 is inside the checker until goroutine 1 has done its work
				emit(&Conc{Init: ops("add x wait:0"), Threads: [][]COp{ops(q), append(append([]COp{}, o...), op("flag 0"))}, Bound: c.Pick(2, -1), Max: 5000})
				emit(&Conc{Init: ops("add x wait:0"), Threads: [][]COp{ops(q), ops(q), append(append([]COp{}, o...), op("flag 0"))}, Bound: c.Pick(1, 3), Max: 20000})
			}
			for _, o := range others {
				emit(&Conc{Init: ops("add x panic", "add y no"), Threads: [][]COp{ops(q, "has x"), o}, Bound: -1})
				emit(&Conc{Init: ops("add x panic"), Threads: [][]COp{ops(q), o, ops("add y yes")}, Bound: c.Pick(2, -1)})
			}
		}
	})
	c.Section("first use in a process", "pairs of operations that are the first ones ever in their process, one process per schedule, at most 1 preemption", asc, func(emit func(Case)) {
		cold := []string{"cp S1 d1", "cp S4 d3", "cp S5 d4", "cp S6 d5", "cm M1 d2", "cm M2 d2", "cm M3 d2", "cp M4 d2", "cp B2 d1", "cp B3 d1", "cp F1 f1", "cp F2 f2", "cg S8 d3", "cm F1 f1"}
		for i, a := range cold {
			for j, b := range cold[:i+1] {
				if !c.Thorough() && i != j && (i+j)%3 != 0 {
					continue
				}
				emit(&Cold{Conc{Threads: [][]COp{ops(a), ops(b)}, Bound: 1}})
			}
		}
		// one keyword each, with a document that meets it: no error text is rendered in between
		for i := range coldOnes {
			a := fmt.Sprintf("cv %d", i)
			emit(&Cold{Conc{Threads: [][]COp{ops(a), ops(a)}, Bound: c.Pick(1, 2)}})
		}
	})
}

func init() { checks["C13"] = c13; sharded["C13"] = true }
