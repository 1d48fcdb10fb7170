package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"net/http"
	"os"
	"path/filepath"
	"strings"

	"verifmc/model"

	gjs "github.com/xeipuuv/gojsonschema"
)

// textKinds are the ways to hand a text to the library, valueKinds those that take a Go value.
var textKinds = []string{"string", "bytes", "reader", "reader1", "writer", "file", "osfile", "http"}
var valueKinds = []string{"go", "raw", "gostruct"}

// place is where the loaders of one case find their files and pages.
type place struct {
	fs   *memFS
	host string
	h    *webHost
	dir  string
	n    int
}

func newPlace(kinds ...string) *place {
	p := &place{fs: &memFS{files: map[string]string{}}}
	for _, k := range kinds {
		if k == "http" && p.host == "" {
			p.host = <-hosts
			p.h = web.host(p.host)
		}
		if k == "osfile" && p.dir == "" {
			d, err := os.MkdirTemp("", "mcload")
			if err != nil {
				panic("harness: " + err.Error())
			}
			p.dir = d
		}
	}
	return p
}

func (p *place) drop() {
	if p.host != "" {
		web.drop(p.host)
		hosts <- p.host
	}
	if p.dir != "" {
		os.RemoveAll(p.dir)
	}
}

// leaks says whether something that was opened is still open.
func (p *place) leaks() string {
	if p.fs.opened != p.fs.closed {
		return fmt.Sprintf("%d files of the file system were opened and %d closed", p.fs.opened, p.fs.closed)
	}
	if p.h != nil && p.h.opened != p.h.closed {
		return fmt.Sprintf("%d HTTP responses were received and %d closed", p.h.opened, p.h.closed)
	}
	if p.dir != "" {
		fds, _ := os.ReadDir("/proc/self/fd")
		for _, f := range fds {
			if t, err := os.Readlink("/proc/self/fd/" + f.Name()); err == nil && strings.HasPrefix(t, p.dir+"/") {
				return "the file " + filepath.Base(t) + " is still open"
			}
		}
	}
	return ""
}

// wrapped is what a struct source looks like.
type wrapped struct {
	V interface{}
}

// MarshalJSON hides the struct.
func (w wrapped) MarshalJSON() ([]byte, error) { return json.Marshal(w.V) }

// loader makes a fresh loader of a kind for a text.
func (p *place) loader(kind, text string) gjs.JSONLoader {
	p.n++
	switch kind {
	case "string":
		return gjs.NewStringLoader(text)
	case "bytes":
		return gjs.NewBytesLoader([]byte(text))
	case "reader", "reader1":
		n := len(text) + 1
		if kind == "reader1" {
			n = 1
		}
		l, r := gjs.NewReaderLoader(&chunked{text, n})
		b, err := io.ReadAll(r)
		if string(b) != text || err != nil {
			panic("the reader of NewReaderLoader delivers something else")
		}
		return l
	case "writer":
		var b bytes.Buffer
		l, w := gjs.NewWriterLoader(&b)
		for i := 0; i < len(text); i += 3 {
			w.Write([]byte(text[i:min(i+3, len(text))]))
		}
		if b.String() != text {
			panic("the writer of NewWriterLoader delivers something else")
		}
		return l
	case "file":
		name := fmt.Sprintf("/m/f%d.json", p.n)
		p.fs.files[name] = text
		return gjs.NewReferenceLoaderFileSystem("file://"+name, p.fs)
	case "osfile":
		name := fmt.Sprintf("%s/f%d.json", p.dir, p.n)
		if err := os.WriteFile(name, []byte(text), 0o600); err != nil {
			panic("harness: " + err.Error())
		}
		return gjs.NewReferenceLoader("file://" + name)
	case "http":
		name := fmt.Sprintf("/f%d.json", p.n)
		p.h.pages[name] = &webPage{Status: 200, Body: text}
		return gjs.NewReferenceLoader("http://" + p.host + name)
	}
	v := model.MustParse(text).Go()
	switch kind {
	case "go":
		return gjs.NewGoLoader(v)
	case "gostruct":
		return gjs.NewGoLoader(&wrapped{v})
	case "raw":
		return gjs.NewRawLoader(v)
	}
	panic("harness: kind " + kind)
}

// Loaders loads a schema one way and documents another way.
type Loaders struct {
	SchemaKind string   `json:"schema_loader"`
	DocKind    string   `json:"document_loader"`
	Via        string   `json:"via"`
	Schema     string   `json:"schema"`
	Docs       []string `json:"documents"`
}

func init() { kinds["loaders"] = func() Case { return &Loaders{} } }

// Kind names the case type.
func (c *Loaders) Kind() string { return "loaders" }

// Run compares with the model.
func (c *Loaders) Run(st *Stat) *Fail {
	st.States++
	p := newPlace(c.SchemaKind, c.DocKind)
	defer p.drop()
	okSchema := json.Valid([]byte(c.Schema))
	var w *model.World
	if okSchema {
		w = model.NewWorld(model.Hybrid, model.MustParse(c.Schema))
	}
	what := func(doc string) string {
		return fmt.Sprintf("schema %q from a %s loader (%s), document %q from a %s loader", cut(c.Schema), c.SchemaKind, c.Via, cut(doc), c.DocKind)
	}
	compile := func() (*gjs.Schema, error) {
		l := p.loader(c.SchemaKind, c.Schema)
		sl := gjs.NewSchemaLoader()
		switch c.Via {
		case "add":
			if err := sl.AddSchema("http://added/s", l); err != nil {
				return nil, err
			}
			return sl.Compile(gjs.NewReferenceLoader("http://added/s"))
		case "adds":
			if err := sl.AddSchemas(l); err != nil {
				return nil, err
			}
			return sl.Compile(gjs.NewStringLoader(`{"$ref":"http://adds/s"}`))
		case "loader":
			return sl.Compile(l)
		}
		return gjs.NewSchema(l)
	}
	var s *gjs.Schema
	var err error
	if c.Via != "validate" {
		st.Traces++
		s, err = compile()
		if (s == nil) == (err == nil) {
			return failf("%s: compiling gives schema %v and error %v", what(""), s, err)
		}
		if okSchema != (err == nil) {
			return failf("%s: compiling gives the error %v, the text being JSON is %v", what(""), err, okSchema)
		}
		if err != nil {
			st.outcome("compile error")
			if l := p.leaks(); l != "" {
				return failf("%s: %s", what(""), l)
			}
			return nil
		}
	}
	for _, d := range c.Docs {
		st.Traces++
		var res *gjs.Result
		dl := p.loader(c.DocKind, d)
		ok := json.Valid([]byte(d))
		if c.Via == "validate" {
			ok = ok && okSchema
			res, err = gjs.Validate(p.loader(c.SchemaKind, c.Schema), dl)
		} else {
			res, err = s.Validate(dl)
		}
		msg := ""
		switch {
		case (res == nil) == (err == nil):
			msg = fmt.Sprintf("validating gives result %v and error %v", res, err)
		case ok != (err == nil):
			msg = fmt.Sprintf("validating gives the error %v, the texts being JSON is %v", err, ok)
		case err == nil && res.Valid() != w.Valid(model.MustParse(d)):
			msg = fmt.Sprintf("valid is %v, expected %v; %v", res.Valid(), !res.Valid(), res.Errors())
		default:
			msg = p.leaks()
		}
		if msg != "" {
			m := *c
			m.Docs = []string{d}
			return &Fail{what(d) + ": " + msg, &m}
		}
		switch {
		case err != nil:
			st.outcome("error")
		case res.Valid():
			st.outcome("valid")
		default:
			st.outcome("invalid")
		}
	}
	return nil
}

// Decoded compares what a loader's LoadJSON gives with the text, digit by digit.
type Decoded struct {
	Loader string `json:"loader"`
	Text   string `json:"text"`
}

func init() { kinds["decoded"] = func() Case { return &Decoded{} } }

// Kind names the case type.
func (c *Decoded) Kind() string { return "decoded" }

// Run compares.
func (c *Decoded) Run(st *Stat) *Fail {
	st.States++
	st.Traces++
	p := newPlace(c.Loader)
	defer p.drop()
	v, err := p.loader(c.Loader, c.Text).LoadJSON()
	if l := p.leaks(); l != "" {
		return failf("loading %q with a %s loader: %s", cut(c.Text), c.Loader, l)
	}
	if !json.Valid([]byte(c.Text)) {
		st.outcome("error")
		if err == nil {
			return failf("loading %q with a %s loader gives %v and error %v", cut(c.Text), c.Loader, v, err)
		}
		return nil
	}
	st.outcome("value")
	if err != nil {
		return failf("loading %q with a %s loader fails: %v", cut(c.Text), c.Loader, err)
	}
	got, _ := json.Marshal(v)
	want, _ := json.Marshal(model.MustParse(c.Text).Go())
	if string(got) != string(want) {
		return failf("loading %q with a %s loader gives %s", cut(c.Text), c.Loader, cut(string(got)))
	}
	return nil
}

// Faulty loads one document while a fault is injected, then again without it.
type Faulty struct {
	Role   string `json:"role"`
	Loader string `json:"loader"` // file or http
	Text   string `json:"text"`
	Doc    string `json:"document,omitempty"`
	Fault  fault  `json:"fault"`
	Status int    `json:"status,omitempty"`
	Cut    int    `json:"cut,omitempty"` // the content ends here; 0: not cut
	Retry  bool   `json:"retry_on_same_loader,omitempty"`
}

func init() { kinds["faulty"] = func() Case { return &Faulty{} } }

// Kind names the case type.
func (c *Faulty) Kind() string { return "faulty" }

// Run loads with the fault, then without.
func (c *Faulty) Run(st *Stat) *Fail {
	st.States++
	p := newPlace(c.Loader)
	defer p.drop()
	text := c.Text
	if c.Cut > 0 {
		text = c.Text[:c.Cut]
	}
	on := true
	addr := "file:///d/target.json"
	other := func(name, t string) string { // another document next to the target
		p.fs.files["/d/"+name] = t
		return "file:///d/" + name
	}
	set := func() {
		if on {
			p.fs.files["/d/target.json"] = text
		} else {
			p.fs.files["/d/target.json"] = c.Text
		}
	}
	p.fs.fail = func(name string) *fault {
		if on && name == "/d/target.json" {
			return &c.Fault
		}
		return nil
	}
	ref := func(a string) gjs.JSONLoader { return gjs.NewReferenceLoaderFileSystem(a, p.fs) }
	if c.Loader == "http" {
		addr = "http://" + p.host + "/target.json"
		other = func(name, t string) string {
			p.h.pages["/"+name] = &webPage{Status: 200, Body: t}
			return "http://" + p.host + "/" + name
		}
		set = func() {
			pg := &webPage{Status: 200, Body: c.Text}
			if on {
				pg.Body, pg.Chunk = text, c.Fault.Chunk
				if c.Status != 0 {
					pg.Status = c.Status
				}
				pg.ConnErr = c.Fault.OpenErr
				if c.Fault.ReadErr != "" {
					pg.Body, pg.BodyErr = text[:min(c.Fault.At, len(text))], c.Fault.ReadErr
				}
			}
			p.h.pages["/target.json"] = pg
		}
		ref = gjs.NewReferenceLoader
	}
	set()
	doc := c.Doc
	if doc == "" {
		doc = `{"n":12}`
	}
	schema := `{"properties":{"n":{"const":12}},"required":["n"]}`
	if c.Role != "document" {
		schema = c.Text
	}
	sl := gjs.NewSchemaLoader()
	load := func() (bool, string, error) { // (verdict, broken promise, error)
		verdict := func(s *gjs.Schema, err error) (bool, string, error) {
			if (s == nil) == (err == nil) {
				return false, fmt.Sprintf("schema %v and error %v", s, err), err
			}
			if err != nil {
				return false, "", err
			}
			d := gjs.NewStringLoader(doc)
			if c.Role == "document" {
				d = ref(addr)
			}
			res, err := s.Validate(d)
			if (res == nil) == (err == nil) {
				return false, fmt.Sprintf("result %v and error %v", res, err), err
			}
			if err != nil {
				return false, "", err
			}
			return res.Valid(), "", nil
		}
		switch c.Role {
		case "schema":
			return verdict(gjs.NewSchema(ref(addr)))
		case "schema in a schema loader":
			return verdict(sl.Compile(ref(addr)))
		case "document":
			return verdict(gjs.NewSchema(gjs.NewStringLoader(schema)))
		case "reference":
			return verdict(sl.Compile(ref(other("root.json", `{"allOf":[{"$ref":"target.json"},{}]}`))))
		case "pointer":
			return verdict(sl.Compile(ref(other("root.json", `{"items":{"$ref":"target.json#/properties/n"},"$ref":"target.json#"}`))))
		case "add":
			if err := sl.AddSchema("http://added/s", ref(addr)); err != nil {
				return false, "", err
			}
			return verdict(sl.Compile(gjs.NewReferenceLoader("http://added/s")))
		case "adds":
			if err := sl.AddSchemas(gjs.NewStringLoader(`{}`), ref(addr)); err != nil {
				return false, "", err
			}
			return verdict(sl.Compile(gjs.NewStringLoader(`{"$ref":"http://adds/s"}`)))
		case "validated":
			sl.Validate = true
			return verdict(sl.Compile(ref(addr)))
		case "validate":
			res, err := gjs.Validate(ref(addr), gjs.NewStringLoader(doc))
			if (res == nil) == (err == nil) {
				return false, fmt.Sprintf("result %v and error %v", res, err), err
			}
			if err != nil {
				return false, "", err
			}
			return res.Valid(), "", nil
		}
		panic("harness: role " + c.Role)
	}
	fails := c.Fault.OpenErr != "" || c.Fault.ReadErr != "" || c.Status != 0 && c.Status != 200 || !json.Valid([]byte(text))
	w := model.NewWorld(model.Hybrid, model.MustParse(schema))
	want := w.Valid(model.MustParse(doc))
	if c.Role == "document" {
		want = w.Valid(model.MustParse(c.Text))
	}
	what := fmt.Sprintf("%s with the text %s as %s (fault %+v, status %d, cut to %d)", c.Loader, cut(c.Text), c.Role, c.Fault, c.Status, c.Cut)
	st.Traces++
	got, broken, err := load()
	if broken != "" {
		return failf("%s: %s", what, broken)
	}
	if fails {
		st.outcome("failed load")
		if err == nil {
			return failf("%s: no error is reported (valid %v)", what, got)
		}
	} else {
		st.outcome("loaded")
		if err != nil {
			return failf("%s: loading fails: %v", what, err)
		}
		// a cut text that is still JSON was loaded as it is
		if text == c.Text && got != want {
			return failf("%s: valid is %v, expected %v", what, got, want)
		}
	}
	if l := p.leaks(); l != "" {
		return failf("%s: %s", what, l)
	}
	if !c.Retry && c.Role != "document" && c.Role != "schema" && c.Role != "validate" {
		return nil
	}
	if !fails && c.Role != "document" && c.Role != "schema" && c.Role != "validate" {
		return nil
	}
	on = false
	set()
	st.Traces++
	got, broken, err = load()
	switch {
	case broken != "":
		return failf("%s, then again without the fault: %s", what, broken)
	case err != nil:
		return failf("%s, then again without the fault: error %v", what, err)
	case got != want:
		return failf("%s, then again without the fault: valid is %v, expected %v", what, got, want)
	}
	if l := p.leaks(); l != "" {
		return failf("%s, then again without the fault: %s", what, l)
	}
	return nil
}

// FileName reads one of many files by a reference.
type FileName struct {
	Root  string   `json:"root,omitempty"` // the document (a file reference) that holds the reference; "": the reference is compiled
	Ref   string   `json:"reference"`
	Want  string   `json:"file"` // the file it denotes
	Files []string `json:"files"`
	OS    bool     `json:"real_files,omitempty"`
	AsDoc bool     `json:"as_document,omitempty"`
	Frag  bool     `json:"fragment,omitempty"`
}

func init() { kinds["file-name"] = func() Case { return &FileName{} } }

// Kind names the case type.
func (c *FileName) Kind() string { return "file-name" }

// Run checks which file is read.
func (c *FileName) Run(st *Stat) *Fail {
	st.States++
	base := "/mcbase"
	if c.OS {
		d, err := os.MkdirTemp("", "mcname")
		if err != nil {
			panic("harness: " + err.Error())
		}
		defer os.RemoveAll(d)
		base = d
	}
	fs := &memFS{files: map[string]string{}}
	have := false
	for i, f := range c.Files {
		t := fmt.Sprintf(`{"const":%d,"definitions":{"d":{"const":%d}}}`, i, 1000+i)
		if c.AsDoc {
			t = fmt.Sprint(i)
		}
		have = have || f == c.Want
		if c.OS {
			if strings.HasSuffix(f, "/") || strings.Contains(f, "\x00") {
				continue
			}
			os.MkdirAll(filepath.Dir(base+f), 0o700)
			if err := os.WriteFile(base+f, []byte(t), 0o600); err != nil {
				continue
			}
		} else {
			fs.files[base+f] = t
		}
	}
	ref := func(a string) gjs.JSONLoader {
		if c.OS {
			return gjs.NewReferenceLoader(a)
		}
		return gjs.NewReferenceLoaderFileSystem(a, fs)
	}
	r := strings.ReplaceAll(c.Ref, "BASE", base)
	var s *gjs.Schema
	var err error
	st.Traces++
	if c.AsDoc {
		for i := range c.Files {
			s, e := gjs.NewSchema(gjs.NewStringLoader(fmt.Sprintf(`{"const":%d}`, i)))
			if e != nil {
				return failf("compiling: %v", e)
			}
			res, e := s.Validate(ref(r))
			err = e
			if e != nil {
				break
			}
			if res.Valid() != (c.Files[i] == c.Want) {
				return failf("the document %s: content of %q is %v, expected the file %q", r, c.Files[i], res.Valid(), c.Want)
			}
		}
	} else {
		if c.Root != "" {
			t := `{"items":{"$ref":` + q(r) + `}}`
			if c.OS {
				os.MkdirAll(filepath.Dir(base+c.Root), 0o700)
				os.WriteFile(base+c.Root, []byte(t), 0o600)
			} else {
				fs.files[base+c.Root] = t
			}
			s, err = gjs.NewSchema(ref("file://" + base + c.Root))
		} else {
			s, err = gjs.NewSchema(ref(r))
		}
		if err == nil {
			for i := range c.Files {
				doc := fmt.Sprint(i)
				if c.Frag {
					doc = fmt.Sprint(1000 + i)
				}
				if c.Root != "" {
					doc = "[" + doc + "]"
				}
				res, e := s.Validate(gjs.NewStringLoader(doc))
				if e != nil {
					return failf("validating: %v", e)
				}
				if res.Valid() != (c.Files[i] == c.Want) {
					return failf("the reference %s (in %q): content of %q is %v, expected the file %q", r, c.Root, c.Files[i], res.Valid(), c.Want)
				}
			}
		}
	}
	if have != (err == nil) {
		return failf("the reference %s (in %q, real files: %v): error %v, although the file %q exists is %v; opened %q", r, c.Root, c.OS, err, c.Want, have, fs.log)
	}
	if err == nil {
		st.outcome("right file")
	} else {
		st.outcome("missing file")
	}
	if !c.OS {
		if fs.opened != fs.closed {
			return failf("the reference %s: %d files opened, %d closed", r, fs.opened, fs.closed)
		}
		for _, l := range fs.log {
			if l != base+c.Want && l != base+c.Root {
				return failf("the reference %s (in %q) opens %q, expected only %q", r, c.Root, l, base+c.Want)
			}
		}
	}
	return nil
}

// Apart has the same names on a custom file system and in a real directory.
type Apart struct {
	Role   string `json:"role"`
	InMem  bool   `json:"in_custom_file_system"`
	InReal bool   `json:"in_real_directory"`
	Custom bool   `json:"loaded_through_custom_file_system"`
	Valid  bool   `json:"meta_schema_validation,omitempty"`
}

func init() { kinds["apart"] = func() Case { return &Apart{} } }

// Kind names the case type.
func (c *Apart) Kind() string { return "apart" }

// Run checks whose content is used.
func (c *Apart) Run(st *Stat) *Fail {
	st.States++
	st.Traces++
	d, err := os.MkdirTemp("", "mcapart")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(d)
	fs := &memFS{files: map[string]string{}}
	put := func(name, mem, real string) {
		if c.InMem || name != "t.json" {
			fs.files[d+"/"+name] = mem
		}
		if c.InReal || name != "t.json" {
			os.WriteFile(d+"/"+name, []byte(real), 0o600)
		}
	}
	ref := func(name string) gjs.JSONLoader {
		if c.Custom {
			return gjs.NewReferenceLoaderFileSystem("file://"+d+"/"+name, fs)
		}
		return gjs.NewReferenceLoader("file://" + d + "/" + name)
	}
	put("t.json", `{"const":"mem"}`, `{"const":"real"}`)
	sl := gjs.NewSchemaLoader()
	if c.Valid {
		sl.Validate, sl.Draft = true, gjs.Draft7
	}
	var s *gjs.Schema
	wrap := "%s"
	switch c.Role {
	case "schema":
		s, err = sl.Compile(ref("t.json"))
	case "reference":
		put("r.json", `{"items":{"$ref":"t.json"}}`, `{"items":{"$ref":"t.json"}}`)
		wrap = "[%s]"
		s, err = sl.Compile(ref("r.json"))
	case "reference of a reference":
		put("r.json", `{"items":{"$ref":"m.json"}}`, `{"items":{"$ref":"m.json"}}`)
		put("m.json", `{"items":{"$ref":"./t.json"}}`, `{"items":{"$ref":"./t.json"}}`)
		wrap = "[[%s]]"
		s, err = sl.Compile(ref("r.json"))
	case "two references":
		put("r.json", `{"items":[{"$ref":"m.json"},{"$ref":"t.json"}]}`, `{"items":[{"$ref":"m.json"},{"$ref":"t.json"}]}`)
		put("m.json", `{}`, `{}`)
		wrap = "[1,%s]"
		s, err = sl.Compile(ref("r.json"))
	case "added":
		if err = sl.AddSchema("http://added/s", ref("t.json")); err == nil {
			s, err = sl.Compile(gjs.NewStringLoader(`{"$ref":"http://added/s"}`))
		}
	case "document":
		put("t.json", `"mem"`, `"real"`)
		for _, v := range []string{`"mem"`, `"real"`} {
			s, _ := gjs.NewSchema(gjs.NewStringLoader(`{"const":` + v + `}`))
			res, e := s.Validate(ref("t.json"))
			if f := c.judge(st, res, e, v); f != nil {
				return f
			}
		}
		return nil
	}
	for _, v := range []string{`"mem"`, `"real"`} {
		var res *gjs.Result
		e := err
		if e == nil {
			res, e = s.Validate(gjs.NewStringLoader(fmt.Sprintf(wrap, v)))
		}
		if f := c.judge(st, res, e, v); f != nil {
			return f
		}
	}
	if !c.Custom && len(fs.log) > 0 {
		return failf("the custom file system is used although it was not given: %v", fs.log)
	}
	return nil
}

func (c *Apart) judge(st *Stat, res *gjs.Result, err error, v string) *Fail {
	have, want := c.InReal, `"real"`
	if c.Custom {
		have, want = c.InMem, `"mem"`
	}
	if !have {
		st.outcome("not there")
		if err == nil {
			return failf("%+v: no error although the file is not in the file system given", *c)
		}
		return nil
	}
	st.outcome("there")
	if err != nil {
		return failf("%+v: %v", *c, err)
	}
	if res.Valid() != (v == want) {
		return failf("%+v: valid(%s) is %v", *c, v, res.Valid())
	}
	return nil
}

// GoValues are Go values with the JSON text they stand for ("": none).
type goTagged struct {
	A int    `json:"a"`
	B string `json:"b,omitempty"`
	C *int   `json:"c"`
	d int
	E int `json:"-"`
}

type badMarshal struct{}

// MarshalJSON fails.
func (badMarshal) MarshalJSON() ([]byte, error) { return nil, errors.New("no") }

type goCycle struct{ Next *goCycle }

func goValues() []struct {
	Name string
	V    interface{}
	Text string
} {
	cyc := &goCycle{}
	cyc.Next = cyc
	big1, _ := new(big.Int).SetString("123456789012345678901234567890", 10)
	cycMap := map[string]interface{}{}
	cycMap["a"] = cycMap
	one := 1
	return []struct {
		Name string
		V    interface{}
		Text string
	}{
		{"nil", nil, "null"}, {"true", true, "true"}, {"int", 5, "5"}, {"int64", int64(math.MinInt64), "-9223372036854775808"}, {"uint64", uint64(math.MaxUint64), "18446744073709551615"},
		{"int64+1", int64(9007199254740993), "9007199254740993"}, {"float", 1.5, "1.5"}, {"float integer", 1.0, "1"}, {"float32", float32(0.5), "0.5"}, {"1e300", 1e300, "1e300"}, {"1e-7", 1e-7, "0.0000001"},
		{"number", json.Number("1.10"), "1.1"}, {"long number", json.Number("0.1234567890123456789012345678901234567891"), "0.1234567890123456789012345678901234567891"}, {"big", big1, "123456789012345678901234567890"},
		{"string", "a\"é\u2028<", `"a\"é\u2028<"`}, {"bytes", []byte("a"), `"YQ=="`}, {"raw", json.RawMessage(`{"a":[1,2.50]}`), `{"a":[1,2.5]}`}, {"nil slice", []int(nil), "null"}, {"empty slice", []int{}, "[]"},
		{"slice", []interface{}{1, "a", nil, 2.5}, `[1,"a",null,2.5]`}, {"array", [2]int8{-1, 2}, "[-1,2]"}, {"nil map", map[string]int(nil), "null"}, {"map", map[string]int{"b": 1, "a": 2}, `{"a":2,"b":1}`}, {"int keys", map[int]bool{1: true}, `{"1":true}`},
		{"struct", goTagged{A: 1, C: &one, d: 5, E: 6}, `{"a":1,"c":1}`}, {"pointer", &goTagged{B: "x"}, `{"a":0,"b":"x","c":null}`}, {"nil pointer", (*goTagged)(nil), "null"}, {"nested", map[string]interface{}{"s": []goTagged{{A: 3}}}, `{"s":[{"a":3,"c":null}]}`},
		{"chan", make(chan int), ""}, {"func", func() {}, ""}, {"NaN", math.NaN(), ""}, {"Inf", math.Inf(1), ""}, {"-Inf", math.Inf(-1), ""}, {"complex", complex(1, 2), ""}, {"failing marshaller", badMarshal{}, ""}, {"cycle", cyc, ""}, {"map cycle", cycMap, ""},
		{"chan inside", map[string]interface{}{"a": 1, "b": []interface{}{make(chan int)}}, ""}, {"NaN inside", []interface{}{1, math.NaN()}, ""}, {"bad raw", json.RawMessage(`{"a"`), ""}, {"bad number", json.Number("1x"), ""}, {"bad keys", map[bool]int{true: 1}, ""}, {"marshaller inside", []interface{}{badMarshal{}}, ""},
	}
}

// GoValue hands a Go value to NewGoLoader.
type GoValue struct {
	Name string `json:"value"`
	Role string `json:"role"`
}

func init() { kinds["go-value"] = func() Case { return &GoValue{} } }

// Kind names the case type.
func (c *GoValue) Kind() string { return "go-value" }

// Run compares.
func (c *GoValue) Run(st *Stat) *Fail {
	st.States++
	st.Traces++
	for _, v := range goValues() {
		if v.Name != c.Name {
			continue
		}
		bad := v.Text == ""
		switch c.Role {
		case "load":
			x, err := gjs.NewGoLoader(v.V).LoadJSON()
			if (err != nil) != bad {
				return failf("loading the Go value %q gives %v and error %v", c.Name, x, err)
			}
			if !bad {
				if !model.Equal(model.FromGo(x), model.MustParse(v.Text)) {
					return failf("loading the Go value %q gives %v, expected %s", c.Name, x, v.Text)
				}
			}
		case "document":
			text := v.Text
			if bad {
				text = "1"
			}
			for _, t := range []string{`{"const":` + text + `}`, `{"enum":[` + text + `]}`, `{"not":{"const":` + text + `}}`} {
				s, err := gjs.NewSchema(gjs.NewStringLoader(t))
				if err != nil {
					return failf("compiling %s: %v", t, err)
				}
				res, err := s.Validate(gjs.NewGoLoader(v.V))
				if (err != nil) != bad || (res == nil) != bad {
					return failf("validating the Go value %q gives %v and error %v", c.Name, res, err)
				}
				if !bad && res.Valid() == strings.Contains(t, "not") {
					return failf("validating the Go value %q against %s: valid is %v", c.Name, t, res.Valid())
				}
			}
		case "schema":
			src := map[string]interface{}{"const": v.V, "title": "t"}
			s, err := gjs.NewSchema(gjs.NewGoLoader(src))
			if (err != nil) != bad || (s == nil) != bad {
				return failf("compiling a schema with the Go value %q gives %v and error %v", c.Name, s, err)
			}
			if !bad {
				res, err := s.Validate(gjs.NewStringLoader(v.Text))
				if err != nil || !res.Valid() {
					return failf("compiling {const: %q} and validating %s: %v %v", c.Name, v.Text, res, err)
				}
				res, err = s.Validate(gjs.NewStringLoader(`["other"]`))
				if err != nil || res.Valid() {
					return failf("compiling {const: %q} and validating something else: %v %v", c.Name, res, err)
				}
			}
		case "added":
			sl := gjs.NewSchemaLoader()
			err := sl.AddSchema("http://added/s", gjs.NewGoLoader(map[string]interface{}{"const": v.V}))
			if (err != nil) != bad {
				return failf("registering a schema with the Go value %q gives error %v", c.Name, err)
			}
		}
		if bad {
			st.outcome("unsupported")
		} else {
			st.outcome("loaded")
		}
		return nil
	}
	panic("harness: no value " + c.Name)
}

// Redirect follows HTTP redirections.
type Redirect struct {
	Status int    `json:"status"`
	To     string `json:"to"`
	End    int    `json:"final_status"`
}

func init() { kinds["redirect"] = func() Case { return &Redirect{} } }

// Kind names the case type.
func (c *Redirect) Kind() string { return "redirect" }

// Run checks the outcome.
func (c *Redirect) Run(st *Stat) *Fail {
	st.States++
	st.Traces++
	p := newPlace("http")
	defer p.drop()
	p.h.pages["/a.json"] = &webPage{Status: c.Status, Body: `{"const":"wrong"}`, Goto: c.To}
	p.h.pages["/b.json"] = &webPage{Status: c.End, Body: `{"const":"right"}`}
	s, err := gjs.NewSchema(gjs.NewReferenceLoader("http://" + p.host + "/a.json"))
	if l := p.leaks(); l != "" {
		return failf("redirection %+v: %s", *c, l)
	}
	ok := c.To == "/b.json" && c.End == 200
	if ok != (err == nil) || ok != (s != nil) {
		return failf("redirection %+v: schema %v and error %v", *c, s, err)
	}
	if ok {
		res, err := s.Validate(gjs.NewStringLoader(`"right"`))
		if err != nil || !res.Valid() {
			return failf("redirection %+v: the wrong document is used", *c)
		}
		st.outcome("followed")
	} else {
		st.outcome("failed")
	}
	return nil
}

// Partial looks at a reader or writer loader after some bytes went through.
type Partial struct {
	Loader string `json:"loader"`
	Text   string `json:"text"`
	N      int    `json:"bytes"`
	Fail   bool   `json:"then_fails"`
}

func init() { kinds["partial"] = func() Case { return &Partial{} } }

// Kind names the case type.
func (c *Partial) Kind() string { return "partial" }

type failWriter struct{}

func (failWriter) Write([]byte) (int, error) { return 0, errors.New("disk full") }

// Run checks that the loader holds exactly these bytes.
func (c *Partial) Run(st *Stat) *Fail {
	st.States++
	st.Traces++
	var l gjs.JSONLoader
	text := c.Text[:c.N]
	if c.Loader == "reader" {
		var src io.Reader = strings.NewReader(text)
		if c.Fail {
			src = io.MultiReader(src, errReader{"broken"})
		}
		var r io.Reader
		l, r = gjs.NewReaderLoader(src)
		b, err := io.ReadAll(r)
		if string(b) != text || c.Fail != (err != nil) {
			return failf("the reader returned by NewReaderLoader delivers %q and %v", b, err)
		}
	} else {
		var b bytes.Buffer
		var w io.Writer
		if c.Fail {
			l, w = gjs.NewWriterLoader(failWriter{})
			if _, err := w.Write([]byte(c.Text)); err == nil {
				return failf("the writer returned by NewWriterLoader hides the error of its target")
			}
			text = ""
		} else {
			l, w = gjs.NewWriterLoader(&b)
			w.Write([]byte(text))
			if b.String() != text {
				return failf("the writer returned by NewWriterLoader delivers %q", b.String())
			}
		}
	}
	v, err := l.LoadJSON()
	if json.Valid([]byte(text)) != (err == nil) {
		return failf("the %s loader after %q: %v, %v", c.Loader, text, v, err)
	}
	if err == nil {
		st.outcome("value")
		if !model.Equal(model.FromGo(v), model.MustParse(text)) {
			return failf("the %s loader after %q: %v", c.Loader, text, v)
		}
	} else {
		st.outcome("error")
	}
	return nil
}

// Changing reads documents again after their content changed.
type Changing struct {
	Loader string `json:"loader"`
	Role   string `json:"role"`
	Ops    string `json:"contents"` // one letter per load: a, b: contents, -: missing, x: malformed, !: fails
	Same   bool   `json:"same_loader_value"`
}

func init() { kinds["changing"] = func() Case { return &Changing{} } }

// Kind names the case type.
func (c *Changing) Kind() string { return "changing" }

// Run loads once per letter.
func (c *Changing) Run(st *Stat) *Fail {
	st.States++
	p := newPlace(c.Loader)
	defer p.drop()
	texts := map[byte]string{'a': `{"const":"a"}`, 'b': `{"const":"b"}`, 'x': `{"const":"a"`, '!': `{"const":"a"}`}
	if c.Role == "document" {
		texts = map[byte]string{'a': `"a"`, 'b': `"b"`, 'x': `"a`, '!': `"a"`}
	}
	var cur byte
	p.fs.fail = func(string) *fault {
		if cur == '!' {
			return &fault{ReadErr: "broken", At: 3}
		}
		return nil
	}
	var l gjs.JSONLoader
	mk := func() gjs.JSONLoader {
		switch {
		case c.Loader == "http":
			return gjs.NewReferenceLoader("http://" + p.host + "/t.json")
		case c.Loader == "file":
			return gjs.NewReferenceLoaderFileSystem("file:///d/t.json", p.fs)
		}
		return gjs.NewReferenceLoader("file://" + p.dir + "/t.json")
	}
	isA, _ := gjs.NewSchema(gjs.NewStringLoader(`{"const":"a"}`))
	for i := 0; i < len(c.Ops); i++ {
		cur = c.Ops[i]
		st.Traces++
		st.Transitions++
		t, ok := texts[cur]
		switch c.Loader {
		case "http":
			if ok {
				pg := &webPage{Status: 200, Body: t}
				if cur == '!' {
					pg.BodyErr = "broken"
				}
				p.h.pages["/t.json"] = pg
			} else {
				delete(p.h.pages, "/t.json")
			}
		case "file":
			if ok {
				p.fs.files["/d/t.json"] = t
			} else {
				delete(p.fs.files, "/d/t.json")
			}
		default:
			os.RemoveAll(p.dir + "/t.json")
			if cur == '!' {
				os.Mkdir(p.dir+"/t.json", 0o700) // reading a directory fails
			} else if ok {
				os.WriteFile(p.dir+"/t.json", []byte(t), 0o600)
			}
		}
		if l == nil || !c.Same {
			l = mk()
		}
		var res *gjs.Result
		var err error
		switch c.Role {
		case "document":
			res, err = isA.Validate(l)
		case "schema":
			var s *gjs.Schema
			if s, err = gjs.NewSchema(l); err == nil {
				res, err = s.Validate(gjs.NewStringLoader(`"a"`))
			}
		case "validate":
			res, err = gjs.Validate(l, gjs.NewStringLoader(`"a"`))
		}
		bad := cur == '-' || cur == 'x' || cur == '!'
		if bad != (err != nil) || bad != (res == nil) {
			return failf("%s as %s, contents %q, load %d: result %v, error %v", c.Loader, c.Role, c.Ops, i, res, err)
		}
		if !bad && res.Valid() != (cur == 'a') {
			return failf("%s as %s, contents %q, load %d: the content used is not the current one", c.Loader, c.Role, c.Ops, i)
		}
		if m := p.leaks(); m != "" {
			return failf("%s as %s, contents %q, load %d: %s", c.Loader, c.Role, c.Ops, i, m)
		}
		if bad {
			st.outcome("failed load")
		} else {
			st.outcome("loaded")
		}
	}
	return nil
}

var exactNumbers = []string{"0", "-0", "1", "1.0", "10e-1", "9007199254740993", "9007199254740992", "0.1", "0.10000000000000000555", "1e400", "1.0e400", "123456789012345678901234567890", "123456789012345678901234567891", "1e-400", "0.30000000000000004", "18446744073709551615", "18446744073709551616", "-9223372036854775809", "100000000000000000000000", "1E23"}

func c14(c *Ctx) {
	c.Level = "fault_enumeration"
	c.Rule = "the verdict is that of the model whatever loader is used; an error (and no schema or result) exactly when loading fails; everything opened is closed; the right file is read"
	c.Assume = []string{"encoding/json decides what a JSON text is", "HTTP responses come from a stand-in for http.DefaultTransport, custom files from an instrumented http.FileSystem; real files lie in a scratch directory", "reference model mc/model"}
	allKinds := append(append([]string{}, textKinds...), valueKinds...)
	vias := []string{"new", "loader", "validate", "add", "adds"}

	schemas := []string{`{"const":1}`, `{"type":"integer"}`, `{"properties":{"a":{"type":"string","maxLength":2},"b":{"$ref":"#/definitions/x"}},"required":["a"],"definitions":{"x":{"enum":[null,[1],{"":0}]}}}`, ` { "items" : [ { "minimum" : 1.5 } , true ] , "uniqueItems" : true } `, "\n\t\r{\"anyOf\":[{\"const\":\"\\u00e9\"},{\"pattern\":\"^a\\\\.b$\"}]}", `{"minLength":1,"maxLength":1}`, `true`, `false`, `{"dependencies":{"a":["b"]}}`, `{"id":"http://i/d","properties":{"a":{"$ref":"#/definitions/x"}},"definitions":{"x":{"type":"null"}}}`}
	docs := []string{"1", "1.0", " 1 ", "2", "null", "true", `"a"`, `"é"`, `"\u00e9"`, `"\ud83d\ude00"`, `"a.b"`, `"a\u002eb"`, `""`, "[]", "[1.5,2]", "[1,2]", "[1.5,1.5]", "{}", `{"a":"ab"}`, `{"a":"abc"}`, `{"\u0061":"x","b":[1.0]}`, `{"a":"x","b":null}`, `{"a":"x","b":{"":0e5}}`, `{"a":"x","b":{"":1}}`, "\ufeff1", "\n[\n]\n", `{"a":null}`, `"` + strings.Repeat("x", 1000) + `"`}
	adds := func(s string) string { // give the schema an identifier
		if strings.HasPrefix(strings.TrimSpace(s), "{") && !strings.Contains(s, `"id"`) {
			return strings.Replace(s, "{", `{"$id":"http://adds/s",`, 1)
		}
		return ""
	}
	emitLoaders := func(emit func(Case), sk, dk, via, s string, ds []string) {
		if via == "adds" {
			if s = adds(s); s == "" {
				return
			}
		}
		emit(&Loaders{sk, dk, via, s, ds})
	}
	jsonOnly := func(l []string) []string {
		var r []string
		for _, t := range l {
			if json.Valid([]byte(t)) {
				r = append(r, t)
			}
		}
		return r
	}
	for _, d := range append(schemas[:len(schemas):len(schemas)], "{}") {
		if !json.Valid([]byte(d)) {
			panic("harness: schema " + d)
		}
	}
	c.Section("every pair of loaders", fmt.Sprintf("%d schema loaders x %d document loaders x %d calls x %d schemas x %d documents", len(allKinds), len(allKinds), len(vias), len(schemas), len(docs)), asc, func(emit func(Case)) {
		for _, via := range vias {
			for _, sk := range allKinds {
				for _, dk := range allKinds {
					ds := docs
					if strings.Contains("go raw gostruct", dk) {
						ds = jsonOnly(docs)
					}
					for _, s := range schemas {
						emitLoaders(emit, sk, dk, via, s, ds)
					}
				}
			}
		}
	})
	decodedMaps(c)
	c.Section("exact numbers", fmt.Sprintf("all pairs of %d numbers through every pair of loaders", len(exactNumbers)), asc, func(emit func(Case)) {
		var ds []string
		for _, n := range exactNumbers {
			ds = append(ds, n, "["+n+","+n+"]", `{"a":`+n+`}`)
		}
		for _, sk := range allKinds {
			for _, dk := range allKinds {
				for _, n := range exactNumbers {
					for _, via := range []string{"new", "add"} {
						emitLoaders(emit, sk, dk, via, `{"const":`+n+`}`, ds)
						emitLoaders(emit, sk, dk, via, `{"enum":[[`+n+`,`+n+`],{"a":`+n+`}]}`, ds)
						emitLoaders(emit, sk, dk, via, `{"maximum":`+n+`}`, ds)
					}
				}
			}
		}
	})
	texts := append(append([]string{}, docs...), "", " ", "nul", "{", "}", "[1,]", "[1", `{"a":1`, `{"a":1,}`, "1 2", "1,", "{} {}", "{}x", "[]]", "01", "+1", "1.", ".1", "1e", "'a'", `"a`, "\"\n\"", `"\x"`, "/**/1", "\x00", "1\x00", "1 \x00", "{}\ufeff", "truefalse", "NaN", "null null", "1\n2\n", "{}\n{}\n", "{}\n\n", "\"a\"\"b\"", "[1][2]", "1 // c", "nullx", "true}", "1]", "{},", "-", "--1", "0x1", "1_0")
	c.Section("texts of every kind", fmt.Sprintf("%d texts, well-formed and not, and all texts of at most %d symbols, through every text loader", len(texts), c.Pick(3, 4)), asc, func(emit func(Case)) {
		for _, k := range textKinds {
			for _, t := range texts {
				emit(&Decoded{k, t})
			}
			for _, via := range vias {
				for _, t := range texts {
					if !json.Valid([]byte(t)) {
						emit(&Loaders{k, "string", via, t, []string{"1"}})
					}
				}
			}
			emit(&Loaders{"string", k, "new", `{"type":["number","object"]}`, texts})
			emit(&Loaders{"string", k, "validate", `{"type":["number","object"]}`, texts})
		}
		for _, n := range exactNumbers {
			for _, k := range allKinds {
				emit(&Decoded{k, n})
				emit(&Decoded{k, `{"a":[` + n + `,{"b":` + n + `}]}`})
			}
		}
		for n := 0; n <= c.Pick(3, 4); n++ {
			tuples([]string{"{", "}", "[", "]", ",", ":", `"a"`, "1", "-", ".5", "null", " ", "\n", "x", "\x00"}, n, func(t []string) {
				text := strings.Join(t, "")
				for _, k := range []string{"string", "bytes", "reader1", "writer", "file", "http"} {
					emit(&Decoded{k, text})
				}
				if n <= 2 {
					emit(&Decoded{"osfile", text})
				}
			})
		}
	})

	ft := []string{`{"properties":{"n":{"const":12}},"required":["n"]}`, `{"$id":"http://adds/s","properties":{"n":{"const":13}}}`, `{"type":"object"} `, `true`, "\n{}", `{"$schema":"http://json-schema.org/draft-07/schema#","properties":{"n":{"exclusiveMaximum":12}}}`, `{"title":"` + strings.Repeat("long ", 20) + `"}`}
	dt := []string{`{"n":12}`, `{"n":13}`, `12`, ` {"n":12.0} `, `"` + strings.Repeat("x", 50) + `"`, `[1,[2,{"a":null}]]`, "false"}
	roles := []string{"schema", "schema in a schema loader", "document", "reference", "pointer", "add", "adds", "validated", "validate"}
	eachTarget := func(f func(role, text string)) {
		for _, r := range roles {
			l := ft
			if r == "document" {
				l = dt
			}
			for _, t := range l {
				if r == "adds" && !strings.Contains(t, "adds/s") || r == "pointer" && !strings.Contains(t, `"n"`) {
					continue
				}
				f(r, t)
			}
		}
	}
	c.Section("faults", "every role x every text x every fault point: open error, read error after each byte (three kinds of error), short reads of every size, content that ends at each byte, with and without a repetition on the same schema loader", asc, func(emit func(Case)) {
		eachTarget(func(role, t string) {
			for _, k := range []string{"file", "http"} {
				for _, retry := range []bool{false, true} {
					emit(&Faulty{Role: role, Loader: k, Text: t, Retry: retry, Fault: fault{OpenErr: "permission denied"}})
					for at := 0; at <= len(t); at++ {
						for _, e := range []string{"broken pipe", "unexpected EOF", "EOF"} {
							if e == "EOF" && k == "file" || e == "unexpected EOF" && k == "http" {
								continue
							}
							for _, ch := range []int{0, 1} {
								emit(&Faulty{Role: role, Loader: k, Text: t, Retry: retry, Fault: fault{ReadErr: e, At: at, Chunk: ch}})
							}
						}
						if at > 0 && at < len(t) {
							emit(&Faulty{Role: role, Loader: k, Text: t, Retry: retry, Cut: at})
						}
					}
				}
				for ch := 0; ch <= len(t)+1; ch++ {
					for _, f := range []fault{{}, {EOFWith: true}, {ZeroNil: true}, {EOFWith: true, ZeroNil: true}} {
						f.Chunk = ch
						emit(&Faulty{Role: role, Loader: k, Text: t, Fault: f, Retry: true})
					}
				}
			}
		})
	})
	c.Section("large contents", "texts of 511..513, 4095..4097 and 70000 bytes with read errors at, before and after every multiple of 512", asc, func(emit func(Case)) {
		for _, n := range []int{511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 70000} {
			pad := func(s string) string { return s + strings.Repeat(" ", n-len(s)) }
			str := `"` + strings.Repeat("x", n-2) + `"`
			for _, k := range []string{"file", "http"} {
				for _, t := range []string{pad(`{"properties":{"n":{"const":12}}}`), `{"title":` + str[:n-11] + `"}`} {
					emit(&Faulty{Role: "schema", Loader: k, Text: t})
					emit(&Faulty{Role: "reference", Loader: k, Text: t})
					for at := 0; at <= n; at += 512 {
						for _, d := range []int{-1, 0, 1} {
							if at+d < 0 || at+d > n {
								continue
							}
							for _, r := range []string{"schema", "reference", "add"} {
								emit(&Faulty{Role: r, Loader: k, Text: t, Retry: true, Fault: fault{ReadErr: "broken", At: at + d}})
							}
						}
					}
				}
				emit(&Faulty{Role: "document", Loader: k, Text: str})
				emit(&Faulty{Role: "document", Loader: k, Text: pad(`{"n":12}`)})
				for at := 0; at <= n; at += 512 {
					for _, d := range []int{-1, 0, 1} {
						if at+d >= 0 && at+d <= n {
							emit(&Faulty{Role: "document", Loader: k, Text: pad(`{"n":12}`), Fault: fault{ReadErr: "broken", At: at + d}})
							emit(&Faulty{Role: "document", Loader: k, Text: str, Fault: fault{ReadErr: "unexpected EOF", At: at + d}})
						}
					}
				}
			}
		}
	})
	c.Section("HTTP statuses", "every status from 200 to 599 (and 0, 100, 999) with a perfect body, every role; redirections", asc, func(emit func(Case)) {
		var codes []int
		for s := 200; s <= 599; s++ {
			codes = append(codes, s)
		}
		codes = append(codes, 100, 199, 600, 999)
		for _, s := range codes {
			eachTarget(func(role, t string) {
				emit(&Faulty{Role: role, Loader: "http", Text: t, Status: s, Retry: true})
			})
		}
		for _, s := range []int{301, 302, 303, 307, 308} {
			for _, to := range []string{"/b.json", "/missing.json", "", "/a.json", "://"} {
				for _, e := range []int{200, 404, 500, 204} {
					emit(&Redirect{s, to, e})
				}
			}
		}
	})
	c.Section("changing contents", fmt.Sprintf("every sequence of at most %d contents (two texts, missing, malformed, failing) behind a reference", c.Pick(4, 6)), asc, func(emit func(Case)) {
		for n := 1; n <= c.Pick(4, 6); n++ {
			tuples([]string{"a", "b", "-", "x", "!"}, n, func(t []string) {
				for _, l := range []string{"file", "http", "osfile"} {
					if l == "osfile" && n > c.Pick(2, 4) {
						continue
					}
					for _, r := range []string{"document", "schema", "validate"} {
						for _, same := range []bool{false, true} {
							emit(&Changing{l, r, strings.Join(t, ""), same})
						}
					}
				}
			})
		}
	})
	c.Section("file names", fmt.Sprintf("all names of at most %d symbols of a special alphabet, escaped or not, compiled, referenced and as document, with and without fragment, among files with similar names", c.Pick(3, 4)), asc, func(emit func(Case)) {
		// symbol in the reference -> symbol in the file name
		type sym struct{ ref, file string }
		syms := []sym{{"a", "a"}, {"%61", "a"}, {"+", "+"}, {"%2B", "+"}, {"%2b", "+"}, {"%20", " "}, {" ", " "}, {"%23", "#"}, {"%25", "%"}, {"%3F", "?"}, {"é", "é"}, {"%C3%A9", "é"}, {"/", "/"}, {"%2520", "%20"}, {"~", "~"}, {"A", "A"}, {"&", "&"}, {"%26", "&"}, {"=", "="}, {";", ";"}, {"'", "'"}, {"(", "("}, {"!", "!"}, {"@", "@"}, {":", ":"}, {"$", "$"}, {",", ","}, {"*", "*"}, {"%5B", "["}, {"%5D", "]"}, {"%22", `"`}, {"%7B", "{"}, {"%0A", "\n"}, {"%FF", "\xff"}, {"%2F", "/"}, {"-", "-"}, {"_", "_"}, {"b", "b"}}
		var rec func(n int, ref, file string)
		rec = func(n int, ref, file string) {
			if file != "" {
				file := "/x" + file
				if strings.Contains(file, "//") || strings.HasSuffix(file, "/") {
					goto deeper
				}
				name := file + ".json"
				files := []string{name, "/x.json", "/x" + ref + ".json", "/x" + strings.ReplaceAll(ref, "+", " ") + ".json", strings.ReplaceAll(name, "+", " "), strings.ToLower(name) + "~"}
				files = dedupe(files)
				r := "/x" + ref + ".json"
				for _, fr := range []string{"", "#", "#/definitions/d"} {
					frag := strings.Contains(fr, "/")
					emit(&FileName{Ref: "file://BASE" + r + fr, Want: name, Files: files, Frag: frag})
					if strings.Contains(r, ":") && strings.Count(r, "/") == 1 {
						emit(&FileName{Root: "/root.json", Ref: "file://BASE" + r + fr, Want: name, Files: files, Frag: frag})
					} else {
						emit(&FileName{Root: "/root.json", Ref: r[1:] + fr, Want: name, Files: files, Frag: frag})
						emit(&FileName{Root: "/s/root.json", Ref: ".." + r + fr, Want: name, Files: files, Frag: frag})
						emit(&FileName{Root: "/root.json", Ref: "./" + r[1:] + fr, Want: name, Files: files, Frag: frag})
					}
				}
				emit(&FileName{Ref: "file://BASE" + r, Want: name, Files: files, AsDoc: true})
				emit(&FileName{Ref: "file://BASE" + r, Want: name, Files: files[1:]})
				emit(&FileName{Ref: "file://BASE" + r, Want: name, Files: files[1:], AsDoc: true})
				emit(&FileName{Root: "/root.json", Ref: "file://BASE" + r, Want: name, Files: files[1:]})
				if n == 0 || c.Thorough() && n == 1 {
					emit(&FileName{Ref: "file://BASE" + r, Want: name, Files: files[:1], OS: true})
					emit(&FileName{Ref: "file://BASE" + r, Want: name, Files: files[:1], OS: true, AsDoc: true})
				}
			}
		deeper:
			if n == 0 {
				return
			}
			for _, s := range syms {
				rec(n-1, ref+s.ref, file+s.file)
			}
		}
		rec(c.Pick(2, 3), "", "")
	})
	c.Section("custom and real file system", "the target in the custom file system, the real directory, both or none; every role", asc, func(emit func(Case)) {
		for _, r := range []string{"schema", "reference", "reference of a reference", "two references", "added", "document"} {
			for i := 0; i < 16; i++ {
				emit(&Apart{r, i&1 != 0, i&2 != 0, i&4 != 0, i&8 != 0})
			}
		}
	})
	badURLs(c)
	c.Section("Go values", "supported and unsupported Go values as document, inside a schema, in a registered schema", asc, func(emit func(Case)) {
		for _, v := range goValues() {
			for _, r := range []string{"load", "document", "schema", "added"} {
				emit(&GoValue{v.Name, r})
			}
		}
	})
	c.Section("readers and writers", "every prefix of the texts through NewReaderLoader and NewWriterLoader, ending or failing there", asc, func(emit func(Case)) {
		for _, t := range append(append(append([]string{}, ft...), dt...), exactNumbers...) {
			for n := 0; n <= len(t); n++ {
				for _, f := range []bool{false, true} {
					emit(&Partial{"reader", t, n, f})
					if n == len(t) || !f {
						emit(&Partial{"writer", t, n, f})
					}
				}
			}
		}
	})
	reused(c)
	largeLoads(c)
}

func dedupe(l []string) []string {
	seen := map[string]bool{}
	var r []string
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			r = append(r, s)
		}
	}
	return r
}

func init() { checks["C14"] = c14 }

var _ = http.StatusOK
