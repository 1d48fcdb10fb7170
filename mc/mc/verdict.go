package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"strings"

	"verifmc/model"

	gjs "github.com/xeipuuv/gojsonschema"
)

// Inst is an instance document of the enumeration.
type Inst struct {
	V *model.V
	T string
}

func inst(text string) *Inst { return &Inst{model.MustParse(text), text} }

func insts(texts ...string) []*Inst {
	r := make([]*Inst, len(texts))
	for i, t := range texts {
		r[i] = inst(t)
	}
	return r
}

// MarshalJSON writes the document as text (numbers keep their notation).
func (i *Inst) MarshalJSON() ([]byte, error) { return json.Marshal(i.T) }

// UnmarshalJSON reads it back.
func (i *Inst) UnmarshalJSON(b []byte) error {
	if err := json.Unmarshal(b, &i.T); err != nil {
		return err
	}
	v, err := model.Parse(i.T)
	i.V = v
	return err
}

func libDraft(d model.Draft) gjs.Draft {
	switch d {
	case model.D4:
		return gjs.Draft4
	case model.D6:
		return gjs.Draft6
	case model.D7:
		return gjs.Draft7
	}
	return gjs.Hybrid
}

// Verdict compiles one schema and validates documents with it; the model decides what
// compilation and each validation must answer.
type Verdict struct {
	Draft  model.Draft       `json:"draft"`
	NoAuto bool              `json:"autodetect_off,omitempty"`
	Docs   map[string]string `json:"registered,omitempty"`
	Schema string            `json:"schema"`
	ByRef  string            `json:"compile_reference,omitempty"` // compile this reference to a registered document instead of Schema
	Insts  []*Inst           `json:"documents"`
	Errors bool              `json:"compare_errors,omitempty"`
	MayRef bool              `json:"refs,omitempty"`              // the schema has references that may be unresolvable
	WF     bool              `json:"judge_compilation,omitempty"` // the schema may be malformed
	Remote bool              `json:"remote,omitempty"`            // the documents are on the web (host HOST) instead of registered
	NoDup  bool              `json:"-"`                           // skip the case if two schemas share an identifier
}

func init() { kinds["verdict"] = func() Case { return &Verdict{} } }

// Kind names the case type.
func (c *Verdict) Kind() string { return "verdict" }

func (c *Verdict) world() *model.World {
	root := c.Schema
	if c.ByRef != "" {
		root = "{}"
	}
	w := model.NewWorld(c.Draft, model.MustParse(root))
	w.AutoDetect = !c.NoAuto
	for u, t := range c.Docs {
		w.Docs[u] = model.MustParse(t)
	}
	if c.ByRef != "" {
		delete(w.Docs, "")
		w.RootURL = strings.SplitN(c.ByRef, "#", 2)[0]
		u, _ := url.Parse(c.ByRef)
		w.Root, _ = w.Lookup(u)
		if w.Root == nil {
			panic("harness: unresolvable root " + c.ByRef)
		}
	}
	return w
}

func (c *Verdict) compile() (*gjs.Schema, error) {
	sl := gjs.NewSchemaLoader()
	sl.Draft = libDraft(c.Draft)
	sl.AutoDetect = !c.NoAuto
	for _, u := range sortedKeys(c.Docs) {
		if c.Remote {
			break
		}
		if err := sl.AddSchema(u, gjs.NewStringLoader(c.Docs[u])); err != nil {
			return nil, fmt.Errorf("AddSchema(%s): %v", u, err)
		}
	}
	if c.ByRef != "" {
		return sl.Compile(gjs.NewReferenceLoader(c.ByRef))
	}
	return sl.Compile(gjs.NewStringLoader(c.Schema))
}

// Run compares the library with the model.
func (c *Verdict) Run(st *Stat) *Fail {
	if c.Remote {
		host := <-hosts
		h := web.host(host)
		defer func() { web.drop(host); hosts <- host }()
		n := *c
		n.Docs = map[string]string{}
		for u, t := range c.Docs {
			u, t = strings.ReplaceAll(u, "HOST", host), strings.ReplaceAll(t, "HOST", host)
			n.Docs[u] = t
			h.pages[strings.TrimPrefix(u, "http://"+host)] = &webPage{Status: 200, Body: t}
		}
		n.ByRef = strings.ReplaceAll(c.ByRef, "HOST", host)
		n.Schema = strings.ReplaceAll(c.Schema, "HOST", host)
		if f := n.run(st); f != nil {
			return &Fail{Msg: f.Msg}
		}
		return nil
	}
	return c.run(st)
}

func (c *Verdict) run(st *Stat) *Fail {
	w := c.world()
	if c.NoDup && w.Duplicates() {
		return nil
	}
	st.States++
	s, err := c.compile()
	var refErr error
	if c.MayRef {
		refErr = w.CheckRefs()
	}
	if c.WF {
		wf := w.WellFormed()
		st.outcome("compile: " + wf.String())
		if s != nil && err != nil {
			return failf("compiling %s returns an error and a schema", c.Schema)
		}
		switch wf {
		case model.Unspecified:
			return nil
		case model.Reject:
			st.Traces++
			if err == nil {
				return failf("compiling the malformed schema %s (%v, autodetect %v, other documents %v) succeeds", c.Schema, c.Draft, !c.NoAuto, c.Docs)
			}
			return nil
		}
	}
	if refErr != nil {
		st.Traces++
		st.outcome("unresolvable")
		if err == nil {
			return failf("compiling %s (%v) succeeds, but it has an unresolvable reference (%v)", c.Schema, c.Draft, refErr)
		}
		if s != nil {
			return failf("compiling %s returns an error and a schema", c.Schema)
		}
		return nil
	}
	if err != nil {
		return failf("compiling the well-formed schema %s (%v) fails: %v", c.Schema, c.Draft, err)
	}
	if s == nil {
		return failf("compiling %s returns neither a schema nor an error", c.Schema)
	}
	for _, in := range c.Insts {
		st.Traces++
		if msg := c.one(w, s, in, st); msg != "" {
			min := *c
			min.Insts = []*Inst{in}
			return &Fail{msg, &min}
		}
	}
	if n := len(c.Insts); n > 0 && c.Draft == model.Hybrid && !c.NoAuto && len(c.Docs) == 0 && c.ByRef == "" {
		// the same in one call, with one of the documents
		in := c.Insts[len(c.Schema)%n]
		if msg := c.judge(w, in, st, func() (*gjs.Result, error) {
			return gjs.Validate(gjs.NewStringLoader(c.Schema), gjs.NewStringLoader(in.T))
		}); msg != "" {
			return failf("in one call of Validate: %s", msg)
		}
	}
	st.Transitions += w.Steps
	return nil
}

func (c *Verdict) one(w *model.World, s *gjs.Schema, in *Inst, st *Stat) string {
	return c.judge(w, in, st, func() (*gjs.Result, error) { return s.Validate(gjs.NewRawLoader(in.V.Go())) })
}

func (c *Verdict) judge(w *model.World, in *Inst, st *Stat, call func() (*gjs.Result, error)) string {
	res, err := call()
	if err != nil || res == nil {
		return fmt.Sprintf("validating %s against %s: result=%v err=%v", in.T, c.Schema, res, err)
	}
	want := w.Valid(in.V)
	got := res.Valid()
	if got != (len(res.Errors()) == 0) {
		return fmt.Sprintf("validating %s against %s: Valid()=%v with %d errors", in.T, c.Schema, got, len(res.Errors()))
	}
	if want {
		st.Outcomes["valid"]++
	} else {
		st.Outcomes["invalid"]++
	}
	if got != want {
		return fmt.Sprintf("draft %v, schema %s, document %s: library says valid=%v, JSON Schema says %v; errors %v", c.Draft, c.Schema, in.T, got, want, res.Errors())
	}
	if c.Errors {
		return c.compareErrors(w, in, res, st)
	}
	return ""
}

func sortedKeys(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	for i := range r {
		for j := i + 1; j < len(r); j++ {
			if r[j] < r[i] {
				r[i], r[j] = r[j], r[i]
			}
		}
	}
	return r
}

// ---- small combinatorial helpers

func drafts() []model.Draft { return model.Drafts }

func q(s string) string { return model.Quote(s) }

func join(l ...string) string { return strings.Join(l, ",") }

func arr(l ...string) string { return "[" + strings.Join(l, ",") + "]" }

// tuples calls f with every tuple of length n over alphabet.
func tuples(alphabet []string, n int, f func([]string)) {
	t := make([]string, n)
	var rec func(int)
	rec = func(i int) {
		if i == n {
			f(t)
			return
		}
		for _, a := range alphabet {
			t[i] = a
			rec(i + 1)
		}
	}
	rec(0)
}

// arraysUpTo lists all JSON arrays of at most n elements over the alphabet.
func arraysUpTo(alphabet []string, n int) []*Inst {
	var r []*Inst
	for k := 0; k <= n; k++ {
		tuples(alphabet, k, func(t []string) { r = append(r, inst(arr(t...))) })
	}
	return r
}

// subsetsUpTo calls f with every subset (in order) of at most n elements.
func subsetsUpTo(l []string, n int, f func([]string)) {
	var rec func(i int, cur []string)
	rec = func(i int, cur []string) {
		if i == len(l) {
			f(append([]string{}, cur...))
			return
		}
		rec(i+1, cur)
		if len(cur) < n {
			rec(i+1, append(cur, l[i]))
		}
	}
	rec(0, nil)
}

func stringsUpTo(alphabet []string, n int) []string {
	var r []string
	for k := 0; k <= n; k++ {
		tuples(alphabet, k, func(t []string) { r = append(r, strings.Join(t, "")) })
	}
	return r
}

// batches splits documents so that one case stays small.
func batches(l []*Inst, n int, f func([]*Inst)) {
	for len(l) > n {
		f(l[:n])
		l = l[n:]
	}
	if len(l) > 0 {
		f(l)
	}
}
