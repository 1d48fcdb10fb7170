package model

import (
	"errors"
	"math/big"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

// Draft is the JSON Schema draft in force.
type Draft int

// The drafts; Hybrid merges all of them.
const (
	D4     Draft = 4
	D6     Draft = 6
	D7     Draft = 7
	Hybrid Draft = 99
)

// Drafts in the order they are enumerated.
var Drafts = []Draft{D4, D6, D7, Hybrid}

func (d Draft) String() string {
	switch d {
	case D4:
		return "draft4"
	case D6:
		return "draft6"
	case D7:
		return "draft7"
	}
	return "hybrid"
}

// MetaURL is the URL of the draft's meta-schema.
func MetaURL(d Draft) string {
	switch d {
	case D4:
		return "http://json-schema.org/draft-04/schema"
	case D6:
		return "http://json-schema.org/draft-06/schema"
	case D7:
		return "http://json-schema.org/draft-07/schema"
	}
	return ""
}

// World is a set of documents and the settings under which they are compiled.
type World struct {
	Draft      Draft
	AutoDetect bool
	Docs       map[string]*V // absolute URL ("" for the anonymous root) -> document
	Root       *V
	RootURL    string

	ids     map[string]*V
	Touched map[string]bool // absolute URIs (without fragment) looked up, if not nil
	Dup     bool            // two schemas have the same identifier (outside the claims)
	info    map[*V]*info
	Steps   int64 // evaluation steps taken (model transitions)

	Format func(name, s string) bool // nil: formats are not checked
}

type info struct {
	base     *url.URL
	declared Draft // draft the document declares (0: none)
}

// NewWorld makes a world with an anonymous root document.
func NewWorld(d Draft, root *V) *World {
	return &World{Draft: d, AutoDetect: true, Root: root, Docs: map[string]*V{"": root}}
}

// Declared is the draft a document declares through a known $schema, or 0.
func Declared(doc *V) Draft {
	if doc.K != Obj {
		return 0
	}
	s, ok := doc.M["$schema"]
	if !ok || s.K != Str {
		return 0
	}
	u := strings.TrimSuffix(s.S, "#")
	for _, d := range []Draft{D4, D6, D7} {
		if u == MetaURL(d) {
			return d
		}
	}
	return 0
}

func (w *World) declared(doc *V) Draft {
	if !w.AutoDetect {
		return 0
	}
	return Declared(doc)
}

// RootDraft is the draft in force for the root schema.
func (w *World) RootDraft() Draft {
	if doc := w.Docs[w.RootURL]; doc != nil {
		if d := w.declared(doc); d != 0 {
			return d
		}
	}
	return w.Draft
}

func (w *World) index() error {
	if w.info != nil {
		return nil
	}
	w.info = map[*V]*info{}
	w.ids = map[string]*V{}
	for u, doc := range w.Docs {
		base, err := url.Parse(u)
		if err != nil {
			return err
		}
		d := w.declared(doc)
		draft := d
		if draft == 0 {
			draft = w.Draft
		}
		w.ids[key(base)] = doc
		w.walk(doc, base, draft, d)
	}
	return nil
}

func key(u *url.URL) string { return u.String() }

// IDKeyword tells which keyword identifies a schema object in a draft.
func IDKeyword(d Draft, m map[string]*V) string {
	switch d {
	case D4:
		return "id"
	case Hybrid:
		if _, ok := m["id"]; ok {
			return "id"
		}
	}
	return "$id"
}

func (w *World) walk(s *V, base *url.URL, draft, declared Draft) {
	if s.K == Obj {
		if id, ok := s.M[IDKeyword(draft, s.M)]; ok && id.K == Str {
			if u, err := url.Parse(id.S); err == nil {
				abs := base.ResolveReference(u)
				if u.Path == "" && u.Host == "" && u.Scheme == "" && u.Fragment != "" {
					// url.ResolveReference keeps the base for fragment-only references
					w.setID(abs, s)
				} else {
					w.setID(abs, s)
					b := *abs
					b.Fragment, b.RawFragment = "", ""
					base = &b
				}
			}
		}
	}
	w.info[s] = &info{base, declared}
	for _, c := range Children(s) {
		w.walk(c.S, base, draft, declared)
	}
}

func (w *World) setID(u *url.URL, s *V) {
	if old, ok := w.ids[key(u)]; ok && old != s {
		w.Dup = true
	}
	w.ids[key(u)] = s
}

// Duplicates tells whether two schemas share an identifier.
func (w *World) Duplicates() bool { w.index(); return w.Dup }

// Child is a subschema position.
type Child struct {
	Keyword, Key string
	S            *V
}

// Children lists the subschemas of a schema (of any draft), definitions first.
func Children(s *V) []Child {
	if s.K != Obj {
		return nil
	}
	var r []Child
	for _, kw := range []string{"definitions", "properties", "patternProperties", "dependencies"} {
		if m, ok := s.M[kw]; ok && m.K == Obj {
			for _, k := range m.Keys {
				if c := m.M[k]; c.K == Obj || c.K == Bool {
					r = append(r, Child{kw, k, c})
				}
			}
		}
	}
	for _, kw := range []string{"additionalProperties", "additionalItems", "items", "propertyNames", "contains", "not", "if", "then", "else"} {
		if c, ok := s.M[kw]; ok && (c.K == Obj || c.K == Bool) {
			r = append(r, Child{kw, "", c})
		}
	}
	for _, kw := range []string{"items", "allOf", "anyOf", "oneOf"} {
		if l, ok := s.M[kw]; ok && l.K == Arr {
			for i, c := range l.A {
				r = append(r, Child{kw, strconv.Itoa(i), c})
			}
		}
	}
	return r
}

// gated tells whether a keyword exists in the draft.
func gated(kw string, d Draft) bool {
	switch kw {
	case "const", "contains", "propertyNames":
		return d >= D6
	case "if", "then", "else":
		return d >= D7
	}
	return true
}

// ErrUnresolved is returned for references that identify nothing.
var ErrUnresolved = errors.New("unresolvable reference")

// Resolve finds the schema a $ref at node s identifies.
func (w *World) Resolve(s *V, ref string) (*V, error) {
	if err := w.index(); err != nil {
		return nil, err
	}
	r, err := url.Parse(ref)
	if err != nil {
		return nil, err
	}
	base := &url.URL{}
	if in := w.info[s]; in != nil {
		base = in.base
	}
	return w.Lookup(base.ResolveReference(r))
}

// Lookup finds the schema an absolute URI identifies.
func (w *World) Lookup(abs *url.URL) (*V, error) {
	if err := w.index(); err != nil {
		return nil, err
	}
	if w.Touched != nil {
		b := *abs
		b.Fragment, b.RawFragment = "", ""
		w.Touched[key(&b)] = true
	}
	if t, ok := w.ids[key(abs)]; ok {
		return t, nil
	}
	frag := abs.Fragment
	b := *abs
	b.Fragment, b.RawFragment = "", ""
	doc, ok := w.ids[key(&b)]
	if !ok {
		return nil, ErrUnresolved
	}
	if frag == "" {
		return doc, nil
	}
	if frag[0] != '/' {
		return nil, ErrUnresolved
	}
	in := w.info[doc]
	cur := doc
	for _, tok := range strings.Split(frag[1:], "/") {
		tok = strings.ReplaceAll(strings.ReplaceAll(tok, "~1", "/"), "~0", "~")
		switch cur.K {
		case Obj:
			n, ok := cur.M[tok]
			if !ok {
				return nil, ErrUnresolved
			}
			cur = n
		case Arr:
			i, err := strconv.Atoi(tok)
			if err != nil || i < 0 || i >= len(cur.A) {
				return nil, ErrUnresolved
			}
			cur = cur.A[i]
		default:
			return nil, ErrUnresolved
		}
	}
	if w.info[cur] == nil && in != nil {
		w.walk(cur, in.base, w.RootDraft(), in.declared)
	}
	return cur, nil
}

// CheckRefs walks everything a compilation has to look at and reports unresolvable references.
func (w *World) CheckRefs() error {
	if err := w.index(); err != nil {
		return err
	}
	return w.checkRefs(w.Root, w.RootDraft(), map[*V]bool{})
}

func (w *World) checkRefs(s *V, d Draft, seen map[*V]bool) error {
	if seen[s] {
		return nil
	}
	seen[s] = true
	if s.K == Bool && d >= D6 {
		return nil
	}
	if s.K != Obj {
		return errors.New("not a schema")
	}
	ref, isRef := s.M["$ref"]
	isRef = isRef && ref.K == Str
	for _, c := range Children(s) {
		if isRef && c.Keyword != "definitions" || !gated(c.Keyword, d) {
			continue
		}
		if (c.Keyword == "additionalProperties" || c.Keyword == "additionalItems") && c.S.K == Bool {
			continue
		}
		if err := w.checkRefs(c.S, d, seen); err != nil {
			return err
		}
	}
	if isRef {
		t, err := w.Resolve(s, ref.S)
		if err != nil {
			return err
		}
		return w.checkRefs(t, w.draftAt(t, d), seen)
	}
	return nil
}

func (w *World) draftAt(t *V, current Draft) Draft {
	if in := w.info[t]; in != nil && in.declared != 0 {
		return in.declared
	}
	return current
}

var (
	rxMu    sync.RWMutex
	rxCache = map[string]*regexp.Regexp{}
)

func rx(p string) *regexp.Regexp {
	rxMu.RLock()
	r := rxCache[p]
	rxMu.RUnlock()
	if r == nil {
		r = regexp.MustCompile(p)
		rxMu.Lock()
		rxCache[p] = r
		rxMu.Unlock()
	}
	return r
}

// Valid validates a document against the root schema.
func (w *World) Valid(doc *V) bool {
	return w.valid(w.Root, doc, w.RootDraft())
}

// ValidAt validates a document against some schema node of the world.
func (w *World) ValidAt(s, doc *V) bool {
	w.index()
	return w.valid(s, doc, w.draftAt(s, w.RootDraft()))
}

func (w *World) valid(s, x *V, d Draft) bool {
	w.Steps++
	if s.K == Bool {
		return s.B
	}
	m := s.M
	if ref, ok := m["$ref"]; ok && ref.K == Str {
		t, err := w.Resolve(s, ref.S)
		if err != nil {
			panic("model: " + err.Error() + " " + ref.S)
		}
		return w.valid(t, x, w.draftAt(t, d))
	}
	if !typeOK(m["type"], x) {
		return false
	}
	if e, ok := m["enum"]; ok && len(e.A) > 0 && !in(e.A, x) {
		return false
	}
	if c, ok := m["const"]; ok && d >= D6 && !Equal(c, x) {
		return false
	}
	if f, ok := m["format"]; ok && w.Format != nil && x.K == Str && !w.Format(f.S, x.S) {
		return false
	}
	switch x.K {
	case Num:
		for _, b := range bounds(m, d) {
			if b.fails(x.N) {
				return false
			}
		}
	case Str:
		n := utf8.RuneCountInString(x.S)
		if l, ok := count(m, "minLength"); ok && n < l {
			return false
		}
		if l, ok := count(m, "maxLength"); ok && n > l {
			return false
		}
		if p, ok := m["pattern"]; ok && !rx(p.S).MatchString(x.S) {
			return false
		}
	case Arr:
		n := len(x.A)
		if l, ok := count(m, "minItems"); ok && n < l {
			return false
		}
		if l, ok := count(m, "maxItems"); ok && n > l {
			return false
		}
		if u, ok := m["uniqueItems"]; ok && u.B && n > 200 {
			seen := map[string]bool{}
			for _, e := range x.A {
				if k := Canon(e); seen[k] {
					return false
				} else {
					seen[k] = true
				}
			}
		} else if ok && u.B {
			for j := range x.A {
				for i := 0; i < j; i++ {
					if Equal(x.A[i], x.A[j]) {
						return false
					}
				}
			}
		}
		for i, e := range x.A {
			if sub := itemSchema(m, i); sub != nil && !w.valid(sub, e, d) {
				return false
			}
		}
		if c, ok := m["contains"]; ok && d >= D6 {
			found := false
			for _, e := range x.A {
				if w.valid(c, e, d) {
					found = true
				}
			}
			if !found {
				return false
			}
		}
	case Obj:
		n := len(x.M)
		if l, ok := count(m, "minProperties"); ok && n < l {
			return false
		}
		if l, ok := count(m, "maxProperties"); ok && n > l {
			return false
		}
		if r, ok := m["required"]; ok {
			for _, k := range r.A {
				if _, ok := x.M[k.S]; !ok {
					return false
				}
			}
		}
		for _, k := range x.Keys {
			for _, sub := range memberSchemas(m, k) {
				if !w.valid(sub, x.M[k], d) {
					return false
				}
			}
			if pn, ok := m["propertyNames"]; ok && d >= D6 && !w.valid(pn, &V{K: Str, S: k}, d) {
				return false
			}
			if deps, ok := m["dependencies"]; ok {
				if dep, ok := deps.M[k]; ok {
					if dep.K == Arr {
						for _, need := range dep.A {
							if _, ok := x.M[need.S]; !ok {
								return false
							}
						}
					} else if !w.valid(dep, x, d) {
						return false
					}
				}
			}
		}
	}
	if l, ok := m["allOf"]; ok {
		for _, sub := range l.A {
			if !w.valid(sub, x, d) {
				return false
			}
		}
	}
	if l, ok := m["anyOf"]; ok && len(l.A) > 0 && w.countValid(l.A, x, d) == 0 {
		return false
	}
	if l, ok := m["oneOf"]; ok && len(l.A) > 0 && w.countValid(l.A, x, d) != 1 {
		return false
	}
	if sub, ok := m["not"]; ok && w.valid(sub, x, d) {
		return false
	}
	if cond, ok := m["if"]; ok && d >= D7 {
		branch := "else"
		if w.valid(cond, x, d) {
			branch = "then"
		}
		if sub, ok := m[branch]; ok && !w.valid(sub, x, d) {
			return false
		}
	}
	return true
}

func (w *World) countValid(l []*V, x *V, d Draft) int {
	n := 0
	for _, sub := range l {
		if w.valid(sub, x, d) {
			n++
		}
	}
	return n
}

func in(l []*V, x *V) bool {
	for _, e := range l {
		if Equal(e, x) {
			return true
		}
	}
	return false
}

func typeOK(t *V, x *V) bool {
	if t == nil {
		return true
	}
	names := []*V{t}
	if t.K == Arr {
		names = t.A
	}
	if len(names) == 0 {
		return true
	}
	have := x.TypeName()
	for _, n := range names {
		if n.S == have || n.S == "number" && have == "integer" {
			return true
		}
	}
	return false
}

func count(m map[string]*V, kw string) (int, bool) {
	v, ok := m[kw]
	if !ok {
		return 0, false
	}
	return int(v.N.Num().Int64()), true
}

// bound is one numeric assertion.
type bound struct {
	kind string // error type
	n    *big.Rat
}

func (b bound) fails(x *big.Rat) bool {
	switch b.kind {
	case "multiple_of":
		return !new(big.Rat).Quo(x, b.n).IsInt()
	case "number_gte":
		return x.Cmp(b.n) < 0
	case "number_gt":
		return x.Cmp(b.n) <= 0
	case "number_lte":
		return x.Cmp(b.n) > 0
	case "number_lt":
		return x.Cmp(b.n) >= 0
	}
	panic(b.kind)
}

func bounds(m map[string]*V, d Draft) []bound {
	var r []bound
	if v, ok := m["multipleOf"]; ok {
		r = append(r, bound{"multiple_of", v.N})
	}
	side := func(kw, ex, incl, excl string) {
		v, has := m[kw]
		e, hasE := m[ex]
		if hasE && e.K == Bool { // draft-04 form
			if has && e.B {
				r = append(r, bound{excl, v.N})
				return
			}
			hasE = false
		}
		if has {
			r = append(r, bound{incl, v.N})
		}
		if hasE && d != D4 {
			r = append(r, bound{excl, e.N})
		}
	}
	side("minimum", "exclusiveMinimum", "number_gte", "number_gt")
	side("maximum", "exclusiveMaximum", "number_lte", "number_lt")
	return r
}

// itemSchema is the subschema items/additionalItems assigns to index i (nil: none).
func itemSchema(m map[string]*V, i int) *V {
	it, ok := m["items"]
	if !ok {
		return nil
	}
	if it.K != Arr {
		return it
	}
	if i < len(it.A) {
		return it.A[i]
	}
	if ai, ok := m["additionalItems"]; ok {
		return ai
	}
	return nil
}

// memberSchemas lists the subschemas that apply to member k.
func memberSchemas(m map[string]*V, k string) []*V {
	var r []*V
	if p, ok := m["properties"]; ok {
		if s, ok := p.M[k]; ok {
			r = append(r, s)
		}
	}
	if p, ok := m["patternProperties"]; ok {
		for _, pat := range p.Keys {
			if rx(pat).MatchString(k) {
				r = append(r, p.M[pat])
			}
		}
	}
	if len(r) == 0 {
		if ap, ok := m["additionalProperties"]; ok {
			r = append(r, ap)
		}
	}
	return r
}

// IDs lists every absolute identifier of the world's documents.
func (w *World) IDs() []string {
	w.index()
	var r []string
	for k := range w.ids {
		r = append(r, k)
	}
	return r
}
