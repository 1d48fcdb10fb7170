package model

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Err is one expected error in normal form.
type Err struct {
	Type, Path string
	Value      *V
	Detail     string // normalised keyword specific details
}

// Key is the text by which expected and actual errors are compared.
func (e Err) Key() string {
	return e.Type + " @" + e.Path + " value=" + e.Value.Text() + " {" + e.Detail + "}"
}

// Rep is an expected report: all of Errs, and for each element of Choice exactly one alternative.
type Rep struct {
	Errs   []Err
	Choice [][]*Rep
}

// Empty tells whether nothing is to be reported.
func (r *Rep) Empty() bool { return len(r.Errs) == 0 && len(r.Choice) == 0 }

func (r *Rep) add(t, path string, v *V, detail string) {
	r.Errs = append(r.Errs, Err{t, path, v, detail})
}

func (r *Rep) merge(o *Rep) {
	r.Errs = append(r.Errs, o.Errs...)
	r.Choice = append(r.Choice, o.Choice...)
}

// Float renders a number the way details are compared (limits are given as big.Float).
func Float(r *big.Rat) string {
	return new(big.Float).SetPrec(200).SetRat(r).Text('g', 15)
}

// Report computes the errors the library has to report for a document.
func (w *World) Report(doc *V) *Rep {
	return w.report(w.Root, doc, w.RootDraft(), "(root)")
}

func (w *World) report(s, x *V, d Draft, path string) *Rep {
	w.Steps++
	r := &Rep{}
	if s.K == Bool {
		if !s.B {
			r.add("false", path, x, "")
		}
		return r
	}
	m := s.M
	if ref, ok := m["$ref"]; ok && ref.K == Str {
		t, err := w.Resolve(s, ref.S)
		if err != nil {
			panic("model: " + err.Error())
		}
		return w.report(t, x, w.draftAt(t, d), path)
	}
	if !typeOK(m["type"], x) {
		r.add("invalid_type", path, x, "expected="+typeNames(m["type"])+" given="+x.TypeName())
		return r
	}
	if e, ok := m["enum"]; ok && len(e.A) > 0 && !in(e.A, x) {
		r.add("enum", path, x, "allowed="+canonList(e.A))
	}
	if c, ok := m["const"]; ok && d >= D6 && !Equal(c, x) {
		r.add("const", path, x, "allowed="+Canon(c))
	}
	if f, ok := m["format"]; ok && w.Format != nil && x.K == Str && !w.Format(f.S, x.S) {
		r.add("format", path, x, "format="+f.S)
	}
	switch x.K {
	case Num:
		for _, b := range bounds(m, d) {
			if b.fails(x.N) {
				r.add(b.kind, path, x, "limit="+Float(b.n))
			}
		}
	case Str:
		n := utf8.RuneCountInString(x.S)
		if l, ok := count(m, "minLength"); ok && n < l {
			r.add("string_gte", path, x, fmt.Sprintf("limit=%d", l))
		}
		if l, ok := count(m, "maxLength"); ok && n > l {
			r.add("string_lte", path, x, fmt.Sprintf("limit=%d", l))
		}
		if p, ok := m["pattern"]; ok && !rx(p.S).MatchString(x.S) {
			r.add("pattern", path, x, "pattern="+p.S)
		}
	case Arr:
		w.reportArray(r, m, x, d, path)
	case Obj:
		w.reportObject(r, m, x, d, path)
	}
	if l, ok := m["allOf"]; ok {
		failed := false
		for _, sub := range l.A {
			b := w.report(sub, x, d, path)
			failed = failed || !b.Empty()
			r.merge(b)
		}
		if failed {
			r.add("number_all_of", path, x, "")
		}
	}
	if l, ok := m["anyOf"]; ok && len(l.A) > 0 && w.countValid(l.A, x, d) == 0 {
		r.add("number_any_of", path, x, "")
		r.Choice = append(r.Choice, w.alternatives(l.A, x, d, path))
	}
	if l, ok := m["oneOf"]; ok && len(l.A) > 0 {
		n := w.countValid(l.A, x, d)
		if n != 1 {
			r.add("number_one_of", path, x, "")
		}
		if n == 0 {
			r.Choice = append(r.Choice, w.alternatives(l.A, x, d, path))
		}
	}
	if sub, ok := m["not"]; ok && w.valid(sub, x, d) {
		r.add("number_not", path, x, "")
	}
	if cond, ok := m["if"]; ok && d >= D7 {
		branch := "else"
		if w.valid(cond, x, d) {
			branch = "then"
		}
		if sub, ok := m[branch]; ok {
			if b := w.report(sub, x, d, path); !b.Empty() {
				r.add("condition_"+branch, path, x, "")
				r.merge(b)
			}
		}
	}
	return r
}

func (w *World) alternatives(l []*V, x *V, d Draft, path string) []*Rep {
	var alts []*Rep
	for _, sub := range l {
		alts = append(alts, w.report(sub, x, d, path))
	}
	return alts
}

func (w *World) reportArray(r *Rep, m map[string]*V, x *V, d Draft, path string) {
	n := len(x.A)
	if l, ok := count(m, "minItems"); ok && n < l {
		r.add("array_min_items", path, x, fmt.Sprintf("limit=%d", l))
	}
	if l, ok := count(m, "maxItems"); ok && n > l {
		r.add("array_max_items", path, x, fmt.Sprintf("limit=%d", l))
	}
	if u, ok := m["uniqueItems"]; ok && u.B {
		for j := range x.A {
			for i := j - 1; i >= 0; i-- {
				if Equal(x.A[i], x.A[j]) {
					r.add("unique", path, x, fmt.Sprintf("i=%d j=%d", i, j))
					break
				}
			}
		}
	}
	it, hasItems := m["items"]
	for i, e := range x.A {
		sub := itemSchema(m, i)
		if sub == nil {
			continue
		}
		if hasItems && it.K == Arr && i >= len(it.A) && sub.K == Bool {
			if !sub.B && i == len(it.A) { // reported once for the array
				r.add("array_no_additional_items", path, x, "")
			}
			continue
		}
		r.merge(w.report(sub, e, d, path+"."+strconv.Itoa(i)))
	}
	if c, ok := m["contains"]; ok && d >= D6 {
		found := false
		var alts []*Rep
		for i, e := range x.A {
			b := w.report(c, e, d, path+"."+strconv.Itoa(i))
			found = found || b.Empty()
			alts = append(alts, b)
		}
		if !found {
			r.add("contains", path, x, "")
			if len(alts) > 0 {
				r.Choice = append(r.Choice, alts)
			}
		}
	}
}

func (w *World) reportObject(r *Rep, m map[string]*V, x *V, d Draft, path string) {
	n := len(x.M)
	if l, ok := count(m, "minProperties"); ok && n < l {
		r.add("array_min_properties", path, x, fmt.Sprintf("limit=%d", l))
	}
	if l, ok := count(m, "maxProperties"); ok && n > l {
		r.add("array_max_properties", path, x, fmt.Sprintf("limit=%d", l))
	}
	if q, ok := m["required"]; ok {
		for _, k := range q.A {
			if _, ok := x.M[k.S]; !ok {
				r.add("required", path, x, "property="+k.S)
			}
		}
	}
	for _, k := range x.Keys {
		subs := memberSchemas(m, k)
		ap := m["additionalProperties"]
		for _, sub := range subs {
			if sub == ap && sub.K == Bool {
				if !sub.B {
					r.add("additional_property_not_allowed", path, x.M[k], "property="+k)
				}
				continue
			}
			r.merge(w.report(sub, x.M[k], d, path+"."+k))
		}
		if pn, ok := m["propertyNames"]; ok && d >= D6 {
			if b := w.report(pn, &V{K: Str, S: k}, d, path); !b.Empty() {
				r.add("invalid_property_name", path, x, "property="+k)
				r.merge(b)
			}
		}
		if deps, ok := m["dependencies"]; ok {
			if dep, ok := deps.M[k]; ok {
				if dep.K == Arr {
					for _, need := range dep.A {
						if _, ok := x.M[need.S]; !ok {
							r.add("missing_dependency", path, x, "dependency="+need.S)
						}
					}
				} else {
					r.merge(w.report(dep, x, d, path))
				}
			}
		}
	}
}

func typeNames(t *V) string {
	if t.K == Str {
		return t.S
	}
	var n []string
	for _, e := range t.A {
		n = append(n, e.S)
	}
	if len(n) == 1 {
		return n[0]
	}
	return "[" + strings.Join(n, ",") + "]"
}

// Canon is a text that is equal for equal values only.
func Canon(v *V) string {
	switch v.K {
	case Num:
		return v.N.RatString()
	case Arr:
		var p []string
		for _, e := range v.A {
			p = append(p, Canon(e))
		}
		return "[" + strings.Join(p, ",") + "]"
	case Obj:
		var p []string
		for _, k := range v.Keys {
			p = append(p, Quote(k)+":"+Canon(v.M[k]))
		}
		return "{" + strings.Join(p, ",") + "}"
	}
	return v.Text()
}

func canonList(l []*V) string {
	var p []string
	for _, e := range l {
		p = append(p, Canon(e))
	}
	return strings.Join(p, ", ")
}

// Match tells whether the multiset of actual error keys is one the report allows.
func (r *Rep) Match(got []string) bool {
	counts := map[string]int{}
	for _, g := range got {
		counts[g]++
	}
	return match(r.Errs, r.Choice, counts, len(got), func(left int) bool { return left == 0 })
}

func match(errs []Err, choice [][]*Rep, counts map[string]int, left int, done func(int) bool) bool {
	taken := 0
	ok := true
	for _, e := range errs {
		k := e.Key()
		if counts[k] == 0 {
			ok = false
			break
		}
		counts[k]--
		taken++
	}
	if ok {
		ok = matchChoice(choice, counts, left-taken, done)
	}
	for i := 0; i < taken; i++ {
		counts[errs[i].Key()]++
	}
	return ok
}

func matchChoice(choice [][]*Rep, counts map[string]int, left int, done func(int) bool) bool {
	if len(choice) == 0 {
		return done(left)
	}
	for _, alt := range choice[0] {
		if match(alt.Errs, alt.Choice, counts, left, func(l int) bool {
			return matchChoice(choice[1:], counts, l, done)
		}) {
			return true
		}
	}
	return false
}

// String lists the expectation for replay files.
func (r *Rep) String() string {
	var l []string
	for _, e := range r.Errs {
		l = append(l, e.Key())
	}
	sort.Strings(l)
	for _, c := range r.Choice {
		var a []string
		for _, alt := range c {
			a = append(a, alt.String())
		}
		l = append(l, "one of ("+strings.Join(a, " | ")+")")
	}
	return "[" + strings.Join(l, "; ") + "]"
}
