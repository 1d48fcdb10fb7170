package model

import "regexp"

// Tri is the answer the specification gives to "does this schema compile?".
type Tri int

// The answers; Unspecified means the claims leave it open.
const (
	Accept Tri = iota
	Reject
	Unspecified
)

func (t Tri) String() string { return [...]string{"accept", "reject", "unspecified"}[t] }

func and(a, b Tri) Tri {
	if a == Reject || b == Reject {
		return Reject
	}
	if a == Unspecified || b == Unspecified {
		return Unspecified
	}
	return Accept
}

// WellFormed judges everything a compilation of the root has to look at.
func (w *World) WellFormed() Tri {
	if err := w.index(); err != nil {
		return Unspecified
	}
	r := Accept
	if doc := w.Docs[w.RootURL]; doc != nil && doc.K == Obj {
		if s, ok := doc.M["$schema"]; ok && s.K != Str {
			if w.AutoDetect {
				return Reject
			}
			r = Unspecified
		}
	}
	return and(r, w.wf(w.Root, w.RootDraft(), map[*V]bool{}))
}

func wfStr(v *V) Tri {
	if v.K != Str {
		return Reject
	}
	return Accept
}

func wfNum(v *V) Tri {
	if v.K != Num {
		return Reject
	}
	return Accept
}

func wfCount(v *V) Tri {
	if v.K != Num || !v.N.IsInt() || v.N.Sign() < 0 {
		return Reject
	}
	if !v.N.Num().IsInt64() {
		return Unspecified
	}
	return Accept
}

var knownType = map[string]bool{"null": true, "boolean": true, "integer": true, "number": true, "string": true, "array": true, "object": true}

func wfStrings(v *V) Tri {
	if v.K != Arr {
		return Reject
	}
	for i, e := range v.A {
		if e.K != Str {
			return Reject
		}
		for _, f := range v.A[:i] {
			if f.S == e.S {
				return Reject
			}
		}
	}
	return Accept
}

func (w *World) wf(s *V, d Draft, seen map[*V]bool) Tri {
	if s.K == Bool {
		if d == D4 {
			return Reject
		}
		return Accept
	}
	if s.K != Obj {
		return Reject
	}
	if seen[s] {
		return Accept
	}
	seen[s] = true
	m := s.M
	if ref, ok := m["$ref"]; ok {
		if ref.K != Str {
			if d == D4 || d == Hybrid {
				return Unspecified
			}
			return Reject
		}
		r := Accept
		// everything next to a reference is ignored; definitions and annotations may still be looked at
		own := &V{K: Obj, M: map[string]*V{}}
		for k, v := range m {
			if k != "$ref" {
				own.M[k] = v
				own.Keys = append(own.Keys, k)
			}
		}
		if w.wf(own, d, map[*V]bool{}) != Accept {
			r = Unspecified
		}
		t, err := w.Resolve(s, ref.S)
		if err != nil {
			return Reject
		}
		return and(r, w.wf(t, w.draftAt(t, d), seen))
	}
	r := Accept
	add := func(t Tri) { r = and(r, t) }
	schema := func(v *V) { add(w.wf(v, d, seen)) }
	schemas := func(v *V) {
		if v.K != Arr {
			add(Reject)
			return
		}
		if len(v.A) == 0 {
			add(Unspecified)
		}
		for _, e := range v.A {
			schema(e)
		}
	}
	named := func(v *V) {
		if v.K != Obj {
			add(Reject)
			return
		}
		for _, k := range v.Keys {
			schema(v.M[k])
		}
	}
	for _, k := range s.Keys {
		v := m[k]
		switch k {
		case "id", "$id":
			if d == Hybrid && m["id"] != nil && m["$id"] != nil {
				add(Unspecified)
			} else if IDKeyword(d, m) == k {
				add(wfStr(v))
			}
		case "title", "description", "format":
			add(wfStr(v))
		case "$comment", "examples", "readOnly", "writeOnly", "contentMediaType", "contentEncoding":
			ok := v.K == Str
			switch k {
			case "examples":
				ok = v.K == Arr
			case "readOnly", "writeOnly":
				ok = v.K == Bool
			}
			if !ok && d != D4 {
				add(Unspecified)
			}
		case "definitions", "properties":
			named(v)
		case "patternProperties":
			named(v)
			for _, p := range v.Keys {
				if _, err := regexp.Compile(p); err != nil {
					add(Reject)
				}
			}
		case "dependencies":
			if v.K != Obj {
				add(Reject)
				break
			}
			for _, p := range v.Keys {
				dep := v.M[p]
				if dep.K == Arr {
					for _, e := range dep.A {
						if e.K != Str {
							add(Reject)
						}
					}
					if wfStrings(dep) == Reject || d == D4 && len(dep.A) == 0 {
						add(Unspecified)
					}
				} else {
					schema(dep)
				}
			}
		case "items":
			if v.K == Arr {
				schemas(v)
			} else {
				schema(v)
			}
		case "additionalItems", "additionalProperties":
			if v.K != Bool {
				schema(v)
			}
		case "not":
			schema(v)
		case "contains", "propertyNames", "if", "then", "else":
			if gated(k, d) {
				schema(v)
			}
		case "allOf", "anyOf", "oneOf":
			schemas(v)
		case "type":
			if v.K == Str {
				if !knownType[v.S] {
					add(Reject)
				}
				break
			}
			add(wfStrings(v))
			for _, e := range v.A {
				if !knownType[e.S] {
					add(Reject)
				}
			}
			if v.K == Arr && len(v.A) == 0 {
				add(Unspecified)
			}
		case "enum":
			if v.K != Arr {
				add(Reject)
				break
			}
			if len(v.A) == 0 {
				add(Unspecified)
			}
			for i, e := range v.A {
				if in(v.A[:i], e) {
					add(Reject)
				}
			}
		case "required":
			add(wfStrings(v))
			if v.K == Arr && len(v.A) == 0 && d == D4 {
				add(Unspecified)
			}
		case "multipleOf":
			add(wfNum(v))
			if v.K == Num && v.N.Sign() <= 0 {
				add(Reject)
			}
		case "minimum", "maximum":
			add(wfNum(v))
		case "exclusiveMinimum", "exclusiveMaximum":
			base := "minimum"
			if k == "exclusiveMaximum" {
				base = "maximum"
			}
			switch {
			case v.K == Bool && d != D4 && d != Hybrid, v.K == Num && d == D4, v.K != Bool && v.K != Num:
				add(Reject)
			case v.K == Bool && m[base] == nil:
				add(Reject)
			}
		case "minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties":
			add(wfCount(v))
		case "pattern":
			add(wfStr(v))
			if v.K == Str {
				if _, err := regexp.Compile(v.S); err != nil {
					add(Reject)
				}
			}
		case "uniqueItems":
			if v.K != Bool {
				add(Reject)
			}
		}
	}
	for _, p := range [][2]string{{"minLength", "maxLength"}, {"minProperties", "maxProperties"}} {
		if a, b := m[p[0]], m[p[1]]; a != nil && b != nil && wfCount(a) == Accept && wfCount(b) == Accept && a.N.Cmp(b.N) > 0 {
			add(Reject)
		}
	}
	return r
}
