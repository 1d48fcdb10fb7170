// Package model is the reference model: a deliberately plain interpreter of JSON Schema
// draft-04, -06, -07 and of the library's documented hybrid mode. It shares no code with
// the library under test.
package model

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Kind is the JSON type of a value.
type Kind int

// The JSON types.
const (
	Null Kind = iota
	Bool
	Num
	Str
	Arr
	Obj
)

// V is an immutable JSON value.
type V struct {
	K    Kind
	B    bool
	S    string
	Lit  string   // literal of a number
	N    *big.Rat // exact value of a number
	A    []*V
	Keys []string // sorted
	M    map[string]*V
}

// Parse decodes one JSON text.
func Parse(text string) (*V, error) {
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	var x interface{}
	if err := d.Decode(&x); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("trailing data")
	}
	return FromGo(x), nil
}

// MustParse is Parse for texts the harness wrote itself.
func MustParse(text string) *V {
	v, err := Parse(text)
	if err != nil {
		panic(fmt.Sprintf("harness: bad JSON %q: %v", text, err))
	}
	return v
}

// FromGo converts the output of encoding/json (with UseNumber).
func FromGo(x interface{}) *V {
	switch x := x.(type) {
	case nil:
		return &V{K: Null}
	case bool:
		return &V{K: Bool, B: x}
	case string:
		return &V{K: Str, S: x}
	case json.Number:
		r, ok := new(big.Rat).SetString(string(x))
		if !ok {
			r = nil
		}
		return &V{K: Num, Lit: string(x), N: r}
	case []interface{}:
		v := &V{K: Arr}
		for _, e := range x {
			v.A = append(v.A, FromGo(e))
		}
		return v
	case map[string]interface{}:
		v := &V{K: Obj, M: map[string]*V{}}
		for k, e := range x {
			v.M[k] = FromGo(e)
			v.Keys = append(v.Keys, k)
		}
		sort.Strings(v.Keys)
		return v
	}
	panic(fmt.Sprintf("harness: unexpected Go value %T", x))
}

// Go converts back to what encoding/json with UseNumber would have produced.
func (v *V) Go() interface{} {
	switch v.K {
	case Bool:
		return v.B
	case Str:
		return v.S
	case Num:
		return json.Number(v.Lit)
	case Arr:
		r := make([]interface{}, len(v.A))
		for i, e := range v.A {
			r[i] = e.Go()
		}
		return r
	case Obj:
		r := make(map[string]interface{}, len(v.M))
		for k, e := range v.M {
			r[k] = e.Go()
		}
		return r
	}
	return nil
}

// Quote renders a JSON string without HTML escaping.
func Quote(s string) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.Encode(s)
	return strings.TrimSuffix(b.String(), "\n")
}

// Text renders the value with sorted keys and the original number literals.
func (v *V) Text() string {
	var b strings.Builder
	v.write(&b)
	return b.String()
}

func (v *V) write(b *strings.Builder) {
	switch v.K {
	case Null:
		b.WriteString("null")
	case Bool:
		fmt.Fprintf(b, "%t", v.B)
	case Str:
		b.WriteString(Quote(v.S))
	case Num:
		b.WriteString(v.Lit)
	case Arr:
		b.WriteByte('[')
		for i, e := range v.A {
			if i > 0 {
				b.WriteByte(',')
			}
			e.write(b)
		}
		b.WriteByte(']')
	case Obj:
		b.WriteByte('{')
		for i, k := range v.Keys {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(Quote(k))
			b.WriteByte(':')
			v.M[k].write(b)
		}
		b.WriteByte('}')
	}
}

// Equal is deep JSON equality with mathematical equality of numbers.
func Equal(a, b *V) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case Bool:
		return a.B == b.B
	case Str:
		return a.S == b.S
	case Num:
		return a.N.Cmp(b.N) == 0
	case Arr:
		if len(a.A) != len(b.A) {
			return false
		}
		for i := range a.A {
			if !Equal(a.A[i], b.A[i]) {
				return false
			}
		}
	case Obj:
		if len(a.M) != len(b.M) {
			return false
		}
		for k, x := range a.M {
			y, ok := b.M[k]
			if !ok || !Equal(x, y) {
				return false
			}
		}
	}
	return true
}

// IsInt tells whether a number is mathematically an integer.
func (v *V) IsInt() bool { return v.K == Num && v.N != nil && v.N.IsInt() }

// TypeName is the JSON Schema name of the type ("integer" for integral numbers).
func (v *V) TypeName() string {
	switch v.K {
	case Null:
		return "null"
	case Bool:
		return "boolean"
	case Str:
		return "string"
	case Arr:
		return "array"
	case Obj:
		return "object"
	}
	if v.IsInt() {
		return "integer"
	}
	return "number"
}
