package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"verifmc/model"

	gjs "github.com/xeipuuv/gojsonschema"
)

// compareErrors compares the reported errors with the report the model derives.
func (c *Verdict) compareErrors(w *model.World, in *Inst, res *gjs.Result, st *Stat) string {
	rep := w.Report(in.V)
	var got []string
	for _, e := range res.Errors() {
		k := errKey(e)
		if strings.HasPrefix(k, "!") {
			return fmt.Sprintf("schema %s, document %s: malformed error: %s", c.Schema, in.T, k)
		}
		got = append(got, k)
		st.Outcomes["error "+e.Type()]++
	}
	if !rep.Match(got) {
		sort.Strings(got)
		return fmt.Sprintf("draft %v, schema %s, document %s:\n reported: [%s]\n expected: %s", c.Draft, c.Schema, in.T, strings.Join(got, "; "), rep)
	}
	return ""
}

// fromLib converts a value the library reports (decoded JSON) into the model's.
func fromLib(x interface{}) (v *model.V, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	return model.FromGo(x), nil
}

func details(e gjs.ResultError, allowed ...string) string {
	have := map[string]bool{"field": true, "context": true}
	for _, a := range allowed {
		have[a] = true
		if _, ok := e.Details()[a]; !ok {
			return "!missing detail " + a
		}
	}
	for k := range e.Details() {
		if !have[k] {
			return "!unexpected detail " + k
		}
	}
	return ""
}

func limit(x interface{}) string {
	switch x := x.(type) {
	case *big.Float:
		return "limit=" + x.Text('g', 15)
	case int:
		return fmt.Sprintf("limit=%d", x)
	case *big.Rat:
		return "limit=" + model.Float(x)
	case json.Number:
		if r, ok := new(big.Rat).SetString(string(x)); ok {
			return "limit=" + model.Float(r)
		}
	case fmt.Stringer:
		return "limit=" + x.String()
	}
	return fmt.Sprintf("limit=%v", x)
}

// canonText canonicalises JSON text(s) inside the "allowed" details.
func canonText(s string) string {
	if v, err := model.Parse(s); err == nil {
		return model.Canon(v)
	}
	if v, err := model.Parse("[" + s + "]"); err == nil {
		var p []string
		for _, e := range v.A {
			p = append(p, model.Canon(e))
		}
		return strings.Join(p, ", ")
	}
	return "!" + s
}

// errKey is the normal form of a reported error; a leading "!" means it is malformed in itself.
func errKey(e gjs.ResultError) string {
	d := e.Details()
	path := e.Context().String()
	if f, ok := d["field"].(string); !ok || f != e.Field() {
		return fmt.Sprintf("!details field %v, Field() %q", d["field"], e.Field())
	}
	if f, ok := d["context"].(string); !ok || f != path {
		return fmt.Sprintf("!details context %v, Context() %q", d["context"], path)
	}
	if e.Field() != strings.TrimPrefix(path, "(root).") {
		return fmt.Sprintf("!Field() %q for the context %q", e.Field(), path)
	}
	v, err := fromLib(e.Value())
	if err != nil {
		return "!value " + err.Error()
	}
	var det, bad string
	switch e.Type() {
	case "invalid_type":
		bad = details(e, "expected", "given")
		det = fmt.Sprintf("expected=%v given=%v", d["expected"], d["given"])
	case "enum", "const":
		bad = details(e, "allowed")
		det = "allowed=" + canonText(fmt.Sprint(d["allowed"]))
	case "format":
		bad = details(e, "format")
		det = fmt.Sprintf("format=%v", d["format"])
	case "multiple_of":
		bad = details(e, "multiple")
		det = limit(d["multiple"])
	case "number_gte", "number_gt", "string_gte", "array_min_items", "array_min_properties":
		bad = details(e, "min")
		det = limit(d["min"])
	case "number_lte", "number_lt", "string_lte", "array_max_items", "array_max_properties":
		bad = details(e, "max")
		det = limit(d["max"])
	case "pattern":
		bad = details(e, "pattern")
		switch p := d["pattern"].(type) {
		case *regexp.Regexp:
			det = "pattern=" + p.String()
		default:
			det = fmt.Sprintf("pattern=%v", p)
		}
	case "unique":
		bad = details(e, "type", "i", "j")
		det = fmt.Sprintf("i=%v j=%v", d["i"], d["j"])
	case "required", "additional_property_not_allowed", "invalid_property_name":
		bad = details(e, "property")
		det = fmt.Sprintf("property=%v", d["property"])
	case "missing_dependency":
		bad = details(e, "dependency")
		det = fmt.Sprintf("dependency=%v", d["dependency"])
	default:
		bad = details(e)
	}
	if bad != "" {
		return bad
	}
	return e.Type() + " @" + path + " value=" + v.Text() + " {" + det + "}"
}
