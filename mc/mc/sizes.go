package main

import (
	"fmt"
	"strings"

	"verifmc/model"
)

// sizes are the lengths at which lists, objects, strings and schemas are tried: all small ones and
// the neighbours of the round and binary limits an implementation might switch strategy at.
func sizes(c *Ctx) []int {
	var r []int
	for n := 1; n <= 21; n++ {
		r = append(r, n)
	}
	r = append(r, 25, 26, 30, 31, 32, 33, 40, 48, 50, 51, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025)
	if c.ID == "C10" && !c.Thorough() {
		for r[len(r)-1] > 130 {
			r = r[:len(r)-1]
		}
	}
	if c.Thorough() {
		r = append(r, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 9999, 10000, 10001)
	} else if c.ID != "C10" {
		r = append(r, 2001, 2049, 4097, 5001, 10001)
	}
	return r
}

// spots are positions in a list of n.
func spots(n int) []int {
	var r []int
	seen := map[int]bool{}
	for _, p := range []int{0, 1, 2, n / 2, n - 3, n - 2, n - 1} {
		if p >= 0 && p < n && !seen[p] {
			seen[p] = true
			r = append(r, p)
		}
	}
	return r
}

// rep builds a list of n elements, the deviating ones given by index.
func rep(n int, el func(int) string, dev map[int]string) []string {
	r := make([]string, n)
	for i := range r {
		r[i] = el(i)
		if d, ok := dev[i]; ok {
			r[i] = d
		}
	}
	return r
}

func constant(s string) func(int) string { return func(int) string { return s } }

func numbered(f string) func(int) string { return func(i int) string { return fmt.Sprintf(f, i) } }

func obj(l ...string) string { return "{" + strings.Join(l, ",") + "}" }

func sizeDrafts(n int) []model.Draft {
	if n > 130 {
		return []model.Draft{model.Hybrid}
	}
	return []model.Draft{model.D4, model.D7, model.Hybrid}
}

func largeValues(c *Ctx) {
	c.Section("sizes: values", fmt.Sprintf("enum, strings and numerals of %d sizes up to %d", len(sizes(c)), sizes(c)[len(sizes(c))-1]), asc, func(emit func(Case)) {
		for _, n := range sizes(c) {
			for _, d := range sizeDrafts(n) {
				for _, el := range []string{"%d", `"v%d"`, `{"k":%d}`, `[%d,null]`} {
					f := numbered(el)
					s := `{"enum":` + arr(rep(n, f, nil)...) + `}`
					ds := insts(f(n), f(n+1), "null", `"x"`, f(0)[:len(f(0))])
					for _, p := range spots(n) {
						ds = append(ds, inst(f(p)))
						if el == "%d" {
							ds = append(ds, inst(fmt.Sprintf("%d.0", p)), inst(fmt.Sprintf("%d.00e0", p)), inst(fmt.Sprintf("%d.5", p)))
						}
						if el == `{"k":%d}` {
							ds = append(ds, inst(fmt.Sprintf(`{"k":%d.0}`, p)), inst(fmt.Sprintf(`{"k":%d,"l":1}`, p)))
						}
					}
					emit(&Verdict{Draft: d, Schema: s, Insts: ds})
				}
				for _, unit := range []string{"a", "é", "𝒳", `\u0041`, `\ud83d\ude00`, `\n`} {
					var ds []*Inst
					for m := n - 1; m <= n+1; m++ {
						ds = append(ds, inst(`"`+strings.Repeat(unit, m)+`"`))
					}
					ds = append(ds, inst(`"x`+strings.Repeat(unit, n-1)+`"`), inst(`"`+strings.Repeat(unit, n-1)+`x"`))
					emit(&Verdict{Draft: d, Schema: fmt.Sprintf(`{"minLength":%d}`, n), Insts: ds})
					emit(&Verdict{Draft: d, Schema: fmt.Sprintf(`{"maxLength":%d}`, n), Insts: ds})
					emit(&Verdict{Draft: d, Schema: `{"pattern":"x$"}`, Insts: ds})
					emit(&Verdict{Draft: d, Schema: `{"pattern":"^[^x]*$"}`, Insts: ds})
					emit(&Verdict{Draft: d, Schema: `{"enum":["` + strings.Repeat(unit, n) + `"]}`, Insts: ds})
					if d != model.D4 {
						emit(&Verdict{Draft: d, Schema: `{"const":["` + strings.Repeat(unit, n) + `"]}`, Insts: insts(`["`+strings.Repeat(unit, n)+`"]`, `["`+strings.Repeat(unit, n+1)+`"]`, `["`+strings.Repeat(unit, n-1)+`"]`)})
					}
				}
				// numerals of n digits that differ in the last one
				for _, pre := range []string{"", "-", "0."} {
					body := strings.Repeat("9", n-1)
					if pre == "0." {
						body = strings.Repeat("0", n-1)
					} else {
						body = "1" + strings.Repeat("0", n-1)
						body = body[:n-1]
						if n == 1 {
							body = ""
						}
					}
					x := func(k int) string { return fmt.Sprintf("%s%s%d", pre, body, k) }
					ds := insts(x(4), x(5), x(6), x(5)+"e0", x(5)+"0e-1")
					if pre == "0." {
						ds = append(ds, inst(x(5)+"00"), inst(fmt.Sprintf("5e-%d", n)))
					} else {
						ds = append(ds, inst(x(5)+".000"), inst(x(5)+".0001"), inst(x(5)+".00000000000000000000000000000000001"))
					}
					for _, k := range []string{`"minimum":%s`, `"maximum":%s`, `"enum":[%s]`, `"enum":[[%s]]`} {
						emit(&Verdict{Draft: d, Schema: "{" + fmt.Sprintf(k, x(5)) + "}", Insts: append(append([]*Inst{}, ds...), inst("["+x(5)+"]"), inst("["+x(6)+"]"))})
					}
					if pre != "-" {
						emit(&Verdict{Draft: d, Schema: `{"multipleOf":` + x(5) + `}`, Insts: ds})
					}
					emit(&Verdict{Draft: d, Schema: `{"type":"integer"}`, Insts: ds})
					emit(&Verdict{Draft: d, Schema: `{"multipleOf":3}`, Insts: ds})
					if d == model.D4 {
						emit(&Verdict{Draft: d, Schema: `{"minimum":` + x(5) + `,"exclusiveMinimum":true}`, Insts: ds})
						emit(&Verdict{Draft: d, Schema: `{"maximum":` + x(5) + `,"exclusiveMaximum":true}`, Insts: ds})
					} else {
						emit(&Verdict{Draft: d, Schema: `{"exclusiveMinimum":` + x(5) + `}`, Insts: ds})
						emit(&Verdict{Draft: d, Schema: `{"exclusiveMaximum":` + x(5) + `}`, Insts: ds})
					}
				}
			}
		}
	})
}

func largeArrays(c *Ctx) {
	c.Section("sizes: arrays", fmt.Sprintf("arrays and item lists of %d sizes up to %d, deviating elements at up to 7 positions", len(sizes(c)), sizes(c)[len(sizes(c))-1]), asc, func(emit func(Case)) {
		for _, n := range sizes(c) {
			one := func(s string) string { return `{"type":` + q(s) + `}` }
			var devs, dups []*Inst
			devs = append(devs, inst(arr(rep(n, constant("1"), nil)...)), inst(arr(rep(n+1, constant("1"), nil)...)), inst(arr(rep(n-1, constant("1"), nil)...)))
			for _, p := range spots(n) {
				devs = append(devs, inst(arr(rep(n, constant("1"), map[int]string{p: `"x"`})...)))
			}
			devs = append(devs, inst(arr(rep(n+1, constant("1"), map[int]string{n: `"x"`})...)))
			type same struct{ f, g string } // two notations of one value
			for _, s := range []same{{"%d", "%d.0"}, {"%d", "%d.00e0"}, {`"s%d"`, `"\u0073%d"`}, {`{"a":%d,"b":[]}`, `{"b":[],"a":%d.0}`}, {`[%d]`, `[%d]`}, {"%d", `"%d"`}} {
				dups = append(dups, inst(arr(rep(n, numbered(s.f), nil)...)))
				for _, i := range spots(n) {
					for _, j := range spots(n) {
						if i < j {
							dups = append(dups, inst(arr(rep(n, numbered(s.f), map[int]string{j: fmt.Sprintf(s.g, i)})...)))
						}
					}
				}
			}
			for _, d := range sizeDrafts(n) {
				for _, s := range []string{`{"items":` + one("integer") + `}`, fmt.Sprintf(`{"minItems":%d}`, n), fmt.Sprintf(`{"maxItems":%d}`, n), fmt.Sprintf(`{"minItems":%d,"maxItems":%d}`, n, n), `{"contains":` + one("string") + `}`, `{"not":{"contains":` + one("string") + `}}`, `{"items":[{}],"additionalItems":` + one("integer") + `}`} {
					emit(&Verdict{Draft: d, Schema: s, Insts: devs})
				}
				batches(dups, 100, func(b []*Inst) { emit(&Verdict{Draft: d, Schema: `{"uniqueItems":true}`, Insts: b}) })
				for _, p := range spots(n) {
					list := `"items":` + arr(rep(n, constant(one("integer")), map[int]string{p: one("string")})...)
					for _, ai := range []string{"", `,"additionalItems":false`, `,"additionalItems":` + one("string")} {
						emit(&Verdict{Draft: d, Schema: "{" + list + ai + "}", Insts: devs})
					}
				}
				emit(&Verdict{Draft: d, Schema: `{"items":` + arr(rep(n, constant(one("integer")), nil)...) + `,"additionalItems":false}`, Insts: devs})
			}
		}
	})
}

func largeObjects(c *Ctx) {
	c.Section("sizes: objects", fmt.Sprintf("objects, property and pattern lists of %d sizes up to %d", len(sizes(c)), sizes(c)[len(sizes(c))-1]), both, func(emit func(Case)) {
		for _, n := range sizes(c) {
			if n > 257 && !c.Thorough() && n != 1025 {
				continue // additionalProperties is quadratic
			}
			mem := func(v string, dev map[int]string, extra ...string) string {
				l := rep(n, func(i int) string { return fmt.Sprintf(`"k%d":%s`, i, v) }, nil)
				for i, t := range dev {
					if t == "" {
						l[i] = fmt.Sprintf(`"z%d":%s`, i, v)
					} else {
						l[i] = fmt.Sprintf(`"k%d":%s`, i, t)
					}
				}
				return obj(append(l, extra...)...)
			}
			ds := insts(mem("1", nil), mem("1", nil, `"zz":1`), mem("1", nil, `"aa":"x"`), mem("null", nil), mem("1", nil, `"K1":1`), mem("1", nil, `"k":1`))
			for _, p := range spots(n) {
				ds = append(ds, inst(mem("1", map[int]string{p: `"x"`})), inst(mem("1", map[int]string{p: ""})), inst(obj(fmt.Sprintf(`"k%d":1`, p))), inst(obj(fmt.Sprintf(`"k%d":"x"`, p))))
			}
			// as many members as a limit, one less, one more
			l := rep(n+1, func(i int) string { return fmt.Sprintf(`"m%d":null`, i) }, nil)
			ds = append(ds, inst(obj(l[:n-1]...)), inst(obj(l[:n]...)), inst(obj(l...)))
			if n > 257 && !c.Thorough() {
				ds = append(ds[:7:7], ds[len(ds)-8:]...)
			}
			in := `{"type":"integer"}`
			names := rep(n, numbered(`"k%d"`), nil)
			props := obj(rep(n, func(i int) string { return fmt.Sprintf(`"k%d":`+in, i) }, nil)...)
			pats := obj(rep(n, func(i int) string { return fmt.Sprintf(`"^k%d$":`+in, i) }, nil)...)
			for _, d := range sizeDrafts(n) {
				ss := []string{
					`"properties":` + props, `"properties":` + props + `,"additionalProperties":false`, `"properties":` + props + `,"additionalProperties":{"type":"string"}`,
					`"additionalProperties":` + in, `"required":` + arr(names...), fmt.Sprintf(`"minProperties":%d`, n), fmt.Sprintf(`"maxProperties":%d`, n),
					`"dependencies":{"k0":` + arr(names...) + `}`, `"dependencies":` + obj(rep(n, func(i int) string { return fmt.Sprintf(`"k%d":["k0"]`, i) }, nil)...),
					`"dependencies":` + obj(rep(n, func(i int) string { return fmt.Sprintf(`"k%d":{"maxProperties":%d}`, i, n) }, nil)...),
				}
				if n <= 66 {
					ss = append(ss, `"patternProperties":`+pats, `"patternProperties":`+pats+`,"additionalProperties":false`, `"properties":{"k0":{}},"patternProperties":`+pats+`,"additionalProperties":{"type":"null"}`)
				}
				if d != model.D4 {
					ss = append(ss, `"propertyNames":{"pattern":"^k"}`, fmt.Sprintf(`"propertyNames":{"enum":%s}`, arr(names...)), `"propertyNames":{"maxLength":3}`)
				}
				for _, s := range ss {
					emit(&Verdict{Draft: d, Schema: "{" + s + "}", Insts: ds})
				}
			}
		}
	})
	c.Section("sizes: member names", "a member name of every size, and its neighbours", asc, func(emit func(Case)) {
		for _, n := range sizes(c) {
			k := strings.Repeat("n", n)
			ds := insts(obj(q(k)+":1"), obj(q(k)+`:"x"`), obj(q(k+"n")+":1"), obj(q(k[1:])+":1"), obj(q(k[1:]+"m")+`:"x"`), "{}")
			for _, s := range []string{`{"properties":{%s:{"type":"integer"}},"additionalProperties":false}`, `{"required":[%s]}`, `{"dependencies":{%s:["q"]}}`, `{"propertyNames":{"enum":[%s]}}`} {
				emit(&Verdict{Draft: model.Hybrid, Schema: fmt.Sprintf(s, q(k)), Insts: ds})
			}
			emit(&Verdict{Draft: model.Hybrid, Schema: fmt.Sprintf(`{"propertyNames":{"maxLength":%d}}`, n), Insts: ds})
			if n <= 1000 {
				emit(&Verdict{Draft: model.Hybrid, Schema: fmt.Sprintf(`{"patternProperties":{"^n{%d}$":{"type":"integer"}},"additionalProperties":false}`, n), Insts: ds})
			}
		}
	})
}

func largeCombinators(c *Ctx) {
	c.Section("sizes: combinators", fmt.Sprintf("lists of alternatives of %d sizes, nesting up to 513", len(sizes(c))), asc, func(emit func(Case)) {
		ds := insts("1", `"x"`, "null", "{}")
		for _, n := range sizes(c) {
			for _, d := range sizeDrafts(n) {
				for _, op := range []string{"allOf", "anyOf", "oneOf"} {
					for _, base := range []string{`{"type":"integer"}`, `{"not":{"type":"integer"}}`} {
						emit(&Verdict{Draft: d, Schema: `{"` + op + `":` + arr(rep(n, constant(base), nil)...) + `}`, Insts: ds})
						for _, p := range spots(n) {
							emit(&Verdict{Draft: d, Schema: `{"` + op + `":` + arr(rep(n, constant(base), map[int]string{p: `{"type":"string"}`})...) + `}`, Insts: ds})
							for _, r := range spots(n) {
								if r < p && (n <= 66 || r == 0 || p == n-1) {
									emit(&Verdict{Draft: d, Schema: `{"` + op + `":` + arr(rep(n, constant(base), map[int]string{p: `{"type":"string"}`, r: `{"type":["string","null"]}`})...) + `}`, Insts: ds})
								}
							}
						}
					}
				}
				if n > 513 {
					continue
				}
				for _, t := range [][2]string{{`{"not":`, `}`}, {`{"allOf":[`, `]}`}, {`{"anyOf":[{"type":"boolean"},`, `]}`}, {`{"oneOf":[`, `]}`}, {`{"if":{},"then":`, `}`}} {
					emit(&Verdict{Draft: d, Schema: strings.Repeat(t[0], n) + `{"type":"integer"}` + strings.Repeat(t[1], n), Insts: ds})
				}
				deep := func(open, end string) []*Inst {
					return insts(strings.Repeat(open, n)+"1"+strings.Repeat(end, n), strings.Repeat(open, n)+`"x"`+strings.Repeat(end, n))
				}
				emit(&Verdict{Draft: d, Schema: strings.Repeat(`{"items":`, n) + `{"type":"integer"}` + strings.Repeat("}", n), Insts: deep("[", "]")})
				emit(&Verdict{Draft: d, Schema: strings.Repeat(`{"items":[`, n) + `{"type":"integer"}` + strings.Repeat("]}", n), Insts: deep("[", "]")})
				emit(&Verdict{Draft: d, Schema: strings.Repeat(`{"properties":{"a":`, n) + `{"type":"integer"}` + strings.Repeat("}}", n), Insts: deep(`{"a":`, "}")})
				emit(&Verdict{Draft: d, Schema: strings.Repeat(`{"additionalProperties":`, n) + `{"type":"integer"}` + strings.Repeat("}", n), Insts: deep(`{"a":`, "}")})
				emit(&Verdict{Draft: d, Schema: `{"items":{"$ref":"#"},"not":{"type":"string"}}`, Insts: deep("[", "]")})
				emit(&Verdict{Draft: d, Schema: `{"properties":{"a":{"$ref":"#"}},"not":{"type":"string"}}`, Insts: deep(`{"a":`, "}")})
				if d != model.D4 {
					emit(&Verdict{Draft: d, Schema: strings.Repeat(`{"contains":`, n) + `{"type":"integer"}` + strings.Repeat("}", n), Insts: deep("[", "]")})
				}
			}
		}
	})
}
