package main

import (
	"encoding/json"
	"fmt"
	"net/mail"
	"net/url"
	"regexp"
	"strings"
	"sync"

	gjs "github.com/xeipuuv/gojsonschema"
)

// ---- hand-written recognisers

type tri int

const (
	no tri = iota
	yes
	open // not specified
)

func b2t(b bool) tri {
	if b {
		return yes
	}
	return no
}

func digits(s string) (int, bool) {
	n := 0
	if s == "" {
		return 0, false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n = n*10 + int(s[i]-'0')
		if n > 1e8 {
			n = 1e8
		}
	}
	return n, true
}

func isDate(s string) tri {
	if len(s) != 10 || s[4] != '-' || s[7] != '-' {
		return no
	}
	y, ok1 := digits(s[:4])
	m, ok2 := digits(s[5:7])
	d, ok3 := digits(s[8:])
	if !ok1 || !ok2 || !ok3 || m < 1 || m > 12 || d < 1 {
		return no
	}
	days := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[m-1]
	if m == 2 && (y%4 == 0 && y%100 != 0 || y%400 == 0) {
		days = 29
	}
	return b2t(d <= days)
}

// isTime: HH:MM:SS, an optional fraction, and an offset that may be missing if partial is allowed.
func isTime(s string, partial bool) tri {
	if len(s) < 8 || s[2] != ':' || s[5] != ':' {
		return no
	}
	h, ok1 := digits(s[:2])
	m, ok2 := digits(s[3:5])
	sec, ok3 := digits(s[6:8])
	if !ok1 || !ok2 || !ok3 || h > 23 || m > 59 || sec > 60 {
		return no
	}
	res := yes
	if sec == 60 {
		res = open // leap seconds
	}
	rest := s[8:]
	if strings.HasPrefix(rest, ".") {
		n := 1
		for n < len(rest) && rest[n] >= '0' && rest[n] <= '9' {
			n++
		}
		if n == 1 {
			return no
		}
		rest = rest[n:]
	}
	switch {
	case rest == "":
		if !partial {
			return no
		}
	case rest == "Z":
	case rest == "z":
		return open
	default:
		if len(rest) != 6 || rest[0] != '+' && rest[0] != '-' || rest[3] != ':' {
			return no
		}
		oh, ok1 := digits(rest[1:3])
		om, ok2 := digits(rest[4:6])
		if !ok1 || !ok2 || oh > 24 || om > 60 {
			return no
		}
		if oh == 24 || om == 60 {
			return open
		}
	}
	return res
}

func isDateTime(s string) tri {
	if isDate(s) == yes || isTime(s, true) == yes {
		return yes
	}
	if isTime(s, true) == open {
		return open
	}
	if len(s) > 11 && isDate(s[:10]) == yes {
		switch s[10] {
		case 'T':
			return isTime(s[11:], false)
		case 't', ' ':
			if isTime(s[11:], false) != no {
				return open
			}
		}
	}
	return no
}

func isHostname(s string) tri {
	if len(s) > 255 || s == "" {
		return no
	}
	for _, l := range strings.Split(s, ".") {
		if len(l) < 1 || len(l) > 63 || l[0] == '-' || l[len(l)-1] == '-' {
			return no
		}
		for i := 0; i < len(l); i++ {
			c := l[i]
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-') {
				return no
			}
		}
	}
	return yes
}

func isIPv4(s string) tri {
	p := strings.Split(s, ".")
	if len(p) != 4 {
		return no
	}
	for _, x := range p {
		n, ok := digits(x)
		if !ok || len(x) > 3 || n > 255 || len(x) > 1 && x[0] == '0' {
			return no
		}
	}
	return yes
}

func isIPv6(s string) tri {
	if strings.Count(s, "::") > 1 || strings.Contains(s, ":::") {
		return no
	}
	groups := func(t string, last bool) int { // number of 16 bit groups, or -1
		if t == "" {
			return 0
		}
		p := strings.Split(t, ":")
		n := 0
		for i, g := range p {
			if last && i == len(p)-1 && strings.Contains(g, ".") {
				if isIPv4(g) != yes {
					return -1
				}
				n += 2
				continue
			}
			if len(g) < 1 || len(g) > 4 {
				return -1
			}
			for j := 0; j < len(g); j++ {
				c := g[j]
				if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
					return -1
				}
			}
			n++
		}
		return n
	}
	if i := strings.Index(s, "::"); i >= 0 {
		a, b := groups(s[:i], false), groups(s[i+2:], true)
		return b2t(a >= 0 && b >= 0 && a+b <= 7)
	}
	return b2t(groups(s, true) == 8)
}

func isUUID(s string) tri {
	if len(s) != 36 {
		return no
	}
	for i := 0; i < 36; i++ {
		c := s[i]
		if i == 8 || i == 13 || i == 18 || i == 23 {
			if c != '-' {
				return no
			}
		} else if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
			return no
		}
	}
	return yes
}

func isPointer(s string) tri {
	if s == "" {
		return yes
	}
	if s[0] != '/' {
		return no
	}
	for i := 0; i < len(s); i++ {
		if s[i] == '~' && (i+1 == len(s) || s[i+1] != '0' && s[i+1] != '1') {
			return no
		}
	}
	return yes
}

func isRelPointer(s string) tri {
	n := 0
	for n < len(s) && s[n] >= '0' && s[n] <= '9' {
		n++
	}
	if n == 0 || n > 1 && s[0] == '0' {
		return no
	}
	if s[n:] == "#" {
		return yes
	}
	return isPointer(s[n:])
}

func parseable(s string) (*url.URL, bool) {
	u, err := url.Parse(s)
	return u, err == nil && !strings.Contains(s, `\`)
}

func isURI(s string) tri {
	u, ok := parseable(s)
	return b2t(ok && u.Scheme != "")
}

func isURIRef(s string) tri {
	_, ok := parseable(s)
	return b2t(ok)
}

func isTemplate(s string) tri {
	if _, ok := parseable(s); !ok {
		return no
	}
	depth := 0
	for _, c := range s {
		switch c {
		case '{':
			depth++
		case '}':
			depth--
		}
		if depth < 0 || depth > 1 {
			return no
		}
	}
	return b2t(depth == 0)
}

func isEmail(s string) tri {
	_, err := mail.ParseAddress(s)
	return b2t(err == nil)
}

func isRegex(s string) tri {
	_, err := regexp.Compile(s)
	return b2t(err == nil)
}

// recogniser of every built-in format.
var recognisers = map[string]func(string) tri{
	"date": isDate, "time": func(s string) tri { return isTime(s, true) }, "date-time": isDateTime,
	"hostname": isHostname, "email": isEmail, "idn-email": isEmail, "ipv4": isIPv4, "ipv6": isIPv6,
	"uri": isURI, "iri": isURI, "uri-reference": isURIRef, "iri-reference": isURIRef, "uri-template": isTemplate,
	"uuid": isUUID, "regex": isRegex, "json-pointer": isPointer, "relative-json-pointer": isRelPointer,
}

// directCheckers are the exported checkers.
var directCheckers = map[string]gjs.FormatChecker{
	"date": gjs.DateFormatChecker{}, "time": gjs.TimeFormatChecker{}, "date-time": gjs.DateTimeFormatChecker{},
	"hostname": gjs.HostnameFormatChecker{}, "email": gjs.EmailFormatChecker{}, "idn-email": gjs.EmailFormatChecker{}, "ipv4": gjs.IPV4FormatChecker{}, "ipv6": gjs.IPV6FormatChecker{},
	"uri": gjs.URIFormatChecker{}, "iri": gjs.URIFormatChecker{}, "uri-reference": gjs.URIReferenceFormatChecker{}, "iri-reference": gjs.URIReferenceFormatChecker{}, "uri-template": gjs.URITemplateFormatChecker{},
	"uuid": gjs.UUIDFormatChecker{}, "regex": gjs.RegexFormatChecker{}, "json-pointer": gjs.JSONPointerFormatChecker{}, "relative-json-pointer": gjs.RelativeJSONPointerFormatChecker{},
}

var formatNames = []string{"date", "time", "date-time", "hostname", "email", "idn-email", "ipv4", "ipv6", "uri", "iri", "uri-reference", "iri-reference", "uri-template", "uuid", "regex", "json-pointer", "relative-json-pointer"}

var formatSchemas sync.Map

func formatSchema(name string) *gjs.Schema {
	if s, ok := formatSchemas.Load(name); ok {
		return s.(*gjs.Schema)
	}
	s, err := gjs.NewSchema(gjs.NewStringLoader(`{"format":` + q(name) + `}`))
	if err != nil {
		panic("compiling a format schema: " + err.Error())
	}
	formatSchemas.Store(name, s)
	return s
}

// FormatCase judges strings by one format, directly and through a schema.
type FormatCase struct {
	Format  string   `json:"format"`
	Strings []string `json:"strings"`
}

// Kind names the case type.
func (c *FormatCase) Kind() string { return "format" }

// Run judges them.
func (c *FormatCase) Run(st *Stat) *Fail {
	s := formatSchema(c.Format)
	rec, chk := recognisers[c.Format], directCheckers[c.Format]
	for _, x := range c.Strings {
		st.States++
		want := rec(x)
		if want == open {
			st.Outcomes[c.Format+" open"]++
			continue
		}
		bad := func(how string, got bool) *Fail {
			return &Fail{fmt.Sprintf("format %s, string %q: %s says %v, the format says %v", c.Format, x, how, got, want == yes), &FormatCase{c.Format, []string{x}}}
		}
		st.Traces += 3
		st.Transitions++
		if got := chk.IsFormat(x); got != (want == yes) {
			return bad("the checker", got)
		}
		if got := gjs.FormatCheckers.IsFormat(c.Format, x); got != (want == yes) {
			return bad("the registered checker", got)
		}
		res, err := s.Validate(gjs.NewRawLoader(x))
		if err != nil {
			return failf("format %s, string %q: %v", c.Format, x, err)
		}
		if res.Valid() != (want == yes) {
			return bad("a schema with this format", res.Valid())
		}
		if want == no {
			if len(res.Errors()) != 1 || res.Errors()[0].Type() != "format" || res.Errors()[0].Details()["format"] != c.Format {
				return failf("format %s, string %q: errors %v", c.Format, x, res.Errors())
			}
			st.Outcomes[c.Format+" rejected"]++
		} else {
			st.Outcomes[c.Format+" accepted"]++
		}
	}
	return nil
}

// NonString checks that values of other types pass every built-in format.
type NonString struct {
	Format string `json:"format"`
	Inst   *Inst  `json:"value"`
}

// Kind names the case type.
func (c *NonString) Kind() string { return "non-string" }

// Run judges it.
func (c *NonString) Run(st *Stat) *Fail {
	st.States++
	vals := []interface{}{c.Inst.V.Go()}
	if n, ok := vals[0].(json.Number); ok {
		if f, err := n.Float64(); err == nil {
			vals = append(vals, f, int(f))
		}
	}
	for _, v := range vals {
		st.Traces += 2
		if !directCheckers[c.Format].IsFormat(v) || !gjs.FormatCheckers.IsFormat(c.Format, v) {
			return failf("format %s rejects the %T %v", c.Format, v, v)
		}
	}
	res, err := formatSchema(c.Format).Validate(gjs.NewStringLoader(c.Inst.T))
	if err != nil || !res.Valid() {
		return failf("format %s: document %s: %v %v", c.Format, c.Inst.T, err, res)
	}
	st.outcome("not a string")
	return nil
}

func init() {
	kinds["format"] = func() Case { return &FormatCase{} }
	kinds["non-string"] = func() Case { return &NonString{} }
	checks["C15"] = c15
}

// edits calls f with every string at most k edits (substitution, insertion, deletion of one
// symbol of the alphabet) away from s.
func edits(s string, alphabet []string, k int, f func(string)) {
	f(s)
	if k == 0 {
		return
	}
	r := []rune(s)
	for i := 0; i <= len(r); i++ {
		pre, post := string(r[:i]), string(r[i:])
		for _, a := range alphabet {
			edits(pre+a+post, alphabet, k-1, f)
		}
		if i < len(r) {
			rest := string(r[i+1:])
			edits(pre+rest, alphabet, k-1, f)
			for _, a := range alphabet {
				edits(pre+a+rest, alphabet, k-1, f)
			}
			if i+1 < len(r) { // transposition
				edits(pre+string(r[i+1])+string(r[i])+string(r[i+2:]), alphabet, k-1, f)
			}
		}
	}
}

func chars(s string) []string { return strings.Split(s, "") }

func c15(c *Ctx) {
	type space struct {
		formats []string
		symbols []string
		n       int
		seeds   []string
		edit    []string
	}
	deep := c.Pick(1, 2)
	spaces := []space{
		{[]string{"date", "date-time"}, chars("01-9"), 6 + deep, []string{"2020-02-29", "2021-12-31", "1900-02-28", "0000-01-01"}, chars("01239-T +a٣")},
		{[]string{"time", "date-time"}, chars("02:Z.+"), 6 + deep, []string{"23:59:59", "00:00:00Z", "12:30:05.123Z", "12:30:05+01:00", "01:02:03.5-23:59"}, chars("0259:.,Z+- z")},
		{[]string{"date-time"}, nil, 0, []string{"2020-02-29T23:59:59Z", "1985-04-12T23:20:50.52Z", "1990-12-31T15:59:59+00:00", "2021-01-01T00:00:00-08:30"}, chars("0269:.,TZ+-")},
		{[]string{"hostname"}, []string{"a", "Z", "0", "-", ".", "_", "é", " "}, 5 + deep, []string{"example.com", "a-b.c", "xn--p1ai"}, chars("a0-._ \n")},
		{[]string{"email", "idn-email"}, []string{"a", "@", ".", "\"", "<", ">", " ", "é"}, 5 + deep, []string{"joe@example.com", "Joe <joe@x.y>"}, chars("a@.<>\" ,")},
		{[]string{"ipv4"}, chars("0125.:x"), 7 + deep, []string{"127.0.0.1", "255.255.255.255", "0.0.0.0", "192.168.100.10"}, chars("0256.: -x")},
		{[]string{"ipv6"}, []string{"0", "1", "f", ":", "::", ".", "g"}, 6 + deep, []string{"::1", "2001:db8::ff00:42:8329", "1:2:3:4:5:6:7:8", "::ffff:192.0.2.1", "1:2:3:4:5:6:1.2.3.4", "fe80::"}, chars("0fG:.%/")},
		{[]string{"ipv6"}, []string{"1:", "::", "abcd:", "1", "1.2.3.4", ":"}, 6, nil, nil},
		{[]string{"uri", "iri", "uri-reference", "iri-reference", "uri-template"}, []string{"a", ":", "/", "?", "#", "%", "2", "\\", "{", "}", " ", "é"}, 4 + deep, []string{"http://a.b/c?d#e", "urn:x:y", "//h/p", "http://[::1]:80/", "http://a/{b}/{c}", "http://a/{?q,r}", "{+p}/x{#f}", "mailto:a@b"}, []string{":", "/", "?", "#", "%", "[", "]", "\\", "{", "}", " ", "\x7f", "é"}},
		{[]string{"uuid"}, nil, 0, []string{"01234567-89ab-cdef-0123-456789ABCDEF", "00000000-0000-0000-0000-000000000000"}, chars("0fFgG-{} \n")},
		{[]string{"regex"}, []string{"a", "(", ")", "[", "]", "*", "+", "?", "\\", "{", "1", "}", "|", "^"}, 4 + deep, []string{"^a{1,3}(b|c)*$", "(?i)x", "\\p{L}", "[a-z&&[^b]]"}, chars("(){}[]*\\?1,z")},
		{[]string{"json-pointer", "relative-json-pointer"}, []string{"/", "~", "0", "1", "2", "a", "#", "\n", "é"}, 5 + deep, []string{"/foo/bar~0/baz~1/%a", "0/a", "12#", "1/x~1"}, chars("/~012a# \n")},
	}
	emitter := func(emit func(Case), formats []string) (func(string), func()) {
		var buf []string
		flush := func() {
			if len(buf) > 0 {
				for _, f := range formats {
					emit(&FormatCase{f, buf})
				}
				buf = nil
			}
		}
		return func(s string) {
			buf = append(buf, s)
			if len(buf) == 256 {
				flush()
			}
		}, flush
	}
	for _, sp := range spaces {
		sp := sp
		name := strings.Join(sp.formats, ", ")
		if sp.n > 0 {
			c.Section("all short strings: "+name, fmt.Sprintf("all strings of at most %d of the symbols %q", sp.n, sp.symbols), asc, func(emit func(Case)) {
				add, flush := emitter(emit, sp.formats)
				for k := 0; k <= sp.n; k++ {
					tuples(sp.symbols, k, func(t []string) { add(strings.Join(t, "")) })
				}
				flush()
			})
		}
		if len(sp.seeds) > 0 {
			c.Section("strings near members: "+name, fmt.Sprintf("all strings at most 2 edits (symbols %q) away from %q", sp.edit, sp.seeds), asc, func(emit func(Case)) {
				add, flush := emitter(emit, sp.formats)
				for _, s := range sp.seeds {
					k := 2
					if len(s) > 40 {
						k = 1
					}
					if c.Thorough() && len(s) < 12 {
						k = 3
					}
					edits(s, sp.edit, k, add)
				}
				flush()
			})
		}
	}
	c.Section("every calendar day", "all months 00..13 x days 00..32 of 20 years (1900, 2000, leap years and not), as date and date-time", asc, func(emit func(Case)) {
		add, flush := emitter(emit, []string{"date", "date-time"})
		add2, flush2 := emitter(emit, []string{"date-time"})
		for _, y := range []int{0, 1, 4, 100, 400, 1600, 1700, 1800, 1900, 1996, 1999, 2000, 2001, 2004, 2020, 2021, 2100, 2400, 9996, 9999} {
			for m := 0; m <= 13; m++ {
				for d := 0; d <= 32; d++ {
					s := fmt.Sprintf("%04d-%02d-%02d", y, m, d)
					add(s)
					add2(s + "T00:00:00Z")
					add2(s + "T00:00:00")
				}
			}
		}
		flush()
		flush2()
	})
	c.Section("every time of day", "hours 00..25 x minutes 00..61 x seconds 00..61, and every offset", asc, func(emit func(Case)) {
		add, flush := emitter(emit, []string{"time", "date-time"})
		for h := 0; h <= 25; h++ {
			for m := 0; m <= 61; m++ {
				for _, s := range []int{0, 1, 30, 59, 60, 61} {
					add(fmt.Sprintf("%02d:%02d:%02d", h, m, s))
				}
				add(fmt.Sprintf("12:%02d:%02dZ", m, h*2+10))
				add(fmt.Sprintf("12:00:00+%02d:%02d", h, m))
				add(fmt.Sprintf("12:00:00.25-%02d:%02d", h, m))
				add(fmt.Sprintf("%02d:%02d:00.000000001Z", h, m))
			}
		}
		for n := 0; n < 15; n++ {
			for _, tail := range []string{"", "Z", "+01:00", "Z ", "x", ".1"} {
				add("12:00:00." + strings.Repeat("9", n) + tail)
			}
		}
		flush()
	})
	c.Section("octets", "every octet 0..260 in every position, with and without a leading zero", asc, func(emit func(Case)) {
		add, flush := emitter(emit, []string{"ipv4", "ipv6"})
		for n := 0; n <= 260; n++ {
			for p := 0; p < 4; p++ {
				for _, f := range []string{"%d", "0%d", "%x"} {
					o := []string{"1", "2", "3", "4"}
					o[p] = fmt.Sprintf(f, n)
					add(strings.Join(o, "."))
					add("::" + strings.Join(o, "."))
					add("::ffff:" + strings.Join(o, "."))
				}
			}
		}
		flush()
	})
	c.Section("groups", "IPv6 addresses of 0..9 groups, :: at every place, with and without an IPv4 tail, groups of 1..5 digits", asc, func(emit func(Case)) {
		add, flush := emitter(emit, []string{"ipv6", "ipv4"})
		for n := 0; n <= 9; n++ {
			for w := 1; w <= 5; w++ {
				for v4 := 0; v4 < 2; v4++ {
					for at := -1; at <= n; at++ {
						var g []string
						for i := 0; i < n; i++ {
							g = append(g, strings.Repeat("a", w))
						}
						if v4 == 1 {
							g = append(g, "1.2.3.4")
						}
						if at < 0 {
							add(strings.Join(g, ":"))
							continue
						}
						add(strings.Join(g[:at], ":") + "::" + strings.Join(g[at:], ":"))
					}
				}
			}
		}
		for _, s := range []string{"fe80::1%eth0", "[::1]", "::1/64", " ::1", "::1 ", "1::2::3", ":1::", "1:", ":", ":::", "::1.2.3", "1.2.3.4::", "::1.2.3.4:5"} {
			add(s)
		}
		flush()
	})
	c.Section("label and name lengths", "labels of 0..66 characters, names of 240..260 characters built from them", asc, func(emit func(Case)) {
		add, flush := emitter(emit, []string{"hostname"})
		for n := 0; n <= 66; n++ {
			l := strings.Repeat("a", n)
			for _, s := range []string{l, l + ".com", "www." + l, "a." + l + ".b", "-" + l, l + "-", l + ".", "." + l, l + "-b", l + "_b"} {
				add(s)
			}
			if n > 2 {
				add("a" + strings.Repeat("-", n-2) + "b")
				add("a" + strings.Repeat("-", n-2) + "b.c")
			}
		}
		for n := 1; n <= 260; n++ {
			for _, w := range []int{1, 10, 62, 63} {
				var b strings.Builder
				for b.Len() < n {
					b.WriteString(strings.Repeat("x", w) + ".")
				}
				s := b.String()[:n]
				add(s)
				add(strings.TrimSuffix(s, ".") + "y")
			}
		}
		flush()
	})
	longMembers(c)
	c.Section("values that are not strings", "every format x every non-string value of the pool", both, func(emit func(Case)) {
		for _, f := range formatNames {
			for _, in := range pool() {
				if in.T[0] != '"' {
					emit(&NonString{f, in})
				}
			}
		}
	})
	c.Section("every string by every format", "all seeds, their single edits and the string pool x all 17 formats", asc, func(emit func(Case)) {
		add, flush := emitter(emit, formatNames)
		for _, sp := range spaces {
			for _, s := range sp.seeds {
				add(s)
				if c.Thorough() || len(s) < 12 {
					edits(s, []string{"a", ".", ":", "0"}, 1, add)
				}
			}
		}
		for _, in := range pool() {
			if in.T[0] == '"' {
				add(in.V.S)
			}
		}
		for _, s := range stringsUpTo(chars("a0./:-@~#{}[]"), 2) {
			add(s)
		}
		flush()
	})
	c.Assume = []string{"email follows Go's net/mail, uri and its relatives Go's net/url, regex Go's regexp (the README says so); lower case t and z, leap seconds and offsets of 24:00 or :60 are left open"}
	c.Rule = "the verdict of the exported checker, of the registry and of a schema with this format must equal the hand-written recogniser's"
}
