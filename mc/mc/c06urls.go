package main

import (
	"strings"

	gjs "github.com/xeipuuv/gojsonschema"
)

// similarURLs identify different documents although they look alike.
var similarURLs = []string{
	"http://HOST/a.json", "http://HOST/a.json?v=1", "http://HOST/a.json?v=2", "http://HOST/a.json?V=1", "http://HOST/a.json?v=1&w=2", "http://HOST/A.json", "http://HOST/a.JSON", "http://HOST/a.json/", "http://HOST//a.json", "http://HOST/a", "http://HOST/a/", "http://HOST/", "http://HOST", "http://HOST:8080/a.json", "https://HOST/a.json", "http://user@HOST/a.json", "http://HOST/a.json;x", "http://HOST/a%20b.json", "http://HOST/a+b.json", "http://HOST/a%2Fb.json", "http://HOST/a/b.json", "http://www.HOST/a.json", "file:///a.json", "file:///mcfs/a.json", "http://HOST/a.json.json", "http://HOST/index.html", "http://HOST/a%3Fv=1", "http://HOST/é.json", "http://HOST/e.json",
}

// SimilarURLs registers one or two documents and refers to them.
type SimilarURLs struct {
	A   string `json:"registered"`
	B   string `json:"other"`
	How string `json:"how"`
}

// Kind names the case type.
func (c *SimilarURLs) Kind() string { return "similar-urls" }

func init() { kinds["similar-urls"] = func() Case { return &SimilarURLs{} } }

// Run judges it.
func (c *SimilarURLs) Run(st *Stat) *Fail {
	host := <-hosts
	h := web.host(host)
	defer func() { web.drop(host); hosts <- host }()
	sub := func(s string) string { return strings.ReplaceAll(s, "HOST", host) }
	a, b := sub(c.A), sub(c.B)
	st.States++
	sl := gjs.NewSchemaLoader()
	register := func(u, fp string) error {
		st.Transitions++
		if strings.Contains(c.How, "id") {
			return sl.AddSchemas(gjs.NewStringLoader(`{"$id":` + q(u) + `,"const":` + q(fp) + `,"definitions":{"d":{"const":"d` + fp + `"}}}`))
		}
		return sl.AddSchema(u, gjs.NewStringLoader(`{"const":`+q(fp)+`,"definitions":{"d":{"const":"d`+fp+`"}}}`))
	}
	if err := register(a, "fa"); err != nil {
		return failf("%+v: registering the first: %v", c, err)
	}
	accepts := func(s *gjs.Schema, d interface{}) bool {
		st.Traces++
		res, err := s.Validate(gjs.NewRawLoader(d))
		return err == nil && res.Valid()
	}
	if strings.HasPrefix(c.How, "absent") {
		if c.A == c.B {
			return nil
		}
		for _, frag := range []string{"", "#", "#/definitions/d"} {
			st.Traces++
			if s, err := sl.Compile(gjs.NewReferenceLoader(b + frag)); err == nil {
				return failf("%+v: compiling %s succeeds although only %s is registered (accepts: %v)", c, b+frag, a, accepts(s, "fa"))
			}
		}
		if s, err := sl.Compile(gjs.NewStringLoader(`{"$ref":` + q(b) + `}`)); err == nil {
			return failf("%+v: a reference to %s resolves although only %s is registered (accepts: %v)", c, b, a, accepts(s, "fa"))
		}
		st.outcome("not found")
		return nil
	}
	err := register(b, "fb")
	if c.A == c.B {
		if err == nil {
			return failf("%+v: registered twice without an error", c)
		}
		return nil
	}
	if err != nil {
		return failf("%+v: registering the second: %v", c, err)
	}
	for _, frag := range []string{"", "#", "#/definitions/d"} {
		for i, u := range []string{a, b} {
			s, err := sl.Compile(gjs.NewReferenceLoader(u + frag))
			if err != nil {
				return failf("%+v: compiling %s: %v", c, u+frag, err)
			}
			for j, fp := range []string{"fa", "fb"} {
				if strings.HasSuffix(frag, "d") {
					fp = "d" + fp
				}
				if accepts(s, fp) != (i == j) {
					return failf("%+v: compiling %s gives a schema that accepts %q: %v", c, u+frag, fp, i != j)
				}
			}
		}
	}
	s, err := sl.Compile(gjs.NewStringLoader(`{"properties":{"r":{"$ref":` + q(a) + `},"s":{"$ref":` + q(b+"#") + `},"t":{"$ref":` + q(a+"#/definitions/d") + `},"u":{"$ref":` + q(b+"#/definitions/d") + `}}}`))
	if err != nil {
		return failf("%+v: compiling references: %v", c, err)
	}
	for _, k := range []string{"r", "s", "t", "u"} {
		for _, fp := range []string{"fa", "fb", "dfa", "dfb"} {
			want := map[string]string{"r": "fa", "s": "fb", "t": "dfa", "u": "dfb"}[k] == fp
			if accepts(s, map[string]interface{}{k: fp}) != want {
				return failf("%+v: references to both: member %s accepts %q: %v", c, k, fp, !want)
			}
		}
	}
	if len(h.log) != 0 {
		return failf("%+v: fetches %v", c, h.log)
	}
	st.outcome("both found")
	return nil
}

func similar(c *Ctx) {
	c.Section("similar URLs", "all ordered pairs of 29 URLs, registered by URL or by identifier, both or only one of them", asc, func(emit func(Case)) {
		for _, a := range similarURLs {
			for _, b := range similarURLs {
				for _, how := range []string{"absent", "both", "absent id", "both id"} {
					emit(&SimilarURLs{a, b, how})
				}
			}
		}
	})
}
