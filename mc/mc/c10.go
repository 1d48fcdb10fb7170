package main

func c10(c *Ctx) {
	c.mapCase = func(cs Case) Case {
		if v, ok := cs.(*Verdict); ok {
			v.Errors = true
		}
		return cs
	}
	for _, f := range []func(*Ctx){c01, c02, c03, c04} {
		f(c)
	}
	c.Assume = append(specAssume, "the order of errors is not specified: reports are compared as multisets", "which failing alternative of anyOf, oneOf and contains is reported is left open, but it must be exactly one")
	c.Rule = "for every schema and document of the spaces of C01 to C04 the reported errors (type, context path, value, details) are compared as a multiset with the report the model derives"
	manyErrors(c)
}

func init() { checks["C10"] = c10 }
