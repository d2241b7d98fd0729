package main

import "go/types"

// Command line flags: the variable of a flag holds its default until the
// command line is parsed, and then an arbitrary value that is known by the name
// of the flag.

type flagVar struct {
	p, v *Val
	t    types.Type
	g    B
}

func flagModels(m map[string]model) {
	kinds := map[string]types.Type{"Int": types.Typ[types.Int], "Int64": types.Typ[types.Int64], "Uint": types.Typ[types.Uint], "Uint64": types.Typ[types.Uint64],
		"String": types.Typ[types.String], "Float64": types.Typ[types.Float64], "Bool": types.Typ[types.Bool]}
	name := func(c *Call, v *Val) string {
		s, ok := constStr(prune(v, c.st.g))
		if !ok {
			fail("a command line flag without a constant name")
		}
		return s
	}
	note := func(c *Call, flag string, v, def *Val) {
		c.an.event(&Event{kind: "flag", name: flag, fn: c.fr.fn, pos: posOf(c.ins), g: c.st.g, args: []*Val{v, def}, key: c.site()})
	}
	for k, t := range kinds {
		t := t
		m["flag."+k+"Var"] = func(c *Call, a []*Val) *Val {
			n := name(c, a[1])
			v := mkSym(t, "flag."+n)
			note(c, n, v, a[2])
			c.st.store(a[0], a[2])
			c.an.flags = append(c.an.flags, flagVar{a[0], v, t, c.st.g})
			return vNil()
		}
		m["flag."+k] = func(c *Call, a []*Val) *Val {
			n := name(c, a[0])
			o := symObj("flagvar."+n, t)
			v := mkSym(t, "flag."+n)
			note(c, n, v, a[1])
			c.st.heap[o] = a[1]
			c.an.flags = append(c.an.flags, flagVar{vPtr(o), v, t, c.st.g})
			return vPtr(o)
		}
	}
	parse := func(c *Call, a []*Val) *Val {
		for _, f := range c.an.flags {
			if E.feasible(E.And(f.g, c.st.g)) {
				c.st.store(f.p, mergeVal(f.g, f.v, c.st.load(f.p, f.t)))
			}
		}
		return vNil()
	}
	m["flag.Parse"] = parse
	m["(*flag.FlagSet).Parse"] = parse
}
