package props

import (
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"
)

// checkLine parses one header line and compares all it reports and encodes
// with the model. It returns the encoding.
func checkLine(c *mon.C, l *gen.Line, wire string) string {
	h, err := parseLine(wire)
	if err != nil {
		c.Failf("rejected:"+kindName(l.K), "well-formed header rejected: %v\nline: %q", err, wire)
		return ""
	}
	got := gen.Observe(h)
	if d := diff(l.Want(), got); d != "" {
		c.Failf("fields:"+kindName(l.K), "fields differ from what was written, %s\nline: %q", d, wire)
		return ""
	}
	enc := h.String()
	if enc != l.Canon() {
		c.Failf("encoding:"+kindName(l.K), "encoding %q, expected %q\nline: %q", enc, l.Canon(), wire)
		return ""
	}
	c.Count("fields compared", len(got))
	return enc
}

func init() {
	field := func(c *mon.C, k *gen.Kind, g *gen.G) {
		l := g.Line(k, 4)
		wire := l.Plain()
		if checkLine(c, l, wire) == "" {
			return
		}
		c.Key(wire)
		c.Count("header "+kindName(k), 1)
		if c.WantSample() {
			c.Sample("%s => %s", wire, strings.Join(l.Want(), " | "))
		}
	}
	hs := map[string]mon.Handler{}
	kinds := append([]*gen.Kind(nil), gen.Kinds...)
	var names []string
	for _, k := range kinds {
		k := k
		names = append(names, "header "+k.Name)
		hs["field:"+k.Name] = func(c *mon.C, data []byte) { field(c, k, gen.New(c.RNG())) }
	}
	hs["field:ext"] = func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		field(c, gen.ExtKind(g.ExtName()), g)
	}
	hs["wildcard"] = func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		b := func() string { return g.Pick("", " ", "\t", "  ", " \t") }
		wire := g.Pick("Contact", "contact", "CONTACT", "m", "M") + b() + ":" + b() + "*" + b()
		h, err := parseLine(wire)
		if err != nil {
			c.Failf("rejected:wildcard", "%q is rejected: %v", wire, err)
			return
		}
		want := []string{"list of 1", "Contact q=-1 has=false expires=0 wild=true", "display=", "no uri", "wild card"}
		if d := diff(want, gen.Observe(h)); d != "" {
			c.Failf("fields:wildcard", "fields differ from what was written, %s\nline: %q", d, wire)
			return
		}
		c.Key(wire)
		c.Count("wild cards", 1)
	}
	mon.Register(&mon.Prop{
		ID:       "S05",
		Quick:    5,
		Rule:     "a case is one generated well-formed header line of one kind, with 1 to 4 values for list kinds; it counts when every accessor of the parsed header was compared with the model the line was generated from; distinct cases are distinct lines",
		Handlers: hs,
		Plan: func(p *mon.Plan) {
			n := p.N(12000, 500000)
			for _, k := range kinds {
				p.Seeds("field:"+k.Name, n)
			}
			p.Seeds("field:ext", n)
			p.Seeds("wildcard", 400)
		},
		MinEvents: append(names, "wild cards"),
	})
}
