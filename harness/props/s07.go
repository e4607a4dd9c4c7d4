package props

import (
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/sip/header"
)

// arrangement writes the headers of a message in another legal arrangement of
// the same lists: values joined by commas or spread over several lines, lines
// of different headers interleaved, the first lines of all names in order.
func arrangement(g *gen.G, m *gen.Msg) *gen.Msg {
	type q struct {
		k    *gen.Kind
		vals []*gen.Val
	}
	var qs []*q
	for _, x := range m.Groups() {
		qs = append(qs, &q{x.K, x.Vals})
	}
	n := *m
	n.Lines = nil
	take := func(x *q) {
		c := 1
		if x.k.List && !x.k.NoComma {
			c = 1 + g.N(len(x.vals))
			if g.P(3) {
				c = 1
			}
		}
		n.Lines = append(n.Lines, &gen.Line{K: x.k, Vals: x.vals[:c]})
		x.vals = x.vals[c:]
	}
	for i, x := range qs {
		take(x)
		// perhaps more of the headers already begun
		for g.P(2) {
			y := qs[g.N(i+1)]
			if len(y.vals) > 0 {
				take(y)
			}
		}
	}
	for {
		var left []*q
		for _, x := range qs {
			if len(x.vals) > 0 {
				left = append(left, x)
			}
		}
		if len(left) == 0 {
			break
		}
		take(left[g.N(len(left))])
	}
	n.CLAt = g.N(len(n.Lines) + 1)
	return &n
}

// firsts are the first Via, Route, Record-Route and Contact of a message.
func obsFirsts(x gen.Message) []string {
	var o []string
	add := func(n string, h header.Header) { o = append(o, n+" "+h.String()) }
	y, ok := x.(interface {
		GetTopmostVia() *header.Via
		GetViaHeaders() *header.ViaList
		GetRouteHeaders() *header.RouteList
		GetRecordRouteHeaders() *header.RecordRouteList
		GetContactHeaders() *header.ContactList
		GetErrorInfoHeaders() *header.ErrorInfoList
	})
	if !ok {
		return []string{"accessors missing"}
	}
	if v := y.GetTopmostVia(); v != nil {
		add("top Via", v)
	}
	if l := y.GetViaHeaders(); l != nil {
		for e := l.Front(); e != nil; e = e.Next() {
			add("via", e.Value.(header.Header))
		}
	}
	if l := y.GetRouteHeaders(); l != nil {
		for e := l.Front(); e != nil; e = e.Next() {
			add("route", e.Value.(header.Header))
		}
	}
	if l := y.GetRecordRouteHeaders(); l != nil {
		for e := l.Front(); e != nil; e = e.Next() {
			add("record-route", e.Value.(header.Header))
		}
	}
	if l := y.GetContactHeaders(); l != nil {
		for e := l.Front(); e != nil; e = e.Next() {
			add("contact", e.Value.(header.Header))
		}
	}
	if l := y.GetErrorInfoHeaders(); l != nil {
		for e := l.Front(); e != nil; e = e.Next() {
			add("error-info", e.Value.(header.Header))
		}
	}
	for _, n := range []string{"Via", "Route", "Record-Route", "Contact"} {
		if h := x.GetHeader(n); h != nil {
			add("first "+n, h)
		}
	}
	return o
}

func wantFirsts(m *gen.Msg) []string {
	var o []string
	one := func(n string, k *gen.Kind, v *gen.Val) { o = append(o, n+" "+k.Name+": "+v.Canon+"\r\n") }
	all := func(label, name string) {
		if x := m.Group(name); x != nil {
			for _, v := range x.Vals {
				one(label, x.K, v)
			}
		}
	}
	if x := m.Group("Via"); x != nil {
		one("top Via", x.K, x.Vals[0])
	}
	all("via", "Via")
	all("route", "Route")
	all("record-route", "Record-Route")
	all("contact", "Contact")
	all("error-info", "Error-Info")
	for _, n := range []string{"Via", "Route", "Record-Route", "Contact"} {
		if x := m.Group(n); x != nil {
			one("first "+n, x.K, x.Vals[0])
		}
	}
	return o
}

func init() {
	var lists []*gen.Kind
	for _, k := range gen.Kinds {
		if k.List {
			lists = append(lists, k)
		}
	}
	check := func(c *mon.C, m *gen.Msg, wire []byte) bool {
		x := checkMsg(c, "arrangement", m, wire)
		if x == nil {
			return false
		}
		if d := diff(wantFirsts(m), obsFirsts(x)); d != "" {
			c.Failf("lists", "the lists returned differ, %s\n%q", d, wire)
			return false
		}
		if e, w := x.String(), m.Canon(); e != w {
			c.Failf("encoding", "encoding %q\nexpected %q\nwire %q", e, w, wire)
			return false
		}
		c.Key(string(wire))
		return true
	}
	both := func(c *mon.C, g *gen.G, m *gen.Msg) {
		for i := 0; i < 3; i++ {
			a := m
			if i > 0 {
				a = arrangement(g, m)
			}
			if !check(c, a, a.Wire()) {
				return
			}
			c.Count("arrangements", 1)
		}
	}
	hs := map[string]mon.Handler{
		"mixed": func(c *mon.C, data []byte) {
			g := gen.New(c.RNG())
			m := g.Msg(gen.MsgOpt{Extra: 8, Repeat: true})
			both(c, g, m)
			c.Count("mixed messages", 1)
		},
		"single": func(c *mon.C, data []byte) { // repeated single-valued headers
			g := gen.New(c.RNG())
			m := g.Msg(gen.MsgOpt{Extra: 4, Repeat: true})
			for n := 1 + g.N(3); n > 0; n-- {
				var k *gen.Kind
				for k == nil || !k.Single || k.Name == "Content-Length" || k.Name == "CSeq" {
					k = gen.Kinds[g.N(len(gen.Kinds))]
				}
				for r := 1 + g.N(3); r > 0; r-- {
					at := g.N(len(m.Lines) + 1)
					m.Lines = append(m.Lines[:at:at], append([]*gen.Line{g.Line(k, 1)}, m.Lines[at:]...)...)
				}
			}
			if m.CLAt >= 0 {
				m.CLAt = g.N(len(m.Lines) + 1)
			}
			if check(c, m, m.Wire()) {
				c.Count("messages with repeated single headers", 1)
			}
		},
		"unknown": func(c *mon.C, data []byte) { // repeated unknown headers, in any letter case
			g := gen.New(c.RNG())
			m := g.Msg(gen.MsgOpt{Extra: 2})
			var names []string
			for i := 0; i < 3; i++ {
				names = append(names, m.ExtName(g, names...))
			}
			for n := 2 + g.N(8); n > 0; n-- {
				at := g.N(len(m.Lines) + 1)
				m.Lines = append(m.Lines[:at:at], append([]*gen.Line{g.Line(gen.ExtKind(names[g.N(3)]), 1)}, m.Lines[at:]...)...)
			}
			if m.CLAt >= 0 {
				m.CLAt = g.N(len(m.Lines) + 1)
			}
			if check(c, m, m.Wire()) {
				c.Count("messages with unknown headers", 1)
			}
		},
	}
	hs["long"] = func(c *mon.C, data []byte) { // hundreds of lines, then thousands
		g := gen.New(c.RNG())
		m := g.Msg(gen.MsgOpt{Extra: 2})
		n := 200 + g.N(400)
		if g.P(8) {
			n = 1000 + g.N(2000)
		}
		var ks []*gen.Kind
		for i := 0; i < 3; i++ {
			ks = append(ks, lists[g.N(len(lists))])
		}
		ks = append(ks, gen.ExtKind(m.ExtName(g)))
		for ; n > 0; n-- {
			m.Lines = append(m.Lines, g.Line(ks[g.N(len(ks))], 1))
		}
		if m.CLAt >= 0 {
			m.CLAt = g.N(len(m.Lines) + 1)
		}
		if check(c, m, m.Wire()) {
			c.Count("messages of hundreds of lines", 1)
		}
	}
	var min []string
	for _, k := range lists {
		k := k
		min = append(min, "list "+k.Name)
		hs["list:"+k.Name] = func(c *mon.C, data []byte) {
			g := gen.New(c.RNG())
			m := g.Msg(gen.MsgOpt{Extra: 1})
			n := 2 + g.N(6)
			if g.P(20) {
				n = 20 + g.N(60)
			}
			for ; n > 0; n-- {
				at := g.N(len(m.Lines) + 1)
				m.Lines = append(m.Lines[:at:at], append([]*gen.Line{g.Line(k, 3)}, m.Lines[at:]...)...)
			}
			if m.CLAt >= 0 {
				m.CLAt = g.N(len(m.Lines) + 1)
			}
			both(c, g, m)
			c.Count("list "+k.Name, 1)
			if c.WantSample() {
				c.Sample("%s", strings.ReplaceAll(fmt.Sprintf("%q", m.Wire()), `\r\n`, "|"))
			}
		}
	}
	mon.Register(&mon.Prop{
		ID:       "S07",
		Quick:    2,
		Rule:     "a case is one generated message in which headers repeat, written in three arrangements of the same lists (comma separated, one line per value, interleaved with other headers); it counts when the lists, the first elements and the encoding of each were compared with the model; distinct cases are distinct wire texts",
		Handlers: hs,
		Plan: func(p *mon.Plan) {
			for _, k := range lists {
				p.Seeds("list:"+k.Name, p.N(1200, 40000))
			}
			p.Seeds("long", p.N(160, 4000))
			p.Seeds("mixed", p.N(15000, 500000))
			p.Seeds("single", p.N(12000, 400000))
			p.Seeds("unknown", p.N(12000, 400000))
		},
		MinEvents: append(min, "arrangements", "messages of hundreds of lines", "mixed messages", "messages with repeated single headers", "messages with unknown headers"),
	})
}
