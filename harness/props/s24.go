package props

import (
	"fmt"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/sip/message"
)

type dialoger interface {
	editable
	GetDialogId(isServer bool) string
	GetDialogId2(isServer bool, toTag string) string
}

// dside is one party of a dialog.
type dside struct{ uri, tag string }

// dmsg is a message of a dialog: who sent the request, and whether it is the
// request or a response to it.
func dmsg(g *gen.G, f *flat, fromA, response bool, a, b dside) *flat {
	v := *f
	v.extras(g)
	v.noise(g)
	v.shuffle(g)
	v.method = g.Method()
	v.cseqMethod = v.method
	v.num = g.Int(0, gen.MaxInt31)
	v.branch = g.Pick("z9hG4bK"+g.Token(), g.Token(), "")
	if !fromA {
		a, b = b, a
	}
	v.fromURI, v.fromTag, v.toURI, v.toTag = a.uri, a.tag, b.uri, b.tag
	if response {
		v.status = 100 + g.N(600)
	}
	return &v
}

func init() {
	// at computes the identifier at party A.
	at := func(c *mon.C, x dialoger, fromA bool) string {
		id := x.GetDialogId(!fromA)
		if id == "" {
			c.Failf("empty", "empty dialog identifier\n%s", x.String())
		}
		if again := x.GetDialogId(!fromA); again != id {
			c.Failf("unstable", "dialog identifier %q, then %q\n%s", id, again, x.String())
		}
		if two := x.GetDialogId2(!fromA, x.GetToTag()); two != id {
			c.Failf("given-tag", "dialog identifier %q, with the same To tag given %q\n%s", id, two, x.String())
		}
		return id
	}
	run := func(c *mon.C, g *gen.G) {
		f := newFlat(g)
		a, b := dside{flatURI(g), g.Token()}, dside{flatURI(g), g.Token()}
		if g.P(6) {
			b.uri = a.uri // a call to oneself
		}
		early := g.P(5)
		if early {
			b.tag = ""
		}
		make := func(f *flat, a, b dside, fromA, resp bool) dialoger {
			m := dmsg(g, f, fromA, resp, a, b)
			x := flatMsg(c, g, m)
			if x == nil {
				return nil
			}
			return x.(dialoger)
		}
		first := make(f, a, b, true, false)
		if first == nil {
			return
		}
		id := at(c, first, true)
		if c.Failed() {
			return
		}
		peer := at(c, first, false)
		c.Key(first.String())
		if c.WantSample() {
			c.Sample("%s for %q", id, first.String())
		}
		for i := 0; i < 6; i++ {
			fromA, resp := g.P(2), g.P(2)
			x := make(f, a, b, fromA, resp)
			if x == nil {
				return
			}
			what := fmt.Sprintf("from A %v, response %v", fromA, resp)
			c.Count("pairs of one dialog", 1)
			if got := at(c, x, fromA); got != id {
				c.Failf("same", "messages of one dialog have identifiers %q and %q (%s)\n%s\n%s", id, got, what, first.String(), x.String())
				return
			}
			if got := at(c, x, !fromA); got != peer {
				c.Failf("same-peer", "messages of one dialog have identifiers %q and %q at the other party (%s)\n%s\n%s", peer, got, what, first.String(), x.String())
				return
			}
			if !resp {
				// the response made from it
				r := x.(*message.SIPRequest).CreateResponse(100 + g.N(600))
				if got := at(c, r, fromA); got != id {
					c.Failf("created", "a created response has dialog %q, its request %q\n%s", got, id, r.String())
					return
				}
				t := another("", g.Token)
				r.SetToTag(t)
				// as if the request had carried that tag
				if got, want := at(c, r, fromA), x.GetDialogId2(!fromA, t); got != want {
					c.Failf("set-tag", "To tag set on the response gives dialog %q, given to the request %q\n%s", got, want, r.String())
					return
				}
			}
		}
		for i := 0; i < 5; i++ {
			v, p, q, what := *f, a, b, ""
			switch g.N(6) {
			case 0:
				v.callID = another(f.callID, g.CallID)
				what = "the Call-ID"
			case 1:
				v.callID = near(g, "x"+f.callID[1:])
				v.callID = another(f.callID, func() string { return "z" + g.Word() + "@" + g.Word() })
				what = "the Call-ID"
			case 2:
				p.tag = near(g, a.tag)
				what = "the tag of A"
			case 3:
				p.tag = another(a.tag, g.Token)
				what = "the tag of A"
			case 4:
				if b.tag != "" && g.P(4) {
					q.tag = ""
				} else {
					q.tag = another(b.tag, g.Token)
				}
				what = "the tag of B"
			case 5:
				if b.tag == "" {
					continue
				}
				q.tag = near(g, b.tag)
				what = "the tag of B"
			}
			fromA, resp := g.P(2), g.P(2)
			x := make(&v, p, q, fromA, resp)
			if x == nil {
				return
			}
			c.Count("pairs of different dialogs", 1)
			if got := at(c, x, fromA); got == id {
				c.Failf("differ", "messages that differ in %s have the same dialog %q\n%s\n%s", what, id, first.String(), x.String())
				return
			}
			if got := at(c, x, !fromA); got == peer {
				c.Failf("differ-peer", "messages that differ in %s have the same dialog %q at the other party\n%s\n%s", what, peer, first.String(), x.String())
				return
			}
			// a To tag given instead of the message's
			t := g.Token()
			x2 := make(&v, p, q, fromA, resp)
			if x2 == nil {
				return
			}
			given := x2.GetDialogId2(!fromA, t)
			x2.SetToTag(t)
			if got := at(c, x2, fromA); got != given {
				c.Failf("given", "with To tag %q given the dialog is %q, with it set %q\n%s", t, given, got, x2.String())
				return
			}
			// no To tag given: as the message that has none
			p0, q0 := p, q
			if fromA {
				q0.tag = ""
			} else {
				p0.tag = ""
			}
			if x3 := make(&v, p0, q0, fromA, resp); x3 != nil {
				if got, want := x2.GetDialogId2(!fromA, ""), at(c, x3, fromA); got != want {
					c.Failf("given", "with no To tag given the dialog is %q, without one in the message %q\n%s\n%s", got, want, x2.String(), x3.String())
					return
				}
				if got := x3.GetDialogId2(!fromA, t); got != given {
					c.Failf("given", "with To tag %q given the dialog is %q, for a message without one %q\n%s\n%s", t, given, got, x2.String(), x3.String())
					return
				}
			}
			c.Count("given tags", 1)
		}
		// edits take effect
		v, p, q := *f, a, b
		x := make(f, a, b, true, g.P(2))
		if x == nil {
			return
		}
		for n := 1 + g.N(4); n > 0; n-- {
			what := ""
			switch g.N(7) {
			case 0:
				v.callID = another(v.callID, func() string { return g.Word() + "@" + g.Word() })
				what = "SetCallIdFromString"
				x.SetCallIdFromString(v.callID)
			case 1:
				p.tag = another(p.tag, g.Token)
				what = "SetFromTag"
				x.SetFromTag(p.tag)
			case 2:
				q.tag = another(q.tag, g.Token)
				what = "SetToTag"
				x.SetToTag(q.tag)
			case 3:
				p.tag = another(p.tag, g.Token)
				what = "the tag of the From header"
				x.GetFrom().SetTag(p.tag)
			case 4:
				q.tag = another(q.tag, g.Token)
				what = "the tag of the To header"
				x.GetTo().SetTag(q.tag)
			case 5:
				v.callID = another(v.callID, func() string { return g.Word() + "@" + g.Word() })
				what = "the Call-ID header"
				x.GetCallId().SetCallId(v.callID)
			case 6:
				q.tag = ""
				what = "no To tag"
				x.GetTo().(interface{ RemoveTag() }).RemoveTag()
			}
			y := make(&v, p, q, true, g.P(2))
			if y == nil {
				return
			}
			c.Count("edits", 1)
			c.Count("edit "+what, 1)
			for _, end := range []bool{true, false} {
				if i, j := at(c, x, end), at(c, y, end); i != j {
					c.Failf("edited", "a message edited by %s has dialog %q, the one that says the same %q\n%s\n%s", what, i, j, x.String(), y.String())
					return
				}
			}
			if g.P(2) {
				x = y // on a message just parsed
			}
		}
	}
	mon.Register(&mon.Prop{
		ID:    "S24",
		Quick: 3,
		Rule:  "a case is one generated dialog (Call-ID, two parties with URIs and tags) with messages of it in both directions, requests and responses, that differ in everything else, and messages whose Call-ID or one tag differs; it counts when the identifiers at both parties were compared for all pairs",
		Handlers: map[string]mon.Handler{
			"dialog": func(c *mon.C, data []byte) { run(c, gen.New(c.RNG())) },
		},
		Plan:      func(p *mon.Plan) { p.Seeds("dialog", p.N(8000, 400000)) },
		MinEvents: []string{"pairs of one dialog", "pairs of different dialogs", "given tags", "edits"},
		Assume:    []string{"identifiers of different dialogs are compared for messages that differ in one of Call-ID and the two tags, letter case aside"},
	})
}
