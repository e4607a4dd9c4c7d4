package props

import (
	"encoding/hex"
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
)

func init() {
	lower := func(s string) string { // ASCII letters only
		b := []byte(s)
		for i, c := range b {
			if c >= 'A' && c <= 'Z' {
				b[i] = c + 'a' - 'A'
			}
		}
		return string(b)
	}
	text := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		b := g.Bytes(300)
		if got := message.ToHexString(b); got != hex.EncodeToString(b) {
			c.Failf("hex", "% x in hexadecimal is %q", b, got)
		}
		s := g.Text()
		if g.P(2) {
			s = strings.Join([]string{g.Pick(" ", "\t", ""), g.Text(), g.Text(), ""}, g.Pick(" ", "\t", " \t ", ""))
		}
		if got := message.GetQuotedString(s); got != `"`+s+`"` {
			c.Failf("quoted", "%q in quotes is %q", s, got)
		}
		// letters outside ASCII may be in either case
		want := strings.Map(func(r rune) rune {
			if r == ' ' || r == '\t' {
				return -1
			}
			return r
		}, strings.ToLower(s))
		if got := message.ReduceString(s); got != want {
			c.Failf("reduced", "%q without blanks is %q, expected %q", s, got, want)
		}
		c.Count("texts", 1)
		c.Key(s + string(b))
	}
	events := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		types, ids := []string{g.Token(), g.Token(), "presence"}, []string{"", g.Token(), g.Token()}
		type ev struct {
			t, id string
			h     *header.Event
		}
		var evs []ev
		for k := 2 + g.N(4); k > 0; k-- {
			e := ev{t: types[g.N(3)], id: ids[g.N(3)]}
			if g.P(2) {
				e.t = anyCase(g, e.t)
			}
			if g.P(2) {
				e.id = anyCase(g, e.id)
			}
			if g.P(2) {
				l := "Event: " + e.t
				if g.P(2) {
					l += ";x=" + g.Token()
				}
				if e.id != "" {
					l += ";id=" + e.id
				}
				p, err := parseLine(l)
				if err != nil {
					c.Failf("parse", "%q: %v", l, err)
					return
				}
				e.h = p.(*header.Event)
			} else {
				e.h = header.NewEvent()
				e.h.SetEventType(e.t)
				if e.id != "" {
					e.h.SetEventId(e.id)
				}
			}
			evs = append(evs, e)
		}
		for _, a := range evs {
			for _, b := range evs {
				want := lower(a.t) == lower(b.t) && lower(a.id) == lower(b.id)
				if got := a.h.Match(b.h); got != want {
					c.Failf("event", "%q matches %q: %v, expected %v", a.h, b.h, got, want)
					return
				}
				c.Count(fmt.Sprint("event pairs that match: ", want), 1)
				c.Key(a.h.String() + b.h.String())
			}
			if a.h.Match(nil) {
				c.Failf("event", "%q matches nothing", a.h)
			}
		}
		n := header.NewContentLength()
		n.SetContentLength(g.N(100000))
		if !n.Match(header.NewContentLength()) || n.Match(evs[0].h) || n.Match(nil) {
			c.Failf("content length", "a content length does not match exactly the content lengths")
		}
	}
	tokens := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		v, n := g.Text(), g.Int(-1<<31, 1<<31-1)
		t := core.NewToken(v, n)
		u := t.Clone().(*core.Token)
		show := func(t *core.Token) string { return fmt.Sprintf("%q %d", t.GetTokenValue(), t.GetTokenType()) }
		was := show(u)
		if was != fmt.Sprintf("%q %d", v, n) || show(t) != was {
			c.Failf("token", "a token of %q %d holds %s, its copy %s", v, n, show(t), was)
		}
		v, n = g.Text(), g.Int(-1<<31, 1<<31-1)
		t.SetTokenValue(v)
		t.SetTokenType(n)
		if show(t) != fmt.Sprintf("%q %d", v, n) || show(u) != was {
			c.Failf("token", "after setting %q %d the token holds %s, its copy %s", v, n, show(t), show(u))
		}
		c.Count("tokens", 1)
		c.Key(was)
	}
	mon.Register(&mon.Prop{
		ID:       "S37",
		Quick:    10,
		Rule:     "a case is one text and byte sequence given to the text helpers, a set of event headers matched against each other, or a token and its copy; distinct by their contents",
		Handlers: map[string]mon.Handler{"text": text, "events": events, "tokens": tokens},
		Plan: func(p *mon.Plan) {
			p.Seeds("text", p.N(60000, 2000000))
			p.Seeds("events", p.N(60000, 2000000))
			p.Seeds("tokens", p.N(20000, 400000))
		},
		MinEvents: []string{"texts", "tokens", "event pairs that match: true", "event pairs that match: false"},
	})
}
