package props

import (
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/sip/parser"
)

// parseMsg parses a message with a fresh parser.
func parseMsg(b []byte) (m gen.Message, err error) {
	return parser.NewStringMsgParser().ParseSIPMessageFromByte(b)
}

// checkMsg compares what a parsed message reports and encodes with the model.
func checkMsg(c *mon.C, what string, m *gen.Msg, wire []byte) gen.Message {
	x, err := parseMsg(wire)
	if err != nil || x == nil {
		c.Failf("rejected", "%s: well-formed message rejected: %v\n%q", what, err, wire)
		return nil
	}
	if d := diff(m.Want(), gen.ObserveMsg(x)); d != "" {
		c.Failf("fields", "%s: the parsed message differs, %s\n%q", what, d, wire)
		return nil
	}
	return x
}

func init() {
	headerCase := func(c *mon.C, k *gen.Kind, g *gen.G) {
		l := g.Line(k, 3)
		plain := l.Plain()
		// several spellings of the same line
		for i := 0; i < 3; i++ {
			wire := gen.Spell(l.T(g.NameSpelling(k)), g, false)
			if checkLine(c, l, wire) == "" {
				return
			}
			c.Key(wire)
			c.Count("header "+kindName(k), 1)
			if wire != plain {
				c.Count("spellings other than the plain one", 1)
			}
			if c.WantSample() {
				c.Sample("%q is %q", wire, plain)
			}
		}
		// the same line, as text with a folded continuation, through ParseSIPHeader
		wire := strings.ReplaceAll(gen.Spell(l.T(g.NameSpelling(k)), g, true), "\r\n", "\n")
		h, err := parser.NewStringMsgParser().ParseSIPHeader(wire)
		if err != nil {
			c.Failf("rejected:"+kindName(k), "ParseSIPHeader rejects a well-formed header: %v\n%q", err, wire)
			return
		}
		if d := diff(l.Want(), gen.Observe(h)); d != "" {
			c.Failf("fields:"+kindName(k), "ParseSIPHeader: fields differ, %s\n%q", d, wire)
		} else if e := h.String(); e != l.Canon() {
			c.Failf("encoding:"+kindName(k), "ParseSIPHeader: encoding %q, expected %q\n%q", e, l.Canon(), wire)
		}
		if strings.Contains(wire, "\n") {
			c.Count("folded lines", 1)
		}
	}
	hs := map[string]mon.Handler{}
	var names []string
	for _, k := range gen.Kinds {
		k := k
		names = append(names, "header "+k.Name)
		hs["line:"+k.Name] = func(c *mon.C, data []byte) { headerCase(c, k, gen.New(c.RNG())) }
	}
	hs["line:ext"] = func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		headerCase(c, gen.ExtKind(g.ExtName()), g)
	}
	hs["message"] = func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		m := g.Msg(gen.MsgOpt{Extra: 6, Repeat: g.P(2)})
		plain := m.Wire()
		x := checkMsg(c, "plain spelling", m, plain)
		if x == nil {
			return
		}
		want := x.String()
		for i := 0; i < 3; i++ {
			nl := g.Pick("\r\n", "\r\n", "\n")
			wire := m.Spelled(g, nl)
			y := checkMsg(c, "other spelling", m, wire)
			if y == nil {
				return
			}
			if e := y.String(); e != want {
				c.Failf("encoding", "spellings of one message encode differently:\n%q\n%q\nwire %q", e, want, wire)
				return
			}
			c.Key(string(wire))
			if nl == "\n" {
				c.Count("messages with bare LF", 1)
			}
			if strings.Contains(string(wire), nl+" ") || strings.Contains(string(wire), nl+"\t") {
				c.Count("messages with folded lines", 1)
			}
		}
		c.Count("messages", 1)
	}
	// a line fold of a single blank separates what it divides
	hs["fold1"] = func(c *mon.C, data []byte) {
		a := strings.SplitN(string(data), "|", 2) // folded|plain
		f, p := a[0]+"\r\nX-Next: 1\r\n", a[1]+"\r\nX-Next: 1\r\n"
		m1, e1 := parseMsg(minimal(f))
		m2, e2 := parseMsg(minimal(p))
		if e1 != nil || e2 != nil || m1 == nil || m2 == nil {
			c.Failf("fold-rejected", "folded: %v, plain: %v\n%q", e1, e2, a)
			return
		}
		c.Key(a[0])
		c.Count("fold cases", 1)
		if m1.String() != m2.String() {
			c.Failf("fold", "folded spelling %q gives\n%q\nplain spelling %q gives\n%q", a[0], m1.String(), a[1], m2.String())
		}
	}
	mon.Register(&mon.Prop{
		ID:       "S06",
		Quick:    3,
		Rule:     "a case is one generated header line or message in several random spellings (name case, compact form, white space, folds, CRLF or LF); it counts when every spelling was compared, field by field and as encoded, with the model behind the plain spelling; distinct cases are distinct wire texts",
		Handlers: hs,
		Plan: func(p *mon.Plan) {
			for _, f := range fold1 {
				p.Case("fold1", []byte(f))
			}
			n := p.N(4000, 150000)
			for _, k := range gen.Kinds {
				p.Seeds("line:"+k.Name, n)
			}
			p.Seeds("line:ext", n)
			p.Seeds("message", p.N(15000, 600000))
		},
		MinEvents: append(names, "messages", "messages with bare LF", "messages with folded lines", "folded lines", "fold cases"),
	})
}

// fold1 are folds of a single blank, with the plain spelling of the same.
var fold1 = []string{
	"Subject: one\r\n two|Subject: one two", // listed as a known finding
	"Contact: <sip:a@b.c>,\r\n <sip:d@e.f>|Contact: <sip:a@b.c>, <sip:d@e.f>",
	"Contact: <sip:a@b.c>\r\n ;q=0.5|Contact: <sip:a@b.c>;q=0.5",
	"Contact: <sip:a@b.c>;\r\n\tq=0.5|Contact: <sip:a@b.c>;q=0.5",
	"Route:\r\n <sip:a@b.c>|Route: <sip:a@b.c>",
	"Route:\r\n\t<sip:a@b.c>\r\n\t,\r\n\t<sip:d@e.f>|Route: <sip:a@b.c>,<sip:d@e.f>",
	"Accept: text/plain,\r\n application/sdp|Accept: text/plain, application/sdp",
	"Allow: INVITE,\r\n ACK,\r\n\tBYE|Allow: INVITE, ACK, BYE",
	"Supported: a, \r\n b|Supported: a, b",
	"Event: presence;\r\n id=4|Event: presence;id=4",
	"Expires:\r\n 30|Expires: 30",
	"i-am-unknown: a \r\n b|i-am-unknown: a b",
}

// minimal is a small request with extra header text.
func minimal(extra string) []byte {
	return []byte("OPTIONS sip:a@b.c SIP/2.0\r\nVia: SIP/2.0/UDP h.i;branch=z9hG4bKx\r\nFrom: <sip:f@g.h>;tag=1\r\nTo: <sip:t@g.h>\r\nCall-ID: q@w\r\nCSeq: 7 OPTIONS\r\nMax-Forwards: 70\r\n" + extra + "\r\n")
}
