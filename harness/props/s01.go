package props

import (
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
)

// exercise reads everything of an accepted message.
func exercise(c *mon.C, x message.Message) {
	c.Guard("encode", func() { _ = x.String() })
	c.Guard("encode bytes", func() { _ = x.(interface{ EncodeAsBytes() []byte }).EncodeAsBytes() })
	c.Guard("observe", func() { gen.ObserveMsg(x) })
	switch t := x.(type) {
	case *message.SIPRequest:
		c.Guard("ids", func() {
			t.GetTransactionId()
			t.GetDialogId(true)
			t.GetDialogId(false)
			t.GetMessageAsEncodedStrings()
			t.CheckHeaders()
		})
	case *message.SIPResponse:
		c.Guard("ids", func() {
			t.GetTransactionId()
			t.GetDialogId(true)
			t.GetDialogId(false)
			t.GetMessageAsEncodedStrings()
			t.CheckHeaders()
		})
	}
}

func init() {
	try := func(c *mon.C, in []byte) {
		accepted := false
		for mode := 0; mode < 2; mode++ {
			p := parser.NewStringMsgParser()
			if mode == 1 {
				p.SetParseExceptionListener(&swallow{})
			}
			var x message.Message
			var err error
			if !c.Guard("parse", func() { x, err = p.ParseSIPMessageFromByte(append([]byte(nil), in...)) }) {
				return
			}
			blank := strings.Trim(string(in), "\r\n") == ""
			switch {
			case err != nil && x != nil:
				c.Failf("both", "both a message and the error %v\n%q", err, clip(in))
			case err == nil && x == nil && !blank:
				c.Failf("neither", "neither a message nor an error\n%q", clip(in))
			case x != nil:
				accepted = true
				exercise(c, x)
			}
			if c.Failed() {
				return
			}
		}
		var y message.Message
		var err error
		if c.Guard("parse text", func() { y, err = parser.NewStringMsgParser().ParseSIPMessage(string(in)) }) && err != nil && y != nil {
			c.Failf("both", "both a message and the error %v\n%q", err, clip(in))
		}
		c.Key(string(in))
		if accepted {
			c.Count("accepted", 1)
		} else {
			c.Count("rejected", 1)
		}
		if c.WantSample() {
			c.Sample("%q", clip(in))
		}
	}
	mon.Register(&mon.Prop{
		ID:   "S01",
		Rule: "a case is one byte sequence: noise, a damaged well-formed message, or a literal; parsed as bytes, as text and with an error handler, and every accepted message encoded and read; distinct cases are distinct inputs",
		Handlers: map[string]mon.Handler{
			"hostile": func(c *mon.C, data []byte) { try(c, gen.New(c.RNG()).Hostile()) },
			"literal": try,
			"prefixes": func(c *mon.C, data []byte) { // every prefix, and every single byte removed
				g := gen.New(c.RNG())
				w := g.Msg(gen.MsgOpt{Extra: 3}).Wire()
				if len(w) > 1500 {
					w = w[:1500]
				}
				for i := 0; i <= len(w) && !c.Failed(); i++ {
					try(c, w[:i])
				}
				for i := 0; i < len(w) && !c.Failed(); i++ {
					try(c, append(append([]byte(nil), w[:i]...), w[i+1:]...))
				}
				c.Count("messages cut everywhere", 1)
			},
			"deep": func(c *mon.C, data []byte) { // long and deeply nested input ends promptly
				g := gen.New(c.RNG())
				n := 1000 << g.N(7)
				unit := g.Pick("(", "\"", "\\", "<", "[", ",", ";", "=", "a,", "<sip:a@b>,", ";a=b", " ", "\r\n ", "\r\n", "\n", "%", "a", "@", ":", "&a=b", "?", "/", "X: y\r\n", "Via: SIP/2.0/UDP a\r\n", "\t")
				k := gen.Kinds[g.N(len(gen.Kinds))]
				if g.P(6) {
					k = gen.ExtKind("X-Y")
				}
				v := gen.Plain(g.Line(k, 1).BodyT())
				i := g.N(len(v) + 1)
				line := k.Name + ": " + v[:i] + strings.Repeat(unit, n) + v[i:]
				try(c, minimal(line+"\r\n"))
				c.Count("long inputs", 1)
			},
		},
		Plan: func(p *mon.Plan) {
			for _, s := range hostileLiterals {
				p.Case("literal", []byte(s))
			}
			p.Seeds("hostile", p.N(120000, 6000000))
			p.Seeds("prefixes", p.N(60, 2500))
			p.Seeds("deep", p.N(600, 20000))
		},
		MinEvents: []string{"accepted", "rejected", "messages cut everywhere", "long inputs"},
	})

	line := func(c *mon.C, in []byte) {
		// as the message parser hands it over: one line, ended by a line feed
		s := strings.NewReplacer("\r", "", "\n", "").Replace(string(in))
		var h header.Header
		var err error
		check := func(what string) {
			switch {
			case err != nil && h != nil:
				c.Failf("both", "%s: both a header and the error %v\n%q", what, err, clip(in))
			case err == nil && h == nil:
				c.Failf("neither", "%s: neither a header nor an error\n%q", what, clip(in))
			case h != nil:
				c.Guard("encode", func() { _ = h.String() })
				c.Guard("observe", func() { gen.Observe(h) })
			}
		}
		if !c.Guard("parse", func() { h, err = parseLine(s) }) {
			return
		}
		check("parser")
		if err == nil {
			c.Count("accepted", 1)
		} else {
			c.Count("rejected", 1)
		}
		h, err = nil, nil
		if !c.Guard("ParseSIPHeader", func() { h, err = parser.NewStringMsgParser().ParseSIPHeader(string(in)) }) {
			return
		}
		check("ParseSIPHeader")
		c.Key(string(in))
		if c.WantSample() {
			c.Sample("%q", clip(in))
		}
	}
	hs := map[string]mon.Handler{
		"hostile": func(c *mon.C, data []byte) { line(c, gen.New(c.RNG()).HostileLine()) },
		"literal": line,
		"values": func(c *mon.C, data []byte) { // one arbitrary value under every header name
			g := gen.New(c.RNG())
			v := string(g.Noise(40))
			if g.P(2) {
				v = string(g.Mutate([]byte(gen.Plain(g.AnyLine(2).BodyT()))))
			}
			for _, k := range gen.Kinds {
				line(c, []byte(k.Name+": "+v))
				if k.Compact != "" {
					line(c, []byte(k.Compact+":"+v))
				}
				if c.Failed() {
					return
				}
			}
			c.Count("values under every name", 1)
		},
	}
	var names []string
	for _, k := range gen.Kinds {
		k := k
		names = append(names, "cut "+k.Name)
		hs["cut:"+k.Name] = func(c *mon.C, data []byte) { // every prefix, deletion and insertion
			g := gen.New(c.RNG())
			l := g.Line(k, 2).Plain()
			if len(l) > 300 {
				l = l[:300]
			}
			ins := g.Pick(",", ";", "\"", "<", ">", "=", "(", ")", "\\", " ", ":", "@", "\x00", "%", "/", "*", "?", "[", "é")
			for i := len(k.Name); i <= len(l) && !c.Failed(); i++ {
				line(c, []byte(l[:i]))
				line(c, []byte(l[:i]+ins+l[i:]))
				if i < len(l) {
					line(c, []byte(l[:i]+l[i+1:]))
				}
			}
			c.Count("cut "+k.Name, 1)
		}
	}
	mon.Register(&mon.Prop{
		ID:       "S02",
		Quick:    1.5,
		Rule:     "a case is one header line: noise, a damaged well-formed value, an arbitrary value under every header name, or every prefix, deletion and insertion of a well-formed line; accepted headers are encoded and read through every accessor; distinct cases are distinct lines",
		Handlers: hs,
		Plan: func(p *mon.Plan) {
			for _, k := range gen.Kinds {
				for _, v := range hostileValues {
					p.Case("literal", []byte(k.Name+":"+v))
				}
				p.Seeds("cut:"+k.Name, p.N(25, 1000))
			}
			p.Seeds("hostile", p.N(250000, 12000000))
			p.Seeds("values", p.N(1500, 60000))
		},
		MinEvents: append(names, "accepted", "rejected", "values under every name"),
	})

	entry := func(c *mon.C, w int, in []byte) {
		out := ""
		if !c.Guard(entryNames[w], func() { out = callEntry(parser.NewStringMsgParser(), w, append([]byte(nil), in...)) }) {
			return
		}
		if out == "nothing" {
			c.Failf("neither:"+entryNames[w], "%s: neither a value nor an error\n%q", entryNames[w], clip(in))
			return
		}
		c.Key(entryNames[w] + string(in))
		c.Count(entryNames[w], 1)
		if strings.HasPrefix(out, "error: ") {
			c.Count("rejected", 1)
		} else {
			c.Count("accepted", 1)
		}
	}
	h3 := map[string]mon.Handler{}
	var ev []string
	for w := 3; w < len(entryNames); w++ {
		w := w
		n := entryNames[w]
		ev = append(ev, n)
		h3["literal:"+n] = func(c *mon.C, data []byte) { entry(c, w, data) }
		h3["hostile:"+n] = func(c *mon.C, data []byte) {
			g := gen.New(c.RNG())
			var in []byte
			switch g.N(6) {
			case 0:
				in = g.Noise(40)
			case 1: // the text of another kind
				in = []byte(entryText(g, 3+g.N(len(entryNames)-3)))
			default:
				in = g.Mutate([]byte(entryText(g, w)))
			}
			entry(c, w, in)
		}
		h3["cut:"+n] = func(c *mon.C, data []byte) {
			g := gen.New(c.RNG())
			t := entryText(g, w)
			ins := g.Pick(",", ";", "\"", "<", ">", "=", "(", ")", "\\", " ", ":", "@", "\x00", "%", "/", "*", "?", "[", "]", "é")
			for i := 0; i <= len(t) && !c.Failed(); i++ {
				entry(c, w, []byte(t[:i]))
				entry(c, w, []byte(t[i:]))
				entry(c, w, []byte(t[:i]+ins+t[i:]))
				if i < len(t) {
					entry(c, w, []byte(t[:i]+t[i+1:]))
				}
			}
		}
	}
	mon.Register(&mon.Prop{
		ID:       "S03",
		Quick:    6,
		Rule:     "a case is one text given to one of the entry points for URIs, SIP URLs, addresses, hosts, host:port, telephone numbers, request and status lines; returned values are read through every accessor and encoded; distinct cases are distinct inputs",
		Handlers: h3,
		Plan: func(p *mon.Plan) {
			for w := 3; w < len(entryNames); w++ {
				n := entryNames[w]
				for _, v := range hostileValues {
					p.Case("literal:"+n, []byte(v))
				}
				p.Seeds("hostile:"+n, p.N(50000, 2500000))
				p.Seeds("cut:"+n, p.N(400, 15000))
			}
		},
		MinEvents: append(ev, "accepted", "rejected"),
	})
}

var hostileLiterals = []string{
	"", "\n", "\r\n", "\r\r\r", "\n\n\n\n", " ", "\t\r\n", "\x00", "a", "a\n", "a\n\n", "\r\na\r\n\r\n", ":\r\n\r\n", " \r\n\r\n", "\r\n \r\n\r\n",
	"INVITE\r\n\r\n", "INVITE \r\n\r\n", "INVITE sip:\r\n\r\n", "INVITE sip:a SIP/2.0", "INVITE sip:a SIP/2.0\r\n", "INVITE sip:a SIP/2.0\r\n\r\n", "INVITE sip:a SIP/2.0\n\n", "INVITE sip:a SIP/2.0\r\n:\r\n\r\n",
	"INVITE sip:a SIP/2.0\r\n \r\n\r\n", "INVITE sip:a SIP/2.0\r\n folded\r\n\r\n", "SIP/2.0", "SIP/2.0\r\n\r\n", "SIP/2.0 \r\n\r\n", "SIP/2.0 200\r\n\r\n", "SIP/2.0 200 \r\n\r\n", "SIP/2.0 x\r\n\r\n", "SIP/2.0 200 OK\r\n\r\n",
	"SIP/2.0 200 OK\r\nContent-Length: 4294967296\r\n\r\n", "SIP/2.0 200 OK\r\nContent-Length: -1\r\n\r\nabc", "SIP/2.0 200 OK\r\nContent-Length: 9223372036854775807\r\n\r\nabc", "SIP/2.0 200 OK\r\nContent-Length: 2147483647\r\n\r\nabc",
	"SIP/2.0 200 OK\r\nCSeq: 1 INVITE\r\nCSeq: 2 BYE\r\n\r\n", "INVITE sip:a SIP/2.0\r\nCSeq: 1 BYE\r\n\r\n", "INVITE sip:a SIP/2.0\r\nCSeq\r\n\r\n", "INVITE sip:a SIP/2.0\r\nCSeq:\r\n\r\n", "INVITE sip:a SIP/2.0\r\nVia:\r\n\r\n",
	"SIP/2.0 200 OK\r\nVia: SIP/2.0/UDP\r\n\r\n", "SIP/2.0 200 OK\r\n\x00: \x00\r\n\r\n", "SIP/2.0 200 OK\r\nX\r\n\r\n", "SIP/2.0 200 OK\r\n: x\r\n\r\n", "SIP/2.0 200 OK\r\nX:\r\n\r\n", "SIP/2.0 200 OK\r\nX: \r\n\r\n",
	"\xff\xfe\xfd\r\n\r\n", "SIP/2.0 200 \xff\r\n\r\n", "SIP/3.0 200 OK\r\n\r\n", "GET / HTTP/1.1\r\nHost: a\r\n\r\n",
}

var hostileValues = []string{
	"", " ", "\t", ",", ";", "=", ":", "\"", "\"\"", "\"\\", "\"\\\"", "<", ">", "<>", "<<>>", "(", ")", "()", "/", "//", "*", "**", "@", "?", "&", "%", "\\", "[", "]", "[]", "[::", "[::1]", "{", "|", "\x00", "\xff", "é", "-", "-1", "0", "+", ".", "..",
	"1", "256", "2147483648", "99999999999999999999", "1 ", " 1", "1 INVITE", "1.5", "1.", ".5", "a", "a b", "a,b", "a;b", "a;b=", "a;=b", "a;b=c;", "a;b=\"", "a;b=\"c", "a=b", "a/b", "a/", "/b", "a;q=", "a;q=x", "a;q=2", "a;q=-1", "a,", ",a", "a,,b", "a;;b",
	"sip:", "sip:@", "sip:a@", "sip::", "sip:a:", "sip:a:b", "sip:a@b:", "sip:a@b:c", "sip:a@b:99999999", "sip:a@b;", "sip:a@b;=", "sip:a@b;x=", "sip:a@b?", "sip:a@b?x", "sip:a@b?x=", "sip:a@b?x=y&", "sip:[", "sip:[]", "sip:[::1", "sip:a@[::1]:", "<sip:a@b", "sip:a@b>", "<sip:a@b>;", "<sip:a@b>;tag", "<sip:a@b>;tag=", "<sip:a@b>,", "\"x\"<sip:a@b>", "\"x <sip:a@b>", "x <sip:a@b", "tel:", "tel:+", "tel:;", "tel:+1;", "tel:1;x", "tel:1;x=", "tel:a",
	"SIP", "SIP/", "SIP/2.0", "SIP/2.0/", "SIP/2.0/UDP", "SIP/2.0/UDP ", "SIP/2.0/UDP a:", "SIP/2.0/UDP a:x", "SIP/2.0/UDP a;", "SIP/2.0/UDP a;branch", "SIP/2.0/UDP a;branch=", "SIP/2.0/UDP a;ttl=x", "SIP/2.0/UDP a (", "SIP/2.0/UDP a,", "SIP/2.0/UDP [::1",
	"Digest", "Digest ", "Digest a", "Digest a=", "Digest a=b,", "Digest ,", "Digest realm=\"", "Digest realm=\"x", "Digest nc=x", "Mon", "Mon,", "Mon, 01 Jan", "Mon, 01 Jan 2000 00:00:00 GMT", "Xyz, 99 Foo 0 99:99:99 GMT", "300 a \"b\"", "300 a \"b", "300 a", "300", "999 a \"b\"", "x y z", "1 2 INVITE", "1 2", "active;expires=x", "SIP ;cause=x", "(a", "1 (a", "1;duration=x",
}
