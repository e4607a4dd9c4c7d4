package props

import (
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/parser"
)

// route is the pair of constructors of one kind of header parser.
type route struct {
	text  func(string) parser.Parser
	lexer func(core.Lexer) parser.Parser
}

func mk[P parser.Parser](t func(string) P, l func(core.Lexer) P) route {
	return route{func(s string) parser.Parser { return t(s) }, func(x core.Lexer) parser.Parser { return l(x) }}
}

var routes = map[string]route{
	"Accept":              mk(parser.NewAcceptParser, parser.NewAcceptParserFromLexer),
	"Accept-Encoding":     mk(parser.NewAcceptEncodingParser, parser.NewAcceptEncodingParserFromLexer),
	"Accept-Language":     mk(parser.NewAcceptLanguageParser, parser.NewAcceptLanguageParserFromLexer),
	"Alert-Info":          mk(parser.NewAlertInfoParser, parser.NewAlertInfoParserFromLexer),
	"Allow":               mk(parser.NewAllowParser, parser.NewAllowParserFromLexer),
	"Allow-Events":        mk(parser.NewAllowEventsParser, parser.NewAllowEventsParserFromLexer),
	"Authentication-Info": mk(parser.NewAuthenticationInfoParser, parser.NewAuthenticationInfoParserFromLexer),
	"Authorization":       mk(parser.NewAuthorizationParser, parser.NewAuthorizationParserFromLexer),
	"CSeq":                mk(parser.NewCSeqParser, parser.NewCSeqParserFromLexer),
	"Call-ID":             mk(parser.NewCallIDParser, parser.NewCallIDParserFromLexer),
	"Call-Info":           mk(parser.NewCallInfoParser, parser.NewCallInfoParserFromLexer),
	"Contact":             mk(parser.NewContactParser, parser.NewContactParserFromLexer),
	"Content-Disposition": mk(parser.NewContentDispositionParser, parser.NewContentDispositionParserFromLexer),
	"Content-Encoding":    mk(parser.NewContentEncodingParser, parser.NewContentEncodingParserFromLexer),
	"Content-Language":    mk(parser.NewContentLanguageParser, parser.NewContentLanguageParserFromLexer),
	"Content-Length":      mk(parser.NewContentLengthParser, parser.NewContentLengthParserFromLexer),
	"Content-Type":        mk(parser.NewContentTypeParser, parser.NewContentTypeParserFromLexer),
	"Date":                mk(parser.NewDateParser, parser.NewDateParserFromLexer),
	"Error-Info":          mk(parser.NewErrorInfoParser, parser.NewErrorInfoParserFromLexer),
	"Event":               mk(parser.NewEventParser, parser.NewEventParserFromLexer),
	"Expires":             mk(parser.NewExpiresParser, parser.NewExpiresParserFromLexer),
	"From":                mk(parser.NewFromParser, parser.NewFromParserFromLexer),
	"In-Reply-To":         mk(parser.NewInReplyToParser, parser.NewInReplyToParserFromLexer),
	"MIME-Version":        mk(parser.NewMimeVersionParser, parser.NewMimeVersionParserFromLexer),
	"Max-Forwards":        mk(parser.NewMaxForwardsParser, parser.NewMaxForwardsParserFromLexer),
	"Min-Expires":         mk(parser.NewMinExpiresParser, parser.NewMinExpiresParserFromLexer),
	"Organization":        mk(parser.NewOrganizationParser, parser.NewOrganizationParserFromLexer),
	"Priority":            mk(parser.NewPriorityParser, parser.NewPriorityParserFromLexer),
	"Proxy-Authenticate":  mk(parser.NewProxyAuthenticateParser, parser.NewProxyAuthenticateParserFromLexer),
	"Proxy-Authorization": mk(parser.NewProxyAuthorizationParser, parser.NewProxyAuthorizationParserFromLexer),
	"Proxy-Require":       mk(parser.NewProxyRequireParser, parser.NewProxyRequireParserFromLexer),
	"RAck":                mk(parser.NewRAckParser, parser.NewRAckParserFromLexer),
	"RSeq":                mk(parser.NewRSeqParser, parser.NewRSeqParserFromLexer),
	"Reason":              mk(parser.NewReasonParser, parser.NewReasonParserFromLexer),
	"Record-Route":        mk(parser.NewRecordRouteParser, parser.NewRecordRouteParserFromLexer),
	"Refer-To":            mk(parser.NewReferToParser, parser.NewReferToParserFromLexer),
	"Reply-To":            mk(parser.NewReplyToParser, parser.NewReplyToParserFromLexer),
	"Require":             mk(parser.NewRequireParser, parser.NewRequireParserFromLexer),
	"Retry-After":         mk(parser.NewRetryAfterParser, parser.NewRetryAfterParserFromLexer),
	"Route":               mk(parser.NewRouteParser, parser.NewRouteParserFromLexer),
	"Server":              mk(parser.NewServerParser, parser.NewServerParserFromLexer),
	"Subject":             mk(parser.NewSubjectParser, parser.NewSubjectParserFromLexer),
	"Subscription-State":  mk(parser.NewSubscriptionStateParser, parser.NewSubscriptionStateParserFromLexer),
	"Supported":           mk(parser.NewSupportedParser, parser.NewSupportedParserFromLexer),
	"Timestamp":           mk(parser.NewTimeStampParser, parser.NewTimeStampParserFromLexer),
	"To":                  mk(parser.NewToParser, parser.NewToParserFromLexer),
	"Unsupported":         mk(parser.NewUnsupportedParser, parser.NewUnsupportedParserFromLexer),
	"User-Agent":          mk(parser.NewUserAgentParser, parser.NewUserAgentParserFromLexer),
	"Via":                 mk(parser.NewViaParser, parser.NewViaParserFromLexer),
	"WWW-Authenticate":    mk(parser.NewWWWAuthenticateParser, parser.NewWWWAuthenticateParserFromLexer),
	"Warning":             mk(parser.NewWarningParser, parser.NewWarningParserFromLexer),
	"":                    mk(parser.NewHeaderParser, parser.NewHeaderParserFromLexer),
}

// sameResult hides error texts: they are not part of the result.
func sameResult(s string) string {
	if strings.HasPrefix(s, "error: ") {
		return "error"
	}
	return s
}

func init() {
	// same: the line, whose kind is known, gives the same header by every route.
	same := func(c *mon.C, kind, line string, wellFormed bool) {
		r, ok := routes[kind]
		if !ok {
			c.Failf("harness", "no constructors for %q", kind)
			return
		}
		res := func(what string, f func() (header.Header, error)) string {
			out := ""
			c.Guard(what, func() {
				h, err := f()
				if err != nil && h != nil {
					c.Failf("both", "%s: both a header and the error %v\n%q", what, err, line)
				}
				out = sumHeader(h, err)
			})
			return out
		}
		name := kind
		if name == "" {
			name = "Header"
		}
		want := res("CreateParser", func() (header.Header, error) { return parseLine(line) })
		if c.Failed() {
			return
		}
		if wellFormed && strings.HasPrefix(want, "error: ") {
			c.Failf("rejected:"+name, "a well-formed line was rejected: %s\n%q", want, line)
			return
		}
		got := []string{
			res("New"+name+"Parser", func() (header.Header, error) { return r.text(line + "\n").Parse() }),
			res("New"+name+"ParserFromLexer", func() (header.Header, error) {
				return r.lexer(parser.NewSIPLexer("command_keywordLexer", line+"\n")).Parse()
			}),
			res("New"+name+"ParserFromLexer (char lexer)", func() (header.Header, error) {
				return r.lexer(parser.NewSIPLexer("charLexer", line+"\n")).Parse()
			}),
			res("ParseSIPHeader", func() (header.Header, error) { return parser.NewStringMsgParser().ParseSIPHeader(line) }),
		}
		if c.Failed() {
			return
		}
		i := strings.Index(line, ":")
		empty := i >= 0 && strings.TrimSpace(line[i+1:]) == "" // refused before any parser is chosen
		if n := strings.TrimSpace(line[:max(i, 0)]); n != "" && kind != "" && !strings.EqualFold(n, kind) && !wellFormed {
			return // another kind
		}
		// ParseSIPHeader trims the line first
		if t := strings.Trim(line, " \t\r\n"); t != line {
			got = got[:3]
		}
		for n, g := range got {
			if g == "nothing" {
				c.Failf("nothing:"+name, "neither a header nor an error (route %d)\n%q", n, line)
				return
			}
			if !empty && sameResult(g) != sameResult(want) {
				c.Failf("differs:"+name, "route %d gives\n%s\nthe message parser's gives\n%s\n%q", n, g, want, line)
				return
			}
			c.Count("routes compared", 1)
		}
		c.Key(line)
		if strings.HasPrefix(want, "error: ") {
			c.Count("rejected", 1)
		} else {
			c.Count("header "+name, 1)
		}
		if c.WantSample() {
			c.Sample("%q", line)
		}
	}
	hs := map[string]mon.Handler{}
	var names []string
	for _, k := range gen.Kinds {
		k := k
		names = append(names, "header "+k.Name)
		hs["good:"+k.Name] = func(c *mon.C, data []byte) {
			g := gen.New(c.RNG())
			same(c, k.Name, g.Line(k, 3).Plain(), true)
		}
		hs["bad:"+k.Name] = func(c *mon.C, data []byte) {
			g := gen.New(c.RNG())
			v := string(g.Noise(40))
			if !g.P(4) {
				v = string(g.Mutate([]byte(gen.Plain(g.Line(k, 2).BodyT()))))
			}
			v = strings.NewReplacer("\r", "", "\n", "").Replace(v)
			n := k.Name + ": "
			if g.P(10) { // a name that is not complete
				n = g.Pick("", k.Name, k.Name+" ", ": ", ":", " : ")
			}
			same(c, k.Name, n+v, false)
		}
	}
	// blank: blanks before the name are the same to every route of one kind.
	hs["blank"] = func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		k := gen.Kinds[g.N(len(gen.Kinds))]
		line := g.Pick(" ", "\t", "  ", "\n", "\r\n", " \t ") + g.Line(k, 2).Plain() + "\n"
		r := routes[k.Name]
		var res [3]string
		for n, f := range []func() parser.Parser{
			func() parser.Parser { return r.text(line) },
			func() parser.Parser { return r.lexer(parser.NewSIPLexer("command_keywordLexer", line)) },
			func() parser.Parser { return r.lexer(parser.NewSIPLexer("charLexer", line)) },
		} {
			n, f := n, f
			if !c.Guard("New"+k.Name+"Parser on a line with blanks before it", func() {
				h, err := f().Parse()
				res[n] = sameResult(sumHeader(h, err))
				if h == nil && err == nil {
					c.Failf("nothing:"+k.Name, "neither a header nor an error\n%q", line)
				}
			}) {
				return
			}
			if res[n] != res[0] {
				c.Failf("differs:"+k.Name, "blanks before the name: route %d gives\n%s\nthe route from a text\n%s\n%q", n, res[n], res[0], line)
				return
			}
		}
		c.Count("lines after blanks", 1)
		c.Key(k.Name + line)
	}
	// cut: a line that ends before its line end gives a header or an error, never both or neither.
	hs["cut"] = func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		k := gen.Kinds[g.N(len(gen.Kinds))]
		line := g.Line(k, 2).Plain()
		if g.P(2) {
			line = line[:g.N(len(line)+1)]
		}
		r := routes[k.Name]
		c.Guard("New"+k.Name+"Parser on a line without its end", func() {
			h, err := r.text(line).Parse()
			if h == nil && err == nil {
				c.Failf("nothing:"+k.Name, "neither a header nor an error\n%q", line)
			} else if h != nil && err != nil {
				c.Failf("both", "both a header and the error %v\n%q", err, line)
			}
		})
		c.Count("cut lines", 1)
		c.Key(k.Name + line)
	}
	hs["good:"] = func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		same(c, "", g.Line(gen.ExtKind(g.ExtName()), 1).Plain(), true)
	}
	// the parsers of the other parts: text and lexer give the same
	hs["part"] = func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		w := 3 + g.N(len(entryNames)-3)
		in := entryText(g, w)
		if g.P(3) {
			in = strings.NewReplacer("\r", "", "\n", "").Replace(string(g.Mutate([]byte(in))))
		}
		if g.P(12) { // something before it
			in = g.Pick("\n", "\n\n", " ", "\t", "\r\n", "\x00", "  ", "\n ") + in
		}
		two := func(a, b func() string) {
			var x, y string
			if !c.Guard(entryNames[w]+" from text", func() { x = a() }) || !c.Guard(entryNames[w]+" from lexer", func() { y = b() }) {
				return
			}
			if sameResult(x) != sameResult(y) {
				c.Failf("differs:"+entryNames[w], "%s: from a text\n%s\nfrom a lexer\n%s\n%q", entryNames[w], x, y, in)
				return
			}
			c.Count("part "+entryNames[w], 1)
			c.Key(entryNames[w] + in)
		}
		// pos shows how far the parser read.
		pos := func(s string, l core.Lexer) string { return fmt.Sprintf("%s\nrest %q", s, l.GetRest()) }
		switch w {
		case 3, 4:
			p := parser.NewURLParser(in)
			l := parser.NewSIPLexer("sip_urlLexer", in)
			q := parser.NewURLParserFromLexer(l)
			two(func() string { return pos(sumURI(p.Parse()), p.GetLexer()) }, func() string { return pos(sumURI(q.Parse()), l) })
		case 5:
			p := parser.NewAddressParser(in)
			l := parser.NewSIPLexer("charLexer", in)
			q := parser.NewAddressParserFromLexer(l)
			two(func() string { return pos(sumAddr(p.Address()), p.GetLexer()) }, func() string { return pos(sumAddr(q.Address()), l) })
		case 6, 7:
			p := core.NewHostNameParser(in)
			l := parser.NewSIPLexer("charLexer", in)
			q := core.NewHostNameParserFromLexer(l)
			f := func(p *core.HostNameParser) string {
				h, err := p.GetHostPort()
				if err != nil {
					return "error: " + err.Error()
				}
				return fmt.Sprintf("%s port=%d has=%v", obsHost(h.GetHost()), h.GetPort(), h.HasPort())
			}
			two(func() string { return pos(f(p), p.GetLexer()) }, func() string { return pos(f(q), l) })
		case 9:
			l := parser.NewSIPLexer("method_keywordLexer", in+"\n")
			f := func(p *parser.RequestLineParser) string {
				l, err := p.Parse()
				if err != nil {
					return "error: " + err.Error()
				}
				return l.GetMethod() + " " + l.GetSipVersion() + "\n" + sumURI(l.GetUri(), nil) + "\n" + l.String()
			}
			two(func() string { return f(parser.NewRequestLineParser(in + "\n")) }, func() string { return f(parser.NewRequestLineParserFromLexer(l)) })
		case 10:
			l := parser.NewSIPLexer("status_lineLexer", in+"\n")
			f := func(p *parser.StatusLineParser) string {
				l, err := p.Parse()
				if err != nil {
					return "error: " + err.Error()
				}
				return fmt.Sprintf("%s %d %q %s", l.GetSipVersion(), l.GetStatusCode(), l.GetReasonPhrase(), l.String())
			}
			two(func() string { return f(parser.NewStatusLineParser(in + "\n")) }, func() string { return f(parser.NewStatusLineParserFromLexer(l)) })
		}
	}
	for _, w := range []int{3, 4, 5, 6, 7, 9, 10} {
		names = append(names, "part "+entryNames[w])
	}
	mon.Register(&mon.Prop{
		ID:       "S33",
		Quick:    3,
		Rule:     "a case is one header line (well-formed or damaged) of one kind given to the parser the message parser chooses, to both constructors of that kind's own parser and to ParseSIPHeader, or one URI, address, host, request or status line given to the parser made from a text and to the one made from a lexer; it counts when all results (everything the accessors report, the encoding, or that it is an error) were compared; distinct cases are distinct inputs",
		Handlers: hs,
		Plan: func(p *mon.Plan) {
			for _, k := range gen.Kinds {
				p.Seeds("good:"+k.Name, p.N(1500, 60000))
				p.Seeds("bad:"+k.Name, p.N(1500, 80000))
			}
			p.Seeds("good:", p.N(1500, 60000))
			p.Seeds("blank", p.N(10000, 300000))
			p.Seeds("cut", p.N(40000, 1500000))
			p.Seeds("part", p.N(60000, 2500000))
		},
		MinEvents: append(names, "rejected", "routes compared", "cut lines", "lines after blanks", "header Header"),
	})
}
