package props

import (
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
)

// parseBoth parses a message as text and as bytes, with and without an error
// handler that swallows everything, and requires the same verdict of all.
func parseBoth(c *mon.C, in string, headerErrors bool) (message.Message, error) {
	var x message.Message
	var err error
	for mode := 0; mode < 3; mode++ {
		p := parser.NewStringMsgParser()
		var y message.Message
		var e error
		switch mode {
		case 0:
			y, e = p.ParseSIPMessageFromByte([]byte(in))
		case 1:
			y, e = p.ParseSIPMessage(in)
		case 2:
			if !headerErrors {
				continue
			}
			p.SetParseExceptionListener(&swallow{})
			y, e = p.ParseSIPMessageFromByte([]byte(in))
		}
		if mode == 0 {
			x, err = y, e
		} else if (e == nil) != (err == nil) {
			c.Failf("verdicts differ", "way %d of parsing says %v, the first said %v\n%q", mode, e, err, clip([]byte(in)))
		}
	}
	return x, err
}

const startRest = "\r\nVia: SIP/2.0/UDP h.i;branch=z9hG4bKx\r\nFrom: <sip:f@g.h>;tag=1\r\nTo: <sip:t@g.h>\r\nCall-ID: q@w\r\n"

func init() {
	valid := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		m := g.Msg(gen.MsgOpt{Extra: 3})
		x, err := parseBoth(c, string(m.Wire()), true)
		if err != nil || x == nil {
			c.Failf("rejected", "well-formed message rejected: %v\n%s", err, m.Wire())
			return
		}
		if d := diff(m.WantStart(), gen.ObsStart(x)); d != "" {
			c.Failf("start line", "start line %q reported differently, %s", m.Start(), d)
			return
		}
		if s, _, _ := strings.Cut(x.String(), "\r\n"); s != m.Start() {
			c.Failf("start line encoded", "start line %q is encoded as %q", m.Start(), s)
			return
		}
		switch t := x.(type) {
		case *message.SIPRequest:
			l := t.GetRequestLine()
			if l.GetMethod() != m.Method || l.GetSipVersion() != "SIP/2.0" || l.GetVersionMajor() != "2" || l.GetVersionMinor() != "0" {
				c.Failf("request line", "%q: request line says %q %q %q %q", m.Start(), l.GetMethod(), l.GetSipVersion(), l.GetVersionMajor(), l.GetVersionMinor())
			}
			if s := t.GetFirstLine(); strings.TrimSuffix(s, "\r\n") != m.Start() {
				c.Failf("first line", "%q: first line is %q", m.Start(), s)
			}
		case *message.SIPResponse:
			l := t.GetStatusLine()
			if l.GetStatusCode() != m.Status || l.GetReasonPhrase() != m.Phrase || l.GetSipVersion() != "SIP/2.0" || l.GetVersionMajor() != "2" || l.GetVersionMinor() != "0" {
				c.Failf("status line", "%q: status line says %d %q %q", m.Start(), l.GetStatusCode(), l.GetReasonPhrase(), l.GetSipVersion())
			}
			if s := t.GetFirstLine(); strings.TrimSuffix(s, "\r\n") != m.Start() {
				c.Failf("first line", "%q: first line is %q", m.Start(), s)
			}
		}
		// the start line alone
		p := parser.NewStringMsgParser()
		if m.Req {
			l, err := p.ParseSIPRequestLine(m.Start())
			if err != nil || strings.TrimSuffix(l.String(), "\r\n") != m.Start() || l.GetMethod() != m.Method {
				c.Failf("request line alone", "%q alone gives %v, %v", m.Start(), l, err)
			} else if d := diff(m.U.Want(), gen.ObsURI(l.GetUri())); d != "" {
				c.Failf("request line alone", "%q alone reports another URI, %s", m.Start(), d)
			}
		} else {
			l, err := p.ParseSIPStatusLine(m.Start())
			if err != nil || strings.TrimSuffix(l.String(), "\r\n") != m.Start() || l.GetStatusCode() != m.Status || l.GetReasonPhrase() != m.Phrase {
				c.Failf("status line alone", "%q alone gives %v, %v", m.Start(), l, err)
			}
		}
		c.Key(m.Start())
		c.Count("valid start lines", 1)
		if c.WantSample() {
			c.Sample("%s", m.Start())
		}
	}
	reject := func(c *mon.C, start, why string) {
		in := start + startRest + "CSeq: 1 OPTIONS\r\n\r\n"
		x, err := parseBoth(c, in, false)
		if err == nil {
			c.Failf("accepted:"+why, "a message with a bad start line (%s) is accepted: %q gives %q", why, start, strings.SplitN(x.String(), "\r\n", 2)[0])
			return
		}
		p := parser.NewStringMsgParser()
		if strings.HasPrefix(start, "SIP/2.0") {
			if l, err := p.ParseSIPStatusLine(start); err == nil {
				c.Failf("accepted alone:"+why, "a bad status line (%s) is accepted: %q gives %v", why, start, l)
			}
		} else if l, err := p.ParseSIPRequestLine(start); err == nil {
			c.Failf("accepted alone:"+why, "a bad request line (%s) is accepted: %q gives %v", why, start, l)
		}
		c.Key(start)
		c.Count("rejected: "+why, 1)
	}
	badWhy := []string{"other version", "no version", "no URI", "no method", "more after the version", "bad URI", "version run on", "code not a number", "no code", "code run on", "other version of a response", "signed code"}
	bad := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		m := "OPTIONS"
		u := g.URI(gen.URIOpt{}).Text()
		code, ph := 100+g.N(600), g.Text()
		ver := func() string {
			return g.Pick("sip/2.0", "Sip/2.0", "SIP/1.0", "SIP/2.1", "SIP/3.0", "SIP/0.2", "HTTP/1.1", "HTTP/2.0", "SIPS/2.0", "SIP/20", "SIP 2.0", "SIP/2", "SIP", "2.0", "/2.0", "SIP/2.", "SIP/12.0", "XSIP/2.0", fmt.Sprintf("SIP/%d.%d", 3+g.N(90), g.N(100)), fmt.Sprintf("SIP/2.%d", 1+g.N(9)))
		}
		i := g.N(len(badWhy))
		var s string
		switch i {
		case 0:
			s = m + " " + u + " " + ver()
		case 1:
			s = g.Pick(m+" "+u, m+" "+u+" ")
		case 2:
			s = g.Pick(m+" SIP/2.0", m+"  SIP/2.0", m)
		case 3:
			s = g.Pick(u+" SIP/2.0", " "+u+" SIP/2.0", "@ "+u+" SIP/2.0", "<"+m+"> "+u+" SIP/2.0", m+"( "+u+" SIP/2.0")
		case 4:
			s = m + " " + u + " SIP/2.0" + g.Pick(" x", ".0", "/UDP", "0", " SIP/2.0", "x", ";a", " \"\"", ",")
		case 5:
			s = m + " " + g.Pick("sip:", "sip:a@", "sip:a@h:x", "sip:[::1", ":a", "<"+u+">", "*", "sips:", "sip:a b@h", "\""+u+"\"") + " SIP/2.0"
		case 6:
			s = g.Pick(m+" "+u+">SIP/2.0", m+" \""+u+"SIP/2.0")
		case 7:
			s = "SIP/2.0 " + g.Pick("OK", "abc", "two", "x200", "O00", "/200", "#", "(200)", "\"200\"", g.Word()) + " " + ph
		case 8:
			s = g.Pick("SIP/2.0", "SIP/2.0 ", "SIP/2.0  ", "SIP/2.0 \t")
		case 9:
			s = fmt.Sprintf("SIP/2.0 %d%s %s", code, g.Pick("x", "-", ".0", ",", "/", ":", "OK", "%", "e1"), ph)
		case 10:
			s = fmt.Sprintf("%s %d %s", ver(), code, ph)
		case 11:
			s = fmt.Sprintf("SIP/2.0 %s%d %s", g.Pick("-", "+", "0x", "."), code, ph)
		}
		reject(c, s, badWhy[i])
	}
	// methods that nearly agree
	near := func(g *gen.G, m string) string {
		for {
			o := g.Method()
			switch g.N(7) {
			case 0:
				o = m + g.Chars("ABCDEFGHIJ-.", 1)
			case 1:
				o = m[:len(m)-1]
			case 2:
				b := []byte(m)
				i := g.N(len(b))
				b[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[g.N(26)]
				o = string(b)
			case 3:
				o = g.Chars("ABCDEFGHIJ", 1) + m
			case 4:
				o = m + m
			}
			if o != "" && !strings.EqualFold(o, m) {
				return o
			}
		}
	}
	cseq := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		m := g.Msg(gen.MsgOpt{Req: true, Extra: 5})
		// the same message with the CSeq at any place and the given method
		var rest []*gen.Line
		for _, l := range m.Lines {
			if l.K.Name != "CSeq" {
				rest = append(rest, l)
			}
		}
		i := g.N(len(rest) + 1)
		mk := func(method string) string {
			q := *m
			q.Lines = append(append(append([]*gen.Line(nil), rest[:i]...), gen.CSeqLine(g.Int(0, gen.MaxInt31), method)), rest[i:]...)
			return string(q.Wire())
		}
		good := mk(m.Method)
		if x, err := parseBoth(c, good, true); err != nil || x == nil {
			c.Failf("agreeing rejected", "a request whose CSeq agrees is rejected: %v\n%s", err, good)
			return
		}
		for n := 0; n < 3; n++ {
			o := near(g, m.Method)
			in := mk(o)
			if x, err := parseBoth(c, in, true); err == nil {
				c.Failf("disagreeing accepted", "a %s request with CSeq method %s is accepted\n%s\ngives\n%s", m.Method, o, in, x)
				return
			}
			c.Key(fmt.Sprint(m.Method, o, i))
		}
		c.Count(fmt.Sprintf("CSeq at place %d", min(i, 6)), 1)
		c.Count("disagreeing CSeq", 3)
		// a response may carry any CSeq method
		r := fmt.Sprintf("SIP/2.0 %d x%sCSeq: 1 %s\r\n\r\n", 100+g.N(600), startRest, g.Method())
		if _, err := parseBoth(c, r, true); err != nil {
			c.Failf("response rejected", "a response is rejected: %v\n%s", err, r)
		}
	}
	mon.Register(&mon.Prop{
		ID:    "S13",
		Quick: 3,
		Rule:  "a case is a message with a well-formed start line (values and encoding compared with the model), with a malformed start line of one of 12 kinds, or a request whose CSeq, at any place, agrees or disagrees with the request line; distinct cases are distinct start lines or (method, CSeq method, place) triples",
		Handlers: map[string]mon.Handler{
			"valid": valid, "bad": bad, "cseq": cseq,
			"code": func(c *mon.C, data []byte) { // every status code
				g := gen.New(c.RNG())
				var n int
				fmt.Sscanf(string(data), "%d", &n)
				ph := g.Phrase(n)
				s := fmt.Sprintf("SIP/2.0 %d %s", n, ph)
				x, err := parseBoth(c, s+startRest+"CSeq: 1 OPTIONS\r\n\r\n", true)
				if err != nil {
					c.Failf("code rejected", "%q is rejected: %v", s, err)
					return
				}
				r := x.(*message.SIPResponse)
				if r.GetStatusCode() != n || r.GetReasonPhrase() != ph || !strings.HasPrefix(r.String(), s+"\r\n") {
					c.Failf("code", "%q is reported as %d %q and encoded as %q", s, r.GetStatusCode(), r.GetReasonPhrase(), strings.SplitN(r.String(), "\r\n", 2)[0])
				}
				c.Count("status codes", 1)
			},
			"badline": func(c *mon.C, data []byte) { reject(c, string(data), "literal") },
		},
		Plan: func(p *mon.Plan) {
			for n := 100; n < 700; n++ {
				p.Case("code", []byte(fmt.Sprint(n)))
			}
			for _, s := range []string{"OPTIONS", "OPTIONS ", "OPTIONS sip:a@b", "OPTIONS sip:a@b ", "OPTIONS SIP/2.0", "OPTIONS sip:a@b SIP/1.0", "OPTIONS sip:a@b SIP/2.0 x", "OPTIONS sip:a@b SIP/2.0.1", "OPTIONS sip:a@b SIP/2.00", "OPTIONS sip:a@b SIP/2", "OPTIONS sip:a@b HTTP/1.1", "sip:a@b SIP/2.0", "SIP/2.0", "SIP/2.0 OK", "SIP/2.0 abc OK", "SIP/2.0 20x OK", "SIP/2.0 x20 OK", "SIP/2.0 2.0 OK", "SIP/2.0 -200 OK", "SIP/2.0200 OK", "SIP/2.1 200 OK", "SIP/1.0 200 OK", "SIP/3.0 200 OK", "HTTP/1.1 200 OK", "SIP/2.0x 200 OK", "SIP/2.01 200 OK"} {
				p.Case("badline", []byte(s))
			}
			p.Seeds("valid", p.N(40000, 2000000))
			p.Seeds("bad", p.N(40000, 2000000))
			p.Seeds("cseq", p.N(8000, 400000))
		},
		MinEvents: func() []string {
			o := []string{"valid start lines", "status codes", "disagreeing CSeq", "rejected: literal", "CSeq at place 0", "CSeq at place 6"}
			for _, w := range badWhy {
				o = append(o, "rejected: "+w)
			}
			return o
		}(),
	})
}
