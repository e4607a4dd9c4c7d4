package props

import (
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/parser"
)

// sameURI checks a parsed URI against the model in every accessor there is.
func sameURI(c *mon.C, how string, u *gen.URI, x address.URI) bool {
	if d := diff(u.Want(), gen.ObsURI(x)); d != "" {
		c.Failf("components", "%s: URI %q reported differently, %s", how, u.Text(), d)
		return false
	}
	if s := x.String(); s != u.Text() {
		c.Failf("encoding", "%s: URI %q is encoded as %q", how, u.Text(), s)
		return false
	}
	if x.GetScheme() != u.Scheme {
		c.Failf("scheme", "%s: URI %q has scheme %q", how, u.Text(), x.GetScheme())
	}
	if x.IsSipURI() != u.IsSIP() {
		c.Failf("kind", "%s: URI %q: IsSipURI says %v", how, u.Text(), x.IsSipURI())
	}
	switch t := x.(type) {
	case *address.SipURIImpl:
		uh := u.Host
		if u.User != "" {
			uh = u.User + "@" + uh
		}
		uhp := uh
		if u.Port >= 0 {
			uhp = fmt.Sprintf("%s:%d", uh, u.Port)
		}
		if t.GetUserAtHost() != uh || t.GetUserAtHostPort() != uhp {
			c.Failf("user at host", "%s: URI %q: user at host %q, with port %q", how, u.Text(), t.GetUserAtHost(), t.GetUserAtHostPort())
		}
		a := t.GetAuthority()
		if a == nil || a.GetUser() != u.User || a.GetPassword() != u.Pass || a.GetHost() == nil || a.GetHost().String() != u.Host || a.GetPort() != u.Port {
			c.Failf("authority", "%s: URI %q: authority %v", how, u.Text(), a)
		}
		has := func(n string) bool {
			for _, p := range u.Params {
				if strings.EqualFold(p.Name, n) {
					return true
				}
			}
			return false
		}
		for _, n := range []string{"transport", "maddr", "ttl", "method", "user", "lr", "no.such"} {
			if t.HasParameter(n) != has(n) || t.HasParameter(strings.ToUpper(n)) != has(n) {
				c.Failf("presence", "%s: URI %q: HasParameter(%s) is %v", how, u.Text(), n, t.HasParameter(n))
			}
		}
		if t.HasTransport() != has("transport") || t.HasLrParam() != has("lr") {
			c.Failf("presence", "%s: URI %q: HasTransport %v HasLrParam %v", how, u.Text(), t.HasTransport(), t.HasLrParam())
		}
		if t.GetHeader("No-Such") != "" || t.GetParameter("no.such") != "" || t.GetParm("no.such") != nil {
			c.Failf("invented", "%s: URI %q has a header or parameter that was not written", how, u.Text())
		}
	case *address.TelURLImpl:
		get := func(n string) string {
			for _, p := range u.Params {
				if strings.EqualFold(p.Name, n) {
					return p.Val
				}
			}
			return ""
		}
		if t.GetIsdnSubAddress() != get("isub") {
			c.Failf("tel parts", "%s: URI %q: isub %q", how, u.Text(), t.GetIsdnSubAddress())
		}
	}
	return !c.Failed()
}

func init() {
	check := func(c *mon.C, u *gen.URI) {
		text := u.Text()
		p := parser.NewStringMsgParser()
		x, err := p.ParseUrl(text)
		if err != nil || x == nil {
			c.Failf("rejected", "legal URI %q rejected: %v", text, err)
			return
		}
		if !sameURI(c, "ParseUrl", u, x) {
			return
		}
		y, err := parser.NewURLParser(x.String()).Parse()
		if err != nil || y == nil {
			c.Failf("reparse", "the encoding %q of URI %q is rejected: %v", x.String(), text, err)
			return
		}
		if !sameURI(c, "URLParser on the encoding", u, y) {
			return
		}
		s, err := p.ParseSIPUrl(text)
		if u.IsSIP() {
			if err != nil || s == nil {
				c.Failf("ParseSIPUrl", "legal SIP URI %q rejected: %v", text, err)
				return
			}
			sameURI(c, "ParseSIPUrl", u, s)
		} else if err == nil || s != nil {
			c.Failf("ParseSIPUrl", "ParseSIPUrl took %q for a SIP URI: %v", text, s)
		}
		// inside a start line and inside brackets
		if l, err := p.ParseSIPRequestLine("OPTIONS " + text + " SIP/2.0"); err != nil {
			c.Failf("request line", "request line with URI %q rejected: %v", text, err)
		} else {
			sameURI(c, "request line", u, l.GetUri())
		}
		if a, err := p.ParseAddress("<" + text + ">"); err != nil {
			c.Failf("address", "address <%s> rejected: %v", text, err)
		} else {
			sameURI(c, "address", u, a.GetURI())
		}
		if c.Failed() {
			return
		}
		c.Key(text)
		c.Count("URIs "+u.Scheme, 1)
		if u.IsSIP() {
			c.Count("parameters", len(u.Params))
			c.Count("embedded headers", len(u.Hdrs))
			if u.Pass != "" {
				c.Count("passwords", 1)
			}
			if strings.Contains(text, "%") {
				c.Count("escapes", 1)
			}
			c.Count("host class "+fmt.Sprint(u.HostType), 1)
			if u.Port >= 0 {
				c.Count("ports", 1)
			}
		}
		if c.WantSample() {
			c.Sample("%s", text)
		}
	}
	mon.Register(&mon.Prop{
		ID:    "S16",
		Quick: 5,
		Rule:  "a case is one generated legal URI; every accessor and the encoding of the URI parsed alone, from its own encoding, in a request line and in an address are compared with the model it was generated from; distinct cases are distinct URIs",
		Handlers: map[string]mon.Handler{
			"any": func(c *mon.C, data []byte) { check(c, gen.New(c.RNG()).URI(gen.URIOpt{})) },
			"sip": func(c *mon.C, data []byte) { check(c, gen.New(c.RNG()).SipURI(gen.URIOpt{})) },
			"tel": func(c *mon.C, data []byte) { check(c, gen.New(c.RNG()).TelURI(gen.URIOpt{})) },
			"char": func(c *mon.C, data []byte) { // one particular character in every component
				ch := string(data)
				mk := func() *gen.URI { return &gen.URI{Scheme: "sip", Host: "h.example", Port: -1} }
				if strings.ContainsAny(ch, "abcXYZ019-_.!~*'()&=+$,;?/%4") {
					u := mk()
					u.HasUser, u.User = true, "a"+ch+"b"
					check(c, u)
					u = mk()
					u.HasUser, u.User = true, ch
					check(c, u)
				}
				if strings.ContainsAny(ch, "abcXYZ019-_.!~*'()&=+$,%4") {
					u := mk()
					u.HasUser, u.User, u.Pass = true, "u", "a"+ch+"b"
					check(c, u)
				}
				if strings.ContainsAny(ch, "abcXYZ019-_.!~*'()[]/:&+$%4") {
					u := mk()
					u.Params = []gen.Param{{Name: "p", Val: "a" + ch + "b", Kind: gen.Tok}}
					check(c, u)
				}
				if strings.ContainsAny(ch, "abcXYZ019-_.!~*'()[]/?:+$%4") {
					u := mk()
					u.Hdrs = []gen.Param{{Name: "X-H", Val: "a" + ch + "b", Kind: gen.Tok}, {Name: "Y", Val: ch, Kind: gen.Tok}}
					check(c, u)
				}
			},
			"port": func(c *mon.C, data []byte) {
				var n int
				fmt.Sscan(string(data), &n)
				check(c, &gen.URI{Scheme: "sip", HasUser: true, User: "u", Host: "h.example", Port: n})
			},
			"typed": func(c *mon.C, data []byte) { // the parts of a URI parsed by their own
				g := gen.New(c.RNG())
				u := g.TelURI(gen.URIOpt{})
				x, err := parser.NewStringMsgParser().ParSetelephoneNumber(strings.TrimPrefix(u.Text(), "tel:"))
				if err != nil {
					c.Failf("number rejected", "legal telephone number of %q rejected: %v", u.Text(), err)
					return
				}
				if x.GetPhoneNumber() != u.Number || x.IsGlobal() != u.Global || "tel:"+x.String() != u.Text() {
					c.Failf("number", "number of %q: %q global %v encoded %q", u.Text(), x.GetPhoneNumber(), x.IsGlobal(), x.String())
				}
				for _, p := range u.Params {
					if !x.HasParm(p.Name) || x.GetParameter(p.Name) != p.Val {
						c.Failf("number parameter", "number of %q: parameter %s is %q", u.Text(), p.Name, x.GetParameter(p.Name))
					}
				}
				c.Key("number " + u.Text())
				c.Count("telephone numbers", 1)
			},
		},
		Plan: func(p *mon.Plan) {
			for _, ch := range "abcXYZ019-_.!~*'()&=+$,;?/[]:" {
				p.Case("char", []byte(string(ch)))
			}
			for i := 0; i < 256; i++ {
				p.Case("char", []byte(fmt.Sprintf("%%%02X", i)))
				p.Case("char", []byte(fmt.Sprintf("%%%02x", i)))
			}
			for _, n := range []int{0, 1, 9, 10, 80, 99, 100, 999, 1000, 5059, 5060, 5061, 9999, 10000, 32767, 32768, 65534, 65535} {
				p.Case("port", []byte(fmt.Sprint(n)))
			}
			p.Seeds("any", p.N(60000, 4000000))
			p.Seeds("sip", p.N(80000, 6000000))
			p.Seeds("tel", p.N(20000, 1000000))
			p.Seeds("typed", p.N(20000, 1000000))
		},
		MinEvents: []string{"URIs sip", "URIs sips", "URIs tel", "parameters", "embedded headers", "passwords", "escapes", "host class 0", "host class 1", "host class 2", "ports", "telephone numbers"},
	})
}
