package props

import (
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
)

// Kinds of header that belong in one kind of message only.
var requestOnly = map[string]bool{"Alert-Info": true, "In-Reply-To": true, "Authorization": true, "Max-Forwards": true, "Priority": true, "Proxy-Authorization": true, "Proxy-Require": true, "Route": true, "Subject": true}
var responseOnly = map[string]bool{"Error-Info": true, "Proxy-Authenticate": true, "Server": true, "Unsupported": true, "Retry-After": true, "Warning": true, "WWW-Authenticate": true}

func init() {
	type checker interface {
		message.Message
		CheckHeaders() error
		RemoveHeader(string)
		AttachHeader(header.Header) error
	}
	check := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		m := g.Msg(gen.MsgOpt{Extra: 4, Repeat: g.P(3)})
		var x checker
		how := ""
		if g.P(2) {
			x = m.BuildMsg().(checker)
			how = "built "
		} else {
			y := makeMsg(c, g, m)
			if y == nil {
				return
			}
			x = y.(checker)
		}
		how += m.Start()
		have := map[string]bool{"CSeq": true, "To": true, "From": true, "Via": true, "Max-Forwards": m.Group("Max-Forwards") != nil}
		method, cseq := m.Method, m.Method
		names := []string{"CSeq", "To", "From", "Via", "Max-Forwards"}
		for k := g.N(6); k >= 0; k-- {
			missing := map[string]bool{}
			for _, n := range names {
				if !have[n] && (m.Req || n != "Max-Forwards") {
					missing[strings.ReplaceAll(n, "-", "")] = true
				}
			}
			err := x.CheckHeaders()
			differ := m.Req && len(missing) == 0 && !strings.EqualFold(method, cseq)
			switch {
			case err == nil && len(missing) > 0:
				c.Failf("missed", "nothing reported, although %v is missing\nafter %s", missing, how)
				return
			case err == nil && differ:
				c.Failf("method", "nothing reported, although the methods are %q and %q\nafter %s", method, cseq, how)
				return
			case err != nil && len(missing) == 0 && !differ:
				c.Failf("reported", "complete message reported: %v\nafter %s", err, how)
				return
			case err != nil && len(missing) > 0:
				f := strings.Fields(strings.NewReplacer(":", " ", "-", "").Replace(err.Error()))
				if !missing[f[len(f)-1]] {
					c.Failf("name", "%v reported, missing are %v\nafter %s", err, missing, how)
					return
				}
				c.Count("missing header reported", 1)
			case err != nil:
				c.Count("method mismatch reported", 1)
			default:
				c.Count("complete message passed", 1)
			}
			c.Key(how)
			n := names[g.N(len(names))]
			switch {
			case m.Req && g.P(4): // another method in the request line
				method = g.Method()
				if g.P(3) {
					method = strings.ToUpper(cseq)
				}
				if method == "" {
					break
				}
				x.(*message.SIPRequest).GetRequestLine().SetMethod(method)
				how += "; request line method " + method
			case have[n] && !g.P(3):
				if n == "Via" && m.Group("Via") != nil && g.P(2) {
					// one value at a time
					for x.(interface{ GetViaHeaders() *header.ViaList }).GetViaHeaders() != nil {
						x.(interface{ RemoveHeader2(string, bool) }).RemoveHeader2("Via", g.P(2))
					}
				} else {
					x.RemoveHeader(g.Pick(n, strings.ToLower(n), strings.ToUpper(n)))
				}
				have[n] = false
				how += "; without " + n
			default:
				l := g.Line1(n)
				if n == "CSeq" {
					cseq = method
					if g.P(3) {
						cseq = g.Method()
					}
					l = gen.CSeqLine(g.Int(0, 1<<31-1), cseq)
				}
				h, err := parseLine(l.Plain())
				if err != nil {
					c.Failf("harness", "%v: %q", err, l.Plain())
					return
				}
				if have[n] {
					x.RemoveHeader(n)
				}
				if err := x.AttachHeader(h); err != nil {
					c.Failf("harness", "%v", err)
					return
				}
				have[n] = true
				how += "; with " + strings.TrimSpace(l.Plain())
			}
		}
		if c.WantSample() {
			c.Sample("%s", how)
		}
	}
	kinds := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		k := g.AnyKind()
		if g.P(3) {
			var ns []string
			for _, x := range gen.Kinds {
				if requestOnly[x.Name] || responseOnly[x.Name] {
					ns = append(ns, x.Name)
				}
			}
			k = gen.KindOf(g.Pick(ns...))
		}
		l := g.Line(k, 3)
		h, err := parser.NewStringMsgParser().ParseSIPHeader(l.Plain())
		if err != nil {
			c.Failf("rejected", "%v: %q", err, l.Plain())
			return
		}
		x := message.NewSIPMessage()
		hs := []header.Header{h}
		if lst, ok := h.(header.SIPHeaderLister); ok {
			for e := lst.Front(); e != nil; e = e.Next() {
				hs = append(hs, e.Value.(header.Header))
			}
		}
		for _, h := range hs {
			if got := x.IsRequestHeader(h); got != requestOnly[k.Name] {
				c.Failf("request:"+k.Name, "%T is a request header: %v\n%q", h, got, l.Plain())
				return
			}
			if got := x.IsResponseHeader(h); got != responseOnly[k.Name] {
				c.Failf("response:"+k.Name, "%T is a response header: %v\n%q", h, got, l.Plain())
				return
			}
		}
		c.Key(l.Plain())
		c.Count("headers classified", len(hs))
	}
	defaults := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		m := g.Msg(gen.MsgOpt{Extra: 2, Req: true})
		if g.P(2) {
			m = g.Msg(gen.MsgOpt{Extra: 2, Req: true, Method: g.Pick("REGISTER", "INVITE")})
		}
		y := makeMsg(c, g, m)
		if y == nil {
			return
		}
		x := y.(*message.SIPRequest)
		if g.P(2) { // the method of the request line is absent
			x.GetRequestLine().SetMethod("")
			if g.P(4) {
				x.RemoveHeader("CSeq")
			}
			want := ""
			if cs := x.GetCSeq(); cs != nil {
				want = cs.GetMethod()
			}
			x.SetRequestLineDefaults()
			if x.GetMethod() != want || x.GetRequestLine().GetMethod() != want {
				c.Failf("line defaults", "method %q after the defaults, the CSeq has %q\n%q", x.GetMethod(), want, x.String())
				return
			}
			c.Count("request lines completed", 1)
			c.Key("line " + m.Start())
			return
		}
		before := x.String()
		x.SetRequestLineDefaults()
		if x.String() != before {
			c.Failf("line defaults", "the defaults changed a complete request line\n%q\n%q", before, x.String())
			return
		}
		rest := before[strings.Index(before, "\r\n"):]
		var others []string
		u, sip := x.GetRequestURI().(*address.SipURIImpl)
		params := func() (o []string) {
			for e := u.GetParameterNames().Front(); e != nil; e = e.Next() {
				n := e.Value.(string)
				if !strings.EqualFold(n, "user") && !strings.EqualFold(n, "transport") {
					o = append(o, n+"="+u.GetParameter(n))
				}
			}
			return
		}
		change := sip && (m.Method == "REGISTER" || m.Method == "INVITE")
		base := ""
		if sip {
			others = params()
			base = u.GetScheme() + ":" + u.GetUserAtHostPort() + " " + u.GetUserPassword()
		}
		x.SetDefaults()
		after := x.String()
		if !change {
			if after != before {
				c.Failf("defaults", "the defaults changed a %s\n%q\n%q", m.Method, before, after)
			}
			c.Count("requests left alone", 1)
			c.Key("alone " + m.Start())
			return
		}
		if u.GetUserParam() != "ip" || u.GetTransportParam() != "udp" || x.GetMethod() != m.Method {
			c.Failf("defaults", "after the defaults user=%q transport=%q method %q\n%q", u.GetUserParam(), u.GetTransportParam(), x.GetMethod(), after)
			return
		}
		if d := diff(others, params()); d != "" || after[strings.Index(after, "\r\n"):] != rest || base != u.GetScheme()+":"+u.GetUserAtHostPort()+" "+u.GetUserPassword() {
			c.Failf("defaults", "the defaults changed something else, %s\n%q\n%q", d, before, after)
			return
		}
		c.Count("requests given defaults", 1)
		c.Key("defaults " + m.Start())
	}
	bare := func(c *mon.C, data []byte) { // messages without anything
		r := message.NewSIPRequest()
		if r.GetMethod() != "" || r.GetRequestURI() != nil && r.GetRequestLine() == nil || r.CheckHeaders() == nil {
			c.Failf("bare", "new request: method %q, checks %v", r.GetMethod(), r.CheckHeaders())
		}
		r.SetDefaults()
		p := message.NewSIPResponse()
		if p.GetStatusCode() > 0 || p.CheckHeaders() == nil {
			c.Failf("bare", "new response: status %d, checks %v", p.GetStatusCode(), p.CheckHeaders())
		}
		c.Count("bare messages", 1)
		c.Key("bare")
	}
	mon.Register(&mon.Prop{
		ID:    "S32",
		Quick: 8,
		Rule:  "a case is a parsed or built message from which mandatory headers are taken and to which they are given back, with CheckHeaders compared with what is there after each step; or one header value classified; or a request completed with its defaults, compared with what it was; distinct cases are distinct histories",
		Handlers: map[string]mon.Handler{
			"check": check, "kinds": kinds, "defaults": defaults, "bare": bare,
		},
		Plan: func(p *mon.Plan) {
			p.Case("bare", nil)
			p.Seeds("check", p.N(12000, 500000))
			p.Seeds("kinds", p.N(12000, 400000))
			p.Seeds("defaults", p.N(8000, 300000))
		},
		MinEvents: []string{"missing header reported", "method mismatch reported", "complete message passed", "headers classified", "request lines completed", "requests left alone", "requests given defaults", "bare messages"},
	})
}
