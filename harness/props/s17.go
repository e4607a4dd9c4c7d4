package props

import (
	"fmt"
	"sort"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/parser"
)

// uriModel is what a SIP URI should hold after a history of edits.
type uriModel struct {
	gen.URI
	hasHost bool
}

func findParam(ps []gen.Param, n string) int {
	for i, p := range ps {
		if strings.EqualFold(p.Name, n) {
			return i
		}
	}
	return -1
}

func delParam(ps []gen.Param, n string) []gen.Param {
	if i := findParam(ps, n); i >= 0 {
		return append(append([]gen.Param(nil), ps[:i]...), ps[i+1:]...)
	}
	return ps
}

// last puts a parameter at the end, in place of an older one of that name.
func last(ps []gen.Param, p gen.Param) []gen.Param { return append(delParam(ps, p.Name), p) }

// keep changes a parameter in its place, or puts it at the end.
func keep(ps []gen.Param, p gen.Param) []gen.Param {
	if i := findParam(ps, p.Name); i >= 0 {
		ps = append([]gen.Param(nil), ps...)
		p.Name = ps[i].Name
		ps[i] = p
		return ps
	}
	return append(ps, p)
}

func (m *uriModel) typ() { // class of the host
	switch {
	case strings.HasPrefix(m.Host, "["):
		m.HostType = gen.HostV6
	case m.Host != "" && m.Host[0] >= '0' && m.Host[0] <= '9':
		m.HostType = gen.HostV4
	default:
		m.HostType = gen.HostName
	}
}

// compare checks every accessor and the encoding of a URI against the model.
func (m *uriModel) compare(c *mon.C, x *address.SipURIImpl, hist []string, ordered bool) bool {
	tail := func() string {
		h := hist
		if len(h) > 14 {
			h = h[len(h)-14:]
		}
		return strings.Join(h, "; ")
	}
	var got []string
	if !c.Guard("reading", func() { got = gen.ObsURI(x) }) {
		c.Failf("history", "after %s", tail())
		return false
	}
	if !m.hasHost { // absent parts are reported absent
		ok := true
		c.Guard("reading without a host", func() {
			ok = x.GetHost() == "" && x.GetUser() == m.User && x.GetUserPassword() == m.Pass && x.GetPort() == m.Port
			_ = x.String()
			x.GetUserAtHost()
			x.GetUserAtHostPort()
		})
		if !ok {
			c.Failf("no host", "without a host: host %q user %q password %q port %d, expected user %q password %q port %d\nafter %s", x.GetHost(), x.GetUser(), x.GetUserPassword(), x.GetPort(), m.User, m.Pass, m.Port, tail())
		}
		return !c.Failed()
	}
	m.typ()
	// the order of parameters is not this property's business
	if !ordered {
		var ps []gen.Param
		for e := x.GetParameterNames().Front(); e != nil; e = e.Next() {
			if i := findParam(m.Params, e.Value.(string)); i >= 0 {
				ps = append(ps, m.Params[i])
			}
		}
		if len(ps) == len(m.Params) {
			m.Params = ps
		}
	}
	if d := diff(m.Want(), got); d != "" {
		c.Failf("accessors", "accessors differ from what was set, %s\nafter %s\nencoding %s", d, tail(), x.String())
		return false
	}
	if s := x.String(); s != m.Text() {
		c.Failf("encoding", "encoding %q, expected %q\nafter %s", s, m.Text(), tail())
		return false
	}
	return true
}

func init() {
	type st struct {
		x *address.SipURIImpl
		m *uriModel
	}
	edit := func(g *gen.G, s *st) (string, error) {
		x, m := s.x, s.m
		pn := func() string {
			if len(m.Params) > 0 && g.P(3) {
				n := m.Params[g.N(len(m.Params))].Name
				return g.Pick(n, strings.ToUpper(n), strings.ToLower(n))
			}
			return g.Pick("a", "b", "c", "lr", "maddr", "user", "x-y", "transport", "method", "ttl")
		}
		hn := func() string { return g.Pick("Subject", "X-A", "subject", "Route", "body", "x-a") }
		val := func() string { return g.Chars("abcdefghijklmnopqrstuvwxyz0123456789-_.!~*'()", 1+g.N(6)) }
		typedVal := func(n string) string {
			switch strings.ToLower(n) {
			case "method":
				return gen.Methods[g.N(len(gen.Methods))]
			case "ttl":
				return fmt.Sprint(g.N(256))
			}
			return val()
		}
		want := func(ok bool, err error, f func()) error {
			if ok != (err == nil) {
				return fmt.Errorf("accepted: %v, error: %v", err == nil, err)
			}
			if ok {
				f()
			}
			return nil
		}
		nextName := func(old, n string) string { return n } // the newest spelling of a name counts
		switch g.N(34) {
		case 0:
			v := g.Pick("sip", "sips", "SIP", "SIPS", "Sip", "tel", "http", "", "sipp")
			l := strings.ToLower(v)
			return "SetScheme(" + v + ")", want(l == "sip" || l == "sips", x.SetScheme(v), func() { m.Scheme = l })
		case 1:
			b := g.P(2)
			x.SetSecure(b)
			m.Scheme = map[bool]string{true: "sips", false: "sip"}[b]
			return fmt.Sprintf("SetSecure(%v)", b), nil
		case 2, 3:
			v := g.Pick(val(), val(), "+1"+g.Chars("0123456789", 4), "a%20b", "a;b", "a=b&c", "a?b", "a/b")
			x.SetUser(v)
			m.HasUser, m.User = true, v
			return "SetUser(" + v + ")", nil
		case 4:
			x.RemoveUser()
			m.HasUser, m.User, m.Pass = false, "", ""
			return "RemoveUser", nil
		case 5, 6:
			if !m.HasUser {
				return "", nil
			}
			v := g.Pick(val(), "a%3Ab", "a=b", "p$w,d")
			x.SetUserPassword(v)
			m.Pass = v
			return "SetUserPassword(" + v + ")", nil
		case 7:
			x.ClearPassword()
			m.Pass = ""
			return "ClearPassword", nil
		case 8, 9:
			h, _ := g.Host()
			h = strings.ToLower(h)
			if g.P(2) {
				x.SetHost(core.NewHost(h))
			} else {
				x.SetHostString(h)
			}
			m.Host, m.hasHost = h, true
			return "SetHost(" + h + ")", nil
		case 10:
			h, _ := g.Host()
			h = strings.ToLower(h)
			hp := core.NewHostPort()
			hp.SetHost(core.NewHost(h))
			m.Host, m.hasHost, m.Port = h, true, -1
			if g.P(2) {
				m.Port = 1 + g.N(65535)
				hp.SetPort(m.Port)
			}
			x.SetHostPort(hp)
			return fmt.Sprintf("SetHostPort(%s,%d)", h, m.Port), nil
		case 11, 12:
			p := g.Pick("0", "1", "5060", "5061", "65535", fmt.Sprint(1+g.N(65535)))
			fmt.Sscan(p, &m.Port)
			x.SetPort(m.Port)
			return "SetPort(" + p + ")", nil
		case 13:
			x.RemovePort()
			m.Port = -1
			return "RemovePort", nil
		case 14, 15, 16:
			n := pn()
			v := typedVal(n)
			x.SetParameter(n, v)
			m.Params = last(m.Params, gen.Param{Name: nextName("", n), Val: v, Kind: gen.Tok})
			return "SetParameter(" + n + "," + v + ")", nil
		case 17:
			n := pn()
			if g.P(2) && !strings.EqualFold(n, "method") && !strings.EqualFold(n, "ttl") {
				x.SetUriParm(n, nil)
				m.Params = last(m.Params, gen.Param{Name: n, Kind: gen.Flag})
				return "SetUriParm(" + n + ",nil)", nil
			}
			v := typedVal(n)
			x.SetUriParm(n, v)
			m.Params = last(m.Params, gen.Param{Name: n, Val: v, Kind: gen.Tok})
			return "SetUriParm(" + n + "," + v + ")", nil
		case 18:
			n := pn()
			v := typedVal(n)
			x.SetDefaultParm(n, v)
			if findParam(m.Params, n) < 0 {
				m.Params = append(m.Params, gen.Param{Name: n, Val: v, Kind: gen.Tok})
			}
			return "SetDefaultParm(" + n + "," + v + ")", nil
		case 19:
			v := g.Pick("udp", "tcp", "UDP", "Tcp", "tls", "", "sctp", "udpx")
			l := strings.ToLower(v)
			return "SetTransportParam(" + v + ")", want(l == "udp" || l == "tcp", x.SetTransportParam(v), func() {
				m.Params = last(m.Params, gen.Param{Name: "transport", Val: l, Kind: gen.Tok})
			})
		case 20:
			v := g.Int(-2, 255)
			return fmt.Sprintf("SetTTLParam(%d)", v), want(v > 0, x.SetTTLParam(v), func() {
				m.Params = last(m.Params, gen.Param{Name: "ttl", Val: fmt.Sprint(v), Kind: gen.Tok})
			})
		case 21:
			v := g.Pick("", "h.example", "192.0.2.7", "239.1.1.1")
			return "SetMAddrParam(" + v + ")", want(v != "", x.SetMAddrParam(v), func() {
				m.Params = last(m.Params, gen.Param{Name: "maddr", Val: v, Kind: gen.Tok})
			})
		case 22:
			v := g.Pick("h.example", "192.0.2.7", "239.1.1.1", "[2001:db8::1]")
			x.SetMAddr(v)
			m.Params = keep(m.Params, gen.Param{Name: "maddr", Val: v, Kind: gen.Tok})
			return "SetMAddr(" + v + ")", nil
		case 23:
			v := gen.Methods[g.N(len(gen.Methods))]
			if g.P(2) {
				x.SetMethodParam(v)
			} else {
				x.SetMethod(v)
			}
			m.Params = last(m.Params, gen.Param{Name: "method", Val: v, Kind: gen.Tok})
			return "SetMethod(" + v + ")", nil
		case 24:
			v := g.Pick("phone", "ip", "x")
			x.SetUserParam(v)
			m.Params = last(m.Params, gen.Param{Name: "user", Val: v, Kind: gen.Tok})
			return "SetUserParam(" + v + ")", nil
		case 25:
			x.SetLrParam()
			if findParam(m.Params, "lr") < 0 {
				m.Params = append(m.Params, gen.Param{Name: "lr", Kind: gen.Flag})
			}
			return "SetLrParam", nil
		case 26, 27:
			n := pn()
			x.RemoveParameter(n)
			m.Params = delParam(m.Params, n)
			return "RemoveParameter(" + n + ")", nil
		case 28:
			n := g.Pick("ttl", "maddr", "transport", "user", "method")
			map[string]func(){"ttl": x.RemoveTTL, "maddr": x.RemoveMAddr, "transport": x.RemoveTransport, "user": x.RemoveUserType, "method": x.RemoveMethod}[n]()
			m.Params = delParam(m.Params, n)
			return "Remove " + n, nil
		case 29:
			if !g.P(4) {
				return "", nil
			}
			if g.P(2) {
				x.ClearUriParms()
			} else {
				x.RemoveUriParms()
			}
			m.Params = nil
			return "ClearUriParms", nil
		case 30, 31:
			n, v := hn(), val()
			x.SetHeader(n, v)
			m.Hdrs = keep(m.Hdrs, gen.Param{Name: n, Val: v, Kind: gen.Tok})
			return "SetHeader(" + n + "," + v + ")", nil
		case 32:
			n := hn()
			x.RemoveHeader(n)
			m.Hdrs = delParam(m.Hdrs, n)
			return "RemoveHeader(" + n + ")", nil
		case 33:
			if !g.P(3) {
				return "", nil
			}
			if g.P(2) {
				x.RemoveHeaders()
			} else {
				x.ClearQheaders()
			}
			m.Hdrs = nil
			return "RemoveHeaders", nil
		}
		return "", nil
	}
	run := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		s := &st{}
		var hist []string
		switch g.N(3) {
		case 0:
			s.x = address.NewSipURIImpl()
			s.m = &uriModel{URI: gen.URI{Scheme: "sip", Port: -1}}
			hist = append(hist, "new")
		default:
			u := g.SipURI(gen.URIOpt{})
			x, err := parser.NewStringMsgParser().ParseSIPUrl(u.Text())
			if err != nil {
				c.Failf("rejected", "%q: %v", u.Text(), err)
				return
			}
			s.x, s.m = x, &uriModel{URI: *u, hasHost: true}
			s.m.Host = strings.ToLower(s.m.Host)
			if s.m.Host != u.Host {
				s.x.SetHostString(s.m.Host) // the case of names is S19's business
			}
			hist = append(hist, "parse "+u.Text())
		}
		if !s.m.compare(c, s.x, hist, false) {
			return
		}
		for n := 3 + g.N(20); n > 0 && !c.Failed(); n-- {
			var op string
			var err error
			if !c.Guard("edit", func() { op, err = edit(g, s) }) {
				c.Failf("history", "after %s", strings.Join(hist, "; "))
				return
			}
			if op == "" {
				continue
			}
			hist = append(hist, op)
			c.Count("edits", 1)
			c.Count("op "+firstWord(strings.SplitN(op, "(", 2)[0]), 1)
			if err != nil {
				c.Failf("verdict:"+firstWord(strings.SplitN(op, "(", 2)[0]), "%s: %v\nafter %s", op, err, strings.Join(hist, "; "))
				return
			}
			if !s.m.compare(c, s.x, hist, false) {
				return
			}
		}
		if s.m.hasHost {
			t := s.x.String()
			y, err := parser.NewStringMsgParser().ParseSIPUrl(t)
			if err != nil {
				c.Failf("reparse", "the encoding %q of an edited URI is rejected: %v\nafter %s", t, err, strings.Join(hist, "; "))
				return
			}
			s.m.compare(c, y, append(hist, "reparse"), true)
			c.Key(t)
		}
		c.Count("histories", 1)
		if c.WantSample() {
			c.Sample("%s => %s", strings.Join(hist, "; "), s.x)
		}
	}
	// absence: every getter of a URI of which nothing or little is set
	absent := func(c *mon.C, data []byte) {
		for _, mk := range []func() *address.SipURIImpl{
			address.NewSipURIImpl,
			func() *address.SipURIImpl { x := address.NewSipURIImpl(); x.SetUser("u"); return x },
			func() *address.SipURIImpl { x := address.NewSipURIImpl(); x.SetPort(1); x.RemovePort(); return x },
			func() *address.SipURIImpl { x := address.NewSipURIImpl(); x.SetUser("u"); x.RemoveUser(); return x },
			func() *address.SipURIImpl { x := address.NewSipURIImpl(); x.SetHostString("h"); return x },
			func() *address.SipURIImpl {
				x := address.NewSipURIImpl()
				x.SetAuthority(address.NewAuthority())
				return x
			},
		} {
			var bad []string
			c.Guard("getters", func() {
				x := mk()
				chk := func(n string, ok bool) {
					if !ok {
						bad = append(bad, n)
					}
				}
				u := ""
				if x.GetUser() == "u" {
					u = "u"
				}
				chk("user", x.GetUser() == u)
				chk("password", x.GetUserPassword() == "")
				chk("port", x.GetPort() == -1)
				chk("transport", x.GetTransportParam() == "" && !x.HasTransport())
				chk("maddr", x.GetMAddrParam() == "")
				chk("method", x.GetMethodParam() == "" && x.GetMethod() == "")
				chk("ttl", x.GetTTLParam() == -1)
				chk("user param", x.GetUserParam() == "" && x.GetUserType() == "" && !x.IsUserTelephoneSubscriber())
				chk("lr", !x.HasLrParam() && x.GetLrParam() == "")
				chk("param", x.GetParameter("p") == "" && !x.HasParameter("p") && x.GetParm("p") == nil)
				chk("header", x.GetHeader("h") == "")
				chk("names", x.GetParameterNames().Len() == 0 && x.GetHeaderNames().Len() == 0)
				x.RemoveUser()
				x.RemovePort()
				x.RemoveTTL()
				x.RemoveMAddr()
				x.RemoveTransport()
				x.RemoveHeader("h")
				x.RemoveHeaders()
				x.RemoveUserType()
				x.RemoveMethod()
				x.RemoveParameter("p")
				x.ClearPassword()
				x.ClearQheaders()
				x.ClearUriParms()
				_ = x.String()
				x.GetUserAtHost()
				x.GetUserAtHostPort()
				x.GetTelephoneSubscriber()
				chk("scheme", x.GetScheme() == "sip" && !x.IsSecure())
			})
			sort.Strings(bad)
			if len(bad) > 0 {
				c.Failf("absence", "a URI without these parts does not report them absent: %v", bad)
			}
		}
		c.Count("absence", 1)
		c.Key("absence")
	}
	mon.Register(&mon.Prop{
		ID:       "S17",
		Quick:    6,
		Rule:     "a case is one history of 3 to 22 edits (32 operations) on a new or parsed SIP URI; all accessors and the encoding are compared with the model after every edit, and the encoding is parsed back at the end; distinct cases are distinct final encodings",
		Handlers: map[string]mon.Handler{"history": run, "absent": absent},
		Plan: func(p *mon.Plan) {
			p.Case("absent", nil)
			p.Seeds("history", p.N(60000, 4000000))
		},
		MinEvents: []string{"edits", "histories", "absence"},
	})
}
