package props

import (
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/parser"
)

// addrHeader is what all headers that hold an address with parameters offer.
type addrHeader interface {
	header.Header
	GetAddress() address.Address
	GetParameters() *core.NameValueList
	GetParameter(string) string
	HasParameters() bool
}

var addrHeaders = []struct {
	name         string
	list, bareOK bool // bareOK: parameters after a bare URI are the header's
}{
	{"From", false, true}, {"To", false, true}, {"Contact", true, false}, {"Route", true, false},
	{"Record-Route", true, false}, {"Reply-To", false, false}, {"Refer-To", false, false},
}

// addrText is the encoding expected of an address on its own.
func addrText(a *gen.Addr) string {
	if a.Bare {
		return a.U.Text()
	}
	return a.Canon()
}

// sameAddr checks one parsed or edited address in every accessor.
func sameAddr(c *mon.C, how string, a *gen.Addr, x *address.AddressImpl, exact bool) bool {
	c.Guard("reading an address", func() {
		if d := diff(a.Want(), gen.ObsAddr(x)); d != "" {
			c.Failf("parts", "%s: address %q reported differently, %s", how, addrText(a), d)
			return
		}
		if x.HasDisplayName() != (a.Display != "") {
			c.Failf("has display name", "%s: address %q: HasDisplayName is %v", how, addrText(a), x.HasDisplayName())
		}
		if x.IsSIPAddress() != a.U.IsSIP() || x.IsWildcard() {
			c.Failf("kind", "%s: address %q: IsSIPAddress %v IsWildcard %v", how, addrText(a), x.IsSIPAddress(), x.IsWildcard())
		}
		if exact && x.String() != addrText(a) {
			c.Failf("encoding", "%s: address %q is encoded as %q", how, addrText(a), x.String())
		}
		h, err1 := x.GetHost()
		p, err2 := x.GetPort()
		hp, err3 := x.GetHostPort()
		if !a.U.IsSIP() {
			if err1 == nil || err2 == nil || err3 == nil {
				c.Failf("host of others", "%s: address %q, which is no SIP address, has host %q port %d", how, addrText(a), h, p)
			}
			return
		}
		if err1 != nil || err2 != nil || err3 != nil || h != a.U.Host || p != a.U.Port || hp == nil || hp.GetPort() != a.U.Port {
			c.Failf("host", "%s: address %q: host %q port %d (%v %v %v)", how, addrText(a), h, p, err1, err2, err3)
		}
		w := a.U.Host
		if a.U.User != "" {
			w = a.U.User + "@" + w
		}
		if a.U.Port >= 0 {
			w += fmt.Sprintf(":%d", a.U.Port)
		}
		if x.GetUserAtHostPort() != w {
			c.Failf("user at host", "%s: address %q: user at host and port %q, expected %q", how, addrText(a), x.GetUserAtHostPort(), w)
		}
	})
	return !c.Failed()
}

// oneHeader is the i-th header of a parsed line.
func oneHeader(h header.Header, i int) header.Header {
	if l, ok := h.(interface{ GetElements() []header.Header }); ok {
		return l.GetElements()[i]
	}
	if l, ok := h.(header.SIPHeaderLister); ok {
		n := 0
		for e := l.Front(); e != nil; e = e.Next() {
			if n == i {
				return e.Value.(header.Header)
			}
			n++
		}
		return nil
	}
	return h
}

func init() {
	// an address on its own
	alone := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		a := g.Addr(true, gen.URIOpt{})
		if a.Bare && a.U.IsSIP() && g.P(2) { // parameters of a bare URI on its own are the URI's
			u := g.SipURI(gen.URIOpt{NoHdrs: true})
			if !strings.ContainsAny(u.User+u.Pass, ";?,") {
				a.U = u
			}
		}
		wire := gen.Spell(a.Wire(), g, false)
		if a.Bare {
			wire = a.Wire()
		}
		for i, f := range []func(string) (*address.AddressImpl, error){
			parser.NewStringMsgParser().ParseAddress,
			func(s string) (*address.AddressImpl, error) { return parser.NewAddressParser(s).Address() },
		} {
			x, err := f(wire)
			if err != nil || x == nil {
				c.Failf("rejected", "legal address %q rejected: %v", wire, err)
				return
			}
			if !sameAddr(c, "parsing "+wire, a, x, true) {
				return
			}
			y, err := f(x.String())
			if err != nil || y == nil {
				c.Failf("reparse", "the encoding %q of address %q is rejected: %v", x.String(), wire, err)
				return
			}
			if !sameAddr(c, "parsing the encoding of "+wire, a, y, true) {
				return
			}
			c.Count("addresses", 1)
			if i == 0 {
				edit(c, g, a, x)
			}
		}
		c.Key(wire)
	}
	// addresses inside headers, with parameters on both sides
	inside := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		k := addrHeaders[g.N(len(addrHeaders))]
		n := 1
		if k.list {
			n += g.N(4)
		}
		var addrs []*gen.Addr
		var params [][]gen.Param
		line := ""
		for i := 0; i < n; i++ {
			a := g.Addr(k.bareOK, gen.URIOpt{})
			var ps []gen.Param
			names := []string{"a", "b", "tag", "x-y", "transport", "lr", "expires", "ttl", "method", "user"}
			for _, j := range g.R.Perm(len(names))[:g.N(4)] {
				p := gen.Param{Name: names[j], Val: g.Token(), Kind: gen.Tok}
				switch {
				case names[j] == "tag" && k.bareOK, names[j] == "expires":
					p.Val = fmt.Sprint(g.N(10000))
				case g.P(5) && !a.Bare:
					p.Kind, p.Val = gen.Flag, ""
				case g.P(3):
					p.Kind, p.Val = gen.Quo, g.QText(0)
				}
				ps = append(ps, p)
			}
			if a.U.IsSIP() && !a.Bare && g.P(2) { // the same names on both sides
				for _, nm := range []string{"a", "tag", "x-y", "lr", "transport"} {
					if g.P(2) && findParam(a.U.Params, nm) < 0 {
						v := g.Token()
						if nm == "transport" {
							v = g.Pick("udp", "tcp", "tls")
						}
						if strings.ContainsAny(v, "%`") {
							v = "v"
						}
						a.U.Params = append(a.U.Params, gen.Param{Name: nm, Val: v, Kind: gen.Tok})
					}
				}
			}
			if i > 0 {
				line += gen.O + "," + gen.O
			}
			line += a.Wire()
			for _, p := range ps {
				line += gen.O + ";" + gen.O + p.Name
				switch p.Kind {
				case gen.Tok:
					line += "=" + p.Val
				case gen.Quo:
					line += `="` + p.Val + `"`
				}
			}
			addrs, params = append(addrs, a), append(params, ps)
		}
		wire := k.name + ": " + gen.Spell(line, g, false)
		read := func(wire string) string {
			var enc string
			c.Guard("header "+k.name, func() {
				h, err := parseLine(wire)
				if err != nil {
					c.Failf("rejected:"+k.name, "legal header rejected: %v\n%q", err, wire)
					return
				}
				enc = h.String()
				for i, a := range addrs {
					x, ok := oneHeader(h, i).(addrHeader)
					if !ok {
						c.Failf("missing:"+k.name, "value %d of %q is missing", i, wire)
						return
					}
					impl, ok := x.GetAddress().(*address.AddressImpl)
					if !ok {
						c.Failf("no address:"+k.name, "value %d of %q has address %v", i, wire, x.GetAddress())
						return
					}
					if !sameAddr(c, fmt.Sprintf("value %d of %q", i, wire), a, impl, false) {
						return
					}
					var got []string
					for e := x.GetParameters().Front(); e != nil; e = e.Next() {
						nv := e.Value.(*core.NameValue)
						v, _ := nv.GetValue().(string)
						got = append(got, fmt.Sprintf("%s=%s quoted=%v", nv.GetName(), v, nv.IsValueQuoted()))
					}
					var want []string
					for _, p := range params[i] {
						want = append(want, fmt.Sprintf("%s=%s quoted=%v", p.Name, p.Val, p.Kind == gen.Quo))
						if v := x.GetParameter(p.Name); v != p.Val {
							c.Failf("parameter:"+k.name, "value %d of %q: parameter %s is %q, written %q", i, wire, p.Name, v, p.Val)
						}
					}
					if d := diff(want, got); d != "" {
						c.Failf("parameters:"+k.name, "value %d of %q: header parameters differ, %s", i, wire, d)
					}
					for _, p := range a.U.Params {
						if findParam(params[i], p.Name) < 0 && x.GetParameter(p.Name) != "" {
							c.Failf("leak:"+k.name, "value %d of %q: parameter %s of the URI is reported by the header", i, wire, p.Name)
						}
					}
					c.Count("header "+k.name, 1)
				}
				if oneHeader(h, len(addrs)) != nil && k.list {
					c.Failf("extra:"+k.name, "%q has more values than were written", wire)
				}
			})
			return enc
		}
		enc := read(wire)
		if c.Failed() {
			return
		}
		read(strings.TrimRight(enc, "\r\n"))
		c.Key(wire)
		if c.WantSample() {
			c.Sample("%s", wire)
		}
	}
	mon.Register(&mon.Prop{
		ID:       "S18",
		Quick:    5,
		Rule:     "a case is one generated address, parsed on its own through two entry points and edited, or a header with 1 to 4 addresses that have parameters on both sides (with clashing names); every part is compared with the model, for the text and again for its encoding; distinct cases are distinct texts",
		Handlers: map[string]mon.Handler{"alone": alone, "inside": inside},
		Plan: func(p *mon.Plan) {
			p.Seeds("alone", p.N(60000, 4000000))
			p.Seeds("inside", p.N(60000, 4000000))
		},
		MinEvents: []string{"addresses", "edits", "header From", "header To", "header Contact", "header Route", "header Record-Route", "header Reply-To", "header Refer-To"},
	})
}

// edit changes a parsed address and compares it with the model every time.
func edit(c *mon.C, g *gen.G, a *gen.Addr, x *address.AddressImpl) {
	m := *a
	hist := addrText(a)
	for n := g.N(5); n > 0; n-- {
		c.Guard("editing an address", func() {
			switch g.N(6) {
			case 4:
				m.U = g.URI(gen.URIOpt{Bare: m.Bare})
				x.SetAddess(m.U.Build())
				hist += "; SetAddess " + m.U.Text()
			case 5: // everything, and back to what it was
				t := x.GetAddressType()
				x.SetWildCardFlag()
				if !x.IsWildcard() || x.GetAddressType() != address.WILD_CARD || x.String() != "*" {
					c.Failf("wild card", "SetWildCardFlag gives %q, type %d\n%s", x.String(), x.GetAddressType(), hist)
				}
				x.SetAddressType(t)
				hist += "; SetWildCardFlag; SetAddressType"
			case 0:
				m.Display = g.Pick("", g.Token(), g.QText(1), "a b", "x, y; <z>: w/")
				m.Bare = false
				x.SetDisplayName(m.Display)
				hist += "; SetDisplayName " + m.Display
			case 1:
				m.Display = ""
				x.RemoveDisplayName()
				hist += "; RemoveDisplayName"
			case 2:
				m.U = g.URI(gen.URIOpt{Bare: m.Bare})
				x.SetURI(m.U.Build())
				hist += "; SetURI " + m.U.Text()
			case 3:
				if !m.U.IsSIP() {
					return
				}
				u := *m.U
				m.U = &u
				if g.P(2) {
					u.User, u.HasUser = g.Word(), true
					x.SetUser(u.User)
					hist += "; SetUser " + u.User
				} else if len(u.Params) > 0 {
					n := u.Params[g.N(len(u.Params))].Name
					u.Params = delParam(u.Params, n)
					if err := x.RemoveParameter(n); err != nil {
						c.Failf("remove", "RemoveParameter(%s): %v\n%s", n, err, hist)
					}
					hist += "; RemoveParameter " + n
				}
			}
			c.Count("edits", 1)
		})
		if c.Failed() || !sameAddr(c, hist, &m, x, true) {
			return
		}
	}
	y, err := parser.NewStringMsgParser().ParseAddress(x.String())
	if err != nil {
		c.Failf("reparse edited", "the encoding %q of an edited address is rejected: %v\n%s", x.String(), err, hist)
		return
	}
	sameAddr(c, "parsing after "+hist, &m, y, true)
}
