package props

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/parser"
)

// A clonee is one kind of value that can be copied: how to make one (the same
// one again for the same random numbers), what can be seen of it, and edits.
type clonee struct {
	name string
	mk   func(g *gen.G) any
	see  func(x any) []string
	edit func(g *gen.G, x any) string
	// copies that are of another kind: how they are made, and made anew
	copy   func(x any) any
	mkCopy func(g *gen.G) any
}

type cloner interface{ Clone() interface{} }

func seeNV(l *core.NameValueList) []string {
	var o []string
	for e := l.Front(); e != nil; e = e.Next() {
		nv := e.Value.(*core.NameValue)
		o = append(o, fmt.Sprintf("%s=%v quoted=%v", nv.GetName(), nv.GetValue(), nv.IsValueQuoted()))
	}
	return append(o, l.String())
}

func seeHP(h *core.HostPort) []string {
	if h == nil {
		return []string{"no host port"}
	}
	o := []string{h.String(), fmt.Sprint(h.GetPort())}
	if h.GetHost() != nil {
		o = append(o, seeHost(h.GetHost())...)
	}
	return o
}

func seeHost(h *core.Host) []string {
	return []string{h.String(), h.GetHostName(), h.GetAddress(), h.GetIpAddress(), fmt.Sprint(h.IsHostName(), h.IsIPAddress(), h.GetInetAddress())}
}

func editHost(g *gen.G, h *core.Host) string {
	s, _ := g.Host()
	switch g.N(4) {
	case 0:
		h.SetHostName(s)
		return "SetHostName " + s
	case 1:
		h.SetHostAddress("192.0.2.9")
		return "SetHostAddress"
	case 2:
		h.SetAddress("[::9]")
		return "SetAddress"
	}
	h.GetInetAddress()
	h.GetIpAddress()
	return "reading the internet address"
}

func editNV(g *gen.G, l *core.NameValueList) string {
	n, v := g.Pick("a", "b", "c", "lr", "tag"), g.Token()
	switch g.N(7) {
	case 0, 1:
		l.SetNameAndValue(n, v)
		return "set " + n + "=" + v
	case 2:
		l.Delete(n)
		return "delete " + n
	case 3:
		if e := l.Front(); e != nil {
			e.Value.(*core.NameValue).SetValue(v)
		}
		return "first value " + v
	case 4:
		if e := l.Back(); e != nil {
			e.Value.(*core.NameValue).SetQuotedValue()
			e.Value.(*core.NameValue).SetName(n)
		}
		return "quote and rename the last"
	case 5:
		l.AddNameAndValue(n, v)
		return "add"
	}
	l.SetSeparator(g.Pick(",", ";", "&"))
	return "separator"
}

func editURI(g *gen.G, x address.URI) string {
	n, v := g.Pick("a", "b", "lr", "maddr", "x-y"), g.Word()
	switch t := x.(type) {
	case *address.SipURIImpl:
		switch g.N(16) {
		case 0:
			t.SetUser(v)
			return "SetUser"
		case 1:
			t.SetUser("u")
			t.SetUserPassword(v)
			return "SetUserPassword"
		case 2:
			t.SetHostString(strings.ToLower(v))
			return "SetHostString"
		case 3:
			t.SetPort(1 + g.N(9999))
			return "SetPort"
		case 4:
			t.RemovePort()
			return "RemovePort"
		case 5, 6:
			t.SetParameter(n, v)
			return "SetParameter"
		case 7:
			t.RemoveParameter(n)
			return "RemoveParameter"
		case 8:
			t.SetHeader(n, v)
			return "SetHeader"
		case 9:
			t.RemoveHeader(n)
			return "RemoveHeader"
		case 10:
			t.ClearUriParms()
			return "ClearUriParms"
		case 11:
			t.SetSecure(g.P(2))
			return "SetSecure"
		case 12:
			t.RemoveUser()
			return "RemoveUser"
		case 13:
			if a := t.GetAuthority(); a != nil {
				return "authority: " + editAuth(g, a)
			}
		case 14:
			if h := t.GetHostPort(); h != nil && h.GetHost() != nil {
				return "host: " + editHost(g, h.GetHost())
			}
		case 15:
			if l := t.GetHeaderNames(); l != nil {
				return "headers: " + editNV(g, l)
			}
		}
		return ""
	case *address.TelURLImpl:
		switch g.N(6) {
		case 0:
			t.SetPhoneNumber(g.Chars("0123456789", 1+g.N(8)))
		case 1:
			t.SetGlobal(g.P(2))
		case 2:
			t.SetIsdnSubAddress(v)
		case 3:
			t.SetPostDial(v)
		case 4:
			t.SetParameter(n, v)
		case 5:
			t.RemoveParameter(n)
		}
		return "tel edit"
	}
	return ""
}

func editAuth(g *gen.G, a *address.Authority) string {
	switch g.N(8) {
	case 0:
		a.SetUser(g.Word())
		return "SetUser"
	case 1:
		a.SetPassword(g.Word())
		return "SetPassword"
	case 2:
		a.SetHost(core.NewHost(strings.ToLower(g.Word())))
		return "SetHost"
	case 3:
		a.SetPort(g.N(65536))
		return "SetPort"
	case 4:
		a.RemovePort()
		return "RemovePort"
	case 5:
		a.RemoveUserInfo()
		return "RemoveUserInfo"
	case 6:
		if a.GetUserInfo() != nil {
			a.GetUserInfo().SetUser(g.Word())
			a.GetUserInfo().ClearPassword()
		}
		return "user info"
	}
	if a.GetHost() != nil {
		return editHost(g, a.GetHost())
	}
	return ""
}

func editParamHeader(g *gen.G, h paramHeader) string {
	n, v := g.Pick("a", "b", "tag", "x-y"), g.Token()
	switch g.N(5) {
	case 0, 1:
		h.SetParameter(n, v)
		return "SetParameter"
	case 2:
		h.RemoveParameter(n)
		return "RemoveParameter"
	case 3:
		h.SetQuotedParameter(n, v)
		return "SetQuotedParameter"
	}
	return "list: " + editNV(g, h.GetParameters())
}

func headerClonee(name, kind string, more func(g *gen.G, x any) string) *clonee {
	return &clonee{
		name: name,
		mk: func(g *gen.G) any {
			h, err := parseLine(g.Line(gen.KindOf(kind), 1).Plain())
			if err != nil {
				panic(err)
			}
			return oneHeader(h, 0)
		},
		see: func(x any) []string { return append(gen.Observe(x.(header.Header)), x.(header.Header).String()) },
		edit: func(g *gen.G, x any) string {
			if g.P(2) {
				return more(g, x)
			}
			if p, ok := x.(paramHeader); ok {
				return editParamHeader(g, p)
			}
			return more(g, x)
		},
	}
}

func editVia(g *gen.G, x any) string {
	v := x.(*header.Via)
	switch g.N(8) {
	case 0:
		v.SetBranch("z9hG4bK" + g.Word())
		return "SetBranch"
	case 1:
		v.SetHost(core.NewHost(strings.ToLower(g.Word())))
		return "SetHost"
	case 2:
		v.SetPort(1 + g.N(9999))
		return "SetPort"
	case 3:
		v.SetComment(g.Word())
		return "SetComment"
	case 4:
		v.SetReceived("192.0.2.1")
		return "SetReceived"
	case 5:
		v.RemovePort()
		return "RemovePort"
	case 6:
		v.SetTTL(g.N(200))
		return "SetTTL"
	}
	if h := v.GetSentBy(); h != nil && h.GetHost() != nil {
		return "sent-by: " + editHost(g, h.GetHost())
	}
	return ""
}

func editFT(g *gen.G, x any) string {
	h := x.(interface {
		SetTag(string) error
		SetAddress(address.Address)
	})
	if g.P(2) {
		t := g.Token()
		h.SetTag(t)
		return "SetTag " + t
	}
	a := g.Addr(false, gen.URIOpt{}).Build()
	h.SetAddress(a)
	return "SetAddress " + a.String()
}

var clonees = []*clonee{
	{name: "Host", mk: func(g *gen.G) any { h, _ := g.Host(); return core.NewHost(h) },
		see: func(x any) []string { return seeHost(x.(*core.Host)) }, edit: func(g *gen.G, x any) string { return editHost(g, x.(*core.Host)) }},
	{name: "HostPort", mk: func(g *gen.G) any {
		hp, err := core.NewHostNameParser(g.HostPort()).GetHostPort()
		if err != nil {
			panic(err)
		}
		return hp
	}, see: func(x any) []string { return seeHP(x.(*core.HostPort)) }, edit: func(g *gen.G, x any) string {
		h := x.(*core.HostPort)
		switch g.N(4) {
		case 0:
			h.SetPort(g.N(65536))
			return "SetPort"
		case 1:
			h.RemovePort()
			return "RemovePort"
		case 2:
			h.SetHost(core.NewHost(g.Word()))
			return "SetHost"
		}
		return "host: " + editHost(g, h.GetHost())
	}},
	{name: "NameValueList", mk: func(g *gen.G) any {
		l := core.NewNameValueList("l")
		l.SetSeparator(g.Pick(";", ";", ",", "&"))
		for n := g.N(5); n > 0; n-- {
			switch g.N(3) {
			case 0:
				l.SetNameAndValue(g.Pick("a", "b", "c", "d"), g.Token())
			case 1:
				l.SetNameAndValue(g.Pick("a", "b", "c", "d"), nil)
			case 2:
				nv := core.NewNameValue(g.Pick("a", "b", "c", "d"), g.QText(0))
				nv.SetQuotedValue()
				l.SetNameValue(nv)
			}
		}
		return l
	}, see: func(x any) []string { return seeNV(x.(*core.NameValueList)) }, edit: func(g *gen.G, x any) string { return editNV(g, x.(*core.NameValueList)) }},
	{name: "NameValue", mk: func(g *gen.G) any {
		nv := core.NewNameValue(g.Name(), g.Token())
		if g.P(2) {
			nv.SetQuotedValue()
		}
		if g.P(4) {
			nv.SetSeparator(":")
		}
		return nv
	}, see: func(x any) []string {
		nv := x.(*core.NameValue)
		return []string{nv.String(), nv.GetName(), fmt.Sprint(nv.GetValue(), nv.IsValueQuoted())}
	}, edit: func(g *gen.G, x any) string {
		nv := x.(*core.NameValue)
		switch g.N(4) {
		case 0:
			nv.SetName(g.Name())
		case 1:
			nv.SetValue(g.Token())
		case 2:
			nv.SetValue(nil)
		case 3:
			nv.SetQuotedValue()
		}
		return "edit"
	}},
	{name: "Authority", mk: func(g *gen.G) any {
		a := address.NewAuthority()
		if g.P(2) {
			a.SetUser(g.Word())
			if g.P(2) {
				a.SetPassword(g.Word())
			}
		}
		if !g.P(6) {
			h, _ := g.Host()
			a.SetHost(core.NewHost(h))
			if g.P(2) {
				a.SetPort(g.N(65536))
			}
		}
		return a
	}, see: func(x any) []string {
		a := x.(*address.Authority)
		return append(seeHP(a.GetHostPort()), a.String(), a.GetUser(), a.GetPassword(), fmt.Sprint(a.GetPort(), a.GetUserInfo() == nil))
	}, edit: func(g *gen.G, x any) string { return editAuth(g, x.(*address.Authority)) }},
	{name: "UserInfo", mk: func(g *gen.G) any {
		u := address.NewUserInfo()
		u.SetUser(g.Pick(g.Word(), "+1;x", "a#b"))
		if g.P(2) {
			u.SetPassword(g.Word())
		}
		return u
	}, see: func(x any) []string {
		u := x.(*address.UserInfo)
		return []string{u.String(), u.GetUser(), u.GetPassword(), fmt.Sprint(u.GetUserType())}
	}, edit: func(g *gen.G, x any) string {
		u := x.(*address.UserInfo)
		switch g.N(3) {
		case 0:
			u.SetUser(g.Pick(g.Word(), "1;2"))
		case 1:
			u.SetPassword(g.Word())
		case 2:
			u.ClearPassword()
		}
		return "edit"
	}},
	{name: "URI", mk: func(g *gen.G) any {
		if g.P(8) {
			x := address.NewSipURIImpl()
			x.SetParameter("a", "b")
			return address.URI(x)
		}
		u, err := parser.NewStringMsgParser().ParseUrl(g.URI(gen.URIOpt{}).Text())
		if err != nil {
			panic(err)
		}
		return u
	}, see: func(x any) []string {
		u := x.(address.URI)
		o := []string{u.String()}
		if s, ok := u.(*address.SipURIImpl); ok && s.GetHost() == "" {
			return append(o, s.GetUser(), fmt.Sprint(s.GetPort()))
		}
		return append(o, gen.ObsURI(u)...)
	}, edit: func(g *gen.G, x any) string { return editURI(g, x.(address.URI)) }},
	{name: "TelephoneNumber", mk: func(g *gen.G) any {
		t := address.NewTelephoneNumber()
		t.SetPhoneNumber(g.Chars("0123456789", 5))
		t.SetGlobal(g.P(2))
		for n := g.N(3); n > 0; n-- {
			t.SetParm(g.Pick("a", "b", "isub"), g.Word())
		}
		if g.P(3) { // a list made by the caller
			l := core.NewNameValueList("telparms")
			for _, n := range []string{"b", "a", "c"}[g.N(3):] {
				nv := core.NewNameValue(n, g.Word())
				switch g.N(3) {
				case 0:
					nv.SetQuotedValue()
				case 1:
					nv = core.NewNameValue(n, nil)
				}
				l.AddNameValue(nv)
			}
			t.SetParameters(l)
		}
		return t
	}, see: func(x any) []string {
		t := x.(*address.TelephoneNumber)
		return []string{t.String(), t.GetPhoneNumber(), t.GetIsdnSubaddress(), t.GetPostDial(), fmt.Sprint(t.IsGlobal(), names(t.GetParameterNames()))}
	}, edit: func(g *gen.G, x any) string {
		t := x.(*address.TelephoneNumber)
		switch g.N(7) {
		case 0:
			t.SetPhoneNumber(g.Chars("0123456789", 4))
		case 1:
			t.SetGlobal(g.P(2))
		case 2:
			t.SetParm(g.Pick("a", "b"), g.Word())
		case 3:
			t.RemoveParameter(g.Pick("a", "b"))
		case 4:
			t.SetIsdnSubaddress(g.Word())
		case 5:
			t.RemovePostDial()
			t.RemoveIsdnSubaddress()
		case 6:
			t.SetPostDial(g.Word())
		}
		return "edit"
	}},
	headerClonee("Via header", "Via", editVia),
	headerClonee("From header", "From", editFT),
	headerClonee("To header", "To", editFT),
	headerClonee("Contact header", "Contact", func(g *gen.G, x any) string {
		h := x.(*header.Contact)
		if g.P(2) {
			h.SetExpires(g.N(1000))
			return "SetExpires"
		}
		a := g.Addr(false, gen.URIOpt{}).Build()
		h.SetAddress(a)
		return "SetAddress " + a.String()
	}),
	headerClonee("CSeq header", "CSeq", func(g *gen.G, x any) string {
		h := x.(*header.CSeq)
		if g.P(2) {
			h.SetSequenceNumber(g.N(100))
			return "SetSequenceNumber"
		}
		h.SetMethod(g.Pick("ACK", "BYE"))
		return "SetMethod"
	}),
	exchanged("From", "To", func(x any) any {
		t := header.NewTo()
		t.CloneFrom(x.(*header.From))
		return t
	}),
	exchanged("To", "From", func(x any) any {
		f := header.NewFrom()
		f.CloneTo(x.(*header.To))
		return f
	}),
	listClonee("Via", editVia),
	listClonee("Contact", func(g *gen.G, x any) string { x.(*header.Contact).SetExpires(g.N(1000)); return "SetExpires" }),
}

// exchanged is a From header made of a To header or the other way round.
func exchanged(kind, other string, conv func(x any) any) *clonee {
	k := headerClonee(kind+" header as "+other, kind, editFT)
	k.copy = conv
	k.mkCopy = func(g *gen.G) any {
		h, err := parseLine(strings.Replace(g.Line(gen.KindOf(kind), 1).Plain(), kind, other, 1))
		if err != nil {
			panic(err)
		}
		return oneHeader(h, 0)
	}
	return k
}

func listClonee(kind string, one func(g *gen.G, x any) string) *clonee {
	return &clonee{name: kind + " list", mk: func(g *gen.G) any {
		h, err := parseLine(g.Line(gen.KindOf(kind), 4).Plain())
		if err != nil {
			panic(err)
		}
		return h
	}, see: func(x any) []string {
		l := x.(header.SIPHeaderLister)
		o := []string{fmt.Sprint(l.Len()), l.String()}
		for e := l.Front(); e != nil; e = e.Next() {
			o = append(o, gen.Observe(e.Value.(header.Header))...)
		}
		return o
	}, edit: func(g *gen.G, x any) string {
		l := x.(header.SIPHeaderLister)
		i := g.N(l.Len() + 1)
		for e := l.Front(); e != nil; e = e.Next() {
			if i == 0 {
				if p, ok := e.Value.(paramHeader); ok && g.P(2) {
					return editParamHeader(g, p)
				}
				return one(g, e.Value)
			}
			i--
		}
		h, err := parseLine(g.Line(gen.KindOf(kind), 1).Plain())
		if err != nil {
			panic(err)
		}
		l.PushBack(oneHeader(h, 0))
		return "push"
	}}
}

func init() {
	hs := map[string]mon.Handler{}
	var ev []string
	for _, k := range clonees {
		k := k
		ev = append(ev, "copies of "+k.name)
		hs["copy:"+k.name] = func(c *mon.C, data []byte) {
			g := gen.New(c.RNG())
			seed := g.R.Uint64()
			same := func() *gen.G { return gen.New(rand.New(rand.NewPCG(seed, 1))) }
			var hist []string
			c.Guard("copying "+k.name, func() {
				x := k.mk(same())
				before := k.see(x)
				if k.copy == nil {
					k.copy, k.mkCopy = func(x any) any { return x.(cloner).Clone() }, k.mk
				}
				y := k.copy(x)
				if y == nil {
					c.Failf("nil:"+k.name, "the copy of %v is nil", before)
					return
				}
				// twins never share anything with the two values under test
				tx, ty := k.mk(same()), k.mkCopy(same())
				hist = append(hist, strings.Join(before, " | "))
				check := func(what string) bool {
					for _, p := range []struct {
						n    string
						v, t any
					}{{"original", x, tx}, {"copy", y, ty}} {
						if d := diff(k.see(p.t), k.see(p.v)); d != "" {
							c.Failf(what+":"+p.n+":"+k.name, "the %s differs from the same value that has never been copied, %s\nafter %s", p.n, d, strings.Join(hist, "; "))
							return false
						}
					}
					return true
				}
				if !check("copying") {
					return
				}
				for n := 1 + g.N(8); n > 0; n-- {
					s := g.R.Uint64()
					eg := func() *gen.G { return gen.New(rand.New(rand.NewPCG(s, 2))) }
					edit := k.edit
					if g.P(8) { // everything that can be set, and in everything it hands out
						edit = func(g *gen.G, x any) string { return fmt.Sprint(scramble(g, x)) }
						c.Count("objects edited throughout", 1)
					}
					if g.P(2) {
						hist = append(hist, "original: "+edit(eg(), x))
						edit(eg(), tx)
					} else {
						hist = append(hist, "copy: "+edit(eg(), y))
						edit(eg(), ty)
					}
					c.Count("edits", 1)
					if !check("editing") {
						return
					}
				}
				c.Key(strings.Join(hist, ";"))
				if c.WantSample() {
					c.Sample("%s: %s", k.name, strings.Join(hist, "; "))
				}
			})
			if c.Failed() && len(hist) > 0 {
				return
			}
			c.Count("copies of "+k.name, 1)
		}
	}
	mon.Register(&mon.Prop{
		ID:       "S28",
		Quick:    5,
		Rule:     "a case is one generated value of every kind that can be copied, its copy, and 1 to 8 random edits to the original or the copy; after each, everything that can be seen of both is compared with twins that never were copied; distinct cases are distinct edit histories",
		Handlers: hs,
		Plan: func(p *mon.Plan) {
			for _, k := range clonees {
				p.Seeds("copy:"+k.name, p.N(5000, 400000))
			}
		},
		MinEvents: append(ev, "edits", "objects edited throughout"),
	})
}
