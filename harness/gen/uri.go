package gen

import (
	"fmt"
	"strings"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
)

// Param is a parameter of a URI or header.
type Param struct {
	Name string
	Val  string // as written, without the quotes of a quoted string
	Kind int
}

const (
	Flag = iota
	Tok
	Quo
)

// URI models any URI the library knows.
type URI struct {
	Scheme   string // sip, sips, tel or another scheme
	HasUser  bool
	User     string
	Pass     string
	Host     string
	HostType int
	Port     int
	Params   []Param
	Hdrs     []Param
	Number   string // tel
	Global   bool
	Opaque   string // other schemes: all after the colon
}

func (u *URI) IsSIP() bool { return u.Scheme == "sip" || u.Scheme == "sips" }

// Text is the URI as written.
func (u *URI) Text() string {
	var b strings.Builder
	b.WriteString(u.Scheme + ":")
	switch {
	case u.IsSIP():
		if u.HasUser {
			b.WriteString(u.User)
			if u.Pass != "" {
				b.WriteString(":" + u.Pass)
			}
			b.WriteString("@")
		}
		b.WriteString(u.Host)
		if u.Port >= 0 {
			fmt.Fprintf(&b, ":%d", u.Port)
		}
		for _, p := range u.Params {
			b.WriteString(";" + p.Name)
			if p.Kind != Flag {
				b.WriteString("=" + p.Val)
			}
		}
		for i, h := range u.Hdrs {
			if i == 0 {
				b.WriteString("?")
			} else {
				b.WriteString("&")
			}
			b.WriteString(h.Name + "=" + h.Val)
		}
	case u.Scheme == "tel":
		if u.Global {
			b.WriteString("+")
		}
		b.WriteString(u.Number)
		for _, p := range u.Params {
			b.WriteString(";" + p.Name)
			if p.Kind != Flag {
				b.WriteString("=" + p.Val)
			}
		}
	default:
		b.WriteString(u.Opaque)
	}
	return b.String()
}

// Want lists what the accessors of the parsed URI should report.
func (u *URI) Want() []string {
	var o []string
	add := func(f string, a ...any) { o = append(o, fmt.Sprintf(f, a...)) }
	switch {
	case u.IsSIP():
		add("sipuri scheme=%s secure=%v", u.Scheme, u.Scheme == "sips")
		add("user=%s pass=%s", u.User, u.Pass)
		add("host=%s port=%d type=%s", u.Host, u.Port, []string{"name", "ip", "ip"}[u.HostType])
		for _, p := range u.Params {
			add("uparam %s=%s flag=%v", p.Name, p.Val, p.Kind == Flag)
		}
		for _, h := range u.Hdrs {
			add("uheader %s=%s", h.Name, h.Val)
		}
		get := func(n string) string {
			for _, p := range u.Params {
				if strings.EqualFold(p.Name, n) {
					return p.Val
				}
			}
			return ""
		}
		has := func(n string) bool {
			for _, p := range u.Params {
				if strings.EqualFold(p.Name, n) {
					return true
				}
			}
			return false
		}
		ttl := -1
		if has("ttl") {
			fmt.Sscanf(get("ttl"), "%d", &ttl)
		}
		add("typed transport=%s maddr=%s ttl=%d method=%s user=%s lr=%v", get("transport"), get("maddr"), ttl, get("method"), get("user"), has("lr"))
	case u.Scheme == "tel":
		add("tel global=%v number=%s", u.Global, u.Number)
		for _, p := range u.Params {
			add("uparam %s=%s", p.Name, p.Val)
		}
	default:
		add("uri scheme=%s text=%s", u.Scheme, u.Text())
	}
	return o
}

// ObsURI reads a URI through its accessors, in the form of URI.Want.
func ObsURI(u address.URI) []string {
	var o []string
	add := func(f string, a ...any) { o = append(o, fmt.Sprintf(f, a...)) }
	switch t := u.(type) {
	case *address.SipURIImpl:
		add("sipuri scheme=%s secure=%v", t.GetScheme(), t.IsSecure())
		add("user=%s pass=%s", t.GetUser(), t.GetUserPassword())
		typ := "?"
		if hp := t.GetHostPort(); hp != nil && hp.GetHost() != nil {
			switch h := hp.GetHost(); {
			case h.IsHostName() && !h.IsIPAddress():
				typ = "name"
			case h.IsIPAddress() && !h.IsHostName():
				typ = "ip"
			}
			if hp.GetPort() != t.GetPort() || hp.HasPort() != (t.GetPort() != -1) {
				typ += " portmismatch"
			}
		}
		add("host=%s port=%d type=%s", t.GetHost(), t.GetPort(), typ)
		for e := t.GetParameterNames().Front(); e != nil; e = e.Next() {
			n := e.Value.(string)
			flag := false
			if nv := t.GetUriParms().GetNameValue(n); nv != nil {
				flag = nv.GetValue() == nil
			}
			x := ""
			if !t.HasParameter(n) {
				x = " absent!"
			}
			add("uparam %s=%s flag=%v%s", n, t.GetParameter(n), flag, x)
		}
		if q := t.GetHeaderNames(); q != nil {
			for e := q.Front(); e != nil; e = e.Next() {
				n := ""
				switch v := e.Value.(type) {
				case string:
					n = v
				case *core.NameValue:
					n = v.GetName()
				}
				add("uheader %s=%s", n, t.GetHeader(n))
			}
		}
		add("typed transport=%s maddr=%s ttl=%d method=%s user=%s lr=%v", t.GetTransportParam(), t.GetMAddrParam(), t.GetTTLParam(), t.GetMethodParam(), t.GetUserParam(), t.HasLrParam())
		if !t.IsSipURI() {
			add("not a sip uri")
		}
	case *address.TelURLImpl:
		add("tel global=%v number=%s", t.IsGlobal(), t.GetPhoneNumber())
		for e := t.GetParameterNames().Front(); e != nil; e = e.Next() {
			n := e.Value.(string)
			add("uparam %s=%s", n, t.GetParameter(n))
		}
		if t.GetScheme() != "tel" {
			add("scheme=%s", t.GetScheme())
		}
		if t.IsSipURI() {
			add("claims to be a sip uri")
		}
	case *address.URIImpl:
		add("uri scheme=%s text=%s", t.GetScheme(), t.String())
		if t.IsSipURI() {
			add("claims to be a sip uri")
		}
	case nil:
		add("no uri")
	default:
		add("unknown uri type %T", u)
	}
	return o
}

// esc makes text over a set of characters with some escaped ones.
func (g *G) esc(set string, min int) string {
	var b strings.Builder
	n := g.Len(min)
	if n > 60 {
		n = 60
	}
	for i := 0; i < n; i++ {
		if g.P(8) {
			b.WriteString("%" + g.Chars("0123456789ABCDEFabcdef", 2))
		} else if g.P(3) {
			b.WriteByte(set[g.N(len(set))])
		} else {
			b.WriteByte(alnum[g.N(len(alnum))])
		}
	}
	return b.String()
}

func distinct(g *G, used map[string]bool, mk func() string) string {
	for i := 0; ; i++ {
		n := mk()
		if i > 10 {
			n += g.Chars(lower, 3)
		}
		if !used[strings.ToLower(n)] {
			used[strings.ToLower(n)] = true
			return n
		}
	}
}

// URIOpt limits what a URI may contain.
type URIOpt struct {
	SIPOnly bool
	Bare    bool // may appear without angle brackets: no parameters, headers or , ; ? in it
	NoHdrs  bool
	// HostOnly: no characters that a comma or semicolon scanner could trip over
}

// URI makes any legal URI.
func (g *G) URI(o URIOpt) *URI {
	k := g.N(10)
	if o.SIPOnly || k < 7 {
		return g.SipURI(o)
	}
	if k < 9 {
		return g.TelURI(o)
	}
	u := &URI{Scheme: g.Pick("http", "https", "mailto", "urn", "cid", "im", "pres", "ftp", "x-a+b.c")}
	switch u.Scheme {
	case "http", "https", "ftp":
		h, _ := g.Host()
		u.Opaque = "//" + h
		if g.P(4) {
			u.Opaque += fmt.Sprint(":", g.Port())
		}
		u.Opaque += "/" + g.esc(unresv+"/:@&=+$", 0)
		if !o.Bare && g.P(3) {
			u.Opaque += g.esc(";/=,", 1)
		}
		if !o.Bare && g.P(3) {
			u.Opaque += "?" + g.esc(unresv+"/:@&=+$", 1)
		}
	case "urn":
		u.Opaque = "service:" + g.Word()
	default:
		u.Opaque = g.Word() + "@" + g.Label() + ".com"
	}
	return u
}

func (g *G) TelURI(o URIOpt) *URI {
	u := &URI{Scheme: "tel", Global: g.P(2), Port: -1}
	if u.Global {
		u.Number = g.Chars(digits+digits+"-.()", 1) + g.Chars(digits+"-.()", g.N(14))
	} else {
		set := digits + "-.()*"
		if !o.Bare {
			set += "#"
		}
		u.Number = g.Chars(set, 1+g.N(11))
	}
	if g.P(12) {
		u.Number += g.Chars(digits+"-.()", 10+g.N(120))
	}
	if o.Bare {
		return u
	}
	used := map[string]bool{}
	for n := g.Few(4); n > 0; n-- {
		nm := distinct(g, used, func() string { return g.Pick("isub", "postd", "phone-context", "ext", g.Name()) })
		p := Param{nm, "", Flag}
		if !g.P(6) {
			p.Kind, p.Val = Tok, g.Chars(tokChars, 1+g.N(8))
		}
		u.Params = append(u.Params, p)
	}
	return u
}

func (g *G) SipURI(o URIOpt) *URI {
	u := &URI{Scheme: "sip", Port: -1}
	if g.P(4) {
		u.Scheme = "sips"
	}
	u.HasUser = !g.P(4)
	if u.HasUser {
		set := unresv + "&=+$,;?/"
		if o.Bare {
			set = unresv + "&=+$/"
		}
		switch g.N(5) {
		case 0:
			u.User = "+" + g.Chars(digits, 1+g.N(11))
		default:
			u.User = g.esc(set, 1)
		}
		if g.P(4) {
			ps := unresv + "&=+$,"
			if o.Bare {
				ps = unresv + "&=+$"
			}
			u.Pass = g.esc(ps, 1)
		}
	}
	u.Host, u.HostType = g.Host()
	u.Port = g.Port()
	if o.Bare {
		return u
	}
	used := map[string]bool{}
	for n := g.Few(4); n > 0; n-- {
		nm := distinct(g, used, func() string {
			return g.Pick("transport", "user", "method", "ttl", "maddr", "lr", g.Name(), g.Name())
		})
		p := Param{nm, "", Tok}
		switch strings.ToLower(nm) {
		case "transport":
			p.Val = g.Pick("udp", "tcp", "tls", "sctp", g.Word())
		case "user":
			p.Val = g.Pick("phone", "ip", g.Word())
		case "method":
			p.Val = g.Pick(Methods...)
		case "ttl":
			p.Val = fmt.Sprint(g.Int(0, 255))
		case "maddr":
			p.Val, _ = g.Host()
		case "lr":
			p.Kind = Flag
		default:
			if g.P(3) {
				p.Kind = Flag
			} else {
				p.Val = g.esc(unresv+"[]/:&+$", 1)
			}
		}
		u.Params = append(u.Params, p)
	}
	if !o.NoHdrs && g.P(4) {
		used := map[string]bool{}
		for n := 1 + g.Few(3); n > 0; n-- {
			nm := distinct(g, used, func() string { return g.Pick("Subject", "Priority", "Call-ID", "X-"+g.Word(), g.Word(), "body") })
			u.Hdrs = append(u.Hdrs, Param{nm, g.esc(unresv+"[]/?:+$", 0), Tok})
		}
	}
	return u
}

// Build makes the URI through constructors and setters.
func (u *URI) Build() address.URI {
	switch {
	case u.IsSIP():
		s := address.NewSipURIImpl()
		if u.Scheme == "sips" {
			s.SetSecure(true)
		} else {
			s.SetScheme("sip")
		}
		if u.HasUser {
			s.SetUser(u.User)
			if u.Pass != "" {
				s.SetUserPassword(u.Pass)
			}
		}
		s.SetHost(core.NewHost(u.Host))
		if u.Port >= 0 {
			s.SetPort(u.Port)
		}
		for _, p := range u.Params {
			if p.Kind == Flag {
				s.SetUriParm(p.Name, nil)
			} else {
				s.SetUriParm(p.Name, p.Val)
			}
		}
		for _, h := range u.Hdrs {
			s.SetHeader(h.Name, h.Val)
		}
		return s
	case u.Scheme == "tel":
		t, n := address.NewTelURLImpl(), address.NewTelephoneNumber()
		t.SetTelephoneNumber(n)
		t.SetGlobal(u.Global)
		t.SetPhoneNumber(u.Number)
		for _, p := range u.Params {
			if p.Kind == Flag {
				n.SetParm(p.Name, nil)
			} else {
				t.SetParameter(p.Name, p.Val)
			}
		}
		return t
	}
	return address.NewURIImpl(u.Text())
}

// Addr models a name-addr or addr-spec.
type Addr struct {
	Display string // as written, without quotes
	Quoted  bool
	Bare    bool
	U       *URI
}

// Addr makes any legal address. bareOK: the bare form may be used.
func (g *G) Addr(bareOK bool, o URIOpt) *Addr {
	a := &Addr{}
	if bareOK && g.P(4) {
		a.Bare = true
		o.Bare = true
		a.U = g.URI(o)
		return a
	}
	a.U = g.URI(o)
	switch g.N(4) {
	case 0:
		a.Quoted = true
		a.Display = g.QText(1)
	case 1:
		a.Display = g.Token()
		for n := g.N(3); n > 0; n-- {
			a.Display += " " + g.Token()
		}
	}
	return a
}

// Wire is the address as a wire template.
func (a *Addr) Wire() string {
	if a.Bare {
		return a.U.Text()
	}
	switch {
	case a.Quoted:
		return `"` + a.Display + `"` + O + "<" + a.U.Text() + ">"
	case a.Display != "":
		return a.Display + S + "<" + a.U.Text() + ">"
	}
	return "<" + a.U.Text() + ">"
}

// Canon is the encoding expected for the address inside a header.
func (a *Addr) Canon() string {
	if a.Display != "" {
		return `"` + a.Display + `" <` + a.U.Text() + ">"
	}
	return "<" + a.U.Text() + ">"
}

func (a *Addr) Want() []string {
	o := []string{fmt.Sprintf("display=%s", a.Display)}
	return append(o, a.U.Want()...)
}

func ObsAddr(a address.Address) []string {
	if a == nil {
		return []string{"no address"}
	}
	o := []string{fmt.Sprintf("display=%s", a.GetDisplayName())}
	o = append(o, ObsURI(a.GetURI())...)
	if a.IsWildcard() {
		o = append(o, "wild card")
	}
	return o
}

func (a *Addr) Build() *address.AddressImpl {
	x := address.NewAddressImpl()
	x.SetURI(a.U.Build())
	if a.Display != "" {
		x.SetDisplayName(a.Display)
	}
	return x
}
