package props

import (
	"container/list"
	"fmt"
	"strconv"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
)

// authHeader is what challenges, credentials and authentication-info share.
type authHeader interface {
	header.Header
	GetParameter(string) string
	GetParameterNames() *list.List
	HasParameter(string) bool
	RemoveParameter(string)
	SetParameter(name, value string) error
	GetCNonce() string
	SetCNonce(string) error
	GetQop() string
	SetQop(string) error
	GetResponse() string
	SetResponse(string) error
	GetNonceCount() int
	SetNonceCount(int) error
}

// the typed accessors of one header kind: parameter name to setter and getter
type authAcc struct {
	set func(string) error
	get func() string
}

type authCase struct {
	name  string
	mk    func() authHeader
	typed func(h authHeader) map[string]authAcc
	base  func(h authHeader) *header.Authentication // nil: no scheme
}

func challengeAcc(a *header.Authentication) map[string]authAcc {
	return map[string]authAcc{
		"realm":     {a.SetRealm, a.GetRealm},
		"nonce":     {a.SetNonce, a.GetNonce},
		"cnonce":    {a.SetCNonce, a.GetCNonce},
		"opaque":    {a.SetOpaque, a.GetOpaque},
		"username":  {a.SetUsername, a.GetUsername},
		"response":  {a.SetResponse, a.GetResponse},
		"qop":       {a.SetQop, a.GetQop},
		"algorithm": {a.SetAlgorithm, a.GetAlgorithm},
		"domain":    {a.SetDomain, a.GetDomain},
		"uri": {func(s string) error { return a.SetURI(address.NewURIImpl(s)) }, func() string {
			if u := a.GetURI(); u != nil {
				return u.String()
			}
			return ""
		}},
		"stale": {func(s string) error { a.SetStale(s == "true"); return nil }, func() string { return fmt.Sprint(a.IsStale()) }},
	}
}

var authCases = []authCase{
	{"WWW-Authenticate", func() authHeader { return header.NewWWWAuthenticate() },
		func(h authHeader) map[string]authAcc {
			return challengeAcc(&h.(*header.WWWAuthenticate).Authentication)
		},
		func(h authHeader) *header.Authentication { return &h.(*header.WWWAuthenticate).Authentication }},
	{"Proxy-Authenticate", func() authHeader { return header.NewProxyAuthenticate() },
		func(h authHeader) map[string]authAcc {
			return challengeAcc(&h.(*header.ProxyAuthenticate).Authentication)
		},
		func(h authHeader) *header.Authentication { return &h.(*header.ProxyAuthenticate).Authentication }},
	{"Authorization", func() authHeader { return header.NewAuthorization() },
		func(h authHeader) map[string]authAcc { return challengeAcc(&h.(*header.Authorization).Authentication) },
		func(h authHeader) *header.Authentication { return &h.(*header.Authorization).Authentication }},
	{"Proxy-Authorization", func() authHeader { return header.NewProxyAuthorization() },
		func(h authHeader) map[string]authAcc {
			return challengeAcc(&h.(*header.ProxyAuthorization).Authentication)
		},
		func(h authHeader) *header.Authentication { return &h.(*header.ProxyAuthorization).Authentication }},
	{"Authentication-Info", func() authHeader { return header.NewAuthenticationInfo() },
		func(h authHeader) map[string]authAcc {
			a := h.(*header.AuthenticationInfo)
			return map[string]authAcc{
				"nextnonce": {a.SetNextNonce, a.GetNextNonce},
				"cnonce":    {a.SetCNonce, a.GetCNonce},
				"qop":       {a.SetQop, a.GetQop},
				"rspauth":   {a.SetResponse, a.GetResponse},
			}
		}, nil},
}

// quotedAlways are the parameters whose values are quoted strings.
var quotedAlways = map[string]bool{"realm": true, "nonce": true, "cnonce": true, "opaque": true, "username": true, "domain": true, "uri": true, "nextnonce": true, "response": true, "rspauth": true}

type authParam struct {
	name, val string
	loose     bool // was not a token once: may stay quoted
}

// splitAuth reads the encoding of authentication parameters.
func splitAuth(s string) (ps []authParam, quoted []bool, err string) {
	for s != "" {
		i := strings.Index(s, "=")
		if i <= 0 || !gen.IsTok(s[:i]) {
			return nil, nil, "no parameter at " + s
		}
		p := authParam{name: s[:i]}
		s = s[i+1:]
		if strings.HasPrefix(s, `"`) {
			j := 1
			for ; j < len(s) && s[j] != '"'; j++ {
				if s[j] == '\\' {
					j++
				}
			}
			if j >= len(s) {
				return nil, nil, "open quoted string " + s
			}
			p.val = s[1:j]
			s = s[j+1:]
			quoted = append(quoted, true)
		} else {
			j := strings.IndexByte(s, ',')
			if j < 0 {
				j = len(s)
			}
			p.val = s[:j]
			if !gen.IsTok(p.val) {
				return nil, nil, "unquoted value " + p.val
			}
			s = s[j:]
			quoted = append(quoted, false)
		}
		ps = append(ps, p)
		if s != "" {
			if s[0] != ',' {
				return nil, nil, "no comma at " + s
			}
			s = strings.TrimLeft(s[1:], " ")
			if s == "" {
				return nil, nil, "trailing comma"
			}
		}
	}
	return
}

func authFind(ps []authParam, n string) int {
	for i, p := range ps {
		if strings.EqualFold(p.name, n) {
			return i
		}
	}
	return -1
}

// authValue is a legal value of a standard parameter.
func authValue(g *gen.G, n string) string {
	switch n {
	case "nc":
		return fmt.Sprintf("%08x", g.R.Uint32()>>uint(g.N(32)))
	case "stale":
		return g.Pick("true", "false")
	case "algorithm":
		return g.Pick("MD5", "MD5-sess", "SHA-256", g.Token())
	case "qop":
		return g.Pick("auth", "auth-int", "auth,auth-int", g.Token())
	case "response", "rspauth":
		return g.HexN(32)
	case "uri":
		return g.SipURI(gen.URIOpt{}).Text()
	case "domain":
		return g.SipURI(gen.URIOpt{NoHdrs: true}).Text()
	}
	return g.Pick(g.HexN(1+g.N(40)), g.QText(1), "YWJj+/==", "a b", "a,b", "a=b", g.Token(), "\\\"")
}

// authCheck compares a header with the model in every way to read it.
func authCheck(c *mon.C, g *gen.G, ac *authCase, h authHeader, scheme string, ps []authParam, ordered bool, how string) bool {
	fail := func(sig, f string, a ...any) bool {
		c.Failf(sig+":"+ac.name, "%s\nafter %s\nheader %q", fmt.Sprintf(f, a...), how, h.String())
		return false
	}
	if ac.base != nil {
		if s := ac.base(h).GetScheme(); s != scheme {
			return fail("scheme", "scheme %q, expected %q", s, scheme)
		}
	}
	ns := names(h.GetParameterNames())
	if len(ns) != len(ps) {
		return fail("names", "parameters %q, expected %v", ns, ps)
	}
	for i, p := range ps {
		if ordered && ns[i] != p.name {
			return fail("names", "parameters %q, expected %v", ns, ps)
		}
		n := g.Pick(p.name, strings.ToUpper(p.name), strings.ToLower(p.name))
		if got := h.GetParameter(n); got != p.val || !h.HasParameter(n) {
			return fail("value", "parameter %s reads %q (present %v), expected %q", n, got, h.HasParameter(n), p.val)
		}
	}
	val := func(n string) (string, bool) {
		if i := authFind(ps, n); i >= 0 {
			return ps[i].val, true
		}
		return "", false
	}
	for n, a := range ac.typed(h) {
		want, ok := val(n)
		if n == "stale" {
			want = fmt.Sprint(want == "true")
		}
		if n == "uri" && !ok {
			continue
		}
		if got := a.get(); got != want {
			return fail("accessor-"+n, "accessor of %s gives %q, expected %q", n, got, want)
		}
	}
	nc := -1
	if s, ok := val("nc"); ok {
		x, _ := strconv.ParseUint(s, 16, 64)
		nc = int(x)
	}
	if got := h.GetNonceCount(); got != nc {
		return fail("nonce-count", "nonce count %d, expected %d", got, nc)
	}
	// the encoding
	text := h.String()
	body, ok := strings.CutPrefix(text, ac.name+": ")
	if ac.base != nil && ok {
		body, ok = strings.CutPrefix(body, scheme+" ")
	}
	body, ok2 := strings.CutSuffix(body, "\r\n")
	if !ok || !ok2 {
		return fail("encoding", "encoding lacks name, scheme or line end")
	}
	es, quoted, bad := splitAuth(body)
	if bad != "" {
		return fail("encoding", "malformed encoding: %s", bad)
	}
	if len(es) != len(ps) {
		return fail("encoding", "%d parameters encoded, expected %d", len(es), len(ps))
	}
	for i, e := range es {
		if ns[i] != e.name {
			return fail("encoding", "parameters encoded in another order than reported %q", ns)
		}
		j := authFind(ps, e.name)
		if j < 0 || ps[j].val != e.val {
			return fail("encoding", "parameter %s encoded as %q", e.name, e.val)
		}
		low := strings.ToLower(e.name)
		switch {
		case quotedAlways[low] && !quoted[i]:
			return fail("quoting", "the value of %s is not quoted", e.name)
		case (low == "nc" || low == "stale") && quoted[i]:
			return fail("quoting", "the value of %s is quoted", e.name)
		}
	}
	if len(ps) == 0 {
		return true
	}
	// and back
	y, err := parseLine(strings.TrimSuffix(text, "\r\n"))
	if err != nil {
		return fail("reparse", "the encoding is rejected: %v", err)
	}
	if l, ok := y.(header.Lister); ok && l.Front() != nil {
		y, _ = l.Front().Value.(header.Header)
	}
	if y == nil || diff(gen.Observe(h), gen.Observe(y)) != "" {
		return fail("reparse", "the encoding parses to other values, %s", diff(gen.Observe(h), gen.Observe(y)))
	}
	loose := false
	for _, p := range ps {
		loose = loose || p.loose
	}
	if s := y.String(); s != text && !loose { // a value may stay quoted once it had to be
		return fail("reencode", "the encoding parses and encodes to %q", s)
	}
	return true
}

var authStd = []string{"realm", "nonce", "cnonce", "opaque", "username", "uri", "response", "qop", "algorithm", "domain", "nc", "stale"}
var infoStd = []string{"nextnonce", "cnonce", "qop", "rspauth", "nc"}

// authWireCase makes a line and its model.
func authWireCase(g *gen.G, ac *authCase) (line, scheme string, ps []authParam) {
	std := authStd
	if ac.base == nil {
		std = infoStd
	} else {
		scheme = g.Pick("Digest", "Digest", "digest", "Basic", g.Token())
	}
	var l []string
	recaseName := g.P(4)
	for _, i := range g.R.Perm(len(std)) {
		if g.P(3) {
			continue
		}
		n := std[i]
		v := authValue(g, n)
		name := n
		if recaseName {
			name = recase(g, n)
		}
		ps = append(ps, authParam{name: name, val: v})
		if n == "nc" || n == "stale" || gen.IsTok(v) && g.P(3) {
			l = append(l, name+"="+v)
		} else {
			l = append(l, name+`="`+v+`"`)
		}
	}
	for n := g.N(3); n > 0 || len(ps) == 0; n-- {
		name := "x-" + g.Name()
		if authFind(ps, name) >= 0 {
			continue
		}
		v := g.Token()
		q := g.P(2)
		if q {
			v = g.QText(0)
		}
		at := g.N(len(ps) + 1)
		ps = append(ps[:at:at], append([]authParam{{name, v, true}}, ps[at:]...)...)
		w := name + "=" + v
		if q {
			w = name + `="` + v + `"`
		}
		l = append(l[:at:at], append([]string{w}, l[at:]...)...)
	}
	sep := g.Pick(",", ", ", " , ", ",\t")
	line = ac.name + ": " + strings.TrimLeft(scheme+" ", " ") + strings.Join(l, sep)
	return
}

func authParse(c *mon.C, line string) authHeader {
	h, err := parseLine(line)
	if err != nil || h == nil {
		c.Failf("rejected", "well-formed header rejected: %v\n%q", err, line)
		return nil
	}
	if l, ok := h.(header.Lister); ok {
		if l.Len() != 1 {
			c.Failf("list", "%d elements from %q", l.Len(), line)
			return nil
		}
		h, _ = l.Front().Value.(header.Header)
	}
	a, ok := h.(authHeader)
	if !ok {
		c.Failf("type", "%q gives %T", line, h)
		return nil
	}
	return a
}

func init() {
	wire := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		ac := &authCases[g.N(len(authCases))]
		line, scheme, ps := authWireCase(g, ac)
		h := authParse(c, line)
		if h == nil || !authCheck(c, g, ac, h, scheme, ps, true, "parsing "+line) {
			return
		}
		c.Key(line)
		c.Count("parsed "+ac.name, 1)
		if c.WantSample() {
			c.Sample("%q -> %q", line, h.String())
		}
	}
	edit := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		ac := &authCases[g.N(len(authCases))]
		var h authHeader
		var ps []authParam
		scheme, how := "", ""
		if g.P(2) {
			h = ac.mk()
			how = "making it"
			if ac.base != nil {
				scheme = "Digest"
				ac.base(h).SetScheme(scheme)
			}
		} else {
			var line string
			line, scheme, ps = authWireCase(g, ac)
			if h = authParse(c, line); h == nil {
				return
			}
			how = "parsing " + line
		}
		std := authStd
		if ac.base == nil {
			std = infoStd
		}
		put := func(n, v string) {
			if i := authFind(ps, n); i >= 0 {
				ps[i].val = v
				ps[i].loose = ps[i].loose || !gen.IsTok(v)
			} else {
				ps = append(ps, authParam{n, v, !gen.IsTok(v)})
			}
		}
		for k := 1 + g.N(10); k > 0; k-- {
			var err error
			op := ""
			n := std[g.N(len(std))]
			v := authValue(g, n)
			switch g.N(8) {
			case 0, 1, 2:
				op = fmt.Sprintf("typed setter of %s to %q", n, v)
				if n == "nc" {
					x, _ := strconv.ParseUint(v, 16, 64)
					err = h.SetNonceCount(int(x))
				} else {
					err = ac.typed(h)[n].set(v)
				}
				put(n, v)
				c.Count("typed setters", 1)
			case 3, 4:
				nm := g.Pick(n, n, recase(g, n))
				op = fmt.Sprintf("SetParameter(%s, %q)", nm, v)
				err = h.SetParameter(nm, v)
				put(nm, v)
				c.Count("named setters", 1)
			case 5:
				nm := g.Pick("x-a", "x-b", "X-C", "ext", "x-"+g.Name())
				v = g.Pick(g.Token(), g.QText(0), "")
				op = fmt.Sprintf("SetParameter(%s, %q)", nm, v)
				err = h.SetParameter(nm, v)
				put(nm, v)
				c.Count("extension parameters", 1)
			case 6:
				nm := n
				if len(ps) > 0 && g.P(2) {
					nm = ps[g.N(len(ps))].name
				}
				nm = g.Pick(nm, recase(g, nm))
				op = "RemoveParameter(" + nm + ")"
				h.RemoveParameter(nm)
				if i := authFind(ps, nm); i >= 0 {
					ps = append(ps[:i:i], ps[i+1:]...)
				}
				c.Count("removals", 1)
			case 7:
				if ac.base == nil {
					continue
				}
				scheme = g.Pick("Digest", "Basic", "NTLM", g.Token())
				op = "SetScheme(" + scheme + ")"
				ac.base(h).SetScheme(scheme)
			}
			how += "; " + op
			if err != nil {
				c.Failf("setter:"+ac.name, "a legal value is rejected: %v\nafter %s", err, how)
				return
			}
			if !authCheck(c, g, ac, h, scheme, ps, false, how) {
				return
			}
		}
		c.Key(how)
		c.Count("edited "+ac.name, 1)
	}
	mon.Register(&mon.Prop{
		ID:    "S25",
		Quick: 4,
		Rule:  "a case is one authentication header (parsed from generated text in any parameter order and quoting, or made from scratch) and a sequence of setter calls; it counts when after each step scheme, every parameter, every typed accessor and the independently read encoding with its quoting were compared with a parameter-map model, and the encoding was parsed back",
		Handlers: map[string]mon.Handler{
			"wire": wire,
			"edit": edit,
		},
		Plan: func(p *mon.Plan) {
			p.Seeds("wire", p.N(60000, 3000000))
			p.Seeds("edit", p.N(40000, 2000000))
		},
		MinEvents: []string{"typed setters", "named setters", "extension parameters", "removals", "parsed Authorization", "parsed WWW-Authenticate", "parsed Authentication-Info", "edited Proxy-Authorization", "edited Proxy-Authenticate"},
	})
}
