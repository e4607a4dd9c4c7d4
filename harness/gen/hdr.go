package gen

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
)

// Val is one header value: what to write, what to expect, how to build it.
type Val struct {
	Body  string   // wire template
	Canon string   // expected encoding of the body
	Want  []string // expected observations (see Observe)
	// Build makes the same header through constructors and setters; errs
	// collects the errors the setters reported.
	Build func() (header.Header, []error)
}

// Kind is a kind of header.
type Kind struct {
	Name    string // as the library spells it
	Compact string
	List    bool // several values may be comma separated
	NoComma bool // a list whose values are written one per line
	Single  bool // may occur once only
	Ext     bool // a kind the library does not know
	Gen     func(g *G) *Val
}

func q32(s string) float32 { f, _ := strconv.ParseFloat(s, 32); return float32(f) }
func f32(f float32) string { return strconv.FormatFloat(float64(f), 'f', -1, 32) }

// ---- parameters

func pWire(ps []Param) string {
	var b strings.Builder
	for _, p := range ps {
		b.WriteString(O + ";" + O + p.Name)
		switch p.Kind {
		case Tok:
			b.WriteString(O + "=" + O + p.Val)
		case Quo:
			b.WriteString(O + "=" + O + `"` + p.Val + `"`)
		}
	}
	return b.String()
}

func pCanon(ps []Param) string {
	var b strings.Builder
	for _, p := range ps {
		b.WriteString(";" + p.Name + "=")
		if p.Kind == Quo {
			b.WriteString(`"` + p.Val + `"`)
		} else {
			b.WriteString(p.Val)
		}
	}
	return b.String()
}

func pWant(ps []Param) []string {
	var o []string
	for _, p := range ps {
		o = append(o, fmt.Sprintf("param %s=%s quoted=%v", p.Name, p.Val, p.Kind == Quo))
	}
	return o
}

type paramHolder interface {
	SetParameter(name, value string) error
	SetQuotedParameter(name, value string)
}

// pBuild sets the parameters of a header, through the setter made for the
// parameter where the header has one.
func pBuild(h paramHolder, ps []Param) []error {
	var errs []error
	for _, p := range ps {
		if ok, err := typedParam(h, p); ok {
			errs = append(errs, errl(err)...)
		} else if p.Kind == Quo {
			h.SetQuotedParameter(p.Name, p.Val)
		} else if err := h.SetParameter(p.Name, p.Val); err != nil {
			errs = append(errs, err)
		}
	}
	return errs
}

// typedParam sets a parameter through its own setter, if there is one that
// gives exactly the wanted text.
func typedParam(h any, p Param) (bool, error) {
	switch p.Name {
	case "tag":
		if t, ok := h.(interface{ SetTag(string) error }); ok && p.Kind == Tok {
			return true, t.SetTag(p.Val)
		}
	case "q":
		if t, ok := h.(interface{ SetQValue(float32) error }); ok && f32(q32(p.Val)) == p.Val {
			return true, t.SetQValue(q32(p.Val))
		}
	case "expires":
		if t, ok := h.(interface{ SetExpires(int) error }); ok {
			n, err := strconv.Atoi(p.Val)
			if err == nil && strconv.Itoa(n) == p.Val {
				return true, t.SetExpires(n)
			}
		}
	case "purpose":
		if t, ok := h.(interface{ SetPurpose(string) error }); ok && p.Kind == Tok {
			return true, t.SetPurpose(p.Val)
		}
	case "message":
		if t, ok := h.(interface{ SetErrorMessage(string) error }); ok && p.Kind == Quo {
			return true, t.SetErrorMessage(p.Val)
		}
	}
	return false, nil
}

func pGet(ps []Param, name string) (Param, bool) {
	for _, p := range ps {
		if strings.EqualFold(p.Name, name) {
			return p, true
		}
	}
	return Param{}, false
}

// obsParams reads the parameters of a header.
func obsParams(l *core.NameValueList) []string {
	var o []string
	if l == nil {
		return nil
	}
	for e := l.Front(); e != nil; e = e.Next() {
		nv := e.Value.(*core.NameValue)
		v, _ := nv.GetValue().(string)
		x := ""
		if g := l.GetParameter(nv.GetName()); g != v {
			x = fmt.Sprintf(" lookup gives %q!", g)
		}
		o = append(o, fmt.Sprintf("param %s=%s quoted=%v%s", nv.GetName(), v, nv.IsValueQuoted(), x))
	}
	return o
}

// ObsOthers reads the parameters of a header other than the named one.
func ObsOthers(l *core.NameValueList, name string) []string {
	var o []string
	for _, p := range obsParams(l) {
		if n, _, _ := strings.Cut(p[len("param "):], "="); !strings.EqualFold(n, name) {
			o = append(o, p)
		}
	}
	return o
}

// HParams makes header parameters; special may supply named ones.
func (g *G) HParams(max int, special ...func(g *G) Param) []Param {
	used := map[string]bool{}
	var ps []Param
	sp := append([]func(g *G) Param(nil), special...)
	for n := g.Few(max + 1); n > 0; n-- {
		if len(sp) > 0 && g.P(2) {
			i := g.N(len(sp))
			p := sp[i](g)
			sp = append(sp[:i:i], sp[i+1:]...)
			if !used[strings.ToLower(p.Name)] {
				used[strings.ToLower(p.Name)] = true
				if g.P(8) { // names of parameters have no letter case
					p.Name = g.mixed(p.Name)
				}
				ps = append(ps, p)
			}
			continue
		}
		nm := distinct(g, used, func() string {
			if g.P(10) { // one that means something in another header
				n := reservedNames[g.N(len(reservedNames))]
				for _, f := range special {
					if f(g).Name == n {
						n = "x" + g.Word()
					}
				}
				return n
			}
			for {
				n := g.Name()
				if !reserved[strings.ToLower(n)] {
					return n
				}
			}
		})
		p := Param{Name: nm}
		switch g.N(4) {
		case 0:
			p.Kind = Flag
		case 1:
			p.Kind = Quo
			p.Val = g.QText(0)
		default:
			p.Kind = Tok
			p.Val = g.Token()
		}
		ps = append(ps, p)
	}
	return ps
}

// mixed respells a name in other letters.
func (g *G) mixed(n string) string {
	switch g.N(3) {
	case 0:
		return strings.ToUpper(n)
	case 1:
		return strings.ToUpper(n[:1]) + n[1:]
	}
	b := []byte(n)
	for i := range b {
		if g.P(2) {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
	}
	return string(b)
}

// parameter names with a meaning of their own in some header
var reserved = map[string]bool{"q": true, "expires": true, "tag": true, "branch": true, "received": true, "maddr": true, "ttl": true, "rport": true,
	"id": true, "purpose": true, "cause": true, "text": true, "handling": true, "charset": true, "duration": true, "reason": true, "retry-after": true,
	"message": true, "realm": true, "nonce": true, "cnonce": true, "uri": true, "qop": true, "nc": true, "opaque": true, "stale": true, "domain": true,
	"algorithm": true, "username": true, "response": true, "nextnonce": true, "rspauth": true, "lr": true, "nonce-count": true}

var reservedNames = func() []string {
	var l []string
	for n := range reserved {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}()

func tokParam(name string) func(g *G) Param {
	return func(g *G) Param { return Param{name, g.Token(), Tok} }
}
func quoParam(name string) func(g *G) Param {
	return func(g *G) Param { return Param{name, g.QText(1), Quo} }
}
func numParam(name string, lo, hi int) func(g *G) Param {
	return func(g *G) Param { return Param{name, strconv.Itoa(g.Int(lo, hi)), Tok} }
}
func qParam(g *G) Param { return Param{"q", g.QVal(), Tok} }

// ---- observation

func add(o *[]string, f string, a ...any) { *o = append(*o, fmt.Sprintf(f, a...)) }

// Observe reads a header through its accessors.
func Observe(h header.Header) []string {
	var o []string
	if h == nil {
		return []string{"nil header"}
	}
	if l, ok := h.(header.Lister); ok {
		add(&o, "list of %d", l.Len())
		for e := l.Front(); e != nil; e = e.Next() {
			eh, ok := e.Value.(header.Header)
			if !ok {
				add(&o, "element %T", e.Value)
				continue
			}
			o = append(o, Observe(eh)...)
		}
		return o
	}
	params := func(l *core.NameValueList) { o = append(o, obsParams(l)...) }
	switch t := h.(type) {
	case *header.From:
		add(&o, "From tag=%s has=%v dn=%s", t.GetTag(), t.HasTag(), t.GetDisplayName())
		o = append(o, ObsAddr(t.GetAddress())...)
		params(t.GetParameters())
	case *header.To:
		add(&o, "To tag=%s has=%v dn=%s", t.GetTag(), t.HasTag(), t.GetDisplayName())
		o = append(o, ObsAddr(t.GetAddress())...)
		params(t.GetParameters())
	case *header.Contact:
		add(&o, "Contact q=%v has=%v expires=%d wild=%v", t.GetQValue(), t.HasQValue(), t.GetExpires(), t.GetWildCardFlag())
		o = append(o, ObsAddr(t.GetAddress())...)
		params(t.GetParameters())
	case *header.ReplyTo:
		add(&o, "ReplyTo dn=%s", t.GetDisplayName())
		o = append(o, ObsAddr(t.GetAddress())...)
		params(t.GetParameters())
	case *header.ReferTo:
		add(&o, "ReferTo")
		o = append(o, ObsAddr(t.GetAddress())...)
		params(t.GetParameters())
	case *header.Route:
		add(&o, "Route")
		o = append(o, ObsAddr(t.GetAddress())...)
		params(t.GetParameters())
	case *header.RecordRoute:
		add(&o, "RecordRoute")
		o = append(o, ObsAddr(t.GetAddress())...)
		params(t.GetParameters())
	case *header.Via:
		add(&o, "Via version=%s transport=%s name=%s", t.GetProtocolVersion(), strings.ToUpper(t.GetTransport()), t.GetProtocol())
		add(&o, "sent-by %s port=%d has=%v", t.GetHost(), t.GetPort(), t.HasPort())
		add(&o, "branch=%s received=%s maddr=%s ttl=%d", t.GetBranch(), t.GetReceived(), t.GetMAddr(), t.GetTTL())
		add(&o, "comment=%s has=%v", t.GetComment(), t.HasComment())
		params(t.GetParameters())
	case *header.CSeq:
		add(&o, "CSeq %d %s", t.GetSequenceNumber(), t.GetMethod())
	case *header.CallID:
		add(&o, "CallID %s", t.GetCallId())
		if c := t.GetCallIdentifer(); c != nil {
			add(&o, "local=%s host=%s", c.GetLocalId(), c.GetHost())
		}
	case *header.MaxForwards:
		add(&o, "MaxForwards %d", t.GetMaxForwards())
		if t.HasReachedZero() != (t.GetMaxForwards() == 0) {
			add(&o, "zero=%v", t.HasReachedZero())
		}
	case *header.ContentLength:
		add(&o, "ContentLength %d", t.GetContentLength())
	case *header.Expires:
		add(&o, "Expires %d", t.GetExpires())
	case *header.MinExpires:
		add(&o, "MinExpires %d", t.GetExpires())
	case *header.RSeq:
		add(&o, "RSeq %d", t.GetSequenceNumber())
	case *header.RAck:
		add(&o, "RAck %d %d %s", t.GetRSeqNumber(), t.GetCSeqNumber(), t.GetMethod())
	case *header.MimeVersion:
		add(&o, "MimeVersion %d.%d", t.GetMajorVersion(), t.GetMinorVersion())
	case *header.Allow:
		add(&o, "Allow %s", t.GetMethod())
	case *header.AllowEvents:
		add(&o, "AllowEvents %s", t.GetEventType())
	case *header.Require:
		add(&o, "Require %s", t.GetOptionTag())
	case *header.ProxyRequire:
		add(&o, "ProxyRequire %s", t.GetOptionTag())
	case *header.Supported:
		add(&o, "Supported %s", t.GetOptionTag())
	case *header.Unsupported:
		add(&o, "Unsupported %s", t.GetOptionTag())
	case *header.ContentEncoding:
		add(&o, "ContentEncoding %s", t.GetEncoding())
	case *header.ContentLanguage:
		add(&o, "ContentLanguage %s %s", t.GetLanguageTag(), t.GetContentLanguage())
	case *header.Subject:
		add(&o, "Subject %s", t.GetSubject())
	case *header.Organization:
		add(&o, "Organization %s", t.GetOrganization())
	case *header.Priority:
		add(&o, "Priority %s", t.GetPriority())
	case *header.Server:
		add(&o, "Server")
		if l := t.GetProduct(); l != nil {
			for e := l.Front(); e != nil; e = e.Next() {
				add(&o, "product %v", e.Value)
			}
		}
	case *header.UserAgent:
		add(&o, "UserAgent")
		if l := t.GetProduct(); l != nil {
			for e := l.Front(); e != nil; e = e.Next() {
				add(&o, "product %v", e.Value)
			}
		}
	case *header.Date:
		if d := t.GetDate(); d == nil {
			add(&o, "Date none")
		} else {
			add(&o, "Date %d", d.Unix())
		}
	case *header.TimeStamp:
		add(&o, "TimeStamp %v delay=%v has=%v", t.GetTimeStamp(), t.GetDelay(), t.HasDelay())
	case *header.RetryAfter:
		add(&o, "RetryAfter %d comment=%s has=%v duration=%d", t.GetRetryAfter(), t.GetComment(), t.HasComment(), t.GetDuration())
		params(t.GetParameters())
	case *header.SubscriptionState:
		add(&o, "SubscriptionState %s reason=%s expires=%d retry-after=%d", t.GetState(), t.GetReasonCode(), t.GetExpires(), t.GetRetryAfter())
		params(t.GetParameters())
	case *header.Event:
		add(&o, "Event %s id=%s", t.GetEventType(), t.GetEventId())
		params(t.GetParameters())
	case *header.Reason:
		add(&o, "Reason %s cause=%d text=%s", t.GetProtocol(), t.GetCause(), t.GetText())
		params(t.GetParameters())
	case *header.Warning:
		add(&o, "Warning %d %s %s", t.GetCode(), t.GetAgent(), t.GetText())
	case *header.InReplyTo:
		add(&o, "InReplyTo %s", t.GetCallId())
	case *header.Accept:
		add(&o, "Accept %s / %s q=%v has=%v all=%v allsub=%v", t.GetContentType(), t.GetContentSubType(), t.GetQValue(), t.HasQValue(), t.AllowsAllContentTypes(), t.AllowsAllContentSubTypes())
		params(t.GetParameters())
	case *header.AcceptEncoding:
		add(&o, "AcceptEncoding %s q=%v has=%v", t.GetEncoding(), t.GetQValue(), t.HasQValue())
	case *header.AcceptLanguage:
		add(&o, "AcceptLanguage %s %s q=%v has=%v", t.GetLanguageRange(), t.GetAcceptLanguage(), t.GetQValue(), t.HasQValue())
	case *header.ContentType:
		add(&o, "ContentType %s / %s charset=%s", t.GetContentType(), t.GetContentSubType(), t.GetCharSet())
		if m := t.GetMediaRange(); m != nil && (t.GetMediaType() != t.GetContentType() || t.GetMediaSubType() != t.GetContentSubType() || !t.CompareMediaRange(m.GetType()+"/"+m.GetSubtype())) {
			add(&o, "media range differs")
		}
		params(t.GetParameters())
	case *header.ContentDisposition:
		add(&o, "ContentDisposition %s handling=%s", t.GetDispositionType(), t.GetHandling())
		if s := t.GetContentDisposition(); !strings.HasPrefix(s, t.GetDispositionType()) {
			add(&o, "another interpretation of the body: %s", s)
		}
		params(t.GetParameters())
	case *header.AlertInfo:
		add(&o, "AlertInfo")
		o = append(o, ObsURI(t.GetAlertInfo())...)
		params(t.GetParameters())
	case *header.CallInfo:
		add(&o, "CallInfo purpose=%s", t.GetPurpose())
		o = append(o, ObsURI(t.GetInfo())...)
		params(t.GetParameters())
	case *header.ErrorInfo:
		add(&o, "ErrorInfo message=%s", t.GetErrorMessage())
		o = append(o, ObsURI(t.GetErrorInfo())...)
		params(t.GetParameters())
	case *header.WWWAuthenticate:
		add(&o, "WWWAuthenticate")
		o = append(o, obsAuth(&t.Authentication)...)
	case *header.ProxyAuthenticate:
		add(&o, "ProxyAuthenticate")
		o = append(o, obsAuth(&t.Authentication)...)
	case *header.Authorization:
		add(&o, "Authorization")
		o = append(o, obsAuth(&t.Authentication)...)
	case *header.ProxyAuthorization:
		add(&o, "ProxyAuthorization")
		o = append(o, obsAuth(&t.Authentication)...)
	case *header.AuthenticationInfo:
		add(&o, "AuthenticationInfo cnonce=%s nextnonce=%s qop=%s rspauth=%s nc=%d", t.GetCNonce(), t.GetNextNonce(), t.GetQop(), t.GetResponse(), t.GetNonceCount())
		for e := t.GetParameterNames().Front(); e != nil; e = e.Next() {
			n := e.Value.(string)
			add(&o, "aparam %s=%s", n, t.GetParameter(n))
			if nv := t.GetAuthInfo(n); nv == nil || nv.GetName() != n || nv.GetValue() != t.GetParameter(n) {
				add(&o, "GetAuthInfo(%s) differs", n)
			}
		}
	case *header.Extension:
		add(&o, "Extension %s: %s %s", t.GetName(), t.GetValue(), t.GetHeaderValue())
	default:
		add(&o, "unknown header type %T", h)
	}
	return o
}

func obsAuth(t *header.Authentication) []string {
	var o []string
	uri := ""
	if t.HasParameter("uri") {
		if u := t.GetURI(); u != nil {
			uri = u.String()
		}
	}
	add(&o, "scheme=%s realm=%s nonce=%s cnonce=%s opaque=%s", t.GetScheme(), t.GetRealm(), t.GetNonce(), t.GetCNonce(), t.GetOpaque())
	add(&o, "user=%s uri=%s response=%s qop=%s alg=%s domain=%s nc=%d stale=%v", t.GetUsername(), uri, t.GetResponse(), t.GetQop(), t.GetAlgorithm(), t.GetDomain(), t.GetNonceCount(), t.IsStale())
	for e := t.GetParameterNames().Front(); e != nil; e = e.Next() {
		n := e.Value.(string)
		add(&o, "aparam %s=%s", n, t.GetParameter(n))
	}
	return o
}

// ---- kinds

func token1(name, compact string, list bool, label string, tok func(g *G) string, mk func(v string) (header.Header, error)) *Kind {
	return &Kind{Name: name, Compact: compact, List: list, Single: !list, Gen: func(g *G) *Val {
		v := tok(g)
		return &Val{Body: v, Canon: v, Want: []string{strings.ReplaceAll(label, "%s", v)}, Build: func() (header.Header, []error) {
			h, err := mk(v)
			return h, errl(err)
		}}
	}}
}

func errl(errs ...error) []error {
	var o []error
	for _, e := range errs {
		if e != nil {
			o = append(o, e)
		}
	}
	return o
}

func num1(name, compact string, lo, hi int, label string, mk func(n int) (header.Header, error)) *Kind {
	return &Kind{Name: name, Compact: compact, Single: true, Gen: func(g *G) *Val {
		n := g.Int(lo, hi)
		body := strconv.Itoa(n)
		if g.P(6) {
			body = strings.Repeat("0", 1+g.N(3)) + body
		}
		return &Val{Body: body, Canon: strconv.Itoa(n), Want: []string{fmt.Sprintf(label, n)}, Build: func() (header.Header, []error) {
			h, err := mk(n)
			return h, errl(err)
		}}
	}}
}

type addrHdr interface {
	header.Header
	paramHolder
	SetAddress(a address.Address)
}

func addrKind(name, compact string, list bool, bareOK, bareParams bool, mk func() addrHdr, first func(a *Addr, ps []Param) string, special ...func(g *G) Param) *Kind {
	return &Kind{Name: name, Compact: compact, List: list, Single: !list, Gen: func(g *G) *Val {
		a := g.Addr(bareOK, URIOpt{})
		var ps []Param
		if !a.Bare || bareParams {
			ps = g.HParams(3, special...)
		}
		if a.Bare {
			// A flag after a bare URI is encoded without "=", one after a
			// bracketed URI with it (both pinned by the existing tests), so
			// that its encoding is not a fixpoint: a known finding of S04.
			for i := range ps {
				if ps[i].Kind == Flag {
					ps[i].Kind, ps[i].Val = Tok, g.Token()
				}
			}
		}
		want := append([]string{first(a, ps)}, a.Want()...)
		want = append(want, pWant(ps)...)
		return &Val{Body: a.Wire() + pWire(ps), Canon: a.Canon() + pCanon(ps), Want: want, Build: func() (header.Header, []error) {
			h := mk()
			h.SetAddress(a.Build())
			return h, pBuild(h, ps)
		}}
	}}
}

func fromTo(n string) func(a *Addr, ps []Param) string {
	return func(a *Addr, ps []Param) string {
		p, ok := pGet(ps, "tag")
		return fmt.Sprintf("%s tag=%s has=%v dn=%s", n, p.Val, ok, a.Display)
	}
}

func qWant(ps []Param) (float32, bool) {
	p, ok := pGet(ps, "q")
	if !ok {
		return -1, false
	}
	return q32(p.Val), true
}

func uriKind(name, compact string, mk func(u address.URI) (header.Header, paramHolder), first func(ps []Param) string, special ...func(g *G) Param) *Kind {
	return &Kind{Name: name, Compact: compact, List: true, Gen: func(g *G) *Val {
		u := g.URI(URIOpt{})
		ps := g.HParams(3, special...)
		want := append([]string{first(ps)}, u.Want()...)
		want = append(want, pWant(ps)...)
		return &Val{Body: "<" + u.Text() + ">" + pWire(ps), Canon: "<" + u.Text() + ">" + pCanon(ps), Want: want, Build: func() (header.Header, []error) {
			h, p := mk(u.Build())
			return h, pBuild(p, ps)
		}}
	}}
}

// AuthParam describes the quoting of an authentication parameter.
var authQuoted = map[string]bool{"qop": true, "realm": true, "cnonce": true, "nonce": true, "username": true, "domain": true, "opaque": true, "nextnonce": true, "uri": true, "algorithm": true, "response": true}
var infoQuoted = map[string]bool{"qop": true, "realm": true, "cnonce": true, "nonce": true, "username": true, "domain": true, "opaque": true, "nextnonce": true, "algorithm": true, "rspauth": true}

func isTok(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !strings.Contains(tokChars, string(s[i])) || s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// IsTok tells whether s is a token.
func IsTok(s string) bool { return isTok(s) }

func (g *G) authParams(names []string, quoted map[string]bool) []Param {
	var ps []Param
	used := map[string]bool{}
	for _, i := range g.R.Perm(len(names)) {
		if g.P(3) {
			continue
		}
		nm := names[i]
		used[nm] = true
		p := Param{Name: nm, Kind: Quo}
		switch nm {
		case "stale":
			p.Kind, p.Val = Tok, g.Pick("true", "false", "true", "false", "TRUE", "True", "FALSE")
		case "nc":
			p.Kind, p.Val = Tok, g.HexN(8)
		case "algorithm":
			p.Kind, p.Val = Tok, g.Pick("MD5", "MD5-sess", "SHA-256", g.Token())
		case "qop":
			p.Val = g.Pick("auth", "auth-int", "auth,auth-int", g.Token())
			if isTok(p.Val) && g.P(2) {
				p.Kind = Tok
			}
		case "response", "rspauth":
			p.Val = g.HexN(32)
		case "uri":
			p.Val = g.SipURI(URIOpt{}).Text()
		case "domain":
			p.Val = g.SipURI(URIOpt{NoHdrs: true}).Text()
		case "nonce", "cnonce", "opaque", "nextnonce":
			p.Val = g.Pick(g.HexN(16+g.N(32)), g.QText(1), "YWJj+/==")
		default:
			p.Val = g.QText(1)
		}
		if g.P(10) {
			p.Name = g.mixed(p.Name)
		}
		ps = append(ps, p)
	}
	for n := g.Few(3); n > 0 || len(ps) == 0; n-- {
		nm := distinct(g, used, func() string {
			for {
				n := g.Name()
				if !reserved[strings.ToLower(n)] {
					return n
				}
			}
		})
		p := Param{Name: nm, Val: g.Token(), Kind: Tok}
		if g.P(2) {
			p.Kind, p.Val = Quo, g.QText(0)
		}
		ps = append(ps, p)
	}
	return ps
}

func authWire(ps []Param) string {
	var b strings.Builder
	for i, p := range ps {
		if i > 0 {
			b.WriteString(O + "," + O)
		}
		b.WriteString(p.Name + O + "=" + O)
		if p.Kind == Quo {
			b.WriteString(`"` + p.Val + `"`)
		} else {
			b.WriteString(p.Val)
		}
	}
	return b.String()
}

func authCanon(ps []Param, quoted map[string]bool) string {
	var l []string
	for _, p := range ps {
		if quoted[strings.ToLower(p.Name)] || !isTok(p.Val) {
			l = append(l, p.Name+`="`+p.Val+`"`)
		} else {
			l = append(l, p.Name+"="+p.Val)
		}
	}
	return strings.Join(l, ",")
}

func authVal(ps []Param, n string) string { p, _ := pGet(ps, n); return p.Val }

func ncVal(ps []Param) int64 {
	p, ok := pGet(ps, "nc")
	if !ok {
		return -1
	}
	n, _ := strconv.ParseInt(p.Val, 16, 64)
	return n
}

func authWantParams(ps []Param) []string {
	var o []string
	for _, p := range ps {
		add(&o, "aparam %s=%s", p.Name, p.Val)
	}
	return o
}

func authKind(name string, list bool, label string, mk func() (header.Header, *header.Authentication)) *Kind {
	return &Kind{Name: name, List: list, NoComma: true, Single: !list, Gen: func(g *G) *Val {
		scheme := g.Pick("Digest", "Digest", "digest", g.Token())
		ps := g.authParams([]string{"realm", "nonce", "cnonce", "opaque", "username", "uri", "response", "qop", "algorithm", "domain", "nc", "stale"}, authQuoted)
		want := []string{label}
		add(&want, "scheme=%s realm=%s nonce=%s cnonce=%s opaque=%s", scheme, authVal(ps, "realm"), authVal(ps, "nonce"), authVal(ps, "cnonce"), authVal(ps, "opaque"))
		add(&want, "user=%s uri=%s response=%s qop=%s alg=%s domain=%s nc=%d stale=%v", authVal(ps, "username"), authVal(ps, "uri"), authVal(ps, "response"), authVal(ps, "qop"), authVal(ps, "algorithm"), authVal(ps, "domain"), ncVal(ps), strings.EqualFold(authVal(ps, "stale"), "true"))
		want = append(want, authWantParams(ps)...)
		return &Val{Body: scheme + S + authWire(ps), Canon: scheme + " " + authCanon(ps, authQuoted), Want: want, Build: func() (header.Header, []error) {
			h, a := mk()
			a.SetScheme(scheme)
			var errs []error
			for _, p := range ps {
				var err error
				switch p.Name {
				case "realm":
					err = a.SetRealm(p.Val)
				case "nonce":
					err = a.SetNonce(p.Val)
				case "cnonce":
					err = a.SetCNonce(p.Val)
				case "opaque":
					err = a.SetOpaque(p.Val)
				case "username":
					err = a.SetUsername(p.Val)
				case "uri":
					err = a.SetURI(address.NewURIImpl(p.Val))
				case "response":
					err = a.SetResponse(p.Val)
				case "qop":
					err = a.SetQop(p.Val)
				case "algorithm":
					err = a.SetAlgorithm(p.Val)
				case "domain":
					err = a.SetDomain(p.Val)
				case "nc":
					err = a.SetNonceCount(int(ncVal(ps)))
				case "stale":
					if a.SetStale(p.Val == "true"); p.Val != "true" && p.Val != "false" {
						err = a.SetParameter(p.Name, p.Val)
					}
				default:
					err = a.SetParameter(p.Name, p.Val)
				}
				if err != nil {
					errs = append(errs, err)
				}
			}
			return h, errs
		}}
	}}
}

func (g *G) products() []string {
	n := 1 + g.Few(4)
	l := make([]string, n)
	for i := range l {
		l[i] = g.Token()
		if g.P(3) {
			l[i] += " " + g.Token()
		}
		if g.P(5) {
			l[i] += " (" + g.Word() + ")"
		}
	}
	if g.P(8) { // a comment with an address in it
		l = append(l, g.Token()+" (http:", "", g.Word()+")")
	}
	return l
}

func prodKind(name, label string, mk func(l []string) header.Header) *Kind {
	return &Kind{Name: name, Single: true, Gen: func(g *G) *Val {
		l := g.products()
		want := []string{label}
		for _, p := range l {
			want = append(want, "product "+p)
		}
		s := strings.Join(l, "/")
		return &Val{Body: s, Canon: s, Want: want, Build: func() (header.Header, []error) { return mk(l), nil }}
	}}
}

func textKind(name, compact, label string, mk func(s string) (header.Header, error)) *Kind {
	return token1(name, compact, false, label, func(g *G) string { return g.Text() }, mk)
}

func tokOf(g *G) string { return g.Token() }

// Comment is legal comment text, written between the parentheses.
func (g *G) Comment() string {
	n := 1 + g.N(8)
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch g.N(8) {
		case 0:
			b.WriteString(g.Pick(`\)`, `\(`, `\\`, `\a`))
		case 1:
			if i > 0 && i < n-1 {
				b.WriteString(" ")
			} else {
				b.WriteString(";")
			}
		case 2:
			b.WriteString(g.Pick(",", ";", "=", "<", ":", "é", "日", "()", "(x)", "(y (z))"))
		default:
			b.WriteByte(alnum[g.N(len(alnum))])
		}
	}
	return b.String()
}

var viaKind = &Kind{Name: "Via", Compact: "v", List: true, Gen: func(g *G) *Val {
	tr := g.Pick("UDP", "TCP", "TLS", "SCTP", "udp", g.Token())
	host, hc := g.Host()
	port := g.Port()
	sb := host
	if port >= 0 {
		sb += ":" + strconv.Itoa(port)
	}
	com := ""
	if g.P(6) {
		com = g.Comment()
	}
	ps := g.viaParams()
	body := "SIP" + O + "/" + O + "2.0" + O + "/" + O + tr + S + sb
	canon := "SIP/2.0/" + strings.ToUpper(tr) + " " + sb // transports are case-insensitive
	if com != "" {
		body += S + "(" + com + ")"
		canon += " (" + com + ")"
	}
	body += pWire(ps)
	low := make([]Param, len(ps))
	for i, p := range ps {
		low[i] = p
		low[i].Name = strings.ToLower(p.Name)
		canon += ";" + low[i].Name
		switch p.Kind {
		case Tok:
			canon += "=" + p.Val
		case Quo:
			canon += `="` + p.Val + `"`
		}
	}
	val := func(n string) string { p, _ := pGet(ps, n); return p.Val }
	ttl := -1
	if p, ok := pGet(ps, "ttl"); ok {
		ttl, _ = strconv.Atoi(p.Val)
	}
	var want []string
	add(&want, "Via version=2.0 transport=%s name=SIP", strings.ToUpper(tr))
	add(&want, "sent-by %s port=%d has=%v", host, port, port >= 0)
	add(&want, "branch=%s received=%s maddr=%s ttl=%d", val("branch"), val("received"), val("maddr"), ttl)
	add(&want, "comment=%s has=%v", com, com != "")
	want = append(want, pWant(low)...)
	_ = hc
	return &Val{Body: body, Canon: canon, Want: want, Build: func() (header.Header, []error) {
		v := header.NewVia()
		var errs []error
		pr := header.NewProtocol()
		way := len(body) % 3 // one of several ways to say the same
		if way != 0 {
			pr.SetProtocolName("SIP")
			pr.SetProtocolVersion("2.0")
		}
		pr.SetTransport(tr)
		v.SetSentProtocol(pr)
		if way == 0 {
			errs = append(errs, errl(v.SetProtocol("SIP"))...)
			v.SetProtocolVersion("2.0")
		}
		switch way {
		case 0:
			errs = append(errs, errl(v.SetHostFromString(host))...)
		case 1:
			v.SetHost(core.NewHost(host))
		case 2:
			hp := core.NewHostPort()
			hp.SetHost(core.NewHost(host))
			v.SetSentBy(hp)
		}
		if port >= 0 {
			v.SetPort(port)
		}
		if com != "" {
			v.SetComment(com)
		}
		for _, p := range low {
			var err error
			switch {
			case p.Name == "branch":
				err = v.SetBranch(p.Val)
			case p.Name == "received":
				err = v.SetReceived(p.Val)
			case p.Name == "maddr":
				err = v.SetMAddr(p.Val)
			case p.Name == "ttl":
				err = v.SetTTL(ttl)
			case p.Kind == Flag:
				v.SetParameterFromNameValue(core.NewNameValue(p.Name, nil))
			case p.Kind == Quo:
				v.SetQuotedParameter(p.Name, p.Val)
			default:
				err = v.SetParameter(p.Name, p.Val)
			}
			if err != nil {
				errs = append(errs, err)
			}
		}
		return v, errs
	}}
}}

func (g *G) viaParams() []Param {
	return g.HParams(4,
		func(g *G) Param { return Param{"branch", g.Branch(), Tok} },
		func(g *G) Param {
			h, _ := g.Host()
			return Param{"received", g.Pick(h, g.V6(), "192.0.2.1"), Tok}
		},
		func(g *G) Param { h, _ := g.Host(); return Param{"maddr", h, Tok} },
		func(g *G) Param { return Param{"ttl", strconv.Itoa(g.Int(0, 255)), Tok} },
		func(g *G) Param { return Param{"rport", "", Flag} },
	)
}

// Branch is a branch value, mostly with the magic cookie.
func (g *G) Branch() string {
	if g.P(5) {
		return g.Token()
	}
	return "z9hG4bK" + g.Chars(tokChars, 1+g.N(16))
}

func mkAddr[T addrHdr](f func() T) func() addrHdr { return func() addrHdr { return f() } }

// Kinds are all header kinds the library knows, and the unknown ones.
var Kinds = []*Kind{
	addrKind("From", "f", false, true, true, mkAddr(header.NewFrom), fromTo("From"), tokParam("tag")),
	addrKind("To", "t", false, true, true, mkAddr(header.NewTo), fromTo("To"), tokParam("tag")),
	addrKind("Contact", "m", true, true, false, mkAddr(header.NewContact), func(a *Addr, ps []Param) string {
		q, has := qWant(ps)
		e, _ := pGet(ps, "expires")
		n, _ := strconv.Atoi(e.Val)
		return fmt.Sprintf("Contact q=%v has=%v expires=%d wild=false", q, has, n)
	}, qParam, numParam("expires", 0, MaxInt32)),
	addrKind("Reply-To", "", false, true, false, mkAddr(header.NewReplyTo), func(a *Addr, ps []Param) string { return "ReplyTo dn=" + a.Display }),
	addrKind("Refer-To", "r", false, true, false, mkAddr(header.NewReferTo), func(a *Addr, ps []Param) string { return "ReferTo" }),
	addrKind("Route", "", true, false, false, mkAddr(header.NewRoute), func(a *Addr, ps []Param) string { return "Route" }),
	addrKind("Record-Route", "", true, false, false, mkAddr(header.NewRecordRoute), func(a *Addr, ps []Param) string { return "RecordRoute" }),
	viaKind,
	{Name: "CSeq", Single: true, Gen: func(g *G) *Val {
		n, m := g.Int(0, MaxInt31), g.Method()
		return &Val{Body: fmt.Sprintf("%d%s%s", n, S, m), Canon: fmt.Sprintf("%d %s", n, m), Want: []string{fmt.Sprintf("CSeq %d %s", n, m)},
			Build: func() (header.Header, []error) {
				if n%2 == 0 {
					return header.NewCSeq(n, m), nil
				}
				h := header.NewCSeq(0, "X")
				return h, errl(h.SetSequenceNumber(n), h.SetMethod(m))
			}}
	}},
	{Name: "Call-ID", Compact: "i", Single: true, Gen: func(g *G) *Val {
		id := g.CallID()
		l, h, _ := strings.Cut(id, "@")
		return &Val{Body: id, Canon: id, Want: []string{"CallID " + id, "local=" + l + " host=" + h}, Build: func() (header.Header, []error) {
			c, err := header.NewCallID(id)
			return c, errl(err)
		}}
	}},
	num1("Max-Forwards", "", 0, 255, "MaxForwards %d", func(n int) (header.Header, error) {
		h := header.NewMaxForwards()
		return h, h.SetMaxForwards(n)
	}),
	num1("Content-Length", "l", 0, MaxInt31, "ContentLength %d", func(n int) (header.Header, error) {
		h := header.NewContentLength()
		return h, h.SetContentLength(n)
	}),
	num1("Expires", "", 0, MaxInt32, "Expires %d", func(n int) (header.Header, error) {
		h := header.NewExpires()
		return h, h.SetExpires(n)
	}),
	num1("Min-Expires", "", 0, MaxInt32, "MinExpires %d", func(n int) (header.Header, error) {
		h := header.NewMinExpires()
		return h, h.SetExpires(n)
	}),
	num1("RSeq", "", 1, MaxInt32, "RSeq %d", func(n int) (header.Header, error) {
		h := header.NewRSeq()
		return h, h.SetSequenceNumber(n)
	}),
	{Name: "RAck", Single: true, Gen: func(g *G) *Val {
		a, b, m := g.Int(1, MaxInt32), g.Int(1, MaxInt32), g.Method()
		return &Val{Body: fmt.Sprintf("%d%s%d%s%s", a, S, b, S, m), Canon: fmt.Sprintf("%d %d %s", a, b, m), Want: []string{fmt.Sprintf("RAck %d %d %s", a, b, m)},
			Build: func() (header.Header, []error) {
				h := header.NewRAck()
				return h, errl(h.SetRSeqNumber(a), h.SetCSeqNumber(b), h.SetMethod(m))
			}}
	}},
	{Name: "MIME-Version", Single: true, Gen: func(g *G) *Val {
		a, b := g.Int(0, 99), g.Int(0, 99)
		if g.P(3) {
			a, b = g.Int(0, MaxInt31), g.Int(0, MaxInt31)
		}
		s := fmt.Sprintf("%d.%d", a, b)
		return &Val{Body: s, Canon: s, Want: []string{"MimeVersion " + s}, Build: func() (header.Header, []error) {
			h := header.NewMimeVersion()
			return h, errl(h.SetMajorVersion(a), h.SetMinorVersion(b))
		}}
	}},
	token1("Allow", "", true, "Allow %s", func(g *G) string { return g.Method() }, func(v string) (header.Header, error) {
		if len(v)%2 == 0 {
			return header.NewAllowFromString(v), nil
		}
		h := header.NewAllow()
		return h, h.SetMethod(v)
	}),
	token1("Allow-Events", "u", true, "AllowEvents %s", tokOf, func(v string) (header.Header, error) {
		if len(v)%2 == 0 {
			return header.NewAllowEventsFromString(v), nil
		}
		h := header.NewAllowEvents()
		return h, h.SetEventType(v)
	}),
	token1("Require", "", true, "Require %s", tokOf, func(v string) (header.Header, error) {
		if len(v)%2 == 0 {
			return header.NewRequireFromString(v), nil
		}
		h := header.NewRequire()
		return h, h.SetOptionTag(v)
	}),
	token1("Proxy-Require", "", true, "ProxyRequire %s", tokOf, func(v string) (header.Header, error) {
		if len(v)%2 == 0 {
			return header.NewProxyRequireFromString(v), nil
		}
		h := header.NewProxyRequire()
		return h, h.SetOptionTag(v)
	}),
	token1("Supported", "k", true, "Supported %s", tokOf, func(v string) (header.Header, error) {
		if len(v)%2 == 0 {
			return header.NewSupportedFromString(v), nil
		}
		h := header.NewSupported()
		return h, h.SetOptionTag(v)
	}),
	token1("Unsupported", "", true, "Unsupported %s", tokOf, func(v string) (header.Header, error) {
		if len(v)%2 == 0 {
			return header.NewUnsupportedFromString(v), nil
		}
		h := header.NewUnsupported()
		return h, h.SetOptionTag(v)
	}),
	token1("Content-Encoding", "e", true, "ContentEncoding %s", tokOf, func(v string) (header.Header, error) {
		if len(v)%2 == 0 {
			return header.NewContentEncodingFromString(v), nil
		}
		h := header.NewContentEncoding()
		return h, h.SetEncoding(v)
	}),
	token1("Content-Language", "", true, "ContentLanguage %s %s", func(g *G) string { return g.Chars(alpha, 2) + g.Pick("", "-"+g.Chars(alpha, 2), "-x-"+g.Word()) }, func(v string) (header.Header, error) {
		if len(v)%2 == 0 {
			return header.NewContentLanguageFromString(v), nil
		}
		h := header.NewContentLanguage()
		if len(v)%3 == 0 {
			h.SetContentLanguage(v)
			return h, nil
		}
		h.SetLanguageTag(v)
		return h, nil
	}),
	textKind("Subject", "s", "Subject %s", func(v string) (header.Header, error) {
		h := header.NewSubject()
		return h, h.SetSubject(v)
	}),
	textKind("Organization", "", "Organization %s", func(v string) (header.Header, error) {
		h := header.NewOrganization()
		return h, h.SetOrganization(v)
	}),
	token1("Priority", "", false, "Priority %s", func(g *G) string { return g.Pick("emergency", "urgent", "normal", "non-urgent", g.Token()) }, func(v string) (header.Header, error) {
		h := header.NewPriority()
		return h, h.SetPriority(v)
	}),
	prodKind("Server", "Server", func(l []string) header.Header {
		h := header.NewServer()
		for _, p := range l {
			h.AddProductToken(p)
		}
		return h
	}),
	prodKind("User-Agent", "UserAgent", func(l []string) header.Header {
		h := header.NewUserAgent()
		for _, p := range l {
			h.AddProductToken(p)
		}
		return h
	}),
	{Name: "Date", Single: true, Gen: func(g *G) *Val {
		t := time.Unix(g.R.Int64N(4102444800), 0).UTC()
		s := t.Format("Mon, 02 Jan 2006 15:04:05 GMT")
		return &Val{Body: s, Canon: s, Want: []string{fmt.Sprintf("Date %d", t.Unix())}, Build: func() (header.Header, []error) {
			h := header.NewDate()
			lt := t.In(time.FixedZone("X", 3600*(int(t.Unix()%23)-11)))
			h.SetDate(&lt)
			return h, nil
		}}
	}},
	{Name: "Timestamp", Single: true, Gen: func(g *G) *Val {
		dec := func() string {
			s := strconv.Itoa(g.Int(0, 9999))
			if g.P(2) {
				s += "." + g.Chars(digits, g.N(3))
			}
			return s
		}
		a := dec()
		body, canon := a, f32(q32(a))
		var d string
		delay, has := float32(-1), false
		if g.P(2) {
			d = dec()
			body += S + d
			delay, has = q32(d), true
			canon += " " + f32(delay)
		}
		return &Val{Body: body, Canon: canon, Want: []string{fmt.Sprintf("TimeStamp %v delay=%v has=%v", q32(a), delay, has)}, Build: func() (header.Header, []error) {
			h := header.NewTimeStamp()
			errs := errl(h.SetTimeStamp(q32(a)))
			if has {
				errs = append(errs, errl(h.SetDelay(delay))...)
			}
			return h, errs
		}}
	}},
	{Name: "Retry-After", Single: true, Gen: func(g *G) *Val {
		n := g.Int(0, MaxInt32)
		com := ""
		if g.P(3) {
			com = g.Comment()
		}
		var ps []Param
		for _, p := range g.HParams(3, numParam("duration", 0, MaxInt32)) {
			if p.Kind == Tok {
				ps = append(ps, p)
			}
		}
		body, canon := strconv.Itoa(n), strconv.Itoa(n)
		if com != "" {
			body += O + "(" + com + ")"
			canon += " (" + com + ")"
		}
		d, _ := strconv.Atoi(authVal(ps, "duration"))
		want := []string{fmt.Sprintf("RetryAfter %d comment=%s has=%v duration=%d", n, com, com != "", d)}
		return &Val{Body: body + pWire(ps), Canon: canon + pCanon(ps), Want: append(want, pWant(ps)...), Build: func() (header.Header, []error) {
			h := header.NewRetryAfter()
			errs := errl(h.SetRetryAfter(n))
			if com != "" {
				errs = append(errs, errl(h.SetComment(com))...)
			}
			for _, p := range ps {
				if p.Name == "duration" {
					errs = append(errs, errl(h.SetDuration(d))...)
				} else {
					errs = append(errs, errl(h.SetParameter(p.Name, p.Val))...)
				}
			}
			return h, errs
		}}
	}},
	{Name: "Subscription-State", Single: true, Gen: func(g *G) *Val {
		st := g.Pick("active", "pending", "terminated", g.Token())
		reason, exp, ra := "", -1, -1
		var ps []Param
		for _, p := range g.HParams(5, tokParam("reason"), numParam("expires", 1, MaxInt32), numParam("retry-after", 1, MaxInt32)) {
			if p.Kind != Tok {
				continue
			}
			ps = append(ps, p)
		}
		canon := st
		var rest []Param
		for _, p := range ps {
			switch strings.ToLower(p.Name) {
			case "reason":
				reason = p.Val
			case "expires":
				exp, _ = strconv.Atoi(p.Val)
			case "retry-after":
				ra, _ = strconv.Atoi(p.Val)
			default:
				rest = append(rest, p)
			}
		}
		if reason != "" {
			canon += ";reason=" + reason
		}
		if ra >= 0 {
			canon += ";retry-after=" + strconv.Itoa(ra)
		}
		if exp >= 0 {
			canon += ";expires=" + strconv.Itoa(exp)
		}
		want := []string{fmt.Sprintf("SubscriptionState %s reason=%s expires=%d retry-after=%d", st, reason, exp, ra)}
		return &Val{Body: st + pWire(ps), Canon: canon + pCanon(rest), Want: append(want, pWant(rest)...), Build: func() (header.Header, []error) {
			h := header.NewSubscriptionState()
			errs := errl(h.SetState(st))
			if reason != "" {
				errs = append(errs, errl(h.SetReasonCode(reason))...)
			}
			if exp >= 0 {
				errs = append(errs, errl(h.SetExpires(exp))...)
			}
			if ra >= 0 {
				errs = append(errs, errl(h.SetRetryAfter(ra))...)
			}
			return h, append(errs, pBuild(h, rest)...)
		}}
	}},
	{Name: "Event", Compact: "o", Single: true, Gen: func(g *G) *Val {
		t := g.Pick("presence", "refer", "dialog.winfo", g.Token())
		ps := g.HParams(3, tokParam("id"))
		want := []string{fmt.Sprintf("Event %s id=%s", t, authVal(ps, "id"))}
		return &Val{Body: t + pWire(ps), Canon: t + pCanon(ps), Want: append(want, pWant(ps)...), Build: func() (header.Header, []error) {
			h := header.NewEvent()
			errs := errl(h.SetEventType(t))
			for _, p := range ps {
				if p.Name == "id" {
					errs = append(errs, errl(h.SetEventId(p.Val))...)
				} else {
					errs = append(errs, pBuild(h, []Param{p})...)
				}
			}
			return h, errs
		}}
	}},
	{Name: "Reason", List: true, Gen: func(g *G) *Val {
		t := g.Pick("SIP", "Q.850", "preemption", g.Token())
		ps := g.HParams(3, numParam("cause", 0, g.Int(999, MaxInt32)), quoParam("text"))
		c, has := pGet(ps, "cause")
		cause, _ := strconv.Atoi(c.Val)
		_ = has
		want := []string{fmt.Sprintf("Reason %s cause=%d text=%s", t, cause, authVal(ps, "text"))}
		return &Val{Body: t + pWire(ps), Canon: t + pCanon(ps), Want: append(want, pWant(ps)...), Build: func() (header.Header, []error) {
			h := header.NewReason()
			errs := errl(h.SetProtocol(t))
			for _, p := range ps {
				switch p.Name {
				case "cause":
					errs = append(errs, errl(h.SetCause(cause))...)
				case "text":
					errs = append(errs, errl(h.SetText(p.Val))...)
				default:
					errs = append(errs, pBuild(h, []Param{p})...)
				}
			}
			return h, errs
		}}
	}},
	{Name: "Warning", List: true, Gen: func(g *G) *Val {
		c, a, t := g.Int(300, 399), g.Token(), g.QText(1)
		if g.P(2) {
			a = g.HostPort()
		}
		return &Val{Body: fmt.Sprintf("%d%s%s%s\"%s\"", c, S, a, S, t), Canon: fmt.Sprintf("%d %s \"%s\"", c, a, t), Want: []string{fmt.Sprintf("Warning %d %s %s", c, a, t)},
			Build: func() (header.Header, []error) {
				h := header.NewWarning()
				return h, errl(h.SetCode(c), h.SetAgent(a), h.SetText(t))
			}}
	}},
	{Name: "In-Reply-To", List: true, Gen: func(g *G) *Val {
		id := g.CallID()
		return &Val{Body: id, Canon: id, Want: []string{"InReplyTo " + id}, Build: func() (header.Header, []error) {
			h := header.NewInReplyTo()
			return h, errl(h.SetCallId(id))
		}}
	}},
	{Name: "Accept", List: true, Gen: func(g *G) *Val {
		a, b := g.Pick("application", "text", g.Token()), g.Pick("sdp", "plain", "*", g.Token())
		if g.P(8) {
			a, b = "*", "*"
		}
		ps := g.HParams(3, qParam)
		q, has := qWant(ps)
		want := []string{fmt.Sprintf("Accept %s / %s q=%v has=%v all=%v allsub=%v", a, b, q, has, a == "*", b == "*")}
		return &Val{Body: a + O + "/" + O + b + pWire(ps), Canon: a + "/" + b + pCanon(ps), Want: append(want, pWant(ps)...), Build: func() (header.Header, []error) {
			h := header.NewAccept()
			if len(ps) == 1 {
				h.SetMediaRange(mediaRange(a, b))
			} else {
				h.SetContentType(a)
				h.SetContentSubType(b)
			}
			return h, pBuild(h, ps)
		}}
	}},
	qKind("Accept-Encoding", "AcceptEncoding %s q=%v has=%v", func(g *G) string { return g.Pick("gzip", "identity", "*", g.Token()) }, func(v string, q float32, has bool) (header.Header, []error) {
		h := header.NewAcceptEncoding()
		errs := errl(h.SetEncoding(v))
		if has {
			errs = append(errs, errl(h.SetQValue(q))...)
		}
		return h, errs
	}),
	qKind("Accept-Language", "AcceptLanguage %[1]s %[1]s q=%[2]v has=%[3]v", func(g *G) string { return g.Chars(alpha, 2) + g.Pick("", "-"+g.Chars(alpha, 2)) }, func(v string, q float32, has bool) (header.Header, []error) {
		h := header.NewAcceptLanguage()
		h.SetAcceptLanguage(v)
		var errs []error
		if has {
			errs = errl(h.SetQValue(q))
		}
		return h, errs
	}),
	{Name: "Content-Type", Compact: "c", Single: true, Gen: func(g *G) *Val {
		a, b := g.Pick("application", "text", "multipart", g.Token()), g.Pick("sdp", "plain", "mixed", g.Token())
		ps := g.HParams(3, tokParam("charset"), quoParam("boundary"))
		want := []string{fmt.Sprintf("ContentType %s / %s charset=%s", a, b, authVal(ps, "charset"))}
		return &Val{Body: a + O + "/" + O + b + pWire(ps), Canon: a + "/" + b + pCanon(ps), Want: append(want, pWant(ps)...), Build: func() (header.Header, []error) {
			if len(ps) == 2 {
				h := header.NewContentTypeFromString(a, b)
				return h, pBuild(h, ps)
			}
			h := header.NewContentType()
			if len(ps) == 1 {
				h.SetMediaRange(mediaRange(a, b))
				return h, pBuild(h, ps)
			}
			errs := errl(h.SetContentType(a), h.SetContentSubType(b))
			return h, append(errs, pBuild(h, ps)...)
		}}
	}},
	{Name: "Content-Disposition", Single: true, Gen: func(g *G) *Val {
		t := g.Pick("session", "render", "icon", g.Token())
		ps := g.HParams(3, func(g *G) Param { return Param{"handling", g.Pick("optional", "required", g.Token()), Tok} })
		want := []string{fmt.Sprintf("ContentDisposition %s handling=%s", t, authVal(ps, "handling"))}
		return &Val{Body: t + pWire(ps), Canon: t + pCanon(ps), Want: append(want, pWant(ps)...), Build: func() (header.Header, []error) {
			h := header.NewContentDisposition()
			errs := errl(h.SetDispositionType(t))
			for _, p := range ps {
				if p.Name == "handling" {
					errs = append(errs, errl(h.SetHandling(p.Val))...)
				} else {
					errs = append(errs, pBuild(h, []Param{p})...)
				}
			}
			return h, errs
		}}
	}},
	uriKind("Alert-Info", "", func(u address.URI) (header.Header, paramHolder) {
		h := header.NewAlertInfo()
		h.SetAlertInfo(u)
		return h, h
	}, func(ps []Param) string { return "AlertInfo" }),
	uriKind("Call-Info", "", func(u address.URI) (header.Header, paramHolder) {
		h := header.NewCallInfo()
		h.SetInfo(u)
		return h, h
	}, func(ps []Param) string { return "CallInfo purpose=" + authVal(ps, "purpose") }, tokParam("purpose")),
	uriKind("Error-Info", "", func(u address.URI) (header.Header, paramHolder) {
		h := header.NewErrorInfo()
		h.SetErrorInfo(u)
		return h, h
	}, func(ps []Param) string { return "ErrorInfo message=" + authVal(ps, "message") }, quoParam("message")),
	authKind("WWW-Authenticate", true, "WWWAuthenticate", func() (header.Header, *header.Authentication) {
		h := header.NewWWWAuthenticate()
		return h, &h.Authentication
	}),
	authKind("Proxy-Authenticate", true, "ProxyAuthenticate", func() (header.Header, *header.Authentication) {
		h := header.NewProxyAuthenticate()
		return h, &h.Authentication
	}),
	authKind("Authorization", false, "Authorization", func() (header.Header, *header.Authentication) {
		h := header.NewAuthorization()
		return h, &h.Authentication
	}),
	authKind("Proxy-Authorization", false, "ProxyAuthorization", func() (header.Header, *header.Authentication) {
		h := header.NewProxyAuthorization()
		return h, &h.Authentication
	}),
	{Name: "Authentication-Info", Single: true, Gen: func(g *G) *Val {
		ps := g.authParams([]string{"nextnonce", "cnonce", "qop", "rspauth", "nc"}, infoQuoted)
		want := []string{fmt.Sprintf("AuthenticationInfo cnonce=%s nextnonce=%s qop=%s rspauth=%s nc=%d", authVal(ps, "cnonce"), authVal(ps, "nextnonce"), authVal(ps, "qop"), authVal(ps, "rspauth"), ncVal(ps))}
		return &Val{Body: authWire(ps), Canon: authCanon(ps, infoQuoted), Want: append(want, authWantParams(ps)...), Build: func() (header.Header, []error) {
			h := header.NewAuthenticationInfo()
			var errs []error
			for _, p := range ps {
				var err error
				switch p.Name {
				case "nextnonce":
					err = h.SetNextNonce(p.Val)
				case "cnonce":
					err = h.SetCNonce(p.Val)
				case "qop":
					err = h.SetQop(p.Val)
				case "rspauth":
					err = h.SetResponse(p.Val)
				case "nc":
					err = h.SetNonceCount(int(ncVal(ps)))
				default:
					err = h.SetParameter(p.Name, p.Val)
				}
				errs = append(errs, errl(err)...)
			}
			return h, errs
		}}
	}},
}

func mediaRange(a, b string) *header.MediaRange {
	m := header.NewMediaRange()
	m.SetType(a)
	m.SetSubtype(b)
	return m
}

func qKind(name, label string, tok func(g *G) string, mk func(v string, q float32, has bool) (header.Header, []error)) *Kind {
	return &Kind{Name: name, List: true, Gen: func(g *G) *Val {
		v := tok(g)
		body, canon, q, has := v, v, float32(-1), g.P(2)
		if has {
			w := g.QVal()
			q = q32(w)
			body += O + ";" + O + g.Pick("q", "q", "q", "q", "q", "Q") + O + "=" + O + w
			canon += ";q=" + f32(q)
		}
		return &Val{Body: body, Canon: canon, Want: []string{fmt.Sprintf(label, v, q, has)}, Build: func() (header.Header, []error) { return mk(v, q, has) }}
	}}
}

// ExtKind is a header kind the library does not know.
func ExtKind(name string) *Kind {
	return &Kind{Name: name, Ext: true, NoComma: true, Gen: func(g *G) *Val {
		v := g.Text()
		return &Val{Body: v, Canon: v, Want: []string{"Extension " + name + ": " + v + " " + v}, Build: func() (header.Header, []error) {
			h := header.NewExtension(name)
			h.SetValue(v)
			return h, nil
		}}
	}}
}

var byName = map[string]*Kind{}

func init() {
	for _, k := range Kinds {
		byName[k.Name] = k
	}
}

// KindOf returns the kind with a given name.
func KindOf(name string) *Kind {
	if k := byName[name]; k != nil {
		return k
	}
	panic("no kind " + name)
}

// ExtName is a header name unknown to the library.
func (g *G) ExtName() string {
	for {
		n := g.Pick("X-", "P-", "") + g.Chars(upper, 1) + g.Chars(alnum+"-_", 2+g.N(8)) + g.Chars(alnum, 1)
		if g.P(6) { // one that looks like a known name
			k := Kinds[g.N(len(Kinds))].Name
			n = g.Pick("X-"+k, k+g.Chars(alnum, 1), k+"-"+g.Chars(alnum, 2), k[:len(k)-1])
		}
		low := strings.ToLower(n)
		hit := len(n) == 1
		for _, k := range Kinds {
			if strings.ToLower(k.Name) == low {
				hit = true
			}
		}
		if !hit {
			return n
		}
	}
}

// AnyKind picks a kind.
func (g *G) AnyKind() *Kind {
	if g.P(15) {
		return ExtKind(g.ExtName())
	}
	return Kinds[g.N(len(Kinds))]
}

// Line is one header line of one kind with its values.
type Line struct {
	K    *Kind
	Vals []*Val
}

// Line makes a header line with at most max values (one for the kinds that
// allow no more).
func (g *G) Line(k *Kind, max int) *Line {
	l := &Line{K: k}
	n := 1
	if k.List && !k.NoComma && max > 1 && g.P(2) {
		n = 1 + g.Few(max)
	}
	for ; n > 0; n-- {
		if i := len(l.Vals) - 1; i >= 0 && g.P(12) { // the same value again
			l.Vals = append(l.Vals, l.Vals[i])
			continue
		}
		l.Vals = append(l.Vals, k.Gen(g))
	}
	return l
}

// BodyT is the template of the line's value.
func (l *Line) BodyT() string {
	var b []string
	for _, v := range l.Vals {
		b = append(b, v.Body)
	}
	return strings.Join(b, O+","+O)
}

// T is the template of the line under the given spelling of the name.
func (l *Line) T(name string) string { return name + O + ":" + D + l.BodyT() + O }

// Plain is the line in its plain spelling, without a line ending.
func (l *Line) Plain() string { return Plain(l.T(l.K.Name)) }

// Canon is the expected encoding, with the line ending.
func (l *Line) Canon() string {
	if l.K.NoComma {
		var b strings.Builder
		for _, v := range l.Vals {
			b.WriteString(l.K.Name + ": " + v.Canon + "\r\n")
		}
		return b.String()
	}
	var c []string
	for _, v := range l.Vals {
		c = append(c, v.Canon)
	}
	return l.K.Name + ": " + strings.Join(c, ",") + "\r\n"
}

// Want is what Observe should report.
func (l *Line) Want() []string {
	var o []string
	if l.K.List && !l.K.NoComma {
		add(&o, "list of %d", len(l.Vals))
	}
	for _, v := range l.Vals {
		o = append(o, v.Want...)
	}
	return o
}

// NameSpelling is a random equivalent spelling of the line's header name.
func (g *G) NameSpelling(k *Kind) string {
	n := k.Name
	if k.Ext {
		return n // unknown names are kept as written
	}
	if k.Compact != "" && g.P(2) {
		n = k.Compact
	}
	switch g.N(4) {
	case 0:
		return strings.ToUpper(n)
	case 1:
		return strings.ToLower(n)
	case 2:
		b := []byte(n)
		for i := range b {
			if g.P(2) {
				b[i] = strings.ToUpper(string(b[i]))[0]
			} else {
				b[i] = strings.ToLower(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return n
}
