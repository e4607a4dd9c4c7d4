package props

import (
	"container/list"
	"fmt"
	"math"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/parser"
)

// A setter under test: which values it takes, and how its value is read back.
// unset values are accepted and remove the property again.
type setter struct {
	kind, name string
	pick       func(g *gen.G) (v any, legal bool)
	set        func(h, v any) error
	get        func(h any) any
	unset      func(v any) bool
	opaque     bool // the value is not read back from parsed text
}

func (s *setter) String() string { return s.kind + "." + s.name }

var setters []*setter

// ints declares a setter of whole numbers in lo..hi. Values above hi are
// tried if hi is a documented limit.
func ints[T any](kind, name string, lo, hi int, set func(T, int) error, get func(T) int, unset ...int) *setter {
	isUnset := func(n int) bool {
		for _, u := range unset {
			if u == n {
				return true
			}
		}
		return false
	}
	s := &setter{kind: kind, name: name,
		pick: func(g *gen.G) (any, bool) {
			var n int
			switch g.N(8) {
			case 0:
				n = lo
			case 1:
				n = lo - 1
			case 2:
				n = hi
			case 3:
				n = hi + 1
			case 4:
				n = -g.Int(1, gen.MaxInt31)
			case 5:
				n = g.Int(hi, gen.MaxInt31+hi)
			case 6:
				if len(unset) > 0 {
					n = unset[0]
					break
				}
				n = math.MinInt64
			default:
				n = g.Int(lo, hi)
			}
			if hi >= gen.MaxInt31 && n > hi { // no documented limit: not tried
				n = hi
			}
			return n, n >= lo && n <= hi || isUnset(n)
		},
		set: func(h, v any) error { return set(h.(T), v.(int)) },
		get: func(h any) any { return get(h.(T)) },
	}
	s.unset = func(v any) bool { return isUnset(v.(int)) }
	setters = append(setters, s)
	return s
}

// floats declares a setter of numbers in lo..hi.
func floats[T any](kind, name string, lo, hi float32, set func(T, float32) error, get func(T) float32, unset ...float32) *setter {
	isUnset := func(f float32) bool { return len(unset) > 0 && f == unset[0] }
	s := &setter{kind: kind, name: name,
		pick: func(g *gen.G) (any, bool) {
			var f float32
			switch g.N(10) {
			case 0:
				f = lo
			case 1:
				f = math.Nextafter32(lo, -1)
			case 2:
				f = hi
			case 3:
				f = math.Nextafter32(hi, 1e9)
			case 4:
				f = -float32(g.N(1000)+1) / 100
			case 5:
				f = hi + float32(g.N(1000)+1)/100
			case 6:
				f = []float32{float32(math.NaN()), float32(math.Inf(-1)), -math.MaxFloat32}[g.N(3)]
			case 7:
				if len(unset) > 0 {
					f = unset[0]
					break
				}
				f = float32(math.Inf(1))
			default:
				f = lo + float32(g.N(1001))/1000*(hi-lo)
			}
			if hi == maxSeconds && f > hi { // no documented limit: not tried
				f = hi
			}
			return f, f >= lo && f <= hi || isUnset(f)
		},
		set: func(h, v any) error { return set(h.(T), v.(float32)) },
		get: func(h any) any { return get(h.(T)) },
	}
	s.unset = func(v any) bool { return isUnset(v.(float32)) }
	setters = append(setters, s)
	return s
}

const maxSeconds = 9999

// texts declares a setter of texts that must not be empty; bad are further
// texts it must reject.
func texts[T any](kind, name string, mk func(g *gen.G) string, set func(T, string) error, get func(T) string, bad ...string) *setter {
	bad = append(bad, "")
	s := &setter{kind: kind, name: name,
		pick: func(g *gen.G) (any, bool) {
			if g.P(3) {
				return g.Pick(bad...), false
			}
			return mk(g), true
		},
		set:   func(h, v any) error { return set(h.(T), v.(string)) },
		get:   func(h any) any { return get(h.(T)) },
		unset: func(any) bool { return false },
	}
	setters = append(setters, s)
	return s
}

func token(g *gen.G) string { return g.Token() }
func qtext(g *gen.G) string { return g.QText(1) }

// authOf is the common part of the four authentication headers.
func authOf(h header.Header) *header.Authentication {
	switch t := h.(type) {
	case *header.WWWAuthenticate:
		return &t.Authentication
	case *header.ProxyAuthenticate:
		return &t.Authentication
	case *header.Authorization:
		return &t.Authentication
	case *header.ProxyAuthorization:
		return &t.Authentication
	}
	panic("not an authentication header")
}

// sipURI is the name under which SIP URIs take part.
const sipURI = "SIP URI"

func init() {
	ints("Max-Forwards", "SetMaxForwards", 0, 255, (*header.MaxForwards).SetMaxForwards, (*header.MaxForwards).GetMaxForwards)
	ints("CSeq", "SetSequenceNumber", 0, 1<<33, (*header.CSeq).SetSequenceNumber, (*header.CSeq).GetSequenceNumber)
	texts("CSeq", "SetMethod", func(g *gen.G) string { return g.Method() }, (*header.CSeq).SetMethod, (*header.CSeq).GetMethod)
	texts("Call-ID", "SetCallId", func(g *gen.G) string { return g.CallID() }, (*header.CallID).SetCallId, (*header.CallID).GetCallId, "@", "a@", "@b")
	texts("In-Reply-To", "SetCallId", func(g *gen.G) string { return g.Token() + "@" + g.Token() }, (*header.InReplyTo).SetCallId, (*header.InReplyTo).GetCallId, "@", "a@", "@b")
	ints("Contact", "SetExpires", 0, gen.MaxInt32, (*header.Contact).SetExpires, (*header.Contact).GetExpires)
	floats("Contact", "SetQValue", 0, 1, (*header.Contact).SetQValue, (*header.Contact).GetQValue)
	floats("Accept", "SetQValue", 0, 1, (*header.Accept).SetQValue, (*header.Accept).GetQValue)
	floats("Accept-Encoding", "SetQValue", 0, 1, (*header.AcceptEncoding).SetQValue, (*header.AcceptEncoding).GetQValue)
	texts("Accept-Encoding", "SetEncoding", token, (*header.AcceptEncoding).SetEncoding, (*header.AcceptEncoding).GetEncoding)
	floats("Accept-Language", "SetQValue", 0, 1, (*header.AcceptLanguage).SetQValue, (*header.AcceptLanguage).GetQValue)
	ints("Content-Length", "SetContentLength", 0, gen.MaxInt31, (*header.ContentLength).SetContentLength, (*header.ContentLength).GetContentLength)
	ints("Expires", "SetExpires", 0, gen.MaxInt32, (*header.Expires).SetExpires, (*header.Expires).GetExpires)
	ints("Min-Expires", "SetExpires", 0, gen.MaxInt32, (*header.MinExpires).SetExpires, (*header.MinExpires).GetExpires)
	ints("MIME-Version", "SetMajorVersion", 0, gen.MaxInt31, (*header.MimeVersion).SetMajorVersion, (*header.MimeVersion).GetMajorVersion)
	ints("MIME-Version", "SetMinorVersion", 0, gen.MaxInt31, (*header.MimeVersion).SetMinorVersion, (*header.MimeVersion).GetMinorVersion)
	ints("RAck", "SetRSeqNumber", 1, gen.MaxInt32, (*header.RAck).SetRSeqNumber, (*header.RAck).GetRSeqNumber)
	ints("RAck", "SetCSeqNumber", 1, gen.MaxInt32, (*header.RAck).SetCSeqNumber, (*header.RAck).GetCSeqNumber)
	texts("RAck", "SetMethod", func(g *gen.G) string { return g.Method() }, (*header.RAck).SetMethod, (*header.RAck).GetMethod)
	ints("RSeq", "SetSequenceNumber", 1, gen.MaxInt32, (*header.RSeq).SetSequenceNumber, (*header.RSeq).GetSequenceNumber)
	ints("Reason", "SetCause", 0, gen.MaxInt31, (*header.Reason).SetCause, (*header.Reason).GetCause)
	ints("Retry-After", "SetRetryAfter", 0, gen.MaxInt32, (*header.RetryAfter).SetRetryAfter, (*header.RetryAfter).GetRetryAfter)
	ints("Retry-After", "SetDuration", 0, gen.MaxInt32, (*header.RetryAfter).SetDuration, (*header.RetryAfter).GetDuration)
	texts("Retry-After", "SetComment", func(g *gen.G) string { return g.Comment() }, (*header.RetryAfter).SetComment, (*header.RetryAfter).GetComment)
	ints("Subscription-State", "SetExpires", 1, gen.MaxInt32, (*header.SubscriptionState).SetExpires, (*header.SubscriptionState).GetExpires)
	ints("Subscription-State", "SetRetryAfter", 1, gen.MaxInt32, (*header.SubscriptionState).SetRetryAfter, (*header.SubscriptionState).GetRetryAfter)
	texts("Subscription-State", "SetReasonCode", token, (*header.SubscriptionState).SetReasonCode, (*header.SubscriptionState).GetReasonCode)
	texts("Subscription-State", "SetState", token, (*header.SubscriptionState).SetState, (*header.SubscriptionState).GetState)
	floats("Timestamp", "SetTimeStamp", 0, maxSeconds, (*header.TimeStamp).SetTimeStamp, (*header.TimeStamp).GetTimeStamp)
	floats("Timestamp", "SetDelay", 0, maxSeconds, (*header.TimeStamp).SetDelay, (*header.TimeStamp).GetDelay, -1)
	ints("Warning", "SetCode", 300, 399, (*header.Warning).SetCode, (*header.Warning).GetCode)
	texts("Warning", "SetAgent", token, (*header.Warning).SetAgent, (*header.Warning).GetAgent)
	texts("Warning", "SetText", qtext, (*header.Warning).SetText, (*header.Warning).GetText)
	ints("Via", "SetTTL", 0, 255, (*header.Via).SetTTL, (*header.Via).GetTTL, -1)
	texts("Via", "SetBranch", func(g *gen.G) string { return g.Branch() }, (*header.Via).SetBranch, (*header.Via).GetBranch)
	texts("Via", "SetReceived", func(g *gen.G) string { return g.Pick("192.0.2.1", g.Token()) }, (*header.Via).SetReceived, (*header.Via).GetReceived)
	texts("Via", "SetMAddr", func(g *gen.G) string { return g.Pick("192.0.2.1", "host.example.com", "224.0.0.1") }, (*header.Via).SetMAddr, (*header.Via).GetMAddr)
	texts("Via", "SetProtocol", func(g *gen.G) string { return "SIP" }, (*header.Via).SetProtocol, (*header.Via).GetProtocol)
	texts("From", "SetTag", token, (*header.From).SetTag, (*header.From).GetTag, " ", "\t")
	texts("To", "SetTag", token, (*header.To).SetTag, (*header.To).GetTag, " ", "\t")
	texts("Allow", "SetMethod", func(g *gen.G) string { return g.Method() }, (*header.Allow).SetMethod, (*header.Allow).GetMethod)
	texts("Allow-Events", "SetEventType", token, (*header.AllowEvents).SetEventType, (*header.AllowEvents).GetEventType)
	texts("Event", "SetEventType", token, (*header.Event).SetEventType, (*header.Event).GetEventType)
	texts("Event", "SetEventId", token, (*header.Event).SetEventId, (*header.Event).GetEventId)
	texts("Call-Info", "SetPurpose", token, (*header.CallInfo).SetPurpose, (*header.CallInfo).GetPurpose)
	texts("Error-Info", "SetErrorMessage", qtext, (*header.ErrorInfo).SetErrorMessage, (*header.ErrorInfo).GetErrorMessage)
	texts("Content-Disposition", "SetDispositionType", token, (*header.ContentDisposition).SetDispositionType, (*header.ContentDisposition).GetDispositionType)
	texts("Content-Disposition", "SetHandling", token, (*header.ContentDisposition).SetHandling, (*header.ContentDisposition).GetHandling)
	texts("Content-Encoding", "SetEncoding", token, (*header.ContentEncoding).SetEncoding, (*header.ContentEncoding).GetEncoding)
	texts("Content-Type", "SetContentType", token, (*header.ContentType).SetContentType, (*header.ContentType).GetContentType)
	texts("Content-Type", "SetContentSubType", token, (*header.ContentType).SetContentSubType, (*header.ContentType).GetContentSubType)
	texts("Organization", "SetOrganization", func(g *gen.G) string { return g.Text() }, (*header.Organization).SetOrganization, (*header.Organization).GetOrganization)
	texts("Subject", "SetSubject", func(g *gen.G) string { return g.Text() }, (*header.Subject).SetSubject, (*header.Subject).GetSubject)
	texts("Priority", "SetPriority", token, (*header.Priority).SetPriority, (*header.Priority).GetPriority)
	texts("Require", "SetOptionTag", token, (*header.Require).SetOptionTag, (*header.Require).GetOptionTag)
	texts("Proxy-Require", "SetOptionTag", token, (*header.ProxyRequire).SetOptionTag, (*header.ProxyRequire).GetOptionTag)
	texts("Supported", "SetOptionTag", token, (*header.Supported).SetOptionTag, (*header.Supported).GetOptionTag)
	texts("Unsupported", "SetOptionTag", token, (*header.Unsupported).SetOptionTag, (*header.Unsupported).GetOptionTag)
	for _, k := range []string{"WWW-Authenticate", "Proxy-Authenticate", "Authorization", "Proxy-Authorization"} {
		au := func(set func(*header.Authentication, string) error) func(header.Header, string) error {
			return func(h header.Header, v string) error { return set(authOf(h), v) }
		}
		gt := func(get func(*header.Authentication) string) func(header.Header) string {
			return func(h header.Header) string { return get(authOf(h)) }
		}
		texts(k, "SetRealm", qtext, au((*header.Authentication).SetRealm), gt((*header.Authentication).GetRealm), `"x`)
		texts(k, "SetNonce", qtext, au((*header.Authentication).SetNonce), gt((*header.Authentication).GetNonce), `"x`)
		texts(k, "SetOpaque", qtext, au((*header.Authentication).SetOpaque), gt((*header.Authentication).GetOpaque), `"x`)
		texts(k, "SetDomain", token, au((*header.Authentication).SetDomain), gt((*header.Authentication).GetDomain), `"x`)
		texts(k, "SetAlgorithm", token, au((*header.Authentication).SetAlgorithm), gt((*header.Authentication).GetAlgorithm), `"x`)
		texts(k, "SetQop", token, au((*header.Authentication).SetQop), gt((*header.Authentication).GetQop), `"x`)
		texts(k, "SetResponse", token, au((*header.Authentication).SetResponse), gt((*header.Authentication).GetResponse), `"x`)
		ints(k, "SetNonceCount", 0, math.MaxUint32, func(h header.Header, n int) error { return authOf(h).SetNonceCount(n) }, func(h header.Header) int { return int(authOf(h).GetNonceCount()) })
		setters = append(setters, &setter{kind: k, name: "SetURI",
			pick: func(g *gen.G) (any, bool) {
				if g.P(3) {
					return address.URI(nil), false
				}
				return address.URI(address.NewURIImpl(g.SipURI(gen.URIOpt{}).Text())), true
			},
			set: func(h, v any) error {
				u, _ := v.(address.URI)
				return authOf(h.(header.Header)).SetURI(u)
			},
			get: func(h any) any {
				if u := authOf(h.(header.Header)).GetURI(); u != nil {
					return u.String()
				}
				return ""
			},
			unset: func(any) bool { return false },
		})
	}
	ints("Authentication-Info", "SetNonceCount", 0, math.MaxUint32, (*header.AuthenticationInfo).SetNonceCount, (*header.AuthenticationInfo).GetNonceCount)
	ints(sipURI, "SetTTLParam", 1, gen.MaxInt31, (*address.SipURIImpl).SetTTLParam, (*address.SipURIImpl).GetTTLParam)
	texts(sipURI, "SetTransportParam", func(g *gen.G) string { return g.Pick("udp", "tcp") }, (*address.SipURIImpl).SetTransportParam, (*address.SipURIImpl).GetTransportParam, "x", "sctp", "udpp", "tc", " tcp", "tls")
	texts(sipURI, "SetMAddrParam", func(g *gen.G) string { return g.Pick("192.0.2.1", "host.example.com", "224.0.0.1") }, (*address.SipURIImpl).SetMAddrParam, (*address.SipURIImpl).GetMAddrParam)
	texts(sipURI, "SetScheme", func(g *gen.G) string { return g.Pick("sip", "sips") }, (*address.SipURIImpl).SetScheme, (*address.SipURIImpl).GetScheme, "tel", "http", "sipss", "si", " sip")

	byKind := map[string][]*setter{}
	var kinds []string
	for _, s := range setters {
		if byKind[s.kind] == nil {
			kinds = append(kinds, s.kind)
		}
		byKind[s.kind] = append(byKind[s.kind], s)
	}

	type thing interface{ String() string }
	observe := func(h thing) []string {
		if u, ok := h.(*address.SipURIImpl); ok {
			return append(gen.ObsURI(u), u.String())
		}
		return append(gen.Observe(h.(header.Header)), h.String())
	}
	reparse := func(h thing) (thing, error) {
		if u, ok := h.(*address.SipURIImpl); ok {
			x, err := parser.NewStringMsgParser().ParseUrl(u.String())
			if err != nil {
				return nil, err
			}
			s, ok := x.(*address.SipURIImpl)
			if !ok {
				return nil, fmt.Errorf("a %T", x)
			}
			return s, nil
		}
		x, err := parseLine(strings.TrimSuffix(h.String(), "\r\n"))
		if err != nil {
			return nil, err
		}
		if l, ok := x.(header.Lister); ok {
			if l.Len() != 1 {
				return nil, fmt.Errorf("%d values", l.Len())
			}
			return l.Front().Value.(thing), nil
		}
		return x, nil
	}
	show := func(v any) any {
		if u, ok := v.(address.URI); ok && u != nil {
			return u.String()
		}
		if v == nil {
			return ""
		}
		return v
	}
	run := func(c *mon.C, kind string, only *setter) {
		g := gen.New(c.RNG())
		ss := byKind[kind]
		var h thing
		if kind == sipURI {
			u, ok := g.SipURI(gen.URIOpt{}).Build().(*address.SipURIImpl)
			if !ok {
				c.Failf("harness", "not a SIP URI")
				return
			}
			h = u
		} else if v := gen.KindOf(kind).Gen(g); g.P(2) {
			b := build(c, gen.KindOf(kind), v)
			if b == nil {
				return
			}
			h = b
		} else {
			l := &gen.Line{K: gen.KindOf(kind), Vals: []*gen.Val{v}}
			b, err := parseLine(l.Plain())
			if err != nil {
				c.Failf("parse", "%q: %v", l.Plain(), err)
				return
			}
			h = b
			if l, ok := b.(header.Lister); ok {
				h = l.Front().Value.(thing)
			}
		}
		set := map[*setter]any{}
		var log []string
		for n := 1 + g.N(12); n > 0; n-- {
			s := only
			if s == nil || g.P(3) {
				s = ss[g.N(len(ss))]
			}
			v, legal := s.pick(g)
			log = append(log, fmt.Sprintf("%s(%v)", s.name, show(v)))
			before := observe(h)
			// what the setters not called return
			others := map[*setter]any{}
			for _, o := range ss {
				if o != s {
					others[o] = show(o.get(h))
				}
			}
			var err error
			if !c.Guard(s.String(), func() { err = s.set(h, v) }) {
				return
			}
			trace := func() string { return strings.Join(log, " ") + "\nstarted as " + strings.Join(before, " | ") }
			if !legal {
				if err == nil {
					c.Failf("accepted:"+s.String(), "%s accepts %v\n%s", s, show(v), trace())
					return
				}
				if d := diff(before, observe(h)); d != "" {
					c.Failf("changed:"+s.String(), "%s rejects %v but changes the value, %s\n%s", s, show(v), d, trace())
					return
				}
				c.Count("illegal values rejected", 1)
				c.Key("illegal " + s.String() + fmt.Sprint(show(v)))
				continue
			}
			if err != nil {
				c.Failf("rejected:"+s.String(), "%s rejects %v: %v\n%s", s, show(v), err, trace())
				return
			}
			if got := show(s.get(h)); got != show(v) {
				c.Failf("readback:"+s.String(), "%s(%v) reads back as %v\n%s", s, show(v), got, trace())
				return
			}
			for o, was := range others {
				if now := show(o.get(h)); now != was {
					c.Failf("other:"+s.String(), "%s(%v) changes what %s set from %v to %v\n%s", s, show(v), o.name, was, now, trace())
					return
				}
			}
			set[s] = v
			c.Count("legal values set", 1)
			c.Key("legal " + s.String() + fmt.Sprint(show(v)))
		}
		x, err := reparse(h)
		if err != nil {
			c.Failf("reparse:"+kind, "the encoding %q is rejected: %v\n%s", h.String(), err, strings.Join(log, " "))
			return
		}
		for s, v := range set {
			if s.unset(v) {
				if got, was := show(s.get(x)), show(v); got != was {
					c.Failf("unset:"+s.String(), "%s(%v) leaves %v in the encoding %q", s, was, got, h.String())
				}
				continue
			}
			if got := show(s.get(x)); got != show(v) {
				c.Failf("encoded:"+s.String(), "%s(%v) is encoded as %v: %q\n%s", s, show(v), got, h.String(), strings.Join(log, " "))
			}
		}
		if d := diff(observe(h), observe(x)); d != "" {
			c.Failf("encoding:"+kind, "the encoding parses to another value, %s\n%s", d, strings.Join(log, " "))
		}
		if c.WantSample() {
			c.Sample("%s on %s gives %q", strings.Join(log, " "), kind, h.String())
		}
		c.Count("sequences", 1)
	}
	handlers := map[string]mon.Handler{}
	for _, k := range kinds {
		handlers["any "+k] = func(c *mon.C, data []byte) { run(c, k, nil) }
	}
	for _, s := range setters {
		handlers[s.String()] = func(c *mon.C, data []byte) { run(c, s.kind, s) }
	}
	// Lists of names: one bad name anywhere leaves the list as it was.
	type methodser interface {
		header.SIPHeaderLister
		SetMethods(l *list.List) error
		String() string
	}
	lists := map[string]func() methodser{
		"Allow":        func() methodser { return header.NewAllowList() },
		"Allow-Events": func() methodser { return header.NewAllowEventsList() },
	}
	for name, mk := range lists {
		handlers["names "+name] = func(c *mon.C, data []byte) {
			g := gen.New(c.RNG())
			l := mk()
			for n := g.N(3); n > 0; n-- {
				h, _ := gen.KindOf(name).Gen(g).Build()
				l.PushBack(h)
			}
			before := append(gen.Observe(l), l.String())
			in := list.New()
			bad := false
			for n := 1 + g.N(4); n > 0; n-- {
				if g.P(5) {
					bad = true
					if g.P(2) {
						in.PushBack(7)
					} else {
						in.PushBack("")
					}
				} else {
					in.PushBack(g.Token())
				}
			}
			var err error
			if !c.Guard("SetMethods", func() { err = l.SetMethods(in) }) {
				return
			}
			if bad != (err != nil) {
				c.Failf("names:"+name, "SetMethods with bad=%v gives %v", bad, err)
				return
			}
			if bad {
				if d := diff(before, append(gen.Observe(l), l.String())); d != "" {
					c.Failf("names:"+name, "SetMethods fails and changes the list, %s", d)
				}
				c.Count("illegal values rejected", 1)
				return
			}
			have := map[string]bool{}
			for e := l.Front(); e != nil; e = e.Next() {
				switch t := e.Value.(type) {
				case *header.Allow:
					have[t.GetMethod()] = true
				case *header.AllowEvents:
					have[t.GetEventType()] = true
				}
			}
			for e := in.Front(); e != nil; e = e.Next() {
				if !have[e.Value.(string)] {
					c.Failf("names:"+name, "SetMethods loses %v: %q", e.Value, l.String())
				}
			}
			c.Count("legal values set", 1)
			c.Key(l.String())
		}
	}
	mon.Register(&mon.Prop{ID: "S14", Handlers: handlers,
		Rule: fmt.Sprintf("a header (or SIP URI) built or parsed at random, then 1–12 calls of its setters with values inside, outside and at both sides of each limit (%d setters of %d kinds); non-trivial: each distinct (setter, value) answered as documented, with the value read back, encoded and read again, all other setters' values untouched, and a rejected value leaving accessors and encoding as they were", len(setters), len(kinds)),
		Plan: func(p *mon.Plan) {
			for _, s := range setters {
				p.Seeds(s.String(), p.N(4000, 60000))
			}
			for _, k := range kinds {
				p.Seeds("any "+k, p.N(8000, 100000))
			}
			p.Seeds("names Allow", p.N(8000, 100000))
			p.Seeds("names Allow-Events", p.N(8000, 100000))
		},
		MinEvents: []string{"legal values set", "illegal values rejected", "sequences"},
	})
}
