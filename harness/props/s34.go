package props

import (
	"container/list"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/rtp"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
)

// A bag is an object seen as a set of fields, each of which holds a value or
// is absent. It is edited by ops and read by its fields; the model of a bag is
// a map from field name to value, without the absent ones.
type fieldBag struct {
	kind   string
	obj    any
	fields []bagField
	ops    []bagOp
	encode func() string
	canon  func(m map[string]string) string // what it encodes to (optional)
}

type bagField struct {
	name, absent string
	get          func() string
}

// A bagOp edits the object and says (by editing the model) what that means.
type bagOp struct {
	name string
	do   func(g *gen.G, m map[string]string) (call string, err error)
}

func (b *fieldBag) field(name, absent string, get func() string) {
	b.fields = append(b.fields, bagField{name, absent, get})
}

func (b *fieldBag) op(name string, do func(g *gen.G, m map[string]string) (string, error)) {
	b.ops = append(b.ops, bagOp{name, do})
}

// text is a field that a setter sets.
func (b *fieldBag) text(name string, mk func(g *gen.G) string, set func(string) error, get func() string) {
	b.field(name, "", get)
	b.setText(name, mk, set)
}

func (b *fieldBag) setText(name string, mk func(g *gen.G) string, set func(string) error) {
	b.op("set "+name, func(g *gen.G, m map[string]string) (string, error) {
		v := mk(g)
		if cur, ok := m[name]; ok && cur != "" && g.P(8) && !strings.HasPrefix(v, "SIP/") { // nearly what it is
			v = g.Pick(cur, strings.ToUpper(cur), strings.ToLower(cur))
		}
		m[name] = v
		return fmt.Sprintf("%q", v), set(v)
	})
}

// num is a field that holds a number; absent is what it reads without one.
func (b *fieldBag) num(name string, lo, hi, absent int, set func(int) error, get func() int) {
	b.field(name, strconv.Itoa(absent), func() string { return strconv.Itoa(get()) })
	b.op("set "+name, func(g *gen.G, m map[string]string) (string, error) {
		v := g.Int(lo, hi)
		m[name] = strconv.Itoa(v)
		return m[name], set(v)
	})
}

func (b *fieldBag) float(name string, hi, absent float32, set func(float32) error, get func() float32) {
	b.field(name, fmt.Sprint(absent), func() string { return fmt.Sprint(get()) })
	b.op("set "+name, func(g *gen.G, m map[string]string) (string, error) {
		v := float32(g.N(1001)) / 1000 * hi
		if g.P(4) {
			v = g.R.Float32() * hi
		}
		m[name] = fmt.Sprint(v)
		return m[name], set(v)
	})
}

// has is a question that is answered from another field.
func (b *fieldBag) has(name, field string, get func() bool) {
	b.field(name, "false", func() string { return strconv.FormatBool(get()) })
}

func (b *fieldBag) remove(name string, do func()) {
	b.op("remove "+name, func(g *gen.G, m map[string]string) (string, error) {
		delete(m, name)
		do()
		return "", nil
	})
}

func noErr(f func(string)) func(string) error { return func(s string) error { f(s); return nil } }
func noErrN(f func(int)) func(int) error      { return func(n int) error { f(n); return nil } }
func tok(g *gen.G) string                     { return g.Token() }
func plainText(g *gen.G) string               { return g.Text() }

// parameterised is what every header with parameters has.
type parameterised interface {
	GetParameter(string) string
	HasParameter(string) bool
	HasParameters() bool
	RemoveParameter(string)
	RemoveParameters()
	SetParameter(string, string) error
	SetQuotedParameter(string, string)
}

// params adds two parameters of its own, and the removal of the parameters
// that the given fields live in.
func (b *fieldBag) params(h parameterised, backed map[string]string) {
	all := map[string]string{"zz1": "zz1", "zz2": "zz2"}
	for p, f := range backed {
		all[p] = f
	}
	for _, n := range []string{"zz1", "zz2"} {
		b.field(n, "", func() string { return h.GetParameter(n) })
		b.op("SetParameter "+n, func(g *gen.G, m map[string]string) (string, error) {
			if m[n] = g.Token(); g.P(12) {
				m[n] = "" // a parameter without a value
			}
			return m[n], h.SetParameter(n, m[n])
		})
		b.op("SetQuotedParameter "+n, func(g *gen.G, m map[string]string) (string, error) {
			m[n] = g.QText(1)
			h.SetQuotedParameter(n, m[n])
			return m[n], nil
		})
	}
	var names []string
	for n := range all {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := all[n]
		b.op("RemoveParameter "+n, func(g *gen.G, m map[string]string) (string, error) {
			delete(m, f)
			if g.P(4) {
				h.RemoveParameter(strings.ToUpper(n))
			} else {
				h.RemoveParameter(n)
			}
			return "", nil
		})
		// HasParameter and HasParameters follow the model
		b.field("has parameter "+n, "?"+f, func() string { return strconv.FormatBool(h.HasParameter(n)) })
	}
	b.field("has parameters", "?"+strings.Join(sortedVals(all), "|"), func() string { return strconv.FormatBool(h.HasParameters()) })
	b.op("RemoveParameters", func(g *gen.G, m map[string]string) (string, error) {
		if !g.P(3) {
			return "(not done)", nil
		}
		for _, f := range all {
			delete(m, f)
		}
		h.RemoveParameters()
		return "", nil
	})
}

func sortedVals(m map[string]string) (out []string) {
	for _, v := range m {
		out = append(out, v)
	}
	sort.Strings(out)
	return out
}

// want is what a field reads in a model. An absent value "?a|b" asks whether
// one of these fields is present.
func (f *bagField) want(m map[string]string) string {
	if q, ok := strings.CutPrefix(f.absent, "?"); ok {
		for _, n := range strings.Split(q, "|") {
			if _, ok := m[n]; ok {
				return "true"
			}
		}
		return "false"
	}
	if v, ok := m[f.name]; ok {
		return v
	}
	return f.absent
}

func (b *fieldBag) asks(name, field string, get func() bool) {
	b.field(name, "?"+field, func() string { return strconv.FormatBool(get()) })
}

func bagURI(u address.URI) string {
	if u == nil || reflect.ValueOf(u).IsNil() {
		return ""
	}
	return u.String()
}

func bagAddr(a address.Address) string {
	if a == nil || reflect.ValueOf(a).IsNil() {
		return ""
	}
	return a.String()
}

func (b *fieldBag) uri(name string, set func(address.URI), get func() address.URI) {
	b.field(name, "", func() string { return bagURI(get()) })
	b.op("set "+name, func(g *gen.G, m map[string]string) (string, error) {
		u := g.URI(gen.URIOpt{}).Build()
		m[name] = u.String()
		set(u)
		return m[name], nil
	})
}

func (b *fieldBag) addr(h interface {
	GetAddress() address.Address
	SetAddress(address.Address)
}) {
	b.field("address", "", func() string { return bagAddr(h.GetAddress()) })
	b.op("SetAddress", func(g *gen.G, m map[string]string) (string, error) {
		a := g.Addr(true, gen.URIOpt{}).Build()
		m["address"] = a.String()
		m["display name"] = a.GetDisplayName()
		m["host and port"] = hostPortText(a)
		delete(m, "wild card")
		h.SetAddress(a)
		return m["address"], nil
	})
}

func hostPortText(a *address.AddressImpl) string {
	if u, ok := a.GetURI().(*address.SipURIImpl); ok {
		return u.GetHostPort().String()
	}
	return ""
}

var bags = map[string]func() *fieldBag{}

func bagOf(kind string, mk func(b *fieldBag)) {
	bags[kind] = func() *fieldBag {
		b := &fieldBag{kind: kind}
		mk(b)
		sort.SliceStable(b.ops, func(i, j int) bool { return b.ops[i].name < b.ops[j].name })
		return b
	}
}

func qValue(b *fieldBag, h interface {
	parameterised
	GetQValue() float32
	HasQValue() bool
	RemoveQValue()
	SetQValue(float32) error
}, more map[string]string) {
	b.float("q", 1, -1, h.SetQValue, h.GetQValue)
	b.asks("has q", "q", h.HasQValue)
	b.remove("q", h.RemoveQValue)
	if more == nil {
		more = map[string]string{}
	}
	more["q"] = "q"
	b.params(h, more)
}

func tagOf(b *fieldBag, h interface {
	parameterised
	GetTag() string
	HasTag() bool
	RemoveTag()
	SetTag(string) error
}) {
	b.text("tag", tok, h.SetTag, h.GetTag)
	b.asks("has tag", "tag", h.HasTag)
	b.op("SetParameter tag", func(g *gen.G, m map[string]string) (string, error) {
		if m["tag"] = g.Token(); g.P(4) {
			m["tag"] = "" // a parameter without a value
		}
		return m["tag"], h.SetParameter("tag", m["tag"])
	})
	b.remove("tag", h.RemoveTag)
	b.params(h, map[string]string{"tag": "tag"})
}

func addrOf(b *fieldBag, h interface {
	GetDisplayName() string
}, hp func() *core.HostPort) {
	b.field("display name", "", h.GetDisplayName)
	b.field("host and port", "", func() string {
		if x := hp(); x != nil {
			return x.String()
		}
		return ""
	})
}

type optionTag interface {
	SetOptionTag(string) error
	GetOptionTag() string
}

func init() {
	bagOf("Accept", func(b *fieldBag) {
		h := header.NewAccept()
		b.obj, b.encode = h, h.String
		b.text("type", tok, noErr(h.SetContentType), h.GetContentType)
		b.text("subtype", tok, noErr(h.SetContentSubType), h.GetContentSubType)
		b.op("SetContentType *", func(g *gen.G, m map[string]string) (string, error) {
			m["type"] = "*"
			h.SetContentType("*")
			return "", nil
		})
		b.op("SetContentSubType *", func(g *gen.G, m map[string]string) (string, error) {
			m["subtype"] = "*"
			h.SetContentSubType("*")
			return "", nil
		})
		b.field("allows all types", "?type=*", func() string { return strconv.FormatBool(h.AllowsAllContentTypes()) })
		b.field("allows all subtypes", "?subtype=*", func() string { return strconv.FormatBool(h.AllowsAllContentSubTypes()) })
		b.op("SetMediaRange", func(g *gen.G, m map[string]string) (string, error) {
			r := header.NewMediaRange()
			m["type"], m["subtype"] = g.Token(), g.Token()
			r.SetType(m["type"])
			r.SetSubtype(m["subtype"])
			h.SetMediaRange(r)
			return r.String(), nil
		})
		qValue(b, h, nil)
	})
	bagOf("Accept-Encoding", func(b *fieldBag) {
		h := header.NewAcceptEncoding()
		b.obj, b.encode = h, h.String
		b.text("encoding", tok, h.SetEncoding, h.GetEncoding)
		qValue(b, h, nil)
	})
	bagOf("Accept-Language", func(b *fieldBag) {
		h := header.NewAcceptLanguage()
		b.obj, b.encode = h, h.String
		b.text("range", tok, noErr(h.SetLanguageRange), h.GetLanguageRange)
		b.setText("range", tok, noErr(h.SetAcceptLanguage))
		qValue(b, h, nil)
	})
	bagOf("Contact", func(b *fieldBag) {
		h := header.NewContact()
		b.obj, b.encode = h, h.String
		b.addr(h)
		b.has("wild card", "", h.GetWildCardFlag)
		b.op("SetWildCardFlag", func(g *gen.G, m map[string]string) (string, error) {
			w := g.P(2)
			if w {
				m["wild card"], m["address"] = "true", "*"
			} else if m["wild card"] == "true" {
				delete(m, "wild card")
				delete(m, "address")
			}
			h.SetWildCardFlag(w)
			return strconv.FormatBool(w), nil
		})
		b.op("SetAddress *", func(g *gen.G, m map[string]string) (string, error) {
			a := address.NewAddressImpl()
			a.SetWildCardFlag()
			m["wild card"], m["address"] = "true", "*"
			h.SetAddress(a)
			return "*", nil
		})
		b.num("expires", 0, gen.MaxInt32, 0, h.SetExpires, h.GetExpires)
		qValue(b, h, map[string]string{"expires": "expires"})
	})
	bagOf("From", func(b *fieldBag) {
		h := header.NewFrom()
		b.obj, b.encode = h, h.String
		b.addr(h)
		addrOf(b, h, func() *core.HostPort { x, _ := h.GetHostPort(); return x })
		tagOf(b, h)
	})
	bagOf("To", func(b *fieldBag) {
		h := header.NewTo()
		b.obj, b.encode = h, h.String
		b.addr(h)
		addrOf(b, h, func() *core.HostPort { x, _ := h.GetHostPort(); return x })
		tagOf(b, h)
	})
	bagOf("Reply-To", func(b *fieldBag) {
		h := header.NewReplyTo()
		b.obj, b.encode = h, h.String
		b.addr(h)
		addrOf(b, h, h.GetHostPort)
		b.params(h, nil)
	})
	bagOf("Refer-To", func(b *fieldBag) {
		h := header.NewReferTo()
		b.obj, b.encode = h, h.String
		b.addr(h)
		b.params(h, nil)
	})
	bagOf("Route", func(b *fieldBag) {
		h := header.NewRoute()
		b.obj, b.encode = h, h.String
		b.addr(h)
		b.params(h, nil)
	})
	bagOf("Record-Route", func(b *fieldBag) {
		h := header.NewRecordRoute()
		b.obj, b.encode = h, h.String
		b.addr(h)
		b.params(h, nil)
	})
	bagOf("Alert-Info", func(b *fieldBag) {
		h := header.NewAlertInfo()
		b.obj, b.encode = h, h.String
		b.uri("uri", h.SetAlertInfo, h.GetAlertInfo)
		b.params(h, nil)
	})
	bagOf("Call-Info", func(b *fieldBag) {
		h := header.NewCallInfo()
		b.obj, b.encode = h, h.String
		b.uri("uri", h.SetInfo, h.GetInfo)
		b.text("purpose", tok, h.SetPurpose, h.GetPurpose)
		b.params(h, map[string]string{"purpose": "purpose"})
	})
	bagOf("Error-Info", func(b *fieldBag) {
		h := header.NewErrorInfo()
		b.obj, b.encode = h, h.String
		b.uri("uri", h.SetErrorInfo, h.GetErrorInfo)
		b.text("message", tok, h.SetErrorMessage, h.GetErrorMessage)
		b.params(h, map[string]string{"message": "message"})
	})
	for kind, mk := range map[string]func() optionTag{
		"Require":       func() optionTag { return header.NewRequire() },
		"Proxy-Require": func() optionTag { return header.NewProxyRequire() },
		"Supported":     func() optionTag { return header.NewSupported() },
		"Unsupported":   func() optionTag { return header.NewUnsupported() },
	} {
		bagOf(kind, func(b *fieldBag) {
			h := mk()
			b.obj, b.encode = h, h.(header.Header).String
			b.text("option tag", tok, h.SetOptionTag, h.GetOptionTag)
		})
	}
	bagOf("Allow", func(b *fieldBag) {
		h := header.NewAllow()
		b.obj, b.encode = h, h.String
		b.text("method", func(g *gen.G) string { return g.Method() }, h.SetMethod, h.GetMethod)
	})
	bagOf("Allow-Events", func(b *fieldBag) {
		h := header.NewAllowEvents()
		b.obj, b.encode = h, h.String
		b.text("event type", tok, h.SetEventType, h.GetEventType)
	})
	bagOf("Content-Encoding", func(b *fieldBag) {
		h := header.NewContentEncoding()
		b.obj, b.encode = h, h.String
		b.text("encoding", tok, h.SetEncoding, h.GetEncoding)
	})
	bagOf("Content-Language", func(b *fieldBag) {
		h := header.NewContentLanguage()
		b.obj, b.encode = h, h.String
		b.text("tag", tok, noErr(h.SetLanguageTag), h.GetLanguageTag)
		b.setText("tag", tok, noErr(h.SetContentLanguage))
	})
	callID := func(name string, b *fieldBag, set func(string) error, get func() string) {
		b.text(name, func(g *gen.G) string { return g.CallID() }, set, get)
	}
	bagOf("Call-ID", func(b *fieldBag) {
		h := &header.CallID{}
		b.obj, b.encode = h, h.EncodeBody
		callID("id", b, h.SetCallId, h.GetCallId)
		b.op("SetCallIdentifier", func(g *gen.G, m map[string]string) (string, error) {
			v := g.CallID()
			id, err := header.NewCallIdentifier(v)
			if err == nil {
				h.SetCallIdentifier(id)
			}
			m["id"] = v
			return v, err
		})
		b.op("edit identifier", func(g *gen.G, m map[string]string) (string, error) {
			id := h.GetCallIdentifer()
			if id == nil {
				return "(none)", nil
			}
			old := strings.SplitN(m["id"], "@", 2)
			if g.P(2) {
				old[0] = g.Word()
				id.SetLocalId(old[0])
			} else {
				old = append(old[:1], g.Label())
				id.SetHost(old[1])
			}
			m["id"] = strings.Join(old, "@")
			return m["id"], nil
		})
	})
	bagOf("call identifier", func(b *fieldBag) {
		h := &header.CallIdentifier{}
		b.obj, b.encode = h, h.String
		b.text("local", tok, noErr(h.SetLocalId), h.GetLocalId)
		b.text("host", func(g *gen.G) string { return g.Label() }, noErr(h.SetHost), h.GetHost)
		b.op("SetCallID", func(g *gen.G, m map[string]string) (string, error) {
			v := g.CallID()
			if g.P(6) { // the first one separates
				v += "@" + g.Word()
			}
			a, z, ok := strings.Cut(v, "@")
			m["local"] = a
			delete(m, "host")
			if ok {
				m["host"] = z
			}
			return v, h.SetCallID(v)
		})
	})
	bagOf("In-Reply-To", func(b *fieldBag) {
		h := header.NewInReplyTo()
		b.obj, b.encode = h, h.String
		callID("id", b, h.SetCallId, h.GetCallId)
	})
	bagOf("Content-Disposition", func(b *fieldBag) {
		h := header.NewContentDisposition()
		b.obj, b.encode = h, h.String
		b.text("type", tok, h.SetDispositionType, h.GetDispositionType)
		b.text("handling", tok, h.SetHandling, h.GetHandling)
		b.params(h, map[string]string{"handling": "handling"})
	})
	bagOf("Content-Length", func(b *fieldBag) {
		h := header.NewContentLength()
		b.obj, b.encode = h, h.String
		b.num("length", 0, gen.MaxInt31, 0, h.SetContentLength, h.GetContentLength)
	})
	bagOf("Content-Type", func(b *fieldBag) {
		h := header.NewContentType()
		b.obj, b.encode = h, h.String
		b.text("type", tok, h.SetContentType, h.GetContentType)
		b.text("subtype", tok, h.SetContentSubType, h.GetContentSubType)
		b.field("media type", "=type", h.GetMediaType)
		b.field("media subtype", "=subtype", h.GetMediaSubType)
		b.op("SetContentTypeSubType", func(g *gen.G, m map[string]string) (string, error) {
			m["type"], m["subtype"] = g.Token(), g.Token()
			h.SetContentTypeSubType(m["type"], m["subtype"])
			return m["type"] + "/" + m["subtype"], nil
		})
		b.op("SetMediaRange", func(g *gen.G, m map[string]string) (string, error) {
			r := header.NewMediaRange()
			m["type"], m["subtype"] = g.Token(), g.Token()
			r.SetType(m["type"])
			r.SetSubtype(m["subtype"])
			h.SetMediaRange(r)
			return r.String(), nil
		})
		b.text("charset", tok, func(s string) error { return h.SetParameter("charset", s) }, h.GetCharSet)
		b.params(h, map[string]string{"charset": "charset"})
	})
	bagOf("CSeq", func(b *fieldBag) {
		h := &header.CSeq{}
		b.obj, b.encode = h, h.EncodeBody
		b.num("number", 0, 1<<33, 0, h.SetSequenceNumber, h.GetSequenceNumber)
		b.text("method", func(g *gen.G) string {
			if g.P(3) {
				return strings.ToLower(g.Method())
			}
			return g.Method()
		}, h.SetMethod, h.GetMethod)
		b.canon = func(m map[string]string) string {
			n := m["number"]
			if n == "" {
				n = "0"
			}
			return n + " " + strings.ToUpper(m["method"])
		}
	})
	bagOf("Date", func(b *fieldBag) {
		h := header.NewDate()
		b.obj, b.encode = h, h.String
		b.field("date", "", func() string {
			if t := h.GetDate(); t != nil {
				return t.UTC().Format(time.RFC3339Nano)
			}
			return ""
		})
		b.op("SetDate", func(g *gen.G, m map[string]string) (string, error) {
			t := time.Unix(int64(g.R.Uint64()%(1<<35)), 0).UTC()
			m["date"] = t.Format(time.RFC3339Nano)
			h.SetDate(&t)
			return m["date"], nil
		})
	})
	bagOf("Event", func(b *fieldBag) {
		h := header.NewEvent()
		b.obj, b.encode = h, h.String
		b.text("type", tok, h.SetEventType, h.GetEventType)
		b.text("id", tok, h.SetEventId, h.GetEventId)
		b.params(h, map[string]string{"id": "id"})
	})
	bagOf("Expires", func(b *fieldBag) {
		h := header.NewExpires()
		b.obj, b.encode = h, h.String
		b.num("expires", 0, gen.MaxInt32, 0, h.SetExpires, h.GetExpires)
	})
	bagOf("Min-Expires", func(b *fieldBag) {
		h := header.NewMinExpires()
		b.obj, b.encode = h, h.String
		b.num("expires", 0, gen.MaxInt32, 0, h.SetExpires, h.GetExpires)
	})
	bagOf("Max-Forwards", func(b *fieldBag) {
		h := header.NewMaxForwards()
		b.obj, b.encode = h, h.String
		b.num("hops", 0, 255, 0, h.SetMaxForwards, h.GetMaxForwards)
		b.field("reached zero", "=hops=0", func() string { return strconv.FormatBool(h.HasReachedZero()) })
		b.op("DecrementMaxForwards", func(g *gen.G, m map[string]string) (string, error) {
			n, _ := strconv.Atoi(m["hops"])
			err := h.DecrementMaxForwards()
			if n == 0 {
				if err == nil {
					return "", fmt.Errorf("decremented below zero")
				}
				return "(at zero)", nil
			}
			m["hops"] = strconv.Itoa(n - 1)
			return "", err
		})
	})
	bagOf("MIME-Version", func(b *fieldBag) {
		h := header.NewMimeVersion()
		b.obj, b.encode = h, h.String
		b.num("major", 0, gen.MaxInt31, 0, h.SetMajorVersion, h.GetMajorVersion)
		b.num("minor", 0, gen.MaxInt31, 0, h.SetMinorVersion, h.GetMinorVersion)
	})
	bagOf("Organization", func(b *fieldBag) {
		h := header.NewOrganization()
		b.obj, b.encode = h, h.String
		b.text("organization", plainText, h.SetOrganization, h.GetOrganization)
	})
	bagOf("Priority", func(b *fieldBag) {
		h := header.NewPriority()
		b.obj, b.encode = h, h.String
		b.text("priority", tok, h.SetPriority, h.GetPriority)
	})
	bagOf("Subject", func(b *fieldBag) {
		h := header.NewSubject()
		b.obj, b.encode = h, h.String
		b.text("subject", plainText, h.SetSubject, h.GetSubject)
	})
	bagOf("RAck", func(b *fieldBag) {
		h := header.NewRAck()
		b.obj, b.encode = h, h.String
		b.num("rseq", 1, gen.MaxInt32, 0, h.SetRSeqNumber, h.GetRSeqNumber)
		b.num("cseq", 1, gen.MaxInt31, 0, h.SetCSeqNumber, h.GetCSeqNumber)
		b.text("method", func(g *gen.G) string { return g.Method() }, h.SetMethod, h.GetMethod)
	})
	bagOf("RSeq", func(b *fieldBag) {
		h := header.NewRSeq()
		b.obj, b.encode = h, h.String
		b.num("number", 1, gen.MaxInt32, 0, h.SetSequenceNumber, h.GetSequenceNumber)
	})
	bagOf("Reason", func(b *fieldBag) {
		h := header.NewReason()
		b.obj, b.encode = h, h.String
		b.text("protocol", tok, h.SetProtocol, h.GetProtocol)
		b.num("cause", 0, gen.MaxInt32, 0, h.SetCause, h.GetCause)
		b.text("text", func(g *gen.G) string { return g.QText(1) }, h.SetText, h.GetText)
		b.params(h, map[string]string{"cause": "cause", "text": "text"})
	})
	bagOf("Retry-After", func(b *fieldBag) {
		h := header.NewRetryAfter()
		b.obj, b.encode = h, h.String
		b.num("delay", 0, gen.MaxInt32, 0, h.SetRetryAfter, h.GetRetryAfter)
		b.text("comment", func(g *gen.G) string { return g.Comment() }, h.SetComment, h.GetComment)
		b.asks("has comment", "comment", h.HasComment)
		b.remove("comment", h.RemoveComment)
		b.num("duration", 0, gen.MaxInt32, 0, h.SetDuration, h.GetDuration)
		b.remove("duration", h.RemoveDuration)
		b.params(h, map[string]string{"duration": "duration"})
	})
	bagOf("Subscription-State", func(b *fieldBag) {
		h := header.NewSubscriptionState()
		b.obj, b.encode = h, h.String
		b.text("state", tok, h.SetState, h.GetState)
		b.text("reason", tok, h.SetReasonCode, h.GetReasonCode)
		b.num("expires", 1, gen.MaxInt32, -1, h.SetExpires, h.GetExpires)
		b.num("retry after", 1, gen.MaxInt32, -1, h.SetRetryAfter, h.GetRetryAfter)
		b.params(h, nil)
	})
	bagOf("Timestamp", func(b *fieldBag) {
		h := header.NewTimeStamp()
		b.obj, b.encode = h, h.String
		b.float("time", 1000, 0, h.SetTimeStamp, h.GetTimeStamp)
		b.float("delay", 1000, -1, h.SetDelay, h.GetDelay)
		b.asks("has delay", "delay", h.HasDelay)
		b.remove("delay", h.RemoveDelay)
	})
	bagOf("Warning", func(b *fieldBag) {
		h := header.NewWarning()
		b.obj, b.encode = h, h.String
		b.num("code", 300, 399, 0, h.SetCode, h.GetCode)
		b.text("agent", tok, h.SetAgent, h.GetAgent)
		b.text("text", func(g *gen.G) string { return g.QText(1) }, h.SetText, h.GetText)
	})
	bagOf("Via", func(b *fieldBag) {
		h := header.NewVia()
		b.obj, b.encode = h, h.String
		b.field("protocol", "SIP", h.GetProtocol)
		b.setText("protocol", tok, h.SetProtocol)
		b.field("version", "2.0", h.GetProtocolVersion)
		b.setText("version", tok, noErr(h.SetProtocolVersion))
		b.field("transport", "UDP", func() string { return strings.ToUpper(h.GetTransport()) })
		b.op("SetSentProtocol", func(g *gen.G, m map[string]string) (string, error) {
			p := header.NewProtocol()
			m["protocol"], m["version"], m["transport"] = g.Token(), g.Token(), strings.ToUpper(g.Token())
			p.SetProtocolName(m["protocol"])
			p.SetProtocolVersion(m["version"])
			p.SetTransport(m["transport"])
			h.SetSentProtocol(p)
			return p.String(), nil
		})
		b.op("SetTransport", func(g *gen.G, m map[string]string) (string, error) {
			m["transport"] = strings.ToUpper(g.Token())
			h.GetSentProtocol().SetTransport(m["transport"])
			return m["transport"], nil
		})
		b.text("host", func(g *gen.G) string { return viaHost(g) }, h.SetHostFromString, h.GetHost)
		b.op("SetHost", func(g *gen.G, m map[string]string) (string, error) {
			m["host"] = viaHost(g)
			h.SetHost(core.NewHost(m["host"]))
			return m["host"], nil
		})
		b.num("port", 0, 65535, -1, noErrN(h.SetPort), h.GetPort)
		b.asks("has port", "port", h.HasPort)
		b.remove("port", h.RemovePort)
		b.op("SetSentBy", func(g *gen.G, m map[string]string) (string, error) {
			hp := core.NewHostPort()
			m["host"] = viaHost(g)
			hp.SetHost(core.NewHost(m["host"]))
			delete(m, "port")
			if g.P(2) {
				n := g.Int(0, 65535)
				hp.SetPort(n)
				m["port"] = strconv.Itoa(n)
			}
			h.SetSentBy(hp)
			return hp.String(), nil
		})
		b.text("comment", func(g *gen.G) string { return g.Comment() }, noErr(h.SetComment), h.GetComment)
		b.asks("has comment", "comment", h.HasComment)
		b.remove("comment", h.RemoveComment)
		b.num("ttl", 0, 255, -1, h.SetTTL, h.GetTTL)
		b.text("maddr", func(g *gen.G) string { return viaHost(g) }, h.SetMAddr, h.GetMAddr)
		b.text("received", func(g *gen.G) string { return viaHost(g) }, h.SetReceived, h.GetReceived)
		b.text("branch", func(g *gen.G) string { return g.Branch() }, h.SetBranch, h.GetBranch)
		b.params(h, map[string]string{"ttl": "ttl", "maddr": "maddr", "received": "received", "branch": "branch"})
	})
	bagOf("Via protocol", func(b *fieldBag) {
		h := header.NewProtocol()
		b.obj, b.encode = h, h.String
		b.fields = append(b.fields,
			bagField{"name", "SIP", h.GetProtocolName},
			bagField{"version", "2.0", h.GetProtocolVersion},
			bagField{"transport", "UDP", h.GetTransport})
		b.setText("name", tok, noErr(h.SetProtocolName))
		b.setText("version", tok, noErr(h.SetProtocolVersion))
		b.setText("transport", func(g *gen.G) string { return strings.ToUpper(g.Token()) }, noErr(h.SetTransport))
	})
	bagOf("media range", func(b *fieldBag) {
		h := header.NewMediaRange()
		b.obj, b.encode = h, h.String
		b.text("type", tok, noErr(h.SetType), h.GetType)
		b.text("subtype", tok, noErr(h.SetSubtype), h.GetSubtype)
	})
	bagOf("Extension", func(b *fieldBag) {
		h := header.NewExtension("X-One")
		b.obj, b.encode = h, h.String
		b.field("name", "X-One", h.GetName)
		b.setText("name", func(g *gen.G) string { return g.ExtName() }, noErr(h.SetName))
		b.text("value", plainText, noErr(h.SetValue), h.GetValue)
		b.field("header value", "=value", h.GetHeaderValue)
	})
	bagOf("request line", func(b *fieldBag) {
		h := header.NewRequestLine()
		b.obj, b.encode = h, h.String
		b.text("method", func(g *gen.G) string { return g.Method() }, noErr(h.SetMethod), h.GetMethod)
		b.uri("uri", h.SetUri, h.GetUri)
		b.field("version", "SIP/2.0", h.GetSipVersion)
		ver := func(g *gen.G) string { return fmt.Sprintf("SIP/%d.%d", g.N(30), g.N(30)) }
		b.setText("version", ver, noErr(h.SetSipVersion))
		b.setText("version", ver, noErr(h.SetSIPVersion))
		b.field("major", "=version", func() string { return "SIP/" + h.GetVersionMajor() + "." + h.GetVersionMinor() })
	})
	bagOf("status line", func(b *fieldBag) {
		h := header.NewStatusLine()
		b.obj, b.encode = h, h.String
		b.num("code", 100, 699, 0, noErrN(h.SetStatusCode), h.GetStatusCode)
		b.text("phrase", plainText, noErr(h.SetReasonPhrase), h.GetReasonPhrase)
		b.field("version", "SIP/2.0", h.GetSipVersion)
		ver := func(g *gen.G) string { return fmt.Sprintf("SIP/%d.%d", g.N(30), g.N(30)) }
		b.setText("version", ver, noErr(h.SetSipVersion))
		b.field("major", "=version", func() string { return "SIP/" + h.GetVersionMajor() + "." + h.GetVersionMinor() })
	})
	bagOf("address", func(b *fieldBag) {
		h := address.NewAddressImpl()
		b.obj = h
		b.text("display name", func(g *gen.G) string { return g.QText(1) }, noErr(h.SetDisplayName), h.GetDisplayName)
		b.asks("has display name", "display name", h.HasDisplayName)
		b.remove("display name", h.RemoveDisplayName)
		b.uri("uri", h.SetURI, h.GetURI)
		b.op("SetAddess", func(g *gen.G, m map[string]string) (string, error) {
			u := g.URI(gen.URIOpt{}).Build()
			m["uri"] = u.String()
			h.SetAddess(u)
			return m["uri"], nil
		})
	})
	bagOf("Authentication-Info", func(b *fieldBag) {
		h := header.NewAuthenticationInfo()
		b.obj, b.encode = h, h.String
		b.text("cnonce", tok, h.SetCNonce, h.GetCNonce)
		b.text("nextnonce", tok, h.SetNextNonce, h.GetNextNonce)
		b.num("nonce count", 0, gen.MaxInt31, -1, h.SetNonceCount, h.GetNonceCount)
		b.text("qop", tok, h.SetQop, h.GetQop)
		b.text("response", tok, h.SetResponse, h.GetResponse)
		b.params(h, map[string]string{"cnonce": "cnonce", "nextnonce": "nextnonce", "nc": "nonce count", "qop": "qop", "rspauth": "response"})
	})
	type auth interface {
		parameterised
		header.Header
		SetScheme(string)
		GetScheme() string
		SetRealm(string) error
		GetRealm() string
		SetNonce(string) error
		GetNonce() string
		SetURI(address.URI) error
		GetURI() address.URI
		SetAlgorithm(string) error
		GetAlgorithm() string
		SetQop(string) error
		GetQop() string
		SetOpaque(string) error
		GetOpaque() string
		SetDomain(string) error
		GetDomain() string
		SetStale(bool)
		IsStale() bool
		SetCNonce(string) error
		GetCNonce() string
		SetNonceCount(int) error
		GetNonceCount() int
		SetResponse(string) error
		GetResponse() string
		SetUsername(string) error
		GetUsername() string
		SetChallenge(header.Challenge)
	}
	for kind, mk := range map[string]func() auth{
		"WWW-Authenticate":    func() auth { return header.NewWWWAuthenticate() },
		"Proxy-Authenticate":  func() auth { return header.NewProxyAuthenticate() },
		"Authorization":       func() auth { return header.NewAuthorization() },
		"Proxy-Authorization": func() auth { return header.NewProxyAuthorization() },
		"authentication":      func() auth { return header.NewAuthentication("X-Auth") },
	} {
		bagOf(kind, func(b *fieldBag) {
			h := mk()
			b.obj, b.encode = h, h.String
			def := h.GetScheme()
			b.field("scheme", def, h.GetScheme)
			b.setText("scheme", tok, noErr(h.SetScheme))
			q := func(g *gen.G) string { return g.QText(1) }
			b.text("realm", q, h.SetRealm, h.GetRealm)
			b.text("nonce", q, h.SetNonce, h.GetNonce)
			b.text("algorithm", tok, h.SetAlgorithm, h.GetAlgorithm)
			b.text("qop", tok, h.SetQop, h.GetQop)
			b.text("opaque", q, h.SetOpaque, h.GetOpaque)
			b.text("domain", q, h.SetDomain, h.GetDomain)
			b.text("cnonce", q, h.SetCNonce, h.GetCNonce)
			b.text("response", q, h.SetResponse, h.GetResponse)
			b.text("username", q, h.SetUsername, h.GetUsername)
			b.num("nonce count", 0, gen.MaxInt31, -1, h.SetNonceCount, h.GetNonceCount)
			b.field("stale", "false", func() string { return strconv.FormatBool(h.IsStale()) })
			b.op("SetStale", func(g *gen.G, m map[string]string) (string, error) {
				m["stale"] = strconv.FormatBool(g.P(2))
				h.SetStale(m["stale"] == "true")
				return m["stale"], nil
			})
			b.field("uri", "", func() string { return bagURI(h.GetURI()) })
			b.op("SetURI", func(g *gen.G, m map[string]string) (string, error) {
				u := g.SipURI(gen.URIOpt{}).Build()
				m["uri"] = u.String()
				return m["uri"], h.SetURI(u)
			})
			backed := map[string]string{}
			for _, n := range []string{"realm", "nonce", "algorithm", "qop", "opaque", "domain", "cnonce", "response", "username", "stale", "uri"} {
				backed[n] = n
			}
			backed["nc"] = "nonce count"
			b.params(h, backed)
			b.op("SetChallenge", func(g *gen.G, m map[string]string) (string, error) {
				if !g.P(3) {
					return "(not done)", nil
				}
				c := header.NewChallenge()
				sch := g.Token()
				c.SetScheme(sch)
				for _, n := range append(sortedVals(backed), "zz1", "zz2") {
					delete(m, n)
				}
				m["scheme"] = sch
				for _, n := range []string{"realm", "opaque", "zz1"} {
					if g.P(2) {
						m[n] = g.Token()
						c.SetParameter(core.NewNameValue(n, m[n]))
					}
				}
				h.SetChallenge(*c)
				return c.String(), nil
			})
		})
	}
	bagOf("challenge", func(b *fieldBag) {
		h := header.NewChallenge()
		b.obj, b.encode = h, h.String
		o := &ordered{}
		b.canon = func(m map[string]string) string {
			return m["scheme"] + " " + strings.ReplaceAll(o.text(m, nil), ";", ",")
		}
		b.text("scheme", tok, noErr(h.SetScheme), h.GetScheme)
		b.field("scheme encoded", "=scheme", func() string { s, _, _ := strings.Cut(h.String(), " "); return s })
		get := map[string]func() string{"domain": h.GetDomain, "uri": h.GetURI, "opaque": h.GetOpaque, "qop": h.GetQOP,
			"algorithm": h.GetAlgorithm, "stale": h.GetStale, "signature": h.GetSignature, "signed-by": h.GetSignedBy,
			"response": h.GetResponse, "realm": h.GetRealm, "zz": func() string { return h.GetParameter("zz") }}
		var names []string
		for n := range get {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			b.field(n, "", get[n])
			b.field("parameter "+n, "="+n, func() string { return h.GetParameter(n) })
			b.asks("has "+n, n, func() bool { return h.HasParameter(n) })
			b.op("SetParameter "+n, func(g *gen.G, m map[string]string) (string, error) {
				m[n] = g.Token()
				o.put(n)
				h.SetParameter(core.NewNameValue(n, m[n]))
				return m[n], nil
			})
			b.op("RemoveParameter "+n, func(g *gen.G, m map[string]string) (string, error) {
				_, had := m[n]
				delete(m, n)
				o.drop(n)
				if h.RemoveParameter(n) != had {
					return "", fmt.Errorf("reports %v", !had)
				}
				return "", nil
			})
		}
		b.field("has parameters", "?"+strings.Join(names, "|"), func() string { return strconv.FormatBool(h.HasParameters()) })
		clear := func(m map[string]string) {
			for _, n := range names {
				delete(m, n)
				o.drop(n)
			}
		}
		b.op("RemoveParameters", func(g *gen.G, m map[string]string) (string, error) {
			clear(m)
			h.RemoveParameters()
			return "", nil
		})
		b.op("SetAuthParams", func(g *gen.G, m map[string]string) (string, error) {
			clear(m)
			l := core.NewNameValueList("p")
			l.SetSeparator(",")
			for _, n := range names {
				if g.P(3) {
					m[n] = g.Token()
					o.put(n)
					l.AddNameValue(core.NewNameValue(n, m[n]))
				}
			}
			h.SetAuthParams(l)
			return l.String(), nil
		})
	})
	type productHeader struct {
		add func(string)
		get func() []string
		set func([]string) error
	}
	for kind, mk := range map[string]func(b *fieldBag) productHeader{
		"Server": func(b *fieldBag) productHeader {
			h := header.NewServer()
			b.obj, b.encode = h, h.String
			return productHeader{h.AddProductToken, func() []string { return listText(h.GetProduct()) }, func(s []string) error { return h.SetProduct(textList(s)) }}
		},
		"User-Agent": func(b *fieldBag) productHeader {
			h := header.NewUserAgent()
			b.obj, b.encode = h, h.String
			return productHeader{h.AddProductToken, func() []string { return listText(h.GetProduct()) }, func(s []string) error { return h.SetProduct(textList(s)) }}
		},
	} {
		bagOf(kind, func(b *fieldBag) {
			h := mk(b)
			b.field("products", "", func() string { return strings.Join(h.get(), "\x00") })
			b.op("AddProductToken", func(g *gen.G, m map[string]string) (string, error) {
				v := g.Token()
				if old, ok := m["products"]; ok {
					m["products"] = old + "\x00" + v
				} else {
					m["products"] = v
				}
				h.add(v)
				return v, nil
			})
			b.op("SetProduct", func(g *gen.G, m map[string]string) (string, error) {
				v := []string{g.Token()}
				for g.P(2) {
					v = append(v, g.Token())
				}
				m["products"] = strings.Join(v, "\x00")
				return fmt.Sprint(v), h.set(v)
			})
		})
	}
	moreBags()
	var kinds []string
	for k := range bags {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	var makers []string
	for k := range made {
		makers = append(makers, k)
	}
	sort.Strings(makers)

	readAll := func(c *mon.C, b *fieldBag, m map[string]string, log []string) bool {
		for i := range b.fields {
			f := &b.fields[i]
			var got string
			if p := mon.Try(func() { got = f.get() }); p != "" {
				c.Failf("panic:"+b.kind, "reading %s panics: %s\nafter %v", f.name, p, log)
				return false
			}
			want := f.want(m)
			if f.absent == "#version" { // that of a fresh start line, once there is one
				v, ok := m["version"]
				if !ok && got != "" {
					v = "SIP/2.0"
				}
				want = v
			} else if o, ok := strings.CutPrefix(f.absent, "="); ok {
				o, eq, isEq := strings.Cut(o, "=")
				if isEq { // equal to that, or absent and absent means that
					v := m[o]
					if v == "" {
						v = "0"
					}
					want = strconv.FormatBool(v == eq)
				} else {
					for j := range b.fields {
						if b.fields[j].name == o {
							want = b.fields[j].want(m)
						}
					}
				}
			} else if o, eq, ok := strings.Cut(strings.TrimPrefix(f.absent, "?"), "="); ok && f.absent[0] == '?' {
				want = strconv.FormatBool(m[o] == eq)
			}
			if got != want {
				c.Failf("field:"+b.kind, "%s reads %q, expected %q, after %s", f.name, got, want, strings.Join(log, "; "))
				return false
			}
			c.Count("fields read", 1)
		}
		return true
	}
	mon.Register(&mon.Prop{
		ID:    "S34",
		Quick: 2,
		Rule:  "An object of one of the library's kinds is made empty and edited by a random sequence of setters and removers; after every step all its fields are read and compared with a model, all its reading methods are called and it is encoded. Non-trivial: a step on an object; distinct by kind, field, step and presence of the others.",
		Handlers: map[string]mon.Handler{"edit": func(c *mon.C, data []byte) {
			g := gen.New(c.RNG())
			b := bags[kinds[g.N(len(kinds))]]()
			m := map[string]string{}
			var log []string
			v := reflect.ValueOf(b.obj)
			ms := readMethods(v.Type())
			for n := g.N(20); ; n-- {
				if !readAll(c, b, m, log) {
					return
				}
				for _, i := range ms {
					mt := v.Type().Method(i)
					if mt.Type.NumIn() > 1 {
						continue
					}
					if b.encode == nil && (strings.HasPrefix(mt.Name, "Encode") || mt.Name == "String") {
						continue
					}
					if p := mon.Try(func() { v.Method(i).Call(nil) }); p != "" {
						c.Failf("panic:"+b.kind, "%s panics: %s\nafter %s", mt.Name, p, strings.Join(log, "; "))
						return
					}
				}
				if b.encode != nil {
					var x, y string
					if !c.Guard("encoding", func() { x, y = b.encode(), b.encode() }) {
						return
					}
					if x != y {
						c.Failf("encode", "%s encodes as %q, then %q", b.kind, x, y)
						return
					}
					if b.canon != nil {
						if w := b.canon(m); x != w {
							c.Failf("canon:"+b.kind, "encodes as %q, expected %q, after %s", x, w, strings.Join(log, "; "))
							return
						}
						c.Count("encodings compared", 1)
					}
				}
				if n <= 0 {
					break
				}
				op := b.ops[g.N(len(b.ops))]
				was := paramNames(b.obj)
				var call string
				var err error
				if p := mon.Try(func() { call, err = op.do(g, m) }); p != "" {
					c.Failf("panic:"+b.kind, "%s panics: %s\nafter %s", op.name, p, strings.Join(log, "; "))
					return
				}
				log = append(log, op.name+" "+call)
				if err != nil {
					c.Failf("error:"+b.kind, "%s %s reports %v, after %s", op.name, call, err, strings.Join(log, "; "))
					return
				}
				if now := paramNames(b.obj); !keptOrder(was, now) && op.name != "SetChallenge" {
					c.Failf("order:"+b.kind, "%s %s: the parameters were %v and are %v, after %s", op.name, call, was, now, strings.Join(log, "; "))
					return
				}
				var have []string
				for k := range m {
					have = append(have, k)
				}
				sort.Strings(have)
				c.Key(b.kind + op.name + strings.Join(have, ","))
				c.Count("steps", 1)
			}
			c.Count("objects", 1)
			c.Count("objects: "+b.kind, 1)
			if c.WantSample() {
				c.Sample("%s: %s", b.kind, strings.Join(log, "; "))
			}
		}, "made": func(c *mon.C, data []byte) {
			g := gen.New(c.RNG())
			n := makers[g.N(len(makers))]
			want, got, h := made[n](g)
			if want != got {
				c.Failf("made:"+n, "%s(%q) holds %q", n, want, got)
				return
			}
			c.Count("objects made from values", 1)
			c.Key(n + want)
			if h == nil {
				return
			}
			text := h.String()
			p, err := parseLine(strings.TrimSuffix(text, "\r\n"))
			if err != nil || !strings.HasPrefix(text, h.GetName()+":") {
				c.Failf("made:"+n, "%s(%q) encodes as %q: %v", n, want, text, err)
				return
			}
			if back := p.String(); back != text {
				c.Failf("made:"+n, "%s(%q) encodes as %q, which parses and encodes as %q", n, want, text, back)
			}
		}, "empty": func(c *mon.C, data []byte) {
			for _, x := range emptyObjects() {
				readEmpty(c, x)
			}
		}, "filled": func(c *mon.C, data []byte) { // any setters called on an empty object
			g := gen.New(c.RNG())
			l := emptyObjects()
			for _, k := range bagKinds() {
				l = append(l, bags[k]().obj)
			}
			x := l[g.N(len(l))]
			if x == nil {
				return
			}
			s := &scrambler{g: g, seen: map[any]bool{}, some: true}
			for n := 1 + g.N(3); n > 0; n-- {
				s.object(x, 0)
				clear(s.seen)
			}
			if s.panic != "" {
				c.Failf("panic:set:"+strings.SplitN(s.panic, "(", 2)[0], "%T: %s\nafter %s", x, s.panic, s.calls)
				return
			}
			readEmpty(c, x)
			c.Count("partly filled objects read", 1)
		}},
		Plan: func(p *mon.Plan) {
			p.Case("empty", []byte{0})
			p.Seeds("filled", p.N(40000, 1000000))
			p.Seeds("edit", p.N(200000, 6000000))
			p.Seeds("made", p.N(40000, 1000000))
		},
		MinEvents: []string{"steps", "fields read", "empty objects read", "partly filled objects read", "objects made from values", "encodings compared"},
		Assume:    []string{"Values are legal ones: what a setter rejects is S14's, what is encoded is S26's."},
	})
}

// paramNames are the names of a header's parameters, in their order.
func paramNames(x any) []string {
	h, ok := x.(interface {
		parameterised
		GetParameterNames() *list.List
	})
	if !ok {
		return nil
	}
	return listText(h.GetParameterNames())
}

// keptOrder says whether the names that are still there are in the order in
// which they were, and new ones after them.
func keptOrder(was, now []string) bool {
	at := map[string]int{}
	for i, n := range was {
		at[strings.ToLower(n)] = i + 1
	}
	last := 0
	for _, n := range now {
		i, old := at[strings.ToLower(n)]
		if !old {
			i = len(was) + 1
		}
		if i < last {
			return false
		}
		last = i
	}
	return true
}

func emptyObjects() []any {
	l := []any{message.NewSIPMessage(), message.NewSIPRequest(), message.NewSIPResponse(),
		address.NewSipURIImpl(), address.NewTelURLImpl(), address.NewTelephoneNumber(), address.NewUserInfo(), address.NewAuthority(), address.NewAddressImpl(),
		core.NewHostPort(), core.NewNameValueList(""), header.NewParameters("X"), header.NewAddressParameters("X"), header.NewSIPHeader("X")}
	for _, n := range listNames() {
		l = append(l, newLists[n]())
	}
	return l
}

func bagKinds() (l []string) {
	for k := range bags {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func listNames() (l []string) {
	for k := range newLists {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func readEmpty(c *mon.C, x any) {
	v := reflect.ValueOf(x)
	for _, i := range readMethods(v.Type()) {
		mt := v.Type().Method(i)
		args := []reflect.Value{}
		for j := 1; j < mt.Type.NumIn(); j++ {
			args = append(args, reflect.Zero(mt.Type.In(j)))
		}
		if p := mon.Try(func() { v.Method(i).Call(args) }); p != "" {
			c.Failf("panic:empty", "%T.%s of an empty object panics: %s", x, mt.Name, p)
			return
		}
		c.Key(fmt.Sprintf("%T.%s", x, mt.Name))
	}
	c.Count("empty objects read", 1)
}

// viaHost is a host in the spelling in which hosts are kept: lower case.
func viaHost(g *gen.G) string {
	h, _ := g.Host()
	return strings.ToLower(h)
}

func listText(l *list.List) (out []string) {
	if l == nil {
		return nil
	}
	for e := l.Front(); e != nil; e = e.Next() {
		out = append(out, e.Value.(string))
	}
	return out
}

func textList(s []string) *list.List {
	l := list.New()
	for _, x := range s {
		l.PushBack(x)
	}
	return l
}

// ordered keeps names in the order in which they were last put, for lists that
// move a name that is set again to the end.
type ordered struct {
	names []string
	flag  string // the one without a value
}

func (o *ordered) put(n string) {
	o.drop(n)
	o.names = append(o.names, n)
}

func (o *ordered) drop(n string) {
	if o.flag == n {
		o.flag = ""
	}
	for i, x := range o.names {
		if x == n {
			o.names = append(o.names[:i:i], o.names[i+1:]...)
			return
		}
	}
}

func (o *ordered) text(m map[string]string, wire map[string]string) string {
	var out []string
	for _, n := range o.names {
		w := wire[n]
		if w == "" {
			w = n
		}
		if n == o.flag {
			out = append(out, w)
			continue
		}
		out = append(out, w+"="+m[n])
	}
	return strings.Join(out, ";")
}

// telBag: a telephone number, by itself or in a URL.
func telBag(b *fieldBag, prefix string, h interface {
	IsGlobal() bool
	SetGlobal(bool)
	SetPhoneNumber(string)
	GetPhoneNumber() string
	SetPostDial(string)
	GetPostDial() string
	GetParameter(string) string
	SetParameter(string, string)
	RemoveParameter(string)
	String() string
}, isub func() string, setIsub func(string)) *ordered {
	o := &ordered{}
	wire := map[string]string{"post dial": "postdial"}
	b.obj, b.encode = h, h.String
	digits := func(g *gen.G) string { return g.Chars("0123456789-.()", 1+g.N(15)) }
	b.text("number", digits, noErr(h.SetPhoneNumber), h.GetPhoneNumber)
	b.field("global", "false", func() string { return strconv.FormatBool(h.IsGlobal()) })
	b.op("SetGlobal", func(g *gen.G, m map[string]string) (string, error) {
		m["global"] = strconv.FormatBool(g.P(2))
		h.SetGlobal(m["global"] == "true")
		return m["global"], nil
	})
	put := func(name string, mk func(g *gen.G) string, set func(string)) {
		b.op("set "+name, func(g *gen.G, m map[string]string) (string, error) {
			v := mk(g)
			if g.P(10) {
				v = ""
			}
			m[name] = v
			o.put(name)
			set(v)
			return v, nil
		})
	}
	b.field("post dial", "", h.GetPostDial)
	put("post dial", digits, h.SetPostDial)
	b.field("isub", "", isub)
	put("isub", digits, setIsub)
	for _, n := range []string{"phone-context", "zz"} {
		b.field(n, "", func() string { return h.GetParameter(n) })
		put(n, tok, func(v string) { h.SetParameter(n, v) })
	}
	for n, w := range map[string]string{"post dial": "postdial", "isub": "isub", "phone-context": "phone-context", "zz": "ZZ"} {
		b.op("RemoveParameter "+n, func(g *gen.G, m map[string]string) (string, error) {
			delete(m, n)
			o.drop(n)
			h.RemoveParameter(w)
			return "", nil
		})
		b.field("parameter "+w, "="+n, func() string { return h.GetParameter(w) })
	}
	b.canon = func(m map[string]string) string {
		s := prefix
		if m["global"] == "true" {
			s += "+"
		}
		s += m["number"]
		if len(o.names) > 0 {
			s += ";" + o.text(m, wire)
		}
		return s
	}
	return o
}

func moreBags() {
	bagOf("telephone number", func(b *fieldBag) {
		h := address.NewTelephoneNumber()
		o := telBag(b, "", h, h.GetIsdnSubaddress, h.SetIsdnSubaddress)
		b.asks("has post dial", "post dial", h.HasPostDial)
		b.asks("has isub", "isub", h.HasIsdnSubaddress)
		b.asks("has zz", "zz", func() bool { return h.HasParm("zz") })
		for n, f := range map[string]func(){"post dial": h.RemovePostDial, "isub": h.RemoveIsdnSubaddress, "zz": func() { h.DeleteParm("zz") }} {
			b.op("remove "+n, func(g *gen.G, m map[string]string) (string, error) {
				delete(m, n)
				o.drop(n)
				f()
				return "", nil
			})
		}
		b.op("SetParm zz", func(g *gen.G, m map[string]string) (string, error) {
			m["zz"] = g.Token()
			o.put("zz")
			h.SetParm("zz", m["zz"])
			return m["zz"], nil
		})
		b.op("SetParm zz without a value", func(g *gen.G, m map[string]string) (string, error) {
			m["zz"] = ""
			o.put("zz")
			o.flag = "zz"
			h.SetParm("zz", nil)
			return "", nil
		})
		b.op("SetParameters", func(g *gen.G, m map[string]string) (string, error) {
			l := core.NewNameValueList("telparms")
			for _, n := range []string{"isub", "post dial", "zz", "phone-context"} {
				delete(m, n)
				o.drop(n)
			}
			for _, n := range []string{"zz", "isub"} {
				if g.P(2) {
					m[n] = g.Token()
					o.put(n)
					l.AddNameValue(core.NewNameValue(n, m[n]))
				}
			}
			h.SetParameters(l)
			return l.String(), nil
		})
	})
	bagOf("telephone URL", func(b *fieldBag) {
		h := address.NewTelURLImpl()
		o := telBag(b, "tel:", h, h.GetIsdnSubAddress, h.SetIsdnSubAddress)
		b.field("scheme", "tel", h.GetScheme)
		b.field("SIP URI", "false", func() string { return strconv.FormatBool(h.IsSipURI()) })
		b.op("SetTelephoneNumber", func(g *gen.G, m map[string]string) (string, error) {
			n := address.NewTelephoneNumber()
			clear(m)
			o.names = nil
			m["number"] = g.Chars("0123456789", 1+g.N(9))
			n.SetPhoneNumber(m["number"])
			if g.P(2) {
				n.SetGlobal(true)
				m["global"] = "true"
			}
			if g.P(2) {
				m["isub"] = g.Word()
				o.put("isub")
				n.SetIsdnSubaddress(m["isub"])
			}
			h.SetTelephoneNumber(n)
			return n.String(), nil
		})
	})
	bagOf("user info", func(b *fieldBag) {
		h := address.NewUserInfo()
		b.obj, b.encode = h, h.String
		b.field("user", "", h.GetUser)
		b.field("telephone", "", func() string {
			if h.GetUser() == "" {
				return "" // not decided yet
			}
			return strconv.FormatBool(h.GetUserType() == address.TELEPHONE_SUBSCRIBER)
		})
		b.op("set user", func(g *gen.G, m map[string]string) (string, error) {
			v := g.Pick(g.Word(), "#"+g.Word(), ";"+g.Word(), g.Word()+";"+g.Word(), g.Word()+"#", g.Word()+":", "")
			m["user"] = v
			delete(m, "telephone")
			if v != "" {
				m["telephone"] = strconv.FormatBool(strings.ContainsAny(v, ";#"))
			}
			h.SetUser(v)
			return v, nil
		})
		b.text("password", func(g *gen.G) string { return g.Word() }, noErr(h.SetPassword), h.GetPassword)
		b.remove("password", h.ClearPassword)
		b.canon = func(m map[string]string) string {
			if m["password"] != "" {
				return m["user"] + ":" + m["password"]
			}
			return m["user"]
		}
	})
	hostText := func(h *core.Host) string {
		if h == nil {
			return ""
		}
		return h.GetHostName()
	}
	bagOf("authority", func(b *fieldBag) {
		h := address.NewAuthority()
		b.obj, b.encode = h, h.String
		b.text("user", func(g *gen.G) string { return g.Word() }, noErr(h.SetUser), h.GetUser)
		b.text("password", func(g *gen.G) string { return g.Word() }, noErr(h.SetPassword), h.GetPassword)
		b.op("RemoveUserInfo", func(g *gen.G, m map[string]string) (string, error) {
			delete(m, "user")
			delete(m, "password")
			h.RemoveUserInfo()
			return "", nil
		})
		b.op("SetUserInfo", func(g *gen.G, m map[string]string) (string, error) {
			u := address.NewUserInfo()
			m["user"] = g.Word()
			u.SetUser(m["user"])
			delete(m, "password")
			if g.P(2) {
				m["password"] = g.Word()
				u.SetPassword(m["password"])
			}
			h.SetUserInfo(u)
			return u.String(), nil
		})
		b.text("host", viaHost, func(s string) error { h.SetHost(core.NewHost(s)); return nil }, func() string { return hostText(h.GetHost()) })
		b.num("port", 0, 65535, -1, noErrN(h.SetPort), h.GetPort)
		b.remove("port", h.RemovePort)
		b.op("SetHostPort", func(g *gen.G, m map[string]string) (string, error) {
			hp := core.NewHostPort()
			m["host"] = viaHost(g)
			hp.SetHost(core.NewHost(m["host"]))
			delete(m, "port")
			if g.P(2) {
				n := g.Int(0, 65535)
				hp.SetPort(n)
				m["port"] = strconv.Itoa(n)
			}
			h.SetHostPort(hp)
			return hp.String(), nil
		})
	})
	bagOf("host and port", func(b *fieldBag) {
		h := core.NewHostPort()
		b.obj, b.encode = h, h.String
		b.text("host", viaHost, func(s string) error { h.SetHost(core.NewHost(s)); return nil }, func() string { return hostText(h.GetHost()) })
		b.num("port", 0, 65535, -1, noErrN(h.SetPort), h.GetPort)
		b.asks("has port", "port", h.HasPort)
		b.remove("port", h.RemovePort)
		b.canon = func(m map[string]string) string {
			s := m["host"]
			if p, ok := m["port"]; ok && s != "" {
				s += ":" + p
			}
			return s
		}
	})
	bagOf("host", func(b *fieldBag) {
		h := &core.Host{}
		b.obj = h
		b.field("name", "", h.GetHostName)
		b.field("address", "=name", h.GetAddress)
		b.field("is an address", "false", func() string { return strconv.FormatBool(h.IsIPAddress()) })
		b.field("is a name", "true", func() string { return strconv.FormatBool(h.IsHostName()) })
		set := func(m map[string]string, n string, addr bool) {
			m["name"] = n
			m["is an address"], m["is a name"] = strconv.FormatBool(addr), strconv.FormatBool(!addr)
		}
		name := func(g *gen.G) string {
			for {
				if s, t := g.Host(); t == gen.HostName {
					return strings.ToLower(s)
				}
			}
		}
		addr := func(g *gen.G) string {
			for {
				if s, t := g.Host(); t != gen.HostName {
					return strings.ToLower(s)
				}
			}
		}
		b.op("SetHostName", func(g *gen.G, m map[string]string) (string, error) {
			n := name(g)
			set(m, n, false)
			h.SetHostName(n)
			return n, nil
		})
		b.op("SetHostAddress", func(g *gen.G, m map[string]string) (string, error) {
			n := addr(g)
			set(m, n, true)
			h.SetHostAddress(n)
			return n, nil
		})
		b.op("SetAddress", func(g *gen.G, m map[string]string) (string, error) {
			n := addr(g)
			set(m, n, true)
			h.SetAddress(n)
			return n, nil
		})
	})
	bagOf("name and value", func(b *fieldBag) {
		h := core.NewNameValue("", nil)
		b.obj, b.encode = h, h.String
		val := func() string {
			if v := h.GetValue(); v != nil {
				return "v" + v.(string)
			}
			return ""
		}
		b.text("name", tok, noErr(h.SetName), h.GetName)
		b.field("value", "", val)
		b.op("SetValue", func(g *gen.G, m map[string]string) (string, error) {
			if g.P(4) {
				delete(m, "value")
				h.SetValue(nil)
				return "nil", nil
			}
			v := g.QText(0)
			m["value"] = "v" + v
			h.SetValue(v)
			return v, nil
		})
		b.field("quoted", "false", func() string { return strconv.FormatBool(h.IsValueQuoted()) })
		b.op("SetQuotedValue", func(g *gen.G, m map[string]string) (string, error) {
			m["quoted"] = "true"
			h.SetQuotedValue()
			return "", nil
		})
		b.op("SetSeparator", func(g *gen.G, m map[string]string) (string, error) {
			m["sep"] = g.Pick("=", " ", ":")
			h.SetSeparator(m["sep"])
			return m["sep"], nil
		})
		b.canon = func(m map[string]string) string {
			v, ok := m["value"]
			if !ok {
				return m["name"]
			}
			v = v[1:]
			if m["quoted"] == "true" {
				v = "\"" + v + "\""
			}
			sep := "="
			if s, ok := m["sep"]; ok {
				sep = s
			}
			if m["name"] == "" {
				return v
			}
			return m["name"] + sep + v
		}
	})
	bagOf("token", func(b *fieldBag) {
		h := core.NewToken("", 0)
		b.obj, b.encode = h, h.String
		b.text("value", tok, noErr(h.SetTokenValue), h.GetTokenValue)
		b.num("type", 0, 5000, 0, noErrN(h.SetTokenType), h.GetTokenType)
		b.field("clone", "", func() string {
			c := h.Clone().(*core.Token)
			if c == h || c.GetTokenValue() != h.GetTokenValue() || c.GetTokenType() != h.GetTokenType() {
				return "differs"
			}
			return ""
		})
	})
	bagOf("raw packet", func(b *fieldBag) {
		g0 := []byte{1, 2, 3}
		t := rtp.NewRTPTimeFromFloat64(7)
		a := rtp.NewIPAddress([]byte{10, 0, 0, 1}, 7)
		h := rtp.NewRawPacket(g0, a, t, true)
		b.obj = h
		b.field("data", string(g0), func() string { return string(h.GetData()) })
		b.field("length", "3", func() string { return strconv.Itoa(h.GetDataLength()) })
		b.field("sender", "same", func() string {
			return map[bool]string{true: "same", false: "other"}[h.GetSenderAddress() == rtp.Address(a)]
		})
		b.field("time", "same", func() string { return map[bool]string{true: "same", false: "other"}[h.GetReceiveTime() == t] })
		b.field("is RTP", "true", func() string { return strconv.FormatBool(h.IsRTP()) })
		b.op("ZeroData", func(g *gen.G, m map[string]string) (string, error) {
			m["data"], m["length"] = "", "0"
			h.ZeroData()
			return "", nil
		})
	})
	bagOf("SIP URI", func(b *fieldBag) {
		h := address.NewSipURIImpl()
		b.obj, b.encode = h, h.String
		names := []string{"transport", "user", "maddr", "method", "zz"}
		for _, n := range names {
			b.field("param "+n, "", func() string { return h.GetParameter(n) })
			b.asks("has param "+n, "param "+n, func() bool { return h.HasParameter(n) })
			b.op("SetUriParm "+n, func(g *gen.G, m map[string]string) (string, error) {
				v := g.Word()
				m["param "+n] = v
				h.SetUriParm(n, v)
				return v, nil
			})
		}
		b.field("transport", "=param transport", h.GetTransportParam)
		b.field("user", "=param user", h.GetUserParam)
		b.field("method", "=param method", h.GetMethodParam)
		b.field("maddr", "=param maddr", h.GetMAddrParam)
		b.asks("has transport", "param transport", h.HasTransport)
		b.asks("has lr", "lr", h.HasLrParam)
		b.op("SetLrParam", func(g *gen.G, m map[string]string) (string, error) {
			m["lr"] = ""
			h.SetLrParam()
			return "", nil
		})
		b.op("RemoveMethod", func(g *gen.G, m map[string]string) (string, error) {
			delete(m, "param method")
			h.RemoveMethod()
			return "", nil
		})
		b.op("SetUriParms", func(g *gen.G, m map[string]string) (string, error) {
			l := core.NewNameValueList("uriparms")
			delete(m, "lr")
			for _, n := range names {
				delete(m, "param "+n)
				if g.P(3) {
					m["param "+n] = g.Word()
					l.AddNameValue(core.NewNameValue(n, m["param "+n]))
				}
			}
			h.SetUriParms(l)
			return l.String(), nil
		})
		for _, n := range []string{"Subject", "x-one"} {
			b.field("header "+n, "", func() string { return h.GetHeader(n) })
			b.op("SetHeader "+n, func(g *gen.G, m map[string]string) (string, error) {
				m["header "+n] = g.Word()
				h.SetHeader(n, m["header "+n])
				return m["header "+n], nil
			})
		}
		b.op("SetQheaders", func(g *gen.G, m map[string]string) (string, error) {
			l := core.NewNameValueList("qheaders")
			l.SetSeparator("&")
			for _, n := range []string{"Subject", "x-one"} {
				delete(m, "header "+n)
				if g.P(2) {
					m["header "+n] = g.Word()
					l.AddNameValue(core.NewNameValue(n, m["header "+n]))
				}
			}
			h.SetQheaders(l)
			return l.String(), nil
		})
		isub := func() string { return h.GetTelephoneSubscriber().GetIsdnSubaddress() }
		b.field("isub", "", isub)
		b.field("subscriber", "", func() string { return h.GetTelephoneSubscriber().GetPhoneNumber() })
		b.op("SetIsdnSubAddress", func(g *gen.G, m map[string]string) (string, error) {
			m["isub"] = g.Word()
			h.SetIsdnSubAddress(m["isub"])
			return m["isub"], nil
		})
		b.op("SetTelephoneSubscriber", func(g *gen.G, m map[string]string) (string, error) {
			n := address.NewTelephoneNumber()
			delete(m, "isub")
			m["subscriber"] = g.Chars("0123456789", 1+g.N(8))
			n.SetPhoneNumber(m["subscriber"])
			h.SetTelephoneSubscriber(n)
			return n.String(), nil
		})
	})
	version := func(g *gen.G) string { return fmt.Sprintf("SIP/%d.%d", g.N(30), g.N(30)) }
	messageFields := func(b *fieldBag, x *message.SIPMessage) {
		b.field("from tag", "", x.GetFromTag)
		b.field("to tag", "", x.GetToTag)
		b.asks("has from tag", "from tag", x.HasFromTag)
		b.asks("has to tag", "to tag", x.HasToTag)
		b.field("call id", "", func() string {
			if c := x.GetCallId(); c != nil && !reflect.ValueOf(c).IsNil() {
				return c.GetCallId()
			}
			return ""
		})
		b.op("SetCallIdFromString", func(g *gen.G, m map[string]string) (string, error) {
			m["call id"] = g.CallID()
			x.SetCallIdFromString(m["call id"])
			return m["call id"], nil
		})
		b.op("SetFrom", func(g *gen.G, m map[string]string) (string, error) {
			h := header.NewFrom()
			h.SetAddress(g.Addr(true, gen.URIOpt{}).Build())
			m["from"] = "yes"
			delete(m, "from tag")
			if g.P(2) {
				m["from tag"] = g.Token()
				h.SetTag(m["from tag"])
			}
			x.SetFrom(h)
			return h.EncodeBody(), nil
		})
		b.op("SetTo", func(g *gen.G, m map[string]string) (string, error) {
			h := header.NewTo()
			h.SetAddress(g.Addr(true, gen.URIOpt{}).Build())
			m["to"] = "yes"
			delete(m, "to tag")
			if g.P(2) {
				m["to tag"] = g.Token()
				h.SetTag(m["to tag"])
			}
			x.SetTo(h)
			return h.EncodeBody(), nil
		})
		b.op("SetFromTag", func(g *gen.G, m map[string]string) (string, error) {
			v := g.Token()
			if _, ok := m["from"]; ok {
				m["from tag"] = v
			}
			x.SetFromTag(v)
			return v, nil
		})
		b.op("SetToTag", func(g *gen.G, m map[string]string) (string, error) {
			v := g.Token()
			if _, ok := m["to"]; ok {
				m["to tag"] = v
			}
			x.SetToTag(v)
			return v, nil
		})
		b.field("expires", "-", func() string {
			if e := x.GetExpires(); e != nil && !reflect.ValueOf(e).IsNil() {
				return strconv.Itoa(e.GetExpires())
			}
			return "-"
		})
		b.op("SetExpires", func(g *gen.G, m map[string]string) (string, error) {
			h := header.NewExpires()
			n := g.Int(0, gen.MaxInt31)
			m["expires"] = strconv.Itoa(n)
			x.SetExpires(h)
			return m["expires"], h.SetExpires(n) // also after it was added
		})
		b.field("cseq method", "", func() string {
			if q := x.GetCSeq(); q != nil && !reflect.ValueOf(q).IsNil() {
				return q.GetMethod()
			}
			return ""
		})
		b.op("SetCSeq", func(g *gen.G, m map[string]string) (string, error) {
			m["cseq method"] = strings.ToUpper(g.Method())
			x.SetCSeq(header.NewCSeq(g.Int(1, 1000), m["cseq method"]))
			return m["cseq method"], nil
		})
		b.op("RemoveHeader Expires", func(g *gen.G, m map[string]string) (string, error) {
			delete(m, "expires")
			x.RemoveHeader(g.Pick("Expires", "expires"))
			return "", nil
		})
	}
	bagOf("request", func(b *fieldBag) {
		x := message.NewSIPRequest()
		b.obj = x
		b.field("method", "", x.GetMethod)
		setMethod := func(g *gen.G, m map[string]string) (string, error) {
			v := strings.ToUpper(g.Method())
			m["method"] = v
			if _, ok := m["cseq method"]; ok {
				m["cseq method"] = v
			}
			m["line"] = "yes"
			x.SetMethod(v)
			return v, nil
		}
		b.op("SetMethod", setMethod)
		// A request line without a method gets the method of the CSeq header
		// when it is encoded (that is documented), so here it has one first.
		needMethod := func(g *gen.G, m map[string]string) string {
			if m["method"] != "" {
				return ""
			}
			v, _ := setMethod(g, m)
			return "SetMethod " + v + ", "
		}
		b.field("uri", "", func() string { return bagURI(x.GetRequestURI()) })
		b.op("SetRequestURI", func(g *gen.G, m map[string]string) (string, error) {
			u := g.URI(gen.URIOpt{}).Build()
			first := needMethod(g, m)
			m["uri"], m["line"] = u.String(), "yes"
			if _, ok := m["version"]; !ok {
				m["version"] = "SIP/2.0"
			}
			x.SetRequestURI(u)
			return first + m["uri"], nil
		})
		b.field("version", "?", x.GetSIPVersion)
		b.op("SetSIPVersion", func(g *gen.G, m map[string]string) (string, error) {
			first := needMethod(g, m)
			m["version"], m["line"] = version(g), "yes"
			x.SetSIPVersion(m["version"])
			return first + m["version"], nil
		})
		b.op("SetRequestLine", func(g *gen.G, m map[string]string) (string, error) {
			l := header.NewRequestLine()
			u := g.URI(gen.URIOpt{}).Build()
			m["method"], m["uri"], m["version"], m["line"] = g.Method(), u.String(), version(g), "yes"
			l.SetMethod(m["method"])
			l.SetUri(u)
			l.SetSipVersion(m["version"])
			x.SetRequestLine(l)
			return l.String(), nil
		})
		b.fields[2].absent = "#version"
		messageFields(b, &x.SIPMessage)
	})
	bagOf("response", func(b *fieldBag) {
		x := message.NewSIPResponse()
		b.obj = x
		b.num("code", 100, 699, 0, noErrN(x.SetStatusCode), x.GetStatusCode)
		b.text("phrase", plainText, noErr(x.SetReasonPhrase), x.GetReasonPhrase)
		b.field("version", "#version", x.GetSIPVersion)
		b.op("SetSIPVersion", func(g *gen.G, m map[string]string) (string, error) {
			m["version"] = version(g)
			x.SetSIPVersion(m["version"])
			return m["version"], nil
		})
		b.op("SetStatusLine", func(g *gen.G, m map[string]string) (string, error) {
			l := header.NewStatusLine()
			n := g.Int(100, 699)
			m["code"], m["phrase"], m["version"] = strconv.Itoa(n), g.Text(), version(g)
			l.SetStatusCode(n)
			l.SetReasonPhrase(m["phrase"])
			l.SetSipVersion(m["version"])
			x.SetStatusLine(l)
			return l.String(), nil
		})
		messageFields(b, &x.SIPMessage)
	})
}

// made are the constructors that take values, with what is read back.
var made = map[string]func(g *gen.G) (want, got string, h header.Header){
	"NewAllowFromString": func(g *gen.G) (string, string, header.Header) {
		v := g.Method()
		h := header.NewAllowFromString(v)
		return v, h.GetMethod(), h
	},
	"NewAllowEventsFromString": func(g *gen.G) (string, string, header.Header) {
		v := g.Token()
		h := header.NewAllowEventsFromString(v)
		return v, h.GetEventType(), h
	},
	"NewContentEncodingFromString": func(g *gen.G) (string, string, header.Header) {
		v := g.Token()
		h := header.NewContentEncodingFromString(v)
		return v, h.GetEncoding(), h
	},
	"NewContentLanguageFromString": func(g *gen.G) (string, string, header.Header) {
		v := g.Token()
		h := header.NewContentLanguageFromString(v)
		return v, h.GetLanguageTag(), h
	},
	"NewContentTypeFromString": func(g *gen.G) (string, string, header.Header) {
		v, w := g.Token(), g.Token()
		h := header.NewContentTypeFromString(v, w)
		return v + "/" + w, h.GetContentType() + "/" + h.GetContentSubType(), h
	},
	"NewContentLengthFromInt": func(g *gen.G) (string, string, header.Header) {
		n := g.Int(0, gen.MaxInt31)
		h := header.NewContentLengthFromInt(n)
		return strconv.Itoa(n), strconv.Itoa(h.GetContentLength()), h
	},
	"NewRequireFromString": func(g *gen.G) (string, string, header.Header) {
		v := g.Token()
		h := header.NewRequireFromString(v)
		return v, h.GetOptionTag(), h
	},
	"NewProxyRequireFromString": func(g *gen.G) (string, string, header.Header) {
		v := g.Token()
		h := header.NewProxyRequireFromString(v)
		return v, h.GetOptionTag(), h
	},
	"NewSupportedFromString": func(g *gen.G) (string, string, header.Header) {
		v := g.Token()
		h := header.NewSupportedFromString(v)
		return v, h.GetOptionTag(), h
	},
	"NewUnsupportedFromString": func(g *gen.G) (string, string, header.Header) {
		v := g.Token()
		h := header.NewUnsupportedFromString(v)
		return v, h.GetOptionTag(), h
	},
	"NewCSeq": func(g *gen.G) (string, string, header.Header) {
		n, v := g.Int(0, gen.MaxInt31), g.Method()
		h := header.NewCSeq(n, v)
		return fmt.Sprint(n, v), fmt.Sprint(h.GetSequenceNumber(), h.GetMethod()), h
	},
	"NewCallID": func(g *gen.G) (string, string, header.Header) {
		v := g.CallID()
		h, err := header.NewCallID(v)
		if err != nil {
			return v, err.Error(), nil
		}
		return v, h.GetCallId(), h
	},
	"NewInReplyToFromCallIdentifier": func(g *gen.G) (string, string, header.Header) {
		v := g.CallID()
		id, err := header.NewCallIdentifier(v)
		if err != nil {
			return v, err.Error(), nil
		}
		h := header.NewInReplyToFromCallIdentifier(id)
		return v, h.GetCallId(), h
	},
	"NewErrorInfoFromURI": func(g *gen.G) (string, string, header.Header) {
		u := g.URI(gen.URIOpt{}).Build()
		h := header.NewErrorInfoFromURI(u)
		return u.String(), bagURI(h.GetErrorInfo()), h
	},
	"NewRouteFromAddress": func(g *gen.G) (string, string, header.Header) {
		a := g.Addr(false, gen.URIOpt{}).Build()
		h := header.NewRouteFromAddress(a)
		return a.String(), bagAddr(h.GetAddress()), h
	},
	"NewRecordRouteFromAddress": func(g *gen.G) (string, string, header.Header) {
		a := g.Addr(false, gen.URIOpt{}).Build()
		h := header.NewRecordRouteFromAddress(a)
		return a.String(), bagAddr(h.GetAddress()), h
	},
	"NewReplyToFromAddress": func(g *gen.G) (string, string, header.Header) {
		a := g.Addr(false, gen.URIOpt{}).Build()
		h := header.NewReplyToFromAddress(a)
		return a.String(), bagAddr(h.GetAddress()), h
	},
	"NewExtension": func(g *gen.G) (string, string, header.Header) {
		v, w := g.ExtName(), g.Text()
		h := header.NewExtension(v)
		h.SetValue(w)
		return v + w, h.GetName() + h.GetValue(), h
	},
	"NewRequestLineFromString": func(g *gen.G) (string, string, header.Header) {
		u, v := g.URI(gen.URIOpt{}).Build(), g.Method()
		h := header.NewRequestLineFromString(u, v)
		return v + " " + u.String() + " SIP/2.0", h.GetMethod() + " " + bagURI(h.GetUri()) + " " + h.GetSipVersion(), nil
	},
}
