package props

import (
	"container/list"
	"fmt"
	"strconv"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
)

// headerBag is everything a message offers to change and read its headers.
type headerBag interface {
	message.Message
	AttachHeader(header.Header) error
	AttachHeader2(header.Header, bool)
	AttachHeader3(h header.Header, replace, top bool) error
	SetHeaders(*list.List)
	RemoveHeader2(string, bool)
	HasHeader(string) bool
	GetHeaderList(string) header.Lister
	GetSIPHeaderList(string) header.SIPHeaderLister
	GetMessageAsEncodedStrings() *list.List
	SetHeaderFromSIPHeaderList(header.SIPHeaderLister)
	AddUnparsed(string)
	GetUnrecognizedHeaders() *list.List
	GetViaHeaders() *header.ViaList
	GetTopmostVia() *header.Via
	SetVia(*header.ViaList)
	GetFrom() header.FromHeader
	GetTo() header.ToHeader
	GetCSeq() header.CSeqHeader
	GetCSeqNumber() int
	GetCallId() header.CallIdHeader
	GetCallIdentifier() string
	GetMaxForwards() header.MaxForwardsHeader
	GetContactHeaders() *header.ContactList
	GetRouteHeaders() *header.RouteList
	GetRecordRouteHeaders() *header.RecordRouteList
	GetErrorInfoHeaders() *header.ErrorInfoList
	GetAuthorization() *header.Authorization
	GetProxyAuthorizationHeader() *header.ProxyAuthorization
	GetMinExpires() *header.MinExpires
	GetOrganizationHeader() *header.Organization
	GetPriorityHeader() *header.Priority
	GetContentTypeHeader() header.ContentTypeHeader
	GetContentDisposition() header.ContentDispositionHeader
	GetContentEncoding() header.ContentEncodingHeader
	GetContentLanguage() header.ContentLanguageHeader
	GetExpires() header.ExpiresHeader
	HasFromTag() bool
	HasToTag() bool
	GetFromTag() string
	GetToTag() string
	SetFrom(header.FromHeader)
	SetTo(header.ToHeader)
	SetCallId(header.CallIdHeader)
	SetCSeq(header.CSeqHeader)
	SetMaxForwards(header.MaxForwardsHeader)
	SetExpires(header.ExpiresHeader)
	SetMinExpiresHeader(header.MinExpiresHeader)
	SetContentDisposition(header.ContentDispositionHeader)
	SetContentEncoding(header.ContentEncodingHeader)
	SetContentLanguage(header.ContentLanguageHeader)
	SetCallIdFromString(string)
	EncodeAsBytes() []byte
}

// entry is one header of the reference model.
type entry struct {
	k    *gen.Kind
	vals []string // encodings of the values, without name and line end
}

// bag is the reference: an ordered map from header name to list of values.
type bag struct{ l []*entry }

func (b *bag) find(name string) (int, *entry) {
	for i, e := range b.l {
		if strings.EqualFold(e.k.Name, name) {
			return i, e
		}
	}
	return -1, nil
}

func (b *bag) remove(name string) {
	if i, e := b.find(name); e != nil {
		b.l = append(b.l[:i:i], b.l[i+1:]...)
	}
}

// add adds values: to the list of a list header, on top or at the end; a
// single header that is present stays, except that the content length is
// updated.
func (b *bag) add(k *gen.Kind, vals []string, top bool) {
	_, e := b.find(k.Name)
	switch {
	case e == nil:
		b.l = append(b.l, &entry{k, append([]string(nil), vals...)})
	case isList(k):
		if top {
			e.vals = append(append([]string(nil), vals...), e.vals...)
		} else {
			e.vals = append(e.vals, vals...)
		}
	case k.Name == "Content-Length":
		e.vals = vals
	}
}

func isList(k *gen.Kind) bool { return k.List || k.Ext }

// one value of a list as a header line
func lineOf(k *gen.Kind, v string) string { return k.Name + ": " + v + "\r\n" }

func (e *entry) enc() string {
	if e.k.NoComma {
		s := ""
		for _, v := range e.vals {
			s += lineOf(e.k, v)
		}
		return s
	}
	return lineOf(e.k, strings.Join(e.vals, ","))
}

func encs(l header.Lister) []string {
	var o []string
	for e := l.Front(); e != nil; e = e.Next() {
		if h, ok := e.Value.(header.Header); ok {
			o = append(o, h.String())
		} else {
			o = append(o, fmt.Sprintf("element %T", e.Value))
		}
	}
	return o
}

func anyCase(g *gen.G, n string) string {
	switch g.N(4) {
	case 0:
		return strings.ToUpper(n)
	case 1:
		return strings.ToLower(n)
	}
	return n
}

// compare checks every way to read the message against the model.
func (b *bag) compare(g *gen.G, x headerBag, start string, names []string) (sig, msg string) {
	fail := func(s, f string, a ...any) { sig, msg = s, fmt.Sprintf(f, a...) }
	// the list of names
	var got, want []string
	for e := x.GetHeaderNames().Front(); e != nil; e = e.Next() {
		got = append(got, e.Value.(string))
	}
	for _, e := range b.l {
		want = append(want, e.k.Name)
	}
	if d := diff(want, got); d != "" {
		fail("names", "header names %v, expected %v", got, want)
		return
	}
	// each header by name
	for _, n := range names {
		q := anyCase(g, n)
		_, e := b.find(n)
		if x.HasHeader(q) != (e != nil) {
			fail("has", "HasHeader(%q) is %v", q, x.HasHeader(q))
			return
		}
		h := x.GetHeader(q)
		l := x.GetHeaders(q)
		hl := x.GetHeaderList(q)
		sl := x.GetSIPHeaderList(q)
		if e == nil {
			if h != nil || (l != nil && l.Len() != 0) || hl != nil || sl != nil {
				fail("absent", "absent header %q is reported: %v %v %v %v", q, h, l, hl, sl)
				return
			}
			continue
		}
		var w []string
		for _, v := range e.vals {
			w = append(w, lineOf(e.k, v))
		}
		if h == nil || h.String() != w[0] {
			fail("get", "GetHeader(%q) is %v, expected %q", q, h, w[0])
			return
		}
		if l == nil || hl == nil {
			fail("get-list", "GetHeaders(%q) %v, GetHeaderList %v", q, l, hl)
			return
		}
		if d := diff(w, encs(l)); d != "" {
			fail("get-list", "GetHeaders(%q): %s", q, d)
			return
		}
		if d := diff(w, encs(hl)); d != "" {
			fail("get-list", "GetHeaderList(%q): %s", q, d)
			return
		}
		if (sl != nil) != isList(e.k) {
			fail("get-siplist", "GetSIPHeaderList(%q) is %v", q, sl)
			return
		}
		if sl != nil {
			if d := diff(w, encs(sl)); d != "" {
				fail("get-siplist", "GetSIPHeaderList(%q): %s", q, d)
				return
			}
		}
	}
	// typed accessors
	first := func(n string) string {
		if _, e := b.find(n); e != nil {
			return lineOf(e.k, e.vals[0])
		}
		return "absent"
	}
	str := func(h header.Header, isNil bool) string {
		if isNil {
			return "absent"
		}
		return h.String()
	}
	typed := func(n string, h header.Header) {
		s := str(h, h == nil)
		if s != first(n) && sig == "" {
			fail("typed:"+n, "typed accessor of %s gives %q, expected %q", n, s, first(n))
		}
	}
	type iface = interface{}
	box := func(n string, v iface) { // typed nils and nil interfaces are both absence
		switch t := v.(type) {
		case nil:
			typed(n, nil)
		case *header.Via:
			if t == nil {
				typed(n, nil)
			} else {
				typed(n, t)
			}
		case *header.Authorization:
			if t == nil {
				typed(n, nil)
			} else {
				typed(n, t)
			}
		case *header.ProxyAuthorization:
			if t == nil {
				typed(n, nil)
			} else {
				typed(n, t)
			}
		case *header.MinExpires:
			if t == nil {
				typed(n, nil)
			} else {
				typed(n, t)
			}
		case *header.Organization:
			if t == nil {
				typed(n, nil)
			} else {
				typed(n, t)
			}
		case *header.Priority:
			if t == nil {
				typed(n, nil)
			} else {
				typed(n, t)
			}
		case header.Header:
			typed(n, t)
		}
	}
	box("From", x.GetFrom())
	box("To", x.GetTo())
	box("CSeq", x.GetCSeq())
	box("Call-ID", x.GetCallId())
	box("Max-Forwards", x.GetMaxForwards())
	box("Content-Length", x.GetContentLength())
	box("Content-Type", x.GetContentTypeHeader())
	box("Content-Disposition", x.GetContentDisposition())
	box("Content-Encoding", x.GetContentEncoding())
	box("Content-Language", x.GetContentLanguage())
	box("Expires", x.GetExpires())
	box("Via", x.GetTopmostVia())
	box("Authorization", x.GetAuthorization())
	box("Proxy-Authorization", x.GetProxyAuthorizationHeader())
	box("Min-Expires", x.GetMinExpires())
	box("Organization", x.GetOrganizationHeader())
	box("Priority", x.GetPriorityHeader())
	if sig != "" {
		return
	}
	lists := func(n string, l header.Lister, isNil bool) {
		var got, want []string
		if !isNil {
			got = encs(l)
		}
		if _, e := b.find(n); e != nil {
			for _, v := range e.vals {
				want = append(want, lineOf(e.k, v))
			}
		}
		if d := diff(want, got); d != "" && sig == "" {
			fail("typed-list:"+n, "typed list of %s: %s", n, d)
		}
	}
	if l := x.GetViaHeaders(); true {
		lists("Via", l, l == nil)
	}
	if l := x.GetContactHeaders(); true {
		lists("Contact", l, l == nil)
	}
	if l := x.GetRouteHeaders(); true {
		lists("Route", l, l == nil)
	}
	if l := x.GetRecordRouteHeaders(); true {
		lists("Record-Route", l, l == nil)
	}
	if l := x.GetErrorInfoHeaders(); true {
		lists("Error-Info", l, l == nil)
	}
	if sig != "" {
		return
	}
	if _, e := b.find("CSeq"); e != nil {
		var n int
		fmt.Sscanf(e.vals[0], "%d", &n)
		if x.GetCSeqNumber() != n {
			fail("cseq-number", "GetCSeqNumber is %d, expected %d", x.GetCSeqNumber(), n)
			return
		}
	} else {
		x.GetCSeqNumber()
	}
	if r, ok := x.(*message.SIPRequest); ok {
		// the short cuts to the topmost Via
		host, port := "", 5060
		if _, e := b.find("Via"); e != nil {
			v := e.vals[0][strings.IndexByte(e.vals[0], ' ')+1:]
			if i := strings.IndexAny(v, "; ("); i >= 0 {
				v = v[:i]
			}
			host = v
			if i := strings.LastIndexByte(v, ':'); i > strings.LastIndexByte(v, ']') {
				host = v[:i]
				port, _ = strconv.Atoi(v[i+1:])
			}
		}
		if got := r.GetViaHost(); got != host {
			fail("via-host", "GetViaHost is %q, expected %q", got, host)
			return
		}
		if got := r.GetViaPort(); got != port {
			fail("via-port", "GetViaPort is %d, expected %d", got, port)
			return
		}
	}
	id := ""
	if _, e := b.find("Call-ID"); e != nil {
		id = e.vals[0]
	}
	if x.GetCallIdentifier() != id {
		fail("call-id", "GetCallIdentifier is %q, expected %q", x.GetCallIdentifier(), id)
		return
	}
	tag := func(h interface{ GetParameter(string) string }, ok bool) string {
		if ok {
			return h.GetParameter("tag")
		}
		return ""
	}
	ft, tt := "", ""
	if f, ok := x.GetFrom().(*header.From); ok && f != nil {
		ft = tag(f, true)
	}
	if t, ok := x.GetTo().(*header.To); ok && t != nil {
		tt = tag(t, true)
	}
	if x.GetFromTag() != ft || x.GetToTag() != tt || x.HasFromTag() != (ft != "") || x.HasToTag() != (tt != "") {
		fail("tags", "tags %q %v %q %v, expected %q %q", x.GetFromTag(), x.HasFromTag(), x.GetToTag(), x.HasToTag(), ft, tt)
		return
	}
	// the encoding
	var w strings.Builder
	w.WriteString(start)
	cl := ""
	lines := []string{}
	if start != "" {
		lines = append(lines, start)
	}
	for _, e := range b.l {
		if isList(e.k) {
			for _, v := range e.vals {
				lines = append(lines, lineOf(e.k, v))
			}
		} else {
			lines = append(lines, e.enc())
		}
		if e.k.Name == "Content-Length" {
			cl = e.enc()
			continue
		}
		w.WriteString(e.enc())
	}
	w.WriteString(cl + "\r\n")
	if s := x.(fmt.Stringer).String(); s != w.String() {
		fail("encoding", "encoding\n%q\nexpected\n%q", s, w.String())
		return
	}
	if s := string(x.EncodeAsBytes()); s != w.String() {
		fail("bytes", "encoding as bytes\n%q\nexpected\n%q", s, w.String())
		return
	}
	var es []string
	for e := x.GetMessageAsEncodedStrings().Front(); e != nil; e = e.Next() {
		es = append(es, e.Value.(string))
	}
	if d := diff(lines, es); d != "" {
		fail("strings", "encoded strings: %s", d)
	}
	return
}

func init() {
	kindOfName := map[string]*gen.Kind{}
	for _, k := range gen.Kinds {
		kindOfName[k.Name] = k
	}
	history := func(c *mon.C, g *gen.G, x headerBag, b *bag, start string, steps int) {
		// a small universe of names, so that operations meet
		pool := []*gen.Kind{gen.KindOf("Via")}
		for have := []string{}; len(have) < 2; {
			n := (&gen.Msg{}).ExtName(g, have...)
			have = append(have, n)
			pool = append(pool, gen.ExtKind(n))
		}
		if g.P(2) { // a name that begins with another one
			pool[2] = gen.ExtKind(pool[1].Name + g.Pick("-a", "-b0", "0", "-"+pool[1].Name))
		}
		for i := 0; i < 5; i++ {
			pool = append(pool, gen.Kinds[g.N(len(gen.Kinds))])
		}
		core := []string{"From", "To", "CSeq", "Call-ID", "Max-Forwards", "Contact", "Route", "Record-Route", "Expires", "Content-Length"}
		for i := 0; i < 4; i++ {
			pool = append(pool, gen.KindOf(core[g.N(len(core))]))
		}
		var names []string
		for _, k := range pool {
			names = append(names, k.Name)
		}
		for _, e := range b.l {
			names = append(names, e.k.Name)
		}
		names = append(names, "X-Never-There", "")
		how := ""
		mk := func(k *gen.Kind) (header.Header, string) {
			v := k.Gen(g)
			h, _ := v.Build()
			// the model is told what the header itself encodes to; S26 decides whether that is right
			s := h.String()
			body := strings.TrimSuffix(strings.TrimPrefix(s, k.Name+": "), "\r\n")
			return h, body
		}
		mkList := func(k *gen.Kind) (header.Header, []string) {
			var l header.SIPHeaderLister
			var vs []string
			switch k.Name {
			case "Via":
				l = header.NewViaList()
			case "Contact":
				l = header.NewContactList()
			case "Route":
				l = header.NewRouteList()
			case "Record-Route":
				l = header.NewRecordRouteList()
			case "Allow":
				l = header.NewAllowList()
			case "Supported":
				l = header.NewSupportedList()
			case "Accept":
				l = header.NewAcceptList()
			default:
				h, v := mk(k)
				return h, []string{v}
			}
			for n := 1 + g.N(3); n > 0; n-- {
				h, v := mk(k)
				l.PushBack(h)
				vs = append(vs, v)
			}
			return l, vs
		}
		var unparsed []string
		for i := 0; i < steps; i++ {
			k := pool[g.N(len(pool))]
			op := ""
			bad := mon.Try(func() {
				switch g.N(14) {
				case 0, 1:
					op = "AddHeader"
					h, v := mk(k)
					x.AddHeader(h)
					b.add(k, []string{v}, k.Name == "Via")
				case 2:
					op = "AttachHeader"
					h, vs := mkList(k)
					x.AttachHeader(h)
					b.add(k, vs, false)
				case 3:
					rep := g.P(2)
					op = fmt.Sprintf("AttachHeader2(%v)", rep)
					h, vs := mkList(k)
					x.AttachHeader2(h, rep)
					if rep {
						b.remove(k.Name)
					}
					b.add(k, vs, false)
				case 4:
					rep, top := g.P(3), g.P(2)
					op = fmt.Sprintf("AttachHeader3(%v,%v)", rep, top)
					h, vs := mkList(k)
					x.AttachHeader3(h, rep, top)
					if rep {
						b.remove(k.Name)
					}
					b.add(k, vs, top)
				case 5, 6:
					op = "SetHeader"
					h, vs := mkList(k)
					if l, ok := h.(header.SIPHeaderLister); ok && g.P(2) {
						op = "SetHeaderFromSIPHeaderList"
						x.SetHeaderFromSIPHeaderList(l)
					} else {
						x.SetHeader(h)
					}
					if g.P(4) {
						unparsed = append(unparsed, g.Text())
						x.AddUnparsed(unparsed[len(unparsed)-1])
					}
					if d := diff(unparsed, listText(x.GetUnrecognizedHeaders())); d != "" {
						c.Failf("unrecognized", "the unrecognized headers differ, %s", d)
						return
					}
					b.remove(k.Name)
					b.add(k, vs, false)
				case 7:
					op = "SetHeaders"
					l := list.New()
					for n := g.N(4); n > 0; n-- {
						kk := pool[g.N(len(pool))]
						h, vs := mkList(kk)
						l.PushBack(h)
						op += " " + kk.Name
						b.add(kk, vs, false)
					}
					x.SetHeaders(l)
				case 8, 9:
					n := anyCase(g, names[g.N(len(names))])
					op = "RemoveHeader " + n
					x.RemoveHeader(n)
					b.remove(n)
				case 10:
					n := anyCase(g, names[g.N(len(names))])
					top := g.P(2)
					op = fmt.Sprintf("RemoveHeader2(%s,%v)", n, top)
					x.RemoveHeader2(n, top)
					if _, e := b.find(n); e != nil {
						switch {
						case !isList(e.k) || len(e.vals) == 1:
							b.remove(n)
						case top:
							e.vals = e.vals[1:]
						default:
							e.vals = e.vals[:len(e.vals)-1]
						}
					}
				case 11:
					op = "SetVia"
					k = gen.KindOf("Via")
					h, vs := mkList(k)
					if g.P(3) { // one that is not complete yet
						v := header.NewVia()
						v.SetReceived(g.Pick("1.2.3.4", "10.0.0.1", "h"))
						h.(*header.ViaList).PushBack(v)
						vs = append(vs, v.EncodeBody())
					}
					x.SetVia(h.(*header.ViaList))
					b.remove("Via")
					b.add(k, vs, false)
				default:
					set := func(n string, f func(h header.Header)) {
						op = "typed setter " + n
						k = gen.KindOf(n)
						h, v := mk(k)
						f(h)
						b.remove(n)
						b.add(k, []string{v}, false)
					}
					switch g.N(11) {
					case 0:
						set("From", func(h header.Header) { x.SetFrom(h.(*header.From)) })
					case 1:
						set("To", func(h header.Header) { x.SetTo(h.(*header.To)) })
					case 2:
						set("Call-ID", func(h header.Header) { x.SetCallId(h.(*header.CallID)) })
					case 3:
						set("CSeq", func(h header.Header) { x.SetCSeq(h.(*header.CSeq)) })
					case 4:
						set("Max-Forwards", func(h header.Header) { x.SetMaxForwards(h.(*header.MaxForwards)) })
					case 5:
						set("Expires", func(h header.Header) { x.SetExpires(h.(*header.Expires)) })
					case 6:
						set("Min-Expires", func(h header.Header) { x.SetMinExpiresHeader(h.(*header.MinExpires)) })
					case 7:
						set("Content-Disposition", func(h header.Header) { x.SetContentDisposition(h.(*header.ContentDisposition)) })
					case 8:
						set("Content-Encoding", func(h header.Header) { x.SetContentEncoding(h.(*header.ContentEncoding)) })
					case 9:
						set("Content-Language", func(h header.Header) { x.SetContentLanguage(h.(*header.ContentLanguage)) })
					case 10:
						op = "SetCallIdFromString"
						k = gen.KindOf("Call-ID")
						id := g.Word() + "@" + g.Word()
						x.SetCallIdFromString(id)
						if _, e := b.find("Call-ID"); e != nil {
							e.vals = []string{id}
						} else {
							b.add(k, []string{id}, false)
						}
					}
				}
			})
			how += "; " + op + " " + k.Name
			if bad != "" {
				c.Failf("panic:"+strings.Fields(op)[0], "%s\nafter %s", bad, how)
				return
			}
			var sig, msg string
			if p := mon.Try(func() { sig, msg = b.compare(g, x, start, names) }); p != "" {
				sig, msg = "panic:read", p
			}
			if sig != "" {
				c.Failf(sig, "%s\nafter %s", msg, how)
				return
			}
			if strings.HasPrefix(op, "typed") {
				op = "typed setter"
			}
			c.Count(strings.FieldsFunc(op, func(r rune) bool { return r == ' ' || r == '(' })[0], 1)
			c.Count("states compared", 1)
			c.Key(how)
		}
		if c.WantSample() {
			c.Sample("%s", how)
		}
	}
	mon.Register(&mon.Prop{
		ID:    "S10",
		Quick: 4,
		Rule:  "a case is one random history of adding, attaching, setting and removing headers on a fresh or parsed message; after every step all readers (names, by name in any case, lists, typed accessors, three encodings) are compared with an ordered map; distinct cases are distinct histories",
		Handlers: map[string]mon.Handler{
			"fresh": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				b := &bag{}
				b.add(gen.KindOf("Content-Length"), []string{"0"}, false)
				var x headerBag
				start := ""
				if g.P(2) {
					r := message.NewSIPRequest()
					x = r
					if g.P(2) { // without a CSeq in step with the method only the request line is set
						r.SetMethod("INVITE")
						r.SetRequestURI((&gen.URI{Scheme: "sip", HasUser: true, User: "a", Host: "b", Port: -1}).Build())
						start = "INVITE sip:a@b SIP/2.0\r\n"
					}
				} else {
					r := message.NewSIPResponse()
					x = r
					if g.P(2) {
						r.SetStatusCode(200)
						start = r.GetFirstLine()
					}
				}
				history(c, g, x, b, start, 2+g.N(14))
				c.Count("fresh messages", 1)
			},
			"parsed": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				m := g.Msg(gen.MsgOpt{Extra: 5, Repeat: true, NoBody: true})
				x, err := parseMsg(m.Wire())
				if err != nil || x == nil {
					c.Failf("rejected", "well-formed message rejected: %v\n%q", err, m.Wire())
					return
				}
				b := &bag{}
				b.add(gen.KindOf("Content-Length"), []string{"0"}, false)
				for _, gr := range m.Groups() {
					var vs []string
					for _, v := range gr.Vals {
						vs = append(vs, v.Canon)
					}
					b.add(gr.K, vs, false)
				}
				history(c, g, x.(headerBag), b, m.Start()+"\r\n", 2+g.N(10))
				c.Count("parsed messages", 1)
			},
			"empty": func(c *mon.C, data []byte) { // reading what is not there
				g := gen.New(c.RNG())
				for _, x := range []headerBag{message.NewSIPRequest(), message.NewSIPResponse()} {
					b := &bag{}
					b.add(gen.KindOf("Content-Length"), []string{"0"}, false)
					if g.P(2) {
						x.RemoveHeader("content-length")
						b.remove("content-length")
					}
					var names []string
					for _, k := range gen.Kinds {
						names = append(names, k.Name)
					}
					sig, msg := "", ""
					if p := mon.Try(func() { sig, msg = b.compare(g, x, "", names) }); p != "" {
						sig, msg = "panic:read", p
					}
					if sig != "" {
						c.Failf(sig, "%s\non an empty message", msg)
						return
					}
					c.Count("empty messages", 1)
				}
				c.Key(string(data))
			},
		},
		Plan: func(p *mon.Plan) {
			p.Seeds("empty", 16)
			p.Seeds("fresh", p.N(12000, 500000))
			p.Seeds("parsed", p.N(12000, 500000))
		},
		MinEvents: []string{"fresh messages", "parsed messages", "empty messages", "states compared", "AddHeader", "AttachHeader", "AttachHeader2", "AttachHeader3", "SetHeader", "SetHeaders", "RemoveHeader", "RemoveHeader2", "SetVia", "typed"},
	})
}
