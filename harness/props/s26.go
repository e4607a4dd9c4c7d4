package props

import (
	"container/list"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
)

// newLists are the list constructors of the list-valued kinds.
var newLists = map[string]func() header.SIPHeaderLister{
	"Accept-Encoding":    func() header.SIPHeaderLister { return header.NewAcceptEncodingList() },
	"Accept-Language":    func() header.SIPHeaderLister { return header.NewAcceptLanguageList() },
	"Accept":             func() header.SIPHeaderLister { return header.NewAcceptList() },
	"Alert-Info":         func() header.SIPHeaderLister { return header.NewAlertInfoList() },
	"Allow-Events":       func() header.SIPHeaderLister { return header.NewAllowEventsList() },
	"Allow":              func() header.SIPHeaderLister { return header.NewAllowList() },
	"Call-Info":          func() header.SIPHeaderLister { return header.NewCallInfoList() },
	"Contact":            func() header.SIPHeaderLister { return header.NewContactList() },
	"Content-Encoding":   func() header.SIPHeaderLister { return header.NewContentEncodingList() },
	"Content-Language":   func() header.SIPHeaderLister { return header.NewContentLanguageList() },
	"Error-Info":         func() header.SIPHeaderLister { return header.NewErrorInfoList() },
	"In-Reply-To":        func() header.SIPHeaderLister { return header.NewInReplyToList() },
	"Proxy-Authenticate": func() header.SIPHeaderLister { return header.NewProxyAuthenticateList() },
	"Proxy-Require":      func() header.SIPHeaderLister { return header.NewProxyRequireList() },
	"Reason":             func() header.SIPHeaderLister { return header.NewReasonList() },
	"Record-Route":       func() header.SIPHeaderLister { return header.NewRecordRouteList() },
	"Require":            func() header.SIPHeaderLister { return header.NewRequireList() },
	"Route":              func() header.SIPHeaderLister { return header.NewRouteList() },
	"Supported":          func() header.SIPHeaderLister { return header.NewSupportedList() },
	"Unsupported":        func() header.SIPHeaderLister { return header.NewUnsupportedList() },
	"Via":                func() header.SIPHeaderLister { return header.NewViaList() },
	"WWW-Authenticate":   func() header.SIPHeaderLister { return header.NewWWWAuthenticateList() },
	"Warning":            func() header.SIPHeaderLister { return header.NewWarningList() },
}

// build makes one value with setters and checks what they reported.
func build(c *mon.C, k *gen.Kind, v *gen.Val) header.Header {
	var h header.Header
	var errs []error
	if !c.Guard("setters", func() { h, errs = v.Build() }) {
		return nil
	}
	if len(errs) > 0 {
		c.Failf("setter:"+kindName(k), "a setter rejected a legal value: %v\nwanted: %s", errs[0], v.Canon)
		return nil
	}
	return h
}

// sameLine checks that the text of a header says what it should and parses
// back to the same.
func sameLine(c *mon.C, k *gen.Kind, text string, l *gen.Line) {
	if text != l.Canon() {
		c.Failf("encoding:"+kindName(k), "built header encodes as %q, expected %q", text, l.Canon())
		return
	}
	h, err := parseLine(strings.TrimSuffix(text, "\r\n"))
	if err != nil {
		c.Failf("reparse:"+kindName(k), "the encoding of a built header is rejected: %v\n%q", err, text)
		return
	}
	if d := diff(l.Want(), gen.Observe(h)); d != "" {
		c.Failf("refields:"+kindName(k), "the encoding of a built header parses to other values, %s\n%q", d, text)
		return
	}
	if s := h.String(); s != text {
		c.Failf("reencoding:"+kindName(k), "encoding %q of a built header parses and encodes to %q", text, s)
	}
}

func init() {
	one := func(c *mon.C, k *gen.Kind, g *gen.G) {
		v := k.Gen(g)
		h := build(c, k, v)
		if h == nil {
			return
		}
		if d := diff(v.Want, gen.Observe(h)); d != "" {
			c.Failf("fields:"+kindName(k), "accessors do not return what was set, %s\nencoding %q", d, h.String())
			return
		}
		if n := h.GetName(); n != k.Name {
			c.Failf("name:"+kindName(k), "a built header is named %q", n)
			return
		}
		sameLine(c, k, h.String(), &gen.Line{K: k, Vals: []*gen.Val{v}})
		if c.Failed() {
			return
		}
		c.Key(h.String())
		c.Count("built "+kindName(k), 1)
		if c.WantSample() {
			c.Sample("%s", h.String())
		}
	}
	many := func(c *mon.C, k *gen.Kind, g *gen.G) {
		l := &gen.Line{K: k}
		mk := newLists[k.Name]
		a, b := mk(), mk()
		var hs []header.Header
		for n := 1 + g.N(5); n > 0; n-- {
			v := k.Gen(g)
			h := build(c, k, v)
			if h == nil {
				return
			}
			hs = append(hs, h)
			l.Vals = append(l.Vals, v)
		}
		push := func(l header.SIPHeaderLister, h header.Header) {
			if cl, ok := l.(*header.ContactList); ok && g.P(2) {
				cl.AddContact(h.(*header.Contact))
				return
			}
			l.PushBack(h)
		}
		cut := g.N(len(hs) + 1)
		switch g.N(3) {
		case 0: // at the end
			for _, h := range hs {
				push(a, h)
			}
		case 1: // two lists, the second after the first
			for i, h := range hs {
				if i < cut {
					push(a, h)
				} else {
					push(b, h)
				}
			}
			a.Concatenate(b, false)
		case 2: // two lists, the second before the first
			for i, h := range hs {
				if i < cut {
					push(b, h)
				} else {
					push(a, h)
				}
			}
			a.Concatenate(b, true)
		}
		var want []string
		for _, v := range l.Vals {
			want = append(want, v.Want...)
		}
		var got []string
		for e := a.Front(); e != nil; e = e.Next() {
			got = append(got, gen.Observe(e.Value.(header.Header))...)
		}
		if d := diff(want, got); d != "" {
			c.Failf("list fields:"+kindName(k), "the list does not hold what was put in, %s\nencoding %q", d, a.String())
			return
		}
		i := 0
		for e := a.GetHeadersAsEncodedStrings().Front(); e != nil; e = e.Next() {
			w := (&gen.Line{K: k, Vals: l.Vals[i : i+1]}).Canon()
			if s, _ := e.Value.(string); s != w {
				c.Failf("list text:"+kindName(k), "element %d of the list as text is %q, expected %q", i, s, w)
			}
			if i++; i >= len(l.Vals) {
				break
			}
		}
		if !k.NoComma {
			sameLine(c, k, a.String(), l)
		} else if a.String() != l.Canon() {
			c.Failf("encoding:"+kindName(k), "built list encodes as %q, expected %q", a.String(), l.Canon())
		}
		if c.Failed() {
			return
		}
		c.Key(a.String())
		c.Count("lists of "+kindName(k), 1)
	}
	hs := map[string]mon.Handler{
		"ext": func(c *mon.C, data []byte) { g := gen.New(c.RNG()); one(c, gen.ExtKind(g.ExtName()), g) },
		"message": func(c *mon.C, data []byte) { // a whole message, header by header
			g := gen.New(c.RNG())
			m := g.Msg(gen.MsgOpt{Extra: 6})
			var x gen.Message
			if !c.Guard("building a message", func() { x = m.BuildMsg() }) {
				return
			}
			if d := diff(m.Want(), gen.ObserveMsg(x)); d != "" {
				c.Failf("message fields", "a built message does not say what was set, %s\n%s", d, x.String())
				return
			}
			if s := x.String(); s != m.Canon() {
				c.Failf("message encoding", "a built message encodes as\n%q\nexpected\n%q", s, m.Canon())
				return
			}
			if b := x.(interface{ EncodeAsBytes() []byte }).EncodeAsBytes(); string(b) != m.Canon() {
				c.Failf("message bytes", "a built message encodes to the bytes\n%q\nexpected\n%q", b, m.Canon())
				return
			}
			y, err := parser.NewStringMsgParser().ParseSIPMessageFromByte([]byte(x.String()))
			if err != nil || y == nil {
				c.Failf("message reparse", "the encoding of a built message is rejected: %v\n%q", err, x.String())
				return
			}
			if d := diff(m.Want(), gen.ObserveMsg(y)); d != "" {
				c.Failf("message refields", "the encoding of a built message parses to other values, %s\n%s", d, x.String())
				return
			}
			c.Key(m.Canon())
			c.Count("messages built", 1)
		},
		"methods": func(c *mon.C, data []byte) { // lists made from plain strings
			g := gen.New(c.RNG())
			var w []string
			l := list.New()
			for n := 1 + g.N(5); n > 0; n-- {
				m := g.Method()
				w = append(w, m)
				l.PushBack(m)
			}
			var err error
			var got *list.List
			var text, name string
			if g.P(2) {
				a := header.NewAllowList()
				err, got, text, name = a.SetMethods(l), a.GetMethods(), a.String(), "Allow"
			} else {
				a := header.NewAllowEventsList()
				err, got, text, name = a.SetMethods(l), a.GetMethods(), a.String(), "Allow-Events"
			}
			var gs []string
			for e := got.Front(); e != nil; e = e.Next() {
				gs = append(gs, e.Value.(string))
			}
			if err != nil || strings.Join(gs, " ") != strings.Join(w, " ") || text != name+": "+strings.Join(w, ",")+"\r\n" {
				c.Failf("methods", "%s list of %q reads as %q, encodes as %q (%v)", name, w, gs, text, err)
				return
			}
			c.Key(text)
			c.Count("lists from strings", 1)
		},
		"request": func(c *mon.C, data []byte) { // request line and status line
			g := gen.New(c.RNG())
			u, m := g.URI(gen.URIOpt{}), g.Method()
			r := header.NewRequestLine()
			if g.P(2) {
				r = header.NewRequestLineFromString(u.Build(), m)
			} else {
				r.SetUri(u.Build())
				r.SetMethod(m)
			}
			want := m + " " + u.Text() + " SIP/2.0\r\n"
			if s := r.String(); s != want {
				c.Failf("request line", "built request line encodes as %q, expected %q", s, want)
				return
			}
			if d := diff(u.Want(), gen.ObsURI(r.GetUri())); d != "" || r.GetMethod() != m {
				c.Failf("request line fields", "built request line says %s, %s", r.GetMethod(), d)
				return
			}
			p, err := parser.NewStringMsgParser().ParseSIPRequestLine(strings.TrimSuffix(want, "\r\n"))
			if err != nil || p.String() != want {
				c.Failf("request line reparse", "%q parses to %v, %v", want, p, err)
				return
			}
			code := 100 + g.N(600)
			ph := g.Phrase(code)
			sl := header.NewStatusLine()
			sl.SetStatusCode(code)
			sl.SetReasonPhrase(ph)
			q := message.NewSIPResponse()
			q.SetStatusLine(sl)
			if q.GetStatusCode() != code || q.GetReasonPhrase() != ph {
				c.Failf("status line", "status line %d %q set, %d %q reported", code, ph, q.GetStatusCode(), q.GetReasonPhrase())
			}
			s2, err := parser.NewStringMsgParser().ParseSIPStatusLine(strings.TrimSuffix(sl.String(), "\r\n"))
			if err != nil || s2.GetStatusCode() != code || s2.GetReasonPhrase() != ph {
				c.Failf("status line reparse", "%q parses to %v, %v", sl.String(), s2, err)
			}
			c.Key(want)
			c.Count("start lines built", 1)
		},
	}
	var names []string
	for _, k := range gen.Kinds {
		k := k
		names = append(names, "built "+k.Name)
		hs["build:"+k.Name] = func(c *mon.C, data []byte) { one(c, k, gen.New(c.RNG())) }
		if newLists[k.Name] != nil {
			names = append(names, "lists of "+k.Name)
			hs["list:"+k.Name] = func(c *mon.C, data []byte) { many(c, k, gen.New(c.RNG())) }
		}
	}
	mon.Register(&mon.Prop{
		ID:       "S26",
		Quick:    4,
		Rule:     "a case is one header (of every kind), list of headers, start line or whole message made with constructors and setters from a generated model; its accessors, its encoding and the parse of that encoding are compared with the model; distinct cases are distinct encodings",
		Handlers: hs,
		Plan: func(p *mon.Plan) {
			for _, k := range gen.Kinds {
				p.Seeds("build:"+k.Name, p.N(8000, 400000))
				if newLists[k.Name] != nil {
					p.Seeds("list:"+k.Name, p.N(2000, 100000))
				}
			}
			p.Seeds("ext", p.N(5000, 100000))
			p.Seeds("message", p.N(12000, 800000))
			p.Seeds("methods", p.N(4000, 100000))
			p.Seeds("request", p.N(8000, 200000))
		},
		MinEvents: append(names, "messages built", "lists from strings", "start lines built", "built unknown"),
	})
}
