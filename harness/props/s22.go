package props

import (
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
)

// party is the address of a From or To header with its other parameters, and its tag.
func party(h header.Header) (addr []string, tag string) {
	switch t := h.(type) {
	case *header.From:
		return append(gen.ObsAddr(t.GetAddress()), gen.ObsOthers(t.GetParameters(), "tag")...), t.GetTag()
	case *header.To:
		return append(gen.ObsAddr(t.GetAddress()), gen.ObsOthers(t.GetParameters(), "tag")...), t.GetTag()
	}
	return []string{fmt.Sprintf("%T", h)}, ""
}

// sentBy is what the sender's part of a Via shows.
func sentBy(v *header.Via) string {
	if v == nil {
		return "no Via"
	}
	return fmt.Sprintf("%s/%s/%s %s %d", v.GetProtocol(), v.GetProtocolVersion(), strings.ToUpper(v.GetTransport()), v.GetHost(), v.GetPort())
}

// startIs checks method and URI of a derived request, and its CSeq.
func startIs(c *mon.C, what string, x *message.SIPRequest, method string, uri []string, num int) bool {
	if x.GetMethod() != method {
		c.Failf("method", "%s has method %q", what, x.GetMethod())
		return false
	}
	if d := diff(uri, gen.ObsURI(x.GetRequestURI())); d != "" {
		c.Failf("uri", "%s has another request URI, %s\n%s", what, d, x.String())
		return false
	}
	cs := x.GetCSeq()
	if cs == nil || cs.GetMethod() != method || cs.GetSequenceNumber() != num || x.GetCSeqNumber() != num {
		c.Failf("cseq", "%s has CSeq %v, wanted %d %s", what, x.GetHeader("CSeq"), num, method)
		return false
	}
	if !strings.HasPrefix(x.String(), method+" ") || !strings.HasSuffix(x.GetFirstLine(), " SIP/2.0\r\n") {
		c.Failf("start", "%s encodes as %q", what, x.String())
		return false
	}
	return true
}

func oneVia(c *mon.C, what string, x editable) bool {
	if l := x.GetViaHeaders(); l == nil || l.Len() != 1 {
		c.Failf("vias", "%s does not have exactly one Via\n%s", what, x.String())
		return false
	}
	return true
}

func init() {
	type state struct {
		m      *gen.Msg
		r      *message.SIPRequest
		before []string
		uri    []string
		num    int
		from   []string
		to     []string
		via    *gen.Val
	}
	derive := func(c *mon.C, g *gen.G, s *state) bool {
		r := s.r
		num := s.num
		var x *message.SIPRequest
		what := ""
		switch g.N(5) {
		case 0:
			what = "CreateCancelRequest"
			x = r.CreateCancelRequest()
			if x == nil {
				c.Failf("nil", "%s gave nothing", what)
				return false
			}
			if !startIs(c, what, x, "CANCEL", s.uri, num) {
				return false
			}
			for _, n := range []string{"From", "To", "Call-ID", "Route"} {
				if !sameGroup(c, what, x, n, s.m) {
					return false
				}
			}
			for _, n := range []string{"Require", "Proxy-Require", "Content-Type"} {
				if x.HasHeader(n) {
					c.Failf("kept:"+n, "%s keeps %s\n%s", what, n, x.String())
					return false
				}
			}
			if v := x.GetTopmostVia(); v == nil || diff(s.via.Want, gen.Observe(v)) != "" {
				c.Failf("top-via", "%s has another top Via\n%s", what, x.String())
				return false
			}
			if b := x.GetTopmostVia().GetBranch(); len(b) >= 7 && strings.EqualFold(b[:7], "z9hG4bK") && x.GetTransactionId() != r.GetTransactionId() {
				c.Failf("transaction", "%s has another transaction identifier", what)
				return false
			}
			c.Count("CANCEL", 1)
		case 1, 2:
			var to *header.To
			var tv *gen.Val
			what = "CreateAckRequest(nil)"
			if g.P(2) {
				tv = gen.KindOf("To").Gen(g)
				h, _ := tv.Build()
				to = h.(*header.To)
				what = "CreateAckRequest(" + strings.TrimSpace(to.String()) + ")"
			}
			x = r.CreateAckRequest(to)
			if x == nil {
				c.Failf("nil", "%s gave nothing", what)
				return false
			}
			if !startIs(c, what, x, "ACK", s.uri, num) {
				return false
			}
			m2 := *s.m
			if tv != nil {
				m2.Lines = append([]*gen.Line{{K: gen.KindOf("To"), Vals: []*gen.Val{tv}}}, s.m.Lines...)
			}
			for _, n := range []string{"From", "To", "Call-ID"} {
				if !sameGroup(c, what, x, n, &m2) {
					return false
				}
			}
			for _, n := range []string{"Route", "Proxy-Authorization", "Content-Type"} {
				if x.HasHeader(n) {
					c.Failf("kept:"+n, "%s keeps %s\n%s", what, n, x.String())
					return false
				}
			}
			if !oneVia(c, what, x) {
				return false
			}
			if d := diff(s.via.Want, gen.Observe(x.GetTopmostVia())); d != "" {
				c.Failf("top-via", "%s has another Via, %s\n%s", what, d, x.String())
				return false
			}
			c.Count("ACK", 1)
		default:
			sw := g.P(2)
			method := "BYE"
			uri := s.uri
			switch g.N(3) {
			case 0:
				what, method, sw = "CreateACKRequest()", "ACK", false
				x = r.CreateACKRequest()
				c.Count("ACK from headers", 1)
			case 1:
				what = fmt.Sprintf("CreateBYERequest(%v)", sw)
				x = r.CreateBYERequest(sw)
				c.Count("BYE", 1)
			default:
				method = g.Method()
				u := g.URI(gen.URIOpt{})
				l := header.NewRequestLine()
				l.SetMethod(method)
				l.SetUri(u.Build())
				uri = u.Want()
				what = fmt.Sprintf("CreateSIPRequest(%q, %v)", strings.TrimSpace(l.String()), sw)
				x = r.CreateSIPRequest(l, sw)
				c.Count("request from a request line", 1)
			}
			if x == nil {
				c.Failf("nil", "%s gave nothing", what)
				return false
			}
			if !startIs(c, what, x, method, uri, num) {
				return false
			}
			for _, n := range []string{"Call-ID", "Max-Forwards"} {
				if !sameGroup(c, what, x, n, s.m) {
					return false
				}
			}
			wf, wt := s.from, s.to
			if sw {
				wf, wt = wt, wf
			}
			f, ft := party(x.GetHeader("From"))
			t, tt := party(x.GetHeader("To"))
			if d := diff(wf, f); d != "" || ft != "" {
				c.Failf("from", "%s has another From (tag %q), %s\n%s", what, ft, d, x.String())
				return false
			}
			if d := diff(wt, t); d != "" || tt != "" {
				c.Failf("to", "%s has another To (tag %q), %s\n%s", what, tt, d, x.String())
				return false
			}
			if !oneVia(c, what, x) {
				return false
			}
			if v, o := x.GetTopmostVia(), r.GetTopmostVia(); sentBy(v) != sentBy(o) || v.GetBranch() != "" || v.HasParameter("branch") {
				c.Failf("via", "%s has a Via that is not the original's top one without its branch\n%s", what, x.String())
				return false
			}
			if !onlyHeaders(c, what, x, "From", "To", "Call-ID", "CSeq", "Via", "Max-Forwards", "Content-Length") {
				return false
			}
		}
		if !noBody(c, what, x) || !wellFormed(c, what, x) || !unchanged(c, what, r, s.before) {
			return false
		}
		c.Key(what + x.String())
		if c.WantSample() {
			c.Sample("%s: %q", what, x.String())
		}
		// editing the derived request leaves the original alone
		for n := g.N(5); n > 0; n-- {
			ed := ""
			switch g.N(7) {
			case 0:
				x.SetMethod(g.Method())
				ed = "changing the method"
			case 1:
				x.SetRequestURI(g.URI(gen.URIOpt{}).Build())
				ed = "changing the request URI"
			case 2:
				x.GetCSeq().SetSequenceNumber(g.Int(0, gen.MaxInt31))
				ed = "changing the CSeq number"
			case 3:
				x.GetCSeq().SetMethod(g.Method())
				ed = "changing the CSeq method"
			case 4:
				if strings.HasPrefix(what, "CreateAck") || strings.HasPrefix(what, "CreateCancel") {
					continue // those share From and To, as documented
				}
				x.SetToTag(g.Token())
				x.SetFromTag(g.Token())
				ed = "setting the tags"
			case 5:
				x.SetContent(g.Token(), header.NewContentTypeFromString("a", "b"))
				ed = "setting content"
			case 6:
				n := g.Pick("From", "To", "Call-ID", "Max-Forwards", "Route", "Subject")
				x.RemoveHeader(n)
				ed = "removing " + n
				if h, _ := gen.KindOf(n).Gen(g).Build(); g.P(2) {
					x.SetHeader(h)
					ed = "replacing " + n
				}
			}
			c.Count("edits of a derived request", 1)
			if !unchanged(c, what+" and "+ed, r, s.before) {
				return false
			}
		}
		return true
	}
	request := func(c *mon.C, g *gen.G, m *gen.Msg) *state {
		x := makeMsg(c, g, m)
		if x == nil {
			return nil
		}
		s := &state{m: m, r: x.(*message.SIPRequest), before: snap(x), uri: m.U.Want(), via: m.Group("Via").Vals[0]}
		fmt.Sscanf(m.Group("CSeq").Vals[0].Want[0], "CSeq %d", &s.num)
		s.from, _ = party(x.GetHeader("From"))
		s.to, _ = party(x.GetHeader("To"))
		return s
	}
	fromResponse := func(c *mon.C, g *gen.G) {
		m := g.Msg(gen.MsgOpt{Resp: true, Extra: 10, Repeat: g.P(2)})
		e := makeMsg(c, g, m)
		if e == nil {
			return
		}
		before := snap(e)
		for n := 1 + g.N(3); n > 0; n-- {
			u := g.URI(gen.URIOpt{})
			vv := gen.KindOf("Via").Gen(g)
			vh, _ := vv.Build()
			via := vh.(*header.Via)
			method := g.Pick("ACK", "CANCEL", "BYE", g.Method())
			num := g.Int(0, gen.MaxInt31)
			cs := header.NewCSeq(num, method)
			sender, branch := sentBy(via), via.GetBranch()
			top := m.Group("Via").Vals[0].Want
			if method == "ACK" || method == "CANCEL" {
				var b string
				if k := strings.Index(top[2], " received="); k > 0 {
					b = strings.TrimPrefix(top[2][:k], "branch=")
				}
				if b != "" {
					branch = b
				}
			}
			what := fmt.Sprintf("CreateRequest(%s, %s, %s)", u.Text(), strings.TrimSpace(via.String()), strings.TrimSpace(cs.String()))
			var uri address.URI = u.Build()
			x := e.(*message.SIPResponse).CreateRequest(uri, via, cs)
			if x == nil {
				c.Failf("nil", "%s gave nothing", what)
				return
			}
			c.Count("requests derived from a response", 1)
			if !startIs(c, what, x, method, u.Want(), num) || !oneVia(c, what, x) {
				return
			}
			if v := x.GetTopmostVia(); sentBy(v) != sender || v.GetBranch() != branch {
				c.Failf("via", "%s has Via %q, wanted branch %q", what, v.String(), branch)
				return
			}
			for _, n := range []string{"From", "To", "Call-ID"} {
				if !sameGroup(c, what, x, n, m) {
					return
				}
			}
			for _, n := range []string{"Record-Route", "Content-Type", "Error-Info", "Proxy-Authenticate", "Server", "Unsupported", "Retry-After", "Warning", "WWW-Authenticate"} {
				if x.HasHeader(n) {
					c.Failf("kept:"+n, "%s keeps %s\n%s", what, n, x.String())
					return
				}
			}
			if !noBody(c, what, x) || !wellFormed(c, what, x) || !unchanged(c, what, e, before) {
				return
			}
			c.Key(what + x.String())
			if g.P(2) {
				x.SetMethod("OTHER")
				x.RemoveHeader(g.Pick("From", "To", "Call-ID"))
				x.SetContent(g.Token(), header.NewContentTypeFromString("a", "b"))
				if !unchanged(c, what+" and edits of the request", e, before) {
					return
				}
			}
		}
	}
	mon.Register(&mon.Prop{
		ID:    "S22",
		Quick: 1.5,
		Rule:  "a case is one generated message (parsed or built with setters, any headers) and a sequence of requests derived from it, each compared with the model of the original, re-parsed and edited; it counts when the original was compared with its state before after every step",
		Handlers: map[string]mon.Handler{
			"request": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				o := gen.MsgOpt{Req: true, Extra: 10, Repeat: g.P(2)}
				if g.P(3) {
					o.Method = "INVITE"
				}
				s := request(c, g, g.Msg(o))
				if s == nil {
					return
				}
				for n := 1 + g.N(5); n > 0; n-- {
					if !derive(c, g, s) {
						return
					}
				}
			},
			"every": func(c *mon.C, data []byte) { // a request with the headers that derivation treats specially
				g := gen.New(c.RNG())
				m := g.Msg(gen.MsgOpt{Req: true, Method: g.Pick("INVITE", "", "BYE")})
				for _, n := range []string{"Require", "Proxy-Require", "Route", "Record-Route", "Proxy-Authorization", "Authorization", "Contact", "Via"} {
					at := g.N(len(m.Lines) + 1)
					m.Lines = append(m.Lines[:at:at], append([]*gen.Line{g.Line(gen.KindOf(n), 3)}, m.Lines[at:]...)...)
				}
				s := request(c, g, m)
				if s == nil {
					return
				}
				for n := 2 + g.N(5); n > 0; n-- {
					if !derive(c, g, s) {
						return
					}
				}
				c.Count("requests with every special header", 1)
			},
			"response": func(c *mon.C, data []byte) { fromResponse(c, gen.New(c.RNG())) },
		},
		Plan: func(p *mon.Plan) {
			p.Seeds("request", p.N(15000, 500000))
			p.Seeds("every", p.N(6000, 200000))
			p.Seeds("response", p.N(8000, 250000))
		},
		MinEvents: []string{"CANCEL", "ACK", "BYE", "ACK from headers", "request from a request line", "requests derived from a response", "edits of a derived request", "requests with every special header"},
		Assume:    []string{"headers other than CSeq (and From, To and Via of BYE-like requests) are shared between original and derived request as documented: editing such a header object in place is not part of the property"},
	})
}
