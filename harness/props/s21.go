package props

import (
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
)

// phrases is the reference table: every status code the library names.
var phrases = map[int]string{
	100: "Trying", 180: "Ringing", 181: "Call is being forwarded", 182: "Queued", 183: "Session progress",
	200: "OK", 202: "Accepted",
	300: "Multiple choices", 301: "Moved permanently", 302: "Moved Temporarily", 305: "Use proxy", 380: "Alternative service",
	400: "Bad request", 401: "Unauthorized", 402: "Payment required", 403: "Forbidden", 404: "Not found", 405: "Method not allowed",
	406: "Not acceptable", 407: "Proxy Authentication required", 408: "Request timeout", 410: "Gone", 413: "Request entity too large",
	414: "Request-URI too large", 415: "Unsupported media type", 416: "Unsupported URI Scheme", 420: "Bad extension", 421: "Extension Required",
	423: "Interval too brief", 480: "Temporarily Unavailable", 481: "Call leg/Transaction does not exist", 482: "Loop detected", 483: "Too many hops",
	484: "Address incomplete", 485: "Ambiguous", 486: "Busy here", 487: "Request Terminated", 488: "Not Acceptable here", 489: "Bad Event",
	491: "Request Pending", 493: "Undecipherable",
	500: "Server Internal Error", 501: "Not implemented", 502: "Bad gateway", 503: "Service unavailable", 504: "Gateway timeout",
	505: "SIP version not supported", 513: "Message Too Large",
	600: "Busy everywhere", 603: "Decline", 604: "Does not exist anywhere", 606: "Session Not acceptable",
}

// samePhrase compares a phrase with the reference, letter case aside.
func samePhrase(code int, got string) bool { return strings.EqualFold(phrases[code], got) }

// editable is a request or a response.
type editable interface {
	headerBag
	contentSetter
	RemoveContent()
	SetFromTag(string)
	SetToTag(string)
	GetFirstLine() string
	SetSIPVersion(string)
	GetTransactionId() string
}

// snap is everything a message shows.
func snap(x editable) []string {
	o := gen.ObserveMsg(x)
	return append(o, x.GetFirstLine(), x.String(), string(x.EncodeAsBytes()))
}

// makeMsg makes the modelled message by parsing it or with setters.
func makeMsg(c *mon.C, g *gen.G, m *gen.Msg) editable {
	var x gen.Message
	if g.P(3) {
		c.Count("built originals", 1)
		x = m.BuildMsg()
	} else {
		c.Count("parsed originals", 1)
		var err error
		wire := m.Wire()
		if x, err = parseMsg(wire); err != nil || x == nil {
			c.Failf("rejected", "well-formed message rejected: %v\n%q", err, wire)
			return nil
		}
	}
	e, ok := x.(editable)
	if !ok {
		c.Failf("type", "message of type %T", x)
		return nil
	}
	return e
}

// sameGroup checks that a message carries a header exactly as modelled; a nil
// group must be absent.
func sameGroup(c *mon.C, what string, x editable, name string, m *gen.Msg) bool {
	gr := m.Group(name)
	if gr == nil {
		if l := x.GetHeaders(name); l != nil && l.Len() > 0 || x.GetHeader(name) != nil || x.HasHeader(name) {
			c.Failf("invented:"+name, "%s has a %s header, the original has none\n%s", what, name, x.String())
			return false
		}
		return true
	}
	if d := diff(gr.Want(), gen.ObsGroup(x, name)); d != "" {
		c.Failf("header:"+name, "%s: the %s header differs from the original's, %s\noriginal %q\n%s", what, name, d, gr.Canon(), x.String())
		return false
	}
	if !strings.Contains(x.String(), "\r\n"+gr.Canon()) {
		c.Failf("encoding:"+name, "%s does not encode the original's %s header %q\n%s", what, name, gr.Canon(), x.String())
		return false
	}
	return true
}

// onlyHeaders checks that a message has no header besides the allowed ones.
func onlyHeaders(c *mon.C, what string, x editable, allowed ...string) bool {
	for e := x.GetHeaderNames().Front(); e != nil; e = e.Next() {
		n, ok := e.Value.(string), false
		for _, a := range allowed {
			ok = ok || strings.EqualFold(a, n)
		}
		if !ok {
			c.Failf("extra:"+n, "%s has a %s header\n%s", what, n, x.String())
			return false
		}
	}
	return true
}

// noBody checks that a message has no content.
func noBody(c *mon.C, what string, x editable) bool {
	if x.GetContent() != "" || x.HasContent() || (x.GetContentLength() != nil && x.GetContentLength().GetContentLength() != 0) || !strings.HasSuffix(x.String(), "\r\n\r\n") {
		c.Failf("body", "%s has a body\n%s", what, x.String())
		return false
	}
	return true
}

// wellFormed checks that a message survives encoding and parsing.
func wellFormed(c *mon.C, what string, x editable) bool {
	enc := x.String()
	if s := string(x.EncodeAsBytes()); s != enc {
		c.Failf("text-bytes", "%s: text and byte encodings differ\n%q\n%q", what, enc, s)
		return false
	}
	y, err := parseMsg([]byte(enc))
	if err != nil || y == nil {
		c.Failf("reparse", "%s does not parse: %v\n%q", what, err, enc)
		return false
	}
	if d := diff(gen.ObserveMsg(x), gen.ObserveMsg(y)); d != "" {
		c.Failf("reparse-differs", "%s parses to another message, %s\n%q", what, d, enc)
		return false
	}
	if s := y.String(); s != enc {
		c.Failf("fixpoint", "%s parses and encodes to another text\n%q\n%q", what, enc, s)
		return false
	}
	return true
}

// unchanged checks that the original is as before.
func unchanged(c *mon.C, what string, x editable, before []string) bool {
	if d := diff(before, snap(x)); d != "" {
		c.Failf("original", "after %s the original differs, %s", what, d)
		return false
	}
	return true
}

// lists of header names that derived messages may add or lose without
// touching the original
func editCollection(g *gen.G, x editable) string {
	switch g.N(6) {
	case 0:
		v, _ := gen.KindOf("Via").Gen(g).Build()
		x.AddHeader(v)
		return "adding a Via"
	case 1:
		x.RemoveHeader2("Via", g.P(2))
		return "removing one Via"
	case 2:
		n := g.Pick("From", "To", "Via", "Call-ID", "CSeq", "Record-Route", "Max-Forwards", "Timestamp")
		x.RemoveHeader(n)
		return "removing " + n
	case 3:
		k := gen.KindOf(g.Pick("From", "To", "Via", "Call-ID", "Record-Route", "Contact", "Server"))
		h, _ := k.Gen(g).Build()
		x.SetHeader(h)
		return "setting " + k.Name
	case 4:
		h, _ := gen.KindOf("Record-Route").Gen(g).Build()
		x.AttachHeader(h)
		return "adding a Record-Route"
	}
	x.SetContent(g.Token(), header.NewContentTypeFromString("a", "b"))
	return "setting content"
}

func init() {
	shown := []string{"From", "To", "Call-ID", "CSeq", "Via", "Record-Route", "Timestamp"}
	respond := func(c *mon.C, g *gen.G, m *gen.Msg, r *message.SIPRequest, before []string, code int) bool {
		var x *message.SIPResponse
		what, want := fmt.Sprintf("CreateResponse(%d)", code), ""
		own := false
		c.Count("responses derived", 1)
		switch g.N(3) {
		case 0:
			x = r.CreateResponse(code)
		case 1:
			what = fmt.Sprintf("CreateResponse2(%d, \"\")", code)
			x = r.CreateResponse2(code, "")
		default:
			want = strings.Join(strings.Fields(g.Text()), " ")
			own = want != ""
			what = fmt.Sprintf("CreateResponse2(%d, %q)", code, want)
			x = r.CreateResponse2(code, want)
		}
		if x == nil {
			c.Failf("nil", "%s gave nothing", what)
			return false
		}
		if x.GetStatusCode() != code {
			c.Failf("status", "%s has status %d", what, x.GetStatusCode())
			return false
		}
		if p := x.GetReasonPhrase(); own && p != want || !own && !samePhrase(code, p) {
			c.Failf("phrase", "%s has phrase %q", what, p)
			return false
		}
		if s := x.GetFirstLine(); !strings.EqualFold(s, fmt.Sprintf("SIP/2.0 %d %s\r\n", code, x.GetReasonPhrase())) || !strings.HasPrefix(x.String(), s) {
			c.Failf("status-line", "%s starts with %q, %q", what, s, x.String())
			return false
		}
		for _, n := range shown {
			if !sameGroup(c, what, x, n, m) {
				return false
			}
		}
		if !onlyHeaders(c, what, x, append([]string{"Max-Forwards", "Content-Length"}, shown...)...) ||
			!noBody(c, what, x) || !wellFormed(c, what, x) || !unchanged(c, what, r, before) {
			return false
		}
		if t := x.GetTopmostVia(); t == nil || t.String() != r.GetTopmostVia().String() {
			c.Failf("top-via", "%s has another top Via", what)
			return false
		}
		if a, b := x.GetTransactionId(), r.GetTransactionId(); a != b {
			c.Failf("transaction", "%s has transaction %q, its request %q", what, a, b)
			return false
		}
		c.Key(fmt.Sprint(code, x.String()))
		if c.WantSample() {
			c.Sample("%s: %q", what, x.String())
		}
		// editing the response leaves the request alone
		for n := g.N(5); n > 0; n-- {
			ed := ""
			switch g.N(5) {
			case 0:
				x.SetStatusCode(100 + g.N(600))
				x.SetReasonPhrase(g.Token())
				ed = "changing the status"
			case 1, 2:
				x.SetToTag(g.Token())
				ed = "setting the To tag"
			default:
				ed = editCollection(g, x)
			}
			c.Count("edits of a response", 1)
			if !unchanged(c, what+" and "+ed, r, before) {
				return false
			}
		}
		return true
	}
	start := func(c *mon.C, g *gen.G, o gen.MsgOpt) (*gen.Msg, *message.SIPRequest, []string) {
		o.Req = true
		m := g.Msg(o)
		x := makeMsg(c, g, m)
		if x == nil {
			return nil, nil, nil
		}
		return m, x.(*message.SIPRequest), snap(x)
	}
	mon.Register(&mon.Prop{
		ID:    "S21",
		Quick: 2,
		Rule:  "a case is one generated request (parsed or built with setters, any headers, repeated Via and Record-Route lines) with one or more responses derived from it and edited afterwards; it counts when every response was compared with the model of the request header by header, re-parsed, and the request compared with its state before",
		Handlers: map[string]mon.Handler{
			"codes": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				m, r, before := start(c, g, gen.MsgOpt{Extra: 2, Repeat: true, MaxVals: 2})
				if m == nil {
					return
				}
				for code := 100; code < 700; code++ {
					if !respond(c, g, m, r, before, code) {
						return
					}
				}
			},
			"many": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				m, r, before := start(c, g, gen.MsgOpt{Extra: 10, Repeat: !g.P(4)})
				if m == nil {
					return
				}
				for n := 1 + g.N(4); n > 0; n-- {
					if !respond(c, g, m, r, before, 100+g.N(600)) {
						return
					}
				}
			},
			"routes": func(c *mon.C, data []byte) { // many Vias and Record-Routes over many lines
				g := gen.New(c.RNG())
				m := g.Msg(gen.MsgOpt{Req: true, Extra: 2})
				for i := 2 + g.N(6); i > 0; i-- {
					l := g.Line(gen.KindOf(g.Pick("Via", "Record-Route", "Record-Route")), 6)
					at := g.N(len(m.Lines) + 1)
					m.Lines = append(m.Lines[:at:at], append([]*gen.Line{l}, m.Lines[at:]...)...)
				}
				x := makeMsg(c, g, m)
				if x == nil {
					return
				}
				c.Count("requests with many routes", 1)
				respond(c, g, m, x.(*message.SIPRequest), snap(x), 100+g.N(600))
			},
		},
		Plan: func(p *mon.Plan) {
			p.Seeds("codes", p.N(8, 100))
			p.Seeds("many", p.N(20000, 600000))
			p.Seeds("routes", p.N(5000, 150000))
		},
		MinEvents: []string{"built originals", "parsed originals", "responses derived", "edits of a response", "requests with many routes"},
		Assume:    []string{"headers are shared between request and response as documented: editing a header object in place (other than the To tag) is not part of the property"},
	})
}
