package props

import (
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
)

// flat is a message given by the fields that identify its transaction and
// dialog, and by everything else.
type flat struct {
	method, uri           string
	status                int // 0: a request
	branch                string
	viaTr, viaHost        string
	viaPort               int
	viaMore               string // further parameters
	moreVias              []string
	fromDN, fromURI, toDN string
	toURI, fromTag, toTag string
	fromMore, toMore      string
	callID                string
	num                   int
	cseqMethod            string
	extra                 []string
	body                  string
	order                 []int
}

func (f *flat) wire() string {
	tag := func(t string) string {
		if t == "" {
			return ""
		}
		return ";tag=" + t
	}
	via := "Via: SIP/2.0/" + f.viaTr + " " + f.viaHost
	if f.viaPort >= 0 {
		via += fmt.Sprintf(":%d", f.viaPort)
	}
	if f.branch != "" {
		via += ";branch=" + f.branch
	}
	via += f.viaMore
	l := []string{via,
		"From: " + f.fromDN + "<" + f.fromURI + ">" + f.fromMore + tag(f.fromTag),
		"To: " + f.toDN + "<" + f.toURI + ">" + tag(f.toTag) + f.toMore,
		"Call-ID: " + f.callID,
		fmt.Sprintf("CSeq: %d %s", f.num, f.cseqMethod)}
	l = append(l, f.extra...)
	var o []string
	for _, i := range f.order {
		if i < len(l) {
			o = append(o, l[i])
			if i == 0 {
				for _, v := range f.moreVias {
					o = append(o, v)
				}
			}
		}
	}
	s := f.method + " " + f.uri + " SIP/2.0"
	if f.status > 0 {
		s = fmt.Sprintf("SIP/2.0 %d %s", f.status, "x")
	}
	return s + "\r\n" + strings.Join(o, "\r\n") + fmt.Sprintf("\r\nContent-Length: %d\r\n\r\n%s", len(f.body), f.body)
}

const maxFlat = 16

func (f *flat) shuffle(g *gen.G) { f.order = g.R.Perm(maxFlat) }

// extras are lines that identify nothing.
func (f *flat) extras(g *gen.G) {
	f.extra = nil
	for n := g.N(4); n > 0; n-- {
		k := gen.KindOf(g.Pick("Contact", "Subject", "Max-Forwards", "Route", "Record-Route", "User-Agent", "Allow", "Expires", "Reply-To"))
		f.extra = append(f.extra, g.Line(k, 2).Plain())
	}
	f.body = ""
	if g.P(2) {
		f.body = g.Text()
	}
}

// sipURI is a SIP URI for From or To. The user part is never empty.
func flatURI(g *gen.G) string {
	h, _ := g.Host()
	s := "sip:" + g.Word() + "@" + h
	if p := g.Port(); p >= 0 {
		s += fmt.Sprintf(":%d", p)
	}
	if g.P(4) {
		s += ";lr"
	}
	return s
}

func newFlat(g *gen.G) *flat {
	f := &flat{method: g.Method(), uri: flatURI(g), viaTr: g.Pick("UDP", "TCP", "TLS", "SCTP", "udp", "TLS-SCTP", "WS"), viaPort: g.Port(),
		fromURI: flatURI(g), toURI: flatURI(g), fromTag: g.Token(), callID: g.CallID(), num: g.Int(0, gen.MaxInt31)}
	f.viaHost, _ = g.Host()
	f.cseqMethod = f.method
	if g.P(3) {
		f.toTag = g.Token()
	}
	if g.P(6) {
		f.fromTag = ""
	}
	if g.P(8) { // a call to oneself
		f.toURI = f.fromURI
	}
	if g.P(3) {
		f.fromDN = `"` + g.QText(1) + `" `
	}
	if g.P(3) {
		f.moreVias = []string{g.Line(gen.KindOf("Via"), 2).Plain()}
	}
	f.extras(g)
	f.shuffle(g)
	return f
}

// another makes a value that differs from old even in lower case.
func another(old string, mk func() string) string {
	for {
		if s := mk(); !strings.EqualFold(s, old) && s != "" {
			return s
		}
	}
}

// near changes one character of a value, or shortens or lengthens it.
func near(g *gen.G, old string) string {
	return another(old, func() string {
		b := []byte(old)
		switch i := g.N(len(b) + 1); {
		case g.P(4) || i == len(b):
			return old + g.Chars("abcdefghijklmnopqrstuvwxyz0123456789", 1)
		case g.P(3) && len(b) > 1 && i > 0:
			return old[:len(b)-1]
		default:
			b[i] = g.Chars("abcdefghijklmnopqrstuvwxyz0123456789", 1)[0]
			return string(b)
		}
	})
}

// recase changes the case of some letters.
func recase(g *gen.G, s string) string {
	b := []byte(s)
	for i := range b {
		if g.P(2) {
			b[i] = strings.ToUpper(string(b[i]))[0]
		} else {
			b[i] = strings.ToLower(string(b[i]))[0]
		}
	}
	return string(b)
}

// flatMsg parses it, now and then through an encoding.
func flatMsg(c *mon.C, g *gen.G, f *flat) editable {
	w := f.wire()
	x, err := parseMsg([]byte(w))
	if err == nil && x != nil && g.P(4) {
		x, err = parseMsg([]byte(x.String()))
	}
	if err != nil || x == nil {
		c.Failf("rejected", "well-formed message rejected: %v\n%q", err, w)
		return nil
	}
	return x.(editable)
}

// change alters fields that identify nothing and describes it.
func (f *flat) noise(g *gen.G) string {
	switch g.N(6) {
	case 0:
		f.fromDN, f.toDN = `"`+g.QText(1)+`" `, ""
		return "display names"
	case 1:
		f.extras(g)
		f.shuffle(g)
		return "other headers, body and header order"
	case 2:
		f.viaMore = g.Pick(";received=192.0.2.7", ";rport", ";ttl=3", ";received=a.b;rport=7", ";x=y")
		return "Via parameters"
	case 3:
		f.moreVias = []string{g.Line(gen.KindOf("Via"), 2).Plain()}
		return "further Vias"
	case 4:
		f.fromMore, f.toMore = ";x="+g.Token(), g.Pick(";y="+g.Token(), "")
		return "other From and To parameters"
	}
	f.uri = flatURI(g)
	return "request URI"
}

func init() {
	idOf := func(c *mon.C, x editable) string {
		id := x.GetTransactionId()
		if id == "" {
			c.Failf("empty", "empty transaction identifier\n%s", x.String())
		}
		if again := x.GetTransactionId(); again != id {
			c.Failf("unstable", "transaction identifier %q, then %q\n%s", id, again, x.String())
		}
		return id
	}
	same := func(c *mon.C, what string, a, b string, x, y editable) bool {
		c.Count("pairs of one transaction", 1)
		if a != b {
			c.Failf("same:"+what, "messages that differ in %s alone have transactions %q and %q\n%s\n%s", what, a, b, x.String(), y.String())
			return false
		}
		return true
	}
	differ := func(c *mon.C, what string, a, b string, x, y editable) bool {
		c.Count("pairs of different transactions", 1)
		if a == b {
			c.Failf("differ:"+what, "messages that differ in %s have the same transaction %q\n%s\n%s", what, a, x.String(), y.String())
			return false
		}
		return true
	}
	run := func(c *mon.C, g *gen.G, magic bool) {
		f := newFlat(g)
		if magic {
			f.branch = recase(g, "z9hG4bK") + g.Pick("", "-", ".") + g.Chars("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-.!%*_+`'~", 1+g.N(20))
			if g.P(12) {
				f.branch = f.branch[:7] // nothing but the cookie
			}
		} else if g.P(2) {
			f.branch = g.Pick(g.Token(), "z9hG4b", "1", "xz9hG4bK1", "9hG4bK")
			if len(f.branch) >= 7 && strings.EqualFold(f.branch[:7], "z9hg4bk") {
				f.branch = "1"
			}
		}
		x := flatMsg(c, g, f)
		if x == nil {
			return
		}
		id := idOf(c, x)
		if c.Failed() {
			return
		}
		c.Key(f.wire())
		if c.WantSample() {
			c.Sample("%s for %q", id, f.wire())
		}
		// variants of the same message
		for i := 0; i < 4; i++ {
			v := *f
			what := v.noise(g)
			y := flatMsg(c, g, &v)
			if y == nil || !same(c, what, id, idOf(c, y), x, y) {
				return
			}
		}
		{ // a response to it, as received, with a To tag
			v := *f
			v.status, v.toTag = 100+g.N(600), g.Token()
			y := flatMsg(c, g, &v)
			if y == nil || !same(c, "being the response", id, idOf(c, y), x, y) {
				return
			}
			r := x.(*message.SIPRequest).CreateResponse(100 + g.N(600))
			r.SetToTag(g.Token())
			if !same(c, "being the created response", id, idOf(c, r), x, r) {
				return
			}
		}
		if magic {
			// the branch alone counts
			for i := 0; i < 3; i++ {
				v := *f
				what := ""
				switch g.N(9) {
				case 0:
					v.branch = recase(g, v.branch)
					what = "the case of the branch"
				case 1:
					v.method, v.cseqMethod = "CANCEL", "CANCEL"
					what = "the method"
				case 2:
					v.num = g.Int(0, gen.MaxInt31)
					what = "the CSeq number"
				case 3:
					v.fromTag = g.Token()
					what = "the From tag"
				case 4:
					v.callID = g.CallID()
					what = "the Call-ID"
				case 5:
					v.fromURI, v.toURI = flatURI(g), flatURI(g)
					what = "From and To URIs"
				case 6:
					v.viaPort = g.Port()
					what = "the sent-by port"
				case 7:
					v.viaTr = g.Pick("UDP", "TCP", "SCTP", "tls", "WSS")
					what = "the transport"
				case 8:
					n := newFlat(g)
					n.branch = v.branch
					v = *n
					what = "everything but the branch"
				}
				y := flatMsg(c, g, &v)
				if y == nil || !same(c, what, id, idOf(c, y), x, y) {
					return
				}
			}
			y := x.(*message.SIPRequest).CreateCancelRequest()
			if !same(c, "being the created CANCEL", id, idOf(c, y), x, y) {
				return
			}
			a := x.(*message.SIPRequest).CreateAckRequest(nil)
			if !same(c, "being the created ACK", id, idOf(c, a), x, a) {
				return
			}
			for i := 0; i < 3; i++ {
				v := *f
				v.branch = f.branch[:7] + near(g, f.branch[7:])
				if g.P(3) {
					v.branch = f.branch[:7] + another(f.branch[7:], g.Token)
				}
				if g.P(3) {
					v.noise(g)
				}
				y := flatMsg(c, g, &v)
				if y == nil || !differ(c, "the branch", id, idOf(c, y), x, y) {
					return
				}
			}
			// a branch set on the message takes effect
			b := "z9hG4bK" + another(f.branch[7:], g.Token)
			x.GetTopmostVia().SetBranch(b)
			v := *f
			v.branch = b
			if y := flatMsg(c, g, &v); y != nil {
				same(c, "being edited to that branch", idOf(c, y), idOf(c, x), y, x)
			}
			c.Count("standard branches", 1)
			return
		}
		user := func(uri string) string {
			at := strings.IndexByte(uri, '@')
			return "sip:" + another(uri[4:at], g.Word) + uri[at:]
		}
		// parts gives the text before the host, the host, the port with its
		// colon and the rest of a URI made by flatURI.
		parts := func(uri string) (string, string, string, string) {
			at := strings.IndexByte(uri, '@') + 1
			rest := uri[at:]
			i := strings.IndexByte(rest, ']') + 1
			for i < len(rest) && rest[i] != ':' && rest[i] != ';' {
				i++
			}
			j := i
			for j < len(rest) && rest[j] != ';' {
				j++
			}
			return uri[:at], rest[:i], rest[i:j], rest[j:]
		}
		host := func(uri string) string {
			a, h, p, z := parts(uri)
			return a + another(h, func() string { h, _ := g.Host(); return h }) + p + z
		}
		port := func(uri string) string {
			a, h, p, z := parts(uri)
			for {
				q := ""
				if n := g.Port(); n >= 0 {
					q = fmt.Sprintf(":%d", n)
				}
				// whether no port is the same as 5060 is left open here
				if q != p && !(p == "" && q == ":5060") && !(p == ":5060" && q == "") {
					return a + h + q + z
				}
			}
		}
		if f.viaPort < 0 || f.viaPort == 5060 {
			v := *f
			v.viaPort = -1
			if f.viaPort < 0 {
				v.viaPort = 5060
			}
			y := flatMsg(c, g, &v)
			if y == nil || !same(c, "writing the default port 5060", id, idOf(c, y), x, y) {
				return
			}
			c.Count("default ports", 1)
		}
		for i := 0; i < 6; i++ {
			v := *f
			what := ""
			switch g.N(14) {
			case 10:
				v.fromURI = host(f.fromURI)
				what = "the From host"
			case 11:
				v.toURI = host(f.toURI)
				what = "the To host"
			case 12:
				v.fromURI = port(f.fromURI)
				what = "the From port"
			case 13:
				v.toURI = port(f.toURI)
				what = "the To port"
			case 5:
				v.fromURI = user(f.fromURI)
				what = "the From user"
			case 6:
				v.toURI = user(f.toURI)
				what = "the To user"
			case 7:
				v.viaHost = another(f.viaHost, func() string { h, _ := g.Host(); return h })
				what = "the sent-by host"
			case 8:
				def := func(p int) int {
					if p < 0 {
						return 5060
					}
					return p
				}
				for def(v.viaPort) == def(f.viaPort) {
					v.viaPort = g.Port()
				}
				what = "the sent-by port"
			case 9:
				v.method = another(f.method, g.Method)
				v.cseqMethod = v.method
				what = "the method"
			case 0:
				v.num = f.num ^ (1 << g.N(31))
				what = "the CSeq number"
			case 1:
				if f.fromTag == "" {
					v.fromTag = g.Token()
				} else if g.P(6) {
					v.fromTag = ""
				} else {
					v.fromTag = near(g, f.fromTag)
				}
				what = "the From tag"
			case 2:
				v.callID = near(g, f.callID)
				if h := v.callID; strings.Contains(h, "@@") || strings.HasSuffix(h, "@") || strings.Count(h, "@") > 1 {
					v.callID = another(f.callID, g.CallID)
				}
				what = "the Call-ID"
			case 3:
				v.callID = another(f.callID, g.CallID)
				what = "the Call-ID"
			case 4:
				v.fromTag = another(f.fromTag, g.Token)
				what = "the From tag"
			}
			if g.P(3) {
				v.noise(g)
			}
			y := flatMsg(c, g, &v)
			if y == nil || !differ(c, what, id, idOf(c, y), x, y) {
				return
			}
		}
		// the identifier follows edits, however often it was asked for
		v := *f
		for n := 1 + g.N(4); n > 0; n-- {
			what := ""
			switch g.N(9) {
			case 0:
				v.callID = another(v.callID, func() string { return g.Word() + "@" + g.Word() })
				what = "SetCallIdFromString"
				x.SetCallIdFromString(v.callID)
			case 1:
				v.fromTag = another(v.fromTag, g.Token)
				what = "SetFromTag"
				x.SetFromTag(v.fromTag)
			case 2:
				v.num ^= 1 << g.N(31)
				what = "SetCSeq"
				x.SetCSeq(header.NewCSeq(v.num, v.cseqMethod))
			case 3:
				v.num ^= 1 << g.N(31)
				what = "the number of the CSeq header"
				x.GetCSeq().SetSequenceNumber(v.num)
			case 4:
				v.fromTag = another(v.fromTag, g.Token)
				what = "the tag of the From header"
				x.GetFrom().SetTag(v.fromTag)
			case 5:
				v.callID = another(v.callID, func() string { return g.Word() + "@" + g.Word() })
				what = "the Call-ID header"
				x.GetCallId().SetCallId(v.callID)
			case 6:
				v.viaPort = 1 + g.N(65535)
				what = "the port of the Via header"
				x.GetTopmostVia().SetPort(v.viaPort)
			case 7:
				v.viaHost = another(v.viaHost, g.Word)
				what = "the host of the Via header"
				x.GetTopmostVia().SetHost(core.NewHost(v.viaHost))
			case 8:
				v.toTag = another(v.toTag, g.Token)
				what = "SetToTag"
				x.SetToTag(v.toTag)
			}
			y := flatMsg(c, g, &v)
			if y == nil || !same(c, "being edited to it ("+what+")", idOf(c, y), idOf(c, x), y, x) {
				return
			}
			c.Count("edit "+what, 1)
		}
		c.Count("other branches", 1)
	}
	mon.Register(&mon.Prop{
		ID:    "S23",
		Quick: 4,
		Rule:  "a case is one generated request given by its identifying fields, with variants that differ in fields that must not matter (and its responses, CANCEL and ACK) and variants that differ in one field that must; it counts when the identifiers of all pairs were compared",
		Handlers: map[string]mon.Handler{
			"standard": func(c *mon.C, data []byte) { run(c, gen.New(c.RNG()), true) },
			"old":      func(c *mon.C, data []byte) { run(c, gen.New(c.RNG()), false) },
		},
		Plan: func(p *mon.Plan) {
			p.Seeds("standard", p.N(6000, 300000))
			p.Seeds("old", p.N(6000, 300000))
		},
		MinEvents: []string{"pairs of one transaction", "pairs of different transactions", "standard branches", "other branches", "default ports"},
		Assume:    []string{"identifiers of messages without a standard branch are compared for messages that differ in one identifying field at a time, letter case aside"},
	})
}
