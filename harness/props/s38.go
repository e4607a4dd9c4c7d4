package props

import (
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/parser"
)

// badValues are header values that no reading of the grammar allows. T stands
// for a token, H for a host, U for a SIP URI, N for a number, M for a method.
var badValues = map[string][]string{
	"number":              {"T#", "-N", "N#", "N N", "N.5", "0xN", "N,N", "N;", "N;T=T", "\"N\"", "<N>", "9999999999999999999N", "N T", "(N)", "=N", "N=", "N-"},
	"Max-Forwards":        {"256", "1N00"},
	"CSeq":                {"N", "M#", "N M T", "N N M", "-N M#", "T# M", "N.0 M#", "N M/T", "N \"M\"", "N M,N M", "N M;T=T", "9999999999999999999N M", "N, M", "N <M>", "N;M", "N (M)"},
	"RAck":                {"N", "N N", "N N N M#", "T# N M", "N T# M", "N N M T", "N N \"M\"", "N,N M", "-N N M#", "N -N M", "N N M;T", "N N,M", "N;N;M"},
	"MIME-Version":        {"N", "N.", "T#.N", ".N", "N.T#", "N.N.N", "N.N T", "N,N", "-N.N", "N.-N", "N;N"},
	"Timestamp":           {"T#", "-N", "N.N.N", "N T#", "N N N", "N,N", ".N x", "N;N", "N.T#", "N -N", "N N x", "(N)"},
	"Retry-After":         {"T#", "-N", "N T", "N (", "N (T", "N (T))", "N;duration=T#", "N;duration=", "N;duration", "N;duration=-N", "N,N", "N;=T", "N;", "N (T) T", "N.N", "N;T=T;", "N (T) (T)", "N;;T=T"},
	"Content-Type":        {"T", "T/", "/T", "T/T/T", "T T", "T/T T", "T/T;", "T/T;=T", "T/T,T/T", "T/T;T=\"", "T/T;T=\"T", "T/T;T=T T", "\"T\"/T", "T/\"T\"", "T/T;;T=T", "<T/T>", "T/T;T=T;", "T/T \"T\"", "T/T;T=<T>"},
	"Content-Disposition": {";T=T", "T T", "T;", "T;=T", "T,T", "T;T=\"T", "\"T\"", "T;;T", "<T>", "T/T", "T;T=T T", "T;T=T;", "T=T"},
	"Event":               {";id=T", "T T", "T;", "T;=T", "T,T", "T;id=\"T", "\"T\"", "T;;T", "<T>", "T;id=<T>", "T;id=T T", "T/T", "T=T"},
	"Subscription-State":  {";expires=N", "T T", "T;", "T;=T", "T,T", "T;expires=T#", "T;expires=", "T;expires", "T;retry-after=T#", "T;retry-after=-N", "T;expires=-N", "\"T\"", "T;reason", "T;reason=", "T;;reason=T", "T;reason=T T", "T;reason=T,T", "<T>", "T=T", "T;expires=N N"},
	"Reason":              {";cause=N", "T;", "T;=T", "T;text=\"T", "T cause=N", "T,,T", "\"T\"", "T;;cause=N", ",T", "<T>", "T/T", "T=T", "T;cause=N,;cause=N"},
	"Priority":            {"T T", "@", "T,T", "\"T\"", "T;T=T", "<T>", "T/T", "T=T"},
	"tokens":              {",", "T,", ",T", "T,,T", "T;T", "@", "<T>", "\"T\"", "T,@", "T=T", "T/T", "T,\"T\"", "T,<T>", "T:T", "(T)", "T,;T"},
	"In-Reply-To":         {",", "T,", ",T", "T,,T", "@", "T@", "@T", "T@T,", "T@T,,T", ",T@T"},
	"Call-ID":             {"@", "T@", "@T"},
	"Accept":              {"T", "T/", "/T", "T/T/T", "T/T;", "T/T,", ",T/T", "T/T,,T/T", "T/T T/T", "T/T;q=0.5 T", "T/T;=T", "\"T\"/T", "T/T;T=\"T", "T,T/T", "T/T,T", "*", "*;q=N", "*;T=T", "T;q=0.5", "T;T=T", "/", "*/", "T/T;T=T;", "<T/T>"},
	"qtokens":             {"T;q=2", "T;q=T#", "T;q=", "T;q=-N", "T;q=1.5", "T;q", "T;", ",T", "T,,T", "T;=T", "\"T\"", "T;q=0.5;", "T;q=1.0.0", "<T>", "@", "T,@", "T/T", "T=T", "(T)", "T;q=\"0.5\""},
	"Warning":             {"30N", "399", "399 H", "399 H T", "399 H \"T", "39 H \"T\"", "3999 H \"T\"", "T# H \"T\"", "399 H \"T\" T", "399 H \"T\",", "399 \"H\" \"T\"", ",399 H \"T\"", "399 H \"T\",,399 H \"T\"", "99 H \"T\"", "1000 H \"T\"", "399 H \"T\" \"T\"", "-30 H \"T\"", "399 H \"T\";T=T", "399 <H> \"T\"", "399 H <T>", "399 H 'T'"},
	"Date":                {"T", "N", "Mon, 99 Foo 2000", "Mon, 03 Jan 2000 10:10:10", "Mon, 03 Jan 2000 10:10:10 PST", "Mon, 32 Jan 2000 10:10:10 GMT", "Mon, 03 Jan 2000 25:10:10 GMT", "Mon, 03 Jan 2000 10:60:10 GMT", "Mon, 03 Jan 2000 10:10:61 GMT", "Mon 03 Jan 2000 10:10:10 GMT", "Mon, 03 Jan 2000 10:10:10 GMT T", "Sun, 30 Feb 2020 10:10:10 GMT", "Foo, 03 Jan 2000 10:10:10 GMT", "Mon, 03 Foo 2000 10:10:10 GMT", "Mon, 03 Jan 2000 10.10.10 GMT", "Mon, xx Jan 2000 10:10:10 GMT", "Mon, 00 Jan 2000 10:10:10 GMT", "2000-01-03 10:10:10 GMT", "Mon, 03 Jan 2000 10:10 GMT", "Mon, 03 Jan 10:10:10 GMT", "Mon, 03 Jan 2000, 10:10:10 GMT"},
	"address": {"<U", "<", "<>", "sip:", "<sip:>", "\"T <U>", "\"T\" <U", "\"T\"", "T <", "<U>>", "<U> T", "<U>;=T", "<U>;", "<U>;;T=T", "<U>;T=\"T", "<U>;T=T T", "<U>,", "<U><U>", "<sip:H:T#>", "<sip:H:>", "<sip:T@>", "<sip:T@[1::>",
		"<sip:T T@H>", "<sip:T@H;=T>", "<sip:T@H;>", "<sip:T@H;;T=T>", "<sip:T@H;T=T;>", "<sip:H;>", "<sip:H;T;;T>", "<sip:T@H;;>", "<sip:H;=>", "<sip:T@H?>", "<sip:T@H?T=T&>", "<sip:T@H?&T=T>", "<sip:T@H?T=T&&T=T>", "<sip:T@H;T=T;?T=T>", "<sip:T@H?T>", "<sip:T@H?=T>", "<sip:T%4@H>", "<sip:T%zz@H>", "<:T>", "<T>", "<tel:>", "<tel:T#>", "\"T\" \"T\" <U>", "\"T\" T <U>", "<U>=T", "<U>:T", "*", "*;T=T", "<U>;T=<T>", "<U>;T=@", "<U>;@=T", "<U>\"T\"", "<U>(T)", "<U>;T=\"T\"T", "<U>@T", "<U>/T", "T", "<U>;\"T\""},
	"Contact":             {"<U>;expires=T#", "<U>;expires=", "<U>;expires=\"T", "<U>;q=@", "<U>;expires=T#;q=0.5", "<U>;expires=N,<U>;expires=T#"},
	"From":                {"<U>,<U>", "<U>;tag=<T>", "<U>;tag=T T", "<U>;tag=@"},
	"To":                  {"<U>,<U>", "<U>;tag=<T>", "<U>;tag=T T", "<U>;tag=@"},
	"Reply-To":            {"<U>,<U>", "<U>,T", "<U>;T=T,<U>"},
	"Refer-To":            {"<U>,<U>", "<U>,T", "<U>;T=T,<U>"},
	"Via":                 {"SIP", "SIP/2.0", "SIP/2.0/", "SIP/2.0/UDP", "SIP/2.0/UDP ", "/2.0/UDP H", "SIP//UDP H", "SIP/2.0/UDP H:", "SIP/2.0/UDP H:T#", "SIP/2.0/UDP H:-N", "SIP/2.0/UDP H T", "SIP/2.0/UDP H;", "SIP/2.0/UDP H;;T=T", "SIP/2.0/UDP H;=T", "SIP/2.0/UDP H;branch=", "SIP/2.0/UDP H;ttl=", "SIP/2.0/UDP H,", "SIP/2.0/UDP H,,SIP/2.0/UDP H", ",SIP/2.0/UDP H", "SIP/2.0/UDP H (", "SIP/2.0/UDP H (T", "SIP/2.0/UDP H (T))", "SIP/2.0/UDP H (T) T", "SIP/2.0/UDP [1::", "SIP/2.0/UDP [g::]", "SIP/2.0/UDP T@H", "SIP/2.0/UDP H:5060:1", "SIP/2.0/UDP H;T=\"T", "SIP/2.0/UDP H;T=T T", "SIP 2.0 UDP H", "SIP/2.0 UDP H", "SIP/2.0/U@P H", "SIP/3.0/UDP H", "HTTP/2.0/UDP H", "SIP/2.0/UDP H;branch=T T", "SIP/2.0/UDP H;branch=@", "SIP/2.0/UDP <H>", "SIP/2.0/UDP \"H\"", "SIP/2.0/UDP H;branch=<T>", "SIP/1.0/UDP H", "SIP/2.0/UDP H SIP/2.0/UDP H", "UDP H", "H", "SIP/2.0/UDP H;\"T\"=T", "SIP/2.0/UDP ;branch=T"},
	"info":                {"U", "<U", "<>", "<U>,", "<U>,,<U>", ",<U>", "<U> T", "<U>;", "<U>;=T", "<U>;T=\"T", "<T>", "<U>;T=T T", "\"T\" <U>", "U>", "<U>,T", "<U>;T=T;", "<U>>", "<sip:>", "<U>=T", "T <U>"},
	"auth":                {"Digest realm=\"T", "Digest =T", "Digest realm=T T=T", "Digest ,", "Digest realm=T,,nonce=T", "Digest ,realm=T", "=", "\"Digest\" realm=T", "Digest realm=\"T\"T", "Digest realm=\"T\" nonce=\"T\"", "Digest realm=\"T\";nonce=\"T\"", "Digest realm=<T>", "Digest uri=\"U", "realm=\"T\"", "Digest \"realm\"=T", "Digest realm=\"T\",=T", ",", "Digest realm=T;nonce=T", "Digest realm==T", "Digest: realm=T", "Digest realm=\"T\",nonce=\"T"},
	"Authentication-Info": {"=", "nextnonce=\"T", "nextnonce=\"T\" qop=T", ",nextnonce=\"T\"", "nextnonce=\"T\",,qop=T", "T T=T", "nextnonce=\"T\";qop=T", "\"T\"", "nextnonce=<T>", "nextnonce=\"T\"T", "nextnonce==T", ",", "@"},
}

// badGroup is the group of badValues, other than its own, that a kind shares.
var badGroup = map[string]string{
	"Max-Forwards": "number", "Expires": "number", "Min-Expires": "number", "Content-Length": "number", "RSeq": "number",
	"Allow": "tokens", "Supported": "tokens", "Require": "tokens", "Proxy-Require": "tokens", "Unsupported": "tokens", "Allow-Events": "tokens", "Content-Encoding": "tokens", "Content-Language": "tokens",
	"Accept-Encoding": "qtokens", "Accept-Language": "qtokens",
	"From": "address", "To": "address", "Contact": "address", "Reply-To": "address", "Refer-To": "address", "Route": "address", "Record-Route": "address",
	"Alert-Info": "info", "Call-Info": "info", "Error-Info": "info",
	"WWW-Authenticate": "auth", "Proxy-Authenticate": "auth", "Authorization": "auth", "Proxy-Authorization": "auth",
}

// fill writes a template out.
func fill(g *gen.G, t string) string {
	var b strings.Builder
	for i := 0; i < len(t); i++ {
		word := func(ch byte) bool { return ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' }
		if i > 0 && word(t[i-1]) || i+1 < len(t) && word(t[i+1]) {
			b.WriteByte(t[i])
			continue
		}
		switch t[i] {
		case 'T', 'M':
			w := g.Word()
			if i+1 < len(t) && t[i+1] == '#' { // not a number, whatever it is
				w = "x" + w
				i++
			}
			b.WriteString(w)
		case 'N':
			fmt.Fprint(&b, 1+g.N(200))
		case 'H':
			h, _ := g.Host()
			b.WriteString(h)
		case 'U':
			u := "sip:" + g.Word() + "@" + g.HostPort()
			if g.P(2) {
				u += ";" + g.Word() + "=" + g.Word()
			}
			b.WriteString(u)
		case '#':
			b.WriteString("x")
		default:
			b.WriteByte(t[i])
		}
	}
	return b.String()
}

// blankLists are lists whose parser takes blanks for commas, and freeText
// takes any text.
var blankLists = map[string]bool{"Supported": true, "Require": true, "Proxy-Require": true, "Unsupported": true, "Content-Encoding": true, "Content-Language": true, "In-Reply-To": true, "Accept-Encoding": true, "Accept-Language": true}
var freeText = map[string]bool{"Subject": true, "Organization": true, "Server": true, "User-Agent": true, "Call-ID": true}

// outside is the position of the last ch outside quotes and comments, or -1.
func outside(s string, ch byte) int {
	at, quoted, depth := -1, false, 0
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '\\' && (quoted || depth > 0):
			i++
		case s[i] == '"' && depth == 0:
			quoted = !quoted
		case quoted:
		case s[i] == '(':
			depth++
		case s[i] == ')':
			depth--
		}
		if i < len(s) && s[i] == ch && !quoted && depth == 0 {
			at = i
		}
	}
	return at
}

// badLine makes a header line that no reading of the grammar allows.
func badLine(g *gen.G) (kind, how, line string) {
	for {
		k := gen.Kinds[g.N(len(gen.Kinds))]
		var pool []string
		pool = append(pool, badValues[k.Name]...)
		own := len(pool)
		if gr := badGroup[k.Name]; gr != "" {
			for _, v := range badValues[gr] {
				if v == "*" && k.Name == "Contact" {
					continue
				}
				pool = append(pool, v)
			}
		}
		name := g.NameSpelling(k)
		colon := g.Pick(":", ": ", ":\t", " : ")
		if len(pool) > 0 && g.P(2) {
			i := g.N(len(pool))
			if own > 0 && g.P(2) {
				i = g.N(own)
			}
			v := fill(g, pool[i])
			if k.List && !k.NoComma && g.P(3) { // after well-formed ones
				return k.Name, "element " + pool[i], name + colon + gen.Plain(g.Line(k, 2).BodyT()) + g.Pick(",", ", ") + v
			}
			return k.Name, "template " + pool[i], name + colon + v
		}
		body := gen.Plain(g.Line(k, 2).BodyT())
		params := badGroup[k.Name] == "address" || badGroup[k.Name] == "info" || k.Name == "Via" || k.Name == "Content-Type" || k.Name == "Event" || k.Name == "Reason" || k.Name == "Content-Disposition" || k.Name == "Accept"
		switch g.N(6) {
		case 0:
			if freeText[k.Name] || blankLists[k.Name] || k.Name == "Reason" || badGroup[k.Name] == "auth" || k.Name == "Authentication-Info" {
				continue
			}
			return k.Name, "trailing text", name + colon + body + " " + g.Pick("x", "\"x\"", "<x>", ")", "]", "@", "x=y", "/x", "}", "x x", "é")
		case 1:
			if freeText[k.Name] || k.Name == "In-Reply-To" || strings.Contains(body, "(") {
				continue
			}
			i := strings.LastIndexByte(body, '"')
			if i < 0 {
				continue
			}
			return k.Name, "open quote", name + colon + body[:i]
		case 2:
			if badGroup[k.Name] != "address" && badGroup[k.Name] != "info" {
				continue
			}
			i := outside(body, '>')
			if i < 0 {
				continue
			}
			return k.Name, "open bracket", name + colon + body[:i]
		case 3:
			if !params {
				continue
			}
			p := g.Pick(";=x", ";", ";;x=y", ";\"x\"=y", ";x=\"y", ";x=\"y\"z", ";<x>", ";x=<y>", ";x=@", ";@", ";,", ";x=y z", ";x y=z", ";x=\"y\\\"", ";x:", ";x:=y", ";x/y", ";x@", ";x:;z", ";x=:", ";x=(", ";x=)", ";x==y", ";x=y=z", ";x=y:", ";(x", ";x=y/", ";x=y@z", ";?", ";x?", ";x=y?z")
			if badGroup[k.Name] == "address" && outside(body[strings.LastIndex(body, ",")+1:], '>') < 0 {
				continue // a bare URI: not clear what it belongs to
			}
			if k.Name == "Reason" && strings.ContainsAny(p, "zy") {
				continue // blanks are taken for commas
			}
			return k.Name, "parameter " + p, name + colon + body + p
		case 4:
			if freeText[k.Name] || blankLists[k.Name] && strings.HasPrefix(k.Name, "Accept") || k.Name == "Reason" || badGroup[k.Name] == "auth" || k.Name == "Authentication-Info" {
				continue
			}
			return k.Name, "comma", name + colon + body + g.Pick(",", " ,", ", ", ",,")
		case 5:
			if !k.List || k.NoComma || badGroup[k.Name] == "address" {
				continue
			}
			return k.Name, "first comma", name + colon + "," + body
		}
	}
}

func init() {
	hs := map[string]mon.Handler{}
	hs["line"] = func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		kind, how, line := badLine(g)
		var h header.Header
		var err error
		way := "CreateParser"
		if !c.Guard("parsing a malformed line", func() {
			if g.P(2) {
				h, err = parseLine(line)
			} else {
				way = "ParseSIPHeader"
				h, err = parser.NewStringMsgParser().ParseSIPHeader(line)
			}
		}) {
			return
		}
		if err == nil || h != nil {
			c.Failf("accepted:"+kind, "%s takes a malformed line (%s): %s\n%q", way, how, sumHeader(h, err), line)
			return
		}
		c.Count("kind "+kind, 1)
		c.Count("edit "+strings.SplitN(how, " ", 2)[0], 1)
		c.Key(line)
		if c.WantSample() {
			c.Sample("%s: %q", how, line)
		}
	}
	var names []string
	for _, k := range gen.Kinds {
		if !freeText[k.Name] || k.Name == "Call-ID" {
			names = append(names, "kind "+k.Name)
		}
	}
	mon.Register(&mon.Prop{
		ID:       "S38",
		Quick:    8,
		Rule:     "a case is one header line that no reading of its grammar allows, written from a template of a malformed value or by damaging a well-formed line (text after the end, a quote or bracket left open, a malformed parameter, a comma without a value), and given to the parser the message parser chooses or to ParseSIPHeader; it counts when it was rejected with an error and without a header; distinct cases are distinct lines",
		Handlers: hs,
		Plan: func(p *mon.Plan) {
			p.Seeds("line", p.N(300000, 12000000))
		},
		MinEvents: append(names, "edit template", "edit element", "edit trailing", "edit open", "edit parameter", "edit comma", "edit first"),
	})
}
