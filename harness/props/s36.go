package props

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/parser"
)

// The rules of RFC 3261 section 25, as regular expressions over bytes.
const (
	reAlnum  = `[A-Za-z0-9]`
	reMark   = `[-_.!~*'()]`
	reUnres  = `[A-Za-z0-9\-_.!~*'()]`
	reEsc    = `%[0-9A-Fa-f]{2}`
	reRes    = `[;/?:@&=+$,]`
	reToken  = "[A-Za-z0-9\\-.!%*_+`'~]"
	reV6     = `\[[0-9A-Fa-f:.\[]*\]`
	reQuoted = `"(?:[^"\\]|(?s:\\.))*"`
)

// A urlRule is a parsing method and the text it takes at a position: the
// match of re there (nil is an error, or nothing if empty is set).
type urlRule struct {
	name  string
	re    *regexp.Regexp
	call  func(p *parser.URLParser) (string, error)
	value func(m []string) string // of the match and its groups (the match if nil)
	empty bool
}

func noError(f func(*parser.URLParser) string) func(*parser.URLParser) (string, error) {
	return func(p *parser.URLParser) (string, error) { return f(p), nil }
}

func nvText(nv *core.NameValue, err error) (string, error) {
	if err != nil || nv == nil {
		return "", err
	}
	v := nv.GetValue()
	if v == nil {
		v = ""
	}
	return fmt.Sprintf("%s|%v", nv.GetName(), v), nil
}

func nvModel(m []string) string { return m[1] + "|" + m[2] }

func urlRules() []urlRule {
	type up = parser.URLParser
	r := func(s string) *regexp.Regexp { return regexp.MustCompile(`\A(?:` + s + `)`) }
	pchar := `(?:[\[\]/:&+$]|` + reUnres + `|` + reEsc + `)*`
	hchar := `(?:[\[\]/?:+$"]|` + reUnres + `|` + reEsc + `)*`
	host := func(p *up) *core.HostNameParser { return core.NewHostNameParserFromLexer(p.GetLexer()) }
	return []urlRule{
		{name: "Unreserved", re: r(reUnres), call: (*up).Unreserved},
		{name: "Reserved", re: r(reRes), call: (*up).Reserved},
		{name: "Mark", re: r(reMark), call: (*up).Mark},
		{name: "Escaped", re: r(reEsc), call: (*up).Escaped},
		{name: "Uric", re: r(reUnres + `|` + reRes + `|` + reEsc), call: noError((*up).Uric), empty: true},
		{name: "UricNoSlash", re: r(reUnres + `|[;?:@&=+$,]|` + reEsc), call: noError((*up).UricNoSlash), empty: true},
		{name: "UricString", re: r(`(?:` + reUnres + `|` + reRes + `|` + reEsc + `|` + reV6 + `)*`), call: noError((*up).UricString), empty: true},
		{name: "ParamNameOrValue", re: r(pchar), call: (*up).ParamNameOrValue},
		{name: "UriParam", re: r(`(` + strings.TrimSuffix(pchar, "*") + `+)=(` + pchar + `)|()()`), call: func(p *up) (string, error) {
			nv, err := p.UriParam()
			if err == nil && nv.GetName() == "" {
				return "", fmt.Errorf("none")
			}
			return nvText(nv, err)
		}},
		{name: "Hvalue", re: r(hchar), call: (*up).Hvalue},
		{name: "Qheader", re: r(`(` + strings.TrimSuffix(hchar, "*") + `+)=(` + hchar + `)`), call: func(p *up) (string, error) { return nvText(p.Qheader()) }, value: nvModel},
		{name: "UrlString", re: r(`[^ \t\n<>]*`), call: (*up).UrlString},
		{name: "User", re: r(`(?:` + reUnres + `|[&=+$,;?/]|` + reEsc + `)*`), call: (*up).User},
		{name: "Password", re: r(`(?:` + reUnres + `|[&=+$,]|` + reEsc + `)*`), call: (*up).Password},
		{name: "Base_phone_number", re: r(`[0-9\-.()]+|\z`), call: (*up).Base_phone_number},
		{name: "Local_number", re: r(`[0-9*#\-.()]+|\z`), call: (*up).Local_number},
		{name: "SipVersion", re: r(`SIP/2\.0`), call: func(p *up) (string, error) {
			p.GetLexer().SelectLexer("method_keywordLexer")
			return p.SipVersion()
		}},
		{name: "Method", re: r(reToken + `+`), call: (*up).Method},
		{name: "NameValue", re: r(`(` + reToken + `+)[ \t]*=[ \t]*(` + reQuoted + `|` + reToken + `*)|(` + reToken + `+)[ \t]*`), call: func(p *up) (string, error) {
			nv, err := p.NameValue('=')
			s, err := nvText(nv, err)
			if err == nil && strings.HasPrefix(nv.String(), nv.GetName()+`="`) {
				s += "|quoted"
			}
			return s, err
		},
			value: func(m []string) string {
				if m[1] == "" {
					return m[3] + "|"
				}
				if strings.HasPrefix(m[2], `"`) {
					return m[1] + "|" + m[2][1:len(m[2])-1] + "|quoted"
				}
				return nvModel(m)
			}},
		{name: "DomainLabel", re: r(`[A-Za-z0-9\-]*`), call: func(p *up) (string, error) { return host(p).DomainLabel() }},
		{name: "Ipv6Reference", re: r(`[0-9A-Fa-f:.\[]*\]`), call: func(p *up) (string, error) { return host(p).Ipv6Reference() }},
		{name: "GetHost", re: r(reV6 + `|[A-Za-z0-9\-.]+`), call: func(p *up) (string, error) {
			h, err := host(p).GetHost()
			if err != nil {
				return "", err
			}
			return h.GetHostName(), nil
		}},
	}
}

func init() {
	rules := urlRules()
	chars := func(name string, f func(p *parser.URLParser, b byte) bool, set string) func(c *mon.C) {
		re := regexp.MustCompile(`\A(?:` + set + `)\z`)
		return func(c *mon.C) {
			p := parser.NewURLParser("x")
			for b := 0; b < 256; b++ {
				want := b < 128 && re.MatchString(string([]byte{byte(b)}))
				if got := f(p, byte(b)); got != want {
					c.Failf("class "+name, "%s(%q) is %v, expected %v", name, string([]byte{byte(b)}), got, want)
				}
				c.Key(name + strconv.Itoa(b))
			}
			c.Count("bytes classified", 256)
		}
	}
	classes := []func(*mon.C){
		chars("IsMark", (*parser.URLParser).IsMark, reMark),
		chars("IsUnreserved", (*parser.URLParser).IsUnreserved, reUnres),
		chars("IsReserved", (*parser.URLParser).IsReserved, reRes),
		chars("IsReservedNoSlash", (*parser.URLParser).IsReservedNoSlash, `[;?:@&=+$,]`),
		chars("IsUserUnreserved", (*parser.URLParser).IsUserUnreserved, `[&=+$,;?/]`),
	}
	esc := regexp.MustCompile(`\A` + reEsc)
	urlText := func(g *gen.G) string {
		var b strings.Builder
		for k := 1 + g.N(10); k > 0; k-- {
			switch g.N(10) {
			case 0, 1:
				b.WriteString(g.Chars("abzAZ09-_.!~*'();/?:@&=+$,%[]", 1+g.N(8)))
			case 2:
				b.WriteString("%" + g.Chars("0123456789ABCDEFabcdefgG %", 2))
			case 3:
				b.WriteString(g.Pick("%", "%4", " ", "\t", "<", ">", "\n", `"`, `"a b"`, `"\"`, `"\""`, "é", "\x00", "|", "^", "\\", "`", "#", "{"))
			case 4:
				h, _ := g.Host()
				b.WriteString(h)
			case 5:
				b.WriteString(g.URI(gen.URIOpt{}).Text())
			case 6:
				b.WriteString(g.Token() + g.Pick("=", " = ", "", "==") + g.Pick(g.Token(), `"`+g.QText(0)+`"`, ""))
			case 7:
				b.WriteString(g.Pick("SIP/2.0", "SIP/2.0", "sip/2.0", "SIP/2.00", "SIP/", "SIP /2.0", "2.0"))
			case 8:
				b.WriteString(g.Chars("0123456789-.()*#+", 1+g.N(9)))
			default:
				b.WriteString(g.Word())
			}
		}
		return b.String()
	}
	walk := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		text := urlText(g)
		var p *parser.URLParser
		if g.P(2) {
			p = parser.NewURLParser(text)
		} else {
			p = parser.NewURLParserFromLexer(parser.NewSIPLexer("charLexer", text))
		}
		lx := p.GetLexer()
		at := 0
		var how []string
		for k := 0; k < 30; k++ {
			if lx.GetPtr() != at {
				c.Failf("position", "at %d, expected %d, of %q after %s", lx.GetPtr(), at, text, strings.Join(how, ", "))
				return
			}
			rest := text[at:]
			switch g.N(24) {
			case 0:
				if got, want := p.IsEscaped(), esc.MatchString(rest); got != want {
					c.Failf("IsEscaped", "%v at %d of %q", got, at, text)
					return
				}
				c.Count("IsEscaped", 1)
				continue
			case 1:
				if rest != "" && rest[0] < 128 {
					want := regexp.MustCompile(`\A` + reToken + `*`).FindString(rest)
					if want == "" {
						want = rest[:1]
					}
					if got, err := p.PeekScheme(); got != want || err != nil {
						c.Failf("PeekScheme", "%q %v at %d of %q", got, err, at, text)
						return
					}
					c.Count("PeekScheme", 1)
				}
				continue
			case 2: // go anywhere
				at = g.N(len(text) + 1)
				lx.RewindInputPosition(at)
				continue
			}
			r := &rules[g.N(len(rules))]
			m := r.re.FindStringSubmatch(rest)
			want, ok, n := "", m != nil, 0
			if ok {
				want, n = m[0], len(m[0])
				if r.value != nil {
					want = r.value(m)
				}
			} else if r.empty {
				ok = true
			}
			switch r.name {
			case "UriParam":
				pm := regexp.MustCompile(`\A(?:[\[\]/:&+$]|` + reUnres + `|` + reEsc + `)*`)
				name := pm.FindString(rest)
				n = len(name)
				want, ok = name+"|", name != ""
				if strings.HasPrefix(rest[n:], "=") {
					v := pm.FindString(rest[n+1:])
					n += 1 + len(v)
					want = name + "|" + v
				}
			case "Hvalue": // a stray '%' is an error
				ok = ok && !strings.HasPrefix(rest[n:], "%")
			case "Qheader":
				ok = ok && !strings.HasPrefix(rest[n:], "%")
			case "SipVersion": // the version is a whole token
				ok = ok && !regexp.MustCompile(`\A`+reToken).MatchString(rest[n:])
			case "NameValue": // an unterminated quote is an error
				if q := regexp.MustCompile(`\A` + reToken + `+[ \t]*=[ \t]*"`).FindString(rest); q != "" && !strings.HasSuffix(want, "|quoted") {
					ok = false
				}
			}
			got, err := "", error(nil)
			if !c.Guard(r.name, func() { got, err = r.call(p) }) {
				return
			}
			how = append(how, r.name)
			if ok != (err == nil) || ok && got != want {
				c.Failf(r.name, "gives %q (error: %v) at %d of %q, expected %q (accepted: %v)\nafter %s", got, err, at, text, want, ok, strings.Join(how, ", "))
				return
			}
			c.Count(r.name, 1)
			c.Key(r.name + "|" + rest)
			if !ok {
				c.Count("refusals", 1)
				lx.RewindInputPosition(at)
				continue
			}
			at += n
		}
		c.Count("texts walked", 1)
		if c.WantSample() {
			c.Sample("%q: %s", text, strings.Join(how, ", "))
		}
	}
	var min []string
	for _, r := range rules {
		min = append(min, r.name)
	}
	mon.Register(&mon.Prop{
		ID:    "S36",
		Quick: 3,
		Rule:  "a case is a generated text and up to 30 calls of the methods that parse one rule of the URL, host or parameter grammar, at the position reached so far or any other, each compared in value, acceptance and new position with the rule written as a regular expression; or the classification of all 256 bytes; distinct by rule and remaining text",
		Handlers: map[string]mon.Handler{"walk": walk, "classes": func(c *mon.C, data []byte) {
			for _, f := range classes {
				f(c)
			}
		}},
		Plan: func(p *mon.Plan) {
			p.Case("classes", []byte{0})
			p.Seeds("walk", p.N(300000, 10000000))
		},
		MinEvents: append(min, "texts walked", "bytes classified", "IsEscaped", "PeekScheme", "refusals"),
	})
}
