// Package gen makes well-formed SIP material together with a model of what it
// says: every value carries the text to put on the wire, the text the library
// is expected to encode, what its accessors should report, and a function that
// builds the same value through the library's constructors and setters.
package gen

import (
	"fmt"
	"math/rand/v2"
	"strings"
)

// Markers in wire templates for the places where the grammar allows white space.
const (
	O = "\x01" // optional white space, none in the plain spelling
	S = "\x02" // required white space, one space in the plain spelling
	D = "\x03" // optional white space, one space in the plain spelling
)

// Plain renders a template in its plain spelling.
func Plain(t string) string {
	t = strings.ReplaceAll(t, O, "")
	t = strings.ReplaceAll(t, D, " ")
	return strings.ReplaceAll(t, S, " ")
}

// Spell renders a template with random amounts of white space. With fold,
// white space may also be a folded line (the line break and, after it, at
// least two blanks: this parser drops exactly one of them when it joins the
// lines, so that the rest still separates what the fold separates).
func Spell(t string, g *G, fold bool) string {
	var b strings.Builder
	ws := func(min int) {
		if fold && g.P(6) {
			b.WriteString(strings.Repeat(" ", g.N(3)))
			b.WriteString("\r\n")
			n := 2 + g.N(3)
			for i := 0; i < n; i++ {
				b.WriteByte(" \t"[g.N(2)])
			}
			return
		}
		n := min + g.N(3)
		if g.P(30) { // many
			n += g.N(80)
		}
		for ; n > 0; n-- {
			b.WriteByte(" \t"[g.N(2)])
		}
	}
	for i := 0; i < len(t); i++ {
		switch t[i] {
		case O[0]:
			if g.P(3) {
				ws(0)
			}
		case D[0]:
			if g.P(3) {
				ws(0)
			} else {
				b.WriteByte(' ')
			}
		case S[0]:
			ws(1)
		default:
			b.WriteByte(t[i])
		}
	}
	return b.String()
}

// G is a source of random material.
type G struct{ R *rand.Rand }

func New(r *rand.Rand) *G { return &G{r} }

// N returns a number in [0,n).
func (g *G) N(n int) int {
	if n <= 0 {
		return 0
	}
	return g.R.IntN(n)
}

// P is true once in n times.
func (g *G) P(n int) bool { return g.R.IntN(n) == 0 }

func (g *G) Pick(s ...string) string { return s[g.N(len(s))] }

const (
	lower    = "abcdefghijklmnopqrstuvwxyz"
	upper    = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	digits   = "0123456789"
	alpha    = lower + upper
	alnum    = alpha + digits
	tokChars = alnum + "-.!%*_+`'~"
	hexd     = "0123456789abcdef"
	// characters allowed unescaped everywhere in a SIP URI
	unresv = alnum + "-_.!~*'()"
)

// Len makes mostly short and sometimes long lengths.
func (g *G) Len(min int) int {
	switch g.N(12) {
	case 0:
		return min
	case 1:
		return min + 8 + g.N(60)
	case 2:
		if g.P(8) {
			return min + 200 + g.N(400)
		}
	}
	return min + g.N(8)
}

// Few is a number below n, now and then a good many more.
func (g *G) Few(n int) int {
	if g.P(100) {
		return n + g.N(24)
	}
	return g.N(n)
}

func (g *G) Chars(set string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = set[g.N(len(set))]
	}
	return string(b)
}

// Word is a plain alphanumeric word.
func (g *G) Word() string { return g.Chars(alpha, 1) + g.Chars(alnum, g.N(7)) }

// Token is any token of the grammar; mostly words, sometimes the full alphabet.
func (g *G) Token() string {
	if g.P(24) { // equal ones, and ones that differ in letter case
		return g.Pick("a", "A", "en", "EN", "b")
	}
	if g.P(16) { // words that mean something somewhere
		return g.Pick(words...)
	}
	if g.P(3) {
		return g.Chars(tokChars, g.Len(1))
	}
	return g.Word()
}

var words = strings.Fields("UDP TCP TLS SCTP WS WSS udp tls SIP sip SIPS tel HTTP 2.0 1.0 INVITE ACK BYE CANCEL REGISTER Digest Basic MD5 MD5-sess SHA-256 auth auth-int true false session render gzip identity compress deflate application sdp text plain multipart message active pending terminated presence refer 100rel timer replaces path gruu none null nil 0 1 -1 70 200 5060 3600 localhost z9hG4bK branch tag")

// knownNames are parameter names that mean something in some place.
var knownNames = strings.Fields("transport user method postdial postd context-tag phone-context isub provider-tag password signed-by signature pubkey cookie version card info action proxy redirect render session icon alert required optional emergency urgent normal non-urgent hidden comp alias keep ob lr gr pub-gruu sip phone ip digest host port header scheme name value comment address display auth sigcomp-id level to from via contact route")

// Name is a parameter name (a token starting with a letter).
func (g *G) Name() string {
	if g.P(6) {
		return g.Pick(knownNames...)
	}
	if g.P(4) {
		return g.Chars(lower, 1) + g.Chars(alnum+"-_.", g.N(6))
	}
	return g.Chars(lower, 2+g.N(6))
}

// QText is legal content of a quoted string as written between the quotes.
func (g *G) QText(min int) string {
	if g.P(4) {
		return strings.TrimSpace(g.Word() + " " + g.Word())
	}
	var b strings.Builder
	n := g.Len(min)
	for i := 0; i < n; i++ {
		switch g.N(10) {
		case 0:
			b.WriteString(g.Pick(`\"`, `\\`, `\a`, `\(`, `\<`))
		case 1:
			b.WriteString(g.Pick(",", ";", "<", ">", "=", ":", "@", "/", "(", ")", "?", "&", "[", "]", "{", "|"))
		case 2:
			b.WriteString(g.Pick(" ", " ", "  ", "\t"))
		case 3:
			b.WriteString(g.Pick("é", "ß", "日本", "Ω"))
		default:
			b.WriteByte(tokChars[g.N(len(tokChars))])
		}
	}
	return b.String()
}

// Text is free text for subject-like headers, without leading or trailing blanks.
func (g *G) Text() string {
	var b strings.Builder
	n := 1 + g.N(6)
	if g.P(24) {
		return g.Pick("0", "100", "200", "404", "SIP/2.0", "a", "OK", "*", "-1")
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(g.Pick(" ", " ", ", ", "; ", ": ", "  "))
		}
		switch g.N(6) {
		case 0:
			b.WriteString(g.Pick("é", "日本", "\"q\"", "<x>", "(c)", "a=b", "100%", "1/2", "@", "[x]", "\\"))
		default:
			b.WriteString(g.Token())
		}
	}
	return b.String()
}

func (g *G) HexN(n int) string { return g.Chars(hexd, n) }

// Int is an integer in [lo,hi], with the ends and small values favoured.
func (g *G) Int(lo, hi int) int {
	switch g.N(8) {
	case 0:
		return lo
	case 1:
		return hi
	case 2:
		if hi-lo > 2 {
			return lo + 1
		}
	case 3:
		if hi-lo > 2 {
			return hi - 1
		}
	case 4, 5:
		if hi-lo > 5000 {
			return lo + g.N(5000)
		}
	case 6: // around a power of two or of ten
		p := 1 << uint(g.N(33))
		if g.P(3) {
			p = 1
			for k := g.N(10); k > 0; k-- {
				p *= 10
			}
		}
		if n := p - 1 + g.N(3); n >= lo && n <= hi {
			return n
		}
	}
	return lo + int(g.R.Int64N(int64(hi)-int64(lo)+1))
}

const (
	MaxInt31 = 1<<31 - 1
	MaxInt32 = 1<<32 - 1 // delta-seconds and response numbers
)

// QVal is a quality value on the wire ("0", "1.0", "0.725").
func (g *G) QVal() string {
	switch g.N(6) {
	case 0:
		return g.Pick("0", "1", "0.0", "1.0", "1.000")
	case 1:
		return "0." + g.Chars(digits, 3)
	case 2:
		if g.P(3) { // more digits than needed
			return "0." + g.Pick("0000", "00000") + g.Chars(digits, 1+g.N(2))
		}
	}
	return "0." + g.Chars(digits, 1+g.N(2))
}

// Label is a host name label.
func (g *G) Label() string {
	s := g.Chars(lower, 1)
	if g.P(6) {
		s = g.Chars(alpha, 1)
	}
	if g.P(3) {
		s += g.Chars(lower+digits+"-", g.N(6)) + g.Chars(lower+digits, 1)
	} else {
		s += g.Chars(lower, g.N(6))
	}
	return s
}

const (
	HostName = iota
	HostV4
	HostV6
)

// Host makes a host as written in a URI, and its class.
func (g *G) Host() (string, int) {
	switch g.N(6) {
	case 0:
		return fmt.Sprintf("%d.%d.%d.%d", g.Int(0, 255), g.Int(0, 255), g.Int(0, 255), g.Int(0, 255)), HostV4
	case 1:
		return "[" + g.V6() + "]", HostV6
	}
	n := 1 + g.N(4)
	l := make([]string, n)
	for i := range l {
		l[i] = g.Label()
	}
	s := strings.Join(l, ".")
	if g.P(12) {
		s += "."
	}
	return s, HostName
}

// V6 makes an IPv6 address without brackets.
func (g *G) V6() string {
	grp := func(n int) string {
		p := make([]string, n)
		for i := range p {
			p[i] = fmt.Sprintf("%x", g.N(0x10000))
		}
		return strings.Join(p, ":")
	}
	switch g.N(6) {
	case 0:
		return "::1"
	case 1:
		return "::"
	case 2:
		return grp(8)
	case 3:
		return strings.ToUpper("fe80::" + grp(1+g.N(4)))
	case 4:
		return "::ffff:" + fmt.Sprintf("%d.%d.%d.%d", g.N(256), g.N(256), g.N(256), g.N(256))
	}
	a := 1 + g.N(3)
	return grp(a) + "::" + grp(1+g.N(6-a))
}

// Port is -1 (absent) or a port number.
func (g *G) Port() int {
	switch g.N(4) {
	case 0, 1:
		return -1
	case 2:
		return 5060 + g.N(2)
	}
	return g.Int(1, 65535)
}

func (g *G) HostPort() string {
	h, _ := g.Host()
	if p := g.Port(); p >= 0 {
		return fmt.Sprintf("%s:%d", h, p)
	}
	return h
}

// CallID is a call identifier: word or word@word.
func (g *G) CallID() string {
	switch g.N(5) {
	case 0:
		return g.Token()
	case 1:
		return g.Chars(tokChars, 1+g.N(30)) + "@" + g.Chars(tokChars, 1+g.N(20))
	case 2:
		return g.Chars(tokChars+"()<>:\\\"/[]?{}", 1+g.N(12)) + "@" + g.Word()
	}
	h, _ := g.Host()
	return g.HexN(8+g.N(24)) + "@" + strings.Trim(h, "[]")
}

var Methods = []string{"INVITE", "ACK", "BYE", "CANCEL", "OPTIONS", "REGISTER", "NOTIFY", "SUBSCRIBE", "MESSAGE", "REFER", "INFO", "PRACK", "UPDATE", "PUBLISH"}

// Method is a known or an extension method (upper case).
func (g *G) Method() string {
	if g.P(40) { // words that mean something elsewhere
		return g.Pick("SIP", "TEL", "SIPS", "VIA", "K", "DATE", "Q", "UDP", "TCP", "CSEQ", "REASON", "LR", "TAG")
	}
	if g.P(5) {
		m := g.Chars(upper, 1) + g.Chars(upper+digits+"-.!%*_+`'~", g.N(8))
		return m
	}
	return Methods[g.N(len(Methods))]
}
