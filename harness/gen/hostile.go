package gen

import (
	"strings"
)

var specials = []string{" ", "\t", "\r", "\n", "\r\n", "\n ", "\r\n\t", ":", ";", ",", "=", "<", ">", "\"", "\\", "(", ")", "@", "?", "&", "/", "[", "]", "{", "}", "%", "%zz", "%0", "*", "+", "-", "#", "'", "`", "~", "!", "|", "^", "$",
	"\x00", "\x01", "\x7f", "\x80", "\xff", "\xc3", "\xc3\xa9", "\xe6\x97", "日本", "\u2028", "\ufeff",
	"SIP/2.0", "sip:", "sips:", "tel:", "<sip:", "sip:@", "sip:a@", "://", "\"\"", "\"\\", "()", "((", "))", "<>", "<<", ";;", ",,", "==", "&&", "?&", "@@", "::", "[::1]", "[", ":5060", ":-1", ":99999999999",
	"0", "-1", "256", "2147483648", "4294967296", "18446744073709551616", "99999999999999999999999", "0x10", "1e9", "1.5", "NaN", "Inf", "-0", "+1", "٣",
	";q=", ";q=2", ";tag", ";tag=", ";expires=", ";lr", ";=", ";=x", "=x", ", ", "\n\n", "\r\n\r\n", "Content-Length: 5\r\n", "\r\nl: 9\r\n", "Contact: *", "Digest", "Digest ", "GMT", "Mon,"}

// Mutate damages well-formed material.
func (g *G) Mutate(b []byte) []byte {
	b = append([]byte(nil), b...)
	n := 1
	switch g.N(4) {
	case 0:
		n = 1 + g.N(3)
	case 1:
		if g.P(4) {
			n = 4 + g.N(20)
		}
	}
	for ; n > 0; n-- {
		i := g.N(len(b) + 1)
		ins := func(s string) { b = append(b[:i:i], append([]byte(s), b[i:]...)...) }
		j := i
		if i < len(b) {
			j = i + 1 + g.N(min(len(b)-i, 12))
		}
		switch g.N(12) {
		case 0: // truncate
			b = b[:i]
		case 1: // delete
			b = append(b[:i:i], b[j:]...)
		case 2: // duplicate a piece
			ins(string(b[i:j]))
		case 3, 4, 5:
			ins(specials[g.N(len(specials))])
		case 6: // replace a piece
			b = append(b[:i:i], append([]byte(specials[g.N(len(specials))]), b[j:]...)...)
		case 7: // any byte
			if i < len(b) {
				b[i] = byte(g.N(256))
			}
		case 8: // flip a bit
			if i < len(b) {
				b[i] ^= 1 << g.N(8)
			}
		case 9: // repeat
			k := 1 + g.N(6)
			if g.P(10) {
				k = 200 + g.N(2000)
			}
			ins(strings.Repeat(specials[g.N(len(specials))], k))
		case 10: // move a piece
			p := string(b[i:j])
			b = append(b[:i:i], b[j:]...)
			i = g.N(len(b) + 1)
			ins(p)
		case 11: // drop from some delimiter on
			if k := strings.IndexAny(string(b), g.Pick(";", ",", "=", "<", ">", "\"", ":", "@", "(", ")", " ", "\n", "?")); k >= 0 {
				if g.P(2) {
					b = b[:k+g.N(2)]
				} else {
					b = append(b[:k:k], b[k+1:]...)
				}
			}
		}
	}
	return b
}

// Noise is text without any structure.
func (g *G) Noise(max int) []byte {
	var b []byte
	switch g.N(3) {
	case 0:
		b = make([]byte, g.N(max))
		for i := range b {
			b[i] = byte(g.N(256))
		}
	case 1:
		for n := g.N(20); n > 0; n-- {
			b = append(b, specials[g.N(len(specials))]...)
		}
	case 2:
		for n := g.N(12); n > 0; n-- {
			b = append(b, g.Pick(specials[g.N(len(specials))], g.Word(), g.Token())...)
		}
	}
	return b
}

// AnyLine is a well-formed line of any kind.
func (g *G) AnyLine(max int) *Line {
	if g.P(12) {
		return g.Line(ExtKind(g.ExtName()), 1)
	}
	return g.Line(Kinds[g.N(len(Kinds))], max)
}

// Hostile is a damaged or unstructured message.
func (g *G) Hostile() []byte {
	switch g.N(10) {
	case 0:
		return g.Noise(400)
	case 1: // a message with noise in one place
		m := g.Msg(MsgOpt{Extra: 3})
		w := string(m.Wire())
		i := g.N(len(w))
		return []byte(w[:i] + string(g.Noise(60)) + w[i:])
	case 2: // header lines with damaged values
		m := g.Msg(MsgOpt{Extra: 2, NoBody: true})
		var b strings.Builder
		b.WriteString(m.Start() + "\r\n")
		for _, l := range m.Lines {
			b.WriteString(l.Plain() + "\r\n")
		}
		for n := 1 + g.N(3); n > 0; n-- {
			b.WriteString(string(g.HostileLine()) + "\r\n")
		}
		b.WriteString("\r\n")
		return []byte(b.String())
	case 3: // two messages spliced
		a, z := g.Msg(MsgOpt{Extra: 3}).Wire(), g.Msg(MsgOpt{Extra: 3}).Wire()
		return append(append([]byte(nil), a[:g.N(len(a))]...), z[g.N(len(z)):]...)
	case 4: // damaged start line
		m := g.Msg(MsgOpt{Extra: 1})
		w := m.Wire()
		s := m.Start()
		return append(g.Mutate([]byte(s)), w[len(s):]...)
	}
	m := g.Msg(MsgOpt{Extra: 5, Repeat: g.P(2)})
	w := m.Wire()
	if g.P(3) {
		w = m.Spelled(g, g.Pick("\r\n", "\n"))
	}
	return g.Mutate(w)
}

// HostileLine is a header line with a damaged or arbitrary value.
func (g *G) HostileLine() []byte {
	l := g.AnyLine(3)
	switch g.N(6) {
	case 0:
		return append([]byte(g.NameSpelling(l.K)+g.Pick(":", ": ", " : ", "")), g.Noise(80)...)
	case 1: // the value of another kind
		return []byte(l.K.Name + ": " + Plain(g.AnyLine(2).BodyT()))
	case 2: // nothing, or only separators
		return []byte(g.NameSpelling(l.K) + ":" + strings.Repeat(g.Pick("", " ", ",", ";", "\"", "<", "=", "(", "/", "@", "*", "\\"), g.N(4)))
	case 3:
		return g.Mutate([]byte(Spell(l.T(g.NameSpelling(l.K)), g, false)))
	}
	v := g.Mutate([]byte(Plain(l.BodyT())))
	return append([]byte(l.K.Name+": "), v...)
}
