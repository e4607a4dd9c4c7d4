package props

import (
	"fmt"
	"strconv"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/parser"
)

// lexModel is the reference: a text and a position in it.
type lexModel struct {
	s     string
	p     int
	saved int
	kw    map[string]map[string]int
	cur   string
	names map[int]string
}

const idChars = "-.!%*_+`'~"

func alphaC(b byte) bool { return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' }
func digitC(b byte) bool { return b >= '0' && b <= '9' }
func idC(b byte) bool    { return alphaC(b) || digitC(b) || strings.IndexByte(idChars, b) >= 0 }

func (m *lexModel) rest() string {
	if m.p >= len(m.s) {
		return ""
	}
	return m.s[m.p:]
}

// span is the longest prefix of the rest whose bytes satisfy f.
func (m *lexModel) span(f func(byte) bool) string {
	r := m.rest()
	i := 0
	for i < len(r) && f(r[i]) {
		i++
	}
	return r[:i]
}

func (m *lexModel) take(s string) string { m.p += len(s); return s }

// between is the text from an opening character to the closing one; escaped
// characters do not close and are kept with their backslash.
func (m *lexModel) between(open, close byte) (string, int) {
	r := m.rest()
	if r == "" || r[0] != open {
		return "", -1
	}
	depth := 1
	for i := 1; i < len(r); i++ {
		switch {
		case r[i] == '\\':
			i++
		case r[i] == close:
			if depth--; depth == 0 {
				return r[1:i], i + 1
			}
		case r[i] == open:
			depth++
		}
	}
	return "", -1
}

func lexText(g *gen.G) string {
	var b strings.Builder
	for k := 1 + g.N(14); k > 0; k-- {
		if g.P(100) { // the same again and again
			b.WriteString(strings.Repeat(g.Pick(" ", "\t", "0", "1", "a", "\n", "(", "%", "\\", ".", "a b\n", ";x"), g.N(300)))
		}
		switch g.N(9) {
		case 0, 1:
			b.WriteString(g.Token())
		case 2:
			b.WriteString(g.Pick(" ", "\t", "  ", " \t ", "\n", "\r\n"))
		case 3:
			b.WriteString(`"` + g.QText(0) + g.Pick(`"`, `"`, `"`, ``))
		case 4:
			b.WriteString("(" + strings.NewReplacer("(", "", ")", "").Replace(g.Text()) + g.Pick("", "", "(a)", "((b) c)", "\\(", "(") + g.Pick(")", ")", "\\))", ""))
		case 5:
			b.WriteString(strconv.Itoa(g.Int(0, 1<<31-1)))
		case 6:
			b.WriteString(g.Pick("=", ";", ",", ":", "/", "<", ">", "@", "?", "&", "\\", "[", "]", "\x00", "\xff", "é", "{", "|", "^", "#", "$", "~", "`", "'", "*", "%"))
		case 7:
			b.Write(g.Noise(6))
		case 8:
			b.WriteString(g.Pick("INVITE", "invite", "sip", "SIP", "Via", "tel", "X", "Ack"))
		}
	}
	return b.String()
}

func init() {
	walk := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		text := lexText(g)
		m := &lexModel{s: text, kw: map[string]map[string]int{}, names: map[int]string{}}
		var l core.Lexer
		if g.P(2) {
			l = core.NewCoreLexer("charLexer", text)
		} else {
			// the tables of the SIP lexer are compared elsewhere: all its
			// keywords are ids
			l = parser.NewSIPLexer("charLexer", text)
		}
		how := []string{fmt.Sprintf("lexer over %q", text)}
		for i, n := 0, g.N(3); i < n; i++ {
			t := fmt.Sprintf("own%d", i)
			l.AddLexer(t)
			m.kw[t] = map[string]int{}
			for k := g.N(4); k >= 0; k-- {
				w := strings.ToUpper(g.Pick("INVITE", "SIP", "VIA", "TEL", "X", "ACK", g.Token()))
				v := core.CORELEXER_START + 500 + g.N(6)
				l.AddKeyword(w, v)
				m.kw[t][w] = v
				if m.names[v] == "" {
					m.names[v] = w
				}
				how = append(how, fmt.Sprintf("keyword %s=%d in %s", w, v, t))
			}
			m.cur = t
		}
		typ := func(id string) int {
			if v, ok := m.kw[m.cur][strings.ToUpper(id)]; ok {
				return v
			}
			return core.CORELEXER_ID
		}
		tokens := func(n int) (out []string, ok bool) { // as PeekNextTokenK shows them, and the position after
			old := m.p
			defer func() { m.saved = m.p; m.p = old }()
			for i := 0; i < n; i++ {
				if m.rest() == "" {
					return out, false
				}
				ch := m.rest()[0]
				if idC(ch) {
					id := m.take(m.span(idC))
					out = append(out, fmt.Sprintf("%q %d", id, typ(id)))
					continue
				}
				m.p++
				out = append(out, fmt.Sprintf("%q %d", string(rune(ch)), int(ch)))
			}
			return out, true
		}
		fail := func(op string, got, want interface{}) {
			c.Failf("lexer:"+firstWord(op), "%s gives %v, expected %v\nat %d of %q\nafter %s", op, got, want, m.p, text, strings.Join(how, "; "))
		}
		eq := func(op string, got, want interface{}) {
			if !c.Failed() && fmt.Sprint(got) != fmt.Sprint(want) {
				fail(op, fmt.Sprintf("%#v", got), fmt.Sprintf("%#v", want))
			}
			how = append(how, op)
			c.Count(firstWord(op), 1)
		}
		tok := func(t *core.Token, err error) string {
			if err != nil || t == nil {
				return "error"
			}
			return fmt.Sprintf("%q %d", t.GetTokenValue(), t.GetTokenType())
		}
		// an operation that fails may leave the position anywhere: go back
		back := func() { l.RewindInputPosition(m.p) }
		marks := []int{0}
		lexOps := 31
		for k := 0; k < 40 && !c.Failed(); k++ {
			r := m.rest()
			switch op := g.N(lexOps); op {
			case 0:
				eq("HasMoreChars", l.HasMoreChars(), r != "")
			case 1:
				j := g.N(4)
				ch, err := l.LookAheadK(j)
				if j == 0 && g.P(2) {
					ch, err = l.LookAhead()
				}
				w := "error"
				if j < len(r) {
					w = fmt.Sprint(r[j])
				}
				got := fmt.Sprint(ch)
				if err != nil {
					got = "error"
				}
				eq(fmt.Sprintf("LookAheadK %d", j), got, w)
			case 2:
				if r != "" {
					j := 1 + g.N(min(len(r), 3))
					l.ConsumeK(j)
					m.p += j
					eq(fmt.Sprintf("ConsumeK %d", j), l.GetPtr(), m.p)
				}
			case 3:
				if x, ok := l.(interface{ GetNextChar() (byte, error) }); ok {
					ch, err := x.GetNextChar()
					if r == "" {
						eq("GetNextChar", err != nil, true)
					} else {
						eq("GetNextChar", fmt.Sprint(ch, err), fmt.Sprint(r[0], nil))
						m.p++
					}
				}
			case 4:
				w := r
				if i := strings.Index(r, "\n"); i >= 0 {
					w = r[:i+1]
				}
				if g.P(2) {
					eq("PeekLine", l.PeekLine(), w)
					break
				}
				m.p += len(w)
				if x, ok := l.(interface{ NextToken() string }); ok && g.P(2) {
					eq("NextToken", x.NextToken(), w)
				} else {
					eq("GetLine", l.GetLine(), w)
				}
			case 5:
				d := g.Pick(":", ";", "=", "\"", "a", "\n", " ")[0]
				s, err := l.GetNextTokenByDelim(d)
				if i := strings.IndexByte(r, d); i >= 0 {
					eq(fmt.Sprintf("GetNextTokenByDelim %q", d), fmt.Sprintf("%q %v", s, err), fmt.Sprintf("%q %v", r[:i], nil))
					m.p += i
				} else {
					eq(fmt.Sprintf("GetNextTokenByDelim %q", d), err != nil, true)
					back()
				}
			case 6:
				eq("Ttoken", l.Ttoken(), m.take(m.span(idC)))
			case 7:
				eq("GetNextId", l.GetNextId(), m.take(m.span(idC)))
			case 8:
				eq("TtokenAllowSpace", l.TtokenAllowSpace(), m.take(m.span(func(b byte) bool { return idC(b) || b == ' ' || b == '\t' })))
			case 9:
				s := m.span(idC)
				eq("PeekNextId", l.PeekNextId(), s)
				eq("position after PeekNextId", l.GetPtr(), m.p)
				if g.P(2) {
					l.Consume()
					m.p += len(s)
					eq("Consume", l.GetPtr(), m.p)
				}
			case 10, 11:
				n := 1 + g.N(4)
				w, ok := tokens(n)
				ts, err := l.PeekNextTokenK(n)
				if n == 1 && g.P(2) {
					var t *core.Token
					t, err = l.PeekNextToken()
					ts = []*core.Token{t}
				}
				if !ok {
					eq(fmt.Sprintf("PeekNextTokenK %d", n), err != nil, true)
					back()
					break
				}
				var got []string
				for _, t := range ts {
					got = append(got, tok(t, err))
				}
				eq(fmt.Sprintf("PeekNextTokenK %d", n), got, w)
				eq("position after PeekNextTokenK", l.GetPtr(), m.p)
				if g.P(2) {
					l.Consume()
					m.p = m.saved
					eq("Consume", l.GetPtr(), m.p)
				}
			case 12:
				t, err := l.Match(core.CORELEXER_ID)
				if r != "" && idC(r[0]) {
					w := fmt.Sprintf("%q %d", m.take(m.span(idC)), core.CORELEXER_ID)
					eq("Match ID", tok(t, err), w)
					eq("GetNextToken", tok(l.GetNextToken(), nil), w)
				} else {
					eq("Match ID", err != nil, true)
				}
			case 13:
				ty, f := core.CORELEXER_DIGIT, digitC
				if g.P(2) {
					ty, f = core.CORELEXER_ALPHA, alphaC
				}
				t, err := l.Match(ty)
				if r != "" && f(r[0]) {
					eq("Match class", tok(t, err), fmt.Sprintf("%q %d", r[:1], ty))
					m.p++
				} else {
					eq("Match class", err != nil, true)
				}
			case 14, 15:
				ch := g.Pick("=", ";", ",", ":", "/", "<", "\n", "\"", " ", "a", "1")[0]
				if r != "" && g.P(2) {
					ch = r[0]
				}
				if ch >= 0x80 {
					break
				}
				t, err := l.Match(int(ch))
				if r != "" && r[0] == ch {
					eq(fmt.Sprintf("Match %q", ch), tok(t, err), fmt.Sprintf("%q %d", string(rune(ch)), int(ch)))
					m.p++
				} else {
					eq(fmt.Sprintf("Match %q", ch), err != nil, true)
				}
			case 16: // a keyword
				if len(m.names) == 0 {
					break
				}
				v := core.CORELEXER_START + 500 + g.N(6)
				id := m.span(idC)
				if id != "" && typ(id) != core.CORELEXER_ID && g.P(2) {
					v = typ(id)
				}
				t, err := l.Match(v)
				if typ(id) == v {
					eq(fmt.Sprintf("Match keyword %d", v), tok(t, err), fmt.Sprintf("%q %d", m.take(id), v))
				} else {
					eq(fmt.Sprintf("Match keyword %d", v), err != nil, true)
					back()
				}
			case 17:
				s, n := m.between('"', '"')
				got, err := l.QuotedString()
				if n < 0 {
					eq("QuotedString", err != nil, true)
					back()
				} else {
					eq("QuotedString", fmt.Sprintf("%q %v", got, err), fmt.Sprintf("%q %v", s, nil))
					m.p += n
				}
			case 18:
				s, n := m.between('(', ')')
				got, err := l.Comment()
				if n < 0 {
					eq("Comment", err != nil, true)
					back()
				} else {
					eq("Comment", fmt.Sprintf("%q %v", got, err), fmt.Sprintf("%q %v", s, nil))
					m.p += n
				}
			case 19:
				eq("ByteStringNoSemicolon", l.ByteStringNoSemicolon(), m.take(m.span(func(b byte) bool { return b != ';' && b != '\n' })))
			case 20:
				eq("ByteStringNoComma", l.ByteStringNoComma(), m.take(m.span(func(b byte) bool { return b != ',' && b != '\n' })))
			case 21:
				n := g.N(8)
				eq(fmt.Sprintf("NCharAsString %d", n), l.NCharAsString(n), r[:min(n, len(r))])
			case 22:
				s := m.span(digitC)
				n, err := l.Number()
				if w, e := strconv.ParseInt(s, 10, 64); e == nil {
					eq("Number", fmt.Sprint(n, err), fmt.Sprint(w, nil))
					m.p += len(s)
				} else {
					eq("Number", err != nil, true)
					back()
				}
			case 23:
				l.SPorHT()
				m.take(m.span(func(b byte) bool { return b == ' ' || b == '\t' }))
				eq("SPorHT", l.GetPtr(), m.p)
			case 24:
				eq("StartsId", l.StartsId(), r != "" && idC(r[0]))
			case 25:
				marks = append(marks, l.MarkInputPosition())
				eq("MarkInputPosition", marks[len(marks)-1], m.p)
			case 26, 27:
				m.p = marks[g.N(len(marks))]
				l.RewindInputPosition(m.p)
				eq("RewindInputPosition", l.GetPtr(), m.p)
			case 28: // up to a character, escapes undone; without it nothing is consumed
				d := g.Pick("\"", ";", "a", " ", "\n", ")")[0]
				var b []byte
				i, found := 0, false
				for ; i < len(r) && !found; i++ {
					switch {
					case r[i] == d:
						found = true
					case r[i] == '\\':
						i++
						if i < len(r) {
							b = append(b, r[i])
						}
					default:
						b = append(b, r[i])
					}
				}
				s, err := l.GetString(d)
				if found {
					eq(fmt.Sprintf("GetString %q", d), fmt.Sprintf("%q %v", s, err), fmt.Sprintf("%q %v", b, nil))
					m.p += i
				} else {
					eq(fmt.Sprintf("GetString %q", d), err != nil, true)
				}
			case 29:
				if m.cur != "" {
					m.cur = fmt.Sprintf("own%d", g.N(len(m.kw)))
					l.SelectLexer(m.cur)
					eq("SelectLexer "+m.cur, l.GetLexerName(), m.cur)
					for w, v := range m.kw[m.cur] {
						eq("CurrentLexer", l.CurrentLexer()[w], v)
					}
				}
			case 30:
				for v, w := range m.names {
					eq(fmt.Sprintf("LookupToken %d", v), l.LookupToken(v), w)
				}
				ch := g.N(128)
				eq(fmt.Sprintf("LookupToken %d", ch), l.LookupToken(ch), strconv.Itoa(ch))
			}
			if c.Failed() {
				return
			}
			if l.GetPtr() != m.p || l.GetRest() != m.rest() || l.GetBuffer() != text {
				fail("position after "+how[len(how)-1], fmt.Sprint(l.GetPtr(), " ", strconv.Quote(l.GetRest())), fmt.Sprint(m.p, " ", strconv.Quote(m.rest())))
				return
			}
		}
		c.Count("texts walked", 1)
		c.Key(strings.Join(how, ";"))
		if c.WantSample() {
			c.Sample("%s", strings.Join(how, "; "))
		}
	}
	bytesOf := func(c *mon.C, data []byte) {
		st := core.NewStringTokenizer("")
		for i := 0; i < 256; i++ {
			b := byte(i)
			hex := digitC(b) || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F'
			if st.IsAlpha(b) != alphaC(b) || st.IsDigit(b) != digitC(b) || st.IsHexDigit(b) != hex {
				c.Failf("class", "byte %#x: alpha %v digit %v hex %v", b, st.IsAlpha(b), st.IsDigit(b), st.IsHexDigit(b))
				return
			}
			l := core.NewCoreLexer("charLexer", string([]byte{b}))
			if l.StartsId() != idC(b) || l.CharAsString(b) != string([]byte{b}) {
				c.Failf("class", "byte %#x: starts an id: %v, as text %q", b, l.StartsId(), l.CharAsString(b))
				return
			}
			c.Count("bytes classified", 1)
			c.Key(fmt.Sprint(i))
		}
	}
	lines := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		text := lexText(g)
		if g.P(2) {
			text += "\n" + lexText(g) + g.Pick("", "\n", "\n\n")
		}
		want := strings.SplitAfter(text, "\n")
		if want[len(want)-1] == "" {
			want = want[:len(want)-1]
		}
		got := core.NewStringTokenizer(text).GetLines()
		for i, w := range want {
			if got[i] != w {
				c.Failf("lines", "line %d is %q, expected %q\n%q", i, got[i], w, text)
				return
			}
		}
		if len(got) != len(want) {
			c.Failf("lines", "%d lines, expected %d\n%q", len(got), len(want), text)
			return
		}
		st := core.NewStringTokenizer(text)
		for i, w := range want {
			if s := st.NextToken(); s != w {
				c.Failf("lines", "token %d is %q, expected %q\n%q", i, s, w, text)
				return
			}
		}
		if st.HasMoreChars() || st.NextToken() != "" {
			c.Failf("lines", "more after the last line\n%q", text)
			return
		}
		name, value := "", ""
		if i := strings.Index(text, ":"); i >= 0 {
			name, value = text[:i], text[i+1:]
		}
		sl := parser.NewSIPLexer("charLexer", "")
		if sl.GetHeaderName(text) != name || sl.GetHeaderValue(text) != value {
			c.Failf("header name", "name %q value %q of %q", sl.GetHeaderName(text), sl.GetHeaderValue(text), text)
			return
		}
		field := ""
		if i := strings.Index(text, "="); i >= 0 {
			field = text[:i]
		}
		if s := st.GetSDPFieldName(text); s != field {
			c.Failf("field name", "%q of %q", s, text)
			return
		}
		c.Count("texts cut into lines", 1)
		c.Key("lines " + text)
	}
	mon.Register(&mon.Prop{
		ID:    "S31",
		Quick: 12,
		Rule:  "a case is a generated text (tokens, quoted texts, comments, numbers, separators, noise) and up to 40 lexer operations on it, each compared in its result and in the position it leaves with a reference over (text, position); or the classification of all 256 bytes; or a text cut into lines, names and values; distinct cases are distinct texts with their operations",
		Handlers: map[string]mon.Handler{
			"walk": walk, "bytes": bytesOf, "lines": lines,
		},
		Plan: func(p *mon.Plan) {
			p.Case("bytes", nil)
			p.Seeds("walk", p.N(60000, 3000000))
			p.Seeds("lines", p.N(20000, 800000))
		},
		MinEvents: []string{"texts walked", "bytes classified", "texts cut into lines", "QuotedString", "Comment", "Number", "Match", "GetString", "PeekNextTokenK", "Consume", "RewindInputPosition", "SelectLexer", "LookupToken"},
		Assume:    []string{"the position after an operation that reports an error is not claimed, except that GetString and the matching of a character, class or id consume nothing then"},
	})
}
