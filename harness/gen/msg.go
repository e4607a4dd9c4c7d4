package gen

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
)

// Msg models a well-formed message: the start line, the header lines in wire
// order and the body.
type Msg struct {
	Req    bool
	Method string
	U      *URI
	Status int
	Phrase string
	Lines  []*Line // without Content-Length
	CLAt   int     // the Content-Length line precedes Lines[CLAt]; -1: no such line
	Body   []byte
}

// MsgOpt limits what a message may contain.
type MsgOpt struct {
	Req, Resp bool // only requests, only responses
	Extra     int  // at most this many further header lines
	NoBody    bool
	Repeat    bool // list kinds may occur on several lines, unknown headers may repeat
	MaxVals   int
	Method    string
	SIPOnly   bool // request URI and From/To are SIP URIs
}

// Line1 makes a single value line of a kind with the given name.
func (g *G) Line1(name string) *Line {
	return &Line{K: KindOf(name), Vals: []*Val{KindOf(name).Gen(g)}}
}

// CSeqLine is the CSeq header.
func CSeqLine(n int, method string) *Line {
	k := KindOf("CSeq")
	s := fmt.Sprintf("%d%s%s", n, S, method)
	return &Line{K: k, Vals: []*Val{{Body: s, Canon: Plain(s), Want: []string{fmt.Sprintf("CSeq %d %s", n, method)}, Build: func() (header.Header, []error) {
		h := header.NewCSeq(0, "X")
		return h, errl(h.SetSequenceNumber(n), h.SetMethod(method))
	}}}}
}

// Bytes makes a body.
func (g *G) Bytes(max int) []byte {
	switch g.N(7) {
	case 6: // marks that a reader might take for its own
		m := func() string {
			return g.Pick("", "", "\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\x1f\x8b\x08", "--x\r\n", "--x--", "<?xml version=\"1.0\"?>", "{}", "\x00", "\x00\x00\x00", "\u00a0", "\u2028", "\u0085", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc3", "\x80", "\ufffd", "%00", "%d%s", "\\n", "\x1a", "\x04", "\x7f", "\v", "\f", ".\r\n", "\x1b[0m")
		}
		return []byte(m() + g.Pick("", "a", g.Text()) + m() + g.Pick("", "\r\n") + m())
	case 0:
		return nil
	case 1: // looks like headers, with empty lines
		return []byte(g.Pick("\r\n", "", "\n\n", "\r\n\r\n") + "INVITE sip:a@b SIP/2.0\r\nContent-Length: 3\r\n\r\nabc\r\n" + g.Pick("\r\n", "", "\r\n\r\n", " folded\r\n"))
	case 2:
		return []byte("v=0\r\no=u 1 1 IN IP4 1.2.3.4\r\ns=-\r\nc=IN IP4 1.2.3.4\r\nt=0 0\r\nm=audio " + g.Chars(digits, 4) + " RTP/AVP 0\r\n")
	case 3: // line-break bytes and blanks
		return []byte(g.Chars("\r\n\t x", 1+g.N(12)))
	}
	b := make([]byte, 1+g.N(max))
	for i := range b {
		b[i] = byte(g.N(256))
	}
	return b
}

// Msg makes a well-formed message.
func (g *G) Msg(o MsgOpt) *Msg {
	m := &Msg{Req: !o.Resp && (o.Req || g.P(2)), CLAt: -1}
	if o.MaxVals == 0 {
		o.MaxVals = 4
	}
	m.Method = o.Method
	if m.Method == "" {
		m.Method = g.Method()
	}
	if m.Req {
		m.U = g.URI(URIOpt{SIPOnly: o.SIPOnly})
	} else {
		m.Status = 100 + g.N(600)
		if !g.P(8) {
			m.Phrase = g.Phrase(m.Status)
		}
	}
	num := g.Int(0, MaxInt31)
	var ls []*Line
	via := g.Line(KindOf("Via"), o.MaxVals)
	ls = append(ls, via, g.Line1("From"), g.Line1("To"), g.Line1("Call-ID"), CSeqLine(num, m.Method))
	if m.Req || g.P(3) {
		ls = append(ls, g.Line1("Max-Forwards"))
	}
	if !o.NoBody {
		m.Body = g.Bytes(300)
	}
	used := map[string]bool{"via": true, "from": true, "to": true, "call-id": true, "cseq": true, "max-forwards": true, "content-length": true}
	if len(m.Body) > 0 {
		ls = append(ls, g.Line1("Content-Type"))
		used["content-type"] = true
	}
	for n := g.N(o.Extra + 1); n > 0; n-- {
		k := g.AnyKind()
		if used[strings.ToLower(k.Name)] && !(o.Repeat && k.List) {
			continue
		}
		used[strings.ToLower(k.Name)] = true
		ls = append(ls, g.Line(k, o.MaxVals))
		if o.Repeat && k.List {
			for g.P(2) {
				ls = append(ls, g.Line(k, o.MaxVals))
			}
		}
	}
	if o.Repeat {
		for g.P(2) {
			ls = append(ls, g.Line(KindOf("Via"), o.MaxVals))
		}
		if g.P(3) {
			k := ExtKind(g.ExtName())
			if !used[strings.ToLower(k.Name)] {
				for n := 2 + g.N(3); n > 0; n-- {
					ls = append(ls, g.Line(k, 1))
				}
			}
		}
	}
	switch g.N(3) {
	case 0: // the usual order
	default:
		g.R.Shuffle(len(ls), func(i, j int) { ls[i], ls[j] = ls[j], ls[i] })
	}
	m.Lines = ls
	if len(m.Body) > 0 || !g.P(3) {
		m.CLAt = len(ls)
		if g.P(2) {
			m.CLAt = g.N(len(ls) + 1)
		}
	}
	return m
}

// Start is the start line without the line ending.
func (m *Msg) Start() string {
	if m.Req {
		return m.Method + " " + m.U.Text() + " SIP/2.0"
	}
	return fmt.Sprintf("SIP/2.0 %d %s", m.Status, m.Phrase)
}

// Wire is the message in its plain spelling.
func (m *Msg) Wire() []byte { return m.Spelled(nil, "\r\n") }

// Spelled is the message with random equivalent spellings if g is not nil.
func (m *Msg) Spelled(g *G, nl string) []byte {
	var b bytes.Buffer
	b.WriteString(m.Start() + nl)
	line := func(l *Line) {
		if g == nil {
			b.WriteString(l.Plain() + nl)
			return
		}
		s := Spell(l.T(g.NameSpelling(l.K)), g, true)
		b.WriteString(strings.ReplaceAll(s, "\r\n", nl) + nl)
	}
	cl := func() {
		t := fmt.Sprint(len(m.Body))
		line(&Line{K: KindOf("Content-Length"), Vals: []*Val{{Body: t}}})
	}
	for i, l := range m.Lines {
		if i == m.CLAt {
			cl()
		}
		line(l)
	}
	if m.CLAt == len(m.Lines) {
		cl()
	}
	b.WriteString(nl)
	b.Write(m.Body)
	return b.Bytes()
}

// Group is the header of one name, with all its values.
type Group struct {
	Name string
	Vals []*Val
	K    *Kind
}

// Groups are the headers in the order of their first occurrence. A repeated
// header that is not a list keeps its first value, except one of an unknown
// kind, which keeps all.
func (m *Msg) Groups() []*Group {
	var gs []*Group
	by := map[string]*Group{}
	for _, l := range m.Lines {
		n := strings.ToLower(l.K.Name)
		if x := by[n]; x != nil {
			if l.K.List || l.K.Ext {
				x.Vals = append(x.Vals, l.Vals...)
			}
			continue
		}
		x := &Group{l.K.Name, append([]*Val(nil), l.Vals...), l.K}
		by[n] = x
		gs = append(gs, x)
	}
	return gs
}

// Group finds a header by name.
func (m *Msg) Group(name string) *Group {
	for _, x := range m.Groups() {
		if strings.EqualFold(x.Name, name) {
			return x
		}
	}
	return nil
}

func (x *Group) Canon() string { return (&Line{K: x.K, Vals: x.Vals}).Canon() }

// Want is what the values of the header should show.
func (x *Group) Want() []string {
	o := []string{fmt.Sprintf("# %s: %d", x.Name, len(x.Vals))}
	for _, v := range x.Vals {
		o = append(o, v.Want...)
	}
	return o
}

// Canon is the expected encoding.
func (m *Msg) Canon() string {
	var b strings.Builder
	b.WriteString(m.Start() + "\r\n")
	for _, x := range m.Groups() {
		b.WriteString(x.Canon())
	}
	fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", len(m.Body))
	b.Write(m.Body)
	return b.String()
}

// WantStart is what the start line should report.
func (m *Msg) WantStart() []string {
	if m.Req {
		return append([]string{"request " + m.Method + " SIP/2.0"}, m.U.Want()...)
	}
	return []string{fmt.Sprintf("response %d %s SIP/2.0", m.Status, m.Phrase)}
}

// Want is what ObserveMsg should report.
func (m *Msg) Want() []string {
	o := m.WantStart()
	for _, x := range m.Groups() {
		o = append(o, x.Want()...)
	}
	return append(o, fmt.Sprintf("content length %d", len(m.Body)), fmt.Sprintf("body %q", m.Body))
}

// ObsStart reads the start line.
func ObsStart(x message.Message) []string {
	switch t := x.(type) {
	case *message.SIPRequest:
		o := []string{"request " + t.GetMethod() + " " + t.GetSIPVersion()}
		return append(o, ObsURI(t.GetRequestURI())...)
	case *message.SIPResponse:
		return []string{fmt.Sprintf("response %d %s %s", t.GetStatusCode(), t.GetReasonPhrase(), t.GetSIPVersion())}
	}
	return []string{fmt.Sprintf("message type %T", x)}
}

// ObsGroup reads all values of a header of a message.
func ObsGroup(x message.Message, name string) []string {
	var o []string
	l := x.GetHeaders(name)
	if l == nil {
		return nil
	}
	add(&o, "# %s: %d", name, l.Len())
	for e := l.Front(); e != nil; e = e.Next() {
		h, ok := e.Value.(header.Header)
		if !ok {
			add(&o, "element %T", e.Value)
			continue
		}
		o = append(o, Observe(h)...)
	}
	if y, ok := x.(interface{ HasHeader(string) bool }); ok && !y.HasHeader(name) {
		add(&o, "%s reported absent", name)
	}
	return o
}

// ObserveMsg reads a message through its accessors.
func ObserveMsg(x message.Message) []string {
	o := ObsStart(x)
	for e := x.GetHeaderNames().Front(); e != nil; e = e.Next() {
		n := e.Value.(string)
		if n == "Content-Length" {
			continue
		}
		o = append(o, ObsGroup(x, n)...)
	}
	if cl := x.GetContentLength(); cl == nil {
		add(&o, "content length absent")
	} else {
		add(&o, "content length %d", cl.GetContentLength())
	}
	add(&o, "body %q", x.GetContent())
	if y, ok := x.(interface{ GetMessageContent() string }); ok && y.GetMessageContent() != x.GetContent() {
		add(&o, "message content %q", y.GetMessageContent())
	}
	return o
}

// Message is the library's message interface.
type Message = message.Message

// BuildMsg makes the message through constructors and setters, header by header.
func (m *Msg) BuildMsg() Message {
	var x interface {
		message.Message
		AttachHeader(header.Header) error
		SetMessageContentFromByte([]byte)
	}
	if m.Req {
		r := message.NewSIPRequest()
		r.SetMethod(m.Method)
		r.SetRequestURI(m.U.Build())
		x = r
	} else {
		r := message.NewSIPResponse()
		r.SetStatusCode(m.Status)
		r.SetReasonPhrase(m.Phrase)
		x = r
	}
	for _, l := range m.Lines {
		for _, v := range l.Vals {
			h, _ := v.Build()
			x.AttachHeader(h)
		}
	}
	if len(m.Body) > 0 {
		x.SetMessageContentFromByte(append([]byte(nil), m.Body...))
	}
	return x
}

// Phrase is a reason phrase for a status code: any text, sometimes one that
// looks like the rest of the status line.
func (g *G) Phrase(code int) string {
	switch g.N(12) {
	case 0:
		return fmt.Sprint(code)
	case 1:
		return fmt.Sprintf("SIP/2.0 %d OK", code)
	case 2:
		return fmt.Sprint(g.N(1000))
	case 3: // that of some other code
		return g.Pick("Trying", "Ringing", "Session progress", "OK", "Accepted", "Multiple choices", "Moved Temporarily", "Bad request", "Unauthorized", "Proxy Authentication required", "Not found", "Request timeout", "Busy here", "Request Terminated", "Server Internal Error", "Service unavailable", "Busy everywhere", "Decline")
	}
	if g.P(4) { // blanks inside belong to it
		return strings.TrimSpace(g.Word() + g.Pick("  ", "\t", " \t ", "     ") + g.Text())
	}
	return strings.TrimSpace(g.Text())
}

// ExtName is an unknown header name that is neither in the message nor among
// the others, in any letter case.
func (m *Msg) ExtName(g *G, others ...string) string {
next:
	for {
		n := g.ExtName()
		for _, l := range m.Lines {
			if strings.EqualFold(n, l.K.Name) {
				continue next
			}
		}
		for _, o := range others {
			if strings.EqualFold(n, o) {
				continue next
			}
		}
		return n
	}
}
