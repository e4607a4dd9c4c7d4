package props

import (
	"errors"
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
)

// badLines are malformed under any reading of the grammar.
var badLines = []string{
	"NoColonAtAll", "Two Words Without", "CSeq", "Via",
	"CSeq: x OPTIONS", "CSeq: 1", "CSeq: OPTIONS", "CSeq: -1 OPTIONS",
	"Max-Forwards: abc", "Max-Forwards: -3", "Max-Forwards: x7",
	"Content-Length: abc", "l: x", "Expires: soon", "Min-Expires: later", "RSeq: x", "RAck: 1 2", "RAck: x y INVITE", "MIME-Version: one",
	"Via: SIP/2.0", "Via: SIP/2.0/UDP", "v: SIP/2.0/UDP h;branch=", "Via: UDP h", "Via: SIP/2.0/UDP h:port", "Via: SIP/2.0/UDP h;=x", "Via: SIP/2.0/UDP h,",
	"From: <sip:a@b", "From: \"x <sip:a@b>;tag=1", "f: <>", "From: ;tag=1", "To: <sip:a@b", "To: x <", "t: <sip:",
	"Contact: <sip:a@b", "Contact: \"x\" <sip:a@b", "m: <sip:>", "Route: <sip:r", "Record-Route: <sip:", "Reply-To: <", "Refer-To: <sip:a@b",
	"Retry-After: x", "Timestamp: now", "Warning: abc d \"e\"", "Warning: 300 a b", "Warning: 300 a \"b",
	"Subscription-State: ;expires=1", "Subscription-State: active;expires=x", "Reason: ;cause=1",
	"Date: not a date", "Date: Mon, 99 Foo 2000", "Alert-Info: sip:a@b", "Call-Info: <sip:a@b", "Error-Info: x",
	"Content-Type: application", "Content-Type: /sdp", "Content-Type: a/", "Content-Disposition: ;handling=x", "Event: ;id=1",
	"Accept-Encoding: gzip;q=", "Accept-Encoding: gzip;q=2", "Accept-Language: en;q=x",
	"WWW-Authenticate: Digest realm=\"x", "Authorization: Digest =x", "Proxy-Authorization: ,", "Authentication-Info: =",
	"Allow: (", "Supported: @", "Require: \"x\"", "Priority: @", "Content-Encoding: <x>", "In-Reply-To: @@",
}

type badCall struct {
	text, names string
	msg         message.Message
	err         error
	header      string
	line        int
}

// watcher records the calls of the parser's error handler; it returns stop
// at call number failAt.
type watcher struct {
	calls  []badCall
	failAt int
	stop   error
	p      *parser.StringMsgParser
}

func (w *watcher) HandleException(err error, m message.Message, text, all string) error {
	names := "no message"
	if m != nil {
		names = headerNames(m)
	}
	k := badCall{text, names, m, err, text, -1}
	if w.p != nil {
		k.header, k.line = w.p.GetCurrentHeader(), w.p.GetCurrentLineNumber()
	}
	w.calls = append(w.calls, k)
	if len(w.calls)-1 == w.failAt {
		return w.stop
	}
	return nil
}

// headerNames lists the headers a message holds, without Content-Length.
func headerNames(m message.Message) string {
	var o []string
	for e := m.GetHeaderNames().Front(); e != nil; e = e.Next() {
		n, _ := e.Value.(string)
		if n == "Content-Length" {
			continue
		}
		k := 0
		if l := m.GetHeaders(n); l != nil {
			k = l.Len()
		}
		o = append(o, fmt.Sprintf("%s:%d", n, k))
	}
	return strings.Join(o, " ")
}

func init() {
	run := func(c *mon.C, g *gen.G, pick func() string) {
		m := g.Msg(gen.MsgOpt{Extra: 6, Repeat: g.P(2)})
		// lines of the message with malformed ones in between
		wire := string(m.Wire())
		head, body, _ := strings.Cut(wire, "\r\n\r\n")
		lines := strings.Split(head, "\r\n")
		var out, bad, before []string
		var badAt []int // line numbers
		out = append(out, lines[0])
		n := g.N(4)
		at := map[int][]string{}
		for i := 0; i < n; i++ {
			j := 1 + g.N(len(lines))
			at[j] = append(at[j], pick())
		}
		for j := 1; j <= len(lines); j++ {
			for _, b := range at[j] {
				bad = append(bad, b)
				before = append(before, lineNames(m, lines[1:j]))
				badAt = append(badAt, len(out))
				out = append(out, b)
			}
			if j < len(lines) {
				out = append(out, lines[j])
			}
		}
		in := strings.Join(out, "\r\n") + "\r\n\r\n" + body
		p := parser.NewStringMsgParser()
		// a parser that may have parsed before, well or not
		again := func(p *parser.StringMsgParser) {
			if g.P(2) {
				p.ParseSIPMessageFromByte(g.Msg(gen.MsgOpt{Extra: 3}).Wire())
			}
			if g.P(4) {
				p.ParseSIPMessageFromByte(g.Hostile())
			}
		}
		again(p)
		w := &watcher{failAt: -1, p: p}
		stop := errors.New("the handler says stop")
		if len(bad) > 0 && g.P(3) {
			w.failAt, w.stop = g.N(len(bad)), stop
		}
		// an earlier handler that is replaced must not be called
		old := &watcher{failAt: 0, stop: errors.New("replaced handler called")}
		if g.P(3) {
			p.SetParseExceptionListener(old)
		}
		p.SetParseExceptionListener(w)
		var x message.Message
		var err error
		if !c.Guard("parse with a handler", func() {
			if g.P(2) {
				x, err = p.ParseSIPMessage(in)
			} else {
				x, err = p.ParseSIPMessageFromByte([]byte(in))
			}
		}) {
			return
		}
		want := bad
		if w.failAt >= 0 {
			want = bad[:w.failAt+1]
		}
		var got []string
		for _, k := range w.calls {
			got = append(got, strings.TrimRight(k.text, "\r\n"))
		}
		if d := diff(want, got); d != "" {
			c.Failf("calls", "the handler was told of other lines, %s\n%q", d, in)
			return
		}
		if len(old.calls) > 0 {
			c.Failf("replaced", "a replaced handler was called\n%q", in)
		}
		for i, k := range w.calls {
			if k.err == nil {
				c.Failf("no error", "the handler was called without an error for %q", k.text)
			}
			if k.msg == nil || k.msg != w.calls[0].msg {
				c.Failf("message", "call %d of the handler has another message than the first\n%q", i, in)
			} else if w.failAt < 0 && k.msg != x {
				c.Failf("message", "the handler was given another message than the one that was parsed\n%q", in)
			}
			if strings.TrimRight(k.header, "\r\n") != bad[i] || k.line != badAt[i] {
				c.Failf("current line", "in call %d of the handler the parser says it is at line %d, %q; it is line %d, %q\n%q", i, k.line, k.header, badAt[i], bad[i], in)
			}
			if k.names != before[i] {
				c.Failf("progress", "at call %d the message holds %q, the lines before it say %q\n%q", i, k.names, before[i], in)
			}
		}
		if w.failAt >= 0 {
			if err == nil || !errors.Is(err, stop) || x != nil {
				c.Failf("stop", "the handler returned an error; parsing gave %v, %v\n%q", x, err, in)
			}
			c.Count("handler errors returned", 1)
		} else {
			if err != nil || x == nil {
				c.Failf("goes on", "all errors were swallowed, yet parsing failed: %v\n%q", err, in)
				return
			}
			if d := diff(m.Want(), gen.ObserveMsg(x)); d != "" {
				c.Failf("rest", "errors were swallowed, but the well-formed rest differs, %s\n%q", d, in)
			}
			if s := x.String(); s != m.Canon() {
				c.Failf("rest encoding", "errors were swallowed, but the message encodes as\n%q\nexpected\n%q", s, m.Canon())
			}
			c.Count("errors swallowed", len(bad))
		}
		// without a handler, also one that was taken away again
		q := parser.NewStringMsgParser()
		if g.P(2) {
			q.SetParseExceptionListener(old)
			q.SetParseExceptionListener(nil)
		}
		again(q)
		y, e := q.ParseSIPMessageFromByte([]byte(in))
		if len(bad) > 0 && (e == nil || y != nil) {
			c.Failf("no handler", "malformed lines without a handler gave %v, %v\n%q", y, e, in)
		}
		if len(bad) > 0 && (strings.TrimRight(q.GetCurrentHeader(), "\r\n") != bad[0] || q.GetCurrentLineNumber() != badAt[0]) {
			c.Failf("current line", "parsing failed at line %d, %q; the parser says line %d, %q\n%q", badAt[0], bad[0], q.GetCurrentLineNumber(), q.GetCurrentHeader(), in)
		}
		if len(bad) == 0 && e != nil {
			c.Failf("no handler, no error", "well-formed message rejected: %v\n%q", e, in)
		}
		if len(bad) == 0 {
			c.Count("well-formed messages with a handler", 1)
		}
		if g.P(4) { // a malformed start line
			first := g.Pick("OPTIONS", "OPTIONS sip:a@b XX", "SIP/2.0 2x0 OK", "SIP/2.0", "OPTIONS sip:a@ SIP/2.0", "OPTIONS  ")
			in := first + strings.TrimPrefix(in, lines[0])
			q := parser.NewStringMsgParser()
			again(q)
			if y, e := q.ParseSIPMessage(in); e == nil || y != nil {
				c.Failf("start line", "the malformed start line was accepted: %v, %v\n%q", y, e, in)
			} else if strings.TrimRight(q.GetCurrentHeader(), "\r\n") != first || q.GetCurrentLineNumber() != 0 {
				c.Failf("start line", "parsing failed at the start line; the parser says line %d, %q\n%q", q.GetCurrentLineNumber(), q.GetCurrentHeader(), in)
			}
			w := &watcher{failAt: 0, stop: stop, p: q}
			q.SetParseExceptionListener(w)
			y, e := q.ParseSIPMessage(in)
			if !errors.Is(e, stop) || y != nil || len(w.calls) != 1 {
				c.Failf("start line", "with a handler that fails, a malformed start line gave %v, %v and %d calls\n%q", y, e, len(w.calls), in)
			} else if k := w.calls[0]; k.err == nil || strings.TrimRight(k.text, "\r\n") != first || strings.TrimRight(k.header, "\r\n") != first || k.line != 0 {
				c.Failf("start line", "the handler was told %q, at line %d, %q\n%q", k.text, k.line, k.header, in)
			}
			c.Count("malformed start lines", 1)
		}
		c.Key(strings.Join(bad, "|") + fmt.Sprint(w.failAt, len(lines)))
		if c.WantSample() {
			c.Sample("%d malformed lines %q, handler fails at %d", len(bad), bad, w.failAt)
		}
	}
	mon.Register(&mon.Prop{
		ID:    "S15",
		Quick: 3,
		Rule:  "a case is a generated message with 0 to 3 malformed lines at random places and a handler that swallows all errors or returns its own at a random call; calls, their lines, order, message object and the headers it held, and the parsed rest are compared with the model; distinct cases are distinct (malformed lines, pattern) pairs",
		Handlers: map[string]mon.Handler{
			"random": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				run(c, g, func() string {
					if g.P(2) {
						return g.Pick(badLines...)
					}
					_, _, l := badLine(g)
					return strings.TrimRight(l, " \t")
				})
			},
			"line": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				for i := 0; i < 4; i++ {
					run(c, g, func() string { return string(data) })
				}
				c.Count("malformed lines tried", 1)
			},
		},
		Plan: func(p *mon.Plan) {
			for _, l := range badLines {
				p.Case("line", []byte(l))
			}
			p.Seeds("random", p.N(40000, 2000000))
		},
		MinEvents: []string{"errors swallowed", "handler errors returned", "well-formed messages with a handler", "malformed lines tried"},
	})
}

// lineNames is what headerNames should say after the first n lines of a message.
func lineNames(m *gen.Msg, lines []string) string {
	q := *m
	q.Lines = nil
	n := 0
	var own []string // the Content-Length line is not one of m.Lines
	for _, l := range lines {
		if !strings.HasPrefix(l, "Content-Length:") {
			own = append(own, l)
		}
	}
	lines = own
	for _, l := range m.Lines {
		if n >= len(lines) {
			break
		}
		q.Lines = append(q.Lines, l)
		n++
	}
	var o []string
	for _, x := range q.Groups() {
		o = append(o, fmt.Sprintf("%s:%d", x.K.Name, len(x.Vals)))
	}
	return strings.Join(o, " ")
}
