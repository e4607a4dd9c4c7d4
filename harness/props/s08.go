package props

import (
	"bytes"
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/sip/parser"
)

// bodyOf makes a body of a wide range of lengths and contents.
func bodyOf(g *gen.G) []byte {
	switch g.N(8) {
	case 0, 1, 2:
		if b := g.Bytes(300); len(b) > 0 {
			return b
		}
		return []byte{0}
	case 3:
		b := make([]byte, 1+g.N(3000))
		for i := range b {
			b[i] = byte(g.N(256))
		}
		return b
	case 4: // every byte value
		b := make([]byte, 256)
		for i, j := range g.R.Perm(256) {
			b[i] = byte(j)
		}
		return b
	case 5: // starts or ends with line breaks
		return []byte(g.Pick("\r\n", "\n", "\r", "\r\n\r\n", "\n\n", " \t", "") + g.Text() + g.Pick("\r\n", "\n", "\r", "\r\n\r\n", "\n\n", "\x00", " "))
	case 6: // looks like a whole message
		return g.Msg(gen.MsgOpt{Extra: 2}).Wire()
	}
	if g.P(10) {
		return bytes.Repeat([]byte(g.Chars("ab\r\n\x00\xff", 1+g.N(61))), 1+g.N(3000))
	}
	return bytes.Repeat([]byte{byte(g.N(256))}, 1+g.N(40))
}

// withCL writes a message that announces n and carries the given bytes.
func withCL(g *gen.G, m *gen.Msg, n string, rest []byte) []byte {
	var b bytes.Buffer
	nl := g.Pick("\r\n", "\r\n", "\r\n", "\n")
	if g.P(8) {
		b.WriteString(strings.Repeat(nl, 1+g.N(3)))
	}
	b.WriteString(m.Start() + nl)
	at := g.N(len(m.Lines) + 1)
	cl := func() {
		if n != "" {
			b.WriteString(g.Pick("Content-Length", "Content-Length", "l", "CONTENT-LENGTH", "L") + g.Pick(":", ": ", " : ", ":\t") + n + g.Pick("", "", " ") + nl)
		}
	}
	for i, l := range m.Lines {
		if i == at {
			cl()
		}
		b.WriteString(l.Plain() + nl)
	}
	if at == len(m.Lines) {
		cl()
	}
	b.WriteString(nl)
	b.Write(rest)
	return b.Bytes()
}

// checkBody compares the body of a parsed message with the expected one.
func checkBody(c *mon.C, x gen.Message, body []byte, wire []byte) bool {
	if s := x.GetContent(); s != string(body) {
		c.Failf("body", "body of %d bytes differs from the %d bytes announced\n got %q\nwant %q\nwire %q", len(s), len(body), s, body, clip(wire))
		return false
	}
	if y, ok := x.(interface{ GetMessageContent() string }); !ok || y.GetMessageContent() != string(body) {
		c.Failf("message-content", "message content differs from the bytes announced\nwant %q\nwire %q", body, clip(wire))
		return false
	}
	if cl := x.GetContentLength(); cl == nil || cl.GetContentLength() != len(body) {
		c.Failf("length", "content length reported differs from %d\nwire %q", len(body), clip(wire))
		return false
	}
	e := x.String()
	if !strings.HasSuffix(e, fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(body), body)) {
		c.Failf("encoded-body", "encoding does not end with the length and the body\nwant %q\n got %q", body, clip([]byte(e)))
		return false
	}
	return true
}

// parseRest parses a message and reads what is left after it.
func parseRest(c *mon.C, wire []byte, rest []byte) (gen.Message, error) {
	p := parser.NewStringMsgParser()
	if len(wire)%3 == 0 { // the parser refused a message, or read another one, before
		before := "OPTIONS sip:a@b SIP/2.0\r\nVia: SIP/2.0/UDP h:5070;branch=z9hG4bKx\r\nFrom: <sip:f@g>;tag=1\r\nTo: <sip:t@g>\r\nCall-ID: q@w\r\nCSeq: 1 OPTIONS\r\nMax-Forwards: 70\r\nContent-Length: 50\r\n\r\nabc"
		if len(wire)%2 == 0 {
			before += strings.Repeat("x", 90)
		}
		p.ParseSIPMessage(before)
		c.Count("parsers used before", 1)
	}
	x, err := p.ParseSIPMessageFromByte(wire)
	if k := len(wire) % 4; k != 0 {
		c.Count("rests read", 1)
		var s string
		if k == 1 {
			if err == nil { // the body has been read
				if s = p.GetMessageBody(); s != "" {
					c.Failf("rest", "once the message is parsed another body, %q, is read\nwire %q", s, clip(wire))
				}
			}
			s += p.ReadToEnd()
		} else {
			s = string(p.ReadBytesToEnd())
		}
		if s != string(rest) {
			c.Failf("rest", "after the message (error: %v) %q is left, expected %q\nwire %q", err, s, clip(rest), clip(wire))
		}
		if s := p.ReadToEnd() + p.GetMessageBody(); s != "" {
			c.Failf("rest", "after all has been read there is still %q\nwire %q", s, clip(wire))
		}
	}
	return x, err
}

func clip(b []byte) []byte {
	if len(b) > 1200 {
		return b[:1200]
	}
	return b
}

func init() {
	mk := func(g *gen.G) *gen.Msg {
		m := g.Msg(gen.MsgOpt{Extra: 3, NoBody: g.P(2)})
		m.Body = nil
		return m
	}
	mon.Register(&mon.Prop{
		ID:    "S08",
		Quick: 4,
		Rule:  "a case is one message with a chosen announced length, body and bytes after the body; it counts when the body, its length and the encoding were compared byte for byte (or, for an announced length beyond the input, the rejection observed); distinct cases are distinct wire texts",
		Handlers: map[string]mon.Handler{
			"exact": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				m := mk(g)
				body := bodyOf(g)
				var trail []byte
				if !g.P(3) {
					trail = bodyOf(g)
				}
				n := fmt.Sprint(len(body))
				if g.P(6) {
					n = strings.Repeat("0", 1+g.N(4)) + n
				}
				wire := withCL(g, m, n, append(append([]byte(nil), body...), trail...))
				x, err := parseRest(c, wire, trail)
				if err != nil || x == nil {
					c.Failf("rejected", "message with a complete body of %d bytes (and %d more) rejected: %v\n%q", len(body), len(trail), err, clip(wire))
					return
				}
				if !checkBody(c, x, body, wire) {
					return
				}
				c.Key(string(wire))
				c.Count("bodies", 1)
				c.Count("body bytes compared", len(body))
				if len(trail) > 0 {
					c.Count("bodies followed by more bytes", 1)
				}
				if c.WantSample() {
					c.Sample("%q", wire)
				}
			},
			"short": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				m := mk(g)
				var body []byte
				if !g.P(4) {
					body = bodyOf(g)
				}
				n := len(body) + 1 + g.N(4)
				switch g.N(4) {
				case 0:
					n = len(body) + 1
				case 1:
					n = len(body) + 1 + g.N(100000)
				case 2:
					n = gen.MaxInt31 - g.N(3)
				}
				wire := withCL(g, m, fmt.Sprint(n), body)
				x, err := parseRest(c, wire, body)
				if err == nil {
					c.Failf("accepted-short", "message announcing %d bytes with only %d available is accepted (message %v)\n%q", n, len(body), x != nil, clip(wire))
					return
				}
				c.Key(string(wire))
				c.Count("too long announcements rejected", 1)
			},
			"zero": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				m := mk(g)
				n := g.Pick("0", "0", "00", "")
				rest := bodyOf(g)
				wire := withCL(g, m, n, rest)
				x, err := parseRest(c, wire, rest)
				if err != nil || x == nil {
					c.Failf("rejected", "message announcing no body rejected: %v\n%q", err, clip(wire))
					return
				}
				if !checkBody(c, x, nil, wire) {
					return
				}
				c.Key(string(wire))
				c.Count("messages without a body", 1)
			},
			"lengths": func(c *mon.C, data []byte) { // one body, every announced length around it
				g := gen.New(c.RNG())
				m := mk(g)
				all := g.Chars("ab\r\n \x00\xff", 20)
				for n := 0; n <= len(all)+3; n++ {
					wire := withCL(g, m, fmt.Sprint(n), []byte(all))
					x, err := parseMsg(wire)
					if n > len(all) {
						if err == nil {
							c.Failf("accepted-short", "announcing %d of %d bytes is accepted\n%q", n, len(all), wire)
							return
						}
						continue
					}
					if err != nil || x == nil {
						c.Failf("rejected", "announcing %d of %d bytes is rejected: %v\n%q", n, len(all), err, wire)
						return
					}
					if !checkBody(c, x, []byte(all[:n]), wire) {
						return
					}
					c.Key(string(wire))
				}
				c.Count("length sweeps", 1)
			},
			"huge": func(c *mon.C, data []byte) { // bodies of megabytes
				g := gen.New(c.RNG())
				m := mk(g)
				body := make([]byte, 1<<20+g.N(1<<21))
				for i := range body {
					body[i] = byte(g.R.Uint32())
				}
				wire := withCL(g, m, fmt.Sprint(len(body)), append(append([]byte(nil), body...), "tail"...))
				x, err := parseMsg(wire)
				if err != nil || x == nil {
					c.Failf("rejected", "message with a body of %d bytes rejected: %v", len(body), err)
					return
				}
				if x.GetContent() != string(body) || !strings.HasSuffix(x.String(), string(body)) {
					c.Failf("body", "body of %d bytes differs", len(body))
					return
				}
				c.Key(fmt.Sprint(len(body)))
				c.Count("huge bodies", 1)
			},
		},
		Plan: func(p *mon.Plan) {
			p.Seeds("exact", p.N(60000, 2500000))
			p.Seeds("short", p.N(25000, 1000000))
			p.Seeds("zero", p.N(25000, 1000000))
			p.Seeds("lengths", p.N(3000, 100000))
			p.Seeds("huge", p.N(16, 400))
		},
		MinEvents: []string{"bodies", "bodies followed by more bytes", "too long announcements rejected", "messages without a body", "length sweeps", "huge bodies", "rests read"},
	})
}
