package props

import (
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
)

// contentSetter is what requests and responses offer to change their content.
type contentSetter interface {
	message.Message
	SetMessageContent(string)
	SetMessageContentFromByte([]byte)
	SetMessageContentFromString(t, sub, content string)
	SetMessageContent3(t, sub string, content []byte)
	GetMessageContent() string
	GetContentTypeHeader() header.ContentTypeHeader
	HasContent() bool
	EncodeAsBytes() []byte
}

func init() {
	body := func(g *gen.G) []byte {
		if g.P(6) {
			return nil
		}
		if g.P(4) { // text whose byte length is not its character count
			return []byte(strings.Repeat(g.Pick("é", "日本", "a", "€", "😀"), 1+g.N(30)))
		}
		return bodyOf(g)
	}
	run := func(c *mon.C, g *gen.G, x contentSetter, cur []byte, ct string, how string) {
		for step, n := 0, 1+g.N(8); step < n; step++ {
			b := body(g)
			t, s := g.Token(), g.Token()
			mk := func() header.ContentTypeHeader { return header.NewContentTypeFromString(t, s) }
			op := ""
			switch g.N(8) {
			case 0:
				op = "SetContent(string)"
				x.SetContent(string(b), mk())
				cur, ct = b, t+"/"+s
			case 1:
				op = "SetContent([]byte)"
				x.SetContent(append([]byte{}, b...), mk())
				cur, ct = b, t+"/"+s
			case 2:
				op = "SetMessageContent"
				x.SetMessageContent(string(b))
				cur = b
			case 3:
				op = "SetMessageContentFromByte"
				x.SetMessageContentFromByte(append([]byte{}, b...))
				cur = b
			case 4:
				op = "SetMessageContentFromString"
				x.SetMessageContentFromString(t, s, string(b))
				cur, ct = b, t+"/"+s
			case 5:
				op = "SetMessageContent3"
				x.SetMessageContent3(t, s, append([]byte{}, b...))
				cur, ct = b, t+"/"+s
			case 6:
				op = "RemoveContent"
				x.RemoveContent()
				cur = nil
			case 7: // the header may be removed: setting content brings it back
				op = "RemoveHeader(Content-Length), SetMessageContent"
				x.RemoveHeader(g.Pick("Content-Length", "content-length", "CONTENT-LENGTH"))
				x.SetMessageContent(string(b))
				cur = b
			}
			how += "; " + op + fmt.Sprintf("(%d bytes)", len(b))
			c.Count(op, 1)
			if cl := x.GetContentLength(); cl == nil || cl.GetContentLength() != len(cur) {
				got := "absent"
				if cl != nil {
					got = fmt.Sprint(cl.GetContentLength())
				}
				c.Failf("length", "content length is %s, the body has %d bytes\nafter %s", got, len(cur), how)
				return
			}
			if h, ok := x.GetHeader("Content-Length").(*header.ContentLength); !ok || h.GetContentLength() != len(cur) {
				c.Failf("length-header", "the Content-Length header is missing or does not say %d\nafter %s", len(cur), how)
				return
			}
			if got := x.GetContent(); got != string(cur) {
				c.Failf("content", "content read back %q, set %q\nafter %s", got, cur, how)
				return
			}
			if got := x.GetMessageContent(); got != string(cur) {
				c.Failf("message-content", "message content read back %q, set %q\nafter %s", got, cur, how)
				return
			}
			got := ""
			if h := x.GetContentTypeHeader(); h != nil {
				got = h.GetContentType() + "/" + h.GetContentSubType()
			}
			if got != ct {
				c.Failf("type", "content type %q, last set %q\nafter %s", got, ct, how)
				return
			}
			enc := x.String()
			tail := fmt.Sprintf("\r\nContent-Length: %d\r\n\r\n%s", len(cur), cur)
			if !strings.HasSuffix(enc, tail) {
				c.Failf("encoding", "the encoding does not end with the length and the body\n got %q\nwant %q\nafter %s", enc, tail, how)
				return
			}
			if string(x.EncodeAsBytes()) != enc {
				c.Failf("bytes", "text and byte encodings differ after %s", how)
				return
			}
			head := strings.ToLower(enc[:len(enc)-len(cur)])
			if k := strings.Count(head, "\r\ncontent-length:"); k != 1 {
				c.Failf("twice", "%d Content-Length headers in %q\nafter %s", k, head, how)
				return
			}
			if ct != "" && strings.Count(head, "\r\ncontent-type:") != 1 {
				c.Failf("type-twice", "not exactly one Content-Type header in %q\nafter %s", head, how)
				return
			}
			y, err := parseMsg([]byte(enc))
			if err != nil || y == nil || y.GetContent() != string(cur) {
				c.Failf("reparse", "the encoding does not parse back to the same body (%v)\n%q\nafter %s", err, enc, how)
				return
			}
			c.Count("states checked", 1)
			c.Key(how)
		}
		if c.WantSample() {
			c.Sample("%s", how)
		}
	}
	mon.Register(&mon.Prop{
		ID:    "S09",
		Quick: 4,
		Rule:  "a case is one random sequence of setting, replacing and removing content on a parsed or fresh request or response; after every step the length, the content, its type and the encoding are compared with the last values set; distinct cases are distinct histories",
		Handlers: map[string]mon.Handler{
			"parsed": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				m := g.Msg(gen.MsgOpt{Extra: 3})
				x, err := parseMsg(m.Wire())
				if err != nil || x == nil {
					c.Failf("rejected", "well-formed message rejected: %v\n%q", err, m.Wire())
					return
				}
				ct := ""
				if h := m.Group("Content-Type"); h != nil {
					if k := x.(contentSetter).GetContentTypeHeader(); k != nil {
						ct = k.GetContentType() + "/" + k.GetContentSubType()
					}
				}
				run(c, g, x.(contentSetter), m.Body, ct, fmt.Sprintf("parsed with %d bytes", len(m.Body)))
				c.Count("parsed messages", 1)
			},
			"fresh": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				m := g.Msg(gen.MsgOpt{Extra: 2, NoBody: true})
				for i := len(m.Lines) - 1; i >= 0; i-- {
					if m.Lines[i].K.Name == "Content-Type" {
						m.Lines = append(m.Lines[:i], m.Lines[i+1:]...)
					}
				}
				x := m.BuildMsg()
				run(c, g, x.(contentSetter), nil, "", "fresh")
				c.Count("fresh messages", 1)
			},
			"response": func(c *mon.C, data []byte) { // responses made from requests
				g := gen.New(c.RNG())
				m := g.Msg(gen.MsgOpt{Req: true, Extra: 2})
				x, err := parseMsg(m.Wire())
				if err != nil || x == nil {
					c.Failf("rejected", "well-formed message rejected: %v\n%q", err, m.Wire())
					return
				}
				y := x.(*message.SIPRequest).CreateResponse(200 + g.N(500))
				run(c, g, contentSetter(y), nil, "", "response")
				if s := x.GetContent(); s != string(m.Body) {
					c.Failf("original", "content of the request changed to %q", s)
				}
				c.Count("derived responses", 1)
			},
		},
		Plan: func(p *mon.Plan) {
			p.Seeds("parsed", p.N(20000, 800000))
			p.Seeds("fresh", p.N(15000, 600000))
			p.Seeds("response", p.N(8000, 300000))
		},
		MinEvents: []string{"parsed messages", "fresh messages", "derived responses", "states checked", "SetContent(string)", "SetContent([]byte)", "SetMessageContent", "SetMessageContentFromByte", "SetMessageContentFromString", "SetMessageContent3", "RemoveContent"},
	})
}
