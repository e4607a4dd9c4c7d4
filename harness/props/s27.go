package props

import (
	"encoding/binary"
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
)

func init() {
	code := func(c *mon.C, data []byte) {
		n := int(int32(binary.BigEndian.Uint32(data)))
		final := n >= 200 && n <= 699
		x := message.NewSIPResponse()
		if got := x.IsFinalResponseFromInt(n); got != final {
			c.Failf("final", "status %d reported final: %v", n, got)
		}
		if n >= 100 && n <= 699 {
			p := x.GetReasonPhraseFromInt(n)
			if phrases[n] != "" && !samePhrase(n, p) {
				c.Failf("phrase", "status %d has phrase %q, expected %q", n, p, phrases[n])
			}
			x.SetStatusCode(n)
			x.SetReasonPhrase(p)
			if x.GetStatusCode() != n || x.GetReasonPhrase() != p || x.IsFinalResponse() != final {
				c.Failf("read", "status %d with phrase %q reads %d %q final %v", n, p, x.GetStatusCode(), x.GetReasonPhrase(), x.IsFinalResponse())
			}
			r := message.NewSIPRequest()
			if y := r.CreateResponse(n); y.GetStatusCode() != n || phrases[n] != "" && !samePhrase(n, y.GetReasonPhrase()) || y.IsFinalResponse() != final {
				c.Failf("created", "response created with %d has %d %q final %v", n, y.GetStatusCode(), y.GetReasonPhrase(), y.IsFinalResponse())
			}
			c.Count("codes 100-699", 1)
			if phrases[n] != "" {
				c.Count("named codes", 1)
			}
		}
		c.Key(fmt.Sprint(n))
	}
	edit := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		var x *message.SIPResponse
		st, ph := 0, ""
		how := "a new response"
		if g.P(2) {
			x = message.NewSIPResponse()
		} else {
			m := g.Msg(gen.MsgOpt{Resp: true})
			y := makeMsg(c, g, m)
			if y == nil {
				return
			}
			x, st, ph = y.(*message.SIPResponse), m.Status, m.Phrase
			how = "the response " + m.Start()
		}
		phrase := func() string {
			if g.P(6) {
				return ""
			}
			return g.Phrase(st)
		}
		for k := 1 + g.N(8); k > 0; k-- {
			switch g.N(5) {
			case 0, 1:
				st = 100 + g.N(600)
				x.SetStatusCode(st)
				how += fmt.Sprintf("; SetStatusCode(%d)", st)
			case 2:
				ph = phrase()
				x.SetReasonPhrase(ph)
				how += fmt.Sprintf("; SetReasonPhrase(%q)", ph)
			case 3:
				sl := header.NewStatusLine()
				st, ph = 100+g.N(600), phrase()
				sl.SetReasonPhrase(ph)
				sl.SetStatusCode(st)
				x.SetStatusLine(sl)
				how += fmt.Sprintf("; SetStatusLine(%d %q)", st, ph)
			case 4:
				if x.GetStatusLine() == nil {
					continue
				}
				st, ph = 100+g.N(600), phrase()
				x.GetStatusLine().SetStatusCode(st)
				x.GetStatusLine().SetReasonPhrase(ph)
				how += fmt.Sprintf("; status line set to %d %q", st, ph)
			}
			if x.GetStatusCode() != st || x.GetReasonPhrase() != ph {
				c.Failf("read", "status reads %d %q, set %d %q\nafter %s", x.GetStatusCode(), x.GetReasonPhrase(), st, ph, how)
				return
			}
			if x.IsFinalResponse() != (st >= 200 && st <= 699) {
				c.Failf("final", "status %d reported final: %v\nafter %s", st, x.IsFinalResponse(), how)
				return
			}
			if x.GetStatusLine() == nil || st == 0 {
				continue
			}
			want := fmt.Sprintf("SIP/2.0 %d %s\r\n", st, ph)
			if x.GetFirstLine() != want || !strings.HasPrefix(x.String(), want) || !strings.HasPrefix(string(x.EncodeAsBytes()), want) || x.GetStatusLine().String() != want {
				c.Failf("encoding", "status line encodes as %q, in the message %q, expected %q\nafter %s", x.GetFirstLine(), x.String(), want, how)
				return
			}
			y, err := parseMsg([]byte(x.String()))
			if r, ok := y.(*message.SIPResponse); err != nil || !ok || r.GetStatusCode() != st || r.GetReasonPhrase() != ph || r.IsFinalResponse() != x.IsFinalResponse() {
				c.Failf("reparse", "the encoding does not parse to the same status (%v)\n%q\nafter %s", err, x.String(), how)
				return
			}
			c.Count("edits", 1)
			c.Key(want)
		}
		if c.WantSample() {
			c.Sample("%s", how)
		}
	}
	mon.Register(&mon.Prop{
		ID:    "S27",
		Quick: 6,
		Rule:  "a case is one status code (all from -10 to 1100, and further ones) or a sequence of status and phrase changes on a generated response; it counts when class, phrase, read-back, encoding and re-parsing were compared with the reference table of all status codes the library names",
		Handlers: map[string]mon.Handler{
			"code": code, "edit": edit,
		},
		Plan: func(p *mon.Plan) {
			for n := -10; n <= 1100; n++ {
				p.Case("code", binary.BigEndian.AppendUint32(nil, uint32(int32(n))))
			}
			for _, n := range []int{-1 << 31, 1<<31 - 1, 65736, 1 << 20, -300} {
				p.Case("code", binary.BigEndian.AppendUint32(nil, uint32(int32(n))))
			}
			p.Seeds("edit", p.N(20000, 600000))
		},
		MinEvents: []string{"codes 100-699", "named codes", "edits"},
		Assume:    []string{"phrases are compared with the reference table letter case aside"},
	})
}
