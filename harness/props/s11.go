package props

import (
	"bytes"
	"os"
	"strings"
	"sync"
	"syscall"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
)

type swallow struct{ n int }

func (s *swallow) HandleException(err error, m message.Message, text, all string) error {
	s.n++
	return nil
}

// anyInput is input for an entry point, well formed or not.
func anyInput(g *gen.G, which int) []byte {
	switch {
	case which < 2 && g.P(3):
		return g.Hostile()
	case which < 2 && g.P(6):
		return []byte(g.Pick("", "\r\n", "\n\n\n", "x", "\r\n\r\nx\r\n\r\n", "SIP/2.0 200 OK\r\n\r\n", "INVITE sip:a@b SIP/2.0\r\n\r\n"))
	case which == 2 && g.P(3):
		return g.HostileLine()
	case g.P(3):
		return g.Mutate([]byte(entryText(g, which)))
	}
	return []byte(entryText(g, which))
}

// trace runs f with the parser's trace switched on and thrown away.
func trace(f func()) {
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		defer null.Close()
		if old, err := syscall.Dup(2); err == nil {
			syscall.Dup3(int(null.Fd()), 2, 0)
			defer func() {
				syscall.Dup3(old, 2, 0)
				syscall.Close(old)
			}()
		}
	}
	core.Debug.ParserDebug = true
	defer func() { core.Debug.ParserDebug = false }()
	f()
}

// inputs of the process-wide memory: what they gave first they must give always
type remembered struct {
	which int
	in    []byte
	out   string
}

var (
	memoOnce sync.Once
	memo     []remembered
)

func init() {
	one := func(which int, in []byte) (out string) {
		if p := mon.Try(func() { out = callEntry(parser.NewStringMsgParser(), which, append([]byte(nil), in...)) }); p != "" {
			return p
		}
		return out
	}
	mon.Register(&mon.Prop{
		ID:    "S11",
		Quick: 3,
		Rule:  "a case is one history of calls on one parser instance (well-formed, damaged and empty messages, headers, URIs, addresses, hosts, lines, with and without an error handler); it counts when each result was compared, in all its fields and its encoding, with that of a fresh parser and the caller's buffer checked; distinct cases are distinct histories",
		Handlers: map[string]mon.Handler{
			"history": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				p := parser.NewStringMsgParser()
				var hist strings.Builder
				var pool [][]byte // inputs already used, to be repeated
				var which []int
				for n := 3 + g.N(10); n > 0; n-- {
					w := 0
					if !g.P(2) {
						w = g.N(len(entryNames))
					}
					in := anyInput(g, w)
					if len(pool) > 0 && g.P(3) {
						i := g.N(len(pool))
						in, w = pool[i], which[i]
					}
					pool, which = append(pool, in), append(which, w)
					var want, got string
					buf := append(make([]byte, 0, len(in)+16), in...)
					buf = append(buf, "sentinel"...)[:len(in)]
					if w < 2 && g.P(5) { // a handler for this one
						q := parser.NewStringMsgParser()
						a, b := &swallow{}, &swallow{}
						q.SetParseExceptionListener(a)
						p.SetParseExceptionListener(b)
						pa := mon.Try(func() { want = callEntry(q, w, append([]byte(nil), in...)) })
						pb := mon.Try(func() { got = callEntry(p, w, buf) })
						p.SetParseExceptionListener(nil)
						want, got = want+pa, got+pb
						if a.n != b.n {
							c.Failf("handler-calls", "the handler was called %d times, with a fresh parser %d times\n%q", b.n, a.n, in)
							return
						}
					} else {
						want = one(w, in)
						pb := mon.Try(func() { got = callEntry(p, w, buf) })
						got += pb
					}
					if got != want {
						c.Failf("history:"+entryNames[w], "%s of %q gives\n%s\nwith a fresh parser\n%s\nafter%s", entryNames[w], in, got, want, hist.String())
						return
					}
					if !bytes.Equal(buf, in) || string(buf[:len(in)+8][len(in):]) != "sentinel" {
						c.Failf("buffer", "the caller's buffer was modified by parsing %q: %q", in, buf)
						return
					}
					hist.WriteString("\n  " + entryNames[w] + " " + string(clip(in)))
					c.Count(entryNames[w], 1)
					if strings.HasPrefix(got, "error") {
						c.Count("rejected inputs", 1)
					} else {
						c.Count("accepted inputs", 1)
					}
				}
				c.Key(hist.String())
			},
			"alias": func(c *mon.C, data []byte) { // the result does not share memory with the buffer
				g := gen.New(c.RNG())
				m := g.Msg(gen.MsgOpt{Extra: 4, Repeat: g.P(2)})
				if len(m.Body) == 0 && g.P(2) {
					m.Body = bodyOf(g)
					m.CLAt = 0
				}
				buf := m.Wire()
				in := append([]byte(nil), buf...)
				p := parser.NewStringMsgParser()
				x, err := p.ParseSIPMessageFromByte(buf)
				if err != nil || x == nil {
					c.Failf("rejected", "well-formed message rejected: %v\n%q", err, in)
					return
				}
				before := sumMsg(x, nil)
				if !bytes.Equal(buf, in) {
					c.Failf("buffer", "the caller's buffer was modified\n%q", in)
					return
				}
				for i := range buf {
					buf[i] ^= byte(1 + g.N(255))
				}
				if after := sumMsg(x, nil); after != before {
					c.Failf("aliased", "overwriting the caller's buffer changes the message\nbefore %s\nafter %s", before, after)
					return
				}
				// nor with what the same parser does next
				other := g.Msg(gen.MsgOpt{Extra: 3}).Wire()
				y, _ := p.ParseSIPMessageFromByte(other)
				if after := sumMsg(x, nil); after != before {
					c.Failf("aliased-parser", "parsing another message changes the first\nbefore %s\nafter %s", before, after)
					return
				}
				// nor with another message of the same bytes
				z, err := parseMsg(in)
				if err != nil || z == nil || sumMsg(z, nil) != before {
					c.Failf("repeat", "parsing the same bytes again differs (%v)\n%q", err, in)
					return
				}
				if w, ok := z.(contentSetter); ok {
					w.SetMessageContent("something else entirely")
					w.RemoveHeader("Via")
					w.RemoveHeader("To")
				}
				if after := sumMsg(x, nil); after != before {
					c.Failf("aliased-message", "editing another message of the same bytes changes the first\nbefore %s\nafter %s", before, after)
					return
				}
				_ = y
				c.Key(string(in))
				c.Count("buffers overwritten", 1)
			},
			"edited": func(c *mon.C, data []byte) { // editing one result changes no other
				g := gen.New(c.RNG())
				p := parser.NewStringMsgParser()
				w := g.N(len(entryNames))
				in := []byte(entryText(g, w))
				parse := func(p *parser.StringMsgParser) parsed {
					r, err := parseEntry(p, w, append([]byte(nil), in...))
					if err != nil || r.obj == nil {
						c.Failf("rejected", "well-formed %s %q rejected: %v", entryNames[w], in, err)
					}
					return r
				}
				a := parse(p)
				if a.obj == nil {
					return
				}
				want := a.sum()
				b := parse(p)
				if b.obj == nil {
					return
				}
				calls := scramble(g, b.obj)
				if got := a.sum(); got != want {
					c.Failf("shared:"+entryNames[w], "editing one result of %s of %q changes another, to\n%s\nfrom\n%s\n%s", entryNames[w], in, got, want, calls)
					return
				}
				for _, q := range []*parser.StringMsgParser{p, parser.NewStringMsgParser()} {
					d := parse(q)
					if d.obj == nil {
						return
					}
					if got := d.sum(); got != want {
						c.Failf("kept:"+entryNames[w], "after editing one result, %s of %q gives\n%s\nbefore\n%s\n%s", entryNames[w], in, got, want, calls)
						return
					}
				}
				// nor do the headers of one message share anything
				if x, ok := a.obj.(message.Message); ok {
					hs := headersOf(x)
					if len(hs) > 1 {
						i := g.N(len(hs))
						var before []string
						for _, h := range hs {
							before = append(before, sumHeader(h, nil))
						}
						calls = scramble(g, hs[i])
						for j, h := range hs {
							if got := sumHeader(h, nil); j != i && got != before[j] {
								c.Failf("shared-headers", "editing %s changes %s, to\n%s\nfrom\n%s\nin\n%s\n%s", hs[i].GetName(), h.GetName(), got, before[j], in, calls)
								return
							}
						}
						c.Count("headers edited", 1)
					}
				}
				c.Key(string(in))
				c.Count("results edited", 1)
				c.Count("edits of results", len(calls))
			},
			"elements": func(c *mon.C, data []byte) { // equal parts of one message share nothing
				g := gen.New(c.RNG())
				var in string
				if g.P(2) { // one value several times
					k := gen.Kinds[g.N(len(gen.Kinds))]
					for !k.List || k.NoComma {
						k = gen.Kinds[g.N(len(gen.Kinds))]
					}
					l := g.Line(k, 1)
					for n := 1 + g.N(3); n > 0; n-- {
						l.Vals = append(l.Vals, l.Vals[0])
					}
					if g.P(2) {
						l.Vals = append(l.Vals, k.Gen(g), l.Vals[0])
					}
					if g.P(2) {
						in = l.Plain() + "\r\n"
					} else {
						for _, v := range l.Vals {
							in += (&gen.Line{K: k, Vals: []*gen.Val{v}}).Plain() + "\r\n"
						}
					}
					v := "Via: SIP/2.0/UDP h;branch=z9hG4bK1\r\n"
					if k.Name == "Via" {
						v = ""
					}
					in = "OPTIONS sip:a@b SIP/2.0\r\n" + v + "From: <sip:a@b>;tag=1\r\nTo: <sip:c@d>\r\nCall-ID: 1@h\r\nCSeq: 1 OPTIONS\r\nMax-Forwards: 70\r\n" + in + "\r\n"
				} else { // one URI, one text, one set of parameters everywhere
					u := g.URI(gen.URIOpt{SIPOnly: true}).Text()
					a := gen.Plain(g.QText(1))
					t := g.Word()
					ps := ";" + g.Name() + "=" + g.Word()
					ad := func() string { return g.Pick("", "\""+a+"\" ") + "<" + u + ">" }
					in = "OPTIONS " + u + " SIP/2.0\r\nVia: SIP/2.0/UDP " + t + ";branch=z9hG4bK" + t + "\r\nVia: SIP/2.0/UDP " + t + ";branch=z9hG4bK" + t + "\r\nFrom: " + ad() + ";tag=" + t + "\r\nTo: " + ad() + ";tag=" + t + "\r\nCall-ID: " + t + "\r\nCSeq: 1 OPTIONS\r\nMax-Forwards: 70\r\n"
					for _, n := range []string{"Contact", "Route", "Record-Route", "Refer-To", "Reply-To"} {
						in += n + ": " + ad() + ps + "\r\n"
						if n != "Refer-To" && n != "Reply-To" && g.P(2) {
							in += n + ": " + ad() + ps + "\r\n"
						}
					}
					for _, n := range []string{"Alert-Info", "Call-Info", "Error-Info"} {
						in += n + ": <" + u + ">" + ps + "\r\n"
						if g.P(2) {
							in += n + ": <" + u + ">" + ps + ", <" + u + ">" + ps + "\r\n"
						}
					}
					in += "Authorization: Digest username=\"" + t + "\", realm=\"" + t + "\", uri=\"" + u + "\"\r\nProxy-Authorization: Digest username=\"" + t + "\", realm=\"" + t + "\", uri=\"" + u + "\"\r\n"
					in += "Subject: " + t + "\r\nOrganization: " + t + "\r\nAccept: " + t + "/" + t + ps + ", " + t + "/" + t + ps + "\r\nContent-Type: " + t + "/" + t + ps + "\r\nSupported: " + t + ", " + t + "\r\nRequire: " + t + "\r\nEvent: " + t + ps + "\r\nReason: " + t + ps + "\r\n"
					in += "\r\n"
				}
				x, err := parser.NewStringMsgParser().ParseSIPMessage(in)
				if err != nil {
					c.Failf("rejected", "well-formed message rejected: %v\n%s", err, in)
					return
				}
				hs := headersOf(x)
				var before []string
				for _, h := range hs {
					before = append(before, sumHeader(h, nil))
				}
				start := gen.ObsStart(x)
				i := g.N(len(hs) + 1)
				var calls []string
				what := "the start line"
				if i == len(hs) {
					if r, ok := x.(*message.SIPRequest); ok {
						calls = scramble(g, r.GetRequestURI())
					}
				} else {
					what = hs[i].GetName()
					calls = scramble(g, hs[i])
					if got := gen.ObsStart(x); strings.Join(got, "\n") != strings.Join(start, "\n") {
						c.Failf("elements:start", "editing %s changes the start line, to\n%v\nfrom\n%v\nin\n%s\n%s", what, got, start, in, calls)
						return
					}
				}
				for j, h := range hs {
					if got := sumHeader(h, nil); j != i && got != before[j] {
						c.Failf("elements:"+h.GetName(), "editing %s (%d) changes %s (%d), to\n%s\nfrom\n%s\nin\n%s\n%s", what, i, h.GetName(), j, got, before[j], in, calls)
						return
					}
				}
				c.Key(in)
				c.Count("messages of equal parts edited", 1)
			},
			"respelled": func(c *mon.C, data []byte) { // what was parsed before in other letters leaves no trace
				g := gen.New(c.RNG())
				m := g.Msg(gen.MsgOpt{Extra: 3})
				w := m.Wire()
				turn := func(f func(byte) byte) []byte {
					b := append([]byte(nil), w...)
					for i := range b {
						b[i] = f(b[i])
					}
					return b
				}
				up := func(b byte) byte {
					if b >= 'a' && b <= 'z' {
						b -= 32
					}
					return b
				}
				down := func(b byte) byte {
					if b >= 'A' && b <= 'Z' {
						b += 32
					}
					return b
				}
				swap := func(b byte) byte {
					if u := up(b); u != b {
						return u
					}
					return down(b)
				}
				p := parser.NewStringMsgParser()
				p.SetParseExceptionListener(&swallow{})
				for n := 1 + g.N(3); n > 0; n-- {
					b := turn([]func(byte) byte{up, down, swap, func(b byte) byte {
						if g.P(2) {
							return swap(b)
						}
						return b
					}}[g.N(4)])
					first := m.Start()
					if g.P(4) {
						first = "OPTIONS sip:x SIP/2.0"
					}
					b = append([]byte(first+"\r\n"), b[bytes.IndexByte(b, '\n')+1:]...)
					c.Guard("parse", func() { p.ParseSIPMessageFromByte(b) })
				}
				x, err := parser.NewStringMsgParser().ParseSIPMessageFromByte(w)
				if err != nil {
					c.Failf("respelled", "rejected after messages that differ in letter case: %v\n%q", err, w)
					return
				}
				if d := diff(m.Want(), gen.ObserveMsg(x)); d != "" {
					c.Failf("respelled", "read otherwise after messages that differ in letter case, %s\n%q", d, w)
					return
				}
				if s := x.String(); s != m.Canon() {
					c.Failf("respelled", "encoded otherwise after messages that differ in letter case: %q, expected %q", s, m.Canon())
					return
				}
				c.Key(string(w))
				c.Count("messages read after others in other letters", 1)
			},
			"refilled": func(c *mon.C, data []byte) { // one buffer for everything that arrives
				g := gen.New(c.RNG())
				p := parser.NewStringMsgParser()
				buf := make([]byte, 0, 1<<16)
				var hist strings.Builder
				in := anyInput(g, 0)
				if g.P(4) {
					in = []byte("SIP/2.0 " + g.Pick("100 Trying", "200 OK", "180 Ringing") + "\r\nCall-ID: " + g.Token() + "\r\nCSeq: 1 INVITE\r\n\r\n")
				}
				for n := 2 + g.N(4); n > 0; n-- {
					if len(in) > cap(buf) {
						return
					}
					buf = append(buf[:0], in...)
					var got string
					pb := mon.Try(func() { got = callEntry(p, 0, buf) })
					want := one(0, in)
					if got += pb; got != want {
						c.Failf("refilled", "a buffer that now holds %q gives\n%s\nwith a fresh parser and a copy\n%s\nafter%s", in, got, want, hist.String())
						return
					}
					if !bytes.Equal(buf, in) {
						c.Failf("buffer", "the caller's buffer was modified by parsing %q: %q", in, buf)
						return
					}
					hist.WriteString("\n  " + string(clip(in)))
					c.Count("buffers used again", 1)
					// the next is another, the same, or one of the same length
					switch g.N(4) {
					case 0:
						in = anyInput(g, 0)
					case 1:
					default:
						next := append([]byte(nil), in...)
						for k := 1 + g.N(3); k > 0 && len(next) > 0; k-- {
							i := g.N(len(next))
							switch b := next[i]; {
							case b >= '0' && b <= '9':
								next[i] = "0123456789"[g.N(10)]
							case b >= 'a' && b <= 'z':
								next[i] = "abcdefghijklmnopqrstuvwxyz"[g.N(26)]
							}
						}
						in = next
					}
				}
				c.Key(hist.String())
			},
			"traced": func(c *mon.C, data []byte) { // the parser's trace changes nothing
				g := gen.New(c.RNG())
				for i := 0; i < 4; i++ {
					w := g.N(len(entryNames))
					in := anyInput(g, w)
					want := one(w, in)
					var got string
					trace(func() { got = one(w, in) })
					if got != want {
						c.Failf("traced:"+entryNames[w], "%s of %q gives\n%s\nand while the parser is traced\n%s", entryNames[w], in, want, got)
						return
					}
					c.Key(string(in))
				}
				c.Count("traced parses", 4)
			},
			"global": func(c *mon.C, data []byte) { // what inputs gave first in this process they give always
				memoOnce.Do(func() {
					g := gen.New(c.RNG())
					for i := 0; i < 400; i++ {
						w := i % len(entryNames)
						in := anyInput(g, w)
						memo = append(memo, remembered{w, in, one(w, in)})
					}
				})
				g := gen.New(c.RNG())
				for i := 0; i < 5; i++ {
					w := g.N(len(entryNames))
					one(w, anyInput(g, w))
				}
				for i := 0; i < 20; i++ {
					r := memo[g.N(len(memo))]
					if got := one(r.which, r.in); got != r.out {
						c.Failf("global:"+entryNames[r.which], "%s of %q gave first\n%s\nand later\n%s", entryNames[r.which], r.in, r.out, got)
						return
					}
				}
				c.Key(string(data))
				c.Count("repetitions compared", 20)
			},
		},
		Plan: func(p *mon.Plan) {
			p.Seeds("traced", p.N(1500, 40000))
			p.Seeds("refilled", p.N(8000, 300000))
			p.Seeds("edited", p.N(12000, 400000))
			p.Seeds("elements", p.N(12000, 400000))
			p.Seeds("respelled", p.N(5000, 200000))
			p.Seeds("history", p.N(25000, 1000000))
			p.Seeds("alias", p.N(12000, 400000))
			p.Seeds("global", p.N(6000, 200000))
		},
		MinEvents: append([]string{"accepted inputs", "rejected inputs", "buffers overwritten", "repetitions compared", "buffers used again", "messages read after others in other letters", "traced parses", "results edited", "headers edited", "messages of equal parts edited", "edits of results"}, entryNames...),
	})
}
