package props

import (
	"bytes"
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"
)

// roundTrip checks encode, parse, encode on a message that was accepted.
func roundTrip(c *mon.C, what string, x gen.Message, wire []byte) (enc string, ok bool) {
	enc = x.String()
	eb := x.(interface{ EncodeAsBytes() []byte }).EncodeAsBytes()
	if enc != string(eb) {
		c.Failf("text-bytes", "%s: text and byte encodings differ\n%q\n%q", what, enc, eb)
		return
	}
	if again := x.String(); again != enc {
		c.Failf("unstable", "%s: encoding twice differs\n%q\n%q", what, enc, again)
		return
	}
	y, err := parseMsg([]byte(enc))
	if err != nil || y == nil {
		c.Failf("reparse", "%s: the encoding is rejected: %v\nwire     %q\nencoding %q", what, err, wire, enc)
		return
	}
	if d := diff(gen.ObserveMsg(x), gen.ObserveMsg(y)); d != "" {
		c.Failf("reparse-differs", "%s: the re-parsed message differs, %s\nwire     %q\nencoding %q", what, d, wire, enc)
		return
	}
	if e2 := y.String(); e2 != enc {
		c.Failf("fixpoint", "%s: encoding is not a fixpoint\nfirst  %q\nsecond %q\nwire   %q", what, enc, e2, wire)
		return
	}
	return enc, true
}

func init() {
	gm := func(c *mon.C, m *gen.Msg, wire []byte) {
		x := checkMsg(c, "message", m, wire)
		if x == nil {
			return
		}
		enc, ok := roundTrip(c, "message", x, wire)
		if !ok {
			return
		}
		if want := m.Canon(); enc != want {
			c.Failf("encoding", "encoding %q\nexpected %q\nwire %q", enc, want, wire)
			return
		}
		c.Key(string(wire))
		if m.Req {
			c.Count("requests", 1)
		} else {
			c.Count("responses", 1)
		}
		if len(m.Body) > 0 {
			c.Count("with body", 1)
		}
		c.Count("header lines", len(m.Lines))
		if c.WantSample() {
			c.Sample("%q", wire)
		}
	}
	mon.Register(&mon.Prop{
		ID:    "S04",
		Quick: 2,
		Rule:  "a case is one generated message (any start line, any mix of header kinds in any order and spelling, any body); it counts when the parsed message agreed with the model, its encoding with the model's, and re-parsing and re-encoding were compared; distinct cases are distinct wire texts",
		Handlers: map[string]mon.Handler{
			"message": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				m := g.Msg(gen.MsgOpt{Extra: 10, Repeat: g.P(2)})
				if g.P(3) {
					gm(c, m, m.Spelled(g, g.Pick("\r\n", "\n")))
				} else {
					gm(c, m, m.Wire())
				}
			},
			"every": func(c *mon.C, data []byte) { // a message with every header kind
				g := gen.New(c.RNG())
				m := g.Msg(gen.MsgOpt{Extra: 0})
				have := map[string]bool{}
				for _, l := range m.Lines {
					have[l.K.Name] = true
				}
				for _, i := range g.R.Perm(len(gen.Kinds)) {
					k := gen.Kinds[i]
					if have[k.Name] || k.Name == "Content-Length" {
						continue
					}
					m.Lines = append(m.Lines, g.Line(k, 2))
				}
				if m.CLAt >= 0 {
					m.CLAt = g.N(len(m.Lines) + 1)
				}
				gm(c, m, m.Wire())
				c.Count("messages with every header kind", 1)
			},
			"text": func(c *mon.C, data []byte) { // literal messages
				x, err := parseMsg(data)
				if err != nil || x == nil {
					c.Failf("rejected", "well-formed message rejected: %v\n%q", err, data)
					return
				}
				c.Guard("round trip", func() {
					if _, ok := roundTrip(c, "literal", x, data); ok {
						c.Key(string(data))
						c.Count("literal messages", 1)
					}
				})
			},
			"big": func(c *mon.C, data []byte) { // long lists, many headers, long values, big bodies
				g := gen.New(c.RNG())
				m := g.Msg(gen.MsgOpt{Extra: 4, MaxVals: 1})
				add := func(k *gen.Kind, n int) {
					l := &gen.Line{K: k}
					for ; n > 0; n-- {
						l.Vals = append(l.Vals, k.Gen(g))
					}
					m.Lines = append(m.Lines, l)
				}
				switch g.N(4) {
				case 0:
					add(gen.KindOf("Via"), 50+g.N(150))
				case 1:
					add(gen.KindOf("Record-Route"), 50+g.N(150))
					add(gen.KindOf("Route"), 50+g.N(150))
				case 2:
					for i := 0; i < 200; i++ {
						m.Lines = append(m.Lines, g.Line(gen.ExtKind(fmt.Sprintf("X-%d", i)), 1))
					}
				case 3:
					m.Body = bytes.Repeat([]byte(g.Chars("ab\r\n\x00\xff", 97)), 1+g.N(800))
				}
				m.CLAt = len(m.Lines)
				gm(c, m, m.Wire())
				c.Count("big messages", 1)
			},
		},
		Plan: func(p *mon.Plan) {
			for _, t := range torture {
				p.Case("text", []byte(strings.ReplaceAll(t, "\n", "\r\n")))
			}
			p.Seeds("message", p.N(60000, 2500000))
			p.Seeds("every", p.N(3000, 100000))
			p.Seeds("big", p.N(300, 10000))
		},
		MinEvents: []string{"requests", "responses", "with body", "messages with every header kind", "literal messages", "big messages"},
	})
}

// torture are well-formed messages written by hand.
var torture = []string{
	`INVITE sip:vivekg@chair-dnrc.example.com;unknownparam SIP/2.0
TO :
  sip:vivekg@chair-dnrc.example.com ;   tag    = 1918181833n
from   : "J Rosenberg \\\""       <sip:jdrosen@example.com>
  ;
  tag = 98asjd8
MaX-fOrWaRdS: 0068
Call-ID: wsinv.ndaksdj@192.0.2.1
cseq: 0009
  INVITE
Via  : SIP  /   2.0
   /UDP
    192.0.2.2;branch=390skdjuw
s :
NewFangledHeader:   newfangled value
  continued newfangled value
UnknownHeaderWithUnusualValue: ;;,,;;,;
Content-Type: application/sdp
Route:
  <sip:services.example.com;lr;unknownwith=value;unknown-no-value>
v:  SIP  / 2.0  / TCP     spindle.example.com   ;
  branch  =   z9hG4bK9ikj8  ,
  SIP  /    2.0   / UDP  192.168.255.111   ; branch=
  z9hG4bK30239
m:"Quoted string \"\"" <sip:jdrosen@example.com> ; newparam =
  newvalue ;
   secondparam ; q = 0.33
l: 150

v=0
o=mhandley 29739 7272939 IN IP4 192.0.2.3
s=-
c=IN IP4 192.0.2.4
t=0 0
m=audio 49217 RTP/AVP 0 12
m=video 3227 RTP/AVP 31
a=rtpmap:31 LPC
`,
	`REGISTER sip:ss2.wcom.com SIP/2.0
Via: SIP/2.0/TLS there.com:5061;branch=z9hG4bK74b01
From: Bob <sip:UserB@there.com>;tag=73829
To: Bob <sip:UserB@there.com>
Call-ID: 1j9FpLxk3uxtm8tn@there.com
CSeq: 2 REGISTER
Max-Forwards: 70
Contact: <sip:UserB@there.com>;expires=3600, <sip:+1-972-555-2222@gw1.wcom.com;user=phone>, <tel:+1-972-555-2222>
Authorization: Digest username="UserB",realm="MCI WorldCom SIP",nonce="1cec4341ae6cbe5a359ea9c8e88df84f",opaque="",uri="sip:ss2.wcom.com",response="71ba27c64bd01de719686aa4590d5824"
Content-Length: 0

`,
	`SIP/2.0 407 Proxy Authorization Required
Via: SIP/2.0/UDP ss1.wcom.com:5060;branch=z9hG4bK83749.1, SIP/2.0/UDP here.com:5060;branch=z9hG4bK74bf9;received=192.0.2.101
From: BigGuy <sip:UserA@here.com>;tag=9fxced76sl
To: LittleGuy <sip:UserB@there.com>;tag=3flal12sf
Call-ID: 12345601@here.com
CSeq: 1 INVITE
Proxy-Authenticate: Digest realm="MCI WorldCom SIP", domain="wcom.com", nonce="wf84f1ceczx41ae6cbe5aea9c8e88d359", opaque="", stale=FALSE, algorithm=MD5
Content-Length: 0

`,
	`OPTIONS sip:user;par=u%40example.net@example.com SIP/2.0
To: sip:j_user@example.com
From: sip:caller@example.org;tag=33242
Max-Forwards: 3
Call-ID: semiuri.0ha0isndaksdj
CSeq: 8 OPTIONS
Accept: application/sdp, application/pkcs7-mime, multipart/mixed, message/sip
Via: SIP/2.0/UDP 192.0.2.1;branch=z9hG4bKkdjuw
l: 0

`,
	`!INTERESTING-METHOD0123456789_*+` + "`" + `.%INDEED'~ sip:1_unusual.URI~(to-be!sure)&isn't+it$/crazy?,/;;*:&it+has=1,weird!*pas$wo~d_too.(doesn't-it)@example.com SIP/2.0
Via: SIP/2.0/TCP host1.example.com;branch=z9hG4bK-.!%66*_+` + "`" + `'~
To: "BEL:\a NUL:\. DEL:\~" <sip:1_unusual.URI~(to-be!sure)&isn't+it$/crazy?,/;;*@example.com>
From: token1~` + "`" + ` token2'+_ token3*%!.- <sip:mundane@example.com>;fromParam''~+*_!.-%="P";tag=_token~1'+` + "`" + `*%!-.
Call-ID: intmeth.word%ZK-!.*_+'@word` + "`" + `~)(><:\/"][?}{
CSeq: 139122385 !INTERESTING-METHOD0123456789_*+` + "`" + `.%INDEED'~
Max-Forwards: 255
extensionHeader-!.%*+_` + "`" + `'~: x
Content-Length: 0

`,
	`SIP/2.0 200 = 2**3 * 5**2 no 100%
Via: SIP/2.0/UDP 192.0.2.198;branch=z9hG4bK1324923
Call-ID: unreason.1234ksdfak3j2erwedfsASdf
CSeq: 35 INVITE
From: sip:user@example.com;tag=11141343
To: sip:user@example.edu;tag=2229
Content-Length: 154
Content-Type: application/sdp
Contact: <sip:user@host198.example.com>

v=0
o=mhandley 29739 7272939 IN IP4 192.0.2.198
s=-
c=IN IP4 192.0.2.198
t=0 0
m=audio 49217 RTP/AVP 0 12
m=video 3227 RTP/AVP 31
a=rtpmap:31 LPC
`,
	`REGISTER sip:a@b.c SIP/2.0
Via: SIP/2.0/UDP h.i;branch=z9hG4bKx
From: <sip:f@g.h>;tag=1
To: <sip:t@g.h>
Call-ID: q@w
CSeq: 7 REGISTER
Max-Forwards: 70
Contact: *
Expires: 0
Content-Length: 0

`,
	`OPTIONS sip:a@b.c SIP/2.0
Via: SIP/2.0/UDP h.i;branch=z9hG4bKx
From: sip:f@g.h;tag=1;flag
To: <sip:t@g.h>
Call-ID: q@w
CSeq: 7 OPTIONS
Max-Forwards: 70
Content-Length: 0

`,
	`poll sip:a@b.c SIP/2.0
Via: SIP/2.0/UDP h.i;branch=z9hG4bKx
From: <sip:f@g.h>;tag=1
To: <sip:t@g.h>
Call-ID: q@w
CSeq: 7 poll
Max-Forwards: 70
Content-Length: 0

`,
}
