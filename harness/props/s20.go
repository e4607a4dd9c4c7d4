package props

import (
	"container/list"
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/parser"
)

func names(l *list.List) []string {
	var o []string
	for e := l.Front(); e != nil; e = e.Next() {
		s, _ := e.Value.(string)
		o = append(o, s)
	}
	return o
}

// joinParams is the encoding of parameters; flags of headers carry an "=".
func joinParams(ps []gen.Param, sep string, eq bool) string {
	var o []string
	for _, p := range ps {
		switch p.Kind {
		case gen.Flag:
			if eq {
				o = append(o, p.Name+"=")
			} else {
				o = append(o, p.Name)
			}
		case gen.Tok:
			o = append(o, p.Name+"="+p.Val)
		case gen.Quo:
			o = append(o, p.Name+`="`+p.Val+`"`)
		}
	}
	return strings.Join(o, sep)
}

// paramHeader is what every header with parameters offers.
type paramHeader interface {
	header.Header
	EncodeBody() string
	GetParameter(string) string
	GetParameterValue(string) string
	GetParameterNames() *list.List
	GetParameters() *core.NameValueList
	GetNameValue(string) *core.NameValue
	HasParameter(string) bool
	HasParameters() bool
	RemoveParameter(string)
	RemoveParameters()
	SetParameter(name, value string) error
	SetQuotedParameter(name, value string)
	SetParameterFromNameValue(*core.NameValue)
	SetParameters(*core.NameValueList)
}

var paramBases = []struct {
	line    string
	reparse bool
}{
	{"From: <sip:u@h>", true}, {"To: <sip:u@h;x=y>", true}, {"Contact: \"A;b\" <sip:u@h>", true},
	{"Route: <sip:h;lr>", true}, {"Record-Route: <sip:h;lr>", true}, {"Reply-To: <sip:u@h>", true}, {"Refer-To: <sip:u@h>", true},
	{"Via: SIP/2.0/UDP h:5070", false}, {"Accept: text/plain", true}, {"Accept-Encoding: gzip", false}, {"Accept-Language: en", false},
	{"Content-Type: text/plain", true}, {"Content-Disposition: session", true}, {"Event: presence", true},
	{"Reason: SIP", true}, {"Call-Info: <http://a.b/c>", true}, {"Alert-Info: <http://a.b/c>", true}, {"Error-Info: <sip:a@b>", true},
	{"Retry-After: 120", false}, {"Subscription-State: active", false},
}

func init() {
	pnames := []string{"a", "b", "c", "x-y", "Long.Name", "z1", "v!", "foo"}
	pick := func(g *gen.G) string {
		n := pnames[g.N(len(pnames))]
		return g.Pick(n, n, strings.ToUpper(n), strings.ToLower(n))
	}
	hist := func(h []string) string {
		if len(h) > 16 {
			h = append([]string{"..."}, h[len(h)-16:]...)
		}
		return strings.Join(h, "; ")
	}
	// bare lists
	lists := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		sep := g.Pick(";", ";", ",", "&")
		l := core.NewNameValueList("l")
		if sep != ";" {
			l.SetSeparator(sep)
		}
		var m []gen.Param
		var h []string
		for n := 2 + g.N(24); n > 0; n-- {
			c.Guard("list operation", func() {
				nm := pick(g)
				p := gen.Param{Name: nm, Val: g.Token(), Kind: gen.Tok}
				mk := func() *core.NameValue {
					switch g.N(3) {
					case 0:
						p.Kind, p.Val = gen.Flag, ""
						return core.NewNameValue(nm, nil)
					case 1:
						p.Kind, p.Val = gen.Quo, g.QText(0)
						nv := core.NewNameValue(nm, p.Val)
						nv.SetQuotedValue()
						return nv
					}
					return core.NewNameValue(nm, p.Val)
				}
				switch g.N(9) {
				case 0, 1:
					if g.P(3) {
						p.Kind, p.Val = gen.Flag, ""
						l.SetNameAndValue(nm, nil)
					} else {
						l.SetNameAndValue(nm, p.Val)
					}
					m = last(m, p)
					h = append(h, "SetNameAndValue "+nm+"="+p.Val)
				case 2, 3:
					l.SetNameValue(mk())
					m = last(m, p)
					h = append(h, fmt.Sprintf("SetNameValue %v", p))
				case 4:
					if findParam(m, nm) >= 0 {
						return
					}
					if g.P(2) {
						l.AddNameValue(mk())
					} else {
						if g.P(3) {
							p.Kind, p.Val = gen.Flag, ""
							l.AddNameAndValue(nm, nil)
						} else {
							l.AddNameAndValue(nm, p.Val)
						}
					}
					m = append(m, p)
					h = append(h, fmt.Sprintf("AddNameValue %v", p))
				case 5, 6:
					was := findParam(m, nm) >= 0
					m = delParam(m, nm)
					if r := l.Delete(nm); r != was {
						c.Failf("delete", "Delete(%s) returned %v, was present %v\nafter %s", nm, r, was, hist(h))
					}
					h = append(h, "Delete "+nm)
				case 7: // join with another list of other names
					o := core.NewNameValueList("o")
					var om []gen.Param
					for i := g.N(3); i > 0; i-- {
						on := fmt.Sprintf("o%d", len(h)*4+i)
						o.SetNameAndValue(on, "v")
						om = append(om, gen.Param{Name: on, Val: "v", Kind: gen.Tok})
					}
					top := g.P(2)
					l.Concatenate(o, top)
					if top {
						m = append(append([]gen.Param(nil), om...), m...)
					} else {
						m = append(m, om...)
					}
					if o.String() != joinParams(om, ";", false) {
						c.Failf("concatenate", "the list joined to another one changed to %q", o.String())
					}
					h = append(h, fmt.Sprintf("Concatenate %v %v", om, top))
				case 8: // edit in place
					if i := findParam(m, nm); i >= 0 {
						v := g.Token()
						l.GetNameValue(nm).SetValue(v)
						m = append([]gen.Param(nil), m...)
						m[i].Val = v
						if m[i].Kind == gen.Flag {
							m[i].Kind = gen.Tok
						}
						h = append(h, "SetValue "+nm+"="+v)
					}
				}
				c.Count("list operations", 1)
			})
			if c.Failed() {
				return
			}
			c.Guard("list reading", func() {
				if s := l.String(); s != joinParams(m, sep, false) {
					c.Failf("list encoding", "list encoded as %q, expected %q\nafter %s", s, joinParams(m, sep, false), hist(h))
				}
				var wn []string
				for _, p := range m {
					wn = append(wn, p.Name)
				}
				if d := diff(wn, names(l.GetNames())); d != "" {
					c.Failf("list names", "%s\nafter %s", d, hist(h))
				}
				for _, nm := range append([]string{"none"}, pnames...) {
					i := findParam(m, nm)
					nv, v, has, s := l.GetNameValue(nm), l.GetValue(nm), l.HasNameValue(nm), l.GetParameter(nm)
					switch {
					case i < 0:
						if nv != nil || v != nil || has || s != "" {
							c.Failf("list lookup", "absent %s: %v %v %v %q\nafter %s", nm, nv, v, has, s, hist(h))
						}
					case nv == nil || !has || nv.IsValueQuoted() != (m[i].Kind == gen.Quo) || nv.GetName() != m[i].Name || s != m[i].Val ||
						(v == nil) != (m[i].Kind == gen.Flag) || v != nil && v.(string) != m[i].Val:
						c.Failf("list lookup", "%s: %v %v %v %q, expected %v\nafter %s", nm, nv, v, has, s, m[i], hist(h))
					}
				}
			})
			if c.Failed() {
				return
			}
			c.Key(l.String())
		}
		c.Count("list histories", 1)
	}
	// headers
	headers := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		bi := g.N(len(paramBases))
		b := paramBases[bi]
		hd, err := parseLine(b.line)
		if err != nil {
			c.Failf("base", "%q rejected: %v", b.line, err)
			return
		}
		x, ok := oneHeader(hd, 0).(paramHeader)
		if !ok {
			c.Failf("base", "%q has no parameters", b.line)
			return
		}
		kind := b.line[:strings.IndexByte(b.line, ':')]
		base := x.EncodeBody()
		var m []gen.Param
		h := []string{b.line}
		var other *core.NameValueList
		for n := 2 + g.N(24); n > 0; n-- {
			c.Guard("header operation", func() {
				nm := pick(g)
				v := g.Token()
				switch g.N(11) {
				case 10:
					p := gen.Param{Name: nm, Val: v, Kind: gen.Tok}
					nv := core.NewNameValue(nm, v)
					if g.P(2) {
						p.Kind, p.Val = gen.Quo, g.QText(0)
						nv = core.NewNameValue(nm, p.Val)
						nv.SetQuotedValue()
					}
					x.SetParameterFromNameValue(nv)
					m = keep(m, p)
					h = append(h, fmt.Sprintf("SetParameterFromNameValue %v", p))
				case 0, 1, 2, 3:
					if err := x.SetParameter(nm, v); err != nil {
						c.Failf("set:"+kind, "SetParameter(%s,%s): %v\nafter %s", nm, v, err, hist(h))
					}
					p := gen.Param{Name: nm, Val: v, Kind: gen.Tok}
					if i := findParam(m, nm); i >= 0 && m[i].Kind == gen.Quo {
						p.Kind = gen.Quo
					}
					m = keep(m, p)
					h = append(h, "SetParameter "+nm+"="+v)
				case 4, 5:
					v = g.QText(0)
					x.SetQuotedParameter(nm, v)
					m = keep(m, gen.Param{Name: nm, Val: v, Kind: gen.Quo})
					h = append(h, "SetQuotedParameter "+nm+"="+v)
				case 6, 7:
					x.RemoveParameter(nm)
					m = delParam(m, nm)
					h = append(h, "RemoveParameter "+nm)
				case 8:
					if g.P(3) {
						x.RemoveParameters()
						m = nil
						h = append(h, "RemoveParameters")
					}
				case 9:
					if g.P(3) {
						other = core.NewNameValueList("p")
						if kind == "Accept-Encoding" || kind == "Accept" {
							other.SetSeparator(";")
						}
						m = nil
						for _, i := range g.R.Perm(len(pnames))[:g.N(4)] {
							other.SetNameAndValue(pnames[i], "s")
							m = append(m, gen.Param{Name: pnames[i], Val: "s", Kind: gen.Tok})
						}
						x.SetParameters(other)
						h = append(h, fmt.Sprintf("SetParameters %v", m))
					}
				}
				c.Count("header operations", 1)
			})
			if c.Failed() {
				return
			}
			c.Guard("header reading", func() {
				want := base
				if len(m) > 0 {
					want += ";" + joinParams(m, ";", true)
				}
				if s := x.EncodeBody(); s != want {
					c.Failf("header encoding:"+kind, "encoded as %q, expected %q\nafter %s", s, want, hist(h))
				}
				if s := x.String(); s != kind+": "+want+"\r\n" {
					c.Failf("header encoding:"+kind, "encoded as %q, expected value %q\nafter %s", s, want, hist(h))
				}
				if x.HasParameters() != (len(m) > 0) || x.GetParameters().Len() != len(m) {
					c.Failf("header count:"+kind, "HasParameters %v, %d of them, expected %d\nafter %s", x.HasParameters(), x.GetParameters().Len(), len(m), hist(h))
				}
				var wn []string
				for _, p := range m {
					wn = append(wn, p.Name)
				}
				if d := diff(wn, names(x.GetParameterNames())); d != "" {
					c.Failf("header names:"+kind, "%s\nafter %s", d, hist(h))
				}
				for _, nm := range append([]string{"none"}, pnames...) {
					i := findParam(m, nm)
					v, v2, has, nv := x.GetParameter(nm), x.GetParameterValue(nm), x.HasParameter(nm), x.GetNameValue(nm)
					if i < 0 && (v != "" || v2 != "" || has || nv != nil) ||
						i >= 0 && (v != m[i].Val || v2 != m[i].Val || !has || nv == nil || nv.IsValueQuoted() != (m[i].Kind == gen.Quo)) {
						c.Failf("header lookup:"+kind, "%s: %q %q %v %v, expected index %d of %v\nafter %s", nm, v, v2, has, nv, i, m, hist(h))
					}
				}
			})
			if c.Failed() {
				return
			}
		}
		if b.reparse {
			y, err := parseLine(strings.TrimSpace(x.String()))
			if err != nil {
				c.Failf("reparse:"+kind, "%q rejected: %v\nafter %s", x.String(), err, hist(h))
				return
			}
			z := oneHeader(y, 0).(paramHeader)
			if z.String() != x.String() || z.GetParameters().Len() != len(m) {
				c.Failf("reparse:"+kind, "%q parses to %q\nafter %s", x.String(), z.String(), hist(h))
			}
		}
		c.Count("header "+kind, 1)
		c.Key(x.String())
		if c.WantSample() {
			c.Sample("%s => %s", hist(h), x.EncodeBody())
		}
	}
	// URI parameters and URI headers
	uris := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		x, err := parser.NewStringMsgParser().ParseSIPUrl("sip:u@h")
		if err != nil {
			c.Failf("base", "%v", err)
			return
		}
		var m, q []gen.Param
		var h []string
		for n := 2 + g.N(24); n > 0; n-- {
			c.Guard("URI operation", func() {
				nm, v := pick(g), g.Chars("abcXYZ019-_.!~*'()", 1+g.N(5))
				switch g.N(9) {
				case 0, 1:
					x.SetParameter(nm, v)
					m = last(m, gen.Param{Name: nm, Val: v, Kind: gen.Tok})
					h = append(h, "SetParameter "+nm+"="+v)
				case 2:
					x.SetUriParm(nm, v)
					m = last(m, gen.Param{Name: nm, Val: v, Kind: gen.Tok})
					h = append(h, "SetUriParm "+nm+"="+v)
				case 3:
					x.SetUriParm(nm, nil)
					m = last(m, gen.Param{Name: nm, Kind: gen.Flag})
					h = append(h, "SetUriParm "+nm)
				case 4:
					x.SetDefaultParm(nm, v)
					if findParam(m, nm) < 0 {
						m = append(m, gen.Param{Name: nm, Val: v, Kind: gen.Tok})
					}
					h = append(h, "SetDefaultParm "+nm+"="+v)
				case 5, 6:
					x.RemoveParameter(nm)
					m = delParam(m, nm)
					h = append(h, "RemoveParameter "+nm)
				case 7:
					x.SetHeader(nm, v)
					q = keep(q, gen.Param{Name: nm, Val: v, Kind: gen.Tok})
					h = append(h, "SetHeader "+nm+"="+v)
				case 8:
					x.RemoveHeader(nm)
					q = delParam(q, nm)
					h = append(h, "RemoveHeader "+nm)
				}
				c.Count("URI operations", 1)
			})
			if c.Failed() {
				return
			}
			c.Guard("URI reading", func() {
				want := "sip:u@h"
				if len(m) > 0 {
					want += ";" + joinParams(m, ";", false)
				}
				if len(q) > 0 {
					want += "?" + joinParams(q, "&", false)
				}
				if s := x.String(); s != want {
					c.Failf("URI encoding", "encoded as %q, expected %q\nafter %s", s, want, hist(h))
				}
				var wn, qn []string
				for _, p := range m {
					wn = append(wn, p.Name)
				}
				for _, p := range q {
					qn = append(qn, p.Name)
				}
				if d := diff(wn, names(x.GetParameterNames())); d != "" {
					c.Failf("URI names", "%s\nafter %s", d, hist(h))
				}
				if d := diff(qn, names(x.GetHeaderNames().GetNames())); d != "" {
					c.Failf("URI header names", "%s\nafter %s", d, hist(h))
				}
				for _, nm := range append([]string{"none"}, pnames...) {
					i, j := findParam(m, nm), findParam(q, nm)
					v, has, hv := x.GetParameter(nm), x.HasParameter(nm), x.GetHeader(nm)
					if has != (i >= 0) || i >= 0 && v != m[i].Val || i < 0 && v != "" {
						c.Failf("URI lookup", "%s: %q %v, expected index %d of %v\nafter %s", nm, v, has, i, m, hist(h))
					}
					if j >= 0 && hv != q[j].Val || j < 0 && hv != "" {
						c.Failf("URI header lookup", "%s: %q, expected index %d of %v\nafter %s", nm, hv, j, q, hist(h))
					}
				}
			})
			if c.Failed() {
				return
			}
		}
		y, err := parser.NewURLParser(x.String()).Parse()
		if err != nil {
			c.Failf("reparse:URI", "%q rejected: %v", x.String(), err)
			return
		}
		if y.(*address.SipURIImpl).String() != x.String() {
			c.Failf("reparse:URI", "%q parses to %q", x.String(), y)
		}
		c.Count("URI histories", 1)
		c.Key(x.String())
	}
	ev := []string{"list histories", "URI histories"}
	for _, b := range paramBases {
		ev = append(ev, "header "+b.line[:strings.IndexByte(b.line, ':')])
	}
	mon.Register(&mon.Prop{
		ID:       "S20",
		Quick:    6,
		Rule:     "a case is one history of 2 to 25 operations on a parameter list, on the parameters of one of 20 kinds of header, or on those of a SIP URI; order, every lookup and the encoding are compared with an ordered-map model after every operation; distinct cases are distinct encodings",
		Handlers: map[string]mon.Handler{"list": lists, "header": headers, "uri": uris},
		Plan: func(p *mon.Plan) {
			p.Seeds("list", p.N(30000, 2000000))
			p.Seeds("header", p.N(60000, 4000000))
			p.Seeds("uri", p.N(30000, 2000000))
		},
		MinEvents: ev,
	})
}
