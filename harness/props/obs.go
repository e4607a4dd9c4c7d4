package props

import (
	"fmt"
	"strings"

	"verif/harness/gen"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
)

// summary is everything a parse result shows, as text.
func sumMsg(x message.Message, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	if x == nil {
		return "nothing"
	}
	return strings.Join(gen.ObserveMsg(x), "\n") + "\n" + x.String()
}

func sumHeader(h header.Header, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	if h == nil {
		return "nothing"
	}
	return strings.Join(gen.Observe(h), "\n") + "\n" + h.String()
}

func sumURI(u address.URI, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	if u == nil {
		return "nothing"
	}
	return strings.Join(gen.ObsURI(u), "\n") + "\n" + u.String()
}

func sumAddr(a *address.AddressImpl, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	if a == nil {
		return "nothing"
	}
	return strings.Join(gen.ObsAddr(a), "\n") + "\n" + a.String()
}

func obsHost(h *core.Host) string {
	return fmt.Sprintf("%s name=%v ip=%v enc=%s addr=%s", h.GetHostName(), h.IsHostName(), h.IsIPAddress(), h.String(), h.GetAddress())
}

// Entry points of a parser instance that take text.
var entryNames = []string{"message bytes", "message text", "header", "url", "sip url", "address", "host", "host:port", "telephone number", "request line", "status line"}

// callEntry runs one entry point and describes the result.
func callEntry(p *parser.StringMsgParser, which int, in []byte) string {
	fail := func(err error) string { return "error: " + err.Error() }
	s := string(in)
	switch which {
	case 0:
		return sumMsg(p.ParseSIPMessageFromByte(in))
	case 1:
		return sumMsg(p.ParseSIPMessage(s))
	case 2:
		return sumHeader(p.ParseSIPHeader(s))
	case 3:
		return sumURI(p.ParseUrl(s))
	case 4:
		u, err := p.ParseSIPUrl(s)
		if err != nil {
			return fail(err)
		}
		if u == nil {
			return "nothing"
		}
		return sumURI(u, nil)
	case 5:
		return sumAddr(p.ParseAddress(s))
	case 6:
		h, err := p.ParseHost(s)
		if err != nil {
			return fail(err)
		}
		if h == nil {
			return "nothing"
		}
		return obsHost(h)
	case 7:
		h, err := p.ParseHostPort(s)
		if err != nil {
			return fail(err)
		}
		if h == nil || h.GetHost() == nil {
			return "nothing"
		}
		return fmt.Sprintf("%s port=%d has=%v enc=%s", obsHost(h.GetHost()), h.GetPort(), h.HasPort(), h.String())
	case 8:
		t, err := p.ParSetelephoneNumber(s)
		if err != nil {
			return fail(err)
		}
		if t == nil {
			return "nothing"
		}
		return fmt.Sprintf("%s global=%v enc=%s", t.GetPhoneNumber(), t.IsGlobal(), t.String())
	case 9:
		l, err := p.ParseSIPRequestLine(s)
		if err != nil {
			return fail(err)
		}
		if l == nil {
			return "nothing"
		}
		return l.GetMethod() + " " + l.GetSipVersion() + " " + l.GetVersionMajor() + "." + l.GetVersionMinor() + "\n" + sumURI(l.GetUri(), nil) + "\n" + l.String()
	case 10:
		l, err := p.ParseSIPStatusLine(s)
		if err != nil {
			return fail(err)
		}
		if l == nil {
			return "nothing"
		}
		return fmt.Sprintf("%s %d %q %s.%s %s", l.GetSipVersion(), l.GetStatusCode(), l.GetReasonPhrase(), l.GetVersionMajor(), l.GetVersionMinor(), l.String())
	}
	panic("entry")
}

// entryText is well-formed input for an entry point.
func entryText(g *gen.G, which int) string {
	switch which {
	case 0, 1:
		return string(g.Msg(gen.MsgOpt{Extra: 4, Repeat: g.P(2)}).Wire())
	case 2:
		return g.AnyLine(3).Plain()
	case 3:
		return g.URI(gen.URIOpt{}).Text()
	case 4:
		return g.SipURI(gen.URIOpt{}).Text()
	case 5:
		return gen.Plain(g.Addr(true, gen.URIOpt{}).Wire())
	case 6:
		h, _ := g.Host()
		return h
	case 7:
		return g.HostPort()
	case 8:
		u := g.TelURI(gen.URIOpt{})
		return strings.TrimPrefix(u.Text(), "tel:")
	case 9:
		return g.Method() + " " + g.URI(gen.URIOpt{}).Text() + " SIP/2.0"
	case 10:
		return fmt.Sprintf("SIP/2.0 %d %s", 100+g.N(600), g.Text())
	}
	panic("entry")
}
