package props

import (
	"fmt"
	"net"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/parser"
)

// hostParses are the ways to parse a host with an optional port.
var hostParses = []struct {
	name string
	f    func(s string) (*core.HostPort, error)
}{
	{"HostNameParser", func(s string) (*core.HostPort, error) { return core.NewHostNameParser(s).GetHostPort() }},
	{"ParseHostPort", func(s string) (*core.HostPort, error) { return parser.NewStringMsgParser().ParseHostPort(s) }},
	{"SIP URI", func(s string) (*core.HostPort, error) {
		u, err := parser.NewStringMsgParser().ParseSIPUrl("sip:u@" + s + ";a=b")
		if err != nil {
			return nil, err
		}
		return u.GetHostPort(), nil
	}},
	{"SIP URI without user", func(s string) (*core.HostPort, error) {
		u, err := parser.NewURLParser("sips:" + s).Parse()
		if err != nil {
			return nil, err
		}
		return u.(*address.SipURIImpl).GetHostPort(), nil
	}},
	{"Via", func(s string) (*core.HostPort, error) {
		h, err := parseLine("Via: SIP/2.0/UDP " + s + ";branch=z9hG4bKa")
		if err != nil {
			return nil, err
		}
		return oneHeader(h, 0).(*header.Via).GetSentBy(), nil
	}},
	{"From", func(s string) (*core.HostPort, error) {
		h, err := parseLine("From: <sip:u@" + s + ">;tag=1")
		if err != nil {
			return nil, err
		}
		return h.(*header.From).GetHostPort()
	}},
}

func sameHost(c *mon.C, how, host string, class, port int, hp *core.HostPort) bool {
	c.Guard("reading a host", func() {
		h := hp.GetHost()
		if h == nil || h.GetHostName() != host || h.GetAddress() != host || h.String() != host {
			c.Failf("host", "%s: host reported as %v, written %q", how, h, host)
			return
		}
		if h.IsHostName() != (class == gen.HostName) || h.IsIPAddress() != (class != gen.HostName) {
			c.Failf("class", "%s: host %q: IsHostName %v IsIPAddress %v", how, host, h.IsHostName(), h.IsIPAddress())
		}
		if class == gen.HostName {
			if ip := h.GetInetAddress(); ip != nil {
				c.Failf("inet", "%s: name %q has internet address %v", how, host, ip)
			}
			if s := h.GetIpAddress(); s != "" {
				c.Failf("inet", "%s: name %q has IP address %q", how, host, s)
			}
		} else {
			want := net.ParseIP(strings.Trim(host, "[]"))
			if ip := h.GetInetAddress(); !ip.Equal(want) {
				c.Failf("inet", "%s: host %q has internet address %v, expected %v", how, host, ip, want)
			}
			if ip := hp.GetInetAddress(); !ip.Equal(want) {
				c.Failf("inet", "%s: host and port of %q has internet address %v, expected %v", how, host, ip, want)
			}
			if s := h.GetIpAddress(); s != host {
				c.Failf("inet", "%s: host %q has IP address %q", how, host, s)
			}
		}
		if hp.GetPort() != port || hp.HasPort() != (port >= 0) {
			c.Failf("port", "%s: port %d, HasPort %v, written %d", how, hp.GetPort(), hp.HasPort(), port)
		}
		t := host
		if port >= 0 {
			t += fmt.Sprintf(":%d", port)
		}
		if hp.String() != t {
			c.Failf("encoding", "%s: host and port encoded as %q, expected %q", how, hp.String(), t)
		}
	})
	return !c.Failed()
}

func init() {
	good := func(c *mon.C, host string, class, port int) {
		t := host
		if port >= 0 {
			t += fmt.Sprintf(":%d", port)
		}
		for _, p := range hostParses {
			hp, err := p.f(t)
			if err != nil || hp == nil {
				c.Failf("rejected:"+p.name, "%s: legal host %q rejected: %v", p.name, t, err)
				return
			}
			if !sameHost(c, p.name+" "+t, host, class, port, hp) {
				return
			}
			c.Count("by "+p.name, 1)
		}
		h, err := parser.NewStringMsgParser().ParseHost(host)
		if err != nil || h == nil {
			c.Failf("rejected:ParseHost", "ParseHost: legal host %q rejected: %v", host, err)
			return
		}
		hp := core.NewHostPort()
		hp.SetHost(h)
		if port >= 0 {
			hp.SetPort(port)
		}
		if !sameHost(c, "ParseHost "+host, host, class, port, hp) {
			return
		}
		// built by the application
		hp = core.NewHostPort()
		hp.SetHost(core.NewHost(host))
		if !sameHost(c, "NewHost "+host, host, class, -1, hp) {
			return
		}
		if port >= 0 {
			hp.SetPort(port)
			if !sameHost(c, "NewHost "+host+", SetPort", host, class, port, hp) {
				return
			}
			hp.RemovePort()
			if !sameHost(c, "NewHost "+host+", SetPort, RemovePort", host, class, -1, hp) {
				return
			}
		}
		if class == gen.HostV6 { // without its brackets it gets them when encoded
			b := core.NewHost(strings.Trim(host, "[]"))
			if b.String() != host || !b.IsIPAddress() {
				c.Failf("brackets", "IPv6 host made from %q is encoded as %q, IsIPAddress %v", strings.Trim(host, "[]"), b, b.IsIPAddress())
			}
		}
		c.Key(t)
	}
	rnd := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		h, cl := g.Host()
		good(c, h, cl, g.Port())
		if c.WantSample() {
			c.Sample("host %q class %d", h, cl)
		}
	}
	// every port, over a few hosts
	ports := func(c *mon.C, data []byte) {
		lo := int(data[0]) << 8
		hosts := []struct {
			h string
			c int
		}{{"h.example.com", gen.HostName}, {"10.0.0.1", gen.HostV4}, {"[2001:db8::10]", gen.HostV6}, {"a", gen.HostName}}
		for p := lo; p < lo+256 && !c.Failed(); p++ {
			h := hosts[p%len(hosts)]
			good(c, h.h, h.c, p)
		}
		c.Count("port ranges", 1)
	}
	// every byte of an IPv4 address
	v4 := func(c *mon.C, data []byte) {
		for i := 0; i < 256 && !c.Failed(); i++ {
			b := []int{1, 2, 3, 4}
			b[int(data[0])] = i
			good(c, fmt.Sprintf("%d.%d.%d.%d", b[0], b[1], b[2], b[3]), gen.HostV4, -1)
		}
		c.Count("v4 ranges", 1)
	}
	// one host that is set again and again
	set := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		one := func(name bool) (string, int) {
			for {
				h, cl := g.Host()
				if name && cl != gen.HostV4 {
					return strings.ToLower(h), cl
				}
				if !name && cl != gen.HostName {
					return h, cl
				}
			}
		}
		h, cl := g.Host()
		hp, port := core.NewHostPort(), -1
		hp.SetHost(core.NewHost(h))
		hist := "NewHost " + h
		for n := 2 + g.N(6); n > 0 && !c.Failed(); n-- {
			op := ""
			switch g.N(7) {
			case 0, 1:
				h, cl = one(true)
				op = "SetHostName " + h
				hp.GetHost().SetHostName(h)
			case 2:
				h, cl = one(false)
				op = "SetHostAddress " + h
				hp.GetHost().SetHostAddress(h)
			case 3:
				h, cl = one(false)
				op = "SetAddress " + h
				hp.GetHost().SetAddress(h)
			case 4:
				port = g.Port()
				op = fmt.Sprintf("SetPort %d", port)
				hp.SetPort(port)
			case 5:
				hp = hp.Clone().(*core.HostPort)
				op = "Clone"
			case 6:
				x := hp.GetHost().Clone().(*core.Host)
				b, _ := one(g.P(2))
				if strings.Contains(b, ":") { // also without the brackets
					x.SetHostAddress(strings.Trim(b, "[]"))
				} else if net.ParseIP(b) != nil {
					x.SetHostAddress(b)
				} else {
					x.SetHostName(b)
				}
				if x.String() != b {
					c.Failf("set", "%s: a copy of %q set to %q is encoded as %q", hist, h, b, x.String())
				}
				op = "setting a copy to " + b
			}
			hist += "; " + op
			if !sameHost(c, hist, h, cl, port, hp) {
				return
			}
			c.Count("hosts set again", 1)
		}
		c.Key(hist)
	}
	bad := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		var t string
		h, _ := g.Host()
		switch g.N(4) {
		case 0: // no host
			t = g.Pick("", ":5060", ":", "@", ";", " ", "_", "%", "?")
		case 1: // unterminated reference
			t = "[" + g.V6()
			if g.P(2) {
				t += g.Pick(":5060", " ", ";x", "g]", "%25]", "/]")
			}
		case 2: // the port is not a number
			t = h + ":" + g.Pick("", "x", "-1", "+5060", " ", ":5060", "a5060", "]", "/", "@")
		case 3:
			t = "[" + g.Pick("g", "xyz", "fe80::1%eth0", " ::1", "_") + "]"
		}
		for i, p := range hostParses {
			if i > 1 && (strings.ContainsAny(t, " @/;?%_+") || t == "") {
				continue // in the middle of a URI these mean other things
			}
			if i > 1 && strings.HasPrefix(t, ":") {
				continue
			}
			if p.name == "Via" && t == "" {
				continue
			}
			var hp *core.HostPort
			var err error
			if !c.Guard("parsing a malformed host", func() { hp, err = p.f(t) }) {
				return
			}
			if err == nil || hp != nil {
				c.Failf("accepted:"+p.name, "%s: malformed host and port %q accepted as %v (error %v)", p.name, t, hp, err)
				return
			}
			c.Count("malformed rejected", 1)
		}
		c.Key("bad " + t)
	}
	mon.Register(&mon.Prop{
		ID:       "S19",
		Quick:    10,
		Rule:     "a case is one generated host (name, IPv4 or IPv6) with or without a port, parsed alone and inside URIs, Via and From headers, or a block of 256 consecutive ports or address bytes, or one host object set several times, or one malformed host or port; distinct cases are distinct texts",
		Handlers: map[string]mon.Handler{"host": rnd, "ports": ports, "v4": v4, "set": set, "bad": bad},
		Plan: func(p *mon.Plan) {
			for i := 0; i < 256; i++ {
				p.Case("ports", []byte{byte(i)})
			}
			for i := 0; i < 4; i++ {
				p.Case("v4", []byte{byte(i)})
			}
			p.Seeds("host", p.N(40000, 3000000))
			p.Seeds("set", p.N(10000, 1000000))
			p.Seeds("bad", p.N(20000, 1000000))
		},
		MinEvents: []string{"hosts set again", "port ranges", "v4 ranges", "malformed rejected", "by Via", "by SIP URI", "by From", "by HostNameParser"},
	})
}
