package props

import (
	"fmt"
	"net"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/rtp"
)

func init() {
	ipList := func(g *gen.G) []net.IP {
		var l []net.IP
		for k := 1 + g.N(4); k > 0; k-- {
			n := 4
			if g.P(2) {
				n = 16
			}
			b := make(net.IP, n)
			for i := range b {
				b[i] = byte(g.N(256))
			}
			if n == 16 && g.P(3) { // an IPv4 address in 16 bytes
				b = net.IPv4(b[0], b[1], b[2], b[3])
			}
			l = append(l, b)
		}
		return l
	}
	show := func(l []net.IP) string { return fmt.Sprintf("%v", l) }
	info := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		l := ipList(g)
		want := show(l)
		a, b := g.Int(-1<<31, 1<<31-1), g.Int(-1<<31, 1<<31-1)
		x := rtp.NewTransmissionInfo(l, a, b)
		proto := rtp.IPv6UDPProto
		if l[0].To4() != nil {
			proto = rtp.IPv4UDPProto
		}
		for k := 0; k < 2; k++ {
			if x.GetRTPSocket() != a || x.GetRTCPSocket() != b || show(x.GetLocalIPList()) != want || x.GetTransmissionProtocol() != proto {
				c.Failf("info", "information made of %s %d %d shows %v %d %d protocol %d, expected %d", want, a, b, x.GetLocalIPList(), x.GetRTPSocket(), x.GetRTCPSocket(), x.GetTransmissionProtocol(), proto)
				return
			}
		}
		c.Key(fmt.Sprint(want, a, b))
		c.Count("informations read", 1)
	}
	params := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		x := rtp.NewTransmissionParams()
		other := rtp.NewTransmissionParams()
		m := struct {
			proto          rtp.TransmissionProtocol
			port           uint16
			bind           net.IP
			idx            uint32
			ips            []net.IP
			ttl            uint8
			rs, rr, cs, cr int
		}{port: 5000, ttl: 1, rs: 32768, rr: 32768, cs: 32768, cr: 32768}
		first := fmt.Sprintf("%+v", m)
		read := func(x *rtp.TransmissionParams) string {
			r := m
			r.proto, r.port, r.bind, r.idx, r.ips, r.ttl = x.GetTransmissionProtocol(), x.GetPortbase(), x.GetBindIP(), x.GetMulticastInterfaceIndex(), x.GetLocalIPList(), x.GetMulticastTTL()
			r.rs, r.rr, r.cs, r.cr = x.GetRTPSendBuffer(), x.GetRTPReceiveBuffer(), x.GetRTCPSendBuffer(), x.GetRTCPReceiveBuffer()
			return fmt.Sprintf("%+v", r)
		}
		var how []string
		// lists handed in or read out stay as they were
		type kept struct {
			l    []net.IP
			want string
		}
		var lists []kept
		for k := 0; k < 12; k++ {
			for _, l := range lists {
				if s := fmt.Sprint(l.l); s != l.want {
					c.Failf("list", "a list of addresses that was handed in or read before changed from %s to %s\nafter %s", l.want, s, strings.Join(how, "; "))
					return
				}
			}
			if got, want := read(x), fmt.Sprintf("%+v", m); got != want {
				c.Failf("params", "parameters show %s, expected %s\nafter %s", got, want, strings.Join(how, "; "))
				return
			}
			n := g.Int(0, 1<<31-1)
			op := ""
			switch g.N(10) {
			case 0:
				m.proto = rtp.TransmissionProtocol(g.N(4))
				x.SetTransmissionProtocol(m.proto)
				op = "SetTransmissionProtocol"
			case 1:
				m.port = uint16(n)
				x.SetPortbase(m.port)
				op = "SetPortbase"
			case 2:
				m.bind = ipList(g)[0]
				x.SetBindIP(m.bind)
				op = "SetBindIP"
			case 3:
				m.idx = uint32(g.R.Uint32())
				x.SetMulticastInterfaceIndex(m.idx)
				op = "SetMulticastInterfaceIndex"
			case 4:
				m.ips = ipList(g)
				x.SetLocalIPList(m.ips)
				op = "SetLocalIPList"
				lists = append(lists, kept{m.ips, fmt.Sprint(m.ips)})
				got := x.GetLocalIPList()
				lists = append(lists, kept{got, fmt.Sprint(got)})
			case 5:
				m.ttl = uint8(n)
				x.SetMulticastTTL(m.ttl)
				op = "SetMulticastTTL"
			case 6:
				m.rs = n
				x.SetRTPSendBuffer(n)
				op = "SetRTPSendBuffer"
			case 7:
				m.rr = n
				x.SetRTPReceiveBuffer(n)
				op = "SetRTPReceiveBuffer"
			case 8:
				m.cs = n
				x.SetRTCPSendBuffer(n)
				op = "SetRTCPSendBuffer"
			case 9:
				m.cr = n
				x.SetRTCPReceiveBuffer(n)
				op = "SetRTCPReceiveBuffer"
			}
			how = append(how, fmt.Sprintf("%s (now %+v)", op, m))
			c.Count(op, 1)
		}
		if got := read(other); got != first {
			c.Failf("other", "other parameters changed to %s\nafter %s", got, strings.Join(how, "; "))
		}
		c.Count("parameter histories", 1)
		c.Key(strings.Join(how, ";"))
		if c.WantSample() {
			c.Sample("%s", how[len(how)-1])
		}
	}
	mon.Register(&mon.Prop{
		ID:       "R08",
		Quick:    20,
		Rule:     "a case is one transmission information with its addresses and sockets, or a history of changes of transmission parameters with all of them read after every change; distinct cases are distinct values and histories",
		Handlers: map[string]mon.Handler{"info": info, "params": params},
		Plan: func(p *mon.Plan) {
			p.Seeds("info", p.N(20000, 1000000))
			p.Seeds("params", p.N(10000, 400000))
		},
		MinEvents: []string{"informations read", "parameter histories", "SetPortbase", "SetLocalIPList", "SetRTCPReceiveBuffer"},
	})
}
