package props

import (
	"fmt"
	"net"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/rtp"
)

// raddr is an address of the model: what makes two of them the same.
type raddr struct {
	host string // canonical
	port uint16
	ip   bool
}

func init() {
	// pool is the set of addresses of one case: some usual ones and near
	// neighbours of each other.
	type pool struct {
		hosts, ips []string
		ports      []uint16
	}
	mkPool := func(g *gen.G) *pool {
		p := &pool{hosts: []string{"a.example.com", "b.example.com", "192.0.2.1", "", "A.example.com"},
			ips:   []string{"192.0.2.1", "192.0.2.2", "10.0.0.1", "2001:db8::1", "2001:db8::2", "::1", "0.0.0.0"},
			ports: []uint16{0, 1, 5000, 5001, 65535}}
		if g.P(2) { // ports that differ in one bit
			n := uint16(g.N(65536))
			p.ports = append(p.ports[:1+g.N(3)], n, n^1<<g.N(16), n^1<<g.N(16), n^1<<15)
		}
		if g.P(2) { // hosts that differ in one letter, in length or in case
			h := g.Chars("abcdefghijklmnopqrstuvwxyz0123456789.-", 1+g.N(40))
			i := g.N(len(h))
			p.hosts = append(p.hosts[:1+g.N(3)], h, h+"x", h[:i]+"A"+h[i+1:], h[:i]+"_"+h[i+1:], h[i:], h[:i], h+".")
		}
		if g.P(2) { // IP addresses that differ in one bit
			ip := make(net.IP, []int{4, 16}[g.N(2)])
			for i := range ip {
				ip[i] = byte(g.N(256))
			}
			p.ips = append(p.ips[:1+g.N(5)], ip.String())
			for i := 0; i < 4; i++ {
				x := append(net.IP(nil), ip...)
				x[g.N(len(x))] ^= 1 << g.N(8)
				p.ips = append(p.ips, x.String())
			}
		}
		// no two spellings of one address
		uniq := func(l []string, key func(string) string) (o []string) {
			seen := map[string]bool{}
			for _, x := range l {
				if !seen[key(x)] {
					seen[key(x)] = true
					o = append(o, x)
				}
			}
			return
		}
		p.hosts = uniq(p.hosts, func(s string) string { return s })
		p.ips = uniq(p.ips, func(s string) string { return net.ParseIP(s).String() })
		return p
	}
	// mk makes a new object for one of the addresses.
	mk := func(g *gen.G, o *pool) (rtp.Address, raddr) {
		hosts, ips, ports := o.hosts, o.ips, o.ports
		p := ports[g.N(len(ports))]
		if g.P(3) {
			h := hosts[g.N(len(hosts))]
			a := rtp.NewHostAddress(h, p)
			if g.P(4) {
				a = rtp.NewHostAddress("x", 9)
				a.SetHost(h)
				a.SetPort(p)
			}
			return a, raddr{h, p, false}
		}
		s := ips[g.N(len(ips))]
		ip := net.ParseIP(s)
		if v4 := ip.To4(); v4 != nil && g.P(2) {
			ip = v4 // the short form
		}
		ip = append(net.IP(nil), ip...)
		a := rtp.NewIPAddress(ip, p)
		if g.P(4) {
			a = rtp.NewIPAddress(nil, 0)
			a.SetIP(ip)
			a.SetPort(p)
		}
		return a, raddr{net.ParseIP(s).String(), p, true}
	}
	// spoil changes an address object the caller passed before.
	spoil := func(a rtp.Address) {
		switch t := a.(type) {
		case *rtp.HostAddress:
			t.SetHost(t.GetHost() + "changed")
			t.SetPort(t.GetPort() + 77)
		case *rtp.IPAddress:
			ip := t.GetIP()
			for i := range ip {
				ip[i] ^= 0x5a
			}
			t.SetPort(t.GetPort() + 77)
		}
	}
	mon.Register(&mon.Prop{ID: "R05", Quick: 2,
		Rule: "histories of 5–60 sightings, queries, timeouts and clears of a collision list over host-name, IPv4 (both forms) and IPv6 addresses, with the objects passed changed afterwards, and pairwise comparison of addresses; non-trivial: each distinct history in which every answer, and the presence of every address after every step, equals a model map from address to latest sighting",
		Handlers: map[string]mon.Handler{
			"history": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				o := mkPool(g)
				l := rtp.NewCollisionList()
				model := map[raddr]int64{}
				var log []string
				var known []raddr
				clock := int64(g.N(1000)) * 1000000
				for n := 5 + g.N(56); n > 0; n-- {
					if g.P(2) {
						clock += int64(g.N(3)) * int64(g.N(2000000))
					} else if g.P(6) {
						clock = max(0, clock-int64(g.N(3000000))) // clocks may step back
					}
					now := fromTotal(clock)
					switch g.N(8) {
					case 0, 1, 2, 3:
						a, m := mk(g, o)
						t := now
						if g.P(4) {
							t = fromTotal(max(0, clock-int64(g.N(5000000))))
						}
						log = append(log, fmt.Sprintf("see %v at %v", m, t))
						var isNew bool
						var err error
						if !c.Guard("UpdateAddress", func() { isNew, err = l.UpdateAddress(a, *t.make()) }) {
							return
						}
						_, had := model[m]
						if err != nil || isNew == had {
							c.Failf("update", "sighting of a known=%v address reported new=%v, %v\n%s", had, isNew, err, strings.Join(log, "\n"))
							return
						}
						model[m] = t.total()
						known = append(known, m)
						if !had {
							c.Count("new sightings", 1)
						} else {
							c.Count("repeated sightings", 1)
						}
						if g.P(2) {
							spoil(a)
						}
					case 4, 5:
						d := fromTotal(int64(g.N(6)) * int64(g.N(3000000)))
						if g.P(3) && len(known) > 0 { // at the very limit
							if t, ok := model[known[g.N(len(known))]]; ok && clock >= t {
								d = fromTotal(max(0, clock-t+int64(g.N(3))-1))
							}
						}
						if g.P(10) {
							d = fromTotal(clock + int64(g.N(3)))
						}
						log = append(log, fmt.Sprintf("at %v forget what is older than %v", now, d))
						nx, dx := now.make(), d.make()
						if !c.Guard("Timeout", func() { l.Timeout(nx, dx) }) {
							return
						}
						if readTime(nx) != now || readTime(dx) != d {
							c.Failf("timeout:args", "Timeout changes its arguments: %v %v", readTime(nx), readTime(dx))
							return
						}
						for m, t := range model {
							if t < clock-d.total() {
								delete(model, m)
								c.Count("forgotten addresses", 1)
							} else if t == clock-d.total() {
								c.Count("addresses exactly as old as allowed", 1)
							}
						}
					case 6:
						if g.P(3) {
							log = append(log, "clear")
							l.Clear()
							model = map[raddr]int64{}
						} else if g.P(4) {
							if isNew, err := l.UpdateAddress(nil, *now.make()); isNew || err == nil {
								c.Failf("update:nil", "sighting of nothing reported new=%v, %v", isNew, err)
								return
							}
						}
					case 7:
						a, m := mk(g, o)
						log = append(log, fmt.Sprintf("ask %v", m))
						if _, had := model[m]; l.HasAddress(a) != had {
							c.Failf("has", "presence of %v reported %v\n%s", m, !had, strings.Join(log, "\n"))
							return
						}
					}
					// every address, after every step
					for _, p := range o.ports {
						for _, h := range o.hosts {
							_, had := model[raddr{h, p, false}]
							if l.HasAddress(rtp.NewHostAddress(h, p)) != had {
								c.Failf("state", "presence of host %q:%d reported %v\n%s", h, p, !had, strings.Join(log, "\n"))
								return
							}
						}
						for _, s := range o.ips {
							_, had := model[raddr{net.ParseIP(s).String(), p, true}]
							if l.HasAddress(rtp.NewIPAddress(net.ParseIP(s), p)) != had {
								c.Failf("state", "presence of IP %s:%d reported %v\n%s", s, p, !had, strings.Join(log, "\n"))
								return
							}
						}
					}
				}
				c.Count("histories", 1)
				c.Key(strings.Join(log, "\n"))
				if c.WantSample() {
					c.Sample("%s", strings.Join(log, "; "))
				}
			},
			"pairs": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				o := mkPool(g)
				a, m := mk(g, o)
				b, n := mk(g, o)
				sameHost := m.host == n.host && m.ip == n.ip
				if a.IsSameAddress(b) != (m == n) || b.IsSameAddress(a) != (m == n) || a.IsFromSameHost(b) != sameHost || b.IsFromSameHost(a) != sameHost {
					c.Failf("equal", "%v and %v: same address %v/%v, same host %v/%v", m, n, a.IsSameAddress(b), b.IsSameAddress(a), a.IsFromSameHost(b), b.IsFromSameHost(a))
					return
				}
				k := a.Clone()
				if !k.IsSameAddress(a) || k.GetAddressType() != a.GetAddressType() || k.String() != a.String() {
					c.Failf("clone", "the copy of %v is %v", a, k)
					return
				}
				s := k.String()
				spoil(a)
				if k.String() != s || k.IsSameAddress(a) {
					c.Failf("clone", "the copy of %s follows the original: %v", s, k)
					return
				}
				c.Count("address pairs", 1)
				c.Key(fmt.Sprint(m, n))
			},
		},
		Plan: func(p *mon.Plan) {
			p.Seeds("history", p.N(40000, 1500000))
			p.Seeds("pairs", p.N(20000, 500000))
		},
		MinEvents: []string{"histories", "new sightings", "repeated sightings", "forgotten addresses", "addresses exactly as old as allowed", "address pairs"},
	})
}
