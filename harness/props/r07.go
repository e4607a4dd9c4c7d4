package props

import (
	"fmt"
	"net"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/rtp"
)

var rtpTasks = []task{
	{"packet building", func(g *gen.G) func() string {
		m := newRTP(g)
		return func() string {
			p := rtp.NewPacket(m.pt, m.payload, m.seq, m.ts, m.ssrc, m.marker, uint8(len(m.csrcs)), m.csrcs, m.hasExt, m.extID, uint16(len(m.ext)), m.ext)
			if p == nil {
				return "refused"
			}
			return strings.Join(obsRTP(p), "\n") + fmt.Sprintf("\n%x\n%s", p.GetPacket(), p.Dump())
		}
	}},
	{"packet parsing", func(g *gen.G) func() string {
		m := newRTP(g)
		m.pad = g.N(2) * g.N(200)
		w := m.wire()
		if g.P(3) {
			w = w[:g.N(len(w)+1)]
		}
		return func() string {
			p, err := rtp.NewRTPPacketFromRawPacket(rtp.NewRawPacket(w, rtp.NewHostAddress("h", 1), rtpTime(7, 8), true))
			if err != nil {
				return err.Error()
			}
			return strings.Join(obsRTP(p), "\n") + readTime(p.GetReceiveTime()).String()
		}
	}},
	{"header coding", func(g *gen.G) func() string {
		m := newRTP(g)
		w := m.wire()
		n := 12 + 4*len(m.csrcs)
		return func() string {
			h, err := rtp.NewRTPHeaderFromBytes(w)
			if err != nil {
				return err.Error()
			}
			o := fmt.Sprintf("%x", h.Encode())
			if m.hasExt {
				o += fmt.Sprintf("%x", rtp.NewRTPExtensionFromBytes(w[n:]).Encode())
			}
			return o
		}
	}},
	{"empty header coding", func(g *gen.G) func() string {
		return func() string { return fmt.Sprintf("%x", rtp.NewRTPHeader().Encode()) }
	}},
	{"RTCP parsing", func(g *gen.G) func() string {
		b, a := newBYE(g).wire(g), newAPP(g).wire(g)
		return func() string {
			return strings.Join(append(obsBYE(rtp.NewRTCPBYEPacket(b, len(b))), obsAPP(rtp.NewRTCPAPPPacket(a, len(a)))...), "\n")
		}
	}},
	{"times", func(g *gen.G) func() string {
		a, b := someTime(g, 1<<30), someTime(g, 1<<30)
		return func() string {
			x, y := a.make(), b.make()
			o := fmt.Sprint(x.LT(y), x.GT(y), x.ELT(y), x.EGT(y))
			x.Add(y)
			o += readTime(x).String()
			x.Sub(y)
			return o + readTime(x).String()
		}
	}},
	{"collision lists", func(g *gen.G) func() string {
		seed := g.R.Uint64()
		return func() string {
			g := gen.New(rng(seed))
			l := rtp.NewCollisionList()
			var b strings.Builder
			for i := 0; i < 20; i++ {
				ad := rtp.Address(rtp.NewHostAddress(g.Pick("a", "b"), uint16(g.N(3))))
				if g.P(2) {
					ad = rtp.NewIPAddress(net.IPv4(1, 2, 3, byte(g.N(3))), uint16(g.N(3)))
				}
				n, _ := l.UpdateAddress(ad, *rtpTime(uint32(i), 0))
				fmt.Fprint(&b, n, ad)
				if g.P(5) {
					l.Timeout(rtpTime(uint32(i), 5), rtpTime(3, 0))
				}
				fmt.Fprintln(&b, l.HasAddress(rtp.NewHostAddress("a", 1)), l.HasAddress(rtp.NewIPAddress(net.IPv4(1, 2, 3, 1), 1)))
			}
			return b.String()
		}
	}},
	{"random numbers", func(g *gen.G) func() string {
		seed := g.R.Uint32()
		return func() string {
			r := rtp.NewRandomRand48FromSeed(seed)
			return fmt.Sprint(r.GetRandom8(), r.GetRandom16(), r.GetRandom32(), r.GetRandomDouble())
		}
	}},
	{"parameters", func(g *gen.G) func() string {
		n := g.N(60000)
		return func() string {
			p := rtp.NewTransmissionParams()
			o := fmt.Sprint(p.GetPortbase(), p.GetMulticastTTL(), p.GetRTPReceiveBuffer(), p.GetRTCPSendBuffer())
			p.SetPortbase(uint16(n))
			p.SetRTPSendBuffer(n)
			return o + fmt.Sprint(p.GetPortbase(), p.GetRTPSendBuffer())
		}
	}},
}

func init() {
	mon.Register(&mon.Prop{ID: "R07", Race: true, OneProc: true,
		Rule: "new processes in which 2–16 goroutines start at once with their first use of the library (the same kind of work on equal or different input, or a mix) under 1–8 processors with pauses, then go on with a random mix of building and parsing packets, times, collision lists and generators of their own, under the race detector; non-trivial: each distinct result of concurrent work that equals the result of the same work done alone afterwards",
		Handlers: map[string]mon.Handler{
			"burst": func(c *mon.C, data []byte) { together(c, rtpTasks, 12) },
			"long":  func(c *mon.C, data []byte) { together(c, rtpTasks, 2000) },
		},
		Plan: func(p *mon.Plan) {
			p.Seeds("burst", p.N(400, 4000))
			p.Seeds("long", p.N(12, 400))
		},
		MinEvents: []string{"concurrent results equal to sequential ones", "concurrent packet building", "concurrent packet parsing", "concurrent header coding"},
	})
}
