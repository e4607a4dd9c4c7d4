package props

import (
	"bytes"
	"encoding/binary"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/rtp"
)

func newBYE(g *gen.G) *byePkt {
	p := &byePkt{}
	n := g.N(32)
	if g.P(3) {
		n = []int{0, 1, 2, 31}[g.N(4)]
	}
	for ; n > 0; n-- {
		p.ssrcs = append(p.ssrcs, edge32(g))
	}
	if g.P(2) {
		n := g.N(40)
		if g.P(4) {
			n = []int{0, 1, 2, 3, 4, 7, 127, 128, 252, 253, 254, 255}[g.N(12)]
		}
		p.hasReason, p.reason = true, bytesOf(g, n)
	}
	return p
}

// rtcp adds the common header and padding.
func rtcpWire(g *gen.G, count byte, pt byte, body []byte) []byte {
	for len(body)%4 != 0 {
		body = append(body, 0)
	}
	b := append([]byte{0x80 | count, pt, 0, 0}, body...)
	if g.P(3) {
		n := 4 * (1 + g.N(5))
		if g.P(4) {
			n = 252
		}
		b[0] |= 0x20
		for i := 0; i < n; i++ {
			b = append(b, byte(g.R.Uint32()))
		}
		b[len(b)-1] = byte(n)
	}
	binary.BigEndian.PutUint16(b[2:], uint16(len(b)/4-1))
	return b
}

func (p *byePkt) wire(g *gen.G) []byte {
	var b []byte
	for _, s := range p.ssrcs {
		b = binary.BigEndian.AppendUint32(b, s)
	}
	if p.hasReason {
		b = append(b, byte(len(p.reason)))
		b = append(b, p.reason...)
	}
	return rtcpWire(g, byte(len(p.ssrcs)), 203, b)
}

func newAPP(g *gen.G) *appPkt {
	n := 4 * g.N(20)
	if g.P(5) {
		n = []int{0, 4, 252, 256, 1020, 1024, 4096}[g.N(7)]
	}
	return &appPkt{uint8(g.N(32)), edge32(g), bytesOf(g, 4), bytesOf(g, n)}
}

func (p *appPkt) wire(g *gen.G) []byte {
	b := binary.BigEndian.AppendUint32(nil, p.ssrc)
	b = append(b, p.name...)
	return rtcpWire(g, p.sub, 204, append(b, p.data...))
}

func init() {
	base := func(c *mon.C, label string, p *rtp.RTCPPacket, t rtp.RTCPPacketType, b []byte) {
		if p.GetPacketType() != t || p.GetPacketLength() != len(b) || !bytes.Equal(p.GetPacketData(), b) {
			c.Failf(label+":bytes", "type %v length %d bytes %x\nof %x", p.GetPacketType(), p.GetPacketLength(), clipb(p.GetPacketData()), clipb(b))
		}
	}
	// spoil reuses the receive buffer.
	spoil := func(b []byte) {
		for i := range b {
			b[i] ^= 0x55
		}
	}
	mon.Register(&mon.Prop{ID: "R03", Quick: 8,
		Rule: "standard RTCP BYE packets (0–31 sources, no reason or reasons of 0–255 bytes) and APP packets (any subtype, source, name, 0–4096 bytes of data), with and without 4–252 bytes of padding, in exact or longer buffers that are reused afterwards; non-trivial: each distinct packet all of whose reported fields equal the values it was written from",
		Handlers: map[string]mon.Handler{
			"bye": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				m := newBYE(g)
				b := m.wire(g)
				in := append(append([]byte(nil), b...), bytesOf(g, g.N(2)*g.N(64))...)
				var p *rtp.RTCPBYEPacket
				var got, again []string
				if !c.Guard("BYE", func() {
					p = rtp.NewRTCPBYEPacket(in, len(b))
					got = obsBYE(p)
					spoil(in)
					again = obsBYE(p)
				}) {
					return
				}
				if d := diff(m.want(), got); d != "" {
					c.Failf("bye", "reported fields differ, %s\n%x", d, clipb(b))
				} else if d := diff(m.want(), again); d != "" {
					c.Failf("bye:buffer", "fields change with the receive buffer, %s", d)
				}
				base(c, "bye", &p.RTCPPacket, rtp.BYE, b)
				if m.hasReason && len(m.reason) > 0 {
					c.Count("reasons", 1)
				}
				c.Count("BYE packets", 1)
				c.Key(string(b))
				if c.WantSample() {
					c.Sample("%v", got)
				}
			},
			"app": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				m := newAPP(g)
				b := m.wire(g)
				in := append(append([]byte(nil), b...), bytesOf(g, g.N(2)*g.N(64))...)
				var p *rtp.RTCPAPPPacket
				var got, again []string
				if !c.Guard("APP", func() {
					p = rtp.NewRTCPAPPPacket(in, len(b))
					got = obsAPP(p)
					spoil(in)
					again = obsAPP(p)
				}) {
					return
				}
				if d := diff(m.want(), got); d != "" {
					c.Failf("app", "reported fields differ, %s\n%x", d, clipb(b))
				} else if d := diff(m.want(), again); d != "" {
					c.Failf("app:buffer", "fields change with the receive buffer, %s", d)
				}
				base(c, "app", &p.RTCPPacket, rtp.APP, b)
				c.Count("APP packets", 1)
				c.Key(string(b))
			},
			"other": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				b := bytesOf(g, g.N(100))
				t := []rtp.RTCPPacketType{rtp.SR, rtp.RR, rtp.SDES, rtp.BYE, rtp.APP, rtp.Unknown}[g.N(6)]
				n := g.N(len(b) + 1)
				p := rtp.NewRTCPPacket(t, b, n)
				w := append([]byte(nil), b[:n]...)
				spoil(b)
				base(c, "other", p, t, w)
				if p.IsKnownFormat() {
					c.Failf("other:known", "a packet of type %v is of known format without having been read", t)
				}
				c.Count("other packets", 1)
			},
		},
		Plan: func(p *mon.Plan) {
			p.Seeds("bye", p.N(200000, 6000000))
			p.Seeds("app", p.N(200000, 6000000))
			p.Seeds("other", p.N(10000, 500000))
		},
		MinEvents: []string{"BYE packets", "APP packets", "reasons"},
	})
}
