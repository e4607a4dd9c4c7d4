package props

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/rtp"
)

// rtpPkt is a model of an RTP packet.
type rtpPkt struct {
	pt      uint8
	marker  bool
	seq     uint16
	ts      uint32
	ssrc    uint32
	csrcs   []uint32
	hasExt  bool
	extID   uint16
	ext     []uint32
	payload []byte
	pad     int // padding bytes, 0: no padding
}

// edge picks a number with the extremes well represented.
func edge32(g *gen.G) uint32 {
	switch g.N(8) {
	case 0:
		return 0
	case 1:
		return 0xffffffff
	case 2:
		return 1 << g.N(32)
	case 3:
		return uint32(0xff) << (8 * g.N(4))
	case 4:
		return 0x80000000
	}
	return g.R.Uint32()
}

func bytesOf(g *gen.G, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.R.Uint32())
	}
	return b
}

func newRTP(g *gen.G) *rtpPkt {
	p := &rtpPkt{pt: uint8(g.N(128)), marker: g.P(2), seq: uint16(edge32(g) >> (16 * g.N(2))), ts: edge32(g), ssrc: edge32(g)}
	for p.pt == 72 || p.pt == 73 {
		p.pt = uint8(g.N(128))
	}
	if g.P(5) {
		p.pt = []uint8{0, 1, 71, 74, 127, 64, 126}[g.N(7)]
	}
	n := g.N(16)
	if g.P(4) {
		n = 15 * g.N(2)
	}
	for ; n > 0; n-- {
		p.csrcs = append(p.csrcs, edge32(g))
	}
	if g.P(2) {
		p.hasExt = true
		p.extID = uint16(edge32(g))
		n := g.N(12)
		if g.P(30) {
			n = []int{63, 64, 255, 256, 300, 1000}[g.N(6)]
		}
		if g.P(3000) {
			n = []int{16384, 40000, 65535}[g.N(3)]
		}
		for ; n > 0; n-- {
			p.ext = append(p.ext, edge32(g))
		}
	}
	n = g.N(64)
	if g.P(10) {
		n = g.N(1500)
	}
	if g.P(6) {
		n = 0
	}
	p.payload = bytesOf(g, n)
	return p
}

// wire is the layout of RFC 3550 section 5.
func (p *rtpPkt) wire() []byte {
	b := []byte{0x80 | byte(len(p.csrcs)), p.pt, 0, 0}
	if p.pad > 0 {
		b[0] |= 0x20
	}
	if p.hasExt {
		b[0] |= 0x10
	}
	if p.marker {
		b[1] |= 0x80
	}
	binary.BigEndian.PutUint16(b[2:], p.seq)
	b = binary.BigEndian.AppendUint32(b, p.ts)
	b = binary.BigEndian.AppendUint32(b, p.ssrc)
	for _, c := range p.csrcs {
		b = binary.BigEndian.AppendUint32(b, c)
	}
	if p.hasExt {
		b = binary.BigEndian.AppendUint16(b, p.extID)
		b = binary.BigEndian.AppendUint16(b, uint16(len(p.ext)))
		for _, c := range p.ext {
			b = binary.BigEndian.AppendUint32(b, c)
		}
	}
	b = append(b, p.payload...)
	for i := 0; i < p.pad; i++ {
		b = append(b, byte(i*7))
	}
	if p.pad > 0 {
		b[len(b)-1] = byte(p.pad)
	}
	return b
}

func words(l []uint32) string {
	if len(l) == 0 {
		return "none"
	}
	return fmt.Sprint(l)
}

func (p *rtpPkt) want() []string {
	o := []string{
		fmt.Sprintf("pt=%d marker=%v seq=%d ts=%d ssrc=%d", p.pt, p.marker, p.seq, p.ts, p.ssrc),
		fmt.Sprintf("csrcs=%d %s", len(p.csrcs), words(p.csrcs)),
	}
	if p.hasExt {
		o = append(o, fmt.Sprintf("ext=true id=%d len=%d %s", p.extID, len(p.ext), words(p.ext)))
	} else {
		o = append(o, "ext=false id=0 len=0 none")
	}
	return append(o, fmt.Sprintf("payload=%x", p.payload))
}

func obsRTP(p *rtp.RTPPacket) []string {
	var cs []uint32
	for i := uint8(0); i < p.GetCSRCCount(); i++ {
		cs = append(cs, p.GetCSRC(i))
	}
	x := ""
	for _, i := range []uint8{p.GetCSRCCount(), 15, 16, 255} {
		if i >= p.GetCSRCCount() && p.GetCSRC(i) != 0 {
			x = fmt.Sprintf(" and source %d of them is %d", i, p.GetCSRC(i))
		}
	}
	return []string{
		fmt.Sprintf("pt=%d marker=%v seq=%d ts=%d ssrc=%d", p.GetPayloadType(), p.HasMarker(), p.GetSequenceNumber(), p.GetTimestamp(), p.GetSSRC()),
		fmt.Sprintf("csrcs=%d %s%s", p.GetCSRCCount(), words(cs), x),
		fmt.Sprintf("ext=%v id=%d len=%d %s", p.HasExtension(), p.GetExtensionID(), p.GetExtensionLength(), words(p.GetExtensionData())),
		fmt.Sprintf("payload=%x", p.GetPayload()),
	}
}

func rtpTime(sec, us uint32) *rtp.RTPTime {
	return rtp.NewRTPTimeFromNTPTime(rtp.NewNTPTime(sec+rtp.NTPTIMEOFFSET, uint32((float64(us)+0.5)*4294.967296)))
}

func init() {
	// spare gives a copy of l with more room and other values behind it.
	spare := func(g *gen.G, l []uint32) []uint32 {
		o := append([]uint32(nil), l...)
		for n := g.N(4); n > 0; n-- {
			o = append(o, 0xdeadbeef)
		}
		return o
	}
	parse := func(b []byte) (*rtp.RTPPacket, error) {
		return rtp.NewRTPPacketFromRawPacket(rtp.NewRawPacket(b, rtp.NewHostAddress("h", 1), rtpTime(1, 2), true))
	}
	check := func(c *mon.C, label string, p *rtp.RTPPacket, m *rtpPkt, w []byte) bool {
		if d := diff(m.want(), obsRTP(p)); d != "" {
			c.Failf(label+":fields", "%s packet reports other values, %s\npacket %x", label, d, clipb(w))
			return false
		}
		if !bytes.Equal(p.GetPacket(), w) {
			c.Failf(label+":bytes", "%s packet is %x\nexpected %x", label, clipb(p.GetPacket()), clipb(w))
			return false
		}
		return true
	}
	mon.Register(&mon.Prop{ID: "R01", Quick: 5,
		Rule: "RTP packets with every field drawn over its whole range, 0–15 sources, extensions of 0–65535 words, payloads of 0–1500 bytes and 0–252 bytes of padding; non-trivial: each distinct packet whose built bytes equal the standard layout written by an independent encoder, and whose parsed fields equal the values it was made of",
		Handlers: map[string]mon.Handler{
			"build": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				m := newRTP(g)
				cs, ext, pay := spare(g, m.csrcs), spare(g, m.ext), append([]byte(nil), m.payload...)
				if !m.hasExt && g.P(2) {
					ext = []uint32{1, 2, 3}
				}
				n := len(m.ext)
				if !m.hasExt {
					n = g.N(4)
				}
				id := m.extID
				if !m.hasExt {
					id = 77
				}
				var p *rtp.RTPPacket
				if !c.Guard("NewPacket", func() {
					if g.P(4) { // over a packet that held something else
						o := newRTP(g)
						p = rtp.NewPacket(o.pt, o.payload, o.seq, o.ts, o.ssrc, o.marker, uint8(len(o.csrcs)), o.csrcs, o.hasExt, o.extID, uint16(len(o.ext)), o.ext)
						if p != nil {
							if err := p.BuildPacket(m.pt, pay, m.seq, m.ts, m.ssrc, m.marker, uint8(len(m.csrcs)), cs, m.hasExt, id, uint16(n), ext); err != nil {
								c.Failf("refused", "BuildPacket refuses a legal packet: %v", err)
							}
						}
						return
					}
					p = rtp.NewPacket(m.pt, pay, m.seq, m.ts, m.ssrc, m.marker, uint8(len(m.csrcs)), cs, m.hasExt, id, uint16(n), ext)
				}) || c.Failed() {
					return
				}
				if p == nil {
					c.Failf("refused", "NewPacket refuses a legal packet %v", m.want())
					return
				}
				w := m.wire()
				if !check(c, "built", p, m, w) {
					return
				}
				// The packet is the caller's no more.
				for i := range cs {
					cs[i]++
				}
				for i := range ext {
					ext[i]++
				}
				for i := range pay {
					pay[i]++
				}
				if !check(c, "built (caller's slices changed)", p, m, w) {
					return
				}
				q, err := parse(p.GetPacket())
				if err != nil {
					c.Failf("rejected", "a built packet is rejected: %v\n%x", err, clipb(w))
					return
				}
				if !check(c, "reparsed", q, m, w) {
					return
				}
				c.Count("built packets", 1)
				c.Key(string(w))
				if c.WantSample() {
					c.Sample("%v", m.want())
				}
			},
			"parse": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				m := newRTP(g)
				switch g.N(4) {
				case 0:
					m.pad = 4 * (1 + g.N(63))
				case 1:
					m.pad = 1 + g.N(255)
				}
				if !m.marker && g.P(20) {
					m.pt = 72 + uint8(g.N(2)) // legal without the marker
				}
				w := m.wire()
				in := append(make([]byte, 0, len(w)+g.N(40)), w...)
				t := rtpTime(uint32(g.N(1<<30)), uint32(g.N(1000000)))
				sec := t.GetNTPTime().GetMSW()
				raw := rtp.NewRawPacket(in, rtp.NewHostAddress("h", 1), t, true)
				var p *rtp.RTPPacket
				var err error
				if !c.Guard("NewRTPPacketFromRawPacket", func() { p, err = rtp.NewRTPPacketFromRawPacket(raw) }) {
					return
				}
				if err != nil || p == nil {
					c.Failf("rejected", "a standard packet is rejected: %v\n%x", err, clipb(w))
					return
				}
				if !check(c, "parsed", p, m, w) {
					return
				}
				if p.GetReceiveTime() == nil || p.GetReceiveTime().GetNTPTime().GetMSW() != sec {
					c.Failf("time", "receive time lost")
					return
				}
				// The receive buffer is reused for the next packet.
				for i := range in {
					in[i] ^= 0xff
				}
				t.Add(rtpTime(5, 0))
				if !check(c, "parsed (buffer reused)", p, m, w) {
					return
				}
				if p.GetReceiveTime().GetNTPTime().GetMSW() != sec {
					c.Failf("time", "receive time changes with the caller's")
					return
				}
				hl := 12 + 4*len(m.csrcs)
				if h, err := rtp.NewRTPHeaderFromBytes(w); err != nil {
					c.Failf("header", "the header of a standard packet is rejected: %v", err)
				} else if e := h.Encode(); !bytes.Equal(e, w[:hl]) {
					c.Failf("header", "header %x encodes as %x", w[:hl], e)
				}
				if m.hasExt {
					el := 4 + 4*len(m.ext)
					x := rtp.NewRTPExtensionFromBytes(w[hl:])
					if x == nil {
						c.Failf("extension", "the extension of a standard packet is rejected")
					} else if e := x.Encode(); !bytes.Equal(e, w[hl:hl+el]) {
						c.Failf("extension", "extension %x encodes as %x", clipb(w[hl:hl+el]), clipb(e))
					}
				}
				if m.pad > 0 {
					c.Count("padded packets", 1)
				}
				if c.Failed() {
					return
				}
				c.Count("parsed packets", 1)
				c.Key(string(w))
			},
			"refused": func(c *mon.C, data []byte) { // what must not be sent
				g := gen.New(c.RNG())
				m := newRTP(g)
				cs, ncs := m.csrcs, uint8(len(m.csrcs))
				var ext []uint32
				el := uint16(0)
				has := false
				what := ""
				switch g.N(5) {
				case 0:
					m.pt = 128 + uint8(g.N(128))
					what = fmt.Sprintf("payload type %d", m.pt)
				case 1:
					m.pt = 72 + uint8(g.N(2))
					what = fmt.Sprintf("payload type %d", m.pt)
				case 2:
					ncs = 16 + uint8(g.N(240))
					cs = make([]uint32, int(ncs))
					what = fmt.Sprintf("%d contributing sources", ncs)
				case 3:
					ncs = uint8(len(cs)) + 1
					if ncs > 15 {
						ncs = 15
						cs = cs[:14]
					}
					what = "fewer sources than announced"
				case 4:
					has, ext, el = true, make([]uint32, g.N(4)), 4+uint16(g.N(65530))
					what = "less extension data than announced"
				}
				var p *rtp.RTPPacket
				if !c.Guard("NewPacket", func() {
					p = rtp.NewPacket(m.pt, m.payload, m.seq, m.ts, m.ssrc, m.marker, ncs, cs, has, 1, el, ext)
				}) {
					return
				}
				if p != nil {
					c.Failf("accepted:"+firstWord(what), "a packet with %s is built: %x", what, clipb(p.GetPacket()))
					return
				}
				c.Count("illegal packets refused", 1)
				c.Key("refused " + what)
			},
		},
		Plan: func(p *mon.Plan) {
			p.Seeds("build", p.N(200000, 6000000))
			p.Seeds("parse", p.N(200000, 6000000))
			p.Seeds("refused", p.N(30000, 500000))
		},
		MinEvents: []string{"built packets", "parsed packets", "padded packets", "illegal packets refused"},
	})
}

func clipb(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}
