package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/rtp"
)

// refRTP decodes a packet as RFC 3550 says. sure is false where the standard
// leaves open what to do (a padding bit without padding).
func refRTP(b []byte) (p *rtpPkt, ok, sure bool) {
	if len(b) < 12 || b[0]>>6 != 2 {
		return nil, false, true
	}
	p = &rtpPkt{pt: b[1] & 127, marker: b[1]&128 != 0, seq: binary.BigEndian.Uint16(b[2:]), ts: binary.BigEndian.Uint32(b[4:]), ssrc: binary.BigEndian.Uint32(b[8:])}
	if p.marker && (p.pt == 72 || p.pt == 73) {
		return nil, false, true
	}
	r := b[12:]
	for n := int(b[0] & 15); n > 0; n-- {
		if len(r) < 4 {
			return nil, false, true
		}
		p.csrcs = append(p.csrcs, binary.BigEndian.Uint32(r))
		r = r[4:]
	}
	if b[0]&0x10 != 0 {
		if len(r) < 4 {
			return nil, false, true
		}
		p.hasExt, p.extID = true, binary.BigEndian.Uint16(r)
		n := int(binary.BigEndian.Uint16(r[2:]))
		r = r[4:]
		if len(r) < 4*n {
			return nil, false, true
		}
		for ; n > 0; n-- {
			p.ext = append(p.ext, binary.BigEndian.Uint32(r))
			r = r[4:]
		}
	}
	sure = true
	if b[0]&0x20 != 0 {
		n := int(b[len(b)-1])
		if n > len(r) {
			return nil, false, true
		}
		if n == 0 {
			sure = false
		}
		p.pad = n
		r = r[:len(r)-n]
	}
	p.payload = r
	return p, true, sure
}

// rtcpBody strips padding; ok is false if it is malformed, sure as above.
func rtcpBody(b []byte) (r []byte, ok, sure bool) {
	if len(b) < 4 {
		return nil, false, true
	}
	r, sure = b, true
	if b[0]&0x20 != 0 {
		n := int(b[len(b)-1])
		if n%4 != 0 || n > len(b)-4 {
			return nil, false, true
		}
		if n == 0 {
			sure = false
		}
		r = b[:len(b)-n]
	}
	return r, true, sure
}

type byePkt struct {
	ssrcs     []uint32
	hasReason bool
	reason    []byte
}

func (p *byePkt) want() []string {
	return []string{fmt.Sprintf("known sources=%d %s", len(p.ssrcs), words(p.ssrcs)), fmt.Sprintf("reason=%v len=%d %x", p.hasReason, len(p.reason), p.reason)}
}

func obsBYE(p *rtp.RTCPBYEPacket) []string {
	if !p.IsKnownFormat() {
		x := []string{"unknown"}
		if p.GetSSRCCount() != 0 || p.GetSSRC(0) != 0 || p.HasReasonForLeaving() || p.GetReasonLength() != 0 || len(p.GetReasonData()) != 0 {
			x = append(x, "with fields")
		}
		return x
	}
	var l []uint32
	for i := 0; i < p.GetSSRCCount(); i++ {
		l = append(l, p.GetSSRC(i))
	}
	return []string{fmt.Sprintf("known sources=%d %s", p.GetSSRCCount(), words(l)), fmt.Sprintf("reason=%v len=%d %x", p.HasReasonForLeaving(), p.GetReasonLength(), p.GetReasonData())}
}

func refBYE(b []byte) (p *byePkt, ok, sure bool) {
	r, ok, sure := rtcpBody(b)
	if !ok {
		return nil, false, sure
	}
	p = &byePkt{}
	n := int(b[0] & 31)
	if len(r) < 4+4*n {
		return nil, false, sure
	}
	r = r[4:]
	for ; n > 0; n-- {
		p.ssrcs = append(p.ssrcs, binary.BigEndian.Uint32(r))
		r = r[4:]
	}
	if len(r) > 0 {
		if int(r[0]) > len(r)-1 {
			return nil, false, sure
		}
		p.hasReason, p.reason = true, r[1:1+int(r[0])]
	}
	return p, true, sure
}

type appPkt struct {
	sub  uint8
	ssrc uint32
	name []byte
	data []byte
}

func (p *appPkt) want() []string {
	return []string{fmt.Sprintf("known sub=%d ssrc=%d name=%x", p.sub, p.ssrc, p.name), fmt.Sprintf("data len=%d %x", len(p.data), p.data)}
}

func obsAPP(p *rtp.RTCPAPPPacket) []string {
	if !p.IsKnownFormat() {
		x := []string{"unknown"}
		if p.GetSubType() != 0 || p.GetSSRC() != 0 || len(p.GetName()) != 0 || p.GetAPPDataLength() != 0 || len(p.GetAPPData()) != 0 {
			x = append(x, "with fields")
		}
		return x
	}
	return []string{fmt.Sprintf("known sub=%d ssrc=%d name=%x", p.GetSubType(), p.GetSSRC(), p.GetName()), fmt.Sprintf("data len=%d %x", p.GetAPPDataLength(), p.GetAPPData())}
}

func refAPP(b []byte) (p *appPkt, ok, sure bool) {
	r, ok, sure := rtcpBody(b)
	if !ok || len(r) < 12 {
		return nil, false, sure
	}
	return &appPkt{b[0] & 31, binary.BigEndian.Uint32(r[4:]), r[8:12], r[12:]}, true, sure
}

// quiet runs f with standard output discarded.
func quiet(f func()) {
	old := os.Stdout
	if n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = n
		defer func() { os.Stdout = old; n.Close() }()
	}
	f()
}

func init() {
	// in gives the bytes in a buffer that goes on after them.
	in := func(g *gen.G, b []byte) []byte {
		n := g.N(3) * g.N(300)
		x := make([]byte, len(b)+n)
		copy(x, b)
		for i := len(b); i < len(x); i++ {
			x[i] = byte(g.R.Uint32())
		}
		return x
	}
	pkt := func(c *mon.C, b []byte) {
		isRTP := len(c.Data)%7 != 3 || len(c.Data) > 32
		var p *rtp.RTPPacket
		var err error
		var got []string
		if !c.Guard("RTP packet", func() {
			p, err = rtp.NewRTPPacketFromRawPacket(rtp.NewRawPacket(b, rtp.NewHostAddress("h", 1), nil, isRTP))
			if err == nil {
				got = obsRTP(p)
				p.Dump()
				p.GetReceiveTime()
			}
		}) {
			return
		}
		m, ok, sure := refRTP(b)
		ok = ok && isRTP
		switch {
		case err != nil && ok && sure:
			c.Failf("rtp:rejected", "a well-formed packet is rejected: %v\n%x", err, clipb(b))
		case err == nil && !ok:
			c.Failf("rtp:accepted", "a malformed packet (RTP=%v) is accepted: %v\n%x", isRTP, got, clipb(b))
		case err == nil:
			if d := diff(m.want(), got); d != "" {
				c.Failf("rtp:fields", "fields are not those received, %s\n%x", d, clipb(b))
			}
			if !bytes.Equal(p.GetPacket(), b) {
				c.Failf("rtp:bytes", "the packet is %x, received %x", clipb(p.GetPacket()), clipb(b))
			}
			c.Count("RTP packets accepted", 1)
			// the same bytes from elsewhere
			if !c.Guard("RTP packet", func() {
				p, err = rtp.NewRTPPacketFromRawPacket(rtp.NewRawPacket(b, nil, nil, false))
			}) {
				return
			}
			if err == nil {
				c.Failf("rtp:accepted", "a packet that did not arrive on the RTP port is accepted\n%x", clipb(b))
			}
		default:
			c.Count("RTP packets rejected", 1)
		}
	}
	hdr := func(c *mon.C, b []byte) {
		var h *rtp.RTPHeader
		var err error
		var e []byte
		if !c.Guard("RTP header", func() {
			if h, err = rtp.NewRTPHeaderFromBytes(b); err == nil {
				e = h.Encode()
			}
		}) {
			return
		}
		ok := len(b) >= 12 && len(b) >= 12+4*int(b[0]&15)
		if ok != (err == nil) {
			c.Failf("header:accept", "header %x: error %v", clipb(b), err)
		} else if ok && !bytes.Equal(e, b[:12+4*int(b[0]&15)]) {
			c.Failf("header:bytes", "header %x is read as %x", clipb(b), e)
		} else if ok {
			c.Count("headers accepted", 1)
		} else {
			c.Count("headers rejected", 1)
		}
	}
	ext := func(c *mon.C, b []byte) {
		var x *rtp.RTPExtension
		var e []byte
		if !c.Guard("RTP extension", func() {
			if x = rtp.NewRTPExtensionFromBytes(b); x != nil {
				e = x.Encode()
			}
		}) {
			return
		}
		ok := len(b) >= 4 && len(b) >= 4+4*int(binary.BigEndian.Uint16(b[2:]))
		if ok != (x != nil) {
			c.Failf("extension:accept", "extension %x: accepted %v", clipb(b), x != nil)
		} else if ok && !bytes.Equal(e, b[:4+4*int(binary.BigEndian.Uint16(b[2:]))]) {
			c.Failf("extension:bytes", "extension %x is read as %x", clipb(b), clipb(e))
		} else if ok {
			c.Count("extensions accepted", 1)
		} else {
			c.Count("extensions rejected", 1)
		}
	}
	rtcp := func(c *mon.C, b, long []byte) {
		var got []string
		var base *rtp.RTCPPacket
		if !c.Guard("RTCP BYE", func() {
			p := rtp.NewRTCPBYEPacket(long, len(b))
			got, base = obsBYE(p), &p.RTCPPacket
			if len(b)%64 == 5 {
				quiet(p.Dump)
			}
		}) {
			return
		}
		m, ok, sure := refBYE(b)
		known := got[0] != "unknown"
		switch {
		case !known && ok && sure:
			c.Failf("bye:rejected", "a well-formed BYE packet is not recognised: %x", clipb(b))
		case known && !ok:
			c.Failf("bye:accepted", "a malformed BYE packet is taken as %v\n%x", got, clipb(b))
		case known:
			if d := diff(m.want(), got); d != "" {
				c.Failf("bye:fields", "fields are not those received, %s\n%x", d, clipb(b))
			}
			c.Count("BYE packets accepted", 1)
		default:
			if len(got) > 1 {
				c.Failf("bye:fields", "a BYE packet of unknown format reports fields: %x", clipb(b))
			}
			c.Count("BYE packets rejected", 1)
		}
		if base.GetPacketType() != rtp.BYE || base.GetPacketLength() != len(b) || !bytes.Equal(base.GetPacketData(), b) {
			c.Failf("bye:bytes", "the packet is %x, received %x", clipb(base.GetPacketData()), clipb(b))
		}
		if !c.Guard("RTCP APP", func() {
			p := rtp.NewRTCPAPPPacket(long, len(b))
			got, base = obsAPP(p), &p.RTCPPacket
			if len(b)%64 == 12 {
				quiet(p.Dump)
			}
		}) {
			return
		}
		ma, ok, sure := refAPP(b)
		known = got[0] != "unknown"
		switch {
		case !known && ok && sure:
			c.Failf("app:rejected", "a well-formed APP packet is not recognised: %x", clipb(b))
		case known && !ok:
			c.Failf("app:accepted", "a malformed APP packet is taken as %v\n%x", got, clipb(b))
		case known:
			if d := diff(ma.want(), got); d != "" {
				c.Failf("app:fields", "fields are not those received, %s\n%x", d, clipb(b))
			}
			c.Count("APP packets accepted", 1)
		default:
			if len(got) > 1 {
				c.Failf("app:fields", "an APP packet of unknown format reports fields: %x", clipb(b))
			}
			c.Count("APP packets rejected", 1)
		}
		if base.GetPacketType() != rtp.APP || base.GetPacketLength() != len(b) || !bytes.Equal(base.GetPacketData(), b) {
			c.Failf("app:bytes", "the packet is %x, received %x", clipb(base.GetPacketData()), clipb(b))
		}
	}
	all := func(c *mon.C, b, long []byte) {
		pkt(c, b)
		hdr(c, b)
		ext(c, b)
		rtcp(c, b, long)
		c.Key(string(b))
	}
	damage := func(g *gen.G, b []byte) []byte {
		b = append([]byte(nil), b...)
		for n := g.N(4); n > 0; n-- {
			switch g.N(6) {
			case 0:
				b = b[:g.N(len(b)+1)]
			case 1:
				b = append(b, bytesOf(g, g.N(9))...)
			case 2:
				if len(b) > 0 {
					b[g.N(len(b))] = byte(g.R.Uint32())
				}
			case 3:
				if len(b) > 0 {
					b[0] ^= 1 << g.N(8)
				}
			case 4:
				if len(b) > 0 {
					b[len(b)-1] = byte([]int{0, 1, 4, len(b), len(b) - 4, len(b) - 12, 252, 255}[g.N(8)])
				}
			case 5:
				if len(b) > 3 {
					b[g.N(4)] = []byte{0, 1, 0x7f, 0x80, 0xff}[g.N(5)]
				}
			}
		}
		return b
	}
	mon.Register(&mon.Prop{ID: "R02", Quick: 2, Race: true,
		Rule: "byte sequences given to the RTP packet, header and extension parsers and to the RTCP BYE and APP packets, in buffers that go on after them: every length up to 24 with every first byte, random bytes, and damaged real packets; non-trivial: each distinct input that an independent decoder and the library agree on (accepted with the same fields, or rejected), under the race detector's pointer checks",
		Handlers: map[string]mon.Handler{
			"short": func(c *mon.C, data []byte) { // data: length, first byte, last byte class
				n := int(data[0])
				for _, fill := range []byte{0, 1, 4, 0xff, 0x80, 8, 3, byte(n), byte(n - 4), byte(n - 12), 12} {
					for _, mid := range []byte{0, 1, 0xff} {
						b := bytes.Repeat([]byte{mid}, n)
						if n > 0 {
							b[n-1] = fill
							b[0] = data[1]
						}
						all(c, b, b)
						if n > 15 {
							b[14] = 0
							b[15] = fill
							all(c, b, append(append([]byte(nil), b...), 9, 9, 9, 9))
						}
					}
				}
			},
			"random": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				b := bytesOf(g, g.N(1+g.N(400)))
				if g.P(2) && len(b) > 0 {
					b[0] = 0x80 | b[0]&0x3f
				}
				all(c, b, in(g, b))
			},
			"rtp": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				m := newRTP(g)
				if g.P(2) {
					m.pad = 1 + g.N(255)
				}
				b := damage(g, m.wire())
				all(c, b, in(g, b))
			},
			"rtcp": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				var b []byte
				if g.P(2) {
					b = newBYE(g).wire(g)
				} else {
					b = newAPP(g).wire(g)
				}
				b = damage(g, b)
				all(c, b, in(g, b))
			},
			"bytes": func(c *mon.C, data []byte) { all(c, data, data) },
		},
		Plan: func(p *mon.Plan) {
			p.Case("bytes", nil)
			for n := 0; n <= p.N(24, 48); n++ {
				for f := 0; f < 256; f++ {
					p.Case("short", []byte{byte(n), byte(f)})
				}
			}
			p.Seeds("random", p.N(20000, 1000000))
			p.Seeds("rtp", p.N(40000, 2000000))
			p.Seeds("rtcp", p.N(60000, 3000000))
		},
		MinEvents: []string{"RTP packets accepted", "RTP packets rejected", "BYE packets accepted", "BYE packets rejected", "APP packets accepted", "APP packets rejected", "headers accepted", "extensions accepted"},
	})
}
