package props

import (
	"encoding/binary"
	"fmt"
	"math"
	"time"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/rtp"
)

// tm is a time as seconds and microseconds, in exact arithmetic.
type tm struct{ sec, us int64 }

func (t tm) total() int64 { return t.sec*1e6 + t.us }

func fromTotal(n int64) tm { return tm{n / 1e6, n % 1e6} }

// ntpSecs is the first second an NTP timestamp of this era cannot say.
const ntpSecs = 1<<32 - rtp.NTPTIMEOFFSET

// make gives the library's time. Seconds beyond the NTP era are reached by
// adding.
func (t tm) make() *rtp.RTPTime {
	s, more := t.sec, int64(0)
	if s >= ntpSecs {
		more = s - (ntpSecs - 1)
		s = ntpSecs - 1
	}
	x := rtpTime(uint32(s), uint32(t.us))
	for more > 0 {
		n := min(more, ntpSecs-1)
		x.Add(rtpTime(uint32(n), 0))
		more -= n
	}
	return x
}

// readTime gives the exact value of a library time, through its NTP form.
func readTime(x *rtp.RTPTime) tm {
	n := x.GetNTPTime()
	return tm{int64(uint32(n.GetMSW() - uint32(rtp.NTPTIMEOFFSET&0xffffffff))), int64((uint64(n.GetLSW())*1000000 + 1<<32 - 1) >> 32)}
}

func (t tm) String() string { return fmt.Sprintf("%d.%06d", t.sec, t.us) }

func someTime(g *gen.G, max int64) tm {
	t := tm{g.R.Int64N(max + 1), int64(g.N(1000000))}
	switch g.N(6) {
	case 0:
		t.sec = g.R.Int64N(4)
	case 1:
		t.sec = max - min(max, g.R.Int64N(4))
	case 2:
		t.sec = min(max, int64(1)<<g.N(32))
	}
	switch g.N(4) {
	case 0:
		t.us = []int64{0, 1, 2, 499999, 500000, 500001, 999998, 999999}[g.N(8)]
	}
	return t
}

func init() {
	compare := func(c *mon.C, a, b tm) {
		x, y := a.make(), b.make()
		got := [4]bool{x.LT(y), x.GT(y), x.ELT(y), x.EGT(y)}
		n := a.total() - b.total()
		if want := [4]bool{n < 0, n > 0, n <= 0, n >= 0}; got != want {
			c.Failf("compare", "%v against %v: less, greater, at most, at least = %v, expected %v", a, b, got, want)
		}
		c.Count("comparisons", 1)
	}
	same := func(c *mon.C, sig string, x *rtp.RTPTime, w tm, format string, args ...any) bool {
		if got := readTime(x); got != w {
			c.Failf(sig, "%s is %v, expected %v", fmt.Sprintf(format, args...), got, w)
			return false
		}
		// The value itself, not only its NTP form: it equals another time of
		// that value and neither is before the other.
		y := w.make()
		if x.LT(y) || x.GT(y) || !x.ELT(y) || !x.EGT(y) {
			c.Failf(sig, "%s reads as %v but does not compare as it", fmt.Sprintf(format, args...), w)
			return false
		}
		return true
	}
	mon.Register(&mon.Prop{ID: "R04", Quick: 10,
		Rule: "times of 0 to 2^32-1 seconds and every microsecond, pairs equal, adjacent and apart, histories of additions and subtractions, and all NTP timestamps; non-trivial: each distinct pair, history or timestamp whose results equal exact integer arithmetic",
		Handlers: map[string]mon.Handler{
			"pair": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				a := someTime(g, math.MaxUint32)
				b := someTime(g, math.MaxUint32)
				switch g.N(5) {
				case 0:
					b = a
				case 1:
					b.sec = a.sec
				case 2:
					b.us = a.us
				case 3:
					n := a.total() + int64(g.N(3)) - 1
					if n >= 0 && n/1e6 <= math.MaxUint32 {
						b = fromTotal(n)
					}
				}
				if !c.Guard("compare", func() { compare(c, a, b); compare(c, b, a) }) || c.Failed() {
					return
				}
				if a.total() < b.total() {
					a, b = b, a
				}
				x, y := a.make(), b.make()
				k := x.Clone()
				k.Sub(y)
				if !same(c, "sub", k, fromTotal(a.total()-b.total()), "%v - %v", a, b) {
					return
				}
				k.Add(y)
				if !same(c, "subadd", k, a, "%v - %v + %v", a, b, b) || !same(c, "argument", x, a, "the time copied from") || !same(c, "argument", y, b, "the argument") {
					return
				}
				if s := a.total() + b.total(); s/1e6 <= math.MaxUint32 {
					k = x.Clone()
					k.Add(y)
					if !same(c, "add", k, fromTotal(s), "%v + %v", a, b) {
						return
					}
					k.Sub(y)
					if !same(c, "addsub", k, a, "%v + %v - %v", a, b, b) {
						return
					}
				}
				c.Key(a.String() + b.String())
				c.Count("pairs", 1)
				if c.WantSample() {
					c.Sample("%v and %v", a, b)
				}
			},
			"history": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				cur := someTime(g, ntpSecs-1)
				x := cur.make()
				log := cur.String()
				for n := 2 + g.N(30); n > 0; n-- {
					d := someTime(g, 1<<g.N(31))
					if g.P(10) {
						d = cur
					}
					dx := d.make()
					if self := g.P(30); self && cur.total()*2/1e6 <= math.MaxUint32 {
						d, dx = cur, x // a time added to or taken from itself
						if g.P(2) {
							x.Add(dx)
							cur = fromTotal(cur.total() * 2)
							log += " + itself"
						} else {
							x.Sub(dx)
							cur = tm{}
							log += " - itself"
						}
					} else if g.P(2) && cur.total() >= d.total() {
						x.Sub(dx)
						cur = fromTotal(cur.total() - d.total())
						log += " - " + d.String()
					} else if s := cur.total() + d.total(); s/1e6 <= math.MaxUint32 {
						x.Add(dx)
						cur = fromTotal(s)
						log += " + " + d.String()
					}
					if !same(c, "history", x, cur, "%s", log) {
						return
					}
				}
				c.Key(log)
				c.Count("histories", 1)
			},
			"micros": func(c *mon.C, data []byte) { // a block of all microseconds
				lo := int64(binary.BigEndian.Uint32(data))
				for us := lo; us < lo+1000; us++ {
					w := tm{lo * 2000 % ntpSecs, us}
					x := w.make()
					if !same(c, "micros", x, w, "the time made of NTP seconds %d and microsecond %d", w.sec, us) {
						return
					}
					n := x.GetNTPTime()
					// the exact fraction, rounded down
					if l := uint64(us) << 32 / 1000000; uint64(n.GetLSW()) != l && uint64(n.GetLSW()) != l+1 {
						c.Failf("fraction", "microsecond %d is NTP fraction %d, expected %d", us, n.GetLSW(), l)
						return
					}
					y := rtp.NewRTPTimeFromNTPTime(n)
					if d := readTime(y).total() - w.total(); d < -1 || d > 1 {
						c.Failf("roundtrip", "%v to NTP and back is %v", w, readTime(y))
						return
					}
					c.Count("microseconds", 1)
				}
				c.Key(fmt.Sprint("block ", lo))
			},
			"ntp": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				m, l := edge32(g), edge32(g)
				if g.P(3) {
					m = uint32(int64(rtp.NTPTIMEOFFSET) + int64(g.N(5)) - 2)
				}
				nt := rtp.NewNTPTime(m, l)
				if nt.GetMSW() != m || nt.GetLSW() != l {
					c.Failf("ntpfields", "NTP time of %d, %d reports %d, %d", m, l, nt.GetMSW(), nt.GetLSW())
					return
				}
				var x *rtp.RTPTime
				if !c.Guard("NewRTPTimeFromNTPTime", func() { x = rtp.NewRTPTimeFromNTPTime(nt) }) {
					return
				}
				w := tm{}
				if m >= uint32(rtp.NTPTIMEOFFSET&0xffffffff) {
					w = tm{int64(m) - rtp.NTPTIMEOFFSET, int64(uint64(l) * 1000000 >> 32)}
				}
				if got := readTime(x); got.total()-w.total() < -1 || got.total()-w.total() > 1 {
					c.Failf("fromntp", "NTP %d, %d is %v, expected %v", m, l, got, w)
					return
				}
				if nt.GetMSW() != m || nt.GetLSW() != l {
					c.Failf("ntpfields", "converting changes the NTP time")
				}
				b := x.GetNTPTime()
				back := rtp.NewRTPTimeFromNTPTime(b)
				if d := readTime(back).total() - readTime(x).total(); d < -1 || d > 1 {
					c.Failf("roundtrip", "%v to NTP and back is %v", readTime(x), readTime(back))
				}
				c.Key(fmt.Sprint(m, l))
				c.Count("NTP timestamps", 1)
			},
			"float": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				w := someTime(g, math.MaxUint32-1)
				f := float64(w.sec) + float64(w.us)/1e6
				if g.P(2) { // between two microseconds
					f = float64(w.sec) + (float64(w.us)+g.R.Float64())/1e6
				}
				x := rtp.NewRTPTimeFromFloat64(f)
				if d := readTime(x).total() - w.total(); d < -1 || d > 1 {
					c.Failf("float", "%f seconds is %v", f, readTime(x))
				}
				if y := rtp.NewRTPTimeFromFloat64(float64(w.sec + 1)); !x.LT(y) && f < float64(w.sec+1) {
					c.Failf("float", "%f seconds is not before %d", f, w.sec+1)
				}
				c.Key(fmt.Sprint("f", f))
				c.Count("fractional seconds", 1)
			},
			"clock": func(c *mon.C, data []byte) {
				now := func() int64 { return time.Now().UnixNano() / 1000 }
				a := now()
				x := rtp.CurrentRTPTime()
				b := now()
				if t := readTime(x).total(); t < a || t > b {
					c.Failf("clock", "the current time is %d µs, outside %d–%d", t, a, b)
				}
				d := tm{0, int64(1 + c.RNG().IntN(3000))}
				s := time.Now()
				rtp.WaitRTPTime(d.make())
				if el := time.Since(s); el < time.Duration(d.us)*time.Microsecond {
					c.Failf("wait", "waiting %v took %v", d, el)
				}
				c.Count("clock readings", 1)
			},
		},
		Plan: func(p *mon.Plan) {
			for lo := 0; lo < 1000000; lo += 1000 {
				p.Case("micros", binary.BigEndian.AppendUint32(nil, uint32(lo)))
			}
			p.Seeds("pair", p.N(300000, 20000000))
			p.Seeds("history", p.N(50000, 2000000))
			p.Seeds("ntp", p.N(200000, 10000000))
			p.Seeds("float", p.N(100000, 5000000))
			p.Seeds("clock", p.N(50, 1000))
		},
		MinEvents: []string{"pairs", "histories", "microseconds", "NTP timestamps", "comparisons"},
		Assume:    []string{"sums stay below 2^32 seconds and differences are not negative, as the type can hold no others", "the wall clock does not jump during a reading"},
	})
}
