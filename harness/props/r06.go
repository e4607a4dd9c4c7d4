package props

import (
	"encoding/binary"
	"fmt"
	"runtime"
	"sort"
	"sync"
	"time"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/rtp"
)

// rand48 is the reference: the 48-bit linear congruential generator of
// POSIX drand48.
type rand48 struct{ x uint64 }

func newRand48(seed uint32) *rand48 { return &rand48{uint64(seed)<<16 | 0x330E} }

func (r *rand48) next() uint64 {
	r.x = (r.x*0x5DEECE66D + 0xB) & (1<<48 - 1)
	return r.x
}

// draw takes one number of a width and gives the 48 bits as far as it shows
// them.
func draw(r *rtp.RandomRand48, w int) uint64 {
	switch w {
	case 8:
		return uint64(r.GetRandom8()) << 40
	case 16:
		return uint64(r.GetRandom16()) << 32
	case 32:
		return uint64(r.GetRandom32()) << 16
	}
	return uint64(r.GetRandomDouble() * (1 << 48)) // exact: a 48-bit fraction
}

func seen(x uint64, w int) uint64 {
	if w == 48 {
		return x
	}
	return x >> (48 - w) << (48 - w)
}

var widths = []int{8, 16, 32, 48}

func init() {
	seeds := []uint32{0, 1, 2, 0x7fffffff, 0x80000000, 0xffffffff, 0x330E, 12345}
	check := func(c *mon.C, r *rtp.RandomRand48, ref *rand48, w int, where string) bool {
		if w == 48 {
			f := r.GetRandomDouble()
			want := float64(ref.next()) / (1 << 48)
			if f != want || f < 0 || f >= 1 {
				c.Failf("double", "%s: fraction %v, expected %v", where, f, want)
				return false
			}
			return true
		}
		got, want := draw(r, w), seen(ref.next(), w)
		if got != want {
			c.Failf(fmt.Sprint("width", w), "%s: %d-bit draw gives %x, expected %x", where, w, got>>(48-w), want>>(48-w))
			return false
		}
		return true
	}
	// concurrent draws numbers on several goroutines and gives them in each
	// goroutine's order.
	type one struct {
		w int
		v uint64
	}
	concurrent := func(c *mon.C, g *gen.G, r *rtp.RandomRand48, mix []int, per int, during func()) [][]one {
		n := 2 + g.N(7)
		runtime.GOMAXPROCS(1 + g.N(8))
		out := make([][]one, n)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			m := mix
			if len(mix) == 0 {
				m = widths
			}
			ws := make([]int, per)
			for j := range ws {
				ws[j] = m[g.N(len(m))]
			}
			yield := g.N(3)
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for j, w := range ws {
					out[i] = append(out[i], one{w, draw(r, w)})
					switch {
					case yield == 1 && j%3 == i%3:
						runtime.Gosched()
					case yield == 2 && j%97 == 0:
						time.Sleep(time.Microsecond)
					}
				}
			}()
		}
		close(start)
		if during != nil {
			during()
		}
		wg.Wait()
		return out
	}
	mon.Register(&mon.Prop{ID: "R06", Race: true,
		Rule: "generators of boundary and random seeds, drawn from in every mix of widths, reseeded, and drawn from by 2–8 goroutines under 1–8 processors with yields and pauses, under the race detector; non-trivial: each sequence equal to the reference generator's, and each concurrent run whose draws occupy the first positions of the reference sequence, every position once and in increasing order within each goroutine",
		Handlers: map[string]mon.Handler{
			"sequence": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				seed := seeds[g.N(len(seeds))]
				if g.P(2) {
					seed = g.R.Uint32()
				}
				r, ref := rtp.NewRandomRand48FromSeed(seed), newRand48(seed)
				other := rtp.NewRandomRand48FromSeed(seed + 1)
				n := 1 + g.N(400)
				for i := 0; i < n; i++ {
					if !check(c, r, ref, widths[g.N(4)], fmt.Sprintf("seed %d draw %d", seed, i)) {
						return
					}
					if g.P(40) {
						other.GetRandom32() // another generator has its own state
					}
					if g.P(100) {
						seed = g.R.Uint32()
						r.SetSeed(seed)
						ref = newRand48(seed)
						c.Count("reseedings", 1)
					}
				}
				c.Count("sequential draws", n)
				c.Key(fmt.Sprint(seed, n))
			},
			"first": func(c *mon.C, data []byte) { // the first numbers of many seeds
				lo := binary.BigEndian.Uint32(data)
				for s := lo; s < lo+1000; s++ {
					r, ref := rtp.NewRandomRand48FromSeed(s), newRand48(s)
					for i, w := range widths {
						if !check(c, r, ref, w, fmt.Sprintf("seed %d draw %d", s, i)) {
							return
						}
					}
				}
				c.Count("sequential draws", 4000)
			},
			"unseeded": func(c *mon.C, data []byte) {
				r := rtp.NewRandomRand48()
				r.PickSeed()
				// the state shows itself in a fraction; from then on it is known
				f := r.GetRandomDouble()
				if f < 0 || f >= 1 {
					c.Failf("double", "fraction %v", f)
					return
				}
				ref := &rand48{uint64(f * (1 << 48))}
				for i := 0; i < 200; i++ {
					if !check(c, r, ref, widths[i*7%4], fmt.Sprint("unseeded generator, draw ", i)) {
						return
					}
				}
				c.Count("sequential draws", 200)
			},
			"concurrent": func(c *mon.C, data []byte) {
				g := gen.New(c.RNG())
				seed := g.R.Uint32()
				r := rtp.NewRandomRand48FromSeed(seed)
				var mix []int
				if !g.P(3) {
					mix = []int{widths[g.N(4)]}
				} else if g.P(2) {
					mix = []int{32, 48}
				}
				out := concurrent(c, g, r, mix, 50+g.N(400), nil)
				total := 0
				for _, o := range out {
					total += len(o)
				}
				// Positions of the reference sequence that show their place.
				ref := newRand48(seed)
				seq := make([]uint64, total)
				at := map[one][]int{}
				for i := range seq {
					seq[i] = ref.next()
					at[one{48, seq[i]}] = append(at[one{48, seq[i]}], i)
					k := one{32, seen(seq[i], 32)}
					at[k] = append(at[k], i)
					if len(at[k]) > 1 { // two positions look alike: which draw took which is open
						c.Count("ambiguous runs set aside", 1)
						return
					}
				}
				used := make([]bool, total)
				loose := map[int]map[uint64]int{8: {}, 16: {}}
				switches, lastG := 0, make([]int, total)
				for gi, o := range out {
					last := -1
					for j, d := range o {
						if d.w < 32 {
							loose[d.w][d.v]++
							continue
						}
						p := -1
						for _, q := range at[d] {
							if q > last && !used[q] {
								p = q
								break
							}
						}
						if p < 0 {
							c.Failf("position", "goroutine %d's draw %d (%d bits, %x) is not at a free, later position of the sequence of seed %d (%d draws in all)", gi, j, d.w, d.v, seed, total)
							return
						}
						used[p], last = true, p
						lastG[p] = gi + 1
					}
				}
				for i := 1; i < total; i++ {
					if lastG[i] != lastG[i-1] {
						switches++
					}
				}
				// The narrow draws take the positions left.
				var left []uint64
				for i, u := range used {
					if !u {
						left = append(left, seq[i])
					}
				}
				need := 0
				for _, w := range []int{8, 16} {
					for _, n := range loose[w] {
						need += n
					}
				}
				if need != len(left) {
					c.Failf("count", "%d positions left for %d draws", len(left), need)
					return
				}
				// 16-bit draws first, each at a position with its bits; what is
				// left then has to be the 8-bit draws exactly. Several
				// positions of the same 16 bits have the same 8 bits, so that
				// the choice among them does not matter.
				by := map[uint64]int{}
				for _, x := range left {
					by[seen(x, 16)]++
				}
				for v, n := range loose[16] {
					if by[v] < n {
						c.Failf("narrow", "%d draws of 16 bits give %x, the sequence of seed %d has %d left", n, v>>32, seed, by[v])
						return
					}
					by[v] -= n
				}
				by8 := map[uint64]int{}
				for v, n := range by {
					by8[seen(v, 8)] += n
				}
				for v, n := range loose[8] {
					if by8[v] != n {
						c.Failf("narrow", "%d draws of 8 bits give %x, the sequence of seed %d has %d left", n, v>>40, seed, by8[v])
						return
					}
				}
				c.Count("concurrent draws", total)
				c.Count("changes of goroutine between neighbouring draws", switches)
				c.Key(fmt.Sprint(lastG))
			},
			"reseed": func(c *mon.C, data []byte) { // seeding during the draws
				g := gen.New(c.RNG())
				s := []uint32{g.R.Uint32(), g.R.Uint32(), g.R.Uint32()}
				r := rtp.NewRandomRand48FromSeed(s[0])
				out := concurrent(c, g, r, []int{48}, 50+g.N(300), func() {
					for _, x := range s[1:] {
						for i := g.N(2000); i > 0; i-- {
							runtime.Gosched()
						}
						r.SetSeed(x)
					}
				})
				total := 0
				for _, o := range out {
					total += len(o)
				}
				type pos struct{ s, i int }
				at := map[uint64]pos{}
				for k, x := range s {
					ref := newRand48(x)
					for i := 0; i < total; i++ {
						at[ref.next()] = pos{k, i}
					}
				}
				taken := make([][]int, len(s))
				for gi, o := range out {
					last := pos{0, -1}
					for j, d := range o {
						p, ok := at[d.v]
						if !ok || p.s < last.s || p.s == last.s && p.i <= last.i {
							c.Failf("reseed", "goroutine %d's draw %d is not at a later position of the sequences of seeds %v", gi, j, s)
							return
						}
						last = p
						taken[p.s] = append(taken[p.s], p.i)
					}
				}
				for k, l := range taken {
					sort.Ints(l)
					for i, p := range l {
						if i != p {
							c.Failf("reseed", "the draws from seed number %d do not take its first %d positions once each (%d at %d)", k, len(l), p, i)
							return
						}
					}
				}
				c.Count("draws during reseeding", total)
				c.Key(fmt.Sprint(s, len(taken[0]), len(taken[1])))
			},
		},
		Plan: func(p *mon.Plan) {
			for i := 0; i < p.N(100, 1000); i++ {
				p.Case("first", binary.BigEndian.AppendUint32(nil, uint32(i)*4293000))
			}
			p.Seeds("sequence", p.N(20000, 500000))
			p.Seeds("unseeded", p.N(50, 500))
			p.Seeds("concurrent", p.N(1500, 40000))
			p.Seeds("reseed", p.N(500, 10000))
		},
		Shards:    3,
		MinEvents: []string{"sequential draws", "concurrent draws", "changes of goroutine between neighbouring draws", "draws during reseeding"},
	})
}
