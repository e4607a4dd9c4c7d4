// Package mon is the runtime-monitoring framework: it runs the cases of one
// property in several worker processes, watches them from a parent process
// (panics, fatal errors, runaway CPU time or memory, race reports), collects
// what the oracles observed and writes the evidence file.
package mon

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"strconv"
	"strings"
)

// Handler runs one case: data is the whole input of the case (either the
// literal bytes, or the PRNG seed that the handler's generator expands).
type Handler func(c *C, data []byte)

// Prop is one property and the cases that decide it.
type Prop struct {
	ID       string
	Rule     string // how cases are made and what makes one non-trivial
	Handlers map[string]Handler
	Plan     func(p *Plan)
	Race     bool     // needs the race-detector build
	Assume   []string // assumptions, for the evidence file
	Shards   int      // 0: default
	// MinEvents: counters that must be positive for the run to count.
	MinEvents []string
	// Quick multiplies the case counts of the quick tier (up to the thorough
	// tier's), so that cheap checks use the time that others take.
	Quick float64
	// OneProc: every case runs in a fresh process (first-use schedules).
	OneProc bool
}

var registry = map[string]*Prop{}

func Register(p *Prop) {
	if registry[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	registry[p.ID] = p
}

func Get(id string) *Prop { return registry[id] }

// Plan enumerates the cases of a run. The list of cases is a pure function of
// (property, tier, seed); a worker executes those with index = shard mod shards.
type Plan struct {
	Tier    string
	Seed    uint64
	Shard   int
	Shards  int
	n       int
	exec    func(kind string, data []byte) bool
	stopped bool
	more    float64 // the property's Quick
}

func (p *Plan) Thorough() bool { return p.Tier == "thorough" }

// N scales a case count by tier.
func (p *Plan) N(quick, thorough int) int {
	n := quick
	if p.Thorough() {
		n = thorough
	} else if p.more > 1 {
		n = max(quick, min(int(float64(quick)*p.more), thorough))
	}
	if scale > 0 {
		if n = int(float64(n) * scale); n < 1 {
			n = 1
		}
	}
	return n
}

// scale (for development) shrinks or stretches the case counts.
var scale, _ = strconv.ParseFloat(os.Getenv("VMON_SCALE"), 64)

// Case adds one case with literal input.
func (p *Plan) Case(kind string, data []byte) {
	if p.stopped {
		return
	}
	i := p.n
	p.n++
	if p.Shards > 0 && i%p.Shards != p.Shard {
		return
	}
	if !p.exec(kind, data) {
		p.stopped = true
	}
}

// Seeds adds n cases of a kind whose input is a derived PRNG seed.
func (p *Plan) Seeds(kind string, n int) {
	h := fnv.New64a()
	h.Write([]byte(kind))
	base := h.Sum64()
	for i := 0; i < n && !p.stopped; i++ {
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], mix(base^mix(p.Seed+0x9e3779b97f4a7c15*uint64(i+1))))
		p.Case(kind, b[:])
	}
}

func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

// C is the context of one running case.
type C struct {
	Prop    *Prop
	Kind    string
	Data    []byte
	Tier    string
	res     *Result
	fails   int
	nontriv bool
}

// RNG returns the generator seeded by the case's data.
func (c *C) RNG() *rand.Rand {
	h := fnv.New64a()
	h.Write([]byte(c.Kind))
	h.Write(c.Data)
	s := h.Sum64()
	return rand.New(rand.NewPCG(s, mix(s)))
}

// Failf records a violation of the property observed in this case.
// sig names the kind of failure (stable, for known findings and grouping).
func (c *C) Failf(sig, format string, args ...any) {
	c.fails++
	if c.fails > 3 {
		return
	}
	c.res.add(Violation{Property: c.Prop.ID, Kind: c.Kind, Data: c.Data, Sig: sig, Detail: clip(fmt.Sprintf(format, args...), 4000)})
}

func (c *C) Failed() bool { return c.fails > 0 }

// Key records a distinct non-trivial observation.
func (c *C) Key(k string) {
	if len(c.res.keys) >= 1<<19 {
		return // distinct observations are counted up to this many per worker
	}
	h := fnv.New64a()
	h.Write([]byte(k))
	c.res.keys[h.Sum64()] = struct{}{}
}

// Count adds to a named event counter of the evidence.
func (c *C) Count(name string, n int) { c.res.Counters[name] += int64(n) }

// Sample offers a case for the evidence file.
func (c *C) Sample(format string, args ...any) {
	if len(c.res.Samples) < 4 {
		c.res.Samples = append(c.res.Samples, clip(fmt.Sprintf(format, args...), 600))
	}
}

// WantSample tells whether Sample would keep something (to save formatting).
func (c *C) WantSample() bool { return len(c.res.Samples) < 4 }

// Guard runs f and reports a panic as a violation with the given label.
// It returns false if f panicked.
func (c *C) Guard(label string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
			c.Failf("panic:"+label+":"+PanicSite(), "%s panicked: %v\n%s", label, r, stack())
		}
	}()
	f()
	return true
}

// Try runs f and returns the panic value, if any, as text.
func Try(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v at %s", r, PanicSite())
		}
	}()
	f()
	return ""
}

// PanicSite returns the innermost library function on the panicking stack.
func PanicSite() string {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "use-go/gosips") {
			i := strings.LastIndex(f.Function, "/")
			return f.Function[i+1:]
		}
		if !more {
			return "?"
		}
	}
}

func stack() string {
	b := make([]byte, 4096)
	b = b[:runtime.Stack(b, false)]
	return string(b)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...(clipped)"
	}
	return s
}
