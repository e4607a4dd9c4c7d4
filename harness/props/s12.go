package props

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"time"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
)

// A task is work on a goroutine's own objects: prepare makes its inputs
// (nothing of the library needed for texts), the result describes everything
// that came out.
type task struct {
	name    string
	prepare func(g *gen.G) func() string
}

func rng(seed uint64) *rand.Rand { return rand.New(rand.NewPCG(seed, seed^0x5bd1e995)) }

// together runs the same kinds of work on many goroutines at once and then
// one after the other, and compares. All goroutines start from a barrier with
// their first task, which in a new process is the first use of the library.
func together(c *mon.C, tasks []task, rounds int) {
	g := gen.New(c.RNG())
	n := []int{2, 2, 3, 4, 8, 16}[g.N(6)]
	runtime.GOMAXPROCS([]int{1, 2, 4, 8, 8}[g.N(5)])
	same := g.P(2) // all the same first task, on equal or different input
	equal := g.P(2)
	t0, s0 := g.N(len(tasks)), g.R.Uint64()
	type item struct {
		t    int
		seed uint64
	}
	work := make([][]item, n)
	first := make([]func() string, n)
	for i := range work {
		for r := 0; r < rounds; r++ {
			it := item{g.N(len(tasks)), g.R.Uint64()}
			if r == 0 && same {
				it.t = t0
				if equal {
					it.seed = s0
				}
			}
			work[i] = append(work[i], it)
		}
		first[i] = tasks[work[i][0].t].prepare(gen.New(rng(work[i][0].seed)))
	}
	got := make([][]string, n)
	panics := make([]string, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range work {
		pause := g.N(3)
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for r, it := range work[i] {
				f := first[i]
				if r > 0 {
					f = tasks[it.t].prepare(gen.New(rng(it.seed)))
				}
				var s string
				if p := mon.Try(func() { s = f() }); p != "" {
					panics[i] = tasks[it.t].name + ": " + p
					return
				}
				got[i] = append(got[i], s)
				switch {
				case pause == 1:
					runtime.Gosched()
				case pause == 2 && r%4 == i%4:
					time.Sleep(10 * time.Microsecond)
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for i := range work {
		if panics[i] != "" {
			c.Failf("panic:"+firstWord(panics[i]), "with %d goroutines: %s", n, panics[i])
			return
		}
	}
	for i := range work {
		for r, it := range work[i] {
			want := tasks[it.t].prepare(gen.New(rng(it.seed)))()
			if got[i][r] != want {
				c.Failf("result:"+tasks[it.t].name, "%s with %d goroutines gives another result than alone, %s", tasks[it.t].name, n, diff(strings.Split(want, "\n"), strings.Split(got[i][r], "\n")))
				return
			}
			c.Count("concurrent "+tasks[it.t].name, 1)
			c.Key(tasks[it.t].name + want)
		}
	}
	c.Count("concurrent results equal to sequential ones", n*rounds)
	c.Count("first-use bursts", 1)
	if c.WantSample() {
		c.Sample("%d goroutines, first %s, then %d tasks each", n, tasks[work[0][0].t].name, rounds-1)
	}
}

var sipTasks = []task{
	{"message parsing", func(g *gen.G) func() string {
		w := g.Msg(gen.MsgOpt{Extra: 5, Repeat: g.P(2)}).Wire()
		return func() string { return sumMsg(parser.NewStringMsgParser().ParseSIPMessageFromByte(w)) }
	}},
	{"damaged message parsing", func(g *gen.G) func() string {
		w := g.Msg(gen.MsgOpt{Extra: 5}).Wire()
		for i := g.N(4); i >= 0; i-- {
			w[g.N(len(w))] = byte(g.N(256))
		}
		return func() string { return sumMsg(parser.NewStringMsgParser().ParseSIPMessageFromByte(w)) }
	}},
	{"parser reuse", func(g *gen.G) func() string {
		var in [][]byte
		for i := 0; i < 3; i++ {
			in = append(in, g.Msg(gen.MsgOpt{Extra: 3}).Wire())
		}
		return func() string {
			p := parser.NewStringMsgParser()
			var b strings.Builder
			for _, w := range in {
				b.WriteString(sumMsg(p.ParseSIPMessageFromByte(w)))
			}
			return b.String()
		}
	}},
	{"tolerant parsing", func(g *gen.G) func() string {
		w := string(g.Msg(gen.MsgOpt{Extra: 4}).Wire())
		i := strings.Index(w, "\r\n") + 2
		w = w[:i] + "Max-Forwards: x\r\nCSeq: y\r\n" + w[i:]
		return func() string {
			p := parser.NewStringMsgParser()
			p.SetParseExceptionListener(&swallow{})
			return sumMsg(p.ParseSIPMessage(w))
		}
	}},
	{"entry points", func(g *gen.G) func() string {
		type call struct {
			which int
			in    []byte
		}
		var l []call
		for i := 0; i < 6; i++ {
			w := g.N(len(entryNames))
			l = append(l, call{w, []byte(entryText(g, w))})
		}
		return func() string {
			p := parser.NewStringMsgParser()
			var b strings.Builder
			for _, x := range l {
				fmt.Fprintf(&b, "%s\n", callEntry(p, x.which, x.in))
			}
			return b.String()
		}
	}},
	{"header parsing", func(g *gen.G) func() string {
		var l []string
		for i := 0; i < 8; i++ {
			l = append(l, g.AnyLine(3).Plain())
		}
		return func() string {
			var b strings.Builder
			for _, x := range l {
				b.WriteString(sumHeader(parseLine(x)))
			}
			return b.String()
		}
	}},
	{"building", func(g *gen.G) func() string {
		m := g.Msg(gen.MsgOpt{Extra: 6, Repeat: g.P(2)})
		return func() string {
			x := m.BuildMsg()
			return sumMsg(x, nil) + strings.Join(gen.ObserveMsg(x), "\n")
		}
	}},
	{"header building", func(g *gen.G) func() string {
		var l []*gen.Val
		for i := 0; i < 8; i++ {
			l = append(l, g.AnyKind().Gen(g))
		}
		return func() string {
			var b strings.Builder
			for _, v := range l {
				h, errs := v.Build()
				fmt.Fprintf(&b, "%s%v\n", sumHeader(h, nil), errs)
			}
			return b.String()
		}
	}},
	{"editing", func(g *gen.G) func() string {
		w := g.Msg(gen.MsgOpt{Extra: 5}).Wire()
		seed := g.R.Uint64()
		return func() string {
			x, err := parser.NewStringMsgParser().ParseSIPMessageFromByte(w)
			if err != nil {
				return err.Error()
			}
			g := gen.New(rng(seed))
			e := x.(editable)
			for i := 0; i < 6; i++ {
				editCollection(g, e)
			}
			e.SetFromTag(g.Token())
			e.SetToTag(g.Token())
			return strings.Join(snap(e), "\n") + e.GetTransactionId()
		}
	}},
	{"responses", func(g *gen.G) func() string {
		w := g.Msg(gen.MsgOpt{Req: true, Extra: 4, SIPOnly: true}).Wire()
		code := 100 + g.N(600)
		tag := g.Token()
		return func() string {
			x, err := parser.NewStringMsgParser().ParseSIPMessageFromByte(w)
			if err != nil {
				return err.Error()
			}
			r := x.(*message.SIPRequest)
			s := r.CreateResponse(code)
			s.SetToTag(tag)
			return sumMsg(s, nil) + s.GetDialogId(true) + s.GetTransactionId() + sumMsg(r.CreateCancelRequest(), nil) + sumMsg(s.CreateRequest(r.GetRequestURI(), r.GetTopmostVia(), r.GetHeader("CSeq").(*header.CSeq)), nil)
		}
	}},
	{"requests from requests", func(g *gen.G) func() string {
		w := g.Msg(gen.MsgOpt{Req: true, Extra: 4, SIPOnly: true}).Wire()
		return func() string {
			x, err := parser.NewStringMsgParser().ParseSIPMessageFromByte(w)
			if err != nil {
				return err.Error()
			}
			r := x.(*message.SIPRequest)
			return sumMsg(r.CreateAckRequest(nil), nil) + sumMsg(r.CreateBYERequest(true), nil) + r.GetDialogId(false) + r.GetTransactionId() + r.String()
		}
	}},
	{"phrases", func(g *gen.G) func() string {
		var codes []int
		for i := 0; i < 20; i++ {
			codes = append(codes, 100+g.N(600))
		}
		return func() string {
			var b strings.Builder
			for _, n := range codes {
				fmt.Fprintf(&b, "%d %s\n", n, new(message.SIPResponse).GetReasonPhraseFromInt(n))
			}
			return b.String()
		}
	}},
	{"copies", func(g *gen.G) func() string {
		var l []func() string
		for i := 0; i < 4; i++ {
			k := clonees[g.N(len(clonees))]
			seed := g.R.Uint64()
			l = append(l, func() string {
				g := gen.New(rng(seed))
				x := k.mk(g)
				y := x
				if cl, ok := x.(cloner); ok {
					y = cl.Clone()
				}
				k.edit(g, x)
				return strings.Join(append(k.see(x), k.see(y)...), "\n")
			})
		}
		return func() string {
			var b strings.Builder
			for _, f := range l {
				b.WriteString(f() + "\n")
			}
			return b.String()
		}
	}},
}

func init() {
	mon.Register(&mon.Prop{ID: "S12", Race: true, OneProc: true,
		Rule: "new processes in which 2–16 goroutines start at once with their first use of the library (the same kind of work on equal or different input, or a mix) under 1–8 processors with pauses, then go on with a random mix of parsing, building, editing, deriving and copying on their own objects, under the race detector; non-trivial: each distinct result of concurrent work that equals the result of the same work done alone afterwards",
		Handlers: map[string]mon.Handler{
			"burst": func(c *mon.C, data []byte) { together(c, sipTasks, 12) },
			"long":  func(c *mon.C, data []byte) { together(c, sipTasks, 300) },
		},
		Plan: func(p *mon.Plan) {
			p.Seeds("burst", p.N(150, 3000))
			p.Seeds("long", p.N(12, 400))
		},
		MinEvents: []string{"concurrent results equal to sequential ones", "concurrent message parsing", "concurrent building", "concurrent editing", "concurrent responses"},
	})
}
