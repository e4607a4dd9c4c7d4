package props

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/core"
)

func init() {
	logText := func(g *gen.G) string {
		switch g.N(6) {
		case 0:
			return string(g.Msg(gen.MsgOpt{}).Wire())
		case 1:
			return strings.Repeat(g.Text()+"\n", g.Int(1, 400))
		case 2:
			return ""
		}
		return g.Text() + g.Pick("", "\n", "\r\n", "%d %s %%", "\x00", "é")
	}
	const sep = " ---------------------------------------------- "
	logs := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		dir, err := os.MkdirTemp("", "vlog")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		var w core.LogWriter
		lw := &w
		if g.P(2) {
			lw = &core.LogWrite
			defer lw.SetTraceLevel(lw.GetTraceLevel())
		}
		names := []string{filepath.Join(dir, "a"), filepath.Join(dir, "b c"), filepath.Join(dir, "none", "c")}
		want := map[string]string{}
		if g.P(2) { // a file that is there already
			want[names[0]] = logText(g)
			os.WriteFile(names[0], []byte(want[names[0]]), 0644)
		}
		level := lw.GetTraceLevel()
		var how []string
		for k := 1 + g.N(12); k > 0; k-- {
			switch g.N(5) {
			case 0:
				level = []int{core.TRACE_NONE, core.TRACE_MESSAGES, core.TRACE_EXCEPTION, core.TRACE_DEBUG, g.Int(-1, 64)}[g.N(5)]
				lw.SetTraceLevel(level)
				how = append(how, fmt.Sprint("level ", level))
			default:
				n, t := names[g.N(len(names))], logText(g)
				if !c.Guard("logging", func() { lw.LogMessageToFile(t, n) }) {
					return
				}
				if n != names[2] {
					want[n] += sep + t
				} else {
					c.Count("messages to a file that cannot be opened", 1)
				}
				how = append(how, fmt.Sprintf("%s %q", filepath.Base(n), t))
				c.Count("messages logged", 1)
			}
			if lw.GetTraceLevel() != level {
				c.Failf("level", "the trace level is %d, expected %d, after %s", lw.GetTraceLevel(), level, strings.Join(how, "; "))
				return
			}
			for _, n := range names {
				b, err := os.ReadFile(n)
				if w, ok := want[n]; ok != (err == nil) || string(b) != w {
					c.Failf("file", "the file holds %q (%v), expected %q (there: %v), after %s", b, err, w, ok, strings.Join(how, "; "))
					return
				}
				c.Count("files compared", 1)
			}
		}
		c.Key(strings.Join(how, ";"))
		c.Count("histories", 1)
	}
	// Large files and messages, and many messages in one file.
	large := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		dir, err := os.MkdirTemp("", "vlog")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		file := filepath.Join(dir, "log")
		size := g.Int(1, 1<<16)
		if !g.P(4) {
			size = 1<<(16+g.N(7)) + g.Int(-2, 2)
		}
		line := g.Text() + "\n"
		want := []byte(strings.Repeat(line, size/len(line)+1)[:size])
		if g.P(3) { // one message after another
			want = nil
			for i := g.Int(200, 3000); i > 0; i-- {
				t := g.Text()
				core.LogWrite.LogMessageToFile(t, file)
				want = append(want, sep+t...)
			}
		} else if err := os.WriteFile(file, want, 0644); err != nil {
			panic(err)
		}
		for i := 0; i < 3; i++ {
			t := g.Text()
			if g.P(2) {
				t = strings.Repeat(t+"\r\n", g.Int(1, 1<<20/(len(t)+2)))
			}
			if !c.Guard("logging", func() { core.LogWrite.LogMessageToFile(t, file) }) {
				return
			}
			want = append(want, sep+t...)
			b, err := os.ReadFile(file)
			if err != nil || !bytes.Equal(b, want) {
				c.Failf("large file", "after message %d the file has %d bytes, expected %d (%v)", i, len(b), len(want), err)
				return
			}
		}
		c.Count("large files compared", 1)
		c.Key(fmt.Sprint(len(want)))
	}
	// Many goroutines log to one file: every message is in it, whole, exactly
	// once, and those of one goroutine are in order.
	together := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		dir, err := os.MkdirTemp("", "vlog")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		file := filepath.Join(dir, "log")
		lw := &core.LogWrite
		n, each := g.Int(2, 8), g.Int(2, 30)
		msgs := make([][]string, n)
		for i := range msgs {
			for j := 0; j < each; j++ {
				msgs[i] = append(msgs[i], fmt.Sprintf("<%d:%d:%s>", i, j, strings.Repeat("x", g.N(3000))))
			}
		}
		var wg sync.WaitGroup
		start := make(chan bool)
		for i := range msgs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, m := range msgs[i] {
					lw.LogMessageToFile(m, file)
				}
			}()
		}
		close(start)
		wg.Wait()
		b, err := os.ReadFile(file)
		text := strings.ReplaceAll(string(b), sep, "")
		size := 0
		for i := range msgs {
			at := -1
			for j, m := range msgs[i] {
				p := strings.Index(text, m)
				if p < 0 || strings.Count(text, m) != 1 || p <= at {
					c.Failf("together", "message %d of goroutine %d is in the file %d times (at %d, the one before at %d)", j, i, strings.Count(text, m), p, at)
					return
				}
				at = p
				size += len(m)
			}
		}
		if err != nil || size != len(text) || strings.Count(string(b), sep) != n*each {
			c.Failf("together", "the file has %d bytes besides the %d separators, expected %d and %d (%v)", len(text), strings.Count(string(b), sep), size, n*each, err)
			return
		}
		c.Key(text)
		c.Count("files checked that many goroutines logged to", 1)
	}
	mon.Register(&mon.Prop{
		ID:       "S35",
		Quick:    3,
		Rule:     "a case is a history of messages logged to files (new, existing, and ones that cannot be opened) and of trace levels, with all files compared after every step, or a file that many goroutines log to at once; distinct by history",
		Handlers: map[string]mon.Handler{"logs": logs, "large": large, "together": together},
		Plan: func(p *mon.Plan) {
			p.Seeds("logs", p.N(3000, 60000))
			p.Seeds("together", p.N(300, 6000))
			p.Seeds("large", p.N(60, 1000))
		},
		MinEvents: []string{"messages logged", "files compared", "messages to a file that cannot be opened", "files checked that many goroutines logged to", "large files compared"},
	})
}
