package props

import (
	"container/list"
	"fmt"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/harness/gen"
	"verif/harness/mon"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
)

// A reader is one method of an object that only reads: its name starts with
// Get, Is, Has or Encode, or is String or CheckHeaders, and its arguments (if
// any) are names or flags.
var readName = regexp.MustCompile(`^(Get[A-Z]|Is[A-Z]|Has[A-Z]|Encode|String$|CheckHeaders$)`)

// notReaders: GetTelephoneSubscriber makes what is absent, for its caller to fill in.
var notReaders = map[string]bool{"GetIndentation": true, "GetTelephoneSubscriber": true}

var readerNames sync.Map // type → []int, its reading methods

func readMethods(t reflect.Type) []int {
	if v, ok := readerNames.Load(t); ok {
		return v.([]int)
	}
	var out []int
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if !readName.MatchString(m.Name) || notReaders[m.Name] {
			continue
		}
		ok := m.Type.NumOut() > 0
		for j := 1; j < m.Type.NumIn(); j++ {
			switch m.Type.In(j).Kind() {
			case reflect.String, reflect.Bool, reflect.Int:
			default:
				ok = false
			}
		}
		if ok {
			out = append(out, i)
		}
	}
	readerNames.Store(t, out)
	return out
}

// shown is what a value read from an object shows: texts, numbers and flags,
// and for the library's own objects the kind and the encoding.
func shown(v reflect.Value, depth int) string {
	if !v.IsValid() {
		return "nil"
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer, reflect.Slice, reflect.Map:
		if v.IsNil() {
			return "nil"
		}
	}
	if v.Kind() == reflect.Interface {
		return shown(v.Elem(), depth)
	}
	x := v.Interface()
	switch t := x.(type) {
	case *list.List:
		var o []string
		for e := t.Front(); e != nil && depth > 0; e = e.Next() {
			o = append(o, shown(reflect.ValueOf(e.Value), depth-1))
		}
		return "[" + strings.Join(o, " | ") + "]"
	case error:
		return "error"
	case interface{ String() string }:
		return fmt.Sprintf("%T %s", x, t.String())
	case []byte:
		return fmt.Sprintf("%q", t)
	}
	switch v.Kind() {
	case reflect.Pointer:
		return fmt.Sprintf("%T", x)
	case reflect.Slice:
		var o []string
		for i := 0; i < v.Len() && depth > 0; i++ {
			o = append(o, shown(v.Index(i), depth-1))
		}
		return "[" + strings.Join(o, " | ") + "]"
	case reflect.Map:
		var o []string
		for _, k := range v.MapKeys() {
			o = append(o, fmt.Sprint(k.Interface()))
		}
		sort.Strings(o)
		return "map " + strings.Join(o, ",")
	case reflect.Struct, reflect.Func, reflect.Chan:
		return v.Kind().String()
	}
	return fmt.Sprintf("%#v", x)
}

// A read is one call: a path of reading methods from the message.
type read struct {
	name string
	do   func() string
	next func() []reflect.Value // the objects it returns
}

// readOf prepares the call of method i of v.
func readOf(g *gen.G, v reflect.Value, path string, i int, names []string) read {
	m := v.Type().Method(i)
	args := []reflect.Value{}
	desc := []string{}
	for j := 1; j < m.Type.NumIn(); j++ {
		switch m.Type.In(j).Kind() {
		case reflect.String:
			args = append(args, reflect.ValueOf(g.Pick(names...)))
		case reflect.Bool:
			args = append(args, reflect.ValueOf(g.P(2)))
		case reflect.Int:
			args = append(args, reflect.ValueOf(100+g.N(600)))
		}
		desc = append(desc, fmt.Sprint(args[j-1].Interface()))
	}
	f := v.Method(i)
	call := func() (out []reflect.Value, s string) {
		if p := mon.Try(func() { out = f.Call(args) }); p != "" {
			return nil, "panic"
		}
		var o []string
		for _, x := range out {
			o = append(o, shown(x, 3))
		}
		return out, strings.Join(o, " , ")
	}
	return read{
		name: path + "." + m.Name + "(" + strings.Join(desc, ",") + ")",
		do:   func() string { _, s := call(); return s },
		next: func() []reflect.Value { out, _ := call(); return out },
	}
}

// objects of the library in a value: the value itself, or its elements.
func objects(v reflect.Value) []reflect.Value {
	for v.IsValid() && v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !v.IsValid() || v.Kind() != reflect.Pointer || v.IsNil() {
		return nil
	}
	var out []reflect.Value
	if l, ok := v.Interface().(interface{ Front() *list.Element }); ok {
		for e := l.Front(); e != nil; e = e.Next() {
			if x := reflect.ValueOf(e.Value); x.IsValid() && x.Kind() == reflect.Pointer && !x.IsNil() {
				out = append(out, x)
			}
		}
	}
	if strings.Contains(v.Type().Elem().PkgPath(), "use-go/gosips") {
		out = append(out, v)
	}
	return out
}

// randomReads walks from the message over what reading methods return.
func randomReads(g *gen.G, x message.Message, n int) []read {
	names := []string{"tag", "q", "expires", "branch", "ttl", "maddr", "transport", "lr", "realm", "Via", "Contact", "from", "CALL-ID", "Route", "X-None", "Content-Type", "charset", ""}
	for e := x.GetHeaderNames().Front(); e != nil; e = e.Next() {
		names = append(names, e.Value.(string))
	}
	var out []read
	top := reflect.ValueOf(x)
	getHeader := func() (reflect.Value, string) {
		nm := g.Pick(names...)
		h := x.(interface {
			GetHeader(string) header.Header
		}).GetHeader(nm)
		if h == nil || reflect.ValueOf(h).IsNil() {
			return top, "message"
		}
		return reflect.ValueOf(h), "GetHeader(" + nm + ")"
	}
	for len(out) < n {
		v, path := top, "message"
		if g.P(2) {
			v, path = getHeader()
		}
		for depth := g.N(5); ; depth-- {
			os := objects(v)
			if len(os) > 0 {
				v = os[g.N(len(os))]
			}
			ms := readMethods(v.Type())
			if len(ms) == 0 {
				break
			}
			r := readOf(g, v, path, ms[g.N(len(ms))], names)
			out = append(out, r)
			if depth <= 0 {
				break
			}
			var next []reflect.Value
			for _, o := range r.next() {
				next = append(next, objects(o)...)
			}
			if len(next) == 0 {
				break
			}
			v, path = next[g.N(len(next))], r.name
		}
	}
	return out
}

// A second look at everything a message says.
func wholeMsg(x message.Message) string {
	return strings.Join(gen.ObserveMsg(x), "\n") + "\n" + x.String() + "\n" + string(x.(interface{ EncodeAsBytes() []byte }).EncodeAsBytes())
}

func sharedMsg(c *mon.C, g *gen.G) message.Message {
	m := g.Msg(gen.MsgOpt{Extra: 6, Repeat: g.P(2)})
	if g.P(3) {
		x := m.BuildMsg()
		return x
	}
	x, err := parser.NewStringMsgParser().ParseSIPMessageFromByte(m.Wire())
	if err != nil || x == nil {
		c.Failf("harness", "well-formed message rejected: %v\n%q", err, m.Wire())
		return nil
	}
	return x
}

func init() {
	alone := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		x := sharedMsg(c, g)
		if x == nil {
			return
		}
		before := wholeMsg(x)
		for _, r := range randomReads(g, x, 60) {
			a := r.do()
			if after := wholeMsg(x); after != before {
				c.Failf("changed", "%s changed the message, %s", r.name, diff(strings.Split(before, "\n"), strings.Split(after, "\n")))
				return
			}
			if b := r.do(); a != b {
				c.Failf("unsteady", "%s reads %q, then %q", r.name, a, b)
				return
			}
			if a == "panic" {
				c.Failf("panic", "%s panics", r.name)
				return
			}
			c.Count("reads", 1)
			c.Key(lastCall(r.name) + a)
		}
		c.Count("messages read", 1)
		if c.WantSample() {
			c.Sample("%q", clip([]byte(x.String())))
		}
	}
	shared := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		runtime.GOMAXPROCS([]int{2, 4, 8, 8}[g.N(4)])
		x := sharedMsg(c, g)
		if x == nil {
			return
		}
		// every reader walks over the message by itself; the walk is a function
		// of its seed and of what the message says
		n := 2 + g.N(7)
		seeds := make([]uint64, n)
		got := make([][]string, n)
		walk := func(i int, pause int) (out []string) {
			for k, r := range randomReads(gen.New(rng(seeds[i])), x, 30) {
				out = append(out, r.name+" reads "+r.do())
				if pause == 1 {
					runtime.Gosched()
				} else if pause == 2 && k%8 == i%8 {
					time.Sleep(5 * time.Microsecond)
				}
			}
			return out
		}
		for i := range seeds {
			seeds[i] = g.R.Uint64()
			if i > 0 && g.P(4) {
				seeds[i] = seeds[0] // the same reads
			}
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := range seeds {
			pause := g.N(3)
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				got[i] = walk(i, pause)
			}()
		}
		close(start)
		wg.Wait()
		for i := range seeds {
			if d := diff(walk(i, 0), got[i]); d != "" {
				c.Failf("result", "%d readers read something else than one alone, %s", n, d)
				return
			}
			c.Count("concurrent reads", len(got[i]))
			for _, s := range got[i] {
				c.Key(lastCall(s))
			}
		}
		c.Count("messages shared by readers", 1)
	}
	hosts := func(c *mon.C, data []byte) {
		g := gen.New(c.RNG())
		s, _ := g.Host()
		h := core.NewHost(strings.Trim(s, "[]"))
		if g.P(2) {
			h = core.NewHost(s)
		}
		if g.P(3) {
			h.SetHostName(s)
		}
		fs := []func() string{
			func() string { return fmt.Sprint(h.GetInetAddress()) }, func() string { return h.GetIpAddress() }, h.String, h.GetHostName, h.GetAddress,
			func() string { return fmt.Sprint(h.IsHostName(), h.IsIPAddress()) },
		}
		n := 2 + g.N(4)
		got := make([][]string, n)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := range got {
			order := g.R.Perm(len(fs))
			wg.Add(1)
			got[i] = make([]string, len(fs))
			go func() {
				defer wg.Done()
				<-start
				for _, k := range order {
					got[i][k] = fs[k]()
				}
			}()
		}
		close(start)
		wg.Wait()
		for i := range got {
			for k, f := range fs {
				if w := f(); w != got[i][k] {
					c.Failf("host", "read %d of host %q gives %q with %d readers, %q alone", k, s, got[i][k], n, w)
					return
				}
			}
		}
		c.Key(s)
		c.Count("hosts shared by readers", 1)
	}
	mon.Register(&mon.Prop{
		ID:   "S29",
		Race: true,
		Rule: "a case is a parsed or built message and reads of it (methods named Get…, Is…, Has…, Encode…, String, CheckHeaders, on the message and on what they return): one after another, comparing everything the message says and encodes before and after every read and the read with its repetition, or from 2 to 8 goroutines at once under the race detector, comparing every read with the same read alone; distinct cases are distinct read results",
		Handlers: map[string]mon.Handler{
			"alone": alone, "shared": shared, "hosts": hosts,
		},
		Plan: func(p *mon.Plan) {
			p.Seeds("alone", p.N(700, 40000))
			p.Seeds("shared", p.N(1200, 60000))
			p.Seeds("hosts", p.N(3000, 60000))
		},
		MinEvents: []string{"reads", "messages read", "concurrent reads", "messages shared by readers", "hosts shared by readers"},
	})
}

func lastCall(s string) string {
	if i := strings.LastIndex(s, ")."); i >= 0 {
		return s[i+2:]
	}
	return s
}
