package props

import (
	"container/list"
	"fmt"
	"reflect"
	"strings"

	"verif/harness/gen"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
)

// parsed is one result of an entry point: the object, and how to read it.
type parsed struct {
	obj any
	sum func() string
}

// parseEntry runs one entry point and keeps the object.
func parseEntry(p *parser.StringMsgParser, which int, in []byte) (r parsed, err error) {
	s := string(in)
	switch which {
	case 0, 1:
		var x message.Message
		if which == 0 {
			x, err = p.ParseSIPMessageFromByte(in)
		} else {
			x, err = p.ParseSIPMessage(s)
		}
		if err == nil && x != nil {
			r = parsed{x, func() string { return sumMsg(x, nil) }}
		}
	case 2:
		var h header.Header
		if h, err = p.ParseSIPHeader(s); err == nil && h != nil {
			r = parsed{h, func() string { return sumHeader(h, nil) }}
		}
	case 3:
		var u address.URI
		if u, err = p.ParseUrl(s); err == nil && u != nil {
			r = parsed{u, func() string { return sumURI(u, nil) }}
		}
	case 4:
		var u *address.SipURIImpl
		if u, err = p.ParseSIPUrl(s); err == nil && u != nil {
			r = parsed{u, func() string { return sumURI(u, nil) }}
		}
	case 5:
		var a *address.AddressImpl
		if a, err = p.ParseAddress(s); err == nil && a != nil {
			r = parsed{a, func() string { return sumAddr(a, nil) }}
		}
	case 6:
		var h *core.Host
		if h, err = p.ParseHost(s); err == nil && h != nil {
			r = parsed{h, func() string { return obsHost(h) }}
		}
	case 7:
		var h *core.HostPort
		if h, err = p.ParseHostPort(s); err == nil && h != nil && h.GetHost() != nil {
			r = parsed{h, func() string { return fmt.Sprintf("%s port=%d", h, h.GetPort()) }}
		}
	case 8:
		var t *address.TelephoneNumber
		if t, err = p.ParSetelephoneNumber(s); err == nil && t != nil {
			r = parsed{t, func() string { return t.String() }}
		}
	case 9:
		var l *header.RequestLine
		if l, err = p.ParseSIPRequestLine(s); err == nil && l != nil {
			r = parsed{l, func() string { return l.String() + sumURI(l.GetUri(), nil) }}
		}
	case 10:
		var l *header.StatusLine
		if l, err = p.ParseSIPStatusLine(s); err == nil && l != nil {
			r = parsed{l, func() string { return l.String() }}
		}
	}
	return r, err
}

// scramble edits an object, and whatever its getters hand out, through every
// exported method that sets, adds or removes something and takes plain values.
// It says what it called.
func scramble(g *gen.G, obj any) []string {
	s := &scrambler{g: g, seen: map[any]bool{}}
	if x, ok := obj.(message.Message); ok {
		for _, h := range headersOf(x) {
			s.object(h, 0)
		}
	}
	s.object(obj, 0)
	return s.calls
}

type scrambler struct {
	g     *gen.G
	seen  map[any]bool
	calls []string
	some  bool   // leave out some of the methods
	panic string // the first panic
}

var listElem = reflect.TypeOf((*list.Element)(nil))

func (s *scrambler) object(obj any, depth int) {
	v := reflect.ValueOf(obj)
	if obj == nil || v.Kind() != reflect.Pointer || v.IsNil() || depth > 5 || s.seen[obj] {
		return
	}
	s.seen[obj] = true
	if l, ok := obj.(interface{ Front() *list.Element }); ok {
		n := 0
		for e := l.Front(); e != nil && n < 50; e = e.Next() {
			s.object(e.Value, depth+1)
			n++
		}
	}
	t := v.Type()
	if t == listElem {
		return
	}
	// what it hands out first, for its own setters may replace those
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if m.Type.NumIn() == 1 && m.Type.NumOut() > 0 && strings.HasPrefix(m.Name, "Get") {
			for _, o := range s.call(v, i, nil) {
				if k := o.Kind(); (k == reflect.Pointer || k == reflect.Interface) && !o.IsNil() && o.CanInterface() {
					s.object(o.Interface(), depth+1)
				}
			}
		}
	}
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if !(strings.HasPrefix(m.Name, "Set") || strings.HasPrefix(m.Name, "Add") || strings.HasPrefix(m.Name, "Remove") || strings.HasPrefix(m.Name, "Clear") || m.Name == "Delete") || m.Type.IsVariadic() {
			continue
		}
		var in []reflect.Value
		for k := 1; k < m.Type.NumIn(); k++ {
			a := m.Type.In(k)
			x := reflect.New(a).Elem()
			switch a.Kind() {
			case reflect.String:
				x.SetString(s.g.Pick("zq", s.g.Token(), "tag", "branch", "q"))
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				x.SetInt(int64(1 + s.g.N(100)))
			case reflect.Bool:
				x.SetBool(s.g.P(2))
			case reflect.Float32, reflect.Float64:
				x.SetFloat(float64(s.g.N(10)) / 10)
			default:
				x = reflect.Value{}
			}
			if !x.IsValid() {
				in = nil
				break
			}
			in = append(in, x)
		}
		if len(in) == m.Type.NumIn()-1 && !(s.some && s.g.P(2)) {
			s.calls = append(s.calls, t.Elem().Name()+"."+m.Name)
			s.call(v, i, in)
		}
	}
}

// call calls a method; what it does to this object does not matter here.
func (s *scrambler) call(v reflect.Value, i int, in []reflect.Value) (out []reflect.Value) {
	defer func() {
		if e := recover(); e != nil && s.panic == "" {
			s.panic = fmt.Sprintf("%s.%s(%v): %v", v.Type(), v.Type().Method(i).Name, in, e)
		}
	}()
	return v.Method(i).Call(in)
}

// headersOf is every header of a message, the elements of lists by themselves.
func headersOf(x message.Message) (hs []header.Header) {
	for e := x.GetHeaderNames().Front(); e != nil; e = e.Next() {
		l := x.GetHeaders(e.Value.(string))
		for h := l.Front(); h != nil; h = h.Next() {
			if y, ok := h.Value.(header.Header); ok {
				hs = append(hs, y)
			}
		}
	}
	return hs
}
