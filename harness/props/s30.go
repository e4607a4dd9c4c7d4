package props

import (
	"encoding/binary"
	"fmt"

	"verif/harness/mon"

	"github.com/use-go/gosips/sip"
)

type named interface {
	GetValue() int
	ToString() string
}

func init() {
	type family struct {
		name  string
		get   func(int) (named, bool, error) // the constant, whether there is one
		vars  []named
		names []string
	}
	fams := []family{
		{"dialog state", func(n int) (named, bool, error) { x, err := sip.GetDialogState(n); return x, x != nil, err },
			[]named{sip.DIALOGSTATE_EARLY, sip.DIALOGSTATE_CONFIRMED, sip.DIALOGSTATE_COMPLETED, sip.DIALOGSTATE_TERMINATED},
			[]string{"Early Dialog", "Confirmed Dialog", "Completed Dialog", "Terminated Dialog"}},
		{"transaction state", func(n int) (named, bool, error) { x, err := sip.GetTransactionState(n); return x, x != nil, err },
			[]named{sip.TRANSACTIONSTATE_CALLING, sip.TRANSACTIONSTATE_TRYING, sip.TRANSACTIONSTATE_PROCEEDING, sip.TRANSACTIONSTATE_COMPLETED, sip.TRANSACTIONSTATE_CONFIRMED, sip.TRANSACTIONSTATE_TERMINATED},
			[]string{"Calling Transaction", "Trying Transaction", "Proceeding Transaction", "Completed Transaction", "Confirmed Transaction", "Terminated Transaction"}},
		{"timeout", func(n int) (named, bool, error) { x, err := sip.GetTimeout(n); return x, x != nil, err },
			[]named{sip.TIMEOUT_RETRANSMIT, sip.TIMEOUT_TRANSACTION},
			[]string{"Retransmission Timeout", "Transaction Timeout"}},
	}
	one := func(c *mon.C, data []byte) {
		n := int(int64(binary.BigEndian.Uint64(data)))
		for _, f := range fams {
			var x named
			var there bool
			var err error
			if !c.Guard(f.name, func() { x, there, err = f.get(n) }) {
				return
			}
			if n < 0 || n >= len(f.vars) {
				if err == nil || there {
					c.Failf("unknown:"+f.name, "%s %d exists: %v, error %v", f.name, n, there, err)
				}
				c.Count("unknown values refused", 1)
				continue
			}
			if err != nil || !there || x != f.vars[n] || x.GetValue() != n || x.ToString() != f.names[n] {
				c.Failf("value:"+f.name, "%s %d is %v (error %v), expected the constant %q", f.name, n, x, err, f.names[n])
				return
			}
			c.Count("known values", 1)
		}
		c.Key(fmt.Sprint(n))
	}
	mon.Register(&mon.Prop{
		ID:       "S30",
		Rule:     "a case is one integer looked up as a dialog state, a transaction state and a timeout; it counts when the constant, its number and its name, or the refusal, were compared with the reference; all integers from -70000 to 70000, around every power of two, and random ones",
		Handlers: map[string]mon.Handler{"value": one},
		Plan: func(p *mon.Plan) {
			b := func(n int64) { p.Case("value", binary.BigEndian.AppendUint64(nil, uint64(n))) }
			for n := int64(-70000); n <= 70000; n++ {
				b(n)
			}
			for s := 0; s < 64; s++ {
				for d := int64(-3); d <= 6; d++ {
					b(int64(1)<<s + d)
					b(-(int64(1) << s) + d)
				}
			}
			p.Seeds("value", p.N(20000, 2000000))
		},
		MinEvents: []string{"known values", "unknown values refused"},
	})
}
