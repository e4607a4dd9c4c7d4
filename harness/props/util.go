// Package props holds one monitor per property.
package props

import (
	"fmt"
	"strings"

	"verif/harness/gen"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/parser"
)

// parseLine parses one header line the way the message parser does.
func parseLine(line string) (header.Header, error) {
	p, err := parser.CreateParser(line + "\n")
	if err != nil {
		return nil, err
	}
	return p.Parse()
}

// diff describes the first difference of two observations, or is empty.
func diff(want, got []string) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		w, g := "(nothing)", "(nothing)"
		if i < len(want) {
			w = want[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if w != g {
			return fmt.Sprintf("line %d:\n want %q\n got  %q", i, w, g)
		}
	}
	return ""
}

func firstWord(s string) string {
	if i := strings.IndexAny(s, " :="); i > 0 {
		return s[:i]
	}
	return s
}

// kindName names a kind of header in failure signatures.
func kindName(k *gen.Kind) string {
	if k.Ext {
		return "unknown"
	}
	return k.Name
}
