package props

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"

	"verif/mc/explore"
)

// Nesting deeper than the stack of a goroutine can be followed ends the process, which
// nothing can recover from, so it is tried in a process of its own.

var deepKinds = []struct{ open, mid, end string }{
	{"(A ", "x", ")"},
	{"f(", "x", ")"},
	{"(A ", "", ""},
	{"b:(A <t> [1] {c} x ", "y", ")"},
}

// DeepText is a rule nested n levels.
func DeepText(kind, n int) string {
	k := deepKinds[kind]
	text := rep(k.open, n) + k.mid + rep(k.end, n)
	if k.open == "f(" {
		text = "(A " + text + ")"
	}
	if k.end != "" {
		text += " => (B)\n"
	}
	return text
}

type deepResult struct {
	Err   string
	Depth int // of the expressions in the match
}

// DeepRun parses in this process.
func DeepRun(spec string) *deepResult {
	w := strings.Split(spec, ",")
	kind, _ := strconv.Atoi(w[0])
	n, _ := strconv.Atoi(w[1])
	f, err := parse.String(DeepText(kind, n))
	if err != nil {
		return &deepResult{Err: clip(err.Error())}
	}
	d := &deepResult{}
	for v := f.Rules[0].Match; ; {
		s, ok := v.(*ast.SExpr)
		if !ok || len(s.Args) == 0 {
			break
		}
		d.Depth++
		v = s.Args[len(s.Args)-1]
	}
	return d
}

// stackSub has texts nested a million levels: parsed, refused, or the recorded finding.
func stackSub() *explore.Sub {
	return &explore.Sub{Name: "stack", Hang: 100 * time.Second, Run: func(x *explore.X) {
		kind := x.Free(len(deepKinds))
		n := 1000000
		x.Describe(func() string { return fmt.Sprintf("%q repeated %d times", deepKinds[kind].open, n) })
		x.Key("stack", fmt.Sprint(kind))
		out, errs, err := elsewhere("-mode", "deep", "-prop", "C02", "-root", Root, "-in", fmt.Sprintf("%d,%d", kind, n))
		if err == errLate {
			x.Undecided()
		}
		if err != nil {
			if strings.Contains(errs, "goroutine stack exceeds") {
				x.Outcome = "K2"
				x.Known("K2", "%d levels of %q: the process ends because the goroutine's stack exceeds its limit", n, deepKinds[kind].open)
				return
			}
			x.Fail("%d levels of %q: the process ends with %v: %s", n, deepKinds[kind].open, err, clip(errs))
		}
		var d deepResult
		if err := json.Unmarshal(out, &d); err != nil {
			panic(err)
		}
		x.Validated(1)
		switch k := deepKinds[kind]; {
		case d.Err != "":
			x.Outcome = "rejected"
		case k.end == "":
			x.Fail("%d levels of %q that do not end are accepted", n, k.open)
		case k.open != "f(" && d.Depth != n:
			x.Fail("%d levels of %q are parsed as %d", n, k.open, d.Depth)
		default:
			x.Outcome = "accepted"
		}
	}}
}
