package props

import (
	"fmt"
	"time"

	"verif/mc/explore"
	"verif/mc/model"
)

// Sizes past what 16 bit counters, and buffers of a MiB, hold.

// longDims are those whose size is a number of bytes rather than of nodes.
var longDims = map[string]bool{"opcode-length": true, "variable-length": true, "binding-length": true, "type-length": true, "block-length": true, "digits": true}

// noBulk are those of nested Go expressions, which Go's own parser bounds.
var noBulk = map[string]bool{"call-depth": true, "parens": true, "unary": true, "selectors": true, "conjuncts": true}

func bulkSizes(long bool, tier string) []int {
	ns, lo, hi := []int{65537}, 20000, 300000
	if tier == "thorough" {
		ns = append(ns, 131073)
	}
	if long {
		ns, lo, hi = []int{1<<20 + 1}, 200000, 1<<24
		if tier == "thorough" {
			ns = append(ns, 1<<22+1, 1<<24+1)
		}
	}
	for _, n := range dict().Ints {
		if n >= lo && n <= hi {
			ns = append(ns, n, n+1)
		}
	}
	return ns
}

// bulkRules chooses one of the dimensions and a size for it.
func bulkRules(x *explore.X, tier string, ds []dimension) (rs []*model.Rule, name string) {
	var use []dimension
	for _, d := range ds {
		if !noBulk[d.name] {
			use = append(use, d)
		}
	}
	d := use[x.Free(len(use))]
	ns := bulkSizes(longDims[d.name], tier)
	n := ns[x.Free(len(ns))]
	rs, _ = d.make(n)
	name = fmt.Sprintf("%s=%d", d.name, n)
	x.Describe(func() string { return name })
	x.Key(name)
	return rs, name
}

// bulkSub is the exploration of large sizes.
func bulkSub(tier string, check func(x *explore.X, rs []*model.Rule)) *explore.Sub {
	return &explore.Sub{Name: "bulk", Split: 2, Hang: 100 * time.Second, Run: func(x *explore.X) {
		rs, _ := bulkRules(x, tier, dims)
		x.Apart(func() { check(x, rs) })
	}}
}
