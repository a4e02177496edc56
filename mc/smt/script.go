package smt

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

// Sort is 0 for Bool, otherwise a bit-vector width.
type Sort int

func (s Sort) String() string {
	if s == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", int(s))
}

func (s Sort) mask() uint64 {
	if s == 0 {
		return 1
	}
	if s >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(s) - 1
}

// Const is a declared constant.
type Const struct {
	Name string
	Sort Sort
}

// Script is a checked script.
type Script struct {
	Consts   []Const
	Formula  *Term
	Comments []string
}

// Term is a well-sorted term; Eval gives its value (0 or 1 for Bool).
type Term struct {
	Sort Sort
	Eval func(env []uint64) uint64
}

// Theory symbols that must not be declared.
var theory = map[string]bool{}

func init() {
	for _, w := range strings.Fields(`true false not => and or xor = distinct ite concat extract bvnot bvneg bvand bvor bvadd bvmul
		bvudiv bvurem bvshl bvlshr bvult bvnand bvnor bvxor bvxnor bvcomp bvsub bvsdiv bvsrem bvsmod bvashr repeat zero_extend
		sign_extend rotate_left rotate_right bvule bvugt bvuge bvslt bvsle bvsgt bvsge Bool BitVec
		bvnego bvuaddo bvsaddo bvumulo bvsmulo bvusubo bvssubo bvsdivo`) {
		theory[w] = true
	}
}

func (x *X) sym() (string, bool) {
	if x.Kind == Symbol || x.Kind == Quoted {
		return x.Text, true
	}
	return "", false
}

func (x *X) is(s string) bool {
	return (x.Kind == Symbol || x.Kind == Reserved) && x.Text == s
}

// Check reads and checks a script of the form the generator promises.
func Check(text string) (*Script, error) {
	xs, comments, err := Read(text)
	if err != nil {
		return nil, err
	}
	s := &Script{Comments: comments}
	names := map[string]int{}
	version, logic, sat, exit := 0, 0, 0, 0
	for _, c := range xs {
		if c.Kind != List || len(c.List) == 0 {
			return nil, fmt.Errorf("%s is not a command", c)
		}
		if exit > 0 {
			return nil, fmt.Errorf("command %s after exit", c)
		}
		head := c.List[0]
		args := c.List[1:]
		if head.Kind != Reserved {
			return nil, fmt.Errorf("%s is not a command", c)
		}
		switch head.Text {
		case "set-info":
			if len(args) != 2 || args[0].Kind != Keyword || args[0].Text != ":smt-lib-version" || args[1].Text != "2.6" {
				return nil, fmt.Errorf("unexpected %s", c)
			}
			if logic+len(s.Consts) > 0 {
				return nil, fmt.Errorf("late %s", c)
			}
			version++
		case "set-logic":
			if len(args) != 1 || !args[0].is("QF_BV") {
				return nil, fmt.Errorf("unexpected %s", c)
			}
			logic++
		case "declare-const", "declare-fun":
			n := 2
			if head.Text == "declare-fun" {
				n = 3
				if len(args) == 3 && (args[1].Kind != List || len(args[1].List) != 0) {
					return nil, fmt.Errorf("unexpected %s", c)
				}
			}
			if len(args) != n {
				return nil, fmt.Errorf("unexpected %s", c)
			}
			name, ok := args[0].sym()
			if !ok {
				return nil, fmt.Errorf("%s declares something that is not a symbol", c)
			}
			if name == "" || name[0] == '@' || name[0] == '.' {
				return nil, fmt.Errorf("%s declares a symbol reserved for solvers", c)
			}
			if theory[name] || bvNumeral(name) {
				return nil, fmt.Errorf("%s declares a symbol of the theories", c)
			}
			if reservedWords[name] && args[0].Kind != Quoted {
				return nil, fmt.Errorf("%s declares a reserved word", c)
			}
			sort, err := readSort(args[n-1])
			if err != nil {
				return nil, err
			}
			if _, ok := names[name]; ok {
				return nil, fmt.Errorf("%s declared twice", name)
			}
			if logic != 1 || s.Formula != nil {
				return nil, fmt.Errorf("misplaced %s", c)
			}
			names[name] = len(s.Consts)
			s.Consts = append(s.Consts, Const{name, sort})
		case "assert":
			if len(args) != 1 || s.Formula != nil || logic != 1 || sat > 0 {
				return nil, fmt.Errorf("misplaced or repeated %s", c)
			}
			ck := &checker{s: s, names: names}
			t, err := ck.term(args[0])
			if err != nil {
				return nil, err
			}
			if t.Sort != 0 {
				return nil, fmt.Errorf("the asserted term has sort %s", t.Sort)
			}
			s.Formula = t
		case "check-sat":
			if len(args) != 0 || s.Formula == nil {
				return nil, fmt.Errorf("misplaced %s", c)
			}
			sat++
		case "exit":
			if len(args) != 0 {
				return nil, fmt.Errorf("unexpected %s", c)
			}
			exit++
		default:
			return nil, fmt.Errorf("unexpected command %s", c)
		}
	}
	if version != 1 || logic != 1 || sat != 1 || exit != 1 || s.Formula == nil {
		return nil, fmt.Errorf("the script has %d version, %d logic, %d check-sat, %d exit commands and assertion %v", version, logic, sat, exit, s.Formula != nil)
	}
	return s, nil
}

// Meaning reads what a script states, whatever else it holds: the conjunction of the
// assertions before the last check-sat, with definitions, and without a view on the
// commands that state nothing.
func Meaning(text string) (*Script, error) {
	xs, comments, err := Read(text)
	if err != nil {
		return nil, err
	}
	s := &Script{Comments: comments}
	ck := &checker{s: s, names: map[string]int{}, macros: map[string]*macro{}}
	var asserted, checked []*Term
	sats := 0
	var levels []int
	for _, c := range xs {
		if c.Kind != List || len(c.List) == 0 || c.List[0].Kind != Reserved {
			return nil, fmt.Errorf("%s is not a command", c)
		}
		args := c.List[1:]
		switch head := c.List[0].Text; head {
		case "declare-const", "declare-fun":
			if len(args) < 2 || head == "declare-fun" && (len(args) != 3 || args[1].Kind != List || len(args[1].List) != 0) {
				return nil, fmt.Errorf("%s is not understood", c)
			}
			name, ok := args[0].sym()
			if _, dup := ck.names[name]; !ok || dup || ck.macros[name] != nil || theory[name] {
				return nil, fmt.Errorf("%s declares a name that is taken", c)
			}
			sort, err := readSort(args[len(args)-1])
			if err != nil {
				return nil, err
			}
			ck.names[name] = len(s.Consts)
			s.Consts = append(s.Consts, Const{name, sort})
		case "define-fun":
			if len(args) != 4 || args[1].Kind != List {
				return nil, fmt.Errorf("%s is not understood", c)
			}
			name, ok := args[0].sym()
			if _, dup := ck.names[name]; !ok || dup || ck.macros[name] != nil || theory[name] {
				return nil, fmt.Errorf("%s defines a name that is taken", c)
			}
			m := &macro{body: args[3], ck: ck}
			for _, p := range args[1].List {
				if p.Kind != List || len(p.List) != 2 {
					return nil, fmt.Errorf("%s is not understood", c)
				}
				n, _ := p.List[0].sym()
				sort, err := readSort(p.List[1])
				if err != nil {
					return nil, err
				}
				m.params, m.sorts = append(m.params, n), append(m.sorts, sort)
			}
			if m.sort, err = readSort(args[2]); err != nil {
				return nil, err
			}
			if len(m.params) == 0 {
				if m.value, err = ck.term(m.body); err != nil {
					return nil, err
				}
				if m.value.Sort != m.sort {
					return nil, fmt.Errorf("%s is not well-sorted", c)
				}
			}
			ck.macros[name] = m
		case "assert":
			if len(args) != 1 {
				return nil, fmt.Errorf("%s is not understood", c)
			}
			t, err := ck.term(args[0])
			if err != nil {
				return nil, err
			}
			if t.Sort != 0 {
				return nil, fmt.Errorf("the asserted term has sort %s", t.Sort)
			}
			asserted = append(asserted, t)
		case "push":
			levels = append(levels, len(asserted))
		case "pop":
			if len(levels) == 0 {
				return nil, fmt.Errorf("pop without push")
			}
			asserted = asserted[:levels[len(levels)-1]]
			levels = levels[:len(levels)-1]
		case "check-sat":
			sats++
			checked = append([]*Term{}, asserted...)
		case "exit":
			if sats == 0 {
				return nil, fmt.Errorf("exit before check-sat")
			}
			goto end
		case "set-logic", "set-info", "set-option", "get-model", "get-info", "get-option", "get-value", "echo", "get-assertions":
		default:
			return nil, fmt.Errorf("unexpected command %s", c)
		}
	}
end:
	if sats == 0 || len(checked) == 0 {
		return nil, fmt.Errorf("the script asserts nothing")
	}
	s.Formula = &Term{0, func(env []uint64) uint64 {
		for _, t := range checked {
			if t.Eval(env) == 0 {
				return 0
			}
		}
		return 1
	}}
	return s, nil
}

// macro is a defined function.
type macro struct {
	params []string
	sorts  []Sort
	sort   Sort
	body   *X
	value  *Term // without parameters
	ck     *checker
}

// apply instantiates the body.
func (m *macro) apply(args []*Term) (*Term, error) {
	if len(args) != len(m.params) {
		return nil, fmt.Errorf("%d arguments for %d parameters", len(args), len(m.params))
	}
	if m.value != nil {
		return m.value, nil
	}
	saved := m.ck.lets
	m.ck.lets = nil
	defer func() { m.ck.lets = saved }()
	for i, a := range args {
		if a.Sort != m.sorts[i] {
			return nil, fmt.Errorf("argument of sort %s instead of %s", a.Sort, m.sorts[i])
		}
		m.ck.lets = append(m.ck.lets, binding{m.params[i], a})
	}
	t, err := m.ck.term(m.body)
	if err == nil && t.Sort != m.sort {
		err = fmt.Errorf("definition of sort %s instead of %s", t.Sort, m.sort)
	}
	return t, err
}

func bvNumeral(s string) bool {
	if len(s) < 3 || s[:2] != "bv" {
		return false
	}
	for _, c := range s[2:] {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}

func readSort(x *X) (Sort, error) {
	if x.is("Bool") {
		return 0, nil
	}
	if x.Kind == List && len(x.List) == 3 && x.List[0].is("_") && x.List[1].is("BitVec") && x.List[2].Kind == Numeral {
		n, err := strconv.Atoi(x.List[2].Text)
		if err != nil || n < 1 || n > 64 {
			return 0, fmt.Errorf("bad sort %s", x)
		}
		return Sort(n), nil
	}
	return 0, fmt.Errorf("bad sort %s", x)
}

type checker struct {
	s     *Script
	names map[string]int
	lets  []binding

	macros map[string]*macro
}

type binding struct {
	name string
	t    *Term
}

func constant(sort Sort, v uint64) *Term {
	return &Term{sort, func([]uint64) uint64 { return v }}
}

func (c *checker) term(x *X) (*Term, error) {
	switch x.Kind {
	case Symbol, Quoted:
		for i := len(c.lets) - 1; i >= 0; i-- {
			if c.lets[i].name == x.Text {
				return c.lets[i].t, nil
			}
		}
		if i, ok := c.names[x.Text]; ok {
			return &Term{c.s.Consts[i].Sort, func(env []uint64) uint64 { return env[i] }}, nil
		}
		if m := c.macros[x.Text]; m != nil {
			return m.apply(nil)
		}
		switch x.Text {
		case "true":
			return constant(0, 1), nil
		case "false":
			return constant(0, 0), nil
		}
		return nil, fmt.Errorf("%s is used but not declared", x)
	case Hex:
		v, err := strconv.ParseUint(x.Text[2:], 16, 64)
		if err != nil {
			return nil, err
		}
		return constant(Sort(4*len(x.Text[2:])), v), nil
	case Binary:
		v, err := strconv.ParseUint(x.Text[2:], 2, 64)
		if err != nil {
			return nil, err
		}
		return constant(Sort(len(x.Text[2:])), v), nil
	case List:
	default:
		return nil, fmt.Errorf("%s is not a term", x)
	}
	if len(x.List) == 0 {
		return nil, fmt.Errorf("empty term")
	}
	h := x.List[0]
	if h.is("_") {
		if len(x.List) == 3 && x.List[1].Kind == Symbol && bvNumeral(x.List[1].Text) && x.List[2].Kind == Numeral {
			w, err := strconv.Atoi(x.List[2].Text)
			if err != nil || w < 1 || w > 64 {
				return nil, fmt.Errorf("bad width in %s", x)
			}
			n, _ := new(big.Int).SetString(x.List[1].Text[2:], 10)
			if n.BitLen() > w {
				return nil, fmt.Errorf("%s does not fit", x)
			}
			return constant(Sort(w), n.Uint64()), nil
		}
		return nil, fmt.Errorf("%s is not a term", x)
	}
	if h.is("let") {
		if len(x.List) != 3 || x.List[1].Kind != List || len(x.List[1].List) == 0 {
			return nil, fmt.Errorf("bad let %s", x)
		}
		var bs []binding
		for _, b := range x.List[1].List {
			if b.Kind != List || len(b.List) != 2 {
				return nil, fmt.Errorf("bad let %s", x)
			}
			n, ok := b.List[0].sym()
			if !ok {
				return nil, fmt.Errorf("bad let %s", x)
			}
			t, err := c.term(b.List[1])
			if err != nil {
				return nil, err
			}
			bs = append(bs, binding{n, t})
		}
		c.lets = append(c.lets, bs...)
		t, err := c.term(x.List[2])
		c.lets = c.lets[:len(c.lets)-len(bs)]
		return t, err
	}
	var idx []int
	name := ""
	switch {
	case h.Kind == Symbol || h.Kind == Quoted && c.macros[h.Text] != nil:
		name = h.Text
	case h.Kind == List && len(h.List) >= 3 && h.List[0].is("_") && h.List[1].Kind == Symbol:
		name = h.List[1].Text
		for _, y := range h.List[2:] {
			n, err := strconv.Atoi(y.Text)
			if err != nil || y.Kind != Numeral {
				return nil, fmt.Errorf("bad index in %s", x)
			}
			idx = append(idx, n)
		}
	default:
		return nil, fmt.Errorf("%s is not a term", x)
	}
	var args []*Term
	for _, y := range x.List[1:] {
		t, err := c.term(y)
		if err != nil {
			return nil, err
		}
		args = append(args, t)
	}
	if len(args) == 0 {
		return nil, fmt.Errorf("%s has no arguments", x)
	}
	if m := c.macros[name]; m != nil && idx == nil {
		return m.apply(args)
	}
	t := apply(name, idx, args)
	if t == nil {
		var ss []string
		for _, a := range args {
			ss = append(ss, a.Sort.String())
		}
		return nil, fmt.Errorf("%s is not well-sorted: %s%v applied to %s", x, name, idx, strings.Join(ss, " "))
	}
	return t, nil
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func signed(v uint64, w Sort) int64 {
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

// apply returns the application, or nil if it is not well-sorted.
func apply(name string, idx []int, a []*Term) *Term {
	n := len(a)
	s := a[0].Sort
	same := true
	for _, t := range a {
		same = same && t.Sort == s
	}
	mk := func(r Sort, f func(env []uint64) uint64) *Term { return &Term{r, f} }
	if len(idx) > 0 {
		if s == 0 || n != 1 {
			return nil
		}
		x := a[0].Eval
		w := int(s)
		switch {
		case name == "extract" && len(idx) == 2:
			i, j := idx[0], idx[1]
			if j > i || i >= w {
				return nil
			}
			r := Sort(i - j + 1)
			return mk(r, func(e []uint64) uint64 { return x(e) >> uint(j) & r.mask() })
		case len(idx) != 1:
			return nil
		case name == "zero_extend" && w+idx[0] <= 64:
			return mk(s+Sort(idx[0]), x)
		case name == "sign_extend" && w+idx[0] <= 64:
			r := s + Sort(idx[0])
			return mk(r, func(e []uint64) uint64 { return uint64(signed(x(e), s)) & r.mask() })
		case name == "rotate_left" || name == "rotate_right":
			k := idx[0] % w
			if name == "rotate_right" {
				k = (w - k) % w
			}
			return mk(s, func(e []uint64) uint64 {
				v := x(e)
				return (v<<uint(k) | v>>uint(w-k)) & s.mask()
			})
		case name == "repeat" && idx[0] >= 1 && w*idx[0] <= 64:
			r := s * Sort(idx[0])
			return mk(r, func(e []uint64) uint64 {
				v, o := x(e), uint64(0)
				for i := 0; i < idx[0]; i++ {
					o |= v << uint(i*w)
				}
				return o
			})
		}
		return nil
	}
	// Core.
	switch name {
	case "not":
		if n != 1 || s != 0 {
			return nil
		}
		return mk(0, func(e []uint64) uint64 { return 1 - a[0].Eval(e) })
	case "and", "or", "xor", "=>":
		if n < 2 || !same || s != 0 {
			return nil
		}
		return mk(0, func(e []uint64) uint64 {
			if name == "=>" { // right associative
				r := a[n-1].Eval(e)
				for i := n - 2; i >= 0; i-- {
					r = (1 - a[i].Eval(e)) | r
				}
				return r
			}
			r := a[0].Eval(e)
			for _, t := range a[1:] {
				v := t.Eval(e)
				switch name {
				case "and":
					r &= v
				case "or":
					r |= v
				case "xor":
					r ^= v
				}
			}
			return r
		})
	case "=":
		if n < 2 || !same {
			return nil
		}
		return mk(0, func(e []uint64) uint64 {
			v := a[0].Eval(e)
			for _, t := range a[1:] {
				if t.Eval(e) != v {
					return 0
				}
			}
			return 1
		})
	case "distinct":
		if n < 2 || !same {
			return nil
		}
		return mk(0, func(e []uint64) uint64 {
			var vs []uint64
			for _, t := range a {
				v := t.Eval(e)
				for _, o := range vs {
					if o == v {
						return 0
					}
				}
				vs = append(vs, v)
			}
			return 1
		})
	case "ite":
		if n != 3 || s != 0 || a[1].Sort != a[2].Sort {
			return nil
		}
		return mk(a[1].Sort, func(e []uint64) uint64 {
			if a[0].Eval(e) == 1 {
				return a[1].Eval(e)
			}
			return a[2].Eval(e)
		})
	}
	// Bit vectors.
	for _, t := range a {
		if t.Sort == 0 {
			return nil
		}
	}
	m := s.mask()
	if name == "concat" {
		if n != 2 || a[0].Sort+a[1].Sort > 64 {
			return nil
		}
		k := uint(a[1].Sort)
		return mk(a[0].Sort+a[1].Sort, func(e []uint64) uint64 { return a[0].Eval(e)<<k | a[1].Eval(e) })
	}
	if !same {
		return nil
	}
	if n == 1 {
		x := a[0].Eval
		switch name {
		case "bvnot":
			return mk(s, func(e []uint64) uint64 { return ^x(e) & m })
		case "bvneg":
			return mk(s, func(e []uint64) uint64 { return -x(e) & m })
		}
		return nil
	}
	var f func(u, v uint64) uint64
	leftassoc := false
	r := s
	switch name {
	case "bvadd", "bvmul", "bvand", "bvor", "bvxor":
		leftassoc = true
	}
	neg := func(v uint64) uint64 { return -v & m }
	udiv := func(u, v uint64) uint64 {
		if v == 0 {
			return m
		}
		return u / v
	}
	urem := func(u, v uint64) uint64 {
		if v == 0 {
			return u
		}
		return u % v
	}
	msb := func(v uint64) bool { return signed(v, s) < 0 }
	switch name {
	case "bvadd":
		f = func(u, v uint64) uint64 { return u + v }
	case "bvsub":
		f = func(u, v uint64) uint64 { return u - v }
	case "bvmul":
		f = func(u, v uint64) uint64 { return u * v }
	case "bvand":
		f = func(u, v uint64) uint64 { return u & v }
	case "bvor":
		f = func(u, v uint64) uint64 { return u | v }
	case "bvxor":
		f = func(u, v uint64) uint64 { return u ^ v }
	case "bvnand":
		f = func(u, v uint64) uint64 { return ^(u & v) }
	case "bvnor":
		f = func(u, v uint64) uint64 { return ^(u | v) }
	case "bvxnor":
		f = func(u, v uint64) uint64 { return ^(u ^ v) }
	case "bvudiv":
		f = udiv
	case "bvurem":
		f = urem
	case "bvsdiv":
		f = func(u, v uint64) uint64 {
			switch {
			case !msb(u) && !msb(v):
				return udiv(u, v)
			case msb(u) && !msb(v):
				return neg(udiv(neg(u), v))
			case !msb(u):
				return neg(udiv(u, neg(v)))
			}
			return udiv(neg(u), neg(v))
		}
	case "bvsrem":
		f = func(u, v uint64) uint64 {
			switch {
			case !msb(u) && !msb(v):
				return urem(u, v)
			case msb(u) && !msb(v):
				return neg(urem(neg(u), v))
			case !msb(u):
				return urem(u, neg(v))
			}
			return neg(urem(neg(u), neg(v)))
		}
	case "bvsmod":
		f = func(u, v uint64) uint64 {
			au, av := u, v
			if msb(u) {
				au = neg(u)
			}
			if msb(v) {
				av = neg(v)
			}
			k := urem(au, av)
			switch {
			case k == 0:
				return k
			case !msb(u) && !msb(v):
				return k
			case msb(u) && !msb(v):
				return neg(k) + v
			case !msb(u):
				return k + v
			}
			return neg(k)
		}
	case "bvshl":
		f = func(u, v uint64) uint64 {
			if v >= uint64(s) {
				return 0
			}
			return u << v
		}
	case "bvlshr":
		f = func(u, v uint64) uint64 {
			if v >= uint64(s) {
				return 0
			}
			return u >> v
		}
	case "bvashr":
		f = func(u, v uint64) uint64 {
			if v >= uint64(s) {
				v = uint64(s) - 1
			}
			return uint64(signed(u, s) >> v)
		}
	case "bvcomp":
		r = 1
		f = func(u, v uint64) uint64 { return b2u(u == v) }
	case "bvult":
		r, f = 0, func(u, v uint64) uint64 { return b2u(u < v) }
	case "bvule":
		r, f = 0, func(u, v uint64) uint64 { return b2u(u <= v) }
	case "bvugt":
		r, f = 0, func(u, v uint64) uint64 { return b2u(u > v) }
	case "bvuge":
		r, f = 0, func(u, v uint64) uint64 { return b2u(u >= v) }
	case "bvslt":
		r, f = 0, func(u, v uint64) uint64 { return b2u(signed(u, s) < signed(v, s)) }
	case "bvsle":
		r, f = 0, func(u, v uint64) uint64 { return b2u(signed(u, s) <= signed(v, s)) }
	case "bvsgt":
		r, f = 0, func(u, v uint64) uint64 { return b2u(signed(u, s) > signed(v, s)) }
	case "bvsge":
		r, f = 0, func(u, v uint64) uint64 { return b2u(signed(u, s) >= signed(v, s)) }
	default:
		return nil
	}
	if n != 2 && !(leftassoc && n > 2) {
		return nil
	}
	rm := r.mask()
	return mk(r, func(e []uint64) uint64 {
		v := a[0].Eval(e)
		for _, t := range a[1:] {
			v = f(v, t.Eval(e)) & rm
		}
		return v
	})
}
