package props

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"time"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/printer"

	"verif/mc/explore"
	"verif/mc/model"
)

// What a call returned belongs to the caller: it may be changed, and it stays as it is
// whatever becomes of what it was made from.

// ownable reports whether a result belongs to the caller alone.
func ownable(keep interface{}) bool {
	switch k := keep.(type) {
	case []byte:
		return k != nil
	case *ast.File:
		return k != nil
	}
	return false
}

var ownedCalls []int

// owned are the calls whose results belong to the caller.
func owned() []int {
	if ownedCalls == nil {
		for i, c := range pool {
			if c.expands || c.often {
				continue
			}
			if _, keep := c.run(newWorld()); ownable(keep) {
				ownedCalls = append(ownedCalls, i)
			}
		}
	}
	return ownedCalls
}

// c18Owned makes a call, and the same or another one, changes the first result, and makes
// both again.
func c18Owned(x *explore.X, tier string) {
	cs := owned()
	a := cs[x.Free(len(cs))]
	b := a
	if k := x.Free(1 + pick(tier, 24, len(cs))); k > 0 {
		b = cs[(k-1)*len(cs)/pick(tier, 24, len(cs))]
	}
	x.Describe(func() string {
		return fmt.Sprintf("%s, then %s; the first result is changed", pool[a].name, pool[b].name)
	})
	x.Key(fmt.Sprint(a, b))
	h := newHistorian(x)
	h.do(a)
	h.do(b)
	if len(h.kept) != 2 || !ownable(h.kept[0].v) {
		x.Fail("%s, then %s do not return what they return first", pool[a].name, pool[b].name)
	}
	model.Take(h.kept[0].v, "<mine>")
	h.kept[0].full = fullOf(h.kept[0].v)
	h.checkFiles("changing the first result")
	h.checkKept()
	h.names = append(h.names, "a change to the first result")
	h.do(b)
	h.do(a)
	h.checkKept()
}

// collect runs the garbage collector, and all finalizers.
func collect() {
	for k := 0; k < 2; k++ {
		done := make(chan bool)
		func() {
			s := &struct{ b [64]byte }{}
			runtime.SetFinalizer(s, func(interface{}) { close(done) })
		}()
		runtime.GC()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
		}
		runtime.Gosched()
	}
}

// parts are all the nodes and lists below v.
func parts(v reflect.Value, f func(part interface{})) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		f(v.Interface())
		parts(v.Elem(), f)
	case reflect.Interface:
		if !v.IsNil() {
			if e := v.Elem(); e.Kind() != reflect.Ptr {
				f(e.Interface())
			}
			parts(v.Elem(), f)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				parts(v.Field(i), f)
			}
		}
	case reflect.Slice:
		if v.Len() > 0 {
			f(v.Interface())
		}
		for i := 0; i < v.Len(); i++ {
			parts(v.Index(i), f)
		}
	}
}

func part(f *ast.File, n int) (p interface{}) {
	k := 0
	parts(reflect.ValueOf(f), func(part interface{}) {
		if k == n {
			p = part
		}
		k++
	})
	return p
}

// c18Parts keeps a part of what a call returned and drops the rest.
func c18Parts(x *explore.X) {
	texts := []string{worldTexts[2], worldTexts[0], "(A x) => x\n"}
	text := texts[x.Free(len(texts))]
	expand := x.Free(2) == 1
	get := func() *ast.File {
		f, err := parse.String(text)
		if err != nil {
			x.Fail("%q is rejected: %v", text, err)
		}
		if expand {
			if err := pass.ExpandAlternates(f); err != nil {
				x.Fail("%q is not expanded: %v", text, err)
			}
		}
		return f
	}
	count := 0
	parts(reflect.ValueOf(get()), func(interface{}) { count++ })
	n := x.Free(count)
	p := part(get(), n)
	x.Describe(func() string { return fmt.Sprintf("part %d (%T) of %q, expanded %v", n, p, text, expand) })
	x.Key(text, fmt.Sprint(expand, n))
	x.Outcome = fmt.Sprintf("%T", p)
	before := model.Full(p)
	printed := func() string {
		m, ok := p.(ast.Node)
		if !ok {
			return ""
		}
		b, err := printer.Bytes(m)
		return errText(err) + string(b)
	}
	text0 := printed()
	for k := 0; k < 2; k++ {
		collect()
		// Whatever is used again is used for something else now.
		for i := 0; i < 6; i++ {
			f, err := parse.String(worldTexts[5] + "(Z(y|w) <v> [u] {t} s) && r => @q (P)\n")
			if err != nil {
				x.Fail("a file of the pool is rejected: %v", err)
			}
			pass.ExpandAlternates(f)
		}
		same(x, "the part that was kept", model.Full(p), before)
		same(x, "the part that was kept, printed,", printed(), text0)
		x.Validated(2)
	}
	runtime.KeepAlive(p)
}

// c18Kept keeps the result of a call and drops all that it was made from.
func c18Kept(x *explore.X) {
	i := x.Free(len(pool))
	if pool[i].often {
		return
	}
	x.Describe(func() string { return pool[i].name })
	x.Key(fmt.Sprint(i))
	var keep interface{}
	func() {
		w := newWorld()
		_, keep = pool[i].run(w)
	}()
	if keep == nil {
		return
	}
	before := fullOf(keep)
	collect()
	for k, c := range pool[:core] {
		if k != i {
			c.run(newWorld())
		}
	}
	same(x, "the result that was kept", fullOf(keep), before)
	x.Validated(1)
}

// bufferLike has methods of a bytes.Buffer without being one.
type bufferLike struct{ *bytes.Buffer }

// c18Sources changes what a tree was parsed from.
func c18Sources(x *explore.X) {
	texts := append(append([]string{}, longerTexts...), worldTexts[2], "(AAAA x) => (BBBB x)\n", "(A {f(}) => x", "(A x) => @block (Y) )", "v:(Add(8|16) <typ> [aux+1] {sym} arg f(go, expr) ...) && cond == \"s\" => @blk res // note\n")
	text := texts[x.Free(len(texts))]
	kinds := []string{"buffer", "buffer, partly", "reader", "buffered", "like a buffer", "section", "file by name", "file", "pipe", "two buffers"}
	kind := kinds[x.Free(len(kinds))]
	x.Describe(func() string { return fmt.Sprintf("%q from a %s", text, kind) })
	x.Key(text, kind)
	// The text that comes to lie where this one was.
	other := bytes.Map(func(r rune) rune {
		switch {
		case r >= 'a' && r < 'z' || r >= 'A' && r < 'Z':
			return r + 1
		case r == '=':
			return ' '
		}
		return r
	}, []byte(text))
	data := []byte(text)
	spoil := func(b []byte) {
		b = b[:cap(b)]
		for i := range b {
			b[i] = '#'
		}
		copy(b, other)
	}
	var f *ast.File
	var err error
	var after func()
	name := "string"
	switch kind {
	case "buffer":
		b := bytes.NewBuffer(data)
		f, err = parse.Reader(name, b)
		after = func() { b.Reset(); b.Write(other); spoil(data) }
	case "buffer, partly":
		all := append([]byte("junk"), data...)
		b := bytes.NewBuffer(all)
		b.Next(4)
		f, err = parse.Reader(name, b)
		after = func() { b.Reset(); b.Write(other); spoil(all[4:]) }
	case "reader":
		b := bytes.NewReader(data)
		f, err = parse.Reader(name, b)
		after = func() { b.Reset(other); spoil(data) }
	case "buffered":
		b := bufio.NewReaderSize(bytes.NewReader(data), 4096)
		b.Peek(len(data))
		f, err = parse.Reader(name, b)
		after = func() { b.Reset(bytes.NewReader(other)); b.Peek(len(other)); spoil(data) }
	case "like a buffer":
		b := bufferLike{bytes.NewBuffer(data)}
		f, err = parse.Reader(name, b)
		after = func() { b.Reset(); b.Write(other); spoil(data) }
	case "section":
		f, err = parse.Reader(name, io.NewSectionReader(bytes.NewReader(data), 0, int64(len(data))))
		after = func() { spoil(data) }
	case "file by name", "file":
		dir := freshDir()
		defer os.RemoveAll(dir)
		p := filepath.Join(dir, "a")
		put(p, text)
		name = p
		if kind == "file" {
			h, e := os.Open(p)
			if e != nil {
				panic(e)
			}
			f, err = parse.Reader(name, h)
			h.Close()
		} else {
			f, err = parse.File(p)
		}
		after = func() {
			h, e := os.OpenFile(p, os.O_WRONLY, 0)
			if e != nil {
				panic(e)
			}
			h.Write(other)
			h.Truncate(1)
			h.Close()
		}
	case "pipe":
		r, w := io.Pipe()
		go func() { w.Write(data); w.Close() }()
		f, err = parse.Reader(name, r)
		io.Copy(io.Discard, r)
		after = func() { spoil(data) }
	case "two buffers":
		a, b := bytes.NewBuffer(data[:len(data)/2:len(data)/2]), bytes.NewBuffer(data[len(data)/2:])
		f, err = parse.Reader(name, io.MultiReader(a, b))
		after = func() { a.Reset(); a.Write(other); spoil(data) }
	}
	got := parseOutcome(f, err, name)
	same(x, "outcome", got, reference(text))
	x.Outcome = got[:5]
	after()
	same(x, "outcome, after the source has changed,", parseOutcome(f, err, name), got)
	x.Validated(2)
}
