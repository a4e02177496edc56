// Command instr writes copies of the library's source files with scheduling points before
// every statement, with package sync, go statements and channel operations replaced, and
// an overlay file for go build.
//
//	instr REPO OUTDIR
//
// It ends with status 3 if the sources use blocking operations that the controlled
// scheduler does not know, in which case nothing is instrumented.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func fatal(v ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"instr:"}, v...)...)
	os.Exit(2)
}

type edit struct {
	at, end int
	text    string
	order   int
}

type source struct {
	path, rel string
	src       []byte
	f         *ast.File
}

type pkg struct {
	dir     string
	files   []*source
	chans   bool // uses channels
	unbuf   bool // makes unbuffered channels
	selects bool
	atomics bool
	clock   bool // uses package time or context
	info    *types.Info
}

var fset = token.NewFileSet()

func unknown(n ast.Node, what string) {
	fmt.Fprintf(os.Stderr, "instr: %s: %s: not instrumented\n", fset.Position(n.Pos()), what)
	os.Exit(3)
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	os.RemoveAll(out)
	pkgs := map[string]*pkg{}
	var dirs []string
	err := filepath.Walk(repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, path)
		if info.IsDir() {
			b := info.Name()
			if rel != "." && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "cmd" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			return err
		}
		if f.Name.Name == "main" {
			return nil
		}
		d := filepath.Dir(path)
		if pkgs[d] == nil {
			pkgs[d] = &pkg{dir: d}
			dirs = append(dirs, d)
		}
		pkgs[d].files = append(pkgs[d].files, &source{path, rel, src, f})
		return nil
	})
	if err != nil {
		fatal(err)
	}
	for _, d := range dirs {
		pkgs[d].survey(repo)
	}
	overlay := map[string]string{}
	points := 0
	for _, d := range dirs {
		for _, s := range pkgs[d].files {
			r := &rewriter{p: pkgs[d], s: s}
			text := r.rewrite()
			points += r.points
			dst := filepath.Join(out, "src", s.rel)
			if err := os.MkdirAll(filepath.Dir(dst), 0755); err != nil {
				fatal(err)
			}
			if err := os.WriteFile(dst, text, 0644); err != nil {
				fatal(err)
			}
			overlay[s.path] = dst
		}
	}
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0644); err != nil {
		fatal(err)
	}
	fmt.Printf("%d files, %d scheduling points\n", len(overlay), points)
}

// survey finds out what the package uses.
func (p *pkg) survey(repo string) {
	var sel *ast.SelectStmt
	var ranges bool
	for _, s := range p.files {
		for _, i := range s.f.Imports {
			switch v, _ := strconv.Unquote(i.Path.Value); v {
			case "sync/atomic":
				p.atomics = true
			case "time", "context":
				p.clock = true
			}
		}
		ast.Inspect(s.f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ChanType:
				p.chans = true
			case *ast.SelectStmt:
				p.selects, sel = true, n
			case *ast.RangeStmt:
				ranges = true
			case *ast.TypeSpec:
				if _, ok := n.Type.(*ast.ChanType); ok {
					unknown(n, "a named channel type")
				}
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "make" && len(n.Args) > 0 {
					if _, ok := n.Args[0].(*ast.ChanType); ok && (len(n.Args) == 1 || !positive(n.Args[1])) {
						p.unbuf = true
					}
				}
			}
			return true
		})
	}
	if p.selects && (p.unbuf || p.clock) {
		unknown(sel, "select with unbuffered channels or time")
	}
	if p.chans && ranges {
		// Which range statements are over channels?
		p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		os.Chdir(repo)
		conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil)}
		var fs []*ast.File
		for _, s := range p.files {
			fs = append(fs, s.f)
		}
		if _, err := conf.Check(p.dir, fset, fs, p.info); err != nil {
			unknown(fs[0], err.Error())
		}
	}
}

// positive reports whether e is a constant above zero, or unknown to be zero.
func positive(e ast.Expr) bool {
	l, ok := e.(*ast.BasicLit)
	return !ok || l.Value != "0"
}

type rewriter struct {
	p      *pkg
	s      *source
	es     []edit
	points int
	// recvs are receptions which belong to a communication clause or an assignment.
	recvs map[*ast.UnaryExpr]string
}

func (r *rewriter) off(p token.Pos) int { return fset.Position(p).Offset }

func (r *rewriter) put(at, end token.Pos, text string) {
	r.es = append(r.es, edit{r.off(at), r.off(end), text, len(r.es)})
}

func (r *rewriter) syncs(n ast.Node) (found bool) {
	if !r.p.atomics {
		return false
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.SelectorExpr:
			if x, ok := n.X.(*ast.Ident); ok && x.Name == "atomic" {
				found = true
			}
			switch n.Sel.Name {
			case "Load", "Store", "Swap", "CompareAndSwap", "Add", "And", "Or":
				found = true
			}
		}
		return true
	})
	return found
}

func (r *rewriter) list(ss []ast.Stmt) {
	for _, s := range ss {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		r.points++
		text := "verifsched.P();"
		if r.syncs(s) {
			text += "verifsched.Sync();"
		}
		r.put(s.Pos(), s.Pos(), text)
	}
}

func (r *rewriter) rewrite() []byte {
	f := r.s.f
	r.recvs = map[*ast.UnaryExpr]string{}
	r.put(f.Name.End(), f.Name.End(), `; import verifsched "verif/mc/sched"`)
	syncName := ""
	last := f.Name.End()
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		if p != "sync" {
			continue
		}
		syncName = "sync"
		name := "sync "
		if i.Name != nil {
			syncName, name = i.Name.Name, ""
		}
		if syncName == "." {
			unknown(i, "import of sync without a name")
		}
		r.put(i.Path.Pos(), i.Path.End(), name+`"verif/mc/sched/vsync"`)
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			last = g.End()
		}
	}
	// The extra declaration has to follow all imports.
	r.put(last, last, "; var _ = verifsched.P")
	comm := map[ast.Node]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			r.list(n.List)
		case *ast.CaseClause:
			r.list(n.Body)
		case *ast.CommClause:
			r.list(n.Body)
			if n.Comm != nil {
				comm[n.Comm] = true
				ast.Inspect(n.Comm, func(m ast.Node) bool {
					if u, ok := m.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
						r.recvs[u] = "native"
					}
					return true
				})
			}
		case *ast.ForStmt:
			if r.p.atomics {
				r.put(n.Body.Lbrace+1, n.Body.Lbrace+1, "verifsched.Sync();")
			}
		case *ast.RangeStmt:
			if r.p.info != nil {
				if t, ok := r.p.info.Types[n.X].Type.Underlying().(*types.Chan); ok && t != nil {
					key := "_"
					def := "="
					if n.Key != nil {
						key = string(r.s.src[r.off(n.Key.Pos()):r.off(n.Key.End())])
						def = n.Tok.String()
					}
					if def == "=" && key != "_" {
						unknown(n, "range over a channel into a variable")
					}
					x := string(r.s.src[r.off(n.X.Pos()):r.off(n.X.End())])
					r.put(n.For, n.Body.Lbrace+1, fmt.Sprintf("for { %s, verifok := verifsched.Recv2(%s); if !verifok { break }; ", key, x))
				}
			}
		case *ast.SelectStmt:
			hasDefault := false
			for _, c := range n.Body.List {
				if c.(*ast.CommClause).Comm == nil {
					hasDefault = true
				}
			}
			if hasDefault {
				break // the point before it suffices
			}
			ast.Inspect(n.Body, func(m ast.Node) bool {
				if b, ok := m.(*ast.BranchStmt); ok && (b.Tok == token.CONTINUE || b.Label != nil) {
					unknown(b, "a jump out of a select")
				}
				return true
			})
			r.put(n.Select, n.Body.Lbrace+1, "for { verifsched.Sync(); select {")
			r.put(n.Body.Rbrace, n.Body.Rbrace+1, "default: verifsched.Blocked(); continue }; verifsched.Progress(); break }")
		case *ast.GoStmt:
			// go f(a, b) evaluates f, a and b now.
			c := n.Call
			if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
				r.put(n.Go, fl.Pos(), "verifsched.Go(")
				r.put(c.Lparen, c.Rparen+1, ")")
				break
			}
			if c.Ellipsis.IsValid() {
				unknown(n, "a go statement with a variadic call")
			}
			var lhs []string
			for i := range c.Args {
				lhs = append(lhs, fmt.Sprintf("verifarg%d", i))
			}
			names := append([]string{"veriffun"}, lhs...)
			r.put(n.Go, c.Fun.Pos(), "{ "+strings.Join(names, ", ")+" := ")
			if len(c.Args) == 0 {
				r.put(c.Lparen, c.Rparen+1, "")
			} else {
				r.put(c.Lparen, c.Lparen+1, ", ")
				r.put(c.Rparen, c.Rparen+1, "")
			}
			r.put(n.End(), n.End(), "; verifsched.Go(func() { veriffun("+strings.Join(lhs, ", ")+") }) }")
		case *ast.SendStmt:
			if comm[n] {
				break
			}
			r.put(n.Chan.Pos(), n.Chan.Pos(), "verifsched.Send(")
			r.put(n.Chan.End(), n.Value.Pos(), ")(")
			r.put(n.Value.End(), n.Value.End(), ")")
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u, ok := n.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW && r.recvs[u] == "" {
					r.recvs[u] = "verifsched.Recv2("
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u, ok := n.Values[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					r.recvs[u] = "verifsched.Recv2("
				}
			}
		case *ast.UnaryExpr:
			if n.Op != token.ARROW || r.recvs[n] == "native" {
				break
			}
			text := r.recvs[n]
			if text == "" {
				text = "verifsched.Recv("
			}
			r.put(n.OpPos, n.X.Pos(), text)
			r.put(n.X.End(), n.X.End(), ")")
		case *ast.CallExpr:
			id, ok := n.Fun.(*ast.Ident)
			if !ok || id.Name != "make" || len(n.Args) == 0 {
				break
			}
			if _, ok := n.Args[0].(*ast.ChanType); !ok {
				break
			}
			if len(n.Args) == 1 || !positive(n.Args[1]) {
				r.put(n.Pos(), n.Pos(), "verifsched.Unbuffered(")
				r.put(n.Args[0].End(), n.Rparen, ", 1)")
			}
		case *ast.SelectorExpr:
			if x, ok := n.X.(*ast.Ident); ok && syncName != "" && x.Name == syncName {
				switch n.Sel.Name {
				case "Mutex", "RWMutex", "Once", "Pool", "Map", "Locker", "WaitGroup", "Cond", "NewCond", "OnceFunc", "OnceValue", "OnceValues":
				default:
					unknown(n, "sync."+n.Sel.Name)
				}
			}
		}
		return true
	})
	sort.SliceStable(r.es, func(i, j int) bool {
		a, b := r.es[i], r.es[j]
		if a.at != b.at {
			return a.at < b.at
		}
		// What only inserts comes first.
		return a.end == a.at && b.end != b.at
	})
	var b bytes.Buffer
	if r.p.chans || syncName != "" {
		b.WriteString("//go:build go1.21\n\n")
	}
	at := 0
	for _, e := range r.es {
		if e.at < at {
			unknown(f, "overlapping changes")
		}
		b.Write(r.s.src[at:e.at])
		b.WriteString(e.text)
		at = e.end
	}
	b.Write(r.s.src[at:])
	return b.Bytes()
}
