package props

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/smt2"

	"verif/mc/explore"
	"verif/mc/model"
)

func init() {
	All["C15"] = &Prop{
		Level:   "model_checking",
		NoLimit: true,
		States:  "distinct runs of the command (arguments, file contents and state of the output directory)",
		Bounds:  "lists: every file list of up to 2 (thorough 3) files with up to 2 (3) rules each over 12 (16) rule kinds (supported, unsupported, every filtering feature, groups with and without support); kinds: every one of 24 rule kinds between two supported rules; errors: each of 37 kinds of unusable input (also empty and blank names, directories, patterns, lists of names) at every position of up to 3 files; outputs: unwritable output at every index (directory in the way, missing directory, full device), stale files (longer, shorter, of the same size, of another rule, older and newer), output directory options, 13 states of the standard streams (closed, full, read-only, with data); counts: 9 to 11, 99 to 101, 999 to 1001 9999 to 10001, 66001 and 80001 queries or rules; names: each of 83 odd file names (as input, as output directory, as both; relative and absolute) with and without neighbours; repeated: every list of up to 3 of 10 names for 5 files (same path, other spellings, links, same content); corpus: every rules file of the repository and all together",
		Assume:  []string{"the library's own query for a rule (decided by C12 to C14) is the right content", "the command's logging is not specified"},
		Subs: func(tier string) []*explore.Sub {
			return []*explore.Sub{
				{Name: "lists", Split: 64, Share: 5, Run: func(x *explore.X) { c15Lists(x, tier) }},
				{Name: "kinds", Split: 64, Share: 2, Run: c15Kinds},
				{Name: "features", Split: 64, Share: 2, Run: c15Features},
				{Name: "errors", Split: 64, Share: 2, Run: c15Errors},
				{Name: "outputs", Split: 16, Share: 2, Run: c15Outputs},
				{Name: "counts", Split: 8, Hang: 100 * time.Second, Share: 2, Run: func(x *explore.X) { c15Counts(x, tier) }},
				{Name: "names", Split: 32, Share: 2, Run: c15Names},
				{Name: "constants", Split: 32, Share: 2, Run: c15Constants},
				{Name: "repeated", Split: 32, Share: 2, Run: c15Repeated},
				{Name: "corpus", Split: 4, Run: c15Corpus},
			}
		},
	}
}

var (
	scratchOnce sync.Once
	scratchDir  string
)

// scratch returns this process's scratch directory.
func scratch() string {
	scratchOnce.Do(func() {
		d, err := os.MkdirTemp("", "ssarules-mc-")
		if err != nil {
			panic(err)
		}
		scratchDir = d
		cleanups = append(cleanups, func() { os.RemoveAll(d) })
	})
	return scratchDir
}

// freshDir returns an empty directory of its own below the scratch directory.
func freshDir() string {
	d, err := os.MkdirTemp(scratch(), "d")
	if err != nil {
		panic(err)
	}
	return d
}

func put(path, text string) {
	if err := os.WriteFile(path, []byte(text), 0644); err != nil {
		panic(err)
	}
}

// redirect is what the shell does to the standard streams of the command.
var redirect string

// fewFiles limits the open files of the command.
var fewFiles = false

// largeInput means that the command may take its time.
var largeInput bool

// command runs the command under test in dir.
func command(x *explore.X, dir string, args ...string) (code int, out string) {
	cmd := exec.Command(filepath.Join(Root, "bin/ssarules"), args...)
	cmd.Dir = dir
	if fewFiles {
		// Programs get no more open files than this by default.
		cmd = exec.Command("/bin/sh", append([]string{"-c", `ulimit -n 1024; exec "$0" "$@"`, cmd.Path}, args...)...)
		cmd.Dir = dir
	}
	if redirect != "" {
		cmd = exec.Command("/bin/sh", append([]string{"-c", `exec "$0" "$@" ` + redirect, cmd.Path}, args...)...)
		cmd.Dir = dir
	}
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "GOTRACEBACK=single"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	var late int32
	timer := time.AfterFunc(60*time.Second, func() {
		atomic.StoreInt32(&late, 1)
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	err := cmd.Run()
	timer.Stop()
	code = cmd.ProcessState.ExitCode()
	if err != nil && code < 0 && largeInput && atomic.LoadInt32(&late) == 1 {
		x.Undecided()
	}
	if err != nil && code < 0 {
		x.Fail("the command was ended by a signal: %v\n%s", err, clip(buf.String()))
	}
	if s := buf.String(); strings.Contains(s, "panic: ") && strings.Contains(s, "goroutine ") {
		x.Fail("the command panicked: %s", clip(s))
	}
	return code, buf.String()
}

// listing reads all regular files of a directory.
func listing(dir string) map[string]string {
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil
	}
	m := map[string]string{}
	for _, e := range es {
		p := filepath.Join(dir, e.Name())
		if e.IsDir() {
			m[e.Name()] = "<directory>"
			continue
		}
		b, err := os.ReadFile(p)
		if err != nil {
			panic(err)
		}
		m[e.Name()] = string(b)
	}
	return m
}

// queries are the files that must be written for the rules.
func queries(rs []*model.Rule) (files map[string]string, ok bool) {
	var simple []*model.Rule
	for _, r := range rs {
		if model.Simple(r) {
			simple = append(simple, r)
		}
	}
	exp, ok := model.ExpandFile(simple)
	if !ok {
		return nil, false
	}
	files = map[string]string{}
	for i, r := range exp {
		b, err := smt2.Generate(r.ToAST())
		if err == nil {
			files[fmt.Sprintf("%04d.smt2", i)] = string(b)
		}
	}
	return files, true
}

func names(m map[string]string) []string {
	var ns []string
	for n := range m {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

// sameFiles compares the directory contents.
func sameFiles(x *explore.X, got, want map[string]string, out string) {
	for _, n := range names(got) {
		w, ok := want[n]
		if !ok {
			x.Fail("file %s is written, expected are %v; content\n%s\noutput\n%s", n, names(want), clip(got[n]), clip(out))
		}
		if got[n] != w {
			same(x, "content of "+n, got[n], w)
		}
	}
	for _, n := range names(want) {
		if _, ok := got[n]; !ok {
			x.Fail("file %s is not written, only %v\noutput\n%s", n, names(got), clip(out))
		}
	}
	x.Validated(len(want))
}

// checkCommand runs the command on the files and checks what it writes.
func checkCommand(x *explore.X, texts []string, rs []*model.Rule) {
	dir := freshDir()
	defer os.RemoveAll(dir)
	in, out := filepath.Join(dir, "in"), filepath.Join(dir, "out")
	os.Mkdir(in, 0755)
	os.Mkdir(out, 0755)
	args := []string{"-outdir", out}
	for i, t := range texts {
		p := filepath.Join(in, fmt.Sprintf("f%d.rules", i))
		put(p, t)
		args = append(args, p)
	}
	x.Key(append([]string{"files"}, texts...)...)
	want, ok := queries(rs)
	code, log := command(x, dir, args...)
	got := listing(out)
	if !ok {
		x.Outcome = "not expandable"
		if code == 0 {
			x.Fail("the command succeeds although alternatives are incompatible\n%s", clip(log))
		}
		if len(got) > 0 {
			x.Fail("the command writes %v although alternatives are incompatible", names(got))
		}
		return
	}
	x.Outcome = fmt.Sprintf("%d queries", len(want))
	if len(want) > 9 {
		x.Outcome = "10 or more queries"
	}
	if code != 0 {
		x.Fail("the command fails with status %d\n%s", code, clip(log))
	}
	sameFiles(x, got, want, log)
	for i, t := range texts {
		if b := readFile(filepath.Join(in, fmt.Sprintf("f%d.rules", i))); b != t {
			x.Fail("the command changed its input file")
		}
	}
}

// commandRules are rule kinds for the command, in order of interest.
func commandRules() []string {
	return []string{
		"(Add8 x y) => (Add8 y x)",
		"(Frob x) => x",
		"(Add8 x y) && c => (Add8 y x)",
		"(Sub(8|16|32) x x) => (Xor(8|16|32) x x)",
		"(Sub8 x:(Neg8 y) z) => z",
		"(Add8 <t> x y) => (Add8 y x)",
		"(Neg(8|99|32|64) x) => (Com(8|16|32|64) x)",
		"(Add8 [c] x y) => x",
		"(Add8 x y) => @b (Add8 y x)",
		"(Neg8 x) => (Com8 {s} x)",
		"(Neg8 x ...) => (Com8 ...)",
		"(Neg8 x ___) => (Com8 x)",
		"(Neg(8|16) x) => (Com(8|16|32) x)",
		"(Not (EqB x y)) => (NeqB x y)",
		"(Neg(8|16) x) && c => (Com(8|16|32) x)",
		"(Add8 x y) => (Add16 y x)",
		"(Neg8 (Neg8 <t> x)) => x",
		"(Neg8 x) => (Com8 (Neg8 x y:(Z)))",
		"(Neg8 x) => f(x)",
		"x => (Neg8 x)",
		"(Neg8 (Com8 x [0])) => x",
		"(Neg8 x) => (Com8 (Neg8 x ...))",
		"(Neg8 _) => _",
		"(Add64 (Add64 x ___) y) => x",
	}
}

func rulesOf(text string) []*model.Rule {
	f, err := parse.String(text)
	if err != nil {
		panic(fmt.Sprintf("mc: %q: %v", text, err))
	}
	return model.FromFile(f)
}

func c15Lists(x *explore.X, tier string) {
	ks := commandRules()[:pick(tier, 12, 16)]
	var texts []string
	n := x.Free(pick(tier, 3, 4))
	for i := 0; i < n; i++ {
		var b strings.Builder
		m := x.Free(3)
		if i == 2 && m > 1 {
			m = 1
		}
		for k := 0; k < m; k++ {
			j := len(ks)
			if tier != "thorough" && i > 0 {
				j = 7
			}
			b.WriteString(ks[x.Free(j)] + "\n")
		}
		texts = append(texts, b.String())
	}
	x.Describe(func() string { return fmt.Sprintf("files %q", texts) })
	var rs []*model.Rule
	for _, t := range texts {
		rs = append(rs, rulesOf(t)...)
	}
	checkCommand(x, texts, rs)
}

func c15Kinds(x *explore.X) {
	ks := commandRules()
	a, b := ks[x.Free(len(ks))], ks[x.Free(len(ks))]
	t := ks[0] + "\n" + a + "\n" + ks[3] + "\n" + b + "\n" + ks[0] + "\n"
	x.Describe(func() string { return t })
	checkCommand(x, []string{t}, rulesOf(t))
}

// c15Features filters one feature at one position.
func c15Features(x *explore.X) {
	mk := func() (*model.Rule, []*model.S) {
		a, b := sx("Neg8", model.Var("x")), sx("Com8", model.Var("y"))
		c := sx("Neg8", model.Var("x"))
		m := sx("Add8", a, b)
		q := sx("Sub8", model.Var("x"), c)
		return rule(m, q), []*model.S{m, a, b, q, c}
	}
	r, ss := mk()
	what := "plain"
	if p := x.Free(len(ss) + 1); p < len(ss) {
		i := x.Free(6)
		setFeature(ss[p], i)
		what = fmt.Sprintf("%s at %d", predicates[i].name, p)
	} else {
		switch x.Free(3) {
		case 1:
			r.Cond = model.Id("c")
		case 2:
			r.Block = "b"
		}
	}
	if x.Free(2) == 1 {
		// Filtered rules need not be expandable.
		r.Match = &model.S{Op: []model.Part{{Lit: "A"}, {Alt: []string{"1", "2"}}}, Args: []model.Value{r.Match, &model.S{Op: []model.Part{{Alt: []string{"1", "2", "3"}}}}}}
		what += ", incompatible"
	}
	first := rule(sx("Neg16", model.Var("x")), model.Var("x"))
	last := rule(sx("Neg32", model.Var("x")), model.Var("x"))
	rs := []*model.Rule{first, r, last}
	x.Describe(func() string { return what + ": " + model.PrintFile(rs) })
	checkCommand(x, []string{model.PrintFile(rs)}, rs)
}

func c15Errors(x *explore.X) {
	dir := freshDir()
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "out")
	os.Mkdir(out, 0755)
	good := commandRules()[0] + "\n" + commandRules()[3] + "\n"
	bad := []struct{ name, text string }{
		{"missing", ""}, {"directory", ""}, {"dangling link", ""}, {"below a file", ""},
		{"unbalanced", "(Add8 x y => x\n"}, {"no arrow", "(Add8 x y)\n"}, {"late error", good + "(Neg8 x) =>\n"}, {"trailing garbage", good + "junk junk"},
		{"bad expression", "(Add8 [1+] x y) => x\n"}, {"bad UTF-8", "(Add8 x y) => x\n\xff\n"}, {"NUL", "(Add8 x y) => x\n\x00"}, {"old arrow", "(Add8 x y) -> x\n"},
		{"incompatible", "(Neg(8|16) x) => (Com(8|16|32) x)\n"}, {"incompatible last", good + "(Neg(8|16) (Com(8|16|32) x)) => x\n"},
		{"incompatible operator", "(Neg(8|16)(x|y|z) x) => x\n" + good},
		{"unsupported expression", "(Add8 [a[0]] x y) => x\n"},
		{"empty name", ""}, {"blank name", ""}, {"directory of rules", ""}, {"directory of rules/", ""}, {"this directory", ""}, {"the output directory", ""}, {"parent directory", ""},
		{"pattern", ""}, {"names with a comma", ""}, {"names with a colon", ""}, {"without extension", ""}, {"@list", ""}, {"URL", ""}, {"file and slash", ""}, {"name and line break", ""}, {"name and blank", ""}, {"quoted name", ""}, {"dash", ""}, {"name in other case", ""}, {"link to itself", ""}, {"link to a directory", ""},
	}
	b := bad[x.Free(len(bad))]
	n := 1 + x.Free(3)
	at := x.Free(n)
	args := []string{"-outdir", out}
	for i := 0; i < n; i++ {
		p := filepath.Join(dir, fmt.Sprintf("f%d.rules", i))
		switch {
		case i != at:
			put(p, good)
		case b.name == "missing":
		case b.name == "directory":
			os.Mkdir(p, 0755)
		case b.name == "dangling link":
			os.Symlink(filepath.Join(dir, "nowhere"), p)
		case b.name == "below a file":
			put(p, good)
			p = filepath.Join(p, "x")
		case b.text == "":
			// In a directory with usable files only.
			d := filepath.Join(dir, "d")
			os.Mkdir(d, 0755)
			q := filepath.Join(d, "g.rules")
			put(q, good)
			put(filepath.Join(d, "h.rules"), good)
			switch b.name {
			case "empty name":
				p = ""
			case "blank name":
				p = " "
			case "directory of rules":
				p = d
			case "directory of rules/":
				p = d + "/"
			case "this directory":
				p = "."
			case "the output directory":
				p = out
			case "parent directory":
				p = ".."
			case "pattern":
				p = filepath.Join(d, "*.rules")
			case "names with a comma":
				p = q + "," + filepath.Join(d, "h.rules")
			case "names with a colon":
				p = q + ":" + filepath.Join(d, "h.rules")
			case "without extension":
				p = filepath.Join(d, "g")
			case "@list":
				put(filepath.Join(d, "list"), q+"\n")
				p = "@" + filepath.Join(d, "list")
			case "URL":
				p = "file://" + q
			case "file and slash":
				p = q + "/"
			case "name and line break":
				p = q + "\n"
			case "name and blank":
				p = q + " "
			case "quoted name":
				p = "'" + q + "'"
			case "dash":
				p = "-"
			case "name in other case":
				p = filepath.Join(d, "G.RULES")
			case "link to itself":
				os.Symlink(p, p)
			case "link to a directory":
				os.Symlink(d, p)
			default:
				panic("no such kind")
			}
		default:
			put(p, b.text)
		}
		args = append(args, p)
	}
	stale := x.Free(2) == 1
	want := map[string]string{}
	if stale {
		want["0000.smt2"] = "old"
		put(filepath.Join(out, "0000.smt2"), "old")
	}
	what := fmt.Sprintf("%s as file %d of %d, stale output %v", b.name, at, n, stale)
	x.Describe(func() string { return what })
	x.Key(what)
	x.Outcome = b.name
	code, log := command(x, dir, args...)
	if code == 0 {
		x.Fail("the command succeeds although an input is unusable\n%s", clip(log))
	}
	sameFiles(x, listing(out), want, log)
}

func c15Outputs(x *explore.X) {
	dir := freshDir()
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "out")
	text := "(Neg(8|16|32|64) x) => (Com(8|16|32|64) x)\n(Frob x) => x\n(Add8 x y) => x\n"
	f := filepath.Join(dir, "f.rules")
	put(f, text)
	want, _ := queries(rulesOf(text))
	args := []string{"-outdir", out, f}
	kinds := []string{"plain", "missing", "a file", "directory in the way", "full device", "stale longer content", "stale content of the same size", "stale content of another rule", "stale prefix", "inputs of all times", "other files", "= form", "double dash", "relative", "default", "trailing slash", "read-only file", "twice", "link", "redirected", "empty name"}
	kind := kinds[x.Free(len(kinds))]
	os.Mkdir(out, 0755)
	all := names(want)
	at := 0
	fails := false
	cwd := dir
	where := out
	switch kind {
	case "missing":
		os.Remove(out)
		fails = true
	case "a file":
		os.Remove(out)
		put(out, "x")
		fails = true
	case "directory in the way":
		at = x.Free(len(all))
		os.Mkdir(filepath.Join(out, all[at]), 0755)
		fails = true
	case "full device":
		at = x.Free(len(all))
		os.Symlink("/dev/full", filepath.Join(out, all[at]))
		fails = true
	case "stale longer content":
		at = x.Free(len(all))
		put(filepath.Join(out, all[at]), want[all[at]]+"; more\n"+rep("x", 5000))
	case "stale content of the same size":
		at = x.Free(len(all))
		old := []byte(want[all[at]])
		switch x.Free(4) {
		case 0:
			old = bytes.Replace(old, []byte("x"), []byte("y"), -1)
		case 1:
			old[len(old)-1] = ' '
		case 2:
			old = bytes.Repeat([]byte{0}, len(old))
		case 3:
			old[0] = ';'
		}
		put(filepath.Join(out, all[at]), string(old))
		t := []time.Time{time.Now().Add(time.Hour), time.Now().Add(-time.Hour), time.Unix(0, 0)}[x.Free(3)]
		os.Chtimes(filepath.Join(out, all[at]), t, t)
	case "stale content of another rule":
		at = x.Free(len(all))
		for i, n := range all {
			put(filepath.Join(out, n), want[all[(i+1+at)%len(all)]])
		}
	case "stale prefix":
		at = x.Free(len(all))
		put(filepath.Join(out, all[at]), want[all[at]][:len(want[all[at]])/2])
	case "inputs of all times":
		t := []time.Time{time.Now().Add(time.Hour), time.Now().Add(-time.Hour), time.Unix(0, 0)}[x.Free(3)]
		os.Chtimes(f, t, t)
	case "other files":
		want["zzz"], want["9999.smt2"], want["0004.smt"] = "z", "old", "o"
		for _, n := range []string{"zzz", "9999.smt2", "0004.smt"} {
			put(filepath.Join(out, n), want[n])
		}
	case "= form":
		args = []string{"-outdir=" + out, f}
	case "double dash":
		args = []string{"--outdir", out, "--", f}
	case "relative":
		args = []string{"-outdir", "out", "f.rules"}
	case "default":
		cwd = filepath.Join(dir, "cwd")
		os.Mkdir(cwd, 0755)
		where = cwd
		args = []string{f}
	case "empty name":
		cwd = filepath.Join(dir, "cwd")
		os.Mkdir(cwd, 0755)
		where = cwd
		args = [][]string{{"-outdir", "", f}, {"-outdir=", f}, {"-outdir", out, "-outdir=", f}, {"-outdir", ".", f}}[x.Free(4)]
	case "trailing slash":
		args = []string{"-outdir", out + "/", f}
	case "read-only file":
		put(filepath.Join(out, all[0]), "old")
		os.Chmod(filepath.Join(out, all[0]), 0600)
	case "twice":
		command(x, cwd, args...)
	case "link":
		os.Rename(out, out+"2")
		os.Symlink(out+"2", out)
	}
	if kind == "redirected" {
		rs := []string{"2>&-", "2>/dev/full", "2</dev/null", "2>/dev/null", ">&-", ">/dev/full", "<&-", "< " + f, "</dev/zero", ">&- 2>&- <&-", ">/dev/full 2>&1", "2>>log", "2>&1 | cat"}
		at = x.Free(len(rs))
		redirect = rs[at]
		defer func() { redirect = "" }()
	}
	what := fmt.Sprintf("%s at %d", kind, at)
	x.Describe(func() string { return what })
	x.Key(what)
	x.Outcome = kind
	code, log := command(x, cwd, args...)
	if fails {
		if code == 0 {
			x.Fail("the command succeeds although a write fails\n%s", clip(log))
		}
		return
	}
	if code != 0 {
		x.Fail("the command fails with status %d\n%s", code, clip(log))
	}
	sameFiles(x, listing(where), want, log)
}

func c15Counts(x *explore.X, tier string) {
	ns := []int{9, 10, 11, 12, 99, 100, 101, 255, 256, 257, 999, 1000, 1001, 1024, 9999, 10000, 10001, 66001, 80001}
	n := ns[x.Free(len(ns))]
	var text string
	kind := x.Free(3)
	if n > 20000 && kind == 1 {
		return // the alternatives' expansion is quadratic
	}
	switch kind {
	case 0: // rules
		text = rep("(Neg8 x) => x\n", n-1) + "(Com8 x) => x\n"
	case 1: // alternatives
		text = "((" + rep("Neg8|", n-1) + "Com8) x) => x\n"
	case 2: // unsupported ones in between
		text = rep("(Frob x) => x\n", n-1) + "(Com8 x) => x\n(Neg8 x) => y\n"
	}
	x.Describe(func() string { return fmt.Sprintf("%d: %s", n, clip(text)) })
	fewFiles, largeInput = true, n > 9999
	defer func() { fewFiles, largeInput = false, false }()
	checkCommand(x, []string{text}, rulesOf(text))
}

func c15Corpus(x *explore.X) {
	fs := corpora()
	var texts []string
	if i := x.Free(len(fs) + 2); i < len(fs) {
		texts = []string{readFile(fs[i])}
	} else if i == len(fs) {
		for _, f := range fs {
			texts = append(texts, readFile(f))
		}
	} else {
		for j := range fs {
			texts = append(texts, readFile(fs[len(fs)-1-j]))
		}
	}
	x.Describe(func() string { return fmt.Sprintf("%d files of the repository", len(texts)) })
	var rs []*model.Rule
	for _, t := range texts {
		f, err := parse.String(t)
		if err != nil {
			return
		}
		rs = append(rs, model.FromFile(f)...)
	}
	checkCommand(x, texts, rs)
}

// oddNames are file names that mean something to other programs.
var oddNames = []string{
	"a", "a.rules", "a[1].rules", "a*.rules", "a?.rules", "[a-z].rules", "{a,b}.rules", "a,b.rules", "a b.rules", " a.rules", "a.rules ", "a;b", "a&b", "a|b", "$HOME", "$a", "${a}", "~", "~a", "@a", "@", "%41.rules", "%s", "%d.rules", "a\\b", "\\a", "a\nb", "a\tb", "\n", "'a'", "\"a\"", "`a`",
	"é.rules", "漢字", "\xff\xfe", "a.rules.gz", "a.gz", "a.zip", "a.smt2", "0000.smt2", "a.go", "a.rules~", "#a", ".a", "..a", "a..", "...", ":", "a:b", "http:", "=", "-=", "a=b", "+a", "a-", "A.RULES", "con", "nul", "stdin", "a\rb", "\x01", "\x7f", "(a)", "<a>", ">", "!", "^a", "*", "?", "**",
	"x/a.rules", "x/./a.rules", "x//a.rules", "x/../x/a.rules", "./a.rules", "././a.rules", "x/*.rules", "x/-", "./-", "./-outdir", "./--",
}

// c15Names: a file is the one of that very name, and its neighbours do not matter.
func c15Names(x *explore.X) {
	dir := freshDir()
	defer os.RemoveAll(dir)
	n := append(oddNames, rep("n", 255), rep("long/", 300)+"a.rules")[x.Free(len(oddNames)+2)]
	p := n
	if x.Free(2) == 1 {
		p = filepath.Join(dir, n)
		if strings.Contains(n, "./") || strings.Contains(n, "//") {
			p = dir + "/" + n
		}
	}
	neighbours := x.Free(2) == 1
	as := x.Free(3) // the input, the output directory, both
	const text = "(Neg8 x) => (Com8 x)\n(Frob x) => x\n(Neg(16|32) x) => x\n"
	what := fmt.Sprintf("%q as %q, neighbours %v, use %d", clip(n), clip(p), neighbours, as)
	x.Describe(func() string { return what })
	x.Key(what)
	if neighbours {
		for _, m := range []string{"a1.rules", "aa.rules", "a.rules", "b.rules", "a", "b", "c", "a.rules.bak", "b.smt2", "A", "home", "x.rules"} {
			if m != n {
				put(filepath.Join(dir, m), "(Add8 x y) => x\n(Add16 x y) => x\n(Add32 x y) => x\n(Add64 x y) => x\n(Add8 x y) => y\n")
			}
		}
	}
	in, out := "in.txt", "o"
	if as != 1 {
		in = p
	}
	if as != 0 {
		out = p + "d"
	}
	abs := func(p string) string {
		if filepath.IsAbs(p) {
			return p
		}
		return dir + "/" + p
	}
	if err := os.MkdirAll(abs(out), 0755); err != nil {
		x.Outcome = "not a file name"
		return
	}
	if i := strings.LastIndex(abs(in), "/"); os.MkdirAll(abs(in)[:i], 0755) != nil || os.MkdirAll(dir+"/x", 0755) != nil {
		x.Outcome = "not a file name"
		return
	}
	if err := os.WriteFile(abs(in), []byte(text), 0644); err != nil {
		x.Outcome = "not a file name"
		return
	}
	if in[0] == '-' {
		return
	}
	x.Outcome = "named"
	want, _ := queries(rulesOf(text))
	var args []string
	switch x.Free(2) {
	case 0:
		args = []string{"-outdir", out, in}
	case 1:
		args = []string{"-outdir=" + out, in}
	}
	code, log := command(x, dir, args...)
	if code != 0 {
		x.Fail("the command fails with status %d\n%s", code, clip(log))
	}
	got := listing(abs(out))
	for m := range got {
		if neighbours && strings.HasSuffix(m, ".rules") {
			delete(got, m)
		}
	}
	sameFiles(x, got, want, log)
}

// c15Repeated: every file given counts, however often it is given and under which name.
func c15Repeated(x *explore.X) {
	dir := freshDir()
	defer os.RemoveAll(dir)
	texts := map[string]string{
		"a": "(Neg8 x) => (Com8 x)\n(Add8 x y) => x\n",
		"b": "(Neg16 x) => x\n",
		"c": "(Neg8 x) => (Com8 x)\n(Add8 x y) => x\n", // as a
		"d": "",
		"e": "(Neg16 x) => x\n(Neg8 x) => (Com8 x)\n",
	}
	for n, t := range texts {
		put(filepath.Join(dir, n), t)
	}
	os.Mkdir(filepath.Join(dir, "o"), 0755)
	os.Mkdir(filepath.Join(dir, "s"), 0755)
	os.Symlink("a", filepath.Join(dir, "link"))
	os.Link(filepath.Join(dir, "a"), filepath.Join(dir, "hard"))
	for _, n := range []string{"./a", "s/../a", "link", "hard", filepath.Join(dir, "a")} {
		texts[n] = texts["a"]
	}
	ns := []string{"a", "b", "c", "d", "e", "./a", "s/../a", "link", "hard", filepath.Join(dir, "a")}
	args := []string{"-outdir", "o"}
	var rs []*model.Rule
	for n := 1 + x.Free(3); n > 0; n-- {
		f := ns[x.Free(len(ns))]
		args = append(args, f)
		rs = append(rs, rulesOf(texts[f])...)
	}
	x.Describe(func() string { return fmt.Sprint(args) })
	x.Key(strings.ReplaceAll(fmt.Sprint(args), dir, "/"))
	want, _ := queries(rs)
	code, log := command(x, dir, args...)
	if code != 0 {
		x.Fail("the command fails with status %d\n%s", code, clip(log))
	}
	sameFiles(x, listing(filepath.Join(dir, "o")), want, log)
}

// c15Constants: an input file may have any name that the sources mention.
func c15Constants(x *explore.X) {
	ns := dictNames()
	n := ns[x.Free(len(ns))]
	abs := x.Free(2) == 1
	dir := freshDir()
	defer os.RemoveAll(dir)
	x.Describe(func() string { return fmt.Sprintf("input named %q, absolute %v", n, abs) })
	x.Key(n, fmt.Sprint(abs))
	const text = "(Neg8 x) => (Com8 x)\n(Frob x) => x\n(Neg(16|32) x) => x\n"
	p := dir + "/" + n
	if n[0] == '/' || n[0] == '-' && !abs || os.MkdirAll(p[:strings.LastIndex(p, "/")], 0755) != nil || os.WriteFile(p, []byte(text), 0644) != nil {
		x.Outcome = "not a file name"
		return
	}
	x.Outcome = "named"
	out := filepath.Join(dir, "the output")
	if os.Mkdir(out, 0755) != nil {
		return
	}
	in := n
	if abs {
		in = p
	}
	want, _ := queries(rulesOf(text))
	code, log := command(x, dir, "-outdir", out, in)
	if code != 0 {
		x.Fail("the command fails with status %d\n%s", code, clip(log))
	}
	sameFiles(x, listing(out), want, log)
}
