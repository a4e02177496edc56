// Command mc decides one property by exhaustive exploration, see DESIGN.md.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/mc/explore"
	"verif/mc/props"
)

var (
	propID   = flag.String("prop", "", "property id")
	tier     = flag.String("tier", "", "quick or thorough")
	root     = flag.String("root", "/verif", "verification directory")
	replay   = flag.String("replay", "", "replay a violation file")
	mode     = flag.String("mode", "run", "run, child or one")
	index    = flag.Int("index", 0, "worker index")
	nworkers = flag.Int("n", 8, "number of workers")
	slotFile = flag.String("slot", "", "slot file")
	outFile  = flag.String("out", "", "output file")
	inFile   = flag.String("in", "", "input file")
	budget   = flag.Int("budget", 0, "seconds for the exploration (0: tier default)")
	only     = flag.String("sub", "", "only sub-explorations containing this")
	except   = flag.String("except", "", "comma separated names of sub-explorations to leave out")
	first    = flag.Bool("first", false, "leave out the sub-explorations after one with a violation")
	verbose  = flag.Bool("v", false, "print statistics")
)

type finding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Site     string `json:"site"`
	What     string `json:"what"`
}

type childResult struct {
	Subs   []*explore.Stats
	Viols  []explore.Violation
	Walls  []float64
	Ticked bool
}

func main() {
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier == "" {
		*tier = "quick"
	}
	props.Root = *root
	findings := readFindings()
	for _, f := range findings {
		if f.Property == *propID {
			explore.Listed[f.ID] = true
		}
	}
	switch *mode {
	case "child":
		child()
	case "one":
		one()
	case "cold":
		limits()
		if err := json.NewEncoder(os.Stdout).Encode(props.ColdRun([]byte(*inFile))); err != nil {
			fatal("%v", err)
		}
	case "deep":
		// With the stack limit that programs have.
		if err := json.NewEncoder(os.Stdout).Encode(props.DeepRun(*inFile)); err != nil {
			fatal("%v", err)
		}
	case "names":
		limits()
		if err := json.NewEncoder(os.Stdout).Encode(props.NamesRun(*inFile)); err != nil {
			fatal("%v", err)
		}
	case "fresh":
		limits()
		if err := json.NewEncoder(os.Stdout).Encode(props.FreshCall(*index, *inFile == "expanded")); err != nil {
			fatal("%v", err)
		}
	default:
		if *replay != "" {
			os.Exit(replayFile(*replay))
		}
		os.Exit(parent(findings))
	}
}

func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "mc: "+format+"\n", args...)
	os.Exit(2)
}

func readFindings() []finding {
	b, err := os.ReadFile(filepath.Join(*root, "known_findings.json"))
	if err != nil {
		return nil
	}
	var d struct {
		Known []finding `json:"known"`
	}
	if err := json.Unmarshal(b, &d); err != nil {
		fatal("known_findings.json: %v", err)
	}
	return d.Known
}

func subs() []*explore.Sub {
	p, ok := props.All[*propID]
	if !ok {
		fatal("unknown property %q", *propID)
	}
	var out []*explore.Sub
	for _, s := range p.Subs(*tier) {
		if (*only == "" || strings.Contains(s.Name, *only)) && !strings.Contains(","+*except+",", ","+s.Name+",") {
			out = append(out, s)
		}
	}
	return out
}

func limits() {
	runtime.GOMAXPROCS(2)
	debug.SetMaxStack(512 << 20)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
	if !props.All[*propID].NoLimit {
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
}

// silence sends the implementation's own standard output and error nowhere.
func child() {
	limits()
	slot, err := explore.OpenSlot(*slotFile)
	if err != nil {
		fatal("%v", err)
	}
	var start int64
	var hang int64
	explore.RunApart = func(sub string, choices []uint16) *explore.Result {
		return apart(sub, choices, *outFile+".one")
	}
	ss := subs()
	go func() {
		for range time.Tick(250 * time.Millisecond) {
			s := atomic.LoadInt64(&start)
			if s != 0 && time.Now().UnixNano()-s > atomic.LoadInt64(&hang) {
				os.Exit(97)
			}
			if os.Getppid() == 1 {
				os.Exit(98)
			}
		}
	}()
	begin := time.Now()
	end := begin.Add(time.Duration(*budget) * time.Second)
	res := childResult{}
	w := &explore.Worker{Property: *propID, Tier: *tier, Index: *index, N: *nworkers, Slot: slot,
		Keys: map[uint64]struct{}{}, MaxKeys: 4000000, Start: &start}
	for i, s := range ss {
		st := explore.NewStats()
		var vs []explore.Violation
		t0 := time.Now()
		if s.Serial && *index != i%*nworkers || *first && found(filepath.Dir(*outFile)) {
			res.Subs, res.Walls = append(res.Subs, st), append(res.Walls, 0)
			continue
		}
		w.N, w.Index = *nworkers, *index
		if s.Serial {
			w.N, w.Index = 1, 0
		}
		w.SubIndex = i
		total := 0
		for _, t := range ss[i:] {
			total += share(t)
		}
		left := time.Until(end)
		w.Deadline = time.Now().Add(left * time.Duration(share(s)) / time.Duration(total))
		h := s.Hang
		if h == 0 {
			h = 30 * time.Second
		}
		atomic.StoreInt64(&hang, int64(h))
		st, vs = w.Explore(s)
		for k := range vs {
			vs[k].Worker, vs[k].Workers = *index, *nworkers
		}
		res.Subs = append(res.Subs, st)
		res.Viols = append(res.Viols, vs...)
		if *first && len(vs) > 0 {
			os.WriteFile(filepath.Join(filepath.Dir(*outFile), "found"), nil, 0o666)
		}
		res.Walls = append(res.Walls, time.Since(t0).Seconds())
	}
	if err := explore.WriteJSON(*outFile, res); err != nil {
		fatal("%v", err)
	}
	f, err := os.Create(*outFile + ".keys")
	if err != nil {
		fatal("%v", err)
	}
	bw := bufio.NewWriter(f)
	var buf [8]byte
	for k := range w.Keys {
		binary.LittleEndian.PutUint64(buf[:], k)
		bw.Write(buf[:])
	}
	if err := bw.Flush(); err != nil {
		fatal("%v", err)
	}
	f.Close()
	props.Cleanup()
	os.Exit(0)
}

// found reports whether a worker of this run found a violation.
func found(dir string) bool {
	_, err := os.Stat(filepath.Join(dir, "found"))
	return err == nil
}

func share(s *explore.Sub) int {
	if s.Share == 0 {
		return 1
	}
	return s.Share
}

// one replays a violation in this process: exit 0 held, 3 failed.
func one() {
	limits()
	var v explore.Violation
	b, err := os.ReadFile(*inFile)
	if err != nil {
		fatal("%v", err)
	}
	if err := json.Unmarshal(b, &v); err != nil {
		fatal("%v", err)
	}
	for _, s := range subs() {
		if s.Name == v.Sub {
			x, msg, failed := explore.RunOne(s.Run, v.Choices)
			v.Input, v.Message, v.Result = x.Description(), msg, x.Result(msg, failed)
			if err := explore.WriteJSON(*outFile, v); err != nil {
				fatal("%v", err)
			}
			props.Cleanup()
			if failed {
				os.Exit(3)
			}
			os.Exit(0)
		}
	}
	fatal("no sub-exploration %q", v.Sub)
}

// apart runs one execution in a process of its own, for at most a minute.
func apart(sub string, choices []uint16, file string) *explore.Result {
	in, out := file+".json", file+".out.json"
	os.Remove(out)
	if err := explore.WriteJSON(in, explore.Violation{Property: *propID, Sub: sub, Tier: *tier, Choices: choices}); err != nil {
		fatal("%v", err)
	}
	cmd := exec.Command(os.Args[0], "-mode", "one", "-prop", *propID, "-tier", *tier, "-root", *root, "-in", in, "-out", out)
	var errb strings.Builder
	cmd.Stderr = &limited{w: &errb, n: 4000}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		fatal("%v", err)
	}
	var late int32
	timer := time.AfterFunc(60*time.Second, func() {
		atomic.StoreInt32(&late, 1)
		cmd.Process.Kill()
	})
	err := cmd.Wait()
	timer.Stop()
	if err != nil && atomic.LoadInt32(&late) == 1 {
		return &explore.Result{Late: true}
	}
	var w explore.Violation
	if b, err := os.ReadFile(out); err == nil && json.Unmarshal(b, &w) == nil && w.Result != nil {
		return w.Result
	}
	if cmd.ProcessState.ExitCode() == 2 && strings.HasPrefix(errb.String(), "mc: ") {
		fatal("%s", errb.String())
	}
	return &explore.Result{Failed: true, Message: fmt.Sprintf("process ended with %s: %s", cmd.ProcessState, errb.String())}
}

type confirmation struct {
	failed bool
	how    string
	v      explore.Violation
}

// confirm replays v in a fresh process.
func confirm(v explore.Violation, dir string) confirmation {
	in, out := filepath.Join(dir, "one.json"), filepath.Join(dir, "one.out.json")
	os.Remove(out)
	if err := explore.WriteJSON(in, v); err != nil {
		fatal("%v", err)
	}
	cmd := exec.Command(os.Args[0], "-mode", "one", "-prop", v.Property, "-tier", v.Tier, "-root", *root, "-in", in, "-out", out)
	cmd.Stdout, cmd.Stderr = nil, nil
	var errb strings.Builder
	cmd.Stderr = &limited{w: &errb, n: 4000}
	if err := cmd.Start(); err != nil {
		fatal("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(120 * time.Second):
		cmd.Process.Kill()
		<-done
		return confirmation{failed: true, how: "does not end within 120 s in a process of its own", v: v}
	}
	if err == nil {
		return confirmation{}
	}
	code := cmd.ProcessState.ExitCode()
	if code == 3 {
		var w explore.Violation
		if b, err := os.ReadFile(out); err == nil && json.Unmarshal(b, &w) == nil {
			return confirmation{failed: true, how: w.Message, v: w}
		}
	}
	if code == 2 && strings.HasPrefix(errb.String(), "mc: ") {
		fatal("replay: %s", errb.String())
	}
	return confirmation{failed: true, how: fmt.Sprintf("process ended with %s: %s", cmd.ProcessState, errb.String()), v: v}
}

// crashSite is the function of the library that the first goroutine of a crash was in, if
// no function of the checker is above it.
func crashSite(stack string) string {
	i := strings.Index(stack, "\ngoroutine ")
	if i < 0 {
		return ""
	}
	for _, l := range strings.Split(stack[i+1:], "\n")[1:] {
		switch {
		case l == "":
			return ""
		case strings.HasPrefix(l, "\t"), strings.HasPrefix(l, "panic("), strings.HasPrefix(l, "runtime."), strings.HasPrefix(l, "sync."), strings.HasPrefix(l, "internal/"):
		case strings.HasPrefix(l, "github.com/mmcloughlin/ssarules/"):
			if k := strings.LastIndex(l, "("); k > 0 {
				l = l[:k]
			}
			return l
		default:
			return ""
		}
	}
	return ""
}

type limited struct {
	w io.Writer
	n int
}

func (l *limited) Write(b []byte) (int, error) {
	if n := len(b); l.n >= n {
		l.n -= n
		l.w.Write(b)
	} else if l.n > 0 {
		l.w.Write(b[:l.n])
		l.n = 0
	}
	return len(b), nil
}

func startChild(i int, dir string, secs int) (*exec.Cmd, string) {
	out := filepath.Join(dir, fmt.Sprintf("out%d.json", i))
	os.Remove(out)
	args := []string{"-mode", "child", "-prop", *propID, "-tier", *tier, "-root", *root, "-index", strconv.Itoa(i),
		"-n", strconv.Itoa(*nworkers), "-slot", filepath.Join(dir, fmt.Sprintf("slot%d", i)), "-out", out,
		"-budget", strconv.Itoa(secs), "-sub", *only, "-except", *except, "-first=" + strconv.FormatBool(*first)}
	cmd := exec.Command(os.Args[0], args...)
	errf, _ := os.Create(filepath.Join(dir, fmt.Sprintf("err%d", i)))
	cmd.Stderr = errf
	if err := cmd.Start(); err != nil {
		fatal("%v", err)
	}
	errf.Close()
	return cmd, out
}

func parent(findings []finding) int {
	begin := time.Now()
	ss := subs()
	p := props.All[*propID]
	secs := *budget
	if secs == 0 {
		secs = 300
		if *tier == "thorough" {
			secs = 600
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	work := filepath.Join(*root, "work")
	os.MkdirAll(work, 0755)
	dir, err := os.MkdirTemp(work, *propID+"-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)

	type outcome struct {
		res  *childResult
		v    *explore.Violation
		note string
		keys []uint64
	}
	outs := make([]outcome, *nworkers)
	var mu sync.Mutex // one isolated replay at a time
	var wg sync.WaitGroup
	for i := 0; i < *nworkers; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for try := 0; try < 2; try++ {
				cmd, out := startChild(i, dir, secs)
				err := cmd.Wait()
				if err == nil {
					var r childResult
					b, err := os.ReadFile(out)
					if err != nil || json.Unmarshal(b, &r) != nil {
						fatal("worker %d left no result", i)
					}
					kb, _ := os.ReadFile(out + ".keys")
					keys := make([]uint64, 0, len(kb)/8)
					for k := 0; k+8 <= len(kb); k += 8 {
						keys = append(keys, binary.LittleEndian.Uint64(kb[k:]))
					}
					outs[i] = outcome{res: &r, keys: keys}
					return
				}
				errb, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("err%d", i)))
				if cmd.ProcessState.ExitCode() == 2 && strings.HasPrefix(string(errb), "mc: ") {
					fatal("worker %d: %s", i, errb)
				}
				slot, serr := explore.OpenSlot(filepath.Join(dir, fmt.Sprintf("slot%d", i)))
				if serr != nil {
					fatal("%v", serr)
				}
				if len(errb) > 3000 {
					errb = errb[:3000]
				}
				if sub, prefix, ok := slot.Get(); ok && sub < len(ss) {
					v := explore.Violation{Property: *propID, Sub: ss[sub].Name, Tier: *tier, Choices: prefix, Worker: i, Workers: *nworkers}
					mu.Lock()
					c := confirm(v, dir)
					mu.Unlock()
					if c.failed {
						v.Message = c.how
						if v.Message == "" {
							v.Message = string(errb)
						}
						v.Input = c.v.Input
						v.Replays = "ended the worker process; reproduced in a process of its own"
						outs[i] = outcome{v: &v}
						return
					}
				}
				if site := crashSite(string(errb)); site != "" {
					// The library crashed, but not because of this execution alone.
					mu.Lock()
					again, _ := startChild(i, dir, secs)
					againErr := again.Wait()
					mu.Unlock()
					errb2, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("err%d", i)))
					if againErr != nil && crashSite(string(errb2)) == site {
						v := explore.Violation{Property: *propID, Tier: *tier, Worker: i, Workers: *nworkers, History: true}
						v.Message = "the library ends the process: " + string(errb)
						v.Replays = "ended the worker process; reproduced by re-running the worker's history"
						if sub, prefix, ok := slot.Get(); ok && sub < len(ss) {
							v.Sub, v.Choices = ss[sub].Name, prefix
						}
						outs[i] = outcome{v: &v}
						return
					}
				}
				outs[i] = outcome{note: fmt.Sprintf("worker %d ended with %s: %s", i, cmd.ProcessState, errb)}
			}
		}()
	}
	wg.Wait()

	merged := make([]*explore.Stats, len(ss))
	walls := make([]float64, len(ss))
	for i := range merged {
		merged[i] = explore.NewStats()
	}
	keys := map[uint64]struct{}{}
	var viols []explore.Violation
	var notes []string
	lost := false
	for _, o := range outs {
		if o.v != nil {
			viols = append(viols, *o.v)
			lost = true
		}
		if o.note != "" {
			notes = append(notes, o.note)
			lost = true
		}
		if o.res != nil {
			for i, s := range o.res.Subs {
				merged[i].Add(s)
				if o.res.Walls[i] > walls[i] {
					walls[i] = o.res.Walls[i]
				}
			}
			viols = append(viols, o.res.Viols...)
		}
		for _, k := range o.keys {
			keys[k] = struct{}{}
		}
	}
	sort.SliceStable(viols, func(i, j int) bool {
		if viols[i].Cost != viols[j].Cost {
			return viols[i].Cost < viols[j].Cost
		}
		if len(viols[i].Input) != len(viols[j].Input) {
			return len(viols[i].Input) < len(viols[j].Input)
		}
		return len(viols[i].Choices) < len(viols[j].Choices)
	})

	// Believe a violation only if it happens again.
	var confirmed []explore.Violation
	checked := 0
	for k := range viols {
		v := viols[k]
		if strings.HasPrefix(v.Replays, "ended the worker") {
			confirmed = append(confirmed, v)
			continue
		}
		if checked >= 6 || len(confirmed) >= 3 {
			break
		}
		checked++
		n := 0
		for r := 0; r < 5; r++ {
			if c := confirm(v, dir); c.failed {
				n++
			} else if r == 1 && n == 0 && strings.HasPrefix(v.Replays, "0/5") {
				break
			}
		}
		if n > 0 {
			v.Replays += fmt.Sprintf(", %d/5 in fresh processes", n)
			confirmed = append(confirmed, v)
			continue
		}
		// It may need the executions before it: the worker's history is deterministic.
		cmd, out := startChild(v.Worker, dir, secs)
		if cmd.Wait() == nil {
			var r childResult
			b, _ := os.ReadFile(out)
			if json.Unmarshal(b, &r) == nil {
				for _, u := range r.Viols {
					if u.Sub == v.Sub && u.Message == v.Message {
						v.History = true
						v.Replays += ", reproduced by re-running the worker's history"
						confirmed = append(confirmed, v)
						break
					}
				}
			}
		}
		if !v.History {
			notes = append(notes, fmt.Sprintf("not reproduced, not reported: %s: %s", v.Sub, v.Message))
		}
	}

	total := explore.NewStats()
	capped := lost || len(viols) > 0
	type subEv struct {
		Name        string            `json:"name"`
		Bound       int               `json:"deviation_bound"`
		Executions  uint64            `json:"executions"`
		Transitions uint64            `json:"transitions"`
		ByCost      map[int]uint64    `json:"executions_by_deviations"`
		Outcomes    map[string]uint64 `json:"outcomes"`
		MaxChoices  int               `json:"max_choices"`
		Complete    bool              `json:"complete"`
		Wall        float64           `json:"wall_s"`
		Longest     float64           `json:"longest_execution_s"`
	}
	var evs []subEv
	var samples []interface{}
	for i, s := range ss {
		m := merged[i]
		total.Add(m)
		capped = capped || m.Capped
		evs = append(evs, subEv{s.Name, s.Bound, m.Executions, m.Transitions, m.ByCost, top(m.Outcomes), m.MaxLen, !m.Capped && !lost, walls[i], m.Longest})
		sort.Slice(m.Samples, func(a, b int) bool { return len(m.Samples[a]) < len(m.Samples[b]) })
		for k := 0; k < len(m.Samples) && k < 2; k++ {
			t := m.Samples[k]
			if len(t) > 600 {
				t = t[:600] + "…"
			}
			samples = append(samples, map[string]string{"sub": s.Name, "input": t})
		}
	}
	nondefault := uint64(0)
	for _, e := range evs {
		nondefault += uint64(len(e.Outcomes))
	}
	cov := map[string]interface{}{
		"exhaustive":        !capped,
		"subs":              evs,
		"samples":           samples,
		"distinct_outcomes": nondefault,
		"bounds":            p.Bounds,
		"workers":           *nworkers,
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	switch p.Level {
	case "model_checking":
		cov["states"] = len(keys)
		cov["transitions"] = total.Transitions
		cov["traces_validated_against_impl"] = total.Validated
		cov["states_are"] = p.States
	default:
		cov["evaluations"] = total.Validated
		cov["distinct_nontrivial"] = len(keys)
		cov["rule"] = p.States
		cov["transitions"] = total.Transitions
	}
	ev := map[string]interface{}{
		"property": *propID, "tier": *tier, "seed": seed, "level": p.Level, "coverage": cov,
		"assumptions": p.Assume, "violations": len(confirmed),
	}
	replays := filepath.Join(*root, "replays")
	for i, v := range confirmed {
		os.MkdirAll(replays, 0755)
		path := filepath.Join(replays, fmt.Sprintf("%s-%d.json", *propID, i+1))
		if err := explore.WriteJSON(path, v); err != nil {
			fatal("%v", err)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *propID, path)
		fmt.Printf("  in %s, %d deviations (%s)\n  input: %s\n  %s\n", v.Sub, v.Cost, v.Replays, clip(v.Input, 1500), strings.ReplaceAll(clip(v.Message, 2000), "\n", "\n  "))
	}
	for _, f := range findings {
		if f.Property == *propID && total.Known[f.ID] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%d executions; e.g. %s)\n", *propID, f.ID, f.What, total.Known[f.ID], strconv.Quote(clip(total.KnownInput[f.ID], 300)))
		}
	}
	ev["wall_s"] = time.Since(begin).Seconds()
	if err := os.MkdirAll(filepath.Join(*root, "evidence"), 0755); err != nil {
		fatal("%v", err)
	}
	if *only == "" && *except == "" && !*first {
		if err := explore.WriteJSON(filepath.Join(*root, "evidence", *propID+".json"), ev); err != nil {
			fatal("%v", err)
		}
	}
	fmt.Printf("%s %s: %d executions, %d distinct keys, %d transitions, %d comparisons, exhaustive=%v, %.1fs\n",
		*propID, *tier, total.Executions, len(keys), total.Transitions, total.Validated, !capped, time.Since(begin).Seconds())
	if *verbose || len(notes) > 0 {
		for _, e := range evs {
			fmt.Printf("  %-28s bound %d: %d executions %v complete=%v %.1fs (longest %.1fs) outcomes %v\n", e.Name, e.Bound, e.Executions, e.ByCost, e.Complete, e.Wall, e.Longest, e.Outcomes)
		}
		for _, n := range notes {
			fmt.Printf("  note: %s\n", n)
		}
	}
	if len(confirmed) > 0 {
		return 1
	}
	if lost {
		// A worker ended twice for a reason that could not be reproduced: no verdict.
		return 2
	}
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// top keeps the most frequent outcomes.
func top(m map[string]uint64) map[string]uint64 {
	if len(m) <= 24 {
		return m
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if m[ks[i]] != m[ks[j]] {
			return m[ks[i]] > m[ks[j]]
		}
		return ks[i] < ks[j]
	})
	out := map[string]uint64{}
	for _, k := range ks[:23] {
		out[k] = m[k]
	}
	for _, k := range ks[23:] {
		out["(others)"] += m[k]
	}
	return out
}

func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var v explore.Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fatal("%v", err)
	}
	*propID = v.Property
	dir, err := os.MkdirTemp("", "mcreplay")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	*tier = v.Tier
	if v.History {
		*nworkers = v.Workers
		cmd, out := startChild(v.Worker, dir, 600)
		cmd.Wait()
		var r childResult
		b, _ := os.ReadFile(out)
		if json.Unmarshal(b, &r) == nil {
			for _, u := range r.Viols {
				if u.Sub == v.Sub && u.Message == v.Message {
					fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", v.Property, path, u.Message)
					return 1
				}
			}
		}
		fmt.Println("held")
		return 0
	}
	c := confirm(v, dir)
	if c.failed {
		fmt.Printf("VIOLATION property=%s replay=%s\ninput: %s\n%s\n", v.Property, path, c.v.Input, c.how)
		return 1
	}
	fmt.Println("held")
	return 0
}
