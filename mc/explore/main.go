package explore

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"verif/mc/vs"
)

type worker struct {
	cmd  *exec.Cmd
	enc  *json.Encoder
	in   interface{ Close() error }
	dec  *json.Decoder
	errs *tail
}

// tail keeps the end of a stream.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 24000 {
		t.b = append([]byte{}, t.b[:8000]...)
	}
	return len(p), nil
}

func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

var scratch string
var serial int
var serialMu sync.Mutex

func startWorker() (*worker, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	serialMu.Lock()
	serial++
	n := serial
	serialMu.Unlock()
	c := exec.Command(exe)
	rlog := filepath.Join(scratch, fmt.Sprintf("race%d", n))
	c.Env = append(os.Environ(), "VERIF_WORKER=1", "VERIF_RACELOG="+rlog,
		"GORACE=log_path="+rlog+" halt_on_error=0 exitcode=0 history_size=3 suppress_equal_stacks=0 suppress_equal_addresses=0", "GOTRACEBACK=all")
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	c.ExtraFiles = []*os.File{pw}
	stdin, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	w := &worker{cmd: c, errs: &tail{}, in: stdin}
	c.Stderr = w.errs
	c.Stdout = w.errs
	if err := c.Start(); err != nil {
		return nil, err
	}
	pw.Close()
	w.enc = json.NewEncoder(stdin)
	w.dec = json.NewDecoder(bufio.NewReaderSize(pr, 1<<20))
	return w, nil
}

func (w *worker) stop() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

// ask sends a request; a crash of the worker is reported through the error, with the prefix it was
// running when the request was careful.
func (w *worker) ask(q wreq) (r wres, started []int, err error) {
	if err = w.enc.Encode(q); err != nil {
		w.cmd.Wait()
		return
	}
	for {
		var x wres
		if err = w.dec.Decode(&x); err != nil {
			w.cmd.Wait()
			return
		}
		if x.Done {
			return x, started, nil
		}
		started = x.Start
	}
}

func (w *worker) deathMsg() string {
	code := w.cmd.ProcessState.ExitCode()
	e := w.errs.String()
	if len(e) > 4000 {
		e = e[:4000]
	}
	switch code {
	case exitHang:
		return "endless loop: the code under test made no progress\n" + e
	case exitMem:
		return "unbounded memory: " + e
	}
	return fmt.Sprintf("the process running the code under test died (%v)\n%s", w.cmd.ProcessState, e)
}

type scenStat struct {
	Name       string         `json:"name"`
	Doc        string         `json:"what"`
	Bounds     Bounds         `json:"bounds"`
	Executions int            `json:"executions"`
	Nodes      int            `json:"decision_states"`
	Steps      int            `json:"scheduling_steps"`
	Outcomes   int            `json:"distinct_outcomes"`
	MaxPoints  int            `json:"longest_choice_sequence"`
	Exhaustive bool           `json:"exhaustive"`
	Stopped    string         `json:"stopped,omitempty"`
	Seconds    float64        `json:"seconds"`
	Counts     map[string]int `json:"cases,omitempty"`
	samples    []string
}

type knownFinding struct {
	Property string `json:"property"`
	Match    string `json:"match"` // regular expression on the violation message
	Scenario string `json:"scenario"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"` // commit: suppresses nothing
	re       *regexp.Regexp
}

func loadKnown(path, id string) (out []*knownFinding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var all []*knownFinding
	if err := json.Unmarshal(b, &all); err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		os.Exit(3)
	}
	for _, k := range all {
		if k.Property == id && k.Fixed == "" && k.Match != "" {
			k.re = regexp.MustCompile(k.Match)
			out = append(out, k)
		}
	}
	return
}

type found struct {
	scen int
	v    Violation
}

// Main is the entry point of a check binary.
func Main() {
	if os.Getenv("VERIF_WORKER") == "1" {
		workerMain()
		return
	}
	var (
		id      = flag.String("prop", "", "property id")
		tier    = flag.String("tier", "quick", "quick or thorough")
		root    = flag.String("verif", "/verif", "where evidence and replays go")
		budget  = flag.Duration("budget", 0, "wall-clock budget")
		only    = flag.String("scen", "", "only scenarios whose name contains this")
		replay  = flag.String("replay", "", "replay file")
		nw      = flag.Int("workers", runtime.NumCPU(), "worker processes")
		list    = flag.Bool("list", false, "list scenarios")
		noevid  = flag.Bool("noevidence", false, "do not write evidence")
		verbose = flag.Bool("v", false, "progress on stderr")
	)
	flag.Parse()
	var err error
	scratch, err = os.MkdirTemp("", "verif-run")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	code := run(*id, *tier, *root, *budget, *only, *replay, *nw, *list, *noevid, *verbose)
	os.RemoveAll(scratch)
	os.Exit(code)
}

func run(id, tier, root string, budget time.Duration, only, replay string, nw int, list, noevid, verbose bool) int {
	if replay != "" {
		return doReplay(replay, tier)
	}
	p := props[id]
	if p == nil {
		fmt.Fprintf(os.Stderr, "no property %q in this binary\n", id)
		return 3
	}
	scens := p.Scenarios(tier)
	if list {
		for _, s := range scens {
			fmt.Printf("%s: %s %+v\n", s.Name, s.Doc, s.B)
		}
		return 0
	}
	if budget == 0 {
		budget = 180 * time.Second
		if tier == "thorough" {
			budget = 700 * time.Second
		}
	}
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	start := time.Now()
	known := loadKnown(filepath.Join(root, "known_findings.json"), id)
	hits := map[*knownFinding]string{}
	var stats []*scenStat
	var notes []string
	var bad *found
	var replayPath string
	total := 0.0
	for _, s := range scens {
		total += weight(s)
	}
	left := total
	for i, s := range scens {
		if only != "" && !strings.Contains(s.Name, only) {
			left -= weight(s)
			continue
		}
		// each scenario may use its share of what remains
		remain := budget - time.Since(start)
		share := time.Duration(float64(remain) * weight(s) / left * 1.6)
		if share > remain {
			share = remain
		}
		left -= weight(s)
		st, vio, flaky := exploreScenario(p, tier, i, s, nw, share, known, hits, verbose)
		stats = append(stats, st)
		notes = append(notes, flaky...)
		if verbose {
			fmt.Fprintf(os.Stderr, "  %-28s execs=%d nodes=%d steps=%d outcomes=%d maxpoints=%d exhaustive=%v %s %.1fs\n", st.Name, st.Executions, st.Nodes, st.Steps, st.Outcomes, st.MaxPoints, st.Exhaustive, st.Stopped, st.Seconds)
		}
		if vio != nil {
			bad = vio
			break
		}
	}
	if bad != nil {
		replayPath = writeReplay(root, id, tier, scens[bad.scen].Name, bad)
	}
	for k, ex := range hits {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", id, k.What, ex)
	}
	if !noevid {
		writeEvidence(root, p, tier, seed, stats, notes, bad, time.Since(start))
	}
	ex, no := 0, 0
	exh := true
	for _, s := range stats {
		ex += s.Executions
		no += s.Nodes
		exh = exh && s.Exhaustive
	}
	if bad != nil {
		fmt.Println(bad.v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replayPath)
		return 1
	}
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	fmt.Printf("OK property=%s tier=%s scenarios=%d executions=%d decision_states=%d exhaustive=%v %.1fs\n", id, tier, len(stats), ex, no, exh, time.Since(start).Seconds())
	return 0
}

func weight(s Scenario) float64 {
	if s.Weight > 0 {
		return s.Weight
	}
	return 1
}

// exploreScenario returns the first confirmed unlisted violation, if any.
func exploreScenario(p *Property, tier string, si int, s Scenario, nw int, share time.Duration, known []*knownFinding, hits map[*knownFinding]string, verbose bool) (*scenStat, *found, []string) {
	t0 := time.Now()
	st := &scenStat{Name: s.Name, Doc: s.Doc, Bounds: s.B, Counts: map[string]int{}}
	var notes []string
	defer func() { st.Seconds = time.Since(t0).Seconds() }()

	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	buckets := map[int][]Task{0: {{}}}
	pendingN := 1
	busy := 0
	stop := ""
	outcomes := map[uint64]bool{}
	var cands []Violation
	maxExec := s.MaxExec
	addTasks := func(ts []Task) {
		for _, t := range ts {
			buckets[t.Cost] = append(buckets[t.Cost], t)
			pendingN++
		}
	}
	take := func(n int) []Task {
		var keys []int
		for k, v := range buckets {
			if len(v) > 0 {
				keys = append(keys, k)
			}
		}
		sort.Ints(keys)
		var out []Task
		for _, k := range keys {
			b := buckets[k]
			for len(b) > 0 && len(out) < n {
				out = append(out, b[len(b)-1])
				b = b[:len(b)-1]
			}
			buckets[k] = b
			if len(out) > 0 {
				break // one cost class at a time
			}
		}
		pendingN -= len(out)
		return out
	}
	done := make(chan struct{})
	go func() {
		select {
		case <-done:
		case <-time.After(share):
			mu.Lock()
			if stop == "" {
				stop = "time budget"
			}
			cond.Broadcast()
			mu.Unlock()
		}
	}()
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			defer func() {
				if w != nil {
					w.stop()
				}
			}()
			for {
				mu.Lock()
				for pendingN == 0 && busy > 0 && stop == "" {
					cond.Wait()
				}
				if stop != "" || pendingN == 0 && busy == 0 {
					cond.Broadcast()
					mu.Unlock()
					return
				}
				n := pendingN/(nw*2) + 1
				if n > 64 {
					n = 64
				}
				batch := take(n)
				busy++
				mu.Unlock()
				slice := 150
				if time.Since(t0) < 2*time.Second {
					slice = 30
				}
				if w == nil {
					var err error
					if w, err = startWorker(); err != nil {
						fmt.Fprintln(os.Stderr, "worker:", err)
						os.Exit(3)
					}
				}
				r, _, err := w.ask(wreq{Prop: p.ID, Tier: tier, Scen: si, Tasks: batch, SliceMS: slice})
				var crash *Violation
				if err != nil {
					msg := w.deathMsg()
					w.stop()
					w = nil
					// find the execution that kills the process
					if pre, ok := bisect(p.ID, tier, si, batch); ok {
						crash = &Violation{Msg: msg, Prefix: pre, Outcome: "crash"}
					} else {
						mu.Lock()
						notes = append(notes, "a worker died once and did not on re-execution: "+firstLine(msg))
						mu.Unlock()
					}
				}
				mu.Lock()
				busy--
				if err == nil {
					addTasks(r.Left)
					st.Executions += r.Execs
					st.Nodes += r.Nodes
					st.Steps += r.Steps
					for k, v := range r.Counts {
						st.Counts[k] += v
					}
					if r.MaxPoints > st.MaxPoints {
						st.MaxPoints = r.MaxPoints
					}
					for _, o := range r.Outcomes {
						outcomes[o] = true
					}
					if len(st.samples) < 4 {
						st.samples = append(st.samples, r.Samples...)
					}
					if r.Diverged != "" && stop == "" {
						stop = "replay diverged: " + r.Diverged
					}
					for _, v := range r.Violations {
						if k := match(known, s.Name, v.Msg); k != nil {
							if _, ok := hits[k]; !ok {
								hits[k] = fmt.Sprintf("scenario %s choices %v", s.Name, v.Prefix)
							}
							continue
						}
						cands = append(cands, v)
					}
				} else if crash != nil {
					if k := match(known, s.Name, crash.Msg); k != nil {
						hits[k] = fmt.Sprintf("scenario %s choices %v", s.Name, crash.Prefix)
					} else {
						cands = append(cands, *crash)
					}
				}
				if len(cands) > 0 && stop == "" {
					stop = "violation"
				}
				if maxExec > 0 && st.Executions >= maxExec && stop == "" && pendingN > 0 {
					stop = fmt.Sprintf("cap of %d executions", maxExec)
				}
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	close(done)
	st.Outcomes = len(outcomes)
	st.Exhaustive = stop == "" && pendingN == 0 && len(notes) == 0
	st.Stopped = stop
	if strings.HasPrefix(stop, "replay diverged") {
		notes = append(notes, s.Name+": "+stop)
	}
	if len(cands) == 0 {
		return st, nil, notes
	}
	sort.SliceStable(cands, func(i, j int) bool { return devs(cands[i].Prefix) < devs(cands[j].Prefix) })
	for i, c := range cands {
		if i >= 3 {
			break
		}
		if v, ok := confirm(p.ID, tier, si, c, known, s.Name); ok {
			st.Stopped = "violation"
			return st, &found{si, v}, notes
		}
		notes = append(notes, fmt.Sprintf("%s: a violation was seen once but not on every re-execution (choices %v): %s", s.Name, c.Prefix, firstLine(c.Msg)))
	}
	st.Stopped = "unconfirmed violation"
	return st, nil, notes
}

func match(known []*knownFinding, scen, msg string) *knownFinding {
	for _, k := range known {
		if (k.Scenario == "" || k.Scenario == scen) && k.re.MatchString(msg) {
			return k
		}
	}
	return nil
}

func devs(p []int) int {
	n := 0
	for _, c := range p {
		if c != 0 {
			n++
		}
	}
	return n
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

func bisect(id, tier string, si int, batch []Task) ([]int, bool) {
	w, err := startWorker()
	if err != nil {
		return nil, false
	}
	defer w.stop()
	_, started, err := w.ask(wreq{Prop: id, Tier: tier, Scen: si, Tasks: append([]Task{}, batch...), SliceMS: 1 << 30, Careful: true})
	if err != nil && started == nil {
		started = []int{}
	}
	return started, err != nil
}

// single runs one choice sequence in a fresh process.
func single(id, tier string, si int, prefix []int, trace bool) (r wres, crash string) {
	w, err := startWorker()
	if err != nil {
		return wres{}, "cannot start worker: " + err.Error()
	}
	defer w.stop()
	tasks := []Task{{Prefix: prefix}}
	if vs.RaceEnabled { // what a process does first orders it (caches, initialisation): races may show only later
		tasks = append(tasks, tasks[0], tasks[0])
	}
	r, _, err = w.ask(wreq{Prop: id, Tier: tier, Scen: si, Tasks: tasks, Single: true, Trace: trace})
	if err != nil {
		return r, w.deathMsg()
	}
	return r, ""
}

func violates(id, tier string, si int, prefix []int, known []*knownFinding, scen string) (Violation, bool) {
	r, crash := single(id, tier, si, prefix, false)
	if crash != "" {
		return Violation{Msg: crash, Prefix: prefix, Outcome: "crash"}, match(known, scen, crash) == nil
	}
	if len(r.Violations) == 0 || r.Violations[0].Msg == "" {
		return Violation{}, false
	}
	v := r.Violations[0]
	return v, match(known, scen, v.Msg) == nil
}

// confirm re-executes a violation five times in fresh processes, and removes needless deviations.
func confirm(id, tier string, si int, c Violation, known []*knownFinding, scen string) (Violation, bool) {
	type res struct {
		v  Violation
		ok bool
	}
	try := func(prefix []int, n int) (Violation, bool) {
		out := make([]res, n)
		var wg sync.WaitGroup
		for i := range out {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				out[i].v, out[i].ok = violates(id, tier, si, prefix, known, scen)
			}(i)
		}
		wg.Wait()
		all := true
		for _, o := range out {
			if o.ok && strings.HasPrefix(o.v.Msg, "data race") { // a reported race is one, even if not every run reports it
				return o.v, true
			}
			all = all && o.ok
		}
		return out[0].v, all
	}
	v, ok := try(c.Prefix, 5)
	if !ok {
		return c, false
	}
	// drop deviations one at a time, latest first
	deadline := time.Now().Add(60 * time.Second)
	cur := append([]int{}, c.Prefix...)
	for i := len(cur) - 1; i >= 0 && time.Now().Before(deadline); i-- {
		if cur[i] == 0 {
			continue
		}
		t := append([]int{}, cur...)
		t[i] = 0
		for len(t) > 0 && t[len(t)-1] == 0 {
			t = t[:len(t)-1]
		}
		if nv, ok := violates(id, tier, si, t, known, scen); ok && nv.Outcome == v.Outcome {
			cur, v = t, nv
			if i > len(cur) {
				i = len(cur)
			}
		}
	}
	v.Prefix = cur
	r, crash := single(id, tier, si, cur, true)
	if crash == "" && len(r.Violations) > 0 {
		v.Trace = r.Violations[0].Trace
	}
	return v, true
}

type replayFile struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Scenario string   `json:"scenario"`
	Choices  []int    `json:"choices"`
	Outcome  string   `json:"outcome"`
	Message  string   `json:"message"`
	HowTo    string   `json:"how_to_replay"`
	Trace    []string `json:"trace"`
}

func writeReplay(root, id, tier, scen string, f *found) string {
	dir := filepath.Join(root, "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s.json", id, sanitize(scen)))
	tr := f.v.Trace
	if len(tr) > 4000 {
		tr = append(append([]string{}, tr[:500]...), append([]string{"..."}, tr[len(tr)-3000:]...)...)
	}
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.SetIndent("", " ")
	e.Encode(replayFile{id, tier, scen, f.v.Prefix, f.v.Outcome, f.v.Msg, "./run.sh replay " + path, tr})
	if err := os.WriteFile(path, b.Bytes(), 0644); err != nil {
		fmt.Fprintln(os.Stderr, "replay:", err)
	}
	return path
}

func sanitize(s string) string {
	return regexp.MustCompile(`[^A-Za-z0-9_.-]+`).ReplaceAllString(s, "_")
}

func doReplay(path, tier string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	p := props[f.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "property not in this binary:", f.Property)
		return 3
	}
	for i, s := range p.Scenarios(f.Tier) {
		if s.Name != f.Scenario {
			continue
		}
		r, crash := single(f.Property, f.Tier, i, f.Choices, true)
		if crash != "" {
			fmt.Println(crash)
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
			return 1
		}
		for _, v := range r.Violations {
			for _, t := range v.Trace {
				fmt.Println(t)
			}
			if v.Msg != "" {
				fmt.Println(v.Msg)
				fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
				return 1
			}
		}
		fmt.Println(r.Diverged, r.Sig)
		fmt.Println("no violation on this tree")
		return 0
	}
	fmt.Fprintln(os.Stderr, "no such scenario:", f.Scenario)
	return 3
}

func writeEvidence(root string, p *Property, tier string, seed int, stats []*scenStat, notes []string, bad *found, wall time.Duration) {
	ex, nodes, steps, outs := 0, 0, 0, 0
	exh := true
	var samples []string
	for _, s := range stats {
		ex += s.Executions
		nodes += s.Nodes
		steps += s.Steps
		for k, n := range s.Counts {
			if strings.HasSuffix(k, "states") {
				nodes += n
			} else {
				steps += n
			}
		}
		outs += s.Outcomes
		exh = exh && s.Exhaustive
		n := 2
		for _, x := range s.samples {
			if n--; n < 0 {
				break
			}
			samples = append(samples, x)
		}
	}
	if len(samples) == 0 {
		samples = []string{"none"}
	}
	cov := map[string]any{
		"states":                        nodes,
		"transitions":                   steps,
		"traces_validated_against_impl": ex,
		"distinct_outcomes":             outs,
		"samples":                       samples,
		"exhaustive":                    exh,
		"scenarios":                     stats,
		"explanation":                   "states: decision states (nodes of the choice tree) visited plus states enumerated inside executions; transitions: scheduling steps executed plus cases checked inside executions (per scenario under cases); traces_validated_against_impl: complete executions, every one of them run on the implementation itself (instrumented copy of the current tree), none on a model; distinct_outcomes: different final observations",
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	v := 0
	if bad != nil {
		v = 1
	}
	level := p.Level
	if level == "" {
		level = "model_checking"
	}
	e := map[string]any{"property": p.ID, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": wall.Seconds(), "violations": v,
		"assumptions": append([]string{"code runs one goroutine at a time between scheduling points; unsynchronised accesses are caught by the race detector where the build has it", "the shims of os, net, net/rpc, sync and time behave as the real packages in the respects the code uses"}, p.Assume...)}
	var b bytes.Buffer
	enc := json.NewEncoder(&b)
	enc.SetEscapeHTML(false)
	enc.SetIndent("", " ")
	enc.Encode(e)
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(root, "evidence", p.ID+".json"), b.Bytes(), 0644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
}
