package explore

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"

	"verif/mc/vs"
)

type wreq struct {
	Prop, Tier string
	Scen       int
	Tasks      []Task
	SliceMS    int
	Trace      bool
	Careful    bool // announce each execution
	Single     bool // run exactly the given prefixes, no children
}

type wres struct {
	Start      []int // careful mode: about to run this prefix
	Done       bool
	Execs      int
	Nodes      int
	Steps      int
	Outcomes   []uint64
	Left       []Task
	Violations []Violation
	Samples    []string
	Diverged   string
	Sig        string
	MaxPoints  int
	Counts     map[string]int
}

const (
	exitHang = 97
	exitMem  = 98
)

func raceLog() string {
	pre := os.Getenv("VERIF_RACELOG")
	if pre == "" {
		return ""
	}
	m, _ := filepath.Glob(fmt.Sprintf("%s.%d", pre, os.Getpid()))
	if len(m) == 0 {
		return ""
	}
	b, _ := os.ReadFile(m[0])
	return string(b)
}

var running atomic.Bool

func watchdog() {
	last, since := int64(-1), time.Now()
	limit := 60 * time.Second
	for {
		time.Sleep(500 * time.Millisecond)
		if p := vs.Progress(); p != last || !running.Load() {
			last, since = p, time.Now()
		} else if time.Since(since) > limit {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "HANG: no scheduling step for %v\n%s\n", limit, buf[:n])
			os.Exit(exitHang)
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 3<<30 {
			fmt.Fprintf(os.Stderr, "MEMORY: heap of %d bytes\n", ms.HeapAlloc)
			os.Exit(exitMem)
		}
	}
}

func workerMain() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(200)
	go watchdog()
	in := json.NewDecoder(bufio.NewReaderSize(os.Stdin, 1<<20))
	w := bufio.NewWriterSize(os.NewFile(3, "results"), 1<<20)
	out := json.NewEncoder(w)
	raceSeen := 0
	for {
		var q wreq
		if err := in.Decode(&q); err != nil {
			return
		}
		p := props[q.Prop]
		sc := p.Scenarios(q.Tier)[q.Scen]
		cfg := sc.Cfg
		cfg.Trace = q.Trace
		stack := q.Tasks
		var r wres
		r.Counts = map[string]int{}
		seen := map[uint64]bool{}
		t0 := time.Now()
		for len(stack) > 0 {
			if !q.Single && !q.Careful && r.Execs > 0 && time.Since(t0) > time.Duration(q.SliceMS)*time.Millisecond {
				break
			}
			t := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if q.Careful {
				out.Encode(wres{Start: t.Prefix})
				w.Flush()
			}
			running.Store(true)
			res := vs.Execute(cfg, t.Prefix, sc.Body)
			running.Store(false)
			r.Execs++
			r.Steps += res.Steps
			for k, v := range res.Counts {
				r.Counts[k] += v
			}
			if len(res.Points) > r.MaxPoints {
				r.MaxPoints = len(res.Points)
			}
			fp := fingerprint(res)
			if !seen[fp] {
				seen[fp] = true
				if len(r.Samples) < 3 {
					r.Samples = append(r.Samples, sc.Name+": "+describe(res))
				}
			}
			race := ""
			if res.Races > 0 {
				all := raceLog()
				if len(all) > raceSeen {
					race = all[raceSeen:]
				}
				raceSeen = len(all)
				if len(race) > 6000 {
					race = race[:6000]
				}
			}
			if res.Outcome == "diverged" {
				r.Diverged = res.Detail
				continue
			}
			if q.Single {
				r.Sig = signature(res)
			}
			if msgs := judge(res, race); len(msgs) > 0 {
				ch := make([]int, len(res.Points))
				for i, p := range res.Points {
					ch[i] = p.Chosen
				}
				for len(ch) > 0 && ch[len(ch)-1] == 0 {
					ch = ch[:len(ch)-1]
				}
				r.Violations = append(r.Violations, Violation{Msg: strings.Join(msgs, "\n"), Prefix: ch, Outcome: res.Outcome, Trace: res.Trace, Race: race})
				if len(r.Violations) >= 20 {
					break
				}
			} else if q.Trace {
				r.Violations = append(r.Violations, Violation{Trace: res.Trace, Outcome: res.Outcome})
			}
			if !q.Single {
				kids, nodes := children(res.Points, len(t.Prefix), sc.B)
				r.Nodes += nodes + 1
				// reversed, so that the earliest deviation is explored first
				for i := len(kids) - 1; i >= 0; i-- {
					stack = append(stack, kids[i])
				}
			}
		}
		for k := range seen {
			r.Outcomes = append(r.Outcomes, k)
		}
		r.Left = stack
		r.Done = true
		out.Encode(r)
		w.Flush()
	}
}
