// Package explore enumerates the executions of scenarios exhaustively within deviation bounds, in parallel
// worker processes, and reports violations as replayable choice sequences.
package explore

import (
	"fmt"
	"hash/fnv"
	"strings"
	"time"

	"verif/mc/vs"
)

// Bounds limits the deviations per execution; a negative value means no limit.
type Bounds struct {
	Sched  int `json:"preemptions"`  // switching away from a goroutine that could go on
	Switch int `json:"switches"`     // non-default successor when the running goroutine blocks
	Fault  int `json:"faults"`       // environment answers other than the default
	Timing int `json:"early_timers"` // clock advances while goroutines are runnable
	Total  int `json:"total"`        // sum of all of the above
}

// Scenario is one closed harness.
type Scenario struct {
	Name    string
	Doc     string // alphabet, bounds and oracle in a sentence
	Cfg     vs.Config
	B       Bounds
	Body    func()
	MaxExec int     // cap on executions; 0 = none. A capped scenario is reported as not exhaustive.
	Weight  float64 // share of the time budget (default 1)
}

// Property is a set of scenarios that together decide one listed property.
type Property struct {
	ID        string
	Level     string
	Scenarios func(tier string) []Scenario
	Assume    []string
}

var props = map[string]*Property{}

// Register adds a property to this binary.
func Register(p *Property) { props[p.ID] = p }

// Task is a subtree of the choice tree.
type Task struct {
	Prefix []int
	Cost   int
}

// cost of choosing anything but the default at a point.
func deviates(p vs.PointRec) bool { return p.Chosen != 0 }

type counts struct{ sched, sw, fault, timing int }

func (c *counts) add(k vs.ChoiceKind) {
	switch k {
	case vs.Sched:
		c.sched++
	case vs.Switch:
		c.sw++
	case vs.Fault:
		c.fault++
	case vs.Timing:
		c.timing++
	}
}

func (c counts) total() int { return c.sched + c.sw + c.fault + c.timing }

func (c counts) within(b Bounds) bool {
	le := func(n, lim int) bool { return lim < 0 || n <= lim }
	return le(c.sched, b.Sched) && le(c.sw, b.Switch) && le(c.fault, b.Fault) && le(c.timing, b.Timing) && le(c.total(), b.Total)
}

// children lists the unexplored alternatives of an execution beyond its prefix.
func children(points []vs.PointRec, from int, b Bounds) (out []Task, nodes int) {
	var c counts
	for i := 0; i < from && i < len(points); i++ {
		if deviates(points[i]) {
			c.add(points[i].Kind)
		}
	}
	for i := from; i < len(points); i++ {
		nodes++
		p := points[i]
		d := c
		d.add(p.Kind)
		if d.within(b) {
			for alt := 1; alt < p.N; alt++ {
				if alt == p.Chosen {
					continue
				}
				pre := make([]int, i+1)
				for j := 0; j < i; j++ {
					pre[j] = points[j].Chosen
				}
				pre[i] = alt
				out = append(out, Task{Prefix: pre, Cost: d.total()})
			}
		}
		if deviates(p) {
			c.add(p.Kind)
		}
	}
	return
}

// Violation is one property violation.
type Violation struct {
	Msg     string
	Prefix  []int
	Outcome string
	Trace   []string
	Race    string
}

// judge turns a result into violation messages.
func judge(res *vs.Result, race string) []string {
	out := append([]string{}, res.Violations...)
	switch res.Outcome {
	case "done":
	case "diverged":
	case "harness-panic":
		if len(out) == 0 {
			out = append(out, "panic: "+res.Detail)
		}
	default:
		out = append(out, res.Outcome+": "+res.Detail)
	}
	if res.Races > 0 {
		out = append(out, "data race:\n"+race)
	}
	return out
}

func fingerprint(res *vs.Result) uint64 {
	h := fnv.New64a()
	for _, o := range res.Observed {
		fmt.Fprintln(h, o)
	}
	fmt.Fprintln(h, res.Outcome)
	return h.Sum64()
}

// signature identifies a whole execution for determinism checks.
func signature(res *vs.Result) string {
	var b strings.Builder
	for _, p := range res.Points {
		fmt.Fprintf(&b, "%d/%d %s %s;", p.Chosen, p.N, p.Kind, p.Label)
	}
	fmt.Fprintf(&b, "|%s|%s|%v", res.Outcome, strings.Join(res.Observed, "|"), res.Now)
	return b.String()
}

func describe(res *vs.Result) string {
	var b strings.Builder
	n := 0
	for i, p := range res.Points {
		if p.Chosen != 0 {
			if n > 0 {
				b.WriteString("; ")
			}
			fmt.Fprintf(&b, "#%d %s %d/%d at %q", i, p.Kind, p.Chosen, p.N, p.Label)
			n++
		}
	}
	if n == 0 {
		b.WriteString("default choices only")
	}
	s := b.String()
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	obs := strings.Join(res.Observed, " | ")
	if len(obs) > 300 {
		obs = obs[:300] + "..."
	}
	return fmt.Sprintf("%s -> %s [%s] after %d steps", s, res.Outcome, obs, res.Steps)
}

var _ = time.Now
