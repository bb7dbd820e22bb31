package main

import (
	"fmt"
	"strings"

	"verif/mc/explore"
	"verif/mc/h"
	"verif/mc/vs"
)

func init() {
	explore.Register(&explore.Property{ID: "C10", Scenarios: c10})
}

func concurrent() []op {
	return []op{
		opShare("/data/a"), opShare("/data/a2"), opUnshare("a", hA), opRegister("x", xFile, hX), opRegister("y", yFile, hY),
		opSave("x", xFile, hX, 0), opSave("x", xFile, hX, 1), opUnshare("x", hX),
		opList(), opContains("x", hX), opMissing("x", hX), opComplete("x", hX), opRead("x", hX, 0), opRehash("a", hA), opRead("a", hA, 0),
		opShare("/data/b"),
	}
}

// initials are the states the concurrent calls start from.
var initials = []struct {
	name string
	ops  []op
}{
	{"empty", nil},
	{"a shared, x registered with chunk 0", []op{opShare("/data/a"), opRegister("x", xFile, hX), opSave("x", xFile, hX, 0)}},
}

type event struct {
	o        op
	inv, ret int
	res      string
	err      error
}

func c10(tier string) []explore.Scenario {
	cfg := vs.Config{MaxSteps: 100000, FSPoints: true}
	type shape struct {
		name    string
		threads int
		calls   int
		alpha   func() []op
		pre     int
		weight  float64
		sw      int
	}
	few := func() []op {
		return []op{opShare("/data/a"), opUnshare("a", hA), opRegister("x", xFile, hX), opSave("x", xFile, hX, 1), opUnshare("x", hX), opList(), opRead("x", hX, 0)}
	}
	five := func() []op {
		return []op{opShare("/data/a"), opUnshare("a", hA), opRegister("x", xFile, hX), opSave("x", xFile, hX, 1), opUnshare("x", hX)}
	}
	shapes := []shape{{"two-calls", 2, 1, concurrent, 1, 2, -1}, {"three-calls", 3, 1, five, 1, 2, -1}, {"two-by-two", 2, 2, five, 1, 2, 1}}
	if tier == "thorough" {
		shapes = []shape{{"two-calls", 2, 1, concurrent, 2, 2, -1}, {"three-calls", 3, 1, concurrent, 1, 2, -1}, {"two-by-two", 2, 2, few, 1, 3, -1}}
	}
	var out []explore.Scenario
	for _, s := range shapes {
		s := s
		from := "the states {empty; a shared and x partly downloaded}, freshly reopened or not"
		if s.sw >= 0 {
			from = "a freshly reopened catalogue with a shared and x partly downloaded"
		}
		out = append(out, explore.Scenario{Name: s.name, Cfg: cfg, Weight: s.weight,
			B:    explore.Bounds{Sched: s.pre, Switch: s.sw, Total: -1},
			Doc:  fmt.Sprintf("%d goroutines of %d calls each, every choice out of {%s}, from %s; all schedules with up to %d preemptions, at every lock and file-system call, under the race detector; results and final state (memory, restart) must equal some sequential order that respects the real-time order", s.threads, s.calls, names(s.alpha()), from, s.pre),
			Body: func() { concurrentBody(s.threads, s.calls, s.alpha(), s.sw >= 0) }})
	}
	return out
}

func concurrentBody(threads, calls int, alpha []op, oneStart bool) {
	vs.Serialize(true)
	w := newWorld()
	ini := initials[1]
	if !oneStart {
		ini = initials[vs.Choose(vs.Free, len(initials), "initial state")]
	}
	for _, o := range ini.ops {
		w.check("prepare", o)
	}
	if oneStart || vs.Choose(vs.Free, 2, "reopened") == 1 {
		w.restart(false)
	}
	var evs [][]*event
	var when []string
	last := 0
	for t := 0; t < threads; t++ {
		var l []*event
		for i := 0; i < calls; i++ {
			lo := 0
			if calls == 1 {
				lo = last // goroutines are interchangeable
			}
			k := lo + vs.Choose(vs.Free, len(alpha)-lo, "call")
			if i == 0 {
				last = k
			}
			l = append(l, &event{o: alpha[k]})
			when = append(when, alpha[k].name)
		}
		evs = append(evs, l)
	}
	desc := fmt.Sprintf("%s; %d goroutines: %s", ini.name, threads, strings.Join(when, ", "))
	clock := 0
	tick := func() int { return vs.CallV(func() int { clock++; return clock }) }
	vs.Serialize(false)
	var gs []*vs.G
	for _, l := range evs {
		l := l
		gs = append(gs, vs.GoProc(w.p, "caller", func() {
			for _, e := range l {
				e.inv = tick()
				e.res, e.err = e.o.do(w.c)
				e.ret = tick()
			}
		}))
	}
	for _, g := range gs {
		vs.Join(g)
	}
	alive, _, why := w.p.State()
	h.Must(alive, "%s: crashed: %s", desc, why)
	vs.Serialize(true)
	var all []*event
	for _, l := range evs {
		all = append(all, l...)
	}
	l, err := w.listed()
	h.Must(err == nil, "%s: listing failed afterwards: %v", desc, err)
	tree := w.userTree()
	var why2 []string
	used := make([]bool, len(all))
	var rec func(m model, done int) bool
	rec = func(m model, done int) bool {
		if done == len(all) {
			r, diff := w.match(l, m)
			if diff == "" {
				diff = filesDiffer(r, tree)
			}
			if diff != "" {
				why2 = append(why2, "final state: "+diff)
				return false
			}
			w.m = r
			return true
		}
	next:
		for i, e := range all {
			if used[i] {
				continue
			}
			for j, f := range all {
				if !used[j] && j != i && f.ret < e.inv {
					continue next
				}
			}
			after, want, ok := e.o.eff(m, w)
			if ok != (e.err == nil) || ok && want != e.res {
				continue
			}
			if !ok {
				after = m
			}
			used[i] = true
			if rec(after, done+1) {
				used[i] = false
				return true
			}
			used[i] = false
		}
		return false
	}
	ok := rec(w.m, 0)
	if !ok {
		for _, e := range all {
			why2 = append(why2, fmt.Sprintf("%s -> %q, %v [%d,%d]", e.o.name, e.res, e.err, e.inv, e.ret))
		}
	}
	h.Must(ok, "%s: no sequential order explains the outcome: %s", desc, strings.Join(why2, "; "))
	for _, e := range all {
		vs.Observe("%s=%s/%v", e.o.name, e.res, e.err != nil)
	}
	light := func(when string) {
		l, err := w.listed()
		h.Must(err == nil, "%s: listing failed: %v", when, err)
		_, diff := w.match(l, w.m)
		h.Must(diff == "", "%s: %s", when, diff)
		var reads []op
		for k, e := range w.m.ents {
			for i := 0; i < e.n; i++ {
				reads = append(reads, opRead("chunk", k, i))
			}
		}
		w.checkAll(when, reads)
		w.checkFiles(when)
	}
	light(desc)
	w.restart(false)
	light(desc + ", restart")
}
