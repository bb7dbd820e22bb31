package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"verif/mc/explore"
	"verif/mc/h"
	vnet "verif/mc/shim/net"
	"verif/mc/vs"
)

// plan says what three hosts have and want of two files of the same name. A string per file and host: which chunks it
// has ("x.x"), and "get" if it is to download it.
type plan struct {
	what string
	f, g [3]string
}

var plans = []plan{
	{"A gets two files from B", [3]string{"get", "xxx", ""}, [3]string{"get", "xx", ""}},
	{"A gets one file from B and one from C", [3]string{"get", "xxx", ""}, [3]string{"get", "", "xx"}},
	{"A and C get a file from B", [3]string{"get", "xxx", "get"}, [3]string{"", "", ""}},
	{"A and B get a file from each other", [3]string{"get", "xxx", ""}, [3]string{"xx", "get", ""}},
	{"each has a chunk of the file and all get it", [3]string{"x.. get", ".x. get", "..x get"}, [3]string{"", "", ""}},
	{"A gets from B what B gets from C", [3]string{"get", "x.. get", "xxx"}, [3]string{"", "", ""}},
	{"all get something from the next", [3]string{"get", "xxx", ""}, [3]string{"", "get", "xx"}},
	{"two files in halves", [3]string{"get", "x.x", "xx."}, [3]string{"get", "x.", ".x"}},
}

// swarm runs several downloads at once. restart: a daemon is killed at some second.
func swarm(t *transfer, faults vnet.Faults, restart, live bool) {
	vs.Serialize(true)
	l := newLan(3)
	p := plans[vs.Choose(vs.Free, len(plans), "plan")]
	who, when := -1, 0
	what := p.what
	if restart {
		who = vs.Choose(vs.Free, 3, "restarted host")
		when = vs.Choose(vs.Free, 12, "at second")
		what += fmt.Sprintf("; %s is restarted after %d s", l.nodes[who].name, when)
	}
	files := []file{mkfile("f.bin", 4, 2700, 1100), mkfile("f.bin", 9, 1500, 1100)}
	var base [3][]string
	want := [3][]int{}
	for i, n := range l.nodes {
		for j, s := range []string{p.f[i], p.g[i]} {
			if strings.Contains(s, "x") {
				n.give(files[j], func(c int) bool { return s[c] == 'x' })
			}
			if strings.Contains(s, "get") {
				want[i] = append(want[i], j)
			}
		}
		n.boot()
	}
	for i, n := range l.nodes {
		base[i] = n.p.Goroutines()
	}
	l.w.SetFaults(faults)
	if live {
		vs.Serialize(false)
	}
	type job struct {
		n *node
		f file
		c *cmd
	}
	var jobs []*job
	for i, n := range l.nodes {
		for _, j := range want[i] {
			jobs = append(jobs, &job{n, files[j], n.start("get", hexs(files[j].k))})
		}
	}
	done := false
	sec := 0
	horizon := 160
	for ; sec < horizon && !done; sec++ {
		vs.Sleep(time.Second)
		vs.Settle()
		if sec == 12 && live {
			vs.Serialize(true)
		}
		for i, n := range l.nodes {
			n.mustLive("%s: after %d s", what, sec+1)
			if i == who && sec == when {
				n.p.Kill("restart")
				vs.Settle()
				n.boot()
			}
		}
		done = true
		for _, n := range l.nodes {
			s := n.onDisk(func(k hash, i int, data []byte, err error) {
				for _, f := range files {
					if t.content && f.k == k {
						h.Must(err == nil && bytes.Equal(data, f.chunk(i)), "%s: after %d s chunk %d on %s is present but wrong (%v)", what, sec+1, i, n.name, err)
					}
				}
			})
			for _, j := range jobs {
				if j.n != n {
					continue
				}
				if e, ok := s.entries[j.f.k]; !ok || !e.full() {
					done = false
				}
				if alive, code, why := j.c.p.State(); !alive && (n == l.nodes[max(who, 0)] && who >= 0 && sec == when || code != 0 || !strings.Contains(j.c.p.Output(), "initiated")) {
					h.Must(!strings.HasPrefix(why, "panic"), "%s: get crashed: %s", what, why)
					j.c = n.start("get", hexs(j.f.k))
				}
			}
		}
	}
	l.w.SetFaults(vnet.Faults{})
	if t.finish {
		text := ""
		for _, n := range l.nodes {
			text += fmt.Sprintf("\n%s has %v and printed:\n%s", n.name, n.onDisk(nil), tail(n.p.Output()))
		}
		h.Must(done, "%s: not all downloads are complete after %d s:%s", what, horizon, text)
	}
	if done {
		for _, j := range jobs {
			e := j.n.onDisk(nil).entries[j.f.k]
			data, ok := j.n.fs.Get(e.path)
			h.Must(!t.content || ok && bytes.Equal(data, j.f.data), "%s: %s is complete on %s but differs from the original", what, e.path, j.n.name)
		}
	}
	if t.clean {
		vs.Sleep(30 * time.Second)
		vs.Settle()
		for i, n := range l.nodes {
			if i == who || !done {
				continue
			}
			n.mustIdle(what+": 30 s after the downloads", base[i])
		}
	}
	for _, n := range l.nodes {
		n.mustList(what)
	}
	vs.Observe("%s: %d s", what, sec)
}

func swarms(k int, oracle func(t *transfer)) (out []explore.Scenario) {
	add := func(name, doc string, cfg vs.Config, b explore.Bounds, f vnet.Faults, restart, live bool) {
		out = append(out, explore.Scenario{Name: name, Doc: doc, Cfg: cfg, B: b, Weight: 3, Body: func() {
			t := &transfer{}
			oracle(t)
			swarm(t, f, restart, live)
		}})
	}
	serial := vs.Config{Serial: true, MaxSteps: 1000000}
	text := fmt.Sprintf("several downloads at once between three daemons in %d constellations (two files, from one peer or two; of one file by two or all; in both directions; in a chain)", len(plans))
	add("swarm", text+", every single fault", serial, explore.Bounds{Fault: k - 1, Total: k - 1}, allFaults, false, false)
	add("swarm, restarts", text+", one of which is restarted at any second", serial, explore.Bounds{Fault: k - 2, Total: k - 2}, allFaults, true, false)
	add("swarm, schedules", text+fmt.Sprintf(", with %d deviations from the default schedule", k-1), vs.Config{NetPoints: true, MaxSteps: 1000000}, explore.Bounds{Sched: k - 1, Switch: 1, Timing: 1, Total: k - 1}, vnet.Faults{}, false, true)
	return
}
