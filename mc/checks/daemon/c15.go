package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"verif/mc/explore"
	"verif/mc/h"
	"verif/mc/vs"
)

func init() {
	explore.Register(&explore.Property{ID: "C15", Scenarios: c15})
}

// requests lists the identifiers of the discovery requests sent since index from.
func (l *lan) requests(from int) (ids []int) {
	for _, r := range l.w.Since(from) {
		if r.Fate != "injected" && len(r.Data) > 2 && r.Data[0] == 0 {
			ids = append(ids, u16(r.Data[1:]))
		}
	}
	return
}

// chimed splits the output of chims into one item per reply.
func chimed(out string) (items []string) {
	for _, s := range strings.Split(out, "\n") {
		if strings.HasPrefix(s, "IP: ") {
			items = append(items, s)
		} else if strings.HasPrefix(s, "  ") && len(items) > 0 {
			items[len(items)-1] += s
		}
	}
	sort.Strings(items)
	return
}

func count(l []string, s string) (n int) {
	for _, x := range l {
		if x == s {
			n++
		}
	}
	return
}

func c15(tier string) (out []explore.Scenario) {
	k := 3
	pre := 2
	if tier == "thorough" {
		k, pre = 4, 3
	}
	own := "IP: 10.37.91.1:61696"
	// replies at all kinds of times
	times := []time.Duration{0, time.Second, 2*time.Second - 1, 2 * time.Second, 2*time.Second + 1, 3 * time.Second}
	timing := func() {
		l := newLan(1)
		a := l.nodes[0]
		a.boot()
		base := a.p.Goroutines()
		at := l.mark()
		t0 := vs.Now()
		c := a.start("chims")
		vs.Settle()
		ids := l.requests(at)
		h.Must(len(ids) == 1, "chims sends %d discovery requests", len(ids))
		type reply struct {
			t    time.Duration
			id   int
			src  string
			data []byte
			kind int
		}
		var rs []reply
		last := 0
		for i := 0; i < k; i++ {
			v := last + vs.Choose(vs.Free, len(times)+1-last, "time of a reply")
			if v == len(times) {
				break
			}
			last = v
			r := reply{t: times[v], kind: vs.Choose(vs.Free, 4, "number of the reply")}
			r.id = []int{ids[0], ids[0] + 1, ids[0] + 65535, ids[0]}[r.kind] & 65535
			r.src = fmt.Sprintf("IP: 7.7.7.%d:%d  %d:%d", i, 100+i, i, i+5)
			r.data = discoverResp(r.id, [4]byte{7, 7, 7, byte(i)}, 100+i, i, i+5)
			if r.kind == 3 { // something else with the same number
				r.data = listResp(r.id)
			}
			rs = append(rs, r)
		}
		for i, r := range rs {
			d := time.Duration(t0) + r.t - time.Duration(vs.Now())
			if d > 0 {
				vs.Sleep(d)
			}
			a.inject(phantom(i, 40000), r.data)
		}
		what := fmt.Sprint(len(rs), " replies")
		for _, r := range rs {
			what += fmt.Sprintf(" [%v %s]", r.t, []string{"to this", "to the next", "to the previous", "a listing with the number of this"}[r.kind])
		}
		o, code := c.wait()
		took := time.Duration(vs.Now() - t0)
		h.Must(code == 0, "%s: chims fails: %q", what, o)
		h.Must(len(rs) > 0 && rs[len(rs)-1].t > 2*time.Second || took >= 2*time.Second && took < 2010*time.Millisecond, "%s: the discovery took %v", what, took)
		got := chimed(o)
		n := count(got, own)
		h.Must(n == 1, "%s: the daemon's own reply is shown %d times: %q", what, n, o)
		total := 1
		for _, r := range rs {
			n := count(got, r.src)
			total += n
			switch {
			case r.kind != 0:
				h.Must(n == 0, "%s: the reply to another request is shown: %q", what, o)
			case r.t < 2*time.Second:
				h.Must(n == 1, "%s: a reply in time is shown %d times: %q", what, n, o)
			case r.t > 2*time.Second:
				h.Must(n == 0, "%s: a late reply is shown: %q", what, o)
			default:
				h.Must(n <= 1, "%s: a reply is shown twice: %q", what, o)
			}
		}
		h.Must(total == len(got), "%s: chims shows %q", what, o)
		vs.Sleep(3 * time.Second)
		vs.Settle()
		a.mustIdle(what, base)
		o2, _ := a.run("chims")
		g2 := chimed(o2)
		h.Must(len(g2) == 1 && g2[0] == own, "%s: the next chims shows %q", what, o2)
		a.mustServe(what, nil)
		vs.Observe("%s %d", what, total)
	}
	out = append(out, explore.Scenario{Name: "timing", Cfg: vs.Config{Serial: true}, B: explore.Bounds{Total: -1}, Body: timing,
		Doc: fmt.Sprintf("up to %d replies to this, the next or the previous request, or listings with the number of this request, each at one of six times from at once over just before, at and just after the deadline to a second late", k)})

	edge := func() {
		vs.Serialize(true)
		l := newLan(1)
		a := l.nodes[0]
		a.boot()
		base := a.p.Goroutines()
		at := l.mark()
		t0 := vs.Now()
		c := a.start("chims")
		vs.Settle()
		ids := l.requests(at)
		h.Must(len(ids) == 1, "chims sends %d discovery requests", len(ids))
		n := 1 + vs.Choose(vs.Free, 3, "replies")
		early := vs.Choose(vs.Free, 2, "when") == 1
		d := 2 * time.Second
		if early {
			d = time.Second
		}
		vs.Serialize(false)
		vs.Sleep(time.Duration(t0) + d - time.Duration(vs.Now()))
		for i := 0; i < n; i++ {
			a.inject(phantom(i, 40000), discoverResp(ids[0], [4]byte{7, 7, 7, byte(i)}, 100))
		}
		vs.Settle()
		vs.Serialize(true)
		o, code := c.wait()
		took := time.Duration(vs.Now() - t0)
		h.Must(code == 0 && took >= 2*time.Second && took < 2010*time.Millisecond, "chims fails or takes %v: %q", took, o)
		got := chimed(o)
		h.Must(count(got, own) == 1, "the own reply is shown %d times", count(got, own))
		total := 1
		for i := 0; i < n; i++ {
			m := count(got, fmt.Sprintf("IP: 7.7.7.%d:100", i))
			h.Must(m <= 1 && (m == 1 || !early), "reply %d is shown %d times: %q", i, m, o)
			total += m
		}
		h.Must(total == len(got), "chims shows %q", o)
		vs.Sleep(3 * time.Second)
		vs.Settle()
		a.mustIdle("after a discovery", base)
		a.mustServe("after a discovery", nil)
		vs.Observe("%d of %d", total, n)
	}
	out = append(out, explore.Scenario{Name: "at the deadline", Cfg: vs.Config{NetPoints: true}, B: explore.Bounds{Sched: pre, Switch: 2, Total: pre + 1}, Body: edge,
		Doc: fmt.Sprintf("one to three replies at the same moment, at the deadline or halfway, every schedule with up to %d preemptions", pre)})

	two := func() {
		vs.Serialize(true)
		l := newLan(1)
		a := l.nodes[0]
		a.boot()
		base := a.p.Goroutines()
		at := l.mark()
		vs.Serialize(false)
		c1, c2 := a.start("chims"), a.start("chims")
		vs.Settle()
		ids := l.requests(at)
		h.Must(len(ids) == 2 && ids[0] != ids[1], "two discoveries at once use the numbers %v", ids)
		for i, id := range ids {
			a.inject(phantom(i, 40000), discoverResp(id, [4]byte{7, 7, 7, byte(i)}, 100))
			a.inject(phantom(i, 40001), discoverResp(id, [4]byte{7, 7, 8, byte(i)}, 100))
		}
		vs.Settle()
		vs.Serialize(true)
		o1, _ := c1.wait()
		o2, _ := c2.wait()
		g1, g2 := chimed(o1), chimed(o2)
		want := func(i int) string { return fmt.Sprintf("[%s IP: 7.7.7.%d:100 IP: 7.7.8.%d:100]", own, i, i) }
		s1, s2 := fmt.Sprint(g1), fmt.Sprint(g2)
		h.Must(s1 == want(0) && s2 == want(1) || s1 == want(1) && s2 == want(0), "two discoveries at once show %s and %s", s1, s2)
		vs.Sleep(3 * time.Second)
		vs.Settle()
		a.mustIdle("after two discoveries", base)
		a.mustServe("after two discoveries", nil)
		vs.Observe("%s", s1)
	}
	out = append(out, explore.Scenario{Name: "two at once", Cfg: vs.Config{NetPoints: true}, B: explore.Bounds{Sched: pre, Switch: 1, Total: pre}, Body: two,
		Doc: fmt.Sprintf("two discoveries at once and two replies to each, every schedule with up to %d preemptions", pre)})

	many := func() {
		n := []int{1, 2, 40, 300}[vs.Choose(vs.Free, 4, "discoveries at once")]
		each := []int{1, 5, 60, 300}[vs.Choose(vs.Free, 4, "replies to each")]
		if n*each > 600 {
			each = 600 / n
		}
		l := newLan(1)
		a := l.nodes[0]
		a.boot()
		base := a.p.Goroutines()
		at := l.mark()
		var cs []*cmd
		for i := 0; i < n; i++ {
			cs = append(cs, a.start("chims"))
			vs.Settle()
		}
		ids := l.requests(at)
		seen := map[int]bool{}
		for _, id := range ids {
			h.Must(!seen[id], "%d discoveries at once share the number %d", n, id)
			seen[id] = true
		}
		h.Must(len(ids) == n, "%d discoveries send %d requests", n, len(ids))
		for j := 0; j < each; j++ {
			for i, id := range ids {
				a.inject(phantom(j, 40000), discoverResp(id, [4]byte{7, byte(j), byte(i >> 8), byte(i)}, 100+j>>8))
				if i%100 == 99 {
					vs.Settle() // its socket does not hold more
				}
			}
			vs.Settle()
		}
		for i, c := range cs {
			o, _ := c.wait()
			got := chimed(o)
			h.Must(len(got) == each+1, "%d discoveries at once with %d replies each: one shows %d: %q", n, each, len(got), o)
			for j := 0; j < each; j++ {
				s := fmt.Sprintf("IP: 7.%d.%d.%d:%d", j&255, i>>8, i&255, 100+j>>8)
				h.Must(count(got, s) == 1, "%d discoveries at once with %d replies each: %q is shown %d times in %q", n, each, s, count(got, s), o)
			}
		}
		vs.Sleep(3 * time.Second)
		vs.Settle()
		a.mustIdle("after many discoveries", base)
		a.mustServe("after many discoveries", nil)
		vs.Observe("%d %d", n, each)
	}
	out = append(out, explore.Scenario{Name: "many", Cfg: vs.Config{Serial: true, MaxSteps: 3000000}, B: explore.Bounds{Total: -1}, Body: many,
		Doc: "1, 2, 40 and 300 discoveries at once with up to 300 replies each (at most 600 in all)"})
	wrap := func() {
		l := newLan(1)
		a := l.nodes[0]
		f := mkfile("f", 1, 40, 40)
		a.give(f, nil)
		a.boot()
		base := a.p.Goroutines()
		for i := 0; i < 65536+300; i++ {
			o, _ := a.run("list", "10.37.91.1")
			h.Must(strings.Contains(o, hexs(f.k)), "request %d: the listing is %q", i, o)
			if i == 65535-3 || i == 65535+250 {
				o, _ := a.run("chims")
				h.Must(len(chimed(o)) == 1, "after %d requests a discovery shows %q", i, o)
				at := l.mark()
				c1, c2 := a.start("chims"), a.start("chims")
				vs.Sleep(time.Second)
				ids := l.requests(at)
				h.Must(len(ids) == 2 && ids[0] != ids[1], "after %d requests two discoveries at once have the numbers %v", i, ids)
				a.inject(phantom(3, 40000), discoverResp(ids[1], [4]byte{7, 7, 7, 7}, 100))
				o1, _ := c1.wait()
				o2, _ := c2.wait()
				h.Must(len(chimed(o1)) == 1 && len(chimed(o2)) == 2 || len(chimed(o1)) == 2 && len(chimed(o2)) == 1, "after %d requests a reply to the second of two discoveries shows as %q and %q", i, o1, o2)
				a.mustIdle(fmt.Sprintf("after %d requests", i), base)
			}
		}
	}
	out = append(out, explore.Scenario{Name: "wrap", Cfg: vs.Config{Serial: true, MaxSteps: 30000000}, B: explore.Bounds{Total: -1}, Body: wrap,
		Doc: "65836 listing requests one after the other, and discoveries, also two at once, before and after the request numbers are used up"})
	return
}
