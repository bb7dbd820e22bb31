package main

import (
	"fmt"
	"strings"
	"time"

	"verif/mc/explore"
	"verif/mc/h"
	vnet "verif/mc/shim/net"
	"verif/mc/vs"
)

func init() {
	explore.Register(&explore.Property{ID: "C18", Scenarios: c18})
}

// ear receives the uploads one endpoint has asked for, one after the other.
type ear struct {
	n    *node
	ph   vnet.Addr4
	at   int
	cur  []*stream // the streams that may come, in the order they may come in
	i    int       // the one being received; -1: none yet
	seen int
	cut  bool // the current stream may be replaced by a later one
}

func (n *node) ear(ph vnet.Addr4) *ear { return &ear{n: n, ph: ph, at: n.l.mark(), i: -1} }

// hear takes what has been sent to the endpoint; it returns the number of packets.
func (e *ear) hear() (k int) {
	for _, r := range to(e.n.l.w, e.at, e.ph) {
		k++
		e.seen++
		b := r.Data
		h.Must(len(b) >= 5 && b[0] == 5, "%v is sent % x", e.ph, b)
		if u32(b[1:]) == 0 && len(b) >= 29 { // a header: which stream is it
			next := -1
			for j := e.i + 1; j < len(e.cur); j++ {
				if string(b[5:25]) == string(e.cur[j].k[:]) {
					next = j
					break
				}
			}
			h.Must(next >= 0, "%v is sent a header for %x, which it has not asked for (again)", e.ph, b[5:25])
			e.i = next
		}
		h.Must(e.i >= 0, "%v is sent data before any header", e.ph)
		e.cur[e.i].take(b)
	}
	e.at = e.n.l.mark()
	return
}

// finish acknowledges everything until the last stream ends.
func (e *ear) finish(when string) {
	last := e.cur[len(e.cur)-1]
	for i := 0; i < 60; i++ {
		vs.Settle()
		e.n.mustLive("%s", when)
		e.hear()
		if e.i >= 0 && e.cur[e.i].ended {
			break
		}
		e.n.inject(e.ph, ackPkt(0))
	}
	h.Must(e.i >= 0 && e.cur[e.i].ended, "%s: an upload to %v stops after %d packets; goroutines:\n%s", when, e.ph, e.seen, strings.Join(e.n.p.Goroutines(), "\n"))
	_ = last
}

func c18(tier string) (out []explore.Scenario) {
	pre := 2
	if tier == "thorough" {
		pre = 3
	}
	cfg := vs.Config{NetPoints: true, MaxSteps: 300000}
	b := explore.Bounds{Sched: pre, Switch: 1, Timing: 1, Total: pre}
	f := mkfile("f.bin", 3, 3*1500, 1500)
	g := mkfile("g.bin", 4, 2*1500, 1500)
	one := mkfile("one.bin", 5, 2600, 2600)
	begin := func() (*lan, *node, []string) {
		vs.Serialize(true)
		l := newLan(1)
		a := l.nodes[0]
		a.give(f, nil)
		a.give(g, nil)
		a.give(one, nil)
		a.boot()
		return l, a, a.p.Goroutines()
	}
	end := func(a *node, base []string, when string) {
		vs.Serialize(true)
		vs.Sleep(25 * time.Second)
		vs.Settle()
		a.mustIdle(when, base)
		a.mustServe(when, []held{{f, all(f)}, {g, all(g)}, {one, all(one)}})
	}
	str := func(f file, c int, who any) *stream {
		return newStream(fmt.Sprintf("chunk %d of %s for %v", c, f.name, who), f.chunk(c))
	}

	// different endpoints
	ends := [][2]vnet.Addr4{
		{phantom(0, 5000), phantom(1, 5000)}, {phantom(0, 5000), phantom(0, 5001)}, {phantom(0, 5000), phantom(0, 5000+256)},
	}
	out = append(out, explore.Scenario{Name: "two endpoints", Cfg: cfg, B: explore.Bounds{Sched: 2, Switch: 1, Timing: 1, Total: pre}, Weight: 2,
		Doc: fmt.Sprintf("two endpoints that differ in address or port fetch the same or different chunks, also of a file of one chunk, at once with windows 1 and 2, every schedule of requests and acknowledgements with up to 2 preemptions and %d deviations in all", pre),
		Body: func() {
			l, a, base := begin()
			p := ends[vs.Choose(vs.Free, len(ends), "endpoints")]
			what := vs.Choose(vs.Free, 4, "chunks")
			win := 1 + vs.Choose(vs.Free, 2, "window")
			f1, f2, c2 := f, f, []int{1, 0, 0, 0}[what]
			switch what {
			case 2:
				f2 = g
			case 3: // a file of one chunk
				f1, f2 = one, one
			}
			e1, e2 := a.ear(p[0]), a.ear(p[1])
			e1.cur = []*stream{str(f1, 0, p[0])}
			e2.cur = []*stream{str(f2, c2, p[1])}
			when := fmt.Sprintf("uploads to %v and %v, window %d", p[0], p[1], win)
			vs.Serialize(false)
			a.inject(p[0], openReq(f1.k, 0, win))
			a.inject(p[1], openReq(f2.k, c2, win))
			vs.Settle()
			for i := 0; i < 12; i++ {
				n1, n2 := e1.hear(), e2.hear()
				if n1+n2 == 0 {
					break
				}
				for j := 0; j < n1 || j < n2; j++ {
					if j < n1 {
						a.inject(p[0], ackPkt(0))
					}
					if j < n2 {
						a.inject(p[1], ackPkt(0))
					}
				}
				vs.Settle()
				if i == 1 {
					vs.Serialize(true)
				}
			}
			_ = l
			a.mustLive("%s", when)
			h.Must(e1.cur[0].ended && e2.cur[0].ended, "%s: ended after %d and %d packets: %v %v; goroutines:\n%s", when, e1.seen, e2.seen, e1.cur[0].ended, e2.cur[0].ended, strings.Join(a.p.Goroutines(), "\n"))
			end(a, base, when)
			vs.Observe("%d %d %d", what, e1.seen, e2.seen)
		}})

	out = append(out, explore.Scenario{Name: "similar endpoints", Cfg: vs.Config{Serial: true, MaxSteps: 300000}, B: explore.Bounds{Total: -1},
		Doc: "two endpoints whose addresses and ports differ in just one of their 48 bits fetch different chunks in turns",
		Body: func() {
			l, a, base := begin()
			_ = l
			bit := vs.Choose(vs.Free, 48, "bit")
			p := [2]vnet.Addr4{phantom(0, 5000), phantom(0, 5000)}
			if bit < 32 {
				p[1].IP[bit/8] ^= 1 << (bit % 8)
			} else {
				p[1].Port ^= 1 << (bit - 32)
			}
			e1, e2 := a.ear(p[0]), a.ear(p[1])
			e1.cur, e2.cur = []*stream{str(f, 0, p[0])}, []*stream{str(g, 1, p[1])}
			when := fmt.Sprintf("uploads to %v and %v", p[0], p[1])
			a.inject(p[0], openReq(f.k, 0, 1))
			vs.Settle()
			a.inject(p[1], openReq(g.k, 1, 1))
			vs.Settle()
			for i := 0; i < 12; i++ {
				n1, n2 := e1.hear(), e2.hear()
				for j := 0; j < n1; j++ {
					a.inject(p[0], ackPkt(0))
				}
				vs.Settle()
				for j := 0; j < n2; j++ {
					a.inject(p[1], ackPkt(0))
				}
				vs.Settle()
			}
			h.Must(e1.cur[0].ended && e2.cur[0].ended, "%s: ended after %d and %d packets: %v %v; goroutines:\n%s", when, e1.seen, e2.seen, e1.cur[0].ended, e2.cur[0].ended, strings.Join(a.p.Goroutines(), "\n"))
			end(a, base, when)
			vs.Observe("%d", bit)
		}})

	// one endpoint asks for something else at some stage of an upload
	out = append(out, explore.Scenario{Name: "successive", Cfg: cfg, B: b, Weight: 2,
		Doc: fmt.Sprintf("an endpoint asks for another or the same chunk when the first upload has been answered, is halfway, has ended or timed out, while acknowledgements are still arriving; every schedule with up to %d preemptions", pre),
		Body: func() {
			_, a, base := begin()
			ph := phantom(0, 5000)
			stage := vs.Choose(vs.Free, 4, "stage of the first upload")
			what := vs.Choose(vs.Free, 3, "second chunk")
			win := []int{1, 3}[vs.Choose(vs.Free, 2, "window")]
			f2, c2 := f, []int{1, 0, 0}[what]
			if what == 2 {
				f2 = g
			}
			e := a.ear(ph)
			e.cur = []*stream{str(f, 0, ph)}
			a.inject(ph, openReq(f.k, 0, win))
			vs.Settle()
			e.hear()
			when := fmt.Sprintf("second request at stage %d, window %d", stage, win)
			switch stage {
			case 1:
				a.inject(ph, ackPkt(0))
				vs.Settle()
				e.hear()
			case 2:
				e.finish(when)
			case 3:
				vs.Sleep(15 * time.Second)
				vs.Settle()
				e.hear()
			}
			vs.Serialize(false)
			if stage < 2 {
				a.inject(ph, ackPkt(0))
			}
			e.cur = append(e.cur, str(f2, c2, ph))
			a.inject(ph, openReq(f2.k, c2, win))
			a.inject(ph, ackPkt(0))
			vs.Settle()
			vs.Serialize(true)
			e.hear()
			if stage >= 2 || stage < 2 {
				h.Must(e.i == 1, "%s: the second request is not answered; goroutines:\n%s", when, strings.Join(a.p.Goroutines(), "\n"))
			}
			e.finish(when)
			// nothing more, in particular nothing of the first
			for i := 0; i < 3; i++ {
				a.inject(ph, ackPkt(0))
			}
			vs.Settle()
			e.hear()
			end(a, base, when)
			vs.Observe("%d %d %d %d", stage, what, win, e.seen)
		}})

	// two requests of one endpoint at once: either may win, but they do not mix
	out = append(out, explore.Scenario{Name: "same endpoint at once", Cfg: cfg, B: b,
		Doc: fmt.Sprintf("an endpoint sends two requests and an acknowledgement without waiting; either upload may win, every schedule with up to %d preemptions", pre),
		Body: func() {
			_, a, base := begin()
			ph := phantom(0, 5000)
			what := vs.Choose(vs.Free, 2, "chunks")
			win := []int{1, 3}[vs.Choose(vs.Free, 2, "window")]
			s1, s2 := str(f, 0, ph), str(f, what, ph) // what = 0: a duplicated request
			if what == 1 {
				s2 = str(g, 1, ph)
			}
			e := a.ear(ph)
			vs.Serialize(false)
			a.inject(ph, openReq(f.k, 0, win))
			if what == 1 {
				a.inject(ph, openReq(g.k, 1, win))
			} else {
				a.inject(ph, openReq(f.k, 0, win))
			}
			a.inject(ph, ackPkt(0))
			vs.Settle()
			vs.Serialize(true)
			// which came first on the wire
			e.cur = []*stream{s1, s2}
			for _, r := range to(a.l.w, e.at, ph) {
				if u32(r.Data[1:]) == 0 && string(r.Data[5:25]) == string(s2.k[:]) {
					e.cur = []*stream{s2, s1}
				}
				break
			}
			e.hear()
			when := fmt.Sprintf("two requests at once, window %d", win)
			h.Must(e.i >= 0, "%s: neither is answered; goroutines:\n%s", when, strings.Join(a.p.Goroutines(), "\n"))
			e.finish(when)
			for i := 0; i < 3; i++ {
				a.inject(ph, ackPkt(0))
			}
			vs.Settle()
			e.hear()
			end(a, base, when)
			vs.Observe("%d %d %d", what, e.i, e.seen)
		}})

	// the timeout of an upload races with an acknowledgement and with the next request
	out = append(out, explore.Scenario{Name: "at the timeout", Cfg: cfg, B: explore.Bounds{Sched: pre, Switch: 2, Timing: 1, Total: pre + 1},
		Doc: fmt.Sprintf("acknowledgements and a new request arrive just when an upload times out (10 s), every schedule with up to %d preemptions", pre),
		Body: func() {
			_, a, base := begin()
			ph := phantom(0, 5000)
			e := a.ear(ph)
			e.cur = []*stream{str(f, 0, ph)}
			t0 := vs.Now()
			a.inject(ph, openReq(f.k, 0, 2))
			vs.Settle()
			e.hear()
			h.Must(e.i == 0, "the first request is not answered")
			also := vs.Choose(vs.Free, 3, "arrives at the timeout")
			vs.Serialize(false)
			vs.Sleep(10*time.Second - time.Duration(vs.Now()-t0))
			if also != 1 {
				a.inject(ph, ackPkt(0))
			}
			if also != 0 {
				e.cur = append(e.cur, str(g, 1, ph))
				a.inject(ph, openReq(g.k, 1, 2))
			}
			vs.Settle()
			vs.Serialize(true)
			e.hear()
			when := "acknowledgement at the timeout"
			if also != 0 {
				when = "new request at the timeout of the last upload"
				h.Must(e.i == 1, "%s: it is not answered; goroutines:\n%s", when, strings.Join(a.p.Goroutines(), "\n"))
				e.finish(when)
			}
			end(a, base, when)
			vs.Observe("%d %d", also, e.seen)
		}})
	return
}
