package main

import (
	"bytes"
	"fmt"
	"path"
	"strings"
	"time"

	"verif/mc/explore"
	"verif/mc/h"
	vnet "verif/mc/shim/net"
	"verif/mc/vs"
)

func init() {
	explore.Register(&explore.Property{ID: "C24", Scenarios: c24})
}

// busy is a daemon with several things going on at once.
type busy struct {
	l       *lan
	a       *node
	f, part file // whole and partial downloads
	gone    file // indexed, but its file has been deleted
	nf      file // a file only the peer has
	x, y    string
	peer    *peer
	base    []string
	cleaned bool // a clean was among the actions
	sharedX []string
	sharedY bool
	getting bool
	what    []string
	after   []func(when string)
	cmds    []*cmd
	n       int
}

func newBusy() *busy {
	vs.Serialize(true)
	l := newLan(1)
	u := &busy{l: l, a: l.nodes[0]}
	u.f, u.part, u.gone, u.nf = mkfile("f.bin", 41, 2500, 1250), mkfile("part.bin", 42, 90, 20), mkfile("gone.bin", 43, 40, 20), mkfile("n.bin", 44, 35, 20)
	u.a.give(u.f, nil)
	u.a.give(u.part, func(i int) bool { return i == 1 || i == 2 })
	u.a.give(u.gone, nil)
	u.a.fs.Del(dlDir + "/gone.bin")
	u.x, u.y = home+"/docs/x.txt", home+"/docs/y.txt"
	u.a.fs.Put(u.x, []byte("content of x"))
	u.a.fs.Put(home+"/docs/x2.txt", []byte("content of x"))
	u.a.fs.Put(u.y, []byte("the content of y"))
	u.a.boot()
	u.base = u.a.p.Goroutines()
	u.peer = &peer{l: l, a: u.a, ip: [4]byte{10, 37, 91, 200}, f: u.nf, sends: true, at: l.mark()}
	return u
}

func (u *busy) later(f func(when string)) { u.after = append(u.after, f) }

func (u *busy) cmd(args ...string) *cmd {
	c := u.a.start(args...)
	u.cmds = append(u.cmds, c)
	return c
}

// stable are the entries that no action changes.
func (u *busy) stable() []item {
	return []item{shown(dlDir+"/f.bin", 2500, 2, 2, 1250, u.f.k), shown(dlDir+"/part.bin", 90, 5, 2, 20, u.part.k)}
}

// plausible checks a listing taken at some time during the actions.
func (u *busy) plausible(when string, l []item, remote bool) {
	seen := map[string]int{}
	for _, x := range l {
		seen[x.sha]++
		h.Must(seen[x.sha] == 1, "%s: a listing shows %s twice", when, x.title)
		ok := x.sha == hexs(u.gone.k) || x.sha == hexs(u.nf.k) && u.getting || x.sha == hexs(sum([]byte("content of x"))) && u.sharedX != nil || x.sha == hexs(sum([]byte("the content of y"))) && u.sharedY
		for _, s := range u.stable() {
			if remote {
				s.path = s.title
			}
			ok = ok || s == x
		}
		h.Must(ok, "%s: a listing shows %v", when, x)
	}
	for _, s := range u.stable() {
		h.Must(seen[s.sha] == 1, "%s: a listing does not show %s: %v", when, s.title, l)
	}
	h.Must(u.cleaned || seen[hexs(u.gone.k)] == 1, "%s: a listing does not show %s: %v", when, u.gone.name, l)
}

// one checks that exactly one datagram went to the given endpoint.
func (u *busy) one(when string, at int, ph vnet.Addr4) []byte {
	got := to(u.l.w, at, ph)
	h.Must(len(got) == 1, "%s: %v is sent %d datagrams; goroutines:\n%s", when, ph, len(got), strings.Join(u.a.p.Goroutines(), "\n"))
	return got[0].Data
}

type action struct {
	what string
	do   func(u *busy)
}

func (u *busy) share(p string) {
	c := u.cmd("share", p)
	u.later(func(when string) {
		o, code := c.wait()
		got, ok := items(o)
		if strings.HasSuffix(p, "y.txt") {
			h.Must(ok && code == 0 && len(got) == 1 && got[0].path == p, "%s: share prints %q", when, o)
			return
		}
		if ok && len(got) == 1 {
			h.Must(got[0].path == p && got[0].sha == hexs(sum([]byte("content of x"))), "%s: share %s prints %v", when, p, got)
			u.sharedX = append(u.sharedX, p)
		} else {
			h.Must(strings.TrimSpace(o) != "", "%s: share fails without a word", when)
			u.sharedX = append(u.sharedX, "")
		}
	})
}

func (u *busy) discover(f file, want func(got []int) bool) {
	u.n++
	at, ph, id := u.l.mark(), phantom(10+u.n, port), 300*u.n+u.n
	u.a.inject(phantom(10+u.n, 5000), discoverReq(id, f.k))
	u.later(func(when string) {
		b := u.one(when, at, ph)
		d, ok := parseDiscoverResp(b)
		h.Must(ok && d.id == id && d.ip == u.a.ip() && d.port == port && want(d.chunks), "%s: a discovery request %d for %s is answered with % x", when, id, f.name, b)
	})
}

func (u *busy) listing(k hash, want func(es []entry) bool, may bool) {
	u.n++
	at, ph, id := u.l.mark(), phantom(10+u.n, 5000+u.n), 500*u.n+u.n
	u.a.inject(ph, listReq(id, k))
	u.later(func(when string) {
		if may && len(to(u.l.w, at, ph)) == 0 {
			return
		}
		b := u.one(when, at, ph)
		gid, es, ok := parseListResp(b)
		h.Must(ok && gid == id && want(es), "%s: a listing request %d is answered with %v (% x)", when, id, es, b)
	})
}

func (u *busy) upload(f file, c int) {
	u.n++
	ph := phantom(10+u.n, 6000+u.n)
	e := u.a.ear(ph)
	e.cur = []*stream{newStream(fmt.Sprintf("chunk %d of %s", c, f.name), f.chunk(c))}
	u.a.inject(ph, openReq(f.k, c, 2))
	u.later(func(when string) {
		e.hear()
		h.Must(e.i == 0, "%s: an upload request is not answered; goroutines:\n%s", when, strings.Join(u.a.p.Goroutines(), "\n"))
		e.finish(when)
	})
}

var actions = []action{
	{"share x", func(u *busy) { u.share(u.x) }},
	{"share x's twin", func(u *busy) { u.share(home + "/docs/x2.txt") }},
	{"share y", func(u *busy) { u.sharedY = true; u.share(u.y) }},
	{"clean", func(u *busy) {
		u.cleaned = true
		c := u.cmd("clean")
		u.later(func(when string) {
			o, code := c.wait()
			// of two cleans at once, one may find the file unindexed by the other
			twice := strings.Count(strings.Join(u.what, ","), "clean") > 1
			h.Must(code == 0 && (twice || strings.Contains(o, dlDir+"/gone.bin\n  - File is missing. Removed")), "%s: clean prints %q", when, o)
			h.Must(twice || strings.Contains(o, dlDir+"/f.bin\n  - Download complete") && strings.Contains(o, dlDir+"/part.bin\n  - Download in progress"), "%s: clean prints %q", when, o)
		})
	}},
	{"list", func(u *busy) {
		c := u.cmd("list")
		u.later(func(when string) {
			o, code := c.wait()
			got, ok := items(o)
			h.Must(ok && code == 0, "%s: list prints %q", when, o)
			u.plausible(when, got, false)
		})
	}},
	{"list itself over the network", func(u *busy) {
		c := u.cmd("list", "10.37.91.1")
		u.later(func(when string) {
			o, code := c.wait()
			got, ok := items(o)
			h.Must(ok && code == 0, "%s: list 10.37.91.1 prints %q", when, o)
			u.plausible(when, got, true)
		})
	}},
	{"chims", func(u *busy) {
		c := u.cmd("chims")
		u.later(func(when string) {
			o, code := c.wait()
			h.Must(code == 0 && strings.Count(o, "IP: ") == 2 && strings.Contains(o, "IP: 10.37.91.1:61696\n") && strings.Contains(o, "IP: 10.37.91.200:61696\n"), "%s: chims prints %q", when, o)
		})
	}},
	{"chims for a file", func(u *busy) {
		c := u.cmd("chims", hexs(u.part.k))
		u.later(func(when string) {
			o, code := c.wait()
			h.Must(code == 0 && strings.Count(o, "IP: ") == 2 && strings.Contains(o, "IP: 10.37.91.1:61696\n  1:2\n") && strings.Contains(o, "IP: 10.37.91.200:61696\n"), "%s: chims prints %q", when, o)
		})
	}},
	{"get", func(u *busy) {
		u.getting = true
		c := u.cmd("get", hexs(u.nf.k))
		u.later(func(when string) {
			o, code := c.wait()
			twice := strings.Count(strings.Join(u.what, ","), "get") > 1 // the file may have been indexed by the other one meanwhile
			h.Must(code == 0 && (twice && strings.TrimSpace(o) != "" || strings.Contains(o, "initiated")), "%s: get prints %q", when, o)
		})
	}},
	{"a discovery request", func(u *busy) {
		u.discover(u.f, func(c []int) bool { return sameInts(c, []int{0, 1}) })
	}},
	{"a discovery request for a partial file", func(u *busy) {
		u.discover(u.part, func(c []int) bool { return sameInts(c, []int{1, 2}) })
	}},
	{"a discovery request for the file that has gone", func(u *busy) {
		u.discover(u.gone, func(c []int) bool { return sameInts(c, []int{0, 1}) || u.cleaned && len(c) == 0 })
	}},
	{"a listing request", func(u *busy) {
		u.listing(blank, func(es []entry) bool {
			n := 0
			for _, e := range es {
				if e == u.f.entry(2) || e == u.part.entry(2) || !u.cleaned && e == u.gone.entry(2) {
					n++
				}
			}
			if u.cleaned {
				return n == 2
			}
			return n == 3
		}, false)
	}},
	{"a listing request for the partial file", func(u *busy) {
		u.listing(u.part.k, func(es []entry) bool { return len(es) == 1 && es[0] == u.part.entry(2) }, false)
	}},
	{"a listing request for the file that has gone", func(u *busy) {
		u.listing(u.gone.k, func(es []entry) bool { return len(es) == 1 && es[0] == u.gone.entry(2) }, u.cleaned)
	}},
	{"an upload request", func(u *busy) { u.upload(u.f, 1) }},
	{"an upload request for the file that has gone", func(u *busy) {
		u.n++
		u.a.inject(phantom(10+u.n, 6100), openReq(u.gone.k, 0, 2))
	}},
	{"an acknowledgement to nobody", func(u *busy) { u.a.inject(phantom(90, 5000), ackPkt(0)) }},
	{"noise", func(u *busy) { u.a.inject(phantom(91, 5000), bytes.Repeat([]byte{0, 255}, 512)) }},
	{"a discovery reply to nobody", func(u *busy) { u.a.inject(phantom(92, port), discoverResp(9999, [4]byte{10, 37, 91, 99}, port, 0, 1)) }},
}

// finish waits for everything and compares the daemon, its disk and the actions.
func (u *busy) finish() string {
	when := strings.Join(u.what, " and ")
	u.a.mustLive("%s", when)
	for i := 0; i < 400; i++ {
		play(200*time.Millisecond, u.peer)
		busy := false
		for _, c := range u.cmds {
			alive, _, _ := c.p.State()
			busy = busy || alive
		}
		if !busy {
			break
		}
		h.Must(vs.Now() < int64(30*time.Second)*2, "%s: a command does not end", when)
	}
	u.a.mustLive("%s", when)
	for _, f := range u.after {
		f(when)
	}
	if u.getting {
		play(14*time.Second, u.peer)
	}
	vs.Sleep(12 * time.Second)
	vs.Settle()
	u.a.mustIdle(when, u.base)
	// the final state
	want := u.stable()
	if !u.cleaned {
		want = append(want, shown(dlDir+"/gone.bin", 40, 2, 2, 20, u.gone.k))
	}
	if u.sharedY {
		want = append(want, shown(u.y, 16, 1, 1, 4194304, sum([]byte("the content of y"))))
	}
	if u.sharedX != nil {
		p, n := "", 0
		for _, x := range u.sharedX {
			if x != "" {
				p = x
				n++
			}
		}
		h.Must(n == 1, "%s: %d of %d commands that share the same content say they did", when, n, len(u.sharedX))
		want = append(want, shown(p, 12, 1, 1, 4194304, sum([]byte("content of x"))))
	}
	if u.getting {
		want = append(want, shown(dlDir+"/n.bin", 35, 2, 2, 20, u.nf.k))
	}
	u.a.mustShow(when, want, "list")
	s := u.a.onDisk(func(k hash, i int, data []byte, err error) {
		if k == u.nf.k {
			h.Must(err == nil && bytes.Equal(data, u.nf.chunk(i)), "%s: chunk %d of the download is wrong (%v)", when, i, err)
		}
	})
	var disk []item
	for k, e := range s.entries {
		disk = append(disk, shown(e.path, e.size, len(e.have), e.count(), e.cs, k))
	}
	h.Must(sameItems(disk, want), "%s: on disk is %v, not %v", when, disk, want)
	u.a.mustUpload(when, u.f, 0, phantom(60, 6000))
	r := u.a.query(u.part.k)
	h.Must(sameInts(r.chunks, []int{1, 2}), "%s: afterwards chunks %v are offered", when, r.chunks)
	for _, e := range u.a.mustList(when) {
		ok := false
		for _, x := range want {
			ok = ok || x.sha == hexs(e.k) && x.title == path.Base(e.name) && x.have == e.have
		}
		h.Must(ok, "%s: afterwards %v is listed", when, e)
	}
	return when
}

func c24(tier string) (out []explore.Scenario) {
	cfg := vs.Config{NetPoints: true, MaxSteps: 3000000}
	pre, two := 1, 2
	if tier == "thorough" {
		pre = 2
	}
	multi := func(k int, acts []action) func() {
		return func() {
			u := newBusy()
			prev := 0
			var do []action
			for i := 0; i < k; i++ {
				j := prev + vs.Choose(vs.Free, len(acts)-prev, "action")
				prev = j
				do = append(do, acts[j])
				u.what = append(u.what, acts[j].what)
				if strings.HasPrefix(acts[j].what, "share x") && u.sharedX == nil {
					u.sharedX = []string{}
				}
				if acts[j].what == "clean" {
					u.cleaned = true
				}
				if acts[j].what == "get" {
					u.getting = true
				}
				if acts[j].what == "share y" {
					u.sharedY = true
				}
			}
			if strings.Count(strings.Join(u.what, ","), "share y") > 1 {
				return // refused once; the same as x and its twin
			}
			vs.Serialize(false)
			for _, a := range do {
				a.do(u)
			}
			vs.Settle()
			vs.Serialize(true)
			when := u.finish()
			vs.Observe("%s %v %d", when, u.sharedX, u.l.mark())
		}
	}
	out = append(out, explore.Scenario{Name: "pairs", Cfg: cfg, B: explore.Bounds{Sched: two, Switch: two, Total: two}, Body: multi(2, actions), Weight: 3,
		Doc: fmt.Sprintf("every pair of %d commands and datagrams at once, every schedule with up to %d deviations", len(actions), two)})
	few := []action{}
	for _, a := range actions {
		switch a.what {
		case "share x", "share x's twin", "clean", "list", "get", "a discovery request", "a listing request", "a listing request for the file that has gone", "an upload request":
			few = append(few, a)
		}
	}
	// the disk is where the commands meet
	onDisk := []action{}
	for _, a := range actions {
		switch a.what {
		case "share x", "share x's twin", "share y", "clean", "list", "get", "an upload request", "a listing request":
			onDisk = append(onDisk, a)
		}
	}
	dcfg := cfg
	dcfg.FSPoints = true
	out = append(out, explore.Scenario{Name: "disk", Cfg: dcfg, B: explore.Bounds{Sched: two, Total: two}, Body: multi(2, onDisk), Weight: 2,
		Doc: fmt.Sprintf("every pair of %d commands and datagrams that use the disk at once, with every file-system call a scheduling point, every schedule with up to %d preemptions", len(onDisk), two)})
	p3, t3, d3 := 0, 1, "one deviation, only in the order of ready goroutines"
	if tier == "thorough" {
		p3, t3, d3 = 1, 2, "up to two deviations, of which one preemption"
	}
	out = append(out, explore.Scenario{Name: "triples", Cfg: cfg, B: explore.Bounds{Sched: p3, Switch: t3, Total: t3}, Body: multi(3, few), Weight: 2,
		Doc: fmt.Sprintf("every three of %d commands and datagrams at once, every schedule with %s", len(few), d3)})
	// something happens just when a chunk of a download is complete
	out = append(out, explore.Scenario{Name: "chunk complete", Cfg: cfg, B: explore.Bounds{Sched: pre, Switch: pre, Total: pre},
		Doc: fmt.Sprintf("each of the commands and datagrams just when the end of a downloaded chunk arrives, every schedule with up to %d deviations", pre),
		Body: func() {
			u := newBusy()
			u.getting = true
			u.cmd("get", hexs(u.nf.k))
			var acts []action
			for _, a := range actions {
				acts = append(acts, a)
			}
			a := acts[vs.Choose(vs.Free, len(acts), "action")]
			chunk := vs.Choose(vs.Free, 2, "chunk")
			u.what = []string{"get", fmt.Sprintf("%s at the end of chunk %d", a.what, chunk)}
			if strings.HasPrefix(a.what, "share x") {
				u.sharedX = []string{}
			}
			u.cleaned, u.sharedY = a.what == "clean", a.what == "share y"
			opened := false
			for i := 0; i < 100 && !opened; i++ {
				if _, opened = u.peer.step(); opened {
					if u.peer.chunk == chunk {
						break
					}
					u.peer.send()
					opened = false
				}
				vs.Sleep(200 * time.Millisecond)
			}
			h.Must(opened, "the download does not start")
			data := u.nf.chunk(chunk)
			u.l.w.Inject(u.a.host, u.peer.opened.Port, u.peer.addr(), headerPkt(sum(data), len(data), data))
			vs.Settle()
			vs.Serialize(false)
			u.l.w.Inject(u.a.host, u.peer.opened.Port, u.peer.addr(), dataPkt(len(data), nil))
			a.do(u)
			vs.Settle()
			vs.Serialize(true)
			when := u.finish()
			vs.Observe("%s %d", when, u.l.mark())
		}})
	// two downloads at once
	out = append(out, explore.Scenario{Name: "two downloads", Cfg: cfg, B: explore.Bounds{Sched: pre, Switch: pre, Total: pre},
		Doc: fmt.Sprintf("two downloads with the same chunk size from two peers whose packets arrive at the same time, every schedule with up to %d deviations", pre),
		Body: func() {
			u := newBusy()
			f2 := mkfile("m.bin", 45, 37, 20)
			p2 := &peer{l: u.l, a: u.a, ip: [4]byte{10, 37, 91, 201}, f: f2, at: u.l.mark()}
			ps := []*peer{u.peer, p2}
			u.peer.sends = false
			stage := vs.Choose(vs.Free, 3, "what arrives at the same time")
			when := "two downloads at once"
			c1, c2 := u.cmd("get", hexs(u.nf.k)), u.cmd("get", hexs(f2.k))
			for round := 0; round < 2; round++ {
				open := [2]bool{}
				for i := 0; i < 200 && !(open[0] && open[1]); i++ {
					for j, p := range ps {
						if _, o := p.step(); o {
							open[j] = true
						}
					}
					vs.Sleep(200 * time.Millisecond)
				}
				h.Must(open[0] && open[1], "%s: only %v of them ask for chunk %d", when, open, round)
				in := func(p *peer, b []byte) { u.l.w.Inject(u.a.host, p.opened.Port, p.addr(), b) }
				for k := 0; k < 3; k++ {
					if k == stage {
						vs.Serialize(false)
					}
					for _, p := range ps {
						data := p.f.chunk(p.chunk)
						switch k {
						case 0:
							in(p, headerPkt(sum(data), len(data), data[:9]))
						case 1:
							in(p, dataPkt(9, data[9:]))
						case 2:
							in(p, dataPkt(len(data), nil))
						}
					}
					vs.Settle()
					if k == 2 || round == 1 {
						vs.Serialize(true)
					}
				}
			}
			c1.wait()
			c2.wait()
			vs.Sleep(15 * time.Second)
			vs.Settle()
			u.a.mustLive("%s", when)
			s := u.a.onDisk(func(k hash, i int, data []byte, err error) {
				for _, p := range ps {
					if k == p.f.k {
						h.Must(err == nil && bytes.Equal(data, p.f.chunk(i)), "%s: chunk %d of %s is wrong (%v)", when, i, p.f.name, err)
					}
				}
			})
			for _, p := range ps {
				e, ok := s.entries[p.f.k]
				h.Must(ok && e.full(), "%s: %s is not complete: %v", when, p.f.name, s)
			}
			u.a.mustIdle(when, u.base)
			u.a.mustList(when)
			vs.Observe("%d %d", stage, u.l.mark())
		}})
	return
}
