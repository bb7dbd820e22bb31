package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"verif/mc/explore"
	"verif/mc/h"
	vnet "verif/mc/shim/net"
	vos "verif/mc/shim/os"
	"verif/mc/vs"
)

func init() {
	explore.Register(&explore.Property{ID: "C13", Scenarios: c13})
	explore.Register(&explore.Property{ID: "C14", Scenarios: c14})
	explore.Register(&explore.Property{ID: "C19", Scenarios: c19})
}

// transfer is a download by the first host from the others.
type transfer struct {
	hosts   int
	f       file
	faults  vnet.Faults
	crash   string                // which host may die: "", "A", "B"
	have    func(i int) bool      // what A has already
	peers   []func(i int) bool    // what the other hosts have; nil: everything
	live    bool                  // the schedule is explored once the download is requested
	gets    int                   // how many times it is requested (default 1)
	horizon int                   // virtual seconds
	early   func(l *lan)          // called before the daemons start
	before  func(l *lan)          // called before the download is requested
	during  func(l *lan, sec int) // called every second

	// oracles
	content, finish, clean bool
}

func (t *transfer) run() {
	vs.Serialize(true)
	if t.hosts == 0 {
		t.hosts = 2
	}
	l := newLan(t.hosts)
	a := l.nodes[0]
	f := t.f
	known := map[int]bool{}
	if t.have != nil {
		a.give(f, t.have)
		for i := 0; i < f.n(); i++ {
			if t.have(i) {
				known[i] = true
			}
		}
	}
	for i, n := range l.nodes[1:] {
		var have func(int) bool
		if i < len(t.peers) {
			have = t.peers[i]
		}
		n.give(f, have)
	}
	var base [][]string
	if t.early != nil {
		t.early(l)
	}
	for _, n := range l.nodes {
		n.boot()
	}
	for _, n := range l.nodes {
		base = append(base, n.p.Goroutines())
	}
	flt := t.faults
	if t.crash != "" {
		flt.Crash = func(p *vs.Proc) bool { return strings.HasPrefix(p.Name, t.crash) && len(p.Name) == len(t.crash)+1 }
		for _, n := range l.nodes {
			if n.name == t.crash {
				n.fs.Faults = vos.FaultMode{Crash: true}
			}
		}
	}
	l.w.SetFaults(flt)
	if t.before != nil {
		t.before(l)
	}
	if t.live {
		vs.Serialize(false)
	}
	gets := t.gets
	if gets == 0 {
		gets = 1
	}
	var cmds []*cmd
	for i := 0; i < gets; i++ {
		cmds = append(cmds, a.start("get", hexs(f.k)))
	}
	var s state
	done := false
	crashes := 0
	asked := l.mark()
	sec := 0
	for ; sec < t.horizon && !done; sec++ {
		vs.Sleep(time.Second)
		vs.Settle()
		if sec == 12 && t.live {
			vs.Serialize(true)
		}
		if t.during != nil {
			t.during(l, sec)
		}
		if t.finish && t.peers != nil {
			for _, r := range l.w.Since(asked) {
				asked++
				for i, n := range l.nodes[1:] {
					if r.Fate != "injected" && r.Data[0] == 4 && r.Dst == n.addr() {
						h.Must(t.peers[i](u16(r.Data[21:])), "the download asks %s for chunk %d, which it does not hold", n.name, u16(r.Data[21:]))
					}
				}
			}
		}
		again := false
		for _, n := range l.nodes {
			if ok, why := n.alive(); !ok {
				h.Must(strings.HasPrefix(why, "crash injected"), "during a download the daemon on %s went down: %s", n.name, why)
				crashes++
				n.fs.Faults = vos.FaultMode{}
				n.boot()
				if n == a {
					again = true
				}
			}
		}
		for i := 0; i < len(cmds); i++ {
			if alive, code, why := cmds[i].p.State(); !alive {
				h.Must(!strings.HasPrefix(why, "panic"), "get crashed: %s", why)
				if code != 0 || !strings.Contains(cmds[i].p.Output(), "initiated") {
					again = true
				}
				cmds = append(cmds[:i], cmds[i+1:]...)
				i--
			}
		}
		if again {
			cmds = append(cmds, a.start("get", hexs(f.k)))
		}
		s = a.onDisk(func(k hash, i int, data []byte, err error) {
			if t.content {
				h.Must(err == nil && bytes.Equal(data, f.chunk(i)), "after %d s chunk %d of the download is present but differs from the peer's (%v)", sec+1, i, err)
			}
		})
		got, ok := s.entries[f.k]
		if ok {
			for i := range known {
				h.Must(got.have[i], "after %d s chunk %d, which was present, is not any more", sec+1, i)
			}
			for i, b := range got.have {
				if b {
					known[i] = true
				}
			}
			done = got.full()
		} else {
			h.Must(len(known) == 0, "after %d s the download is no longer indexed", sec+1)
		}
	}
	l.w.SetFaults(vnet.Faults{})
	l.w.SetSpeed(0, 0)
	for _, n := range l.nodes {
		l.w.SetOffline(n.host, false)
	}
	if t.finish {
		h.Must(done, "the download is not complete after %d s: %v; the daemon printed:\n%s\ngoroutines:\n%s", t.horizon, s, tail(a.p.Output()), strings.Join(a.p.Goroutines(), "\n"))
	}
	if done && t.content {
		got := s.entries[f.k]
		data, ok := a.fs.Get(got.path)
		h.Must(ok && bytes.Equal(data, f.data), "the download is complete but %s differs from the original", got.path)
	}
	if done && t.finish {
		// and the running daemon says so, too
		es, ok := a.listing(f.k)
		h.Must(ok && sameEntries(es, []entry{f.entryAs(es, f.n())}), "the download is complete on disk but the daemon lists %v", es)
		r := a.query(f.k)
		h.Must(sameInts(r.chunks, []int{0, f.n() - 1}), "the download is complete but the daemon offers %v", r.chunks)
	}
	if t.clean {
		vs.Sleep(30 * time.Second)
		vs.Settle()
		for i, n := range l.nodes {
			if n.boots > 1 {
				continue
			}
			n.mustLive("after a download")
			if !done && n == a {
				continue
			}
			n.mustIdle("30 s after the download", base[i])
		}
	}
	if t.finish || t.clean {
		for _, n := range l.nodes {
			n.mustList("after a download")
		}
	}
	vs.Observe("%v after %d s, %d crashes", done, sec, crashes)
}

// entryAs is f's entry under the name in es.
func (f file) entryAs(es []entry, have int) entry {
	e := f.entry(have)
	if len(es) == 1 {
		e.name = es[0].name
	}
	return e
}

// mustIdle fails unless the daemon holds nothing beyond what it held at the start.
func (n *node) mustIdle(when string, base []string) {
	if left := n.bg(base); len(left) > 0 {
		h.Must(false, "%s %s still has goroutines:\n%s", when, n.name, strings.Join(left, "\n"))
	}
	for _, s := range n.l.w.Sockets(n.p) {
		h.Must(s == fmt.Sprintf(":%d", port), "%s %s still has the socket %s", when, n.name, s)
	}
	if open := n.fs.OpenFiles(n.p); len(open) > 0 {
		h.Must(false, "%s %s still has open files %v", when, n.name, open)
	}
}

func tail(s string) string {
	if len(s) > 1500 {
		return "..." + s[len(s)-1500:]
	}
	return s
}

var allFaults = vnet.Faults{Drop: true, Dup: true, Late: true, VeryLate: true, Corrupt: true,
	CorruptAt: func(b []byte) (out []int) {
		// listings and upload requests carry no checksum of what matters most in them; UDP's must do
		at := map[byte][]int{0: {0, 1, 12, 24}, 1: {0, 2, 6, 8, 11}, 5: {0, 4, 2, 8, 27, len(b) / 2, len(b) - 1}, 6: {0, 4}}
		for _, p := range at[b[0]] {
			if p < len(b) {
				out = append(out, p)
			}
		}
		return
	}}

func c13(tier string) (out []explore.Scenario) {
	return transfers(tier, func(t *transfer) { t.content = true })
}
func c14(tier string) (out []explore.Scenario) {
	out = transfers(tier, func(t *transfer) { t.finish = true })
	cfg := vs.Config{Serial: true, MaxSteps: 5000000}
	return append(out, explore.Scenario{Name: "again", Cfg: cfg, B: explore.Bounds{Total: -1}, Body: again,
		Doc: "a download that has completed, failed (no peer, or none with the file), or been interrupted is requested again, up to twice, with or without a restart, after its file is left alone or deleted and cleaned away"})
}

// again requests a download repeatedly.
func again() {
	l := newLan(2)
	a, b := l.nodes[0], l.nodes[1]
	f := mkfile("f.bin", 4, 1000, 400)
	had := vs.Choose(vs.Free, 2, "another file is there") == 1
	if had {
		a.give(mkfile("other.bin", 5, 40, 20), nil)
	}
	b.give(f, nil)
	a.boot()
	b.boot()
	what := ""
	for i := 0; i < 3; i++ {
		full := false // whether the file is there in the end
		offline := false
		how := vs.Choose(vs.Free, 4, "what happens")
		if i == 2 {
			how = 0
		}
		what += []string{"; complete", "; no peer", "; peer without the file", "; interrupted"}[how]
		switch how {
		case 1:
			l.w.SetOffline(b.host, true)
			offline = true
		case 2:
			b.p.Kill("no catalogue")
			b.fs.Move(catDir, home+"/away")
			b.boot()
		}
		before := a.onDisk(nil).entries[f.k]
		full = len(before.have) > 0 && before.full()
		c := a.start("get", hexs(f.k))
		if how == 3 {
			vs.Sleep([]time.Duration{2100, 3000, 6000}[vs.Choose(vs.Free, 3, "interrupted after")] * time.Millisecond)
			l.w.SetOffline(b.host, true)
			offline = true
			if alive, _, _ := c.p.State(); alive {
				vs.Sleep(3 * time.Second)
			}
			a.p.Kill("interrupted")
			vs.Settle()
			a.boot()
		} else {
			vs.Sleep(40 * time.Second)
			vs.Settle()
			o, _ := c.wait()
			h.Must(strings.TrimSpace(o) != "", "%s: get prints nothing", what)
		}
		s := a.onDisk(func(k hash, i int, data []byte, err error) {
			if k == f.k {
				h.Must(err == nil && bytes.Equal(data, f.chunk(i)), "%s: chunk %d of the download is present but wrong (%v)", what, i, err)
			}
		})
		got, ok := s.entries[f.k]
		if how == 0 || full {
			h.Must(ok && got.full(), "%s: the download is not complete: %v; it printed %q; the daemon printed:\n%s", what, s, c.p.Output(), tail(a.p.Output()))
			h.Must(!full || got.path == before.path, "%s: the file was at %s and is now at %s", what, before.path, got.path)
			data, ok := a.fs.Get(got.path)
			h.Must(ok && bytes.Equal(data, f.data), "%s: %s is not what the peer has", what, got.path)
		}
		if len(s.entries) > 0 || had {
			h.Must(!had || len(s.entries) >= 1, "%s: the other file is gone: %v", what, s)
		}
		if offline {
			l.w.SetOffline(b.host, false)
		}
		if how == 2 {
			b.p.Kill("catalogue again")
			b.fs.Del(catDir)
			b.fs.Move(home+"/away", catDir)
			b.boot()
		}
		if i == 2 {
			break
		}
		if ok && got.full() && vs.Choose(vs.Free, 2, "the file is deleted and cleaned away") == 1 {
			what += ", deleted"
			a.fs.Del(got.path)
			o, code := a.run("clean")
			_, still := a.onDisk(nil).entries[f.k]
			h.Must(code == 0 && !still, "%s: clean prints %q", what, o)
		}
		if vs.Choose(vs.Free, 2, "restart") == 1 {
			what += ", restarted"
			a.p.Kill("restart")
			a.boot()
		}
		// a download still under way may time out first
		vs.Sleep(30 * time.Second)
		vs.Settle()
	}
	a.mustList(what)
	vs.Observe("%s", what)
}
func c19(tier string) (out []explore.Scenario) {
	out = append(out, explore.Scenario{Name: "abandoned uploads", Cfg: vs.Config{Serial: true, MaxSteps: 1000000}, B: explore.Bounds{Total: -1}, Body: func() { abandoned(tier == "thorough") },
		Doc: "one or two upload requests, the second from the same or another endpoint, for good, absent and damaged chunks, each given up after some number of acknowledgements, with small and large windows, also while the network fails: nothing is left afterwards"})
	disk := explore.Bounds{Fault: 1, Total: 1}
	if tier == "thorough" {
		disk = explore.Bounds{Fault: 2, Total: 2}
	}
	out = append(out, explore.Scenario{Name: "uploads and a bad disk", Cfg: vs.Config{Serial: true, MaxSteps: 1000000}, B: disk, Body: badDisk,
		Doc: "one or two uploads, from one endpoint or two, in which any file-system call fails or reads short: nothing is left afterwards"})
	return append(out, transfers(tier, func(t *transfer) { t.clean = true })...)
}

// badDisk serves uploads from a failing disk.
func badDisk() {
	l := newLan(1)
	a := l.nodes[0]
	f := mkfile("f.bin", 4, 5000, 3500)
	a.give(f, nil)
	a.boot()
	base := a.p.Goroutines()
	a.fs.Faults = vos.FaultMode{Error: true, Short: true}
	who := 0
	n := 1 + vs.Choose(vs.Free, 2, "uploads")
	if n == 2 {
		who = vs.Choose(vs.Free, 2, "endpoints")
	}
	win := []int{1, 1024}[vs.Choose(vs.Free, 2, "window")]
	for i := 0; i < n; i++ {
		a.inject(phantom(i*who, 5000), openReq(f.k, i, win))
		vs.Settle()
		for j := 0; j < 3; j++ {
			a.inject(phantom(i*who, 5000), ackPkt(0))
			vs.Settle()
		}
	}
	a.fs.Faults = vos.FaultMode{}
	when := fmt.Sprintf("%d uploads (%d) from a failing disk: %v", n, who, a.fs.Errors())
	vs.Sleep(25 * time.Second)
	vs.Settle()
	a.mustLive("%s", when)
	a.mustIdle("25 s after "+when, base)
	a.mustList(when)
	vs.Observe("%s", when)
}

func abandoned(deep bool) {
	l := newLan(1)
	a := l.nodes[0]
	f, part := mkfile("f.bin", 4, 5000, 3500), mkfile("part.bin", 5, 60, 20)
	a.give(f, nil)
	a.give(part, func(i int) bool { return i == 1 })
	a.boot()
	base := a.p.Goroutines()
	damage := vs.Choose(vs.Free, 7, "damage")
	switch damage {
	case 1:
		a.fs.Del(dlDir + "/f.bin")
	case 2:
		a.fs.Put(dlDir+"/f.bin", f.data[:4000])
	case 3:
		a.fs.Put(dlDir+"/f.bin", nil)
	case 4:
		a.fs.Put(dlDir+"/f.bin", append(append([]byte{}, f.data...), 1, 2, 3))
	case 5:
		a.fs.Del(dlDir + "/f.bin")
		a.fs.PutDir(dlDir + "/f.bin")
	}
	when := fmt.Sprintf("damage %d", damage)
	one := func(ph vnet.Addr4, second bool) {
		wins, counts := []int{1, 1024}, []int{0, 1, 2, 6}
		if deep {
			wins, counts = []int{1, 2, 3, 1024}, []int{0, 1, 2, 3, 4, 5, 6, 7}
		}
		win := wins[vs.Choose(vs.Free, len(wins), "window")]
		kinds := 5
		if second {
			kinds = 2
		}
		req := openReq(f.k, 0, win)
		switch vs.Choose(vs.Free, kinds, "request") {
		case 1:
			req = openReq(f.k, 1, win)
		case 2:
			req = openReq(part.k, 0, win)
		case 3:
			req = openReq(sum([]byte("unknown")), 0, win)
		case 4:
			req = openReq(f.k, 2, win)
		}
		a.inject(ph, req)
		vs.Settle()
		acks := counts[vs.Choose(vs.Free, len(counts), "acknowledgements")]
		for i := 0; i < acks; i++ {
			if damage == 6 && i == 1 {
				l.w.SetOffline(a.host, true)
			}
			a.inject(ph, ackPkt(0))
			vs.Settle()
		}
		if damage == 6 && vs.Choose(vs.Free, 2, "the network is back") == 1 {
			l.w.SetOffline(a.host, false)
		}
		when += fmt.Sprintf(", request % x from %v given up after %d acknowledgements", req[20:25], ph, acks)
	}
	one(phantom(0, 5000), false)
	if n := vs.Choose(vs.Free, 3, "another"); n > 0 {
		if vs.Choose(vs.Free, 2, "later") == 1 {
			vs.Sleep(7 * time.Second)
		}
		one(phantom(n-1, 5000), true)
	}
	vs.Sleep(25 * time.Second)
	vs.Settle()
	l.w.SetOffline(a.host, false)
	a.mustLive("%s", when)
	a.mustIdle("25 s after "+when, base)
	a.mustList(when)
	vs.Observe("%s", when)
}

func transfers(tier string, oracle func(t *transfer)) (out []explore.Scenario) {
	serial := vs.Config{Serial: true, MaxSteps: 1000000}
	serial2 := vs.Config{Serial: true, MaxSteps: 100000000}
	k := 2
	if tier == "thorough" {
		k = 3
	}
	add := func(name, doc string, cfg vs.Config, b explore.Bounds, mk func() *transfer) {
		w := 1.0
		if name == "datagrams" || name == "two peers" || name == "sizes" {
			w = 4
		}
		out = append(out, explore.Scenario{Name: name, Doc: doc, Cfg: cfg, B: b, Weight: w, Body: func() {
			t := mk()
			oracle(t)
			t.run()
		}})
	}
	add("datagrams", fmt.Sprintf("a download of two chunks between two daemons, every combination of up to %d faults (loss, duplication, short or long delay, bit flips in data packets) over all datagrams", k),
		serial, explore.Bounds{Fault: k, Total: k}, func() *transfer {
			return &transfer{f: mkfile("f.bin", 4, 2600, 1500), faults: allFaults, horizon: 40 + 20*k}
		})
	sizes := []int{1, 999, 1000, 1001, 2023, 2024, 2025, 3048, 3100}
	add("sizes", "a download whose chunk and last chunk have lengths around multiples of the packet size, every single fault",
		serial, explore.Bounds{Fault: 1, Total: 1}, func() *transfer {
			cs := sizes[vs.Choose(vs.Free, len(sizes), "chunk size")]
			last := sizes[vs.Choose(vs.Free, len(sizes), "length of the last chunk")]
			if last > cs {
				last = cs
			}
			return &transfer{f: mkfile("f.bin", 4, cs+last, cs), faults: allFaults, horizon: 60}
		})
	larges := []int{70000, 4194304, 1<<24 + 3000}
	add("large chunks", "a download of one or two chunks of 70000, 4194304 (what share makes) or 16780216 bytes",
		serial2, explore.Bounds{Total: -1}, func() *transfer {
			cs := larges[vs.Choose(vs.Free, len(larges), "chunk size")]
			n := cs
			if vs.Choose(vs.Free, 2, "chunks") == 1 {
				n += 3000
			}
			return &transfer{f: mkfile("f.bin", 4, n, cs), horizon: 60}
		})
	add("partial", "a download of three chunks of which some are there already, every single fault",
		serial, explore.Bounds{Fault: k - 1, Total: k - 1}, func() *transfer {
			m := vs.Choose(vs.Free, 8, "chunks already there")
			return &transfer{f: mkfile("f.bin", 4, 1000, 400), faults: allFaults, horizon: 40 + 20*k, have: func(i int) bool { return m&(1<<i) != 0 }}
		})
	add("two peers", "a download of three chunks from two peers that hold any subsets which together are everything, every single fault",
		serial, explore.Bounds{Fault: k - 1, Total: k - 1}, func() *transfer {
			b := vs.Choose(vs.Free, 8, "chunks on B")
			c := vs.Choose(vs.Free, 8, "chunks on C")
			c |= 7 &^ b
			return &transfer{f: mkfile("f.bin", 4, 1000, 400), faults: allFaults, horizon: 60 + 20*k, hosts: 3,
				peers: []func(int) bool{func(i int) bool { return b&(1<<i) != 0 }, func(i int) bool { return c&(1<<i) != 0 }}}
		})
	for _, who := range []string{"A", "B"} {
		who := who
		what := map[string]string{"A": "downloading", "B": "serving"}[who]
		add("crash of "+who, fmt.Sprintf("the %s daemon dies at any of its datagrams or file-system writes (torn or not) and is restarted, up to %d times or with another datagram fault", what, k-1),
			serial, explore.Bounds{Fault: k - 1, Total: k - 1}, func() *transfer {
				return &transfer{f: mkfile("f.bin", 4, 1000, 400), faults: allFaults, crash: who, horizon: 60 + 20*k}
			})
	}
	add("outage", "either host loses its network at any second of a download, for 1, 5 or 25 seconds",
		serial, explore.Bounds{Fault: k - 2, Total: k - 2}, func() *transfer {
			who := vs.Choose(vs.Free, 2, "host")
			from := vs.Choose(vs.Free, 12, "from second")
			long := []int{1, 5, 25}[vs.Choose(vs.Free, 3, "duration")]
			return &transfer{f: mkfile("f.bin", 4, 1000, 400), faults: allFaults, horizon: 120, during: func(l *lan, sec int) {
				if sec == from || sec == from+long {
					l.w.SetOffline(l.nodes[who].host, sec == from)
				}
			}}
		})
	add("late network", "either daemon or both start before their host has a network, which comes after 0, 3 or 8 seconds; the serving host then gets another address after 0, 1, 4 or 9 seconds, or keeps its",
		serial, explore.Bounds{Total: -1}, func() *transfer {
			who := vs.Choose(vs.Free, 4, "hosts without a network")
			comes := []int{0, 3, 8}[vs.Choose(vs.Free, 3, "network after")]
			moves := []int{-1, 0, 1, 4, 9}[vs.Choose(vs.Free, 5, "address changes after")]
			t := &transfer{f: mkfile("f.bin", 4, 1000, 400), horizon: 80}
			set := func(l *lan, off bool) {
				for i, n := range l.nodes {
					if who>>i&1 == 1 {
						l.w.SetOffline(n.host, off)
					}
				}
			}
			t.early = func(l *lan) { set(l, true) }
			t.during = func(l *lan, sec int) {
				if sec == comes {
					set(l, false)
				}
				if sec == comes+moves && moves >= 0 {
					l.w.SetIP(l.nodes[1].host, [4]byte{10, 37, 91, 77})
				}
			}
			return t
		})
	add("several addresses", "every host also has the address 172.17.0.1 on a network of its own, which is listed first; three chunks from one or two peers, every single fault",
		serial, explore.Bounds{Fault: k - 1, Total: k - 1}, func() *transfer {
			t := &transfer{f: mkfile("f.bin", 4, 1000, 400), faults: allFaults, horizon: 60 + 20*k, hosts: 2 + vs.Choose(vs.Free, 2, "peers")}
			t.early = func(l *lan) { l.w.SetAddrs(3) }
			return t
		})
	speeds := []struct {
		lag     time.Duration
		rate    int
		n, size int
	}{{100 * time.Millisecond, 0, 2400000, 1200000}, {400 * time.Millisecond, 0, 1000000, 500000}, {900 * time.Millisecond, 0, 500000, 400000},
		{time.Millisecond, 40000, 1000000, 700000}, {50 * time.Millisecond, 4000, 150000, 100000}}
	if k > 2 {
		speeds[0].size = 4194304
		speeds[0].n = 4194304 + 3000
	}
	add("slow network", fmt.Sprintf("downloads whose chunks take 15 to 60 seconds each, because datagrams travel for up to 900 ms or hosts send only 4000 to 40000 bytes per second: %v (delay, bytes per second, sizes of file and chunks)", speeds),
		serial2, explore.Bounds{Total: -1}, func() *transfer {
			s := speeds[vs.Choose(vs.Free, len(speeds), "network")]
			t := &transfer{f: mkfile("f.bin", 4, s.n, s.size), horizon: 180}
			t.early = func(l *lan) { l.w.SetSpeed(s.lag, s.rate) }
			return t
		})
	add("one peer cannot deliver", "a download of three chunks from two or three peers that offer everything, while all but one of them have a missing, shorter, longer or unreadable file, or answer to discovery only, for good",
		serial, explore.Bounds{Fault: k - 2, Total: k - 2}, func() *transfer {
			n := 2 + vs.Choose(vs.Free, 2, "peers")
			good := vs.Choose(vs.Free, n, "the good one")
			how := vs.Choose(vs.Free, 6, "trouble")
			t := &transfer{f: mkfile("f.bin", 4, 1000, 400), faults: allFaults, horizon: 200, hosts: 1 + n}
			t.before = func(l *lan) {
				for i, b := range l.nodes[1:] {
					if i == good {
						continue
					}
					p := b.onDisk(nil).entries[t.f.k].path
					if how < 5 {
						b.fs.Del(p)
					}
					switch how {
					case 1:
						b.fs.Put(p, t.f.data[:900])
					case 2:
						b.fs.Put(p, t.f.data[:300])
					case 3:
						b.fs.Put(p, nil)
					case 4:
						b.fs.PutDir(p)
					}
				}
				if how == 5 {
					l.w.SetFaults(vnet.Faults{Lose: func(src, dst vnet.Addr4, d []byte) bool {
						return (d[0] == 4 || d[0] == 2) && dst != l.nodes[1+good].addr()
					}})
				}
			}
			return t
		})
	add("the disk fails", "a download of three chunks, two of which are there or not, while the first seconds of which any file-system call on the downloading host fails or is short",
		serial, explore.Bounds{Fault: k, Total: k}, func() *transfer {
			t := &transfer{f: mkfile("f.bin", 4, 1000, 400), horizon: 100}
			if vs.Choose(vs.Free, 2, "there already") == 1 {
				t.have = func(i int) bool { return i != 1 }
			}
			t.before = func(l *lan) { l.nodes[0].fs.Faults = vos.FaultMode{Error: true, Short: true} }
			t.during = func(l *lan, sec int) {
				if sec == 14 {
					l.nodes[0].fs.Faults = vos.FaultMode{}
				}
			}
			return t
		})
	add("the disk is full", "a download of three chunks, two of which are there or not, while from any second on, for a second or for longer, there is no space left or the disk is read-only; either daemon is restarted afterwards or not",
		serial, explore.Bounds{Total: -1}, func() *transfer {
			at := vs.Choose(vs.Free, 12, "from second") - 1
			long := []int{1, 3, 30}[vs.Choose(vs.Free, 3, "for")]
			how := 1 + vs.Choose(vs.Free, 2, "trouble")
			which := vs.Choose(vs.Free, 2, "host")
			restart := vs.Choose(vs.Free, 3, "restart")
			t := &transfer{f: mkfile("f.bin", 4, 1000, 400), horizon: 140}
			if vs.Choose(vs.Free, 2, "there already") == 1 {
				t.have = func(i int) bool { return i != 1 }
			}
			t.before = func(l *lan) {
				if at < 0 {
					l.nodes[which].fs.Full = how
				}
			}
			t.during = func(l *lan, sec int) {
				n := l.nodes[which]
				if sec == at {
					n.fs.Full = how
				}
				if sec == at+long {
					n.fs.Full = 0
					if restart > 0 {
						l.nodes[restart-1].p.Kill("crash injected: restart")
					}
				}
			}
			return t
		})
	add("addresses change hands", "during a download the downloading host gets another address at any second, and the serving host then the one it had, or both swap theirs",
		serial, explore.Bounds{Total: -1}, func() *transfer {
			at := vs.Choose(vs.Free, 12, "A moves at second")
			then := []int{-1, 0, 1, 6}[vs.Choose(vs.Free, 4, "B takes its address after")]
			t := &transfer{f: mkfile("f.bin", 4, 1000, 400), horizon: 100}
			t.during = func(l *lan, sec int) {
				a, b := l.nodes[0].host, l.nodes[1].host
				if sec == at {
					l.w.SetIP(a, [4]byte{10, 37, 91, 77})
				}
				if then < 0 && sec == at {
					l.w.SetIP(b, [4]byte{10, 37, 91, 1})
					l.w.SetIP(a, [4]byte{10, 37, 91, 2})
				}
				if then >= 0 && sec == at+then {
					l.w.SetIP(b, [4]byte{10, 37, 91, 1})
				}
			}
			return t
		})
	add("peers come and go", "a download of three chunks from two peers that hold everything: one leaves for good at any second, or has its file cleaned away, and the other arrives at any second",
		serial, explore.Bounds{Fault: k - 2, Total: k - 2}, func() *transfer {
			leave := vs.Choose(vs.Free, 12, "B leaves at second")
			come := vs.Choose(vs.Free, 14, "C arrives at second")
			clean := vs.Choose(vs.Free, 2, "B's file is removed and cleaned away") == 1
			t := &transfer{f: mkfile("f.bin", 4, 1000, 400), faults: allFaults, horizon: 140, hosts: 3}
			t.before = func(l *lan) { l.w.SetOffline(l.nodes[2].host, come > 0) }
			t.during = func(l *lan, sec int) {
				b, c := l.nodes[1], l.nodes[2]
				if sec == come-1 {
					l.w.SetOffline(c.host, false)
				}
				if sec == leave {
					if clean {
						b.fs.Del(b.onDisk(nil).entries[t.f.k].path)
						b.run("clean")
					} else {
						l.w.SetOffline(b.host, true)
					}
				}
			}
			return t
		})
	add("the peer's file goes bad", "a download of three chunks, while the peer's file is missing, shorter, longer or a directory from any second on, for 3 or 12 seconds",
		serial, explore.Bounds{Fault: k - 2, Total: k - 2}, func() *transfer {
			from := vs.Choose(vs.Free, 8, "from second")
			long := []int{3, 12}[vs.Choose(vs.Free, 2, "duration")]
			how := vs.Choose(vs.Free, 5, "damage")
			t := &transfer{f: mkfile("f.bin", 4, 1000, 400), faults: allFaults, horizon: 120}
			t.during = func(l *lan, sec int) {
				b := l.nodes[1]
				p := b.onDisk(nil).entries[t.f.k].path
				if sec == from {
					b.fs.Del(p)
					switch how {
					case 1:
						b.fs.Put(p, t.f.data[:900])
					case 2:
						b.fs.Put(p, t.f.data[:500])
					case 3:
						b.fs.Put(p, nil)
					case 4:
						b.fs.PutDir(p)
					}
				}
				if sec == from+long {
					b.fs.Del(p)
					b.fs.Put(p, t.f.data)
				}
			}
			return t
		})
	troubles := []string{"upload requests", "headers", "data packets", "the last packets", "acknowledgements", "discovery requests", "discovery replies", "anything to the peer", "anything from the peer", "the peer's file", "half of the peer's file"}
	longs := []int{45, 600}
	if k > 2 {
		longs = append(longs, 7200)
	}
	add("long trouble", fmt.Sprintf("a download of two chunks, while for %d seconds from the first or sixth second on one of %q is lost without exception; it must still complete afterwards", longs, troubles),
		serial2, explore.Bounds{Total: -1}, func() *transfer {
			from := []int{0, 5}[vs.Choose(vs.Free, 2, "from second")]
			what := vs.Choose(vs.Free, len(troubles), "trouble")
			long := longs[vs.Choose(vs.Free, len(longs), "duration")]
			t := &transfer{f: mkfile("f.bin", 4, 4000, 2500), horizon: from + long + 60}
			lose := vnet.Faults{Lose: func(src, dst vnet.Addr4, d []byte) bool {
				b := [4]byte{10, 37, 91, 2}
				switch what {
				case 0:
					return d[0] == 4
				case 1:
					return d[0] == 5 && isHeader(d)
				case 2:
					return d[0] == 5 && !isHeader(d) && len(d) > 5
				case 3:
					return d[0] == 5 && len(d) == 5
				case 4:
					return d[0] == 6
				case 5:
					return d[0] == 0
				case 6:
					return d[0] == 1
				case 7:
					return dst.IP == b
				case 8:
					return src.IP == b
				}
				return false
			}}
			path := ""
			t.during = func(l *lan, sec int) {
				b := l.nodes[1]
				switch {
				case sec == from && what < 9:
					l.w.SetFaults(lose)
				case sec == from:
					path = b.onDisk(nil).entries[t.f.k].path
					b.fs.Del(path)
					if what == 10 {
						b.fs.Put(path, t.f.data[:2500])
					}
				case sec == from+long && what < 9:
					l.w.SetFaults(vnet.Faults{})
				case sec == from+long:
					b.fs.Put(path, t.f.data)
				}
			}
			return t
		})
	kinds := []string{"different", "zeros", "ones", "the first one's"}
	add("contents", fmt.Sprintf("a download of three chunks, each with content out of %q, from nothing or with the middle one there", kinds),
		serial, explore.Bounds{Total: -1}, func() *transfer {
			f := mkfile("f.bin", 4, 7100, 2500)
			for i := 0; i < 3; i++ {
				c := f.chunk(i)
				switch vs.Choose(vs.Free, len(kinds), "content") {
				case 1:
					copy(c, make([]byte, len(c)))
				case 2:
					copy(c, bytes.Repeat([]byte{255}, len(c)))
				case 3:
					copy(c, f.chunk(0))
				}
			}
			f.k = sum(f.data)
			t := &transfer{f: f, horizon: 40}
			if vs.Choose(vs.Free, 2, "the middle one is there") == 1 {
				t.have = func(i int) bool { return i == 1 }
			}
			return t
		})
	bad := []string{"nothing", "the header", "a header with another size", "a header with another hash", "no header", "no end", "a wrong byte", "an early end", "everything", "everything twice", "the end first", "an empty packet", "a cut packet"}
	add("a bad peer", fmt.Sprintf("a download of two chunks, first from a peer that answers each of three requests in one of %d ways and then leaves, then from a good one", len(bad)),
		serial, explore.Bounds{Total: -1}, func() *transfer {
			t := &transfer{f: mkfile("f.bin", 4, 2600, 1500), horizon: 140}
			var p *peer
			left := 3
			var l *lan
			gone := false
			t.before = func(x *lan) {
				l = x
				p = &peer{l: l, a: l.nodes[0], ip: [4]byte{10, 37, 91, 200}, f: t.f, at: l.mark()}
				l.w.SetOffline(l.nodes[1].host, true)
			}
			answer := func() {
				ck := t.f.chunk(p.chunk)
				k := sum(ck)
				in := func(b []byte) { l.w.Inject(p.a.host, p.opened.Port, p.addr(), b); vs.Settle() }
				all := func(last bool) {
					in(headerPkt(k, len(ck), ck[:1000]))
					for at := 1000; at < len(ck); at += 1024 {
						in(dataPkt(at, ck[at:min(at+1024, len(ck))]))
					}
					if last {
						in(dataPkt(len(ck), nil))
					}
				}
				switch bad[vs.Choose(vs.Free, len(bad), "answer")] {
				case "the header":
					in(headerPkt(k, len(ck), ck[:1000]))
				case "a header with another size":
					in(headerPkt(k, len(ck)+1, ck[:1000]))
				case "a header with another hash":
					k[3] ^= 4
					all(true)
				case "no header":
					in(dataPkt(1000, ck[1000:]))
					in(dataPkt(len(ck), nil))
				case "no end":
					all(false)
				case "a wrong byte":
					c := append([]byte{}, ck...)
					c[1001] ^= 1
					ck = c
					all(true)
				case "an early end":
					in(headerPkt(k, len(ck), ck[:1000]))
					in(dataPkt(1000, nil))
				case "everything":
					all(true)
				case "everything twice":
					all(true)
					all(true)
				case "the end first":
					in(dataPkt(len(ck), nil))
					all(false)
				case "an empty packet":
					in(nil)
					in([]byte{5})
				case "a cut packet":
					in(headerPkt(k, len(ck), nil)[:20])
				}
			}
			t.during = func(l *lan, sec int) {
				if gone {
					return
				}
				for i := 0; i < 3 && left > 0; i++ {
					busy, opened := p.step()
					if opened {
						left--
						answer()
					}
					if !busy {
						break
					}
				}
				if left == 0 || sec > 40 {
					gone = true
					l.w.SetOffline(l.nodes[1].host, false)
				}
			}
			return t
		})
	pre := k - 1
	add("schedules", fmt.Sprintf("a download of two chunks in every schedule of both daemons with up to %d preemptions", pre),
		vs.Config{NetPoints: true, MaxSteps: 1000000}, explore.Bounds{Sched: pre, Switch: 1, Timing: 1, Total: pre}, func() *transfer {
			return &transfer{f: mkfile("f.bin", 4, 2600, 1500), horizon: 80, live: true}
		})
	add("schedules and faults", "a download of one chunk with one datagram fault and one preemption",
		vs.Config{NetPoints: true, MaxSteps: 1000000}, explore.Bounds{Sched: 1, Switch: 1, Fault: 1, Total: k - 1}, func() *transfer {
			return &transfer{f: mkfile("f.bin", 4, 1300, 1500), faults: allFaults, horizon: 100, live: true}
		})
	add("requested twice", fmt.Sprintf("the same download requested twice at once, in every schedule with up to %d preemptions", pre),
		vs.Config{NetPoints: true, MaxSteps: 1000000}, explore.Bounds{Sched: pre, Switch: 1, Fault: 1, Total: pre}, func() *transfer {
			return &transfer{f: mkfile("f.bin", 4, 700, 400), gets: 2, horizon: 100, live: true}
		})
	return append(out, swarms(k, oracle)...)
}
