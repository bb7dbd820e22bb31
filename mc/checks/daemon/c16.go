package main

import (
	"fmt"

	"github.com/flu-network/client/catalogue"

	"verif/mc/explore"
	"verif/mc/h"
	"verif/mc/vs"
)

func init() {
	explore.Register(&explore.Property{ID: "C16", Scenarios: c16})
}

// overlap is the intersection of the requested ranges with the chunks present, range by range.
func overlap(have []bool, req []int) (out []int) {
	for i := 0; i+1 < len(req); i += 2 {
		lo, hi := req[i], req[i+1]
		part := make([]bool, len(have))
		for c := lo; c <= hi && c < len(have); c++ {
			part[c] = have[c]
		}
		out = append(out, rangesOf(part)...)
	}
	return
}

// ask injects a discovery request and checks everything about the reply but its chunks.
func (n *node) ask(when string, id int, k hash, req []int) []int {
	from := n.l.mark()
	n.inject(phantom(50, 7000+id%1000), discoverReq(id, k, req...))
	vs.Settle()
	n.mustLive("%s", when)
	var got []dresp
	for _, r := range n.l.w.Since(from) {
		if r.Fate == "injected" {
			continue
		}
		h.Must(r.Dst == phantom(50, port), "%s: a datagram goes to %v", when, r.Dst)
		d, ok := parseDiscoverResp(r.Data)
		h.Must(ok, "%s: the reply is % x", when, r.Data)
		got = append(got, d)
	}
	h.Must(len(got) == 1, "%s: %d replies", when, len(got))
	d := got[0]
	h.Must(d.id == id, "%s: the reply to request %d has number %d", when, id, d.id)
	h.Must(d.ip == n.ip() && d.port == port, "%s: the reply names %v:%d", when, d.ip, d.port)
	vs.Count("requests", 1)
	return d.chunks
}

func c16(tier string) (out []explore.Scenario) {
	cfg := vs.Config{Serial: true, MaxSteps: 100000000}
	size := 6
	if tier == "thorough" {
		size = 8
	}
	// every set of chunks and every request of up to two ranges
	sets := func() {
		m := vs.Choose(vs.Free, 1<<size, "chunks held")
		lo := vs.Choose(vs.Free, size+2, "start of the first range")
		l := newLan(1)
		a := l.nodes[0]
		f := mkfile("f.bin", 3, size*10-3, 10)
		other := mkfile("other.bin", 5, 40, 10)
		have := func(i int) bool { return m&(1<<i) != 0 }
		a.give(f, have)
		a.give(other, nil)
		a.boot()
		hv := make([]bool, size)
		for i := range hv {
			hv[i] = have(i)
		}
		id := 1
		check := func(req ...int) {
			when := fmt.Sprintf("%s held, %v asked for", fmt.Sprint(rangesOf(hv)), req)
			got := a.ask(when, id, f.k, req)
			want := overlap(hv, req)
			if len(req) == 0 {
				want = rangesOf(hv)
			}
			h.Must(sameInts(got, want), "%s: %v offered, not %v", when, got, want)
			id = (id + 257) % 65536
		}
		if lo == 0 {
			check()
			h.Must(len(a.ask("blank hash", 9, blank, nil)) == 0, "chunks of the blank hash are offered")
			h.Must(len(a.ask("blank hash with a range", 10, blank, []int{0, 9})) == 0, "chunks of the blank hash are offered")
			h.Must(len(a.ask("unknown file", 11, sum([]byte("x")), []int{0, 9})) == 0, "chunks of an unknown file are offered")
			h.Must(len(a.ask("unknown file", 12, sum([]byte("x")), nil)) == 0, "chunks of an unknown file are offered")
		}
		for hi := lo; hi < size+2; hi++ {
			check(lo, hi)
			for lo2 := 0; lo2 < size+2; lo2++ {
				for hi2 := lo2; hi2 < size+2; hi2++ {
					check(lo, hi, lo2, hi2)
				}
			}
		}
		// odd and inverted lists: nothing that is not held
		for _, req := range [][]int{{lo}, {lo, size, 1}, {size, lo}, {65535, 65535}, {lo, 65535}, {0, 1, 65535, 0}} {
			got := a.ask(fmt.Sprint(req), id, f.k, req)
			h.Must(len(got)%2 == 0, "%v asked for: odd reply %v", req, got)
			if len(req)%2 == 1 && (len(req) < 3 || req[0] <= req[1]) { // the value without a partner is no range
				want := overlap(hv, req)
				h.Must(sameInts(got, want), "%v asked for, %v held: %v offered, not %v", req, rangesOf(hv), got, want)
			}
			for i := 0; i+1 < len(got); i += 2 {
				h.Must(got[i] <= got[i+1], "%v asked for: reply %v", req, got)
				for c := got[i]; c <= got[i+1]; c++ {
					h.Must(c < size && hv[c], "%v asked for, %v held: %v offered", req, rangesOf(hv), got)
				}
			}
		}
		got := a.ask("the other file", id, other.k, nil)
		h.Must(sameInts(got, []int{0, 3}), "the other file is offered as %v", got)
		vs.Observe("%d %d", m, lo)
	}
	out = append(out, explore.Scenario{Name: "sets and ranges", Cfg: cfg, B: explore.Bounds{Total: -1}, Body: sets,
		Doc: fmt.Sprintf("every set of held chunks of a %d-chunk file and every request of no, one or two ranges with bounds up to %d, also odd, inverted and far ones", size, size+1)})

	// word and capacity boundaries
	big := func() {
		sizes := []int{63, 64, 65, 128, 130, 253, 254, 255, 256, 300, 511, 600}
		n := sizes[vs.Choose(vs.Free, len(sizes), "chunks")]
		pats := []func(i int) bool{
			func(i int) bool { return true }, func(i int) bool { return false }, func(i int) bool { return i%2 == 0 },
			func(i int) bool { return i%2 == 1 }, func(i int) bool { return i%64 == 63 }, func(i int) bool { return i%64 != 0 },
			func(i int) bool { return i == n-1 }, func(i int) bool { return i == 0 || i == n-1 }, func(i int) bool { return i >= 64 && i < 128 },
			func(i int) bool { return i%3 != 0 },
		}
		p := vs.Choose(vs.Free, len(pats), "pattern")
		l := newLan(1)
		a := l.nodes[0]
		f := mkfile("f.bin", 3, n, 1)
		hv := make([]bool, n)
		for i := range hv {
			hv[i] = pats[p](i)
		}
		a.give(f, func(i int) bool { return hv[i] })
		a.boot()
		edges := []int{0, 1, 62, 63, 64, 65, 127, 128, n - 2, n - 1, n, n + 1, 65535}
		var reqs [][]int
		reqs = append(reqs, nil)
		for _, lo := range edges {
			for _, hi := range edges {
				if lo <= hi {
					reqs = append(reqs, []int{lo, hi})
				}
			}
		}
		for _, c := range []int{126, 127} { // as many ranges as a request can hold
			var r []int
			for i := 0; i < c; i++ {
				r = append(r, 2*i, 2*i)
			}
			reqs = append(reqs, r)
			r = nil
			for i := 0; i < c; i++ {
				r = append(r, 0, 65535)
			}
			reqs = append(reqs, r)
		}
		for i, req := range reqs {
			short := fmt.Sprint(req)
			if len(req) > 8 {
				short = fmt.Sprint(len(req)/2, " ranges ", req[:8], "...")
			}
			when := fmt.Sprintf("%d chunks in pattern %d, %s asked for", n, p, short)
			got := a.ask(when, 1000+i, f.k, req)
			want := overlap(hv, req)
			if len(req) == 0 {
				want = rangesOf(hv)
			}
			if len(want) > 254 { // a count byte, and whole ranges
				want = want[:254]
				h.Must(len(got) >= 254, "%s: only %d values offered", when, len(got))
				got = got[:254]
			}
			h.Must(sameInts(got, want), "%s: %v offered, not %v", when, got, want)
		}
		vs.Observe("%d %d", n, p)
	}
	out = append(out, explore.Scenario{Name: "large sets", Cfg: cfg, B: explore.Bounds{Total: -1}, Body: big,
		Doc: "files of 63 to 600 chunks in ten patterns, requests with bounds around words and the end, and as many ranges as fit, against the capacity of a reply"})

	// identifiers and concurrent requests
	ids := func() {
		l := newLan(1)
		a := l.nodes[0]
		f := mkfile("f.bin", 3, 40, 10)
		g := mkfile("g.bin", 4, 30, 10)
		a.give(f, func(i int) bool { return i != 1 })
		a.give(g, nil)
		a.boot()
		hf, hg := []int{0, 0, 2, 3}, []int{0, 2}
		at := l.mark()
		pairs := [][2]int{{0, 1}, {65535, 0}, {256, 1}, {7, 7}}
		p := pairs[vs.Choose(vs.Free, len(pairs), "numbers")]
		vs.Serialize(false)
		a.inject(phantom(1, 5000), discoverReq(p[0], f.k))
		a.inject(phantom(2, 5000), discoverReq(p[1], g.k))
		vs.Settle()
		vs.Serialize(true)
		a.mustLive("two requests at once")
		for i, want := range [][]int{hf, hg} {
			got := to(l.w, at, phantom(1+i, port))
			h.Must(len(got) == 1, "two requests at once: host %d gets %d replies", i, len(got))
			d, ok := parseDiscoverResp(got[0].Data)
			h.Must(ok && d.id == p[i] && d.ip == a.ip() && d.port == port && sameInts(d.chunks, want), "two requests at once: host %d, request %d gets % x", i, p[i], got[0].Data)
		}
		vs.Observe("%v", p)
	}
	// hashes that are nearly blank are like any other
	near := func() {
		v := vs.Choose(vs.Free, 20, "byte")
		bit := vs.Choose(vs.Free, 8, "bit")
		k := blank
		k[v] ^= 1 << bit
		l := newLan(1)
		a := l.nodes[0]
		a.prep(func(c *catalogue.Cat) {
			_, err := c.RegisterDownload(25, 3, 10, hp(k), "near.bin")
			h.Must(err == nil, "registering: %v", err)
			for _, i := range []int{0, 2} {
				err := c.SaveChunk(hp(k), uint16(i), make([]byte, []int{10, 10, 5}[i]))
				h.Must(err == nil, "saving: %v", err)
			}
		})
		a.give(mkfile("other.bin", 5, 40, 10), nil)
		a.boot()
		what := fmt.Sprintf("hash %x", k)
		got := a.ask(what, 5, k, nil)
		h.Must(sameInts(got, []int{0, 0, 2, 2}), "%s: %v offered", what, got)
		got = a.ask(what, 6, k, []int{1, 2})
		h.Must(sameInts(got, []int{2, 2}), "%s: %v offered", what, got)
		h.Must(len(a.ask("blank hash", 9, blank, nil)) == 0, "chunks of the blank hash are offered")
		vs.Observe("%d", v)
	}
	out = append(out, explore.Scenario{Name: "nearly blank", Cfg: cfg, B: explore.Bounds{Total: -1}, Body: near,
		Doc: "a file whose hash differs from the blank one in one of its 160 bits"})
	// the host's address is the one it has now
	address := func() {
		l := newLan(1)
		a := l.nodes[0]
		f := mkfile("f.bin", 5, 40, 10)
		a.give(f, func(i int) bool { return i != 1 })
		what := ""
		off := vs.Choose(vs.Free, 2, "started without a network") == 1
		if off {
			what = "started without a network, "
			l.w.SetOffline(a.host, true)
		}
		a.boot()
		ips := [][4]byte{{10, 37, 91, 1}, {10, 37, 91, 9}, {192, 168, 1, 1}}
		for i := 0; i < 3; i++ {
			if off {
				l.w.SetOffline(a.host, false)
			}
			off = false
			ip := ips[vs.Choose(vs.Free, len(ips), "address")]
			l.w.SetIP(a.host, ip)
			what += fmt.Sprintf("then at %v, ", ip)
			got := a.ask(what, i, f.k, nil)
			h.Must(sameInts(got, []int{0, 0, 2, 3}), "%s: %v offered", what, got)
			if vs.Choose(vs.Free, 2, "the network goes and comes back") == 1 {
				off = true
				l.w.SetOffline(a.host, true)
				from := l.mark()
				a.inject(phantom(50, 7000), discoverReq(i, f.k))
				vs.Settle()
				a.mustLive("%s", what)
				h.Must(len(l.w.Since(from)) <= 1, "%s: a reply without a network", what)
			}
		}
		vs.Observe("%s", what)
	}
	out = append(out, explore.Scenario{Name: "address", Cfg: cfg, B: explore.Bounds{Total: -1}, Body: address,
		Doc: "a daemon started with or without a network, whose host then has up to three addresses in turn, with or without losing the network in between: every reply names the address of the moment"})
	pre := 2
	if tier == "thorough" {
		pre = 3
	}
	out = append(out, explore.Scenario{Name: "two at once", Cfg: vs.Config{NetPoints: true}, B: explore.Bounds{Sched: pre, Switch: 2, Total: pre}, Body: func() { vs.Serialize(true); ids() },
		Doc: fmt.Sprintf("two requests for different files from different hosts at once, every schedule with up to %d preemptions", pre)})
	return
}
