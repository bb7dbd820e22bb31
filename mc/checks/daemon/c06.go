package main

import (
	"bytes"
	"fmt"
	"net"
	"strings"
	"time"

	"verif/mc/explore"
	"verif/mc/h"
	vnet "verif/mc/shim/net"
	"verif/mc/vs"
)

func init() {
	explore.Register(&explore.Property{ID: "C06", Scenarios: c06})
}

// held is a file and the chunks of it that a host has.
type held struct {
	f    file
	have []bool
}

func (x held) count() (n int) {
	for _, b := range x.have {
		if b {
			n++
		}
	}
	return
}

// rangesOf lists the present chunks as inclusive maximal ranges.
func rangesOf(have []bool) (out []int) {
	for i := 0; i < len(have); i++ {
		if have[i] {
			j := i
			for j+1 < len(have) && have[j+1] {
				j++
			}
			out = append(out, i, j)
			i = j
		}
	}
	return
}

func all(f file) []bool {
	out := make([]bool, f.n())
	for i := range out {
		out[i] = true
	}
	return out
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// mustServe fails unless the daemon answers discovery and listing requests according to files.
func (n *node) mustServe(when string, files []held) {
	n.mustLive("%s", when)
	var want []entry
	for _, x := range files {
		want = append(want, x.f.entry(x.count()))
		r := n.query(x.f.k)
		h.Must(sameInts(r.chunks, rangesOf(x.have)), "%s: %s offers chunks %v of %s, not %v", when, n.name, r.chunks, x.f.name, rangesOf(x.have))
		es, ok := n.listing(x.f.k)
		h.Must(ok && sameEntries(es, want[len(want)-1:]), "%s: %s lists %s as %v, not %v", when, n.name, x.f.name, es, want[len(want)-1])
	}
	r := n.query(blank)
	h.Must(len(r.chunks) == 0, "%s: %s offers chunks %v of the blank hash", when, n.name, r.chunks)
	r = n.query(sum([]byte("unknown")))
	h.Must(len(r.chunks) == 0, "%s: %s offers chunks %v of an unknown file", when, n.name, r.chunks)
	es := n.mustList(when)
	h.Must(sameEntries(es, want), "%s: %s lists %v, not %v", when, n.name, es, want)
}

// msg is a datagram and its source.
type msg struct {
	what string
	data []byte
	src  int // 0, 1: two endpoints; 2: IPv6; 3: port 0; 4: the host itself
}

func (n *node) throw(m msg) {
	switch m.src {
	case 2:
		n.l.w.Inject6(n.host, port, &net.UDPAddr{IP: net.ParseIP("fe80::1"), Port: 5000, Zone: "eth0"}, m.data)
	case 3:
		n.inject(phantom(0, 0), m.data)
	case 4:
		n.inject(n.addr(), m.data)
	default:
		n.inject(phantom(m.src, 5000), m.data)
	}
}

// hostile is the alphabet of datagrams.
func hostile(known, part file) []msg {
	unknown := sum([]byte("unknown"))
	rep := func(b byte, n int) []byte { return bytes.Repeat([]byte{b}, n) }
	var out []msg
	add := func(what string, data []byte) { out = append(out, msg{what, data, 0}) }
	add("nothing", nil)
	for t := 0; t <= 8; t++ {
		add(fmt.Sprintf("a lone type byte %d", t), []byte{byte(t)})
	}
	add("a lone type byte 255", []byte{255})
	add("1024 zero bytes", rep(0, 1024))
	add("1024 bytes ff", rep(255, 1024))
	add("1500 bytes of a data packet", append([]byte{5}, rep(7, 1499)...))
	add("a discovery request", discoverReq(7, known.k))
	add("a discovery request with ranges", discoverReq(7, known.k, 0, 1, 65535, 65535))
	add("a discovery request with inverted ranges", discoverReq(7, known.k, 65535, 0, 2, 1))
	add("a discovery request with an odd range list", discoverReq(7, part.k, 0, 9, 1))
	add("a discovery request for nothing", discoverReq(7, blank))
	add("a discovery request for something unknown", discoverReq(7, unknown, 0, 65535))
	add("a cut discovery request", discoverReq(7, known.k, 1, 2)[:26])
	add("a discovery request with count 255 but one value", append(discoverReq(7, known.k)[:23], 255, 0, 1))
	add("a discovery reply to nobody", discoverResp(0, [4]byte{10, 37, 91, 9}, port, 0, 5))
	add("a cut discovery reply", discoverResp(0, [4]byte{10, 37, 91, 9}, port, 0, 5)[:12])
	add("a listing request", listReq(3, blank))
	add("a listing request for a file", listReq(3, known.k))
	add("a listing request for an unknown file", listReq(3, unknown))
	add("a cut listing request", listReq(3, known.k)[:10])
	add("a listing to nobody", listResp(0, known.entry(1)))
	add("a listing that claims 65535 entries", append([]byte{3, 0, 0, 255, 255}, rep(1, 40)...))
	add("a listing whose name is cut", listResp(0, known.entry(1))[:48])
	for _, w := range []int{0, 1, 1024, 65535} {
		add(fmt.Sprintf("an upload request, window %d", w), openReq(known.k, 0, w))
	}
	add("an upload request for the last chunk", openReq(known.k, known.n()-1, 3))
	add("an upload request for a chunk too far", openReq(known.k, known.n(), 3))
	add("an upload request for chunk 65535", openReq(known.k, 65535, 3))
	add("an upload request for an absent chunk", openReq(part.k, 0, 3))
	add("an upload request for an unknown file", openReq(unknown, 0, 3))
	add("a cut upload request", openReq(known.k, 0, 3)[:22])
	out = append(out, msg{"an upload request from elsewhere", openReq(known.k, 1, 2), 1},
		msg{"an upload request from an IPv6 address", openReq(known.k, 0, 2), 2},
		msg{"a discovery request from an IPv6 address", discoverReq(7, known.k), 2},
		msg{"an acknowledgement from an IPv6 address", ackPkt(0), 2},
		msg{"a listing request from an IPv6 address", listReq(3, blank), 2},
		msg{"an upload request from port 0", openReq(known.k, 0, 2), 3},
		msg{"a discovery request from its own address", discoverReq(7, known.k), 4})
	add("an acknowledgement of 0", ackPkt(0))
	add("an acknowledgement of 4294967295", ackPkt(1<<32-1))
	add("a cut acknowledgement", ackPkt(0)[:3])
	out = append(out, msg{"an acknowledgement from elsewhere", ackPkt(0), 1})
	add("a header packet", headerPkt(known.k, 100, []byte("abc")))
	add("a data packet", dataPkt(1<<32-1, []byte("abc")))
	add("a data packet without data", dataPkt(0, nil))
	return out
}

// c06state prepares a host in one of several states and returns what it should serve.
func c06state(a *node, st int) (known, part file, files []held) {
	known, part = mkfile("known.bin", 1, 2500, 1100), mkfile("part.bin", 2, 1500, 700)
	if st == 0 {
		return
	}
	a.give(known, nil)
	a.give(part, func(i int) bool { return i == 1 })
	files = []held{{known, all(known)}, {part, []bool{false, true, false}}}
	switch st {
	case 2: // the data has gone
		a.fs.Del(dlDir + "/known.bin")
		a.fs.Del(dlDir + "/part.bin")
	case 3: // the data is too short
		a.fs.Put(dlDir+"/known.bin", known.data[:1500])
		a.fs.Put(dlDir+"/part.bin", nil)
	case 4: // a directory is in the place of the file
		a.fs.Del(dlDir + "/known.bin")
		a.fs.PutDir(dlDir + "/known.bin")
	}
	return
}

// fetchable checks that a chunk can be uploaded to its end.
func (n *node) mustUpload(when string, f file, chunk int, ph vnet.Addr4) {
	s := newStream(when, f.chunk(chunk))
	at := n.l.mark()
	n.inject(ph, openReq(f.k, chunk, 8))
	for i := 0; i < 50 && !s.ended; i++ {
		vs.Settle()
		got := to(n.l.w, at, ph)
		at = n.l.mark()
		for _, r := range got {
			s.take(r.Data)
			n.inject(ph, ackPkt(u32(r.Data[1:])))
		}
		if len(got) == 0 {
			break
		}
	}
	vs.Settle()
	n.mustLive("%s", when)
	h.Must(s.ended, "%s: an upload of chunk %d of %s stops after %d packets; goroutines:\n%s", when, chunk, f.name, s.n, strings.Join(n.p.Goroutines(), "\n"))
}

func c06(tier string) (out []explore.Scenario) {
	cfg := vs.Config{Serial: true, MaxSteps: 400000}
	free := explore.Bounds{Total: -1}
	depth := 2
	if tier == "thorough" {
		depth = 3
	}
	seq := func() {
		st := vs.Choose(vs.Free, 5, "state")
		l := newLan(1)
		a := l.nodes[0]
		known, part, files := c06state(a, st)
		a.boot()
		menu := hostile(known, part)
		before := a.fs.Snapshot()
		var what []string
		for i := 0; i < depth; i++ {
			m := menu[vs.Choose(vs.Free, len(menu), "datagram")]
			what = append(what, m.what)
			a.throw(m)
			vs.Settle()
			a.mustLive("after %q", what)
		}
		when := fmt.Sprintf("after %q", what)
		a.mustServe(when, files)
		if st == 1 {
			a.mustUpload(when, known, 2, phantom(7, 6000))
			// the endpoint the datagrams came from can still get a chunk
			a.mustUpload(when, known, 1, phantom(0, 5000))
		}
		after := a.fs.Snapshot()
		h.Must(len(before) == len(after), "%s: the files changed from %d to %d", when, len(before), len(after))
		for p, c := range before {
			h.Must(after[p] == c, "%s: %s changed", when, p)
		}
		vs.Observe("%d %s", st, strings.Join(what, ", "))
	}
	out = append(out, explore.Scenario{Name: "sequences", Cfg: cfg, B: free, Body: seq, Weight: 3,
		Doc: fmt.Sprintf("every sequence of %d datagrams from the alphabet, in five catalogue states (empty; whole and partial file; data missing, cut, or replaced by a directory), then discovery, listing and uploads are compared with the catalogue and the disk with its snapshot", depth)})

	// without an address only the host itself can send, or what was sent before is still waiting
	lone := func() {
		st := vs.Choose(vs.Free, 3, "state")
		l := newLan(1)
		a := l.nodes[0]
		known, part, files := c06state(a, st)
		mode := vs.Choose(vs.Free, 6, "network")
		when := []string{"without an address", "without an address since the start", "when addresses cannot be listed", "when addresses could never be listed", "with IPv6 addresses first", "with another network's address first"}[mode]
		set := func(on bool) {
			switch mode {
			case 0, 1:
				l.w.SetOffline(a.host, on)
			case 2, 3:
				l.w.SetAddrs(1)
			case 4:
				l.w.SetAddrs(2)
			case 5:
				l.w.SetAddrs(3)
			}
			if !on && mode < 4 {
				l.w.SetAddrs(0)
			}
		}
		if mode&1 == 1 {
			set(true)
		}
		a.boot()
		menu := hostile(known, part)
		before := a.fs.Snapshot()
		for i := 0; i < 2; i++ {
			m := menu[vs.Choose(vs.Free, len(menu), "datagram")]
			when += fmt.Sprintf(", %q", m.what)
			waiting := i == 0 && mode == 0
			if waiting {
				a.throw(m)
			}
			if i == 0 {
				set(true)
			}
			if mode < 2 && m.src != 2 {
				m.src = 4
			}
			if !waiting {
				a.throw(m)
			}
			vs.Settle()
			a.mustLive("%s", when)
		}
		set(false)
		a.mustServe(when, files)
		after := a.fs.Snapshot()
		h.Must(len(before) == len(after), "%s: the files changed from %d to %d", when, len(before), len(after))
		for p, c := range before {
			h.Must(after[p] == c, "%s: %s changed", when, p)
		}
		vs.Observe("%d %s", st, when)
	}
	out = append(out, explore.Scenario{Name: "odd networks", Cfg: cfg, B: free, Body: lone,
		Doc: "every sequence of two datagrams that arrive while the host has no address (since before, or the first was waiting when it lost it), cannot list its addresses, or has IPv6 addresses or one of another network first"})

	// every prefix and every single-byte change of every well-formed message
	bytesOf := func() {
		l := newLan(1)
		a := l.nodes[0]
		known, part, files := c06state(a, 1)
		a.boot()
		forms := [][]byte{
			discoverReq(7, known.k, 0, 1), discoverResp(0, [4]byte{10, 37, 91, 9}, port, 0, 1), listReq(3, known.k),
			listResp(0, known.entry(1)), openReq(known.k, 1, 4), dataPkt(5, []byte("abc")), ackPkt(9),
		}
		i := vs.Choose(vs.Free, len(forms), "message")
		b := forms[i]
		kind := vs.Choose(vs.Free, 2, "mutation")
		var what string
		if kind == 0 {
			n := vs.Choose(vs.Free, len(b)+1, "length")
			b = b[:n]
			what = fmt.Sprintf("message %d cut to %d bytes", i, n)
		} else {
			p := vs.Choose(vs.Free, len(b), "position")
			vals := []byte{0, 1, 2, 127, 128, 254, 255}
			v := vals[vs.Choose(vs.Free, len(vals), "value")]
			b = append([]byte{}, b...)
			b[p] = v
			what = fmt.Sprintf("message %d with byte %d set to %d", i, p, v)
		}
		_ = part
		a.inject(phantom(0, 5000), b)
		vs.Settle()
		a.mustServe(what, files)
		a.mustUpload(what, known, 2, phantom(7, 6000))
		vs.Observe("%s", what)
	}
	out = append(out, explore.Scenario{Name: "mutations", Cfg: cfg, B: free, Body: bytesOf,
		Doc: "one well-formed message of each type cut at every length or with any byte set to one of 7 boundary values"})

	// replies to a daemon that waits for some
	pend := func() {
		l := newLan(1)
		a := l.nodes[0]
		known, part, files := c06state(a, 1)
		a.boot()
		c := a.start("chims")
		vs.Settle()
		id := -1
		for _, r := range l.w.Wire() {
			if len(r.Data) > 2 && r.Data[0] == 0 {
				id = u16(r.Data[1:])
			}
		}
		h.Must(id >= 0, "chims sends no discovery request")
		odd := discoverResp(id, [4]byte{1, 2, 3, 4}, 9, 1, 2, 3)
		many := make([]int, 255)
		extra := []msg{
			{"a reply with an odd list", odd, 0}, {"a reply with 255 values", discoverResp(id, [4]byte{1, 2, 3, 4}, 9, many...), 0},
			{"a reply", discoverResp(id, [4]byte{1, 2, 3, 4}, 9), 1}, {"a listing with the pending number", listResp(id, known.entry(1)), 0},
			{"a reply from an IPv6 address", discoverResp(id, [4]byte{1, 2, 3, 4}, 9), 2},
			{"a cut reply", odd[:15], 0}, {"a reply to another number", discoverResp(id+1, [4]byte{6, 6, 6, 6}, 6), 0},
		}
		menu := append(extra, hostile(known, part)...)
		var what []string
		for i := 0; i < depth; i++ {
			m := menu[vs.Choose(vs.Free, len(menu), "datagram")]
			what = append(what, m.what)
			a.throw(m)
			vs.Settle()
			a.mustLive("after %q during a discovery", what)
		}
		o, code := c.wait()
		when := fmt.Sprintf("after %q during a discovery", what)
		h.Must(code == 0 && strings.Contains(o, "IP: 10.37.91.1:61696\n"), "%s: chims prints %q", when, o)
		h.Must(!strings.Contains(o, "6.6.6.6"), "%s: chims prints the reply to another request: %q", when, o)
		a.mustServe(when, files)
		vs.Observe("%s %q", when, o)
	}
	out = append(out, explore.Scenario{Name: "during discovery", Cfg: cfg, B: free, Body: pend,
		Doc: fmt.Sprintf("every sequence of %d datagrams, including unusual replies, while the daemon waits for discovery replies", depth)})

	// a peer the daemon downloads from misbehaves
	dl := func() {
		l := newLan(1)
		a := l.nodes[0]
		known, _, files := c06state(a, 1)
		a.boot()
		f := mkfile("new.bin", 9, 2100, 1050)
		p := &peer{l: l, a: a, ip: [4]byte{10, 37, 91, 200}, f: f}
		c := a.start("get", hexs(f.k))
		ck := f.chunk(0)
		kc := sum(ck)
		big := bytes.Repeat([]byte{3}, 1024)
		menu := []msg{
			{what: "nothing", data: nil}, {what: "a type byte", data: []byte{5}}, {what: "a cut header", data: dataPkt(0, kc[:])},
			{what: "an empty header", data: dataPkt(0, nil)},
			{what: "the header", data: headerPkt(kc, len(ck), ck[:1000])},
			{what: "a header with length 0", data: headerPkt(kc, 0, nil)}, {what: "a header with length 4294967295", data: headerPkt(kc, 1<<32-1, ck[:10])},
			{what: "a header of another length", data: headerPkt(kc, len(ck)-1, ck[:10])}, {what: "a header with too much data", data: headerPkt(kc, len(ck), append(append([]byte{}, ck...), 1))[:1029]},
			{what: "the rest", data: dataPkt(1000, ck[1000:])}, {what: "the end", data: dataPkt(len(ck), nil)}, {what: "an early end", data: dataPkt(5, nil)},
			{what: "data over the end", data: dataPkt(len(ck)-5, big)}, {what: "data behind the end", data: dataPkt(len(ck)+1, big)},
			{what: "data at 4294967295", data: dataPkt(1<<32-1, big)}, {what: "data at offset 1", data: dataPkt(1, big)},
			{what: "an acknowledgement", data: ackPkt(3)}, {what: "a listing", data: listResp(0, known.entry(1))}, {what: "1500 bytes", data: append([]byte{5}, bytes.Repeat([]byte{1}, 1499)...)},
			{what: "an upload request", data: openReq(known.k, 0, 3)},
		}
		p.pump(6*time.Second, func(from vnet.Addr4) bool { return true })
		h.Must(p.opened.Port != 0, "get does not start a download from the only host; it printed %q; wire %d", c.p.Output(), l.mark())
		var what []string
		for i := 0; i < depth+1; i++ {
			m := menu[vs.Choose(vs.Free, len(menu), "datagram")]
			what = append(what, m.what)
			l.w.Inject(a.host, p.opened.Port, p.addr(), m.data)
			vs.Settle()
			a.mustLive("after %q during a download", what)
		}
		when := fmt.Sprintf("after %q during a download", what)
		vs.Sleep(6 * time.Second)
		a.mustLive("%s", when)
		s := a.onDisk(func(k hash, i int, data []byte, err error) {
			if k == f.k {
				h.Must(err == nil && bytes.Equal(data, f.chunk(i)), "%s: chunk %d of the download is present but wrong (%v)", when, i, err)
			}
		})
		got := s.entries[f.k]
		full := strings.Contains(strings.Join(what, "|"), "the header") && false
		_ = full
		a.mustServe(when, append(files, held{f, got.have}))
		vs.Observe("%s %v", when, got.have)
	}
	out = append(out, explore.Scenario{Name: "during download", Cfg: cfg, B: free, Body: dl, Weight: 2,
		Doc: fmt.Sprintf("every sequence of %d datagrams from the peer a chunk is being downloaded from", depth+1)})
	return
}

// peer is a host played by the harness: it knows one file and answers discovery and listing requests.
type peer struct {
	l      *lan
	a      *node
	ip     [4]byte
	f      file
	at     int
	chunks []int               // announced ranges; nil: all
	list   func(id int) []byte // overrides the listing
	opened vnet.Addr4          // where the last upload request came from
	chunk  int
	sends  bool // answers upload requests with the chunk
	data   []byte
	off    int
}

func (p *peer) addr() vnet.Addr4 { return vnet.Addr4{IP: p.ip, Port: port} }

// step answers what has arrived since the last step; it returns whether there was anything.
func (p *peer) step() (busy, opened bool) {
	vs.Settle()
	for _, r := range p.l.w.Since(p.at) {
		p.at++
		if r.Fate == "injected" || r.Dst.Port != port || r.Dst.IP != p.ip && r.Dst.IP != [4]byte{255, 255, 255, 255} || len(r.Data) < 3 {
			continue
		}
		switch r.Data[0] {
		case 0:
			ch := p.chunks
			if ch == nil {
				ch = []int{0, p.f.n() - 1}
			}
			if n := int(r.Data[23]); n == 2 && p.chunks == nil {
				lo, hi := u16(r.Data[24:]), u16(r.Data[26:])
				ch = []int{lo, hi}
			}
			if !bytes.Equal(r.Data[3:23], p.f.k[:]) {
				ch = nil
			}
			p.l.w.Inject(p.a.host, port, vnet.Addr4{IP: p.ip, Port: 40000}, discoverResp(u16(r.Data[1:]), p.ip, port, ch...))
			busy = true
		case 2:
			id := u16(r.Data[1:])
			b := listResp(id, p.f.entry(p.f.n()))
			if p.list != nil {
				b = p.list(id)
			}
			p.l.w.Inject(p.a.host, r.Src.Port, p.addr(), b)
			busy = true
		case 4:
			p.opened = r.Src
			p.chunk = u16(r.Data[21:])
			opened, busy = true, true
		}
	}
	return
}

// pump plays the peer for up to d of virtual time or until an upload request for which stop says so.
func (p *peer) pump(d time.Duration, stop func(from vnet.Addr4) bool) {
	end := vs.Now() + int64(d)
	for vs.Now() < end {
		if _, opened := p.step(); opened && stop(p.opened) {
			return
		}
		vs.Sleep(100 * time.Millisecond)
	}
}
