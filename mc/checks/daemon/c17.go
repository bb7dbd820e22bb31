package main

import (
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"path"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/flu-network/client/catalogue"

	"verif/mc/explore"
	"verif/mc/h"
	vnet "verif/mc/shim/net"
	"verif/mc/vs"
)

func init() {
	explore.Register(&explore.Property{ID: "C17", Scenarios: c17})
}

// item is a file as the command line shows it.
type item struct {
	title, path, sha                  string
	size, chunks, have, cs, integrity int
}

func (x item) String() string {
	return fmt.Sprintf("{%q path %q size %d sha %s chunks %d here %d of %d bytes, %d%%}", x.title, x.path, x.size, x.sha, x.chunks, x.have, x.cs, x.integrity)
}

// items parses a listing; names must not contain newlines.
func items(out string) (l []item, ok bool) {
	if out == "" {
		return nil, true
	}
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	if len(lines)%8 != 0 {
		return nil, false
	}
	for i := 0; i < len(lines); i += 8 {
		x := item{title: lines[i]}
		ok := true
		str := func(j int, pre string) string {
			s := lines[i+j]
			if !strings.HasPrefix(s, "\t"+pre) {
				ok = false
				return ""
			}
			return s[1+len(pre):]
		}
		num := func(j int, pre string) int {
			n, err := strconv.Atoi(strings.TrimSuffix(str(j, pre), "%"))
			if err != nil {
				ok = false
			}
			return n
		}
		x.path = str(1, "Path: ")
		x.size = num(2, "Size (bytes): ")
		x.sha = str(3, "Sha1 Hash: ")
		x.chunks = num(4, "Chunk Count: ")
		x.have = num(5, "Chunks Downloaded: ")
		x.cs = num(6, "Chunk Size: ")
		x.integrity = num(7, "Integrity: ")
		if !ok {
			return nil, false
		}
		l = append(l, x)
	}
	return l, true
}

// shown is a file as a listing should show it.
func shown(p string, size, chunks, have, cs int, k hash) item {
	it := 100
	if chunks > 0 {
		it = have * 100 / chunks
	}
	_, base := path.Split(p)
	return item{base, p, hex.EncodeToString(k[:]), size, chunks, have, cs, it}
}

func sameItems(a, b []item) bool {
	key := func(l []item) string {
		var s []string
		for _, x := range l {
			s = append(s, x.String())
		}
		sort.Strings(s)
		return strings.Join(s, "\n")
	}
	return len(a) == len(b) && key(a) == key(b)
}

func (n *node) mustShow(when string, want []item, args ...string) {
	o, code := n.run(args...)
	n.mustLive("%s", when)
	got, ok := items(o)
	h.Must(code == 0 && ok, "%s: %q prints %q", when, args, o)
	h.Must(sameItems(got, want), "%s: %q shows %v, not %v", when, args, got, want)
}

func c17(tier string) (out []explore.Scenario) {
	cfg := vs.Config{Serial: true, MaxSteps: 20000000}
	names := []string{"a", "sp ace.txt", "наука.bin", strings.Repeat("n", 255), strings.Repeat("ж", 127), "x\xff\xfe", "tab\there", "%s%d", "..dots", "x.tar.gz"}
	lists := func() {
		l := newLan(2)
		a, b := l.nodes[0], l.nodes[1]
		n := vs.Choose(vs.Free, 4, "files")
		var local, remote []item
		var ents []entry
		for i := 0; i < n; i++ {
			name := names[vs.Choose(vs.Free, len(names), "name")]
			sz := []int{1, 10, 25, 30}[i]
			f := mkfile(name, 10+i, sz, 10)
			m := 0
			if i == 0 {
				m = vs.Choose(vs.Free, f.n()+1, "chunks here")
			} else {
				m = vs.Choose(vs.Free, 2, "complete") * f.n()
			}
			dup := false
			for _, e := range ents {
				dup = dup || e.name == name
			}
			if dup { // equal names get another one in the downloads directory, so share these from elsewhere
				name = fmt.Sprintf("%s%d", "again", i)
				f.name = name
			}
			a.give(f, func(j int) bool { return j < m })
			local = append(local, shown(dlDir+"/"+name, sz, f.n(), m, 10, f.k))
			remote = append(remote, shown(name, sz, f.n(), m, 10, f.k))
			ents = append(ents, f.entry(m))
		}
		a.boot()
		b.boot()
		what := fmt.Sprint(ents)
		a.mustShow(what, local, "list")
		a.mustShow(what, local, "list")
		b.mustShow(what, remote, "list", "10.37.91.1")
		a.mustShow(what, remote, "list", "10.37.91.1")
		b.mustShow(what, nil, "list")
		b.mustShow(what, nil, "list", "10.37.91.2")
		for i := range remote {
			b.mustShow(what, remote[i:i+1], "list", "10.37.91.1", remote[i].sha)
			b.mustShow(what, remote[i:i+1], "list", "10.37.91.1", strings.ToUpper(remote[i].sha))
		}
		es := a.mustList(what)
		h.Must(sameEntries(es, ents), "%s is listed as %v", what, es)
		vs.Observe("%s", what)
	}
	out = append(out, explore.Scenario{Name: "contents", Cfg: cfg, B: explore.Bounds{Total: -1}, Body: lists,
		Doc: "catalogues of up to three files with ten kinds of names and any number of chunks present, listed locally and from another host, whole and by hash, and in raw datagrams"})

	// shared files and awkward numbers
	shared := func() {
		l := newLan(2)
		a, b := l.nodes[0], l.nodes[1]
		var local, remote []item
		sizes := []int{0, 1, 4194303, 4194304, 4194305}
		sz := sizes[vs.Choose(vs.Free, len(sizes), "size")]
		p := []string{"/home/u/s.bin", "/tmp/deep/er/s.bin"}[vs.Choose(vs.Free, 2, "place")]
		data := h.Pattern(7, sz)
		a.fs.Put(p, data)
		a.boot()
		b.boot()
		o, code := a.run("share", p)
		got, ok := items(o)
		h.Must(code == 0 && ok && len(got) == 1, "share of %d bytes prints %q", sz, o)
		cs := got[0].cs
		h.Must(cs > 0, "share of %d bytes reports chunks of %d bytes", sz, cs)
		n := (sz + cs - 1) / cs
		x := shown(p, sz, n, n, cs, sum(data))
		h.Must(sameItems(got, []item{x}), "share of %d bytes prints %v, not %v", sz, got, x)
		local = append(local, x)
		remote = append(remote, shown(path.Base(p), sz, n, n, cs, sum(data)))
		// and downloads of unusual dimensions
		big := []struct{ size, cs int }{{1 << 40, 1 << 30}, {65536, 1}, {5, 1<<32 - 1}, {0, 9}}
		a.p.Kill("restart")
		a.prep(func(c *catalogue.Cat) {
			for i, d := range big {
				k := sum([]byte{byte(i)})
				cnt := (d.size + d.cs - 1) / d.cs
				name := fmt.Sprintf("big%d", i)
				_, err := c.RegisterDownload(uint64(d.size), uint32(cnt), uint32(d.cs), hp(k), name)
				h.Must(err == nil, "registering: %v", err)
				local = append(local, shown(dlDir+"/"+name, d.size, cnt, 0, d.cs, k))
				remote = append(remote, shown(name, d.size, cnt, 0, d.cs, k))
			}
		})
		a.boot()
		what := fmt.Sprintf("a shared file of %d bytes and some downloads", sz)
		a.mustShow(what, local, "list")
		b.mustShow(what, remote, "list", "10.37.91.1")
		vs.Observe("%s %s", what, p)
	}
	out = append(out, explore.Scenario{Name: "dimensions", Cfg: cfg, B: explore.Bounds{Total: -1}, Body: shared,
		Doc: "shared files of sizes around nothing and the chunk size in two places, together with downloads of huge and unusual dimensions"})

	// the state of a file cannot be read any more: no listing may quietly leave files out
	unreadable := func() {
		l := newLan(2)
		a, b := l.nodes[0], l.nodes[1]
		n := 1 + vs.Choose(vs.Free, 3, "files")
		var local, remote []item
		var fs []file
		for i := 0; i < n; i++ {
			f := mkfile(fmt.Sprintf("f%d", i), i, 25+i, 10)
			a.give(f, nil)
			fs = append(fs, f)
			local = append(local, shown(dlDir+"/"+f.name, 25+i, 3, 3, 10, f.k))
			remote = append(remote, shown(f.name, 25+i, 3, 3, 10, f.k))
		}
		victim := vs.Choose(vs.Free, n, "victim")
		how := vs.Choose(vs.Free, 5, "damage")
		running := vs.Choose(vs.Free, 2, "daemon") == 1
		damage := func() {
			var p string
			for q := range a.fs.Snapshot() {
				if strings.HasPrefix(q, catDir) && strings.Contains(q, hexs(fs[victim].k)) {
					h.Must(p == "", "which is the progress file of %s: %s or %s?", hexs(fs[victim].k), p, q)
					p = q
				}
			}
			h.Must(p != "", "no file in %v is named after %s", a.fs.Snapshot(), hexs(fs[victim].k))
			old, _ := a.fs.Get(p)
			switch how {
			case 0:
				a.fs.Del(p)
			case 1:
				a.fs.Put(p, nil)
			case 2:
				a.fs.Put(p, old[:len(old)-1])
			case 3:
				a.fs.Del(p)
				a.fs.PutDir(p)
			case 4:
				a.fs.Put(p, append(append([]byte{}, old...), 0))
			}
		}
		if running {
			a.boot()
			a.mustShow("before", local, "list")
			damage()
		} else {
			damage()
			a.boot()
		}
		b.boot()
		what := fmt.Sprintf("the state of file %d of %d is damaged (%d, daemon running: %v)", victim, n, how, running)
		check := func(n *node, want []item, args ...string) {
			o, _ := n.run(args...)
			got, ok := items(o)
			h.Must(ok && sameItems(got, want) || !ok && strings.TrimSpace(o) != "", "%s: %q prints %q, which is neither everything nor an error", what, args, o)
			n.mustLive("%s", what)
		}
		for i := 0; i < 2; i++ {
			check(a, local, "list")
			check(b, remote, "list", "10.37.91.1")
			check(a, remote, "list", "10.37.91.1")
			for j := range remote {
				check(b, remote[j:j+1], "list", "10.37.91.1", remote[j].sha)
			}
		}
		a.mustLive("%s", what)
		vs.Observe("%s", what)
	}
	out = append(out, explore.Scenario{Name: "damaged state", Cfg: cfg, B: explore.Bounds{Total: -1}, Body: unreadable,
		Doc: "the progress file of one of up to three files is missing, empty, cut, longer or a directory, since before the daemon started or later: listings are complete or report an error"})

	// long listings
	counts := []int{20, 22, 24, 25, 200, 219, 223, 300}
	if tier == "thorough" {
		counts = append(counts, 23, 26, 218, 220, 221, 222, 224, 1000, 1500)
	}
	long := func() {
		cnt := counts[vs.Choose(vs.Free, len(counts), "files")]
		nl := []int{5, 255}[vs.Choose(vs.Free, 2, "name length")]
		l := newLan(2)
		a, b := l.nodes[0], l.nodes[1]
		var remote []item
		a.prep(func(c *catalogue.Cat) {
			for i := 0; i < cnt; i++ {
				k := sum([]byte{byte(i), byte(i >> 8), 7})
				name := fmt.Sprintf("%0*d", nl, i)
				_, err := c.RegisterDownload(100, 10, 10, hp(k), name)
				h.Must(err == nil, "registering: %v", err)
				remote = append(remote, shown(name, 100, 10, 0, 10, k))
			}
		})
		a.boot()
		b.boot()
		what := fmt.Sprintf("%d files with names of %d bytes", cnt, nl)
		o, code := b.run("list", "10.37.91.1")
		got, ok := items(o)
		if 5+cnt*(41+nl) <= 65507 {
			h.Must(code == 0 && ok && sameItems(got, remote), "%s: list shows %d entries: %.200q", what, len(got), o)
		} else { // it does not fit into a datagram
			h.Must(!ok && o != "", "%s: list shows %d entries instead of an error: %.200q", what, len(got), o)
		}
		lo, code := a.run("list")
		got, ok = items(lo)
		h.Must(code == 0 && ok && len(got) == cnt, "%s: the local list shows %d entries", what, len(got))
		a.mustLive("%s", what)
		b.mustLive("%s", what)
		vs.Observe("%s", what)
	}
	out = append(out, explore.Scenario{Name: "long", Cfg: cfg, B: explore.Bounds{Total: -1}, Body: long,
		Doc: fmt.Sprintf("catalogues of %v files with short and with longest names: everything is listed, or an error if it exceeds a datagram", counts)})

	// files that look alike
	alike := func() {
		l := newLan(2)
		a, b := l.nodes[0], l.nodes[1]
		var local, remote []item
		k1 := blank // nearly blank hashes
		k1[vs.Choose(vs.Free, 20, "byte")] ^= 1 << vs.Choose(vs.Free, 8, "bit")
		k2 := k1
		k2[19] ^= 0x40
		if k2 == blank {
			k2[0] ^= 1
		}
		a.prep(func(c *catalogue.Cat) {
			for i, k := range []hash{k1, k2} {
				_, err := c.RegisterDownload(25, 3, 10, hp(k), "same.bin")
				h.Must(err == nil, "registering: %v", err)
				for j := 0; j <= i; j++ {
					err := c.SaveChunk(hp(k), uint16(j), make([]byte, 10))
					h.Must(err == nil, "saving: %v", err)
				}
			}
			fs, err := c.ListFiles()
			h.Must(err == nil && len(fs) == 2, "listing: %v", err)
			for _, f := range fs { // the second has got another name
				have := f.Progress.Count()
				x := shown(f.FilePath, 25, 3, have, 10, f.Sha1Hash.Data)
				local = append(local, x)
				x.path = x.title
				remote = append(remote, x)
			}
		})
		for i, p := range []string{"/home/u/x/same.bin", "/home/u/y/same.bin", "/home/u/same.bin"} {
			data := h.Pattern(7, 20+i/2) // the first two have one size
			data[3] = byte(i)
			a.fs.Put(p, data)
			x := shown(p, len(data), 1, 1, 0, sum(data))
			local = append(local, x)
			x.path = x.title
			remote = append(remote, x)
		}
		a.boot()
		b.boot()
		for i := 2; i < 5; i++ {
			o, _ := a.run("share", local[i].path)
			got, ok := items(o)
			h.Must(ok && len(got) == 1 && got[0].cs > 0, "share prints %q", o)
			local[i].cs, remote[i].cs = got[0].cs, got[0].cs
		}
		what := fmt.Sprintf("files of similar names and hashes %x", k1)
		a.mustShow(what, local, "list")
		b.mustShow(what, remote, "list", "10.37.91.1")
		for i := range remote {
			b.mustShow(what, remote[i:i+1], "list", "10.37.91.1", remote[i].sha)
		}
		vs.Observe("%x", k1)
	}
	out = append(out, explore.Scenario{Name: "alike", Cfg: cfg, B: explore.Bounds{Total: -1}, Body: alike,
		Doc: "two downloads with one name and hashes that differ from the blank one and each other in one of 160 bits, and three shared files with one name, of which two have one size"})

	// chunk counts as large as they can be
	most := func() {
		n := []int{255, 256, 257, 65534, 65535, 65536}[vs.Choose(vs.Free, 6, "chunks")]
		miss := vs.Choose(vs.Free, 2, "missing")
		l := newLan(2)
		a, b := l.nodes[0], l.nodes[1]
		k := sum([]byte("most"))
		a.prep(func(c *catalogue.Cat) {
			_, err := c.RegisterDownload(uint64(n), uint32(n), 1, hp(k), "most.bin")
			h.Must(err == nil, "registering: %v", err)
			for i := 0; i < n-miss; i++ {
				err := c.SaveChunk(hp(k), uint16(i), []byte{byte(i)})
				h.Must(err == nil, "saving: %v", err)
			}
		})
		a.boot()
		b.boot()
		what := fmt.Sprintf("a file with %d of %d chunks", n-miss, n)
		a.mustShow(what, []item{shown(dlDir+"/most.bin", n, n, n-miss, 1, k)}, "list")
		b.mustShow(what, []item{shown("most.bin", n, n, n-miss, 1, k)}, "list", "10.37.91.1")
		vs.Observe("%s", what)
	}
	out = append(out, explore.Scenario{Name: "most chunks", Cfg: cfg, B: explore.Bounds{Total: -1}, Body: most,
		Doc: "files of 255 to 65536 chunks, all held or all but one"})

	// files larger than 32 bits can say
	huge := func() {
		sizes := []int{1<<31 - 1, 1<<31 + 1}
		if tier == "thorough" {
			sizes = append(sizes, 1<<32-1, 1<<32+1)
		}
		sz := sizes[vs.Choose(vs.Free, len(sizes), "size")]
		l := newLan(2)
		a, b := l.nodes[0], l.nodes[1]
		p := home + "/huge.bin"
		a.fs.Put(p, []byte("beginning"))
		a.fs.Grow(p, int64(sz))
		a.boot()
		b.boot()
		o, code := a.run("share", p)
		got, ok := items(o)
		h.Must(ok && code == 0 && len(got) == 1, "sharing %d bytes prints %q", sz, o)
		n := (sz + got[0].cs - 1) / got[0].cs
		s := sha1.New()
		s.Write([]byte("beginning"))
		zero := make([]byte, 1<<16)
		for left := sz - 9; left > 0; {
			k := min(left, len(zero))
			s.Write(zero[:k])
			left -= k
		}
		x := shown(p, sz, n, n, got[0].cs, hash(s.Sum(nil)))
		what := fmt.Sprintf("a shared file of %d bytes", sz)
		h.Must(sameItems(got, []item{x}), "%s is shown as %v", what, got)
		a.mustShow(what, []item{x}, "list")
		x.path = "huge.bin"
		b.mustShow(what, []item{x}, "list", "10.37.91.1")
		vs.Observe("%s", what)
	}
	out = append(out, explore.Scenario{Name: "huge", Cfg: vs.Config{Serial: true, MaxSteps: 2000000000, NoPoints: true}, B: explore.Bounds{Total: -1}, Body: huge,
		Doc: "shared files of 2 GiB and, thoroughly, 4 GiB, less and more a byte"})

	// answers that take their time
	slow := func() {
		l := newLan(1)
		a := l.nodes[0]
		f := mkfile("f", 1, 25, 10)
		a.boot()
		at := l.mark()
		d := []time.Duration{time.Millisecond, 100 * time.Millisecond, 400 * time.Millisecond, 700 * time.Millisecond, time.Second}[vs.Choose(vs.Free, 5, "delay")]
		again := vs.Choose(vs.Free, 2, "requests") == 1
		c := a.start("list", "10.37.91.200")
		vs.Settle()
		ph := vnet.Addr4{IP: [4]byte{10, 37, 91, 200}, Port: port}
		vs.Sleep(d)
		reqs := to(l.w, at, ph)
		h.Must(len(reqs) >= 1 && reqs[0].Data[0] == 2, "list sends %d datagrams", len(reqs))
		if !again {
			reqs = reqs[:1]
		}
		for _, r := range reqs {
			l.w.Inject(a.host, r.Src.Port, ph, listResp(u16(r.Data[1:]), f.entry(2)))
		}
		o, code := c.wait()
		its, ok := items(o)
		h.Must(code == 0 && ok && sameItems(its, []item{shown("f", 25, 3, 2, 10, f.k)}), "an answer after %v: list prints %q", d, o)
		a.mustServe("after an answer", nil)
		vs.Observe("%v", d)
	}
	out = append(out, explore.Scenario{Name: "slow answers", Cfg: cfg, B: explore.Bounds{Total: -1}, Body: slow,
		Doc: "answers that arrive up to a second after the request are shown"})

	// several listings at once
	several := func() {
		vs.Serialize(true)
		l := newLan(2)
		a, b := l.nodes[0], l.nodes[1]
		fa, fb := mkfile("fa", 1, 25, 10), mkfile("fb", 2, 42, 10)
		a.give(fa, func(i int) bool { return i != 1 })
		b.give(fb, nil)
		ia, ib := shown("fa", 25, 3, 2, 10, fa.k), shown("fb", 42, 5, 5, 10, fb.k)
		la := ia
		la.path = dlDir + "/fa"
		a.boot()
		b.boot()
		asks := []struct {
			args []string
			want []item
		}{{[]string{"list", "10.37.91.1"}, []item{ia}}, {[]string{"list", "10.37.91.2"}, []item{ib}}, {[]string{"list", "10.37.91.2", hexs(fb.k)}, []item{ib}}, {[]string{"list", "10.37.91.2", hexs(fa.k)}, nil}, {[]string{"list"}, []item{la}}}
		i := vs.Choose(vs.Free, len(asks), "first")
		j := vs.Choose(vs.Free, len(asks), "second")
		if i > j {
			return
		}
		vs.Serialize(false)
		c1, c2 := a.start(asks[i].args...), a.start(asks[j].args...)
		vs.Settle()
		vs.Serialize(true)
		for m, c := range []*cmd{c1, c2} {
			o, _ := c.wait()
			q := asks[[]int{i, j}[m]]
			got, ok := items(o)
			if q.want == nil {
				h.Must(!ok && strings.TrimSpace(o) != "", "%v and %v at once: %v prints %q", c1, c2, c, o)
			} else {
				h.Must(ok && sameItems(got, q.want), "%v and %v at once: %v prints %q, not %v", c1, c2, c, o, q.want)
			}
		}
		h.Must(sameEntries(a.mustList("after two listings"), []entry{fa.entry(2)}) && sameEntries(b.mustList("after two listings"), []entry{fb.entry(5)}), "after two listings the daemons list other files")
		vs.Observe("%d %d", i, j)
	}
	sp := 1
	if tier == "thorough" {
		sp = 2
	}
	out = append(out, explore.Scenario{Name: "several at once", Cfg: vs.Config{NetPoints: true, MaxSteps: 1000000}, B: explore.Bounds{Sched: sp, Switch: 2, Total: sp + 1}, Body: several,
		Doc: fmt.Sprintf("two of five listings, local and remote, at once, every schedule with up to %d preemptions", sp)})

	// a listing that cannot be obtained
	faults := func() {
		vs.Serialize(true)
		l := newLan(2)
		a, b := l.nodes[0], l.nodes[1]
		f := mkfile("f", 1, 25, 10)
		a.give(f, func(i int) bool { return i != 1 })
		b.give(mkfile("own", 2, 25, 10), nil)
		want := []item{shown("f", 25, 3, 2, 10, f.k)}
		situation := vs.Choose(vs.Free, 5, "situation") // normal, no daemon, no host, requester offline, peer offline
		a.boot()
		b.boot()
		what := []string{"a listing", "a listing from a host without daemon", "a listing from an absent host", "a listing without network", "a listing from an unreachable host"}[situation]
		target := "10.37.91.1"
		switch situation {
		case 1:
			a.p.Kill("stopped")
		case 2:
			target = "10.37.91.77"
		case 3:
			l.w.SetOffline(b.host, true)
		case 4:
			l.w.SetOffline(a.host, true)
		}
		args := []string{"list", target}
		byHash := vs.Choose(vs.Free, 3, "by hash")
		if byHash > 0 {
			k := f.k
			if byHash == 2 {
				k = sum([]byte("unknown"))
				what += " of an unknown file"
			}
			args = append(args, hexs(k))
		}
		l.w.SetFaults(vnet.Faults{Drop: true, Dup: true, Late: true, VeryLate: true})
		t0 := vs.Now()
		o, code := b.run(args...)
		took := time.Duration(vs.Now() - t0)
		l.w.SetFaults(vnet.Faults{})
		h.Must(took <= 4*time.Second, "%s took %v", what, took)
		got, ok := items(o)
		if situation == 0 && byHash != 2 && ok && len(got) > 0 {
			h.Must(code == 0 && sameItems(got, want), "%s shows %v, not %v", what, got, want)
		} else {
			h.Must(!ok && strings.TrimSpace(o) != "", "%s prints %q instead of an error", what, o)
		}
		// nothing is wrong afterwards
		l.w.SetOffline(a.host, false)
		l.w.SetOffline(b.host, false)
		if situation == 1 {
			a.boot()
		}
		b.mustShow("after "+what, want, "list", "10.37.91.1")
		vs.Sleep(10 * time.Second)
		vs.Observe("%s %v %v", what, ok, took > time.Second)
	}
	k := 2
	if tier == "thorough" {
		k = 4
	}
	out = append(out, explore.Scenario{Name: "failures", Cfg: vs.Config{Serial: true, MaxSteps: 1000000}, B: explore.Bounds{Fault: k, Total: k}, Body: faults,
		Doc: "listing a host that is there, has no daemon, does not exist or cannot be reached, a known or unknown file, with lost, duplicated and late datagrams"})

	// wrong answers
	wrong := func() {
		l := newLan(1)
		a := l.nodes[0]
		f := mkfile("f", 1, 25, 10)
		a.boot()
		at := l.mark()
		c := a.start("list", "10.37.91.200")
		vs.Settle()
		ph := vnet.Addr4{IP: [4]byte{10, 37, 91, 200}, Port: port}
		got := to(l.w, at, ph)
		h.Must(len(got) == 1 && got[0].Data[0] == 2, "list sends %d datagrams", len(got))
		id := u16(got[0].Data[1:])
		e := f.entry(2)
		good := listResp(id, e)
		two := listResp(id, e, entry{size: 7, n: 1, cs: 7, have: 1, k: sum([]byte("2")), name: ""})
		answers := []struct {
			b  []byte
			ok bool
		}{{good, true}, {two, true}, {listResp(id), true}, {listResp(id+1, e), false}, {listResp(id+256, e), false}, {good[:len(good)-1], false}, {good[:5], false}, {nil, false},
			{[]byte{3}, false}, {discoverResp(id, a.ip(), port), false}, {discoverReq(id, f.k), false}, {listReq(id, f.k), false}, {openReq(f.k, 0, 1), false}, {dataPkt(0, good), false}, {ackPkt(0), false},
			{[]byte{99, 1, 2}, false}, {put16([]byte{3}, id, 65535), false}, {make([]byte, 65507), false}}
		i := vs.Choose(vs.Free, len(answers), "answer")
		src := ph
		stranger := vs.Choose(vs.Free, 2, "sender") == 1
		if stranger {
			src.Port++
		}
		l.w.Inject(a.host, got[0].Src.Port, src, answers[i].b)
		o, _ := c.wait()
		what := fmt.Sprintf("answer %d (% x)", i, head(answers[i].b))
		its, ok := items(o)
		if answers[i].ok && !stranger {
			want := []item{shown("f", 25, 3, 2, 10, f.k), shown("", 7, 1, 1, 7, sum([]byte("2")))}
			want = want[:[]int{1, 2, 0}[i]]
			h.Must(ok && sameItems(its, want), "%s: list prints %q", what, o)
		} else {
			h.Must(!ok, "%s: list prints %q instead of an error", what, o)
		}
		a.mustServe(what, nil)
		vs.Observe("%s %v", what, stranger)
	}
	out = append(out, explore.Scenario{Name: "answers", Cfg: cfg, B: explore.Bounds{Total: -1}, Body: wrong,
		Doc: "right, wrong, cut and foreign answers to a listing request"})
	return
}

func head(b []byte) []byte {
	if len(b) > 24 {
		return b[:24]
	}
	return b
}
