package main

import (
	"bytes"
	"fmt"
	"path"
	"strings"
	"time"

	"verif/mc/explore"
	"verif/mc/h"
	"verif/mc/vs"
)

func init() {
	explore.Register(&explore.Property{ID: "C21", Scenarios: c21})
}

// play runs several peers for d of virtual time.
func play(d time.Duration, ps ...*peer) {
	end := vs.Now() + int64(d)
	for vs.Now() < end {
		for _, p := range ps {
			if _, opened := p.step(); opened && p.sends {
				p.send()
			}
		}
		vs.Sleep(200 * time.Millisecond)
	}
}

// send answers the last upload request with the whole chunk.
func (p *peer) send() {
	if p.chunk >= p.f.n() && p.data == nil {
		return
	}
	data := p.data
	if data == nil {
		data = p.f.chunk(p.chunk)
	}
	claim := len(data) + p.off
	first := data
	if len(first) > 1000 {
		first = first[:1000]
	}
	in := func(b []byte) {
		p.l.w.Inject(p.a.host, p.opened.Port, p.addr(), b)
		vs.Settle()
	}
	in(headerPkt(sum(data), claim, first))
	for at := len(first); at < len(data); at += 1024 {
		e := at + 1024
		if e > len(data) {
			e = len(data)
		}
		in(dataPkt(at, data[at:e]))
	}
	in(dataPkt(len(data), nil))
}

// contained checks what the daemon wrote since the snapshot.
func (n *node) contained(when string, before map[string]string, log int) {
	for _, op := range n.fs.Log[log:] {
		ok := path.Dir(op.Path) == dlDir || op.Path == dlDir || strings.HasPrefix(op.Path, catDir+"/")
		if op.Kind == "mkdir" {
			ok = ok || strings.HasPrefix(dlDir, op.Path)
		}
		h.Must(ok, "%s: the daemon does %s on %s", when, op.Kind, op.Path)
	}
	after := n.fs.Snapshot()
	for p, c := range before {
		if !strings.HasPrefix(p, catDir) {
			h.Must(after[p] == c, "%s: %s, which was there before, is changed", when, p)
		}
	}
	for p, c := range after {
		if _, was := before[p]; !was && !strings.HasPrefix(p, catDir) {
			h.Must((path.Dir(p) == dlDir) != (c == "<dir>") && (path.Dir(p) == dlDir || strings.HasPrefix(dlDir, p)), "%s: %s (%.20q) is new", when, p, c)
		}
	}
}

func c21(tier string) (out []explore.Scenario) {
	cfg := vs.Config{Serial: true, MaxSteps: 5000000}
	f1 := mkfile("", 21, 50, 20)
	f2 := mkfile("", 22, 35, 20)
	mine := mkfile("mine.txt", 23, 30, 20)
	old := mkfile("old.bin", 24, 60, 20)
	names := []string{"new.bin", "old.bin", "taken.bin", "dir", "mine.txt", "../../docs/mine.txt", "/home/u/docs/mine.txt", "..", ".", "", "/", "//", "a/b/c", "../x", "x/..", "x/../..", "a\x00b", "\x00",
		strings.Repeat("x", 255), strings.Repeat("y", 250) + "/../z", "../catalogue/index.json", "index.json", "taken.bin/", "dir/x", hexs(f1.k), hexs(f2.k), hexs(f1.k) + "-1", hexs(f2.k) + "-1", "new.bin\n", " ", "\xff\xfe", "..\\..\\x", "NEW.BIN", "-rf", "*",
		"to nowhere", "to mine.txt", "to docs", "to itself"}
	setup := func() (*lan, *node) {
		l := newLan(1)
		a := l.nodes[0]
		a.give(old, func(i int) bool { return i == 1 })
		a.fs.Put(home+"/docs/mine.txt", mine.data)
		a.fs.Put(dlDir+"/taken.bin", []byte("not indexed"))
		a.fs.PutDir(dlDir + "/dir")
		a.fs.Put(dlDir+"/dir/x", []byte("in a directory"))
		a.fs.PutDir(home + "/outside")
		a.fs.PutLink(dlDir+"/to nowhere", home+"/outside/new")
		a.fs.PutLink(dlDir+"/to mine.txt", home+"/docs/mine.txt")
		a.fs.PutLink(dlDir+"/to docs", "../docs")
		a.fs.PutLink(dlDir+"/to itself", "to itself")
		a.boot()
		o, code := a.run("share", home+"/docs/mine.txt")
		h.Must(code == 0, "sharing prints %q", o)
		return l, a
	}
	// others checks that the entries that were there are still as they were, and that new ones are kept apart
	others := func(a *node, when string, news ...file) (complete int) {
		s := a.onDisk(func(k hash, i int, data []byte, err error) {
			for _, f := range append([]file{old}, news...) {
				if f.k == k {
					h.Must(err == nil && bytes.Equal(data, f.chunk(i)), "%s: chunk %d of %x is not what the peer sent (%v)", when, i, k[:3], err)
				}
			}
		})
		paths := map[string]bool{}
		for k, e := range s.entries {
			h.Must(!paths[e.path], "%s: two files are at %s: %v", when, e.path, s)
			paths[e.path] = true
			switch k {
			case mine.k:
				h.Must(e.path == home+"/docs/mine.txt" && e.full() && e.size == len(mine.data), "%s: the shared file is now %v", when, s)
			case old.k:
				h.Must(e.path == dlDir+"/old.bin" && fmt.Sprint(e.have) == "[false true false]" && e.size == 60 && e.cs == 20, "%s: the old download is now %v", when, s)
			default:
				h.Must(path.Dir(e.path) == dlDir, "%s: a download is at %s", when, e.path)
				for _, f := range news {
					if f.k == k && e.full() {
						data, ok := a.fs.Get(e.path)
						h.Must(ok && bytes.Equal(data, f.data), "%s: the download at %s is complete but not what the peer sent", when, e.path)
						complete++
					}
				}
			}
		}
		_, m := s.entries[mine.k]
		_, o := s.entries[old.k]
		h.Must(m && o, "%s: an entry has gone: %v", when, s)
		return
	}
	pairs := func(live bool) func() {
		return func() {
			vs.Serialize(true)
			l, a := setup()
			n1 := names[vs.Choose(vs.Free, len(names), "first name")]
			n2 := n1
			if !live {
				n2 = names[vs.Choose(vs.Free, len(names), "second name")]
			}
			g1, g2 := f1, f2
			g1.name, g2.name = n1, n2
			p1 := &peer{l: l, a: a, ip: [4]byte{10, 37, 91, 200}, f: g1, sends: true}
			p2 := &peer{l: l, a: a, ip: [4]byte{10, 37, 91, 201}, f: g2, sends: true}
			p1.at, p2.at = l.mark(), l.mark()
			before, log := a.fs.Snapshot(), len(a.fs.Log)
			when := fmt.Sprintf("downloads called %q and %q", n1, n2)
			var c1, c2 *cmd
			if live {
				vs.Serialize(false)
				c1, c2 = a.start("get", hexs(f1.k)), a.start("get", hexs(f2.k))
				play(5*time.Second, p1, p2)
				vs.Serialize(true)
				play(12*time.Second, p1, p2)
			} else {
				c1 = a.start("get", hexs(f1.k))
				play(4*time.Second, p1)
				c2 = a.start("get", hexs(f2.k))
				play(14*time.Second, p1, p2)
			}
			c1.wait()
			c2.wait()
			a.mustLive("%s", when)
			a.contained(when, before, log)
			done := others(a, when, g1, g2)
			if n1 == "new.bin" && (n2 == "x/.." || n2 == n1 || n2 == "NEW.BIN") {
				h.Must(done == 2, "%s: only %d complete", when, done)
			}
			// once more after a restart: nothing has been mixed up
			a.p.Kill("restart")
			a.boot()
			others(a, when+", restarted", g1, g2)
			vs.Observe("%s %d", when, done)
		}
	}
	out = append(out, explore.Scenario{Name: "names", Cfg: cfg, B: explore.Bounds{Total: -1}, Body: pairs(false),
		Doc: fmt.Sprintf("two downloads announced under every pair of %d names (traversal, absolute, empty, dots, NUL, longest, taken by files, directories, symbolic links and other entries); every file-system call is monitored", len(names))})
	pre := 1
	if tier == "thorough" {
		pre = 2
	}
	all := names
	out = append(out, explore.Scenario{Name: "same name at once", Cfg: vs.Config{MaxSteps: 5000000}, B: explore.Bounds{Sched: pre, Switch: pre, Total: pre}, Body: func() {
		names = all[:1]
		if tier == "thorough" {
			names = []string{"new.bin", "", "old.bin"}
		}
		defer func() { names = all }()
		pairs(true)()
	}, Doc: fmt.Sprintf("two downloads of the same name requested at once, every schedule with up to %d deviations", pre)})

	// whatever other paths a download uses while it runs, it does not take them from the user
	helpers := func() {
		g := f1
		g.name = []string{"new.bin", "x", strings.Repeat("l", 250), ".", "taken.bin", "old.bin", "a b.tar.gz"}[vs.Choose(vs.Free, 7, "name")]
		restart := vs.Choose(vs.Free, 2, "restart between the chunks") == 1
		inWay := map[string]bool{}
		for round := 0; round < 3; round++ {
			l, a := setup()
			for p := range inWay {
				a.fs.Put(p, []byte("of the user: "+p))
			}
			p := &peer{l: l, a: a, ip: [4]byte{10, 37, 91, 200}, f: g, sends: true, at: l.mark()}
			if restart {
				p.chunks = []int{0, 0}
			}
			before, log := a.fs.Snapshot(), len(a.fs.Log)
			when := fmt.Sprintf("a download called %.40q with %d files in the way", g.name, len(inWay))
			c := a.start("get", hexs(f1.k))
			play(12*time.Second, p)
			c.wait()
			touched := a.fs.Log[log:]
			if restart {
				a.contained(when, before, log)
				a.p.Kill("restart")
				a.boot()
				log = len(a.fs.Log)
				p.chunks = nil
				c := a.start("get", hexs(f1.k))
				play(12*time.Second, p)
				c.wait()
			}
			a.mustLive("%s", when)
			a.contained(when, before, log)
			done := others(a, when, g)
			h.Must(done == 1, "%s: it does not complete", when)
			own := a.onDisk(nil).entries[f1.k].path
			more := false
			for _, op := range append(touched[:len(touched):len(touched)], a.fs.Log[log:]...) {
				if path.Dir(op.Path) == dlDir && op.Path != own && op.Kind != "mkdir" && !inWay[op.Path] {
					inWay[op.Path], more = true, true
				}
			}
			for p, c := range a.fs.Snapshot() {
				_, was := before[p]
				h.Must(was || p == own || strings.HasPrefix(p, catDir), "%s: %s is left behind (%d bytes)", when, p, len(c))
			}
			vs.Observe("%s %v %d", when, restart, len(inWay))
			if !more {
				break
			}
		}
	}
	out = append(out, explore.Scenario{Name: "files in the way", Cfg: cfg, B: explore.Bounds{Total: -1}, Body: helpers,
		Doc: "downloads of 7 names, with a restart or not; every path other than its own that a download touches is then occupied by a user's file in a new run, which must stay as it is"})

	// the first download of all
	first := func() {
		l := newLan(1)
		a := l.nodes[0]
		a.fs.Put(home+"/docs/mine.txt", mine.data)
		a.boot()
		g := f1
		g.name = names[vs.Choose(vs.Free, len(names), "name")]
		p := &peer{l: l, a: a, ip: [4]byte{10, 37, 91, 200}, f: g, sends: true, at: l.mark()}
		before, log := a.fs.Snapshot(), len(a.fs.Log)
		_, was := before[dlDir]
		when := fmt.Sprintf("a first download called %q", g.name)
		c := a.start("get", hexs(f1.k))
		play(12*time.Second, p)
		c.wait()
		a.mustLive("%s", when)
		a.contained(when, before, log)
		for k, e := range a.onDisk(nil).entries {
			h.Must(k == g.k && path.Dir(e.path) == dlDir, "%s: there is an entry for %s", when, e.path)
			data, _ := a.fs.Get(e.path)
			h.Must(!e.full() || bytes.Equal(data, f1.data), "%s: the download at %s is complete but not what the peer sent", when, e.path)
			if g.name == "new.bin" {
				h.Must(e.full(), "%s: it does not complete", when)
			}
		}
		vs.Observe("%s %v", when, was)
	}
	out = append(out, explore.Scenario{Name: "first download", Cfg: cfg, B: explore.Bounds{Total: -1}, Body: first,
		Doc: fmt.Sprintf("a download announced under each of the %d names on a host that has not downloaded anything before", len(names))})

	// folders that are elsewhere
	linkedDirs := func() {
		l := newLan(1)
		a := l.nodes[0]
		where := []string{dlDir, path.Dir(dlDir), home}
		from := where[vs.Choose(vs.Free, len(where), "linked folder")]
		to := []string{"/disk/far", "/disk"}[vs.Choose(vs.Free, 2, "to")]
		there := vs.Choose(vs.Free, 2, "exists") == 1
		if there {
			a.fs.PutDir(to)
		}
		a.fs.PutDir("/disk")
		a.fs.PutLink(from, to)
		a.fs.Put("/else/mine.txt", mine.data)
		there = there || to == "/disk"
		when := fmt.Sprintf("%s is a link to %s, which exists: %v", from, to, there)
		if !there && from != dlDir {
			vs.Stop() // no daemon can start
		}
		a.boot()
		g := f1
		g.name = names[vs.Choose(vs.Free, len(names), "name")]
		p := &peer{l: l, a: a, ip: [4]byte{10, 37, 91, 200}, f: g, sends: true, at: l.mark()}
		before, log := a.fs.Snapshot(), len(a.fs.Log)
		c := a.start("get", hexs(f1.k))
		play(12*time.Second, p)
		c.wait()
		a.mustLive("%s", when)
		did := a.fs.Log[log:len(a.fs.Log):len(a.fs.Log)]
		a.p.Kill("restart")
		a.boot()
		a.mustLive("%s, restarted", when)
		done := 0
		dl := to + dlDir[len(from):]
		for k, e := range a.onDisk(nil).entries {
			h.Must(k == g.k && path.Dir(e.path) == dlDir, "%s: there is an entry for %s", when, e.path)
			data, _ := a.fs.Get(e.path)
			h.Must(!e.full() || bytes.Equal(data, f1.data), "%s: the download at %s is complete but not what the peer sent", when, e.path)
			if e.full() {
				done++
			}
		}
		for _, op := range did {
			cat := from != dlDir && strings.HasPrefix(op.Path, to+catDir[len(from):]) || strings.HasPrefix(op.Path, catDir+"/")
			h.Must(cat || path.Dir(op.Path) == dl || op.Kind == "mkdir" && strings.HasPrefix(dl, op.Path), "%s: the daemon does %s on %s", when, op.Kind, op.Path)
		}
		for p, c := range before {
			now, ok := a.fs.Snapshot()[p]
			h.Must(ok && now == c || strings.Contains(p, "/catalogue/"), "%s: %s, which was there before, is changed", when, p)
		}
		if g.name == "new.bin" && there {
			h.Must(done == 1, "%s: the download does not complete", when)
		}
		vs.Observe("%s %d", when, done)
	}
	out = append(out, explore.Scenario{Name: "linked folders", Cfg: cfg, B: explore.Bounds{Total: -1}, Body: linkedDirs,
		Doc: fmt.Sprintf("a download under each of the %d names where the downloads folder, the program's folder or the home folder is a symbolic link to a folder elsewhere, which is there or not, and a restart", len(names))})

	// announced dimensions and data
	dims := func() {
		l, a := setup()
		g := f1
		g.name = "new.bin"
		p := &peer{l: l, a: a, ip: [4]byte{10, 37, 91, 200}, f: g, sends: true, at: l.mark()}
		sizes := []int{50, 0, 1, 49, 60, 1 << 40, -1 << 63, -1}
		css := []int{20, 0, 1, 19, 50, 1 << 20, 1<<32 - 1}
		cnts := []int{3, 0, 1, 65535, 65536, 1<<32 - 1}
		e := g.entry(3)
		e.size = sizes[vs.Choose(vs.Free, len(sizes), "size")]
		e.cs = css[vs.Choose(vs.Free, len(css), "chunk size")]
		e.n = cnts[vs.Choose(vs.Free, len(cnts), "chunk count")]
		p.list = func(id int) []byte { return listResp(id, e) }
		ranges := [][]int{nil, {0, 65535}, {65535, 65535}, {2, 0}, {1}, {0, 0, 7}, {3, 3}}
		r := vs.Choose(vs.Free, len(ranges), "announced chunks")
		p.chunks = ranges[r]
		kinds := []int{0, 1, -1, 100}
		p.off = kinds[vs.Choose(vs.Free, len(kinds), "length in the header")]
		if vs.Choose(vs.Free, 2, "data") == 1 {
			p.data = h.Pattern(77, 45)
		}
		before, log := a.fs.Snapshot(), len(a.fs.Log)
		when := fmt.Sprintf("announced %v, chunks %v, header off by %d, other data %v", e, p.chunks, p.off, p.data != nil)
		c := a.start("get", hexs(f1.k))
		play(9*time.Second, p)
		o, _ := c.wait()
		a.mustLive("%s", when)
		a.contained(when, before, log)
		if e.size == 50 && e.cs == 20 && p.data == nil {
			others(a, when, g)
		} else {
			others(a, when)
		}
		for q, content := range a.fs.Snapshot() {
			if _, was := before[q]; !was && path.Dir(q) == dlDir && e.size >= 0 {
				h.Must(len(content) <= e.size, "%s: %s has %d bytes, more than announced", when, q, len(content))
			}
		}
		a.mustList(when)
		vs.Observe("%s %q", when, o)
	}
	out = append(out, explore.Scenario{Name: "dimensions", Cfg: cfg, B: explore.Bounds{Total: -1}, Body: dims,
		Doc: "a download announced with every combination of 8 sizes, 7 chunk sizes, 6 chunk counts, 7 lists of held chunks, 4 header lengths and right or wrong data"})

	// odd listings
	lists := func() {
		l, a := setup()
		g := f1
		g.name = "new.bin"
		p := &peer{l: l, a: a, ip: [4]byte{10, 37, 91, 200}, f: g, sends: true, at: l.mark()}
		e := g.entry(3)
		other := e
		other.k = old.k
		third := e
		third.k = sum([]byte("third"))
		kinds := [][]entry{nil, {e, e}, {other}, {third}, {other, e}, {e, other}}
		k := vs.Choose(vs.Free, len(kinds), "listing")
		p.list = func(id int) []byte { return listResp(id, kinds[k]...) }
		before, log := a.fs.Snapshot(), len(a.fs.Log)
		when := fmt.Sprintf("listing %d: %v", k, kinds[k])
		c := a.start("get", hexs(f1.k))
		play(9*time.Second, p)
		o, _ := c.wait()
		a.mustLive("%s", when)
		a.contained(when, before, log)
		others(a, when, g)
		_, third3 := a.onDisk(nil).entries[third.k]
		h.Must(!third3, "%s: a file that was not asked for is indexed", when)
		vs.Observe("%s %q", when, o)
	}
	out = append(out, explore.Scenario{Name: "listings", Cfg: cfg, B: explore.Bounds{Total: -1}, Body: lists,
		Doc: "listings with no, several or other files in answer to the request for one"})
	return
}
