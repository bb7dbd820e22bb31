package main

import (
	"crypto/sha1"
	"fmt"
	"io"
	"path"
	"sort"
	"strings"
	"time"

	fluclient "github.com/flu-network/client"
	"github.com/flu-network/client/catalogue"
	"github.com/flu-network/client/common"

	"verif/mc/h"
	vnet "verif/mc/shim/net"
	vos "verif/mc/shim/os"
	"verif/mc/vs"
)

const home = "/home/u"
const catDir = home + "/.flu-network/catalogue"
const dlDir = home + "/.flu-network/downloads"

func sum(b []byte) hash { return sha1.Sum(b) }

func hp(k hash) *common.Sha1Hash { return &common.Sha1Hash{Data: k} }

func hexs(k hash) string { return fmt.Sprintf("%x", k[:]) }

/* hosts */

type lan struct {
	w     *vnet.World
	nodes []*node
}

type node struct {
	l     *lan
	name  string
	host  *vs.Host
	fs    *vos.FS
	p     *vs.Proc // the daemon
	boots int
	cmds  int
	cwd   string // where commands are run
}

func newLan(k int) *lan {
	l := &lan{w: vnet.NewWorld()}
	for i := 0; i < k; i++ {
		n := &node{l: l, name: string(rune('A' + i))}
		n.host, n.fs = h.NewHost(n.name, [4]byte{10, 37, 91, byte(i + 1)})
		l.w.Add(n.host)
		l.nodes = append(l.nodes, n)
	}
	return l
}

func (n *node) ip() [4]byte                     { return n.host.IP }
func (n *node) addr() vnet.Addr4                { return vnet.Addr4{IP: n.host.IP, Port: port} }
func (n *node) settle()                         { vs.Settle() }
func (l *lan) mark() int                        { return l.w.Sent() }
func phantom(i, p int) vnet.Addr4               { return vnet.Addr4{IP: [4]byte{10, 37, 91, byte(100 + i)}, Port: p} }
func (n *node) inject(src vnet.Addr4, d []byte) { n.l.w.Inject(n.host, port, src, d) }

// boot starts the daemon and waits until it is up.
func (n *node) boot() {
	n.launch()
	n.mustLive("starting")
}

// launch starts the daemon, which may fail.
func (n *node) launch() {
	n.boots++
	n.p = vs.NewProc(n.host, fmt.Sprintf("%s%d", n.name, n.boots), []string{"client", "-d"})
	vs.GoProc(n.p, "main", func() {
		fluclient.VerifMain()
		vs.ExitProc(0, "main returned")
	})
	vs.Settle()
}

func (n *node) alive() (bool, string) {
	a, code, why := n.p.State()
	return a, fmt.Sprintf("%s (exit code %d)", why, code)
}

// mustLive fails unless the daemon runs.
func (n *node) mustLive(format string, a ...any) {
	ok, why := n.alive()
	h.Must(ok, "%s: the daemon on %s went down: %s", fmt.Sprintf(format, a...), n.name, why)
}

// cmd is a running command-line client.
type cmd struct {
	p *vs.Proc
	g *vs.G
	n *node
	a []string
}

func (n *node) start(args ...string) *cmd {
	n.cmds++
	c := &cmd{n: n, a: args}
	c.p = vs.NewProc(n.host, fmt.Sprintf("%s-cli%d", n.name, n.cmds), append([]string{"client"}, args...))
	c.p.Cwd = n.cwd
	c.g = vs.GoProc(c.p, "cli", func() {
		fluclient.VerifMain()
		vs.ExitProc(0, "main returned")
	})
	return c
}

func (c *cmd) String() string { return fmt.Sprintf("%q", c.a) }

// wait waits for the end of a command and returns what it printed; a command must end within 10 s.
func (c *cmd) wait() (out string, code int) {
	if !vs.JoinUntil(c.g, 10*time.Second) {
		h.Must(false, "command %v on %s does not end; daemon goroutines:\n%s", c, c.n.name, strings.Join(c.n.p.Goroutines(), "\n"))
	}
	_, code, why := c.p.State()
	h.Must(code != 2 || !strings.HasPrefix(why, "panic"), "command %v on %s crashed: %s", c, c.n.name, why)
	return c.p.Output(), code
}

// run runs a command to its end.
func (n *node) run(args ...string) (string, int) { return n.start(args...).wait() }

// prep changes the host's catalogue while its daemon is down.
func (n *node) prep(f func(c *catalogue.Cat)) {
	p := vs.NewProc(n.host, n.name+"-prep", nil)
	alive, why := h.In(p, func() {
		c, err := catalogue.NewCat(catDir, dlDir)
		h.Must(err == nil, "opening the catalogue: %v", err)
		err = c.Init()
		h.Must(err == nil, "opening the catalogue: %v", err)
		f(c)
	})
	h.Must(alive, "preparing %s crashed: %s", n.name, why)
}

// file is a file of several chunks.
type file struct {
	name string
	data []byte
	cs   int
	k    hash
}

func mkfile(name string, seed, n, cs int) file {
	f := file{name: name, data: h.Pattern(seed, n), cs: cs}
	f.k = sum(f.data)
	return f
}

func (f file) n() int { return (len(f.data) + f.cs - 1) / f.cs }

func (f file) chunk(i int) []byte {
	hi := (i + 1) * f.cs
	if hi > len(f.data) {
		hi = len(f.data)
	}
	return f.data[i*f.cs : hi]
}

func (f file) entry(have int) entry {
	return entry{size: len(f.data), n: f.n(), cs: f.cs, have: have, k: f.k, name: f.name}
}

// give puts f in the catalogue of a stopped daemon, with the chunks in have (all if nil).
func (n *node) give(f file, have func(int) bool) {
	n.prep(func(c *catalogue.Cat) {
		_, err := c.RegisterDownload(uint64(len(f.data)), uint32(f.n()), uint32(f.cs), hp(f.k), f.name)
		h.Must(err == nil, "registering %s: %v", f.name, err)
		for i := 0; i < f.n(); i++ {
			if have == nil || have(i) {
				err := c.SaveChunk(hp(f.k), uint16(i), f.chunk(i))
				h.Must(err == nil, "saving chunk %d of %s: %v", i, f.name, err)
			}
		}
	})
}

// state is what a catalogue says when opened from a copy of the host's disk.
type state struct {
	entries map[hash]fileState
	err     error
}

type fileState struct {
	path     string
	size, cs int
	have     []bool
}

func (s fileState) count() (n int) {
	for _, b := range s.have {
		if b {
			n++
		}
	}
	return
}

func (s fileState) full() bool { return s.count() == len(s.have) }

func (s state) String() string {
	var out []string
	for k, e := range s.entries {
		out = append(out, fmt.Sprintf("%x %s size %d chunks of %d %v", k[:3], e.path, e.size, e.cs, e.have))
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// onDisk opens a copy of the host's catalogue as a new daemon would after a crash now. check, if given, sees
// every present chunk as it would be served.
func (n *node) onDisk(chunk func(k hash, i int, data []byte, err error)) (s state) {
	host := &vs.Host{Name: n.name + "-copy", IP: [4]byte{10, 9, 9, 9}, FS: n.fs.Clone(), Home: home}
	p := vs.NewProc(host, n.name+"-look", nil)
	alive, why := h.In(p, func() {
		c, err := catalogue.NewCat(catDir, dlDir)
		if err == nil {
			err = c.Init()
		}
		if err != nil {
			s.err = err
			return
		}
		l, err := c.ListFiles()
		if err != nil {
			s.err = err
			return
		}
		s.entries = map[hash]fileState{}
		for i := range l {
			r := &l[i]
			e := fileState{path: r.FilePath, size: int(r.SizeInBytes), cs: r.ChunkSize}
			for j := 0; j < r.Progress.Size(); j++ {
				e.have = append(e.have, r.Progress.Get(uint64(j)))
			}
			s.entries[r.Sha1Hash.Data] = e
			if chunk == nil {
				continue
			}
			for j, has := range e.have {
				if !has {
					continue
				}
				data, err := readChunk(c, r.Sha1Hash.Data, j)
				chunk(r.Sha1Hash.Data, j, data, err)
			}
		}
	})
	h.Must(alive, "opening the catalogue of %s crashes: %s", n.name, why)
	h.Must(s.err == nil, "the catalogue of %s cannot be opened: %v", n.name, s.err)
	return
}

func readChunk(c *catalogue.Cat, k hash, i int) ([]byte, error) {
	r, err := c.GetChunkReader(hp(k), int64(i))
	if err != nil {
		return nil, err
	}
	if c, ok := any(r).(io.Closer); ok {
		defer c.Close()
	}
	var out []byte
	buf := make([]byte, 4096)
	for {
		n, _, err := r.Read(buf)
		out = append(out, buf[:n]...)
		if err != nil || n == 0 {
			return out, nil
		}
	}
}

/* requests from outside */

// query sends a discovery request from a phantom and returns the reply.
func (n *node) query(k hash, chunks ...int) dresp {
	from := n.l.mark()
	id := 40000 + from%20000
	ph := phantom(50, port)
	n.inject(phantom(50, 7777), discoverReq(id, k, chunks...))
	vs.Settle()
	var got []vnet.Rec
	for _, r := range to(n.l.w, from, ph) {
		got = append(got, r)
	}
	h.Must(len(got) == 1, "%s answers a discovery request with %d replies", n.name, len(got))
	r, ok := parseDiscoverResp(got[0].Data)
	h.Must(ok && r.id == id && r.ip == n.ip() && r.port == port, "%s answers discovery request %d with % x", n.name, id, got[0].Data)
	return r
}

// listing asks the daemon for its files over the network.
func (n *node) listing(k hash) (es []entry, ok bool) {
	from := n.l.mark()
	id := 40000 + from%20000
	ph := phantom(51, 7001)
	n.inject(ph, listReq(id, k))
	vs.Settle()
	got := to(n.l.w, from, ph)
	if len(got) == 0 {
		return nil, false
	}
	h.Must(len(got) == 1, "%s answers a listing request with %d replies", n.name, len(got))
	gid, es, ok := parseListResp(got[0].Data)
	h.Must(ok && gid == id, "%s answers listing request %d with % x", n.name, id, got[0].Data)
	sort.Slice(es, func(i, j int) bool { return string(es[i].k[:]) < string(es[j].k[:]) })
	return es, true
}

func (n *node) mustList(when string) []entry {
	es, ok := n.listing(blank)
	n.mustLive("%s", when)
	h.Must(ok, "%s: %s no longer answers listing requests; its goroutines:\n%s", when, n.name, strings.Join(n.p.Goroutines(), "\n"))
	return es
}

func sameEntries(a, b []entry) bool {
	if len(a) != len(b) {
		return false
	}
	key := func(l []entry) string {
		var s []string
		for _, e := range l {
			s = append(s, e.String())
		}
		sort.Strings(s)
		return strings.Join(s, "\n")
	}
	return key(a) == key(b)
}

// bg is the daemon's goroutines without those that run for its whole life.
func (n *node) bg(base []string) []string {
	have := map[string]int{}
	for _, g := range base {
		have[g]++
	}
	var out []string
	for _, g := range n.p.Goroutines() {
		if have[g] > 0 {
			have[g]--
			continue
		}
		out = append(out, g)
	}
	return out
}

var _ = path.Base
