package main

import (
	"bytes"
	"encoding/hex"
	"flag"
	"fmt"
	"io"
	"net"
	"path"
	"regexp"
	"strings"
	"time"

	fluclient "github.com/flu-network/client"

	"verif/mc/explore"
	"verif/mc/h"
	vnet "verif/mc/shim/net"
	"verif/mc/vs"
)

func init() {
	explore.Register(&explore.Property{ID: "C22", Scenarios: c22})
}

const cliDir = home + "/docs" // where commands are run; the daemon runs elsewhere

// ent is an indexed file in the model.
type ent struct {
	path         string
	k            hash
	size, n, cs  int
	have         []bool
	growing      bool // being downloaded
	downloadOnly bool
}

func (e ent) count() (c int) {
	for _, b := range e.have {
		if b {
			c++
		}
	}
	return
}

// user is a host with a user at its command line, and a model of what the host should know.
type user struct {
	l    *lan
	a, b *node
	r, x file // r: only B has it; x: both have it
	ents map[hash]*ent
	off  bool // without a network
	none bool // without a daemon
	cs   int  // chunk size of shared files
	past []string
}

func newUser(state int) *user {
	l := newLan(2)
	u := &user{l: l, a: l.nodes[0], b: l.nodes[1], ents: map[hash]*ent{}}
	u.r = mkfile("r.bin", 31, 50, 20)
	u.x = mkfile("x.bin", 32, 45, 20)
	u.b.give(u.r, nil)
	u.b.give(u.x, nil)
	u.b.boot()
	a := u.a
	a.cwd = cliDir
	for _, n := range []string{"a.txt", "b.txt", "changed.txt", "gone.txt", "cut.txt"} {
		a.fs.Put(cliDir+"/"+n, []byte("content of "+n))
	}
	a.fs.Put(cliDir+"/same.txt", []byte("content of a.txt"))
	a.fs.Put(cliDir+"/empty.txt", nil)
	a.fs.Put(cliDir+"/own.dat", []byte("a file in the daemon's directory too"))
	a.fs.Put(home+"/own.dat", []byte("the one in the daemon's directory"))
	a.fs.Put(cliDir+"/100%d off", []byte("named like a format"))
	a.fs.Put(cliDir+"/ lead ", []byte("named with spaces"))
	a.fs.PutDir(cliDir + "/dir")
	a.fs.Put(cliDir+"/-d", []byte("named like a flag"))
	part := mkfile("part.bin", 33, 90, 20)
	if state != 0 {
		a.give(part, func(i int) bool { return i == 1 || i == 4 })
		a.give(u.x, nil)
		u.ents[part.k] = &ent{path: dlDir + "/part.bin", k: part.k, size: 90, n: 5, cs: 20, have: []bool{false, true, false, false, true}}
		u.ents[u.x.k] = &ent{path: dlDir + "/x.bin", k: u.x.k, size: 45, n: 3, cs: 20, have: all(u.x)}
	}
	a.boot()
	if state != 0 {
		u.do("share", "a.txt")
		u.do("share", "changed.txt")
		u.do("share", "gone.txt")
		u.do("share", "cut.txt")
	}
	switch state {
	case 2: // files have gone bad
		a.fs.Put(cliDir+"/changed.txt", []byte("other content of the file"))
		a.fs.Put(cliDir+"/cut.txt", []byte("content"))
		a.fs.Del(cliDir + "/gone.txt")
		a.fs.Del(dlDir + "/part.bin")
	case 3:
		a.p.Kill("no daemon")
		u.none = true
	case 4:
		l.w.SetOffline(a.host, true)
		u.off = true
	case 5: // nothing else answers
		u.b.p.Kill("gone")
	}
	u.past = nil
	return u
}

func (u *user) copyEnts() map[hash]*ent {
	out := map[hash]*ent{}
	for k, e := range u.ents {
		c := *e
		out[k] = &c
	}
	return out
}

// local is the expected listing.
func (u *user) local() (l []item) {
	for _, e := range u.ents {
		l = append(l, shown(e.path, e.size, e.n, e.count(), e.cs, e.k))
	}
	return
}

// refresh takes over the progress of downloads from the disk; nothing else may have changed.
func (u *user) agree(when string) {
	s := u.a.onDisk(nil)
	h.Must(len(s.entries) == len(u.ents), "%s: the index on disk is %v; expected are %d files", when, s, len(u.ents))
	for k, e := range u.ents {
		d, ok := s.entries[k]
		h.Must(ok && d.path == e.path && d.size == e.size && (d.cs == e.cs || e.cs < 0), "%s: %s is on disk as %+v", when, e.path, d)
		if e.growing {
			if d.full() {
				e.growing = false
			}
			for i := range e.have {
				h.Must(d.have[i] || !e.have[i], "%s: chunk %d of %s was lost", when, i, e.path)
			}
			e.have = d.have
		}
		h.Must(len(d.have) == e.n && fmt.Sprint(d.have) == fmt.Sprint(e.have), "%s: %s has chunks %v on disk, not %v", when, e.path, d.have, e.have)
	}
	if u.none {
		return
	}
	u.a.mustLive("%s", when)
	o, code := u.a.run("list")
	got, ok := items(o)
	h.Must(ok && code == 0 && sameItems(got, u.local()), "%s: list shows %v, not %v (%.300q)", when, got, u.local(), o)
	if !u.off {
		var want []entry
		for _, e := range u.ents {
			want = append(want, entry{size: e.size, n: e.n, cs: e.cs, have: e.count(), k: e.k, name: path.Base(e.path)})
		}
		es := u.a.mustList(when)
		h.Must(sameEntries(es, want), "%s: other hosts see %v, not %v", when, es, want)
	}
}

func parseHash(s string) (k hash, ok bool) {
	b, err := hex.DecodeString(s)
	if err != nil || len(b) != 20 {
		return k, false
	}
	copy(k[:], b)
	return k, true
}

// run runs a command line in cliDir and returns what it printed.
func (u *user) run(args ...string) (string, int) {
	c := u.a.start(args...)
	return c.wait()
}

var chimLine = regexp.MustCompile(`^IP: (\d+)\.(\d+)\.(\d+)\.(\d+):(\d+)$`)

var chimLines = regexp.MustCompile(`(?m)^IP: \d`)

// do runs a command and checks its output and its effect against the model.
func (u *user) do(args ...string) {
	u.past = append(u.past, fmt.Sprintf("%q", args))
	when := strings.Join(u.past, ", ")
	files := map[string]string{}
	for p, c := range u.a.fs.Snapshot() {
		if !strings.HasPrefix(p, catDir) && !strings.HasPrefix(p, dlDir) {
			files[p] = c
		}
	}
	for _, e := range u.ents { // the present progress of downloads
		if e.growing {
			u.progress(when)
			break
		}
	}
	before := u.copyEnts()
	t0 := vs.Now()
	o, code := u.run(args...)
	took := time.Duration(vs.Now() - t0)
	h.Must(took <= 6*time.Second, "%s took %v", when, took)
	said := strings.TrimSpace(o) != ""
	h.Must(!strings.Contains(o, "%!"), "%s prints %q, which looks garbled", when, o)
	cmd, rest := "", []string(nil)
	if len(args) > 0 {
		cmd, rest = args[0], args[1:]
	}
	failed := func(format string, a ...any) { // the command had to fail
		h.Must(said, "%s fails without a word", when)
		_, ok := items(o)
		h.Must(!ok && !strings.Contains(o, "initiated") && !strings.Contains(o, "\tPath: ") && !chimLines.MatchString(o), "%s: %s, but it prints %q", when, fmt.Sprintf(format, a...), o)
	}
	switch {
	case len(args) > 0 && strings.HasPrefix(cmd, "-"):
		h.Must(said, "%s prints nothing", when)
	case cmd == "" && len(args) == 0:
		h.Must(said, "%s prints nothing", when)
	case u.none:
		failed("there is no daemon")
	case cmd == "share" && len(rest) == 1:
		u.share(when, rest[0], o, code)
	case cmd == "clean" && len(rest) == 0:
		u.clean(when, o, code)
	case cmd == "list":
		u.list(when, rest, o, code, failed)
	case cmd == "get" && len(rest) == 1:
		u.get(when, rest[0], o, code, failed)
	case cmd == "chims":
		u.chims(when, rest, o, code, failed)
	default:
		failed("it is no command")
	}
	if u.none {
		h.Must(said, "%s without a daemon prints nothing", when)
	}
	_ = before
	u.agree("after " + when)
	after := u.a.fs.Snapshot()
	for p, c := range files {
		h.Must(after[p] == c, "after %s the user's %s has changed", when, p)
	}
	for p := range after {
		_, was := files[p]
		h.Must(was || strings.HasPrefix(p, catDir) || strings.HasPrefix(p, dlDir) || p == home+"/.flu-network", "after %s there is a new %s", when, p)
	}
}

func (u *user) progress(when string) {
	s := u.a.onDisk(nil)
	for k, e := range u.ents {
		if d, ok := s.entries[k]; ok && e.growing {
			e.have = d.have
		}
	}
}

func (u *user) share(when, arg, o string, code int) {
	p := arg
	if !strings.HasPrefix(p, "/") {
		p = cliDir + "/" + p
	}
	p = path.Clean(p)
	data, ok := u.a.fs.Get(p)
	got, isItem := items(o)
	shared := isItem && len(got) == 1
	if !ok || len(p) > 4000 {
		h.Must(!shared && strings.TrimSpace(o) != "", "%s: there is no such file, but it prints %q", when, o)
		return
	}
	k := sum(data)
	if _, dup := u.ents[k]; dup {
		h.Must(!shared && strings.TrimSpace(o) != "", "%s: the content is indexed already, but it prints %q", when, o)
		return
	}
	h.Must(shared && code == 0, "%s: sharing fails with %q", when, o)
	cs := got[0].cs
	h.Must(cs > 0, "%s: chunks of %d bytes", when, cs)
	n := (len(data) + cs - 1) / cs
	e := &ent{path: p, k: k, size: len(data), n: n, cs: cs}
	for i := 0; i < n; i++ {
		e.have = append(e.have, true)
	}
	u.ents[k] = e
	want := shown(e.path, e.size, e.n, e.n, cs, k)
	h.Must(sameItems(got, []item{want}), "%s prints %v, not %v", when, got, want)
}

func (u *user) clean(when, o string, code int) {
	h.Must(code == 0, "%s exits with %d: %q", when, code, o)
	removed, kept := map[string]int{}, map[string]int{}
	lines := strings.Split(o, "\n")
	for i, l := range lines {
		if i+1 < len(lines) && strings.HasPrefix(l, "/") && strings.HasPrefix(lines[i+1], "  - ") {
			if strings.Contains(lines[i+1], "Removed") {
				removed[l]++
			} else {
				kept[l]++
			}
		}
	}
	for k, e := range u.ents {
		data, ok := u.a.fs.Get(e.path)
		if e.count() == e.n && (!ok || sum(data) != k) {
			removed[e.path]--
			delete(u.ents, k)
		} else {
			kept[e.path]--
		}
	}
	for _, m := range []map[string]int{removed, kept} {
		for p, n := range m {
			h.Must(n == 0, "%s: what it says about %s is not what it had to do: %q", when, p, o)
		}
	}
}

func (u *user) list(when string, rest []string, o string, code int, failed func(string, ...any)) {
	got, ok := items(o)
	if len(rest) == 0 {
		h.Must(ok && code == 0 && sameItems(got, u.local()), "%s shows %v, not %v", when, got, u.local())
		return
	}
	remote := func(l []item, k hash) (out []item) {
		for _, x := range l {
			if k == blank || x.sha == hexs(k) {
				x.path = path.Base(x.path)
				out = append(out, x)
			}
		}
		return
	}
	k := blank
	if len(rest) > 1 {
		var good bool
		k, good = parseHash(rest[1])
		if !good {
			failed("%q is no hash", rest[1])
			return
		}
	}
	ip := net.ParseIP(rest[0])
	ip4 := ip.To4()
	theirs := []item{shown("r.bin", 50, 3, 3, 20, u.r.k), shown("x.bin", 45, 3, 3, 20, u.x.k)}
	var want []item
	switch {
	case len(rest) > 2 && !ok: // refused for its many arguments
		failed("too many arguments")
		return
	case ip4 == nil:
		failed("%q is no address", rest[0])
		return
	case ip4.Equal(net.IP{10, 37, 91, 1}) || ip4[0] == 127 && ok || ip4.Equal(net.IPv4zero) && ok:
		want = remote(u.local(), k)
	case ip4.Equal(net.IP{10, 37, 91, 2}):
		want = remote(theirs, k)
		if alive, _ := u.b.alive(); !alive || u.off {
			failed("the host cannot be reached")
			return
		}
	default:
		failed("there is no such host")
		return
	}
	if u.off {
		if !ok { // fine
			failed("there is no network")
			return
		}
	}
	if k != blank && len(want) == 0 {
		failed("no such file is there")
		return
	}
	h.Must(ok && code == 0 && sameItems(got, want), "%s shows %v, not %v (%.300q)", when, got, want, o)
}

func (u *user) get(when, arg, o string, code int, failed func(string, ...any)) {
	k, good := parseHash(arg)
	if !good {
		failed("%q is no hash", arg)
		return
	}
	alive, _ := u.b.alive()
	there := alive && !u.off && (k == u.r.k || k == u.x.k)
	started := strings.Contains(o, "initiated")
	if !there {
		failed("nobody has it")
		return
	}
	h.Must(started && code == 0, "%s fails with %q", when, o)
	if e, ok := u.ents[k]; ok {
		e.growing = e.count() < e.n
		return
	}
	f := u.r
	if k == u.x.k {
		f = u.x
	}
	s := u.a.onDisk(nil)
	d, ok := s.entries[k]
	h.Must(ok && path.Dir(d.path) == dlDir && d.size == len(f.data) && d.cs == f.cs && len(d.have) == f.n(), "%s: the download is indexed as %+v", when, d)
	u.ents[k] = &ent{path: d.path, k: k, size: d.size, n: f.n(), cs: d.cs, have: make([]bool, f.n()), growing: true}
}

func (u *user) chims(when string, rest []string, o string, code int, failed func(string, ...any)) {
	k := blank
	if len(rest) > 0 {
		var good bool
		k, good = parseHash(rest[0])
		if !good {
			failed("%q is no hash", rest[0])
			return
		}
	}
	if u.off {
		return
	}
	if len(rest) > 1 && !strings.Contains(o, "IP: ") {
		failed("too many arguments")
		return
	}
	h.Must(code == 0, "%s exits with %d: %q", when, code, o)
	chunks := func(l []int) (s string) {
		for i := 0; i+1 < len(l); i += 2 {
			s += fmt.Sprintf("  %d:%d\n", l[i], l[i+1])
		}
		return
	}
	want := map[string]string{}
	var mine []int
	if e, ok := u.ents[k]; ok && k != blank {
		if e.growing { // any progress
			return
		}
		mine = rangesOf(e.have)
	}
	want["IP: 10.37.91.1:61696\n"] = chunks(mine)
	if alive, _ := u.b.alive(); alive {
		var c []int
		if k == u.r.k || k == u.x.k {
			c = []int{0, 2}
		}
		want["IP: 10.37.91.2:61696\n"] = chunks(c)
	}
	got := map[string]string{}
	cur := ""
	for _, l := range strings.SplitAfter(o, "\n") {
		if chimLine.MatchString(strings.TrimSuffix(l, "\n")) {
			_, twice := got[l]
			h.Must(!twice, "%s shows a host twice: %q", when, o)
			got[l], cur = "", l
		} else if l != "" {
			got[cur] += l
		}
	}
	h.Must(fmt.Sprint(got) == fmt.Sprint(want), "%s shows %q; expected are the hosts and chunks %v", when, o, want)
}

// finish waits for the downloads that peers can serve.
func (u *user) finish(when string) {
	var d time.Duration
	for d = 0; d < 40*time.Second; d += 2 * time.Second {
		busy := false
		u.progress(when)
		for _, e := range u.ents {
			busy = busy || e.growing && e.count() < e.n
		}
		if !busy {
			break
		}
		vs.Sleep(2 * time.Second)
	}
	u.agree(when)
	for _, e := range u.ents {
		h.Must(!e.growing || e.count() == e.n, "%s: the download of %s stays at %d of %d chunks", when, e.path, e.count(), e.n)
	}
	for _, f := range []file{u.r, u.x} {
		e, ok := u.ents[f.k]
		if ok && path.Dir(e.path) == dlDir && e.count() == e.n {
			data, _ := u.a.fs.Get(e.path)
			h.Must(bytes.Equal(data, f.data), "%s: the downloaded %s is not what the peer has", when, f.name)
		}
	}
}

// daemonMode tells whether a command line starts a daemon.
func daemonMode(line []string) bool {
	f := flag.NewFlagSet("", flag.ContinueOnError)
	f.SetOutput(io.Discard)
	d := f.Bool("d", false, "")
	return f.Parse(line) == nil && *d
}

func c22(tier string) (out []explore.Scenario) {
	cfg := vs.Config{Serial: true, MaxSteps: 5000000}
	free := explore.Bounds{Total: -1}
	states := []string{"an empty catalogue", "some files", "some files, of which some have gone bad", "no daemon", "no network", "no other host"}
	r, x := mkfile("r.bin", 31, 50, 20), mkfile("x.bin", 32, 45, 20)
	part := mkfile("part.bin", 33, 90, 20)
	aHash := hexs(sum([]byte("content of a.txt")))
	args := []string{"", "x", " ", "a.txt", cliDir + "/a.txt", "../docs/b.txt", cliDir + "/same.txt", "empty.txt", "dir", "dir/", "a.txt/", "absent", "/", "own.dat", "gone.txt", "changed.txt", "100%d off", "no%d", " lead ", "-d", "--", "-1",
		aHash, hexs(r.k), hexs(x.k), hexs(part.k), strings.ToUpper(hexs(r.k)), hexs(sum([]byte("unknown"))), hexs(blank), strings.Repeat("0", 40), hexs(r.k)[:39], hexs(r.k) + "0", hexs(r.k)[:38], strings.Repeat("g", 40), "0x" + hexs(r.k)[:38],
		"10.37.91.1", "10.37.91.2", "10.37.91.77", "::1", "fe80::1", "::ffff:10.37.91.2", "256.1.1.1", "10.0.0", "0.0.0.0", "255.255.255.255", "127.0.0.1",
		strings.Repeat("l", 5000), "nul\x00nul", "\xff\xfe", "\n", "%s%d%n", "ж"}
	second := []string{"", "x", "a.txt", hexs(r.k), aHash, hexs(x.k), hexs(blank), hexs(sum([]byte("unknown"))), hexs(r.k)[:39], strings.Repeat("g", 40), "10.37.91.2", "-d", "\xff"}
	if tier == "thorough" {
		second = args
	} else {
		second = second[:6]
	}
	cmds := []string{"share", "clean", "list", "get", "chims", "bogus", "", "SHARE", "-x", "--help", "-d=false", "--", "-d=maybe"}
	lines := func() {
		st := vs.Choose(vs.Free, len(states), "state")
		n := vs.Choose(vs.Free, 4, "arguments")
		var line []string
		if n > 0 {
			line = append(line, cmds[vs.Choose(vs.Free, len(cmds), "command")])
		}
		if n > 1 {
			line = append(line, args[vs.Choose(vs.Free, len(args), "argument")])
		}
		if n > 2 {
			line = append(line, second[vs.Choose(vs.Free, len(second), "argument")])
		}
		if daemonMode(line) { // see the last scenario
			return
		}
		u := newUser(st)
		u.past = []string{states[st]}
		u.do(line...)
		u.finish("after " + strings.Join(u.past, ", "))
		if u.none { // the socket of the old daemon is no obstacle
			u.a.boot()
			u.none = false
			u.agree("restarted after " + strings.Join(u.past, ", "))
		}
		vs.Observe("%d %q", st, line)
	}
	out = append(out, explore.Scenario{Name: "command lines", Cfg: cfg, B: free, Body: lines, Weight: 3,
		Doc: fmt.Sprintf("every command line of a command among %d and up to two arguments among %d and %d in each of the states %v: output, duration and effect against a model", len(cmds), len(args), len(second), states)})

	seqCmds := [][]string{{"share", "a.txt"}, {"share", "same.txt"}, {"share", "b.txt"}, {"share", "empty.txt"}, {"share", "changed.txt"}, {"share", "own.dat"}, {"share", "absent"}, {"clean"}, {"clean", "now"}, {"list"},
		{"list", "10.37.91.1"}, {"list", "10.37.91.2"}, {"list", "10.37.91.2", hexs(r.k)}, {"list", "10.37.91.77"}, {"list", "10.37.91.1", aHash}, {"get", hexs(r.k)}, {"get", hexs(x.k)}, {"get", aHash}, {"get", hexs(part.k)}, {"get", hexs(blank)}, {"get"}, {"chims"}, {"chims", hexs(r.k)}, {"chims", hexs(part.k)}, {"chims", aHash}}
	acts := []string{"restart", "wait", "damage a.txt", "mend a.txt"}
	depth := 4
	if tier != "thorough" {
		depth = 3
		seqCmds = [][]string{{"share", "a.txt"}, {"share", "same.txt"}, {"share", "empty.txt"}, {"share", "changed.txt"}, {"share", "absent"}, {"clean"}, {"list", "10.37.91.2"}, {"list", "10.37.91.1", aHash}, {"get", hexs(r.k)}, {"get", hexs(x.k)}, {"get", hexs(part.k)}, {"chims", hexs(r.k)}}
	}
	seq := func() {
		st := []int{0, 2, 4}[vs.Choose(vs.Free, 3, "state")]
		u := newUser(st)
		u.past = []string{states[st]}
		for i := 0; i < depth; i++ {
			c := vs.Choose(vs.Free, len(seqCmds)+len(acts), "command")
			if c < len(seqCmds) {
				u.do(seqCmds[c]...)
				continue
			}
			act := acts[c-len(seqCmds)]
			u.past = append(u.past, act)
			switch act {
			case "restart":
				u.progress("")
				u.a.p.Kill("restart")
				for _, e := range u.ents {
					e.growing = false
				}
				u.a.boot()
			case "wait":
				u.finish("after " + strings.Join(u.past, ", "))
			case "damage a.txt":
				u.a.fs.Put(cliDir+"/a.txt", []byte("damaged"))
			case "mend a.txt":
				u.a.fs.Put(cliDir+"/a.txt", []byte("content of a.txt"))
			}
			u.agree("after " + strings.Join(u.past, ", "))
		}
		vs.Observe("%s", strings.Join(u.past, ", "))
	}
	out = append(out, explore.Scenario{Name: "sequences", Cfg: cfg, B: free, Body: seq, Weight: 3,
		Doc: fmt.Sprintf("every sequence of %d of %d commands and events (restart, waiting, damage) from three states, each step against a model", depth, len(seqCmds)+len(acts))})

	// other hosts answer in strange ways
	nasty := func() {
		u := newUser(1)
		l := u.l
		ip := [4]byte{10, 37, 91, 200}
		at := 0
		replies := [][]int{{}, {0}, {1, 0}, {0, 0, 0, 0, 0, 0}, {0, 65535}, {65535, 65535}, {0, 1, 2}, make([]int, 255), {2, 2, 0, 0, 5, 1}}
		rep := replies[vs.Choose(vs.Free, len(replies), "chunks")]
		f := mkfile("new.bin", 77, 50, 20)
		huge := f.entry(3)
		huge.size = -1 // 2^64-1
		zero := f.entry(3)
		zero.cs = 0
		more := f.entry(9)
		none := f.entry(0)
		none.n, none.size = 0, 0
		name := f.entry(3)
		name.name = "%s%d%n\n\tPath: x\x00\x1b[2J"
		long := f.entry(3)
		long.name = strings.Repeat("n", 255)
		dots := f.entry(3)
		dots.name = "../../.."
		noname := f.entry(3)
		noname.name = ""
		other := f.entry(3)
		other.k = sum([]byte("other"))
		many := f.entry(65537)
		many.n, many.size, many.cs = 65537, 65537, 1
		full := listResp(0, f.entry(3))
		listings := [][]byte{full, listResp(0), full[:40], full[:5], full[:1], {}, {3, 0, 0, 255, 255}, listResp(0, huge), listResp(0, zero), listResp(0, more), listResp(0, none), listResp(0, name), listResp(0, long), listResp(0, dots), listResp(0, noname), listResp(0, other),
			listResp(0, many), listResp(0, f.entry(3), f.entry(3)), discoverResp(0, ip, port, 0, 1), append(append([]byte{}, full...), 1, 2, 3), listReq(0, f.k), dataPkt(0, full), bytes.Repeat([]byte{255}, 1500)}
		lst := listings[vs.Choose(vs.Free, len(listings), "listing")]
		times := 1 + vs.Choose(vs.Free, 2, "times")
		cmds := [][]string{{"chims"}, {"chims", hexs(f.k)}, {"list", "10.37.91.200"}, {"list", "10.37.91.200", hexs(f.k)}, {"get", hexs(f.k)}}
		line := cmds[vs.Choose(vs.Free, len(cmds), "command")]
		when := fmt.Sprintf("%q, when another host says it has %v and lists % .60x, %d times", line, rep, lst, times)
		c := u.a.start(line...)
		answer := func() {
			vs.Settle()
			w := l.w.Wire()
			for ; at < len(w); at++ {
				r := w[at]
				if r.Fate == "injected" || len(r.Data) < 3 || r.Dst.Port != port || r.Dst.IP != ip && r.Dst.IP != [4]byte{255, 255, 255, 255} {
					continue
				}
				for i := 0; i < times; i++ {
					switch r.Data[0] {
					case 0:
						if bytes.Equal(r.Data[3:23], u.r.k[:]) {
							continue
						}
						l.w.Inject(u.a.host, port, vnet.Addr4{IP: ip, Port: 40000}, discoverResp(u16(r.Data[1:]), ip, port, rep...))
					case 2:
						b := append([]byte{}, lst...)
						if len(b) > 2 {
							copy(b[1:3], r.Data[1:3])
						}
						l.w.Inject(u.a.host, r.Src.Port, vnet.Addr4{IP: ip, Port: port}, b)
					}
				}
			}
		}
		for i := 0; i < 60; i++ {
			if ok, _, _ := c.p.State(); !ok {
				break
			}
			answer()
			vs.Sleep(100 * time.Millisecond)
		}
		o, code := c.wait()
		u.a.mustLive("%s", when)
		h.Must(o != "" || line[0] == "list" && len(lst) == 5, "%s: nothing is printed", when)
		if line[0] == "chims" {
			h.Must(code == 0, "%s: exit code %d", when, code)
			own := "IP: 10.37.91.1:61696\n"
			h.Must(strings.Count(o, own) == 1 && strings.Count(o, "IP: 10.37.91.200:61696\n") == times, "%s: it prints %q", when, o)
		}
		if line[0] == "list" && bytes.Equal(lst, full) {
			got, ok := items(o)
			want := shown("new.bin", 50, 3, 3, 20, f.k)
			h.Must(ok && sameItems(got, []item{want}), "%s: it prints %q", when, o)
		}
		for i := 0; i < 100; i++ {
			answer()
			vs.Sleep(100 * time.Millisecond)
		}
		u.a.mustLive("%s", when)
		s := u.a.onDisk(func(k hash, i int, data []byte, err error) {
			if k == f.k {
				h.Must(false, "%s: chunk %d of the file is present, though nobody sent it", when, i)
			}
		})
		if d, ok := s.entries[f.k]; ok {
			h.Must(strings.Contains(o, "initiated") && path.Dir(d.path) == dlDir, "%s: it prints %q, but the file is indexed as %v", when, o, s)
			delete(s.entries, f.k)
		} else {
			h.Must(!strings.Contains(o, "initiated"), "%s: it prints %q, but there is no download", when, o)
		}
		for k, e := range u.ents {
			d, ok := s.entries[k]
			h.Must(ok && d.path == e.path && d.count() == e.count(), "%s: %s is on disk as %+v", when, e.path, d)
		}
		h.Must(len(s.entries) == len(u.ents), "%s: the index on disk is %v", when, s)
		// and life goes on
		o, code = u.a.run("list", "10.37.91.2")
		_, ok := items(o)
		h.Must(ok && code == 0 && strings.Count(o, "\tPath: ") == 2, "after %s, listing a good host prints %q", when, o)
		o, _ = u.a.run("get", hexs(u.r.k))
		h.Must(strings.Contains(o, "initiated"), "after %s, another download cannot start: %q", when, o)
		for i := 0; i < 40; i++ {
			if d := u.a.onDisk(nil).entries[u.r.k]; d.full() && d.size == 50 {
				break
			}
			answer()
			vs.Sleep(500 * time.Millisecond)
		}
		d := u.a.onDisk(nil).entries[u.r.k]
		h.Must(d.full() && d.size == 50, "after %s, another download stays at %v", when, d.have)
		vs.Observe("%s", when)
	}
	out = append(out, explore.Scenario{Name: "strange hosts", Cfg: cfg, B: free, Body: nasty,
		Doc: "chims, list and get while a host announces one of 9 odd chunk lists and sends one of 23 odd listings, once or twice: the command ends with a message, the daemon, the index and other downloads are unaffected"})

	// the daemon is just starting
	starting := func() {
		vs.Serialize(true)
		l := newLan(2)
		a, b := l.nodes[0], l.nodes[1]
		f, r := mkfile("f.bin", 41, 45, 20), mkfile("r.bin", 31, 50, 20)
		a.give(f, nil)
		b.give(r, nil)
		b.boot()
		a.fs.Put(cliDir+"/a.txt", []byte("content of a.txt"))
		a.fs.Put("/tmp/flu-network.sock", nil) // left by an earlier daemon
		a.cwd = cliDir
		mine := shown(dlDir+"/f.bin", 45, 3, 3, 20, f.k)
		bare := mine
		bare.path = "f.bin"
		txt := shown(cliDir+"/a.txt", 16, 1, 1, 4194304, sum([]byte("content of a.txt")))
		lines := [][]string{{"list"}, {"share", "a.txt"}, {"clean"}, {"get", hexs(r.k)}, {"chims"}, {"list", "10.37.91.1"}}
		i := vs.Choose(vs.Free, len(lines)+3, "command or datagram")
		vs.Serialize(false)
		a.boots++
		a.p = vs.NewProc(a.host, "A1", []string{"client", "-d"})
		vs.GoProc(a.p, "main", func() {
			fluclient.VerifMain()
			vs.ExitProc(0, "main returned")
		})
		at := l.mark()
		var c *cmd
		what := "a datagram while the daemon starts"
		if i < len(lines) {
			c = a.start(lines[i]...)
			what = fmt.Sprintf("%q while the daemon starts", lines[i])
		} else {
			a.inject(phantom(50, 7777), [][]byte{discoverReq(7, f.k), listReq(7, blank), openReq(f.k, 1, 3)}[i-len(lines)])
		}
		vs.Settle()
		vs.Serialize(true)
		want := []item{mine}
		got := ""
		if c != nil {
			o, code := c.wait()
			l, ok := items(o)
			h.Must(strings.TrimSpace(o) != "", "%s prints nothing", what)
			switch {
			case code != 0 && !ok: // not yet
				got = "error"
			case i == 0:
				h.Must(ok && sameItems(l, want), "%s prints %q", what, o)
			case i == 1:
				h.Must(ok && sameItems(l, []item{txt}), "%s prints %q", what, o)
				want = append(want, txt)
			case i == 2:
				h.Must(strings.Contains(o, dlDir+"/f.bin\n") && !strings.Contains(o, "Removed"), "%s prints %q", what, o)
			case i == 3:
				h.Must(strings.Contains(o, "initiated"), "%s prints %q", what, o)
				want = append(want, shown(dlDir+"/r.bin", 50, 3, 3, 20, r.k))
			case i == 4:
				h.Must(strings.Count(o, "IP: ") == 2, "%s prints %q", what, o)
			case i == 5:
				h.Must(!ok || sameItems(l, []item{bare}), "%s prints %q", what, o)
			}
		} else {
			for _, d := range l.w.Since(at) {
				if d.Fate == "injected" {
					continue
				}
				got += fmt.Sprint(d.Data[0], " ")
				if d.Data[0] == 1 {
					x, ok := parseDiscoverResp(d.Data)
					h.Must(ok && sameInts(x.chunks, []int{0, 2}), "%s: the reply is % x", what, d.Data)
				}
				if d.Data[0] == 3 {
					_, es, ok := parseListResp(d.Data)
					h.Must(ok && sameEntries(es, []entry{f.entry(3)}), "%s: the reply is % x", what, d.Data)
				}
			}
		}
		vs.Sleep(15 * time.Second)
		vs.Settle()
		a.mustLive("%s", what)
		a.mustShow("after "+what, want, "list")
		o, code := a.run("share", "a.txt")
		_, ok := items(o)
		h.Must(ok == (code == 0 && i != 1 || got == "error"), "after %s, sharing prints %q", what, o)
		es := a.mustList("after " + what)
		h.Must(len(es) == len(want) || ok && len(es) == len(want)+1, "after %s, the daemon lists %v", what, es)
		vs.Observe("%s: %s", what, got)
	}
	sb := 1
	if tier == "thorough" {
		sb = 2
	}
	out = append(out, explore.Scenario{Name: "starting", Cfg: vs.Config{NetPoints: true, FSPoints: true, MaxSteps: 5000000}, B: explore.Bounds{Sched: sb, Switch: 3, Total: 3}, Body: starting,
		Doc: fmt.Sprintf("a command or a datagram while the daemon starts, every schedule with up to %d preemptions and 3 deviations: it is served correctly, fails or is ignored, and the daemon is as it should be", sb)})

	// a second daemon on the same host
	two := func() {
		vs.Serialize(true)
		st := vs.Choose(vs.Free, 2, "state")
		u := newUser(st)
		u.past = []string{states[st], "a second daemon"}
		line := [][]string{{"-d"}, {"-d", "x"}, {"-d=true", "list"}}[vs.Choose(vs.Free, 3, "line")]
		vs.Serialize(false)
		c := u.a.start(line...)
		vs.Settle()
		vs.Serialize(true)
		u.a.mustLive("a second daemon starts")
		_ = c
		u.agree("a second daemon starts")
		u.do("share", "b.txt")
		u.do("get", hexs(u.r.k))
		u.finish("a second daemon started")
		vs.Observe("%d %v", st, line)
	}
	out = append(out, explore.Scenario{Name: "second daemon", Cfg: vs.Config{MaxSteps: 5000000}, B: explore.Bounds{Sched: 1, Switch: 1, Total: 1}, Body: two,
		Doc: "a daemon started while another runs, in every schedule with one deviation: the first keeps serving peers and commands"})
	return
}
