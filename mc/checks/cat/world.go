package main

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"io"
	"path"
	"sort"
	"strings"

	"github.com/flu-network/client/catalogue"
	"github.com/flu-network/client/common"

	"verif/mc/h"
	vos "verif/mc/shim/os"
	"verif/mc/vs"
)

/* the reference model */

type hash = [20]byte

// ent is a catalogue entry.
type ent struct {
	path   string // "?..." = some unused path in the downloads directory
	size   int64
	cs     int
	n      int // number of chunks
	have   uint64
	data   string // the content of the complete file
	shared bool
}

func (e ent) full() bool { return e.have == 1<<uint(e.n)-1 }

func (e ent) chunk(i int) string {
	lo, hi := i*e.cs, (i+1)*e.cs
	if hi > len(e.data) {
		hi = len(e.data)
	}
	return e.data[lo:hi]
}

// model is what the catalogue must say, and the users' files it refers to.
type model struct {
	ents  map[hash]ent
	files map[string]string
}

func (m model) clone() model {
	c := model{ents: map[hash]ent{}, files: map[string]string{}}
	for k, v := range m.ents {
		c.ents[k] = v
	}
	for k, v := range m.files {
		c.files[k] = v
	}
	return c
}

func (m model) pathUsed(p string) bool {
	for _, e := range m.ents {
		if e.path == p {
			return true
		}
	}
	return false
}

func (m model) String() string {
	var out []string
	for k, e := range m.ents {
		out = append(out, fmt.Sprintf("%x:%s:%d:%d:%x", k[:3], e.path, e.size, e.cs, e.have))
	}
	for p, d := range m.files {
		s := sha1.Sum([]byte(d))
		out = append(out, fmt.Sprintf("%s=%x", p, s[:4]))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

/* the fixed files */

const dlDir = "/dl"

var userFiles = map[string]string{
	"/data/a":  string(h.Pattern(1, 10)),
	"/data/a2": string(h.Pattern(1, 10)),
	"/data/b":  string(h.Pattern(2, 5000)),
	"/data/e":  "",
}

type remote struct {
	name string
	data string
	cs   int
}

var xFile = remote{"x.bin", string(h.Pattern(3, 10)), 4}
var yFile = remote{"x.bin", string(h.Pattern(4, 8)), 8} // same name as x
var zFile = remote{"z.bin", "", 4}                      // no chunks at all

func sum(s string) hash { return sha1.Sum([]byte(s)) }

func hp(x hash) *common.Sha1Hash { return &common.Sha1Hash{Data: x} }

var hA, hB, hE, hX, hY = sum(userFiles["/data/a"]), sum(userFiles["/data/b"]), sum(""), sum(xFile.data), sum(yFile.data)
var hU = sum("unknown")

// universe is every hash the histories can mention.
var universe = []hash{hA, hB, hE, hX, hY, hU}

/* the world: one host, one catalogue */

type world struct {
	host *vs.Host
	fs   *vos.FS
	dir  string
	p    *vs.Proc
	c    *catalogue.Cat
	m    model
	cs   int // the chunk size of shared files
	n    int
	bad  map[string]bool // files that cannot be read
}

func newWorld() *world { return newWorldOn(func(*vos.FS) {}) }

// newWorldOn is a new world on a disk that prep has prepared.
func newWorldOn(prep func(*vos.FS)) *world {
	w := &world{dir: "/cat"}
	w.host, w.fs = h.NewHost("a", [4]byte{10, 0, 0, 1})
	prep(w.fs)
	for p, d := range userFiles {
		w.fs.Put(p, []byte(d))
	}
	w.fs.PutDir("/data/dir")
	w.m = model{ents: map[hash]ent{}, files: map[string]string{}}
	for p, d := range userFiles {
		w.m.files[p] = d
	}
	w.cs = probe()
	w.open("first start")
	return w
}

var probed int

// probe learns the chunk size of shared files.
func probe() int {
	if probed != 0 {
		return probed
	}
	host, fs := h.NewHost("probe", [4]byte{10, 0, 0, 9})
	fs.Put("/data/a", []byte("x"))
	h.In(vs.NewProc(host, "probe", nil), func() {
		c, err := catalogue.NewCat("/cat", dlDir)
		h.Must(err == nil && c.Init() == nil, "a catalogue cannot be opened")
		_, err = c.ShareFile("/data/a")
		h.Must(err == nil, "a file cannot be shared: %v", err)
		l, err := c.ListFiles()
		h.Must(err == nil && len(l) == 1, "a shared file is not listed: %v", err)
		probed = l[0].ChunkSize
	})
	h.Must(probed > 5000, "the chunk size of shared files is %d", probed)
	return probed
}

// start opens the catalogue in a new process.
func (w *world) start() (why string, err error) {
	w.n++
	w.p = vs.NewProc(w.host, fmt.Sprintf("daemon%d", w.n), nil)
	alive, why := h.In(w.p, func() {
		w.c, err = catalogue.NewCat(w.dir, dlDir)
		if err == nil {
			err = w.c.Init()
		}
	})
	if alive {
		why = ""
	}
	return
}

func (w *world) open(when string) {
	why, err := w.start()
	h.Must(why == "", "%s: opening the catalogue crashed: %s", when, why)
	h.Must(err == nil, "%s: the catalogue cannot be opened: %v", when, err)
}

func (w *world) stop() {
	if alive, _, _ := w.p.State(); alive {
		w.p.Kill("restart")
	}
}

// run executes f in the daemon process; "" unless the process died.
func (w *world) run(f func()) string {
	if alive, why := h.In(w.p, f); !alive {
		return why
	}
	return ""
}

// safe is run for calls that must not crash.
func (w *world) safe(what string, f func()) {
	if why := w.run(f); why != "" {
		h.Must(false, "%s crashed: %s", what, why)
	}
}

/* operations */

// op is a catalogue call with its meaning. do returns the result in a canonical form.
type op struct {
	name string
	do   func(c *catalogue.Cat) (string, error)
	// eff is the state and result afterwards; ok = false if the call must report an error.
	eff func(m model, w *world) (after model, res string, ok bool)
	// soft: reports no errors (a query without an error result)
	soft bool
}

func chunks(size int64, cs int) int { return int((size + int64(cs) - 1) / int64(cs)) }

func opShare(p string) op {
	return op{name: "share " + p,
		do: func(c *catalogue.Cat) (string, error) {
			_, err := c.ShareFile(p)
			return "", err
		},
		eff: func(m model, w *world) (model, string, bool) {
			d, ok := m.files[p]
			if !ok || w.bad[p] {
				return m, "", false
			}
			k := sum(d)
			if _, dup := m.ents[k]; dup {
				return m, "", false
			}
			n := chunks(int64(len(d)), w.cs)
			m = m.clone()
			m.ents[k] = ent{path: p, size: int64(len(d)), cs: w.cs, n: n, have: 1<<uint(n) - 1, data: d, shared: true}
			return m, "", true
		}}
}

func opUnshare(name string, k hash) op {
	return op{name: "unshare " + name,
		do: func(c *catalogue.Cat) (string, error) { return "", c.UnshareFile(hp(k)) },
		eff: func(m model, w *world) (model, string, bool) {
			if _, ok := m.ents[k]; !ok {
				return m, "", false
			}
			m = m.clone()
			delete(m.ents, k)
			return m, "", true
		}}
}

func opRegister(name string, r remote, k hash) op {
	return op{name: "register " + name,
		do: func(c *catalogue.Cat) (string, error) {
			rec, err := c.RegisterDownload(uint64(len(r.data)), uint32(chunks(int64(len(r.data)), r.cs)), uint32(r.cs), hp(k), r.name)
			if err != nil {
				return "", err
			}
			return fmt.Sprintf("%x %d %d %s", rec.Sha1Hash.Data, rec.SizeInBytes, rec.ChunkSize, set(*rec)), nil
		},
		eff: func(m model, w *world) (model, string, bool) {
			if _, dup := m.ents[k]; dup {
				return m, "", false
			}
			p := dlDir + "/" + r.name
			if _, exists := m.files[p]; exists || m.pathUsed(p) {
				p = fmt.Sprintf("?%x", k[:4])
			}
			m = m.clone()
			e := ent{path: p, size: int64(len(r.data)), cs: r.cs, n: chunks(int64(len(r.data)), r.cs), data: r.data}
			m.ents[k] = e
			return m, fmt.Sprintf("%x %d %d %s", k, e.size, e.cs, bits(0, e.n)), true
		}}
}

func opSave(name string, r remote, k hash, i int) op {
	return op{name: fmt.Sprintf("save %s chunk %d", name, i),
		do: func(c *catalogue.Cat) (string, error) {
			lo, hi := i*r.cs, (i+1)*r.cs
			if hi > len(r.data) {
				hi = len(r.data)
			}
			var d []byte
			if lo < hi {
				d = []byte(r.data[lo:hi])
			} else {
				d = []byte("beyond"[:r.cs])
			}
			return "", c.SaveChunk(hp(k), uint16(i), d)
		},
		eff: func(m model, w *world) (model, string, bool) {
			e, ok := m.ents[k]
			lo, hi := i*r.cs, min((i+1)*r.cs, len(r.data))
			if !ok || i >= e.n || hi-lo != len(e.chunk(i)) {
				return m, "", false
			}
			m = m.clone()
			e.have |= 1 << uint(i)
			m.ents[k] = e
			f := []byte(m.files[e.path])
			c := r.data[lo:hi]
			lo = i * e.cs
			for len(f) < lo+len(c) {
				f = append(f, 0)
			}
			copy(f[lo:], c)
			m.files[e.path] = string(f)
			return m, "", true
		}}
}

func opSaveWrong(name string, k hash, i, n int) op {
	return op{name: fmt.Sprintf("save %s chunk %d with %d bytes", name, i, n),
		do:  func(c *catalogue.Cat) (string, error) { return "", c.SaveChunk(hp(k), uint16(i), make([]byte, n)) },
		eff: func(m model, w *world) (model, string, bool) { return m, "", false }}
}

func bits(have uint64, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte("-#"[have>>uint(i)&1])
	}
	return b.String()
}

// set renders the chunks of an entry as the catalogue shows it.
func set(r catalogue.IndexRecordExport) string {
	n := r.Progress.Size()
	if n > 64 {
		return fmt.Sprintf("%d chunks", n)
	}
	var v uint64
	for i := 0; i < n; i++ {
		if r.Progress.Get(uint64(i)) {
			v |= 1 << uint(i)
		}
	}
	return bits(v, n)
}

func listing(l []catalogue.IndexRecordExport) string {
	var out []string
	for _, r := range l {
		out = append(out, fmt.Sprintf("%x %d %d %s", r.Sha1Hash.Data, r.SizeInBytes, r.ChunkSize, set(r)))
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func opList() op {
	return op{name: "list",
		do: func(c *catalogue.Cat) (string, error) {
			l, err := c.ListFiles()
			if err != nil {
				return "", err
			}
			return listing(l), nil
		},
		eff: func(m model, w *world) (model, string, bool) {
			var out []string
			for k, e := range m.ents {
				out = append(out, fmt.Sprintf("%x %d %d %s", k, e.size, e.cs, bits(e.have, e.n)))
			}
			sort.Strings(out)
			return m, strings.Join(out, "; "), true
		}}
}

func opContains(name string, k hash) op {
	return op{name: "look up " + name,
		do: func(c *catalogue.Cat) (string, error) {
			r, err := c.Contains(hp(k))
			if err != nil {
				return "", err
			}
			return fmt.Sprintf("%x %d %d %s", r.Sha1Hash.Data, r.SizeInBytes, r.ChunkSize, set(*r)), nil
		},
		eff: func(m model, w *world) (model, string, bool) {
			e, ok := m.ents[k]
			return m, fmt.Sprintf("%x %d %d %s", k, e.size, e.cs, bits(e.have, e.n)), ok
		}}
}

func opMissing(name string, k hash) op {
	return op{name: "missing chunks of " + name, soft: true,
		do: func(c *catalogue.Cat) (string, error) {
			var v uint64
			for _, r := range c.MissingChunks(hp(k), 1000) {
				if r.End > 63 {
					return fmt.Sprintf("range %v", r), nil
				}
				for i := r.Start; i <= r.End; i++ {
					v |= 1 << uint(i)
				}
			}
			return fmt.Sprintf("%x", v), nil
		},
		eff: func(m model, w *world) (model, string, bool) {
			e, ok := m.ents[k]
			if !ok {
				return m, "0", true
			}
			return m, fmt.Sprintf("%x", ^e.have&(1<<uint(e.n)-1)), true
		}}
}

func opComplete(name string, k hash) op {
	return op{name: "is complete: " + name, soft: true,
		do: func(c *catalogue.Cat) (string, error) { return fmt.Sprint(c.FileComplete(hp(k))), nil },
		eff: func(m model, w *world) (model, string, bool) {
			e, ok := m.ents[k]
			return m, fmt.Sprint(ok && e.full()), true
		}}
}

func opRead(name string, k hash, i int) op {
	return op{name: fmt.Sprintf("read %s chunk %d", name, i),
		do: func(c *catalogue.Cat) (string, error) {
			cr, err := c.GetChunkReader(hp(k), int64(i))
			if err != nil {
				return "", err
			}
			var buf bytes.Buffer
			b := make([]byte, 512)
			for {
				n, off, err := cr.Read(b)
				if int(off) != buf.Len() && n > 0 {
					return fmt.Sprintf("bytes at offset %d follow offset %d", off, buf.Len()), nil
				}
				buf.Write(b[:n])
				if err == io.EOF {
					break
				}
				if err != nil {
					return "", err
				}
			}
			return fmt.Sprintf("%d %x %x", cr.Size, cr.Hash.Data, sha1.Sum(buf.Bytes())), nil
		},
		eff: func(m model, w *world) (model, string, bool) {
			e, ok := m.ents[k]
			if !ok || i >= e.n || e.have>>uint(i)&1 == 0 {
				return m, "", false
			}
			f, ok := m.files[e.path]
			lo, hi := i*e.cs, i*e.cs+len(e.chunk(i))
			if !ok || len(f) < hi {
				return m, "", false
			}
			s := sha1.Sum([]byte(f[lo:hi]))
			return m, fmt.Sprintf("%d %x %x", hi-lo, s, s), true
		}}
}

func opRehash(name string, k hash) op {
	return op{name: "rehash " + name,
		do: func(c *catalogue.Cat) (string, error) {
			s, err := c.Rehash(hp(k))
			if err != nil {
				if s == nil || !s.IsBlank() {
					return "", fmt.Errorf("rehash failed without a blank hash: %v", err)
				}
				return "", err
			}
			return fmt.Sprintf("%x", s.Data), nil
		},
		eff: func(m model, w *world) (model, string, bool) {
			e, ok := m.ents[k]
			f, exists := m.files[e.path]
			return m, fmt.Sprintf("%x", sum(f)), ok && exists
		}}
}

/* comparing the catalogue with the model */

// got is what the catalogue lists.
type got struct {
	path string
	size int64
	cs   int
	set  string
}

func (w *world) listed() (map[hash]got, error) {
	out := map[hash]got{}
	var err error
	w.safe("listing", func() {
		var l []catalogue.IndexRecordExport
		if l, err = w.c.ListFiles(); err != nil {
			return
		}
		for _, r := range l {
			if _, dup := out[r.Sha1Hash.Data]; dup {
				err = fmt.Errorf("%x is listed twice", r.Sha1Hash.Data)
			}
			out[r.Sha1Hash.Data] = got{r.FilePath, r.SizeInBytes, r.ChunkSize, set(r)}
		}
	})
	return out, err
}

// match compares a listing with a model and, if it fits, fills in paths the catalogue was free to choose.
func (w *world) match(l map[hash]got, m model) (model, string) {
	m = m.clone()
	used := map[string]bool{}
	for k, e := range m.ents {
		g, ok := l[k]
		if !ok {
			return m, fmt.Sprintf("%s is not listed", e.path)
		}
		if e.path[0] == '?' {
			_, exists := m.files[g.path]
			if path.Dir(g.path) != dlDir || exists || m.pathUsed(g.path) {
				return m, fmt.Sprintf("the download is at %q, which is not an unused path in the downloads directory", g.path)
			}
			if d, ok := m.files[e.path]; ok {
				delete(m.files, e.path)
				m.files[g.path] = d
			}
			e.path = g.path
			m.ents[k] = e
		}
		want := got{e.path, e.size, e.cs, bits(e.have, e.n)}
		if g != want {
			return m, fmt.Sprintf("listed as %v, want %v", g, want)
		}
		if used[e.path] && !e.shared {
			return m, "two entries are at " + e.path
		}
		used[e.path] = used[e.path] || !e.shared
	}
	if len(l) != len(m.ents) {
		return m, fmt.Sprintf("%d files are listed, want %d", len(l), len(m.ents))
	}
	return m, ""
}

// queries are all the lookups whose answers the model fixes.
func queries(m model) (out []op) {
	out = append(out, opList())
	for _, k := range universe {
		n := fmt.Sprintf("%x", k[:3])
		out = append(out, opContains(n, k), opMissing(n, k), opComplete(n, k), opRehash(n, k))
		chunks := m.ents[k].n
		for i := 0; i <= chunks; i++ {
			out = append(out, opRead(n, k, i))
		}
	}
	return
}

// check runs op o against the model (which it advances) and requires agreement.
func (w *world) check(when string, o op) {
	w.checkAll(when, []op{o})
	if strings.HasPrefix(o.name, "register") {
		w.resolve(when + ", " + o.name)
	}
}

// checkAll runs several calls in one goroutine.
func (w *world) checkAll(when string, ops []op) {
	name := ""
	why := w.run(func() {
		for _, o := range ops {
			name = o.name
			after, want, ok := o.eff(w.m, w)
			res, err := o.do(w.c)
			if !ok {
				h.Must(err != nil, "%s: %s succeeded (%s) although it had to report an error", when, o.name, res)
				continue
			}
			h.Must(err == nil, "%s: %s failed: %v", when, o.name, err)
			h.Must(res == want, "%s: %s says %q, want %q", when, o.name, res, want)
			w.m = after
		}
	})
	h.Must(why == "", "%s: %s crashed: %s", when, name, why)
}

// resolve learns a freely chosen path.
func (w *world) resolve(when string) {
	for _, e := range w.m.ents {
		if e.path[0] == '?' {
			l, err := w.listed()
			h.Must(err == nil, "%s: listing failed: %v", when, err)
			m, diff := w.match(l, w.m)
			h.Must(diff == "", "%s: %s", when, diff)
			w.m = m
		}
	}
}

// verify checks everything that can be asked.
func (w *world) verify(when string) {
	l, err := w.listed()
	h.Must(err == nil, "%s: listing failed: %v", when, err)
	m, diff := w.match(l, w.m)
	h.Must(diff == "", "%s: %s", when, diff)
	w.m = m
	w.checkAll(when, queries(w.m))
	w.checkFiles(when)
}

// userTree is every file outside the catalogue's own directory.
func (w *world) userTree() map[string]string {
	out := map[string]string{}
	all := w.fs.Snapshot()
	for p, d := range all {
		if d == "<dir>" || strings.HasPrefix(p, "/cat") {
			continue
		}
		if strings.HasPrefix(d, "<link to ") {
			if dir, err := w.fs.Follow(p); err == nil && all[dir] == "<dir>" {
				for q, c := range all {
					if strings.HasPrefix(q, dir+"/") && !strings.HasPrefix(c, "<dir>") {
						out[p+q[len(dir):]] = c
					}
				}
			}
		}
		if c, ok := w.fs.Get(p); ok { // a link has the content of its target
			out[p] = string(c)
		}
	}
	return out
}

// checkFiles requires that exactly the files that the model knows exist, with the bytes that must be there.
func (w *world) checkFiles(when string) {
	diff := filesDiffer(w.m, w.userTree())
	h.Must(diff == "", "%s: %s", when, diff)
}

func filesDiffer(m model, t map[string]string) string {
	extra := map[string]int{}
	for p, d := range m.files {
		if p[0] == '?' { // left by a download whose path was never learnt
			extra[d]++
			continue
		}
		g, ok := t[p]
		if !ok {
			return fmt.Sprintf("the file %s has vanished", p)
		}
		if g != d {
			return fmt.Sprintf("the content of %s is wrong (%d bytes, want %d)", p, len(g), len(d))
		}
	}
	for p, d := range t {
		_, ok := m.files[p]
		if !ok && path.Dir(p) == dlDir && extra[d] > 0 {
			extra[d]--
			ok = true
		}
		if !ok {
			return fmt.Sprintf("the file %s has appeared", p)
		}
	}
	return ""
}

// restart ends the process and opens the catalogue in a new one.
func (w *world) restart(move bool) {
	w.stop()
	if move {
		to := "/cat2"
		if w.dir == to {
			to = "/cat"
		}
		w.fs.Move(w.dir, to)
		w.dir = to
	}
	w.open("restart")
}
