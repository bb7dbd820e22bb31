// Package os replaces the standard os package in instrumented code: files live in an in-memory file
// system that belongs to the virtual host of the running process.
package os

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	real "os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/mc/vs"
)

type node struct {
	dir    bool
	link   string // the target of a symbolic link
	data   []byte
	far    int64            // size, if the file is sparse
	high   map[int64][]byte // the pages of a sparse file beyond dense bytes
	mode   fs.FileMode
	mtime  time.Time
	links  int
	denied bool  // may not be opened
	bad    int64 // reading fails after bad-1 bytes, if it is not 0
}

// Op is one mutating primitive in the order it took effect.
type Op struct {
	Kind string
	Path string
	Off  int64
	N    int
}

// FaultMode selects which environment answers the explorer may choose at file-system calls.
type FaultMode struct {
	Crash    bool // the process dies before a mutating call, or inside a write
	Error    bool // the call fails
	Short    bool // a read returns fewer bytes than asked (legal), a write writes fewer and fails
	ReadErr  bool // only reads may fail
	OnlyPath string
}

// FS is the file system of one host.
type FS struct {
	nodes  map[string]*node
	links  bool // whether there have ever been symbolic links
	Log    []Op
	Faults FaultMode
	Full   int // 1: there is no space left, 2: the disk is read-only
	opens  []*openRec
	Calls  int
	Failed []string // injected failures, in order
}

type openRec struct {
	path   string
	proc   *vs.Proc
	closed *bool
}

// NewFS returns a file system holding only standard directories.
func NewFS() *FS {
	f := &FS{nodes: map[string]*node{}}
	for _, d := range []string{"/", "/tmp", "/home", "/home/u"} {
		f.nodes[d] = &node{dir: true, mode: fs.ModeDir | 0777}
	}
	return f
}

// Clone copies the file system (not open files or logs).
func (f *FS) Clone() *FS {
	g := &FS{nodes: map[string]*node{}, links: f.links}
	for p, n := range f.nodes {
		m := *n
		m.data = append([]byte(nil), n.data...)
		m.high = nil
		for i, p := range n.high {
			m.page(i, true)
			copy(m.high[i], p)
		}
		g.nodes[p] = &m
	}
	return g
}

// Snapshot maps every path to its content ("<dir>" for directories).
func (f *FS) Snapshot() map[string]string {
	out := map[string]string{}
	vs.IO(func() {
		for p, n := range f.nodes {
			if n.dir {
				out[p] = "<dir>"
			} else if n.link != "" {
				out[p] = "<link to " + n.link + ">"
			} else {
				out[p] = n.contents()
			}
		}
	})
	return out
}

// Put writes a file from the harness, creating parents; nil data with dir semantics via PutDir.
func (f *FS) Put(p string, data []byte) {
	vs.IO(func() {
		p = f.real(p)
		f.mkparents(p)
		f.nodes[p] = &node{data: append([]byte(nil), data...), mode: 0666}
	})
}

// PutLink makes a symbolic link from the harness.
func (f *FS) PutLink(p, target string) {
	vs.IO(func() {
		p = f.real(p)
		f.mkparents(p)
		f.nodes[p] = &node{link: target, mode: fs.ModeSymlink | 0777}
		f.links = true
	})
}

// Follow is where p is once its symbolic links are followed, for the harness.
func (f *FS) Follow(p string) (q string, err error) {
	vs.IO(func() { q, err = f.resolve(path.Clean(p), true) })
	return
}

// real is the path that p, which need not exist, stands for; a symbolic link at its end stands for itself.
func (f *FS) real(p string) string {
	if q, err := f.resolve(path.Clean(p), false); err == nil {
		return q
	}
	return path.Clean(p)
}

// resolve follows the symbolic links in an absolute path; the one at its end only if last is set.
func (f *FS) resolve(p string, last bool) (string, error) {
	if !f.links || p == "" {
		return p, nil
	}
	hops := 0
	done, rest := "/", strings.Split(strings.TrimPrefix(p, "/"), "/")
	for len(rest) > 0 {
		c := rest[0]
		rest = rest[1:]
		switch c {
		case "", ".":
			continue
		case "..":
			done = path.Dir(done)
			continue
		}
		done = path.Join(done, c)
		n := f.nodes[done]
		if n == nil || n.link == "" || len(rest) == 0 && !last {
			if n != nil && n.link == "" && !n.dir && len(rest) > 0 {
				return "", syscall.ENOTDIR
			}
			if n == nil && len(rest) > 0 {
				return path.Join(done, path.Join(rest...)), nil // the caller finds what is missing
			}
			continue
		}
		if hops++; hops > 40 {
			return "", syscall.ELOOP
		}
		if strings.HasPrefix(n.link, "/") {
			done = "/"
		} else {
			done = path.Dir(done)
		}
		rest = append(strings.Split(n.link, "/"), rest...)
	}
	return done, nil
}

// find resolves p and looks it up.
func (f *FS) find(p string, last bool) (string, *node, error) {
	q, err := f.resolve(p, last)
	if err != nil {
		return q, nil, err
	}
	n, err := f.lookup(q)
	return q, n, err
}

// Grow extends a file from the harness.
func (f *FS) Grow(p string, size int64) {
	vs.IO(func() { f.nodes[f.real(p)].resize(size) })
}

// Spoil makes a file that the program may not open, or that it can read only the first from bytes of (unless from is
// negative).
func (f *FS) Spoil(p string, denied bool, from int64) {
	vs.IO(func() {
		p, _ := f.resolve(path.Clean(p), true)
		f.nodes[p].denied, f.nodes[p].bad = denied, from+1
	})
}

// PutDir creates a directory from the harness.
func (f *FS) PutDir(p string) {
	vs.IO(func() {
		p = f.real(p)
		f.mkparents(p)
		f.nodes[p] = &node{dir: true, mode: fs.ModeDir | 0777}
	})
}

// Del removes a path from the harness.
func (f *FS) Del(p string) {
	vs.IO(func() {
		p = f.real(p)
		for q := range f.nodes {
			if q == p || strings.HasPrefix(q, p+"/") {
				delete(f.nodes, q)
			}
		}
	})
}

// Move renames a subtree from the harness.
func (f *FS) Move(from, to string) {
	vs.IO(func() {
		f.mkparents(to)
		for _, q := range f.sorted() {
			if q == from || strings.HasPrefix(q, from+"/") {
				f.nodes[to+q[len(from):]] = f.nodes[q]
				delete(f.nodes, q)
			}
		}
	})
}

// Get reads a file from the harness.
func (f *FS) Get(p string) (data []byte, ok bool) {
	vs.IO(func() {
		p, err := f.resolve(path.Clean(p), true)
		if n := f.nodes[p]; err == nil && n != nil && !n.dir {
			data, ok = []byte(n.contents()), true
		}
	})
	return
}

func (f *FS) sorted() []string {
	var out []string
	for p := range f.nodes {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

func (f *FS) mkparents(p string) {
	d := path.Dir(path.Clean(p))
	if f.nodes[d] == nil {
		f.mkparents(d)
		f.nodes[d] = &node{dir: true, mode: fs.ModeDir | 0777}
	}
}

// OpenFiles lists files that process p has opened and not closed. Those it has lost count, too: the runtime closes
// them only once it happens to collect garbage, and until then they use up descriptors.
func (f *FS) OpenFiles(p *vs.Proc) []string {
	var out []string
	vs.IO(func() {
		for _, o := range f.opens {
			if o.proc == p && !*o.closed {
				out = append(out, o.path)
			}
		}
	})
	return out
}

var nilFS = NewFS()

// Current returns the file system of the running process (or a scratch one outside any process).
func Current() *FS {
	if g := vs.Cur(); g != nil && g.Proc != nil && g.Proc.Host.FS != nil {
		return g.Proc.Host.FS.(*FS)
	}
	return nilFS
}

func curProc() *vs.Proc {
	if g := vs.Cur(); g != nil {
		return g.Proc
	}
	return nil
}

const cwd = "/home/u"

func abs(p string) string {
	if p == "" {
		return ""
	}
	if !strings.HasPrefix(p, "/") {
		p = workDir() + "/" + p
	}
	return path.Clean(p)
}

func perr(op, p string, e error) error { return &fs.PathError{Op: op, Path: p, Err: e} }

// answer is what the environment does with a call.
type answer struct {
	err  error // fail with this error
	n    int   // bytes to transfer for reads and writes (when >= 0)
	tear int   // crash after this many bytes (when >= 0)
}

// call is the entry of every file-system call: a scheduling point and a fault point.
func (f *FS) call(kind, p string, mutating bool, size int) answer {
	ok := answer{n: -1, tear: -1}
	g := vs.Cur()
	if g == nil || g.Proc == nil {
		return ok
	}
	if vs.Cfg().FSPoints {
		vs.Point("fs " + kind + " " + path.Base(p))
	}
	var fm FaultMode
	full := 0
	vs.IO(func() { f.Calls++; fm = f.Faults; full = f.Full })
	if full == 1 && kind == "write" {
		return answer{err: syscall.ENOSPC, n: -1, tear: -1}
	}
	if full == 2 && mutating {
		return answer{err: syscall.EROFS, n: -1, tear: -1}
	}
	if !fm.Crash && !fm.Error && !fm.Short && !fm.ReadErr {
		return ok
	}
	if fm.OnlyPath != "" && !strings.HasPrefix(p, fm.OnlyPath) {
		return ok
	}
	type alt struct {
		name string
		a    answer
	}
	alts := []alt{{"ok", ok}}
	if fm.Crash && mutating {
		alts = append(alts, alt{"crash before", answer{n: -1, tear: 0}})
		if kind == "write" && size > 1 {
			for _, k := range dedup([]int{1, size / 2, size - 1}) {
				alts = append(alts, alt{fmt.Sprintf("crash after %d of %d bytes", k, size), answer{n: -1, tear: k}})
			}
		}
	}
	if fm.Error || fm.ReadErr && kind == "read" {
		e := syscall.EIO
		if kind == "write" {
			e = syscall.ENOSPC
		}
		alts = append(alts, alt{"error", answer{err: e, n: -1, tear: -1}})
	}
	if fm.Short && size > 1 {
		switch kind {
		case "write":
			for _, k := range dedup([]int{1, size - 1}) {
				alts = append(alts, alt{fmt.Sprintf("short write %d of %d", k, size), answer{err: syscall.ENOSPC, n: k, tear: -1}})
			}
		case "read":
			for _, k := range dedup([]int{1, size - 1}) {
				alts = append(alts, alt{fmt.Sprintf("short read %d of %d", k, size), answer{n: k, tear: -1}})
			}
		}
	}
	c := vs.Choose(vs.Fault, len(alts), "fs "+kind+" "+p)
	if c > 0 {
		vs.IO(func() { f.Failed = append(f.Failed, kind+" "+p+": "+alts[c].name) })
		vs.Note("fs fault: %s %s: %s", kind, p, alts[c].name)
	}
	a := alts[c].a
	if a.tear == 0 {
		vs.ExitProc(137, "crash injected before "+kind+" "+p)
	}
	return a
}

func dedup(in []int) []int {
	var out []int
	for _, k := range in {
		dup := k <= 0
		for _, o := range out {
			dup = dup || o == k
		}
		if !dup {
			out = append(out, k)
		}
	}
	return out
}

func (f *FS) log(kind, p string, off int64, n int) {
	f.Log = append(f.Log, Op{kind, p, off, n})
}

// lookup checks the path's parents and returns the node or nil.
func (f *FS) lookup(p string) (*node, error) {
	if p == "" {
		return nil, syscall.ENOENT
	}
	if len(path.Base(p)) > 255 {
		return nil, syscall.ENAMETOOLONG
	}
	if strings.Contains(p, "\x00") {
		return nil, syscall.EINVAL
	}
	d := path.Dir(p)
	if d != p {
		// every ancestor must be a directory
		pn := f.nodes[d]
		if pn == nil {
			// distinguish a missing parent from a file used as directory
			for q := d; q != "/"; q = path.Dir(q) {
				if n := f.nodes[q]; n != nil {
					if !n.dir {
						return nil, syscall.ENOTDIR
					}
					break
				}
			}
			return nil, syscall.ENOENT
		}
		if !pn.dir {
			return nil, syscall.ENOTDIR
		}
	}
	return f.nodes[p], nil
}

type File struct {
	name   string
	path   string
	n      *node
	fs     *FS
	off    int64
	flag   int
	closed bool
	isShut *bool
	listed bool
	dirpos int
	std    int // 1: stdout/stderr of the process, 2: stdin
}

func now() time.Time {
	if vs.Cur() == nil {
		return base
	}
	return base.Add(time.Duration(vs.Now()))
}

var base = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	f := Current()
	p := abs(name)
	mut := flag&(O_CREATE|O_TRUNC) != 0
	if a := f.call("open", p, mut, 0); a.err != nil {
		return nil, perr("open", name, a.err)
	}
	var res *File
	var err error
	t := now()
	vs.IO(func() {
		var n *node
		p, n, err = f.find(p, flag&(O_CREATE|O_EXCL) != O_CREATE|O_EXCL)
		if err != nil {
			err = perr("open", name, err)
			return
		}
		wr := flag&(O_WRONLY|O_RDWR) != 0
		switch {
		case n != nil && !n.dir && strings.HasSuffix(name, "/") && flag&O_CREATE != 0:
			err = perr("open", name, syscall.EISDIR)
			return
		case n != nil && !n.dir && strings.HasSuffix(name, "/"):
			err = perr("open", name, syscall.ENOTDIR)
			return
		case n != nil && n.denied:
			err = perr("open", name, syscall.EACCES)
			return
		case n == nil && flag&O_CREATE == 0:
			err = perr("open", name, syscall.ENOENT)
			return
		case n == nil && strings.HasSuffix(name, "/"):
			err = perr("open", name, syscall.EISDIR)
			return
		case n == nil:
			n = &node{mode: perm & 0777, mtime: t, links: 1}
			f.nodes[p] = n
			f.log("create", p, 0, 0)
		case flag&O_CREATE != 0 && flag&O_EXCL != 0:
			err = perr("open", name, syscall.EEXIST)
			return
		case n.dir && wr:
			err = perr("open", name, syscall.EISDIR)
			return
		case n.dir && flag&O_CREATE != 0:
			err = perr("open", name, syscall.EISDIR)
			return
		case flag&O_TRUNC != 0 && wr:
			if n.size() > 0 {
				f.log("truncate", p, 0, 0)
			}
			n.resize(0)
			n.mtime = t
		}
		shut := new(bool)
		res = &File{name: name, path: p, n: n, fs: f, flag: flag, isShut: shut}
		f.opens = append(f.opens, &openRec{path: p, proc: curProc(), closed: shut})
	})
	return res, err
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

var tempSeq int

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	f := Current()
	for i := 1; ; i++ {
		p := filepath.Join(dir, fmt.Sprintf("%s%06d%s", pre, i, suf))
		ok := false
		vs.IO(func() { ok = f.nodes[abs(p)] == nil })
		if ok {
			return p
		}
	}
}

func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(tempName(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	p := tempName(dir, pattern)
	return p, Mkdir(p, 0700)
}

func (f *File) check(op string) error {
	if f == nil {
		return real.ErrInvalid
	}
	shut := false
	vs.IO(func() { shut = f.closed })
	if shut {
		return perr(op, f.name, real.ErrClosed)
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 99 }

func (f *File) read(b []byte, off int64) (int, error) {
	if f.n == nil {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if f.flag&(O_WRONLY|O_RDWR) == O_WRONLY {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	avail := 0
	vs.IO(func() {
		if d := f.n.size() - off; d > 0 {
			avail = len(b)
			if int64(avail) > d {
				avail = int(d)
			}
		}
	})
	a := f.fs.call("read", f.path, false, avail)
	if a.err != nil {
		return 0, perr("read", f.name, a.err)
	}
	if f.n.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if off < 0 {
		return 0, perr("readat", f.name, fmt.Errorf("negative offset"))
	}
	n := 0
	bad := false
	vs.IO(func() {
		if end := f.n.bad - 1; f.n.bad > 0 && off+int64(len(b)) > end {
			if bad = off >= end && off < f.n.size(); off < end {
				b = b[:end-off]
			}
		}
		if a.n >= 0 && a.n < len(b) {
			n = f.n.readAt(b[:a.n], off)
		} else {
			n = f.n.readAt(b, off)
		}
	})
	if bad {
		return 0, perr("read", f.name, syscall.EIO)
	}
	if n == 0 && len(b) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.std != 0 {
		return 0, io.EOF
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.listed {
		return 0, perr("read", f.name, syscall.EINVAL)
	}
	var off int64
	vs.IO(func() { off = f.off })
	n, err := f.read(b, off)
	vs.IO(func() { f.off = off + int64(n) })
	if n > 0 && vs.Cfg().FSPoints {
		vs.Point("fs read done " + path.Base(f.path)) // b may be in use elsewhere
	}
	return n, err
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f != nil && off < 0 {
		return 0, perr("readat", f.name, errors.New("negative offset"))
	}
	if err := f.check("read"); err != nil {
		return 0, err
	}
	tot := 0
	for tot < len(b) {
		n, err := f.read(b[tot:], off+int64(tot))
		tot += n
		if err != nil {
			return tot, err
		}
	}
	if tot > 0 && vs.Cfg().FSPoints {
		vs.Point("fs read done " + path.Base(f.path))
	}
	return tot, nil
}

func (f *File) write(b []byte, off int64, app bool) (int, error) {
	if f.n == nil || f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	a := f.fs.call("write", f.path, true, len(b))
	if a.err != nil && a.n < 0 {
		return 0, perr("write", f.name, a.err)
	}
	data := b
	if a.n >= 0 && a.n < len(data) {
		data = data[:a.n]
	}
	if a.tear >= 0 && a.tear < len(data) {
		data = data[:a.tear]
	}
	if off < 0 {
		return 0, perr("writeat", f.name, fmt.Errorf("negative offset"))
	}
	if off+int64(len(data)) > maxSize {
		return 0, perr("write", f.name, syscall.EFBIG)
	}
	t := now()
	vs.IO(func() {
		if app {
			off = f.n.size()
		}
		f.n.writeAt(data, off)
		f.n.mtime = t
		f.fs.log("write", f.path, off, len(data))
	})
	if a.tear >= 0 {
		vs.ExitProc(137, "crash injected inside a write to "+f.path)
	}
	if a.err != nil {
		return len(data), perr("write", f.name, a.err)
	}
	return len(data), nil
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.std != 0 {
		stdout(string(b))
		return len(b), nil
	}
	var off int64
	vs.IO(func() { off = f.off })
	n, err := f.write(b, off, f.flag&O_APPEND != 0)
	vs.IO(func() {
		if len(b) == 0 {
			return
		}
		if f.flag&O_APPEND != 0 {
			f.off = f.n.size()
		} else {
			f.off = off + int64(n)
		}
	})
	return n, err
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f != nil && f.flag&O_APPEND != 0 {
		return 0, errAppend
	}
	if f != nil && off < 0 {
		return 0, perr("writeat", f.name, errors.New("negative offset"))
	}
	if err := f.check("write"); err != nil {
		return 0, err
	}
	return f.write(b, off, false)
}

var errAppend = errors.New("os: invalid use of WriteAt on file opened with O_APPEND")

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

type onlyWriter struct{ io.Writer }
type onlyReader struct{ io.Reader }

func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyWriter{f}, r) }
func (f *File) WriteTo(w io.Writer) (int64, error)  { return io.Copy(w, onlyReader{f}) }

func (f *File) Seek(offset int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		vs.IO(func() { offset += f.off })
	case io.SeekEnd:
		vs.IO(func() { offset += f.n.size() })
	}
	if offset < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	vs.IO(func() { f.off = offset })
	return offset, nil
}

func (f *File) Close() error {
	if f == nil {
		return real.ErrInvalid
	}
	if f.std != 0 {
		return nil
	}
	if err := f.check("close"); err != nil {
		return err
	}
	a := f.fs.call("close", f.path, false, 0)
	vs.IO(func() { f.closed = true; *f.isShut = true })
	if a.err != nil {
		return perr("close", f.name, a.err)
	}
	return nil
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if f.std != 0 {
		return nil
	}
	if a := f.fs.call("sync", f.path, false, 0); a.err != nil {
		return perr("sync", f.name, a.err)
	}
	return nil
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return perr("truncate", f.name, syscall.EINVAL)
	}
	return truncate(f.fs, f.n, f.path, f.name, size)
}

func truncate(f *FS, n *node, p, name string, size int64) error {
	if a := f.call("truncate", p, true, 0); a.err != nil {
		return perr("truncate", name, a.err)
	}
	if size < 0 || size > maxSize {
		return perr("truncate", name, syscall.EINVAL)
	}
	vs.IO(func() {
		n.resize(size)
		f.log("truncate", p, size, 0)
	})
	return nil
}

func (f *File) Chmod(mode FileMode) error {
	if err := f.check("chmod"); err != nil {
		return err
	}
	vs.IO(func() { f.n.mode = f.n.mode&^0777 | mode&0777 })
	return nil
}
func (f *File) Chown(uid, gid int) error           { return f.check("chown") }
func (f *File) Chdir() error                       { return f.check("chdir") }
func (f *File) SetDeadline(t time.Time) error      { return real.ErrNoDeadline }
func (f *File) SetReadDeadline(t time.Time) error  { return real.ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error { return real.ErrNoDeadline }

type info struct {
	name string
	size int64
	mode fs.FileMode
	mt   time.Time
	n    *node
}

func (i info) Name() string               { return i.name }
func (i info) Size() int64                { return i.size }
func (i info) Mode() fs.FileMode          { return i.mode }
func (i info) ModTime() time.Time         { return i.mt }
func (i info) IsDir() bool                { return i.mode.IsDir() }
func (i info) Sys() any                   { return nil }
func (i info) Type() fs.FileMode          { return i.mode.Type() }
func (i info) Info() (fs.FileInfo, error) { return i, nil }

func SameFile(a, b FileInfo) bool {
	x, ok := a.(info)
	y, ok2 := b.(info)
	return ok && ok2 && x.n == y.n
}

func mkinfo(p string, n *node) info {
	m := n.mode
	if n.dir {
		m |= fs.ModeDir
	}
	if n.link != "" {
		return info{path.Base(p), int64(len(n.link)), m, n.mtime, n}
	}
	return info{path.Base(p), n.size(), m, n.mtime, n}
}

func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if f.std != 0 {
		return info{name: f.name, mode: fs.ModeCharDevice}, nil
	}
	if a := f.fs.call("stat", f.path, false, 0); a.err != nil {
		return nil, perr("stat", f.name, a.err)
	}
	var i info
	vs.IO(func() { i = mkinfo(f.path, f.n) })
	return i, nil
}

func statOp(op, name string) (FileInfo, error) {
	f := Current()
	p := abs(name)
	if a := f.call("stat", p, false, 0); a.err != nil {
		return nil, perr(op, name, a.err)
	}
	var i info
	var err error
	vs.IO(func() {
		_, n, e := f.find(p, op == "stat" || strings.HasSuffix(name, "/"))
		if e == nil && n == nil {
			e = syscall.ENOENT
		}
		if e == nil && strings.HasSuffix(name, "/") && !n.dir {
			e = syscall.ENOTDIR
		}
		if e != nil {
			err = perr(op, name, e)
			return
		}
		i = mkinfo(p, n)
	})
	if err != nil {
		return nil, err
	}
	return i, nil
}

func Stat(name string) (FileInfo, error)  { return statOp("stat", name) }
func Lstat(name string) (FileInfo, error) { return statOp("lstat", name) }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(onlyReader{f})
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Mkdir(name string, perm FileMode) error {
	f := Current()
	p := abs(name)
	if a := f.call("mkdir", p, true, 0); a.err != nil {
		return perr("mkdir", name, a.err)
	}
	var err error
	vs.IO(func() {
		var n *node
		var e error
		p, n, e = f.find(p, false)
		if e == nil && n != nil {
			e = syscall.EEXIST
		}
		if e != nil {
			err = perr("mkdir", name, e)
			return
		}
		f.nodes[p] = &node{dir: true, mode: fs.ModeDir | perm&0777}
		f.log("mkdir", p, 0, 0)
	})
	return err
}

func MkdirAll(name string, perm FileMode) error {
	p := abs(name)
	f := Current()
	var n *node
	vs.IO(func() {
		if q, err := f.resolve(p, true); err == nil {
			n = f.nodes[q]
		}
	})
	if n != nil {
		if n.dir {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if d := path.Dir(p); d != p {
		if err := MkdirAll(d, perm); err != nil {
			return err
		}
	}
	err := Mkdir(p, perm)
	if err != nil {
		vs.IO(func() {
			if _, n, _ = f.find(p, false); n != nil && n.dir {
				err = nil
			}
		})
	}
	return err
}

func (f *FS) hasChildren(p string) bool {
	for q := range f.nodes {
		if strings.HasPrefix(q, p+"/") {
			return true
		}
	}
	return false
}

func Remove(name string) error {
	f := Current()
	p := abs(name)
	if a := f.call("remove", p, true, 0); a.err != nil {
		return perr("remove", name, a.err)
	}
	var err error
	vs.IO(func() {
		var n *node
		var e error
		p, n, e = f.find(p, false)
		if e == nil && n == nil {
			e = syscall.ENOENT
		}
		if e == nil && n.dir && f.hasChildren(p) {
			e = syscall.ENOTEMPTY
		}
		if e == nil && !n.dir && strings.HasSuffix(name, "/") {
			e = syscall.ENOTDIR
		}
		if e != nil {
			err = perr("remove", name, e)
			return
		}
		delete(f.nodes, p)
		f.log("remove", p, 0, 0)
	})
	return err
}

func RemoveAll(name string) error {
	f := Current()
	if name == "" {
		return nil
	}
	p := abs(name)
	if a := f.call("removeall", p, true, 0); a.err != nil {
		return perr("unlinkat", name, a.err)
	}
	var err error
	vs.IO(func() {
		if _, _, e := f.find(path.Dir(p), true); e == syscall.ENOTDIR || e == syscall.ELOOP {
			err = perr("open", path.Dir(name), e)
			return
		}
		if _, _, e := f.find(p, false); e == syscall.ENOTDIR {
			err = perr("unlinkat", name, e)
			return
		}
		p = f.real(p)
		for _, q := range f.sorted() {
			if q != "/" && (q == p || strings.HasPrefix(q, strings.TrimSuffix(p, "/")+"/")) {
				delete(f.nodes, q)
				f.log("remove", q, 0, 0)
			}
		}
	})
	return err
}

func Rename(oldname, newname string) error {
	f := Current()
	o, n := abs(oldname), abs(newname)
	lerr := func(e error) error { return &LinkError{Op: "rename", Old: oldname, New: newname, Err: e} }
	if a := f.call("rename", n, true, 0); a.err != nil {
		return lerr(a.err)
	}
	var err error
	vs.IO(func() {
		var src, dst *node
		var e error
		o, src, e = f.find(o, false)
		if e != nil {
			err = lerr(e)
			return
		}
		n, dst, e = f.find(n, false)
		if e == nil && src == nil {
			e = syscall.ENOENT
		}
		if e != nil {
			err = lerr(e)
			return
		}
		if dst != nil && dst.dir && (o != n || oldname == newname) {
			err = lerr(syscall.EEXIST)
			return
		}
		if dst != nil && !dst.dir && src.dir {
			err = lerr(syscall.ENOTDIR)
			return
		}
		if src.dir && strings.HasPrefix(n, o+"/") {
			err = lerr(syscall.EINVAL)
			return
		}
		if o == n {
			return
		}
		for _, q := range f.sorted() {
			if q == o || strings.HasPrefix(q, o+"/") {
				f.nodes[n+q[len(o):]] = f.nodes[q]
				delete(f.nodes, q)
			}
		}
		f.log("rename", n, 0, 0)
	})
	return err
}

func Truncate(name string, size int64) error {
	if size < 0 {
		return perr("truncate", name, syscall.EINVAL)
	}
	f := Current()
	p := abs(name)
	var n *node
	var err error
	vs.IO(func() {
		p, n, err = f.find(p, true)
		if err == nil && n == nil {
			err = syscall.ENOENT
		}
		if err == nil && n.dir {
			err = syscall.EISDIR
		}
	})
	if err != nil {
		return perr("truncate", name, err)
	}
	return truncate(f, n, p, name, size)
}

func Chmod(name string, mode FileMode) error {
	f := Current()
	p := abs(name)
	if a := f.call("chmod", p, false, 0); a.err != nil {
		return perr("chmod", name, a.err)
	}
	var err error
	vs.IO(func() {
		_, n, e := f.find(p, true)
		if e == nil && n == nil {
			e = syscall.ENOENT
		}
		if e != nil {
			err = perr("chmod", name, e)
			return
		}
		n.mode = n.mode&^0777 | mode&0777
	})
	return err
}

func Chtimes(name string, a, m time.Time) error { _, err := Stat(name); return err }
func Chown(name string, uid, gid int) error     { _, err := Stat(name); return err }
func Lchown(name string, uid, gid int) error    { _, err := Stat(name); return err }
func Link(o, n string) error {
	return &LinkError{Op: "link", Old: o, New: n, Err: syscall.EPERM}
}
func Symlink(o, n string) error {
	f := Current()
	p := abs(n)
	a := f.call("symlink", p, true, 0)
	e := a.err
	vs.IO(func() {
		var at *node
		if e == nil {
			p, at, e = f.find(p, false)
		}
		if e == nil && at != nil {
			e = syscall.EEXIST
		}
		if e == nil && o == "" {
			e = syscall.ENOENT
		}
		if e == nil {
			f.nodes[p] = &node{link: o, mode: fs.ModeSymlink | 0777}
			f.links = true
			f.log("symlink", p, 0, 0)
		}
	})
	if e != nil {
		return &LinkError{Op: "symlink", Old: o, New: n, Err: e}
	}
	return nil
}

func Readlink(name string) (target string, err error) {
	f := Current()
	p := abs(name)
	a := f.call("stat", p, false, 0)
	e := a.err
	vs.IO(func() {
		var n *node
		if e == nil {
			_, n, e = f.find(p, false)
		}
		if e == nil && n == nil {
			e = syscall.ENOENT
		}
		if e == nil && n.link == "" {
			e = syscall.EINVAL
		}
		if e == nil {
			target = n.link
		}
	})
	if e != nil {
		return "", perr("readlink", name, e)
	}
	return target, nil
}

// Resolved is where name is once symbolic links are followed.
func Resolved(name string) (p string, err error) {
	f := Current()
	vs.IO(func() {
		var n *node
		var e error
		p, n, e = f.find(abs(name), true)
		if e == nil && n == nil {
			e = syscall.ENOENT
		}
		if e != nil {
			err = perr("lstat", name, e)
		}
	})
	return
}

func ReadDir(name string) ([]DirEntry, error) {
	f := Current()
	p := abs(name)
	if a := f.call("readdir", p, false, 0); a.err != nil {
		return nil, perr("open", name, a.err)
	}
	var out []DirEntry
	var err error
	vs.IO(func() {
		q, n, e := f.find(p, true)
		if e == nil && n == nil {
			e = syscall.ENOENT
		}
		if e == nil && !n.dir {
			e = syscall.ENOTDIR
		}
		p = q
		if e != nil {
			err = perr("open", name, e)
			return
		}
		for _, q := range f.sorted() {
			if q != "/" && path.Dir(q) == p {
				out = append(out, mkinfo(q, f.nodes[q]))
			}
		}
	})
	return out, err
}

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	if err := f.check("readdirent"); err != nil {
		return nil, perr("readdirent", f.name, errors.New("use of closed file"))
	}
	if f.n == nil || !f.n.dir {
		return nil, perr("readdirent", f.name, syscall.ENOTDIR)
	}
	at := f.path // or where it has been moved
	vs.IO(func() {
		for p, n := range f.fs.nodes {
			if n == f.n {
				at = p
			}
		}
	})
	all, err := ReadDir(at)
	if pe, ok := err.(*PathError); ok {
		pe.Op = "readdirent"
	}
	if err != nil {
		return nil, err
	}
	all = all[min(f.dirpos, len(all)):]
	if n > 0 {
		if len(all) == 0 {
			return nil, io.EOF
		}
		if len(all) > n {
			all = all[:n]
		}
	}
	f.dirpos += len(all)
	f.listed = true
	return all, nil
}

func (f *File) Readdir(n int) ([]FileInfo, error) {
	es, err := f.ReadDir(n)
	var out []FileInfo
	for _, e := range es {
		out = append(out, e.(info))
	}
	return out, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}

// Bind creates the file of a Unix socket and returns what identifies it; false if the path exists.
func (f *FS) Bind(p string) (id any, ok bool) {
	vs.IO(func() {
		p = f.real(p)
		if f.nodes[p] == nil {
			n := &node{mode: fs.ModeSocket | 0755}
			f.nodes[p] = n
			id, ok = n, true
		}
	})
	return
}

// At returns what identifies whatever is at the path.
func (f *FS) At(p string) (id any, ok bool) {
	vs.IO(func() {
		q, err := f.resolve(path.Clean(p), true)
		n := f.nodes[q]
		id, ok = n, err == nil && n != nil
	})
	return
}

// Errors lists the injected failures that the program was told about (legal short reads excluded).
func (f *FS) Errors() (out []string) {
	for _, s := range f.Failed {
		if !strings.Contains(s, ": short read ") {
			out = append(out, s)
		}
	}
	return
}
