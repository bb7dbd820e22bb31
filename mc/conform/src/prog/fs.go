// Package prog holds small programs that run both on the real packages and, instrumented, in the simulated
// environment; run.sh conform compares what they observe.
package prog

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// fsRun is the state of one sequence of file-system operations in a directory.
type fsRun struct {
	dir string
	h   []*os.File
	out strings.Builder
}

func (r *fsRun) p(n string) string { return r.dir + "/" + n }

var tmpRe = regexp.MustCompile(`\bt\d+u\b`)

func (r *fsRun) say(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	r.out.WriteString(strings.ReplaceAll(tmpRe.ReplaceAllString(strings.ReplaceAll(s, r.dir, "$"), "TMP"), "\x00", "NUL") + "\n")
}

// FSOp is one operation.
type FSOp struct {
	Name string
	Do   func(r *fsRun)
}

func (r *fsRun) last() *os.File {
	if len(r.h) == 0 {
		return nil
	}
	return r.h[len(r.h)-1]
}

// FSOps is the alphabet.
func FSOps() (out []FSOp) {
	op := func(name string, do func(r *fsRun)) { out = append(out, FSOp{name, do}) }
	flags := []struct {
		n string
		f int
	}{{"r", os.O_RDONLY}, {"rw", os.O_RDWR}, {"rw+", os.O_RDWR | os.O_CREATE}, {"w+t", os.O_WRONLY | os.O_CREATE | os.O_TRUNC},
		{"wa+", os.O_WRONLY | os.O_APPEND | os.O_CREATE}, {"x+", os.O_RDWR | os.O_CREATE | os.O_EXCL}}
	for _, n := range []string{"a", "b", "d", "d/x", "a/y", "no/z"} {
		for _, f := range flags {
			if n != "a" && n != "d" && f.n != "rw+" && f.n != "r" {
				continue
			}
			n, f := n, f
			op("open "+n+" "+f.n, func(r *fsRun) {
				h, err := os.OpenFile(r.p(n), f.f, 0644)
				r.say("%v", err)
				if err == nil {
					r.h = append(r.h, h)
				}
			})
		}
	}
	on := func(name string, do func(r *fsRun, h *os.File)) {
		op(name, func(r *fsRun) {
			if h := r.last(); h != nil {
				do(r, h)
			}
		})
	}
	on("write", func(r *fsRun, h *os.File) { n, err := h.Write([]byte("hello")); r.say("%d %v", n, err) })
	on("write nothing", func(r *fsRun, h *os.File) { n, err := h.Write(nil); r.say("%d %v", n, err) })
	on("writestring", func(r *fsRun, h *os.File) { n, err := h.WriteString("s"); r.say("%d %v", n, err) })
	for _, o := range []int64{3, 20, -1} {
		o := o
		on(fmt.Sprintf("writeat %d", o), func(r *fsRun, h *os.File) { n, err := h.WriteAt([]byte("XY"), o); r.say("%d %v", n, err) })
		on(fmt.Sprintf("readat %d", o), func(r *fsRun, h *os.File) {
			b := make([]byte, 4)
			n, err := h.ReadAt(b, o)
			r.say("%d %q %v", n, b[:n], err)
		})
	}
	on("read", func(r *fsRun, h *os.File) {
		b := make([]byte, 4)
		n, err := h.Read(b)
		r.say("%d %q %v", n, b[:n], err)
	})
	on("read nothing", func(r *fsRun, h *os.File) { n, err := h.Read(nil); r.say("%d %v", n, err) })
	on("read all", func(r *fsRun, h *os.File) { b, err := io.ReadAll(h); r.say("%q %v", b, err) })
	for _, s := range [][2]int64{{2, 0}, {-1, 1}, {0, 2}, {-100, 0}, {30, 0}} {
		s := s
		on(fmt.Sprint("seek ", s), func(r *fsRun, h *os.File) {
			if i, err := h.Stat(); err == nil && i.IsDir() {
				return // what it means depends on the file system
			}
			n, err := h.Seek(s[0], int(s[1]))
			r.say("%d %v", n, err)
		})
	}
	for _, n := range []int64{2, 12, -1} {
		n := n
		on(fmt.Sprint("truncate ", n), func(r *fsRun, h *os.File) { r.say("%v", h.Truncate(n)) })
		op(fmt.Sprint("truncate a ", n), func(r *fsRun) { r.say("%v", os.Truncate(r.p("a"), n)) })
	}
	on("close", func(r *fsRun, h *os.File) { r.say("%v", h.Close()) })
	on("sync", func(r *fsRun, h *os.File) { r.say("%v", h.Sync()) })
	on("fstat", func(r *fsRun, h *os.File) { i, err := h.Stat(); r.info(i, err) })
	on("freaddir", func(r *fsRun, h *os.File) {
		l, err := h.Readdirnames(-1)
		sort.Strings(l)
		r.say("%v %v", l, err)
	})
	on("section", func(r *fsRun, h *os.File) {
		b, err := io.ReadAll(io.NewSectionReader(h, 4, 3))
		r.say("%q %v", b, err)
	})
	op("forget", func(r *fsRun) { // go back to the handle before
		if len(r.h) > 1 {
			r.h = append([]*os.File{r.last()}, r.h[:len(r.h)-1]...)
		}
	})
	for _, n := range []string{"a", "b", "d", "d/x", "a/y", "d/"} {
		n := n
		op("stat "+n, func(r *fsRun) { i, err := os.Stat(r.p(n)); r.info(i, err) })
		op("readfile "+n, func(r *fsRun) { b, err := os.ReadFile(r.p(n)); r.say("%q %v", b, err) })
		op("writefile "+n, func(r *fsRun) { r.say("%v", os.WriteFile(r.p(n), []byte("new"), 0644)) })
		op("mkdir "+n, func(r *fsRun) { r.say("%v", os.Mkdir(r.p(n), 0755)) })
		op("remove "+n, func(r *fsRun) { r.say("%v", os.Remove(r.p(n))) })
	}
	op("lstat b", func(r *fsRun) { i, err := os.Lstat(r.p("b")); r.info(i, err) })
	op("long name", func(r *fsRun) { r.say("%v", os.WriteFile(r.p(strings.Repeat("n", 256)), nil, 0644)) })
	op("longest name", func(r *fsRun) { r.say("%v", os.WriteFile(r.p(strings.Repeat("n", 255)), nil, 0644)) })
	op("nul", func(r *fsRun) { r.say("%v", os.WriteFile(r.p("x\x00y"), nil, 0644)) })
	op("mkdirall", func(r *fsRun) { r.say("%v", os.MkdirAll(r.p("d/e/f"), 0755)) })
	op("mkdirall file", func(r *fsRun) { r.say("%v", os.MkdirAll(r.p("a/e"), 0755)) })
	op("mkdirall a", func(r *fsRun) { r.say("%v", os.MkdirAll(r.p("a"), 0755)) })
	op("removeall d", func(r *fsRun) { r.say("%v", os.RemoveAll(r.p("d"))) })
	op("removeall b", func(r *fsRun) { r.say("%v", os.RemoveAll(r.p("b"))) })
	op("readdir", func(r *fsRun) {
		l, err := os.ReadDir(r.p("d"))
		for _, e := range l {
			r.say("%s %v", e.Name(), e.IsDir())
		}
		r.say("%v", err)
	})
	for _, n := range [][2]string{{"a", "b"}, {"b", "a"}, {"a", "d"}, {"d", "a"}, {"d", "d/x/y"}, {"d", "e"}, {"a", "d/x"}, {"a", "a"}, {"d", "d"}, {"a", "no/b"}, {"e", "d"}} {
		n := n
		op("rename "+n[0]+" "+n[1], func(r *fsRun) { r.say("%v", os.Rename(r.p(n[0]), r.p(n[1]))) })
	}
	op("createtemp", func(r *fsRun) {
		h, err := os.CreateTemp(r.dir, "t*u")
		r.say("%v", err)
		if err == nil {
			_, err = h.WriteString("tmp")
			r.say("%v %v %v", err, h.Close(), os.Rename(h.Name(), r.p("b")))
		}
	})
	op("walk", func(r *fsRun) { r.say("%s", Tree(r.dir)) })
	op("glob", func(r *fsRun) { l, err := filepath.Glob(r.p("[ab]")); r.say("%v %v", l, err) })
	return
}

func makeLinks(r *fsRun) {
	for _, l := range [][2]string{{"a", "l"}, {"d", "ld"}, {"z", "lz"}, {"ll", "ll"}, {r.dir + "/d", "d/up"}, {"../a", "d/la"}, {"no/z", "ln"}, {"lz", "lzz"}} {
		r.say("%v", os.Symlink(l[0], r.p(l[1])))
	}
	r.say("%v", os.WriteFile(r.p("d/x"), []byte("xx"), 0644))
}

// LinkOps is another alphabet, for directories with symbolic links.
func LinkOps() (out []FSOp) {
	op := func(name string, do func(r *fsRun)) { out = append(out, FSOp{name, do}) }
	for _, n := range []string{"l", "ld", "lz", "ll", "ld/x", "ld/up/x", "ld/la", "d/la", "ln", "lzz", "l/x", "ld/new", "lz/x"} {
		n := n
		op("stat "+n, func(r *fsRun) {
			i, err := os.Stat(r.p(n))
			r.info(i, err)
			i, err = os.Lstat(r.p(n))
			r.info(i, err)
			t, err := os.Readlink(r.p(n))
			r.say("%s %v", t, err)
			t, err = filepath.EvalSymlinks(r.p(n))
			r.say("%s %v", t, err != nil)
		})
		op("readfile "+n, func(r *fsRun) { b, err := os.ReadFile(r.p(n)); r.say("%q %v", b, err) })
		op("writefile "+n, func(r *fsRun) { r.say("%v", os.WriteFile(r.p(n), []byte("new"), 0644)) })
		op("create "+n, func(r *fsRun) {
			h, err := os.OpenFile(r.p(n), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0644)
			r.say("%v", err)
			if err == nil {
				h.Close()
			}
		})
		op("mkdir "+n, func(r *fsRun) { r.say("%v", os.Mkdir(r.p(n), 0755)) })
		op("mkdirall "+n, func(r *fsRun) { r.say("%v", os.MkdirAll(r.p(n), 0755)) })
		op("remove "+n, func(r *fsRun) { r.say("%v", os.Remove(r.p(n))) })
		op("removeall "+n, func(r *fsRun) { err := os.RemoveAll(r.p(n)); r.say("%v", err) })
		op("truncate "+n, func(r *fsRun) { r.say("%v", os.Truncate(r.p(n), 1)) })
		op("rename a "+n, func(r *fsRun) { r.say("%v", os.Rename(r.p("a"), r.p(n))) })
		op("rename "+n+" b", func(r *fsRun) { r.say("%v", os.Rename(r.p(n), r.p("b"))) })
		op("symlink "+n, func(r *fsRun) { r.say("%v", os.Symlink("a", r.p(n))) })
		op("readdir "+n, func(r *fsRun) {
			l, err := os.ReadDir(r.p(n))
			for _, e := range l {
				r.say("%s %v", e.Name(), e.Type())
			}
			r.say("%v", err)
		})
	}
	return
}

func (r *fsRun) info(i os.FileInfo, err error) {
	if err != nil {
		r.say("%v %v %v", err, os.IsNotExist(err), os.IsExist(err))
		return
	}
	if i.IsDir() {
		r.say("%s dir %v", i.Name(), i.Mode().Type())
	} else {
		r.say("%s %d %v", i.Name(), i.Size(), i.Mode().Type())
	}
}

// Tree describes everything below a directory.
func Tree(dir string) string {
	var b strings.Builder
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			fmt.Fprintln(&b, strings.TrimPrefix(p, dir), err)
			return nil
		}
		if i.IsDir() {
			fmt.Fprintln(&b, strings.TrimPrefix(p, dir), "dir")
			return nil
		}
		if t, err := os.Readlink(p); err == nil {
			fmt.Fprintln(&b, strings.TrimPrefix(p, dir), "->", strings.TrimPrefix(t, dir))
		}
		data, err := os.ReadFile(p)
		fmt.Fprintf(&b, "%s %q %v\n", strings.TrimPrefix(p, dir), data, err)
		return nil
	})
	return b.String()
}

// FS runs operations in a fresh directory and returns all they observed, and the tree at the end.
func FS(dir string, ops []FSOp) string {
	if err := os.MkdirAll(dir, 0755); err != nil {
		return err.Error()
	}
	os.Mkdir(dir+"/d", 0755)
	os.WriteFile(dir+"/a", []byte("0123456789"), 0644)
	r := &fsRun{dir: dir}
	for _, o := range ops {
		r.say("> %s", o.Name)
		o.Do(r)
	}
	r.say("%s", Tree(dir))
	for _, h := range r.h {
		h.Close()
	}
	os.RemoveAll(dir)
	return r.out.String()
}
