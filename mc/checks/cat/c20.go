package main

import (
	"fmt"
	"strings"

	"github.com/flu-network/client/cli"

	"verif/mc/explore"
	"verif/mc/h"
	vos "verif/mc/shim/os"
	"verif/mc/vs"
)

func init() {
	explore.Register(&explore.Property{ID: "C20", Scenarios: c20})
}

// fates of an indexed file
var fates = []string{"untouched", "deleted", "changed", "shortened", "grown", "a directory", "not in the index", "replaced by an identical copy"}

func c20(tier string) []explore.Scenario {
	cfg := vs.Config{MaxSteps: 1000000, NoPoints: true, Serial: true}
	doc := "two shared files (one empty or not) and one download (0, 1, 2 or all chunks, or complete with a restart), each left untouched, deleted, changed, shortened, grown, turned into a directory or replaced by a copy; the daemon reopened or not; every order of the index"
	out := []explore.Scenario{
		{Name: "clean", Cfg: cfg, B: none, Doc: doc + "; clean must remove exactly the complete files whose content is gone, say so for each, touch no user file, and do nothing the second time", Body: func() { clean(false) }},
		{Name: "clean-faults", Cfg: cfg, B: explore.Bounds{Fault: 1, Total: 1}, Doc: doc + "; with any one file-system call within the catalogue failing: clean reports an error or has done its work, and the next clean completes it", Body: func() { clean(true) }},
	}
	out = append(out, explore.Scenario{Name: "one path", Cfg: cfg, B: none, Body: onePath,
		Doc: "two to four files shared under one path, one after the other, of which any or none is there in the end; every order of the index"})
	out = append(out, explore.Scenario{Name: "links", Cfg: cfg, B: none, Body: linked,
		Doc: "a file shared through one or two symbolic links, or through a linked directory; afterwards the file itself or a link is left, deleted, changed, or made to lead to a copy, another file, a directory, nothing or itself"})
	out = append(out, explore.Scenario{Name: "unreadable", Cfg: cfg, B: none, Body: unreadable,
		Doc: "two shared files and a complete download, each readable, not permitted to be opened, or failing to be read from the first byte, the middle or the last byte on, or gone; the daemon reopened or not; every order of the index"})
	return out
}

// unreadable cleans files that are there but cannot be read.
func unreadable() {
	w := newWorld()
	desc := ""
	w.bad = map[string]bool{}
	w.check("prepare", opRegister("x", xFile, hX))
	for i := 0; i < 3; i++ {
		w.check("prepare", opSave("x", xFile, hX, i))
	}
	w.check("prepare", opShare("/data/a"))
	w.check("prepare", opShare("/data/b"))
	for _, p := range []string{"/data/a", "/data/b", w.m.ents[hX].path} {
		f := pick(p, []string{"readable", "denied", "bad", "half bad", "bad at the end", "gone"})
		desc += p + " " + f + ", "
		n := int64(len(w.m.files[p]))
		from := map[string]int64{"denied": -1, "bad": 0, "half bad": n / 2, "bad at the end": n - 1}
		if f == "gone" {
			w.fs.Del(p)
		} else if f != "readable" {
			w.fs.Spoil(p, f == "denied", from[f])
			w.bad[p] = true
		}
	}
	w.m.files = w.userTree()
	if vs.Choose(vs.Free, 2, "restart") == 1 {
		w.restart(false)
		desc += "reopened"
	}
	cleaned(w, desc, false)
}

// linked cleans files shared through symbolic links.
func linked() {
	w := newWorld()
	w.fs.Put("/far/t", []byte("the file"))
	w.fs.Put("/far/other", []byte("another"))
	w.fs.Put("/near/copy", []byte("the file"))
	ways := []string{"/data/l", "/data/ll", "/data/ld/t"}
	w.fs.PutLink("/data/l", "/far/t")
	w.fs.PutLink("/data/ll", "l")
	w.fs.PutLink("/data/ld", "../far")
	w.m.files = w.userTree()
	p := pick("shared as", ways)
	desc := "shared as " + p
	w.check("prepare", opShare(p))
	if vs.Choose(vs.Free, 2, "another file") == 1 {
		w.check("prepare", opShare("/data/a"))
	}
	relink := func(l, to string) {
		w.fs.Del(l)
		w.fs.PutLink(l, to)
	}
	if f := pick("the file", fates[:7]); f != "not in the index" {
		harm(w, "/far/t", f)
		desc += ", the file " + f
	}
	l := "/data/l"
	if p == "/data/ld/t" {
		l = "/data/ld"
	} else if vs.Choose(vs.Free, 2, "which link") == 1 {
		l = p
	}
	tos := []string{"stays", "deleted", "/near/copy", "/far/other", "/near", "/far", "/nowhere/at/all", l}
	if to := pick("the link", tos); to == "deleted" {
		w.fs.Del(l)
		desc += ", the link deleted"
	} else if to != "stays" {
		relink(l, to)
		desc += ", " + l + " leads to " + to
	}
	w.m.files = w.userTree()
	if vs.Choose(vs.Free, 2, "restart") == 1 {
		w.restart(false)
		desc += ", reopened"
	}
	cleaned(w, desc, false)
}

// harm applies fate f to path p.
func harm(w *world, p, f string) {
	d := []byte(w.m.files[p])
	switch f {
	case "deleted":
		w.fs.Del(p)
	case "changed":
		if len(d) == 0 {
			d = []byte{1}
		} else {
			d[len(d)-1] ^= 1
		}
		w.fs.Put(p, d)
	case "shortened":
		if len(d) > 0 {
			w.fs.Put(p, d[:len(d)-1])
		}
	case "grown":
		w.fs.Put(p, append(d, 0))
	case "a directory":
		w.fs.Del(p)
		w.fs.PutDir(p)
	case "replaced by an identical copy":
		w.fs.Del(p)
		w.fs.Put(p, d)
	}
	w.m.files = w.userTree()
}

func clean(faults bool) {
	w := newWorld()
	desc := ""
	file := func(name, p string, k hash, prep []op, fateList []string) {
		f := pick(name, fateList)
		desc += fmt.Sprintf("%s %s, ", name, f)
		if f == "not in the index" {
			return
		}
		for _, o := range prep {
			w.check("prepare", o)
		}
		pp := p
		if e, ok := w.m.ents[k]; ok {
			pp = e.path
		}
		if _, exists := w.m.files[pp]; exists {
			harm(w, pp, f)
		} else if f != "untouched" && f != "deleted" {
			vs.Stop() // nothing to harm
		}
	}
	fewer := fates
	if faults {
		fewer = []string{"untouched", "deleted", "changed", "not in the index"}
	}
	file("a", "/data/a", hA, []op{opShare("/data/a")}, fewer)
	second := "b"
	if !faults && vs.Choose(vs.Free, 2, "second file") == 1 {
		second = "e"
	}
	if second == "b" {
		file("b", "/data/b", hB, []op{opShare("/data/b")}, fewer)
	} else {
		file("e", "/data/e", hE, []op{opShare("/data/e")}, fewer)
	}
	dl := []op{opRegister("x", xFile, hX)}
	n := pick("chunks", []int{0, 1, 2, 3})
	for i := 0; i < n; i++ {
		dl = append(dl, opSave("x", xFile, hX, i))
	}
	desc += fmt.Sprintf("%d chunks ", n)
	file("x", "/dl/x.bin", hX, dl, fewer)
	if vs.Choose(vs.Free, 2, "restart") == 1 {
		w.restart(false)
		desc += "reopened"
	}
	cleaned(w, desc, faults)
}

// onePath cleans files shared under one path, one after the other.
func onePath() {
	w := newWorld()
	p := "/data/p"
	versions := []string{"one", "two", "three", "one, longer"}
	n := 2 + vs.Choose(vs.Free, 3, "versions")
	desc := fmt.Sprintf("%d versions of one file shared", n)
	put := func(d string) {
		w.fs.Del(p)
		w.fs.Put(p, []byte(d))
		w.m.files = w.userTree()
	}
	for i := 0; i < n; i++ {
		put(versions[i])
		w.check("prepare", opShare(p))
	}
	if vs.Choose(vs.Free, 2, "another file") == 1 {
		w.check("prepare", opShare("/data/a"))
	}
	last := vs.Choose(vs.Free, n+3, "now there is")
	switch {
	case last < n:
		put(versions[last])
		desc += fmt.Sprintf(", now version %d is there", last)
	case last == n:
		put("new")
		desc += ", now something new is there"
	default:
		w.fs.Del(p)
		desc += ", now nothing is there"
		if last == n+2 {
			w.fs.PutDir(p)
			desc += " but a directory"
		}
		w.m.files = w.userTree()
	}
	if vs.Choose(vs.Free, 2, "restart") == 1 {
		w.restart(false)
		desc += ", reopened"
	}
	cleaned(w, desc, false)
}

// cleaned runs clean and checks what it does.
func cleaned(w *world, desc string, faults bool) {
	// what must remain
	after := w.m.clone()
	for k, e := range w.m.ents {
		d, exists := w.m.files[e.path]
		if e.full() && (!exists || w.bad[e.path] || sum(d) != k) {
			delete(after.ents, k)
		}
	}
	vs.SetMapOrders(true)
	run := func(when string) (cli.CleanResponse, error) {
		var resp cli.CleanResponse
		var err error
		w.safe(when, func() { err = cli.NewMethods(w.c, nil).Clean(&cli.CleanRequest{}, &resp) })
		return resp, err
	}
	if faults {
		w.fs.Faults = vos.FaultMode{Error: true, OnlyPath: "/cat"}
	}
	resp, err := run(desc)
	w.fs.Faults = vos.FaultMode{}
	vs.SetMapOrders(false)
	bad := w.fs.Errors()
	h.Must(err == nil || len(bad) > 0, "%s: clean failed: %v", desc, err)
	before := w.m
	if err == nil {
		w.m = after
		report(desc, before, after, resp, len(bad) > 0 || w.bad != nil)
		vs.Observe("%d of %d kept", len(after.ents), len(before.ents))
		w.verify(desc + ", cleaned")
	} else {
		vs.Observe("failed")
		// any part of the work may be done, nothing else
		l, e := w.listed()
		h.Must(e == nil, "%s, clean failed: listing failed: %v", desc, e)
		for k := range before.ents {
			_, listed := l[k]
			_, keep := after.ents[k]
			h.Must(listed || !keep, "%s: a failed clean (%v) removed %s", desc, bad, before.ents[k].path)
			if !listed {
				w.m = w.m.clone()
				delete(w.m.ents, k)
			}
		}
		w.checkFiles(desc + ", clean failed")
		_, err = run(desc + ", again")
		h.Must(err == nil, "%s: the clean after a failed one failed: %v", desc, err)
		w.m = after
		w.verify(desc + ", cleaned again")
	}
	s1 := w.fs.Snapshot()
	resp, err = run(desc + ", second clean")
	h.Must(err == nil, "%s: the second clean failed: %v", desc, err)
	report(desc+", second clean", w.m, w.m, resp, false)
	w.verify(desc + ", second clean")
	s2 := w.fs.Snapshot()
	for p, d := range s1 {
		h.Must(s2[p] == d || strings.HasPrefix(p, "/cat"), "%s: the second clean changed %s", desc, p)
	}
	w.restart(false)
	w.verify(desc + ", cleaned, restart")
}

// report checks what clean says.
func report(when string, before, after model, resp cli.CleanResponse, failed bool) {
	h.Must(len(resp.Items) == len(before.ents), "%s: clean reports on %d of %d files", when, len(resp.Items), len(before.ents))
	for _, it := range resp.Items {
		e, ok := before.ents[it.IndexedSha1Hash]
		h.Must(ok && e.path == it.FilePath, "%s: clean reports on %s, which is not indexed", when, it.FilePath)
		_, kept := after.ents[it.IndexedSha1Hash]
		says := strings.Contains(strings.ToLower(it.ActionTaken), "removed")
		h.Must(says != kept, "%s: clean reports %q on %s, which is kept: %v", when, it.ActionTaken, it.FilePath, kept)
		if d, exists := before.files[e.path]; exists && !failed {
			h.Must(it.CurrentSha1Hash == sum(d), "%s: clean reports the wrong current hash of %s", when, it.FilePath)
		}
		text := resp.Sprintf()
		h.Must(strings.Contains(text, it.FilePath), "%s: the report does not mention %s", when, it.FilePath)
	}
}
