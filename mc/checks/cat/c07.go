package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/flu-network/client/catalogue"
	"verif/mc/explore"
	"verif/mc/h"
	vos "verif/mc/shim/os"
	"verif/mc/vs"
)

func init() {
	explore.Register(&explore.Property{ID: "C07", Scenarios: c07})
}

var none = explore.Bounds{}

// changes is the alphabet of calls that may change the catalogue.
func changes() []op {
	return []op{
		opShare("/data/a"), opShare("/data/a2"), opShare("/data/b"), opShare("/data/e"), opShare("/data/none"), opShare("/data/dir"),
		opUnshare("a", hA), opUnshare("b", hB), opUnshare("e", hE), opUnshare("x", hX), opUnshare("unknown", hU),
		opRegister("x", xFile, hX), opRegister("y", yFile, hY), opRegister("z", zFile, hE), opRegister("a", remote{"a", userFiles["/data/a"], 4}, hA),
		opSave("x", xFile, hX, 0), opSave("x", xFile, hX, 1), opSave("x", xFile, hX, 2), opSave("x", xFile, hX, 3), opSave("y", yFile, hY, 0),
		opSaveWrong("x", hX, 0, 3), opSaveWrong("x", hX, 2, 4), opSaveWrong("unknown", hU, 0, 4),
		opShare("/dl/x.bin"), opUnshare("y", hY),
	}
}

func names(ops []op) string {
	var s []string
	for _, o := range ops {
		s = append(s, o.name)
	}
	return strings.Join(s, ", ")
}

// states is the alphabet of the state-space search: every call that can succeed, without equivalent ones.
func states() []op {
	return []op{
		opShare("/data/a"), opShare("/data/a2"), opUnshare("a", hA), opRegister("x", xFile, hX), opRegister("y", yFile, hY),
		opSave("x", xFile, hX, 0), opSave("x", xFile, hX, 1), opSave("x", xFile, hX, 2), opSave("y", yFile, hY, 0),
		opUnshare("x", hX), opUnshare("y", hY), opShare("/dl/x.bin"),
	}
}

// small is a reduced alphabet for long histories that are not merged.
func small() []op {
	return []op{
		opShare("/data/a"), opUnshare("a", hA), opRegister("x", xFile, hX), opRegister("y", yFile, hY), opSave("x", xFile, hX, 0), opSave("x", xFile, hX, 2),
		opSave("y", yFile, hY, 0), opUnshare("x", hX), opContains("x", hX), opList(),
	}
}

func c07(tier string) []explore.Scenario {
	depth, long, fix := 3, 5, 7
	if tier == "thorough" {
		depth, long, fix = 4, 6, 9
	}
	cfg := vs.Config{MaxSteps: 100000000, NoPoints: true, Serial: true}
	seqs := func(name string, alpha func() []op, depth int, extra bool) explore.Scenario {
		return explore.Scenario{Name: name, Cfg: cfg, B: none, Weight: 1,
			Doc: fmt.Sprintf("every sequence of up to %d calls out of {%s, restart, restart from a moved directory}; each result is compared with the reference model, and after the sequence every listing, lookup, missing-chunk query, rehash and chunk read, before and after a restart", depth, names(alpha())),
			Body: func() {
				w := newWorld()
				ops := alpha()
				var hist []string
				for i := 0; i < depth; i++ {
					k := vs.Choose(vs.Free, len(ops)+3, "call")
					if k == 0 {
						break
					}
					k--
					when := "after " + strings.Join(hist, ", ")
					switch {
					case k < len(ops):
						hist = append(hist, ops[k].name)
						w.check(when, ops[k])
					case k == len(ops):
						hist = append(hist, "restart")
						w.restart(false)
					default:
						hist = append(hist, "move")
						w.restart(true)
					}
				}
				vs.Count("histories", 1)
				vs.Observe("%s", w.m)
				when := "after " + strings.Join(hist, ", ")
				w.verify(when)
				w.restart(len(hist)%2 == 1)
				w.verify(when + ", restart")
			}}
	}
	return []explore.Scenario{
		seqs("histories", changes, depth, true),
		seqs("long-histories", small, long, false),
		{Name: "all-states", Cfg: cfg, B: none,
			Doc:  fmt.Sprintf("breadth-first search over the states of model, disk and time since restart reachable by {%s, restart, moved restart}, to depth %d or fixpoint: in every state all queries are compared with the reference model", names(states()), fix),
			Body: func() { bfs(fix) }},
		{Name: "names", Cfg: cfg, B: explore.Bounds{Total: -1}, Doc: fmt.Sprintf("files of %d unusual names in two kinds of directories, shared and downloaded, with later calls and restarts", len(oddNames)),
			Body: oddPaths},
		{Name: "snapshots", Cfg: cfg, B: none, Doc: "records handed out by every lookup and listing do not change with later calls, and changing them does not change the catalogue",
			Body: snapshots},
		{Name: "links", Cfg: cfg, B: none, Doc: "sequences of two shares of files, directories, unreadable files and nothing at all, through symbolic links or not, a download and restarts, where the catalogue's and the downloads folder are linked or not",
			Body: throughLinks},
	}
}

// oddNames are names that text formats might not keep.
var oddNames = []string{" ", " lead", "trail ", "trail\n", "\nlead", "a\nb", "tab\there", "a<&>b", "\u2028\u2029", "наука", "e\u0301", "\u00e9", "100%d", "quo\"te", "it's", "back\\slash", "\\u0041", "\x01\x7f", "\xff\xfe", "a\xc3", "\ufffd", "\ufeffbom", "~", "-d", "$HOME", "*", "...", ".hidden", "CON", strings.Repeat("n", 255), "a.", "{}", "[\"x\"]", "null", "😀"}

func oddPaths() {
	name := oddNames[vs.Choose(vs.Free, len(oddNames), "name")]
	dir := []string{"/data/", "/data/" + name + "/"}[vs.Choose(vs.Free, 2, "directory")]
	w := newWorld()
	p := dir + name
	data := "some content"
	w.fs.Put(p, []byte(data))
	w.m.files[p] = data
	r := xFile
	r.name = name
	what := fmt.Sprintf("a file %q", p)
	hD := sum(data)
	step := func(s string, o op) {
		w.check(what+s, o)
		w.verify(what + s + ", " + o.name)
	}
	if vs.Choose(vs.Free, 2, "order") == 1 {
		step("", opRegister("x", r, hX))
		step("", opShare(p))
	} else {
		step("", opShare(p))
		step("", opRegister("x", r, hX))
	}
	step("", opSave("x", r, hX, 1))
	for _, move := range []bool{false, true} {
		w.restart(move)
		w.verify(what + ", restart")
		step(", restart", opSave("x", r, hX, 0))
		step(", restart", opRead("it", hD, 0))
	}
	w.restart(false)
	step(", restarts", opShare("/data/a"))
	w.restart(false)
	w.verify(what + ", restarts")
	step(", restarts", opUnshare("it", hD))
	step(", restarts", opUnshare("x", hX))
	w.restart(false)
	w.verify(what + ", gone")
	vs.Count("histories", 1)
	vs.Observe("%q", p)
}

// throughLinks shares through symbolic links, and keeps the catalogue and downloads behind such.
func throughLinks() {
	var w *world
	cat, dl := vs.Choose(vs.Free, 2, "catalogue linked") == 1, vs.Choose(vs.Free, 2, "downloads linked") == 1
	w = newWorldOn(func(fs *vos.FS) {
		if cat {
			fs.PutDir("/cat-far")
			fs.PutLink("/cat", "cat-far")
		}
		if dl {
			fs.PutDir("/cat-dl/deep")
			fs.PutLink(dlDir, "/cat-dl/deep")
		}
	})
	w.fs.Put("/far/t", []byte("the file"))
	w.fs.Put("/far/u", []byte("another"))
	for l, to := range map[string]string{"l": "/far/t", "ll": "l", "u": "../far/u", "ld": "../far", "no": "/nothing", "no2": "/nothing/at/all", "loop": "loop", "bad": "a/t"} {
		w.fs.PutLink("/data/"+l, to)
	}
	w.bad = map[string]bool{"/far/secret": true, "/far/broken": true, "/data/secret": true}
	w.fs.Put("/far/secret", []byte("not for the program"))
	w.fs.Put("/far/broken", []byte("a disk's end"))
	w.fs.PutLink("/data/secret", "/far/secret")
	w.fs.Spoil("/far/secret", true, -1)
	w.fs.Spoil("/far/broken", false, 5)
	w.m.files = w.userTree()
	what := fmt.Sprintf("catalogue linked %v, downloads linked %v", cat, dl)
	step := func(o op) {
		w.check(what, o)
		what += ", " + o.name
		w.verify(what)
	}
	paths := []string{"/far/t", "/data/l", "/data/ll", "/data/ld/t", "/data/u", "/data/ld", "/data/no", "/data/no2", "/data/loop", "/data/bad", "/far/secret", "/far/broken", "/data/secret"}
	step(opRegister("x", xFile, hX))
	for i := 0; i < 2; i++ {
		step(opShare(pick("share", paths)))
	}
	step(opSave("x", xFile, hX, 1))
	for _, move := range []bool{false, true} {
		if move && cat {
			break // the harness would move the link
		}
		w.restart(move)
		w.verify(what + ", restart")
	}
	step(opRead("it", sum("the file"), 0))
	step(opSave("x", xFile, hX, 0))
	step(opUnshare("it", sum("the file")))
	step(opUnshare("x", hX))
	w.restart(false)
	w.verify(what + ", gone")
	vs.Count("histories", 1)
	vs.Observe("%v %v", cat, dl)
}

// bfs explores the catalogue's state space.
func bfs(depth int) {
	ops := states()
	n := len(ops) + 2
	type path []int
	apply := func(w *world, k int, when string) {
		switch {
		case k < len(ops):
			w.check(when, ops[k])
		default:
			w.restart(k == len(ops)+1)
		}
	}
	show := func(p path) string {
		var s []string
		for _, k := range p {
			if k < len(ops) {
				s = append(s, ops[k].name)
			} else {
				s = append(s, []string{"restart", "move"}[k-len(ops)])
			}
		}
		return "after " + strings.Join(s, ", ")
	}
	key := func(w *world, p path) string {
		var d []string
		for f, c := range w.fs.Snapshot() {
			if strings.HasPrefix(f, w.dir+"/") && !strings.Contains(f, "index") {
				d = append(d, fmt.Sprintf("%s=%x", f[len(w.dir):], c))
			}
		}
		sort.Strings(d)
		fresh := len(p) > 0 && p[len(p)-1] >= len(ops)
		return fmt.Sprint(w.m, w.dir, fresh, d)
	}
	seen := map[string]bool{}
	var todo []path
	visit := func(p path) {
		w := newWorld()
		for i, k := range p {
			apply(w, k, show(p[:i]))
		}
		s := key(w, p)
		if seen[s] {
			w.stop()
			return
		}
		seen[s] = true
		vs.Count("catalogue states", 1)
		w.verify(show(p))
		w.stop()
		if len(p) < depth {
			todo = append(todo, p)
		}
	}
	visit(path{})
	for len(todo) > 0 {
		p := todo[0]
		todo = todo[1:]
		for k := 0; k < n; k++ {
			visit(append(append(path{}, p...), k))
		}
	}
}

func snapshots() {
	w := newWorld()
	for _, o := range []op{opShare("/data/a"), opRegister("x", xFile, hX), opSave("x", xFile, hX, 0)} {
		w.check("prepare", o)
	}
	if vs.Choose(vs.Free, 2, "restart") == 1 {
		w.restart(false)
	}
	take := vs.Choose(vs.Free, 3, "lookup")
	then := []op{opSave("x", xFile, hX, 1), opUnshare("x", hX), opUnshare("a", hA), opSave("x", xFile, hX, 2), opShare("/data/b")}
	t := vs.Choose(vs.Free, len(then), "call")
	scribble := vs.Choose(vs.Free, 2, "scribble") == 1
	var recs []catalogue.IndexRecordExport
	w.safe("lookup", func() {
		switch take {
		case 0:
			r, err := w.c.ListFiles()
			h.Must(err == nil, "listing failed: %v", err)
			recs = r
		case 1:
			for _, k := range []hash{hA, hX} {
				r, err := w.c.Contains(hp(k))
				h.Must(err == nil, "lookup failed: %v", err)
				recs = append(recs, *r)
			}
		default:
			for _, k := range []hash{hA, hX} {
				recs = append(recs, *w.c.Get(hp(k)))
			}
		}
	})
	render := func() string { return listing(recs) }
	before := render()
	if scribble {
		for i := range recs {
			recs[i].Progress.Fill()
			recs[i].Progress.Unset(0)
			recs[i].FilePath = "/elsewhere"
			recs[i].SizeInBytes = 0
		}
		w.verify("after a handed out record was changed")
		return
	}
	w.check("snapshot", then[t])
	h.Must(render() == before, "a record handed out earlier changed with %s: %s, was %s", then[t].name, render(), before)
	w.verify("after " + then[t].name)
}
