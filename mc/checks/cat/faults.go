package main

import (
	"fmt"
	"strings"

	"verif/mc/explore"
	"verif/mc/h"
	vos "verif/mc/shim/os"
	"verif/mc/vs"
)

func init() {
	explore.Register(&explore.Property{ID: "C08", Scenarios: c08})
	explore.Register(&explore.Property{ID: "C09", Scenarios: c09})
}

// prefixes are the calls of the histories that precede the call under fault.
func prefixes() []op {
	return []op{
		opShare("/data/a"), opShare("/data/b"), opRegister("x", xFile, hX), opSave("x", xFile, hX, 0), opSave("x", xFile, hX, 2), opUnshare("a", hA),
		opRegister("y", yFile, hY), opUnshare("x", hX),
	}
}

// victims are the calls that are interrupted.
func victims() []op {
	return []op{
		opShare("/data/a"), opShare("/data/a2"), opShare("/data/b"), opShare("/data/e"), opUnshare("a", hA), opUnshare("x", hX), opUnshare("unknown", hU),
		opRegister("x", xFile, hX), opRegister("y", yFile, hY), opSave("x", xFile, hX, 0), opSave("x", xFile, hX, 1), opSave("x", xFile, hX, 2),
		opSave("y", yFile, hY, 0), opShare("/data/none"),
	}
}

// asks are the calls that only look.
func asks() []op {
	return []op{opList(), opContains("a", hA), opContains("x", hX), opRead("a", hA, 0), opRead("x", hX, 0), opRead("x", hX, 2), opRehash("a", hA), opRehash("b", hB), opMissing("x", hX), opComplete("a", hA)}
}

// history runs up to n calls without faults.
func (w *world) history(n int) string {
	var hist []string
	pre := prefixes()
	for i := 0; i < n; i++ {
		k := vs.Choose(vs.Free, len(pre)+2, "call")
		if k == 0 {
			break
		}
		if k--; k < len(pre) {
			before := w.m
			hist = append(hist, pre[k].name)
			_, _, ok := pre[k].eff(w.m, w)
			if !ok || before.String() == w.m.String() && i == 0 && strings.HasPrefix(pre[k].name, "unshare") {
				vs.Stop() // refused calls add nothing here; C07 covers them
			}
			w.check("after "+strings.Join(hist, ", "), pre[k])
		} else {
			hist = append(hist, "restart")
			w.restart(false)
		}
	}
	return "after " + strings.Join(hist, ", ")
}

// adopt takes the actual content of the files that the interrupted call may have been writing, having
// checked that everything else is as it was.
func (w *world) adopt(when string, before, after model) {
	t := w.userTree()
	for p, d := range before.files {
		g, ok := t[p]
		h.Must(ok, "%s: the file %s has vanished", when, p)
		h.Must(g == d || after.files[p] != d, "%s: the content of %s has changed", when, p)
	}
	for p := range t {
		_, b := before.files[p]
		_, a := after.files[p]
		h.Must(a || b, "%s: the file %s has appeared", when, p)
	}
	w.m.files = t
	for _, e := range w.m.ents {
		for i := 0; i < e.n; i++ {
			if e.have>>uint(i)&1 == 1 && !e.shared {
				lo, hi := i*e.cs, i*e.cs+len(e.chunk(i))
				g := t[e.path]
				h.Must(len(g) >= hi && g[lo:hi] == e.chunk(i), "%s: chunk %d of %s is recorded as present but its bytes were not written", when, i, e.path)
			}
		}
	}
}

// either finds which of the two states the catalogue is in.
func (w *world) either(when string, before, after model) string {
	l, err := w.listed()
	h.Must(err == nil, "%s: listing failed: %v", when, err)
	m, da := w.match(l, after)
	if da == "" {
		w.m = m
		if before.String() == after.String() {
			return "same"
		}
		return "after"
	}
	m, db := w.match(l, before)
	h.Must(db == "", "%s: the call happened neither entirely (%s) nor not at all (%s)", when, da, db)
	w.m = m
	return "before"
}

// use goes through the whole life of every file once more.
func (w *world) use(when string, retry *op, retryOK bool) {
	if retry != nil {
		_, _, ok := retry.eff(w.m, w)
		if retryOK {
			h.Must(ok, "%s: internal: the retry of %s should be possible", when, retry.name)
		}
		w.check(when+", again", *retry)
	}
	w.verify(when + ", used again")
	life := []op{}
	for _, o := range []op{opUnshare("a", hA), opShare("/data/a"), opUnshare("x", hX), opRegister("x", xFile, hX), opSave("x", xFile, hX, 1), opUnshare("y", hY), opUnshare("b", hB), opUnshare("e", hE), opUnshare("x", hX), opUnshare("a", hA)} {
		if _, _, ok := o.eff(w.m, w); ok || !strings.HasPrefix(o.name, "unshare") {
			life = append(life, o)
		}
		if _, _, ok := o.eff(w.m, w); ok {
			w.check(when+", life", o)
		}
	}
	w.verify(when + ", after all files went through another life")
	w.restart(false)
	w.verify(when + ", after another life and restart")
}

func c08(tier string) []explore.Scenario {
	depth, crashes := 3, 1
	if tier == "thorough" {
		depth = 4
	}
	cfg := vs.Config{MaxSteps: 1000000, NoPoints: true, Serial: true}
	doc := func(depth int) string {
		return fmt.Sprintf("every history of up to %d calls out of {%s, restart}, then one of {%s, restart}, with the process dying before any one of its mutating file-system calls or after 1, half or all but one byte of any write; the reopened catalogue must equal the state before or after the call, and serve every lookup and a further life of every file", depth, names(prefixes()), names(victims()))
	}
	sc := func(name string, depth, crashes int, recovery bool) explore.Scenario {
		d := doc(depth)
		if recovery {
			d += fmt.Sprintf("; up to %d crashes in all, also while reopening or retrying", crashes)
		}
		return explore.Scenario{Name: name, Cfg: cfg, Doc: d, B: explore.Bounds{Fault: crashes, Total: crashes}, Body: func() {
			w := newWorld()
			when := w.history(depth)
			vic := victims()
			k := vs.Choose(vs.Free, len(vic)+1, "call under fault")
			if k == len(vic) {
				w.stop()
				w.crashyStart(when + ", restart")
				w.verify(when + ", restart")
				w.use(when, nil, false)
				return
			}
			o := vic[k]
			if w.crashy(when, o) {
				return
			}
			w.use(when+", "+o.name, &o, false)
			if recovery {
				w.crashy(when+", "+o.name+", life", opShare("/data/a"))
			}
		}}
	}
	first := explore.Scenario{Name: "first-start", Cfg: cfg, B: explore.Bounds{Fault: 2, Total: 2}, Doc: "the very first start, dying before any mutating call or within any write, twice", Body: func() {
		w := newWorld()
		w.stop()
		w.fs.Del("/cat")
		w.crashyStart("first start")
		w.verify("first start")
		w.use("first start", nil, false)
	}}
	out := []explore.Scenario{first, sc("crash", depth, crashes, false)}
	if tier == "thorough" {
		out = append(out, sc("crash-twice", 2, 2, true))
	} else {
		out = append(out, sc("crash-twice", 1, 2, true))
	}
	return out
}

// crashyStart opens the catalogue, dying and retrying as the explorer likes.
func (w *world) crashyStart(when string) {
	for {
		w.fs.Faults = vos.FaultMode{Crash: true}
		why, err := w.start()
		w.fs.Faults = vos.FaultMode{}
		if why == "" {
			h.Must(err == nil, "%s: the catalogue cannot be opened: %v", when, err)
			return
		}
		h.Must(strings.HasPrefix(why, "crash injected"), "%s: opening the catalogue crashed: %s", when, why)
		when += ", " + why
	}
}

// crashy runs o with crash points and, if it died, recovers and checks. It reports whether the check is over.
func (w *world) crashy(when string, o op) bool {
	before := w.m
	after, want, ok := o.eff(w.m, w)
	if !ok {
		after = before
	}
	var res string
	var err error
	w.fs.Faults = vos.FaultMode{Crash: true}
	why := w.run(func() { res, err = o.do(w.c) })
	w.fs.Faults = vos.FaultMode{}
	when += ", " + o.name
	if why == "" {
		h.Must(ok == (err == nil), "%s: error %v", when, err)
		if ok {
			h.Must(res == want, "%s says %q, want %q", when, res, want)
		}
		w.m = after
		w.resolve(when)
		vs.Observe("done %v", ok)
		w.verify(when)
		w.restart(false)
		w.verify(when + ", restart")
		return true
	}
	h.Must(strings.HasPrefix(why, "crash injected"), "%s crashed: %s", when, why)
	vs.Count("crash points", 1)
	when += ", " + why
	w.crashyStart(when)
	st := w.either(when, before, after)
	w.adopt(when, before, after)
	vs.Observe("%s %s", o.name, st)
	w.verify(when)
	return false
}

func c09(tier string) []explore.Scenario {
	depth, faults, fdepth := 3, 2, 1
	if tier == "thorough" {
		depth, faults, fdepth = 4, 3, 2
	}
	cfg := vs.Config{MaxSteps: 300000, NoPoints: true, Serial: true}
	doc := func(depth, faults int) string {
		return fmt.Sprintf("every history of up to %d calls out of {%s, restart}, then one of {%s, %s, restart} with up to %d of its file-system calls failing (error, or short write), and any read being short: it must report an error or have happened, memory and reopened state must agree on one of before and after, and the call succeeds when retried, before or after a restart", depth, names(prefixes()), names(victims()), names(asks()), faults)
	}
	sc := func(name string, depth, faults int) explore.Scenario {
		return explore.Scenario{Name: name, Cfg: cfg, B: explore.Bounds{Fault: faults, Total: faults}, Doc: doc(depth, faults), Body: func() {
			w := newWorld()
			when := w.history(depth)
			vic := append(victims(), asks()...)
			k := vs.Choose(vs.Free, len(vic)+1, "call under fault")
			first := vs.Choose(vs.Free, 2, "restart or retry first") == 0
			if k == len(vic) {
				if !first {
					vs.Stop()
				}
				w.failStart(when)
				return
			}
			w.failing(when, vic[k], first)
		}}
	}
	return []explore.Scenario{
		sc("one-fault", depth, 1),
		sc("more-faults", fdepth, faults),
		{Name: "first-start", Cfg: cfg, B: explore.Bounds{Fault: faults, Total: faults}, Doc: "the very first start with failing calls", Body: func() {
			w := newWorld()
			w.fs.Del("/cat")
			w.failStart("first start")
		}},
	}
}

var anyError = vos.FaultMode{Error: true, Short: true}

func (w *world) failStart(when string) {
	w.stop()
	w.fs.Faults = anyError
	why, err := w.start()
	w.fs.Faults = vos.FaultMode{}
	bad := w.fs.Errors()
	h.Must(why == "", "%s: opening the catalogue crashed: %s (%v)", when, why, bad)
	h.Must(err == nil || len(bad) > 0, "%s: opening the catalogue failed although no call did: %v", when, err)
	vs.Observe("start %v", err == nil)
	if err != nil {
		w.open(when + ", start again")
	}
	w.verify(when + ", start under faults")
	w.use(when, nil, false)
}

func (w *world) failing(when string, o op, restartFirst bool) {
	before := w.m
	after, want, ok := o.eff(w.m, w)
	if !ok {
		after = before
	}
	var res string
	var err error
	w.fs.Faults = anyError
	why := w.run(func() { res, err = o.do(w.c) })
	w.fs.Faults = vos.FaultMode{}
	bad := w.fs.Errors()
	if len(bad) > 0 {
		vs.Count("failed calls", len(bad))
		when += fmt.Sprintf(", %s with %s", o.name, strings.Join(bad, " and "))
	} else {
		when += ", " + o.name
	}
	h.Must(why == "", "%s crashed: %s", when, why)
	if err != nil {
		h.Must(!ok || len(bad) > 0, "%s failed although no call did: %v", when, err)
	} else {
		h.Must(ok, "%s succeeded although it had to report an error", when)
		if !o.soft || len(bad) == 0 {
			h.Must(res == want, "%s says %q, want %q", when, res, want)
		}
	}
	st := w.either(when, before, after)
	h.Must(err != nil || st != "before" || o.soft, "%s succeeded without effect", when)
	w.adopt(when, before, after)
	now := w.m
	vs.Observe("%s %s %v", o.name, st, err != nil)
	w.verify(when)
	if restartFirst {
		w.restart(false)
		l, e := w.listed()
		h.Must(e == nil, "%s, restart: listing failed: %v", when, e)
		_, diff := w.match(l, now)
		h.Must(diff == "", "%s: the state changed with a restart: %s", when, diff)
		w.verify(when + ", restart")
	}
	if st == "before" && ok {
		w.use(when, &o, true)
	} else {
		w.use(when, nil, false)
	}
}
