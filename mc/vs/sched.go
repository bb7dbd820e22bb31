// Package vs is a controlled scheduler: it runs instrumented Go code one goroutine at a time and
// turns every scheduling decision, environment answer and timer into an explicit, replayable choice.
//
// A Run has one scheduler (the goroutine that calls Execute) which owns all scheduling state, and any
// number of virtual goroutines (G). A G talks to the scheduler by sending a request and waiting to be
// woken. Under the race detector the scheduler acquires everything the Gs release but the wake-ups
// carry no happens-before edge, so the detector sees only the program's own synchronisation.
package vs

import (
	"fmt"
	"math"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// ChoiceKind classifies a choice point; the explorer bounds each class separately.
type ChoiceKind uint8

const (
	Sched  ChoiceKind = iota // which runnable goroutine goes next while the current one could go on
	Switch                   // which runnable goroutine goes next when the current one is blocked
	Fault                    // an environment answer other than the default
	Free                     // an input: every alternative costs nothing
	Timing                   // a timer firing while goroutines are runnable
)

func (k ChoiceKind) String() string {
	return [...]string{"sched", "switch", "fault", "free", "timing"}[k]
}

// PointRec records one choice point of an execution.
type PointRec struct {
	Kind   ChoiceKind
	N      int
	Chosen int
	Label  string
}

// Config of an execution.
type Config struct {
	MaxSteps  int           // scheduling steps before the run is declared a livelock
	FSPoints  bool          // file-system calls are scheduling points
	NetPoints bool          // datagram sends are scheduling points
	TimeDev   bool          // firing the next timer early is a choice at every scheduling point
	UnlockPts bool          // mutex unlocks are scheduling points as well
	NoPoints  bool          // plain points (not lock/channel ops) are ignored
	Serial    bool          // no scheduling choices at all: always the default
	HangAfter time.Duration // wall-clock time without a scheduling step that counts as an endless loop
	Trace     bool
}

// Result of an execution.
type Result struct {
	Points     []PointRec
	Outcome    string // done, deadlock, livelock, harness-panic, diverged
	Detail     string
	Violations []string
	Observed   []string
	Steps      int
	Races      int
	Trace      []string
	Now        int64
	Counts     map[string]int // cases checked inside the body
}

// Choices extracts the choice sequence that replays this execution.
func (r *Result) Choices() []int {
	c := make([]int, len(r.Points))
	for i, p := range r.Points {
		c[i] = p.Chosen
	}
	for len(c) > 0 && c[len(c)-1] == 0 {
		c = c[:len(c)-1]
	}
	return c
}

type opKind uint8

const (
	opBlock  opKind = iota // wait until enabled, then fire
	opCall                 // run on the scheduler, reply at once
	opChoose               // resolve an environment choice
	opGo                   // start a goroutine
	opExit                 // goroutine finished
)

type request struct {
	g        *G
	kind     opKind
	label    string
	enabled  func() bool
	fire     func() reply
	deadline int64 // absolute virtual time at which the request becomes enabled anyway; 0 = none
	quiet    bool  // not a place to preempt: continue with the same goroutine if it is enabled
	idle     bool  // only enabled when nothing else is (quiescence)
	n        int
	ck       ChoiceKind
	child    *G
	panicked bool
	panicVal string
	ch       unsafe.Pointer // channel being waited on, for unbuffered rendezvous
	cases    []*selCase
	started  bool
	sync     bool // the caller acquires everything the scheduler knows (harness calls)
}

type reply struct {
	v    int
	t    int64
	ok   bool
	kill bool
	x    any
}

// G is a virtual goroutine.
type G struct {
	ID      int
	Name    string
	Proc    *Proc
	wake    chan reply
	dead    bool // set by the goroutine itself once killed
	daemon  bool // environment helper: not counted, killed silently at the end
	tok     byte
	pending *request // scheduler-owned
	exited  bool     // scheduler-owned
	inst    bool
}

type timer struct {
	at   int64
	seq  int
	fire func()
	dead bool
}

// Run is one execution.
type Run struct {
	cfg       Config
	prefix    []int
	reqs      chan *request
	tok       byte
	stok      byte
	gs        []*G
	last      *G
	sameRun   int
	now       int64
	timers    []*timer
	tseq      int
	res       *Result
	steps     int
	done      bool
	aborted   bool
	serial    int
	procSeq   int
	gseq      int
	serialNow bool
	gone      int // exited goroutines still in gs
	procs     []*Proc
	net       any
	vals      map[string]any
	mapOrders bool
	stopped   bool
	globals   []any
	latent    []*G // goroutines of AfterFunc timers that have not fired
}

var cur *G
var curRun *Run
var ioTok byte
var progress int64
var quietNow int32 // plain points are off: set by Serialize

// Cur returns the running virtual goroutine, or nil outside an execution.
//
//go:norace
func Cur() *G { return cur }

//go:norace
func setCur(g *G) { cur = g }

// R returns the current execution, or nil.
//
//go:norace
func R() *Run { return curRun }

//go:norace
func setRun(r *Run) { curRun = r }

// Execute runs body under the scheduler, following the choice prefix and then default choices.
func Execute(cfg Config, prefix []int, body func()) *Result {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 200000
	}
	r := &Run{cfg: cfg, prefix: prefix, reqs: make(chan *request, 1), res: &Result{Outcome: "done"}, vals: map[string]any{}}
	races := raceErrors()
	atomic.StoreInt32(&quietNow, 0)
	setRun(r)
	g0 := r.newG("harness", nil)
	go r.gmain(g0, func() {
		initGlobals(nil)
		body()
	})
	g0.pending = &request{g: g0, kind: opBlock, label: "start"}
	r.loop(g0)
	r.killAll()
	setCur(nil)
	setRun(nil)
	r.res.Steps = r.steps
	r.res.Now = r.now
	r.res.Races = raceErrors() - races
	return r.res
}

func (r *Run) nextID() int { r.gseq++; return r.gseq - 1 }

// compact forgets goroutines and processes that are gone; scheduler only.
func (r *Run) compact() {
	live := r.gs[:0:0]
	for _, g := range r.gs {
		if !g.exited {
			live = append(live, g)
		}
	}
	r.gs = live
	var procs []*Proc
	for _, p := range r.procs {
		if p.Alive {
			procs = append(procs, p)
		}
	}
	r.procs = procs
	r.gone = 0
}

func (r *Run) newG(name string, p *Proc) *G {
	g := &G{ID: r.nextID(), Name: name, Proc: p, wake: make(chan reply, 1)}
	r.gs = append(r.gs, g)
	return g
}

func (r *Run) gmain(g *G, f func()) {
	rep := g.await()
	if rep.kill {
		setDead(g)
		r.exit(g, false, "")
		return
	}
	normal := false
	defer func() {
		v := recover()
		if normal || g.dead {
			r.exit(g, false, "")
			return
		}
		if v == nil { // runtime.Goexit by the program or by Exit
			r.exit(g, false, "")
			return
		}
		r.exit(g, true, fmt.Sprintf("%v\n%s", v, trimStack(string(debug.Stack()))))
	}()
	f()
	normal = true
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	out := []string{}
	seen := false
	for i := 0; i+1 < len(lines); i++ {
		if strings.HasPrefix(lines[i], "panic(") {
			seen = true
			i++
			continue
		}
		if !seen || strings.HasPrefix(lines[i], "\t") {
			continue
		}
		if strings.Contains(lines[i], "verif/mc/vs.") || strings.HasPrefix(lines[i], "created by") {
			continue
		}
		pos := strings.TrimSpace(lines[i+1])
		if j := strings.LastIndex(pos, " +0x"); j > 0 {
			pos = pos[:j]
		}
		fn := lines[i]
		if j := strings.LastIndex(fn, "("); j > 0 {
			fn = fn[:j]
		}
		out = append(out, fn+" "+pos)
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (r *Run) exit(g *G, panicked bool, val string) {
	raceReleaseMerge(unsafe.Pointer(&g.tok))
	r.send(&request{g: g, kind: opExit, panicked: panicked, panicVal: val})
}

func (r *Run) send(q *request) {
	raceReleaseMerge(unsafe.Pointer(&r.tok))
	raceDisable()
	r.reqs <- q
	raceEnable()
}

func (g *G) await() reply {
	raceDisable()
	rep := <-g.wake
	raceEnable()
	return rep
}

// do sends a request for the current goroutine and waits until it is granted.
func do(q *request) reply {
	g := Cur()
	r := R()
	q.g = g
	if g.dead {
		runtime.Goexit()
	}
	r.send(q)
	rep := g.await()
	if rep.kill {
		setDead(g)
		runtime.Goexit()
	}
	return rep
}

// wakeup is called by the scheduler only.
func (r *Run) wakeup(g *G, rep reply) *request {
	setCur(g)
	raceDisable()
	g.wake <- rep
	q := r.recv()
	raceEnable()
	raceAcquire(unsafe.Pointer(&r.tok))
	return q
}

func (r *Run) recv() *request {
	atomic.AddInt64(&progress, 1)
	return <-r.reqs
}

// Progress is a counter of scheduling steps, for watchdogs.
func Progress() int64 { return atomic.LoadInt64(&progress) }

func (r *Run) trace(format string, a ...any) {
	if r.cfg.Trace {
		r.res.Trace = append(r.res.Trace, fmt.Sprintf(format, a...))
	}
}

func (r *Run) isEnabled(q *request) bool {
	if q.deadline > 0 && r.now >= q.deadline {
		return true
	}
	if q.enabled == nil {
		return q.deadline == 0
	}
	return q.enabled()
}

// choose resolves a choice point.
func (r *Run) choose(kind ChoiceKind, n int, label string) int {
	if n <= 1 {
		return 0
	}
	i := len(r.res.Points)
	c := 0
	if i < len(r.prefix) {
		c = r.prefix[i]
		if c < 0 || c >= n {
			r.res.Outcome = "diverged"
			r.res.Detail = fmt.Sprintf("choice %d of the replayed prefix is %d but only %d alternatives exist at %q", i, c, n, label)
			r.stopped = true
			c = 0
		}
	}
	r.res.Points = append(r.res.Points, PointRec{Kind: kind, N: n, Chosen: c, Label: label})
	return c
}

// handle processes a request that just arrived from the running goroutine. It reports whether the
// goroutine was answered directly and hence runs on (another request has then been received).
func (r *Run) handle(q *request) {
	for {
		if isDead(q.g) && q.kind != opExit {
			panic("vs: request from a dead goroutine")
		}
		switch q.kind {
		case opCall:
			rep := reply{}
			if q.fire != nil {
				rep = q.fire()
			}
			if q.sync {
				raceReleaseMerge(unsafe.Pointer(&r.stok))
			}
			q = r.wakeup(q.g, rep)
			continue
		case opChoose:
			c := r.choose(q.ck, q.n, q.label)
			r.trace("  choose %s %d/%d", q.label, c, q.n)
			q = r.wakeup(q.g, reply{v: c})
			continue
		case opGo:
			c := q.child
			c.ID = r.nextID()
			r.gs = append(r.gs, c)
			c.pending = &request{g: c, kind: opBlock, label: "start"}
			// the spawner goes on; the spawn is a scheduling point
			q.kind = opBlock
			q.g.pending = q
			return
		case opExit:
			q.g.exited = true
			r.gone++
			q.g.pending = nil
			r.trace("%s exits", q.g.tag())
			if q.panicked {
				r.trace("  panic: %s", q.panicVal)
				if q.g.Proc != nil {
					r.procDown(q.g.Proc, 2, "panic: "+q.panicVal)
				} else {
					r.res.Outcome = "harness-panic"
					r.res.Detail = q.panicVal
					r.stopped = true
				}
			}
			return
		default:
			q.g.pending = q
			return
		}
	}
}

func (g *G) tag() string {
	p := ""
	if g.Proc != nil {
		p = g.Proc.Name + "/"
	}
	return fmt.Sprintf("%s%s#%d", p, g.Name, g.ID)
}

// loop schedules until g0 exits.
func (r *Run) loop(g0 *G) {
	for !g0.exited && !r.stopped {
		if r.gone > 64 && r.gone > len(r.gs)/2 {
			r.compact()
		}
		en := r.enabledList()
		if len(en) == 0 {
			if r.advance() {
				continue
			}
			// quiescent: idle waiters
			for _, g := range r.gs {
				if !g.exited && g.pending != nil && g.pending.idle {
					en = append(en, g)
					break
				}
			}
			if len(en) == 0 {
				r.res.Outcome = "deadlock"
				r.res.Detail = r.blockedReport()
				return
			}
		}
		if r.steps++; r.steps > r.cfg.MaxSteps {
			r.res.Outcome = "livelock"
			r.res.Detail = "step limit reached; last running " + r.last.tag() + "\n" + r.blockedReport()
			return
		}
		n := len(en)
		label := ""
		running := r.last != nil && en[0] == r.last
		kind := Switch
		if running {
			kind = Sched
		}
		if n > 1 || r.cfg.TimeDev {
			label = en[0].pending.label
		}
		c := 0
		if running && (en[0].pending.quiet || r.cfg.Serial) || r.cfg.Serial || r.serialNow {
			c = 0
		} else {
			c = r.choose(kind, n, label)
		}
		if r.stopped {
			return
		}
		g := en[c]
		if g == r.last {
			r.sameRun++
		} else {
			r.sameRun = 0
		}
		r.last = g
		q := g.pending
		g.pending = nil
		if r.cfg.Trace {
			r.trace("%s: %s", g.tag(), q.label)
		}
		rep := reply{}
		if q.fire != nil {
			rep = q.fire()
		}
		r.handle(r.wakeup(g, rep))
		if r.cfg.TimeDev && !r.stopped && !g0.exited {
			if next := r.nextTime(); next != math.MaxInt64 && len(r.enabledList()) > 0 {
				if r.choose(Timing, 2, "advance the clock now") == 1 {
					r.advance()
				}
			}
		}
	}
}

// enabledList returns the enabled goroutines: the running one first, then cyclically by id.
func (r *Run) enabledList() []*G {
	var en []*G
	start := 0
	if r.last != nil {
		start = r.last.ID
		if r.sameRun > 3000 { // fairness for loops that only ever poll
			start++
			r.sameRun = 0
		}
	}
	n := len(r.gs)
	first := 0 // index of the first goroutine with an id of at least start
	for first < n && r.gs[first].ID < start {
		first++
	}
	for i := 0; i < n; i++ {
		g := r.gs[(first+i)%n]
		if g.exited || g.pending == nil || g.pending.idle {
			continue
		}
		if r.isEnabled(g.pending) {
			en = append(en, g)
		}
	}
	return en
}

func (r *Run) nextTime() int64 {
	next := int64(math.MaxInt64)
	for _, t := range r.timers {
		if !t.dead && t.at < next {
			next = t.at
		}
	}
	for _, g := range r.gs {
		if !g.exited && g.pending != nil && g.pending.deadline > r.now && g.pending.deadline < next {
			next = g.pending.deadline
		}
	}
	return next
}

// advance moves the clock to the next timer or deadline; false if there is none.
func (r *Run) advance() bool {
	next := r.nextTime()
	if next == math.MaxInt64 {
		return false
	}
	if next > r.now {
		r.now = next
		r.trace("-- clock %v", time.Duration(r.now))
	}
	var due []*timer
	keep := r.timers[:0]
	for _, t := range r.timers {
		if t.dead {
			continue
		}
		if t.at <= r.now {
			due = append(due, t)
		} else {
			keep = append(keep, t)
		}
	}
	r.timers = keep
	sort.SliceStable(due, func(i, j int) bool {
		if due[i].at != due[j].at {
			return due[i].at < due[j].at
		}
		return due[i].seq < due[j].seq
	})
	for _, t := range due {
		t.dead = true
		t.fire()
	}
	return true
}

func (r *Run) blockedReport() string {
	var b strings.Builder
	for _, g := range r.gs {
		if g.exited || g.pending == nil {
			continue
		}
		fmt.Fprintf(&b, "%s blocked at %s\n", g.tag(), g.pending.label)
	}
	return b.String()
}

// kill makes g unwind; scheduler only, g must be parked.
func (r *Run) kill(g *G) {
	if g.exited {
		return
	}
	if g.pending == nil {
		panic("vs: killing a running goroutine")
	}
	g.pending = nil
	q := r.wakeup(g, reply{kill: true})
	if q.kind != opExit || q.g != g {
		panic("vs: killed goroutine did not exit")
	}
	g.exited = true
	r.gone++
}

func (r *Run) killAll() {
	for i := 0; i < len(r.gs); i++ {
		g := r.gs[i]
		if !g.exited && g.pending != nil {
			r.kill(g)
		}
	}
	for len(r.latent) > 0 {
		g := r.latent[0]
		r.latent = r.latent[1:]
		r.killLatent(g)
	}
}

/* operations for goroutines */

// Block waits until enabled reports true (evaluated on the scheduler), then runs fire on the scheduler.
func Block(label string, enabled func() bool, fire func()) {
	do(&request{kind: opBlock, label: label, enabled: enabled, fire: wrapFire(fire)})
}

func wrapFire(f func()) func() reply {
	if f == nil {
		return nil
	}
	return func() reply { f(); return reply{} }
}

// BlockUntil is Block with an absolute virtual deadline. It reports whether enabled held.
func BlockUntil(label string, enabled func() bool, deadline int64) bool {
	r := R()
	rep := do(&request{kind: opBlock, label: label, enabled: func() bool { return enabled != nil && enabled() }, deadline: deadline,
		fire: func() reply {
			_ = r
			return reply{ok: enabled != nil && enabled()}
		}})
	return rep.ok
}

// Call runs f on the scheduler at once; not a scheduling point.
func Call(f func()) {
	do(&request{kind: opCall, fire: wrapFire(f)})
}

// CallSync is Call for harness code: the caller may afterwards read anything f wrote.
func CallSync(f func()) {
	r := R()
	do(&request{kind: opCall, fire: wrapFire(f), sync: true})
	raceAcquire(unsafe.Pointer(&r.stok))
}

// CallV is Call returning an int.
func CallV(f func() int) int {
	return do(&request{kind: opCall, fire: func() reply { return reply{v: f()} }}).v
}

// Point is a plain scheduling point.
func Point(label string) {
	if g := Cur(); g == nil || R().cfg.NoPoints || atomic.LoadInt32(&quietNow) != 0 {
		return
	}
	do(&request{kind: opBlock, label: label})
}

// Choose resolves an environment choice.
func Choose(kind ChoiceKind, n int, label string) int {
	if n <= 1 {
		return 0
	}
	return do(&request{kind: opChoose, n: n, ck: kind, label: label}).v
}

// Go starts f as a virtual goroutine of the current process.
func Go(name string, f func()) *G {
	g := Cur()
	if g == nil {
		go f()
		return nil
	}
	return goOn(g.Proc, name, f)
}

// GoProc starts f as a goroutine of process p.
func GoProc(p *Proc, name string, f func()) *G { return goOn(p, name, f) }

func goOn(p *Proc, name string, f func()) *G {
	if Cur().dead {
		runtime.Goexit()
	}
	r := R()
	c := &G{Name: name, Proc: p, wake: make(chan reply, 1)}
	go r.gmain(c, f)
	do(&request{kind: opGo, child: c, label: "go " + name})
	return c
}

// Join waits for g to exit and acquires what it did.
func Join(g *G) {
	Block("join "+g.Name, func() bool { return g.exited }, nil)
	raceAcquire(unsafe.Pointer(&g.tok))
}

// JoinUntil is Join with a relative virtual timeout.
func JoinUntil(g *G, d time.Duration) bool {
	ok := BlockUntil("join "+g.Name, func() bool { return g.exited }, Now()+int64(d))
	if ok {
		raceAcquire(unsafe.Pointer(&g.tok))
	}
	return ok
}

// Quiesce waits until no other goroutine can run and no timer is pending.
func Quiesce() {
	do(&request{kind: opBlock, label: "quiesce", idle: true})
}

// Settle waits until no other goroutine can run at the current instant.
func Settle() {
	// a deadline one nanosecond ahead is reached only when nothing is enabled now
	BlockUntil("settle", nil, Now()+1)
}

// Sleep advances virtual time for the current goroutine.
func Sleep(d time.Duration) {
	if d <= 0 {
		Point("sleep 0")
		return
	}
	BlockUntil("sleep "+d.String(), nil, Now()+int64(d))
}

// Now is the virtual time in nanoseconds since the start of the execution.
func Now() int64 {
	g := Cur()
	if g == nil {
		return 0
	}
	if g.dead {
		return 0
	}
	r := R()
	return do(&request{kind: opCall, fire: func() reply { return reply{t: r.now} }}).t
}

// IO runs f as one environment (kernel) operation: successive ones are ordered for the race detector,
// as they are through the real system-call layer.
func IO(f func()) {
	if g := Cur(); g != nil && g.dead {
		runtime.Goexit()
	}
	raceAcquire(unsafe.Pointer(&ioTok))
	defer raceReleaseMerge(unsafe.Pointer(&ioTok))
	f()
}

// Acquire and ReleaseMerge expose race annotations for shims.
func Acquire(p unsafe.Pointer) { raceAcquire(p) }
func Release(p unsafe.Pointer) { raceReleaseMerge(p) }

// AddTimer schedules f (run on the scheduler) at now+d; call on the scheduler (inside Call).
func (r *Run) AddTimer(d int64, f func()) *timer {
	r.tseq++
	at := r.now + d
	if d < 0 {
		at = r.now
	}
	t := &timer{at: at, seq: r.tseq, fire: f}
	r.timers = append(r.timers, t)
	return t
}

// StopTimer reports whether the timer was pending; call on the scheduler.
func (t *timer) StopTimer() bool {
	was := !t.dead
	t.dead = true
	return was
}

// NowS is the current time; call on the scheduler.
func (r *Run) NowS() int64 { return r.now }

// NativeSend performs a non-blocking native send from the scheduler without a happens-before edge.
func NativeSend[T any](ch chan T, v T) {
	raceDisable()
	select {
	case ch <- v:
	default:
	}
	raceEnable()
}

// Cfg returns the configuration of the current execution.
func Cfg() Config {
	if r := R(); r != nil {
		return r.cfg
	}
	return Config{}
}

/* harness reporting */

// Fail records a violation and stops the execution.
func Fail(format string, a ...any) {
	r := R()
	msg := fmt.Sprintf(format, a...)
	Call(func() {
		r.res.Violations = append(r.res.Violations, msg)
	})
}

// Observe records an observation (distinct outcomes are counted by the explorer).
func Observe(format string, a ...any) {
	r := R()
	msg := fmt.Sprintf(format, a...)
	Call(func() { r.res.Observed = append(r.res.Observed, msg) })
}

// Count adds n cases or states of the named kind to the coverage of this execution.
func Count(name string, n int) {
	r := R()
	Call(func() {
		if r.res.Counts == nil {
			r.res.Counts = map[string]int{}
		}
		r.res.Counts[name] += n
	})
}

// Serialize switches all scheduling choices off (always the default) or back on.
func Serialize(on bool) {
	r := R()
	n := int32(0)
	if on {
		n = 1
	}
	atomic.StoreInt32(&quietNow, n)
	Call(func() { r.serialNow = on })
}

// Note adds a line to the trace.
func Note(format string, a ...any) {
	r := R()
	if !r.cfg.Trace {
		return
	}
	msg := fmt.Sprintf(format, a...)
	Call(func() { r.trace("** %s", msg) })
}

// Stop ends the execution of the harness goroutine.
func Stop() { runtime.Goexit() }

func init() {
	_ = os.Stdout
}

// CallX runs f on the scheduler at once and returns its result. Anything the result points to must have
// been written by goroutines, not by the scheduler (there is no happens-before edge back).
func CallX(f func() (x any, v int, ok bool)) (any, int, bool) {
	rep := do(&request{kind: opCall, fire: func() reply {
		x, v, ok := f()
		return reply{x: x, v: v, ok: ok}
	}})
	return rep.x, rep.v, rep.ok
}

// BlockX waits until enabled holds or the absolute virtual deadline (0 = none) has passed, then runs fire
// on the scheduler and returns its result; see CallX for the restriction.
func BlockX(label string, enabled func() bool, deadline int64, fire func() (x any, v int, ok bool)) (any, int, bool) {
	rep := do(&request{kind: opBlock, label: label, enabled: enabled, deadline: deadline, fire: func() reply {
		x, v, ok := fire()
		return reply{x: x, v: v, ok: ok}
	}})
	return rep.x, rep.v, rep.ok
}

// ChooseS resolves a choice while running on the scheduler.
func (r *Run) ChooseS(kind ChoiceKind, n int, label string) int { return r.choose(kind, n, label) }

// TraceS adds a trace line while running on the scheduler.
func (r *Run) TraceS(format string, a ...any) { r.trace(format, a...) }

// TracingS reports whether traces are kept.
func (r *Run) Tracing() bool { return r.cfg.Trace }

// Timer is a pending timer.
type Timer struct {
	t *timer
	g *G
}

// NewTimer schedules fire (run on the scheduler) d nanoseconds from now.
func NewTimer(d int64, fire func()) *Timer {
	r := R()
	t := &Timer{}
	Call(func() { setTimer(t, r.AddTimer(d, fire)) })
	return t
}

//go:norace
func setTimer(t *Timer, x *timer) { t.t = x }

//go:norace
func getTimer(t *Timer) *timer { return t.t }

// GoAfter starts f as a goroutine of the current process d nanoseconds from now.
func GoAfter(name string, d int64, f func()) *Timer {
	r := R()
	c := &G{Name: name, Proc: Cur().Proc, wake: make(chan reply, 1), daemon: true}
	go r.gmain(c, f)
	t := &Timer{g: c}
	Call(func() {
		r.latent = append(r.latent, c)
		setTimer(t, r.AddTimer(d, func() {
			for i, l := range r.latent {
				if l == c {
					r.latent = append(r.latent[:i], r.latent[i+1:]...)
					break
				}
			}
			if c.Proc != nil && !c.Proc.Alive {
				r.killLatent(c)
				return
			}
			c.ID = r.nextID()
			r.gs = append(r.gs, c)
			c.pending = &request{g: c, kind: opBlock, label: "start"}
		}))
	})
	return t
}

func (r *Run) killLatent(c *G) {
	c.pending = &request{g: c}
	r.kill(c)
}

// Stop cancels the timer and reports whether it was still pending.
func (t *Timer) Stop() bool {
	r := R()
	_, _, ok := CallX(func() (any, int, bool) {
		x := getTimer(t)
		if x == nil {
			return nil, 0, false
		}
		was := x.StopTimer()
		if was && t.g != nil {
			for i, l := range r.latent {
				if l == t.g {
					r.latent = append(r.latent[:i], r.latent[i+1:]...)
					r.killLatent(l)
					break
				}
			}
		}
		return nil, 0, was
	})
	return ok
}

// NumG counts the live goroutines of the current process.
func NumG() int {
	g, r := Cur(), R()
	if g == nil {
		return 1
	}
	_, n, _ := CallX(func() (any, int, bool) {
		n := 1
		for _, o := range r.gs {
			if o != g && o.Proc == g.Proc && !o.exited && o.pending != nil {
				n++
			}
		}
		return nil, n, true
	})
	return n
}

//go:norace
func isDead(g *G) bool { return g.dead }

//go:norace
func setDead(g *G) { g.dead = true }
