package vs

import (
	"fmt"
	"runtime"
	"strings"
)

// Host is a machine: it keeps its file system across process restarts.
type Host struct {
	Name string
	IP   [4]byte
	FS   any // owned by the os shim
	Net  any // owned by the net shim
	RPC  any // owned by the rpc shim
	Home string
}

// Proc is an operating-system process on a Host. Alive, Exit* are scheduler-owned.
type Proc struct {
	Name    string
	Host    *Host
	Alive   bool
	Code    int
	Why     string // why it went down, if it did so by itself
	Args    []string
	Cwd     string // working directory; a default if empty
	Pid     int
	out     strings.Builder // scheduler-owned
	Ext     map[string]any  // per-process shim state, under IO
	onDeath []func()        // run on the scheduler
	globals []any
}

// NewProc creates a process on host h.
func NewProc(h *Host, name string, args []string) *Proc {
	r := R()
	p := &Proc{Name: name, Host: h, Alive: true, Args: args, Ext: map[string]any{}}
	CallSync(func() {
		r.procSeq++
		p.Pid = 100 + r.procSeq
		r.procs = append(r.procs, p)
	})
	initGlobals(p)
	return p
}

// procDown marks p dead and unwinds all its goroutines; scheduler only.
func (r *Run) procDown(p *Proc, code int, why string) {
	if !p.Alive {
		return
	}
	p.Alive = false
	p.Code = code
	p.Why = why
	r.trace("process %s down (%d): %s", p.Name, code, why)
	for _, f := range p.onDeath {
		f()
	}
	for i := 0; i < len(r.gs); i++ {
		g := r.gs[i]
		if g.Proc == p && !g.exited && g.pending != nil {
			r.kill(g)
		}
	}
}

// OnDeath registers f to run on the scheduler when p goes down.
func (p *Proc) OnDeath(f func()) { Call(func() { p.onDeath = append(p.onDeath, f) }) }

// Kill terminates p from outside (another process or the harness).
func (p *Proc) Kill(why string) {
	r := R()
	g := Cur()
	if g.Proc == p {
		ExitProc(137, why)
	}
	Call(func() { r.procDown(p, 137, why) })
}

// ExitProc terminates the current process; it does not return.
func ExitProc(code int, why string) {
	r := R()
	g := Cur()
	if g.dead {
		runtime.Goexit()
	}
	p := g.Proc
	if p == nil {
		panic(fmt.Sprintf("exit(%d) outside a process: %s", code, why))
	}
	// all other goroutines of the process are unwound by the scheduler, then this one unwinds
	Call(func() {
		r.procDown(p, code, why) // this goroutine is not parked and hence not unwound here
	})
	setDead(g)
	runtime.Goexit()
}

// State returns liveness of p as seen by the scheduler.
func (p *Proc) State() (alive bool, code int, why string) {
	CallSync(func() { alive, code, why = p.Alive, p.Code, p.Why })
	return
}

// Write appends to the process's standard output.
func (p *Proc) Write(s string) {
	Call(func() { p.out.WriteString(s) })
}

// Output returns what the process printed.
func (p *Proc) Output() string {
	var s string
	CallSync(func() { s = p.out.String() })
	return s
}

// Goroutines lists the live goroutines of p with what they wait for.
func (p *Proc) Goroutines() []string {
	r := R()
	var out []string
	CallSync(func() {
		for _, g := range r.gs {
			if g.Proc == p && !g.exited && g.pending != nil {
				out = append(out, g.Name+" @ "+g.pending.label)
			}
		}
	})
	return out
}

// SetExited lets waiting code check for the end of a goroutine; scheduler only.
func (g *G) ExitedS() bool { return g.exited }

// Dead reports whether the current goroutine was killed and is unwinding.
func (g *G) Dead() bool { return g.dead }
