package vs

// A Global is a package-level variable of an instrumented program: every virtual process has its own.
type Global[T any] struct {
	mk  func() T
	idx int
	def *T
}

var globals []func() any
var inits []func()

// NewGlobal replaces `var x = expr`; packages call it in initialisation order.
func NewGlobal[T any](mk func() T) *Global[T] {
	v := mk()
	g := &Global[T]{mk: mk, idx: len(globals), def: &v}
	globals = append(globals, func() any { v := mk(); return &v })
	return g
}

// RegisterInit replaces a func init().
func RegisterInit(f func()) {
	inits = append(inits, f)
	f()
}

// P is the address of the running process's instance.
//
//go:norace
func (g *Global[T]) P() *T {
	c := cur
	if c == nil {
		return g.def
	}
	var gl []any
	if c.Proc != nil {
		gl = c.Proc.globals
	} else if curRun != nil {
		gl = curRun.globals
	}
	if g.idx >= len(gl) {
		return g.def
	}
	return gl[g.idx].(*T)
}

// initGlobals runs on the goroutine that creates the process (or on the harness goroutine, for p == nil).
func initGlobals(p *Proc) {
	if len(globals) == 0 && len(inits) == 0 {
		return
	}
	g, r := Cur(), R()
	old := g.Proc
	g.Proc = p
	for _, mk := range globals {
		v := mk()
		if p != nil {
			p.globals = append(p.globals, v)
		} else {
			r.globals = append(r.globals, v)
		}
	}
	for _, f := range inits {
		f()
	}
	g.Proc = old
}
