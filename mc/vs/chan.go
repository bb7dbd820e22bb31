package vs

import (
	"runtime"
	"unsafe"
)

// selCase is one communication of a send, receive or select.
type selCase struct {
	ch   unsafe.Pointer
	send bool
	val  any // *T for sends on unbuffered channels
}

// hchanHdr mirrors the head of runtime.hchan (checked at start-up by checkHchan).
type hchanHdr struct {
	qcount   uint
	dataqsiz uint
	buf      unsafe.Pointer
	elemsize uint16
	closed   uint32
}

func chptr[T any](ch chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func init() {
	c := make(chan int, 3)
	c <- 1
	h := (*hchanHdr)(chptr(c))
	if h.qcount != 1 || h.dataqsiz != 3 || h.closed != 0 {
		panic("vs: runtime.hchan layout changed")
	}
	close(c)
	if h.closed == 0 {
		panic("vs: runtime.hchan layout changed (closed)")
	}
}

func (r *Run) partner(q *request, c *selCase) (*request, int) {
	var best *request
	bi := -1
	for _, g := range r.gs {
		p := g.pending
		if p == nil || g.exited || p == q || len(p.cases) == 0 {
			continue
		}
		for i, pc := range p.cases {
			if pc.ch == c.ch && pc.send != c.send {
				if best == nil || p.n < best.n { // n carries the arrival order
					best, bi = p, i
				}
				break
			}
		}
	}
	return best, bi
}

func (r *Run) caseReady(q *request, c *selCase) bool {
	if c.ch == nil {
		return false
	}
	h := (*hchanHdr)(c.ch)
	if h.closed != 0 {
		return true
	}
	if h.dataqsiz > 0 {
		if c.send {
			return h.qcount < h.dataqsiz
		}
		return h.qcount > 0
	}
	p, _ := r.partner(q, c)
	return p != nil
}

// communicate performs the scheduling part of a communication. It returns the case that proceeds (-1 for
// default) and, for unbuffered receives, the sender's value pointer.
func communicate(label string, hasDefault bool, cases []*selCase) reply {
	r := R()
	q := &request{kind: opBlock, label: label, cases: cases}
	if hasDefault {
		q.cases = nil // never a rendezvous partner while parked: a default never waits
	}
	ready := func() []int {
		var out []int
		for i, c := range cases {
			if r.caseReady(q, c) {
				out = append(out, i)
			}
		}
		return out
	}
	q.enabled = func() bool {
		if hasDefault {
			return true
		}
		if !q.started {
			q.started = true
			r.serial++
			q.n = r.serial
		}
		return len(ready()) > 0
	}
	q.fire = func() reply {
		rd := ready()
		if len(rd) == 0 {
			return reply{v: -1}
		}
		k := rd[0]
		if len(rd) > 1 {
			k = rd[r.choose(Switch, len(rd), "select at "+label)]
		}
		c := cases[k]
		h := (*hchanHdr)(c.ch)
		if h.closed != 0 || h.dataqsiz > 0 {
			return reply{v: k}
		}
		p, pi := r.partner(q, c)
		if c.send {
			val := c.val
			p.g.pending = &request{g: p.g, kind: opBlock, label: p.label + " (received)", fire: func() reply { return reply{v: pi, ok: true, x: val} }}
			return reply{v: k, ok: true}
		}
		val := p.cases[pi].val
		p.g.pending = &request{g: p.g, kind: opBlock, label: p.label + " (sent)", fire: func() reply { return reply{v: pi, ok: true} }}
		return reply{v: k, ok: true, x: val}
	}
	return do(q)
}

func where() string {
	_, file, line, ok := runtime.Caller(2)
	if !ok {
		return "?"
	}
	return shortPos(file, line)
}

func shortPos(file string, line int) string {
	n := 0
	for i := len(file) - 1; i >= 0; i-- {
		if file[i] == '/' {
			n++
			if n == 2 {
				file = file[i+1:]
				break
			}
		}
	}
	return file + ":" + itoa(line)
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	var b [20]byte
	i := len(b)
	for n > 0 {
		i--
		b[i] = byte('0' + n%10)
		n /= 10
	}
	return string(b[i:])
}

// SendTo is ch <- v, written SendTo(ch)(v) so that the element type comes from the channel.
func SendTo[T any](ch chan<- T) func(T) {
	w := where()
	return func(v T) {
		if Cur() == nil {
			ch <- v
			return
		}
		sendG(*(*chan T)(unsafe.Pointer(&ch)), v, "send at "+w)
	}
}

// SendCaseTo is SendCase(ch, v), curried likewise.
func SendCaseTo[T any](ch chan<- T) func(T) *SendC[T] {
	return func(v T) *SendC[T] { return SendCase(ch, v) }
}

// ChanZero is the zero value of a channel's element type.
func ChanZero[T any](ch <-chan T) (z T) { return }

// Send is ch <- v.
func Send[T any](ch chan<- T, v T) {
	g := Cur()
	if g == nil {
		ch <- v
		return
	}
	c := *(*chan T)(unsafe.Pointer(&ch))
	sendG(c, v, "send at "+where())
}

func sendG[T any](c chan T, v T, label string) {
	p := chptr(c)
	unbuf := c != nil && cap(c) == 0
	sc := &selCase{ch: p, send: true}
	if unbuf {
		b := new(T)
		*b = v
		sc.val = b
		raceReleaseMerge(p)
	}
	rep := communicate(label, false, []*selCase{sc})
	if unbuf && rep.ok {
		raceAcquire(p)
		return
	}
	c <- v
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	g := Cur()
	if g == nil {
		return <-ch
	}
	c := *(*chan T)(unsafe.Pointer(&ch))
	v, _ := recvG(c, "receive at "+where())
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	g := Cur()
	if g == nil {
		v, ok := <-ch
		return v, ok
	}
	c := *(*chan T)(unsafe.Pointer(&ch))
	return recvG(c, "receive at "+where())
}

func recvG[T any](c chan T, label string) (T, bool) {
	p := chptr(c)
	unbuf := c != nil && cap(c) == 0
	if unbuf {
		raceReleaseMerge(p)
	}
	rep := communicate(label, false, []*selCase{{ch: p}})
	if unbuf && rep.ok {
		raceAcquire(p)
		return *(rep.x.(*T)), true
	}
	v, ok := <-c
	return v, ok
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if Cur() != nil {
		Point("close at " + where())
	}
	close(ch)
}

// SelCase is one case of a rewritten select statement.
type SelCase interface {
	sel() *selCase
	perform(rep reply)
}

// RecvC is a receive case; V and OK are valid after Select chose it.
type RecvC[T any] struct {
	c  chan T
	V  T
	OK bool
}

// SendC is a send case.
type SendC[T any] struct {
	c chan T
	v T
}

func RecvCase[T any](ch <-chan T) *RecvC[T] {
	return &RecvC[T]{c: *(*chan T)(unsafe.Pointer(&ch))}
}

func SendCase[T any](ch chan<- T, v T) *SendC[T] {
	return &SendC[T]{c: *(*chan T)(unsafe.Pointer(&ch)), v: v}
}

func (r *RecvC[T]) sel() *selCase {
	if r.c != nil && cap(r.c) == 0 {
		raceReleaseMerge(chptr(r.c))
	}
	return &selCase{ch: chptr(r.c)}
}

func (r *RecvC[T]) perform(rep reply) {
	if cap(r.c) == 0 && rep.ok {
		raceAcquire(chptr(r.c))
		r.V, r.OK = *(rep.x.(*T)), true
		return
	}
	r.V, r.OK = <-r.c
}

func (s *SendC[T]) sel() *selCase {
	sc := &selCase{ch: chptr(s.c), send: true}
	if s.c != nil && cap(s.c) == 0 {
		b := new(T)
		*b = s.v
		sc.val = b
		raceReleaseMerge(chptr(s.c))
	}
	return sc
}

func (s *SendC[T]) perform(rep reply) {
	if cap(s.c) == 0 && rep.ok {
		raceAcquire(chptr(s.c))
		return
	}
	s.c <- s.v
}

// Select chooses and performs one of the cases; -1 means the default clause.
func Select(hasDefault bool, cases ...SelCase) int {
	if Cur() == nil {
		return nativeSelect(hasDefault, cases)
	}
	sc := make([]*selCase, len(cases))
	for i, c := range cases {
		sc[i] = c.sel()
	}
	rep := communicate("select at "+where(), hasDefault, sc)
	if rep.v >= 0 {
		cases[rep.v].perform(rep)
	}
	return rep.v
}

func nativeSelect(hasDefault bool, cases []SelCase) int {
	for {
		for i, c := range cases {
			sc := c.sel()
			if sc.ch == nil {
				continue
			}
			h := (*hchanHdr)(sc.ch)
			if h.closed != 0 || h.dataqsiz > 0 && (sc.send && h.qcount < h.dataqsiz || !sc.send && h.qcount > 0) {
				c.perform(reply{})
				return i
			}
		}
		if hasDefault {
			return -1
		}
		runtime.Gosched()
	}
}
