// Package time replaces the clock of the standard time package with the scheduler's virtual clock.
package time

import (
	real "time"

	"verif/mc/vs"
)

// Base is the virtual instant at which every execution starts.
var Base = real.Date(2024, 1, 1, 0, 0, 0, 0, real.UTC)

func Now() Time {
	if vs.Cur() == nil {
		return Base
	}
	return Base.Add(Duration(vs.Now()))
}

// Rel converts an instant to virtual nanoseconds since the start of the execution.
func Rel(t Time) int64 { return int64(t.Sub(Base)) }

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration) {
	if vs.Cur() == nil {
		return
	}
	vs.Sleep(d)
}

type Timer struct {
	C  <-chan Time
	c  chan Time
	f  func()
	vt *vs.Timer
}

func (t *Timer) start(d Duration) {
	if t.f != nil {
		t.vt = vs.GoAfter("AfterFunc", int64(d), t.f)
		return
	}
	c := t.c
	r := vs.R()
	t.vt = vs.NewTimer(int64(d), func() { vs.NativeSend(c, Base.Add(Duration(r.NowS()))) })
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	if vs.Cur() == nil {
		panic("time.NewTimer outside an execution")
	}
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func (t *Timer) drain() {
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
}

func (t *Timer) Stop() bool {
	was := t.vt.Stop()
	t.drain()
	return was
}

func (t *Timer) Reset(d Duration) bool {
	was := t.vt.Stop()
	t.drain()
	t.start(d)
	return was
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

type Ticker struct {
	C  <-chan Time
	c  chan Time
	d  Duration
	vt *vs.Timer
	st *tickState
}

type tickState struct{ off bool }

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.start()
	return t
}

//go:norace
func (s *tickState) stopped() bool { return s.off }

//go:norace
func (s *tickState) stop() { s.off = true }

func (t *Ticker) start() {
	st := &tickState{}
	t.st = st
	r := vs.R()
	c, d := t.c, int64(t.d)
	var fire func()
	fire = func() {
		if st.stopped() {
			return
		}
		vs.NativeSend(c, Base.Add(Duration(r.NowS())))
		r.AddTimer(d, fire)
	}
	vs.NewTimer(d, fire)
}

func (t *Ticker) Stop() {
	st := t.st
	vs.Call(st.stop)
}

func (t *Ticker) Reset(d Duration) {
	t.Stop()
	t.d = d
	t.start()
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
