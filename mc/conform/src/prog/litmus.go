package prog

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Lit is a small concurrent program and all its possible outcomes.
type Lit struct {
	Name string
	Run  func() string
	Want []string
}

// try runs f and tells how it ended.
func try(f func()) (out string) {
	defer func() {
		if v := recover(); v != nil {
			out = fmt.Sprint(v)
		}
	}()
	f()
	return "ok"
}

// stuck tells whether f is still blocked after a while.
func stuck(f func()) string {
	done := make(chan string, 1)
	go func() { done <- try(f) }()
	select {
	case s := <-done:
		return s
	case <-time.After(30 * time.Millisecond):
		return "stuck"
	}
}

func join(fs ...func()) {
	var wg sync.WaitGroup
	for _, f := range fs {
		f := f
		wg.Add(1)
		go func() {
			defer wg.Done()
			f()
		}()
	}
	wg.Wait()
}

// Lits lists the programs.
func Lits() (out []Lit) {
	add := func(name string, run func() string, want ...string) { out = append(out, Lit{name, run, want}) }
	add("unbuffered send waits", func() string {
		c := make(chan int)
		return stuck(func() { c <- 1 })
	}, "stuck")
	add("buffered send fits", func() string {
		c := make(chan int, 2)
		return stuck(func() { c <- 1; c <- 2 }) + stuck(func() { c <- 3 }) + fmt.Sprint(len(c), cap(c))
	}, "okstuck2 2")
	add("order of a channel", func() string {
		c := make(chan int, 3)
		go func() {
			for i := 0; i < 3; i++ {
				c <- i
			}
			close(c)
		}()
		s := ""
		for v := range c {
			s += fmt.Sprint(v)
		}
		return s
	}, "012")
	add("two senders", func() string {
		c := make(chan string)
		go func() { c <- "a" }()
		go func() { c <- "b" }()
		return <-c + <-c
	}, "ab", "ba")
	add("two senders of two", func() string {
		c := make(chan string, 1)
		go func() { c <- "a"; c <- "A" }()
		go func() { c <- "b"; c <- "B" }()
		return <-c + <-c + <-c + <-c
	}, "aAbB", "abAB", "abBA", "baAB", "baBA", "bBaA")
	add("close wakes all", func() string {
		c := make(chan int)
		var n int32
		go close(c)
		join(func() {
			_, ok := <-c
			if !ok {
				atomic.AddInt32(&n, 1)
			}
		}, func() {
			_, ok := <-c
			if !ok {
				atomic.AddInt32(&n, 1)
			}
		})
		return fmt.Sprint(n)
	}, "2")
	add("close keeps what is buffered", func() string {
		c := make(chan int, 2)
		c <- 7
		close(c)
		a, ok1 := <-c
		b, ok2 := <-c
		return fmt.Sprint(a, ok1, b, ok2)
	}, "7 true 0 false")
	add("misuse", func() string {
		c := make(chan int)
		close(c)
		var n chan int
		return strings.Join([]string{try(func() { c <- 1 }), try(func() { close(c) }), try(func() { close(n) }),
			stuck(func() { n <- 1 }), stuck(func() { <-n })}, "; ")
	}, "send on closed channel; close of closed channel; close of nil channel; stuck; stuck")
	add("close under a sender", func() string {
		c := make(chan int)
		r := make(chan string)
		go func() { r <- try(func() { c <- 1 }) }()
		close(c)
		return <-r
	}, "send on closed channel")
	add("select of two ready", func() string {
		a, b := make(chan int, 1), make(chan int, 1)
		a <- 1
		b <- 2
		select {
		case v := <-a:
			return fmt.Sprint("a", v)
		case v := <-b:
			return fmt.Sprint("b", v)
		}
	}, "a1", "b2")
	add("select default", func() string {
		c := make(chan int)
		go func() { c <- 1 }()
		select {
		case v := <-c:
			return fmt.Sprint(v)
		default:
			return "none"
		}
	}, "1", "none")
	add("select send or receive", func() string {
		c := make(chan int, 1)
		s := ""
		for i := 0; i < 3; i++ {
			select {
			case c <- i:
				s += "s"
			case v := <-c:
				s += fmt.Sprint(v)
			}
		}
		return s
	}, "s0s")
	add("select on nil", func() string {
		var n chan int
		c := make(chan int, 1)
		select {
		case n <- 1:
			return "nil"
		case <-n:
			return "nil"
		case c <- 1:
			return "c"
		}
	}, "c")
	add("two selects meet", func() string {
		a, b := make(chan int), make(chan int)
		s := make(chan string, 1)
		go func() {
			select {
			case a <- 1:
				s <- "a"
			case b <- 1:
				s <- "b"
			}
		}()
		t := ""
		select {
		case <-a:
			t = "a"
		case <-b:
			t = "b"
		}
		return t + <-s
	}, "aa", "bb")
	add("select with timeout", func() string {
		c := make(chan int)
		t := time.Now()
		select {
		case <-c:
		case <-time.After(20 * time.Millisecond):
		}
		return fmt.Sprint(time.Since(t) >= 20*time.Millisecond)
	}, "true")
	add("lost update", func() string {
		var n int32
		f := func() { v := atomic.LoadInt32(&n); atomic.StoreInt32(&n, v+1) }
		join(f, f)
		return fmt.Sprint(n)
	}, "1", "2")
	add("store buffer", func() string { // atomics are sequentially consistent
		var x, y int32
		var a, b int32
		join(func() { atomic.StoreInt32(&x, 1); a = atomic.LoadInt32(&y) }, func() { atomic.StoreInt32(&y, 1); b = atomic.LoadInt32(&x) })
		return fmt.Sprint(a, b)
	}, "0 1", "1 0", "1 1")
	add("message passing", func() string {
		var x, y int32
		var a, b int32
		join(func() { atomic.StoreInt32(&x, 1); atomic.StoreInt32(&y, 1) }, func() { a = atomic.LoadInt32(&y); b = atomic.LoadInt32(&x) })
		return fmt.Sprint(a, b)
	}, "0 0", "0 1", "1 1")
	add("mutex", func() string {
		var mu sync.Mutex
		n := 0
		f := func() { mu.Lock(); v := n; n = v + 1; mu.Unlock() }
		join(f, f)
		return fmt.Sprint(n)
	}, "2")
	add("lock order", func() string {
		var mu sync.Mutex
		s := ""
		f := func(x string) func() {
			return func() {
				mu.Lock()
				s += x
				mu.Unlock()
				mu.Lock()
				s += x
				mu.Unlock()
			}
		}
		join(f("a"), f("b"))
		return s
	}, "aabb", "abab", "abba", "baab", "baba", "bbaa")
	add("lock twice", func() string {
		var mu sync.Mutex
		return stuck(func() { mu.Lock(); mu.Lock() })
	}, "stuck")
	add("trylock", func() string {
		var mu sync.Mutex
		var rw sync.RWMutex
		a := mu.TryLock()
		b := mu.TryLock()
		c, d, e := rw.TryRLock(), rw.TryRLock(), rw.TryLock()
		return fmt.Sprint(a, b, c, d, e)
	}, "true false true true false")
	add("deadlock of two locks", func() string {
		var a, b sync.Mutex
		return stuck(func() {
			join(func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock() }, func() { b.Lock(); a.Lock(); a.Unlock(); b.Unlock() })
		})
	}, "ok", "stuck")
	add("readers share", func() string {
		var rw sync.RWMutex
		return stuck(func() {
			rw.RLock()
			rw.RLock()
			rw.RUnlock()
			rw.RUnlock()
			rw.Lock()
			rw.Unlock()
		}) +
			stuck(func() { rw.RLock(); rw.Lock() })
	}, "okstuck")
	add("a waiting writer stops readers", func() string {
		var rw sync.RWMutex
		rw.RLock()
		go func() { rw.Lock(); rw.Unlock() }()
		time.Sleep(20 * time.Millisecond)
		r := stuck(func() { rw.RLock(); rw.RUnlock() })
		rw.RUnlock()
		return r
	}, "stuck")
	add("writers exclude", func() string {
		var rw sync.RWMutex
		n, m := 0, 0
		join(func() { rw.Lock(); n++; n++; rw.Unlock() }, func() { rw.RLock(); m = n; rw.RUnlock() })
		return fmt.Sprint(m)
	}, "0", "2")
	add("waitgroup", func() string {
		var wg sync.WaitGroup
		wg.Wait()
		wg.Add(2)
		var n int32
		for i := 0; i < 2; i++ {
			go func() { atomic.AddInt32(&n, 1); wg.Done() }()
		}
		wg.Wait()
		return fmt.Sprint(n, " ", try(func() { wg.Done() }))
	}, "2 sync: negative WaitGroup counter")
	add("once", func() string {
		var o sync.Once
		var n int32
		var seen [2]int32
		join(func() { o.Do(func() { atomic.AddInt32(&n, 1) }); seen[0] = atomic.LoadInt32(&n) },
			func() { o.Do(func() { atomic.AddInt32(&n, 1) }); seen[1] = atomic.LoadInt32(&n) })
		return fmt.Sprint(n, seen)
	}, "1 [1 1]")
	add("cond signal", func() string {
		var mu sync.Mutex
		c := sync.NewCond(&mu)
		n := 0
		go func() { mu.Lock(); n = 1; c.Signal(); mu.Unlock() }()
		mu.Lock()
		for n == 0 {
			c.Wait()
		}
		mu.Unlock()
		return fmt.Sprint(n)
	}, "1")
	add("a signal wakes one", func() string {
		var mu sync.Mutex
		c := sync.NewCond(&mu)
		var n int32
		for i := 0; i < 2; i++ {
			go func() { mu.Lock(); c.Wait(); n++; mu.Unlock() }()
		}
		time.Sleep(20 * time.Millisecond)
		c.Signal()
		time.Sleep(20 * time.Millisecond)
		mu.Lock()
		a := n
		mu.Unlock()
		c.Broadcast()
		time.Sleep(20 * time.Millisecond)
		mu.Lock()
		defer mu.Unlock()
		return fmt.Sprint(a, n)
	}, "1 2")
	add("a lost signal", func() string {
		var mu sync.Mutex
		c := sync.NewCond(&mu)
		return stuck(func() {
			go func() { c.Signal() }()
			mu.Lock()
			c.Wait()
			mu.Unlock()
		})
	}, "ok", "stuck")
	add("compare and swap", func() string {
		var v int32
		var a, b bool
		join(func() { a = atomic.CompareAndSwapInt32(&v, 0, 1) }, func() { b = atomic.CompareAndSwapInt32(&v, 0, 2) })
		return fmt.Sprint(a, b, v)
	}, "true false 1", "false true 2")
	add("sync.Map", func() string {
		var m sync.Map
		var got [2]interface{}
		join(func() { got[0], _ = m.LoadOrStore(1, "a") }, func() { got[1], _ = m.LoadOrStore(1, "b") })
		return fmt.Sprint(got)
	}, "[a a]", "[b b]")
	add("timers in order", func() string {
		var mu sync.Mutex
		s := ""
		for _, d := range []int{30, 10, 20} {
			d := d
			time.AfterFunc(time.Duration(d)*time.Millisecond, func() { mu.Lock(); s += fmt.Sprint(d, " "); mu.Unlock() })
		}
		time.Sleep(60 * time.Millisecond)
		mu.Lock()
		defer mu.Unlock()
		return s
	}, "10 20 30 ")
	add("stopped timer", func() string {
		t := time.NewTimer(20 * time.Millisecond)
		a := t.Stop()
		b := t.Stop()
		s := stuck(func() { <-t.C })
		u := time.NewTimer(time.Millisecond)
		<-u.C
		c := u.Stop()
		d := u.Reset(time.Millisecond)
		<-u.C
		return fmt.Sprintln(a, b, s, c, d)
	}, "true false stuck false false\n")
	add("ticker", func() string {
		t := time.NewTicker(10 * time.Millisecond)
		<-t.C
		<-t.C
		t.Stop()
		return stuck(func() { <-t.C; <-t.C })
	}, "stuck")
	add("goexit of a panic", func() string {
		s := ""
		r := try(func() {
			defer func() { s += "d" }()
			panic("p")
		})
		return s + r
	}, "dp")
	add("map iteration", func() string {
		m := map[int]string{1: "a", 2: "b", 3: "c"}
		var l []string
		for _, v := range m {
			l = append(l, v)
		}
		sort.Strings(l)
		return strings.Join(l, "")
	}, "abc")
	add("concurrent close and receive", func() string {
		c := make(chan int, 1)
		go func() { c <- 1; close(c) }()
		select {
		case v, ok := <-c:
			return fmt.Sprint(v, ok)
		case <-time.After(time.Second):
			return "late"
		}
	}, "1 true")
	add("range and break", func() string {
		c := make(chan int)
		d := make(chan struct{})
		go func() {
			for i := 0; ; i++ {
				select {
				case c <- i:
				case <-d:
					return
				}
			}
		}()
		n := 0
		for v := range c {
			n += v
			if v == 2 {
				break
			}
		}
		close(d)
		return fmt.Sprint(n)
	}, "3")
	return
}
