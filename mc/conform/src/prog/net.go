package prog

import (
	"errors"
	"fmt"
	"net"
	"os"
	"regexp"
	"strings"
	"time"
)

// netRun is the state of one sequence of socket operations.
type netRun struct {
	l, d, e *net.UDPConn
	out     strings.Builder
	buf     []byte
	ports   map[string]string
}

var portRe = regexp.MustCompile(`127\.0\.0\.1:\d+|:\d{4,5}\b`)

// say records an observation; ports are named in the order they come up.
func (r *netRun) say(format string, a ...interface{}) {
	s := portRe.ReplaceAllStringFunc(fmt.Sprintf(format, a...), func(p string) string {
		if _, ok := r.ports[p]; !ok {
			r.ports[p] = fmt.Sprint("port", len(r.ports))
		}
		return r.ports[p]
	})
	r.out.WriteString(s + "\n")
}

func kind(err error) string {
	if err == nil {
		return "ok"
	}
	var ne net.Error
	t := errors.As(err, &ne) && ne.Timeout()
	return fmt.Sprintf("%v (timeout %v, closed %v, deadline %v)", err, t, errors.Is(err, net.ErrClosed), errors.Is(err, os.ErrDeadlineExceeded))
}

// NetOp is one operation.
type NetOp struct {
	Name string
	Do   func(r *netRun)
}

// NetOps is the alphabet. L listens, D and E are connected to it.
func NetOps() (out []NetOp) {
	op := func(name string, do func(r *netRun)) { out = append(out, NetOp{name, do}) }
	recv := func(name string, c func(r *netRun) *net.UDPConn, size int) {
		op(name, func(r *netRun) {
			b := make([]byte, size)
			c(r).SetReadDeadline(time.Now().Add(20 * time.Millisecond))
			n, a, err := c(r).ReadFromUDP(b)
			r.say("%d %.20q %v %s", n, b[:n], a, kind(err))
			if a != nil {
				r.say("%d", len(a.IP.To4()))
			}
		})
	}
	L := func(r *netRun) *net.UDPConn { return r.l }
	D := func(r *netRun) *net.UDPConn { return r.d }
	recv("L reads", L, 100)
	recv("L reads 2", L, 2)
	recv("D reads", D, 100)
	op("E reads", func(r *netRun) {
		b := make([]byte, 9)
		r.e.SetReadDeadline(time.Now().Add(20 * time.Millisecond))
		n, err := r.e.Read(b)
		r.say("%d %.20q %s", n, b[:n], kind(err))
	})
	op("D writes", func(r *netRun) { n, err := r.d.Write([]byte("from D")); r.say("%d %s", n, kind(err)) })
	op("D writes nothing", func(r *netRun) { n, err := r.d.Write(nil); r.say("%d %s", n, kind(err)) })
	op("D writes too much", func(r *netRun) { n, err := r.d.Write(make([]byte, 70000)); r.say("%d %s", n, kind(err)) })
	op("D writes most", func(r *netRun) { n, err := r.d.Write(make([]byte, 65507)); r.say("%d %s", n, kind(err)) })
	op("D writes to", func(r *netRun) {
		n, err := r.d.WriteToUDP([]byte("x"), r.l.LocalAddr().(*net.UDPAddr))
		r.say("%d %s", n, kind(err))
	})
	op("E writes", func(r *netRun) { n, err := r.e.Write([]byte("from E")); r.say("%d %s", n, kind(err)) })
	op("L to D", func(r *netRun) {
		n, err := r.l.WriteToUDP([]byte("to D"), r.d.LocalAddr().(*net.UDPAddr))
		r.say("%d %s", n, kind(err))
	})
	op("L to E", func(r *netRun) {
		n, err := r.l.WriteTo([]byte("to E, long"), r.e.LocalAddr())
		r.say("%d %s", n, kind(err))
	})
	op("L to nobody", func(r *netRun) {
		n, err := r.l.WriteToUDP([]byte("x"), &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1})
		r.say("%d %s", n, kind(err))
	})
	op("L to port 0", func(r *netRun) {
		n, err := r.l.WriteToUDP([]byte("x"), &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 0})
		r.say("%d %s", n, kind(err))
	})
	op("L writes", func(r *netRun) { n, err := r.l.Write([]byte("x")); r.say("%d %s", n, kind(err)) })
	op("E to D", func(r *netRun) { // D is connected to L and must not hear it
		c, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
		if err == nil {
			n, err := c.WriteToUDP([]byte("stray"), r.d.LocalAddr().(*net.UDPAddr))
			r.say("%d %s", n, kind(err))
			c.Close()
		}
	})
	op("again", func(r *netRun) {
		c, err := net.ListenUDP("udp4", r.l.LocalAddr().(*net.UDPAddr))
		r.say("%s", kind(err))
		if err == nil {
			c.Close()
		}
	})
	op("L closes", func(r *netRun) { r.say("%s", kind(r.l.Close())) })
	op("D closes", func(r *netRun) { r.say("%s", kind(r.d.Close())) })
	op("reopen L", func(r *netRun) {
		if r.l.SetReadDeadline(time.Time{}) != nil { // it is closed
			c, err := net.ListenUDP("udp4", r.l.LocalAddr().(*net.UDPAddr))
			r.say("%s", kind(err))
			if err == nil {
				r.l = c
			}
		}
	})
	op("past deadline", func(r *netRun) {
		r.say("%s", kind(r.d.SetReadDeadline(time.Now().Add(-time.Second))))
		n, err := r.d.Read(make([]byte, 10))
		r.say("%d %s", n, kind(err))
	})
	for _, size := range []int{5, 1029, 20000} {
		size := size
		op(fmt.Sprintf("D floods with %d", size), func(r *netRun) {
			ok := 0
			for i := 0; i < 280; i++ {
				if _, err := r.d.Write(make([]byte, size)); err == nil {
					ok++
				}
			}
			r.say("wrote some: %v", ok > 0)
		})
	}
	op("L drains", func(r *netRun) {
		got := 0
		for {
			r.l.SetReadDeadline(time.Now().Add(20 * time.Millisecond))
			if _, _, err := r.l.ReadFromUDP(make([]byte, 65536)); err != nil {
				r.say("got %d, then %s", got, kind(err))
				return
			}
			got++
		}
	})
	op("addresses", func(r *netRun) {
		r.say("%v %v %v %v %v", r.l.LocalAddr(), r.l.RemoteAddr(), r.d.RemoteAddr(), r.d.LocalAddr().Network(), r.d.LocalAddr())
	})
	return
}

// Net runs operations on fresh sockets and returns all they observed.
func Net(ops []NetOp) string {
	r := &netRun{ports: map[string]string{"127.0.0.1:0": "127.0.0.1:0"}}
	var err error
	lo := net.IPv4(127, 0, 0, 1)
	if r.l, err = net.ListenUDP("udp4", &net.UDPAddr{IP: lo}); err != nil {
		return err.Error()
	}
	to := r.l.LocalAddr().(*net.UDPAddr)
	r.ports[to.String()] = "L"
	if r.d, err = net.DialUDP("udp4", nil, to); err != nil {
		return err.Error()
	}
	r.ports[r.d.LocalAddr().String()] = "D"
	if r.e, err = net.DialUDP("udp4", nil, to); err != nil {
		return err.Error()
	}
	r.ports[r.e.LocalAddr().String()] = "E"
	for _, o := range ops {
		r.say("> %s", o.Name)
		o.Do(r)
	}
	r.l.Close()
	r.d.Close()
	r.e.Close()
	return r.out.String()
}
