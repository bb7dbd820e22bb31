// Package net replaces the standard net package in instrumented code: hosts share one virtual LAN whose
// datagrams the explorer may drop, duplicate, delay or corrupt. All socket state is owned by the scheduler.
package net

import (
	"errors"
	"fmt"
	real "net"
	"net/netip"
	realos "os"
	"strconv"
	"strings"
	"syscall"
	"time"

	vos "verif/mc/shim/os"
	vtime "verif/mc/shim/time"
	"verif/mc/vs"
)

// Faults selects what may happen to datagrams; every deviation is one Fault choice.
type Faults struct {
	Drop     bool
	Dup      bool
	Late     bool                                   // delivered after everything else now in flight (1 ms later)
	VeryLate bool                                   // delivered 7 s later
	Corrupt  bool                                   // one bit flipped near the end, or in the middle
	Match    func(src, dst Addr4, data []byte) bool // restricts faults to some datagrams; must be pure
	// CorruptAt lists the positions at which Corrupt may flip a bit (default: the last byte and the middle).
	CorruptAt func(data []byte) []int
	// Lose: datagrams that are lost in any case; must be pure.
	Lose func(src, dst Addr4, data []byte) bool
	// Crash: the sending process dies before or after sending, if this says so.
	Crash func(p *vs.Proc) bool
}

// Addr4 is an IPv4 endpoint.
type Addr4 struct {
	IP   [4]byte
	Port int
}

func (a Addr4) String() string {
	return fmt.Sprintf("%d.%d.%d.%d:%d", a.IP[0], a.IP[1], a.IP[2], a.IP[3], a.Port)
}

// dgram is immutable once sent.
type dgram struct {
	src  Addr4
	src6 *real.UDPAddr // for injected datagrams from an IPv6 source
	dst  Addr4
	data []byte
}

// Rec is one datagram on the wire, with its fate.
type Rec struct {
	At       int64
	Src, Dst Addr4
	Data     []byte
	Fate     string
	Got      int // number of sockets that received it so far
	Full     int // number of sockets whose receive buffer was full
}

type sock struct {
	id        int
	host      *vs.Host
	proc      *vs.Proc
	lip       [4]byte // zero: wildcard
	lport     int
	connected bool
	peer      Addr4
	q         []*dgram
	held      int // what the queued datagrams count against the receive buffer
	closed    bool
	refused   bool // pending ICMP error
	rdl       int64
	expire    interface{ StopTimer() bool }
	sink      bool // harness tap
}

// World is the virtual LAN of one execution.
type World struct {
	hosts   []*vs.Host
	socks   []*sock
	units   []*UnixListener
	Log     []*Rec
	F       Faults
	nextID  int
	nextEph map[*vs.Host]int // ephemeral ports are not reused within an execution
	Offline map[*vs.Host]bool
	lag     time.Duration     // how long a datagram travels
	rate    int               // bytes per second that a host can send; 0: any number
	busy    map[[4]byte]int64 // until when a host is sending
	Addrs   int               // how interface addresses are reported: 0 as usual, 1 an error, 2 IPv6 before IPv4, 3 another network's first
}

// NewWorld creates an empty LAN.
func NewWorld() *World { return &World{Offline: map[*vs.Host]bool{}, nextEph: map[*vs.Host]int{}} }

// Add attaches a host.
func (w *World) Add(h *vs.Host) {
	h.Net = w
	vs.CallSync(func() { w.hosts = append(w.hosts, h) })
}

// SetFaults changes the fault menu.
func (w *World) SetFaults(f Faults) { vs.CallSync(func() { w.F = f }) }

// SetOffline detaches or attaches a host's network interface.
func (w *World) SetOffline(h *vs.Host, off bool) { vs.CallSync(func() { w.Offline[h] = off }) }

// SetSpeed makes every datagram between hosts travel for lag, after those its host has sent before it at the given
// number of bytes per second (0: at once).
func (w *World) SetSpeed(lag time.Duration, rate int) {
	vs.CallSync(func() { w.lag, w.rate, w.busy = lag, rate, map[[4]byte]int64{} })
}

// travel delivers d when it arrives.
func (w *World) travel(r *vs.Run, d *dgram) {
	if w.lag == 0 && w.rate == 0 || d.src.IP == d.dst.IP {
		w.deliver(r, d, "sent", false)
		return
	}
	at := r.NowS()
	if w.rate > 0 {
		if b := w.busy[d.src.IP]; b > at {
			at = b
		}
		at += int64(time.Second) * int64(len(d.data)+42) / int64(w.rate)
		w.busy[d.src.IP] = at
	}
	r.AddTimer(at-r.NowS()+int64(w.lag), func() { w.deliver(r, d, "sent", false) })
}

// SetIP gives a host another address.
func (w *World) SetIP(h *vs.Host, ip [4]byte) { vs.CallSync(func() { h.IP = ip }) }

// Wire returns the datagrams sent so far.
func (w *World) Wire() []Rec { return w.Since(0) }

// Sent returns the number of datagrams so far.
func (w *World) Sent() (n int) {
	vs.CallSync(func() { n = len(w.Log) })
	return
}

// Since returns what was sent after the first n datagrams.
func (w *World) Since(n int) []Rec {
	var out []Rec
	vs.CallSync(func() {
		for _, r := range w.Log[n:] {
			out = append(out, *r)
		}
	})
	return out
}

// Sockets lists the open sockets of a process as local->remote strings.
func (w *World) Sockets(p *vs.Proc) []string {
	var out []string
	vs.CallSync(func() {
		for _, s := range w.socks {
			if s.proc == p && !s.closed {
				d := fmt.Sprintf(":%d", s.lport)
				if s.connected {
					d += "->" + s.peer.String()
				}
				out = append(out, d)
			}
		}
	})
	return out
}

// Queued counts datagrams waiting at sockets of p.
func (w *World) Queued(p *vs.Proc) int {
	n := 0
	vs.CallSync(func() {
		for _, s := range w.socks {
			if s.proc == p && !s.closed {
				n += len(s.q)
			}
		}
	})
	return n
}

// Inject delivers a datagram from an arbitrary source straight to h's port.
func (w *World) Inject(h *vs.Host, port int, src Addr4, data []byte) {
	d := &dgram{src: src, dst: Addr4{h.IP, port}, data: append([]byte(nil), data...)}
	r := vs.R()
	vs.IO(func() {})
	vs.Call(func() { w.deliver(r, d, "injected", false) })
}

// Inject6 delivers a datagram with an IPv6 source address.
func (w *World) Inject6(h *vs.Host, port int, src *real.UDPAddr, data []byte) {
	d := &dgram{src6: src, src: Addr4{Port: src.Port}, dst: Addr4{h.IP, port}, data: append([]byte(nil), data...)}
	r := vs.R()
	vs.IO(func() {})
	vs.Call(func() { w.deliver(r, d, "injected", false) })
}

func curWorld() (*World, *vs.Proc) {
	g := vs.Cur()
	if g == nil || g.Proc == nil || g.Proc.Host.Net == nil {
		return nil, nil
	}
	return g.Proc.Host.Net.(*World), g.Proc
}

// bridge is the address every host has on an internal network of its own, if World.Addrs is 3.
var bridge = [4]byte{172, 17, 0, 1}

var bcast = [4]byte{255, 255, 255, 255}

// deliver runs on the scheduler.
func (w *World) deliver(r *vs.Run, d *dgram, fate string, again bool) {
	rec := &Rec{At: r.NowS(), Src: d.src, Dst: d.dst, Data: d.data, Fate: fate}
	w.Log = append(w.Log, rec)
	hit := false
	for _, s := range w.socks {
		if s.closed || s.lport != d.dst.Port || w.Offline[s.host] && s.host.IP != d.src.IP {
			continue
		}
		if d.dst.IP != bcast && d.dst.IP != s.host.IP && !(isLoop(d.dst.IP) && d.src.IP == d.dst.IP && s.host.Name == hostOfLoop(d)) {
			continue
		}
		if s.connected && (s.peer != d.src || d.dst.IP == bcast) {
			continue
		}
		hit = true
		if s.held+truesize(len(d.data)) > rcvbuf {
			rec.Full++
			continue
		}
		s.q = append(s.q, d)
		s.held += truesize(len(d.data))
		rec.Got++
	}
	if r.Tracing() {
		r.TraceS("  net %s %v->%v %s (%d receivers, %d full)", fate, d.src, d.dst, Describe(d.data), rec.Got, rec.Full)
	}
	if !hit && d.dst.IP != bcast {
		// the destination host answers a closed port with ICMP port unreachable
		up := false
		for _, h := range w.hosts {
			if h.IP == d.dst.IP && !w.Offline[h] {
				up = true
			}
		}
		if up {
			for _, s := range w.socks {
				if !s.closed && s.connected && s.lport == d.src.Port && s.host.IP == d.src.IP && s.peer == d.dst {
					s.refused = true
				}
			}
		}
	}
}

// rcvbuf is the receive buffer a socket has unless someone raises net.core.rmem_default.
const rcvbuf = 212992

// truesize is what a datagram of n bytes counts against it (measured on Linux 6.18; see cmd/conform): headers and
// payload in a slab of 576 bytes or a power of two, or payload in pages of its own, and the kernel's bookkeeping.
func truesize(n int) int {
	b := 576
	if n += 384; n > b {
		for b = 1024; b < n; b *= 2 {
		}
	}
	if b > 16384 {
		b = 576 + n - 384
	}
	return b + 256
}

func isLoop(ip [4]byte) bool { return ip[0] == 127 }

// loopback addresses are per host: 127.0.0.1 is rewritten to the host's own address on dialling, so none remain.
func hostOfLoop(d *dgram) string { return "" }

// Describe summarises a datagram for traces.
func Describe(b []byte) string {
	if len(b) == 0 {
		return "empty"
	}
	names := []string{"DiscoverReq", "DiscoverResp", "ListReq", "ListResp", "OpenConn", "Data", "Ack"}
	n := fmt.Sprintf("type%d", b[0])
	if int(b[0]) < len(names) {
		n = names[b[0]]
	}
	if (b[0] == 5 || b[0] == 6) && len(b) >= 5 {
		n += fmt.Sprintf(" off=%d", uint32(b[1])<<24|uint32(b[2])<<16|uint32(b[3])<<8|uint32(b[4]))
	}
	return fmt.Sprintf("%s len=%d", n, len(b))
}

// send is called by the sending goroutine.
func (w *World) send(src, dst Addr4, data []byte) {
	d := &dgram{src: src, dst: dst, data: append([]byte(nil), data...)}
	r := vs.R()
	if vs.Cfg().NetPoints {
		vs.Point("send " + Describe(data))
	}
	vs.IO(func() {})
	type alt struct {
		name string
		act  func()
	}
	now := func() { w.travel(r, d) }
	alts := []alt{{"sent", now}}
	var f Faults
	vs.IO(func() { f = w.faults() })
	if f.Lose != nil && f.Lose(src, dst, data) {
		vs.Call(func() {
			w.Log = append(w.Log, &Rec{At: r.NowS(), Src: src, Dst: dst, Data: d.data, Fate: "lost"})
			r.TraceS("  net lost %v->%v %s", src, dst, Describe(d.data))
		})
		return
	}
	if f.Match == nil || f.Match(src, dst, data) {
		if f.Drop {
			alts = append(alts, alt{"drop", func() {
				w.Log = append(w.Log, &Rec{At: r.NowS(), Src: src, Dst: dst, Data: d.data, Fate: "dropped"})
				r.TraceS("  net dropped %v->%v %s", src, dst, Describe(d.data))
			}})
		}
		if f.Dup {
			alts = append(alts, alt{"dup", func() { w.deliver(r, d, "sent", false); w.deliver(r, d, "duplicate", true) }})
		}
		if f.Late {
			alts = append(alts, alt{"late", func() { r.AddTimer(int64(time.Millisecond), func() { w.deliver(r, d, "late", false) }) }})
		}
		if f.VeryLate {
			alts = append(alts, alt{"verylate", func() { r.AddTimer(int64(7*time.Second), func() { w.deliver(r, d, "verylate", false) }) }})
		}
		if f.Corrupt && len(data) > 0 {
			at := []int{len(data) - 1, len(data) / 2}
			if f.CorruptAt != nil {
				at = f.CorruptAt(data)
			}
			for _, pos := range at {
				c := &dgram{src: src, dst: dst, data: append([]byte(nil), data...)}
				c.data[pos] ^= 0x40
				alts = append(alts, alt{"corrupt", func() { w.deliver(r, c, "corrupt", false) }})
			}
		}
	}
	n := len(alts)
	var self *vs.Proc
	if f.Crash != nil {
		if g := vs.Cur(); g != nil && g.Proc != nil && f.Crash(g.Proc) {
			self = g.Proc
			n += 2
		}
	}
	c := vs.Choose(vs.Fault, n, "net "+Describe(data))
	if c >= len(alts) {
		if c > len(alts) {
			vs.IO(func() {})
			vs.Call(now)
		}
		vs.Note("%s dies around sending %v->%v %s", self.Name, src, dst, Describe(data))
		vs.ExitProc(137, "crash injected around sending "+Describe(data))
	}
	if c > 0 {
		vs.Note("net fault %s on %v->%v %s", alts[c].name, src, dst, Describe(data))
	}
	vs.IO(func() {})
	vs.Call(alts[c].act)
}

//go:norace
func (w *World) faults() Faults { return w.F }

/* addresses */

func to4(ip real.IP) (a [4]byte, ok bool) {
	if len(ip) == 0 {
		return a, true
	}
	v := ip.To4()
	if v == nil {
		return a, false
	}
	copy(a[:], v)
	return a, true
}

func opErr(op, network string, src, dst real.Addr, err error) error {
	return &real.OpError{Op: op, Net: network, Source: src, Addr: dst, Err: err}
}

func sysErr(call string, e syscall.Errno) error { return realos.NewSyscallError(call, e) }

// InterfaceAddrs reports the loopback addresses, the host's address, and a link-local IPv6 address, which is there
// without a network, too.
func InterfaceAddrs() ([]Addr, error) {
	w, p := curWorld()
	v6 := func(s string, bits int) Addr { return &IPNet{IP: real.ParseIP(s), Mask: real.CIDRMask(bits, 128)} }
	out := []Addr{&IPNet{IP: real.IPv4(127, 0, 0, 1), Mask: real.CIDRMask(8, 32)}, v6("::1", 128)}
	if w == nil {
		return out, nil
	}
	ip := p.Host.IP
	h := p.Host
	_, mode, off := vs.CallX(func() (any, int, bool) { return nil, w.Addrs, w.Offline[h] })
	if mode == 1 {
		return nil, &real.OpError{Op: "route", Net: "ip+net", Err: realos.NewSyscallError("netlinkrib", syscall.ENOBUFS)}
	}
	ll := v6(fmt.Sprintf("fe80::%d", ip[3]), 64)
	if mode == 2 {
		out = append(out, ll)
	}
	if mode == 3 {
		out = append(out, &IPNet{IP: real.IPv4(172, 17, 0, 1), Mask: real.CIDRMask(16, 32)})
	}
	if !off {
		out = append(out, &IPNet{IP: real.IPv4(ip[0], ip[1], ip[2], ip[3]), Mask: real.CIDRMask(24, 32)})
	}
	if mode != 2 {
		out = append(out, ll)
	}
	return out, nil
}

// SetAddrs changes how interface addresses are reported.
func (w *World) SetAddrs(mode int) { vs.CallSync(func() { w.Addrs = mode }) }

func Interfaces() ([]Interface, error) { return nil, errors.New("not supported") }

func ResolveUDPAddr(network, address string) (*UDPAddr, error) {
	h, p, err := real.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	port, err := strconv.Atoi(p)
	if err != nil || port < 0 || port > 65535 {
		return nil, &real.AddrError{Err: "invalid port", Addr: address}
	}
	a := &UDPAddr{Port: port}
	if h == "localhost" {
		h = "127.0.0.1"
	}
	if h != "" {
		if a.IP = real.ParseIP(h); a.IP == nil {
			return nil, &real.DNSError{Err: "no such host", Name: h, IsNotFound: true}
		}
	}
	return a, nil
}

func ResolveUnixAddr(network, address string) (*UnixAddr, error) {
	return real.ResolveUnixAddr(network, address)
}

/* UDP sockets */

// UDPConn is a virtual UDP socket.
type UDPConn struct {
	s         *sock
	w         *World
	net       string
	connected bool
	v4        bool
	laddr     UDPAddr
	raddr     UDPAddr
	src       Addr4
	dst       Addr4
}

func (w *World) portTaken(h *vs.Host, port int) bool {
	for _, s := range w.socks {
		if !s.closed && s.host == h && s.lport == port {
			return true
		}
	}
	return false
}

func (w *World) open(p *vs.Proc, s *sock) int {
	if s.lport == 0 {
		for s.lport = 32768 + w.nextEph[p.Host]; w.portTaken(p.Host, s.lport); s.lport++ {
		}
		w.nextEph[p.Host] = s.lport - 32768 + 1
	}
	w.nextID++
	s.id = w.nextID
	// drop closed sockets now and then
	keep := w.socks[:0]
	for _, o := range w.socks {
		if !o.closed && o.proc.Alive {
			keep = append(keep, o)
		}
	}
	w.socks = append(keep, s)
	return s.lport
}

func ListenUDP(network string, laddr *UDPAddr) (*UDPConn, error) {
	w, p := curWorld()
	if w == nil {
		return nil, errors.New("no virtual network")
	}
	port := 0
	var ip [4]byte
	if laddr != nil {
		port = laddr.Port
		var ok bool
		if ip, ok = to4(laddr.IP); !ok {
			return nil, opErr("listen", network, nil, laddr, sysErr("bind", syscall.EADDRNOTAVAIL))
		}
	}
	if ip != ([4]byte{}) && ip != p.Host.IP && !isLoop(ip) {
		return nil, opErr("listen", network, nil, laddr, sysErr("bind", syscall.EADDRNOTAVAIL))
	}
	x, lp, ok := vs.CallX(func() (any, int, bool) {
		if port != 0 && w.portTaken(p.Host, port) {
			return nil, 0, false
		}
		s := &sock{host: p.Host, proc: p, lport: port}
		return s, w.open(p, s), true
	})
	if !ok {
		return nil, opErr("listen", network, nil, laddr, sysErr("bind", syscall.EADDRINUSE))
	}
	c := &UDPConn{s: x.(*sock), w: w, net: network, v4: network == "udp4" || ip != [4]byte{}}
	c.laddr = UDPAddr{IP: real.IPv6unspecified, Port: lp}
	if ip != ([4]byte{}) {
		c.laddr.IP = exact(ip)
	}
	c.src = Addr4{p.Host.IP, lp}
	c.hookDeath(p)
	return c, nil
}

func (c *UDPConn) hookDeath(p *vs.Proc) {
	s := c.s
	p.OnDeath(func() { s.closed = true })
}

func DialUDP(network string, laddr, raddr *UDPAddr) (*UDPConn, error) {
	w, p := curWorld()
	if w == nil {
		return nil, errors.New("no virtual network")
	}
	if raddr == nil {
		return nil, opErr("dial", network, nil, nil, errors.New("missing address"))
	}
	ip, ok := to4(raddr.IP)
	if !ok {
		return nil, opErr("dial", network, nil, raddr, sysErr("connect", syscall.ENETUNREACH))
	}
	if raddr.Port < 0 || raddr.Port > 65535 {
		return nil, opErr("dial", network, nil, raddr, &real.AddrError{Err: "invalid port", Addr: strconv.Itoa(raddr.Port)})
	}
	local := ip == [4]byte{} || isLoop(ip) || ip == p.Host.IP
	dst := Addr4{ip, raddr.Port}
	if local {
		dst.IP = p.Host.IP
	}
	lport := 0
	if laddr != nil {
		lport = laddr.Port
	}
	h := p.Host
	x, v, ok := vs.CallX(func() (any, int, bool) {
		if w.Addrs == 3 && ip == bridge {
			local = true
			dst.IP = h.IP
		}
		if w.Offline[h] && (!local || ip == h.IP) {
			return nil, 1, false
		}
		if lport != 0 && w.portTaken(h, lport) {
			return nil, 2, false
		}
		s := &sock{host: h, proc: p, lport: lport, connected: true, peer: dst}
		return s, w.open(p, s), true
	})
	if !ok {
		if v == 1 {
			return nil, opErr("dial", network, nil, raddr, sysErr("connect", syscall.ENETUNREACH))
		}
		return nil, opErr("dial", network, nil, raddr, sysErr("bind", syscall.EADDRINUSE))
	}
	c := &UDPConn{s: x.(*sock), w: w, net: network, connected: true, v4: true, dst: dst}
	c.laddr = UDPAddr{IP: exact(h.IP), Port: v}
	if local && ip != h.IP {
		c.laddr.IP = real.IP{127, 0, 0, 1}
	}
	c.raddr = UDPAddr{IP: exact(ip), Port: raddr.Port}
	c.src = Addr4{h.IP, v}
	c.hookDeath(p)
	return c, nil
}

// exact is an address of length and capacity 4.
func exact(ip [4]byte) real.IP { return ip[:] }

func (c *UDPConn) LocalAddr() Addr { a := c.laddr; return &a }
func (c *UDPConn) RemoteAddr() Addr {
	if !c.connected {
		return nil
	}
	a := c.raddr
	return &a
}

func (c *UDPConn) rerr(op string, err error) error {
	var ra Addr
	if c.connected {
		ra = c.RemoteAddr()
	}
	return opErr(op, c.net, c.LocalAddr(), ra, err)
}

// late tells whether the read deadline has passed.
func (s *sock) late(r *vs.Run) bool { return s.rdl < 0 || s.rdl > 0 && r.NowS() >= s.rdl }

func (c *UDPConn) recv(b []byte, call string) (n int, d *dgram, err error) {
	if c == nil {
		return 0, nil, syscall.EINVAL
	}
	s := c.s
	r := vs.R()
	x, code, _ := vs.BlockX("read udp :"+strconv.Itoa(c.laddr.Port), func() bool {
		return s.closed || s.refused || len(s.q) > 0 || s.late(r)
	}, 0, func() (any, int, bool) {
		switch {
		case s.closed:
			return nil, 1, false
		case s.late(r):
			return nil, 3, false
		case s.refused:
			s.refused = false
			return nil, 2, false
		default:
			d := s.q[0]
			s.q = s.q[1:]
			s.held -= truesize(len(d.data))
			return d, 0, true
		}
	})
	vs.IO(func() {})
	switch code {
	case 1:
		return 0, nil, c.rerr("read", real.ErrClosed)
	case 2:
		return 0, nil, c.rerr("read", sysErr(call, syscall.ECONNREFUSED))
	case 3:
		return 0, nil, c.rerr("read", realos.ErrDeadlineExceeded)
	}
	d = x.(*dgram)
	return copy(b, d.data), d, nil
}

func (c *UDPConn) addrOf(d *dgram) *UDPAddr {
	if d.src6 != nil {
		return &UDPAddr{IP: append(real.IP(nil), d.src6.IP...), Port: d.src6.Port, Zone: d.src6.Zone}
	}
	if c.v4 {
		ip := d.src.IP
		return &UDPAddr{IP: ip[:], Port: d.src.Port}
	}
	var ip [16]byte
	copy(ip[:], real.IPv4(d.src.IP[0], d.src.IP[1], d.src.IP[2], d.src.IP[3]))
	return &UDPAddr{IP: ip[:], Port: d.src.Port}
}

func (c *UDPConn) Read(b []byte) (int, error) { n, _, err := c.recv(b, "read"); return n, err }

func (c *UDPConn) ReadFromUDP(b []byte) (int, *UDPAddr, error) {
	n, d, err := c.recv(b, "recvfrom")
	if err != nil {
		return n, nil, err
	}
	return n, c.addrOf(d), nil
}

func (c *UDPConn) ReadFrom(b []byte) (int, Addr, error) {
	n, a, err := c.ReadFromUDP(b)
	if a == nil {
		return n, nil, err
	}
	return n, a, err
}

func (c *UDPConn) ReadFromUDPAddrPort(b []byte) (int, netip.AddrPort, error) {
	n, a, err := c.ReadFromUDP(b)
	if err != nil {
		return n, netip.AddrPort{}, err
	}
	return n, a.AddrPort(), nil
}

func (c *UDPConn) pre(to ...Addr) error {
	if c == nil {
		return syscall.EINVAL
	}
	s := c.s
	_, code, _ := vs.CallX(func() (any, int, bool) {
		switch {
		case s.closed:
			return nil, 1, false
		case s.refused:
			s.refused = false
			return nil, 2, false
		}
		return nil, 0, true
	})
	switch code {
	case 1:
		if len(to) > 0 {
			return opErr("write", c.net, c.LocalAddr(), to[0], real.ErrClosed)
		}
		return c.rerr("write", real.ErrClosed)
	case 2:
		return c.rerr("write", sysErr("write", syscall.ECONNREFUSED))
	}
	return nil
}

func (c *UDPConn) sendTo(b []byte, dst Addr4) (int, error) {
	if len(b) > 65507 {
		if _, _, shut := vs.CallX(func() (any, int, bool) { return nil, 0, c.s.closed }); !shut {
			return 0, c.rerr("write", sysErr("write", syscall.EMSGSIZE))
		}
	}
	if err := c.pre(); err != nil {
		return 0, err
	}
	w, h := c.w, vs.Cur().Proc.Host
	if _, _, off := vs.CallX(func() (any, int, bool) { return nil, 0, w.Offline[h] && dst.IP != h.IP }); off {
		return 0, c.rerr("write", sysErr("write", syscall.ENETUNREACH))
	}
	src := c.src
	if !c.connected {
		src.IP = h.IP // it may have changed
	}
	c.w.send(src, dst, b)
	return len(b), nil
}

func (c *UDPConn) Write(b []byte) (int, error) {
	if c != nil && !c.connected {
		if err := c.pre(); err != nil {
			return 0, err
		}
		return 0, c.rerr("write", sysErr("write", syscall.EDESTADDRREQ))
	}
	return c.sendTo(b, c.dst)
}

func (c *UDPConn) WriteToUDP(b []byte, addr *UDPAddr) (int, error) {
	if c == nil {
		return 0, syscall.EINVAL
	}
	if c.connected {
		return 0, c.rerr("write", real.ErrWriteToConnected)
	}
	if addr == nil {
		return 0, c.rerr("write", errors.New("missing address"))
	}
	if err := c.pre(addr); err != nil {
		return 0, err
	}
	ip, ok := to4(addr.IP)
	if !ok {
		// an IPv6 peer: the datagram leaves and is never heard of again
		return len(b), nil
	}
	if addr.Port == 0 {
		return 0, opErr("write", c.net, c.LocalAddr(), addr, sysErr("sendto", syscall.EINVAL))
	}
	if ip == [4]byte{} || isLoop(ip) {
		ip = vs.Cur().Proc.Host.IP
	}
	return c.sendTo(b, Addr4{ip, addr.Port})
}

func (c *UDPConn) WriteTo(b []byte, addr Addr) (int, error) {
	a, ok := addr.(*UDPAddr)
	if !ok {
		return 0, opErr("write", c.net, c.LocalAddr(), addr, syscall.EINVAL)
	}
	return c.WriteToUDP(b, a)
}

func (c *UDPConn) WriteToUDPAddrPort(b []byte, ap netip.AddrPort) (int, error) {
	return c.WriteToUDP(b, real.UDPAddrFromAddrPort(ap))
}

func (c *UDPConn) Close() error {
	if c == nil {
		return syscall.EINVAL
	}
	s := c.s
	if _, _, ok := vs.CallX(func() (any, int, bool) {
		if s.closed {
			return nil, 0, false
		}
		s.closed = true
		s.q = nil
		if s.expire != nil {
			s.expire.StopTimer()
		}
		return nil, 0, true
	}); !ok {
		return c.rerr("close", real.ErrClosed)
	}
	return nil
}

func (c *UDPConn) SetReadDeadline(t time.Time) error {
	if c == nil {
		return syscall.EINVAL
	}
	at := int64(0)
	if !t.IsZero() {
		at = vtime.Rel(t)
		if at <= 0 {
			at = -1
		}
	}
	s, r := c.s, vs.R()
	if _, _, ok := vs.CallX(func() (any, int, bool) {
		if s.closed {
			return nil, 0, false
		}
		if s.expire != nil {
			s.expire.StopTimer()
			s.expire = nil
		}
		s.rdl = at
		if at > 0 && at <= r.NowS() {
			s.rdl = -1
		}
		if at > r.NowS() {
			s.expire = r.AddTimer(at-r.NowS(), func() {})
		}
		return nil, 0, true
	}); !ok {
		return opErr("set", c.net, nil, c.LocalAddr(), real.ErrClosed)
	}
	return nil
}

func (c *UDPConn) SetWriteDeadline(t time.Time) error { return nil }
func (c *UDPConn) SetDeadline(t time.Time) error      { return c.SetReadDeadline(t) }
func (c *UDPConn) SetReadBuffer(n int) error          { return nil }
func (c *UDPConn) SetWriteBuffer(n int) error         { return nil }

/* generic entry points */

func Dial(network, address string) (Conn, error) {
	if !strings.HasPrefix(network, "udp") {
		return nil, opErr("dial", network, nil, nil, real.UnknownNetworkError(network))
	}
	a, err := ResolveUDPAddr(network, address)
	if err != nil {
		return nil, opErr("dial", network, nil, nil, err)
	}
	c, err := DialUDP(network, nil, a)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func DialTimeout(network, address string, d time.Duration) (Conn, error) {
	return Dial(network, address)
}

func ListenPacket(network, address string) (PacketConn, error) {
	a, err := ResolveUDPAddr(network, address)
	if err != nil {
		return nil, opErr("listen", network, nil, nil, err)
	}
	c, err := ListenUDP(network, a)
	if err != nil {
		return nil, err
	}
	return c, nil
}

/* Unix sockets: only as a rendezvous for the rpc shim */

// UnixListener is a listening Unix socket.
type UnixListener struct {
	Path   string
	Proc   *vs.Proc
	host   *vs.Host
	w      *World
	closed bool // scheduler-owned
	accept any  // scheduler-owned: set by the rpc shim while it accepts
	id     any
}

func ListenUnix(network string, laddr *UnixAddr) (*UnixListener, error) {
	w, p := curWorld()
	if w == nil {
		return nil, errors.New("no virtual network")
	}
	var id any
	if f, ok := p.Host.FS.(*vos.FS); ok {
		if id, ok = f.Bind(laddr.Name); !ok {
			return nil, opErr("listen", network, nil, laddr, sysErr("bind", syscall.EADDRINUSE))
		}
	}
	l := &UnixListener{Path: laddr.Name, Proc: p, host: p.Host, w: w, id: id}
	vs.Call(func() { w.units = append(w.units, l) })
	p.OnDeath(func() { setClosed(l) })
	return l, nil
}

//go:norace
func setClosed(l *UnixListener) { l.closed = true }

func Listen(network, address string) (Listener, error) {
	if network != "unix" {
		return nil, opErr("listen", network, nil, nil, real.UnknownNetworkError(network))
	}
	return ListenUnix(network, &UnixAddr{Name: address, Net: network})
}

func (l *UnixListener) Accept() (Conn, error) {
	vs.Block("accept on "+l.Path, func() bool { return l.isClosed() }, nil)
	return nil, opErr("accept", "unix", nil, l.Addr(), real.ErrClosed)
}

//go:norace
func (l *UnixListener) isFile(id any) bool { return l.id == id }

//go:norace
func (l *UnixListener) isClosed() bool { return l.closed }

//go:norace
func (l *UnixListener) getAccept() any { return l.accept }

// SetAccept is used by the rpc shim.
func (l *UnixListener) SetAccept(x any) { vs.Call(func() { l.setAccept(x) }) }

//go:norace
func (l *UnixListener) setAccept(x any) { l.accept = x }

// IsClosedS is for the rpc shim, on the scheduler.
func (l *UnixListener) IsClosedS() bool { return l.isClosed() }

func (l *UnixListener) Addr() Addr { return &UnixAddr{Name: l.Path, Net: "unix"} }
func (l *UnixListener) Close() error {
	vs.Call(func() { setClosed(l) })
	if f, ok := l.host.FS.(*vos.FS); ok {
		f.Del(l.Path)
	}
	return nil
}
func (l *UnixListener) SetUnlinkOnClose(bool) {}

// Lookup finds who accepts on path for host h: (acceptor, state) with state 0 none, 1 listening but not accepting,
// 2 accepting. id is what was at the path (nil: whatever).
func (w *World) Lookup(h *vs.Host, path string, id any) (*UnixListener, any, int) {
	for i := len(w.units) - 1; i >= 0; i-- {
		l := w.units[i]
		if l.host == h && l.Path == path && !l.isClosed() && (id == nil || l.isFile(id)) {
			if a := l.getAccept(); a != nil {
				return l, a, 2
			}
			return l, nil, 1
		}
	}
	return nil, nil, 0
}

// WorldOf returns the LAN of the running process.
func WorldOf() (*World, *vs.Proc) { return curWorld() }
