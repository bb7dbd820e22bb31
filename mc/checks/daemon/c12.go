package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"time"

	"verif/mc/explore"
	"verif/mc/h"
	vnet "verif/mc/shim/net"
	"verif/mc/vs"
)

func init() {
	explore.Register(&explore.Property{ID: "C12", Scenarios: c12})
}

// stream is what one endpoint has received of one upload.
type stream struct {
	size   int
	k      hash
	header bool
	ended  bool
	n      int // packets, including the header and the end
	got    []piece
	data   []byte
	what   string
}

type piece struct{ off, n int }

// take adds a packet; full checks of the tiling are made at the end.
func (s *stream) take(b []byte) {
	h.Must(len(b) >= 5 && b[0] == 5, "%s: the upload sent % x", s.what, b)
	off, d := u32(b[1:]), b[5:]
	s.n++
	h.Must(!s.ended, "%s: a packet with offset %d and %d bytes after the end", s.what, off, len(d))
	if !s.header {
		h.Must(off == 0 && len(d) >= 24, "%s: the first packet has offset %d and %d bytes", s.what, off, len(d))
		h.Must(bytes.Equal(d[:20], s.k[:]), "%s: the header names hash %x, not %x", s.what, d[:20], s.k)
		h.Must(u32(d[20:]) == len(s.data), "%s: the header names length %d, not %d", s.what, u32(d[20:]), len(s.data))
		s.header = true
		d = d[24:]
		h.Must(len(d) > 0, "%s: the header carries no data", s.what)
	} else {
		h.Must(off > 0, "%s: a second header", s.what)
	}
	h.Must(off+len(d) <= len(s.data) && bytes.Equal(d, s.data[off:off+len(d)]), "%s: wrong bytes at offset %d (%d bytes)", s.what, off, len(d))
	if len(d) == 0 {
		h.Must(off == len(s.data), "%s: the empty packet has offset %d, not %d", s.what, off, len(s.data))
		s.ended = true
		s.tile()
	} else {
		s.got = append(s.got, piece{off, len(d)})
	}
}

// tile checks that the packets cover the chunk exactly once.
func (s *stream) tile() {
	l := append([]piece{}, s.got...)
	sort.Slice(l, func(i, j int) bool { return l[i].off < l[j].off })
	at := 0
	for _, p := range l {
		h.Must(p.off == at, "%s: the packets %v do not tile the chunk of %d bytes: gap or overlap at %d", s.what, l, len(s.data), at)
		at += p.n
	}
	h.Must(at == len(s.data), "%s: the packets %v end at %d of %d bytes", s.what, l, at, len(s.data))
}

func newStream(what string, data []byte) *stream {
	return &stream{what: what, data: data, k: sum(data)}
}

func c12(tier string) []explore.Scenario {
	deep := tier == "thorough"
	lens := []int{1, 999, 1000, 1001, 2023, 2024, 2025, 3500, 8200}
	wins := []int{1, 2, 3, 1024}
	var out []explore.Scenario
	acks := func() {
		n := lens[vs.Choose(vs.Free, len(lens), "chunk length")]
		layout := vs.Choose(vs.Free, 3, "chunk position") // first of two, last of two, only one
		win := wins[vs.Choose(vs.Free, len(wins), "window")]
		l := newLan(1)
		a := l.nodes[0]
		var f file
		chunk := 0
		switch layout {
		case 0:
			f = mkfile("f", 1, n+1, n)
		case 1:
			f = mkfile("f", 1, n+3+n, n+3)
			chunk = 1
		case 2:
			f = mkfile("f", 1, n, n)
		}
		a.give(f, nil)
		a.boot()
		s := newStream(fmt.Sprintf("%d-byte chunk, window %d", n, win), f.chunk(chunk))
		ph := phantom(0, 5000)
		at := l.mark()
		a.inject(ph, openReq(f.k, chunk, win))
		acked := 0
		look := func() {
			vs.Settle()
			a.mustLive("%s", s.what)
			for _, r := range to(l.w, at, ph) {
				s.take(r.Data)
				if !s.ended {
					h.Must(s.n <= acked+win, "%s: %d packets sent after %d acknowledgements", s.what, s.n, acked)
				}
			}
			at = l.mark()
		}
		look()
		h.Must(s.n == 1, "%s: %d packets without any acknowledgement", s.what, s.n)
		for step := 0; !s.ended; step++ {
			h.Must(step < 40, "%s: the upload does not reach its end", s.what)
			if step < 3 {
				// silence causes no packets
				if vs.Choose(vs.Free, 2, "silence") == 1 {
					was := s.n
					vs.Sleep(3 * time.Second)
					look()
					h.Must(s.n == was, "%s: %d packets sent without an acknowledgement", s.what, s.n-was)
				}
			}
			open := s.n - acked
			k := open
			if step < 4 {
				k = open - vs.Choose(vs.Free, open, "acknowledgements")
			}
			extra := 0
			if step < 2 {
				extra = vs.Choose(vs.Free, 3, "duplicate acknowledgements")
			}
			old := -1 // what the duplicates are duplicates of: the packets acknowledged now, or another
			if extra > 0 && (deep || step == 1) {
				kinds := 2
				if deep {
					kinds = 5
				}
				old = []int{-1, 0, 7, len(f.data), 1<<32 - 1}[vs.Choose(vs.Free, kinds, "what is acknowledged twice")]
			}
			was := s.n
			back := step < 2 && vs.Choose(vs.Free, 2, "acknowledged in reverse") == 1
			for i := 0; i < k+extra; i++ {
				o := i % k
				if back {
					o = k - 1 - o
				}
				off := 0
				if j := acked + o; j < len(s.got) {
					off = s.got[j].off
				}
				if i >= k && old >= 0 {
					off = old
				}
				a.inject(ph, ackPkt(off))
			}
			acked += k + extra
			look()
			if k == open {
				h.Must(s.ended || s.n > was, "%s: everything is acknowledged but nothing more is sent", s.what)
			}
			if acked > s.n {
				acked = s.n // surplus acknowledgements do not widen the window for good
			}
		}
		// nothing follows the end, whatever is acknowledged
		for i := 0; i < 3; i++ {
			a.inject(ph, ackPkt(len(f.data)))
		}
		look()
		vs.Sleep(15 * time.Second)
		look()
		a.mustList(s.what)
		vs.Observe("%s %d", s.what, s.n)
	}
	out = append(out, explore.Scenario{Name: "acks", Cfg: vs.Config{Serial: true, MaxSteps: 200000}, B: explore.Bounds{Total: -1}, Body: acks,
		Doc: "chunk lengths around packet-size multiples at three positions in a file, windows 1, 2, 3 and 1024; every number of acknowledgements (including up to two duplicates of these or older packets, or for packets never sent, in either order, and pauses) in the first steps, then all at once"})

	big := func() {
		l := newLan(1)
		a := l.nodes[0]
		n := []int{4194304, 70000, 65535, 65536, 1<<24 + 3000}[vs.Choose(vs.Free, 5, "chunk length")]
		win := []int{65535, 1}[vs.Choose(vs.Free, 2, "window")]
		f := mkfile("f.bin", 5, n, n)
		a.give(f, nil)
		a.boot()
		s := newStream(fmt.Sprintf("%d-byte chunk, window %d", n, win), f.data)
		ph := phantom(0, 5000)
		at := l.mark()
		a.inject(ph, openReq(f.k, 0, win))
		acked := 0
		for i := 0; !s.ended; i++ {
			h.Must(i < 200000, "%s: the upload does not reach its end", s.what)
			vs.Settle()
			got := to(l.w, at, ph)
			at = l.mark()
			h.Must(len(got) > 0, "%s: the upload stops after %d packets; goroutines:\n%s", s.what, s.n, strings.Join(a.p.Goroutines(), "\n"))
			for i, r := range got {
				s.take(r.Data)
				h.Must(s.ended || s.n <= acked+win, "%s: %d packets sent after %d acknowledgements", s.what, s.n, acked)
				a.inject(ph, ackPkt(u32(r.Data[1:])))
				if i%100 == 99 {
					vs.Settle() // its socket does not hold more
				}
			}
			acked += len(got)
		}
		vs.Settle()
		a.mustList(s.what)
		vs.Observe("%s %d", s.what, s.n)
	}
	out = append(out, explore.Scenario{Name: "large chunks", Cfg: vs.Config{Serial: true, MaxSteps: 30000000}, B: explore.Bounds{Total: -1}, Body: big,
		Doc: "chunks of 65535, 65536, 70000, 4194304 (what share makes) and 16780216 bytes, windows 1 and 65535, everything acknowledged as it comes"})

	pre := 1
	if tier == "thorough" {
		pre = 2
	}
	sched := func() {
		vs.Serialize(true)
		win := 1 + vs.Choose(vs.Free, 2, "window")
		l := newLan(1)
		a := l.nodes[0]
		f := mkfile("f", 1, 3100, 3100)
		a.give(f, nil)
		a.boot()
		s := newStream(fmt.Sprintf("window %d, concurrent acknowledgements", win), f.data)
		ph := phantom(0, 5000)
		at := l.mark()
		vs.Serialize(false)
		a.inject(ph, openReq(f.k, 0, win))
		sent := 1 + vs.Choose(vs.Free, 3, "acknowledgements sent at once")
		early := vs.Choose(vs.Free, 2, "acknowledgements before the header") == 1
		if !early {
			vs.Settle()
		}
		for i := 0; i < sent; i++ {
			a.inject(ph, ackPkt(0))
		}
		vs.Settle()
		vs.Serialize(true)
		for _, r := range to(l.w, at, ph) {
			s.take(r.Data)
			h.Must(s.ended || s.n <= sent+win, "%s: %d packets sent after %d acknowledgements", s.what, s.n, sent)
		}
		at = l.mark()
		h.Must(s.header, "%s: no header", s.what)
		for i := 0; i < 12 && !s.ended; i++ {
			a.inject(ph, ackPkt(0))
			vs.Settle()
			for _, r := range to(l.w, at, ph) {
				s.take(r.Data)
			}
			at = l.mark()
		}
		a.mustLive("%s", s.what)
		h.Must(s.ended, "%s: the upload does not reach its end; goroutines:\n%s", s.what, strings.Join(a.p.Goroutines(), "\n"))
		a.mustList(s.what)
		vs.Observe("%d", s.n)
	}
	out = append(out, explore.Scenario{Name: "schedules", Cfg: vs.Config{NetPoints: true, MaxSteps: 100000}, B: explore.Bounds{Sched: pre, Switch: 2, Total: pre + 1}, Body: sched,
		Doc: fmt.Sprintf("a request and one to three acknowledgements handled concurrently, windows 1 and 2, every schedule with up to %d preemptions", pre)})
	return out
}

var _ = vnet.Addr4{}
