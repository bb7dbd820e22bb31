package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	vnet "verif/mc/shim/net"
)

/* the wire format, written independently of the code under test */

type hash = [20]byte

const port = 61696

var blank = func() (k hash) {
	for i := range k {
		k[i] = 0xff
	}
	return
}()

func u16(b []byte) int { return int(binary.BigEndian.Uint16(b)) }
func u32(b []byte) int { return int(binary.BigEndian.Uint32(b)) }

func put16(b []byte, v ...int) []byte {
	for _, x := range v {
		b = append(b, byte(x>>8), byte(x))
	}
	return b
}
func put32(b []byte, v int) []byte { return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }

func discoverReq(id int, k hash, chunks ...int) []byte {
	b := append(put16([]byte{0}, id), k[:]...)
	return put16(append(b, byte(len(chunks))), chunks...)
}

func discoverResp(id int, ip [4]byte, p int, chunks ...int) []byte {
	b := append(put16([]byte{1}, id), ip[:]...)
	return put16(append(put16(b, p), byte(len(chunks))), chunks...)
}

func listReq(id int, k hash) []byte { return append(put16([]byte{2}, id), k[:]...) }

type entry struct {
	size, n, cs, have int
	k                 hash
	name              string
}

func (e entry) String() string {
	return fmt.Sprintf("{%q size %d chunks %d of %d bytes, %d here, %x}", e.name, e.size, e.n, e.cs, e.have, e.k[:3])
}

func listResp(id int, es ...entry) []byte {
	b := put16([]byte{3}, id, len(es))
	for _, e := range es {
		b = binary.BigEndian.AppendUint64(b, uint64(e.size))
		b = put32(put32(put32(b, e.n), e.cs), e.have)
		b = append(b, e.k[:]...)
		b = append(append(b, byte(len(e.name))), e.name...)
	}
	return b
}

func openReq(k hash, chunk, window int) []byte {
	b := append([]byte{4}, k[:]...)
	return append(put16(b, chunk, window), make([]byte, 7)...)
}

func dataPkt(off int, data []byte) []byte { return append(put32([]byte{5}, off), data...) }

func headerPkt(k hash, size int, data []byte) []byte {
	return dataPkt(0, append(put32(append([]byte{}, k[:]...), size), data...))
}

func ackPkt(off int) []byte { return put32([]byte{6}, off) }

type dresp struct {
	id     int
	ip     [4]byte
	port   int
	chunks []int
}

func parseDiscoverResp(b []byte) (r dresp, ok bool) {
	if len(b) < 10 || b[0] != 1 || len(b) != 10+2*int(b[9]) {
		return r, false
	}
	r.id, r.port = u16(b[1:]), u16(b[7:])
	copy(r.ip[:], b[3:7])
	for i := 0; i < int(b[9]); i++ {
		r.chunks = append(r.chunks, u16(b[10+2*i:]))
	}
	return r, true
}

func parseListResp(b []byte) (id int, es []entry, ok bool) {
	if len(b) < 5 || b[0] != 3 {
		return
	}
	id = u16(b[1:])
	n := u16(b[3:])
	b = b[5:]
	for i := 0; i < n; i++ {
		if len(b) < 41 || len(b) < 41+int(b[40]) {
			return
		}
		e := entry{size: int(binary.BigEndian.Uint64(b)), n: u32(b[8:]), cs: u32(b[12:]), have: u32(b[16:])}
		copy(e.k[:], b[20:40])
		e.name = string(b[41 : 41+int(b[40])])
		b = b[41+int(b[40]):]
		es = append(es, e)
	}
	return id, es, len(b) == 0
}

// to selects the datagrams sent to addr since index from.
func to(w *vnet.World, from int, addr vnet.Addr4) (out []vnet.Rec) {
	for _, r := range w.Since(from) {
		if r.Dst == addr && r.Fate != "injected" {
			out = append(out, r)
		}
	}
	return
}

// isHeader reports whether a data packet is the first of a chunk.
func isHeader(d []byte) bool { return len(d) > 5 && bytes.Equal(d[1:5], make([]byte, 4)) }
