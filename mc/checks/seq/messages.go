package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/flu-network/client/common"
	"github.com/flu-network/client/flu/messages"

	"verif/mc/explore"
	"verif/mc/h"
	"verif/mc/vs"
)

func init() {
	explore.Register(&explore.Property{ID: "C04", Scenarios: c04})
	explore.Register(&explore.Property{ID: "C05", Scenarios: c05})
}

func hashes() []common.Sha1Hash {
	var a, b, c common.Sha1Hash
	for i := range b.Data {
		b.Data[i] = byte(i*13 + 1)
		c.Data[i] = 255
	}
	return []common.Sha1Hash{b, a, c}
}

var ids = []uint16{0, 1, 255, 256, 0x1234, 0x7fff, 0x8000, 65535}
var counts16 = []int{0, 1, 2, 3, 4, 127, 128, 129, 253, 254, 255}

func chunkList(n, kind int) []uint16 {
	out := make([]uint16, n)
	for i := range out {
		switch kind {
		case 0:
			out[i] = uint16(i)
		case 1:
			out[i] = 65535 - uint16(i)
		case 2:
			out[i] = uint16(i*257 + 1)
		}
	}
	return out
}

var fileNames = []string{"", "a", "a.txt", strings.Repeat("n", 254), strings.Repeat("n", 255), "päth ß", "\x00\xff\x80", "x/y", "\x00", "tail\x00\x00", " both ", "line\n", "%s%d", "A\tb\\\"'"}

func entries() []messages.ListFilesEntry {
	hs := hashes()
	var out []messages.ListFilesEntry
	u64 := []uint64{0, 1, 255, 1 << 32, math.MaxInt64, math.MaxUint64}
	u32 := []uint32{0, 1, 256, 1 << 16, 1 << 22, math.MaxUint32}
	for i, n := range fileNames {
		for j := 0; j < 6; j++ {
			hh := hs[(i+j)%3]
			out = append(out, messages.ListFilesEntry{SizeInBytes: u64[j], ChunkCount: u32[(j+i)%6], ChunkSizeInBytes: u32[(j+2*i+1)%6], ChunksDownloaded: u32[(j+3*i+2)%6], Sha1Hash: &hh, FileName: n})
		}
	}
	return out
}

type sample struct {
	name string
	m    messages.Message
}

// corpus lists messages of the six decodable kinds with boundary values.
func corpus(full bool) (out []sample) {
	add := func(m messages.Message, format string, a ...any) {
		out = append(out, sample{fmt.Sprintf("%T ", m) + fmt.Sprintf(format, a...), m})
	}
	idl, hl, cl := ids, hashes(), counts16
	if !full {
		idl, hl, cl = []uint16{0, 0x1234, 65535}, hl[:2], []int{0, 1, 2, 255}
	}
	for _, id := range idl {
		for hi := range hl {
			hh := hl[hi]
			add(&messages.ListFilesRequest{RequestID: id, Sha1Hash: &hh}, "id %d hash %d", id, hi)
			for _, n := range cl {
				for k := 0; k < 3; k++ {
					if n == 0 && k > 0 || n > 4 && !full && k > 0 {
						continue
					}
					add(&messages.DiscoverHostRequest{RequestID: id, Sha1Hash: hh, Chunks: chunkList(n, k)}, "id %d hash %d %d chunks kind %d", id, hi, n, k)
				}
			}
			for _, ch := range idl {
				for _, w := range idl {
					hh := hl[hi]
					add(&messages.OpenConnectionRequest{Sha1Hash: &hh, Chunk: ch, WindowCap: w}, "hash %d chunk %d window %d", hi, ch, w)
				}
			}
		}
		for ai, a := range [][4]byte{{10, 0, 0, 1}, {0, 0, 0, 0}, {255, 254, 253, 252}} {
			for _, port := range idl {
				for _, n := range cl {
					for k := 0; k < 3; k++ {
						if n == 0 && k > 0 || n > 4 && k != int(port)%3 {
							continue
						}
						add(&messages.DiscoverHostResponse{RequestID: id, Address: a, Port: port, Chunks: chunkList(n, k)}, "id %d addr %d port %d %d chunks kind %d", id, ai, port, n, k)
					}
				}
			}
		}
		es := entries()
		add(&messages.ListFilesResponse{RequestID: id, Files: []messages.ListFilesEntry{}}, "id %d no files", id)
		for i := range es {
			add(&messages.ListFilesResponse{RequestID: id, Files: es[i : i+1]}, "id %d entry %d", id, i)
			add(&messages.ListFilesResponse{RequestID: id, Files: []messages.ListFilesEntry{es[i], es[(i+7)%len(es)]}}, "id %d entries %d and another", id, i)
			if !full && i > 2 {
				break
			}
		}
		if full {
			add(&messages.ListFilesResponse{RequestID: id, Files: es}, "id %d all entries", id)
		}
	}
	if full {
		var many []messages.ListFilesEntry
		all := entries()
		for i := 0; i < 300; i++ {
			many = append(many, all[i%len(all)])
		}
		add(&messages.ListFilesResponse{RequestID: 7, Files: many}, "300 entries")
	}
	for _, o := range []uint32{0, 1, 255, 256, 1000, 65535, 65536, 1 << 24, math.MaxInt32, math.MaxUint32} {
		add(&messages.DataPacketAck{Offset: o}, "offset %d", o)
	}
	return
}

func parse(d []byte) (m messages.Message, err error, crash string) {
	crash = h.Panics(func() { m, err = messages.Parse(d) })
	return
}

// norm makes nil and empty lists equal.
func norm(m messages.Message) messages.Message {
	switch x := m.(type) {
	case *messages.DiscoverHostRequest:
		y := *x
		y.Chunks = append([]uint16{}, x.Chunks...)
		return &y
	case *messages.DiscoverHostResponse:
		y := *x
		y.Chunks = append([]uint16{}, x.Chunks...)
		return &y
	case *messages.ListFilesResponse:
		y := *x
		y.Files = append([]messages.ListFilesEntry{}, x.Files...)
		return &y
	}
	return m
}

func c04(tier string) []explore.Scenario {
	shards := 16
	round := func() {
		sh := vs.Choose(vs.Free, shards, "shard")
		n := 0
		c := corpus(true)
		type kept struct {
			s     sample
			m     messages.Message
			d, d0 []byte
		}
		var last []kept // what has been decoded and encoded before stays as it is
		for i := sh; i < len(c); i += shards {
			s := c[i]
			var d []byte
			h.Safe(func() { d = s.m.Serialize() }, "encoding %s", s.name)
			for _, k := range last {
				h.Must(reflect.DeepEqual(norm(k.m), norm(k.s.m)), "%s, decoded earlier, reads %+v after %s", k.s.name, k.m, s.name)
				h.Must(string(k.d) == string(k.d0), "the encoding of %s changes when %s is encoded", k.s.name, s.name)
			}
			h.Must(len(d) > 0 && d[0] == s.m.Type(), "%s: the encoding does not start with the type", s.name)
			pads := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 64, 255, 256, 1024}
			if tier == "thorough" {
				pads = append(pads, 4096, 65000)
			}
			for _, pad := range pads {
				buf := append([]byte{}, d...)
				if pad == 1024 && len(buf) < 1024 {
					buf = append(buf, make([]byte, 1024-len(buf))...)
				} else {
					buf = append(buf, make([]byte, pad)...)
				}
				m, err, crash := parse(buf)
				h.Must(crash == "", "decoding %s (padding %d) crashed: %s", s.name, pad, crash)
				h.Must(err == nil && m != nil, "%s (padding %d) is rejected: %v", s.name, pad, err)
				h.Must(m.Type() == s.m.Type() && reflect.DeepEqual(norm(m), norm(s.m)), "%s (padding %d) comes back as %+v, not %+v", s.name, pad, m, s.m)
				// the message owns its memory
				for k := range buf {
					buf[k] = 0xAA
				}
				h.Must(reflect.DeepEqual(norm(m), norm(s.m)), "%s (padding %d) aliases the receive buffer", s.name, pad)
				n++
				if pad == 0 {
					last = append(last, kept{s, m, d, append([]byte{}, d...)})
					if len(last) > 4 {
						last = last[1:]
					}
				}
			}
		}
		vs.Count("messages", n)
	}
	data := func() {
		n := 0
		offs := []uint32{0, 1, 255, 1000, 1024, 65536, math.MaxInt32, math.MaxUint32}
		off := offs[vs.Choose(vs.Free, len(offs), "offset")]
		var lens []int
		for i := 0; i <= 1030; i++ {
			lens = append(lens, i)
		}
		if tier == "thorough" {
			lens = append(lens, 4096, 65000)
		}
		for _, l := range lens {
			for k := 0; k < 3; k++ {
				p := messages.DataPacket{Offset: off, Data: h.Pattern(l*3+k, l)}
				d := p.Serialize()
				var q *messages.DataPacket
				h.Safe(func() { q = messages.ParseAsDataPacket(d) }, "decoding a data packet of %d bytes", l)
				h.Must(q != nil && q.Offset == off && string(q.Data) == string(p.Data), "data packet at %d of %d bytes does not round-trip", off, l)
				h.Must(d[0] == p.Type(), "data packet type byte")
				n++
				if l < 24 {
					continue
				}
				var size uint32
				for si, s := range []uint32{0, 1, uint32(l), 1 << 22, math.MaxUint32} {
					hh := hashes()[(si+k)%3]
					copy(p.Data, hh.Slice())
					binary.BigEndian.PutUint32(p.Data[20:24], s)
					q := messages.ParseAsDataPacket(p.Serialize())
					var got *common.Sha1Hash
					var rest []byte
					h.Safe(func() { got, size, rest = q.Split() }, "splitting a header packet of %d bytes", l)
					h.Must(got != nil && got.Data == hh.Data && size == s && string(rest) == string(p.Data[24:]), "the header of a %d-byte packet does not round-trip: %v %d", l, got, size)
					n++
				}
			}
		}
		vs.Count("data packets", n)
	}
	cut := func() {
		n := 0
		kind := vs.Choose(vs.Free, 3, "chunk kind")
		for _, l := range []int{256, 257, 258, 300, 510, 511, 512, 513, 514, 767, 768, 769, 1024, 4096, 65536} {
			cs := chunkList(l, kind)
			for _, m := range []messages.Message{&messages.DiscoverHostRequest{RequestID: 9, Chunks: cs}, &messages.DiscoverHostResponse{RequestID: 9, Port: 5, Chunks: cs}} {
				var d []byte
				h.Safe(func() { d = m.Serialize() }, "encoding %d chunk values", l)
				back, err, crash := parse(d)
				h.Must(crash == "" && err == nil, "%T with %d chunk values does not decode: %v %s", m, l, err, crash)
				var got []uint16
				switch b := back.(type) {
				case *messages.DiscoverHostRequest:
					got = b.Chunks
					h.Must(b.RequestID == 9, "request id lost")
				case *messages.DiscoverHostResponse:
					got = b.Chunks
					h.Must(b.RequestID == 9 && b.Port == 5, "request id or port lost")
				}
				h.Must(len(got) >= 254 && len(got)%2 == 0 && reflect.DeepEqual(got, cs[:len(got)]), "%T with %d chunk values comes back with %d values, which is not a full-capacity prefix of whole ranges", m, l, len(got))
				n++
			}
		}
		for _, l := range []int{256, 257, 300, 511, 512, 513, 65536} {
			name := strings.Repeat("0123456789abcdef", 5000)[:l]
			hh := hashes()[0]
			e := messages.ListFilesEntry{SizeInBytes: 3, ChunkCount: 1, Sha1Hash: &hh, FileName: name}
			e2 := messages.ListFilesEntry{SizeInBytes: 4, ChunkCount: 2, Sha1Hash: &hh, FileName: "next"}
			m := &messages.ListFilesResponse{RequestID: 3, Files: []messages.ListFilesEntry{e, e2}}
			back, err, crash := parse(m.Serialize())
			h.Must(crash == "" && err == nil, "a listing with a %d-byte name does not decode: %v %s", l, err, crash)
			b, ok := back.(*messages.ListFilesResponse)
			h.Must(ok && len(b.Files) == 2 && b.Files[0].FileName == name[:255] && b.Files[0].SizeInBytes == 3 && b.Files[1].FileName == "next" && b.Files[1].SizeInBytes == 4, "a listing with a %d-byte name comes back wrong: %+v", l, back)
			n++
		}
		vs.Count("oversize values", n)
	}
	return []explore.Scenario{
		{Name: "roundtrip", Doc: "cross product of boundary values of every field of the six decodable kinds, each with several zero paddings", B: freeB, Body: round},
		{Name: "data packets", Doc: "data packets and header packets of boundary offsets, lengths and sizes", B: freeB, Body: data},
		{Name: "oversize", Doc: "more chunk values than the count byte can say, and names over 255 bytes", B: freeB, Body: cut},
	}
}

// need is the length an encoding must have according to its own type and counts; -1 for unknown types.
func need(d []byte) int {
	if len(d) == 0 {
		return 1
	}
	list := func(at int) int {
		if len(d) <= at {
			return at + 1
		}
		return at + 1 + 2*int(d[at])
	}
	switch d[0] {
	case 0:
		return list(23)
	case 1:
		return list(9)
	case 2:
		return 23
	case 3:
		if len(d) < 5 {
			return 5
		}
		n, pos := int(binary.BigEndian.Uint16(d[3:5])), 5
		for i := 0; i < n; i++ {
			if len(d) <= pos+40 {
				return pos + 41
			}
			pos += 41 + int(d[pos+40])
		}
		return pos
	case 4:
		return 25
	case 6:
		return 5
	}
	return -1
}

func total(d []byte, what string) {
	m, err, crash := parse(d)
	h.Must(crash == "", "decoding %s crashed: %s\ninput %s", what, crash, hexCut(d))
	n := need(d)
	if n < 0 || len(d) < n {
		h.Must(err != nil && isNil(m), "%s is accepted (%d bytes of %d): %+v\ninput %s", what, len(d), n, m, hexCut(d))
	} else {
		h.Must(err == nil && !isNil(m), "%s is complete but rejected: %v\ninput %s", what, err, hexCut(d))
	}
	var p *messages.DataPacket
	h.Safe(func() {
		p = messages.ParseAsDataPacket(d)
		if p != nil {
			p.Split()
		}
	}, "decoding %s as a data packet\ninput %s\n", what, hexCut(d))
	if len(d) < 5 {
		h.Must(p == nil, "a data packet of %d bytes is accepted", len(d))
	}
}

func isNil(m messages.Message) bool {
	return m == nil || reflect.ValueOf(m).Kind() == reflect.Ptr && reflect.ValueOf(m).IsNil()
}

func hexCut(d []byte) string {
	if len(d) > 80 {
		return fmt.Sprintf("%x... (%d bytes)", d[:80], len(d))
	}
	return fmt.Sprintf("%x", d)
}

func c05(tier string) []explore.Scenario {
	shards := 24
	mutate := func() {
		sh := vs.Choose(vs.Free, shards, "shard")
		n := 0
		c := corpus(true)
		c = append(c, sample{"data packet", &messages.DataPacket{Offset: 0, Data: h.Pattern(1, 60)}}, sample{"data packet", &messages.DataPacket{Offset: 77, Data: h.Pattern(2, 10)}})
		for i := sh; i < len(c); i += shards {
			s := c[i]
			d := s.m.Serialize()
			step := 1
			for l := 0; l <= len(d); l += step {
				// exact capacity, and a receive buffer with stale bytes behind the end
				p := make([]byte, l)
				copy(p, d)
				total(p, fmt.Sprintf("the first %d bytes of %s", l, s.name))
				total(append([]byte{}, d...)[:l], fmt.Sprintf("the first %d bytes of %s in a larger buffer", l, s.name))
				n += 2
				if l > 600 && tier != "thorough" {
					step = 37
				}
			}
			for t := 0; t < 256; t++ {
				x := append([]byte{}, d...)
				x[0] = byte(t)
				total(x, fmt.Sprintf("%s with type %d", s.name, t))
				n++
			}
			var countAt []int
			switch s.m.(type) {
			case *messages.DiscoverHostRequest:
				countAt = []int{23}
			case *messages.DiscoverHostResponse:
				countAt = []int{9}
			case *messages.ListFilesResponse:
				countAt = []int{3, 4, 45}
			}
			for _, at := range countAt {
				if at >= len(d) {
					continue
				}
				for v := 0; v < 256; v++ {
					x := append([]byte{}, d...)
					x[at] = byte(v)
					total(x, fmt.Sprintf("%s with byte %d set to %d", s.name, at, v))
					n++
				}
			}
			vs.Count("byte strings", 0)
		}
		vs.Count("byte strings", n)
	}
	small := func() {
		al := []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 0x7f, 0x80, 0xff}
		if tier == "thorough" {
			al = nil
			for i := 0; i < 256; i++ {
				al = append(al, byte(i))
			}
		}
		a := al[vs.Choose(vs.Free, len(al), "first byte")]
		n := 0
		total(nil, "no bytes")
		total([]byte{}, "no bytes")
		total([]byte{a}, "one byte")
		for _, b := range al {
			total([]byte{a, b}, "two bytes")
			if tier == "thorough" {
				n++
				if b%16 != 0 && b < 240 {
					continue
				}
			}
			for _, c := range al {
				total([]byte{a, b, c}, "three bytes")
				n++
			}
		}
		vs.Count("byte strings", n)
	}
	return []explore.Scenario{
		{Name: "mutations", Doc: "every prefix (in an exact and in a larger buffer), all 256 type bytes and all 256 values of every count byte, over a corpus of all kinds with boundary values; oracle: independent length computation", B: freeB, Body: mutate},
		{Name: "short", Doc: "all strings of up to three bytes over a boundary alphabet", B: freeB, Body: small},
	}
}
