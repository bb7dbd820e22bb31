package main

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"io"

	"github.com/flu-network/client/common"

	"verif/mc/explore"
	"verif/mc/h"
	"verif/mc/vs"
)

func init() {
	explore.Register(&explore.Property{ID: "C11", Scenarios: c11})
}

func pick[T any](label string, l []T) T { return l[vs.Choose(vs.Free, len(l), label)] }

func c11(tier string) []explore.Scenario {
	cfg := vs.Config{MaxSteps: 100000000, NoPoints: true, Serial: true}
	big := tier == "thorough"
	maxChunks, reads := 4, 5
	if big {
		maxChunks, reads = 5, 7
	}
	return []explore.Scenario{
		{Name: "store-orders", Cfg: cfg, B: none, Doc: fmt.Sprintf("files of up to %d chunks of 1, 3 and 4 bytes, every size around every multiple; content all different, all zero, ending in zeros or the same in every chunk; chunks stored in every order, with a restart before any of them or a refused store (wrong length, index beyond the end, unknown file) before any of them; after every store every chunk is read back or refused and the finished file is compared with the source", maxChunks), Body: func() { storeOrders(maxChunks) }},
		{Name: "readers", Cfg: cfg, B: none, Doc: fmt.Sprintf("every sequence of up to %d reads of 0, 1, 2, 3, 4, 5 or 100 bytes and rewinds on the readers of each chunk of a complete and a partial file: bytes, offsets, length, hash and end of file", reads), Body: func() { readers(reads) }},
		{Name: "two-readers", Cfg: cfg, B: none, Doc: "two readers of one or two chunks and stores of other chunks, interleaved in every order: no reader is disturbed", Body: twoReaders},
		{Name: "shared-files", Cfg: cfg, B: none, Doc: "shared files of sizes around 0, 1 and 2 times the chunk size: every chunk is readable exactly, none beyond the end", Body: func() { sharedFiles(big) }},
		{Name: "far-chunks", Cfg: cfg, B: none, Doc: "a download of 65536 chunks of 128 KiB: chunks around the first, 2 GiB, 4 GiB and the last position stored in ascending, descending and mixed order; after each, every one is read back or refused", Body: farChunks},
		{Name: "many-chunks", Cfg: cfg, B: none, Doc: "a download of 65536 one-byte chunks (and of 65535): first, last and word-boundary chunks stored in both orders", Body: manyChunks},
	}
}

// readAll reads a chunk with one buffer size and checks everything about it.
func readAll(cr *common.ChunkReader, want []byte, buf int, when string) {
	h.Must(cr.Size == int64(len(want)), "%s: the reader says %d bytes, want %d", when, cr.Size, len(want))
	h.Must(cr.Hash.Data == sha1.Sum(want), "%s: the reader has the wrong hash", when)
	var out []byte
	b := make([]byte, buf)
	for i := 0; ; i++ {
		n, off, err := cr.Read(b)
		h.Must(n >= 0 && n <= buf && int(off) == len(out), "%s: read %d bytes at %d, expected offset %d", when, n, off, len(out))
		out = append(out, b[:n]...)
		if err == io.EOF {
			break
		}
		h.Must(err == nil, "%s: reading failed: %v", when, err)
		h.Must(i <= len(want)+2, "%s: reading does not end", when)
	}
	h.Must(bytes.Equal(out, want), "%s: read %x, want %x", when, out, want)
}

func storeOrders(maxChunks int) {
	cs := pick("chunk size", []int{1, 3, 4})
	n := 1 + vs.Choose(vs.Free, maxChunks, "chunks")
	size := (n-1)*cs + 1 + vs.Choose(vs.Free, cs, "last chunk")
	bytes := h.Pattern(size*7+cs, size)
	kind := vs.Choose(vs.Free, 4, "content")
	for i := range bytes {
		switch {
		case kind == 1, kind == 2 && i/cs == n-1:
			bytes[i] = 0
		case kind == 3:
			bytes[i] = byte(255 - i%cs)
		}
	}
	data := string(bytes)
	r := remote{"f", data, cs}
	k := sum(data)
	w := newWorld()
	w.check("", opShare("/data/a"))
	w.check("", opRegister("f", r, k))
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	var have uint64
	when := fmt.Sprintf("%d bytes (%s) in chunks of %d", size, []string{"all different", "all zero", "ending in zeros", "chunks all alike"}[kind], cs)
	disturbed := false
	look := func() {
		w.safe(when, func() {
			for i := 0; i < n+2; i++ {
				cr, err := w.c.GetChunkReader(hp(k), int64(i))
				if have>>uint(i)&1 == 0 {
					h.Must(err != nil, "%s: chunk %d is readable although it was not stored", when, i)
					continue
				}
				h.Must(err == nil, "%s: chunk %d cannot be read: %v", when, i, err)
				readAll(cr, []byte(data[i*cs:min(i*cs+cs, size)]), 2, fmt.Sprintf("%s: chunk %d", when, i))
			}
			h.Must(w.c.FileComplete(hp(k)) == (have == 1<<uint(n)-1), "%s: complete = %v", when, w.c.FileComplete(hp(k)))
		})
		w.check(when, opMissing("f", k))
		w.check(when, opRead("a", hA, 0))
	}
	look()
	for len(left) > 0 {
		if !disturbed {
			last := len(data) - (n-1)*cs
			wrong := []func(){
				func() {},
				func() { w.restart(false); when += ", restart" },
				func() { w.restart(true); when += ", moved restart" },
				func() { w.check(when, opSaveWrong("f", k, left[0], cs+1)) },
				func() { w.check(when, opSaveWrong("f", k, left[0], 0)) },
				func() { w.check(when, opSaveWrong("f", k, n, cs)) },
				func() { w.check(when, opSaveWrong("f", k, n+63, cs)) },
				func() { w.check(when, opSaveWrong("f", k, 65535, 1)) },
				func() {
					if last < cs {
						w.check(when, opSaveWrong("f", k, n-1, cs))
					}
				},
				func() {
					if cs > 1 && n > 1 {
						w.check(when, opSaveWrong("f", k, 0, cs-1))
					}
				},
				func() { w.check(when, opSaveWrong("unknown", hU, 0, cs)) },
			}
			kinds := len(wrong)
			if kind > 0 {
				kinds = 2
			}
			d := vs.Choose(vs.Free, kinds, "before the store")
			wrong[d]()
			if d > 0 {
				disturbed = true
				look()
			}
		}
		j := vs.Choose(vs.Free, len(left), "next chunk")
		i := left[j]
		left = append(append([]int{}, left[:j]...), left[j+1:]...)
		w.check(when, opSave("f", r, k, i))
		have |= 1 << uint(i)
		when += fmt.Sprintf(", chunk %d stored", i)
		look()
	}
	got, _ := w.fs.Get(w.m.ents[k].path)
	h.Must(string(got) == data, "%s: the complete file differs from the source", when)
	// storing a present chunk once more changes nothing
	w.check(when, opSave("f", r, k, 0))
	w.verifyLight(when)
	vs.Count("stores", n)
}

// verifyLight checks the listing and the files.
func (w *world) verifyLight(when string) {
	l, err := w.listed()
	h.Must(err == nil, "%s: listing failed: %v", when, err)
	_, diff := w.match(l, w.m)
	h.Must(diff == "", "%s: %s", when, diff)
	w.checkFiles(when)
}

func readers(depth int) {
	w := newWorld()
	data := string(h.Pattern(5, 11))
	r := remote{"f", data, 4}
	k := sum(data)
	w.check("", opRegister("f", r, k))
	c := vs.Choose(vs.Free, 3, "chunk")
	w.check("", opSave("f", r, k, c))
	if vs.Choose(vs.Free, 2, "complete") == 1 {
		for i := 0; i < 3; i++ {
			w.check("", opSave("f", r, k, i))
		}
	}
	want := []byte(data[c*4 : min(c*4+4, 11)])
	w.safe("reading", func() {
		cr, err := w.c.GetChunkReader(hp(k), int64(c))
		h.Must(err == nil, "chunk %d cannot be read: %v", c, err)
		h.Must(cr.Size == int64(len(want)) && cr.Hash.Data == sha1.Sum(want), "the reader of chunk %d announces the wrong size or hash", c)
		pos, hist := 0, ""
		for d := 0; d < depth; d++ {
			sizes := []int{1, 2, 3, 4, 5, 100, 0}
			o := vs.Choose(vs.Free, len(sizes)+2, "read")
			if o == 0 {
				break
			}
			if o == len(sizes)+1 {
				h.Must(cr.Reset() == nil, "rewinding failed after%s", hist)
				pos = 0
				hist += " rewind"
				h.Must(cr.Offset() == 0, "after%s: the offset is %d", hist, cr.Offset())
				continue
			}
			n := sizes[o-1]
			b := make([]byte, n)
			got, off, err := cr.Read(b)
			hist += fmt.Sprintf(" %d", n)
			exp := min(n, len(want)-pos)
			h.Must(int(off) == pos, "after%s: the offset is %d, want %d", hist, off, pos)
			h.Must(got <= exp && (got > 0 || exp == 0), "after%s: %d bytes read, want %d", hist, got, exp)
			h.Must(bytes.Equal(b[:got], want[pos:pos+got]), "after%s: read %x, want %x", hist, b[:got], want[pos:pos+got])
			h.Must(err == nil || err == io.EOF && pos+got == len(want), "after%s: %v at %d of %d", hist, err, pos+got, len(want))
			h.Must(n == 0 || got > 0 || err == io.EOF, "after%s: no bytes and no end of file", hist)
			pos += got
			h.Must(int(cr.Offset()) == pos, "after%s: the offset is %d, want %d", hist, cr.Offset(), pos)
		}
		vs.Count("read sequences", 1)
	})
}

func twoReaders() {
	w := newWorld()
	data := string(h.Pattern(6, 11))
	r := remote{"f", data, 4}
	k := sum(data)
	w.check("", opRegister("f", r, k))
	w.check("", opSave("f", r, k, 0))
	w.check("", opSave("f", r, k, 2))
	c := []int{pick("chunk", []int{0, 2}), pick("chunk", []int{0, 2})}
	b := pick("buffer", []int{1, 3})
	rd := make([]*common.ChunkReader, 2)
	w.safe("reading", func() {
		for i := range rd {
			var err error
			rd[i], err = w.c.GetChunkReader(hp(k), int64(c[i]))
			h.Must(err == nil, "chunk %d cannot be read: %v", c[i], err)
		}
		var out [2][]byte
		var done [2]bool
		acts := []string{"store", "restore"}
		for !done[0] || !done[1] {
			var opts []int
			for i := range rd {
				if !done[i] {
					opts = append(opts, i)
				}
			}
			for j := range acts {
				opts = append(opts, 2+j)
			}
			o := opts[vs.Choose(vs.Free, len(opts), "next")]
			if o >= 2 {
				var err error
				if acts[o-2] == "store" {
					err = w.c.SaveChunk(hp(k), 1, []byte(data[4:8]))
				} else {
					err = w.c.SaveChunk(hp(k), uint16(c[0]), []byte(data[c[0]*4:min(c[0]*4+4, 11)]))
				}
				h.Must(err == nil, "storing failed: %v", err)
				acts = append(append([]string{}, acts[:o-2]...), acts[o-1:]...)
				continue
			}
			buf := make([]byte, b)
			n, off, err := rd[o].Read(buf)
			h.Must(int(off) == len(out[o]), "reader %d is at offset %d, want %d", o, off, len(out[o]))
			out[o] = append(out[o], buf[:n]...)
			h.Must(err == nil || err == io.EOF, "reading failed: %v", err)
			done[o] = err == io.EOF
		}
		for i := range rd {
			want := data[c[i]*4 : min(c[i]*4+4, 11)]
			h.Must(string(out[i]) == want, "reader %d of chunk %d yields %x, want %x", i, c[i], out[i], want)
		}
	})
}

func sharedFiles(big bool) {
	w := newWorld()
	cs := w.cs
	sizes := []int{0, 1, cs - 1, cs, cs + 1}
	if big {
		sizes = append(sizes, 2*cs-1, 2*cs, 2*cs+1, 3*cs)
	}
	size := pick("size", sizes)
	data := h.Pattern(size, size)
	w.fs.Put("/data/big", data)
	k := sha1.Sum(data)
	n := chunks(int64(size), cs)
	w.safe("sharing", func() {
		_, err := w.c.ShareFile("/data/big")
		h.Must(err == nil, "sharing %d bytes failed: %v", size, err)
	})
	if vs.Choose(vs.Free, 2, "restart") == 1 {
		w.restart(false)
	}
	w.safe("reading", func() {
		for i := 0; i < n+2; i++ {
			cr, err := w.c.GetChunkReader(hp(k), int64(i))
			if i >= n {
				h.Must(err != nil, "%d bytes: chunk %d is readable", size, i)
				continue
			}
			h.Must(err == nil, "%d bytes: chunk %d cannot be read: %v", size, i, err)
			readAll(cr, data[i*cs:min(i*cs+cs, size)], 65536, fmt.Sprintf("%d bytes: chunk %d", size, i))
		}
		h.Must(w.c.FileComplete(hp(k)), "a shared file of %d bytes is not complete", size)
		h.Must(len(w.c.MissingChunks(hp(k), 10)) == 0, "a shared file of %d bytes misses chunks", size)
	})
}

func manyChunks() {
	w := newWorld()
	n := pick("chunks", []int{65535, 65536})
	data := h.Pattern(9, n)
	k := sha1.Sum(data)
	idx := []int{0, 63, 64, 255, 256, n - 2, n - 1}
	if vs.Choose(vs.Free, 2, "order") == 1 {
		for i, j := 0, len(idx)-1; i < j; i, j = i+1, j-1 {
			idx[i], idx[j] = idx[j], idx[i]
		}
	}
	w.safe("storing", func() {
		_, err := w.c.RegisterDownload(uint64(n), uint32(n), 1, hp(k), "many")
		h.Must(err == nil, "a download of %d chunks cannot be registered: %v", n, err)
		for j, i := range idx {
			h.Must(w.c.SaveChunk(hp(k), uint16(i), data[i:i+1]) == nil, "chunk %d of %d cannot be stored", i, n)
			for l, m := range idx {
				cr, err := w.c.GetChunkReader(hp(k), int64(m))
				h.Must((err == nil) == (l <= j), "chunk %d of %d after storing %v: %v", m, n, idx[:j+1], err)
				if err == nil {
					readAll(cr, data[m:m+1], 4, fmt.Sprintf("chunk %d of %d", m, n))
				}
			}
		}
		if n == 65535 {
			h.Must(w.c.SaveChunk(hp(k), 65535, []byte{1}) != nil, "chunk 65535 of 65535 is stored")
		}
	})
	w.restart(false)
	w.safe("reading", func() {
		for _, i := range idx {
			cr, err := w.c.GetChunkReader(hp(k), int64(i))
			h.Must(err == nil, "after a restart chunk %d of %d cannot be read: %v", i, n, err)
			readAll(cr, data[i:i+1], 4, fmt.Sprintf("chunk %d of %d", i, n))
		}
		r, err := w.c.Contains(hp(k))
		h.Must(err == nil && r.Progress.Count() == len(idx) && r.Progress.Size() == n, "after a restart the chunks of %d are wrong", n)
	})
}

// farChunks stores chunks whose positions need more than 31 or 32 bits.
func farChunks() {
	w := newWorld()
	const cs = 1 << 17
	idx := []int{0, 1, 16383, 16384, 16385, 32767, 32768, 32769, 49152, 65534, 65535}
	last := pick("length of the last chunk", []int{cs, 1, cs - 1})
	size := uint64(cs)*65535 + uint64(last)
	switch vs.Choose(vs.Free, 3, "order") {
	case 1:
		for i, j := 0, len(idx)-1; i < j; i, j = i+1, j-1 {
			idx[i], idx[j] = idx[j], idx[i]
		}
	case 2:
		for i := range idx {
			j := (i*7 + 3) % len(idx)
			idx[i], idx[j] = idx[j], idx[i]
		}
	}
	chunk := func(i int) []byte {
		n := cs
		if i == 65535 {
			n = last
		}
		return h.Pattern(i+1, n)
	}
	k := hash{9, 9}
	check := func(when string, present []int) {
		for _, m := range idx {
			in := false
			for _, p := range present {
				in = in || p == m
			}
			cr, err := w.c.GetChunkReader(hp(k), int64(m))
			h.Must((err == nil) == in, "%s chunk %d of a file of %d bytes: %v", when, m, size, err)
			if err == nil {
				h.Must(cr.Size == int64(len(chunk(m))) && cr.Hash.Data == sha1.Sum(chunk(m)), "%s the content of chunk %d of a file of %d bytes is wrong", when, m, size)
				cr.Close()
			}
		}
	}
	w.safe("storing", func() {
		_, err := w.c.RegisterDownload(size, 65536, cs, hp(k), "far")
		h.Must(err == nil, "a download of %d bytes cannot be registered: %v", size, err)
		for j, i := range idx {
			h.Must(w.c.SaveChunk(hp(k), uint16(i), chunk(i)) == nil, "chunk %d of a file of %d bytes cannot be stored", i, size)
			check(fmt.Sprintf("after storing %v", idx[:j+1]), idx[:j+1])
		}
	})
	w.restart(false)
	w.safe("reading", func() {
		check("after a restart", idx)
		r, err := w.c.Contains(hp(k))
		h.Must(err == nil && r.Progress.Count() == len(idx) && r.SizeInBytes == int64(size), "after a restart the entry of a file of %d bytes is wrong", size)
	})
}
