package main

import (
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"io"
	"strings"

	"github.com/flu-network/client/catalogue"
	"github.com/flu-network/client/common"

	"verif/mc/explore"
	"verif/mc/h"
	vos "verif/mc/shim/os"
	"verif/mc/vs"
)

func init() {
	explore.Register(&explore.Property{ID: "C23", Scenarios: c23})
}

// flaky is a ReaderAt over data whose end-of-file style and errors are choices.
type flaky struct {
	data   []byte
	failed bool
}

var errDisk = fmt.Errorf("input/output error")

func (f *flaky) ReadAt(b []byte, off int64) (int, error) {
	if off >= int64(len(f.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.data[off:])
	eof := off+int64(n) == int64(len(f.data))
	opts := []string{"all"}
	if eof && n == len(b) {
		opts = append(opts, "all with EOF")
	}
	opts = append(opts, "error", "error after some bytes")
	switch opts[vs.Choose(vs.Fault, len(opts), "read")] {
	case "all with EOF":
		return n, io.EOF
	case "error":
		f.failed = true
		return 0, errDisk
	case "error after some bytes":
		f.failed = true
		return n / 2, errDisk
	}
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func c23(tier string) []explore.Scenario {
	sizes := []int{0, 1, 2, 4095, 4096, 4097, 8191, 8192, 8193, 12289}
	faults := 3
	if tier == "thorough" {
		sizes = append(sizes, 3, 100, 12287, 12288, 16384, 20481)
		faults = 6
	}
	b := explore.Bounds{Sched: 0, Switch: 0, Fault: faults, Timing: 0, Total: faults}
	file := func() {
		size := sizes[vs.Choose(vs.Free, len(sizes), "file size")]
		host, fs := h.NewHost("a", [4]byte{10, 0, 0, 1})
		data := h.Pattern(size, size)
		fs.Put("/data/f", data)
		fs.Faults = vos.FaultMode{Short: true, ReadErr: true}
		p := vs.NewProc(host, "p", nil)
		want := sha1.Sum(data)
		alive, why := h.In(p, func() {
			got, err := common.HashFile("/data/f")
			if err != nil {
				h.Must((len(fs.Errors()) > 0), "hashing %d bytes failed although no call failed: %v", size, err)
				vs.Observe("error")
				return
			}
			h.Must(!(len(fs.Errors()) > 0), "a failed read was ignored while hashing %d bytes", size)
			h.Must(got != nil && got.Data == want, "wrong hash for %d bytes", size)
			vs.Observe("ok")
		})
		h.Must(alive, "hashing %d bytes crashed: %s", size, why)
		h.Must(len(fs.OpenFiles(p)) == 0, "hashing %d bytes left files open", size)
	}
	missing := func() {
		host, fs := h.NewHost("a", [4]byte{10, 0, 0, 1})
		fs.PutDir("/data/dir")
		p := vs.NewProc(host, "p", nil)
		alive, why := h.In(p, func() {
			for _, f := range []string{"/data/none", "/data/dir", "/data/dir/none", ""} {
				_, err := common.HashFile(f)
				h.Must(err != nil, "hashing %q succeeded", f)
			}
		})
		h.Must(alive, "hashing a missing file crashed: %s", why)
	}
	chunk := func() {
		size := sizes[vs.Choose(vs.Free, len(sizes), "chunk size")]
		data := h.Pattern(size, size)
		f := &flaky{data: append(append(h.Pattern(9, 37), data...), h.Pattern(8, 11)...)}
		tail := vs.Choose(vs.Free, 2, "chunk at end of file") == 1
		if tail {
			f.data = f.data[:37+size]
		}
		n := int64(size)
		if tail {
			n += 5
		}
		var cr *common.ChunkReader
		if p := h.Panics(func() { cr = common.NewChunkReader(io.NewSectionReader(f, 37, n)) }); p != "" {
			// the constructor has no error result, so refusing by panicking is its only way to report
			h.Must(f.failed, "hashing a chunk of %d bytes crashed although no read failed: %s", size, p)
			vs.Observe("refused")
			return
		}
		if f.failed {
			h.Must(cr == nil, "a chunk of %d bytes whose read failed was given a hash", size)
			return
		}
		want := sha1.Sum(data)
		h.Must(cr.Hash.Data == want && cr.Size == int64(size), "wrong hash or size for a chunk of %d bytes", size)
		h.Must(cr.Offset() == 0, "a new chunk reader starts at %d", cr.Offset())
		vs.Observe("ok")
	}
	// the same through the catalogue: a read error while opening a chunk is reported
	cat := func() {
		size := sizes[vs.Choose(vs.Free, len(sizes)-1, "file size")+1]
		host, fs := h.NewHost("a", [4]byte{10, 0, 0, 1})
		data := h.Pattern(size, size)
		fs.Put("/data/f", data)
		p := vs.NewProc(host, "p", nil)
		alive, why := h.In(p, func() {
			c, err := catalogue.NewCat("/cat", "/dl")
			h.Must(err == nil && c.Init() == nil, "cannot create catalogue")
			fs.Faults = vos.FaultMode{Short: true, ReadErr: true, OnlyPath: "/data/f"}
			r, err := c.ShareFile("/data/f")
			if err != nil {
				h.Must((len(fs.Errors()) > 0), "share failed although no call failed: %v", err)
				vs.Observe("share refused")
				return
			}
			h.Must(!(len(fs.Errors()) > 0), "a failed read was ignored by share")
			hh := r.Sha1Hash
			h.Must(hh.Data == sha1.Sum(data), "a shared file of %d bytes has the wrong hash", size)
			cr, err := c.GetChunkReader(&hh, 0)
			if err != nil {
				h.Must((len(fs.Errors()) > 0), "opening the chunk failed although no call failed: %v", err)
				vs.Observe("chunk refused")
			} else {
				h.Must(!(len(fs.Errors()) > 0), "a failed read was ignored when opening a chunk")
				h.Must(cr.Hash.Data == hh.Data && cr.Size == int64(size), "the only chunk of a %d-byte file has the wrong hash or size", size)
				vs.Observe("ok")
			}
			fs.Faults = vos.FaultMode{}
			again, err := c.GetChunkReader(&hh, 0)
			h.Must(err == nil && again.Hash.Data == hh.Data, "after a read error the chunk cannot be opened any more: %v", err)
		})
		h.Must(alive, "reading a chunk of %d bytes crashed: %s", size, why)
	}
	text := func() {
		n := 0
		base := hashes()[vs.Choose(vs.Free, 3, "hash")]
		s := base.String()
		h.Must(s == hex.EncodeToString(base.Data[:]), "String is %s", s)
		var back common.Sha1Hash
		h.Must(back.FromStringSafe(s) == nil && back == base, "text does not round-trip: %s", s)
		var up common.Sha1Hash
		h.Must(up.FromStringSafe(strings.ToUpper(s)) == nil && up == base, "upper-case text does not convert: %s", s)
		h.Must(*(&common.Sha1Hash{}).FromString(s) == base, "FromString does not round-trip: %s", s)
		h.Must(*(&common.Sha1Hash{}).FromSlice(base.Slice()) == base, "FromSlice does not round-trip")
		h.Must(*base.Array() == base.Data, "Array differs")
		c := base.SliceCopy()
		h.Must(string(c) == string(base.Data[:]), "SliceCopy differs")
		for i := range c {
			c[i] ^= 0x55
		}
		h.Must(base.String() == s, "SliceCopy aliases the hash")
		// every single-position corruption
		for i := 0; i < len(s); i++ {
			for v := 0; v < 256; v++ {
				x := s[:i] + string([]byte{byte(v)}) + s[i+1:]
				var g common.Sha1Hash
				var err error
				h.Safe(func() { err = g.FromStringSafe(x) }, "FromStringSafe(%q)", x)
				ok := v >= '0' && v <= '9' || v >= 'a' && v <= 'f' || v >= 'A' && v <= 'F'
				h.Must((err == nil) == ok, "FromStringSafe(%q): %v", x, err)
				if ok {
					h.Must(g.String() == strings.ToLower(x), "FromStringSafe(%q) gives %s", x, g.String())
				}
				n++
			}
		}
		// anything too much
		for i := 0; i <= len(s); i++ {
			for v := 0; v < 256; v++ {
				for _, x := range []string{s[:i] + string([]byte{byte(v)}) + s[i:], s[:i] + string([]byte{byte(v), byte(v)}) + s[i:]} {
					var g common.Sha1Hash
					var err error
					h.Safe(func() { err = g.FromStringSafe(x) }, "FromStringSafe(%q)", x)
					h.Must(err != nil, "FromStringSafe(%q) accepts more than a hash", x)
					n++
				}
			}
		}
		for _, x := range []string{"0x" + s, "0x" + s[2:], "sha1:" + s, "\"" + s + "\"", s + "\r\n", " " + s + " ", "\t" + s, "\ufeff" + s} {
			var g common.Sha1Hash
			h.Must(g.FromStringSafe(x) != nil, "FromStringSafe(%q) accepts more than a hash", x)
			n++
		}
		long := s + s + s
		for l := 0; l <= 90; l++ {
			var g common.Sha1Hash
			h.Must((g.FromStringSafe(long[:l]) == nil) == (l == 40), "FromStringSafe of %d characters", l)
			var k common.Sha1Hash
			raw := []byte(long[:l])
			h.Must((k.FromSliceSafe(raw) == nil) == (l == 20), "FromSliceSafe of %d bytes", l)
			if l == 20 {
				h.Must(string(k.Data[:]) == string(raw), "FromSliceSafe differs")
			}
			n++
		}
		vs.Count("hash conversions", n)
	}
	blank := func() {
		n := 0
		var bl common.Sha1Hash
		h.Must(bl.Blank() == &bl && bl.IsBlank(), "Blank is not blank")
		for _, x := range bl.Data {
			h.Must(x == 255, "Blank is not all ones")
		}
		for i := 0; i < 20; i++ {
			for v := 0; v < 255; v++ {
				g := bl
				g.Data[i] = byte(v)
				h.Must(!g.IsBlank(), "%s counts as blank", g.String())
				n++
				for j := i + 1; j < 20; j++ {
					k := g
					k.Data[j] = byte(v)
					h.Must(!k.IsBlank(), "%s counts as blank", k.String())
					n++
				}
			}
		}
		// repeating words
		for v := 0; v < 255; v++ {
			var g common.Sha1Hash
			for i := range g.Data {
				g.Data[i] = byte(v)
			}
			h.Must(!g.IsBlank(), "%s counts as blank", g.String())
			for i := 0; i < 20; i++ {
				k := g
				for j := i; j < 20; j++ {
					k.Data[j] = 255
				}
				h.Must(!k.IsBlank() || i == 0, "%s counts as blank", k.String())
			}
		}
		vs.Count("blank tests", n)
	}
	return []explore.Scenario{
		{Name: "file", Doc: fmt.Sprintf("HashFile for sizes around the buffer size with every pattern of up to %d short or failing reads", faults), B: b, Body: file, Weight: 3},
		{Name: "missing", Doc: "missing files and directories", B: b, Body: missing},
		{Name: "chunk", Doc: "NewChunkReader over sections inside and at the end of a file, with both end-of-file styles and failing reads", B: b, Body: chunk},
		{Name: "catalogue", Doc: "sharing a file and opening its chunk through the catalogue with short and failing reads, then retrying", B: b, Body: cat, Weight: 3},
		{Name: "text", Doc: "conversions between hash, text and bytes: every single-character corruption, every insertion of one character or two alike, and every length up to 90", B: freeB, Body: text},
		{Name: "blank", Doc: "all one- and two-byte deviations from the blank hash, repeated bytes, all-ones suffixes", B: freeB, Body: blank},
	}
}
