package os

import (
	"crypto/sha1"
	"fmt"
	"sort"
)

// Files beyond dense bytes are sparse: what lies further is kept in pages.
const (
	dense    = 1 << 26
	pageSize = 1 << 14
	maxSize  = 1 << 45
)

func (n *node) size() int64 {
	if n.far > 0 {
		return n.far
	}
	return int64(len(n.data))
}

// page returns the page of the given number, or nil if there is none and it is not to be made.
func (n *node) page(i int64, make_ bool) []byte {
	p := n.high[i]
	if p == nil && make_ {
		if n.high == nil {
			n.high = map[int64][]byte{}
		}
		p = make([]byte, pageSize)
		n.high[i] = p
	}
	return p
}

func (n *node) readAt(b []byte, off int64) int {
	size := n.size()
	if off >= size {
		return 0
	}
	if int64(len(b)) > size-off {
		b = b[:size-off]
	}
	for i := 0; i < len(b); {
		at := off + int64(i)
		if at < dense {
			end := min(len(b), i+int(dense-at))
			k := 0
			if at < int64(len(n.data)) {
				k = copy(b[i:end], n.data[at:])
			}
			clear(b[i+k : end])
			i = end
			continue
		}
		in := at % pageSize
		end := min(len(b), i+int(pageSize-in))
		if p := n.page(at/pageSize, false); p != nil {
			copy(b[i:end], p[in:])
		} else {
			clear(b[i:end])
		}
		i = end
	}
	return len(b)
}

func (n *node) writeAt(b []byte, off int64) {
	if end := off + int64(len(b)); end > n.size() {
		n.resize(end)
	}
	if off < dense && len(b) > 0 {
		k := min(int64(len(b)), dense-off)
		if need := off + k - int64(len(n.data)); need > 0 {
			n.data = append(n.data, make([]byte, need)...)
		}
		copy(n.data[off:], b[:k])
		b, off = b[k:], off+k
	}
	for len(b) > 0 {
		k := copy(n.page(off/pageSize, true)[off%pageSize:], b)
		b, off = b[k:], off+int64(k)
	}
}

func (n *node) resize(size int64) {
	if size <= dense {
		if n.far > 0 {
			n.far, n.high = 0, nil
		}
		if int64(len(n.data)) > size {
			n.data = n.data[:size:size]
		} else {
			n.data = append(n.data, make([]byte, size-int64(len(n.data)))...)
		}
		return
	}
	if size < n.far {
		for i, p := range n.high {
			if i*pageSize >= size {
				delete(n.high, i)
			} else if i == size/pageSize {
				clear(p[size%pageSize:])
			}
		}
	}
	n.far = size
}

// contents are the bytes, or for a sparse file something that differs whenever they do.
func (n *node) contents() string {
	if n.far == 0 {
		return string(n.data)
	}
	var is []int64
	for i, p := range n.high {
		for _, b := range p {
			if b != 0 {
				is = append(is, i)
				break
			}
		}
	}
	sort.Slice(is, func(a, b int) bool { return is[a] < is[b] })
	d := n.data
	for len(d) > 0 && d[len(d)-1] == 0 {
		d = d[:len(d)-1]
	}
	h := sha1.New()
	h.Write(d)
	for _, i := range is {
		fmt.Fprint(h, i)
		h.Write(n.high[i])
	}
	return fmt.Sprintf("<sparse file of %d bytes %x>", n.far, h.Sum(nil))
}
