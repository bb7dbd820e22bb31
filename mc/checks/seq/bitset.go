package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"

	"github.com/flu-network/client/catalogue"
	"github.com/flu-network/client/common/bitset"

	"verif/mc/explore"
	"verif/mc/h"
	"verif/mc/vs"
)

func init() {
	explore.Register(&explore.Property{ID: "C01", Scenarios: c01, Assume: []string{"indices passed to Set stay below 2^31: the backing array grows to the index"}})
	explore.Register(&explore.Property{ID: "C02", Scenarios: c02})
	explore.Register(&explore.Property{ID: "C03", Scenarios: c03})
}

var freeB = explore.Bounds{Sched: 0, Switch: 0, Fault: -1, Timing: 0, Total: -1}

const uni = 200

// model is a plain set of indices with a high-water size.
type model struct {
	in   [uni + 160]bool
	size int
}

func (m *model) set(i int) {
	m.in[i] = true
	if i+1 > m.size {
		m.size = i + 1
	}
}
func (m *model) count() (n int) {
	for _, x := range m.in {
		if x {
			n++
		}
	}
	return
}
func (m *model) full() bool {
	for i := 0; i < m.size; i++ {
		if !m.in[i] {
			return false
		}
	}
	return true
}
func (m *model) String() string {
	s := fmt.Sprintf("size %d {", m.size)
	for i, x := range m.in {
		if x {
			s += fmt.Sprintf("%d ", i)
		}
	}
	return s + "}"
}

var far = []uint64{1 << 20, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, 1 << 32, 1<<62 + 5, math.MaxInt64 - 64, math.MaxInt64, 1 << 63, 1<<63 + 1, 1<<63 + 64, math.MaxUint64 - 63, math.MaxUint64 - 1, math.MaxUint64}

// same reports how b differs from m.
func same(b *bitset.Bitset, m *model) string {
	for i := range m.in {
		if b.Get(uint64(i)) != m.in[i] {
			return fmt.Sprintf("membership of %d is %v", i, !m.in[i])
		}
	}
	for _, x := range far {
		if b.Get(x) {
			return fmt.Sprintf("membership of %d is true", x)
		}
	}
	if n := b.Count(); n != m.count() {
		return fmt.Sprintf("count is %d, not %d", n, m.count())
	}
	if n := b.Size(); n != m.size {
		return fmt.Sprintf("size is %d, not %d", n, m.size)
	}
	if f := b.Full(); f != m.full() {
		return fmt.Sprintf("full is %v", f)
	}
	return ""
}

type bop struct {
	name string
	real func(*bitset.Bitset) *bitset.Bitset
	mod  func(*model)
}

func ops(idx []int) []bop {
	var out []bop
	for _, i := range idx {
		i := i
		out = append(out, bop{fmt.Sprintf("Set(%d)", i), func(b *bitset.Bitset) *bitset.Bitset { b.Set(uint64(i)); return b }, func(m *model) { m.set(i) }})
	}
	for _, i := range idx {
		i := i
		out = append(out, bop{fmt.Sprintf("Unset(%d)", i), func(b *bitset.Bitset) *bitset.Bitset { b.Unset(uint64(i)); return b }, func(m *model) { m.in[i] = false }})
	}
	for _, x := range []uint64{191, 192, 1 << 33, 1<<63 + 1, math.MaxUint64} {
		x := x
		out = append(out, bop{fmt.Sprintf("Unset(%d)", x), func(b *bitset.Bitset) *bitset.Bitset { b.Unset(x); return b }, func(m *model) {
			if x < uni {
				m.in[x] = false
			}
		}})
	}
	out = append(out, bop{"Fill", func(b *bitset.Bitset) *bitset.Bitset { b.Fill(); return b }, func(m *model) {
		for i := 0; i < m.size; i++ {
			m.in[i] = true
		}
	}})
	// the copy is used from here on; the original is spoilt
	out = append(out, bop{"Copy", func(b *bitset.Bitset) *bitset.Bitset {
		c := b.Copy()
		for i := 0; i < b.Size(); i += 7 {
			if b.Get(uint64(i)) {
				b.Unset(uint64(i))
			} else {
				b.Set(uint64(i))
			}
		}
		b.Fill()
		b.Set(300)
		return c
	}, func(*model) {}})
	// a copy is made and spoilt; the original is used
	out = append(out, bop{"copy-and-spoil", func(b *bitset.Bitset) *bitset.Bitset {
		c := b.Copy()
		c.Fill()
		c.Set(uint64(b.Size() + 3))
		c.Set(300)
		for i := 0; i <= 300; i++ {
			c.Unset(uint64(i))
		}
		return b
	}, func(*model) {}})
	for k, o := range operands() {
		o := o
		out = append(out, bop{fmt.Sprintf("Union(%d)", k), func(b *bitset.Bitset) *bitset.Bitset { return combine(b, o, true) }, func(m *model) { o.join(m) }})
		out = append(out, bop{fmt.Sprintf("Intersect(%d)", k), func(b *bitset.Bitset) *bitset.Bitset { return combine(b, o, false) }, func(m *model) { o.meet(m) }})
	}
	return out
}

type operand struct {
	size int
	el   []int
}

func operands() []operand {
	return []operand{{0, nil}, {1, []int{0}}, {64, []int{0, 63}}, {65, []int{64}}, {130, []int{1, 62, 65, 128}}}
}

func (o operand) build() *bitset.Bitset {
	b := bitset.NewBitset(o.size)
	for _, e := range o.el {
		b.Set(uint64(e))
	}
	return b
}

func (o operand) model() *model {
	m := &model{size: o.size}
	for _, e := range o.el {
		m.set(e)
	}
	return m
}

func (o operand) join(m *model) {
	x := o.model()
	for i := range m.in {
		m.in[i] = m.in[i] || x.in[i]
	}
	if x.size > m.size {
		m.size = x.size
	}
}

func (o operand) meet(m *model) {
	x := o.model()
	for i := range m.in {
		m.in[i] = m.in[i] && x.in[i]
	}
	if x.size < m.size {
		m.size = x.size
	}
}

// combine also checks that the operands are neither changed nor aliased by the result.
func combine(b *bitset.Bitset, o operand, union bool) *bitset.Bitset {
	a := o.build()
	bb, ab := b.Serialize(), a.Serialize()
	do := func(x, y *bitset.Bitset) *bitset.Bitset {
		if union {
			return x.Union(y)
		}
		return x.Intersect(y)
	}
	r := do(b, a)
	r2 := do(a, b) // either order
	h.Must(bytes.Equal(r.Serialize(), r2.Serialize()), "union or intersection depends on the operand order: %x %x", bb, ab)
	r2.Fill()
	r2.Set(0)
	for i := 0; i < 140; i++ {
		if r2.Get(uint64(i)) {
			r2.Unset(uint64(i))
		} else {
			r2.Set(uint64(i))
		}
	}
	h.Must(bytes.Equal(b.Serialize(), bb) && bytes.Equal(a.Serialize(), ab), "union or intersection shares memory with or changes an operand: %x %x", bb, ab)
	return r
}

func build(size int, path []bop) (b *bitset.Bitset, m *model) {
	b, m = bitset.NewBitset(size), &model{size: size}
	for _, o := range path {
		b = o.real(b)
		o.mod(m)
	}
	return
}

func names(size int, path []bop) string {
	s := fmt.Sprintf("NewBitset(%d)", size)
	for _, o := range path {
		s += "." + o.name
	}
	return s
}

func checkPath(size int, path []bop) *model {
	var m *model
	var diff string
	if p := h.Panics(func() {
		var b *bitset.Bitset
		b, m = build(size, path)
		diff = same(b, m)
	}); p != "" {
		h.Must(false, "%s crashed: %s", names(size, path), p)
	}
	h.Must(diff == "", "%s: %s (model: %v)", names(size, path), diff, m)
	return m
}

// large compares sets of many words with the model; every set that was ever made must keep its own content.
func largeSets(tier string) explore.Scenario {
	sizes := []int{191, 192, 193, 255, 256, 257, 319, 320, 321, 512, 513, 1024, 1100, 4096}
	depth := 3
	if tier == "thorough" {
		sizes = append(sizes, 2048, 2049, 65535, 65536)
	}
	pats := []struct {
		name string
		in   func(i, n int) bool
	}{{"nothing", func(i, n int) bool { return false }}, {"everything", func(i, n int) bool { return true }}, {"every third", func(i, n int) bool { return i%3 == 1 }}, {"the last", func(i, n int) bool { return i == n-1 }}, {"ends of words", func(i, n int) bool { return i%64 == 63 || i%64 == 0 }}, {"the last half", func(i, n int) bool { return i >= n/2 }}}
	type kept struct {
		b *bitset.Bitset
		m []bool
	}
	dup := func(m []bool) []bool { return append([]bool{}, m...) }
	fill := func(n int, f func(i, n int) bool) kept {
		x := kept{bitset.NewBitset(n), make([]bool, n)}
		for i := range x.m {
			if f(i, n) {
				x.b.Set(uint64(i))
				x.m[i] = true
			}
		}
		return x
	}
	check := func(what string, all []kept) {
		for i, x := range all {
			cnt, full := 0, true
			for j := 0; j < len(x.m)+130; j++ {
				in := j < len(x.m) && x.m[j]
				h.Must(x.b.Get(uint64(j)) == in, "%s: set %d: membership of %d is %v", what, i, j, !in)
				if in {
					cnt++
				} else if j < len(x.m) {
					full = false
				}
			}
			h.Must(x.b.Count() == cnt, "%s: set %d: count is %d, not %d", what, i, x.b.Count(), cnt)
			h.Must(x.b.Size() == len(x.m), "%s: set %d: size is %d, not %d", what, i, x.b.Size(), len(x.m))
			h.Must(x.b.Full() == full, "%s: set %d: full is %v", what, i, !full)
		}
	}
	ops := []string{"copy", "set beyond", "set first missing", "unset first", "fill", "union with less", "union with more", "intersect with less", "intersect with more", "union with itself"}
	apply := func(op int, x *kept, all *[]kept) {
		n := len(x.m)
		with := func(o kept, union bool) {
			y := kept{}
			size := len(o.m)
			if union == (n > size) {
				size = n
			}
			y.m = make([]bool, size)
			for i := range y.m {
				a, b := i < n && x.m[i], i < len(o.m) && o.m[i]
				y.m[i] = union && (a || b) || a && b
			}
			if union {
				y.b = x.b.Union(o.b)
			} else {
				y.b = x.b.Intersect(o.b)
			}
			*all = append(*all, *x, o)
			*x = y
		}
		switch ops[op] {
		case "copy":
			*all = append(*all, *x)
			*x = kept{x.b.Copy(), dup(x.m)}
		case "set beyond":
			x.b.Set(uint64(n + 70))
			x.m = append(dup(x.m), make([]bool, 71)...)
			x.m[n+70] = true
		case "set first missing":
			for i := range x.m {
				if !x.m[i] {
					x.b.Set(uint64(i))
					x.m[i] = true
					break
				}
			}
		case "unset first":
			for i := range x.m {
				if x.m[i] {
					x.b.Unset(uint64(i))
					x.m[i] = false
					break
				}
			}
		case "fill":
			x.b.Fill()
			for i := range x.m {
				x.m[i] = true
			}
		case "union with less":
			with(fill(100, pats[2].in), true)
		case "union with more":
			with(fill(n+100, pats[4].in), true)
		case "intersect with less":
			with(fill(max(n-65, 0), pats[2].in), false)
		case "intersect with more":
			with(fill(n+65, pats[4].in), false)
		case "union with itself":
			y := kept{x.b.Union(x.b), dup(x.m)}
			*all = append(*all, *x)
			*x = y
		}
	}
	body := func() {
		n := sizes[vs.Choose(vs.Free, len(sizes), "size")]
		p := pats[vs.Choose(vs.Free, len(pats), "pattern")]
		cnt := 0
		var rec func(path []int)
		rec = func(path []int) {
			x := fill(n, p.in)
			what := fmt.Sprintf("%d bits with %s", n, p.name)
			var all []kept
			if c := h.Panics(func() {
				for _, o := range path {
					what += ", " + ops[o]
					apply(o, &x, &all)
				}
				// what is done to the result must not reach any other set
				check(what, append(all, x))
				last := x
				last.m = dup(x.m)
				for i := range last.m {
					if i%5 == 0 {
						if last.m[i] {
							last.b.Unset(uint64(i))
						} else {
							last.b.Set(uint64(i))
						}
						last.m[i] = !last.m[i]
					}
				}
				check(what+", changes", append(all, last))
			}); c != "" {
				h.Must(false, "%s: crashed: %s", what, c)
			}
			cnt++
			if len(path) < depth && (n < 1000 || len(path) < depth-1) {
				for o := range ops {
					rec(append(path[:len(path):len(path)], o))
				}
			}
		}
		rec(nil)
		vs.Count("operation sequences", cnt)
		vs.Observe("%d %s", n, p.name)
	}
	return explore.Scenario{Name: "large", B: freeB, Body: body,
		Doc: fmt.Sprintf("sets of %v bits in %d patterns, every sequence of up to %d of %d operations (%d from 1000 bits on); all sets made on the way are compared with their models before and after the last is changed", sizes, len(pats), depth, len(ops), depth-1)}
}

func c01(tier string) []explore.Scenario {
	sizes := []int{0, 1, 2, 63, 64, 65, 66, 127, 128, 129}
	idx := []int{0, 1, 62, 63, 64, 65, 127, 128}
	depth := 3
	if tier == "thorough" {
		idx = []int{0, 1, 31, 62, 63, 64, 65, 127, 128, 130}
		depth = 4
	}
	reach := func() {
		size := sizes[vs.Choose(vs.Free, len(sizes), "initial size")]
		all := ops(idx)
		type node struct {
			path []bop
		}
		key := func(m *model) string { return m.String() }
		seen := map[string]bool{}
		m0 := checkPath(size, nil)
		seen[key(m0)] = true
		queue := []node{{nil}}
		trans := 0
		for len(queue) > 0 {
			n := queue[0]
			queue = queue[1:]
			for _, o := range all {
				p := append(append([]bop{}, n.path...), o)
				m := checkPath(size, p)
				trans++
				if k := key(m); !seen[k] {
					seen[k] = true
					queue = append(queue, node{p})
				}
			}
			if trans%2000 < len(all) {
				vs.Count("reachable-state transitions", 0)
			}
		}
		vs.Count("reachable states", len(seen))
		vs.Count("reachable-state transitions", trans)
		vs.Observe("size %d: %d states", size, len(seen))
	}
	seqs := func() {
		size := sizes[vs.Choose(vs.Free, len(sizes), "initial size")]
		all := ops(idx)
		first := vs.Choose(vs.Free, len(all), "first operation")
		n := 0
		var rec func(path []bop)
		rec = func(path []bop) {
			checkPath(size, path)
			n++
			if n%5000 == 0 {
				vs.Count("operation sequences", 0)
			}
			if len(path) < depth {
				for _, o := range all {
					rec(append(path[:len(path):len(path)], o))
				}
			}
		}
		rec([]bop{all[first]})
		vs.Count("operation sequences", n)
		vs.Observe("%d sequences", n)
	}
	return []explore.Scenario{
		largeSets(tier),
		{Name: "reachable", Doc: fmt.Sprintf("every state reachable from 10 initial sizes by set/unset on indices %v, out-of-range unset, fill, copy, union and intersect, to a fixpoint; every transition compared with the set model", idx), B: freeB, Body: reach},
		{Name: "sequences", Doc: fmt.Sprintf("every operation sequence of length up to %d over the same operations, without merging of states", depth), B: freeB, Body: seqs},
	}
}

// runs lists the maximal runs of p within [lo,hi].
func runs(p func(int) bool, lo, hi int) (out []int) {
	for i := lo; i <= hi; i++ {
		if p(i) {
			j := i
			for j < hi && p(j+1) {
				j++
			}
			out = append(out, i, j)
			i = j
		}
	}
	return
}

func eq16(a []uint16, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if int(a[i]) != b[i] {
			return false
		}
	}
	return true
}

func c02(tier string) []explore.Scenario {
	n := 8
	if tier == "thorough" {
		n = 10
	}
	type place struct{ base, extra int }
	places := []place{{0, 0}, {0, 3}, {60, 0}, {61, 5}, {124, 0}, {65536 - n, 0}, {65536 - n, 1}, {65536 - n, 70}, {65539 - n, 0}, {65543 - n, 2}, {65536 + 1, 0}, {300, 1}}
	body := func() {
		pl := places[vs.Choose(vs.Free, len(places), "placement")]
		mask := vs.Choose(vs.Free, 1<<n, "present chunks")
		size := pl.base + n + pl.extra
		b := bitset.NewBitset(size)
		for i := 0; i < n; i++ {
			if mask&(1<<i) != 0 {
				b.Set(uint64(pl.base + i))
			}
		}
		has := func(i int) bool { return i >= pl.base && i < pl.base+n && mask&(1<<(i-pl.base)) != 0 }
		what := fmt.Sprintf("size %d, chunks %d+%0*b(reversed)", size, pl.base, n, mask)
		cases := 0
		h.Safe(func() {
			got := b.Ranges()
			h.Must(eq16(got, runs(has, pl.base, min(pl.base+n-1, 65535))), "Ranges of %s: %v", what, got)
			un := b.UnfilledRanges()
			var flat []uint16
			for _, r := range un {
				flat = append(flat, r.Start, r.End)
			}
			h.Must(eq16(flat, runs(func(i int) bool { return !has(i) }, 0, min(size-1, 65535))), "UnfilledRanges of %s: %v", what, un)
			var missing []int
			for i := 0; i < min(size, 65536); i++ {
				if !has(i) {
					missing = append(missing, i)
				}
			}
			for _, c := range []int{0, 1, 2, 3, n, n + 1, len(missing), len(missing) + 1} {
				want := missing
				if c < len(want) {
					want = want[:c]
				}
				got := b.UnfilledItems(c)
				h.Must(eq16(got, want), "UnfilledItems(%d) of %s: %v", c, what, got)
			}
		}, "range queries of %s", what)

		var vals []int
		for i := pl.base - 1; i <= pl.base+n+1; i++ {
			if i >= 0 && i <= 65535 {
				vals = append(vals, i)
			}
		}
		check := func(req []int) {
			cases++
			r16 := make([]uint16, len(req))
			for i, v := range req {
				r16[i] = uint16(v)
			}
			var got []uint16
			if p := h.Panics(func() { got = b.Overlap(r16) }); p != "" {
				h.Must(false, "Overlap(%v) of %s crashed: %s", req, what, p)
			}
			h.Must(len(got)%2 == 0, "Overlap(%v) of %s: odd result %v", req, what, got)
			tidy := len(req)%2 == 0
			var want []int
			wantSet, gotSet := map[int]bool{}, map[int]bool{}
			for i := 0; i+1 < len(req); i += 2 {
				if req[i] > req[i+1] || i > 0 && req[i] <= req[i-1] {
					tidy = false
				}
				rs := runs(has, max(req[i], pl.base), min(req[i+1], pl.base+n))
				want = append(want, rs...)
				for j := 0; j < len(rs); j += 2 {
					for k := rs[j]; k <= rs[j+1]; k++ {
						wantSet[k] = true
					}
				}
			}
			if tidy {
				h.Must(eq16(got, want), "Overlap(%v) of %s: %v, not %v", req, what, got, want)
			}
			for i := 0; i < len(got); i += 2 {
				h.Must(got[i] <= got[i+1], "Overlap(%v) of %s: inverted range in %v", req, what, got)
				for k := int(got[i]); k <= int(got[i+1]); k++ {
					h.Must(has(k), "Overlap(%v) of %s yields absent chunk %d: %v", req, what, k, got)
					gotSet[k] = true
				}
			}
			if len(req)%2 == 0 {
				for k := range wantSet {
					h.Must(gotSet[k], "Overlap(%v) of %s lacks chunk %d: %v", req, what, k, got)
				}
			}
		}
		check(nil)
		if len(vals) == 0 {
			return
		}
		for _, a := range vals {
			check([]int{a})
			for _, z := range vals {
				check([]int{a, z})
				check([]int{a, z, a})
				for _, c := range vals {
					if c < a-1 && tier != "thorough" {
						continue
					}
					for _, d := range vals {
						check([]int{a, z, c, d})
					}
				}
			}
		}
		check([]int{0, 65535})
		check([]int{65535, 0})
		check([]int{65535, 65535})
		check([]int{0, pl.base, 65535})
		vs.Count("request lists", cases)
		vs.Observe("%d", cases)
	}
	words := 3
	if tier == "thorough" {
		words = 5
	}
	pats := []func(int) bool{
		func(int) bool { return false }, func(int) bool { return true },
		func(i int) bool { return i == 0 }, func(i int) bool { return i == 63 },
		func(i int) bool { return i > 0 }, func(i int) bool { return i < 63 },
		func(i int) bool { return i%2 == 1 },
	}
	tails := []int{0, 1, 2, 31, 63}
	wordBody := func() {
		tail := tails[vs.Choose(vs.Free, len(tails), "absent tail")]
		cut := []int{0, 1, 63}[vs.Choose(vs.Free, 3, "chunks cut off the last word")]
		var sel []int
		for w := 0; w < words; w++ {
			sel = append(sel, vs.Choose(vs.Free, len(pats), "word pattern"))
		}
		if tail > 0 && cut > 0 {
			return
		}
		size := words*64 - cut + tail
		has := func(i int) bool { return i >= 0 && i < words*64-cut && pats[sel[i/64]](i%64) }
		b := bitset.NewBitset(size)
		for i := 0; i < size; i++ {
			if has(i) {
				b.Set(uint64(i))
			}
		}
		what := fmt.Sprintf("words %v, size %d", sel, size)
		cases := 0
		h.Safe(func() {
			got := b.Ranges()
			h.Must(eq16(got, runs(has, 0, size-1)), "Ranges of %s: %v", what, got)
			un := b.UnfilledRanges()
			var flat []uint16
			for _, r := range un {
				flat = append(flat, r.Start, r.End)
			}
			h.Must(eq16(flat, runs(func(i int) bool { return !has(i) }, 0, size-1)), "UnfilledRanges of %s: %v", what, un)
			var missing []int
			for i := 0; i < size; i++ {
				if !has(i) {
					missing = append(missing, i)
				}
			}
			for _, c := range []int{1, 63, 64, 65, len(missing), size} {
				want := missing
				if c < len(want) {
					want = want[:c]
				}
				got := b.UnfilledItems(c)
				h.Must(eq16(got, want), "UnfilledItems(%d) of %s: %v", c, what, got)
			}
			ends := []int{0, 1, 62, 63, 64, 65, 127, 128, size - 1, size, size + 64}
			for _, x := range ends {
				for _, y := range ends {
					if x > y {
						continue
					}
					cases++
					got := b.Overlap([]uint16{uint16(x), uint16(y)})
					h.Must(eq16(got, runs(has, x, y)), "Overlap(%d, %d) of %s: %v", x, y, what, got)
				}
			}
		}, "range queries of %s", what)
		vs.Count("request lists", cases)
		vs.Observe("%d", cases)
	}
	return []explore.Scenario{{Name: "words", Doc: fmt.Sprintf("every combination of %d 64-bit words out of 7 patterns (empty, full, one chunk at either end, all but one at either end, alternating), with partial last words and absent tails, times every request with ends around the word boundaries", words), B: freeB, Body: wordBody}, {Name: "ranges", Doc: fmt.Sprintf("every subset of %d chunks at 12 placements (word boundaries, up to and across the 16-bit limit of a range, trailing absent chunks) times every request list of up to two pairs with ends around the universe, odd lists, and full-width pairs", n), B: freeB, Body: body}}
}

func encodings() (out []*bitset.Bitset, ms []*model) {
	for _, size := range []int{0, 1, 2, 3, 8, 63, 64, 65, 127, 128, 129} {
		var cand []int
		for _, i := range []int{0, 1, 31, 62, 63, 64, 65, 126, 127, 128} {
			if i < size {
				cand = append(cand, i)
			}
		}
		for mask := 0; mask < 1<<len(cand); mask++ {
			b, m := bitset.NewBitset(size), &model{size: size}
			for k, i := range cand {
				if mask&(1<<k) != 0 {
					b.Set(uint64(i))
					m.set(i)
				}
			}
			out, ms = append(out, b), append(ms, m)
			if mask == 0 {
				b, m := bitset.NewBitset(size).Fill(), &model{size: size}
				for i := 0; i < size; i++ {
					m.set(i)
				}
				out, ms = append(out, b), append(ms, m)
			}
		}
	}
	return
}

func wellFormed(d []byte) bool {
	if len(d) < 8 || len(d)%8 != 0 {
		return false
	}
	size := binary.BigEndian.Uint64(d)
	if size > 1<<40 {
		return false
	}
	if (size+63)/64 != uint64(len(d)/8-1) {
		return false
	}
	// no bit at or beyond the size
	return size%64 == 0 || binary.BigEndian.Uint64(d[len(d)-8:])>>(size%64) == 0
}

// probe decodes d and uses the result.
func probe(d []byte) {
	var b *bitset.Bitset
	var err error
	if p := h.Panics(func() { b, err = bitset.Deserialize(d) }); p != "" {
		h.Must(false, "Deserialize(%x) crashed: %s", d, p)
	}
	if err != nil {
		return
	}
	h.Must(b != nil, "Deserialize(%x) returned neither a bitset nor an error", d)
	h.Must(wellFormed(d), "Deserialize accepted malformed data %x", d)
	h.Safe(func() {
		b.Count()
		b.Full()
		b.Ranges()
		b.UnfilledRanges()
		b.UnfilledItems(3)
		b.Overlap([]uint16{0, 65535})
		b.Get(0)
		h.Must(b.Count() <= b.Size(), "Deserialize(%x) has %d of %d bits set", d, b.Count(), b.Size())
		b.Get(uint64(b.Size()))
		c := b.Copy()
		c.Fill()
		c.Set(0)
		c.Unset(0)
		c.Serialize()
	}, "use of the bitset decoded from %x", d)
}

func c03(tier string) []explore.Scenario {
	round := func() {
		bs, ms := encodings()
		sh := vs.Choose(vs.Free, 8, "shard")
		n := 0
		for i := sh; i < len(bs); i += 8 {
			b, m := bs[i], ms[i]
			h.Safe(func() {
				d := b.Serialize()
				h.Must(wellFormed(d), "encoding of %v is malformed: %x", m, d)
				r, err := bitset.Deserialize(d)
				h.Must(err == nil, "the encoding of %v is rejected: %v", m, err)
				if s := same(r, m); s != "" {
					h.Must(false, "after a round trip %v: %s", m, s)
				}
				h.Must(bytes.Equal(r.Serialize(), d), "re-encoding of %v differs", m)
				// the decoded set owns its memory and stays fully usable
				for k := range d {
					d[k] ^= 0xff
				}
				h.Must(same(r, m) == "", "the decoded set aliases the input of %v", m)
				r.Set(190)
				m2 := *m
				m2.set(190)
				h.Must(same(r, &m2) == "", "a decoded set misbehaves after Set: %v: %s", m, same(r, &m2))
				h.Must(same(b, m) == "", "encoding changed the original %v", m)
			}, "round trip of %v", m)
			n++
		}
		vs.Count("round trips", n)
	}
	bad := func() {
		bs, _ := encodings()
		sh := vs.Choose(vs.Free, 8, "shard")
		n := 0
		for i := sh; i < len(bs); i += 8 {
			d := bs[i].Serialize()
			for l := 0; l < len(d); l++ {
				probe(append([]byte{}, d[:l]...))
				n++
			}
			for l := 1; l <= 17; l++ {
				probe(append(append([]byte{}, d...), make([]byte, l)...))
				n++
			}
			for pos := 0; pos < 8; pos++ {
				vals := []byte{0, 1, 2, 0x3f, 0x40, 0x41, 0x7f, 0x80, 0x81, 0xc0, 0xff, d[pos] + 1, d[pos] - 1}
				if tier == "thorough" {
					vals = nil
					for v := 0; v < 256; v++ {
						vals = append(vals, byte(v))
					}
				}
				for _, v := range vals {
					c := append([]byte{}, d...)
					c[pos] = v
					probe(c)
					n++
				}
			}
			// each single bit of the last word flipped
			for bit := 0; bit < 64 && len(d) > 8; bit++ {
				c := append([]byte{}, d...)
				c[len(d)-1-bit/8] ^= 1 << (bit % 8)
				probe(c)
				n++
			}
			vs.Count("malformed inputs", 0)
		}
		probe(nil)
		vs.Count("malformed inputs", n)
	}
	// the catalogue's progress file, cut or corrupted while no process runs
	disk := func() {
		host, fs := h.NewHost("a", [4]byte{10, 0, 0, 1})
		fs.Put("/data/f", h.Pattern(1, 700))
		prep := vs.NewProc(host, "prep", nil)
		var hash string
		h.In(prep, func() {
			cat, err := catalogue.NewCat("/cat", "/dl")
			h.Must(err == nil && cat.Init() == nil, "cannot create catalogue")
			r, err := cat.ShareFile("/data/f")
			h.Must(err == nil, "share: %v", err)
			hash = r.Sha1Hash.String()
		})
		p := "/cat/" + hash
		d, ok := fs.Get(p)
		if !ok {
			vs.Observe("no progress file at the expected path")
			return
		}
		kind := vs.Choose(vs.Free, len(d)+12, "corruption")
		switch {
		case kind < len(d):
			fs.Put(p, d[:kind])
		case kind < len(d)+8:
			c := append([]byte{}, d...)
			c[kind-len(d)] = 0x7f
			fs.Put(p, c)
		case kind == len(d)+8:
			fs.Put(p, append(append([]byte{}, d...), 0))
		case kind == len(d)+9:
			fs.Put(p, append(append([]byte{}, d...), make([]byte, 8)...))
		case kind == len(d)+10:
			fs.Del(p)
		case kind == len(d)+11:
			fs.Del(p)
			fs.PutDir(p)
		}
		re := vs.NewProc(host, "reopen", nil)
		var outcome string
		alive, why := h.In(re, func() {
			cat, err := catalogue.NewCat("/cat", "/dl")
			if err == nil {
				err = cat.Init()
			}
			if err != nil {
				outcome = "init: error"
				return
			}
			l, err := cat.ListFiles()
			outcome = fmt.Sprintf("list: %d %v", len(l), err != nil)
			if err == nil {
				for _, e := range l {
					h.Must(e.Progress.Size() == 1 && e.Progress.Count() <= 1, "corrupt progress data (%d) listed as %d of %d chunks", kind, e.Progress.Count(), e.Progress.Size())
				}
			}
		})
		h.Must(alive, "a catalogue with corrupt progress data (%d) crashed: %s", kind, why)
		vs.Observe("%s", outcome)
	}
	return []explore.Scenario{
		{Name: "roundtrip", Doc: "every subset of the boundary indices of 11 sizes: serialise, deserialise, compare with the set model, re-serialise, mutate", B: freeB, Body: round},
		{Name: "malformed", Doc: "every strict prefix, every extension up to 17 bytes, header-byte corruption and every single-bit flip of the last word of those encodings", B: freeB, Body: bad},
		{Name: "progress file", Doc: "a shared file's progress file cut at every length, with each header byte corrupted, extended, missing or a directory; the catalogue is reopened and listed", B: freeB, Body: disk},
	}
}
