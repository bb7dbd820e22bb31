package vs

import (
	"fmt"
	"sort"
)

// Iter walks a map in an order the scheduler controls: sorted by key, or another order as a choice.
type Iter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	K    K
	V    V
}

// MapOrders makes the iteration order of every map range a Free choice among sorted, reversed and rotated.
func (r *Run) SetMapOrders(on bool) { r.mapOrders = on }

// SetMapOrders switches map-order exploration for the current execution.
func SetMapOrders(on bool) {
	r := R()
	Call(func() { r.mapOrders = on })
}

// MapIter starts an iteration over m.
func MapIter[M ~map[K]V, K comparable, V any](m M) *Iter[K, V] {
	it := &Iter[K, V]{m: m}
	type ent struct {
		s string
		k K
	}
	ents := make([]ent, 0, len(m))
	for k := range m {
		ents = append(ents, ent{fmt.Sprintf("%v", k), k})
	}
	sort.SliceStable(ents, func(i, j int) bool { return ents[i].s < ents[j].s })
	for _, e := range ents {
		it.keys = append(it.keys, e.k)
	}
	if n := len(it.keys); n > 1 {
		if g := Cur(); g != nil && !g.dead && do(&request{kind: opCall, fire: func() reply { return reply{ok: R().mapOrders} }}).ok {
			// all rotations of the sorted and of the reversed order
			c := Choose(Free, 2*n, "map order")
			if n == 2 && c >= 2 {
				c -= 2
			}
			if c >= n {
				for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
					it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
				}
				c -= n
			}
			it.keys = append(append([]K{}, it.keys[c:]...), it.keys[:c]...)
		}
	}
	return it
}

// Next advances to the next key still present.
func (it *Iter[K, V]) Next() bool {
	for len(it.keys) > 0 {
		k := it.keys[0]
		it.keys = it.keys[1:]
		if v, ok := it.m[k]; ok {
			it.K, it.V = k, v
			return true
		}
	}
	return false
}
