package prog

// FSAll enumerates sequences of file-system operations: one part of all of that length,
// and of those on a tree with symbolic links, of that length but at most 2.
func FSAll(depth, shard, shards int, f func(ops []FSOp)) {
	ops := FSOps()
	i := 0
	var rec func(l []FSOp)
	rec = func(l []FSOp) {
		if len(l) == depth {
			if i%shards == shard {
				f(l)
			}
			i++
			return
		}
		for _, o := range ops {
			rec(append(l[:len(l):len(l)], o))
		}
	}
	rec(nil)
	ops = LinkOps() // the first of them, which sets up the links, is not counted
	if depth > 2 {
		depth = 2
	}
	start := FSOp{"links", makeLinks}
	depth++
	rec([]FSOp{start})
}

// NetAll enumerates sequences of socket operations.
func NetAll(depth int, f func(ops []NetOp)) {
	ops := NetOps()
	var rec func(l []NetOp)
	rec = func(l []NetOp) {
		if len(l) == depth {
			f(l)
			return
		}
		for _, o := range ops {
			rec(append(l[:len(l):len(l)], o))
		}
	}
	rec(nil)
}
