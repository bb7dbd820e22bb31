// Package rand is deterministic: every execution sees the same sequence.
package rand

import (
	real "math/rand"

	"verif/mc/vs"
)

var src *real.Rand
var owner *vs.Run

func g() (r *real.Rand) {
	vs.IO(func() {
		if src == nil || owner != vs.R() {
			src, owner = real.New(real.NewSource(1)), vs.R()
		}
		r = src
	})
	return
}

func Int() (v int)                    { r := g(); vs.IO(func() { v = r.Int() }); return }
func Intn(n int) (v int)              { r := g(); vs.IO(func() { v = r.Intn(n) }); return }
func Int31() (v int32)                { r := g(); vs.IO(func() { v = r.Int31() }); return }
func Int31n(n int32) (v int32)        { r := g(); vs.IO(func() { v = r.Int31n(n) }); return }
func Int63() (v int64)                { r := g(); vs.IO(func() { v = r.Int63() }); return }
func Int63n(n int64) (v int64)        { r := g(); vs.IO(func() { v = r.Int63n(n) }); return }
func Uint32() (v uint32)              { r := g(); vs.IO(func() { v = r.Uint32() }); return }
func Uint64() (v uint64)              { r := g(); vs.IO(func() { v = r.Uint64() }); return }
func Float64() (v float64)            { r := g(); vs.IO(func() { v = r.Float64() }); return }
func Float32() (v float32)            { r := g(); vs.IO(func() { v = r.Float32() }); return }
func Perm(n int) (v []int)            { r := g(); vs.IO(func() { v = r.Perm(n) }); return }
func Shuffle(n int, f func(i, j int)) { r := g(); vs.IO(func() { r.Shuffle(n, f) }) }
func Read(b []byte) (n int, err error) {
	r := g()
	vs.IO(func() { n, err = r.Read(b) })
	return
}
func Seed(int64) {}
