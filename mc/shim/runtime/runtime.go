// Package runtime makes yielding visible to the scheduler.
package runtime

import "verif/mc/vs"

func Gosched() {
	if vs.Cur() != nil {
		vs.Point("Gosched")
	}
}

func NumGoroutine() int { return vs.NumG() }
