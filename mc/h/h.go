// Package h holds helpers shared by the harnesses.
package h

import (
	"fmt"
	"runtime/debug"
	"strings"

	vos "verif/mc/shim/os"
	"verif/mc/vs"
)

// Must records a violation and ends the execution unless ok.
func Must(ok bool, format string, a ...any) {
	if !ok {
		vs.Fail(format, a...)
		vs.Stop()
	}
}

// Panics runs f and returns the panic text, or "".
func Panics(f func()) (msg string) {
	done := false
	defer func() {
		if done {
			return
		}
		if v := recover(); v != nil {
			msg = fmt.Sprintf("%v\n%s", v, stack())
		}
	}()
	f()
	done = true
	return ""
}

// stack is the part of the panicking stack within the code under test.
func stack() string {
	var out []string
	l := strings.Split(string(debug.Stack()), "\n")
	for i := 0; i+1 < len(l); i++ {
		if strings.HasPrefix(l[i], "github.com/flu-network/") {
			out = append(out, strings.TrimSpace(l[i+1]))
		}
	}
	return strings.Join(out, "\n")
}

// Safe runs f and reports a violation if it panics.
func Safe(f func(), format string, a ...any) {
	if m := Panics(f); m != "" {
		Must(false, "%s: crashed: %s", fmt.Sprintf(format, a...), m)
	}
}

// NewHost makes a host with an empty file system.
func NewHost(name string, ip [4]byte) (*vs.Host, *vos.FS) {
	fs := vos.NewFS()
	return &vs.Host{Name: name, IP: ip, FS: fs, Home: "/home/u"}, fs
}

// In runs f as the main goroutine of process p to its end; it reports how p fared.
func In(p *vs.Proc, f func()) (alive bool, why string) {
	g := vs.GoProc(p, p.Name, f)
	vs.Join(g)
	alive, _, why = p.State()
	return
}

// Pattern is n bytes of content that differ per position and seed.
func Pattern(seed, n int) []byte {
	b := make([]byte, n)
	x := uint32(seed*2654435761 + 12345)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}
