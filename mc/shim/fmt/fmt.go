// Package fmt sends standard output to the virtual process.
package fmt

import (
	real "fmt"

	vos "verif/mc/shim/os"
)

func out(s string) (int, error) {
	vos.WriteStdout(s)
	return len(s), nil
}

func Print(a ...any) (int, error)            { return out(real.Sprint(a...)) }
func Println(a ...any) (int, error)          { return out(real.Sprintln(a...)) }
func Printf(f string, a ...any) (int, error) { return out(real.Sprintf(f, a...)) }
func Scan(a ...any) (int, error)             { return 0, real.Errorf("EOF") }
func Scanln(a ...any) (int, error)           { return 0, real.Errorf("EOF") }
func Scanf(f string, a ...any) (int, error)  { return 0, real.Errorf("EOF") }
