package os

import (
	"fmt"
	real "os"
	"syscall"

	"verif/mc/vs"
)

var (
	Stdin  = &File{name: "/dev/stdin", std: 2}
	Stdout = &File{name: "/dev/stdout", std: 1}
	Stderr = &File{name: "/dev/stderr", std: 1}
)

func stdout(s string) {
	if p := curProc(); p != nil {
		p.Write(s)
	}
}

// WriteStdout is used by the fmt and log shims.
func WriteStdout(s string) { stdout(s) }

// ProcArgs replaces os.Args in instrumented code.
func ProcArgs() []string {
	if p := curProc(); p != nil {
		return append([]string{}, p.Args...)
	}
	return real.Args[:1]
}

func Exit(code int) {
	if vs.Cur() == nil {
		real.Exit(code)
	}
	vs.ExitProc(code, fmt.Sprintf("exit status %d", code))
}

func Getpid() int {
	if p := curProc(); p != nil {
		return p.Pid
	}
	return 1
}
func Getppid() int                  { return 1 }
func Getuid() int                   { return 1000 }
func Geteuid() int                  { return 1000 }
func UserHomeDir() (string, error)  { return "/home/u", nil }
func UserCacheDir() (string, error) { return "/home/u/.cache", nil }
func UserConfigDir() (string, error) {
	return "/home/u/.config", nil
}
func TempDir() string        { return "/tmp" }
func Getwd() (string, error) { return workDir(), nil }

// Chdir changes the working directory of the current process.
func Chdir(d string) error {
	st, err := Stat(d)
	if err != nil {
		return err
	}
	if !st.IsDir() {
		return &PathError{Op: "chdir", Path: d, Err: syscall.ENOTDIR}
	}
	if p := curProc(); p != nil {
		p.Cwd = abs(d)
	}
	return nil
}

func workDir() string {
	if p := curProc(); p != nil && p.Cwd != "" {
		return p.Cwd
	}
	return cwd
}
func Getenv(k string) string      { v, _ := LookupEnv(k); return v }
func Setenv(k, v string) error    { return nil }
func Unsetenv(k string) error     { return nil }
func Environ() []string           { return []string{"HOME=/home/u"} }
func Hostname() (string, error)   { return "host", nil }
func Executable() (string, error) { return "/usr/bin/client", nil }
func LookupEnv(k string) (string, bool) {
	if k == "HOME" {
		return "/home/u", true
	}
	return "", false
}
func ExpandEnv(s string) string { return Expand(s, Getenv) }
