// Package log replaces the standard log package: output goes to the virtual process and Fatal ends it.
package log

import (
	"fmt"
	"io"
	real "log"
	"strings"

	vos "verif/mc/shim/os"
	"verif/mc/vs"
)

// Logger writes lines without timestamps to its writer.
type Logger struct {
	w      io.Writer
	prefix string
	flags  int
}

var std = &Logger{w: vos.Stderr}

func New(w io.Writer, prefix string, flag int) *Logger { return &Logger{w, prefix, flag} }
func Default() *Logger                                 { return std }

func (l *Logger) Output(depth int, s string) error {
	if !strings.HasSuffix(s, "\n") {
		s += "\n"
	}
	if l.w != nil {
		_, err := io.WriteString(l.w, l.prefix+s)
		return err
	}
	return nil
}

func fatal(s string) {
	if g := vs.Cur(); g == nil || g.Proc == nil {
		panic("log.Fatal: " + s)
	}
	vs.ExitProc(1, "log.Fatal: "+s)
}

func (l *Logger) Print(v ...any)            { l.Output(2, fmt.Sprint(v...)) }
func (l *Logger) Printf(f string, v ...any) { l.Output(2, fmt.Sprintf(f, v...)) }
func (l *Logger) Println(v ...any)          { l.Output(2, fmt.Sprintln(v...)) }
func (l *Logger) Fatal(v ...any)            { s := fmt.Sprint(v...); l.Output(2, s); fatal(s) }
func (l *Logger) Fatalf(f string, v ...any) { s := fmt.Sprintf(f, v...); l.Output(2, s); fatal(s) }
func (l *Logger) Fatalln(v ...any)          { s := fmt.Sprintln(v...); l.Output(2, s); fatal(s) }
func (l *Logger) Panic(v ...any)            { s := fmt.Sprint(v...); l.Output(2, s); panic(s) }
func (l *Logger) Panicf(f string, v ...any) { s := fmt.Sprintf(f, v...); l.Output(2, s); panic(s) }
func (l *Logger) Panicln(v ...any)          { s := fmt.Sprintln(v...); l.Output(2, s); panic(s) }
func (l *Logger) SetPrefix(p string)        { l.prefix = p }
func (l *Logger) Prefix() string            { return l.prefix }
func (l *Logger) SetFlags(f int)            { l.flags = f }
func (l *Logger) Flags() int                { return l.flags }
func (l *Logger) SetOutput(w io.Writer)     { l.w = w }
func (l *Logger) Writer() io.Writer         { return l.w }

func Print(v ...any)                   { std.Print(v...) }
func Printf(f string, v ...any)        { std.Printf(f, v...) }
func Println(v ...any)                 { std.Println(v...) }
func Fatal(v ...any)                   { std.Fatal(v...) }
func Fatalf(f string, v ...any)        { std.Fatalf(f, v...) }
func Fatalln(v ...any)                 { std.Fatalln(v...) }
func Panic(v ...any)                   { std.Panic(v...) }
func Panicf(f string, v ...any)        { std.Panicf(f, v...) }
func Panicln(v ...any)                 { std.Panicln(v...) }
func Output(depth int, s string) error { return std.Output(depth, s) }
func SetFlags(int)                     {}
func Flags() int                       { return real.LstdFlags }
func SetPrefix(string)                 {}
func Prefix() string                   { return "" }
func SetOutput(io.Writer)              {}
func Writer() io.Writer                { return vos.Stderr }
