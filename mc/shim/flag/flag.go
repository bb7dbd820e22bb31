// Package flag keeps one command line per virtual process.
package flag

import (
	real "flag"
	"io"
	"time"

	vos "verif/mc/shim/os"
	"verif/mc/vs"
)

type stdoutWriter struct{}

func (stdoutWriter) Write(b []byte) (int, error) { vos.WriteStdout(string(b)); return len(b), nil }

var outside = real.NewFlagSet("outside", real.ContinueOnError)

func cl() *real.FlagSet {
	g := vs.Cur()
	if g == nil || g.Proc == nil {
		return outside
	}
	var fs *real.FlagSet
	vs.IO(func() {
		if x, ok := g.Proc.Ext["flag"]; ok {
			fs = x.(*real.FlagSet)
			return
		}
		fs = real.NewFlagSet(g.Proc.Args[0], real.ContinueOnError)
		fs.SetOutput(stdoutWriter{})
		g.Proc.Ext["flag"] = fs
	})
	return fs
}

func Parse() {
	f := cl()
	args := vos.ProcArgs()[1:]
	switch err := f.Parse(args); err {
	case nil:
	case real.ErrHelp:
		vos.Exit(0)
	default:
		vos.Exit(2)
	}
}

func Bool(n string, v bool, u string) *bool                { return cl().Bool(n, v, u) }
func BoolVar(p *bool, n string, v bool, u string)          { cl().BoolVar(p, n, v, u) }
func Int(n string, v int, u string) *int                   { return cl().Int(n, v, u) }
func IntVar(p *int, n string, v int, u string)             { cl().IntVar(p, n, v, u) }
func Int64(n string, v int64, u string) *int64             { return cl().Int64(n, v, u) }
func Int64Var(p *int64, n string, v int64, u string)       { cl().Int64Var(p, n, v, u) }
func Uint(n string, v uint, u string) *uint                { return cl().Uint(n, v, u) }
func UintVar(p *uint, n string, v uint, u string)          { cl().UintVar(p, n, v, u) }
func Uint64(n string, v uint64, u string) *uint64          { return cl().Uint64(n, v, u) }
func Uint64Var(p *uint64, n string, v uint64, u string)    { cl().Uint64Var(p, n, v, u) }
func String(n string, v string, u string) *string          { return cl().String(n, v, u) }
func StringVar(p *string, n string, v string, u string)    { cl().StringVar(p, n, v, u) }
func Float64(n string, v float64, u string) *float64       { return cl().Float64(n, v, u) }
func Float64Var(p *float64, n string, v float64, u string) { cl().Float64Var(p, n, v, u) }
func Duration(n string, v time.Duration, u string) *time.Duration {
	return cl().Duration(n, v, u)
}
func DurationVar(p *time.Duration, n string, v time.Duration, u string) { cl().DurationVar(p, n, v, u) }
func Var(v real.Value, n string, u string)                              { cl().Var(v, n, u) }
func Func(n, u string, f func(string) error)                            { cl().Func(n, u, f) }
func Arg(i int) string                                                  { return cl().Arg(i) }
func Args() []string                                                    { return cl().Args() }
func NArg() int                                                         { return cl().NArg() }
func NFlag() int                                                        { return cl().NFlag() }
func Parsed() bool                                                      { return cl().Parsed() }
func Set(n, v string) error                                             { return cl().Set(n, v) }
func Lookup(n string) *real.Flag                                        { return cl().Lookup(n) }
func Visit(f func(*real.Flag))                                          { cl().Visit(f) }
func VisitAll(f func(*real.Flag))                                       { cl().VisitAll(f) }
func PrintDefaults()                                                    { cl().PrintDefaults() }
func Usage()                                                            { cl().Usage() }

var CommandLine = outside

var _ io.Writer = stdoutWriter{}
