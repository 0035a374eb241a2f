// Package flag gives every simulated main package a flag set of its own.
package flag

import (
	orig "flag"
	"time"

	"github.com/andrewkroh/go-sawmill/internal/verifsim/shim/os"
)

var CommandLine = orig.NewFlagSet("prog", orig.ContinueOnError)

// Usage as in flag.
var Usage = func() { CommandLine.PrintDefaults() }

// first is what was defined before main ran.
var first *orig.FlagSet

// Reset starts a process: the flags are those defined by package
// initialisation, with their defaults.
func Reset() {
	if first == nil {
		first = CommandLine
	}
	fs := orig.NewFlagSet("prog", orig.ContinueOnError)
	first.VisitAll(func(f *orig.Flag) {
		f.Value.Set(f.DefValue)
		fs.Var(f.Value, f.Name, f.Usage)
	})
	CommandLine = fs
}

type stderr struct{}

func (stderr) Write(p []byte) (int, error) { return os.Stderr.Write(p) }

func Parse() {
	CommandLine.SetOutput(stderr{})
	CommandLine.Usage = func() { Usage() }
	err := CommandLine.Parse(os.Args[1:])
	if err == orig.ErrHelp {
		os.Exit(0)
	}
	if err != nil {
		os.Exit(2)
	}
}

func Parsed() bool                     { return CommandLine.Parsed() }
func Args() []string                   { return CommandLine.Args() }
func Arg(i int) string                 { return CommandLine.Arg(i) }
func NArg() int                        { return CommandLine.NArg() }
func NFlag() int                       { return CommandLine.NFlag() }
func PrintDefaults()                   { CommandLine.PrintDefaults() }
func Lookup(n string) *orig.Flag       { return CommandLine.Lookup(n) }
func Set(n, v string) error            { return CommandLine.Set(n, v) }
func Visit(f func(*orig.Flag))         { CommandLine.Visit(f) }
func VisitAll(f func(*orig.Flag))      { CommandLine.VisitAll(f) }
func Var(v orig.Value, name, u string) { CommandLine.Var(v, name, u) }

func StringVar(p *string, name, v, u string)         { CommandLine.StringVar(p, name, v, u) }
func String(name, v, u string) *string               { return CommandLine.String(name, v, u) }
func BoolVar(p *bool, name string, v bool, u string) { CommandLine.BoolVar(p, name, v, u) }
func Bool(name string, v bool, u string) *bool       { return CommandLine.Bool(name, v, u) }
func IntVar(p *int, name string, v int, u string)    { CommandLine.IntVar(p, name, v, u) }
func Int(name string, v int, u string) *int          { return CommandLine.Int(name, v, u) }
func Int64Var(p *int64, name string, v int64, u string) {
	CommandLine.Int64Var(p, name, v, u)
}
func Int64(name string, v int64, u string) *int64 { return CommandLine.Int64(name, v, u) }
func UintVar(p *uint, name string, v uint, u string) {
	CommandLine.UintVar(p, name, v, u)
}
func Uint(name string, v uint, u string) *uint { return CommandLine.Uint(name, v, u) }
func Uint64Var(p *uint64, name string, v uint64, u string) {
	CommandLine.Uint64Var(p, name, v, u)
}
func Uint64(name string, v uint64, u string) *uint64 { return CommandLine.Uint64(name, v, u) }
func Float64Var(p *float64, name string, v float64, u string) {
	CommandLine.Float64Var(p, name, v, u)
}
func Float64(name string, v float64, u string) *float64 { return CommandLine.Float64(name, v, u) }
func DurationVar(p *time.Duration, name string, v time.Duration, u string) {
	CommandLine.DurationVar(p, name, v, u)
}
func Duration(name string, v time.Duration, u string) *time.Duration {
	return CommandLine.Duration(name, v, u)
}
func Func(name, u string, fn func(string) error) { CommandLine.Func(name, u, fn) }
