// Package log is the simulator's stand-in for log: fatal messages end the
// simulated process, and the standard logger writes to the simulated stderr.
package log

import (
	"fmt"
	"io"
	orig "log"
	"log/slog"
	"time"

	"github.com/andrewkroh/go-sawmill/internal/verifsim/shim/os"
)

// Logger stands in for log.Logger.
type Logger struct {
	w      io.Writer
	prefix string
	flags  int
}

type stderr struct{}

func (stderr) Write(p []byte) (int, error) { return os.Stderr.Write(p) }

var std = New(stderr{}, "", orig.LstdFlags)

// Reset restores the initial state of the standard logger.
func Reset() {
	*std = Logger{w: stderr{}, flags: orig.LstdFlags}
	direct()
}

var initial = slog.Default()

// direct makes libraries that log, and log/slog, write to the simulated stderr.
func direct() {
	slog.SetDefault(initial)
	orig.SetOutput(stderr{})
	orig.SetFlags(0)
	orig.SetPrefix("")
}

func init() { direct() }

func New(w io.Writer, prefix string, flag int) *Logger { return &Logger{w, prefix, flag} }

func Default() *Logger { return std }

func (l *Logger) Output(depth int, s string) error {
	b := ""
	if l.flags&orig.Lmsgprefix == 0 {
		b += l.prefix
	}
	if l.flags&(orig.Ldate|orig.Ltime) != 0 {
		b += time.Unix(0, 0).UTC().Format("2006/01/02 15:04:05 ")
	}
	if l.flags&orig.Lmsgprefix != 0 {
		b += l.prefix
	}
	b += s
	if len(s) == 0 || s[len(s)-1] != '\n' {
		b += "\n"
	}
	_, err := l.w.Write([]byte(b))
	return err
}

func (l *Logger) Print(v ...interface{})            { l.Output(2, fmt.Sprint(v...)) }
func (l *Logger) Printf(f string, v ...interface{}) { l.Output(2, fmt.Sprintf(f, v...)) }
func (l *Logger) Println(v ...interface{})          { l.Output(2, fmt.Sprintln(v...)) }
func (l *Logger) Fatal(v ...interface{})            { l.Print(v...); os.Exit(1) }
func (l *Logger) Fatalf(f string, v ...interface{}) { l.Printf(f, v...); os.Exit(1) }
func (l *Logger) Fatalln(v ...interface{})          { l.Println(v...); os.Exit(1) }
func (l *Logger) Panic(v ...interface{})            { s := fmt.Sprint(v...); l.Output(2, s); panic(s) }
func (l *Logger) Panicf(f string, v ...interface{}) {
	s := fmt.Sprintf(f, v...)
	l.Output(2, s)
	panic(s)
}
func (l *Logger) Panicln(v ...interface{}) { s := fmt.Sprintln(v...); l.Output(2, s); panic(s) }
func (l *Logger) SetFlags(f int)           { l.flags = f }
func (l *Logger) Flags() int               { return l.flags }
func (l *Logger) SetPrefix(p string)       { l.prefix = p }
func (l *Logger) Prefix() string           { return l.prefix }
func (l *Logger) SetOutput(w io.Writer)    { l.w = w }
func (l *Logger) Writer() io.Writer        { return l.w }

func Print(v ...interface{})            { std.Print(v...) }
func Printf(f string, v ...interface{}) { std.Printf(f, v...) }
func Println(v ...interface{})          { std.Println(v...) }
func Fatal(v ...interface{})            { std.Fatal(v...) }
func Fatalf(f string, v ...interface{}) { std.Fatalf(f, v...) }
func Fatalln(v ...interface{})          { std.Fatalln(v...) }
func Panic(v ...interface{})            { std.Panic(v...) }
func Panicf(f string, v ...interface{}) { std.Panicf(f, v...) }
func Panicln(v ...interface{})          { std.Panicln(v...) }
func Output(depth int, s string) error  { return std.Output(depth, s) }
func SetFlags(f int)                    { std.SetFlags(f) }
func Flags() int                        { return std.Flags() }
func SetPrefix(p string)                { std.SetPrefix(p) }
func Prefix() string                    { return std.Prefix() }
func SetOutput(w io.Writer)             { std.SetOutput(w) }
func Writer() io.Writer                 { return std.Writer() }
