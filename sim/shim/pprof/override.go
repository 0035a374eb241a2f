// Package pprof writes profiles which the simulation determines.
//
// As in the original, a CPU profile is written while the program runs and
// when profiling stops, and errors of its writer are ignored.
package pprof

import (
	"errors"
	"io"

	"verifsim.local/hook"
)

// Chunks is the content of a profile: what is written at the start (CPU
// profiles only) and the rest.
var Chunks = func(kind string) (first, rest [][]byte) { return nil, [][]byte{[]byte(kind)} }

// On is told about profiling events.
var On = func(event string) {}

var cpu io.Writer

const site = 32745

// Reset belongs to the start of a simulated process.
func Reset() { cpu = nil }

func StartCPUProfile(w io.Writer) error {
	hook.Y(site)
	if cpu != nil {
		return errors.New("cpu profiling already in use")
	}
	cpu = w
	On("cpu start")
	first, _ := Chunks("cpu")
	for _, c := range first {
		w.Write(c)
	}
	return nil
}

func StopCPUProfile() {
	hook.Y(site)
	if cpu == nil {
		return
	}
	w := cpu
	cpu = nil
	On("cpu stop")
	_, rest := Chunks("cpu")
	for _, c := range rest {
		w.Write(c)
	}
}

func SetCPUProfileRate(int) {}

func WriteHeapProfile(w io.Writer) error { return write("heap", w) }

func write(kind string, w io.Writer) error {
	hook.Y(site)
	On(kind)
	first, rest := Chunks(kind)
	for _, c := range append(first, rest...) {
		if _, err := w.Write(c); err != nil {
			return err
		}
	}
	return nil
}

// Profile stands in for the original's collection of stack traces.
type Profile struct{ name string }

func Lookup(name string) *Profile {
	switch name {
	case "heap", "allocs", "goroutine", "threadcreate", "block", "mutex":
		return &Profile{name}
	}
	return nil
}

func NewProfile(name string) *Profile               { return &Profile{name} }
func Profiles() []*Profile                          { return []*Profile{Lookup("heap"), Lookup("goroutine")} }
func (p *Profile) Name() string                     { return p.name }
func (p *Profile) Count() int                       { return 0 }
func (p *Profile) Add(value interface{}, skip int)  {}
func (p *Profile) Remove(value interface{})         {}
func (p *Profile) WriteTo(w io.Writer, _ int) error { return write(p.name, w) }
