package main

import (
	"errors"
	"fmt"
	"strconv"
	"strings"

	"verifsim.local/hook"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
)

// The harness registers processors sim0..simN. What one does with an event is
// decided by its "act" option, or by a token "simK=act" in the event's
// original text; an act is a string of steps:
//
//	p put m.simK    q try-put m.simK   r delete m.simK   a append name to "log"
//	x put below a non-object and return that error
//	y yield         d drop             c cancel
//
// ended by o (succeed, the default), f (fail), m (missing key), w (wrapped
// missing key).
const numSim = 24

const maxTrace = 1 << 15

type traceRec struct {
	ev   int32
	proc int32
	task int32
	step int32
}

var (
	traceBuf [maxTrace]traceRec
	traceLen int

	// conAttempts counts constructions per sim type; conFail says which fail.
	conAttempts [numSim]int32
	conFail     [numSim][64]bool
	conPanic    [numSim][64]bool
	conHits     [256]int32 // faults met per task
)

//go:norace
func traceReset() { traceLen = 0 }

//go:norace
func traceAdd(ev, proc int) {
	if traceLen < maxTrace {
		traceBuf[traceLen] = traceRec{int32(ev), int32(proc), int32(hook.CurID()), int32(hook.Steps())}
		traceLen++
	}
}

// traceOf returns the processors that ran on an event, in order.
//
//go:norace
func traceOf(ev int) []int {
	var out []int
	for i := 0; i < traceLen; i++ {
		if int(traceBuf[i].ev) == ev {
			out = append(out, int(traceBuf[i].proc))
		}
	}
	return out
}

//go:norace
func traceCounts() [numSim]int {
	var out [numSim]int
	for i := 0; i < traceLen; i++ {
		out[traceBuf[i].proc]++
	}
	return out
}

//go:norace
func conReset() {
	for i := range conAttempts {
		conAttempts[i] = 0
		conFail[i] = [64]bool{}
		conPanic[i] = [64]bool{}
	}
	conHits = [256]int32{}
}

//go:norace
func hitsOf(task int) int32 {
	if task < 0 || task > 255 {
		return 0
	}
	return conHits[task]
}

//go:norace
func conNext(i int) (fail, pan bool) {
	n := conAttempts[i]
	conAttempts[i]++
	if n < 64 {
		if t := hook.CurID(); (conFail[i][n] || conPanic[i][n]) && t >= 0 && t < 256 {
			conHits[t]++
		}
		return conFail[i][n], conPanic[i][n]
	}
	return false, false
}

// SimConfig are the options of a sim processor.
type SimConfig struct {
	Act           string `config:"act"`
	Construct     string `config:"construct"`
	IgnoreFailure bool   `config:"ignore_failure"`
	IgnoreMissing bool   `config:"ignore_missing"`
	Tag           string `config:"tag"`
	N             int    `config:"n"`
}

// Sim is a scripted processor.
type Sim struct {
	idx    int
	config SimConfig
}

func (p *Sim) Config() SimConfig { return p.config }

func simName(i int) string { return "sim" + strconv.Itoa(i) }

func init() {
	for i := 0; i < numSim; i++ {
		i := i
		registry.MustRegister(simName(i), func(c SimConfig) (*Sim, error) {
			fail, pan := conNext(i)
			if pan {
				panic("sim constructor panics")
			}
			if fail || c.Construct == "error" {
				if i%2 == 1 {
					return &Sim{idx: i, config: c}, errors.New("sim constructor fails")
				}
				return nil, errors.New("sim constructor fails")
			}
			return &Sim{idx: i, config: c}, nil
		})
	}
	registry.MustRegister("noconfig", func(c SimConfig) (*noConfig, error) { return &noConfig{}, nil })
	registry.MustRegister("twoconfig", func(c SimConfig) (*twoConfig, error) { return &twoConfig{}, nil })
}

type noConfig struct{}

func (*noConfig) Process(processor.Event) error { return nil }

type twoConfig struct{}

func (*twoConfig) Process(processor.Event) error { return nil }
func (*twoConfig) Config() (SimConfig, error)    { return SimConfig{}, nil }

// originalText returns the text that scripts an event.
func originalText(e processor.Event) string {
	v := e.Get("event.original")
	if v == nil || v.Type != event.StringType {
		return ""
	}
	return v.String
}

// eventID parses the number in "e<number> ...".
func eventID(text string) int {
	if !strings.HasPrefix(text, "e") {
		return -1
	}
	n := 0
	for i := 1; i < len(text) && text[i] >= '0' && text[i] <= '9'; i++ {
		n = n*10 + int(text[i]-'0')
	}
	return n
}

// actFor finds the script of processor name for an event.
func actFor(text, name, def string) string {
	for _, f := range strings.Fields(text) {
		if strings.HasPrefix(f, name+"=") {
			return f[len(name)+1:]
		}
	}
	return def
}

func simErr(name string, id int) string { return fmt.Sprintf("simfail %s e%d", name, id) }

// Process runs the script.
func (p *Sim) Process(e processor.Event) error {
	text := originalText(e)
	id := eventID(text)
	name := simName(p.idx)
	traceAdd(id, p.idx)
	for _, c := range actFor(text, name, p.config.Act) {
		switch c {
		case 'p':
			if _, err := e.Put("m."+name, event.String("e"+strconv.Itoa(id)+"q"+name)); err != nil {
				return err
			}
		case 'q':
			e.TryPut("m."+name, event.String("try-e"+strconv.Itoa(id)+"q"))
		case 'r':
			e.Delete("m." + name)
		case 'a':
			old := ""
			if v := e.Get("log"); v != nil {
				old = v.String
			}
			if _, err := e.Put("log", event.String(old+","+name)); err != nil {
				return err
			}
		case 'x':
			if _, err := e.Put("event.original.below", event.Bool(true)); err != nil {
				return err
			}
		case 'y':
			hook.Y(32759)
		case 'd':
			noteFault("event dropped")
			e.Drop()
		case 'c':
			noteFault("event cancelled")
			e.Cancel()
		case 'f':
			noteFault("processor failure")
			return errors.New(simErr(name, id))
		case 'm':
			noteFault("missing key failure")
			return processor.ErrorKeyMissing{Key: simErr(name, id)}
		case 'w':
			noteFault("missing key failure")
			return fmt.Errorf("wrapped: %w", processor.ErrorKeyMissing{Key: simErr(name, id)})
		}
	}
	return nil
}
