package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"sort"
	"strings"

	"verifsim.local/hook"
)

// Plan completely determines one simulated run.
type Plan struct {
	Prop    string        `json:"prop"`
	Seed    uint64        `json:"seed"`
	Variant string        `json:"variant,omitempty"`
	Pols    []hook.Policy `json:"pols,omitempty"`
	Limit   int           `json:"limit,omitempty"`
	Pipes   []*PDef       `json:"pipes,omitempty"`
	Events  []*EvSpec     `json:"events,omitempty"`
	Tasks   []*TaskPlan   `json:"tasks,omitempty"`
	CLI     *CLIPlan      `json:"cli,omitempty"`
	Gen     *GenPlan      `json:"gen,omitempty"`
	Flag    bool          `json:"flag,omitempty"`
	N       int           `json:"n,omitempty"`
	Faults  []Fault       `json:"faults,omitempty"`
}

// TaskPlan is what one task does, in order.
type TaskPlan struct {
	Ops []*Op `json:"ops,omitempty"`
}

// Op is one step of a task; the fields used depend on the property.
type Op struct {
	Op    string                 `json:"op"`
	I     int                    `json:"i,omitempty"`
	J     int                    `json:"j,omitempty"`
	Path  []string               `json:"path,omitempty"`
	To    []string               `json:"to,omitempty"`
	Key   string                 `json:"key,omitempty"`
	Val   *MV                    `json:"val,omitempty"`
	Opts  map[string]interface{} `json:"opts,omitempty"`
	Data  []byte                 `json:"data,omitempty"`
	Chunk []int                  `json:"chunk,omitempty"`
}

// Fault is an injected fault of plans without an own notion of faults.
type Fault struct {
	Kind string `json:"kind"`
	At   int    `json:"at,omitempty"`
	N    int    `json:"n,omitempty"`
	B    int    `json:"b,omitempty"`
}

// Violation is a broken property.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

func viol(class, format string, args ...interface{}) *Violation {
	return &Violation{class, fmt.Sprintf(format, args...)}
}

// Stats are collected over the runs of a worker.
type Stats struct {
	Runs       int                 `json:"runs"`
	Nontrivial int                 `json:"nontrivial"`
	SimRuns    int                 `json:"sim_runs"` // simulations (a plan may need several)
	Steps      int64               `json:"steps"`
	Switches   int64               `json:"switches"`
	MaxTasks   int                 `json:"max_tasks"`
	ExtBlocks  int64               `json:"ext_blocks"`
	Faults     map[string]int      `json:"faults"`
	Counts     map[string]int      `json:"counts"`
	Policies   map[string]int      `json:"policies"`
	Variants   map[string]int      `json:"variants"`
	Samples    []json.RawMessage   `json:"samples"`
	seen       map[uint64]struct{} // distinct nontrivial runs
	states     map[uint64]struct{} // distinct observed end states
	hash       uint64              // of everything observed, for determinism checks
	lastHash   uint64
	lastSwitch int
	lastFaults int
	rec        [][]hook.Switch
}

// Faults may be injected on any task, so counting them must not look like a
// race of the code under test.
var (
	faultNames [64]string
	faultNums  [64]int
	faultLen   int
	faultTotal int
)

//go:norace
func noteFault(kind string) {
	faultTotal++
	for i := 0; i < faultLen; i++ {
		if faultNames[i] == kind {
			faultNums[i]++
			return
		}
	}
	if faultLen < len(faultNames) {
		faultNames[faultLen] = kind
		faultNums[faultLen] = 1
		faultLen++
	}
}

func newStats() *Stats {
	return &Stats{Faults: map[string]int{}, Counts: map[string]int{}, Policies: map[string]int{}, Variants: map[string]int{},
		seen: map[uint64]struct{}{}, states: map[uint64]struct{}{}}
}

//go:norace
func (s *Stats) fault(kind string) {
	noteFault(kind)
}

func (s *Stats) count(kind string, n int) { s.Counts[kind] += n }

// state notes an observed state of the system under test.
func (s *Stats) state(text string) {
	h := hashString(text)
	s.states[h] = struct{}{}
	s.hash = mix(s.hash, h)
	if traceRuns {
		fmt.Fprintf(os.Stderr, "  state %q\n", text)
	}
}

// Property is one simulated property.
type Property struct {
	gen func(r *Rng, thorough bool) *Plan
	run func(p *Plan, s *Stats) *Violation
}

var properties = map[string]*Property{}

func (p *Plan) pol(i int) hook.Policy {
	if len(p.Pols) == 0 {
		return hook.Policy{Mode: "none"}
	}
	pol := p.Pols[0]
	if i < len(p.Pols) {
		pol = p.Pols[i]
	} else {
		pol = hook.Policy{Mode: "none", MapSeed: pol.MapSeed + uint64(i)}
	}
	switch pol.Mode {
	case "random", "pct", "list", "none":
	case "quantum":
		if pol.Quantum < 1 {
			pol.Quantum = 1
		}
	case "sites":
		if pol.Frac < 1 {
			pol.Frac = 1
		}
	default:
		pol.Mode = "none"
	}
	return pol
}

func genPolicy(r *Rng, length int) hook.Policy {
	p := hook.Policy{Seed: r.U64() >> 12, MapSeed: r.U64() >> 12}
	switch r.Weighted(1, 6, 5, 3, 4) {
	case 0:
		p.Mode = "none"
	case 1:
		p.Mode = "random"
		p.P = []float64{0.7, 0.3, 0.1, 0.03, 0.01, 0.003}[r.N(6)]
	case 2:
		p.Mode = "pct"
		p.Depth = r.Range(1, 8)
		p.Len = length
	case 3:
		p.Mode = "quantum"
		p.Quantum = []int{2, 5, 20, 80, 300, 1000}[r.N(6)]
	case 4:
		p.Mode = "sites"
		p.Frac = []int{2, 8, 32, 128}[r.N(4)]
		p.P = []float64{1, 0.5, 0.2}[r.N(3)]
	}
	if r.P(0.5) {
		p.PoolP = []float64{0.1, 0.5, 1}[r.N(3)]
	}
	if r.P(0.5) {
		// The clock has its own mind.
		p.Clock = []int{0, 10, 1000, 100000, -1}[r.N(5)]
		p.Start = []int64{0, 1, 999, -40 * 365 * 86400000, 80 * 365 * 86400000}[r.N(5)]
		if r.P(0.4) {
			p.JumpAt = 1 + r.N(length)
			p.Jump = []int64{1, 1000, -1000, 3600000, -3600000, 400 * 86400000}[r.N(6)]
		}
	}
	return p
}

// simulate runs the bodies under the i-th policy and judges how the run ended.
// Exiting is left to the caller.
func (s *Stats) simulate(p *Plan, i int, names []string, bodies []func()) (hook.Result, *Violation) {
	limit := p.Limit
	if limit <= 0 {
		limit = 4000000
	}
	pol := p.pol(i)
	races := hook.RaceErrors()
	res := hook.Run(pol, limit, names, bodies)
	s.SimRuns++
	s.Steps += int64(res.Steps)
	s.Switches += int64(len(res.Switches))
	s.ExtBlocks += int64(res.ExtBlocks)
	s.lastSwitch += len(res.Switches)
	s.Policies[pol.Mode]++
	if res.Tasks > s.MaxTasks {
		s.MaxTasks = res.Tasks
	}
	s.lastHash = mix(s.lastHash, res.Hash^uint64(res.Steps))
	for len(s.rec) <= i {
		s.rec = append(s.rec, nil)
	}
	s.rec[i] = res.Switches
	switch {
	case res.Panic != "":
		return res, viol("panic", "task panicked: %s\n%s", res.Panic, trimStack(res.PanicStack))
	case res.Deadlock:
		return res, viol("deadlock", "no task can continue after %d steps", res.Steps)
	case res.Overrun:
		return res, viol("hang", "not finished after %d steps", res.Steps)
	}
	if n := hook.RaceErrors() - races; n > 0 {
		return res, viol("race", "%d data race(s) reported by the race detector", n)
	}
	return res, nil
}

func trimStack(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "verifsim") || strings.HasPrefix(l, "runtime") || strings.HasPrefix(l, "goroutine") {
			continue
		}
		out = append(out, l)
	}
	if len(out) > 16 {
		out = out[:16]
	}
	return strings.Join(out, "\n")
}

// execute runs a plan. Panics of the harness goroutine itself come from code
// under test called outside a simulation.
func execute(p *Plan, s *Stats) (v *Violation) {
	pr := properties[p.Prop]
	if pr == nil {
		return nil
	}
	hook.Restore()
	traceReset()
	conReset()
	s.lastHash, s.lastSwitch, s.rec = 0, 0, nil
	before := faultTotal
	defer func() {
		if r := recover(); r != nil {
			if bug, ok := r.(harnessBug); ok {
				panic("HARNESS-BUG: " + string(bug))
			}
			v = viol("panic", "panic: %v\n%s", r, trimStack(stack()))
		}
		s.Runs++
		s.Variants[p.Variant]++
		s.lastFaults = faultTotal - before
		// A run is what was executed under which schedule and faults: the plan
		// without its seeds, and the switches that were made.
		q := *p
		q.Seed, q.Pols = 0, nil
		data, _ := json.Marshal(&q)
		h := mix(s.lastHash, hashString(string(data)))
		if s.lastSwitch > 2 || s.lastFaults > 0 {
			s.Nontrivial++
			s.seen[h] = struct{}{}
		}
		s.hash = mix(s.hash, h)
		if traceRuns {
			fmt.Fprintf(os.Stderr, "run %d: hash %x schedule %x switches %d plan %x\n", p.Seed, s.hash, s.lastHash, s.lastSwitch, hashString(string(data)))
		}
		if v != nil {
			s.hash = mix(s.hash, hashString(v.Class))
		}
	}()
	return pr.run(p, s)
}

// harnessBug is a panic that is not the fault of the code under test.
type harnessBug string

func (b harnessBug) Error() string { return "HARNESS-BUG: " + string(b) }

func planFor(prop string, seed uint64, thorough bool) *Plan {
	pr := properties[prop]
	p := pr.gen(newRng(mix(seed, hashString(prop))), thorough)
	p.Prop, p.Seed = prop, seed
	// Always go through the file format.
	data, err := json.Marshal(p)
	if err != nil {
		panic(harnessBug(err.Error()))
	}
	return decodePlan(data)
}

func decodePlan(data []byte) *Plan {
	var q Plan
	if err := json.Unmarshal(data, &q); err != nil {
		panic(harnessBug(err.Error()))
	}
	q.sanitize()
	return &q
}

// sanitize removes what shrinking may leave and no generator makes: it must
// not turn a plan into one whose outcome the models do not describe. A plan
// as generated passes unchanged.
func (p *Plan) sanitize() {
	p.Pipes = dropNilPipes(p.Pipes)
	var evs []*EvSpec
	ids := map[int]string{}
	for _, e := range p.Events {
		if e == nil || e.ID < 1 || eventID(e.Text) != e.ID {
			continue
		}
		for k, v := range e.Fields {
			if k == "" || !v.known() {
				delete(e.Fields, k)
				continue
			}
			e.Fields[k] = v.fix(false)
		}
		data, _ := json.Marshal(e)
		if old, ok := ids[e.ID]; ok && old != string(data) {
			continue
		}
		ids[e.ID] = string(data)
		evs = append(evs, e)
	}
	p.Events = evs
	for i, t := range p.Tasks {
		if t == nil {
			p.Tasks[i] = &TaskPlan{}
			continue
		}
		var ops []*Op
		for _, o := range t.Ops {
			if o == nil {
				continue
			}
			if o.Val != nil && !o.Val.isNil() {
				if !o.Val.known() {
					o.Val.T = "null"
				}
				o.Val = o.Val.fix(true)
			}
			if p.Prop == "C11" {
				o.Path, o.To = sanePath(o.Path), sanePath(o.To)
				o.To = sanePath(o.To)
			}
			if p.Prop == "C14" {
				for _, k := range []string{"m", "list", "subs"} {
					if x, ok := o.Opts[k]; ok {
						if _, ok := saneOption(x); !ok {
							delete(o.Opts, k)
						}
					}
				}
			}
			ops = append(ops, o)
		}
		t.Ops = ops
	}
	if p.CLI != nil {
		p.CLI.sanitize()
	}
	if p.Gen != nil {
		p.Gen.sanitize()
	}
}

func dropNilPipes(ds []*PDef) []*PDef {
	var out []*PDef
	for _, d := range ds {
		if d == nil {
			continue
		}
		d.Procs = dropNilProcs(d.Procs)
		d.OnFailure = dropNilProcs(d.OnFailure)
		out = append(out, d)
	}
	return out
}

func dropNilProcs(ps []*PProc) []*PProc {
	var out []*PProc
	for _, p := range ps {
		if p == nil || !p.sane() {
			continue
		}
		p.OnFailure = dropNilProcs(p.OnFailure)
		out = append(out, p)
	}
	return out
}

func sortedNames(m map[string]int) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func init() { traceRuns = os.Getenv("VERIFSIM_TRACE") != "" }

var traceRuns bool

func sanePath(ks []string) []string {
	var out []string
	for _, k := range ks {
		if k != "" {
			out = append(out, k)
		}
	}
	return out
}

var mvTypes = map[string]bool{"null": true, "bool": true, "float": true, "int": true, "uint": true, "str": true, "time": true, "arr": true, "obj": true, "nil": true}

func (v *MV) known() bool { return v != nil && mvTypes[v.T] }

// fix drops inner values that are none; nil values are kept on request.
func (v *MV) fix(nils bool) *MV {
	c := *v
	c.A, c.O = nil, nil
	if f := math.Float64frombits(c.U); c.T == "float" && (math.IsNaN(f) || math.IsInf(f, 0)) {
		c.U = 0
	}
	ok := func(x *MV) bool { return x.known() && (nils || x.T != "nil") || nils && x == nil }
	if c.T == "arr" {
		for _, x := range v.A {
			if ok(x) {
				c.A = append(c.A, x.fixIn(nils))
			}
		}
	}
	if c.T == "obj" {
		c.O = map[string]*MV{}
		for k, x := range v.O {
			if ok(x) {
				c.O[k] = x.fixIn(nils)
			}
		}
	}
	return &c
}

func (v *MV) fixIn(nils bool) *MV {
	if v == nil {
		return nil
	}
	return v.fix(nils)
}

// saneField reports whether a field name of a definition is one the models
// know.
func saneField(x interface{}) bool {
	f, ok := x.(string)
	if !ok || f == "" || strings.ContainsAny(f, "\\") {
		return false
	}
	for _, k := range strings.Split(f, ".") {
		if k == "" {
			return false
		}
	}
	return true
}

// saneOption drops empty containers, which the configuration library does
// not keep.
func saneOption(x interface{}) (interface{}, bool) {
	switch x := x.(type) {
	case nil:
		return nil, false
	case map[string]interface{}:
		for k, y := range x {
			z, ok := saneOption(y)
			if !ok || k == "" || strings.Contains(k, ".") {
				delete(x, k)
				continue
			}
			x[k] = z
		}
		return x, len(x) > 0
	case []interface{}:
		var out []interface{}
		for _, y := range x {
			if z, ok := saneOption(y); ok {
				out = append(out, z)
			}
		}
		return out, len(out) > 0
	}
	return x, true
}

// sane reports whether an entry of a definition is one a generator makes.
func (p *PProc) sane() bool {
	if p.Bad != "" && !badProcs[p.Bad] {
		return false
	}
	for k, v := range p.Opts {
		x, ok := saneOption(v)
		if v == nil && simIndex(p.Type) >= 0 {
			continue // an option without value
		}
		if !ok {
			delete(p.Opts, k)
			continue
		}
		p.Opts[k] = x
		switch k {
		case "field", "target_field", "copy_from":
			if !saneField(x) {
				return false
			}
		}
	}
	has := func(k string) bool { return p.Opts[k] != nil }
	switch p.Type {
	case "set":
		return has("target_field") && has("value") != has("copy_from")
	case "append":
		return has("field") && has("value") != has("copy_from")
	case "lowercase", "uppercase":
		return has("field")
	}
	i := simIndex(p.Type)
	return i >= 0 && i < numSim && simName(i) == p.Type
}

var badProcs = map[string]bool{"empty": true, "two": true, "unknown": true, "option": true, "construct": true, "noconfig": true,
	"twoconfig": true, "required": true, "required2": true, "odd": true, "nilopts": true}
