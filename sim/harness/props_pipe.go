package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"
	"verifsim.local/hook"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
)

func init() {
	properties["C01"] = &Property{genC01, runC01}
	properties["C02"] = &Property{genC02, runC02}
	properties["C03"] = &Property{genC03, runC03}
	properties["C04"] = &Property{genC04, runC04}
	properties["C05"] = &Property{genC05, runC05}
	properties["C09"] = &Property{genC09, runC09}
}

// seen is what a caller saw of one call.
type seen struct {
	evt   *event.Event
	got   *MV // content when returned
	err   string
	isErr bool
	after *MV // content after the owner changed it
	done  bool
}

func (x *seen) String() string {
	if x.isErr {
		return "error " + strconv.Quote(x.err)
	}
	if x.got == nil {
		return "no event"
	}
	return x.got.String()
}

func observe(evt *event.Event, err error) *seen {
	x := &seen{evt: evt, done: true}
	if err != nil {
		x.isErr, x.err = true, err.Error()
	}
	if evt != nil {
		x.got = content(evt)
	}
	return x
}

func (x *seen) same(y *seen) string {
	if x.isErr != y.isErr || x.err != y.err {
		return fmt.Sprintf("want %s, got %s", x, y)
	}
	if (x.got == nil) != (y.got == nil) {
		return fmt.Sprintf("want %s, got %s", x, y)
	}
	if x.got == nil {
		return ""
	}
	return diff(x.got, y.got)
}

// ownerChanges is what the owner of a returned event does to it: change every
// value it can reach.
func ownerChanges(e *event.Event, token string) {
	if e == nil {
		return
	}
	root := e.Get(".")
	if root == nil {
		return
	}
	changeValue(root, token, 0)
}

func changeValue(v *event.Value, token string, depth int) {
	if v == nil || depth > 50 {
		return
	}
	switch v.Type {
	case event.ObjectType:
		for _, k := range sortedKeys(v.Object) {
			changeValue(v.Object[k], token, depth+1)
		}
	case event.ArrayType:
		for _, x := range v.Array {
			changeValue(x, token, depth+1)
		}
	}
	changeNode(v, token)
}

// changeNode changes a value in place, without its elements.
func changeNode(v *event.Value, token string) {
	switch v.Type {
	case event.ObjectType:
		if v.Object != nil {
			v.Object["own"] = event.String(token)
		}
	case event.ArrayType:
		v.Array = append(v.Array, event.String(token))
	case event.StringType:
		v.String += token
	case event.IntegerType:
		v.Integer += 1000003
	case event.UnsignedIntegerType:
		v.UnsignedInteger += 1000003
	case event.FloatType:
		v.Float += 1000003
	case event.BoolType:
		v.Bool = !v.Bool
	case event.TimestampType:
		v.Timestamp.UnixNanos += 1000003
	}
}

// aliased changes every value of an event in place, one by one, and reports
// if something else changes with it.
func aliased(e *event.Event) string {
	root := e.Get(".")
	if root == nil {
		return ""
	}
	type node struct {
		v    *event.Value
		path string
	}
	var nodes []node
	var walk func(v *event.Value, path string)
	walk = func(v *event.Value, path string) {
		if v == nil || v.Type == event.NullType || len(nodes) > 60 {
			return
		}
		switch v.Type {
		case event.ObjectType:
			for _, k := range sortedKeys(v.Object) {
				walk(v.Object[k], path+"/"+k)
			}
		case event.ArrayType:
			for i, x := range v.Array {
				walk(x, path+"/"+strconv.Itoa(i))
			}
		}
		if path != "" {
			nodes = append(nodes, node{v, path})
		}
	}
	walk(root, "")
	for i, n := range nodes {
		before := map[string]string{}
		flatten(fromValue(root), "", before)
		changeNode(n.v, "alias"+strconv.Itoa(i))
		after := map[string]string{}
		flatten(fromValue(root), "", after)
		for _, m := range []map[string]string{before, after} {
			for _, k := range fileNames(m) {
				if before[k] != after[k] && k != n.path && !strings.HasPrefix(k, n.path+"/") {
					return fmt.Sprintf("changing the value of %s also changed %s from %s to %s", n.path, k, before[k], after[k])
				}
			}
		}
	}
	return ""
}

// flatten lists the leaves and containers of a value by path.
func flatten(v *MV, path string, out map[string]string) {
	switch {
	case v.isNil():
		out[path] = "none"
	case v.T == "obj":
		out[path] = "object"
		for _, k := range v.keys() {
			flatten(v.O[k], path+"/"+k, out)
		}
	case v.T == "arr":
		out[path] = "array"
		for i, x := range v.A {
			flatten(x, path+"/"+strconv.Itoa(i), out)
		}
	default:
		out[path] = v.String()
	}
}

// alone processes one event on a pipeline of its own.
func alone(d *PDef, e *EvSpec) *seen {
	pipe, err := pipeline.New(d.config())
	if err != nil {
		return &seen{isErr: true, err: "build: " + err.Error()}
	}
	return observe(pipe.Process(e.build()))
}

// fresh is alone in a fresh process.
func fresh(d *PDef, e *EvSpec) *seen {
	hook.Restore()
	return alone(d, e)
}

func buildPipes(p *Plan) []*pipeline.Pipeline {
	var out []*pipeline.Pipeline
	for _, d := range p.Pipes {
		pipe, err := pipeline.New(d.config())
		if err != nil {
			return nil
		}
		out = append(out, pipe)
	}
	return out
}

func (p *Plan) callOK(o *Op) bool {
	return o.I >= 0 && o.I < len(p.Events) && o.J >= 0 && o.J < len(p.Pipes)
}

// --- C01 -------------------------------------------------------------------

func genC01(r *Rng, thorough bool) *Plan {
	p := &Plan{Variant: "callers"}
	g := &defGen{max: r.Range(1, 7), depth: 2, builtin: []float64{0.2, 0.5, 0.8, 1}[r.N(4)], stop: 0.05, seedName: "f" + strconv.Itoa(r.N(100000))}
	g.twins = r.P(0.15)
	npipes := 1
	if r.P(0.2) {
		npipes = 2
	}
	for i := 0; i < npipes; i++ {
		p.Pipes = append(p.Pipes, g.def(r, "p"+strconv.Itoa(i)))
	}
	tasks := r.Range(2, 4)
	if thorough && r.P(0.3) {
		tasks = r.Range(4, 8)
	}
	if r.P(0.03) {
		tasks = r.Range(8, 24) // a crowd
	}
	id := 0
	builds := r.P(0.15) // callers also build pipelines
	for t := 0; t < tasks; t++ {
		tp := &TaskPlan{}
		for n := r.Range(1, 4); n > 0; n-- {
			j := r.N(npipes)
			if id > 0 && r.P(0.15) {
				// The same input in another task.
				p.Events = append(p.Events, p.Events[r.N(len(p.Events))])
			} else {
				p.Events = append(p.Events, g.event(r, p.Pipes[j], len(p.Events)+1))
			}
			op := "process"
			if builds && r.P(0.3) {
				op = "build"
			}
			tp.Ops = append(tp.Ops, &Op{Op: op, I: id, J: j})
			id++
		}
		p.Tasks = append(p.Tasks, tp)
	}
	if r.P(0.03) {
		// Long enough for what leaks to run out.
		p.longCalls(r, g, tasks)
	}
	p.Pols = append(p.Pols, genPolicy(r, 1500*len(p.Events)))
	p.Flag = r.P(0.5)
	return p
}

// longCalls makes the calls many, of few events.
func (p *Plan) longCalls(r *Rng, g *defGen, tasks int) {
	g.max, g.stop = min(g.max, 3), 0.3
	p.Pipes = []*PDef{g.def(r, "p0")}
	p.Events, p.Tasks = nil, nil
	for n := r.Range(1, 4); n > 0; n-- {
		p.Events = append(p.Events, g.event(r, p.Pipes[0], len(p.Events)+1))
	}
	for ; tasks > 0; tasks-- {
		tp := &TaskPlan{}
		for n := r.Range(60, 300); n > 0; n-- {
			tp.Ops = append(tp.Ops, &Op{Op: "process", I: r.N(len(p.Events))})
		}
		p.Tasks = append(p.Tasks, tp)
	}
}

func runC01(p *Plan, s *Stats) *Violation {
	wants := map[[2]int]*seen{}
	for _, tp := range p.Tasks {
		for _, o := range tp.Ops {
			if k := [2]int{o.J, o.I}; p.callOK(o) && wants[k] == nil {
				wants[k] = fresh(p.Pipes[o.J], p.Events[o.I])
			}
		}
	}
	hook.Restore()
	traceReset()
	pipes := buildPipes(p)
	if pipes == nil {
		return nil
	}
	results := make([][]*seen, len(p.Tasks))
	var names []string
	var bodies []func()
	for t, tp := range p.Tasks {
		t, ops := t, tp.Ops
		results[t] = make([]*seen, len(ops))
		names = append(names, "caller"+strconv.Itoa(t))
		bodies = append(bodies, func() {
			for k, o := range ops {
				if !p.callOK(o) {
					continue
				}
				pipe := pipes[o.J]
				if o.Op == "build" {
					// One more pipeline like it comes into being.
					other, err := pipeline.New(p.Pipes[o.J].config())
					if err != nil {
						results[t][k] = &seen{err: "not built: " + err.Error(), isErr: true}
						continue
					}
					if o.I%2 == 0 {
						pipe = other
					}
				}
				x := observe(pipe.Process(p.Events[o.I].build()))
				if x.isErr && x.evt != nil {
					x.err += " (and an event)"
				}
				if p.Flag {
					ownerChanges(x.evt, "owner"+strconv.Itoa(t))
				}
				if x.evt != nil {
					x.after = content(x.evt)
				}
				results[t][k] = x
			}
		})
	}
	res, v := s.simulate(p, 0, names, bodies)
	if v != nil {
		return v
	}
	if res.Exited {
		return viol("exit", "processing ended the process with status %d", res.ExitCode)
	}
	for t, tp := range p.Tasks {
		for k, o := range tp.Ops {
			x := results[t][k]
			if x == nil {
				continue
			}
			s.count("calls", 1)
			want := wants[[2]int{o.J, o.I}]
			if d := want.same(x); d != "" {
				return viol("isolation", "caller %d call %d (event e%d): differs from running alone: %s", t, k, p.Events[o.I].ID, d)
			}
			if x.evt != nil {
				if d := diff(x.after, content(x.evt)); d != "" {
					return viol("later-change", "caller %d call %d (event e%d): returned event changed afterwards: %s", t, k, p.Events[o.I].ID, d)
				}
			}
			s.state(x.String())
		}
	}
	return nil
}

// --- C02 -------------------------------------------------------------------

func genC02(r *Rng, thorough bool) *Plan {
	p := &Plan{Variant: "history"}
	g := &defGen{max: r.Range(1, 7), depth: 2, builtin: []float64{0.3, 0.6, 1}[r.N(3)], stop: 0.08, seedName: "f" + strconv.Itoa(r.N(100000))}
	g.twins = r.P(0.15)
	if r.P(0.4) {
		g.focus(r)
		g.max = r.Range(4, 12)
		g.builtin = 0.9
	}
	p.Pipes = []*PDef{g.def(r, "p")}
	tp := &TaskPlan{}
	n := r.Range(2, 10)
	if thorough {
		n = r.Range(2, 40)
	}
	if r.P(0.04) {
		// Long enough for caches to fill and thresholds to be passed.
		n = r.Range(100, 400)
		g.max = min(g.max, 3)
		if r.P(0.6) {
			g.focus(r)
			g.builtin, g.twins, g.max = 1, true, r.Range(1, 3)
		}
		p.Pipes = []*PDef{g.def(r, "p")}
	}
	for i := 0; i < n; i++ {
		if i > 0 && r.P(0.3) {
			tp.Ops = append(tp.Ops, &Op{Op: "process", I: r.N(len(p.Events))})
			continue
		}
		if i > 1 && r.P(0.2) {
			tp.Ops = append(tp.Ops, &Op{Op: "change", I: r.N(i)})
			continue
		}
		p.Events = append(p.Events, g.event(r, p.Pipes[0], i+1))
		tp.Ops = append(tp.Ops, &Op{Op: "process", I: len(p.Events) - 1})
	}
	p.Tasks = []*TaskPlan{tp}
	if r.P(0.02) {
		p.longCalls(r, g, 1)
	}
	pol := hook.Policy{Mode: "none", MapSeed: r.U64() >> 12, Seed: r.U64() >> 12, PoolP: []float64{0, 0, 0.3, 1}[r.N(4)]}
	p.Pols = []hook.Policy{pol, pol}
	p.Flag = r.P(0.7)
	return p
}

func runC02(p *Plan, s *Stats) *Violation {
	if len(p.Pipes) != 1 || len(p.Tasks) != 1 {
		return nil
	}
	d := p.Pipes[0]
	want := make([]*seen, len(p.Events))
	wantTrace := make([][]int, len(p.Events))
	for _, o := range p.Tasks[0].Ops {
		if o.Op == "change" || !p.callOK(o) || want[o.I] != nil {
			continue
		}
		traceReset()
		w := fresh(d, p.Events[o.I])
		want[o.I] = w
		wantTrace[o.I] = traceOf(p.Events[o.I].ID)
		if w.evt == nil {
			continue
		}
		// The fields of a returned event are independent of each other.
		if df := aliased(w.evt); df != "" {
			return viol("shared-field", "event e%d: %s", p.Events[o.I].ID, df)
		}
		s.count("field independence", 1)
	}
	for pass := 0; pass < 2; pass++ {
		hook.Restore()
		traceReset()
		pipes := buildPipes(p)
		if pipes == nil {
			return nil
		}
		pipe := pipes[0]
		ops := append([]*Op(nil), p.Tasks[0].Ops...)
		if pass == 1 {
			for i, j := 0, len(ops)-1; i < j; i, j = i+1, j-1 {
				ops[i], ops[j] = ops[j], ops[i]
			}
		}
		results := make([]*seen, len(ops))
		res, v := s.simulate(p, pass, []string{"caller"}, []func(){func() {
			for k, o := range ops {
				if o.Op == "change" {
					// The owner of an earlier result changes it.
					if o.I < 0 || o.I >= k || results[o.I] == nil || results[o.I].evt == nil {
						continue
					}
					ownerChanges(results[o.I].evt, "late"+strconv.Itoa(k))
					results[o.I].after = content(results[o.I].evt)
					s.count("late changes", 1)
					continue
				}
				if !p.callOK(o) {
					continue
				}
				x := observe(pipe.Process(p.Events[o.I].build()))
				if p.Flag {
					ownerChanges(x.evt, "owner"+strconv.Itoa(k))
				}
				if x.evt != nil {
					x.after = content(x.evt)
				}
				results[k] = x
			}
		}})
		if v != nil {
			return v
		}
		if res.Exited {
			return viol("exit", "processing ended the process with status %d", res.ExitCode)
		}
		for k, o := range ops {
			x := results[k]
			if x == nil {
				continue
			}
			s.count("calls", 1)
			if df := want[o.I].same(x); df != "" {
				return viol("history", "pass %d call %d (event e%d): differs from the same event on a fresh pipeline: %s", pass, k, p.Events[o.I].ID, df)
			}
			if x.evt != nil {
				if df := diff(x.after, content(x.evt)); df != "" {
					return viol("later-change", "pass %d call %d (event e%d): returned event changed afterwards: %s", pass, k, p.Events[o.I].ID, df)
				}
			}
			s.state(x.String())
		}
	}
	// Copies are independent: the result is the one of value semantics.
	for i, w := range want {
		if w == nil || w.isErr || w.got == nil {
			continue
		}
		m := runModel(d, p.Events[i].root())
		if m.Err != nil || m.Dropped || !sameInts(m.Trace, wantTrace[i]) {
			continue
		}
		s.count("model comparisons", 1)
		if df := diff(m.Root, w.got); df != "" {
			return viol("shared-value", "event e%d: result is not the one of independent copies: %s", p.Events[i].ID, df)
		}
	}
	return nil
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// --- C03, C04 --------------------------------------------------------------

func genC03(r *Rng, thorough bool) *Plan {
	return genFailure(r, thorough, 0)
}

func genC04(r *Rng, thorough bool) *Plan {
	if r.P(0.2) {
		return genCLIPlan(r, thorough, "C04")
	}
	return genFailure(r, thorough, []float64{0.1, 0.3, 0.6}[r.N(3)])
}

func genFailure(r *Rng, thorough bool, stop float64) *Plan {
	p := &Plan{Variant: "direct"}
	g := &defGen{max: r.Range(1, 12), depth: 3, stop: stop}
	if r.P(0.2) {
		g.builtin = 0.2
	}
	if r.P(0.1) {
		g.depth = 6
	}
	p.Pipes = []*PDef{g.def(r, "p")}
	tasks := 1
	if r.P(0.3) {
		tasks = r.Range(2, 3)
	}
	for t := 0; t < tasks; t++ {
		tp := &TaskPlan{}
		for n := r.Range(1, 8); n > 0; n-- {
			p.Events = append(p.Events, g.event(r, p.Pipes[0], len(p.Events)+1))
			tp.Ops = append(tp.Ops, &Op{Op: "process", I: len(p.Events) - 1})
		}
		p.Tasks = append(p.Tasks, tp)
	}
	p.Pols = []hook.Policy{genPolicy(r, 1500*len(p.Events))}
	return p
}

func runC03(p *Plan, s *Stats) *Violation { return runFailure(p, s) }

func runC04(p *Plan, s *Stats) *Violation {
	if p.CLI != nil {
		return runCLIPlan(p, s)
	}
	return runFailure(p, s)
}

func runFailure(p *Plan, s *Stats) *Violation {
	if len(p.Pipes) != 1 {
		return nil
	}
	pipes := buildPipes(p)
	if pipes == nil {
		return nil
	}
	d, pipe := p.Pipes[0], pipes[0]
	type call struct {
		x   *seen
		err error
	}
	results := make([]*call, len(p.Events))
	var names []string
	var bodies []func()
	used := make([]bool, len(p.Events))
	ids := map[int]int{}
	for _, e := range p.Events {
		ids[e.ID]++
	}
	for t, tp := range p.Tasks {
		var ops []*Op
		for _, o := range tp.Ops {
			if p.callOK(o) && !used[o.I] && ids[p.Events[o.I].ID] == 1 && eventID(p.Events[o.I].Text) == p.Events[o.I].ID {
				used[o.I] = true
				ops = append(ops, o)
			}
		}
		names = append(names, "caller"+strconv.Itoa(t))
		bodies = append(bodies, func() {
			for _, o := range ops {
				evt, err := pipe.Process(p.Events[o.I].build())
				results[o.I] = &call{observe(evt, err), err}
			}
		})
	}
	res, v := s.simulate(p, 0, names, bodies)
	if v != nil {
		return v
	}
	if res.Exited {
		return viol("exit", "processing ended the process with status %d", res.ExitCode)
	}
	for i, c := range results {
		if c == nil {
			continue
		}
		e := p.Events[i]
		m := runModel(d, e.root())
		s.count("calls", 1)
		switch {
		case m.Dropped:
			s.count("dropped", 1)
		case m.Cancelled:
			s.count("cancelled", 1)
		case m.Err != nil:
			s.count("failed", 1)
		}
		if v := judge(d, e, m, c.x, c.err); v != nil {
			return v
		}
		s.state(fmt.Sprint(m.Trace, c.x.isErr, c.x.got == nil))
	}
	return nil
}

// judge compares a call with the reference model.
func judge(d *PDef, e *EvSpec, m *outcome, x *seen, err error) *Violation {
	if tr := traceOf(e.ID); !sameInts(tr, m.Trace) {
		return viol("order", "event e%d: processors ran %v, want %v", e.ID, tr, m.Trace)
	}
	switch {
	case m.Dropped:
		if x.got != nil || x.isErr {
			return viol("drop", "event e%d was dropped, but the caller got %s", e.ID, x)
		}
		return nil
	case m.Err != nil:
		if !x.isErr {
			return viol("outcome", "event e%d: want a failure, got %s", e.ID, x)
		}
		if x.got != nil {
			return viol("outcome", "event e%d: got both an event and error %q", e.ID, x.err)
		}
		if m.Err.text != "" && !strings.Contains(x.err, m.Err.text) {
			return viol("error", "event e%d: want failure %q, got %q", e.ID, m.Err.text, x.err)
		}
		if m.Err.text == "" && strings.Contains(x.err, "simfail") && !strings.Contains(x.err, "not an object") {
			return viol("error", "event e%d: want the failure of the last processor, got %q", e.ID, x.err)
		}
		return nil
	}
	if x.isErr {
		return viol("outcome", "event e%d: want the event, got error %q", e.ID, x.err)
	}
	if x.got == nil {
		return viol("outcome", "event e%d: want the event, got nothing", e.ID)
	}
	if df := diff(m.Root, x.got); df != "" {
		return viol("content", "event e%d: %s", e.ID, df)
	}
	return nil
}

// --- C05 -------------------------------------------------------------------

func genC05(r *Rng, thorough bool) *Plan {
	p := genFailure(r, thorough, []float64{0, 0.05, 0.2}[r.N(3)])
	p.Pipes[0].walk(func(q *PProc, depth int) {})
	for len(p.Tasks) < 2 && r.P(0.7) {
		tp := &TaskPlan{}
		g := &defGen{stop: 0.05}
		for n := r.Range(1, 4); n > 0; n-- {
			p.Events = append(p.Events, g.event(r, p.Pipes[0], len(p.Events)+1))
			tp.Ops = append(tp.Ops, &Op{Op: "process", I: len(p.Events) - 1})
		}
		p.Tasks = append(p.Tasks, tp)
	}
	p.Variant = "counters"
	p.Flag = r.P(0.6)
	p.N = r.Range(1, 12)
	return p
}

type sample struct {
	name, typ, id string
	v             float64
}

var metricKinds = []string{"discarded", "errors", "sent", "received"}

// readCounters reads the component counters; received ones last.
func readCounters(cs []prometheus.Collector) []sample {
	var out []sample
	for pass := 0; pass < 2; pass++ {
		for _, c := range cs {
			ch := make(chan prometheus.Metric, 64)
			c.Collect(ch)
			close(ch)
			for m := range ch {
				name := metricName(m.Desc().String())
				if (name == "es_component_received_events_total") != (pass == 1) {
					continue
				}
				var d dto.Metric
				if m.Write(&d) != nil {
					continue
				}
				x := sample{name: name}
				for _, l := range d.Label {
					switch l.GetName() {
					case "component_type":
						x.typ = l.GetValue()
					case "component_id":
						x.id = l.GetValue()
					}
				}
				x.v = d.GetCounter().GetValue()
				if d.Counter == nil {
					x.v = d.GetGauge().GetValue() + d.GetUntyped().GetValue()
				}
				out = append(out, x)
			}
		}
	}
	return out
}

func metricName(desc string) string {
	i := strings.Index(desc, `fqName: "`)
	if i < 0 {
		return ""
	}
	desc = desc[i+len(`fqName: "`):]
	if j := strings.IndexByte(desc, '"'); j >= 0 {
		return desc[:j]
	}
	return ""
}

type compCount struct{ in, out, errs, drops, n float64 }

// byType groups counters; every component type must be used once.
func byType(xs []sample) map[string]*compCount {
	out := map[string]*compCount{}
	for _, x := range xs {
		c := out[x.typ]
		if c == nil {
			c = &compCount{}
			out[x.typ] = c
		}
		switch x.name {
		case "es_component_received_events_total":
			c.in += x.v
			c.n++
		case "es_component_sent_events_total":
			c.out += x.v
		case "es_component_errors_total":
			c.errs += x.v
		case "es_component_discarded_events_total":
			c.drops += x.v
		}
	}
	return out
}

func runC05(p *Plan, s *Stats) *Violation {
	if len(p.Pipes) != 1 {
		return nil
	}
	pipes := buildPipes(p)
	if pipes == nil {
		return nil
	}
	d, pipe := p.Pipes[0], pipes[0]
	dup := map[string]bool{}
	unique := true
	d.walk(func(q *PProc, depth int) {
		if simIndex(q.Type) >= 0 && dup[q.Type] {
			unique = false
		}
		dup[q.Type] = true
	})
	if !unique {
		return nil
	}
	var names []string
	var bodies []func()
	used := make([]bool, len(p.Events))
	ids := map[int]int{}
	for _, e := range p.Events {
		ids[e.ID]++
	}
	for t, tp := range p.Tasks {
		var ops []*Op
		for _, o := range tp.Ops {
			if p.callOK(o) && !used[o.I] && ids[p.Events[o.I].ID] == 1 {
				used[o.I] = true
				ops = append(ops, o)
			}
		}
		names = append(names, "caller"+strconv.Itoa(t))
		bodies = append(bodies, func() {
			for _, o := range ops {
				pipe.Process(p.Events[o.I].build())
			}
		})
	}
	var scrapeViol *Violation
	if p.Flag {
		names = append(names, "scraper")
		n := p.N
		bodies = append(bodies, func() {
			last := map[string]float64{}
			for i := 0; i < n; i++ {
				for j := 0; j < 100; j++ {
					hook.Y(32758)
				}
				xs := readCounters(pipe.Metrics())
				for _, x := range xs {
					k := x.name + " " + x.id
					if x.v < last[k] && scrapeViol == nil {
						scrapeViol = viol("decrease", "%s fell from %v to %v", k, last[k], x.v)
					}
					last[k] = x.v
				}
				types := byType(xs)
				var names []string
				for typ := range types {
					names = append(names, typ)
				}
				sort.Strings(names)
				for _, typ := range names {
					c := types[typ]
					if c.in < c.out+c.errs+c.drops && scrapeViol == nil {
						scrapeViol = viol("ahead", "%s: received %v is less than sent %v + errors %v + discarded %v", typ, c.in, c.out, c.errs, c.drops)
					}
				}
			}
		})
		s.count("scrapes", n)
	}
	res, v := s.simulate(p, 0, names, bodies)
	if v != nil {
		return v
	}
	if res.Exited {
		return viol("exit", "processing ended the process with status %d", res.ExitCode)
	}
	if scrapeViol != nil {
		return scrapeViol
	}
	got := byType(readCounters(pipe.Metrics()))
	actual := traceCounts()
	// What the model says, usable if everything ran as it says.
	want := map[string]*counts{}
	exact := true
	for i, e := range p.Events {
		if !used[i] {
			continue
		}
		m := runModel(d, e.root())
		if !sameInts(m.Trace, traceOf(e.ID)) {
			exact = false
		}
		for k, c := range m.Counts {
			if want[k] == nil {
				want[k] = &counts{}
			}
			w := want[k]
			w.in += c.in
			w.out += c.out
			w.errs += c.errs
			w.drops += c.drops
			w.loose += c.loose
		}
	}
	var bad *Violation
	d.walk(func(q *PProc, depth int) {
		if bad != nil {
			return
		}
		c := got[q.Type]
		if c == nil || c.n == 0 {
			bad = viol("missing", "no counters for %s", q.Type)
			return
		}
		if c.in != c.out+c.errs+c.drops {
			bad = viol("balance", "%s: received %v, but sent %v + errors %v + discarded %v", q.Type, c.in, c.out, c.errs, c.drops)
			return
		}
		if i := simIndex(q.Type); i >= 0 && i < numSim && c.in != float64(actual[i]) {
			bad = viol("received", "%s: ran %d times, received counter is %v", q.Type, actual[i], c.in)
			return
		}
		w := want[q.Type]
		if w == nil {
			w = &counts{}
		}
		if !exact || simIndex(q.Type) < 0 {
			return
		}
		l := float64(w.loose)
		within := func(got float64, want int) bool { return got >= float64(want) && got <= float64(want)+l }
		if !within(c.out, w.out) || !within(c.errs, w.errs) || !within(c.drops, w.drops) {
			bad = viol("class", "%s: sent %v errors %v discarded %v, want %d %d %d", q.Type, c.out, c.errs, c.drops, w.out, w.errs, w.drops)
		}
		s.state(fmt.Sprint(*c))
	})
	return bad
}

// --- C09 -------------------------------------------------------------------

var badKinds = []string{"empty", "two", "unknown", "odd", "option", "construct", "noconfig", "twoconfig", "required", "required2", "nilopts"}

func genC09(r *Rng, thorough bool) *Plan {
	p := &Plan{Variant: "builds"}
	g := &defGen{max: r.Range(1, 8), depth: 3, builtin: 0.2}
	n := r.Range(1, 3)
	for i := 0; i < n; i++ {
		d := g.def(r, r.Pick("p", "p", "other"))
		if r.P(0.05) && len(d.OnFailure) > 0 {
			d.Procs = nil
		}
		if r.P(0.55) {
			var all []*PProc
			d.walk(func(q *PProc, depth int) { all = append(all, q) })
			for k := r.Weighted(0, 6, 1); k > 0; k-- {
				q := all[r.N(len(all))]
				if simIndex(q.Type) >= 0 {
					q.Bad = badKinds[r.N(len(badKinds))]
					if q.Bad == "nilopts" {
						q.Opts = nil
						q.OnFailure = nil
					}
				} else {
					q.Bad = badKinds[r.N(4)]
				}
			}
		} else if r.P(0.05) {
			d.ID = ""
		}
		p.Pipes = append(p.Pipes, d)
		p.Events = append(p.Events, g.event(r, d, i+1))
	}
	tasks := 1
	if r.P(0.6) {
		tasks = r.Range(2, 4)
	}
	for t := 0; t < tasks; t++ {
		tp := &TaskPlan{}
		for k := r.Range(1, 4); k > 0; k-- {
			o := &Op{Op: "build", I: r.N(n)}
			switch {
			case r.P(0.05):
				o.Op = "buildnil"
			case r.P(0.3):
				o.Op, o.J = "builduse", r.N(n)
			case r.P(0.25):
				o.Op, o.J = "use", r.N(n)
			case r.P(0.1):
				o.Op = "write"
			}
			tp.Ops = append(tp.Ops, o)
		}
		p.Tasks = append(p.Tasks, tp)
	}
	if r.P(0.5) {
		for k := r.Range(1, 3); k > 0; k-- {
			p.Faults = append(p.Faults, Fault{Kind: "constructor", N: r.N(6), At: r.N(6)})
		}
	}
	p.Flag = r.P(0.5)
	p.Pols = []hook.Policy{genPolicy(r, 5000)}
	return p
}

type built struct {
	pipe *pipeline.Pipeline
	err  error
	hits int32
	nilc bool
	use  *seen // how an event fared meanwhile
}

func runC09(p *Plan, s *Stats) *Violation {
	n := len(p.Pipes)
	cfgs := make([]*pipeline.Config, n)
	for i, d := range p.Pipes {
		c, err := d.load()
		if err != nil {
			return viol("unreadable", "definition %d in form %q cannot be read: %v", i, d.Form, err)
		}
		cfgs[i] = c
	}
	texts := make([][]byte, n)
	for i, d := range p.Pipes {
		if !d.hasOdd() {
			texts[i], _ = json.Marshal(cfgs[i])
		}
	}
	useOK := func(o *Op) bool {
		return (o.Op == "use" || o.Op == "builduse") && o.I >= 0 && o.I < n && o.J >= 0 && o.J < len(p.Events) && !p.Pipes[o.I].isBad()
	}
	wants := map[[2]int]*seen{}
	for _, tp := range p.Tasks {
		for _, o := range tp.Ops {
			if k := [2]int{o.I, o.J}; useOK(o) && wants[k] == nil {
				wants[k] = fresh(p.Pipes[o.I], p.Events[o.J])
			}
		}
	}
	hook.Restore()
	traceReset()
	// A pipeline that exists before.
	var first *pipeline.Pipeline
	var firstOf int
	for i, d := range p.Pipes {
		if !d.isBad() {
			firstOf = i
			pipe, err := pipeline.New(d.config())
			if err != nil {
				return viol("rejected", "valid definition %d rejected: %v", i, err)
			}
			first = pipe
			break
		}
	}
	for _, f := range p.Faults {
		if f.N >= 0 && f.N < numSim && f.At >= 0 && f.At < 64 {
			conAttempts[f.N] = 0
			conFail[f.N][f.At] = true
			s.fault("constructor error")
		}
	}
	results := make([][]*built, len(p.Tasks))
	var names []string
	var bodies []func()
	for t, tp := range p.Tasks {
		t, ops := t, tp.Ops
		results[t] = make([]*built, len(ops))
		names = append(names, "builder"+strconv.Itoa(t))
		bodies = append(bodies, func() {
			for k, o := range ops {
				if o.I < 0 || o.I >= n {
					continue
				}
				b := &built{}
				before := hitsOf(hook.CurID())
				pipe := first
				switch o.Op {
				case "buildnil":
					b.nilc = true
					b.pipe, b.err = pipeline.New(nil)
				case "write":
					pipe = nil
					if texts[o.I] == nil {
						continue
					}
					var data []byte
					if data, b.err = json.Marshal(cfgs[o.I]); b.err == nil && !bytes.Equal(data, texts[o.I]) {
						b.err = fmt.Errorf("got %q, want %q", data, texts[o.I])
					}
				case "use":
					if o.I != firstOf {
						pipe = nil
					}
				default:
					b.pipe, b.err = pipeline.New(cfgs[o.I])
					pipe = b.pipe
				}
				b.hits = hitsOf(hook.CurID()) - before
				if useOK(o) && pipe != nil {
					b.use = observe(pipe.Process(p.Events[o.J].build()))
				}
				results[t][k] = b
			}
		})
	}
	res, v := s.simulate(p, 0, names, bodies)
	conReset()
	if v != nil {
		return v
	}
	if res.Exited {
		return viol("exit", "building ended the process with status %d", res.ExitCode)
	}
	for i, d := range p.Pipes {
		if !reflect.DeepEqual(cfgs[i], d.config()) {
			return viol("definition", "definition %d was modified by building", i)
		}
	}
	check := func(what string, pipe *pipeline.Pipeline, d *PDef, twice bool) *Violation {
		for i, e := range p.Events {
			for k := 0; k < 1+i%2; k++ {
				traceReset()
				evt, err := pipe.Process(e.build())
				x := observe(evt, err)
				if v := judge(d, e, runModel(d, e.root()), x, err); v != nil {
					v.Msg = what + ": " + v.Msg
					return v
				}
				if p.Flag {
					ownerChanges(x.evt, "owner")
				}
			}
		}
		return nil
	}
	for t, tp := range p.Tasks {
		for k, o := range tp.Ops {
			b := results[t][k]
			if b == nil {
				continue
			}
			d := p.Pipes[o.I]
			if b.use != nil {
				s.count("uses meanwhile", 1)
				if diff := wants[[2]int{o.I, o.J}].same(b.use); diff != "" {
					return viol("interference", "task %d op %d: event e%d in a pipeline while others are built: %s", t, k, p.Events[o.J].ID, diff)
				}
			}
			switch o.Op {
			case "use":
				continue
			case "write":
				if b.err != nil {
					return viol("written", "task %d op %d: JSON form of definition %d: %v", t, k, o.I, b.err)
				}
				continue
			}
			s.count("builds", 1)
			if b.nilc {
				if b.err == nil {
					return viol("accepted", "task %d op %d: building from no definition succeeded", t, k)
				}
				continue
			}
			fail := d.isBad() || b.hits > 0
			if b.err != nil && b.pipe != nil {
				return viol("partial", "task %d op %d: got both a pipeline and error %v", t, k, b.err)
			}
			if b.err == nil && b.pipe == nil {
				return viol("partial", "task %d op %d: got neither a pipeline nor an error", t, k)
			}
			if fail && b.err == nil {
				return viol("accepted", "task %d op %d: definition %d is invalid or its constructor failed, but a pipeline was built", t, k, o.I)
			}
			if !fail && b.err != nil {
				return viol("rejected", "task %d op %d: definition %d is valid but was rejected: %v", t, k, o.I, b.err)
			}
			if b.err != nil {
				s.count("failed builds", 1)
				s.state(strings.SplitN(b.err.Error(), "Trace:", 2)[0]) // go-ucfg prints addresses
				continue
			}
			if b.pipe.ID() != d.ID {
				return viol("incomplete", "task %d op %d: pipeline id %q, want %q", t, k, b.pipe.ID(), d.ID)
			}
			if v := check(fmt.Sprintf("task %d op %d", t, k), b.pipe, d, true); v != nil {
				return v
			}
			procs := 0
			d.walk(func(q *PProc, depth int) { procs++ })
			_ = procs
		}
	}
	if first != nil {
		for _, d := range p.Pipes {
			if !d.isBad() {
				if v := check("earlier pipeline", first, d, true); v != nil {
					return v
				}
				break
			}
		}
	}
	for i, d := range p.Pipes {
		if !reflect.DeepEqual(cfgs[i], d.config()) {
			return viol("definition", "definition %d was modified by using its pipelines", i)
		}
		// Later builds are not affected.
		pipe, err := pipeline.New(cfgs[i])
		if (err != nil) != d.isBad() || (pipe == nil) != d.isBad() {
			return viol("later-build", "definition %d: later build gives pipeline %v, error %v", i, pipe != nil, err)
		}
		if pipe != nil {
			if v := check("later build", pipe, d, true); v != nil {
				return v
			}
		}
	}
	return nil
}

var errTest = errors.New("test")
