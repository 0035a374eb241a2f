package main

import (
	"bytes"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"

	dto "github.com/prometheus/client_model/go"
	"github.com/prometheus/common/expfmt"
	"verifsim.local/hook"

	simhttp "github.com/andrewkroh/go-sawmill/internal/verifsim/shim/http"
	simnet "github.com/andrewkroh/go-sawmill/internal/verifsim/shim/net"
	"github.com/andrewkroh/go-sawmill/pkg/metrics"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
)

func init() {
	properties["C13"] = &Property{genC13, runC13}
}

// respWriter is the response side of a simulated scrape.
type respWriter struct {
	h      http.Header
	code   int
	buf    bytes.Buffer
	failAt int // the client is gone after so many bytes; -1 never
	broken bool
	slow   bool // the first write was slow
	stall  int  // even slower
}

func (w *respWriter) Header() http.Header { return w.h }
func (w *respWriter) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}
func (w *respWriter) Write(p []byte) (int, error) {
	if w.code == 0 {
		w.code = 200
	}
	// Only the first write: how many there are depends on the size of what the
	// Go runtime reports about itself.
	for i := 0; i < 30+w.stall && !w.slow; i++ {
		hook.Y(32757)
	}
	w.slow = true
	if w.broken {
		return 0, errors.New("write: broken pipe")
	}
	if w.failAt >= 0 && w.buf.Len()+len(p) > w.failAt {
		n := w.failAt - w.buf.Len()
		w.buf.Write(p[:n])
		w.broken = true
		return n, errors.New("write: connection reset by peer")
	}
	return w.buf.Write(p)
}

// serving orders what happened before a server started before its requests, as
// the network does.
var serving atomic.Int64

// scrapeOnce performs a scrape. It returns the component counters by type, or
// a violation; with failAt the client disconnects.
func scrapeOnce(h http.Handler, failAt, stall int) (map[string]*compCount, *Violation) {
	serving.Load()
	w := &respWriter{h: http.Header{}, failAt: failAt, stall: stall}
	req := &http.Request{Method: "GET", URL: &url.URL{Path: "/metrics"}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Host: "sim", RequestURI: "/metrics", RemoteAddr: "sim:1", Body: http.NoBody}
	var pan interface{}
	func() {
		ok := false
		defer func() {
			if !ok && !hook.Dead() {
				pan = recover()
			}
		}()
		h.ServeHTTP(w, req)
		ok = true
	}()
	if failAt >= 0 {
		return nil, nil // whatever happened, nobody is there to see it
	}
	if pan != nil {
		return nil, viol("scrape", "scrape handler panicked: %v", pan)
	}
	if w.code == 0 {
		w.code = 200
	}
	if w.code != 200 {
		return nil, viol("scrape", "scrape failed with status %d: %.300s", w.code, w.buf.String())
	}
	var parser expfmt.TextParser
	fams, err := parser.TextToMetricFamilies(bytes.NewReader(w.buf.Bytes()))
	if err != nil {
		return nil, viol("scrape", "scrape response is not valid: %v", err)
	}
	var xs []sample
	var names []string
	for name := range fams {
		if strings.HasPrefix(name, "es_component_") {
			names = append(names, name)
		}
	}
	sort.Strings(names)
	for _, name := range names {
		f := fams[name]
		for _, m := range f.Metric {
			xs = append(xs, sampleOf(name, m))
		}
	}
	return byType(xs), nil
}

func sampleOf(name string, d *dto.Metric) sample {
	x := sample{name: name}
	for _, l := range d.Label {
		switch l.GetName() {
		case "component_type":
			x.typ = l.GetValue()
		case "component_id":
			x.id = l.GetValue()
		}
	}
	x.v = d.GetCounter().GetValue() + d.GetGauge().GetValue() + d.GetUntyped().GetValue()
	return x
}

// serveState is written by the serving task and read by scrapers.
type serveState struct {
	h      http.Handler
	serves int
	binds  int
}

//go:norace
func (x *serveState) set(h http.Handler) { x.h = h; x.serves++ }

//go:norace
func (x *serveState) get() http.Handler { return x.h }

// pipeState is the life of one pipeline in C13.
type pipeState struct {
	phase int // 0 absent, 1 being registered, 2 registered, 3 being unregistered
	epoch int // counts phase changes
	calls int // in progress
	ran   [numSim]int
	base  [numSim]int // runs of earlier pipelines of the same definition
}

//go:norace
func (x *pipeState) to(phase int) { x.phase = phase; x.epoch++ }

//go:norace
func (x *pipeState) call(n int) { x.calls += n }

//go:norace
func (x *pipeState) fresh(c [numSim]int) { x.base = c }

//go:norace
func (x *pipeState) read() pipeState { return *x }

func genC13(r *Rng, thorough bool) *Plan {
	if r.P(0.3) {
		p := genCLIPlan(r, thorough, "C13")
		p.Variant = "cli scrape"
		p.CLI.Scrapes = r.Range(1, 6)
		p.CLI.Settle = r.P(0.2)
		if r.P(0.3) {
			p.CLI.Bind = "EADDRINUSE"
		}
		for i := range p.Pipes {
			p.Pipes[i].ID = "c" + strconv.Itoa(r.N(1000000))
		}
		p.Faults = genScrapeFaults(r, p.CLI.Scrapes)
		return p
	}
	p := &Plan{Variant: "endpoint"}
	n := r.Range(1, 3)
	next := 0
	for i := 0; i < n; i++ {
		g := &defGen{max: r.Range(1, 4), depth: 2, stop: 0.05}
		d := g.def(r, fmt.Sprintf("m%d-%d", r.N(1000000), i))
		// Every component has a type of its own, over all pipelines, except
		// for pipelines with the same content under another name.
		ok := true
		if i > 0 && r.P(0.15) {
			old := p.Pipes[r.N(i)]
			d.Procs, d.OnFailure, d.Form = old.Procs, old.OnFailure, old.Form
			if !strings.HasSuffix(old.ID, " twin") {
				old.ID += " twin"
			}
			if r.P(0.3) && len(old.ID) < 100 {
				old.ID = strings.Repeat("pipeline of the department ", r.Range(3, 15)) + old.ID
			}
			d.ID = similar(r, old.ID)
			for _, q := range p.Pipes {
				ok = ok && q.ID != d.ID
			}
			if !ok {
				break
			}
			d = d.clone()
			p.Variant = "endpoint twins"
			p.Pipes = append(p.Pipes, d)
			p.Tasks = append(p.Tasks, genLife(r, p, g, d, i))
			continue
		}
		names := map[string]string{}
		d.walk(func(q *PProc, depth int) {
			if next >= numSim {
				ok = false
				return
			}
			names[q.Type] = simName(next)
			q.Type = simName(next)
			next++
		})
		if !ok {
			break
		}
		p.Pipes = append(p.Pipes, d)
		p.Tasks = append(p.Tasks, genLife(r, p, g, d, i))
	}
	p.N = r.Range(1, 3) // scrapers
	if r.P(0.15) {
		p.N = r.Range(4, 12) // a crowd
	}
	stall := []float64{0, 0.1, 0.5, 0.9}[r.N(4)]
	for i := 0; i < p.N; i++ {
		tp := &TaskPlan{}
		for k := r.Range(1, 5); k > 0; k-- {
			o := &Op{Op: "scrape", I: -1}
			if r.P(0.25) {
				o.Op, o.I = "gone", r.N(3000)
			} else if r.P(stall) {
				o.J = r.N(3000)
			}
			tp.Ops = append(tp.Ops, o)
			if r.P(0.5) {
				tp.Ops = append(tp.Ops, &Op{Op: "pause", I: r.N(2000)})
			}
		}
		p.Tasks = append(p.Tasks, tp)
	}
	p.Flag = r.P(0.1) // listening fails
	p.Pols = []hook.Policy{genPolicy(r, 4000*n)}
	return p
}

// genLife makes the task that registers, uses and unregisters pipeline i.
func genLife(r *Rng, p *Plan, g *defGen, d *PDef, i int) *TaskPlan {
	tp := &TaskPlan{}
	for rounds := r.Range(1, 3); rounds > 0; rounds-- {
		tp.Ops = append(tp.Ops, &Op{Op: "register", J: i})
		for k := r.N(4); k > 0; k-- {
			p.Events = append(p.Events, g.event(r, d, len(p.Events)+1))
			tp.Ops = append(tp.Ops, &Op{Op: "process", I: len(p.Events) - 1, J: i})
		}
		tp.Ops = append(tp.Ops, &Op{Op: "unregister", J: i})
		if r.P(0.3) {
			tp.Ops = append(tp.Ops, &Op{Op: "pause", I: r.N(3000)})
		}
	}
	return tp
}

// similar is another name much like the given one.
func similar(r *Rng, id string) string {
	switch r.N(9) {
	case 0:
		return strings.ToUpper(id)
	case 1:
		return id + " "
	case 2:
		return " " + id
	case 3:
		return strings.NewReplacer("-", "_").Replace(id)
	case 4:
		return strings.NewReplacer(" ", "_").Replace(id)
	case 5:
		return strings.NewReplacer("-", "").Replace(id)
	case 6:
		return id + "s"
	case 7:
		return strings.NewReplacer("i", "\u0456", "-", "\u2010").Replace(id)
	}
	return strings.NewReplacer("-", ".", " ", "/").Replace(id)
}

func (d *PDef) clone() *PDef {
	e := *d
	e.Procs, e.OnFailure = nil, nil
	for _, q := range d.Procs {
		e.Procs = append(e.Procs, q.clone())
	}
	for _, q := range d.OnFailure {
		e.OnFailure = append(e.OnFailure, q.clone())
	}
	return &e
}

func genScrapeFaults(r *Rng, n int) []Fault {
	var out []Fault
	for i := 0; i < n; i++ {
		f := Fault{Kind: "ok", At: r.N(4000)}
		if r.P(0.25) {
			f.Kind, f.N = "gone", r.N(3000)
		}
		out = append(out, f)
	}
	return out
}

func runC13(p *Plan, s *Stats) *Violation {
	if p.CLI != nil {
		return runC13CLI(p, s)
	}
	for _, d := range p.Pipes {
		if d.isBad() {
			return nil
		}
	}
	ids := map[string]bool{}
	dup := false
	for _, d := range p.Pipes {
		dup = dup || ids[d.ID]
		ids[d.ID] = true
		own := map[string]bool{}
		d.walk(func(q *PProc, depth int) { dup = dup || own[q.Type]; own[q.Type] = true })
	}
	evIDs := map[int]bool{}
	for _, e := range p.Events {
		dup = dup || evIDs[e.ID]
		evIDs[e.ID] = true
	}
	owner := map[int]int{}
	for t, tp := range p.Tasks {
		for _, o := range tp.Ops {
			if o.Op == "register" || o.Op == "unregister" || o.Op == "process" {
				if x, ok := owner[o.J]; ok && x != t {
					dup = true
				}
				owner[o.J] = t
			}
		}
	}
	if dup {
		return nil
	}
	wants := make([]*seen, len(p.Events))
	for _, tp := range p.Tasks {
		for _, o := range tp.Ops {
			if o.Op == "process" && p.callOK(o) && wants[o.I] == nil {
				wants[o.I] = fresh(p.Pipes[o.J], p.Events[o.I])
			}
		}
	}
	hook.Restore()
	traceReset()
	serve := &serveState{}
	simnet.OnListen = func(addr string) error {
		if p.Flag {
			s.fault("bind failure")
			return errors.New("address already in use")
		}
		return nil
	}
	simhttp.OnServe = func(addr string, h http.Handler) { serving.Add(1); serve.set(h) }
	defer func() { simnet.OnListen, simhttp.OnServe = nil, nil }()
	states := make([]*pipeState, len(p.Pipes))
	for i := range states {
		states[i] = &pipeState{}
	}
	viols := make([]*Violation, len(p.Tasks)+1)
	results := make([]*seen, len(p.Events))
	usedBy := make([]*Op, len(p.Events)) // an event is processed once
	for _, tp := range p.Tasks {
		for _, o := range tp.Ops {
			if o.Op == "process" && p.callOK(o) && usedBy[o.I] == nil {
				usedBy[o.I] = o
			}
		}
	}
	names := []string{"main"}
	bodies := []func(){func() { metrics.Listen("sim:9003") }}
	scrapes := 0
	for t, tp := range p.Tasks {
		t, ops := t, tp.Ops
		names = append(names, "task"+strconv.Itoa(t))
		for _, o := range ops {
			if o.Op == "scrape" || o.Op == "gone" {
				scrapes++
			}
		}
		bodies = append(bodies, func() {
			var pipe *pipeline.Pipeline
			registered := false
			unregister := func(j int) {
				if registered {
					states[j].to(3)
					metrics.Unregister(pipe.Metrics()...)
					states[j].to(0)
					registered = false
				}
			}
			last := -1
			for _, o := range ops {
				if hook.Dead() {
					return
				}
				switch o.Op {
				case "pause":
					for i := 0; i < o.I && i < 5000; i++ {
						hook.Y(32756)
					}
				case "register":
					if registered || o.J < 0 || o.J >= len(p.Pipes) {
						continue
					}
					var err error
					if pipe, err = pipeline.New(p.Pipes[o.J].config()); err != nil {
						return
					}
					last = o.J
					states[o.J].fresh(traceCounts())
					states[o.J].to(1)
					metrics.Register(pipe.Metrics()...)
					registered = true
					states[o.J].to(2)
				case "unregister":
					if o.J == last {
						unregister(o.J)
					}
				case "process":
					if pipe == nil || !p.callOK(o) || o.J != last || usedBy[o.I] != o {
						continue
					}
					states[o.J].call(1)
					x := observe(pipe.Process(p.Events[o.I].build()))
					states[o.J].call(-1)
					results[o.I] = x
				case "scrape", "gone":
					for i := 0; serve.get() == nil && i < 2000; i++ {
						hook.Y(32755)
					}
					h := serve.get()
					if h == nil {
						continue
					}
					if o.Op == "gone" {
						s.fault("scraper disconnects")
						scrapeOnce(h, o.I, 0)
						continue
					}
					if v := checkedScrape(p, h, states, o.J%5000); v != nil {
						viols[t] = v
						return
					}
				}
			}
			if last >= 0 {
				unregister(last)
			}
		})
	}
	res, v := s.simulate(p, 0, names, bodies)
	if v != nil {
		return v
	}
	if res.Exited {
		return viol("exit", "the process was ended with status %d", res.ExitCode)
	}
	s.count("scrapes", scrapes)
	if p.Flag {
		if serve.h != nil {
			return nil
		}
	}
	for _, v := range viols {
		if v != nil {
			return v
		}
	}
	// Processing is not disturbed.
	for _, tp := range p.Tasks {
		for _, o := range tp.Ops {
			if o.Op != "process" || !p.callOK(o) || results[o.I] == nil || usedBy[o.I] != o {
				continue
			}
			if d := wants[o.I].same(results[o.I]); d != "" {
				return viol("disturbed", "event e%d: %s", p.Events[o.I].ID, d)
			}
			results[o.I] = nil
		}
	}
	if !p.Flag {
		if serve.h == nil {
			return viol("not-served", "the endpoint does not serve")
		}
		traceReset()
		if v := checkedScrape(p, serve.h, states, 0); v != nil {
			v.Msg = "after everything: " + v.Msg
			return v
		}
	}
	s.state(fmt.Sprint(res.Hash))
	return nil
}

// checkedScrape scrapes and compares with the life of the pipelines.
func checkedScrape(p *Plan, h http.Handler, states []*pipeState, stall int) *Violation {
	before := make([]pipeState, len(states))
	for i := range states {
		before[i] = states[i].read()
	}
	ran0 := traceCounts()
	got, v := scrapeOnce(h, -1, stall)
	if v != nil {
		return v
	}
	ran1 := traceCounts()
	// The pipelines with a type: at least, at most, how many are registered.
	owners, least, most := map[string]int{}, map[string]int{}, map[string]int{}
	for i, d := range p.Pipes {
		after := states[i].read()
		d.walk(func(q *PProc, depth int) {
			owners[q.Type]++
			if after.epoch != before[i].epoch || after.phase == 1 || after.phase == 3 {
				most[q.Type]++
			} else if after.phase == 2 {
				least[q.Type]++
				most[q.Type]++
			}
		})
	}
	for i, d := range p.Pipes {
		after := states[i].read()
		if after.epoch != before[i].epoch {
			continue
		}
		var bad *Violation
		d.walk(func(q *PProc, depth int) {
			c := got[q.Type]
			k := simIndex(q.Type)
			if bad != nil || k < 0 || k >= numSim {
				return
			}
			if owners[q.Type] > 1 {
				n := 0
				if c != nil {
					n = int(c.n)
				}
				if n < least[q.Type] || n > most[q.Type] {
					bad = viol("shown", "%d to %d pipelines with %s are registered (%q is one), but the scrape shows %d",
						least[q.Type], most[q.Type], q.Type, d.ID, n)
				}
				return
			}
			switch after.phase {
			case 0:
				if c != nil {
					bad = viol("stale", "pipeline %s is not registered, but the scrape shows %s", d.ID, q.Type)
				}
			case 2:
				if c == nil || c.n != 1 {
					bad = viol("missing", "pipeline %s is registered, but the scrape does not show %s", d.ID, q.Type)
					return
				}
				lo, hi := ran0[k]-after.base[k], ran1[k]-after.base[k]
				if before[i].calls > 0 {
					lo--
				}
				if after.calls > 0 {
					hi++
				}
				if c.in < float64(lo) || c.in > float64(hi) {
					bad = viol("count", "%s ran %d..%d times, scrape shows %v received", q.Type, lo, hi, c.in)
					return
				}
				if before[i].calls == 0 && after.calls == 0 && ran0[k] == ran1[k] && c.in != c.out+c.errs+c.drops {
					bad = viol("balance", "%s: scrape shows received %v, sent %v, errors %v, discarded %v", q.Type, c.in, c.out, c.errs, c.drops)
				}
			}
		})
		if bad != nil {
			return bad
		}
	}
	return nil
}

// --- the command -----------------------------------------------------------

// reading reports whether the command has started to read and not reached the
// end of its input.
//
//go:norace
func (x *cliRun) reading() bool { return x.started && !x.eof && !x.failed }

//go:norace
func (x *cliRun) handle() http.Handler { return x.handler }

//go:norace
func (x *cliRun) serve(h http.Handler) { x.handler = h }

// scraper scrapes n times while the command runs; any scrape must succeed.
func (x *cliRun) scraper(n int) {
	for i := 0; i < n; i++ {
		for j := 0; j < 500 && (x.handle() == nil || j < 50); j++ {
			hook.Y(32754)
		}
		if h := x.handle(); h != nil {
			if _, v := scrapeOnce(h, -1, 0); v != nil && x.scrapeViol == nil {
				x.scrapeViol = v
			}
		}
	}
}

func runC13CLI(p *Plan, s *Stats) *Violation {
	if len(p.Pipes) != 1 || p.Pipes[0].isBad() || p.CLI.Def != "" || p.CLI.ReadErr != nil || len(p.CLI.Out) > 0 || p.CLI.KillStep > 0 {
		return nil
	}
	d := p.Pipes[0]
	x := p.startCLI(s, false)
	x.quiesce = p.CLI.Settle
	x.atRead = func(int) *Violation {
		if p.CLI.Settle && p.CLI.Bind == "" && x.handle() == nil {
			return viol("unserved", "the command waits for input, but there is no metrics endpoint")
		}
		return nil
	}
	traceReset()
	var bad *Violation
	scraper := func() {
		for _, f := range p.Faults {
			for j := 0; j < f.At || x.handle() == nil && j < 20000; j++ {
				hook.Y(32753)
			}
			h := x.handle()
			if h == nil {
				continue
			}
			if f.Kind == "gone" {
				s.fault("scraper disconnects")
				scrapeOnce(h, f.N, 0)
				continue
			}
			was := x.reading()
			ran0 := traceCounts()
			got, v := scrapeOnce(h, -1, 0)
			ran1 := traceCounts()
			if v != nil {
				bad = v
				return
			}
			if !was || !x.reading() {
				continue
			}
			d.walk(func(q *PProc, depth int) {
				if bad != nil {
					return
				}
				c := got[q.Type]
				if c == nil || c.n == 0 {
					bad = viol("missing", "the command is running, but the scrape does not show %s", q.Type)
					return
				}
				if k := simIndex(q.Type); k >= 0 && k < numSim && (c.in < float64(ran0[k]-1) || c.in > float64(ran1[k]+1)) {
					bad = viol("count", "%s ran %d..%d times, scrape shows %v received", q.Type, ran0[k], ran1[k], c.in)
				}
			})
		}
	}
	res, v := x.runMain(p, 0, scraper)
	if v != nil {
		return v
	}
	if bad == nil {
		bad = x.viol
	}
	if bad != nil {
		return bad
	}
	s.count("lines", len(x.want))
	s.count("scrapes", len(p.Faults))
	if res.ExitCode != 0 {
		return viol("exit", "exit status %d; stderr %.300q", res.ExitCode, x.stderr.String())
	}
	if v := x.nextLines(false); v != nil {
		return v
	}
	if w := x.missing(len(x.input), true); w != nil && x.anyLong() == nil {
		return viol("disturbed", "event of input line %d was not written", w.no)
	}
	s.state(fmt.Sprint(res.Hash))
	return nil
}
