package main

import (
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"strconv"
	"strings"

	"verifsim.local/hook"

	"github.com/andrewkroh/go-sawmill/pkg/processor"
	"github.com/andrewkroh/go-sawmill/pkg/processor/registry"
)

func init() {
	properties["C14"] = &Property{genC14, runC14}
}

// --- constructors under registration ----------------------------------------

type regSub struct {
	A int    `config:"a"`
	T string `config:"t"`
	B bool   `config:"b"`
}

type regConfig struct {
	S    string                 `config:"s"`
	N    int                    `config:"n"`
	B    bool                   `config:"b"`
	F    float64                `config:"f"`
	List []string               `config:"list"`
	M    map[string]interface{} `config:"m"`
	Sub  regSub                 `config:"sub"`
	Subs []regSub               `config:"subs"`
	Fail bool                   `config:"fail"`
	Boom bool                   `config:"boom"`
}

type regDefConfig regConfig

func (c *regDefConfig) InitDefaults() {
	c.S, c.N, c.B, c.F = "default", 7, true, 1.5
	c.Sub.A, c.Sub.T = 3, "t-default"
}

type regReqConfig struct {
	Base regConfig `config:",inline"`
	Req  string    `config:"req" validate:"required"`
}

type regProc struct {
	family int
	c      regConfig
	req    string
	serial int
}

func (p *regProc) Process(processor.Event) error { return nil }

type otherProc struct{ c regConfig }

func (p *otherProc) Process(processor.Event) error { return nil }

type valueProc struct{}

func (valueProc) Process(processor.Event) error { return nil }

type notProc struct{}

var errConstruct = errors.New("constructor fails")

func construct(family int, c regConfig, req string) (*regProc, error) {
	for i := 0; i < 3; i++ {
		hook.Y(32754)
	}
	if c.Boom {
		panic("constructor panics")
	}
	if c.Fail {
		if c.N%2 != 0 {
			return &regProc{family: family, c: c, req: req}, errConstruct
		}
		return nil, errConstruct
	}
	return &regProc{family: family, c: c, req: req}, nil
}

// goodKinds are suitable constructors; the number in the plan selects one.
var goodKinds = []interface{}{
	func(c regConfig) (*regProc, error) { return construct(0, c, "") },
	func(c regDefConfig) (*regProc, error) { return construct(1, regConfig(c), "") },
	func(c regReqConfig) (*regProc, error) { return construct(2, c.Base, c.Req) },
	func(c regConfig) (*regProc, error) { return construct(3, c, "") },
	func(c regDefConfig) (*regProc, error) { return construct(4, regConfig(c), "") },
	// Refuses a configuration without options.
	func(c regConfig) (*regProc, error) {
		if c.S == "" {
			return nil, errConstruct
		}
		return construct(5, c, "")
	},
}

var badRegs = map[string]interface{}{
	"nil":       nil,
	"nilfunc":   (func(regConfig) (*regProc, error))(nil),
	"string":    "constructor",
	"struct":    regConfig{},
	"pointer":   &regConfig{},
	"noargs":    func() (*regProc, error) { return &regProc{}, nil },
	"twoargs":   func(a, b regConfig) (*regProc, error) { return &regProc{}, nil },
	"ptrarg":    func(a *regConfig) (*regProc, error) { return &regProc{}, nil },
	"maparg":    func(a map[string]interface{}) (*regProc, error) { return &regProc{}, nil },
	"variadic":  func(a ...regConfig) (*regProc, error) { return &regProc{}, nil },
	"noreturn":  func(a regConfig) {},
	"onereturn": func(a regConfig) *regProc { return &regProc{} },
	"threeret":  func(a regConfig) (*regProc, int, error) { return &regProc{}, 0, nil },
	"valueproc": func(a regConfig) (valueProc, error) { return valueProc{}, nil },
	"notproc":   func(a regConfig) (*notProc, error) { return &notProc{}, nil },
	"noterror":  func(a regConfig) (*regProc, string) { return &regProc{}, "" },
	"swapped":   func(a regConfig) (error, *regProc) { return nil, &regProc{} },
	"panics":    func(a regConfig) (*regProc, error) { panic("constructor panics when tried") },
	"nilderef":  func(a regConfig) (*regProc, error) { return &regProc{serial: len(a.M["x"].(string))}, nil },
}

// unsuitable constructors can be told by their type; the others are nil or
// panic when tried.
// A suitable one can be refused for its name only.
func unsuitable(bad string) bool {
	switch bad {
	case "nil", "nilfunc", "panics", "nilderef":
		return false
	}
	return true
}

var badNames = func() []string {
	m := map[string]int{}
	for k := range badRegs {
		m[k] = 0
	}
	return sortedNames(m)
}()

// --- plans -------------------------------------------------------------------

// Task 0 is the history before, task 1 the history after the concurrent
// creations of the other tasks. N is 1 for the registry of the package, 2 for
// its own one.
func genC14(r *Rng, thorough bool) *Plan {
	p := &Plan{N: r.Range(1, 2), Variant: "global registry"}
	if p.N == 2 {
		p.Variant = "own registry"
	}
	max := 16
	if thorough {
		max = 60
	}
	set := regNames[0]
	if r.P(0.3) {
		set = regNames[r.N(len(regNames))]
	}
	for t := 0; t < 2; t++ {
		tp := &TaskPlan{}
		for k := r.Range(1, max); k > 0; k-- {
			if r.P(0.55) {
				tp.Ops = append(tp.Ops, genRegister(r, set))
			} else {
				tp.Ops = append(tp.Ops, genCreate(r, set))
			}
		}
		p.Tasks = append(p.Tasks, tp)
	}
	for t := r.N(5); t > 0; t-- {
		tp := &TaskPlan{}
		for k := r.Range(1, 6); k > 0; k-- {
			tp.Ops = append(tp.Ops, genCreate(r, set))
		}
		p.Tasks = append(p.Tasks, tp)
	}
	p.Pols = []hook.Policy{genPolicy(r, 200), genPolicy(r, 400*len(p.Tasks)), genPolicy(r, 200)}
	return p
}

// Sets of names that a registry must tell apart.
var regNames = [][]string{
	{"p0", "p1", "p2", "p3", "p4"},
	{"p", "P", " p", "p ", "p\t"},
	{"a.b", "a", "b", "a\\.b", "a..b"},
	{"1", "01", "1.0", "true", "null"},
	{"ä", "a\u0308", "Ä", "ae", "a"},
	longNames(0, 5), longNames(1, 5), longNames(2, 5),
	{"set", "lowercase", "uppercase", "append", "p0"},
}

// builtins are in the registry of the package from the beginning.
var builtins = map[string]map[string]interface{}{
	"set":       {"target_field": "f", "value": "v"},
	"append":    {"field": "f", "value": "v"},
	"lowercase": {"field": "f"},
	"uppercase": {"field": "f"},
}

// builtinTypes tells the types of the built-in processors.
func builtinTypes() (map[string]string, error) {
	out := map[string]string{}
	for _, name := range []string{"append", "lowercase", "set", "uppercase"} {
		p, err := registry.NewProcessor(name, builtins[name])
		if err != nil {
			return nil, fmt.Errorf("%s: %v", name, err)
		}
		out[name] = fmt.Sprintf("%T", p)
	}
	return out, nil
}

func longNames(kind, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		x := strings.Repeat("processor_with_a_long_name_", 5)
		switch kind {
		case 0:
			x += strconv.Itoa(i)
		case 1:
			x = strconv.Itoa(i) + x
		default:
			x = x[:60] + strconv.Itoa(i) + x[60:]
		}
		out = append(out, x)
	}
	return out
}

// allRegNames are the names that a history uses.
func allRegNames(tasks []*TaskPlan) []string {
	m := map[string]int{}
	for _, n := range regNames[0] {
		m[n] = 1
	}
	for _, t := range tasks {
		for _, o := range t.Ops {
			m[o.Key] = 1
		}
	}
	return sortedNames(m)
}

func regName(r *Rng, set []string) string {
	if r.P(0.03) {
		return ""
	}
	return r.Pick(set...)
}

func genRegister(r *Rng, set []string) *Op {
	o := &Op{Op: "register", Key: regName(r, set), Opts: map[string]interface{}{}}
	if r.P(0.45) {
		o.Opts["bad"] = badNames[r.N(len(badNames))]
	}
	o.I = r.N(len(goodKinds))
	return o
}

func genCreate(r *Rng, set []string) *Op {
	o := &Op{Op: "create", Key: regName(r, set), Opts: map[string]interface{}{}}
	m := o.Opts
	if r.P(0.5) {
		m["s"] = "s" + strconv.Itoa(r.N(100))
	}
	if r.P(0.4) {
		m["n"] = r.N(1000) - 300
	}
	if r.P(0.3) {
		m["b"] = r.P(0.5)
	}
	if r.P(0.3) {
		m["f"] = float64(r.N(100)) + 0.25
	}
	if r.P(0.3) {
		m["list"] = strList(r)
	}
	if r.P(0.3) {
		m["m"] = map[string]interface{}{"k": "v" + strconv.Itoa(r.N(9)), "deep": map[string]interface{}{"x": "y"}}
	}
	if r.P(0.4) {
		sub := map[string]interface{}{}
		if r.P(0.5) {
			sub["a"] = r.N(50)
		}
		if r.P(0.5) {
			sub["t"] = "t" + strconv.Itoa(r.N(50))
		}
		if r.P(0.3) {
			sub["b"] = r.P(0.5)
		}
		m["sub"] = sub
	}
	if r.P(0.2) {
		m["subs"] = []interface{}{map[string]interface{}{"a": r.N(9)}, map[string]interface{}{"t": "x"}}
	}
	if r.P(0.6) {
		m["req"] = "r" + strconv.Itoa(r.N(9))
	}
	if r.P(0.1) {
		m["fail"] = true
	}
	if r.P(0.05) {
		m["boom"] = true
	}
	if r.P(0.12) {
		switch r.N(4) {
		case 0:
			m["n"] = "not a number"
		case 1:
			m["b"] = "not a bool"
		case 2:
			m["sub"] = "not an object"
		case 3:
			m["m"] = r.N(10)
		}
		o.J = 1
	}
	if r.P(0.05) {
		m["odd"] = r.Pick("chan", "list", "intkey", "intkey")
		o.J = 1
	}
	if r.P(0.1) {
		m["unknown"] = "ignored"
	}
	if r.P(0.05) {
		o.Opts = nil
		o.J = 0
	}
	return o
}

func strList(r *Rng) []interface{} {
	var out []interface{}
	for i := r.Range(1, 3); i > 0; i-- {
		out = append(out, "l"+strconv.Itoa(r.N(9)))
	}
	return out
}

// options returns fresh options; whole numbers become int.
func options(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k, y := range x {
			out[k] = options(y)
			if s, ok := y.(string); ok && k == "odd" {
				out[k] = oddValue(s)
			}
		}
		return out
	case []interface{}:
		out := make([]interface{}, 0, len(x))
		for _, y := range x {
			out = append(out, options(y))
		}
		return out
	case float64:
		if x == float64(int(x)) {
			return int(x)
		}
	}
	return v
}

// badOption mirrors the kinds of nonsense genCreate makes.
func badOption(m map[string]interface{}) bool {
	_, s := m["n"].(string)
	_, b := m["b"].(string)
	_, sub := m["sub"].(string)
	_, mm := m["m"]
	_, mok := m["m"].(map[string]interface{})
	_, odd := m["odd"]
	return s || b || sub || odd || mm && !mok
}

// wantConfig is the configuration that options give.
func wantConfig(family int, m map[string]interface{}) (c regConfig, req string, ok bool) {
	if badOption(m) {
		return c, "", false
	}
	if family == 1 || family == 4 {
		(*regDefConfig)(&c).InitDefaults()
	}
	if x, ok := m["s"].(string); ok {
		c.S = x
	}
	if x, ok := m["n"].(int); ok {
		c.N = x
	}
	if x, ok := m["b"].(bool); ok {
		c.B = x
	}
	switch x := m["f"].(type) {
	case float64:
		c.F = x
	case int:
		c.F = float64(x)
	}
	if x, ok := m["list"].([]interface{}); ok {
		for _, y := range x {
			s, _ := y.(string)
			c.List = append(c.List, s)
		}
	}
	if x, ok := m["m"].(map[string]interface{}); ok {
		c.M = x
	}
	if x, ok := m["sub"].(map[string]interface{}); ok {
		overlaySub(&c.Sub, x)
	}
	if x, ok := m["subs"].([]interface{}); ok {
		for _, y := range x {
			var s regSub
			if z, ok := y.(map[string]interface{}); ok {
				overlaySub(&s, z)
			}
			c.Subs = append(c.Subs, s)
		}
	}
	c.Fail, _ = m["fail"].(bool)
	c.Boom, _ = m["boom"].(bool)
	req, has := m["req"].(string)
	if family == 2 {
		if !has || req == "" {
			return c, "", false
		}
	} else {
		req = ""
	}
	if family == 5 && c.S == "" {
		return c, "", false
	}
	return c, req, !c.Fail && !c.Boom
}

func overlaySub(s *regSub, x map[string]interface{}) {
	if v, ok := x["a"].(int); ok {
		s.A = v
	}
	if v, ok := x["t"].(string); ok {
		s.T = v
	}
	if v, ok := x["b"].(bool); ok {
		s.B = v
	}
}

type regRun struct {
	own    *registry.Registry
	model  map[string]int
	maybes map[string]bool
	names  []string // to be checked at the end
}

// panicked is the error of a call which ended with a panic.
type panicked struct{ v interface{} }

func (p panicked) Error() string { return fmt.Sprintf("panic: %v", p.v) }

func (x *regRun) register(name string, c interface{}) (err error) {
	ok := false
	defer func() {
		if !ok && !hook.Dead() {
			v := recover()
			err = panicked{v}
			// MustRegister panics with the error.
			if _, runtimeErr := v.(runtime.Error); !runtimeErr && x.own == nil {
				err = fmt.Errorf("%v", v)
			}
		}
	}()
	if x.own != nil {
		err = x.own.Register(name, c)
	} else {
		registry.MustRegister(name, c)
	}
	ok = true
	return err
}

func (x *regRun) newProcessor(name string, opts map[string]interface{}) (p processor.Processor, err error) {
	ok := false
	defer func() {
		if !ok && !hook.Dead() {
			p, err = nil, panicked{recover()}
		}
	}()
	if x.own != nil {
		p, err = x.own.NewProcessor(name, opts)
	} else {
		p, err = registry.NewProcessor(name, opts)
	}
	ok = true
	return p, err
}

// create checks one creation and keeps the processor for later.
func (x *regRun) create(o *Op, kept *[]*keptProc) *Violation {
	opts, _ := options(o.Opts).(map[string]interface{})
	if o.Opts == nil {
		opts = nil
	}
	before, _ := options(o.Opts).(map[string]interface{})
	p, err := x.newProcessor(o.Key, opts)
	what := fmt.Sprintf("creating %q with %v", o.Key, before)
	if len(opts) != len(before) || len(opts) > 0 && !reflect.DeepEqual(opts, before) {
		return viol("options", "%s modified the options: %v", what, opts)
	}
	family, ok := x.model[o.Key]
	if !ok {
		if _, pan := err.(panicked); err == nil || pan || p != nil {
			return viol("unregistered", "%s: the name is not registered, but got %v, %v", what, p, err)
		}
		return nil
	}
	c, req, ok := wantConfig(family, before)
	if !ok {
		if err == nil {
			return viol("bad-option", "%s: want an error, got %+v", what, p)
		}
		if p, pan := err.(panicked); pan && !optBool(o.Opts, "boom") {
			return viol("bad-option", "%s: %v", what, p)
		}
		if !isNilProc(p) {
			return viol("bad-option", "%s: got an error and a processor", what)
		}
		return nil
	}
	if err != nil {
		return viol("create", "%s: %v", what, err)
	}
	q, ok := p.(*regProc)
	if !ok || q == nil {
		return viol("create", "%s: got a %T", what, p)
	}
	if q.family != family {
		return viol("constructor", "%s: made by constructor %d, registered is %d", what, q.family, family)
	}
	if d := configDiff(c, q.c); d != "" || req != q.req {
		return viol("config", "%s: configuration has %s, req %q", what, d, q.req)
	}
	for _, k := range *kept {
		if k.p == q {
			return viol("not-new", "%s: got a processor created before", what)
		}
	}
	// Its owner changes what it can reach.
	for i := range q.c.List {
		q.c.List[i] += "-changed"
	}
	if q.c.M != nil {
		q.c.M["changed"] = true
		if d, ok := q.c.M["deep"].(map[string]interface{}); ok {
			d["x"] = "changed"
		}
	}
	for i := range q.c.Subs {
		q.c.Subs[i].A = -1
	}
	q.c.Sub.A = -1
	*kept = append(*kept, &keptProc{q, fmt.Sprintf("%+v", q.c)})
	return nil
}

type keptProc struct {
	p    *regProc
	text string
}

func isNilProc(p processor.Processor) bool {
	if p == nil {
		return true
	}
	v := reflect.ValueOf(p)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

func configDiff(a, b regConfig) string {
	x, y := a, b
	x.M, y.M, x.List, y.List, x.Subs, y.Subs = nil, nil, nil, nil, nil, nil
	if !reflect.DeepEqual(x, y) {
		return fmt.Sprintf("%+v instead of %+v", y, x)
	}
	if len(a.M) != len(b.M) || len(a.M) > 0 && fmt.Sprint(a.M) != fmt.Sprint(b.M) {
		return fmt.Sprintf("m %v instead of %v", b.M, a.M)
	}
	if len(a.List) != len(b.List) || len(a.List) > 0 && !reflect.DeepEqual(a.List, b.List) {
		return fmt.Sprintf("list %v instead of %v", b.List, a.List)
	}
	if len(a.Subs) != len(b.Subs) || len(a.Subs) > 0 && !reflect.DeepEqual(a.Subs, b.Subs) {
		return fmt.Sprintf("subs %v instead of %v", b.Subs, a.Subs)
	}
	return ""
}

// history runs registrations and creations one after the other.
func (x *regRun) history(ops []*Op, kept *[]*keptProc, s *Stats) *Violation {
	for _, o := range ops {
		if hook.Dead() {
			return nil
		}
		switch o.Op {
		case "register":
			bad := optStr(o.Opts, "bad")
			_, taken := x.model[o.Key]
			if x.own == nil && builtins[o.Key] != nil {
				taken = true
			}
			var c interface{}
			if bad != "" {
				var known bool
				if c, known = badRegs[bad]; !known {
					continue
				}
			} else {
				if o.I < 0 || o.I >= len(goodKinds) {
					continue
				}
				c = goodKinds[o.I]
			}
			err := x.register(o.Key, c)
			switch {
			case taken || bad != "":
				s.fault("failing registration")
				if p, pan := err.(panicked); pan && unsuitable(bad) {
					return viol("rejection", "registering an unsuitable constructor (%s) or a taken name (%q: %v): %v", bad, o.Key, taken, p)
				}
				if err == nil {
					return viol("accepted", "registering an unsuitable constructor (%s) or a taken name (%q: %v) succeeded", bad, o.Key, taken)
				}
			case err != nil && o.I == 5:
				// It fails when tried without options, which may count as unsuitable.
			case o.Key == "" && err != nil:
				// An empty name may be refused.
			case err != nil:
				return viol("rejected", "registering a suitable constructor under the free name %q: %v", o.Key, err)
			default:
				x.model[o.Key] = o.I
			}
		case "create":
			if x.own == nil && builtins[o.Key] != nil {
				continue
			}
			if badOption(o.Opts) {
				s.fault("bad option")
			}
			if optBool(o.Opts, "fail") {
				s.fault("constructor error")
			}
			if optBool(o.Opts, "boom") {
				s.fault("constructor panic")
			}
			if v := x.create(o, kept); v != nil {
				return v
			}
		}
	}
	// Every name is as it should be.
	for _, name := range x.names {
		if x.own == nil && builtins[name] != nil {
			continue
		}
		o := &Op{Key: name, Opts: map[string]interface{}{"s": "check", "req": "r"}}
		if v := x.create(o, kept); v != nil {
			return v
		}
	}
	return nil
}

func runC14(p *Plan, s *Stats) *Violation {
	x := &regRun{model: map[string]int{}, names: allRegNames(p.Tasks)}
	if p.N == 2 {
		x.own = registry.NewRegistry()
	}
	before, err := builtinTypes()
	if err != nil {
		return viol("builtin", "%v", err)
	}
	kept := make([][]*keptProc, len(p.Tasks))
	viols := make([]*Violation, len(p.Tasks))
	for phase := 0; phase < 3; phase++ {
		var names []string
		var bodies []func()
		for t, tp := range p.Tasks {
			t, ops := t, tp.Ops
			switch {
			case phase == 0 && t == 0 || phase == 2 && t == 1:
				names = append(names, "history"+strconv.Itoa(t))
				bodies = append(bodies, func() { viols[t] = x.history(ops, &kept[t], s) })
			case phase == 1 && t > 1:
				names = append(names, "creator"+strconv.Itoa(t))
				bodies = append(bodies, func() {
					for _, o := range ops {
						if hook.Dead() {
							return
						}
						if o.Op == "create" && (x.own != nil || builtins[o.Key] == nil) {
							if v := x.create(o, &kept[t]); v != nil {
								viols[t] = v
								return
							}
						}
					}
				})
			}
		}
		if len(bodies) == 0 {
			continue
		}
		if _, v := s.simulate(p, phase, names, bodies); v != nil {
			return v
		}
		for _, v := range viols {
			if v != nil {
				return v
			}
		}
	}
	after, err := builtinTypes()
	if err != nil || !reflect.DeepEqual(before, after) {
		return viol("builtin", "built-in processors were %v, now %v (%v)", before, after, err)
	}
	all := map[*regProc]bool{}
	for _, ks := range kept {
		for _, k := range ks {
			if all[k.p] {
				return viol("not-new", "one processor was returned by two creations")
			}
			all[k.p] = true
			if t := fmt.Sprintf("%+v", k.p.c); t != k.text {
				return viol("shared", "a processor's configuration changed from %s to %s", k.text, t)
			}
			s.state(k.text)
		}
	}
	return nil
}
