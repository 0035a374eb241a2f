package main

import (
	"encoding/json"
	"sort"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
)

// PDef is a pipeline definition of a plan.
type PDef struct {
	ID        string   `json:"id"`
	Desc      string   `json:"desc,omitempty"`
	Form      string   `json:"form,omitempty"` // json, yaml, gojson, goyaml, anchors: read from this form; shared: equal parts are the same objects
	Procs     []*PProc `json:"procs,omitempty"`
	OnFailure []*PProc `json:"on_failure,omitempty"`
}

// PProc is one processor of a definition.
type PProc struct {
	Type      string                 `json:"type"`
	ID        string                 `json:"id,omitempty"` // has no effect
	Opts      map[string]interface{} `json:"opts,omitempty"`
	OnFailure []*PProc               `json:"on_failure,omitempty"`
	// Bad makes the entry invalid: empty, two, unknown, option, construct,
	// noconfig, twoconfig, required. "nilopts" is valid: no options at all.
	Bad string `json:"bad,omitempty"`
}

func (d *PDef) config() *pipeline.Config {
	c, _ := d.load()
	return c
}

// load makes the definition, or reads it from its JSON or YAML form.
func (d *PDef) load() (*pipeline.Config, error) {
	c := d.written()
	if d.hasOdd() {
		return c, nil
	}
	var data []byte
	var err error
	switch d.Form {
	case "json":
		data, err = json.Marshal(d.tree())
	case "gojson":
		data, err = json.Marshal(c)
	case "yaml":
		data, err = yaml.Marshal(d.tree())
	case "goyaml":
		data, err = yaml.Marshal(c)
	case "anchors":
		data, err = d.anchored()
	case "shared":
		sh := sharing{}
		c.Processors = sh.list(c.Processors)
		c.OnFailure = sh.list(c.OnFailure)
		return c, nil
	default:
		return c, nil
	}
	if err != nil {
		return nil, err
	}
	c = &pipeline.Config{}
	if strings.HasSuffix(d.Form, "json") {
		err = json.Unmarshal(data, c)
	} else {
		err = yaml.Unmarshal(data, c)
	}
	if err != nil {
		return nil, err
	}
	return c, nil
}

// sharing makes equal parts of a definition the same object, as in a program
// that uses one variable at several places.
type sharing map[string]interface{}

func (s sharing) key(kind string, v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(harnessBug(err.Error()))
	}
	return kind + string(b)
}

func (s sharing) list(l []pipeline.ProcessorConfig) []pipeline.ProcessorConfig {
	if len(l) == 0 {
		return l
	}
	k := s.key("list", l)
	if x, ok := s[k]; ok {
		return x.([]pipeline.ProcessorConfig)
	}
	for i, c := range l {
		ck := s.key("entry", c)
		if x, ok := s[ck]; ok {
			l[i] = x.(pipeline.ProcessorConfig)
			continue
		}
		s[ck] = c
		for _, typ := range configNames(c) {
			o := c[typ]
			if o == nil {
				continue
			}
			ok := s.key("options", o)
			if x, found := s[ok]; found {
				c[typ] = x.(*pipeline.ProcessorOptionConfig)
				continue
			}
			s[ok] = o
			o.OnFailure = s.list(o.OnFailure)
			if o.Config != nil {
				o.Config = s.value(o.Config).(map[string]interface{})
			}
		}
	}
	s[k] = l
	return l
}

func optNames(m map[string]interface{}) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func configNames(c pipeline.ProcessorConfig) []string {
	var out []string
	for k := range c {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (s sharing) value(v interface{}) interface{} {
	switch v.(type) {
	case map[string]interface{}, []interface{}:
	default:
		return v
	}
	k := s.key("value", v)
	if x, ok := s[k]; ok {
		return x
	}
	switch x := v.(type) {
	case map[string]interface{}:
		for _, n := range optNames(x) {
			x[n] = s.value(x[n])
		}
	case []interface{}:
		for i := range x {
			x[i] = s.value(x[i])
		}
	}
	s[k] = v
	return v
}

// anchored is the definition in YAML with anchors, and aliases for parts that
// occur again.
func (d *PDef) anchored() ([]byte, error) {
	count := map[string]int{}
	var visit func(v interface{})
	part := func(v interface{}) string {
		switch x := v.(type) {
		case map[string]interface{}:
			if len(x) == 0 {
				return ""
			}
		case []interface{}:
			if len(x) == 0 {
				return ""
			}
		default:
			return ""
		}
		return sharing{}.key("", v)
	}
	visit = func(v interface{}) {
		k := part(v)
		if k != "" {
			if count[k]++; count[k] > 1 {
				return
			}
		}
		switch x := v.(type) {
		case map[string]interface{}:
			for _, n := range optNames(x) {
				visit(x[n])
			}
		case []interface{}:
			for _, y := range x {
				visit(y)
			}
		}
	}
	t := d.tree()
	visit(t)
	done := map[string]*yaml.Node{}
	var node func(v interface{}) (*yaml.Node, error)
	node = func(v interface{}) (*yaml.Node, error) {
		k := part(v)
		if n := done[k]; k != "" && n != nil {
			return &yaml.Node{Kind: yaml.AliasNode, Value: n.Anchor, Alias: n}, nil
		}
		n := &yaml.Node{}
		switch x := v.(type) {
		case map[string]interface{}:
			n.Kind, n.Tag = yaml.MappingNode, "!!map"
			for _, key := range optNames(x) {
				kn := &yaml.Node{}
				if err := kn.Encode(key); err != nil {
					return nil, err
				}
				vn, err := node(x[key])
				if err != nil {
					return nil, err
				}
				n.Content = append(n.Content, kn, vn)
			}
		case []interface{}:
			n.Kind, n.Tag = yaml.SequenceNode, "!!seq"
			for _, y := range x {
				vn, err := node(y)
				if err != nil {
					return nil, err
				}
				n.Content = append(n.Content, vn)
			}
		default:
			if err := n.Encode(v); err != nil {
				return nil, err
			}
		}
		if k != "" {
			if count[k] > 1 {
				n.Anchor = "a" + strconv.Itoa(len(done))
			}
			done[k] = n
		}
		return n, nil
	}
	n, err := node(t)
	if err != nil {
		return nil, err
	}
	return yaml.Marshal(n)
}

// hasOdd reports whether an option has no JSON form.
func (d *PDef) hasOdd() bool {
	odd := false
	d.walk(func(p *PProc, depth int) { odd = odd || p.Bad == "odd" })
	return odd
}

// written is the definition as a program would write it.
func (d *PDef) written() *pipeline.Config {
	return &pipeline.Config{ID: d.ID, Description: d.Desc, Processors: procConfigs(d.Procs), OnFailure: procConfigs(d.OnFailure)}
}

func procConfigs(ps []*PProc) []pipeline.ProcessorConfig {
	var out []pipeline.ProcessorConfig
	for _, p := range ps {
		out = append(out, p.config())
	}
	return out
}

// typeAndOpts applies Bad.
func (p *PProc) typeAndOpts() (string, map[string]interface{}) {
	typ := p.Type
	opts := map[string]interface{}{}
	for k, v := range p.Opts {
		opts[k] = cloneJSON(v)
	}
	switch p.Bad {
	case "unknown":
		typ = "no_such_processor"
	case "option":
		opts["ignore_missing"] = []interface{}{"banana", "split"}
	case "odd":
		opts["odd"] = oddValue("intkey")
	case "construct":
		opts["construct"] = "error"
	case "noconfig", "twoconfig":
		typ = p.Bad
	case "required":
		typ = "append"
		opts = map[string]interface{}{"value": "v"}
	case "required2":
		typ = "lowercase"
		opts = map[string]interface{}{"target_field": "v"}
	}
	return typ, opts
}

// oddValue is a value which cannot be an option.
func oddValue(kind string) interface{} {
	switch kind {
	case "chan":
		return oddChan
	case "list":
		return []interface{}{"a", oddChan}
	default:
		return map[interface{}]interface{}{1: "x"}
	}
}

var oddChan = make(chan int)

// second is the other key of an ambiguous entry.
func (p *PProc) second() string {
	if p.Type == "set" {
		return "sim0"
	}
	return "set"
}

func (p *PProc) config() pipeline.ProcessorConfig {
	typ, opts := p.typeAndOpts()
	if p.Bad == "empty" {
		return pipeline.ProcessorConfig{}
	}
	if p.Bad == "nilopts" && len(p.OnFailure) == 0 {
		return pipeline.ProcessorConfig{typ: nil}
	}
	o := &pipeline.ProcessorOptionConfig{ID: p.ID, Config: opts, OnFailure: procConfigs(p.OnFailure)}
	pc := pipeline.ProcessorConfig{typ: o}
	if p.Bad == "two" {
		pc[p.second()] = &pipeline.ProcessorOptionConfig{Config: map[string]interface{}{"target_field": "two", "value": "v"}}
	}
	return pc
}

// isBad reports whether building must fail because of this entry.
func (p *PProc) isBad() bool {
	if p.Bad != "" && p.Bad != "nilopts" {
		return true
	}
	for _, h := range p.OnFailure {
		if h.isBad() {
			return true
		}
	}
	return false
}

func (d *PDef) isBad() bool {
	if d.ID == "" {
		return true
	}
	for _, p := range append(append([]*PProc(nil), d.Procs...), d.OnFailure...) {
		if p.isBad() {
			return true
		}
	}
	return false
}

// tree is the definition as it would be written in a file.
func (d *PDef) tree() map[string]interface{} {
	t := map[string]interface{}{"id": d.ID}
	if d.Desc != "" {
		t["description"] = d.Desc
	}
	if len(d.Procs) > 0 {
		t["processors"] = procTrees(d.Procs)
	}
	if len(d.OnFailure) > 0 {
		t["on_failure"] = procTrees(d.OnFailure)
	}
	return t
}

func procTrees(ps []*PProc) []interface{} {
	var out []interface{}
	for _, p := range ps {
		typ, opts := p.typeAndOpts()
		if p.Bad == "empty" {
			out = append(out, map[string]interface{}{})
			continue
		}
		if len(p.OnFailure) > 0 {
			opts["on_failure"] = procTrees(p.OnFailure)
		}
		if p.ID != "" {
			opts["id"] = p.ID
		}
		e := map[string]interface{}{typ: opts}
		if p.Bad == "nilopts" && len(p.OnFailure) == 0 {
			e[typ] = nil
		}
		if p.Bad == "two" {
			e[p.second()] = map[string]interface{}{"target_field": "two", "value": "v"}
		}
		out = append(out, e)
	}
	return out
}

func cloneJSON(v interface{}) interface{} {
	data, err := json.Marshal(v)
	if err != nil {
		return v
	}
	var out interface{}
	if json.Unmarshal(data, &out) != nil {
		return v
	}
	return out
}

func (d *PDef) walk(f func(p *PProc, depth int)) {
	walkProcs(d.Procs, 0, f)
	walkProcs(d.OnFailure, 0, f)
}

func walkProcs(ps []*PProc, depth int, f func(p *PProc, depth int)) {
	for _, p := range ps {
		f(p, depth)
		walkProcs(p.OnFailure, depth+1, f)
	}
}

func optStr(o map[string]interface{}, k string) string { s, _ := o[k].(string); return s }
func optBool(o map[string]interface{}, k string) bool  { b, _ := o[k].(bool); return b }

// EvSpec is an event of a plan.
type EvSpec struct {
	ID     int             `json:"id"`
	Text   string          `json:"text"`
	Fields map[string]*MV  `json:"fields,omitempty"`
	JSON   json.RawMessage `json:"json,omitempty"`
}

func (s *EvSpec) root() *MV {
	r := mObj()
	for k, v := range s.Fields {
		r.O[k] = v.clone()
	}
	r.O["event"] = &MV{T: "obj", O: map[string]*MV{"original": mStr(s.Text)}}
	return r
}

// build makes the event through its public interface.
func (s *EvSpec) build() *event.Event {
	e := event.New()
	for _, k := range (&MV{O: s.Fields}).keys() {
		e.Put(keyOf([]string{k}), s.Fields[k].build())
	}
	e.Put("event.original", event.String(s.Text))
	return e
}

// --- reference model of the pipeline ---------------------------------------

type counts struct{ in, out, errs, drops, loose int }

type merr struct {
	text    string // part of the message, "" if unknown
	missing bool
}

type outcome struct {
	Dropped   bool
	Cancelled bool
	Err       *merr
	Root      *MV
	Trace     []int
	Counts    map[string]*counts
}

type modelRun struct {
	out  *outcome
	id   int
	text string
}

func simIndex(typ string) int {
	if !strings.HasPrefix(typ, "sim") {
		return -1
	}
	n := 0
	for _, c := range typ[3:] {
		if c < '0' || c > '9' {
			return -1
		}
		n = n*10 + int(c-'0')
	}
	return n
}

// runModel processes an event by the book.
func runModel(d *PDef, root *MV) *outcome {
	m := &modelRun{out: &outcome{Root: root.clone(), Counts: map[string]*counts{}}}
	if v := m.out.Root.get([]string{"event", "original"}); v != nil && v.T == "str" {
		m.text = v.str()
	}
	m.id = eventID(m.text)
	var err *merr
	for _, p := range d.Procs {
		if err = m.proc(p); err != nil || m.stopped() {
			break
		}
	}
	if err != nil && !m.stopped() {
		for _, p := range d.OnFailure {
			if err = m.proc(p); err != nil || m.stopped() {
				break
			}
		}
	}
	if m.stopped() {
		err = nil
	}
	m.out.Err = err
	return m.out
}

func (m *modelRun) stopped() bool { return m.out.Dropped || m.out.Cancelled }

func (m *modelRun) proc(p *PProc) *merr {
	c := m.out.Counts[p.Type]
	if c == nil {
		c = &counts{}
		m.out.Counts[p.Type] = c
	}
	c.in++
	err := m.exec(p)
	if m.out.Dropped {
		c.drops++
		return nil
	}
	if m.out.Cancelled {
		if err != nil {
			c.loose++
		} else {
			c.out++
		}
		return nil
	}
	if err == nil {
		c.out++
		return nil
	}
	if optBool(p.Opts, "ignore_missing") && err.missing {
		c.out++
		return nil
	}
	for _, h := range p.OnFailure {
		err = m.proc(h)
		if m.stopped() {
			c.loose++
			return nil
		}
		if err != nil {
			break
		}
	}
	if err == nil || optBool(p.Opts, "ignore_failure") {
		c.out++
		return nil
	}
	c.errs++
	return err
}

// exec runs the processor itself.
func (m *modelRun) exec(p *PProc) *merr {
	root := m.out.Root
	if i := simIndex(p.Type); i >= 0 {
		m.out.Trace = append(m.out.Trace, i)
		for _, c := range actFor(m.text, p.Type, optStr(p.Opts, "act")) {
			switch c {
			case 'p':
				if !root.put([]string{"m", p.Type}, mStr("e"+itoa(m.id)+"q"+p.Type)) {
					return &merr{}
				}
			case 'q':
				if root.get([]string{"m", p.Type}) == nil {
					root.put([]string{"m", p.Type}, mStr("try-e"+itoa(m.id)+"q"))
				}
			case 'r':
				root.del([]string{"m", p.Type})
			case 'a':
				old := ""
				if v := root.get([]string{"log"}); v != nil && v.T == "str" {
					old = v.str()
				}
				root.put([]string{"log"}, mStr(old+","+p.Type))
			case 'x':
				if !root.put([]string{"event", "original", "below"}, mBool(true)) {
					return &merr{}
				}
			case 'd':
				m.out.Dropped = true
			case 'c':
				m.out.Cancelled = true
			case 'f':
				return &merr{text: simErr(p.Type, m.id)}
			case 'm', 'w':
				return &merr{text: simErr(p.Type, m.id), missing: true}
			}
		}
		return nil
	}
	switch p.Type {
	case "set":
		var v *MV
		if val, ok := p.Opts["value"]; ok && val != nil {
			v = fromGo(val)
		} else if cf := optStr(p.Opts, "copy_from"); cf != "" {
			src := root.get(strings.Split(cf, "."))
			if src == nil {
				return &merr{missing: true}
			}
			v = src.clone()
		}
		if v == nil {
			return nil
		}
		if !root.put(strings.Split(optStr(p.Opts, "target_field"), "."), v) {
			return &merr{}
		}
	case "append":
		path := strings.Split(optStr(p.Opts, "field"), ".")
		v := root.get(path)
		switch {
		case v == nil:
			v = mArr()
		case v.T == "str":
			v = mArr(v)
		case v.T != "arr":
			return &merr{}
		}
		v.A = append(v.A, mStr(optStr(p.Opts, "value")))
		if !root.put(path, v) {
			return &merr{}
		}
	case "lowercase", "uppercase":
		f := optStr(p.Opts, "field")
		v := root.get(strings.Split(f, "."))
		if v == nil {
			return &merr{missing: true}
		}
		if v.T != "str" {
			return &merr{}
		}
		s := strings.ToLower(v.str())
		if p.Type == "uppercase" {
			s = strings.ToUpper(v.str())
		}
		if t := optStr(p.Opts, "target_field"); t != "" {
			f = t
		}
		if !root.put(strings.Split(f, "."), mStr(s)) {
			return &merr{}
		}
	}
	return nil
}

func itoa(n int) string {
	b, _ := json.Marshal(n)
	return string(b)
}

// fromGo converts an option value as decoded from JSON.
func fromGo(v interface{}) *MV {
	switch v := v.(type) {
	case string:
		return mStr(v)
	case bool:
		return mBool(v)
	case float64:
		return mFloat(v)
	case []interface{}:
		a := mArr()
		for _, x := range v {
			a.A = append(a.A, fromGo(x))
		}
		return a
	case map[string]interface{}:
		o := mObj()
		for k, x := range v {
			o.O[k] = fromGo(x)
		}
		return o
	}
	return &MV{T: "null"}
}
