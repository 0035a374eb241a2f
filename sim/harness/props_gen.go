package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"gopkg.in/yaml.v3"
	"verifsim.local/hook"

	"github.com/andrewkroh/go-sawmill/internal/verifsim/docsgen"
	"github.com/andrewkroh/go-sawmill/internal/verifsim/procgen"
	simflagdocs "github.com/andrewkroh/go-sawmill/internal/verifsim/shim/flag_docsgen"
	simflagproc "github.com/andrewkroh/go-sawmill/internal/verifsim/shim/flag_procgen"
	simlog "github.com/andrewkroh/go-sawmill/internal/verifsim/shim/log"
	simos "github.com/andrewkroh/go-sawmill/internal/verifsim/shim/os"
)

func init() {
	properties["C12"] = &Property{genC12, runC12}
}

// GenPlan is a history of generator runs on one directory.
type GenPlan struct {
	Tool   string       `json:"tool"`             // procs or docs
	First  []*GenEntry  `json:"first,omitempty"`  // definition the tree was generated from, if any
	Edits  []*GenEdit   `json:"edits,omitempty"`  // what a developer did to that tree
	Defs   []*GenEntry  `json:"defs,omitempty"`   // definition of the runs
	Common bool         `json:"common,omitempty"` // definition with common_fields
	Bad    string       `json:"bad,omitempty"`    // definition that cannot be read or used
	Turn   bool         `json:"turn,omitempty"`   // the fresh tree has the definition in reverse order
	BadAt  int          `json:"bad_at,omitempty"` // processor with the unusable type
	Wider  bool         `json:"wider,omitempty"`  // the first run with faults has a longer definition
	Runs   [][]*FSFault `json:"runs,omitempty"`   // runs with faults, before the last one without
}

// GenEntry is an entry of the list of processors; it may hold several.
type GenEntry struct {
	Procs map[string]*GenProc `json:"procs,omitempty"`
}

// GenProc describes a processor.
type GenProc struct {
	Desc string    `json:"desc,omitempty"`
	Opts []*GenOpt `json:"opts,omitempty"`
}

// GenOpt describes an option.
type GenOpt struct {
	Name     string      `json:"name"`
	Type     string      `json:"type"`
	Required bool        `json:"required,omitempty"`
	Optional bool        `json:"optional,omitempty"`
	Default  interface{} `json:"default,omitempty"`
	Desc     string      `json:"desc,omitempty"`
}

// GenEdit is a change by a developer: "implement" moves the Process method of
// Name to process.go; "file" adds a file to its directory.
type GenEdit struct {
	Kind string `json:"kind"`
	Name string `json:"name"`
}

// FSFault strikes file system operation At of a run.
type FSFault struct {
	At   int    `json:"at"`
	Kind string `json:"kind"` // error, kill, torn (write, then kill), short (write or read, then error), partial (short read)
	N    int    `json:"n,omitempty"`
	Err  string `json:"err,omitempty"`
}

func (g *GenPlan) sanitize() {
	clean := func(es []*GenEntry) []*GenEntry {
		var out []*GenEntry
		seen := map[string]bool{}
		for _, e := range es {
			if e == nil {
				continue
			}
			n := &GenEntry{Procs: map[string]*GenProc{}}
			for k, p := range e.Procs {
				if p == nil || !genNameOK(k) || seen[k] {
					continue
				}
				seen[k] = true
				var os []*GenOpt
				names := map[string]bool{}
				for _, o := range p.Opts {
					if o != nil && genNameOK(o.Name) && !names[o.Name] && genTypes[o.Type] {
						names[o.Name] = true
						os = append(os, o)
					}
				}
				p.Opts = os
				n.Procs[k] = p
			}
			if len(n.Procs) > 0 {
				out = append(out, n)
			}
		}
		return out
	}
	g.First, g.Defs = clean(g.First), clean(g.Defs)
	switch g.Bad {
	case "missing", "garbage", "unknown", "empty", "directory":
	case "type":
		if g.Tool != "procs" || g.BadAt < 0 {
			g.Bad = ""
		}
	default:
		g.Bad = ""
	}
	for i, r := range g.Runs {
		var fs []*FSFault
		for _, f := range r {
			if f != nil {
				fs = append(fs, f)
			}
		}
		g.Runs[i] = fs
	}
	var es []*GenEdit
	for _, e := range g.Edits {
		if e != nil {
			es = append(es, e)
		}
	}
	g.Edits = es
}

func genNameOK(s string) bool {
	for i := 0; i < len(s); i++ {
		if !(s[i] >= 'a' && s[i] <= 'z' || s[i] == '_' && i > 0 || s[i] >= '0' && s[i] <= '9' && i > 0) {
			return false
		}
	}
	return len(s) > 0 && s[len(s)-1] != '_' && len(s) < 60
}

var genTypes = map[string]bool{}

var genTypeList = []string{"string", "bool", "int", "[]string", "map[string]interface{}",
	"github.com/andrewkroh/go-sawmill/pkg/config.EventValue", "time.Duration", "net/url.URL", "example.com/x/y.Z"}

func init() {
	for _, t := range genTypeList {
		genTypes[t] = true
	}
}

func genDefs(r *Rng, names []string) []*GenEntry {
	var out []*GenEntry
	var e *GenEntry
	split := []float64{0.6, 0.6, 0.1}[r.N(3)]
	for _, n := range names {
		if e == nil || r.P(split) {
			e = &GenEntry{Procs: map[string]*GenProc{}}
			out = append(out, e)
		}
		e.Procs[n] = genProcDef(r)
	}
	return out
}

func genProcDef(r *Rng) *GenProc {
	p := &GenProc{Desc: genDesc(r)}
	opts := []string{"field", "target_field", "source_ip", "value", "ignore_missing", "zone", "as_number", "mac"}
	n := r.N(6)
	if r.P(0.05) {
		for i := 0; i < 30; i++ {
			opts = append(opts, "option"+strconv.Itoa(i))
		}
		n = r.Range(6, len(opts))
	}
	for i := n; i > 0; i-- {
		k := r.N(len(opts))
		o := &GenOpt{Name: opts[k], Type: genTypeList[r.N(len(genTypeList))], Desc: genDesc(r)}
		opts = append(opts[:k], opts[k+1:]...)
		switch r.N(3) {
		case 0:
			o.Required = true
		case 1:
			o.Optional = true
		}
		if r.P(0.4) {
			switch o.Type {
			case "string":
				o.Default = "default \"" + strconv.Itoa(r.N(50))
			case "bool":
				o.Default = r.P(0.5)
			case "int":
				o.Default = r.N(100)
			case "time.Duration":
				o.Default = r.Range(-2, 5000)
			}
		}
		p.Opts = append(p.Opts, o)
	}
	return p
}

func genDesc(r *Rng) string {
	if r.P(0.004) { // a document much longer than the buffers it goes through
		return strings.Repeat("Sentence "+strconv.Itoa(r.N(100))+" of a long text. ", r.Range(200, 3500))
	}
	switch r.N(6) {
	case 5:
		return r.Pick("Process events.", "func (p *X) Process(event interface{}) error { return nil }", "First.\n\nfunc Process() {}\n", "// Process", "TODO: implement", "Code generated by x. DO NOT EDIT.")
	case 0:
		return ""
	case 1:
		return "Short text " + strconv.Itoa(r.N(100)) + "."
	case 2:
		return "First line.\n\nSecond paragraph, with `code` and [link](https://example.com/).\n"
	case 3:
		return strings.Repeat("many words to be wrapped ", r.Range(5, 30))
	}
	return "Ünïcode | pipes & <tags> {{ braces }}"
}

func genFSFaults(r *Rng, ops int) []*FSFault {
	var out []*FSFault
	for i := r.Weighted(1, 8, 2, 1); i > 0; i-- {
		f := &FSFault{At: r.N(ops)}
		f.Kind = []string{"error", "error", "kill", "kill", "torn", "torn", "torn", "short", "short", "partial"}[r.N(10)]
		switch f.Kind {
		case "torn", "short":
			f.N = r.N(3000)
			if r.P(0.3) {
				f.N = r.N(40)
			}
			if r.P(0.1) {
				f.N = 1 << 20 // all of it
			}
		case "partial":
			f.N = r.Range(1, 100)
		}
		f.Err = r.Pick("EIO", "ENOSPC", "EACCES", "EMFILE")
		out = append(out, f)
	}
	return out
}

func genC12(r *Rng, thorough bool) *Plan {
	names := []string{"alpha", "beta", "geo_ip", "delta2", "community_id", "kv", "url_decode", "url", "alphabet", "delta", "geo", "k"}
	for i := len(names) - 1; i > 0; i-- {
		j := r.N(i + 1)
		names[i], names[j] = names[j], names[i]
	}
	n := r.Range(1, 5)
	if thorough {
		n = r.Range(1, 9)
	}
	if r.P(0.02) {
		for i := 0; i < 50; i++ {
			names = append(names, "proc"+strconv.Itoa(i))
		}
		n = r.Range(10, len(names))
	}
	g := &GenPlan{Tool: r.Pick("procs", "procs", "docs"), Common: r.P(0.3)}
	g.Defs = genDefs(r, names[:n])
	if r.P(0.65) {
		if r.P(0.5) {
			g.First = g.Defs
		} else {
			g.First = genDefs(r, names[r.N(2):r.Range(2, 5)])
		}
		for _, e := range g.First {
			ks := map[string]int{}
			for k := range e.Procs {
				ks[k] = 0
			}
			for _, k := range sortedNames(ks) {
				if r.P(0.6) {
					g.Edits = append(g.Edits, &GenEdit{"implement", k})
				}
				if r.P(0.2) {
					g.Edits = append(g.Edits, &GenEdit{"file", k})
				}
			}
		}
	}
	runs := r.Weighted(1, 6, 3, 1)
	ops := 6 + 9*n
	if g.Tool == "docs" {
		ops = 10
	}
	for ; runs > 0; runs-- {
		g.Runs = append(g.Runs, genFSFaults(r, ops))
	}
	if r.P(0.08) {
		g.Bad = r.Pick("missing", "garbage", "unknown", "empty", "directory", "type", "type")
		if g.Bad == "type" && g.Tool != "procs" {
			g.Bad = "garbage"
		}
		g.BadAt = r.N(8)
	}
	g.Turn = r.P(0.3)
	g.Wider = r.P(0.2)
	p := &Plan{Gen: g, Variant: g.Tool}
	for i := 0; i < 8; i++ {
		p.Pols = append(p.Pols, hook.Policy{Mode: "none", MapSeed: r.U64() >> 12})
	}
	return p
}

func yamlOf(es []*GenEntry, common bool) []byte {
	type opt struct {
		Name        string      `yaml:"name"`
		Type        string      `yaml:"type"`
		Required    bool        `yaml:"required,omitempty"`
		Optional    bool        `yaml:"optional,omitempty"`
		Default     interface{} `yaml:"default,omitempty"`
		Description string      `yaml:"description,omitempty"`
	}
	type proc struct {
		Description   string `yaml:"description"`
		Configuration []opt  `yaml:"configuration,omitempty"`
	}
	type doc struct {
		CommonFields map[string]interface{} `yaml:"common_fields,omitempty"`
		Processors   []map[string]proc      `yaml:"processors"`
	}
	d := doc{}
	if common {
		d.CommonFields = map[string]interface{}{"field": map[string]interface{}{"name": "field", "type": "string"}, "other": []interface{}{"x", 1}}
	}
	for _, e := range es {
		m := map[string]proc{}
		for k, p := range e.Procs {
			q := proc{Description: p.Desc}
			for _, o := range p.Opts {
				q.Configuration = append(q.Configuration, opt{o.Name, o.Type, o.Required, o.Optional, options(o.Default), o.Desc})
			}
			m[k] = q
		}
		d.Processors = append(d.Processors, m)
	}
	b, err := yaml.Marshal(d)
	if err != nil {
		panic(harnessBug(err.Error()))
	}
	return b
}

// withBadType is the definition with an option of the named processor that has
// no valid type.
func withBadType(es []*GenEntry, name string) []*GenEntry {
	var out []*GenEntry
	for _, e := range es {
		n := &GenEntry{Procs: map[string]*GenProc{}}
		for k, p := range e.Procs {
			if k == name {
				p = &GenProc{p.Desc, append([]*GenOpt{{Name: "broken", Type: "map[string"}}, p.Opts...)}
			}
			n.Procs[k] = p
		}
		out = append(out, n)
	}
	return out
}

// wider is the definition with more to say.
func wider(es []*GenEntry) []*GenEntry {
	var out []*GenEntry
	for _, e := range es {
		n := &GenEntry{Procs: map[string]*GenProc{}}
		for k, p := range e.Procs {
			q := &GenProc{Desc: p.Desc + " And there is more to say about it.", Opts: append([]*GenOpt(nil), p.Opts...)}
			if len(q.Opts) > 0 {
				o := *q.Opts[0]
				o.Desc += " In more words."
				q.Opts[0] = &o
			}
			n.Procs[k] = q
		}
		out = append(out, n)
	}
	return out
}

// turned is the definition with its lists in reverse order.
func turned(es []*GenEntry) []*GenEntry {
	var out []*GenEntry
	for i := len(es) - 1; i >= 0; i-- {
		n := &GenEntry{Procs: map[string]*GenProc{}}
		for k, p := range es[i].Procs {
			q := &GenProc{Desc: p.Desc}
			for j := len(p.Opts) - 1; j >= 0; j-- {
				q.Opts = append(q.Opts, p.Opts[j])
			}
			n.Procs[k] = q
		}
		out = append(out, n)
	}
	return out
}

func namesOf(es []*GenEntry) []string {
	var out []string
	for _, e := range es {
		for k := range e.Procs {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// genRun executes the tool once in dir and returns its exit status and what
// faults struck.
type genOutcome struct {
	code    int
	stderr  string
	struck  int // injected errors
	killed  bool
	ops     int
	denied  []string
	panicky string
}

// errOf is the error of a fault, as far as the operation can have it.
func (f *FSFault) errOf(op string) error {
	opens := op == "open" || op == "openw"
	switch {
	case f.Err == "ENOSPC" && op != "open" && op != "read" && op != "stat" && op != "readdir":
		return syscall.ENOSPC
	case f.Err == "EACCES" && op != "read" && op != "write" && op != "close" && op != "sync":
		return syscall.EACCES
	case f.Err == "EMFILE" && opens:
		return syscall.EMFILE
	}
	return syscall.EIO
}

func (g *GenPlan) runTool(p *Plan, s *Stats, i int, root string, faults []*FSFault) (*genOutcome, *Violation) {
	hook.Restore()
	o := &genOutcome{}
	var errText bytes.Buffer
	yml := filepath.Join(root, "tree", "processors.yml")
	w := &simos.World{
		Args: []string{"-p", yml},
		Root: root,
		Read: func(b []byte) (int, error) { return 0, syscall.EBADF },
		Write: func(fd int, b []byte) (int, error) {
			if fd == 2 {
				errText.Write(b)
			}
			return len(b), nil
		},
	}
	main := procgen.Main
	if g.Tool == "docs" {
		w.Args = append(w.Args, "-o", filepath.Join(root, "tree", "README.md"))
		main = docsgen.Main
	}
	w.FS = o.strike(s, faults)
	simos.Reset(w)
	simlog.Reset()
	simflagdocs.Reset()
	simflagproc.Reset()
	defer simos.Reset(nil)
	res, v := s.simulate(p, i, []string{"main"}, []func(){func() {
		main()
		hook.Exit(0)
	}})
	o.stderr, o.denied = errText.String(), w.Denied
	o.code = res.ExitCode
	if v != nil && v.Class == "panic" {
		// The runtime reports it and exits with status 2.
		o.code, o.panicky = 2, v.Msg
		v = nil
	}
	if v == nil && len(w.Denied) > 0 {
		v = viol("files", "the generator tried to change other files: %v", w.Denied)
	}
	return o, v
}

// strike returns the callback which decides about each operation.
func (o *genOutcome) strike(s *Stats, faults []*FSFault) func(op, path string, n int) simos.Fault {
	return func(op, path string, n int) simos.Fault {
		at := o.ops
		o.ops++
		for _, f := range faults {
			if f.At != at {
				continue
			}
			kind := f.Kind
			if kind == "torn" && op != "write" {
				kind = "kill"
			}
			if kind == "short" && op != "write" && op != "read" {
				kind = "error"
			}
			switch kind {
			case "error":
				o.struck++
				s.fault(op + ": " + f.errOf(op).Error())
				return simos.Fault{Err: f.errOf(op)}
			case "short":
				o.struck++
				s.fault(op + ": short, then error")
				return simos.Fault{Err: f.errOf(op), N: f.N}
			case "kill":
				o.killed = true
				s.fault("killed at " + op)
				return simos.Fault{Kill: 1 + f.N%2}
			case "torn":
				o.killed = true
				s.fault("killed in " + op)
				return simos.Fault{Kill: 2, N: f.N}
			case "partial":
				if op == "read" {
					s.fault("short read")
					return simos.Fault{N: f.N}
				}
			}
		}
		return simos.Fault{}
	}
}

// readTree reads all files below dir.
func readTree(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			panic(harnessBug(err.Error()))
		}
		rel, _ := filepath.Rel(dir, p)
		if !fi.IsDir() {
			b, err := os.ReadFile(p)
			if err != nil {
				panic(harnessBug(err.Error()))
			}
			out[rel] = string(b)
		}
		return nil
	})
	return out
}

func writeTree(dir string, t map[string]string) {
	must(os.MkdirAll(dir, 0o755))
	for k, v := range t {
		p := filepath.Join(dir, k)
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, []byte(v), 0o644))
	}
}

func must(err error) {
	if err != nil {
		panic(harnessBug(err.Error()))
	}
}

// leftBehind drops the temporary files that runs which were killed, or could
// not remove them, left behind, as long as no compiler will find them.
func leftBehind(dir string, t map[string]string) map[string]string {
	for name := range simos.Temps {
		rel, err := filepath.Rel(dir, name)
		if err != nil || strings.HasPrefix(rel, "..") {
			continue
		}
		for k := range t {
			if (k == rel || strings.HasPrefix(k, rel+"/")) && !strings.HasSuffix(k, ".go") {
				delete(t, k)
			}
		}
	}
	return t
}

func treeDiff(want, got map[string]string) string {
	var ks []string
	for k := range want {
		ks = append(ks, k)
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		a, ok1 := want[k]
		b, ok2 := got[k]
		switch {
		case !ok1:
			return fmt.Sprintf("unexpected file %s (%d bytes)", k, len(b))
		case !ok2:
			return fmt.Sprintf("file %s is missing", k)
		case a != b:
			n := 0
			for n < len(a) && n < len(b) && a[n] == b[n] {
				n++
			}
			return fmt.Sprintf("file %s differs at byte %d: want %.80q, got %.80q", k, n, a[n:], b[n:])
		}
	}
	return ""
}

// processMethods counts the Process methods of a source file; -1 if it cannot
// be parsed.
func processMethods(src string) int {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, 0)
	if err != nil {
		return -1
	}
	n := 0
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name == "Process" {
			n++
		}
	}
	return n
}

// handWritten is the method a developer wrote.
func handWritten(name string) string {
	return "package " + name + "\n\n// Written by hand.\nfunc (p *Whatever) Process(event interface{}) error { return nil }\n"
}

// removeProcess cuts the Process method out of a generated file.
func removeProcess(src string) string {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return src
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name == "Process" {
			return src[:fset.Position(fd.Pos()).Offset] + src[fset.Position(fd.End()).Offset:]
		}
	}
	return src
}

func runC12(p *Plan, s *Stats) *Violation {
	g := p.Gen
	if g == nil || len(g.Defs) == 0 || g.Tool != "procs" && g.Tool != "docs" {
		return nil
	}
	if scratchDir == "" {
		d, err := os.MkdirTemp("", "verifsim")
		must(err)
		scratchDir = d
	}
	base := filepath.Join(scratchDir, "gen")
	simos.Temps = map[string]bool{}
	must(os.RemoveAll(base))
	defer os.RemoveAll(base)
	for _, es := range [][]*GenEntry{g.First, g.Defs} {
		var any interface{}
		if yaml.Unmarshal(yamlOf(es, g.Common), &any) != nil {
			return nil // some odd texts do not survive the YAML package
		}
	}
	at := 0
	run := func(root string, faults []*FSFault) (*genOutcome, *Violation) {
		at++
		return g.runTool(p, s, at-1, root, faults)
	}
	clean := func(root, what string) *Violation {
		o, v := run(root, nil)
		if v != nil {
			return v
		}
		if o.code != 0 {
			return viol("clean-run", "%s: exit status %d: %s%s", what, o.code, o.stderr, o.panicky)
		}
		return nil
	}
	hand := map[string]string{}
	yml := "processors.yml"

	// The tree before.
	first := map[string]string{}
	if len(g.First) > 0 {
		root := filepath.Join(base, "first")
		writeTree(filepath.Join(root, "tree"), map[string]string{yml: string(yamlOf(g.First, g.Common))})
		if v := clean(root, "first generation"); v != nil {
			return v
		}
		first = readTree(filepath.Join(root, "tree"))
	}
	implemented := map[string]bool{}
	for _, e := range g.Edits {
		file := e.Name + "/" + e.Name + ".go"
		if _, ok := first[file]; !ok {
			continue
		}
		switch e.Kind {
		case "implement":
			first[file] = removeProcess(first[file])
			implemented[e.Name] = true
			hand[e.Name+"/process.go"] = handWritten(e.Name)
		case "file":
			hand[e.Name+"/helper.go"] = "package " + e.Name + "\n\nvar helper = 1\n"
			hand[e.Name+"/notes.txt"] = "notes"
		}
	}
	for k, v := range hand {
		first[k] = v
	}
	def := yamlOf(g.Defs, g.Common)
	first[yml] = string(def)
	hand[yml] = string(def)
	switch g.Bad {
	case "garbage":
		hand[yml] = "processors: [ {{{ \x00"
	case "unknown":
		hand[yml] = "processors: []\nunknown_section: 1\n"
	case "empty":
		hand[yml] = ""
	case "missing", "directory":
		delete(hand, yml)
		delete(first, yml)
	}
	if g.Bad != "" && g.Bad != "missing" && g.Bad != "directory" && g.Bad != "type" {
		first[yml] = hand[yml]
	}
	handOK := func(t map[string]string, what string) *Violation {
		want := map[string]string{}
		got := map[string]string{}
		for k, v := range hand {
			want[k] = v
			if x, ok := t[k]; ok {
				got[k] = x
			}
		}
		if d := treeDiff(want, got); d != "" {
			return viol("hand-written", "%s: hand-written %s", what, d)
		}
		return nil
	}
	if g.Bad != "" && g.Bad != "type" {
		root := filepath.Join(base, "bad")
		writeTree(filepath.Join(root, "tree"), first)
		if g.Bad == "directory" {
			must(os.Mkdir(filepath.Join(root, "tree", yml), 0o755))
		}
		s.fault("unreadable definition: " + g.Bad)
		o, v := run(root, nil)
		if v != nil {
			return v
		}
		if o.code == 0 {
			return viol("bad-input", "definition cannot be read (%s), but the exit status is 0", g.Bad)
		}
		t := readTree(filepath.Join(root, "tree"))
		if v := handOK(t, "bad definition"); v != nil {
			return v
		}
		if d := treeDiff(first, t); d != "" && g.Bad != "directory" {
			return viol("bad-input", "definition cannot be read (%s), but %s", g.Bad, d)
		}
		return nil
	}

	// The reference: runs without interruption.
	ref := filepath.Join(base, "ref")
	writeTree(filepath.Join(ref, "tree"), first)
	if v := clean(ref, "uninterrupted run"); v != nil {
		return v
	}
	want := readTree(filepath.Join(ref, "tree"))
	if v := handOK(want, "uninterrupted run"); v != nil {
		return v
	}
	if v := g.checkTree(first, want, implemented); v != nil {
		return v
	}
	if v := clean(ref, "second run"); v != nil {
		return v
	}
	if d := treeDiff(want, readTree(filepath.Join(ref, "tree"))); d != "" {
		return viol("rerun", "running again changed the files: %s", d)
	}
	if len(implemented) == 0 {
		// A fresh tree gives the same.
		fresh := filepath.Join(base, "fresh")
		fdef := def
		if g.Turn {
			fdef = yamlOf(turned(g.Defs), g.Common)
		}
		writeTree(filepath.Join(fresh, "tree"), map[string]string{yml: string(fdef)})
		if v := clean(fresh, "run on a fresh tree"); v != nil {
			return v
		}
		got := readTree(filepath.Join(fresh, "tree"))
		for _, k := range fileNames(got) {
			if v := got[k]; k != yml && want[k] != v {
				d := treeDiff(map[string]string{k: v}, map[string]string{k: want[k]})
				return viol("fresh", "a generated tree gives other files than a fresh one: %s", d)
			}
		}
	}

	// The same with faults.
	sub := filepath.Join(base, "sub")
	writeTree(filepath.Join(sub, "tree"), first)
	if g.Bad == "type" {
		s.fault("definition that gives no code")
		name := namesOf(g.Defs)[g.BadAt%len(namesOf(g.Defs))]
		writeTree(filepath.Join(sub, "tree"), map[string]string{yml: string(yamlOf(withBadType(g.Defs, name), g.Common))})
		o, v := run(sub, nil)
		if v != nil {
			return v
		}
		if o.code == 0 {
			return viol("bad-input", "the definition of %s does not give valid code, but the exit status is 0", name)
		}
		t := readTree(filepath.Join(sub, "tree"))
		k := name + "/" + name + ".go"
		if t[k] != first[k] {
			return viol("bad-input", "the definition of %s does not give valid code, but %s", name,
				treeDiff(map[string]string{k: first[k]}, map[string]string{k: t[k]}))
		}
		writeTree(filepath.Join(sub, "tree"), map[string]string{yml: string(def)})
	}
	for i, faults := range g.Runs {
		what := "run " + strconv.Itoa(i+1)
		if g.Wider && i == 0 {
			// Another definition at that time.
			wide := yamlOf(wider(g.Defs), g.Common)
			var any interface{}
			if yaml.Unmarshal(wide, &any) != nil {
				return nil
			}
			writeTree(filepath.Join(sub, "tree"), map[string]string{yml: string(wide)})
			if _, v := run(sub, faults); v != nil {
				return v
			}
			writeTree(filepath.Join(sub, "tree"), map[string]string{yml: string(def)})
			if v := handOK(readTree(filepath.Join(sub, "tree")), what); v != nil {
				return v
			}
			continue
		}
		o, v := run(sub, faults)
		if v != nil {
			return v
		}
		t := leftBehind(filepath.Join(sub, "tree"), readTree(filepath.Join(sub, "tree")))
		if v := handOK(t, what); v != nil {
			return v
		}
		d := treeDiff(want, t)
		s.state(d + strconv.Itoa(o.code))
		switch {
		case o.killed:
		case o.struck == 0 && o.code != 0:
			return viol("clean-run", "%s met no fault, but exits with %d: %s%s", what, o.code, o.stderr, o.panicky)
		case o.code == 0 && d != "":
			return viol("silent", "%s met %d error(s) and exits with 0, but %s", what, o.struck, d)
		}
	}
	if v := clean(sub, "last run"); v != nil {
		return v
	}
	if d := treeDiff(want, leftBehind(filepath.Join(sub, "tree"), readTree(filepath.Join(sub, "tree")))); d != "" {
		return viol("recovery", "after faults and a run without, %s", d)
	}
	return nil
}

// checkTree judges the files of an uninterrupted run.
func (g *GenPlan) checkTree(before, t map[string]string, implemented map[string]bool) *Violation {
	names := namesOf(g.Defs)
	if g.Tool == "docs" {
		doc, ok := t["README.md"]
		if !ok {
			return viol("output", "no documentation was written")
		}
		for _, n := range names {
			if !strings.Contains(doc, "\n### "+n+"\n") {
				return viol("output", "processor %s is missing in the documentation", n)
			}
		}
		for _, e := range g.Defs {
			for n, d := range e.Procs {
				if why := docLacks(doc, n, d); why != "" {
					return viol("content", "the documentation of %s lacks %s", n, why)
				}
			}
		}
		for _, k := range fileNames(t) {
			if _, old := before[k]; !old && k != "README.md" {
				return viol("output", "unexpected file %s", k)
			}
		}
		return nil
	}
	ours := map[string]bool{}
	for _, n := range names {
		k := n + "/" + n + ".go"
		ours[k] = true
		src, ok := t[k]
		if !ok {
			return viol("output", "file %s was not written", k)
		}
		want := 1
		if implemented[n] {
			want = 0
		}
		if c := processMethods(src); c != want {
			return viol("output", "file %s has %d Process methods, want %d", k, c, want)
		}
	}
	for _, e := range g.Defs {
		for n, d := range e.Procs {
			if why := codeLacks(t[n+"/"+n+".go"], n, d); why != "" {
				return viol("content", "file %s/%s.go lacks %s", n, n, why)
			}
		}
	}
	for _, k := range fileNames(t) {
		v := t[k]
		if old, was := before[k]; !ours[k] && (!was || old != v) {
			return viol("output", "unexpected change of file %s", k)
		}
	}
	return nil
}

// words is a text without its layout: line breaks, indentation and the marks
// of comments.
func words(text string) string {
	var out []string
	for _, w := range strings.Fields(text) {
		if w != "//" {
			out = append(out, w)
		}
	}
	if len(out) == 0 {
		return " "
	}
	return " " + strings.Join(out, " ") + " "
}

// docLacks says what is missing in the section of a processor.
func docLacks(doc, name string, p *GenProc) string {
	sec := doc[strings.Index(doc, "\n### "+name+"\n")+1:]
	if i := strings.Index(sec, "\n### "); i >= 0 {
		sec = sec[:i]
	}
	if !strings.Contains(words(sec), words(p.Desc)) {
		return "its description"
	}
	for _, o := range p.Opts {
		row := ""
		for _, l := range strings.Split(sec, "\n") {
			if f := strings.SplitN(l, "|", 3); len(f) == 3 && strings.TrimSpace(f[1]) == o.Name {
				row = f[2]
			}
		}
		cells := strings.SplitN(row, "|", 3)
		switch {
		case len(cells) < 3:
			return "option " + o.Name
		case (strings.TrimSpace(cells[0]) != "") != o.Required:
			return "what it requires of option " + o.Name
		case (strings.TrimSpace(cells[1]) != "") != o.Optional:
			return "the mark of optional option " + o.Name
		case !strings.Contains(words(cells[2]), words(o.Desc)):
			return "the description of option " + o.Name
		}
		if d := options(o.Default); d != nil && d != false && d != 0 && d != "" && !strings.Contains(row, fmt.Sprint(d)) {
			return "the default of option " + o.Name
		}
	}
	return ""
}

// codeLacks says what is missing in the code generated for a processor.
func codeLacks(src, name string, p *GenProc) string {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, parser.ParseComments)
	if err != nil {
		return "valid code: " + err.Error()
	}
	if f.Name.Name != name && f.Name.Name != strings.Replace(name, "_", "", -1) {
		return "its package name"
	}
	all := words(src)
	if !strings.Contains(all, words(p.Desc)) {
		return "the description"
	}
	fields := map[string]*ast.Field{}
	var defaults []string
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.Field:
			if n.Tag != nil && len(n.Names) == 1 {
				tag, _ := strconv.Unquote(n.Tag.Value)
				fields[reflect.StructTag(tag).Get("config")] = n
			}
		case *ast.AssignStmt:
			if len(n.Lhs) == 1 {
				if l, ok := n.Lhs[0].(*ast.SelectorExpr); ok {
					defaults = append(defaults, l.Sel.Name+"="+strings.TrimSpace(src[n.Rhs[0].Pos()-f.FileStart:n.Rhs[0].End()-f.FileStart]))
				}
			}
		}
		return true
	})
	for _, o := range p.Opts {
		fl := fields[o.Name]
		if fl == nil {
			return "option " + o.Name
		}
		tag, _ := strconv.Unquote(fl.Tag.Value)
		if strings.Contains(reflect.StructTag(tag).Get("validate"), "required") != o.Required {
			return "what it requires of option " + o.Name
		}
		if !strings.Contains(words(fl.Doc.Text()+fl.Comment.Text()), words(o.Desc)) && !strings.Contains(all, words(o.Desc)) {
			return "the description of option " + o.Name
		}
		typ := src[fl.Type.Pos()-f.FileStart : fl.Type.End()-f.FileStart]
		if want := o.Type[strings.LastIndex(o.Type, "/")+1:]; typ != want {
			return "the type of option " + o.Name
		}
		if i := strings.LastIndex(o.Type, "."); i >= 0 {
			found := false
			for _, im := range f.Imports {
				found = found || im.Path.Value == strconv.Quote(o.Type[:i])
			}
			if !found {
				return "the import for the type of option " + o.Name
			}
		}
		if o.Default == nil {
			continue
		}
		want := fmt.Sprint(options(o.Default))
		if t, ok := o.Default.(string); ok {
			want = strconv.Quote(t)
		}
		found := false
		for _, d := range defaults {
			found = found || d == fl.Names[0].Name+"="+want
		}
		if !found {
			return "the default of option " + o.Name
		}
	}
	return ""
}

func fileNames(t map[string]string) []string {
	out := make([]string, 0, len(t))
	for k := range t {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
