// Command instr rewrites the current sources of a Go module for deterministic
// simulation. It writes rewritten copies and an overlay file for
// "go build -overlay"; the module itself is not touched.
//
// Rewrites (all textual insertions, line numbers are kept):
//   - a yield point before every statement,
//   - read-modify-write statements split into read, yield, write,
//   - ranges over maps iterate in an order owned by the simulator,
//   - go statements start simulator tasks,
//   - statements that may block on channels announce it,
//   - imports of os, sync, log, ... replaced by simulator shims,
//   - main packages made importable (package clause and main renamed).
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"log"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	EmbedFiles []string
	Standard   bool
	Module     *struct {
		Path string
		Dir  string
		Main bool
	}
	Error *struct{ Err string }
}

type edit struct {
	off  int
	end  int // text in [off,end) is replaced
	seq  int
	text string
}

type site struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

var (
	repo    = flag.String("repo", "/repo", "module root")
	out     = flag.String("out", "", "output directory")
	sim     = flag.String("sim", "", "directory with hook, shim and harness sources")
	modfile = flag.String("modfile", "", "alternative go.mod")
	plain   = flag.Bool("plain", false, "rewrite imports and main packages only (no yield points)")
)

const base = "internal/verifsim"

var (
	modPath string
	sites   []site
	stats   = map[string]int{}
	overlay = map[string]string{}
	exports = map[string]string{}
)

// shims maps import paths to the shim directory name.
var shims = map[string]string{
	"os":        "os",
	"sync":      "sync",
	"log":       "log",
	"fmt":       "fmt",
	"net":       "net",
	"net/http":  "http",
	"io/ioutil": "ioutil",
	"go/parser": "parser",
	"time":      "time",
	"flag":      "flag", // per main package

	"runtime/pprof": "pprof",
	"math/rand":     "mrand",
	"crypto/rand":   "crand",
	"hash/maphash":  "maphash",
	"runtime":       "runtime",
}

// mains maps main packages to the name of their importable copy.
var mains = map[string]string{
	"cmd/sawmill":            "cmdsawmill",
	"docs/generate":          "docsgen",
	"pkg/processor/generate": "procgen",
}

func main() {
	log.SetFlags(0)
	flag.Parse()

	pkgs := list()
	for _, p := range pkgs {
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.Module != nil && p.Module.Main {
			modPath = p.Module.Path
		}
	}
	usedShims := map[string]bool{}
	for _, p := range pkgs {
		if p.Module == nil || !p.Module.Main {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/")
		if strings.HasPrefix(rel, "examples") || strings.HasPrefix(rel, base) {
			continue
		}
		if p.Error != nil {
			log.Fatalf("package %s: %s", p.ImportPath, p.Error.Err)
		}
		if p.Name == "main" && mains[rel] == "" {
			continue // not part of any simulated system
		}
		if len(p.CgoFiles) > 0 {
			continue
		}
		instrument(p, rel, usedShims)
	}
	for _, name := range mains {
		usedShims["flag@"+name] = true
	}
	genShims(usedShims)
	copyTree(filepath.Join(*sim, "harness"), base+"/harness")

	writeJSON(filepath.Join(*out, "overlay.json"), map[string]interface{}{"Replace": overlay})
	writeJSON(filepath.Join(*out, "sites.json"), map[string]interface{}{"sites": sites, "stats": stats})
}

func list() []*listPkg {
	args := []string{"list", "-e", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,GoFiles,CgoFiles,EmbedFiles,Standard,Module,Error"}
	if *modfile != "" {
		args = append(args, "-modfile="+*modfile)
	}
	args = append(args, "./...")
	for _, s := range []string{"os", "sync", "log", "fmt", "net", "net/http", "io/ioutil", "go/parser", "time", "flag", "runtime/pprof", "math/rand", "crypto/rand", "hash/maphash", "runtime"} {
		args = append(args, s)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		log.Fatalf("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(data))
	var pkgs []*listPkg
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			log.Fatal(err)
		}
		pkgs = append(pkgs, p)
	}
	return pkgs
}

func lookup(p string) (io.ReadCloser, error) {
	f, ok := exports[p]
	if !ok {
		return nil, fmt.Errorf("no export data for %s", p)
	}
	return os.Open(f)
}

type fileRW struct {
	fset   *token.FileSet
	src    []byte
	edits  []edit
	seq    int
	info   *types.Info
	pkg    *types.Package
	file   *ast.File
	rel    string
	fn     string
	usesSh bool
	tmp    int
	bare   *ast.UnaryExpr // a receive whose value is not used
	double *ast.UnaryExpr // a receive that yields two values
	tf     *token.File
}

func (f *fileRW) off(p token.Pos) int { return f.tf.Offset(p) }
func (f *fileRW) ins(p token.Pos, text string) {
	f.seq++
	f.edits = append(f.edits, edit{f.off(p), f.off(p), f.seq, text})
	f.usesSh = f.usesSh || strings.Contains(text, "__sh.")
}
func (f *fileRW) repl(from, to token.Pos, text string) {
	f.seq++
	f.edits = append(f.edits, edit{f.off(from), f.off(to), f.seq, text})
	f.usesSh = f.usesSh || strings.Contains(text, "__sh.")
}
func (f *fileRW) text(n ast.Node) string { return string(f.src[f.off(n.Pos()):f.off(n.End())]) }

func instrument(p *listPkg, rel string, usedShims map[string]bool) {
	fset := token.NewFileSet()
	var files []*ast.File
	var rws []*fileRW
	for _, name := range p.GoFiles {
		full := filepath.Join(p.Dir, name)
		src, err := os.ReadFile(full)
		if err != nil {
			log.Fatal(err)
		}
		file, err := parser.ParseFile(fset, full, src, parser.ParseComments)
		if err != nil {
			log.Fatal(err)
		}
		files = append(files, file)
		rws = append(rws, &fileRW{fset: fset, src: src, file: file, rel: path.Join(rel, name), tf: fset.File(file.Pos())})
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{
		Importer: importer.ForCompiler(fset, "gc", lookup),
		Error:    func(err error) { stats["type_errors"]++ },
	}
	pkg, _ := conf.Check(p.ImportPath, fset, files, info)

	lib := mains[rel]
	destDir := filepath.Join(*repo, rel)
	if lib != "" && p.Name == "main" {
		destDir = filepath.Join(*repo, base, lib)
	}
	for i, rw := range rws {
		rw.info, rw.pkg = info, pkg
		rw.rewrite(lib, usedShims)
		dst := filepath.Join(*out, "gen", rel, p.GoFiles[i])
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			log.Fatal(err)
		}
		if err := os.WriteFile(dst, rw.apply(), 0o644); err != nil {
			log.Fatal(err)
		}
		overlay[filepath.Join(destDir, p.GoFiles[i])] = dst
	}
	var names []string
	for _, file := range files {
		for _, d := range file.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				for _, n := range sp.(*ast.ValueSpec).Names {
					if n.Name != "_" {
						names = append(names, "&"+n.Name)
					}
				}
			}
		}
	}
	if len(names) > 0 {
		pkgName := p.Name
		if lib != "" && p.Name == "main" {
			pkgName = lib
		}
		dst := filepath.Join(*out, "gen", rel, "verifsim_state.go")
		text := fmt.Sprintf("package %s\n\nimport __sh \"verifsim.local/hook\"\n\nfunc init() { __sh.State(%q, %s) }\n", pkgName, modPath, strings.Join(names, ", "))
		if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
			log.Fatal(err)
		}
		overlay[filepath.Join(destDir, "verifsim_state.go")] = dst
	}
	if lib != "" && p.Name == "main" {
		for _, e := range p.EmbedFiles {
			overlay[filepath.Join(destDir, e)] = filepath.Join(p.Dir, e)
		}
	}
	stats["packages"]++
	stats["files"] += len(rws)
}

func (f *fileRW) apply() []byte {
	if f.usesSh {
		f.seq++
		o := f.off(f.file.Name.End())
		f.edits = append(f.edits, edit{o, o, 1 << 30, `; import __sh "verifsim.local/hook"`})
	}
	sort.SliceStable(f.edits, func(i, j int) bool {
		if f.edits[i].off != f.edits[j].off {
			return f.edits[i].off < f.edits[j].off
		}
		return f.edits[i].seq < f.edits[j].seq
	})
	var b bytes.Buffer
	pos := 0
	for _, e := range f.edits {
		if e.off < pos {
			log.Fatalf("%s: overlapping edits at %d (%q)", f.rel, e.off, e.text)
		}
		b.Write(f.src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(f.src[pos:])
	return b.Bytes()
}

func (f *fileRW) rewrite(lib string, usedShims map[string]bool) {
	for _, im := range f.file.Imports {
		v, err := strconv.Unquote(im.Path.Value)
		if err != nil {
			continue
		}
		s, ok := shims[v]
		if !ok || (im.Name != nil && im.Name.Name == "_") {
			continue
		}
		key := v
		if v == "flag" {
			if lib == "" {
				continue
			}
			s, key = "flag_"+lib, "flag@"+lib
		}
		usedShims[key] = true
		f.repl(im.Path.Pos(), im.Path.End(), strconv.Quote(modPath+"/"+base+"/shim/"+s))
	}
	if lib != "" {
		f.repl(f.file.Name.Pos(), f.file.Name.End(), lib)
	}
	for _, d := range f.file.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if lib != "" && d.Recv == nil && d.Name.Name == "main" {
				f.repl(d.Name.Pos(), d.Name.End(), "Main")
			}
			if d.Body != nil && !*plain {
				f.fn = d.Name.Name
				f.block(d.Body)
			}
		case *ast.GenDecl:
			if !*plain {
				f.fn = "var"
				f.exprs(d)
			}
		}
	}
}

// exprs visits function literals and call rewrites inside a node which is not
// itself a statement list.
func (f *fileRW) exprs(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.FuncLit:
			f.block(x.Body)
			return false
		case *ast.BlockStmt:
			f.block(x)
			return false
		case *ast.CallExpr:
			f.reflectIter(x)
			f.closeCall(x)
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				f.pair(x.Rhs[0])
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				f.pair(x.Values[0])
			}
		case *ast.ExprStmt:
			if u := receive(x.X); u != nil {
				f.bare = u
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				f.recv(x)
				return false
			}
		}
		return true
	})
}

// receive returns the receive operation an expression consists of.
func receive(e ast.Expr) *ast.UnaryExpr {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				return x
			}
			return nil
		default:
			return nil
		}
	}
}

// pair notes a receive operation that yields two values.
func (f *fileRW) pair(e ast.Expr) { f.double = receive(e) }

func (f *fileRW) elemText(c ast.Expr) (string, bool) {
	tv, ok := f.info.Types[c]
	if !ok || tv.Type == nil {
		return "", false
	}
	ch, ok := tv.Type.Underlying().(*types.Chan)
	if !ok {
		return "", false
	}
	return f.typeText(ch.Elem())
}

// recv makes a receive operation wait for its turn.
func (f *fileRW) recv(u *ast.UnaryExpr) {
	elem, ok := f.elemText(u.X)
	if !ok && f.bare != u {
		f.exprs(u.X)
		return
	}
	stats["channel_operations"]++
	f.tmp++
	n := f.tmp
	switch {
	case f.bare == u:
		f.repl(u.OpPos, u.X.Pos(), fmt.Sprintf("func() { __c%d := ", n))
		f.exprs(u.X)
		f.ins(u.X.End(), fmt.Sprintf("; __sh.Recv(__c%d); <-__c%d; __sh.After() }()", n, n))
	case f.double == u:
		f.repl(u.OpPos, u.X.Pos(), fmt.Sprintf("func() (%s, bool) { __c%d := ", elem, n))
		f.exprs(u.X)
		f.ins(u.X.End(), fmt.Sprintf("; __sh.Recv(__c%d); __v%d, __k%d := <-__c%d; __sh.After(); return __v%d, __k%d }()", n, n, n, n, n, n))
	default:
		f.repl(u.OpPos, u.X.Pos(), fmt.Sprintf("func() %s { __c%d := ", elem, n))
		f.exprs(u.X)
		f.ins(u.X.End(), fmt.Sprintf("; __sh.Recv(__c%d); __v%d := <-__c%d; __sh.After(); return __v%d }()", n, n, n, n))
	}
}

// closeCall lets the tasks waiting for a channel know that it gets closed.
func (f *fileRW) closeCall(c *ast.CallExpr) {
	id, ok := c.Fun.(*ast.Ident)
	if !ok || id.Name != "close" || len(c.Args) != 1 {
		return
	}
	if _, ok := f.info.Uses[id].(*types.Builtin); !ok {
		return
	}
	f.repl(id.Pos(), id.End(), "__sh.Close")
	stats["channel_operations"]++
}

// send makes a send statement wait for its turn.
func (f *fileRW) send(s *ast.SendStmt) {
	elem, typed := f.elemText(s.Chan)
	tv, ok := f.info.Types[s.Value]
	stats["channel_operations"]++
	f.tmp++
	n := f.tmp
	f.ins(s.Pos(), fmt.Sprintf("{ __c%d := ", n))
	f.exprs(s.Chan)
	switch {
	case typed:
		f.repl(s.Chan.End(), s.Value.Pos(), fmt.Sprintf("; var __v%d %s = ", n, elem))
		f.exprs(s.Value)
		f.ins(s.End(), fmt.Sprintf("; __sh.Send(__c%d); __c%d <- __v%d; __sh.After() }", n, n, n))
	case ok && tv.Value == nil && !tv.IsNil():
		f.repl(s.Chan.End(), s.Value.Pos(), fmt.Sprintf("; __v%d := ", n))
		f.exprs(s.Value)
		f.ins(s.End(), fmt.Sprintf("; __sh.Send(__c%d); __c%d <- __v%d; __sh.After() }", n, n, n))
	default:
		f.repl(s.Chan.End(), s.Value.Pos(), fmt.Sprintf("; __sh.Send(__c%d); __c%d <- ", n, n))
		f.exprs(s.Value)
		f.ins(s.End(), "; __sh.After() }")
	}
}

// comm takes the operation of a select clause apart.
func comm(c *ast.CommClause) (send *ast.SendStmt, recv *ast.UnaryExpr, lhs []ast.Expr, tok token.Token) {
	switch x := c.Comm.(type) {
	case *ast.SendStmt:
		return x, nil, nil, 0
	case *ast.ExprStmt:
		return nil, receive(x.X), nil, 0
	case *ast.AssignStmt:
		if len(x.Rhs) == 1 {
			return nil, receive(x.Rhs[0]), x.Lhs, x.Tok
		}
	}
	return
}

// canSelect reports whether a select statement can be taken apart.
func (f *fileRW) canSelect(s *ast.SelectStmt) bool {
	for _, c := range s.Body.List {
		c := c.(*ast.CommClause)
		if c.Comm == nil {
			continue
		}
		send, recv, lhs, _ := comm(c)
		switch {
		case send != nil:
			if _, ok := f.elemText(send.Chan); !ok || hasLit(send.Chan) || hasLit(send.Value) {
				return false
			}
		case recv != nil:
			if _, ok := f.elemText(recv.X); hasLit(recv.X) || !ok && len(lhs) > 0 {
				return false
			}
			for _, e := range lhs {
				if hasLit(e) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (f *fileRW) selectStmt(s *ast.SelectStmt, start token.Pos) {
	if !f.canSelect(s) {
		for _, c := range s.Body.List {
			f.list(c.(*ast.CommClause).Body)
		}
		return
	}
	stats["channel_operations"]++
	if len(s.Body.List) == 0 {
		f.repl(s.Pos(), s.End(), `{ __sh.Never(); panic("unreachable") }`)
		return
	}
	f.tmp++
	n := f.tmp
	pre, cases, native, chosen := "", "", "", ""
	def := false
	k := 0
	total := 0
	for _, c := range s.Body.List {
		if c.(*ast.CommClause).Comm != nil {
			total++
		}
	}
	type head struct {
		from, to token.Pos
		text     string
	}
	var heads []head
	for _, c := range s.Body.List {
		c := c.(*ast.CommClause)
		if c.Comm == nil {
			def = true
			native += fmt.Sprintf("default: __i%d = %d; ", n, total)
			continue
		}
		send, recv, lhs, tok := comm(c)
		id := fmt.Sprintf("%d_%d", n, k)
		op, text := "", ""
		if send != nil {
			elem, _ := f.elemText(send.Chan)
			pre += fmt.Sprintf("__c%s := %s; var __v%s %s = %s; ", id, f.text(send.Chan), id, elem, f.text(send.Value))
			cases += fmt.Sprintf(", __sh.S(__c%s)", id)
			op = fmt.Sprintf("__c%s <- __v%s", id, id)
		} else {
			pre += fmt.Sprintf("__c%s := %s; ", id, f.text(recv.X))
			cases += fmt.Sprintf(", __sh.R(__c%s)", id)
			if len(lhs) == 0 {
				op = fmt.Sprintf("<-__c%s", id)
			} else {
				elem, _ := f.elemText(recv.X)
				pre += fmt.Sprintf("var __r%s %s; var __k%s bool; _, _ = __r%s, __k%s; ", id, elem, id, id, id)
				op = fmt.Sprintf("__r%s, __k%s = <-__c%s", id, id, id)
				names, vals := f.text(lhs[0]), "__r"+id
				if len(lhs) == 2 {
					names += ", " + f.text(lhs[1])
					vals += ", __k" + id
				}
				text = fmt.Sprintf(" %s %s %s;", names, tok, vals)
			}
		}
		native += fmt.Sprintf("case %s: __i%d = %d; ", op, n, k)
		chosen += fmt.Sprintf("case %d: %s; ", k, op)
		heads = append(heads, head{c.Case, c.Colon + 1, fmt.Sprintf("case %d:%s", k, text)})
		k++
	}
	f.ins(start, fmt.Sprintf("{ %s__i%d := __sh.Sel(%v%s); if __i%d < 0 { select { %s} } else { switch __i%d { %s} }; __sh.After(); ", pre, n, def, cases, n, native, n, chosen))
	f.repl(s.Select, s.Select+token.Pos(len("select")), fmt.Sprintf("switch __i%d", n))
	k = 0
	for _, c := range s.Body.List {
		c := c.(*ast.CommClause)
		if c.Comm != nil {
			f.repl(heads[k].from, heads[k].to, heads[k].text)
			k++
		}
		f.list(c.Body)
	}
	end := " }"
	if !def {
		f.ins(s.Body.Rbrace, `; default: panic("unreachable"); `)
	}
	f.ins(s.End(), end)
}

// reflectIter routes reflect map iteration to the simulator.
func (f *fileRW) reflectIter(c *ast.CallExpr) {
	sel, ok := c.Fun.(*ast.SelectorExpr)
	if !ok || len(c.Args) != 0 || (sel.Sel.Name != "MapRange" && sel.Sel.Name != "MapKeys") {
		return
	}
	tv, ok := f.info.Types[sel.X]
	if !ok || tv.Type == nil || tv.Type.String() != "reflect.Value" {
		return
	}
	f.ins(c.Pos(), "__sh."+sel.Sel.Name+"(")
	f.repl(sel.X.End(), c.End(), ")")
	stats["reflect_map_iterations"]++
}

func (f *fileRW) site(n ast.Node) string {
	id := len(sites)
	sites = append(sites, site{id, f.rel, f.tf.Line(n.Pos()), f.fn})
	return fmt.Sprintf("__sh.Y(%d); ", id)
}

func (f *fileRW) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	if len(b.List) == 0 {
		f.ins(b.Lbrace+1, " "+f.site(b))
		return
	}
	f.list(b.List)
}

func (f *fileRW) list(l []ast.Stmt) {
	for _, s := range l {
		switch s := s.(type) {
		case *ast.CaseClause:
			for _, e := range s.List {
				f.exprs(e)
			}
			f.list(s.Body)
		case *ast.EmptyStmt:
		default:
			f.ins(s.Pos(), f.site(s))
			f.stmt(s, s.Pos())
		}
	}
}

// stmt rewrites a statement that is an element of a statement list; start is
// where text may be inserted before it (before its label).
func (f *fileRW) stmt(s ast.Stmt, start token.Pos) {
	if f.blocks(s) {
		f.ins(start, "__sh.Pre(); ")
		stats["blocking_statements"]++
	}
	switch s := s.(type) {
	case *ast.LabeledStmt:
		f.stmt(s.Stmt, start)
	case *ast.BlockStmt:
		f.block(s)
	case *ast.IfStmt:
		f.ifStmt(s)
	case *ast.ForStmt:
		f.exprsStmt(s.Init)
		f.exprs2(s.Cond)
		f.exprsStmt(s.Post)
		f.block(s.Body)
	case *ast.RangeStmt:
		if f.chanRange(s) {
			return
		}
		if !f.mapRange(s, start) {
			f.exprs(s.X)
			f.block(s.Body)
		}
	case *ast.SwitchStmt:
		f.exprsStmt(s.Init)
		f.exprs2(s.Tag)
		f.list(s.Body.List)
	case *ast.TypeSwitchStmt:
		f.exprsStmt(s.Init)
		f.exprsStmt(s.Assign)
		f.list(s.Body.List)
	case *ast.SelectStmt:
		f.selectStmt(s, start)
	case *ast.SendStmt:
		f.send(s)
	case *ast.GoStmt:
		f.goStmt(s)
	case *ast.IncDecStmt:
		if f.shared(s.X) {
			f.tmp++
			op := "+"
			if s.Tok == token.DEC {
				op = "-"
			}
			x := f.text(s.X)
			f.repl(s.Pos(), s.End(), fmt.Sprintf("{ __t%d := %s; %s%s = __t%d %s 1 }", f.tmp, x, f.site(s), x, f.tmp, op))
			stats["split_updates"]++
			return
		}
		f.exprs(s)
	case *ast.AssignStmt:
		f.assign(s)
	default:
		f.exprs(s)
	}
}

func (f *fileRW) exprsStmt(s ast.Stmt) {
	if s != nil {
		f.exprs(s)
	}
}
func (f *fileRW) exprs2(e ast.Expr) {
	if e != nil {
		f.exprs(e)
	}
}

func (f *fileRW) ifStmt(s *ast.IfStmt) {
	f.exprsStmt(s.Init)
	f.exprs2(s.Cond)
	f.block(s.Body)
	switch e := s.Else.(type) {
	case *ast.IfStmt:
		f.ifStmt(e)
	case *ast.BlockStmt:
		f.block(e)
	}
}

// shared reports whether x names memory other goroutines might share and can
// be evaluated twice.
func (f *fileRW) shared(x ast.Expr) bool {
	simple := true
	ast.Inspect(x, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.CompositeLit, *ast.UnaryExpr, *ast.TypeAssertExpr:
			simple = false
		case *ast.IndexExpr:
			_ = n
		}
		return simple
	})
	if !simple {
		return false
	}
	switch x := x.(type) {
	case *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
		return true
	case *ast.ParenExpr:
		return f.shared(x.X)
	case *ast.Ident:
		if o, ok := f.info.Uses[x]; ok && o != nil && f.pkg != nil {
			if v, ok := o.(*types.Var); ok {
				return v.Parent() == f.pkg.Scope()
			}
		}
	}
	return false
}

func (f *fileRW) assign(s *ast.AssignStmt) {
	if len(s.Lhs) != 1 || len(s.Rhs) != 1 || s.Tok == token.DEFINE || !f.shared(s.Lhs[0]) || hasLit(s.Rhs[0]) || hasReflectIter(s.Rhs[0]) {
		f.exprs(s)
		return
	}
	lhs, rhs := f.text(s.Lhs[0]), f.text(s.Rhs[0])
	if s.Tok != token.ASSIGN {
		// x op= y
		tv := f.info.Types[s.Lhs[0]]
		if tv.Type == nil || s.Tok == token.SHL_ASSIGN || s.Tok == token.SHR_ASSIGN {
			f.exprs(s)
			return
		}
		f.tmp++
		op := strings.TrimSuffix(s.Tok.String(), "=")
		f.repl(s.Pos(), s.End(), fmt.Sprintf("{ __t%d := %s; %s%s = __t%d %s (%s) }", f.tmp, lhs, f.site(s), lhs, f.tmp, op, rhs))
		stats["split_updates"]++
		return
	}
	tv, ok := f.info.Types[s.Rhs[0]]
	if !ok || tv.Type == nil || tv.Value != nil || tv.IsNil() {
		return
	}
	if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return
	}
	// Only worth it when the right side reads something or calls.
	switch s.Rhs[0].(type) {
	case *ast.CallExpr, *ast.BinaryExpr, *ast.SelectorExpr, *ast.IndexExpr, *ast.SliceExpr:
	default:
		f.exprs(s)
		return
	}
	f.tmp++
	f.repl(s.Pos(), s.End(), fmt.Sprintf("{ __t%d := %s; %s%s = __t%d }", f.tmp, rhs, f.site(s), lhs, f.tmp))
	stats["split_updates"]++
}

func hasLit(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			found = true
		case *ast.UnaryExpr:
			found = found || n.Op == token.ARROW
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" {
				found = true
			}
		}
		return !found
	})
	return found
}

func hasReflectIter(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok && (s.Sel.Name == "MapRange" || s.Sel.Name == "MapKeys") {
			found = true
		}
		return !found
	})
	return found
}

// mapRange rewrites a range over a map so the simulator picks the order.
func (f *fileRW) mapRange(s *ast.RangeStmt, start token.Pos) bool {
	tv, ok := f.info.Types[s.X]
	if !ok || tv.Type == nil {
		return false
	}
	m, ok := tv.Type.Underlying().(*types.Map)
	if !ok {
		return false
	}
	key, ok := f.typeText(m.Key())
	if !ok || hasLit(s.X) {
		stats["map_ranges_not_controlled"]++
		return false
	}
	elem, elemOK := f.typeText(m.Elem())
	stats["map_ranges"]++
	f.tmp++
	n := f.tmp
	f.ins(start, fmt.Sprintf("{ __m%d := %s; ", n, f.text(s.X)))
	body := ""
	keyName := fmt.Sprintf("__k%d", n)
	blank := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return e == nil || ok && id.Name == "_"
	}
	if s.Tok == token.DEFINE && !blank(s.Key) {
		keyName = f.text(s.Key)
	}
	switch {
	case !blank(s.Value) && s.Tok == token.DEFINE && elemOK:
		// One variable for all iterations, as the language has it here.
		val := f.text(s.Value)
		f.ins(start, fmt.Sprintf("var %s %s; _ = %s; var __ok%d bool; ", val, elem, val, n))
		body += fmt.Sprintf(" %s, __ok%d = __m%d[%s]; if !__ok%d { continue };", val, n, n, keyName, n)
	case !blank(s.Value) && s.Tok == token.DEFINE:
		body += fmt.Sprintf(" %s, __ok%d := __m%d[%s]; if !__ok%d { continue };", f.text(s.Value), n, n, keyName, n)
	case !blank(s.Value):
		body += fmt.Sprintf(" __v%d, __ok%d := __m%d[%s]; if !__ok%d { continue }; %s = __v%d;", n, n, n, keyName, n, f.text(s.Value), n)
	default:
		body += fmt.Sprintf(" if _, __ok%d := __m%d[%s]; !__ok%d { continue };", n, n, keyName, n)
	}
	if s.Tok == token.ASSIGN && !blank(s.Key) {
		body += fmt.Sprintf(" %s = %s;", f.text(s.Key), keyName)
	}
	f.repl(s.For, s.X.End(), fmt.Sprintf("for _, %s := range __sh.Keys(__m%d).([]%s) ", keyName, n, key))
	f.ins(s.Body.Lbrace+1, body+" {")
	f.block(s.Body)
	f.ins(s.Body.Rbrace, " }")
	f.ins(s.End(), " }")
	return true
}

// chanRange rewrites a range over a channel into announced receives.
func (f *fileRW) chanRange(s *ast.RangeStmt) bool {
	tv, ok := f.info.Types[s.X]
	if !ok || tv.Type == nil {
		return false
	}
	if _, ok := tv.Type.Underlying().(*types.Chan); !ok {
		return false
	}
	f.tmp++
	n := f.tmp
	recv := fmt.Sprintf(" __sh.Recv(__c%d); __v%d, __ok%d := <-__c%d; __sh.After(); __sh.Y(%d); if !__ok%d { break }; ", n, n, n, n, len(sites), n)
	f.site(s)
	if s.Key == nil {
		recv += fmt.Sprintf("_ = __v%d; ", n)
	} else if id, ok := s.Key.(*ast.Ident); ok && id.Name == "_" {
		recv += fmt.Sprintf("_ = __v%d; ", n)
	} else if s.Tok == token.DEFINE {
		recv += fmt.Sprintf("%s := __v%d; ", f.text(s.Key), n)
	} else {
		recv += fmt.Sprintf("%s = __v%d; ", f.text(s.Key), n)
	}
	f.repl(s.For, s.X.Pos(), fmt.Sprintf("for __c%d := ", n))
	f.exprs(s.X)
	f.ins(s.X.End(), "; ; ")
	f.ins(s.Body.Lbrace+1, recv+"{")
	f.block(s.Body)
	f.ins(s.Body.Rbrace, " }")
	stats["channel_ranges"]++
	return true
}

func (f *fileRW) typeText(t types.Type) (string, bool) {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == f.pkg {
			return ""
		}
		for _, im := range f.file.Imports {
			v, _ := strconv.Unquote(im.Path.Value)
			if v == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		ok = false
		return "?"
	})
	return s, ok
}

// blocks reports whether a statement contains a channel operation that is left
// as it is.
func (f *fileRW) blocks(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.ExprStmt:
			if u := receive(n.X); u != nil {
				found = found || hasLit(u.X)
				return false
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				if _, ok := f.elemText(n.X); !ok {
					found = true
				}
			}
		case *ast.SendStmt:
			if n != unlabeled(s) {
				found = true
			}
		case *ast.SelectStmt:
			found = found || !f.canSelect(n)
			return false
		}
		return !found
	})
	return found
}

func unlabeled(s ast.Stmt) ast.Stmt {
	for {
		l, ok := s.(*ast.LabeledStmt)
		if !ok {
			return s
		}
		s = l.Stmt
	}
}

// goStmt starts a task. The function and its arguments are evaluated by the
// statement, as ever.
func (f *fileRW) goStmt(s *ast.GoStmt) {
	stats["go_statements"]++
	call := s.Call
	if lit, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		f.repl(s.Go, lit.Pos(), "__sh.Go(")
		f.block(lit.Body)
		f.repl(call.Lparen, call.End(), ")")
		return
	}
	f.tmp++
	fn := fmt.Sprintf("__f%d", f.tmp)
	builtin := false
	if id, ok := call.Fun.(*ast.Ident); ok {
		_, builtin = f.info.Uses[id].(*types.Builtin)
	}
	cursor := call.Fun.End()
	if builtin {
		fn = f.text(call.Fun)
		if fn == "close" {
			fn = "__sh.Close"
		}
		f.repl(s.Go, call.Fun.End(), "{ ")
	} else {
		f.repl(s.Go, call.Fun.Pos(), "{ "+fn+" := ")
		f.exprs(call.Fun)
	}
	var args []string
	for i, a := range call.Args {
		tv, ok := f.info.Types[a]
		if !ok || tv.Type == nil || tv.Value != nil || tv.IsNil() {
			args = append(args, f.text(a))
			continue
		}
		f.tmp++
		n := fmt.Sprintf("__a%d", f.tmp)
		if tup, ok := tv.Type.(*types.Tuple); ok {
			for j := 1; j < tup.Len(); j++ {
				n += fmt.Sprintf(", __a%d_%d", f.tmp, j)
			}
		}
		f.repl(cursor, a.Pos(), "; "+n+" := ")
		f.exprs(a)
		cursor = a.End()
		if call.Ellipsis.IsValid() && i == len(call.Args)-1 {
			n += "..."
		}
		args = append(args, n)
	}
	f.repl(cursor, s.End(), fmt.Sprintf("; __sh.Go(func() { %s(%s) }) }", fn, strings.Join(args, ", ")))
}

// genShims writes shim packages: everything the original package exports,
// minus what the hand-written override files define.
func genShims(used map[string]bool) {
	var keys []string
	for k := range used {
		keys = append(keys, k)
	}
	// Shims import each other; always provide these.
	for _, k := range []string{"os", "sync", "log", "fmt", "net", "net/http", "io/ioutil", "go/parser", "time", "runtime/pprof", "math/rand", "crypto/rand", "hash/maphash", "runtime"} {
		if !used[k] {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		orig, name, dir := k, "", ""
		if i := strings.Index(k, "@"); i >= 0 {
			orig = k[:i]
			name = path.Base(orig)
			dir = shims[orig] + "_" + k[i+1:]
		} else {
			name, dir = path.Base(orig), shims[orig]
		}
		genShim(orig, name, dir)
	}
}

func genShim(orig, name, dir string) {
	srcDir := filepath.Join(*sim, "shim", shims[orig])
	own := map[string]bool{}
	entries, err := os.ReadDir(srcDir)
	if err != nil {
		log.Fatal(err)
	}
	fset := token.NewFileSet()
	for _, e := range entries {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		full := filepath.Join(srcDir, e.Name())
		file, err := parser.ParseFile(fset, full, nil, 0)
		if err != nil {
			log.Fatal(err)
		}
		for _, d := range file.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					own[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						own[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							own[n.Name] = true
						}
					}
				}
			}
		}
		overlay[filepath.Join(*repo, base, "shim", dir, e.Name())] = full
	}
	imp := importer.ForCompiler(fset, "gc", lookup)
	pkg, err := imp.Import(orig)
	if err != nil {
		log.Fatal(err)
	}
	var b bytes.Buffer
	for _, n := range pkg.Scope().Names() {
		o := pkg.Scope().Lookup(n)
		if !o.Exported() || own[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = orig.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = orig.%s\n", n, n)
		case *types.TypeName:
			if named, ok := o.Type().(*types.Named); ok && named.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = orig.%s\n", n, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = orig.%s\n", n, n)
		}
	}
	head := fmt.Sprintf("//go:build go1.18\n\npackage %s\n\n", name)
	if b.Len() > 0 {
		head += fmt.Sprintf("import orig %q\n\n", orig)
	}
	text := head + b.String()
	dst := filepath.Join(*out, "gen", "shim", dir, "zz_generated.go")
	if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
		log.Fatal(err)
	}
	if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
		log.Fatal(err)
	}
	overlay[filepath.Join(*repo, base, "shim", dir, "zz_generated.go")] = dst
}

func copyTree(src, dst string) {
	err := filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(src, p)
		overlay[filepath.Join(*repo, dst, rel)] = p
		return nil
	})
	if err != nil {
		log.Fatal(err)
	}
}

func writeJSON(p string, v interface{}) {
	data, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		log.Fatal(err)
	}
	if err := os.WriteFile(p, data, 0o644); err != nil {
		log.Fatal(err)
	}
}
