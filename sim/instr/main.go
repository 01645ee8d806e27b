// Command instr rewrites the Go sources of the system under test so that every
// source of nondeterminism goes through the simulator (package rt), and writes
// an overlay file for `go build -overlay`.  /repo itself is never modified.
//
// Rewritten: imports of sync, sync/atomic, time, context, math/rand,
// math/rand/v2, crypto/rand, runtime, maps and the instrumented copies of small
// third-party concurrency libraries; go statements; channel operations and
// select; map iteration; and (level 2) reads and writes of memory that other
// goroutines can reach, which become scheduling points and feed the
// happens-before race detector.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	ImportMap  map[string]string
	Module     *struct {
		Path string
		Main bool
		Dir  string
	}
	Error *struct{ Err string }
}

var (
	repo   = flag.String("repo", "/repo", "repository root")
	simDir = flag.String("sim", "", "directory holding the simulator packages (zzverif)")
	out    = flag.String("out", "", "output directory")
	level  = flag.Int("level", 2, "1: synchronisation only, 2: also shared memory")
	roots  = flag.String("roots", "./...", "packages to load")
)

const vname = "zzverif"

var modPath string

// third-party packages that are copied and instrumented
var external = map[string]bool{
	"go.uber.org/atomic":             true,
	"github.com/gammazero/deque":     true,
	"golang.org/x/sync/errgroup":     true,
	"golang.org/x/sync/semaphore":    true,
	"golang.org/x/sync/singleflight": true,
}

var shims = map[string]string{
	"sync":         "sync",
	"sync/atomic":  "atomic",
	"time":         "time",
	"context":      "context",
	"crypto/rand":  "crand",
	"math/rand":    "mrand",
	"math/rand/v2": "mrandv2",
	"runtime":      "runtime",
	"maps":         "maps",
}

// appShims stand in for the command line and the terminal, in the module's own
// packages.
var appShims = map[string]string{
	"flag":                      "zflag",
	"github.com/mum4k/termdash": "termdash",
	"github.com/mum4k/termdash/terminal/tcell":    "tcell",
	"github.com/mum4k/termdash/widgets/text":      "ttext",
	"github.com/mum4k/termdash/widgets/gauge":     "tgauge",
	"github.com/mum4k/termdash/widgets/linechart": "tchart",
}

// sysCalls are functions of the outside world with a stand-in in sysio.
var sysCalls = map[string]bool{
	"fmt.Print": true, "fmt.Printf": true, "fmt.Println": true,
	"fmt.Fprint": true, "fmt.Fprintf": true, "fmt.Fprintln": true,
	"os.Exit": true, "golang.org/x/term.IsTerminal": true,
	"os/signal.Notify": true, "os/signal.Stop": true, "os/signal.NotifyContext": true,
}

// mains are the applications made importable: the package clause is renamed
// and main is exported as ZzMain.
var mains = map[string]string{"/simulations/emerge": "emergeapp"}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

func extPath(p string) string {
	return modPath + "/" + vname + "/ext/" + strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(p)
}

type site struct {
	ID   int
	Pos  string
	Func string
	Expr string
	Kind string
}

var sites []site

func main() {
	flag.Parse()
	gomod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	for _, l := range strings.Split(string(gomod), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			modPath = f[1]
		}
	}
	if modPath == "" {
		die("no module path")
	}

	args := append([]string{"list", "-deps", "-export", "-json=ImportPath,Dir,Name,GoFiles,Export,Standard,ImportMap,Module,Error"}, strings.Fields(*roots)...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	pkgs := map[string]*listPkg{}
	var order []*listPkg
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("decode: %v", err)
		}
		q := p
		pkgs[p.ImportPath] = &q
		order = append(order, &q)
	}
	overlay := map[string]string{}
	fset := token.NewFileSet()
	for _, p := range order {
		if p.Standard || p.Module == nil {
			continue
		}
		inMod := p.Module.Path == modPath
		if !inMod && !external[p.ImportPath] {
			continue
		}
		if _, app := mains[strings.TrimPrefix(p.ImportPath, modPath)]; inMod && p.Name == "main" && !app {
			continue
		}
		dstDir := p.Dir
		if !inMod {
			dstDir = filepath.Join(*repo, strings.TrimPrefix(extPath(p.ImportPath), modPath+"/"))
		}
		instrumentPkg(fset, p, pkgs, dstDir, inMod, overlay)
	}
	// the simulator's own packages
	_ = filepath.Walk(*simDir, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			die("%v", err)
		}
		if fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(*simDir, path)
		overlay[filepath.Join(*repo, vname, rel)] = path
		return nil
	})
	// site table
	var b bytes.Buffer
	b.WriteString("package rt\n\nfunc init() {\n\tSites = []Site{\n")
	for _, s := range sites {
		fmt.Fprintf(&b, "\t\t{%q, %q, %q},\n", s.Pos, s.Func, s.Expr)
	}
	b.WriteString("\t}\n}\n")
	sp := filepath.Join(*out, "sites.go")
	if err := os.WriteFile(sp, b.Bytes(), 0o644); err != nil {
		die("%v", err)
	}
	overlay[filepath.Join(*repo, vname, "rt", "sites_gen.go")] = sp
	j, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("instrumented files=%d sites=%d\n", nfiles, len(sites))
}

var nfiles int

func instrumentPkg(fset *token.FileSet, p *listPkg, pkgs map[string]*listPkg, dstDir string, inMod bool, overlay map[string]string) {
	var files []*ast.File
	var names []string
	for _, f := range p.GoFiles {
		full := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(full)
		if err != nil {
			die("%v", err)
		}
		af, err := parser.ParseFile(fset, full, src, parser.SkipObjectResolution)
		if err != nil {
			die("parse %s: %v", full, err)
		}
		files = append(files, af)
		names = append(names, f)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		q := pkgs[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(q.Export)
	})
	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits:  map[ast.Node]types.Object{},
		Scopes:     map[ast.Node]*types.Scope{},
	}
	conf := types.Config{Importer: imp, Error: func(error) {}, Sizes: types.SizesFor("gc", "amd64")}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("typecheck %s: %v", p.ImportPath, err)
	}
	app := ""
	if inMod && p.Name == "main" {
		app = mains[strings.TrimPrefix(p.ImportPath, modPath)]
		gen := filepath.Join(*out, "src", strings.ReplaceAll(p.ImportPath, "/", "_")+"_zz.go")
		if err := os.MkdirAll(filepath.Dir(gen), 0o755); err != nil {
			die("%v", err)
		}
		if err := os.WriteFile(gen, []byte("package "+app+"\n\n// ZzMain is the application's main function.\nvar ZzMain = main\n"), 0o644); err != nil {
			die("%v", err)
		}
		overlay[filepath.Join(dstDir, "zz_export.go")] = gen
	}
	for i, af := range files {
		src, _ := os.ReadFile(filepath.Join(p.Dir, names[i]))
		if app != "" {
			af.Name = ast.NewIdent(app)
		}
		var text []byte
		if bytes.Contains(src, []byte("//go:embed")) || bytes.Contains(src, []byte("//go:linkname")) {
			text = src
		} else {
			w := &rewriter{fset: fset, info: info, pkg: tp, file: af, mem: *level >= 2, inMod: inMod, dir: p.Dir}
			w.run()
			var b bytes.Buffer
			cfg := printer.Config{Mode: printer.RawFormat | printer.TabIndent, Tabwidth: 8}
			if err := cfg.Fprint(&b, token.NewFileSet(), af); err != nil {
				die("print %s: %v", names[i], err)
			}
			text = b.Bytes()
		}
		nfiles++
		of := filepath.Join(*out, "src", strings.ReplaceAll(p.ImportPath, "/", "_"), names[i])
		if err := os.MkdirAll(filepath.Dir(of), 0o755); err != nil {
			die("%v", err)
		}
		if err := os.WriteFile(of, text, 0o644); err != nil {
			die("%v", err)
		}
		overlay[filepath.Join(dstDir, names[i])] = of
	}
}

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	file  *ast.File
	mem   bool
	inMod bool
	dir   string

	rtUsed  bool
	sysUsed bool
	fn      string
	n       int
	shared  map[*types.Var]bool // captured and reassigned locals of the current top-level function
	noMem   int
}

func (w *rewriter) tmp(p string) *ast.Ident {
	w.n++
	return ast.NewIdent(fmt.Sprintf("zz_%s%d", p, w.n))
}

func (w *rewriter) rt(name string) ast.Expr {
	w.rtUsed = true
	return &ast.SelectorExpr{X: ast.NewIdent("zzrt"), Sel: ast.NewIdent(name)}
}

func (w *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: w.rt(name), Args: args}
}

func lit(i int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)} }

func (w *rewriter) run() {
	// clear positions are irrelevant: we print with a fresh FileSet
	if w.inMod {
		w.system()
	}
	for _, d := range w.file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			// package-level declarations: only rewrite bodies of function literals
			gd := d.(*ast.GenDecl)
			for _, s := range gd.Specs {
				if vs, ok := s.(*ast.ValueSpec); ok {
					w.fn = "init"
					w.shared = w.findShared(vs)
					for i := range vs.Values {
						vs.Values[i] = w.topExpr(vs.Values[i])
					}
				}
			}
			continue
		}
		if fd.Body == nil {
			continue
		}
		w.fn = funcName(fd)
		w.shared = w.findShared(fd)
		w.block(fd.Body)
	}
	w.imports()
}

func funcName(fd *ast.FuncDecl) string {
	if fd.Recv != nil && len(fd.Recv.List) > 0 {
		t := fd.Recv.List[0].Type
		for {
			switch x := t.(type) {
			case *ast.StarExpr:
				t = x.X
				continue
			case *ast.IndexExpr:
				t = x.X
				continue
			case *ast.IndexListExpr:
				t = x.X
				continue
			case *ast.Ident:
				return x.Name + "." + fd.Name.Name
			}
			break
		}
	}
	return fd.Name.Name
}

// topExpr rewrites package-level initialisers: function literals inside are
// full code; the initialiser itself runs before any simulation.
func (w *rewriter) topExpr(e ast.Expr) ast.Expr {
	w.noMem++
	r := w.expr(e)
	w.noMem--
	return r
}

// system redirects calls of the outside world to their stand-ins.
func (w *rewriter) system() {
	left := map[types.Object]int{}
	ast.Inspect(w.file, func(n ast.Node) bool {
		se, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := se.X.(*ast.Ident)
		if !ok {
			return true
		}
		pn, ok := w.info.Uses[id].(*types.PkgName)
		if !ok {
			return true
		}
		if sysCalls[pn.Imported().Path()+"."+se.Sel.Name] {
			se.X = ast.NewIdent("zzsys")
			w.sysUsed = true
			left[pn] += 0
		} else {
			left[pn]++
		}
		return true
	})
	for pn, n := range left {
		if n > 0 {
			continue
		}
		for _, is := range w.file.Imports {
			if w.info.Implicits[is] == pn || is.Name != nil && w.info.Defs[is.Name] == pn {
				is.Name = ast.NewIdent("_")
			}
		}
	}
}

func (w *rewriter) imports() {
	for _, d := range w.file.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			continue
		}
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			var np, name string
			if sh, ok := shims[path]; ok {
				np = modPath + "/" + vname + "/" + sh
				name = defaultName(path)
			} else if sh, ok := appShims[path]; ok && w.inMod {
				np = modPath + "/" + vname + "/" + sh
				name = defaultName(path)
			} else if external[path] {
				np = extPath(path)
				name = defaultName(path)
			} else {
				continue
			}
			if is.Name == nil {
				is.Name = ast.NewIdent(name)
			}
			is.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(np)}
			is.EndPos = 0
		}
	}
	if w.sysUsed {
		spec := &ast.ImportSpec{Name: ast.NewIdent("zzsys"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(modPath + "/" + vname + "/sysio")}}
		gd := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		w.file.Decls = append([]ast.Decl{gd}, w.file.Decls...)
	}
	if w.rtUsed {
		spec := &ast.ImportSpec{Name: ast.NewIdent("zzrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(modPath + "/" + vname + "/rt")}}
		gd := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		w.file.Decls = append([]ast.Decl{gd}, w.file.Decls...)
	}
	// positions may confuse import grouping in the printer; strip them
	strip(w.file)
}

func defaultName(path string) string {
	switch path {
	case "math/rand/v2":
		return "rand"
	}
	return path[strings.LastIndex(path, "/")+1:]
}

func strip(f *ast.File) {
	for _, d := range f.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			gd.TokPos = 0
			if len(gd.Specs) > 1 {
				gd.Lparen, gd.Rparen = 1, 1
			}
		}
	}
	f.Comments = nil
	f.Doc = nil
}

// ---------------------------------------------------------------- analysis

// findShared returns local variables that are captured by a function literal
// and assigned somewhere after their declaration: memory several goroutines may
// touch.
func (w *rewriter) findShared(n ast.Node) map[*types.Var]bool {
	captured := map[*types.Var]bool{}
	assigned := map[*types.Var]bool{}
	var walk func(n ast.Node, lits []*ast.FuncLit)
	markAssign := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				if tv, ok := w.info.Types[x.X]; ok {
					if _, isPtr := tv.Type.Underlying().(*types.Pointer); isPtr {
						return
					}
				}
				e = x.X
				continue
			case *ast.IndexExpr:
				if tv, ok := w.info.Types[x.X]; ok {
					if _, isArr := tv.Type.Underlying().(*types.Array); !isArr {
						return
					}
				}
				e = x.X
				continue
			case *ast.Ident:
				if v, ok := w.info.Uses[x].(*types.Var); ok {
					assigned[v] = true
				}
			}
			return
		}
	}
	walk = func(n ast.Node, lits []*ast.FuncLit) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.FuncLit:
				if m == n {
					return true
				}
				walk(x, append(append([]*ast.FuncLit{}, lits...), x))
				return false
			case *ast.Ident:
				if v, ok := w.info.Uses[x].(*types.Var); ok && !v.IsField() && v.Pkg() != nil && v.Parent() != v.Pkg().Scope() {
					for _, l := range lits {
						if v.Pos() < l.Pos() || v.Pos() > l.End() {
							captured[v] = true
						}
					}
				}
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if id, ok := l.(*ast.Ident); ok && w.info.Defs[id] != nil {
						continue
					}
					markAssign(l)
				}
			case *ast.IncDecStmt:
				markAssign(x.X)
			case *ast.RangeStmt:
				if x.Tok == token.ASSIGN {
					if x.Key != nil {
						markAssign(x.Key)
					}
					if x.Value != nil {
						markAssign(x.Value)
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					markAssign(x.X)
				}
			}
			return true
		})
	}
	walk(n, nil)
	res := map[*types.Var]bool{}
	for v := range captured {
		if assigned[v] && !syncType(v.Type(), 0) {
			res[v] = true
		}
	}
	return res
}

// syncType reports whether t is (or directly contains) a synchronisation
// object, which is never accessed as plain memory.
func syncType(t types.Type, depth int) bool {
	if depth > 3 {
		return false
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if p := n.Obj().Pkg(); p != nil {
			switch p.Path() {
			case "sync", "sync/atomic", "go.uber.org/atomic":
				switch n.Underlying().(type) {
				case *types.Interface, *types.Pointer:
					return false
				}
				return true
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if syncType(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Array:
		return syncType(u.Elem(), depth+1)
	}
	return false
}

func (w *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := w.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := w.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := w.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (w *rewriter) isChan(e ast.Expr) bool { _, ok := coreOf(w.typeOf(e)).(*types.Chan); return ok }
func (w *rewriter) isMap(e ast.Expr) bool  { _, ok := coreOf(w.typeOf(e)).(*types.Map); return ok }
func (w *rewriter) isPtr(e ast.Expr) bool  { _, ok := under(w.typeOf(e)).(*types.Pointer); return ok }

func coreOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tpar, ok := t.(*types.TypeParam); ok {
		_ = tpar
		return nil
	}
	return t.Underlying()
}

func (w *rewriter) builtin(e ast.Expr) string {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if id, ok := e.(*ast.Ident); ok {
		if b, ok := w.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

// sharedRoot reports whether the memory denoted by addressable expression e may
// be reachable by another goroutine: it goes through a pointer or slice, is a
// package variable, or is a captured and reassigned local.
func (w *rewriter) sharedRoot(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return w.sharedRoot(x.X)
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		t := under(w.typeOf(x.X))
		switch t.(type) {
		case *types.Slice, *types.Pointer:
			return true
		case *types.Array:
			return w.sharedRoot(x.X)
		}
		return false
	case *ast.SelectorExpr:
		sel := w.info.Selections[x]
		if sel == nil { // qualified identifier pkg.Var
			if v, ok := w.info.Uses[x.Sel].(*types.Var); ok {
				return v.Pkg() != nil && strings.HasPrefix(v.Pkg().Path(), modPath)
			}
			return false
		}
		if sel.Kind() != types.FieldVal {
			return false
		}
		if sel.Indirect() || w.isPtr(x.X) {
			return true
		}
		return w.sharedRoot(x.X)
	case *ast.Ident:
		v, ok := w.info.Uses[x].(*types.Var)
		if !ok {
			return false
		}
		if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
			return true
		}
		return w.shared[v]
	}
	return false
}

func (w *rewriter) site(e ast.Expr, kind string) ast.Expr {
	pos := w.fset.Position(e.Pos())
	var b bytes.Buffer
	_ = printer.Fprint(&b, token.NewFileSet(), e)
	ex := strings.Join(strings.Fields(b.String()), " ")
	if len(ex) > 60 {
		ex = ex[:60]
	}
	rel, err := filepath.Rel(*repo, pos.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = filepath.Base(filepath.Dir(pos.Filename)) + "/" + filepath.Base(pos.Filename)
	}
	sites = append(sites, site{ID: len(sites), Pos: fmt.Sprintf("%s:%d", rel, pos.Line), Func: w.pkg.Path() + "." + w.fn, Expr: ex, Kind: kind})
	return lit(len(sites) - 1)
}

// memOK: e is plain memory worth instrumenting.
func (w *rewriter) memOK(e ast.Expr) bool {
	if !w.mem || w.noMem > 0 {
		return false
	}
	tv, ok := w.info.Types[e]
	if !ok {
		return false
	}
	if tv.Value != nil || !tv.IsValue() && !tv.Addressable() {
		return false
	}
	if !tv.Addressable() {
		return false
	}
	if syncType(tv.Type, 0) {
		return false
	}
	return w.sharedRoot(e)
}

// ---------------------------------------------------------------- expressions

// addr rewrites e for use as an address computation or assignable location:
// pointers it goes through are reads, the location itself is not.
func (w *rewriter) addr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = w.addr(x.X)
		return x
	case *ast.SelectorExpr:
		if w.info.Selections[x] == nil {
			return x
		}
		if w.isPtr(x.X) {
			x.X = w.expr(x.X)
		} else {
			if tv, ok := w.info.Types[x.X]; ok && tv.Addressable() {
				x.X = w.addr(x.X)
			} else {
				x.X = w.expr(x.X)
			}
		}
		return x
	case *ast.IndexExpr:
		switch under(w.typeOf(x.X)).(type) {
		case *types.Array:
			x.X = w.addr(x.X)
		default:
			x.X = w.expr(x.X)
		}
		x.Index = w.expr(x.Index)
		return x
	case *ast.StarExpr:
		x.X = w.expr(x.X)
		return x
	case *ast.Ident:
		return x
	default:
		return w.expr(e)
	}
}

func paren(e ast.Expr) ast.Expr { return &ast.ParenExpr{X: e} }

func (w *rewriter) deref(call ast.Expr) ast.Expr {
	return paren(&ast.StarExpr{X: call})
}

func amp(e ast.Expr) ast.Expr {
	// &*p is fine in Go
	return &ast.UnaryExpr{Op: token.AND, X: e}
}

// read rewrites an addressable shared rvalue.
func (w *rewriter) read(e ast.Expr) ast.Expr {
	s := w.site(e, "r")
	return w.deref(w.call("R", amp(w.addr(e)), s))
}

// write rewrites an assignable location.
func (w *rewriter) lhs(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return paren(w.lhs(x.X))
	case *ast.Ident:
		if x.Name == "_" {
			return x
		}
		if w.info.Defs[x] != nil {
			return x
		}
	case *ast.IndexExpr:
		if w.isMap(x.X) {
			m := x.X
			if w.mem && w.noMem == 0 {
				s := w.site(m, "w")
				x.X = w.call("WM", w.expr(m), s)
			} else {
				x.X = w.expr(m)
			}
			x.Index = w.expr(x.Index)
			return x
		}
	}
	if w.memOK(e) {
		s := w.site(e, "w")
		return w.deref(w.call("W", amp(w.addr(e)), s))
	}
	return w.addr(e)
}

func (w *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = w.expr(l[i])
	}
}

func (w *rewriter) isNil(e ast.Expr) bool {
	tv, ok := w.info.Types[e]
	return ok && tv.IsNil()
}

func (w *rewriter) isTypeExpr(e ast.Expr) bool {
	tv, ok := w.info.Types[e]
	return ok && tv.IsType()
}

func (w *rewriter) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if tv, ok := w.info.Types[e]; ok {
		if tv.IsType() || tv.Value != nil {
			return e
		}
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = w.expr(x.X)
		return x
	case *ast.Ident:
		if w.memOK(x) {
			return w.read(x)
		}
		return x
	case *ast.BasicLit:
		return x
	case *ast.FuncLit:
		saved := w.noMem
		w.noMem = 0
		w.block(x.Body)
		w.noMem = saved
		return x
	case *ast.CompositeLit:
		isMap := false
		switch under(w.typeOf(x)).(type) {
		case *types.Map:
			isMap = true
		}
		_, isStruct := under(w.typeOf(x)).(*types.Struct)
		if pt, ok := under(w.typeOf(x)).(*types.Pointer); ok {
			_, isStruct = pt.Elem().Underlying().(*types.Struct)
		}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					if isMap {
						kv.Key = w.expr(kv.Key)
					}
				}
				kv.Value = w.expr(kv.Value)
			} else {
				x.Elts[i] = w.expr(el)
			}
		}
		return x
	case *ast.SelectorExpr:
		sel := w.info.Selections[x]
		if sel == nil { // qualified identifier
			if w.memOK(x) {
				return w.read(x)
			}
			return x
		}
		if sel.Kind() == types.MethodExpr {
			return x
		}
		if sel.Kind() == types.MethodVal {
			return w.methodRecv(x, sel)
		}
		if w.memOK(x) {
			return w.read(x)
		}
		if w.isPtr(x.X) {
			x.X = w.expr(x.X)
			return x
		}
		if tv, ok := w.info.Types[x.X]; ok && tv.Addressable() {
			x.X = w.addr(x.X)
		} else {
			x.X = w.expr(x.X)
		}
		return x
	case *ast.IndexExpr:
		if w.isTypeExpr(x.Index) { // generic instantiation
			x.X = w.expr(x.X)
			return x
		}
		if w.isMap(x.X) {
			m := x.X
			if w.mem && w.noMem == 0 {
				s := w.site(m, "r")
				x.X = w.call("RM", w.expr(m), s)
			} else {
				x.X = w.expr(m)
			}
			x.Index = w.expr(x.Index)
			return x
		}
		if w.memOK(x) {
			return w.read(x)
		}
		if _, ok := under(w.typeOf(x.X)).(*types.Array); ok {
			if tv, ok := w.info.Types[x.X]; ok && tv.Addressable() {
				x.X = w.addr(x.X)
				x.Index = w.expr(x.Index)
				return x
			}
		}
		x.X = w.expr(x.X)
		x.Index = w.expr(x.Index)
		return x
	case *ast.IndexListExpr:
		return x
	case *ast.SliceExpr:
		if _, ok := under(w.typeOf(x.X)).(*types.Array); ok {
			x.X = w.addr(x.X)
		} else {
			x.X = w.expr(x.X)
		}
		x.Low, x.High, x.Max = w.expr(x.Low), w.expr(x.High), w.expr(x.Max)
		return x
	case *ast.TypeAssertExpr:
		x.X = w.expr(x.X)
		return x
	case *ast.CallExpr:
		return w.callExpr(x)
	case *ast.StarExpr:
		if w.memOK(x) {
			s := w.site(x, "r")
			return w.deref(w.call("R", w.expr(x.X), s))
		}
		x.X = w.expr(x.X)
		return x
	case *ast.UnaryExpr:
		switch x.Op {
		case token.ARROW:
			return w.call("Recv", w.expr(x.X))
		case token.AND:
			inner := x.X
			for {
				p, ok := inner.(*ast.ParenExpr)
				if !ok {
					break
				}
				inner = p.X
			}
			if _, ok := inner.(*ast.CompositeLit); ok {
				x.X = w.expr(x.X)
			} else {
				x.X = w.addr(x.X)
			}
			return x
		}
		x.X = w.expr(x.X)
		return x
	case *ast.BinaryExpr:
		x.X = w.expr(x.X)
		x.Y = w.expr(x.Y)
		return x
	case *ast.KeyValueExpr:
		x.Value = w.expr(x.Value)
		return x
	case *ast.Ellipsis:
		x.Elt = w.expr(x.Elt)
		return x
	}
	return e
}

// methodRecv rewrites the receiver operand of a method value or call.
func (w *rewriter) methodRecv(x *ast.SelectorExpr, sel *types.Selection) ast.Expr {
	f, _ := sel.Obj().(*types.Func)
	ptrRecv := false
	if f != nil {
		if sig, ok := f.Type().(*types.Signature); ok && sig.Recv() != nil {
			_, ptrRecv = sig.Recv().Type().(*types.Pointer)
		}
	}
	if w.isPtr(x.X) {
		x.X = w.expr(x.X)
		return x
	}
	if tv, ok := w.info.Types[x.X]; ok && tv.Addressable() {
		// an embedded path or pointer receiver needs an addressable operand
		if ptrRecv || len(sel.Index()) > 1 || syncType(tv.Type, 0) {
			x.X = w.addr(x.X)
		} else {
			x.X = w.expr(x.X)
		}
		return x
	}
	x.X = w.expr(x.X)
	return x
}

func (w *rewriter) callExpr(x *ast.CallExpr) ast.Expr {
	if w.isTypeExpr(x.Fun) { // conversion
		w.exprs(x.Args)
		return x
	}
	switch b := w.builtin(x.Fun); b {
	case "close":
		return w.call("Close", w.expr(x.Args[0]))
	case "len", "cap":
		if w.isChan(x.Args[0]) {
			name := "ChanLen"
			if b == "cap" {
				name = "ChanCap"
			}
			if c, ok := coreOf(w.typeOf(x.Args[0])).(*types.Chan); ok && c.Dir() == types.SendOnly {
				name += "S"
			}
			return w.call(name, w.expr(x.Args[0]))
		}
		if b == "len" && w.isMap(x.Args[0]) && w.mem && w.noMem == 0 {
			s := w.site(x.Args[0], "r")
			x.Args[0] = w.call("RM", w.expr(x.Args[0]), s)
			return x
		}
		if _, ok := under(w.typeOf(x.Args[0])).(*types.Array); ok {
			return x
		}
		w.exprs(x.Args)
		return x
	case "delete":
		if w.mem && w.noMem == 0 {
			s := w.site(x.Args[0], "w")
			x.Args[0] = w.call("WM", w.expr(x.Args[0]), s)
		} else {
			x.Args[0] = w.expr(x.Args[0])
		}
		x.Args[1] = w.expr(x.Args[1])
		return x
	case "clear":
		if w.isMap(x.Args[0]) && w.mem && w.noMem == 0 {
			s := w.site(x.Args[0], "w")
			x.Args[0] = w.call("WM", w.expr(x.Args[0]), s)
			return x
		}
		w.exprs(x.Args)
		return x
	case "append":
		if w.mem && w.noMem == 0 && len(x.Args) > 1 {
			_, s0 := under(w.typeOf(x.Args[0])).(*types.Slice)
			if x.Ellipsis.IsValid() {
				_, s1 := under(w.typeOf(x.Args[1])).(*types.Slice)
				if s0 && s1 {
					a, b := w.site(x.Args[0], "w"), w.site(x.Args[1], "r")
					return w.call("AppendAll", w.expr(x.Args[0]), w.expr(x.Args[1]), a, b)
				}
			} else if s0 && !w.isNil(x.Args[0]) {
				a := w.site(x.Args[0], "w")
				w.exprs(x.Args)
				x.Args[0] = w.call("AppendTo", x.Args[0], lit(len(x.Args)-1), a)
				return x
			}
		}
		w.exprs(x.Args)
		return x
	case "copy":
		if w.mem && w.noMem == 0 {
			_, s0 := under(w.typeOf(x.Args[0])).(*types.Slice)
			_, s1 := under(w.typeOf(x.Args[1])).(*types.Slice)
			if s0 && s1 {
				a, b := w.site(x.Args[0], "w"), w.site(x.Args[1], "r")
				return w.call("Copy", w.expr(x.Args[0]), w.expr(x.Args[1]), a, b)
			}
		}
		w.exprs(x.Args)
		return x
	case "new", "make":
		for i := 1; i < len(x.Args); i++ {
			x.Args[i] = w.expr(x.Args[i])
		}
		return x
	case "":
	default:
		w.exprs(x.Args)
		return x
	}
	if se, ok := x.Fun.(*ast.SelectorExpr); ok {
		if p, ok2 := se.X.(*ast.Ident); ok2 {
			if pn, ok3 := w.info.Uses[p].(*types.PkgName); ok3 && pn.Imported().Path() == "unsafe" {
				return x
			}
		}
	}
	x.Fun = w.expr(x.Fun)
	w.exprs(x.Args)
	return x
}

// ---------------------------------------------------------------- statements

func (w *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = w.stmts(b.List)
}

func (w *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, w.stmt(s))
	}
	return out
}

func (w *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		w.block(x)
	case *ast.ExprStmt:
		x.X = w.expr(x.X)
		// a bare (*R(...)) cannot occur: expression statements are calls or receives
	case *ast.SendStmt:
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: w.call("SendTo", w.expr(x.Chan)), Args: []ast.Expr{w.expr(x.Value)}}}
	case *ast.IncDecStmt:
		return w.incdec(x, true)
	case *ast.AssignStmt:
		return w.assign(x, true)
	case *ast.GoStmt:
		return w.goStmt(x)
	case *ast.DeferStmt:
		if r, ok := w.deferBuiltin(x); ok {
			return r
		}
		c, ok := w.callExpr(x.Call).(*ast.CallExpr)
		if !ok {
			die("defer rewrite")
		}
		x.Call = c
	case *ast.ReturnStmt:
		w.exprs(x.Results)
	case *ast.IfStmt:
		x.Init = w.simple(x.Init)
		x.Cond = w.expr(x.Cond)
		w.block(x.Body)
		if x.Else != nil {
			x.Else = w.stmt(x.Else)
		}
	case *ast.ForStmt:
		x.Init = w.simple(x.Init)
		if x.Cond != nil {
			x.Cond = w.expr(x.Cond)
		}
		x.Post = w.simple(x.Post)
		w.block(x.Body)
		// a loop that spins without any scheduling point is noticed
		x.Body.List = append([]ast.Stmt{&ast.ExprStmt{X: w.call("Loop")}}, x.Body.List...)
	case *ast.RangeStmt:
		return w.rangeStmt(x)
	case *ast.SwitchStmt:
		x.Init = w.simple(x.Init)
		x.Tag = w.expr(x.Tag)
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			w.exprs(cc.List)
			cc.Body = w.stmts(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		x.Init = w.simple(x.Init)
		switch a := x.Assign.(type) {
		case *ast.AssignStmt:
			ta := a.Rhs[0].(*ast.TypeAssertExpr)
			ta.X = w.expr(ta.X)
		case *ast.ExprStmt:
			ta := a.X.(*ast.TypeAssertExpr)
			ta.X = w.expr(ta.X)
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = w.stmts(cc.Body)
		}
	case *ast.SelectStmt:
		return w.selectStmt(x, nil)
	case *ast.LabeledStmt:
		if sel, ok := x.Stmt.(*ast.SelectStmt); ok {
			return w.selectStmt(sel, x.Label)
		}
		x.Stmt = w.stmt(x.Stmt)
	case *ast.DeclStmt:
		gd := x.Decl.(*ast.GenDecl)
		for _, sp := range gd.Specs {
			if vs, ok := sp.(*ast.ValueSpec); ok {
				if len(vs.Values) == 1 && len(vs.Names) == 2 {
					if u, ok := unparen(vs.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
						vs.Values[0] = w.call("Recv2", w.expr(u.X))
						continue
					}
				}
				w.exprs(vs.Values)
			}
		}
	}
	return s
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// simple rewrites an init/post statement, which must stay a simple statement.
func (w *rewriter) simple(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.AssignStmt:
		return w.assign(x, false)
	case *ast.IncDecStmt:
		return w.incdec(x, false)
	case *ast.ExprStmt:
		x.X = w.expr(x.X)
		return x
	case *ast.SendStmt:
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: w.call("SendTo", w.expr(x.Chan)), Args: []ast.Expr{w.expr(x.Value)}}}
	}
	return s
}

func (w *rewriter) incdec(x *ast.IncDecStmt, canBlock bool) ast.Stmt {
	op := token.ADD
	if x.Tok == token.DEC {
		op = token.SUB
	}
	if canBlock && w.memOK(x.X) && !w.isMapIndex(x.X) {
		return w.rmw(x.X, op, lit(1))
	}
	x.X = w.lhs(x.X)
	return x
}

func (w *rewriter) isMapIndex(e ast.Expr) bool {
	ix, ok := unparen(e).(*ast.IndexExpr)
	return ok && w.isMap(ix.X)
}

// rmw splits a read-modify-write of shared memory into its load and its store.
func (w *rewriter) rmw(l ast.Expr, op token.Token, rhs ast.Expr) ast.Stmt {
	s1, s2 := w.site(l, "r"), w.site(l, "w")
	p, t := w.tmp("p"), w.tmp("t")
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{p}, Tok: token.DEFINE, Rhs: []ast.Expr{amp(w.addr(l))}},
		&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BinaryExpr{X: w.deref(w.call("R", ast.NewIdent(p.Name), s1)), Op: op, Y: paren(rhs)}}},
		&ast.AssignStmt{Lhs: []ast.Expr{w.deref(w.call("W", ast.NewIdent(p.Name), s2))}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(t.Name)}},
	}}
}

var opOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
	token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND,
	token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL,
	token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

func (w *rewriter) assign(x *ast.AssignStmt, canBlock bool) ast.Stmt {
	// v, ok := <-ch
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			x.Rhs[0] = w.call("Recv2", w.expr(u.X))
			if x.Tok != token.DEFINE {
				for i := range x.Lhs {
					x.Lhs[i] = w.lhs(x.Lhs[i])
				}
			} else {
				w.defLhs(x)
			}
			return x
		}
	}
	if op, ok := opOf[x.Tok]; ok {
		if canBlock && w.memOK(x.Lhs[0]) && !w.isMapIndex(x.Lhs[0]) {
			return w.rmw(x.Lhs[0], op, w.expr(x.Rhs[0]))
		}
		x.Rhs[0] = w.expr(x.Rhs[0])
		x.Lhs[0] = w.lhs(x.Lhs[0])
		return x
	}
	if x.Tok == token.DEFINE {
		w.exprs(x.Rhs)
		w.defLhs(x)
		return x
	}
	// plain assignment
	if canBlock && len(x.Lhs) == 1 && len(x.Rhs) == 1 && w.memOK(x.Lhs[0]) && !w.isMapIndex(x.Lhs[0]) {
		lt, rtv := w.typeOf(x.Lhs[0]), w.info.Types[x.Rhs[0]]
		if lt != nil && rtv.Type != nil && rtv.Value == nil && !rtv.IsNil() && types.Identical(lt, rtv.Type) && !trivial(x.Rhs[0]) {
			t := w.tmp("t")
			rhs := w.expr(x.Rhs[0])
			lhs := w.lhs(x.Lhs[0])
			return &ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}},
				&ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(t.Name)}},
			}}
		}
	}
	w.exprs(x.Rhs)
	for i := range x.Lhs {
		x.Lhs[i] = w.lhs(x.Lhs[i])
	}
	return x
}

func trivial(e ast.Expr) bool {
	switch e.(type) {
	case *ast.BasicLit, *ast.FuncLit:
		return true
	}
	return false
}

// defLhs: in a := redeclaration, already-declared variables stay identifiers
// (Go requires it), so they are only marked by their later uses.
func (w *rewriter) defLhs(*ast.AssignStmt) {}

func (w *rewriter) goStmt(x *ast.GoStmt) ast.Stmt {
	if fl, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 && fl.Type.Results == nil {
		return &ast.ExprStmt{X: w.call("Go", w.expr(fl))}
	}
	if w.builtin(x.Call.Fun) != "" {
		c := w.expr(x.Call)
		return &ast.ExprStmt{X: w.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}})}
	}
	fun := w.expr(x.Call.Fun)
	w.exprs(x.Call.Args)
	name := "GoCall"
	args := append([]ast.Expr{fun}, x.Call.Args...)
	if x.Call.Ellipsis != token.NoPos {
		name = "GoCallSlice"
	}
	return &ast.ExprStmt{X: w.call(name, args...)}
}

func (w *rewriter) deferBuiltin(x *ast.DeferStmt) (ast.Stmt, bool) {
	switch w.builtin(x.Call.Fun) {
	case "close":
		x.Call = w.call("Close", w.expr(x.Call.Args[0]))
		return x, true
	case "":
		return nil, false
	}
	w.exprs(x.Call.Args)
	return x, true
}

func (w *rewriter) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	t := coreOf(w.typeOf(x.X))
	switch u := t.(type) {
	case *types.Chan:
		x.X = w.call("RangeChan", w.expr(x.X))
	case *types.Map:
		_ = u
		m := x.X
		var arg ast.Expr
		if w.mem && w.noMem == 0 {
			s := w.site(m, "r")
			arg = w.call("RM", w.expr(m), s)
		} else {
			arg = w.expr(m)
		}
		if x.Value == nil || isBlank(x.Value) {
			x.Value = nil
			x.X = w.call("RangeMapK", arg)
		} else {
			x.X = w.call("RangeMap", arg)
		}
	case *types.Slice:
		if w.mem && w.noMem == 0 && x.Value != nil && !isBlank(x.Value) {
			s := w.site(x.X, "r")
			x.X = w.call("RSlice", w.expr(x.X), s)
		} else {
			x.X = w.expr(x.X)
		}
	case *types.Array:
		if tv, ok := w.info.Types[x.X]; ok && tv.Addressable() {
			x.X = w.addr(x.X)
		} else {
			x.X = w.expr(x.X)
		}
	default:
		x.X = w.expr(x.X)
	}
	if x.Tok == token.ASSIGN {
		if x.Key != nil {
			x.Key = w.addr(x.Key)
		}
		if x.Value != nil {
			x.Value = w.addr(x.Value)
		}
	}
	w.block(x.Body)
	return x
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (w *rewriter) selectStmt(x *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	var pre []ast.Stmt
	var cases []ast.Expr
	hasDefault := "false"
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	selID := w.tmp("sel")
	idx := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		clause := &ast.CaseClause{}
		if cc.Comm == nil {
			hasDefault = "true"
			clause.List = []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: lit(1)}}
			clause.Body = w.stmts(cc.Body)
			sw.Body.List = append(sw.Body.List, clause)
			continue
		}
		clause.List = []ast.Expr{lit(idx)}
		ch := w.tmp("c")
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			v := w.tmp("v")
			_ = v
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{w.expr(cm.Chan)}})
			cases = append(cases, &ast.CallExpr{Fun: w.call("CaseSendTo", ast.NewIdent(ch.Name)), Args: []ast.Expr{w.expr(cm.Value)}})
		case *ast.ExprStmt:
			u := unparen(cm.X).(*ast.UnaryExpr)
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{w.expr(u.X)}})
			cases = append(cases, w.call("CaseRecv", ast.NewIdent(ch.Name)))
		case *ast.AssignStmt:
			u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{w.expr(u.X)}})
			cases = append(cases, w.call("CaseRecv", ast.NewIdent(ch.Name)))
			name := "Got"
			if len(cm.Lhs) == 2 {
				name = "Got2"
			}
			as := &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: []ast.Expr{w.call(name, ast.NewIdent(selID.Name), ast.NewIdent(ch.Name))}}
			if cm.Tok == token.ASSIGN {
				for i := range as.Lhs {
					as.Lhs[i] = w.lhs(as.Lhs[i])
				}
			}
			clause.Body = append(clause.Body, as)
		}
		clause.Body = append(clause.Body, w.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, clause)
		idx++
	}
	args := append([]ast.Expr{ast.NewIdent(hasDefault)}, cases...)
	pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{selID}, Tok: token.DEFINE, Rhs: []ast.Expr{w.call("Select", args...)}})
	sw.Tag = &ast.SelectorExpr{X: ast.NewIdent(selID.Name), Sel: ast.NewIdent("I")}
	sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"select"`}}}}}})
	var last ast.Stmt = sw
	if label != nil {
		last = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	pre = append(pre, last)
	return &ast.BlockStmt{List: pre}
}

var _ = sort.Strings
