package main

// Loading: parse /repo's current sources (plus the contract files, overlaid into their package),
// and type-check them.

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type Pkg struct {
	path  string
	dir   string
	files []*ast.File
	names []string
	tp    *types.Package
	info  *types.Info
	err   error
}

type FuncInfo struct {
	obj   *types.Func
	decl  *ast.FuncDecl
	pkg   *Pkg
	verif bool // lives in a contract file
	memo  bool // evaluated once for equal arguments
}

type World struct {
	fset       *token.FileSet
	module     string
	goVersion  string
	root       string
	pkgs       map[string]*Pkg
	funcs      map[*types.Func]*FuncInfo
	varDecl    map[*types.Var]*varInit
	std        types.Importer
	overlays   map[string]string // virtual file under root -> real file
	contracts  []*Contract
	byTarget   map[*types.Func]*Contract
	summary    map[*types.Func]*Contract
	mutated    map[*types.Var]string // package variables that some function assigns (through any path)
	opaque     map[*types.Func]*opaqueInfo
	missing    []missing
	pruned     map[string][]byte // overlay files without the functions that no longer type-check
	invariants []*LoopInv
}

// missing: a contract that cannot be applied to the current sources.
type missing struct {
	pkg   string
	props []string // nil: every property with a contract in the package
	msg   string
}

type varInit struct {
	pkg   *Pkg
	expr  ast.Expr
	v     *types.Var
	typ   types.Type
	verif bool
}

type opaqueInfo struct {
	name   string
	lo, hi ast.Expr
	fi     *FuncInfo
}

type Contract struct {
	name    string
	props   []string
	fi      *FuncInfo
	target  *types.Func
	tname   string
	gen     string
	pkg     *Pkg
	lemma   bool
	inline  bool // prove-only: never used at call sites
	splits  string
	trusted string
	useSum  bool // its proof uses summaries also within the package
	exact   bool // its proof uses no summaries
	summary bool // a weaker contract for callers in other packages, proved from the main one
}

func (w *World) pos(p token.Pos) string {
	ps := w.fset.Position(p)
	f := ps.Filename
	if r, err := filepath.Rel(w.root, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

const zapStub = `package zap
type Field struct{}
type Option struct{}
type Logger struct{}
type SugaredLogger struct{}
func (l *Logger) Info(msg string, f ...Field) {}
func (l *Logger) Debug(msg string, f ...Field) {}
func (l *Logger) Warn(msg string, f ...Field) {}
func (l *Logger) Error(msg string, f ...Field) {}
func (l *Logger) Sync() error { return nil }
func (l *Logger) Sugar() *SugaredLogger { return nil }
func NewDevelopment(o ...Option) (*Logger, error) { return &Logger{}, nil }
func NewProduction(o ...Option) (*Logger, error) { return &Logger{}, nil }
func NewNop() *Logger { return &Logger{} }
func Int(k string, v int) Field { return Field{} }
func Bool(k string, v bool) Field { return Field{} }
func String(k string, v string) Field { return Field{} }
func Any(k string, v interface{}) Field { return Field{} }
func Ints(k string, v []int) Field { return Field{} }
`

func LoadWorld(root, contractsDir string) (*World, error) {
	w := &World{fset: token.NewFileSet(), root: root, pkgs: map[string]*Pkg{}, funcs: map[*types.Func]*FuncInfo{},
		varDecl: map[*types.Var]*varInit{}, overlays: map[string]string{}, byTarget: map[*types.Func]*Contract{}, summary: map[*types.Func]*Contract{},
		mutated: map[*types.Var]string{}, opaque: map[*types.Func]*opaqueInfo{}, pruned: map[string][]byte{}}
	gm, err := os.ReadFile(filepath.Join(root, "go.mod"))
	if err != nil {
		return nil, err
	}
	for _, l := range strings.Split(string(gm), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			w.module = f[1]
		} else if len(f) == 2 && f[0] == "go" {
			w.goVersion = "go" + f[1]
		}
	}
	w.std = importer.ForCompiler(w.fset, "source", nil)
	files := map[string][]string{} // dir -> files
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") && p != root || fi.Name() == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files[filepath.Dir(p)] = append(files[filepath.Dir(p)], p)
		}
		return nil
	})
	// contract overlays: contracts/<rel dir>/x.go -> root/<rel dir>/zz_verif_x.go
	filepath.Walk(contractsDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(contractsDir, p)
		dir := filepath.Join(root, filepath.Dir(rel))
		v := filepath.Join(dir, "zz_verif_"+filepath.Base(rel))
		w.overlays[v] = p
		files[dir] = append(files[dir], v)
		return nil
	})
	for dir, fs := range files {
		rel, _ := filepath.Rel(root, dir)
		path := w.module
		if rel != "." {
			path += "/" + filepath.ToSlash(rel)
		}
		sort.Strings(fs)
		pk := &Pkg{path: path, dir: dir}
		for _, f := range fs {
			src := f
			if o, ok := w.overlays[f]; ok {
				src = o
			}
			data, err := os.ReadFile(src)
			if err != nil {
				return nil, err
			}
			if strings.Contains(string(data), "//go:build ignore") {
				continue
			}
			a, err := parser.ParseFile(w.fset, f, data, parser.ParseComments)
			if err != nil {
				pk.err = err
				continue
			}
			pk.files = append(pk.files, a)
			pk.names = append(pk.names, f)
		}
		w.pkgs[path] = pk
	}
	return w, nil
}

type chainImporter struct {
	w     *World
	stack []string
}

func (c *chainImporter) Import(path string) (*types.Package, error) {
	w := c.w
	if path == "go.uber.org/zap" {
		pk := w.pkgs[path]
		if pk == nil {
			f, err := parser.ParseFile(w.fset, "zap_stub.go", zapStub, 0)
			if err != nil {
				return nil, err
			}
			pk = &Pkg{path: path, files: []*ast.File{f}, names: []string{"zap_stub.go"}}
			w.pkgs[path] = pk
		}
		return c.check(pk)
	}
	if pk, ok := w.pkgs[path]; ok {
		for _, s := range c.stack {
			if s == path {
				return nil, fmt.Errorf("import cycle not allowed: %s", path)
			}
		}
		return c.check(pk)
	}
	return w.std.Import(path)
}

func (c *chainImporter) check(pk *Pkg) (*types.Package, error) {
	if pk.tp != nil || pk.err != nil {
		return pk.tp, pk.err
	}
	w := c.w
	var tp *types.Package
	for round := 0; ; round++ {
		pk.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
		conf := types.Config{Importer: &chainImporter{w, append(append([]string(nil), c.stack...), pk.path)}, Sizes: types.SizesFor("gc", "amd64"), GoVersion: w.goVersion}
		var errs []types.Error
		var first error
		conf.Error = func(e error) {
			if te, ok := e.(types.Error); ok {
				errs = append(errs, te)
			}
			if first == nil {
				first = e
			}
		}
		t, err := conf.Check(pk.path, w.fset, pk.files, pk.info)
		if err == nil {
			tp = t
			break
		}
		if round > 50 || !w.prune(pk, errs) {
			pk.err = fmt.Errorf("%s: %v", pk.path, first)
			return nil, pk.err
		}
	}
	pk.tp = tp
	for i, f := range pk.files {
		verif := false
		if _, ok := w.overlays[pk.names[i]]; ok {
			verif = true
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if o, ok := pk.info.Defs[d.Name].(*types.Func); ok {
					w.funcs[o] = &FuncInfo{obj: o, decl: d, pkg: pk, verif: verif}
				}
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					for j, n := range vs.Names {
						v, ok := pk.info.Defs[n].(*types.Var)
						if !ok {
							continue
						}
						vi := &varInit{pkg: pk, v: v, typ: v.Type(), verif: verif}
						if j < len(vs.Values) {
							vi.expr = vs.Values[j]
						}
						w.varDecl[v] = vi
					}
				}
			}
		}
		if !verif {
			w.scanMutations(pk, f)
		}
	}
	return tp, nil
}

// prune removes the contract functions that do not type-check against the current sources; the rest stay usable.
func (w *World) prune(pk *Pkg, errs []types.Error) bool {
	done := false
	for _, e := range errs {
		name := w.fset.Position(e.Pos).Filename
		real, ok := w.overlays[name]
		if !ok {
			continue
		}
		for i, f := range pk.files {
			if pk.names[i] != name {
				continue
			}
			src, ok := w.pruned[name]
			if !ok {
				src, _ = os.ReadFile(real)
				src = append([]byte(nil), src...)
			}
			blank := func(from, to token.Pos) {
				tf := w.fset.File(from)
				for k := tf.Offset(from); k < tf.Offset(to) && k < len(src); k++ {
					if src[k] != '\n' {
						src[k] = ' '
					}
				}
				w.pruned[name] = src
			}
			for j, d := range f.Decls {
				if e.Pos < d.Pos() || e.Pos >= d.End() {
					continue
				}
				if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
					// an import that is no longer used
					blank(d.Pos(), d.End())
					f.Decls = append(f.Decls[:j:j], f.Decls[j+1:]...)
					done = true
					break
				}
				from := d.Pos()
				if fd, ok := d.(*ast.FuncDecl); ok {
					pr := pragmas(fd)
					_, opt := pr["optional"]
					var props []string
					for _, p := range strings.Split(pr["property"], ",") {
						if p = strings.TrimSpace(p); p != "" {
							props = append(props, p)
						}
					}
					if !opt && len(props) > 0 {
						w.missing = append(w.missing, missing{pk.path, props, fmt.Sprintf("contract %s does not apply to the current sources: %v", fd.Name.Name, e.Msg)})
					}
					if fd.Doc != nil {
						from = fd.Doc.Pos()
					}
				}
				blank(from, d.End())
				f.Decls = append(f.Decls[:j:j], f.Decls[j+1:]...)
				done = true
				break
			}
		}
	}
	return done
}

// scanMutations records package-level variables whose storage a statement of the module assigns directly.
func (w *World) scanMutations(pk *Pkg, f *ast.File) {
	root := func(e ast.Expr) *types.Var {
		for {
			switch x := e.(type) {
			case *ast.IndexExpr:
				e = x.X
			case *ast.SliceExpr:
				e = x.X
			case *ast.ParenExpr:
				e = x.X
			case *ast.StarExpr:
				e = x.X
			case *ast.SelectorExpr:
				if v, ok := pk.info.Uses[x.Sel].(*types.Var); ok && !v.IsField() {
					return v
				}
				e = x.X
			case *ast.Ident:
				v, _ := pk.info.Uses[x].(*types.Var)
				return v
			default:
				return nil
			}
		}
	}
	note := func(e ast.Expr, p token.Pos) {
		v := root(e)
		if v == nil || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() {
			return
		}
		w.mutated[v] = w.pos(p)
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.AssignStmt:
			if s.Tok != token.DEFINE {
				for _, l := range s.Lhs {
					note(l, s.Pos())
				}
			}
		case *ast.IncDecStmt:
			note(s.X, s.Pos())
		case *ast.UnaryExpr:
			if s.Op == token.AND {
				note(s.X, s.Pos())
			}
		case *ast.CallExpr:
			if id, ok := s.Fun.(*ast.Ident); ok && (id.Name == "copy" || id.Name == "append") && len(s.Args) > 0 {
				if id.Name == "copy" {
					note(s.Args[0], s.Pos())
				}
			}
		}
		return true
	})
}

func (w *World) Check(path string) error {
	pk := w.pkgs[path]
	if pk == nil {
		return fmt.Errorf("no package %s", path)
	}
	_, err := (&chainImporter{w: w}).check(pk)
	return err
}

// pragma reads "//@ key: value" lines of a doc comment.
func pragmas(d *ast.FuncDecl) map[string]string {
	out := map[string]string{}
	if d.Doc == nil {
		return out
	}
	for _, c := range d.Doc.List {
		t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
		if !strings.HasPrefix(t, "@") {
			continue
		}
		t = strings.TrimSpace(t[1:])
		k, v, _ := strings.Cut(t, ":")
		out[strings.TrimSpace(k)] = strings.TrimSpace(v)
	}
	return out
}

// CollectContracts finds contract functions in the overlay files of every loaded package.
func (w *World) CollectContracts() {
	var paths []string
	for p := range w.pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, path := range paths {
		pk := w.pkgs[path]
		has := false
		for _, n := range pk.names {
			if _, ok := w.overlays[n]; ok {
				has = true
			}
		}
		if !has {
			continue
		}
		if err := w.Check(path); err != nil {
			w.missing = append(w.missing, missing{path, nil, err.Error()})
			continue
		}
		for i, f := range pk.files {
			if _, ok := w.overlays[pk.names[i]]; !ok {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				pr := pragmas(fd)
				fi := w.funcs[pk.info.Defs[fd.Name].(*types.Func)]
				if r, ok := pr["opaque"]; ok {
					w.opaque[fi.obj] = &opaqueInfo{name: pk.tp.Name() + "." + fd.Name.Name, fi: fi}
					_ = r
				}
				_, fi.memo = pr["memo"]
				if iv, ok := pr["invariant"]; ok {
					w.collectInvariant(pk, iv, fi)
				}
				t, isC := pr["contract"]
				l, isL := pr["lemma"]
				if !isC && !isL {
					continue
				}
				c := &Contract{name: pk.tp.Name() + "." + fd.Name.Name, fi: fi, pkg: pk, tname: t, gen: pr["gen"], trusted: pr["trusted"]}
				if isL {
					c.lemma = true
					c.tname = "lemma " + l
				}
				_, c.inline = pr["inline"]
				_, c.summary = pr["summary"]
				_, c.useSum = pr["summaries"]
				_, c.exact = pr["exact"]
				for _, p := range strings.Split(pr["property"], ",") {
					if p = strings.TrimSpace(p); p != "" {
						c.props = append(c.props, p)
					}
				}
				if isC {
					c.target = w.lookupTarget(pk, t)
					if c.target == nil {
						if _, opt := pr["optional"]; !opt {
							w.missing = append(w.missing, missing{path, c.props, fmt.Sprintf("contract %s: target %s not found", c.name, t)})
						}
						continue
					} else if c.summary {
						w.summary[c.target] = c
					} else if !c.inline {
						w.byTarget[c.target] = c
					}
				}
				w.contracts = append(w.contracts, c)
			}
		}
	}
}

func (w *World) lookupTarget(pk *Pkg, t string) *types.Func {
	if r, m, ok := strings.Cut(t, "."); ok {
		o := pk.tp.Scope().Lookup(r)
		if o == nil {
			return nil
		}
		obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(o.Type()), true, pk.tp, m)
		f, _ := obj.(*types.Func)
		return f
	}
	f, _ := pk.tp.Scope().Lookup(t).(*types.Func)
	return f
}
