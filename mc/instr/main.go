// Command instr rewrites Go packages so that their concurrency, time, memory
// accesses and environment calls go through the model checker's runtime.
//
//	instr -w DIR [-env pkg,pkg] [-norace pkg,...] pattern...
//
// DIR is a scratch copy of a module, whose files are rewritten in place.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type listed struct {
	Dir        string
	ImportPath string
	Name       string
	Export     string
	GoFiles    []string
	DepOnly    bool
	Standard   bool
	Error      *struct{ Err string }
}

const mcPath = "github.com/BTBurke/monny/mc/rt"
const envPath = "github.com/BTBurke/monny/mc/env"

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	dir := flag.String("w", "", "module directory")
	envs := flag.String("env", "", "import paths whose environment calls are replaced")
	norace := flag.String("norace", "", "import paths without memory hooks")
	flag.Parse()
	inEnv, noRace := map[string]bool{}, map[string]bool{}
	for _, p := range strings.Split(*envs, ",") {
		inEnv[p] = true
	}
	for _, p := range strings.Split(*norace, ",") {
		noRace[p] = true
	}
	args := append([]string{"list", "-deps", "-export", "-json=Dir,ImportPath,Name,Export,GoFiles,DepOnly,Standard,Error"}, flag.Args()...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *dir
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	var pkgs []*listed
	exports := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := &listed{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if !p.DepOnly {
			pkgs = append(pkgs, p)
		}
	}
	ours := map[string]bool{}
	for _, p := range pkgs {
		ours[p.ImportPath] = true
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	site := 0
	for _, p := range pkgs {
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		var files []*ast.File
		for _, f := range p.GoFiles {
			a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files = append(files, a)
		}
		info := &types.Info{
			Types:      map[ast.Expr]types.TypeAndValue{},
			Defs:       map[*ast.Ident]types.Object{},
			Uses:       map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{},
			Instances:  map[*ast.Ident]types.Instance{},
			Implicits:  map[ast.Node]types.Object{},
		}
		conf := types.Config{Importer: imp}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			die("type check: %v", err)
		}
		ps := &pkgState{info: info, fset: fset, ours: ours, env: inEnv[p.ImportPath], race: !noRace[p.ImportPath], path: p.ImportPath}
		ps.findShared(files)
		for i, f := range files {
			r := &rewriter{pkgState: ps, file: f}
			r.rewriteFile()
			var buf bytes.Buffer
			buf.WriteString("//go:build go1.21\n\n")
			if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&buf, token.NewFileSet(), f); err != nil {
				die("print %s: %v", p.GoFiles[i], err)
			}
			src := buf.String()
			// the package clause comes first: put the imports and sites behind it
			var add strings.Builder
			if r.useMC || len(r.sites) > 0 {
				fmt.Fprintf(&add, "import _mc %q\n", mcPath)
			}
			if r.useEnv {
				fmt.Fprintf(&add, "import _env %q\n", envPath)
			}
			k := strings.Index(src, "\npackage ")
			k = k + 1 + strings.Index(src[k+1:], "\n")
			src = src[:k] + "\n\n" + add.String() + src[k:]
			if len(r.sites) > 0 {
				src += "\nvar (\n"
				for _, s := range r.sites {
					src += fmt.Sprintf("\t%s = _mc.Site(%q)\n", s.name, s.pos)
				}
				src += ")\n"
			}
			site += len(r.sites)
			if err := os.WriteFile(filepath.Join(p.Dir, p.GoFiles[i]), []byte(src), 0o644); err != nil {
				die("%v", err)
			}
		}
	}
	fmt.Fprintf(os.Stderr, "instr: %d packages, %d memory access sites\n", len(pkgs), site)
}

type pkgState struct {
	info   *types.Info
	fset   *token.FileSet
	ours   map[string]bool
	env    bool
	race   bool
	path   string
	shared map[types.Object]bool // local variables captured by closures or with their address taken
	mut    map[types.Object]bool // package variables that code changes after their initialisation
	inInit map[types.Object]bool // package variables set by init functions
	nsite  int
	ntmp   int
}

type siteT struct{ name, pos string }

type rewriter struct {
	*pkgState
	file   *ast.File
	useMC  bool
	useEnv bool
	sites  []siteT
	resets []ast.Stmt
}

// reset makes every execution start with freshly initialised package variables.
func (r *rewriter) reset(d *ast.GenDecl) {
	for _, s := range d.Specs {
		v := s.(*ast.ValueSpec)
		want := false
		for _, n := range v.Names {
			o := r.info.Defs[n]
			want = want || (o != nil && r.mut[o] && !r.inInit[o])
		}
		if !want {
			continue
		}
		var lhs []ast.Expr
		for _, n := range v.Names {
			lhs = append(lhs, id(n.Name))
		}
		if len(v.Values) > 0 {
			r.resets = append(r.resets, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: v.Values})
			continue
		}
		for _, l := range lhs {
			z := r.tmp("z")
			r.resets = append(r.resets,
				&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{z}, Type: v.Type}}}},
				&ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(z.Name)}})
		}
	}
}

// findShared finds the local variables that other goroutines may reach.
func (p *pkgState) findShared(files []*ast.File) {
	p.shared = map[types.Object]bool{}
	p.mut = map[types.Object]bool{}
	p.inInit = map[types.Object]bool{}
	change := func(e ast.Expr, stack []ast.Node) {
		x := rootIdent(e)
		if x == nil || len(stack) == 0 {
			return
		}
		o := p.info.Uses[x]
		if o == nil {
			return
		}
		p.mut[o] = true
		if fd, ok := stack[0].(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
			p.inInit[o] = true
		}
	}
	for _, f := range files {
		var stack []ast.Node // enclosing functions
		var all []ast.Node
		ast.Inspect(f, func(n ast.Node) bool {
			if n == nil {
				top := all[len(all)-1]
				all = all[:len(all)-1]
				if len(stack) > 0 && stack[len(stack)-1] == top {
					stack = stack[:len(stack)-1]
				}
				return true
			}
			all = append(all, n)
			switch n := n.(type) {
			case *ast.FuncLit, *ast.FuncDecl:
				stack = append(stack, n)
			case *ast.Ident:
				if v, ok := p.info.Uses[n].(*types.Var); ok && !v.IsField() && len(stack) > 0 {
					if fl, ok := stack[len(stack)-1].(*ast.FuncLit); ok && (v.Pos() < fl.Pos() || v.Pos() > fl.End()) {
						p.shared[v] = true
					}
				}
			case *ast.AssignStmt:
				for _, e := range n.Lhs {
					change(e, stack)
				}
			case *ast.IncDecStmt:
				change(n.X, stack)
			case *ast.RangeStmt:
				if n.Tok == token.ASSIGN {
					change(n.Key, stack)
					change(n.Value, stack)
				}
			case *ast.CallExpr:
				if f, ok := n.Fun.(*ast.Ident); ok && len(n.Args) > 0 && (f.Name == "delete" || f.Name == "copy" || f.Name == "close") {
					change(n.Args[0], stack)
				}
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					change(n.X, stack)
					e := ast.Unparen(n.X)
					for {
						if s, ok := e.(*ast.SelectorExpr); ok {
							if _, isPtr := p.typeOf(s.X).Underlying().(*types.Pointer); !isPtr {
								e = ast.Unparen(s.X)
								continue
							}
						}
						break
					}
					if id, ok := e.(*ast.Ident); ok {
						if v, ok := p.info.Uses[id].(*types.Var); ok {
							p.shared[v] = true
						}
					}
				}
			case *ast.SelectorExpr:
				// implicit address-taking by method calls with pointer receivers
				if s := p.info.Selections[n]; s != nil && s.Kind() == types.MethodVal {
					if sig := s.Obj().(*types.Func).Type().(*types.Signature); sig.Recv() != nil {
						if _, ptr := sig.Recv().Type().(*types.Pointer); ptr {
							change(n.X, stack)
							if id, ok := ast.Unparen(n.X).(*ast.Ident); ok {
								if v, ok := p.info.Uses[id].(*types.Var); ok {
									if _, isPtr := v.Type().Underlying().(*types.Pointer); !isPtr {
										p.shared[v] = true
									}
								}
							}
						}
					}
				}
			}
			return true
		})
	}
}

func (p *pkgState) typeOf(e ast.Expr) types.Type {
	if t := p.info.TypeOf(e); t != nil {
		return t
	}
	return types.Typ[types.Invalid]
}

func (r *rewriter) tmp(s string) *ast.Ident {
	r.ntmp++
	return ast.NewIdent(fmt.Sprintf("_mc%s%d", s, r.ntmp))
}

func (r *rewriter) mc(name string) ast.Expr {
	r.useMC = true
	return &ast.SelectorExpr{X: ast.NewIdent("_mc"), Sel: ast.NewIdent(name)}
}

func (r *rewriter) site(n ast.Node) ast.Expr {
	r.nsite++
	pos := r.fset.Position(n.Pos())
	s := siteT{fmt.Sprintf("_mcsite%d", r.nsite), fmt.Sprintf("%s:%d", relName(pos.Filename), pos.Line)}
	r.sites = append(r.sites, s)
	return ast.NewIdent(s.name)
}

func relName(f string) string {
	d, b := filepath.Split(f)
	return filepath.Base(filepath.Clean(d)) + "/" + b
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func intLit(i int) ast.Expr {
	if i < 0 {
		return &ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(-i)}}
	}
	return &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(i)}
}

func (r *rewriter) rewriteFile() {
	f := r.file
	f.Comments = nil
	f.Doc = nil
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			d.Doc = nil
			if d.Tok == token.IMPORT {
				continue
			}
			r.genDecl(d)
			if d.Tok == token.VAR {
				r.reset(d)
			}
		case *ast.FuncDecl:
			d.Doc = nil
			if d.Recv != nil {
				r.fields(d.Recv)
			}
			r.funcType(d.Type)
			if d.Body != nil {
				r.block(d.Body)
			}
		}
	}
	if len(r.resets) > 0 {
		fn := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: r.resets}}
		f.Decls = append(f.Decls, &ast.FuncDecl{Name: id("init"), Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: one(&ast.ExprStmt{X: call(r.mc("OnReset"), fn)})}})
	}
	// drop imports that are no longer used
	used := map[types.Object]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[x].(*types.PkgName); ok {
					used[pn] = true
				}
			}
		}
		return true
	})
	var decls []ast.Decl
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		var specs []ast.Spec
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			is.Doc, is.Comment = nil, nil
			if is.Name != nil && (is.Name.Name == "_" || is.Name.Name == ".") {
				specs = append(specs, s)
				continue
			}
			var pn types.Object
			if is.Name != nil {
				pn = r.info.Defs[is.Name]
			} else {
				pn = r.info.Implicits[is]
			}
			if pn == nil || used[pn] {
				specs = append(specs, s)
			}
		}
		if len(specs) > 0 {
			g.Specs = specs
			if len(specs) > 1 {
				g.Lparen = 1
			}
			decls = append(decls, g)
		}
	}
	f.Decls = decls
}

func (r *rewriter) genDecl(d *ast.GenDecl) {
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.ValueSpec:
			s.Doc, s.Comment = nil, nil
			if s.Type != nil {
				s.Type = r.typ(s.Type)
			}
			if d.Tok == token.CONST {
				continue
			}
			for i := range s.Values {
				s.Values[i] = r.rv(s.Values[i])
			}
			if len(s.Names) == 2 && len(s.Values) == 1 {
				s.Values[0] = r.commaOK(s.Values[0])
			}
		case *ast.TypeSpec:
			s.Doc, s.Comment = nil, nil
			s.Type = r.typ(s.Type)
		}
	}
}

// commaOK turns a rewritten receive into its two-valued form.
func (r *rewriter) commaOK(e ast.Expr) ast.Expr {
	if c, ok := ast.Unparen(e).(*ast.CallExpr); ok {
		if s, ok := c.Fun.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok && x.Name == "_mc" && s.Sel.Name == "Recv" {
				s.Sel.Name = "Recv2"
				return c
			}
		}
	}
	// a map read, type assertion: strip the memory hook wrapper if any
	return e
}

func (r *rewriter) fields(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		f.Doc, f.Comment = nil, nil
		f.Type = r.typ(f.Type)
	}
}

func (r *rewriter) funcType(t *ast.FuncType) {
	r.fields(t.TypeParams)
	r.fields(t.Params)
	r.fields(t.Results)
}

// typ rewrites a type expression.
func (r *rewriter) typ(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.SelectorExpr:
		return r.qualified(e)
	case *ast.StarExpr:
		e.X = r.typ(e.X)
	case *ast.ParenExpr:
		e.X = r.typ(e.X)
	case *ast.ArrayType:
		e.Elt = r.typ(e.Elt)
	case *ast.MapType:
		e.Key, e.Value = r.typ(e.Key), r.typ(e.Value)
	case *ast.ChanType:
		e.Value = r.typ(e.Value)
	case *ast.StructType:
		r.fields(e.Fields)
	case *ast.InterfaceType:
		r.fields(e.Methods)
	case *ast.FuncType:
		r.funcType(e)
	case *ast.Ellipsis:
		e.Elt = r.typ(e.Elt)
	case *ast.IndexExpr:
		e.X, e.Index = r.typ(e.X), r.typ(e.Index)
	case *ast.IndexListExpr:
		e.X = r.typ(e.X)
		for i := range e.Indices {
			e.Indices[i] = r.typ(e.Indices[i])
		}
	}
	return e
}

// qualified rewrites pkg.Name according to the override tables.
func (r *rewriter) qualified(e *ast.SelectorExpr) ast.Expr {
	x, ok := e.X.(*ast.Ident)
	if !ok {
		return e
	}
	pn, ok := r.info.Uses[x].(*types.PkgName)
	if !ok {
		return e
	}
	key := pn.Imported().Path() + "." + e.Sel.Name
	if n, ok := mcNames[key]; ok {
		return r.mc(n)
	}
	if r.env || always[key] {
		if n, ok := envNames[key]; ok {
			r.useEnv = true
			return &ast.SelectorExpr{X: id("_env"), Sel: id(n)}
		}
	}
	return e
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = r.stmts(b.List)
}

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, r.stmt(s, true)...)
	}
	return out
}

// simple rewrites a statement in a place that holds only one statement.
func (r *rewriter) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	l := r.stmt(s, false)
	if len(l) == 1 {
		return l[0]
	}
	return &ast.BlockStmt{List: l}
}

func one(s ast.Stmt) []ast.Stmt { return []ast.Stmt{s} }

// stmt rewrites one statement; inList says whether several may replace it.
func (r *rewriter) stmt(s ast.Stmt, inList bool) []ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		r.block(s)
	case *ast.ExprStmt:
		s.X = r.rv(s.X)
	case *ast.SendStmt:
		ch, v := r.rv(s.Chan), r.rv(s.Value)
		return one(&ast.ExprStmt{X: call(call(r.mc("SendTo"), ch), v)})
	case *ast.IncDecStmt:
		marks := r.markWrite([]ast.Expr{s.X}, s, true)
		s.X = r.lv(s.X)
		return r.withMarks(s, marks, inList)
	case *ast.AssignStmt:
		return r.assign(s, inList)
	case *ast.GoStmt:
		return one(r.goStmt(s))
	case *ast.DeferStmt:
		s.Call = r.deferCall(s.Call)
	case *ast.ReturnStmt:
		for i := range s.Results {
			s.Results[i] = r.rv(s.Results[i])
		}
	case *ast.IfStmt:
		s.Init = r.simple(s.Init)
		s.Cond = r.rv(s.Cond)
		r.block(s.Body)
		if s.Else != nil {
			s.Else = r.simple(s.Else)
		}
	case *ast.ForStmt:
		s.Init = r.simple(s.Init)
		if s.Cond != nil {
			s.Cond = r.rv(s.Cond)
		}
		s.Post = r.simple(s.Post)
		r.block(s.Body)
	case *ast.RangeStmt:
		return one(r.rangeStmt(s, nil))
	case *ast.SwitchStmt:
		s.Init = r.simple(s.Init)
		if s.Tag != nil {
			s.Tag = r.rv(s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = r.rv(cc.List[i])
			}
			cc.Body = r.stmts(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		s.Init = r.simple(s.Init)
		switch a := s.Assign.(type) {
		case *ast.ExprStmt:
			t := a.X.(*ast.TypeAssertExpr)
			t.X = r.rv(t.X)
		case *ast.AssignStmt:
			t := a.Rhs[0].(*ast.TypeAssertExpr)
			t.X = r.rv(t.X)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = r.typ(cc.List[i])
			}
			cc.Body = r.stmts(cc.Body)
		}
	case *ast.SelectStmt:
		return one(r.selectStmt(s, nil))
	case *ast.LabeledStmt:
		switch in := s.Stmt.(type) {
		case *ast.SelectStmt:
			return one(r.selectStmt(in, s.Label))
		case *ast.RangeStmt:
			return one(r.rangeStmt(in, s.Label))
		}
		l := r.stmt(s.Stmt, true)
		s.Stmt = l[0]
		return append([]ast.Stmt{s}, l[1:]...)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok && g.Tok != token.IMPORT {
			r.genDecl(g)
		}
	}
	return one(s)
}

func (r *rewriter) withMarks(s ast.Stmt, marks []ast.Stmt, inList bool) []ast.Stmt {
	if len(marks) == 0 || !inList {
		return one(s)
	}
	return append([]ast.Stmt{s}, marks...)
}

// hasCall reports whether evaluating e may have effects.
func (r *rewriter) hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			if tv, ok := r.info.Types[n.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
				return true
			}
			found = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

func rootIdent(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		default:
			return nil
		}
	}
}

// markWrite returns statements recording writes to the given places, to be
// executed right after the assignment.
func (r *rewriter) markWrite(lhs []ast.Expr, at ast.Node, rw bool) []ast.Stmt {
	if !r.race {
		return nil
	}
	assigned := map[types.Object]bool{}
	for _, e := range lhs {
		if x, ok := ast.Unparen(e).(*ast.Ident); ok {
			if o := r.info.ObjectOf(x); o != nil {
				assigned[o] = true
			}
		}
	}
	var out []ast.Stmt
	for _, e := range lhs {
		e = ast.Unparen(e)
		if r.hasCall(e) {
			continue
		}
		if _, plain := e.(*ast.Ident); !plain {
			if len(lhs) > 1 {
				// only places whose address the same statement cannot change
				x := rootIdent(e)
				if x == nil || assigned[r.info.ObjectOf(x)] || depth(e) > 1 {
					continue
				}
			}
		}
		fn := "W"
		if rw {
			fn = "RW"
		}
		if ix, ok := e.(*ast.IndexExpr); ok {
			if _, isMap := r.typeOf(ix.X).Underlying().(*types.Map); isMap {
				out = append(out, &ast.ExprStmt{X: call(r.mc("MW"), r.clone(ix.X), r.site(at))})
				continue
			}
			if x, ok := ast.Unparen(ix.Index).(*ast.Ident); ok && assigned[r.info.ObjectOf(x)] {
				continue
			}
		}
		if !r.tracked(e) {
			continue
		}
		out = append(out, &ast.ExprStmt{X: call(r.mc(fn), &ast.UnaryExpr{Op: token.AND, X: r.clone(e)}, r.site(at))})
	}
	return out
}

func depth(e ast.Expr) int {
	n := 0
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
			continue
		case *ast.SelectorExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		default:
			return n
		}
		n++
	}
}

// clone copies an effect-free expression without rewriting its reads.
func (r *rewriter) clone(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		n := ast.NewIdent(x.Name)
		if o := r.info.Uses[x]; o != nil {
			r.info.Uses[n] = o
		}
		return n
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: r.clone(x.X)}
	case *ast.SelectorExpr:
		s := &ast.SelectorExpr{X: r.clone(x.X), Sel: ast.NewIdent(x.Sel.Name)}
		return r.qualified(s)
	case *ast.IndexExpr:
		return &ast.IndexExpr{X: r.clone(x.X), Index: r.clone(x.Index)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: r.clone(x.X)}
	case *ast.BasicLit:
		return &ast.BasicLit{Kind: x.Kind, Value: x.Value}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: r.clone(x.X), Op: x.Op, Y: r.clone(x.Y)}
	case *ast.UnaryExpr:
		return &ast.UnaryExpr{Op: x.Op, X: r.clone(x.X)}
	case *ast.SliceExpr:
		c := &ast.SliceExpr{X: r.clone(x.X), Slice3: x.Slice3}
		if x.Low != nil {
			c.Low = r.clone(x.Low)
		}
		if x.High != nil {
			c.High = r.clone(x.High)
		}
		if x.Max != nil {
			c.Max = r.clone(x.Max)
		}
		return c
	case *ast.CallExpr:
		c := &ast.CallExpr{Fun: r.clone(x.Fun)}
		for _, a := range x.Args {
			c.Args = append(c.Args, r.clone(a))
		}
		return c
	case *ast.TypeAssertExpr:
		return &ast.TypeAssertExpr{X: r.clone(x.X), Type: x.Type}
	}
	return e
}

// tracked reports whether e is an addressable place that another goroutine may reach.
func (r *rewriter) tracked(e ast.Expr) bool {
	if !r.race {
		return false
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.tracked(x.X)
	case *ast.Ident:
		v, ok := r.info.ObjectOf(x).(*types.Var)
		if !ok || v.IsField() || x.Name == "_" {
			return false
		}
		if isRT(v.Type()) {
			return false
		}
		if v.Parent() == v.Pkg().Scope() {
			return true
		}
		return r.shared[v]
	case *ast.SelectorExpr:
		if px, ok := x.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[px].(*types.PkgName); ok {
				v, isVar := r.info.Uses[x.Sel].(*types.Var)
				return isVar && r.ours[pn.Imported().Path()] && !isRT(v.Type())
			}
		}
		s := r.info.Selections[x]
		if s == nil || s.Kind() != types.FieldVal || isRT(s.Type()) {
			return false
		}
		if s.Indirect() {
			return true
		}
		if _, ok := r.typeOf(x.X).Underlying().(*types.Pointer); ok {
			return true
		}
		return r.tracked(x.X)
	case *ast.IndexExpr:
		switch t := r.typeOf(x.X).Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			_, ok := t.Elem().Underlying().(*types.Array)
			return ok
		case *types.Array:
			return r.tracked(x.X)
		}
		return false
	case *ast.StarExpr:
		tv := r.info.Types[x]
		return !tv.IsType()
	}
	return false
}

// isRT reports whether values of the type are synchronisation objects.
func isRT(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	_, ok = mcNames[n.Obj().Pkg().Path()+"."+n.Obj().Name()]
	if !ok {
		return false
	}
	_, isStruct := n.Underlying().(*types.Struct)
	return isStruct
}

// lv rewrites an expression in a place where its address is used.
func (r *rewriter) lv(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = r.lv(x.X)
	case *ast.SelectorExpr:
		if r.info.Selections[x] == nil {
			return r.qualified(x)
		}
		if _, ok := r.typeOf(x.X).Underlying().(*types.Pointer); ok {
			x.X = r.rv(x.X)
		} else {
			x.X = r.lv(x.X)
		}
	case *ast.IndexExpr:
		if r.info.Types[x.Index].IsType() {
			return r.rv(e)
		}
		x.Index = r.rv(x.Index)
		switch r.typeOf(x.X).Underlying().(type) {
		case *types.Array:
			x.X = r.lv(x.X)
		default:
			x.X = r.rv(x.X)
		}
	case *ast.StarExpr:
		x.X = r.rv(x.X)
	case *ast.Ident:
		return x
	default:
		return r.rv(e)
	}
	return e
}

func (r *rewriter) read(e ast.Expr, at ast.Node) ast.Expr {
	return &ast.ParenExpr{X: &ast.StarExpr{X: call(r.mc("R"), &ast.UnaryExpr{Op: token.AND, X: e}, r.site(at))}}
}

// rv rewrites an expression whose value is used.
func (r *rewriter) rv(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	tv, known := r.info.Types[e]
	if known && tv.IsType() {
		return r.typ(e)
	}
	if known && tv.Value != nil {
		// constant: only qualified identifiers need care
		if s, ok := e.(*ast.SelectorExpr); ok {
			return r.qualified(s)
		}
		if c, ok := e.(*ast.CallExpr); ok { // conversions of constants, len of constants
			for i := range c.Args {
				c.Args[i] = r.rv(c.Args[i])
			}
		}
		if b, ok := e.(*ast.BinaryExpr); ok {
			b.X, b.Y = r.rv(b.X), r.rv(b.Y)
		}
		return e
	}
	switch x := e.(type) {
	case *ast.Ident:
		if v, ok := r.info.Uses[x].(*types.Var); ok && !v.IsField() && r.tracked(x) {
			return r.read(x, x)
		}
		return x
	case *ast.BasicLit:
		return x
	case *ast.ParenExpr:
		x.X = r.rv(x.X)
		return x
	case *ast.FuncLit:
		r.funcType(x.Type)
		r.block(x.Body)
		return x
	case *ast.CompositeLit:
		t := r.typeOf(x)
		if x.Type != nil {
			x.Type = r.typ(x.Type)
		}
		u := t.Underlying()
		if p, ok := u.(*types.Pointer); ok {
			u = p.Elem().Underlying()
		}
		_, isStruct := u.(*types.Struct)
		_, isMap := u.(*types.Map)
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if isMap && !isStruct {
					kv.Key = r.rv(kv.Key)
				}
				kv.Value = r.rv(kv.Value)
				continue
			}
			x.Elts[i] = r.rv(el)
		}
		return x
	case *ast.SelectorExpr:
		s := r.info.Selections[x]
		if s == nil {
			q := r.qualified(x)
			if q == e && r.tracked(x) {
				return r.read(x, x)
			}
			return q
		}
		switch s.Kind() {
		case types.MethodVal:
			return r.methodVal(x, s)
		case types.MethodExpr:
			x.X = r.typ(x.X)
			return x
		}
		if r.tracked(x) && r.addressable(x) {
			return r.read(r.lv(x), x)
		}
		if r.addressable(x.X) {
			x.X = r.lvOrPtr(x.X)
		} else {
			x.X = r.rv(x.X)
		}
		return x
	case *ast.IndexExpr:
		if _, ok := r.info.Instances[instIdent(x.X)]; ok && instIdent(x.X) != nil {
			x.X, x.Index = r.rv(x.X), r.typ(x.Index)
			return x
		}
		switch r.typeOf(x.X).Underlying().(type) {
		case *types.Map:
			m := r.rv(x.X)
			k := r.rv(x.Index)
			if r.race {
				m = call(r.mc("MR"), m, r.site(x))
			}
			x.X, x.Index = m, k
			return x
		}
		if r.tracked(x) && r.addressable(x) {
			return r.read(r.lv(x), x)
		}
		if _, ok := r.typeOf(x.X).Underlying().(*types.Array); ok && r.addressable(x.X) {
			x.X = r.lv(x.X)
		} else {
			x.X = r.rv(x.X)
		}
		x.Index = r.rv(x.Index)
		return x
	case *ast.IndexListExpr:
		x.X = r.rv(x.X)
		for i := range x.Indices {
			x.Indices[i] = r.typ(x.Indices[i])
		}
		return x
	case *ast.SliceExpr:
		if _, ok := r.typeOf(x.X).Underlying().(*types.Array); ok {
			x.X = r.lv(x.X)
		} else {
			x.X = r.rv(x.X)
		}
		x.Low, x.High, x.Max = r.rvn(x.Low), r.rvn(x.High), r.rvn(x.Max)
		return x
	case *ast.StarExpr:
		if r.race {
			site := r.site(x)
			return &ast.ParenExpr{X: &ast.StarExpr{X: call(r.mc("R"), r.rv(x.X), site)}}
		}
		x.X = r.rv(x.X)
		return x
	case *ast.TypeAssertExpr:
		x.X = r.rv(x.X)
		if x.Type != nil {
			x.Type = r.typ(x.Type)
		}
		return x
	case *ast.UnaryExpr:
		switch x.Op {
		case token.ARROW:
			return call(r.mc("Recv"), r.rv(x.X))
		case token.AND:
			if _, ok := ast.Unparen(x.X).(*ast.CompositeLit); ok {
				x.X = r.rv(x.X)
				return x
			}
			x.X = r.lv(x.X)
			return x
		}
		x.X = r.rv(x.X)
		return x
	case *ast.BinaryExpr:
		x.X, x.Y = r.rv(x.X), r.rv(x.Y)
		return x
	case *ast.KeyValueExpr:
		x.Value = r.rv(x.Value)
		return x
	case *ast.CallExpr:
		return r.call(x)
	case *ast.Ellipsis:
		return x
	}
	return e
}

func (r *rewriter) rvn(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	return r.rv(e)
}

func instIdent(e ast.Expr) *ast.Ident {
	switch x := e.(type) {
	case *ast.Ident:
		return x
	case *ast.SelectorExpr:
		return x.Sel
	}
	return nil
}

func (r *rewriter) lvOrPtr(e ast.Expr) ast.Expr {
	if _, ok := r.typeOf(e).Underlying().(*types.Pointer); ok {
		return r.rv(e)
	}
	return r.lv(e)
}

// methodVal rewrites x.Method.
func (r *rewriter) methodVal(x *ast.SelectorExpr, s *types.Selection) ast.Expr {
	sig := s.Obj().(*types.Func).Type().(*types.Signature)
	_, ptrRecv := sig.Recv().Type().(*types.Pointer)
	_, isPtr := r.typeOf(x.X).Underlying().(*types.Pointer)
	switch {
	case isPtr, types.IsInterface(r.typeOf(x.X)):
		x.X = r.rv(x.X)
	case ptrRecv && r.addressable(x.X):
		x.X = r.lv(x.X)
	case isRT(r.typeOf(x.X)):
		x.X = r.lv(x.X)
	case len(s.Index()) > 1 && r.addressable(x.X):
		x.X = r.lv(x.X)
	default:
		x.X = r.rv(x.X)
	}
	return x
}

func (r *rewriter) addressable(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.addressable(x.X)
	case *ast.Ident:
		_, ok := r.info.ObjectOf(x).(*types.Var)
		return ok
	case *ast.SelectorExpr:
		if px, ok := x.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[px].(*types.PkgName); ok {
				_, isVar := r.info.Uses[x.Sel].(*types.Var)
				return isVar
			}
		}
		s := r.info.Selections[x]
		if s == nil || s.Kind() != types.FieldVal {
			return false
		}
		if _, ok := r.typeOf(x.X).Underlying().(*types.Pointer); ok {
			return true
		}
		return s.Indirect() || r.addressable(x.X)
	case *ast.IndexExpr:
		switch t := r.typeOf(x.X).Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			_, ok := t.Elem().Underlying().(*types.Array)
			return ok
		case *types.Array:
			return r.addressable(x.X)
		}
		return false
	case *ast.StarExpr:
		return true
	}
	return false
}

func isBuiltin(info *types.Info, f ast.Expr, name string) bool {
	x, ok := ast.Unparen(f).(*ast.Ident)
	if !ok {
		return false
	}
	b, ok := info.Uses[x].(*types.Builtin)
	return ok && b.Name() == name
}

func (r *rewriter) builtin(x *ast.CallExpr) (ast.Expr, bool) {
	f, ok := ast.Unparen(x.Fun).(*ast.Ident)
	if !ok {
		return nil, false
	}
	b, ok := r.info.Uses[f].(*types.Builtin)
	if !ok {
		return nil, false
	}
	under := func(i int) types.Type {
		t := r.typeOf(x.Args[i]).Underlying()
		return t
	}
	switch b.Name() {
	case "close":
		return call(r.mc("Close"), r.rv(x.Args[0])), true
	case "len":
		switch under(0).(type) {
		case *types.Chan:
			return call(r.mc("ChanLen"), r.rv(x.Args[0])), true
		case *types.Map:
			m := r.rv(x.Args[0])
			if r.race {
				m = call(r.mc("MR"), m, r.site(x))
			}
			x.Args[0] = m
			return x, true
		case *types.Array:
			x.Args[0] = r.lv(x.Args[0])
			return x, true
		}
	case "delete":
		m, k := r.rv(x.Args[0]), r.rv(x.Args[1])
		if r.race {
			m = call(r.mc("MW"), m, r.site(x))
		}
		x.Args[0], x.Args[1] = m, k
		return x, true
	case "append":
		if !r.race || len(x.Args) < 2 {
			break
		}
		if tv := r.info.Types[x.Args[0]]; tv.IsNil() {
			break
		}
		if x.Ellipsis.IsValid() {
			if bt, ok := under(1).(*types.Basic); ok && bt.Info()&types.IsString != 0 || r.info.Types[x.Args[1]].IsNil() {
				break
			}
			a, b := r.rv(x.Args[0]), r.rv(x.Args[1])
			return call(call(r.mc("AppendSlice"), a, r.site(x)), b), true
		}
		a := r.rv(x.Args[0])
		site := r.site(x)
		c := call(call(r.mc("Append"), a, site))
		for _, v := range x.Args[1:] {
			c.Args = append(c.Args, r.rv(v))
		}
		return c, true
	case "copy":
		if bt, ok := under(1).(*types.Basic); ok && bt.Info()&types.IsString != 0 || !r.race {
			break
		}
		return call(r.mc("CopySlice"), r.rv(x.Args[0]), r.rv(x.Args[1]), r.site(x)), true
	case "new", "make":
		x.Args[0] = r.typ(x.Args[0])
		for i := 1; i < len(x.Args); i++ {
			x.Args[i] = r.rv(x.Args[i])
		}
		return x, true
	}
	for i := range x.Args {
		x.Args[i] = r.rv(x.Args[i])
	}
	return x, true
}

func (r *rewriter) call(x *ast.CallExpr) ast.Expr {
	if e, ok := r.builtin(x); ok {
		return e
	}
	if tv := r.info.Types[x.Fun]; tv.IsType() {
		x.Fun = r.typ(x.Fun)
	} else {
		x.Fun = r.rv(x.Fun)
	}
	deep := false
	if f, ok := x.Fun.(*ast.SelectorExpr); ok && r.race {
		if fn, ok := r.info.Uses[f.Sel].(*types.Func); ok && fn.Pkg() != nil {
			deep = deepReaders[fn.Pkg().Path()+"."+fn.Name()]
		}
	}
	for i := range x.Args {
		orig := x.Args[i]
		x.Args[i] = r.rv(orig)
		if tv := r.info.Types[orig]; deep && tv.Value == nil && !tv.IsNil() {
			x.Args[i] = call(r.mc("Deep"), x.Args[i], r.site(x))
		}
	}
	return x
}

func (r *rewriter) deferCall(c *ast.CallExpr) *ast.CallExpr {
	e := r.call(c)
	if n, ok := e.(*ast.CallExpr); ok {
		return n
	}
	return c
}

func (r *rewriter) assign(s *ast.AssignStmt, inList bool) []ast.Stmt {
	var marks []ast.Stmt
	if s.Tok == token.DEFINE {
		var old []ast.Expr
		for _, e := range s.Lhs {
			if x, ok := e.(*ast.Ident); ok && r.info.Defs[x] == nil && x.Name != "_" {
				old = append(old, e)
			}
		}
		marks = r.markWrite(old, s, false)
	} else {
		marks = r.markWrite(s.Lhs, s, s.Tok != token.ASSIGN)
	}
	for i := range s.Rhs {
		s.Rhs[i] = r.rv(s.Rhs[i])
	}
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		s.Rhs[0] = r.commaOK(s.Rhs[0])
	}
	if s.Tok != token.DEFINE {
		for i := range s.Lhs {
			s.Lhs[i] = r.lv(s.Lhs[i])
		}
	}
	return r.withMarks(s, marks, inList)
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		e := r.rv(fl)
		var res ast.Expr = e
		if fl.Type.Results != nil && len(fl.Type.Results.List) > 0 {
			res = &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: one(&ast.ExprStmt{X: call(e)})}}
		}
		return &ast.ExprStmt{X: call(r.mc("Go"), res)}
	}
	var pre []ast.Stmt
	inner := &ast.CallExpr{Ellipsis: c.Ellipsis}
	hold := func(e ast.Expr) ast.Expr {
		if tv := r.info.Types[e]; tv.Value != nil || tv.IsNil() {
			return r.rv(e)
		}
		if fl, ok := e.(*ast.FuncLit); ok {
			return r.rv(fl)
		}
		t := r.tmp("g")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{r.rv(e)}})
		return id(t.Name)
	}
	isB := false
	if x, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		_, isB = r.info.Uses[x].(*types.Builtin)
	}
	switch {
	case isB:
		var names []ast.Expr
		for _, a := range c.Args {
			names = append(names, hold(a))
		}
		switch {
		case isBuiltin(r.info, c.Fun, "close"):
			inner.Fun, inner.Args = r.mc("Close"), names
		default:
			inner.Fun, inner.Args = c.Fun, names
		}
	default:
		static := false
		switch f := ast.Unparen(c.Fun).(type) {
		case *ast.Ident:
			_, static = r.info.Uses[f].(*types.Func)
		case *ast.SelectorExpr:
			if r.info.Selections[f] == nil {
				_, static = r.info.Uses[f.Sel].(*types.Func)
			}
		}
		if static || r.info.Types[c.Fun].IsType() {
			inner.Fun = r.rv(c.Fun)
		} else if fl, ok := c.Fun.(*ast.FuncLit); ok {
			inner.Fun = r.rv(fl)
		} else {
			inner.Fun = hold(c.Fun)
		}
		for _, a := range c.Args {
			inner.Args = append(inner.Args, hold(a))
		}
	}
	g := &ast.ExprStmt{X: call(r.mc("Go"), &ast.FuncLit{
		Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: one(&ast.ExprStmt{X: inner})},
	})}
	if len(pre) == 0 {
		return g
	}
	return &ast.BlockStmt{List: append(pre, g)}
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	var pre []ast.Stmt
	sel := call(r.mc("Select"))
	sw := &ast.SwitchStmt{Tag: sel, Body: &ast.BlockStmt{}}
	hasDefault := false
	n := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: r.stmts(cc.Body)})
			continue
		}
		v := r.tmp("c")
		var body []ast.Stmt
		var rhs ast.Expr
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = call(call(r.mc("SendCase"), r.rv(cm.Chan)), r.rv(cm.Value))
		case *ast.ExprStmt:
			rhs = call(r.mc("RecvCase"), r.rv(ast.Unparen(cm.X).(*ast.UnaryExpr).X))
		case *ast.AssignStmt:
			rhs = call(r.mc("RecvCase"), r.rv(ast.Unparen(cm.Rhs[0]).(*ast.UnaryExpr).X))
			a := &ast.AssignStmt{Tok: cm.Tok, Rhs: []ast.Expr{call(&ast.SelectorExpr{X: id(v.Name), Sel: id("V")})}}
			if len(cm.Lhs) == 2 {
				a.Rhs = append(a.Rhs, call(&ast.SelectorExpr{X: id(v.Name), Sel: id("OK")}))
			}
			var marks []ast.Stmt
			if cm.Tok != token.DEFINE {
				marks = r.markWrite(cm.Lhs, cm, false)
				for _, l := range cm.Lhs {
					a.Lhs = append(a.Lhs, r.lv(l))
				}
			} else {
				a.Lhs = cm.Lhs
			}
			body = append(append(body, a), marks...)
		}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}})
		sel.Args = append(sel.Args, id(v.Name))
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{intLit(n)}, Body: append(body, r.stmts(cc.Body)...)})
		n++
	}
	sel.Args = append([]ast.Expr{id(fmt.Sprint(hasDefault))}, sel.Args...)
	if !hasDefault {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: one(&ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})})})
	}
	var st ast.Stmt = sw
	if label != nil {
		st = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{List: append(pre, st)}
}

func blankOrNil(e ast.Expr) bool {
	if e == nil {
		return true
	}
	x, ok := e.(*ast.Ident)
	return ok && x.Name == "_"
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt, label *ast.Ident) ast.Stmt {
	wrap := func(pre []ast.Stmt, l ast.Stmt) ast.Stmt {
		if label != nil {
			l = &ast.LabeledStmt{Label: label, Stmt: l}
		}
		if len(pre) == 0 {
			return l
		}
		return &ast.BlockStmt{List: append(pre, l)}
	}
	t := r.typeOf(s.X).Underlying()
	if p, ok := t.(*types.TypeParam); ok {
		t = p.Underlying()
	}
	switch t := t.(type) {
	case *types.Chan:
		ch, ok := r.tmp("rc"), r.tmp("ok")
		init := &ast.AssignStmt{Lhs: []ast.Expr{ch, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.mc("RangeChan"), r.rv(s.X))}}
		var target ast.Expr = id("_")
		if !blankOrNil(s.Key) {
			if s.Tok == token.DEFINE {
				init.Lhs = append(init.Lhs, s.Key)
				target = id(s.Key.(*ast.Ident).Name)
			} else {
				target = r.lv(s.Key)
			}
		}
		if len(init.Lhs) == 2 {
			init.Lhs = append(init.Lhs, id("_"))
		}
		r.block(s.Body)
		body := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{target, id(ok.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{call(r.mc("Recv2"), id(ch.Name))}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok.Name)}, Body: &ast.BlockStmt{List: one(&ast.BranchStmt{Tok: token.BREAK})}},
		}
		s.Body.List = append(body, s.Body.List...)
		return wrap(nil, &ast.ForStmt{Init: init, Body: s.Body})
	case *types.Map:
		it := r.tmp("it")
		init := &ast.AssignStmt{Lhs: []ast.Expr{it, id("_"), id("_")}, Tok: token.DEFINE, Rhs: []ast.Expr{call(r.mc("RangeMap"), r.rv(s.X), r.site(s))}}
		set := &ast.AssignStmt{Tok: token.ASSIGN}
		for i, k := range []ast.Expr{s.Key, s.Value} {
			if blankOrNil(k) {
				continue
			}
			f := "K"
			if i == 1 {
				f = "V"
			}
			if s.Tok == token.DEFINE {
				init.Lhs[i+1] = k
				set.Lhs = append(set.Lhs, id(k.(*ast.Ident).Name))
			} else {
				set.Lhs = append(set.Lhs, r.lv(k))
			}
			set.Rhs = append(set.Rhs, &ast.SelectorExpr{X: id(it.Name), Sel: id(f)})
		}
		r.block(s.Body)
		if len(set.Lhs) > 0 {
			s.Body.List = append([]ast.Stmt{set}, s.Body.List...)
		}
		return wrap(nil, &ast.ForStmt{Init: init, Cond: call(&ast.SelectorExpr{X: id(it.Name), Sel: id("Next")}), Body: s.Body})
	case *types.Slice:
		if r.race && !blankOrNil(s.Value) {
			sl := r.tmp("s")
			pre := &ast.AssignStmt{Lhs: []ast.Expr{sl}, Tok: token.DEFINE, Rhs: []ast.Expr{r.rv(s.X)}}
			s.X = id(sl.Name)
			var idx string
			if blankOrNil(s.Key) && s.Tok == token.DEFINE {
				k := r.tmp("i")
				s.Key, idx = k, k.Name
			} else if x, ok := s.Key.(*ast.Ident); ok && x.Name != "_" {
				idx = x.Name
			}
			site := r.site(s)
			r.block(s.Body)
			if s.Tok != token.DEFINE {
				s.Key, s.Value = r.lvn(s.Key), r.lvn(s.Value)
			}
			if idx != "" {
				s.Body.List = append([]ast.Stmt{&ast.ExprStmt{X: call(r.mc("R"), &ast.UnaryExpr{Op: token.AND, X: &ast.IndexExpr{X: id(sl.Name), Index: id(idx)}}, site)}}, s.Body.List...)
			}
			return wrap([]ast.Stmt{pre}, s)
		}
	case *types.Array:
		s.X = r.lv(s.X)
		if !r.addressable(s.X) {
			s.X = r.rv(s.X)
		}
		if s.Tok != token.DEFINE {
			s.Key, s.Value = r.lvn(s.Key), r.lvn(s.Value)
		}
		r.block(s.Body)
		return wrap(nil, s)
	default:
		_ = t
	}
	s.X = r.rv(s.X)
	if s.Tok != token.DEFINE {
		s.Key, s.Value = r.lvn(s.Key), r.lvn(s.Value)
	}
	r.block(s.Body)
	return wrap(nil, s)
}

func (r *rewriter) lvn(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	return r.lv(e)
}

func names(m map[string]string) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}
