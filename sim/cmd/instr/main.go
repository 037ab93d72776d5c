// Command instr makes an instrumented copy of the Go packages under test.
//
//	instr -src /repo -dst DIR -level full|yield|none
//
// The copy behaves exactly like the original while no simulation is running;
// under a simulation every statement is a scheduling point, read-modify-write
// operations on shared memory are split, and clocks, map iteration order,
// atomics, locks, pools and goroutines are handed to the simulator.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/VolantMQ/vlapi"

type pkgInfo struct {
	path  string
	dir   string
	files []string
	ast   []*ast.File
	types *types.Package
	info  *types.Info
	err   error
	deps  []string
	inits int // init functions seen
}

var (
	fset  = token.NewFileSet()
	pkgs  = map[string]*pkgInfo{}
	sites []string
	level string
	races bool
	std   types.Importer
)

type imp struct{}

func (imp) Import(path string) (*types.Package, error) {
	if p, ok := pkgs[path]; ok {
		check(p)
		if p.err != nil && p.types == nil {
			return nil, p.err
		}
		return p.types, nil
	}
	if strings.Contains(strings.SplitN(path, "/", 2)[0], ".") {
		return nil, fmt.Errorf("%s: not instrumentable", path)
	}
	return std.Import(path)
}

func check(p *pkgInfo) {
	if p.types != nil || p.err != nil {
		return
	}
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
		Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	cfg := types.Config{Importer: imp{}, Error: func(error) {}}
	t, err := cfg.Check(p.path, fset, p.ast, p.info)
	p.types, p.err = t, err
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(1)
}

func main() {
	src := flag.String("src", "/repo", "")
	dst := flag.String("dst", "", "")
	flag.BoolVar(&races, "races", false, "show memory accesses to the race detector")
	flag.StringVar(&level, "level", "full", "")
	want := flag.String("pkgs", "mqttp,vlmonitoring,vlpersistence", "packages the harness needs")
	flag.Parse()
	build.Default.CgoEnabled = false
	std = importer.ForCompiler(fset, "source", nil)

	// every package of the module that the wanted ones may need
	err := filepath.Walk(*src, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if n := fi.Name(); path != *src && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			bp, err := build.ImportDir(path, 0)
			if err != nil || len(bp.GoFiles) == 0 {
				return nil
			}
			rel, _ := filepath.Rel(*src, path)
			p := &pkgInfo{path: modPath, dir: path, files: bp.GoFiles, deps: bp.Imports}
			if rel != "." {
				p.path += "/" + filepath.ToSlash(rel)
			}
			pkgs[p.path] = p
		}
		return nil
	})
	if err != nil {
		fatal(err)
	}
	need := map[string]bool{}
	var visit func(string)
	visit = func(path string) {
		p := pkgs[path]
		if p == nil || need[path] {
			return
		}
		need[path] = true
		for _, d := range p.deps {
			visit(d)
		}
	}
	for _, w := range strings.Split(*want, ",") {
		visit(modPath + "/" + w)
	}
	var order []string
	for k := range need {
		order = append(order, k)
	}
	sort.Strings(order)
	for _, k := range order {
		p := pkgs[k]
		for _, f := range p.files {
			a, err := parser.ParseFile(fset, filepath.Join(p.dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				fatal(err)
			}
			p.ast = append(p.ast, a)
		}
	}
	report := map[string]string{}
	for _, k := range order {
		p := pkgs[k]
		out := filepath.Join(*dst, strings.TrimPrefix(strings.TrimPrefix(k, modPath), "/"))
		if err := os.MkdirAll(out, 0o755); err != nil {
			fatal(err)
		}
		mode := level
		if mode != "none" {
			check(p)
			if p.err != nil {
				mode = "none"
				fmt.Fprintf(os.Stderr, "instr: %s copied verbatim: %v\n", k, p.err)
			}
		}
		for i, f := range p.files {
			var b []byte
			if mode == "none" {
				b, err = os.ReadFile(filepath.Join(p.dir, f))
			} else {
				b, err = instrument(p, p.ast[i], mode, i == 0)
			}
			if err != nil {
				fatal(err)
			}
			if err := os.WriteFile(filepath.Join(out, f), b, 0o644); err != nil {
				fatal(err)
			}
		}
		report[strings.TrimPrefix(k, modPath+"/")] = mode
	}
	// 1.21 keeps the loop variable semantics of the original module and allows
	// the generic hooks
	if err := os.WriteFile(filepath.Join(*dst, "go.mod"), []byte("module "+modPath+"\n\ngo 1.21\n"), 0o644); err != nil {
		fatal(err)
	}
	js, _ := json.Marshal(map[string]any{"sites": sites, "packages": report, "level": level})
	if err := os.WriteFile(filepath.Join(*dst, "sites.json"), js, 0o644); err != nil {
		fatal(err)
	}
}

type inst struct {
	p    *pkgInfo
	mode string
	root string
	now  map[ast.Expr]ast.Expr // rewritten initialisers
}

// The copy can be put back into the state of a process that has just started:
// package variables are zeroed, then initialised again in the order of the
// language, then the init functions run again.

func inFile(p token.Pos, f *ast.File) bool { return fset.File(p) == fset.File(f.Pos()) }

func function(name string, body ...ast.Stmt) ast.Decl {
	return &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
}

func callTo(name string) ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(name)}}
}

// resetters are the functions that repeat the initialisation of what the file
// declares.
func resetters(p *pkgInfo, f *ast.File, in *inst) (r []func() ast.Decl) {
	for i, x := range p.info.InitOrder {
		if !inFile(x.Lhs[0].Pos(), f) {
			continue
		}
		r = append(r, func() ast.Decl {
			a := &ast.AssignStmt{Tok: token.ASSIGN, Rhs: []ast.Expr{x.Rhs}}
			if e, ok := in.now[x.Rhs]; ok {
				a.Rhs[0] = e
			}
			for _, v := range x.Lhs {
				a.Lhs = append(a.Lhs, ast.NewIdent(v.Name()))
			}
			return function(fmt.Sprintf("simInit%d", i), a)
		})
	}
	for _, d := range f.Decls {
		if d, ok := d.(*ast.FuncDecl); ok && d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
			n := fmt.Sprintf("simInitFn%d", p.inits)
			p.inits++
			d.Name = ast.NewIdent(n)
			r = append(r, func() ast.Decl { return function("init", callTo(n)) })
		}
	}
	return r
}

// resetAll is the function that resets the package. It lives in the first
// file: the other files' init functions are counted here.
func resetAll(p *pkgInfo) []func() ast.Decl {
	n := 0
	for _, f := range p.ast {
		for _, d := range f.Decls {
			if d, ok := d.(*ast.FuncDecl); ok && d.Recv == nil && d.Body != nil && (d.Name.Name == "init" || strings.HasPrefix(d.Name.Name, "simInitFn")) {
				n++
			}
		}
	}
	return []func() ast.Decl{func() ast.Decl {
		var body []ast.Stmt
		sc := p.types.Scope()
		for _, name := range sc.Names() {
			if _, ok := sc.Lookup(name).(*types.Var); ok {
				body = append(body, &ast.ExprStmt{X: call("Zero", &ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(name)})})
			}
		}
		for i := range p.info.InitOrder {
			body = append(body, callTo(fmt.Sprintf("simInit%d", i)))
		}
		for i := 0; i < n; i++ {
			body = append(body, callTo(fmt.Sprintf("simInitFn%d", i)))
		}
		return function("simReset", body...)
	}, func() ast.Decl {
		var all []ast.Expr
		sc := p.types.Scope()
		for _, name := range sc.Names() {
			if _, ok := sc.Lookup(name).(*types.Var); ok {
				all = append(all, &ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(name)})
			}
		}
		return function("init", &ast.ExprStmt{X: call("OnReset", ast.NewIdent("simReset"))}, &ast.ExprStmt{X: call("Vars", all...)})
	}}
}

func instrument(p *pkgInfo, f *ast.File, mode string, first bool) ([]byte, error) {
	in := &inst{p: p, mode: mode, now: map[ast.Expr]ast.Expr{}}
	decls := resetters(p, f, in)
	if first {
		decls = append(decls, resetAll(p)...)
	}
	f.Comments = nil
	f.Doc = nil
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			d.Doc = nil
			if d.Body != nil {
				in.block(d.Body)
			}
		case *ast.GenDecl:
			d.Doc = nil
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.ValueSpec:
					s.Doc, s.Comment = nil, nil
					for i := range s.Values {
						old := s.Values[i]
						s.Values[i] = in.expr(old)
						in.now[old] = s.Values[i]
					}
				case *ast.TypeSpec:
					s.Doc, s.Comment = nil, nil
				}
			}
		}
	}
	for _, d := range decls {
		f.Decls = append(f.Decls, d())
	}
	// the import, and keep possibly unused ones alive
	var keep []ast.Decl
	imports := map[string]string{"time": "Nanosecond", "sync/atomic": "LoadInt32", "sync": "NewCond"}
	imps := []ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("simrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("verif/simrt")}}}}}
	for _, s := range f.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		sym, ok := imports[path]
		if !ok || (s.Name != nil && (s.Name.Name == "_" || s.Name.Name == ".")) {
			continue
		}
		name := path[strings.LastIndex(path, "/")+1:]
		if s.Name != nil {
			name = s.Name.Name
		}
		keep = append(keep, blank(&ast.SelectorExpr{X: ast.NewIdent(name), Sel: ast.NewIdent(sym)}))
	}
	keep = append(keep, blank(&ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent("P")}))
	// imports must come first
	i := 0
	for i < len(f.Decls) {
		if g, ok := f.Decls[i].(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			i++
			continue
		}
		break
	}
	nd := append(append(append([]ast.Decl{}, imps...), f.Decls[:i]...), keep...)
	f.Decls = append(nd, f.Decls[i:]...)
	strip(f)
	var buf bytes.Buffer
	if err := format.Node(&buf, token.NewFileSet(), f); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

// strip removes comments that hang on nodes; positions no longer make sense.
func strip(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.GenDecl:
			n.Doc = nil
		}
		return true
	})
}

func blank(e ast.Expr) ast.Decl {
	return &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{e}}}}
}

func rt(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent(name)}
}

func call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: rt(name), Args: args}
}

func (in *inst) site(n ast.Node) ast.Stmt {
	pos := fset.Position(n.Pos())
	f := pos.Filename
	if i := strings.LastIndex(f, in.p.dir); i >= 0 {
		f = strings.TrimPrefix(in.p.path, modPath+"/") + f[i+len(in.p.dir):]
	}
	id := len(sites)
	sites = append(sites, fmt.Sprintf("%s:%d", f, pos.Line))
	return &ast.ExprStmt{X: call("P", &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(id)})}
}

func (in *inst) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = in.list(b.List)
}

func (in *inst) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		out = append(out, in.site(s), in.stmt(s))
	}
	return out
}

func (in *inst) full() bool { return in.mode == "full" }

func (in *inst) typeOf(e ast.Expr) types.Type {
	if tv, ok := in.p.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := in.p.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := in.p.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// pure tells whether evaluating e twice is the same as evaluating it once.
func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.CompositeLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// shared tells whether the location may be reachable from other threads.
func (in *inst) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return in.shared(e.X)
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		t := in.typeOf(e.X)
		if t == nil || isMap(t) {
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			return true
		case *types.Array:
			_ = u
			return in.shared(e.X)
		}
		return false
	case *ast.SelectorExpr:
		if sel, ok := in.p.info.Selections[e]; ok {
			if sel.Indirect() {
				return true
			}
			if t := in.typeOf(e.X); t != nil {
				if _, ok := t.Underlying().(*types.Pointer); ok {
					return true
				}
			}
			return in.shared(e.X)
		}
		return true // package-qualified variable
	case *ast.Ident:
		if o, ok := in.p.info.Uses[e].(*types.Var); ok && o.Parent() == in.p.types.Scope() {
			return true
		}
	}
	return false
}

// hasMapBase tells whether the location lies behind a map element, which is
// not addressable.
func (in *inst) addressable(e ast.Expr) bool {
	tv, ok := in.p.info.Types[e]
	return ok && tv.Addressable()
}

func (in *inst) stmts(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	return in.stmt(s)
}

func (in *inst) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = in.expr(l[i])
	}
}

func (in *inst) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.BlockStmt:
		in.block(s)
	case *ast.LabeledStmt:
		_, isRange := s.Stmt.(*ast.RangeStmt)
		s.Stmt = in.stmt(s.Stmt)
		if b, ok := s.Stmt.(*ast.BlockStmt); ok && isRange {
			// the label belongs to the loop
			s.Stmt = b.List[len(b.List)-1]
			b.List[len(b.List)-1] = s
			return b
		}
	case *ast.IfStmt:
		s.Init = in.simple(s.Init)
		s.Cond = in.expr(s.Cond)
		in.block(s.Body)
		s.Else = in.stmts(s.Else)
	case *ast.ForStmt:
		s.Init = in.simple(s.Init)
		if s.Cond != nil {
			s.Cond = in.expr(s.Cond)
		}
		s.Post = in.simple(s.Post)
		in.loop(s.Body)
	case *ast.RangeStmt:
		return in.rng(s)
	case *ast.SwitchStmt:
		s.Init = in.simple(s.Init)
		if s.Tag != nil {
			s.Tag = in.expr(s.Tag)
		}
		in.clauses(s.Body)
	case *ast.TypeSwitchStmt:
		s.Init = in.simple(s.Init)
		s.Assign = in.simple(s.Assign)
		in.clauses(s.Body)
	case *ast.SelectStmt:
		if in.full() {
			return in.selectStmt(s)
		}
		for _, c := range s.Body.List {
			c := c.(*ast.CommClause)
			c.Body = in.list(c.Body)
		}
	case *ast.GoStmt:
		if in.full() {
			return in.goStmt(s)
		}
		in.exprs(s.Call.Args)
		s.Call.Fun = in.expr(s.Call.Fun)
	case *ast.DeferStmt:
		in.exprs(s.Call.Args)
		if _, ok := s.Call.Fun.(*ast.FuncLit); ok {
			s.Call.Fun = in.expr(s.Call.Fun)
		} else if in.full() {
			if r := in.call(s.Call); r != nil {
				if c, ok := r.(*ast.CallExpr); ok {
					s.Call = c
				}
			}
		}
	case *ast.AssignStmt:
		return in.assign(s, true)
	case *ast.IncDecStmt:
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		if in.full() && in.shared(s.X) && in.addressable(s.X) && pure(s.X) {
			return &ast.ExprStmt{X: call("Set", &ast.UnaryExpr{Op: token.AND, X: s.X},
				&ast.BinaryExpr{X: s.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}})}
		}
		s.X = in.written(s.X)
	case *ast.SendStmt:
		if in.full() {
			return &ast.ExprStmt{X: &ast.CallExpr{Fun: call("Send", in.expr(s.Chan)), Args: []ast.Expr{in.expr(s.Value)}}}
		}
		return in.simple(s)
	default:
		return in.simple(s)
	}
	return s
}

func (in *inst) loop(b *ast.BlockStmt) {
	n := len(b.List)
	at := ast.Node(b)
	in.block(b)
	if n == 0 {
		b.List = []ast.Stmt{in.site(at)}
	}
}

func (in *inst) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		c := c.(*ast.CaseClause)
		in.exprs(c.List)
		c.Body = in.list(c.Body)
	}
}

// simple instruments the expressions of a simple statement, keeping its form.
func (in *inst) simple(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.ExprStmt:
		s.X = in.expr(s.X)
	case *ast.SendStmt:
		s.Chan, s.Value = in.expr(s.Chan), in.expr(s.Value)
	case *ast.IncDecStmt:
		s.X = in.written(s.X)
	case *ast.AssignStmt:
		return in.assign(s, false)
	case *ast.ReturnStmt:
		in.exprs(s.Results)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					if len(v.Names) == 2 && len(v.Values) == 1 {
						in.recv2(v.Values)
					}
					in.exprs(v.Values)
				}
			}
		}
	}
	return s
}

var opOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
	token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

func (in *inst) assign(s *ast.AssignStmt, stmtPos bool) ast.Stmt {
	if in.full() && stmtPos && len(s.Lhs) == 1 && len(s.Rhs) == 1 {
		l, r := s.Lhs[0], s.Rhs[0]
		if op, ok := opOf[s.Tok]; ok && in.shared(l) && in.addressable(l) && pure(l) {
			r = in.expr(r)
			return &ast.ExprStmt{X: call("Set", &ast.UnaryExpr{Op: token.AND, X: l},
				&ast.BinaryExpr{X: l, Op: op, Y: &ast.ParenExpr{X: r}})}
		}
		if s.Tok == token.ASSIGN && in.shared(l) && in.addressable(l) && pure(l) {
			tl, tr := in.typeOf(l), in.p.info.Types[r]
			// a value computed from shared memory: the write comes later than
			// the reads
			if tl != nil && tr.Type != nil && tr.Value == nil && !tr.IsNil() && types.Identical(tl, tr.Type) {
				r = in.expr(r)
				return &ast.ExprStmt{X: call("Set", &ast.UnaryExpr{Op: token.AND, X: l}, r)}
			}
		}
	}
	for i := range s.Lhs {
		if s.Tok == token.DEFINE {
			continue
		}
		s.Lhs[i] = in.written(s.Lhs[i])
	}
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		in.recv2(s.Rhs)
	}
	in.exprs(s.Rhs)
	return s
}

// recv2 rewrites the receive operation of v, ok := <-ch.
func (in *inst) recv2(l []ast.Expr) {
	x := l[0]
	for {
		p, ok := x.(*ast.ParenExpr)
		if !ok {
			break
		}
		x = p.X
	}
	if u, ok := x.(*ast.UnaryExpr); ok && u.Op == token.ARROW && in.full() {
		l[0] = call("Recv2", u.X)
	}
}

// selectStmt rewrites a select statement to a switch over simulated cases.
func (in *inst) selectStmt(s *ast.SelectStmt) ast.Stmt {
	var l, r []ast.Expr
	args := []ast.Expr{ast.NewIdent("false")}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	for i, c := range s.Body.List {
		c := c.(*ast.CommClause)
		cc := &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(i)}}}
		n := ast.NewIdent(fmt.Sprintf("simcase%d", i))
		var head []ast.Stmt
		switch m := c.Comm.(type) {
		case nil:
			args[0] = ast.NewIdent("true")
			cc.List = nil
			n = nil
		case *ast.SendStmt:
			r = append(r, &ast.CallExpr{Fun: call("SendCase", in.expr(m.Chan)), Args: []ast.Expr{in.expr(m.Value)}})
		case *ast.ExprStmt:
			r = append(r, call("RecvCase", in.arrow(m.X)))
		case *ast.AssignStmt:
			r = append(r, call("RecvCase", in.arrow(m.Rhs[0])))
			rs := []ast.Expr{&ast.SelectorExpr{X: n, Sel: ast.NewIdent("V")}, &ast.SelectorExpr{X: n, Sel: ast.NewIdent("OK")}}
			head = []ast.Stmt{&ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: rs[:len(m.Lhs)]}}
		}
		if n != nil {
			l = append(l, n)
			args = append(args, n)
		} else {
			args = append(args, ast.NewIdent("nil"))
		}
		cc.Body = append(head, &ast.BlockStmt{List: in.list(c.Body)})
		sw.Body.List = append(sw.Body.List, cc)
	}
	if len(l) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: r}
	}
	sw.Tag = call("Select", args...)
	if args[0].(*ast.Ident).Name == "false" {
		// a terminating statement stays one
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"simrt: no case"`}}}}}})
	}
	return sw
}

// arrow returns the instrumented channel of a receive operation.
func (in *inst) arrow(x ast.Expr) ast.Expr {
	switch e := x.(type) {
	case *ast.ParenExpr:
		return in.arrow(e.X)
	case *ast.UnaryExpr:
		return in.expr(e.X)
	}
	panic("not a receive operation")
}

// base instruments what a location is found through: its value is read when
// it is a pointer, a slice or the like, and not when it holds the location.
func (in *inst) base(e ast.Expr) ast.Expr {
	if t := in.typeOf(e); t != nil {
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			return in.lhs(e)
		}
	}
	if t := in.typeOf(e); t != nil && isNamedOther(t) {
		return in.lhs(e) // a method may take its address
	}
	return in.expr(e)
}

// copiesReceiver tells whether a method is called on a copy of what is before
// the dot.
func (in *inst) copiesReceiver(e *ast.SelectorExpr, sel *types.Selection) bool {
	if sel.Kind() != types.MethodVal || len(sel.Index()) != 1 {
		return false
	}
	f, ok := sel.Obj().(*types.Func)
	if !ok {
		return false
	}
	r := f.Type().(*types.Signature).Recv()
	if r == nil {
		return false
	}
	if _, ok := r.Type().(*types.Named); !ok {
		return false
	}
	t := in.typeOf(e.X)
	return t != nil && types.Identical(t, r.Type()) && !types.IsInterface(t)
}

func isNamedOther(t types.Type) bool {
	if _, ok := t.(*types.Named); !ok {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Slice, *types.Interface, *types.Map, *types.Signature, *types.Chan:
		return false
	}
	return true
}

// tracked tells how accesses to the location are shown to the race detector:
// with the returned suffix of the hook, if at all.
func (in *inst) tracked(e ast.Expr) (string, bool) {
	if !in.full() || !races {
		return "", false
	}
	tv, ok := in.p.info.Types[e]
	if id, isID := e.(*ast.Ident); isID && !ok {
		// uses of variables are recorded elsewhere for identifiers
		if v, isVar := in.p.info.Uses[id].(*types.Var); isVar && v.Parent() == in.p.types.Scope() {
			return suffix(v.Type())
		}
		return "", false
	}
	if ok && tv.IsValue() && tv.Addressable() && in.shared(e) {
		return suffix(tv.Type)
	}
	return "", false
}

func suffix(t types.Type) (string, bool) {
	if _, ok := t.(*types.TypeParam); ok {
		return "", false
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return "All", true
	case *types.Tuple:
		return "", false
	}
	return "", true
}

func (in *inst) track(hook string, e ast.Expr) ast.Expr {
	r := &ast.ParenExpr{X: &ast.StarExpr{X: call(hook, &ast.UnaryExpr{Op: token.AND, X: e})}}
	if tv, ok := in.p.info.Types[e]; ok {
		in.p.info.Types[r] = tv
	}
	return r
}

// written instruments a location that a statement assigns to.
func (in *inst) written(e ast.Expr) ast.Expr {
	h, w := in.tracked(e)
	e = in.lhs(e)
	if w {
		return in.track("Wr"+h, e)
	}
	return e
}

// lhs instruments an assigned location.
func (in *inst) lhs(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.IndexExpr:
		if in.full() && isMap(in.typeOf(e.X)) {
			e.X = call("W", in.expr(e.X))
			e.Index = in.expr(e.Index)
			return e
		}
		e.X, e.Index = in.base(e.X), in.expr(e.Index)
	case *ast.SelectorExpr:
		if _, ok := in.p.info.Selections[e]; ok {
			e.X = in.base(e.X)
		}
	case *ast.StarExpr:
		e.X = in.expr(e.X)
	case *ast.ParenExpr:
		e.X = in.lhs(e.X)
	case *ast.Ident:
	default:
		return in.expr(e)
	}
	return e
}

func (in *inst) rng(s *ast.RangeStmt) ast.Stmt {
	isM := isMap(in.typeOf(s.X))
	if isBlank(s.Value) {
		s.X = in.base(s.X) // an array is not copied
	} else {
		if r := in.rngSlice(s); r != nil {
			return r
		}
		s.X = in.expr(s.X)
	}
	if t := in.typeOf(s.X); t != nil && in.full() {
		if _, ok := t.Underlying().(*types.Chan); ok {
			in.loop(s.Body)
			body := &ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("simv"), ast.NewIdent("simok")}, Tok: token.DEFINE, Rhs: []ast.Expr{call("Recv2", ast.NewIdent("simch"))}},
				&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent("simok")}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
				&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent("simv")}},
			}}
			if s.Key != nil {
				body.List = append(body.List, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{ast.NewIdent("simv")}})
			}
			body.List = append(body.List, &ast.BlockStmt{List: s.Body.List})
			return &ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("simch")}, Tok: token.DEFINE, Rhs: []ast.Expr{s.X}}, Body: body}
		}
	}
	if !isM || !in.full() {
		in.loop(s.Body)
		return s
	}
	in.loop(s.Body)
	kv := ast.NewIdent("simkv")
	head := []ast.Stmt{&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: kv, Sel: ast.NewIdent("Live")}}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}}}
	use := func(e ast.Expr) bool {
		if e == nil {
			return false
		}
		id, ok := e.(*ast.Ident)
		return !ok || id.Name != "_"
	}
	var l, r []ast.Expr
	if use(s.Key) {
		l, r = append(l, s.Key), append(r, &ast.SelectorExpr{X: kv, Sel: ast.NewIdent("K")})
	}
	if use(s.Value) {
		l, r = append(l, s.Value), append(r, &ast.CallExpr{Fun: &ast.SelectorExpr{X: kv, Sel: ast.NewIdent("Val")}})
	}
	if len(l) > 0 {
		head = append(head, &ast.AssignStmt{Lhs: l, Tok: s.Tok, Rhs: r})
	}
	body := &ast.BlockStmt{List: append(head, &ast.BlockStmt{List: s.Body.List})}
	return &ast.RangeStmt{Key: ast.NewIdent("_"), Value: kv, Tok: token.DEFINE, X: call("Pairs", s.X), Body: body}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

// rngSlice shows the elements that a loop over a slice visits to the race
// detector.
func (in *inst) rngSlice(s *ast.RangeStmt) ast.Stmt {
	if !in.full() || !races {
		return nil
	}
	t := in.typeOf(s.X)
	if t == nil {
		return nil
	}
	if _, ok := t.(*types.TypeParam); ok {
		return nil
	}
	if _, ok := t.Underlying().(*types.Slice); !ok {
		return nil
	}
	x, i := ast.NewIdent("simx"), ast.NewIdent("simi")
	var key ast.Expr = i
	head := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{x}, Tok: token.DEFINE, Rhs: []ast.Expr{in.expr(s.X)}}}
	s.X = x
	if !isBlank(s.Key) {
		if key = s.Key; !simple(key) {
			return nil
		}
	} else {
		if s.Tok == token.ASSIGN {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{i}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}})
		}
		s.Key = i
	}
	in.loop(s.Body)
	touch := &ast.ExprStmt{X: call("RdAll", &ast.UnaryExpr{Op: token.AND, X: &ast.IndexExpr{X: x, Index: key}})}
	s.Body.List = []ast.Stmt{touch, &ast.BlockStmt{List: s.Body.List}}
	return &ast.BlockStmt{List: append(head, s)}
}

func (in *inst) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	in.exprs(c.Args)
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		in.block(fl.Body)
		if fl.Type.Results == nil {
			return &ast.ExprStmt{X: call("Go", fl)}
		}
		return &ast.ExprStmt{X: call("Go", thunk(&ast.CallExpr{Fun: fl}))}
	}
	fn := in.expr(c.Fun)
	// evaluate function value and arguments now
	var l, r []ast.Expr
	l, r = append(l, ast.NewIdent("simfn")), append(r, fn)
	var args []ast.Expr
	for i, a := range c.Args {
		n := ast.NewIdent(fmt.Sprintf("simarg%d", i))
		l, r = append(l, n), append(r, a)
		args = append(args, n)
	}
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: r},
		&ast.ExprStmt{X: call("Go", thunk(&ast.CallExpr{Fun: ast.NewIdent("simfn"), Args: args, Ellipsis: c.Ellipsis}))},
	}}
}

func thunk(c *ast.CallExpr) ast.Expr {
	return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}}
}

// expr instruments an expression.
func (in *inst) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.FuncLit:
		in.block(e.Body)
	case *ast.ParenExpr:
		e.X = in.expr(e.X)
	case *ast.UnaryExpr:
		if e.Op == token.AND {
			e.X = in.lhs(e.X)
		} else if e.Op == token.ARROW && in.full() {
			return call("Recv", in.expr(e.X))
		} else {
			e.X = in.expr(e.X)
		}
	case *ast.BinaryExpr:
		e.X, e.Y = in.expr(e.X), in.expr(e.Y)
	case *ast.StarExpr:
		if tv, ok := in.p.info.Types[e]; ok && tv.IsType() {
			return e
		}
		h, w := in.tracked(e)
		e.X = in.expr(e.X)
		if w {
			return in.track("Rd"+h, e)
		}
	case *ast.SelectorExpr:
		switch n := in.pkgFunc(e, "time"); n {
		case "Now", "Since", "Until", "Sleep":
			return rt(n)
		case "AfterFunc", "NewTimer", "After", "NewTicker", "Tick":
			if in.full() {
				return rt(n)
			}
		}
		h, w := in.tracked(e)
		if sel, ok := in.p.info.Selections[e]; ok {
			if in.copiesReceiver(e, sel) {
				e.X = in.expr(e.X)
			} else {
				e.X = in.base(e.X)
			}
		}
		if w {
			return in.track("Rd"+h, e)
		}
	case *ast.Ident:
		if h, w := in.tracked(e); w {
			return in.track("Rd"+h, e)
		}
	case *ast.IndexExpr:
		if tv, ok := in.p.info.Types[e.X]; ok && !tv.IsType() && !isFunc(tv.Type) {
			h, w := in.tracked(e)
			if in.full() && isMap(tv.Type) {
				e.X = call("R", in.expr(e.X))
			} else {
				e.X = in.base(e.X)
			}
			e.Index = in.expr(e.Index)
			if w {
				return in.track("Rd"+h, e)
			}
		}
	case *ast.SliceExpr:
		e.X, e.Low, e.High, e.Max = in.base(e.X), in.expr(e.Low), in.expr(e.High), in.expr(e.Max)
	case *ast.TypeAssertExpr:
		e.X = in.expr(e.X)
	case *ast.CompositeLit:
		for i, x := range e.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				if _, isID := kv.Key.(*ast.Ident); !isID {
					kv.Key = in.expr(kv.Key)
				}
				kv.Value = in.expr(kv.Value)
			} else {
				e.Elts[i] = in.expr(x)
			}
		}
	case *ast.CallExpr:
		seen := in.slicesSeen(e)
		if tv, ok := in.p.info.Types[e]; ok && tv.Value != nil {
			return e // a constant, such as the length of an array
		}
		in.buffers(e)
		if in.lengthOfArray(e) {
			e.Args[0] = in.base(e.Args[0])
			return e
		}
		in.exprs(e.Args)
		for i, h := range seen {
			if h != "" {
				e.Args[i] = call(h, e.Args[i])
			}
		}
		if in.full() {
			if r := in.call(e); r != nil {
				return r
			}
		}
		if id, ok := e.Fun.(*ast.Ident); ok {
			if b, ok := in.p.info.Uses[id].(*types.Builtin); ok {
				if b.Name() == "delete" && in.full() && len(e.Args) == 2 {
					e.Args[0] = call("W", e.Args[0])
				}
				if b.Name() == "close" && in.full() && len(e.Args) == 1 {
					return call("Close", e.Args[0])
				}
				return e
			}
		}
		if tv, ok := in.p.info.Types[e.Fun]; ok && tv.IsType() {
			return e
		}
		e.Fun = in.expr(e.Fun)
	}
	return e
}

// buffers shows the use of a buffer of the standard library to the race
// detector.
func (in *inst) buffers(e *ast.CallExpr) {
	sel, ok := e.Fun.(*ast.SelectorExpr)
	if !ok || !in.full() || !races {
		return
	}
	s, ok := in.p.info.Selections[sel]
	if !ok || s.Kind() != types.MethodVal || len(s.Index()) != 1 {
		return
	}
	t := in.typeOf(sel.X)
	if t == nil {
		return
	}
	p, isPtr := t.(*types.Pointer)
	if isPtr {
		t = p.Elem()
	}
	if n := t.String(); n != "bytes.Buffer" && n != "strings.Builder" {
		return
	}
	hook := "WrAll"
	switch s.Obj().Name() {
	case "Len", "Cap", "String", "Bytes", "Available":
		hook = "RdAll"
	}
	switch {
	case isPtr:
		sel.X = call(hook, in.expr(sel.X))
	case in.addressable(sel.X):
		sel.X = call(hook, &ast.UnaryExpr{Op: token.AND, X: in.base(sel.X)})
	}
}

func (in *inst) lengthOfArray(e *ast.CallExpr) bool {
	id, ok := e.Fun.(*ast.Ident)
	if !ok || len(e.Args) != 1 {
		return false
	}
	b, ok := in.p.info.Uses[id].(*types.Builtin)
	if !ok || b.Name() != "len" && b.Name() != "cap" {
		return false
	}
	t := in.typeOf(e.Args[0])
	if t == nil {
		return false
	}
	_, ok = t.Underlying().(*types.Array)
	return ok
}

// slicesSeen names the hooks for the slices that code outside the module reads
// or writes.
func (in *inst) slicesSeen(e *ast.CallExpr) []string {
	if !in.full() || !races {
		return nil
	}
	read, write, sorts := false, false, false
	switch f := e.Fun.(type) {
	case *ast.Ident:
		if b, ok := in.p.info.Uses[f].(*types.Builtin); ok {
			write = b.Name() == "copy"
			read = write || b.Name() == "append" && e.Ellipsis.IsValid()
		}
	case *ast.SelectorExpr:
		if fn, ok := in.p.info.Uses[f.Sel].(*types.Func); ok && fn.Pkg() != nil && !strings.HasPrefix(fn.Pkg().Path(), modPath) {
			switch p := fn.Pkg().Path(); {
			case p == "sync" || p == "sync/atomic":
			case p == "sort" || p == "slices" && (strings.HasPrefix(fn.Name(), "Sort") || fn.Name() == "Reverse"):
				write, sorts = true, true
			case p == "encoding/binary":
				write = strings.HasPrefix(fn.Name(), "Put")
				read = !write && !strings.HasPrefix(fn.Name(), "Append")
			default:
				read = true
			}
		}
	}
	if tv, ok := in.p.info.Types[e.Fun]; ok && tv.IsType() && len(e.Args) == 1 {
		if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			read = true // string(bytes)
		}
	}
	if !read && !write {
		return nil
	}
	r := make([]string, len(e.Args))
	for i, a := range e.Args {
		tv, ok := in.p.info.Types[a]
		if !ok || tv.Type == nil || tv.IsNil() {
			continue
		}
		if _, ok := tv.Type.Underlying().(*types.Slice); !ok {
			continue
		}
		if _, ok := tv.Type.(*types.TypeParam); ok {
			continue
		}
		if id, ok := e.Fun.(*ast.Ident); ok && id.Name == "append" && i == 0 {
			continue
		}
		if sorts && i == 0 {
			r[i] = "Sorted"
		} else if write && i == 0 {
			r[i] = "WrS"
		} else if read {
			r[i] = "RdS"
		}
	}
	return r
}

func isFunc(t types.Type) bool {
	if t == nil {
		return true
	}
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

// pkgFunc returns the name of the package-level object e refers to, when it
// belongs to the given package.
func (in *inst) pkgFunc(e *ast.SelectorExpr, pkg string) string {
	id, ok := e.X.(*ast.Ident)
	if !ok {
		return ""
	}
	if pn, ok := in.p.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == pkg {
		return e.Sel.Name
	}
	return ""
}

// call rewrites calls of synchronisation primitives; nil when e is none.
func (in *inst) call(e *ast.CallExpr) ast.Expr {
	sel, ok := e.Fun.(*ast.SelectorExpr)
	if !ok {
		return nil
	}
	switch n := in.pkgFunc(sel, "sync"); n {
	case "OnceFunc", "OnceValue", "OnceValues":
		e.Fun = rt(n)
		return e
	}
	if in.pkgFunc(sel, "sync/atomic") != "" {
		if tv, ok := in.p.info.Types[e.Fun]; ok && tv.IsType() {
			return nil
		}
		return in.pre(e)
	}
	fn, ok := in.p.info.Uses[sel.Sel].(*types.Func)
	if !ok || fn.Pkg() == nil {
		return nil
	}
	sig, ok := fn.Type().(*types.Signature)
	if !ok || sig.Recv() == nil {
		return nil
	}
	rt := sig.Recv().Type()
	if p, ok := rt.(*types.Pointer); ok {
		rt = p.Elem()
	}
	named, ok := rt.(*types.Named)
	if !ok {
		return nil
	}
	name := named.Obj().Name()
	switch fn.Pkg().Path() {
	case "sync/atomic":
		return in.pre(e)
	case "time":
		if name == "Timer" || name == "Ticker" {
			return call(name+fn.Name(), append([]ast.Expr{in.ptr(sel.X)}, e.Args...)...)
		}
	case "sync":
		switch name + "." + fn.Name() {
		case "Mutex.Lock", "RWMutex.Lock":
			return in.lock(sel, "TryLock", "Unlock")
		case "RWMutex.RLock":
			return in.lock(sel, "TryRLock", "RUnlock")
		case "Mutex.Unlock", "RWMutex.Unlock", "RWMutex.RUnlock":
			if !simple(sel.X) {
				e.Fun = call("Pre", e.Fun)
				return e
			}
			return call("Unlock", in.ptr(sel.X), e.Fun)
		case "Once.Do":
			return call("OnceDo", append([]ast.Expr{in.ptr(sel.X)}, e.Args...)...)
		case "Pool.Get":
			return call("PoolGet", append([]ast.Expr{in.ptr(sel.X)}, e.Args...)...)
		case "Pool.Put":
			return call("PoolPut", append([]ast.Expr{in.ptr(sel.X)}, e.Args...)...)
		case "WaitGroup.Add":
			return call("WgAdd", append([]ast.Expr{in.ptr(sel.X)}, e.Args...)...)
		case "WaitGroup.Done":
			return call("WgDone", in.ptr(sel.X))
		case "WaitGroup.Wait":
			return call("WgWait", in.ptr(sel.X))
		case "Map.Load", "Map.Store", "Map.LoadOrStore", "Map.Delete", "Map.Swap", "Map.CompareAndSwap", "Map.LoadAndDelete", "Map.Range":
			return in.pre(e)
		}
	}
	return nil
}

// lock rewrites the acquisition of a lock.
func (in *inst) lock(sel *ast.SelectorExpr, try, unlock string) ast.Expr {
	if !simple(sel.X) {
		return call("Spin", ast.NewIdent("nil"), &ast.SelectorExpr{X: sel.X, Sel: ast.NewIdent(try)}, ast.NewIdent("nil"))
	}
	return call("Spin", in.ptr(sel.X), &ast.SelectorExpr{X: sel.X, Sel: ast.NewIdent(try)}, &ast.SelectorExpr{X: sel.X, Sel: ast.NewIdent(unlock)})
}

// simple tells whether an expression may be evaluated twice.
func simple(x ast.Expr) bool {
	switch x := x.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return simple(x.X)
	case *ast.ParenExpr:
		return simple(x.X)
	case *ast.StarExpr:
		return simple(x.X)
	}
	return false
}

// pre puts a scheduling point right before an atomic operation: after the
// evaluation of its arguments when they can read shared memory themselves.
func (in *inst) pre(e *ast.CallExpr) ast.Expr {
	hook, argHook := "Pre", "Arg"
	var at []ast.Expr
	if p := in.atomicOn(e); p != nil {
		hook, argHook, at = "At", "ArgAt", []ast.Expr{p}
		if strings.HasPrefix(e.Fun.(*ast.SelectorExpr).Sel.Name, "Load") {
			hook, argHook = "LdAt", "ArgLdAt"
		}
	}
	if n := len(e.Args); n > 0 && !e.Ellipsis.IsValid() {
		a := e.Args[n-1]
		if tv, ok := in.p.info.Types[a]; ok && tv.Value == nil && !tv.IsNil() && !tv.IsType() && tv.Type != nil {
			f := rt(argHook)
			if b, ok := tv.Type.(*types.Basic); ok {
				if b.Info()&types.IsUntyped != 0 || b.Kind() == types.UnsafePointer {
					f = nil
				} else {
					f = &ast.IndexExpr{X: f, Index: ast.NewIdent(b.Name())}
				}
			}
			if _, ok := tv.Type.(*types.Tuple); ok {
				f = nil
			}
			if f != nil {
				e.Args[n-1] = &ast.CallExpr{Fun: f, Args: append([]ast.Expr{a}, at...)}
				return e
			}
		}
	}
	e.Fun = call(hook, append([]ast.Expr{e.Fun}, at...)...)
	return e
}

// atomicOn is the address an atomic operation works on; nil when it can't be
// told without evaluating something twice.
func (in *inst) atomicOn(e *ast.CallExpr) ast.Expr {
	sel := e.Fun.(*ast.SelectorExpr)
	if in.pkgFunc(sel, "sync/atomic") != "" {
		if len(e.Args) > 0 && repeatable(e.Args[0]) {
			return e.Args[0]
		}
		return nil
	}
	fn := in.p.info.Uses[sel.Sel].(*types.Func)
	if fn.Pkg().Path() != "sync/atomic" || !simple(sel.X) {
		return nil
	}
	if tv, ok := in.p.info.Types[sel.X]; !ok || !tv.Addressable() {
		if t := in.typeOf(sel.X); t == nil {
			return nil
		} else if _, ok := t.Underlying().(*types.Pointer); !ok {
			return nil
		}
	}
	if s, ok := in.p.info.Selections[sel]; !ok || len(s.Index()) != 1 {
		return nil // promoted through an embedded field
	}
	return in.ptr(sel.X)
}

// repeatable tells whether an instrumented expression may be evaluated twice.
func repeatable(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if s, is := n.Fun.(*ast.SelectorExpr); !is || s.Sel.Name != "Rd" && s.Sel.Name != "RdAll" {
				ok = false
			}
		case *ast.FuncLit, *ast.CompositeLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (in *inst) ptr(x ast.Expr) ast.Expr {
	if t := in.typeOf(x); t != nil {
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return x
		}
	}
	return &ast.UnaryExpr{Op: token.AND, X: x}
}
