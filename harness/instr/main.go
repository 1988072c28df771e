// Command instr rewrites the packages named on the command line for
// controlled scheduling and prints overlay entries for the go command.
//
//	instr -out DIR -export FILE repo/pkgdir=importpath ...
//
// FILE has lines "importpath exportfile" (go list -export). Channel
// operations, go statements and selects go through package sched, sync and
// sync/atomic are replaced by stand-ins, and a scheduling point precedes every
// statement that touches a struct field or package variable which is changed
// anywhere after its construction. What the code computes is left alone.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var (
	out    = flag.String("out", "", "output directory")
	export = flag.String("export", "", "export data list")
)

func main() {
	flag.Parse()
	exp := map[string]string{}
	b, err := os.ReadFile(*export)
	if err != nil {
		fatal(err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 {
			exp[f[0]] = f[1]
		}
	}
	var entries []string
	for _, a := range flag.Args() {
		i := strings.Index(a, "=")
		e, err := pkg(a[:i], a[i+1:], exp)
		if err != nil {
			fatal(err)
		}
		entries = append(entries, e...)
	}
	sort.Strings(entries)
	for _, e := range entries {
		fmt.Print(",", e)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(1)
}

var sites int // scheduling points of all packages

type inst struct {
	fset   *token.FileSet
	info   *types.Info
	pkg    *types.Package
	shared map[*types.Var]bool
	n      int
	used   bool
	points int
	stay   map[*ast.CallExpr]bool // calls that have to stay calls of what they call
}

func pkg(dir, path string, exp map[string]string) ([]string, error) {
	fset := token.NewFileSet()
	l, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return nil, err
	}
	var files []*ast.File
	var names []string
	for _, f := range l {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		if ok, err := build.Default.MatchFile(dir, filepath.Base(f)); err != nil || !ok {
			continue
		}
		a, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			return nil, err
		}
		files = append(files, a)
		names = append(names, f)
	}
	imp := importer.ForCompiler(fset, "gc", func(p string) (io.ReadCloser, error) {
		f := exp[p]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", p)
		}
		return os.Open(f)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: imp, Error: func(error) {}}
	tp, err := conf.Check(path, fset, files, info)
	if err != nil {
		return nil, err
	}
	in := &inst{fset: fset, info: info, pkg: tp, shared: map[*types.Var]bool{}, stay: map[*ast.CallExpr]bool{}}
	for _, f := range files {
		in.findShared(f)
	}
	var entries []string
	for i, f := range files {
		in.used = false
		in.file(f)
		var buf bytes.Buffer
		// comments were dropped at parsing
		if err := format.Node(&buf, fset, f); err != nil {
			return nil, err
		}
		o := filepath.Join(*out, strings.ReplaceAll(strings.TrimPrefix(names[i], "/"), "/", "_"))
		if err := os.WriteFile(o, buf.Bytes(), 0644); err != nil {
			return nil, err
		}
		entries = append(entries, fmt.Sprintf("%s:%s", strconv.Quote(names[i]), strconv.Quote(o)))
	}
	fmt.Fprintf(os.Stderr, "instr %s: %d files, %d scheduling points, shared:", path, len(files), in.points)
	var sh []string
	for v := range in.shared {
		sh = append(sh, v.Name())
	}
	sort.Strings(sh)
	fmt.Fprintln(os.Stderr, "", strings.Join(sh, " "))
	return entries, nil
}

// field gives the variable a selector or identifier denotes, if it is a field
// of a struct of this package or a package variable.
func (in *inst) variable(e ast.Expr) *types.Var {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return in.variable(e.X)
	case *ast.SelectorExpr:
		if s := in.info.Selections[e]; s != nil && s.Kind() == types.FieldVal && !in.local(e.X) {
			if v, ok := s.Obj().(*types.Var); ok && v.Pkg() == in.pkg {
				return v
			}
		}
	case *ast.Ident:
		if v, ok := in.info.Uses[e].(*types.Var); ok && v.Parent() == in.pkg.Scope() {
			return v
		}
	}
	return nil
}

// local says whether e is a struct value in a local variable.
func (in *inst) local(e ast.Expr) bool {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
			continue
		case *ast.SelectorExpr:
			if t := in.info.TypeOf(x.X); t != nil {
				if _, ok := t.Underlying().(*types.Struct); ok {
					e = x.X
					continue
				}
			}
		case *ast.Ident:
			v, ok := in.info.ObjectOf(x).(*types.Var)
			if !ok || v.Parent() == in.pkg.Scope() {
				return false
			}
			_, ok = v.Type().Underlying().(*types.Struct)
			return ok
		}
		return false
	}
}

// foreign says whether t is a reference through which others may change
// things that are not fields of this package.
func (in *inst) foreign(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	case *types.Pointer:
		n, ok := u.Elem().(*types.Named)
		return !ok || n.Obj().Pkg() != in.pkg && !quiet(n)
	}
	return false
}

// root strips indexing, slicing and dereferencing.
func root(e ast.Expr) ast.Expr {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		default:
			return e
		}
	}
}

func (in *inst) mark(e ast.Expr) {
	for {
		e = root(e)
		if v := in.variable(e); v != nil && !quiet(v.Type()) {
			in.shared[v] = true
		}
		s, ok := e.(*ast.SelectorExpr)
		if !ok {
			return
		}
		// a.b.c = ... also changes a.b, if that is a struct and not a pointer
		if t := in.info.TypeOf(s.X); t == nil {
			return
		} else if _, ok := t.Underlying().(*types.Struct); !ok {
			return
		}
		e = s.X
	}
}

// quiet types synchronize by themselves.
func quiet(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Chan); ok {
		return true
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "sync/atomic":
			return true
		}
	}
	return false
}

func (in *inst) findShared(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				in.mark(l)
			}
		case *ast.IncDecStmt:
			in.mark(n.X)
		case *ast.RangeStmt:
			if n.Tok == token.ASSIGN {
				if n.Key != nil {
					in.mark(n.Key)
				}
				if n.Value != nil {
					in.mark(n.Value)
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				in.mark(n.X)
			}
		case *ast.SliceExpr:
			// a slice of an array or buffer may be written through
			in.mark(n.X)
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && len(n.Args) > 0 && (id.Name == "delete" || id.Name == "copy" || id.Name == "append" || id.Name == "clear") {
				in.mark(n.Args[0])
			}
			// references handed to others may be changed through
			if id, ok := n.Fun.(*ast.Ident); !ok || id.Name != "len" && id.Name != "cap" {
				for _, a := range n.Args {
					if v := in.variable(unparen(a)); v != nil && in.foreign(v.Type()) {
						in.mark(a)
					}
				}
			}
			// methods with pointer receivers
			if s, ok := n.Fun.(*ast.SelectorExpr); ok {
				if sel := in.info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
					if fn, ok := sel.Obj().(*types.Func); ok {
						if r := fn.Type().(*types.Signature).Recv(); r != nil {
							if _, ok := r.Type().(*types.Pointer); ok {
								if v := in.variable(root(s.X)); v != nil {
									if _, isp := v.Type().Underlying().(*types.Pointer); !isp || in.foreign(v.Type()) {
										in.mark(s.X)
									}
								}
							}
						}
					}
				}
			}
		}
		return true
	})
}

// touches says whether evaluating n itself (not nested function literals or
// blocks) reads or writes a shared variable, or asks for the length of a channel, or
// closes one.
func (in *inst) touches(ns ...ast.Node) bool {
	found := false
	for _, n := range ns {
		if n == nil || found {
			continue
		}
		ast.Inspect(n, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit, *ast.BlockStmt:
				return false
			case *ast.CallExpr:
				if id, ok := n.Fun.(*ast.Ident); ok && len(n.Args) == 1 && (id.Name == "len" || id.Name == "cap" || id.Name == "close") {
					if t := in.info.TypeOf(n.Args[0]); t != nil {
						if _, ok := t.Underlying().(*types.Chan); ok {
							found = true
						}
					}
				}
			case ast.Expr:
				if v := in.variable(n); v != nil && in.shared[v] {
					found = true
				}
			}
			return !found
		})
	}
	return found
}

// atomics says whether evaluating n itself calls a method of a type of
// sync/atomic, or of sync.Map or sync.Pool.
func (in *inst) atomics(ns ...ast.Node) bool {
	found := false
	for _, n := range ns {
		ast.Inspect(n, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit, *ast.BlockStmt:
				return false
			case *ast.CallExpr:
				if f := in.method(n); f != nil && f.Pkg() != nil {
					switch f.Pkg().Path() {
					case "sync/atomic":
						found = true
					case "sync":
						if s := f.FullName(); strings.HasPrefix(s, "(*sync.Map)") || strings.HasPrefix(s, "(*sync.Pool)") {
							found = true
						}
					}
				}
			}
			return !found
		})
	}
	return found
}

// method gives the method a call calls, or nil.
func (in *inst) method(c *ast.CallExpr) *types.Func {
	s, ok := unparen(c.Fun).(*ast.SelectorExpr)
	if !ok {
		return nil
	}
	sel := in.info.Selections[s]
	if sel == nil || sel.Kind() != types.MethodVal {
		return nil
	}
	f, _ := sel.Obj().(*types.Func)
	return f
}

// host says whether c goes to the host's files and how many results it has.
func (in *inst) host(c *ast.CallExpr) (results int, ok bool) {
	var f *types.Func
	if f = in.method(c); f == nil {
		if s, ok := unparen(c.Fun).(*ast.SelectorExpr); ok {
			f, _ = in.info.Uses[s.Sel].(*types.Func)
		}
	}
	if f == nil || f.Pkg() == nil {
		return 0, false
	}
	switch n := f.FullName(); {
	case strings.HasPrefix(n, "(*os.File)."):
	case strings.HasPrefix(n, "os.Is"), strings.HasPrefix(n, "os.New"), n == "os.Getenv", n == "os.Exit":
		return 0, false
	case strings.HasPrefix(n, "os."), strings.HasPrefix(n, "io/ioutil."), strings.HasPrefix(n, "path/filepath.Walk"), n == "path/filepath.EvalSymlinks":
	default:
		return 0, false
	}
	sig := f.Type().(*types.Signature)
	return sig.Results().Len(), sig.TypeParams() == nil
}

func (in *inst) call(name string, args ...ast.Expr) *ast.CallExpr {
	in.used = true
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("sched_"), Sel: ast.NewIdent(name)}, Args: args}
}

func (in *inst) point() ast.Stmt {
	in.points++
	sites++
	return &ast.ExprStmt{X: in.call("Point", &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(sites)})}
}

func (in *inst) file(f *ast.File) {
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				d.Body.List = in.stmts(d.Body.List)
			}
		case *ast.GenDecl:
			if d.Tok == token.VAR {
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					for i := range vs.Values {
						vs.Values[i] = in.expr(vs.Values[i])
					}
				}
			}
		}
	}
	for _, im := range f.Imports {
		switch im.Path.Value {
		case `"sync"`:
			im.Path.Value = `"ninepverif/sched/ssync"`
			if im.Name == nil {
				im.Name = ast.NewIdent("sync")
			}
		case `"sync/atomic"`:
			im.Path.Value = `"ninepverif/sched/satomic"`
			if im.Name == nil {
				im.Name = ast.NewIdent("atomic")
			}
		}
	}
	if in.used {
		d := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("sched_"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"ninepverif/sched"`}}}}
		f.Decls = append([]ast.Decl{d}, f.Decls...)
	}
}

func (in *inst) stmts(l []ast.Stmt) []ast.Stmt {
	var r []ast.Stmt
	for _, s := range l {
		r = append(r, in.stmt(s)...)
	}
	return r
}

func (in *inst) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = in.stmts(b.List)
	}
}

func (in *inst) one(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	l := in.stmt(s)
	if len(l) == 1 {
		return l[0]
	}
	return &ast.BlockStmt{List: l}
}

func (in *inst) tmp() *ast.Ident {
	in.n++
	return ast.NewIdent(fmt.Sprintf("sched_%d", in.n))
}

// stmt rewrites a statement into a list of statements.
func (in *inst) stmt(s ast.Stmt) []ast.Stmt {
	var pre []ast.Stmt
	gate := func(ns ...ast.Node) {
		var l []ast.Node
		for _, n := range ns {
			// nil interfaces with types
			switch x := n.(type) {
			case nil:
				continue
			case ast.Stmt:
				if x == nil {
					continue
				}
			}
			l = append(l, n)
		}
		if in.atomics(l...) {
			in.points++
			pre = append(pre, &ast.ExprStmt{X: in.call("Sync")})
		} else if in.touches(l...) {
			pre = append(pre, in.point())
		}
	}
	nn := func(e ast.Expr) ast.Node {
		if e == nil {
			return nil
		}
		return e
	}
	ns := func(s ast.Stmt) ast.Node {
		if s == nil {
			return nil
		}
		return s
	}
	switch s := s.(type) {
	case *ast.GoStmt:
		return []ast.Stmt{in.goStmt(s)}
	case *ast.SendStmt:
		gate(s)
		c := &ast.CallExpr{Fun: in.call("Send", in.expr(s.Chan)), Args: []ast.Expr{in.expr(s.Value)}}
		return append(pre, &ast.ExprStmt{X: c})
	case *ast.ExprStmt:
		gate(s)
		s.X = in.expr(s.X)
	case *ast.IncDecStmt:
		gate(s)
		if in.touches(s.X) && simple(s.X) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			t := in.tmp()
			return append(pre, &ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{s.X}},
				in.point(),
				&ast.AssignStmt{Lhs: []ast.Expr{s.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: t, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}},
			}})
		}
		s.X = in.expr(s.X)
	case *ast.AssignStmt:
		gate(s)
		if ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND,
			token.XOR_ASSIGN: token.XOR, token.MUL_ASSIGN: token.MUL}; ops[s.Tok] != 0 && len(s.Lhs) == 1 && in.touches(s.Lhs[0]) && simple(s.Lhs[0]) {
			t := in.tmp()
			return append(pre, &ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{s.Lhs[0]}},
				in.point(),
				&ast.AssignStmt{Lhs: []ast.Expr{s.Lhs[0]}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: t, Op: ops[s.Tok], Y: &ast.ParenExpr{X: in.expr(s.Rhs[0])}}}},
			}})
		}
		if s.Tok == token.ASSIGN && len(s.Lhs) == 1 && len(s.Rhs) == 1 && in.touches(s.Lhs[0]) && simple(s.Lhs[0]) && in.touches(s.Rhs[0]) {
			if tv, ok := in.info.Types[s.Rhs[0]]; ok && tv.Value == nil && !tv.IsNil() && types.Identical(tv.Type, in.info.TypeOf(s.Lhs[0])) {
				t := in.tmp()
				return append(pre, &ast.BlockStmt{List: []ast.Stmt{
					&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{in.expr(s.Rhs[0])}},
					in.point(),
					&ast.AssignStmt{Lhs: s.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{t}},
				}})
			}
		}
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				s.Rhs[0] = in.call("Recv2", in.expr(u.X))
				for i := range s.Lhs {
					s.Lhs[i] = in.expr(s.Lhs[i])
				}
				break
			}
		}
		for i := range s.Lhs {
			s.Lhs[i] = in.expr(s.Lhs[i])
		}
		for i := range s.Rhs {
			s.Rhs[i] = in.expr(s.Rhs[i])
		}
	case *ast.DeclStmt:
		gate(s)
		if d, ok := s.Decl.(*ast.GenDecl); ok && d.Tok == token.VAR {
			for _, sp := range d.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Names) == 2 && len(vs.Values) == 1 {
					if u, ok := unparen(vs.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
						vs.Values[0] = in.call("Recv2", in.expr(u.X))
						continue
					}
				}
				for i := range vs.Values {
					vs.Values[i] = in.expr(vs.Values[i])
				}
			}
		}
	case *ast.DeferStmt:
		// the arguments are evaluated now, the call comes later
		in.stay[s.Call] = true
		s.Call = in.expr(s.Call).(*ast.CallExpr)
	case *ast.ReturnStmt:
		gate(s)
		for i := range s.Results {
			s.Results[i] = in.expr(s.Results[i])
		}
	case *ast.BlockStmt:
		in.block(s)
	case *ast.IfStmt:
		gate(ns(s.Init), nn(s.Cond))
		s.Init = in.simpleStmt(s.Init)
		s.Cond = in.expr(s.Cond)
		in.block(s.Body)
		if s.Else != nil {
			s.Else = in.one(s.Else)
			switch s.Else.(type) {
			case *ast.BlockStmt, *ast.IfStmt:
			default:
				s.Else = &ast.BlockStmt{List: []ast.Stmt{s.Else}}
			}
		}
	case *ast.ForStmt:
		gate(ns(s.Init), nn(s.Cond))
		again := in.touches(nonNil(nn(s.Cond), ns(s.Post))...)
		atomics := in.atomics(nonNil(nn(s.Cond), ns(s.Post))...)
		s.Init = in.simpleStmt(s.Init)
		if s.Cond != nil {
			s.Cond = in.expr(s.Cond)
		}
		s.Post = in.simpleStmt(s.Post)
		in.block(s.Body)
		if atomics {
			in.points++
			s.Body.List = append([]ast.Stmt{&ast.ExprStmt{X: in.call("Sync")}}, s.Body.List...)
		} else if again {
			s.Body.List = append([]ast.Stmt{in.point()}, s.Body.List...)
		}
	case *ast.RangeStmt:
		t := in.info.TypeOf(s.X)
		if t != nil {
			if _, ok := t.Underlying().(*types.Chan); ok {
				return append(pre, in.rangeChan(s))
			}
		}
		gate(nn(s.X))
		s.X = in.expr(s.X)
		in.block(s.Body)
	case *ast.SwitchStmt:
		gate(ns(s.Init), nn(s.Tag))
		s.Init = in.simpleStmt(s.Init)
		if s.Tag != nil {
			s.Tag = in.expr(s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for i := range cc.List {
				cc.List[i] = in.expr(cc.List[i])
			}
			cc.Body = in.stmts(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		gate(ns(s.Init), ns(s.Assign))
		s.Init = in.simpleStmt(s.Init)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = in.stmts(cc.Body)
		}
	case *ast.SelectStmt:
		pre = append(pre, in.point())
		def := false
		for _, c := range s.Body.List {
			cc := c.(*ast.CommClause)
			if cc.Comm == nil {
				def = true
			}
			cc.Body = in.stmts(cc.Body)
			cc.Body = append([]ast.Stmt{in.point()}, cc.Body...)
		}
		if !def {
			s.Body.List = append(s.Body.List, &ast.CommClause{
				Comm: &ast.ExprStmt{X: &ast.UnaryExpr{Op: token.ARROW, X: in.call("Done")}},
				Body: []ast.Stmt{&ast.ExprStmt{X: in.call("Exit")}, &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"over"`}}}}},
			})
		}
	case *ast.LabeledStmt:
		l := in.stmt(s.Stmt)
		s.Stmt = l[len(l)-1]
		return append(l[:len(l)-1], s)
	}
	return append(pre, s)
}

func nonNil(l ...ast.Node) []ast.Node {
	var r []ast.Node
	for _, n := range l {
		if n != nil {
			r = append(r, n)
		}
	}
	return r
}

// simpleStmt rewrites a statement that has to stay one statement.
func (in *inst) simpleStmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				s.Rhs[0] = in.call("Recv2", in.expr(u.X))
				return s
			}
		}
		for i := range s.Rhs {
			s.Rhs[i] = in.expr(s.Rhs[i])
		}
	case *ast.ExprStmt:
		s.X = in.expr(s.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: in.call("Send", in.expr(s.Chan)), Args: []ast.Expr{in.expr(s.Value)}}}
	}
	return s
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// simple expressions can be evaluated twice.
func simple(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (in *inst) rangeChan(s *ast.RangeStmt) ast.Stmt {
	ch, okv := in.tmp(), in.tmp()
	x := in.expr(s.X)
	in.block(s.Body)
	var v ast.Expr = ast.NewIdent("_")
	var recv []ast.Stmt
	brk := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: okv}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
	switch {
	case s.Key == nil:
		recv = []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{v, okv}, Tok: token.DEFINE, Rhs: []ast.Expr{in.call("Recv2", ch)}}, brk}
	case s.Tok == token.DEFINE:
		recv = []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{s.Key, okv}, Tok: token.DEFINE, Rhs: []ast.Expr{in.call("Recv2", ch)}}, brk}
	default:
		t := in.tmp()
		recv = []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{t, okv}, Tok: token.DEFINE, Rhs: []ast.Expr{in.call("Recv2", ch)}}, brk,
			&ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}}}
	}
	// for ch := x; ; { v, ok := recv(ch); if !ok { break }; body }: one statement, so
	// labels, break and continue keep their meaning
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{x}},
		Body: &ast.BlockStmt{List: append(recv, s.Body.List...)},
	}
}

func (in *inst) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	var pre []ast.Stmt
	var args []ast.Expr
	for _, a := range c.Args {
		tv := in.info.Types[a]
		a = in.expr(a)
		if tv.Value != nil || tv.IsNil() {
			args = append(args, a)
			continue
		}
		t := in.tmp()
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		args = append(args, t)
	}
	fun := in.expr(c.Fun)
	if _, ok := unparen(c.Fun).(*ast.FuncLit); !ok {
		isFunc := false // a plain function needs no early evaluation
		if id, ok := c.Fun.(*ast.Ident); ok {
			_, isFunc = in.info.Uses[id].(*types.Func)
			if _, ok := in.info.Uses[id].(*types.Builtin); ok {
				isFunc = true
			}
		}
		if !isFunc {
			t := in.tmp()
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{fun}})
			fun = t
		}
	}
	if len(args) == 0 && len(pre) == 0 {
		if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
			return &ast.ExprStmt{X: in.call("Go", fl)}
		}
	}
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{
		&ast.ExprStmt{X: &ast.CallExpr{Fun: fun, Args: args, Ellipsis: c.Ellipsis}}}}}
	return &ast.BlockStmt{List: append(pre, &ast.ExprStmt{X: in.call("Go", body)})}
}

// expr rewrites receives and the bodies of function literals.
func (in *inst) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return in.call("Recv", in.expr(e.X))
		}
		e.X = in.expr(e.X)
	case *ast.BinaryExpr:
		e.X, e.Y = in.expr(e.X), in.expr(e.Y)
	case *ast.ParenExpr:
		e.X = in.expr(e.X)
	case *ast.CallExpr:
		n, host := in.host(e)
		e.Fun = in.expr(e.Fun)
		for i := range e.Args {
			e.Args[i] = in.expr(e.Args[i])
		}
		if host && n >= 1 && n <= 3 && !in.stay[e] {
			in.points++
			return in.call(fmt.Sprint("After", n), e)
		}
	case *ast.SelectorExpr:
		e.X = in.expr(e.X)
	case *ast.IndexExpr:
		e.X, e.Index = in.expr(e.X), in.expr(e.Index)
	case *ast.SliceExpr:
		e.X = in.expr(e.X)
		if e.Low != nil {
			e.Low = in.expr(e.Low)
		}
		if e.High != nil {
			e.High = in.expr(e.High)
		}
		if e.Max != nil {
			e.Max = in.expr(e.Max)
		}
	case *ast.StarExpr:
		e.X = in.expr(e.X)
	case *ast.TypeAssertExpr:
		e.X = in.expr(e.X)
	case *ast.KeyValueExpr:
		e.Value = in.expr(e.Value)
	case *ast.CompositeLit:
		for i := range e.Elts {
			e.Elts[i] = in.expr(e.Elts[i])
		}
	case *ast.FuncLit:
		in.block(e.Body)
	}
	return e
}
