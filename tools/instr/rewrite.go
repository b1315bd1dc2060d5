package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type rw struct {
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	mod     string
	file    string
	full    bool
	mutable map[types.Object]bool
	capt    map[types.Object]bool // locals captured by a closure and modified
	need    map[string]bool
	tmp     int
}

// ---------------------------------------------------------------- package selectors

var repl = map[string]struct {
	pkg   string
	names map[string]bool // nil: every name
}{
	"sync":        {"vsync", set("Mutex RWMutex Once WaitGroup Cond NewCond Map Pool Locker OnceFunc OnceValue OnceValues")},
	"sync/atomic": {"vatomic", nil},
	"time":        {"vtime", set("Now Since Until After Sleep NewTimer NewTicker Tick AfterFunc Timer Ticker")},
	"context":     {"vctx", set("WithCancel WithTimeout WithDeadline WithCancelCause WithoutCancel Cause AfterFunc WithTimeoutCause WithDeadlineCause")},
	"crypto/rand": {"vrand", set("Read Reader Int Text")},
	"net":         {"vnet", set("Dial Listen DialTimeout Dialer ListenConfig")},
}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, f := range strings.Fields(s) {
		m[f] = true
	}
	return m
}

func (r *rw) rewriteFile(f *ast.File) {
	r.need = map[string]bool{}
	r.capt = map[types.Object]bool{}
	total := map[*types.PkgName]int{}
	renamed := map[*types.PkgName]int{}
	ast.Inspect(f, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				total[pn]++
			}
		}
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := s.X.(*ast.Ident)
		if !ok {
			return true
		}
		pn, ok := r.info.Uses[id].(*types.PkgName)
		if !ok {
			return true
		}
		if rp, ok := repl[pn.Imported().Path()]; ok && (rp.names == nil || rp.names[s.Sel.Name]) {
			renamed[pn]++
			id.Name = "zz" + rp.pkg
			r.need[rp.pkg] = true
		}
		return true
	})
	r.findCaptured(f)
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Body != nil {
				x.Body = r.block(x.Body)
			}
		case *ast.GenDecl:
			for _, s := range x.Specs {
				if vs, ok := s.(*ast.ValueSpec); ok {
					for i, v := range vs.Values {
						vs.Values[i] = r.funcLitsOnly(v)
					}
				}
			}
		}
	}
	// imports
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		var specs []ast.Spec
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			var pn *types.PkgName
			if is.Name != nil {
				pn, _ = r.info.Defs[is.Name].(*types.PkgName)
			} else {
				pn, _ = r.info.Implicits[is].(*types.PkgName)
			}
			if pn != nil && total[pn] > 0 && total[pn] == renamed[pn] {
				continue
			}
			specs = append(specs, s)
		}
		g.Specs = specs
	}
	var ds []ast.Decl
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT && len(g.Specs) == 0 {
			continue
		}
		ds = append(ds, d)
	}
	f.Decls = ds
	r.addImports(f)
}

func (r *rw) addImports(f *ast.File) {
	var names []string
	for n := range r.need {
		names = append(names, n)
	}
	sort.Strings(names)
	have := map[string]bool{}
	for _, s := range f.Decls {
		if g, ok := s.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			for _, sp := range g.Specs {
				if is := sp.(*ast.ImportSpec); is.Name != nil {
					have[is.Name.Name] = true
				}
			}
		}
	}
	var ds []ast.Decl
	for _, n := range names {
		if have["zz"+n] {
			continue
		}
		ds = append(ds, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
			Name: ast.NewIdent("zz" + n),
			Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(r.mod + "/zzverif/" + n)}}}})
	}
	f.Decls = append(ds, f.Decls...)
}

// registerGlobals makes every execution start from the initial values of the package's
// mutable variables.
func (r *rw) registerGlobals(f *ast.File, pkg *types.Package, mutable map[types.Object]bool) {
	var names []string
	for o := range mutable {
		if o.Pkg() == pkg {
			names = append(names, o.Name())
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		return
	}
	r.need["vrt"] = true
	var st []ast.Stmt
	for _, n := range names {
		st = append(st, &ast.ExprStmt{X: call("RegisterGlobal", &ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(n)})})
	}
	f.Decls = append(f.Decls, &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: st}})
	r.addImports(f)
}

func (r *rw) findCaptured(f *ast.File) {
	modified := map[types.Object]bool{}
	mark := func(e ast.Expr) {
		if o := rootObj(e, r.info); o != nil {
			modified[o] = true
		}
	}
	captured := map[types.Object]bool{}
	var lits []*ast.FuncLit
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			lits = append(lits, x)
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if id, ok := l.(*ast.Ident); ok && x.Tok == token.DEFINE && r.info.Defs[id] != nil {
					continue
				}
				mark(l)
			}
		case *ast.IncDecStmt:
			mark(x.X)
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				if id, ok := x.X.(*ast.Ident); ok {
					mark(id)
					// an escaping loop variable is shared as if captured
					if o := r.info.ObjectOf(id); o != nil {
						captured[o] = true
					}
				}
			}
		case *ast.RangeStmt:
			for _, e := range []ast.Expr{x.Key, x.Value} {
				if e != nil {
					mark(e)
				}
			}
		}
		return true
	})
	for _, l := range lits {
		ast.Inspect(l.Body, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if v, ok := r.info.Uses[id].(*types.Var); ok && !v.IsField() && !isPkgVar(v) && (v.Pos() < l.Pos() || v.Pos() > l.End()) {
					captured[v] = true
				}
			}
			return true
		})
	}
	for o := range captured {
		if modified[o] && !isPkgVar(o) {
			r.capt[o] = true
		}
	}
}

// ---------------------------------------------------------------- helpers

func call(fn string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("zzvrt"), Sel: ast.NewIdent(fn)}, Args: args}
}

func (r *rw) rt(fn string, args ...ast.Expr) *ast.CallExpr {
	r.need["vrt"] = true
	return call(fn, args...)
}

func lit(s string) ast.Expr { return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)} }
func num(i int) ast.Expr    { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)} }

func (r *rw) site(n ast.Node) ast.Expr {
	p := r.fset.Position(n.Pos())
	return lit(fmt.Sprintf("%s:%d", r.file, p.Line))
}

func (r *rw) id(prefix string) *ast.Ident {
	r.tmp++
	return ast.NewIdent(fmt.Sprintf("zz%s%d", prefix, r.tmp))
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if t, ok := r.info.Types[e]; ok {
		return t.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isChan(t types.Type) bool { _, ok := under(t).(*types.Chan); return ok }
func isMap(t types.Type) bool  { _, ok := under(t).(*types.Map); return ok }
func isPtr(t types.Type) bool  { _, ok := under(t).(*types.Pointer); return ok }

func define(lhs []ast.Expr, rhs ...ast.Expr) *ast.AssignStmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

// lockType: values whose own methods synchronise (never hooked as plain memory).
func syncType(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		p := n.Obj().Pkg().Path()
		return p == "sync" || p == "sync/atomic"
	}
	return false
}

// unsyncExternal: external structs that change under pointer methods.
func unsyncExternal(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "bytes.Buffer", "bytes.Reader", "strings.Builder", "bufio.Reader", "bufio.Writer", "container/list.List":
			return true
		}
	}
	return false
}

// shared says whether a location may be visible to several goroutines.
func (r *rw) shared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.shared(x.X)
	case *ast.Ident:
		o := r.info.ObjectOf(x)
		if o == nil {
			return false
		}
		if _, ok := o.(*types.Var); !ok {
			return false
		}
		if isPkgVar(o) {
			return r.mutable[o]
		}
		return r.capt[o]
	case *ast.SelectorExpr:
		sel := r.info.Selections[x]
		if sel == nil {
			o := r.info.Uses[x.Sel]
			return o != nil && isPkgVar(o) && r.mutable[o]
		}
		if sel.Kind() != types.FieldVal {
			return false
		}
		if isPtr(r.typeOf(x.X)) || sel.Indirect() {
			return true
		}
		return r.shared(x.X)
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		switch under(r.typeOf(x.X)).(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			return true
		case *types.Array:
			return r.shared(x.X)
		}
	}
	return false
}

// hookable: a shared location that is worth a memory hook of its own.
func (r *rw) hookable(e ast.Expr) bool {
	if !r.full {
		return false
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.hookable(x.X)
	case *ast.IndexExpr:
		return false
	case *ast.Ident, *ast.SelectorExpr, *ast.StarExpr:
		t := r.typeOf(e)
		if t == nil || syncType(t) {
			return false
		}
		return r.shared(e)
	}
	return false
}

// ---------------------------------------------------------------- expressions

func (r *rw) exprs(l []ast.Expr) []ast.Expr {
	for i := range l {
		l[i] = r.expr(l[i])
	}
	return l
}

func (r *rw) funcLitsOnly(e ast.Expr) ast.Expr {
	ast.Inspect(e, func(n ast.Node) bool {
		if f, ok := n.(*ast.FuncLit); ok {
			f.Body = r.block(f.Body)
			return false
		}
		return true
	})
	return e
}

// expr rewrites e in value context.
func (r *rw) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if tv, ok := r.info.Types[e]; ok && (tv.IsType() || tv.IsBuiltin()) {
		return e
	}
	if tv, ok := r.info.Types[e]; ok && tv.Value != nil {
		return e // constant
	}
	switch x := e.(type) {
	case *ast.Ident:
		if r.hookable(x) {
			return r.load(x, x)
		}
		return x
	case *ast.BasicLit:
		return x
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.FuncLit:
		x.Body = r.block(x.Body)
		return x
	case *ast.CompositeLit:
		_, isStruct := under(r.typeOf(x)).(*types.Struct)
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if !isStruct {
					kv.Key = r.expr(kv.Key)
				}
				kv.Value = r.expr(kv.Value)
			} else {
				x.Elts[i] = r.expr(el)
			}
		}
		return x
	case *ast.SelectorExpr:
		sel := r.info.Selections[x]
		if sel == nil {
			if r.hookable(x) {
				return r.load(x, x)
			}
			return x
		}
		switch sel.Kind() {
		case types.FieldVal:
			h := r.hookable(x)
			loc := r.addr(x)
			if h {
				return r.load(loc, x)
			}
			return loc
		case types.MethodVal:
			return r.method(x, sel)
		}
		return x
	case *ast.StarExpr:
		h := r.hookable(x)
		x.X = r.expr(x.X)
		if h {
			return &ast.ParenExpr{X: &ast.StarExpr{X: r.rt("R", x.X, r.site(x))}}
		}
		return x
	case *ast.IndexExpr:
		t := r.typeOf(x.X)
		if tv, ok := r.info.Types[x.X]; ok && !tv.IsValue() {
			return x
		}
		if _, ok := under(t).(*types.Signature); ok {
			return x
		}
		if isMap(t) {
			x.X = r.mapRead(x.X)
			x.Index = r.expr(x.Index)
			return x
		}
		return r.addr(x)
	case *ast.IndexListExpr:
		return x
	case *ast.SliceExpr:
		if _, ok := under(r.typeOf(x.X)).(*types.Array); ok {
			x.X = r.addr(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		x.Low, x.High, x.Max = r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
		return x
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			if _, ok := x.X.(*ast.CompositeLit); ok {
				x.X = r.expr(x.X)
			} else if p, ok := x.X.(*ast.ParenExpr); ok {
				p.X = r.addr(p.X)
			} else {
				x.X = r.addr(x.X)
			}
			return x
		case token.ARROW:
			return r.rt("Recv", r.expr(x.X))
		}
		x.X = r.expr(x.X)
		return x
	case *ast.BinaryExpr:
		x.X, x.Y = r.expr(x.X), r.expr(x.Y)
		return x
	case *ast.KeyValueExpr:
		x.Value = r.expr(x.Value)
		return x
	case *ast.CallExpr:
		return r.call(x)
	}
	return e
}

func (r *rw) load(loc ast.Expr, at ast.Node) ast.Expr {
	return &ast.ParenExpr{X: &ast.StarExpr{X: r.rt("R", &ast.UnaryExpr{Op: token.AND, X: loc}, r.site(at))}}
}

func (r *rw) mapRead(m ast.Expr) ast.Expr {
	site := r.site(m)
	h := r.full && r.sharedMap(m)
	m = r.expr(m)
	if h {
		return r.rt("MR", m, site)
	}
	return m
}

// sharedMap: maps reached through a plain unshared local are not hooked.
func (r *rw) sharedMap(m ast.Expr) bool {
	switch x := m.(type) {
	case *ast.ParenExpr:
		return r.sharedMap(x.X)
	case *ast.Ident:
		o := r.info.ObjectOf(x)
		return o != nil && (isPkgVar(o) || r.capt[o])
	case *ast.CompositeLit:
		return false
	}
	return true
}

// addr rewrites a location without hooking the location itself.
func (r *rw) addr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		return x
	case *ast.ParenExpr:
		x.X = r.addr(x.X)
		return x
	case *ast.SelectorExpr:
		sel := r.info.Selections[x]
		if sel == nil {
			return x
		}
		if sel.Kind() != types.FieldVal {
			return r.expr(x)
		}
		if isPtr(r.typeOf(x.X)) {
			x.X = r.expr(x.X)
		} else {
			x.X = r.addr(x.X)
		}
		return x
	case *ast.StarExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.IndexExpr:
		t := r.typeOf(x.X)
		if isMap(t) {
			return r.expr(x)
		}
		if _, ok := under(t).(*types.Array); ok {
			x.X = r.addr(x.X)
		} else {
			x.X = r.expr(x.X)
		}
		x.Index = r.expr(x.Index)
		return x
	}
	return r.expr(e)
}

// method rewrites a method value or the callee of a method call.
func (r *rw) method(x *ast.SelectorExpr, sel *types.Selection) ast.Expr {
	t := r.typeOf(x.X)
	if tv, ok := r.info.Types[x.X]; ok && tv.IsType() {
		return x
	}
	sig, _ := sel.Obj().Type().(*types.Signature)
	ptrRecv := false
	if sig != nil && sig.Recv() != nil {
		_, ptrRecv = sig.Recv().Type().(*types.Pointer)
	}
	if isPtr(t) || types.IsInterface(t) {
		ext := r.full && isPtr(t) && unsyncExternal(t) && !plainLocal(x.X)
		site := r.site(x)
		x.X = r.expr(x.X)
		if ext {
			x.X = r.rt("W", x.X, site)
		}
		return x
	}
	if ptrRecv {
		ext := r.full && unsyncExternal(t) && r.shared(x.X)
		site := r.site(x)
		x.X = r.addr(x.X)
		if ext {
			x.X = r.rt("W", &ast.UnaryExpr{Op: token.AND, X: x.X}, site)
		}
		return x
	}
	x.X = r.expr(x.X)
	return x
}

func plainLocal(e ast.Expr) bool { _, ok := e.(*ast.Ident); return ok }

func (r *rw) call(x *ast.CallExpr) ast.Expr {
	fun := x.Fun
	for {
		p, ok := fun.(*ast.ParenExpr)
		if !ok {
			break
		}
		fun = p.X
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			return r.builtin(x, b.Name())
		}
	}
	if tv, ok := r.info.Types[x.Fun]; ok && tv.IsType() {
		x.Args = r.exprs(x.Args)
		return x
	}
	if s, ok := fun.(*ast.SelectorExpr); ok && r.info.Selections[s] == nil {
		if id, ok := s.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "runtime" && s.Sel.Name == "Gosched" {
				// keep the import used
				return &ast.CallExpr{Fun: r.rt("Point1", fun)}
			}
		}
		if o := r.info.Uses[s.Sel]; o != nil {
			if _, isFunc := o.(*types.Func); isFunc {
				x.Args = r.exprs(x.Args)
				return x
			}
		}
	}
	x.Fun = r.expr(x.Fun)
	x.Args = r.exprs(x.Args)
	return x
}

func (r *rw) builtin(x *ast.CallExpr, name string) ast.Expr {
	switch name {
	case "close":
		return r.rt("Close", r.expr(x.Args[0]))
	case "len", "cap":
		if isChan(r.typeOf(x.Args[0])) && name == "len" {
			return r.rt("Len", r.expr(x.Args[0]))
		}
		if isMap(r.typeOf(x.Args[0])) {
			x.Args[0] = r.mapRead(x.Args[0])
			return x
		}
		if _, ok := under(r.typeOf(x.Args[0])).(*types.Array); ok {
			return x
		}
	case "delete":
		m := x.Args[0]
		h := r.full && r.sharedMap(m)
		site := r.site(m)
		m = r.expr(m)
		if h {
			m = r.rt("MW", m, site)
		}
		x.Args[0] = m
		x.Args[1] = r.expr(x.Args[1])
		return x
	case "clear":
		if isMap(r.typeOf(x.Args[0])) && r.full {
			x.Args[0] = r.rt("MW", r.expr(x.Args[0]), r.site(x))
			return x
		}
	case "make", "new":
		for i := 1; i < len(x.Args); i++ {
			x.Args[i] = r.expr(x.Args[i])
		}
		return x
	case "recover", "panic", "print", "println":
	}
	x.Args = r.exprs(x.Args)
	return x
}

// ---------------------------------------------------------------- statements

func (r *rw) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	b.List = r.stmts(b.List)
	return b
}

func (r *rw) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, r.stmt(s, nil))
	}
	return out
}

func (r *rw) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	return r.stmt(s, nil)
}

// isRecv returns the receive expression if e is one.
func isRecv(e ast.Expr) *ast.UnaryExpr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	u, ok := e.(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (r *rw) stmt(s ast.Stmt, label *ast.Ident) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.BlockStmt:
		return r.block(x)
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
		return x
	case *ast.SendStmt:
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.rt("SendTo", r.expr(x.Chan)), Args: []ast.Expr{r.expr(x.Value)}}}
	case *ast.IncDecStmt:
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		return r.opAssign(x.X, op, num(1), x)
	case *ast.AssignStmt:
		return r.assign(x)
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		c := r.call(x.Call)
		if ce, ok := c.(*ast.CallExpr); ok {
			x.Call = ce
		} else {
			x.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}}}
		}
		return x
	case *ast.ReturnStmt:
		x.Results = r.exprs(x.Results)
		return x
	case *ast.IfStmt:
		x.Init = r.simple(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Body = r.block(x.Body)
		if x.Else != nil {
			x.Else = r.stmt(x.Else, nil)
		}
		return x
	case *ast.ForStmt:
		x.Init = r.simple(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Post = r.simple(x.Post)
		x.Body = r.block(x.Body)
		return x
	case *ast.SwitchStmt:
		x.Init = r.simple(x.Init)
		x.Tag = r.expr(x.Tag)
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			cc.List = r.exprs(cc.List)
			cc.Body = r.stmts(cc.Body)
		}
		return x
	case *ast.TypeSwitchStmt:
		x.Init = r.simple(x.Init)
		switch a := x.Assign.(type) {
		case *ast.ExprStmt:
			if ta, ok := a.X.(*ast.TypeAssertExpr); ok {
				ta.X = r.expr(ta.X)
			}
		case *ast.AssignStmt:
			if ta, ok := a.Rhs[0].(*ast.TypeAssertExpr); ok {
				ta.X = r.expr(ta.X)
			}
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = r.stmts(cc.Body)
		}
		return x
	case *ast.LabeledStmt:
		if sel, ok := x.Stmt.(*ast.SelectStmt); ok {
			return r.selectStmt(sel, x.Label)
		}
		_, rng := x.Stmt.(*ast.RangeStmt)
		n := r.stmt(x.Stmt, x.Label)
		if b, ok := n.(*ast.BlockStmt); ok && rng {
			// the label belongs to the loop inside the added block
			last := len(b.List) - 1
			b.List[last] = &ast.LabeledStmt{Label: x.Label, Stmt: b.List[last]}
			return b
		}
		x.Stmt = n
		return x
	case *ast.SelectStmt:
		return r.selectStmt(x, nil)
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Names) == 2 && len(vs.Values) == 1 {
					if u := isRecv(vs.Values[0]); u != nil {
						vs.Values[0] = r.rt("Recv2", r.expr(u.X))
						continue
					}
				}
				vs.Values = r.exprs(vs.Values)
			}
		}
		return x
	}
	return s
}

// pure location: evaluating it twice is harmless.
func pureLoc(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return pureLoc(x.X)
	case *ast.ParenExpr:
		return pureLoc(x.X)
	}
	return false
}

func cloneLoc(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		return x
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: cloneLoc(x.X), Sel: x.Sel}
	case *ast.ParenExpr:
		return cloneLoc(x.X)
	}
	return e
}

func (r *rw) opAssign(lhs ast.Expr, op token.Token, rhs ast.Expr, at ast.Stmt) ast.Stmt {
	site := r.site(lhs)
	if ix, ok := lhs.(*ast.IndexExpr); ok && isMap(r.typeOf(ix.X)) {
		return r.assignOp(r.mapLhs(ix), op, rhs)
	}
	if !r.hookable(lhs) {
		return r.assignOp(r.addr(lhs), op, rhs)
	}
	if pureLoc(lhs) {
		wloc := cloneLoc(lhs)
		rd := r.load(lhs, lhs)
		return &ast.ExprStmt{X: &ast.CallExpr{
			Fun:  r.rt("SetTo", &ast.UnaryExpr{Op: token.AND, X: wloc}, site),
			Args: []ast.Expr{&ast.BinaryExpr{X: rd, Op: op, Y: &ast.ParenExpr{X: rhs}}}}}
	}
	return r.assignOp(r.wloc(lhs), op, rhs)
}

func (r *rw) assignOp(lhs ast.Expr, op token.Token, rhs ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: opAssignTok[op], Rhs: []ast.Expr{rhs}}
}

var opAssignTok = map[token.Token]token.Token{
	token.ADD: token.ADD_ASSIGN, token.SUB: token.SUB_ASSIGN, token.MUL: token.MUL_ASSIGN, token.QUO: token.QUO_ASSIGN,
	token.REM: token.REM_ASSIGN, token.AND: token.AND_ASSIGN, token.OR: token.OR_ASSIGN, token.XOR: token.XOR_ASSIGN,
	token.SHL: token.SHL_ASSIGN, token.SHR: token.SHR_ASSIGN, token.AND_NOT: token.AND_NOT_ASSIGN,
}

// mapLhs rewrites m[k] as an assignment target.
func (r *rw) mapLhs(x *ast.IndexExpr) ast.Expr {
	h := r.full && r.sharedMap(x.X)
	site := r.site(x)
	x.X = r.expr(x.X)
	if h {
		x.X = r.rt("MW", x.X, site)
	}
	x.Index = r.expr(x.Index)
	return x
}

// wloc rewrites a hookable location as an assignment target.
func (r *rw) wloc(e ast.Expr) ast.Expr {
	site := r.site(e)
	if st, ok := e.(*ast.StarExpr); ok {
		return &ast.StarExpr{X: r.rt("W", r.expr(st.X), site)}
	}
	return &ast.StarExpr{X: r.rt("W", &ast.UnaryExpr{Op: token.AND, X: r.addr(e)}, site)}
}

func (r *rw) lhs(e ast.Expr, tok token.Token) ast.Expr {
	if tok == token.DEFINE || blank(e) {
		return e
	}
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if ix, ok := e.(*ast.IndexExpr); ok && isMap(r.typeOf(ix.X)) {
		return r.mapLhs(ix)
	}
	if r.hookable(e) {
		return r.wloc(e)
	}
	return r.addr(e)
}

func (r *rw) assign(x *ast.AssignStmt) ast.Stmt {
	if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
		for op, t := range opAssignTok {
			if t == x.Tok {
				return r.opAssign(x.Lhs[0], op, r.expr(x.Rhs[0]), x)
			}
		}
		return x
	}
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		if u := isRecv(x.Rhs[0]); u != nil {
			x.Rhs[0] = r.rt("Recv2", r.expr(u.X))
			for i := range x.Lhs {
				x.Lhs[i] = r.lhs(x.Lhs[i], x.Tok)
			}
			return x
		}
	}
	if x.Tok == token.ASSIGN && len(x.Lhs) == 1 && len(x.Rhs) == 1 && r.hookable(x.Lhs[0]) && !blank(x.Lhs[0]) {
		l := x.Lhs[0]
		for {
			p, ok := l.(*ast.ParenExpr)
			if !ok {
				break
			}
			l = p.X
		}
		site := r.site(l)
		var p ast.Expr
		if st, ok := l.(*ast.StarExpr); ok {
			p = r.expr(st.X)
		} else {
			p = &ast.UnaryExpr{Op: token.AND, X: r.addr(l)}
		}
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.rt("SetTo", p, site), Args: []ast.Expr{r.expr(x.Rhs[0])}}}
	}
	for i := range x.Lhs {
		x.Lhs[i] = r.lhs(x.Lhs[i], x.Tok)
	}
	x.Rhs = r.exprs(x.Rhs)
	return x
}

func (r *rw) goName(n ast.Node) ast.Expr {
	p := r.fset.Position(n.Pos())
	return lit(fmt.Sprintf("%s:%d", strings.TrimSuffix(filepath.Base(r.file), ".go"), p.Line))
}

func (r *rw) goStmt(x *ast.GoStmt) ast.Stmt {
	c := x.Call
	name := r.goName(x)
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		fl.Body = r.block(fl.Body)
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			return &ast.ExprStmt{X: r.rt("GoNamed", name, fl)}
		}
		return &ast.ExprStmt{X: r.rt("GoNamed", name, thunk(&ast.CallExpr{Fun: fl}))}
	}
	if id, ok := c.Fun.(*ast.Ident); ok {
		if _, ok := r.info.Uses[id].(*types.Builtin); ok {
			return &ast.ExprStmt{X: r.rt("GoNamed", name, thunk(r.call(c)))}
		}
	}
	var pre []ast.Stmt
	f := r.id("f")
	pre = append(pre, define([]ast.Expr{f}, r.expr(c.Fun)))
	args := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args[i] = a
			continue
		}
		if _, ok := tv.Type.(*types.Tuple); ok {
			// f(g()) with several results: evaluate inside (rare)
			args[i] = r.expr(a)
			continue
		}
		v := r.id("a")
		pre = append(pre, define([]ast.Expr{v}, r.expr(a)))
		args[i] = v
	}
	pre = append(pre, &ast.ExprStmt{X: r.rt("GoNamed", name, thunk(&ast.CallExpr{Fun: f, Args: args, Ellipsis: c.Ellipsis}))})
	return &ast.BlockStmt{List: pre}
}

func thunk(e ast.Expr) *ast.FuncLit {
	return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: e}}}}
}

func unreachable() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{lit("unreachable select")}}}
}

func (r *rw) selectStmt(x *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	if len(x.Body.List) == 0 {
		return &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.rt("BlockForever")}, unreachable()}}
	}
	hasDef := false
	for _, c := range x.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			hasDef = true
		}
	}
	s := r.id("s")
	var pre []ast.Stmt
	pre = append(pre, define([]ast.Expr{s}, r.rt("NewSelect", ast.NewIdent(fmt.Sprint(hasDef)))))
	sw := &ast.SwitchStmt{Tag: &ast.CallExpr{Fun: &ast.SelectorExpr{X: s, Sel: ast.NewIdent("Run")}}, Body: &ast.BlockStmt{}}
	n := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: r.stmts(cc.Body)})
			continue
		}
		var head []ast.Stmt
		recv := func(u *ast.UnaryExpr) *ast.Ident {
			v := r.id("c")
			pre = append(pre, define([]ast.Expr{v}, r.rt("SelRecv", s, r.expr(u.X))),
				&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
			return v
		}
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, &ast.ExprStmt{X: &ast.CallExpr{Fun: r.rt("SelSend", s, r.expr(m.Chan)), Args: []ast.Expr{r.expr(m.Value)}}})
		case *ast.ExprStmt:
			recv(isRecv(m.X))
		case *ast.AssignStmt:
			v := recv(isRecv(m.Rhs[0]))
			fn := "Val"
			if len(m.Lhs) == 2 {
				fn = "Val2"
			}
			val := &ast.CallExpr{Fun: &ast.SelectorExpr{X: v, Sel: ast.NewIdent(fn)}}
			for i := range m.Lhs {
				m.Lhs[i] = r.lhs(m.Lhs[i], m.Tok)
			}
			head = append(head, &ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: []ast.Expr{val}})
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{num(n)}, Body: append(head, r.stmts(cc.Body)...)})
		n++
	}
	if !hasDef {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{unreachable()}})
	}
	var last ast.Stmt = sw
	if label != nil {
		last = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{List: append(pre, last)}
}

func (r *rw) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	t := r.typeOf(x.X)
	switch {
	case isChan(t):
		ch := r.id("ch")
		ok := r.id("ok")
		f := &ast.ForStmt{}
		var v ast.Expr = ast.NewIdent("_")
		init := define([]ast.Expr{ch}, r.expr(x.X))
		if !blank(x.Key) {
			v = x.Key
			if x.Tok == token.DEFINE {
				f.Init = define([]ast.Expr{x.Key}, r.rt("ChZero", ch))
			} else {
				v = r.lhs(x.Key, token.ASSIGN)
			}
		}
		body := []ast.Stmt{
			&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ok}, Type: ast.NewIdent("bool")}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{r.rt("Recv2", ch)}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		}
		f.Body = &ast.BlockStmt{List: append(body, r.block(x.Body).List...)}
		return &ast.BlockStmt{List: []ast.Stmt{init, f}}
	case isMap(t):
		m, es, i := r.id("m"), r.id("es"), r.id("i")
		site := r.site(x)
		ktmp, vtmp := r.id("k"), r.id("v")
		init := define([]ast.Expr{m}, r.expr(x.X))
		pre := &ast.AssignStmt{Lhs: []ast.Expr{es, ktmp, vtmp}, Tok: token.DEFINE, Rhs: []ast.Expr{r.rt("MapRange", m, site)}}
		entry := func(f string) ast.Expr {
			return &ast.SelectorExpr{X: &ast.IndexExpr{X: es, Index: i}, Sel: ast.NewIdent(f)}
		}
		f := &ast.ForStmt{}
		fi := define([]ast.Expr{i}, num(0))
		set := func(e ast.Expr, field string, zero ast.Expr) []ast.Stmt {
			if blank(e) {
				return nil
			}
			if x.Tok == token.DEFINE {
				fi.Lhs = append(fi.Lhs, e)
				fi.Rhs = append(fi.Rhs, zero)
				if r.full && r.capt[r.info.ObjectOf(e.(*ast.Ident))] {
					return []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{
						Fun: r.rt("SetTo", &ast.UnaryExpr{Op: token.AND, X: e}, site), Args: []ast.Expr{entry(field)}}}}
				}
				return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{e}, Tok: token.ASSIGN, Rhs: []ast.Expr{entry(field)}}}
			}
			return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{r.lhs(e, token.ASSIGN)}, Tok: token.ASSIGN, Rhs: []ast.Expr{entry(field)}}}
		}
		var body []ast.Stmt
		body = append(body, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: r.rt("MapHas", m, entry("K"))},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		body = append(body, set(x.Key, "K", ktmp)...)
		body = append(body, set(x.Value, "V", vtmp)...)
		f.Init = fi
		f.Cond = &ast.BinaryExpr{X: i, Op: token.LSS, Y: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{es}}}
		f.Post = &ast.IncDecStmt{X: i, Tok: token.INC}
		f.Body = &ast.BlockStmt{List: append(body, r.block(x.Body).List...)}
		use := &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ktmp, vtmp}}
		return r.mapLoop(x, init, pre, use, f)
	}
	if x.Tok == token.ASSIGN {
		if x.Key != nil {
			x.Key = r.lhs(x.Key, token.ASSIGN)
		}
		if x.Value != nil {
			x.Value = r.lhs(x.Value, token.ASSIGN)
		}
	}
	x.X = r.expr(x.X)
	x.Body = r.block(x.Body)
	return x
}

// mapLoop nests the prepared declarations around the loop.
func (r *rw) mapLoop(x *ast.RangeStmt, init, pre, use ast.Stmt, f *ast.ForStmt) ast.Stmt {
	return &ast.BlockStmt{List: []ast.Stmt{init, pre, use, f}}
}
