// Command instr rewrites the Go packages of a module so that every synchronisation
// operation, timer, random source and (in full mode) access to shared memory goes
// through the controlled runtime in /verif/vrt.  It writes the rewritten files to a
// scratch directory and an overlay file for "go build -overlay"; the module itself is
// not touched.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Path, GoVersion string }
	ImportMap  map[string]string
}

var (
	repo    = flag.String("repo", "/repo", "module root")
	verif   = flag.String("verif", "/verif", "framework root")
	out     = flag.String("out", "", "scratch directory")
	mode    = flag.String("mode", "full", "full, sync or none")
	harness = flag.String("harness", "harness", "harness directory below verif")
)

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(3)
	}
}

func main() {
	flag.Parse()
	overlay := map[string]string{}
	mod := modulePath()
	rt := []string{"vrt", "vsync", "vatomic", "vtime", "vctx", "vnet", "vrand"}
	for _, p := range rt {
		addDir(overlay, filepath.Join(*verif, "vrt", p), filepath.Join(*repo, "zzverif", p))
	}
	addDir(overlay, filepath.Join(*verif, *harness), filepath.Join(*repo, "zzverif", "harness"))
	addDir(overlay, filepath.Join(*verif, "vrt", "selftest"), filepath.Join(*repo, "zzverif", "selftest"))
	if *mode != "none" {
		instrument(mod, overlay)
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	die(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
}

func modulePath() string {
	b, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	die(err)
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			return f[1]
		}
	}
	die(fmt.Errorf("no module line"))
	return ""
}

func addDir(ov map[string]string, from, to string) {
	es, err := os.ReadDir(from)
	if err != nil {
		return
	}
	for _, e := range es {
		if !e.IsDir() && strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
			ov[filepath.Join(to, e.Name())] = filepath.Join(from, e.Name())
		}
	}
}

func instrument(mod string, overlay map[string]string) {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,Module,ImportMap",
		"./transport/...", "./lease/...", "./federation/...", "./naming/...", "./serialization/...", "./common/...")
	cmd.Dir = *repo
	var so bytes.Buffer
	cmd.Stdout = &so
	cmd.Stderr = os.Stderr
	die(cmd.Run())
	dec := json.NewDecoder(&so)
	exports := map[string]string{}
	var pkgs []*listPkg
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else {
			die(err)
		}
		exports[p.ImportPath] = p.Export
		if !p.Standard && (p.ImportPath == mod || strings.HasPrefix(p.ImportPath, mod+"/")) {
			pkgs = append(pkgs, p)
		}
	}
	fset := token.NewFileSet()
	done := map[string]*types.Package{}
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	imp := importFunc(func(path string) (*types.Package, error) {
		if p, ok := done[path]; ok {
			return p, nil
		}
		return gc.Import(path)
	})
	type loaded struct {
		p     *listPkg
		files []*ast.File
		names []string
		info  *types.Info
		pkg   *types.Package
	}
	var all []*loaded
	for _, p := range pkgs { // go list -deps is in dependency order
		l := &loaded{p: p}
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			die(err)
			l.files = append(l.files, af)
			l.names = append(l.names, filepath.Join(p.Dir, f))
		}
		l.info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
			Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Scopes: map[ast.Node]*types.Scope{}, Implicits: map[ast.Node]types.Object{},
		}
		conf := types.Config{Importer: imp}
		if p.Module != nil && p.Module.GoVersion != "" {
			conf.GoVersion = "go" + p.Module.GoVersion
		}
		tp, err := conf.Check(p.ImportPath, fset, l.files, l.info)
		die(err)
		l.pkg = tp
		done[p.ImportPath] = tp
		all = append(all, l)
	}
	// package-level variables changed outside initialisers
	mutable := map[types.Object]bool{}
	for _, l := range all {
		for _, f := range l.files {
			findMutable(f, l.info, mutable)
		}
	}
	for _, l := range all {
		for i, f := range l.files {
			r := &rw{fset: fset, info: l.info, pkg: l.pkg, mod: mod, file: filepath.Base(l.p.Dir) + "/" + filepath.Base(l.names[i]),
				full: *mode == "full", mutable: mutable}
			r.rewriteFile(f)
			if i == 0 {
				r.registerGlobals(f, l.pkg, mutable)
			}
			var b bytes.Buffer
			die(printer.Fprint(&b, token.NewFileSet(), f))
			dst := filepath.Join(*out, "src", filepath.Base(l.p.Dir), filepath.Base(l.names[i]))
			die(os.MkdirAll(filepath.Dir(dst), 0o755))
			die(os.WriteFile(dst, b.Bytes(), 0o644))
			overlay[l.names[i]] = dst
		}
	}
}

type importFunc func(string) (*types.Package, error)

func (f importFunc) Import(p string) (*types.Package, error) {
	if p == "unsafe" {
		return types.Unsafe, nil
	}
	return f(p)
}

func isPkgVar(o types.Object) bool {
	v, ok := o.(*types.Var)
	return ok && !v.IsField() && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
}

// rootObj is the variable at the root of a location expression.
func rootObj(e ast.Expr, info *types.Info) types.Object {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return info.ObjectOf(x)
		case *ast.ParenExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.SelectorExpr:
			if info.Selections[x] == nil {
				return info.ObjectOf(x.Sel)
			}
			e = x.X
		default:
			return nil
		}
	}
}

func findMutable(f *ast.File, info *types.Info, m map[types.Object]bool) {
	mark := func(e ast.Expr) {
		if o := rootObj(e, info); o != nil && isPkgVar(o) {
			m[o] = true
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			// function literals in initialisers
			ast.Inspect(d, func(n ast.Node) bool { return true })
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					for _, l := range x.Lhs {
						mark(l)
					}
				}
			case *ast.IncDecStmt:
				mark(x.X)
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					mark(x.X)
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear" || id.Name == "copy") && len(x.Args) > 0 {
					if _, ok := info.Uses[id].(*types.Builtin); ok {
						mark(x.Args[0])
					}
				}
				if s, ok := x.Fun.(*ast.SelectorExpr); ok {
					if sel := info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
						if sig, ok := sel.Obj().Type().(*types.Signature); ok && sig.Recv() != nil {
							if _, p := sig.Recv().Type().(*types.Pointer); p {
								mark(s.X)
							}
						}
					}
				}
			case *ast.RangeStmt:
				if x.Tok == token.ASSIGN {
					if x.Key != nil {
						mark(x.Key)
					}
					if x.Value != nil {
						mark(x.Value)
					}
				}
			}
			return true
		})
	}
}
