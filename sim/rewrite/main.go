// Command rewrite copies the Go packages of a repository into a scratch module
// in which everything nondeterministic goes through the simulator: imports of
// system packages point at shims, goroutines, channel operations, select and
// map iteration call the scheduler, and every statement is a yield point.
//
// usage: rewrite REPO OUT ZSIM   (ZSIM: scratch copy of the zsim module)
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"rewrite/astutil"
)

var shims = map[string]string{
	"os": "os", "time": "time", "crypto/rand": "crypto_rand", "math/rand": "math_rand",
	"math/rand/v2": "math_rand_v2", "os/signal": "os_signal", "fmt": "fmt", "sync": "sync",
	"context": "context", "log": "log", "io/ioutil": "ioutil", "runtime": "runtime", "flag": "flag",
	"path/filepath": "filepath", "syscall": "syscall", "maps": "maps",
	"golang.org/x/term": "term", "golang.org/x/sys/unix": "unix", "golang.org/x/crypto/argon2": "argon2",
}

var denied = map[string]bool{"os/exec": true, "net": true, "os/user": true, "plugin": true, "C": true,
	"log/slog": true, "log/syslog": true, "testing": true, "embed": true, "golang.org/x/crypto/ssh/terminal": true,
	"golang.org/x/crypto/openpgp/packet": false}

type pkgInfo struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	ImportMap  map[string]string
	Module     *struct {
		Path, Dir, Version string
		Main               bool
	}
	Error *struct{ Err string }
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "rewrite: "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) != 4 {
		die("usage: rewrite REPO OUT ZSIM")
	}
	repo, out, zsim := os.Args[1], os.Args[2], os.Args[3]
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Name,Dir,GoFiles,CgoFiles,Export,Standard,ImportMap,Module,Error", "./...", "golang.org/x/term", "flag", "golang.org/x/crypto/argon2")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly -buildvcs=false")
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	pkgs := map[string]*pkgInfo{}
	var order []*pkgInfo
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := new(pkgInfo)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		pkgs[p.ImportPath] = p
		order = append(order, p)
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, errors.New("no export data for " + path)
		}
		return os.Open(p.Export)
	})
	vocab := map[string]bool{}
	var mainMod string
	var reset []string
	for _, p := range order {
		isRepo := p.Module != nil && p.Module.Main
		isAux := p.ImportPath == "golang.org/x/term" || p.ImportPath == "flag"
		if !isRepo && !isAux {
			continue
		}
		if len(p.CgoFiles) > 0 {
			die("%s uses cgo", p.ImportPath)
		}
		r := &rw{fset: fset, pkgs: pkgs, info: &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
			Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}}, lite: isAux}
		var files []*ast.File
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			for _, cg := range af.Comments {
				for _, c := range cg.List {
					if strings.HasPrefix(c.Text, "//go:embed") || strings.HasPrefix(c.Text, "//go:linkname") {
						if !isAux {
							die("%s: directive %s not supported", f, c.Text)
						}
					}
				}
			}
			stripComments(af)
			files = append(files, af)
		}
		conf := types.Config{Importer: impMap{imp, p.ImportMap}, Error: func(error) {}}
		tp, err := conf.Check(p.ImportPath, fset, files, r.info)
		if err != nil {
			die("type-checking %s: %v", p.ImportPath, err)
		}
		r.pkg = tp
		var dir string
		if isRepo {
			mainMod = p.Module.Path
			dir = filepath.Join(out, strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, mainMod), "/"))
			for _, f := range files {
				ast.Inspect(f, func(n ast.Node) bool {
					if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING {
						if s, err := strconv.Unquote(l.Value); err == nil {
							for _, w := range wordRe.FindAllString(strings.ToLower(s), -1) {
								vocab[w] = true
							}
						}
					}
					return true
				})
			}
		} else {
			dir = filepath.Join(zsim, "shim", filepath.Base(p.ImportPath))
		}
		if err := os.MkdirAll(dir, 0755); err != nil {
			die("%v", err)
		}
		name := tp.Name()
		if name == "main" {
			name = "maincmd"
		}
		r.doPackage(files, name)
		for i, f := range files {
			var buf bytes.Buffer
			if isAux && p.Standard {
				buf.WriteString("//go:build go1.24\n\n")
			}
			if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&buf, token.NewFileSet(), f); err != nil {
				die("print: %v", err)
			}
			base := filepath.Base(p.GoFiles[i])
			if err := os.WriteFile(filepath.Join(dir, strings.TrimSuffix(base, ".go")+"_z.go"), buf.Bytes(), 0644); err != nil {
				die("%v", err)
			}
		}
		if err := os.WriteFile(filepath.Join(dir, "zz_reset.go"), []byte("package "+name+"\n\n"+r.resetSrc), 0644); err != nil {
			die("%v", err)
		}
		if isRepo {
			reset = append(reset, p.ImportPath)
		} else if p.ImportPath == "flag" {
			reset = append(reset, "zsim/shim/flag")
		}
	}
	if mainMod == "" {
		die("no packages found in %s", repo)
	}
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	gm = append(gm, []byte("\nrequire zsim v0.0.0\nreplace zsim => "+zsim+"\n")...)
	os.WriteFile(filepath.Join(out, "go.mod"), gm, 0644)
	if s, err := os.ReadFile(filepath.Join(repo, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(out, "go.sum"), s, 0644)
	}
	var ws []string
	for w := range vocab {
		ws = append(ws, w)
	}
	sort.Strings(ws)
	// description used to generate glue in the runner
	d, _ := json.MarshalIndent(map[string]any{"module": mainMod, "reset": reset, "vocab": ws}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "rewrite.json"), d, 0644); err != nil {
		die("%v", err)
	}
}

var wordRe = regexp.MustCompile(`[a-z]{3,}`)

type impMap struct {
	imp types.Importer
	m   map[string]string
}

func (i impMap) Import(path string) (*types.Package, error) {
	if p, ok := i.m[path]; ok {
		path = p
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return i.imp.Import(path)
}

func stripComments(f *ast.File) {
	f.Comments = nil
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
}

type rw struct {
	fset     *token.FileSet
	pkgs     map[string]*pkgInfo
	info     *types.Info
	pkg      *types.Package
	lite     bool
	n        int
	inComm   map[ast.Node]bool
	selBlk   map[*ast.BlockStmt]*ast.SwitchStmt
	commaOk  map[*ast.UnaryExpr]bool
	resetSrc string
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }
func (r *rw) tmp(p string) string {
	r.n++
	return fmt.Sprintf("zz%s%d", p, r.n)
}
func core(name string) ast.Expr { return &ast.SelectorExpr{X: id("zzcore"), Sel: id(name)} }
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: f, Args: a}
}
func intLit(i int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)} }
func boolLit(b bool) ast.Expr {
	return id(fmt.Sprint(b))
}
func yield() ast.Stmt { return &ast.ExprStmt{X: call(core("Yield"))} }
func define(name string, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func recvOf(e ast.Expr) *ast.UnaryExpr {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (r *rw) doPackage(files []*ast.File, name string) {
	r.inComm = map[ast.Node]bool{}
	r.selBlk = map[*ast.BlockStmt]*ast.SwitchStmt{}
	r.commaOk = map[*ast.UnaryExpr]bool{}
	var inits []string
	ninit := 0
	for fi, f := range files {
		f.Name = id(name)
		// collect blank-identifier-free info before rewriting
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			if fd.Name.Name == "init" {
				ninit++
				n := fmt.Sprintf("zzInit%d", ninit)
				fd.Name = id(n)
				inits = append(inits, n)
			} else if fd.Name.Name == "main" && name == "maincmd" {
				fd.Name = id("SimMain")
			}
		}
		if !r.lite {
			files[fi] = astutil.Apply(f, r.pre, r.post).(*ast.File)
			f = files[fi]
		}
		r.imports(f)
	}
	// declare initialisers as functions so that a restart can run them again
	var b strings.Builder
	b.WriteString("import zzcore \"zsim/core\"\n\n")
	b.WriteString("// SimReset re-creates the package state of a freshly started process.\nfunc SimReset() {\n")
	initialised := map[types.Object]bool{}
	k := 0
	for _, in := range r.info.InitOrder {
		k++
		fn := fmt.Sprintf("zzReinit%d", k)
		var lhs []ast.Expr
		any := false
		for _, v := range in.Lhs {
			initialised[v] = true
			lhs = append(lhs, id(v.Name()))
			if v.Name() != "_" {
				any = true
			}
		}
		if !any {
			continue
		}
		// place the function in the file of the initialiser so imports resolve
		var file *ast.File
		var rhs ast.Expr
		for _, f := range files {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, s := range gd.Specs {
					vs := s.(*ast.ValueSpec)
					for i, nm := range vs.Names {
						if nm.Name == in.Lhs[0].Name() && r.info.Defs[nm] == in.Lhs[0] {
							file = f
							if len(vs.Values) == len(vs.Names) {
								rhs = vs.Values[i]
							} else if len(vs.Values) == 1 {
								rhs = vs.Values[0]
							}
						}
					}
				}
			}
		}
		if file == nil || rhs == nil {
			continue
		}
		file.Decls = append(file.Decls, &ast.FuncDecl{Name: id(fn), Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}}}})
		fmt.Fprintf(&b, "\t%s()\n", fn)
	}
	var zero []string
	for _, n := range r.pkg.Scope().Names() {
		o := r.pkg.Scope().Lookup(n)
		if v, ok := o.(*types.Var); ok && !initialised[v] && n != "_" {
			zero = append(zero, n)
		}
	}
	body := b.String()
	var zs strings.Builder
	for _, z := range zero {
		fmt.Fprintf(&zs, "\tzzcore.Zero(&%s)\n", z)
	}
	body = strings.Replace(body, "func SimReset() {\n", "func SimReset() {\n"+zs.String(), 1)
	for _, n := range inits {
		body += "\t" + n + "()\n"
	}
	body += "}\n\nvar _ = zzcore.Yield\n"
	if len(inits) > 0 {
		body += "\nfunc init() {\n"
		for _, n := range inits {
			body += "\t" + n + "()\n"
		}
		body += "}\n"
	}
	r.resetSrc = body
}

func (r *rw) imports(f *ast.File) {
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			continue
		}
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			if denied[path] || strings.HasPrefix(path, "net/") || strings.HasPrefix(path, "vendor/") {
				die("import of %s is not modelled by the simulator", path)
			}
			sh, ok := shims[path]
			if !ok {
				continue
			}
			if is.Name == nil {
				n := filepath.Base(path)
				if p := r.pkgs[path]; p != nil {
					n = p.Name
				} else if path == "math/rand/v2" {
					n = "rand"
				}
				is.Name = id(n)
			}
			is.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("zsim/shim/" + sh)}
		}
	}
	if r.lite {
		return
	}
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: id("zzcore"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"zsim/core"`}}}}
	use := &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{core("Yield")}}}}
	f.Decls = append(append([]ast.Decl{imp}, f.Decls...), use)
}

func (r *rw) pre(c *astutil.Cursor) bool {
	switch n := c.Node().(type) {
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if u := recvOf(n.Rhs[0]); u != nil {
				r.commaOk[u] = true
			}
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			if u := recvOf(n.Values[0]); u != nil {
				r.commaOk[u] = true
			}
		}
	case *ast.CommClause:
		switch s := n.Comm.(type) {
		case *ast.SendStmt:
			r.inComm[s] = true
		case *ast.ExprStmt:
			r.inComm[recvOf(s.X)] = true
		case *ast.AssignStmt:
			r.inComm[recvOf(s.Rhs[0])] = true
		}
	}
	return true
}

func (r *rw) withYields(in []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, 2*len(in))
	for _, s := range in {
		if _, ok := s.(*ast.EmptyStmt); ok {
			out = append(out, s)
			continue
		}
		out = append(out, yield(), s)
	}
	return out
}

func (r *rw) builtin(e ast.Expr) string {
	i, ok := unparen(e).(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := r.info.Uses[i].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if t := r.info.TypeOf(e); t != nil {
		return t.Underlying()
	}
	return nil
}

func (r *rw) post(c *astutil.Cursor) bool {
	switch n := c.Node().(type) {
	case *ast.BlockStmt:
		switch c.Parent().(type) {
		case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
			return true
		}
		n.List = r.withYields(n.List)
	case *ast.CaseClause:
		n.Body = r.withYields(n.Body)
	case *ast.CommClause:
		n.Body = r.withYields(n.Body)
	case *ast.ForStmt:
		if len(n.Body.List) == 0 {
			n.Body.List = []ast.Stmt{yield()}
		}
	case *ast.UnaryExpr:
		if n.Op == token.ARROW && !r.inComm[n] {
			f := "Recv"
			if r.commaOk[n] {
				f = "Recv2"
			}
			c.Replace(call(core(f), n.X))
		}
	case *ast.SendStmt:
		if !r.inComm[n] {
			c.Replace(&ast.ExprStmt{X: call(call(core("SendTo"), n.Chan), n.Value)})
		}
	case *ast.CallExpr:
		switch r.builtin(n.Fun) {
		case "close":
			n.Fun = core("Close")
		case "print":
			n.Fun = core("Print")
		case "println":
			n.Fun = core("Println")
		}
	case *ast.GoStmt:
		c.Replace(r.goStmt(n))
	case *ast.RangeStmt:
		if s := r.rangeStmt(n); s != nil {
			c.Replace(s)
		} else if len(n.Body.List) == 0 {
			n.Body.List = []ast.Stmt{yield()}
		}
	case *ast.SelectStmt:
		c.Replace(r.selectStmt(n))
	case *ast.LabeledStmt:
		if b, ok := n.Stmt.(*ast.BlockStmt); ok && r.selBlk[b] != nil {
			last := len(b.List) - 1
			b.List[last] = &ast.LabeledStmt{Label: n.Label, Stmt: b.List[last]}
			c.Replace(b)
		}
	}
	return true
}

func (r *rw) goStmt(g *ast.GoStmt) ast.Stmt {
	ce := g.Call
	if fl, ok := unparen(ce.Fun).(*ast.FuncLit); ok && len(ce.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return &ast.ExprStmt{X: call(core("Go"), fl)}
	}
	blk := &ast.BlockStmt{}
	fun := ce.Fun
	capture := r.builtin(ce.Fun) == ""
	if sel, ok := ce.Fun.(*ast.SelectorExpr); ok {
		if x, ok := sel.X.(*ast.Ident); ok && x.Name == "zzcore" {
			capture = false
		}
	}
	switch f := unparen(ce.Fun).(type) {
	case *ast.Ident:
		if _, ok := r.info.Uses[f].(*types.Func); ok {
			capture = false
		}
	case *ast.SelectorExpr:
		if _, ok := r.info.Selections[f]; !ok {
			capture = false // package-qualified function
		}
	}
	if capture {
		n := r.tmp("f")
		blk.List = append(blk.List, define(n, fun))
		fun = id(n)
	}
	nc := &ast.CallExpr{Fun: fun, Ellipsis: ce.Ellipsis}
	for _, a := range ce.Args {
		tv, ok := r.info.Types[a]
		if ok && (tv.Value != nil || tv.IsNil() || tv.IsType()) {
			nc.Args = append(nc.Args, a)
			continue
		}
		n := r.tmp("a")
		blk.List = append(blk.List, define(n, a))
		nc.Args = append(nc.Args, id(n))
	}
	var st ast.Stmt = &ast.ExprStmt{X: nc}
	fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{st}}}
	blk.List = append(blk.List, &ast.ExprStmt{X: call(core("Go"), fl)})
	return blk
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func addr(e ast.Expr) ast.Expr {
	if isBlank(e) {
		return id("nil")
	}
	return &ast.UnaryExpr{Op: token.AND, X: e}
}

func (r *rw) rangeStmt(n *ast.RangeStmt) ast.Stmt {
	t := r.typeOf(n.X)
	it := r.tmp("it")
	body := n.Body
	if len(body.List) == 0 {
		body.List = []ast.Stmt{yield()}
	}
	switch t.(type) {
	case *types.Map:
		lhs := []ast.Expr{id(it)}
		fn := "MapIter"
		if n.Tok == token.DEFINE {
			fn = "MapIter3"
			for _, e := range []ast.Expr{n.Key, n.Value} {
				if isBlank(e) {
					lhs = append(lhs, id("_"))
				} else {
					lhs = append(lhs, e)
				}
			}
		}
		return &ast.ForStmt{Init: &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{call(core(fn), n.X)}},
			Cond: call(&ast.SelectorExpr{X: id(it), Sel: id("Next")}, addr(n.Key), addr(n.Value)), Body: body}
	case *types.Chan:
		lhs := []ast.Expr{id(it)}
		fn := "ChanIter"
		if n.Tok == token.DEFINE {
			fn = "ChanIter2"
			if isBlank(n.Key) {
				lhs = append(lhs, id("_"))
			} else {
				lhs = append(lhs, n.Key)
			}
		}
		return &ast.ForStmt{Init: &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{call(core(fn), n.X)}},
			Cond: call(&ast.SelectorExpr{X: id(it), Sel: id("Next")}, addr(n.Key)), Body: body}
	}
	return nil
}

func (r *rw) selectStmt(n *ast.SelectStmt) ast.Stmt {
	blk := &ast.BlockStmt{}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	args := []ast.Expr{nil}
	hasDefault := false
	k := 0
	for _, cl := range n.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: cc.Body})
			continue
		}
		op := r.tmp("op")
		body := cc.Body
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			blk.List = append(blk.List, define(op, call(call(core("SendCase"), s.Chan), s.Value)))
		case *ast.ExprStmt:
			blk.List = append(blk.List, define(op, call(core("RecvCase"), recvOf(s.X).X)))
		case *ast.AssignStmt:
			blk.List = append(blk.List, define(op, call(core("RecvCase"), recvOf(s.Rhs[0]).X)))
			rhs := []ast.Expr{&ast.SelectorExpr{X: id(op), Sel: id("Val")}}
			if len(s.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: id(op), Sel: id("Ok")})
			}
			body = append([]ast.Stmt{&ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok, Rhs: rhs}}, body...)
		}
		args = append(args, id(op))
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{intLit(k)}, Body: body})
		k++
	}
	args[0] = boolLit(hasDefault)
	if !hasDefault {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"sim: impossible select"`})}}})
	}
	sw.Tag = call(core("Select"), args...)
	blk.List = append(blk.List, sw)
	r.selBlk[blk] = sw
	return blk
}
