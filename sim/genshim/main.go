// Command genshim writes the pass-through part (zz_pass.go) of each shim
// package: every exported name of the real package that the handwritten part
// does not define is aliased, or, for packages that reach the system, made to
// stop the simulation as unsupported unless it is on the pure list.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var pkgs = []struct{ dir, path, name string }{
	{"os", "os", "os"}, {"time", "time", "time"}, {"crypto_rand", "crypto/rand", "rand"},
	{"math_rand", "math/rand", "rand"}, {"math_rand_v2", "math/rand/v2", "rand"},
	{"os_signal", "os/signal", "signal"}, {"fmt", "fmt", "fmt"}, {"sync", "sync", "sync"},
	{"context", "context", "context"}, {"log", "log", "log"}, {"runtime", "runtime", "runtime"},
	{"filepath", "path/filepath", "filepath"}, {"syscall", "syscall", "syscall"}, {"maps", "maps", "maps"},
}

var pureFuncs = map[string]string{
	"os":            " Expand IsExist IsNotExist IsPermission IsTimeout IsPathSeparator NewSyscallError ",
	"syscall":       " ",
	"path/filepath": " Base Clean Dir Ext FromSlash HasPrefix IsAbs IsLocal Join Localize Match Rel Split SplitList ToSlash VolumeName ",
}

func main() {
	root := os.Args[1]
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "source", nil)
	for _, p := range pkgs {
		dir := filepath.Join(root, p.dir)
		have := map[string]bool{}
		es, _ := os.ReadDir(dir)
		for _, e := range es {
			if e.Name() == "zz_pass.go" || !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0)
			if err != nil {
				panic(err)
			}
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						have[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							have[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								have[n.Name] = true
							}
						}
					}
				}
			}
		}
		pkg, err := imp.Import(p.path)
		if err != nil {
			panic(err)
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "// Code generated by genshim. DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", p.name, p.path)
		usesCore := false
		names := pkg.Scope().Names()
		sort.Strings(names)
		var body bytes.Buffer
		for _, n := range names {
			o := pkg.Scope().Lookup(n)
			if !o.Exported() || have[n] || n == "ForkLock" {
				continue
			}
			switch o := o.(type) {
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					fmt.Fprintf(os.Stderr, "skip generic type %s.%s\n", p.path, n)
					continue
				}
				fmt.Fprintf(&body, "type %s = real.%s\n", n, n)
			case *types.Const:
				fmt.Fprintf(&body, "const %s = real.%s\n", n, n)
			case *types.Var:
				fmt.Fprintf(&body, "var %s = real.%s\n", n, n)
			case *types.Func:
				sig := o.Type().(*types.Signature)
				if sig.TypeParams().Len() > 0 {
					fmt.Fprintf(os.Stderr, "skip generic func %s.%s\n", p.path, n)
					continue
				}
				if pure, ok := pureFuncs[p.path]; ok && !strings.Contains(pure, " "+n+" ") {
					usesCore = true
					fmt.Fprintf(&body, "var %s = unsup(real.%s, %q)\n", n, n, p.path+"."+n)
					continue
				}
				fmt.Fprintf(&body, "var %s = real.%s\n", n, n)
			}
		}
		if body.Len() == 0 {
			os.Remove(filepath.Join(dir, "zz_pass.go"))
			continue
		}
		if usesCore {
			fmt.Fprintf(&b, "import \"reflect\"\nimport \"zsim/core\"\n\nfunc unsup[T any](f T, name string) T {\n\treturn reflect.MakeFunc(reflect.TypeOf(f), func([]reflect.Value) []reflect.Value { core.NotSupported(name); return nil }).Interface().(T)\n}\n\n")
		}
		b.Write(body.Bytes())
		out, err := format.Source(b.Bytes())
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(filepath.Join(dir, "zz_pass.go"), out, 0644); err != nil {
			panic(err)
		}
	}
}
