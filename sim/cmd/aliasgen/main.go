// Command aliasgen writes, into each stand-in package, aliases for every
// exported name of the standard package that the stand-in does not define.
//
//	go run ./cmd/aliasgen
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	for dir, std := range map[string]string{"ssync": "sync", "stime": "time", "sctx": "context", "snet": "net", "sos": "os", "slog": "log", "srt": "runtime", "srand": "math/rand"} {
		gen(dir, std)
	}
}

func gen(dir, std string) {
	out := filepath.Join(dir, "zz_alias.go")
	fset := token.NewFileSet()
	have := map[string]bool{}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		if f == out {
			continue
		}
		af, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range af.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					have[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						have[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	pkg, err := importer.ForCompiler(fset, "source", nil).Import(std)
	if err != nil {
		panic(err)
	}
	var consts, vars, typs []string
	for _, n := range pkg.Scope().Names() {
		o := pkg.Scope().Lookup(n)
		if !o.Exported() || have[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			consts = append(consts, n)
		case *types.Var:
			vars = append(vars, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			vars = append(vars, n)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			typs = append(typs, n)
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "// Code generated by aliasgen. DO NOT EDIT.\n\npackage %s\n\nimport real_ %q\n\n", filepath.Base(std), std)
	emit := func(kw string, l []string) {
		sort.Strings(l)
		if len(l) == 0 {
			return
		}
		fmt.Fprintf(&b, "%s (\n", kw)
		for _, n := range l {
			fmt.Fprintf(&b, "\t%s = real_.%s\n", n, n)
		}
		fmt.Fprintf(&b, ")\n\n")
	}
	emit("const", consts)
	emit("var", vars)
	emit("type", typs)
	src := b.Bytes()
	if len(consts)+len(vars)+len(typs) == 0 {
		src = []byte(strings.Replace(b.String(), "import real_", "import _", 1))
	}
	r, err := format.Source(src)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(out, r, 0o644); err != nil {
		panic(err)
	}
	fmt.Println(dir, len(consts), len(vars), len(typs))
}
