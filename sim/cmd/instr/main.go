// Command instr rewrites every package of the module under test so that it runs
// inside the simulator, and writes a go build overlay.
//
//	instr -out DIR [-pkg PATTERN]
//
// The rewriting is purely syntactic sugar around the original code:
//   - imports of sync, time, net, os, context, log and runtime go to stand-ins,
//   - go statements, channel operations and select go to the simulator,
//   - a yield point is put before every statement, and in the middle of every
//     assignment to memory other goroutines can see,
//   - map accesses are checked the way the runtime checks them,
//   - package variables and init functions are re-run before each simulated run.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var redirect = map[string]string{
	"sync":    "verif.local/sim/ssync",
	"time":    "verif.local/sim/stime",
	"net":     "verif.local/sim/snet",
	"os":      "verif.local/sim/sos",
	"context": "verif.local/sim/sctx",
	"log":     "verif.local/sim/slog",
	"runtime": "verif.local/sim/srt",

	"math/rand": "verif.local/sim/srand",
}

const core = "verif.local/sim/vsim"

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	Module     *struct{ Path, GoVersion string }
	Error      *struct{ Err string }
	DepsErrors []*struct{ Err string }
}

func main() {
	out := flag.String("out", "", "output directory")
	mod := flag.String("mod", "github.com/nathanaelle/syslog5424/v2", "module to instrument")
	flag.Parse()
	if *out == "" {
		die("no -out")
	}
	os.MkdirAll(*out, 0o755)
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,Export,Standard,Module,Error,DepsErrors", *mod+"/...")
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, stderr.String())
	}
	exports := map[string]string{}
	var todo []*listPkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Path == *mod {
			todo = append(todo, p)
		}
	}
	if len(todo) == 0 {
		die("no package found")
	}
	overlay := map[string]string{}
	for _, p := range todo {
		instrument(p, exports, *out, overlay)
	}
	js, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644); err != nil {
		die("%v", err)
	}
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

type pkgState struct {
	fset     *token.FileSet
	info     *types.Info
	pkg      *types.Package
	captured map[types.Object]bool
	jumped   map[types.Object]bool // labels of goto statements
	left     map[types.Object]bool // labels of break and continue statements
	renamed  map[types.Object]bool
	tmp      int
}

type fileState struct {
	*pkgState
	src    []byte
	base   int // file offset base
	tf     *token.File
	f      *ast.File
	inits  []string
	forced map[ast.Node]bool
	quals  map[ast.Node]bool
}

func instrument(p *listPkg, exports map[string]string, out string, overlay map[string]string) {
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	srcs := map[*ast.File][]byte{}
	for _, n := range p.GoFiles {
		fn := filepath.Join(p.Dir, n)
		src, err := os.ReadFile(fn)
		if err != nil {
			die("%v", err)
		}
		f, err := parser.ParseFile(fset, fn, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, f)
		names = append(names, fn)
		srcs[f] = src
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
	var terr error
	conf := types.Config{Importer: imp, Error: func(err error) {
		if terr == nil {
			terr = err
		}
	}}
	if p.Module.GoVersion != "" {
		conf.GoVersion = "go" + p.Module.GoVersion
	}
	pkg, _ := conf.Check(p.ImportPath, fset, files, info)
	if terr != nil {
		die("%v", terr)
	}
	ps := &pkgState{fset: fset, info: info, pkg: pkg, captured: map[types.Object]bool{}, jumped: map[types.Object]bool{}, left: map[types.Object]bool{}, renamed: map[types.Object]bool{}}
	for _, f := range files {
		ps.findCaptured(f)
		ps.findLabels(f)
	}
	rel := strings.ReplaceAll(p.ImportPath, "/", "_")
	odir := filepath.Join(out, rel)
	os.MkdirAll(odir, 0o755)

	oldLang := false
	if v := strings.TrimPrefix(p.Module.GoVersion, "1."); v != p.Module.GoVersion {
		mn, _ := strconv.Atoi(strings.SplitN(v, ".", 2)[0])
		oldLang = mn < 21
	}

	// package variable initialisers, by file
	type initer struct{ fn, code string }
	perFile := make([]strings.Builder, len(files))
	var order []string
	withInit := map[types.Object]bool{}
	fileOf := func(pos token.Pos) int {
		for i, f := range files {
			if f.FileStart <= pos && pos <= f.FileEnd {
				return i
			}
		}
		die("position without file")
		return 0
	}
	fstates := make([]*fileState, len(files))
	for i, f := range files {
		fstates[i] = &fileState{pkgState: ps, src: srcs[f], f: f, tf: fset.File(f.Pos()), forced: map[ast.Node]bool{}}
	}
	for k, in := range info.InitOrder {
		i := fileOf(in.Rhs.Pos())
		var l []string
		for _, v := range in.Lhs {
			l = append(l, v.Name())
			withInit[v] = true
		}
		fn := fmt.Sprintf("vSimVar_%d", k)
		if tv := info.Types[in.Rhs]; len(l) == 1 && l[0] == "_" && (tv.IsNil() || tv.Value != nil) {
			continue
		}
		rhs := fstates[i].render(in.Rhs)
		fmt.Fprintf(&perFile[i], "\nfunc %s() { %s = %s }\n", fn, strings.Join(l, ", "), strings.ReplaceAll(rhs, "\r", ""))
		order = append(order, fn)
	}
	var zero []string
	for _, n := range pkg.Scope().Names() {
		if v, ok := pkg.Scope().Lookup(n).(*types.Var); ok && !withInit[v] {
			zero = append(zero, n)
		}
	}
	sort.Strings(zero)

	var inits []string
	for i, f := range files {
		fs := fstates[i]
		fs.initPrefix(i)
		text := fs.file()
		inits = append(inits, fs.inits...)
		var b strings.Builder
		if oldLang {
			b.WriteString("//go:build go1.21\n\n")
		}
		fmt.Fprintf(&b, "//line %s:1\n", names[i])
		b.WriteString(text)
		b.WriteString("\n\nvar _ = vSim_.Y\n")
		b.WriteString(perFile[i].String())
		o := filepath.Join(odir, filepath.Base(names[i]))
		write(o, b.String())
		overlay[names[i]] = o
		_ = f
	}
	var b strings.Builder
	if oldLang {
		b.WriteString("//go:build go1.21\n\n")
	}
	fmt.Fprintf(&b, "package %s\n\nimport vSim_ %q\n\nfunc init() {\n\tvSim_.RegisterReset(func() {\n", p.Name, core)
	for _, z := range zero {
		fmt.Fprintf(&b, "\t\tvSim_.Zero(&%s)\n", z)
	}
	for _, o := range order {
		fmt.Fprintf(&b, "\t\t%s()\n", o)
	}
	for _, o := range inits {
		fmt.Fprintf(&b, "\t\t%s()\n", o)
	}
	b.WriteString("\t})\n}\n")
	o := filepath.Join(odir, "zz_vsim_reset.go")
	write(o, b.String())
	overlay[filepath.Join(p.Dir, "zz_vsim_reset.go")] = o
}

func write(fn, s string) {
	if err := os.WriteFile(fn, []byte(s), 0o644); err != nil {
		die("%v", err)
	}
}

// findCaptured collects local variables used in a function literal other than
// the function that declares them.
func (ps *pkgState) findCaptured(f *ast.File) {
	decl := map[types.Object]ast.Node{}
	var stack []ast.Node
	var walk func(n ast.Node)
	type use struct {
		o  types.Object
		fn ast.Node
	}
	var uses []use
	var cur ast.Node
	walk = func(n ast.Node) {
		ast.Inspect(n, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.FuncDecl, *ast.FuncLit:
				if x == n {
					return true
				}
				stack = append(stack, cur)
				cur = x
				walk(x)
				cur = stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				return false
			case *ast.Ident:
				if o := ps.info.Defs[x]; o != nil {
					decl[o] = cur
				}
				if o := ps.info.Uses[x]; o != nil {
					uses = append(uses, use{o, cur})
				}
			}
			return true
		})
	}
	walk(f)
	for _, u := range uses {
		if d, ok := decl[u.o]; ok && d != u.fn {
			ps.captured[u.o] = true
		}
	}
}

func (ps *pkgState) findLabels(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		if b, ok := n.(*ast.BranchStmt); ok && b.Label != nil {
			if o := ps.info.Uses[b.Label]; b.Tok == token.GOTO {
				ps.jumped[o] = true
			} else {
				ps.left[o] = true
			}
		}
		return true
	})
}

func (fs *fileState) initPrefix(i int) {
	n := 0
	for _, d := range fs.f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
			fs.inits = append(fs.inits, fmt.Sprintf("vSimInit_%d_%d", i, n))
			n++
		}
	}
}

func (fs *fileState) off(p token.Pos) int { return fs.tf.Offset(p) }
func (fs *fileState) text(a, b token.Pos) string {
	return string(fs.src[fs.off(a):fs.off(b)])
}

func (fs *fileState) file() string {
	var b strings.Builder
	pos := fs.f.FileStart
	// build constraints go: the file was selected already
	head := fs.text(pos, fs.f.Package)
	lines := strings.Split(head, "\n")
	for i, l := range lines {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "//go:build") || strings.HasPrefix(t, "// +build") || strings.HasPrefix(t, "//+build") {
			lines[i] = ""
		}
	}
	b.WriteString(strings.Join(lines, "\n"))
	b.WriteString(fs.text(fs.f.Package, fs.f.Name.End()))
	fmt.Fprintf(&b, "; import vSim_ %q", core)
	pos = fs.f.Name.End()
	ninit := 0
	for _, d := range fs.f.Decls {
		b.WriteString(fs.text(pos, d.Pos()))
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
			b.WriteString("func " + fs.inits[ninit])
			ninit++
			b.WriteString(fs.renderRange(fd.Name.End(), fd.End(), fd.Type, fd.Body))
		} else {
			b.WriteString(fs.render(d))
		}
		pos = d.End()
	}
	b.WriteString(fs.text(pos, fs.f.FileEnd))
	return b.String()
}

// renderRange renders source text in which only the given nodes are rewritten.
func (fs *fileState) renderRange(a, z token.Pos, nodes ...ast.Node) string {
	var b strings.Builder
	pos := a
	for _, n := range nodes {
		if n == nil || n.Pos() < pos {
			continue
		}
		b.WriteString(fs.text(pos, n.Pos()))
		b.WriteString(fs.render(n))
		pos = n.End()
	}
	b.WriteString(fs.text(pos, z))
	return b.String()
}

// render gives the rewritten text of a node.
func (fs *fileState) render(n ast.Node) string {
	if s, ok := fs.special(n); ok {
		return s
	}
	return fs.plain(n)
}

// plain copies a node's text, rewriting the nodes below it.
func (fs *fileState) plain(n ast.Node) string {
	var b strings.Builder
	pos := n.Pos()
	ast.Inspect(n, func(x ast.Node) bool {
		if x == nil || x == n {
			return true
		}
		if _, ok := x.(*ast.Comment); ok {
			return false
		}
		if _, ok := x.(*ast.CommentGroup); ok {
			return false
		}
		if s, ok := fs.special(x); ok {
			b.WriteString(fs.text(pos, x.Pos()))
			b.WriteString(s)
			pos = x.End()
			return false
		}
		return true
	})
	b.WriteString(fs.text(pos, n.End()))
	return b.String()
}

func (fs *fileState) typ(e ast.Expr) types.Type {
	if tv, ok := fs.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := fs.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		return coreOf(tp)
	}
	return t.Underlying()
}

func coreOf(tp *types.TypeParam) types.Type {
	i, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok || i.NumEmbeddeds() != 1 {
		return tp
	}
	if u, ok := i.EmbeddedType(0).(*types.Union); ok && u.Len() == 1 {
		return u.Term(0).Type().Underlying()
	}
	return i.EmbeddedType(0).Underlying()
}

func isChan(t types.Type) (*types.Chan, bool) { c, ok := under(t).(*types.Chan); return c, ok }
func isMap(t types.Type) bool                 { _, ok := under(t).(*types.Map); return ok }

func (fs *fileState) builtin(e ast.Expr) string {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := fs.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

// listStmt renders a statement that stands in a statement list.
func (fs *fileState) listStmt(s ast.Stmt) string {
	switch s := s.(type) {
	case *ast.EmptyStmt:
		return fs.plain(s)
	case *ast.CaseClause:
		return fs.render(s)
	case *ast.AssignStmt, *ast.IncDecStmt:
		if t, ok := fs.mapWrite(s); ok {
			return "vSim_.Y(); " + t
		}
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok && fs.builtin(c.Fun) == "delete" && len(c.Args) == 2 && pure(c.Args[0]) {
			return "vSim_.Y(); vSim_.MapW(" + fs.render(c.Args[0]) + "); " + fs.plain(s)
		}
	}
	return "vSim_.Y(); " + fs.render(s)
}

// mapWrite handles assignments whose single target is a map element.
func (fs *fileState) mapWrite(s ast.Stmt) (string, bool) {
	var lhs ast.Expr
	switch s := s.(type) {
	case *ast.AssignStmt:
		if len(s.Lhs) != 1 || s.Tok == token.DEFINE {
			return "", false
		}
		lhs = s.Lhs[0]
	case *ast.IncDecStmt:
		lhs = s.X
	}
	ix, ok := ast.Unparen(lhs).(*ast.IndexExpr)
	if !ok || !isMap(fs.typ(ix.X)) || !pure(ix.X) {
		return "", false
	}
	fs.forced[ix] = true
	var rest string
	switch s := s.(type) {
	case *ast.AssignStmt:
		rest = fs.plain(s)
	case *ast.IncDecStmt:
		rest = fs.plain(s)
	}
	return "vSim_.MapW(" + fs.render(ix.X) + "); " + rest, true
}

// pure: evaluating the expression twice changes nothing.
func pure(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.ParenExpr:
		return pure(e.X)
	case *ast.SelectorExpr:
		return pure(e.X)
	case *ast.StarExpr:
		return pure(e.X)
	case *ast.IndexExpr:
		return pure(e.X) && pure(e.Index)
	case *ast.BinaryExpr:
		return pure(e.X) && pure(e.Y)
	case *ast.UnaryExpr:
		return e.Op != token.ARROW && e.Op != token.AND && pure(e.X)
	}
	return false
}

// shared: the addressable expression may be memory other goroutines see.
func (fs *fileState) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return fs.shared(e.X)
	case *ast.Ident:
		if e.Name == "_" {
			return false
		}
		v, ok := fs.info.ObjectOf(e).(*types.Var)
		if !ok {
			return false
		}
		return v.Parent() == fs.pkg.Scope() || fs.captured[v]
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		sel := fs.info.Selections[e]
		if sel == nil {
			// a variable of another package
			_, ok := fs.info.Uses[e.Sel].(*types.Var)
			return ok
		}
		if sel.Indirect() {
			return true
		}
		if _, ok := under(fs.typ(e.X)).(*types.Pointer); ok {
			return true
		}
		return fs.shared(e.X)
	case *ast.IndexExpr:
		switch under(fs.typ(e.X)).(type) {
		case *types.Slice, *types.Pointer:
			return true
		case *types.Array:
			return fs.shared(e.X)
		}
	}
	return false
}

func (fs *fileState) name(p string) string {
	fs.tmp++
	return fmt.Sprintf("vSim_%s%d", p, fs.tmp)
}

func recvExpr(e ast.Expr) *ast.UnaryExpr {
	if u, ok := ast.Unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

// special renders the nodes that are rewritten; false for all others.
func (fs *fileState) special(n ast.Node) (string, bool) {
	switch n := n.(type) {
	case *ast.ImportSpec:
		p, _ := strconv.Unquote(n.Path.Value)
		to, ok := redirect[p]
		if !ok {
			return "", false
		}
		name := filepath.Base(p)
		if n.Name != nil {
			name = n.Name.Name
		}
		return name + " " + strconv.Quote(to), true

	case *ast.BlockStmt:
		var b strings.Builder
		b.WriteString("{")
		pos := n.Lbrace + 1
		for _, s := range n.List {
			b.WriteString(fs.text(pos, s.Pos()))
			b.WriteString(fs.listStmt(s))
			pos = s.End()
		}
		if len(n.List) == 0 && fs.forced[n] {
			b.WriteString(" vSim_.Y() ")
		}
		b.WriteString(fs.text(pos, n.End()))
		return b.String(), true

	case *ast.CaseClause:
		var b strings.Builder
		pos := n.Pos()
		for _, e := range n.List {
			b.WriteString(fs.text(pos, e.Pos()))
			b.WriteString(fs.render(e))
			pos = e.End()
		}
		b.WriteString(fs.text(pos, n.Colon+1))
		pos = n.Colon + 1
		for _, s := range n.Body {
			b.WriteString(fs.text(pos, s.Pos()))
			b.WriteString(fs.listStmt(s))
			pos = s.End()
		}
		b.WriteString(fs.text(pos, n.End()))
		return b.String(), true

	case *ast.ForStmt:
		fs.forced[n.Body] = true
		return "", false

	case *ast.RangeStmt:
		fs.forced[n.Body] = true
		return fs.rangeStmt(n, "")

	case *ast.LabeledStmt:
		label, before := n.Label.Name+": ", ""
		if o := fs.info.Defs[n.Label]; fs.jumped[o] {
			// the statement becomes a block, which nothing can jump into
			before, label = label, ""
			if fs.left[o] {
				label = "vSim_" + n.Label.Name + ": "
			}
			switch s := n.Stmt.(type) {
			case *ast.SelectStmt:
				fs.renamed[o] = true
			case *ast.RangeStmt:
				_, ch := isChan(fs.typ(s.X))
				_, tp := fs.typ(s.X).(*types.TypeParam)
				fs.renamed[o] = ch || isMap(fs.typ(s.X)) && !tp
			}
		}
		switch s := n.Stmt.(type) {
		case *ast.SelectStmt:
			return before + fs.selectStmt(s, label), true
		case *ast.RangeStmt:
			fs.forced[s.Body] = true
			if t, ok := fs.rangeStmt(s, label); ok {
				return before + t, true
			}
		}
		return "", false

	case *ast.BranchStmt:
		if n.Label != nil && n.Tok != token.GOTO && fs.renamed[fs.info.Uses[n.Label]] {
			return n.Tok.String() + " vSim_" + n.Label.Name, true
		}

	case *ast.SelectStmt:
		return fs.selectStmt(n, ""), true

	case *ast.GoStmt:
		return fs.goStmt(n), true

	case *ast.SendStmt:
		return "vSim_.S(" + fs.render(n.Chan) + ").Send(" + fs.render(n.Value) + ")", true

	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			return "vSim_.Recv(" + fs.render(n.X) + ")", true
		}

	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			if u := recvExpr(n.Values[0]); u != nil {
				return fs.text(n.Pos(), n.Values[0].Pos()) + "vSim_.Recv2(" + fs.render(u.X) + ")", true
			}
		}

	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if u := recvExpr(n.Rhs[0]); u != nil {
				return fs.renderRange(n.Pos(), n.Rhs[0].Pos(), n.Lhs[0], n.Lhs[1]) + "vSim_.Recv2(" + fs.render(u.X) + ")", true
			}
		}
		if n.Tok == token.DEFINE || len(n.Lhs) != 1 || len(n.Rhs) != 1 {
			for _, l := range n.Lhs {
				if ix, ok := ast.Unparen(l).(*ast.IndexExpr); ok {
					fs.forced[ix] = true
				}
			}
			return "", false
		}
		l := n.Lhs[0]
		if ix, ok := ast.Unparen(l).(*ast.IndexExpr); ok && isMap(fs.typ(ix.X)) {
			fs.forced[ix] = true
			return "", false
		}
		if !fs.shared(l) {
			return "", false
		}
		if n.Tok == token.ASSIGN {
			return "vSim_.P(&(" + fs.render(l) + ")).Set(" + fs.render(n.Rhs[0]) + ")", true
		}
		if pure(l) {
			op := strings.TrimSuffix(n.Tok.String(), "=")
			lt := fs.render(l)
			return "vSim_.P(&(" + lt + ")).Set((" + lt + ") " + op + " (" + fs.render(n.Rhs[0]) + "))", true
		}

	case *ast.IncDecStmt:
		if ix, ok := ast.Unparen(n.X).(*ast.IndexExpr); ok && isMap(fs.typ(ix.X)) {
			fs.forced[ix] = true
			return "", false
		}
		if fs.shared(n.X) && pure(n.X) {
			lt := fs.render(n.X)
			return "vSim_.P(&(" + lt + ")).Set((" + lt + ") " + n.Tok.String()[:1] + " 1)", true
		}

	case *ast.IndexExpr:
		if !fs.forced[n] && isMap(fs.typ(n.X)) {
			if _, ok := fs.typ(n.X).(*types.TypeParam); !ok {
				return "vSim_.MR(" + fs.render(n.X) + ")" + fs.renderRange(n.X.End(), n.End(), n.Index), true
			}
		}

	case *ast.CallExpr:
		if sel, ok := n.Fun.(*ast.SelectorExpr); ok && len(n.Args) == 0 {
			if f, ok := fs.info.Uses[sel.Sel].(*types.Func); ok {
				switch f.FullName() {
				case "(reflect.Value).MapKeys":
					return "vSim_.MapKeys(" + fs.render(sel.X) + ")", true
				case "(reflect.Value).MapRange":
					return "vSim_.MapRange(" + fs.render(sel.X) + ")", true
				}
			}
		}
		switch fs.builtin(n.Fun) {
		case "close":
			return "vSim_.Close(" + fs.render(n.Args[0]) + ")", true
		case "len":
			if c, ok := isChan(fs.typ(n.Args[0])); ok {
				if c.Dir() == types.SendOnly {
					return "vSim_.LenS(" + fs.render(n.Args[0]) + ")", true
				}
				return "vSim_.Len(" + fs.render(n.Args[0]) + ")", true
			}
		}
	}
	return "", false
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (fs *fileState) body(b *ast.BlockStmt, first string) string {
	t := fs.render(b)
	return "{ " + first + t[1:]
}

func (fs *fileState) rangeStmt(n *ast.RangeStmt, label string) (string, bool) {
	t := fs.typ(n.X)
	if _, ok := isChan(t); ok {
		r, v, ok := fs.name("r"), fs.name("v"), fs.name("ok")
		x := fs.render(n.X)
		if n.Tok == token.DEFINE && !isBlank(n.Key) {
			v = n.Key.(*ast.Ident).Name
		}
		if isBlank(n.Key) {
			return fmt.Sprintf("{ %s := %s; %sfor _, %s := vSim_.Recv2(%s); %s; _, %s = vSim_.Recv2(%s) %s}", r, x, label, ok, r, ok, ok, r, fs.render(n.Body)), true
		}
		if n.Tok == token.DEFINE {
			return fmt.Sprintf("{ %s := %s; %sfor %s, %s := vSim_.Recv2(%s); %s; %s, %s = vSim_.Recv2(%s) %s}", r, x, label, v, ok, r, ok, v, ok, r, fs.render(n.Body)), true
		}
		first := fmt.Sprintf("%s, %s := vSim_.Recv2(%s); if !%s { break }; %s = %s;", v, ok, r, ok, fs.render(n.Key), v)
		return fmt.Sprintf("{ %s := %s; %sfor %s}", r, x, label, fs.body(n.Body, first)), true
	}
	if isMap(t) {
		if _, ok := t.(*types.TypeParam); ok {
			return "", false
		}
		it, ok := fs.name("it"), fs.name("ok")
		x := fs.render(n.X)
		if n.Tok == token.DEFINE || isBlank(n.Key) && isBlank(n.Value) {
			k, v := "_", "_"
			if !isBlank(n.Key) {
				k = n.Key.(*ast.Ident).Name
			}
			if !isBlank(n.Value) {
				v = n.Value.(*ast.Ident).Name
			}
			return fmt.Sprintf("{ %s := vSim_.MapIter(%s); %sfor %s, %s, %s := %s.Next(); %s; %s, %s, %s = %s.Next() %s}",
				it, x, label, k, v, ok, it, ok, k, v, ok, it, fs.render(n.Body)), true
		}
		k, v := fs.name("k"), fs.name("v")
		first := fmt.Sprintf("%s, %s, %s := %s.Next(); if !%s { break }; ", k, v, ok, it, ok)
		if !isBlank(n.Key) {
			first += fs.render(n.Key) + " = " + k + "; "
		} else {
			first += "_ = " + k + "; "
		}
		if !isBlank(n.Value) {
			first += fs.render(n.Value) + " = " + v + "; "
		} else {
			first += "_ = " + v + "; "
		}
		return fmt.Sprintf("{ %s := vSim_.MapIter(%s); %sfor %s}", it, x, label, fs.body(n.Body, first)), true
	}
	return "", false
}

func (fs *fileState) selectStmt(n *ast.SelectStmt, label string) string {
	var pre, arms strings.Builder
	var args []string
	hasDef := false
	for _, c := range n.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			hasDef = true
		}
	}
	if len(n.Body.List) == 0 {
		return "{ vSim_.BlockForever(); select {} }"
	}
	comm := 0
	for i, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		bind := ""
		arm := ""
		if cc.Comm == nil {
			arm = "default:"
		} else {
			t := fs.name("c")
			switch s := cc.Comm.(type) {
			case *ast.SendStmt:
				fmt.Fprintf(&pre, "%s := vSim_.S(%s).Case(%s); ", t, fs.render(s.Chan), fs.render(s.Value))
			case *ast.ExprStmt:
				fmt.Fprintf(&pre, "%s := vSim_.RecvCase(%s); ", t, fs.render(recvExpr(s.X).X))
			case *ast.AssignStmt:
				fmt.Fprintf(&pre, "%s := vSim_.RecvCase(%s); ", t, fs.render(recvExpr(s.Rhs[0]).X))
				call := t + ".V()"
				if len(s.Lhs) == 2 {
					call = t + ".V2()"
				}
				var l []string
				for _, e := range s.Lhs {
					if ix, ok := ast.Unparen(e).(*ast.IndexExpr); ok {
						fs.forced[ix] = true
					}
					l = append(l, fs.render(e))
				}
				bind = strings.Join(l, ", ") + " " + s.Tok.String() + " " + call + "; "
			}
			args = append(args, t)
			arm = fmt.Sprintf("case %d:", comm)
			comm++
			if !hasDef && i == len(n.Body.List)-1 {
				arm = "default:"
			}
		}
		arms.WriteString(arm + " " + bind)
		pos := cc.Colon + 1
		for _, s := range cc.Body {
			arms.WriteString(fs.text(pos, s.Pos()))
			arms.WriteString(fs.listStmt(s))
			pos = s.End()
		}
		arms.WriteString(fs.text(pos, cc.End()))
		arms.WriteString("\n")
	}
	sel := fmt.Sprintf("vSim_.Select(%v", hasDef)
	for _, a := range args {
		sel += ", " + a
	}
	sel += ")"
	return "{ " + pre.String() + label + "switch " + sel + " { " + arms.String() + "} }"
}

func (fs *fileState) goStmt(n *ast.GoStmt) string {
	c := n.Call
	name := strings.Join(strings.Fields(fs.text(c.Fun.Pos(), c.Fun.End())), " ")
	if _, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok {
		p := fs.fset.Position(n.Pos())
		name = fmt.Sprintf("func@%s:%d", filepath.Base(p.Filename), p.Line)
	}
	var pre strings.Builder
	fun := fs.name("f")
	bi := fs.builtin(c.Fun)
	if bi == "" {
		fmt.Fprintf(&pre, "%s := %s; ", fun, fs.render(c.Fun))
	}
	var args []string
	if len(c.Args) == 1 {
		if tup, ok := fs.typ(c.Args[0]).(*types.Tuple); ok {
			for i := 0; i < tup.Len(); i++ {
				args = append(args, fs.name("a"))
			}
			fmt.Fprintf(&pre, "%s := %s; ", strings.Join(args, ", "), fs.render(c.Args[0]))
		}
	}
	if args == nil {
		sig, _ := under(fs.typ(c.Fun)).(*types.Signature)
		for i, a := range c.Args {
			tv := fs.info.Types[a]
			if tv.IsNil() || tv.Value != nil || tv.IsType() {
				args = append(args, fs.render(a))
				continue
			}
			t := fs.name("a")
			_ = sig
			fmt.Fprintf(&pre, "%s := %s; ", t, fs.render(a))
			if i == len(c.Args)-1 && c.Ellipsis.IsValid() {
				args = append(args, t+"...")
			} else {
				args = append(args, t)
			}
		}
	}
	call := fun + "(" + strings.Join(args, ", ") + ")"
	switch bi {
	case "":
	case "close":
		call = "vSim_.Close(" + strings.Join(args, ", ") + ")"
	default:
		call = bi + "(" + strings.Join(args, ", ") + ")"
	}
	return "{ " + pre.String() + "vSim_.GoLib(" + strconv.Quote(name) + ", func() { " + call + " }) }"
}
