// instr instruments the Go sources of a package main so that every source of
// nondeterminism (goroutines, channels, select, mutexes, clock, file system,
// CPU count, map order, ...) goes through the simulator runtime "simrt".
//
// usage: instr -repo DIR -out DIR -simrt DIR [-yield stmt|loop]
//
// The output directory becomes a self-contained module that is built with
// plain "go build". Only the code's meaning is used (go/types), never its
// spelling, so refactorings of the repository do not matter. A construct the
// simulator does not model makes instr fail (exit 3), never guess.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

const rtName = "verifsimrt__"

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

// packages whose package-level objects are intercepted. The value lists objects
// that are pure and stay real; objects present in simrt as <prefix>_<name> are
// rewritten; everything else is refused.
type pkgRule struct {
	prefix string
	pass   string // space separated list; "*" = everything not overridden stays real
}

var rules = map[string]pkgRule{
	"os": {"Os", "ErrNotExist ErrExist ErrPermission ErrClosed ErrInvalid ErrNoDeadline ErrDeadlineExceeded ErrProcessDone O_RDONLY O_WRONLY O_RDWR O_APPEND O_CREATE O_EXCL O_SYNC O_TRUNC " +
		"ModePerm ModeExclusive ModeDir ModeAppend ModeTemporary ModeSymlink ModeDevice ModeNamedPipe ModeSocket ModeSetuid ModeSetgid ModeCharDevice ModeSticky ModeIrregular ModeType " +
		"FileMode FileInfo DirEntry PathError LinkError SyscallError IsNotExist IsExist IsPermission IsTimeout IsPathSeparator PathSeparator PathListSeparator DevNull Signal NewSyscallError SEEK_SET SEEK_CUR SEEK_END Expand"},
	"time":             {"Time", "*"},
	"sync":             {"Sync", "Locker Map"},
	"sync/atomic":      {"Atomic", "*"},
	"runtime":          {"Runtime", "GC KeepAlive MemStats ReadMemStats GOOS GOARCH Version Error Caller Callers CallersFrames Stack FuncForPC Frame Frames Compiler MemProfileRate TypeAssertionError"},
	"runtime/debug":    {"Debug", "*"},
	"runtime/pprof":    {"Pprof", "Profile Lookup WriteHeapProfile"},
	"context":          {"Context", "Background TODO WithValue Context CancelFunc CancelCauseFunc Canceled DeadlineExceeded Cause"},
	"reflect":          {"Reflect", "*"},
	"math/rand":        {"Rand", "New NewSource Source Source64 Rand NewZipf Zipf"},
	"math/rand/v2":     {"Rand", "New NewPCG NewChaCha8 Source Rand NewZipf Zipf PCG ChaCha8"},
	"path/filepath":    {"Filepath", "Base Clean Dir Ext FromSlash IsAbs IsLocal Join Match Rel Split SplitList ToSlash VolumeName Separator ListSeparator ErrBadPattern SkipDir SkipAll WalkFunc"},
	"io/ioutil":        {"Ioutil", "Discard NopCloser ReadAll"},
	"fmt":              {"Fmt", "*"},
	"log":              {"Log", "*"},
	"hash/maphash":     {"Maphash", ""},
	"os/signal":        {"Signal", ""},
	"os/exec":          {"Exec", ""},
	"syscall":          {"Syscall", "Errno EIO ENOSPC EINTR EACCES EPERM ENOENT EEXIST EINVAL EAGAIN EXDEV EBADF O_EXCL"},
	"net":              {"Net", ""},
	"net/http":         {"Http", ""},
	"crypto/rand":      {"Crand", ""},
	"plugin":           {"Plugin", ""},
	"unique":           {"Unique", ""},
	"iter":             {"Iter", "Seq Seq2"},
	"maps":             {"Maps", "Clone Copy DeleteFunc Equal EqualFunc Insert Collect"},
	"testing/synctest": {"Synctest", ""},
}

type inst struct {
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	rtObjs  map[string]bool
	used    bool
	yield   string
	tmp     int
	curFile string
	stats   map[string]int
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	simrt := flag.String("simrt", "", "")
	yield := flag.String("yield", "stmt", "")
	flag.Parse()
	if *out == "" || *simrt == "" {
		die("missing -out/-simrt")
	}
	os.MkdirAll(filepath.Join(*out, "verifsimrt"), 0777)
	modb, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	modPath := ""
	for _, l := range strings.Split(string(modb), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "module" {
			modPath = strings.Trim(f[1], `"`)
		}
	}
	os.WriteFile(filepath.Join(*out, "go.mod"), modb, 0666)
	if b, err := os.ReadFile(filepath.Join(*repo, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(*out, "go.sum"), b, 0666)
	}
	// runtime
	rtObjs := map[string]bool{}
	ents, err := os.ReadDir(*simrt)
	if err != nil {
		die("%v", err)
	}
	fset := token.NewFileSet()
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(*simrt, e.Name()))
		if err != nil {
			die("%v", err)
		}
		os.WriteFile(filepath.Join(*out, "verifsimrt", e.Name()), b, 0666)
		af, err := parser.ParseFile(token.NewFileSet(), e.Name(), b, 0)
		if err != nil {
			die("simrt: %v", err)
		}
		for _, d := range af.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					rtObjs[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						rtObjs[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							rtObjs[n.Name] = true
						}
					}
				}
			}
		}
	}

	// sources selected by the default build context
	ctx := build.Default
	ctx.CgoEnabled = false
	bp, err := ctx.ImportDir(*repo, 0)
	if err != nil {
		die("%v", err)
	}
	if len(bp.CgoFiles) > 0 || len(bp.SFiles) > 0 || len(bp.CFiles) > 0 {
		die("cgo or assembly sources are not simulated")
	}
	if len(bp.EmbedPatterns) > 0 {
		die("go:embed is not simulated")
	}
	var files []*ast.File
	var names []string
	for _, n := range bp.GoFiles {
		p := filepath.Join(*repo, n)
		b, err := os.ReadFile(p)
		if err != nil {
			die("%v", err)
		}
		af, err := parser.ParseFile(fset, p, b, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
		names = append(names, n)
	}
	for _, imp := range bp.Imports {
		if strings.HasPrefix(imp, modPath+"/") {
			die("package %s inside the module is not simulated", imp)
		}
	}
	exp := exportData(*repo, bp.Imports)
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exp[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(f)
	})
	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Uses:       map[*ast.Ident]types.Object{},
		Defs:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances:  map[*ast.Ident]types.Instance{},
		Implicits:  map[ast.Node]types.Object{},
	}
	conf := types.Config{Importer: imp, GoVersion: ""}
	pkg, err := conf.Check(modPath, fset, files, info)
	if err != nil {
		die("type check: %v", err)
	}
	if pkg.Name() != "main" {
		die("package %s is not main", pkg.Name())
	}
	in := &inst{fset: fset, info: info, pkg: pkg, rtObjs: rtObjs, yield: *yield, stats: map[string]int{}}
	for i, af := range files {
		in.curFile = names[i]
		in.used = false
		in.file(af)
		in.fixImports(af, modPath+"/verifsimrt")
		var buf bytes.Buffer
		cfg := printer.Config{Mode: printer.SourcePos | printer.TabIndent | printer.UseSpaces, Tabwidth: 8}
		af.Comments = nil
		af.Doc = nil
		if err := cfg.Fprint(&buf, fset, af); err != nil {
			die("%s: %v", names[i], err)
		}
		if err := os.WriteFile(filepath.Join(*out, names[i]), buf.Bytes(), 0666); err != nil {
			die("%v", err)
		}
	}
	mainSrc := "package main\n\nimport rt \"" + modPath + "/verifsimrt\"\n\nfunc main() { rt.Main(verifProgMain__) }\n"
	os.WriteFile(filepath.Join(*out, "zz_verif_main.go"), []byte(mainSrc), 0666)
	var ks []string
	for k := range in.stats {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("instr: %s %d\n", k, in.stats[k])
	}
}

func exportData(repo string, imports []string) map[string]string {
	args := append([]string{"list", "-export", "-deps", "-f", "{{.ImportPath}}={{.Export}}"}, imports...)
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	var errb bytes.Buffer
	cmd.Stderr = &errb
	b, err := cmd.Output()
	if err != nil {
		die("go list -export: %v\n%s", err, errb.String())
	}
	m := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.IndexByte(l, '='); i > 0 {
			m[l[:i]] = l[i+1:]
		}
	}
	return m
}

func (in *inst) pos(n ast.Node) string { return in.fset.Position(n.Pos()).String() }

func (in *inst) rt(name string) ast.Expr {
	if !in.rtObjs[name] {
		die("internal: simrt has no %s", name)
	}
	in.used = true
	return &ast.SelectorExpr{X: ast.NewIdent(rtName), Sel: ast.NewIdent(name)}
}

func (in *inst) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: in.rt(name), Args: args}
}

func (in *inst) ident(prefix string) *ast.Ident {
	in.tmp++
	return ast.NewIdent(fmt.Sprintf("verif_%s%d__", prefix, in.tmp))
}

// ---------------------------------------------------------------- walking

var exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
var stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()

func (in *inst) file(af *ast.File) {
	for _, d := range af.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			d.Doc = nil
			in.children(d)
			if d.Recv == nil && d.Name.Name == "main" {
				d.Name = ast.NewIdent("verifProgMain__")
			}
			if d.Body != nil {
				in.funcBody(d.Body)
			}
		case *ast.GenDecl:
			d.Doc = nil
			if d.Tok == token.IMPORT {
				continue
			}
			in.children(d)
		}
	}
}

// children rewrites every Expr / Stmt reachable through the fields of n (n
// itself is not replaced).
func (in *inst) children(n ast.Node) {
	v := reflect.ValueOf(n)
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		in.field(v.Field(i))
	}
}

func (in *inst) field(f reflect.Value) {
	switch f.Kind() {
	case reflect.Interface:
		if f.IsNil() {
			return
		}
		switch x := f.Interface().(type) {
		case ast.Expr:
			if f.Type() == exprT {
				f.Set(reflect.ValueOf(in.expr(x)))
			} else {
				in.children(x)
			}
		case ast.Stmt:
			if f.Type() == stmtT {
				f.Set(reflect.ValueOf(in.stmt(x)))
			} else {
				in.children(x)
			}
		case ast.Node:
			in.children(x)
		}
	case reflect.Slice:
		if f.Type().Elem() == stmtT {
			in.stmtList(f)
			return
		}
		for i := 0; i < f.Len(); i++ {
			in.field(f.Index(i))
		}
	case reflect.Ptr:
		if f.IsNil() {
			return
		}
		switch x := f.Interface().(type) {
		case *ast.CommentGroup, *ast.Object, *ast.Scope:
			return
		case *ast.Ident:
			return
		case *ast.FuncLit:
			in.expr(x)
		case ast.Node:
			in.children(x)
		}
	}
}

func (in *inst) stmtList(f reflect.Value) {
	list := f.Interface().([]ast.Stmt)
	out := make([]ast.Stmt, 0, len(list)*2)
	for i, s := range list {
		ns := in.stmt(s)
		if in.yield == "stmt" && i > 0 {
			switch s.(type) {
			case *ast.DeclStmt, *ast.EmptyStmt, *ast.BranchStmt, *ast.CaseClause, *ast.CommClause:
			default:
				out = append(out, in.yieldStmt())
			}
		}
		out = append(out, ns)
	}
	f.Set(reflect.ValueOf(out))
}

func (in *inst) yieldStmt() ast.Stmt {
	return &ast.ExprStmt{X: in.call("Y")}
}

func (in *inst) funcBody(b *ast.BlockStmt) {
	if in.yield == "none" {
		return
	}
	b.List = append([]ast.Stmt{in.yieldStmt()}, b.List...)
}

func (in *inst) typeOf(e ast.Expr) types.Type {
	if tv, ok := in.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := in.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

// core type (through named types and type parameters)
func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	u := t.Underlying()
	if iface, ok := u.(*types.Interface); ok {
		if _, isTP := t.(*types.TypeParam); isTP {
			// single-type constraint
			var c types.Type
			for i := 0; i < iface.NumEmbeddeds(); i++ {
				if un, ok := iface.EmbeddedType(i).(*types.Union); ok {
					for j := 0; j < un.Len(); j++ {
						c = un.Term(j).Type().Underlying()
					}
				} else {
					c = iface.EmbeddedType(i).Underlying()
				}
			}
			if c != nil {
				return c
			}
		}
	}
	return u
}

func isChan(t types.Type) bool {
	_, ok := under(t).(*types.Chan)
	return ok
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (in *inst) builtin(fun ast.Expr) string {
	id, ok := unparen(fun).(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := in.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

func (in *inst) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		if o := in.info.Uses[x]; o != nil && o.Pkg() != nil && o.Pkg() != in.pkg {
			if _, isPkgName := o.(*types.PkgName); !isPkgName && o.Parent() == o.Pkg().Scope() {
				if _, ok := rules[o.Pkg().Path()]; ok {
					die("%s: dot import of %s is not simulated", in.pos(e), o.Pkg().Path())
				}
			}
		}
		if o, ok := in.info.Uses[x].(*types.Func); ok && o.Pkg() == in.pkg && o.Name() == "main" && o.Parent() == in.pkg.Scope() {
			return ast.NewIdent("verifProgMain__")
		}
		return e
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := in.info.Uses[id].(*types.PkgName); ok {
				return in.pkgSel(x, pn.Imported().Path())
			}
		}
		if sel := in.info.Selections[x]; sel != nil && sel.Kind() != types.FieldVal {
			if f, ok := sel.Obj().(*types.Func); ok && f.Pkg() != nil && f.Pkg().Path() == "reflect" {
				switch f.Name() {
				case "Recv", "Send", "TryRecv", "TrySend", "Close", "MapRange", "MapKeys", "Seq", "Seq2":
					if n, ok := deref(sel.Recv()).(*types.Named); ok && n.Obj().Name() == "Value" {
						die("%s: reflect.Value.%s is not simulated", in.pos(e), f.Name())
					}
				}
			}
			if f, ok := sel.Obj().(*types.Func); ok && f.Pkg() != nil && f.Pkg().Path() == "log" && strings.HasPrefix(f.Name(), "Fatal") {
				die("%s: log.Logger.%s is not simulated", in.pos(e), f.Name())
			}
			if f, ok := sel.Obj().(*types.Func); ok && f.Pkg() != nil && f.Pkg().Path() == "sync" && f.Name() == "Range" {
				die("%s: sync.Map.Range is not simulated", in.pos(e))
			}
		}
		in.children(x)
		return e
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			in.stats["recv"]++
			return in.call("Recv", in.expr(x.X))
		}
		in.children(x)
		return e
	case *ast.CallExpr:
		switch b := in.builtin(x.Fun); b {
		case "close":
			in.stats["close"]++
			return in.call("Close", in.expr(x.Args[0]))
		case "len", "cap":
			if isChan(in.typeOf(x.Args[0])) {
				if b == "cap" {
					break
				}
				return in.call("Len", in.expr(x.Args[0]))
			}
		case "print", "println":
			args := []ast.Expr{}
			for _, a := range x.Args {
				args = append(args, in.expr(a))
			}
			return in.call("Println", args...)
		}
		in.children(x)
		return e
	case *ast.FuncLit:
		in.children(x)
		in.funcBody(x.Body)
		return e
	case *ast.KeyValueExpr:
		// struct field keys are identifiers that must not be touched
		if _, ok := x.Key.(*ast.Ident); !ok {
			x.Key = in.expr(x.Key)
		} else {
			x.Key = in.expr(x.Key)
		}
		x.Value = in.expr(x.Value)
		return e
	}
	in.children(e)
	return e
}

func deref(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (in *inst) pkgSel(x *ast.SelectorExpr, path string) ast.Expr {
	r, ok := rules[path]
	if !ok {
		return x
	}
	name := x.Sel.Name
	if in.rtObjs[r.prefix+"_"+name] {
		in.stats["pkg "+path]++
		if _, isType := in.info.Uses[x.Sel].(*types.TypeName); isType && in.rtObjs[name] { // types keep their own name so that embedding works
			return in.rt(name)
		}
		return in.rt(r.prefix + "_" + name)
	}
	if r.pass == "*" {
		return x
	}
	for _, p := range strings.Fields(r.pass) {
		if p == name {
			return x
		}
	}
	die("%s: %s.%s is not simulated", in.pos(x), path, name)
	return nil
}

func (in *inst) block(stmts ...ast.Stmt) *ast.BlockStmt { return &ast.BlockStmt{List: stmts} }

func (in *inst) loopBody(b *ast.BlockStmt) {
	if in.yield == "none" {
		return
	}
	b.List = append([]ast.Stmt{in.yieldStmt()}, b.List...)
}

func define(lhs []ast.Expr, rhs ...ast.Expr) *ast.AssignStmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func addr(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }

func (in *inst) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.SendStmt:
		in.stats["send"]++
		ch := in.expr(x.Chan)
		v := in.expr(x.Value)
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: in.call("Sender", ch), Args: []ast.Expr{v}}}
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				in.stats["recv"]++
				for i := range x.Lhs {
					x.Lhs[i] = in.expr(x.Lhs[i])
				}
				x.Rhs[0] = in.call("Recv2", in.expr(u.X))
				return x
			}
		}
		in.children(x)
		return x
	case *ast.DeclStmt:
		in.children(x)
		return x
	case *ast.GoStmt:
		in.stats["go"]++
		c := x.Call
		if b := in.builtin(c.Fun); b != "" {
			fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: in.block(&ast.ExprStmt{X: in.expr(c)})}
			c = &ast.CallExpr{Fun: fl}
			return in.block(&ast.GoStmt{Call: &ast.CallExpr{Fun: in.call("Wrap", fl)}}, &ast.ExprStmt{X: in.call("Settle")})
		}
		fun := unparen(c.Fun)
		if in.inferred(fun) {
			// the type arguments cannot be named: evaluate the arguments here and call from a closure
			blk := &ast.BlockStmt{}
			args := []ast.Expr{}
			for _, a := range c.Args {
				if in.info.Types[a].Value != nil || in.info.Types[a].IsNil() {
					args = append(args, a)
					continue
				}
				v := in.ident("g")
				blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{in.expr(a)}})
				args = append(args, v)
			}
			label := &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(exprName(fun))}
			fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: in.block(&ast.ExprStmt{X: &ast.CallExpr{Fun: in.expr(c.Fun), Args: args, Ellipsis: c.Ellipsis}})}
			blk.List = append(blk.List, &ast.GoStmt{Call: &ast.CallExpr{Fun: in.call("Wrap0", fl, label)}}, &ast.ExprStmt{X: in.call("Settle")})
			return blk
		}
		wrap := "Wrap"
		if sig, ok := under(in.typeOf(c.Fun)).(*types.Signature); ok && !sig.Variadic() && sig.Results().Len() == 0 && sig.Params().Len() <= 8 {
			wrap += strconv.Itoa(sig.Params().Len())
		}
		in.children(c)
		label := &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(exprName(fun))}
		c.Fun = in.call(wrap, c.Fun, label)
		return in.block(&ast.GoStmt{Call: c}, &ast.ExprStmt{X: in.call("Settle")})
	case *ast.DeferStmt:
		if c, ok := in.expr(x.Call).(*ast.CallExpr); ok {
			x.Call = c
		}
		return x
	case *ast.SelectStmt:
		return in.selectStmt(x)
	case *ast.RangeStmt:
		return in.rangeStmt(x)
	case *ast.ForStmt:
		in.children(x)
		in.loopBody(x.Body)
		return x
	case *ast.BlockStmt:
		in.children(x)
		return x
	}
	in.children(s)
	return s
}

func exprName(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		return x.Sel.Name
	case *ast.FuncLit:
		return "func"
	case *ast.IndexExpr:
		return exprName(x.X)
	case *ast.CallExpr:
		if len(x.Args) > 0 {
			return exprName(x.Args[0])
		}
	}
	return "go"
}

// inferred tells whether fun is a generic function whose type arguments are inferred.
func (in *inst) inferred(fun ast.Expr) bool {
	switch x := fun.(type) {
	case *ast.IndexExpr:
		return in.isFuncIdent(x.X)
	case *ast.IndexListExpr:
		return in.isFuncIdent(x.X)
	}
	return in.isFuncIdent(fun)
}

func (in *inst) isFuncIdent(e ast.Expr) bool {
	if id := calleeIdent(e); id != nil {
		inst, ok := in.info.Instances[id]
		return ok && inst.TypeArgs != nil
	}
	return false
}

func calleeIdent(e ast.Expr) *ast.Ident {
	switch x := e.(type) {
	case *ast.Ident:
		return x
	case *ast.SelectorExpr:
		return x.Sel
	}
	return nil
}

func (in *inst) selectStmt(x *ast.SelectStmt) ast.Stmt {
	in.stats["select"]++
	var lhs, rhs []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDef := false
	idx := 0
	var caseArgs []ast.Expr
	for _, cc := range x.Body.List {
		c := cc.(*ast.CommClause)
		if c.Comm == nil {
			hasDef = true
			in.bodyOf(&c.Body)
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: nil, Body: c.Body})
			continue
		}
		var pre []ast.Stmt
		switch cm := c.Comm.(type) {
		case *ast.SendStmt:
			t := in.ident("s")
			lhs = append(lhs, t)
			rhs = append(rhs, &ast.CallExpr{Fun: in.call("SendCase", in.expr(cm.Chan)), Args: []ast.Expr{in.expr(cm.Value)}})
			caseArgs = append(caseArgs, t)
		case *ast.ExprStmt:
			u := unparen(cm.X).(*ast.UnaryExpr)
			t := in.ident("r")
			lhs = append(lhs, t)
			rhs = append(rhs, in.call("RecvCase", in.expr(u.X)))
			caseArgs = append(caseArgs, t)
		case *ast.AssignStmt:
			u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			t := in.ident("r")
			lhs = append(lhs, t)
			rhs = append(rhs, in.call("RecvCase", in.expr(u.X)))
			caseArgs = append(caseArgs, t)
			l := cm.Lhs
			for i := range l {
				l[i] = in.expr(l[i])
			}
			vals := []ast.Expr{&ast.SelectorExpr{X: t, Sel: ast.NewIdent("V")}}
			if len(l) == 2 {
				vals = append(vals, &ast.SelectorExpr{X: t, Sel: ast.NewIdent("Ok")})
			}
			pre = append(pre, &ast.AssignStmt{Lhs: l, Tok: cm.Tok, Rhs: vals})
		}
		in.bodyOf(&c.Body)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}},
			Body: append(pre, c.Body...),
		})
		idx++
	}
	if !hasDef {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: nil, Body: []ast.Stmt{
			&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"simrt: unreachable"`}}}}}})
	}
	def := "false"
	if hasDef {
		def = "true"
	}
	if len(lhs) > 0 {
		sw.Init = define(lhs, rhs...)
	}
	sw.Tag = in.call("Select", append([]ast.Expr{ast.NewIdent(def)}, caseArgs...)...)
	return sw
}

func (in *inst) bodyOf(b *[]ast.Stmt) {
	in.stmtList(reflect.ValueOf(b).Elem())
}

func (in *inst) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	t := in.typeOf(x.X)
	switch under(t).(type) {
	case *types.Chan:
		in.stats["range chan"]++
		ch := in.expr(x.X)
		in.children(x.Body)
		in.loopBody(x.Body)
		c := in.ident("c")
		if isBlank(x.Key) {
			return &ast.ForStmt{
				Init: define([]ast.Expr{c}, in.call("RangeChan0", ch)),
				Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: c, Sel: ast.NewIdent("Next")}},
				Body: x.Body,
			}
		}
		if x.Tok == token.DEFINE {
			return &ast.ForStmt{
				Init: define([]ast.Expr{c, x.Key}, in.call("RangeChan", ch)),
				Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: c, Sel: ast.NewIdent("Next")}, Args: []ast.Expr{addr(x.Key)}},
				Body: x.Body,
			}
		}
		v := in.ident("v")
		x.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{in.expr(x.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}}}, x.Body.List...)
		return &ast.ForStmt{
			Init: define([]ast.Expr{c, v}, in.call("RangeChan", ch)),
			Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: c, Sel: ast.NewIdent("Next")}, Args: []ast.Expr{addr(v)}},
			Body: x.Body,
		}
	case *types.Map:
		in.stats["range map"]++
		m := in.expr(x.X)
		in.children(x.Body)
		in.loopBody(x.Body)
		it := in.ident("m")
		nilE := ast.NewIdent("nil")
		next := func(k, v ast.Expr) ast.Expr {
			return &ast.CallExpr{Fun: &ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")}, Args: []ast.Expr{k, v}}
		}
		kb, vb := isBlank(x.Key), isBlank(x.Value)
		if x.Tok == token.DEFINE && !(kb && vb) {
			lhs := []ast.Expr{it, ast.NewIdent("_"), ast.NewIdent("_")}
			var k, v ast.Expr = nilE, nilE
			if !kb {
				lhs[1] = x.Key
				k = addr(x.Key)
			}
			if !vb {
				lhs[2] = x.Value
				v = addr(x.Value)
			}
			return &ast.ForStmt{Init: define(lhs, in.call("RangeMap", m)), Cond: next(k, v), Body: x.Body}
		}
		kv, vv := in.ident("k"), in.ident("v")
		var pre []ast.Stmt
		lhs := []ast.Expr{it, ast.NewIdent("_"), ast.NewIdent("_")}
		var k, v ast.Expr = nilE, nilE
		if !kb {
			lhs[1] = kv
			k = addr(kv)
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{in.expr(x.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv}})
		}
		if !vb {
			lhs[2] = vv
			v = addr(vv)
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{in.expr(x.Value)}, Tok: token.ASSIGN, Rhs: []ast.Expr{vv}})
		}
		x.Body.List = append(pre, x.Body.List...)
		return &ast.ForStmt{Init: define(lhs, in.call("RangeMap", m)), Cond: next(k, v), Body: x.Body}
	}
	in.children(x)
	in.loopBody(x.Body)
	return x
}

// fixImports drops imports that are no longer referenced and adds simrt.
func (in *inst) fixImports(af *ast.File, rtPath string) {
	usedPkg := map[*types.PkgName]bool{}
	ast.Inspect(af, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if pn, ok := in.info.Uses[id].(*types.PkgName); ok {
				usedPkg[pn] = true
			}
		}
		return true
	})
	var decls []ast.Decl
	for _, d := range af.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		var specs []ast.Spec
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			is.Doc, is.Comment = nil, nil
			if is.Name != nil && (is.Name.Name == "_" || is.Name.Name == ".") {
				specs = append(specs, s)
				continue
			}
			var pn *types.PkgName
			if is.Name != nil {
				pn, _ = in.info.Defs[is.Name].(*types.PkgName)
			} else {
				pn, _ = in.info.Implicits[is].(*types.PkgName)
			}
			if pn == nil || usedPkg[pn] {
				specs = append(specs, s)
			}
		}
		if len(specs) > 0 {
			gd.Specs = specs
			gd.Lparen = gd.Pos()
			decls = append(decls, gd)
		}
	}
	if in.used {
		spec := &ast.ImportSpec{Name: ast.NewIdent(rtName), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(rtPath)}}
		decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, decls...)
	}
	af.Decls = decls
}
