// instrument copies the non-test Go files of an avformat tree and rewrites the copy so that every source of
// nondeterminism the properties depend on is decided by the simulator (package verifsimrt): statement-level yield
// points and split read-modify-writes (thread interleaving), map iteration order, sync.Pool recycling, locks,
// wall clock, math/rand, file system, goroutine creation and console output. It edits text at AST positions and
// never moves a line, so positions in panics are those of the original file. The original tree is only read.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var (
	src   = flag.String("src", "", "avformat tree")
	dst   = flag.String("dst", "", "scratch directory for the copy")
	rt    = flag.String("rt", "", "directory of the simulator runtime (package verifsimrt)")
	level = flag.Int("level", 0, "0: everything; 1: no split read-modify-writes; 2: also real os/time/rand; 3: yield points only; 4: plain copy")
)

const rtName = "verifsimrt"

type edit struct {
	off  int
	del  int
	text string
	seq  int
}

type file struct {
	path  string // relative
	src   []byte
	ast   *ast.File
	edits []edit
}

func (f *file) ins(off int, text string) { f.edits = append(f.edits, edit{off, 0, text, len(f.edits)}) }
func (f *file) rep(off, del int, text string) {
	f.edits = append(f.edits, edit{off, del, text, len(f.edits)})
}

func (f *file) apply() []byte {
	sort.SliceStable(f.edits, func(i, j int) bool {
		if f.edits[i].off != f.edits[j].off {
			return f.edits[i].off < f.edits[j].off
		}
		return f.edits[i].seq < f.edits[j].seq
	})
	var b bytes.Buffer
	pos := 0
	for _, e := range f.edits {
		if e.off < pos {
			die("overlapping edits in %s at %d", f.path, e.off)
		}
		b.Write(f.src[pos:e.off])
		b.WriteString(e.text)
		pos = e.off + e.del
	}
	b.Write(f.src[pos:])
	return b.Bytes()
}

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+format+"\n", a...)
	os.Exit(3)
}

func check(err error) {
	if err != nil {
		die("%v", err)
	}
}

func main() {
	flag.Parse()
	modPath := moduleOf(filepath.Join(*src, "go.mod"))

	// collect packages
	pkgs := map[string][]*file{} // import path -> files
	fset := token.NewFileSet()
	check(filepath.Walk(*src, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*src, p)
		if info.IsDir() {
			n := info.Name()
			if rel != "." && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		if ok, err := build.Default.MatchFile(filepath.Dir(p), filepath.Base(p)); err != nil || !ok {
			return nil
		}
		data, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		a, err := parser.ParseFile(fset, p, data, parser.ParseComments)
		if err != nil {
			return err
		}
		if a.Name.Name == "main" {
			return nil
		}
		ip := modPath
		if d := filepath.Dir(rel); d != "." {
			ip = modPath + "/" + filepath.ToSlash(d)
		}
		pkgs[ip] = append(pkgs[ip], &file{path: rel, src: data, ast: a})
		return nil
	}))
	if len(pkgs) == 0 {
		die("no packages in %s", *src)
	}

	if *level < 4 {
		imp := newImporter(fset, pkgs)
		for _, ip := range sortedKeys(pkgs) {
			imp.load(ip)
		}
		mut := modified(imp, pkgs)
		for _, ip := range sortedKeys(pkgs) {
			for _, f := range pkgs[ip] {
				in := &instr{fset: fset, f: f, mut: mut, info: imp.infos[ip], rtPath: modPath + "/" + rtName}
				in.run()
			}
		}
	}

	for _, fs := range pkgs {
		for _, f := range fs {
			p := filepath.Join(*dst, f.path)
			check(os.MkdirAll(filepath.Dir(p), 0755))
			check(os.WriteFile(p, f.apply(), 0644))
		}
	}
	for _, n := range []string{"go.mod", "go.sum"} {
		if data, err := os.ReadFile(filepath.Join(*src, n)); err == nil {
			check(os.WriteFile(filepath.Join(*dst, n), data, 0644))
		}
	}
	rtDst := filepath.Join(*dst, rtName)
	check(os.MkdirAll(rtDst, 0755))
	ents, err := os.ReadDir(*rt)
	check(err)
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") {
			data, err := os.ReadFile(filepath.Join(*rt, e.Name()))
			check(err)
			check(os.WriteFile(filepath.Join(rtDst, e.Name()), data, 0644))
		}
	}
	check(os.WriteFile(filepath.Join(rtDst, "level.go"), []byte(fmt.Sprintf("package %s\n\n// Level of instrumentation this copy was built with.\nconst Level = %d\n", rtName, *level)), 0644))
}

func moduleOf(p string) string {
	data, err := os.ReadFile(p)
	check(err)
	for _, l := range strings.Split(string(data), "\n") {
		if f := strings.Fields(l); len(f) >= 2 && f[0] == "module" {
			return strings.Trim(f[1], `"`)
		}
	}
	die("no module line in %s", p)
	return ""
}

func sortedKeys(m map[string][]*file) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// ---- type checking ----

type imports struct {
	fset  *token.FileSet
	src   map[string][]*file
	done  map[string]*types.Package
	infos map[string]*types.Info
	std   types.Importer
}

func newImporter(fset *token.FileSet, pkgs map[string][]*file) *imports {
	need := map[string]bool{}
	for _, fs := range pkgs {
		for _, f := range fs {
			for _, s := range f.ast.Imports {
				p, _ := strconv.Unquote(s.Path.Value)
				if pkgs[p] == nil && p != "unsafe" && p != "C" {
					need[p] = true
				}
			}
		}
	}
	exports := map[string]string{}
	if len(need) > 0 {
		args := []string{"list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}"}
		for p := range need {
			args = append(args, p)
		}
		sort.Strings(args[5:])
		cmd := exec.Command("go", args...)
		cmd.Dir = *src
		cmd.Stderr = os.Stderr
		out, err := cmd.Output()
		check(err)
		for _, l := range strings.Split(string(out), "\n") {
			if f := strings.Split(l, "\t"); len(f) == 2 && f[1] != "" {
				exports[f[0]] = f[1]
			}
		}
	}
	i := &imports{fset: fset, src: pkgs, done: map[string]*types.Package{}, infos: map[string]*types.Info{}}
	i.std = importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	return i
}

func (i *imports) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if i.src[path] != nil {
		i.load(path)
		return i.done[path], nil
	}
	return i.std.Import(path)
}

func (i *imports) load(path string) {
	if i.done[path] != nil {
		return
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: i, Error: func(err error) {}, GoVersion: "go1.23"}
	var files []*ast.File
	for _, f := range i.src[path] {
		files = append(files, f.ast)
	}
	p, err := conf.Check(path, i.fset, files, info)
	if err != nil && p == nil {
		die("type checking %s: %v", path, err)
	}
	i.done[path] = p
	i.infos[path] = info
}

// ---- rewriting ----

type instr struct {
	fset   *token.FileSet
	f      *file
	info   *types.Info
	rtPath string
	mut    map[*types.Var]bool
	used   bool
	keep   map[string]string // import name -> keep-alive declaration
	n      int
	comm   map[ast.Node]bool // communications of select statements
}

func (in *instr) off(p token.Pos) int { return in.fset.Position(p).Offset }
func (in *instr) text(n ast.Node) string {
	return string(in.f.src[in.off(n.Pos()):in.off(n.End())])
}

func (in *instr) run() {
	in.keep = map[string]string{}
	// Inspect visits parents before children; edits at equal offsets keep their order of creation, so an outer
	// insertion before a node precedes an inner one, and closing insertions are emitted after visiting (post order).
	in.visit(in.f.ast)
	if !in.used {
		return
	}
	in.f.ins(in.off(in.f.ast.Name.End()), "; import "+rtName+" "+strconv.Quote(in.rtPath))
	var names []string
	for k := range in.keep {
		names = append(names, k)
	}
	sort.Strings(names)
	tail := "\n"
	for _, k := range names {
		tail += "var _ " + in.keep[k] + "\n"
	}
	tail += "var _ = " + rtName + ".Y\n"
	in.f.ins(len(in.f.src), tail)
}

func (in *instr) visit(root ast.Node) {
	var stack []ast.Node
	ast.Inspect(root, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		if in.comm[n] { // rewritten as a whole with its select statement
			return false
		}
		stack = append(stack, n)
		switch x := n.(type) {
		case *ast.BlockStmt:
			in.stmts(x.List)
		case *ast.CaseClause:
			in.stmts(x.Body)
		case *ast.CommClause:
			in.stmts(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				in.used = true
				in.f.ins(in.off(x.Body.Lbrace)+1, rtName+".Y();")
			}
		case *ast.RangeStmt:
			in.rangeStmt(x)
		case *ast.IncDecStmt:
			in.wrote(x, []ast.Expr{x.X}, stack)
			in.incDec(x)
		case *ast.ExprStmt:
			if c, ok := x.X.(*ast.CallExpr); ok && len(c.Args) == 2 {
				if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "delete" && in.isMap(c.Args[0]) {
					in.wrote(x, []ast.Expr{&ast.IndexExpr{X: c.Args[0]}}, stack)
				}
			}
		case *ast.AssignStmt:
			in.wrote(x, x.Lhs, stack) // first: its insertion follows the others at the end of the statement
			in.assign(x, stack)
		case *ast.Ident:
			in.reads(x, stack)
		case *ast.IndexExpr:
			if in.isMap(x.X) && *level == 0 {
				in.used = true
				in.f.ins(in.off(x.X.Pos()), rtName+".MR(")
				in.post(x.X, ")")
			}
		case *ast.CallExpr:
			in.call(x)
		case *ast.SelectorExpr:
			in.selector(x)
			in.reads(x, stack)
		case *ast.GoStmt:
			in.goStmt(x)
		case *ast.SendStmt:
			in.send(x)
		case *ast.UnaryExpr:
			in.recv(x, stack)
		case *ast.SelectStmt:
			in.selectStmt(x)
		}
		return true
	})
}

func (in *instr) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt:
			continue
		case *ast.CaseClause, *ast.CommClause: // body of a switch
			continue
		}
		in.used = true
		y := ".Y();"
		if in.mentions(s) {
			y = ".YG();"
		}
		in.f.ins(in.off(s.Pos()), rtName+y)
	}
}

// pkgVar is the package-level variable of the tree an expression is, or is part of.
func pkgVar(info *types.Info, tree map[*types.Package]bool, e ast.Expr) *types.Var {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.SelectorExpr:
			if v := asPkgVar(info, tree, x.Sel); v != nil {
				return v
			}
			e = x.X
		case *ast.Ident:
			return asPkgVar(info, tree, x)
		default:
			return nil
		}
	}
}

func asPkgVar(info *types.Info, tree map[*types.Package]bool, id *ast.Ident) *types.Var {
	v, ok := info.Uses[id].(*types.Var)
	if !ok || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() || !tree[v.Pkg()] {
		return nil
	}
	return v
}

// modified collects the package-level variables some function assigns to, takes the address of or calls a method on.
func modified(imp *imports, pkgs map[string][]*file) map[*types.Var]bool {
	tree := map[*types.Package]bool{}
	for _, p := range imp.done {
		tree[p] = true
	}
	res := map[*types.Var]bool{}
	for ip, fs := range pkgs {
		info := imp.infos[ip]
		mark := func(e ast.Expr) {
			if v := pkgVar(info, tree, e); v != nil {
				res[v] = true
			}
		}
		for _, f := range fs {
			ast.Inspect(f.ast, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.AssignStmt:
					for _, l := range x.Lhs {
						mark(l)
					}
				case *ast.IncDecStmt:
					mark(x.X)
				case *ast.UnaryExpr:
					if x.Op == token.AND {
						mark(x.X)
					}
				case *ast.CallExpr:
					if s, ok := x.Fun.(*ast.SelectorExpr); ok && info.Selections[s] != nil && !types.IsInterface(info.Selections[s].Recv()) {
						mark(s.X)
					}
					if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) > 0 {
						if b, ok := info.Uses[id].(*types.Builtin); ok && (b.Name() == "delete" || b.Name() == "copy" || b.Name() == "append" || b.Name() == "clear") {
							mark(x.Args[0])
						}
					}
				}
				return true
			})
		}
	}
	return res
}

// mentions reports whether what a statement itself evaluates (not the statements inside it) names modified
// package-level state.
func (in *instr) mentions(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.Ident:
			if v, ok := in.info.Uses[x].(*types.Var); ok && in.mut[v] {
				found = true
			}
		}
		return !found
	})
	return found
}

func (in *instr) typeOf(e ast.Expr) types.Type {
	if tv, ok := in.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := in.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := in.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func (in *instr) rangeStmt(x *ast.RangeStmt) {
	if *level >= 3 {
		return
	}
	t := in.typeOf(x.X)
	if t == nil {
		return
	}
	if _, ok := t.Underlying().(*types.Chan); ok && *level <= 1 {
		in.rangeChan(x)
		return
	}
	if _, ok := t.Underlying().(*types.Map); !ok {
		if len(x.Body.List) == 0 {
			in.used = true
			in.f.ins(in.off(x.Body.Lbrace)+1, rtName+".Y();")
		}
		return
	}
	in.used = true
	in.n++
	kv := fmt.Sprintf("verifkv%d", in.n)
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	// for k, v := range m {   ->   for _, kv := range verifsimrt.MapEntries(m) { if !kv.Live() {continue}; k, v := kv.K, kv.V;
	start := in.off(x.For)
	xo := in.off(x.X.Pos())
	var lhs, rhs []string
	if !blank(x.Key) {
		lhs, rhs = append(lhs, in.text(x.Key)), append(rhs, kv+".K")
	}
	if !blank(x.Value) {
		lhs, rhs = append(lhs, in.text(x.Value)), append(rhs, kv+".V")
	}
	body := "if !" + kv + ".Live() { continue };"
	if len(lhs) > 0 {
		op := " = "
		if x.Tok == token.DEFINE {
			op = " := "
		}
		body += strings.Join(lhs, ", ") + op + strings.Join(rhs, ", ") + ";"
	}
	in.f.rep(start, xo-start, "for _, "+kv+" := range "+rtName+".MapEntries(")
	in.f.ins(in.off(x.X.End()), ")")
	in.f.ins(in.off(x.Body.Lbrace)+1, body)
}

func hasCall(e ast.Node) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			found = true
		case *ast.UnaryExpr:
			if n.(*ast.UnaryExpr).Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

// shared reports whether the lvalue may denote memory reachable by another thread: a field, an element, a
// dereference or a package-level variable.
func (in *instr) shared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return in.shared(x.X)
	case *ast.SelectorExpr:
		return true
	case *ast.IndexExpr:
		return true
	case *ast.StarExpr:
		return true
	case *ast.Ident:
		o := in.info.Uses[x]
		v, ok := o.(*types.Var)
		return ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
	}
	return false
}

func (in *instr) incDec(x *ast.IncDecStmt) {
	if *level >= 1 || !in.shared(x.X) || hasCall(x.X) {
		return
	}
	op := "+"
	if x.Tok == token.DEC {
		op = "-"
	}
	in.used = true
	// x.f++  ->  x.f = Mid(x.f) + 1. The operand text is repeated, so nothing inside it may carry edits of its own
	// (selectors of rewritten packages do not occur in lvalues).
	in.f.rep(in.off(x.TokPos), 2, " = "+rtName+".Mid("+in.text(x.X)+") "+op+" 1")
}

var opOf = map[token.Token]string{token.ADD_ASSIGN: "+", token.SUB_ASSIGN: "-", token.MUL_ASSIGN: "*", token.QUO_ASSIGN: "/", token.REM_ASSIGN: "%", token.AND_ASSIGN: "&", token.OR_ASSIGN: "|", token.XOR_ASSIGN: "^", token.SHL_ASSIGN: "<<", token.SHR_ASSIGN: ">>", token.AND_NOT_ASSIGN: "&^"}

func (in *instr) assign(x *ast.AssignStmt, stack []ast.Node) {
	if *level >= 1 || len(x.Lhs) != 1 || len(x.Rhs) != 1 || x.Tok == token.DEFINE {
		return
	}
	l, r := x.Lhs[0], x.Rhs[0]
	if !in.shared(l) || hasCall(l) {
		return
	}
	if x.Tok != token.ASSIGN {
		op := opOf[x.Tok]
		if op == "" {
			return
		}
		in.used = true
		in.f.rep(in.off(x.TokPos), len(x.Tok.String()), "= "+rtName+".Mid("+in.text(l)+") "+op+" (")
		in.f.ins(in.off(r.End()), ")")
		return
	}
	tv, ok := in.info.Types[r]
	lt := in.typeOf(l)
	if !ok || tv.Value != nil || tv.Type == nil || lt == nil || tv.IsNil() {
		return
	}
	if b, isBasic := tv.Type.(*types.Basic); isBasic && b.Info()&types.IsUntyped != 0 {
		return
	}
	if !types.Identical(tv.Type, lt) {
		return
	}
	if _, isTuple := tv.Type.(*types.Tuple); isTuple {
		return
	}
	// composite literals, function literals and calls read no shared memory right before the store
	switch r.(type) {
	case *ast.FuncLit, *ast.CompositeLit:
		return
	}
	in.used = true
	in.f.ins(in.off(r.Pos()), rtName+".Mid(")
	in.post(r, ")")
}

// post inserts text directly after node n, after every insertion its children make at the same offset. Edits are
// ordered by creation, so the closing parenthesis gets a late sequence number.
func (in *instr) post(n ast.Node, text string) {
	in.f.edits = append(in.f.edits, edit{in.off(n.End()), 0, text, 1<<30 - len(in.f.edits)})
}

func (in *instr) pkgOf(e ast.Expr) (string, string) {
	id, ok := e.(*ast.Ident)
	if !ok {
		return "", ""
	}
	pn, ok := in.info.Uses[id].(*types.PkgName)
	if !ok {
		return "", ""
	}
	return pn.Imported().Path(), id.Name
}

func (in *instr) call(x *ast.CallExpr) {
	switch fn := x.Fun.(type) {
	case *ast.Ident:
		if b, ok := in.info.Uses[fn].(*types.Builtin); ok && (b.Name() == "println" || b.Name() == "print") {
			in.used = true
			in.f.rep(in.off(fn.Pos()), len(fn.Name), rtName+".Print")
		}
		in.makeChan(x, fn)
	case *ast.SelectorExpr:
		if *level >= 1 {
			return
		}
		path, _ := in.pkgOf(fn.X)
		if path == "" {
			if s := in.info.Selections[fn]; s != nil && s.Obj().Pkg() != nil {
				path = s.Obj().Pkg().Path()
			}
		}
		if path != "sync/atomic" {
			return
		}
		tv, ok := in.info.Types[x]
		if !ok || tv.Type == nil || tv.IsVoid() {
			return
		}
		if _, isTuple := tv.Type.(*types.Tuple); isTuple {
			return
		}
		in.used = true
		in.f.ins(in.off(x.Pos()), rtName+".Mid(")
		in.post(x, ")")
	}
}

var rewrites = map[string]map[string]string{
	"sync": {"Pool": "Pool", "Mutex": "Mutex", "RWMutex": "RWMutex", "Once": "Once", "WaitGroup": "WaitGroup",
		"Map": "Map", "Cond": "Cond", "NewCond": "NewCond", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues"},
	"maps": {"Keys": "MapsKeys", "Values": "MapsValues", "All": "MapsAll"},
	"log": {"Print": "LogPrint", "Printf": "LogPrintf", "Println": "LogPrint", "Panic": "LogPanic", "Panicf": "LogPanicf", "Panicln": "LogPanic",
		"Fatal": "LogFatal", "Fatalf": "LogFatalf", "Fatalln": "LogFatal"},
	"log/slog":  {"Debug": "Slog", "Info": "Slog", "Warn": "Slog", "Error": "Slog"},
	"io/ioutil": {"WriteFile": "WriteFile", "ReadFile": "ReadFile"},
	"time": {"Now": "TimeNow", "Since": "TimeSince", "Until": "TimeUntil", "Sleep": "TimeSleep", "AfterFunc": "TimeAfterFunc",
		"NewTimer": "TimeNewTimer", "After": "TimeAfter", "Tick": "TimeTick", "NewTicker": "TimeNewTicker", "Timer": "Timer", "Ticker": "Ticker"},
	"os": {"OpenFile": "OpenFile", "Create": "Create", "Open": "Open", "Remove": "Remove", "Truncate": "Truncate", "File": "File",
		"WriteFile": "WriteFile", "ReadFile": "ReadFile", "Rename": "Rename", "MkdirAll": "MkdirAll", "Mkdir": "MkdirAll", "Stat": "Stat", "RemoveAll": "RemoveAll",
		"Stdout": "Stdout", "Stderr": "Stderr", "Exit": "Exit"},
	"fmt":         {"Printf": "Printf", "Println": "Println", "Print": "Printn"},
	"crypto/rand": {"Read": "CryptoRead", "Reader": "CryptoReader"},
	"math/rand": {"NewSource": "RandNewSource", "Seed": "RandSeed", "Int": "RandInt", "Intn": "RandIntn", "Int31": "RandInt31", "Int31n": "RandInt31n", "Int63": "RandInt63", "Int63n": "RandInt63n",
		"Uint32": "RandUint32", "Uint64": "RandUint64", "Float32": "RandFloat32", "Float64": "RandFloat64", "Perm": "RandPerm", "Shuffle": "RandShuffle", "Read": "RandRead"},
	"math/rand/v2": {"N": "RandN", "Uint64N": "RandUint64N", "Uint32N": "RandUint32N", "UintN": "RandUintN", "Uint": "RandUint", "Int": "RandInt", "IntN": "RandIntn", "Int32": "RandInt31", "Int32N": "RandInt31n", "Int64": "RandInt63", "Int64N": "RandInt63n",
		"Uint32": "RandUint32", "Uint64": "RandUint64", "Float32": "RandFloat32", "Float64": "RandFloat64", "Perm": "RandPerm", "Shuffle": "RandShuffle"},
}

var keepDecl = map[string]string{"sync": ".Locker", "time": ".Duration", "os": ".FileMode", "fmt": ".Stringer", "math/rand": ".Source", "math/rand/v2": ".Source", "log": ".Logger", "log/slog": ".Logger"}

func (in *instr) selector(x *ast.SelectorExpr) {
	path, name := in.pkgOf(x.X)
	m := rewrites[path]
	if m == nil {
		return
	}
	to := m[x.Sel.Name]
	if to == "" {
		return
	}
	if *level >= 2 && path != "fmt" && path != "sync" && path != "maps" && path != "log" && path != "log/slog" {
		return
	}
	if *level >= 3 && path == "sync" {
		return
	}
	in.used = true
	in.f.rep(in.off(x.Pos()), in.off(x.End())-in.off(x.Pos()), rtName+"."+to)
	switch path {
	case "crypto/rand":
		in.keep[name] = "= " + name + ".Reader"
	case "maps":
		in.keep[name] = "= " + name + ".Clone[map[int]int, int, int]"
	case "io/ioutil":
		in.keep[name] = "= " + name + ".Discard"
	default:
		in.keep[name] = name + keepDecl[path]
	}
}

func (in *instr) goStmt(x *ast.GoStmt) {
	if *level >= 3 {
		return
	}
	in.used = true
	// go f(a, b)  ->  verifsimrt.Go2(f)(a, b): arguments are evaluated now, the call happens in a simulated thread.
	n := len(x.Call.Args)
	if sig, ok := in.typeOf(x.Call.Fun).(*types.Signature); ok && sig.Results().Len() <= 2 && in.plainFunc(x.Call.Fun) {
		fixed := sig.Params().Len()
		name := ""
		if sig.Variadic() {
			fixed--
			name = "V"
		}
		name += strings.Repeat("R", sig.Results().Len())
		if fixed <= 3 && n >= fixed {
			end := ")("
			if fixed > 0 || name != "" {
				name = fmt.Sprintf(".Go%d%s(", fixed, name)
			} else {
				name, end = ".Go(", ""
			}
			in.f.rep(in.off(x.Go), in.off(x.Call.Pos())-in.off(x.Go), rtName+name)
			in.f.rep(in.off(x.Call.Lparen), 1, end)
			return
		}
	}
	in.f.rep(in.off(x.Go), 2, rtName+".Go(func() {")
	in.post(x.Call, "})")
}

// plainFunc: a function value, neither a builtin nor a generic function whose type arguments are inferred.
func (in *instr) plainFunc(e ast.Expr) bool {
	if tv, ok := in.info.Types[e]; !ok || !tv.IsValue() {
		return false
	}
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	id, _ := e.(*ast.Ident)
	if s, ok := e.(*ast.SelectorExpr); ok {
		id = s.Sel
	}
	if id == nil {
		return true
	}
	_, generic := in.info.Instances[id]
	return !generic
}

// ---- unsynchronised accesses (simrt/race.go) ----

func (in *instr) isMap(e ast.Expr) bool {
	if tv, ok := in.info.Types[e]; !ok || !tv.IsValue() {
		return false
	}
	t := in.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// severalWords: a value another thread can see half written.
func severalWords(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Interface:
		return true
	case *types.Basic:
		return u.Kind() == types.String
	}
	return false
}

func isPkgVar(info *types.Info, id *ast.Ident) bool {
	v, ok := info.Uses[id].(*types.Var)
	return ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
}

// located: the expression is a variable of its own, package-level or reached through a pointer.
func (in *instr) located(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return in.located(x.X)
	case *ast.Ident:
		return isPkgVar(in.info, x)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, ok := in.info.Uses[id].(*types.PkgName); ok {
				return isPkgVar(in.info, x.Sel)
			}
		}
		s := in.info.Selections[x]
		if s == nil || s.Kind() != types.FieldVal {
			return false
		}
		if t := in.typeOf(x.X); t != nil {
			if _, ok := t.Underlying().(*types.Pointer); ok {
				return true
			}
		}
		return in.located(x.X)
	}
	return false
}

// chain returns the first identifier of a.b.c, and how long the chain is.
func chain(e ast.Expr) (*ast.Ident, int) {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return chain(x.X)
	case *ast.Ident:
		return x, 1
	case *ast.SelectorExpr:
		id, n := chain(x.X)
		return id, n + 1
	}
	return nil, 0
}

// inList tells whether the innermost node of the stack is a statement of a statement list within a function.
func inList(stack []ast.Node) bool {
	if len(stack) < 2 {
		return false
	}
	s, _ := stack[len(stack)-1].(ast.Stmt)
	var list []ast.Stmt
	switch p := stack[len(stack)-2].(type) {
	case *ast.BlockStmt:
		list = p.List
	case *ast.CaseClause:
		list = p.Body
	case *ast.CommClause:
		list = p.Body
	}
	for _, l := range list {
		if l == s {
			return true
		}
	}
	return false
}

func (in *instr) wrote(st ast.Stmt, lhs []ast.Expr, stack []ast.Node) {
	if *level > 0 || !inList(stack) {
		return
	}
	plain := func(e ast.Expr) bool {
		id, n := chain(e)
		if id == nil || id.Name == "_" {
			return false
		}
		for _, l := range lhs {
			if l != e {
				if o, k := chain(l); o != nil && o.Name == id.Name && k < n {
					return false
				}
			}
		}
		a, ok := st.(*ast.AssignStmt)
		if !ok {
			return true
		}
		if a.Tok == token.DEFINE {
			return false
		}
		for _, r := range a.Rhs {
			if n > 2 && hasCall(r) {
				return false
			}
		}
		return true
	}
	for _, l := range lhs {
		if x, ok := l.(*ast.IndexExpr); ok && in.isMap(x.X) && plain(x.X) {
			in.used = true
			in.post(st, ";"+rtName+".MW("+in.text(x.X)+", "+strconv.Quote(in.text(x.X))+")")
		} else if severalWords(in.typeOf(l)) && in.located(l) && plain(l) {
			in.used = true
			in.post(st, ";"+rtName+".WW(&"+in.text(l)+", "+strconv.Quote(in.text(l))+")")
		}
	}
}

func (in *instr) reads(e ast.Expr, stack []ast.Node) {
	if *level > 0 || !severalWords(in.typeOf(e)) || !in.located(e) {
		return
	}
	if tv, ok := in.info.Types[e]; !ok || !tv.IsValue() {
		return
	}
	inFunc := false
	for _, n := range stack {
		switch n.(type) {
		case *ast.FuncDecl, *ast.FuncLit:
			inFunc = true
		}
	}
	if !inFunc {
		return
	}
	switch p := stack[len(stack)-2].(type) {
	case *ast.SelectorExpr:
		if p.Sel == e {
			return
		}
	case *ast.UnaryExpr:
		if p.Op == token.AND {
			return
		}
	case *ast.AssignStmt:
		if p.Tok != token.ASSIGN && p.Tok != token.DEFINE {
			return
		}
		for _, l := range p.Lhs {
			if l == e {
				return
			}
		}
	case *ast.IncDecStmt:
		return
	case *ast.RangeStmt:
		if p.X != e {
			return
		}
	case *ast.KeyValueExpr:
		if p.Key == e {
			return
		}
	}
	in.used = true
	in.f.ins(in.off(e.Pos()), "(*"+rtName+".RR(&")
	in.post(e, "))")
}

// ---- channels ----

func (in *instr) isChan(e ast.Expr) bool {
	t := in.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// send: ch <- v  ->  verifsimrt.SendTo(ch)(v)
func (in *instr) send(x *ast.SendStmt) {
	if *level > 1 || !in.isChan(x.Chan) {
		return
	}
	in.used = true
	in.f.ins(in.off(x.Chan.Pos()), rtName+".SendTo(")
	in.post(x.Chan, ")(")
	in.f.rep(in.off(x.Arrow), 2, "")
	in.post(x.Value, ")")
}

// recv: <-ch  ->  verifsimrt.Recv(ch), or Recv2 where the second result is wanted
func (in *instr) recv(x *ast.UnaryExpr, stack []ast.Node) {
	if x.Op != token.ARROW || *level > 1 || !in.isChan(x.X) {
		return
	}
	name := ".Recv("
	for i := len(stack) - 2; i >= 0; i-- {
		if _, ok := stack[i].(*ast.ParenExpr); ok {
			continue
		}
		switch p := stack[i].(type) {
		case *ast.AssignStmt:
			if len(p.Lhs) == 2 && len(p.Rhs) == 1 {
				name = ".Recv2("
			}
		case *ast.ValueSpec:
			if len(p.Names) == 2 && len(p.Values) == 1 {
				name = ".Recv2("
			}
		}
		break
	}
	in.used = true
	in.f.rep(in.off(x.OpPos), 2, rtName+name)
	in.post(x.X, ")")
}

// rewritten is the text of a node with the edits its parts need.
func (in *instr) rewritten(n ast.Node) string {
	g := &file{path: in.f.path, src: in.f.src, ast: in.f.ast}
	sub := &instr{fset: in.fset, f: g, info: in.info, rtPath: in.rtPath, mut: in.mut, keep: in.keep, n: in.n + 1000}
	sub.visit(n)
	in.used = in.used || sub.used
	a, b := in.off(n.Pos()), in.off(n.End())
	g.src = g.src[:b]
	all := g.apply()
	return string(all[a:])
}

// selectStmt: select { case v := <-c: ... }  ->  switch c0 := c; verifsimrt.Select(false, verifsimrt.RecvCase(c0)) { case 0: v := verifsimrt.Recv(c0); ... }
func (in *instr) selectStmt(x *ast.SelectStmt) {
	if *level > 1 {
		return
	}
	type cs struct {
		clause *ast.CommClause
		ch     ast.Expr
		kind   string
		text   func(c string) string
	}
	var cases []cs
	def := false
	for _, s := range x.Body.List {
		cl := s.(*ast.CommClause)
		if cl.Comm == nil {
			def = true
			continue
		}
		arrow := func(e ast.Expr) ast.Expr {
			for {
				p, ok := e.(*ast.ParenExpr)
				if !ok {
					break
				}
				e = p.X
			}
			if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				return u.X
			}
			return nil
		}
		var c cs
		switch m := cl.Comm.(type) {
		case *ast.SendStmt:
			v := in.rewritten(m.Value)
			c = cs{cl, m.Chan, "Send", func(c string) string { return rtName + ".SendNow(" + c + ")(" + v + ");" }}
		case *ast.ExprStmt:
			c = cs{cl, arrow(m.X), "Recv", func(c string) string { return rtName + ".RecvNow(" + c + ");" }}
		case *ast.AssignStmt:
			var l []string
			for _, e := range m.Lhs {
				l = append(l, in.rewritten(e))
			}
			f := ".RecvNow("
			if len(l) == 2 {
				f = ".Recv2Now("
			}
			tok := m.Tok.String()
			c = cs{cl, arrow(m.Rhs[0]), "Recv", func(c string) string {
				return strings.Join(l, ", ") + " " + tok + " " + rtName + f + c + ");"
			}}
		}
		if c.ch == nil || !in.isChan(c.ch) {
			return
		}
		cases = append(cases, c)
	}
	in.used = true
	if in.comm == nil {
		in.comm = map[ast.Node]bool{}
	}
	var names, exprs, calls []string
	calls = append(calls, strconv.FormatBool(def))
	for i, c := range cases {
		in.n++
		name := fmt.Sprintf("verifch%d", in.n)
		names = append(names, name)
		exprs = append(exprs, in.rewritten(c.ch))
		calls = append(calls, rtName+"."+c.kind+"Case("+name+")")
		in.comm[c.clause.Comm] = true
		a, b := in.off(c.clause.Comm.Pos()), in.off(c.clause.Comm.End())
		in.f.rep(a, b-a, strconv.Itoa(i))
		in.f.ins(in.off(c.clause.Colon)+1, c.text(name))
	}
	head := "switch "
	if len(names) > 0 {
		head += strings.Join(names, ", ") + " := " + strings.Join(exprs, ", ") + "; "
	}
	in.f.rep(in.off(x.Select), len("select"), head+rtName+".Select("+strings.Join(calls, ", ")+")")
	if !def { // keeps the statement a terminating one where it was
		in.f.ins(in.off(x.Body.Rbrace), "default: panic(0);")
	}
}

// rangeChan: for v := range c {  ->  for verifch := c; ; { v0, ok := verifsimrt.Recv2(verifch); if !ok { break }; v := v0;
func (in *instr) rangeChan(x *ast.RangeStmt) {
	in.used = true
	in.n++
	c := fmt.Sprintf("verifch%d", in.n)
	start, xo := in.off(x.For), in.off(x.X.Pos())
	in.f.rep(start, xo-start, "for "+c+" := ")
	in.f.ins(in.off(x.X.End()), "; ; ")
	body := c + "v, " + c + "ok := " + rtName + ".Recv2(" + c + "); if !" + c + "ok { break }; _ = " + c + "v;"
	if x.Key != nil {
		body += in.text(x.Key) + " " + x.Tok.String() + " " + c + "v;"
	}
	in.f.ins(in.off(x.Body.Lbrace)+1, body)
}

// makeChan: make(chan T)  ->  verifsimrt.MakeSync(make(chan T, 1))
func (in *instr) makeChan(x *ast.CallExpr, fn *ast.Ident) {
	b, ok := in.info.Uses[fn].(*types.Builtin)
	if !ok || b.Name() != "make" || *level > 1 || len(x.Args) == 0 || !in.isChan(x) {
		return
	}
	if len(x.Args) == 2 {
		tv := in.info.Types[x.Args[1]]
		if tv.Value == nil || tv.Value.String() != "0" {
			return
		}
		a, e := in.off(x.Args[1].Pos()), in.off(x.Args[1].End())
		in.f.rep(a, e-a, "1")
	} else {
		in.post(x.Args[0], ", 1")
	}
	in.used = true
	in.f.ins(in.off(x.Pos()), rtName+".MakeSync(")
	in.post(x, ")")
}
