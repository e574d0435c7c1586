// instrument reads the current working tree of the library and writes, outside
// the tree, copies in which every source of nondeterminism goes through the
// simulator (package vsim). The copies are compiled with `go build -overlay`,
// so /repo itself is never touched and a change in what the code does is seen
// by the next check.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var (
	repo    = flag.String("repo", "/repo", "library root")
	out     = flag.String("out", "", "output directory")
	simDir  = flag.String("sim", "", "vsim sources")
	harnDir = flag.String("harness", "", "vharness sources")
)

const vs = "vsim_"

type pkgInfo struct {
	path, dir, name string
	files           []*ast.File
	names           []string
	src             map[*ast.File][]byte
	tpkg            *types.Package
	info            *types.Info
}

type loader struct {
	fset *token.FileSet
	mod  string
	pkgs map[string]*pkgInfo
	std  types.Importer
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	mod := ""
	b, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			mod = strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	fset := token.NewFileSet()
	ld := &loader{fset: fset, mod: mod, pkgs: map[string]*pkgInfo{}}
	ld.std = importer.ForCompiler(fset, "source", nil)
	var dirs []string
	filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			b := filepath.Base(p)
			if p != *repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "examples" || b == "vendor") {
				return filepath.SkipDir
			}
			if p != *repo {
				if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
					return filepath.SkipDir
				}
			}
			dirs = append(dirs, p)
		}
		return nil
	})
	sort.Strings(dirs)
	for _, d := range dirs {
		rel, _ := filepath.Rel(*repo, d)
		path := mod
		if rel != "." {
			path = mod + "/" + filepath.ToSlash(rel)
		}
		ld.load(path, d)
	}
	for _, p := range sortedPkgs(ld.pkgs) {
		if len(p.files) > 0 && p.name != "main" {
			ld.check(p)
		}
	}
	replace := map[string]string{}
	gen := filepath.Join(*out, "gen")
	os.RemoveAll(gen)
	os.MkdirAll(gen, 0o755)
	var resets []string
	// dependencies first, so that a reset initialises like a fresh process
	for _, p := range ld.topo() {
		if p.name == "main" || len(p.files) == 0 {
			continue
		}
		in := &instr{ld: ld, p: p}
		in.run(gen, replace)
		resets = append(resets, p.path)
	}
	for _, d := range []struct{ from, to string }{{*simDir, "internal/vsim"}, {*harnDir, "internal/vharness"}} {
		es, _ := os.ReadDir(d.from)
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") {
				replace[filepath.Join(*repo, d.to, e.Name())] = filepath.Join(d.from, e.Name())
			}
		}
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n")
	for i, r := range resets {
		fmt.Fprintf(&sb, "\tp%d %q\n", i, r)
	}
	sb.WriteString(")\n\n// resetProcess re-initialises every package as a fresh process would.\nfunc resetProcess() {\n")
	for i := range resets {
		fmt.Fprintf(&sb, "\tp%d.VsimReset()\n", i)
	}
	sb.WriteString("}\n\nfunc libRoots(f func(name string, p interface{})) {\n")
	for i := range resets {
		fmt.Fprintf(&sb, "\tp%d.VsimRoots(f)\n", i)
	}
	sb.WriteString("}\n")
	w := filepath.Join(gen, "vharness_reset.go")
	if err := os.WriteFile(w, []byte(sb.String()), 0o644); err != nil {
		die("%v", err)
	}
	replace[filepath.Join(*repo, "internal/vharness/zz_reset.go")] = w
	js, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644); err != nil {
		die("%v", err)
	}
}

func sortedPkgs(m map[string]*pkgInfo) []*pkgInfo {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []*pkgInfo
	for _, k := range ks {
		r = append(r, m[k])
	}
	return r
}

func (ld *loader) topo() []*pkgInfo {
	var r []*pkgInfo
	seen := map[string]bool{}
	var visit func(p *pkgInfo)
	visit = func(p *pkgInfo) {
		if seen[p.path] {
			return
		}
		seen[p.path] = true
		if p.tpkg != nil {
			imps := append([]*types.Package(nil), p.tpkg.Imports()...)
			sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
			for _, i := range imps {
				if q := ld.pkgs[i.Path()]; q != nil {
					visit(q)
				}
			}
		}
		r = append(r, p)
	}
	for _, p := range sortedPkgs(ld.pkgs) {
		visit(p)
	}
	return r
}

func (ld *loader) load(path, dir string) {
	es, err := os.ReadDir(dir)
	if err != nil {
		return
	}
	p := &pkgInfo{path: path, dir: dir, src: map[*ast.File][]byte{}}
	ctx := build.Default
	for _, e := range es {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := ctx.MatchFile(dir, n); err != nil || !ok {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			die("%v", err)
		}
		f, err := parser.ParseFile(ld.fset, filepath.Join(dir, n), b, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		if f.Name.Name == "documentation" {
			continue
		}
		p.name = f.Name.Name
		p.files = append(p.files, f)
		p.names = append(p.names, n)
		p.src[f] = b
	}
	if len(p.files) > 0 {
		ld.pkgs[path] = p
	}
}

func (ld *loader) Import(path string) (*types.Package, error) {
	if p := ld.pkgs[path]; p != nil {
		ld.check(p)
		return p.tpkg, nil
	}
	return ld.std.Import(path)
}

func (ld *loader) check(p *pkgInfo) {
	if p.tpkg != nil {
		return
	}
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
	cfg := types.Config{Importer: ld, FakeImportC: true}
	tp, err := cfg.Check(p.path, ld.fset, p.files, p.info)
	if err != nil {
		die("type check: %v", err)
	}
	p.tpkg = tp
}

// ---------------------------------------------------------------- edits

type edit struct {
	off, end int // byte range replaced
	text     string
	seq      int
}

type instr struct {
	ld    *loader
	p     *pkgInfo
	f     *ast.File
	src   []byte
	edits []edit
	used  map[*types.PkgName]int // uses that stay
	goneI map[*types.PkgName]int // uses that were replaced
	uid   int
	funcs []*funcCtx
}

type funcCtx struct {
	node ast.Node
	pure bool
}

func (in *instr) off(p token.Pos) int { return in.ld.fset.Position(p).Offset }

func (in *instr) repl(a, b token.Pos, text string) {
	in.edits = append(in.edits, edit{in.off(a), in.off(b), text, len(in.edits)})
}
func (in *instr) ins(a token.Pos, text string) { in.repl(a, a, text) }

func (in *instr) render(lo, hi int) string {
	var es []edit
	for _, e := range in.edits {
		if e.off >= lo && e.end <= hi {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].off != es[j].off {
			return es[i].off < es[j].off
		}
		return es[i].seq < es[j].seq
	})
	var sb strings.Builder
	pos := lo
	for _, e := range es {
		if e.off < pos {
			die("overlapping edits at %s offset %d: %q", in.ld.fset.Position(in.f.Pos()).Filename, e.off, e.text)
		}
		sb.Write(in.src[pos:e.off])
		sb.WriteString(e.text)
		pos = e.end
	}
	sb.Write(in.src[pos:hi])
	return sb.String()
}

var rewrites = map[string]map[string]string{
	"sync": {"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once", "Pool": "Pool", "Map": "Map",
		"Cond": "Cond", "NewCond": "NewCond", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues"},
	"math/rand": {"Rand": "Rand", "New": "RandNew", "NewSource": "RandNewSource", "Seed": "RandSeed", "Int63": "RandInt63",
		"Uint32": "RandUint32", "Uint64": "RandUint64", "Int31": "RandInt31", "Int": "RandInt", "Int63n": "RandInt63n",
		"Int31n": "RandInt31n", "Intn": "RandIntn", "Float64": "RandFloat64", "Float32": "RandFloat32",
		"NormFloat64": "RandNormFloat64", "ExpFloat64": "RandExpFloat64", "Perm": "RandPerm", "Shuffle": "RandShuffle", "Read": "RandRead"},
	"math/rand/v2": {"Int64": "Rand2Int64", "IntN": "Rand2IntN", "Int64N": "Rand2Int64N", "Int32N": "Rand2Int32N",
		"Uint32N": "Rand2Uint32N", "Uint64N": "Rand2Uint64N", "N": "Rand2N", "Uint32": "RandUint32", "Uint64": "RandUint64",
		"Int32": "RandInt31", "Int": "RandInt", "Float64": "RandFloat64", "Float32": "RandFloat32",
		"NormFloat64": "RandNormFloat64", "ExpFloat64": "RandExpFloat64", "Perm": "RandPerm", "Shuffle": "RandShuffle"},
	"crypto/rand": {"Reader": "CrandReader", "Read": "CrandRead"},
	"time": {"Now": "TimeNow", "Since": "TimeSince", "Until": "TimeUntil", "Sleep": "LibTimeSleep", "After": "LibTimeAfter",
		"NewTimer": "LibNewTimer", "AfterFunc": "LibAfterFunc", "NewTicker": "LibNewTicker", "Tick": "LibTick", "Timer": "Timer", "Ticker": "Ticker"},
	"context": {"WithTimeout": "LibCtxTimeout", "WithDeadline": "LibCtxDeadline"},
	"runtime": {"NumCPU": "NumCPU", "GOMAXPROCS": "GOMAXPROCS", "Gosched": "Gosched", "NumGoroutine": "NumGoroutine"},
}

type initEnt struct {
	fn string
	// position in the file list, for init functions
}

func (in *instr) run(gen string, replace map[string]string) {
	p := in.p
	pd := filepath.Join(gen, strings.ReplaceAll(strings.TrimPrefix(p.path, in.ld.mod), "/", "_")+"_pkg")
	os.MkdirAll(pd, 0o755)
	initFn := map[*ast.Ident]string{} // var name ident -> reset function
	var zeroFns, initFuncs []string
	type decl struct {
		vs *ast.ValueSpec
	}
	for fi, f := range p.files {
		in.f, in.src, in.edits = f, p.src[f], nil
		in.used, in.goneI = map[*types.PkgName]int{}, map[*types.PkgName]int{}
		in.walkFile()
		var tail strings.Builder
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					v := s.(*ast.ValueSpec)
					if len(v.Values) == 0 {
						for _, n := range v.Names {
							if n.Name == "_" {
								continue
							}
							in.uid++
							fn := fmt.Sprintf("vsimZero_%d_%d", fi, in.uid)
							fmt.Fprintf(&tail, "\nfunc %s() { var z %s; %s = z }\n", fn, in.render(in.off(v.Type.Pos()), in.off(v.Type.End())), n.Name)
							zeroFns = append(zeroFns, fn)
						}
						continue
					}
					if len(v.Values) == len(v.Names) {
						for i, n := range v.Names {
							in.uid++
							fn := fmt.Sprintf("vsimInit_%d_%d", fi, in.uid)
							rhs := in.render(in.off(v.Values[i].Pos()), in.off(v.Values[i].End()))
							fmt.Fprintf(&tail, "\nfunc %s() { %s = %s }\n", fn, n.Name, rhs)
							initFn[n] = fn
						}
					} else {
						in.uid++
						fn := fmt.Sprintf("vsimInit_%d_%d", fi, in.uid)
						var ns []string
						for _, n := range v.Names {
							ns = append(ns, n.Name)
							initFn[n] = fn
						}
						fmt.Fprintf(&tail, "\nfunc %s() { %s = %s }\n", fn, strings.Join(ns, ", "), in.render(in.off(v.Values[0].Pos()), in.off(v.Values[0].End())))
					}
				}
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" {
					in.uid++
					fn := fmt.Sprintf("vsimInitFunc_%d_%d", fi, in.uid)
					in.repl(d.Name.Pos(), d.Name.End(), fn)
					fmt.Fprintf(&tail, "\nfunc init() { %s() }\n", fn)
					initFuncs = append(initFuncs, fn)
				}
			}
		}
		// imports
		for _, im := range f.Imports {
			var pn *types.PkgName
			if im.Name != nil {
				if im.Name.Name == "_" || im.Name.Name == "." {
					continue
				}
				pn, _ = p.info.Defs[im.Name].(*types.PkgName)
			} else {
				pn, _ = p.info.Implicits[im].(*types.PkgName)
			}
			if pn == nil || in.goneI[pn] == 0 || in.used[pn] > 0 {
				continue
			}
			if im.Name != nil {
				in.repl(im.Name.Pos(), im.Name.End(), "_")
			} else {
				in.ins(im.Path.Pos(), "_ ")
			}
		}
		in.ins(f.Name.End(), fmt.Sprintf("; import %s %q", vs, in.ld.mod+"/internal/vsim"))
		text := in.render(0, len(in.src)) + fmt.Sprintf("\nvar _ = %s.Y\n", vs) + tail.String()
		fn := filepath.Join(pd, p.names[fi])
		if err := os.WriteFile(fn, []byte(text), 0o644); err != nil {
			die("%v", err)
		}
		replace[filepath.Join(p.dir, p.names[fi])] = fn
	}
	// generated package file
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\n// VsimReset re-runs package initialisation.\nfunc VsimReset() {\n", p.name)
	for _, z := range zeroFns {
		fmt.Fprintf(&sb, "\t%s()\n", z)
	}
	done := map[string]bool{}
	byObj := map[types.Object]string{}
	for id, fn := range initFn {
		if o := p.info.Defs[id]; o != nil {
			byObj[o] = fn
		}
	}
	for _, it := range p.info.InitOrder {
		for _, l := range it.Lhs {
			if fn := byObj[l]; fn != "" && !done[fn] {
				done[fn] = true
				fmt.Fprintf(&sb, "\t%s()\n", fn)
			}
		}
	}
	for _, fn := range initFuncs {
		fmt.Fprintf(&sb, "\t%s()\n", fn)
	}
	sb.WriteString("}\n\n// VsimRoots lists the package-level variables.\nfunc VsimRoots(f func(name string, p interface{})) {\n")
	var vars []string
	for _, n := range p.tpkg.Scope().Names() {
		if _, ok := p.tpkg.Scope().Lookup(n).(*types.Var); ok && n != "_" {
			vars = append(vars, n)
		}
	}
	for _, n := range vars {
		fmt.Fprintf(&sb, "\tf(%q, &%s)\n", p.tpkg.Name()+"."+n, n)
	}
	sb.WriteString("}\n")
	if p.path == in.ld.mod+"/params" {
		for _, g := range seamFuncs {
			o, _ := p.tpkg.Scope().Lookup(g).(*types.Func)
			lv := p.tpkg.Scope().Lookup("CurrentSecurityLevel")
			if o == nil || lv == nil {
				continue
			}
			r := o.Type().(*types.Signature).Results()
			if r.Len() != 1 {
				continue
			}
			q := func(*types.Package) string { return "" }
			fmt.Fprintf(&sb, "\n// Vsim%s holds the simulator's own parameter sets, keyed by level.\nvar Vsim%s = map[%s]%s{}\n",
				g, g, types.TypeString(lv.Type(), q), types.TypeString(r.At(0).Type(), q))
		}
	}
	fn := filepath.Join(pd, "zz_vsim_gen.go")
	if err := os.WriteFile(fn, []byte(sb.String()), 0o644); err != nil {
		die("%v", err)
	}
	replace[filepath.Join(p.dir, "zz_vsim_gen.go")] = fn
}

var seamFuncs = []string{"GetTLWELv0", "GetTLWELv1", "GetTRLWELv1", "GetTRGSWLv1"}

func isSeam(n string) bool {
	for _, s := range seamFuncs {
		if s == n {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- walking

func (in *instr) walkFile() {
	for _, d := range in.f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body == nil {
				continue
			}
			if in.p.path == in.ld.mod+"/params" && d.Recv == nil && isSeam(d.Name.Name) && d.Type.Params.NumFields() == 0 {
				in.ins(d.Body.Lbrace+1, fmt.Sprintf(" if v, ok := Vsim%s[CurrentSecurityLevel]; ok { return v };", d.Name.Name))
			}
			in.funcs = []*funcCtx{{node: d, pure: in.pureFunc(d)}}
			in.sigs(d)
			in.stmt(d.Body)
			in.funcs = nil
		case *ast.GenDecl:
			ast.Inspect(d, in.exprVisitor())
		}
	}
}

func (in *instr) sigs(d *ast.FuncDecl) {
	if d.Recv != nil {
		ast.Inspect(d.Recv, in.exprVisitor())
	}
	ast.Inspect(d.Type, in.exprVisitor())
}

// pureFunc: a loop-free function of scalars that touches nothing shared; a
// preemption inside it is indistinguishable from one before the call.
func (in *instr) pureFunc(d *ast.FuncDecl) bool {
	if d.Recv != nil {
		return false
	}
	scalar := func(fl *ast.FieldList) bool {
		if fl == nil {
			return true
		}
		for _, f := range fl.List {
			t := in.p.info.TypeOf(f.Type)
			if t == nil {
				return false
			}
			if _, ok := t.Underlying().(*types.Basic); !ok {
				return false
			}
		}
		return true
	}
	if !scalar(d.Type.Params) || !scalar(d.Type.Results) {
		return false
	}
	pure := true
	ast.Inspect(d.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.GoStmt, *ast.DeferStmt, *ast.FuncLit, *ast.IndexExpr, *ast.StarExpr, *ast.SendStmt, *ast.SelectStmt:
			pure = false
		case *ast.Ident:
			if v, ok := in.p.info.Uses[n].(*types.Var); ok && v.Parent() == in.p.tpkg.Scope() {
				pure = false
			}
		case *ast.CallExpr:
			if tv := in.p.info.Types[n.Fun]; !tv.IsType() {
				if f := in.callee(n); f == nil || f.Pkg() == nil || f.Pkg().Path() != "math" {
					pure = false
				}
			}
		}
		return pure
	})
	return pure
}

func (in *instr) callee(c *ast.CallExpr) *types.Func {
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		r, _ := in.p.info.Uses[f].(*types.Func)
		return r
	case *ast.SelectorExpr:
		r, _ := in.p.info.Uses[f.Sel].(*types.Func)
		return r
	}
	return nil
}

func (in *instr) cur() *funcCtx {
	if len(in.funcs) == 0 {
		return &funcCtx{}
	}
	return in.funcs[len(in.funcs)-1]
}

func (in *instr) stmts(list []ast.Stmt, simpleLoop bool) {
	for i, s := range list {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		if !in.cur().pure && !(simpleLoop && i > 0) {
			in.ins(s.Pos(), vs+".Y(); ")
		}
		in.stmt(s)
	}
}

// simpleBody: an innermost loop body that calls nothing of the library.
func (in *instr) simpleBody(b *ast.BlockStmt) bool {
	simple := true
	ast.Inspect(b, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.GoStmt, *ast.FuncLit, *ast.SendStmt, *ast.SelectStmt, *ast.DeferStmt:
			simple = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				simple = false
			}
		case *ast.CallExpr:
			if tv := in.p.info.Types[n.Fun]; tv.IsType() || tv.IsBuiltin() {
				return true
			}
			f := in.callee(n)
			if f == nil || f.Pkg() == nil || (f.Pkg().Path() != "math" && f.Pkg().Path() != "math/bits") {
				simple = false
			}
		}
		return simple
	})
	return simple
}

func (in *instr) stmt(s ast.Stmt) {
	switch s := s.(type) {
	case nil:
	case *ast.BlockStmt:
		in.stmts(s.List, false)
	case *ast.IfStmt:
		in.maybe(s.Init)
		in.expr(s.Cond)
		in.stmt(s.Body)
		if s.Else != nil {
			in.stmt(s.Else)
		}
	case *ast.ForStmt:
		in.maybe(s.Init)
		if s.Cond != nil {
			in.expr(s.Cond)
		}
		in.maybe(s.Post)
		if len(s.Body.List) == 0 && !in.cur().pure {
			in.ins(s.Body.Lbrace+1, " "+vs+".Y();")
		}
		in.stmts(s.Body.List, in.simpleBody(s.Body))
	case *ast.RangeStmt:
		if t := in.p.info.TypeOf(s.X); t != nil {
			if _, ok := t.Underlying().(*types.Chan); ok {
				in.rangeChan(s)
				return
			}
		}
		in.expr(s.X)
		if s.Key != nil {
			in.expr(s.Key)
		}
		if s.Value != nil {
			in.expr(s.Value)
		}
		if len(s.Body.List) == 0 && !in.cur().pure {
			in.ins(s.Body.Lbrace+1, " "+vs+".Y();")
		}
		in.stmts(s.Body.List, in.simpleBody(s.Body))
	case *ast.SwitchStmt:
		in.maybe(s.Init)
		if s.Tag != nil {
			in.expr(s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for _, e := range cc.List {
				in.expr(e)
			}
			in.stmts(cc.Body, false)
		}
	case *ast.TypeSwitchStmt:
		in.maybe(s.Init)
		in.stmt(s.Assign)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for _, e := range cc.List {
				in.expr(e)
			}
			in.stmts(cc.Body, false)
		}
	case *ast.SelectStmt:
		in.selectStmt(s)
	case *ast.LabeledStmt:
		in.stmt(s.Stmt)
	case *ast.GoStmt:
		in.goStmt(s)
	case *ast.SendStmt:
		in.ins(s.Chan.Pos(), vs+".SendF(")
		in.expr(s.Chan)
		in.repl(s.Arrow, s.Arrow+2, ")(")
		in.expr(s.Value)
		in.ins(s.Value.End(), ")")
	case *ast.IncDecStmt:
		if in.splittable(s.X) && in.inList(s) {
			x := in.text(s.X)
			op := "+"
			if s.Tok == token.DEC {
				op = "-"
			}
			in.repl(s.Pos(), s.End(), fmt.Sprintf("{ vsimT := %s; %s.Y(); %s = vsimT %s 1 }", x, vs, x, op))
			return
		}
		in.expr(s.X)
	case *ast.AssignStmt:
		in.assign(s)
	case *ast.DeferStmt:
		in.expr(s.Call)
	case *ast.ExprStmt:
		in.expr(s.X)
	default:
		ast.Inspect(s, in.exprVisitor())
	}
}

func (in *instr) maybe(s ast.Stmt) {
	if s == nil {
		return
	}
	// init/post statements: expressions only, no splitting
	switch s := s.(type) {
	case *ast.AssignStmt:
		for _, e := range s.Rhs {
			in.exprMaybe2(s, e)
		}
		for _, e := range s.Lhs {
			in.expr(e)
		}
	case *ast.IncDecStmt:
		in.expr(s.X)
	case *ast.ExprStmt:
		in.expr(s.X)
	default:
		ast.Inspect(s, in.exprVisitor())
	}
}

func (in *instr) text(e ast.Expr) string { return string(in.src[in.off(e.Pos()):in.off(e.End())]) }

// inList: set by context; Inc/Dec and op-assign reached through stmts() only.
func (in *instr) inList(ast.Stmt) bool { return true }

// splittable: a scalar that other goroutines may share (package level,
// captured by a function literal, or a field), named by a plain selector path.
func (in *instr) splittable(e ast.Expr) bool {
	if in.cur().pure {
		return false
	}
	t := in.p.info.TypeOf(e)
	if t == nil {
		return false
	}
	shared := false
	x := ast.Unparen(e)
	for {
		switch y := x.(type) {
		case *ast.SelectorExpr:
			if id, ok := y.X.(*ast.Ident); ok {
				if _, isPkg := in.p.info.Uses[id].(*types.PkgName); isPkg {
					return true
				}
			}
			shared = true
			x = ast.Unparen(y.X)
			continue
		case *ast.Ident:
			v, ok := in.p.info.Uses[y].(*types.Var)
			if !ok {
				return false
			}
			if v.Parent() == in.p.tpkg.Scope() {
				return true
			}
			if shared {
				return true
			}
			// captured by the current function literal?
			if fl, ok := in.cur().node.(*ast.FuncLit); ok {
				return v.Pos() < fl.Pos() || v.Pos() >= fl.End()
			}
			return false
		default:
			return false
		}
	}
}

func (in *instr) assign(s *ast.AssignStmt) {
	if len(s.Lhs) == 1 && len(s.Rhs) == 1 && in.splittable(s.Lhs[0]) {
		x := in.text(s.Lhs[0])
		switch s.Tok {
		case token.ASSIGN:
			lt, rt := in.p.info.TypeOf(s.Lhs[0]), in.p.info.Types[s.Rhs[0]]
			if rt.Value == nil && rt.Type != nil && types.Identical(lt, rt.Type) && in.mentions(s.Rhs[0], x) {
				in.repl(s.Lhs[0].Pos(), s.Rhs[0].Pos(), "{ vsimT := ")
				in.expr(s.Rhs[0])
				in.ins(s.Rhs[0].End(), fmt.Sprintf("; %s.Y(); %s = vsimT }", vs, x))
				return
			}
		case token.DEFINE:
		default:
			op := strings.TrimSuffix(s.Tok.String(), "=")
			in.repl(s.Lhs[0].Pos(), s.Rhs[0].Pos(), fmt.Sprintf("{ vsimT := %s; %s.Y(); %s = vsimT %s (", x, vs, x, op))
			in.expr(s.Rhs[0])
			in.ins(s.Rhs[0].End(), ") }")
			return
		}
	}
	for _, e := range s.Lhs {
		in.expr(e)
	}
	for _, e := range s.Rhs {
		in.exprMaybe2(s, e)
	}
}

func (in *instr) mentions(e ast.Expr, x string) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if y, ok := n.(ast.Expr); ok && in.text(y) == x {
			found = true
		}
		return !found
	})
	return found
}

// exprMaybe2 handles `v, ok := <-ch`.
func (in *instr) exprMaybe2(s *ast.AssignStmt, e ast.Expr) {
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		if u, ok := ast.Unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			in.repl(u.OpPos, u.OpPos+2, vs+".Recv2(")
			in.expr(u.X)
			in.ins(u.X.End(), ")")
			return
		}
	}
	in.expr(e)
}

func (in *instr) expr(e ast.Expr) {
	if e != nil {
		ast.Inspect(e, in.exprVisitor())
	}
}

func (in *instr) exprVisitor() func(ast.Node) bool {
	return func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			in.expr(n.Type)
			in.funcs = append(in.funcs, &funcCtx{node: n})
			in.stmt(n.Body)
			in.funcs = in.funcs[:len(in.funcs)-1]
			return false
		case *ast.SelectorExpr:
			id, ok := n.X.(*ast.Ident)
			if !ok {
				return true
			}
			pn, ok := in.p.info.Uses[id].(*types.PkgName)
			if !ok {
				return true
			}
			if to, ok := rewrites[pn.Imported().Path()][n.Sel.Name]; ok {
				in.goneI[pn]++
				in.repl(n.Pos(), n.End(), vs+"."+to)
			} else {
				in.used[pn]++
			}
			return false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				in.repl(n.OpPos, n.OpPos+2, vs+".Recv(")
				in.expr(n.X)
				in.ins(n.X.End(), ")")
				return false
			}
		case *ast.CallExpr:
			if id, ok := ast.Unparen(n.Fun).(*ast.Ident); ok && id.Name == "close" {
				if _, b := in.p.info.Uses[id].(*types.Builtin); b {
					in.repl(id.Pos(), id.End(), vs+".Close")
				}
			}
		}
		return true
	}
}

func (in *instr) goStmt(s *ast.GoStmt) {
	c := s.Call
	tv := in.p.info.Types[c.Fun]
	if tv.IsBuiltin() {
		in.repl(s.Go, s.Go+2, vs+".Go(func() { ")
		in.expr(c)
		in.ins(c.End(), " })")
		return
	}
	sig, _ := tv.Type.Underlying().(*types.Signature)
	if sig == nil {
		die("go statement: no signature")
	}
	name := fmt.Sprintf("Go%d", len(c.Args))
	if sig.Results().Len() > 0 || sig.Variadic() || len(c.Args) > 10 {
		name = "GoReflect"
		if c.Ellipsis.IsValid() {
			name = "GoReflectSlice"
		}
	}
	if len(c.Args) == 1 && name == "Go1" {
		if _, tup := in.p.info.TypeOf(c.Args[0]).(*types.Tuple); tup {
			die("go statement with a multi-value argument is not supported")
		}
	}
	in.repl(s.Go, c.Fun.Pos(), vs+"."+name+"(")
	in.expr(c.Fun)
	if len(c.Args) > 0 {
		in.repl(c.Lparen, c.Lparen+1, ", ")
	} else {
		in.repl(c.Lparen, c.Lparen+1, "")
	}
	for _, a := range c.Args {
		in.expr(a)
	}
	if c.Ellipsis.IsValid() {
		in.repl(c.Ellipsis, c.Ellipsis+3, "")
	}
}

func (in *instr) rangeChan(s *ast.RangeStmt) {
	in.uid++
	ok := fmt.Sprintf("vsimOk%d", in.uid)
	x := in.rtext(s.X)
	tmp := fmt.Sprintf("vsimC%d", in.uid)
	key := "_"
	if s.Key != nil {
		key = in.rtext(s.Key)
	}
	// for k := range ch {  ->  for vsimC := ch; ; { k, ok := Recv2(vsimC); if !ok { break }
	in.repl(s.For, s.Body.Lbrace+1, fmt.Sprintf("for %s := %s; ; { %s", tmp, x, func() string {
		if key == "_" {
			return fmt.Sprintf("_, %s := %s.Recv2(%s); if !%s { break };", ok, vs, tmp, ok)
		}
		if s.Tok == token.DEFINE {
			return fmt.Sprintf("%s, %s := %s.Recv2(%s); if !%s { break };", key, ok, vs, tmp, ok)
		}
		return fmt.Sprintf("vsimV, %s := %s.Recv2(%s); if !%s { break }; %s = vsimV;", ok, vs, tmp, ok, key)
	}()))
	in.stmts(s.Body.List, false)
}

func (in *instr) selectStmt(s *ast.SelectStmt) {
	hasDef := "false"
	in.uid++
	id := in.uid
	var names, cases []string
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		switch m := cc.Comm.(type) {
		case nil:
			hasDef = "true"
			continue
		case *ast.SendStmt:
			cases = append(cases, fmt.Sprintf("%s.SendCase(%s)(%s)", vs, in.rtext(m.Chan), in.rtext(m.Value)))
		case *ast.ExprStmt:
			cases = append(cases, fmt.Sprintf("%s.RecvCase(%s)", vs, in.rtext(ast.Unparen(m.X).(*ast.UnaryExpr).X)))
		case *ast.AssignStmt:
			cases = append(cases, fmt.Sprintf("%s.RecvCase(%s)", vs, in.rtext(ast.Unparen(m.Rhs[0]).(*ast.UnaryExpr).X)))
		}
		names = append(names, fmt.Sprintf("vsimS%d_%d", id, len(names)))
	}
	if len(cases) > 0 {
		in.repl(s.Select, s.Body.Lbrace, fmt.Sprintf("switch %s := %s; %s.Select(%s, %s) ", strings.Join(names, ", "), strings.Join(cases, ", "), vs, hasDef, strings.Join(names, ", ")))
	} else {
		in.repl(s.Select, s.Body.Lbrace, fmt.Sprintf("switch %s.Select(%s) ", vs, hasDef))
	}
	k := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			in.repl(cc.Case, cc.Colon, "case -1")
		} else {
			pre := ""
			if m, ok := cc.Comm.(*ast.AssignStmt); ok {
				fn := "Val"
				var l []string
				for _, x := range m.Lhs {
					l = append(l, in.rtext(x))
				}
				if len(m.Lhs) == 2 {
					fn = "Val2"
				}
				pre = fmt.Sprintf(" %s %s %s.%s();", strings.Join(l, ", "), m.Tok, names[k], fn)
			}
			in.repl(cc.Case, cc.Colon, fmt.Sprintf("case %d", k))
			if pre != "" {
				in.ins(cc.Colon+1, pre)
			}
			k++
		}
		in.stmts(cc.Body, false)
	}
}

// rtext is the instrumented text of an expression that is moved elsewhere.
func (in *instr) rtext(e ast.Expr) string {
	n := len(in.edits)
	in.expr(e)
	t := in.render(in.off(e.Pos()), in.off(e.End()))
	in.edits = in.edits[:n]
	return t
}
