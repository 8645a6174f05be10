package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/effective-security/xdb"

// Program is the loaded repository.
type Program struct {
	dir       string
	fset      *token.FileSet
	pkgs      []*packages.Package
	prog      *ssa.Program
	byPath    map[string]*ssa.Package
	tpkg      map[string]*types.Package
	immutable map[*ssa.Global]bool
	li        map[*ssa.Function]*loopInfo
	sole      map[string]types.Type
	effFree   map[*ssa.Function]bool
	cells     map[*ssa.Alloc]bool
	fieldSt   map[string]map[*ssa.Function]bool
	funcs     []*ssa.Function // source functions of the repository, including closures
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule | packages.NeedExportFile,
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off"),
	}
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	if cfg.Overlay == nil {
		if cfg.Overlay = countedLoops(pkgs); len(cfg.Overlay) > 0 {
			again, err := packages.Load(cfg, "./...")
			bad := err != nil || len(again) != len(pkgs)
			for _, p := range again {
				bad = bad || len(p.Errors) > 0
			}
			if !bad {
				pkgs = again
			}
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	prog.Build()
	p := &Program{dir: dir, fset: prog.Fset, pkgs: pkgs, prog: prog, byPath: map[string]*ssa.Package{}, tpkg: map[string]*types.Package{},
		li: map[*ssa.Function]*loopInfo{}, sole: map[string]types.Type{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.byPath[pkgs[i].PkgPath] = sp
		p.tpkg[pkgs[i].PkgPath] = pkgs[i].Types
	}
	p.collectFuncs()
	p.findImmutable()
	return p, nil
}

// countedLoops gives the text of the files that range over a number with the loops spelled out, on the same lines: the
// loop is then one that tests before it goes round, as the others.
func countedLoops(pkgs []*packages.Package) map[string][]byte {
	over := map[string][]byte{}
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			type edit struct {
				lo, hi int
				text   string
			}
			var edits []edit
			name := p.Fset.Position(f.Pos()).Filename
			src, err := os.ReadFile(name)
			if err != nil {
				continue
			}
			off := func(pos token.Pos) int { return p.Fset.PositionFor(pos, false).Offset }
			ast.Inspect(f, func(n ast.Node) bool {
				rs, ok := n.(*ast.RangeStmt)
				if !ok || rs.Value != nil || rs.Tok == token.ASSIGN {
					return true
				}
				t := p.TypesInfo.TypeOf(rs.X)
				if t == nil {
					return true
				}
				if b, ok := t.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
					return true
				}
				id, _ := rs.Key.(*ast.Ident)
				if id != nil && id.Name != "_" {
					if o := p.TypesInfo.Defs[id]; o != nil {
						t = o.Type()
						if assigned(p.TypesInfo, rs.Body, o) {
							return true
						}
					}
				}
				b, ok := t.(*types.Basic)
				if !ok {
					return true
				}
				if b.Info()&types.IsUntyped != 0 {
					t = types.Typ[types.Int]
				}
				i, lim := fmt.Sprintf("i_%d", off(rs.For)), fmt.Sprintf("n_%d", off(rs.For))
				if id != nil && id.Name != "_" {
					i = id.Name
				}
				x := string(src[off(rs.X.Pos()):off(rs.X.End())])
				edits = append(edits, edit{off(rs.For), off(rs.Body.Lbrace), fmt.Sprintf("for %s, %s := %s(0), %s(%s); %s < %s; %s++ ", i, lim, t, t, x, i, lim, i)})
				return true
			})
			if len(edits) == 0 {
				continue
			}
			sort.Slice(edits, func(i, j int) bool { return edits[i].lo > edits[j].lo })
			for _, e := range edits {
				src = append(append(append([]byte{}, src[:e.lo]...), e.text...), src[e.hi:]...)
			}
			over[name] = src
		}
	}
	return over
}

// assigned: the variable is written, or its address taken, in the body.
func assigned(info *types.Info, body ast.Node, o types.Object) bool {
	found := false
	is := func(e ast.Expr) {
		if id, ok := e.(*ast.Ident); ok && info.Uses[id] == o {
			found = true
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				is(l)
			}
		case *ast.IncDecStmt:
			is(n.X)
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				is(n.X)
			}
		}
		return !found
	})
	return found
}

func (p *Program) isRepo(tp *types.Package) bool {
	return tp != nil && (tp.Path() == modPath || strings.HasPrefix(tp.Path(), modPath+"/"))
}

func (p *Program) isMock(tp *types.Package) bool {
	return tp != nil && strings.HasPrefix(tp.Path(), modPath+"/mocks/")
}

func (p *Program) isRepoFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return p.isRepo(f.Pkg.Pkg)
	}
	if o := f.Origin(); o != nil && o != f {
		return p.isRepoFn(o)
	}
	if f.Object() != nil {
		return p.isRepo(f.Object().Pkg())
	}
	return false
}

func (p *Program) collectFuncs() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		p.funcs = append(p.funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var paths []string
	for k := range p.byPath {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, path := range paths {
		sp := p.byPath[path]
		if p.isMock(sp.Pkg) {
			continue
		}
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				if nt, ok := types.Unalias(m.Type()).(*types.Named); ok {
					for i := 0; i < nt.NumMethods(); i++ {
						add(p.prog.FuncValue(nt.Method(i)))
					}
				}
			}
		}
	}
}

// findImmutable finds package variables that are written by initialisers only.
func (p *Program) findImmutable() {
	p.immutable = map[*ssa.Global]bool{}
	written := map[*ssa.Global]bool{}
	for f := range ssautil.AllFunctions(p.prog) {
		isInit := f.Name() == "init" && f.Synthetic != ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				ops = in.Operands(ops)
				for _, op := range ops {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						if x.Op == token.MUL {
							continue
						}
					case *ssa.Store:
						if x.Addr == g && x.Val != g && isInit {
							continue
						}
					case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
						if _, isD := in.(*ssa.DebugRef); isD {
							continue
						}
						if onlyLoads(in.(ssa.Value)) {
							continue
						}
					}
					written[g] = true
				}
			}
		}
	}
	for _, sp := range p.prog.AllPackages() {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				if p.byPath[sp.Pkg.Path()] == nil {
					// variables of other modules (sentinel errors)
					p.immutable[g] = !written[g]
				} else {
					p.immutable[g] = !written[g]
				}
			}
		}
	}
}

// constCell: a variable that is assigned once, where it is declared, and otherwise only read, by closures too.
func (p *Program) constCell(in ssa.Instruction) bool {
	al, ok := in.(*ssa.Alloc)
	if !ok {
		return false
	}
	if v, ok := p.cells[al]; ok {
		return v
	}
	stores := 0
	ok = true
	for _, ref := range *al.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr != al || x.Val == ssa.Value(al) {
				ok = false
			}
			stores++
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == ssa.Value(al) && !readOnlyVar(fn.FreeVars[i]) {
					ok = false
				}
			}
		default:
			ok = false
		}
	}
	ok = ok && stores <= 1
	if p.cells == nil {
		p.cells = map[*ssa.Alloc]bool{}
	}
	p.cells[al] = ok
	return ok
}

func readOnlyVar(v *ssa.FreeVar) bool {
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == ssa.Value(v) && !readOnlyVar(fn.FreeVars[i]) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func onlyLoads(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				continue
			}
		case *ssa.FieldAddr:
			if onlyLoads(x) {
				continue
			}
		case *ssa.IndexAddr:
			if onlyLoads(x) {
				continue
			}
		}
		return false
	}
	return true
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.fset.Position(pos)
	rel, err := filepath.Rel(p.dir, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

// Func resolves a package function.
func (p *Program) Func(pkg, name string) *ssa.Function {
	sp := p.byPath[pkgPath(pkg)]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func pkgPath(s string) string {
	if s == "" || s == "xdb" {
		return modPath
	}
	return modPath + "/" + s
}

// Named resolves a named type.
func (p *Program) Named(pkg, name string) *types.Named {
	tp := p.tpkg[pkgPath(pkg)]
	if tp == nil {
		return nil
	}
	o := tp.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// Method resolves the declared method of a type (also promoted ones).
func (p *Program) Method(pkg, typ, name string) *ssa.Function {
	n := p.Named(pkg, typ)
	if n == nil {
		return nil
	}
	o, _, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, n.Obj().Pkg(), name)
	f, ok := o.(*types.Func)
	if !ok {
		return nil
	}
	return p.prog.FuncValue(f)
}

// soleImpl is the only implementation of a repository interface, outside mocks.
// Only interfaces whose constructors hand out one unexported-state implementation are resolved.
func (p *Program) soleImpl(t types.Type) types.Type {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !p.isRepo(n.Obj().Pkg()) {
		return nil
	}
	key := n.String()
	if d, ok := p.sole[key]; ok {
		return d
	}
	p.sole[key] = nil
	it, ok := n.Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return nil
	}
	var found types.Type
	cnt := 0
	for path, tp := range p.tpkg {
		if strings.Contains(path, "/mocks/") {
			continue
		}
		for _, nm := range tp.Scope().Names() {
			tn, ok := tp.Scope().Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			T := tn.Type()
			if types.IsInterface(T) {
				continue
			}
			if nt, ok := T.(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(T, it) {
				found = T
				cnt++
			} else if types.Implements(types.NewPointer(T), it) {
				found = types.NewPointer(T)
				cnt++
			}
		}
	}
	if cnt == 1 && p.soleOK(key) {
		p.sole[key] = found
	}
	return p.sole[key]
}

// interfaces the package itself treats as having one implementation
func (p *Program) soleOK(key string) bool {
	switch key {
	case modPath + "/xsql.Builder", modPath + "/xsql.SQLDialect", modPath + "/xsql.Row":
		return true
	}
	return false
}

// ---- loops

type loopT struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	rpo     []*ssa.BasicBlock
	headers map[*ssa.BasicBlock]*loopT
}

func (p *Program) loops(f *ssa.Function) *loopInfo {
	if li := p.li[f]; li != nil {
		return li
	}
	li := &loopInfo{headers: map[*ssa.BasicBlock]*loopT{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				lp := li.headers[s]
				if lp == nil {
					lp = &loopT{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.headers[s] = lp
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if lp.blocks[x] {
						continue
					}
					lp.blocks[x] = true
					for _, pr := range x.Preds {
						if seen[pr] {
							work = append(work, pr)
						}
					}
				}
			}
		}
	}
	p.li[f] = li
	return li
}

// constOf returns a maker of the constant's term.
func (p *Program) constOf(pkg, name string) func(e *Engine) *Term {
	for _, pk := range p.pkgs {
		if pk.PkgPath != pkgPath(pkg) {
			continue
		}
		if c, ok := pk.Types.Scope().Lookup(name).(*types.Const); ok {
			return func(e *Engine) *Term { return e.ts.constVal(c.Val(), c.Type()) }
		}
	}
	return nil
}
