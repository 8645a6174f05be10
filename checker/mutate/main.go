// Command mutate lists small changes of the non-test source of a copy of the repository, one per line as JSON. They are
// tried by tools/mutate.py to look for changes that no check and no test reports. mutate DIR
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

type mut struct {
	File, Kind, Func string
	From, To, Line   int
	Old, New         string
}

var (
	out  []mut
	dir  string
	fset *token.FileSet
	src  []byte
	name string
	base int
	fn   string
)

func emit(kind string, from, to token.Pos, repl string) {
	a, b := int(from)-base, int(to)-base
	old := string(src[a:b])
	if old == repl {
		return
	}
	out = append(out, mut{name, kind, fn, a, b, fset.Position(from).Line, old, repl})
}

func raw(n ast.Node) string { return string(src[int(n.Pos())-base : int(n.End())-base]) }

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
	token.LAND: {"||"}, token.LOR: {"&&"},
}

// variables that the position sees and that have the type
func others(pkg *types.Package, info *types.Info, pos token.Pos, id *ast.Ident, t types.Type) []string {
	var res []string
	sc := pkg.Scope().Innermost(pos)
	for ; sc != nil && sc != pkg.Scope() && sc != types.Universe; sc = sc.Parent() {
		for _, n := range sc.Names() {
			o := sc.Lookup(n)
			if v, ok := o.(*types.Var); ok && n != id.Name && n != "_" && v.Pos() < pos && types.Identical(v.Type(), t) {
				if _, same := sc.LookupParent(n, pos); same != nil {
				}
				res = append(res, n)
			}
		}
	}
	sort.Strings(res)
	return res
}

// what is logged and the texts of errors are not changed
func isLog(c *ast.CallExpr) bool {
	f := raw(c.Fun)
	if (strings.HasPrefix(f, "errors.With") || strings.HasPrefix(f, "errors.Wrap")) && fn != "CheckNotFoundError" {
		return true
	}
	return strings.HasPrefix(f, "logger.") || f == "errors.New" || f == "errors.Errorf" || f == "panic"
}

func isErr(t types.Type) bool { return t != nil && types.TypeString(t, nil) == "error" }

func file(p *packages.Package, f *ast.File) {
	info := p.TypesInfo
	lhs := map[ast.Node]bool{}
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.FuncDecl:
			fn = x.Name.Name
			if x.Recv != nil {
				fn = types.ExprString(x.Recv.List[0].Type) + "." + fn
			}
		case *ast.Field:
			return false
		case *ast.BinaryExpr:
			if tv := info.Types[x]; tv.Value != nil {
				return true
			}
			for _, s := range swaps[x.Op] {
				emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				emit("dropcond", x.Pos(), x.End(), raw(x.X))
				emit("dropcond", x.Pos(), x.End(), raw(x.Y))
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				emit("not", x.Pos(), x.End(), raw(x.X))
			}
		case *ast.IfStmt:
			emit("iftrue", x.Cond.Pos(), x.Cond.End(), "("+raw(x.Cond)+") || true")
			emit("iffalse", x.Cond.Pos(), x.Cond.End(), "("+raw(x.Cond)+") && false")
		case *ast.BlockStmt:
			for i, s := range x.List {
				if es, ok := s.(*ast.ExprStmt); ok {
					if c, ok := es.X.(*ast.CallExpr); ok && isLog(c) {
						continue
					}
				}
				switch y := s.(type) {
				case *ast.ExprStmt, *ast.DeferStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.GoStmt:
					emit("del", s.Pos(), s.End(), "")
				case *ast.AssignStmt:
					if y.Tok != token.DEFINE {
						emit("del", s.Pos(), s.End(), "")
					}
				}
				if d, ok := s.(*ast.DeferStmt); ok {
					emit("nodefer", d.Pos(), d.Call.Pos(), "")
				}
				if i+1 < len(x.List) {
					if _, ok := s.(*ast.ExprStmt); ok {
						nx := x.List[i+1]
						if _, ok := nx.(*ast.ExprStmt); ok {
							emit("swapstmt", s.Pos(), nx.End(), raw(nx)+"\n"+raw(s))
						}
						if _, ok := nx.(*ast.AssignStmt); ok {
							emit("swapstmt", s.Pos(), nx.End(), raw(nx)+"\n"+raw(s))
						}
					}
				}
			}
		case *ast.CaseClause:
			if len(x.List) > 0 {
				emit("delcase", x.Pos(), x.End(), "")
				if len(x.List) > 1 {
					for i, c := range x.List {
						if i+1 < len(x.List) {
							emit("delcase", c.Pos(), x.List[i+1].Pos(), "")
						} else {
							emit("delcase", x.List[i-1].End(), c.End(), "")
						}
					}
				}
			}
		case *ast.BranchStmt:
			if x.Label == nil && x.Tok == token.CONTINUE {
				emit("branch", x.Pos(), x.End(), "break")
			} else if x.Label == nil && x.Tok == token.BREAK {
				emit("branch", x.Pos(), x.End(), "continue")
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					emit("int", x.Pos(), x.End(), fmt.Sprint(v+1))
					if v > 0 {
						emit("int", x.Pos(), x.End(), fmt.Sprint(v-1))
					}
				}
			case token.STRING:
				if s, err := strconv.Unquote(x.Value); err == nil && s != "" && !strings.Contains(x.Value, "`json") {
					emit("str", x.Pos(), x.End(), `""`)
					if len(s) > 1 {
						emit("str", x.Pos(), x.End(), strconv.Quote(s[1:]))
						emit("str", x.Pos(), x.End(), strconv.Quote(s[:len(s)-1]))
					}
					if strings.ToLower(s) != s {
						emit("str", x.Pos(), x.End(), strconv.Quote(strings.ToLower(s)))
					}
				} else if err == nil && s == "" {
					emit("str", x.Pos(), x.End(), `"x"`)
				}
			}
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				lhs[l] = true
			}
			if x.Tok == token.ADD_ASSIGN {
				emit("opassign", x.TokPos, x.TokPos+2, "=")
			}
			if len(x.Lhs) == 1 && len(x.Rhs) == 1 && x.Tok == token.ASSIGN {
				if c, ok := x.Rhs[0].(*ast.CallExpr); ok && raw(c.Fun) == "append" && len(c.Args) > 1 {
					emit("append", c.Args[0].Pos(), c.Args[0].End(), raw(c.Args[0])+"[:0]")
				}
			}
		case *ast.ReturnStmt:
			for i, e := range x.Results {
				t := info.TypeOf(e)
				if i == len(x.Results)-1 && isErr(t) && raw(e) != "nil" {
					emit("retnil", e.Pos(), e.End(), "nil")
				}
				if b, ok := t.(*types.Basic); ok {
					switch {
					case b.Info()&types.IsBoolean != 0:
						emit("ret", e.Pos(), e.End(), "!("+raw(e)+")")
					case b.Info()&types.IsString != 0:
						emit("ret", e.Pos(), e.End(), `""`)
					case b.Info()&types.IsInteger != 0:
						emit("ret", e.Pos(), e.End(), "0")
					}
				}
				switch t.Underlying().(type) {
				case *types.Slice, *types.Map, *types.Pointer:
					if raw(e) != "nil" {
						emit("ret", e.Pos(), e.End(), "nil")
					}
				}
			}
		case *ast.SliceExpr:
			if x.Low != nil && !x.Slice3 {
				emit("slice", x.Low.Pos(), x.Low.End(), "")
			}
			if x.High != nil && !x.Slice3 {
				emit("slice", x.High.Pos(), x.High.End(), "")
			}
			if x.Slice3 {
				emit("slice", x.High.End(), x.Max.End(), "")
			}
		case *ast.CompositeLit:
			for i, e := range x.Elts {
				to := e.End()
				if i+1 < len(x.Elts) {
					to = x.Elts[i+1].Pos()
				} else if i > 0 {
					emit("delelt", x.Elts[i-1].End(), to, "")
					continue
				}
				emit("delelt", e.Pos(), to, "")
			}
		case *ast.CallExpr:
			if isLog(x) {
				return false
			}
			tv := info.Types[x.Fun]
			if tv.IsType() && len(x.Args) == 1 {
				if b, ok := tv.Type.Underlying().(*types.Basic); ok {
					if ab, ok := info.TypeOf(x.Args[0]).Underlying().(*types.Basic); ok && ab.Info()&types.IsInteger != 0 {
						switch b.Kind() {
						case types.Int64, types.Int:
							emit("narrow", x.Args[0].Pos(), x.Args[0].End(), "int32("+raw(x.Args[0])+")")
						case types.Uint64, types.Uint:
							emit("narrow", x.Args[0].Pos(), x.Args[0].End(), "uint32("+raw(x.Args[0])+")")
						}
					}
				}
				return true
			}
			for i := 0; i+1 < len(x.Args); i++ {
				a, b := x.Args[i], x.Args[i+1]
				if types.Identical(types.Default(info.TypeOf(a)), types.Default(info.TypeOf(b))) && raw(a) != raw(b) && x.Ellipsis == 0 {
					emit("swaparg", a.Pos(), b.End(), raw(b)+", "+raw(a))
				}
			}
			if x.Ellipsis == 0 && len(x.Args) > 1 {
				if sig, ok := info.TypeOf(x.Fun).(*types.Signature); ok && sig.Variadic() && len(x.Args) >= sig.Params().Len() {
					n := len(x.Args)
					emit("dropvar", x.Args[n-2].End(), x.Args[n-1].End(), "")
				}
			}
			// another function of the same signature
			var id *ast.Ident
			switch y := x.Fun.(type) {
			case *ast.SelectorExpr:
				id = y.Sel
			case *ast.Ident:
				id = y
			}
			if id != nil {
				if f, ok := info.Uses[id].(*types.Func); ok {
					sig := f.Type().(*types.Signature)
					var alt []string
					if r := sig.Recv(); r != nil {
						ms := types.NewMethodSet(r.Type())
						for i := 0; i < ms.Len(); i++ {
							o := ms.At(i).Obj()
							if o.Name() != f.Name() && (o.Exported() || o.Pkg() == p.Types) && types.Identical(o.Type(), f.Type()) {
								alt = append(alt, o.Name())
							}
						}
					} else if f.Pkg() != nil {
						s := f.Pkg().Scope()
						for _, n := range s.Names() {
							if o, ok := s.Lookup(n).(*types.Func); ok && n != f.Name() && (o.Exported() || o.Pkg() == p.Types) && types.Identical(o.Type(), f.Type()) {
								alt = append(alt, n)
							}
						}
					}
					for i, a := range alt {
						if i == 3 {
							break
						}
						emit("otherfn", id.Pos(), id.End(), a)
					}
				}
			}
		case *ast.SelectorExpr:
			if sel := info.Selections[x]; sel != nil && sel.Kind() == types.FieldVal {
				t := sel.Recv()
				if pt, ok := t.Underlying().(*types.Pointer); ok {
					t = pt.Elem()
				}
				if st, ok := t.Underlying().(*types.Struct); ok {
					k := 0
					for i := 0; i < st.NumFields() && k < 2; i++ {
						g := st.Field(i)
						if g.Name() != x.Sel.Name && types.Identical(g.Type(), sel.Type()) && (g.Exported() || g.Pkg() == p.Types) {
							emit("field", x.Sel.Pos(), x.Sel.End(), g.Name())
							k++
						}
					}
				}
			}
			ast.Inspect(x.X, walk)
			return false
		case *ast.KeyValueExpr:
			if _, ok := x.Key.(*ast.Ident); ok {
				ast.Inspect(x.Value, walk)
				return false
			}
		case *ast.Ident:
			if v, ok := info.Uses[x].(*types.Var); ok && !v.IsField() && !lhs[x] {
				for i, o := range others(p.Types, info, x.Pos(), x, v.Type()) {
					if i == 3 {
						break
					}
					emit("var", x.Pos(), x.End(), o)
				}
			}
			if c, ok := info.Uses[x].(*types.Const); ok && c.Pkg() == p.Types && c.Parent() == p.Types.Scope() {
				k := 0
				for _, n := range p.Types.Scope().Names() {
					if o, ok := p.Types.Scope().Lookup(n).(*types.Const); ok && n != x.Name && types.Identical(o.Type(), c.Type()) && k < 2 {
						emit("const", x.Pos(), x.End(), n)
						k++
					}
				}
			}
		}
		return true
	}
	for _, d := range f.Decls {
		fn = ""
		ast.Inspect(d, walk)
	}
}

func main() {
	dir = os.Args[1]
	fset = token.NewFileSet()
	ps, err := packages.Load(&packages.Config{Dir: dir, Fset: fset, Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps}, "./...")
	if err != nil {
		panic(err)
	}
	for _, p := range ps {
		for _, f := range p.Syntax {
			path := fset.Position(f.Pos()).Filename
			rel, _ := filepath.Rel(dir, path)
			if strings.HasSuffix(rel, "_test.go") || strings.HasPrefix(rel, "mocks") || strings.HasPrefix(rel, "..") || strings.Contains(rel, "testdata") || strings.Contains(rel, "clisuite") {
				continue
			}
			src, _ = os.ReadFile(path)
			name = rel
			base = fset.File(f.Pos()).Base()
			file(p, f)
		}
	}
	e := json.NewEncoder(os.Stdout)
	e.SetEscapeHTML(false)
	for _, m := range out {
		e.Encode(m)
	}
}
