// Command auto rewrites the non-test source of a copy of the repository in one way that keeps its behaviour.
// It is used to look for false alarms: auto DIR KIND [FILE]
package main

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type ctx struct {
	fset   *token.FileSet
	src    []byte
	base   token.Pos
	info   *types.Info
	pkg    *types.Package
	parent map[ast.Node]ast.Node
	tr     func(c *ctx, n ast.Node) (string, bool)
	n      int // changes
	id     int
	extra  []string // new declarations
	need   map[string]bool
	file   *ast.File
}

func (c *ctx) off(p token.Pos) int { return int(p - c.base) }

func (c *ctx) raw(from, to token.Pos) string { return string(c.src[c.off(from):c.off(to)]) }

// text is the node as it is, with everything in it rewritten.
func (c *ctx) text(n ast.Node) string {
	if s, ok := c.tr(c, n); ok {
		c.n++
		return s
	}
	return c.inner(n)
}

// inner rewrites what is in the node, but not the node.
func (c *ctx) inner(n ast.Node) string {
	type edit struct {
		from, to int
		s        string
	}
	var es []edit
	ast.Inspect(n, func(x ast.Node) bool {
		if x == nil || x == n {
			return true
		}
		if s, ok := c.tr(c, x); ok {
			c.n++
			es = append(es, edit{c.off(x.Pos()), c.off(x.End()), s})
			return false
		}
		return true
	})
	sort.Slice(es, func(i, j int) bool { return es[i].from < es[j].from })
	var sb strings.Builder
	at := c.off(n.Pos())
	for _, e := range es {
		sb.Write(c.src[at:e.from])
		sb.WriteString(e.s)
		at = e.to
	}
	sb.Write(c.src[at:c.off(n.End())])
	return sb.String()
}

var freshID int

func (c *ctx) fresh(s string) string { freshID++; return fmt.Sprintf("%s%d", s, freshID) }

// inBlock: the statement stands in a list of statements.
func (c *ctx) inBlock(n ast.Node) bool {
	switch c.parent[n].(type) {
	case *ast.BlockStmt, *ast.CaseClause:
		return true
	}
	return false
}

func (c *ctx) typ(e ast.Expr) types.Type { return c.info.TypeOf(e) }

func has[T ast.Node](n ast.Node) bool {
	r := false
	ast.Inspect(n, func(x ast.Node) bool {
		if _, ok := x.(T); ok {
			r = true
		}
		return !r
	})
	return r
}

func hasBranch(n ast.Node, toks ...token.Token) bool {
	r := false
	ast.Inspect(n, func(x ast.Node) bool {
		if b, ok := x.(*ast.BranchStmt); ok {
			for _, t := range toks {
				r = r || b.Tok == t
			}
		}
		return !r
	})
	return r
}

func terminates(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	_, ok := b.List[len(b.List)-1].(*ast.ReturnStmt)
	return ok
}

func (c *ctx) stmts(l []ast.Stmt) string {
	var sb strings.Builder
	for _, s := range l {
		sb.WriteString(c.text(s))
		sb.WriteString("\n")
	}
	return sb.String()
}

func (c *ctx) body(b *ast.BlockStmt) string { return c.stmts(b.List) }

func (c *ctx) signature(n ast.Node) *types.Signature {
	for ; n != nil; n = c.parent[n] {
		switch f := n.(type) {
		case *ast.FuncLit:
			return c.typ(f).(*types.Signature)
		case *ast.FuncDecl:
			return c.info.Defs[f.Name].Type().(*types.Signature)
		}
	}
	return nil
}

// name of a type as it is written in this file, if it can be written.
func (c *ctx) typeStr(t types.Type) (string, bool) {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == c.pkg {
			return ""
		}
		for _, im := range c.file.Imports {
			path := strings.Trim(im.Path.Value, `"`)
			if path == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		ok = false
		return p.Name()
	})
	return s, ok && !strings.Contains(s, "untyped") && !strings.Contains(s, "invalid")
}

var kinds = map[string]func(c *ctx, n ast.Node) (string, bool){
	"range": func(c *ctx, n ast.Node) (string, bool) {
		r, ok := n.(*ast.RangeStmt)
		if !ok || r.Tok != token.DEFINE || !c.inBlock(n) {
			return "", false
		}
		if _, ok := c.typ(r.X).Underlying().(*types.Slice); !ok {
			return "", false
		}
		i := "_"
		if r.Key != nil {
			i = c.raw(r.Key.Pos(), r.Key.End())
		}
		if i == "_" {
			i = c.fresh("ix")
		}
		l := c.fresh("list")
		s := fmt.Sprintf("%s := %s\nfor %s := 0; %s < len(%s); %s++ {\n", l, c.text(r.X), i, i, l, i)
		if r.Value != nil {
			if v := c.raw(r.Value.Pos(), r.Value.End()); v != "_" {
				s += fmt.Sprintf("%s := %s[%s]\n", v, l, i)
			}
		}
		return s + c.body(r.Body) + "}", true
	},
	"rangeidx": func(c *ctx, n ast.Node) (string, bool) {
		r, ok := n.(*ast.RangeStmt)
		if !ok || r.Tok != token.DEFINE || r.Value == nil {
			return "", false
		}
		_, isID := r.X.(*ast.Ident)
		if _, ok := c.typ(r.X).Underlying().(*types.Slice); !ok || !isID {
			return "", false
		}
		i, v, x := c.raw(r.Key.Pos(), r.Key.End()), c.raw(r.Value.Pos(), r.Value.End()), c.raw(r.X.Pos(), r.X.End())
		if v == "_" || assigned(r.Body, x) {
			return "", false
		}
		if i == "_" {
			i = c.fresh("ix")
		}
		return fmt.Sprintf("for %s := range %s {\n%s := %s[%s]\n%s}", i, x, v, x, i, c.body(r.Body)), true
	},
	"invert": func(c *ctx, n ast.Node) (string, bool) {
		f, ok := n.(*ast.IfStmt)
		if !ok || f.Else == nil {
			return "", false
		}
		e, ok := f.Else.(*ast.BlockStmt)
		if !ok {
			return "", false
		}
		init := ""
		if f.Init != nil {
			init = c.text(f.Init) + "; "
		}
		return fmt.Sprintf("if %s!(%s) {\n%s} else {\n%s}", init, c.text(f.Cond), c.body(e), c.body(f.Body)), true
	},
	"elseret": func(c *ctx, n ast.Node) (string, bool) { // what follows an early return goes into its else
		b, ok := n.(*ast.BlockStmt)
		if !ok {
			return "", false
		}
		switch f := c.parent[b].(type) {
		case *ast.FuncDecl, *ast.FuncLit:
			_ = f
		default:
			return "", false
		}
		if !terminates(b) {
			return "", false
		}
		for _, s := range b.List {
			if _, ok := s.(*ast.LabeledStmt); ok {
				return "", false
			}
		}
		var list func(l []ast.Stmt) string
		ch := false
		list = func(l []ast.Stmt) string {
			for i, s := range l {
				f, ok := s.(*ast.IfStmt)
				if ok && f.Else == nil && terminates(f.Body) && i+1 < len(l) {
					ch = true
					return c.stmts(l[:i]) + c.inner(f) + " else {\n" + list(l[i+1:]) + "}\n"
				}
			}
			return c.stmts(l)
		}
		s := "{\n" + list(b.List) + "}"
		return s, ch
	},
	"cond": func(c *ctx, n ast.Node) (string, bool) {
		f, ok := n.(*ast.IfStmt)
		if !ok || f.Init != nil || !c.inBlock(n) {
			return "", false
		}
		v := c.fresh("cond")
		s := fmt.Sprintf("%s := %s\nif %s {\n%s}", v, c.text(f.Cond), v, c.body(f.Body))
		if f.Else != nil {
			s += " else " + c.text(f.Else)
		}
		return s, true
	},
	"ifinit": func(c *ctx, n ast.Node) (string, bool) { // if x := e; c -> { x := e; if c }
		f, ok := n.(*ast.IfStmt)
		if !ok || f.Init == nil || !c.inBlock(n) || terminatesIf(f) {
			return "", false
		}
		s := fmt.Sprintf("{\n%s\nif %s {\n%s}", c.text(f.Init), c.text(f.Cond), c.body(f.Body))
		if f.Else != nil {
			s += " else " + c.text(f.Else)
		}
		return s + "\n}", true
	},
	"retvar": func(c *ctx, n ast.Node) (string, bool) {
		r, ok := n.(*ast.ReturnStmt)
		if !ok || !c.inBlock(n) || len(r.Results) == 0 {
			return "", false
		}
		sig := c.signature(n)
		k := sig.Results().Len()
		var vs []string
		for i := 0; i < k; i++ {
			vs = append(vs, c.fresh("res"))
		}
		if len(r.Results) != k {
			return fmt.Sprintf("%s := %s\nreturn %s", strings.Join(vs, ", "), c.text(r.Results[0]), strings.Join(vs, ", ")), true
		}
		s := ""
		for i, e := range r.Results {
			t, ok := c.typeStr(sig.Results().At(i).Type())
			if !ok {
				return "", false
			}
			s += fmt.Sprintf("var %s %s = %s\n", vs[i], t, c.text(e))
		}
		return s + "return " + strings.Join(vs, ", "), true
	},
	"swapcmp": func(c *ctx, n ast.Node) (string, bool) {
		b, ok := n.(*ast.BinaryExpr)
		m := map[token.Token]string{token.EQL: "==", token.NEQ: "!=", token.LSS: ">", token.GTR: "<", token.LEQ: ">=", token.GEQ: "<="}
		if !ok || m[b.Op] == "" || has[*ast.CallExpr](b.X) && has[*ast.CallExpr](b.Y) {
			return "", false
		}
		return c.text(b.Y) + " " + m[b.Op] + " " + c.text(b.X), true
	},
	"negcmp": func(c *ctx, n ast.Node) (string, bool) {
		b, ok := n.(*ast.BinaryExpr)
		m := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LSS: ">=", token.GTR: "<=", token.LEQ: ">", token.GEQ: "<"}
		if !ok || m[b.Op] == "" || isFloat(c.typ(b.X)) {
			return "", false
		}
		return "!(" + c.text(b.X) + " " + m[b.Op] + " " + c.text(b.Y) + ")", true
	},
	"demorgan": func(c *ctx, n ast.Node) (string, bool) {
		b, ok := n.(*ast.BinaryExpr)
		m := map[token.Token]string{token.LAND: "||", token.LOR: "&&"}
		if !ok || m[b.Op] == "" {
			return "", false
		}
		return "!(!(" + c.text(b.X) + ") " + m[b.Op] + " !(" + c.text(b.Y) + "))", true
	},
	"nestif": func(c *ctx, n ast.Node) (string, bool) {
		f, ok := n.(*ast.IfStmt)
		if !ok || f.Else != nil {
			return "", false
		}
		b, ok := f.Cond.(*ast.BinaryExpr)
		if !ok || b.Op != token.LAND {
			return "", false
		}
		init := ""
		if f.Init != nil {
			init = c.text(f.Init) + "; "
		}
		return fmt.Sprintf("if %s%s {\nif %s {\n%s}\n}", init, c.text(b.X), c.text(b.Y), c.body(f.Body)), true
	},
	"orsplit": func(c *ctx, n ast.Node) (string, bool) { // if a || b { return } -> two ifs
		f, ok := n.(*ast.IfStmt)
		if !ok || f.Else != nil || f.Init != nil || !c.inBlock(n) || !terminates(f.Body) || len(f.Body.List) > 2 {
			return "", false
		}
		b, ok := f.Cond.(*ast.BinaryExpr)
		if !ok || b.Op != token.LOR {
			return "", false
		}
		body := c.body(f.Body)
		return fmt.Sprintf("if %s {\n%s}\nif %s {\n%s}", c.text(b.X), body, c.text(b.Y), body), true
	},
	"switchif": func(c *ctx, n ast.Node) (string, bool) { // switch x { case a: } -> if chain
		s, ok := n.(*ast.SwitchStmt)
		if !ok || s.Init != nil || !c.inBlock(n) || hasBranch(s, token.FALLTHROUGH, token.BREAK) {
			return "", false
		}
		tag := ""
		if s.Tag != nil {
			tag = c.fresh("tag")
			if c.info.Types[s.Tag].Value != nil {
				return "", false
			}
		}
		out, def := "", ""
		first := true
		for _, x := range s.Body.List {
			cc := x.(*ast.CaseClause)
			if cc.List == nil {
				def = c.stmts(cc.Body)
				continue
			}
			var cs []string
			for _, e := range cc.List {
				if tag != "" {
					cs = append(cs, tag+" == "+c.text(e))
				} else {
					cs = append(cs, "("+c.text(e)+")")
				}
			}
			if !first {
				out += " else "
			}
			first = false
			out += "if " + strings.Join(cs, " || ") + " {\n" + c.stmts(cc.Body) + "}"
		}
		if first {
			return "", false
		}
		if def != "" {
			out += " else {\n" + def + "}"
		}
		if tag != "" {
			out = tag + " := " + c.text(s.Tag) + "\n" + out
		}
		return out, true
	},
	"ifswitch": func(c *ctx, n ast.Node) (string, bool) {
		f, ok := n.(*ast.IfStmt)
		if !ok || f.Init != nil || !c.inBlock(n) || hasBranch(f, token.BREAK) {
			return "", false
		}
		s := "switch {\n"
		for {
			if t := c.typ(f.Cond); t == nil || !types.Identical(types.Default(t), types.Typ[types.Bool]) {
				return "", false
			}
			s += "case " + c.text(f.Cond) + ":\n" + c.body(f.Body)
			if f.Else == nil {
				break
			}
			if e, ok := f.Else.(*ast.IfStmt); ok {
				if e.Init != nil {
					return "", false
				}
				f = e
				continue
			}
			s += "default:\n" + c.body(f.Else.(*ast.BlockStmt))
			break
		}
		return s + "}", true
	},
	"continue": func(c *ctx, n ast.Node) (string, bool) { // the last if of a loop becomes a continue
		b, ok := n.(*ast.BlockStmt)
		if !ok || len(b.List) == 0 {
			return "", false
		}
		switch c.parent[b].(type) {
		case *ast.ForStmt, *ast.RangeStmt:
		default:
			return "", false
		}
		f, ok := b.List[len(b.List)-1].(*ast.IfStmt)
		if !ok || f.Else != nil || f.Init != nil || terminates(f.Body) {
			return "", false
		}
		return "{\n" + c.stmts(b.List[:len(b.List)-1]) + "if !(" + c.text(f.Cond) + ") {\ncontinue\n}\n" + c.body(f.Body) + "}", true
	},
	"opassign": func(c *ctx, n ast.Node) (string, bool) {
		switch a := n.(type) {
		case *ast.AssignStmt:
			m := map[token.Token]string{token.ADD_ASSIGN: "+", token.SUB_ASSIGN: "-", token.OR_ASSIGN: "|", token.AND_ASSIGN: "&", token.MUL_ASSIGN: "*"}
			if m[a.Tok] == "" || has[*ast.CallExpr](a.Lhs[0]) {
				return "", false
			}
			l := c.text(a.Lhs[0])
			return l + " = " + l + " " + m[a.Tok] + " (" + c.text(a.Rhs[0]) + ")", true
		case *ast.IncDecStmt:
			op := " += 1"
			if a.Tok == token.DEC {
				op = " -= 1"
			}
			return c.text(a.X) + op, true
		}
		return "", false
	},
	"vardecl": func(c *ctx, n ast.Node) (string, bool) {
		a, ok := n.(*ast.AssignStmt)
		if !ok || a.Tok != token.DEFINE || len(a.Lhs) != len(a.Rhs) || len(a.Lhs) != 1 || !c.inBlock(n) {
			return "", false
		}
		id := a.Lhs[0].(*ast.Ident)
		if c.info.Defs[id] == nil {
			return "", false
		}
		t, ok := c.typeStr(c.info.Defs[id].Type())
		if !ok || id.Name == "_" {
			return "", false
		}
		return fmt.Sprintf("var %s %s\n%s = %s", id.Name, t, id.Name, c.text(a.Rhs[0])), true
	},
	"argvar": func(c *ctx, n ast.Node) (string, bool) { // f(g(x)) -> v := g(x); f(v)
		var call *ast.CallExpr
		switch s := n.(type) {
		case *ast.ExprStmt:
			call, _ = s.X.(*ast.CallExpr)
		case *ast.AssignStmt:
			if len(s.Rhs) == 1 && !has[*ast.CallExpr](s.Lhs[0]) && !has[*ast.IndexExpr](s.Lhs[0]) {
				call, _ = s.Rhs[0].(*ast.CallExpr)
			}
		case *ast.ReturnStmt:
			if len(s.Results) == 1 {
				call, _ = s.Results[0].(*ast.CallExpr)
			}
		}
		if call == nil || !c.inBlock(n) || len(call.Args) == 0 || has[*ast.FuncLit](call) {
			return "", false
		}
		switch call.Fun.(type) {
		case *ast.Ident, *ast.SelectorExpr:
		default:
			return "", false
		}
		if has[*ast.CallExpr](call.Fun) || c.info.Types[call.Fun].IsType() || c.info.Types[call.Fun].IsBuiltin() {
			return "", false
		}
		at := -1
		for i, a := range call.Args {
			switch x := a.(type) {
			case *ast.CallExpr:
				if c.info.Types[x.Fun].IsType() || c.info.Types[x].Value != nil {
					continue
				}
				if _, tuple := c.typ(x).(*types.Tuple); tuple || at >= 0 {
					return "", false
				}
				at = i
			case *ast.Ident, *ast.BasicLit, *ast.SelectorExpr, *ast.BinaryExpr, *ast.StarExpr, *ast.IndexExpr, *ast.UnaryExpr, *ast.CompositeLit:
				if has[*ast.CallExpr](a) {
					return "", false
				}
			default:
				return "", false
			}
		}
		if at < 0 {
			return "", false
		}
		v := c.fresh("arg")
		a := call.Args[at]
		pre := c.raw(n.Pos(), a.Pos())
		post := c.raw(a.End(), n.End())
		return fmt.Sprintf("%s := %s\n%s%s%s", v, c.text(a), pre, v, post), true
	},
	"noop": func(c *ctx, n ast.Node) (string, bool) {
		b, ok := n.(*ast.BlockStmt)
		if !ok {
			return "", false
		}
		switch c.parent[b].(type) {
		case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
			return "", false
		}
		v := c.fresh("nop")
		return "{\n" + v + " := 0\n_ = " + v + "\n" + c.body(b) + "}", true
	},
	"impl": func(c *ctx, n ast.Node) (string, bool) { // the body goes into a function of its own
		f, ok := n.(*ast.FuncDecl)
		if !ok || f.Body == nil || f.Type.TypeParams != nil || len(f.Body.List) < 2 || f.Name.Name == "main" || f.Name.Name == "init" || callsRecover(f) {
			return "", false
		}
		if f.Recv != nil && (len(f.Recv.List[0].Names) == 0 || f.Recv.List[0].Names[0].Name == "_") {
			return "", false
		}
		if f.Recv != nil {
			t := f.Recv.List[0].Type
			if s, ok := t.(*ast.StarExpr); ok {
				t = s.X
			}
			if _, ok := t.(*ast.Ident); !ok {
				return "", false
			}
		}
		if f.Type.Results != nil && len(f.Type.Results.List) > 0 && len(f.Type.Results.List[0].Names) > 0 {
			return "", false
		}
		var args []string
		for _, p := range f.Type.Params.List {
			if len(p.Names) == 0 {
				return "", false
			}
			for _, id := range p.Names {
				if id.Name == "_" {
					return "", false
				}
				a := id.Name
				if _, ok := p.Type.(*ast.Ellipsis); ok {
					a += "..."
				}
				args = append(args, a)
			}
		}
		name := c.fresh("do" + strings.ToUpper(f.Name.Name[:1]) + f.Name.Name[1:])
		recv, call := "", name
		if f.Recv != nil {
			recv = c.raw(f.Recv.Pos(), f.Recv.End()) + " "
			call = f.Recv.List[0].Names[0].Name + "." + name
		}
		ret := ""
		if f.Type.Results != nil {
			ret = "return "
		}
		head := c.raw(f.Pos(), f.Body.Pos())
		sig := c.raw(f.Name.End(), f.Body.Pos())
		return head + "{\n" + ret + call + "(" + strings.Join(args, ", ") + ")\n}\n\nfunc " + recv + name + sig + c.inner(f.Body), true
	},
	"tail":  func(c *ctx, n ast.Node) (string, bool) { return tail(c, n, false) },
	"tail2": func(c *ctx, n ast.Node) (string, bool) { return tail(c, n, true) },
	"literal": func(c *ctx, n ast.Node) (string, bool) { // x := &T{A: a} -> x := new(T); x.A = a
		a, ok := n.(*ast.AssignStmt)
		if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 || len(a.Rhs) != 1 || !c.inBlock(n) {
			return "", false
		}
		e := a.Rhs[0]
		ptr := false
		if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
			ptr, e = true, u.X
		}
		l, ok := e.(*ast.CompositeLit)
		if !ok || l.Type == nil || len(l.Elts) == 0 {
			return "", false
		}
		if _, ok := c.typ(l).Underlying().(*types.Struct); !ok {
			return "", false
		}
		v := c.raw(a.Lhs[0].Pos(), a.Lhs[0].End())
		s := ""
		if ptr {
			s = v + " := new(" + c.raw(l.Type.Pos(), l.Type.End()) + ")\n"
		} else {
			s = "var " + v + " " + c.raw(l.Type.Pos(), l.Type.End()) + "\n"
		}
		for _, x := range l.Elts {
			kv, ok := x.(*ast.KeyValueExpr)
			if !ok || mentions(kv.Value, v) {
				return "", false
			}
			s += v + "." + kv.Key.(*ast.Ident).Name + " = " + c.text(kv.Value) + "\n"
		}
		return s, true
	},
	"append2": func(c *ctx, n ast.Node) (string, bool) {
		call, ok := n.(*ast.CallExpr)
		if !ok || !c.info.Types[call.Fun].IsBuiltin() || call.Ellipsis.IsValid() || len(call.Args) < 3 {
			return "", false
		}
		if id, ok := call.Fun.(*ast.Ident); !ok || id.Name != "append" {
			return "", false
		}
		s := c.text(call.Args[0])
		for _, a := range call.Args[1:] {
			s = "append(" + s + ", " + c.text(a) + ")"
		}
		return s, true
	},
	"sprintf": func(c *ctx, n ast.Node) (string, bool) { // a + b of strings -> fmt.Sprint
		b, ok := n.(*ast.BinaryExpr)
		if !ok || b.Op != token.ADD || c.info.Types[b].Value != nil {
			return "", false
		}
		if t, ok := c.typ(b).(*types.Basic); !ok || t.Kind() != types.String {
			return "", false
		}
		fm, as := "", []string{}
		var visit func(e ast.Expr)
		visit = func(e ast.Expr) {
			if x, ok := e.(*ast.BinaryExpr); ok && x.Op == token.ADD && c.info.Types[x].Value == nil {
				visit(x.X)
				visit(x.Y)
				return
			}
			fm += "%s"
			as = append(as, c.text(e))
		}
		visit(b)
		c.need["fmt"] = true
		return "fmt.Sprintf(\"" + fm + "\", " + strings.Join(as, ", ") + ")", true
	},
	"joinstr": func(c *ctx, n ast.Node) (string, bool) {
		b, ok := n.(*ast.BinaryExpr)
		if !ok || b.Op != token.ADD || c.info.Types[b].Value != nil {
			return "", false
		}
		if t, ok := c.typ(b).(*types.Basic); !ok || t.Kind() != types.String {
			return "", false
		}
		c.need["strings"] = true
		return "strings.Join([]string{" + c.text(b.X) + ", " + c.text(b.Y) + "}, \"\")", true
	},
	"deferfn": func(c *ctx, n ast.Node) (string, bool) {
		d, ok := n.(*ast.DeferStmt)
		if !ok || len(d.Call.Args) > 0 {
			return "", false
		}
		if _, ok := d.Call.Fun.(*ast.SelectorExpr); !ok {
			return "", false
		}
		call := c.raw(d.Call.Pos(), d.Call.End())
		if t, ok := c.typ(d.Call).(*types.Tuple); ok && t.Len() == 0 {
			return "defer func() { " + call + " }()", true
		}
		return "defer func() { _ = " + call + " }()", true
	},
	"lenzero": func(c *ctx, n ast.Node) (string, bool) { // s == "" -> len(s) == 0
		b, ok := n.(*ast.BinaryExpr)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ {
			return "", false
		}
		l, ok := b.Y.(*ast.BasicLit)
		if !ok || l.Value != `""` {
			return "", false
		}
		return "len(" + c.text(b.X) + ") " + b.Op.String() + " 0", true
	},
	"lengt": func(c *ctx, n ast.Node) (string, bool) { // len(x) > 0 -> len(x) != 0; len(x) == 0 -> len(x) < 1
		b, ok := n.(*ast.BinaryExpr)
		if !ok {
			return "", false
		}
		call, ok := b.X.(*ast.CallExpr)
		l, ok2 := b.Y.(*ast.BasicLit)
		if !ok || !ok2 || l.Value != "0" {
			return "", false
		}
		if id, ok := call.Fun.(*ast.Ident); !ok || id.Name != "len" {
			return "", false
		}
		switch b.Op {
		case token.GTR:
			return c.text(b.X) + " != 0", true
		case token.EQL:
			return c.text(b.X) + " < 1", true
		case token.NEQ:
			return c.text(b.X) + " >= 1", true
		}
		return "", false
	},
	"fieldvar": func(c *ctx, n ast.Node) (string, bool) { // fields of the receiver that are only read are read once at the beginning
		f, ok := n.(*ast.FuncDecl)
		if !ok || f.Body == nil || f.Recv == nil || len(f.Recv.List[0].Names) == 0 || hasAnyAssign(f.Body, f.Recv.List[0].Names[0].Name) || has[*ast.FuncLit](f) || has[*ast.ForStmt](f.Body) {
			return "", false
		}
		rn := f.Recv.List[0].Names[0].Name
		if rn == "_" || len(f.Body.List) == 0 {
			return "", false
		}
		// only the first statement's fields
		var sel *ast.SelectorExpr
		ast.Inspect(f.Body.List[0], func(x ast.Node) bool {
			if s, ok := x.(*ast.SelectorExpr); ok && sel == nil {
				if id, ok := s.X.(*ast.Ident); ok && id.Name == rn && c.info.Selections[s] != nil && c.info.Selections[s].Kind() == types.FieldVal {
					if _, isCall := c.parent[s].(*ast.SelectorExpr); !isCall {
						if u, isU := c.parent[s].(*ast.UnaryExpr); !isU || u.Op != token.AND {
							sel = s
						}
					}
				}
			}
			return sel == nil
		})
		if sel == nil {
			return "", false
		}
		switch f.Body.List[0].(type) {
		case *ast.IfStmt, *ast.ReturnStmt, *ast.SwitchStmt:
		default:
			return "", false
		}
		v := c.fresh("fld")
		head := c.raw(f.Pos(), f.Body.Pos())
		body := c.raw(f.Body.Pos(), f.Body.End())
		o := c.off(f.Body.Pos())
		body = body[:c.off(sel.Pos())-o] + v + body[c.off(sel.End())-o:]
		// evaluated early: only if nothing guards it
		if g, ok := f.Body.List[0].(*ast.IfStmt); ok && guarded(g.Cond, sel) {
			return "", false
		}
		return head + "{\n" + v + " := " + c.raw(sel.Pos(), sel.End()) + "\n" + body[1:], true
	},
	"condfn": func(c *ctx, n ast.Node) (string, bool) { // a condition becomes a function
		f, ok := n.(*ast.IfStmt)
		if !ok {
			return "", false
		}
		if id, ok := f.Cond.(*ast.Ident); ok && id != nil || has[*ast.FuncLit](f.Cond) || inGeneric(c, n) {
			return "", false
		}
		t := c.typ(f.Cond)
		if t == nil || !types.Identical(types.Default(t), types.Typ[types.Bool]) {
			return "", false
		}
		ps, as, ok := c.free(f.Cond)
		if !ok {
			return "", false
		}
		name := c.fresh("holds")
		c.extra = append(c.extra, fmt.Sprintf("func %s(%s) bool {\nreturn %s\n}\n", name, strings.Join(ps, ", "), c.text(f.Cond)))
		r := "if "
		if f.Init != nil {
			r += c.text(f.Init) + "; "
		}
		r += name + "(" + strings.Join(as, ", ") + ") {\n" + c.body(f.Body) + "}"
		if f.Else != nil {
			r += " else " + c.text(f.Else)
		}
		return r, true
	},
	"exprfn": func(c *ctx, n ast.Node) (string, bool) { // what a variable is set to becomes a function
		a, ok := n.(*ast.AssignStmt)
		if !ok || len(a.Rhs) != 1 || len(a.Lhs) != 1 || a.Tok != token.DEFINE && a.Tok != token.ASSIGN || has[*ast.FuncLit](a.Rhs[0]) || inGeneric(c, n) {
			return "", false
		}
		switch c.parent[n].(type) {
		case *ast.BlockStmt, *ast.CaseClause:
		default:
			return "", false
		}
		switch x := a.Rhs[0].(type) {
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "recover" {
				return "", false
			}
		case *ast.BinaryExpr:
		default:
			return "", false
		}
		if u := c.info.TypeOf(a.Lhs[0]); u == nil {
			return "", false
		}
		t := c.typ(a.Rhs[0])
		if _, ok := t.(*types.Tuple); ok || t == nil {
			return "", false
		}
		ts, ok := c.typeStr(types.Default(t))
		ps, as, ok2 := c.free(a.Rhs[0])
		if !ok || !ok2 {
			return "", false
		}
		name := c.fresh("valueOf")
		c.extra = append(c.extra, fmt.Sprintf("func %s(%s) %s {\nreturn %s\n}\n", name, strings.Join(ps, ", "), ts, c.text(a.Rhs[0])))
		return c.text(a.Lhs[0]) + " " + a.Tok.String() + " " + name + "(" + strings.Join(as, ", ") + ")", true
	},
	"constlit": func(c *ctx, n ast.Node) (string, bool) { // texts become constants
		l, ok := n.(*ast.BasicLit)
		if !ok || l.Kind != token.STRING || len(l.Value) < 4 {
			return "", false
		}
		for p := c.parent[n]; p != nil; p = c.parent[p] {
			switch g := p.(type) {
			case *ast.ImportSpec, *ast.Field:
				return "", false
			case *ast.GenDecl:
				if g.Tok == token.CONST || g.Tok == token.TYPE {
					return "", false
				}
			}
		}
		name := c.fresh("text")
		c.extra = append(c.extra, fmt.Sprintf("const %s = %s\n", name, l.Value))
		return name, true
	},
	"loopfn": func(c *ctx, n ast.Node) (string, bool) { // the body of a loop becomes a function
		b, ok := n.(*ast.BlockStmt)
		if !ok || len(b.List) == 0 {
			return "", false
		}
		switch c.parent[b].(type) {
		case *ast.ForStmt, *ast.RangeStmt:
		default:
			return "", false
		}
		return c.blockFn(b, "each")
	},
	"blockfn": func(c *ctx, n ast.Node) (string, bool) { // the body of an if becomes a function
		b, ok := n.(*ast.BlockStmt)
		if !ok || len(b.List) == 0 {
			return "", false
		}
		if _, ok := c.parent[b].(*ast.IfStmt); !ok {
			return "", false
		}
		return c.blockFn(b, "then")
	},
	"rename": func(c *ctx, n ast.Node) (string, bool) { // local variables get other names
		id, ok := n.(*ast.Ident)
		if !ok {
			return "", false
		}
		if ts, ok := c.parent[n].(*ast.AssignStmt); ok {
			if _, isTS := c.parent[ts].(*ast.TypeSwitchStmt); isTS && len(ts.Lhs) == 1 && ts.Lhs[0] == n {
				return "q0" + id.Name, true
			}
		}
		o := c.info.ObjectOf(id)
		v, ok := o.(*types.Var)
		if !ok || v.IsField() || v.Pkg() != c.pkg || v.Parent() == nil || v.Parent() == c.pkg.Scope() || id.Name == "_" {
			return "", false
		}
		if p, ok := c.parent[n].(*ast.KeyValueExpr); ok && p.Key == n {
			if _, isF := c.info.Uses[id].(*types.Var); isF && c.info.Uses[id].(*types.Var).IsField() {
				return "", false
			}
		}
		if strings.HasPrefix(id.Name, "q0") {
			return "", false
		}
		return "q0" + id.Name, true
	},
}

func inGeneric(c *ctx, n ast.Node) bool {
	for p := n; p != nil; p = c.parent[p] {
		if f, ok := p.(*ast.FuncDecl); ok {
			if f.Type.TypeParams != nil {
				return true
			}
			if f.Recv != nil && len(f.Recv.List) > 0 {
				t := f.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				_, id := t.(*ast.Ident)
				return !id
			}
			return false
		}
	}
	return true // not in a function
}

// free are the local variables of the surrounding function that n uses, as parameters and arguments.
func (c *ctx) free(n ast.Node) (ps, as []string, ok bool) {
	seen := map[types.Object]bool{}
	ok = true
	ast.Inspect(n, func(x ast.Node) bool {
		if u, isU := x.(*ast.UnaryExpr); isU && u.Op == token.AND {
			if _, isID := u.X.(*ast.Ident); isID {
				ok = false
			}
		}
		// pointer methods of values
		if s, isS := x.(*ast.SelectorExpr); isS {
			if sel := c.info.Selections[s]; sel != nil {
				if f, isF := sel.Obj().(*types.Func); isF {
					if _, ptr := f.Type().(*types.Signature).Recv().Type().(*types.Pointer); ptr {
						if t := c.typ(s.X); t != nil {
							if _, p2 := t.Underlying().(*types.Pointer); !p2 {
								ok = false
							}
						}
					}
				}
			}
		}
		id, isID := x.(*ast.Ident)
		if !isID {
			return true
		}
		if _, isT := c.info.Uses[id].(*types.TypeName); isT && c.info.Uses[id].Parent() != c.pkg.Scope() && c.info.Uses[id].Pkg() == c.pkg {
			ok = false
		}
		if k, isC := c.info.Uses[id].(*types.Const); isC && k.Pkg() == c.pkg && k.Parent() != c.pkg.Scope() {
			ok = false
		}
		o, isV := c.info.Uses[id].(*types.Var)
		if !isV || o.IsField() || o.Pkg() != c.pkg || seen[o] || o.Parent() == c.pkg.Scope() || o.Pos() >= n.Pos() && o.Pos() < n.End() {
			return true
		}
		seen[o] = true
		t, good := c.typeStr(o.Type())
		ok = ok && good
		ps = append(ps, o.Name()+" "+t)
		as = append(as, o.Name())
		return true
	})
	return
}

// blockFn puts the statements of b into a function; they may leave it by returning an error that is not nil.
func (c *ctx) blockFn(b *ast.BlockStmt, what string) (string, bool) {
	if inGeneric(c, b) || hasBranch(b, token.BREAK, token.CONTINUE, token.GOTO, token.FALLTHROUGH) || has[*ast.FuncLit](b) || has[*ast.DeferStmt](b) || has[*ast.LabeledStmt](b) || callsRecover(b) {
		return "", false
	}
	if terminates(b) {
		return "", false
	}
	for p := c.parent[b]; p != nil; p = c.parent[p] {
		if _, ok := p.(*ast.FuncLit); ok {
			return "", false
		}
	}
	ps, as, ok := c.free(b)
	if !ok {
		return "", false
	}
	rets := false
	ast.Inspect(b, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if id, isID := l.(*ast.Ident); isID {
					if o := c.info.Uses[id]; o != nil && !(o.Pos() >= b.Pos() && o.Pos() < b.End()) && o.Parent() != c.pkg.Scope() {
						ok = false
					}
				}
				// a field of a struct that is not a pointer
				base := l
				for {
					switch y := base.(type) {
					case *ast.SelectorExpr:
						base = y.X
						continue
					case *ast.IndexExpr:
						if _, arr := c.typ(y.X).Underlying().(*types.Array); arr {
							base = y.X
							continue
						}
					}
					break
				}
				if base != l {
					if t := c.typ(base); t != nil {
						if _, isS := t.Underlying().(*types.Struct); isS {
							ok = false
						}
					}
				}
			}
		case *ast.IncDecStmt:
			if id, isID := x.X.(*ast.Ident); isID {
				if o := c.info.Uses[id]; o != nil && !(o.Pos() >= b.Pos() && o.Pos() < b.End()) {
					ok = false
				}
			}
		case *ast.CallExpr:
			// pointer methods of values
			if s, isS := x.Fun.(*ast.SelectorExpr); isS {
				if sel := c.info.Selections[s]; sel != nil {
					if f, isF := sel.Obj().(*types.Func); isF {
						if _, ptr := f.Type().(*types.Signature).Recv().Type().(*types.Pointer); ptr {
							if t := c.typ(s.X); t != nil {
								if _, p2 := t.Underlying().(*types.Pointer); !p2 {
									ok = false
								}
							}
						}
					}
				}
			}
		case *ast.ReturnStmt:
			rets = true
			if len(x.Results) == 0 {
				ok = false
				return true
			}
			last := x.Results[len(x.Results)-1]
			if id, isID := last.(*ast.Ident); isID && id.Name == "nil" || len(x.Results) > 1 && !isZeroExpr(x.Results[:len(x.Results)-1]) {
				ok = false
			}
			if t := c.typ(last); t == nil || t.String() != "error" {
				ok = false
			}
			if call, isC := last.(*ast.CallExpr); isC && !strings.HasPrefix(c.raw(call.Pos(), call.End()), "errors.") {
				ok = false
			}
		}
		return true
	})
	if !ok {
		return "", false
	}
	name := c.fresh(what)
	if !rets {
		c.extra = append(c.extra, fmt.Sprintf("func %s(%s) {\n%s}\n", name, strings.Join(ps, ", "), c.body(b)))
		return "{\n" + name + "(" + strings.Join(as, ", ") + ")\n}", true
	}
	sig := c.signature(b)
	if sig == nil || sig.Results().Len() > 2 || sig.Results().At(sig.Results().Len()-1).Type().String() != "error" {
		return "", false
	}
	// the returns inside hand out the error only
	old := c.tr
	c.tr = func(c *ctx, n ast.Node) (string, bool) {
		if r, ok := n.(*ast.ReturnStmt); ok && len(r.Results) > 1 {
			return "return " + c.raw(r.Results[len(r.Results)-1].Pos(), r.End()), true
		}
		return "", false
	}
	body := c.body(b)
	c.tr = old
	zero := ""
	if sig.Results().Len() == 2 {
		switch u := sig.Results().At(0).Type().Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
			zero = "nil, "
		case *types.Basic:
			switch {
			case u.Info()&types.IsString != 0:
				zero = "\"\", "
			case u.Info()&types.IsNumeric != 0:
				zero = "0, "
			case u.Info()&types.IsBoolean != 0:
				zero = "false, "
			default:
				return "", false
			}
		default:
			return "", false
		}
	}
	c.extra = append(c.extra, fmt.Sprintf("func %s(%s) error {\n%sreturn nil\n}\n", name, strings.Join(ps, ", "), body))
	return "{\nif err := " + name + "(" + strings.Join(as, ", ") + "); err != nil {\nreturn " + zero + "err\n}\n}", true
}

func isZeroExpr(l []ast.Expr) bool {
	for _, e := range l {
		switch e := e.(type) {
		case *ast.Ident:
			if e.Name != "nil" && e.Name != "false" {
				return false
			}
		case *ast.BasicLit:
			if e.Value != "0" && e.Value != `""` {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func guarded(cond ast.Expr, sel ast.Node) bool {
	g := false
	ast.Inspect(cond, func(x ast.Node) bool {
		if b, ok := x.(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) && b.Y.Pos() <= sel.Pos() && sel.End() <= b.Y.End() {
			g = true
		}
		return true
	})
	return g || sel.Pos() > cond.End()
}

func terminatesIf(f *ast.IfStmt) bool {
	e, ok := f.Else.(*ast.BlockStmt)
	return ok && terminates(f.Body) && terminates(e)
}

func callsRecover(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(x ast.Node) bool {
		if id, ok := x.(*ast.Ident); ok && (id.Name == "recover" || id.Name == "Caller" || id.Name == "Callers") {
			r = true
		}
		return !r
	})
	return r
}

func mentions(n ast.Node, name string) bool {
	r := false
	ast.Inspect(n, func(x ast.Node) bool {
		if id, ok := x.(*ast.Ident); ok && id.Name == name {
			r = true
		}
		return !r
	})
	return r
}

// assigned: the variable is assigned in the block.
func assigned(n ast.Node, name string) bool {
	r := false
	ast.Inspect(n, func(x ast.Node) bool {
		if a, ok := x.(*ast.AssignStmt); ok {
			for _, l := range a.Lhs {
				if id, ok := l.(*ast.Ident); ok && id.Name == name {
					r = true
				}
			}
		}
		return !r
	})
	return r
}

func hasAnyAssign(n ast.Node, name string) bool { return assigned(n, name) }

// tail puts the second half of a function into a function of its own.
func tail(c *ctx, n ast.Node, late bool) (string, bool) {
	f, ok := n.(*ast.FuncDecl)
	if !ok || f.Body == nil || f.Type.TypeParams != nil || len(f.Body.List) < 4 || f.Name.Name == "main" || f.Name.Name == "init" || callsRecover(f) {
		return "", false
	}
	if f.Type.Results != nil && len(f.Type.Results.List) > 0 && len(f.Type.Results.List[0].Names) > 0 {
		return "", false
	}
	if f.Recv != nil {
		t := f.Recv.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
		}
		if _, ok := t.(*ast.Ident); !ok {
			return "", false
		}
	}
	k := len(f.Body.List) / 2
	if late {
		k = len(f.Body.List) - 2
	}
	for _, s := range f.Body.List[:k] {
		if has[*ast.FuncLit](s) || has[*ast.LabeledStmt](s) { // closures may share variables
			return "", false
		}
		bad := false
		ast.Inspect(s, func(x ast.Node) bool {
			if u, ok := x.(*ast.UnaryExpr); ok && u.Op == token.AND {
				if _, ok := u.X.(*ast.Ident); ok {
					bad = true
				}
			}
			return !bad
		})
		if bad {
			return "", false
		}
	}
	rest := f.Body.List[k:]
	seen := map[types.Object]bool{}
	var ps, as []string
	bad := false
	for _, s := range rest {
		ast.Inspect(s, func(x ast.Node) bool {
			id, ok := x.(*ast.Ident)
			if !ok {
				return true
			}
			o, ok := c.info.Uses[id].(*types.Var)
			if !ok || o.IsField() || o.Pkg() != c.pkg || seen[o] || o.Parent() == c.pkg.Scope() || o.Pos() < f.Pos() || o.Pos() >= rest[0].Pos() {
				return true
			}
			seen[o] = true
			t, ok := c.typeStr(o.Type())
			if !ok {
				bad = true
			}
			ps = append(ps, o.Name()+" "+t)
			as = append(as, o.Name())
			return true
		})
	}
	if bad {
		return "", false
	}
	name := c.fresh("rest" + strings.ToUpper(f.Name.Name[:1]) + f.Name.Name[1:])
	res, ret := "", ""
	if f.Type.Results != nil {
		res = c.raw(f.Type.Results.Pos(), f.Type.Results.End())
		ret = "return "
	}
	c.extra = append(c.extra, fmt.Sprintf("func %s(%s) %s {\n%s}\n", name, strings.Join(ps, ", "), res, c.stmts(rest)))
	head := c.raw(f.Pos(), f.Body.Pos())
	return head + "{\n" + c.stmts(f.Body.List[:k]) + ret + name + "(" + strings.Join(as, ", ") + ")\n}", true
}

func main() {
	if len(os.Args) < 3 {
		var l []string
		for k := range kinds {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, " "))
		return
	}
	dir, kind := os.Args[1], os.Args[2]
	only := ""
	if len(os.Args) > 3 {
		only = os.Args[3]
	}
	cfg := &packages.Config{Dir: dir, Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	total := 0
	for _, p := range pkgs {
		if strings.Contains(p.PkgPath, "/mocks") || strings.Contains(p.PkgPath, "/testdata") {
			continue
		}
		for _, f := range p.Syntax {
			name := p.Fset.File(f.Pos()).Name()
			if strings.HasSuffix(name, "_test.go") || only != "" && !strings.HasSuffix(name, only) || !strings.HasPrefix(name, dir+"/") {
				continue
			}
			src, err := os.ReadFile(name)
			if err != nil {
				continue
			}
			c := &ctx{fset: p.Fset, src: src, base: p.Fset.File(f.Pos()).Pos(0), info: p.TypesInfo, pkg: p.Types, parent: map[ast.Node]ast.Node{}, tr: kinds[kind], need: map[string]bool{}, file: f}
			var stack []ast.Node
			ast.Inspect(f, func(n ast.Node) bool {
				if n == nil {
					stack = stack[:len(stack)-1]
					return true
				}
				if len(stack) > 0 {
					c.parent[n] = stack[len(stack)-1]
				}
				stack = append(stack, n)
				return true
			})
			out := string(src[:c.off(f.Pos())])
			f2 := *f
			_ = f2
			body := c.inner(f)
			out += body + string(src[c.off(f.End()):])
			if c.n == 0 {
				continue
			}
			for _, x := range c.extra {
				out += "\n" + x
			}
			for im := range c.need {
				have := false
				for _, x := range f.Imports {
					have = have || x.Path.Value == `"`+im+`"`
				}
				if !have {
					i := strings.Index(out, "import (")
					if i < 0 {
						i = strings.Index(out, "\nimport ")
						out = out[:i] + "\nimport \"" + im + "\"\n" + out[i:]
					} else {
						out = out[:i+8] + "\n\t\"" + im + "\"\n" + out[i+8:]
					}
				}
			}
			b, err := format.Source([]byte(out))
			if err != nil {
				fmt.Println("cannot format", name, err)
				b = []byte(out)
				os.WriteFile("/tmp/bad.go", b, 0644)
				continue
			}
			total += c.n
			if err := os.WriteFile(name, b, 0644); err != nil {
				fmt.Println(err)
			}
		}
	}
	fmt.Println(kind, total, "changes")
}
