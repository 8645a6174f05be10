package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

// Templates of Go code are read as Go code with holes: each action becomes a hole, the body of a loop is
// taken once for an arbitrary element, and each condition is taken both ways.

// skeleton is the Go code of a template for one choice of its conditions.
type skeleton struct {
	src   string
	holes []string        // what is written in each hole
	conds map[string]bool // the choice
}

const holeMark = "ǃ" // a letter

var holeRx = regexp.MustCompile(holeMark + `(\d+)` + holeMark)

// decode writes the holes of an identifier or text as {expression}.
func (s *skeleton) decode(id string) string {
	return holeRx.ReplaceAllStringFunc(id, func(m string) string {
		n, _ := strconv.Atoi(strings.Trim(m, holeMark))
		return "{" + s.holes[n] + "}"
	})
}

type tmplWalk struct {
	set   map[string]*parse.Tree
	sk    *skeleton
	b     strings.Builder
	asked []string // conditions in the order they are met
	bad   string
}

// skeletons are the readings of a template; braces are the actions that write a text in braces.
func skeletons(text string, braces func(hole string) bool) ([]*skeleton, error) {
	tr := parse.New("t")
	tr.Mode = parse.SkipFuncCheck
	set := map[string]*parse.Tree{}
	root, err := tr.Parse(text, "", "", set)
	if err != nil {
		return nil, err
	}
	var out []*skeleton
	todo := []map[string]bool{{}}
	for len(todo) > 0 && len(out) < 300 {
		c := todo[0]
		todo = todo[1:]
		w := &tmplWalk{set: set, sk: &skeleton{conds: map[string]bool{}}}
		for k, v := range c {
			w.sk.conds[k] = v
		}
		w.list(root.Root, "", map[string]string{"$": ""})
		if w.bad != "" {
			return nil, fmt.Errorf("%s", w.bad)
		}
		for _, a := range w.asked { // the other way of each condition met for the first time
			alt := map[string]bool{}
			for k, v := range c {
				alt[k] = v
			}
			for _, b := range w.asked {
				if b == a {
					break
				}
				alt[b] = true
			}
			alt[a] = false
			todo = append(todo, alt)
		}
		w.sk.src = w.b.String()
		for i, h := range w.sk.holes {
			if braces(h) {
				m := fmt.Sprint(holeMark, i, holeMark)
				w.sk.src = strings.ReplaceAll(w.sk.src, m, "{"+m+"}")
			}
		}
		out = append(out, w.sk)
	}
	return out, nil
}

func (w *tmplWalk) hole(expr string) {
	for i, h := range w.sk.holes {
		if h == expr {
			fmt.Fprint(&w.b, holeMark, i, holeMark)
			return
		}
	}
	fmt.Fprint(&w.b, holeMark, len(w.sk.holes), holeMark)
	w.sk.holes = append(w.sk.holes, expr)
}

func (w *tmplWalk) list(l *parse.ListNode, dot string, vars map[string]string) {
	if l == nil {
		return
	}
	for _, n := range l.Nodes {
		w.node(n, dot, vars)
	}
}

func scope(vars map[string]string) map[string]string {
	r := map[string]string{}
	for k, v := range vars {
		r[k] = v
	}
	return r
}

func (w *tmplWalk) cond(c string) bool {
	neg := false
	for strings.HasPrefix(c, "not(") {
		c, neg = strings.TrimSuffix(strings.TrimPrefix(c, "not("), ")"), !neg
	}
	v, ok := w.sk.conds[c]
	if !ok {
		v = true
		w.sk.conds[c] = v
		w.asked = append(w.asked, c)
	}
	return v != neg
}

func (w *tmplWalk) node(n parse.Node, dot string, vars map[string]string) {
	switch x := n.(type) {
	case *parse.TextNode:
		w.b.Write(x.Text)
	case *parse.CommentNode:
	case *parse.ActionNode:
		v := w.pipe(x.Pipe, dot, vars)
		if len(x.Pipe.Decl) > 0 {
			vars[x.Pipe.Decl[0].Ident[0]] = v
			return
		}
		if s, err := strconv.Unquote(v); err == nil { // a constant
			w.b.WriteString(s)
			return
		}
		w.hole(v)
	case *parse.IfNode:
		vs := scope(vars)
		c := w.pipe(x.Pipe, dot, vs)
		if len(x.Pipe.Decl) > 0 {
			vs[x.Pipe.Decl[0].Ident[0]] = c
		}
		if w.cond(c) {
			w.list(x.List, dot, vs)
		} else {
			w.list(x.ElseList, dot, vs)
		}
	case *parse.WithNode:
		vs := scope(vars)
		c := w.pipe(x.Pipe, dot, vs)
		if len(x.Pipe.Decl) > 0 {
			vs[x.Pipe.Decl[0].Ident[0]] = c
		}
		if w.cond(c) {
			w.list(x.List, c, vs)
		} else {
			w.list(x.ElseList, dot, vs)
		}
	case *parse.RangeNode:
		vs := scope(vars)
		c := w.pipe(x.Pipe, dot, vs)
		el := "[" + c + "]"
		switch d := x.Pipe.Decl; len(d) {
		case 1:
			vs[d[0].Ident[0]] = el
		case 2:
			vs[d[0].Ident[0]], vs[d[1].Ident[0]] = "#"+c, el
		}
		w.list(x.List, el, vs)
	case *parse.TemplateNode:
		tr := w.set[x.Name]
		if tr == nil {
			w.bad = "no template " + x.Name
			return
		}
		d := ""
		if x.Pipe != nil {
			d = w.pipe(x.Pipe, dot, vars)
		}
		w.list(tr.Root, d, map[string]string{"$": d})
	default:
		w.bad = "not analysed: " + n.String()
	}
}

func (w *tmplWalk) pipe(p *parse.PipeNode, dot string, vars map[string]string) string {
	v := ""
	for i, c := range p.Cmds {
		var args []string
		for _, a := range c.Args {
			args = append(args, w.arg(a, dot, vars))
		}
		if i > 0 {
			args = append(args, v)
		}
		if id, ok := c.Args[0].(*parse.IdentifierNode); ok {
			v = id.Ident + "(" + strings.Join(args[1:], ",") + ")"
		} else if len(args) == 1 {
			v = args[0]
		} else {
			v = args[0] + "(" + strings.Join(args[1:], ",") + ")"
		}
	}
	return v
}

func (w *tmplWalk) arg(n parse.Node, dot string, vars map[string]string) string {
	path := func(base string, ids []string) string {
		for _, i := range ids {
			base += "." + i
		}
		return base
	}
	switch x := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.FieldNode:
		return path(dot, x.Ident)
	case *parse.VariableNode:
		return path(vars[x.Ident[0]], x.Ident[1:])
	case *parse.ChainNode:
		return path(w.arg(x.Node, dot, vars), x.Field)
	case *parse.PipeNode:
		return w.pipe(x, dot, vars)
	case *parse.IdentifierNode:
		return x.Ident
	}
	return n.String()
}

// genFile is the reading of a template as a file of Go.
type genFile struct {
	sk   *skeleton
	fset *token.FileSet
	file *ast.File
}

func (p *Program) parseGenerated(s *skeleton, head string) (*genFile, error) {
	g := &genFile{sk: s, fset: p.prog.Fset}
	src := s.src
	if head != "" {
		src = head + "\n" + src
	}
	f, err := parser.ParseFile(g.fset, "generated.go", src, parser.ParseComments)
	g.file = f
	return g, err
}

// name is the decoded name of an identifier.
func (g *genFile) name(x ast.Expr) string {
	switch y := x.(type) {
	case *ast.Ident:
		return g.sk.decode(y.Name)
	case *ast.SelectorExpr:
		return g.name(y.X) + "." + g.sk.decode(y.Sel.Name)
	case *ast.StarExpr:
		return "*" + g.name(y.X)
	case *ast.UnaryExpr:
		return y.Op.String() + g.name(y.X)
	case *ast.ParenExpr:
		return g.name(y.X)
	case *ast.BasicLit:
		if s, err := strconv.Unquote(y.Value); err == nil && y.Kind == token.STRING {
			return strconv.Quote(g.sk.decode(s))
		}
		return y.Value
	case *ast.ArrayType:
		return "[]" + g.name(y.Elt)
	case *ast.MapType:
		return "map[" + g.name(y.Key) + "]" + g.name(y.Value)
	}
	return fmt.Sprintf("%T", x)
}

// structs are the struct types of the file by their name, in variables too.
func (g *genFile) structs() map[string]*ast.StructType {
	r := map[string]*ast.StructType{}
	for _, d := range g.file.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, s := range gd.Specs {
			switch x := s.(type) {
			case *ast.TypeSpec:
				if st, ok := x.Type.(*ast.StructType); ok {
					r[g.sk.decode(x.Name.Name)] = st
				}
			case *ast.ValueSpec:
				t := x.Type
				if len(x.Values) == 1 {
					if cl, ok := x.Values[0].(*ast.CompositeLit); ok && t == nil {
						t = cl.Type
					}
				}
				if st, ok := t.(*ast.StructType); ok && len(x.Names) == 1 {
					r[g.sk.decode(x.Names[0].Name)] = st
				}
			}
		}
	}
	return r
}

// vars are the values that package level variables are declared with.
func (g *genFile) vars() map[string]ast.Expr {
	r := map[string]ast.Expr{}
	for _, d := range g.file.Decls {
		if gd, ok := d.(*ast.GenDecl); ok {
			for _, s := range gd.Specs {
				if v, ok := s.(*ast.ValueSpec); ok {
					for i, n := range v.Names {
						if i < len(v.Values) {
							r[g.sk.decode(n.Name)] = v.Values[i]
						}
					}
				}
			}
		}
	}
	return r
}

// build type checks the file, with the names of its holes declared as they are used, and makes its SSA form.
func (p *Program) buildGenerated(g *genFile, n int) (*ssa.Package, error) {
	imp := importerFunc(func(path string) (*types.Package, error) {
		for _, sp := range p.prog.AllPackages() {
			if sp.Pkg.Path() == path {
				return sp.Pkg, nil
			}
		}
		return nil, fmt.Errorf("no package %s", path)
	})
	rx := regexp.MustCompile(`undefined: (\S+)`)
	decls := map[string]string{}
	for round := 0; round < 4; round++ {
		files := []*ast.File{g.file}
		var names []string
		for k := range decls {
			names = append(names, k)
		}
		sort.Strings(names)
		pre := "package " + g.file.Name.Name + "\nimport xdbschema \"github.com/effective-security/xdb/schema\"\nvar _ xdbschema.TableInfo\n"
		for _, k := range names {
			pre += decls[k] + "\n"
		}
		pf, err := parser.ParseFile(g.fset, fmt.Sprintf("holes%d.go", round), pre, 0)
		if err != nil {
			return nil, err
		}
		files = append(files, pf)
		var errs []error
		again := false
		cfg := &types.Config{Importer: imp, Error: func(err error) {
			te, ok := err.(types.Error)
			if ok && strings.Contains(te.Msg, "imported and not used") || ok && strings.Contains(te.Msg, "could not import") {
				return
			}
			if ok && te.Soft {
				return
			}
			if ok {
				if m := rx.FindStringSubmatch(te.Msg); m != nil && holeRx.MatchString(m[1]) && decls[m[1]] == "" {
					d := g.sk.decode(m[1])
					if strings.Contains(d, "Type(") || strings.Contains(d, "type(") {
						decls[m[1]] = "type " + m[1] + " int64"
					} else {
						decls[m[1]] = "var " + m[1] + " xdbschema.TableInfo"
					}
					again = true
					return
				}
			}
			errs = append(errs, err)
		}}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			FileVersions: map[*ast.File]string{}}
		tp, _ := cfg.Check(fmt.Sprintf("%s/generated%d", modPath, n), g.fset, files, info)
		if again {
			continue
		}
		if len(errs) > 0 {
			return nil, errs[0]
		}
		sp := p.prog.CreatePackage(tp, files, info, false)
		sp.Build()
		return sp, nil
	}
	return nil, fmt.Errorf("names of holes")
}

type importerFunc func(path string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }
