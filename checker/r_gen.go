package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// H02: generated code

func init() {
	rules["H02"] = propRule{run: runH02, title: "generated code",
		assum: []string{"text/template, go/format and bytes.Buffer work as documented; names of tables and columns have no quotes or backslashes"}}
}

const tmplExec = "text/template.(Template).Execute"

// tmplKind is what a template writes.
type tmplKind struct {
	text, kind string // model, info, defs or other
	typ        string // the name of the model
	cols       string // path of the columns
	tables     string // path of the tables
	info       string // expression of the name of the table info
	cache      bool
	nameFn     string // function that names table infos
	fieldFn    string // function that names columns
}

type genRule struct {
	*Report
	e                *Engine
	a                *Term
	funcs            map[string]*ssa.Function
	kinds            map[string]*tmplKind
	head             string
	pos              token.Pos
	drop             *Term
	execs            map[string]int
	pkgs             int
	fieldFn          string
	ends             []*Exit
	cache            *Term // the map of models with cached properties
	seenLoops        map[*LoopRec]bool
	keyMap           *Term
	grouped          map[*Term]bool
	tables, provider *Term
}

// globalText: the text a package level variable is initialised with, if it is never changed.
func (p *Program) globalText(g *ssa.Global) (string, bool) {
	if !p.immutable[g] || g.Pkg.Func("init") == nil {
		return "", false
	}
	var v ssa.Value
	for _, b := range g.Pkg.Func("init").Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				v = s.Val
			}
		}
	}
	return p.textOf(v)
}

func (p *Program) textOf(v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return constant.StringVal(x.Value), true
		}
	case *ssa.BinOp:
		a, ok1 := p.textOf(x.X)
		b, ok2 := p.textOf(x.Y)
		return a + b, ok1 && ok2 && x.Op == token.ADD
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			return p.globalText(g)
		}
	}
	return "", false
}

// globalFuncs: the functions a package level map is initialised with.
func (p *Program) globalFuncs(g *ssa.Global) map[string]*ssa.Function {
	r := map[string]*ssa.Function{}
	if g == nil || !p.immutable[g] || g.Pkg.Func("init") == nil {
		return r
	}
	for _, b := range g.Pkg.Func("init").Blocks {
		for _, in := range b.Instrs {
			u, ok := in.(*ssa.MapUpdate)
			if !ok {
				continue
			}
			stored := false
			for _, ref := range *u.Map.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == g {
					stored = true
				}
			}
			k, ok := u.Key.(*ssa.Const)
			if !stored || !ok {
				continue
			}
			v := u.Value
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
			}
			if f, ok := v.(*ssa.Function); ok {
				r[constant.StringVal(k.Value)] = f
			}
		}
	}
	return r
}

func runH02(r *Report) {
	p := r.p
	r.rule("each template that is executed is read as Go code with holes, for both ways of each condition, and type checked: the struct of a model has one field for an arbitrary column, named, typed and tagged by that column; ScanRow scans exactly into these fields in their order and gives the error; the results keep what they are given")
	r.rule("the description of a table that is generated has the names, the primary key, the indexes and the columns of the table, in the same order and without the same columns as the model, and is found by the name the model uses for it")
	r.rule("on every path of the generator each table of each schema is put into the model and into the descriptions exactly once, and both texts are written whole to their own places only if all of it succeeded")
	f := p.Method(typesPkg, "GenerateCmd", "generate")
	if f == nil {
		r.missing("generate")
		return
	}
	g := &genRule{Report: r, kinds: map[string]*tmplKind{}, execs: map[string]int{}, pos: f.Pos(), seenLoops: map[*LoopRec]bool{}, grouped: map[*Term]bool{}}
	g.funcs = map[string]*ssa.Function{}
	for _, m := range f.Pkg.Members {
		if gl, ok := m.(*ssa.Global); ok && strings.Contains(gl.Type().String(), "template.FuncMap") {
			for k, v := range p.globalFuncs(gl) {
				g.funcs[k] = v
			}
		}
	}
	res := r.run(f, func(e *Engine, st *State, args []*Term) {
		g.e, g.a = e, args[0]
		e.MaxStates = 2000
		for i, pr := range f.Params[1:] {
			if typeName(pr.Type()) == modPath+"/schema.Tables" {
				g.tables = args[i+1]
			}
			if b, ok := pr.Type().(*types.Basic); ok && b.Kind() == types.String && (g.provider == nil || pr.Name() == "provider") {
				g.provider = args[i+1]
			}
		}
		if g.tables == nil || g.provider == nil {
			g.missing("parameters of generate")
		}
		e.Inline = func(fn *ssa.Function, depth int) bool {
			return fn.Name() != "StringsCoalesce" && fn.Name() != "packageName" && fn.Name() != "goName" && !strings.HasSuffix(fn.Name(), "Writer") || fn.Parent() != nil
		}
		e.OnCall = g.model
	})
	g.ends = res.returns()
	for _, x := range g.ends {
		if m := g.defined(x.St)["DropColumns"]; m != nil {
			g.drop = m
		}
	}
	for _, x := range res.returns() {
		if res.succeeds(x) {
			g.done(x)
		}
	}
	g.nameFuncs()
	g.columnTexts()
	for _, k := range []string{"model", "info", "defs"} {
		g.atLeast(g.execs[k], 1, "executions of the template of "+k)
	}
}

// model: functions of names are pure.
func (g *genRule) model(e *Engine, st *State, c *Call) *Outcome {
	if c.Name == tmplExec || strings.HasSuffix(c.Name, "(Cli).Writer") || strings.HasSuffix(c.Name, "(Cli).ErrWriter") {
		return quietCall(e, st, c)
	}
	for _, s := range []string{"ToGoPascal", "ToPascal", "(Client).Singular", "(Client).Plural", "StringsCoalesce", ".packageName", ".goName"} {
		if strings.HasSuffix(c.Name, s) && c.Instr != nil {
			vals := make([]*Term, len(c.Args))
			for i, a := range c.Args {
				vals[i] = e.snapshot(st, a)
			}
			return &Outcome{States: []*State{st}, Results: []*Term{e.ts.mk("pure", c.Name, types.Typ[types.String], vals...)}}
		}
	}
	if strings.HasSuffix(c.Name, "EqualFold") && strings.Contains(c.Name, "Contains") && c.Instr != nil {
		vals := make([]*Term, len(c.Args))
		for i, a := range c.Args {
			vals[i] = e.snapshot(st, a)
		}
		return &Outcome{States: []*State{st}, Results: []*Term{e.ts.mk("pure", c.Name, types.Typ[types.Bool], vals...)}}
	}
	return nil
}

// text of the template t.
func (g *genRule) text(st *State, t *Term) (string, bool) {
	for i := 0; i < 10; i++ {
		if t.op == "gval" && t.gl != nil {
			return g.compiled(t.gl)
		}
		found := false
		for _, ev := range st.events() {
			if ev.Kind != "call" || ev.Result == nil {
				continue
			}
			switch {
			case ev.Callee == "text/template.Must" && ev.Result == t:
				t, found = ev.Args[0], true
			case strings.HasSuffix(ev.Callee, "(Template).Parse") && len(ev.Result.args) == 2 && ev.Result.args[0] == t:
				x := ev.Args[1]
				if s, ok := x.constStr(); ok {
					return s, true
				}
				if x.op == "gval" && x.gl != nil {
					return g.p.globalText(x.gl)
				}
				return "", false
			}
		}
		if !found {
			break
		}
	}
	return "", false
}

// compiled: the text of a template that is kept in a package level variable.
func (g *genRule) compiled(gl *ssa.Global) (string, bool) {
	if !g.p.immutable[gl] || gl.Pkg.Func("init") == nil {
		return "", false
	}
	for _, b := range gl.Pkg.Func("init").Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok || s.Addr != gl {
				continue
			}
			v := s.Val
			for i := 0; i < 5; i++ {
				switch x := v.(type) {
				case *ssa.Extract:
					v = x.Tuple
				case *ssa.Call:
					c := x.Call.StaticCallee()
					if c == nil {
						return "", false
					}
					if c.Name() == "Must" {
						v = x.Call.Args[0]
						continue
					}
					if c.Name() == "Parse" {
						return g.p.textOf(x.Call.Args[1])
					}
					return "", false
				}
			}
		}
	}
	return "", false
}

// kindOf analyses a template, once.
func (g *genRule) kindOf(text string) *tmplKind {
	if k := g.kinds[text]; k != nil {
		return k
	}
	k := &tmplKind{text: text, kind: "other"}
	g.kinds[text] = k
	sks, err := skeletons(text, func(h string) bool { return strings.HasSuffix(h, ".StructString") })
	if err != nil {
		g.check(false, "template", g.pos, "a template is not read: %v", err)
		return k
	}
	var files []*genFile
	models := map[string]bool{}
	for _, sk := range sks {
		if _, ok := sk.conds[".WithCache"]; ok {
			k.cache = true
		}
		head := ""
		if !strings.Contains(sk.src, "package ") {
			head = g.header()
		}
		f, err := g.p.parseGenerated(sk, head)
		if err != nil {
			g.check(false, "template", g.pos, "a template does not give Go code: %v", err)
			return k
		}
		files = append(files, f)
		for name, s := range f.structs() {
			for _, fd := range s.Fields.List {
				if fn, _, ok := elementCall(f.name(fd.Type)); ok && g.funcs[fn] != nil {
					models[name] = true
				}
			}
		}
	}
	for _, f := range files {
		g.readModel(k, f, models)
		g.readDefs(k, f)
		g.readInfo(k, f)
	}
	return k
}

// header is what the files of models start with: the imports of the first template that has some.
func (g *genRule) header() string {
	if g.head != "" {
		return g.head
	}
	g.head = "package generated\nimport (\n\t\"github.com/effective-security/xdb\"\n\txdbschema \"github.com/effective-security/xdb/schema\"\n\t\"github.com/effective-security/x/values\"\n\t\"github.com/cockroachdb/errors\"\n)\n"
	return g.head
}

// columnField: the expression in "{fn([cols])}".
func elementCall(s string) (fn, cols string, ok bool) {
	if !strings.HasPrefix(s, "{") || !strings.HasSuffix(s, "])}") {
		return "", "", false
	}
	fn, cols, ok = strings.Cut(s[1:len(s)-3], "([")
	return fn, cols, ok && !strings.ContainsAny(cols, "{}()")
}

func (g *genRule) readModel(k *tmplKind, f *genFile, models map[string]bool) {
	for name, s := range f.structs() {
		n := 0
		for _, fd := range s.Fields.List {
			if len(fd.Names) == 1 {
				if fn, cols, ok := elementCall(f.name(fd.Type)); ok && g.funcs[fn] != nil {
					n++
					k.kind = "model"
					g.check(g.funcs[fn].Name() == "toGoType", "model:type", g.pos, "the type of a field is %s of its column, not its Go type", fn)
					ffn, fcols, ok := elementCall(f.sk.decode(fd.Names[0].Name))
					g.check(ok && fcols == cols && g.funcs[ffn] != nil, "model:name", g.pos, "a field is named %s", f.sk.decode(fd.Names[0].Name))
					g.named(ffn)
					k.cols, k.fieldFn = cols, ffn
					tag := ""
					if fd.Tag != nil {
						tag = f.sk.decode(fd.Tag.Value)
					}
					g.check(tag == "`{["+cols+"].Tag}`", "model:tag", g.pos, "the tag of a field is %s, not that of its column", tag)
				}
			}
		}
		if !models[name] {
			continue
		}
		k.typ = f.sk.decode(name)
		g.check(n == 1, "model:once", g.pos, "a column has %d fields in %s", n, name)
		for _, fd := range s.Fields.List {
			for _, nm := range fd.Names {
				if !strings.Contains(nm.Name, holeMark) {
					g.check(!nm.IsExported(), "model:other", g.pos, "the model has a field %s besides its columns", nm.Name)
				}
			}
		}
		g.methods(k, f, name)
	}
}

// named: all templates name the columns in one way.
func (g *genRule) named(fn string) {
	if g.fieldFn == "" {
		g.fieldFn = fn
	}
	g.check(fn == g.fieldFn, "names", g.pos, "columns are named by %s and by %s", g.fieldFn, fn)
}

// methods checks the functions of a generated model.
func (g *genRule) methods(k *tmplKind, f *genFile, model string) {
	g.pkgs++
	pkg, err := g.p.buildGenerated(f, g.pkgs)
	if err != nil {
		g.check(false, "model:code", g.pos, "the code that is generated does not compile: %v", err)
		return
	}
	var ts []*types.Named
	var names []string
	for n := range pkg.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if t, ok := pkg.Members[n].(*ssa.Type); ok {
			if nt, ok := t.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
				ts = append(ts, nt)
			}
		}
	}
	method := func(t types.Type, n string) *ssa.Function {
		sel := g.p.prog.MethodSets.MethodSet(types.NewPointer(t)).Lookup(pkg.Pkg, n)
		if sel == nil {
			return nil
		}
		return g.p.prog.MethodValue(sel)
	}
	scan, res, info := 0, 0, 0
	for _, t := range ts {
		name := f.sk.decode(t.Obj().Name())
		if m := method(t, "ScanRow"); m != nil && name == model {
			scan++
			g.scanRow(m, t)
		}
		if m := method(t, "SetResult"); m != nil && len(m.Params) == 4 {
			res++
			g.setResult(m, t)
		}
		if m := method(t, "SetResultWithCursor"); m != nil && len(m.Params) == 4 {
			g.setCursor(m, t)
		}
		if m := method(t, "GetTableInfo"); m != nil {
			info++
			rr := g.run(m, nil)
			for _, x := range rr.returns() {
				v := x.Results[0]
				n := ""
				if v.op == "global" && v.gl != nil {
					n = f.sk.decode(v.gl.Name())
				}
				if k.info == "" {
					k.info = n
				}
				g.check(n != "" && n == k.info && strings.Contains(n, "{"), "model:info", g.pos, "the table info of the model is %s", v)
			}
		}
	}
	g.check(scan == 1, "model:scan", g.pos, "the model %s has no ScanRow", model)
	g.check(res >= 1, "model:result", g.pos, "there is no result with SetResult for %s", model)
	g.check(info >= 1, "model:info", g.pos, "there is no result with GetTableInfo for %s", model)
}

// scanRow: the fields are scanned into, in their order.
func (g *genRule) scanRow(m *ssa.Function, t *types.Named) {
	str := t.Underlying().(*types.Struct)
	var want []string
	for i := 0; i < str.NumFields(); i++ {
		if strings.Contains(str.Field(i).Name(), holeMark) {
			want = append(want, str.Field(i).Name())
		}
	}
	rr := g.run(m, nil)
	for _, x := range rr.exits {
		if x.Panic {
			g.check(false, "scan:panic", g.pos, "ScanRow of a model may panic")
			continue
		}
		var scans []*Event
		for _, ev := range allEvents(x.St.events()) {
			if ev.Kind == "call" && strings.HasSuffix(ev.Callee, ".Scan") {
				scans = append(scans, ev)
			}
		}
		if len(scans) != 1 || scans[0].Args[0] != rr.args[1] {
			g.check(false, "scan:once", g.pos, "ScanRow of a model scans its row %d times", len(scans))
			continue
		}
		ev := scans[0]
		l := ev.Vals[len(ev.Vals)-1]
		ok := l.op == "slicelit" && len(l.args) == len(want)
		for i := 0; ok && i < len(want); i++ {
			a := unIface(l.args[i])
			ok = a.op == "field" && a.args[0] == rr.args[0] && strings.HasSuffix(a.aux, "."+want[i])
		}
		g.check(ok, "scan:fields", g.pos, "ScanRow of a model does not scan the columns into the fields of the model, in their order: %s", l)
		n, known := rr.e.nilness(x.St, x.Results[0])
		en, ek := rr.e.nilness(x.St, ev.Result)
		if w := x.Results[0]; w == ev.Result || w.op == "wrap" && w.args[0] == ev.Result && w.aux != "WithSecondaryError" && w.aux != "Mark" {
			continue
		}
		g.check(known && ek && n == en, "scan:error", g.pos, "ScanRow of a model does not fail exactly if the scan does")
	}
}

func (g *genRule) resultField(rr *runRes, x *Exit, t *types.Named, name string) *Term {
	return rr.e.loadField(x.St, rr.args[0], name)
}

func (g *genRule) setResult(m *ssa.Function, t *types.Named) {
	rr := g.run(m, nil)
	want := map[string]int{"Rows": 1, "HasNextPage": 2, "NextOffset": 3}
	for _, x := range rr.exits {
		for _, n := range []string{"Rows", "HasNextPage", "NextOffset"} {
			v := g.resultField(rr, x, t, n)
			g.check(!x.Panic && v != nil && sameValue(rr.e, x.St, v, rr.args[want[n]]), "result:"+n, g.pos, "SetResult of a result does not keep %s", n)
		}
	}
}

func sameValue(e *Engine, st *State, a, b *Term) bool {
	strip := func(t *Term) *Term {
		for (t.op == "conv" || t.op == "chgtype" || t.op == "retype") && len(t.args) == 1 {
			t = t.args[0]
		}
		return t
	}
	a, b = strip(a), strip(b)
	if a == b {
		return true
	}
	x, k1 := e.evalBool(st, a)
	y, k2 := e.evalBool(st, b)
	return isBoolean(a.typ) && k1 && k2 && x == y
}

func (g *genRule) setCursor(m *ssa.Function, t *types.Named) {
	rr := g.run(m, func(e *Engine, st *State, args []*Term) {
		e.OnCall = func(e *Engine, st *State, c *Call) *Outcome {
			if c.Fn == nil { // the function that is given
				return quietCall(e, st, c)
			}
			return nil
		}
	})
	for _, x := range rr.exits {
		if x.Panic {
			g.check(false, "result:panic", g.pos, "SetResultWithCursor of a result may panic")
			continue
		}
		rows, more := rr.args[1], rr.args[2]
		g.check(sameValue(rr.e, x.St, g.resultField(rr, x, t, "Rows"), rows), "cursor:rows", g.pos, "SetResultWithCursor of a result does not keep the rows")
		g.check(sameValue(rr.e, x.St, g.resultField(rr, x, t, "HasNextPage"), more), "cursor:more", g.pos, "SetResultWithCursor of a result does not keep whether there is more")
		next, k := rr.e.evalBool(x.St, more)
		l := rr.e.lenOf(rows)
		none, kl := rr.e.evalBool(x.St, rr.e.eqTerm(l, rr.e.ts.intTerm(0), l.typ))
		var calls []*Event
		for _, ev := range allEvents(x.St.events()) {
			if ev.Kind == "call" || ev.Kind == "callback" || ev.Kind == "dyncall" {
				calls = append(calls, ev)
			}
		}
		cur := g.resultField(rr, x, t, "Cursor")
		if k && !next || kl && none {
			g.check(len(calls) == 0, "cursor:none", g.pos, "a cursor is made although there is no next page or no row")
			continue
		}
		ok := len(calls) == 1 && len(calls[0].Args) > 0
		if ok {
			a := calls[0].Args[len(calls[0].Args)-1]
			ra := rr.e.readFrom(a)
			ok = ra != nil && ra.op == "index" && ra.args[0] == rows && rr.e.sameInt(x.St, ra.args[1], rr.e.ts.sub(l, rr.e.ts.intTerm(1), l.typ), false) && cur == calls[0].Result
		}
		g.check(ok && k && kl, "cursor:last", g.pos, "the cursor of a result is not made of its last row exactly if there is a next page")
	}
}

func (g *genRule) readDefs(k *tmplKind, f *genFile) {
	if k.kind == "model" {
		return
	}
	for name, v := range f.vars() {
		cl, ok := v.(*ast.CompositeLit)
		if !ok {
			continue
		}
		n := 0
		for _, el := range cl.Elts {
			kv, ok := el.(*ast.KeyValueExpr)
			if !ok {
				continue
			}
			fn, cols, ok := elementCall(f.name(kv.Key))
			if !ok {
				continue
			}
			col, isCol := kv.Value.(*ast.CompositeLit)
			if !isCol || !strings.HasSuffix(f.name(col.Type), ".Column") {
				continue
			}
			n++
			k.kind, k.cols = "defs", cols
			g.named(fn)
			body := ""
			if len(col.Elts) == 1 {
				body = f.name(col.Elts[0])
			}
			g.check(body == "{["+cols+"].StructString}", "defs:column", g.pos, "the description of a column is %s", body)
		}
		if n == 0 {
			continue
		}
		g.check(n == 1, "defs:once", g.pos, "a column is described %d times", n)
		for _, el := range cl.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok && f.name(kv.Key) == "Table" {
				k.info = strings.TrimPrefix(f.name(kv.Value), "&")
			}
		}
		g.check(strings.Contains(k.info, "{"), "defs:table", g.pos, "%s does not have its table info", name)
	}
}

func (g *genRule) readInfo(k *tmplKind, f *genFile) {
	vars := f.vars()
	var names []string
	for n := range vars {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, name := range names {
		cl, ok := vars[name].(*ast.CompositeLit)
		if u, isU := vars[name].(*ast.UnaryExpr); isU && u.Op == token.AND {
			cl, ok = u.X.(*ast.CompositeLit)
		}
		if !ok || cl.Type == nil || strings.HasPrefix(f.name(cl.Type), "map[") || !strings.HasSuffix(f.name(cl.Type), ".TableInfo") {
			continue
		}
		fn, tabs, ok := elementCall("{" + strings.Trim(name, "{}") + "}")
		if !ok {
			g.check(false, "info:name", g.pos, "a table info is named %s", name)
			continue
		}
		k.kind, k.nameFn, k.tables = "info", fn, tabs
		got := map[string]string{}
		for _, el := range cl.Elts {
			kv, ok := el.(*ast.KeyValueExpr)
			if !ok {
				continue
			}
			key := f.name(kv.Key)
			got[key] = f.name(kv.Value)
			if l, ok := kv.Value.(*ast.CompositeLit); ok {
				got[key] = f.name(l.Type) + "/"
				for _, e := range l.Elts {
					got[key] += f.name(e) + ";"
				}
			}
		}
		for _, key := range []string{"Schema", "Name", "SchemaName", "PrimaryKey"} {
			g.check(got[key] == "\"{["+tabs+"]."+key+"}\"", "info:"+key, g.pos, "%s of a table info is %s", key, got[key])
		}
		for _, key := range []string{"Columns", "Indexes"} {
			g.check(got[key] == "[]string/\"{[["+tabs+"]."+key+"]}\";", "info:"+key, g.pos, "%s of a table info are %s", key, got[key])
		}
		d := got["Dialect"]
		if v := vars[d]; v != nil {
			d = f.name(v)
		}
		g.check(d == "{.Dialect}", "info:Dialect", g.pos, "the dialect of a table info is %s", d)
	}
	if k.kind != "info" {
		return
	}
	for _, name := range names {
		cl, ok := vars[name].(*ast.CompositeLit)
		if !ok {
			continue
		}
		if _, isMap := cl.Type.(*ast.MapType); !isMap {
			continue
		}
		ok = len(cl.Elts) == 1
		if ok {
			kv := cl.Elts[0].(*ast.KeyValueExpr)
			fn, tabs, k2 := elementCall(strings.TrimPrefix(f.name(kv.Value), "&"))
			ok = k2 && fn == k.nameFn && tabs == k.tables && f.name(kv.Key) == "\"{["+k.tables+"].Name}\""
		}
		g.check(ok, "info:map", g.pos, "the map of tables does not have each table info by the name of its table")
	}
}

// at is the value of a path of the data of a template.
func (g *genRule) at(st *State, d *Term, path string) *Term {
	d = unIface(d)
	for _, n := range strings.Split(strings.TrimPrefix(path, "."), ".") {
		if d == nil || n == "" {
			return nil
		}
		if d.op == "struct" {
			d = g.e.fieldOf(d, n, nil)
			continue
		}
		d = g.e.loadField(st, d, n)
	}
	return d
}
