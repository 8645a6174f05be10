package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["G01"] = propRule{run: runG01, title: "schema queries"}
	rules["G02"] = propRule{run: runG02, title: "schema rows"}
	rules["G03"] = propRule{run: runG03, title: "schema filters"}
}

// ---- the text of the queries

type selItem struct{ expr, name string }

var identRx = regexp.MustCompile(`[\w$]+`)

func unquote(s string) string {
	s = strings.TrimSpace(s)
	return strings.Trim(s, "[]\"`")
}

func lastIdent(s string) string {
	l := identRx.FindAllString(s, -1)
	if len(l) == 0 {
		return ""
	}
	return strings.ToLower(l[len(l)-1])
}

var asRx = regexp.MustCompile(`(?is)^(.*?)\s+as\s+([\[\]\w"]+)$`)
var funcRx = regexp.MustCompile(`(?is)^(\w+)\s*\((.*)\)$`)
var fromRx = regexp.MustCompile(`(?is)\bfrom\b`)
var selectRx = regexp.MustCompile(`(?is)^\s*select\s+`)

// sqlLine: the text without comments and with single spaces.
func sqlLine(s string) string {
	s = regexp.MustCompile(`--[^\n]*`).ReplaceAllString(s, " ")
	return strings.TrimSpace(regexp.MustCompile(`\s+`).ReplaceAllString(s, " "))
}

// selectList are the items of the select list of the text.
func selectList(text string) (items []selItem, rest string, ok bool) {
	s := sqlLine(text)
	m := selectRx.FindString(s)
	if m == "" {
		return nil, "", false
	}
	s = s[len(m):]
	depth, start := 0, 0
	cut := func(x string) {
		x = strings.TrimSpace(x)
		it := selItem{expr: x, name: lastIdent(x)}
		if a := asRx.FindStringSubmatch(x); a != nil {
			it.expr, it.name = strings.TrimSpace(a[1]), strings.ToLower(unquote(a[2]))
		} else if f := funcRx.FindStringSubmatch(x); f != nil {
			it.name = strings.ToLower(f[1])
		}
		items = append(items, it)
	}
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '(':
			depth++
		case s[i] == ')':
			depth--
		case s[i] == ',' && depth == 0:
			cut(s[start:i])
			start = i + 1
		case depth == 0 && i > 0 && (s[i-1] == ' ') && len(s) > i+5 && strings.EqualFold(s[i:i+4], "from") && s[i+4] == ' ':
			cut(s[start:i])
			return items, s[i:], true
		}
	}
	return nil, "", false
}

// parts of a role: the name of an item may tell it, or the expression of an item that is renamed.
var rolesOf = map[string]map[string]string{
	"QueryTables": {"table_schema": "schema", "schema_name": "schema", "table_name": "name", "name": "name", "table_type": "type", "type_desc": "type"},
	"QueryViews": {"table_schema": "schema", "schema_name": "schema", "table_name": "table", "column_name": "name", "data_type": "type", "udt_name": "udt",
		"is_nullable": "null", "character_maximum_length": "max", "ordinal_position": "pos"},
	"QueryColumns": {"column_name": "name", "data_type": "type", "udt_name": "udt", "is_nullable": "null", "character_maximum_length": "max", "ordinal_position": "pos"},
	"QueryIndexes": {"index_name": "name", "is_pk": "pk", "is_primary_key": "pk", "indisprimary": "pk", "is_unique": "unique", "indisunique": "unique", "column_names": "columns", "columns": "columns"},
	"QueryForeignKeys": {"constraint_name": "name", "fk_name": "name", "table_schema": "schema", "schema_name": "schema", "table_name": "table", "table": "table", "column_name": "column", "column": "column",
		"foreign_table_schema": "refschema", "referenced_schema": "refschema", "foreign_table_name": "reftable", "referenced_table": "reftable", "foreign_column_name": "refcolumn", "referenced_column": "refcolumn"},
}

var wantRoles = map[string][]string{
	"QueryTables":      {"schema", "name", "type"},
	"QueryViews":       {"schema", "table", "name", "type", "udt", "null", "max", "pos"},
	"QueryColumns":     {"name", "type", "udt", "null", "max", "pos"},
	"QueryIndexes":     {"name", "pk", "unique", "columns"},
	"QueryForeignKeys": {"name", "schema", "table", "column", "refschema", "reftable", "refcolumn"},
}

var joinRx = regexp.MustCompile(`(?i)\b(?:from|join)\s+([\w.\[\]]+)(?:\s+as)?\s+(\w+)(?:\s+on\s+(.*?))?(?:$|\s(?:inner|left|join|where|cross|order|group)\b)`)

// fkSides tells for each alias of a query of foreign keys whether it is the table of the key or the referenced one.
func fkSides(rest string) map[string]string {
	side := map[string]string{}
	s := rest
	for {
		m := joinRx.FindStringSubmatchIndex(s)
		if m == nil {
			return side
		}
		sub := func(i int) string {
			if m[2*i] < 0 {
				return ""
			}
			return strings.ToLower(s[m[2*i]:m[2*i+1]])
		}
		table, alias, cond := sub(1), sub(2), sub(3)
		sd := ""
		switch {
		case strings.Contains(table, "constraint_column_usage"):
			sd = "ref"
		case strings.Contains(table, "table_constraints"), strings.Contains(table, "key_column_usage"):
			sd = "own"
		case strings.Contains(cond, "referenced_"):
			sd = "ref"
		case strings.Contains(cond, "parent_"):
			sd = "own"
		default:
			for a, x := range side {
				if regexp.MustCompile(`\b` + regexp.QuoteMeta(a) + `\.`).MatchString(cond) {
					sd = x
				}
			}
		}
		side[alias] = sd
		end := m[1]
		if m[6] >= 0 {
			end = m[7]
		} else {
			end = m[5]
		}
		s = s[end:]
	}
}

// roles gives for each column of the result of the query what it is.
func rolesIn(method, text string) ([]string, string) {
	items, rest, ok := selectList(text)
	if !ok {
		return nil, "the select list of the query is not understood"
	}
	var rs []string
	seen := map[string]bool{}
	for _, it := range items {
		role := rolesOf[method][lastIdent(it.expr)]
		if role == "" || method == "QueryForeignKeys" {
			byExpr := role
			role = rolesOf[method][it.name]
			if role == "" {
				role = byExpr
				if method == "QueryForeignKeys" && (role == "schema" || role == "table" || role == "column") && fkSides(rest)[strings.ToLower(strings.SplitN(it.expr, ".", 2)[0])] == "ref" {
					role = "ref" + role
				}
			}
		}
		if role == "type" && seen["type"] {
			role = "udt" // the same name twice
		}
		if role == "" {
			return nil, fmt.Sprintf("the column %q of the query is not known", it.expr)
		}
		if method == "QueryForeignKeys" && role != "name" {
			q := strings.ToLower(strings.SplitN(it.expr, ".", 2)[0])
			want := "own"
			if strings.HasPrefix(role, "ref") {
				want = "ref"
			}
			if sd := fkSides(rest)[q]; sd != "" && sd != want {
				return nil, fmt.Sprintf("the column %q, which is given as the %s of the key, belongs to the other table", it.expr, role)
			}
		}
		if seen[role] {
			return nil, fmt.Sprintf("the query has the column %s twice", role)
		}
		seen[role] = true
		rs = append(rs, role)
	}
	for _, w := range wantRoles[method] {
		if !seen[w] {
			return nil, fmt.Sprintf("the query has no column for the %s", w)
		}
	}
	return rs, ""
}

// bindings gives for each placeholder of the text the role of what it is compared with.
func bindings(text string) map[string]string {
	r := map[string]string{}
	for _, m := range regexp.MustCompile(`(?i)([\w.\[\]]+)\s*=\s*(?:SCHEMA_ID\s*\(\s*)?([$@]\w+)`).FindAllStringSubmatch(text, -1) {
		role := ""
		switch l := lastIdent(m[1]); {
		case strings.Contains(l, "schema"):
			role = "schema"
		case strings.HasPrefix(l, "table") || l == "name":
			role = "table"
		}
		ph := strings.ToLower(m[2])
		if old, ok := r[ph]; ok && old != role {
			role = "?"
		}
		r[ph] = role
	}
	for _, ph := range regexp.MustCompile(`[$@]\w+`).FindAllString(text, -1) {
		if r[strings.ToLower(ph)] == "" {
			r[strings.ToLower(ph)] = "?"
		}
	}
	return r
}

type dialectImpl struct {
	typ   *types.Named
	texts map[string]string // method -> query
}

var dialectMethods = []string{"QueryTables", "QueryViews", "QueryColumns", "QueryIndexes", "QueryForeignKeys"}

// dialects are the implementations of schema.Dialect that NewProvider uses, with the texts of their queries.
func (r *Report) dialects(check bool) []*dialectImpl {
	iface := r.p.Named("schema", "Dialect")
	if iface == nil {
		r.missing("schema.Dialect")
		return nil
	}
	it, ok := iface.Underlying().(*types.Interface)
	if !ok {
		r.missing("interface schema.Dialect")
		return nil
	}
	var out []*dialectImpl
	scope := iface.Obj().Pkg().Scope()
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		T, ok := tn.Type().(*types.Named)
		if !ok || types.IsInterface(T) || !(types.Implements(T, it) || types.Implements(types.NewPointer(T), it)) {
			continue
		}
		d := &dialectImpl{typ: T, texts: map[string]string{}}
		out = append(out, d)
		for _, m := range dialectMethods {
			d.texts[m] = r.dialectQuery(T, m, check)
		}
	}
	return out
}

func (r *Report) dialectQuery(T *types.Named, m string, check bool) string {
	f := r.p.Method("schema", T.Obj().Name(), m)
	key := "query:" + T.Obj().Name() + "." + m
	chk := func(ok bool, pos token.Pos, fm string, a ...any) bool {
		if check {
			return r.check(ok, key, pos, fm, a...)
		}
		return ok
	}
	if f == nil {
		r.missing(T.Obj().Name() + "." + m)
		return ""
	}
	if f.Synthetic != "" && len(f.Blocks) > 0 {
		// a wrapper of the method of the value
		if g := r.p.prog.FuncValue(f.Object().(*types.Func)); g != nil {
			f = g
		}
	}
	rr := r.run(f, func(e *Engine, st *State, args []*Term) {
		e.OnCall = func(e *Engine, st *State, c *Call) *Outcome {
			if isNamed(c.Name, "xdb.(DB).QueryContext") {
				return quietCall(e, st, c)
			}
			if c.Name == "database/sql.Named" && len(c.Args) == 2 {
				return &Outcome{States: []*State{st}, Results: []*Term{e.ts.mk("pure", c.Name, c.Common.Signature().Results().At(0).Type(), c.Args...)}}
			}
			return nil
		}
	})
	text := ""
	ok := false
	for _, x := range rr.returns() {
		var qs []*Event
		for _, ev := range x.St.events() {
			if isDBCall(ev) {
				qs = append(qs, ev)
			}
		}
		if !chk(len(qs) == 1 && method(qs[0].Callee) == "QueryContext" && len(qs[0].Args) == 4, x.Pos, "%s sends %d statements, not one query", m, len(qs)) {
			continue
		}
		q := qs[0]
		e := rr.e
		chk(q.Args[1] == rr.args[1], q.Instr.Pos(), "%s does not use the context it is given", m)
		chk(root(q.Args[0]) == root(rr.args[0]) || q.Args[0].any(func(t *Term) bool { return t == rr.args[0] }), q.Instr.Pos(), "%s does not use the database of its provider", m)
		s, isText := q.Args[2].constStr()
		if !chk(isText, q.Instr.Pos(), "the text of the query of %s is made at run time: %s", m, q.Args[2]) {
			continue
		}
		if text == "" {
			text = s
		}
		chk(text == s, q.Instr.Pos(), "%s has several queries", m)
		res := q.results()
		rowsOK := len(x.Results) == 2 && x.Results[0] == res[0]
		if n, k := e.nilness(x.St, res[1]); k && !n && len(x.Results) == 2 {
			n, k = e.nilness(x.St, x.Results[0])
			rowsOK = rowsOK || k && n
		}
		chk(rowsOK && (x.Results[1] == res[1] || sameFailure(e, x.St, x.Results[1], res[1])), x.Pos, "%s does not return the rows of its query", m)
		vals := e.snapshot(x.St, q.Vals[3])
		var given []*Term
		switch {
		case vals.op == "slicelit":
			given = vals.args
		case vals.isNil():
		default:
			chk(false, q.Instr.Pos(), "the arguments of %s are not a list of values", m)
			continue
		}
		ok = true
		b := bindings(s)
		seen := map[string]bool{}
		for i, g := range given {
			ph := fmt.Sprintf("$%d", i+1)
			v := unIface(g)
			if v.op == "pure" && v.aux == "database/sql.Named" && len(v.args) == 2 {
				nm, _ := v.args[0].constStr()
				ph, v = "@"+strings.ToLower(nm), unIface(v.args[1])
			}
			if v.op == "struct" && len(v.args) == 3 { // a literal sql.NamedArg
				nm, _ := v.args[1].constStr()
				ph, v = "@"+strings.ToLower(nm), unIface(v.args[2])
			}
			if v.op == "ld" && typeName(v.typ) == "database/sql.NamedArg" {
				nm, _ := e.loadField(x.St, v.args[0], "Name").constStr()
				ph, v = "@"+strings.ToLower(nm), unIface(e.loadField(x.St, v.args[0], "Value"))
			}
			role := b[ph]
			seen[ph] = true
			want := roleArg(rr, role)
			chk(want != nil && v == want, q.Instr.Pos(), "the argument %s of %s, which is compared with the %s, is %s", ph, m, role, v)
		}
		for ph, role := range b {
			chk(seen[ph], q.Instr.Pos(), "%s does not give the argument %s (%s) of its text", m, ph, role)
		}
		if len(rr.args) == 4 {
			roles := map[string]bool{}
			for _, role := range b {
				roles[role] = true
			}
			chk(roles["schema"] && roles["table"], q.Instr.Pos(), "%s does not restrict its query to the schema and the table", m)
		}
		rs, msg := rolesIn(m, s)
		chk(msg == "" && rs != nil, q.Instr.Pos(), "%s: %s", m, msg)
	}
	chk(ok, f.Pos(), "%s never sends its query", m)
	return text
}

func sameFailure(e *Engine, st *State, got, want *Term) bool {
	n1, k1 := e.nilness(st, got)
	n2, k2 := e.nilness(st, want)
	return k1 && k2 && n1 == n2
}

func roleArg(rr *runRes, role string) *Term {
	if len(rr.args) != 4 {
		return nil
	}
	switch role {
	case "schema":
		return rr.args[2]
	case "table":
		return rr.args[3]
	}
	return nil
}

func runG01(r *Report) {
	r.rule("each method of a dialect sends exactly one query, whose text is a constant, on the database and context it is given, and returns its rows and error")
	r.rule("the schema and the table are never part of the text: each placeholder is bound to the value it is compared with, and to nothing else")
	r.rule("the columns of a query are those its reader expects; for foreign keys each belongs to the right table")
	r.rule("NewProvider uses the dialect of the database it is asked for, on the given database")
	ds := r.dialects(true)
	r.atLeast(len(ds), 2, "dialects")
	f := r.p.Func("schema", "NewProvider")
	if f == nil {
		r.missing("schema.NewProvider")
		return
	}
	uses := func(d *dialectImpl) string {
		all := strings.ToLower(d.texts["QueryTables"] + d.texts["QueryColumns"] + d.texts["QueryIndexes"])
		switch {
		case strings.Contains(all, "pg_"):
			return "postgres"
		case strings.Contains(all, "sys."):
			return "sqlserver"
		}
		return ""
	}
	for name, want := range map[string]string{"postgres": "postgres", "sqlserver": "sqlserver", "mssql": "sqlserver"} {
		key := "provider:" + name
		rr := r.run(f, func(e *Engine, st *State, args []*Term) { args[1] = e.ts.strTerm(name) })
		n := 0
		for _, x := range rr.returns() {
			n++
			p := unIface(x.Results[0])
			pt := ptrElem(p)
			if !r.check(pt != nil, key, x.Pos, "NewProvider does not return a new provider for %s", name) {
				continue
			}
			s, ok := pt.Underlying().(*types.Struct)
			if !r.check(ok, key, x.Pos, "NewProvider does not return a new provider for %s", name) {
				continue
			}
			var dia *Term
			for i := 0; i < s.NumFields(); i++ {
				if typeName(s.Field(i).Type()) == modPath+"/schema.Dialect" {
					dia = rr.e.load(x.St, rr.e.fieldAddr(p, pt, i), s.Field(i).Type())
				}
			}
			if !r.check(dia != nil && dia.op == "iface", key, x.Pos, "the provider for %s has no dialect", name) {
				continue
			}
			dt := dia.T
			base := unIface(dia)
			if pp, ok := dt.Underlying().(*types.Pointer); ok {
				dt = pp.Elem()
			}
			for _, d := range ds {
				if types.Identical(d.typ, dt) {
					r.check(uses(d) == want, key, x.Pos, "the provider for %s uses the queries of another database (%s)", name, d.typ.Obj().Name())
				}
			}
			ds2, ok := dt.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < ds2.NumFields(); i++ {
				if !isXDB(ds2.Field(i).Type()) {
					continue
				}
				v := rr.e.fieldOf(base, structAux(dt, i), ds2.Field(i).Type())
				if ptrElem(base) != nil {
					v = rr.e.load(x.St, rr.e.fieldAddr(base, dt, i), ds2.Field(i).Type())
				}
				r.check(sameVal(v, rr.args[0]), key, x.Pos, "the dialect for %s does not use the given database", name)
			}
		}
		r.check(n > 0, key, f.Pos(), "NewProvider does not return for %s", name)
	}
}

func structAux(T types.Type, i int) string {
	s := T.Underlying().(*types.Struct)
	return typeKey(T) + "." + s.Field(i).Name()
}

// ---- the rows

// rowIter is one iteration of a loop that reads the rows of a query of the dialect.
type rowIter struct {
	e           *Engine
	st          *State
	rec         *LoopRec
	evs         []*Event
	scan, query *Event
	kind        string // method of the dialect
	run         *runRes
}

func (it *rowIter) col(i int) *Term {
	l := it.scan.Vals[1]
	if l.op != "slicelit" || i >= len(l.args) {
		return nil
	}
	return it.e.columnTerm(it.scan, i)
}

func (e *Engine) columnTerm(scan *Event, i int) *Term {
	a := unIface(scan.Vals[1].args[i])
	t := e.ts.mk("column", fmt.Sprintf("%s/%d", siteOf(scan), i), ptrElem(a), scan.Args[0])
	t.site = scan.Instr
	return t
}

func siteOf(ev *Event) string { return ev.Result.aux }

const foldName = "github.com/effective-security/x/slices.ContainsStringEqualFold"

// schemaModel: rows give one symbol per column, lists are searched by a pure function, sorting keeps the list.
func schemaModel(e *Engine, st *State, c *Call) *Outcome {
	switch {
	case c.Name == "database/sql.(Rows).Scan" && len(c.Args) == 2:
		o := quietCall(e, st, c)
		ev := st.log.ev
		if ev.Vals[1].op != "slicelit" {
			return nil
		}
		for i, a := range ev.Vals[1].args {
			p := unIface(a)
			if el := ptrElem(p); el != nil {
				e.store(st, p, e.columnTerm(ev, i), el, c.Site)
			}
		}
		return o
	case c.Name == "database/sql.(Rows).Next" || c.Name == "database/sql.(Rows).Close":
		return quietCall(e, st, c)
	case strings.HasPrefix(c.Name, modPath+"/schema.(Dialect)."):
		return quietCall(e, st, c)
	case c.Name == foldName:
		return &Outcome{States: []*State{st}, Results: []*Term{e.ts.mk("pure", foldName, types.Typ[types.Bool], c.Args...)}}
	case isSort(generic(c.Name)):
		return quietCall(e, st, c)
	case c.Name == "strings.Join" && len(c.Args) == 2:
		l := e.snapshot(st, c.Args[0])
		if l.op != "slicelit" {
			return nil
		}
		t := e.ts.strTerm("")
		for i, a := range l.args {
			if i > 0 {
				t = e.ts.concat(t, c.Args[1])
			}
			t = e.ts.concat(t, a)
		}
		return &Outcome{States: []*State{st}, Results: []*Term{t}}
	case c.Fn != nil && c.Fn.Blocks != nil && isListSearch(c.Fn):
		found, empty := foldSearch(e.p, c.Fn)
		if !found {
			return nil
		}
		T := types.Typ[types.Bool]
		fold := e.ts.mk("pure", foldName, T, c.Args...)
		if !empty {
			return &Outcome{States: []*State{st}, Results: []*Term{fold}}
		}
		zero := e.eqTerm(e.lenOf(c.Args[0]), e.ts.intTerm(0), tInt)
		o := &Outcome{}
		if s := st.clone(); e.assume(s, zero, true) {
			o.States, o.Results = append(o.States, s), append(o.Results, e.ts.boolTerm(true))
		}
		if s := st.clone(); e.assume(s, zero, false) {
			o.States, o.Results = append(o.States, s), append(o.Results, fold)
		}
		return o
	}
	return nil
}

func isSort(name string) bool {
	switch name {
	case "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "sort.Strings", "sort.Ints", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc":
		return true
	}
	return false
}

// schemaRuns runs the listing methods of the provider and calls back for each iteration over rows.
func (r *Report) schemaRuns(back func(it *rowIter), setup func(name string, e *Engine)) map[string]*runRes {
	T := r.schemaProvider()
	if T == nil {
		return nil
	}
	out := map[string]*runRes{}
	for _, name := range []string{"ListTables", "ListViews", "ListForeignKeys"} {
		f := r.p.Method("schema", T.Obj().Name(), name)
		if f == nil {
			r.missing(name)
			continue
		}
		rr := &runRes{fn: f}
		rr2 := r.run(f, func(e *Engine, st *State, args []*Term) {
			rr.e, rr.args = e, args
			e.OnCall = schemaModel
			e.assume(st, e.isNilTerm(args[0]), false)
			e.OnBack = func(st *State, rec *LoopRec) {
				if it := rowsIter(e, st, rec); it != nil && back != nil {
					it.run = rr
					back(it)
				}
			}
			if setup != nil {
				setup(name, e)
			}
		})
		rr.exits = rr2.exits
		out[name] = rr
	}
	return out
}

// schemaProvider is the implementation of schema.Provider that NewProvider returns.
func (r *Report) schemaProvider() *types.Named {
	f := r.p.Func("schema", "NewProvider")
	if f == nil {
		r.missing("schema.NewProvider")
		return nil
	}
	seen := map[*ssa.Function]bool{}
	var find func(f *ssa.Function) *types.Named
	find = func(f *ssa.Function) *types.Named {
		if f == nil || seen[f] || !r.p.isRepoFn(f) {
			return nil
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok && typeName(mi.Type()) == modPath+"/schema.Provider" {
					if p, ok := mi.X.Type().Underlying().(*types.Pointer); ok {
						if n, ok := p.Elem().(*types.Named); ok {
							return n
						}
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if n := find(c.Common().StaticCallee()); n != nil {
						return n
					}
				}
			}
		}
		return nil
	}
	if n := find(f); n != nil {
		return n
	}
	r.missing("the implementation of schema.Provider")
	return nil
}

func rowsIter(e *Engine, st *State, rec *LoopRec) *rowIter {
	it := &rowIter{e: e, st: st, rec: rec, evs: logSince(st.log, rec.Base)}
	var rows *Term
	for _, ev := range it.evs {
		switch {
		case ev.Kind == "call" && ev.Callee == "database/sql.(Rows).Next" && rows == nil:
			rows = ev.Args[0]
		case ev.Kind == "call" && ev.Callee == "database/sql.(Rows).Scan" && ev.Args[0] == rows:
			it.scan = ev // of the rows of this loop, not of one within
		}
	}
	if it.scan == nil {
		return nil
	}
	for _, ev := range st.events() {
		if ev.Kind == "call" && strings.Contains(ev.Callee, "schema.(Dialect).") && ev.results()[0] == it.scan.Args[0] {
			it.query = ev
		}
	}
	if it.query == nil {
		return nil
	}
	it.kind = method(it.query.Callee)
	return it
}

var rowObject = map[string]string{"QueryTables": "Table", "QueryViews": "Column", "QueryColumns": "Column", "QueryIndexes": "Index", "QueryForeignKeys": "ForeignKey"}

// kept are the objects of the kind that the iteration adds to a list.
func (it *rowIter) kept() (objs []*Term, appends []*Event) {
	for _, ev := range it.evs {
		if ev.Kind != "append" || ev.Result == nil {
			continue
		}
		els := ev.Result.args[1:]
		if ev.Args[1].op == "slicelit" {
			els = ev.Args[1].args
		}
		for _, x := range els {
			if pt := ptrElem(x); pt != nil && typeName(pt) == modPath+"/schema."+rowObject[it.kind] {
				objs = append(objs, x)
				appends = append(appends, ev)
			}
		}
	}
	return
}

func (it *rowIter) field(obj *Term, name string) *Term {
	return it.e.loadField(it.st, obj, name)
}

func (r *Report) roleTables() map[string]map[string][]string {
	res := map[string]map[string][]string{}
	for _, d := range r.dialects(false) {
		for m, t := range d.texts {
			rs, _ := rolesIn(m, t)
			if res[m] == nil {
				res[m] = map[string][]string{}
			}
			res[m][d.typ.Obj().Name()] = rs
		}
	}
	return res
}

func runG02(r *Report) {
	r.rule("every row of a query is scanned once, into as many targets as the query of each dialect has columns, in their order")
	r.rule("the object of a row has exactly the values of its columns, also converted: nullable iff the database says so, length 0 for none, the full name from schema, table and name")
	r.rule("the rows are neither skipped nor repeated, and each has an object of its own")
	roles := r.roleTables()
	seen := map[string]bool{}
	nullList := r.nullableFold()
	r.schemaRuns(func(it *rowIter) {
		key := "rows:" + it.kind
		pos := it.scan.Instr.Pos()
		e, st := it.e, it.st
		next, scans := 0, 0
		for _, ev := range it.evs {
			if ev.Kind != "call" || len(ev.Args) == 0 || ev.Args[0] != it.scan.Args[0] {
				continue
			}
			if ev.Callee == "database/sql.(Rows).Next" {
				next++
				r.check(scans == 0, key, ev.Instr.Pos(), "a row of %s is skipped", it.kind)
			}
			if ev.Callee == "database/sql.(Rows).Scan" {
				scans++
			}
		}
		r.check(next == 1 && scans == 1, key, pos, "an iteration reads %d rows of %s and scans %d", next, it.kind, scans)
		objs, _ := it.kept()
		if len(objs) == 0 {
			return
		}
		if !r.check(len(objs) == 1 && e.madeInLoop(it.rec, objs[0]), key, pos, "the rows of %s do not have one object of their own each", it.kind) {
			return
		}
		seen[it.kind] = true
		o := objs[0]
		n := 0
		if it.scan.Vals[1].op == "slicelit" {
			n = len(it.scan.Vals[1].args)
		}
		var ds []string
		for d := range roles[it.kind] {
			ds = append(ds, d)
		}
		sort.Strings(ds)
		for _, d := range ds {
			rs := roles[it.kind][d]
			if rs == nil {
				continue // reported by G01
			}
			key := key + ":" + d
			if !r.check(len(rs) == n, key, pos, "the query %s.%s has %d columns, and %d are scanned", d, it.kind, len(rs), n) {
				continue
			}
			col := func(role string) *Term {
				for i, x := range rs {
					if x == role {
						return it.col(i)
					}
				}
				return nil
			}
			eq := func(f string, want *Term) {
				got := it.field(o, f)
				r.check(got != nil && (got == want || want != nil && e.sameTerm(st, got, want, want.typ)), key, pos, "the field %s of a row of %s is %s, not the column that %s gives", f, it.kind, got, d)
			}
			cat := func(ts ...*Term) *Term {
				x := ts[0]
				for _, t := range ts[1:] {
					x = e.ts.concat(e.ts.concat(x, e.ts.strTerm(".")), t)
				}
				return x
			}
			column := func(schema, table *Term) {
				eq("Name", col("name"))
				eq("Type", col("type"))
				eq("UdtType", col("udt"))
				eq("SchemaName", cat(schema, table, col("name")))
				got := it.field(o, "Position")
				r.check(got != nil && wideConv(got, col("pos")), key, pos, "the position of a column is %s", got)
				mx := it.field(o, "MaxLength")
				if n, k := e.nilness(st, col("max")); k && n {
					r.check(mx != nil && mx.isInt(0), key, pos, "the length of a column without one is %s", mx)
				} else if r.check(k && mx != nil, key, pos, "the length of a column that may have none is %s", mx) {
					v := e.load(st, col("max"), ptrElem(col("max")))
					b := e.bounds(st, v)
					lo, hi := b.lo, b.hi
					switch {
					case mx.isInt(0):
						r.check(hi != nil && hi.Sign() <= 0, key, pos, "the length of a column is 0 although the database gives one")
					default:
						r.check(wideConv(mx, v) && lo != nil && lo.Sign() >= 0, key, pos, "the length of a column is %s, which may be negative", mx)
					}
				}
				nl := it.field(o, "Nullable")
				for _, v := range []string{"YES", "NO"} {
					got, feasible, known := e.underString(st, nl, col("null"), v, nullList)
					r.check(!feasible || known && got == (v == "YES"), key, pos, "a column that is nullable: %s is stored as %s", v, nl)
				}
			}
			switch it.kind {
			case "QueryTables":
				eq("Schema", col("schema"))
				eq("Name", col("name"))
				eq("Type", col("type"))
				eq("SchemaName", cat(col("schema"), col("name")))
				r.check(func() bool { v, k := e.evalBool(st, it.field(o, "IsView")); return k && !v }(), key, pos, "a table is marked as a view")
			case "QueryColumns":
				column(it.query.Args[2], it.query.Args[3])
			case "QueryViews":
				column(col("schema"), col("table"))
				r.viewTable(it, key, o, col("schema"), col("table"))
			case "QueryIndexes":
				eq("Name", col("name"))
				eq("IsPrimary", col("pk"))
				eq("IsUnique", col("unique"))
				eq("SchemaName", cat(it.query.Args[2], it.query.Args[3], col("name")))
				r.check(splitList(it, it.field(o, "ColumnNames"), col("columns")), key, pos, "the columns of an index are not those of the list that %s gives", d)
			case "QueryForeignKeys":
				eq("Name", col("name"))
				eq("Schema", col("schema"))
				eq("Table", col("table"))
				eq("Column", col("column"))
				eq("RefSchema", col("refschema"))
				eq("RefTable", col("reftable"))
				eq("RefColumn", col("refcolumn"))
				eq("SchemaName", cat(col("schema"), col("table"), col("name")))
			}
		}
	}, nil)
	for _, m := range dialectMethods {
		r.check(seen[m], "rows:"+m, token.NoPos, "no row of %s is ever kept", m)
	}
}

// wideConv: t is the integer v, converted to a type of 32 bits or more at once.
func wideConv(t, v *Term) bool {
	if t == v {
		return true
	}
	if t.op != "conv" || t.args[0] != v {
		return false
	}
	_, hi, ok := intRange(t.typ)
	return ok && hi.BitLen() >= 31
}

// splitList: list has the parts of text, separated by commas, in their order.
func splitList(it *rowIter, list, text *Term) bool {
	if list == nil || text == nil {
		return false
	}
	e := it.e
	isSplit := func(t *Term) bool {
		if t.op != "pure" || t.aux != "strings.Split" || len(t.args) != 2 || t.args[0] != text {
			return false
		}
		sep, ok := t.args[1].constStr()
		return ok && sep == ","
	}
	if isSplit(list) {
		return true
	}
	for _, ev := range it.evs {
		if ev.Kind != "loop" {
			continue
		}
		for _, s := range ev.Loop.Slots {
			if s.Sym != list {
				continue
			}
			z, k := e.evalBool(it.st, e.eqTerm(e.lenOf(s.Entry), e.ts.intTerm(0), tInt))
			if !k || !z || len(s.Backs) == 0 {
				return false
			}
			for _, b := range s.Backs {
				if b.op != "append" || b.aux == "..." || b.args[0] != s.Sym || len(b.args) != 2 {
					return false
				}
				el := b.args[1]
				if el.op != "ld" || el.args[0].op != "index" || !isSplit(el.args[0].args[0]) {
					return false
				}
				ix := loopOver(e, it.st, ev.Loop, el.args[0].args[0])
				if ix == nil || !e.sameInt(it.st, ix, el.args[0].args[1], false) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// viewTable: the column is added to the view of its schema and name, which is made once.
func (r *Report) viewTable(it *rowIter, key string, c, schema, table *Term) {
	e, st := it.e, it.st
	pos := it.scan.Instr.Pos()
	fq := e.ts.concat(e.ts.concat(schema, e.ts.strTerm(".")), table)
	T := r.p.Named("schema", "Table")
	if T == nil {
		r.missing("schema.Table")
		return
	}
	// the table that gets the column
	var owner *Term
	for _, ev := range it.evs {
		if ev.Kind != "store" || ev.Args[0].op != "field" || !strings.HasSuffix(ev.Args[0].aux, ".Columns") {
			continue
		}
		v := ev.Args[1]
		if v.op == "append" && len(v.args) == 2 && v.args[1] == c {
			owner = ev.Args[0].args[0]
			r.check(v.args[0].op == "ld" && v.args[0].args[0] == ev.Args[0] || isFresh(owner) && e.isEmptyList(st, v.args[0]), key, ev.Instr.Pos(), "the columns of a view are not kept when one is added")
		}
	}
	if !r.check(owner != nil, key, pos, "a column is not added to a view") {
		return
	}
	if isFresh(owner) {

		for f, w := range map[string]*Term{"Schema": schema, "Name": table, "SchemaName": fq} {
			r.check(e.loadField(st, owner, f) == w, key, pos, "the field %s of a new view is %s", f, e.loadField(st, owner, f))
		}
		v, k := e.evalBool(st, e.loadField(st, owner, "IsView"))
		r.check(k && v, key, pos, "a view is not marked as one")
		stored, absent := false, false
		for _, ev := range it.evs {
			if ev.Kind == "mapupdate" && ev.Args[2] == owner {
				stored = ev.Args[1] == fq
				absent = e.knownAbsent(st, ev.Args[0], fq)
			}
		}
		r.check(!stored || absent, key, pos, "a view is made anew although there may be one of its name already")
		r.check(stored, key, pos, "a new view is not remembered under its full name")
		return
	}
	ok := owner.op == "ld" && owner.args[0].op == "mapel" && owner.args[0].args[1] == fq
	r.check(ok, key, pos, "a column is added to %s, which is not the view of its schema and name", owner)
}

// knownAbsent: on the path the map was seen not to have the key.
func (e *Engine) knownAbsent(st *State, m, key *Term) bool {
	is := func(t *Term, op string) bool {
		return t.op == "ld" && t.args[0].op == op && t.args[0].args[0] == m && t.args[0].args[1] == key
	}
	for t, v := range st.b {
		if v && t.op == "isnil" && is(t.args[0], "mapel") || !v && is(t, "mapok") {
			return true
		}
	}
	return false
}

func (e *Engine) isEmptyList(st *State, t *Term) bool {
	v, k := e.evalBool(st, e.eqTerm(e.lenOf(t), e.ts.intTerm(0), tInt))
	return k && v
}

// nullableFold gives the texts in the package level lists of package schema.
func (r *Report) nullableFold() func(list *Term) ([]string, bool) {
	return func(list *Term) ([]string, bool) {
		if list.op == "slicelit" {
			var l []string
			for _, a := range list.args {
				s, ok := a.constStr()
				if !ok {
					return nil, false
				}
				l = append(l, s)
			}
			return l, true
		}
		var g *ssa.Global
		list.any(func(t *Term) bool {
			if t.gl != nil {
				g = t.gl
			}
			return false
		})
		if g == nil {
			return nil, false
		}
		return r.p.globalStrings(g)
	}
}

// globalStrings: the texts a package level list is initialised with, if nothing else is stored in it.
func (p *Program) globalStrings(g *ssa.Global) ([]string, bool) {
	var arr *ssa.Alloc
	stores := 0
	if !p.immutable[g] {
		return nil, false
	}
	for _, f := range p.funcs {
		if f.Pkg != g.Pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					stores++
					if sl, ok := s.Val.(*ssa.Slice); ok {
						arr, _ = sl.X.(*ssa.Alloc)
					}
				}
			}
		}
	}
	if stores != 1 || arr == nil {
		return nil, false
	}
	n := arr.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
	out := make([]string, n)
	for _, ref := range *arr.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		c, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		for _, r2 := range *ia.Referrers() {
			st, ok := r2.(*ssa.Store)
			if !ok {
				return nil, false
			}
			v, ok := st.Val.(*ssa.Const)
			if !ok || v.Value == nil {
				return nil, false
			}
			out[c.Int64()] = constant.StringVal(v.Value)
		}
	}
	return out, true
}

// underString evaluates the truth value under col = v; feasible is false if the path excludes it.
func (e *Engine) underString(st *State, val, col *Term, v string, lists func(*Term) ([]string, bool)) (res, feasible, known bool) {
	if val == nil || col == nil {
		return false, true, false
	}
	var ev func(t *Term) (bool, bool)
	str := func(t *Term) (string, bool) {
		if t == col {
			return v, true
		}
		if t.op == "pure" && len(t.args) == 1 {
			if s, ok := t.args[0].constStr(); ok || t.args[0] == col {
				if !ok {
					s = v
				}
				switch t.aux {
				case "strings.ToUpper":
					return strings.ToUpper(s), true
				case "strings.ToLower":
					return strings.ToLower(s), true
				case "strings.TrimSpace":
					return strings.TrimSpace(s), true
				}
			}
		}
		return t.constStr()
	}
	ev = func(t *Term) (bool, bool) {
		if b, ok := t.constBool(); ok {
			return b, true
		}
		switch {
		case t.op == "not":
			b, k := ev(t.args[0])
			return !b, k
		case t.op == "pure" && t.aux == foldName && len(t.args) == 2:
			s, ok := str(t.args[1])
			l, ok2 := lists(t.args[0])
			if !ok || !ok2 {
				return false, false
			}
			for _, x := range l {
				if strings.EqualFold(x, s) {
					return true, true
				}
			}
			return false, true
		case t.op == "pure" && t.aux == "strings.EqualFold" && len(t.args) == 2:
			a, ok := str(t.args[0])
			b, ok2 := str(t.args[1])
			return strings.EqualFold(a, b), ok && ok2
		case strings.HasPrefix(t.op, "eq") && len(t.args) == 2:
			a, ok := str(t.args[0])
			b, ok2 := str(t.args[1])
			return a == b, ok && ok2
		}
		return false, false
	}
	for _, f := range sortedTerms(st.b) {
		if b, k := ev(f); k && b != st.b[f] {
			return false, false, true
		}
	}
	if x, ok := st.eqc[col]; ok {
		if s, ok := x.constStr(); ok && s != v {
			return false, false, true
		}
	}
	res, known = ev(val)
	if !known {
		res, known = e.evalBool(st, val)
	}
	return res, true, known
}

// ---- filters

func runG03(r *Report) {
	r.rule("a row is left out exactly if a filter is given and does not have the name of the schema or the table of the row, compared without case")
	r.rule("rows of columns and indexes are never left out")
	r.rule("what is listed is the list of the kept rows, complete, or what was discovered from them")
	roles := r.roleTables()
	seen := map[string]int{}
	runs := r.schemaRuns(func(it *rowIter) {
		e, st := it.e, it.st
		key := "filter:" + it.kind
		pos := it.scan.Instr.Pos()
		objs, _ := it.kept()
		all := e.discovering(st, it.query)
		var lists []*Term
		for i, p := range it.run.fn.Params {
			if s, ok := p.Type().Underlying().(*types.Slice); ok && isString(s.Elem()) {
				lists = append(lists, it.run.args[i])
			}
		}
		if !r.check(len(lists) == 2, key, pos, "%s does not have two filters", it.run.fn.Name()) {
			return
		}
		filtered := it.kind == "QueryTables" || it.kind == "QueryViews" || it.kind == "QueryForeignKeys" && !all
		if !filtered {
			r.check(len(objs) == 1, key, pos, "a row of %s is left out", it.kind)
			seen[it.kind] |= 1
			return
		}
		for _, rs := range roles[it.kind] {
			mismatch, match := false, true
			for i, role := range []string{"schema", "table"} {
				if role == "table" && it.kind == "QueryTables" {
					role = "name"
				}
				var c *Term
				for j, x := range rs {
					if x == role {
						c = it.col(j)
					}
				}
				if c == nil {
					continue
				}
				empty, k1 := e.evalBool(st, e.eqTerm(e.lenOf(lists[i]), e.ts.intTerm(0), tInt))
				if !k1 {
					if n, k := e.nilness(st, lists[i]); k && n {
						empty, k1 = true, true
					}
				}
				has, k2 := e.evalBool(st, e.ts.mk("pure", foldName, types.Typ[types.Bool], lists[i], c))
				if k1 && !empty && k2 && !has {
					mismatch = true
				}
				if !(k1 && empty || k2 && has) {
					match = false
				}
			}
			if len(objs) == 0 {
				seen[it.kind] |= 2
				r.check(mismatch, key, pos, "a row of %s is left out although the filters accept it, or may", it.kind)
			} else {
				seen[it.kind] |= 1
				r.check(match, key, pos, "a row of %s is kept although a filter does not accept it, or may not", it.kind)
			}
		}
	}, nil)
	for _, m := range dialectMethods {
		r.check(seen[m]&1 != 0, "filter:"+m, token.NoPos, "no row of %s is ever kept", m)
	}
	for _, name := range []string{"ListTables", "ListViews", "ListForeignKeys"} {
		rr := runs[name]
		if rr == nil {
			continue
		}
		key := "result:" + name
		n := 0
		for _, x := range rr.returns() {
			if !rr.succeeds(x) {
				continue
			}
			n++
			r.resultList(rr, x, name, key)
			r.allRead(rr, x, name, key)
		}
		r.check(n > 0, key, rr.fn.Pos(), "%s never succeeds", name)
	}
}

// allRead: each query is read to its end, whether it is used once or in a loop.
func (r *Report) allRead(rr *runRes, x *Exit, name, key string) {
	var walk func(st *State, evs []*Event)
	walk = func(st *State, evs []*Event) {
		last := map[*Term]*Event{}
		for _, ev := range evs {
			if ev.Kind == "call" && ev.Callee == "database/sql.(Rows).Next" {
				last[ev.Args[0]] = ev
			}
		}
		for _, ev := range evs {
			if ev.Kind == "call" && strings.Contains(ev.Callee, "schema.(Dialect).") && len(ev.results()) == 2 {
				nx := last[ev.results()[0]]
				if !r.check(nx != nil, key, ev.Instr.Pos(), "%s does not read the rows of %s", name, method(ev.Callee)) {
					continue
				}
				v, k := rr.e.evalBool(st, nx.results()[0])
				r.check(k && !v, key, nx.Instr.Pos(), "%s succeeds although it may not have read all rows of %s", name, method(ev.Callee))
			}
		}
	}
	walk(x.St, x.St.events())
	for _, ev := range x.St.events() {
		if ev.Kind == "loop" {
			for i, it := range ev.Loop.Iters {
				if i < len(ev.Loop.Backs) {
					walk(ev.Loop.Backs[i], it)
				}
			}
		}
	}
}

// listSlot is the loop that makes the list, from the empty one.
func (e *Engine) listSlot(st *State, list *Term) (*LoopRec, *Recur) {
	for _, ev := range st.events() {
		if ev.Kind != "loop" {
			continue
		}
		for _, s := range ev.Loop.Slots {
			if s.Sym == list {
				if n, k := e.nilness(st, s.Entry); k && n || e.isEmptyList(st, s.Entry) {
					return ev.Loop, s
				}
				return nil, nil
			}
		}
	}
	return nil, nil
}

// rangedOver is the map whose iteration gives the key or value t.
func rangedOver(t *Term) *Term {
	if t.op == "extract" && t.args[0].op == "next" && t.args[0].args[0].op == "range" {
		return t.args[0].args[0].args[0]
	}
	return nil
}

// rangedMap: the list has each value of the map once, in any order.
func (e *Engine) rangedMap(s *Recur) *Term {
	var m *Term
	for _, b := range s.Backs {
		if b.op != "append" || b.aux == "..." || len(b.args) != 2 || b.args[0] != s.Sym {
			return nil
		}
		v := b.args[1]
		of := ""
		if v.op == "ld" && v.args[0].op == "mapel" { // by its key
			of, v = "1", v.args[0].args[1]
			if b.args[1].args[0].args[0] != rangedOver(v) {
				return nil
			}
		} else {
			of = "2"
		}
		if v.op != "extract" || v.aux != of || rangedOver(v) == nil {
			return nil
		}
		x := rangedOver(v)
		if m != nil && m != x {
			return nil
		}
		m = x
	}
	return m
}

func (r *Report) resultList(rr *runRes, x *Exit, name, key string) {
	e := rr.e
	rec, slot := e.listSlot(x.St, x.Results[0])
	if slot == nil {
		if n, k := e.nilness(x.St, x.Results[0]); k && n || e.isEmptyList(x.St, x.Results[0]) {
			for _, ev := range x.St.events() {
				if ev.Kind == "loop" {
					r.check(len(ev.Loop.Backs) == 0, key, x.Pos, "%s returns nothing although there were rows", name)
				}
			}
			return
		}
		r.check(false, key, x.Pos, "%s returns %s, which is not a list it made of the rows", name, x.Results[0])
		return
	}
	deps := name == "ListViews"
	if name == "ListTables" {
		w, k := e.evalBool(x.St, rr.args[len(rr.args)-1])
		if !r.check(k, key, x.Pos, "%s returns without regard to whether the dependencies are asked for", name) {
			return
		}
		deps = w
	}
	if !deps {
		rows := false
		for _, it := range rec.Iters {
			for _, ev := range it {
				if ev.Kind == "call" && ev.Callee == "database/sql.(Rows).Next" {
					for _, q := range x.St.events() {
						if q.Kind == "call" && strings.HasSuffix(q.Callee, "."+map[string]string{"ListTables": "QueryTables", "ListForeignKeys": "QueryForeignKeys"}[name]) && q.results()[0] == ev.Args[0] {
							rows = true
						}
					}
				}
			}
		}
		r.check(rows, key, x.Pos, "%s does not return the list of the rows", name)
		for _, b := range slot.Backs {
			ok := b == slot.Sym || b.op == "append" && b.aux != "..." && len(b.args) == 2 && b.args[0] == slot.Sym && e.madeInLoop(rec, b.args[1])
			r.check(ok, key, x.Pos, "the list of %s becomes %s for a row", name, b)
		}
		return
	}
	m := e.rangedMap(slot)
	if !r.check(m != nil, key, x.Pos, "the list of %s is not made of all tables that were found", name) {
		return
	}
	filled := false
	for _, ev := range allEvents(x.St.events()) {
		if ev.Kind == "mapupdate" && root(ev.Args[0]) == root(m) && sameMapField(ev.Args[0], m) {
			filled = true
		}
	}
	r.check(filled || len(rec.Backs) == 0, key, x.Pos, "the map that %s lists is not the one of the tables", name)
}

func sameMapField(a, b *Term) bool {
	if a.op == "ld" && b.op == "ld" {
		return a.args[0] == b.args[0]
	}
	return a == b
}

// discovering: the foreign keys are read for the discovery, without filters.
func (e *Engine) discovering(st *State, q *Event) bool {
	for _, ev := range st.events() {
		if ev == q {
			return false
		}
		if ev.Kind == "call" && strings.HasSuffix(ev.Callee, "schema.(Dialect).QueryTables") {
			return true
		}
	}
	return false
}

// isListSearch: a function of the repository that takes a list of texts and a text, and tells something of them.
func isListSearch(f *ssa.Function) bool {
	if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) || f.Signature.Recv() != nil || len(f.Params) != 2 || f.Signature.Results().Len() != 1 {
		return false
	}
	s, ok := f.Params[0].Type().Underlying().(*types.Slice)
	if !ok || !isString(s.Elem()) || !isString(f.Params[1].Type()) {
		return false
	}
	b, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic)
	if !ok || b.Kind() != types.Bool {
		return false
	}
	for _, blk := range f.Blocks {
		for _, p := range blk.Preds {
			if blk.Dominates(p) {
				return true // a loop: otherwise it is run as it is
			}
		}
	}
	return false
}

var foldSearches = map[*ssa.Function][2]bool{}

// foldSearch: the function tells whether the list has the text, compared without case; empty if it is true for the empty list.
func foldSearch(p *Program, f *ssa.Function) (ok, empty bool) {
	if r, ok := foldSearches[f]; ok {
		return r[0], r[1]
	}
	foldSearches[f] = [2]bool{}
	e := newEngine(p)
	st := newState()
	args := e.Params(f)
	list, text := args[0], args[1]
	equal := func(t *Term) *Term { // the element that is compared with the text
		if t.op != "pure" || t.aux != "strings.EqualFold" || len(t.args) != 2 {
			return nil
		}
		a, b := t.args[0], t.args[1]
		if a == text {
			a, b = b, a
		}
		if b == text && a.op == "ld" && a.args[0].op == "index" && a.args[0].args[0] == list {
			return a.args[0].args[1]
		}
		return nil
	}
	e.OnCall = func(e *Engine, st *State, c *Call) *Outcome {
		if c.Name == "strings.EqualFold" {
			return &Outcome{States: []*State{st}, Results: []*Term{e.ts.mk("pure", c.Name, types.Typ[types.Bool], c.Args...)}}
		}
		return nil
	}
	good, yes, no := true, false, false
	var differs []*Term
	e.OnBack = func(st *State, rec *LoopRec) {
		n := 0
		for _, t := range sortedTerms(st.b) {
			if i := equal(t); i != nil && !st.b[t] {
				differs = append(differs, i)
				n++
			}
		}
		good = good && n == 1
	}
	for _, x := range e.Run(f, st, args) {
		if x.Panic || len(x.Results) != 1 {
			good = false
			continue
		}
		v, k := e.evalBool(x.St, x.Results[0])
		z, kz := e.evalBool(x.St, e.eqTerm(e.lenOf(list), e.ts.intTerm(0), tInt))
		hit := false
		for _, t := range sortedTerms(x.St.b) {
			hit = hit || equal(t) != nil && x.St.b[t]
		}
		loops := 0
		for _, ev := range x.St.events() {
			if ev.Kind == "loop" {
				loops++
				all := len(differs) > 0
				ix := loopOver(e, x.St, ev.Loop, list)
				for _, d := range differs {
					all = all && ix != nil && e.sameInt(x.St, d, ix, false)
				}
				good = good && (all || hit)
			}
		}
		switch {
		case !k:
			good = false
		case v && hit:
			yes = true
		case v && kz && z && loops == 0:
			empty = true
		case !v && !hit && (loops > 0 || kz && z):
			no = true
		default:
			good = false
		}
	}
	r := [2]bool{good && yes && no, empty}
	foldSearches[f] = r
	return r[0], r[1]
}
