package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// G07: the builders of a table

func init() {
	rules["G07"] = propRule{run: runG07, title: "statements of a table"}
}

// mapped is one way in which an element of the source becomes an element of the list.
type mapped struct {
	st    *State
	el, v *Term // element of the source and what it becomes
}

// mappedFrom: the list has, in their order, exactly one element for each one of src.
func (e *Engine) mappedFrom(st *State, list, src *Term, elT types.Type) ([]mapped, bool) {
	el := func(st *State, ix *Term) *Term {
		return e.load(st, e.ts.mk("index", "", types.NewPointer(elT), src, ix), elT)
	}
	var r []mapped
	if list.op == "make" { // made with the length and assigned
		if !e.sameInt(st, e.lenOf(list), e.lenOf(src), false) {
			return nil, false
		}
		for _, ev := range st.events() {
			if ev.Kind != "loop" {
				continue
			}
			ix := loopOver(e, st, ev.Loop, src)
			if ix == nil {
				continue
			}
			all := len(ev.Loop.Iters) > 0
			r = nil
			for k, it := range ev.Loop.Iters {
				if k >= len(ev.Loop.Backs) {
					continue
				}
				bst := ev.Loop.Backs[k]
				var v *Term
				for _, s := range it {
					if s.Kind == "store" && s.Args[0].op == "index" && s.Args[0].args[0] == list {
						v = nil
						if e.sameInt(bst, s.Args[0].args[1], ix, false) {
							v = s.Args[1]
						} else {
							all = false
						}
					}
				}
				if v == nil {
					all = false
					break
				}
				r = append(r, mapped{bst, el(bst, ix), v})
			}
			if all {
				return r, true
			}
		}
		return nil, false
	}
	rec, s := e.listSlot(st, list)
	if s == nil {
		return nil, false
	}
	ix := loopOver(e, st, rec, src)
	if ix == nil {
		return nil, false
	}
	for k, b := range s.Backs {
		if k >= len(rec.Backs) {
			break
		}
		if b.op != "append" || len(b.args) != 2 || b.aux == "..." || b.args[0] != s.Sym {
			return nil, false
		}
		r = append(r, mapped{rec.Backs[k], el(rec.Backs[k], ix), b.args[1]})
	}
	return r, true
}

// inSet: whether the key was found to be in the map of flags.
func (e *Engine) inSet(st *State, m, key *Term) (in, known bool) {
	for _, t := range sortedTerms(st.b) {
		a := e.readFrom(t)
		if a == nil || len(a.args) < 2 || a.args[0] != m || a.args[1] != key {
			continue
		}
		switch {
		case a.op == "mapel":
			return st.b[t], true
		case a.op == "mapok" && !st.b[t]:
			return false, true
		}
	}
	if e.emptyMap(st, m) {
		return false, true
	}
	return false, false
}

// emptyMap: the map is known to have no elements.
func (e *Engine) emptyMap(st *State, m *Term) bool {
	if n, k := e.nilness(st, m); k && n {
		return true
	}
	l := e.load(st, e.ts.mk("maplen", "", nil, m), types.Typ[types.Int])
	v, k := e.evalBool(st, e.eqTerm(l, e.ts.intTerm(0), l.typ))
	return k && v
}

// listText: the text has, separated by commas, exactly one element for each one of src, in their order.
func (e *Engine) listText(st *State, t, src *Term, elT types.Type) ([]mapped, bool) {
	if l := commaText(t); l != nil {
		if l = e.copied(st, l); l == src {
			return nil, true
		}
		return e.mappedFrom(st, l, src, elT)
	}
	for _, n := range []string{"strings.(Builder).String", "bytes.(Buffer).String"} {
		for _, ev := range callsNamed(st, n) {
			if ev.Result == t {
				return e.builtText(st, ev, src, elT)
			}
		}
	}
	return nil, false
}

// copied is the list that t is a copy of, or t.
func (e *Engine) copied(st *State, t *Term) *Term {
	for i := 0; i < 5; i++ {
		if t.op == "append" && t.aux == "..." && len(t.args) == 2 && (knownNil(e, st, t.args[0]) || e.isEmptyList(st, t.args[0])) {
			t = t.args[1]
			continue
		}
		for _, ev := range st.events() {
			if n, _, _ := strings.Cut(ev.Callee, "["); ev.Kind == "call" && n == "slices.Clone" && ev.Result == t {
				t = ev.Args[0]
				break
			}
		}
	}
	return t
}

// builtText: as listText, for a text written piece by piece.
func (e *Engine) builtText(st *State, str *Event, src *Term, elT types.Type) (r []mapped, ok bool) {
	w := str.Args[0]
	loops := 0
	for _, ev := range eventsBefore(st.events(), str) {
		if ev.Kind != "loop" {
			if ps, k := pieces(e, []*Event{ev}, w); !k || len(ps) > 0 {
				return nil, false
			}
			continue
		}
		if ps, k := pieces(e, []*Event{ev}, w); k && len(ps) == 0 {
			continue
		}
		ix := loopOver(e, st, ev.Loop, src)
		if loops++; ix == nil || loops > 1 {
			return nil, false
		}
		for k, it := range ev.Loop.Iters {
			if k >= len(ev.Loop.Backs) {
				continue
			}
			bst := ev.Loop.Backs[k]
			ps, pk := pieces(e, it, w)
			first, known := e.evalBool(bst, e.eqTerm(ix, e.ts.intTerm(0), ix.typ))
			if !pk || !known || len(ps) == 0 {
				return nil, false
			}
			if !first { // the separator
				c := strings.TrimLeft(ps[0].lit, " \n\t")
				if !strings.HasPrefix(c, ",") {
					return nil, false
				}
				if c = strings.TrimLeft(c[1:], " \n\t"); c == "" {
					ps = ps[1:]
				} else {
					ps = append([]piece{{lit: c}}, ps[1:]...)
				}
			}
			v := e.ts.strTerm("")
			for _, p := range ps {
				switch {
				case p.loop != nil || p.t != nil && p.verb != "s":
					return nil, false
				case p.t != nil:
					v = e.ts.concat(v, p.t)
				default:
					v = e.ts.concat(v, e.ts.strTerm(p.lit))
				}
			}
			r = append(r, mapped{bst, e.load(bst, e.ts.mk("index", "", types.NewPointer(elT), src, ix), elT), v})
		}
	}
	return r, loops == 1
}

// commaText: the text is the elements of the list, separated by commas.
func commaText(t *Term) *Term {
	if !isPure(t, "strings.Join") {
		return nil
	}
	if s, ok := t.args[1].constStr(); !ok || strings.TrimSpace(s) != "," {
		return nil
	}
	return t.args[0]
}

// changesList: the function rearranges the list it is given.
func changesList(callee string) bool {
	if strings.HasPrefix(callee, "sort.") {
		return !strings.HasPrefix(callee, "sort.Search") && !strings.HasSuffix(callee, "AreSorted") && !strings.HasSuffix(callee, "IsSorted")
	}
	for _, n := range []string{"Sort", "SortFunc", "SortStableFunc", "Reverse", "Delete", "DeleteFunc", "Compact", "CompactFunc", "Replace"} {
		if callee == "slices."+n {
			return true
		}
	}
	return false
}

func isBuilderCall(callee string) bool {
	for _, t := range []string{"(SQLDialect).", "(Builder).", "(Dialect).", "(Stmt)."} {
		if strings.HasPrefix(callee, modPath+"/xsql."+t) {
			return true
		}
	}
	return false
}

func runG07(r *Report) {
	r.rule("From, DeleteFrom, InsertInto and Update of a TableInfo start the statement of that kind of its dialect, on its full name")
	r.rule("Select selects the columns given, or all columns of the table as they are now, in their order, from its full name; SelectAliased selects the aliased columns from the full name with the prefix as its alias")
	r.rule("AliasedColumns has one element for each column of the table, in their order: NULL exactly for the columns named, otherwise the column, after the prefix and a dot if there is a prefix")
	r.rule("nothing of the TableInfo is changed")
	p := r.p
	T := p.Named("schema", "TableInfo")
	if T == nil {
		r.missing("TableInfo")
		return
	}
	inSchema := func(g *ssa.Function, d int) bool {
		return g.Pkg != nil && strings.HasSuffix(g.Pkg.Pkg.Path(), "/schema") || g.Parent() != nil
	}
	m := func(name string) *ssa.Function {
		f := p.Method("schema", "TableInfo", name)
		if f == nil {
			r.missing("TableInfo." + name)
		}
		return f
	}
	run := func(f *ssa.Function) *runRes {
		return r.run(f, func(e *Engine, st *State, a []*Term) {
			e.Inline = inSchema
			e.OnCall = func(e *Engine, st *State, c *Call) *Outcome {
				if isBuilderCall(c.Name) { // a statement does not know the TableInfo
					return quietCall(e, st, c)
				}
				return nil
			}
		})
	}
	unchanged := func(rr *runRes, x *Exit, name string) {
		for _, ev := range allEvents(x.St.events()) {
			if ev.Kind == "store" && root(ev.Args[0]) == rr.args[0] {
				r.check(false, "unchanged:"+name, evPos(ev), "%s changes the TableInfo, which is shared by all statements", name)
			}
			if ev.Kind == "call" && changesList(ev.Callee) {
				for _, a := range ev.Args {
					l := unIface(a)
					given := l == nil || isFresh(root(l))
					r.check(given, "unchanged:"+name, evPos(ev), "%s changes the order or elements of a list that it does not own, by %s", name, ev.Callee)
					break
				}
			}
		}
	}
	field := func(rr *runRes, st *State, name string) *Term { return rr.e.loadField(st, rr.args[0], name) }

	// AllColumns
	allCols := func(rr *runRes, x *Exit, t *Term) bool {
		cols := field(rr, x.St, "Columns")
		if c, k := t.constStr(); k {
			return c == "" && rr.e.isEmptyList(x.St, cols)
		}
		ms, ok := rr.e.listText(x.St, t, cols, types.Typ[types.String])
		for _, m := range ms {
			ok = ok && m.v == m.el
		}
		return ok
	}
	if f := m("AllColumns"); f != nil {
		rr := run(f)
		for _, x := range rr.returns() {
			r.check(allCols(rr, x, x.Results[0]), "columns:AllColumns", x.Pos, "AllColumns gives %s, not all columns in their order", x.Results[0])
			unchanged(rr, x, "AllColumns")
		}
		r.atLeast(len(rr.returns()), 1, "returns of AllColumns")
	}

	// AliasedColumns
	aliased := func(rr *runRes, x *Exit, t, prefix, nulls *Term, key string) {
		e := rr.e
		cols := field(rr, x.St, "Columns")
		if allCols(rr, x, t) && e.isEmptyList(x.St, cols) {
			return
		}
		if allCols(rr, x, t) {
			// a short cut for neither prefix nor null columns
			v, k := e.evalBool(x.St, e.eqTerm(prefix, e.ts.strTerm(""), prefix.typ))
			r.check(k && v && e.emptyMap(x.St, nulls), key, x.Pos, "the columns are given as they are, although there may be a prefix or null columns")
			return
		}
		ms, ok := e.listText(x.St, t, cols, types.Typ[types.String])
		if !r.check(ok, key, x.Pos, "the columns become %s, which does not have, with commas, one element for each column of the table in their order", t) {
			return
		}
		null, plain, pre := false, false, false
		for _, m := range ms {
			in, known := e.inSet(m.st, nulls, m.el)
			if s, k := m.v.constStr(); k && s == "NULL" {
				null = true
				r.check(known && in, key, x.Pos, "a column becomes NULL that may not be among the null columns")
				continue
			}
			r.check(known && !in, key, x.Pos, "a column becomes %s that may be among the null columns", m.v)
			v, k := e.evalBool(m.st, e.eqTerm(prefix, e.ts.strTerm(""), prefix.typ))
			switch {
			case m.v == m.el:
				plain = true
				r.check(k && v, key, x.Pos, "a column has no prefix although one may be given")
			case k && v && m.v == e.ts.concat(prefix, m.el): // an empty prefix
				plain = true
			case m.v == e.ts.concat(prefix, e.ts.concat(e.ts.strTerm("."), m.el)):
				pre = true
				r.check(k && !v, key, x.Pos, "a column has a prefix although none may be given")
			default:
				r.check(false, key, x.Pos, "a column becomes %s", m.v)
			}
		}
		r.check(null, key, x.Pos, "no column ever becomes NULL")
		r.check(plain || pre, key, x.Pos, "no column is ever listed")
	}
	if f := m("AliasedColumns"); f != nil && len(f.Params) == 3 {
		rr := run(f)
		for _, x := range rr.returns() {
			aliased(rr, x, x.Results[0], rr.args[1], rr.args[2], "columns:AliasedColumns")
			unchanged(rr, x, "AliasedColumns")
		}
		r.atLeast(len(rr.returns()), 1, "returns of AliasedColumns")
	}

	// statements
	stmt := func(name string, kind string, check func(rr *runRes, x *Exit, calls []*Event)) {
		f := m(name)
		if f == nil {
			return
		}
		rr := run(f)
		n := 0
		for _, x := range rr.returns() {
			key := "statement:" + name
			var calls []*Event
			for _, ev := range allEvents(x.St.events()) {
				if ev.Kind == "call" && isBuilderCall(ev.Callee) {
					calls = append(calls, ev)
				}
			}
			unchanged(rr, x, name)
			if !r.check(len(calls) > 0 && method(calls[0].Callee) == kind && sameVal(calls[0].Args[0], field(rr, x.St, "Dialect")), key, x.Pos, "%s does not start with %s of the dialect of the table", name, kind) {
				continue
			}
			n++
			check(rr, x, calls)
		}
		r.atLeast(n, 1, "statements of "+name)
	}
	noArgs := func(rr *runRes, x *Exit, ev *Event, key string) {
		for _, a := range ev.Args[2:] {
			r.check(rr.e.isEmptyList(x.St, a), key, x.Pos, "the statement is given arguments although its text has none")
		}
	}
	onTable := func(rr *runRes, x *Exit, ev *Event, key string) {
		r.check(ev.Args[1] == field(rr, x.St, "SchemaName"), key, x.Pos, "the statement is on %s, not on the full name of the table", ev.Args[1])
		noArgs(rr, x, ev, key)
	}
	for _, k := range []string{"From", "DeleteFrom", "InsertInto", "Update"} {
		stmt(k, k, func(rr *runRes, x *Exit, calls []*Event) {
			key := "statement:" + k
			onTable(rr, x, calls[0], key)
			r.check(len(calls) == 1 && sameVal(x.Results[0], calls[0].Result), key, x.Pos, "%s returns something else than the statement it has started", k)
		})
	}
	selects := func(rr *runRes, x *Exit, calls []*Event, key string) *Term {
		ok := len(calls) == 2 && method(calls[1].Callee) == "Select" && sameVal(calls[1].Args[0], calls[0].Result) && sameVal(x.Results[0], calls[1].Result)
		if !r.check(ok, key, x.Pos, "the statement is not From and then Select of the same statement") {
			return nil
		}
		noArgs(rr, x, calls[1], key)
		return calls[1].Args[1]
	}
	stmt("Select", "From", func(rr *runRes, x *Exit, calls []*Event) {
		key := "statement:Select"
		onTable(rr, x, calls[0], key)
		expr := selects(rr, x, calls, key)
		if expr == nil {
			return
		}
		cols := rr.args[1]
		if l := commaText(expr); l != nil && rr.e.copied(x.St, l) == cols {
			r.check(!rr.e.isEmptyList(x.St, cols), key, x.Pos, "no column is selected")
			return
		}
		if rr.e.isEmptyList(x.St, cols) {
			r.check(allCols(rr, x, expr), key, x.Pos, "without columns %s is selected, not all columns", expr)
			return
		}
		r.check(false, key, x.Pos, "%s is selected although columns are given", expr)
	})
	stmt("SelectAliased", "From", func(rr *runRes, x *Exit, calls []*Event) {
		key := "statement:SelectAliased"
		e := rr.e
		pre := rr.args[1]
		v, k := e.evalBool(x.St, e.eqTerm(pre, e.ts.strTerm(""), pre.typ))
		name := field(rr, x.St, "SchemaName")
		if k && v {
			onTable(rr, x, calls[0], key)
		} else {
			t := calls[0].Args[1]
			ok := t == e.ts.concat(name, e.ts.concat(e.ts.strTerm(" "), pre)) || t == e.ts.concat(name, e.ts.concat(e.ts.strTerm(" AS "), pre)) || t == e.ts.concat(name, e.ts.concat(e.ts.strTerm(" as "), pre))
			noArgs(rr, x, calls[0], key)
			r.check(k && ok, key, x.Pos, "the statement is on %s, not on the full name with the prefix as its alias", t)
		}
		if expr := selects(rr, x, calls, key); expr != nil {
			aliased(rr, x, expr, pre, rr.args[2], key)
		}
	})
}

func evPos(ev *Event) token.Pos {
	if ev.Instr != nil {
		return ev.Instr.Pos()
	}
	return token.NoPos
}
