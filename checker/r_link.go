package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["G05"] = propRule{run: runG05, title: "links"}
}

func schemaPtr(t *Term, name string) bool {
	if t == nil {
		return false
	}
	pt := ptrElem(t)
	return pt != nil && typeName(pt) == modPath+"/schema."+name
}

// mapOf: m is a map from texts to pointers to the named type of package schema.
func mapOf(m *Term, name string) bool {
	if m == nil || m.typ == nil {
		return false
	}
	mt, ok := m.typ.Underlying().(*types.Map)
	if !ok {
		return false
	}
	p, ok := mt.Elem().Underlying().(*types.Pointer)
	return ok && typeName(p.Elem()) == modPath+"/schema."+name
}

// elementOf is the element of a list or map that an iteration is about, if it is a pointer to the named type, with the list or map.
func (e *Engine) elementOf(st *State, rec *LoopRec, name string) (el, of *Term) {
	if n := mapLoop(rec); n != nil {
		if nx := st.env[n]; nx != nil {
			for i, t := range nx.args {
				if i == 2 && nx.op == "tuple" && schemaPtr(t, name) {
					return t, rangedOver(t)
				}
			}
		}
	}
	for _, s := range sortedSlots(rec) {
		if s.Phi == nil || !isInteger(s.Sym.typ) {
			continue
		}
		c0, ok := s.Entry.constInt()
		if !ok {
			continue
		}
		idx := e.ts.sub(s.Sym, e.ts.bigTerm(c0), s.Sym.typ)
		as := map[*Term]*Term{}
		for a, v := range st.mem {
			as[a] = v
		}
		for k, v := range st.env { // what was read before a call that may have changed it
			if k.Parent() != rec.Fn || v == nil {
				continue
			}
			if a := e.readFrom(v); a != nil && a.op == "index" && as[a] == nil {
				as[a] = v
			}
		}
		for _, a := range sortedTerms(as) {
			if a.op == "index" && a.args[1] == idx && as[a] != nil && schemaPtr(as[a], name) {
				return as[a], a.args[0]
			}
		}
	}
	return nil, nil
}

func sortedSlots(rec *LoopRec) []*Recur {
	var ks []string
	for k := range rec.Slots {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []*Recur
	for _, k := range ks {
		r = append(r, rec.Slots[k])
	}
	return r
}

// looked are the values that were looked up in maps of the type, with their keys, and whether they are known to be there.
type lookup struct {
	m, key, val *Term
	nil_        bool
}

func (e *Engine) lookups(st *State, name string) []lookup {
	var r []lookup
	for _, t := range sortedTerms(st.b) {
		if t.op != "isnil" || !schemaPtr(t.args[0], name) {
			continue
		}
		v := t.args[0]
		if a := e.readFrom(v); a != nil && a.op == "mapel" {
			r = append(r, lookup{a.args[0], a.args[1], v, st.b[t]})
		}
	}
	// absent by the second result of the lookup
	for _, t := range sortedTerms(st.b) {
		if a := e.readFrom(t); a != nil && a.op == "mapok" && !st.b[t] && mapOf(a.args[0], name) {
			r = append(r, lookup{a.args[0], a.args[1], nil, true})
		}
	}
	return r
}

// readFrom is the address that a value was read from.
func (e *Engine) readFrom(t *Term) *Term {
	switch t.op {
	case "ld":
		return t.args[0]
	case "gval":
		if len(t.args) > 0 {
			return t.args[0]
		}
	case "loop":
		if i := strings.LastIndex(t.aux, "/m:"); i >= 0 {
			if n, err := strconv.Atoi(t.aux[i+3:]); err == nil {
				return e.ts.byID[n]
			}
		}
	}
	return nil
}

type linker struct {
	r      *Report
	e      *Engine
	rr     *runRes
	refs   int
	idxs   int
	n      int
	before map[*Event]*Term // what was at the place of a store
	cols   map[*Event]*Term // the columns of a table when it was remembered
	seen   map[*LoopRec]int // iterations over columns
}

// isField: the term is a value of the field of the object, now or before.
func (l *linker) isField(st *State, t, o *Term, name string) bool {
	if t == nil {
		return false
	}
	if a := l.e.readFrom(t); a != nil && a.op == "field" && a.args[0] == o {
		return strings.HasSuffix(a.aux, "."+name)
	}
	return t == l.e.loadField(st, o, name)
}

// isName: the term is the two fields joined by a dot.
func (l *linker) isName(st *State, t, o *Term, f, g string) bool {
	return t != nil && t.op == "concat" && len(t.args) == 3 && isStrConst(t.args[1], ".") && l.isField(st, t.args[0], o, f) && l.isField(st, t.args[2], o, g)
}

func (l *linker) dot(ts ...*Term) *Term {
	x := ts[0]
	for _, t := range ts[1:] {
		x = l.e.ts.concat(l.e.ts.concat(x, l.e.ts.strTerm(".")), t)
	}
	return x
}

// column: an iteration over columns while discovering.
func (l *linker) column(st *State, rec *LoopRec, evs []*Event) {
	e := l.e
	c, of := e.elementOf(st, rec, "Column")
	if c == nil {
		return
	}
	after := false
	for _, ev := range st.events() {
		if ev.Kind == "call" && strings.HasSuffix(ev.Callee, "schema.(Dialect).QueryForeignKeys") {
			after = true
		}
	}
	if !after {
		return
	}
	l.seen[rec]++
	key := "ref:" + rec.Fn.Name()
	pos := rec.Header.Instrs[0].Pos()
	var names []*Term
	if of != nil && mapOf(of, "Column") {
		for _, s := range []*Term{st.env[mapLoop(rec)]} {
			if s != nil && s.op == "tuple" {
				names = append(names, s.args[1])
			}
		}
	}
	// a recursive call that is given the column
	for _, ev := range evs {
		if ev.Kind == "call" && ev.Fn != nil && l.r.p.isRepoFn(ev.Fn) {
			for _, a := range ev.Args {
				if a == c {
					l.refs |= 4
					return
				}
			}
		}
	}
	var fk *lookup
	for _, x := range e.lookups(st, "ForeignKey") {
		ok := l.isField(st, x.key, c, "SchemaName")
		for _, n := range names {
			ok = ok || x.key == n
		}
		if ok {
			x := x
			fk = &x
		}
	}
	if !l.r.check(fk != nil, key, pos, "a column is passed without looking for a foreign key of it") {
		return
	}
	var set *Event
	for _, ev := range evs {
		if ev.Kind == "store" && ev.Args[0].op == "field" && strings.HasSuffix(ev.Args[0].aux, "schema.Column.Ref") && ev.Args[0].args[0] == c {
			set = ev
		}
	}
	if fk.nil_ {
		l.refs |= 1
		l.r.check(set == nil || set.Args[1].isNil(), key, pos, "a column without a foreign key gets a reference")
		return
	}
	l.refs |= 2
	l.r.check(set != nil && set.Args[1] == fk.val, key, pos, "the reference of a column is not set to its foreign key")
	// the table it refers to
	is := func(t *Term) bool { return l.isName(st, t, fk.val, "RefSchema", "RefTable") }
	found := false
	for _, x := range e.lookups(st, "Table") {
		if !x.nil_ && is(x.key) {
			found = true
		}
	}
	for t, v := range st.b {
		if a := e.readFrom(t); v && a != nil && a.op == "mapok" && mapOf(a.args[0], "Table") && is(a.args[1]) {
			found = true
		}
	}
	for _, ev := range evs {
		switch {
		case ev.Kind == "mapupdate" && mapOf(ev.Args[0], "Table"):
			found = found || is(ev.Args[1])
		case ev.Kind == "call" && ev.Fn != nil && l.r.p.isRepoFn(ev.Fn):
			a, b := false, false
			for _, x := range ev.Args {
				a, b = a || l.isField(st, x, fk.val, "RefSchema"), b || a && l.isField(st, x, fk.val, "RefTable")
			}
			found = found || a && b
		}
	}
	l.r.check(found, key, pos, "the table that a column refers to is not looked for")
}

// name: an iteration over the names of the columns of an index.
func (l *linker) name(st *State, rec *LoopRec, evs []*Event) {
	e := l.e
	for _, s := range sortedSlots(rec) {
		if s.Phi == nil || !isInteger(s.Sym.typ) {
			continue
		}
		c0, ok := s.Entry.constInt()
		if !ok {
			continue
		}
		at := e.ts.sub(s.Sym, e.ts.bigTerm(c0), s.Sym.typ)
		as := map[*Term]bool{}
		for a := range st.mem {
			as[a] = true
		}
		for _, a := range sortedTerms(as) {
			if a.op != "index" || a.args[1] != at || a.args[0].op != "ld" || a.args[0].args[0].op != "field" || !strings.HasSuffix(a.args[0].args[0].aux, "schema.Index.ColumnNames") {
				continue
			}
			l.member(st, rec, evs, a.args[0].args[0].args[0], a.args[0], st.mem[a])
			return
		}
	}
}

func (l *linker) member(st *State, rec *LoopRec, evs []*Event, idx, list, cn *Term) {
	e := l.e
	key := "index:" + rec.Fn.Name()
	pos := rec.Header.Instrs[0].Pos()
	var col *lookup
	for _, x := range e.lookups(st, "Column") {
		if x.key.op == "concat" && x.key.args[len(x.key.args)-1] == cn {
			x := x
			col = &x
		}
	}
	if !l.r.check(col != nil, key, pos, "the column of an index is not looked for by its name") {
		return
	}
	// the schema and table the index was read for
	var q *Event
	for _, ev := range st.events() {
		if ev.Kind == "call" && strings.HasSuffix(ev.Callee, "schema.(Dialect).QueryIndexes") {
			q = ev
		}
	}
	if !l.r.check(q != nil, key, pos, "indexes are used before they are read") {
		return
	}
	var tables []*Term
	for _, ev := range st.events() {
		if ev.Kind == "store" && ev.Args[0].op == "field" && strings.HasSuffix(ev.Args[0].aux, "schema.Table.Indexes") {
			tables = append(tables, ev.Args[0].args[0])
		}
	}
	var t *Term
	for _, x := range tables {
		if e.loadField(st, x, "Schema") == q.Args[2] && e.loadField(st, x, "Name") == q.Args[3] {
			t = x
		}
	}
	if !l.r.check(t != nil, key, pos, "the indexes of a table are not kept before they are used") {
		return
	}
	full := []*Term{l.dot(q.Args[2], q.Args[3], cn), l.dot(e.loadField(st, t, "SchemaName"), cn)}
	l.r.check(e.sameTerm(st, col.key, full[0], cn.typ) || e.sameTerm(st, col.key, full[1], cn.typ), key, pos, "the column of an index is looked for under the name %s", col.key)
	var add, pk []*Event
	for _, ev := range evs {
		if ev.Kind != "store" || ev.Args[0].op != "field" {
			continue
		}
		switch {
		case strings.HasSuffix(ev.Args[0].aux, "schema.Column.Indexes"):
			add = append(add, ev)
		case strings.HasSuffix(ev.Args[0].aux, "schema.Table.PrimaryKey"):
			pk = append(pk, ev)
		}
	}
	if col.nil_ {
		l.idxs |= 1
		l.r.check(len(add) == 0 && len(pk) == 0, key, pos, "a column that is not listed is linked to an index")
		return
	}
	ok := len(add) == 1 && add[0].Args[0].args[0] == col.val
	if ok {
		v := add[0].Args[1]
		ok = v.op == "append" && len(v.args) == 2 && v.args[1] == idx && v.args[0] == l.before[add[0]]
	}
	l.r.check(ok, key, pos, "a column of an index does not get exactly this index added")
	prim, k1 := e.evalBool(st, e.loadField(st, idx, "IsPrimary"))
	one, k2 := e.evalBool(st, e.eqTerm(e.lenOf(list), e.ts.intTerm(1), tInt))
	if len(pk) == 0 {
		l.idxs |= 2
		l.r.check(k1 && !prim || k2 && !one, key, pos, "the only column of a primary key is not the primary key of the table")
		return
	}
	l.idxs |= 4
	l.r.check(k1 && prim && k2 && one, key, pos, "a column becomes the primary key of the table although it is not alone in it, or the index is none")
	l.r.check(len(pk) == 1 && pk[0].Args[0].args[0] == t && pk[0].Args[1] == col.val, key, pos, "the primary key of a table is set to %s", pk[0].Args[1])
}

// row: what is read is remembered under its name.
func (l *linker) row(it *rowIter) {
	objs, _ := it.kept()
	if len(objs) != 1 {
		return
	}
	o := objs[0]
	typ, want := "", []*Term(nil)
	switch it.kind {
	case "QueryColumns":
		typ, want = "Column", []*Term{it.field(o, "SchemaName")}
	case "QueryForeignKeys":
		typ, want = "ForeignKey", []*Term{l.dot(it.field(o, "Schema"), it.field(o, "Table"), it.field(o, "Column"))}
	default:
		return
	}
	ok := false
	for _, ev := range it.evs {
		if ev.Kind == "mapupdate" && mapOf(ev.Args[0], typ) && ev.Args[2] == o {
			ok = l.e.sameTerm(it.st, ev.Args[1], want[0], want[0].typ)
		}
	}
	l.r.check(ok, "known:"+it.kind, it.scan.Instr.Pos(), "a row of %s is not remembered under the name of its column", it.kind)
}

// event looks at what is remembered when it is.
func (l *linker) event(st *State, ev *Event) {
	e := l.e
	if ev.Kind == "store" && ev.Args[0].op == "field" && strings.HasSuffix(ev.Args[0].aux, "schema.Column.Indexes") {
		l.before[ev] = e.load(st, ev.Args[0], ev.Args[1].typ)
	}
	if ev.Kind != "mapupdate" || !mapOf(ev.Args[0], "Table") || isFresh(root(ev.Args[0])) {
		return
	}
	l.n++
	evs := st.events()
	t := ev.Args[2]
	key := "table:" + ev.Instr.Parent().Name()
	pos := ev.Instr.Pos()
	l.cols[ev] = e.loadField(st, t, "Columns")
	sch, name := e.loadField(st, t, "Schema"), e.loadField(st, t, "Name")
	fq := e.loadField(st, t, "SchemaName")
	l.r.check(e.sameTerm(st, ev.Args[1], fq, fq.typ) || e.sameTerm(st, ev.Args[1], l.dot(sch, name), fq.typ), key, pos, "a table is remembered under the name %s", ev.Args[1])
	if isFresh(t) {
		l.r.check(e.sameTerm(st, fq, l.dot(sch, name), fq.typ), key, pos, "the full name of a table that was found is %s", fq)
	}
	for f, m := range map[string]string{"Columns": "QueryColumns", "Indexes": "QueryIndexes"} {
		var v *Term
		for _, b := range evs {
			if b.Kind == "store" && b.Args[0].op == "field" && b.Args[0].args[0] == t && strings.HasSuffix(b.Args[0].aux, "schema.Table."+f) {
				v = b.Args[1]
			}
		}
		if !l.r.check(v != nil, key, pos, "the %s of a table are not set", f) {
			continue
		}
		good := false
		for _, b := range evs {
			if b.Kind == "call" && strings.HasSuffix(b.Callee, "schema.(Dialect)."+m) && e.sameTerm(st, b.Args[2], sch, sch.typ) && e.sameTerm(st, b.Args[3], name, name.typ) {
				good = good || l.readFrom(st, evs, v, b)
			}
		}
		l.r.check(good, key, pos, "the %s of a table are not those that were read for its schema and name", f)
		if f == "Indexes" {
			l.r.check(l.allLinked(st, evs, v), key, pos, "the columns of the indexes of a table are not all visited")
		}
	}
}

// followed: the columns of each table that was found are visited.
func (l *linker) followed(st *State, evs []*Event) {
	for i, ev := range evs {
		if ev.Kind == "loop" {
			for k, it := range ev.Loop.Iters {
				if k < len(ev.Loop.Backs) {
					l.followed(ev.Loop.Backs[k], it)
				}
			}
		}
		if ev.Kind != "mapupdate" || l.cols[ev] == nil || !l.discovering(st, evs, ev) {
			continue
		}
		done := false
		for _, b := range evs[i:] {
			if b.Kind == "loop" && loopOver(l.e, st, b.Loop, l.cols[ev]) != nil {
				done = l.seen[b.Loop] == len(b.Loop.Backs)
			}
		}
		l.r.check(done, "table:"+ev.Instr.Parent().Name(), ev.Instr.Pos(), "the columns of a table that was found are not all followed")
	}
}

func (l *linker) discovering(st *State, evs []*Event, ev *Event) bool {
	for _, x := range st.events() {
		if x == ev {
			break
		}
		if x.Kind == "call" && strings.HasSuffix(x.Callee, "schema.(Dialect).QueryForeignKeys") {
			return true
		}
	}
	return false
}

// readFrom: the list is what a loop made of the rows of the query.
func (l *linker) readFrom(st *State, evs []*Event, list *Term, q *Event) bool {
	for _, ev := range evs {
		if ev.Kind != "loop" {
			continue
		}
		for _, s := range ev.Loop.Slots {
			if s.Sym != list {
				continue
			}
			for _, it := range ev.Loop.Iters {
				for _, x := range it {
					if x.Kind == "call" && x.Callee == "database/sql.(Rows).Next" && x.Args[0] == q.results()[0] {
						return true
					}
				}
			}
		}
	}
	return false
}

// allLinked: a loop visits all indexes, and within it one visits all names of the columns of each.
func (l *linker) allLinked(st *State, evs []*Event, list *Term) bool {
	e := l.e
	for _, ev := range evs {
		if ev.Kind != "loop" || loopOver(e, st, ev.Loop, list) == nil {
			continue
		}
		ok := len(ev.Loop.Iters) > 0
		for k, it := range ev.Loop.Iters {
			if k >= len(ev.Loop.Backs) {
				continue
			}
			bst := ev.Loop.Backs[k]
			idx, _ := e.elementOf(bst, ev.Loop, "Index")
			in := false
			for _, x := range it {
				if x.Kind == "loop" && idx != nil {
					if c := e.loadField(bst, idx, "ColumnNames"); c != nil && loopOver(e, bst, x.Loop, c) != nil {
						in = true
					}
				}
			}
			ok = ok && in
		}
		if ok {
			return true
		}
	}
	return false
}

func runG05(r *Report) {
	r.rule("every table that is listed or found is remembered under its full name, with the columns and indexes that were read for its schema and name; columns and foreign keys are remembered under the full name of their column")
	r.rule("all columns of all indexes are visited: a listed column gets exactly the index added; it is the primary key of the table exactly if it is the only column of a primary index")
	r.rule("while discovering, all columns of all tables are visited: the reference is set exactly to the foreign key of the column, and the table it refers to is known, is read, or is left to the recursive call")
	r.rule("what an earlier call remembered is forgotten before")
	newLinker := func(e *Engine) *linker {
		return &linker{r: r, e: e, before: map[*Event]*Term{}, cols: map[*Event]*Term{}, seen: map[*LoopRec]int{}}
	}
	var l *linker
	hook := func(name string, e *Engine) {
		l2 := newLinker(e)
		if name == "ListTables" {
			l = l2
			e.OnEvent = l.event
		}
		old := e.OnBack
		e.OnBack = func(st *State, rec *LoopRec) {
			if old != nil {
				old(st, rec)
			}
			evs := logSince(st.log, rec.Base)
			l2.column(st, rec, evs)
			l2.name(st, rec, evs)
		}
	}
	runs := r.schemaRuns(func(it *rowIter) {
		(&linker{r: r, e: it.e}).row(it)
	}, hook)
	rr := runs["ListTables"]
	if rr == nil {
		return
	}
	l.rr = rr
	for _, x := range rr.returns() {
		if !rr.succeeds(x) {
			continue
		}
		l.followed(x.St, x.St.events())
		l.complete(x)
		l.cleared(x)
	}
	r.check(l.n > 0, "table:ListTables", rr.fn.Pos(), "no table is ever remembered")
	r.check(l.refs&3 == 3, "ref:ListTables", rr.fn.Pos(), "the foreign keys of columns are not followed")
	r.check(l.idxs == 7, "index:ListTables", rr.fn.Pos(), "the columns of indexes are not linked")
	r.linkMethods()
}

// complete: with dependencies all known columns are visited, and all tables of the list are read.
func (l *linker) complete(x *Exit) {
	e, rr := l.e, l.rr
	pos := x.Pos
	deps, _ := e.evalBool(x.St, rr.args[len(rr.args)-1])
	all := false
	for _, ev := range x.St.events() {
		if ev.Kind != "loop" {
			continue
		}
		if nx := mapLoop(ev.Loop); nx != nil {
			for t, v := range x.St.b {
				if t.op == "extract" && t.aux == "0" && t.args[0].op == "next" && t.args[0].site == nx && !v && mapOf(rangedOver(t), "Column") {
					all = l.seen[ev.Loop] == len(ev.Loop.Backs)
				}
			}
		}
	}
	if deps {
		l.r.check(all, "all:columns", pos, "not all columns are visited to find the tables they refer to")
	}
	// the loop over the listed tables
	read := false
	for _, ev := range x.St.events() {
		if ev.Kind != "loop" {
			continue
		}
		for k, it := range ev.Loop.Iters {
			for _, b := range it {
				if b.Kind == "mapupdate" && mapOf(b.Args[0], "Table") && k < len(ev.Loop.Backs) {
					t, of := e.elementOf(ev.Loop.Backs[k], ev.Loop, "Table")
					if t != nil && t == b.Args[2] && loopOver(e, x.St, ev.Loop, of) != nil {
						if rec, _ := e.listSlot(x.St, of); rec != nil {
							read = true
						}
					}
				}
			}
		}
	}
	l.r.check(read, "all:tables", pos, "not all tables of the list are read")
}

// cleared: the maps are emptied before they are used.
func (l *linker) cleared(x *Exit) {
	for _, typ := range []string{"Table", "Column", "ForeignKey"} {
		var clean, used bool
		for _, ev := range allEvents(x.St.events()) {
			switch {
			case ev.Kind == "clear" && mapOf(ev.Args[0], typ):
				clean = true
			case ev.Kind == "store" && mapOf(ev.Args[1], typ) && isFresh(ev.Args[1]):
				clean = true
			case ev.Kind == "mapupdate" && mapOf(ev.Args[0], typ) && !used:
				used = true
				l.r.check(clean || isFresh(root(ev.Args[0])), "cleared:"+typ, ev.Instr.Pos(), "what an earlier call remembered of each %s is still there", typ)
			}
		}
	}
}

// linkMethods: the small methods that read the links.
func (r *Report) linkMethods() {
	str := func(typ, name string, want func(e *Engine, st *State, p *Term) *Term) {
		f := r.p.Method("schema", typ, name)
		if f == nil {
			r.missing(typ + "." + name)
			return
		}
		key := "method:" + typ + "." + name
		rr := r.run(f, nil)
		for _, x := range rr.returns() {
			n, k := rr.e.nilness(x.St, rr.args[0])
			w := rr.e.ts.strTerm("")
			if !(k && n) {
				w = want(rr.e, x.St, rr.args[0])
			}
			got := x.Results[0]
			r.check(w == got || rr.e.sameTerm(x.St, got, w, got.typ), key, x.Pos, "%s.%s gives %s", typ, name, got)
		}
	}
	dots := func(fs ...string) func(e *Engine, st *State, p *Term) *Term {
		return func(e *Engine, st *State, p *Term) *Term {
			var ts []*Term
			for _, f := range fs {
				ts = append(ts, e.loadField(st, p, f))
			}
			return (&linker{e: e}).dot(ts...)
		}
	}
	str("ForeignKey", "ColumnSchemaName", dots("Schema", "Table", "Column"))
	str("ForeignKey", "RefColumnSchemaName", dots("RefSchema", "RefTable", "RefColumn"))
	str("Table", "PrimaryKeyName", func(e *Engine, st *State, p *Term) *Term {
		pk := e.loadField(st, p, "PrimaryKey")
		if n, k := e.nilness(st, pk); k && n {
			return e.ts.strTerm("")
		}
		return e.loadField(st, pk, "Name")
	})
	for typ, el := range map[string]string{"Columns": "Column", "Indexes": "Index"} {
		f := r.p.Method("schema", typ, "Names")
		if f == nil {
			r.missing(typ + ".Names")
			continue
		}
		r.namesOf(f, el)
	}
	f := r.p.Method("schema", "Column", "IsPrimary")
	if f == nil {
		r.missing("Column.IsPrimary")
		return
	}
	r.anyPrimary(f)
}

// namesOf: the list has the name of each element, in their order.
func (r *Report) namesOf(f *ssa.Function, el string) {
	key := "method:" + f.Name() + ":" + el
	rr := r.run(f, nil)
	e := rr.e
	full := false
	for _, x := range rr.returns() {
		l := x.Results[0]
		if n, k := e.nilness(x.St, l); k && n {
			r.check(e.isEmptyList(x.St, rr.args[0]), key, x.Pos, "no names are given although there are elements")
			continue
		}
		if f2 := e.filled(x.St, l); f2 != nil { // made with the length and assigned
			r.check(f2(rr.args[0], "Name"), key, x.Pos, "the names are not those of the elements")
			full = true
			continue
		}
		rec, s := e.listSlot(x.St, l)
		if !r.check(s != nil && loopOver(e, x.St, rec, rr.args[0]) != nil, key, x.Pos, "the names are not collected from all elements") {
			continue
		}
		for k, b := range s.Backs {
			if k >= len(rec.Backs) {
				break
			}
			bst := rec.Backs[k]
			c, _ := e.elementOf(bst, rec, el)
			ok := c != nil && b.op == "append" && len(b.args) == 2 && b.aux != "..." && b.args[0] == s.Sym && b.args[1] == e.loadField(bst, c, "Name")
			r.check(ok, key, x.Pos, "the names become %s for an element", b)
			full = full || ok
		}
	}
	r.check(full, key, f.Pos(), "no name is ever given")
}

// filled: the list was made with a length and assigned to in a loop over all its places.
func (e *Engine) filled(st *State, l *Term) func(src *Term, field string) bool {
	if l.op != "make" {
		return nil
	}
	return func(src *Term, field string) bool {
		if !e.sameInt(st, e.lenOf(l), e.lenOf(src), false) {
			return false
		}
		for _, ev := range st.events() {
			if ev.Kind != "loop" {
				continue
			}
			ix := loopOver(e, st, ev.Loop, src)
			if ix == nil {
				continue
			}
			ok := len(ev.Loop.Iters) > 0
			for k, it := range ev.Loop.Iters {
				if k >= len(ev.Loop.Backs) {
					continue
				}
				in := false
				for _, s := range it {
					if s.Kind == "store" && s.Args[0].op == "index" && s.Args[0].args[0] == l && e.sameInt(ev.Loop.Backs[k], s.Args[0].args[1], ix, false) {
						v := s.Args[1]
						in = v.op == "ld" && v.args[0].op == "field" && strings.HasSuffix(v.args[0].aux, "."+field) &&
							v.args[0].args[0].op == "ld" && v.args[0].args[0].args[0].op == "index" && v.args[0].args[0].args[0].args[0] == src && e.sameInt(ev.Loop.Backs[k], v.args[0].args[0].args[0].args[1], ix, false)
					}
				}
				ok = ok && in
			}
			if ok {
				return true
			}
		}
		return false
	}
}

// anyPrimary: true exactly if an index of the column is primary.
func (r *Report) anyPrimary(f *ssa.Function) {
	key := "method:Column.IsPrimary"
	rr := r.run(f, nil)
	e := rr.e
	yes, no := false, false
	prim := func(st *State, want bool) (idx []*Term) {
		for _, t := range sortedTerms(st.b) {
			if st.b[t] == want && t.op == "ld" && t.args[0].op == "field" && strings.HasSuffix(t.args[0].aux, "schema.Index.IsPrimary") {
				idx = append(idx, t.args[0].args[0])
			}
		}
		return
	}
	for _, x := range rr.returns() {
		v, k := e.evalBool(x.St, x.Results[0])
		if !r.check(k, key, x.Pos, "IsPrimary gives %s", x.Results[0]) {
			continue
		}
		if v {
			yes = true
			r.check(len(prim(x.St, true)) > 0, key, x.Pos, "a column is said to be in a primary index without one")
			continue
		}
		list := e.loadField(x.St, rr.args[0], "Indexes")
		if e.isEmptyList(x.St, list) {
			continue
		}
		no = true
		all := false
		for _, ev := range x.St.events() {
			if ev.Kind != "loop" || loopOver(e, x.St, ev.Loop, list) == nil {
				continue
			}
			all = true
			for _, b := range ev.Loop.Backs {
				c, _ := e.elementOf(b, ev.Loop, "Index")
				seen := false
				for _, i := range prim(b, false) {
					seen = seen || i == c
				}
				r.check(c != nil && seen, key, x.Pos, "an index is passed without looking whether it is primary")
			}
		}
		r.check(all, key, x.Pos, "a column is said not to be in a primary index before all were seen")
	}
	r.check(yes && no, key, token.NoPos, "IsPrimary always gives the same")
}

func isStrConst(t *Term, s string) bool {
	c, ok := t.constStr()
	return ok && c == s
}
