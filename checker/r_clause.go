package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["A03"] = propRule{run: runA03, title: "Clauses are written as given, in the order of SQL"}
}

// stmtEngine interprets functions of the builder with the adding function, String and Close of statements as events.
func (m *stmtModel) hook(p *Program) func(e *Engine, st *State, c *Call) *Outcome {
	str, cl := p.Method(xsqlPkg, "Stmt", "String"), p.Method(xsqlPkg, "Stmt", "Close")
	T := m.T.Underlying().(*types.Struct)
	return func(e *Engine, st *State, c *Call) *Outcome {
		if c.Fn == nil {
			return nil
		}
		ev := &Event{Instr: c.Instr, Ctx: c.Ctx, Callee: c.Name, Fn: c.Fn, Args: c.Args, Defer: c.Defer}
		done := func(res *Term) *Outcome {
			ev.Result = res
			st.event(ev)
			return &Outcome{States: []*State{st}, Results: []*Term{res}}
		}
		set := func(q *Term, i int, v *Term) {
			a, t := m.at(e, q, i)
			e.store(st, a, v, t, c.Site+"."+T.Field(i).Name())
		}
		switch c.Fn {
		case m.add:
			ev.Kind = "add"
			q := c.Args[0]
			for _, a := range c.Args {
				ev.Vals = append(ev.Vals, e.snapshot(st, a))
			}
			ev.Vals = append(ev.Vals, m.get(e, st, q, m.dialect), m.get(e, st, q, m.buf))
			idx := e.freshResult(st, c)
			var aft [2]*Term
			for k, i := range []int{m.chunks, m.args} {
				x := e.ts.mk("call", fmt.Sprintf("%s.%d", c.Site, i), T.Field(i).Type())
				x.site = c.Instr
				set(q, i, x)
				aft[k] = x
			}
			m.after[ev] = aft
			buf := m.get(e, st, q, m.buf)
			e.applyKill(st, &kill{kind: "objs", id: c.Site, objs: map[*Term]bool{buf: true}})
			set(q, m.pos, c.Args[m.pPos])
			set(q, m.sql, e.ts.strTerm(""))
			return done(idx)
		case str:
			ev.Kind = "string"
			memo := m.get(e, st, c.Args[0], m.sql)
			if z, k := e.isZeroTerm(st, memo, types.Typ[types.String]); k && z {
				memo = e.ts.strTerm("")
			}
			ev.Vals = []*Term{m.get(e, st, c.Args[0], m.dialect), memo, m.get(e, st, c.Args[0], m.name)}
			res := e.ts.mk("call", c.Site, types.Typ[types.String])
			res.site = c.Instr
			set(c.Args[0], m.sql, res)
			return done(res)
		case cl:
			ev.Kind = "close"
			e.applyKill(st, &kill{kind: "objs", id: c.Site, objs: map[*Term]bool{root(c.Args[0]): true}})
			return done(e.ts.mk("tuple", "", nil))
		}
		return nil
	}
}

func (r *Report) stmtRun(m *stmtModel, fn *ssa.Function, setup func(e *Engine, st *State, args []*Term)) *runRes {
	e := newEngine(r.p)
	e.FieldMaps = true
	e.OnCall = m.hook(r.p)
	st := newState()
	args := e.Params(fn)
	for i, pr := range fn.Params {
		// another statement is given
		if i > 0 || fn.Signature.Recv() == nil {
			if n := namedOf(pr.Type()); n != nil && n.Obj().Name() == "Builder" {
				pt := types.NewPointer(m.T)
				args[i] = e.ts.iface(pt, e.ts.mk("alloc", "sub", pt))
			}
		}
	}
	if setup != nil {
		setup(e, st, args)
	}
	rr := &runRes{e: e, fn: fn, args: args}
	rr.exits = e.Run(fn, st, args)
	r.done(e, rr.exits)
	return rr
}

// addsOf returns the parts added on the path.
func addsOf(evs []*Event) []*Event {
	var r []*Event
	for _, ev := range evs {
		if ev.Kind == "add" {
			r = append(r, ev)
		}
	}
	return r
}

// bytesOfGlobal is the text of a package variable that is a list of constant bytes or a constant text.
func (p *Program) bytesOfGlobal(g *ssa.Global) (string, bool) {
	if g == nil || !p.immutable[g] {
		return "", false
	}
	v := p.initOf(g)
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value.ExactString(), false
	case *ssa.Convert:
		if c, ok := x.X.(*ssa.Const); ok && isString(c.Type()) {
			s, err := constString(c)
			return s, err == nil
		}
	case *ssa.Slice:
		a, ok := x.X.(*ssa.Alloc)
		if !ok {
			return "", false
		}
		arr, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			return "", false
		}
		b := make([]byte, arr.Len())
		for _, ref := range *a.Referrers() {
			ia, ok := ref.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			i, ok := ia.Index.(*ssa.Const)
			if !ok {
				return "", false
			}
			for _, r2 := range *ia.Referrers() {
				if s, ok := r2.(*ssa.Store); ok {
					c, ok := s.Val.(*ssa.Const)
					if !ok {
						return "", false
					}
					b[i.Int64()] = byte(c.Int64())
				}
			}
		}
		return string(b), true
	}
	return "", false
}

func constString(c *ssa.Const) (string, error) {
	if c.Value == nil {
		return "", fmt.Errorf("no constant")
	}
	var s string
	_, err := fmt.Sscanf(c.Value.ExactString(), "%q", &s)
	return s, err
}

// bufferText: the term is the current text of a buffer.
func bufferText(t *Term) *Term {
	for t.op == "conv" || t.op == "str" || t.op == "bytes" || t.op == "ld" {
		t = t.args[0]
	}
	if t.op == "field" && strings.HasSuffix(t.aux, "ByteBuffer.B") {
		return t.args[0]
	}
	return nil
}

// render is a canonical form of the text pieces at a point of a path.
func (r *Report) render(e *Engine, st *State, before []*Event, ps []piece) string {
	var b strings.Builder
	for _, p := range ps {
		switch {
		case p.loop != nil:
			fmt.Fprintf(&b, "{loop %p}", p.loop)
		case p.t == nil:
			b.WriteString(p.lit)
		default:
			b.WriteString(r.renderTerm(e, st, before, p.t, p.verb))
		}
	}
	return b.String()
}

func (r *Report) renderTerm(e *Engine, st *State, before []*Event, t *Term, verb string) string {
	if s, k := t.constStr(); k {
		return s
	}
	if t.op == "gval" {
		if s, ok := r.p.bytesOfGlobal(t.gl); ok {
			return s
		}
	}
	if t.op == "concat" {
		s := ""
		for _, a := range t.args {
			s += r.renderTerm(e, st, before, a, "s")
		}
		return s
	}
	if w := bufferText(t); w != nil {
		ps, ok := pieces(e, before, w)
		if ok {
			return r.render(e, st, nil, ps)
		}
	}
	if t.op == "bytes" || t.op == "str" {
		return r.renderTerm(e, st, before, t.args[0], verb)
	}
	if t.op == "call" && strings.Contains(t.aux, "String") {
		return fmt.Sprintf("<%s %d>", verb, t.id)
	}
	if t.typ != nil && isString(t.typ) && st != nil {
		if z, k := e.isZeroTerm(st, t, basic(types.String)); k && z {
			return ""
		}
	}
	return fmt.Sprintf("<%s %d>", verb, t.id)
}

func sym(t *Term) string { return fmt.Sprintf("<s %d>", t.id) }

// eventsBefore returns the events of the path before ev.
func eventsBefore(evs []*Event, ev *Event) []*Event {
	for i, x := range evs {
		if x == ev {
			return evs[:i]
		}
	}
	return evs
}

// posFacts: the positions of chunks of the list that are known on the path, by the term of the position.
func (m *stmtModel) posFacts(e *Engine, st *State, chunks *Term) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if seen[t] || t.op != "ld" {
			return
		}
		a := t.args[0]
		if a.op == "field" && a.args[0].op == "index" && a.args[0].args[0] == chunks && fieldName(a.aux) == m.C.Underlying().(*types.Struct).Field(m.cpos).Name() {
			seen[t] = true
			r = append(r, t)
		}
	}
	for _, t := range sortedIv(st) {
		for _, a := range toLin(t).atoms {
			add(a)
		}
	}
	for _, t := range sortedB(st) {
		for _, x := range t.args {
			for _, a := range toLin(x).atoms {
				add(a)
			}
		}
	}
	return r
}

func fieldName(aux string) string { return aux[strings.LastIndexByte(aux, '.')+1:] }

func sortedIv(st *State) []*Term {
	m := map[*Term]*Term{}
	for t := range st.iv {
		m[t] = t
	}
	return sortedTerms(m)
}

func sortedB(st *State) []*Term {
	m := map[*Term]*Term{}
	for t := range st.b {
		m[t] = t
	}
	return sortedTerms(m)
}

// hasChunk: a chunk of the clause is known on the path; noChunk: every chunk was looked at and is of another clause.
func (m *stmtModel) hasChunk(e *Engine, st *State, chunks *Term, pos *big.Int) bool {
	for _, t := range m.posFacts(e, st, chunks) {
		if v, k := e.evalBool(st, e.eqTerm(t, e.ts.bigTerm(pos), t.typ)); k && v {
			return true
		}
	}
	has, k := m.flagged(e, st, chunks, pos)
	return k && has
}

// flagged: a loop over all chunks has left a mark if there is one of pos.
func (m *stmtModel) flagged(e *Engine, st *State, chunks *Term, pos *big.Int) (has, known bool) {
	for _, ev := range st.events() {
		if ev.Kind != "loop" || loopOver(e, st, ev.Loop, chunks) == nil {
			continue
		}
		for _, s := range ev.Loop.sorted() {
			if s.Phi == nil || s.Entry == nil || !isBoolean(s.Phi.Type()) || len(s.Backs) != len(ev.Loop.Backs) {
				continue
			}
			c0, ok := s.Entry.constBool()
			for i, b := range ev.Loop.Backs {
				found, k := false, false
				for _, t := range m.posFacts(e, b, chunks) {
					if v, kk := e.evalBool(b, e.eqTerm(t, e.ts.bigTerm(pos), t.typ)); kk {
						found, k = found || v, true
					}
				}
				c, isc := s.Backs[i].constBool()
				ok = ok && k && (found && isc && c != c0 || !found && s.Backs[i] == s.Sym)
			}
			if v, k := e.evalBool(st, s.Sym); ok && k {
				return v != c0, true
			}
		}
	}
	return false, false
}

func (m *stmtModel) noChunk(e *Engine, st *State, chunks *Term, sorted bool, poss ...*big.Int) bool {
	none := true
	for _, p := range poss {
		has, k := m.flagged(e, st, chunks, p)
		none = none && k && !has
	}
	if none {
		return true
	}
	for _, ev := range st.events() {
		if ev.Kind != "loop" {
			continue
		}
		ok := len(ev.Loop.Backs) > 0
		for _, b := range ev.Loop.Backs {
			fs := m.posFacts(e, b, chunks)
			ok = ok && len(fs) == 1
			for _, t := range fs {
				for _, p := range poss {
					if v, k := e.evalBool(b, e.eqTerm(t, e.ts.bigTerm(p), t.typ)); !k || v {
						ok = false
					}
				}
			}
		}
		if !ok {
			continue
		}
		if loopOver(e, st, ev.Loop, chunks) != nil {
			return true
		}
		// from the last chunk on, until one of an earlier clause
		for _, s := range ev.Loop.sorted() {
			if s.Phi == nil || s.Entry == nil || !isInteger(s.Phi.Type()) {
				continue
			}
			d := e.ts.sub(s.Entry, e.lenOf(chunks), tInt)
			step := d.isConst()
			for _, b := range s.Backs {
				step = step && b == e.ts.add(s.Sym, e.ts.intTerm(-1), tInt)
			}
			if !step {
				continue
			}
			at := e.ts.sub(e.ts.sub(s.Sym, d, tInt), e.ts.intTerm(1), tInt)
			if iv := e.bounds(st, at); iv.hi != nil && iv.hi.Sign() < 0 {
				return true
			}
			if sorted {
				for _, t := range m.posFacts(e, st, chunks) {
					if e.less(st, t, e.ts.bigTerm(poss[0])) {
						return true
					}
				}
			}
		}
	}
	return false
}

// clauseSpec describes a clause of the builder: its text, and which parameters are its expression and arguments (behind the receiver).
type clauseSpec struct {
	name, clause string
	expr         func(e *Engine, ps []*Term) string
	args         func(e *Engine, ps []*Term) *Term // nil: none
	sep          string
}

func exprParam(e *Engine, ps []*Term) string { return sym(ps[0]) }
func noExpr(e *Engine, ps []*Term) string    { return "" }
func argsParam(e *Engine, ps []*Term) *Term  { return ps[1] }

var anySlice = types.NewSlice(types.NewInterfaceType(nil, nil))

func oneArg(e *Engine, ps []*Term) *Term { return e.ts.mk("slicelit", "", anySlice, ps[0]) }

var clauseSpecs = []clauseSpec{
	{"Select", "SELECT", exprParam, argsParam, ", "},
	{"Returning", "RETURNING", exprParam, nil, ", "},
	{"Update", "UPDATE", exprParam, nil, ", "},
	{"DeleteFrom", "DELETE FROM", exprParam, nil, ", "},
	{"From", "FROM", exprParam, argsParam, ", "},
	{"Where", "WHERE", exprParam, argsParam, " AND "},
	{"Having", "HAVING", exprParam, argsParam, " AND "},
	{"GroupBy", "GROUP BY", exprParam, nil, ", "},
	{"OrderBy", "ORDER BY", func(e *Engine, ps []*Term) string {
		return sym(e.ts.mk("pure", "strings.Join", types.Typ[types.String], ps[0], e.ts.strTerm(", ")))
	}, nil, ", "},
	{"Limit", "LIMIT ?", noExpr, oneArg, ""},
	{"Offset", "OFFSET ?", noExpr, oneArg, ""},
}

// the order of clauses in SQL
var clauseOrder = []string{"Clause", "With", "InsertInto", "fields", "values", "DeleteFrom", "Update", "set", "Select", "From", "Where", "GroupBy", "Having",
	"Union", "OrderBy", "Limit", "Offset", "Returning"}

type clauseRule struct {
	*Report
	m   *stmtModel
	pos map[string]*big.Int
}

func (c *clauseRule) at(name string, t *Term, key string, p token.Pos) {
	v, ok := t.constInt()
	if !c.check(ok, key, p, "the position of the clause is not constant") {
		return
	}
	if old := c.pos[name]; old != nil {
		c.check(old.Cmp(v) == 0, key, p, "the text is added at the place of another clause")
		return
	}
	c.pos[name] = v
}

// part checks one added part.
func (c *clauseRule) part(rr *runRes, x *Exit, ev *Event, key, clause, expr string, args *Term, seps ...string) {
	e, m := rr.e, c.m
	before := eventsBefore(x.St.events(), ev)
	pos := ev.Instr.Pos()
	got := c.renderTerm(e, x.St, before, ev.Args[m.pClause], "s")
	c.check(got == clause, key, pos, "the clause is %q, not %q", got, clause)
	got = c.renderTerm(e, x.St, before, ev.Args[m.pExpr], "s")
	c.check(got == expr, key, pos, "the expression is %q (%s), not %q", got, ev.Args[m.pExpr], expr)
	a := ev.Vals[m.pArgs]
	if args == nil {
		z, k := e.nilness(x.St, a)
		c.check(k && z || a.op == "slicelit" && len(a.args) == 0, key, pos, "arguments are added to a text without any")
	} else {
		same := a == args || a.op == "slicelit" && args.op == "slicelit" && len(a.args) == len(args.args)
		if same && a != args {
			for i := range a.args {
				same = same && a.args[i] == args.args[i]
			}
		}
		c.check(same, key, pos, "the arguments %s are added and not %s", a, args)
	}
	if expr == "" && clause != "" {
		return // no separator is ever written
	}
	sep, k := ev.Args[m.pSep].constStr()
	ok := false
	for _, s := range seps {
		ok = ok || k && s == sep
	}
	c.check(ok, key, pos, "the separator is %q", sep)
}

// entries are the functions that start with, or add, a clause of the name.
func (c *clauseRule) entries(name string) []*ssa.Function {
	var r []*ssa.Function
	for _, f := range []*ssa.Function{c.p.Method(xsqlPkg, "Stmt", name), c.p.Method(xsqlPkg, "Dialect", name), c.p.Func(xsqlPkg, name)} {
		if f != nil {
			r = append(r, f)
		}
	}
	return r
}

func (c *clauseRule) behind(rr *runRes) []*Term {
	if rr.fn.Signature.Recv() != nil {
		return rr.args[1:]
	}
	return rr.args
}

// start: the statement of the parts is the receiver, or a new one of the right dialect; it is returned.
func (c *clauseRule) start(rr *runRes, x *Exit, key string, adds []*Event) {
	e := rr.e
	var q *Term
	for _, ev := range adds {
		if q == nil {
			q = ev.Args[0]
		}
		c.check(q == ev.Args[0], key, x.Pos, "parts are added to different statements")
	}
	if q == nil {
		q = rr.args[0]
	}
	recv := rr.fn.Signature.Recv()
	switch {
	case recv != nil && namedOf(recv.Type()) == c.m.T:
		c.check(q == rr.args[0], key, x.Pos, "the part is added to another statement than the receiver")
	default:
		if len(adds) == 0 {
			return
		}
		d := unIface(adds[0].Vals[len(adds[0].Vals)-2])
		if recv != nil {
			c.check(d == rr.args[0], key, x.Pos, "the new statement has the dialect %s", d)
		} else {
			c.check(d.any(func(t *Term) bool {
				for _, ev := range callsNamed(x.St, "sync/atomic.(Value).Load") {
					if ev.Result == t && isGlobalNamed(ev.Args[0], "xsql.defaultDialect") {
						return true
					}
				}
				return false
			}), key, x.Pos, "the new statement does not have the default dialect")
		}
		c.check(q.op == "unbox" || isFresh(q), key, x.Pos, "the statement is not a new one")
	}
	if len(x.Results) == 1 {
		c.check(unIface(x.Results[0]) == q, key, x.Pos, "%s does not return the statement", shortFn(rr.fn))
	}
	_ = e
}

func runA03(r *Report) {
	r.rule("each method of the builder adds its own keyword with the expression, arguments and separator as given, to its own clause, and returns the statement; starting a statement adds to a new one of the chosen dialect")
	r.rule("the clauses come in the order of SQL, and a part that is added is written as: separator or keyword, then the expression, with a new line before a keyword only if that is wanted")
	r.rule("sub-queries are added with their text for the default dialect and their arguments, and are closed once, behind the last use")
	m := r.stmt()
	if m == nil {
		return
	}
	c := &clauseRule{Report: r, m: m, pos: map[string]*big.Int{}}
	n := 0
	if f := r.p.Func("xsql", "SetDialect"); f == nil {
		r.missing("xsql.SetDialect")
	} else {
		rr := r.run(f, nil)
		for _, x := range rr.returns() {
			ok := false
			for _, ev := range callsNamed(x.St, "sync/atomic.(Value).Store") {
				ok = isGlobalNamed(ev.Args[0], "xsql.defaultDialect") && unIface(ev.Args[1]) == unIface(rr.args[0])
			}
			r.check(ok, "default", x.Pos, "SetDialect can return without having made the dialect the default one")
		}
	}
	each := func(name string, f func(rr *runRes, x *Exit, key string, adds []*Event, ps []*Term)) {
		es := c.entries(name)
		if len(es) == 0 {
			r.missing("xsql.(Stmt)." + name)
		}
		for _, fn := range es {
			rr := r.stmtRun(m, fn, nil)
			key := "clause:" + shortFn(fn)
			if !r.check(len(rr.returns()) > 0, key, fn.Pos(), "%s does not return", shortFn(fn)) {
				continue
			}
			n++
			for _, x := range rr.returns() {
				adds := addsOf(x.St.events())
				c.start(rr, x, key, adds)
				ps := c.behind(rr)
				f(rr, x, key, adds, ps)
				// Expr goes on with the clause that was added last
				if rn := fn.Signature.Recv(); name != "InsertInto" && rn != nil && namedOf(rn.Type()) == m.T && len(x.Results) == 1 {
					want := m.get(rr.e, newState(), rr.args[0], m.pos)
					for _, a := range adds {
						want = a.Args[m.pPos]
					}
					r.check(m.get(rr.e, x.St, rr.args[0], m.pos) == want, key, x.Pos, "Expr does not continue the clause that %s adds to", shortFn(fn))
				}
				// nothing else is written to the statement
				for _, ev := range x.St.events() {
					if ev.Kind == "store" && ev.Args[0].op == "field" && len(adds) > 0 && ev.Args[0].args[0] == adds[0].Args[0] {
						i := fieldName(ev.Args[0].aux)
						s := m.T.Underlying().(*types.Struct)
						if i == s.Field(m.args).Name() || i == s.Field(m.chunks).Name() {
							r.check(false, key, x.Pos, "%s writes the parts or arguments of the statement itself", shortFn(fn))
						}
					}
				}
			}
		}
	}
	for _, sp := range clauseSpecs {
		each(sp.name, func(rr *runRes, x *Exit, key string, adds []*Event, ps []*Term) {
			if !r.check(len(adds) == 1, key, x.Pos, "%s adds %d parts", shortFn(rr.fn), len(adds)) {
				return
			}
			c.at(sp.name, adds[0].Args[m.pPos], key, x.Pos)
			var args *Term
			if sp.args != nil {
				args = sp.args(rr.e, ps)
			}
			c.part(rr, x, adds[0], key, sp.clause, sp.expr(rr.e, ps), args, sp.sep)
		})
	}
	each("New", func(rr *runRes, x *Exit, key string, adds []*Event, ps []*Term) {
		if r.check(len(adds) == 1, key, x.Pos, "%s adds %d parts", shortFn(rr.fn), len(adds)) {
			c.at("Select", adds[0].Args[m.pPos], key, x.Pos)
			c.part(rr, x, adds[0], key, sym(ps[0]), "", ps[1])
		}
	})
	each("InsertInto", func(rr *runRes, x *Exit, key string, adds []*Event, ps []*Term) {
		if !r.check(len(adds) == 4, key, x.Pos, "%s adds %d parts", shortFn(rr.fn), len(adds)) {
			return
		}
		for i, t := range []string{"INSERT INTO", "(", ") VALUES (", ")"} {
			var ev *Event
			for _, a := range adds {
				if s, k := a.Args[m.pClause].constStr(); k && s == t {
					ev = a
				}
			}
			if !r.check(ev != nil, key, x.Pos, "%s does not add %q", shortFn(rr.fn), t) {
				continue
			}
			expr := ""
			if i == 0 {
				expr = sym(ps[0])
			}
			c.part(rr, x, ev, key, t, expr, nil, ", ")
			c.at([]string{"InsertInto", "(", ") VALUES (", ")"}[i], ev.Args[m.pPos], key, x.Pos)
		}
		c.at("fields", m.get(rr.e, x.St, adds[0].Args[0], m.pos), key, x.Pos)
	})
	// In and joins
	each("In", func(rr *runRes, x *Exit, key string, adds []*Event, ps []*Term) {
		if !r.check(len(adds) == 1, key, x.Pos, "%s adds %d parts", shortFn(rr.fn), len(adds)) {
			return
		}
		ev := adds[0]
		c.at("Where", ev.Args[m.pPos], key, x.Pos)
		r.check(inList(c, rr, x, ev, ps[0]), key, ev.Instr.Pos(), "the expression is not IN with one placeholder for each argument")
		r.check(ev.Args[m.pArgs] == ps[0], key, ev.Instr.Pos(), "other arguments are added")
		sep, _ := ev.Args[m.pSep].constStr()
		cl, k := ev.Args[m.pClause].constStr()
		r.check(sep == " " && k && cl == "", key, ev.Instr.Pos(), "IN is not written behind the last expression")
		c.notAfterPut(rr, x, key, ev)
	})
	for name, kw := range map[string]string{"Join": "JOIN ", "LeftJoin": "LEFT JOIN ", "RightJoin": "RIGHT JOIN ", "FullJoin": "FULL JOIN "} {
		each(name, func(rr *runRes, x *Exit, key string, adds []*Event, ps []*Term) {
			if !r.check(len(adds) == 1, key, x.Pos, "%s adds %d parts", shortFn(rr.fn), len(adds)) {
				return
			}
			c.at("From", adds[0].Args[m.pPos], key, x.Pos)
			c.part(rr, x, adds[0], key, "", kw+sym(ps[0])+" ON ("+sym(ps[1])+")", nil, " ")
			c.notAfterPut(rr, x, key, adds[0])
		})
	}
	c.inserts(each)
	c.subQueries(each)
	c.others(each)
	c.bind()
	// the order
	key := "order of the clauses"
	var gap *big.Int
	for i := 1; i < len(clauseOrder); i++ {
		a, b := c.pos[clauseOrder[i-1]], c.pos[clauseOrder[i]]
		if a == nil || b == nil {
			r.check(false, key, token.NoPos, "the place of %s or %s is not known", clauseOrder[i-1], clauseOrder[i])
			continue
		}
		d := new(big.Int).Sub(b, a)
		r.check(d.Sign() > 0, key, token.NoPos, "%s does not come before %s", clauseOrder[i-1], clauseOrder[i])
		if gap == nil || d.Cmp(gap) < 0 {
			gap = d
		}
	}
	between := func(x string, lo, hi string) {
		if c.pos[x] != nil && c.pos[lo] != nil && c.pos[hi] != nil {
			r.check(c.pos[x].Cmp(c.pos[lo]) > 0 && c.pos[x].Cmp(c.pos[hi]) < 0, key, token.NoPos, "%q does not come between %s and %s", x, lo, hi)
		}
	}
	between("(", "InsertInto", "fields")
	between(") VALUES (", "fields", "values")
	between(")", "values", "DeleteFrom")
	if d := c.pos["clause step"]; d != nil && gap != nil {
		r.check(gap.Cmp(new(big.Int).Mul(d, bi(1000))) >= 0, key, token.NoPos, "a few raw clauses reach the place of another clause")
	}
	c.addText()
	r.atLeast(n, 35, "functions of the builder")
}

// notAfterPut: no buffer that holds the text was given back before the part is added.
func (c *clauseRule) notAfterPut(rr *runRes, x *Exit, key string, add *Event) {
	w := bufferText(add.Args[c.m.pExpr])
	puts := 0
	before := true
	for _, ev := range x.St.events() {
		if ev == add {
			before = false
		}
		if ev.Kind == "call" && strings.HasSuffix(ev.Callee, "bytebufferpool.Put") && ev.Args[0] == w {
			puts++
			c.check(!before, key, ev.Instr.Pos(), "the buffer is given back before its text is added")
		}
	}
	c.check(puts <= 1, key, x.Pos, "a buffer is given back twice")
}

// inList: the text is IN ( with one placeholder for each argument, separated by commas ).
func inList(c *clauseRule, rr *runRes, x *Exit, add *Event, args *Term) bool {
	e := rr.e
	t := add.Args[c.m.pExpr]
	var ps []piece
	ok := false
	w := bufferText(t)
	if w != nil {
		ps, ok = pieces(e, eventsBefore(x.St.events(), add), w)
	} else if t.op == "call" && t.site != nil {
		// text of a strings.Builder
		for _, ev := range callsNamed(x.St, "strings.(Builder).String") {
			if ev.Result == t {
				w = ev.Args[0]
				ps, ok = pieces(e, eventsBefore(x.St.events(), ev), w)
			}
		}
	} else if t.op == "concat" && len(t.args) == 3 {
		a, _ := t.args[0].constStr()
		b, _ := t.args[2].constStr()
		return a == "IN (" && b == ")" && marks(rr, x, t.args[1], args)
	}
	if !ok || len(ps) < 3 {
		return false
	}
	first, last := ps[0], ps[len(ps)-1]
	if c.render(e, x.St, nil, []piece{first}) != "IN (" || c.render(e, x.St, nil, []piece{last}) != ")" {
		return false
	}
	var rec *LoopRec
	for _, p := range ps[1 : len(ps)-1] {
		if p.loop == nil || rec != nil && rec != p.loop {
			return false
		}
		rec = p.loop
	}
	if rec == nil || len(rec.Backs) != len(rec.Iters) || loopOver(e, x.St, rec, args) == nil {
		return false
	}
	idx := loopOver(e, x.St, rec, args)
	for i, it := range rec.Iters {
		var b strings.Builder
		var ip []piece
		if ip, ok = pieces(e, it, w); !ok {
			return false
		}
		b.WriteString(c.render(e, x.St, nil, ip))
		// the index in the iteration: the back value of the slot is idx+1
		st := rec.Backs[i]
		n := e.ts.sub(e.lenOf(args), idx, tInt) // len - idx at the head
		iv := e.bounds(st, n)
		ic := e.bounds(st, idx)
		switch b.String() {
		case "?":
			if !(iv.hi != nil && iv.hi.Cmp(bi(1)) <= 0 || ic.hi != nil && ic.hi.Sign() <= 0) {
				return false
			}
		case "?,", "?, ":
			if !(iv.lo != nil && iv.lo.Cmp(bi(2)) >= 0) {
				return false
			}
		case ",?", ", ?":
			if !(ic.lo != nil && ic.lo.Sign() > 0) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// marks: the text is one placeholder for each argument, separated by commas.
func marks(rr *runRes, x *Exit, t, args *Term) bool {
	e := rr.e
	sep := func(t *Term) bool {
		s, k := t.constStr()
		return k && strings.TrimSpace(s) == ","
	}
	n := e.lenOf(args)
	pure := func(t *Term, name string, k int) bool { return t.op == "pure" && t.aux == name && len(t.args) == k }
	if t.op == "slice" && len(t.args) >= 3 && pure(t.args[0], "strings.Repeat", 2) && t.args[1].isInt(1) && t.args[2].op == "nil" {
		// ",?" for each, without the first comma
		s, _ := t.args[0].args[0].constStr()
		return s == ",?" && t.args[0].args[1] == n
	}
	if (pure(t, "strings.TrimSuffix", 2) || pure(t, "strings.TrimRight", 2)) && pure(t.args[0], "strings.Repeat", 2) {
		s, _ := t.args[0].args[0].constStr()
		c, _ := t.args[1].constStr()
		return t.args[0].args[1] == n && strings.HasPrefix(s, "?") && s[1:] == c && strings.TrimSpace(c) == ","
	}
	if !pure(t, "strings.Join", 2) || !sep(t.args[1]) {
		return false
	}
	l := t.args[0]
	for _, ev := range x.St.events() {
		if ev.Kind != "loop" || len(ev.Loop.Iters) != 1 || loopOver(e, x.St, ev.Loop, args) == nil && loopOver(e, x.St, ev.Loop, l) == nil {
			continue
		}
		idx := loopOver(e, x.St, ev.Loop, l)
		if i := loopOver(e, x.St, ev.Loop, args); i != nil {
			idx = i
		}
		for _, it := range ev.Loop.Iters[0] {
			switch it.Kind {
			case "store": // each element of a list of that length
				if a := it.Args[0]; a.op == "index" && a.args[0] == l && a.args[1] == idx && e.lenOf(l) == n {
					s, _ := it.Args[1].constStr()
					return s == "?"
				}
			case "append": // to an empty list
				for _, sl := range ev.Loop.sorted() {
					if sl.Entry != nil && len(sl.Backs) == 1 && sl.Backs[0] == it.Result && it.Args[0] == sl.Sym && l == sl.Sym {
						z := e.lenOf(sl.Entry)
						v := it.Args[1]
						if v.op == "slicelit" && len(v.args) == 1 && z.isInt(0) {
							s, _ := v.args[0].constStr()
							return s == "?"
						}
					}
				}
			}
		}
	}
	return false
}

type eachFn func(name string, f func(rr *runRes, x *Exit, key string, adds []*Event, ps []*Term))

func (c *clauseRule) inserts(each eachFn) {
	m, r := c.m, c.Report
	setExpr := func(value bool) func(rr *runRes, x *Exit, key string, adds []*Event, ps []*Term) {
		return func(rr *runRes, x *Exit, key string, adds []*Event, ps []*Term) {
			e := rr.e
			chunks := m.get(e, newState(), rr.args[0], m.chunks)
			expr, args := "?", oneArg(e, ps[1:])
			if !value {
				expr, args = sym(ps[1]), ps[2]
			}
			switch len(adds) {
			case 2:
				r.check(c.pos["InsertInto"] != nil && m.hasChunk(e, x.St, chunks, c.pos["InsertInto"]), key, x.Pos, "%s adds a column to a statement without knowing that it is an INSERT", shortFn(rr.fn))
				f, v := adds[0], adds[1]
				if c.pos["fields"] != nil && !f.Args[m.pPos].isInt(c.pos["fields"].Int64()) {
					f, v = v, f
				}
				c.at("fields", f.Args[m.pPos], key, x.Pos)
				c.at("values", v.Args[m.pPos], key, x.Pos)
				c.part(rr, x, f, key, "", sym(ps[0]), nil, ", ")
				c.part(rr, x, v, key, "", expr, args, ", ")
			case 1:
				r.check(c.pos["Update"] != nil && m.hasChunk(e, x.St, chunks, c.pos["Update"]), key, x.Pos, "%s adds to SET without knowing that the statement is an UPDATE", shortFn(rr.fn))
				c.at("set", adds[0].Args[m.pPos], key, x.Pos)
				c.part(rr, x, adds[0], key, "SET", sym(ps[0])+"="+expr, args, ", ")
			case 0:
				r.check(m.noChunk(e, x.St, chunks, false, c.pos["InsertInto"], c.pos["Update"]), key, x.Pos, "%s ignores the value although the statement can be an INSERT or UPDATE", shortFn(rr.fn))
			default:
				r.check(false, key, x.Pos, "%s adds %d parts", shortFn(rr.fn), len(adds))
			}
		}
	}
	if c.pos["InsertInto"] == nil || c.pos["Update"] == nil || c.pos["fields"] == nil {
		return
	}
	each("SetExpr", setExpr(false))
	each("Set", setExpr(true))
	if c.pos["values"] == nil {
		return
	}
	// rows of a bulk insert
	nr := r.p.Method(xsqlPkg, "Stmt", "NewRow")
	if nr == nil {
		r.missing("xsql.(Stmt).NewRow")
		return
	}
	rr := r.stmtRun(m, nr, nil)
	e := rr.e
	key := "clause:" + shortFn(nr)
	chunks := m.get(e, newState(), rr.args[0], m.chunks)
	var row *types.Named
	var fq, ffirst, fnot = -1, -1, -1
	type rowSt struct {
		x      *Exit
		v      *Term
		exists bool
	}
	var rowsts []rowSt
	for _, x := range rr.returns() {
		adds := addsOf(x.St.events())
		if !r.check(len(x.Results) == 1 && unIface(x.Results[0]).op == "struct", key, x.Pos, "NewRow does not return a new row") {
			continue
		}
		v := unIface(x.Results[0])
		// a flag whose value the path has tested
		as := append([]*Term{}, v.args...)
		for i, a := range as {
			if a.typ != nil && isBoolean(a.typ) {
				if b, k := e.evalBool(x.St, a); k {
					as[i] = e.ts.boolTerm(b)
				}
			}
		}
		v = e.ts.mk("struct", v.aux, v.typ, as...)
		row = namedOf(v.typ)
		switch len(adds) {
		case 1:
			r.check(m.hasChunk(e, x.St, chunks, c.pos["values"]), key, x.Pos, "NewRow starts another row without knowing that there are values already")
			c.at("values", adds[0].Args[m.pPos], key, x.Pos)
			ex := c.renderTerm(e, x.St, nil, adds[0].Args[m.pExpr], "s")
			sp, _ := adds[0].Args[m.pSep].constStr()
			r.check(strings.Join(strings.Fields(sp+ex), "") == "),(" && ex != "", key, x.Pos, "rows are separated by %q", sp+ex)
			z, k := e.nilness(x.St, adds[0].Args[m.pArgs])
			r.check(k && z, key, x.Pos, "NewRow adds arguments")
		case 0:
			r.check(m.noChunk(e, x.St, chunks, true, c.pos["values"]), key, x.Pos, "NewRow does not separate the row from the values that the statement can have")
		default:
			r.check(false, key, x.Pos, "NewRow adds %d parts", len(adds))
		}
		rowsts = append(rowsts, rowSt{x, v, len(adds) == 1})
	}
	if row == nil {
		return
	}
	s := row.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if namedOf(s.Field(i).Type()) == m.T {
			fq = i
			continue
		}
		if !isBoolean(s.Field(i).Type()) {
			continue
		}
		diff := false
		for _, a := range rowsts {
			for _, b := range rowsts {
				diff = diff || a.v.args[i] != b.v.args[i]
			}
		}
		if diff {
			ffirst = i
		} else {
			fnot = i
		}
	}
	if !r.check(fq >= 0 && ffirst >= 0 && fnot >= 0, key, nr.Pos(), "the row does not know whether it is the first of the statement, and whether it has a value") {
		return
	}
	for _, a := range rowsts {
		b, k := a.v.args[ffirst].constBool()
		r.check(k && b == !a.exists && a.v.args[fq] == rr.args[0], key, a.x.Pos, "the row is wrongly marked as the first of its statement")
		b, k = a.v.args[fnot].constBool()
		r.check(k && !b, key, a.x.Pos, "a new row is marked to have a value")
	}
	for _, name := range []string{"SetExpr", "Set"} {
		fn := r.p.Method(xsqlPkg, row.Obj().Name(), name)
		if fn == nil {
			r.missing("xsql.(" + row.Obj().Name() + ")." + name)
			continue
		}
		rr := r.stmtRun(m, fn, nil)
		e := rr.e
		key := "clause:" + shortFn(fn)
		fld := func(v *Term, st *State, i int) *Term {
			if v.op == "struct" {
				return v.args[i]
			}
			return e.fieldOf(v, typeKey(row)+"."+s.Field(i).Name(), s.Field(i).Type())
		}
		ps := rr.args[1:]
		expr, args := "?", oneArg(e, ps[1:])
		if name == "SetExpr" {
			expr, args = sym(ps[1]), ps[2]
		}
		seen := 0
		for _, x := range rr.returns() {
			adds := addsOf(x.St.events())
			in := rr.args[0]
			for _, ev := range adds {
				r.check(ev.Args[0] == fld(in, x.St, fq), key, x.Pos, "the value is added to another statement")
			}
			first, fk := e.evalBool(x.St, fld(in, x.St, ffirst))
			has, hk := e.evalBool(x.St, fld(in, x.St, fnot))
			switch {
			case !r.check(fk, key, x.Pos, "%s does not distinguish the first row", shortFn(fn)):
			case first:
				if r.check(len(adds) == 2, key, x.Pos, "%s adds %d parts for the first row", shortFn(fn), len(adds)) {
					f, v := adds[0], adds[1]
					if !f.Args[m.pPos].isInt(c.pos["fields"].Int64()) {
						f, v = v, f
					}
					c.at("fields", f.Args[m.pPos], key, x.Pos)
					c.at("values", v.Args[m.pPos], key, x.Pos)
					c.part(rr, x, f, key, "", sym(ps[0]), nil, ", ")
					c.part(rr, x, v, key, "", expr, args, ", ")
					seen |= 1
				}
			default:
				if r.check(len(adds) == 1 && hk, key, x.Pos, "%s adds %d parts for another row", shortFn(fn), len(adds)) {
					c.at("values", adds[0].Args[m.pPos], key, x.Pos)
					sep := ""
					if has {
						sep = ", "
						seen |= 2
					} else {
						seen |= 4
					}
					c.part(rr, x, adds[0], key, "", expr, args, sep)
				}
			}
			if r.check(len(x.Results) == 1 && unIface(x.Results[0]).op == "struct", key, x.Pos, "%s does not return the row", shortFn(fn)) {
				v := unIface(x.Results[0])
				b, k := e.evalBool(x.St, v.args[fnot])
				r.check(k && b && v.args[fq] == fld(in, x.St, fq), key, x.Pos, "the row is not marked to have a value")
				fb, k := e.evalBool(x.St, v.args[ffirst])
				r.check(k && fb == first, key, x.Pos, "the row changes whether it is the first")
			}
		}
		r.check(seen == 7, key, fn.Pos(), "%s does not handle the first and other rows, with and without values", shortFn(fn))
	}
}

// sub checks the use of the sub-query of a path: for the default dialect, arguments taken before, closed once at the end.
func (c *clauseRule) sub(rr *runRes, x *Exit, key string, add *Event, sub *Term, want func(text string) string) {
	r, m, e := c.Report, c.m, rr.e
	evs := x.St.events()
	r.check(add.Args[m.pArgs] == m.get(e, newState(), sub, m.args), key, x.Pos, "the arguments of the sub-query are not added")
	var str *Event
	closed := 0
	for _, ev := range evs {
		switch {
		case ev.Kind == "string" && ev.Args[0] == sub:
			r.check(closed == 0, key, x.Pos, "the sub-query is used after it is closed")
			d := ev.Vals[0]
			def := isGlobalNamed(d, "xsql.NoDialect") || isGlobalNamed(unIface(d), "xsql.NoDialect")
			if !def {
				for t, v := range x.St.b {
					if v && t.op == "eq" && (t.args[0] == d && isGlobalNamed(t.args[1], "xsql.NoDialect") || t.args[1] == d && isGlobalNamed(t.args[0], "xsql.NoDialect")) {
						def = true
					}
				}
			}
			r.check(def, key, ev.Instr.Pos(), "the text of the sub-query is not that of the default dialect")
			d0 := m.get(e, newState(), sub, m.dialect)
			if d != d0 {
				s, k := ev.Vals[1].constStr()
				r.check(k && s == "", key, ev.Instr.Pos(), "the text of the sub-query is that of its former dialect")
			}
			str = ev
		case ev.Kind == "close" && ev.Args[0] == sub:
			closed++
		case ev == add:
			r.check(closed == 0, key, x.Pos, "the arguments of the sub-query are used after it is closed")
		}
	}
	r.check(closed == 1, key, x.Pos, "the sub-query is closed %d times", closed)
	if !r.check(str != nil, key, x.Pos, "the text of the sub-query is not used") {
		return
	}
	// what is written behind the added part
	buf := add.Vals[len(add.Vals)-1]
	var after []*Event
	on := false
	for _, ev := range evs {
		if on {
			after = append(after, ev)
		}
		on = on || ev == add
	}
	ps, ok := pieces(e, after, buf)
	got := c.render(e, x.St, nil, ps)
	w := want(sym(str.Result))
	r.check(ok && got == w, key, x.Pos, "%q is written behind the part, not %q", got, w)
	// the part extends to the end
	end := false
	for _, ev := range after {
		if ev.Kind == "store" && ev.Args[0].op == "field" && ev.Args[0].args[0].op == "index" {
			el := ev.Args[0].args[0]
			s := m.C.Underlying().(*types.Struct)
			if fieldName(ev.Args[0].aux) == s.Field(m.chi).Name() && el.args[0] == m.get(e, x.St, add.Args[0], m.chunks) && el.args[1] == add.Result {
				v := ev.Args[1]
				for _, le := range callsNamed(x.St, "github.com/valyala/bytebufferpool.(ByteBuffer).Len") {
					if le.Result == v {
						rest, _ := pieces(e, eventsAfter(after, le), buf)
						end = len(rest) == 0
					}
				}
				if v == m.bufLen(e, x.St, add.Args[0]) {
					end = true
				}
			}
		}
	}
	r.check(end, key, x.Pos, "the part does not extend to the end of the sub-query")
}

func eventsAfter(evs []*Event, ev *Event) []*Event {
	for i, x := range evs {
		if x == ev {
			return evs[i+1:]
		}
	}
	return nil
}

func (c *clauseRule) subQueries(each eachFn) {
	r, m := c.Report, c.m
	subSpec := func(rr *runRes, x *Exit, key string, add *Event, pos *Term, prefix, suffix string, sub *Term) {
		e := rr.e
		if pos != nil {
			r.check(add.Args[m.pPos] == pos, key, x.Pos, "the sub-query is added to another clause than the current one")
		}
		sep := ", "
		if c.pos["Where"] != nil {
			v, k := e.evalBool(x.St, e.eqTerm(add.Args[m.pPos], e.ts.bigTerm(c.pos["Where"]), tInt))
			if !r.check(k, key, x.Pos, "%s does not distinguish a filter from a list", shortFn(rr.fn)) {
				return
			}
			if v {
				sep = " AND "
			}
		}
		before := eventsBefore(x.St.events(), add)
		got := c.renderTerm(e, x.St, before, add.Args[m.pExpr], "s")
		r.check(got == prefix || prefix == "" && strings.TrimSpace(got) == "" && got != "", key, x.Pos, "the sub-query begins with %q", got)
		ez, ek := e.isZeroTerm(x.St, add.Args[m.pExpr], basic(types.String))
		r.check(ek && !ez, key, x.Pos, "the sub-query can be added without an expression, which replaces arguments")
		cl, k := add.Args[m.pClause].constStr()
		r.check(k && cl == "", key, x.Pos, "a keyword is added with the sub-query")
		s, _ := add.Args[m.pSep].constStr()
		r.check(s == sep, key, x.Pos, "the separator is %q", s)
		c.sub(rr, x, key, add, sub, func(t string) string { return t + suffix })
	}
	each("SubQuery", func(rr *runRes, x *Exit, key string, adds []*Event, ps []*Term) {
		if !r.check(len(adds) == 1, key, x.Pos, "%s adds %d parts", shortFn(rr.fn), len(adds)) {
			return
		}
		e := rr.e
		prefix := sym(ps[0])
		if z, k := e.isZeroTerm(x.St, ps[0], basic(types.String)); k && z {
			prefix = ""
		}
		suffix := sym(ps[1])
		subSpec(rr, x, key, adds[0], m.get(e, newState(), rr.args[0], m.pos), prefix, suffix, unIface(ps[2]))
	})
	each("With", func(rr *runRes, x *Exit, key string, adds []*Event, ps []*Term) {
		if !r.check(len(adds) == 2, key, x.Pos, "%s adds %d parts", shortFn(rr.fn), len(adds)) {
			return
		}
		c.at("With", adds[0].Args[m.pPos], key, x.Pos)
		c.at("With", adds[1].Args[m.pPos], key, x.Pos)
		c.part(rr, x, adds[0], key, "WITH", "", nil)
		subSpec(rr, x, key, adds[1], nil, sym(ps[0])+" AS (", ")", unIface(ps[1]))
	})
	var later []func()
	defer func() {
		for _, f := range later {
			f()
		}
	}()
	each("Union", func(rr *runRes, x *Exit, key string, adds []*Event, ps []*Term) {
		e := rr.e
		if !r.check(len(adds) == 1, key, x.Pos, "%s adds %d parts", shortFn(rr.fn), len(adds)) {
			return
		}
		add := adds[0]
		all, k := e.evalBool(x.St, ps[0])
		cl, _ := add.Args[m.pClause].constStr()
		want := "UNION "
		if all {
			want = "UNION ALL "
		}
		r.check(k && cl == want, key, x.Pos, "the clause is %q", cl)
		ex, k := add.Args[m.pExpr].constStr()
		r.check(k && ex == "", key, x.Pos, "an expression is added")
		chunks := m.get(e, newState(), rr.args[0], m.chunks)
		if v, k := add.Args[m.pPos].constInt(); k {
			c.at("Union", add.Args[m.pPos], key, x.Pos)
			c.check(c.behindLast(e, x.St, chunks, add.Args[m.pPos]), key, x.Pos, "UNION is not known to be added behind the last clause (%s)", v)
		} else {
			c.check(c.behindLast(e, x.St, chunks, add.Args[m.pPos]), key, x.Pos, "UNION is not known to be added behind the last clause")
			later = append(later, func() {
				u := c.pos["Union"]
				r.check(u != nil && e.less(x.St, e.ts.bigTerm(new(big.Int).Sub(u, bi(1))), add.Args[m.pPos]), key, x.Pos,
					"UNION can be added before a clause of the query that it follows, if that clause is added later")
			})
		}
		c.sub(rr, x, key, add, unIface(ps[1]), func(t string) string { return t })
	})
}

// behindLast: pos is greater than the position of the last chunk, or there is none.
func (c *clauseRule) behindLast(e *Engine, st *State, chunks, pos *Term) bool {
	if z, k := e.evalBool(st, e.eqTerm(e.lenOf(chunks), e.ts.intTerm(0), tInt)); k && z {
		return true
	}
	last := c.m.chunkAt(e, newState(), chunks, e.ts.add(e.lenOf(chunks), e.ts.intTerm(-1), tInt), c.m.cpos)
	return e.less(st, last, pos)
}

func (c *clauseRule) others(each eachFn) {
	r, m := c.Report, c.m
	each("Expr", func(rr *runRes, x *Exit, key string, adds []*Event, ps []*Term) {
		if !r.check(len(adds) == 1, key, x.Pos, "%s adds %d parts", shortFn(rr.fn), len(adds)) {
			return
		}
		r.check(adds[0].Args[m.pPos] == m.get(rr.e, newState(), rr.args[0], m.pos), key, x.Pos, "the expression is added to another clause than the current one")
		c.part(rr, x, adds[0], key, "", sym(ps[0]), ps[1], ", ")
	})
	each("Clause", func(rr *runRes, x *Exit, key string, adds []*Event, ps []*Term) {
		if !r.check(len(adds) == 1, key, x.Pos, "%s adds %d parts", shortFn(rr.fn), len(adds)) {
			return
		}
		e := rr.e
		c.part(rr, x, adds[0], key, sym(ps[0]), "", ps[1])
		chunks := m.get(e, newState(), rr.args[0], m.chunks)
		z, k := e.evalBool(x.St, e.eqTerm(e.lenOf(chunks), e.ts.intTerm(0), tInt))
		if !r.check(k, key, x.Pos, "%s does not distinguish an empty statement", shortFn(rr.fn)) {
			return
		}
		if z {
			c.at("Clause", adds[0].Args[m.pPos], key, x.Pos)
			return
		}
		r.check(c.behindLast(e, x.St, chunks, adds[0].Args[m.pPos]), key, x.Pos, "the clause is not added behind the last one")
		last := m.chunkAt(e, newState(), chunks, e.ts.add(e.lenOf(chunks), e.ts.intTerm(-1), tInt), m.cpos)
		if d, ok := e.ts.sub(adds[0].Args[m.pPos], last, tInt).constInt(); r.check(ok, key, x.Pos, "the distance of the clause to the last one is not constant") {
			c.pos["clause step"] = d
		}
	})
	each("Paginate", func(rr *runRes, x *Exit, key string, adds []*Event, ps []*Term) {
		e := rr.e
		one := e.ts.intTerm(1)
		pb, sb := e.bounds(x.St, ps[0]), e.bounds(x.St, ps[1])
		size := ps[1]
		sk := sb.lo != nil && sb.lo.Sign() > 0
		if sb.hi != nil && sb.hi.Sign() <= 0 {
			size, sk = one, true
		}
		if !sk { // 1 or less
			sk = true
			size = nil
		}
		var lim, off *Event
		for _, a := range adds {
			switch {
			case c.pos["Limit"] != nil && a.Args[m.pPos].isInt(c.pos["Limit"].Int64()):
				r.check(lim == nil, key, x.Pos, "two limits are added")
				lim = a
			case c.pos["Offset"] != nil && a.Args[m.pPos].isInt(c.pos["Offset"].Int64()):
				r.check(off == nil, key, x.Pos, "two offsets are added")
				off = a
			default:
				r.check(false, key, x.Pos, "something else than limit and offset is added")
			}
		}
		val := func(ev *Event) *Term {
			if a := ev.Vals[m.pArgs]; a.op == "slicelit" && len(a.args) == 1 {
				return unIface(a.args[0])
			}
			return nil
		}
		max1 := func(p *Term, got *Term) bool {
			return got != nil && (got == p && e.bounds(x.St, p).lo != nil && e.bounds(x.St, p).lo.Sign() > 0 ||
				got.isInt(1) && e.bounds(x.St, p).hi != nil && e.bounds(x.St, p).hi.Cmp(bi(1)) <= 0 ||
				got.op == "max" && len(got.args) == 2 && (got.args[0] == p && got.args[1].isInt(1) || got.args[1] == p && got.args[0].isInt(1)))
		}
		if r.check(lim != nil, key, x.Pos, "no limit is added") {
			r.check(max1(ps[1], val(lim)), key, x.Pos, "the limit is %s", val(lim))
		}
		if off == nil {
			r.check(pb.hi != nil && pb.hi.Cmp(bi(1)) <= 0, key, x.Pos, "no offset is added for a page that can be behind the first")
		} else if lim != nil {
			v := val(off)
			sz := val(lim)
			ok := v != nil && sz != nil && (v == e.ts.mk("mul", typeKey(tInt), v.typ, sz, e.ts.sub(ps[0], one, tInt)) ||
				v.op == "mul" && len(v.args) == 2 && (v.args[0] == sz && v.args[1] == e.ts.sub(ps[0], one, tInt) || v.args[1] == sz && v.args[0] == e.ts.sub(ps[0], one, tInt)) ||
				sz.isInt(1) && v == e.ts.sub(ps[0], one, tInt))
			r.check(ok || pb.hi != nil && pb.hi.Cmp(bi(1)) <= 0 && v.isInt(0), key, x.Pos, "the offset is %s", v)
		}
		_ = size
		_ = sk
	})
	// scan targets
	to := r.p.Method(xsqlPkg, "Stmt", "To")
	if to == nil {
		r.missing("xsql.(Stmt).To")
		return
	}
	rr := r.stmtRun(m, to, nil)
	e := rr.e
	key := "clause:" + shortFn(to)
	d0 := m.get(e, newState(), rr.args[0], m.dest)
	for _, x := range rr.returns() {
		sq := e.newSeqs(x.St)
		sq.replay(x.St.events())
		got := sq.of(m.get(e, x.St, rr.args[0], m.dest))
		want := append(append(seq{}, part{base: d0, lo: e.ts.intTerm(0), hi: e.lenOf(d0)}), part{base: rr.args[1], lo: e.ts.intTerm(0), hi: e.lenOf(rr.args[1])})
		r.check(sq.same(got, want), key, x.Pos, "the scan targets become %s", sq.norm(got))
		r.check(len(addsOf(x.St.events())) == 0, key, x.Pos, "To adds to the statement")
	}
}

// addText: what the adding function writes for a part.
func (c *clauseRule) addText() {
	r, m := c.Report, c.m
	a := r.addRun(m)
	if a == nil {
		return
	}
	e := a.e
	clause, expr, sep := a.args[m.pClause], a.args[m.pExpr], a.args[m.pSep]
	buf := m.get(e, a.st0, a.q, m.buf)
	nl := m.get(e, a.st0, a.q, m.newLines)
	key := "text of a part:" + shortFn(m.add)
	for _, x := range a.paths {
		if x.reset {
			continue
		}
		ps, ok := pieces(e, x.St.events(), buf)
		got := c.render(e, x.St, nil, ps)
		ec, ck := e.isZeroTerm(x.St, clause, basic(types.String))
		ee, ek := e.isZeroTerm(x.St, expr, basic(types.String))
		ex := sym(expr)
		if ek && ee {
			ex = ""
		}
		want := ""
		switch {
		case x.same:
			has, hk := e.evalBool(x.St, m.chunkAt(e, a.st0, a.chunks0, x.s.at, m.cexpr))
			if !r.check(hk, key, x.Pos, "the separator does not depend on whether the clause has an expression") {
				continue
			}
			if has {
				want = c.renderTerm(e, x.St, nil, sep, "s")
			} else {
				want = " "
			}
			want += ex
		case ck && ec:
			want = ex
		case ck:
			n, nk := e.evalBool(x.St, nl)
			if !r.check(nk, key, x.Pos, "the keyword is written without regard to new lines") {
				continue
			}
			if n {
				want = "\n"
			}
			want += sym(clause)
			if !r.check(ek, key, x.Pos, "the keyword is written without regard to the expression") {
				continue
			}
			if !ee {
				want += " " + ex
			}
		default:
			r.check(false, key, x.Pos, "the text does not depend on whether there is a keyword")
			continue
		}
		r.check(ok && got == want, key, x.Pos, "%q is written and not %q", got, want)
	}
}

// bind: a struct is bound field by field, in order: each tagged field is selected by the name of its tag and scanned into, embedded structs are bound the same way.
func (c *clauseRule) bind() {
	r, m := c.Report, c.m
	bind, to := r.p.Method(xsqlPkg, "Stmt", "Bind"), r.p.Method(xsqlPkg, "Stmt", "To")
	if bind == nil || to == nil {
		r.missing("xsql.(Stmt).Bind")
		return
	}
	e := newEngine(r.p)
	hook := m.hook(r.p)
	e.OnCall = func(e *Engine, st *State, cl *Call) *Outcome {
		if cl.Fn == to || cl.Fn == bind {
			ev := &Event{Kind: "call", Instr: cl.Instr, Ctx: cl.Ctx, Callee: cl.Name, Fn: cl.Fn, Args: cl.Args}
			for _, a := range cl.Args {
				ev.Vals = append(ev.Vals, e.snapshot(st, a))
			}
			ev.Result = e.ts.iface(types.NewPointer(m.T), cl.Args[0])
			st.event(ev)
			return &Outcome{States: []*State{st}, Results: []*Term{ev.Result}}
		}
		return hook(e, st, cl)
	}
	args := e.Params(bind)
	exits := e.Run(bind, newState(), args)
	r.done(e, exits)
	key := "clause:" + shortFn(bind)
	n := 0
	for _, x := range exits {
		if x.Panic {
			continue
		}
		r.check(len(x.Results) == 1 && unIface(x.Results[0]) == args[0], key, x.Pos, "Bind does not return the statement")
		for _, ev := range x.St.events() {
			if ev.Kind != "loop" {
				continue
			}
			rec := ev.Loop
			for i, it := range rec.Iters {
				st := rec.Backs[i]
				var field, typ, addr, ptr, tag, kind *Term
				var add, dest, sub *Event
				for _, ie := range it {
					switch {
					case ie.Kind == "add":
						r.check(add == nil, key, x.Pos, "a field is selected twice")
						add = ie
					case ie.Kind == "call" && ie.Fn == to:
						r.check(dest == nil && add != nil, key, x.Pos, "a field is bound without its column")
						dest = ie
					case ie.Kind == "call" && ie.Fn == bind:
						sub = ie
					case ie.Kind == "call" && ie.Callee == "reflect.(Value).Field":
						field = ie.Result
					case ie.Kind == "call" && strings.HasSuffix(ie.Callee, "reflect.(Type).Field"):
						typ = ie.Result
					case ie.Kind == "call" && ie.Callee == "reflect.(Value).Addr" && ie.Args[0] == field:
						addr = ie.Result
					case ie.Kind == "call" && ie.Callee == "reflect.(Value).Interface" && ie.Args[0] == addr:
						ptr = ie.Result
					case ie.Kind == "call" && ie.Callee == "reflect.(Value).Kind" && ie.Args[0] == field:
						kind = ie.Result
					case ie.Kind == "call" && ie.Callee == "reflect.(StructTag).Get":
						tag = ie.Result
						s, k := ie.Args[1].constStr()
						r.check(k && s == "db", key, x.Pos, "another tag than db is used")
					}
				}
				if !r.check(field != nil && typ != nil && kind != nil, key, x.Pos, "a field is not looked at") {
					continue
				}
				isStruct, sk := e.evalBool(st, e.eqTerm(kind, e.ts.intTerm(25), kind.typ))
				anon, ak := false, false
				for t, v := range st.b {
					if t.any(func(y *Term) bool {
						return y.op == "fieldof" && fieldName(y.aux) == "Anonymous" && y.args[0] == typ
					}) {
						anon, ak = v, true
					}
				}
				embedded := sk && isStruct && ak && anon
				plain := sk && !isStruct || ak && !anon
				n++
				switch {
				case sub != nil:
					r.check(embedded && ptr != nil && unIface(sub.Args[1]) == ptr && sub.Args[0] == args[0] && add == nil, key, x.Pos, "something else than an embedded struct is bound as a struct")
				case add != nil:
					r.check(plain, key, x.Pos, "an embedded struct is selected as a column")
					if !r.check(dest != nil && tag != nil && ptr != nil, key, x.Pos, "a column is selected without a scan target") {
						continue
					}
					v := dest.Vals[1]
					r.check(v.op == "slicelit" && len(v.args) == 1 && unIface(v.args[0]) == ptr && dest.Args[0] == args[0], key, x.Pos, "the column is scanned into something else than its field")
					c.at("Select", add.Args[m.pPos], key, x.Pos)
					ex := add.Args[m.pExpr]
					ok := ex == tag
					if ex.op == "ld" && ex.args[0].op == "index" && ex.args[0].args[1].isInt(0) {
						s := ex.args[0].args[0]
						ok = s.op == "pure" && (s.aux == "strings.Split" || s.aux == "strings.SplitN") && s.args[0] == tag
					}
					if ex.op == "extract" && ex.aux == "0" && ex.args[0].op == "pure" && ex.args[0].aux == "strings.Cut" {
						ok = ex.args[0].args[0] == tag
					}
					r.check(ok && ex != tag, key, x.Pos, "the selected column is not the name of the tag")
				default:
					z, zk := false, false
					if tag != nil {
						z, zk = e.isZeroTerm(st, tag, basic(types.String))
					}
					r.check(plain && zk && z, key, x.Pos, "a tagged field is left out")
				}
			}
		}
	}
	r.atLeast(n, 3, "cases of Bind")
}
