package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["A02"] = propRule{run: runA02, title: "Arguments stay in step with the text"}
}

const xsqlPkg = "xsql"

// stmtModel names the parts of a statement of the builder by their roles.
type stmtModel struct {
	T, C                               *types.Named // the statement and its chunks
	chunks, args, dest, sql, buf, name int
	pos, dialect, newLines             int
	cpos, clo, chi, cexpr, cargs       int
	add                                *ssa.Function
	pPos, pClause, pExpr, pArgs, pSep  int // parameters of add
	posT                               types.Type
	after                              map[*Event][2]*Term // chunks and arguments behind an "add"
}

// returnedField: the field of the receiver that the method returns.
func (p *Program) returnedField(f *ssa.Function) int {
	if f == nil {
		return -1
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ret, ok := in.(*ssa.Return)
			if !ok || len(ret.Results) != 1 {
				continue
			}
			if ld, ok := ret.Results[0].(*ssa.UnOp); ok && ld.Op == token.MUL {
				if fa, ok := ld.X.(*ssa.FieldAddr); ok && fa.X == f.Params[0] {
					return fa.Field
				}
			}
		}
	}
	return -1
}

func (r *Report) stmt() *stmtModel {
	p := r.p
	m := &stmtModel{T: p.Named(xsqlPkg, "Stmt"), after: map[*Event][2]*Term{}}
	if m.T == nil {
		r.missing("xsql.Stmt")
		return nil
	}
	st, ok := m.T.Underlying().(*types.Struct)
	if !ok {
		r.missing("xsql.Stmt")
		return nil
	}
	m.chunks, m.args, m.dest, m.sql, m.buf, m.name, m.pos, m.dialect, m.newLines = -1, -1, -1, -1, -1, -1, -1, -1, -1
	m.args = p.returnedField(p.Method(xsqlPkg, "Stmt", "Args"))
	m.dest = p.returnedField(p.Method(xsqlPkg, "Stmt", "Dest"))
	m.name = p.returnedField(p.Method(xsqlPkg, "Stmt", "Name"))
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch u := f.Type().Underlying().(type) {
		case *types.Slice:
			if n, ok := types.Unalias(u.Elem()).(*types.Named); ok && p.isRepo(n.Obj().Pkg()) {
				if _, ok := n.Underlying().(*types.Struct); ok {
					m.chunks, m.C = i, n
				}
			}
		case *types.Pointer:
			if strings.HasSuffix(u.Elem().String(), "bytebufferpool.ByteBuffer") {
				m.buf = i
			}
		case *types.Basic:
			switch {
			case u.Info()&types.IsString != 0 && i != m.name:
				m.sql = i
			case u.Info()&types.IsBoolean != 0:
				m.newLines = i
			case u.Info()&types.IsInteger != 0:
				m.pos, m.posT = i, f.Type()
			}
		case *types.Interface:
			m.dialect = i
		}
	}
	if m.chunks < 0 || m.args < 0 || m.dest < 0 || m.sql < 0 || m.buf < 0 || m.name < 0 || m.pos < 0 || m.dialect < 0 {
		r.missing("the fields of xsql.Stmt")
		return nil
	}
	// fields of a chunk
	m.cpos, m.clo, m.chi, m.cexpr, m.cargs = -1, -1, -1, -1, -1
	cs := m.C.Underlying().(*types.Struct)
	str := p.Method(xsqlPkg, "Stmt", "String")
	if str == nil {
		r.missing("xsql.Stmt.String")
		return nil
	}
	chunkField := func(v ssa.Value) int {
		switch x := v.(type) {
		case *ssa.Field:
			if namedOf(x.X.Type()) == m.C {
				return x.Field
			}
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) == m.C {
				return fa.Field
			}
		}
		return -1
	}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !p.isRepoFn(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Slice); ok && s.Low != nil && s.High != nil {
					lo, hi := chunkField(s.Low), chunkField(s.High)
					if lo >= 0 && hi >= 0 {
						m.clo, m.chi = lo, hi
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					visit(c.Common().StaticCallee())
				}
			}
		}
	}
	visit(str)
	for i := 0; i < cs.NumFields(); i++ {
		t := cs.Field(i).Type()
		switch {
		case types.Identical(t, m.posT):
			m.cpos = i
		case isBoolean(t):
			m.cexpr = i
		case isInteger(t) && i != m.clo && i != m.chi:
			m.cargs = i
		}
	}
	if m.cpos < 0 || m.clo < 0 || m.chi < 0 || m.cexpr < 0 || m.cargs < 0 {
		r.missing("the fields of a chunk of xsql.Stmt")
		return nil
	}
	// the function that adds chunks: a method of the statement with a position, a text and arguments
	for _, f := range p.funcs {
		sig := f.Signature
		if sig.Recv() == nil || namedOf(sig.Recv().Type()) != m.T || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		pos, args := -1, -1
		var strs []int
		for i, pr := range f.Params {
			if i == 0 {
				continue
			}
			switch {
			case types.Identical(pr.Type(), m.posT):
				pos = i
			case isAnySlice(pr.Type()):
				args = i
			case isString(pr.Type()):
				strs = append(strs, i)
			}
		}
		if pos > 0 && args > 0 && len(strs) == 3 {
			m.add = f
			m.pPos, m.pArgs, m.pClause, m.pExpr, m.pSep = pos, args, strs[0], strs[1], strs[2]
		}
	}
	if m.add == nil {
		r.missing("the method of xsql.Stmt that adds a chunk")
		return nil
	}
	return m
}

// addr of a field of the statement q
func (m *stmtModel) at(e *Engine, q *Term, i int) (*Term, types.Type) {
	return e.fieldAddr(q, m.T, i), m.T.Underlying().(*types.Struct).Field(i).Type()
}

func (m *stmtModel) get(e *Engine, st *State, q *Term, i int) *Term {
	a, t := m.at(e, q, i)
	return e.load(st, a, t)
}

// chunk field i of the chunk at idx of the list
func (m *stmtModel) chunkAt(e *Engine, st *State, list, idx *Term, i int) *Term {
	el := e.ts.mk("index", "", types.NewPointer(m.C), list, idx)
	return e.load(st, e.fieldAddr(el, m.C, i), m.C.Underlying().(*types.Struct).Field(i).Type())
}

// bufLen is the length of the text of the statement.
func (m *stmtModel) bufLen(e *Engine, st *State, q *Term) *Term {
	buf := m.get(e, st, q, m.buf)
	bt := namedOf(buf.typ)
	if bt == nil {
		return nil
	}
	s := bt.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "B" {
			return e.lenOf(e.load(st, e.fieldAddr(buf, bt, i), s.Field(i).Type()))
		}
	}
	return nil
}

// bufWrites: what the calls on the path write to the buffer.
func bufWrites(evs []*Event) []*Event {
	var r []*Event
	for _, ev := range evs {
		if ev.Kind == "call" && strings.Contains(ev.Callee, "bytebufferpool.(ByteBuffer).Write") {
			r = append(r, ev)
		}
	}
	return r
}

// constDiff: slots a and b of the loop always differ by the same constant.
func constDiff(e *Engine, rec *LoopRec, a, b *Recur) (*Term, bool) {
	if len(a.Backs) != len(b.Backs) || a.Entry == nil || b.Entry == nil {
		return nil, false
	}
	d := e.ts.sub(a.Entry, b.Entry, tInt)
	if !d.isConst() {
		return nil, false
	}
	for i := range a.Backs {
		if a.Backs[i] == nil || b.Backs[i] == nil {
			return nil, false
		}
		// the back values may use either symbol; a = b + d may be assumed at the head
		x := substTerm(e, a.Backs[i], a.Sym, e.ts.add(b.Sym, d, tInt))
		y := substTerm(e, b.Backs[i], a.Sym, e.ts.add(b.Sym, d, tInt))
		if e.ts.sub(x, y, tInt) != d {
			return nil, false
		}
	}
	return d, true
}

// substTerm replaces an atom of a linear term.
func substTerm(e *Engine, t, from, to *Term) *Term {
	l := toLin(t)
	r := lin{c: l.c}
	for i, a := range l.atoms {
		if a == from {
			r = linAdd(r, linScale(toLin(to), l.coef[i]), 1)
		} else {
			r = linAdd(r, lin{c: bi(0), coef: l.coef[i : i+1], atoms: l.atoms[i : i+1]}, 1)
		}
	}
	return e.ts.fromLin(r, tInt)
}

// less: a < b is known
func (e *Engine) less(st *State, a, b *Term) bool {
	d := e.bounds(st, e.ts.sub(a, b, tInt))
	if d.hi == nil || d.hi.Sign() > 0 {
		return false
	}
	v, k := e.evalBool(st, e.eqTerm(a, b, a.typ))
	return d.hi.Sign() < 0 || k && !v
}

// scan is the loop of the adding function that looks for the place of a new chunk, from the last chunk on.
type scanLoop struct {
	rec  *LoopRec
	i    *Recur // counts down
	at   *Term  // index of the chunk that is looked at
	tail *Term  // number of arguments of the chunks behind
}

// addExit is a path of the adding function.
type addExit struct {
	*Exit
	s                *scanLoop
	none, same, less bool // stopped behind no chunk, at one of the same clause, or at one of an earlier clause
	reset            bool // of the same clause and without an expression
	norm             func(*Term) *Term
}

// addRun interprets the adding function.
type addRun struct {
	*runRes
	m                    *stmtModel
	q                    *Term
	st0                  *State
	chunks0, args0, len0 *Term
	paths                []*addExit
}

func (r *Report) addRun(m *stmtModel) *addRun {
	f := m.add
	rr := r.run(f, nil)
	e := rr.e
	q, pos := rr.args[0], rr.args[m.pPos]
	expr := rr.args[m.pExpr]
	st0 := newState()
	chunks0 := m.get(e, st0, q, m.chunks)
	a := &addRun{runRes: rr, m: m, q: q, st0: st0, chunks0: chunks0, args0: m.get(e, st0, q, m.args), len0: m.bufLen(e, st0, q)}
	one := e.ts.intTerm(1)
	nChunks := e.lenOf(chunks0)
	key := "place:" + shortFn(f)

	// the loop
	var sl *scanLoop
	loopOf := func(x *Exit) *scanLoop {
		for _, ev := range x.St.events() {
			if ev.Kind != "loop" {
				continue
			}
			s := &scanLoop{rec: ev.Loop}
			slots := ev.Loop.sorted()
			for _, c := range slots {
				if c.Phi == nil || c.Entry == nil || !isInteger(c.Phi.Type()) || len(c.Backs) == 0 || s.i != nil {
					continue
				}
				if d := e.ts.sub(c.Entry, nChunks, tInt); d.isConst() {
					all := true
					for _, b := range c.Backs {
						if b != e.ts.add(c.Sym, e.ts.intTerm(-1), tInt) {
							all = false
						}
					}
					if all {
						s.i = c
						s.at = e.ts.sub(e.ts.sub(c.Sym, d, tInt), one, tInt)
					}
				}
			}
			if s.i == nil {
				continue
			}
			for _, c := range slots {
				if c.Phi == nil || c == s.i || !isInteger(c.Phi.Type()) || len(c.Backs) == 0 || c.Entry == nil {
					continue
				}
				own := m.chunkAt(e, st0, chunks0, s.at, m.cargs)
				up, down := c.Entry.isInt(0), true
				for _, b := range c.Backs {
					up = up && b == e.ts.add(c.Sym, own, tInt)
					down = down && b == e.ts.sub(c.Sym, own, tInt)
				}
				if up {
					s.tail = c.Sym
				} else if down {
					s.tail = e.ts.sub(c.Entry, c.Sym, tInt)
				}
				if s.tail != nil {
					break
				}
			}
			return s
		}
		return nil
	}
	for _, x := range rr.returns() {
		s := loopOf(x)
		if s == nil {
			r.check(false, key, f.Pos(), "%s does not look at the chunks one by one, from the last one", shortFn(f))
			return nil
		}
		if sl == nil {
			sl = s
			for _, b := range s.rec.Backs {
				r.check(e.less(b, pos, m.chunkAt(e, st0, chunks0, s.at, m.cpos)), key, f.Pos(), "%s passes over a chunk that is not of a later clause", shortFn(f))
			}
		}
		// facts of the exit
		cp := m.chunkAt(e, st0, chunks0, s.at, m.cpos)
		d := e.bounds(x.St, e.ts.sub(pos, cp, tInt))
		ib := e.bounds(x.St, s.at)
		ax := &addExit{Exit: x, s: s}
		ax.none = ib.hi != nil && ib.hi.Sign() < 0 // no chunk of an earlier or the same clause
		ax.same = !ax.none && d.lo != nil && d.hi != nil && d.lo.Sign() == 0 && d.hi.Sign() == 0
		ax.less = !ax.none && e.less(x.St, cp, pos)
		if !r.check(ax.none || ax.same || ax.less, key, x.Pos, "%s stops at a chunk without knowing that it belongs to the same or an earlier clause", shortFn(f)) {
			return nil
		}
		// constant distances of loop values to i
		ax.norm = func(t *Term) *Term {
			for _, c := range s.rec.sorted() {
				if c.Phi != nil && c != s.i && t.any(func(y *Term) bool { return y == c.Sym }) {
					if dd, ok := constDiff(e, s.rec, c, s.i); ok {
						t = substTerm(e, t, c.Sym, e.ts.add(s.i.Sym, dd, tInt))
					}
				}
			}
			return t
		}
		if ax.none {
			off := e.bounds(x.St, e.ts.sub(e.ts.sub(s.i.Sym, s.at, tInt), one, tInt)).lo
			e.addIv(x.St, s.i.Sym, interval{off, off})
		}
		for _, c := range s.rec.sorted() {
			if c.Phi != nil && c != s.i {
				if dd, ok := constDiff(e, s.rec, c, s.i); ok {
					dv, _ := dd.constInt()
					e.addIv(x.St, e.ts.sub(c.Sym, s.i.Sym, tInt), interval{dv, dv})
					if ax.none {
						v := e.bounds(x.St, e.ts.add(s.i.Sym, dd, tInt)).lo
						e.addIv(x.St, c.Sym, interval{v, v})
					}
				}
			}
		}
		if s.tail != nil {
			// a chunk counted its arguments once: the place of the arguments is a valid index
			e.addIv(x.St, s.tail, interval{bi(0), nil})
			e.addIv(x.St, e.ts.sub(e.lenOf(a.args0), s.tail, tInt), interval{bi(0), nil})
		}
		emptyExpr, ek := e.isZeroTerm(x.St, expr, basic(types.String))
		ax.reset = ax.same && ek && emptyExpr
		a.paths = append(a.paths, ax)
	}
	return a
}

// sorted slots, for a result that does not depend on the order of a map
func (rec *LoopRec) sorted() []*Recur {
	var ks []string
	for k := range rec.Slots {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []*Recur
	for _, k := range ks {
		r = append(r, rec.Slots[k])
	}
	return r
}

func runA02(r *Report) {
	r.rule("the place of a new part is behind all parts of its own and earlier clauses, and before those of later clauses; its arguments go to the same place among the arguments: before exactly the arguments of later clauses")
	r.rule("arguments are inserted in one piece, in the given order, and no other argument is lost, moved or repeated; setting a value of a clause without expressions again replaces exactly its own arguments")
	r.rule("each part knows its own text and the number of its own arguments; nothing else writes the arguments of a statement")
	m := r.stmt()
	if m == nil {
		return
	}
	a := r.addRun(m)
	if a == nil {
		return
	}
	f, e, q, st0, chunks0, args0, len0 := m.add, a.e, a.q, a.st0, a.chunks0, a.args0, a.len0
	pos, args, expr := a.args[m.pPos], a.args[m.pArgs], a.args[m.pExpr]
	one, zero := e.ts.intTerm(1), e.ts.intTerm(0)
	nChunks := e.lenOf(chunks0)
	seen := map[string]int{}
	for _, x := range a.paths {
		s, none, same, reset := x.s, x.none, x.same, x.reset
		emptyExpr, ek := e.isZeroTerm(x.St, expr, basic(types.String))
		hasArgs := e.bounds(x.St, e.lenOf(args))
		noArgs := hasArgs.hi != nil && hasArgs.hi.Sign() <= 0
		argsF := m.get(e, x.St, q, m.args)
		chunksF := m.get(e, x.St, q, m.chunks)
		wr := bufWrites(x.St.events())

		sq := e.newSeqs(x.St)
		sq.replay(x.St.events())
		tail := zero
		if s.tail != nil {
			tail = s.tail
		}
		L := e.lenOf(args0)
		// the arguments
		akey := "args:" + shortFn(f)
		base := argsF
		for base.op == "slice" || base.op == "append" {
			base = base.args[0]
		}
		r.check(base != args, akey, x.Pos, "the list of arguments of the statement is the list of the caller")
		switch {
		case noArgs:
			r.check(argsF == args0 && sq.same(sq.of(argsF), seq{{base: args0, lo: zero, hi: L}}), akey, x.Pos, "%s changes the arguments although none are given", shortFn(f))
		case s.tail == nil:
			r.check(false, akey, f.Pos(), "%s does not count the arguments of the chunks of later clauses", shortFn(f))
		case reset:
			own := m.chunkAt(e, st0, chunks0, s.at, m.cargs)
			at := e.ts.sub(e.ts.sub(L, tail, tInt), own, tInt)
			// as many as the chunk has
			ok := false
			for _, ev := range x.St.events() {
				if ev.Kind == "copy" && ev.Args[1] == args {
					pl, off := sq.place(ev.Args[0])
					ok = pl == args0 && off == at
				}
			}
			r.check(ok && argsF == args0, akey, x.Pos, "%s does not replace exactly the arguments of the clause that is set again", shortFn(f))
			seen["reset"]++
		default:
			at := e.ts.sub(L, tail, tInt)
			want := seq{{base: args0, lo: zero, hi: at}, {base: args, lo: zero, hi: e.lenOf(args)}, {base: args0, lo: at, hi: L}}
			got := sq.of(argsF)
			r.check(sq.same(got, want), akey, x.Pos, "%s makes the arguments %s, not %s", shortFn(f), sq.norm(got), sq.norm(want))
			seen["insert"]++
		}
		// the chunks
		ckey := "chunks:" + shortFn(f)
		bufF := m.bufLen(e, x.St, q)
		if reset {
			r.check(len(wr) == 0 && chunksF == chunks0, ckey, x.Pos, "%s changes the text of a clause that is set again", shortFn(f))
		}
		isNew := false
		if reset {
			// nothing else
		} else if chunksF == chunks0 && len(sq.norm(sq.of(chunksF))) == 1 {
			// extended
			seen["extend"]++
			hi0 := m.chunkAt(e, st0, chunks0, s.at, m.chi)
			r.check(same && sq.eq(hi0, len0), ckey, x.Pos, "%s extends a chunk whose text does not end where the new text begins", shortFn(f))
			r.check(m.chunkAt(e, x.St, chunks0, s.at, m.chi) == bufF, ckey, x.Pos, "the extended chunk does not end where its text ends")
			na := m.chunkAt(e, x.St, chunks0, s.at, m.cargs)
			r.check(sq.eq(na, e.ts.add(m.chunkAt(e, st0, chunks0, s.at, m.cargs), e.lenOf(args), tInt)), ckey, x.Pos, "the extended chunk counts %s arguments", na)
			for _, k := range []int{m.cpos, m.clo} {
				r.check(m.chunkAt(e, x.St, chunks0, s.i.Sym, k) == m.chunkAt(e, st0, chunks0, s.i.Sym, k), ckey, x.Pos, "the extended chunk is moved")
			}
			hb, hk := e.evalBool(x.St, m.chunkAt(e, x.St, chunks0, s.at, m.cexpr))
			r.check(hk && hb, ckey, x.Pos, "the extended chunk is not marked to have an expression")
		} else {
			seen["new"]++
			isNew = true
			at := e.ts.add(s.at, one, tInt)
			if none {
				at = zero
			}
			got := sq.norm(sq.of(chunksF))
			var el *Term
			n := 0
			for _, p := range got {
				if p.elem != nil {
					el = p.elem
					n++
				}
			}
			if !r.check(n == 1 && el.op == "struct", ckey, x.Pos, "%s makes the chunks %s", shortFn(f), got) {
				continue
			}
			want := seq{{base: chunks0, lo: zero, hi: at}, {elem: el}, {base: chunks0, lo: at, hi: nChunks}}
			r.check(sq.same(got, want), ckey, x.Pos, "%s makes the chunks %s, not %s", shortFn(f), got, sq.norm(want))
			r.check(el.args[m.cpos] == pos, ckey, x.Pos, "the new chunk does not have the position of its clause")
			r.check(el.args[m.cargs] == e.lenOf(args) || sq.eq(el.args[m.cargs], e.lenOf(args)), ckey, x.Pos, "the new chunk counts %s arguments", el.args[m.cargs])
			r.check(el.args[m.clo] == len0 && el.args[m.chi] == bufF, ckey, x.Pos, "the text of the new chunk is [%s:%s]", el.args[m.clo], el.args[m.chi])
			he := el.args[m.cexpr]
			hv, hk := e.evalBool(x.St, he)
			r.check(he == e.not(e.eqTerm(expr, e.ts.strTerm(""), basic(types.String))) || hk && ek && hv == !emptyExpr, ckey, x.Pos, "the new chunk is wrongly marked to have an expression")
		}
		if len(x.Results) == 1 {
			want := s.at
			if isNew {
				want = e.ts.add(s.at, one, tInt)
			}
			if none {
				want = zero
			}
			r.check(sq.eq(x.norm(x.Results[0]), want), "index:"+shortFn(f), x.Pos, "%s returns another chunk than the one it added to", shortFn(f))
		}
	}
	r.onlyAdds(m)
	r.atLeast(seen["insert"], 1, "paths that insert arguments")
	r.atLeast(seen["extend"], 1, "paths that extend a chunk")
	r.atLeast(seen["new"], 1, "paths that add a chunk")
}

// onlyAdds: the methods of the builder change the parts and arguments by the adding function only.
func (r *Report) onlyAdds(m *stmtModel) {
	n := 0
	for _, tn := range []string{"Stmt", "newRow"} {
		T := r.p.Named(xsqlPkg, tn)
		if T == nil {
			continue
		}
		for _, f := range r.p.funcs {
			sig := f.Signature
			if sig.Recv() == nil || namedOf(sig.Recv().Type()) != T || f.Parent() != nil || f.Synthetic != "" || !f.Object().Exported() || sig.Results().Len() != 1 {
				continue
			}
			res := namedOf(sig.Results().At(0).Type())
			if res == nil || res.Obj().Name() != "Builder" && res.Obj().Name() != "Row" || f.Name() == "Clone" {
				continue
			}
			n++
			rr := r.stmtRun(m, f, nil)
			e := rr.e
			q := rr.args[0]
			if T != m.T {
				q = nil
				for i, s := 0, T.Underlying().(*types.Struct); i < s.NumFields(); i++ {
					if namedOf(s.Field(i).Type()) == m.T {
						q = e.fieldOf(rr.args[0], typeKey(T)+"."+s.Field(i).Name(), s.Field(i).Type())
					}
				}
				if q == nil {
					continue
				}
			}
			key := "only adds:" + shortFn(f)
			for _, x := range rr.returns() {
				st0 := newState()
				want := [2]*Term{m.get(e, st0, q, m.chunks), m.get(e, st0, q, m.args)}
				lists := map[*Term]bool{want[0]: true, want[1]: true}
				for _, ev := range addsOf(x.St.events()) {
					if ev.Args[0] == q {
						want = m.after[ev]
						lists[want[0]], lists[want[1]] = true, true
					}
				}
				loops := false
				for _, ev := range x.St.events() {
					loops = loops || ev.Kind == "loop" && len(addsIn(ev.Loop)) > 0
				}
				if !loops { // parts added in a loop are opaque behind it
					r.check(m.get(e, x.St, q, m.chunks) == want[0] && m.get(e, x.St, q, m.args) == want[1], key, x.Pos, "%s changes the parts or arguments of the statement itself", shortFn(f))
				}
				for _, ev := range allEvents(x.St.events()) {
					switch ev.Kind {
					case "store":
						a := ev.Args[0]
						fld := ""
						if a.op == "field" {
							fld = fieldName(a.aux)
							a = a.args[0]
						}
						if a.op == "index" && lists[a.args[0]] && fld != m.C.Underlying().(*types.Struct).Field(m.chi).Name() {
							r.check(false, key, ev.Instr.Pos(), "%s writes an element of the parts or arguments", shortFn(f))
						}
					case "copy":
						a := ev.Args[0]
						for a.op == "slice" {
							a = a.args[0]
						}
						r.check(!lists[a], key, ev.Instr.Pos(), "%s copies into the parts or arguments", shortFn(f))
					}
				}
			}
		}
	}
	r.atLeast(n, 25, "methods of the builder")
}

// allEvents includes the events of iterations of loops.
func allEvents(evs []*Event) []*Event {
	var r []*Event
	for _, ev := range evs {
		r = append(r, ev)
		if ev.Kind == "loop" {
			for _, it := range ev.Loop.Iters {
				r = append(r, allEvents(it)...)
			}
		}
	}
	return r
}

func addsIn(rec *LoopRec) []*Event {
	var r []*Event
	for _, it := range rec.Iters {
		r = append(r, addsOf(allEvents(it))...)
	}
	return r
}
