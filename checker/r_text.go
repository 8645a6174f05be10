package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["A01"] = propRule{run: runA01, title: "A statement never returns the text of another or of a former state"}
	rules["A04"] = propRule{run: runA04, title: "Statements from the pool are blank and not shared"}
	rules["A05"] = propRule{run: runA05, title: "A clone is equal to and independent of the original"}
	rules["A06"] = propRule{run: runA06, title: "Placeholders are numbered in the order of the arguments"}
	rules["A07"] = propRule{run: runA07, title: "Executing sends the text and arguments of the statement, and closes it once"}
}

// reachable functions of the repository by static calls.
func (p *Program) staticReach(fs ...*ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var r []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !p.isRepoFn(f) {
			return
		}
		seen[f] = true
		r = append(r, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					if cc.IsInvoke() {
						if d := p.soleImpl(cc.Value.Type()); d != nil {
							if m := p.prog.LookupMethod(d, cc.Method.Pkg(), cc.Method.Name()); m != nil {
								visit(m)
							}
						}
						continue
					}
					visit(cc.StaticCallee())
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					if g, ok := mc.Fn.(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
	}
	for _, f := range fs {
		visit(f)
	}
	return r
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isBasicKind(s.Elem(), types.Uint8)
}

func isBasicKind(t types.Type, k types.BasicKind) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == k
}

func isWriterType(t types.Type) bool {
	s := t.String()
	return s == "*strings.Builder" || s == "io.Writer" || s == "*bytes.Buffer" || strings.HasSuffix(s, "bytebufferpool.ByteBuffer")
}

// numberer is the function that writes a text with numbered placeholders: (number, text, writer) -> next number.
type numberer struct {
	fn           *ssa.Function
	no, text, w  int // parameters
	result       int
	hasRecv, pos bool
}

func (r *Report) numberer(str *ssa.Function) *numberer {
	for _, f := range r.p.staticReach(str) {
		n := &numberer{fn: f, no: -1, text: -1, w: -1, result: -1}
		for i, pr := range f.Params {
			switch t := pr.Type(); {
			case isWriterType(t):
				n.w = i
			case isByteSlice(t) || isString(t):
				n.text = i
			case isInteger(t):
				n.no = i
			}
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if isInteger(f.Signature.Results().At(i).Type()) {
				n.result = i
			}
		}
		if n.no >= 0 && n.text >= 0 && n.w >= 0 && n.result >= 0 {
			return n
		}
	}
	return nil
}

// charIs: the element of the text at the index is the character.
func charIs(e *Engine, st *State, text, idx *Term, c byte) (v, known bool) {
	var el *Term
	if isString(text.typ) {
		el = e.ts.mk("strindex", "", types.Typ[types.Uint8], text, idx)
	} else {
		et := text.typ.Underlying().(*types.Slice).Elem()
		el = e.load(st, e.ts.mk("index", "", types.NewPointer(et), text, idx), et)
	}
	return e.evalBool(st, e.eqTerm(el, e.ts.intTerm(int64(c)), types.Typ[types.Uint8]))
}

func runA06(r *Report) {
	r.rule("the text is made of the parts in order, with one blank between clauses; in PostgreSQL mode each part with arguments is written by the numbering function, which begins with the number the part before ended with, 1 at first; other parts and modes are written as they are")
	r.rule("the numbering function writes every ? as $ and the next number, an escaped \\? as ?, and everything else unchanged, and returns the next number")
	m := r.stmt()
	if m == nil {
		return
	}
	str := r.p.Method(xsqlPkg, "Stmt", "String")
	num := r.numberer(str)
	if num == nil {
		r.missing("the function that numbers placeholders")
		return
	}
	r.numbering(num)
	r.assembly(m, str, num)
}

func (r *Report) numbering(num *numberer) {
	f := num.fn
	rr := r.run(f, nil)
	e := rr.e
	key := "numbering:" + shortFn(f)
	s, w, n0 := rr.args[num.text], rr.args[num.w], rr.args[num.no]
	one, zero := e.ts.intTerm(1), e.ts.intTerm(0)
	add := func(t *Term, k int64) *Term { return e.ts.add(t, e.ts.intTerm(k), tInt) }
	exits := 0
	for _, x := range rr.returns() {
		// errors of the writer
		var rec *LoopRec
		for _, ev := range x.St.events() {
			if ev.Kind == "loop" {
				for _, sl := range ev.Loop.sorted() {
					if sl.Entry == n0 && sl.Phi != nil {
						rec = ev.Loop
					}
				}
			}
		}
		if rec == nil {
			r.check(e.le(x.St, e.lenOf(s), zero), key, x.Pos, "%s returns without looking at the text", shortFn(f))
			continue
		}
		failed := false
		errs := []*Term{}
		for _, ev := range allEvents(x.St.events()) {
			if ev.Kind == "call" && ev.Result != nil && len(ev.Args) > 0 && unIface(ev.Args[0]) == w {
				t := ev.Result
				if t.op == "tuple" && len(t.args) > 0 {
					t = t.args[len(t.args)-1]
				}
				errs = append(errs, t)
			}
		}
		for _, sl := range rec.sorted() {
			if sl.Phi != nil && types.Identical(sl.Phi.Type(), errorType) {
				errs = append(errs, sl.Sym)
			}
		}
		for _, t := range errs {
			if z, k := e.nilness(x.St, t); k && !z {
				failed = true
			}
		}
		if failed {
			continue
		}
		exits++
		idx := loopOver(e, x.St, rec, s)
		var N, S *Recur
		for _, sl := range rec.sorted() {
			if sl.Phi == nil || !isInteger(sl.Phi.Type()) || sl.Entry == nil {
				continue
			}
			if sl.Entry == n0 {
				N = sl
			}
		}
		// the position up to which the text is written
		why := ""
		for _, sl := range rec.sorted() {
			if sl.Phi == nil || !isInteger(sl.Phi.Type()) || sl.Entry == nil || !sl.Entry.isInt(0) || sl == N {
				continue
			}
			if w := r.numberIters(e, rec, s, w, sl, N, idx); w == "" {
				S = sl
				break
			} else if why == "" || !strings.HasPrefix(w, "?") {
				why = w
			}
		}
		if !r.check(S != nil, key, f.Pos(), "%s: %s", shortFn(f), why) {
			return
		}
		at := idx
		if at == nil {
			at = S.Sym
		}
		if r.check(e.le(x.St, e.lenOf(s), at) || e.le(x.St, e.lenOf(s), S.Sym), key, x.Pos, "%s stops before the end of the text", shortFn(f)) {
			on := false
			var after []*Event
			for _, ev := range x.St.events() {
				if on {
					after = append(after, ev)
				}
				on = on || ev.Kind == "loop" && ev.Loop == rec
			}
			ps, ok := pieces(e, after, w)
			rest := len(ps) == 1 && ps[0].t != nil && ps[0].t.op == "slice" && ps[0].t.args[0] == s && ps[0].t.args[1] == S.Sym && (ps[0].t.args[2].op == "nil" || ps[0].t.args[2] == e.lenOf(s))
			none := len(ps) == 0 && e.le(x.St, e.lenOf(s), S.Sym)
			r.check(ok && (rest || none), key, x.Pos, "%s does not write the rest of the text", shortFn(f))
		}
		r.check(num.result < len(x.Results) && x.Results[num.result] == N.Sym, key, x.Pos, "%s does not return the next number", shortFn(f))
	}
	_ = one
	_ = add
	r.check(exits > 0, key, f.Pos(), "%s has no path to its end", shortFn(f))
}

// le: a <= b is known
func (e *Engine) le(st *State, a, b *Term) bool {
	d := e.bounds(st, e.ts.sub(a, b, tInt))
	return d.hi != nil && d.hi.Sign() <= 0
}

// numberIters checks the iterations, S being the position up to which the text is written; it returns what is wrong.
func (r *Report) numberIters(e *Engine, rec *LoopRec, s, w *Term, S, N *Recur, idx *Term) string {
	add := func(t *Term, k int64) *Term { return e.ts.add(t, e.ts.intTerm(k), tInt) }
	for i, it := range rec.Iters {
		st := rec.Backs[i]
		ps, ok := pieces(e, it, w)
		if !ok {
			return "the text that is written is not known"
		}
		s1, n1 := S.Backs[i], N.Backs[i]
		at := idx
		if at == nil {
			at = S.Sym
		}
		q, qk := charIs(e, st, s, at, '?')
		bs, bk := charIs(e, st, s, at, '\\')
		nx, nk := charIs(e, st, s, add(at, 1), '?')
		isQ := qk && q
		isE := bk && bs && nk && nx
		noE := bk && !bs || nk && !nx || e.le(st, e.lenOf(s), add(at, 1))
		notQ := qk && !q || bk && bs
		if len(ps) == 0 {
			if s1 != S.Sym || n1 != N.Sym {
				return "? part of the text is not written"
			}
			if idx == nil {
				return "? a character is not written"
			}
			passed := e.less(st, idx, S.Sym)
			if !passed && !(notQ && noE) {
				return "a placeholder is passed over"
			}
			continue
		}
		// the text before
		lead := ps[0].t != nil && ps[0].t.op == "slice" && ps[0].t.args[0] == s
		if lead {
			if ps[0].t.args[1] != S.Sym || ps[0].t.args[2] != at {
				return "the text before a placeholder is not written once"
			}
			ps = ps[1:]
		} else if at != S.Sym {
			return "? the text before a placeholder is not written"
		}
		if !e.le(st, S.Sym, at) {
			return "a character is written twice"
		}
		dollar := len(ps) == 2 && ps[0].t == nil && ps[0].loop == nil && ps[0].lit == "$" && ps[1].t == N.Sym && ps[1].verb == "d"
		mark := len(ps) == 1 && ps[0].t == nil && ps[0].loop == nil && ps[0].lit == "?"
		switch {
		case dollar:
			if !isQ {
				return "a number is written for something else than a placeholder"
			}
			if s1 != add(at, 1) {
				return "the text goes on at the wrong place behind a placeholder"
			}
			if n1 != add(N.Sym, 1) {
				return "the number does not go up by one behind a placeholder"
			}
		case mark && isE:
			if s1 != add(at, 2) || n1 != N.Sym {
				return "the text goes on at the wrong place behind an escaped placeholder"
			}
		case len(ps) == 1 && at == S.Sym && (ps[0].verb == "c" || ps[0].verb == "s"):
			// one character
			if !(notQ && noE) {
				return "a placeholder is written as it is"
			}
			t := ps[0].t
			if t.op == "str" || t.op == "bytes" || t.op == "runestr" || t.op == "conv" {
				t = t.args[0]
			}
			one := t.op == "ld" && t.args[0].op == "index" && t.args[0].args[0] == s && t.args[0].args[1] == at ||
				t.op == "strindex" && t.args[0] == s && t.args[1] == at ||
				t.op == "slice" && t.args[0] == s && t.args[1] == at && t.args[2] == add(at, 1)
			if !one || s1 != add(at, 1) || n1 != N.Sym {
				return "a character is not written as it is"
			}
		default:
			return "something else than the number of a placeholder is written"
		}
	}
	return ""
}

// stringRun interprets String with the numbering function as an event.
func (r *Report) stringRun(m *stmtModel, str *ssa.Function, num *numberer) *runRes {
	e := newEngine(r.p)
	e.FieldMaps = true
	e.OnCall = func(e *Engine, st *State, c *Call) *Outcome {
		if num == nil || c.Fn != num.fn {
			return nil
		}
		res := e.freshResult(st, c)
		ev := &Event{Kind: "number", Instr: c.Instr, Ctx: c.Ctx, Callee: c.Name, Fn: c.Fn, Args: c.Args, Result: res}
		st.event(ev)
		e.applyKill(st, &kill{kind: "objs", id: c.Site, objs: map[*Term]bool{root(c.Args[num.w]): true}})
		if res.op == "tuple" {
			return &Outcome{States: []*State{st}, Results: []*Term{res}}
		}
		return &Outcome{States: []*State{st}, Results: []*Term{res}}
	}
	st := newState()
	args := e.Params(str)
	rr := &runRes{e: e, fn: str, args: args}
	rr.exits = e.Run(str, st, args)
	r.done(e, rr.exits)
	return rr
}

// providerOf is the name of the mode of the dialect.
func (r *Report) providerOf(e *Engine, st *State, d *Term) *Term {
	T := r.p.Named(xsqlPkg, "Dialect")
	i := r.p.returnedField(r.p.Method(xsqlPkg, "Dialect", "Provider"))
	if T == nil || i < 0 {
		return nil
	}
	if d.op != "iface" {
		d = e.unbox(d, types.NewPointer(T))
	} else {
		d = d.args[0]
	}
	return e.load(st, e.fieldAddr(d, T, i), T.Underlying().(*types.Struct).Field(i).Type())
}

func trimmed(t *Term) *Term {
	if t.op == "pure" && t.aux == "strings.TrimSpace" {
		return t.args[0]
	}
	if t.op == "pure" && t.aux == "strings.Trim" {
		s, k := t.args[1].constStr()
		if k && strings.TrimSpace(s) == "" && strings.Contains(s, " ") && strings.Contains(s, "\n") {
			return t.args[0]
		}
	}
	return nil
}

func (r *Report) assembly(m *stmtModel, str *ssa.Function, num *numberer) {
	rr := r.stringRun(m, str, num)
	e := rr.e
	q := rr.args[0]
	key := "text:" + shortFn(str)
	built := 0
	seen := map[*LoopRec]bool{}
	for _, x := range rr.returns() {
		if len(x.Results) != 1 {
			continue
		}
		t := trimmed(x.Results[0])
		if t == nil {
			continue
		}
		var w *Term
		var upto []*Event
		if b := bufferText(t); b != nil {
			w, upto = b, x.St.events()
		} else {
			for _, n := range []string{"strings.(Builder).String", "bytes.(Buffer).String"} {
				for _, ev := range callsNamed(x.St, n) {
					if ev.Result == t {
						w, upto = ev.Args[0], eventsBefore(x.St.events(), ev)
					}
				}
			}
		}
		if !r.check(w != nil, key, x.Pos, "%s returns a text of unknown origin", shortFn(str)) {
			continue
		}
		built++
		var rec *LoopRec
		var loops []*Event
		var rest []*Event
		for _, ev := range upto {
			if ev.Kind == "loop" {
				writes := false
				for _, it := range ev.Loop.Iters {
					ps, _ := pieces(e, it, w)
					writes = writes || len(ps) > 0
					for _, ne := range it {
						writes = writes || ne.Kind == "number"
					}
				}
				if writes {
					rec = ev.Loop
					loops = append(loops, ev)
				}
				continue
			}
			rest = append(rest, ev)
		}
		ps, ok := pieces(e, rest, w)
		chunks := m.get(e, newState(), q, m.chunks)
		if !r.check(ok && len(ps) == 0 && len(loops) <= 1, key, x.Pos, "%s writes something else than the parts", shortFn(str)) {
			continue
		}
		if rec == nil {
			r.check(e.le(x.St, e.lenOf(chunks), e.ts.intTerm(0)), key, x.Pos, "%s does not write the parts", shortFn(str))
			continue
		}
		idx := loopOver(e, x.St, rec, chunks)
		if !r.check(idx != nil, key, x.Pos, "%s does not write all parts", shortFn(str)) {
			continue
		}
		if seen[rec] {
			continue
		}
		seen[rec] = true
		// the number that is carried along
		var N *Recur
		for _, sl := range rec.sorted() {
			if sl.Phi == nil || sl.Entry == nil || !isInteger(sl.Phi.Type()) {
				continue
			}
			for _, it := range rec.Iters {
				for _, ev := range it {
					if ev.Kind == "number" && ev.Args[num.no] == sl.Sym {
						N = sl
					}
				}
			}
		}
		if !r.check(N != nil && N.Entry.isInt(1), key, str.Pos(), "%s does not begin with the number 1 or does not carry the number on", shortFn(str)) {
			continue
		}
		d := m.get(e, newState(), q, m.dialect)
		for i, it := range rec.Iters {
			st := rec.Backs[i]
			fld := func(k int) *Term { return m.chunkAt(e, st, chunks, idx, k) }
			text := func(t *Term) bool {
				if t == nil {
					return false
				}
				for t.op == "bytes" || t.op == "str" {
					t = t.args[0]
				}
				return t.op == "slice" && bufferText(t.args[0]) == m.get(e, newState(), q, m.buf) && t.args[1] == fld(m.clo) && t.args[2] == fld(m.chi)
			}
			// what is written
			var nev *Event
			var before, after []*Event
			for _, ev := range it {
				if ev.Kind == "number" {
					r.check(nev == nil, key, ev.Instr.Pos(), "a part is written twice")
					nev = ev
					continue
				}
				if nev == nil {
					before = append(before, ev)
				} else {
					after = append(after, ev)
				}
			}
			ps, ok := pieces(e, before, w)
			pa, ok2 := pieces(e, after, w)
			if !r.check(ok && ok2 && len(pa) == 0, key, str.Pos(), "something is written behind a part") {
				continue
			}
			lead := ""
			if nev == nil {
				if !r.check(len(ps) > 0 && text(ps[len(ps)-1].t), key, str.Pos(), "the text of a part is not written") {
					continue
				}
				ps = ps[:len(ps)-1]
			} else {
				r.check(text(nev.Args[num.text]) && unIface(nev.Args[num.w]) == w, key, nev.Instr.Pos(), "the text of a part is not the one that is numbered")
			}
			lead = r.render(e, st, nil, ps)
			// a blank between clauses
			cp := fld(m.cpos)
			var prevs []*Term
			for _, sl := range rec.sorted() {
				if sl.Phi != nil && len(sl.Backs) > i && types.Identical(sl.Phi.Type(), m.posT) {
					all := true
					for k, b := range sl.Backs {
						all = all && b == m.chunkAt(e, rec.Backs[k], chunks, idx, m.cpos)
					}
					if all {
						prevs = append(prevs, sl.Sym)
					}
				}
			}
			prevs = append(prevs, m.chunkAt(e, st, chunks, e.ts.sub(idx, e.ts.intTerm(1), tInt), m.cpos))
			first := e.le(st, idx, e.ts.intTerm(0))
			switch lead {
			case " ":
				ok := false
				for _, p := range prevs {
					ok = ok || e.less(st, p, cp)
				}
				r.check(ok || first, key, str.Pos(), "a blank is written between parts of a clause")
			case "":
				ok := first
				for _, p := range prevs {
					ok = ok || e.le(st, cp, p)
				}
				r.check(ok, key, str.Pos(), "no blank is written between clauses")
			default:
				r.check(false, key, str.Pos(), "%q is written before a part", lead)
			}
			// numbering
			pg, pk := false, false
			if pv := r.providerOf(e, st, d); pv != nil {
				pg, pk = e.evalBool(st, e.eqTerm(pv, e.ts.strTerm("postgres"), pv.typ))
			}
			nargs := e.bounds(st, fld(m.cargs))
			has := nargs.lo != nil && nargs.lo.Sign() > 0
			if z, k := e.evalBool(st, e.eqTerm(fld(m.cargs), e.ts.intTerm(0), tInt)); k && !z { // a number of arguments is not negative
				has = true
			}
			hasNo := nargs.hi != nil && nargs.hi.Sign() <= 0
			if nev != nil {
				r.check(pk && pg, key, nev.Instr.Pos(), "placeholders are numbered in another mode than postgres")
				r.check(has, key, nev.Instr.Pos(), "placeholders are numbered in a part without arguments")
				res := nev.Result
				if res.op == "tuple" {
					res = res.args[num.result]
				}
				r.check(nev.Args[num.no] == N.Sym && N.Backs[i] == res, key, nev.Instr.Pos(), "the number is not carried on")
			} else {
				r.check(pk && !pg || hasNo, key, str.Pos(), "placeholders are not numbered in postgres mode")
				r.check(N.Backs[i] == N.Sym, key, str.Pos(), "the number changes at a part without placeholders")
			}
		}
	}
	r.check(built > 0, key, str.Pos(), "%s builds no text", shortFn(str))
	// the mode of the postgres dialect
	if g, ok := r.p.byPath[pkgPath(xsqlPkg)].Members["Postgres"].(*ssa.Global); ok {
		r.check(r.globalProvider(g) == "postgres", "mode of Postgres", g.Pos(), "the name of the dialect Postgres is not that which is numbered")
		for n, mb := range r.p.byPath[pkgPath(xsqlPkg)].Members {
			if o, ok := mb.(*ssa.Global); ok && o != g && o.Object() != nil && o.Object().Exported() && types.Identical(o.Type(), g.Type()) {
				s := r.globalProvider(o)
				r.check(s != "postgres" && s != "?", "mode of "+n, o.Pos(), "the dialect %s numbers placeholders", n)
			}
		}
	} else {
		r.missing("xsql.Postgres")
	}
}

// globalProvider: the constant text given to the function that makes the dialect of the variable.
func (r *Report) globalProvider(g *ssa.Global) string {
	v := r.p.initOf(g)
	for {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
			continue
		}
		break
	}
	if c, ok := v.(*ssa.Call); ok {
		for _, a := range c.Call.Args {
			if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
				return constant.StringVal(k.Value)
			}
		}
	}
	if a, ok := v.(*ssa.Alloc); ok {
		for _, ref := range *a.Referrers() {
			if fa, ok := ref.(*ssa.FieldAddr); ok && fa.Field == r.p.returnedField(r.p.Method(xsqlPkg, "Dialect", "Provider")) {
				for _, r2 := range *fa.Referrers() {
					if s, ok := r2.(*ssa.Store); ok {
						if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
							return constant.StringVal(k.Value)
						}
					}
				}
			}
		}
	}
	return "?"
}

// ---- the remembered text

func runA01(r *Report) {
	r.rule("whenever the parts or the dialect of a statement change, it keeps no remembered text")
	r.rule("a remembered or cached text is returned unchanged, and a built one is kept under the same key it was looked for, in the cache of the dialect of the statement")
	r.rule("the key is the name of the statement, or without one it is made of the text and of everything of the layout of the parts that the building of the text reads")
	m := r.stmt()
	if m == nil {
		return
	}
	str := r.p.Method(xsqlPkg, "Stmt", "String")
	num := r.numberer(str)
	empty := func(e *Engine, st *State, t *Term) bool {
		z, k := e.isZeroTerm(st, t, types.Typ[types.String])
		return k && z
	}
	// changes
	a := r.addRun(m)
	if a != nil {
		key := "change:" + shortFn(m.add)
		for _, x := range a.paths {
			if !x.reset {
				r.check(empty(a.e, x.St, m.get(a.e, x.St, a.q, m.sql)), key, x.Pos, "the statement keeps the text it had before a part was added")
			}
		}
	}
	// String
	rr := r.stringRun(m, str, num)
	e := rr.e
	q := rr.args[0]
	key := "String:" + shortFn(str)
	st0 := newState()
	memo, name := m.get(e, st0, q, m.sql), m.get(e, st0, q, m.name)
	DT := r.p.Named(xsqlPkg, "Dialect")
	own := e.unbox(m.get(e, st0, q, m.dialect), types.NewPointer(DT))
	kinds := map[string]int{}
	for _, x := range rr.returns() {
		if len(x.Results) != 1 {
			continue
		}
		res := x.Results[0]
		sql := m.get(e, x.St, q, m.sql)
		loads, stores := callsNamed(x.St, "sync.(Map).Load"), append(callsNamed(x.St, "sync.(Map).Store"), callsNamed(x.St, "sync.(Map).LoadOrStore")...)
		if res == memo && len(loads) == 0 && len(stores) == 0 {
			kinds["memo"]++
			r.check(!empty(e, x.St, memo), key, x.Pos, "an empty text is returned")
			z, k := e.isZeroTerm(x.St, memo, types.Typ[types.String])
			r.check(k && !z, key, x.Pos, "the remembered text is returned without knowing that there is one")
			r.check(sql == memo, key, x.Pos, "the remembered text is changed")
			continue
		}
		r.check(empty(e, x.St, memo), key, x.Pos, "a text is built although one is remembered, or the other way round")
		r.check(sql == res, key, x.Pos, "the text is not the one that is remembered")
		if !r.check(len(loads) > 0 || len(stores) == 0, key, x.Pos, "a text is stored in the cache that was not looked for") || len(loads) == 0 {
			continue
		}
		ld := loads[len(loads)-1]
		inOwn := func(ev *Event) bool {
			a := ev.Args[0]
			return a.op == "field" && a.args[0] == own
		}
		k := unIface(ld.Args[1])
		for _, ev := range append(append([]*Event{}, loads...), stores...) {
			r.check(inOwn(ev), key, ev.Instr.Pos(), "the cache of another dialect is used")
			r.check(unIface(ev.Args[1]) == k, key, ev.Instr.Pos(), "the text is kept under another key than it is looked for")
		}
		hit := false
		for _, ev := range loads {
			if ev.Result != nil && ev.Result.op == "tuple" {
				ok, kn := e.evalBool(x.St, ev.Result.args[1])
				if r.check(kn, key, ev.Instr.Pos(), "the result of the cache is used without knowing if there is one") && ok {
					hit = true
					t := res
					if t.op == "unbox" {
						t = t.args[0]
					}
					r.check(t == ev.Result.args[0], key, x.Pos, "the text of the cache is not returned as it is")
				}
			}
		}
		for _, ev := range stores {
			r.check(unIface(ev.Args[2]) == res, key, ev.Instr.Pos(), "another text is cached than is returned")
		}
		if hit {
			kinds["hit"]++
		} else {
			kinds["built"]++
		}
		// the key
		if nz, nk := e.isZeroTerm(x.St, name, types.Typ[types.String]); nk && !nz {
			r.check(k == name || k.any(func(t *Term) bool { return t == name }), key, x.Pos, "the key of a statement with a name is not its name")
			kinds["named"]++
		} else if r.check(nk, key, x.Pos, "the key does not depend on the name") {
			kinds["unnamed"]++
			r.check(!k.isConst() || e.le(x.St, e.lenOf(m.get(e, st0, q, m.chunks)), e.ts.intTerm(0)) || empty(e, x.St, k), key, x.Pos, "the key of a statement without a name is constant")
		}
	}
	for _, k := range []string{"memo", "built", "unnamed"} {
		r.check(kinds[k] > 0, key, str.Pos(), "no path of String is %s", k)
	}
	r.keyReads(m, str)
	r.memoKept(m, str)
	// the API of the cache
	r.cacheAPI(m)
}

// memoKept: the methods of a statement leave no text of a former state behind, in it or in a statement given to it.
func (r *Report) memoKept(m *stmtModel, str *ssa.Function) {
	n := 0
	for _, f := range r.p.funcs {
		if f.Signature.Recv() == nil || namedOf(f.Signature.Recv().Type()) != m.T || f.Parent() != nil || f.Synthetic != "" || f.Object() == nil || !f.Object().Exported() || f == str {
			continue
		}
		switch f.Name() {
		case "Close", "Clone":
			continue
		}
		n++
		rr := r.stmtRun(m, f, executorHook)
		e := rr.e
		key := "memo:" + shortFn(f)
		r.check(true, key, f.Pos(), "")
		empty := func(st *State, t *Term) bool {
			z, k := e.isZeroTerm(st, t, types.Typ[types.String])
			return k && z
		}
		st0 := newState()
		var walk func(evs []*Event, end *State)
		walk = func(evs []*Event, end *State) {
			owner := map[*Term]*Event{}
			for _, ev := range evs {
				switch {
				case ev.Kind == "loop":
					for i, it := range ev.Loop.Iters {
						walk(it, ev.Loop.Backs[i])
					}
				case ev.Kind == "string":
					q := ev.Args[0]
					if d := ev.Vals[0]; d != m.get(e, st0, q, m.dialect) && (!isFresh(q) || q.aux == "sub") {
						r.check(empty(end, ev.Vals[1]), key, ev.Instr.Pos(), "the text of the statement is that of its former dialect")
					}
					owner[q] = ev
				case ev.Kind == "add":
					owner[ev.Args[0]] = ev
				case ev.Kind == "close":
					delete(owner, ev.Args[0])
				}
			}
			for q, ev := range owner {
				sql := m.get(e, end, q, m.sql)
				r.check(empty(end, sql) || ev.Kind == "string" && sql == ev.Result, key, ev.Instr.Pos(), "the statement keeps a text it had before it was changed")
			}
		}
		for _, x := range rr.returns() {
			walk(x.St.events(), x.St)
		}
	}
	r.atLeast(n, 25, "methods of a statement")
}

// adjacentNumbers: v is a text or buffer to which a number is written right behind another one.
func adjacentNumbers(v ssa.Value) bool {
	appended := func(v ssa.Value) ssa.Value {
		c, ok := v.(*ssa.Call)
		if !ok {
			return nil
		}
		if f := c.Common().StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "strconv" && (f.Name() == "AppendInt" || f.Name() == "AppendUint") {
			return c.Common().Args[0]
		}
		return nil
	}
	dst := appended(v)
	if dst == nil {
		if c, ok := v.(*ssa.Call); ok {
			if f := c.Common().StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "fmt" {
				for _, a := range c.Common().Args {
					if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						t := constant.StringVal(k.Value)
						return strings.Contains(t, "%d%d") || strings.Contains(t, "%v%v") || strings.Contains(t, "%d%v") || strings.Contains(t, "%v%d")
					}
				}
			}
		}
		return false
	}
	seen := map[ssa.Value]bool{}
	var number func(v ssa.Value) bool
	number = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		if appended(v) != nil {
			return true
		}
		if ph, ok := v.(*ssa.Phi); ok {
			for _, x := range ph.Edges {
				if number(x) {
					return true
				}
			}
		}
		return false
	}
	return number(dst)
}

// keyReads: the key of the cache is computed from all that the text is computed from.
func (r *Report) keyReads(m *stmtModel, str *ssa.Function) {
	p := r.p
	key := "key of a statement without a name"
	// fields of parts and statements that a value is computed from
	type fld struct {
		T *types.Named
		i int
	}
	lossy := func(v ssa.Value) string {
		switch x := v.(type) {
		case *ssa.BinOp:
			switch x.Op {
			case token.REM, token.QUO, token.SHR, token.AND, token.AND_NOT, token.OR:
				if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					return "a part of a number"
				}
			}
		case *ssa.Convert:
			a, ok := x.X.Type().Underlying().(*types.Basic)
			b, ok2 := x.Type().Underlying().(*types.Basic)
			if ok && ok2 && a.Info()&types.IsInteger != 0 && b.Info()&types.IsNumeric != 0 {
				sz := types.SizesFor("gc", "amd64")
				if _, c := x.X.(*ssa.Const); !c && (b.Info()&types.IsInteger == 0 || sz.Sizeof(b) < 4 && sz.Sizeof(b) < sz.Sizeof(a)) {
					return "a number in " + b.Name()
				}
			}
		case *ssa.Slice:
			if !isConstNum(x.Low, 0) || x.High != nil {
				if _, arr := x.X.(*ssa.Alloc); !arr {
					if h, ok := x.High.(*ssa.Const); ok && h.Value != nil && h.Value.ExactString() == "0" {
						return ""
					}
					return "a part of a text"
				}
			}
		}
		return ""
	}
	deps := func(root ssa.Value) map[fld]bool {
		out := map[fld]bool{}
		seen := map[ssa.Value]bool{}
		var val func(v ssa.Value)
		var mem func(a ssa.Value)
		mem = func(a ssa.Value) { // everything stored in the local variable
			if seen[a] {
				return
			}
			seen[a] = true
			refs := a.Referrers()
			if refs == nil {
				return
			}
			for _, in := range *refs {
				switch x := in.(type) {
				case *ssa.Store:
					if x.Addr == a {
						val(x.Val)
					}
				case *ssa.FieldAddr:
					if x.X == a {
						mem(x)
					}
				case *ssa.IndexAddr:
					if x.X == a {
						mem(x)
					}
				case *ssa.Slice:
					mem(x)
				case ssa.CallInstruction:
					for _, y := range x.Common().Args {
						if y != a {
							val(y)
						}
					}
				}
			}
		}
		val = func(v ssa.Value) {
			if v == nil || seen[v] {
				return
			}
			if what := lossy(v); what != "" {
				r.check(false, key+":whole", v.Pos(), "the key of the cache contains only %s", what)
			}
			if adjacentNumbers(v) {
				r.check(false, key+":distinct", v.Pos(), "two numbers of the key of the cache have nothing between them, so that other numbers give the same key")
			}
			switch x := v.(type) {
			case *ssa.UnOp:
				seen[v] = true
				if x.Op != token.MUL {
					val(x.X)
					return
				}
				switch a := x.X.(type) {
				case *ssa.FieldAddr:
					T := namedOf(a.X.Type())
					if T == m.C || T == m.T {
						out[fld{T, a.Field}] = true
						if T == m.T {
							return
						}
					}
					base := a.X
					if _, ok := base.(*ssa.Alloc); ok {
						return // a copy of a part: which part is in the order of the loop
					}
					val(base)
				case *ssa.IndexAddr:
					if namedOf(x.Type()) == m.C { // a whole part
						for i := 0; i < m.C.Underlying().(*types.Struct).NumFields(); i++ {
							out[fld{m.C, i}] = true
						}
					}
					val(a.X)
				case *ssa.Alloc:
					mem(a)
				default:
					val(a)
				}
				return
			case *ssa.Field:
				seen[v] = true
				if T := namedOf(x.X.Type()); T == m.C || T == m.T {
					out[fld{T, x.Field}] = true
				}
				return
			case *ssa.Alloc:
				mem(x)
				return
			case *ssa.Call:
				seen[v] = true
				for _, a := range x.Call.Args {
					val(a)
				}
				if f := x.Call.StaticCallee(); f != nil && p.isRepoFn(f) {
					for _, b := range f.Blocks {
						for _, in := range b.Instrs {
							if rt, ok := in.(*ssa.Return); ok {
								for _, y := range rt.Results {
									val(y)
								}
							}
						}
					}
				}
				return
			case *ssa.Parameter:
				return
			}
			seen[v] = true
			if in, ok := v.(ssa.Instruction); ok {
				for _, op := range in.Operands(nil) {
					if *op != nil {
						if _, ok := (*op).(*ssa.IndexAddr); ok {
							val((*op).(*ssa.IndexAddr).X)
							continue
						}
						val(*op)
					}
				}
			}
		}
		val(root)
		return out
	}
	// where the cache is asked
	var keys []ssa.Value
	lookup := map[*ssa.Function]int{} // functions that look up a parameter
	reach := p.staticReach(str)
	for changed := true; changed; {
		changed = false
		for _, f := range reach {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var arg ssa.Value
					c, ok := in.(*ssa.Call)
					if !ok {
						lk, isL := in.(*ssa.Lookup)
						if !isL || !fieldOfType(lk.X, p.Named(xsqlPkg, "Dialect")) {
							continue
						}
						arg = lk.Index
					} else if g := c.Call.StaticCallee(); g != nil && g.RelString(nil) == "(*sync.Map).Load" {
						arg = c.Call.Args[1]
					} else if g := p.calleeOf(&c.Call); g != nil {
						if i, ok := lookup[g]; ok {
							if c.Call.IsInvoke() {
								i--
							}
							arg = c.Call.Args[i]
						}
					}
					for {
						if mi, ok := arg.(*ssa.MakeInterface); ok {
							arg = mi.X
							continue
						}
						break
					}
					if pr, ok := arg.(*ssa.Parameter); ok {
						for i, x := range f.Params {
							if x == pr {
								if _, ok := lookup[f]; !ok {
									lookup[f] = i
									changed = true
								}
							}
						}
					} else if arg != nil && !changed {
						keys = append(keys, arg)
					}
				}
			}
		}
		if changed {
			keys = nil
		}
	}
	if !r.check(len(keys) > 0, key, str.Pos(), "the place where String asks the cache is not found") {
		return
	}
	got := map[fld]bool{}
	for _, k := range keys {
		for f := range deps(k) {
			got[f] = true
		}
	}
	// what the functions of String read of the parts, apart from the computation of the key
	inKey := map[*ssa.Function]bool{}
	for _, k := range keys {
		if c, ok := k.(*ssa.Call); ok {
			for _, a := range append([]ssa.Value{c}, c.Call.Args...) {
				r.keyFuncs(a, inKey)
			}
		}
	}
	read := map[fld]token.Pos{}
	for _, f := range reach {
		if inKey[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if namedOf(x.X.Type()) == m.C {
						read[fld{m.C, x.Field}] = x.Pos()
					}
				case *ssa.Field:
					if namedOf(x.X.Type()) == m.C {
						read[fld{m.C, x.Field}] = x.Pos()
					}
				}
			}
		}
	}
	r.check(len(read) >= 3, key, str.Pos(), "the parts are not read by String")
	// no part is left out
	rr := r.stringRun(m, str, r.numberer(str))
	chunks := m.get(rr.e, newState(), rr.args[0], m.chunks)
	done := map[*LoopRec]bool{}
	for _, x := range rr.returns() {
		for _, ev := range x.St.events() {
			if ev.Kind == "call" && ev.Callee == "sync.(Map).Load" {
				break
			}
			if ev.Kind != "loop" || done[ev.Loop] {
				continue
			}
			done[ev.Loop] = true
			uses := func(it []*Event, i int) bool {
				for _, y := range allEvents(it) {
					for _, a := range y.Args {
						if a.any(func(t *Term) bool {
							return t.op == "ld" && t.args[0].op == "field" && t.args[0] == rr.e.fieldAddr(t.args[0].args[0], m.C, i)
						}) {
							return true
						}
					}
				}
				return false
			}
			any := false
			for f := range read {
				for _, it := range ev.Loop.Iters {
					any = any || uses(it, f.i)
				}
			}
			if !any {
				continue
			}
			r.check(loopOver(rr.e, x.St, ev.Loop, chunks) != nil, key+":all", str.Pos(), "parts are left out of the key of the cache")
			for f := range read {
				n := 0
				for _, it := range ev.Loop.Iters {
					if uses(it, f.i) {
						n++
					}
				}
				r.check(n == 0 || n == len(ev.Loop.Iters), key+":all", str.Pos(), "%s of some parts is left out of the key of the cache", f.T.Underlying().(*types.Struct).Field(f.i).Name())
			}
		}
	}
	for f, pos := range read {
		n := f.T.Underlying().(*types.Struct).Field(f.i).Name()
		r.check(got[f], key+":"+n, pos, "the text depends on %s of a part, and the key of the cache does not", n)
	}
	r.check(got[fld{m.T, m.buf}], key+":text", str.Pos(), "the key of the cache does not depend on the text of the statement")
}

func isConstNum(v ssa.Value, n int64) bool {
	if v == nil {
		return n == 0
	}
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.ExactString() == fmt.Sprint(n)
}

// keyFuncs: repository functions called to compute the value.
func (r *Report) keyFuncs(v ssa.Value, out map[*ssa.Function]bool) {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if c, ok := v.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && r.p.isRepoFn(f) {
				for _, g := range r.p.staticReach(f) {
					out[g] = true
				}
			}
		}
		if a, ok := v.(*ssa.Alloc); ok {
			for _, ref := range *a.Referrers() {
				if ia, ok := ref.(*ssa.IndexAddr); ok {
					for _, r2 := range *ia.Referrers() {
						if s, ok := r2.(*ssa.Store); ok {
							visit(s.Val)
						}
					}
				}
			}
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, op := range in.Operands(nil) {
				visit(*op)
			}
		}
	}
	visit(v)
}

// calleeOf resolves a call to a function of the repository.
func (p *Program) calleeOf(cc *ssa.CallCommon) *ssa.Function {
	if cc.IsInvoke() {
		if d := p.soleImpl(cc.Value.Type()); d != nil {
			return p.prog.LookupMethod(d, cc.Method.Pkg(), cc.Method.Name())
		}
		return nil
	}
	return cc.StaticCallee()
}

// cacheAPI: GetCachedQuery and PutCachedQuery use the cache of the dialect; GetOrCreateQuery returns a cached text or that of the new statement.
func (r *Report) cacheAPI(m *stmtModel) {
	p := r.p
	DT := p.Named(xsqlPkg, "Dialect")
	get, put, goc := p.Method(xsqlPkg, "Dialect", "GetCachedQuery"), p.Method(xsqlPkg, "Dialect", "PutCachedQuery"), p.Method(xsqlPkg, "Dialect", "GetOrCreateQuery")
	if get == nil || put == nil || goc == nil || DT == nil {
		r.missing("the cache of xsql.Dialect")
		return
	}
	lookedUp := func(rr *runRes, x *Exit, key string) *Event {
		ls := callsNamed(x.St, "sync.(Map).Load")
		if !r.check(len(ls) == 1 && ls[0].Args[0].op == "field" && ls[0].Args[0].args[0] == rr.args[0] && unIface(ls[0].Args[1]) == rr.args[1], key, x.Pos, "the name is not looked for in the cache of the dialect") {
			return nil
		}
		return ls[0]
	}
	cached := func(rr *runRes, x *Exit, ev *Event, t *Term) bool {
		if t.op == "unbox" {
			t = t.args[0]
		}
		return t == ev.Result.args[0]
	}
	rr := r.stmtRun(m, get, nil)
	key := "cache:" + shortFn(get)
	for _, x := range rr.returns() {
		if ev := lookedUp(rr, x, key); ev != nil {
			ok, k := rr.e.evalBool(x.St, ev.Result.args[1])
			if ok || !k {
				r.check(cached(rr, x, ev, x.Results[0]), key, x.Pos, "the cached text is not returned as it is")
			}
			v, k2 := rr.e.evalBool(x.St, x.Results[1])
			r.check(x.Results[1] == ev.Result.args[1] || k && k2 && v == ok, key, x.Pos, "the result does not tell if there is a text")
		}
	}
	rr = r.stmtRun(m, put, nil)
	key = "cache:" + shortFn(put)
	for _, x := range rr.returns() {
		ss := callsNamed(x.St, "sync.(Map).Store")
		r.check(len(ss) == 1 && ss[0].Args[0].op == "field" && ss[0].Args[0].args[0] == rr.args[0] && unIface(ss[0].Args[1]) == rr.args[1] && unIface(ss[0].Args[2]) == rr.args[2], key, x.Pos, "the text is not stored under its name")
	}
	rr = r.stmtRun(m, goc, nil)
	e := rr.e
	key = "cache:" + shortFn(goc)
	for _, x := range rr.returns() {
		ev := lookedUp(rr, x, key)
		if ev == nil {
			continue
		}
		r.check(x.Results[1] == rr.args[1], key, x.Pos, "another key is returned than the name")
		var mk, str *Event
		n := 0
		for _, y := range x.St.events() {
			switch {
			case y.Kind == "call" && y.Fn == nil && strings.Contains(y.Callee, "dynamic"):
				mk = y
				n++
			case y.Kind == "string":
				str = y
			}
		}
		ok, k := e.evalBool(x.St, ev.Result.args[1])
		if !r.check(k, key, x.Pos, "the cached text is used without knowing that there is one") {
			continue
		}
		if ok {
			r.check(n == 0 && cached(rr, x, ev, x.Results[0]), key, x.Pos, "the cached text is not returned as it is")
			continue
		}
		if r.check(n == 1 && mk.Args[len(mk.Args)-1] == rr.args[1], key, x.Pos, "the statement is not made once, with the name") && r.check(str != nil, key, x.Pos, "the text of the new statement is not asked for") {
			q := str.Args[0]
			r.check(q.any(func(t *Term) bool { return t == mk.Result }) && x.Results[0] == str.Result, key, x.Pos, "the text of the new statement is not returned")
			r.check(len(str.Vals) > 2 && str.Vals[2] == rr.args[1], key, x.Pos, "the new statement does not have the name, under which it is cached, when its text is made")
		}
	}
}

// fieldOfType: the value is read from a field of the type.
func fieldOfType(v ssa.Value, T *types.Named) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || T == nil {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && namedOf(fa.X.Type()) == T
}

// ---- pool

// poolEvents interprets a function with the pool of statements as events; an object from the pool is new and has unknown fields.
func (r *Report) poolRun(m *stmtModel, f *ssa.Function, blank bool, hookAdd bool) (*runRes, *poolUse) {
	u := &poolUse{}
	e := newEngine(r.p)
	inner := m.hook(r.p)
	T := m.T.Underlying().(*types.Struct)
	cl := r.p.Method(xsqlPkg, "Stmt", "Close")
	e.OnCall = func(e *Engine, st *State, c *Call) *Outcome {
		switch c.Name {
		case "sync.(Pool).Get":
			pt := types.NewPointer(m.T)
			o := e.ts.mk("alloc", "pooled"+c.Site, pt)
			o.site = c.Instr
			for i := 0; i < T.NumFields(); i++ {
				a, t := m.at(e, o, i)
				var v *Term
				if u.init == nil {
					u.init = map[int]*Term{}
				}
				v = e.ts.mk("poolfield", T.Field(i).Name(), t)
				switch i {
				case m.chunks, m.args, m.dest:
					if blank {
						v = e.ts.mk("slice", "", t, v, e.ts.nilTerm(), e.ts.intTerm(0), e.ts.nilTerm())
					}
				case m.sql, m.name:
					if blank {
						v = e.ts.strTerm("")
					}
				case m.pos:
					if blank {
						v = e.ts.intTerm(0)
					}
				}
				u.init[i] = v
				e.store(st, a, v, t, c.Site+T.Field(i).Name())
			}
			ev := &Event{Kind: "poolget", Instr: c.Instr, Ctx: c.Ctx, Callee: c.Name, Args: c.Args, Result: o}
			st.event(ev)
			return &Outcome{States: []*State{st}, Results: []*Term{e.ts.iface(pt, o)}}
		case "sync.(Pool).Put":
			ev := &Event{Kind: "poolput", Instr: c.Instr, Ctx: c.Ctx, Callee: c.Name, Args: c.Args}
			if q := unIface(c.Args[1]); q != nil {
				for i := 0; i < T.NumFields(); i++ {
					ev.Vals = append(ev.Vals, m.get(e, st, q, i))
				}
			}
			st.event(ev)
			return &Outcome{States: []*State{st}, Results: []*Term{e.ts.mk("tuple", "", nil)}}
		}
		if c.Fn == cl && f == cl {
			return nil
		}
		if hookAdd {
			if c.Fn == m.add {
				ev := &Event{Kind: "before add", Instr: c.Instr, Args: c.Args}
				for i := 0; i < T.NumFields(); i++ {
					ev.Vals = append(ev.Vals, m.get(e, st, c.Args[0], i))
				}
				st.event(ev)
			}
			return inner(e, st, c)
		}
		return nil
	}
	st := newState()
	args := e.Params(f)
	for i, pr := range f.Params {
		if i > 0 || f.Signature.Recv() == nil {
			if n := namedOf(pr.Type()); n != nil && n.Obj().Name() == "Builder" {
				pt := types.NewPointer(m.T)
				args[i] = e.ts.iface(pt, e.ts.mk("alloc", "sub", pt))
			}
		}
	}
	rr := &runRes{e: e, fn: f, args: args}
	rr.exits = e.Run(f, st, args)
	r.done(e, rr.exits)
	return rr, u
}

type poolUse struct{ init map[int]*Term }

func eventsOf(st *State, kind string) []*Event {
	var r []*Event
	for _, ev := range st.events() {
		if ev.Kind == kind {
			r = append(r, ev)
		}
	}
	return r
}

func runA04(r *Report) {
	r.rule("a statement that is closed is given back once, and its buffer once; with no parts, arguments and targets left")
	r.rule("each field of a statement that is started is new, or was cleared when the statement was given back; its dialect and buffer are its own")
	m := r.stmt()
	if m == nil {
		return
	}
	p := r.p
	T := m.T.Underlying().(*types.Struct)
	cl := p.Method(xsqlPkg, "Stmt", "Close")
	if cl == nil {
		r.missing("xsql.(Stmt).Close")
		return
	}
	isBlank := func(e *Engine, st *State, i int, v *Term) bool {
		switch i {
		case m.chunks, m.args, m.dest:
			n := e.bounds(st, e.lenOf(v))
			return n.hi != nil && n.hi.Sign() <= 0
		}
		z, k := e.isZeroTerm(st, v, T.Field(i).Type())
		return k && z
	}
	// closing
	rr, _ := r.poolRun(m, cl, false, false)
	key := "close:" + shortFn(cl)
	blank := map[int]bool{}
	for i := 0; i < T.NumFields(); i++ {
		blank[i] = true
	}
	buf0 := m.get(rr.e, newState(), rr.args[0], m.buf)
	for _, x := range rr.returns() {
		puts := eventsOf(x.St, "poolput")
		if !r.check(len(puts) == 1 && unIface(puts[0].Args[1]) == rr.args[0], key, x.Pos, "the statement is given back %d times", len(puts)) {
			continue
		}
		for i := range blank {
			blank[i] = blank[i] && isBlank(rr.e, x.St, i, puts[0].Vals[i])
		}
		n := 0
		after := false
		for _, ev := range x.St.events() {
			if ev.Kind == "call" && strings.HasSuffix(ev.Callee, "bytebufferpool.Put") && ev.Args[0] == buf0 {
				n++
			}
			if after && ev.Kind == "store" && root(ev.Args[0]) == rr.args[0] {
				r.check(false, key, ev.Instr.Pos(), "the statement is written after it is given back")
			}
			after = after || ev == puts[0]
		}
		r.check(n == 1, key, x.Pos, "the buffer is given back %d times", n)
		for _, i := range []int{m.chunks, m.args, m.dest} {
			r.check(isBlank(rr.e, x.St, i, puts[0].Vals[i]), key, x.Pos, "the statement is given back with %s", T.Field(i).Name())
		}
	}
	// new objects of the pool
	for _, f := range p.funcs {
		if f.Pkg == nil || f.Pkg.Pkg != m.T.Obj().Pkg() || len(f.Params) > 0 || f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 || f.Parent() != nil && len(f.FreeVars) > 0 {
			continue
		}
		if it, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Interface); !ok || it.NumMethods() > 0 {
			continue
		}
		nr := r.run(f, nil)
		for _, x := range nr.returns() {
			t := x.Results[0]
			if t.op != "iface" || namedOf(t.T) != m.T {
				continue
			}
			for i := 0; i < T.NumFields(); i++ {
				r.check(isBlank(nr.e, x.St, i, m.get(nr.e, x.St, t.args[0], i)), "new:"+shortFn(f), x.Pos, "%s of a new statement is not empty", T.Field(i).Name())
			}
			r.check(isFresh(t.args[0]), "new:"+shortFn(f), x.Pos, "the statement is not a new one")
		}
	}
	// starting
	n := 0
	DT := p.Named(xsqlPkg, "Dialect")
	for _, f := range p.funcs {
		if f.Signature.Recv() == nil || namedOf(f.Signature.Recv().Type()) != DT || f.Parent() != nil || f.Synthetic != "" || !f.Object().Exported() || f.Signature.Results().Len() != 1 {
			continue
		}
		if res := namedOf(f.Signature.Results().At(0).Type()); res == nil || res.Obj().Name() != "Builder" {
			continue
		}
		rr, u := r.poolRun(m, f, false, true)
		e := rr.e
		key := "start:" + shortFn(f)
		n++
		for _, x := range rr.returns() {
			gets := eventsOf(x.St, "poolget")
			if !r.check(len(gets) == 1, key, x.Pos, "a statement is taken from the pool %d times", len(gets)) {
				continue
			}
			r.check(len(eventsOf(x.St, "poolput")) == 0, key, x.Pos, "the statement is given back although it is returned")
			q := gets[0].Result
			var first *Event
			for _, ev := range eventsOf(x.St, "before add") {
				if first == nil && ev.Args[0] == q {
					first = ev
				}
			}
			if !r.check(first != nil, key, x.Pos, "the statement that is started is not the one from the pool") {
				continue
			}
			for i := 0; i < T.NumFields(); i++ {
				v := first.Vals[i]
				nm := T.Field(i).Name()
				switch {
				case i == m.dialect:
					r.check(unIface(v) == rr.args[0], key, x.Pos, "the dialect of the new statement is %s", v)
				case i == m.buf:
					ok := false
					for _, ev := range x.St.events() {
						ok = ok || ev.Kind == "call" && strings.HasSuffix(ev.Callee, "bytebufferpool.Get") && ev.Result == v
					}
					r.check(ok, key, x.Pos, "the new statement does not have a buffer of its own")
				case v == u.init[i]:
					r.check(blank[i], key+":"+nm, x.Pos, "%s of a statement that was closed is kept in the next one", nm)
				case i == m.newLines:
					// the option of the dialect
					ok := v.isConst() && !optionOf(rr.args[0], x.St) || optionOf(rr.args[0], x.St) && !v.any(func(t *Term) bool { return t.op == "poolfield" })
					for t := range x.St.b {
						if t == u.init[i] || t.op == "eq" && (t.args[0] == u.init[i] || t.args[1] == u.init[i]) {
							ok = ok && blank[i]
						}
					}
					r.check(ok, key+":"+nm, x.Pos, "%s of the new statement is not that of the dialect", nm)
				default:
					r.check(isBlank(e, x.St, i, v), key+":"+nm, x.Pos, "%s of a new statement is not empty", nm)
				}
			}
		}
	}
	r.atLeast(n, 6, "functions that start a statement")
	// buffers for parts of the text
	for _, name := range []string{"In", "Join", "LeftJoin", "RightJoin", "FullJoin"} {
		f := p.Method(xsqlPkg, "Stmt", name)
		if f == nil {
			continue
		}
		br := r.stmtRun(m, f, nil)
		key := "buffer:" + shortFn(f)
		for _, x := range br.returns() {
			put := map[*Term]int{}
			for _, ev := range x.St.events() {
				if ev.Kind == "call" && strings.HasSuffix(ev.Callee, "bytebufferpool.Put") {
					put[ev.Args[0]]++
					own := false
					for _, g := range x.St.events() {
						own = own || g.Kind == "call" && strings.HasSuffix(g.Callee, "bytebufferpool.Get") && g.Result == ev.Args[0]
					}
					r.check(own && put[ev.Args[0]] == 1, key, ev.Instr.Pos(), "a buffer is given back that is in use or was given back before")
				}
			}
			r.check(true, key, x.Pos, "")
		}
	}
}

// optionOf: an option of the dialect was read on the path.
func optionOf(d *Term, st *State) bool {
	for _, ev := range st.events() {
		if ev.Kind == "call" && strings.Contains(ev.Callee, "sync/atomic.(") && strings.HasSuffix(ev.Callee, ".Load") && root(ev.Args[0]) == d {
			return true
		}
	}
	return false
}

func runA05(r *Report) {
	r.rule("a clone has the parts, arguments, scan targets, text, place and options of the original, in lists and a buffer of its own; the original is unchanged")
	m := r.stmt()
	if m == nil {
		return
	}
	f := r.p.Method(xsqlPkg, "Stmt", "Clone")
	if f == nil {
		r.missing("xsql.(Stmt).Clone")
		return
	}
	rr, _ := r.poolRun(m, f, true, false)
	e := rr.e
	q := rr.args[0]
	st0 := newState()
	T := m.T.Underlying().(*types.Struct)
	key := "clone:" + shortFn(f)
	n := 0
	for _, x := range rr.returns() {
		if len(x.Results) != 1 {
			continue
		}
		c := unIface(x.Results[0])
		if !r.check(isFresh(c), key, x.Pos, "Clone returns a statement that is not new") {
			continue
		}
		n++
		sq := e.newSeqs(x.St)
		sq.replay(x.St.events())
		for _, i := range []int{m.chunks, m.args, m.dest} {
			nm := T.Field(i).Name()
			o := m.get(e, st0, q, i)
			v := m.get(e, x.St, c, i)
			want := seq{{base: o, lo: e.ts.intTerm(0), hi: e.lenOf(o)}}
			got := sq.of(v)
			r.check(sq.same(got, want), key+":"+nm, x.Pos, "the clone has the %s %s", nm, sq.norm(got))
			b := v
			for b.op == "slice" || b.op == "append" {
				b = b.args[0]
			}
			r.check(b.op == "poolfield" || b.op == "nil" || b.op == "make" || b.op == "alloc" || b.op == "call" && !b.any(func(t *Term) bool { return t == o }) || e.le(x.St, e.lenOf(v), e.ts.intTerm(0)) && b != o,
				key+":"+nm, x.Pos, "the clone shares the list of %s", nm)
			// the original
			r.check(m.get(e, x.St, q, i) == o, key+":"+nm, x.Pos, "Clone changes the original")
		}
		for _, i := range []int{m.pos, m.newLines, m.dialect} {
			nm := T.Field(i).Name()
			v, o := m.get(e, x.St, c, i), m.get(e, st0, q, i)
			same := v == o || e.sameTerm(x.St, v, o, T.Field(i).Type())
			if i == m.dialect {
				same = same || unIface(v) == e.unbox(o, types.NewPointer(r.p.Named(xsqlPkg, "Dialect")))
			}
			r.check(same, key+":"+nm, x.Pos, "%s of the clone is %s", nm, v)
		}
		sql := m.get(e, x.St, c, m.sql)
		z, k := e.isZeroTerm(x.St, sql, types.Typ[types.String])
		r.check(sql == m.get(e, st0, q, m.sql) || k && z, key+":sql", x.Pos, "the remembered text of the clone is not that of the original")
		nm := m.get(e, x.St, c, m.name)
		z, k = e.isZeroTerm(x.St, nm, types.Typ[types.String])
		r.check(k && z, key+":name", x.Pos, "the clone has the name of the original, under which another text is cached when it is changed")
		buf, obuf := m.get(e, x.St, c, m.buf), m.get(e, st0, q, m.buf)
		ps, ok := pieces(e, x.St.events(), buf)
		same := ok && len(ps) == 1 && ps[0].t != nil && bufferText(ps[0].t) == obuf
		r.check(same && buf != obuf, key+":text", x.Pos, "the clone does not have a text of its own, equal to that of the original")
		pso, _ := pieces(e, x.St.events(), obuf)
		r.check(len(pso) == 0, key+":text", x.Pos, "Clone changes the text of the original")
	}
	r.check(n > 0, key, f.Pos(), "Clone returns nothing")
}

// ---- executing

func runA07(r *Report) {
	r.rule("executing passes the text of the statement, all its arguments and its scan targets, and returns the result and error unchanged")
	r.rule("the forms that close do the same and close the statement exactly once, behind its last use")
	m := r.stmt()
	if m == nil {
		return
	}
	n := 0
	for base, call := range map[string]string{"Query": "QueryContext", "QueryRow": "QueryRowContext", "Exec": "ExecContext"} {
		for _, closing := range []bool{false, true} {
			name := base
			if closing {
				name += "AndClose"
			}
			f := r.p.Method(xsqlPkg, "Stmt", name)
			if f == nil {
				r.missing("xsql.(Stmt)." + name)
				continue
			}
			rr := r.stmtRun(m, f, executorHook)
			e := rr.e
			q := rr.args[0]
			st0 := newState()
			args, dest := m.get(e, st0, q, m.args), m.get(e, st0, q, m.dest)
			key := "execute:" + shortFn(f)
			for _, x := range rr.returns() {
				var str *Event
				var execs []*Event
				closes := 0
				for _, ev := range allEvents(x.St.events()) {
					used := false
					switch {
					case ev.Kind == "string" && ev.Args[0] == q:
						str = ev
						used = true
					case ev.Kind == "close" && ev.Args[0] == q:
						closes++
					case ev.Kind == "call" && strings.HasSuffix(ev.Callee, "."+call):
						execs = append(execs, ev)
						used = true
					case ev.Kind == "call" && (strings.HasSuffix(ev.Callee, "sql.(Rows).Scan") || strings.HasSuffix(ev.Callee, "sql.(Row).Scan")):
						used = true
						r.check(ev.Args[len(ev.Args)-1] == dest, key, ev.Instr.Pos(), "rows are scanned into something else than the targets of the statement: %s, not %s", ev.Args[len(ev.Args)-1], dest)
					}
					r.check(!used || closes == 0, key, x.Pos, "the statement is used after it is closed")
				}
				want := 0
				if closing {
					want = 1
				}
				r.check(closes == want, key, x.Pos, "the statement is closed %d times", closes)
				if !r.check(len(execs) == 1 && str != nil, key, x.Pos, "the statement is sent %d times", len(execs)) {
					continue
				}
				n++
				ex := execs[0]
				k := len(ex.Args)
				r.check(ex.Args[k-2] == str.Result, key, ex.Instr.Pos(), "another text is sent than that of the statement")
				r.check(ex.Args[k-1] == args, key, ex.Instr.Pos(), "other arguments are sent than those of the statement: %s", ex.Args[k-1])
				r.check(ex.Args[k-3] == rr.args[1], key, ex.Instr.Pos(), "the statement is sent with another context")
				r.check(unIface(ex.Args[0]) == unIface(rr.args[2]), key, ex.Instr.Pos(), "the statement is sent to another executor")
				switch base {
				case "Exec":
					if r.check(ex.Result != nil && ex.Result.op == "tuple" && len(x.Results) == 2, key, x.Pos, "the result is not known") {
						r.check(x.Results[0] == ex.Result.args[0], key, x.Pos, "another result is returned")
						r.check(x.Results[1] == ex.Result.args[1] || e.bothNil(x.St, x.Results[1], ex.Result.args[1]), key, x.Pos, "another error is returned")
					}
				case "QueryRow":
					ok := false
					for _, ev := range callsNamed(x.St, "database/sql.(Row).Scan") {
						ok = ok || ev.Args[0] == ex.Result && (ev.Result == x.Results[0] || e.bothNil(x.St, ev.Result, x.Results[0]))
					}
					r.check(ok, key, x.Pos, "the row is not scanned, or its error not returned")
				case "Query":
					// each row is scanned, if there are targets, and handed to the handler
					er := ex.Result.args[1]
					if z, kn := e.nilness(x.St, er); kn && !z {
						r.check(x.Results[0] == er, key, x.Pos, "the error of the query is not returned")
						continue
					}
					r.check(r.queryLoop(rr, x, key, ex, dest), key, x.Pos, "the rows are not read one by one")
					r.rowErrors(rr, x, key)
				}
			}
		}
	}
	r.atLeast(n, 6, "executions")
}

// executorHook: the executor, the rows and the handler do not change the statement that is executed.
func executorHook(e *Engine, st *State, args []*Term) {
	prev := e.OnCall
	e.OnCall = func(e *Engine, st *State, c *Call) *Outcome {
		if o := prev(e, st, c); o != nil {
			return o
		}
		if strings.Contains(c.Name, "database/sql.(Row") || strings.Contains(c.Name, ".(Executor).") || c.Name == "dynamic" && c.Dyn != nil && root(c.Dyn).op == "param" {
			ev := &Event{Kind: "call", Instr: c.Instr, Ctx: c.Ctx, Callee: c.Name, Fn: nil, Args: c.Args, Defer: c.Defer}
			ev.Result = e.freshResult(st, c)
			st.event(ev)
			return &Outcome{States: []*State{st}, Results: []*Term{ev.Result}}
		}
		return nil
	}
}

// bothNil: both are known to be nil.
func (e *Engine) bothNil(st *State, a, b *Term) bool {
	x, k := e.nilness(st, a)
	y, l := e.nilness(st, b)
	return k && l && x && y
}

// rowErrors: no error of the rows is dropped.
func (r *Report) rowErrors(rr *runRes, x *Exit, key string) {
	e := rr.e
	res := x.Results[0]
	if z, k := e.nilness(x.St, res); k && !z {
		return
	}
	var last *Event
	closed := false
	for _, ev := range x.St.events() {
		if ev.Kind != "call" || ev.Result == nil {
			continue
		}
		switch {
		case strings.HasSuffix(ev.Callee, "sql.(Rows).Next"):
			last = nil
		case strings.HasSuffix(ev.Callee, "sql.(Rows).Err"):
			last = ev
		case strings.HasSuffix(ev.Callee, "sql.(Rows).Scan"):
			z, k := e.nilness(x.St, ev.Result)
			r.check(k && z || ev.Result == res, key, ev.Instr.Pos(), "the error of scanning a row is dropped")
		case strings.HasSuffix(ev.Callee, "sql.(Rows).Close"):
			z, k := e.nilness(x.St, ev.Result)
			closed = closed || k && z || ev.Result == res
		}
	}
	if r.check(last != nil, key, x.Pos, "the error of reading the rows is not asked for") {
		z, k := e.nilness(x.St, last.Result)
		r.check(last.Result == res || k && z, key, x.Pos, "the error of reading the rows is dropped")
	}
	r.check(closed, key, x.Pos, "the error of closing the rows is dropped")
}

// queryLoop: the loop over the rows scans, if there are targets, and calls the handler, if there is one, once for each row.
func (r *Report) queryLoop(rr *runRes, x *Exit, key string, ex *Event, dest *Term) bool {
	e := rr.e
	handler := rr.args[len(rr.args)-1]
	for _, ev := range x.St.events() {
		if ev.Kind != "loop" {
			continue
		}
		rows := false
		for i, it := range ev.Loop.Iters {
			st := ev.Loop.Backs[i]
			scans, calls, next := 0, 0, 0
			for _, y := range it {
				switch {
				case strings.HasSuffix(y.Callee, "sql.(Rows).Next"):
					next++
					rows = rows || y.Args[0] == ex.Result.args[0]
				case strings.HasSuffix(y.Callee, "sql.(Rows).Scan"):
					scans++
					r.check(calls == 0, key, y.Instr.Pos(), "the handler is called before the row is scanned")
				case y.Kind == "call" && y.Fn == nil && strings.Contains(y.Callee, "dynamic"):
					calls++
				}
			}
			if next == 0 {
				continue
			}
			d := e.bounds(st, e.lenOf(dest))
			none := d.hi != nil && d.hi.Sign() <= 0
			some := d.lo != nil && d.lo.Sign() > 0
			r.check(next == 1, key, x.Pos, "a row is skipped")
			r.check(scans == 1 && some || scans == 0 && none || scans == 1 && !none, key, x.Pos, "a row is scanned %d times", scans)
			hz, hk := e.nilness(st, handler)
			r.check(calls == 1 && !(hk && hz) || calls == 0 && hk && hz, key, x.Pos, "the handler is called %d times for a row", calls)
		}
		if rows {
			return true
		}
	}
	// no row was read
	_ = fmt.Sprint
	for _, ev := range callsNamed(x.St, "database/sql.(Rows).Next") {
		if ev.Args[0] == ex.Result.args[0] {
			return true
		}
	}
	return false
}
