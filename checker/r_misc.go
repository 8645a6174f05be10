package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["B07"] = propRule{run: runB07, title: "Merging keeps what is set"}
	rules["B08"] = propRule{run: runB08, title: "Not found is told apart from other errors"}
}

// facts about an error on a path
type errFacts struct{ isNil, noRows, asType, text fact }

type fact struct{ val, known bool }

func (e *Engine) errFactsOf(st *State, err *Term, asType *types.Named) (f errFacts) {
	f.isNil.val, f.isNil.known = e.nilness(st, err)
	set := func(x *fact, v, neg bool) {
		if x.known && x.val {
			return
		}
		x.val, x.known = v, true
	}
	for t, v := range st.b {
		switch {
		case t.op == "errorsIs" && t.args[0] == err && isGlobalNamed(t.args[1], "sql.ErrNoRows"):
			set(&f.noRows, v, false)
		case t.op == "eq" && v && (t.args[0] == err && isGlobalNamed(t.args[1], "sql.ErrNoRows") || t.args[1] == err && isGlobalNamed(t.args[0], "sql.ErrNoRows")):
			set(&f.noRows, true, false)
		case t.op == "errorsAs" && t.args[0] == err && asType != nil:
			d := unIface(t.args[1])
			if d.typ != nil {
				pp, ok := d.typ.Underlying().(*types.Pointer)
				if ok && namedOf(pp.Elem()) != nil && types.Identical(namedOf(pp.Elem()), asType) {
					set(&f.asType, v, false)
				}
			}
		case t.op == "pure" && t.aux == "strings.Contains" && len(t.args) == 2:
			if s, ok := t.args[1].constStr(); ok && s == "no rows in result set" && e.isTextOfErr(st, t.args[0], err) {
				set(&f.text, v, false)
			}
		}
	}
	return
}

func (e *Engine) isTextOfErr(st *State, t, err *Term) bool {
	for _, ev := range st.events() {
		if ev.Kind == "call" && ev.Result == t && strings.HasSuffix(ev.Callee, "(error).Error") && ev.Args[0] == err {
			return true
		}
	}
	return isPure(t, "(error).Error") && len(t.args) == 1 && t.args[0] == err
}

func isGlobalNamed(t *Term, name string) bool {
	for t.op == "ld" {
		t = t.args[0]
	}
	return (t.op == "gval" || t.op == "global") && (strings.HasSuffix(t.aux, "/"+name) || strings.HasSuffix(t.aux, "database/"+name) || t.aux == name)
}

func unwrapTerm(t *Term) *Term {
	for t.op == "wrap" {
		t = t.args[0]
	}
	return t
}

func runB08(r *Report) {
	r.rule("IsNotFoundError is true exactly if the error chain has sql.ErrNoRows or ErrorNotFound, or the text of a missing row")
	r.rule("CheckNotFoundError makes nil of nil, an ErrorNotFound with the given table, id and cause of a missing row, and passes any other error on, wrapped")
	r.rule("two ErrorNotFound are the same exactly if table and id are; the cause can be unwrapped")
	nf := r.p.Named("", "ErrorNotFound")
	is, chk := r.p.Func("", "IsNotFoundError"), r.p.Func("", "CheckNotFoundError")
	if nf == nil || is == nil || chk == nil {
		r.missing("ErrorNotFound, IsNotFoundError, CheckNotFoundError")
		return
	}
	rr := r.run(is, nil)
	for _, x := range rr.returns() {
		for _, want := range []bool{true, false} {
			st := x.St.clone()
			if v, ok := x.Results[0].constBool(); ok {
				if v != want {
					continue
				}
			} else if !rr.e.assume(st, x.Results[0], want) {
				continue
			}
			f := rr.e.errFactsOf(st, rr.args[0], nf)
			key := "is:IsNotFoundError"
			if want {
				ok := f.noRows.known && f.noRows.val || f.asType.known && f.asType.val || f.text.known && f.text.val
				r.check(ok, key, x.Pos, "an error that is not known to be of a missing row counts as not found")
			} else {
				ok := f.isNil.known && f.isNil.val || f.noRows.known && !f.noRows.val && f.asType.known && !f.asType.val && f.text.known && !f.text.val
				r.check(ok, key, x.Pos, "an error of a missing row (sql.ErrNoRows, ErrorNotFound, or its text) may not count as not found")
			}
		}
	}
	r.atLeast(len(rr.returns()), 2, "returns of IsNotFoundError")
	s := nf.Underlying().(*types.Struct)
	fieldBy := func(e *Engine, st *State, obj *Term, pred func(string, types.Type) bool) *Term {
		for i := 0; i < s.NumFields(); i++ {
			if pred(s.Field(i).Name(), s.Field(i).Type()) {
				return e.load(st, e.fieldAddr(obj, nf, i), s.Field(i).Type())
			}
		}
		return nil
	}
	byName := func(n string) func(string, types.Type) bool {
		return func(a string, _ types.Type) bool { return a == n }
	}
	madeOf := func(e *Engine, x *Exit, t, err, table, id *Term, key string) {
		obj := unIface(unwrapTerm(t))
		if !r.check(isFresh(obj) && obj.typ != nil && namedOf(obj.typ) != nil && types.Identical(namedOf(obj.typ), nf), key, x.Pos, "the error is %s, not an ErrorNotFound", t) {
			return
		}
		r.check(fieldBy(e, x.St, obj, byName("Table")) == table, key, x.Pos, "the table of the error is not the given one")
		cause := fieldBy(e, x.St, obj, func(_ string, T types.Type) bool { return isErrorType(T) })
		r.check(cause == err || cause != nil && unwrapTerm(cause) == err, key, x.Pos, "the cause of the error is not kept")
		idText := fieldBy(e, x.St, obj, byName("ID"))
		ok := idText != nil && idText.any(func(t *Term) bool { return t == id })
		if !ok && idText != nil {
			for _, ev := range x.St.events() {
				if ev.Kind == "call" && ev.Result == idText {
					for _, a := range ev.Args {
						ok = ok || a.any(func(t *Term) bool { return t == id })
					}
				}
			}
		}
		r.check(ok, key, x.Pos, "the id of the error is not the text of the given one")
		if idText != nil && isPure(idText, "fmt.Sprintf") && len(idText.args) == 2 {
			// the verb writes any value as its text
			f, _ := idText.args[0].constStr()
			r.check(f == "%v", key, x.Pos, "the id of the error is written with the format %q, which is not the text of every value", f)
		}
	}
	cr := r.run(chk, nil)
	for _, x := range cr.returns() {
		key := "check:CheckNotFoundError"
		f := cr.e.errFactsOf(x.St, cr.args[0], nil)
		res := x.Results[0]
		switch {
		case f.isNil.known && f.isNil.val:
			n, k := cr.e.nilness(x.St, res)
			r.check(k && n, key, x.Pos, "CheckNotFoundError makes an error of nil")
		case f.noRows.known && f.noRows.val || f.text.known && f.text.val:
			madeOf(cr.e, x, res, cr.args[0], cr.args[1], cr.args[2], key)
		case f.noRows.known && !f.noRows.val && f.text.known && !f.text.val:
			r.check(unwrapTerm(res) == cr.args[0], key, x.Pos, "CheckNotFoundError changes an error that is not of a missing row to %s", res)
		default:
			if r.check(unwrapTerm(res) == cr.args[0] && !f.isNil.known, key, x.Pos, "CheckNotFoundError does not decide whether the error is of a missing row") {
				r.check(false, key, x.Pos, "CheckNotFoundError passes on an error that may be of a missing row")
			}
		}
	}
	if mk := r.p.Func("", "NewErrorNotFound"); mk == nil {
		r.missing("NewErrorNotFound")
	} else {
		mr := r.run(mk, nil)
		for _, x := range mr.returns() {
			madeOf(mr.e, x, x.Results[0], mr.args[0], mr.args[1], mr.args[2], "make:NewErrorNotFound")
		}
	}
	if m := r.p.Method("", "ErrorNotFound", "Is"); m == nil {
		r.missing("ErrorNotFound.Is")
	} else {
		var other *Term
		for _, same := range []bool{true, false} {
			mr := r.run(m, func(e *Engine, st *State, args []*Term) {
				if same {
					other = e.ts.mk("param", "other", types.NewPointer(nf))
					e.addNonNil(st, other)
					args[1] = e.ts.iface(types.NewPointer(nf), other)
				}
				e.addNonNil(st, args[0])
			})
			for _, x := range mr.returns() {
				key := "same:Is"
				if !same {
					// another type, or the interface not known to be an ErrorNotFound
					is, k := mr.e.evalBool(x.St, mr.e.isTerm(mr.args[1], types.NewPointer(nf)))
					if k && !is {
						v, ok := x.Results[0].constBool()
						r.check(ok && !v, key, x.Pos, "an error of another type is the same as an ErrorNotFound")
					}
					continue
				}
				for _, want := range []bool{true, false} {
					st := x.St.clone()
					if v, ok := x.Results[0].constBool(); ok {
						if v != want {
							continue
						}
					} else if !mr.e.assume(st, x.Results[0], want) {
						continue
					}
					all, some := true, false
					for _, n := range []string{"Table", "ID"} {
						a, b := fieldBy(mr.e, st, mr.args[0], byName(n)), fieldBy(mr.e, st, other, byName(n))
						v, k := mr.e.evalBool(st, mr.e.eqTerm(a, b, basic(types.String)))
						all = all && k && v
						some = some || k && !v
					}
					if want {
						r.check(all, key, x.Pos, "two ErrorNotFound are the same although their table or id may differ")
					} else {
						r.check(some, key, x.Pos, "two ErrorNotFound with the same table and id may not be the same")
					}
				}
			}
		}
	}
	if m := r.p.Method("", "ErrorNotFound", "Unwrap"); m == nil {
		r.check(false, "unwrap:Unwrap", token.NoPos, "the cause of an ErrorNotFound cannot be unwrapped")
	} else {
		mr := r.run(m, nil)
		for _, x := range mr.returns() {
			c := fieldBy(mr.e, newState(), mr.args[0], func(_ string, T types.Type) bool { return isErrorType(T) })
			r.check(x.Results[0] == c, "unwrap:Unwrap", x.Pos, "Unwrap does not return the cause")
		}
	}
}

// initOf returns the value that the package initialiser stores in the global.
func (p *Program) initOf(g *ssa.Global) ssa.Value {
	if g == nil || g.Pkg == nil {
		return nil
	}
	f := g.Pkg.Func("init")
	if f == nil {
		return nil
	}
	var v ssa.Value
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				v = s.Val
			}
		}
	}
	return v
}

func (p *Program) globalNamed(t *Term) *ssa.Global {
	for t.op == "ld" {
		t = t.args[0]
	}
	for _, sp := range p.byPath {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && g.String() == t.aux {
				return g
			}
		}
	}
	return nil
}

func runB07(r *Report) {
	r.rule("for ID, Time and NULLString the destination is set to the source exactly if it can be set and the source is not empty, and never otherwise")
	r.rule("Merge merges with these rules, from the source to the destination, and lets set values override")
	f := r.p.Method("", "transformers", "Transformer")
	merge := r.p.Func("", "Merge")
	if merge == nil {
		r.missing("Merge")
		return
	}
	if f == nil {
		// find the implementation of the interface of mergo
		for _, g := range r.p.funcs {
			if g.Name() == "Transformer" && g.Signature.Recv() != nil {
				f = g
			}
		}
	}
	if f == nil {
		r.missing("Transformer")
		return
	}
	rr := r.run(f, nil)
	typ := rr.args[len(rr.args)-1]
	done := map[string]bool{}
	for _, x := range rr.returns() {
		res := x.Results[0]
		if res.isNil() {
			continue
		}
		T := reflectTypeOn(r.p, rr.e, x.St, typ)
		if T == nil {
			r.check(false, "transform:type", x.Pos, "a transformer is returned for a type that is not decided")
			continue
		}
		name := T.Obj().Name()
		key := "transform:" + name
		done[name] = true
		if !r.check(res.op == "func" || res.op == "closure", key, x.Pos, "the transformer of %s is %s", name, res) {
			continue
		}
		fr := r.run(res.fn, func(e *Engine, st *State, args []*Term) {
			// the values are of the type
		})
		dst, src := fr.args[0], fr.args[1]
		sets := 0
		for _, y := range fr.exits {
			if y.Panic {
				r.check(false, key, y.Pos, "merging a %s can panic", name)
				continue
			}
			n, k := fr.e.nilness(y.St, y.Results[0])
			r.check(k && n, key, y.Pos, "merging a %s can fail", name)
			var set []*Event
			for _, ev := range y.St.events() {
				if ev.Kind == "call" && strings.HasPrefix(ev.Callee, "reflect.(Value).Set") {
					set = append(set, ev)
				}
			}
			empty, ek := emptyReflected(r, fr, y.St, src, T)
			can, ck := false, false
			for t, v := range y.St.b {
				if t.op == "pure" && t.aux == "reflect.(Value).CanSet" && t.args[0] == dst {
					can, ck = v, true
				}
			}
			for _, ev := range y.St.events() {
				if ev.Kind == "call" && ev.Callee == "reflect.(Value).CanSet" && ev.Args[0] == dst {
					can, ck = fr.e.evalBool(y.St, ev.Result)
				}
			}
			if len(set) == 0 {
				r.check(ek && empty || ck && !can, key, y.Pos, "merging a %s leaves the destination although the source may be set", name)
				continue
			}
			sets++
			ok := len(set) == 1 && set[0].Args[0] == dst
			if ok {
				v := set[0].Args[1]
				ok = v == src && set[0].Callee == "reflect.(Value).Set" || strings.HasSuffix(set[0].Callee, "SetString") && reflString(y.St, v, src)
			}
			r.check(ok, key, y.Pos, "merging a %s does not set the destination to the source", name)
			r.check(ek && !empty, key, y.Pos, "merging an empty %s overwrites the destination", name)
		}
		r.check(sets > 0, key, f.Pos(), "merging never sets a %s", name)
	}
	for _, n := range []string{"Time", "ID", "NULLString"} {
		r.check(done[n], "transform:"+n, f.Pos(), "the type %s is merged without its rule", n)
	}
	mr := r.run(merge, nil)
	for _, x := range mr.returns() {
		key := "merge:Merge"
		cs := []*Event{}
		for _, ev := range x.St.events() {
			if ev.Kind == "call" && (strings.HasSuffix(ev.Callee, "mergo.Merge") || strings.HasSuffix(ev.Callee, "mergo.MergeWithOverwrite")) {
				cs = append(cs, ev)
			}
		}
		if !r.check(len(cs) == 1, key, x.Pos, "Merge merges %d times", len(cs)) {
			continue
		}
		c := cs[0]
		r.check(c.Args[0] == mr.args[0] && c.Args[1] == mr.args[1], key, x.Pos, "Merge does not merge its source to its destination")
		r.check(unwrapTerm(x.Results[0]) == c.Result, key, x.Pos, "Merge does not return the error of merging")
		opts := mr.e.snapshot(x.St, c.Args[2])
		if len(c.Vals) > 2 && c.Vals[2] != nil {
			opts = c.Vals[2]
		}
		over, tr := strings.HasSuffix(c.Callee, "WithOverwrite"), false
		for _, o := range opts.args {
			switch {
			case o.op == "func" && o.fn.Name() == "WithOverride":
				over = true
			case o.op == "gval" || o.op == "ld" || o.op == "global":
				v := r.p.initOf(r.p.globalNamed(o))
				if cl, ok := v.(*ssa.Call); ok && cl.Call.StaticCallee() != nil && cl.Call.StaticCallee().Name() == "WithTransformers" {
					if mi, ok := cl.Call.Args[0].(*ssa.MakeInterface); ok && f.Signature.Recv() != nil && types.Identical(derefType(mi.X.Type()), derefType(f.Signature.Recv().Type())) {
						tr = true
					}
				}
			default:
				for _, ev := range x.St.events() {
					if ev.Kind == "call" && ev.Result == o && strings.HasSuffix(ev.Callee, "mergo.WithTransformers") {
						tr = true
					}
				}
			}
		}
		r.check(over, key, x.Pos, "Merge does not override with set values")
		r.check(tr, key, x.Pos, "Merge does not use the rules for the types of this package")
	}
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// reflectTypeOn: the type that the reflect.Type term is known to be on the path.
func reflectTypeOn(p *Program, e *Engine, st *State, typ *Term) *types.Named {
	for t, v := range st.b {
		if t.op != "eq" || !v {
			continue
		}
		var g *Term
		if t.args[0] == typ {
			g = t.args[1]
		} else if t.args[1] == typ {
			g = t.args[0]
		} else {
			continue
		}
		var arg types.Type
		if isPure(g, "reflect.TypeOf") && len(g.args) == 1 && g.args[0].op == "iface" {
			arg = g.args[0].T
		} else if gl := p.globalNamed(g); gl != nil {
			if c, ok := p.initOf(gl).(*ssa.Call); ok && c.Call.StaticCallee() != nil && strings.HasPrefix(c.Call.StaticCallee().Name(), "Type") {
				if len(c.Call.Args) == 1 {
					if mi, ok := c.Call.Args[0].(*ssa.MakeInterface); ok {
						arg = mi.X.Type()
					}
				} else if ta := c.Call.StaticCallee().TypeArgs(); len(ta) == 1 {
					arg = ta[0]
				}
			}
		}
		if arg == nil {
			continue
		}
		if n, ok := types.Unalias(arg).(*types.Named); ok {
			return n
		}
	}
	return nil
}

// reflString: t is the text of the reflected value v.
func reflString(st *State, t, v *Term) bool {
	if isPure(t, "reflect.(Value).String") && t.args[0] == v {
		return true
	}
	for _, ev := range st.events() {
		if ev.Kind == "call" && ev.Result == t && ev.Callee == "reflect.(Value).String" && ev.Args[0] == v {
			return true
		}
	}
	return false
}

// emptyReflected: the reflected value of type T is known to be empty or not on the path.
func emptyReflected(r *Report, rr *runRes, st *State, src *Term, T *types.Named) (empty, known bool) {
	e := rr.e
	// IsZero of reflect
	for t, v := range st.b {
		if t.op == "pure" && t.aux == "reflect.(Value).IsZero" && t.args[0] == src && T.Obj().Name() != "Time" {
			return v, true
		}
	}
	var vals []*Term
	lens := []*Term{e.ts.mk("pure", "reflect.(Value).Len", basic(types.Int), src)}
	for _, ev := range st.events() {
		if ev.Kind == "call" && ev.Args != nil && len(ev.Args) > 0 && ev.Args[0] == src && ev.Result != nil {
			switch ev.Callee {
			case "reflect.(Value).Interface":
				vals = append(vals, e.unbox(ev.Result, T))
			case "reflect.(Value).String":
				vals = append(vals, ev.Result)
			case "reflect.(Value).Len":
				lens = append(lens, ev.Result)
			}
		}
	}
	vals = append(vals, e.unbox(e.ts.mk("pure", "reflect.(Value).Interface", anyType, src), T))
	vals = append(vals, e.ts.mk("pure", "reflect.(Value).String", basic(types.String), src))
	if T.Obj().Name() == "NULLString" {
		// the length is never negative
		for _, l := range lens {
			if v, k := e.evalBool(st, e.le0(toLin(l))); k {
				return v, k
			}
		}
	}
	for _, v := range vals {
		switch T.Obj().Name() {
		case "NULLString":
			if z, k := e.evalBool(st, e.eqTerm(e.lenOf(v), e.ts.intTerm(0), basic(types.Int))); k {
				return z, k
			}
		case "Time":
			if z, k := timeZero(e, st, v); k {
				return z, k
			}
		case "ID":
			num := r.p.Method("", "ID", "UInt64")
			if num == nil || isString(v.typ) {
				continue
			}
			res, ok := false, false
			first := true
			for _, x := range e.Run(num, st.clone(), []*Term{v}) {
				if x.Panic {
					continue
				}
				z, k := e.isZeroTerm(x.St, x.Results[0], basic(types.Uint64))
				if !k || !first && z != res {
					ok = false
					break
				}
				res, ok, first = z, true, false
			}
			if ok {
				return res, true
			}
		}
	}
	return false, false
}
