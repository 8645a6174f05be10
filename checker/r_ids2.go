package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- predicates, Reset, parsing without an error, lists of texts, sorted lists

// unparsable: on the path the text arg is not that of a number other than zero.
func unparsable(e *Engine, st *State, arg *Term) bool {
	if nullText(e, st, arg) {
		return true
	}
	isParse := func(t *Term) bool {
		return t.op == "extract" && t.args[0].op == "pure" && strings.HasPrefix(t.args[0].aux, "strconv.Parse") && len(t.args[0].args) > 0 && textOf(t.args[0].args[0], arg)
	}
	bad := false
	see := func(t *Term) {
		t.any(func(u *Term) bool {
			if !isParse(u) {
				return false
			}
			c := u.args[0]
			if n, k := e.nilness(st, e.ts.mk("extract", "1", errorType, c)); k && !n {
				bad = true
			}
			num := u
			if u.aux != "0" {
				num = e.ts.mk("extract", "0", types.Typ[types.Uint64], c)
			}
			if z, k := e.evalBool(st, e.eqTerm(num, e.ts.intTerm(0), num.typ)); k && z {
				bad = true
			}
			return bad
		})
	}
	for t := range st.b {
		see(t)
	}
	for t := range st.iv {
		see(t)
	}
	return bad
}

// runParseVariants: MustID and TryParseID.
func runParseVariants(r *Report) {
	must, try := r.p.Func("", "MustID"), r.p.Func("", "TryParseID")
	if must == nil {
		r.missing("MustID")
	} else {
		rr := r.run(must, nil)
		n := 0
		for _, x := range rr.exits {
			if x.Panic {
				r.check(unparsable(rr.e, x.St, rr.args[0]), "parse:MustID", x.Pos, "MustID panics although the text is that of an ID")
				continue
			}
			for _, q := range numberOf(r, rr, x, flatTerms(x.Results)[0], "ID") {
				n++
				z, k := rr.e.evalBool(q.st, rr.e.eqTerm(q.v, rr.e.ts.intTerm(0), basic(types.Uint64)))
				r.check(parsedNumber(rr, q.st, q.v, rr.args[0], false) && k && !z, "parse:MustID", x.Pos, "MustID returns %s", q.v)
			}
		}
		r.check(n > 0, "parse:MustID", must.Pos(), "MustID never returns")
	}
	if try == nil {
		r.missing("TryParseID")
		return
	}
	rr := r.run(try, nil)
	n := 0
	for _, x := range rr.exits {
		if x.Panic {
			r.check(false, "parse:TryParseID", x.Pos, "TryParseID panics")
			continue
		}
		for _, q := range numberOf(r, rr, x, flatTerms(x.Results)[0], "ID") {
			if parsedNumber(rr, q.st, q.v, rr.args[0], false) {
				n++
				r.check(true, "parse:TryParseID", x.Pos, "")
				continue
			}
			r.check(q.v.isInt(0) && unparsable(rr.e, q.st, rr.args[0]), "parse:TryParseID", x.Pos, "TryParseID returns %s", q.v)
		}
	}
	r.check(n > 0, "parse:TryParseID", try.Pos(), "TryParseID never returns the number of the text")
}

// runPredicates: Valid, Invalid, IsZero, Reset.
func runPredicates(r *Report) {
	for name, zero := range map[string]bool{"Valid": false, "Invalid": true, "IsZero": true} {
		f := r.method("ID", name)
		if f == nil {
			continue
		}
		key := "zero:" + name
		rr := r.run(f, nil)
		n := 0
		for _, x := range boolCases(rr) {
			v, k := rr.e.evalBool(x.St, x.Results[0])
			if !r.check(k, key, x.Pos, "ID.%s is %s", name, x.Results[0]) {
				continue
			}
			for _, q := range numberOf(r, rr, x, rr.args[0], "ID") {
				n++
				z, k := rr.e.evalBool(q.st, rr.e.eqTerm(q.v, rr.e.ts.intTerm(0), basic(types.Uint64)))
				r.check(k && z == (v == zero), key, x.Pos, "ID.%s can be %v for an ID that is zero or for one that is not", name, v)
			}
		}
		r.check(n > 1, key, f.Pos(), "ID.%s does not depend on the number", name)
	}
	if f := r.method("ID", "Reset"); f != nil {
		rr := r.run(f, nil)
		n := 0
		for _, x := range rr.returns() {
			for _, q := range numberOf(r, rr, x, rr.final(x, 0), "ID") {
				n++
				z, k := rr.e.evalBool(q.st, rr.e.eqTerm(q.v, rr.e.ts.intTerm(0), basic(types.Uint64)))
				r.check(k && z, "zero:Reset", x.Pos, "an ID has the number %s after Reset", q.v)
			}
		}
		r.check(n > 0, "zero:Reset", f.Pos(), "Reset never returns")
	}
}

// fromStrings: IDArrayFromStrings adds the IDs of the texts that are IDs, and only those.
func runFromStrings(r *Report, add *ssa.Function) {
	f := r.p.Func("", "IDArrayFromStrings")
	if f == nil {
		r.missing("IDArrayFromStrings")
		return
	}
	key := "set:IDArrayFromStrings"
	rr := r.run(f, func(e *Engine, st *State, args []*Term) {
		e.OnCall = func(e *Engine, st *State, c *Call) *Outcome {
			if c.Fn == add {
				return quietCall(e, st, c) // it does not write to lists
			}
			return nil
		}
	})
	e := rr.e
	for _, x := range rr.returns() {
		res := x.Results[0]
		if e.isEmptyList(x.St, rr.args[0]) && e.isEmptyList(x.St, res) {
			r.check(true, key, x.Pos, "")
			continue
		}
		ok := false
		for _, ev := range x.St.events() {
			if ev.Kind != "loop" {
				continue
			}
			idx := loopOver(e, x.St, ev.Loop, rr.args[0])
			if idx == nil {
				continue
			}
			for _, sl := range ev.Loop.Slots {
				if sl.Sym != res || !e.isEmptyList(x.St, sl.Entry) {
					continue
				}
				ok = true
				adds := 0
				for k, b := range sl.Backs {
					bs := ev.Loop.Backs[k]
					text := e.load(bs, e.ts.mk("index", "", types.NewPointer(types.Typ[types.String]), rr.args[0], idx), types.Typ[types.String])
					if b == sl.Sym {
						r.check(unparsable(e, bs, text), key, x.Pos, "the ID of a text can be missing")
						continue
					}
					added := false
					for _, ie := range ev.Loop.Iters[k] {
						if ie.Kind != "call" || ie.Fn != add || ie.Result != b || ie.Args[0] != sl.Sym {
							continue
						}
						y := *x
						y.St = bs
						for _, q := range numberOf(r, rr, &y, ie.Args[1], "ID") {
							added = parsedNumber(rr, q.st, q.v, text, false)
							if !added {
								break
							}
						}
					}
					adds++
					r.check(added, key, x.Pos, "a text adds something else than its ID")
				}
				ok = ok && adds > 0
			}
		}
		r.check(ok, key, x.Pos, "IDArrayFromStrings returns %s: not every text is looked at", res)
	}
}

// runSorted: Sort returns the IDs in ascending order of their numbers.
func runSorted(r *Report) {
	f := r.method("IDArray", "Sort")
	num := r.method("ID", "UInt64")
	if f == nil || num == nil {
		return
	}
	key := "set:Sort"
	good := map[*Event]bool{}
	rr := r.run(f, func(e *Engine, st *State, args []*Term) {
		none := map[*Event]*sorted{}
		sm := sortModel(none)
		e.OnCall = func(e *Engine, st *State, c *Call) *Outcome {
			if !isSort(generic(c.Name)) {
				return sm(e, st, c)
			}
			ok := sortsBy(e, st, c, num)
			o := quietCall(e, st, c)
			good[st.log.ev] = ok
			return o
		}
	})
	e := rr.e
	n := 0
	for _, x := range rr.returns() {
		list, res := rr.args[0], x.Results[0]
		if res == list {
			if v, k := e.evalBool(x.St, e.le0(linAdd(toLin(e.lenOf(list)), toLin(e.ts.intTerm(1)), -1))); k && v {
				r.check(true, key, x.Pos, "")
				continue
			}
		}
		ok, changed := false, false
		for _, ev := range x.St.events() {
			if ev.Kind == "call" && len(ev.Args) > 0 && good[ev] {
				if l := unListType(unIface(ev.Args[0])); l == unListType(res) || sameVal(l, res) {
					ok = true
					continue
				}
			}
			if ok && ev.Kind == "store" && root(ev.Args[0]) == root(res) {
				changed = true
			}
		}
		same := res == list
		if !same {
			for _, ev := range x.St.events() {
				if ev.Kind == "append" && ev.Result == res && len(ev.Args) > 0 {
					same = res.op == "appendv" && e.isEmptyList(x.St, res.args[0]) && res.args[1] == list
				}
			}
			same = same || isPure(res, "slices.Clone") && res.args[0] == list
		}
		n++
		r.check(ok && !changed && same, key, x.Pos, "Sort returns %s, which is not the list in ascending order of the numbers", res)
	}
	r.check(n > 0, key, f.Pos(), "Sort never sorts")
}

func unListType(t *Term) *Term {
	for t.op == "conv" && len(t.args) == 1 {
		if _, ok := t.typ.Underlying().(*types.Slice); !ok {
			break
		}
		t = t.args[0]
	}
	return t
}

// sortsBy: the comparison of the sort orders the elements by the number that the method num gives.
func sortsBy(e *Engine, st *State, c *Call, num *ssa.Function) bool {
	if len(c.Args) == 0 {
		return false
	}
	list := unListType(unIface(c.Args[0]))
	sl, ok := list.typ.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	el := sl.Elem()
	i, j := e.ts.mk("sym", "i", types.Typ[types.Int]), e.ts.mk("sym", "j", types.Typ[types.Int])
	base := st.clone()
	for _, ix := range []*Term{i, j} {
		e.assume(base, e.le0(linAdd(toLin(e.ts.intTerm(0)), toLin(ix), -1)), true)
		e.assume(base, lessTerm(e, ix, e.lenOf(list)), true)
	}
	e.assume(base, e.eqTerm(i, j, types.Typ[types.Int]), false)
	at := func(ix *Term) *Term {
		return e.load(base, e.ts.mk("index", "", types.NewPointer(el), list, ix), el)
	}
	a, b := at(i), at(j)
	var f *Term
	var args []*Term
	cmp := false
	switch generic(c.Name) {
	case "sort.Slice", "sort.SliceStable":
		f, args = c.Args[1], []*Term{i, j}
	case "slices.SortFunc", "slices.SortStableFunc":
		f, args, cmp = c.Args[1], []*Term{a, b}, true
	case "sort.Sort", "sort.Stable":
		if c.Args[0].op != "iface" {
			return false
		}
		less := lessMethod(e.p, c.Args[0].T)
		if less == nil {
			return false
		}
		f, args = &Term{op: "func", fn: less}, []*Term{unIface(c.Args[0]), i, j}
	default:
		return false
	}
	if f == nil || f.fn == nil || f.fn.Blocks == nil {
		return false
	}
	e.quiet++
	defer func() { e.quiet-- }()
	n := 0
	nf := &Term{op: "func", fn: num}
	for _, xa := range e.runBound(nf, base.clone(), []*Term{a}) {
		for _, xb := range e.runBound(nf, xa.St.clone(), []*Term{b}) {
			ka, kb := xa.Results[0], xb.Results[0]
			for _, up := range []bool{true, false} {
				s := xb.St.clone()
				p, q := ka, kb
				if !up {
					p, q = kb, ka
				}
				if !e.ordered(s, p, q) {
					continue // it cannot be so
				}
				for _, ex := range e.runBound(f, s, args) {
					if ex.Panic || len(ex.Results) != 1 {
						return false
					}
					n++
					if cmp {
						b := e.bounds(ex.St, ex.Results[0])
						if !(up && b.hi != nil && b.hi.Sign() < 0 || !up && b.lo != nil && b.lo.Sign() > 0) {
							return false
						}
						continue
					}
					if v, k := e.evalBool(ex.St, ex.Results[0]); !k || v != up {
						return false
					}
				}
			}
		}
	}
	return n > 1
}
