package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C08"] = propRule{run: runC08, title: "Row queries return every row once, in order"}
	rules["F03"] = propRule{run: runF03, title: "Pagination results", assum: []string{
		"A list has fewer than 2^31 rows."}}
	rules["F04"] = propRule{run: runF04, title: "Cursors decode to what was encoded"}
}

// calls returns the call events with the given qualified name suffix.
func callsNamed(st *State, name string) []*Event {
	var r []*Event
	for _, ev := range st.events() {
		if ev.Kind == "call" && isNamed(ev.Callee, name) {
			r = append(r, ev)
		}
	}
	return r
}

// isNamed: callee is pkg.name or pkg/sub.(T).name.
func isNamed(callee, name string) bool {
	return callee == name || strings.HasSuffix(callee, "/"+name)
}

// innermost data behind an interface
func unIface(t *Term) *Term {
	for t != nil && t.op == "iface" {
		t = t.args[0]
	}
	return t
}

// siteIn: the allocation is made by an instruction inside the loop.
func (e *Engine) madeInLoop(rec *LoopRec, t *Term) bool {
	if t == nil || !isFresh(t) || t.site == nil {
		return false
	}
	if rec.Blocks[t.site.Block()] {
		return true
	}
	// in a function that is called in the loop: its context begins with the call
	pre := rec.Ctx + "@" + rec.Fn.String() + "#"
	if !strings.HasPrefix(t.aux, pre) {
		return false
	}
	b := strings.SplitN(t.aux[len(pre):], ".", 2)[0]
	for x := range rec.Blocks {
		if fmt.Sprint(x.Index) == b {
			return true
		}
	}
	return false
}

// rowsList: list consists of one freshly scanned object per row of rows, in the order of the rows.
func rowsList(e *Engine, st *State, list, rows *Term) string {
	evs := st.events()
	for i, ev := range evs {
		if ev.Kind != "loop" {
			continue
		}
		for _, s := range ev.Loop.Slots {
			if s.Sym != list {
				continue
			}
			if v, k := e.evalBool(st, e.eqTerm(e.lenOf(s.Entry), e.ts.intTerm(0), basic(types.Int))); !k || !v {
				return "the list is not empty before the first row"
			}
			if len(ev.Loop.Iters) == 0 {
				return "the loop has no complete iteration"
			}
			for _, be := range evs[:i] {
				if be.Kind == "call" && (isNamed(be.Callee, "database/sql.(Rows).Next") || isNamed(be.Callee, "database/sql.(Rows).NextResultSet")) && unIface(be.Args[0]) == rows {
					return "a row is skipped before the loop"
				}
			}
			for _, it := range ev.Loop.Iters {
				next, scan, app := 0, 0, 0
				var m *Term
				for _, ie := range it {
					switch {
					case ie.Kind == "call" && isNamed(ie.Callee, "database/sql.(Rows).NextResultSet"):
						return "a result set is skipped"
					case ie.Kind == "call" && isNamed(ie.Callee, "database/sql.(Rows).Next"):
						next++
						if unIface(ie.Args[0]) != rows {
							return "Next is called on other rows"
						}
						if scan > 0 {
							return "a row is skipped: Next follows ScanRow in one iteration"
						}
					case ie.Kind == "call" && isNamed(ie.Callee, "xdb.(RowScanner).ScanRow"):
						scan++
						m = unIface(ie.Args[0])
						if unIface(ie.Args[1]) != rows {
							return "another row is scanned"
						}
					case ie.Kind == "append" && ie.Result != nil && len(ie.Result.args) > 0 && ie.Args[0] == s.Sym:
						app++
						if len(ie.Result.args) != 2 || unIface(ie.Result.args[1]) != m || m == nil {
							return "the appended element is not the object that scanned the row"
						}
					}
				}
				if next != 1 || scan != 1 || app != 1 {
					return "an iteration does not read, scan and append exactly one row"
				}
				if !e.madeInLoop(ev.Loop, m) {
					return "the rows are scanned into a shared object"
				}
			}
			for _, b := range s.Backs {
				if b.op != "append" || b.args[0] != s.Sym || len(b.args) != 2 {
					return "an iteration does not append one element to the list"
				}
			}
			for _, ae := range evs[i+1:] {
				if ae.Kind == "call" && isNamed(ae.Callee, "database/sql.(Rows).Next") && unIface(ae.Args[0]) == rows {
					if v, k := e.evalBool(st, ae.Result); k && !v {
						return ""
					}
				}
			}
			return "the list is complete before Next has told that there are no more rows"
		}
	}
	return "the list is not filled by a loop over the rows"
}

type listFn struct{ name, set string }

var listFns = []listFn{
	{"ExecuteListQuery", ""},
	{"ExecuteQuery", "xdb.(Result).SetResult"},
	{"ExecuteQueryWithPagination", "xdb.(Result).SetResult"},
	{"ExecuteQueryWithCursor", "xdb.(ResultWithCursor).SetResultWithCursor"},
}

// paramByType returns the argument whose parameter has the type.
func paramNamed(rr *runRes, pred func(types.Type) bool) *Term {
	for i, p := range rr.fn.Params {
		if pred(p.Type()) {
			return rr.args[i]
		}
	}
	return nil
}

func isAnySlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	i, ok := s.Elem().Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

func isContext(t types.Type) bool { return typeName(t) == "context.Context" }

func isXDB(t types.Type) bool { return typeName(t) == modPath+".DB" }

// queryArgs: what the statement must be executed with on the path; ok is false if the path does not decide it.
func queryArgs(rr *runRes, st *State, fromParams bool) (want *Term, qp *Term, ok bool) {
	e := rr.e
	args := paramNamed(rr, isAnySlice)
	if !fromParams {
		return args, nil, true
	}
	one := e.eqTerm(e.lenOf(args), e.ts.intTerm(1), basic(types.Int))
	v, k := e.evalBool(st, one)
	if k && !v {
		return args, nil, true
	}
	x := e.load(newState(), e.ts.mk("index", "", types.NewPointer(anyType), args, e.ts.intTerm(0)), anyType)
	is, k2 := e.evalBool(st, e.isTerm(x, e.p.Named("", "QueryParams")))
	if k2 && !is {
		return args, nil, true
	}
	if !k || !k2 {
		return nil, nil, false
	}
	for _, ev := range callsNamed(st, "xdb.(QueryParams).Args") {
		if unIface(ev.Args[0]) == x {
			return ev.Result, x, true
		}
	}
	return nil, x, true
}

var anyType = types.NewInterfaceType(nil, nil)

func runC08(r *Report) {
	r.rule("a list query executes the given statement once, on the given connection and context, with the given arguments (of the query parameters, if they are given)")
	r.rule("every row is scanned into an object of its own, and appended once, in the order of the rows; this list is what the caller gets")
	r.rule("a single-row query returns the object that scanned the row of the given statement")
	n := 0
	for _, lf := range listFns {
		f := r.p.Func("", lf.name)
		if f == nil {
			r.missing(lf.name)
			continue
		}
		n++
		key := "list:" + lf.name
		rr := r.run(f, nil)
		ctx, db := paramNamed(rr, isContext), paramNamed(rr, isXDB)
		query := paramNamed(rr, isString)
		okExit := false
		for _, x := range rr.returns() {
			qs := callsNamed(x.St, "xdb.(DB).QueryContext")
			for _, o := range []string{"xdb.(DB).QueryRowContext", "xdb.(DB).ExecContext"} {
				r.check(len(callsNamed(x.St, o)) == 0, key, x.Pos, "%s executes another statement", lf.name)
			}
			if !r.check(len(qs) == 1, key, x.Pos, "%s executes %d statements", lf.name, len(qs)) {
				continue
			}
			q := qs[0]
			want, _, ok := queryArgs(rr, x.St, lf.set != "")
			if !r.check(len(q.Args) == 4 && q.Args[0] == db && q.Args[1] == ctx && q.Args[2] == query, key, q.Instr.Pos(), "%s does not execute the given statement on the given connection and context", lf.name) {
				continue
			}
			r.check(ok, key, q.Instr.Pos(), "%s does not look for query parameters before it executes the statement", lf.name)
			r.check(!ok || want != nil && q.Args[3] == want, key, q.Instr.Pos(), "%s executes the statement with %s, not with the given arguments", lf.name, q.Args[3])
			rows := q.results()[0]
			var list *Term
			var sets []*Event
			if lf.set != "" {
				sets = callsNamed(x.St, lf.set)
			}
			if !rr.succeeds(x) {
				r.check(len(sets) == 0, key, x.Pos, "%s stores a result and fails", lf.name)
				continue
			}
			okExit = true
			if lf.set == "" {
				list = x.Results[0]
			} else {
				if !r.check(len(sets) == 1, key, x.Pos, "%s succeeds with %d results stored", lf.name, len(sets)) {
					continue
				}
				list = sets[0].Args[1]
			}
			msg := rowsList(rr.e, x.St, list, rows)
			r.check(msg == "", key, x.Pos, "%s: %s", lf.name, msg)
		}
		r.check(okExit, key, token.NoPos, "%s never succeeds", lf.name)
	}
	if f := r.p.Func("", "QueryRow"); f == nil {
		r.missing("QueryRow")
	} else {
		n++
		key := "row:QueryRow"
		rr := r.run(f, nil)
		ctx, db, query, args := paramNamed(rr, isContext), paramNamed(rr, isXDB), paramNamed(rr, isString), paramNamed(rr, isAnySlice)
		okExit := false
		for _, x := range rr.returns() {
			qs := callsNamed(x.St, "xdb.(DB).QueryRowContext")
			if !r.check(len(qs) == 1, key, x.Pos, "QueryRow executes %d statements", len(qs)) {
				continue
			}
			q := qs[0]
			r.check(len(q.Args) == 4 && q.Args[0] == db && q.Args[1] == ctx && q.Args[2] == query && q.Args[3] == args, key, q.Instr.Pos(),
				"QueryRow does not execute the given statement with the given arguments")
			sc := callsNamed(x.St, "xdb.(RowScanner).ScanRow")
			if !r.check(len(sc) == 1 && unIface(sc[0].Args[1]) == q.Result, key, x.Pos, "QueryRow does not scan the row once") {
				continue
			}
			if rr.succeeds(x) {
				okExit = true
				nl, k := rr.e.nilness(x.St, sc[0].results()[len(sc[0].results())-1])
				r.check(k && nl, key, x.Pos, "QueryRow succeeds although scanning the row may have failed")
				m := unIface(x.Results[0])
				r.check(m == unIface(sc[0].Args[0]) && isFresh(m), key, x.Pos, "QueryRow does not return the object that scanned the row")
			}
		}
		r.check(okExit, key, token.NoPos, "QueryRow never succeeds")
	}
	r.atLeast(n, 5, "row query functions")
}

// pageArgument decides the conversion for any argument: the number is the one of an integer, and of a named argument the one of its value.
func (r *Report) pageArgument(f *ssa.Function) {
	key := "param:any"
	NT := r.p.sqlNamed("NamedArg")
	if NT == nil {
		r.missing("sql.NamedArg")
		return
	}
	rr := r.run(f, func(e *Engine, st *State, args []*Term) {
		e.Inline = func(g *ssa.Function, d int) bool { return g != f }
		e.OnCall = func(e *Engine, st *State, c *Call) *Outcome {
			if c.Fn == f {
				return quietCall(e, st, c)
			}
			return nil
		}
	})
	e := rr.e
	arg := rr.args[0]
	// value of a named argument
	isValueOf := func(st *State, t, cur *Term) bool {
		v, k := e.evalBool(st, e.isTerm(cur, NT))
		return k && v && t.op == "fieldof" && strings.HasSuffix(t.aux, ".Value") && t.args[0] == e.unbox(cur, NT)
	}
	cur := map[*Term]bool{arg: true}
	for _, x := range rr.exits {
		for _, ev := range x.St.events() {
			if ev.Kind != "loop" {
				continue
			}
			for _, sl := range ev.Loop.Slots {
				ok := sl.Entry == arg && len(sl.Backs) > 0
				for i, b := range sl.Backs {
					ok = ok && (b == sl.Sym || isValueOf(ev.Loop.Backs[i], b, sl.Sym))
				}
				if ok {
					cur[sl.Sym] = true
				}
			}
		}
	}
	ints := []types.BasicKind{types.Int, types.Uint32, types.Int64, types.Uint64, types.Uint, types.Int32, types.Uint16, types.Int16, types.Uint8, types.Int8}
	named := false
	for _, x := range rr.returns() {
		ok := false
		for c := range cur {
			for _, k := range ints {
				T := basic(k)
				if v, kn := e.evalBool(x.St, e.isTerm(c, T)); !kn || !v {
					continue
				}
				v := e.unbox(c, T)
				st := x.St.clone()
				if e.constrain(st, v, bi(0), bi(1<<32-1)); e.sameInt(st, x.Results[0], v, false) {
					ok = true
				}
			}
			for _, ev := range x.St.events() {
				if ev.Kind == "call" && ev.Fn == f && ev.Result == x.Results[0] && len(ev.Args) == 1 && isValueOf(x.St, ev.Args[0], c) {
					ok, named = true, true
				}
			}
			named = named || c != arg
		}
		r.check(ok, key, x.Pos, "a page argument denotes %s, which is not its number or that of its value", x.Results[0])
	}
	r.check(named, key, f.Pos(), "a named page argument never denotes its value")
	for _, x := range rr.exits {
		if !x.Panic {
			continue
		}
		for c := range cur {
			for _, T := range []types.Type{basic(types.Int), basic(types.Uint32), NT} {
				if v, k := e.evalBool(x.St, e.isTerm(c, T)); k && v {
					r.check(false, key, x.Pos, "a page argument of type %s can be rejected", typeKey(T))
				}
			}
		}
	}
}

// sqlNamed is a type of database/sql.
func (p *Program) sqlNamed(name string) types.Type {
	for _, pk := range p.pkgs {
		for _, im := range pk.Types.Imports() {
			if im.Path() == "database/sql" {
				if o := im.Scope().Lookup(name); o != nil {
					return o.Type()
				}
			}
		}
	}
	return nil
}

func runF03(r *Report) {
	r.rule("the next page is announced exactly if a limit is set and the list is not shorter than the limit; the next offset is then the offset plus the number of rows, and 0 otherwise")
	r.rule("limit and offset are the ones of the query parameters, or the last two arguments of the statement (limit is the last argument with a cursor); without them there is no next page")
	r.rule("a page argument denotes its own number: int, uint32 or a named argument; any other type is rejected")
	n := 0
	for _, lf := range listFns[1:] {
		f := r.p.Func("", lf.name)
		if f == nil {
			r.missing(lf.name)
			continue
		}
		n++
		key := "page:" + lf.name
		pageParam := r.p.Func("", "PageParam")
		rr := r.run(f, func(e *Engine, st *State, args []*Term) {
			e.MaxLen = bi(1<<31 - 1)
			e.OnCall = func(e *Engine, st *State, c *Call) *Outcome {
				if c.Fn == pageParam && c.Fn != nil {
					// decided on its own below
					t := e.ts.mk("pageof", "", c.Fn.Signature.Results().At(0).Type(), c.Args[0])
					return &Outcome{States: []*State{st}, Results: []*Term{t}}
				}
				return nil
			}
		})
		e := rr.e
		number := func(st *State, arg *Term) *Term {
			return e.ts.mk("pageof", "", pageParam.Signature.Results().At(0).Type(), arg)
		}
		args := paramNamed(rr, isAnySlice)
		ln := e.lenOf(args)
		at := func(st *State, i int64) *Term {
			return e.load(newState(), e.ts.mk("index", "", types.NewPointer(anyType), args, e.ts.add(ln, e.ts.intTerm(-i), basic(types.Int))), anyType)
		}
		for _, x := range rr.returns() {
			sets := callsNamed(x.St, lf.set)
			if !rr.succeeds(x) {
				r.check(len(sets) == 0, key, x.Pos, "%s hands out a result and fails", lf.name)
				continue
			}
			if len(sets) != 1 {
				r.check(false, key, x.Pos, "%s stores %d results", lf.name, len(sets))
				continue
			}
			set := sets[0]
			list, has := set.Args[1], set.Args[2]
			var next *Term
			if strings.HasSuffix(lf.set, "SetResult") {
				next = set.Args[3]
			}
			zero := e.ts.intTerm(0)
			limit, offset := zero, zero
			decided := true
			if lf.name != "ExecuteQuery" {
				_, qp, ok := queryArgs(rr, x.St, true)
				two, k := e.evalBool(x.St, e.le0(linAdd(lin{c: bi(2)}, toLin(ln), -1)))
				switch {
				case !ok || !k:
					decided = false
				case qp != nil:
					m := "xdb.(PageableByOffset).Page"
					if lf.name == "ExecuteQueryWithCursor" {
						m = "xdb.(PageableByCursor).Cursor"
					}
					limit, offset = nil, nil
					for _, ev := range callsNamed(x.St, m) {
						if unIface(ev.Args[0]) == qp {
							limit, offset = ev.results()[0], ev.results()[1]
						}
					}
				case two && lf.name == "ExecuteQueryWithCursor":
					limit = number(x.St, at(x.St, 1))
				case two:
					limit, offset = number(x.St, at(x.St, 2)), number(x.St, at(x.St, 1))
				}
			}
			if !r.check(decided, key, x.Pos, "%s does not look at its arguments", lf.name) {
				continue
			}
			if !r.check(limit != nil && (offset != nil || next == nil), key, x.Pos, "%s does not take the limit and offset from its arguments", lf.name) {
				continue
			}
			count := e.lenOf(list)
			yes, no := x.St.clone(), x.St.clone()
			limited := e.not(e.le0(toLin(limit)))                 // limit > 0
			full := e.le0(linAdd(toLin(limit), toLin(count), -1)) // limit <= count
			if e.assume(yes, has, true) {
				a, k1 := e.evalBool(yes, limited)
				b, k2 := e.evalBool(yes, full)
				r.check(k1 && a, key, x.Pos, "%s announces a next page although no limit is set", lf.name)
				r.check(k2 && b, key, x.Pos, "%s announces a next page although the list is shorter than the limit", lf.name)
				if next != nil {
					r.check(e.sameInt(yes, next, e.ts.add(offset, count, basic(types.Uint32)), false), key, x.Pos, "%s: the next offset is %s, not the offset plus the number of rows", lf.name, next)
				}
			}
			if e.assume(no, has, false) {
				if next != nil {
					z, k := e.isZeroTerm(no, next, basic(types.Uint32))
					r.check(k && z, key, x.Pos, "%s: the next offset is not 0 without a next page", lf.name)
				}
				// then there is no limit, or the list is shorter
				more := e.assume(no, limited, true) && e.assume(no, full, true)
				r.check(!more, key, x.Pos, "%s announces no next page although the limit is reached", lf.name)
			}
			if strings.HasSuffix(lf.set, "WithCursor") {
				var cur *Term
				for i, p := range rr.fn.Params {
					if _, ok := p.Type().Underlying().(*types.Signature); ok {
						cur = rr.args[i]
					}
				}
				r.check(unIface(set.Args[3]) == cur, key, x.Pos, "%s does not hand out the cursor function", lf.name)
			}
		}
	}
	if f := r.p.Func("", "PageParam"); f == nil {
		r.missing("PageParam")
	} else {
		n++
		for _, D := range []types.Type{basic(types.Int), basic(types.Uint32), basic(types.Int64), basic(types.String), basic(types.Bool), basic(types.Float64), nil, r.p.sqlNamed("NamedArg")} {
			key := "param:" + typeKey(D)
			var v *Term
			rr := r.run(f, func(e *Engine, st *State, args []*Term) {
				if D == nil {
					args[0] = e.ts.nilTerm()
					return
				}
				v = e.ts.mk("param", "value", D)
				args[0] = e.ts.iface(D, v)
				if isInteger(D) {
					e.constrain(st, v, bi(0), bi(1<<32-1))
				}
			})
			rets := rr.returns()
			switch {
			case D != nil && (types.Identical(D, basic(types.Int)) || types.Identical(D, basic(types.Uint32))):
				r.check(len(rets) > 0, key, f.Pos(), "a page argument of type %s is rejected", typeKey(D))
				r.check(len(rets) == len(rr.exits), key, f.Pos(), "a page argument of type %s can be rejected", typeKey(D))
				for _, x := range rets {
					r.check(rr.e.sameInt(x.St, x.Results[0], v, false), key, x.Pos, "a page argument of type %s denotes %s", typeKey(D), x.Results[0])
				}
			case D != nil && typeName(D) == "database/sql.NamedArg":
				r.check(len(rets) > 0, key, f.Pos(), "a named page argument is rejected")
			default:
				if D != nil && isInteger(D) {
					// a wider integer may be accepted, with its own number
					for _, x := range rets {
						r.check(rr.e.sameInt(x.St, x.Results[0], v, false), key, x.Pos, "a page argument of type %s denotes %s", typeKey(D), x.Results[0])
					}
					continue
				}
				r.check(len(rets) == 0, key, f.Pos(), "a page argument of type %s is accepted", typeKey(D))
			}
		}
		r.pageArgument(f)
	}
	r.atLeast(n, 4, "paging functions")
	_ = big.NewInt
}

// ---- F04: cursors

// codec describes a text encoding by the object whose method is used.
func codecCalls(st *State, method string) (codec, in, out, err *Term, n int) {
	for _, ev := range st.events() {
		if ev.Kind == "call" && strings.HasSuffix(ev.Callee, "."+method) && strings.HasPrefix(ev.Callee, "encoding/") {
			n++
			codec, in = ev.Args[0], ev.Args[1]
			rs := ev.results()
			out = rs[0]
			if len(rs) > 1 {
				err = rs[1]
			}
		}
	}
	return
}

// encodedInto: res is the text of a fresh buffer of the encoded length that the bytes in are encoded into.
func encodedInto(e *Engine, st *State, res *Term) (codec, in *Term, ok bool) {
	buf := bytesText(res)
	if res.op == "str" {
		buf = res.args[0]
	}
	n := 0
	for _, ev := range st.events() {
		if ev.Kind == "call" && strings.HasPrefix(ev.Callee, "encoding/") && strings.HasSuffix(ev.Callee, ".Encode") && len(ev.Args) == 3 {
			n++
			codec, in = ev.Args[0], ev.Args[2]
			ok = buf != nil && ev.Args[1] == buf && isFresh(buf)
			ln := e.lenOf(ev.Args[1])
			good := false
			for _, le := range st.events() {
				if le.Kind == "call" && strings.HasSuffix(le.Callee, ".EncodedLen") && len(le.Args) == 2 && le.Args[0] == codec && le.Result == ln {
					good = e.sameInt(st, le.Args[1], e.lenOf(in), false)
				}
			}
			if ln.op == "pure" && strings.HasSuffix(ln.aux, ".EncodedLen") && ln.args[0] == codec {
				good = e.sameInt(st, ln.args[1], e.lenOf(in), false)
			}
			ok = ok && good
		}
	}
	return codec, in, ok && n == 1
}

func runF04(r *Report) {
	r.rule("the encoded cursor is the text encoding of the JSON of the given value, and nothing else")
	r.rule("decoding applies the same text encoding and parses the whole JSON into the returned value; both errors are returned")
	enc, dec := r.p.Func("", "EncodeCursor"), r.p.Func("", "DecodeCursor")
	if enc == nil || dec == nil {
		r.missing("EncodeCursor, DecodeCursor")
		return
	}
	var name string
	e1 := r.run(enc, nil)
	for _, x := range e1.returns() {
		key := "encode:EncodeCursor"
		c, in, out, _, n := codecCalls(x.St, "EncodeToString")
		if c2, in2, ok := encodedInto(e1.e, x.St, x.Results[0]); n == 0 && ok {
			c, in, out, n = c2, in2, x.Results[0], 1
		}
		if !r.check(n == 1 && x.Results[0] == out, key, x.Pos, "the cursor is %s, not an encoded text", x.Results[0]) {
			continue
		}
		name = c.String()
		r.check(jsonOf(x.St, bytesText(in), in, e1.args[0]), key, x.Pos, "the cursor encodes %s, not the JSON of the value", in)
	}
	e2 := r.run(dec, nil)
	ok := false
	for _, x := range e2.returns() {
		key := "decode:DecodeCursor"
		if !e2.succeeds(x) {
			continue
		}
		ok = true
		c, in, out, err, n := codecCalls(x.St, "DecodeString")
		if !r.check(n == 1 && in == e2.args[0], key, x.Pos, "the cursor text is not decoded") {
			continue
		}
		r.check(c.String() == name, key, x.Pos, "the cursor is encoded with %s and decoded with %s", name, c)
		nl, k := e2.e.nilness(x.St, err)
		r.check(k && nl, key, x.Pos, "the error of the text encoding is ignored")
		found := false
		for _, ev := range x.St.events() {
			if ev.Kind == "call" && strings.HasSuffix(ev.Callee, "json.Unmarshal") && ev.Args[0] == out {
				nl, k := e2.e.nilness(x.St, ev.Result)
				dst := unIface(ev.Args[1])
				if k && nl && isFresh(dst) && x.Results[0] == e2.e.load(x.St, dst, ptrElem(dst)) {
					found = true
				}
			}
		}
		r.check(found, key, x.Pos, "the returned value is not the parsed JSON of the cursor")
	}
	r.check(ok, "decode:DecodeCursor", dec.Pos(), "no cursor is ever decoded")
}

// jsonOf: the text (or bytes) is the JSON encoding of v.
func jsonOf(st *State, text, bytes, v *Term) bool {
	for _, ev := range st.events() {
		if ev.Kind != "call" {
			continue
		}
		if strings.HasSuffix(ev.Callee, "(MapAny).JSON") && len(ev.Args) == 1 && ev.Args[0] == v && ev.Result == text {
			return true
		}
		if strings.HasSuffix(ev.Callee, "json.Marshal") && len(ev.Args) == 1 && unIface(ev.Args[0]) == v && ev.results()[0] == bytes {
			return true
		}
	}
	return false
}

var _ = ssa.BuilderMode(0)
