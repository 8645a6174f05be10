package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C04 handles, C05 transactions, C07 goroutines

func init() {
	rules["C04"] = propRule{run: runC04, title: "handles released"}
	rules["C05"] = propRule{run: runC05, title: "transactions"}
	rules["C07"] = propRule{run: runC07, title: "goroutines end"}
}

// provRoles are the fields of SQLProvider by their types.
type provRoles struct {
	typ              *types.Named
	st               *types.Struct
	conn, db, tx     int
	ticker, done, id int
}

func findProv(r *Report) *provRoles {
	n := r.p.Named("", "SQLProvider")
	if n == nil {
		r.missing("type SQLProvider")
		return nil
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		r.missing("struct SQLProvider")
		return nil
	}
	pr := &provRoles{typ: n, st: s, conn: -1, db: -1, tx: -1, ticker: -1, done: -1, id: -1}
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		switch typeName(t) {
		case "database/sql.DB":
			pr.conn = i
		case modPath + ".DB":
			pr.db = i
		case modPath + ".Tx":
			pr.tx = i
		case "time.Ticker":
			pr.ticker = i
		case modPath + "/pkg/flake.IDGenerator":
			pr.id = i
		}
		if _, ok := t.Underlying().(*types.Chan); ok {
			pr.done = i
		}
	}
	if pr.conn < 0 || pr.db < 0 || pr.tx < 0 {
		r.missing("the connection, handle and transaction fields of SQLProvider")
		return nil
	}
	return pr
}

func (pr *provRoles) field(e *Engine, st *State, p *Term, i int) *Term {
	return e.load(st, e.fieldAddr(p, pr.typ, i), pr.st.Field(i).Type())
}

// fields are all values of the provider in the state.
func (pr *provRoles) fields(e *Engine, st *State, p *Term) []*Term {
	var r []*Term
	for i := 0; i < pr.st.NumFields(); i++ {
		r = append(r, pr.field(e, st, p, i))
	}
	return r
}

// isDBCall: an operation of a database handle.
func isDBCall(ev *Event) bool {
	if ev.Kind != "call" {
		return false
	}
	for _, p := range []string{"database/sql.(DB).", "database/sql.(Tx).", "database/sql.(Conn).", modPath + ".(DB).", modPath + ".(Tx).", modPath + ".(Provider)."} {
		if strings.HasPrefix(ev.Callee, p) {
			return true
		}
	}
	return false
}

func method(callee string) string { return callee[strings.LastIndexByte(callee, '.')+1:] }

func dbCalls(evs []*Event) (r []*Event, looped bool) {
	for _, ev := range evs {
		if isDBCall(ev) {
			r = append(r, ev)
		}
		if ev.Kind == "loop" {
			for _, it := range ev.Loop.Iters {
				if l, _ := dbCalls(it); len(l) > 0 {
					looped = true
				}
			}
		}
	}
	return
}

func knownNil(e *Engine, st *State, t *Term) bool {
	n, k := e.nilness(st, t)
	return k && n
}

func knownSet(e *Engine, st *State, t *Term) bool {
	n, k := e.nilness(st, t)
	return k && !n
}

// sameVal: the same value, seen through interfaces and unboxing.
func sameVal(a, b *Term) bool {
	strip := func(t *Term) *Term {
		for t != nil && (t.op == "iface" || t.op == "unbox" || t.op == "chgiface") && len(t.args) > 0 {
			t = t.args[0]
		}
		return t
	}
	return a == b || strip(a) == strip(b)
}

// provState: the receiver with the transaction present or absent.
type provRun struct {
	*runRes
	pr   *provRoles
	p    *Term
	init []*Term
}

func (r *Report) runProv(pr *provRoles, f *ssa.Function, inTx bool, more func(e *Engine, st *State, init []*Term)) *provRun {
	v := &provRun{pr: pr}
	v.runRes = r.run(f, func(e *Engine, st *State, args []*Term) {
		v.p = args[0]
		e.assume(st, e.isNilTerm(args[0]), false)
		v.init = pr.fields(e, st, args[0])
		e.assume(st, e.isNilTerm(v.init[pr.tx]), !inTx)
		if more != nil {
			more(e, st, v.init)
		}
	})
	return v
}

// handle: the term is the handle that the provider has to use: its own, or the transaction or the pool themselves.
func (v *provRun) handle(t *Term, inTx bool) bool {
	if sameVal(t, v.init[v.pr.db]) {
		return true
	}
	if inTx {
		return sameVal(t, v.init[v.pr.tx])
	}
	return sameVal(t, v.init[v.pr.conn])
}

// stored are the values that the path assigns to the field of the provider.
func (v *provRun) stored(x *Exit, i int) []*Term {
	var r []*Term
	a := v.e.fieldAddr(v.p, v.pr.typ, i)
	for _, ev := range allEvents(x.St.events()) {
		if ev.Kind != "store" || len(ev.Args) < 2 {
			continue
		}
		if ev.Args[0] == a {
			r = append(r, ev.Args[1])
		} else if ev.Args[0] == v.p {
			r = append(r, v.e.fieldOf(ev.Args[1], a.aux, v.pr.st.Field(i).Type()))
		}
	}
	return r
}

func (v *provRun) unchanged(x *Exit) (string, bool) {
	for i := range v.init {
		for _, t := range v.stored(x, i) {
			if t != v.init[i] && !(knownNil(v.e, x.St, t) && knownNil(v.e, x.St, v.init[i])) {
				return v.pr.st.Field(i).Name(), false
			}
		}
	}
	return "", true
}

func inTxName(b bool) string {
	if b {
		return "in a transaction"
	}
	return "outside a transaction"
}

func runC05(r *Report) {
	r.rule("routing: each of QueryContext, QueryRowContext and ExecContext makes exactly one call, of the same name, on the handle of the provider, which is the transaction if there is one and the pool otherwise, with the same context, text and arguments, and returns its results")
	r.rule("BeginTx: a provider with a transaction refuses it without a call; otherwise the transaction that the pool begins with the given context and options is both handle and transaction of a new provider with the connection, name, connection string and generator of the original, which stays as it is")
	r.rule("Commit and Rollback: exactly one call on the own transaction, its outcome is returned (a finished transaction is no error for Rollback), the provider keeps its handle; without a transaction an error and no call")
	r.rule("Close of a provider with a transaction: the transaction is rolled back, the pool stays open")
	pr := findProv(r)
	if pr == nil {
		return
	}
	p := r.p
	get := func(name string) *ssa.Function {
		f := p.Method("", "SQLProvider", name)
		if f == nil {
			r.missing("method SQLProvider." + name)
		}
		return f
	}
	for _, name := range []string{"QueryContext", "QueryRowContext", "ExecContext"} {
		f := get(name)
		if f == nil {
			continue
		}
		for _, inTx := range []bool{false, true} {
			v := r.runProv(pr, f, inTx, nil)
			key := name + ":" + inTxName(inTx)
			for _, x := range v.returns() {
				calls, looped := dbCalls(x.St.events())
				r.check(!looped, key, x.Pos, "%s %s sends statements in a loop", name, inTxName(inTx))
				if len(calls) == 0 && hasResult(f, isErrorType) && !v.succeeds(x) {
					continue
				}
				if !r.check(len(calls) == 1, key, x.Pos, "%s %s makes %d calls of the database on a path, not one", name, inTxName(inTx), len(calls)) {
					continue
				}
				c := calls[0]
				r.check(method(c.Callee) == name, key, c.Instr.Pos(), "%s calls %s", name, c.Callee)
				r.check(v.handle(c.Args[0], inTx), key, c.Instr.Pos(), "%s %s uses a handle that is not the provider's: %v", name, inTxName(inTx), c.Args[0])
				for i := 1; i < len(v.args); i++ {
					r.check(i < len(c.Args) && c.Args[i] == v.args[i], key, c.Instr.Pos(), "%s does not pass its argument %s on as it is", name, f.Params[i].Name())
				}
				res := flatTerms(x.Results)
				want := c.results()
				for i := range res {
					if i >= len(want) {
						break
					}
					if isErrorType(res[i].typ) || isErrorType(want[i].typ) {
						ok := res[i] == want[i] || res[i].contains(want[i]) || knownNil(v.e, x.St, res[i]) && knownNil(v.e, x.St, want[i])
						r.check(ok, key, x.Pos, "%s does not return the error of the call", name)
						continue
					}
					ok := sameVal(res[i], want[i])
					if !ok && hasResult(f, isErrorType) && !v.succeeds(x) && knownNil(v.e, x.St, res[i]) {
						ok = true
					}
					r.check(ok, key, x.Pos, "%s does not return the result of the call: %v", name, res[i])
				}
				if fld, ok := v.unchanged(x); !ok {
					r.check(false, key, x.Pos, "%s changes the field %s of the provider", name, fld)
				}
			}
		}
	}
	for _, name := range []string{"DB", "Tx"} {
		f := get(name)
		if f == nil {
			continue
		}
		for _, inTx := range []bool{false, true} {
			v := r.runProv(pr, f, inTx, nil)
			for _, x := range v.returns() {
				t := flatTerms(x.Results)[0]
				ok := sameVal(t, v.init[pr.tx]) || !inTx && knownNil(v.e, x.St, t)
				if name == "DB" {
					ok = v.handle(t, inTx)
				}
				r.check(ok, name+":"+inTxName(inTx), x.Pos, "%s %s returns another handle than the one that statements use: %v", name, inTxName(inTx), t)
			}
		}
	}
	if f := get("BeginTx"); f != nil {
		v := r.runProv(pr, f, true, nil)
		for _, x := range v.returns() {
			calls, looped := dbCalls(x.St.events())
			r.check(len(calls) == 0 && !looped, "BeginTx:nested", x.Pos, "BeginTx in a transaction calls the database")
			r.check(!v.succeeds(x), "BeginTx:nested", x.Pos, "BeginTx in a transaction does not fail")
		}
		v = r.runProv(pr, f, false, nil)
		n := 0
		for _, x := range v.returns() {
			calls, looped := dbCalls(x.St.events())
			r.check(!looped, "BeginTx", x.Pos, "BeginTx calls the database in a loop")
			if fld, ok := v.unchanged(x); !ok {
				r.check(false, "BeginTx:original", x.Pos, "BeginTx changes the field %s of the original provider", fld)
			}
			r.check(true, "BeginTx:original", x.Pos, "")
			var begin *Event
			for _, c := range calls {
				if m := method(c.Callee); (m == "BeginTx" || m == "Begin") && begin == nil {
					begin = c
				}
			}
			if begin == nil {
				r.check(!v.succeeds(x), "BeginTx", x.Pos, "BeginTx succeeds without a transaction")
				continue
			}
			tx, er := begin.resultOfType("database/sql.Tx")
			if er == nil || tx == nil {
				r.check(false, "BeginTx", begin.Instr.Pos(), "unknown form of %s", begin.Callee)
				continue
			}
			if !v.succeeds(x) {
				if knownSet(v.e, x.St, er) {
					continue
				}
				done := false
				for _, c := range calls {
					if method(c.Callee) == "Rollback" && sameVal(c.Args[0], tx) {
						done = true
					}
				}
				r.check(done, "BeginTx", x.Pos, "BeginTx fails without ending the transaction that it began")
				continue
			}
			n++
			r.check(len(calls) == 1, "BeginTx", x.Pos, "BeginTx makes %d calls of the database, not one", len(calls))
			r.check(sameVal(begin.Args[0], v.init[pr.conn]) || sameVal(begin.Args[0], v.init[pr.db]), "BeginTx", begin.Instr.Pos(), "the transaction is not begun on the pool of the provider: %v", begin.Args[0])
			okArgs := len(begin.Args) == 3 && begin.Args[1] == v.args[1] && begin.Args[2] == v.args[2]
			r.check(okArgs, "BeginTx:options", begin.Instr.Pos(), "the context and the options are not passed on as they are")
			np := unIface(flatTerms(x.Results)[0])
			if !r.check(isFresh(root(np)) && typeName(np.typ) == modPath+".SQLProvider", "BeginTx:provider", x.Pos, "the result is not a new provider: %v", np) {
				continue
			}
			fs := pr.fields(v.e, x.St, np)
			r.check(sameVal(fs[pr.db], tx), "BeginTx:provider", x.Pos, "statements of the new provider do not use the new transaction: %v", fs[pr.db])
			r.check(sameVal(fs[pr.tx], tx), "BeginTx:provider", x.Pos, "Commit and Rollback of the new provider do not use the new transaction: %v", fs[pr.tx])
			for i := range fs {
				name := pr.st.Field(i).Name()
				switch {
				case i == pr.db || i == pr.tx:
				case i == pr.ticker || i == pr.done:
					z, k := v.e.isZeroTerm(x.St, fs[i], pr.st.Field(i).Type())
					r.check(k && z, "BeginTx:provider", x.Pos, "the new provider shares %s with the original, so that closing it stops the original", name)
				case i == pr.conn || i == pr.id || isString(pr.st.Field(i).Type()):
					r.check(fs[i] == v.init[i], "BeginTx:provider", x.Pos, "the field %s of the new provider is not that of the original: %v", name, fs[i])
				}
			}
		}
		r.atLeast(n, 1, "successful paths of BeginTx")
	}
	for _, name := range []string{"Commit", "Rollback"} {
		f := get(name)
		if f == nil {
			continue
		}
		v := r.runProv(pr, f, false, nil)
		for _, x := range v.returns() {
			calls, looped := dbCalls(x.St.events())
			r.check(len(calls) == 0 && !looped, name+":"+inTxName(false), x.Pos, "%s without a transaction calls the database", name)
			r.check(!v.succeeds(x), name+":"+inTxName(false), x.Pos, "%s without a transaction does not fail", name)
		}
		v = r.runProv(pr, f, true, nil)
		r.ends(v, name)
	}
	if f := get("Close"); f != nil {
		v := r.runProv(pr, f, true, func(e *Engine, st *State, init []*Term) {
			e.assume(st, e.isNilTerm(init[pr.conn]), false)
		})
		r.ends(v, "Close")
	}
}

// ends: on every path the transaction is finished by exactly one call and the outcome is returned.
func (r *Report) ends(v *provRun, name string) {
	key := name + ":" + inTxName(true)
	want := "Commit"
	if name != "Commit" {
		want = "Rollback"
	}
	for _, x := range v.returns() {
		calls, looped := dbCalls(x.St.events())
		r.check(!looped, key, x.Pos, "%s calls the database in a loop", name)
		var c *Event
		ok := true
		for _, y := range calls {
			switch m := method(y.Callee); {
			case m == want && c == nil:
				c = y
			case m == "Rollback" && c != nil: // has no effect any more
			default:
				ok = false
				r.check(false, key, y.Instr.Pos(), "%s of a transaction calls %s", name, y.Callee)
			}
		}
		if !ok {
			continue
		}
		if !r.check(c != nil, key, x.Pos, "%s of a transaction can return without a %s", name, want) {
			continue
		}
		r.check(sameVal(c.Args[0], v.init[v.pr.tx]) || sameVal(c.Args[0], v.init[v.pr.db]), key, c.Instr.Pos(), "%s ends another transaction: %v", name, c.Args[0])
		er := c.results()[0]
		ret, _ := errResult(v.fn, x)
		if knownNil(v.e, x.St, er) {
			r.check(knownNil(v.e, x.St, ret), key, x.Pos, "%s can fail although the transaction was ended without an error", name)
		} else if ret != er && knownNil(v.e, x.St, ret) {
			r.check(v.e.benign(x.St, er, c.Callee), key, x.Pos, "%s returns no error on a path on which %s may have failed", name, want)
		}
		if name != "Close" {
			for _, t := range v.stored(x, v.pr.db) {
				r.check(v.handle(t, true), key, x.Pos, "after %s statements are sent outside the finished transaction: the handle is changed to %v", name, t)
			}
			for _, t := range v.stored(x, v.pr.tx) {
				r.check(sameVal(t, v.init[v.pr.tx]), key, x.Pos, "%s changes the transaction of the provider", name)
			}
		}
	}
}

// ---- C04: handles

// what a call acquires: the result type, and the methods that release it
var acquires = map[string][2]string{
	"database/sql.Open":                  {"database/sql.DB", "Close"},
	"database/sql.OpenDB":                {"database/sql.DB", "Close"},
	"database/sql.(DB).Begin":            {"database/sql.Tx", "Commit Rollback"},
	"database/sql.(DB).BeginTx":          {"database/sql.Tx", "Commit Rollback"},
	"database/sql.(DB).Conn":             {"database/sql.Conn", "Close"},
	"database/sql.(DB).Prepare":          {"database/sql.Stmt", "Close"},
	"time.NewTicker":                     {"time.Ticker", "Stop"},
	"os.Open":                            {"os.File", "Close"},
	"os.OpenFile":                        {"os.File", "Close"},
	"os.Create":                          {"os.File", "Close"},
	"github.com/lib/pq.NewListener":      {"github.com/lib/pq.Listener", "Close"},
	"github.com/lib/pq.NewDialListener":  {"github.com/lib/pq.Listener", "Close"},
	modPath + ".Open":                    {"database/sql.DB", "Close"},
	modPath + ".NewProvider":             {modPath + ".Provider", "Close"},
	modPath + ".New":                     {modPath + ".SQLProvider", "Close"},
	modPath + ".(Provider).BeginTx":      {modPath + ".Provider", "Close Commit Rollback"},
	"database/sql.(DB).PrepareContext":   {"database/sql.Stmt", "Close"},
	"database/sql.(Conn).BeginTx":        {"database/sql.Tx", "Commit Rollback"},
	"database/sql.(Tx).PrepareContext":   {"database/sql.Stmt", "Close"},
	"database/sql.(Conn).PrepareContext": {"database/sql.Stmt", "Close"},
}

type handle struct {
	val, err *Term
	ev       *Event
	released bool
}

// handlesAt replays the events.
func handlesAt(evs []*Event) []*handle {
	var hs []*handle
	for _, ev := range evs {
		if ev.Kind != "call" {
			continue
		}
		if a, ok := acquires[ev.Callee]; ok {
			if v, er := ev.resultOfType(a[0]); v != nil {
				hs = append(hs, &handle{val: v, err: er, ev: ev})
			}
			continue
		}
		if len(ev.Args) > 0 {
			for _, h := range hs {
				if !sameVal(ev.Args[0], h.val) {
					continue
				}
				for _, m := range strings.Fields(acquires[h.ev.Callee][1]) {
					if method(ev.Callee) == m {
						h.released = true
					}
				}
			}
		}
	}
	return hs
}

// kept: the handle is reachable from the results, or was stored in an object of the caller.
func (e *Engine) kept(st *State, res []*Term, h *Term) (returned, stored bool) {
	ok := func(vs []*Term) bool {
		set := e.reach(st, vs)
		for t := range set {
			if sameVal(t, h) || t == root(h) {
				return true
			}
		}
		return false
	}
	returned = ok(res)
	for a, v := range st.mem {
		rt := root(a)
		if isFresh(rt) || v.op == "ld" && v.args[0] == a {
			continue
		}
		if ok([]*Term{v}) {
			stored = true
		}
	}
	// the last value assigned, where later calls may have changed the memory
	last := map[*Term]*Term{}
	for _, ev := range st.events() {
		if ev.Kind == "store" && len(ev.Args) == 2 && !isFresh(root(ev.Args[0])) {
			last[ev.Args[0]] = ev.Args[1]
		}
	}
	for _, v := range last {
		stored = stored || ok([]*Term{v})
	}
	return
}

func runC04(r *Report) {
	r.rule("ownership typestate of connection pools, transactions, prepared statements, tickers, files and listeners: what a call acquires is on every path released, or owned by the result of a successful call or by an object of the caller; it is not released when it is returned")
	r.rule("Close of a provider without a transaction closes its pool and, if it was started, stops the ticker and closes the stop channel, on every path; a second Close after it closes no channel again and does not panic")
	r.rule("migrations leave the handle open that they are given; a listener closes its connection; the command line closes its provider")
	p := r.p
	// calls of other packages are seen by their names
	reach := p.reachesBy(func(c *ssa.CallCommon) bool { _, ok := acquires[ccName(c)]; return ok }, func(f, g *ssa.Function) bool { return pkgOf(f) == pkgOf(g) })
	n := 0
	for _, f := range p.funcs {
		if !reach[f] || f.Parent() != nil || p.isMock(pkgOf(f)) {
			continue
		}
		e := newEngine(p)
		e.Inline = func(fn *ssa.Function, depth int) bool { return fn.Parent() != nil || pkgOf(fn) == pkgOf(f) }
		name := shortFn(f)
		isMain := pkgOf(f) != nil && pkgOf(f).Name() == "main"
		e.OnBack = func(st *State, rec *LoopRec) {
			for _, h := range handlesAt(logSince(st.log, rec.Base)) {
				ret, sto := e.kept(st, nil, h.val)
				bad := !h.released && !ret && !sto && !knownNil(e, st, h.val) && !(h.err != nil && knownSet(e, st, h.err))
				r.check(!bad, "handle:"+name, h.ev.Instr.Pos(), "the %s of %s is still open when the next iteration of a loop starts, in %s", acquires[h.ev.Callee][0], h.ev.Callee, name)
			}
		}
		exits := e.Run(f, nil, nil)
		r.done(e, exits)
		for _, x := range exits {
			if x.Panic || isMain {
				continue
			}
			failed := false
			if ret, ok := errResult(f, x); ok {
				failed = knownSet(e, x.St, ret)
			}
			for _, h := range handlesAt(x.St.events()) {
				n++
				if h.err != nil && knownSet(e, x.St, h.err) || knownNil(e, x.St, h.val) {
					continue
				}
				what := acquires[h.ev.Callee][0]
				ret, stored := e.kept(x.St, flatTerms(x.Results), h.val)
				key := "handle:" + name + ":" + what
				switch {
				case failed:
					r.check(h.released || stored, key, h.ev.Instr.Pos(), "%s fails at %s and leaves the %s of %s open", name, p.pos(x.Pos), what, h.ev.Callee)
				case h.released:
					r.check(!ret && !stored, key, h.ev.Instr.Pos(), "%s returns or keeps the %s of %s that it has closed, at %s", name, what, h.ev.Callee, p.pos(x.Pos))
				default:
					r.check(ret || stored, key, h.ev.Instr.Pos(), "the %s of %s is neither released nor returned by %s, at %s", what, h.ev.Callee, name, p.pos(x.Pos))
				}
			}
		}
	}
	r.atLeast(n, 8, "paths with a handle")

	pr := findProv(r)
	if pr == nil {
		return
	}
	cl := p.Method("", "SQLProvider", "Close")
	if cl == nil {
		r.missing("method SQLProvider.Close")
		return
	}
	for _, tick := range []bool{true, false} {
		for _, inTx := range []bool{true, false} {
			v := r.runProv(pr, cl, inTx, func(e *Engine, st *State, init []*Term) {
				e.assume(st, e.isNilTerm(init[pr.conn]), false)
				for _, i := range []int{pr.ticker, pr.done} {
					if i >= 0 {
						e.assume(st, e.isNilTerm(init[i]), !tick)
					}
				}
			})
			for _, x := range v.exits {
				r.check(!x.Panic, "Close", x.Pos, "Close can panic")
				evs := x.St.events()
				if !inTx {
					closed := false
					for _, ev := range evs {
						if ev.Kind == "call" && ev.Callee == "database/sql.(DB).Close" && sameVal(ev.Args[0], v.init[pr.conn]) {
							closed = true
						}
					}
					r.check(closed, "Close:pool", x.Pos, "Close can return without closing the pool")
				}
				stopped, chClosed := false, 0
				for _, ev := range evs {
					if pr.ticker >= 0 && ev.Kind == "call" && ev.Callee == "time.(Ticker).Stop" && ev.Args[0] == v.init[pr.ticker] {
						stopped = true
					}
					if ev.Kind == "closechan" {
						chClosed++
						r.check(tick && pr.done >= 0 && ev.Args[0] == v.init[pr.done], "Close:channel", ev.Instr.Pos(), "Close closes a channel that was not made")
					}
				}
				if tick && pr.ticker >= 0 {
					r.check(stopped, "Close:ticker", x.Pos, "Close can return without stopping the ticker")
				}
				r.check(chClosed <= 1, "Close:channel", x.Pos, "Close closes the channel twice")
			}
		}
	}
	// histories: New, Close, Close
	if nw := p.Func("", "New"); nw != nil {
		rr := r.run(nw, nil)
		k := 0
		for _, x := range rr.returns() {
			np := unIface(flatTerms(x.Results)[0])
			if !rr.succeeds(x) || !isFresh(root(np)) {
				continue
			}
			var chans []*Term
			c1 := rr.again(x, cl, []*Term{np})
			for _, y := range c1.exits {
				r.check(!y.Panic, "Close:twice", y.Pos, "Close of a new provider can panic")
				for _, ev := range logSince(y.St.log, x.St.log) {
					if ev.Kind == "closechan" {
						chans = append(chans, ev.Args[0])
					}
				}
				c2 := rr.again(y, cl, []*Term{np})
				for _, z := range c2.exits {
					k++
					r.check(!z.Panic, "Close:twice", z.Pos, "a second Close can panic")
					for _, ev := range logSince(z.St.log, y.St.log) {
						if ev.Kind != "closechan" {
							continue
						}
						ok := !knownNil(rr.e, z.St, ev.Args[0])
						for _, c := range chans {
							ok = ok && c != ev.Args[0]
						}
						r.check(ok, "Close:twice", ev.Instr.Pos(), "a second Close closes a channel that is closed or nil, which panics")
					}
				}
			}
		}
		r.atLeast(k, 1, "histories New, Close, Close")
	} else {
		r.missing("function New")
	}
	// Migrate keeps the handle
	if mg := p.Func("migrate", "Migrate"); mg != nil {
		rr := r.run(mg, nil)
		for _, x := range rr.exits {
			for _, ev := range allEvents(x.St.events()) {
				if ev.Kind != "call" || method(ev.Callee) != "Close" {
					continue
				}
				bad := ev.Callee == "database/sql.(DB).Close" || strings.Contains(ev.Callee, "golang-migrate/migrate")
				r.check(!bad, "Migrate", ev.Instr.Pos(), "Migrate closes the handle that it was given: %s", ev.Callee)
			}
			r.check(true, "Migrate", x.Pos, "")
		}
	} else {
		r.missing("function migrate.Migrate")
	}
	r.closesField("pkg/notifier", "listener", "github.com/lib/pq.Listener")
	r.closesField("internal/cli", "Cli", modPath+".Provider")
}

// closesField: Close of the type calls Close of its field of the named type, if it is set.
func (r *Report) closesField(pkg, typ, field string) {
	n := r.p.Named(pkg, typ)
	f := r.p.Method(pkg, typ, "Close")
	if n == nil || f == nil {
		r.missing("method Close of " + typ)
		return
	}
	s := n.Underlying().(*types.Struct)
	fi := -1
	for i := 0; i < s.NumFields(); i++ {
		if typeName(s.Field(i).Type()) == field {
			fi = i
		}
	}
	if fi < 0 {
		r.missing("field of type " + field + " of " + typ)
		return
	}
	var h *Term
	rr := r.run(f, func(e *Engine, st *State, args []*Term) {
		e.assume(st, e.isNilTerm(args[0]), false)
		h = e.load(st, e.fieldAddr(args[0], n, fi), s.Field(fi).Type())
		e.assume(st, e.isNilTerm(h), false)
	})
	for _, x := range rr.exits {
		ok := false
		for _, ev := range x.St.events() {
			if ev.Kind == "call" && method(ev.Callee) == "Close" && sameVal(ev.Args[0], h) {
				ok = true
			}
		}
		r.check(ok, "close:"+typ, x.Pos, "Close of %s can return without closing its %s", typ, field)
	}
}

// ---- C07: goroutines

// runBound runs a closure or function with its captured variables on a state.
func (e *Engine) runBound(f *Term, st *State, args []*Term) []*Exit {
	fr := &frame{fn: f.fn, ctx: "go", stack: []*ssa.Function{f.fn}}
	var binds []*Term
	if f.op == "closure" {
		binds = f.args
	}
	return e.runFunc(fr, st, args, binds)
}

// concurrently: what others can change while a goroutine runs is forgotten. Fields that are only assigned in objects that are
// being made, or by the functions given, are kept.
func (e *Engine) concurrently(st *State, makers map[*ssa.Function]bool) {
	k := &kill{kind: "many", id: "concurrent"}
	for a := range st.mem {
		rt := root(a)
		if isFresh(rt) && !st.esc[rt] {
			continue
		}
		if a.op == "alloc" && e.p.constCell(a.site) {
			continue
		}
		if a.op == "field" && e.p.fieldFixed(a, makers) {
			continue
		}
		k.many = append(k.many, &kill{kind: "addr", id: "concurrent", addr: a})
	}
	e.applyKill(st, k)
}

// fieldFixed: every assignment of the field is made to an object made in the same function, or in one of the makers.
func (p *Program) fieldFixed(a *Term, makers map[*ssa.Function]bool) bool {
	if p.fieldSt == nil {
		p.fieldSt = map[string]map[*ssa.Function]bool{}
		for _, f := range p.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					if _, ok := fa.X.(*ssa.Alloc); ok {
						continue
					}
					t := fa.X.Type().Underlying().(*types.Pointer).Elem()
					s := t.Underlying().(*types.Struct)
					key := typeKey(t) + "." + s.Field(fa.Field).Name()
					if p.fieldSt[key] == nil {
						p.fieldSt[key] = map[*ssa.Function]bool{}
					}
					p.fieldSt[key][f] = true
				}
			}
		}
	}
	for f := range p.fieldSt[a.aux] {
		if !makers[f] {
			return false
		}
	}
	return true
}

// stopChans are the channels of a state by which the user ends what the function started.
type stopRule struct {
	e      *Engine
	ctx    []*Term // contexts given by the user
	closed []*Term // channels that Close closes on every path
}

func (s *stopRule) is(st *State, ch *Term) bool {
	for _, c := range s.closed {
		if c == ch {
			return true
		}
	}
	for _, ev := range st.events() {
		if ev.Kind == "call" && ev.Result == ch && ev.Callee == "context.(Context).Done" {
			for _, c := range s.ctx {
				if sameVal(ev.Args[0], c) {
					return true
				}
			}
		}
	}
	return false
}

func runC07(r *Report) {
	r.rule("every go statement of the library: each loop of the goroutine that has no end of its own waits, in every iteration, in a select for a channel that the user controls (the context given, or a channel that Close closes on every path), and the iteration in which that channel is ready is the last")
	r.rule("a channel of the driver that is closed ends the loop that reads from it")
	r.rule("no goroutine of the library closes the database or the listener, or ends all its subscriptions")
	p := r.p
	ends := p.reaches(func(c *ssa.CallCommon) bool {
		switch ccName(c) {
		case "database/sql.(DB).Close", "github.com/lib/pq.(Listener).Close", "github.com/lib/pq.(Listener).UnlistenAll":
			return true
		}
		return false
	})
	n := 0
	starters := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if p.isMock(pkgOf(f)) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					t := f
					for t.Parent() != nil {
						t = t.Parent()
					}
					starters[t] = true
				}
			}
		}
	}
	seen := map[ssa.Instruction]bool{}
	all := map[ssa.Instruction]bool{}
	// exported callers of the functions that start goroutines
	entry := map[*ssa.Function]bool{}
	up := p.callers()
	var climb func(f *ssa.Function, d int)
	climb = func(f *ssa.Function, d int) {
		if f.Object() != nil && f.Object().Exported() || d > 6 || len(up[f]) == 0 {
			entry[f] = true
			return
		}
		for _, g := range up[f] {
			for g.Parent() != nil {
				g = g.Parent()
			}
			climb(g, d+1)
		}
	}
	for f := range starters {
		climb(f, 0)
		for _, g := range append([]*ssa.Function{f}, f.AnonFuncs...) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if _, ok := in.(*ssa.Go); ok {
						all[in] = true
					}
				}
			}
		}
	}
	for _, f := range p.funcs {
		if !entry[f] {
			continue
		}
		rr := r.run(f, nil)
		makers := cp(rr.e.fnsSeen)
		for _, x := range rr.returns() {
			if !rr.succeeds(x) {
				continue
			}
			for _, g := range x.St.events() {
				if g.Kind != "go" {
					continue
				}
				n++
				seen[g.Instr] = true
				s := &stopRule{e: rr.e}
				for _, a := range rr.args {
					if typeName(a.typ) == "context.Context" {
						s.ctx = append(s.ctx, a)
					}
				}
				s.closed = r.closedByClose(rr, x)
				if fn := g.Result; fn != nil && fn.fn != nil {
					r.check(!ends[fn.fn], "ends:"+shortFn(fn.fn), g.Instr.Pos(), "the goroutine that %s starts can close the database or the listener that the user goes on using", shortFn(f))
				}
				r.goroutine(rr.e, x.St.clone(), g, s, shortFn(f), seen, makers)
			}
		}
	}
	for in := range all {
		r.check(seen[in], "go:"+p.pos(in.Pos()), in.Pos(), "the go statement is not on a path that was analysed")
	}
	r.atLeast(n, 2, "goroutines")
}

// callers of the functions of the library
func (p *Program) callers() map[*ssa.Function][]*ssa.Function {
	r := map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if s := c.Common().StaticCallee(); s != nil {
						r[s] = append(r[s], f)
					}
				}
			}
		}
	}
	return r
}

// closedByClose are the channels that Close of the result closes on every path.
func (r *Report) closedByClose(rr *runRes, x *Exit) []*Term {
	var out []*Term
	for _, v := range flatTerms(x.Results) {
		o := unIface(v)
		if !isFresh(root(o)) || o.typ == nil {
			continue
		}
		ms := r.p.prog.MethodSets.MethodSet(o.typ)
		sel := ms.Lookup(nil, "Close")
		if sel == nil {
			continue
		}
		cl := r.p.prog.MethodValue(sel)
		if cl == nil || len(cl.Blocks) == 0 || !r.p.isRepoFn(cl) {
			continue
		}
		c := rr.again(x, cl, []*Term{o})
		var common map[*Term]bool
		for _, y := range c.exits {
			m := map[*Term]bool{}
			for _, ev := range logSince(y.St.log, x.St.log) {
				if ev.Kind == "closechan" {
					m[ev.Args[0]] = true
				}
			}
			if common == nil {
				common = m
				continue
			}
			for t := range common {
				if !m[t] {
					delete(common, t)
				}
			}
		}
		for _, t := range sortedTerms(common) {
			if n, k := rr.e.nilness(x.St, t); k && n {
				continue // never made
			}
			out = append(out, t)
		}
	}
	return out
}

func (r *Report) goroutine(e *Engine, st *State, g *Event, s *stopRule, from string, seen map[ssa.Instruction]bool, makers map[*ssa.Function]bool) {
	if g.Result == nil || g.Result.fn == nil || len(g.Result.fn.Blocks) == 0 {
		r.check(false, "go:"+from, g.Instr.Pos(), "the function of the go statement is not known")
		return
	}
	fn := g.Result.fn
	name := shortFn(fn)
	e.concurrently(st, makers)
	base := st.log
	oldBack := e.OnBack
	defer func() { e.OnBack = oldBack }()
	p := r.p
	e.OnBack = func(st *State, rec *LoopRec) {
		key := "loop:" + name
		pos := rec.Header.Instrs[0].Pos()
		own := loopEnds(rec)
		waits := false
		for _, ev := range logSince(st.log, rec.Base) {
			switch ev.Kind {
			case "go":
				seen[ev.Instr] = true
				r.check(ev.Result != nil && ev.Result.fn != nil && len(p.loops(ev.Result.fn).headers) == 0, "go:"+name, ev.Instr.Pos(), "a loop starts goroutines that have loops themselves")
			case "select":
				for i, ch := range ev.Args {
					idx := e.ts.mk("extract", "0", types.Typ[types.Int], ev.Result)
					taken, known := e.evalBool(st, e.eqTerm(idx, e.ts.intTerm(int64(i)), types.Typ[types.Int]))
					if s.is(st, ch) {
						waits = true
						r.check(known && !taken || leavesNext(e, st, rec), key, ev.Instr.Pos(), "the loop of %s goes on after it was told to stop", name)
						continue
					}
					if sel, ok := ev.Instr.(*ssa.Select); ok && sel.States[i].Dir == types.RecvOnly && fromDriver(sel.States[i].Chan.Type()) && !(known && !taken) {
						ok := e.ts.mk("extract", "1", types.Typ[types.Bool], ev.Result)
						v, k := e.evalBool(st, ok)
						r.check(k && v || leavesNext(e, st, rec), key, ev.Instr.Pos(), "the loop of %s goes on (and spins) after the channel of the driver was closed", name)
					}
				}
			case "recv":
				if s.is(st, ev.Args[0]) {
					r.check(leavesNext(e, st, rec), key, ev.Instr.Pos(), "the loop of %s goes on after it was told to stop", name)
				}
			}
		}
		r.check(own || waits, key, pos, "the loop of %s, started by %s, can go round without waiting for the user to stop it", name, from)
	}
	exits := e.runBound(g.Result, st, g.Args)
	r.done(e, exits)
	ended := false
	for _, x := range exits {
		for _, ev := range logSince(x.St.log, base) {
			if ev.Kind == "go" {
				seen[ev.Instr] = true
			}
		}
		ended = ended || !x.Panic
	}
	r.check(ended, "end:"+name, fn.Pos(), "no path of the goroutine %s, started by %s, ends", name, from)
}

// fromDriver: the channel carries values of the driver.
func fromDriver(ch types.Type) bool {
	c, ok := ch.Underlying().(*types.Chan)
	return ok && strings.Contains(typeName(c.Elem()), "lib/pq.")
}

// leavesNext: the condition at the head of the loop is known to leave it in the state of the back edge.
func leavesNext(e *Engine, st *State, rec *LoopRec) bool {
	iff, ok := rec.Header.Instrs[len(rec.Header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, neg := iff.Cond, false
	for {
		u, ok := c.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		c, neg = u.X, !neg
	}
	phi, ok := c.(*ssa.Phi)
	if !ok || phi.Block() != rec.Header {
		return false
	}
	v, k := e.evalBool(st, st.env[phi])
	if !k {
		return false
	}
	i := 0
	if v == neg {
		i = 1
	}
	return !rec.Blocks[rec.Header.Succs[i]]
}

// loopEnds: the loop is a range, or is left by a comparison of integers, which is not decided further.
func loopEnds(rec *LoopRec) bool {
	iff, ok := rec.Header.Instrs[len(rec.Header.Instrs)-1].(*ssa.If)
	if !ok || rec.Blocks[rec.Header.Succs[0]] && rec.Blocks[rec.Header.Succs[1]] || fromChannel(iff.Cond, map[ssa.Value]bool{}) {
		return false
	}
	switch c := iff.Cond.(type) {
	case *ssa.Extract:
		_, ok := c.Tuple.(*ssa.Next)
		return ok
	case *ssa.BinOp:
		return isInteger(c.X.Type())
	}
	return false
}

func fromChannel(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Select:
		return true
	case *ssa.UnOp:
		if x.Op.String() == "<-" {
			return true
		}
	}
	if in, ok := v.(ssa.Instruction); ok {
		for _, o := range in.Operands(nil) {
			if *o != nil && fromChannel(*o, seen) {
				return true
			}
		}
	}
	return false
}

// ---- K01: notifications

func init() {
	rules["K01"] = propRule{run: runK01, title: "notifications"}
	rules["H01"] = propRule{run: runH01, title: "migrations"}
}

const pqN = "github.com/lib/pq.Notification"

// loadField loads the named field of an external or repository struct.
func (e *Engine) loadField(st *State, p *Term, name string) *Term {
	el := ptrElem(p)
	if el == nil {
		return nil
	}
	s, ok := el.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return e.load(st, e.fieldAddr(p, el, i), s.Field(i).Type())
		}
	}
	return nil
}

// newListener: the listener connects to the database of the provider.
func (r *Report) newListener() {
	f := r.p.Func("pkg/notifier", "NewListener")
	if f == nil {
		r.missing("notifier.NewListener")
		return
	}
	rr := r.run(f, nil)
	e := rr.e
	n := 0
	for _, x := range rr.returns() {
		for _, ev := range x.St.events() {
			if ev.Kind != "call" || !strings.HasPrefix(ev.Callee, "github.com/lib/pq.NewListener") || len(ev.Args) < 3 {
				continue
			}
			n++
			own := false
			for _, c := range x.St.events() {
				own = own || c.Kind == "call" && c.Result == ev.Args[0] && method(c.Callee) == "ConnectionString" && len(c.Args) > 0 && sameVal(c.Args[0], rr.args[0])
			}
			r.check(own, "connect", ev.Instr.Pos(), "the listener connects to %s, not with the connection string of the provider", ev.Args[0])
			for i, name := range []string{"DefaultMinReconnectInterval", "DefaultMaxReconnectInterval"} {
				a, given := ev.Args[1+i], rr.args[1+i]
				z, k := e.evalBool(x.St, e.eqTerm(given, e.ts.intTerm(0), given.typ))
				if low, kk := e.evalBool(x.St, e.le0(toLin(given))); !k && kk && low {
					z, k = true, true // not a time
				}
				switch {
				case !k:
					r.check(a == given, "interval", ev.Instr.Pos(), "the listener does not use the interval that is given, but %s", a)
				case z:
					v, ok := a.constInt()
					if c, isc := f.Pkg.Pkg.Scope().Lookup(name).(*types.Const); isc {
						want, exact := constant.Int64Val(constant.ToInt(c.Val()))
						ok = ok && exact && v.Cmp(bi(want)) == 0
					}
					r.check(ok && v.Sign() > 0, "interval", ev.Instr.Pos(), "the default interval of the listener is %s, not %s", a, name)
				default:
					r.check(a == given, "interval", ev.Instr.Pos(), "the listener does not use the interval that is given, but %s", a)
				}
			}
		}
	}
	r.check(n > 0, "connect", f.Pos(), "NewListener makes no listener")
}

func runK01(r *Report) {
	r.rule("Listen subscribes to the topic given; it fails, and starts nothing, when the subscription fails")
	r.rule("each iteration of the goroutine that Listen starts calls the callback exactly once if it has received a notification, and not at all otherwise; what is passed is a new object with the channel and the payload of that notification as they were received, and the decoded payload if there is one")
	r.rule("when the context is done the topic is unsubscribed and the callback is not called any more")
	r.rule("nothing that Listen starts ends the subscriptions of other topics (UnlistenAll or Close of the listener)")
	r.rule("isolation: the callback is only called for notifications of its own topic")
	r.rule("a listener connects with the connection string of its provider, and again within the intervals given, or the default ones")
	p := r.p
	r.newListener()
	f := p.Method("pkg/notifier", "listener", "Listen")
	if f == nil {
		r.missing("method Listen of notifier.listener")
		return
	}
	ends := p.reaches(func(c *ssa.CallCommon) bool {
		n := ccName(c)
		return n == "github.com/lib/pq.(Listener).UnlistenAll" || n == "github.com/lib/pq.(Listener).Close"
	})
	r.check(!ends[f], "others", f.Pos(), "Listen for one topic can end the subscriptions of all topics")
	rr := r.run(f, func(e *Engine, st *State, args []*Term) { e.assume(st, e.isNilTerm(args[0]), false) })
	e := rr.e
	var topic, cb, ctx *Term
	for _, a := range rr.args[1:] {
		switch {
		case isString(a.typ):
			topic = a
		case typeName(a.typ) == "context.Context":
			ctx = a
		default:
			if _, ok := a.typ.Underlying().(*types.Signature); ok {
				cb = a
			}
		}
	}
	if topic == nil || cb == nil || ctx == nil {
		r.missing("topic, callback and context of Listen")
		return
	}
	gos := 0
	for _, x := range rr.returns() {
		var sub *Event
		var g []*Event
		for _, ev := range x.St.events() {
			if ev.Kind == "call" && ev.Callee == "github.com/lib/pq.(Listener).Listen" {
				sub = ev
			}
			if ev.Kind == "go" {
				g = append(g, ev)
			}
			r.check(ev.Dyn != cb, "listen", x.Pos, "Listen calls the callback itself")
		}
		if !rr.succeeds(x) {
			r.check(len(g) == 0, "listen", x.Pos, "Listen starts a goroutine and fails")
			continue
		}
		if !r.check(sub != nil, "listen", x.Pos, "Listen succeeds without a subscription") {
			continue
		}
		r.check(sub.Args[1] == topic, "listen", sub.Instr.Pos(), "Listen subscribes to another topic: %v", sub.Args[1])
		r.check(knownNil(e, x.St, sub.results()[0]), "listen", x.Pos, "Listen succeeds although the subscription may have failed")
		if !r.check(len(g) == 1, "listen", x.Pos, "Listen starts %d goroutines, not one", len(g)) {
			continue
		}
		if g[0].Result == nil || g[0].Result.fn == nil {
			r.missing("the function of the goroutine of Listen")
			continue
		}
		gos++
		st := x.St.clone()
		e.concurrently(st, e.fnsSeen)
		base := st.log
		before := cp(st.born)
		type seenCb struct{ ch, raw, payload *Term }
		at := map[*Event]seenCb{}
		e.OnEvent = func(st *State, ev *Event) {
			if ev.Kind == "call" && ev.Dyn == cb && len(ev.Args) == 1 {
				a := ev.Args[0]
				at[ev] = seenCb{e.loadField(st, a, "Channel"), e.loadField(st, a, "RawPayload"), e.loadField(st, a, "Payload")}
			}
		}
		isStop := &stopRule{e: e, ctx: []*Term{ctx}}
		judge := func(st *State, evs []*Event, pos *LoopRec, end bool) {
			var calls, un []*Event
			var recvd []*Term // values known to be received
			maybe := false
			stop := false
			for _, ev := range evs {
				if ev.Kind == "call" && ev.Dyn == cb {
					calls = append(calls, ev)
				}
				if ev.Kind == "call" && ev.Callee == "github.com/lib/pq.(Listener).Unlisten" {
					un = append(un, ev)
				}
				if ev.Kind == "loop" {
					for _, it := range ev.Loop.Iters {
						for _, ev := range allEvents(it) {
							if ev.Kind == "call" && ev.Dyn == cb {
								calls = append(calls, ev, ev) // any number of times
							}
						}
					}
				}
				var chs []*Term
				var val func(i int) (idx, v *Term)
				switch ev.Kind {
				case "select":
					chs = ev.Args
					sel := ev.Instr.(*ssa.Select)
					tt := sel.Type().(*types.Tuple)
					val = func(i int) (*Term, *Term) {
						k := 2
						for j := 0; j < i; j++ {
							if sel.States[j].Dir == types.RecvOnly {
								k++
							}
						}
						idx := e.ts.mk("extract", "0", types.Typ[types.Int], ev.Result)
						if k >= tt.Len() {
							return idx, nil
						}
						return idx, e.ts.mk("extract", itoa(k), tt.At(k).Type(), ev.Result)
					}
				case "recv":
					chs = ev.Args[:1]
					val = func(int) (*Term, *Term) {
						if u, ok := ev.Instr.(*ssa.UnOp); ok && u.CommaOk {
							return nil, e.ts.mk("extract", "0", u.Type().(*types.Tuple).At(0).Type(), ev.Result)
						}
						return nil, ev.Result
					}
				}
				for i, ch := range chs {
					idx, v := val(i)
					taken, known := true, true
					if idx != nil {
						taken, known = e.evalBool(st, e.eqTerm(idx, e.ts.intTerm(int64(i)), types.Typ[types.Int]))
					}
					if known && !taken {
						continue
					}
					if isStop.is(st, ch) {
						stop = true
					}
					if c, ok := ch.typ.Underlying().(*types.Chan); ok && typeName(c.Elem()) == pqN && v != nil {
						if !known {
							maybe = true
						} else if !knownNil(e, st, v) {
							ok := e.ts.mk("extract", "1", types.Typ[types.Bool], ev.Result)
							if k, kn := e.evalBool(st, ok); kn && !k {
								continue
							}
							recvd = append(recvd, v)
						}
					}
				}
			}
			key := "deliver"
			at0 := f.Pos()
			if pos != nil {
				at0 = pos.Header.Instrs[0].Pos()
			}
			r.check(!maybe, key, at0, "it is not known whether a notification was received")
			if end && stop {
				ok := len(un) == 1 && un[0].Args[1] == topic
				r.check(ok, "unlisten", at0, "the goroutine of Listen can end with the context without unsubscribing its topic")
				r.check(len(calls) == 0, key, at0, "the callback is called although the context is done")
				return
			}
			r.check(len(un) == 0, "unlisten", at0, "the topic is unsubscribed although the context is not done")
			if len(recvd) == 0 {
				r.check(len(calls) == 0, key, at0, "the callback is called without a notification (a nil notification stands for a new connection)")
				return
			}
			if end {
				r.check(len(calls) == 1, key, at0, "a notification is received and not passed on")
			}
			if !r.check(len(calls) == 1 && len(recvd) == 1, key, at0, "the callback is called %d times for one notification", len(calls)) {
				return
			}
			n := recvd[0]
			c := calls[0]
			g := at[c]
			arg := c.Args[0]
			_, old := before[root(arg)]
			made := isFresh(root(arg)) && !old
			if made && pos != nil && root(arg).site != nil && root(arg).site.Parent() == pos.Fn {
				made = pos.Blocks[root(arg).site.Block()]
			}
			r.check(made, "content", c.Instr.Pos(), "the callback does not get a new object: %v", arg)
			isField := func(t *Term, name string) bool {
				return t != nil && t.op == "ld" && t.args[0].op == "field" && t.args[0].args[0] == n && strings.HasSuffix(t.args[0].aux, "."+name)
			}
			r.check(isField(g.ch, "Channel"), "content", c.Instr.Pos(), "the channel passed on is not that of the notification: %v", g.ch)
			r.check(isField(g.raw, "Extra"), "content", c.Instr.Pos(), "the payload passed on is not that of the notification: %v", g.raw)
			// decoding
			dec := false
			for _, ev := range evs {
				if ev.Kind == "call" && strings.HasPrefix(ev.Callee, "encoding/json.") && ev.Instr != nil {
					for _, a := range append(append([]*Term{}, ev.Args...), ev.Vals...) {
						if a != nil && a.any(func(t *Term) bool { return isField(t, "Extra") }) {
							dec = true
						}
					}
				}
			}
			if !dec {
				empty := false
				for t, v := range st.b {
					if v && t.op == "eq" && (isField(t.args[0], "Extra") || isField(t.args[1], "Extra")) {
						empty = true
					}
				}
				if !empty && g.raw != nil {
					for _, s := range []string{"", "{}", "[]"} {
						if v, k := e.evalBool(st, e.eqTerm(g.raw, e.ts.strTerm(s), types.Typ[types.String])); k && v {
							empty = true
						}
					}
				}
				r.check(empty, "decode", c.Instr.Pos(), "a payload is passed on without having been decoded")
			}
			// isolation
			own := false
			for t, v := range st.b {
				if v && t.op == "eq" && (t.args[0] == topic && isField(t.args[1], "Channel") || t.args[1] == topic && isField(t.args[0], "Channel")) {
					own = true
				}
			}
			r.check(own, "topic", c.Instr.Pos(), "the callback of one topic gets notifications of every topic that the listener is subscribed to")
		}
		e.OnBack = func(st *State, rec *LoopRec) {
			if onlyOuter(rec) {
				judge(st, logSince(st.log, rec.Base), rec, false)
			}
		}
		exits := e.runBound(g[0].Result, st, g[0].Args)
		r.done(e, exits)
		for _, y := range exits {
			if y.Panic {
				continue
			}
			evs := logSince(y.St.log, base)
			// the events after the start of the last loop are those of the last iteration
			for i := len(evs) - 1; i >= 0; i-- {
				if evs[i].Kind == "loop" {
					evs = evs[i+1:]
					break
				}
			}
			judge(y.St, evs, nil, true)
		}
		e.OnBack, e.OnEvent = nil, nil
	}
	r.atLeast(gos, 1, "goroutines of Listen")
}

// onlyOuter: the loop waits in a select or receive itself.
func onlyOuter(rec *LoopRec) bool {
	for b := range rec.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Select:
				return true
			case *ssa.UnOp:
				if x.Op.String() == "<-" {
					return true
				}
			}
		}
	}
	return false
}

func itoa(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + itoa(i%10)
}

// ---- H01: migrations

func runH01(r *Report) {
	r.rule("Migrate: without a directory nothing is done; a version to force that is given is forced exactly once, before the migration; a version to migrate to that is given is the target of exactly one migration, otherwise all pending steps are applied exactly once; nothing else changes the database (no step down, drop or step count)")
	r.rule("the source is the directory given, the driver is that of the provider over the handle given; a directory that cannot be read and an unknown provider are errors before anything is done")
	r.rule("NewProvider runs the configured migration on the handle that it has opened, with the configured directory and versions, before it returns the provider")
	p := r.p
	f := p.Func("migrate", "Migrate")
	if f == nil {
		r.missing("function migrate.Migrate")
		return
	}
	const M = "github.com/golang-migrate/migrate/v4.(Migrate)."
	if len(f.Params) != 6 {
		r.missing("the six parameters of migrate.Migrate")
		return
	}
	// parameters by their place: provider, database, directory, version to force, version to migrate to, handle
	for _, force := range []bool{false, true} {
		for _, version := range []bool{false, true} {
			for _, dir := range []bool{false, true} {
				rr := r.run(f, func(e *Engine, st *State, a []*Term) {
					e.constrainSign(st, a[3], force)
					e.constrainSign(st, a[4], version)
					e.assume(st, e.eqTerm(a[2], e.ts.strTerm(""), types.Typ[types.String]), !dir)
				})
				e, a := rr.e, rr.args
				for _, x := range rr.returns() {
					evs := x.St.events()
					var acts []*Event
					for _, ev := range allEvents(evs) {
						if ev.Kind != "call" {
							continue
						}
						if strings.HasPrefix(ev.Callee, M) {
							switch method(ev.Callee) {
							case "Version", "Close":
							default:
								acts = append(acts, ev)
							}
						}
						if strings.HasPrefix(ev.Callee, "database/sql.") && (isQueryCall(ev.Callee)) && method(ev.Callee) != "Ping" && method(ev.Callee) != "PingContext" {
							r.check(false, "other", ev.Instr.Pos(), "Migrate sends a statement of its own: %s", ev.Callee)
						}
					}
					if !dir {
						r.check(rr.succeeds(x) && !rr.fails(x) && len(acts) == 0, "nodir", x.Pos, "Migrate without a directory fails or does something")
						continue
					}
					// facts about the steps taken
					want := []string{}
					if force {
						want = append(want, "Force")
					}
					if version {
						want = append(want, "Migrate")
					} else {
						want = append(want, "Up")
					}
					for i, ev := range acts {
						m := method(ev.Callee)
						if !r.check(i < len(want) && m == want[i], "steps", ev.Instr.Pos(), "with force %v and version %v step %d of Migrate is %s, want %v", force, version, i+1, m, want) {
							break
						}
						switch m {
						case "Force":
							r.check(e.sameInt(x.St, ev.Args[1], a[3], false), "force", ev.Instr.Pos(), "another version than the one given is forced: %v", ev.Args[1])
						case "Migrate":
							r.check(e.sameInt(x.St, ev.Args[1], a[4], true), "version", ev.Instr.Pos(), "another version than the one given is migrated to: %v", ev.Args[1])
						}
					}
					if rr.succeeds(x) {
						r.check(len(acts) == len(want), "steps", x.Pos, "with force %v and version %v Migrate succeeds after %d steps, not %v", force, version, len(acts), want)
						r.migrateSource(rr, x)
					}
				}
			}
		}
	}
	r.migrateErrors(f)
	r.migrateCaller()
}

// constrainSign: t > 0 or t <= 0.
func (e *Engine) constrainSign(st *State, t *Term, pos bool) {
	if pos {
		e.constrain(st, t, bi(1), nil)
	} else {
		e.constrain(st, t, nil, bi(0))
	}
}

// migrateSource: the migration reads the directory given and works on the handle given by the driver of the provider.
func (r *Report) migrateSource(rr *runRes, x *Exit) {
	e, a := rr.e, rr.args
	var mk *Event
	var drv []*Event
	for _, ev := range x.St.events() {
		if ev.Kind != "call" {
			continue
		}
		if strings.HasPrefix(ev.Callee, "github.com/golang-migrate/migrate/v4.New") {
			mk = ev
		}
		if method(ev.Callee) == "WithInstance" {
			drv = append(drv, ev)
		}
	}
	if !r.check(mk != nil && len(drv) == 1, "source", x.Pos, "Migrate succeeds without one driver and one source") {
		return
	}
	d := drv[0]
	pkg := strings.TrimSuffix(d.Callee, ".WithInstance")
	pkg = pkg[strings.LastIndexByte(pkg, '/')+1:]
	names := map[string][]string{"postgres": {"postgres", "pgsql"}, "sqlserver": {"sqlserver"}}[pkg]
	known := false
	for _, n := range names {
		if v, k := e.evalBool(x.St, e.eqTerm(a[0], e.ts.strTerm(n), types.Typ[types.String])); k && v {
			known = true
		}
	}
	r.check(known, "driver", d.Instr.Pos(), "the driver %s is used for a provider that is not one of %v", pkg, names)
	r.check(sameVal(d.Args[0], a[5]), "driver", d.Instr.Pos(), "the driver does not work on the handle given: %v", d.Args[0])
	dv := d.results()[0]
	found := false
	for _, t := range mk.Args {
		found = found || sameVal(t, dv)
	}
	r.check(found, "source", mk.Instr.Pos(), "the migration does not use the driver that was made")
	src := mk.Args[0]
	ok := src == e.ts.concat(e.ts.strTerm("file://"), a[2])
	r.check(ok, "source", mk.Instr.Pos(), "the source of the migration is not the directory given: %v", src)
}

// migrateErrors: unreadable directory and unknown provider.
func (r *Report) migrateErrors(f *ssa.Function) {
	rr := r.run(f, func(e *Engine, st *State, a []*Term) {
		for _, s := range []string{"postgres", "pgsql", "sqlserver"} {
			e.assume(st, e.eqTerm(a[0], e.ts.strTerm(s), types.Typ[types.String]), false)
		}
		e.assume(st, e.eqTerm(a[2], e.ts.strTerm(""), types.Typ[types.String]), false)
	})
	for _, x := range rr.returns() {
		r.check(!rr.succeeds(x), "provider", x.Pos, "Migrate succeeds for an unknown provider")
	}
	for _, s := range []string{"postgres", "pgsql", "sqlserver"} {
		rr := r.run(f, func(e *Engine, st *State, a []*Term) {
			e.assume(st, e.eqTerm(a[0], e.ts.strTerm(s), types.Typ[types.String]), true)
			e.assume(st, e.eqTerm(a[2], e.ts.strTerm(""), types.Typ[types.String]), false)
		})
		ok := false
		for _, x := range rr.returns() {
			ok = ok || rr.succeeds(x)
		}
		r.check(ok, "provider:"+s, f.Pos(), "Migrate never succeeds for the provider %s", s)
	}
	rr = r.run(f, func(e *Engine, st *State, a []*Term) {
		e.assume(st, e.eqTerm(a[2], e.ts.strTerm(""), types.Typ[types.String]), false)
	})
	for _, x := range rr.returns() {
		if !rr.succeeds(x) {
			continue
		}
		ok := false
		for _, ev := range x.St.events() {
			if ev.Kind == "call" && strings.HasPrefix(ev.Callee, "os.") && len(ev.Args) > 0 && ev.Args[0] == rr.args[2] {
				if _, er := ev.resultOfType(""); er != nil && knownNil(rr.e, x.St, er) {
					ok = true
				}
			}
		}
		r.check(ok, "directory", x.Pos, "Migrate can succeed although the directory cannot be read")
	}
}

// migrateCaller: NewProvider passes the configuration on.
func (r *Report) migrateCaller() {
	f := r.p.Func("", "NewProvider")
	mg := modPath + "/migrate.Migrate"
	cfgT := r.p.Named("", "MigrationConfig")
	if f == nil || cfgT == nil {
		r.missing("function NewProvider and type MigrationConfig")
		return
	}
	var cfg *Term
	var src, force, ver *Term
	e := newEngine(r.p)
	e.Inline = func(fn *ssa.Function, d int) bool { return fn.Parent() != nil || pkgOf(fn) == pkgOf(f) }
	st := newState()
	args := e.Params(f)
	for _, a := range args {
		if typeName(a.typ) == modPath+".MigrationConfig" {
			cfg = a
		}
	}
	if cfg == nil {
		r.missing("the migration parameter of NewProvider")
		return
	}
	e.assume(st, e.isNilTerm(cfg), false)
	src, force, ver = e.loadField(st, cfg, "Source"), e.loadField(st, cfg, "ForceVersion"), e.loadField(st, cfg, "MigrateVersion")
	if src == nil || force == nil || ver == nil {
		r.missing("the fields Source, ForceVersion, MigrateVersion")
		return
	}
	e.assume(st, e.eqTerm(src, e.ts.strTerm(""), types.Typ[types.String]), false)
	exits := e.Run(f, st, args)
	r.done(e, exits)
	rr := &runRes{e: e, fn: f, args: args, exits: exits}
	n := 0
	for _, x := range rr.returns() {
		if !rr.succeeds(x) {
			continue
		}
		var calls, opens []*Event
		for _, ev := range allEvents(x.St.events()) {
			if ev.Kind == "call" && ev.Callee == mg {
				calls = append(calls, ev)
			}
			if ev.Kind == "call" && ev.Callee == "database/sql.Open" {
				opens = append(opens, ev)
			}
		}
		if !r.check(len(calls) == 1 && len(opens) == 1, "caller", x.Pos, "NewProvider with a migration configured succeeds after %d migrations", len(calls)) {
			continue
		}
		n++
		c := calls[0]
		d, _ := opens[0].resultOfType("database/sql.DB")
		r.check(c.Args[0] == opens[0].Args[0], "caller", c.Instr.Pos(), "the migration is for another driver than the one that is opened: %v", c.Args[0])
		r.check(c.Args[1] == args[1], "caller", c.Instr.Pos(), "the migration is for another database: %v", c.Args[1])
		r.check(c.Args[2] == src || c.Args[2].contains(src), "caller", c.Instr.Pos(), "the migration is from another directory: %v", c.Args[2])
		r.check(e.sameInt(x.St, c.Args[3], force, false), "caller", c.Instr.Pos(), "the migration forces another version: %v", c.Args[3])
		r.check(e.sameInt(x.St, c.Args[4], ver, false), "caller", c.Instr.Pos(), "the migration is to another version: %v", c.Args[4])
		r.check(sameVal(c.Args[5], d), "caller", c.Instr.Pos(), "the migration is on another handle: %v", c.Args[5])
	}
	r.atLeast(n, 1, "successful paths of NewProvider with a migration")
}
