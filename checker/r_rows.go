package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- shared helpers on events

const (
	rowsT = "database/sql.Rows"
	rowT  = "database/sql.Row"
)

// typeName is the qualified name of a (pointer to a) named type.
func typeName(t types.Type) string {
	if t == nil {
		return ""
	}
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() == nil {
			return o.Name()
		}
		return o.Pkg().Path() + "." + o.Name()
	}
	return ""
}

// results of a call event as a list
func (ev *Event) results() []*Term {
	if ev.Result == nil {
		return nil
	}
	if ev.Result.op == "tuple" {
		return ev.Result.args
	}
	return []*Term{ev.Result}
}

// resultOfType finds the result of the named type, and the error result.
func (ev *Event) resultOfType(name string) (v, err *Term) {
	for _, r := range ev.results() {
		if typeName(r.typ) == name {
			v = r
		} else if isErrorType(r.typ) {
			err = r
		}
	}
	return
}

func isErrorType(t types.Type) bool { return t != nil && types.Identical(t, errorType) }

func hasResult(f *ssa.Function, pred func(types.Type) bool) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if pred(rs.At(i).Type()) {
			return true
		}
	}
	return false
}

func sigMentions(f *ssa.Function, names ...string) bool {
	m := func(t types.Type) bool {
		for _, n := range names {
			if typeName(t) == n {
				return true
			}
		}
		return false
	}
	ps := f.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		if m(ps.At(i).Type()) {
			return true
		}
	}
	for _, fv := range f.FreeVars {
		t := fv.Type()
		if p, ok := t.(*types.Pointer); ok {
			if m(t) || m(p.Elem()) {
				return true
			}
		}
	}
	return hasResult(f, m)
}

func flatTerms(ts []*Term) []*Term {
	var r []*Term
	for _, t := range ts {
		if t == nil {
			continue
		}
		if t.op == "tuple" {
			r = append(r, flatTerms(t.args)...)
		} else {
			r = append(r, t)
		}
	}
	return r
}

// callsAny: some instruction of f (or a closure of it) calls a function whose result or receiver mentions the type.
func mentionsResult(f *ssa.Function, name string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				rs := c.Common().Signature().Results()
				for i := 0; i < rs.Len(); i++ {
					if typeName(rs.At(i).Type()) == name {
						return true
					}
				}
			}
		}
	}
	return false
}

// ---- C01: rows are released

// userCode: a call whose body the library does not control (callback or an interface a user implements) may panic.
func userCode(p *Program) func(c *Call) bool {
	return func(c *Call) bool {
		if c.Fn != nil {
			return false
		}
		if c.Common.IsInvoke() {
			m := c.Common.Method
			t := c.Common.Value.Type()
			if _, ok := types.Unalias(t).(*types.TypeParam); ok {
				return true
			}
			if m.Pkg() != nil && p.isRepo(m.Pkg()) {
				n := m.Name()
				return n == "ScanRow" || n == "SetResult" || n == "SetResultWithCursor"
			}
			return false
		}
		return c.Name == "dynamic"
	}
}

type openRows struct {
	rows, err *Term
	ev        *Event
}

// openAt replays the events and returns the rows that are still open.
func (e *Engine) openAt(st *State, evs []*Event) []openRows {
	var open []openRows
	drop := func(t *Term) {
		for i := range open {
			if open[i].rows == t {
				open = append(open[:i:i], open[i+1:]...)
				return
			}
		}
	}
	for _, ev := range evs {
		if ev.Kind != "call" {
			continue
		}
		if strings.HasPrefix(ev.Callee, rowsClose) && len(ev.Args) > 0 {
			drop(ev.Args[0])
			continue
		}
		if ev.Callee == "database/sql.(Rows).Next" && len(ev.Args) > 0 && ev.Result != nil {
			if v, k := e.evalBool(st, ev.Result); k && !v {
				drop(ev.Args[0]) // the end of the result set closes it
			}
			continue
		}
		if v, er := ev.resultOfType(rowsT); v != nil {
			open = append(open, openRows{v, er, ev})
		}
	}
	var r []openRows
	for _, o := range open {
		if n, k := e.nilness(st, o.rows); k && n {
			continue
		}
		if o.err != nil {
			if n, k := e.nilness(st, o.err); k && !n {
				continue
			}
		}
		r = append(r, o)
	}
	return r
}

const rowsClose = "database/sql.(Rows).Close"

func init() {
	rules["C01"] = propRule{run: runC01, title: "rows released"}
	rules["C02"] = propRule{run: runC02, title: "iteration errors"}
}

func isQueryCall(name string) bool {
	i := strings.LastIndexByte(name, '.')
	m := name[i+1:]
	switch m {
	case "QueryContext", "QueryRowContext", "ExecContext", "Query", "QueryRow", "Exec", "BeginTx", "Begin", "PingContext", "Ping", "PrepareContext":
		return true
	}
	return false
}

func runC01(r *Report) {
	r.rule("typestate of *sql.Rows: a result set obtained by a call is closed, known nil (its call failed), or returned to the caller on every path, including paths on which a callback or a user's ScanRow panics, and within the same loop iteration")
	r.rule("no result set is read (Next, Scan, Columns) on a path on which it was closed before")
	r.rule("typestate of *sql.Row: the row of QueryRowContext is scanned or returned on every path")
	r.rule("schema discovery: no statement is issued on the connection while a result set of a previous statement is open")
	p := r.p
	n, rowsN := 0, 0
	for _, f := range p.funcs {
		acq := mentionsResult(f, rowsT)
		acqRow := mentionsResult(f, rowT)
		if !acq && !acqRow {
			continue
		}
		e := newEngine(p)
		e.Inline = func(fn *ssa.Function, depth int) bool {
			return fn.Parent() != nil || sigMentions(fn, rowsT, rowT) || takesError(fn)
		}
		e.MayPanic = userCode(p)
		name := shortFn(f)
		e.OnBack = func(st *State, rec *LoopRec) {
			for _, o := range e.openAt(st, logSince(st.log, rec.Base)) {
				r.check(false, "rows:"+name, o.ev.Instr.Pos(), "rows of %s are still open when the next iteration of the loop at %s starts, in %s", o.ev.Callee, p.pos(rec.Header.Instrs[0].Pos()), name)
			}
		}
		e.OnEvent = func(st *State, ev *Event) {
			if ev.Kind != "call" || len(ev.Args) == 0 || e.quiet != 0 || ev.Args[0].typ == nil || typeName(ev.Args[0].typ) != rowsT {
				return
			}
			switch method(ev.Callee) {
			case "Next", "Scan", "NextResultSet", "Columns", "ColumnTypes":
			default:
				return
			}
			for _, c := range st.events() {
				if c != ev && c.Kind == "call" && len(c.Args) > 0 && c.Args[0] == ev.Args[0] && method(c.Callee) == "Close" {
					r.check(false, "closed:"+name, ev.Instr.Pos(), "rows are read after they were closed at %s, in %s", p.pos(c.Instr.Pos()), name)
				}
			}
		}
		exits := e.Run(f, nil, nil)
		r.done(e, exits)
		for _, x := range exits {
			res := flatTerms(x.Results)
			for _, o := range e.openAt(x.St, x.St.events()) {
				ret := false
				for _, t := range res {
					if t == o.rows {
						ret = true
					}
				}
				how := "returns"
				if x.Panic {
					how = "panics"
				}
				r.check(ret, "rows:"+name, o.ev.Instr.Pos(), "rows of %s are not closed on a path on which %s %s at %s", o.ev.Callee, name, how, p.pos(x.Pos))
			}
			if acq {
				r.check(true, "rows:"+name, f.Pos(), "")
			}
			if !acqRow || x.Panic {
				continue
			}
			evs := x.St.events()
			for _, ev := range evs {
				v, _ := ev.resultOfType(rowT)
				if ev.Kind != "call" || v == nil {
					continue
				}
				used := false
				for _, t := range res {
					used = used || t == v
				}
				for _, u := range evs {
					if u.Kind == "call" && u != ev && argMentions(u, v) {
						used = true
					}
				}
				r.check(used, "row:"+name, ev.Instr.Pos(), "the row of %s is neither scanned nor returned in %s (exit at %s)", ev.Callee, name, p.pos(x.Pos))
			}
		}
		if acq {
			n++
		}
		if acqRow {
			rowsN++
		}
	}
	r.atLeast(n, 8, "functions that obtain rows")
	r.atLeast(rowsN, 2, "functions that obtain a row")

	// no statement while rows are open
	m := 0
	isStmt := func(name string, sig *types.Signature) bool {
		if isQueryCall(name) {
			return true
		}
		for i := 0; i < sig.Results().Len(); i++ {
			if typeName(sig.Results().At(i).Type()) == rowsT {
				return true
			}
		}
		return false
	}
	reach := p.reaches(func(c *ssa.CallCommon) bool { return isStmt(ccName(c), c.Signature()) })
	for _, f := range p.funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/schema" || f.Parent() != nil || f.Signature.Recv() == nil || !reach[f] {
			continue
		}
		if !f.Object().Exported() {
			continue
		}
		e := newEngine(p)
		e.Inline = func(fn *ssa.Function, depth int) bool { return fn.Parent() != nil || reach[fn] || takesError(fn) }
		e.OnCall = func(x *Engine, st *State, c *Call) *Outcome {
			if !isStmt(c.Name, c.Common.Signature()) || x.quiet > 0 || (c.Fn != nil && p.isRepoFn(c.Fn) && len(c.Fn.Blocks) > 0) {
				return nil
			}
			m++
			for _, o := range x.openAt(st, st.events()) {
				r.check(false, "nested:"+shortFn(f), c.Instr.Pos(), "%s is called while the rows of the call at %s are open (path from %s)", c.Name, p.pos(o.ev.Instr.Pos()), shortFn(f))
			}
			r.check(true, "nested:"+shortFn(f), f.Pos(), "")
			return nil
		}
		exits := e.Run(f, nil, nil)
		r.done(e, exits)
	}
	r.atLeast(m, 14, "statements of schema discovery")
}

func argMentions(ev *Event, v *Term) bool {
	for _, a := range ev.Args {
		if a.contains(v) {
			return true
		}
	}
	for _, a := range ev.Vals {
		if a.contains(v) {
			return true
		}
	}
	return false
}

// ---- C02

func runC02(r *Report) {
	r.rule("after an iteration over *sql.Rows ends (Next returned false), the function succeeds only if the error of Rows.Err of the same rows is known nil, or it is part of the error that is returned")
	p := r.p
	n := 0
	for _, f := range p.funcs {
		if !callsNext(f) {
			continue
		}
		n++
		e := newEngine(p)
		e.Inline = func(fn *ssa.Function, depth int) bool {
			return fn.Parent() != nil || sigMentions(fn, rowsT) || takesError(fn)
		}
		name := shortFn(f)
		exits := e.Run(f, nil, nil)
		r.done(e, exits)
		for _, x := range exits {
			if x.Panic {
				continue
			}
			checkErrAfterNext(r, e, x, name, f)
		}
	}
	r.atLeast(n, 7, "functions that iterate over rows")
}

func callsNext(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if s := c.Common().StaticCallee(); s != nil && fnName(s) == "database/sql.(Rows).Next" {
					return true
				}
			}
		}
	}
	return false
}

func errResult(f *ssa.Function, x *Exit) (*Term, bool) {
	rs := f.Signature.Results()
	res := flatTerms(x.Results)
	for i := 0; i < rs.Len(); i++ {
		if isErrorType(rs.At(i).Type()) && i < len(res) {
			return res[i], true
		}
	}
	return nil, false
}

func isScanCall(ev *Event) bool {
	switch {
	case ev.Callee == "database/sql.(Rows).Scan", ev.Callee == "database/sql.(Row).Scan":
		return true
	}
	return strings.HasSuffix(ev.Callee, ".ScanRow")
}

func checkErrAfterNext(r *Report, e *Engine, x *Exit, name string, f *ssa.Function) {
	ended := map[*Term]*Event{} // rows -> Next that returned false
	errs := map[*Term][]*Term{}
	for _, ev := range x.St.events() {
		if ev.Kind != "call" || len(ev.Args) == 0 {
			continue
		}
		switch ev.Callee {
		case "database/sql.(Rows).Next":
			if v, k := e.evalBool(x.St, ev.Result); !k || !v {
				ended[ev.Args[0]] = ev
				errs[ev.Args[0]] = nil
			} else {
				delete(ended, ev.Args[0])
			}
		case "database/sql.(Rows).Err":
			errs[ev.Args[0]] = append(errs[ev.Args[0]], ev.Result)
		}
	}
	ret, has := errResult(f, x)
	// a row that could not be read
	if n, k := e.nilness(x.St, ret); has && !(k && !n) {
		for _, ev := range x.St.events() {
			if ev.Kind != "call" || ev.Result == nil || !isScanCall(ev) {
				continue
			}
			rs := ev.results()
			er := rs[len(rs)-1]
			if !isErrorType(er.typ) || ret.contains(er) {
				continue
			}
			n, k := e.nilness(x.St, er)
			r.check(k && n, "scan:"+name, ev.Instr.Pos(), "%s can succeed at %s although a row could not be read", name, r.p.pos(x.Pos))
		}
	}
	for rows, ev := range ended {
		okk := false
		if has {
			if n, k := e.nilness(x.St, ret); k && !n {
				okk = true // reports an error
			}
		}
		for _, er := range errs[rows] {
			if n, k := e.nilness(x.St, er); k && n {
				okk = true
			}
			if has && ret.contains(er) {
				okk = true
			}
		}
		r.check(okk, "err:"+name, ev.Instr.Pos(), "%s can succeed at %s after the iteration over rows ended, without Rows.Err being nil", name, r.p.pos(x.Pos))
	}
	if len(ended) == 0 {
		r.check(true, "err:"+name, f.Pos(), "")
	}
}

var _ = fmt.Sprint
