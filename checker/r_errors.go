package main

import (
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C03"] = propRule{run: runC03, title: "errors reported"}
}

// calls whose error result carries no information about the outcome of the operation
var ignorableErr = map[string]bool{
	"database/sql.(Rows).Close": true, // release of a result set; its read errors are reported by Rows.Err (C02)
	"database/sql.(Stmt).Close": true,
}

// in-memory sinks and terminal output
func ignorableErrCall(ev *Event) bool {
	n := ev.Callee
	if ignorableErr[n] {
		return true
	}
	for _, p := range []string{"bytes.(Buffer).", "strings.(Builder).", "hash.", "github.com/effective-security/xlog.", "fmt.Print"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	if n == "net.InterfaceAddrs" {
		return true // documented: the machine ID is 0 where the addresses are not available
	}
	if strings.HasPrefix(n, "fmt.Fprint") && len(ev.Args) > 0 && !ev.Args[0].any(func(t *Term) bool { return strings.HasPrefix(typeName(t.typ), "os.") }) {
		return true // terminal output
	}
	if n == "io.(Writer).Write" && len(ev.Args) > 0 && strings.HasPrefix(typeName(ev.Args[0].typ), "hash.") {
		return true
	}
	return false
}

// sentinels of errors that mean success of the operation, and the operations
var benignSentinel = map[string]string{
	"database/sql.ErrTxDone":                             "Rollback",
	"github.com/golang-migrate/migrate/v4.ErrNoChange":   "Up Migrate Steps Down",
	"github.com/golang-migrate/migrate/v4.ErrNilVersion": "Version",
}

// benign: the path has established errors.Is(err, sentinel).
func (e *Engine) benign(st *State, err *Term, callee string) bool {
	m := callee[strings.LastIndexByte(callee, '.')+1:]
	return e.benignAs(st, err, func(w string) bool { return w == m })
}

// benignOf: as benign, for a call of a function of the library also if the operation is reached from it.
func (e *Engine) benignOf(st *State, err *Term, ev *Event) bool {
	if e.benign(st, err, ev.Callee) {
		return true
	}
	if ev.Fn == nil || !e.p.isRepoFn(ev.Fn) {
		return false
	}
	return e.benignAs(st, err, func(w string) bool {
		return e.p.reaches(func(c *ssa.CallCommon) bool { return method(ccName(c)) == w })[ev.Fn]
	})
}

func (e *Engine) benignAs(st *State, err *Term, is func(m string) bool) bool {
	sentinel := func(t *Term) bool {
		return t.any(func(x *Term) bool {
			n := x.aux
			if x.op == "global" && x.gl != nil {
				n = x.gl.String()
			} else if x.op != "gval" {
				return false
			}
			for _, w := range strings.Fields(benignSentinel[n]) {
				if is(w) {
					return true
				}
			}
			return false
		})
	}
	for t, v := range st.b {
		if v && t.op == "errorsIs" && t.args[0].contains(err) && sentinel(t.args[1]) {
			return true
		}
		if v && t.op == "eq" && len(t.args) == 2 {
			if t.args[0].contains(err) && sentinel(t.args[1]) || t.args[1].contains(err) && sentinel(t.args[0]) {
				return true
			}
		}
	}
	return false
}

// takesError: the function is given an error.
func takesError(fn *ssa.Function) bool {
	return slices.ContainsFunc(fn.Params, func(q *ssa.Parameter) bool { return isErrorType(q.Type()) })
}

func runC03(r *Report) {
	r.rule("effect/dataflow rule over every function with an error result: on every path that can return a nil error, the error of every call on the path is known nil, or errors.Is of a sentinel that means success; inside loops the error is known nil when the next iteration starts")
	p := r.p
	n, errs := 0, 0
	for _, f := range p.funcs {
		if !hasResult(f, isErrorType) || p.isMock(pkgOf(f)) {
			continue
		}
		n++
		e := newEngine(p)
		e.Inline = func(fn *ssa.Function, depth int) bool {
			// a function that an error is handed to decides what becomes of it
			return fn.Parent() != nil || takesError(fn)
		}
		name := shortFn(f)
		judge := func(st *State, evs []*Event, ret *Term, where string) {
			for _, ev := range evs {
				if ev.Kind != "call" || ev.Result == nil {
					continue
				}
				for _, er := range flatTerms(ev.results()) {
					if !isErrorType(er.typ) {
						continue
					}
					errs++
					key := "error:" + name + ":" + strings.ReplaceAll(ev.Callee, modPath, "xdb")
					if ignorableErrCall(ev) {
						continue
					}
					ok := ret != nil && ret.contains(er) || passedTo(evs, er, "text/template.Must", "html/template.Must")
					if nn, k := e.nilness(st, er); k && nn {
						ok = true
					}
					if !ok && e.benignOf(st, er, ev) {
						ok = true
					}
					r.check(ok, key, ev.Instr.Pos(), "%s: the error of %s is not reported: %s", name, ev.Callee, where)
				}
			}
		}
		e.OnBack = func(st *State, rec *LoopRec) {
			judge(st, logSince(st.log, rec.Base), nil, "the loop goes on")
		}
		exits := e.Run(f, nil, nil)
		r.done(e, exits)
		for _, x := range exits {
			if x.Panic {
				continue
			}
			ret, ok := errResult(f, x)
			if !ok {
				r.problems = append(r.problems, "no error result at an exit of "+name)
				continue
			}
			if nn, k := e.nilness(x.St, ret); k && !nn {
				continue
			}
			judge(x.St, x.St.events(), ret, "success is returned at "+p.pos(x.Pos))
		}
	}
	r.atLeast(n, 60, "functions with an error result")
}

// passedTo: the term is an argument of a call of one of the functions.
func passedTo(evs []*Event, t *Term, names ...string) bool {
	for _, ev := range evs {
		if ev.Kind != "call" {
			continue
		}
		for _, n := range names {
			if ev.Callee == n && argMentions(ev, t) {
				return true
			}
		}
	}
	return false
}
