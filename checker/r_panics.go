package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C06: what a failed step gave, and what was found to be missing, is not used.

func init() {
	rules["C06"] = propRule{run: runC06, title: "A failure is an error, not a panic", assum: []string{
		"A function of another module that gives a pointer or an interface and an error gives nothing that can be used with an error (documented by database/sql, pq, migrate, os, net and encoding).",
		"Whether a value that no path asks about can be nil is not decided."}}
}

// endsTest: methods that do not return.
var endsTest = map[string]bool{"FailNow": true, "Fatal": true, "Fatalf": true, "Exit": true, "Goexit": true}

func runC06(r *Report) {
	r.rule("every path of every function: no method is called on an interface that the path knows to be nil; no field, element or entry is read or written through a pointer, list or map that the path knows to be nil or too short; a pointer, interface or function that came with an error is not used where the error is known not to be nil, also not by a deferred call")
	p := r.p
	n, uses := 0, 0
	for _, f := range p.funcs {
		if p.isMock(pkgOf(f)) || f.Synthetic != "" && f.Parent() == nil {
			continue
		}
		n++
		name := shortFn(f)
		e := newEngine(p)
		e.Inline = func(fn *ssa.Function, depth int) bool { return fn.Parent() != nil || takesError(fn) }
		// why the value cannot be used
		bad := func(st *State, v *Term) string {
			if v == nil || v.typ == nil && v.op != "nil" {
				return ""
			}
			if v.op != "nil" {
				switch v.typ.Underlying().(type) {
				case *types.Pointer, *types.Interface, *types.Signature:
				default:
					return ""
				}
			}
			uses++
			if nn, k := e.nilness(st, v); k {
				if nn {
					return "is nil here"
				}
				return "" // asked for
			}
			for _, ev := range st.events() {
				if ev.Kind == "call" && endsTest[method(ev.Callee)] {
					return ""
				}
			}
			for _, ev := range st.events() {
				if ev.Kind != "call" || ev.Result == nil || len(ev.results()) < 2 {
					continue
				}
				rs := ev.results()
				er := rs[len(rs)-1]
				if er == nil || !isErrorType(er.typ) {
					continue
				}
				for _, x := range rs[:len(rs)-1] {
					if x != v {
						continue
					}
					if nn, k := e.nilness(st, er); k && !nn && !passedErr(e, st, er) {
						return "is the result of " + method(ev.Callee) + ", which failed"
					}
				}
			}
			return ""
		}
		report := func(what string, st *State, v *Term, pos token.Pos) {
			if why := bad(st, v); why != "" {
				r.check(false, "use:"+name+":"+what, pos, "%s: %s is used, which %s", name, what, why)
			}
		}
		e.OnCall = func(e *Engine, st *State, c *Call) *Outcome {
			if e.quiet != 0 || len(c.Args) == 0 || c.Common == nil {
				if c.Common != nil && e.quiet == 0 && c.Fn == nil && !c.Common.IsInvoke() && c.Dyn != nil {
					report("the function", st, c.Dyn, c.Instr.Pos())
				}
				return nil
			}
			switch {
			case c.Common.IsInvoke():
				report("the receiver of "+c.Common.Method.Name(), st, c.Args[0], c.Instr.Pos())
			case c.Fn != nil && c.Fn.Signature.Recv() != nil && !p.isRepoFn(c.Fn):
				if _, ok := c.Fn.Signature.Recv().Type().(*types.Pointer); ok {
					report("the receiver of "+c.Fn.Name(), st, c.Args[0], c.Instr.Pos())
				}
			case c.Fn == nil && c.Dyn != nil:
				report("the function", st, c.Dyn, c.Instr.Pos())
			}
			return nil
		}
		place := func(st *State, a *Term, pos token.Pos) {
			for a != nil && len(a.args) > 0 {
				switch a.op {
				case "field":
					if b := a.args[0]; b.op != "field" && b.op != "index" {
						report("a field", st, b, pos)
						return
					}
				case "index":
					l := a.args[0]
					if l.typ == nil {
						return
					}
					if _, ok := l.typ.Underlying().(*types.Slice); ok && a.args[1].op != "any" {
						uses++
						ln := toLin(e.lenOf(l))
						// the index is not below the length
						if v, k := e.evalBool(st, e.le0(linAdd(ln, toLin(a.args[1]), -1))); k && v {
							r.check(false, "index:"+name, pos, "%s: an element behind the end of a list is used", name)
						}
						return
					}
				default:
					return
				}
				a = a.args[0]
			}
		}
		e.OnAccess = func(st *State, addr *Term, in ssa.Instruction) { place(st, addr, in.Pos()) }
		e.OnEvent = func(st *State, ev *Event) {
			if ev.Instr == nil {
				return
			}
			switch ev.Kind {
			case "store":
				place(st, ev.Args[0], ev.Instr.Pos())
			case "mapupdate":
				uses++
				if nn, k := e.nilness(st, ev.Args[0]); k && nn {
					r.check(false, "map:"+name, ev.Instr.Pos(), "%s: an entry is put into a map that is nil", name)
				}
			}
		}
		r.check(true, "function:"+name, f.Pos(), "")
		exits := e.Run(f, nil, nil)
		r.done(e, exits)
	}
	r.atLeast(n, 200, "functions")
	r.atLeast(uses, 500, "uses of pointers, interfaces, lists and maps")
}

// passedErr: the error is known to be one that comes with a result.
func passedErr(e *Engine, st *State, er *Term) bool {
	for t, v := range st.b {
		if v && t.op == "errorsIs" && t.args[0].contains(er) && strings.Contains(t.args[1].String(), "EOF") {
			return true
		}
	}
	return false
}
