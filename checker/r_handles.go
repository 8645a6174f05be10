package main

import (
	"golang.org/x/tools/go/ssa"
)

// C09: what a call opened is given to the caller, kept, or closed.

const (
	dbT = "database/sql.DB"
	txT = "database/sql.Tx"
)

func init() {
	rules["C09"] = propRule{run: runC09, title: "A connection that is opened is kept or closed", assum: []string{
		"sql.Open, (*sql.DB).BeginTx and (*sql.DB).Conn give nothing that has to be closed together with an error (documented).",
		"An object that is given to the caller, or that the caller gave, is closed by the caller."}}
}

func runC09(r *Report) {
	r.rule("ownership of *sql.DB, *sql.Tx and *sql.Conn, and of the provider that NewProvider makes: on every return of a function whose calls gave such a handle, the handle is known not to exist (its call failed), it was closed (committed, rolled back), or it is reachable from what is returned or from what the caller gave")
	r.rule("a call that fails gives no handle that is still open")
	p := r.p
	isHandle := func(t *Term) bool {
		switch typeName(t.typ) {
		case dbT, txT, "database/sql.Conn":
			return true
		}
		return false
	}
	maker := p.Func("", "NewProvider")
	n := 0
	for _, f := range p.funcs {
		if p.isMock(pkgOf(f)) {
			continue
		}
		acq := mentionsResult(f, dbT) || mentionsResult(f, txT) || mentionsResult(f, "database/sql.Conn")
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && maker != nil && c.Common().StaticCallee() == maker {
					acq = true
				}
			}
		}
		if !acq {
			continue
		}
		name := shortFn(f)
		e := newEngine(p)
		e.Inline = func(fn *ssa.Function, depth int) bool {
			return fn.Parent() != nil || takesError(fn) || fn != maker && sigMentions(fn, dbT, txT, "database/sql.Conn")
		}
		exits := e.Run(f, nil, nil)
		r.done(e, exits)
		n++
		key := "handle:" + name
		r.check(true, key, f.Pos(), "")
		for _, x := range exits {
			if x.Panic {
				continue
			}
			evs := x.St.events()
			// what the caller can reach
			reach := map[*Term]bool{}
			var add func(t *Term)
			add = func(t *Term) {
				if t == nil || reach[t] {
					return
				}
				reach[t] = true
				for _, a := range t.args {
					add(a)
				}
			}
			res := flatTerms(x.Results)
			failed := false
			for _, t := range res {
				if isErrorType(t.typ) {
					if nn, k := e.nilness(x.St, t); k && !nn {
						failed = true
					}
				}
			}
			for _, t := range res {
				if !failed || isErrorType(t.typ) {
					add(t)
				}
			}
			for {
				was := len(reach)
				for _, ev := range evs {
					switch ev.Kind {
					case "store":
						if rt := root(ev.Args[0]); reach[rt] || !isFresh(rt) && !failed {
							for _, v := range append(append([]*Term{}, ev.Args[1:]...), ev.Vals...) {
								add(v)
							}
						}
					case "call":
						// an object made of it
						for _, q := range ev.results() {
							if reach[q] && !isErrorType(q.typ) {
								for _, a := range ev.Args {
									add(a)
								}
							}
						}
					}
				}
				if len(reach) == was {
					break
				}
			}
			for _, ev := range evs {
				if ev.Kind != "call" || ev.Result == nil {
					continue
				}
				var h, er *Term
				for _, q := range ev.results() {
					switch {
					case isErrorType(q.typ):
						er = q
					case isHandle(q) || ev.Fn != nil && ev.Fn == maker:
						h = q
					}
				}
				if h == nil {
					continue
				}
				if nn, k := e.nilness(x.St, h); k && nn {
					continue
				}
				if er != nil {
					if nn, k := e.nilness(x.St, er); k && !nn {
						continue
					}
				}
				closed := reach[h]
				for _, c := range evs {
					if c.Kind != "call" || len(c.Args) == 0 || c.Args[0] != h {
						continue
					}
					switch method(c.Callee) {
					case "Close", "Commit", "Rollback":
						closed = true
					}
				}
				r.check(closed, key, ev.Instr.Pos(), "what %s gave is neither closed nor kept when %s returns at %s", method(ev.Callee), name, p.pos(x.Pos))
			}
		}
	}
	r.atLeast(n, 3, "functions that open a connection or a transaction")
}
