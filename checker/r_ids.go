package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["B05"] = propRule{run: runB05, title: "IDs are immutable values, and ID lists are sets"}
}

// namedOf is the named type of a term of a struct or pointer to struct.
func namedOf(t types.Type) *types.Named {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

// idCell is the shared cell behind an ID: the pointed struct of its only field, if there is one.
func (p *Program) idCell() *types.Named {
	id := p.Named("", "ID")
	if id == nil {
		return nil
	}
	s, ok := id.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if pt, ok := s.Field(i).Type().Underlying().(*types.Pointer); ok {
			if n, ok := types.Unalias(pt.Elem()).(*types.Named); ok && p.isRepo(n.Obj().Pkg()) {
				return n
			}
		}
	}
	return nil
}

// storesTo lists functions of the repository with stores to fields of T.
func (p *Program) storesTo(T *types.Named) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					if pt, ok := fa.X.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), T) {
						r[f] = true
					}
				} else if pt, ok := s.Addr.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), T) {
					r[f] = true
				}
			}
		}
	}
	return r
}

// entriesOf: exported functions, functions without a caller in the repository, and functions whose value is taken, from which one of the functions is reached.
func (p *Program) entriesOf(fs map[*ssa.Function]bool) []*ssa.Function {
	callers := map[*ssa.Function][]*ssa.Function{}
	taken := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						callers[g] = append(callers[g], f)
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if c, ok := in.(ssa.CallInstruction); !ok || c.Common().Value != *op {
							taken[g] = true
						}
					}
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	var r []*ssa.Function
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		if seen[f] || !p.isRepoFn(f) {
			return
		}
		seen[f] = true
		exp := f.Object() != nil && f.Object().Exported()
		if exp || taken[f] || len(callers[f]) == 0 {
			r = append(r, f)
		}
		if f.Parent() != nil {
			up(f.Parent())
		}
		if !exp {
			for _, c := range callers[f] {
				up(c)
			}
		}
	}
	for f := range fs {
		up(f)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func runB05(r *Report) {
	r.rule("the number behind an ID is written only while its cell is new: no operation changes the number that copies of an ID see, and the cached text is only ever the decimal text of the number")
	r.rule("operations on ID lists, other than Scan and Sort, never write to the array of a list that the caller holds; Add appends only behind a capacity that is cut to the length")
	r.rule("Contains is true exactly if an element has the same number; Add adds exactly the IDs that are not in the list; Concat and NewIDArray are repeated Add; Overlaps is true exactly if an element of one list is in the other")
	cell := r.p.idCell()
	if cell == nil {
		// an ID without a shared cell is a plain value
		r.check(r.p.Named("", "ID") != nil, "cell:ID", token.NoPos, "the type ID is not found")
	} else {
		s := cell.Underlying().(*types.Struct)
		n := 0
		for _, f := range r.p.entriesOf(r.p.storesTo(cell)) {
			n++
			key := "cell:" + shortFn(f)
			var eng *Engine
			rr := r.run(f, func(e *Engine, st *State, args []*Term) {
				eng = e
				e.OnInstr = func(st *State, in ssa.Instruction, ctx string) {}
			})
			_ = eng
			check := func(x *Exit, ev *Event) {
				if ev.Kind != "store" || len(ev.Args) < 2 {
					return
				}
				a := ev.Args[0]
				if pt, ok := a.typ.Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), cell) {
					r.check(isFresh(root(a)), key, ev.Instr.Pos(), "%s overwrites the shared cell of an ID", shortFn(f))
					return
				}
				if a.op != "field" || !strings.HasPrefix(a.aux, typeKey(cell)+".") {
					return
				}
				base := a.args[0]
				if isFresh(base) {
					r.check(true, key, ev.Instr.Pos(), "")
					return
				}
				ft := ptrElem(a)
				if isString(ft) {
					// the decimal text of the number of the same cell
					var num *Term
					for i := 0; i < s.NumFields(); i++ {
						if isInteger(s.Field(i).Type()) {
							num = rr.e.load(x.St, rr.e.fieldAddr(base, cell, i), s.Field(i).Type())
						}
					}
					r.check(num != nil && isDecimal(rr.e, x.St, ev.Args[1], num), key, ev.Instr.Pos(), "%s keeps %s as the text of an ID", shortFn(f), ev.Args[1])
					return
				}
				r.check(false, key, ev.Instr.Pos(), "%s changes the number that copies of an ID share", shortFn(f))
			}
			for _, x := range rr.exits {
				for _, ev := range x.St.events() {
					check(x, ev)
					if ev.Kind == "loop" {
						for i, it := range ev.Loop.Iters {
							_ = i
							for _, ie := range it {
								check(x, ie)
							}
						}
					}
				}
			}
		}
		r.check(n > 0, "cell:ID", token.NoPos, "no function makes IDs")
	}
	r.idLists()
}

// idLists: list operations.
func (r *Report) idLists() {
	p := r.p
	LT := p.Named("", "IDArray")
	num := p.Method("", "ID", "UInt64")
	if LT == nil || num == nil {
		r.missing("IDArray, ID.UInt64")
		return
	}
	// no writes to arrays of the caller
	var ms []*ssa.Function
	for _, t := range []types.Type{LT, types.NewPointer(LT)} {
		set := p.prog.MethodSets.MethodSet(t)
		for i := 0; i < set.Len(); i++ {
			if f := p.prog.MethodValue(set.At(i)); f != nil && f.Synthetic == "" {
				ms = append(ms, f)
			}
		}
	}
	inPlace := map[string]bool{"Scan": true, "Sort": true}
	method := map[*ssa.Function]bool{}
	for _, f := range ms {
		method[f] = true
	}
	n := 0
	for _, f := range ms {
		if inPlace[f.Name()] {
			continue
		}
		if !f.Object().Exported() && p.helperOf(f, func(h *ssa.Function) bool { return h != f && h.Object() != nil && h.Object().Exported() && method[h] }) {
			continue // seen where it is called
		}
		n++
		rr := r.run(f, nil)
		key := "share:" + f.Name()
		see := func(ev *Event) {
			switch ev.Kind {
			case "store":
				a := ev.Args[0]
				if ro := root(a); a.op == "index" && !ownList(ro) {
					r.check(false, key, ev.Instr.Pos(), "%s writes to an array that other lists share: %s", f.Name(), a)
				}
			case "append":
				r.check(appendOwns(rr, ev.Args[0]), key, ev.Instr.Pos(), "%s appends to a list that may share its array: %s", f.Name(), ev.Args[0])
			case "call":
				if strings.HasPrefix(ev.Callee, "sort.") || strings.HasPrefix(ev.Callee, "slices.Sort") {
					for _, a := range ev.Args {
						if ro := root(unIface(a)); !isFresh(ro) && ro.op == "param" {
							r.check(false, key, ev.Instr.Pos(), "%s reorders the list of the caller", f.Name())
						}
					}
				}
			}
		}
		for _, x := range rr.exits {
			for _, ev := range x.St.events() {
				see(ev)
				if ev.Kind == "loop" {
					for _, it := range ev.Loop.Iters {
						for _, ie := range it {
							see(ie)
						}
					}
				}
			}
		}
		r.check(true, key, f.Pos(), "")
	}
	r.atLeast(n, 5, "list operations")
	// search operations
	eqElem := func(rr *runRes, st *State, a, b *Term) (bool, bool) {
		eq, all, any := true, true, false
		for _, x := range rr.e.Run(num, st.clone(), []*Term{a}) {
			for _, y := range rr.e.Run(num, x.St.clone(), []*Term{b}) {
				if x.Panic || y.Panic {
					continue
				}
				any = true
				v, k := rr.e.evalBool(y.St, rr.e.eqTerm(x.Results[0], y.Results[0], basic(types.Uint64)))
				if !k {
					return false, false
				}
				eq = eq && v
				all = all && !v
			}
		}
		if !any || eq == all {
			return false, false
		}
		return eq, true
	}
	ET := LT.Underlying().(*types.Slice).Elem()
	// found: on the path some element of list equals id; the element is at an index of a loop
	found := func(rr *runRes, x *Exit, list, id *Term) bool {
		for _, ev := range x.St.events() {
			if ev.Kind != "loop" {
				continue
			}
			for _, idx := range loopIndexes(rr.e, ev.Loop) {
				el := rr.e.load(x.St, rr.e.ts.mk("index", "", types.NewPointer(ET), list, idx), ET)
				if v, k := eqElem(rr, x.St, el, id); k && v {
					return true
				}
			}
		}
		return false
	}
	// absent: every element was compared, and differs
	absent := func(rr *runRes, x *Exit, list, id *Term) bool {
		if lenZero(rr.e, x.St, list) {
			return true
		}
		for _, ev := range x.St.events() {
			if ev.Kind != "loop" {
				continue
			}
			idx := loopOver(rr.e, x.St, ev.Loop, list)
			if idx == nil {
				continue
			}
			ok := len(ev.Loop.Backs) > 0
			for _, bs := range ev.Loop.Backs {
				el := rr.e.load(bs, rr.e.ts.mk("index", "", types.NewPointer(ET), list, idx), ET)
				if v, k := eqElem(rr, bs, el, id); !k || v {
					ok = false
				}
			}
			if ok {
				return true
			}
		}
		return false
	}
	contains := p.Method("", "IDArray", "Contains")
	if contains == nil {
		r.missing("IDArray.Contains")
		return
	}
	rr := r.run(contains, nil)
	at := func(rr *runRes, bs *State, list, idx *Term) *Term {
		return rr.e.load(bs, rr.e.ts.mk("index", "", types.NewPointer(ET), list, idx), ET)
	}
	same := func(rr *runRes, id *Term) func(bs *State, el *Term, want bool) bool {
		return func(bs *State, el *Term, want bool) bool {
			v, k := eqElem(rr, bs, el, id)
			return k && v == want
		}
	}
	// flag: the result is a flag that a loop over the list sets exactly if there is an element with the property
	flag := func(rr *runRes, x *Exit, list *Term, v bool, has func(bs *State, el *Term, want bool) bool) bool {
		for _, ev := range x.St.events() {
			if ev.Kind != "loop" {
				continue
			}
			for _, sl := range ev.Loop.Slots {
				if c, ok := sl.Entry.constBool(); sl.Sym != x.Results[0] || !ok || c || len(sl.Backs) == 0 {
					continue
				}
				idx := loopOver(rr.e, x.St, ev.Loop, list)
				if !v && idx == nil {
					continue
				}
				good := true
				for bi, b := range sl.Backs {
					bs := ev.Loop.Backs[bi].clone()
					if !rr.e.assume(bs, b, v) {
						continue
					}
					was, k := rr.e.evalBool(bs, sl.Sym)
					switch {
					case v && k && was:
					case v:
						any := false
						for _, i := range loopIndexes(rr.e, ev.Loop) {
							any = any || has(bs, at(rr, bs, list, i), true)
						}
						good = good && any
					default:
						good = good && k && !was && has(bs, at(rr, bs, list, idx), false)
					}
				}
				if good {
					return true
				}
			}
		}
		return false
	}
	for _, x := range boolCases(rr) {
		key := "set:Contains"
		v, k := rr.e.evalBool(x.St, x.Results[0])
		if !r.check(k, key, x.Pos, "Contains returns %s", x.Results[0]) {
			continue
		}
		if flag(rr, x, rr.args[0], v, same(rr, rr.args[1])) {
			r.check(true, key, x.Pos, "")
			continue
		}
		if v {
			r.check(found(rr, x, rr.args[0], rr.args[1]), key, x.Pos, "Contains is true although no element has the number of the ID")
		} else {
			r.check(absent(rr, x, rr.args[0], rr.args[1]), key, x.Pos, "Contains is false although an element may have the number of the ID")
		}
	}
	// Add and Overlaps may use Contains
	viaContains := func(e *Engine, st *State, c *Call) *Outcome {
		if c.Fn == contains {
			o := &Outcome{}
			for i, s := range []*State{st.clone(), st} {
				b := e.ts.boolTerm(i == 0)
				s.event(&Event{Kind: "call", Instr: c.Instr, Ctx: c.Ctx, Callee: c.Name, Fn: c.Fn, Args: c.Args, Vals: c.Args, Result: b})
				o.States = append(o.States, s)
				o.Results = append(o.Results, b)
			}
			return o
		}
		return nil
	}
	asked := func(x *Exit, list, id *Term, want bool) bool {
		for _, ev := range x.St.events() {
			if ev.Kind == "call" && ev.Fn == contains && ev.Args[0] == list && ev.Args[1] == id {
				if v, ok := ev.Result.constBool(); ok && v == want {
					return true
				}
			}
		}
		return false
	}
	add := p.Method("", "IDArray", "Add")
	if add == nil {
		r.missing("IDArray.Add")
		return
	}
	ar := r.run(add, func(e *Engine, st *State, args []*Term) { e.OnCall = viaContains })
	for _, x := range ar.returns() {
		key := "set:Add"
		list, id := ar.args[0], ar.args[1]
		res := x.Results[0]
		switch {
		case res == list:
			r.check(found(ar, x, list, id) || asked(x, list, id, true), key, x.Pos, "Add returns the list although the ID is not in it")
		case isListPlus(ar, x, res, list, id):
			r.check(absent(ar, x, list, id) || asked(x, list, id, false), key, x.Pos, "Add adds an ID that is in the list")
		default:
			r.check(false, key, x.Pos, "Add returns %s", res)
		}
	}
	over := p.Method("", "IDArray", "Overlaps")
	if over == nil {
		r.missing("IDArray.Overlaps")
		return
	}
	or := r.run(over, func(e *Engine, st *State, args []*Term) { e.OnCall = viaContains })
	for _, x := range boolCases(or) {
		key := "set:Overlaps"
		v, k := or.e.evalBool(x.St, x.Results[0])
		if !r.check(k, key, x.Pos, "Overlaps returns %s", x.Results[0]) {
			continue
		}
		ok := false
		for _, side := range [2][2]*Term{{or.args[0], or.args[1]}, {or.args[1], or.args[0]}} {
			over, in := side[0], side[1]
			if flag(or, x, over, v, func(bs *State, el *Term, want bool) bool {
				for _, ie := range bs.events() {
					if ie.Kind == "call" && ie.Fn == contains && ie.Args[0] == in && ie.Args[1] == el {
						if v, k := or.e.evalBool(bs, ie.Result); k && v == want {
							return true
						}
					}
				}
				return false
			}) {
				ok = true
				continue
			}
			if v {
				for _, ev := range x.St.events() {
					if ev.Kind != "loop" {
						continue
					}
					for _, idx := range loopIndexes(or.e, ev.Loop) {
						el := or.e.load(x.St, or.e.ts.mk("index", "", types.NewPointer(ET), over, idx), ET)
						if asked(x, in, el, true) {
							ok = true
						}
					}
				}
				continue
			}
			if lenZero(or.e, x.St, over) {
				ok = true
			}
			for _, ev := range x.St.events() {
				if ev.Kind != "loop" {
					continue
				}
				idx := loopOver(or.e, x.St, ev.Loop, over)
				if idx == nil {
					continue
				}
				all := len(ev.Loop.Backs) > 0
				for _, bs := range ev.Loop.Backs {
					el := or.e.load(bs, or.e.ts.mk("index", "", types.NewPointer(ET), over, idx), ET)
					no := false
					for _, ie := range bs.events() {
						if ie.Kind == "call" && ie.Fn == contains && ie.Args[0] == in && ie.Args[1] == el {
							if v, k := ie.Result.constBool(); k && !v {
								no = true
							}
						}
					}
					all = all && no
				}
				ok = ok || all
			}
		}
		r.check(ok, key, x.Pos, "Overlaps is %v although the lists are not compared so", v)
	}
	r.rule("IDArrayFromStrings is repeated Add of the IDs of the texts that are IDs; Sort returns the list in ascending order of the numbers; Valid is true, and Invalid and IsZero are false, exactly if the number is not 0, which it is after Reset")
	runFromStrings(r, add)
	runSorted(r)
	runPredicates(r)
	// folds of Add
	for _, name := range []string{"Concat", "NewIDArray"} {
		var f *ssa.Function
		if name == "Concat" {
			f = p.Method("", "IDArray", name)
		} else {
			f = p.Func("", name)
		}
		if f == nil {
			r.missing(name)
			continue
		}
		key := "set:" + name
		fr := r.run(f, func(e *Engine, st *State, args []*Term) {
			e.Inline = func(g *ssa.Function, d int) bool { return g != add && g != f }
			e.OnCall = func(e *Engine, st *State, c *Call) *Outcome {
				if c.Fn == add || c.Fn == f {
					return quietCall(e, st, c) // they do not write to lists
				}
				return nil
			}
		})
		for _, x := range fr.returns() {
			res := x.Results[0]
			ok := false
			why := ""
			// a symmetric call
			for _, ev := range x.St.events() {
				if ev.Kind == "call" && ev.Fn == f && ev.Result == res && len(ev.Args) == 2 && ev.Args[0] == fr.args[1] && ev.Args[1] == fr.args[0] {
					ok = true
				}
			}
			starts := []*Term{fr.args[0]}
			if name == "Concat" {
				starts = fr.args
			}
			for _, ev := range x.St.events() {
				if ev.Kind != "loop" || ok {
					continue
				}
				for _, sl := range ev.Loop.Slots {
					if sl.Sym != res || len(sl.Backs) == 0 {
						continue
					}
					src := starts[len(starts)-1]
					if name == "Concat" {
						if sl.Entry == fr.args[1] {
							src = fr.args[0]
						} else if sl.Entry != fr.args[0] {
							why = "the list starts with " + sl.Entry.String()
							continue
						}
					} else if !lenZero(fr.e, x.St, sl.Entry) {
						why = "the list starts with " + sl.Entry.String()
						continue
					}
					idx := loopOver(fr.e, x.St, ev.Loop, src)
					if idx == nil {
						why = "not all elements are added"
						continue
					}
					good := true
					for bi, b := range sl.Backs {
						one := false
						for _, it := range ev.Loop.Iters {
							for _, ie := range it {
								if ie.Kind == "call" && ie.Fn == add && ie.Result == b && ie.Args[0] == sl.Sym {
									bs := ev.Loop.Backs[bi]
									el := fr.e.load(bs, fr.e.ts.mk("index", "", types.NewPointer(src.typ.Underlying().(*types.Slice).Elem()), src, idx), src.typ.Underlying().(*types.Slice).Elem())
									if ie.Args[1] == el || idValueIs(fr.e, bs, ie.Args[1], el) {
										one = true
									}
								}
							}
						}
						good = good && one
					}
					ok = good
				}
			}
			if why == "" {
				why = "it does not add each element"
			}
			r.check(ok, key, x.Pos, "%s returns %s: %s", name, res, why)
		}
	}
}

// boolCases are the returns, with a first result that is not known taken as either.
func boolCases(rr *runRes) (r []*Exit) {
	for _, x := range rr.returns() {
		if _, k := rr.e.evalBool(x.St, x.Results[0]); k {
			r = append(r, x)
			continue
		}
		for _, v := range []bool{true, false} {
			y := *x
			y.St = x.St.clone()
			if rr.e.assume(y.St, x.Results[0], v) {
				r = append(r, &y)
			}
		}
	}
	return
}

// loopIndexes: index terms of the visited elements of a loop.
func loopIndexes(e *Engine, rec *LoopRec) (r []*Term) {
	for _, s := range rec.Slots {
		if s.Phi == nil || !isInteger(s.Sym.typ) {
			continue
		}
		if c, ok := s.Entry.constInt(); ok {
			r = append(r, e.ts.sub(s.Sym, e.ts.bigTerm(c), s.Sym.typ), s.Sym)
		}
	}
	return
}

func ownList(t *Term) bool { return isFresh(t) }

// appendOwns: appending to the list cannot write to an array that another list sees.
func appendOwns(rr *runRes, l *Term) bool {
	switch l.op {
	case "nil", "append", "appendv":
		return true
	case "slice":
		// s[a:b:b]
		if len(l.args) == 4 && l.args[3] != nil && !l.args[3].isNil() && l.args[2] == l.args[3] {
			return true
		}
		return appendOwns(rr, l.args[0])
	}
	if l.typ != nil && isLoopSym(l) {
		return true // decided for the values it is made of
	}
	if isFresh(root(l)) {
		return true
	}
	// a result of a call of the repository, or a converted list
	return l.op == "call" || l.op == "extract"
}

func isLoopSym(t *Term) bool { return strings.HasPrefix(t.op, "loop") || t.op == "join" }

// isListPlus: res is list with id appended.
func isListPlus(rr *runRes, x *Exit, res, list, id *Term) bool {
	if (res.op == "append") && len(res.args) == 2 && res.args[1] == id {
		b := res.args[0]
		if b.op == "slice" && b.args[0] == list {
			lo := b.args[1]
			hi := b.args[2]
			okLo := lo.isNil() || lo.isInt(0)
			okHi := hi.isNil() || hi == rr.e.lenOf(list)
			return okLo && okHi
		}
		if b.op == "appendv" && len(b.args) == 2 && b.args[1] == list && lenZero(rr.e, x.St, b.args[0]) {
			return true
		}
		if b == list {
			return true
		}
	}
	// any other way to make the contents, in storage of its own
	own := res.op == "append" && appendOwns(rr, res.args[0]) || isFresh(root(res)) || res.op == "call" && (strings.HasPrefix(res.aux, "slices.Concat") || strings.HasPrefix(res.aux, "slices.Clone"))
	if !own {
		return false
	}
	s := rr.e.newSeqs(x.St)
	before := s.of(list)
	s.replay(x.St.events())
	return s.same(s.of(res), append(append(seq{}, before...), part{elem: id})) && s.same(s.of(list), before)
}

// quietCall models a call that changes nothing: an event and an unknown result.
func quietCall(e *Engine, st *State, c *Call) *Outcome {
	res := e.freshResult(st, c)
	vals := make([]*Term, len(c.Args))
	for i, a := range c.Args {
		vals[i] = e.snapshot(st, a)
	}
	ev := &Event{Kind: "call", Instr: c.Instr, Ctx: c.Ctx, Callee: c.Name, Fn: c.Fn, Args: c.Args, Vals: vals, Result: res, Defer: c.Defer}
	st.event(ev)
	if e.OnEvent != nil && e.quiet == 0 {
		e.OnEvent(st, ev)
	}
	return &Outcome{States: []*State{st}, Results: []*Term{res}}
}
