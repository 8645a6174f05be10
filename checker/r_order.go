package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["G04"] = propRule{run: runG04, title: "orders"}
}

// sorted is what a call of a sorting function establishes.
type sorted struct {
	list  *Term
	field string // of the elements; "" is the element itself
}

// sortModel gives the order that a sorting call makes, after the call was modelled.
func sortModel(out map[*Event]*sorted) func(e *Engine, st *State, c *Call) *Outcome {
	return func(e *Engine, st *State, c *Call) *Outcome {
		switch generic(c.Name) {
		case "strings.Compare", "cmp.Compare":
			if len(c.Args) == 2 {
				return threeWay(e, st, c.Args[0], c.Args[1])
			}
		case "cmp.Less":
			if len(c.Args) == 2 {
				return &Outcome{States: []*State{st}, Results: []*Term{lessTerm(e, c.Args[0], c.Args[1])}}
			}
		}
		if !isSort(generic(c.Name)) {
			return nil
		}
		s := orderOf(e, st, c)
		o := quietCall(e, st, c)
		if s != nil {
			out[st.log.ev] = s
		}
		return o
	}
}

func generic(n string) string {
	if i := strings.IndexByte(n, '['); i > 0 {
		return n[:i]
	}
	return n
}

func lessTerm(e *Engine, a, b *Term) *Term {
	if isInteger(a.typ) {
		l := linAdd(toLin(a), toLin(b), -1)
		return e.le0(linAdd(l, toLin(e.ts.intTerm(1)), 1))
	}
	return e.ts.mk("lt", "", types.Typ[types.Bool], a, b)
}

// ordered assumes a < b.
func (e *Engine) ordered(st *State, a, b *Term) bool {
	return e.assume(st, lessTerm(e, a, b), true) && e.assume(st, lessTerm(e, b, a), false) && e.assume(st, e.eqTerm(a, b, a.typ), false)
}

func threeWay(e *Engine, st *State, a, b *Term) *Outcome {
	o := &Outcome{}
	if s := st.clone(); e.ordered(s, a, b) {
		o.States, o.Results = append(o.States, s), append(o.Results, e.ts.intTerm(-1))
	}
	if s := st.clone(); e.ordered(s, b, a) {
		o.States, o.Results = append(o.States, s), append(o.Results, e.ts.intTerm(1))
	}
	if s := st.clone(); e.assume(s, e.eqTerm(a, b, a.typ), true) && e.assume(s, lessTerm(e, a, b), false) && e.assume(s, lessTerm(e, b, a), false) {
		o.States, o.Results = append(o.States, s), append(o.Results, e.ts.intTerm(0))
	}
	return o
}

// orderOf is the order of the list after the call: by which field of its elements, ascending.
func orderOf(e *Engine, st *State, c *Call) *sorted {
	if len(c.Args) == 0 {
		return nil
	}
	list := unIface(c.Args[0])
	sl, ok := list.typ.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	el := sl.Elem()
	name := generic(c.Name)
	i, j := e.ts.mk("sym", "i", types.Typ[types.Int]), e.ts.mk("sym", "j", types.Typ[types.Int])
	at := func(ix *Term) *Term { return e.ts.mk("index", "", types.NewPointer(el), list, ix) }
	base := st.clone()
	for _, ix := range []*Term{i, j} {
		e.assume(base, e.le0(linAdd(toLin(e.ts.intTerm(0)), toLin(ix), -1)), true)
		e.assume(base, lessTerm(e, ix, e.lenOf(list)), true)
	}
	e.assume(base, e.eqTerm(i, j, types.Typ[types.Int]), false)
	a, b := e.load(base, at(i), el), e.load(base, at(j), el)
	for _, x := range []*Term{a, b} {
		if ptrElem(x) != nil {
			e.assume(base, e.isNilTerm(x), false)
		}
	}
	var f *Term
	var args []*Term
	cmp := false
	switch name {
	case "sort.Strings", "sort.Ints", "slices.Sort":
		return &sorted{list, ""}
	case "sort.Slice", "sort.SliceStable":
		if len(c.Args) != 2 {
			return nil
		}
		f, args = c.Args[1], []*Term{i, j}
	case "slices.SortFunc", "slices.SortStableFunc":
		if len(c.Args) != 2 {
			return nil
		}
		f, args, cmp = c.Args[1], []*Term{a, b}, true
	case "sort.Sort", "sort.Stable":
		if c.Args[0].op != "iface" {
			return nil
		}
		less := lessMethod(e.p, c.Args[0].T)
		if less == nil {
			return nil
		}
		f, args = &Term{op: "func", fn: less}, []*Term{list, i, j}
	default:
		return nil
	}
	if f == nil || f.fn == nil || f.fn.Blocks == nil {
		return nil
	}
	fields := []string{""}
	if pt := ptrElem(a); pt != nil {
		fields = nil
		if s, ok := pt.Underlying().(*types.Struct); ok {
			for k := 0; k < s.NumFields(); k++ {
				if isString(s.Field(k).Type()) || isInteger(s.Field(k).Type()) {
					fields = append(fields, s.Field(k).Name())
				}
			}
		}
	}
	e.quiet++
	defer func() { e.quiet-- }()
	for _, fld := range fields {
		ka, kb := a, b
		if fld != "" {
			ka, kb = e.loadField(base, a, fld), e.loadField(base, b, fld)
		}
		good := true
		for _, up := range []bool{true, false} {
			s := base.clone()
			x, y := ka, kb
			if !up {
				x, y = kb, ka
			}
			if !e.ordered(s, x, y) {
				good = false
				continue
			}
			n := 0
			for _, ex := range e.runBound(f, s, args) {
				if ex.Panic || len(ex.Results) != 1 {
					good = false
					continue
				}
				n++
				r := ex.Results[0]
				if cmp {
					b := e.bounds(ex.St, r)
					good = good && (up && b.hi != nil && b.hi.Sign() < 0 || !up && b.lo != nil && b.lo.Sign() > 0)
					continue
				}
				v, k := e.evalBool(ex.St, r)
				good = good && k && v == up
			}
			good = good && n > 0
		}
		if good {
			return &sorted{list, fld}
		}
	}
	return nil
}

func lessMethod(p *Program, T types.Type) *ssa.Function {
	sel := p.prog.MethodSets.MethodSet(T).Lookup(nil, "Less")
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

// ---- ranges over maps

// mapLoop: the loop ranges over a map; it returns the term of its next element.
func mapLoop(rec *LoopRec) *ssa.Next {
	for b := range rec.Blocks {
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok && !n.IsString && b == rec.Header {
				return n
			}
		}
	}
	return nil
}

// ofNext: t depends on the element of the iteration of n.
func ofNext(t *Term, n *ssa.Next) bool {
	return t != nil && t.any(func(x *Term) bool { return x.op == "next" && x.site == n })
}

func keyOfNext(t *Term, n *ssa.Next) bool {
	return t.op == "extract" && t.aux == "1" && t.args[0].op == "next" && t.args[0].site == n
}

type orderCheck struct {
	r      *Report
	e      *Engine
	sorts  map[*Event]*sorted
	seen   map[*ssa.Next]bool
	failed map[token.Pos]bool
	dry    *int
}

func (oc *orderCheck) bad(key string, pos token.Pos, f string, a ...any) {
	oc.check(false, key, pos, f, a...)
}

// check reports, or counts only.
func (oc *orderCheck) check(ok bool, key string, pos token.Pos, f string, a ...any) {
	if oc.dry != nil {
		if !ok {
			*oc.dry++
		}
		return
	}
	oc.r.check(ok, key, pos, f, a...)
}

// exit looks at all loops over maps that were run on the path.
func (oc *orderCheck) exit(x *Exit, ok bool) {
	var walk func(st *State, evs []*Event)
	walk = func(st *State, evs []*Event) {
		for i, ev := range evs {
			if ev.Kind != "loop" {
				continue
			}
			if n := mapLoop(ev.Loop); n != nil && ok {
				oc.loop(st, x, ev.Loop, n, evs[i+1:])
			}
			for k, it := range ev.Loop.Iters {
				if k < len(ev.Loop.Backs) {
					walk(ev.Loop.Backs[k], it)
				}
			}
		}
	}
	walk(x.St, x.St.events())
}

func (oc *orderCheck) loop(st *State, x *Exit, rec *LoopRec, n *ssa.Next, after []*Event) {
	e := oc.e
	key := "range:" + rec.Fn.Name()
	pos := n.Iter.Pos()
	oc.seen[n] = true
	isSorted := func(list *Term) bool {
		for _, ev := range after {
			if s := oc.sorts[ev]; s != nil && s.list == list {
				return true
			}
		}
		return false
	}
	oc.r.check(true, key, pos, "")
	list := func(sym, b *Term) bool {
		return b.op == "append" && b.args[0] == sym
	}
	for _, s := range rec.Slots {
		var changed bool
		lists := true
		for _, b := range s.Backs {
			if b == s.Sym || b.isConst() {
				continue
			}
			if isInteger(s.Sym.typ) && !ofNext(b, n) {
				continue // a count
			}
			changed = true
			lists = lists && list(s.Sym, b)
		}
		if !changed || s.Addr != nil && (s.Addr.op != "alloc" || oc.perElement(rec, n, s.Addr)) {
			// other memory: by the stores
			continue
		}
		used := false
		for _, r := range x.Results {
			used = used || r.any(func(t *Term) bool { return t == s.Sym })
		}
		for _, ev := range after {
			for _, a := range append(append([]*Term{}, ev.Args...), ev.Vals...) {
				used = used || a != nil && a.any(func(t *Term) bool { return t == s.Sym })
			}
		}
		if s.Addr != nil {
			used = true
		}
		if !used {
			continue
		}
		if lists {
			oc.check(isSorted(s.Sym), key, pos, "a list is made in the order of a map, and is not sorted")
			continue
		}
		oc.bad(key, pos, "what a loop over a map leaves behind depends on its order")
	}
	for k, it := range rec.Iters {
		bst := st
		if k < len(rec.Backs) {
			bst = rec.Backs[k]
		}
		tainted := map[*Term]bool{}
		ofNext := func(t *Term, n *ssa.Next) bool {
			return ofNext(t, n) || t != nil && t.any(func(x *Term) bool { return tainted[x] })
		}
		for _, ev := range allEvents(it) {
			if ev.Kind == "call" && ev.Result != nil {
				for _, a := range append(append([]*Term{}, ev.Args...), ev.Vals...) {
					if a != nil && ofNext(a, n) {
						tainted[ev.Result] = true
					}
				}
			}
			switch ev.Kind {
			case "mapupdate":
				m, kk, v := ev.Args[0], ev.Args[1], ev.Args[2]
				switch {
				case oc.perElement(rec, n, m), keyOfNext(kk, n), !ofNext(v, n) && !ofNext(kk, n):
				case kk.any(func(t *Term) bool { return t.op == "column" }):
					// by what the database gave for it
				case ofNext(v, n) || !v.isConst() && !e.madeInLoop(rec, v):
					oc.bad(key, ev.Instr.Pos(), "two elements of a map may be stored under the same key, and their order decides")
				}
			case "store":
				a, v := ev.Args[0], ev.Args[1]
				if oc.perElement(rec, n, a) || !ofNext(v, n) || v.isConst() {
					continue
				}
				if v.op == "append" && (v.args[0].op == "ld" || v.args[0].op == "loop") {
					continue // a list in memory: a slot of the loop
				}
				oc.bad(key, ev.Instr.Pos(), "an element of a map is stored where the next one is stored as well")
			case "send":
				if ofNext(ev.Args[1], n) {
					oc.bad(key, ev.Instr.Pos(), "the elements of a map are sent in their order")
				}
			case "call":
				if writesOut(ev) && !e.madeInLoop(rec, root(unIface(ev.Args[0]))) {
					for _, a := range ev.Args[1:] {
						if !unIface(a).isConst() {
							oc.bad(key, ev.Instr.Pos(), "the elements of a map are written in their order")
						}
					}
				}
			}
		}
		_ = bst
	}
	// left before its end
	done := false
	for t, v := range x.St.b {
		if t.op == "extract" && t.aux == "0" && t.args[0].op == "next" && t.args[0].site == n && !v {
			done = true
		}
	}
	if !done {
		for _, r := range x.Results {
			if ofNext(r, n) {
				oc.bad(key, pos, "the first element of a map that is found is returned")
			}
		}
	}
}

func writesOut(ev *Event) bool {
	if len(ev.Args) == 0 {
		return false
	}
	switch method(ev.Callee) {
	case "Write", "WriteString", "Fprintf", "Fprint", "Fprintln", "WriteRune", "WriteByte", "Print", "Println", "Printf":
		return true
	}
	return false
}

// perElement: the address belongs to an object of the element, or one made for it.
func (oc *orderCheck) perElement(rec *LoopRec, n *ssa.Next, a *Term) bool {
	o := root(a)
	if oc.e.madeInLoop(rec, o) {
		return true
	}
	return ofNext(a, n)
}

func runG04(r *Report) {
	r.rule("tables and views are returned sorted by their full names, columns of each by their positions: the order is made by a sort after which the list is not changed, whose comparison is decided")
	r.rule("a loop over a map leaves nothing behind that depends on the order of its elements: it stores under the key of the element, in objects of the element, or in a list that is sorted afterwards, and does not return one of the elements early")
	sorts := map[*Event]*sorted{}
	seen := map[*ssa.Next]bool{}
	runs := r.schemaRuns(nil, func(name string, e *Engine) {
		sm, sch := sortModel(sorts), e.OnCall
		e.OnCall = func(e *Engine, st *State, c *Call) *Outcome {
			if o := sm(e, st, c); o != nil {
				return o
			}
			return sch(e, st, c)
		}
	})
	for _, name := range []string{"ListTables", "ListViews"} {
		rr := runs[name]
		if rr == nil {
			continue
		}
		key := "sorted:" + name
		n, cols := 0, false
		for _, x := range rr.returns() {
			if !rr.succeeds(x) {
				continue
			}
			n++
			oc := &orderCheck{r: r, e: rr.e, sorts: sorts, seen: seen}
			oc.exit(x, true)
			evs := x.St.events()
			by := ""
			for _, ev := range evs {
				if s := sorts[ev]; s != nil && s.list == x.Results[0] {
					by = s.field
				}
				if ev.Kind == "store" && root(ev.Args[0]) == x.Results[0] {
					by = "" // changed after it was sorted
				}
			}
			if !rr.e.isEmptyList(x.St, x.Results[0]) {
				r.check(by == "SchemaName", key, x.Pos, "the result of %s is not sorted by the full names", name)
			}
			all := allEvents(evs)
			isSortedBy := func(l *Term, f string) bool {
				for _, ev := range all {
					if s := sorts[ev]; s != nil && s.list == l && s.field == f {
						return true
					}
				}
				return false
			}
			for _, ev := range all {
				if ev.Kind != "store" || ev.Args[0].op != "field" || !strings.HasSuffix(ev.Args[0].aux, "schema.Table.Columns") {
					continue
				}
				v := ev.Args[1]
				if v.op == "append" || v.isNil() {
					continue
				}
				cols = true
				r.check(isSortedBy(v, "Position") || rr.e.isEmptyList(x.St, v), key, ev.Instr.Pos(), "the columns of a table are not sorted by their positions")
			}
			if name == "ListViews" {
				rec, _ := rr.e.listSlot(x.St, x.Results[0])
				if rec == nil {
					continue
				}
				for _, it := range rec.Iters {
					ok := false
					for _, ev := range it {
						if s := sorts[ev]; s != nil && s.field == "Position" && s.list.op == "ld" && s.list.args[0].op == "field" && strings.HasSuffix(s.list.args[0].aux, ".Columns") {
							for _, b := range it {
								if b.Kind == "append" && b.Result != nil && len(b.Result.args) == 2 && b.Result.args[1] == s.list.args[0].args[0] {
									ok = true
								}
							}
						}
					}
					cols = true
					r.check(ok, key, rec.Header.Instrs[0].Pos(), "the columns of a view are not sorted by their positions")
				}
			}
		}
		r.check(n > 0 && cols, key, rr.fn.Pos(), "%s: no list of columns was seen", name)
	}
	// all other loops over maps
	for i := 0; i < 3; i++ {
		var todo []*ssa.Function
		for _, f := range r.p.funcs {
			if !r.p.isRepoFn(f) || f.Blocks == nil || f.Pkg == nil || r.p.isMock(f.Pkg.Pkg) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if nx, ok := in.(*ssa.Next); ok && !nx.IsString && !seen[nx] {
						todo = append(todo, f)
						seen[nx] = i > 0
					}
				}
			}
		}
		if len(todo) == 0 {
			break
		}
		sort.Slice(todo, func(i, j int) bool { return todo[i].String() < todo[j].String() })
		type runOf struct {
			rr *runRes
			ss map[*Event]*sorted
		}
		done := map[*ssa.Function]*runOf{}
		look := func(f *ssa.Function, dry *int) map[*ssa.Next]bool {
			got := map[*ssa.Next]bool{}
			o := done[f]
			if o == nil {
				o = &runOf{ss: map[*Event]*sorted{}}
				sm := sortModel(o.ss)
				o.rr = r.run(f, func(e *Engine, st *State, args []*Term) { e.OnCall = sm })
				done[f] = o
			}
			rr, ss := o.rr, o.ss
			for _, x := range rr.returns() {
				oc := &orderCheck{r: r, e: rr.e, sorts: ss, seen: got, dry: dry}
				oc.exit(x, !rr.fails(x))
			}
			for n := range got {
				seen[n] = true
			}
			return got
		}
		for _, f := range todo {
			bad := 0
			mine := look(f, &bad)
			if bad == 0 {
				look(f, nil)
				continue
			}
			// what a helper leaves in the order of the map may be sorted where it is called
			above := r.p.callersOfHelper(f)
			inAll := len(above) > 0
			for _, g := range above {
				zero := 0
				got := look(g, &zero)
				for n := range mine {
					inAll = inAll && got[n]
				}
			}
			if !inAll {
				look(f, nil)
				continue
			}
			for _, g := range above {
				look(g, nil)
			}
		}
		break
	}
	total := 0
	for range seen {
		total++
	}
	r.atLeast(total, 5, "loops over maps")
}
