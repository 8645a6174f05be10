package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C10: elements are used only where they are known to exist.

func init() {
	rules["C10"] = propRule{run: runC10, title: "Only elements that exist are used", assum: []string{
		"The arguments of the program (os.Args) have its name.",
		"net.InterfaceAddrs gives valid addresses: To16 of one has 16 bytes.",
		"Indexes that a caller gives, that other functions of the library return, or that are kept in objects (the positions of the parts of a statement) are not decided here."}}
}

type boundsFail struct {
	pos  token.Pos
	what string
	own  bool // depends on the parameters of the function only
}

func runC10(r *Report) {
	r.rule("every index into a list, array or text and every part that is cut out of one, in every function and on every path: it is proved, from what the path has tested, from the bounds of the loop and from what is documented of the functions called, to be not negative and to be inside. A function of the library that is only called directly and leaves this to its callers is analysed as a part of each of them")
	p := r.p
	fns := []*ssa.Function{}
	callers := map[*ssa.Function][]*ssa.Function{}
	valued := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if p.isMock(pkgOf(f)) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
					if g := c.Common().StaticCallee(); g != nil {
						callers[g] = append(callers[g], f)
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && ssa.Value(g) != callee {
						valued[g] = true
					}
				}
			}
		}
		if f.Synthetic == "" || f.Parent() != nil {
			fns = append(fns, f)
		}
	}
	n := 0
	inline := map[*ssa.Function]bool{}
	run := func(f *ssa.Function) []boundsFail {
		var fails []boundsFail
		e := newEngine(p)
		e.Inline = func(fn *ssa.Function, depth int) bool { return fn.Parent() != nil || takesError(fn) || inline[fn] }
		// what the caller decides
		open := func(t *Term, low bool) bool {
			return t.any(func(q *Term) bool {
				switch {
				case q.op == "param" || q.op == "freevar":
					return q.typ != nil && isInteger(q.typ)
				case q.op == "loop":
					return low || strings.HasPrefix(q.aux, "m:")
				case q.op == "call":
					return q.typ != nil && isInteger(q.typ)
				case q.op == "extract" && q.args[0].op == "call":
					return q.typ != nil && isInteger(q.typ)
				case q.op == "ld":
					return q.typ != nil && isInteger(q.typ)
				}
				return false
			})
		}
		own := func(x *Term) bool {
			x = root(x)
			for (x.op == "conv" || x.op == "bytes" || x.op == "ld" || x.op == "field") && len(x.args) == 1 {
				x = root(x.args[0])
			}
			return x.op == "param"
		}
		length := func(st *State, x *Term) (*State, *Term) {
			ln := e.lenOf(x)
			lo := int64(-1)
			switch {
			case x.op == "ld" && x.args[0].op == "global" && x.args[0].aux == "os.Args", x.op == "gval" && strings.Contains(x.aux, "os.Args"), strings.HasSuffix(x.String(), "os.Args"):
				lo = 1
			case x.op == "pure" && strings.HasPrefix(x.aux, "strings.Split") && len(x.args) > 1:
				if s, ok := x.args[1].constStr(); ok && s != "" {
					lo = 1
				}
			}
			// a text with a prefix is as long as that, and one that is not empty has a rune
			y := x
			for y.op == "bytes" && len(y.args) == 1 {
				y = y.args[0]
			}
			if isString(y.typ) {
				st = st.clone()
				for t, v := range st.b {
					if v && t.op == "pure" && len(t.args) == 2 && t.args[0] == y && (t.aux == "strings.HasPrefix" || t.aux == "strings.HasSuffix" || t.aux == "strings.Contains") {
						if s, ok := t.args[1].constStr(); ok && s != "" {
							e.constrain(st, e.lenOf(y), bi(int64(len(s))), nil)
						}
					}
				}
				if y != x {
					if v, k := e.evalBool(st, e.le0(linAdd(toLin(e.ts.intTerm(1)), toLin(e.lenOf(y)), -1))); v && k {
						lo = 1
					}
				}
			}
			// every key of the values of a query has one
			values := func(m *Term) bool {
				if m.op == "extract" {
					m = m.args[0]
				}
				return m.op == "pure" && (strings.HasSuffix(m.aux, "/url.(URL).Query") || strings.HasSuffix(m.aux, "/url.(*URL).Query") || strings.HasSuffix(m.aux, "/url.ParseQuery"))
			}
			if y.op == "extract" && y.aux == "2" && y.args[0].op == "next" && y.args[0].args[0].op == "range" && values(y.args[0].args[0].args[0]) {
				lo = 1
			}
			if y.op == "ld" && y.args[0].op == "mapel" && values(y.args[0].args[0]) {
				if in, k := e.evalBool(st, e.ts.mk("ld", "", types.Typ[types.Bool], e.ts.mk("mapok", "", nil, y.args[0].args...))); k && in {
					lo = 1
				}
				if isnil, k := e.nilness(st, y); k && !isnil {
					lo = 1
				}
			}
			for _, ev := range st.events() {
				if ev.Kind == "call" && ev.Result == x && ev.Callee == "net.(IP).To16" {
					lo = 16
				}
			}
			if lo >= 0 {
				st = st.clone()
				e.constrain(st, ln, bi(lo), nil)
			}
			return st, ln
		}
		e.OnInstr = func(st *State, in ssa.Instruction, ctx string) {
			if e.quiet != 0 {
				return
			}
			le1 := func(st *State, a, b *Term, k int64) bool {
				v, known := e.evalBool(st, e.le0(linAdd(toLin(e.ts.add(a, e.ts.intTerm(k), basic(types.Int))), toLin(b), -1)))
				return v && known
			}
			le := func(st *State, a, b *Term) bool {
				for _, c := range e.searched(st, a, b) {
					if !le1(c, a, b, 0) {
						return false
					}
				}
				return true
			}
			// what the loop does not bound is counted by something else
			counted := func(st *State, i, ln *Term) bool {
				return i.any(func(q *Term) bool { return q.op == "loop" }) && !le1(st, i, ln, -8)
			}
			zero := e.ts.intTerm(0)
			fail := func(x *Term, what string) {
				fails = append(fails, boundsFail{in.Pos(), what, own(x)})
			}
			switch in := in.(type) {
			case *ssa.IndexAddr, *ssa.Index, *ssa.Lookup:
				var X, I ssa.Value
				switch in := in.(type) {
				case *ssa.IndexAddr:
					X, I = in.X, in.Index
				case *ssa.Index:
					X, I = in.X, in.Index
				case *ssa.Lookup:
					X, I = in.X, in.Index
				}
				switch T := X.Type().Underlying().(type) {
				case *types.Map:
					return
				case *types.Pointer, *types.Array:
					if _, ok := I.(*ssa.Const); ok {
						return // decided by the compiler
					}
					_ = T
				}
				if !known(st, X) || !known(st, I) {
					return
				}
				x, i := e.val(nil, st, X), e.val(nil, st, I)
				n++
				st2, ln := length(st, x)
				if pt, ok := X.Type().Underlying().(*types.Pointer); ok {
					a, ok := pt.Elem().Underlying().(*types.Array)
					if !ok {
						return
					}
					ln = e.ts.intTerm(a.Len())
				}
				if !le(st2, e.ts.add(i, e.ts.intTerm(1), basic(types.Int)), ln) && !open(i, false) && !counted(st2, i, ln) && !(i.op == "const" && e.given(st, x)) {
					fail(x, "element "+i.String()+" of "+x.String()+" is used, which may have less")
				} else if !le(st2, zero, i) && !open(i, true) {
					fail(x, "element "+i.String()+" of "+x.String()+" is used, which may be negative")
				}
			case *ssa.Slice:
				if _, ok := in.X.Type().Underlying().(*types.Pointer); ok || in.Low == nil && in.High == nil {
					return
				}
				for _, v := range []ssa.Value{in.X, in.Low, in.High} {
					if v != nil && !known(st, v) {
						return
					}
				}
				x := e.val(nil, st, in.X)
				n++
				st2, ln := length(st, x)
				lo, hi := zero, ln
				if in.Low != nil {
					lo = e.val(nil, st, in.Low)
				}
				if in.High != nil {
					hi = e.val(nil, st, in.High)
				}
				if _, ok := in.X.Type().Underlying().(*types.Slice); ok && in.High != nil && !le(st2, hi, ln) {
					// up to the capacity
					return
				}
				switch {
				case !le(st2, hi, ln) && !open(hi, false) && !counted(st2, hi, ln), !le(st2, lo, hi) && !open(lo, false) && !open(hi, false) && !counted(st2, lo, hi) && !counted(st2, hi, lo), !le(st2, zero, lo) && !open(lo, true):
					fail(x, "the part from "+lo.String()+" to "+hi.String()+" of "+x.String()+" is used, which may be shorter")
				}
			}
		}
		exits := e.Run(f, nil, nil)
		r.done(e, exits)
		return fails
	}
	left := func(f *ssa.Function) bool {
		o := f.Object()
		return f.Parent() == nil && o != nil && !o.Exported() && !valued[f] && len(callers[f]) > 0 && !inline[f]
	}
	todo := fns
	for round := 0; round < 5 && len(todo) > 0; round++ {
		var next []*ssa.Function
		for _, f := range todo {
			fails := run(f)
			name := shortFn(f)
			r.check(true, "bounds:"+name, f.Pos(), "")
			if len(fails) == 0 {
				continue
			}
			mine := true
			for _, x := range fails {
				mine = mine && x.own
			}
			if mine && left(f) && round < 4 {
				inline[f] = true
				next = append(next, callers[f]...)
				continue
			}
			for _, x := range fails {
				r.check(false, "bounds:"+name, x.pos, "%s: %s", name, x.what)
			}
		}
		todo = next
	}
	r.atLeast(n, 300, "indexes and parts of lists and texts")
}

// searched: the cases of the results of the searches that the terms have: not found, or found inside, and the
// positions that the runes of a text have.
func (e *Engine) searched(st *State, terms ...*Term) []*State {
	var found []*Term
	for _, t := range terms {
		t.any(func(q *Term) bool {
			found = append(found, q)
			return false
		})
	}
	one := e.ts.intTerm(1)
	states := []*State{st}
	seen := map[*Term]bool{}
	fact := func(c *State, a, b *Term) bool {
		return e.assume(c, e.le0(linAdd(toLin(a), toLin(b), -1)), true)
	}
	for _, q := range found {
		if seen[q] || len(states) > 16 {
			continue
		}
		seen[q] = true
		inside := func(c *State, s, w *Term) bool {
			return fact(c, e.ts.intTerm(0), q) && fact(c, e.ts.add(q, w, basic(types.Int)), e.lenOf(s))
		}
		switch {
		case q.op == "pure" && len(q.args) == 2 && (strings.HasPrefix(q.aux, "strings.Index") || strings.HasPrefix(q.aux, "strings.LastIndex") || strings.HasPrefix(q.aux, "bytes.Index") || strings.HasPrefix(q.aux, "bytes.LastIndex")):
			w := one
			if strings.HasSuffix(q.aux, ".Index") || strings.HasSuffix(q.aux, ".LastIndex") {
				w = e.lenOf(q.args[1])
			}
			var next []*State
			for _, c := range states {
				no, yes := c.clone(), c.clone()
				if e.assume(no, e.eqTerm(q, e.ts.intTerm(-1), basic(types.Int)), true) {
					e.constrain(no, q, bi(-1), bi(-1))
					if v, k := e.evalBool(no, e.le0(linAdd(toLin(e.ts.intTerm(0)), toLin(q), -1))); !k || !v {
						if v, k := e.evalBool(c, e.le0(linAdd(toLin(e.ts.intTerm(0)), toLin(q), -1))); !k || !v {
							next = append(next, no)
						}
					}
				}
				if inside(yes, q.args[0], w) {
					next = append(next, yes)
				}
			}
			states = next
		case q.op == "extract" && q.aux == "1" && q.args[0].op == "next" && q.args[0].args[0].op == "range" && isString(q.args[0].args[0].args[0].typ):
			for _, c := range states {
				inside(c, q.args[0].args[0].args[0], one)
			}
		case q.op == "extract" && q.aux == "1" && q.args[0].op == "pure" && strings.HasPrefix(q.args[0].aux, "unicode/utf8.Decode"):
			for _, c := range states {
				fact(c, e.ts.intTerm(0), q)
				fact(c, q, e.lenOf(q.args[0].args[0]))
			}
		}
	}
	return states
}

// given: the list is the result of a function outside of the library that is known not to be nil: it has what is
// documented.
func (e *Engine) given(st *State, x *Term) bool {
	for x.op == "extract" && len(x.args) == 1 {
		x = x.args[0]
	}
	if x.op != "call" && x.op != "pure" || isString(x.typ) {
		return false
	}
	isnil, known := e.nilness(st, x)
	return known && !isnil
}

// known: the state has the value.
func known(st *State, v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function:
		return true
	}
	_, ok := st.env[v]
	return ok
}
