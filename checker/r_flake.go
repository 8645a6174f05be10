package main

import (
	"fmt"
	"go/token"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["E01"] = propRule{run: runE01, title: "Generated IDs are unique and increasing"}
	rules["E02"] = propRule{run: runE02, title: "Parts and time of an ID"}
}

const flakePkg = "pkg/flake"

// clockCall: a call of a function value (the clock) does not change the generator; it cannot enter NextID, which holds the lock.
func clockCall(e *Engine, st *State, c *Call) *Outcome {
	if c.Name != "dynamic" {
		return nil
	}
	res := e.freshResult(st, c)
	st.event(&Event{Kind: "call", Instr: c.Instr, Ctx: c.Ctx, Callee: c.Name, Args: c.Args, Vals: c.Args, Result: res, Defer: c.Defer})
	return &Outcome{States: []*State{st}, Results: []*Term{res}}
}

// flakeModel is what the layout of the result of NextID says about the state of the generator.
type flakeModel struct {
	T        *types.Named
	next     *ssa.Function
	fe, fs   int // fields of the time and of the sequence number
	fm       int // field of the machine
	fstart   int
	tBits    int // 41
	sBits    int // 6
	mBits    int // 16
	maxField map[int]bool
}

func (r *Report) flakeConst(name string) (int, bool) {
	c := r.p.constOf(flakePkg, name)
	if c == nil {
		r.missing(flakePkg + "." + name)
		return 0, false
	}
	e := newEngine(r.p)
	v, ok := c(e).constInt()
	if !ok {
		return 0, false
	}
	return int(v.Int64()), true
}

func (r *Report) flake() *flakeModel {
	m := &flakeModel{fe: -1, fs: -1, fm: -1, fstart: -1}
	m.T = r.p.Named(flakePkg, "Flake")
	m.next = r.p.Method(flakePkg, "Flake", "NextID")
	if m.T == nil || m.next == nil {
		r.missing("Flake.NextID")
		return nil
	}
	var ok [3]bool
	m.tBits, ok[0] = r.flakeConst("BitLenTime")
	m.sBits, ok[1] = r.flakeConst("BitLenSequence")
	m.mBits, ok[2] = r.flakeConst("BitLenMachineID")
	if !ok[0] || !ok[1] || !ok[2] {
		return nil
	}
	if !r.check(m.tBits+m.sBits+m.mBits == 63 && m.tBits > 0 && m.sBits > 0 && m.mBits > 0, "layout:constants", token.NoPos, "the parts of an ID do not fill 63 bits") {
		return nil
	}
	s := m.T.Underlying().(*types.Struct)
	// find the fields whose final values make the parts of the ID
	rr := r.run(m.next, func(e *Engine, st *State, args []*Term) { e.OnCall = clockCall })
	for fi := 0; fi < s.NumFields(); fi++ {
		if !isInteger(s.Field(fi).Type()) {
			continue
		}
		fits := [3]bool{true, true, true}
		n := 0
		for _, x := range rr.returns() {
			n++
			id := rr.e.bitsOf(x.St, x.Results[0])
			v := rr.e.bitsOf(x.St, rr.e.load(x.St, rr.e.fieldAddr(rr.args[0], m.T, fi), s.Field(fi).Type()))
			for part, rg := range [3][2]int{{m.mBits + m.sBits, m.tBits}, {m.mBits, m.sBits}, {0, m.mBits}} {
				for b := 0; b < rg[1]; b++ {
					w, g := v[b], id[rg[0]+b]
					if w.kind == '?' || g != w {
						fits[part] = false
					}
				}
			}
		}
		if n == 0 {
			continue
		}
		if fits[0] && m.fe < 0 {
			m.fe = fi
		}
		if fits[1] && m.fs < 0 {
			m.fs = fi
		}
		if fits[2] && m.fm < 0 {
			m.fm = fi
		}
	}
	a := r.check(m.fe >= 0, "layout:time", m.next.Pos(), "the upper %d bits of a generated ID are not the time of the generator", m.tBits)
	b := r.check(m.fs >= 0, "layout:sequence", m.next.Pos(), "bits %d to %d of a generated ID are not the sequence number of the generator", m.mBits, m.mBits+m.sBits-1)
	c := r.check(m.fm >= 0, "layout:machine", m.next.Pos(), "the lower %d bits of a generated ID are not the machine of the generator", m.mBits)
	if !a || !b || !c {
		return nil
	}
	return m
}

// ownFlake: states before a step of NextID that satisfy the invariant
func (m *flakeModel) assumeInv(e *Engine, st *State, recv *Term) (e0, s0, m0 *Term) {
	s := m.T.Underlying().(*types.Struct)
	ld := func(i int) *Term {
		return e.load(newState(), e.fieldAddr(recv, m.T, i), s.Field(i).Type())
	}
	e0, s0, m0 = ld(m.fe), ld(m.fs), ld(m.fm)
	e.constrain(st, e0, bi(0), nil)
	e.constrain(st, s0, bi(0), bi(1<<m.sBits-1))
	e.constrain(st, m0, bi(0), bi(1<<m.mBits-1))
	return
}

func runE01(r *Report) {
	r.rule("every ID packs the time, the sequence number and the machine of the generator in disjoint bits, with bit 63 zero; a time that does not fit panics")
	r.rule("each step makes the pair (time, sequence number) lexicographically larger, so the IDs of a generator strictly increase; nothing else changes the pair or the machine")
	r.rule("the step holds the lock of the generator from its first access to the state to the last one")
	r.rule("the provider hands out each generated ID once, unchanged")
	m := r.flake()
	if m == nil {
		return
	}
	s := m.T.Underlying().(*types.Struct)
	rr := r.run(m.next, func(e *Engine, st *State, args []*Term) {
		e.OnCall = clockCall
		m.assumeInv(e, st, args[0])
	})
	e := rr.e
	key := "step:NextID"
	e0, s0, m0 := m.assumeInv(e, newState(), rr.args[0])
	lim := bi(1)
	lim.Lsh(lim, uint(m.tBits))
	n := 0
	for _, x := range rr.returns() {
		n++
		ld := func(i int) *Term { return e.load(x.St, e.fieldAddr(rr.args[0], m.T, i), s.Field(i).Type()) }
		e1, s1, m1 := ld(m.fe), ld(m.fs), ld(m.fm)
		r.check(m1 == m0, key, x.Pos, "NextID changes the machine")
		iv := e.bounds(x.St, e1)
		r.check(iv.lo != nil && iv.lo.Sign() >= 0, key, x.Pos, "the time of an ID can be negative: %s", e1)
		r.check(iv.hi != nil && iv.hi.Cmp(lim) < 0, key, x.Pos, "an ID is made although its time does not fit in %d bits", m.tBits)
		sv := e.bounds(x.St, s1)
		r.check(sv.lo != nil && sv.lo.Sign() >= 0 && sv.hi != nil && sv.hi.Cmp(bi(1<<m.sBits)) < 0, key, x.Pos, "the sequence number can leave its %d bits: %s", m.sBits, s1)
		id := e.bitsOf(x.St, x.Results[0])
		r.check(id[63] == bit0, key, x.Pos, "bit 63 of an ID can be set")
		// lexicographic growth
		lt := func(a, b *Term) bool {
			v, k := e.evalBool(x.St, e.le0(linAdd(linAdd(toLin(a), toLin(b), -1), lin{c: bi(1)}, 1)))
			return k && v
		}
		grows := lt(e0, e1) || e.sameInt(x.St, e0, e1, false) && lt(s0, s1)
		r.check(grows, key, x.Pos, "the next ID is not larger than the one before: the time goes from %s to %s, the sequence number from %s to %s", e0, e1, s0, s1)
		// lock
		r.lockHeld(e, x, rr.args[0], m, key)
	}
	r.check(n > 0, key, m.next.Pos(), "NextID never returns")
	// who else writes the state
	guarded := map[int]bool{m.fe: true, m.fs: true, m.fm: true}
	reach := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || reach[f] {
			return
		}
		reach[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && r.p.isRepoFn(g) {
						visit(g)
					}
				}
			}
		}
	}
	visit(m.next)
	for _, f := range r.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !guarded[fa.Field] {
					continue
				}
				pt, ok := fa.X.Type().Underlying().(*types.Pointer)
				if !ok || !types.Identical(pt.Elem(), m.T) {
					continue
				}
				for _, ref := range *fa.Referrers() {
					switch x := ref.(type) {
					case *ssa.Store:
						if x.Addr == fa && !reach[f] {
							okInit := r.p.isOwnAlloc(fa.X)
							if c, ok := x.Val.(*ssa.Const); ok && okInit && fa.Field == m.fs {
								v := c.Int64()
								okInit = v >= 0 && v < 1<<m.sBits
							} else if fa.Field == m.fe && okInit {
								c, ok := x.Val.(*ssa.Const)
								okInit = ok && c.Int64() >= 0
							}
							r.check(okInit, "state:writes", x.Pos(), "%s changes the state of a generator outside of NextID", shortFn(f))
						}
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						r.check(false, "state:writes", ref.Pos(), "%s takes the address of the state of a generator", shortFn(f))
					}
				}
				r.check(true, "state:writes", fa.Pos(), "")
			}
		}
	}
	// provider
	r.providerGen()
	if f := r.p.Method("", "SQLProvider", "NextID"); f == nil {
		r.missing("SQLProvider.NextID")
	} else {
		pr := r.run(f, nil)
		for _, x := range pr.returns() {
			cs := callsNamed(x.St, "flake.(IDGenerator).NextID")
			if !r.check(len(cs) == 1, "provider:NextID", x.Pos, "the provider generates %d IDs for one", len(cs)) {
				continue
			}
			g := unIface(cs[0].Args[0])
			r.check(g.op == "ld" && g.args[0].op == "field" && g.args[0].args[0] == pr.args[0], "provider:NextID", x.Pos, "the provider does not ask its own generator: %s", g)
			r.check(idValueIs(pr.e, x.St, x.Results[0], cs[0].Result), "provider:NextID", x.Pos, "the provider does not hand out the generated ID: %s", x.Results[0])
		}
	}
}

// providerGen: a new provider has the generator it is given, a provider of a transaction the one of its provider.
func (r *Report) providerGen() {
	T := r.p.Named("", "SQLProvider")
	if T == nil {
		r.missing("SQLProvider")
		return
	}
	s := T.Underlying().(*types.Struct)
	fi := -1
	for i := 0; i < s.NumFields(); i++ {
		if strings.HasSuffix(typeName(s.Field(i).Type()), "flake.IDGenerator") {
			fi = i
		}
	}
	if !r.check(fi >= 0, "provider:generator", T.Obj().Pos(), "a provider keeps no generator") {
		return
	}
	ft := s.Field(fi).Type()
	n := 0
	for _, f := range []*ssa.Function{r.p.Func("", "New"), r.p.Func("", "NewProvider"), r.p.Method("", "SQLProvider", "BeginTx")} {
		if f == nil {
			continue
		}
		rr := r.run(f, func(e *Engine, st *State, args []*Term) {
			e.Inline = func(g *ssa.Function, d int) bool { return g.Name() != "Open" && g.Name() != "Migrate" }
		})
		for _, x := range rr.returns() {
			if !rr.succeeds(x) {
				continue
			}
			p := unIface(x.Results[0])
			if !isFresh(p) {
				r.check(false, "provider:generator", x.Pos, "%s does not make a provider", f.Name())
				continue
			}
			n++
			got := rr.e.load(x.St, rr.e.fieldAddr(p, T, fi), ft)
			var want *Term
			if f.Name() == "BeginTx" {
				want = rr.e.load(newState(), rr.e.fieldAddr(rr.args[0], T, fi), ft)
			} else {
				want = paramNamed(rr, func(t types.Type) bool { return strings.HasSuffix(typeName(t), "flake.IDGenerator") })
			}
			if want == nil {
				r.missing("generator of " + f.Name())
				continue
			}
			ok := got == want
			if nl, k := rr.e.nilness(x.St, want); k && nl && f.Name() != "BeginTx" {
				ok = strings.Contains(got.String(), "DefaultIDGenerator")
			} else if !k && f.Name() != "BeginTx" {
				r.check(false, "provider:generator", x.Pos, "%s makes a provider without a generator if none is given", f.Name())
			}
			r.check(ok, "provider:generator", x.Pos, "%s makes a provider with the generator %s", f.Name(), got)
		}
	}
	r.atLeast(n, 3, "paths that make a provider")
}

// idValueIs: the ID holds the number.
func idValueIs(e *Engine, st *State, id, n *Term) bool {
	T := id.typ
	if T == nil {
		return false
	}
	var found bool
	zero, known := e.evalBool(st, e.eqTerm(n, e.ts.intTerm(0), basic(types.Uint64)))
	var walk func(v *Term, typ types.Type, d int)
	walk = func(v *Term, typ types.Type, d int) {
		if d > 4 || v == nil {
			return
		}
		if isInteger(typ) && e.sameInt(st, v, n, false) {
			found = true
			return
		}
		switch u := typ.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if v.op == "struct" && len(v.args) == u.NumFields() {
					walk(v.args[i], u.Field(i).Type(), d+1)
				}
			}
		case *types.Pointer:
			if z, k := e.nilness(st, v); k && z {
				found = found || known && zero
				return
			}
			if s, ok := u.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if isInteger(s.Field(i).Type()) {
						walk(e.load(st, e.fieldAddr(v, u.Elem(), i), s.Field(i).Type()), s.Field(i).Type(), d+1)
					}
				}
			}
		}
	}
	walk(id, T, 0)
	return found
}

// isOwnAlloc: the address is an object made in the same function.
func (p *Program) isOwnAlloc(v ssa.Value) bool {
	return p.ownAlloc(v, map[ssa.Value]bool{})
}

func (p *Program) ownAlloc(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if _, ok := v.(*ssa.Alloc); ok {
		return true
	}
	if c, ok := v.(*ssa.Call); ok {
		g := c.Call.StaticCallee()
		if g == nil || !p.isRepoFn(g) || g.Signature.Results().Len() != 1 {
			return false
		}
		n := 0
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ret, ok := in.(*ssa.Return); ok {
					n++
					if _, isP := ret.Results[0].(*ssa.Parameter); isP || !p.ownAlloc(ret.Results[0], seen) {
						return false
					}
				}
			}
		}
		return n > 0
	}
	a, ok := v.(*ssa.Parameter)
	if !ok {
		return false
	}
	// of a helper that only makers of the object call
	f := a.Parent()
	k := slices.Index(f.Params, a)
	above := p.callersOfHelper(f)
	for _, g := range above {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f {
					if k >= len(c.Common().Args) || !p.ownAlloc(c.Common().Args[k], seen) {
						return false
					}
				}
			}
		}
	}
	return len(above) > 0
}

// callersOfHelper are the functions that call f when f is not exported, and is only called; nil for others.
func (p *Program) callersOfHelper(f *ssa.Function) []*ssa.Function {
	if f.Parent() != nil || f.Object() == nil || f.Object().Exported() {
		return nil
	}
	in := map[*ssa.Function]bool{}
	for _, g := range p.callers()[f] {
		in[g] = true
	}
	if len(in) == 0 || in[f] || !p.helperOf(f, func(g *ssa.Function) bool { return in[g] }) {
		return nil
	}
	var r []*ssa.Function
	for g := range in {
		r = append(r, g)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// lockHeld: on the path the lock of recv is taken before the first store to the state and released after the last.
func (r *Report) lockHeld(e *Engine, x *Exit, recv *Term, m *flakeModel, key string) {
	held := false
	locked := 0
	s := m.T.Underlying().(*types.Struct)
	state := map[*Term]string{}
	for i := 0; i < s.NumFields(); i++ {
		if i == m.fe || i == m.fs {
			state[e.fieldAddr(recv, m.T, i)] = s.Field(i).Name()
		}
	}
	for _, ev := range x.St.events() {
		switch {
		case ev.Kind == "call" && (ev.Callee == "sync.(Mutex).Lock" || ev.Callee == "sync.(RWMutex).Lock"):
			if lockOf(ev.Args[0], recv) {
				held = true
				locked++
			}
		case ev.Kind == "call" && (ev.Callee == "sync.(Mutex).Unlock" || ev.Callee == "sync.(RWMutex).Unlock"):
			if lockOf(ev.Args[0], recv) {
				held = false
			}
		case ev.Kind == "store":
			if name, ok := state[ev.Args[0]]; ok {
				r.check(held, key, ev.Instr.Pos(), "NextID changes %s without the lock", name)
			}
		}
	}
	r.check(locked == 1, key, x.Pos, "NextID takes its lock %d times: another goroutine can run between its parts", locked)
	r.check(!held, key, x.Pos, "NextID returns with the lock held")
}

func lockOf(mu, recv *Term) bool {
	return mu.op == "field" && mu.args[0] == recv
}

func runE02(r *Report) {
	r.rule("Decompose takes each part from the bits where NextID puts it")
	r.rule("IDTime is the start of the generator plus the time bits of the ID, in the unit in which NextID reads the clock, in UTC")
	r.rule("FirstID and LastID return the first and the last ID that the generator made; the provider asks its own generator")
	m := r.flake()
	if m == nil {
		return
	}
	s := m.T.Underlying().(*types.Struct)
	// Decompose
	if f := r.p.Func(flakePkg, "Decompose"); f == nil {
		r.missing("Decompose")
	} else {
		rr := r.run(f, nil)
		id := rr.args[0]
		want := map[string][2]int{"msb": {63, 1}, "time": {m.mBits + m.sBits, m.tBits}, "sequence": {m.mBits, m.sBits}, "machine_id": {0, m.mBits}}
		for _, x := range rr.returns() {
			for name, rg := range want {
				key := "decompose:" + name
				el, _ := rr.e.mapAddr(x.Results[0], rr.e.ts.strTerm(name))
				v := rr.e.load(x.St, el, basic(types.Uint64))
				got := rr.e.bitsOf(nil, v)
				ok := true
				for b := 0; b < 64; b++ {
					w := bit0
					if b < rg[1] {
						w = bit{kind: 'a', t: id, i: rg[0] + b}
					}
					if name == "time" && b == rg[1] && got[b] == (bit{kind: 'a', t: id, i: 63}) {
						continue // bit 63 is 0 in generated IDs
					}
					if got[b] != w {
						ok = false
					}
				}
				r.check(ok, key, x.Pos, "the part %s of an ID is %s", name, v)
			}
		}
	}
	// unit of the clock in NextID: time = Now.UnixNano()/unit - start
	nr := r.run(m.next, func(e *Engine, st *State, args []*Term) {
		e.OnCall = clockCall
		m.assumeInv(e, st, args[0])
	})
	var unit *Term
	var start *Term
	for _, x := range nr.returns() {
		e1 := nr.e.load(x.St, nr.e.fieldAddr(nr.args[0], m.T, m.fe), s.Field(m.fe).Type())
		q := e1.any(func(t *Term) bool { return t.op == "quo" })
		if !q {
			continue
		}
		l := toLin(e1)
		ok := len(l.atoms) == 2 && l.c.Sign() == 0
		if ok {
			ok = false
			for i, a := range l.atoms {
				b := l.atoms[1-i]
				if a.op == "quo" && l.coef[i].Cmp(bi(1)) == 0 && l.coef[1-i].Cmp(bi(-1)) == 0 && isPure(a.args[0], "time.(Time).UnixNano") {
					if c, k := a.args[1].constInt(); k && c.Sign() > 0 && b.op == "ld" && b.args[0].op == "field" && b.args[0].args[0] == nr.args[0] {
						unit = a.args[1]
						start = b.args[0]
						ok = true
					}
				}
			}
		}
		r.check(ok, "time:NextID", x.Pos, "the time of a new ID is %s, not the clock minus the start of the generator", e1)
	}
	if !r.check(unit != nil && start != nil, "time:NextID", m.next.Pos(), "NextID does not take the time from the clock") {
		return
	}
	startName := start.aux
	u, _ := unit.constInt()
	if f := r.p.Func(flakePkg, "IDTime"); f == nil {
		r.missing("IDTime")
	} else {
		var recv *Term
		rr := r.run(f, func(e *Engine, st *State, args []*Term) {
			recv = e.ts.mk("param", "flake", types.NewPointer(m.T))
			args[0] = e.ts.iface(types.NewPointer(m.T), recv)
			e.addNonNil(st, recv)
		})
		for _, x := range rr.returns() {
			key := "time:IDTime"
			res := x.Results[0]
			ok := isPure(res, "time.(Time).UTC")
			if r.check(ok, key, x.Pos, "IDTime is not in UTC") {
				res = res.args[0]
			}
			if !r.check(isPure(res, "time.Unix") && len(res.args) == 2, key, x.Pos, "IDTime is %s", res) {
				continue
			}
			if !r.check(isUnixArg(rr.e, x.St, res, u.Int64(), recv, startName, rr.args[1], m), key, x.Pos, "IDTime is %s, not the start of the generator plus the time bits of the ID", res) {
				continue
			}
		}
		r.check(len(rr.returns()) > 0, "time:IDTime", f.Pos(), "IDTime never returns")
	}
	// FirstID, LastID
	lastF := -1
	for i := 0; i < s.NumFields(); i++ {
		all := len(nr.returns()) > 0
		for _, x := range nr.returns() {
			if nr.e.load(x.St, nr.e.fieldAddr(nr.args[0], m.T, i), s.Field(i).Type()) != x.Results[0] {
				all = false
			}
		}
		if all {
			lastF = i
		}
	}
	if r.check(lastF >= 0, "last:NextID", m.next.Pos(), "NextID does not keep the last ID") {
		r.fieldGetter("LastID", m, lastF, "last:LastID")
	}
	// the first ID is the one that the constructor makes
	if f := r.p.Func(flakePkg, "NewIDGenerator"); f == nil {
		r.missing("NewIDGenerator")
	} else {
		first := -1
		e := newEngine(r.p)
		e.Inline = func(fn *ssa.Function, depth int) bool { return fn.Name() != "defaultMachineID" }
		e.OnCall = func(e *Engine, st *State, c *Call) *Outcome {
			if c.Fn != m.next {
				return clockCall(e, st, c)
			}
			// the start and the first ID are not changed by NextID
			res := e.freshResult(st, c)
			st.event(&Event{Kind: "call", Instr: c.Instr, Ctx: c.Ctx, Callee: c.Name, Fn: c.Fn, Args: c.Args, Vals: c.Args, Result: res, Defer: c.Defer})
			return &Outcome{States: []*State{st}, Results: []*Term{res}}
		}
		ex := e.Run(f, newState(), nil)
		r.done(e, ex)
		for _, x := range ex {
			if x.Panic {
				continue
			}
			g := unIface(x.Results[0])
			var made []*Event
			for _, ev := range x.St.events() {
				if ev.Kind == "call" && ev.Fn == m.next && ev.Args[0] == g {
					made = append(made, ev)
				}
			}
			if len(made) == 0 {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				if i != lastF && e.load(x.St, e.fieldAddr(g, m.T, i), s.Field(i).Type()) == made[0].Result {
					first = i
				}
			}
			r.check(first >= 0, "first:NewIDGenerator", x.Pos, "the first ID that the generator makes is not kept")
			st := e.load(x.St, e.fieldAddr(g, m.T, fieldIndex(s, startName)), basic(types.Int64))
			ok := st.op == "quo" && isPure(st.args[0], "time.(Time).UnixNano") && st.args[1].String() == u.String()
			r.check(ok, "time:NewIDGenerator", x.Pos, "the start of the generator is %s, not in the unit of its clock", st)
			if ok {
				t := st.args[0].args[0]
				for t.op == "pure" && (isPure(t, "time.(Time).UTC") || isPure(t, "time.(Time).Local")) {
					t = t.args[0]
				}
				given := t.op == "fieldof" && strings.HasSuffix(t.aux, "Settings.StartTime") && t.args[0].op == "param"
				z, k := false, false
				for b, v := range x.St.b {
					if isPure(b, "time.(Time).IsZero") && strings.HasSuffix(b.args[0].aux, "Settings.StartTime") {
						z, k = v, true
					}
				}
				r.check(k && (!z && given || z && strings.Contains(t.String(), "DefaultStartTime")), "time:NewIDGenerator", x.Pos, "the start of the generator is %s, not the given one or the default", t)
			}
		}
		if r.check(first >= 0, "first:NewIDGenerator", f.Pos(), "the constructor does not keep the first ID") {
			r.fieldGetter("FirstID", m, first, "first:FirstID")
			for _, g := range r.p.funcs {
				if g != f && r.p.writesField(g, m.T, first) && !r.p.onlyCalledFrom(g, f) {
					r.check(false, "first:FirstID", g.Pos(), "%s changes the first ID", shortFn(g))
				}
			}
		}
	}
	if f := r.p.Method("", "SQLProvider", "IDTime"); f == nil {
		r.missing("SQLProvider.IDTime")
	} else {
		e := newEngine(r.p)
		e.Inline = func(fn *ssa.Function, depth int) bool { return fn.Name() != "IDTime" }
		ex := e.Run(f, newState(), nil)
		r.done(e, ex)
		for _, x := range ex {
			if x.Panic {
				continue
			}
			args := e.Params(f)
			ok := false
			for _, ev := range x.St.events() {
				if ev.Kind == "call" && ev.Result == x.Results[0] && strings.HasSuffix(ev.Callee, "flake.IDTime") && ev.Args[1] == args[1] {
					g := ev.Args[0]
					for g.op == "unbox" || g.op == "iface" {
						g = g.args[0]
					}
					own := g.op == "ld" && g.args[0].op == "field" && g.args[0].args[0] == args[0]
					ok = own
					if own && isNamed(ev.Callee, "xdb/pkg/flake.IDTime") {
						// the other kind of generator, which NewProvider accepts too, keeps its own start
						T := r.p.importedNamed("github.com/effective-security/x/flake", "Flake")
						is, k := true, true
						if T != nil {
							is, k = e.evalBool(x.St, e.isTerm(g, types.NewPointer(T)))
						}
						r.check(k && !is, "time:SQLProvider.IDTime", x.Pos, "the time of an ID of an x/flake generator is computed without the start of that generator")
					}
				}
			}
			r.check(ok, "time:SQLProvider.IDTime", x.Pos, "the provider does not ask its own generator for the time of the ID: %s", x.Results[0])
		}
	}
}

func fieldIndex(s *types.Struct, aux string) int {
	for i := 0; i < s.NumFields(); i++ {
		if strings.HasSuffix(aux, "."+s.Field(i).Name()) {
			return i
		}
	}
	return 0
}

// isUnixArg: time.Unix(0, unit*(start + time bits of id)).
func isUnixArg(e *Engine, st *State, t *Term, unit int64, recv *Term, startName string, id *Term, m *flakeModel) bool {
	if !t.args[0].isInt(0) {
		return false
	}
	l := toLin(t.args[1])
	if l.c.Sign() != 0 || len(l.atoms) != 2 {
		return false
	}
	seen := 0
	for i, a := range l.atoms {
		if l.coef[i].Cmp(bi(unit)) != 0 {
			return false
		}
		if a.op == "ld" && a.args[0].op == "field" && a.args[0].aux == startName && a.args[0].args[0] == recv {
			seen |= 1
			continue
		}
		b := e.bitsOf(nil, a)
		ok := true
		for i := 0; i < 64; i++ {
			w := bit0
			if i < m.tBits {
				w = bit{kind: 'a', t: id, i: m.mBits + m.sBits + i}
			}
			if i == m.tBits && b[i] == (bit{kind: 'a', t: id, i: 63}) {
				continue
			}
			ok = ok && b[i] == w
		}
		if ok {
			seen |= 2
		}
	}
	return seen == 3
}

// fieldGetter: the function returns the field of a Flake.
func (r *Report) fieldGetter(name string, m *flakeModel, field int, key string) {
	f := r.p.Func(flakePkg, name)
	if f == nil {
		r.missing(name)
		return
	}
	s := m.T.Underlying().(*types.Struct)
	var recv *Term
	rr := r.run(f, func(e *Engine, st *State, args []*Term) {
		recv = e.ts.mk("param", "flake", types.NewPointer(m.T))
		args[0] = e.ts.iface(types.NewPointer(m.T), recv)
		e.addNonNil(st, recv)
	})
	n := 0
	for _, x := range rr.returns() {
		n++
		want := rr.e.load(newState(), rr.e.fieldAddr(recv, m.T, field), s.Field(field).Type())
		r.check(x.Results[0] == want, key, x.Pos, "%s returns %s", name, x.Results[0])
	}
	r.check(n > 0, key, f.Pos(), "%s never returns", name)
}

func (p *Program) writesField(f *ssa.Function, T *types.Named, i int) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.Field == i {
				if pt, ok := fa.X.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), T) {
					return true
				}
			}
		}
	}
	return false
}

// onlyCalledFrom: g is an unexported helper of f, called from nowhere else and not used as a value.
func (p *Program) onlyCalledFrom(g, f *ssa.Function) bool {
	return p.helperOf(g, func(h *ssa.Function) bool { return h == f })
}

// helperOf: g is one of the functions in, or an unexported helper that is called from them only.
func (p *Program) helperOf(g *ssa.Function, in func(*ssa.Function) bool) bool {
	seen := map[*ssa.Function]bool{}
	var up func(g *ssa.Function) bool
	up = func(g *ssa.Function) bool {
		if in(g) || seen[g] {
			return true
		}
		seen[g] = true
		if g.Parent() != nil {
			return up(g.Parent())
		}
		if g.Object() == nil || g.Object().Exported() {
			return false
		}
		n := 0
		for _, h := range p.funcs {
			for _, b := range h.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if *op != ssa.Value(g) {
							continue
						}
						if c, ok := in.(ssa.CallInstruction); !ok || c.Common().StaticCallee() != g || !up(h) {
							return false
						}
						n++
					}
				}
			}
		}
		return n > 0
	}
	return up(g)
}

func (e *Engine) addNonNil(st *State, t *Term) { e.assume(st, e.isNilTerm(t), false) }

var _ = fmt.Sprint

// importedNamed is a type of a package that the repository imports.
func (p *Program) importedNamed(pkg, name string) types.Type {
	for _, pk := range p.pkgs {
		for _, im := range pk.Types.Imports() {
			if im.Path() == pkg {
				if o := im.Scope().Lookup(name); o != nil {
					return o.Type()
				}
			}
		}
	}
	return nil
}
