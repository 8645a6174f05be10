package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- E03: a generator is made as its settings say

func init() {
	rules["E03"] = propRule{run: runE03, title: "Generators are made as their settings say",
		assum: []string{"net.Interface addresses are valid: their IP has 4 or 16 bytes, and To16 of it has 16"}}
}

// startAfter: what the path says about start > now.
func startAfter(e *Engine, st *State, start, now func(*Term) bool) (v, known bool) {
	strip := func(t *Term) *Term {
		for isPure(t, "time.(Time).UTC") || isPure(t, "time.(Time).Local") {
			t = t.args[0]
		}
		return t
	}
	for b, val := range st.b {
		if b.op != "pure" || len(b.args) != 2 {
			continue
		}
		x, y := strip(b.args[0]), strip(b.args[1])
		switch {
		case isPure(b, "time.(Time).After") && start(x) && now(y), isPure(b, "time.(Time).Before") && now(x) && start(y):
			return val, true
		}
	}
	for t := range st.iv {
		t.any(func(u *Term) bool {
			if u.op != "pure" || len(u.args) != 2 {
				return false
			}
			x, y := strip(u.args[0]), strip(u.args[1])
			iv := e.bounds(st, u)
			sub := isPure(u, "time.(Time).Sub") || isPure(u, "time.(Time).Compare")
			switch {
			case sub && start(x) && now(y):
				if iv.lo != nil && iv.lo.Sign() > 0 {
					v, known = true, true
				} else if iv.hi != nil && iv.hi.Sign() <= 0 {
					v, known = false, true
				}
			case sub && now(x) && start(y):
				if iv.hi != nil && iv.hi.Sign() < 0 {
					v, known = true, true
				} else if iv.lo != nil && iv.lo.Sign() >= 0 {
					v, known = false, true
				}
			}
			return known
		})
	}
	return
}

func runE03(r *Report) {
	r.rule("a generator is returned only on paths where the start is not after the clock, the machine number was given without an error, and the check of the settings accepts exactly this number; it panics on no other paths than the documented ones")
	r.rule("the machine number of the generator is the result of the function of the settings, or the default one when there is none: the last two bytes of the first address that is not loopback, 0 when there is no such address, a hash of the program in tests")
	m := r.flake()
	if m == nil {
		return
	}
	f := r.p.Func(flakePkg, "NewIDGenerator")
	if f == nil {
		r.missing("NewIDGenerator")
		return
	}
	s := m.T.Underlying().(*types.Struct)
	isField := func(t *Term, name string) bool {
		if t == nil {
			return false
		}
		return strings.HasSuffix(t.aux, "flake.Settings."+name) && (t.op == "fieldof" || t.op == "ld") || t.op == "ld" && t.args[0].op == "field" && strings.HasSuffix(t.args[0].aux, "flake.Settings."+name)
	}
	key := "settings:NewIDGenerator"
	// an address that is not used is no address of a network, or loopback
	skipped := func(e *Engine, st *State, rec *LoopRec, evs []*Event) bool {
		for b, v := range st.b {
			if b.op == "is" && !v {
				return true
			}
			if v && isLoopback(evs, b) != nil {
				return true
			}
		}
		return false
	}
	overAddrs := func(evs []*Event) bool {
		for _, ev := range evs {
			if ev.Kind == "call" && strings.Contains(ev.Callee, "IsLoopback") {
				return true
			}
		}
		return false
	}
	rr := r.run(f, func(e *Engine, st *State, args []*Term) {
		e.Inline = func(fn *ssa.Function, d int) bool {
			return fn != m.next && fn.Name() != "IDTime" && fn.Name() != "Decompose"
		}
		e.OnCall = func(e *Engine, st *State, c *Call) *Outcome {
			if c.Fn == m.next || c.Fn != nil && (c.Fn.Name() == "IDTime" || c.Fn.Name() == "Decompose") {
				return quietCall(e, st, c)
			}
			if c.Name == "dynamic" {
				res := e.freshResult(st, c)
				st.event(&Event{Kind: "call", Instr: c.Instr, Ctx: c.Ctx, Callee: c.Name, Args: c.Args, Vals: c.Args, Result: res, Defer: c.Defer, Dyn: c.Dyn})
				return &Outcome{States: []*State{st}, Results: []*Term{res}}
			}
			return nil
		}
		e.OnBack = func(st *State, rec *LoopRec) {
			evs := logSince(st.log, rec.Base)
			all := false
			for _, it := range rec.Iters {
				all = all || overAddrs(it)
			}
			if !all {
				return
			}
			r.check(skipped(e, st, rec, evs), "default:skip", rec.Header.Instrs[0].Pos(), "an address is not used although it may be one of a network that is not loopback")
		}
	})
	e := rr.e
	n, def := 0, 0
	for _, x := range rr.exits {
		evs := x.St.events()
		var nows, mids, checks []*Event
		for _, ev := range evs {
			if ev.Kind != "call" || ev.Callee != "dynamic" {
				continue
			}
			switch {
			case isField(ev.Dyn, "MachineID"):
				mids = append(mids, ev)
			case isField(ev.Dyn, "CheckMachineID"):
				checks = append(checks, ev)
			default:
				nows = append(nows, ev)
			}
		}
		isNow := func(t *Term) bool {
			for _, ev := range nows {
				if t == ev.Result {
					return true
				}
			}
			return t.op == "call" && strings.HasPrefix(t.aux, "time.Now")
		}
		zero, zk := false, false
		for b, v := range x.St.b {
			if isPure(b, "time.(Time).IsZero") && isField(b.args[0], "StartTime") {
				zero, zk = v, true
			}
		}
		isStart := func(t *Term) bool {
			if zk && zero {
				return strings.Contains(t.String(), "DefaultStartTime")
			}
			return isField(t, "StartTime")
		}
		late, lk := startAfter(e, x.St, isStart, isNow)
		midErr, mek := false, false
		for _, ev := range mids {
			rs := ev.results()
			if len(rs) == 2 {
				if nl, k := e.nilness(x.St, rs[1]); k {
					midErr, mek = !nl, true
				}
			}
		}
		refused, rk := false, false
		for _, ev := range checks {
			if v, k := e.evalBool(x.St, ev.Result); k {
				refused, rk = !v, true
			}
		}
		if x.Panic {
			ok := lk && late || mek && midErr || rk && refused
			r.check(ok, key, x.Pos, "NewIDGenerator panics although the settings are good")
			continue
		}
		n++
		g := unIface(x.Results[0])
		if !r.check(isFresh(g), key, x.Pos, "NewIDGenerator does not return a new generator") {
			continue
		}
		r.check(lk && !late, key, x.Pos, "NewIDGenerator returns a generator whose start can be in the future")
		mach := e.load(x.St, e.fieldAddr(g, m.T, m.fm), s.Field(m.fm).Type())
		given, gk := (*bool)(nil), false
		for b, v := range x.St.b {
			if b.op == "isnil" && isField(b.args[0], "MachineID") {
				w := !v
				given, gk = &w, true
			}
		}
		if !r.check(gk, key, x.Pos, "NewIDGenerator does not look whether the settings give a machine number") {
			continue
		}
		if *given {
			ok := len(mids) == 1 && len(mids[0].results()) == 2 && mids[0].results()[0] == mach
			r.check(ok, key, x.Pos, "the machine number of the generator is %s, not the one that the settings give", mach)
			r.check(mek && !midErr, key, x.Pos, "NewIDGenerator returns a generator although the machine number may have failed")
		} else {
			def++
			defaultMachine(r, e, x, evs, mach)
		}
		hasCheck, hk := false, false
		for b, v := range x.St.b {
			if b.op == "isnil" && isField(b.args[0], "CheckMachineID") {
				hasCheck, hk = !v, true
			}
		}
		if r.check(hk, key, x.Pos, "NewIDGenerator does not look whether the settings check the machine number") && hasCheck {
			ok := len(checks) == 1 && len(checks[0].Args) == 1 && e.sameInt(x.St, checks[0].Args[0], mach, false)
			r.check(ok && rk && !refused, key, x.Pos, "NewIDGenerator returns a generator although the check of the settings may refuse its machine number")
		}
	}
	r.atLeast(n, 4, "paths that make a generator")
	r.atLeast(def, 3, "paths with a default machine number")
}

// isLoopback: the condition is the result of a call of IsLoopback among the events; it gives the address.
func isLoopback(evs []*Event, b *Term) *Term {
	if isPure(b, "net.(IP).IsLoopback") {
		return b.args[0]
	}
	for _, ev := range evs {
		if ev.Kind == "call" && ev.Callee == "net.(IP).IsLoopback" && ev.Result == b {
			return ev.Args[0]
		}
	}
	return nil
}

// defaultMachine decides the machine number where the settings give none.
func defaultMachine(r *Report, e *Engine, x *Exit, evs []*Event, mach *Term) {
	key := "default:machine"
	for b, v := range x.St.b {
		if v && b.op == "pure" && strings.HasPrefix(b.aux, "strings.") && strings.Contains(b.String(), "os.Args") {
			// of the program, in tests
			r.check(true, key, x.Pos, "")
			return
		}
	}
	var addrs *Event
	for _, ev := range evs {
		if ev.Kind == "call" && ev.Callee == "net.InterfaceAddrs" {
			addrs = ev
		}
	}
	if !r.check(addrs != nil && len(addrs.results()) == 2, key, x.Pos, "the default machine number is %s, and is not made of the addresses", mach) {
		return
	}
	if c, ok := mach.constInt(); ok {
		none := false
		if nl, k := e.nilness(x.St, addrs.results()[1]); k && !nl {
			none = true
		}
		for _, ev := range evs {
			if ev.Kind == "loop" && loopOver(e, x.St, ev.Loop, addrs.results()[0]) != nil {
				none = true
			}
		}
		if v, k := e.evalBool(x.St, e.le0(toLin(e.lenOf(addrs.results()[0])))); k && v {
			none = true
		}
		r.check(c.Sign() == 0 && none, key, x.Pos, "the default machine number is %s although there may be an address", mach)
		return
	}
	bits := e.bitsOf(x.St, mach)
	// fromEnd: the index is that many bytes before the end
	fromEnd := func(base, i *Term, back int) bool {
		want := e.ts.sub(e.lenOf(base), e.ts.intTerm(int64(back)), types.Typ[types.Int])
		if e.sameInt(x.St, i, want, false) {
			return true
		}
		c, ok := i.constInt()
		if !ok || c.Int64() != int64(16-back) {
			return false
		}
		for _, ev := range evs {
			if ev.Kind == "call" && ev.Callee == "net.(IP).To16" && ev.Result == base {
				return true
			}
		}
		return isPure(base, "net.(IP).To16")
	}
	byteAt := func(from, back int) *Term {
		el := bits[from].t
		for i := 0; i < 8; i++ {
			if bits[from+i].kind != 'a' || bits[from+i].t != el || bits[from+i].i != i {
				return nil
			}
		}
		if el == nil || el.op != "ld" || el.args[0].op != "index" {
			return nil
		}
		a := el.args[0]
		if !fromEnd(a.args[0], a.args[1], back) {
			return nil
		}
		return a.args[0]
	}
	lo, hi := byteAt(0, 1), byteAt(8, 2)
	for _, ev := range evs {
		if ev.Kind == "call" && ev.Callee == "encoding/binary.(bigEndian).Uint16" && ev.Result == mach {
			if sl := ev.Args[len(ev.Args)-1]; sl.op == "slice" && fromEnd(sl.args[0], sl.args[1], 2) {
				lo, hi = sl.args[0], sl.args[0]
				bits = [64]bit{}
				for i := range bits {
					bits[i] = bit0
				}
			}
		}
	}
	if !r.check(lo != nil && lo == hi, key, x.Pos, "the default machine number is %s, not the last two bytes of an address", mach) {
		return
	}
	for i := 16; i < 64; i++ {
		r.check(bits[i] == bit0, key, x.Pos, "the default machine number is %s", mach)
	}
	ip := lo
	for _, ev := range evs {
		if ev.Kind == "call" && ev.Result == lo {
			switch ev.Callee {
			case "net.(IP).To16":
				ip = ev.Args[0]
			case "net.(IP).To4":
				if nl, k := e.nilness(x.St, lo); k && !nl {
					ip = ev.Args[0]
				} else {
					r.check(false, key, x.Pos, "the default machine number is read from an address of 4 bytes, which not every address is")
					return
				}
			}
		}
	}
	if isPure(lo, "net.(IP).To16") {
		ip = lo.args[0]
	}
	own := false
	for b, v := range x.St.b {
		if a := isLoopback(evs, b); a != nil && !v && (a == ip || sameVal(a, ip)) {
			own = true
		}
	}
	r.check(own, key, x.Pos, "the default machine number is of an address that may be loopback")
	from := ip.any(func(t *Term) bool { return t == addrs.results()[0] })
	r.check(from, key, x.Pos, "the default machine number is of %s, not of an address of the machine", ip)
}
