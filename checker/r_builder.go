package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["F02"] = propRule{run: runF02, title: "Query parameters give back what was set"}
}

// accessor results of the builder on a state
func (r *Report) accessor(e *Engine, st *State, name string, args ...*Term) ([]*Exit, *ssa.Function) {
	f := r.p.Method("", qpType, name)
	if f == nil {
		r.missing(qpType + "." + name)
		return nil, nil
	}
	ex := e.Run(f, st.clone(), args)
	r.funcs[f.String()] = true
	return ex, f
}

// sameTerm: the terms are the same value on the path.
func (e *Engine) sameTerm(st *State, a, b *Term, T types.Type) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	if isInteger(T) {
		return e.sameInt(st, a, b, false)
	}
	v, k := e.evalBool(st, e.eqTerm(a, b, T))
	return k && v
}

func runF02(r *Report) {
	r.rule("Set appends its value to the arguments, SetCursor the cursor and then the limit, SetPage the limit and then the offset, AddArgs its values in order; no other setter changes the arguments")
	r.rule("Page and Cursor return the limit, offset and cursor that were set, with the default page size in place of 0; once a limit is set, nothing can be added behind it")
	r.rule("a position is set exactly if a setter was called for it (decided for each bit), and an enum is only ever found at its own position; positions above 63 panic and change nothing")
	r.rule("Reset leaves the state of new parameters with the same query name; every setter returns its receiver; accessors do not change the parameters")
	ms, T := r.builderMethods()
	if T == nil {
		return
	}
	st0 := newState()
	e := newEngine(r.p)
	var base *Term
	for _, m := range ms {
		if m.Name() == "Args" {
			base = e.Params(m)[0]
		}
	}
	if base == nil {
		r.missing(qpType + ".Args")
		return
	}
	// straight accessors
	acc := map[string][]*Term{}
	var accT = map[string]*types.Tuple{}
	simple := []string{"Args", "Page", "Cursor", "GetFlags", "GetNullColumns"}
	read := func(st *State, name string, args ...*Term) []*Term {
		ex, f := r.accessor(e, st, name, append([]*Term{base}, args...)...)
		if f == nil {
			return nil
		}
		if len(ex) != 1 || ex[0].Panic {
			return nil
		}
		accT[name] = f.Signature.Results()
		return ex[0].Results
	}
	for _, a := range simple {
		acc[a] = read(st0, a)
		if acc[a] == nil {
			r.check(false, "accessor:"+a, token.NoPos, "%s does not return one value on one path", a)
			return
		}
	}
	accFields := map[string]map[int]bool{}
	byName := map[string]*ssa.Function{}
	for _, m := range ms {
		byName[m.Name()] = m
	}
	setters := map[string]bool{"Set": true, "SetCursor": true, "SetPage": true, "AddArgs": true, "SetEnum": true, "SetFlags": true, "SetNullColums": true, "Reset": true}
	for s := range setters {
		if byName[s] == nil {
			r.missing(qpType + "." + s)
			return
		}
	}
	for _, a := range append(simple, "GetEnum", "IsSet") {
		f := byName[a]
		if f == nil {
			r.missing(qpType + "." + a)
			return
		}
		accFields[a] = r.p.fieldsOf(f, T, false)
		// accessors are pure
		for i := range r.p.fieldsOf(f, T, true) {
			r.check(false, "pure:"+a, f.Pos(), "%s changes %s", a, T.Underlying().(*types.Struct).Field(i).Name())
		}
		r.check(true, "pure:"+a, f.Pos(), "")
	}
	limit0, offset0 := acc["Page"][0], acc["Page"][1]
	ifaceOf := func(T types.Type, t *Term) *Term { return e.ts.iface(T, t) }
	u32 := basic(types.Uint32)
	dflt := e.ts.intTerm(500)
	if c := r.p.constOf("", "DefaultPageSize"); c != nil {
		dflt = c(e)
	}
	// effective limit on a path
	effective := func(st *State, l *Term) (*Term, bool) {
		z, k := e.isZeroTerm(st, l, u32)
		if !k {
			return nil, false
		}
		if z {
			return dflt, true
		}
		return l, true
	}
	appended := func(st *State, got, old *Term, vals ...*Term) string {
		if got.op != "append" || got.args[0] != old {
			if len(vals) == 0 && got == old {
				return ""
			}
			return "the arguments are " + got.String()
		}
		if len(got.args) != len(vals)+1 {
			return "the arguments are " + got.String()
		}
		for i, v := range vals {
			g := got.args[i+1]
			if g == v {
				continue
			}
			if g.op == "iface" && v.op == "iface" && types.Identical(g.T, v.T) && e.sameTerm(st, g.args[0], v.args[0], g.T) {
				continue
			}
			return "the arguments are " + got.String()
		}
		return ""
	}
	for _, m := range ms {
		name := m.Name()
		if !setters[name] {
			if token.IsExported(name) && accFields[name] == nil && name != "Name" && m.Signature.Results().Len() > 0 {
				// other methods must not change what accessors return
				w := r.p.fieldsOf(m, T, true)
				for a, fs := range accFields {
					for i := range fs {
						r.check(!w[i], "frame:"+name, m.Pos(), "%s changes what %s returns", name, a)
					}
				}
			}
			continue
		}
		args := e.Params(m)
		args[0] = base
		exits := e.Run(m, newState(), args)
		r.done(e, exits)
		key := "set:" + name
		normal := 0
		for _, x := range exits {
			if x.Panic {
				// a panic only for a position out of range or a limit that is already set, and nothing is changed
				overs := false
				if v, k := e.evalBool(x.St, e.le0(linAdd(lin{c: bi(1)}, toLin(limit0), -1))); k && v {
					overs = true
				}
				for i, p := range m.Params {
					if p.Name() == "pos" || isPosParam(m, i) {
						if v, k := e.evalBool(x.St, e.le0(linAdd(lin{c: bi(64)}, toLin(args[i]), -1))); k && v {
							overs = true
						}
					}
				}
				r.check(overs, key, x.Pos, "%s panics although the position is in range and no limit is set", name)
				continue
			}
			normal++
			if m.Signature.Results().Len() == 1 {
				r.check(x.Results[0] == base, key, x.Pos, "%s does not return the parameters", name)
			}
			now := map[string][]*Term{}
			bad := false
			for _, a := range simple {
				now[a] = read(x.St, a)
				bad = bad || now[a] == nil
			}
			if !r.check(!bad, key, x.Pos, "the parameters cannot be read after %s", name) {
				continue
			}
			if setters[name] && name != "SetFlags" && name != "SetNullColums" && name != "Reset" {
				v, k := e.evalBool(x.St, e.eqTerm(limit0, e.ts.intTerm(0), u32))
				r.check(k && v, key, x.Pos, "%s adds an argument behind the limit", name)
			}
			changed := map[string]bool{}
			switch name {
			case "Set":
				msg := appended(x.St, now["Args"][0], acc["Args"][0], args[2])
				r.check(msg == "", key, x.Pos, "after Set %s", msg)
				changed["Args"] = true
			case "AddArgs":
				got := now["Args"][0]
				ok := got.op == "appendv" || got.op == "append"
				ok = ok && got.args[0] == acc["Args"][0] && got.args[len(got.args)-1] == args[1]
				r.check(ok, key, x.Pos, "after AddArgs the arguments are %s", got)
				changed["Args"] = true
			case "SetPage", "SetCursor":
				lim, ok := effective(x.St, args[1])
				if !ok {
					// the effective limit is not split: accept a call result that depends on the limit only through the model
					r.check(false, key, x.Pos, "%s does not distinguish a limit of 0", name)
					continue
				}
				var want []*Term
				if name == "SetPage" {
					want = []*Term{ifaceOf(u32, lim), ifaceOf(u32, args[2])}
				} else {
					want = []*Term{args[3], ifaceOf(u32, lim)}
				}
				got := flatAppend(now["Args"][0])
				msg := appended(x.St, e.ts.mk("append", "", acc["Args"][0].typ, got...), acc["Args"][0], want...)
				r.check(msg == "", key, x.Pos, "after %s %s", name, msg)
				r.check(e.sameTerm(x.St, now["Page"][0], lim, u32), key, x.Pos, "after %s the limit is %s", name, now["Page"][0])
				r.check(e.sameTerm(x.St, now["Cursor"][0], lim, u32), key, x.Pos, "after %s the limit of the cursor is %s", name, now["Cursor"][0])
				if name == "SetPage" {
					r.check(e.sameTerm(x.St, now["Page"][1], args[2], u32), key, x.Pos, "after SetPage the offset is %s", now["Page"][1])
					r.check(now["Cursor"][1] == acc["Cursor"][1], key, x.Pos, "SetPage changes the cursor")
				} else {
					r.check(now["Cursor"][1] == args[3], key, x.Pos, "after SetCursor the cursor is %s", now["Cursor"][1])
					r.check(now["Page"][1] == offset0, key, x.Pos, "SetCursor changes the offset")
				}
				changed["Args"], changed["Page"], changed["Cursor"] = true, true, true
			case "SetFlags", "SetNullColums":
				a := map[string]string{"SetFlags": "GetFlags", "SetNullColums": "GetNullColumns"}[name]
				g := now[a][0]
				ok := g == args[1] || (g.op == "append" || g.op == "appendv") && len(g.args) == 2 && g.args[1] == args[1] && lenZero(e, x.St, g.args[0])
				r.check(ok, key, x.Pos, "after %s %s returns %s", name, a, g)
				changed[a] = true
			case "Reset":
				for _, a := range simple {
					for i, v := range now[a] {
						z, k := e.isZeroTerm(x.St, v, accT[a].At(i).Type())
						if _, ok := accT[a].At(i).Type().Underlying().(*types.Slice); ok && !(k && z) {
							r.check(isFresh(root(v)), key, x.Pos, "after Reset %s shares storage with the list it returned before", a)
							z, k = e.evalBool(x.St, e.eqTerm(e.lenOf(v), e.ts.intTerm(0), basic(types.Int)))
						}
						r.check(k && z, key, x.Pos, "after Reset %s returns %s", a, v)
					}
					changed[a] = true
				}
				// every field an accessor or the name depends on is as in new parameters
				reads := map[int]bool{}
				for _, fs := range accFields {
					for i := range fs {
						reads[i] = true
					}
				}
				nm := byName["Name"]
				if nm != nil {
					for i := range r.p.fieldsOf(nm, T, false) {
						reads[i] = true
					}
				}
				s := T.Underlying().(*types.Struct)
				kept := 0
				for i := range reads {
					v := e.load(x.St, e.fieldAddr(base, T, i), s.Field(i).Type())
					old := e.load(newState(), e.fieldAddr(base, T, i), s.Field(i).Type())
					z, k := e.isZeroTerm(x.St, v, s.Field(i).Type())
					if _, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && !(k && z) {
						z, k = e.evalBool(x.St, e.eqTerm(e.lenOf(v), e.ts.intTerm(0), basic(types.Int)))
					}
					if v == old && isString(s.Field(i).Type()) && setOnlyBy(r.p, T, i, "NewQueryParams") {
						kept++
						continue // the query name
					}
					r.check(k && z, key, x.Pos, "Reset leaves %s in field %s", v, s.Field(i).Name())
				}
				r.check(kept <= 1, key, x.Pos, "Reset leaves %d texts unchanged", kept)
			}
			for _, a := range simple {
				if changed[a] {
					continue
				}
				for i := range acc[a] {
					r.check(now[a][i] == acc[a][i], "frame:"+name, x.Pos, "%s changes what %s returns", name, a)
				}
			}
		}
		r.check(normal > 0, key, m.Pos(), "%s always panics", name)
	}
	r.positions(e, byName, base)
	r.enums(e, byName, base, T)
}

func lenZero(e *Engine, st *State, t *Term) bool {
	v, k := e.evalBool(st, e.eqTerm(e.lenOf(t), e.ts.intTerm(0), basic(types.Int)))
	return k && v
}

// isPosParam: the parameter is the position of a setter.
func isPosParam(m *ssa.Function, i int) bool {
	switch m.Name() {
	case "Set", "SetEnum":
		return i == 1
	case "SetCursor":
		return i == 2
	}
	return false
}

// flatAppend flattens append(append(x, a), b).
func flatAppend(t *Term) []*Term {
	if t.op == "append" && t.args[0].op == "append" {
		return append(flatAppend(t.args[0]), t.args[1:]...)
	}
	if t.op == "append" {
		return append([]*Term{}, t.args...)
	}
	return []*Term{t}
}

// setOnlyBy: the field is written in the named function only.
func setOnlyBy(p *Program, T *types.Named, i int, fn string) bool {
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != i {
					continue
				}
				if pt, ok := fa.X.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), T) && f.Name() != fn && !copyOfField(s.Val, T, i) {
					return false
				}
			}
		}
	}
	return true
}

// copyOfField: the value is read from the same field of another object.
func copyOfField(v ssa.Value, T *types.Named, i int) bool {
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL && fa.Field == i {
			pt, ok := fa.X.Type().Underlying().(*types.Pointer)
			return ok && types.Identical(pt.Elem(), T)
		}
	case *ssa.Field:
		return v.Field == i && types.Identical(v.X.Type(), T)
	}
	return false
}

// positions decides IsSet bit by bit.
func (r *Report) positions(e *Engine, by map[string]*ssa.Function, base *Term) {
	isSet := by["IsSet"]
	if isSet == nil {
		return
	}
	ask := func(st *State, q int64) bit {
		ex := e.Run(isSet, st.clone(), []*Term{base, e.ts.intTerm(q)})
		if len(ex) == 1 && !ex[0].Panic {
			return e.truthBit(ex[0].St, ex[0].Results[0])
		}
		// a branching IsSet: all returns must agree
		b := bitX
		for i, x := range ex {
			if x.Panic {
				return bitX
			}
			y := e.truthBit(x.St, x.Results[0])
			if i > 0 && y != b {
				return bitX
			}
			b = y
		}
		return b
	}
	var was [64]bit
	for q := range was {
		was[q] = ask(newState(), int64(q))
		r.check(was[q].kind != '?', "bits:IsSet", isSet.Pos(), "IsSet(%d) is not decided by the positions", q)
	}
	for i := range was {
		for j := 0; j < i; j++ {
			if was[i] == was[j] {
				r.check(false, "bits:IsSet", isSet.Pos(), "IsSet does not distinguish the positions %d and %d", j, i)
			}
		}
	}
	for _, name := range []string{"Set", "SetEnum", "SetCursor"} {
		m := by[name]
		key := "bits:" + name
		bad := 0
		for p := int64(0); p < 64 && bad < 3; p++ {
			args := e.Params(m)
			args[0] = base
			for i := range args {
				if isPosParam(m, i) {
					args[i] = e.ts.intTerm(p)
				}
			}
			n := 0
			for _, x := range e.Run(m, newState(), args) {
				if x.Panic {
					continue
				}
				n++
				if !r.check(ask(x.St, p) == bit1, key, x.Pos, "position %d is not set after %s", p, name) {
					bad++
				}
				for q := int64(0); q < 64; q++ {
					if q != p && !r.check(ask(x.St, q) == was[q], key, x.Pos, "%s of a position changes another one", name) {
						bad++
						break
					}
				}
			}
			r.check(n > 0, key, m.Pos(), "%s panics for position %d", name, p)
		}
		// above 63
		args := e.Params(m)
		args[0] = base
		st := newState()
		for i := range args {
			if isPosParam(m, i) {
				e.constrain(st, args[i], bi(64), bi(1<<32-1))
			}
		}
		for _, x := range e.Run(m, st, args) {
			r.check(x.Panic, key, x.Pos, "%s accepts a position above 63", name)
		}
	}
	for _, name := range []string{"SetPage", "AddArgs", "SetFlags", "SetNullColums", "Reset"} {
		m := by[name]
		args := e.Params(m)
		args[0] = base
		for _, x := range e.Run(m, newState(), args) {
			if x.Panic {
				continue
			}
			for q := int64(0); q < 64; q++ {
				want := was[q]
				if name == "Reset" {
					want = bit0
				}
				if !r.check(ask(x.St, q) == want, "bits:"+name, x.Pos, "position %d is wrong after %s", q, name) {
					break
				}
			}
		}
	}
}

// enums: SetEnum adds its entry, GetEnum finds entries at their own position.
func (r *Report) enums(e *Engine, by map[string]*ssa.Function, base *Term, T *types.Named) {
	get, set := by["GetEnum"], by["SetEnum"]
	if get == nil || set == nil {
		return
	}
	// the list that GetEnum reads
	s := T.Underlying().(*types.Struct)
	list := -1
	for i := range r.p.fieldsOf(get, T, false) {
		if _, ok := s.Field(i).Type().Underlying().(*types.Slice); ok {
			list = i
		}
	}
	if list < 0 {
		r.check(false, "enum:GetEnum", get.Pos(), "GetEnum does not read a list of enums")
		return
	}
	LT := s.Field(list).Type()
	old := e.load(newState(), e.fieldAddr(base, T, list), LT)
	ET := LT.Underlying().(*types.Slice).Elem()
	est, ok := ET.Underlying().(*types.Struct)
	if !ok {
		r.check(false, "enum:GetEnum", get.Pos(), "the enums have no position and value")
		return
	}
	args := e.Params(get)
	args[0] = base
	pos := args[1]
	posField, valField := -1, -1
	found, none := 0, 0
	for _, x := range e.Run(get, newState(), args) {
		if x.Panic {
			r.check(false, "enum:GetEnum", x.Pos, "GetEnum panics")
			continue
		}
		key := "enum:GetEnum"
		ok, k := e.evalBool(x.St, x.Results[1])
		if !r.check(k, key, x.Pos, "GetEnum does not decide whether the enum is set") {
			continue
		}
		// the field f of an element, and how to read the other fields of the same element
		elemField := func(t *Term) (f int, other func(i int) *Term) {
			for i := 0; i < est.NumFields(); i++ {
				if len(t.args) == 1 && t.op == "fieldof" && strings.HasSuffix(t.aux, "."+est.Field(i).Name()) {
					v := t.args[0]
					return i, func(j int) *Term {
						return e.fieldOf(v, typeKey(ET)+"."+est.Field(j).Name(), est.Field(j).Type())
					}
				}
				if t.op == "ld" && t.args[0].op == "field" && strings.HasSuffix(t.args[0].aux, "."+est.Field(i).Name()) {
					el := t.args[0].args[0]
					return i, func(j int) *Term { return e.load(x.St, e.fieldAddr(el, ET, j), est.Field(j).Type()) }
				}
			}
			return -1, nil
		}
		if ok {
			found++
			vf, other := elemField(x.Results[0])
			if !r.check(other != nil && x.Results[0].any(func(t *Term) bool { return t == old }), key, x.Pos, "GetEnum returns %s, not the value of an entry", x.Results[0]) {
				continue
			}
			valField = vf
			eq := false
			for i := 0; i < est.NumFields(); i++ {
				if i == vf {
					continue
				}
				if e.sameInt(x.St, other(i), pos, false) {
					eq = true
					posField = i
				}
			}
			r.check(eq, key, x.Pos, "GetEnum returns the value of an entry at another position")
			continue
		}
		none++
		z, zk := e.isZeroTerm(x.St, x.Results[0], get.Signature.Results().At(0).Type())
		r.check(zk && z, key, x.Pos, "GetEnum returns %s for an enum that is not set", x.Results[0])
		// all entries are visited and none is at the position
		all := false
		for _, ev := range x.St.events() {
			if ev.Kind != "loop" {
				continue
			}
			idx := loopOver(e, x.St, ev.Loop, old)
			if idx == nil {
				continue
			}
			all = true
			for _, bs := range ev.Loop.Backs {
				el := e.ts.mk("index", "", types.NewPointer(ET), old, idx)
				differs := false
				for i := 0; i < est.NumFields(); i++ {
					if !types.Identical(est.Field(i).Type(), pos.typ) {
						continue
					}
					pv := e.load(bs, e.fieldAddr(el, ET, i), est.Field(i).Type())
					if v, k := e.evalBool(bs, e.eqTerm(pv, pos, pos.typ)); k && !v {
						differs = true
					}
				}
				r.check(differs, key, x.Pos, "GetEnum skips an entry that may be at the position")
			}
		}
		if !all {
			if v, k := e.evalBool(x.St, e.eqTerm(e.lenOf(old), e.ts.intTerm(0), basic(types.Int))); k && v {
				all = true
			}
		}
		r.check(all, key, x.Pos, "GetEnum does not look at all entries")
	}
	r.check(found > 0, "enum:GetEnum", get.Pos(), "GetEnum never finds an enum")
	if posField < 0 || valField < 0 {
		return
	}
	isBy := map[*ssa.Function]bool{}
	for _, m := range by {
		isBy[m] = true
	}
	for _, m := range by {
		args := e.Params(m)
		args[0] = base
		name := m.Name()
		if w := r.p.fieldsOf(m, T, true); !w[list] {
			continue
		}
		if o := m.Object(); o != nil && !o.Exported() && r.p.helperOf(m, func(h *ssa.Function) bool { return h != m && isBy[h] && h.Object().Exported() }) {
			continue // seen where it is called
		}
		n := 0
		for _, x := range e.Run(m, newState(), args) {
			if x.Panic {
				continue
			}
			n++
			now := e.load(x.St, e.fieldAddr(base, T, list), LT)
			key := "enum:" + name
			switch name {
			case "SetEnum":
				ok := now.op == "append" && len(now.args) == 2 && now.args[0] == old
				if r.check(ok, key, x.Pos, "SetEnum changes the enums to %s", now) {
					el := now.args[1]
					pf := e.fieldOf(el, ET.String()+"."+est.Field(posField).Name(), est.Field(posField).Type())
					vf := e.fieldOf(el, ET.String()+"."+est.Field(valField).Name(), est.Field(valField).Type())
					if el.op == "struct" {
						pf, vf = el.args[posField], el.args[valField]
					}
					r.check(pf == args[1] && vf == args[2], key, x.Pos, "SetEnum adds the entry %s", el)
				}
			case "Reset":
				r.check(lenZero(e, x.St, now), key, x.Pos, "Reset leaves enums")
			default:
				r.check(false, key, x.Pos, "%s changes the enums", name)
			}
		}
	}
}
