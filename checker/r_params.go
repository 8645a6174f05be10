package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["F01"] = propRule{run: runF01, title: "Names of query parameters"}

}

// fieldsOf: fields of the struct type that the function touches, with its callees in the repository.
func (p *Program) fieldsOf(f *ssa.Function, T *types.Named, write bool) map[int]bool {
	r := map[int]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || !p.isRepoFn(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), T) {
						w := false
						for _, ref := range *x.Referrers() {
							if s, ok := ref.(*ssa.Store); ok && s.Addr == x {
								w = true
							} else if !write {
								r[x.Field] = true
							}
						}
						if w && write {
							r[x.Field] = true
						}
					}
				case *ssa.Field:
					if !write && types.Identical(x.X.Type(), T) {
						r[x.Field] = true
					}
				case *ssa.MakeClosure:
					visit(x.Fn.(*ssa.Function))
				case ssa.CallInstruction:
					visit(x.Common().StaticCallee())
				}
			}
		}
	}
	visit(f)
	return r
}

// piece of a text that is written to a builder
type piece struct {
	lit  string // literal text
	t    *Term  // or a rendered value
	verb string // d, x, s, sum
	loop *LoopRec
	sub  []piece
}

// pieces lists what the events write to the builder w.
func pieces(e *Engine, evs []*Event, w *Term) (r []piece, ok bool) {
	ok = true
	lit := func(s string) {
		if n := len(r); n > 0 && r[n-1].loop == nil && r[n-1].t == nil {
			r[n-1].lit += s
			return
		}
		r = append(r, piece{lit: s})
	}
	var text func(t *Term)
	text = func(t *Term) {
		if s, k := t.constStr(); k {
			lit(s)
			return
		}
		if t.op == "concat" {
			for _, a := range t.args {
				text(a)
			}
			return
		}
		if t.op == "str" || t.op == "bytes" {
			if t.args[0].typ != nil && isString(t.args[0].typ) || t.op == "str" {
				text(t.args[0])
				return
			}
		}
		if t.op == "pure" && (t.aux == "strconv.FormatUint" || t.aux == "strconv.FormatInt") {
			if t.args[1].isInt(16) {
				r = append(r, piece{t: t.args[0], verb: "x"})
				return
			}
			if t.args[1].isInt(10) {
				r = append(r, piece{t: t.args[0], verb: "d"})
				return
			}
		}
		if n := decimalOf(t); n != nil {
			r = append(r, piece{t: n, verb: "d"})
			return
		}
		if t.op == "pure" && t.aux == "fmt.Sprintf" && len(t.args) == 2 {
			if fm, k := t.args[0].constStr(); k && format(fm, t.args[1], lit, text, func(p piece) { r = append(r, p) }) {
				return
			}
		}
		r = append(r, piece{t: t, verb: "s"})
	}
	for _, ev := range evs {
		if ev.Kind == "loop" {
			rec := ev.Loop
			wr := false
			for _, it := range rec.Iters {
				sub, k := pieces(e, it, w)
				ok = ok && k
				if len(sub) > 0 {
					wr = true
					r = append(r, piece{loop: rec, sub: sub})
				}
			}
			if !wr {
				continue
			}
			continue
		}
		if ev.Kind != "call" {
			continue
		}
		at := -1
		for i, a := range ev.Args {
			if unIface(a) == w {
				at = i
			}
		}
		if at < 0 {
			continue
		}
		switch {
		case at == 0 && (strings.HasSuffix(ev.Callee, ").WriteString") || strings.HasSuffix(ev.Callee, ").Write")) && len(ev.Args) == 2:
			t := ev.Args[1]
			if t.op == "bytes" {
				t = t.args[0]
			}
			text(t)
		case at == 0 && (strings.HasSuffix(ev.Callee, ").WriteRune") || strings.HasSuffix(ev.Callee, ").WriteByte")) && len(ev.Args) == 2:
			if c, k := ev.Args[1].constInt(); k && c.IsInt64() {
				lit(string(rune(c.Int64())))
			} else {
				r = append(r, piece{t: ev.Args[1], verb: "c"})
			}
		case ev.Callee == "io.WriteString":
			text(ev.Args[1])
		case at == 0 && ev.Callee == "fmt.Fprintf" && len(ev.Args) == 3:
			l := ev.Args[2]
			if len(ev.Vals) == 3 {
				l = ev.Vals[2]
			}
			fm, k := ev.Args[1].constStr()
			if l.isNil() && !strings.Contains(fm, "%") {
				lit(fm)
				break
			}
			if !k || !format(fm, l, lit, text, func(p piece) { r = append(r, p) }) {
				ok = false
			}
		case at == 0 && (ev.Callee == "fmt.Fprint" || ev.Callee == "fmt.Fprintln") && len(ev.Args) == 2:
			l := ev.Args[1]
			if len(ev.Vals) == 2 {
				l = ev.Vals[1]
			}
			if l.op != "slicelit" && !l.isNil() {
				ok = false
				break
			}
			for i, a := range l.args {
				a = unIface(a)
				if a.typ == nil || !isString(a.typ) {
					ok = false
					break
				}
				if i > 0 && ev.Callee == "fmt.Fprintln" {
					lit(" ")
				}
				text(a)
			}
			if ev.Callee == "fmt.Fprintln" {
				lit("\n")
			}
		case at == 0 && (strings.HasSuffix(ev.Callee, ").String") || strings.HasSuffix(ev.Callee, ").Len") || strings.HasSuffix(ev.Callee, ").Grow") ||
			strings.Contains(ev.Callee, ").Sum") || strings.HasSuffix(ev.Callee, ").Bytes")):
		default:
			ok = false
		}
	}
	return r, ok
}

// format expands a format of %d, %x, %s, %v and literals.
func format(fm string, l *Term, lit func(string), text func(*Term), add func(piece)) bool {
	if l.op != "slicelit" {
		return false
	}
	i := 0
	for len(fm) > 0 {
		j := strings.IndexByte(fm, '%')
		if j < 0 {
			lit(fm)
			break
		}
		if j > 0 {
			lit(fm[:j])
		}
		if j+1 >= len(fm) {
			return false
		}
		v := fm[j+1]
		fm = fm[j+2:]
		if v == '%' {
			lit("%")
			continue
		}
		if i >= len(l.args) {
			return false
		}
		a := unIface(l.args[i])
		i++
		switch v {
		case 'd', 'x':
			if a.typ == nil || !isInteger(a.typ) {
				return false
			}
			add(piece{t: a, verb: string(v)})
		case 's', 'v':
			if a.typ != nil && isString(a.typ) {
				text(a)
			} else if a.typ != nil && isByteSlice(a.typ) && v == 's' {
				add(piece{t: a, verb: "s"})
			} else if a.typ != nil && isInteger(a.typ) {
				add(piece{t: a, verb: "d"})
			} else {
				return false
			}
		default:
			return false
		}
	}
	return i == len(l.args)
}

// wideOf strips conversions that keep the 64-bit pattern or extend a number.
func wideOf(t *Term) *Term {
	for t.op == "conv" && len(t.args) == 1 && isInteger(t.typ) && t.args[0].typ != nil && isInteger(t.args[0].typ) {
		lo, hi, _ := intRange(t.args[0].typ)
		dlo, dhi, _ := intRange(t.typ)
		if hi.BitLen()+b2i(lo.Sign() < 0) > dhi.BitLen()+b2i(dlo.Sign() < 0) {
			return t
		}
		t = t.args[0]
	}
	return t
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// loopOver: the loop of the record visits every element of src from the first to the last before it is left on the path; it returns the index term of the visited element.
func loopOver(e *Engine, st *State, rec *LoopRec, src *Term) *Term {
	for _, s := range rec.Slots {
		if s.Phi == nil || !isInteger(s.Sym.typ) || len(s.Backs) == 0 {
			continue
		}
		step := true
		for _, b := range s.Backs {
			step = step && b == e.ts.add(s.Sym, e.ts.intTerm(1), s.Sym.typ)
		}
		c0, ok := s.Entry.constInt()
		if !step || !ok {
			continue
		}
		// index of the visited element: 0 in the first iteration
		idx := e.ts.sub(s.Sym, e.ts.bigTerm(c0), s.Sym.typ)
		if v, k := e.evalBool(st, e.le0(linAdd(toLin(e.lenOf(src)), toLin(idx), -1))); k && v {
			return idx
		}
	}
	return nil
}

const qpType = "QueryParamsBuilder"

func (r *Report) builderMethods() (ms []*ssa.Function, T *types.Named) {
	T = r.p.Named("", qpType)
	if T == nil {
		r.missing(qpType)
		return
	}
	set := r.p.prog.MethodSets.MethodSet(types.NewPointer(T))
	for i := 0; i < set.Len(); i++ {
		if f := r.p.prog.MethodValue(set.At(i)); f != nil && f.Synthetic == "" {
			ms = append(ms, f)
		}
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i].Name() < ms[j].Name() })
	return
}

func runF01(r *Report) {
	r.rule("the name is remembered only as long as it is current: every method that changes a field the name depends on leaves no remembered name")
	r.rule("the text of the name contains the query name, all positions, the position and value of every enum, every flag, the kind of paging, and a digest of all null columns, each after a separator that is not part of a number")
	ms, T := r.builderMethods()
	if T == nil {
		return
	}
	st := T.Underlying().(*types.Struct)
	nm := r.p.Method("", qpType, "Name")
	if nm == nil {
		r.missing("Name")
		return
	}
	reads := r.p.fieldsOf(nm, T, false)
	memo := r.p.fieldsOf(nm, T, true)
	field := func(name string) int {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return i
			}
		}
		return -1
	}
	_ = field
	// memo discipline
	n := 0
	for _, f := range r.p.funcs {
		if f == nm || f.Parent() != nil || f.Signature.Recv() == nil || len(f.Params) == 0 {
			continue
		}
		pt, ok := f.Params[0].Type().Underlying().(*types.Pointer)
		if !ok || !types.Identical(pt.Elem(), T) {
			continue
		}
		w := r.p.fieldsOf(f, T, true)
		dep := false
		for i := range w {
			if reads[i] && !memo[i] {
				dep = true
			}
		}
		if !dep {
			continue
		}
		if !f.Object().Exported() {
			continue // decided in the callers
		}
		n++
		key := "stale:" + f.Name()
		rr := r.run(f, nil)
		for _, x := range rr.returns() {
			changed := ""
			for i := 0; i < st.NumFields(); i++ {
				if !reads[i] || memo[i] {
					continue
				}
				a := rr.e.fieldAddr(rr.args[0], T, i)
				if rr.e.load(x.St, a, st.Field(i).Type()) != rr.e.load(newState(), a, st.Field(i).Type()) {
					changed = st.Field(i).Name()
				}
			}
			if changed == "" {
				continue
			}
			for i := range memo {
				a := rr.e.fieldAddr(rr.args[0], T, i)
				z, k := rr.e.isZeroTerm(x.St, rr.e.load(x.St, a, st.Field(i).Type()), st.Field(i).Type())
				r.check(k && z, key, x.Pos, "%s changes %s and keeps the name that is remembered", f.Name(), changed)
			}
		}
	}
	// the text
	key := "text:Name"
	rr := r.run(nm, nil)
	e := rr.e
	get := func(i int) *Term { return e.load(newState(), e.fieldAddr(rr.args[0], T, i), st.Field(i).Type()) }
	sigs := map[string]string{}
	fresh := 0
	// asking for the name changes nothing else
	for _, x := range rr.exits {
		for _, ev := range x.St.events() {
			switch {
			case ev.Kind == "store" && !isFresh(root(ev.Args[0])):
				own := false
				for i := range memo {
					own = own || ev.Args[0] == rr.e.fieldAddr(rr.args[0], T, i)
				}
				r.check(own, "effect:Name", ev.Instr.Pos(), "asking for the name changes %s", ev.Args[0])
			case ev.Kind == "call" && len(ev.Args) > 0 && (strings.HasPrefix(ev.Callee, "sort.") || strings.HasPrefix(ev.Callee, "slices.Sort") || strings.HasPrefix(ev.Callee, "slices.Reverse")):
				a := unIface(ev.Args[0])
				own := isFresh(root(a)) || a.op == "append" && lenZero(e, x.St, a.args[0]) || a.op == "call"
				r.check(own, "effect:Name", ev.Instr.Pos(), "asking for the name reorders %s", a)
			}
		}
	}
	classes := map[string]bool{}
	for _, x := range rr.returns() {
		// a remembered name
		isMemo := false
		for i := range memo {
			if x.Results[0] == get(i) {
				isMemo = true
				z, k := e.isZeroTerm(x.St, get(i), st.Field(i).Type())
				r.check(k && !z, key, x.Pos, "Name returns a name that was not computed")
			}
		}
		if isMemo {
			continue
		}
		fresh++
		for i := range memo {
			v := e.load(x.St, e.fieldAddr(rr.args[0], T, i), st.Field(i).Type())
			z, k := e.isZeroTerm(x.St, v, st.Field(i).Type())
			r.check(v == x.Results[0] || k && z, key, x.Pos, "Name remembers another name than it returns")
		}
		ps, ok := textOfResult(e, x.St, x.Results[0])
		if !r.check(ok, key, x.Pos, "the text of the name is not decided") {
			continue
		}
		sig := ""
		digest := (*Term)(nil)
		loops := map[int]bool{}
		plain := map[int]bool{}
		var check func(ps []piece, in *LoopRec) string
		check = func(ps []piece, in *LoopRec) string {
			s := ""
			for i, p := range ps {
				switch {
				case p.loop != nil:
					s += "{" + check(p.sub, p.loop) + "}"
				case p.t == nil:
					s += p.lit
				default:
					s += "%" + p.verb
					// the separator before a number
					if i == 0 || ps[i-1].t != nil || ps[i-1].loop != nil || strings.Trim(ps[i-1].lit, "0123456789abcdef-") == "" {
						if !(i == 0 && in == nil) {
							r.check(false, "separator:Name", x.Pos, "%s follows another part of the name without a separator", p.t)
						}
					}
				}
			}
			return s
		}
		sig = check(ps, nil)
		for _, p := range ps {
			if p.loop == nil && p.t != nil {
				for i := 0; i < st.NumFields(); i++ {
					if wideOf(p.t) == get(i) {
						plain[i] = true
					}
				}
				if p.t.any(func(t *Term) bool { return t.op == "call" }) {
					digest = p.t
				}
			}
			if p.loop != nil {
				for i := 0; i < st.NumFields(); i++ {
					sl, isSl := st.Field(i).Type().Underlying().(*types.Slice)
					if !isSl {
						continue
					}
					src := get(i)
					idx := loopOver(e, x.St, p.loop, src)
					if idx == nil {
						continue
					}
					el := e.ts.mk("index", "", types.NewPointer(sl.Elem()), src, idx)
					parts := map[string]bool{}
					for _, q := range p.sub {
						if q.t == nil {
							continue
						}
						v := wideOf(q.t)
						if v.op == "ld" && (v.args[0] == el || v.args[0].op == "field" && v.args[0].args[0] == el) {
							parts[v.args[0].aux] = true
						}
					}
					want := 1
					if es, ok := sl.Elem().Underlying().(*types.Struct); ok {
						want = es.NumFields()
					}
					if len(parts) >= want {
						loops[i] = true
					}
				}
			}
		}
		// classes of the path
		cls := ""
		for i := 0; i < st.NumFields(); i++ {
			if !reads[i] || memo[i] {
				continue
			}
			ft := st.Field(i).Type()
			switch u := ft.Underlying().(type) {
			case *types.Basic:
				if plain[i] {
					continue
				}
				z, k := e.isZeroTerm(x.St, get(i), ft)
				if k {
					cls += fmt.Sprintf(" %s=%v", st.Field(i).Name(), !z)
				}
				_ = u
			case *types.Interface:
				nl, k := e.nilness(x.St, get(i))
				if r.check(k, key, x.Pos, "the name does not depend on %s", st.Field(i).Name()) {
					cls += fmt.Sprintf(" %s=%v", st.Field(i).Name(), !nl)
				}
			case *types.Slice:
				if loops[i] {
					continue
				}
				empty, k := e.evalBool(x.St, e.eqTerm(e.lenOf(get(i)), e.ts.intTerm(0), basic(types.Int)))
				if k && empty {
					cls += fmt.Sprintf(" %s=false", st.Field(i).Name())
					continue
				}
				cls += fmt.Sprintf(" %s=true", st.Field(i).Name())
				// a digest of all elements
				src, how := digestOf(e, x.St, digest, get(i))
				if !r.check(src, key, x.Pos, "the name does not cover all of %s", st.Field(i).Name()) {
					continue
				}
				r.check(how, "delimiter:"+st.Field(i).Name(), x.Pos, "the elements of %s are digested without a separator", st.Field(i).Name())
			}
		}
		classes[cls] = true
		if o, dup := sigs[sig]; dup {
			r.check(o == cls, "distinct:Name", x.Pos, "the name %q does not distinguish (%s) from (%s)", sig, o, cls)
		} else {
			sigs[sig] = cls
		}
		// every field that the class does not cover is part of the text
		for i := 0; i < st.NumFields(); i++ {
			if reads[i] && !memo[i] && !plain[i] && !loops[i] && !strings.Contains(cls, " "+st.Field(i).Name()+"=") {
				if isBasicField(st.Field(i).Type()) && isOffsetLike(cls) {
					continue
				}
				r.check(false, key, x.Pos, "the name does not contain %s", st.Field(i).Name())
			}
		}
	}
	r.check(fresh > 0, key, nm.Pos(), "no name is computed")
	// the fields that the name must depend on: those of the accessors that select the text of a query
	for _, acc := range []string{"IsSet", "GetEnum", "GetFlags", "GetNullColumns"} {
		f := r.p.Method("", qpType, acc)
		if f == nil {
			r.missing(acc)
			continue
		}
		for i := range r.p.fieldsOf(f, T, false) {
			r.check(reads[i], "covers:"+acc, nm.Pos(), "the name does not depend on what %s returns", acc)
		}
	}
	if f := r.p.Method("", qpType, "Cursor"); f != nil {
		for i := range r.p.fieldsOf(f, T, false) {
			if _, ok := st.Field(i).Type().Underlying().(*types.Interface); ok {
				r.check(reads[i], "covers:Cursor", nm.Pos(), "the name does not depend on the presence of a cursor")
			}
		}
	}
	hasQuery := false
	if f := r.p.Func("", "NewQueryParams"); f != nil {
		for i := range r.p.fieldsOf(f, T, true) {
			if isString(st.Field(i).Type()) && reads[i] && !memo[i] {
				hasQuery = true
			}
		}
	}
	r.check(hasQuery, "covers:NewQueryParams", nm.Pos(), "the name does not depend on the query name")
	r.atLeast(n, 5, "methods that change a named parameter")
	r.atLeast(len(classes), 4, "kinds of names")
	_ = ms
}

func isBasicField(t types.Type) bool { _, ok := t.Underlying().(*types.Basic); return ok }

// with a cursor, the offset does not select the text of the query
func isOffsetLike(cls string) bool { return strings.Contains(cls, "cursor=true") }

// textOfResult: the pieces of the text that is the String() of a local builder, or a concatenation.
func textOfResult(e *Engine, st *State, t *Term) ([]piece, bool) {
	for _, ev := range st.events() {
		if ev.Kind == "call" && ev.Result == t && strings.HasSuffix(ev.Callee, ").String") && len(ev.Args) == 1 && isFresh(ev.Args[0]) {
			var evs []*Event
			for _, o := range st.events() {
				if o == ev {
					break
				}
				evs = append(evs, o)
			}
			return pieces(e, evs, ev.Args[0])
		}
	}
	return nil, false
}

// digestOf: the value is a hash into which all elements of src are written; separated if each write has a separator or a length.
func digestOf(e *Engine, st *State, v, src *Term) (all, separated bool) {
	if v == nil {
		return
	}
	evs := st.events()
	made := func(t *Term) *Event {
		for _, ev := range evs {
			if ev.Kind == "call" && ev.Result != nil && len(ev.Args) > 0 && (ev.Result == t || ev.Result == wideOf(t)) {
				return ev
			}
		}
		return nil
	}
	sum := made(v)
	for sum != nil && strings.HasPrefix(sum.Callee, "encoding/") {
		sum = made(sum.Args[len(sum.Args)-1])
	}
	if sum == nil {
		return // only a part of a digest, or none
	}
	{
		h := sum.Args[0]
		for _, l := range evs {
			if l.Kind != "loop" {
				continue
			}
			// the list, or a copy of it
			lists := []*Term{src}
			for _, a := range evs {
				if a.Kind == "call" && a.Result != nil && strings.HasPrefix(a.Callee, "slices.") && len(a.Args) > 0 && unIface(a.Args[0]) == src {
					if n, _, _ := strings.Cut(a.Callee, "["); n == "slices.Clone" || n == "slices.Sorted" {
						lists = append(lists, a.Result)
					}
				}
				if a.Kind == "append" && a.Result != nil && a.Result.op == "append" && a.Result.aux == "..." && a.Result.args[1] == src {
					if n, k := e.evalBool(st, e.eqTerm(e.lenOf(a.Result.args[0]), e.ts.intTerm(0), basic(types.Int))); k && n {
						lists = append(lists, a.Result)
					}
				}
			}
			for _, list := range lists {
				idx := loopOver(e, st, l.Loop, list)
				if idx == nil {
					continue
				}
				good := len(l.Loop.Iters) > 0
				seps := true
				for _, it := range l.Loop.Iters {
					ps, ok := pieces(e, it, h)
					if !ok {
						good = false
					}
					n, sep := 0, false
					for _, p := range ps {
						if p.t != nil && p.t.any(func(t *Term) bool { return t.op == "index" && t.args[0] == list && t.args[1] == idx }) {
							n++
						}
						if p.t == nil && p.lit != "" || p.t != nil && p.t.op == "len" {
							sep = true
						}
					}
					good = good && n > 0
					seps = seps && sep
				}
				// the set of the elements, in an order of its own
				sorted := false
				for _, o := range evs {
					if o == l {
						break
					}
					if o.Kind == "call" && len(o.Args) > 0 && unIface(o.Args[0]) == list && (strings.HasPrefix(o.Callee, "sort.") || strings.HasPrefix(o.Callee, "slices.Sort")) {
						sorted = true
					}
				}
				if good && sorted {
					return true, seps
				}
			}
		}
	}
	return
}
