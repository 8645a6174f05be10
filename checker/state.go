package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// interval of an integer term; nil is unbounded.
type interval struct{ lo, hi *big.Int }

func (a interval) meet(b interval) interval {
	if b.lo != nil && (a.lo == nil || b.lo.Cmp(a.lo) > 0) {
		a.lo = b.lo
	}
	if b.hi != nil && (a.hi == nil || b.hi.Cmp(a.hi) < 0) {
		a.hi = b.hi
	}
	return a
}

func (a interval) empty() bool { return a.lo != nil && a.hi != nil && a.lo.Cmp(a.hi) > 0 }

type kill struct {
	kind string // all, objs, addr, many
	id   string
	objs map[*Term]bool
	addr *Term
	many []*kill
}

// Event is an observable effect on a path.
type Event struct {
	Kind   string // call, store, go, defer, send, loop, panic, mapupdate, rundefer
	Instr  ssa.Instruction
	Ctx    string
	Callee string // qualified name of the callee
	Fn     *ssa.Function
	Args   []*Term // snapshot of the arguments (receiver first)
	Vals   []*Term // for call: slice literal contents etc, same index as Args
	Result *Term
	Loop   *LoopRec
	Dyn    *Term // the called function value, if it is not a known function
	Defer  bool
}

type logNode struct {
	prev *logNode
	ev   *Event
	n    int
}

// State is one disjunct of the abstract state.
type State struct {
	env    map[ssa.Value]*Term
	mem    map[*Term]*Term
	kills  []*kill
	born   map[*Term]int // alloc -> len(kills) at birth
	esc    map[*Term]bool
	b      map[*Term]bool
	iv     map[*Term]interval
	eqc    map[*Term]*Term
	dyn    map[*Term]types.Type
	ghost  map[string]string
	log    *logNode
	defers []*deferred
	steps  int
}

type deferred struct {
	instr  *ssa.Defer
	callee *Term // for dynamic
	args   []*Term
}

func newState() *State {
	return &State{
		env: map[ssa.Value]*Term{}, mem: map[*Term]*Term{}, born: map[*Term]int{}, esc: map[*Term]bool{},
		b: map[*Term]bool{}, iv: map[*Term]interval{}, eqc: map[*Term]*Term{}, dyn: map[*Term]types.Type{},
		ghost: map[string]string{},
	}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+4)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (st *State) clone() *State {
	return &State{
		env: cp(st.env), mem: cp(st.mem), kills: st.kills[:len(st.kills):len(st.kills)], born: cp(st.born), esc: cp(st.esc),
		b: cp(st.b), iv: cp(st.iv), eqc: cp(st.eqc), dyn: cp(st.dyn), ghost: cp(st.ghost), log: st.log,
		defers: st.defers[:len(st.defers):len(st.defers)],
	}
}

func (st *State) event(ev *Event) {
	n := 0
	if st.log != nil {
		n = st.log.n
	}
	st.log = &logNode{st.log, ev, n + 1}
}

// events returns the log in order.
func (st *State) events() []*Event { return logSince(st.log, nil) }

func logSince(l, base *logNode) []*Event {
	var r []*Event
	for ; l != nil && l != base; l = l.prev {
		r = append(r, l.ev)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (st *State) ghostKey() string {
	var ks []string
	for k, v := range st.ghost {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// ---- facts

func (e *Engine) typeBounds(t *Term) interval {
	var r interval
	switch t.op {
	case "len", "cap", "maplen", "ld":
		if t.op == "ld" && (len(t.args) == 0 || t.args[0].op != "maplen") {
			break
		}
		r.lo = big.NewInt(0)
		r.hi, _ = new(big.Int).SetString("9223372036854775807", 10)
		if e.MaxLen != nil && t.op != "cap" {
			r.hi = e.MaxLen
		}
		return r
	case "extract":
		if c := t.args[0]; t.aux == "0" && c.op == "pure" && len(c.args) == 3 {
			bits, ok := c.args[2].constInt()
			if ok && bits.IsInt64() && bits.Int64() > 0 && bits.Int64() <= 64 {
				one := big.NewInt(1)
				switch c.aux {
				case "strconv.ParseInt":
					h := new(big.Int).Lsh(one, uint(bits.Int64()-1))
					r = r.meet(interval{new(big.Int).Neg(h), new(big.Int).Sub(h, one)})
				case "strconv.ParseUint":
					h := new(big.Int).Lsh(one, uint(bits.Int64()))
					r = r.meet(interval{big.NewInt(0), new(big.Int).Sub(h, one)})
				}
			}
		}
	case "and":
		for _, a := range t.args {
			if c, ok := a.constInt(); ok && c.Sign() >= 0 {
				r = r.meet(interval{big.NewInt(0), c})
			}
		}
	case "rem":
		if c, ok := t.args[1].constInt(); ok && c.Sign() > 0 {
			m := new(big.Int).Sub(c, big.NewInt(1))
			r = r.meet(interval{new(big.Int).Neg(m), m})
			if lo, _, ok := intRange(t.typ); ok && lo.Sign() == 0 {
				r = r.meet(interval{big.NewInt(0), m})
			}
		}
	}
	if lo, hi, ok := intRange(t.typ); ok {
		r = r.meet(interval{lo, hi})
	}
	return r
}

func (e *Engine) bounds(st *State, t *Term) interval { return e.linBounds(st, toLin(t), 1) }

func (e *Engine) atomSum(st *State, l lin) interval {
	lo, hi := new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	for i, a := range l.atoms {
		iv := e.typeBounds(a).meet(st.iv[a])
		al, ah := iv.lo, iv.hi
		k := l.coef[i]
		if k.Sign() < 0 {
			al, ah = ah, al
		}
		if lo != nil {
			if al == nil {
				lo = nil
			} else {
				lo = new(big.Int).Add(lo, new(big.Int).Mul(al, k))
			}
		}
		if hi != nil {
			if ah == nil {
				hi = nil
			} else {
				hi = new(big.Int).Add(hi, new(big.Int).Mul(ah, k))
			}
		}
	}
	return interval{lo, hi}
}

func shift(iv interval, sign int, c *big.Int) interval {
	// value = sign*v + c
	lo, hi := iv.lo, iv.hi
	if sign < 0 {
		var nl, nh *big.Int
		if hi != nil {
			nl = new(big.Int).Neg(hi)
		}
		if lo != nil {
			nh = new(big.Int).Neg(lo)
		}
		lo, hi = nl, nh
	}
	if lo != nil {
		lo = new(big.Int).Add(lo, c)
	}
	if hi != nil {
		hi = new(big.Int).Add(hi, c)
	}
	return interval{lo, hi}
}

func (e *Engine) linBounds(st *State, l lin, depth int) interval {
	if len(l.atoms) == 0 {
		return interval{l.c, l.c}
	}
	r := e.atomSum(st, l)
	v, sign, c := e.ts.varPart(l)
	if iv, ok := st.iv[v]; ok {
		r = r.meet(shift(iv, sign, c))
	}
	if depth > 0 {
		for f, iv := range st.iv {
			fl := toLin(f)
			share := false
			for _, a := range fl.atoms {
				for _, b := range l.atoms {
					if a == b {
						share = true
					}
				}
			}
			if !share || f == v {
				continue
			}
			for _, k := range []int64{1, -1} {
				rest := linAdd(l, fl, -k)
				if len(rest.atoms) >= len(l.atoms)+len(fl.atoms) {
					continue
				}
				rb := e.linBounds(st, rest, depth-1)
				fb := shift(iv, int(k), big.NewInt(0))
				var s interval
				if rb.lo != nil && fb.lo != nil {
					s.lo = new(big.Int).Add(rb.lo, fb.lo)
				}
				if rb.hi != nil && fb.hi != nil {
					s.hi = new(big.Int).Add(rb.hi, fb.hi)
				}
				r = r.meet(s)
			}
		}
	}
	return r
}

// nilness of a value: known reports if it is decided.
func (e *Engine) nilness(st *State, t *Term) (isnil, known bool) {
	switch t.op {
	case "nil":
		return true, true
	case "alloc", "make", "closure", "func", "iface", "field", "global", "newerr", "fresh", "const", "slicelit", "struct", "zerostruct":
		return false, true
	case "index":
		return false, true
	case "wrap":
		return e.nilness(st, t.args[0])
	case "slice":
		b := t.args[0]
		if b.typ != nil {
			if _, ok := b.typ.Underlying().(*types.Pointer); ok {
				return false, true
			}
		}
		if n, k := e.nilness(st, b); k {
			return n, true
		}
	case "append":
		if len(t.args) > 1 && t.aux != "..." {
			return false, true
		}
	case "bytes":
		return false, true
	}
	if v, ok := st.b[e.ts.mk("isnil", "", types.Typ[types.Bool], t)]; ok {
		return v, true
	}
	if _, ok := st.dyn[t]; ok {
		return false, true
	}
	if t.typ != nil {
		switch t.typ.Underlying().(type) {
		case *types.Slice:
			iv := e.bounds(st, e.lenOf(t))
			if iv.lo != nil && iv.lo.Sign() > 0 {
				return false, true
			}
		}
	}
	return false, false
}

func (e *Engine) lenOf(t *Term) *Term {
	ts := e.ts
	switch t.op {
	case "nil":
		return ts.intTerm(0)
	case "const":
		if s, ok := t.constStr(); ok {
			return ts.intTerm(int64(len(s)))
		}
	case "concat":
		r := ts.intTerm(0)
		for _, a := range t.args {
			r = ts.add(r, e.lenOf(a), types.Typ[types.Int])
		}
		return r
	case "slicelit":
		return ts.intTerm(int64(len(t.args)))
	case "append":
		if t.aux == "..." {
			return ts.add(e.lenOf(t.args[0]), e.lenOf(t.args[1]), types.Typ[types.Int])
		}
		return ts.add(e.lenOf(t.args[0]), ts.intTerm(int64(len(t.args)-1)), types.Typ[types.Int])
	case "slice":
		lo, hi := t.args[1], t.args[2]
		if lo.op == "nil" {
			lo = ts.intTerm(0)
		}
		if hi.op == "nil" {
			hi = e.lenOf(t.args[0])
		}
		return ts.sub(hi, lo, types.Typ[types.Int])
	case "make":
		if len(t.args) > 0 {
			return t.args[0]
		}
	case "str", "bytes":
		return e.lenOf(t.args[0])
	}
	if t.typ != nil {
		u := t.typ.Underlying()
		if p, ok := u.(*types.Pointer); ok {
			u = p.Elem().Underlying()
		}
		if a, ok := u.(*types.Array); ok {
			return ts.intTerm(a.Len())
		}
	}
	return ts.mk("len", "", types.Typ[types.Int], t)
}

// ---- boolean terms

func (e *Engine) not(t *Term) *Term {
	if b, ok := t.constBool(); ok {
		return e.ts.boolTerm(!b)
	}
	if t.op == "not" {
		return t.args[0]
	}
	return e.ts.mk("not", "", types.Typ[types.Bool], t)
}

func (e *Engine) isNilTerm(t *Term) *Term {
	if t.op == "wrap" {
		return e.isNilTerm(t.args[0])
	}
	return e.ts.mk("isnil", "", types.Typ[types.Bool], t)
}

func (e *Engine) le0(l lin) *Term { // l <= 0
	if len(l.atoms) == 0 {
		return e.ts.boolTerm(l.c.Sign() <= 0)
	}
	// canonical: positive variable part; v + c <= 0, or -v + c <= 0  == not (v - c + 1 <= 0) == v >= c
	v, sign, c := e.ts.varPart(l)
	if sign > 0 {
		return e.ts.mk("le", new(big.Int).Neg(c).String(), types.Typ[types.Bool], v) // v <= -c
	}
	// v >= c  == not (v <= c-1)
	return e.not(e.ts.mk("le", new(big.Int).Sub(c, big.NewInt(1)).String(), types.Typ[types.Bool], v))
}

func (e *Engine) eqTerm(a, b *Term, typ types.Type) *Term {
	ts := e.ts
	if a == b && !isFloat(typ) {
		return ts.boolTerm(true)
	}
	if a.op == "nil" || b.op == "nil" {
		if a.op == "nil" {
			a, b = b, a
		}
		if a.op == "nil" {
			return ts.boolTerm(true)
		}
		return e.isNilTerm(a)
	}
	if isInteger(typ) {
		l := linAdd(toLin(a), toLin(b), -1)
		if len(l.atoms) == 0 {
			return ts.boolTerm(l.c.Sign() == 0)
		}
		v, sign, c := ts.varPart(l)
		// sign*v + c = 0  => v = -c*sign
		k := new(big.Int).Mul(new(big.Int).Neg(c), big.NewInt(int64(sign)))
		return ts.mk("eqi", k.String(), types.Typ[types.Bool], v)
	}
	if a.isConst() && b.isConst() {
		if a.cval.Kind() == b.cval.Kind() {
			return ts.boolTerm(constant.Compare(a.cval, tokEQL, b.cval))
		}
	}
	if isBoolean(typ) {
		if v, ok := a.constBool(); ok {
			if v {
				return b
			}
			return e.not(b)
		}
		if v, ok := b.constBool(); ok {
			if v {
				return a
			}
			return e.not(a)
		}
	}
	if isString(typ) {
		for i := 0; i < 2; i++ {
			if s, ok := b.constStr(); ok && s == "" {
				l := e.lenOf(a)
				return e.eqTerm(l, ts.intTerm(0), types.Typ[types.Int])
			}
			a, b = b, a
		}
	}
	if a.op == "iface" && b.op == "iface" {
		if !types.Identical(a.T, b.T) {
			return ts.boolTerm(false)
		}
		return e.eqTerm(a.args[0], b.args[0], a.T)
	}
	if e.distinctPtr(a, b) {
		return ts.boolTerm(false)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk("eq", "", types.Typ[types.Bool], a, b)
}

func (e *Engine) distinctPtr(a, b *Term) bool {
	f := func(t *Term) bool { return t.op == "alloc" || t.op == "make" || t.op == "global" || t.op == "newerr" }
	return f(a) && f(b) && a != b
}

func bigOf(s string) *big.Int { b, _ := new(big.Int).SetString(s, 10); return b }

// evalBool decides a boolean term under the facts of st.
func (e *Engine) evalBool(st *State, t *Term) (val, known bool) {
	switch t.op {
	case "const":
		return t.constBool()
	case "not":
		v, k := e.evalBool(st, t.args[0])
		return !v, k
	case "isnil":
		return e.nilness(st, t.args[0])
	case "le":
		iv := e.bounds(st, t.args[0])
		k := bigOf(t.aux)
		if iv.hi != nil && iv.hi.Cmp(k) <= 0 {
			return true, true
		}
		if iv.lo != nil && iv.lo.Cmp(k) > 0 {
			return false, true
		}
		return false, false
	case "eqi":
		if v, ok := st.b[t]; ok {
			return v, true
		}
		iv := e.bounds(st, t.args[0])
		k := bigOf(t.aux)
		if iv.lo != nil && iv.lo.Cmp(k) > 0 || iv.hi != nil && iv.hi.Cmp(k) < 0 {
			return false, true
		}
		if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(k) == 0 && iv.hi.Cmp(k) == 0 {
			return true, true
		}
		return false, false
	case "eq":
		if v, ok := st.b[t]; ok {
			return v, true
		}
		a, b := t.args[0], t.args[1]
		ca, cb := a, b
		if c := st.eqc[a]; c != nil {
			ca = c
		}
		if c := st.eqc[b]; c != nil {
			cb = c
		}
		if ca.isConst() && cb.isConst() && ca.cval.Kind() == cb.cval.Kind() {
			return constant.Compare(ca.cval, tokEQL, cb.cval), true
		}
		for i := 0; i < 2; i++ {
			// string lengths
			if s, ok := cb.constStr(); ok {
				iv := e.bounds(st, e.lenOf(ca))
				n := big.NewInt(int64(len(s)))
				if iv.lo != nil && iv.lo.Cmp(n) > 0 || iv.hi != nil && iv.hi.Cmp(n) < 0 {
					return false, true
				}
			}
			if n, k := e.nilness(st, ca); k && n {
				if n2, k2 := e.nilness(st, cb); k2 {
					return n2, true
				}
			}
			ca, cb = cb, ca
		}
		return false, false
	case "is":
		x := t.args[0]
		if x.op == "iface" {
			return e.isType(x.T, t.T), true
		}
		if x.op == "newerr" {
			if !types.IsInterface(t.T) {
				return false, true
			}
			if types.Identical(t.T.Underlying(), errorType.Underlying()) {
				return true, true
			}
		}
		if D := st.dyn[x]; D != nil {
			return e.isType(D, t.T), true
		}
		if v, ok := st.b[t]; ok {
			return v, true
		}
		if n, k := e.nilness(st, x); k && n {
			return false, true
		}
		if x.typ != nil && types.IsInterface(t.T) && types.IsInterface(x.typ) {
			if it, ok := t.T.Underlying().(*types.Interface); ok && types.Implements(x.typ, it) {
				if n, k := e.nilness(st, x); k && !n {
					return true, true
				}
			}
		}
		return false, false
	case "errorsIs":
		if v, ok := st.b[t]; ok {
			return v, true
		}
		err, target := t.args[0], t.args[1]
		if n, k := e.nilness(st, err); k && n {
			return false, true
		}
		for x := err; ; {
			if x == target {
				return true, true
			}
			if v, ok := st.b[e.eqTerm(x, target, errorType)]; ok && v {
				return true, true
			}
			if x.op == "wrap" {
				x = x.args[0]
				if v, ok := st.b[e.ts.mk("errorsIs", "", t.typ, x, target)]; ok {
					return v, true
				}
				continue
			}
			break
		}
		return false, false
	case "and2":
		return false, false
	}
	v, ok := st.b[t]
	return v, ok
}

var errorType = types.Universe.Lookup("error").Type()

func (e *Engine) isType(D, T types.Type) bool {
	if it, ok := T.Underlying().(*types.Interface); ok {
		return types.Implements(D, it)
	}
	return types.Identical(D, T)
}

// assume adds t == val to the facts; it reports if that is feasible.
func (e *Engine) assume(st *State, t *Term, val bool) bool {
	if v, k := e.evalBool(st, t); k {
		if v != val {
			return false
		}
		if t.op != "eq" && t.op != "errorsIs" {
			return true
		}
	}
	switch t.op {
	case "const":
		return true
	case "not":
		return e.assume(st, t.args[0], !val)
	case "le":
		v := t.args[0]
		k := bigOf(t.aux)
		var iv interval
		if val {
			iv.hi = k
		} else {
			iv.lo = new(big.Int).Add(k, big.NewInt(1))
		}
		return e.addIv(st, v, iv)
	case "eqi":
		v := t.args[0]
		k := bigOf(t.aux)
		st.b[t] = val
		if val {
			return e.addIv(st, v, interval{k, k})
		}
		iv := e.bounds(st, v)
		if iv.lo != nil && iv.lo.Cmp(k) == 0 {
			return e.addIv(st, v, interval{lo: new(big.Int).Add(k, big.NewInt(1))})
		}
		if iv.hi != nil && iv.hi.Cmp(k) == 0 {
			return e.addIv(st, v, interval{hi: new(big.Int).Sub(k, big.NewInt(1))})
		}
		return true
	case "isnil":
		x := t.args[0]
		st.b[t] = val
		if val && x.typ != nil {
			switch x.typ.Underlying().(type) {
			case *types.Slice:
				return e.assume(st, e.eqTerm(e.lenOf(x), e.ts.intTerm(0), types.Typ[types.Int]), true)
			}
		}
		if x.op == "ifacecopy" {
			return true
		}
		return true
	case "eq":
		st.b[t] = val
		a, b := t.args[0], t.args[1]
		if val {
			for i := 0; i < 2; i++ {
				if b.isConst() && !a.isConst() {
					if c := st.eqc[a]; c != nil && c != b {
						return false
					}
					st.eqc[a] = b
					if s, ok := b.constStr(); ok {
						e.assume(st, e.eqTerm(e.lenOf(a), e.ts.intTerm(int64(len(s))), types.Typ[types.Int]), true)
					}
				}
				if n, k := e.nilness(st, b); k {
					if !e.assume(st, e.isNilTerm(a), n) {
						return false
					}
				}
				a, b = b, a
			}
		}
		return true
	case "is":
		st.b[t] = val
		if val {
			x := t.args[0]
			if !e.assume(st, e.isNilTerm(x), false) {
				return false
			}
			if !types.IsInterface(t.T) {
				st.dyn[x] = t.T
			}
		}
		return true
	case "errorsIs":
		st.b[t] = val
		if val {
			return e.assume(st, e.isNilTerm(t.args[0]), false)
		}
		return true
	case "errorsAs":
		st.b[t] = val
		if val {
			return e.assume(st, e.isNilTerm(t.args[0]), false)
		}
		return true
	}
	st.b[t] = val
	return true
}

func (e *Engine) addIv(st *State, v *Term, iv interval) bool {
	cur := e.bounds(st, v).meet(iv)
	if cur.empty() {
		return false
	}
	st.iv[v] = st.iv[v].meet(iv)
	for _, a := range toLin(v).atoms {
		if (a.op == "and" || a.op == "rem") && len(a.args) == 2 && !e.modFacts(st, a) {
			return false
		}
	}
	return true
}

// modulus of x & (2^k-1) and x % c
func modulus(t *Term) (x *Term, m *big.Int) {
	if t.op == "and" {
		for i, a := range t.args {
			if c, ok := a.constInt(); ok && c.Sign() > 0 {
				n := new(big.Int).Add(c, big.NewInt(1))
				if new(big.Int).And(n, c).Sign() == 0 {
					return t.args[1-i], n
				}
			}
		}
	} else if t.op == "rem" {
		if c, ok := t.args[1].constInt(); ok && c.Sign() > 0 {
			return t.args[0], c
		}
	}
	return nil, nil
}

// modFacts relates x mod m to x when x is at most m.
func (e *Engine) modFacts(st *State, t *Term) bool {
	x, m := modulus(t)
	if x == nil {
		return true
	}
	bx := e.bounds(st, x)
	if bx.lo == nil || bx.hi == nil || bx.lo.Sign() < 0 || bx.hi.Cmp(m) > 0 {
		return true
	}
	bt := e.bounds(st, t)
	same := bx.hi.Cmp(m) < 0 || bt.lo != nil && bt.lo.Sign() > 0
	if !same {
		if bt.hi != nil && bt.hi.Sign() == 0 && bx.lo.Sign() > 0 {
			return e.assume(st, e.eqTerm(x, e.ts.bigTerm(m), types.Typ[types.Int]), true)
		}
		return true
	}
	eq := e.eqTerm(t, x, types.Typ[types.Int])
	if v, k := e.evalBool(st, eq); k {
		return v
	}
	return e.assume(st, eq, true)
}

// ---- memory

func root(t *Term) *Term {
	for {
		switch t.op {
		case "field", "index", "mapel", "mapok", "maplen", "slice", "chgptr":
			t = t.args[0]
			continue
		}
		return t
	}
}

func isFresh(t *Term) bool { return t.op == "alloc" || t.op == "make" }

// isInitial reports if the value existed when the analysed function was entered.
func isInitial(t *Term) bool {
	switch t.op {
	case "param", "global", "gval", "freevar", "const", "nil":
		return true
	case "ld":
		return t.aux == "" && isInitial(root(t.args[0]))
	case "unbox":
		return isInitial(t.args[0])
	}
	return false
}

func (e *Engine) distinctRoots(st *State, a, b *Term) bool {
	if a == b {
		return false
	}
	fa, fb := isFresh(a) || a.op == "global", isFresh(b) || b.op == "global"
	if fa && fb {
		return true
	}
	for i := 0; i < 2; i++ {
		if isFresh(a) {
			if !st.esc[a] {
				return true
			}
			if isInitial(b) {
				return true
			}
		}
		a, b = b, a
	}
	return false
}

func ptrElem(t *Term) types.Type {
	if t.typ == nil {
		return nil
	}
	if p, ok := t.typ.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (e *Engine) distinctIdx(st *State, a, b *Term) bool {
	if a == b {
		return false
	}
	if isInteger(a.typ) || isInteger(b.typ) || a.op == "lin" || b.op == "lin" {
		v, k := e.evalBool(st, e.eqTerm(a, b, types.Typ[types.Int]))
		return k && !v
	}
	v, k := e.evalBool(st, e.eqTerm(a, b, a.typ))
	return k && !v
}

// mayAlias reports if the locations can overlap.
func (e *Engine) mayAlias(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if e.distinctRoots(st, root(a), root(b)) {
		return false
	}
	cat := func(t *Term) string {
		switch t.op {
		case "field", "index", "mapel", "mapok", "maplen":
			return t.op
		}
		return "plain"
	}
	ca, cb := cat(a), cat(b)
	if ca == cb {
		switch ca {
		case "field":
			if a.aux == b.aux {
				return e.mayAlias(st, a.args[0], b.args[0])
			}
		case "index":
			if e.distinctIdx(st, a.args[1], b.args[1]) && a.args[0] == b.args[0] {
				return false
			}
			if a.args[0] == b.args[0] {
				return true
			}
			ta, tb := ptrElem(a), ptrElem(b)
			return ta == nil || tb == nil || types.Identical(ta, tb)
		case "mapel", "mapok":
			if e.distinctIdx(st, a.args[1], b.args[1]) {
				return false
			}
			ma, mb := a.args[0], b.args[0]
			return ma == mb || ma.typ == nil || mb.typ == nil || types.Identical(ma.typ.Underlying(), mb.typ.Underlying())
		case "maplen":
			ma, mb := a.args[0], b.args[0]
			return ma == mb || ma.typ == nil || mb.typ == nil || types.Identical(ma.typ.Underlying(), mb.typ.Underlying())
		case "plain":
			ta, tb := ptrElem(a), ptrElem(b)
			return ta == nil || tb == nil || types.Identical(ta, tb)
		}
	}
	if ca == "plain" && (cb == "field" || cb == "index") || cb == "plain" && (ca == "field" || ca == "index") {
		ta, tb := ptrElem(a), ptrElem(b)
		if ta != nil && tb != nil && types.Identical(ta, tb) && !isFresh(root(a)) && !isFresh(root(b)) {
			return true
		}
	}
	// containment
	if cb == "field" || cb == "index" && isArrayPtr(b.args[0]) {
		if e.contain(st, a, b.args[0]) {
			return true
		}
	}
	if ca == "field" || ca == "index" && isArrayPtr(a.args[0]) {
		if e.contain(st, b, a.args[0]) {
			return true
		}
	}
	return false
}

func isArrayPtr(t *Term) bool {
	el := ptrElem(t)
	if el == nil {
		return false
	}
	_, ok := el.Underlying().(*types.Array)
	return ok
}

// contain: location a may be the object x or a parent of x.
func (e *Engine) contain(st *State, a, x *Term) bool {
	for {
		if a == x {
			return true
		}
		ta, tx := ptrElem(a), ptrElem(x)
		if ta != nil && tx != nil && types.Identical(ta, tx) && e.mayAlias(st, a, x) {
			return true
		}
		if x.op == "field" || x.op == "index" && isArrayPtr(x.args[0]) {
			x = x.args[0]
			continue
		}
		return false
	}
}

func (e *Engine) killAffects(st *State, k *kill, addr *Term) bool {
	if addr.op == "alloc" && e.p.constCell(addr.site) {
		return false
	}
	switch k.kind {
	case "all":
		r := root(addr)
		if isFresh(r) {
			return st.esc[r]
		}
		return true
	case "objs":
		return objAffected(addr, k.objs)
	case "addr":
		return e.mayAlias(st, k.addr, addr)
	case "many":
		for _, x := range k.many {
			if e.killAffects(st, x, addr) {
				return true
			}
		}
	}
	return false
}

func objAffected(addr *Term, set map[*Term]bool) bool {
	o := root(addr)
	for i := 0; i < 50; i++ {
		if set[o] {
			return true
		}
		switch o.op {
		case "ld", "unbox", "append", "extract":
			o = root(o.args[0])
			continue
		}
		return false
	}
	return true
}

func (e *Engine) applyKill(st *State, k *kill) {
	for a := range st.mem {
		if e.killAffects(st, k, a) {
			delete(st.mem, a)
		}
	}
	st.kills = append(st.kills[:len(st.kills):len(st.kills)], k)
}

func (e *Engine) decompose(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "database/sql" && (strings.HasPrefix(n.Obj().Name(), "Null") || n.Obj().Name() == "TxOptions") {
			return s // plain data with exported fields
		}
		if n.Obj().Pkg() == nil || !e.isRepoPkg(n.Obj().Pkg()) {
			return nil
		}
		// a type defined as an external struct, like xdb.Time, stays opaque
		for i := 0; i < s.NumFields(); i++ {
			if p := s.Field(i).Pkg(); p != nil && p != n.Obj().Pkg() {
				return nil
			}
		}
		return s
	}
	for i := 0; i < s.NumFields(); i++ {
		if p := s.Field(i).Pkg(); p != nil && !e.isRepoPkg(p) {
			return nil
		}
	}
	return s
}

func (e *Engine) fieldAddr(base *Term, structT types.Type, i int) *Term {
	s := structT.Underlying().(*types.Struct)
	f := s.Field(i)
	return e.ts.mk("field", typeKey(structT)+"."+f.Name(), types.NewPointer(f.Type()), base)
}

func (e *Engine) zero(t types.Type) *Term {
	ts := e.ts
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ts.boolTerm(false)
		case u.Info()&types.IsString != 0:
			return ts.strTerm("")
		case u.Info()&types.IsFloat != 0:
			return ts.constVal(constant.MakeFloat64(0), t)
		case u.Info()&types.IsNumeric != 0:
			return ts.intTerm(0)
		case u.Kind() == types.UnsafePointer:
			return ts.nilTerm()
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		return ts.nilTerm()
	case *types.Interface:
		if _, ok := types.Unalias(t).(*types.TypeParam); ok {
			return ts.mk("zerostruct", typeKey(t), t)
		}
		return ts.nilTerm()
	case *types.Struct:
		if e.decompose(t) != nil {
			var fs []*Term
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, e.zero(u.Field(i).Type()))
			}
			return ts.mk("struct", typeKey(t), t, fs...)
		}
	case *types.Tuple:
		var fs []*Term
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, e.zero(u.At(i).Type()))
		}
		return ts.mk("tuple", "", t, fs...)
	}
	return ts.mk("zerostruct", typeKey(t), t)
}

func (e *Engine) load(st *State, addr *Term, typ types.Type) *Term {
	if s := e.decompose(typ); s != nil {
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, e.load(st, e.fieldAddr(addr, typ, i), s.Field(i).Type()))
		}
		return e.mkStruct(typ, fs)
	}
	if v, ok := st.mem[addr]; ok {
		return v
	}
	if a, ok := typ.Underlying().(*types.Array); ok && a.Len() > 0 && a.Len() <= 64 && isFresh(root(addr)) && root(addr).op == "alloc" {
		var els []*Term
		for i := int64(0); i < a.Len(); i++ {
			els = append(els, e.load(st, e.ts.mk("index", "", types.NewPointer(a.Elem()), addr, e.ts.intTerm(i)), a.Elem()))
		}
		return e.ts.mk("array", typeKey(typ), typ, els...)
	}
	// a whole external struct, or a field of one that was stored as a whole
	if addr.op == "field" {
		if v, ok := st.mem[addr.args[0]]; ok && v.typ != nil {
			if _, isS := v.typ.Underlying().(*types.Struct); isS || v.op == "zerostruct" {
				r := e.fieldOf(v, addr.aux, typ)
				return r
			}
		}
	}
	if addr.op == "index" && addr.args[0].op == "slicelit" {
		if c, ok := addr.args[1].constInt(); ok && c.IsInt64() && c.Int64() < int64(len(addr.args[0].args)) {
			return addr.args[0].args[c.Int64()]
		}
	}
	if addr.op == "index" && addr.args[0].op == "append" {
		if v := e.appended(st, addr); v != nil {
			return v
		}
	}
	if addr.op == "global" && e.immutable[addr.gl] {
		if v, ok := e.globalInit[addr.gl]; ok {
			return v
		}
		t := e.ts.mk("gval", addr.aux, typ, addr)
		t.gl = addr.gl
		return t
	}
	r := root(addr)
	from := 0
	fresh := isFresh(r)
	if fresh {
		if n, ok := st.born[r]; ok {
			from = n
		} else {
			fresh = false
		}
	}
	id := ""
	for i := len(st.kills) - 1; i >= from; i-- {
		if e.killAffects(st, st.kills[i], addr) {
			id = st.kills[i].id
			fresh = false
			break
		}
	}
	var v *Term
	if fresh && (addr.op == "mapel" || r.op == "alloc" || r.op == "make") {
		v = e.zero(typ)
	} else {
		v = e.ts.mk("ld", id, typ, addr)
	}
	st.mem[addr] = v
	return v
}

func (e *Engine) mkStruct(typ types.Type, fs []*Term) *Term {
	if len(fs) > 0 && fs[0].op == "fieldof" {
		v := fs[0].args[0]
		same := typeKey(v.typ) == typeKey(typ)
		s := typ.Underlying().(*types.Struct)
		for i, f := range fs {
			if f.op != "fieldof" || f.args[0] != v || f.aux != typeKey(typ)+"."+s.Field(i).Name() {
				same = false
			}
		}
		if same {
			return v
		}
	}
	return e.ts.mk("struct", typeKey(typ), typ, fs...)
}

func (e *Engine) fieldOf(v *Term, aux string, typ types.Type) *Term {
	name := aux[strings.LastIndexByte(aux, '.')+1:]
	if v.op == "struct" {
		s := v.typ.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return v.args[i]
			}
		}
	}
	if v.op == "zerostruct" {
		return e.zero(typ)
	}
	if s := e.decompose(typ); s != nil {
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, e.ts.mk("fieldof", typeKey(typ)+"."+s.Field(i).Name(), s.Field(i).Type(), e.ts.mk("fieldof", aux, typ, v)))
		}
		_ = fs
	}
	return e.ts.mk("fieldof", aux, typ, v)
}

func (e *Engine) store(st *State, addr, v *Term, typ types.Type, id string) {
	if s := e.decompose(typ); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			fa := e.fieldAddr(addr, typ, i)
			e.store(st, fa, e.fieldOf(v, fa.aux, s.Field(i).Type()), s.Field(i).Type(), id+"."+s.Field(i).Name())
		}
		return
	}
	if a, ok := typ.Underlying().(*types.Array); ok && a.Len() <= 64 && (v.op == "zerostruct" || v.op == "array") {
		for i := int64(0); i < a.Len(); i++ {
			el := e.ts.mk("index", "", types.NewPointer(a.Elem()), addr, e.ts.intTerm(i))
			x := e.zero(a.Elem())
			if v.op == "array" {
				x = v.args[i]
			}
			e.store(st, el, x, a.Elem(), fmt.Sprint(id, ".", i))
		}
		return
	}
	r := root(addr)
	if !isFresh(r) || st.esc[r] {
		e.escape(st, v)
	}
	// kill overlapping entries
	for a := range st.mem {
		if a != addr && e.mayAlias(st, addr, a) {
			delete(st.mem, a)
		}
	}
	st.kills = append(st.kills[:len(st.kills):len(st.kills)], &kill{kind: "addr", id: id, addr: addr})
	st.mem[addr] = v
}

// escape marks the objects reachable from v as reachable by code that is not analysed.
func (e *Engine) escape(st *State, vs ...*Term) {
	for r := range e.reach(st, vs) {
		if isFresh(r) {
			st.esc[r] = true
		}
	}
}

// reach returns the root objects reachable from the values.
func (e *Engine) reach(st *State, vs []*Term) map[*Term]bool {
	set := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		switch t.op {
		case "const", "nil", "global":
			return
		}
		if t.typ != nil {
			switch u := t.typ.Underlying().(type) {
			case *types.Basic:
				if u.Kind() != types.UnsafePointer && t.op != "iface" {
					return
				}
			}
		}
		r := root(t)
		if set[r] {
			return
		}
		set[r] = true
		switch r.op {
		case "iface", "struct", "slicelit", "append", "closure", "tuple", "extract", "wrap", "fieldof", "bytes", "str":
			for _, a := range r.args {
				visit(a)
			}
		}
		for a, v := range st.mem {
			if root(a) == r {
				visit(v)
				if a.op == "mapel" {
					visit(a.args[1])
				}
			}
		}
	}
	for _, v := range vs {
		if v != nil {
			visit(v)
		}
	}
	return set
}

// appended is the element of a list that was made by appending to none, if nothing can have changed it since.
func (e *Engine) appended(st *State, addr *Term) *Term {
	c, ok := addr.args[1].constInt()
	if !ok || !c.IsInt64() || c.Sign() < 0 {
		return nil
	}
	var parts [][]*Term
	l := addr.args[0]
	for l.op == "append" && l.aux != "..." {
		parts = append(parts, l.args[1:])
		l = l.args[0]
	}
	if n, k := e.nilness(st, l); l.op != "nil" && !(k && n) {
		return nil
	}
	for _, k := range st.kills {
		if e.killAffects(st, k, addr) {
			return nil
		}
	}
	i := int(c.Int64())
	for k := len(parts) - 1; k >= 0; k-- {
		if i < len(parts[k]) {
			return parts[k][i]
		}
		i -= len(parts[k])
	}
	return nil
}
