package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed value of the abstract domain. Two values with the same
// term are equal on every execution of the analysed path (value numbering).
type Term struct {
	id   int
	op   string
	aux  string
	args []*Term
	typ  types.Type

	cval constant.Value // op "const"
	fn   *ssa.Function  // op "func", "closure"
	gl   *ssa.Global    // op "global"
	T    types.Type     // op "iface", "unbox", "is", "zero"
	site ssa.Instruction
}

// Terms is a term table.
type Terms struct {
	tab  map[string]*Term
	next int
	byID map[int]*Term
}

func newTerms() *Terms { return &Terms{tab: map[string]*Term{}, byID: map[int]*Term{}} }

func (ts *Terms) mk(op, aux string, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	k := sb.String()
	if t, ok := ts.tab[k]; ok {
		return t
	}
	ts.next++
	t := &Term{id: ts.next, op: op, aux: aux, args: append([]*Term(nil), args...), typ: typ}
	ts.tab[k] = t
	ts.byID[t.id] = t
	return t
}

func typeKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(types.Unalias(t), nil)
}

// ---- constants

func (ts *Terms) constVal(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return ts.nilTerm()
	}
	switch v.Kind() {
	case constant.Float:
		if i := constant.ToInt(v); i.Kind() == constant.Int && !isFloat(typ) {
			v = i
		}
	case constant.Int:
		if isFloat(typ) {
			v = constant.ToFloat(v)
		}
	}
	aux := "" + fmt.Sprint(int(v.Kind())) + ":" + v.ExactString()
	if isFloat(typ) {
		aux = "f:" + v.ExactString()
	}
	t := ts.mk("const", aux, typ)
	t.cval = v
	return t
}

func (ts *Terms) nilTerm() *Term { return ts.mk("nil", "", types.Typ[types.UntypedNil]) }
func (ts *Terms) boolTerm(b bool) *Term {
	return ts.constVal(constant.MakeBool(b), types.Typ[types.Bool])
}
func (ts *Terms) intTerm(i int64) *Term {
	return ts.constVal(constant.MakeInt64(i), types.Typ[types.Int])
}
func (ts *Terms) strTerm(s string) *Term {
	return ts.constVal(constant.MakeString(s), types.Typ[types.String])
}
func (ts *Terms) bigTerm(b *big.Int) *Term {
	return ts.constVal(constant.Make(new(big.Int).Set(b)), types.Typ[types.Int])
}

func (t *Term) isConst() bool { return t.op == "const" }
func (t *Term) isNil() bool   { return t.op == "nil" }

// constInt returns the integer constant.
func (t *Term) constInt() (*big.Int, bool) {
	if t.op != "const" || t.cval.Kind() != constant.Int {
		return nil, false
	}
	switch x := constant.Val(t.cval).(type) {
	case int64:
		return big.NewInt(x), true
	case *big.Int:
		return x, true
	}
	return nil, false
}

func (t *Term) constBool() (val, ok bool) {
	if t.op != "const" || t.cval.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(t.cval), true
}

func (t *Term) constStr() (string, bool) {
	if t.op != "const" || t.cval.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(t.cval), true
}

func (t *Term) isInt(n int64) bool {
	b, ok := t.constInt()
	return ok && b.IsInt64() && b.Int64() == n
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBoolean(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// intRange returns the range of an integer type (64-bit platform).
func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	if t == nil {
		return nil, nil, false
	}
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return nil, nil, false
	}
	p := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	m1 := func(x *big.Int) *big.Int { return new(big.Int).Sub(x, big.NewInt(1)) }
	neg := func(x *big.Int) *big.Int { return new(big.Int).Neg(x) }
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return neg(p(63)), m1(p(63)), true
	case types.Int32, types.UntypedRune:
		return neg(p(31)), m1(p(31)), true
	case types.Int16:
		return neg(p(15)), m1(p(15)), true
	case types.Int8:
		return neg(p(7)), m1(p(7)), true
	case types.Uint, types.Uint64, types.Uintptr:
		return big.NewInt(0), m1(p(64)), true
	case types.Uint32:
		return big.NewInt(0), m1(p(32)), true
	case types.Uint16:
		return big.NewInt(0), m1(p(16)), true
	case types.Uint8:
		return big.NewInt(0), m1(p(8)), true
	}
	return nil, nil, false
}

// ---- linear integer terms: op "lin", args sorted atoms, aux = "const;c1,c2,.."

type lin struct {
	c     *big.Int
	coef  []*big.Int
	atoms []*Term
}

func toLin(t *Term) lin {
	if c, ok := t.constInt(); ok {
		return lin{c: c}
	}
	if t.op == "lin" {
		parts := strings.Split(t.aux, ";")
		c, _ := new(big.Int).SetString(parts[0], 10)
		cs := strings.Split(parts[1], ",")
		l := lin{c: c, atoms: t.args}
		for _, s := range cs {
			k, _ := new(big.Int).SetString(s, 10)
			l.coef = append(l.coef, k)
		}
		return l
	}
	return lin{c: big.NewInt(0), coef: []*big.Int{big.NewInt(1)}, atoms: []*Term{t}}
}

func (ts *Terms) fromLin(l lin, typ types.Type) *Term {
	if len(l.atoms) == 0 {
		t := ts.bigTerm(l.c)
		return t
	}
	if len(l.atoms) == 1 && l.c.Sign() == 0 && l.coef[0].Cmp(big.NewInt(1)) == 0 {
		return l.atoms[0]
	}
	var cs []string
	for _, c := range l.coef {
		cs = append(cs, c.String())
	}
	return ts.mk("lin", l.c.String()+";"+strings.Join(cs, ","), typ, l.atoms...)
}

func linAdd(a, b lin, kb int64) lin {
	m := map[*Term]*big.Int{}
	k := big.NewInt(kb)
	for i, t := range a.atoms {
		m[t] = new(big.Int).Set(a.coef[i])
	}
	for i, t := range b.atoms {
		x := new(big.Int).Mul(b.coef[i], k)
		if y, ok := m[t]; ok {
			m[t] = x.Add(x, y)
		} else {
			m[t] = x
		}
	}
	r := lin{c: new(big.Int).Add(a.c, new(big.Int).Mul(b.c, k))}
	for t, c := range m {
		if c.Sign() != 0 {
			r.atoms = append(r.atoms, t)
		}
	}
	sort.Slice(r.atoms, func(i, j int) bool { return r.atoms[i].id < r.atoms[j].id })
	for _, t := range r.atoms {
		r.coef = append(r.coef, m[t])
	}
	return r
}

func linScale(a lin, k *big.Int) lin {
	if k.Sign() == 0 {
		return lin{c: big.NewInt(0)}
	}
	r := lin{c: new(big.Int).Mul(a.c, k), atoms: a.atoms}
	for _, c := range a.coef {
		r.coef = append(r.coef, new(big.Int).Mul(c, k))
	}
	return r
}

func (ts *Terms) add(a, b *Term, typ types.Type) *Term {
	return ts.fromLin(linAdd(toLin(a), toLin(b), 1), typ)
}
func (ts *Terms) sub(a, b *Term, typ types.Type) *Term {
	return ts.fromLin(linAdd(toLin(a), toLin(b), -1), typ)
}

// varPart splits l into a canonical variable part (gcd-free sign: first coefficient positive)
// and the sign and constant: l = sign*var + c.
func (ts *Terms) varPart(l lin) (v *Term, sign int, c *big.Int) {
	sign = 1
	if l.coef[0].Sign() < 0 {
		sign = -1
		l = linScale(l, big.NewInt(-1))
		l.c = new(big.Int).Neg(l.c)
		c = new(big.Int).Set(l.c)
	} else {
		c = l.c
	}
	vl := lin{c: big.NewInt(0), coef: l.coef, atoms: l.atoms}
	return ts.fromLin(vl, types.Typ[types.Int]), sign, c
}

// ---- helpers

func (ts *Terms) iface(T types.Type, v *Term) *Term {
	t := ts.mk("iface", typeKey(T), types.NewInterfaceType(nil, nil), v)
	t.T = T
	return t
}

func (ts *Terms) concat(a, b *Term) *Term {
	var parts []*Term
	push := func(t *Term) {
		if s, ok := t.constStr(); ok {
			if s == "" {
				return
			}
			if n := len(parts); n > 0 {
				if p, ok := parts[n-1].constStr(); ok {
					parts[n-1] = ts.strTerm(p + s)
					return
				}
			}
		}
		parts = append(parts, t)
	}
	for _, t := range []*Term{a, b} {
		if t.op == "concat" {
			for _, x := range t.args {
				push(x)
			}
		} else {
			push(t)
		}
	}
	switch len(parts) {
	case 0:
		return ts.strTerm("")
	case 1:
		return parts[0]
	}
	return ts.mk("concat", "", types.Typ[types.String], parts...)
}

func (t *Term) contains(x *Term) bool {
	if t == x {
		return true
	}
	seen := map[*Term]bool{}
	var f func(*Term) bool
	f = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// any reports if some subterm satisfies p.
func (t *Term) any(p func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var f func(*Term) bool
	f = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if p(t) {
			return true
		}
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d == 0 {
		return "…"
	}
	short := func(s string) string {
		if i := strings.LastIndex(s, "/"); i >= 0 {
			return s[i+1:]
		}
		return s
	}
	switch t.op {
	case "const":
		return t.cval.String()
	case "nil":
		return "nil"
	case "param":
		return short(t.aux)
	case "alloc", "make":
		return t.op + "(" + short(t.aux) + ")"
	case "global", "gval":
		return short(t.aux)
	case "func":
		return "func:" + short(t.aux)
	case "field":
		return "&" + t.args[0].str(d-1) + "." + short(t.aux)
	case "ld":
		return "*[" + t.args[0].str(d-1) + "]"
	case "lin":
		l := toLin(t)
		s := ""
		for i, a := range l.atoms {
			s += fmt.Sprintf("%+d*%s", l.coef[i], a.str(d-1))
		}
		if l.c.Sign() != 0 {
			s += fmt.Sprintf("%+d", l.c)
		}
		return "(" + s + ")"
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.str(d-1))
	}
	aux := t.aux
	if aux != "" {
		aux = "<" + short(aux) + ">"
	}
	return t.op + aux + "(" + strings.Join(as, ", ") + ")"
}
