package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["B01"] = propRule{run: runB01, title: "Scan stores the column exactly"}
}

// scalar types that scan a number
type numType struct {
	name    string
	bits    int
	signed  bool
	pattern bool // stores the 64-bit pattern of a signed number (unsigned ID over BIGINT)
}

var numTypes = []numType{
	{"ID", 64, false, true},
	{"ID32", 32, false, false},
	{"Int64", 64, true, false},
	{"Int32", 32, true, false},
}

func rangeOf(bits int, signed bool) (lo, hi *big.Int) {
	one := bi(1)
	if signed {
		h := new(big.Int).Lsh(one, uint(bits-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
	}
	return bi(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
}

func maxBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}
func minBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}

// numberOf evaluates the number held by a value of the type at an exit.
func numberOf(r *Report, rr *runRes, x *Exit, v *Term, typ string) []struct {
	st *State
	v  *Term
} {
	type pr = struct {
		st *State
		v  *Term
	}
	if typ != "ID" {
		return []pr{{x.St, v}}
	}
	f := r.p.Method("", "ID", "UInt64")
	if f == nil {
		r.missing("ID.UInt64")
		return nil
	}
	var out []pr
	for _, y := range rr.again(x, f, []*Term{v}).returns() {
		out = append(out, pr{y.St, flatTerms(y.Results)[0]})
	}
	return out
}

func (r *Report) method(typ, name string) *ssa.Function {
	f := r.p.Method("", typ, name)
	if f == nil {
		r.missing("method " + typ + "." + name)
	}
	return f
}

// scanWith runs Scan of the type with a value of dynamic type T (nil: NULL).
func (r *Report) scanWith(typ string, T types.Type, setup func(e *Engine, st *State, x *Term)) (*runRes, *Term) {
	f := r.method(typ, "Scan")
	if f == nil {
		return nil, nil
	}
	var x *Term
	rr := r.run(f, func(e *Engine, st *State, args []*Term) {
		if T == nil {
			args[1] = e.ts.nilTerm()
			return
		}
		x = e.ts.mk("param", "x", T)
		args[1] = e.ts.iface(T, x)
		e.OnEvent = func(st *State, ev *Event) {
			if ev.Kind != "call" || !(strings.HasSuffix(ev.Callee, "json.Unmarshal") || strings.HasSuffix(ev.Callee, ".Decode")) {
				return
			}
			// what the decoder is given to fill: a map or slice that it finds there is filled up
			for _, a := range ev.Args {
				if a.op == "iface" {
					a = a.args[0]
				}
				pt, ok := a.typ.Underlying().(*types.Pointer)
				if !ok || !dependsArg(ev, x) {
					continue
				}
				switch pt.Elem().Underlying().(type) {
				case *types.Map, *types.Slice:
					v := e.load(st, a, pt.Elem())
					n, k := e.nilness(st, v)
					r.check(k && n || v.op == "makemap" || v.op == "make", "value:"+typ, ev.Instr.Pos(), "%s.Scan decodes into a value that has content already: %s", typ, v)
				}
			}
		}
		if setup != nil {
			setup(e, st, x)
		}
	})
	return rr, x
}

func dependsArg(ev *Event, x *Term) bool { return argMentions(ev, x) }

var timeType = func(p *Program) types.Type { return p.timeType() }

func (p *Program) timeType() types.Type {
	for _, pk := range p.pkgs {
		for _, im := range pk.Types.Imports() {
			if im.Path() == "time" {
				return im.Scope().Lookup("Time").Type()
			}
		}
	}
	return nil
}

var scanTypes = []string{"ID", "ID32", "Int64", "Int32", "Float", "Bool", "NULLString", "UUID", "Time", "Strings", "Metadata", "KVSet", "IDArray"}

// givenAs: the dynamic types in which drivers give the columns of a type, besides integers.
var givenAs = func() map[string]func(types.Type) bool {
	bytes := func(T types.Type) bool { return T == byteSlice }
	text := func(T types.Type) bool { return bytes(T) || types.Identical(T, types.Typ[types.String]) }
	return map[string]func(types.Type) bool{
		"Metadata": text, "KVSet": text, "NULLString": text, "UUID": text, "Strings": text, "IDArray": text, "Float": bytes,
		"Time": func(T types.Type) bool { return strings.HasSuffix(T.String(), "time.Time") },
	}
}()

func runB01(r *Report) {
	p := r.p
	r.rule("Scan(NULL) stores the zero value, on every path and whatever the variable held")
	r.rule("Scan of a number that the type can hold succeeds and stores this number (ID: the same 64-bit pattern); of one that it cannot hold it never succeeds with another number")
	r.rule("Scan never succeeds with a value that does not depend on the scanned value, depends on the previous value, or shares the memory of the scanned bytes")
	r.rule("errors of parsing and decoding are returned: on success the stored value is the result of a parse whose error is known nil")
	r.rule("bytes are indexed only within their proven length")

	driver := []types.Type{basic(types.Int64), basic(types.Float64), basic(types.Bool), byteSlice, basic(types.String), p.timeType(),
		basic(types.Int), basic(types.Uint), basic(types.Uint64), basic(types.Float32)}

	for _, T := range scanTypes {
		// NULL
		rr, _ := r.scanWith(T, nil, nil)
		if rr == nil {
			continue
		}
		elem := rr.args[0].typ.Underlying().(*types.Pointer).Elem()
		for _, x := range rr.returns() {
			if !r.check(!rr.fails(x), "null:"+T, x.Pos, "%s.Scan(nil) can fail", T) {
				continue
			}
			v := rr.final(x, 0)
			if T == "ID" {
				for _, n := range numberOf(r, rr, x, v, T) {
					z, k := rr.e.isZeroTerm(n.st, n.v, basic(types.Uint64))
					r.check(k && z, "null:"+T, x.Pos, "%s.Scan(nil) leaves %s", T, n.v)
				}
				continue
			}
			z, k := rr.e.isZeroTerm(x.St, v, elem)
			r.check(k && z, "null:"+T, x.Pos, "%s.Scan(nil) leaves %s instead of the zero value", T, v)
		}
		// values of every driver type
		for _, D := range driver {
			rr, x := r.scanWith(T, D, nil)
			old := rr.e.ts.mk("ld", "", elem, rr.args[0])
			key := fmt.Sprintf("value:%s:%s", T, types.TypeString(D, func(p *types.Package) string { return p.Name() }))
			ok := false
			for _, y := range rr.returns() {
				if !rr.succeeds(y) {
					ok = true
					continue
				}
				v := rr.final(y, 0)
				dep := dependsOn(rr, y, v, x)
				if !r.check(dep, key, y.Pos, "%s.Scan of a %s succeeds with %s, which does not depend on the scanned value", T, D, v) {
					continue
				}
				r.check(!v.any(func(t *Term) bool { return t.op == "ld" && t.args[0] == rr.args[0] || t == old }), key, y.Pos,
					"%s.Scan of a %s stores %s, which depends on the previous value", T, D, v)
				if _, isSl := D.Underlying().(*types.Slice); isSl {
					r.check(!sharesBytes(v, x), key, y.Pos, "%s.Scan keeps the bytes of the driver: %s", T, v)
				}
				decodedFresh(r, rr, y, v, key, T)
				ok = true
			}
			r.check(ok, key, rr.fn.Pos(), "%s.Scan of a %s has no return", T, D)
			if f, ok := givenAs[T]; ok && f(D) {
				can := false
				for _, y := range rr.returns() {
					can = can || !rr.fails(y)
				}
				r.check(can, key, rr.fn.Pos(), "%s.Scan of a %s, which is what drivers give, always fails", T, D)
			}
			r.inBounds(rr.fn, D, key, T)
		}
	}
	// numbers
	for _, nt := range numTypes {
		lo, hi := rangeOf(nt.bits, nt.signed)
		for _, D := range []types.Type{basic(types.Int64), basic(types.Int), basic(types.Uint64), basic(types.Uint)} {
			dlo, dhi, _ := intRange(D)
			key := fmt.Sprintf("number:%s:%s", nt.name, D)
			// representable
			slo, shi := maxBig(lo, dlo), minBig(hi, dhi)
			if nt.pattern {
				slo, shi = dlo, dhi
			}
			rr, x := r.scanWith(nt.name, D, func(e *Engine, st *State, x *Term) { e.constrain(st, x, slo, shi) })
			if rr == nil {
				continue
			}
			n := 0
			for _, y := range rr.returns() {
				if !r.check(!rr.fails(y), key, y.Pos, "%s.Scan can fail for a %s between %s and %s", nt.name, D, slo, shi) {
					continue
				}
				for _, q := range numberOf(r, rr, y, rr.final(y, 0), nt.name) {
					n++
					r.check(rr.e.sameInt(q.st, q.v, x, nt.pattern), key, y.Pos, "%s.Scan of %s stores %s", nt.name, D, q.v)
				}
			}
			r.check(n > 0, key, rr.fn.Pos(), "no path stores a %s", D)
			if nt.pattern {
				continue
			}
			// not representable
			for _, out := range []interval{{dlo, new(big.Int).Sub(slo, bi(1))}, {new(big.Int).Add(shi, bi(1)), dhi}} {
				if out.empty() {
					continue
				}
				rr, _ := r.scanWith(nt.name, D, func(e *Engine, st *State, x *Term) { e.constrain(st, x, out.lo, out.hi) })
				for _, y := range rr.returns() {
					if !rr.succeeds(y) {
						continue
					}
					v := rr.final(y, 0)
					r.check(false, key, y.Pos, "%s.Scan of a %s that it cannot hold (%s..%s) succeeds with %s", nt.name, D, out.lo, out.hi, v)
				}
			}
		}
	}
	// Float
	for _, D := range driver {
		if T, ok := D.Underlying().(*types.Basic); !ok || T.Info()&types.IsNumeric == 0 {
			continue
		}
		rr, x := r.scanWith("Float", D, nil)
		key := "number:Float:" + D.String()
		for _, y := range rr.returns() {
			if !r.check(!rr.fails(y), key, y.Pos, "Float.Scan of a %s can fail", D) {
				continue
			}
			v := rr.final(y, 0)
			for v.op == "conv" && isFloat(v.typ) && v.aux != "float32" {
				v = v.args[0]
			}
			r.check(v == x, key, y.Pos, "Float.Scan of a %s stores %s", D, rr.final(y, 0))
		}
	}
	for _, D := range []types.Type{byteSlice, basic(types.String)} {
		rr, x := r.scanWith("Float", D, nil)
		for _, y := range rr.returns() {
			if rr.succeeds(y) {
				v := rr.final(y, 0)
				r.check(parsedNumber(rr, y.St, v, x, true), "number:Float:text", y.Pos, "Float.Scan of a %s stores %s, which is not the number parsed from it", D, v)
			}
		}
	}
	// lists
	r.scannedList("list:IDArray.Scan")
	// Bool
	for _, D := range []types.Type{basic(types.Bool), basic(types.Int64), basic(types.Int), basic(types.Uint64), basic(types.Uint)} {
		key := "number:Bool:" + D.String()
		for _, want := range []bool{false, true} {
			rr, _ := r.scanWith("Bool", D, func(e *Engine, st *State, x *Term) {
				switch {
				case isBoolean(D):
					e.assume(st, x, want)
				case want:
					e.constrain(st, x, bi(1), nil)
				default:
					e.constrain(st, x, bi(0), bi(0))
				}
			})
			for _, y := range rr.returns() {
				if !r.check(!rr.fails(y), key, y.Pos, "Bool.Scan of a %s can fail", D) {
					continue
				}
				v, k := rr.e.evalBool(y.St, rr.final(y, 0))
				r.check(k && v == want, key, y.Pos, "Bool.Scan of a %s that is %v stores %s", D, want, rr.final(y, 0))
			}
		}
	}
	// text
	for _, c := range []struct {
		typ string
		D   types.Type
	}{{"UUID", basic(types.String)}, {"NULLString", basic(types.String)}} {
		rr, x := r.scanWith(c.typ, c.D, nil)
		key := "text:" + c.typ
		for _, y := range rr.returns() {
			if rr.fails(y) && c.typ == "UUID" {
				r.check(false, key, y.Pos, "%s.Scan of a %s can fail", c.typ, c.D)
				continue
			}
			if !rr.succeeds(y) {
				continue
			}
			v := rr.final(y, 0)
			good := v == x || sqlNullOf(rr, y, v)
			if e, k := rr.e.isZeroTerm(y.St, x, c.D); k && e {
				if z, k := rr.e.isZeroTerm(y.St, v, c.D); k && z {
					good = true
				}
			}
			r.check(good, key, y.Pos, "%s.Scan of a %s stores %s", c.typ, c.D, v)
		}
	}
	// UUID bytes: only the lengths 16 (binary) and 36 (text) are a UUID
	rr, x := r.scanWith("UUID", byteSlice, nil)
	for _, y := range rr.returns() {
		if !rr.succeeds(y) {
			continue
		}
		n := rr.e.lenOf(x)
		l16, k1 := rr.e.evalBool(y.St, rr.e.eqTerm(n, rr.e.ts.intTerm(16), basic(types.Int)))
		v := rr.final(y, 0)
		if k1 && l16 {
			all := true
			for i := int64(0); i < 16; i++ {
				if !mentionsByte(v, x, i) && !v.contains(x) {
					all = false
				}
			}
			if msg := uuidOrder(v, x); msg != "" {
				r.check(false, "uuid", y.Pos, "UUID.Scan of 16 bytes: %s", msg)
			}
			r.check(all && v.op != "str", "uuid", y.Pos, "UUID.Scan of 16 bytes stores %s, which is not the text form of all of them", v)
			continue
		}
		l36, k2 := rr.e.evalBool(y.St, rr.e.eqTerm(n, rr.e.ts.intTerm(36), basic(types.Int)))
		r.check(k2 && l36 && v.op == "str" && v.args[0] == x, "uuid", y.Pos, "UUID.Scan of bytes that are neither 16 nor 36 long succeeds with %s", v)
	}
	// Time of a time.Time
	rr, x = r.scanWith("Time", p.timeType(), nil)
	for _, y := range rr.returns() {
		if !rr.succeeds(y) {
			continue
		}
		v := rr.final(y, 0)
		base := v
		for base.op == "pure" && (base.aux == "time.(Time).UTC" || base.aux == "time.(Time).Truncate") {
			base = base.args[0]
		}
		r.check(base == x || sqlNullOf(rr, y, base), "instant:Time", y.Pos, "Time.Scan of a time stores %s, which is not the same instant", v)
	}
}

// uuidOrder: where the text is made by one formatting call, its verbs write two digits for each byte, in the order of the
// mixed-endian form that SQL Server uses, grouped 4-2-2-2-6.
func uuidOrder(v, x *Term) string {
	order := []int64{3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15}
	msg := ""
	v.any(func(t *Term) bool {
		if t.op != "pure" || t.aux != "fmt.Sprintf" || len(t.args) != 2 || t.args[1].op != "slicelit" || len(t.args[1].args) != 16 {
			return false
		}
		f, ok := t.args[0].constStr()
		if !ok {
			return false
		}
		f = strings.NewReplacer("%02X", "#", "%02x", "#").Replace(f)
		if f != "####-##-##-##-######" {
			msg = "it is not written as two digits for each byte in groups of 4-2-2-2-6"
		}
		for i, a := range t.args[1].args {
			if !a.any(func(q *Term) bool { return q.op == "index" && q.args[0] == x && q.args[1].isInt(order[i]) }) {
				msg = fmt.Sprintf("place %d has not byte %d", i, order[i])
			}
		}
		return false
	})
	return msg
}

func mentionsByte(v, x *Term, i int64) bool {
	return v.any(func(t *Term) bool { return t.op == "index" && t.args[0] == x && t.args[1].isInt(i) })
}

// dependsOn: the stored value is computed from x, or the path is decided by x.
func dependsOn(rr *runRes, y *Exit, v, x *Term) bool {
	if v.contains(x) {
		return true
	}
	// decoded by a call that was given x
	for _, ev := range y.St.events() {
		if ev.Kind == "call" && argMentions(ev, x) {
			for _, a := range ev.Args {
				t := a
				if t.op == "iface" {
					t = t.args[0]
				}
				if isFresh(root(t)) && v.any(func(q *Term) bool { return q == t || root(q) == root(t) }) {
					return true
				}
			}
			// Valid = false of sql.NullX
			if strings.HasPrefix(ev.Callee, "database/sql.(Null") {
				return true
			}
		}
	}
	// loops over a decoded value
	if v.any(func(q *Term) bool { return q.op == "make" || q.op == "alloc" || q.op == "append" || q.op == "loop" }) {
		for _, ev := range y.St.events() {
			if ev.Kind == "call" && argMentions(ev, x) {
				return true
			}
		}
	}
	// a constant chosen by a condition on x
	for t := range y.St.b {
		if t.op != "is" && t.op != "isnil" && t.contains(x) {
			return true
		}
	}
	for t := range y.St.iv {
		if t.contains(x) {
			return true
		}
	}
	for _, ev := range y.St.events() {
		if ev.Kind == "call" && argMentions(ev, x) && strings.Contains(ev.Callee, ".Scan") {
			return true
		}
	}
	return false
}

// sharesBytes: x itself (not a copy, a string of it or a number) is part of the value.
func sharesBytes(v, x *Term) bool {
	switch v.op {
	case "str", "pure", "bytes", "len", "call", "extract", "conv", "ld", "scanned":
		return false
	}
	if v == x {
		return true
	}
	for _, a := range v.args {
		if a != nil && sharesBytes(a, x) {
			return true
		}
	}
	return false
}

// decodedFresh: a value decoded in place was decoded into fresh memory, so that nothing of an earlier row remains.
func decodedFresh(r *Report, rr *runRes, y *Exit, v *Term, key, T string) {
	for _, ev := range y.St.events() {
		if ev.Kind != "call" || !(strings.HasSuffix(ev.Callee, "json.Unmarshal") || strings.HasSuffix(ev.Callee, ".Decode") || strings.HasSuffix(ev.Callee, ").Scan")) {
			continue
		}
		for _, er := range ev.results() {
			if !isErrorType(er.typ) {
				continue
			}
			n, k := rr.e.nilness(y.St, er)
			if ret, ok := errResult(rr.fn, y); ok && ret.contains(er) {
				continue
			}
			r.check(k && n, key, ev.Instr.Pos(), "%s.Scan succeeds although %s can have failed", T, ev.Callee)
		}
		for _, a := range ev.Args {
			if a.op == "iface" {
				a = a.args[0]
			}
			r.check(a != rr.args[0], key, ev.Instr.Pos(), "%s.Scan decodes into the variable that holds the previous value", T)
		}
	}
}

// sqlNullOf: v is the text or time that a sql.NullX converted from the value.
func sqlNullOf(rr *runRes, y *Exit, v *Term) bool {
	return v.op == "scanned" && v.args[0] == rr.args[1]
}

// inBounds checks constant indexes into the scanned bytes.
func (r *Report) inBounds(f *ssa.Function, D types.Type, key, T string) {
	if _, ok := D.Underlying().(*types.Slice); !ok {
		return
	}
	e := newEngine(r.p)
	st := newState()
	args := e.Params(f)
	x := e.ts.mk("param", "x", D)
	args[1] = e.ts.iface(D, x)
	e.OnInstr = func(st *State, in ssa.Instruction, ctx string) {
		ia, ok := in.(*ssa.IndexAddr)
		if !ok {
			return
		}
		base, idx := st.env[ia.X], ia.Index
		if base != x {
			return
		}
		var it *Term
		if c, ok := idx.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
			it = e.ts.constVal(c.Value, basic(types.Int))
		} else {
			it = st.env[idx]
		}
		if it == nil {
			return
		}
		lt := e.le0(linAdd(toLin(e.ts.add(it, e.ts.intTerm(1), basic(types.Int))), toLin(e.lenOf(x)), -1))
		v, k := e.evalBool(st, lt)
		r.check(k && v, key, in.Pos(), "%s.Scan reads byte %s of a value that can be shorter", T, it)
	}
	exits := e.Run(f, st, args)
	r.done(e, exits)
}

var _ = token.NoPos
