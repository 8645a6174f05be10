package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["B02"] = propRule{run: runB02, title: "Value"}
	rules["B03"] = propRule{run: runB03, title: "JSON and text"}
	rules["B06"] = propRule{run: runB06, title: "UTC"}
}

// runNum runs a method of a value-receiver number type with the receiver constrained; n is the number it holds.
func (r *Report) runNum(typ, method string, lo, hi *big.Int, f func(rr *runRes, x *Exit, n *Term)) {
	m := r.method(typ, method)
	if m == nil {
		return
	}
	if typ != "ID" {
		var n *Term
		rr := r.run(m, func(e *Engine, st *State, args []*Term) {
			n = args[0]
			e.constrain(st, n, lo, hi)
		})
		for _, x := range rr.returns() {
			f(rr, x, n)
		}
		return
	}
	g := r.method("ID", "UInt64")
	if g == nil {
		return
	}
	rr := r.run(g, nil)
	for _, x := range rr.returns() {
		n := flatTerms(x.Results)[0]
		st := x.St.clone()
		if lo != nil || hi != nil {
			iv := interval{lo, hi}
			if c, ok := n.constInt(); ok {
				if iv.lo != nil && c.Cmp(iv.lo) < 0 || iv.hi != nil && c.Cmp(iv.hi) > 0 {
					continue
				}
			} else if !rr.e.addIv(st, n, iv) {
				continue
			}
		}
		x.St = st
		r2 := rr.again(x, m, rr.args)
		r.done(rr.e, r2.exits)
		for _, y := range r2.returns() {
			f(r2, y, n)
		}
	}
}

var driverTypes = map[string]bool{"int64": true, "float64": true, "bool": true, "string": true, "[]byte": true, "[]uint8": true, "time.Time": true}

func runB02(r *Report) {
	r.rule("Value of a zero number, false, empty text, zero time, nil or empty collection is NULL, and only of these")
	r.rule("otherwise Value is of a type that database/sql accepts (int64, float64, bool, string, []byte, time.Time) and carries the same number, text, instant, or the JSON encoding of the collection")
	r.rule("list conversions produce one element per element of the list, in its order, from the first to the last")
	asVal := func(rr *runRes, x *Exit, key string) *Term {
		res := flatTerms(x.Results)
		if len(res) != 2 {
			r.check(false, key, x.Pos, "unexpected results")
			return nil
		}
		if !r.check(!rr.fails(x), key, x.Pos, "%s can fail", shortFn(rr.fn)) {
			return nil
		}
		return res[0]
	}
	for _, T := range []string{"ID", "ID32", "Int64", "Int32"} {
		key := "value:" + T
		r.runNum(T, "Value", bi(0), bi(0), func(rr *runRes, x *Exit, n *Term) {
			if v := asVal(rr, x, key); v != nil {
				k, nn := rr.e.nilness(x.St, v)
				r.check(nn && k, key, x.Pos, "%s(0).Value is %s, not NULL", T, v)
			}
		})
		_, hi := rangeOf(64, T != "ID")
		neg := [][2]*big.Int{{bi(1), hi}}
		switch T {
		case "ID32":
			_, h := rangeOf(32, false)
			neg = [][2]*big.Int{{bi(1), h}}
		case "Int64":
			neg = append(neg, [2]*big.Int{new(big.Int).Neg(new(big.Int).Lsh(bi(1), 63)), bi(-1)})
		case "Int32":
			neg = [][2]*big.Int{{bi(1), bi(1<<31 - 1)}, {bi(-1 << 31), bi(-1)}}
		}
		cnt := 0
		for _, iv := range neg {
			r.runNum(T, "Value", iv[0], iv[1], func(rr *runRes, x *Exit, n *Term) {
				v := asVal(rr, x, key)
				if v == nil {
					return
				}
				cnt++
				if !r.check(v.op == "iface" && typeKey(v.T) == "int64", key, x.Pos, "%s.Value of a number that is not 0 is %s, not an int64", T, v) {
					return
				}
				r.check(rr.e.sameInt(x.St, v.args[0], n, T == "ID") || noLoss(rr.e, x.St, v.args[0], n), key, x.Pos, "%s.Value is %s, not the number", T, v)
			})
		}
		r.check(cnt > 0, key, 0, "no path")
	}
	// Float, Bool, text
	for _, T := range []string{"Float", "Bool", "NULLString", "UUID"} {
		m := r.method(T, "Value")
		if m == nil {
			continue
		}
		key := "value:" + T
		rr := r.run(m, nil)
		for _, x := range rr.returns() {
			v := asVal(rr, x, key)
			if v == nil {
				continue
			}
			z, k := rr.e.isZeroTerm(x.St, rr.args[0], rr.args[0].typ)
			if isn, kn := rr.e.nilness(x.St, v); kn && isn {
				r.check(k && z, key, x.Pos, "%s.Value is NULL for a value that is not zero", T)
				continue
			}
			r.check(k && !z, key, x.Pos, "%s.Value of a zero value is %s, not NULL", T, v)
			r.check(v.op == "iface" && driverTypes[typeKey(v.T)] && sameScalar(rr.e, x.St, v.args[0], rr.args[0]), key, x.Pos, "%s.Value is %s", T, v)
		}
	}
	// Time
	if m := r.method("Time", "Value"); m != nil {
		rr := r.run(m, nil)
		for _, x := range rr.returns() {
			v := asVal(rr, x, "value:Time")
			if v == nil {
				continue
			}
			z, k := timeZero(rr.e, x.St, rr.args[0])
			if isn, kn := rr.e.nilness(x.St, v); kn && isn {
				r.check(k && z, "value:Time", x.Pos, "Time.Value is NULL for a time that is not zero")
				continue
			}
			r.check(k && !z, "value:Time", x.Pos, "Time.Value of the zero time is %s, not NULL", v)
			base := v
			if v.op == "iface" {
				base = v.args[0]
			}
			utc := false
			for base.op == "pure" && (base.aux == "time.(Time).UTC" || base.aux == "time.(Time).Truncate") {
				utc = utc || base.aux == "time.(Time).UTC"
				base = base.args[0]
			}
			r.check(v.op == "iface" && typeKey(v.T) == "time.Time" && base == rr.args[0] && utc, "value:Time", x.Pos, "Time.Value is %s, not the same instant in UTC", v)
		}
	}
	// collections
	for _, T := range []string{"Strings", "Metadata", "KVSet"} {
		m := r.method(T, "Value")
		if m == nil {
			continue
		}
		key := "value:" + T
		rr := r.run(m, func(e *Engine, st *State, args []*Term) { e.assume(st, e.isNilTerm(args[0]), true) })
		for _, x := range rr.returns() {
			if v := asVal(rr, x, key); v != nil {
				isn, k := rr.e.nilness(x.St, v)
				if !k || !isn {
					// a nil map has length 0
					isn = false
				}
				r.check(isn || mapEmptyUnknown(rr, x), key, x.Pos, "%s(nil).Value is %s, not NULL", T, v)
			}
		}
		if T != "Strings" {
			rr = r.run(m, func(e *Engine, st *State, args []*Term) {
				e.assume(st, e.isNilTerm(args[0]), false)
				l := e.load(st, e.ts.mk("maplen", "", nil, args[0]), basic(types.Int))
				e.constrain(st, l, bi(0), bi(0))
			})
			for _, x := range rr.returns() {
				if v := asVal(rr, x, key); v != nil {
					isn, k := rr.e.nilness(x.St, v)
					r.check(k && isn, key, x.Pos, "%s.Value of an empty map is %s, not NULL", T, v)
				}
			}
		}
		rr = r.run(m, nil)
		okN := 0
		for _, x := range rr.returns() {
			if !rr.succeeds(x) {
				continue
			}
			v := flatTerms(x.Results)[0]
			if isn, kn := rr.e.nilness(x.St, v); kn && isn {
				z := collectionEmpty(rr, x, rr.args[0])
				r.check(z, key, x.Pos, "%s.Value is NULL for a collection that is not empty", T)
				continue
			}
			okN++
			enc := encodedBy(rr, x, v, rr.args[0])
			r.check(enc, key, x.Pos, "%s.Value is %s, which is not the JSON encoding of the collection", T, v)
		}
		r.check(okN > 0, key, m.Pos(), "no path encodes the collection")
	}
	// lists
	for _, c := range []struct{ typ, fn string }{{"IDArray", "Value"}, {"IDArray", "Strings"}, {"IDArray", "List"}, {"IDArray", "Int64Array"}, {"", "Int64Array"}, {"", "Int32Array"}} {
		var m *ssa.Function
		if c.typ == "" {
			m = r.p.Func("", c.fn)
		} else {
			m = r.p.Method("", c.typ, c.fn)
		}
		if m == nil {
			r.missing(c.fn)
			continue
		}
		rr := r.run(m, nil)
		key := "list:" + shortFn(m)
		n := 0
		for _, x := range rr.returns() {
			if !rr.succeeds(x) {
				continue
			}
			src := rr.args[0]
			if z, k := rr.e.evalBool(x.St, rr.e.eqTerm(rr.e.lenOf(src), rr.e.ts.intTerm(0), basic(types.Int))); k && z {
				continue
			}
			n++
			msg := elementwise(rr.e, x.St, src)
			r.check(msg == "", key, x.Pos, "%s: %s", shortFn(m), msg)
		}
		r.check(n > 0, key, m.Pos(), "no path converts the list")
	}
	r.scannedList("list:IDArray.Scan")
}

// scannedList: scanning a list of IDs stores one ID for each element that was read, in order.
func (r *Report) scannedList(key string) {
	if m := r.method("IDArray", "Scan"); m != nil {
		rr := r.run(m, nil)
		n := 0
		for _, x := range rr.returns() {
			if !rr.succeeds(x) {
				continue
			}
			for _, ev := range x.St.events() {
				if ev.Kind == "call" && strings.HasSuffix(ev.Callee, "pq.(Int64Array).Scan") {
					src := rr.e.load(x.St, ev.Args[0], ptrElem(ev.Args[0]))
					if z, k := rr.e.evalBool(x.St, rr.e.eqTerm(rr.e.lenOf(src), rr.e.ts.intTerm(0), basic(types.Int))); k && z {
						continue
					}
					n++
					msg := elementwise(rr.e, x.St, src)
					r.check(msg == "", key, x.Pos, "IDArray.Scan: %s", msg)
				}
			}
		}
		r.check(n > 0, key, m.Pos(), "no path converts the list")
	}
}

// sameScalar: conversions between a named type and its basic type keep the term.
func sameScalar(e *Engine, st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if isBoolean(b.typ) {
		x, k := e.evalBool(st, a)
		y, k2 := e.evalBool(st, b)
		return k && k2 && x == y
	}
	return false
}

// timeZero: IsZero of the time is known on the path.
func timeZero(e *Engine, st *State, t *Term) (zero, known bool) {
	for f, v := range st.b {
		if f.op == "pure" && f.aux == "time.(Time).IsZero" {
			a := f.args[0]
			for a.op == "pure" && a.aux == "time.(Time).UTC" {
				a = a.args[0]
			}
			if a == t {
				return v, true
			}
		}
	}
	return false, false
}

func collectionEmpty(rr *runRes, x *Exit, c *Term) bool {
	if n, k := rr.e.nilness(x.St, c); k && n {
		return true
	}
	var l *Term
	if _, ok := c.typ.Underlying().(*types.Map); ok {
		l = rr.e.load(x.St, rr.e.ts.mk("maplen", "", nil, c), basic(types.Int))
	} else {
		l = rr.e.lenOf(c)
	}
	v, k := rr.e.evalBool(x.St, rr.e.eqTerm(l, rr.e.ts.intTerm(0), basic(types.Int)))
	return k && v
}

// mapEmptyUnknown: the exit is only taken by a map that has elements, which a nil map has not.
func mapEmptyUnknown(rr *runRes, x *Exit) bool {
	c := rr.args[0]
	if _, ok := c.typ.Underlying().(*types.Map); !ok {
		return false
	}
	l := rr.e.load(x.St, rr.e.ts.mk("maplen", "", nil, c), basic(types.Int))
	v, k := rr.e.evalBool(x.St, rr.e.eqTerm(l, rr.e.ts.intTerm(0), basic(types.Int)))
	return k && !v
}

// encodedBy: v is the text of a JSON encoding of c without error.
func encodedBy(rr *runRes, x *Exit, v, c *Term) bool {
	if v.op != "iface" || !driverTypes[typeKey(v.T)] {
		return false
	}
	for _, ev := range x.St.events() {
		if ev.Kind == "call" && strings.Contains(ev.Callee, "json.Marshal") && argMentions(ev, c) {
			rs := ev.results()
			if len(rs) == 2 && v.contains(rs[0]) {
				n, k := rr.e.nilness(x.St, rs[1])
				return k && n
			}
		}
	}
	return false
}

// elementwise: a loop on the path visits every element of src in order, and every iteration produces one element from the visited one.
func elementwise(e *Engine, st *State, src *Term) string {
	for _, ev := range st.events() {
		if ev.Kind != "loop" || ev.Loop == nil {
			continue
		}
		rec := ev.Loop
		// the counter and its offset
		for _, s := range rec.Slots {
			if s.Phi == nil || !isInteger(s.Sym.typ) || len(s.Backs) == 0 {
				continue
			}
			step := true
			for _, b := range s.Backs {
				if b != e.ts.add(s.Sym, e.ts.intTerm(1), s.Sym.typ) {
					step = false
				}
			}
			c0, ok := s.Entry.constInt()
			if !step || !ok {
				continue
			}
			idx := e.ts.add(s.Sym, e.ts.bigTerm(new(big.Int).Neg(c0)), s.Sym.typ) // 0 in the first iteration
			visits := func(t *Term) bool {
				return t != nil && t.any(func(q *Term) bool { return q.op == "index" && q.args[0] == src && q.args[1] == idx })
			}
			all := len(rec.Iters) > 0
			for _, it := range rec.Iters {
				n := 0
				for _, ie := range it {
					switch ie.Kind {
					case "append":
						n++
					case "store":
						if ie.Args[0].op == "index" && ie.Args[0].args[0].op == "make" && ie.Args[0].args[1] == idx {
							n++
						}
					}
				}
				if n != 1 {
					all = false
				}
			}
			seen := false
			for _, it := range rec.Iters {
				for _, ie := range it {
					if (ie.Kind == "store" || ie.Kind == "append") && len(ie.Args) == 2 {
						v := ie.Args[1]
						if ie.Kind == "append" && v.op == "slicelit" && len(v.args) == 1 {
							v = v.args[0]
						}
						if v.typ != nil && isInteger(v.typ) && visits(v) && !wholeElement(v) {
							return fmt.Sprintf("an element is stored as %s, which is not its number", v)
						}
					}
					for _, a := range ie.Args {
						seen = seen || visits(a)
					}
				}
			}
			if !all || !seen {
				continue
			}
			// the loop ends at the end of the list
			v, k := e.evalBool(st, e.le0(linAdd(toLin(e.lenOf(src)), toLin(idx), -1)))
			if k && v {
				return ""
			}
			return "the loop over the list can end before its last element"
		}
	}
	return "no loop on the path produces one element for every element of the list, in order"
}

// wholeElement: an element that was read, converted to types that are no narrower than it.
func wholeElement(v *Term) bool {
	w := 0
	for v.op == "conv" && v.typ != nil && isInteger(v.typ) {
		if b := bitsOf(v.typ); w == 0 || b < w {
			w = b
		}
		v = v.args[0]
	}
	return v.op == "ld" && (w == 0 || w >= bitsOf(v.typ))
}

func bitsOf(t types.Type) int {
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		max := 0
		if u, ok := tp.Underlying().(*types.Interface); ok {
			for i := 0; i < u.NumEmbeddeds(); i++ {
				if un, ok := u.EmbeddedType(i).(*types.Union); ok {
					for j := 0; j < un.Len(); j++ {
						if b := bitsOf(un.Term(j).Type()); b > max {
							max = b
						}
					}
				} else if b := bitsOf(u.EmbeddedType(i)); b > max {
					max = b
				}
			}
		}
		return max
	}
	if n, ok := t.Underlying().(*types.Interface); ok {
		max := 0
		for i := 0; i < n.NumEmbeddeds(); i++ {
			if un, ok := n.EmbeddedType(i).(*types.Union); ok {
				for j := 0; j < un.Len(); j++ {
					if b := bitsOf(un.Term(j).Type()); b > max {
						max = b
					}
				}
			}
		}
		return max
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

// ---- B03

// decimalOf recognises the decimal text of a number.
func decimalOf(t *Term) *Term {
	if t.op != "pure" {
		return nil
	}
	base10 := func(i int) bool { return i < len(t.args) && t.args[i].isInt(10) }
	switch t.aux {
	case "strconv.FormatInt", "strconv.FormatUint":
		if base10(1) {
			return t.args[0]
		}
	case "strconv.Itoa":
		return t.args[0]
	case "fmt.Sprintf":
		if s, ok := t.args[0].constStr(); ok && (s == "%d" || s == "%v") && len(t.args) == 2 && t.args[1].op == "slicelit" && len(t.args[1].args) == 1 {
			a := t.args[1].args[0]
			if a.op == "iface" && (s == "%d" || isBasicType(a.T)) {
				return a.args[0]
			}
		}
	case "fmt.Sprint":
		if len(t.args) == 1 && t.args[0].op == "slicelit" && len(t.args[0].args) == 1 {
			if a := t.args[0].args[0]; a.op == "iface" && isBasicType(a.T) {
				return a.args[0]
			}
		}
	}
	return nil
}

func isBasicType(t types.Type) bool { _, ok := types.Unalias(t).(*types.Basic); return ok }

// isDecimal: t is the decimal text of n on the path.
func isDecimal(e *Engine, st *State, t, n *Term) bool {
	if d := decimalOf(t); d != nil {
		if x, ok := d.constInt(); ok {
			if v, k := e.evalBool(st, e.eqTerm(n, e.ts.bigTerm(x), basic(types.Int64))); k && v {
				return true
			}
		}
		return e.sameInt(st, d, n, false)
	}
	if s, ok := t.constStr(); ok {
		if b, ok2 := new(big.Int).SetString(s, 10); ok2 {
			v, k := e.evalBool(st, e.eqTerm(n, e.ts.bigTerm(b), basic(types.Int64)))
			return k && v
		}
	}
	return false
}

func bytesText(t *Term) *Term {
	if t.op == "bytes" {
		return t.args[0]
	}
	return nil
}

// trimmed: the text of data, possibly trimmed of quotes and spaces
func textOf(t, data *Term) bool {
	for {
		switch {
		case t.op == "str" && t.args[0] == data:
			return true
		case t == data:
			return true
		case t.op == "pure" && (strings.HasPrefix(t.aux, "strings.Trim") || strings.HasPrefix(t.aux, "bytes.Trim")):
			// only quotes may be taken away: other characters are not part of a number
			if len(t.args) != 2 {
				return false
			}
			if c, ok := t.args[1].constStr(); !ok || c != `"` {
				return false
			}
			t = t.args[0]
		case t.op == "str" || t.op == "bytes":
			t = t.args[0]
		default:
			return false
		}
	}
}

func runB03(r *Report) {
	p := r.p
	r.rule("MarshalJSON of a number writes exactly its decimal digits, of an ID all 64 bits")
	r.rule("UnmarshalJSON of a number succeeds only with the number parsed in base 10 in the width of the type, with no parse error, or with zero for empty, 0 and NULL")
	r.rule("the text of an ID is the decimal form of its number; parsing accepts exactly the number of the text, and never succeeds with 0")
	for _, T := range []string{"ID", "ID32", "Int64", "Int32"} {
		key := "marshal:" + T
		c := 0
		r.runNum(T, "MarshalJSON", nil, nil, func(rr *runRes, x *Exit, n *Term) {
			c++
			if !r.check(!rr.fails(x), key, x.Pos, "%s.MarshalJSON can fail", T) {
				return
			}
			s := bytesText(flatTerms(x.Results)[0])
			r.check(s != nil && isDecimal(rr.e, x.St, s, n), key, x.Pos, "%s.MarshalJSON writes %s for the number %s", T, flatTerms(x.Results)[0], n)
		})
		r.check(c > 0, key, 0, "no path")
	}
	// text
	for _, T := range []string{"ID", "ID32", "Int64", "Int32"} {
		key := "string:" + T
		r.runNum(T, "String", nil, nil, func(rr *runRes, x *Exit, n *Term) {
			s := flatTerms(x.Results)[0]
			if T == "ID" {
				if c, ok := s.constStr(); ok && c == "" {
					v, k := rr.e.evalBool(x.St, rr.e.eqTerm(n, rr.e.ts.intTerm(0), basic(types.Uint64)))
					r.check(k && v, key, x.Pos, "the text of an ID that is not 0 is empty")
					return
				}
				// the memoised text: written only as the decimal form (checked at the writes)
				if s.op == "ld" && s.args[0].op == "field" {
					return
				}
			}
			r.check(isDecimal(rr.e, x.St, s, n), key, x.Pos, "%s.String is %s for the number %s", T, s, n)
		})
	}
	// with a prefix or in quotes
	for _, c := range []struct{ T, method, pre, post string }{{"ID", "UnderscoreString", "_", ""}, {"ID", "QuotedString", `"`, `"`}, {"Int64", "QuotedString", `"`, `"`}} {
		key := "string:" + c.T + "." + c.method
		r.runNum(c.T, c.method, nil, nil, func(rr *runRes, x *Exit, n *Term) {
			s := flatTerms(x.Results)[0]
			ok := framed(s, c.pre, c.post, func(d *Term) bool {
				if d == nil {
					v, k := rr.e.evalBool(x.St, rr.e.eqTerm(n, rr.e.ts.intTerm(0), basic(types.Uint64)))
					return c.T == "ID" && k && v
				}
				if c.T == "ID" && d.op == "ld" && d.args[0].op == "field" {
					return true // the memoised text
				}
				return isDecimal(rr.e, x.St, d, n)
			})
			if v, k := s.constStr(); k && v == "" {
				z, k := rr.e.evalBool(x.St, rr.e.eqTerm(n, rr.e.ts.intTerm(0), basic(types.Uint64)))
				ok = k && z || emptyDecimal(x.St)
			}
			r.check(ok, key, x.Pos, "%s.%s is %s for the number %s", c.T, c.method, s, n)
		})
	}
	if m := p.Func("", "QuotedIDString"); m == nil {
		r.missing("QuotedIDString")
	} else {
		rr := r.run(m, nil)
		for _, x := range rr.returns() {
			s := flatTerms(x.Results)[0]
			r.check(framed(s, `"`, `"`, func(d *Term) bool { return d != nil && isDecimal(rr.e, x.St, d, rr.args[0]) }), "text:QuotedIDString", x.Pos, "QuotedIDString is %s", s)
		}
	}
	// YAML
	if m := r.method("ID", "MarshalYAML"); m != nil {
		r.runNum("ID", "MarshalYAML", nil, nil, func(rr *runRes, x *Exit, n *Term) {
			v := flatTerms(x.Results)[0]
			ok := !rr.fails(x) && v.op == "iface" && (rr.e.sameInt(x.St, v.args[0], n, false) || isDecimal(rr.e, x.St, v.args[0], n))
			r.check(ok, "marshal:yaml", x.Pos, "ID.MarshalYAML gives %s for the number %s", v, n)
		})
	}
	if m := r.method("ID", "UnmarshalYAML"); m != nil {
		rr := r.run(m, nil)
		c := 0
		for _, x := range rr.returns() {
			if !rr.succeeds(x) {
				continue
			}
			var dst *Term
			for _, ev := range x.St.events() {
				if ev.Kind == "call" && ev.Callee == "dynamic" && len(ev.Args) == 1 {
					for _, er := range ev.results() {
						n, k := rr.e.nilness(x.St, er)
						r.check(k && n, "unmarshal:yaml", ev.Instr.Pos(), "ID.UnmarshalYAML succeeds although decoding failed")
					}
					if dst = ev.Args[0]; dst.op == "iface" {
						dst = dst.args[0]
					}
				}
			}
			if !r.check(dst != nil, "unmarshal:yaml", x.Pos, "ID.UnmarshalYAML succeeds without decoding") {
				continue
			}
			if pt, ok := dst.typ.Underlying().(*types.Pointer); ok && isInteger(pt.Elem()) {
				c++
				r.check(bitsOf(pt.Elem()) == 64 && isUnsignedT(pt.Elem()), "unmarshal:yaml", x.Pos, "ID.UnmarshalYAML decodes into a %s, which does not hold every ID", pt.Elem())
				want := rr.e.load(x.St, dst, pt.Elem())
				for _, q := range numberOf(r, rr, x, rr.final(x, 0), "ID") {
					r.check(rr.e.sameInt(q.st, q.v, want, false), "unmarshal:yaml", x.Pos, "ID.UnmarshalYAML stores %s, not the decoded number", q.v)
				}
			} else {
				c++ // decoded as another type: parsed below by the rules of text
			}
		}
		r.check(c > 0, "unmarshal:yaml", m.Pos(), "no path decodes")
	}
	for _, c := range []struct {
		T    string
		bits int
		sgn  bool
	}{{"ID", 64, false}, {"ID32", 32, false}, {"Int64", 64, true}, {"Int32", 32, true}, {"Float", 64, true}} {
		m := r.method(c.T, "UnmarshalJSON")
		if m == nil {
			continue
		}
		key := "unmarshal:" + c.T
		rr := r.run(m, nil)
		parsedN := 0
		for _, x := range rr.returns() {
			if !rr.succeeds(x) {
				continue
			}
			for _, q := range numberOf(r, rr, x, rr.final(x, 0), c.T) {
				if s := parsedNumber(rr, q.st, q.v, rr.args[1], c.T == "Float"); s {
					parsedN++
					if c.T == "ID" {
						textMatches(r, rr, x, q.v, key)
					}
					continue
				}
				z, k := rr.e.isZeroTerm(q.st, q.v, q.v.typ)
				if c.T == "Float" && q.v == rr.e.zero(rr.final(x, 0).typ) {
					z, k = true, true
				}
				if v, ok := q.v.constInt(); ok && v.Sign() == 0 {
					z, k = true, true
				}
				r.check(k && z && nullText(rr.e, q.st, rr.args[1]), key, x.Pos, "%s.UnmarshalJSON succeeds with %s", c.T, q.v)
			}
		}
		r.check(parsedN > 0, key, m.Pos(), "no path stores the parsed number")
		for _, x := range rr.returns() {
			if rr.succeeds(x) {
				continue
			}
			r.check(notText(rr.e, x.St, rr.args[1], ""), key+":empty", x.Pos, "%s.UnmarshalJSON fails for the empty text", c.T)
			r.check(notText(rr.e, x.St, rr.args[1], "null"), key+":null", x.Pos, "%s.UnmarshalJSON fails for null", c.T)
			why := refusedParse(rr, x.St, rr.args[1], c.bits)
			r.check(why == "", key+":refuse", x.Pos, "%s.UnmarshalJSON %s", c.T, why)
		}
	}
	r.accessors()
	// Bool
	if m := r.method("Bool", "UnmarshalJSON"); m != nil {
		rr := r.run(m, nil)
		key := "unmarshal:Bool"
		n := map[bool]int{}
		for _, x := range rr.returns() {
			if !r.check(rr.succeeds(x), key, x.Pos, "Bool.UnmarshalJSON fails") {
				continue
			}
			val := rr.final(x, 0)
			for _, v := range []bool{false, true} {
				st := x.St.clone()
				if old, k := rr.e.evalBool(st, val); k && old != v {
					continue
				} else if !k {
					if !r.check(root(val) != rr.args[0], key, x.Pos, "Bool.UnmarshalJSON keeps the old value") {
						continue
					}
					rr.e.assume(st, val, v)
				}
				n[v]++
				if v {
					r.check(isText(rr.e, st, rr.args[1], "true") || isText(rr.e, st, rr.args[1], "1"), key, x.Pos, "Bool.UnmarshalJSON gives true for a text that is neither true nor 1")
				} else {
					for _, w := range []string{"true", "1"} {
						r.check(notText(rr.e, st, rr.args[1], w), key, x.Pos, "Bool.UnmarshalJSON gives false for %s", w)
					}
				}
			}
		}
		r.check(n[true] > 0 && n[false] > 0, key, m.Pos(), "Bool.UnmarshalJSON does not give true and false")
	}
	if m := r.method("Bool", "MarshalJSON"); m != nil {
		for _, want := range []bool{false, true} {
			rr := r.run(m, func(e *Engine, st *State, args []*Term) { e.assume(st, args[0], want) })
			for _, x := range rr.returns() {
				s := bytesText(flatTerms(x.Results)[0])
				txt := ""
				if s != nil {
					txt, _ = s.constStr()
					if s.op == "pure" || s.op == "call" {
						// values.Select(cond, a, b)
						txt = selectText(rr, x, s)
					}
				}
				w := "false"
				if want {
					w = "true"
				}
				r.check(txt == w, "marshal:Bool", x.Pos, "Bool(%v).MarshalJSON writes %s", want, flatTerms(x.Results)[0])
			}
		}
	}
	// ID text
	for _, fn := range []string{"ParseID", "Set"} {
		var m *ssa.Function
		if fn == "Set" {
			m = p.Method("", "ID", "Set")
		} else {
			m = p.Func("", fn)
		}
		if m == nil {
			r.missing(fn)
			continue
		}
		rr := r.run(m, nil)
		key := "parse:" + fn
		n := 0
		for _, x := range rr.returns() {
			if !rr.succeeds(x) {
				continue
			}
			v, arg := flatTerms(x.Results)[0], rr.args[0]
			if fn == "Set" {
				v, arg = rr.final(x, 0), rr.args[1]
			}
			for _, q := range numberOf(r, rr, x, v, "ID") {
				n++
				z, k := rr.e.evalBool(q.st, rr.e.eqTerm(q.v, rr.e.ts.intTerm(0), basic(types.Uint64)))
				r.check(parsedNumber(rr, q.st, q.v, arg, false) && k && !z, key, x.Pos, "%s succeeds with %s", fn, q.v)
			}
		}
		for _, x := range rr.returns() {
			arg := rr.args[0]
			if fn == "Set" {
				arg = rr.args[1]
			}
			if !rr.succeeds(x) {
				why := refusedParse(rr, x.St, arg, 64)
				r.check(why == "" || parsedZero(rr, x.St, arg) || isText(rr.e, x.St, arg, "") || isText(rr.e, x.St, arg, "0"), key+":refuse", x.Pos, "%s %s", fn, why)
			}
		}
		r.check(n > 0, key, m.Pos(), "no path succeeds")
	}
	r.rule("MustID returns the number of the text, and panics only for a text that is not an ID; TryParseID returns the number of the text, or 0 for such a text only")
	runParseVariants(r)
	for _, fn := range []string{"IDString", "ParseUint"} {
		m := p.Func("", fn)
		if m == nil {
			r.missing(fn)
			continue
		}
		rr := r.run(m, nil)
		for _, x := range rr.returns() {
			if !rr.succeeds(x) {
				why := refusedParse(rr, x.St, rr.args[0], 64)
				r.check(why == "", "text:"+fn+":refuse", x.Pos, "%s %s", fn, why)
				continue
			}
			v := flatTerms(x.Results)[0]
			if fn == "IDString" {
				r.check(isDecimal(rr.e, x.St, v, rr.args[0]), "text:"+fn, x.Pos, "IDString is %s", v)
			} else {
				r.check(parsedNumber(rr, x.St, v, rr.args[0], false), "text:"+fn, x.Pos, "ParseUint is %s", v)
			}
		}
	}
}

// isText: the path knows that the text is w, in upper or lower case.
func isText(e *Engine, st *State, data *Term, w string) bool { return knownText(e, st, data, w, true) }

// notText: the path knows that the text is not w.
func notText(e *Engine, st *State, data *Term, w string) bool {
	return knownText(e, st, data, w, false)
}

func knownText(e *Engine, st *State, data *Term, w string, want bool) bool {
	form := func(t *Term) bool {
		c, ok := t.constStr()
		if !ok && (t.op == "bytes" || t.op == "conv") && len(t.args) == 1 {
			c, ok = t.args[0].constStr()
		}
		if want {
			return ok && strings.EqualFold(strings.Trim(c, `"`), w)
		}
		return ok && strings.Trim(c, `"`) == w
	}
	for t, v := range st.b {
		if v != want {
			continue
		}
		if t.op == "eq" || t.op == "pure" && (strings.HasSuffix(t.aux, "EqualFold") || strings.HasSuffix(t.aux, "bytes.Equal")) {
			if len(t.args) == 2 && (form(t.args[0]) && textOf(t.args[1], data) || form(t.args[1]) && textOf(t.args[0], data)) {
				return true
			}
		}
		if t.op == "isnil" && w == "" && len(t.args) == 1 && textOf(t.args[0], data) {
			return true
		}
	}
	// by its length
	check := func(t *Term) bool {
		if t.op != "len" || !textOf(t.args[0], data) {
			return false
		}
		iv := e.bounds(st, t)
		n := bi(int64(len(w)))
		if want {
			return w == "" && iv.hi != nil && iv.hi.Sign() == 0
		}
		return iv.lo != nil && iv.lo.Cmp(n) > 0 || iv.hi != nil && iv.hi.Cmp(n) < 0
	}
	for t := range st.iv {
		if check(t) {
			return true
		}
	}
	for t, v := range st.b {
		if t.op == "eqi" && t.aux == strconv.Itoa(len(w)) && v == false && !want && len(t.args) == 1 && t.args[0].op == "len" && textOf(t.args[0].args[0], data) {
			return true
		}
	}
	return false
}

// refusedParse says why a text is refused that is a number; the empty text if it is not one.
func refusedParse(rr *runRes, st *State, data *Term, bits int) string {
	why := "fails for a text that was not found not to be a number"
	for t, v := range st.b {
		if t.op != "isnil" || t.args[0].op != "extract" || t.args[0].aux != "1" {
			continue
		}
		c := t.args[0].args[0]
		if c.op != "pure" || !strings.HasPrefix(c.aux, "strconv.") || len(c.args) == 0 || !textOf(c.args[0], data) {
			continue
		}
		if v { // the number is refused: out of range, or zero
			why = ""
			continue
		}
		why = ""
		if !isString(data.typ) && halfQuoted(st, c.args[0], data) {
			return "refuses numbers in quotes: the text that is parsed can have a quote"
		}
		if b := c.args[len(c.args)-1]; len(c.args) > 1 {
			if x, ok := b.constInt(); ok && x.Sign() != 0 && x.Cmp(bi(int64(bits))) < 0 {
				return fmt.Sprintf("refuses numbers that need more than %s bits", x)
			}
		}
		return why
	}
	return why
}

// halfQuoted: the text is data, or data trimmed on one side only, and the path has not looked for a quote.
func halfQuoted(st *State, t, data *Term) bool {
	isQ := func(x *Term) bool {
		s, ok := x.constStr()
		return ok && strings.Contains(s, "\"") || x.isInt('"')
	}
	for c := range st.b {
		if c.contains(data) && c.any(isQ) && !(len(c.args) > 0 && c.args[0].op == "extract") && !c.any(func(q *Term) bool { return q.op == "pure" && strings.HasPrefix(q.aux, "strings.Trim") }) {
			return false
		}
	}
	left, right := false, false
	for t != data {
		switch {
		case t.op == "pure" && len(t.args) == 2 && (strings.HasPrefix(t.aux, "strings.Trim") || strings.HasPrefix(t.aux, "bytes.Trim")):
			if isQ(t.args[1]) || t.args[1].any(isQ) {
				switch m := t.aux[strings.IndexByte(t.aux, '.')+1:]; m {
				case "Trim":
					left, right = true, true
				case "TrimLeft", "TrimPrefix":
					left = true
				case "TrimRight", "TrimSuffix":
					right = true
				default:
					return false
				}
			}
		case t.op == "pure" && len(t.args) == 1 && strings.HasSuffix(t.aux, ".TrimSpace"):
		case (t.op == "conv" || t.op == "bytes" || t.op == "str" || t.op == "string") && len(t.args) == 1:
		default:
			return false
		}
		t = t.args[0]
	}
	return !left || !right
}

// parsedZero: the text was parsed as zero.
func parsedZero(rr *runRes, st *State, data *Term) bool {
	for t := range st.iv {
		if t.op == "extract" && t.aux == "0" && t.args[0].op == "pure" && len(t.args[0].args) > 0 && textOf(t.args[0].args[0], data) {
			iv := rr.e.bounds(st, t)
			if iv.lo != nil && iv.hi != nil && iv.lo.Sign() == 0 && iv.hi.Sign() == 0 {
				return true
			}
		}
	}
	return false
}

// accessors: a method without parameters that gives a plain number or bool gives that of the value.
func (r *Report) accessors() {
	n := 0
	for _, T := range []string{"Int64", "Int32", "Float", "Bool"} {
		nt := r.p.Named("", T)
		if nt == nil {
			r.missing(T)
			continue
		}
		for i := 0; i < nt.NumMethods(); i++ {
			mo := nt.Method(i)
			sig := mo.Type().(*types.Signature)
			if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
				continue
			}
			b, ok := sig.Results().At(0).Type().(*types.Basic)
			if !ok || b.Info()&(types.IsNumeric|types.IsBoolean) == 0 || !strings.EqualFold(mo.Name(), T) && b.Name() != strings.ToLower(mo.Name()) {
				continue
			}
			m := r.method(T, mo.Name())
			if m == nil {
				continue
			}
			n++
			key := "accessor:" + T + "." + mo.Name()
			vals := []bool{false}
			if T == "Bool" {
				vals = []bool{false, true}
			}
			for _, want := range vals {
				rr := r.run(m, func(e *Engine, st *State, args []*Term) {
					if T == "Bool" {
						e.assume(st, args[0], want)
					}
				})
				for _, x := range rr.returns() {
					got := x.Results[0]
					if T == "Bool" {
						v, k := rr.e.evalBool(x.St, got)
						r.check(k && v == want, key, x.Pos, "%s.%s gives %s", T, mo.Name(), got)
						continue
					}
					r.check(got == rr.args[0] || rr.e.sameInt(x.St, got, rr.args[0], false) || noLoss(rr.e, x.St, got, rr.args[0]), key, x.Pos, "%s.%s gives %s", T, mo.Name(), got)
				}
			}
		}
	}
	r.atLeast(n, 4, "accessors of numbers")
}

// framed: s is pre, then a text accepted by mid (nil: the empty text), then post.
func framed(s *Term, pre, post string, mid func(*Term) bool) bool {
	var parts []*Term
	lit := ""
	var pos []string // literal text before each part
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if c, ok := t.constStr(); ok {
			lit += c
			return true
		}
		if t.op == "concat" {
			for _, a := range t.args {
				if !walk(a) {
					return false
				}
			}
			return true
		}
		if isPure(t, "fmt.Sprintf") && len(t.args) == 2 && t.args[1].op == "slicelit" && len(t.args[1].args) == 1 {
			if f, ok := t.args[0].constStr(); ok {
				for _, verb := range []string{"%d", "%v", "%s"} {
					if i := strings.Index(f, verb); i >= 0 && strings.Count(f, "%") == 1 {
						lit += f[:i]
						pos = append(pos, lit)
						lit = f[i+2:]
						a := t.args[1].args[0]
						if a.op == "iface" {
							a = a.args[0]
						}
						parts = append(parts, a)
						return true
					}
				}
			}
		}
		if isPure(t, "strconv.Quote") && len(t.args) == 1 {
			lit += `"`
			pos = append(pos, lit)
			parts = append(parts, t.args[0])
			lit = `"`
			return true
		}
		pos = append(pos, lit)
		lit = ""
		parts = append(parts, t)
		return true
	}
	walk(s)
	switch len(parts) {
	case 0:
		return lit == pre+post && mid(nil) || strings.HasPrefix(lit, pre) && strings.HasSuffix(lit, post) && len(lit) > len(pre)+len(post)
	case 1:
		return pos[0] == pre && lit == post && mid(parts[0])
	}
	return false
}

// emptyDecimal: the path supposes a decimal text or the memoised one to be empty, which only that of no number is.
func emptyDecimal(st *State) bool {
	for t := range st.iv {
		if t.op == "len" && isPure(t.args[0], "strconv.FormatUint", "strconv.FormatInt", "strconv.Itoa") {
			return true
		}
	}
	return false
}

func isUnsignedT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// selectText evaluates values.Select(c, a, b) of constants.
func selectText(rr *runRes, x *Exit, s *Term) string {
	if !strings.HasSuffix(s.aux, ".Select") || len(s.args) != 3 {
		return ""
	}
	v, k := rr.e.evalBool(x.St, s.args[0])
	if !k {
		return ""
	}
	i := 2
	if v {
		i = 1
	}
	t, _ := s.args[i].constStr()
	return t
}

// textMatches: the text form of the unmarshalled ID is the decimal form of its number.
func textMatches(r *Report, rr *runRes, x *Exit, n *Term, key string) {
	f := r.p.Method("", "ID", "String")
	if f == nil {
		return
	}
	for _, y := range rr.again(x, f, []*Term{rr.final(x, 0)}).returns() {
		s := flatTerms(y.Results)[0]
		if c, ok := s.constStr(); ok && c == "" {
			v, k := rr.e.evalBool(y.St, rr.e.eqTerm(n, rr.e.ts.intTerm(0), basic(types.Uint64)))
			r.check(k && v, key, x.Pos, "the text of an unmarshalled ID is empty")
			continue
		}
		r.check(isDecimal(rr.e, y.St, s, n), key, x.Pos, "the text of an unmarshalled ID is %s, not the decimal form of its number", s)
	}
}

// parsedNumber: v is the number parsed in base 10 from the text of data, without error, and not truncated.
func parsedNumber(rr *runRes, st *State, v, data *Term, float bool) bool {
	found := false
	v.any(func(t *Term) bool {
		if found || t.op != "extract" || t.aux != "0" || t.args[0].op != "pure" {
			return false
		}
		c := t.args[0]
		switch c.aux {
		case "strconv.ParseInt", "strconv.ParseUint":
			if float || len(c.args) != 3 || !c.args[1].isInt(10) {
				return false
			}
		case "strconv.ParseFloat":
			if !float || !c.args[1].isInt(64) {
				return false
			}
		case "strconv.Atoi":
			if float {
				return false
			}
		default:
			return false
		}
		if !textOf(c.args[0], data) {
			return false
		}
		er := rr.e.ts.mk("extract", "1", errorType, c)
		n, k := rr.e.nilness(st, er)
		if !k || !n {
			return false
		}
		if float {
			found = v == t
			return false
		}
		if v == t || rr.e.sameInt(st, v, t, false) || noLoss(rr.e, st, v, t) {
			found = true
		}
		return false
	})
	return found
}

// noLoss: v is a conversion of t to a type that holds every value that t can have.
func noLoss(e *Engine, st *State, v, t *Term) bool {
	if v.op != "conv" || v.args[0] != t {
		return false
	}
	lo, hi, ok := intRange(v.typ)
	iv := e.bounds(st, t)
	return ok && iv.lo != nil && iv.hi != nil && iv.lo.Cmp(lo) >= 0 && iv.hi.Cmp(hi) <= 0
}

// nullText: the path established that the text is one of the forms of zero.
func nullText(e *Engine, st *State, data *Term) bool {
	if isText(e, st, data, "null") {
		return true
	}
	for t, v := range st.b {
		if !v {
			continue
		}
		if t.op == "eq" {
			for i := 0; i < 2; i++ {
				if s, ok := t.args[1-i].constStr(); ok && textOf(t.args[i], data) {
					switch strings.ToLower(strings.Trim(s, `"`)) {
					case "", "0", "null":
						return true
					}
				}
			}
		}
		if t.op == "eqi" && t.aux == "0" && t.args[0].op == "len" && textOf(t.args[0].args[0], data) {
			return true
		}
		// the text parsed as zero
	}
	for t := range st.iv {
		if t.op == "len" && textOf(t.args[0], data) {
			iv := e.bounds(st, t)
			if iv.hi != nil && iv.hi.Sign() == 0 {
				return true
			}
		}
		if t.op == "extract" && t.aux == "0" {
			iv := e.bounds(st, t)
			if iv.lo != nil && iv.hi != nil && iv.lo.Sign() == 0 && iv.hi.Sign() == 0 {
				return true
			}
		}
	}
	return false
}

// ---- B06 time

func isPure(t *Term, names ...string) bool {
	if t.op != "pure" {
		return false
	}
	for _, n := range names {
		if t.aux == n {
			return true
		}
	}
	return false
}

// inUTC: the value is the zero time, or its location was set to UTC last.
func inUTC(t *Term) bool {
	if t.op == "zerostruct" {
		return true
	}
	for isPure(t, "time.(Time).Truncate", "time.(Time).Add", "time.(Time).Round") {
		t = t.args[0]
	}
	return isPure(t, "time.(Time).UTC")
}

func truncated(e *Engine, t *Term) bool {
	return t.op == "zerostruct" || t.any(func(q *Term) bool {
		return isPure(q, "time.(Time).Truncate") && q.args[1].any(func(d *Term) bool {
			return d.op == "global" && strings.HasSuffix(d.aux, ".DefaultTrucate") || d.op == "gval" && strings.HasSuffix(d.aux, ".DefaultTrucate") || d.isInt(1000000)
		})
	})
}

func runB06(r *Report) {
	p := r.p
	r.rule("every function that makes a Time or hands out its time.Time returns the zero time or one whose location is UTC")
	r.rule("the times made by Now, UTC, FromNow, Add and the parser are truncated to DefaultTrucate")
	r.rule("the text of a time is the UTC time in DefaultTimeFormat, and empty exactly for the zero time")
	for _, c := range []struct {
		typ, fn string
		trunc   bool
	}{
		{"", "Now", true}, {"", "UTC", true}, {"", "FromNow", true}, {"", "FromUnixMilli", false}, {"", "ParseTime", true},
		{"Time", "Add", true}, {"Time", "UTC", false}, {"Time", "Ptr", false},
		{"Time", "Scan", false}, {"Time", "UnmarshalJSON", false},
	} {
		var m *ssa.Function
		if c.typ == "" {
			m = p.Func("", c.fn)
		} else {
			m = p.Method("", c.typ, c.fn)
		}
		if m == nil {
			r.missing(c.typ + "." + c.fn)
			continue
		}
		rr := r.run(m, nil)
		key := "utc:" + shortFn(m)
		n := 0
		for _, x := range rr.returns() {
			var v *Term
			switch {
			case c.fn == "Scan" || c.fn == "UnmarshalJSON":
				if !rr.succeeds(x) {
					continue
				}
				v = rr.final(x, 0)
			case c.fn == "Ptr":
				v = flatTerms(x.Results)[0]
				if nn, k := rr.e.nilness(x.St, v); k && nn {
					continue
				}
				v = rr.e.load(x.St, v, ptrElem(v))
			default:
				v = flatTerms(x.Results)[0]
			}
			n++
			r.check(inUTC(v), key, x.Pos, "%s gives %s, which is not in UTC", shortFn(m), v)
			if c.trunc {
				r.check(truncated(rr.e, v), key, x.Pos, "%s gives %s, which is not truncated to DefaultTrucate", shortFn(m), v)
			}
		}
		r.check(n > 0, key, m.Pos(), "no path")
		if c.fn == "ParseTime" || c.fn == "Scan" {
			parsesText(r, rr, m)
		}
	}
	// TimePtr points to the time as it is, or in UTC
	if m := p.Func("", "TimePtr"); m == nil {
		r.missing("TimePtr")
	} else {
		rr := r.run(m, nil)
		for _, x := range rr.returns() {
			v := flatTerms(x.Results)[0]
			z, k := timeZero(rr.e, x.St, rr.args[0])
			if nn, kn := rr.e.nilness(x.St, v); kn && nn {
				r.check(k && z, "utc:TimePtr", x.Pos, "TimePtr is nil for a time that is not zero")
				continue
			}
			t := rr.e.load(x.St, v, ptrElem(v))
			for isPure(t, "time.(Time).UTC") {
				t = t.args[0]
			}
			r.check(k && !z && t == rr.args[0], "utc:TimePtr", x.Pos, "TimePtr points to %s", t)
		}
	}
	// FromUnixMilli: seconds and nanoseconds add up to the milliseconds given
	if m := p.Func("", "FromUnixMilli"); m != nil {
		rr := r.run(m, nil)
		for _, x := range rr.returns() {
			v := flatTerms(x.Results)[0]
			for isPure(v, "time.(Time).UTC", "time.(Time).Truncate") {
				v = v.args[0]
			}
			r.check(milliExact(rr.e, v, rr.args[0]), "instant:FromUnixMilli", x.Pos, "FromUnixMilli is %s, not the instant of the milliseconds given", v)
		}
	}
	if m := r.method("Time", "UnixMilli"); m != nil {
		rr := r.run(m, nil)
		for _, x := range rr.returns() {
			v := flatTerms(x.Results)[0]
			ok := isPure(v, "time.(Time).UnixMilli")
			if ok {
				b := v.args[0]
				for isPure(b, "time.(Time).UTC") {
					b = b.args[0]
				}
				ok = b == rr.args[0]
			}
			r.check(ok, "instant:UnixMilli", x.Pos, "Time.UnixMilli is %s", v)
		}
	}
	// String
	if m := r.method("Time", "String"); m != nil {
		rr := r.run(m, nil)
		for _, x := range rr.returns() {
			v := flatTerms(x.Results)[0]
			z, k := timeZero(rr.e, x.St, rr.args[0])
			if s, ok := v.constStr(); ok && s == "" {
				r.check(k && z, "text:Time", x.Pos, "Time.String is empty for a time that is not zero")
				continue
			}
			ok := isPure(v, "time.(Time).Format") && inUTC(v.args[0]) && v.args[0].contains(rr.args[0]) &&
				v.args[1].any(func(d *Term) bool { return strings.HasSuffix(d.aux, ".DefaultTimeFormat") })
			r.check(ok && k && !z, "text:Time", x.Pos, "Time.String is %s", v)
		}
	}
	// MarshalJSON: zero is "", otherwise the standard encoding of the UTC time
	if m := r.method("Time", "MarshalJSON"); m != nil {
		rr := r.run(m, nil)
		for _, x := range rr.returns() {
			v := flatTerms(x.Results)[0]
			z, k := timeZero(rr.e, x.St, rr.args[0])
			if s := bytesText(v); s != nil {
				txt, _ := s.constStr()
				r.check(txt == `""` && k && z, "json:Time", x.Pos, "Time.MarshalJSON writes %s", s)
				continue
			}
			ok := v.any(func(q *Term) bool {
				return isPure(q, "time.(Time).MarshalJSON") && inUTC(q.args[0]) && q.contains(rr.args[0])
			})
			for _, ev := range x.St.events() {
				if ev.Kind == "call" && ev.Callee == "encoding/json.Marshal" && len(ev.results()) == 2 && ev.results()[0] == v {
					if q := unIface(ev.Args[0]); q.typ != nil && typeName(q.typ) == "time.Time" && inUTC(q) && q.contains(rr.args[0]) {
						ok = true
					}
				}
			}
			r.check(ok && k && !z, "json:Time", x.Pos, "Time.MarshalJSON writes %s", v)
		}
	}
	// UnmarshalJSON stores the decoded time
	if m := r.method("Time", "UnmarshalJSON"); m != nil {
		rr := r.run(m, nil)
		for _, x := range rr.returns() {
			if !rr.succeeds(x) {
				continue
			}
			v := rr.final(x, 0)
			if v.op == "zerostruct" {
				continue
			}
			ok := false
			for _, ev := range x.St.events() {
				if ev.Kind == "call" && strings.HasPrefix(ev.Callee, "encoding/json.") && argMentions(ev, rr.args[1]) {
					for _, er := range ev.results() {
						if nn, k := rr.e.nilness(x.St, er); isErrorType(er.typ) && k && nn {
							ok = true
						}
					}
				}
			}
			ok = ok || v.contains(rr.args[1])
			r.check(ok, "json:Time", x.Pos, "Time.UnmarshalJSON stores %s, which is not decoded from the data", v)
		}
	}
}

// milliExact: t is time.UnixMilli(ms), or time.Unix of seconds and nanoseconds that add up to ms milliseconds.
func milliExact(e *Engine, t, ms *Term) bool {
	if isPure(t, "time.UnixMilli") {
		return mod64(t.args[0]) == ms
	}
	if !isPure(t, "time.Unix") || len(t.args) != 2 {
		return false
	}
	sum := linScale(toLin(t.args[0]), bi(1000000000))
	sum = linAdd(sum, toLin(t.args[1]), 1)
	// x = (x quo k)*k + (x rem k)
	for changed := true; changed; {
		changed = false
		for i, q := range sum.atoms {
			c := sum.coef[i]
			if q.op != "quo" || len(q.args) != 2 {
				continue
			}
			k, ok := q.args[1].constInt()
			if !ok || k.Sign() == 0 {
				continue
			}
			m, rest := new(big.Int).QuoRem(c, k, new(big.Int))
			if rest.Sign() != 0 {
				continue
			}
			rem := e.ts.mk("rem", q.aux, q.typ, q.args...)
			sum = linAdd(sum, linScale(toLin(q), c), -1)
			sum = linAdd(sum, linScale(toLin(q.args[0]), m), 1)
			sum = linAdd(sum, linScale(toLin(rem), m), -1)
			changed = true
			break
		}
	}
	d := linAdd(sum, linScale(toLin(ms), bi(1000000)), -1)
	return len(d.atoms) == 0 && d.c.Sign() == 0
}

// parsesText: a time made from text is the result of time.Parse of this text, without error.
func parsesText(r *Report, rr *runRes, m *ssa.Function) {
	key := "parsed:" + shortFn(m)
	for _, x := range rr.returns() {
		var v *Term
		if m.Name() == "Scan" {
			if !rr.succeeds(x) {
				continue
			}
			v = rr.final(x, 0)
		} else {
			v = flatTerms(x.Results)[0]
		}
		v.any(func(q *Term) bool {
			if q.op == "extract" && q.aux == "0" && isPure(q.args[0], "time.Parse", "time.ParseInLocation") {
				er := rr.e.ts.mk("extract", "1", errorType, q.args[0])
				n, k := rr.e.nilness(x.St, er)
				r.check(k && n, key, x.Pos, "%s gives a time although time.Parse failed", shortFn(m))
			}
			return false
		})
	}
}
