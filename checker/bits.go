package main

import (
	"go/types"
	"math/big"
)

// A bit of an integer term: a constant, or bit i of an atomic term, or unknown.
type bit struct {
	kind byte // '0', '1', 'a' (atom), '!' (negated atom), '?' unknown
	t    *Term
	i    int
}

var bit0, bit1, bitX = bit{kind: '0'}, bit{kind: '1'}, bit{kind: '?'}

func widthOf(t types.Type) (w int, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, false
	}
	signed = b.Info()&types.IsUnsigned == 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8, signed
	case types.Int16, types.Uint16:
		return 16, signed
	case types.Int32, types.Uint32:
		return 32, signed
	}
	return 64, signed
}

// bitsOf is the two's complement representation of the term in 64 bits, sign extended.
func (e *Engine) bitsOf(st *State, t *Term) (r [64]bit) {
	if c, ok := t.constInt(); ok {
		m := new(big.Int).And(c, new(big.Int).SetUint64(^uint64(0)))
		for i := range r {
			r[i] = bit0
			if m.Bit(i) == 1 {
				r[i] = bit1
			}
		}
		return
	}
	fill := func(b bit) {
		for i := range r {
			r[i] = b
		}
	}
	// cut keeps w bits and extends
	cut := func(T types.Type) {
		w, signed := widthOf(T)
		for i := w; i < 64; i++ {
			r[i] = bit0
			if signed {
				r[i] = r[w-1]
			}
		}
	}
	switch t.op {
	case "and", "or", "xor", "andnot":
		a, b := e.bitsOf(st, t.args[0]), e.bitsOf(st, t.args[1])
		for i := range r {
			r[i] = bitOp(t.op, a[i], b[i])
		}
		return
	case "shl", "shr":
		a := e.bitsOf(st, t.args[0])
		c, ok := t.args[1].constInt()
		if !ok || c.Sign() < 0 {
			fill(bitX)
			return
		}
		n := 64
		if c.IsInt64() && c.Int64() < 64 {
			n = int(c.Int64())
		}
		for i := range r {
			j := i - n
			if t.op == "shr" {
				j = i + n
			}
			switch {
			case j >= 0 && j < 64:
				r[i] = a[j]
			case t.op == "shr" && t.typ != nil:
				r[i] = bit0
				if _, signed := widthOf(t.typ); signed {
					r[i] = a[63]
				}
			default:
				r[i] = bit0
			}
		}
		if t.typ != nil {
			cut(t.typ)
		}
		return
	case "conv":
		if len(t.args) == 1 && t.typ != nil && isInteger(t.typ) && t.args[0].typ != nil && isInteger(t.args[0].typ) {
			r = e.bitsOf(st, t.args[0])
			cut(t.typ)
			return
		}
	case "lin":
		// a sum of numbers with disjoint bits
		l := toLin(t)
		ok := true
		acc := e.bitsOf(st, e.ts.bigTerm(l.c))
		for k, a := range l.atoms {
			c := l.coef[k]
			if c.Sign() <= 0 || new(big.Int).And(c, new(big.Int).Sub(c, bi(1))).Sign() != 0 {
				ok = false
				break
			}
			sh := c.BitLen() - 1
			ab := e.bitsOf(st, a)
			for i := 63; i >= sh; i-- {
				x := ab[i-sh]
				switch {
				case x.kind == '0':
				case acc[i].kind == '0':
					acc[i] = x
				default:
					ok = false
				}
			}
		}
		if ok {
			r = acc
			if t.typ != nil {
				cut(t.typ)
			}
			return
		}
		// the sum itself is the atom
	case "mul", "rem", "quo":
		fill(bitX)
		return
	}
	w, signed := 64, false
	if t.typ != nil {
		w, signed = widthOf(t.typ)
	}
	for i := range r {
		switch {
		case i < w:
			r[i] = bit{kind: 'a', t: t, i: i}
		case signed:
			r[i] = bit{kind: 'a', t: t, i: w - 1}
		default:
			r[i] = bit0
		}
	}
	// a bounded number has leading zeros
	if st != nil {
		if iv := e.bounds(st, t); iv.lo != nil && iv.lo.Sign() >= 0 && iv.hi != nil {
			for i := iv.hi.BitLen(); i < 64; i++ {
				r[i] = bit0
			}
		}
	}
	return
}

func bitNot(a bit) bit {
	switch a.kind {
	case '0':
		return bit1
	case '1':
		return bit0
	case 'a':
		a.kind = '!'
		return a
	case '!':
		a.kind = 'a'
		return a
	}
	return bitX
}

func bitOp(op string, a, b bit) bit {
	switch op {
	case "andnot":
		return bitOp("and", a, bitNot(b))
	case "and":
		switch {
		case a.kind == '0' || b.kind == '0':
			return bit0
		case a.kind == '1':
			return b
		case b.kind == '1':
			return a
		case a.kind != '?' && a == b:
			return a
		case a.kind != '?' && a == bitNot(b):
			return bit0
		}
	case "or":
		switch {
		case a.kind == '1' || b.kind == '1':
			return bit1
		case a.kind == '0':
			return b
		case b.kind == '0':
			return a
		case a.kind != '?' && a == b:
			return a
		case a.kind != '?' && a == bitNot(b):
			return bit1
		}
	case "xor":
		switch {
		case a.kind == '0':
			return b
		case b.kind == '0':
			return a
		case a.kind == '1':
			return bitNot(b)
		case b.kind == '1':
			return bitNot(a)
		case a.kind != '?' && a == b:
			return bit0
		}
	}
	return bitX
}

// truthBit reduces a comparison of a bit expression with zero, or of two bit expressions, to one bit.
func (e *Engine) truthBit(st *State, t *Term) bit {
	if st != nil {
		if v, k := e.evalBool(st, t); k {
			if v {
				return bit1
			}
			return bit0
		}
	}
	switch {
	case t.op == "not":
		return bitNot(e.truthBit(st, t.args[0]))
	case t.op == "eqi" || t.op == "le":
		c, ok := new(big.Int).SetString(t.aux, 10)
		if !ok {
			break
		}
		if t.op == "le" {
			// x <= 0 of a natural number x
			b, isB := t.args[0].typ.Underlying().(*types.Basic)
			if c.Sign() != 0 || !isB || b.Info()&types.IsUnsigned == 0 {
				break
			}
		}
		x, y := e.bitsOf(st, t.args[0]), e.bitsOf(st, e.ts.bigTerm(c))
		eq := bit1
		for i := range x {
			eq = bitOp("and", eq, bitNot(bitOp("xor", x[i], y[i])))
			if eq.kind == '0' {
				return eq
			}
		}
		return eq
	}
	return bit{kind: 'a', t: t}
}
