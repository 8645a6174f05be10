package main

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// contract helpers: symbolic runs of a method with chosen arguments

type runRes struct {
	e     *Engine
	fn    *ssa.Function
	args  []*Term
	exits []*Exit
}

// returns of the run that are not panics
func (rr *runRes) returns() []*Exit {
	var r []*Exit
	for _, x := range rr.exits {
		if !x.Panic {
			r = append(r, x)
		}
	}
	return r
}

// succeeds reports whether the exit can return a nil error.
func (rr *runRes) succeeds(x *Exit) bool {
	ret, ok := errResult(rr.fn, x)
	if !ok {
		return true
	}
	n, k := rr.e.nilness(x.St, ret)
	return !k || n
}

// fails reports whether the exit can return a non-nil error.
func (rr *runRes) fails(x *Exit) bool {
	ret, ok := errResult(rr.fn, x)
	if !ok {
		return false
	}
	n, k := rr.e.nilness(x.St, ret)
	return !k || !n
}

// run executes fn; setup may add facts to the initial state and replace arguments.
func (r *Report) run(fn *ssa.Function, setup func(e *Engine, st *State, args []*Term)) *runRes {
	e := newEngine(r.p)
	st := newState()
	args := e.Params(fn)
	if setup != nil {
		setup(e, st, args)
	}
	rr := &runRes{e: e, fn: fn, args: args}
	rr.exits = e.Run(fn, st, args)
	r.done(e, rr.exits)
	return rr
}

// again runs another function on the state of an exit, with the same engine.
func (rr *runRes) again(x *Exit, fn *ssa.Function, args []*Term) *runRes {
	r2 := &runRes{e: rr.e, fn: fn, args: args}
	r2.exits = rr.e.Run(fn, x.St.clone(), args)
	return r2
}

// final is the value stored at the pointer argument i at the exit.
func (rr *runRes) final(x *Exit, i int) *Term {
	a := rr.args[i]
	return rr.e.load(x.St, a, a.typ.Underlying().(*types.Pointer).Elem())
}

func bi(n int64) *big.Int { return big.NewInt(n) }

func basic(k types.BasicKind) types.Type { return types.Typ[k] }

var byteSlice = types.NewSlice(types.Typ[types.Byte])

// mod64 strips reinterpretations between 64-bit integer types.
func mod64(t *Term) *Term {
	for t.op == "conv" && len(t.args) == 1 && t.typ != nil && t.args[0].typ != nil &&
		isInteger(t.typ) && isInteger(t.args[0].typ) && sameWidth(t.typ, t.args[0].typ) {
		t = t.args[0]
	}
	return t
}

// sameInt: the terms are the same number on the path; with wrap also the same 64-bit pattern.
func (e *Engine) sameInt(st *State, a, b *Term, wrap bool) bool {
	if wrap {
		a, b = mod64(a), mod64(b)
	}
	a, b = e.unconv(st, a), e.unconv(st, b)
	if a == b {
		return true
	}
	if v, k := e.evalBool(st, e.eqTerm(a, b, types.Typ[types.Int64])); k && v {
		return true
	}
	if wrap {
		// equal as 64-bit patterns
		for _, t := range []types.Type{types.Typ[types.Uint64], types.Typ[types.Int64]} {
			if v, k := e.evalBool(st, e.eqTerm(a, e.ts.mk("conv", typeKey(t), t, b), t)); k && v {
				return true
			}
			if v, k := e.evalBool(st, e.eqTerm(e.ts.mk("conv", typeKey(t), t, a), b, t)); k && v {
				return true
			}
		}
	}
	return false
}

// unconv drops conversions of integers that the type of the conversion can hold.
func (e *Engine) unconv(st *State, t *Term) *Term {
	for t.op == "conv" && len(t.args) == 1 && t.typ != nil && isInteger(t.typ) && t.args[0].typ != nil && isInteger(t.args[0].typ) {
		lo, hi, ok := intRange(t.typ)
		iv := e.bounds(st, t.args[0])
		if !ok || iv.lo == nil || iv.hi == nil || iv.lo.Cmp(lo) < 0 || iv.hi.Cmp(hi) > 0 {
			break
		}
		t = t.args[0]
	}
	return t
}

// isZeroTerm: the term is the zero value on the path.
func (e *Engine) isZeroTerm(st *State, t *Term, T types.Type) (zero, known bool) {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return e.evalBool(st, e.eqTerm(t, e.ts.intTerm(0), T))
		case u.Info()&types.IsBoolean != 0:
			v, k := e.evalBool(st, t)
			return !v, k
		case u.Info()&types.IsString != 0:
			return e.evalBool(st, e.eqTerm(t, e.ts.strTerm(""), T))
		default:
			if z := e.zero(T); t == z {
				return true, true
			}
			return e.evalBool(st, e.eqTerm(t, e.zero(T), T))
		}
	case *types.Slice, *types.Map, *types.Pointer, *types.Interface, *types.Chan, *types.Signature:
		return e.nilness(st, t)
	case *types.Struct:
		if t.op == "zerostruct" {
			return true, true
		}
		if t.op == "struct" {
			for _, f := range t.args {
				if f.typ == nil {
					if f.isNil() {
						continue
					}
					return false, false
				}
				if z, k := e.isZeroTerm(st, f, f.typ); !k || !z {
					return z, k
				}
			}
			return true, true
		}
	}
	return false, false
}

// constrain adds lo <= t <= hi to the state.
func (e *Engine) constrain(st *State, t *Term, lo, hi *big.Int) {
	e.addIv(st, t, interval{lo, hi})
}
