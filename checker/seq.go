package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Contents of lists as sequences of pieces: parts of lists as they were at the start of the replay, and single elements.
// The replay follows append, copy and stores to elements of a path, in order.

type part struct {
	base   *Term // part [lo, hi) of the list
	lo, hi *Term
	elem   *Term // or a single element
	sub    seq   // or part [lo, hi) of another sequence, when its bounds fall at an undecided place
}

type seq []part

func (s seq) String() string {
	var l []string
	for _, p := range s {
		switch {
		case p.elem != nil:
			l = append(l, p.elem.String())
		case p.sub != nil:
			l = append(l, fmt.Sprintf("(%s)[%s:%s]", p.sub, p.lo, p.hi))
		default:
			l = append(l, fmt.Sprintf("%s[%s:%s]", p.base, p.lo, p.hi))
		}
	}
	return strings.Join(l, " ++ ")
}

type seqs struct {
	e        *Engine
	st       *State
	content  map[*Term]seq
	isString bool
	depth    int
}

func (e *Engine) newSeqs(st *State) *seqs { return &seqs{e: e, st: st, content: map[*Term]seq{}} }

var tInt = types.Typ[types.Int]

func (s *seqs) diff(a, b *Term) *Term { return s.e.ts.sub(a, b, tInt) }

// le: a <= b, if known
func (s *seqs) le(a, b *Term) bool {
	iv := s.e.bounds(s.st, s.diff(a, b))
	return iv.hi != nil && iv.hi.Sign() <= 0
}

func (s *seqs) eq(a, b *Term) bool {
	if a == b {
		return true
	}
	iv := s.e.bounds(s.st, s.diff(a, b))
	return iv.lo != nil && iv.hi != nil && iv.lo.Sign() == 0 && iv.hi.Sign() == 0
}

func (s *seqs) plus(a, b *Term) *Term { return s.e.ts.add(a, b, tInt) }

func (s *seqs) lenPiece(p part) *Term {
	if p.elem != nil {
		return s.e.ts.intTerm(1)
	}
	return s.diff(p.hi, p.lo)
}

func (s *seqs) length(q seq) *Term {
	r := s.e.ts.intTerm(0)
	for _, p := range q {
		r = s.plus(r, s.lenPiece(p))
	}
	return r
}

// slice is q[lo:hi].
func (s *seqs) slice(q seq, lo, hi *Term) seq {
	if s.eq(lo, hi) {
		return nil
	}
	var r seq
	off := s.e.ts.intTerm(0)
	for i, p := range q {
		n := s.lenPiece(p)
		end := s.plus(off, n)
		if s.le(end, lo) { // before
			off = end
			continue
		}
		if s.le(hi, off) {
			return r
		}
		startIn := s.le(off, lo) // lo is at or after the start of the piece
		wholeLo := s.le(lo, off) // the piece starts inside
		wholeHi := s.le(end, hi) // the piece ends inside
		endIn := s.le(hi, end)   // hi is at or before the end of the piece
		if !(startIn || wholeLo) || !(wholeHi || endIn) || startIn && !wholeLo && !s.le(lo, end) || endIn && !wholeHi && !s.le(off, hi) {
			// undecided: keep the rest as part of the remaining sequence
			rest := q[i:]
			l, h := s.diff(lo, off), s.diff(hi, off)
			if wholeLo {
				l = s.e.ts.intTerm(0)
			}
			return append(r, part{sub: rest, lo: l, hi: h})
		}
		np := p
		if p.elem == nil {
			if !wholeLo {
				np.lo = s.plus(p.lo, s.diff(lo, off))
			}
			if !wholeHi {
				np.hi = s.plus(p.lo, s.diff(hi, off))
			}
		}
		if p.sub != nil {
			// try again with the new bounds
			r = append(r, s.slice(p.sub, np.lo, np.hi)...)
		} else {
			r = append(r, np)
		}
		off = end
	}
	return r
}

// of is the content of the list term.
func (s *seqs) of(t *Term) seq {
	if q, ok := s.content[t]; ok {
		return q
	}
	zero := s.e.ts.intTerm(0)
	switch t.op {
	case "nil":
		return nil
	case "const":
		if x, ok := t.constStr(); ok && x == "" {
			return nil
		}
	case "slicelit":
		var r seq
		for _, a := range t.args {
			r = append(r, part{elem: a})
		}
		return r
	case "append":
		if t.aux == "..." {
			return append(append(seq{}, s.of(t.args[0])...), s.of(t.args[1])...)
		}
		r := append(seq{}, s.of(t.args[0])...)
		for _, a := range t.args[1:] {
			r = append(r, part{elem: a})
		}
		return r
	case "slice":
		q := s.of(t.args[0])
		lo, hi := t.args[1], t.args[2]
		if lo.op == "nil" {
			lo = zero
		}
		if hi.op == "nil" {
			hi = s.e.lenOf(t.args[0])
		}
		return s.slice(q, lo, hi)
	case "concat":
		var r seq
		for _, a := range t.args {
			r = append(r, s.of(a)...)
		}
		return r
	}
	n := s.e.lenOf(t)
	if n.isInt(0) {
		return nil
	}
	return seq{{base: t, lo: zero, hi: n}}
}

// place is the list behind t and the offset of t in it.
func (s *seqs) place(t *Term) (*Term, *Term) {
	off := s.e.ts.intTerm(0)
	for t.op == "slice" {
		if _, ok := s.content[t]; ok {
			break
		}
		if t.args[1].op != "nil" {
			off = s.plus(off, t.args[1])
		}
		t = t.args[0]
	}
	return t, off
}

// write replaces the content of the list behind dst from its start.
func (s *seqs) write(dst *Term, add seq) {
	r, off := s.place(dst)
	q := s.of(r)
	n := s.length(q)
	end := s.plus(off, s.length(add))
	res := append(seq{}, s.slice(q, s.e.ts.intTerm(0), off)...)
	res = append(res, add...)
	res = append(res, s.slice(q, end, n)...)
	s.content[r] = res
}

// replay follows the events.
func (s *seqs) replay(evs []*Event) {
	for _, ev := range evs {
		switch ev.Kind {
		case "append":
			if ev.Result == nil {
				continue
			}
			q := append(seq{}, s.of(ev.Args[0])...)
			s.content[ev.Result] = append(q, s.of(ev.Args[1])...)
		case "copy":
			dst, src := s.of(ev.Args[0]), s.of(ev.Args[1])
			ld, ls := s.length(dst), s.length(src)
			switch {
			case s.le(ls, ld):
				s.write(ev.Args[0], src)
			case s.le(ld, ls):
				s.write(ev.Args[0], s.slice(src, s.e.ts.intTerm(0), ld))
			default:
				r, _ := s.place(ev.Args[0])
				s.content[r] = seq{{base: s.e.ts.mk("undecided", fmt.Sprint(len(s.content)), r.typ, r), lo: s.e.ts.intTerm(0), hi: s.length(s.of(r))}}
			}
		case "call":
			// functions of package slices
			if ev.Result == nil || len(ev.Args) == 0 {
				continue
			}
			arg := func(i int) seq {
				if ev.Vals != nil && ev.Vals[i] != nil {
					return s.of(ev.Vals[i])
				}
				return s.of(ev.Args[i])
			}
			switch name, _, _ := strings.Cut(ev.Callee, "["); {
			case name == "slices.Insert" && len(ev.Args) == 3:
				q := arg(0)
				i := ev.Args[1]
				res := append(seq{}, s.slice(q, s.e.ts.intTerm(0), i)...)
				res = append(res, arg(2)...)
				s.content[ev.Result] = append(res, s.slice(q, i, s.length(q))...)
			case name == "slices.Clone" && len(ev.Args) == 1:
				s.content[ev.Result] = append(seq{}, arg(0)...)
			case name == "slices.Concat" && len(ev.Args) == 1:
				if l := ev.Vals; l != nil && l[0] != nil && l[0].op == "slicelit" {
					var res seq
					for _, a := range l[0].args {
						res = append(res, s.of(a)...)
					}
					s.content[ev.Result] = res
				}
			}
		case "store":
			a := ev.Args[0]
			if a.op == "index" && len(a.args) == 2 && a.args[0].typ != nil {
				if _, ok := a.args[0].typ.Underlying().(*types.Slice); ok {
					r, off := s.place(a.args[0])
					q := s.of(r)
					i := s.plus(off, a.args[1])
					one := s.e.ts.intTerm(1)
					res := append(seq{}, s.slice(q, s.e.ts.intTerm(0), i)...)
					res = append(res, part{elem: ev.Args[1]})
					res = append(res, s.slice(q, s.plus(i, one), s.length(q))...)
					s.content[r] = res
				}
			}
		}
	}
}

// norm drops empty pieces and joins adjacent ones.
func (s *seqs) norm(q seq) seq {
	if s.depth > 16 {
		return q
	}
	s.depth++
	defer func() { s.depth-- }()
	var r seq
	for _, p := range q {
		if p.elem == nil && s.eq(p.lo, p.hi) {
			continue
		}
		if p.sub != nil {
			n := s.norm(s.slice(p.sub, p.lo, p.hi))
			if len(n) != 1 || n[0].sub == nil {
				for _, x := range n {
					r = append(r, x)
				}
				continue
			}
		}
		if k := len(r) - 1; k >= 0 && p.base != nil && r[k].base == p.base && s.eq(r[k].hi, p.lo) {
			r[k].hi = p.hi
			continue
		}
		r = append(r, p)
	}
	return r
}

// same: the sequences are equal on the path.
func (s *seqs) same(a, b seq) bool {
	a, b = s.norm(a), s.norm(b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		switch {
		case x.elem != nil || y.elem != nil:
			if x.elem != y.elem {
				return false
			}
		case x.sub != nil || y.sub != nil:
			return false
		default:
			if x.base != y.base || !s.eq(x.lo, y.lo) || !s.eq(x.hi, y.hi) {
				return false
			}
		}
	}
	return true
}
