package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// reaches returns the repository functions from which, along static calls and closures, a call satisfying pred is reachable.
func (p *Program) reaches(pred func(c *ssa.CallCommon) bool) map[*ssa.Function]bool {
	return p.reachesBy(pred, func(f, g *ssa.Function) bool { return true })
}

// reachesBy follows the calls of g by f for which edge holds only.
func (p *Program) reachesBy(pred func(c *ssa.CallCommon) bool, edge func(f, g *ssa.Function) bool) map[*ssa.Function]bool {
	direct := map[*ssa.Function]bool{}
	rev := map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					rev[mc.Fn.(*ssa.Function)] = append(rev[mc.Fn.(*ssa.Function)], f)
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if pred(c.Common()) {
					direct[f] = true
				}
				if s := c.Common().StaticCallee(); s != nil {
					if o := s.Origin(); o != nil {
						s = o
					}
					if edge(f, s) {
						rev[s] = append(rev[s], f)
					}
				}
			}
		}
	}
	r := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if r[f] {
			return
		}
		r[f] = true
		for _, g := range rev[f] {
			visit(g)
		}
	}
	for f := range direct {
		visit(f)
	}
	return r
}

// ccName is the qualified name of a call without knowledge of the state.
func ccName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return ifaceMethodName(c.Method)
	}
	if s := c.StaticCallee(); s != nil {
		return fnName(s)
	}
	return "dynamic"
}

func pkgOf(f *ssa.Function) *types.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if f.Object() != nil {
		return f.Object().Pkg()
	}
	return nil
}

// effectFree: the function changes no memory that exists before the call.
func (p *Program) effectFree(f *ssa.Function) bool {
	if v, ok := p.effFree[f]; ok {
		return v
	}
	if p.effFree == nil {
		p.effFree = map[*ssa.Function]bool{}
	}
	p.effFree[f] = true // for recursion
	v := p.effectFree1(f)
	p.effFree[f] = v
	return v
}

func (p *Program) effectFree1(f *ssa.Function) bool {
	if len(f.Blocks) == 0 || f.Recover != nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				a := x.Addr
				for {
					if fa, ok := a.(*ssa.FieldAddr); ok {
						a = fa.X
					} else if ia, ok := a.(*ssa.IndexAddr); ok {
						a = ia.X
					} else {
						break
					}
				}
				if _, ok := a.(*ssa.Alloc); !ok {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.RunDefers, *ssa.MakeClosure:
				return false
			case *ssa.Call:
				c := x.Common()
				if b, ok := c.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "len", "cap", "min", "max":
						continue
					}
					return false
				}
				s := c.StaticCallee()
				if s == nil {
					return false
				}
				if p.isRepoFn(s) {
					if !p.effectFree(s) {
						return false
					}
				} else if !isPureExternal(fnName(s)) {
					return false
				}
			}
		}
	}
	return true
}
