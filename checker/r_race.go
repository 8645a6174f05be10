package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// D01: the objects that goroutines share are used without data races.

func init() {
	rules["D01"] = propRule{run: runD01, title: "Shared objects are safe for concurrent use", assum: []string{
		"A provider is not closed, committed, rolled back or configured (WithConnectionString) while other calls use it; these are compared with the goroutines of the library only.",
		"The types of other modules (sql.DB, pq.Listener, loggers) are safe for concurrent use, except the buffers, readers, writers and math/rand sources of the standard library."}}
}

// access to a place of a shared object
type access struct {
	write, atomic bool
	locks         map[string]bool // held: true for writing
	class         string          // method, lifecycle, goroutine
	entry         string
	pos           token.Pos
}

type place struct {
	typ, field string // of a shared type, or "var" and the name of a package-level variable
	content    bool   // what the field refers to: elements, cells
}

func (p place) String() string {
	s := p.typ + "." + p.field
	if p.content {
		s = "what " + s + " refers to"
	}
	return s
}

type racer struct {
	r      *Report
	shared map[string]bool // qualified names of the shared types
	acc    map[place][]*access
	class  string
	entry  string
	n      int
	inline func(f *ssa.Function, depth int) bool
}

// notShared types of the standard library that are not safe for concurrent use
func unsafeStd(t types.Type) bool {
	switch typeName(t) {
	case "bytes.Buffer", "strings.Builder", "strings.Reader", "bytes.Reader", "math/rand.Rand", "math/rand/v2.Rand", "bufio.Reader", "bufio.Writer",
		"hash.Hash", "hash.Hash32", "hash.Hash64", "container/list.List", "encoding/json.Encoder", "encoding/json.Decoder", "text/tabwriter.Writer":
		return true
	}
	return false
}

// at is the shared object of an address, the place in it, and false if the address is none of a shared object.
func (c *racer) at(e *Engine, t *Term) (base *Term, pl place, ok bool) {
	content := false
	for d := 0; d < 60 && t != nil; d++ {
		if p, isP := typeOf(t).(*types.Pointer); isP && c.isShared(p.Elem()) {
			return t, place{typeName(p.Elem()), "*", content}, true
		}
		switch t.op {
		case "field":
			if p, isP := typeOf(t.args[0]).(*types.Pointer); isP && c.isShared(p.Elem()) {
				return t.args[0], place{typeName(p.Elem()), t.aux[strings.LastIndexByte(t.aux, '.')+1:], content}, true
			}
			t = t.args[0]
		case "index", "mapel", "mapok", "maplen":
			if t.op != "index" || !isArrayPtr(t.args[0]) {
				content = true
			}
			t = t.args[0]
		case "slice", "chgptr", "append", "conv":
			t = t.args[0]
		case "global":
			return t, place{"var", t.aux, content}, true
		default:
			if b, ok := e.loopEntry[t]; ok {
				t = b
				continue
			}
			a := e.readFrom(t)
			if a == nil {
				return nil, place{}, false
			}
			content = true
			t = a
		}
	}
	return nil, place{}, false
}

func (c *racer) isShared(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && c.shared[typeName(n)]
}

func typeOf(t *Term) types.Type {
	if t == nil || t.typ == nil {
		return types.Typ[types.Invalid]
	}
	return types.Unalias(t.typ)
}

// held are the locks that are held on the path, by the name of the field of the object or of the variable.
func (c *racer) held(e *Engine, st *State, base *Term) map[string]bool {
	m := map[*Term]bool{}
	for _, ev := range st.events() {
		if ev.Kind != "call" || !strings.HasPrefix(ev.Callee, "sync.(") || len(ev.Args) == 0 {
			continue
		}
		switch ev.Callee {
		case "sync.(Mutex).Lock", "sync.(RWMutex).Lock":
			m[ev.Args[0]] = true
		case "sync.(RWMutex).RLock":
			m[ev.Args[0]] = m[ev.Args[0]]
		case "sync.(Mutex).Unlock", "sync.(RWMutex).Unlock", "sync.(RWMutex).RUnlock":
			delete(m, ev.Args[0])
		}
	}
	r := map[string]bool{}
	for l, w := range m {
		name := ""
		for t := l; t != nil; {
			if base != nil && t == base {
				name = "." + name
				break
			}
			if t.op == "global" {
				name = t.aux + name
				break
			}
			if t.op == "field" {
				name = t.aux + "/" + name
				t = t.args[0]
				continue
			}
			if a := e.readFrom(t); a != nil {
				name = "->" + name
				t = a
				continue
			}
			name = ""
			break
		}
		if name != "" {
			r[name] = r[name] || w
		}
	}
	return r
}

func (c *racer) note(e *Engine, st *State, addr *Term, write, atomic bool, pos token.Pos) {
	base, pl, ok := c.at(e, addr)
	if !ok || isFresh(root(base)) {
		return
	}
	if pl.typ == "var" {
		base = nil
	}
	c.n++
	a := &access{write: write, atomic: atomic, class: c.class, entry: c.entry, pos: pos}
	a.locks = c.held(e, st, base)
	c.acc[pl] = append(c.acc[pl], a)
}

// elements of the value are changed
func (c *racer) noteContent(e *Engine, st *State, v *Term, write bool, pos token.Pos) {
	c.note(e, st, e.ts.mk("index", "", nil, v, e.ts.mk("any", "", types.Typ[types.Int])), write, false, pos)
}

var sortsInPlace = map[string]bool{
	"sort.Strings": true, "sort.Ints": true, "sort.Float64s": true, "sort.Slice": true, "sort.SliceStable": true, "sort.Sort": true, "sort.Stable": true,
	"slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true, "slices.Reverse": true, "slices.Compact": true, "slices.CompactFunc": true,
	"slices.Delete": true, "slices.DeleteFunc": true, "slices.Insert": true, "slices.Replace": true, "maps.Copy": true, "maps.DeleteFunc": true,
	"encoding/json.Unmarshal": true, "strconv.AppendInt": true,
}

func (c *racer) hook(e *Engine) {
	e.Inline = c.inline
	e.OnAccess = func(st *State, addr *Term, in ssa.Instruction) { c.note(e, st, addr, false, false, in.Pos()) }
	e.OnEvent = func(st *State, ev *Event) {
		pos := token.NoPos
		if ev.Instr != nil {
			pos = ev.Instr.Pos()
		}
		switch ev.Kind {
		case "store":
			c.note(e, st, ev.Args[0], true, false, pos)
		case "mapupdate", "delete", "clear", "copy":
			c.noteContent(e, st, ev.Args[0], true, pos)
		case "append":
			s := ev.Args[0]
			for s.op == "append" {
				s = s.args[0]
			}
			if s.op == "slice" && len(s.args) > 3 && s.args[3] != nil && s.args[3] == s.args[2] {
				return // the capacity is cut: append copies
			}
			c.noteContent(e, st, s, true, pos)
		case "call":
			c.call(e, st, ev, pos)
		}
	}
}

func (c *racer) call(e *Engine, st *State, ev *Event, pos token.Pos) {
	if strings.HasPrefix(ev.Callee, "sync.") {
		return
	}
	name := ev.Callee
	if strings.HasPrefix(name, "sync/atomic.") {
		if !strings.HasPrefix(name, "sync/atomic.(") && len(ev.Args) > 0 {
			c.note(e, st, ev.Args[0], !strings.HasPrefix(name, "sync/atomic.Load"), true, pos)
		}
		return
	}
	in := sortsInPlace[name]
	for _, a := range ev.Args {
		if a == nil || a.typ == nil {
			continue
		}
		if a.op == "iface" && len(a.args) == 1 {
			a = a.args[0]
		}
		switch typeOf(a).Underlying().(type) {
		case *types.Pointer:
			if unsafeStd(a.typ) {
				if a.op == "field" || a.op == "global" {
					c.note(e, st, a, true, false, pos)
				} else {
					c.noteContent(e, st, a, true, pos)
				}
				continue
			}
			if a.op == "field" || a.op == "index" {
				if c.shared[typeName(a.typ)] {
					continue
				}
				if n := typeName(a.typ); n != "" && !e.p.isRepoName(n) && !in {
					continue // a value of another module, that guards itself
				}
				c.note(e, st, a, true, false, pos)
			}
		case *types.Slice, *types.Map:
			if in {
				c.noteContent(e, st, a, true, pos)
			}
		default:
			if in || unsafeStd(a.typ) {
				c.noteContent(e, st, a, true, pos)
			}
		}
	}
}

func (p *Program) isRepoName(n string) bool { return strings.HasPrefix(n, modPath) }

// ---- what is shared, and the functions that goroutines call on it

// implementers of an interface in a package
func (p *Program) implementers(pkg, iface string) []*types.Named {
	in := p.Named(pkg, iface)
	if in == nil {
		return nil
	}
	it, ok := in.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	tp := p.tpkg[pkgPath(pkg)]
	var r []*types.Named
	for _, nm := range tp.Scope().Names() {
		tn, ok := tp.Scope().Lookup(nm).(*types.TypeName)
		if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
			continue
		}
		n, ok := tn.Type().(*types.Named)
		if !ok || n.TypeParams().Len() > 0 {
			continue
		}
		if types.Implements(types.NewPointer(n), it) {
			r = append(r, n)
		}
	}
	return r
}

func namedName(n *types.Named) string { return n.Obj().Pkg().Path() + "." + n.Obj().Name() }

var lifecycle = map[string]bool{"Close": true, "Commit": true, "Rollback": true, "WithConnectionString": true}

func runD01(r *Report) {
	r.rule("a place of a shared object (the ID generator, a Dialect, what copies of an ID share, a provider, a TableInfo, a listener) or a package-level variable that a function of the API or a goroutine of the library writes after construction is read and written under a common lock of the object, or atomically")
	r.rule("a goroutine of the library does not use a place that a method of the object, Close included, writes without a common lock; the function that starts it and the goroutine do not write a variable that the other uses afterwards")
	p := r.p
	c := &racer{r: r, shared: map[string]bool{}, acc: map[place][]*access{}}
	var kinds []*types.Named
	add := func(what string, l []*types.Named) {
		if len(l) == 0 {
			r.missing(what)
		}
		for _, n := range l {
			c.shared[namedName(n)] = true
			kinds = append(kinds, n)
		}
	}
	one := func(n *types.Named) []*types.Named {
		if n == nil {
			return nil
		}
		return []*types.Named{n}
	}
	add("an implementation of flake.IDGenerator", p.implementers("pkg/flake", "IDGenerator"))
	add("an implementation of xsql.SQLDialect", p.implementers("xsql", "SQLDialect"))
	add("an implementation of xdb.Provider", p.implementers("", "Provider"))
	add("an implementation of notifier.Listener", p.implementers("pkg/notifier", "Listener"))
	add("schema.TableInfo", one(p.Named("schema", "TableInfo")))
	var inID []*types.Named
	if id := p.Named("", "ID"); id != nil {
		if s, ok := id.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if pt, ok := s.Field(i).Type().(*types.Pointer); ok {
					if n, ok := types.Unalias(pt.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && p.isRepo(n.Obj().Pkg()) {
						inID = append(inID, n)
					}
				}
			}
		} else {
			inID = nil
		}
		for _, n := range inID {
			c.shared[namedName(n)] = true
			kinds = append(kinds, n)
		}
	} else {
		r.missing("xdb.ID")
	}
	// functions that work on the fields of a shared type
	touch := map[*ssa.Function]map[string]bool{}
	calls := map[*ssa.Function][]*ssa.Function{}
	vars := c.writtenVars()
	var gos []*ssa.Go
	for _, f := range p.funcs {
		if !c.library(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mark := func(n string) {
					if touch[f] == nil {
						touch[f] = map[string]bool{}
					}
					touch[f][n] = true
				}
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if n := typeName(x.X.Type()); c.shared[n] {
						mark(n)
					}
				case *ssa.Alloc: // what it returns is new
					if n := typeName(x.Type()); c.shared[n] {
						mark(n)
					}
				case *ssa.Store:
					if n := typeName(x.Val.Type()); c.shared[n] {
						if _, isP := x.Addr.Type().(*types.Pointer).Elem().(*types.Pointer); !isP {
							mark(n)
						}
					}
				case *ssa.Go:
					gos = append(gos, x)
				case ssa.CallInstruction:
					if n := ccName(x.Common()); strings.HasPrefix(n, "sync.(") && strings.HasSuffix(n, "ock") {
						mark("lock")
					}
				}
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if g, ok := (*op).(*ssa.Global); ok && vars[g] {
						mark("var")
					}
					if mc, ok := (*op).(*ssa.Function); ok && mc != f {
						calls[f] = append(calls[f], mc)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					calls[f] = append(calls[f], mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	reach := map[*ssa.Function]map[string]bool{}
	for f := range touch {
		reach[f] = cp(touch[f])
	}
	for again := true; again; {
		again = false
		for f, gs := range calls {
			for _, g := range gs {
				for n := range reach[g] {
					if reach[f] == nil {
						reach[f] = map[string]bool{}
					}
					if !reach[f][n] {
						reach[f][n] = true
						again = true
					}
				}
			}
		}
	}
	c.inline = func(f *ssa.Function, depth int) bool { return len(reach[f]) > 0 || takesContent(f) }
	entries := 0
	for _, f := range p.funcs {
		o, isDecl := f.Object().(*types.Func)
		if !c.library(f) || !isDecl || !o.Exported() || f.Parent() != nil {
			continue
		}
		uses := false
		for n := range reach[f] {
			uses = uses || n != "lock"
		}
		if !uses {
			continue
		}
		if f.Name() == "init" || f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			continue
		}
		c.class, c.entry = "method", shortFn(f)
		if rt := o.Signature().Recv(); rt != nil && lifecycle[o.Name()] && strings.HasPrefix(typeName(rt.Type()), modPath+".") {
			c.class = "lifecycle"
		}
		entries++
		r.run(f, func(e *Engine, st *State, args []*Term) { c.hook(e) })
	}
	// goroutines
	for _, g := range gos {
		fn := goTarget(g)
		if fn == nil || len(fn.Blocks) == 0 {
			if fn == nil {
				r.check(false, "go:"+shortFn(g.Parent()), g.Pos(), "the function of the go statement is not known")
			}
			continue
		}
		c.class, c.entry = "goroutine", shortFn(fn)
		r.run(fn, func(e *Engine, st *State, args []*Term) { c.hook(e) })
		c.captured(g, fn)
	}
	r.atLeast(entries, 20, "functions of the API that use shared objects")
	r.atLeast(c.n, 60, "accesses to shared objects")
	c.decide()
	var names []string
	for _, k := range kinds {
		names = append(names, namedName(k))
	}
	sort.Strings(names)
	for _, n := range names {
		r.check(true, "type:"+strings.TrimPrefix(n, modPath), token.NoPos, "")
	}
}

// takesContent: the function can change what an argument refers to.
func takesContent(f *ssa.Function) bool {
	for _, p := range f.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Pointer:
			if _, ok := t.Elem().Underlying().(*types.Struct); !ok {
				return true
			}
		case *types.Slice:
			if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() != types.Byte {
				return true
			}
		case *types.Map:
			return true
		}
	}
	return false
}

// library: not a command, a mock or generated example.
func (c *racer) library(f *ssa.Function) bool {
	tp := pkgOf(f)
	if tp == nil || !c.r.p.isRepo(tp) || c.r.p.isMock(tp) {
		return false
	}
	path := strings.TrimPrefix(tp.Path(), modPath)
	return tp.Name() != "main" && !strings.HasPrefix(path, "/internal/") && !strings.HasPrefix(path, "/cmd/") && !strings.HasPrefix(path, "/testdata")
}

// writtenVars are the package-level variables that functions other than initialisers write.
func (c *racer) writtenVars() map[*ssa.Global]bool {
	r := map[*ssa.Global]bool{}
	for _, f := range c.r.p.funcs {
		if !c.library(f) || isInitFn(f) || onceBody(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var w []ssa.Value
				switch x := in.(type) {
				case *ssa.Store:
					w = append(w, x.Addr)
				case *ssa.MapUpdate:
					w = append(w, x.Map)
				case ssa.CallInstruction:
					cc := x.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "copy", "delete", "clear":
							w = append(w, cc.Args[0])
						}
					} else {
						n := ccName(cc)
						if strings.HasPrefix(n, "sync.") || strings.HasPrefix(n, "sync/atomic.") {
							continue
						}
						for _, a := range cc.Args {
							if sortsInPlace[n] || unsafeStd(a.Type()) {
								w = append(w, a)
								continue
							}
							if g, ok := a.(*ssa.Global); ok {
								w = append(w, g)
							}
							if fa, ok := a.(*ssa.FieldAddr); ok && !selfGuarded(fa.Type()) {
								w = append(w, fa)
							}
						}
					}
				}
				for _, v := range w {
					if g := globalOf(v, 0); g != nil && !selfGuarded(g.Type()) {
						r[g] = true
					}
				}
			}
		}
	}
	return r
}

func selfGuarded(t types.Type) bool {
	n := typeName(t)
	return strings.HasPrefix(n, "sync.") || strings.HasPrefix(n, "sync/atomic.")
}

func isInitFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
}

// onceBody: the function literal is run by a sync.Once.
func onceBody(f *ssa.Function) bool {
	if f.Parent() == nil {
		return false
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || !strings.HasPrefix(ccName(ci.Common()), "sync.") || !strings.Contains(ccName(ci.Common()), "Once") {
				continue
			}
			for _, a := range ci.Common().Args {
				if a == ssa.Value(f) {
					return true
				}
				if mc, ok := a.(*ssa.MakeClosure); ok && mc.Fn == f {
					return true
				}
			}
		}
	}
	return false
}

// globalOf is the variable that the address or value belongs to.
func globalOf(v ssa.Value, d int) *ssa.Global {
	if d > 20 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Global:
		return x
	case *ssa.FieldAddr:
		return globalOf(x.X, d+1)
	case *ssa.IndexAddr:
		return globalOf(x.X, d+1)
	case *ssa.Slice:
		return globalOf(x.X, d+1)
	case *ssa.MakeInterface:
		return globalOf(x.X, d+1)
	case *ssa.ChangeType:
		return globalOf(x.X, d+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return globalOf(x.X, d+1)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if _, isPhi := e.(*ssa.Phi); isPhi {
				continue
			}
			if g := globalOf(e, d+1); g != nil {
				return g
			}
		}
	}
	return nil
}

func goTarget(g *ssa.Go) *ssa.Function {
	if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
		return mc.Fn.(*ssa.Function)
	}
	return g.Call.StaticCallee()
}

// ---- variables that a function shares with the goroutine it starts

func (c *racer) captured(g *ssa.Go, fn *ssa.Function) {
	mc, ok := g.Call.Value.(*ssa.MakeClosure)
	if !ok {
		return
	}
	for i, b := range mc.Bindings {
		fv := fn.FreeVars[i]
		w, rd := varUses(fv, map[ssa.Value]bool{})
		key := fmt.Sprintf("captured:%s:%s", shortFn(fn), fv.Name())
		after := reachableAfter(g, b)
		uses := b.Referrers()
		if uses == nil {
			continue
		}
		if _, isP := b.Type().(*types.Pointer); !isP {
			continue
		}
		switch b.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
		default:
			continue
		}
		c.r.check(true, key, g.Pos(), "")
		for _, u := range *uses {
			if !after[u] {
				continue
			}
			switch x := u.(type) {
			case *ssa.Store:
				if x.Addr == b {
					c.r.check(!(w || rd) || synced(g, u, fn), key, u.Pos(), "%s is written after the goroutine that uses it was started", fv.Name())
				}
			case *ssa.UnOp:
				c.r.check(!w || synced(g, u, fn), key, u.Pos(), "%s is read after the goroutine that writes it was started", fv.Name())
			}
		}
	}
}

// varUses of a captured variable, in the closures of the function too.
func varUses(v ssa.Value, seen map[ssa.Value]bool) (w, r bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return
	}
	for _, u := range *refs {
		switch x := u.(type) {
		case *ssa.Store:
			if x.Addr == v {
				w = true
			}
		case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr:
			r = true
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v {
					w1, r1 := varUses(f.FreeVars[i], seen)
					w, r = w || w1, r || r1
				}
			}
		}
	}
	return
}

// reachableAfter are the instructions that can follow the go statement for the same instance of the variable.
func reachableAfter(g *ssa.Go, v ssa.Value) map[ssa.Instruction]bool {
	r := map[ssa.Instruction]bool{}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int)
	walk = func(b *ssa.BasicBlock, from int) {
		if from == 0 {
			if seen[b] {
				return
			}
			seen[b] = true
		}
		for _, in := range b.Instrs[from:] {
			if iv, ok := in.(ssa.Value); ok && iv == v {
				return
			}
			r[in] = true
		}
		for _, s := range b.Succs {
			walk(s, 0)
		}
	}
	for i, in := range g.Block().Instrs {
		if in == ssa.Instruction(g) {
			walk(g.Block(), i+1)
		}
	}
	return r
}

// synced: between the go statement and the use the function waits (for a channel, a WaitGroup), or both sides lock.
func synced(g *ssa.Go, use ssa.Instruction, fn *ssa.Function) bool {
	locks := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && strings.HasPrefix(ccName(ci.Common()), "sync.(") && strings.HasSuffix(ccName(ci.Common()), "Lock") {
					return true
				}
			}
		}
		return false
	}
	f := g.Parent()
	waits := func(in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.UnOp:
			return x.Op == token.ARROW
		case *ssa.Select:
			return true
		case *ssa.Call:
			n := ccName(&x.Call)
			return n == "sync.(WaitGroup).Wait" || strings.HasSuffix(n, "errgroup.(Group).Wait") || locks(fn) && strings.HasPrefix(n, "sync.(") && strings.HasSuffix(n, "Lock")
		}
		return false
	}
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			if !waits(in) {
				continue
			}
			if b == use.Block() {
				for j, o := range b.Instrs {
					if o == use && i < j {
						return true
					}
				}
			} else if b.Dominates(use.Block()) {
				return true
			}
		}
	}
	return false
}

// ---- the decision

func (c *racer) decide() {
	var ps []place
	for pl := range c.acc {
		ps = append(ps, pl)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].String() < ps[j].String() })
	whole := func(pl place) []*access {
		if pl.field == "*" || pl.typ == "var" {
			return nil
		}
		return c.acc[place{pl.typ, "*", pl.content}]
	}
	for _, pl := range ps {
		l := append(append([]*access{}, c.acc[pl]...), whole(pl)...)
		said := map[[2]token.Pos]bool{}
		key := "place:" + strings.ReplaceAll(strings.TrimPrefix(pl.String(), modPath), modPath, "")
		for _, a := range l {
			if !a.write {
				c.r.check(true, key, a.pos, "")
				continue
			}
			for _, b := range l {
				if !conflict(a.class, b.class) || a.atomic && b.atomic {
					continue
				}
				if common(a, b) {
					c.r.check(true, key, a.pos, "")
					continue
				}
				if said[[2]token.Pos{a.pos, b.pos}] {
					continue
				}
				said[[2]token.Pos{a.pos, b.pos}] = true
				how := "read"
				if b.write {
					how = "written"
				}
				c.r.check(false, key, a.pos, "%s is written (by %s) and %s at %s (by %s) without a common lock", strings.ReplaceAll(pl.String(), modPath, "xdb"), a.entry, how, c.r.p.pos(b.pos), b.entry)
			}
		}
	}
}

// conflict: calls of the two classes run at the same time.
func conflict(a, b string) bool {
	if a == "lifecycle" || b == "lifecycle" {
		return a == "goroutine" || b == "goroutine"
	}
	return true
}

func common(a, b *access) bool {
	for l, w := range a.locks {
		v, ok := b.locks[l]
		if ok && w && (v || !b.write) {
			return true
		}
	}
	return false
}
