package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tokEQL = token.EQL

// Engine runs the abstract interpretation of one entry function.
type Engine struct {
	p          *Program
	ts         *Terms
	immutable  map[*ssa.Global]bool
	globalInit map[*ssa.Global]*Term

	// policy
	Inline    func(fn *ssa.Function, depth int) bool
	OnCall    func(x *Engine, st *State, c *Call) *Outcome    // model of an opaque call; nil for the default
	OnEvent   func(st *State, ev *Event)                      // called in the recording pass only
	OnAccess  func(st *State, addr *Term, in ssa.Instruction) // reads of memory, recording pass only
	loopEntry map[*Term]*Term                                 // loop-carried values before the loop
	FieldMaps bool                                            // lookups in and updates of maps in fields are recorded like those of a sync.Map
	OnBack    func(st *State, rec *LoopRec)                   // back edges, recording pass only
	Impure    map[string]bool                                 // pure functions that are recorded as calls, each with its own result
	OnConv    func(st *State, instr ssa.Instruction, from *Term, src, dst types.Type)
	OnInstr   func(st *State, instr ssa.Instruction, ctx string) // before an instruction
	MayPanic  func(c *Call) bool
	Unroll    int      // loops that are known to end after as many rounds are followed round by round
	MaxLen    *big.Int // bound of the length of lists and texts, if assumed
	MaxStates int
	MaxDepth  int

	quiet    int
	Joined   bool
	Steps    int
	fnsSeen  map[*ssa.Function]bool
	calls    int
	problems []string
	epochN   int
}

func newEngine(p *Program) *Engine {
	e := &Engine{p: p, ts: newTerms(), immutable: p.immutable, globalInit: map[*ssa.Global]*Term{}, MaxStates: 400, MaxDepth: 16,
		fnsSeen: map[*ssa.Function]bool{}}
	e.Inline = func(fn *ssa.Function, depth int) bool { return true }
	return e
}

func (e *Engine) isRepoPkg(p *types.Package) bool { return e.p.isRepo(p) }

func (e *Engine) problem(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	for _, p := range e.problems {
		if p == s {
			return
		}
	}
	e.problems = append(e.problems, s)
}

// Call describes a call at a point of the path.
type Call struct {
	Instr  ssa.CallInstruction
	Common *ssa.CallCommon
	Fn     *ssa.Function // static or devirtualised callee
	Name   string        // pkg.Func, (pkg.Type).Method or (iface).Method
	Args   []*Term       // receiver first
	ArgT   []types.Type
	Dyn    *Term // closure or function value
	Ctx    string
	Site   string
	Defer  bool
	Go     bool
}

// Outcome is the effect of a modelled call.
type Outcome struct {
	States  []*State
	Results []*Term // one per state
	Panics  []*State
}

// Exit of a function.
type Exit struct {
	St      *State
	Results []*Term
	Panic   bool
	Pos     token.Pos
	Fn      *ssa.Function
}

type frame struct {
	fn    *ssa.Function
	ctx   string
	depth int
	li    *loopInfo
	stack []*ssa.Function
	binds []*Term
}

// LoopRec describes one loop after the fixpoint.
type LoopRec struct {
	Header *ssa.BasicBlock
	Fn     *ssa.Function
	Ctx    string
	Blocks map[*ssa.BasicBlock]bool
	Slots  map[string]*Recur
	Base   *logNode
	Iters  [][]*Event // events of the complete iterations
	Backs  []*State   // states at back edges
	key    string
}

// Recur is a loop-carried value: sym at the head, entry before the loop, backs at the back edges.
type Recur struct {
	Slot  string
	Sym   *Term
	Entry *Term
	Backs []*Term
	Phi   *ssa.Phi
	Addr  *Term
}

// Run analyses fn with the given arguments (nil: symbolic parameters).
func (e *Engine) Run(fn *ssa.Function, st *State, args []*Term) []*Exit {
	if st == nil {
		st = newState()
	}
	if args == nil {
		args = e.Params(fn)
	}
	fr := &frame{fn: fn, ctx: "", stack: []*ssa.Function{fn}}
	return e.runFunc(fr, st, args, nil)
}

// Params returns symbolic parameters.
func (e *Engine) Params(fn *ssa.Function) []*Term {
	var r []*Term
	for i, p := range fn.Params {
		r = append(r, e.ts.mk("param", fmt.Sprintf("%d:%s", i, p.Name()), p.Type()))
	}
	return r
}

func (e *Engine) runFunc(fr *frame, st *State, args []*Term, binds []*Term) []*Exit {
	fn := fr.fn
	e.fnsSeen[fn] = true
	fr.li = e.p.loops(fn)
	fr.binds = binds
	saveEnv, saveDef := st.env, st.defers
	st.env = map[ssa.Value]*Term{}
	st.defers = nil
	for i, p := range fn.Params {
		if i < len(args) {
			st.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			st.env[fv] = binds[i]
		} else {
			st.env[fv] = e.ts.mk("freevar", fn.String()+"#"+fv.Name(), fv.Type())
		}
	}
	var exits []*Exit
	r := e.runRegion(fr, nil, map[*ssa.BasicBlock][]edge{fn.Blocks[0]: {{nil, fn.Blocks[0], st}}}, &exits)
	if len(r) != 0 {
		e.problem("irreducible control flow in %s", fn)
	}
	for i, x := range exits {
		if i == 0 {
			x.St.env = saveEnv
		} else {
			x.St.env = cp(saveEnv)
		}
		x.St.defers = saveDef[:len(saveDef):len(saveDef)]
	}
	return exits
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}

// runRegion executes the blocks of a loop (or the whole function when loop is nil).
// It returns the edges that leave the region, including back edges to the header.
func (e *Engine) runRegion(fr *frame, loop *loopT, in map[*ssa.BasicBlock][]edge, exits *[]*Exit) []edge {
	var out []edge
	pending := in
	emit := func(ed edge) {
		if loop != nil && (ed.to == loop.header || !loop.blocks[ed.to]) {
			out = append(out, ed)
			return
		}
		pending[ed.to] = append(pending[ed.to], ed)
	}
	order := fr.li.rpo
	for _, b := range order {
		if loop != nil && !loop.blocks[b] {
			continue
		}
		eds := pending[b]
		if len(eds) == 0 {
			continue
		}
		delete(pending, b)
		if inner := fr.li.headers[b]; inner != nil && inner != loop {
			for _, ed := range e.runLoop(fr, inner, eds, exits) {
				emit(ed)
			}
			continue
		}
		sts := make([]*State, 0, len(eds))
		for _, ed := range eds {
			if ed.from != nil && !(loop != nil && b == loop.header) {
				e.phis(fr, ed)
			}
			sts = append(sts, ed.st)
		}
		sts = e.limit(fr, b, sts)
		for _, st := range sts {
			for _, ed := range e.runBlock(fr, b, st, exits) {
				emit(ed)
			}
		}
	}
	return out
}

func (e *Engine) phis(fr *frame, ed edge) {
	idx := -1
	for i, p := range ed.to.Preds {
		if p == ed.from {
			idx = i
			break
		}
	}
	vals := map[*ssa.Phi]*Term{}
	for _, in := range ed.to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[phi] = e.val(fr, ed.st, phi.Edges[idx])
	}
	for p, v := range vals {
		ed.st.env[p] = v
	}
}

func (e *Engine) limit(fr *frame, b *ssa.BasicBlock, sts []*State) []*State {
	if len(sts) <= e.MaxStates {
		return sts
	}
	e.Joined = true
	groups := map[string][]*State{}
	var keys []string
	for _, s := range sts {
		k := s.ghostKey()
		if groups[k] == nil {
			keys = append(keys, k)
		}
		groups[k] = append(groups[k], s)
	}
	var r []*State
	for _, k := range keys {
		g := groups[k]
		s := g[0]
		if len(g) > 1 {
			s = e.joinStates(fmt.Sprintf("J:%s:%s#%d", fr.ctx, fr.fn.Name(), b.Index), g)
		}
		r = append(r, s)
	}
	return r
}

// joinStates merges states; values that differ become fresh symbols.
func (e *Engine) joinStates(id string, g []*State) *State {
	r := g[0].clone()
	for v := range r.env {
		t := r.env[v]
		for _, s := range g[1:] {
			if s.env[v] != t {
				if s.env[v] == nil {
					delete(r.env, v)
				} else {
					r.env[v] = e.joinSym(r, id, "v:"+v.Name(), v.Type(), t, s.env[v])
				}
				break
			}
		}
	}
	addrs := map[*Term]bool{}
	for _, s := range g {
		for a := range s.mem {
			addrs[a] = true
		}
	}
	e.mergeKills(r, id, g)
	for _, a := range sortedTerms(addrs) {
		var vals []*Term
		for _, s := range g {
			vals = append(vals, e.peek(s, a))
		}
		same := true
		for _, v := range vals {
			if v != vals[0] || v == nil {
				same = false
			}
		}
		if same {
			r.mem[a] = vals[0]
		} else {
			r.mem[a] = e.joinSym(r, id, fmt.Sprintf("m:%d", a.id), locType(a), vals...)
		}
	}
	for _, s := range g[1:] {
		for t := range s.esc {
			r.esc[t] = true
		}
		intersectFacts(r, s)
	}
	return r
}

func (e *Engine) mergeKills(r *State, id string, g []*State) {
	n := len(g[0].kills)
	for _, s := range g[1:] {
		i := 0
		for i < n && i < len(s.kills) && s.kills[i] == g[0].kills[i] {
			i++
		}
		n = i
	}
	var many []*kill
	for _, s := range g {
		many = append(many, s.kills[n:]...)
	}
	r.kills = append([]*kill(nil), g[0].kills[:n]...)
	if len(many) > 0 {
		r.kills = append(r.kills, &kill{kind: "many", id: id, many: dedupKills(many)})
	}
	r.bornBefore(n)
}

// bornBefore: what was made after the first n kills is taken to be made before those that were merged.
func (s *State) bornBefore(n int) {
	for t, b := range s.born {
		if b > n {
			s.born[t] = n
		}
	}
}

func dedupKills(ks []*kill) []*kill {
	seen := map[string]bool{}
	var r []*kill
	var add func(k *kill)
	add = func(k *kill) {
		if k.kind == "many" {
			for _, x := range k.many {
				add(x)
			}
			return
		}
		key := k.kind
		if k.addr != nil {
			key += fmt.Sprint(k.addr.id)
		}
		for _, o := range sortedTerms(k.objs) {
			key += fmt.Sprintf(",%d", o.id)
		}
		if !seen[key] {
			seen[key] = true
			r = append(r, k)
		}
	}
	for _, k := range ks {
		add(k)
	}
	return r
}

func sortedTerms[V any](m map[*Term]V) []*Term {
	r := make([]*Term, 0, len(m))
	for t := range m {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func intersectFacts(r, s *State) {
	for t, v := range r.b {
		if w, ok := s.b[t]; !ok || w != v {
			delete(r.b, t)
		}
	}
	for t, v := range r.iv {
		w, ok := s.iv[t]
		if !ok {
			delete(r.iv, t)
			continue
		}
		if w.lo == nil || v.lo != nil && w.lo.Cmp(v.lo) < 0 {
			v.lo = w.lo
		}
		if w.hi == nil || v.hi != nil && w.hi.Cmp(v.hi) > 0 {
			v.hi = w.hi
		}
		if v.lo == nil && v.hi == nil {
			delete(r.iv, t)
		} else {
			r.iv[t] = v
		}
	}
	for t, v := range r.eqc {
		if s.eqc[t] != v {
			delete(r.eqc, t)
		}
	}
	for t, v := range r.dyn {
		if w := s.dyn[t]; w == nil || !types.Identical(v, w) {
			delete(r.dyn, t)
		}
	}
}

func (e *Engine) joinSym(st *State, id, slot string, typ types.Type, vals ...*Term) *Term {
	for _, v := range vals {
		if v != nil && isFresh(root(v)) {
			e.escape(st, v)
		}
	}
	if s := e.decompose(typ); s != nil {
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			var fv []*Term
			name := typeKey(typ) + "." + s.Field(i).Name()
			for _, v := range vals {
				if v != nil {
					fv = append(fv, e.fieldOf(v, name, s.Field(i).Type()))
				} else {
					fv = append(fv, nil)
				}
			}
			same := len(fv) > 0 && fv[0] != nil
			for _, v := range fv {
				if v != fv[0] {
					same = false
				}
			}
			if same {
				fs = append(fs, fv[0])
			} else {
				fs = append(fs, e.joinSym(st, id, slot+"."+s.Field(i).Name(), s.Field(i).Type(), fv...))
			}
		}
		return e.mkStruct(typ, fs)
	}
	return e.ts.mk("loop", id+"/"+slot, typ)
}

func locType(a *Term) types.Type {
	switch a.op {
	case "mapel":
		if m, ok := a.args[0].typ.Underlying().(*types.Map); ok {
			return m.Elem()
		}
	case "mapok":
		return types.Typ[types.Bool]
	case "maplen":
		return types.Typ[types.Int]
	}
	return ptrElem(a)
}

// peek is the value at addr without recording the load.
func (e *Engine) peek(st *State, addr *Term) *Term {
	if v, ok := st.mem[addr]; ok {
		return v
	}
	t := locType(addr)
	if t == nil {
		return nil
	}
	r := root(addr)
	if isFresh(r) {
		if _, ok := st.born[r]; !ok {
			return nil
		}
	}
	v := e.load(st, addr, t)
	delete(st.mem, addr)
	return v
}

// ---- loops

func (e *Engine) runLoop(fr *frame, lp *loopT, entries []edge, exits *[]*Exit) []edge {
	var out []edge
	// entry states are handled one by one, so the facts of each path are kept
	if len(entries) > e.MaxStates/4+1 {
		for _, ed := range entries {
			if ed.from != nil {
				e.phis(fr, ed)
			}
		}
		var sts []*State
		for _, ed := range entries {
			sts = append(sts, ed.st)
		}
		groups := map[string][]*State{}
		var keys []string
		for _, s := range sts {
			k := s.ghostKey()
			if groups[k] == nil {
				keys = append(keys, k)
			}
			groups[k] = append(groups[k], s)
		}
		e.Joined = true
		for _, k := range keys {
			s := groups[k][0]
			if len(groups[k]) > 1 {
				s = e.joinStates(fmt.Sprintf("J:%s:%s#%d", fr.ctx, fr.fn.Name(), lp.header.Index), groups[k])
			}
			out = append(out, e.loopFrom(fr, lp, s, exits)...)
		}
		return out
	}
	for _, ed := range entries {
		if ed.from != nil {
			e.phis(fr, ed)
		}
		if e.Unroll > 0 && lp.header.Parent() == fr.fn {
			e.quiet++
			_, ok := e.unrolled(fr, lp, ed.st.clone(), &[]*Exit{})
			e.quiet--
			if ok {
				es, _ := e.unrolled(fr, lp, ed.st, exits)
				out = append(out, es...)
				continue
			}
		}
		out = append(out, e.loopFrom(fr, lp, ed.st, exits)...)
	}
	return out
}

// unrolled follows the rounds of a loop one by one, if it is known to end soon.
func (e *Engine) unrolled(fr *frame, lp *loopT, st *State, exits *[]*Exit) ([]edge, bool) {
	var out []edge
	ctx := fr.ctx
	defer func() { fr.ctx = ctx }()
	sts := []*State{st}
	for k := 0; len(sts) > 0; k++ {
		if k > e.Unroll || len(sts) > e.MaxStates {
			return nil, false
		}
		fr.ctx = fmt.Sprintf("%s~%d", ctx, k)
		var next []*State
		for _, s := range sts {
			for _, ed := range e.runRegion(fr, lp, map[*ssa.BasicBlock][]edge{lp.header: {{nil, lp.header, s}}}, exits) {
				if ed.to == lp.header {
					e.phis(fr, ed)
					next = append(next, ed.st)
					continue
				}
				out = append(out, ed)
			}
		}
		sts = next
	}
	return out, true
}

type slotVal struct {
	slot  string
	phi   ssa.Value
	addr  *Term
	entry *Term
}

func (e *Engine) loopFrom(fr *frame, lp *loopT, entry *State, exits *[]*Exit) []edge {
	id := fmt.Sprintf("L:%s:%s#%d", fr.ctx, fr.fn.Name(), lp.header.Index)
	heads := map[string]*State{entry.ghostKey(): entry}
	order := []string{entry.ghostKey()}
	recs := map[string]*LoopRec{}
	for iter := 0; ; iter++ {
		if iter > 30 {
			e.problem("no fixpoint for the loop at %s", e.p.pos(lp.header.Instrs[0].Pos()))
			return nil
		}
		changed := false
		e.quiet++
		backs := map[string][]*State{}
		var border []string
		for _, k := range order {
			var sink []*Exit
			es := e.runRegion(fr, lp, map[*ssa.BasicBlock][]edge{lp.header: {{nil, lp.header, heads[k].clone()}}}, &sink)
			for _, ed := range es {
				if ed.to == lp.header {
					e.phis(fr, ed)
					bk := ed.st.ghostKey()
					if backs[bk] == nil {
						border = append(border, bk)
					}
					backs[bk] = append(backs[bk], ed.st)
				}
			}
		}
		e.quiet--
		for _, bk := range border {
			h := heads[bk]
			first := h == nil
			if first {
				h = backs[bk][0].clone()
				h.log = entry.log
				order = append(order, bk)
			}
			nh, ch := e.widen(fr, lp, id, entry, h, backs[bk], first)
			heads[bk] = nh
			if ch || first {
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	// recording pass
	var out []edge
	type part struct {
		k  string
		es []edge
		ex []*Exit
	}
	var all []*State
	var hs []*State
	slots := map[string]*Recur{}
	rec := &LoopRec{Header: lp.header, Fn: fr.fn, Ctx: fr.ctx, Blocks: lp.blocks, Slots: slots, key: id}
	for _, k := range order {
		h := heads[k].clone()
		h.log = entry.log
		h.event(&Event{Kind: "loop", Ctx: fr.ctx, Loop: rec, Instr: lp.header.Instrs[0]})
		base := h.log
		hs = append(hs, h.clone())
		for _, in := range lp.header.Instrs {
			if phi, ok := in.(*ssa.Phi); ok && h.env[phi] != nil && h.env[phi].op == "loop" && entry.env[phi] != nil {
				if e.loopEntry == nil {
					e.loopEntry = map[*Term]*Term{}
				}
				e.loopEntry[h.env[phi]] = entry.env[phi]
			}
		}
		es := e.runRegion(fr, lp, map[*ssa.BasicBlock][]edge{lp.header: {{nil, lp.header, h}}}, exits)
		for _, ed := range es {
			if ed.to == lp.header {
				e.phis(fr, ed)
				rec.Iters = append(rec.Iters, logSince(ed.st.log, base))
				all = append(all, ed.st)
				continue
			}
			out = append(out, ed)
		}
		rec.Base = base
	}
	rec.Backs = all
	// recurrences
	for _, in := range lp.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r := &Recur{Slot: "v:" + phi.Name(), Phi: phi, Entry: entry.env[phi], Sym: hs[0].env[phi]}
		for _, b := range all {
			r.Backs = append(r.Backs, b.env[phi])
		}
		slots[r.Slot] = r
	}
	for _, a := range sortedTerms(hs[0].mem) {
		v := hs[0].mem[a]
		if v.op == "loop" && strings.HasPrefix(v.aux, id+"/") {
			r := &Recur{Slot: fmt.Sprintf("m:%d", a.id), Addr: a, Entry: e.peek(entry, a), Sym: v}
			for _, b := range all {
				r.Backs = append(r.Backs, e.peek(b, a))
			}
			slots[r.Slot] = r
		}
	}
	_ = recs
	if e.quiet == 0 && e.OnBack != nil {
		for _, b := range all {
			e.OnBack(b, rec)
		}
	}
	return out
}

// bodyTerm reports if t denotes a value produced inside the loop in this context.
func (e *Engine) bodyTerm(fr *frame, lp *loopT, t *Term, memo map[*Term]bool) bool {
	if v, ok := memo[t]; ok {
		return v
	}
	memo[t] = false
	r := false
	if t.site != nil {
		// site terms carry "ctx@fn#b.i" in aux
		if e.siteInLoop(fr, lp, t.aux) {
			r = true
		}
	}
	if t.op == "ld" && t.aux != "" && e.siteInLoop(fr, lp, t.aux) {
		r = true
	}
	if t.op == "loop" && e.loopSymInside(fr, lp, t.aux) {
		r = true
	}
	if !r {
		for _, a := range t.args {
			if e.bodyTerm(fr, lp, a, memo) {
				r = true
				break
			}
		}
	}
	memo[t] = r
	return r
}

func (e *Engine) siteInLoop(fr *frame, lp *loopT, aux string) bool {
	// sites inlined below this frame start with ctx + "@" + fn#b.i
	pre := fr.ctx + "@" + fr.fn.String() + "#"
	if !strings.HasPrefix(aux, pre) {
		return false
	}
	rest := aux[len(pre):]
	n := 0
	for n < len(rest) && rest[n] >= '0' && rest[n] <= '9' {
		n++
	}
	var bi int
	fmt.Sscanf(rest[:n], "%d", &bi)
	for b := range lp.blocks {
		if b.Index == bi {
			return true
		}
	}
	return false
}

func (e *Engine) loopSymInside(fr *frame, lp *loopT, aux string) bool {
	// "L:ctx:fn#hdr/slot" of a loop nested in this one, or in a callee inlined in this loop
	if !strings.HasPrefix(aux, "L:") && !strings.HasPrefix(aux, "J:") {
		return false
	}
	a := aux[2:]
	if strings.HasPrefix(a, fr.ctx+":"+fr.fn.Name()+"#") {
		var bi int
		fmt.Sscanf(a[len(fr.ctx+":"+fr.fn.Name()+"#"):], "%d", &bi)
		for b := range lp.blocks {
			if b.Index == bi && b != lp.header {
				return true
			}
		}
		return false
	}
	return e.siteInLoop(fr, lp, a)
}

func (e *Engine) widen(fr *frame, lp *loopT, id string, entry, h *State, backs []*State, fresh bool) (*State, bool) {
	memo := map[*Term]bool{}
	body := func(t *Term) bool { return t == nil || e.bodyTerm(fr, lp, t, memo) }
	r := h.clone()
	changed := fresh
	type rc struct {
		sym   *Term
		entry *Term
		backs []*Term
		typ   types.Type
	}
	var rcs []rc
	merge := func(slot string, typ types.Type, cur *Term, entryV *Term, bs []*Term) *Term {
		same := cur != nil && !body(cur)
		for _, b := range bs {
			if b != cur {
				same = false
			}
		}
		if same {
			return cur
		}
		if cur != nil && cur.op == "loop" && cur.aux == id+"/"+slot {
			rcs = append(rcs, rc{cur, entryV, bs, typ})
			return cur
		}
		s := e.joinSym(r, id, slot, typ, append([]*Term{cur}, bs...)...)
		if s.op == "loop" {
			rcs = append(rcs, rc{s, entryV, bs, typ})
		}
		return s
	}
	for _, in := range lp.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var bs []*Term
		for _, b := range backs {
			bs = append(bs, b.env[phi])
		}
		v := merge("v:"+phi.Name(), phi.Type(), h.env[phi], entry.env[phi], bs)
		if v != h.env[phi] {
			changed = true
			r.env[phi] = v
		}
	}
	// drop registers of the body
	for v := range r.env {
		if in, ok := v.(ssa.Instruction); ok && in.Block() != nil && in.Parent() == fr.fn && lp.blocks[in.Block()] {
			if _, isPhi := v.(*ssa.Phi); !isPhi || in.Block() != lp.header {
				delete(r.env, v)
			}
		}
	}
	// kills
	n := len(entry.kills)
	var many []*kill
	for _, s := range append([]*State{h}, backs...) {
		k := 0
		for k < n && k < len(s.kills) && s.kills[k] == entry.kills[k] {
			k++
		}
		if k < n {
			n = k
		}
	}
	for _, s := range append([]*State{h}, backs...) {
		many = append(many, s.kills[n:]...)
	}
	if len(many) > 0 {
		many = dedupKills(many)
		// locations rooted at objects of the body do not matter after the iteration
		prev := 0
		if len(h.kills) > 0 && h.kills[len(h.kills)-1].id == id {
			prev = len(h.kills[len(h.kills)-1].many)
		}
		var keep []*kill
		for _, k := range many {
			if k.kind == "addr" && body(k.addr) {
				if o := root(k.addr); isFresh(o) && body(o) {
					continue
				}
				// generalise: any location that may alias
				keep = append(keep, k)
				continue
			}
			keep = append(keep, k)
		}
		if len(keep) > 0 {
			r.kills = append(append([]*kill(nil), entry.kills[:n]...), &kill{kind: "many", id: id, many: keep})
			r.bornBefore(n)
			if len(keep) != prev {
				changed = true
			}
		}
	}
	// memory
	addrs := map[*Term]bool{}
	for _, s := range append([]*State{h}, backs...) {
		for a := range s.mem {
			addrs[a] = true
		}
	}
	for _, a := range sortedTerms(addrs) {
		if body(a) {
			delete(r.mem, a)
			continue
		}
		_, had := h.mem[a]
		cur := e.peekOld(entry, h, a)
		var bs []*Term
		for _, b := range backs {
			bs = append(bs, e.peek(b, a))
		}
		t := locType(a)
		if t == nil {
			delete(r.mem, a)
			continue
		}
		v := merge(fmt.Sprintf("m:%d", a.id), t, cur, e.peek(entry, a), bs)
		if had && v != h.mem[a] || !had && v != cur {
			changed = true
		}
		if had || v != cur {
			r.mem[a] = v
		} else {
			r.mem[a] = v
		}
	}
	// facts
	nb, niv, ne, nd := len(r.b), len(r.iv), len(r.eqc), len(r.dyn)
	oldIv := cp(r.iv)
	if fresh {
		intersectFacts(r, entry)
	}
	for _, b := range backs {
		intersectFacts(r, b)
		for t := range b.esc {
			if !r.esc[t] && !body(t) {
				r.esc[t] = true
				changed = true
			}
		}
	}
	for t := range r.b {
		if body(t) {
			delete(r.b, t)
		}
	}
	for t, v := range r.iv {
		if body(t) {
			delete(r.iv, t)
			continue
		}
		// widening: an unstable bound is dropped
		o := oldIv[t]
		if o.lo != nil && (v.lo == nil || v.lo.Cmp(o.lo) != 0) {
			v.lo = nil
		}
		if o.hi != nil && (v.hi == nil || v.hi.Cmp(o.hi) != 0) {
			v.hi = nil
		}
		if v.lo == nil && v.hi == nil {
			delete(r.iv, t)
		} else {
			r.iv[t] = v
		}
	}
	for t := range r.eqc {
		if body(t) {
			delete(r.eqc, t)
		}
	}
	for t := range r.dyn {
		if body(t) {
			delete(r.dyn, t)
		}
	}
	// monotone recurrences
	for _, c := range rcs {
		if c.entry == nil || !isInteger(c.typ) {
			continue
		}
		inc, dec := true, true
		for _, b := range c.backs {
			if b == nil {
				inc, dec = false, false
				break
			}
			d := linAdd(toLin(b), toLin(c.sym), -1)
			iv := e.atomOnly(d)
			if iv.lo == nil || iv.lo.Sign() < 0 {
				inc = false
			}
			if iv.hi == nil || iv.hi.Sign() > 0 {
				dec = false
			}
		}
		if len(c.backs) == 0 {
			continue
		}
		d := linAdd(toLin(c.sym), toLin(c.entry), -1)
		if len(d.atoms) == 0 {
			continue
		}
		v, sign, k := e.ts.varPart(d)
		// sign*v + k >= 0 (inc) or <= 0 (dec)
		setb := func(ge bool) {
			var iv interval
			x := new(big.Int).Mul(new(big.Int).Neg(k), big.NewInt(int64(sign)))
			if ge == (sign > 0) {
				iv.lo = x
			} else {
				iv.hi = x
			}
			r.iv[v] = r.iv[v].meet(iv)
		}
		if inc {
			setb(true)
		}
		if dec {
			setb(false)
		}
	}
	if len(r.b) != nb || len(r.eqc) != ne || len(r.dyn) != nd {
		changed = true
	}
	if len(r.iv) != niv {
		changed = true
	} else {
		for t, v := range r.iv {
			o := oldIv[t]
			if !sameBig(o.lo, v.lo) || !sameBig(o.hi, v.hi) {
				changed = true
			}
		}
	}
	return r, changed
}

func sameBig(a, b *big.Int) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Cmp(b) == 0
}

// atomOnly bounds a linear term by the types of its atoms.
func (e *Engine) atomOnly(l lin) interval {
	return e.atomSum(&State{iv: map[*Term]interval{}}, l)
}

func (e *Engine) peekOld(entry, h *State, a *Term) *Term {
	if v, ok := h.mem[a]; ok {
		return v
	}
	return e.peek(h, a)
}

// ---- blocks

func (e *Engine) site(fr *frame, in ssa.Instruction) string {
	b := in.Block()
	i := 0
	for k, x := range b.Instrs {
		if x == in {
			i = k
			break
		}
	}
	return fmt.Sprintf("%s@%s#%d.%d", fr.ctx, fr.fn.String(), b.Index, i)
}

func (e *Engine) runBlock(fr *frame, b *ssa.BasicBlock, st *State, exits *[]*Exit) []edge {
	return e.runFrom(fr, b, 0, st, exits)
}

func (e *Engine) runFrom(fr *frame, b *ssa.BasicBlock, start int, st *State, exits *[]*Exit) []edge {
	for i := start; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		e.Steps++
		if e.Steps > 40_000_000 {
			e.problem("analysis budget exhausted in %s", fr.fn)
			return nil
		}
		if e.OnInstr != nil && e.quiet == 0 {
			e.OnInstr(st, in, fr.ctx)
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := e.val(fr, st, x.Cond)
			if v, k := e.evalBool(st, c); k {
				n := 1
				if v {
					n = 0
				}
				e.assume(st, c, v)
				return []edge{{b, b.Succs[n], st}}
			}
			var out []edge
			st2 := st.clone()
			if e.assume(st, c, true) {
				out = append(out, edge{b, b.Succs[0], st})
			}
			if e.assume(st2, c, false) {
				out = append(out, edge{b, b.Succs[1], st2})
			}
			return out
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], st}}
		case *ssa.Return:
			var rs []*Term
			for _, r := range x.Results {
				rs = append(rs, e.val(fr, st, r))
			}
			*exits = append(*exits, &Exit{St: st, Results: rs, Pos: x.Pos(), Fn: fr.fn})
			return nil
		case *ssa.Panic:
			st.event(&Event{Kind: "panic", Instr: x, Ctx: fr.ctx, Args: []*Term{e.val(fr, st, x.X)}})
			e.panicExit(fr, st, x.Pos(), exits)
			return nil
		case *ssa.RunDefers:
			sts := e.runDefers(fr, st, exits)
			if len(sts) == 1 {
				st = sts[0]
				continue
			}
			var out []edge
			for _, s := range sts {
				out = append(out, e.runFrom(fr, b, i+1, s, exits)...)
			}
			return out
		case *ssa.Call:
			res := e.call(fr, st, x, &x.Call, x, exits)
			if len(res) == 1 {
				st = res[0]
				continue
			}
			var out []edge
			for _, s := range res {
				out = append(out, e.runFrom(fr, b, i+1, s, exits)...)
			}
			return out
		default:
			e.instr(fr, st, in)
		}
	}
	return nil
}

func (e *Engine) panicExit(fr *frame, st *State, pos token.Pos, exits *[]*Exit) {
	for _, s := range e.runDefers(fr, st, exits) {
		*exits = append(*exits, &Exit{St: s, Panic: true, Pos: pos, Fn: fr.fn})
	}
}

func (e *Engine) runDefers(fr *frame, st *State, exits *[]*Exit) []*State {
	ds := st.defers
	st.defers = nil
	sts := []*State{st}
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		var next []*State
		for _, s := range sts {
			c := &Call{Instr: d.instr, Common: &d.instr.Call, Args: d.args, Dyn: d.callee, Ctx: fr.ctx, Site: e.site(fr, d.instr), Defer: true}
			for _, x := range e.dispatch(fr, s, c) {
				if x.Panic {
					*exits = append(*exits, x)
					continue
				}
				next = append(next, x.St)
			}
		}
		sts = next
	}
	return sts
}

// call handles a call instruction; the result is bound in each returned state.
func (e *Engine) call(fr *frame, st *State, instr ssa.CallInstruction, cc *ssa.CallCommon, dst ssa.Value, exits *[]*Exit) []*State {
	c := &Call{Instr: instr, Common: cc, Ctx: fr.ctx, Site: e.site(fr, instr)}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		var args []*Term
		for _, a := range cc.Args {
			args = append(args, e.val(fr, st, a))
		}
		if n := b.Name(); (n == "min" || n == "max") && len(args) == 2 && isInteger(cc.Args[0].Type()) && !(args[0].isConst() && args[1].isConst()) {
			// the two cases
			le := e.le0(linAdd(toLin(args[0]), toLin(args[1]), -1))
			var out []*State
			for i, s := range []*State{st.clone(), st} {
				if e.assume(s, le, i == 0) {
					s.env[dst] = args[0]
					if (i == 0) == (n == "max") {
						s.env[dst] = args[1]
					}
					out = append(out, s)
				}
			}
			return out
		}
		st.env[dst] = e.builtin(fr, st, instr, b, cc, args, c.Site)
		return []*State{st}
	}
	e.evalCall(fr, st, c)
	var out []*State
	for _, x := range e.dispatch(fr, st, c) {
		if x.Panic {
			// a panic of the callee unwinds this frame
			e.panicExit(fr, x.St, x.Pos, exits)
			continue
		}
		x.St.env[dst] = e.tupleOf(x.Results, dst.Type())
		out = append(out, x.St)
	}
	return out
}

func (e *Engine) tupleOf(rs []*Term, t types.Type) *Term {
	if tt, ok := t.(*types.Tuple); ok {
		if len(rs) == 1 && tt.Len() != 1 {
			return rs[0]
		}
		return e.ts.mk("tuple", "", t, rs...)
	}
	if len(rs) == 0 {
		return e.ts.mk("tuple", "", t)
	}
	return rs[0]
}

func (e *Engine) evalCall(fr *frame, st *State, c *Call) {
	cc := c.Common
	if cc.IsInvoke() {
		c.Args = append(c.Args, e.val(fr, st, cc.Value))
		c.ArgT = append(c.ArgT, cc.Value.Type())
	} else {
		c.Dyn = e.val(fr, st, cc.Value)
	}
	for _, a := range cc.Args {
		c.Args = append(c.Args, e.val(fr, st, a))
		c.ArgT = append(c.ArgT, a.Type())
	}
}

// dispatch resolves and executes a call; the exits have St and Results.
func (e *Engine) dispatch(fr *frame, st *State, c *Call) []*Exit {
	cc := c.Common
	e.calls++
	var binds []*Term
	if c.ArgT == nil {
		if cc.IsInvoke() {
			c.ArgT = append(c.ArgT, cc.Value.Type())
		}
		for _, a := range cc.Args {
			c.ArgT = append(c.ArgT, a.Type())
		}
	}
	if cc.IsInvoke() {
		recv := c.Args[0]
		c.Name = ifaceMethodName(cc.Method)
		D := types.Type(nil)
		var rv *Term
		if recv.op == "iface" {
			D, rv = recv.T, recv.args[0]
		} else if d := st.dyn[recv]; d != nil {
			D = d
			rv = e.unbox(recv, d)
		} else if d := e.p.soleImpl(cc.Value.Type()); d != nil {
			D = d
			rv = e.unbox(recv, d)
		}
		if D != nil {
			if f := e.p.prog.LookupMethod(D, cc.Method.Pkg(), cc.Method.Name()); f != nil {
				c.Fn = f
				c.Name = fnName(f)
				c.Args = append([]*Term{rv}, c.Args[1:]...)
				c.ArgT = append([]types.Type{D}, c.ArgT[1:]...)
			}
		}
	} else if f := cc.StaticCallee(); f != nil && cc.Value != nil {
		if _, isFn := cc.Value.(*ssa.Function); isFn {
			c.Fn = f
		} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			c.Fn = mc.Fn.(*ssa.Function)
			if c.Dyn != nil && c.Dyn.op == "closure" {
				binds = c.Dyn.args
			}
		}
		c.Name = fnName(c.Fn)
	} else if c.Dyn != nil {
		switch c.Dyn.op {
		case "closure":
			c.Fn = c.Dyn.fn
			binds = c.Dyn.args
			c.Name = fnName(c.Fn)
		case "func":
			c.Fn = c.Dyn.fn
			c.Name = fnName(c.Fn)
		default:
			c.Name = "dynamic"
		}
	}
	// rule models first
	if e.OnCall != nil {
		if o := e.OnCall(e, st, c); o != nil {
			return e.outcome(c, o)
		}
	}
	if f := c.Fn; f != nil {
		body := f
		if len(body.Blocks) == 0 && body.Origin() != nil {
			body = body.Origin()
		}
		if len(body.Blocks) > 0 && e.p.isRepoFn(body) && fr.depth < e.MaxDepth && !onStack(fr.stack, body) && e.Inline(body, fr.depth+1) {
			sub := &frame{fn: body, ctx: c.Site, depth: fr.depth + 1, stack: append(fr.stack[:len(fr.stack):len(fr.stack)], body)}
			args := c.Args
			return e.runFunc(sub, st, args, binds)
		}
	}
	return e.outcome(c, e.opaque(st, c))
}

func onStack(s []*ssa.Function, f *ssa.Function) bool {
	for _, x := range s {
		if x == f {
			return true
		}
	}
	return false
}

func (e *Engine) outcome(c *Call, o *Outcome) []*Exit {
	var r []*Exit
	for i, s := range o.States {
		x := &Exit{St: s, Pos: c.Instr.Pos()}
		if i < len(o.Results) && o.Results[i] != nil {
			t := o.Results[i]
			if t.op == "tuple" {
				x.Results = t.args
				if len(t.args) == 1 {
					x.Results = t.args
				}
			} else {
				x.Results = []*Term{t}
			}
		}
		r = append(r, x)
	}
	for _, s := range o.Panics {
		r = append(r, &Exit{St: s, Panic: true, Pos: c.Instr.Pos()})
	}
	return r
}

func (e *Engine) unbox(x *Term, T types.Type) *Term {
	if x.op == "iface" && types.Identical(x.T, T) {
		return x.args[0]
	}
	t := e.ts.mk("unbox", typeKey(T), T, x)
	t.T = T
	return t
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "dynamic"
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Synthetic != "" {
		// wrapper or thunk of a declared method
		if o, ok := f.Object().(*types.Func); ok {
			return objName(o)
		}
	}
	if o, ok := f.Object().(*types.Func); ok {
		return objName(o)
	}
	return f.String()
}

// objName is pkg.Func or pkg.(Type).Method for a declared function.
func objName(o *types.Func) string {
	o = o.Origin()
	sig := o.Type().(*types.Signature)
	pkg := ""
	if o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	if r := sig.Recv(); r != nil {
		t := types.Unalias(r.Type())
		if p, ok := t.(*types.Pointer); ok {
			t = types.Unalias(p.Elem())
		}
		if n, ok := t.(*types.Named); ok {
			if n.Obj().Pkg() != nil {
				pkg = n.Obj().Pkg().Path()
			} else {
				pkg = ""
			}
			return pkg + ".(" + n.Obj().Name() + ")." + o.Name()
		}
		return pkg + ".(?)." + o.Name()
	}
	return pkg + "." + o.Name()
}

func ifaceMethodName(m *types.Func) string { return objName(m) }

// opaque models a call that is not analysed.
func (e *Engine) opaque(st *State, c *Call) *Outcome {
	if o := e.builtinModel(st, c); o != nil {
		return o
	}
	vals := make([]*Term, len(c.Args))
	for i, a := range c.Args {
		vals[i] = e.snapshot(st, a)
	}
	ev := &Event{Kind: "call", Instr: c.Instr, Ctx: c.Ctx, Callee: c.Name, Fn: c.Fn, Args: c.Args, Vals: vals, Defer: c.Defer}
	if c.Fn == nil && !c.Common.IsInvoke() {
		ev.Dyn = c.Dyn
	}
	res := e.freshResult(st, c)
	ev.Result = res
	st.event(ev)
	if e.OnEvent != nil && e.quiet == 0 {
		e.OnEvent(st, ev)
	}
	e.havocCall(st, c)
	if neverNil[c.Name] {
		e.assume(st, e.isNilTerm(res), false)
	}
	o := &Outcome{States: []*State{st}, Results: []*Term{res}}
	if e.MayPanic != nil && e.MayPanic(c) {
		p := st.clone()
		p.event(&Event{Kind: "panic", Instr: c.Instr, Ctx: c.Ctx, Callee: c.Name})
		o.Panics = append(o.Panics, p)
	}
	return o
}

func (e *Engine) freshResult(st *State, c *Call) *Term {
	sig := c.Common.Signature()
	var t types.Type = sig.Results()
	n := sig.Results().Len()
	if n == 1 {
		t = sig.Results().At(0).Type()
	}
	call := e.ts.mk("call", c.Site, t)
	call.site = c.Instr
	call.T = t
	if n == 1 {
		return call
	}
	var rs []*Term
	for i := 0; i < n; i++ {
		x := e.ts.mk("extract", fmt.Sprint(i), sig.Results().At(i).Type(), call)
		rs = append(rs, x)
	}
	return e.ts.mk("tuple", "", t, rs...)
}

// havocCall forgets the memory the call can change.
func (e *Engine) havocCall(st *State, c *Call) {
	repo := false
	if c.Fn != nil {
		repo = e.p.isRepoFn(c.Fn)
	} else if c.Common.IsInvoke() {
		m := c.Common.Method
		repo = m.Pkg() != nil && e.isRepoPkg(m.Pkg())
	} else {
		repo = true
	}
	if !repo && isPureExternal(c.Name) {
		return
	}
	if c.Fn != nil && repo {
		body := c.Fn
		if len(body.Blocks) == 0 && body.Origin() != nil {
			body = body.Origin()
		}
		if e.p.effectFree(body) {
			return
		}
	}
	e.escape(st, c.Args...)
	if c.Dyn != nil {
		e.escape(st, c.Dyn)
	}
	if repo || e.callsBack(c) {
		e.applyKill(st, &kill{kind: "all", id: c.Site})
		return
	}
	args := c.Args
	if i := strings.LastIndex(c.Name, ")."); i >= 0 && len(args) > 1 {
		switch c.Name[i+2:] {
		case "Write", "WriteString", "WriteByte", "WriteRune":
			args = args[:1] // a writer does not change what it is given
		}
	}
	// through the address of a plain field only the field is reached
	var whole []*Term
	many := &kill{kind: "many", id: c.Site}
	for _, a := range args {
		u := a
		for u.op == "iface" {
			u = u.args[0]
		}
		if el := ptrElem(u); u.op == "field" && el != nil {
			switch el.Underlying().(type) {
			case *types.Struct, *types.Array:
			default:
				many.many = append(many.many, &kill{kind: "addr", id: c.Site, addr: u})
				if v := st.mem[u]; v != nil {
					whole = append(whole, v)
				}
				continue
			}
		}
		whole = append(whole, a)
	}
	set := e.reach(st, whole)
	for o := range set {
		switch o.op {
		case "const", "nil", "global", "gval", "func":
			delete(set, o)
		}
	}
	k := &kill{kind: "objs", id: c.Site, objs: set}
	if len(many.many) > 0 {
		many.many = append(many.many, k)
		k = many
	}
	e.applyKill(st, k)
}

// callsBack: a function value of unknown body, or a repository type behind an interface, is passed.
func (e *Engine) callsBack(c *Call) bool {
	for i, a := range c.Args {
		if a.op == "closure" || a.op == "func" {
			return true
		}
		if i < len(c.ArgT) && c.ArgT[i] != nil {
			if _, ok := c.ArgT[i].Underlying().(*types.Signature); ok && a.op != "nil" {
				return true
			}
		}
	}
	return false
}

// snapshot expands a slice of a local array to its elements.
func (e *Engine) snapshot(st *State, a *Term) *Term {
	if a.op == "slice" {
		b := a.args[0]
		if b.op == "alloc" && isArrayPtr(b) {
			arr := ptrElem(b).Underlying().(*types.Array)
			lo, hi := int64(0), arr.Len()
			if c, ok := a.args[1].constInt(); ok {
				lo = c.Int64()
			} else if a.args[1].op != "nil" {
				return a
			}
			if c, ok := a.args[2].constInt(); ok {
				hi = c.Int64()
			} else if a.args[2].op != "nil" {
				return a
			}
			if hi-lo > 64 {
				return a
			}
			var els []*Term
			for i := lo; i < hi; i++ {
				el := e.ts.mk("index", "", types.NewPointer(arr.Elem()), b, e.ts.intTerm(i))
				els = append(els, e.load(st, el, arr.Elem()))
			}
			return e.ts.mk("slicelit", "", types.NewSlice(arr.Elem()), els...)
		}
	}
	return a
}

// ---- values

func (e *Engine) val(fr *frame, st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, ok := types.Unalias(x.Type()).(*types.TypeParam); ok {
				return e.zero(x.Type())
			}
			return e.zero(x.Type())
		}
		return e.ts.constVal(x.Value, x.Type())
	case *ssa.Global:
		t := e.ts.mk("global", x.String(), x.Type())
		t.gl = x
		return t
	case *ssa.Function:
		t := e.ts.mk("func", x.String(), x.Type())
		t.fn = x
		return t
	case *ssa.Builtin:
		return e.ts.mk("builtin", x.Name(), x.Type())
	}
	if t, ok := st.env[v]; ok {
		return t
	}
	// a register of an enclosing loop iteration that was dropped
	return e.ts.mk("undef", fr.ctx+fr.fn.String()+v.Name(), v.Type())
}

func (e *Engine) instr(fr *frame, st *State, in ssa.Instruction) {
	ts := e.ts
	switch x := in.(type) {
	case *ssa.Alloc:
		t := ts.mk("alloc", e.site(fr, x), x.Type())
		t.site = x
		e.born(st, t)
		st.env[x] = t
	case *ssa.BinOp:
		st.env[x] = e.binop(st, x, e.val(fr, st, x.X), e.val(fr, st, x.Y))
	case *ssa.UnOp:
		st.env[x] = e.unop(fr, st, x)
	case *ssa.ChangeType:
		st.env[x] = e.val(fr, st, x.X)
		if _, ok := x.Type().Underlying().(*types.Struct); ok {
			st.env[x] = e.retype(st.env[x], x.Type())
		}
	case *ssa.Convert:
		st.env[x] = e.convert(st, x, e.val(fr, st, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		st.env[x] = ts.mk("conv", typeKey(x.Type()), x.Type(), e.val(fr, st, x.X))
	case *ssa.ChangeInterface:
		st.env[x] = e.val(fr, st, x.X)
	case *ssa.SliceToArrayPointer:
		st.env[x] = ts.mk("sliceToArr", "", x.Type(), e.val(fr, st, x.X))
	case *ssa.MakeInterface:
		st.env[x] = ts.iface(x.X.Type(), e.val(fr, st, x.X))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(fr, st, b))
		}
		f := x.Fn.(*ssa.Function)
		t := ts.mk("closure", f.String(), x.Type(), bs...)
		t.fn = f
		st.env[x] = t
	case *ssa.MakeMap:
		t := ts.mk("make", e.site(fr, x), x.Type())
		t.site = x
		e.born(st, t)
		st.mem[ts.mk("maplen", "", nil, t)] = ts.intTerm(0)
		st.env[x] = t
	case *ssa.MakeChan:
		t := ts.mk("make", e.site(fr, x), x.Type())
		t.site = x
		e.born(st, t)
		st.env[x] = t
	case *ssa.MakeSlice:
		t := ts.mk("make", e.site(fr, x), x.Type(), e.val(fr, st, x.Len), e.val(fr, st, x.Cap))
		t.site = x
		e.born(st, t)
		st.env[x] = t
	case *ssa.Slice:
		opt := func(v ssa.Value) *Term {
			if v == nil {
				return ts.nilTerm()
			}
			return e.val(fr, st, v)
		}
		b := e.val(fr, st, x.X)
		lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
		if lo.isInt(0) {
			lo = ts.nilTerm()
		}
		if s, ok := b.constStr(); ok {
			l, h := int64(0), int64(len(s))
			okc := true
			if lo.op != "nil" {
				if c, k := lo.constInt(); k {
					l = c.Int64()
				} else {
					okc = false
				}
			}
			if hi.op != "nil" {
				if c, k := hi.constInt(); k {
					h = c.Int64()
				} else {
					okc = false
				}
			}
			if okc && l >= 0 && h <= int64(len(s)) && l <= h {
				st.env[x] = ts.strTerm(s[l:h])
				return
			}
		}
		if hi.op != "nil" && hi == e.lenOf(b) && mx.op == "nil" && !isArrayPtr(b) {
			hi = ts.nilTerm()
		}
		if lo.op == "nil" && hi.op == "nil" && mx.op == "nil" && !isArrayPtr(b) {
			st.env[x] = b
			return
		}
		st.env[x] = ts.mk("slice", "", x.Type(), b, lo, hi, mx)
	case *ssa.FieldAddr:
		b := e.val(fr, st, x.X)
		pt := x.X.Type().Underlying().(*types.Pointer).Elem()
		st.env[x] = e.fieldAddr(b, e.canonStruct(b, pt), x.Field)
	case *ssa.Field:
		v := e.val(fr, st, x.X)
		s := x.X.Type().Underlying().(*types.Struct)
		st.env[x] = e.fieldOf(v, typeKey(x.X.Type())+"."+s.Field(x.Field).Name(), x.Type())
	case *ssa.IndexAddr:
		b, i := e.val(fr, st, x.X), e.val(fr, st, x.Index)
		if _, isC := i.constInt(); isC && b.op == "slice" && b.args[0].op == "alloc" && b.args[1].op == "nil" {
			b = b.args[0] // the same place of the array
		}
		st.env[x] = ts.mk("index", "", x.Type(), b, i)
	case *ssa.Index:
		b := e.val(fr, st, x.X)
		i := e.val(fr, st, x.Index)
		if s, ok := b.constStr(); ok {
			if c, ok := i.constInt(); ok && c.IsInt64() && c.Int64() >= 0 && c.Int64() < int64(len(s)) {
				st.env[x] = ts.intTerm(int64(s[c.Int64()]))
				return
			}
		}
		st.env[x] = ts.mk("elem", "", x.Type(), b, i)
	case *ssa.Lookup:
		e.lookup(fr, st, x)
	case *ssa.Extract:
		t := e.val(fr, st, x.Tuple)
		if t.op == "tuple" && x.Index < len(t.args) {
			st.env[x] = t.args[x.Index]
		} else {
			st.env[x] = ts.mk("extract", fmt.Sprint(x.Index), x.Type(), t)
		}
	case *ssa.TypeAssert:
		e.typeAssert(fr, st, x)
	case *ssa.Store:
		addr, v := e.val(fr, st, x.Addr), e.val(fr, st, x.Val)
		id := e.site(fr, x)
		if addr.op != "alloc" {
			ev := &Event{Kind: "store", Instr: x, Ctx: fr.ctx, Args: []*Term{addr, v}}
			st.event(ev)
			if e.OnEvent != nil && e.quiet == 0 {
				e.OnEvent(st, ev)
			}
		}
		e.store(st, addr, v, x.Val.Type(), id)
	case *ssa.MapUpdate:
		m, k, v := e.val(fr, st, x.Map), e.val(fr, st, x.Key), e.val(fr, st, x.Value)
		id := e.site(fr, x)
		ev := &Event{Kind: "mapupdate", Instr: x, Ctx: fr.ctx, Args: []*Term{m, k, v}}
		if a := e.readFrom(m); e.FieldMaps && a != nil && a.op == "field" {
			ev = &Event{Kind: "call", Callee: "sync.(Map).Store", Instr: x, Ctx: fr.ctx, Args: []*Term{a, k, v}, Vals: []*Term{a, k, v}}
		}
		st.event(ev)
		if e.OnEvent != nil && e.quiet == 0 {
			e.OnEvent(st, ev)
		}
		e.mapStore(st, m, k, v, true, id)
	case *ssa.Range:
		t := ts.mk("range", e.site(fr, x), x.Type(), e.val(fr, st, x.X))
		t.site = x
		st.env[x] = t
	case *ssa.Next:
		it := e.val(fr, st, x.Iter)
		base := ts.mk("next", e.site(fr, x), x.Type(), it)
		if it.op == "range" && !x.IsString {
			e.access(st, ts.mk("index", "", nil, it.args[0], ts.mk("any", "", types.Typ[types.Int])), x)
		}
		base.site = x
		tt := x.Type().(*types.Tuple)
		var rs []*Term
		for i := 0; i < tt.Len(); i++ {
			rs = append(rs, ts.mk("extract", fmt.Sprint(i), tt.At(i).Type(), base))
		}
		if it.op == "range" && !x.IsString {
			m := it.args[0]
			if len(rs) == 3 && rs[2].typ != nil && rs[2].typ != types.Typ[types.Invalid] {
				if mt, ok := m.typ.Underlying().(*types.Map); ok {
					_ = mt
				}
			}
		}
		st.env[x] = ts.mk("tuple", "", x.Type(), rs...)
	case *ssa.Send:
		st.event(&Event{Kind: "send", Instr: x, Ctx: fr.ctx, Args: []*Term{e.val(fr, st, x.Chan), e.val(fr, st, x.X)}})
	case *ssa.Go:
		c := &Call{Instr: x, Common: &x.Call, Ctx: fr.ctx, Site: e.site(fr, x), Go: true}
		e.evalCall(fr, st, c)
		ev := &Event{Kind: "go", Instr: x, Ctx: fr.ctx, Args: append([]*Term{}, c.Args...)}
		if c.Dyn != nil {
			ev.Fn = c.Dyn.fn
			ev.Result = c.Dyn
			e.escape(st, c.Dyn)
		}
		e.escape(st, c.Args...)
		st.event(ev)
		if e.OnEvent != nil && e.quiet == 0 {
			e.OnEvent(st, ev)
		}
	case *ssa.Defer:
		d := &deferred{instr: x}
		if x.Call.IsInvoke() {
			d.args = append(d.args, e.val(fr, st, x.Call.Value))
		} else {
			d.callee = e.val(fr, st, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, e.val(fr, st, a))
		}
		st.defers = append(st.defers[:len(st.defers):len(st.defers)], d)
	case *ssa.Select:
		base := ts.mk("select", e.site(fr, x), x.Type())
		base.site = x
		var chs []*Term
		for _, s := range x.States {
			chs = append(chs, e.val(fr, st, s.Chan))
		}
		ev := &Event{Kind: "select", Instr: x, Ctx: fr.ctx, Args: chs, Result: base}
		st.event(ev)
		if e.OnEvent != nil && e.quiet == 0 {
			e.OnEvent(st, ev)
		}
		tt := x.Type().(*types.Tuple)
		var rs []*Term
		for i := 0; i < tt.Len(); i++ {
			rs = append(rs, ts.mk("extract", fmt.Sprint(i), tt.At(i).Type(), base))
		}
		lo := int64(0)
		if !x.Blocking {
			lo = -1
		}
		st.iv[rs[0]] = interval{big.NewInt(lo), big.NewInt(int64(len(x.States) - 1))}
		st.env[x] = ts.mk("tuple", "", x.Type(), rs...)
	default:
		if v, ok := in.(ssa.Value); ok {
			t := ts.mk("unknown", e.site(fr, in), v.Type())
			t.site = in
			st.env[v] = t
			e.problem("unhandled instruction %T in %s", in, fr.fn)
		}
	}
}

// canonStruct names the struct type a field address is keyed by: the type of the pointer itself when it differs by conversion only.
func (e *Engine) canonStruct(b *Term, pt types.Type) types.Type {
	if el := ptrElem(b); el != nil && types.Identical(el.Underlying(), pt.Underlying()) {
		return el
	}
	return pt
}

func (e *Engine) retype(v *Term, T types.Type) *Term {
	if v.op == "struct" {
		return e.ts.mk("struct", typeKey(T), T, v.args...)
	}
	return v
}

func (e *Engine) born(st *State, t *Term) {
	for a := range st.mem {
		if root(a) == t {
			delete(st.mem, a)
		}
	}
	delete(st.esc, t)
	st.born[t] = len(st.kills)
}

func (e *Engine) mapAddr(m, k *Term) (el, ok *Term) {
	return e.ts.mk("mapel", "", nil, m, k), e.ts.mk("mapok", "", nil, m, k)
}

func (e *Engine) mapStore(st *State, m, k, v *Term, present bool, id string) {
	el, ok := e.mapAddr(m, k)
	ln := e.ts.mk("maplen", "", nil, m)
	r := root(m)
	if !isFresh(r) || st.esc[r] {
		e.escape(st, v, k)
	}
	for a := range st.mem {
		if a == el || a == ok {
			continue
		}
		if (a.op == "mapel" || a.op == "mapok" || a.op == "maplen") && (e.mayAlias(st, el, a) || e.mayAlias(st, ok, a) || e.mayAlias(st, ln, a)) {
			delete(st.mem, a)
		}
	}
	st.kills = append(st.kills[:len(st.kills):len(st.kills)],
		&kill{kind: "addr", id: id, addr: el}, &kill{kind: "addr", id: id, addr: ok}, &kill{kind: "addr", id: id, addr: ln})
	st.mem[el] = v
	st.mem[ok] = e.ts.boolTerm(present)
}

func (e *Engine) lookup(fr *frame, st *State, x *ssa.Lookup) {
	ts := e.ts
	m, k := e.val(fr, st, x.X), e.val(fr, st, x.Index)
	mt, isMap := x.X.Type().Underlying().(*types.Map)
	if !isMap {
		st.env[x] = ts.mk("elem", "", x.Type(), m, k)
		return
	}
	if m.op == "nil" {
		if x.CommaOk {
			st.env[x] = ts.mk("tuple", "", x.Type(), e.zero(mt.Elem()), ts.boolTerm(false))
		} else {
			st.env[x] = e.zero(mt.Elem())
		}
		return
	}
	if v, in, known := e.tableEntry(st, m, k, mt); known {
		if x.CommaOk {
			st.env[x] = ts.mk("tuple", "", x.Type(), v, ts.boolTerm(in))
		} else {
			st.env[x] = v
		}
		return
	}
	el, ok := e.mapAddr(m, k)
	e.access(st, el, x)
	v := e.load(st, el, mt.Elem())
	if e.decompose(mt.Elem()) != nil {
		if w, have := st.mem[el]; have {
			v = w
		} else {
			v = e.ts.mk("ld", e.epochOf(st, el), mt.Elem(), el)
			st.mem[el] = v
		}
	}
	if a := e.readFrom(m); e.FieldMaps && a != nil && a.op == "field" {
		res := ts.mk("tuple", "", nil, v, e.load(st, ok, types.Typ[types.Bool]))
		st.event(&Event{Kind: "call", Callee: "sync.(Map).Load", Instr: x, Ctx: fr.ctx, Args: []*Term{a, k}, Vals: []*Term{a, k}, Result: res})
	}
	if x.CommaOk {
		okv := e.load(st, ok, types.Typ[types.Bool])
		st.env[x] = ts.mk("tuple", "", x.Type(), v, okv)
	} else {
		st.env[x] = v
	}
}

// tableEntry is the function that a package level map, which is not changed, has for the key.
func (e *Engine) tableEntry(st *State, m, k *Term, mt *types.Map) (v *Term, in, known bool) {
	if _, ok := mt.Elem().Underlying().(*types.Signature); !ok || !isString(mt.Key()) || m.op != "gval" {
		return nil, false, false
	}
	fs, ok := e.p.funcTable(m.gl)
	if !ok {
		return nil, false, false
	}
	var names []string
	for n := range fs {
		names = append(names, n)
	}
	sort.Strings(names)
	none := true
	for _, n := range names {
		is, sure := e.evalBool(st, e.eqTerm(k, e.ts.strTerm(n), types.Typ[types.String]))
		if sure && is {
			t := e.ts.mk("func", fs[n].String(), mt.Elem())
			t.fn = fs[n]
			return t, true, true
		}
		none = none && sure
	}
	return e.zero(mt.Elem()), false, none
}

// funcTable: the functions in a package level map that is made with constant keys and only looked up afterwards.
func (p *Program) funcTable(g *ssa.Global) (map[string]*ssa.Function, bool) {
	if g == nil || !p.immutable[g] || g.Pkg == nil || g.Pkg.Func("init") == nil {
		return nil, false
	}
	var made ssa.Value
	for _, b := range g.Pkg.Func("init").Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				if made != nil {
					return nil, false
				}
				made = s.Val
			}
		}
	}
	if _, ok := made.(*ssa.MakeMap); !ok {
		return nil, false
	}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.X == g {
					for _, ref := range *u.Referrers() {
						switch ref.(type) {
						case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
							continue
						}
						return nil, false
					}
				}
			}
		}
	}
	m := map[string]*ssa.Function{}
	for _, ref := range *made.Referrers() {
		switch x := ref.(type) {
		case *ssa.MapUpdate:
			k, ok1 := x.Key.(*ssa.Const)
			v := x.Value
			if c, ok := v.(*ssa.ChangeType); ok {
				v = c.X
			}
			f, ok2 := v.(*ssa.Function)
			if !ok1 || !ok2 || k.Value == nil {
				return nil, false
			}
			m[constant.StringVal(k.Value)] = f
		case *ssa.Store, *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	return m, true
}

func (e *Engine) access(st *State, addr *Term, in ssa.Instruction) {
	if e.OnAccess != nil && e.quiet == 0 {
		e.OnAccess(st, addr, in)
	}
}

func (e *Engine) epochOf(st *State, addr *Term) string {
	for i := len(st.kills) - 1; i >= 0; i-- {
		if e.killAffects(st, st.kills[i], addr) {
			return st.kills[i].id
		}
	}
	return ""
}

func (e *Engine) isTerm(x *Term, T types.Type) *Term {
	t := e.ts.mk("is", typeKey(T), types.Typ[types.Bool], x)
	t.T = T
	return t
}

func (e *Engine) typeAssert(fr *frame, st *State, x *ssa.TypeAssert) {
	ts := e.ts
	v := e.val(fr, st, x.X)
	T := x.AssertedType
	var res *Term
	if types.IsInterface(T) {
		if _, tp := types.Unalias(T).(*types.TypeParam); tp {
			res = e.unbox(v, T)
		} else {
			res = v
		}
	} else {
		res = e.unbox(v, T)
	}
	if !x.CommaOk {
		e.assume(st, e.isTerm(v, T), true)
		st.env[x] = res
		return
	}
	is := e.isTerm(v, T)
	if b, k := e.evalBool(st, is); k {
		if !b {
			res = e.zero(T)
		}
		st.env[x] = ts.mk("tuple", "", x.Type(), res, ts.boolTerm(b))
		return
	}
	// the value is only meaningful when ok
	st.env[x] = ts.mk("tuple", "", x.Type(), res, is)
}

func (e *Engine) convert(st *State, x ssa.Instruction, v *Term, src, dst types.Type) *Term {
	ts := e.ts
	su, du := src.Underlying(), dst.Underlying()
	if types.Identical(su, du) {
		return v
	}
	if isInteger(src) && isInteger(dst) {
		slo, shi, ok1 := intRange(src)
		dlo, dhi, ok2 := intRange(dst)
		if ok1 && ok2 {
			if slo.Cmp(dlo) >= 0 && shi.Cmp(dhi) <= 0 {
				return v
			}
			iv := e.bounds(st, v).meet(interval{slo, shi})
			if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(dlo) >= 0 && iv.hi.Cmp(dhi) <= 0 {
				return v
			}
			// wraps around once
			if iv.lo != nil && iv.hi != nil {
				m := new(big.Int).Add(new(big.Int).Sub(dhi, dlo), big.NewInt(1))
				for _, k := range []*big.Int{m, new(big.Int).Neg(m)} {
					if new(big.Int).Add(iv.lo, k).Cmp(dlo) >= 0 && new(big.Int).Add(iv.hi, k).Cmp(dhi) <= 0 {
						return ts.add(v, ts.bigTerm(k), dst)
					}
				}
			}
			// uint64(int64(x)) of a uint64 x is x
			if v.op == "conv" && len(v.args) == 1 && v.args[0].typ != nil && isInteger(v.args[0].typ) {
				o := v.args[0]
				olo, ohi, ok := intRange(o.typ)
				if ok && olo.Cmp(dlo) >= 0 && ohi.Cmp(dhi) <= 0 && sameWidth(src, dst) {
					return o
				}
			}
			if e.OnConv != nil && e.quiet == 0 {
				e.OnConv(st, x, v, src, dst)
			}
		}
		return ts.mk("conv", typeKey(du), du, v)
	}
	if isString(dst) {
		if sl, ok := su.(*types.Slice); ok {
			if v.op == "bytes" {
				return v.args[0]
			}
			_ = sl
			if v.op == "nil" {
				return ts.strTerm("")
			}
			return ts.mk("str", e.epochOfContent(st, v), dst, v)
		}
		if isInteger(src) {
			if c, ok := v.constInt(); ok && c.IsInt64() {
				return ts.strTerm(string(rune(c.Int64())))
			}
			return ts.mk("runestr", "", dst, v)
		}
	}
	if isString(src) {
		if _, ok := du.(*types.Slice); ok {
			t := ts.mk("bytes", "", dst, v)
			return t
		}
	}
	if isFloat(dst) && v.isConst() && !isFloat(src) {
		return ts.constVal(constant.ToFloat(v.cval), dst)
	}
	if _, ok := su.(*types.Basic); ok {
		if e.OnConv != nil && e.quiet == 0 {
			e.OnConv(st, x, v, src, dst)
		}
	}
	return ts.mk("conv", typeKey(du), dst, v)
}

func (e *Engine) epochOfContent(st *State, v *Term) string {
	a := e.ts.mk("index", "", types.NewPointer(types.Typ[types.Byte]), v, e.ts.mk("any", "", types.Typ[types.Int]))
	from := 0
	r := root(v)
	if isFresh(r) {
		from = st.born[r]
	}
	for i := len(st.kills) - 1; i >= from; i-- {
		if e.killAffects(st, st.kills[i], a) {
			return st.kills[i].id
		}
	}
	return ""
}

func sameWidth(a, b types.Type) bool {
	al, ah, ok1 := intRange(a)
	bl, bh, ok2 := intRange(b)
	if !ok1 || !ok2 {
		return false
	}
	return new(big.Int).Sub(ah, al).Cmp(new(big.Int).Sub(bh, bl)) == 0
}

func (e *Engine) unop(fr *frame, st *State, x *ssa.UnOp) *Term {
	ts := e.ts
	v := e.val(fr, st, x.X)
	switch x.Op {
	case token.MUL:
		e.access(st, v, x)
		return e.load(st, v, x.Type())
	case token.NOT:
		return e.not(v)
	case token.SUB:
		if isInteger(x.Type()) {
			return ts.fromLin(linScale(toLin(v), big.NewInt(-1)), x.Type())
		}
		if v.isConst() {
			return ts.constVal(constant.UnaryOp(token.SUB, v.cval, 0), x.Type())
		}
		return ts.mk("neg", "", x.Type(), v)
	case token.XOR:
		return ts.mk("compl", typeKey(x.Type().Underlying()), x.Type(), v)
	case token.ARROW:
		base := ts.mk("recv", e.site(fr, x), x.Type(), v)
		base.site = x
		ev := &Event{Kind: "recv", Instr: x, Ctx: fr.ctx, Args: []*Term{v}, Result: base}
		st.event(ev)
		if x.CommaOk {
			tt := x.Type().(*types.Tuple)
			return ts.mk("tuple", "", x.Type(), ts.mk("extract", "0", tt.At(0).Type(), base), ts.mk("extract", "1", tt.At(1).Type(), base))
		}
		return base
	}
	return ts.mk("unop", x.Op.String(), x.Type(), v)
}

func (e *Engine) binop(st *State, x *ssa.BinOp, a, b *Term) *Term {
	ts := e.ts
	typ := x.Type()
	ot := x.X.Type()
	if a.isNil() {
		ot = x.Y.Type()
	}
	switch x.Op {
	case token.EQL:
		return e.eqTerm(a, b, ot)
	case token.NEQ:
		return e.not(e.eqTerm(a, b, ot))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isInteger(ot) {
			op := x.Op
			switch op {
			case token.GTR:
				a, b, op = b, a, token.LSS
			case token.GEQ:
				a, b, op = b, a, token.LEQ
			}
			l := linAdd(toLin(a), toLin(b), -1)
			if op == token.LSS {
				l.c = new(big.Int).Add(l.c, big.NewInt(1))
			}
			return e.le0(l)
		}
		if a.isConst() && b.isConst() && a.cval.Kind() == b.cval.Kind() {
			return ts.boolTerm(constant.Compare(a.cval, x.Op, b.cval))
		}
		switch x.Op {
		case token.GTR:
			return ts.mk("lt", "", typ, b, a)
		case token.GEQ:
			return e.not(ts.mk("lt", "", typ, a, b))
		case token.LEQ:
			return e.not(ts.mk("lt", "", typ, b, a))
		}
		return ts.mk("lt", "", typ, a, b)
	}
	if isString(typ) && x.Op == token.ADD {
		return ts.concat(a, b)
	}
	if isInteger(typ) {
		switch x.Op {
		case token.ADD:
			return e.fit(ts.add(a, b, typ), typ)
		case token.SUB:
			return e.fit(ts.sub(a, b, typ), typ)
		case token.MUL:
			if c, ok := a.constInt(); ok {
				return e.fit(ts.fromLin(linScale(toLin(b), c), typ), typ)
			}
			if c, ok := b.constInt(); ok {
				return e.fit(ts.fromLin(linScale(toLin(a), c), typ), typ)
			}
		}
		if a.isConst() && b.isConst() {
			switch x.Op {
			case token.SHL, token.SHR:
				if n, ok := constant.Uint64Val(constant.ToInt(b.cval)); ok && n < 512 {
					return e.fit(ts.constVal(constant.Shift(a.cval, x.Op, uint(n)), typ), typ)
				}
			case token.QUO:
				if !b.isInt(0) {
					return ts.constVal(constant.BinaryOp(a.cval, token.QUO_ASSIGN, b.cval), typ)
				}
			case token.REM:
				if !b.isInt(0) {
					return ts.constVal(constant.BinaryOp(a.cval, token.REM, b.cval), typ)
				}
			case token.AND, token.OR, token.XOR, token.AND_NOT:
				return e.fit(ts.constVal(constant.BinaryOp(a.cval, x.Op, b.cval), typ), typ)
			}
		}
		op := x.Op
		if c, ok := b.constInt(); ok && isUnsigned(typ) && c.Sign() > 0 && new(big.Int).And(c, new(big.Int).Sub(c, big.NewInt(1))).Sign() == 0 {
			// division by a power of two
			switch op {
			case token.REM:
				op, b = token.AND, ts.bigTerm(new(big.Int).Sub(c, big.NewInt(1)))
			case token.QUO:
				op, b = token.SHR, ts.intTerm(int64(c.BitLen()-1))
			}
		}
		name := map[token.Token]string{token.MUL: "mul", token.QUO: "quo", token.REM: "rem", token.AND: "and", token.OR: "or",
			token.XOR: "xor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot"}[op]
		if op == token.AND || op == token.REM {
			// x mod m of an x in [0, m) is x
			if v, m := modulus(&Term{op: name, args: []*Term{a, b}}); v != nil {
				if iv := e.bounds(st, v); iv.lo != nil && iv.hi != nil && iv.lo.Sign() >= 0 && iv.hi.Cmp(m) < 0 {
					return v
				}
			}
		}
		switch op {
		case token.MUL, token.AND, token.OR, token.XOR:
			if a.id > b.id {
				a, b = b, a
			}
		}
		if op == token.OR || op == token.XOR {
			if a.isInt(0) {
				return b
			}
			if b.isInt(0) {
				return a
			}
		}
		if (op == token.SHL || op == token.SHR) && b.isInt(0) {
			return a
		}
		return ts.mk(name, typeKey(typ.Underlying()), typ, a, b)
	}
	if a.isConst() && b.isConst() && a.cval.Kind() == b.cval.Kind() {
		switch x.Op {
		case token.ADD, token.SUB, token.MUL:
			return ts.constVal(constant.BinaryOp(a.cval, x.Op, b.cval), typ)
		}
	}
	return ts.mk("binop", x.Op.String(), typ, a, b)
}

// fit wraps constants to the type.
func (e *Engine) fit(t *Term, typ types.Type) *Term {
	c, ok := t.constInt()
	if !ok {
		return t
	}
	lo, hi, ok := intRange(typ)
	if !ok || c.Cmp(lo) >= 0 && c.Cmp(hi) <= 0 {
		return t
	}
	m := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	r := new(big.Int).Mod(new(big.Int).Sub(c, lo), m)
	return e.ts.bigTerm(r.Add(r, lo))
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
