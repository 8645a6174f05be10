package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// I01: the command line

func init() {
	rules["I01"] = propRule{run: runI01, title: "commands do what their options say",
		assum: []string{
			"kong fills the fields of the commands from the options of their names",
			"a schema provider, and writing, do not change the options of the command",
		}}
}

const (
	cliPkg = "internal/cli"
	cmdPkg = "internal/cli/schema"
)

type cliRule struct {
	*Report
	key string
}

func errTerm(ev *Event) *Term {
	t := ev.Result
	if t == nil {
		return nil
	}
	if t.op == "tuple" {
		if len(t.args) == 0 {
			return nil
		}
		t = t.args[len(t.args)-1]
	}
	if t.typ == nil || !types.Identical(t.typ, errorType) {
		return nil
	}
	return t
}

// mustFail: the path returns an error if this call gave one.
func (r *Report) mustFail(key string, rr *runRes, x *Exit, ev *Event, what string) {
	err := errTerm(ev)
	ret, ok := errResult(rr.fn, x)
	if err == nil || !ok {
		return
	}
	s := x.St.clone()
	if !rr.e.assume(s, rr.e.eqTerm(err, rr.e.ts.nilTerm(), errorType), false) {
		return
	}
	n, k := rr.e.nilness(s, ret)
	r.check(k && !n, key, evPos(ev), "%s failing is not reported", what)
}

// callTo is the name of the function or method that the event calls, if it is one of a package of the repository.
func callTo(ev *Event) string {
	if ev.Kind != "call" {
		return ""
	}
	if i := strings.LastIndexByte(ev.Callee, '.'); i >= 0 {
		return ev.Callee[i+1:]
	}
	return ev.Callee
}

type cmdRun struct {
	*cliRule
	rr       *runRes
	x        *Exit
	a, ctx   *Term
	provider *Event
	lists    map[string]*Event // by the method of the provider
	order    []*Event
}

// opt is the value of an option.
func (c *cmdRun) opt(name string) *Term { return c.rr.e.loadField(c.x.St, c.a, name) }

func (c *cmdRun) is(t, v *Term) bool { return t == v || sameValue(c.rr.e, c.x.St, t, v) }

// flagOpt is the value of a flag, as far as it is known on the path.
func (c *cmdRun) flag(t *Term) (v, known bool) { return c.rr.e.evalBool(c.x.St, t) }

// runCmd runs a command with everything of the context visible as calls.
func (g *cliRule) runCmd(f *ssa.Function) *runRes {
	return g.run(f, func(e *Engine, st *State, a []*Term) {
		e.OnCall = func(e *Engine, st *State, c *Call) *Outcome {
			n := c.Name
			own := strings.Contains(n, "/"+cliPkg+".(Cli).") || strings.HasSuffix(n, "(GenerateCmd).generate")
			if own || strings.Contains(n, "schema.(Provider).") || strings.HasPrefix(n, "fmt.Fprint") || n == "io.WriteString" || c.Common.IsInvoke() && strings.HasSuffix(n, ").Write") {
				return quietCall(e, st, c)
			}
			return nil
		}
	})
}

// calls sorts the calls of the path.
func (c *cmdRun) calls() bool {
	e := c.rr.e
	c.lists = map[string]*Event{}
	for _, ev := range allEvents(c.x.St.events()) {
		n := callTo(ev)
		switch {
		case n == "SchemaProvider" && ev.Args[0] == c.ctx:
			if !c.check(c.provider == nil, c.key, evPos(ev), "the schema provider is made more than once") {
				return false
			}
			c.provider = ev
			c.check(c.is(ev.Args[1], c.opt("DB")), c.key, evPos(ev), "the schema provider is not for the database of the option")
			c.mustFail(c.key, c.rr, c.x, ev, "making the provider")
		case strings.Contains(ev.Callee, "schema.(Provider)."):
			if !c.check(c.provider != nil && ev.Args[0] == c.provider.Result.args[0], c.key, evPos(ev), "%s is not asked of the provider of the database", n) {
				return false
			}
			if n == "Name" {
				continue
			}
			if !c.check(c.lists[n] == nil, c.key, evPos(ev), "%s is asked more than once", n) {
				return false
			}
			c.lists[n] = ev
			c.order = append(c.order, ev)
			okCtx := c.is(ev.Args[1], e.loadField(c.x.St, c.ctx, "ctx"))
			for _, b := range c.x.St.events() {
				okCtx = okCtx || callTo(b) == "Context" && b.Result == ev.Args[1] && b.Args[0] == c.ctx
			}
			c.check(okCtx, c.key, evPos(ev), "%s is not given the context of the command", n)
			c.mustFail(c.key, c.rr, c.x, ev, n)
		case n == "Print" && strings.Contains(ev.Callee, "(Cli)"), n == "generate":
			c.mustFail(c.key, c.rr, c.x, ev, n)
		}
	}
	return true
}

// asked: the list is asked for with these arguments.
func (c *cmdRun) asked(method string, args ...*Term) *Term {
	ev := c.lists[method]
	if !c.check(ev != nil, c.key, c.x.Pos, "%s is not asked for", method) {
		return nil
	}
	if !c.check(len(ev.Args) == len(args)+2, c.key, evPos(ev), "%s has other arguments", method) {
		return nil
	}
	for i, a := range args {
		c.check(c.is(ev.Args[i+2], a), c.key, evPos(ev), "argument %d of %s is %s, not what the options say", i+1, method, ev.Args[i+2])
	}
	return ev.Result.args[0]
}

// partsOf are the lists that the list is made of, one after the other.
func (c *cmdRun) partsOf(l *Term) []*Term {
	l = unIface(l)
	for _, ev := range c.order {
		if l == ev.Result.args[0] {
			return []*Term{l}
		}
	}
	e := c.rr.e
	if n, k := e.nilness(c.x.St, l); k && n || e.isEmptyList(c.x.St, l) {
		return []*Term{}
	}
	if (l.op == "append" && l.aux == "..." || l.op == "appendv") && len(l.args) == 2 {
		return append(c.partsOf(l.args[0]), c.partsOf(l.args[1])...)
	}
	if l.op == "conv" || l.op == "chgtype" {
		return c.partsOf(l.args[0])
	}
	for _, ev := range c.x.St.events() {
		if ev.Kind == "call" && ev.Result == l && (strings.HasPrefix(ev.Callee, "slices.Concat") || strings.HasPrefix(ev.Callee, "slices.Clone")) {
			var r []*Term
			for i, a := range ev.Args {
				if i < len(ev.Vals) && ev.Vals[i].op == "slicelit" {
					a = ev.Vals[i]
				}
				if a = e.snapshot(c.x.St, a); a.op == "slicelit" && strings.HasPrefix(ev.Callee, "slices.Concat") {
					for _, x := range a.args {
						r = append(r, c.partsOf(x)...)
					}
				} else {
					r = append(r, c.partsOf(a)...)
				}
			}
			return r
		}
		if ev.Kind != "loop" {
			continue
		}
		for _, s := range ev.Loop.Slots { // each element of another list is appended
			if s.Sym != l {
				continue
			}
			var src *Term
			for k, b := range s.Backs {
				if b.op != "append" || b.aux == "..." || len(b.args) != 2 || b.args[0] != s.Sym || k >= len(ev.Loop.Backs) {
					return []*Term{nil}
				}
				a := e.readFrom(b.args[1])
				if a == nil || a.op != "index" || src != nil && src != a.args[0] {
					return []*Term{nil}
				}
				src = a.args[0]
				ix := loopOver(e, c.x.St, ev.Loop, src)
				if ix == nil || !e.sameInt(ev.Loop.Backs[k], a.args[1], ix, false) {
					return []*Term{nil}
				}
			}
			if src == nil {
				return c.partsOf(s.Entry)
			}
			return append(c.partsOf(s.Entry), c.partsOf(src)...)
		}
	}
	if cp := e.copied(c.x.St, l); cp != l {
		return c.partsOf(cp)
	}
	return []*Term{nil}
}

// wholeOf: the lists are exactly these, apart from empty ones.
func (c *cmdRun) wholeOf(got, want []*Term) bool {
	e := c.rr.e
	drop := func(l []*Term) []*Term {
		var r []*Term
		for _, t := range l {
			if t != nil && e.isEmptyList(c.x.St, t) {
				continue
			}
			r = append(r, t)
		}
		return r
	}
	got, want = drop(got), drop(want)
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if got[i] != want[i] {
			return false
		}
	}
	return true
}

// printed: the lists are given to Print, in this order.
func (c *cmdRun) printed(want ...*Term) {
	var got []*Term
	for _, ev := range c.x.St.events() {
		switch {
		case ev.Kind == "loop":
			for _, it := range ev.Loop.Iters {
				for _, x := range allEvents(it) {
					if c.writes(x) {
						c.check(false, c.key, evPos(x), "something else is printed")
						return
					}
				}
			}
		case callTo(ev) == "Print" && strings.Contains(ev.Callee, "(Cli)"):
			if !c.check(ev.Args[0] == c.ctx && ev.Args[1].op == "iface" && typeName(ev.Args[1].T) != "", c.key, evPos(ev), "what is printed is not a list of the schema") {
				return
			}
			got = append(got, c.partsOf(ev.Args[1])...)
		case c.writes(ev):
			c.check(false, c.key, evPos(ev), "something else is printed")
			return
		}
	}
	c.check(c.wholeOf(got, want), c.key, c.x.Pos, "what is printed is not exactly what was listed")
}

// prints is the number of calls of Print.
func (c *cmdRun) prints() int {
	n := 0
	for _, ev := range allEvents(c.x.St.events()) {
		if callTo(ev) == "Print" && strings.Contains(ev.Callee, "(Cli)") {
			n++
		}
	}
	return n
}

func (c *cmdRun) isWriter(t *Term) bool {
	t = unIface(t)
	for _, ev := range c.x.St.events() {
		if callTo(ev) == "Writer" && ev.Args[0] == c.ctx && ev.Result == t {
			return true
		}
	}
	return false
}

func (c *cmdRun) writes(ev *Event) bool {
	return ev.Kind == "call" && (strings.HasPrefix(ev.Callee, "fmt.Fprint") || ev.Callee == "io.WriteString" || strings.HasSuffix(ev.Callee, ").Write") || strings.HasPrefix(ev.Callee, "fmt.Print"))
}

// named: a line with schema and name is written for each element of the lists, in this order.
func (c *cmdRun) named(want ...*Term) {
	e := c.rr.e
	tables := c.p.Named("schema", "Tables")
	if tables == nil {
		c.missing("schema.Tables")
		return
	}
	elT := tables.Underlying().(*types.Slice).Elem()
	var got []*Term
	for _, ev := range c.x.St.events() {
		if c.writes(ev) {
			c.check(false, c.key, evPos(ev), "something else is printed")
			return
		}
		if ev.Kind != "loop" {
			continue
		}
		rec := ev.Loop
		n := 0
		for _, it := range rec.Iters {
			for _, x := range allEvents(it) {
				if c.writes(x) {
					n++
				}
			}
		}
		if n == 0 {
			continue
		}
		// what it is a loop over
		list := c.loopList(rec)
		if !c.check(list != nil, c.key, evPos(ev), "the names are not printed by a loop over a whole list") {
			return
		}
		ix := loopOver(e, c.x.St, rec, list)
		for k, it := range rec.Iters {
			if k >= len(rec.Backs) {
				continue
			}
			st := rec.Backs[k]
			var w *Term
			for _, x := range allEvents(it) {
				if c.writes(x) {
					if !c.check(c.isWriter(x.Args[0]) && (w == nil || w == x.Args[0]), c.key, evPos(x), "the names are not printed to the writer of the command") {
						return
					}
					w = x.Args[0]
				}
			}
			el := e.load(st, e.ts.mk("index", "", types.NewPointer(elT), list, ix), elT)
			g := &printRule{Report: c.Report, key: c.key}
			c.check(w != nil && g.textIs(e, st, it, unIface(w), e.loadField(st, el, "Schema"), ".", e.loadField(st, el, "Name"), "\n"), c.key, evPos(ev), "not exactly one line with schema and name is printed for each element")
		}
		got = append(got, c.partsOf(list)...)
	}
	c.check(c.wholeOf(got, want), c.key, c.x.Pos, "the names that are printed are not exactly those of what was listed")
}

// loopList is the list that the loop visits completely.
func (c *cmdRun) loopList(rec *LoopRec) *Term {
	e := c.rr.e
	seen := map[*Term]bool{}
	var cand []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "index" {
			cand = append(cand, t.args[0])
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, it := range rec.Iters {
		for _, ev := range allEvents(it) {
			for _, a := range append(append([]*Term{}, ev.Args...), ev.Vals...) {
				visit(a)
			}
		}
	}
	for _, l := range cand {
		if loopOver(e, c.x.St, rec, l) != nil {
			if ps := c.partsOf(l); len(ps) > 0 && ps[0] != nil {
				return l
			}
		}
	}
	return nil
}

// document: whether the output format is json or yaml.
func (c *cmdRun) document() (v, known bool) {
	e := c.rr.e
	o := e.loadField(c.x.St, c.ctx, "O")
	none := true
	for _, s := range []string{"json", "yaml"} {
		is, k := e.evalBool(c.x.St, e.eqTerm(o, e.ts.strTerm(s), types.Typ[types.String]))
		if k && is {
			return true, true
		}
		none = none && k
	}
	return false, none
}

// views: the views are asked for if the options say so; it gives their list.
func (c *cmdRun) views(with *Term, filter string, want []*Term) ([]*Term, bool) {
	v, k := c.flag(with)
	if !c.check(k, c.key, c.x.Pos, "it is not found out whether views are asked for") {
		return nil, false
	}
	if !v {
		c.check(c.lists["ListViews"] == nil, c.key, c.x.Pos, "views are listed although they are not asked for")
		return want, true
	}
	l := c.asked("ListViews", c.opt("Schema"), c.opt(filter))
	if l == nil {
		return nil, false
	}
	return append(want, l), true
}

func runI01(r *Report) {
	r.rule("each command asks the provider of its database exactly for what its options name, and prints or generates exactly what it gets, in order")
	r.rule("every error on the way is returned, up to the exit of the program")
	r.rule("the data source is the option, or else the environment; connections and providers are kept only if they were made")
	g := &cliRule{Report: r}
	p := r.p
	n := 0
	cmd := func(name string, each func(c *cmdRun)) {
		f := p.Method(cmdPkg, name, "Run")
		if f == nil {
			r.missing(name + ".Run")
			return
		}
		n++
		g.key = "command:" + name
		rr := g.runCmd(f)
		ok := 0
		for _, x := range rr.returns() {
			c := &cmdRun{cliRule: g, rr: rr, x: x, a: rr.args[0], ctx: rr.args[1]}
			if !c.calls() || !rr.succeeds(x) {
				continue
			}
			if ret, has := errResult(f, x); has { // a failure of the last call
				if nl, k := rr.e.nilness(x.St, ret); !k {
					_ = nl
					rr.e.assume(x.St, rr.e.eqTerm(ret, rr.e.ts.nilTerm(), errorType), true)
				}
			}
			ok++
			each(c)
		}
		r.check(ok > 0, g.key, f.Pos(), "the command never succeeds")
	}
	cmd("PrintColumnsCmd", func(c *cmdRun) {
		l := c.asked("ListTables", c.opt("Schema"), c.opt("Table"), c.opt("Dependencies"))
		if l == nil {
			return
		}
		if want, ok := c.views(c.opt("Views"), "Table", []*Term{l}); ok {
			c.printed(want...)
			c.check(c.prints() >= 1, c.key, c.x.Pos, "nothing is printed")
		}
	})
	cmd("PrintTablesCmd", func(c *cmdRun) {
		l := c.asked("ListTables", c.opt("Schema"), c.opt("Table"), c.rr.e.ts.boolTerm(true))
		if l == nil {
			return
		}
		if want, ok := c.views(c.opt("Views"), "Table", []*Term{l}); ok {
			c.output(want)
		}
	})
	cmd("PrintViewsCmd", func(c *cmdRun) {
		if l := c.asked("ListViews", c.opt("Schema"), c.opt("View")); l != nil {
			c.check(c.lists["ListTables"] == nil, c.key, c.x.Pos, "tables are listed")
			c.output([]*Term{l})
		}
	})
	cmd("PrintFKCmd", func(c *cmdRun) {
		if l := c.asked("ListForeignKeys", c.opt("Schema"), c.opt("Table")); l != nil {
			c.printed(l)
			c.check(c.prints() == 1, c.key, c.x.Pos, "the keys are not printed once")
		}
	})
	cmd("GenerateCmd", func(c *cmdRun) {
		e := c.rr.e
		l := c.asked("ListTables", c.opt("Schema"), c.opt("Table"), c.opt("Dependencies"))
		if l == nil {
			return
		}
		want, ok := c.views(e.positive(e.lenOf(c.opt("View"))), "View", []*Term{l})
		if !ok {
			return
		}
		var gen *Event
		for _, ev := range c.x.St.events() {
			if callTo(ev) == "generate" {
				c.check(gen == nil, c.key, evPos(ev), "the code is generated twice")
				gen = ev
			}
		}
		if !c.check(gen != nil && len(gen.Args) == 5, c.key, c.x.Pos, "no code is generated") {
			return
		}
		name := false
		for _, ev := range c.x.St.events() {
			name = name || strings.HasSuffix(ev.Callee, "schema.(Provider).Name") && ev.Result == gen.Args[2]
		}
		c.check(gen.Args[0] == c.a && gen.Args[1] == c.ctx && name && c.is(gen.Args[3], c.opt("DB")), c.key, evPos(gen), "the code is not generated for this command, provider and database")
		c.check(c.wholeOf(c.partsOf(gen.Args[4]), want), c.key, evPos(gen), "the code is not generated for exactly what was listed")
	})
	r.atLeast(n, 5, "commands")
	g.context()
	g.program()
}

// output: the list as a document, or the names.
func (c *cmdRun) output(want []*Term) {
	doc, k := c.document()
	if !c.check(k, c.key, c.x.Pos, "the output format is not found out") {
		return
	}
	if doc {
		c.printed(want...)
		c.check(c.prints() == 1, c.key, c.x.Pos, "not one document is printed")
		return
	}
	c.check(c.prints() == 0, c.key, c.x.Pos, "names are not all that is printed")
	c.named(want...)
}

// context checks what the commands get from Cli.
func (g *cliRule) context() {
	p, r := g.p, g.Report
	m := func(name string) *ssa.Function {
		f := p.Method(cliPkg, "Cli", name)
		if f == nil {
			r.missing("Cli." + name)
		}
		g.key = "context:" + name
		return f
	}
	quiet := func(e *Engine, names ...string) {
		e.Impure = map[string]bool{"os.Getenv": true, "os.LookupEnv": true}
		e.OnCall = func(e *Engine, st *State, c *Call) *Outcome {
			for _, n := range names {
				if strings.HasSuffix(c.Name, n) {
					return quietCall(e, st, c)
				}
			}
			return nil
		}
	}
	old := func(rr *runRes, name string) *Term { return rr.e.loadField(newState(), rr.args[0], name) }
	now := func(rr *runRes, x *Exit, name string) *Term { return rr.e.loadField(x.St, rr.args[0], name) }
	isNil := func(rr *runRes, x *Exit, t *Term) (bool, bool) { return rr.e.nilness(x.St, t) }

	if f := m("AfterApply"); f != nil {
		rr := r.run(f, func(e *Engine, st *State, a []*Term) { quiet(e, "os.Getenv", "os.LookupEnv", "SetGlobalLogLevel") })
		for _, x := range rr.returns() {
			e := rr.e
			was := old(rr, "SQLSource")
			none, known := e.evalBool(x.St, e.eqTerm(was, e.ts.strTerm(""), types.Typ[types.String]))
			var env *Term
			for _, ev := range x.St.events() {
				if (ev.Callee == "os.Getenv" || ev.Callee == "os.LookupEnv") && isConstStr(ev.Args[0], "XDB_DATASOURCE") {
					env = ev.Result
					if env.op == "tuple" {
						env = env.args[0]
					}
				}
			}
			v := now(rr, x, "SQLSource")
			if !r.check(known || v == was, g.key, x.Pos, "it is not found out whether the option is given") {
				continue
			}
			empty := func(t *Term) (bool, bool) {
				return e.evalBool(x.St, e.eqTerm(t, e.ts.strTerm(""), types.Typ[types.String]))
			}
			ve, vk := empty(v)
			if rr.succeeds(x) {
				r.check(vk && !ve, g.key, x.Pos, "there may be no data source")
				if known && none {
					r.check(env != nil && v == env, g.key, x.Pos, "the data source is not that of the environment")
				} else {
					r.check(v == was, g.key, x.Pos, "the data source is not that of the option")
				}
			} else {
				e1, k1 := false, false
				if env != nil {
					e1, k1 = empty(env)
				}
				r.check(known && none && k1 && e1, g.key, x.Pos, "the data source is refused")
			}
			dbg, dk := e.evalBool(x.St, old(rr, "Debug"))
			lvl := 0
			for _, ev := range x.St.events() {
				if strings.HasSuffix(ev.Callee, "SetGlobalLogLevel") {
					lvl++
					want := "DEBUG"
					if dk && !dbg {
						want = "ERROR"
					}
					c, ok := ev.Args[0].constInt()
					w := p.extConst("github.com/effective-security/xlog", want)
					r.check(dk && ok && w != "" && c.String() == w, g.key, evPos(ev), "the log level is not that of the option")
				}
			}
			r.check(lvl == 1, g.key, x.Pos, "the log level is not set once")
		}
	}
	if f := m("DB"); f != nil {
		rr := r.run(f, func(e *Engine, st *State, a []*Term) { quiet(e, "xdb.NewProvider") })
		g.kept(rr, "db", p.Func("", "NewProvider"), func(x *Exit) *Term {
			var v *Term
			for _, ev := range x.St.events() {
				if strings.HasSuffix(ev.Callee, "xdb.NewProvider") {
					r.check(v == nil && ev.Args[0] == old(rr, "SQLSource") && ev.Args[1] == rr.args[1], g.key, evPos(ev), "the connection is not made once, for the data source and the database")
					r.mustFail(g.key, rr, x, ev, "connecting")
					v = ev.Result.args[0]
				}
			}
			return v
		})
	}
	if f := m("SchemaProvider"); f != nil {
		rr := r.run(f, func(e *Engine, st *State, a []*Term) { quiet(e, "(Cli).DB", "schema.NewProvider", "(Provider).Name") })
		g.kept(rr, "schema", nil, func(x *Exit) *Term {
			var v, db, name *Term
			for _, ev := range x.St.events() {
				switch n := callTo(ev); {
				case n == "DB":
					r.check(db == nil && ev.Args[0] == rr.args[0] && ev.Args[1] == rr.args[1], g.key, evPos(ev), "the connection is not for the database")
					r.mustFail(g.key, rr, x, ev, "connecting")
					db = ev.Result.args[0]
				case n == "Name":
					if db != nil && unIface(ev.Args[0]) == unIface(db) {
						name = ev.Result
					}
				case strings.HasSuffix(ev.Callee, "schema.NewProvider"):
					r.check(v == nil && db != nil && baseIface(ev.Args[0]) == baseIface(db) && name != nil && ev.Args[1] == name, g.key, evPos(ev), "the provider is not made of the connection and its name")
					v = ev.Result
				}
			}
			return v
		})
	}
	for name, fd := range map[string][2]string{"Writer": {"output", "Stdout"}, "ErrWriter": {"errOutput", "Stderr"}, "Reader": {"stdin", "Stdin"}} {
		f := m(name)
		if f == nil {
			continue
		}
		rr := r.run(f, nil)
		for _, x := range rr.returns() {
			was := old(rr, fd[0])
			n, k := isNil(rr, x, was)
			if !r.check(k, g.key, x.Pos, "it is not found out whether one was given") {
				continue
			}
			if !n {
				r.check(x.Results[0] == was, g.key, x.Pos, "it is not the one that was given")
			} else {
				v := unIface(x.Results[0])
				a := rr.e.readFrom(v)
				r.check(a != nil && a.op == "global" && a.gl != nil && a.gl.Pkg.Pkg.Path() == "os" && a.gl.Name() == fd[1], g.key, x.Pos, "it is %s, not os.%s", v, fd[1])
			}
		}
	}
	for name, fd := range map[string]string{"WithWriter": "output", "WithErrWriter": "errOutput", "WithReader": "stdin", "WithSchemaProvider": "schema"} {
		f := m(name)
		if f == nil {
			continue
		}
		rr := r.run(f, nil)
		for _, x := range rr.returns() {
			r.check(now(rr, x, fd) == rr.args[1] && x.Results[0] == rr.args[0], g.key, x.Pos, "what is given is not kept")
		}
	}
	if f := m("Context"); f != nil {
		rr := r.run(f, nil)
		for _, x := range rr.returns() {
			n, k := isNil(rr, x, old(rr, "ctx"))
			v := x.Results[0]
			r.check(k && (!n && v == old(rr, "ctx") || n && v == now(rr, x, "ctx")), g.key, x.Pos, "it is not the context that is kept")
			vn, vk := isNil(rr, x, v)
			r.check(!(vk && vn), g.key, x.Pos, "there is no context")
		}
	}
	if f := m("Print"); f != nil {
		rr := r.run(f, func(e *Engine, st *State, a []*Term) { quiet(e, "print.Object", "(Cli).Writer") })
		for _, x := range rr.returns() {
			var obj *Event
			for _, ev := range x.St.events() {
				if strings.HasSuffix(ev.Callee, "print.Object") {
					r.check(obj == nil, g.key, evPos(ev), "it is printed twice")
					obj = ev
				}
			}
			if !r.check(obj != nil, g.key, x.Pos, "nothing is printed") {
				continue
			}
			w := false
			for _, ev := range x.St.events() {
				w = w || callTo(ev) == "Writer" && ev.Args[0] == rr.args[0] && ev.Result == obj.Args[0]
			}
			r.check(w && obj.Args[1] == old(rr, "O") && obj.Args[2] == rr.args[1], g.key, evPos(obj), "it is not the value in the chosen format to the writer")
			r.mustFail(g.key, rr, x, obj, "printing")
			r.check(!rr.succeeds(x) || x.Results[0] == obj.Result || known0(rr, x, obj.Result), g.key, x.Pos, "the error is lost")
		}
	}
	if f := m("Close"); f != nil {
		rr := r.run(f, func(e *Engine, st *State, a []*Term) { quiet(e, ").Close") })
		for _, x := range rr.returns() {
			was := old(rr, "db")
			n, k := isNil(rr, x, was)
			if !r.check(k, g.key, x.Pos, "it is not found out whether there is a connection") || n {
				continue
			}
			c := 0
			for _, ev := range x.St.events() {
				if callTo(ev) == "Close" && ev.Args[0] == was {
					c++
				}
			}
			nn, nk := isNil(rr, x, now(rr, x, "db"))
			r.check(c == 1 && nk && nn, g.key, x.Pos, "the connection is not closed once and forgotten")
		}
	}
}

func known0(rr *runRes, x *Exit, err *Term) bool {
	n, k := rr.e.nilness(x.St, err)
	return k && n
}

// baseIface strips changes of the interface.
func baseIface(t *Term) *Term {
	for t.op == "iface" || t.op == "chgiface" {
		t = t.args[0]
	}
	return t
}

// kept: the field is what it was if it was there, or else what is made, if it is made.
func (g *cliRule) kept(rr *runRes, name string, maker *ssa.Function, made func(x *Exit) *Term) {
	r := g.Report
	for _, x := range rr.returns() {
		e := rr.e
		was := e.loadField(newState(), rr.args[0], name)
		is := e.loadField(x.St, rr.args[0], name)
		n, k := e.nilness(x.St, was)
		if !r.check(k, g.key, x.Pos, "it is not found out whether there is one") {
			continue
		}
		v := made(x)
		if !n {
			r.check(v == nil && is == was && x.Results[0] == was && rr.succeeds(x), g.key, x.Pos, "the one that is there is not used")
			continue
		}
		if rr.succeeds(x) {
			r.check(v != nil && is == v && x.Results[0] == v, g.key, x.Pos, "what is returned and kept is not what was made")
		} else {
			kn, kk := e.nilness(x.St, is)
			if is == v && v != nil && maker != nil && g.givesNil(maker) {
				continue
			}
			r.check(kk && kn, g.key, x.Pos, "something is kept although it failed")
		}
	}
}

// givesNil: the function gives nothing with an error.
func (g *cliRule) givesNil(f *ssa.Function) bool {
	rr := g.run(f, nil)
	for _, x := range rr.returns() {
		if rr.fails(x) {
			s := x.St.clone()
			if err, ok := errResult(f, x); ok && !rr.e.assume(s, rr.e.eqTerm(err, rr.e.ts.nilTerm(), errorType), false) {
				continue
			}
			if n, k := rr.e.nilness(s, x.Results[0]); !k || !n {
				return false
			}
		}
	}
	return true
}

// program checks the program itself.
func (g *cliRule) program() {
	p, r := g.p, g.Report
	f := p.Func("cmd/xdbcli", "realMain")
	g.key = "program"
	if f == nil {
		r.missing("realMain")
		return
	}
	rr := r.run(f, func(e *Engine, st *State, a []*Term) {
		e.OnCall = func(e *Engine, st *State, c *Call) *Outcome {
			if strings.Contains(c.Name, "alecthomas/kong.") || strings.HasSuffix(c.Name, "(Cli).Close") {
				return quietCall(e, st, c)
			}
			return nil
		}
	})
	n := 0
	for _, x := range rr.returns() {
		n++
		e := rr.e
		var parse, run, closed *Event
		fatal := map[*Term]bool{}
		reported := func(err *Term) bool {
			if fatal[err] {
				return true
			}
			nl, k := e.nilness(x.St, err)
			return k && nl
		}
		outs := map[string]bool{}
		for _, ev := range x.St.events() {
			if ev.Kind == "store" && ev.Args[0].op == "field" {
				for i, n := range []string{"output", "errOutput"} {
					if fieldName(ev.Args[0].aux) == n {
						outs[n] = ev.Args[1] == rr.args[1+i]
					}
				}
			}
			switch {
			case strings.HasSuffix(ev.Callee, "kong.(Kong).Parse"):
				r.check(parse == nil, g.key, evPos(ev), "the arguments are parsed twice")
				r.check(outs["output"] && outs["errOutput"], g.key, evPos(ev), "the commands do not write to the outputs of the program")
				parse = ev
				l := ev.Args[1]
				lo, ok := l, false
				if l.op == "slice" {
					lo = l.args[1]
					ok = l.args[0] == rr.args[0] && lo.isInt(1) && (l.args[2].isNil() || l.args[2] == e.lenOf(rr.args[0]))
				}
				r.check(ok, g.key, evPos(ev), "what is parsed is %s, not the arguments after the name of the program", l)
			case strings.HasSuffix(ev.Callee, "kong.(Context).Run"):
				r.check(run == nil && parse != nil && ev.Args[0] == parse.Result.args[0], g.key, evPos(ev), "what is run is not the command that was parsed")
				r.check(parse != nil && reported(parse.Result.args[1]), g.key, evPos(ev), "the command is run before an error of the arguments is reported")
				run = ev
			case strings.HasSuffix(ev.Callee, ").FatalIfErrorf"):
				fatal[ev.Args[1]] = true
			case strings.HasSuffix(ev.Callee, "(Cli).Close"):
				closed = ev
			}
		}
		if !r.check(parse != nil, g.key, x.Pos, "the arguments are not parsed") {
			continue
		}
		r.check(reported(parse.Result.args[1]), g.key, evPos(parse), "an error of the arguments is not reported")
		if nl, k := e.nilness(x.St, parse.Result.args[0]); k && nl {
			r.check(run == nil, g.key, x.Pos, "there is no command to run")
		} else if r.check(run != nil, g.key, x.Pos, "the command is not run") {
			r.check(reported(run.Result), g.key, evPos(run), "an error of the command is not reported")
		}
		r.check(closed != nil, g.key, x.Pos, "the connection is not closed")
	}
	r.check(n > 0, g.key, f.Pos(), "the program never ends")
}

// extConst is the value of a constant of a package that the repository imports.
func (p *Program) extConst(path, name string) string {
	for _, pk := range p.pkgs {
		for _, im := range pk.Types.Imports() {
			if im.Path() == path {
				if c, ok := im.Scope().Lookup(name).(*types.Const); ok {
					return c.Val().ExactString()
				}
			}
		}
	}
	return ""
}
