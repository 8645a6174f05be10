package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// done checks a path of the generator that succeeds.
func (g *genRule) done(x *Exit) {
	st := x.St
	rounds := 0
	for _, ev := range st.events() {
		if ev.Kind != "loop" {
			g.failed(st, ev)
			continue
		}
		if g.modelLoop(ev.Loop) {
			rounds++
			if !g.seenLoops[ev.Loop] {
				g.seenLoops[ev.Loop] = true
				g.schemas(st, ev.Loop)
			}
			for _, b := range ev.Loop.Backs {
				g.check(g.schemaName(st, b, ev.Loop) != nil, "all:schemas", g.pos, "the generator succeeds although it may not have gone through all schemas")
			}
			continue
		}
		for k, it := range ev.Loop.Iters {
			if k < len(ev.Loop.Backs) {
				for _, i := range it {
					g.failed(ev.Loop.Backs[k], i)
				}
			}
		}
	}
	g.check(rounds == 1, "all:schemas", g.pos, "the generator succeeds after %d loops over the schemas", rounds)
	g.overrides(st)
}

// execution is what an event writes, if it executes a template.
func (g *genRule) execution(st *State, ev *Event) *tmplKind {
	if ev.Kind != "call" || ev.Callee != tmplExec {
		return nil
	}
	text, ok := g.text(st, ev.Args[0])
	if !ok {
		g.check(false, "template", ev.Instr.Pos(), "a template that is not known is executed")
		return nil
	}
	return g.kindOf(text)
}

// modelLoop: the loop has, or contains a loop that has, executions of the template of models.
func (g *genRule) modelLoop(rec *LoopRec) bool {
	for k, it := range rec.Iters {
		if k >= len(rec.Backs) {
			continue
		}
		for _, ev := range it {
			if ev.Kind == "loop" && g.modelLoop(ev.Loop) {
				return true
			}
			if kd := g.execution(rec.Backs[k], ev); kd != nil && kd.kind == "model" {
				return true
			}
		}
	}
	return false
}

// failed: what may fail has not failed on a path that goes on.
func (g *genRule) failed(st *State, ev *Event) {
	if ev.Kind != "call" {
		return
	}
	switch {
	case ev.Callee == tmplExec, ev.Callee == "go/format.Source", ev.Callee == "os.WriteFile", ev.Callee == "os.MkdirAll",
		isWrite(ev.Callee), strings.HasSuffix(ev.Callee, "configloader.Unmarshal"):
	default:
		return
	}
	r := ev.Result
	if r != nil && len(r.args) > 0 && (r.op == "tuple") {
		r = r.args[len(r.args)-1]
	}
	g.check(r != nil && knownNil(g.e, st, r), "error:"+method(ev.Callee), ev.Instr.Pos(), "the generator goes on although %s may have failed", method(ev.Callee))
}

func isWrite(callee string) bool {
	return strings.HasSuffix(callee, "io.(Writer).Write") || callee == "os.(File).Write"
}

// keys: the list has the keys of the map.
func (g *genRule) keys(st *State, list *Term) *Term {
	for _, ev := range st.events() {
		if ev.Kind == "call" && strings.HasSuffix(ev.Callee, "maps.OrderedKeys") && ev.Result == list {
			return unIface(ev.Args[0])
		}
	}
	_, s := g.e.listSlot(st, list)
	if s == nil {
		return nil
	}
	var m *Term
	for _, b := range s.Backs {
		if b.op != "append" || b.aux == "..." || len(b.args) != 2 || b.args[0] != s.Sym || b.args[1].op != "extract" || b.args[1].aux != "1" {
			return nil
		}
		m = rangedOver(b.args[1])
	}
	return m
}

// schemas checks the loop over the schemas.
func (g *genRule) schemas(st *State, rec *LoopRec) {
	for k, it := range rec.Iters {
		if k < len(rec.Backs) {
			g.round(st, rec.Backs[k], rec, it)
		}
	}
}

type genWrite struct {
	ev      *Event
	content []*Event
	data    *Term
}

// round checks what is made for one schema.
func (g *genRule) round(after, st *State, rec *LoopRec, it []*Event) {
	content := map[*Term][]*Event{} // of buffers
	bytes := map[*Term][]*Event{}   // of texts
	var writes []genWrite
	texts := map[*Term]*Event{}
	for _, ev := range it {
		g.failed(st, ev)
		if ev.Kind == "loop" {
			for k, in := range ev.Loop.Iters {
				if k >= len(ev.Loop.Backs) {
					continue
				}
				for _, i := range in {
					g.failed(ev.Loop.Backs[k], i)
				}
			}
			bufs := map[*Term]bool{}
			for _, i := range allEvents([]*Event{ev}) {
				if i.Kind == "call" && i.Callee == tmplExec {
					bufs[unIface(i.Args[1])] = true
				}
			}
			for b := range bufs {
				content[b] = append(content[b], ev)
			}
			continue
		}
		if ev.Kind != "call" {
			continue
		}
		switch {
		case ev.Callee == tmplExec:
			b := unIface(ev.Args[1])
			content[b] = append(content[b], ev)
		case ev.Callee == "bytes.(Buffer).Reset":
			content[ev.Args[0]] = nil
		case ev.Callee == "bytes.(Buffer).Bytes", ev.Callee == "bytes.(Buffer).String":
			bytes[ev.Result] = content[ev.Args[0]]
			texts[ev.Result] = ev
		case strings.HasPrefix(ev.Callee, "bytes.(Buffer).Write"), strings.HasPrefix(ev.Callee, "fmt.Fprint"):
			g.check(content[unIface(ev.Args[0])] == nil, "write:other", ev.Instr.Pos(), "something else is written into the generated code")
		case ev.Callee == "go/format.Source":
			src := ev.Args[0]
			if src.op == "conv" && len(src.args) == 1 {
				src = src.args[0]
			}
			if c, ok := bytes[src]; ok && ev.Result != nil && len(ev.Result.args) == 2 {
				bytes[ev.Result.args[0]] = c
				texts[ev.Result.args[0]] = ev
			}
		case ev.Callee == "os.WriteFile", isWrite(ev.Callee):
			d := ev.Args[1]
			g.check(texts[d] != nil && texts[d].Callee == "go/format.Source", "write:code", ev.Instr.Pos(), "what is written is not the formatted text that was generated")
			writes = append(writes, genWrite{ev, bytes[d], d})
		}
	}
	g.check(len(writes) == 2, "write:two", g.pos, "%d texts are written for a schema, not the models and the descriptions", len(writes))
	var names []*Term
	var header, info *Event
	for _, w := range writes {
		kinds := map[string][]*Event{}
		var order []string
		for _, c := range w.content {
			k := g.contentKind(st, c)
			kinds[k] = append(kinds[k], c)
			order = append(order, k)
		}
		o := strings.Join(order, " ")
		what, folder := "", ""
		switch o {
		case "header model":
			what, folder, header = "models", "OutModel", kinds["header"][0]
		case "info defs":
			what, folder, info = "descriptions", "OutSchema", kinds["info"][0]
		}
		g.check(what != "", "write:content", w.ev.Instr.Pos(), "what is written is made of %s", o)
		if what == "" {
			continue
		}
		if n := g.place(after, st, rec, w.ev, folder, what); n != nil {
			names = append(names, n)
		}
	}
	g.check(len(names) < 2 || names[0] != names[1], "write:names", g.pos, "the models and the descriptions are written to the same file")
	if header == nil || info == nil {
		return
	}
	g.head2(st, header.Args[2], "OutModel", "PkgModel", true)
	g.head2(st, info.Args[2], "OutSchema", "PkgSchema", false)
	// the tables
	var L *Term
	hd, id := header.Args[2], info.Args[2]
	for _, w := range writes {
		for _, c := range w.content {
			if c.Kind == "loop" && g.contentKind(st, c) == "model" {
				L = g.models(after, st, rec, c.Loop, g.at(st, hd, "Package"), g.at(st, id, "Package"))
			}
		}
	}
	if L == nil {
		return
	}
	for _, w := range writes {
		for _, c := range w.content {
			switch g.contentKind(st, c) {
			case "info":
				g.infos(st, c, L)
			case "defs":
				g.columnDefs(st, c.Loop, L)
			}
		}
	}
}

func (g *genRule) contentKind(st *State, c *Event) string {
	if c.Kind == "call" {
		k := g.execution(st, c)
		if k == nil {
			return "?"
		}
		if k.kind == "other" && strings.Contains(k.text, "package ") {
			return "header"
		}
		return k.kind
	}
	r := ""
	for k, it := range c.Loop.Iters {
		if k >= len(c.Loop.Backs) {
			continue
		}
		n := 0
		for _, ev := range it {
			if ev.Kind == "loop" {
				for _, i := range allEvents([]*Event{ev}) {
					if i.Kind == "call" && i.Callee == tmplExec {
						return "?"
					}
				}
			}
			if kd := g.execution(c.Loop.Backs[k], ev); kd != nil {
				if n++; r != "" && r != kd.kind {
					return "?"
				}
				r = kd.kind
			}
		}
		if n != 1 {
			return "loop that may write nothing or more than one element"
		}
	}
	return r
}

// place checks where a text is written to; it returns the name of the file.
func (g *genRule) place(after, st *State, rec *LoopRec, w *Event, folder, what string) *Term {
	e := g.e
	dir := e.loadField(st, g.a, folder)
	none, known := e.evalBool(st, e.eqTerm(dir, e.ts.strTerm(""), dir.typ))
	if w.Callee != "os.WriteFile" {
		from := g.writer(st, w.Args[0])
		g.check(from == "" || strings.HasSuffix(from, "(Cli).Writer"), "place:"+what, w.Instr.Pos(), "the %s are written to %s, not to the output of the program", what, from)
		g.check(known && none, "place:"+what, w.Instr.Pos(), "the %s are not written to the folder", what)
		return nil
	}
	p := w.Args[0]
	ok := known && !none && (isPure(p, "path/filepath.Join") || isPure(p, "path.Join"))
	var parts []*Term
	if ok {
		parts = p.args
		if len(parts) == 1 && parts[0].op == "slicelit" {
			parts = parts[0].args
		}
		ok = len(parts) == 2 && parts[0] == dir
	}
	g.check(ok, "place:"+what, w.Instr.Pos(), "the %s are written to %s, not to a file in their folder", what, p)
	if !ok {
		return nil
	}
	name := parts[1]
	// one file for each schema
	key := g.schemaName(after, st, rec)
	if key != nil && !name.any(func(t *Term) bool { return t == key }) {
		m := g.keyMap
		one := false
		if m != nil {
			l := e.load(st, e.ts.mk("maplen", "", nil, m), types.Typ[types.Int])
			v, k := e.evalBool(st, e.le0(linAdd(toLin(l), toLin(e.ts.intTerm(1)), -1)))
			one = k && v
		}
		g.check(one, "place:"+what, w.Instr.Pos(), "the %s of different schemas are written to the same file", what)
	}
	return name
}

// schemaName is the key that an iteration is about; after is the state after the loop.
func (g *genRule) schemaName(after, st *State, rec *LoopRec) *Term {
	e := g.e
	if n := mapLoop(rec); n != nil {
		if nx := st.env[n]; nx != nil && len(nx.args) > 1 {
			g.keyMap = rangedOver(nx.args[1])
			return nx.args[1]
		}
		return nil
	}
	as := map[*Term]*Term{}
	for a, v := range st.mem {
		as[a] = v
	}
	for _, v := range st.env {
		if v != nil {
			if a := e.readFrom(v); a != nil && as[a] == nil {
				as[a] = v
			}
		}
	}
	for _, a := range sortedTerms(as) {
		if a.op != "index" || as[a] == nil {
			continue
		}
		if m := g.keys(st, a.args[0]); m != nil {
			if ix := loopOver(e, after, rec, a.args[0]); ix == a.args[1] {
				g.keyMap = m
				return as[a]
			}
		}
	}
	return nil
}

// models checks the loop over the tables of a schema that writes the models; it returns the list.
func (g *genRule) models(after, st *State, outer, rec *LoopRec, pkg, spkg *Term) *Term {
	e := g.e
	var L *Term
	for k, it := range rec.Iters {
		if k >= len(rec.Backs) {
			continue
		}
		bst := rec.Backs[k]
		for _, ev := range it {
			kd := g.execution(bst, ev)
			if kd == nil {
				continue
			}
			g.execs["model"]++
			T := g.tableOf(bst, ev.Args[2], kd)
			if T == nil {
				g.check(false, "model:columns", ev.Instr.Pos(), "a model is not made of the columns of a table")
				return nil
			}
			a := e.readFrom(T)
			if a == nil || a.op != "index" {
				g.check(false, "model:table", ev.Instr.Pos(), "a model is not made of a table of the schema")
				return nil
			}
			L = a.args[0]
			g.check(loopOver(e, st, rec, L) == a.args[1], "model:each", ev.Instr.Pos(), "the models are not made of each table of the schema")
			la := e.readFrom(L)
			name := g.schemaName(after, st, outer)
			g.check(la != nil && la.op == "mapel" && g.keyMap != nil && la.args[0] == g.keyMap && la.args[1] == name || name != nil && rangedOver(L) == g.keyMap && g.keyMap != nil, "model:schema", ev.Instr.Pos(), "the models are not made of the tables of the schema")
			g.names(bst, ev.Args[2], kd, T, pkg, spkg)
			g.modelName(bst, ev.Args[2], kd, T, name)
			if kd.cache {
				wa := e.readFrom(g.at(bst, ev.Args[2], "WithCache"))
				ok := wa != nil && wa.op == "mapel" && wa.args[0].op == "gval" && wa.args[1] == e.loadField(bst, T, "SchemaName")
				g.check(ok, "model:cache", ev.Instr.Pos(), "whether a model has cached properties is not decided by its table")
				if ok {
					g.cache = wa.args[0]
				}
			}
		}
	}
	if L == nil {
		return nil
	}
	if g.keyMap != nil && !g.grouped[g.keyMap] {
		g.grouped[g.keyMap] = true
		g.check(g.groups(st, g.keyMap), "all:tables", g.pos, "the tables of a schema are not all tables that were found with this schema, each once")
	}
	return L
}

// groups: the map has each table of the result in the list of its schema.
func (g *genRule) groups(st *State, m *Term) bool {
	e := g.e
	var upd []*Event
	for _, ev := range allEvents(st.events()) {
		if ev.Kind == "mapupdate" && ev.Args[0] == m {
			upd = append(upd, ev)
		}
	}
	for _, ev := range st.events() {
		if ev.Kind != "loop" {
			continue
		}
		ix := loopOver(e, st, ev.Loop, g.tables)
		if ix == nil || len(ev.Loop.Iters) == 0 {
			continue
		}
		n, ok := 0, true
		for k, it := range ev.Loop.Iters {
			if k >= len(ev.Loop.Backs) {
				continue
			}
			bst := ev.Loop.Backs[k]
			elT := g.tables.typ.Underlying().(*types.Slice).Elem()
			T := e.load(bst, e.ts.mk("index", "", types.NewPointer(elT), g.tables, ix), elT)
			c := 0
			for _, i := range it {
				if i.Kind != "mapupdate" || i.Args[0] != m {
					continue
				}
				c++
				n++
				v := i.Args[2]
				key := e.loadField(bst, T, "Schema")
				good := i.Args[1] == key && v.op == "append" && v.aux != "..." && len(v.args) == 2 && v.args[1] == T
				if good {
					old := e.readFrom(v.args[0])
					good = old != nil && old.op == "mapel" && old.args[0] == m && old.args[1] == key
					if nn, kn := e.nilness(bst, v.args[0]); kn && nn { // the first of its schema
						good = true
					}
				}
				ok = ok && good
			}
			ok = ok && c == 1
		}
		if ok && n == len(upd) {
			return true
		}
	}
	return false
}

// tableOf is the table that the columns of the data of a template are taken from.
func (g *genRule) tableOf(st *State, d *Term, k *tmplKind) *Term {
	cols := g.at(st, d, k.cols)
	if cols == nil {
		return nil
	}
	return g.filtered(st, cols, false)
}

// filtered: the list has the columns of a table, or their names, without those that are dropped; it returns the table.
func (g *genRule) filtered(st *State, list *Term, names bool) *Term {
	e := g.e
	rec, s := e.listSlot(st, list)
	if s == nil {
		return nil
	}
	if names { // the names of the columns that are kept
		var src *Term
		for _, b := range s.Backs {
			if b.op != "append" || b.aux == "..." || len(b.args) != 2 {
				continue
			}
			if a := e.readFrom(b.args[1]); a != nil && a.op == "field" && fieldName(a.aux) == "Name" {
				if ia := e.readFrom(a.args[0]); ia != nil && ia.op == "index" {
					src = ia.args[0]
				}
			}
		}
		if src != nil {
			if _, ss := e.listSlot(st, src); ss != nil && ss != s {
				if ms, ok := e.mappedFrom(st, list, src, src.typ.Underlying().(*types.Slice).Elem()); ok {
					for _, m := range ms {
						ok = ok && m.v == e.loadField(m.st, m.el, "Name")
					}
					if ok {
						return g.filtered(st, src, false)
					}
				}
			}
		}
	}
	var T, cols, mid *Term
	for k, b := range s.Backs {
		if b == s.Sym || k >= len(rec.Backs) {
			continue
		}
		if b.op != "append" || b.aux == "..." || len(b.args) != 2 || b.args[0] != s.Sym {
			return nil
		}
		t, c, m := g.columnOwner(rec.Backs[k], b.args[1], names)
		if t == nil || T != nil && (t != T || c != cols || m != mid) {
			return nil
		}
		T, cols, mid = t, c, m
	}
	if T == nil {
		return nil
	}
	for k, b := range s.Backs {
		if k >= len(rec.Backs) {
			break
		}
		bst := rec.Backs[k]
		key := g.columnKey(st, bst, rec, cols, mid)
		if key == nil {
			return nil
		}
		in, known := false, false
		if g.drop != nil {
			in, known = e.inSet(bst, g.drop, key)
		}
		g.check(known && in == (b == s.Sym), "drop:exact", g.pos, "a column is left out although it is not one to drop, or is kept although it is")
	}
	return T
}

// columnOwner: the table of a column, or of the name of a column, with the list of its columns and the list of their names, if there is one.
func (g *genRule) columnOwner(st *State, v *Term, names bool) (T, cols, mid *Term) {
	e := g.e
	a := e.readFrom(v)
	if a == nil {
		return nil, nil, nil
	}
	if names && a.op == "field" && fieldName(a.aux) == "Name" {
		return g.columnOwner(st, a.args[0], false)
	}
	if a.op != "index" {
		return nil, nil, nil
	}
	if !names {
		c := e.readFrom(a.args[0])
		if c == nil || c.op != "field" || fieldName(c.aux) != "Columns" {
			return nil, nil, nil
		}
		return c.args[0], a.args[0], nil
	}
	// an element of a list of names
	list := a.args[0]
	if list.op == "make" {
		for _, ev := range allEvents(st.events()) {
			if ev.Kind == "store" && ev.Args[0].op == "index" && ev.Args[0].args[0] == list {
				T, cols, _ = g.columnOwner(st, ev.Args[1], true)
			}
		}
	} else if _, s := e.listSlot(st, list); s != nil {
		for _, b := range s.Backs {
			if b.op != "append" || b.aux == "..." || len(b.args) != 2 {
				return nil, nil, nil
			}
			T, cols, _ = g.columnOwner(st, b.args[1], true)
		}
	}
	if T == nil {
		return nil, nil, nil
	}
	ms, ok := e.mappedFrom(st, list, cols, cols.typ.Underlying().(*types.Slice).Elem())
	for _, m := range ms {
		ok = ok && m.v == e.loadField(m.st, m.el, "Name")
	}
	if !ok {
		return nil, nil, nil
	}
	return T, cols, list
}

// columnKey is the name of the column that an iteration over the columns, or their names, is about; after is the state after the loop.
func (g *genRule) columnKey(after, st *State, rec *LoopRec, cols, mid *Term) *Term {
	e := g.e
	if mid != nil {
		if ix := loopOver(e, after, rec, mid); ix != nil {
			return e.load(st, e.ts.mk("index", "", types.NewPointer(types.Typ[types.String]), mid, ix), types.Typ[types.String])
		}
		return nil
	}
	if ix := loopOver(e, after, rec, cols); ix != nil {
		elT := cols.typ.Underlying().(*types.Slice).Elem()
		return e.loadField(st, e.load(st, e.ts.mk("index", "", types.NewPointer(elT), cols, ix), elT), "Name")
	}
	return nil
}

// expr is the value of a text with holes that are paths.
func (g *genRule) expr(st *State, d *Term, s string) *Term {
	r := g.e.ts.strTerm("")
	for s != "" {
		i := strings.IndexByte(s, '{')
		if i < 0 {
			return g.e.ts.concat(r, g.e.ts.strTerm(s))
		}
		j := strings.IndexByte(s, '}')
		if j < i {
			return nil
		}
		v := g.at(st, d, s[i+1:j])
		if v == nil || !strings.HasPrefix(s[i+1:j], ".") {
			return nil
		}
		r = g.e.ts.concat(g.e.ts.concat(r, g.e.ts.strTerm(s[:i])), v)
		s = s[j+1:]
	}
	return r
}

// infoNames are the names that the info of the table T has, by the paths of the function that names it.
func (g *genRule) infoNames(st *State, T *Term) (sts []*State, names []*Term) {
	e := g.e
	f := g.infoFn()
	if f == nil || len(f.Params) != 1 {
		return
	}
	s := st.clone()
	pt, ok := f.Params[0].Type().(*types.Pointer)
	if !ok {
		return
	}
	o := e.ts.mk("alloc", "info-of-"+T.String(), pt)
	str := pt.Elem().Underlying().(*types.Struct)
	for i := 0; i < str.NumFields(); i++ {
		n := str.Field(i).Name()
		if n == "Name" || n == "Schema" || n == "SchemaName" {
			e.store(s, e.fieldAddr(o, pt.Elem(), i), e.loadField(st, T, n), str.Field(i).Type(), "info")
		}
	}
	for _, x := range e.Run(f, s, []*Term{o}) {
		if !x.Panic && len(x.Results) == 1 {
			sts, names = append(sts, x.St), append(names, x.Results[0])
		}
	}
	return
}

// names checks that the data of a template uses the name of the info of its table.
func (g *genRule) names(st *State, d *Term, k *tmplKind, T, pkg, spkg *Term) {
	e := g.e
	got := g.expr(st, d, k.info)
	if got == nil {
		g.check(false, k.kind+":info", g.pos, "the name of the table info is %s", k.info)
		return
	}
	prefix := e.ts.strTerm("")
	if k.kind == "model" {
		same, known := e.evalBool(st, e.eqTerm(pkg, spkg, pkg.typ))
		g.check(known, "model:package", g.pos, "the table info is used without regard to its package")
		if known && !same {
			prefix = e.ts.concat(spkg, e.ts.strTerm("."))
		}
	}
	sts, names := g.infoNames(st, T)
	ok := len(names) > 0
	for i, n := range names {
		if sts[i] != nil {
			ok = ok && e.ts.concat(prefix, n) == got
		}
	}
	g.check(ok, k.kind+":info", g.pos, "the name of the table info that is used, %s, is not the one it has", k.info)
}

// infos checks the descriptions of tables.
func (g *genRule) infos(st *State, ev *Event, L *Term) {
	e := g.e
	k := g.execution(st, ev)
	g.execs["info"]++
	list := g.at(st, ev.Args[2], k.tables)
	if list == nil {
		g.check(false, "info:tables", ev.Instr.Pos(), "the table infos are not given")
		return
	}
	elT := L.typ.Underlying().(*types.Slice).Elem()
	ms, ok := e.mappedFrom(st, list, L, elT)
	g.check(ok, "info:tables", ev.Instr.Pos(), "there is not one table info for each table of the schema")
	for _, m := range ms {
		if knownNil(e, m.st, m.el) { // its fields were read before
			continue
		}
		for _, n := range []string{"Schema", "Name", "SchemaName"} {
			g.check(e.loadField(m.st, m.v, n) == e.loadField(m.st, m.el, n), "info:"+n, ev.Instr.Pos(), "%s of a table info is not that of the table", n)
		}
		pk := e.loadField(m.st, m.el, "PrimaryKey")
		got := e.loadField(m.st, m.v, "PrimaryKey")
		switch n, known := e.nilness(m.st, pk); {
		case !known:
			g.check(false, "info:PrimaryKey", ev.Instr.Pos(), "the primary key of a table info is %s %s", got, pk)
		case n:
			s, ok := got.constStr()
			g.check(ok && s == "", "info:PrimaryKey", ev.Instr.Pos(), "the table info has a primary key but the table does not")
		default:
			g.check(got == e.loadField(m.st, pk, "Name"), "info:PrimaryKey", ev.Instr.Pos(), "the primary key of a table info is not that of the table")
		}
		ix := e.loadField(m.st, m.el, "Indexes")
		ims, iok := e.mappedFrom(m.st, e.loadField(m.st, m.v, "Indexes"), ix, ix.typ.Underlying().(*types.Slice).Elem())
		for _, i := range ims {
			iok = iok && i.v == e.loadField(i.st, i.el, "Name")
		}
		g.check(iok, "info:Indexes", ev.Instr.Pos(), "the indexes of a table info are not those of the table")
		T := g.filtered(m.st, e.loadField(m.st, m.v, "Columns"), true)
		g.check(T == m.el, "info:Columns", ev.Instr.Pos(), "the columns of a table info are not those of the table without those to drop")
	}
	// the dialect
	d, isConst := g.at(st, ev.Args[2], "Dialect").constStr()
	for prov, want := range map[string]string{"postgres": "Postgres", "sqlserver": "SQLServer"} {
		v, known := e.evalBool(st, e.eqTerm(g.provider, e.ts.strTerm(prov), types.Typ[types.String]))
		if known && !v {
			continue
		}
		g.check(known && isConst && d == "xsql."+want, "info:Dialect", ev.Instr.Pos(), "the dialect for %s is %s", prov, d)
	}
}

// defs checks the descriptions of columns.
func (g *genRule) columnDefs(st *State, rec *LoopRec, L *Term) {
	e := g.e
	for k, it := range rec.Iters {
		if k >= len(rec.Backs) {
			continue
		}
		bst := rec.Backs[k]
		for _, ev := range it {
			kd := g.execution(bst, ev)
			if kd == nil {
				continue
			}
			g.execs["defs"]++
			a := e.readFrom(unIface(ev.Args[2]))
			if a == nil || a.op != "index" {
				g.check(false, "defs:each", ev.Instr.Pos(), "columns are described of %s", ev.Args[2])
				return
			}
			list := a.args[0]
			g.check(loopOver(e, st, rec, list) == a.args[1], "defs:each", ev.Instr.Pos(), "the columns are not described of each table")
			elT := L.typ.Underlying().(*types.Slice).Elem()
			ms, ok := e.mappedFrom(st, list, L, elT)
			g.check(ok, "defs:tables", ev.Instr.Pos(), "there is not one description for each table of the schema")
			for _, m := range ms {
				T := g.tableOf(m.st, m.v, kd)
				g.check(T == m.el, "defs:columns", ev.Instr.Pos(), "the columns that are described are not those of the table without those to drop")
				if T != nil {
					g.names(m.st, m.v, kd, T, nil, nil)
				}
			}
			return
		}
	}
}

// readBy are the maps of texts that a function looks up.
func (g *genRule) readBy(f *ssa.Function) map[*ssa.Global]bool {
	r := map[*ssa.Global]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(h *ssa.Function)
	visit = func(h *ssa.Function) {
		if h == nil || seen[h] || h != f && !g.p.onlyCalledFrom(h, f) {
			return
		}
		seen[h] = true
		for _, b := range h.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Lookup:
					if u, ok := in.X.(*ssa.UnOp); ok {
						if gl, ok := u.X.(*ssa.Global); ok {
							r[gl] = true
						}
					}
				case ssa.CallInstruction:
					visit(in.Common().StaticCallee())
				}
			}
		}
	}
	visit(f)
	return r
}

// read is where the definitions are read to.
func (g *genRule) read(st *State) (*Event, *Term) {
	for _, ev := range st.events() {
		if ev.Kind == "call" && strings.HasSuffix(ev.Callee, "configloader.Unmarshal") && len(ev.Args) == 2 {
			return ev, unIface(ev.Args[1])
		}
	}
	return nil, nil
}

// defined: the lists and maps of the definitions that are put into maps as a whole, by their fields.
func (g *genRule) defined(st *State) map[string]*Term {
	e := g.e
	r := map[string]*Term{}
	_, defs := g.read(st)
	if defs == nil {
		return r
	}
	pt, ok := defs.typ.Underlying().(*types.Pointer)
	if !ok {
		return r
	}
	str, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return r
	}
	for i := 0; i < str.NumFields(); i++ {
		name := str.Field(i).Name()
		addr := e.fieldAddr(defs, pt.Elem(), i)
		of := func(t *Term) bool {
			a := e.readFrom(t)
			return a != nil && a == addr
		}
		for _, ev := range st.events() {
			switch {
			case ev.Kind == "call" && ev.Callee == "maps.Copy" && of(ev.Args[1]):
				r[name] = ev.Args[0]
			case ev.Kind == "loop":
				var m *Term
				ok := len(ev.Loop.Iters) > 0
				for k, it := range ev.Loop.Iters {
					if k >= len(ev.Loop.Backs) {
						continue
					}
					n := 0
					for _, u := range it {
						if u.Kind != "mapupdate" {
							continue
						}
						n++
						key, val := u.Args[1], u.Args[2]
						good := m == nil || m == u.Args[0]
						m = u.Args[0]
						if src := rangedOver(key); src != nil { // of a map
							good = good && of(src) && key.op == "extract" && key.aux == "1" && (val.op == "extract" && val.aux == "2" && val.args[0] == key.args[0] || elementByKey(e, val, src, key))
						} else if a := e.readFrom(key); a != nil && a.op == "index" { // of a list
							v, known := e.evalBool(ev.Loop.Backs[k], val)
							good = good && of(a.args[0]) && loopOver(e, st, ev.Loop, a.args[0]) == a.args[1] && known && v
						} else {
							good = false
						}
						ok = ok && good
					}
					ok = ok && n == 1
				}
				if ok && m != nil {
					r[name] = m
				}
			}
		}
	}
	return r
}

func elementByKey(e *Engine, v, m, key *Term) bool {
	a := e.readFrom(v)
	return a != nil && a.op == "mapel" && a.args[0] == m && a.args[1] == key
}

// overrides: the names and types of the file of definitions are used.
func (g *genRule) overrides(st *State) {
	e := g.e
	td := e.loadField(st, g.a, "TypesDef")
	none, known := e.evalBool(st, e.eqTerm(td, e.ts.strTerm(""), td.typ))
	ev, defs := g.read(st)
	if defs == nil {
		g.check(known && none, "override:file", g.pos, "the definitions are not read")
		return
	}
	g.check(sameVal(ev.Args[0], td), "override:file", ev.Instr.Pos(), "the definitions are read from %s", ev.Args[0])
	m := g.defined(st)
	for _, o := range []struct {
		field, what string
		f           *ssa.Function
	}{{"Types", "types", g.funcs["sqlToGoType"]}, {"Fields", "names of fields", g.funcs[g.fieldFn]}, {"Tables", "names of tables", g.infoFn()}} {
		t := m[o.field]
		ok := t != nil && t.op == "gval" && g.readBy(o.f)[t.gl]
		g.check(ok, "override:"+o.field, ev.Instr.Pos(), "the %s that are defined are not used", o.what)
	}
	if t := m["WithCache"]; g.check(t != nil && t.op == "gval", "override:WithCache", ev.Instr.Pos(), "the models with cached properties that are defined are not used") {
		g.check(g.cache == nil || t == g.cache, "override:WithCache", ev.Instr.Pos(), "the models with cached properties that are defined are not the ones used")
	}
	g.check(m["DropColumns"] != nil && m["DropColumns"] == g.drop, "override:DropColumns", ev.Instr.Pos(), "the columns to drop that are defined are not used")
}

func (g *genRule) infoFn() *ssa.Function {
	for _, k := range g.kinds {
		if k.kind == "info" {
			return g.funcs[k.nameFn]
		}
	}
	return nil
}

// flat writes a text with its parts that are not constant as holes.
type flat struct {
	e     *Engine
	st    *State
	holes []*Term
}

func (f *flat) hole(t *Term) string {
	t = unIface(t)
	for t.op == "conv" && len(t.args) == 1 {
		t = t.args[0]
	}
	f.holes = append(f.holes, t)
	return fmt.Sprint(holeMark, len(f.holes)-1, holeMark)
}

func (f *flat) text(t *Term) string {
	t = unIface(t)
	if s, ok := t.constStr(); ok {
		return s
	}
	switch {
	case t.op == "concat":
		s := ""
		for _, a := range t.args {
			s += f.text(a)
		}
		return s
	case isPure(t, "strings.Join"):
		sep, ok := t.args[1].constStr()
		if l := f.list(t.args[0]); ok && l != nil {
			return strings.Join(l, sep)
		}
	case isPure(t, "fmt.Sprint") && len(t.args) == 1 && t.args[0].op == "slicelit" && len(t.args[0].args) == 1:
		return f.text(t.args[0].args[0])
	case isPure(t, "strconv.Quote"):
		return "\"" + f.text(t.args[0]) + "\""
	case isPure(t, "strconv.FormatUint"), isPure(t, "strconv.FormatInt"), isPure(t, "strconv.Itoa"), isPure(t, "strconv.FormatBool"):
		return f.hole(t.args[0])
	case isPure(t, "fmt.Sprintf") && len(t.args) == 2 && t.args[1].op == "slicelit":
		s, ok := t.args[0].constStr()
		if !ok {
			break
		}
		out, n := "", 0
		for i := 0; i < len(s); i++ {
			if s[i] != '%' || i+1 == len(s) {
				out += s[i : i+1]
				continue
			}
			i++
			if s[i] == '%' {
				out += "%"
				continue
			}
			if !strings.Contains("sdvtq", s[i:i+1]) || n >= len(t.args[1].args) {
				return f.hole(t)
			}
			a := t.args[1].args[n]
			n++
			switch x := f.text(a); s[i] {
			case 'q':
				out += "\"" + x + "\""
			default:
				out += x
			}
		}
		return out
	}
	for _, n := range []string{"strings.(Builder).String", "bytes.(Buffer).String"} { // written piece by piece
		for _, ev := range callsNamed(f.st, n) {
			if ev.Result != t {
				continue
			}
			ps, ok := pieces(f.e, eventsBefore(f.st.events(), ev), ev.Args[0])
			out := ""
			for _, p := range ps {
				ok = ok && p.loop == nil
				if p.t != nil {
					out += f.hole(p.t)
				} else {
					out += p.lit
				}
			}
			if ok {
				return out
			}
		}
	}
	return f.hole(t)
}

// list are the elements of a list of texts, nil if they are not known.
func (f *flat) list(t *Term) []string {
	if t.op == "append" && t.aux != "..." {
		l := f.list(t.args[0])
		if l == nil {
			if n, k := f.e.nilness(f.st, t.args[0]); k && n || f.e.isEmptyList(f.st, t.args[0]) {
				l = []string{}
			} else {
				return nil
			}
		}
		for _, a := range t.args[1:] {
			l = append(l, f.text(a))
		}
		return l
	}
	if s := f.e.snapshot(f.st, t); s.op == "slicelit" {
		l := []string{}
		for _, a := range s.args {
			l = append(l, f.text(a))
		}
		return l
	}
	return nil
}

// is: the text is one hole, with the value.
func (f *flat) is(s string, v *Term) bool {
	m := holeRx.FindStringSubmatch(s)
	if m == nil || m[0] != s {
		return false
	}
	n, _ := strconv.Atoi(m[1])
	return sameValue(f.e, f.st, f.holes[n], v)
}

// columnTexts checks the texts that describe a column in the generated code.
func (g *genRule) columnTexts() {
	f := g.p.Method("schema", "Column", "StructString")
	t := g.p.Method("schema", "Column", "Tag")
	if f == nil || t == nil {
		g.missing("StructString and Tag")
		return
	}
	rr := g.run(f, nil)
	for _, x := range rr.exits {
		if x.Panic {
			g.check(false, "column:panic", f.Pos(), "StructString may panic")
			continue
		}
		e, c := rr.e, rr.args[0]
		fl := &flat{e: e, st: x.St}
		src := fl.text(x.Results[0])
		ex, err := parser.ParseExpr("T" + src)
		cl, ok := ex.(*ast.CompositeLit)
		if err != nil || !ok {
			g.check(false, "column:text", f.Pos(), "StructString does not give a value of a column: %s", src)
			continue
		}
		got := map[string]string{}
		for _, el := range cl.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				switch v := kv.Value.(type) {
				case *ast.BasicLit:
					got[kv.Key.(*ast.Ident).Name] = v.Value
				case *ast.Ident:
					got[kv.Key.(*ast.Ident).Name] = v.Name
				}
			}
		}
		n := 0
		for _, name := range []string{"Name", "Type", "UdtType", "Nullable", "MaxLength", "Position"} {
			v := e.loadField(x.St, c, name)
			s, has := got[name]
			if has {
				n++
			}
			ok := false
			switch {
			case isString(v.typ):
				ok = has && len(s) > 2 && s[0] == '"' && fl.is(s[1:len(s)-1], v)
				if none, k := e.evalBool(x.St, e.eqTerm(v, e.ts.strTerm(""), v.typ)); !has {
					ok = k && none
				}
			case isBoolean(v.typ):
				b, k := e.evalBool(x.St, v)
				ok = fl.is(s, v) || k && s == strconv.FormatBool(b) || k && !b && !has
			default:
				none, k := e.evalBool(x.St, e.eqTerm(v, e.ts.intTerm(0), v.typ))
				ok = fl.is(s, v) || k && none && (!has || s == "0")
			}
			g.check(ok, "column:"+name, f.Pos(), "the description of a column has %s as its %s", s, name)
		}
		g.check(n == len(got) && len(got) == len(cl.Elts), "column:fields", f.Pos(), "the description of a column is %s", src)
	}
	rr = g.run(t, nil)
	for _, x := range rr.exits {
		if x.Panic {
			g.check(false, "tag:panic", t.Pos(), "Tag may panic")
			continue
		}
		g.tag(rr, x, t.Pos())
	}
}

func (g *genRule) tag(rr *runRes, x *Exit, pos token.Pos) {
	e, c, st := rr.e, rr.args[0], x.St
	fl := &flat{e: e, st: st}
	src := fl.text(x.Results[0])
	db, ok := reflect.StructTag(src).Lookup("db")
	_, ok2 := reflect.StructTag(src).Lookup("json")
	parts := strings.Split(db, ",")
	if !g.check(ok && ok2 && len(parts) >= 2, "tag:text", pos, "the tag of a column is %s", src) {
		return
	}
	g.check(fl.is(parts[0], e.loadField(st, c, "Name")), "tag:name", pos, "the tag of a column does not start with its name: %s", src)
	udt := e.loadField(st, c, "UdtType")
	none, known := e.evalBool(st, e.eqTerm(udt, e.ts.strTerm(""), udt.typ))
	g.check(known && (none && fl.is(parts[1], e.loadField(st, c, "Type")) || !none && fl.is(parts[1], udt)), "tag:type", pos, "the tag of a column does not have its type: %s", src)
	have := map[string]string{}
	for _, p := range parts[2:] {
		k, v, _ := strings.Cut(p, ":")
		have[k] = v
		g.check(strings.Contains(" max null index primary fk ", " "+k+" "), "tag:other", pos, "the tag of a column has %s", p)
	}
	flag := func(name string, want, known bool) {
		_, has := have[name]
		g.check(known && has == want, "tag:"+name, pos, "whether the tag of a column has %s is not decided by the column: %s", name, src)
	}
	ml := e.loadField(st, c, "MaxLength")
	v, k := e.evalBool(st, e.eqTerm(ml, e.ts.intTerm(0), ml.typ))
	flag("max", !v, k)
	if s, has := have["max"]; has {
		g.check(fl.is(s, ml), "tag:max", pos, "the length in the tag of a column is not its length: %s", src)
	}
	v, k = e.evalBool(st, e.loadField(st, c, "Nullable"))
	flag("null", v, k)
	idx := e.loadField(st, c, "Indexes")
	v, k = e.evalBool(st, e.eqTerm(e.lenOf(idx), e.ts.intTerm(0), types.Typ[types.Int]))
	flag("index", !v, k)
	if k {
		prim, pk := false, v
		if !v {
			for _, t := range sortedTerms(st.b) {
				a := e.readFrom(t)
				if a == nil || a.op != "field" || fieldName(a.aux) != "IsPrimary" || !st.b[t] {
					continue
				}
				if o := e.readFrom(a.args[0]); o != nil && o.op == "index" && o.args[0] == idx {
					prim, pk = true, true
				}
			}
			if !prim {
				for _, ev := range st.events() {
					if ev.Kind != "loop" {
						continue
					}
					if ix := loopOver(e, st, ev.Loop, idx); ix != nil {
						all := true
						elT := idx.typ.Underlying().(*types.Slice).Elem()
						for _, b := range ev.Loop.Backs {
							i := e.load(b, e.ts.mk("index", "", types.NewPointer(elT), idx, ix), elT)
							is, known := e.evalBool(b, e.loadField(b, i, "IsPrimary"))
							all = all && known && !is
						}
						pk = pk || all
					}
				}
			}
		}
		flag("primary", prim, pk)
	}
	ref := e.loadField(st, c, "Ref")
	n, k := e.nilness(st, ref)
	flag("fk", !n, k)
	if s, has := have["fk"]; has && k && !n {
		ps := strings.Split(s, ".")
		ok := len(ps) == 3
		for i, name := range []string{"RefSchema", "RefTable", "RefColumn"} {
			ok = ok && fl.is(ps[i], e.loadField(st, ref, name))
		}
		g.check(ok, "tag:fk", pos, "the tag of a column does not have the column it refers to: %s", src)
	}
}

// writer is the function that gave the place to write to.
func (g *genRule) writer(st *State, w *Term) string {
	for _, ev := range allEvents(st.events()) {
		if ev.Kind == "call" && ev.Result != nil && unIface(ev.Result) == unIface(w) {
			return ev.Callee
		}
	}
	return ""
}

// head2: the package of a text is the one of the option, or that of the folder it is written to; its imports are those of the option.
func (g *genRule) head2(st *State, d *Term, folder, option string, model bool) {
	e := g.e
	what := "head:" + folder
	pkg := g.at(st, d, "Package")
	opt := e.loadField(st, g.a, option)
	isFolder := func(t *Term) bool {
		return t.op == "pure" && strings.HasSuffix(t.aux, ".packageName") && len(t.args) == 1 && t.args[0] == e.loadField(st, g.a, folder)
	}
	ok := false
	if pkg != nil && pkg.op == "pure" && strings.HasSuffix(pkg.aux, "StringsCoalesce") {
		as := pkg.args
		if len(as) == 1 && as[0].op == "slicelit" {
			as = as[0].args
		}
		ok = len(as) == 2 && as[0] == opt && isFolder(as[1])
	} else if pkg != nil {
		z, k := e.isZeroTerm(st, opt, types.Typ[types.String])
		ok = k && (z && isFolder(pkg) || !z && pkg == opt)
	}
	g.check(ok, what, g.pos, "the package is %s, not the one of the option or of the folder", pkg)
	imp := g.at(st, d, "Imports")
	own := e.loadField(st, g.a, "Imports")
	if imp == nil {
		return
	}
	if model {
		pg, k := e.evalBool(st, e.eqTerm(g.provider, e.ts.strTerm("postgres"), g.provider.typ))
		if k && pg {
			ok = imp.op == "append" && len(imp.args) >= 2 && imp.args[0] == own
			found := false
			if ok {
				for _, a := range imp.args[1:] {
					found = found || strings.Contains(a.String(), "\"github.com/lib/pq\"")
				}
			}
			g.check(ok && found, what, g.pos, "the imports of models for Postgres are %s, not those of the option and the driver", imp)
			return
		}
	}
	g.check(imp == own, what, g.pos, "the imports are %s, not those of the option", imp)
}

// pascalOf: t is the exported Go name of the text that is accepted.
func (g *genRule) pascalOf(t *Term, is func(*Term) bool) bool {
	if t == nil || t.op != "pure" || len(t.args) != 1 {
		return false
	}
	for _, s := range []string{"ToGoPascal", "ToPascal", ".goName"} {
		if strings.HasSuffix(t.aux, s) {
			return is(t.args[0])
		}
	}
	return false
}

// singular: t is the singular of x.
// singular: the term is the singular of x, or x itself where its singular is known to be empty (the singular of "s" is).
func (e *Engine) singular(st *State, t, x *Term) bool {
	is := func(t *Term) bool {
		return t != nil && t.op == "pure" && strings.HasSuffix(t.aux, ".Singular") && len(t.args) > 0 && t.args[len(t.args)-1] == x
	}
	if is(t) {
		z, k := e.isZeroTerm(st, t, types.Typ[types.String])
		return k && !z
	}
	if t != x {
		return false
	}
	for b := range st.b {
		none := false
		b.any(func(q *Term) bool {
			if is(q) {
				z, k := e.isZeroTerm(st, q, types.Typ[types.String])
				none = none || k && z
			}
			return false
		})
		if none {
			return true
		}
	}
	return false
}

// mapped is the value of the key in the map if it is known to be used on the path: 1 used, 0 not, -1 not known.
func (g *genRule) mapped(st *State, m, key *Term) (*Term, int) {
	e := g.e
	tm, ok := m.typ.Underlying().(*types.Map)
	if !ok {
		return nil, -1
	}
	v := e.load(st, e.ts.mk("mapel", "", types.NewPointer(tm.Elem()), m, key), tm.Elem())
	if z, k := e.isZeroTerm(st, v, types.Typ[types.String]); k {
		if z {
			return v, 0
		}
		return v, 1
	}
	if b, k := e.evalBool(st, e.load(st, e.ts.mk("mapok", "", nil, m, key), types.Typ[types.Bool])); k {
		if b {
			return v, 1
		}
		return v, 0
	}
	return v, -1
}

// about: t is computed from x itself, not from something that is found with it.
func (g *genRule) about(t, x *Term) bool {
	if t == x {
		return true
	}
	if g.e.readFrom(t) != nil {
		return false
	}
	for _, a := range t.args {
		if g.about(a, x) {
			return true
		}
	}
	return false
}

// modelName: the name of a model is the defined one, or made of the name of the table.
func (g *genRule) modelName(st *State, d *Term, k *tmplKind, T, schema *Term) {
	e := g.e
	if k.typ == "" {
		return
	}
	got := g.expr(st, d, k.typ)
	if got == nil {
		g.check(false, "model:typename", g.pos, "the name of a model is %s", k.typ)
		return
	}
	m := g.namesOf("Tables")
	if m == nil {
		return
	}
	v, used := g.mapped(st, m, e.loadField(st, T, "SchemaName"))
	if !g.check(used >= 0, "model:typename", g.pos, "the name of a model does not depend on the definitions") {
		return
	}
	if used == 1 {
		g.check(got == v, "model:typename", g.pos, "the name of a model is %s although another one is defined", got)
		return
	}
	parts := []*Term{got}
	if got.op == "concat" {
		parts = got.args
	}
	// behind: the suffix of the option
	suf := e.loadField(st, g.a, "StructSuffix")
	none, sk := e.isZeroTerm(st, suf, types.Typ[types.String])
	is := func(x *Term) func(*Term) bool { return func(t *Term) bool { return t == x } }
	if n := len(parts); n > 0 && g.pascalOf(parts[n-1], is(suf)) {
		parts = parts[:n-1]
	} else {
		g.check(sk && none, "model:typename", g.pos, "the name of a model, %s, does not end in the suffix of the option", got)
	}
	name := e.loadField(st, T, "Name")
	ok := len(parts) > 0 && g.pascalOf(parts[len(parts)-1], func(t *Term) bool { return e.singular(st, t, name) })
	g.check(ok, "model:typename", g.pos, "the name of a model is %s, not made of the name of the table", got)
	if !ok {
		return
	}
	parts = parts[:len(parts)-1]
	use, uk := e.evalBool(st, e.loadField(st, g.a, "UseSchema"))
	// is the schema a default one
	def, dk := false, false
	other, asked := false, false
	names := map[string]bool{}
	for t, b := range st.b {
		asked = asked || schema != nil && g.about(t, schema)
		if x := t.String(); !strings.Contains(x, "\"public\"") && !strings.Contains(x, "\"dbo\"") {
			continue
		}
		if schema != nil && g.about(t, schema) {
			def, dk = def || b, true
			t.any(func(q *Term) bool {
				if s, ok := q.constStr(); ok && s != "" {
					names[strings.ToLower(s)] = true
				}
				return false
			})
		} else {
			other = true
		}
	}
	if !dk && !other && asked && uk && use { // compared in a way that is not understood
		def, dk = len(parts) == 0, true
	}
	if dk && len(names) > 0 {
		both := names["public"] && names["dbo"]
		only := len(names) == 2 && both || len(names) == 1 && (names["public"] || names["dbo"])
		g.check(only && (def || both), "model:typename", g.pos, "the default schemas are %v, not public and dbo", sortedNames(names))
	}
	switch len(parts) {
	case 0:
		g.check(uk && (!use || dk && def), "model:typename", g.pos, "the name of a model has no schema, although the option says so and the schema is not a default one")
	case 1:
		g.check(uk && use && dk && !def && schema != nil && g.pascalOf(parts[0], is(schema)), "model:typename", g.pos, "the name of a model is %s, which begins with something else than its schema, or although the option does not say so or the schema is a default one", got)
	default:
		g.check(false, "model:typename", g.pos, "the name of a model is %s", got)
	}
}

// namesOf is the map of defined names.
func (g *genRule) namesOf(field string) *Term {
	for _, x := range g.ends {
		if m := g.defined(x.St)[field]; m != nil {
			return m
		}
	}
	return nil
}

// nameFuncs: the functions that name columns and table infos use the defined names, or else the names of the column or table.
func (g *genRule) nameFuncs() {
	e := g.e
	for _, o := range []struct {
		field, what string
		f           *ssa.Function
	}{{"Fields", "a field", g.funcs[g.fieldFn]}, {"Tables", "a table info", g.infoFn()}} {
		m := g.namesOf(o.field)
		if m == nil || o.f == nil || len(o.f.Params) != 1 {
			continue
		}
		key := "name of " + o.what
		x := e.ts.mk("sym", "named:"+o.field, o.f.Params[0].Type())
		n := map[int]int{}
		suffix := ""
		for i, ex := range e.Run(o.f, newState(), []*Term{x}) {
			if ex.Panic || len(ex.Results) != 1 {
				continue
			}
			st := ex.St
			v, used := g.mapped(st, m, e.loadField(st, x, "SchemaName"))
			if !g.check(used >= 0, key, o.f.Pos(), "the name of %s does not depend on the definitions", o.what) {
				continue
			}
			n[used]++
			got := ex.Results[0]
			parts := []*Term{got}
			if got.op == "concat" {
				parts = got.args
			}
			end := ""
			if len(parts) == 2 {
				end, _ = parts[1].constStr()
				if end != "" {
					parts = parts[:1]
				}
			}
			g.check(i == 0 || end == suffix, key, o.f.Pos(), "the name of %s ends in %q or in %q", o.what, suffix, end)
			suffix = end
			if !g.check(len(parts) == 1, key, o.f.Pos(), "the name of %s is %s", o.what, got) {
				continue
			}
			name := e.loadField(newState(), x, "Name")
			if used == 1 {
				g.check(parts[0] == v, key, o.f.Pos(), "the name of %s is %s although another one is defined", o.what, got)
			} else {
				g.check(g.pascalOf(parts[0], func(t *Term) bool {
					return t == name && o.field == "Fields" || e.singular(st, t, name) && o.field == "Tables"
				}), key, o.f.Pos(), "the name of %s is %s, which is not made of its name", o.what, got)
			}
		}
		g.check(n[0] > 0 && n[1] > 0, key, o.f.Pos(), "the name of %s is not taken from the definitions and from its own name", o.what)
	}
}

func sortedNames(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
