package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// I02: what is printed of a schema

func init() {
	rules["I02"] = propRule{run: runI02, title: "printed tables have every row",
		assum: []string{
			"tablewriter.Table renders the header and the rows that were given to it, in their order; it keeps a []string row that is appended",
			"encoding/json and yaml.v3 encode the value they are given",
			"the value that is printed is not changed while it is printed, and writing does not change it",
		}}
}

const tableWriterPkg = "github.com/olekukonko/tablewriter."

// printRule follows what is written to a writer.
type printRule struct {
	*Report
	key string
}

// seg is a part of the output: a text, a table of the tablewriter, or what a loop writes.
type seg struct {
	text  []*Event // events that write the text
	table *tableOut
	loop  *LoopRec
	iters [][]seg
	pos   token.Pos
}

type tableOut struct {
	made   *Event
	t      *Term
	header []*Term
	parts  []*Event // events that give it rows
	odd    string
	done   bool
	pos    token.Pos
}

// deepVals are the values of the arguments, with the elements of new lists in them.
func deepVals(e *Engine, st *State, t *Term) *Term {
	s := e.snapshot(st, t)
	if s.op == "slicelit" {
		var as []*Term
		for _, a := range s.args {
			as = append(as, deepVals(e, st, a))
		}
		return e.ts.mk("slicelit", s.aux, s.typ, as...)
	}
	if s.op == "iface" {
		if in := deepVals(e, st, s.args[0]); in != s.args[0] {
			return e.ts.iface(s.T, in)
		}
	}
	return s
}

// printCalls models the calls that write: they do not change what is printed.
func printCalls(e *Engine) {
	e.Impure = map[string]bool{"encoding/json.MarshalIndent": true, "encoding/json.Marshal": true, "gopkg.in/yaml.v3.Marshal": true}
	e.OnCall = func(e *Engine, st *State, c *Call) *Outcome {
		n := c.Name
		again := c.Fn != nil && c.Fn == e.p.Func("pkg/print", "Print") && !e.p.onlyCalledFrom(c.Instr.Parent(), e.p.Func("pkg/print", "Object"))
		if again || strings.HasPrefix(n, tableWriterPkg) || strings.HasPrefix(n, "fmt.Fprint") || n == "io.WriteString" || strings.HasSuffix(n, "yaml.v3.Marshal") ||
			strings.HasPrefix(n, "encoding/json.") || c.Common.IsInvoke() && strings.HasSuffix(n, ").Write") {
			o := quietCall(e, st, c)
			evs := st.events()
			ev := evs[len(evs)-1]
			for i, a := range c.Args {
				ev.Vals[i] = deepVals(e, st, a)
			}
			return o
		}
		return nil
	}
}

// usesWriter: the event writes to w, or gives it away.
func usesWriter(ev *Event, w *Term) bool {
	if ev.Kind != "call" {
		return false
	}
	for _, a := range ev.Args {
		if unIface(a) == w {
			return true
		}
	}
	return false
}

// segs are the parts of the output to w that the events make.
func (g *printRule) segs(evs []*Event, w *Term) []seg {
	var r []seg
	tables := map[*Term]*tableOut{}
	for _, ev := range evs {
		switch {
		case ev.Kind == "loop":
			out := seg{loop: ev.Loop, pos: evPos(ev)}
			any := false
			for _, it := range ev.Loop.Iters {
				in := g.segs(it, w)
				any = any || len(in) > 0
				out.iters = append(out.iters, in)
			}
			if any {
				r = append(r, out)
			}
			for _, t := range tables {
				for _, it := range ev.Loop.Iters {
					for _, x := range allEvents(it) {
						if x.Kind == "call" && len(x.Args) > 0 && x.Args[0] == t.t && (len(t.parts) == 0 || t.parts[len(t.parts)-1] != ev) {
							t.parts = append(t.parts, ev)
						}
					}
				}
			}
		case ev.Kind != "call":
		case strings.HasPrefix(ev.Callee, tableWriterPkg):
			m := strings.TrimPrefix(ev.Callee, tableWriterPkg)
			if m == "NewTable" || m == "NewWriter" {
				if unIface(ev.Args[0]) == w {
					tables[ev.Result] = &tableOut{made: ev, t: ev.Result, pos: evPos(ev)}
				}
				continue
			}
			if !strings.HasPrefix(m, "(Table).") {
				continue
			}
			t := tables[ev.Args[0]]
			if t == nil {
				continue
			}
			switch m = strings.TrimPrefix(m, "(Table)."); m {
			case "Header", "SetHeader":
				t.header = cellsOf(ev)
				if t.header == nil {
					t.odd = "its header is not known"
				}
			case "Append", "Bulk":
				t.parts = append(t.parts, ev)
			case "Render":
				if t.done {
					t.odd = "it is rendered twice"
				}
				t.done = true
				r = append(r, seg{table: t, pos: evPos(ev)})
			case "Logger", "Trimmed", "Rows", "Lines", "Config":
			default:
				t.odd = m + " is called"
			}
		case usesWriter(ev, w):
			if n := len(r); n > 0 && r[n-1].text != nil {
				r[n-1].text = append(r[n-1].text, ev)
				continue
			}
			r = append(r, seg{text: []*Event{ev}, pos: evPos(ev)})
		}
	}
	return r
}

// cellsOf are the elements of the row that is given in a call.
func cellsOf(ev *Event) []*Term {
	l := ev.Vals[1]
	if l.op != "slicelit" {
		return nil
	}
	if len(l.args) == 1 {
		if in := unIface(l.args[0]); in.op == "slicelit" {
			l = in
		}
	}
	return l.args
}

// row is what the table gets for an element of the list.
type row struct {
	mapped
	cells []*Term
}

// rows: the table gets exactly one row for each element of src, in their order.
func (g *printRule) rows(e *Engine, st *State, t *tableOut, src *Term, elT types.Type) []row {
	bad := func(f string, a ...any) []row {
		g.check(false, g.key, t.pos, f, a...)
		return nil
	}
	if t.odd != "" {
		return bad("the table is not as expected: %s", t.odd)
	}
	if len(t.parts) == 0 {
		if e.isEmptyList(st, src) {
			return []row{}
		}
		return bad("the table gets no rows")
	}
	if len(t.parts) != 1 {
		return bad("the table gets rows from %d places", len(t.parts))
	}
	p := t.parts[0]
	// a list of texts is one that was made for the row: nothing that was made before the loop is part of it
	shared := func(rec *LoopRec, l *Term) bool {
		l = unIface(l)
		for l.op == "append" || l.op == "slice" {
			l = l.args[0]
		}
		return l.typ != nil && isFresh(root(l)) && !e.madeInLoop(rec, root(l)) || isLoopSym(l)
	}
	if p.Kind == "call" && strings.HasSuffix(p.Callee, ".Bulk") {
		list := unIface(p.Args[1])
		ms, ok := e.mappedFrom(st, list, src, elT)
		if !ok {
			return bad("the rows of the table are not one for each element of the list")
		}
		var r []row
		for _, m := range ms {
			if rec := loopOf(st, m.st); rec == nil || shared(rec, m.v) {
				return bad("all rows share one list, which the table keeps")
			}
			c := g.cells(e, m.st, m.v)
			if c == nil {
				return bad("the cells of a row are not known: %s", m.v)
			}
			r = append(r, row{m, c})
		}
		return r
	}
	if p.Kind != "loop" {
		return bad("the table gets a row that is not of an element of the list")
	}
	rec := p.Loop
	list := src
	var ix *Term
	var from []mapped
	for _, it := range rec.Iters { // over a list of rows that is made of it
		for _, ev := range allEvents(it) {
			if from == nil && ev.Kind == "call" && len(ev.Args) > 0 && ev.Args[0] == t.t && strings.HasSuffix(ev.Callee, ".Append") {
				if a := e.readFrom(rowOf(ev)); a != nil && a.op == "index" && a.args[0] != src {
					if i := loopOver(e, st, rec, a.args[0]); i != nil {
						if ms, ok := e.mappedFrom(st, a.args[0], src, elT); ok {
							ix, from, list = i, ms, a.args[0]
						}
					}
				}
			}
		}
	}
	if from == nil {
		ix = loopOver(e, st, rec, src)
	}
	if ix == nil {
		return bad("the rows are not made by a loop over the whole list")
	}
	var r []row
	for k, it := range rec.Iters {
		if k >= len(rec.Backs) {
			continue
		}
		bst := rec.Backs[k]
		var app *Event
		for _, ev := range allEvents(it) {
			if ev.Kind == "call" && len(ev.Args) > 0 && ev.Args[0] == t.t {
				if app != nil || !strings.HasSuffix(ev.Callee, ".Append") {
					return bad("an element of the list gets more than one row")
				}
				app = ev
			}
		}
		if app == nil {
			return bad("an element of the list gets no row")
		}
		el := e.load(bst, e.ts.mk("index", "", types.NewPointer(elT), src, ix), elT)
		if from != nil {
			v := rowOf(app)
			if a := e.readFrom(v); a == nil || a.op != "index" || a.args[0] != list || !e.sameInt(bst, a.args[1], ix, false) {
				return bad("a row is not of the element: %s", v)
			}
			for _, m := range from {
				if rec := loopOf(st, m.st); rec == nil || shared(rec, m.v) {
					return bad("all rows share one list, which the table keeps")
				}
				c := g.cells(e, m.st, m.v)
				if c == nil {
					return bad("the cells of a row are not known: %s", m.v)
				}
				r = append(r, row{m, c})
			}
			continue
		}
		if l := app.Args[1]; true {
			if s := e.snapshot(bst, l); s.op == "slicelit" && len(s.args) == 1 && shared(rec, s.args[0]) {
				return bad("all rows share one list, which the table keeps")
			}
		}
		c := cellsOf(app)
		if c == nil {
			c = g.cells(e, bst, rowOf(app))
		} else if len(c) == 1 {
			if l := g.cells(e, bst, unIface(c[0])); l != nil {
				c = l
			}
		}
		if c == nil {
			return bad("the cells of a row are not known: %s", app.Vals[1])
		}
		r = append(r, row{mapped{bst, el, app.Args[1]}, c})
	}
	return r
}

// loopOf is the loop on the path with an iteration that ends in the state.
func loopOf(st, end *State) *LoopRec {
	for _, ev := range st.events() {
		if ev.Kind == "loop" {
			for _, b := range ev.Loop.Backs {
				if b == end {
					return ev.Loop
				}
			}
		}
	}
	return nil
}

// rowOf is the list that is given as a row.
func rowOf(ev *Event) *Term {
	v := ev.Vals[1]
	if v.op == "slicelit" && len(v.args) == 1 {
		v = unIface(v.args[0])
	}
	return v
}

// cells are the elements of a list of texts.
func (g *printRule) cells(e *Engine, st *State, t *Term) []*Term {
	t = unIface(t)
	if t.op == "append" && t.aux != "..." {
		l := g.cells(e, st, t.args[0])
		if l == nil {
			if n, k := e.nilness(st, t.args[0]); k && n || e.isEmptyList(st, t.args[0]) {
				l = []*Term{}
			} else {
				return nil
			}
		}
		return append(append([]*Term{}, l...), t.args[1:]...)
	}
	if t.op == "slicelit" {
		return t.args
	}
	if s := e.snapshot(st, t); s.op == "slicelit" {
		return s.args
	}
	return nil
}

func isStringList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isString(s.Elem())
}

// column is what a cell has to be under a header.
type column struct {
	name  string
	check func(e *Engine, st *State, el, cell *Term) bool
}

// table checks the header and the rows of a table.
func (g *printRule) table(e *Engine, st *State, t *tableOut, cols []column, src *Term, elT types.Type) {
	names := map[string]column{}
	for _, c := range cols {
		names[c.name] = c
	}
	var head []column
	for _, h := range t.header {
		s, ok := unIface(h).constStr()
		c, known := names[s]
		if !g.check(ok && known, g.key, t.pos, "the table has an unexpected header %s", h) {
			return
		}
		delete(names, s)
		head = append(head, c)
	}
	for _, c := range cols {
		if _, miss := names[c.name]; !g.check(!miss, g.key, t.pos, "the table has no column %s", c.name) {
			return
		}
	}
	for _, x := range g.rows(e, st, t, src, elT) {
		if !g.check(len(x.cells) == len(head), g.key, t.pos, "a row has %d cells, the header has %d", len(x.cells), len(head)) {
			return
		}
		for i, c := range head {
			g.check(c.check(e, x.st, x.el, unIface(x.cells[i])), g.key, t.pos, "the cell under %s is %s", c.name, x.cells[i])
		}
	}
}

// textIs: the events write exactly the text, which is given as literals and terms.
func (g *printRule) textIs(e *Engine, st *State, evs []*Event, w *Term, want ...any) bool {
	ps, ok := pieces(e, evs, w)
	if !ok {
		return false
	}
	var parts []any
	lit := ""
	for _, x := range want {
		switch x := x.(type) {
		case string:
			lit += x
		case *Term:
			if lit != "" {
				parts = append(parts, lit)
			}
			lit = ""
			parts = append(parts, x)
		}
	}
	if lit != "" {
		parts = append(parts, lit)
	}
	if len(ps) != len(parts) {
		return false
	}
	for i, p := range ps {
		switch x := parts[i].(type) {
		case string:
			if p.t != nil || p.loop != nil || p.lit != x {
				return false
			}
		case *Term:
			if p.t == nil || p.verb != "s" || !sameValue(e, st, p.t, x) {
				return false
			}
		}
	}
	return true
}

func (g *printRule) field(name string) func(e *Engine, st *State, el, cell *Term) bool {
	return func(e *Engine, st *State, el, cell *Term) bool {
		return sameValue(e, st, cell, e.loadField(st, el, name))
	}
}

func yesIf(flag func(e *Engine, st *State, el *Term) *Term) func(e *Engine, st *State, el, cell *Term) bool {
	return func(e *Engine, st *State, el, cell *Term) bool {
		v, k := e.evalBool(st, flag(e, st, el))
		s, ok := cell.constStr()
		return ok && k && (v && s == "YES" || !v && s == "")
	}
}

func fieldFlag(name string) func(e *Engine, st *State, el *Term) *Term {
	return func(e *Engine, st *State, el *Term) *Term { return e.loadField(st, el, name) }
}

// numberIs: the cell is the number in decimal.
func numberIs(e *Engine, st *State, cell, n *Term) bool {
	d := decimalOf(cell)
	if d == nil && cell.typ != nil && isInteger(cell.typ) {
		d = cell // written by the table
	}
	return d != nil && (d == n || e.sameInt(st, wideOf(d), n, false))
}

// positive is the fact that the number is more than 0.
func (e *Engine) positive(n *Term) *Term {
	return e.le0(linAdd(toLin(e.ts.intTerm(1)), toLin(n), -1))
}

func (g *printRule) columnCols() []column {
	return []column{
		{"Ord", func(e *Engine, st *State, el, cell *Term) bool {
			return numberIs(e, st, cell, e.loadField(st, el, "Position"))
		}},
		{"Name", g.field("Name")},
		{"Type", g.field("Type")},
		{"UDT", g.field("UdtType")},
		{"NULL", yesIf(fieldFlag("Nullable"))},
		{"Max", func(e *Engine, st *State, el, cell *Term) bool {
			max := e.loadField(st, el, "MaxLength")
			pos, k := e.evalBool(st, e.positive(max))
			if s, ok := cell.constStr(); ok {
				return k && !pos && s == ""
			}
			return k && pos && numberIs(e, st, cell, max)
		}},
		{"Index", yesIf(func(e *Engine, st *State, el *Term) *Term {
			return e.positive(e.lenOf(e.loadField(st, el, "Indexes")))
		})},
		{"Ref", func(e *Engine, st *State, el, cell *Term) bool {
			ref := e.loadField(st, el, "Ref")
			none, k := e.nilness(st, ref)
			if s, ok := cell.constStr(); ok {
				return k && none && s == ""
			}
			f := &flat{e: e, st: st}
			parts := strings.Split(f.text(cell), ".")
			if !k || none || len(parts) != 3 {
				return false
			}
			for i, n := range []string{"RefSchema", "RefTable", "RefColumn"} {
				if !f.is(parts[i], e.loadField(st, ref, n)) {
					return false
				}
			}
			return true
		}},
	}
}

func (g *printRule) indexCols() []column {
	return []column{
		{"Name", g.field("Name")},
		{"Primary", yesIf(fieldFlag("IsPrimary"))},
		{"Unique", yesIf(fieldFlag("IsUnique"))},
		{"Columns", func(e *Engine, st *State, el, cell *Term) bool {
			if !isPure(cell, "strings.Join") {
				return false
			}
			sep, ok := cell.args[1].constStr()
			return ok && sep == ", " && sameValue(e, st, cell.args[0], e.loadField(st, el, "ColumnNames"))
		}},
	}
}

func (g *printRule) keyCols() []column {
	return []column{
		{"Name", g.field("Name")}, {"Schema", g.field("Schema")}, {"Table", g.field("Table")}, {"Column", g.field("Column")},
		{"FK Schema", g.field("RefSchema")}, {"FK Table", g.field("RefTable")}, {"FK Column", g.field("RefColumn")},
	}
}

// listOut: the parts are the table of the list and an empty line.
func (g *printRule) listOut(e *Engine, st *State, segs []seg, w, list *Term, cols []column, elT types.Type, pos token.Pos) {
	if !g.check(len(segs) == 2 && segs[0].table != nil && segs[1].text != nil, g.key, pos, "what is printed is not one table and an empty line") {
		return
	}
	g.table(e, st, segs[0].table, cols, list, elT)
	g.check(g.textIs(e, st, segs[1].text, w, "\n"), g.key, segs[1].pos, "the table is not followed by an empty line")
}

// tableOf: the parts are the description of a table.
func (g *printRule) tableOf(e *Engine, st *State, segs []seg, w, tbl *Term, pos token.Pos) {
	cT, iT := g.elem("Columns"), g.elem("Indexes")
	if cT == nil || iT == nil {
		return
	}
	if !g.check(len(segs) >= 3 && segs[0].text != nil && segs[1].table != nil && segs[2].text != nil, g.key, pos, "what is printed of a table is not its name, its columns and its indexes") {
		return
	}
	g.check(g.textIs(e, st, segs[0].text, w, "Schema: ", e.loadField(st, tbl, "Schema"), "\nTable: ", e.loadField(st, tbl, "Name"), "\n\n"), g.key, segs[0].pos, "the table is not introduced by its schema and name")
	g.table(e, st, segs[1].table, g.columnCols(), e.loadField(st, tbl, "Columns"), cT)
	idx := e.loadField(st, tbl, "Indexes")
	some, k := e.evalBool(st, e.positive(e.lenOf(idx)))
	switch {
	case !k:
		g.check(false, g.key, pos, "it is not found out whether the table has indexes")
	case !some:
		g.check(len(segs) == 3 && g.textIs(e, st, segs[2].text, w, "\n"), g.key, segs[2].pos, "a table with no indexes is not followed by an empty line")
	default:
		g.check(g.textIs(e, st, segs[2].text, w, "\nIndexes:\n"), g.key, segs[2].pos, "the indexes are not introduced")
		g.listOut(e, st, segs[3:], w, idx, g.indexCols(), iT, pos)
	}
}

// again: the element is printed by Print or Object, which are checked for it.
func (g *printRule) again(e *Engine, st *State, segs []seg, w, el *Term, elT types.Type) bool {
	if len(segs) != 1 || len(segs[0].text) != 1 {
		return false
	}
	ev := segs[0].text[0]
	f := g.p.Func("pkg/print", "Print")
	if f == nil || ev.Fn != f || len(ev.Args) != 2 || ev.Args[0] != w {
		return false
	}
	v := ev.Args[1]
	return v.op == "iface" && types.Identical(v.T, elT) && sameValue(e, st, v.args[0], el)
}

// elem is the type of the elements of a list type of the package schema.
func (g *printRule) elem(name string) types.Type {
	n := g.p.Named("schema", name)
	if n == nil {
		g.missing("schema." + name)
		return nil
	}
	s, ok := n.Underlying().(*types.Slice)
	if !ok {
		g.missing("list schema." + name)
		return nil
	}
	return s.Elem()
}

// sameDoc: the path writes the encoded value, and fails if it cannot.
func (g *printRule) sameDoc(rr *runRes, x *Exit, format string, w, v *Term) {
	e := rr.e
	evs := x.St.events()
	var enc *Event
	var writes []*Event
	for _, ev := range allEvents(evs) {
		switch {
		case ev.Kind != "call":
		case format == "json" && (ev.Callee == "encoding/json.MarshalIndent" || ev.Callee == "encoding/json.(Encoder).Encode"), format == "yaml" && strings.HasSuffix(ev.Callee, "yaml.v3.Marshal"):
			enc = ev
		}
		if usesWriter(ev, w) {
			writes = append(writes, ev)
		}
	}
	if !g.check(enc != nil, g.key, x.Pos, "the value is not encoded as %s", format) {
		return
	}
	errOf := func(ev *Event) *Term {
		if t := ev.Result; t.op == "tuple" {
			return t.args[len(t.args)-1]
		}
		return ev.Result
	}
	fails := func(ev *Event, what string) {
		s := x.St.clone()
		if !e.assume(s, e.eqTerm(errOf(ev), e.ts.nilTerm(), errorType), false) {
			return
		}
		if !strings.HasPrefix(g.key, "document:") {
			return // not asked for as a document
		}
		ret, ok := errResult(rr.fn, x)
		if !ok {
			return
		}
		n, k := e.nilness(s, ret)
		g.check(k && !n, g.key, evPos(ev), "%s is not reported when it fails", what)
	}
	if strings.HasSuffix(enc.Callee, ".Encode") {
		ok := len(writes) == 1 && writes[0].Callee == "encoding/json.NewEncoder" && writes[0].Result == enc.Args[0]
		ind := false
		for _, ev := range eventsBefore(evs, enc) {
			if ev.Kind == "call" && len(ev.Args) > 0 && ev.Args[0] == enc.Args[0] {
				if strings.HasSuffix(ev.Callee, ").SetIndent") && isConstStr(ev.Args[1], "") && isConstStr(ev.Args[2], "  ") {
					ind = true
				} else {
					ok = false
				}
			}
		}
		g.check(ok && ind && sameEl(enc.Args[1], v), g.key, evPos(enc), "the output is not the indented value")
		fails(enc, "the encoding")
		return
	}
	g.check(sameEl(enc.Args[0], v), g.key, evPos(enc), "what is encoded is %s, not the value", enc.Args[0])
	fails(enc, "the encoding")
	if format == "json" {
		g.check(len(enc.Args) == 3 && isConstStr(enc.Args[1], "") && isConstStr(enc.Args[2], "  "), g.key, evPos(enc), "the document is not indented by two spaces")
	}
	if n, k := e.nilness(x.St, errOf(enc)); k && !n {
		g.check(len(writes) == 0, g.key, x.Pos, "something is written although the value cannot be encoded")
		return
	}
	// all that is written, in order
	ps, ok := pieces(e, evs, w)
	doc := enc.Result.args[0]
	var out []*Term
	text := ""
	for _, p := range ps {
		if p.loop != nil {
			ok = false
		}
		if p.t != nil {
			out = append(out, docParts(e, evs, p.t)...)
		} else if p.lit != "" {
			out = append(out, e.ts.strTerm(p.lit))
		}
	}
	for i, t := range out {
		if i == 0 {
			ok = ok && t == doc
		} else if s, k := t.constStr(); k {
			text += s
		} else if c, k := t.constInt(); k && c.IsInt64() {
			text += string(rune(c.Int64()))
		} else {
			ok = false
		}
	}
	end := ""
	if format == "json" {
		end = "\n"
	}
	if len(out) == 0 { // a write of an earlier failure
		ok = false
	}
	failed := false // nothing more after a write that failed
	for _, ev := range writes {
		fails(ev, "writing")
		if n, k := e.nilness(x.St, errOf(ev)); k && !n {
			failed = true
		}
	}
	g.check(ok && (text == end || failed && strings.HasPrefix(end, text)), g.key, x.Pos, "what is written is not the %s document", format)
}

// docParts are the parts of a list of bytes that is written.
func docParts(e *Engine, evs []*Event, t *Term) []*Term {
	switch {
	case (t.op == "str" || t.op == "bytes") && len(t.args) == 1:
		return docParts(e, evs, t.args[0])
	case t.op == "append" && t.aux != "...":
		return append(docParts(e, evs, t.args[0]), t.args[1:]...)
	case t.op == "append" || t.op == "appendv" || t.op == "concat":
		var r []*Term
		for _, a := range t.args {
			r = append(r, docParts(e, evs, a)...)
		}
		return r
	}
	for _, ev := range evs { // written to a buffer
		if ev.Kind != "call" || ev.Result != t || ev.Callee != "bytes.(Buffer).Bytes" && ev.Callee != "bytes.(Buffer).String" && ev.Callee != "strings.(Builder).String" {
			continue
		}
		ps, ok := pieces(e, eventsBefore(evs, ev), ev.Args[0])
		var r []*Term
		for _, p := range ps {
			switch {
			case p.loop != nil:
				ok = false
			case p.t != nil:
				r = append(r, docParts(e, evs, p.t)...)
			case p.lit != "":
				r = append(r, e.ts.strTerm(p.lit))
			}
		}
		if ok {
			return r
		}
	}
	return []*Term{t}
}

func isConstStr(t *Term, s string) bool {
	c, ok := t.constStr()
	return ok && c == s
}

func sameEl(t, v *Term) bool { return t == v || unIface(t) == unIface(v) }

func runI02(r *Report) {
	r.rule("yaml and json: exactly the encoded value is written; an error of the encoding or of writing is returned")
	r.rule("otherwise a table, list of tables, of indexes or of foreign keys is printed as tables: one row for each element, in order, the cell under each header is the value it names; every table is rendered, to the same writer, once")
	r.rule("a row that is given to the table is a list of its own")
	g := &printRule{Report: r}
	p := r.p
	T := p.Named("schema", "Table")
	if T == nil {
		r.missing("schema.Table")
		return
	}
	type kind struct {
		name string
		T    types.Type
	}
	kinds := []kind{{"Table", types.NewPointer(T)}}
	for _, n := range []string{"Tables", "ForeignKeys", "Indexes"} {
		if n := p.Named("schema", n); n != nil {
			kinds = append(kinds, kind{n.Obj().Name(), n})
		}
	}
	kinds = append(kinds, kind{"other", types.Typ[types.Int]}, kind{"table value", T})
	n := 0
	exec := func(f *ssa.Function, vi int, v func(e *Engine, a []*Term) *Term, format string, fi int) (*runRes, *Term, *Term) {
		var val, w *Term
		rr := r.run(f, func(e *Engine, st *State, a []*Term) {
			printCalls(e)
			w = a[0]
			if v != nil {
				a[vi] = v(e, a)
			}
			val = a[vi]
			if fi >= 0 {
				if format != "" {
					a[fi] = e.ts.strTerm(format)
				} else {
					for _, s := range []string{"yaml", "json"} {
						e.assume(st, e.eqTerm(a[fi], e.ts.strTerm(s), types.Typ[types.String]), false)
					}
				}
			}
		})
		n++
		return rr, w, val
	}
	printed := func(rr *runRes, w, val *Term, kn string) {
		e := rr.e
		r.check(len(rr.returns()) > 0, g.key, rr.fn.Pos(), "%s does not return", rr.fn.Name())
		for _, x := range rr.returns() {
			in := unIface(val)
			segs := g.segs(x.St.events(), w)
			switch kn {
			case "Table":
				g.tableOf(e, x.St, segs, w, in, x.Pos)
			case "Tables":
				if len(segs) == 0 && e.isEmptyList(x.St, in) {
					continue
				}
				if !r.check(len(segs) == 1 && segs[0].loop != nil, g.key, x.Pos, "the tables are not printed by a loop") {
					continue
				}
				rec := segs[0].loop
				ix := loopOver(e, x.St, rec, in)
				if !r.check(ix != nil, g.key, segs[0].pos, "the loop does not print all the tables") {
					continue
				}
				elT := g.elem("Tables")
				for k, b := range rec.Backs {
					if k < len(segs[0].iters) {
						el := e.load(b, e.ts.mk("index", "", types.NewPointer(elT), in, ix), elT)
						if g.again(e, b, segs[0].iters[k], w, el, elT) {
							continue
						}
						g.tableOf(e, b, segs[0].iters[k], w, el, x.Pos)
					}
				}
			case "Indexes":
				g.listOut(e, x.St, segs, w, in, g.indexCols(), g.elem("Indexes"), x.Pos)
			case "ForeignKeys":
				g.listOut(e, x.St, segs, w, in, g.keyCols(), g.elem("ForeignKeys"), x.Pos)
			default:
				g.sameDoc(rr, x, "json", w, val)
			}
			if ret, ok := errResult(rr.fn, x); ok && kn != "other" && kn != "table value" {
				nl, k := e.nilness(x.St, ret)
				r.check(k && nl, g.key, x.Pos, "printing a table fails")
			}
		}
	}
	for _, name := range []string{"Object", "Print"} {
		f := p.Func("pkg/print", name)
		if f == nil {
			r.missing("print." + name)
			continue
		}
		vi, fi := len(f.Params)-1, -1
		if name == "Object" {
			fi = 1
		}
		for _, k := range kinds {
			mk := func(e *Engine, a []*Term) *Term {
				return e.ts.iface(k.T, e.ts.mk("param", "value", k.T))
			}
			if fi > 0 {
				for _, fm := range []string{"yaml", "json"} {
					g.key = "document:" + name + ":" + fm
					rr, w, v := exec(f, vi, mk, fm, fi)
					for _, x := range rr.returns() {
						g.sameDoc(rr, x, fm, w, v)
					}
				}
			}
			g.key = "printed:" + name + ":" + k.name
			rr, w, v := exec(f, vi, mk, "", fi)
			printed(rr, w, v, k.name)
		}
	}
	for name, kn := range map[string]string{"SchemaTable": "Table", "SchemaTables": "Tables", "SchemaIndexes": "Indexes", "SchemaForeingKeys": "ForeignKeys"} {
		if f := p.Func("pkg/print", name); f != nil {
			g.key = "printed:" + name
			rr, w, v := exec(f, 1, nil, "", -1)
			printed(rr, w, v, kn)
		}
	}
	for name, fm := range map[string]string{"JSON": "json", "Yaml": "yaml"} {
		if f := p.Func("pkg/print", name); f != nil {
			g.key = "document:" + name
			rr, w, v := exec(f, 1, nil, "", -1)
			for _, x := range rr.returns() {
				g.sameDoc(rr, x, fm, w, v)
			}
		}
	}
	r.atLeast(n, 18, "ways to print")
}
