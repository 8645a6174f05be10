package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// G06: the Go type of a generated field

func init() {
	rules["G06"] = propRule{run: runG06, title: "types of generated fields",
		assum: []string{"the scanning types of the package can take the values of their columns, NULL included (B03)"}}
}

const typesPkg = "internal/cli/schema"

// goTypes are the Go types that hold every value of a column type.
var goTypes = map[string][]string{
	"bigint": {"int64", "xdb.Int64"}, "int8": {"int64", "xdb.Int64"},
	"int": {"int32", "int64", "int", "xdb.Int32", "xdb.Int64"}, "int4": {"int32", "int64", "int", "xdb.Int32", "xdb.Int64"},
	"integer":  {"int32", "int64", "int", "xdb.Int32", "xdb.Int64"},
	"smallint": {"int16", "int32", "int64", "int", "xdb.Int32", "xdb.Int64"},
	"int2":     {"int16", "int32", "int64", "int", "xdb.Int32", "xdb.Int64"},
	"tinyint":  {"uint8", "uint16", "uint32", "int16", "int32", "int64", "int", "uint", "uint64", "xdb.Int32", "xdb.Int64"},
	"decimal":  {"float64", "xdb.Float", "string", "xdb.NULLString"}, "numeric": {"float64", "xdb.Float", "string", "xdb.NULLString"},
	"float8": {"float64", "xdb.Float"}, "float": {"float64", "xdb.Float"}, "double precision": {"float64", "xdb.Float"},
	"real": {"float32", "float64", "xdb.Float"}, "float4": {"float32", "float64", "xdb.Float"},
	"bool": {"bool", "xdb.Bool"}, "boolean": {"bool", "xdb.Bool"}, "bit": {"bool", "xdb.Bool"},
	"json": textTypes, "jsonb": textTypes, "xml": textTypes,
	"bytea": {"[]byte"}, "binary": {"[]byte"}, "varbinary": {"[]byte"}, "image": {"[]byte"},
	"nchar": stringTypes, "nvarchar": stringTypes, "ntext": stringTypes, "char": stringTypes, "varchar": stringTypes, "bpchar": stringTypes,
	"text": stringTypes, "cidr": stringTypes, "inet": stringTypes, "ltree": stringTypes,
	"time": {"xdb.Time", "time.Time"}, "date": {"xdb.Time", "time.Time"}, "datetime": {"xdb.Time", "time.Time"}, "datetime2": {"xdb.Time", "time.Time"},
	"timestamp": {"xdb.Time", "time.Time"}, "timestamptz": {"xdb.Time", "time.Time"}, "datetimeoffset": {"xdb.Time", "time.Time"},
	"uniqueidentifier": {"xdb.UUID"}, "uuid": {"xdb.UUID", "string", "xdb.NULLString"},
	// lists
	"_int8": {"xdb.IDArray", "pq.Int64Array"}, "_int4": {"pq.Int32Array", "pq.Int64Array"}, "_int2": {"pq.Int32Array", "pq.Int64Array"},
	"_text": {"pq.StringArray"}, "_varchar": {"pq.StringArray"}, "_bpchar": {"pq.StringArray"},
	"_bool": {"pq.BoolArray"}, "_float8": {"pq.Float64Array"}, "_float4": {"pq.Float32Array", "pq.Float64Array"}, "_numeric": {"pq.Float64Array", "pq.StringArray"},
	"_uuid": {"pq.StringArray"}, "_bytea": {"pq.ByteaArray"},
}

// knownTypes are the types of columns that a model can be generated for.
var knownTypes = []string{"bigint", "int8", "int", "int4", "int2", "smallint", "tinyint", "decimal", "numeric", "real", "float4", "float8", "bool", "boolean", "bit",
	"jsonb", "bytea", "nchar", "nvarchar", "char", "varchar", "bpchar", "text", "cidr", "inet", "ltree",
	"time", "date", "datetime", "datetime2", "timestamp", "timestamptz", "uniqueidentifier", "uuid"}

var textTypes = []string{"string", "xdb.NULLString", "[]byte", "json.RawMessage"}
var stringTypes = []string{"string", "xdb.NULLString"}

// idTypes are the types of columns with an ID.
var idTypes = map[string][]string{
	"bigint": {"xdb.ID"}, "int8": {"xdb.ID"}, "int": {"xdb.ID32", "xdb.ID"}, "int4": {"xdb.ID32", "xdb.ID"}, "integer": {"xdb.ID32", "xdb.ID"},
}

// holdsNull: a value of the Go type can be NULL.
func holdsNull(t string) bool {
	for _, p := range []string{"xdb.", "pq.", "[]", "*", "sql.Null", "json.RawMessage"} {
		if strings.HasPrefix(t, p) {
			return true
		}
	}
	return false
}

// fits: what is wrong with the Go type for a column, or "".
func fits(base, goType string, id, nullable bool) string {
	allowed, known := goTypes[base]
	if id {
		allowed, known = append(append([]string{}, idTypes[base]...), allowed...), known || idTypes[base] != nil
	}
	switch {
	case goType == "":
		return "has no type"
	case nullable && !holdsNull(goType):
		return "can be NULL, which " + goType + " does not hold"
	case known && !oneOfList(allowed, goType):
		return "has values that " + goType + " does not hold (" + strings.Join(allowed, ", ") + ")"
	}
	return ""
}

func oneOfList(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// globalMap: the entries a package level map is initialised with, if it is not changed afterwards.
func (p *Program) globalMap(g *ssa.Global) (map[string]string, bool) {
	if !p.immutable[g] {
		return nil, false
	}
	var made ssa.Value
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					if made != nil {
						return nil, false
					}
					made = s.Val
				}
				u, ok := in.(*ssa.UnOp)
				if !ok || u.X != g {
					continue
				}
				for _, ref := range *u.Referrers() {
					switch ref.(type) {
					case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
						continue
					}
					return nil, false
				}
			}
		}
	}
	if init := g.Pkg.Func("init"); made == nil && init != nil {
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					made = s.Val
				}
			}
		}
	}
	if _, ok := made.(*ssa.MakeMap); !ok {
		return nil, false
	}
	m := map[string]string{}
	for _, ref := range *made.Referrers() {
		switch x := ref.(type) {
		case *ssa.MapUpdate:
			k, ok1 := x.Key.(*ssa.Const)
			v, ok2 := x.Value.(*ssa.Const)
			if !ok1 || !ok2 {
				return nil, false
			}
			m[constant.StringVal(k.Value)] = constant.StringVal(v.Value)
		case *ssa.Store, *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	return m, true
}

type typeRule struct {
	*Report
	e       *Engine
	c       *Term
	maps    map[*Term]map[string]string // constant tables
	loose   bool                        // a nullable column may get the type of the one that is not
	looseID bool
	pos     token.Pos
	consts  map[string]bool // types with a constant
}

func runG06(r *Report) {
	p := r.p
	r.rule("on every path of the function that gives a column its Go type, the type is an override by the name of the column or its full name, or an entry of the table of types under a key made from the type of the column; a key for NULL is looked for first if the column can be NULL, and keys for IDs are used for columns named as IDs only")
	r.rule("each entry of the table, and each constant that is given for a list, is a Go type that holds every value of the column type (a table of ranges), NULL included where a column that can be NULL gets it")
	f := p.Func(typesPkg, "toGoType")
	if f == nil {
		r.missing("toGoType")
		return
	}
	t := &typeRule{Report: r, maps: map[*Term]map[string]string{}, consts: map[string]bool{}, pos: f.Pos()}
	res := r.run(f, func(e *Engine, st *State, args []*Term) { e.Unroll = 4 })
	t.e = res.e
	t.c = res.args[0]
	n := 0
	for _, x := range res.exits {
		if t.impossible(x.St) {
			continue
		}
		if x.Panic {
			t.refused(x)
			continue
		}
		n++
		t.given(x)
	}
	r.atLeast(n, 5, "ways to get a type")
	t.tables()
}

func (t *typeRule) field(st *State, name string) *Term { return t.e.loadField(st, t.c, name) }

// nullable: whether the column can be NULL on the path.
func (t *typeRule) nullable(st *State) (bool, bool) { return t.e.evalBool(st, t.field(st, "Nullable")) }

// table is the constant table that the map is.
func (t *typeRule) table(m *Term) map[string]string {
	if m.op != "gval" || m.gl == nil {
		return nil
	}
	if r, ok := t.maps[m]; ok {
		return r
	}
	r, ok := t.p.globalMap(m.gl)
	if !ok {
		r = nil
	}
	t.maps[m] = r
	return r
}

// columnKey is the key of a table made from the type of a column.
type columnKey struct {
	typ      *Term
	id, null bool
}

func (t *typeRule) key(st *State, k *Term) (columnKey, bool) {
	var r columnKey
	if s, ok := k.constStr(); ok {
		b := strings.TrimPrefix(s, "id ")
		n := strings.TrimSuffix(b, " NULL")
		c := t.e.ts.strTerm(n)
		is, known := t.e.evalBool(st, t.e.eqTerm(t.field(st, "UdtType"), c, types.Typ[types.String]))
		if known && !is {
			if e, k := t.e.evalBool(st, t.e.eqTerm(t.field(st, "UdtType"), t.e.ts.strTerm(""), types.Typ[types.String])); k && e {
				is, known = t.e.evalBool(st, t.e.eqTerm(t.field(st, "Type"), c, types.Typ[types.String]))
			}
		}
		return columnKey{c, b != s, n != b}, known && is
	}
	ps := []*Term{k}
	if k.op == "concat" {
		ps = k.args
	}
	if s, ok := ps[0].constStr(); ok && len(ps) > 1 {
		if s != "id " {
			return r, false
		}
		r.id, ps = true, ps[1:]
	}
	if s, ok := ps[len(ps)-1].constStr(); ok && len(ps) > 1 {
		if s != " NULL" {
			return r, false
		}
		r.null, ps = true, ps[:len(ps)-1]
	}
	r.typ = ps[0]
	udt, typ := t.field(st, "UdtType"), t.field(st, "Type")
	switch {
	case len(ps) != 1:
		return r, false
	case r.typ == udt:
		return r, true
	case r.typ == typ: // of no other name
		v, k := t.e.evalBool(st, t.e.eqTerm(t.e.lenOf(udt), t.e.ts.intTerm(0), types.Typ[types.Int]))
		return r, k && v
	}
	return r, false
}

// empty: the keys of constant tables that were found to have no entry on the path.
func (t *typeRule) empty(st *State, known func(k columnKey) bool) bool {
	for _, x := range sortedTerms(st.b) {
		a := t.e.readFrom(x)
		if a != nil && a.op == "mapok" && !st.b[x] && t.table(a.args[0]) != nil {
			if k, ok := t.key(st, a.args[1]); ok && known(k) {
				return true
			}
		}
		for _, y := range x.args {
			a := t.e.readFrom(y)
			if y.op == "len" && len(y.args) == 1 {
				a = t.e.readFrom(y.args[0])
				y = y.args[0]
			}
			if a == nil || a.op != "mapel" || t.table(a.args[0]) == nil {
				continue
			}
			if v, k := t.e.evalBool(st, t.e.eqTerm(t.e.lenOf(y), t.e.ts.intTerm(0), types.Typ[types.Int])); !k || !v {
				continue
			}
			if k, ok := t.key(st, a.args[1]); ok && known(k) {
				return true
			}
		}
	}
	for _, x := range sortedTerms(st.iv) {
		if x.op != "len" {
			continue
		}
		a := t.e.readFrom(x.args[0])
		if a == nil || a.op != "mapel" || t.table(a.args[0]) == nil {
			continue
		}
		if v, k := t.e.evalBool(st, t.e.eqTerm(x, t.e.ts.intTerm(0), types.Typ[types.Int])); !k || !v {
			continue
		}
		if k, ok := t.key(st, a.args[1]); ok && known(k) {
			return true
		}
	}
	return false
}

// impossible: an entry of a constant table is there and empty, or not there and not empty.
func (t *typeRule) impossible(st *State) bool {
	for _, x := range sortedTerms(st.b) {
		a := t.e.readFrom(x)
		if a == nil || a.op != "mapok" {
			continue
		}
		tb := t.table(a.args[0])
		if tb == nil {
			continue
		}
		el, _ := t.e.mapAddr(a.args[0], a.args[1])
		v := t.e.load(st, el, types.Typ[types.String])
		z, known := t.e.evalBool(st, t.e.eqTerm(t.e.lenOf(v), t.e.ts.intTerm(0), types.Typ[types.Int]))
		if !known {
			continue
		}
		hasEmpty := false
		for _, e := range tb {
			hasEmpty = hasEmpty || e == ""
		}
		if st.b[x] && z && !hasEmpty || !st.b[x] && !z {
			return true
		}
	}
	return false
}

// isID: whether the name of the column was found to be one of an ID.
func (t *typeRule) isID(st *State) (yes, no bool) {
	name := t.field(st, "Name")
	neg := map[string]bool{}
	for _, x := range sortedTerms(st.b) {
		if len(x.args) < 2 {
			continue
		}
		on, lower := false, false
		for _, a := range x.args {
			if isPure(a, "strings.ToLower", "strings.ToUpper") {
				a, lower = a.args[0], true
			}
			on = on || a == name
		}
		if !on {
			continue
		}
		for _, a := range x.args {
			s, ok := a.constStr()
			if !ok || !strings.HasSuffix(strings.ToLower(s), "id") {
				continue
			}
			if st.b[x] {
				switch {
				case isPure(x, "strings.HasSuffix"):
					// "paid" is no ID
					yes = yes || s == "Id" || s == "ID" || strings.EqualFold(s, "_id")
				case isPure(x, "strings.EqualFold"), x.op == "eq":
					yes = yes || strings.EqualFold(s, "id")
				}
				continue
			}
			neg[s] = true
			if lower {
				neg["Id"], neg["ID"] = true, true
			}
			if len(s) == 2 && strings.Contains(x.aux, "HasSuffix") && lower {
				neg["_id"], neg["id"] = true, true
			}
		}
	}
	return yes, neg["_id"] && neg["Id"] && neg["ID"]
}

// overridden: whether an entry with the name was found in a map that is not constant.
func (t *typeRule) override(st *State, key *Term) (there, known bool) {
	for _, x := range sortedTerms(st.b) {
		a := t.e.readFrom(x)
		if a != nil && a.op == "mapok" && a.args[0].op == "gval" && t.table(a.args[0]) == nil && a.args[1] == key {
			return st.b[x], true
		}
	}
	return false, false
}

// given checks a type that is returned.
func (t *typeRule) given(x *Exit) {
	st, v := x.St, x.Results[0]
	name, full := t.field(st, "Name"), t.field(st, "SchemaName")
	o1, k1 := t.override(st, name)
	o2, k2 := t.override(st, full)
	a := t.e.readFrom(v)
	if a != nil && a.op == "mapel" && t.table(a.args[0]) == nil {
		key := a.args[1]
		switch s, _ := key.constStr(); {
		case a.args[0].op != "gval":
			t.check(false, "override", x.Pos, "the type is read from %s", a.args[0])
		case key == name:
			t.check(o1, "override", x.Pos, "the type is an override that may not be there")
		case key == full:
			t.check(o2, "override", x.Pos, "the type is an override that may not be there")
		case s == "_count":
			o, _ := t.override(st, key)
			n, kn := t.nullable(st)
			is, ki := t.e.evalBool(st, t.e.eqTerm(t.field(st, "UdtType"), t.e.ts.strTerm("int4"), types.Typ[types.String]))
			suffix := false
			for _, y := range sortedTerms(st.b) {
				suffix = suffix || st.b[y] && isPure(y, "strings.HasSuffix") && y.args[0] == name && y.args[1] == key
			}
			t.check(o && kn && !n && ki && is && suffix, "override", x.Pos, "the type for counts is given to another column than one that is a count and not NULL")
		default:
			t.check(false, "override", x.Pos, "the type is an override of %s, not of this column", key)
		}
		return
	}
	t.check(k1 && !o1 && k2 && !o2, "overridden", x.Pos, "the type of the definitions, by the name of the column or its full name, is not looked for before another is given")
	null, kn := t.nullable(st)
	udt := t.field(st, "UdtType")
	if s, ok := v.constStr(); ok {
		var base string
		for _, y := range sortedTerms(st.b) {
			if y.op == "eq" && st.b[y] && (y.args[0] == udt || y.args[1] == udt) {
				for _, c := range y.args {
					if b, ok := c.constStr(); ok {
						base = b
					}
				}
			}
		}
		if base == "" {
			t.check(false, "constant", x.Pos, "%s is given whatever the type of the column is", s)
			return
		}
		id, _ := t.isID(st)
		bad := fits(base, s, id, null || !kn)
		t.consts[base] = true
		t.check(bad == "" && s != "[]", "constant:"+base, x.Pos, "a column of type %s %s", base, bad)
		return
	}
	if a == nil || a.op != "mapel" {
		t.check(false, "table", x.Pos, "the type is %s, which does not come from the table of types", v)
		return
	}
	k, ok := t.key(st, a.args[1])
	if !ok {
		t.check(false, "key", x.Pos, "the key %s is not made from the type of the column", a.args[1])
		return
	}
	there, known := t.e.evalBool(st, t.e.eqTerm(t.e.lenOf(v), t.e.ts.intTerm(0), types.Typ[types.Int]))
	ok2 := known && !there
	if !ok2 {
		for _, y := range sortedTerms(st.b) {
			b := t.e.readFrom(y)
			ok2 = ok2 || b != nil && b.op == "mapok" && st.b[y] && b.args[0] == a.args[0] && b.args[1] == a.args[1]
		}
	}
	t.check(ok2, "found", x.Pos, "a type is given that may not be in the table")
	is, isnt := t.isID(st)
	if k.id {
		t.check(is, "id", x.Pos, "the type of an ID is given to a column that may not be named as one")
	} else {
		noID := t.empty(st, func(q columnKey) bool { return q.id && !q.null && q.typ == k.typ })
		t.check(isnt || noID, "id", x.Pos, "a column named as an ID gets a type before that of IDs is looked for")
	}
	switch {
	case k.null:
		t.check(kn && null, "null", x.Pos, "the type for NULL is given to a column that may not be NULL")
	case !kn:
		t.loose = true
		t.check(false, "null", x.Pos, "a type is given before it is known whether the column can be NULL")
	case null:
		t.loose = true
		no := t.empty(st, func(q columnKey) bool { return q.null && q.id == k.id && q.typ == k.typ })
		t.check(no, "null", x.Pos, "a column that can be NULL gets the type of one that is not before that for NULL is looked for")
	default:
		t.check(true, "null", x.Pos, "")
	}
}

// refused: no type is given only if the table has none.
func (t *typeRule) refused(x *Exit) {
	st := x.St
	arr, ka := t.e.evalBool(st, t.e.eqTerm(t.field(st, "Type"), t.e.ts.strTerm("ARRAY"), types.Typ[types.String]))
	if ka && arr {
		for _, b := range []string{"_int8", "_text", "_varchar"} {
			v, k := t.e.evalBool(st, t.e.eqTerm(t.field(st, "UdtType"), t.e.ts.strTerm(b), types.Typ[types.String]))
			t.check(k && !v, "refused:"+b, x.Pos, "a list of type %s may be refused", b)
		}
		return
	}
	null, kn := t.nullable(st)
	t.check(t.empty(st, func(q columnKey) bool { return !q.id && !q.null }), "refused", x.Pos, "a column may be refused although the table has its type")
	if !kn || null {
		t.check(t.empty(st, func(q columnKey) bool { return !q.id && q.null }), "refused", x.Pos, "a column that can be NULL may be refused although the table has its type")
	}
}

// tables checks the entries of the tables that types are taken from.
func (t *typeRule) tables() {
	n := 0
	for _, m := range sortedTables(t.maps) {
		tb := t.maps[m]
		var ks []string
		for k := range tb {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			n++
			base := strings.TrimPrefix(k, "id ")
			id := base != k
			key := base
			base = strings.TrimSuffix(base, " NULL")
			null := base != key
			if _, more := tb[k+" NULL"]; !null && !more && t.loose {
				null = true
			}
			bad := fits(base, tb[k], id, null)
			t.check(bad == "", "entry:"+k, m.gl.Pos(), "a column of type %q %s", k, bad)
			if id && idTypes[base] != nil {
				t.check(oneOfList(idTypes[base], tb[k]), "entry:"+k, m.gl.Pos(), "an ID of type %s becomes %s", base, tb[k])
			}
		}
	}
	for _, b := range knownTypes {
		there := t.consts[b]
		for _, tb := range t.maps {
			there = there || tb[b] != ""
		}
		t.check(there, "known:"+b, t.pos, "a column of type %s is refused", b)
	}
	t.atLeast(n, 20, "entries of the table of types")
}

func sortedTables(m map[*Term]map[string]string) []*Term {
	var r []*Term
	for k, v := range m {
		if v != nil {
			r = append(r, k)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}
