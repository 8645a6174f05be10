package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// J01: the connection that is made is the one that was asked for

func init() {
	rules["J01"] = propRule{run: runJ01, title: "the database asked for"}
}

const (
	urlParse  = "net/url.Parse"
	urlQuery  = "net/url.(URL).Query"
	urlString = "net/url.(URL).String"
	urlEncode = "net/url.(Values).Encode"
)

// urlCalls makes the calls that build a URL visible in the order they are made.
func urlCalls(e *Engine) {
	e.Impure = map[string]bool{urlParse: true, urlQuery: true, urlString: true, urlEncode: true,
		"net/url.(URL).JoinPath": true, "net/url.(URL).ResolveReference": true, "net/url.ParseRequestURI": true}
}

// configured strips what resolves and trims a configured value.
func configured(t *Term, evs []*Event) *Term {
	given := resolved(evs)
	for {
		switch {
		case isPure(t, "strings.TrimSpace"):
			t = t.args[0]
		case isPure(t, "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix"):
			c, ok := t.args[1].constStr()
			if !ok || strings.Trim(c, "\"' \t\r\n") != "" {
				return t
			}
			t = t.args[0]
		case given[t] != nil:
			t = given[t]
		default:
			return t
		}
	}
}

// resolved are the results of ResolveValue with what it was given.
func resolved(evs []*Event) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, ev := range evs {
		if ev.Kind == "call" && strings.HasSuffix(ev.Callee, "configloader.ResolveValue") && len(ev.Args) == 1 && ev.Result != nil && len(ev.Result.args) == 2 {
			m[ev.Result.args[0]] = ev.Args[0]
		}
	}
	return m
}

// leavesAtEnd: the loop is left at its header only.
func leavesAtEnd(rec *LoopRec) bool {
	for b := range rec.Blocks {
		if b == rec.Header {
			continue
		}
		for _, s := range b.Succs {
			if !rec.Blocks[s] {
				return false
			}
		}
	}
	return true
}

// urlState is what is known of a URL that is being built.
type urlState struct {
	parsed  *Term            // of this text
	queries map[*Term]*query // maps of parameters made of it
	fields  map[string]*Term // fields assigned
	raw     *query           // parameters assigned last
}

type query struct {
	set, del map[string]*Term
	odd      string
	all      bool // everything else is as parsed
}

func (q *query) clone() *query {
	n := &query{set: map[string]*Term{}, del: map[string]*Term{}, odd: q.odd}
	for k, v := range q.set {
		n.set[k] = v
	}
	for k, v := range q.del {
		n.del[k] = v
	}
	return n
}

// oneElement is the only element of the new list.
func oneElement(e *Engine, l *Term, stored map[*Term]*Term) *Term {
	if l.op == "append" && l.aux != "..." && len(l.args) == 2 && (l.args[0].op == "nil" || l.args[0].op == "make") {
		return l.args[1]
	}
	if l.op != "slice" || l.args[0].op != "alloc" || !isArrayPtr(l.args[0]) {
		return nil
	}
	arr := ptrElem(l.args[0]).Underlying().(*types.Array)
	if arr.Len() != 1 {
		return nil
	}
	return stored[e.ts.mk("index", "", types.NewPointer(arr.Elem()), l.args[0], e.ts.intTerm(0))]
}

// urlsOf follows the URLs on the path up to the event.
func urlsOf(e *Engine, st *State, evs []*Event, upto *Event) map[*Term]*urlState {
	urls := map[*Term]*urlState{}
	encoded := map[*Term]*query{}
	texts := map[*Term]*urlState{}
	qs := map[*Term]*query{}
	stored := map[*Term]*Term{}
	for _, ev := range evs {
		if ev == upto {
			break
		}
		switch ev.Kind {
		case "loop":
			for q, s := range qs {
				for _, it := range ev.Loop.Iters {
					for _, iv := range it {
						if iv.Kind == "call" && len(iv.Args) > 0 && iv.Args[0] == q && !strings.HasSuffix(iv.Callee, ".Get") && !strings.HasSuffix(iv.Callee, ".Has") || iv.Kind == "mapupdate" && iv.Args[0] == q {
							s.odd = "changed in a loop"
						}
					}
				}
			}
		case "call":
			switch ev.Callee {
			case urlParse:
				if ev.Result != nil && len(ev.Result.args) == 2 {
					urls[ev.Result.args[0]] = &urlState{parsed: ev.Args[0], queries: map[*Term]*query{}, fields: map[string]*Term{}}
				}
			case urlQuery:
				if u := urls[ev.Args[0]]; u != nil {
					q := &query{set: map[string]*Term{}, del: map[string]*Term{}}
					if u.raw != nil {
						q = u.raw.clone()
					}
					u.queries[ev.Result] = q
					qs[ev.Result] = q
				}
			case urlEncode:
				if q := qs[ev.Args[0]]; q != nil {
					encoded[ev.Result] = q.clone()
				}
			case urlString:
				if u := urls[ev.Args[0]]; u != nil {
					c := &urlState{parsed: u.parsed, raw: u.raw, fields: map[string]*Term{}}
					for k, v := range u.fields {
						c.fields[k] = v
					}
					texts[ev.Result] = c
				}
			case "net/url.(Values).Get", "net/url.(Values).Has":
			default:
				for i, a := range ev.Args {
					q := qs[a]
					if q == nil {
						if u := urls[a]; u != nil && i > 0 {
							u.fields["?"] = a
						}
						continue
					}
					k, ok := "", false
					if len(ev.Args) > 1 {
						k, ok = ev.Args[1].constStr()
					}
					switch {
					case i == 0 && ok && ev.Callee == "net/url.(Values).Set":
						q.set[k] = ev.Args[2]
					case i == 0 && ok && ev.Callee == "net/url.(Values).Del":
						delete(q.set, k)
						q.del[k] = ev.Args[1]
					case i == 0 && ok && ev.Callee == "net/url.(Values).Add" && q.del[k] != nil && q.set[k] == nil:
						q.set[k] = ev.Args[2]
					default:
						q.odd = "changed by " + method(ev.Callee)
					}
				}
			}
		case "mapupdate":
			if q := qs[ev.Args[0]]; q != nil {
				k, ok := ev.Args[1].constStr()
				v := ev.Args[2]
				if v = oneElement(e, v, stored); v == nil {
					ok = false
				}
				if !ok {
					q.odd = "changed"
				} else {
					q.set[k] = v
				}
			}
		case "store":
			stored[ev.Args[0]] = ev.Args[1]
			if a := ev.Args[0]; a.op == "field" {
				if u := urls[a.args[0]]; u != nil {
					n := fieldName(a.aux)
					if n == "RawQuery" {
						q := encoded[ev.Args[1]]
						if q == nil {
							u.fields["RawQuery"] = ev.Args[1]
						} else {
							delete(u.fields, "RawQuery")
						}
						u.raw = q
					} else {
						u.fields[n] = ev.Args[1]
					}
				}
			}
		}
	}
	return texts
}

func callEvents(st *State, callee string) (r []*Event) {
	for _, ev := range st.events() {
		if ev.Kind == "call" && ev.Callee == callee {
			r = append(r, ev)
		}
	}
	return
}

// isScheme: the scheme of the URL that the text is.
func isScheme(e *Engine, st *State, t *Term, evs []*Event, text *Term) bool {
	if t.op != "ld" || t.args[0].op != "field" || fieldName(t.args[0].aux) != "Scheme" {
		return false
	}
	u := t.args[0].args[0]
	for _, ev := range evs {
		if ev.Kind == "call" && ev.Callee == urlParse && ev.Result != nil && len(ev.Result.args) == 2 && ev.Result.args[0] == u {
			return configured(ev.Args[0], evs) == configured(text, evs)
		}
	}
	return false
}

var databaseParam = map[string]string{"postgres": "dbname", "sqlserver": "database"}

func runJ01(r *Report) {
	r.rule("Open: the driver is that of the scheme of the configured connection string; without a database name it is given the connection string as configured; with one it is given the URL of the connection string in which exactly the parameter of the database (dbname of postgres, database of sqlserver) is set to the name, encoded, and for postgres a database in the path removed; the other parts and parameters stay; drivers whose parameter is not known are not opened")
	r.rule("Open returns the handle opened, after a successful ping, with the driver and the connection string it was opened with")
	r.rule("NewProvider opens the source and database given; the provider has the handle, driver and connection string of Open")
	r.rule("New, Name, ConnectionString: the provider keeps the handle and name it is made of, and gives back the name and connection string")
	r.rule("ParseConnectionString: every part is that of the URL; the database is the parameter dbname, or else database; Params has every parameter")
	p := r.p
	open := p.Func("", "Open")
	if open == nil || len(open.Params) != 2 {
		r.missing("function Open(dataSource, database)")
		return
	}
	const sqlOpen, sqlPing = "database/sql.Open", "database/sql.(DB).Ping"
	n, named := 0, map[string]int{}
	rr := r.run(open, func(e *Engine, st *State, args []*Term) {
		urlCalls(e)
		// parts of the parsed source that are not of interest
		e.MaxStates = 2000
	})
	e := rr.e
	for _, x := range rr.exits {
		if x.Panic {
			continue
		}
		evs := x.St.events()
		ops := callEvents(x.St, sqlOpen)
		for _, ev := range evs {
			if ev.Kind == "call" && strings.HasPrefix(ev.Callee, "database/sql.Open") && ev.Callee != sqlOpen {
				r.check(false, "open:handle", ev.Instr.Pos(), "the handle is opened by %s", ev.Callee)
			}
		}
		for _, ev := range ops {
			n++
			drv, dsn := ev.Args[0], ev.Args[1]
			texts := urlsOf(e, x.St, evs, ev)
			u := texts[dsn]
			base := dsn
			if u != nil {
				base = u.parsed
			}
			{
				r.check(configured(base, evs) == rr.args[0], "open:source", ev.Instr.Pos(), "the connection string %s is not made of the configured one", base)
				r.check(isScheme(e, x.St, drv, evs, rr.args[0]), "open:driver", ev.Instr.Pos(), "the driver %s is not that of the scheme of the connection string", drv)
			}
			empty, known := e.evalBool(x.St, e.eqTerm(rr.args[1], e.ts.strTerm(""), rr.args[1].typ))
			if u == nil {
				r.check(known && empty, "open:database", ev.Instr.Pos(), "the database that is asked for is not set as a parameter of the URL of the connection string: another database in it may be opened (%s)", dsn)
				continue
			}
			driver := ""
			for d := range databaseParam {
				if v, k := e.evalBool(x.St, e.eqTerm(drv, e.ts.strTerm(d), drv.typ)); k && v {
					driver = d
				}
			}
			// nothing but the parameters changes
			for f, v := range u.fields {
				s, isC := v.constStr()
				ok := f == "RawPath" && isC && s == "" || f == "ForceQuery"
				if f == "Path" && driver == "postgres" {
					ok = isC && strings.Trim(s, "/") == "" || v == e.ts.concat(e.ts.strTerm("/"), rr.args[1]) && !(known && empty)
				}
				r.check(ok, "open:parts", ev.Instr.Pos(), "the part %s of the connection string becomes %s", f, v)
			}
			if known && empty {
				if u.raw != nil {
					r.check(len(u.raw.set) == 0 && len(u.raw.del) == 0 && u.raw.odd == "", "open:parameters", ev.Instr.Pos(), "parameters are changed without a database name")
				}
				continue
			}
			if !r.check(driver != "", "open:unknown", ev.Instr.Pos(), "a database name is used with a driver whose parameter is not known") {
				continue
			}
			named[driver]++
			par := databaseParam[driver]
			inPath := u.fields["Path"] == e.ts.concat(e.ts.strTerm("/"), rr.args[1])
			ok := u.raw != nil && u.raw.odd == "" && (u.raw.set[par] == rr.args[1] || inPath && u.raw.set[par] == nil && u.raw.del[par] != nil)
			if !r.check(ok, "open:database", ev.Instr.Pos(), "the connection string of %s does not have its database set to the name that is asked for", driver) {
				continue
			}
			other := ""
			for k := range u.raw.set {
				if k != par {
					other = k
				}
			}
			for k := range u.raw.del {
				if k != par && k != "dbname" && k != "database" {
					other = k
				}
			}
			r.check(other == "", "open:parameters", ev.Instr.Pos(), "the parameter %s of the connection string is changed", other)
			if driver == "postgres" {
				r.check(u.fields["Path"] != nil, "open:path", ev.Instr.Pos(), "a database in the path of the connection string is left there, next to the one asked for")
			}
		}
		if !rr.succeeds(x) {
			continue
		}
		if !r.check(len(ops) == 1, "open:handle", x.Pos, "a success without one handle opened") {
			continue
		}
		op := ops[0]
		r.check(x.Results[0] == op.Result.args[0], "open:handle", x.Pos, "the handle returned is not the one opened")
		r.check(x.Results[1] == op.Args[0], "open:returned", x.Pos, "the driver returned is %s, not the one used", x.Results[1])
		r.check(x.Results[2] == op.Args[1], "open:returned", x.Pos, "the connection string returned is %s, not the one used", x.Results[2])
		r.check(knownNil(e, x.St, op.Result.args[1]), "open:checked", x.Pos, "success although opening may have failed")
		pinged := false
		for _, ev := range evs {
			if ev.Kind == "call" && (ev.Callee == sqlPing || ev.Callee == sqlPing+"Context") && ev.Args[0] == op.Result.args[0] && knownNil(e, x.St, ev.Result) {
				pinged = true
			}
		}
		r.check(pinged, "open:checked", x.Pos, "success without a successful ping")
	}
	r.atLeast(n, 4, "paths on which Open opens a handle")
	for _, d := range []string{"postgres", "sqlserver"} {
		r.atLeast(named[d], 1, "paths on which a named database of "+d+" is opened")
	}

	// the provider
	T := p.Named("", "SQLProvider")
	if T == nil {
		r.missing("SQLProvider")
		return
	}
	pr := findProv(r)
	if pr == nil {
		return
	}
	get := func(x *Exit, e *Engine, prov *Term, acc string) *Term {
		f := p.Method("", "SQLProvider", acc)
		if f == nil {
			r.missing("method " + acc)
			return nil
		}
		for _, y := range e.Run(f, x.St.clone(), []*Term{prov}) {
			if !y.Panic {
				return y.Results[0]
			}
		}
		return nil
	}
	prov := func(f *ssa.Function) {
		if f == nil {
			r.missing("New, NewProvider")
			return
		}
		m := 0
		rr := r.run(f, func(e *Engine, st *State, args []*Term) {
			e.Inline = func(g *ssa.Function, d int) bool { return g != open && g.Name() != "Migrate" }
		})
		for _, x := range rr.returns() {
			if !rr.succeeds(x) {
				continue
			}
			o := unIface(x.Results[0])
			if !r.check(isFresh(o), "provider:new", x.Pos, "%s does not make a provider", f.Name()) {
				continue
			}
			m++
			var h, name, cs *Term
			if f.Name() == "New" {
				h = paramNamed(rr, isSQLDB)
				name = rr.args[0]
				cs = rr.e.ts.strTerm("")
			} else {
				ops := callEvents(x.St, modPath+".Open")
				if !r.check(len(ops) == 1 && ops[0].Args[0] == rr.args[0] && ops[0].Args[1] == rr.args[1], "provider:opened", x.Pos, "NewProvider does not open the source and database it is given") {
					continue
				}
				res := ops[0].Result
				h, name, cs = res.args[0], res.args[1], res.args[2]
				r.check(knownNil(rr.e, x.St, res.args[3]), "provider:opened", x.Pos, "success although Open may have failed")
			}
			r.check(pr.field(rr.e, x.St, o, pr.conn) == h, "provider:handle", x.Pos, "%s: the provider keeps %s, not the handle it is made of", f.Name(), pr.field(rr.e, x.St, o, pr.conn))
			r.check(unIface(pr.field(rr.e, x.St, o, pr.db)) == h, "provider:handle", x.Pos, "%s: the provider works on %s, not the handle it is made of", f.Name(), pr.field(rr.e, x.St, o, pr.db))
			if g := get(x, rr.e, o, "Name"); g != nil {
				r.check(g == name, "provider:name", x.Pos, "%s: the name of the provider is %s", f.Name(), g)
			}
			if g := get(x, rr.e, o, "ConnectionString"); g != nil {
				r.check(g == cs, "provider:connstr", x.Pos, "%s: the connection string of the provider is %s, not that of the handle", f.Name(), g)
			}
		}
		r.atLeast(m, 1, "paths on which "+f.Name()+" makes a provider")
	}
	prov(p.Func("", "New"))
	prov(p.Func("", "NewProvider"))
	r.parseConn()
}

func isSQLDB(t types.Type) bool { return typeName(t) == "database/sql.DB" }

// parseConn: the fields of the parsed source.
func (r *Report) parseConn() {
	f := r.p.Func("", "ParseConnectionString")
	S := r.p.Named("", "Source")
	if f == nil || S == nil {
		r.missing("ParseConnectionString, Source")
		return
	}
	rr := r.run(f, nil)
	e := rr.e
	n := 0
	for _, x := range rr.returns() {
		if !rr.succeeds(x) {
			continue
		}
		n++
		evs := x.St.events()
		src := unIface(x.Results[0])
		u := (*Term)(nil)
		field := func(name string) *Term { return e.loadField(x.St, src, name) }
		if d := field("Driver"); r.check(d != nil && d.op == "ld" && d.args[0].op == "field" && fieldName(d.args[0].aux) == "Scheme", "parse:Driver", x.Pos, "the driver is %s, not the scheme of the URL", d) {
			u = d.args[0].args[0]
		} else {
			continue
		}
		par := u
		for par.op == "extract" {
			par = par.args[0]
		}
		if !r.check(isPure(par, urlParse) && configured(par.args[0], evs) == rr.args[0], "parse:source", x.Pos, "the URL is not that of the connection string") {
			continue
		}
		if t := field("Source"); t != nil {
			r.check(configured(t, evs) == rr.args[0], "parse:Source", x.Pos, "the source is %s", t)
		}
		is := func(t *Term, name string) bool {
			return t != nil && t.op == "ld" && t.args[0].op == "field" && fieldName(t.args[0].aux) == name && t.args[0].args[0] == u
		}
		r.check(is(field("Host"), "Host"), "parse:Host", x.Pos, "the host is %s", field("Host"))
		us := field("User")
		r.check(isPure(us, "net/url.(Userinfo).Username") && is(us.args[0], "User"), "parse:User", x.Pos, "the user is %s", us)
		pw := field("Password")
		isPw := func(t *Term, i string) bool {
			return t.op == "extract" && t.aux == i && isPure(t.args[0], "net/url.(Userinfo).Password") && is(t.args[0].args[0], "User")
		}
		ok := isPw(pw, "0")
		if s, c := pw.constStr(); c && s == "" {
			for t, v := range x.St.b {
				if isPw(t, "1") && !v {
					ok = true
				}
			}
		}
		r.check(ok, "parse:Password", x.Pos, "the password is %s", pw)
		// the parameters
		gets := map[*Term]*Event{}
		for _, ev := range evs {
			if ev.Kind == "call" && ev.Callee == "net/url.(Values).Get" && isPure(ev.Args[0], urlQuery) && ev.Args[0].args[0] == u {
				gets[ev.Result] = ev
			}
			if ev.Kind == "loop" {
				for _, it := range ev.Loop.Iters {
					for _, ev := range it {
						if ev.Kind == "call" && ev.Callee == "net/url.(Values).Get" && isPure(ev.Args[0], urlQuery) && ev.Args[0].args[0] == u {
							gets[ev.Result] = ev
						}
					}
				}
			}
		}
		db := field("Database")
		emptyGet := func(name string) bool {
			for t, ev := range gets {
				if s, c := ev.Args[1].constStr(); c && s == name {
					if v, k := e.evalBool(x.St, e.eqTerm(t, e.ts.strTerm(""), t.typ)); k && v {
						return true
					}
				}
			}
			return false
		}
		name := ""
		if ev := gets[db]; ev != nil {
			name, _ = ev.Args[1].constStr()
		}
		s, isC := db.constStr()
		switch {
		case name == "dbname":
		case name == "database", isC && s == "" && emptyGet("database"):
			r.check(emptyGet("dbname"), "parse:Database", x.Pos, "the parameter dbname is not asked for first")
		default:
			r.check(false, "parse:Database", x.Pos, "the database is %s, not the parameter of the URL", db)
		}
		m := field("Params")
		filled := false
		for _, ev := range evs {
			if ev.Kind != "loop" || !leavesAtEnd(ev.Loop) || len(ev.Loop.Iters) == 0 {
				continue
			}
			filled = true
			for _, it := range ev.Loop.Iters {
				put := false
				for _, ev := range it {
					if ev.Kind == "mapupdate" && ev.Args[0] == m {
						k, v := ev.Args[1], ev.Args[2]
						q := rangedOver(k)
						g := gets[v]
						put = q != nil && isPure(q, urlQuery) && q.args[0] == u && k.aux == "1" &&
							(g != nil && g.Args[1] == k || v.op == "ld" && v.args[0].op == "index" && v.args[0].args[0] == e.ts.mk("extract", "2", nil, k.args[0]))
					}
				}
				filled = filled && put
			}
		}
		r.check(filled && isFresh(m), "parse:Params", x.Pos, "Params does not have every parameter of the URL")
	}
	r.atLeast(n, 2, "paths on which ParseConnectionString succeeds")
}
