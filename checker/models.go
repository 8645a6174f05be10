package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) builtin(fr *frame, st *State, in ssa.CallInstruction, b *ssa.Builtin, cc *ssa.CallCommon, args []*Term, site string) *Term {
	ts := e.ts
	var typ types.Type
	if v := in.Value(); v != nil {
		typ = v.Type()
	}
	switch b.Name() {
	case "len":
		t := cc.Args[0].Type().Underlying()
		if _, ok := t.(*types.Map); ok {
			if n, k := e.nilness(st, args[0]); k && n {
				return ts.intTerm(0)
			}
			return e.load(st, ts.mk("maplen", "", nil, args[0]), types.Typ[types.Int])
		}
		if _, ok := t.(*types.Chan); ok {
			x := ts.mk("chanlen", site, typ, args[0])
			x.site = in
			return x
		}
		return e.lenOf(args[0])
	case "cap":
		return ts.mk("cap", "", typ, args[0])
	case "append":
		s := args[0]
		if len(args) < 2 {
			return s
		}
		x := e.snapshot(st, args[1])
		ev := &Event{Kind: "append", Instr: in, Ctx: fr.ctx, Args: []*Term{s, x}}
		var res *Term
		if x.op == "slicelit" {
			if len(x.args) == 0 {
				return s
			}
			if s.op == "append" && s.aux != "..." {
				res = ts.mk("append", "", s.typ, append(append([]*Term{}, s.args...), x.args...)...)
			} else {
				res = ts.mk("append", "", typ, append([]*Term{s}, x.args...)...)
			}
		} else {
			if x.op == "nil" {
				return s
			}
			res = ts.mk("append", "...", typ, s, x)
		}
		ev.Result = res
		st.event(ev)
		if e.OnEvent != nil && e.quiet == 0 {
			e.OnEvent(st, ev)
		}
		return res
	case "copy":
		dst := args[0]
		ev := &Event{Kind: "copy", Instr: in, Ctx: fr.ctx, Args: []*Term{dst, args[1]}}
		st.event(ev)
		if e.OnEvent != nil && e.quiet == 0 {
			e.OnEvent(st, ev)
		}
		e.applyKill(st, &kill{kind: "objs", id: site, objs: map[*Term]bool{root(dst): true}})
		x := ts.mk("copied", site, typ)
		x.site = in
		return x
	case "delete":
		el := args[0]
		ev := &Event{Kind: "delete", Instr: in, Ctx: fr.ctx, Args: []*Term{el, args[1]}}
		st.event(ev)
		if e.OnEvent != nil && e.quiet == 0 {
			e.OnEvent(st, ev)
		}
		if mt, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			e.mapStore(st, el, args[1], e.zero(mt.Elem()), false, site)
		}
		return ts.mk("tuple", "", nil)
	case "clear":
		ev := &Event{Kind: "clear", Instr: in, Ctx: fr.ctx, Args: []*Term{args[0]}}
		st.event(ev)
		if e.OnEvent != nil && e.quiet == 0 {
			e.OnEvent(st, ev)
		}
		e.applyKill(st, &kill{kind: "objs", id: site, objs: map[*Term]bool{root(args[0]): true}})
		return ts.mk("tuple", "", nil)
	case "close":
		ev := &Event{Kind: "closechan", Instr: in, Ctx: fr.ctx, Args: []*Term{args[0]}}
		st.event(ev)
		if e.OnEvent != nil && e.quiet == 0 {
			e.OnEvent(st, ev)
		}
		return ts.mk("tuple", "", nil)
	case "min", "max":
		return ts.mk(b.Name(), "", typ, args...)
	case "ssa:wrapnilchk":
		return args[0]
	case "recover":
		x := ts.mk("recover", site, typ)
		x.site = in
		return x
	case "print", "println":
		return ts.mk("tuple", "", nil)
	}
	x := ts.mk("builtin:"+b.Name(), site, typ, args...)
	x.site = in
	return x
}

var purePkgs = map[string]bool{
	"strconv": true, "strings": true, "unicode": true, "unicode/utf8": true, "path": true, "path/filepath": true, "math": true,
	"math/bits": true, "net/url": true, "html": true, "encoding/hex": true, "encoding/base64": true, "cmp": true,
	"github.com/effective-security/x/values": true,
}

// pure functions outside purePkgs, and exceptions within (false)
var pureFuncs = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Errorf": true,
	"bytes.Equal": true, "bytes.HasPrefix": true, "bytes.HasSuffix": true, "bytes.Contains": true, "bytes.TrimSpace": true, "bytes.Trim": true,
	"time.Parse": true, "time.Unix": true, "time.UnixMilli": true, "time.Date": true, "time.ParseDuration": true,
	"reflect.TypeOf":    true,
	"os.Getenv":         false,
	"strings.NewReader": false, "strings.NewReplacer": false,
	"errors.As": false,
	"github.com/effective-security/x/configloader.ResolveValue": false,
	"reflect.(Type).Name": true, "reflect.(Type).String": true,
	"path/filepath.Walk": false, "path/filepath.WalkDir": false, "path/filepath.Glob": false, "path/filepath.Abs": false, "path/filepath.EvalSymlinks": false,
}

var pureTypes = map[string]bool{
	"time.(Time)": true, "time.(Duration)": true, "time.(Month)": true,
	"net/url.(URL)": true, "net/url.(Userinfo)": true,
}

// isPureExternal: the result depends on the arguments only and nothing is changed.
func isPureExternal(name string) bool {
	if v, ok := pureFuncs[name]; ok {
		return v
	}
	if i := strings.Index(name, ".("); i >= 0 {
		j := strings.Index(name, ").")
		if j > 0 {
			return pureTypes[name[:j+1]]
		}
		return false
	}
	i := strings.LastIndexByte(name, '.')
	if i < 0 {
		return false
	}
	return purePkgs[name[:i]]
}

var errPkgs = []string{"github.com/cockroachdb/errors.", "github.com/pkg/errors.", "errors.", "golang.org/x/xerrors."}

func errFunc(name string) string {
	for _, p := range errPkgs {
		if strings.HasPrefix(name, p) && !strings.Contains(name[len(p):], "(") {
			return name[len(p):]
		}
	}
	return ""
}

// constructors that always return an object
var neverNil = map[string]bool{
	"time.NewTicker": true, "time.NewTimer": true, "github.com/lib/pq.NewListener": true, "github.com/lib/pq.NewDialListener": true,
	"database/sql.OpenDB": true, "context.Background": true, "context.TODO": true,
}

var noReturn = map[string]bool{
	"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "runtime.Goexit": true,
}

// builtinModel models well-known functions.
func (e *Engine) builtinModel(st *State, c *Call) *Outcome {
	ts := e.ts
	one := func(t *Term) *Outcome { return &Outcome{States: []*State{st}, Results: []*Term{t}} }
	switch f := errFunc(c.Name); f {
	case "Wrap", "Wrapf", "WithMessage", "WithMessagef", "WithStack", "WithDetail", "WithDetailf", "WithHint", "WithHintf", "WithSecondaryError", "WithStackDepth", "Mark", "Handled":
		if len(c.Args) > 0 {
			if n, k := e.nilness(st, c.Args[0]); k && n {
				return one(ts.nilTerm())
			}
			var extra []*Term
			for _, a := range c.Args[1:] {
				extra = append(extra, e.snapshot(st, a))
			}
			return one(ts.mk("wrap", f, errorType, append([]*Term{c.Args[0]}, extra...)...))
		}
	case "Errorf", "New", "Newf", "AssertionFailedf", "Unimplementedf":
		var as []*Term
		for _, a := range c.Args {
			as = append(as, e.snapshot(st, a))
		}
		t := ts.mk("newerr", c.Site, errorType, as...)
		t.site = c.Instr
		return one(t)
	case "Is":
		if len(c.Args) == 2 {
			return one(ts.mk("errorsIs", "", types.Typ[types.Bool], c.Args...))
		}
	case "As":
		if len(c.Args) == 2 {
			t := ts.mk("errorsAs", c.Site, types.Typ[types.Bool], c.Args...)
			t.site = c.Instr
			e.escape(st, c.Args[1])
			e.applyKill(st, &kill{kind: "objs", id: c.Site, objs: e.reach(st, c.Args[1:])})
			return one(t)
		}
	case "Cause", "Unwrap", "UnwrapOnce", "UnwrapAll":
		if len(c.Args) == 1 {
			return one(ts.mk("unwrap", f, errorType, c.Args[0]))
		}
	}
	if c.Name == "fmt.Errorf" {
		var as []*Term
		for _, a := range c.Args {
			as = append(as, e.snapshot(st, a))
		}
		t := ts.mk("newerr", c.Site, errorType, as...)
		t.site = c.Instr
		return one(t)
	}
	if c.Name == "database/sql.(Rows).Err" && len(c.Args) == 1 {
		// the error of the iteration does not change until the rows are used again
		t := e.load(st, ts.mk("field", "#err", types.NewPointer(errorType), c.Args[0]), errorType)
		ev := &Event{Kind: "call", Instr: c.Instr, Ctx: c.Ctx, Callee: c.Name, Fn: c.Fn, Args: c.Args, Vals: c.Args, Result: t, Defer: c.Defer}
		st.event(ev)
		if e.OnEvent != nil && e.quiet == 0 {
			e.OnEvent(st, ev)
		}
		return one(t)
	}
	if strings.HasPrefix(c.Name, "database/sql.(Null") && len(c.Args) > 0 {
		if o := e.sqlNull(st, c); o != nil {
			return o
		}
	}
	switch c.Name {
	case "github.com/effective-security/x/values.Select":
		if len(c.Args) == 3 {
			o := &Outcome{}
			for i, s := range []*State{st.clone(), st} {
				if e.assume(s, c.Args[0], i == 0) {
					o.States = append(o.States, s)
					o.Results = append(o.Results, c.Args[1+i])
				}
			}
			return o
		}
	case "github.com/effective-security/x/values.NumbersCoalesce", "github.com/effective-security/x/values.StringsCoalesce":
		if len(c.Args) == 1 {
			if l := e.snapshot(st, c.Args[0]); l.op == "slicelit" {
				o := &Outcome{}
				typ := c.Common.Signature().Results().At(0).Type()
				zero := ts.intTerm(0)
				if isString(typ) {
					zero = ts.strTerm("")
				}
				for _, a := range l.args {
					z := e.eqTerm(a, zero, typ)
					s := st.clone()
					if e.assume(s, z, false) {
						o.States = append(o.States, s)
						o.Results = append(o.Results, a)
					}
					if !e.assume(st, z, true) {
						return o
					}
				}
				o.States = append(o.States, st)
				o.Results = append(o.Results, zero)
				return o
			}
		}
	}
	if strings.HasSuffix(c.Name, "bytebufferpool.(ByteBuffer).Len") || strings.HasSuffix(c.Name, "bytebufferpool.(ByteBuffer).String") {
		if pt := ptrElem(c.Args[0]); pt != nil {
			if s, ok := pt.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == "B" {
						b := e.load(st, e.fieldAddr(c.Args[0], pt, i), s.Field(i).Type())
						if strings.HasSuffix(c.Name, "Len") {
							return one(e.lenOf(b))
						}
						return one(ts.mk("str", e.epochOfContent(st, b), types.Typ[types.String], b))
					}
				}
			}
		}
	}
	switch c.Name {
	case "sync.(Mutex).Lock", "sync.(Mutex).Unlock", "sync.(RWMutex).Lock", "sync.(RWMutex).Unlock", "sync.(RWMutex).RLock", "sync.(RWMutex).RUnlock":
		// contracts are sequential: taking or releasing a lock does not change the values of this goroutine's view
		res := ts.mk("tuple", "", nil)
		ev := &Event{Kind: "call", Instr: c.Instr, Ctx: c.Ctx, Callee: c.Name, Fn: c.Fn, Args: c.Args, Vals: c.Args, Result: res, Defer: c.Defer}
		st.event(ev)
		if e.OnEvent != nil && e.quiet == 0 {
			e.OnEvent(st, ev)
		}
		return &Outcome{States: []*State{st}, Results: nil}
	}
	if i := strings.LastIndexByte(c.Name, '.'); i >= 0 && strings.Contains(c.Name, "/xlog.(") && (c.Name[i+1:] == "Panic" || c.Name[i+1:] == "Panicf") {
		return &Outcome{Panics: []*State{st}}
	}
	if noReturn[c.Name] || strings.HasSuffix(c.Name, "/xlog.(KeyValueLogger).Fatal") {
		return &Outcome{}
	}
	switch c.Name {
	case "sync/atomic.StoreUint64", "sync/atomic.StoreInt64", "sync/atomic.StoreUint32", "sync/atomic.StoreInt32",
		"sync/atomic.LoadUint64", "sync/atomic.LoadInt64", "sync/atomic.LoadUint32", "sync/atomic.LoadInt32":
		pt := ptrElem(c.Args[0])
		if pt == nil {
			return nil
		}
		ev := &Event{Kind: "call", Instr: c.Instr, Ctx: c.Ctx, Callee: c.Name, Fn: c.Fn, Args: c.Args, Vals: c.Args, Defer: c.Defer}
		if strings.Contains(c.Name, "Load") {
			ev.Result = e.load(st, c.Args[0], pt)
		}
		st.event(ev)
		if e.OnEvent != nil && e.quiet == 0 {
			e.OnEvent(st, ev)
		}
		if ev.Result != nil {
			return one(ev.Result)
		}
		e.store(st, c.Args[0], c.Args[1], pt, c.Site)
		return &Outcome{States: []*State{st}, Results: []*Term{e.ts.mk("tuple", "", nil)}}
	case "sync/atomic.(Bool).Load", "sync/atomic.(Value).Load", "sync/atomic.(Int32).Load", "sync/atomic.(Uint64).Load", "sync/atomic.(Int64).Load", "sync/atomic.(Pointer).Load":
		return nil
	}
	if c.Fn == nil && !c.Common.IsInvoke() {
		return nil
	}
	if isPureExternal(c.Name) && !e.Impure[c.Name] {
		var as []*Term
		for _, a := range c.Args {
			as = append(as, e.snapshot(st, a))
		}
		return one(e.pureCall(c.Name, c.Common.Signature(), as))
	}
	return nil
}

// pureCall is the congruent result of a pure function.
func (e *Engine) pureCall(name string, sig *types.Signature, args []*Term) *Term {
	ts := e.ts
	if r := e.foldPure(name, args); r != nil {
		return r
	}
	n := sig.Results().Len()
	if n == 1 {
		return ts.mk("pure", name, sig.Results().At(0).Type(), args...)
	}
	base := ts.mk("pure", name, sig.Results(), args...)
	var rs []*Term
	for i := 0; i < n; i++ {
		rs = append(rs, ts.mk("extract", fmt.Sprint(i), sig.Results().At(i).Type(), base))
	}
	return ts.mk("tuple", "", sig.Results(), rs...)
}

func (e *Engine) foldPure(name string, args []*Term) *Term {
	ts := e.ts
	str := func(i int) (string, bool) {
		if i >= len(args) {
			return "", false
		}
		return args[i].constStr()
	}
	switch name {
	case "strings.ToUpper":
		if s, ok := str(0); ok {
			return ts.strTerm(strings.ToUpper(s))
		}
	case "strings.ToLower":
		if s, ok := str(0); ok {
			return ts.strTerm(strings.ToLower(s))
		}
	case "strings.TrimSpace":
		if s, ok := str(0); ok {
			return ts.strTerm(strings.TrimSpace(s))
		}
	case "strings.Join":
		if sep, ok := str(1); ok && len(args) == 2 && args[0].op == "slicelit" {
			r := ts.strTerm("")
			for i, a := range args[0].args {
				if i > 0 {
					r = ts.concat(r, ts.strTerm(sep))
				}
				r = ts.concat(r, a)
			}
			return r
		}
	case "fmt.Sprintf":
		if f, ok := str(0); ok && len(args) == 2 {
			return e.sprintf(f, args[1])
		}
	}
	return nil
}

// sprintf is the text of a format with texts only; nil for others.
func (e *Engine) sprintf(f string, list *Term) *Term {
	if list.op != "slicelit" {
		return nil
	}
	r := e.ts.strTerm("")
	k := 0
	for f != "" {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			r = e.ts.concat(r, e.ts.strTerm(f))
			break
		}
		if i+1 >= len(f) {
			return nil
		}
		r = e.ts.concat(r, e.ts.strTerm(f[:i]))
		switch f[i+1] {
		case '%':
			r = e.ts.concat(r, e.ts.strTerm("%"))
		case 's', 'v':
			if k >= len(list.args) {
				return nil
			}
			a := list.args[k]
			k++
			if a.op != "iface" || a.T == nil || types.Unalias(a.T) != types.Typ[types.String] {
				return nil
			}
			r = e.ts.concat(r, a.args[0])
		default:
			return nil
		}
		f = f[i+2:]
	}
	if k != len(list.args) {
		return nil
	}
	return r
}

// sqlNull models Scan and Value of sql.NullString, NullTime and the like.
func (e *Engine) sqlNull(st *State, c *Call) *Outcome {
	ts := e.ts
	recv := c.Args[0]
	switch {
	case strings.HasSuffix(c.Name, ").Scan") && len(c.Args) == 2:
		pt := ptrElem(recv)
		if pt == nil {
			return nil
		}
		s, ok := pt.Underlying().(*types.Struct)
		if !ok || s.NumFields() != 2 {
			return nil
		}
		set := func(s2 *State, v *Term, valid bool) {
			e.store(s2, e.fieldAddr(recv, pt, 0), v, s.Field(0).Type(), c.Site)
			e.store(s2, e.fieldAddr(recv, pt, 1), ts.boolTerm(valid), types.Typ[types.Bool], c.Site)
		}
		x := c.Args[1]
		if n, k := e.nilness(st, x); k && n {
			set(st, e.zero(s.Field(0).Type()), false)
			return &Outcome{States: []*State{st}, Results: []*Term{ts.nilTerm()}}
		} else if !k {
			a, b := st.clone(), st
			o := &Outcome{}
			if e.assume(a, e.isNilTerm(x), true) {
				set(a, e.zero(s.Field(0).Type()), false)
				o.States = append(o.States, a)
				o.Results = append(o.Results, ts.nilTerm())
			}
			if e.assume(b, e.isNilTerm(x), false) {
				p := e.sqlNullScan(b, c, s, set)
				o.States = append(o.States, p.States...)
				o.Results = append(o.Results, p.Results...)
			}
			return o
		}
		return e.sqlNullScan(st, c, s, set)
	case strings.HasSuffix(c.Name, ").Value") && len(c.Args) == 1:
		pt := recv.typ
		if pt == nil {
			return nil
		}
		s, ok := pt.Underlying().(*types.Struct)
		if !ok || s.NumFields() != 2 {
			return nil
		}
		val, valid := e.fieldOf(recv, typeKey(pt)+"."+s.Field(0).Name(), s.Field(0).Type()), e.fieldOf(recv, typeKey(pt)+"."+s.Field(1).Name(), types.Typ[types.Bool])
		a, b := st.clone(), st
		o := &Outcome{}
		tuple := func(v *Term) *Term { return ts.mk("tuple", "", c.Common.Signature().Results(), v, ts.nilTerm()) }
		if e.assume(a, valid, false) {
			o.States = append(o.States, a)
			o.Results = append(o.Results, tuple(ts.nilTerm()))
		}
		if e.assume(b, valid, true) {
			o.States = append(o.States, b)
			o.Results = append(o.Results, tuple(ts.iface(s.Field(0).Type(), val)))
		}
		return o
	}
	return nil
}

// sqlNullScan: Scan of a value that is not nil makes it valid; a value of another type is converted or rejected.
func (e *Engine) sqlNullScan(st *State, c *Call, s *types.Struct, set func(*State, *Term, bool)) *Outcome {
	ts := e.ts
	x := c.Args[1]
	if x.op == "iface" && types.Identical(x.T, s.Field(0).Type()) {
		set(st, x.args[0], true)
		return &Outcome{States: []*State{st}, Results: []*Term{ts.nilTerm()}}
	}
	res := e.freshResult(st, c)
	st.event(&Event{Kind: "call", Instr: c.Instr, Ctx: c.Ctx, Callee: c.Name, Fn: c.Fn, Args: c.Args, Vals: c.Args, Result: res, Defer: c.Defer})
	v := ts.mk("scanned", c.Site, s.Field(0).Type(), x)
	set(st, v, true)
	return &Outcome{States: []*State{st}, Results: []*Term{res}}
}
