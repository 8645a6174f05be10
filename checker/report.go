package main

import (
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obligation is one instance of a rule at a construct.
type Obligation struct {
	Key    string   `json:"key"`
	Pos    string   `json:"pos,omitempty"`
	Checks int      `json:"paths"`
	Fails  []string `json:"fails,omitempty"`
	Known  string   `json:"known,omitempty"`
}

// Report collects the obligations of one property.
type Report struct {
	p        *Program
	prop     string
	obs      map[string]*Obligation
	order    []string
	funcs    map[string]bool
	paths    int
	steps    int
	calls    int
	problems []string
	rules    []string
}

func newReport(p *Program, prop string) *Report {
	return &Report{p: p, prop: prop, obs: map[string]*Obligation{}, funcs: map[string]bool{}}
}

func (r *Report) rule(f string, a ...any) { r.rules = append(r.rules, fmt.Sprintf(f, a...)) }

func (r *Report) ob(key string) *Obligation {
	o := r.obs[key]
	if o == nil {
		o = &Obligation{Key: key}
		r.obs[key] = o
		r.order = append(r.order, key)
	}
	return o
}

// check records one decision for the obligation; it returns ok.
func (r *Report) check(ok bool, key string, pos token.Pos, f string, a ...any) bool {
	o := r.ob(key)
	o.Checks++
	if o.Pos == "" && pos.IsValid() {
		o.Pos = r.p.pos(pos)
	}
	if !ok {
		msg := fmt.Sprintf(f, a...)
		if pos.IsValid() {
			msg = r.p.pos(pos) + ": " + msg
		}
		for _, m := range o.Fails {
			if m == msg {
				return false
			}
		}
		if len(o.Fails) < 12 {
			o.Fails = append(o.Fails, msg)
		}
	}
	return ok
}

// missing reports an anchor that is not found.
func (r *Report) missing(what string) {
	r.check(false, "anchor:"+what, token.NoPos, "%s is not found in the source", what)
}

// atLeast guards against a vacuous rule.
func (r *Report) atLeast(n, want int, what string) {
	r.check(n >= want, "instances:"+what, token.NoPos, "only %d instances of %s are found, at least %d are expected", n, what, want)
}

// done collects statistics of an engine.
func (r *Report) done(e *Engine, exits []*Exit) {
	for f := range e.fnsSeen {
		r.funcs[f.String()] = true
	}
	r.paths += len(exits)
	r.steps += e.Steps
	r.calls += e.calls
	for _, p := range e.problems {
		r.problems = append(r.problems, p)
	}
}

// ---- known findings

type knownFinding struct{ prop, key, desc string }

func loadKnown(file string) []knownFinding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var r []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "KNOWN ") {
			continue
		}
		var k knownFinding
		rest := strings.TrimPrefix(l, "KNOWN ")
		if !strings.HasPrefix(rest, "property=") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(rest, "property="), " ", 2)
		k.prop = f[0]
		if len(f) < 2 || !strings.HasPrefix(f[1], "key=[") {
			continue
		}
		i := strings.Index(f[1], "] ")
		if i < 0 {
			continue
		}
		k.key = f[1][len("key=["):i]
		k.desc = f[1][i+2:]
		r = append(r, k)
	}
	return r
}

func (r *Report) finish(known []knownFinding) (violations []string, findings []string) {
	for _, p := range r.problems {
		r.check(false, "analysis", token.NoPos, "not decided: %s", p)
	}
	for _, k := range r.order {
		o := r.obs[k]
		if len(o.Fails) == 0 {
			continue
		}
		for _, kf := range known {
			if kf.prop == r.prop && kf.key == o.Key {
				o.Known = kf.desc
			}
		}
		if o.Known != "" {
			findings = append(findings, o.Known)
			continue
		}
		for _, f := range o.Fails {
			violations = append(violations, fmt.Sprintf("[%s] %s", o.Key, f))
		}
	}
	return
}

func (r *Report) funcList() []string {
	var l []string
	for f := range r.funcs {
		l = append(l, strings.ReplaceAll(f, modPath, "xdb"))
	}
	sort.Strings(l)
	return l
}

// shortFn names a function independently of the module path.
func shortFn(f *ssa.Function) string {
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath, "xdb")
	return s
}

func relFile(p string) string { return filepath.ToSlash(p) }
