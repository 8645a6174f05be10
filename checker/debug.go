package main

import (
	"golang.org/x/tools/go/ssa"

	"fmt"
	"os"
)

func debugDump(p *Program, pkg, typ, name string, inline bool) {
	f := p.Func(pkg, name)
	if typ != "" {
		f = p.Method(pkg, typ, name)
	}
	if f == nil {
		fmt.Println("not found")
		os.Exit(1)
	}
	e := newEngine(p)
	if !inline {
		e.Inline = func(fn *ssa.Function, d int) bool { return fn.Parent() != nil }
	}
	exits := e.Run(f, nil, nil)
	for i, x := range exits {
		fmt.Printf("== exit %d %s panic=%v\n", i, p.pos(x.Pos), x.Panic)
		for _, r := range x.Results {
			fmt.Println("   result:", r)
		}
		for _, t := range sortedTerms(x.St.b) {
			fmt.Println("   fact:", t, x.St.b[t])
		}
		for _, t := range sortedTerms(x.St.iv) {
			iv := x.St.iv[t]
			fmt.Println("   range:", t, iv.lo, iv.hi)
		}
		for _, a := range sortedTerms(x.St.mem) {
			if isFresh(root(a)) {
				continue
			}
			if v := x.St.mem[a]; v.op == "ld" && v.args[0] == a {
				continue
			}
			fmt.Println("   mem:", a, "=", x.St.mem[a])
		}
		for _, ev := range x.St.events() {
			fmt.Println("   ev:", ev.Kind, ev.Callee, ev.Args, "->", ev.Result)
			if ev.Loop != nil {
				for k, s := range ev.Loop.Slots {
					fmt.Println("       slot", k, s.Addr, "sym", s.Sym, "entry", s.Entry, "backs", s.Backs)
				}
				for i, it := range ev.Loop.Iters {
					fmt.Println("       iter", i)
					for _, ev := range it {
						fmt.Println("          ", ev.Kind, ev.Callee, ev.Args, "->", ev.Result)
					}
				}
			}
		}
	}
	fmt.Println("exits", len(exits), "steps", e.Steps, "joined", e.Joined, "problems", e.problems)
}
