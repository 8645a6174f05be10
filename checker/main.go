package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type propRule struct {
	run   func(r *Report)
	title string
	assum []string
}

var rules = map[string]propRule{}

func main() {
	args := os.Args[1:]
	repo := os.Getenv("XDBCHECK_REPO")
	if repo == "" {
		repo = "/repo"
	}
	if len(args) > 0 && args[0] == "list" {
		var l []string
		for k := range rules {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, " "))
		return
	}
	start := time.Now()
	p, err := loadProgram(repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load", repo, err)
		os.Exit(2)
	}
	if len(args) == 4 && args[0] == "dump" {
		debugDump(p, args[1], args[2], args[3], os.Getenv("NOINLINE") == "")
		return
	}
	if len(args) < 2 || args[0] != "check" {
		fmt.Fprintln(os.Stderr, "usage: xdbcheck check PROPERTY... | dump PKG TYPE FUNC | list")
		os.Exit(2)
	}
	verif := os.Getenv("XDBCHECK_VERIF")
	if verif == "" {
		verif = "/verif"
	}
	known := loadKnown(filepath.Join(verif, "known-findings.txt"))
	ids := args[1:]
	if ids[0] == "all" {
		ids = nil
		for k := range rules {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	}
	code := 0
	for _, id := range ids {
		rl, ok := rules[id]
		if !ok {
			fmt.Fprintln(os.Stderr, "unknown property", id)
			os.Exit(2)
		}
		r := newReport(p, id)
		func() {
			defer func() {
				if x := recover(); x != nil {
					r.check(false, "analysis", token.NoPos, "not decided: the rule fails on this source: %v", x)
				}
			}()
			rl.run(r)
		}()
		viol, finds := r.finish(known)
		evid := filepath.Join(verif, "evidence", id+".json")
		writeEvidence(r, rl, evid, viol, finds, time.Since(start).Seconds())
		for _, f := range finds {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f)
		}
		fmt.Printf("%s: %d obligations, %d functions, %d paths, %d violations, %.1fs\n", id, len(r.obs), len(r.funcs), r.paths, len(viol), time.Since(start).Seconds())
		if len(viol) > 0 {
			code = 1
			for _, v := range viol {
				fmt.Println("  ", v)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, evid)
		}
		start = time.Now()
	}
	os.Exit(code)
}

func writeEvidence(r *Report, rl propRule, file string, viol, finds []string, wall float64) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	var obs []*Obligation
	discharged, decisions := 0, 0
	for _, k := range r.order {
		o := r.obs[k]
		obs = append(obs, o)
		decisions += o.Checks
		if len(o.Fails) == 0 {
			discharged++
		}
	}
	m := map[string]any{
		"property": r.prop, "tier": tier, "seed": seed, "level": "other", "wall_s": wall, "violations": len(viol),
		"assumptions": append([]string{
			"The analysis reads the type-checked SSA form of /repo's current non-test sources; calls into packages outside the repository are modelled by their documented contracts.",
			"Loops are widened to an inductive summary; recursion is opaque.",
		}, rl.assum...),
		"coverage": map[string]any{
			"explanation":          "Path-sensitive abstract interpretation (no execution, no solver): each rule below is decided as an obligation per construct, on every abstract path of the listed functions.",
			"rules":                r.rules,
			"obligations":          len(obs),
			"discharged":           discharged,
			"decisions":            decisions,
			"functions_analysed":   len(r.funcs),
			"abstract_paths":       r.paths,
			"call_sites_evaluated": r.calls,
			"ssa_steps":            r.steps,
			"functions":            r.funcList(),
			"obligation_list":      obs,
			"violations":           viol,
			"known_findings":       finds,
		},
	}
	b, _ := json.MarshalIndent(m, "", " ")
	_ = os.MkdirAll(filepath.Dir(file), 0o755)
	_ = os.WriteFile(file, b, 0o644)
}
