package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// check decides one property and writes its evidence. Exit status: 0 holds,
// 1 violated, 2 could not be decided because /repo does not load.
func check(args []string) int {
	if len(args) < 1 {
		fmt.Println("usage: kcheck check PROPERTY [OUTDIR]")
		return 2
	}
	out := "evidence"
	if len(args) > 1 {
		out = args[1]
	}
	t0 := time.Now()
	r, err := LoadRepo(repoDir())
	if err != nil {
		fmt.Println("cannot load the repository:", err)
		return 2
	}
	return decide(r, map[*Rule]*Ctx{}, args[0], out, t0)
}

// checkAll decides every property (development aid).
func checkAll(args []string) int {
	out := "evidence"
	if len(args) > 0 {
		out = args[0]
	}
	t0 := time.Now()
	r, err := LoadRepo(repoDir())
	if err != nil {
		fmt.Println("cannot load the repository:", err)
		return 2
	}
	props := map[string]bool{}
	for _, ru := range rules {
		for _, p := range ru.Props {
			props[p] = true
		}
	}
	rc := 0
	done := map[*Rule]*Ctx{}
	for _, p := range sortedKeys(props) {
		if x := decide(r, done, p, out, t0); x > rc {
			rc = x
		}
	}
	return rc
}

func decide(r *Repo, done map[*Rule]*Ctx, prop, out string, t0 time.Time) int {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	known := loadKnown(filepath.Join(verifDir(), "known-findings.txt"))
	var finds []Finding
	obl := 0
	sites, funcs := map[string]bool{}, map[string]bool{}
	var samples, ruleDocs []string
	perRule := map[string]int{}
	for _, ru := range rules {
		if !contains(ru.Props, prop) {
			continue
		}
		c := done[ru]
		if c == nil {
			c = runRule(r, ru)
			done[ru] = c
			for p := range c.Obl {
				if !contains(ru.Props, p) {
					fmt.Println("internal: rule", ru.Name, "states obligations of undeclared", p)
				}
			}
		}
		for _, f := range c.Findings {
			if contains(f.Props, prop) {
				finds = append(finds, f)
			}
		}
		if c.Obl[prop] > 0 {
			obl += c.Obl[prop]
			perRule[ru.Name] = c.Obl[prop]
			ruleDocs = append(ruleDocs, ru.Name+": "+ru.Doc)
			for s := range c.Sites[prop] {
				sites[s] = true
			}
			for f := range c.Funcs[prop] {
				funcs[f] = true
			}
			samples = append(samples, c.Samples[prop]...)
		}
	}
	finds = dedup(finds)
	var viol []Finding
	used := map[string]bool{}
	for _, f := range finds {
		k := ""
		for _, kf := range known {
			if kf.prop == prop && kf.rule == f.Rule && strings.ReplaceAll(kf.fn, "*", "") == strings.ReplaceAll(f.Fn, "*", "") && strings.HasPrefix(f.Msg, kf.msg) {
				k = kf.text
			}
		}
		if k != "" {
			if !used[k] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
				used[k] = true
			}
			continue
		}
		viol = append(viol, f)
	}
	if obl == 0 {
		fmt.Println("no obligation was generated for", prop)
		return 2
	}
	os.MkdirAll(out, 0o755)
	if len(samples) > 14 {
		samples = samples[:14]
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":          "static value-graph analysis of the type-checked SSA of /repo: every listed function (callees inlined) was turned into guarded closed-form terms, loops included, without running it; each obligation compares such terms or path conditions with what the property demands, for all inputs",
			"obligations":          obl,
			"discharged":           obl - len(finds),
			"obligations_by_rule":  perRule,
			"functions_analysed":   len(funcs),
			"functions":            sortedKeys(funcs),
			"constructs_inspected": len(sites),
			"rules":                ruleDocs,
			"samples":              samples,
			"checker_cmd":          "bin/kcheck check " + prop,
		},
		"assumptions": []string{"the Go type checker and SSA builder (golang.org/x/tools) represent the source faithfully", "dictionaries are internally consistent (indices inside their tables)", "external packages behave as documented"},
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(out, prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d functions, %d constructs, %d findings (%d known)\n", prop, obl, len(funcs), len(sites), len(finds), len(finds)-len(viol))
	rp := filepath.Join(out, prop+".violations.txt")
	os.Remove(rp)
	if len(viol) == 0 {
		return 0
	}
	var sb strings.Builder
	for _, f := range viol {
		fmt.Fprintf(&sb, "%s: in %s: [%s] %s\n", f.Pos, f.Fn, f.Rule, f.Msg)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, f := range viol {
		if i == 10 {
			fmt.Printf("... %d more in %s\n", len(viol)-10, rp)
			break
		}
		fmt.Printf("%s: in %s: [%s] %s\n", f.Pos, f.Fn, f.Rule, trim(f.Msg, 600))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	return 1
}

func dedup(fs []Finding) []Finding {
	seen := map[string]bool{}
	var out []Finding
	for _, f := range fs {
		k := f.Pos + f.Fn + f.Rule + f.Msg
		if !seen[k] {
			seen[k] = true
			out = append(out, f)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Pos < out[j].Pos })
	return out
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

type knownFinding struct{ prop, rule, fn, msg, text string }

// loadKnown reads lines "known: property=<id> rule=<rule> func=<func> msg=<prefix> | <text>".
func loadKnown(path string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, ln := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(ln, "known: ")
		if !ok {
			continue
		}
		head, text, _ := strings.Cut(rest, " | ")
		kf := knownFinding{text: text}
		for _, f := range strings.SplitN(head, " ", 4) {
			k, v, _ := strings.Cut(f, "=")
			switch k {
			case "property":
				kf.prop = v
			case "rule":
				kf.rule = v
			case "func":
				kf.fn = v
			case "msg":
				kf.msg = v
			}
		}
		out = append(out, kf)
	}
	return out
}

func verifDir() string {
	if d := os.Getenv("KVERIF"); d != "" {
		return d
	}
	return "/verif"
}
