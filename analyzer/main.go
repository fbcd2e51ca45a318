package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"kcheck/vg"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(check(os.Args[2:]))
	}
	if len(os.Args) > 1 && os.Args[1] == "all" {
		os.Exit(checkAll(os.Args[2:]))
	}
	t0 := time.Now()
	r, err := LoadRepo(repoDir())
	if err != nil {
		panic(err)
	}
	fmt.Fprintln(os.Stderr, "load", time.Since(t0))
	if len(os.Args) == 2 && os.Args[1] == "sweep" {
		sweep(r)
		return
	}
	if len(os.Args) >= 2 && os.Args[1] == "rule" {
		for _, ru := range rules {
			if len(os.Args) > 2 && !strings.HasPrefix(ru.Name, os.Args[2]) {
				continue
			}
			t0 := time.Now()
			c := runRule(r, ru)
			fmt.Println("rule", ru.Name, time.Since(t0), c.Obl)
			for _, f := range c.Findings {
				fmt.Println("  FINDING", f.Props, f.Pos, f.Fn, f.Msg)
			}
		}
		return
	}
	for _, n := range os.Args[1:] {
		fn := r.Func(n)
		if fn == nil {
			fmt.Println("no function", n)
			continue
		}
		t0 := time.Now()
		opaque := func(f *ssa.Function) bool {
			o := os.Getenv("OPQ")
			for _, p := range strings.Split(o, ",") {
				if p != "" && strings.Contains(f.String(), p) {
					return true
				}
			}
			return false
		}
		var s *vg.Summary
		if os.Getenv("UNROLL") != "" {
			e := vg.NewEval(r.Prog, IsRepo, opaque)
			e.Unroll = 16
			s = e.RunAfter(fn.Pkg.Func("init"), fn)
		} else {
			s = r.Eval(fn, opaque)
		}
		fmt.Println("==", fn, time.Since(t0))
		for _, p := range s.E.Problems {
			fmt.Println("PROBLEM", p)
		}
		pr := func(t *vg.Term) string {
			x := t.String()
			x = strings.ReplaceAll(x, "github.com/ikawaha/kagome/v2/", "")
			if len(x) > 900 {
				x = x[:900] + "…"
			}
			return x
		}
		for _, ev := range s.Events {
			if ev.Kind == vg.EvInline && os.Getenv("INL") == "" {
				continue
			}
			if ev.Kind == vg.EvStore && (ev.Addr.Op == vg.OpAlloc || ev.Addr.Op == vg.OpIndexAddr && ev.Addr.Args[0].Op == vg.OpAlloc) && os.Getenv("INL") == "" {
				continue
			}
			ls := ""
			for _, l := range ev.Loops {
				ls += l.Short()
			}
			fmt.Printf("%s %s %s go%d %s\n   if %v\n", r.Pos(ev.Pos), ev.Kind, ls, ev.GoDepth, ev.Callee, pr(ev.Cond))
			if ev.Addr != nil {
				fmt.Println("   addr", pr(ev.Addr))
			}
			if ev.Val != nil {
				fmt.Println("   val ", pr(ev.Val))
			}
			for _, a := range ev.Args {
				fmt.Println("   arg ", pr(a))
			}
			if ev.Loop != nil {
				for _, m := range ev.Loop.Mus() {
					fmt.Println("   mu", m.Key, "init", m.Init, "next", m.Next, "closed", m.Closed)
				}
				for _, x := range ev.Loop.Exits {
					fmt.Println("   exit", x.Index, "cond", x.Cond, "E", x.E)
				}
			}
		}
		for i, v := range s.Ret {
			fmt.Println("RET", i, pr(v))
		}
	}
}

func repoDir() string {
	if d := os.Getenv("KREPO"); d != "" {
		return d
	}
	return "/repo"
}
