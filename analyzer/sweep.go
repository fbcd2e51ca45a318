package main

import (
	"fmt"
	"time"

	"kcheck/vg"
)

// sweep evaluates every function once and reports what the engine cannot model.
func sweep(r *Repo) {
	for _, fn := range r.Funcs {
		if fn.Synthetic != "" && fn.Name() != "init" || fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
			continue
		}
		func() {
			t0 := time.Now()
			defer func() {
				if x := recover(); x != nil {
					fmt.Println("PANIC", fn, x)
				}
			}()
			s := r.Eval(fn, nil)
			d := time.Since(t0)
			if d > 300*time.Millisecond || len(s.E.Problems) > 0 {
				fmt.Println(fn, d, s.E.Problems, len(s.Events))
			}
			_ = vg.True
		}()
	}
}
