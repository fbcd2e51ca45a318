package main

import (
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"

	"kcheck/vg"
)

func init() {
	register("dot", "C21", "what Dot writes equals its specification: drawn nodes, abutting edges with their costs, escaped labels, and exactly the back-pointer chain from EOS highlighted", ruleDot)
}

func isNamed(f *ssa.Function, names ...string) bool {
	for _, n := range names {
		if f.String() == n {
			return true
		}
	}
	return false
}

func ruleDot(c *Ctx) {
	la := c.lattice()
	fn := c.fn(latPkg + ".Lattice.Dot")
	s := c.Eval(fn, func(f *ssa.Function) bool { return f != fn && exported(f) && IsRepo(f) })
	p, w := s.Params[0], s.Params[1]
	ld := func(i int) *vg.Term { return la.load(s.E, vg.BaseMem(), p, i) }
	list, out := ld(la.list), ld(la.out)
	ready := vg.And(vg.LT(vg.Int(0), vg.Len(list)), vg.LT(vg.Int(0), vg.Len(out)))
	empty := vg.And(vg.EQ(vg.Len(list), vg.Int(0)), vg.EQ(vg.Len(out), vg.Int(0)))

	for _, ev := range s.Events {
		if ev.Kind == vg.EvStore && vg.Class(ev.Addr) != "" {
			c.Ob(!oldStore(ev.Addr), ev.Pos, "writing the graph changes no node and no list (stores to %s)", ts(ev.Addr))
		}
		c.Ob(ev.Kind != vg.EvPanic, ev.Pos, "writing the graph does not panic")
	}
	c.Ob(vg.Implies(ready, s.Cond), fn.Pos(), "writing the graph returns")

	nodeT := la.nodePtr
	onPath := c.R.Func("zz_kspec.OnPath")
	pure := func(f *ssa.Function) bool { return f == onPath || f.Pkg == onPath.Pkg && f.Name() == "DotEsc" }
	want := c.cmdSpec(pure, "DotGraph", nil, list, out, ld(la.dic), ld(la.udic))
	esc := c.escaper()
	for _, x := range []struct {
		cond *vg.Term
		what string
	}{{ready, "the graph of an analysed lattice is the specified one"}, {empty, "the graph of an empty lattice is the empty graph"}} {
		t := c.stdText(s, nil, x.cond, func(d *vg.Term) bool { return d == w })
		if t == nil {
			return
		}
		t = c.pathSets(la, s, t, list, ready, func(k *vg.Term) *vg.Term { return vg.BoolOf(want.E.PureCall(onPath, k)) })
		t = dotNorm(vg.Tidy(esc(t), x.cond))
		u := dotNorm(vg.Tidy(esc(c.specText(want)), x.cond))
		c.sameText(s, t, u, x.cond, x.what)
	}
	_ = nodeT
}

// oldStore: a store to memory that existed before the call.
func oldStore(a *vg.Term) bool {
	r := vg.Root(a)
	for r.Op == vg.OpLd || r.Op == vg.OpSeqLoop {
		if r.Op == vg.OpLd {
			return true
		}
		r = vg.Root(r.Args[0])
	}
	return r.Op == vg.OpParam || r.Op == vg.OpGlobal
}

// pathSets replaces membership in a set filled by walking the back pointers
// from EOS by being on the best path.
func (c *Ctx) pathSets(la *lat, s *vg.Summary, t, list, ready *vg.Term, onPath func(*vg.Term) *vg.Term) *vg.Term {
	type use struct{ m, ver string }
	sets := map[*vg.Term]map[string]bool{}
	atoms := map[*vg.Term]*vg.Term{}
	vg.Any(t, func(x *vg.Term) bool {
		if x.Op == vg.OpMapHas || x.Op == vg.OpMapGet && types.Identical(x.Typ, types.Typ[types.Bool]) {
			m := x.Args[0]
			if m.Op == vg.OpLd || m.Op == vg.OpFieldAddr {
				return false
			}
			if sets[m] == nil {
				sets[m] = map[string]bool{}
			}
			sets[m][x.S] = true
			atoms[x] = m
		}
		return false
	})
	good := map[*vg.Term]bool{}
	for m, vers := range sets {
		var ups []*vg.Event
		for _, ev := range s.Events {
			if ev.Kind == vg.EvMap && ev.Args[0] == m {
				ups = append(ups, ev)
			}
		}
		if !c.Ob(len(ups) == 1 && len(ups[0].Loops) == 1 && len(ups[0].Args) == 3, s.Fn.Pos(), "the set of highlighted nodes is filled at one place in one loop (found %d)", len(ups)) {
			continue
		}
		up := ups[0]
		l := up.Loops[0]
		walk := false
		for _, mu := range l.Mus() {
			v := mu.Value()
			if v != up.Args[1] || mu.Next == nil {
				continue
			}
			first := la.slotElem(s, list, vg.Add(vg.Len(list), vg.Int(-1)), vg.Int(0))
			walk = vg.SameUnder(vg.And(ready, l.EntryCond), mu.Init, first) &&
				vg.SameUnder(l.ContCond, mu.Next, s.E.Load(vg.BaseMem(), vg.FAddr(v, la.nt, la.prev), la.nodePtr)) &&
				len(l.Exits) == 1 && vg.Equiv(l.Exits[0].Cond, vg.EQ(v, vg.Nil)) &&
				vg.Implies(ready, l.EntryCond) &&
				vg.Implies(vg.And(vg.And(ready, l.EntryCond), vg.NonNil(v)), up.Cond) &&
				(up.Val == vg.True || up.Val != vg.False && !types.Identical(up.Val.Typ, types.Typ[types.Bool]))
		}
		if !c.Ob(walk, up.Pos, "the highlighted nodes are those on the back-pointer chain from EOS, all of them (adds %s when %s)", ts(up.Args[1]), ts(up.Cond)) {
			continue
		}
		one := ""
		for v := range vers {
			one = v
		}
		good[m] = c.Ob(len(vers) == 1 && strings.HasSuffix(one, "$") && strings.TrimSuffix(one, "$") == l.Key, up.Pos, "the highlighted nodes are collected before the first is used (%s, %s)", one, l.Key)
	}
	sub := map[*vg.Term]*vg.Term{}
	for x, m := range atoms {
		if good[m] {
			p := onPath(x.Args[1])
			sub[vg.BoolOf(x)] = p
			sub[x] = p
		}
	}
	return vg.Subst(t, sub)
}

// slotElem is node j that ends at position i.
func (l *lat) slotElem(s *vg.Summary, list, i, j *vg.Term) *vg.Term {
	sl := s.E.Load(vg.BaseMem(), vg.ElemAddr(list, i, l.slotT), l.slotT)
	return s.E.Load(vg.BaseMem(), vg.ElemAddr(sl, j, l.nodePtr), l.nodePtr)
}

// escaper returns the normalisation of escaped texts: replacers of the DOT
// specials, however they are applied, become one operation.
func (c *Ctx) escaper() func(*vg.Term) *vg.Term {
	init := c.R.SSA[latPkg].Func("init")
	e := vg.NewEval(c.R.Prog, IsRepo, func(*ssa.Function) bool { return false })
	sm := e.RunAfter(init, c.R.Func("zz_kspec.DotEsc"))
	repl := map[*vg.Term]bool{}
	isPairs := func(a *vg.Term) bool {
		if a.Op != vg.OpSeqLit || len(a.Args)%2 != 0 {
			return false
		}
		m := map[string]string{}
		for i := 0; i < len(a.Args); i += 2 {
			if !a.Args[i].IsStr() || !a.Args[i+1].IsStr() {
				return false
			}
			m[a.Args[i].Str()] = a.Args[i+1].Str()
		}
		return len(m) == 2 && m[`\`] == `\\` && m[`"`] == `\"`
	}
	for _, ev := range sm.Events {
		_ = ev
	}
	isRepl := func(t *vg.Term) bool {
		if r, ok := repl[t]; ok {
			return r
		}
		r := false
		v := t
		if t.Op == vg.OpLd && t.Args[0].Op == vg.OpGlobal {
			g := c.global(t.Args[0].S)
			if g == nil || c.storedOutsideInit(g) {
				return false
			}
			v = e.Load(sm.Mem, t.Args[0], t.Typ)
		}
		if (v.Op == vg.OpApp || v.Op == vg.OpRes) && len(v.Args) == 1 && v.S == "strings.NewReplacer" {
			r = isPairs(v.Args[0])
		}
		for _, ev := range sm.Events {
			if ev.Kind == vg.EvCall && ev.Callee == "strings.NewReplacer" && ev.Res == v {
				r = isPairs(ev.Args[0])
			}
		}
		repl[t] = r
		return r
	}
	str := types.Typ[types.String]
	mk := func(x *vg.Term) *vg.Term {
		if x.IsStr() {
			return vg.Str(strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(x.Str()))
		}
		return vg.Pure("dotesc", str, x)
	}
	return func(t *vg.Term) *vg.Term {
		sub := map[*vg.Term]*vg.Term{}
		vg.Any(t, func(x *vg.Term) bool {
			if x.Op != vg.OpApp {
				return false
			}
			switch {
			case x.S == "(*strings.Replacer).Replace" && isRepl(x.Args[0]):
				sub[x] = mk(x.Args[1])
			case strings.HasSuffix(x.S, "zz_kspec.DotEsc"):
				sub[x] = mk(x.Args[0])
			case x.S == "strings.ReplaceAll" && x.Args[1].IsStr() && x.Args[1].Str() == `"` && x.Args[2].IsStr() && x.Args[2].Str() == `\"`:
				y := x.Args[0]
				if y.Op == vg.OpApp && y.S == "strings.ReplaceAll" && y.Args[1].IsStr() && y.Args[1].Str() == `\` && y.Args[2].IsStr() && y.Args[2].Str() == `\\` {
					sub[x] = mk(y.Args[0])
				}
			}
			return false
		})
		return vg.CanonText(vg.Subst(t, sub))
	}
}

// global finds a package-level variable by its full name.
func (c *Ctx) global(name string) *ssa.Global {
	for _, p := range c.R.Prog.AllPackages() {
		if strings.HasPrefix(name, p.Pkg.Path()+".") {
			if g := p.Var(name[len(p.Pkg.Path())+1:]); g != nil {
				return g
			}
		}
	}
	return nil
}

// storedOutsideInit reports whether anything but the initialiser may write g.
func (c *Ctx) storedOutsideInit(g *ssa.Global) bool {
	for _, fn := range c.R.Funcs {
		if fn.Synthetic != "" && fn.Name() == "init" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == g {
						if u, ok := in.(*ssa.UnOp); !ok || u.X != g {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

var dotPreamble = regexp.MustCompile(`^(?:strict )?graph \w+ \{\n(?:(?:\w+=[\w.]+;?|(?:graph|node|edge) \[(?:\w+=(?:\w+|"[^"\n]*")(?:, ?)?)*\];?)\n)*`)
var dotAttrs = regexp.MustCompile(`"(?:, ?\w+=(?:\w+|"[^"]*"))+\];?\n`)
var dotEnd = regexp.MustCompile(`\];?\n`)

// dotNorm forgets the defaults of the preamble and which attributes highlight.
func dotNorm(t *vg.Term) *vg.Term {
	sub := map[*vg.Term]*vg.Term{}
	vg.Any(t, func(x *vg.Term) bool {
		if x.IsStr() {
			v := dotPreamble.ReplaceAllString(x.Str(), "graph {\n")
			v = dotAttrs.ReplaceAllString(v, "\" *];\n")
			v = dotEnd.ReplaceAllString(v, "];\n")
			if v != x.Str() {
				sub[x] = vg.Str(v)
			}
		}
		return false
	})
	return vg.Subst(t, sub)
}
