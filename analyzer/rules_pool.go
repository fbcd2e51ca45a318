package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"kcheck/vg"
)

func init() {
	register("pooling", "C06 C07", "what comes from a pool is overwritten or was emptied before it went back; lattice and nodes go back exactly once, last, and only in Free", rulePooling)
}

func poolCalls(s *vg.Summary, name string) []*vg.Event {
	var out []*vg.Event
	for _, ev := range s.Events {
		if ev.Kind == vg.EvCall && ev.Callee == "(*sync.Pool)."+name {
			out = append(out, ev)
		}
	}
	return out
}

// emptied reports whether v is a value without any content.
func emptied(v *vg.Term) bool {
	switch {
	case v == vg.Nil, v == vg.False, v == vg.True, v.Op == vg.OpConst, v.IsInt():
		return true
	case v.Op == vg.OpSlice:
		return v.Args[1] == v.Args[2]
	case v.Op == vg.OpMakeSlice:
		return v.Args[0].IsConst(0)
	case v.Op == vg.OpMakeMap:
		return true
	case v.Op == vg.OpITE:
		for _, l := range vg.Leaves(v, vg.True) {
			if !emptied(l.Val) {
				return false
			}
		}
		return true
	}
	return false
}

// observes reports whether t depends on the content of x, rather than on its
// capacity or the storage behind it.
func observes(t, x *vg.Term) bool {
	memo := map[*vg.Term]bool{}
	var rec func(t *vg.Term) bool
	rec = func(t *vg.Term) bool {
		if t == x {
			return true
		}
		if r, ok := memo[t]; ok {
			return r
		}
		memo[t] = false
		if t.Op == vg.OpSlice && t.Args[0] == x && t.Args[1] == t.Args[2] || t.Op == vg.OpCap && t.Args[0] == x {
			return false
		}
		for _, a := range t.Args {
			if rec(a) {
				memo[t] = true
				return true
			}
		}
		return false
	}
	return t != nil && rec(t)
}

func rulePooling(c *Ctx) {
	c.For("C07", "C06")
	l := c.lattice()
	st := l.lt.Underlying().(*types.Struct)

	// New
	nf := c.fn(latPkg + ".New")
	ns := c.Eval(nf, nil)
	ret := ns.Ret[0]
	var latPool *vg.Term
	for _, rl := range vg.Leaves(ret, vg.True) {
		ev, ok := poolGet(ns, rl.Val)
		if ok {
			latPool = ev.Args[0]
		}
		c.Ob(ok || rl.Val.Op == vg.OpAlloc, nf.Pos(), "a new lattice is a new object or one just taken from the pool (got %s)", ts(rl.Val))
	}
	c.Ob(l.load(ns.E, ns.Mem, ret, l.dic) == ns.Params[0] && l.load(ns.E, ns.Mem, ret, l.udic) == ns.Params[1], nf.Pos(), "a new lattice uses the dictionaries it is given, whatever it was used for before (system %s, user %s)",
		ts(l.load(ns.E, ns.Mem, ret, l.dic)), ts(l.load(ns.E, ns.Mem, ret, l.udic)))

	// Free
	ff := c.fn(latPkg + ".Lattice.Free")
	fs := c.Eval(ff, nil)
	la := fs.Params[0]
	list := l.load(fs.E, vg.BaseMem(), la, l.list)
	row := func(i *vg.Term) *vg.Term {
		return fs.E.Load(vg.BaseMem(), vg.ElemAddr(list, i, l.slotT), l.slotT)
	}
	puts := poolCalls(fs, "Put")
	var latPuts, nodePuts []*vg.Event
	for _, ev := range puts {
		t := ev.Args[1]
		if t.Op == vg.OpIface {
			t = t.Args[0]
		}
		switch {
		case t == la:
			latPuts = append(latPuts, ev)
		case t.Typ != nil && types.Identical(t.Typ, l.nodePtr):
			nodePuts = append(nodePuts, ev)
		default:
			c.Ob(false, ev.Pos, "undecided: something else goes to a pool (%s)", ts(t))
		}
	}
	if !c.Ob(len(latPuts) == 1 && len(nodePuts) == 1, ff.Pos(), "Free puts the lattice and each of its nodes back at one place each (found %d and %d)", len(latPuts), len(nodePuts)) {
		return
	}
	lp, np := latPuts[0], nodePuts[0]
	c.Ob(lp.Cond == vg.True && len(lp.Loops) == 0, lp.Pos, "the lattice goes back to the pool exactly once on every path")
	c.Ob(latPool == nil || lp.Args[0] == latPool, lp.Pos, "the lattice goes back to the pool it comes from")
	after := false
	for _, ev := range fs.Events {
		if ev == lp {
			after = true
			continue
		}
		if after && ev.Kind != vg.EvReturn && ev.Kind != vg.EvInline {
			c.Ob(false, ev.Pos, "nothing happens to the lattice after it went back to the pool (%s)", ev.Kind)
		}
	}

	// the nodes
	t := np.Args[1]
	if t.Op == vg.OpIface {
		t = t.Args[0]
	}
	r, j, ok := elemOf(strip(t))
	var i *vg.Term
	if ok {
		var b *vg.Term
		b, i, ok = elemOf(strip(r))
		ok = ok && strip(b) == strip(list)
	}
	if c.Ob(ok, np.Pos, "the nodes that go back to the pool are those of the grid (got %s)", ts(t)) {
		li, lj := loopOfIter(i), loopOfIter(j)
		if c.Ob(li != nil && lj != nil && lj.Parent == li && li.Parent == nil && li.Domain() != nil && lj.Domain() != nil, np.Pos, "the nodes go back to the pool slot by slot") {
			pi, pj := vg.LE(vg.Int(0), li.Iter()), vg.LE(vg.Int(0), lj.Iter())
			c.Ob(i == li.Iter() && j == lj.Iter() &&
				vg.Equiv(vg.And(pi, strip(li.Domain())), vg.And(pi, vg.LT(i, vg.Len(strip(list))))) &&
				vg.Equiv(vg.And(pj, strip(lj.Domain())), vg.And(pj, vg.LT(j, vg.Len(strip(row(i)))))), np.Pos, "every node of every slot goes back to the pool, once (domains %s; %s)", ts(li.Domain()), ts(lj.Domain()))
			_, inner := full(np, pi, pj)
			c.Ob(inner, np.Pos, "no node is left out (put when %s)", ts(np.Cond))
		}
	}
	// no use of a node after it went back
	after = false
	for _, ev := range fs.Events {
		if ev == np {
			after = true
			continue
		}
		if after && ev.Kind == vg.EvStore && ev.Addr.Op == vg.OpFieldAddr && types.Identical(ev.Addr.Args[0].Typ, l.nodePtr) {
			c.Ob(false, ev.Pos, "nothing is written to a node after it went back to the pool")
		}
	}

	// Build
	bf := c.fn(latPkg + ".Lattice.Build")
	bs := c.Eval(bf, nil)
	gets := poolCalls(bs, "Get")
	for _, ev := range append(append(poolCalls(ns, "Put"), poolCalls(bs, "Put")...), poolCalls(fs, "Get")...) {
		c.Ob(false, ev.Pos, "a lattice and its nodes are taken in New and Build and put back in Free only (%s)", ev.Callee)
	}
	for _, ev := range gets {
		c.Ob(ev.Args[0] == np.Args[0], ev.Pos, "nodes come from the pool they go back to")
	}
	adds := l.adds(bs)
	for a := range adds {
		for b := a + 1; b < len(adds); b++ {
			if adds[a].n == adds[b].n && adds[a].ev != adds[b].ev {
				c.Ob(!vg.Sat(vg.And(adds[a].cond, adds[b].cond)), adds[b].ev.Pos, "a node is in one slot of the grid only")
			}
		}
	}

	ks := c.Eval(c.fn(latPkg+".Lattice.Backward"), nil)

	// fields
	for k := 0; k < st.NumFields(); k++ {
		name := st.Field(k).Name()
		byNew := true
		for _, rl := range vg.Leaves(ret, vg.True) {
			v := vg.Restrict(l.load(ns.E, ns.Mem, rl.Val, k), rl.Cond)
			if vg.Any(v, func(x *vg.Term) bool { return x.Op == vg.OpLd && x.Args[0] == vg.FAddr(rl.Val, l.lt, k) }) {
				byNew = false
			}
		}
		byBuild := overwrites(l, bs, k) || k == l.out && overwrites(l, ks, k)
		f := l.load(fs.E, fs.Mem, la, k)
		byFree := emptied(f)
		if k == l.list && !byNew {
			byBuild = false
			// slots that are used again must be empty
			if byFree && f != vg.Nil && f.Op != vg.OpMakeSlice {
				byFree = c.slotsEmptied(l, fs, list)
			}
		}
		c.Ob(byNew || byBuild || byFree, st.Field(k).Pos(), "field %s carries nothing from one analysis to the next: New or Build overwrites it, or Free empties it (New leaves it, Free leaves %s)", name, ts(f))
	}

	// other functions leave the pools alone
	for _, fn := range c.R.Funcs {
		if fn.Synthetic != "" && fn.Name() != "init" || fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() == nil {
					continue
				}
				cal := call.Common().StaticCallee()
				if !strings.HasPrefix(cal.String(), "(*sync.Pool).") {
					continue
				}
				c.In(fn)
				in := c.visited(ns, fn) || c.visited(fs, fn) || c.visited(bs, fn)
				c.Ob(in, call.Pos(), "only New, Build and Free use a pool")
			}
		}
	}
	c.poolConstructors()
	c.In(nf)
	c.resultTypes()
}

// overwrites reports whether the method replaces field k of its lattice on
// every path without looking at what it was.
func overwrites(l *lat, s *vg.Summary, k int) bool {
	la := s.Params[0]
	old := l.load(s.E, vg.BaseMem(), la, k)
	if observes(l.load(s.E, s.Mem, la, k), old) {
		return false
	}
	for _, ev := range s.Events {
		for _, x := range append([]*vg.Term{ev.Cond, ev.Addr, ev.Val}, ev.Args...) {
			if observes(x, old) {
				return false
			}
		}
	}
	return true
}

func (c *Ctx) visited(s *vg.Summary, fn *ssa.Function) bool {
	for f := range s.E.Visited {
		if f == fn || f.Origin() != nil && f.Origin() == fn || fn.Origin() != nil && fn.Origin() == f {
			return true
		}
	}
	return false
}

// full reports whether ev happens in every round of its loops, in which no
// round is skipped.
func full(ev *vg.Event, bounds ...*vg.Term) (dom *vg.Term, ok bool) {
	dom = vg.True
	for _, b := range bounds {
		dom = vg.And(dom, b)
	}
	for _, l := range ev.Loops {
		if l.Domain() == nil {
			return dom, false
		}
		dom = vg.And(dom, strip(l.Domain()))
		if !vg.Implies(dom, strip(l.ContCond)) {
			return dom, false
		}
	}
	return dom, vg.Implies(dom, strip(ev.Cond))
}

// slotsEmptied reports whether every slot of the grid is emptied.
func (c *Ctx) slotsEmptied(l *lat, s *vg.Summary, list *vg.Term) bool {
	ok := false
	for _, ev := range s.Events {
		if ev.Kind != vg.EvStore || !l.isSlotAddr(ev.Addr) {
			continue
		}
		if !emptied(ev.Val) {
			c.Ob(false, ev.Pos, "a slot is emptied before the grid goes back to the pool (left with %s)", ts(ev.Val))
			return false
		}
		if strip(ev.Addr.Args[0]) != strip(list) || len(ev.Loops) != 1 {
			continue
		}
		i := ev.Addr.Args[1]
		li := ev.Loops[0]
		if loopOfIter(i) != li || i != li.Iter() || li.Domain() == nil {
			continue
		}
		pi := vg.LE(vg.Int(0), i)
		if !vg.Equiv(vg.And(pi, strip(li.Domain())), vg.And(pi, vg.LT(i, vg.Len(strip(list))))) {
			continue
		}
		dom, all := full(ev, pi)
		if !all {
			// a slot that is empty already may be left alone
			rest := vg.And(dom, vg.Not(strip(ev.Cond)))
			row := strip(s.E.Load(vg.BaseMem(), vg.ElemAddr(list, i, l.slotT), l.slotT))
			all = vg.Implies(rest, vg.LE(vg.Len(row), vg.Int(0)))
		}
		if all {
			ok = true
		}
	}
	return ok
}

// poolConstructors checks that every pool makes new objects.
func (c *Ctx) poolConstructors() {
	found := 0
	for _, p := range []string{latPkg} {
		ini := c.R.SSA[p].Func("init")
		c.In(ini)
		s := c.Eval(ini, nil)
		for _, ev := range s.Events {
			if ev.Kind != vg.EvStore || ev.Addr.Op != vg.OpFieldAddr || ev.Addr.Typ == nil {
				continue
			}
			if p, ok := ev.Addr.Args[0].Typ.Underlying().(*types.Pointer); !ok || types.TypeString(p.Elem(), nil) != "sync.Pool" {
				continue
			}
			found++
			r := s.E.Apply(ev.Val, s.Mem)
			if !c.Ob(r != nil && len(r.Ret) == 1, ev.Pos, "undecided: the constructor of a pool (%s)", ts(ev.Val)) {
				continue
			}
			made := true
			v := vg.Restrict(r.Ret[0], ev.Cond)
			for _, x := range vg.Leaves(v, ev.Cond) {
				o := x.Val
				if o.Op == vg.OpIface {
					o = o.Args[0]
				}
				if o.Op != vg.OpAlloc || !strings.Contains(o.S, "apply") {
					made = false
				}
			}
			c.Ob(made, ev.Pos, "a pool that is empty makes a new object (got %s)", ts(v))
		}
	}
	c.Ob(found >= 2, 0, "the pools and their constructors are known (%d)", found)
}

// resultTypes checks that no exported result can lead to a node or lattice.
func (c *Ctx) resultTypes() {
	c.For("C07")
	for _, fn := range c.entryPoints(tokPkg) {
		c.In(fn)
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			bad := ""
			leadsTo(res.At(i).Type(), map[types.Type]bool{}, func(n *types.Named) {
				if n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath+"/"+latPkg) {
					if _, ok := n.Underlying().(*types.Struct); ok {
						bad = n.Obj().Name()
					}
				}
			})
			c.Ob(bad == "", fn.Pos(), "the result of %s cannot refer to pooled memory (leads to %s)", fn.Name(), bad)
		}
	}
}

func leadsTo(t types.Type, seen map[types.Type]bool, f func(*types.Named)) {
	if seen[t] {
		return
	}
	seen[t] = true
	if n, ok := t.(*types.Named); ok {
		f(n)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			leadsTo(u.Field(i).Type(), seen, f)
		}
	case *types.Pointer:
		leadsTo(u.Elem(), seen, f)
	case *types.Slice:
		leadsTo(u.Elem(), seen, f)
	case *types.Array:
		leadsTo(u.Elem(), seen, f)
	case *types.Map:
		leadsTo(u.Key(), seen, f)
		leadsTo(u.Elem(), seen, f)
	case *types.Chan:
		leadsTo(u.Elem(), seen, f)
	}
}
