package main

import (
	"go/types"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"

	"kcheck/vg"
)

func init() {
	register("compact", "C12 C25", "Keep and Drop: one pass over the whole slice, keeping exactly the tokens selected by the predicate, in order", ruleCompact)
	register("wordfilter", "C13 C14", "a word filter matches exactly the registered words", ruleWordFilter)
	register("featuresfilter", "C13", "the features filter inserts and matches exactly the registered prefixes", ruleFeaturesFilter)
	register("posfilter", "C13 C14", "a POS filter is the features filter on its vectors", rulePOSFilter)
}

func anyVer(string) bool { return true }

func (c *Ctx) compactOpaque() func(*ssa.Function) bool {
	pos := c.fn("tokenizer.Token.POS")
	ffm := c.fn("filter.FeaturesFilter.Match")
	return func(f *ssa.Function) bool { return f == pos || f == ffm }
}

// compaction checks that fn leaves in *tokens exactly the elements v of the old
// slice with sel(v) == keep.
func (c *Ctx) compaction(fn *ssa.Function, ti int, keep bool, sel func(s *vg.Summary, l *vg.Loop, v *vg.Term) *vg.Term) {
	opq := c.compactOpaque()
	c.In(fn)
	e := vg.NewEval(c.R.Prog, IsRepo, opq)
	e.PureFn = opq
	s := e.Run(fn)
	c.touch(s)
	for _, p := range e.Problems {
		c.Ob(false, fn.Pos(), "undecided: %s", p)
	}
	tokens := s.Params[ti]
	nn := vg.NonNil(tokens)
	slt := fn.Params[ti].Type().Underlying().(*types.Pointer).Elem()
	elem := slt.Underlying().(*types.Slice).Elem()
	old := e.Load(vg.BaseMem(), tokens, slt)
	for _, ev := range s.Events {
		switch ev.Kind {
		case vg.EvStore, vg.EvLoop, vg.EvAppend, vg.EvCall:
			cond := ev.Cond
			if ev.Loop != nil {
				cond = ev.Loop.EntryCond
			}
			if cond != nil && !(ev.Kind == vg.EvStore && vg.Root(ev.Addr).Op == vg.OpAlloc) {
				c.Ob(vg.Implies(cond, nn), ev.Pos, "a nil slice pointer is a no-op (this happens if %s)", ts(cond))
			}
		}
	}
	final := vg.Restrict(e.Load(s.Mem, tokens, slt), nn)
	var loops []*vg.Loop
	for _, ev := range s.Events {
		if ev.Kind == vg.EvLoop && len(ev.Loops) == 0 {
			loops = append(loops, ev.Loop)
		}
	}
	if !c.Ob(len(loops) == 1, fn.Pos(), "the tokens are filtered in one pass (found %d loops)", len(loops)) {
		return
	}
	l := loops[0]
	it := l.Iter()
	uv := func(t *vg.Term) *vg.Term {
		return vg.Unversion(t, func(v string) bool { return strings.HasPrefix(v, l.Key) })
	}
	dom := l.Domain()
	full := vg.And(vg.LE(vg.Int(0), it), vg.LT(it, vg.Len(old)))
	if !c.Ob(dom != nil && vg.Equiv(vg.And(uv(dom), vg.LE(vg.Int(0), it)), full) && goesOn(l, vg.True, uv), l.Pos, "the pass visits every token once (domain %s)", ts(dom)) {
		return
	}
	v := uv(e.Load(vg.BaseMem(), vg.ElemAddr(old, it, elem), elem))
	m := sel(s, l, v)
	if m == nil {
		return
	}
	want := m
	if !keep {
		want = vg.Not(m)
	}
	body := vg.And(nn, full)
	isSame := func(got *vg.Term) bool {
		return vg.Implies(vg.And(body, got), want) && vg.Implies(vg.And(body, want), got)
	}
	switch {
	case final.Op == vg.OpSlice && final.Args[0] == old:
		// in-place compaction with a write index
		var tail *vg.Mu
		for _, mu := range l.Mus() {
			if mu.Type() != nil && types.TypeString(mu.Type(), nil) == "int" && l.Final(e, 0, mu.Value()) == final.Args[2] && mu.Init != nil && mu.Init.IsConst(0) {
				tail = mu
			}
		}
		if !c.Ob(final.Args[1].IsConst(0) && tail != nil, fn.Pos(), "the result is the front part of the slice, as long as the number of tokens kept (got %s)", ts(final)) {
			return
		}
		inc := vg.EQ(tail.Next, vg.Add(tail.Value(), vg.Int(1)))
		hold := vg.EQ(tail.Next, tail.Value())
		c.Ob(vg.Implies(body, vg.Or(inc, hold)) && isSame(uv(inc)), l.Pos, "a token counts as kept exactly when the predicate says so (kept when %s, wanted when %s)", ts(uv(inc)), ts(want))
		n := 0
		for _, ev := range s.Events {
			if ev.Kind != vg.EvStore || vg.Root(ev.Addr).Op == vg.OpAlloc {
				continue
			}
			if len(ev.Loops) == 0 {
				c.Ob(ev.Addr == tokens, ev.Pos, "only the caller's slice is replaced")
				continue
			}
			n++
			c.Ob(uv(ev.Addr) == uv(vg.ElemAddr(old, tail.Value(), elem)), ev.Pos, "a kept token moves to the next free place (writes %s)", ts(ev.Addr))
			c.Ob(uv(ev.Val) == v, ev.Pos, "a kept token moves unmodified (writes %s)", ts(ev.Val))
			must := vg.And(want, vg.Not(vg.EQ(tail.Value(), it)))
			cond := uv(ev.Cond)
			c.Ob(vg.Implies(vg.And(body, uv(must)), cond) && vg.Implies(vg.And(body, cond), want), ev.Pos, "exactly the kept tokens are moved (moved when %s)", ts(ev.Cond))
		}
		c.Ob(n == 1, l.Pos, "kept tokens are moved at one place (found %d)", n)
	case final.Op == vg.OpSeqLoop && final.Loop == l:
		init := final.Args[0]
		empty := vg.Len(init).IsConst(0)
		c.Ob(empty, fn.Pos(), "the result starts empty (starts as %s)", ts(init))
		mu := l.MuByTerm(final)
		if mu == nil {
			mu = findMu(l, final.S)
		}
		for _, lf := range vg.Leaves(mu.Next, vg.And(l.ContCond, body)) {
			if lf.Val == mu.Term {
				continue
			}
			ok := lf.Val.Op == vg.OpAppend && len(lf.Val.Args) == 2 && lf.Val.Args[1].Op == vg.OpSeqLit && len(lf.Val.Args[1].Args) == 1 && uv(lf.Val.Args[1].Args[0]) == v
			c.Ob(ok, l.Pos, "a kept token is appended once, unmodified (appends %s)", ts(lf.Val))
		}
		app := vg.Not(vg.EqVal(mu.Next, mu.Term))
		kept := vg.False
		for _, lf := range vg.Leaves(mu.Next, vg.And(l.ContCond, body)) {
			if lf.Val != mu.Term {
				kept = vg.Or(kept, lf.Cond)
			}
		}
		_ = app
		c.Ob(isSame(uv(kept)), l.Pos, "a token is kept exactly when the predicate says so (kept when %s, wanted when %s)", ts(uv(kept)), ts(want))
	default:
		c.Ob(false, fn.Pos(), "the caller's slice ends up with exactly the kept tokens (got %s)", ts(final))
	}
}

func findMu(l *vg.Loop, key string) *vg.Mu {
	for _, m := range l.Mus() {
		if m.Key == key {
			return m
		}
	}
	return nil
}

func ruleCompact(c *Ctx) {
	tt := c.namedType(tokPkg, "Token")
	for _, k := range []struct {
		name string
		keep bool
	}{{"Keep", true}, {"Drop", false}} {
		c.For("C12")
		fn := c.fn("filter." + k.name)
		c.compaction(fn, 0, k.keep, func(s *vg.Summary, l *vg.Loop, v *vg.Term) *vg.Term {
			var calls []*vg.Event
			for _, ev := range s.Events {
				if ev.Kind == vg.EvCall && ev.Callee == "dynamic" && ev.Args[0] == s.Params[1] {
					calls = append(calls, ev)
				}
			}
			if !c.Ob(len(calls) == 1 && len(calls[0].Loops) == 1 && calls[0].Loops[0] == l, fn.Pos(), "the predicate is asked once per token") {
				return nil
			}
			got := vg.Unversion(calls[0].Args[1], func(v string) bool { return strings.HasPrefix(v, l.Key) })
			c.Ob(got == v, calls[0].Pos, "the predicate is asked about the token itself (asked about %s)", ts(got))
			c.Ob(vg.Implies(vg.And(l.EntryCond, l.Domain()), calls[0].Cond), calls[0].Pos, "the predicate is asked about every token")
			return vg.BoolOf(calls[0].Res)
		})
		fn = c.fn("filter.POSFilter." + k.name)
		c.compaction(fn, 1, k.keep, func(s *vg.Summary, l *vg.Loop, v *vg.Term) *vg.Term {
			pt := c.namedType("filter", "POSFilter")
			ff := structField(s.Params[0], pt, fieldByType(pt, "*"+modPath+"/filter.FeaturesFilter"))
			pos := s.E.PureCall(c.R.Func("tokenizer.Token.POS"), v)
			return s.E.PureCall(c.R.Func("filter.FeaturesFilter.Match"), ff, pos)
		})
		fn = c.fn("filter.WordFilter." + k.name)
		c.compaction(fn, 1, k.keep, func(s *vg.Summary, l *vg.Loop, v *vg.Term) *vg.Term {
			return c.wordMatch(s.E, s.Params[0], structField(v, tt, fieldByName(tt, "Surface")))
		})
		c.In(fn)
	}
}

// wordMatch is the value of WordFilter.Match on f and w.
func (c *Ctx) wordMatch(e *vg.Eval, f, w *vg.Term) *vg.Term {
	fn := c.R.Func("filter.WordFilter.Match")
	if fn == nil {
		panic(missing("no WordFilter.Match"))
	}
	s := c.R.Eval(fn, nil, f, w)
	return s.Ret[0]
}

func ruleWordFilter(c *Ctx) {
	fn := c.fn("filter.NewWordFilter")
	s := c.Eval(fn, nil)
	wt := c.namedType("filter", "WordFilter")
	st := wt.Underlying().(*types.Struct)
	mi, mf := vg.FieldIndex(wt, func(v *types.Var) bool { _, ok := v.Type().Underlying().(*types.Map); return ok })
	if !c.Ob(mi >= 0 && st.NumFields() >= 1, fn.Pos(), "the words are kept in a map") {
		return
	}
	m := s.E.Load(s.Mem, vg.FAddr(s.Ret[0], wt, mi), mf.Type())
	c.Ob(m.Op == vg.OpMakeMap, fn.Pos(), "each filter has its own set of words (got %s)", ts(m))
	words := s.Params[0]
	n := 0
	var val *vg.Term
	for _, ev := range s.Events {
		switch ev.Kind {
		case vg.EvMap:
			n++
			if c.Ob(len(ev.Loops) == 1 && ev.Args[0] == m, ev.Pos, "words are registered in a loop") {
				l := ev.Loops[0]
				it := l.Iter()
				dom := l.Domain()
				want := s.E.Load(vg.BaseMem(), vg.ElemAddr(words, it, strT), strT)
				c.Ob(ev.Args[1] == want, ev.Pos, "the registered key is the word itself (got %s)", ts(ev.Args[1]))
				full := vg.And(vg.LE(vg.Int(0), it), vg.LT(it, vg.Len(words)))
				c.Ob(dom != nil && vg.Equiv(vg.And(dom, vg.LE(vg.Int(0), it)), full) && goesOn(l, vg.True, nil) && vg.Implies(full, ev.Cond), ev.Pos, "every word is registered (when %s)", ts(ev.Cond))
				val = ev.Args[2]
			}
		case vg.EvCall:
			if strings.HasPrefix(ev.Callee, "builtin") || strings.Contains(ev.Callee, "delete") {
				c.Ob(false, ev.Pos, "registered words are not removed")
			}
		}
	}
	c.Ob(n == 1, fn.Pos(), "words are registered at one place (found %d)", n)
	mfn := c.fn("filter.WordFilter.Match")
	ms := c.Eval(mfn, nil)
	fm := structField(recvStruct(ms, wt), wt, mi)
	has := vg.MapHas(fm, ms.Params[1])
	ok := vg.Equiv(ms.Ret[0], has)
	if !ok && val == vg.True {
		b := ms.E.Load(vg.BaseMem(), vg.ElemAddrMap(fm, ms.Params[1], types.Typ[types.Bool]), types.Typ[types.Bool])
		ok = vg.Equiv(ms.Ret[0], b)
	}
	c.Ob(ok, mfn.Pos(), "Match is membership of the word in the set (got %s)", ts(ms.Ret[0]))
}

// recvStruct views the receiver as a struct, loading it if it is a pointer.
func recvStruct(s *vg.Summary, t types.Type) *vg.Term {
	if _, ok := s.Fn.Params[0].Type().Underlying().(*types.Pointer); ok {
		return s.E.Load(vg.BaseMem(), s.Params[0], t)
	}
	return s.Params[0]
}

func rulePOSFilter(c *Ctx) {
	pt := c.namedType("filter", "POSFilter")
	fi := fieldByType(pt, "*"+modPath+"/filter.FeaturesFilter")
	ffm, nff := c.fn("filter.FeaturesFilter.Match"), c.fn("filter.NewFeaturesFilter")
	opq := func(f *ssa.Function) bool { return f == ffm || f == nff }
	fn := c.fn("filter.POSFilter.Match")
	e := vg.NewEval(c.R.Prog, IsRepo, opq)
	e.PureFn = opq
	s := e.Run(fn)
	c.In(fn).touch(s)
	c.Ob(vg.Equiv(s.Ret[0], e.PureCall(ffm, structField(recvStruct(s, pt), pt, fi), s.Params[1])), fn.Pos(), "Match asks the features filter about the whole POS vector (got %s)", ts(s.Ret[0]))
	fn = c.fn("filter.NewPOSFilter")
	e = vg.NewEval(c.R.Prog, IsRepo, opq)
	e.PureFn = opq
	s = e.Run(fn)
	c.In(fn).touch(s)
	got := e.Load(s.Mem, vg.FAddr(s.Ret[0], pt, fi), types.NewPointer(c.namedType("filter", "FeaturesFilter")))
	c.Ob(got == e.PureCall(nff, s.Params[0]), fn.Pos(), "the filter is made of the given vectors (got %s)", ts(got))
}

func ruleFeaturesFilter(c *Ctx) {
	ft := c.namedType("filter", "FeaturesFilter")
	match := c.fn("filter.FeaturesFilter.Match")
	// the recursive matcher reachable from Match
	var rec *ssa.Function
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || !IsRepo(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil {
						if g == f {
							rec = f
						}
						walk(g)
					}
				}
			}
		}
	}
	walk(match)
	if !c.Ob(rec != nil, match.Pos(), "undecided: matching is not a recursion over the tree of registered vectors") {
		return
	}
	any := c.R.SSA["filter"].Const("Any")
	if any == nil {
		panic(missing("no filter.Any"))
	}
	anyV := vg.Str(constStr(any))
	c.Ob(strings.ContainsFunc(constStr(any), unicode.IsControl), any.Pos(), "no feature of a word is the wildcard (%q)", constStr(any))
	pure := func(f *ssa.Function) bool { return f == rec }
	nodeT := ft.Underlying().(*types.Struct).Field(0).Type()
	if p, ok := nodeT.(*types.Pointer); ok {
		nodeT = p.Elem()
	}
	fi, ff := vg.FieldIndex(nodeT, func(v *types.Var) bool { _, ok := v.Type().Underlying().(*types.Slice); return ok })
	if !c.Ob(fi >= 0, match.Pos(), "undecided: a tree node has a list of edges") {
		return
	}
	edgeP := ff.Type().Underlying().(*types.Slice).Elem()
	edgeT := edgeP
	if p, ok := edgeP.Underlying().(*types.Pointer); ok {
		edgeT = p.Elem()
	}
	vi, _ := vg.FieldIndex(edgeT, func(v *types.Var) bool { return types.TypeString(v.Type().Underlying(), nil) == "string" })
	ti, tf := vg.FieldIndex(edgeT, func(v *types.Var) bool {
		p, ok := v.Type().(*types.Pointer)
		return ok && types.Identical(p.Elem(), nodeT)
	})
	if !c.Ob(vi >= 0 && ti >= 0, match.Pos(), "undecided: an edge has a value and a target node") {
		return
	}
	e := vg.NewEval(c.R.Prog, IsRepo, func(*ssa.Function) bool { return false })
	e.PureFn = pure
	s := e.Run(rec)
	c.In(rec).touch(s)
	// the position in the vector is either where the slice starts or a counter
	var np, fp, kp = -1, -1, -1
	for i, p := range rec.Params {
		switch u := p.Type().Underlying().(type) {
		case *types.Slice:
			fp = i
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				kp = i
			}
		default:
			np = i
		}
	}
	if !c.Ob(np >= 0 && fp >= 0 && (len(rec.Params) == 2 || kp >= 0 && len(rec.Params) == 3), rec.Pos(), "undecided: the matcher takes a node and a vector") {
		return
	}
	base := vg.BaseMem()
	_, ptr := rec.Params[np].Type().Underlying().(*types.Pointer)
	nodeArg := func(p *vg.Term) *vg.Term {
		if ptr {
			return p
		}
		return e.Load(base, p, nodeT)
	}
	fanoutOf := func(p *vg.Term) *vg.Term { return e.Load(base, vg.FAddr(p, nodeT, fi), ff.Type()) }
	var fan *vg.Term
	if ptr {
		fan = fanoutOf(s.Params[np])
	} else {
		fan = structField(s.Params[np], nodeT, fi)
	}
	fs := s.Params[fp]
	edge := func(fan, k *vg.Term) *vg.Term { // address of edge k
		a := vg.ElemAddr(fan, k, edgeP)
		if edgeP == edgeT {
			return a
		}
		return e.Load(base, a, edgeP)
	}
	val := func(ed *vg.Term) *vg.Term { return e.Load(base, vg.FAddr(ed, edgeT, vi), strT) }
	to := func(ed *vg.Term) *vg.Term { return e.Load(base, vg.FAddr(ed, edgeT, ti), tf.Type()) }
	leaf := func(p *vg.Term) *vg.Term { return vg.LE(vg.Len(fanoutOf(p)), vg.Int(0)) }
	at, more := vg.Int(0), vg.LT(vg.Int(0), vg.Len(fs))
	inv := vg.True
	if kp >= 0 {
		at = s.Params[kp]
		more = vg.LT(at, vg.Len(fs))
		inv = vg.And(vg.LE(vg.Int(0), at), vg.LE(at, vg.Len(fs)))
	}
	first := e.Load(base, vg.ElemAddr(fs, at, strT), strT)
	args := func(n, v, k *vg.Term) []*vg.Term {
		a := make([]*vg.Term, len(rec.Params))
		a[np] = n
		if kp >= 0 {
			a[fp], a[kp] = v, k
		} else {
			a[fp] = vg.Slice(v, k, vg.Len(v))
			if k.IsConst(0) {
				a[fp] = v
			}
		}
		return a
	}
	want := vg.And(more, vg.Exists(
		func(k *vg.Term) *vg.Term { return vg.LT(k, vg.Len(fan)) },
		func(k *vg.Term) *vg.Term {
			ed := edge(fan, k)
			return vg.And(vg.Or(vg.EQ(val(ed), anyV), vg.EQ(first, val(ed))),
				vg.Or(leaf(to(ed)), e.PureCall(rec, args(nodeArg(to(ed)), fs, vg.Add(at, vg.Int(1)))...)))
		}))
	got := vg.NilAsEmpty(s.Ret[0])
	c.Ob(vg.Equiv(vg.And(inv, got), vg.And(inv, want)), rec.Pos(), "a vector matches at a node iff some edge matches its first element (or is the wildcard) and either a registered vector ends there or the rest matches below; got %s, expected %s", ts(got), ts(want))
	// Match starts at the root with the whole vector
	e2 := vg.NewEval(c.R.Prog, IsRepo, pure)
	e2.PureFn = pure
	ms := e2.Run(match)
	c.In(match).touch(ms)
	rootP := vg.FAddr(ms.Params[0], ft, 0)
	if _, ok := ft.Underlying().(*types.Struct).Field(0).Type().(*types.Pointer); ok {
		rootP = e.Load(base, rootP, ft.Underlying().(*types.Struct).Field(0).Type())
	}
	wm := e2.PureCall(rec, args(nodeArg(rootP), ms.Params[1], vg.Int(0))...)
	c.Ob(vg.Equiv(ms.Ret[0], wm), match.Pos(), "Match starts at the root with the whole vector (got %s)", ts(ms.Ret[0]))

	// registration: every vector is inserted, in one loop, by a walk from the root
	nf := c.fn("filter.NewFeaturesFilter")
	ns := c.Eval(nf, nil)
	var outer, ins *vg.Loop
	for _, ev := range ns.Events {
		if ev.Kind != vg.EvLoop {
			continue
		}
		switch len(ev.Loops) {
		case 0:
			c.Ob(outer == nil, ev.Pos, "vectors are registered in one loop")
			outer = ev.Loop
		case 1:
			c.Ob(ins == nil, ev.Pos, "each vector is inserted in one walk")
			ins = ev.Loop
		}
	}
	if !c.Ob(outer != nil && ins != nil, nf.Pos(), "undecided: vectors are inserted by a walk down the tree") {
		return
	}
	ne := ns.E
	uv := func(t *vg.Term) *vg.Term { return vg.NilAsEmpty(vg.Unversion(t, anyVer)) }
	all := ns.Params[0]
	oi, ii := outer.Iter(), ins.Iter()
	featT := all.Typ.Underlying().(*types.Slice).Elem()
	vec := ne.Load(base, vg.ElemAddr(all, oi, featT), featT)
	fullDom := func(l *vg.Loop, x *vg.Term) bool {
		d := l.Domain()
		nn := vg.LE(vg.Int(0), l.Iter())
		return d != nil && vg.Equiv(vg.And(uv(d), nn), vg.And(nn, vg.LT(l.Iter(), vg.Len(x))))
	}
	c.Ob(fullDom(outer, all) && goesOn(outer, vg.True, uv), outer.Pos, "every registered vector is inserted")
	c.Ob(fullDom(ins, vec), ins.Pos, "every element of the vector is walked")
	c.Ob(vg.Implies(vg.And(outer.EntryCond, outer.Domain()), vg.Or(ins.EntryCond, vg.LE(vg.Len(vec), vg.Int(0)))), ins.Pos, "no vector is skipped (inserted when %s)", ts(ins.EntryCond))
	// the current node
	var cur *vg.Mu
	for _, mu := range ins.Mus() {
		if mu.Type() != nil {
			if p, ok := mu.Type().(*types.Pointer); ok && types.Identical(p.Elem(), nodeT) {
				cur = mu
			}
		}
	}
	if !c.Ob(cur != nil, ins.Pos, "undecided: the walk has a current node") {
		return
	}
	root := vg.FAddr(ns.Ret[0], ft, 0)
	c.Ob(ns.Ret[0].Op == vg.OpAlloc && uv(cur.Init) == root, ins.Pos, "each walk starts at the root of the new filter (starts at %s)", ts(cur.Init))
	n := cur.Value()
	el := uv(ne.Load(base, vg.ElemAddr(vec, ii, strT), strT))
	fan = fanoutOf(n)
	dom := func(k *vg.Term) *vg.Term { return vg.LT(k, vg.Len(fan)) }
	is := func(k *vg.Term) *vg.Term { return vg.EQ(val(edge(fan, k)), el) }
	found := vg.Exists(dom, is)
	child := to(edge(fan, vg.First(dom, is)))
	tail := vg.EQ(ii, vg.Sub(vg.Len(vec), vg.Int(1)))
	// an edge is only ever added together with the node it leads to (below),
	// so the node at the end of an edge exists
	in := vg.And(vg.And(vg.LE(vg.Int(0), ii), vg.LT(ii, vg.Len(vec))), vg.Or(vg.Not(found), vg.NonNil(child)))
	next := uv(cur.Next)
	stop := vg.And(found, vg.Or(leaf(child), tail))
	var fresh *vg.Term
	for _, lf := range vg.Leaves(next, vg.And(in, vg.Not(stop))) {
		switch {
		case lf.Val == child:
			c.Ob(vg.Implies(vg.And(in, vg.And(vg.Not(stop), lf.Cond)), found), ins.Pos, "the walk descends along an existing edge only when it carries the element")
		case lf.Val.Op == vg.OpAlloc:
			fresh = lf.Val
			c.Ob(vg.Implies(vg.And(in, vg.And(vg.Not(stop), lf.Cond)), vg.Not(found)), ins.Pos, "a new node is made only when no edge carries the element (made when %s)", ts(lf.Cond))
		default:
			c.Ob(false, ins.Pos, "the walk moves to the node of its element (moves to %s)", ts(lf.Val))
		}
	}
	c.Ob(fresh != nil, ins.Pos, "a missing element gets a new node")
	exit := vg.False
	clear := vg.False // condition under which the child's edges are cleared
	for _, g := range ins.Exits {
		if !g.Header {
			exit = vg.Or(exit, uv(g.Cond))
		}
	}
	exit = vg.And(in, exit)
	c.Ob(vg.Implies(exit, stop) && vg.Implies(vg.And(in, stop), exit), ins.Pos, "the walk ends early exactly where a shorter registered vector ends, or where this one does (ends when %s)", ts(exit))
	// writes
	linked := false
	fanA := vg.FAddr(n, nodeT, fi)
	childFan := vg.FAddr(child, nodeT, fi)
	var newEdge *vg.Term
	for _, ev := range ns.Events {
		if ev.Kind != vg.EvStore {
			continue
		}
		inLoop := false
		for _, l := range ev.Loops {
			if l == ins {
				inLoop = true
			}
		}
		a := uv(ev.Addr)
		switch {
		case inLoop && a == fanA:
			v := uv(ev.Val)
			ok := v.Op == vg.OpAppend && len(v.Args) == 2 && v.Args[0] == fan && v.Args[1].Op == vg.OpSeqLit && len(v.Args[1].Args) == 1
			if c.Ob(ok, ev.Pos, "an insertion keeps all existing edges and adds one (stores %s)", ts(ev.Val)) {
				newEdge = v.Args[1].Args[0]
				cond := uv(vg.Restrict(ev.Cond, ins.EntryCond))
				c.Ob(vg.Implies(vg.And(in, cond), vg.Not(found)) && vg.Implies(vg.And(in, vg.Not(found)), cond), ev.Pos, "an edge is added exactly when none carries the element")
				linked = true
			}
		case a == childFan && inLoop:
			c.Ob(ev.Val == vg.Nil || vg.Len(ev.Val).IsConst(0), ev.Pos, "longer registered vectors are dropped below a shorter one")
			clear = vg.Or(clear, uv(vg.Restrict(ev.Cond, ins.EntryCond)))
		case !inLoop && ev.Addr.Op == vg.OpFieldAddr && vg.Root(ev.Addr).Op != vg.OpAlloc:
			// after the walk: under one of its exits
			ok := false
			for gi, g := range ins.Exits {
				if g.Header {
					continue
				}
				if vg.Implies(ev.Cond, g.E) && a == uv(ins.Final(ne, gi, childFan)) {
					ok = true
					clear = vg.Or(clear, uv(g.Cond))
				}
			}
			c.Ob(ok && (ev.Val == vg.Nil || vg.Len(ev.Val).IsConst(0)), ev.Pos, "only the edges below the end of the inserted vector are dropped (writes %s)", ts(ev.Addr))
		case vg.Root(ev.Addr).Op == vg.OpAlloc:
			// parts of new objects, checked below
		default:
			c.Ob(false, ev.Pos, "an insertion changes only the tree it inserts into (writes %s)", ts(ev.Addr))
		}
	}
	need := vg.And(in, vg.And(found, vg.And(tail, vg.Not(leaf(child)))))
	c.Ob(vg.Implies(need, clear) && vg.Implies(vg.And(in, clear), vg.And(found, tail)), ins.Pos, "longer vectors are dropped exactly where a shorter one ends (dropped when %s)", ts(clear))
	if !c.Ob(linked && newEdge != nil && fresh != nil, ins.Pos, "a new edge is linked into the tree") {
		return
	}
	bm := ins.BackMem()
	if edgeP == edgeT {
		c.Ob(structField(newEdge, edgeT, vi) == el && structField(newEdge, edgeT, ti) == fresh, ins.Pos, "a new edge carries the element and leads to the new node")
	} else {
		nf := vg.Not(found)
		ev := uv(vg.Restrict(ne.Load(bm, vg.FAddr(newEdge, edgeT, vi), strT), vg.And(in, nf)))
		et := uv(vg.Restrict(ne.Load(bm, vg.FAddr(newEdge, edgeT, ti), tf.Type()), vg.And(in, nf)))
		c.Ob(vg.SameUnder(vg.And(in, nf), ev, el), ins.Pos, "a new edge carries the element (carries %s)", ts(ev))
		c.Ob(vg.SameUnder(vg.And(in, nf), et, fresh), ins.Pos, "a new edge leads to the new node (leads to %s)", ts(et))
	}
	nfan := vg.Restrict(uv(ne.Load(bm, vg.FAddr(fresh, nodeT, fi), ff.Type())), vg.And(in, vg.Not(found)))
	c.Ob(nfan == vg.Nil, ins.Pos, "a new node ends the vector until the walk goes on (its edges are %s)", ts(nfan))
}
