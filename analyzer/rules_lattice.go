package main

import (
	"go/token"
	"go/types"

	"kcheck/vg"
)

func init() {
	register("candidates", "C01 C02 C03 C07 C10 C25", "every node Build adds has the fields, slot and condition that its class demands; nothing else is written", ruleBuild)
	register("forward", "C01 C03 C04 C07 C25", "one relaxation step of the forward search equals its specification and covers all node pairs that abut", ruleForward)
	register("backward", "C01 C02 C04 C11", "the backward pass follows the back pointers from EOS and emits each node, or its characters, once and in order", ruleBackward)
}

// lat names the parts of the lattice data structures by their types.
type lat struct {
	c            *Ctx
	lt, nt       types.Type
	list, dic    int
	udic, prev   int
	input, out   int
	nf           map[string]int
	nodePtr      types.Type
	listT, slotT types.Type
}

func (c *Ctx) lattice() *lat {
	la := &lat{c: c, lt: c.namedType(latPkg, "Lattice"), nt: c.namedType(latPkg, "Node")}
	np := "*" + modPath + "/" + latPkg + ".Node"
	la.list = fieldByType(la.lt, "[][]"+np)
	la.out = fieldByName(la.lt, "Output")
	la.input = fieldByName(la.lt, "Input")
	la.dic = fieldByType(la.lt, dictType)
	la.udic = fieldByType(la.lt, udictType)
	la.prev = fieldByType(la.nt, np)
	la.nf = map[string]int{}
	for _, n := range []string{"ID", "Position", "Start", "Class", "Cost", "Left", "Right", "Weight", "Surface"} {
		la.nf[n] = fieldByName(la.nt, n)
	}
	la.nf["prev"] = la.prev
	la.listT = la.lt.Underlying().(*types.Struct).Field(la.list).Type()
	la.slotT = la.listT.Underlying().(*types.Slice).Elem()
	la.nodePtr = la.slotT.Underlying().(*types.Slice).Elem()
	return la
}

func (l *lat) nodeField(i int) types.Type { return l.nt.Underlying().(*types.Struct).Field(i).Type() }
func (l *lat) latField(i int) types.Type  { return l.lt.Underlying().(*types.Struct).Field(i).Type() }

// load reads field i of the lattice at p in memory m.
func (l *lat) load(e *vg.Eval, m *vg.Mem, p *vg.Term, i int) *vg.Term {
	return e.Load(m, vg.FAddr(p, l.lt, i), l.latField(i))
}

// strip forgets which write a load follows.
func strip(t *vg.Term) *vg.Term { return vg.Unversion(t, func(string) bool { return true }) }

// elemOf splits a loaded slice element into its slice and index.
func elemOf(t *vg.Term) (base, idx *vg.Term, ok bool) {
	if t.Op == vg.OpLd && t.Args[0].Op == vg.OpIndexAddr {
		return t.Args[0].Args[0], t.Args[0].Args[1], true
	}
	return nil, nil, false
}

// ---- pooled objects ----

// poolGet reports whether t is an object just taken from a sync.Pool, and the
// pool it came from.
func poolGet(s *vg.Summary, t *vg.Term) (*vg.Event, bool) {
	x := t
	for x.Op == vg.OpAssert || x.Op == vg.OpExtract {
		x = x.Args[0]
	}
	if x.Op != vg.OpRes {
		return nil, false
	}
	for _, ev := range s.Events {
		if ev.Kind == vg.EvCall && ev.Res == x && ev.Callee == "(*sync.Pool).Get" {
			return ev, true
		}
	}
	return nil, false
}

func freshObj(s *vg.Summary, t *vg.Term) bool {
	if t.Op == vg.OpAlloc {
		return true
	}
	_, ok := poolGet(s, t)
	return ok
}

// nodeAdd is one candidate appended to a slot of the grid.
type nodeAdd struct {
	ev   *vg.Event
	cond *vg.Term
	n    *vg.Term
	list *vg.Term
	slot *vg.Term
	f    map[string]*vg.Term
}

// isSlotAddr reports whether a is the address of a grid slot.
func (l *lat) isSlotAddr(a *vg.Term) bool {
	if a.Op != vg.OpIndexAddr || a.Typ == nil {
		return false
	}
	p, ok := a.Typ.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), l.slotT)
}

// fieldStores lists the values stored in field i of object n, folded by
// condition; the hole stands for never written.
func (l *lat) stored(s *vg.Summary, n *vg.Term, i int) *vg.Term {
	v := vg.Hole
	fa := vg.FAddr(n, l.nt, i)
	for _, ev := range s.Events {
		if ev.Kind != vg.EvStore {
			continue
		}
		switch ev.Addr {
		case fa:
			v = vg.Ite(ev.Cond, ev.Val, v)
		case n:
			v = vg.Ite(ev.Cond, structField(ev.Val, l.nt, i), v)
		}
	}
	return v
}

func hasHole(t *vg.Term) bool {
	return vg.Any(t, func(x *vg.Term) bool { return x == vg.Hole })
}

func (l *lat) adds(s *vg.Summary) []nodeAdd {
	c := l.c
	var out []nodeAdd
	for _, ev := range s.Events {
		if ev.Kind != vg.EvStore {
			continue
		}
		for _, al := range vg.Leaves(ev.Addr, ev.Cond) {
			if !l.isSlotAddr(al.Val) {
				continue
			}
			cond := vg.And(ev.Cond, al.Cond)
			for _, vl := range vg.Leaves(vg.Restrict(ev.Val, cond), cond) {
				v := vl.Val
				if !c.Ob(v.Op == vg.OpAppend && len(v.Args) == 2 && v.Args[1].Op == vg.OpSeqLit && len(v.Args[1].Args) == 1, ev.Pos, "the grid changes only by appending one node to a slot (got %s)", ts(v)) {
					continue
				}
				old := v.Args[0]
				c.Ob(old == vg.Nil || old.Op == vg.OpLd && old.Args[0] == al.Val, ev.Pos, "the node is appended to the nodes already in its slot (got %s)", ts(old))
				n := v.Args[1].Args[0]
				c2 := vg.And(cond, vl.Cond)
				if !c.Ob(freshObj(s, n), ev.Pos, "the node added is a new one or just taken from the pool (got %s)", ts(n)) {
					continue
				}
				a := nodeAdd{ev: ev, cond: c2, n: n, list: al.Val.Args[0], slot: al.Val.Args[1], f: map[string]*vg.Term{}}
				ok := true
				for name, i := range l.nf {
					x := vg.Restrict(l.stored(s, n, i), c2)
					if hasHole(x) && n.Op != vg.OpAlloc {
						c.Ob(false, ev.Pos, "field %s of a recycled node is set before the node is used (unset when %s)", name, ts(c2))
						ok = false
					} else {
						c.Ob(true, ev.Pos, "field %s of a recycled node is set before the node is used", name)
					}
					if hasHole(x) {
						x = vg.Subst(x, map[*vg.Term]*vg.Term{vg.Hole: zeroOf(l.nodeField(i))})
					}
					a.f[name] = x
				}
				if ok {
					for _, kl := range vg.Leaves(a.f["Class"], c2) {
						b := a
						b.cond = vg.And(c2, kl.Cond)
						b.f = map[string]*vg.Term{}
						for k, x := range a.f {
							b.f[k] = vg.Restrict(x, b.cond)
						}
						b.slot = vg.Restrict(a.slot, b.cond)
						out = append(out, b)
					}
				}
			}
		}
	}
	return out
}

func zeroOf(t types.Type) *vg.Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return vg.Str("")
		}
		if u.Info()&types.IsBoolean != 0 {
			return vg.False
		}
		return vg.Int(0)
	}
	return vg.Nil
}

// mergeAdds merges the alternatives of one add, which differ in the grid
// (recycled or new) or the slot they use.
func mergeAdds(as []nodeAdd) []nodeAdd {
	var out []nodeAdd
next:
	for _, a := range as {
		for i, b := range out {
			if a.ev == b.ev && a.f["Class"] == b.f["Class"] {
				out[i].cond = vg.Or(a.cond, b.cond)
				out[i].slot = vg.Ite(a.cond, a.slot, b.slot)
				out[i].list = vg.Ite(a.cond, a.list, b.list)
				for k := range a.f {
					out[i].f[k] = vg.Ite(a.cond, a.f[k], b.f[k])
				}
				continue next
			}
		}
		out = append(out, a)
	}
	return out
}

func ruleBuild(c *Ctx) {
	c.For("C01", "C02", "C03", "C07", "C10")
	l := c.lattice()
	fn := c.fn(latPkg + ".Lattice.Build")
	s := c.Eval(fn, nil)
	la, inp := s.Params[0], s.Params[1]
	rc := vg.RuneCount(inp)
	end := vg.Add(rc, vg.Int(1))

	// the grid
	c.For("C01", "C07")
	old := l.load(s.E, vg.BaseMem(), la, l.list)
	var grids []vg.Leaf
	for _, ev := range s.Events {
		if ev.Kind == vg.EvStore && len(ev.Loops) > 0 && ev.Addr == vg.FAddr(la, l.lt, l.list) {
			c.Ob(false, ev.Pos, "the grid is not replaced while it is being filled")
		}
	}
	final := l.load(s.E, s.Mem, la, l.list)
	for _, g := range vg.Leaves(final, vg.True) {
		grids = append(grids, g)
		n := vg.Restrict(vg.Len(g.Val), g.Cond)
		c.Ob(vg.SameUnder(g.Cond, n, vg.Add(rc, vg.Int(2))), fn.Pos(), "the grid has one slot per character position plus BOS and EOS (%s)", ts(n))
		b := g.Val
		for b.Op == vg.OpSlice {
			c.Ob(b.Args[1].IsConst(0), fn.Pos(), "the grid starts at its first slot")
			b = b.Args[0]
		}
		switch {
		case b == old:
			c.Ob(vg.Implies(g.Cond, vg.LE(vg.Add(rc, vg.Int(2)), vg.CapOf(old))), fn.Pos(), "a recycled grid is large enough")
		default:
			c.Ob(b.Op == vg.OpMakeSlice, fn.Pos(), "the grid is the lattice's recycled one or a new one (got %s)", ts(b))
		}
	}
	got := l.load(s.E, s.Mem, la, l.input)
	c.For("C02")
	c.Ob(got == inp, fn.Pos(), "the lattice records its input")

	// nothing else is written
	c.For("C01", "C03", "C07")
	for _, ev := range s.Events {
		if ev.Kind != vg.EvStore && ev.Kind != vg.EvMap && ev.Kind != vg.EvCopy {
			continue
		}
		for _, al := range vg.Leaves(ev.Addr, ev.Cond) {
			a := al.Val
			r := vg.Root(a)
			ok := freshObj(s, r) || r.Op == vg.OpMakeSlice && !l.isSlotAddr(a) || a == vg.FAddr(la, l.lt, l.list) || a == vg.FAddr(la, l.lt, l.input) || l.isSlotAddr(a)
			c.Ob(ok, ev.Pos, "Build writes only the grid, the input field and the nodes it adds (writes %s)", ts(a))
		}
	}

	c.For("C01", "C02", "C03", "C07", "C10")
	adds := mergeAdds(l.adds(s))
	gridOK := func(a nodeAdd) {
		for _, g := range grids {
			cc := vg.And(a.cond, g.Cond)
			for _, al := range vg.Leaves(vg.Restrict(a.list, cc), cc) {
				ok := al.Val == g.Val || sameBase(al.Val, g.Val)
				c.Ob(ok, a.ev.Pos, "the node is added to this lattice's grid (got %s, grid %s when %s)", ts(al.Val), ts(g.Val), ts(al.Cond))
			}
		}
	}
	eq := func(a nodeAdd, name string, want *vg.Term) {
		ok := vg.SameUnder(a.cond, a.f[name], want)
		c.Ob(ok, a.ev.Pos, "%s of a %s node is %s (got %s)", name, ts(a.f["Class"]), ts(want), ts(a.f[name]))
	}
	cls := func(n string) *vg.Term { return c.constOf(latPkg, n) }
	zero := vg.Int(0)

	// BOS and EOS
	var bos, eos, user, known, unk []nodeAdd
	for _, a := range adds {
		gridOK(a)
		switch a.f["Class"] {
		case cls("DUMMY"):
			if vg.SameUnder(a.cond, a.slot, zero) {
				bos = append(bos, a)
			} else {
				eos = append(eos, a)
			}
		case cls("USER"):
			user = append(user, a)
		case cls("KNOWN"):
			known = append(known, a)
		case cls("UNKNOWN"):
			unk = append(unk, a)
		default:
			c.Ob(false, a.ev.Pos, "undecided: class of the added node is %s", ts(a.f["Class"]))
		}
	}
	c.For("C01", "C02", "C07", "C25")
	if !c.Ob(len(bos) == 1 && len(eos) == 1, fn.Pos(), "there is one BOS and one EOS node (found %d and %d)", len(bos), len(eos)) {
		return
	}
	for i, a := range []nodeAdd{bos[0], eos[0]} {
		name := []string{"BOS", "EOS"}[i]
		slot, pos, start := zero, zero, zero
		if i == 1 {
			slot, pos, start = end, vg.Len(inp), rc
		}
		c.Ob(len(a.ev.Loops) == 0 && vg.Equiv(a.cond, vg.True), a.ev.Pos, "%s is added on every path", name)
		c.Ob(vg.SameUnder(a.cond, a.slot, slot), a.ev.Pos, "%s is in slot %s (got %s)", name, ts(slot), ts(a.slot))
		eq(a, "ID", c.constOf(latPkg, "BosEosID"))
		eq(a, "Position", pos)
		eq(a, "Start", start)
		c.Ob(vg.SameUnder(a.cond, vg.Len(a.f["Surface"]), zero), a.ev.Pos, "%s has an empty surface (got %s)", name, ts(a.f["Surface"]))
		for _, f := range []string{"Cost", "Left", "Right", "Weight"} {
			eq(a, f, zero)
		}
		eq(a, "prev", vg.Nil)
	}

	// words
	c.For("C01", "C02", "C03", "C10", "C25")
	if !c.Ob(len(user) == 1 && len(known) == 1 && (len(unk) == 2 || len(unk) == 1), fn.Pos(), "user, system and unknown words are added at one place each (found %d, %d, %d)", len(user), len(known), len(unk)) {
		return
	}
	base := s.E.Ptr(la, l.lt, vg.BaseMem())
	dicF := l.lt.Underlying().(*types.Struct).Field(l.dic).Name()
	udicF := l.lt.Underlying().(*types.Struct).Field(l.udic).Name()
	dic, udic := base.F(dicF), base.F(udicF)
	var chars *vg.Loop
	for _, a := range append([]nodeAdd{user[0], known[0]}, unk...) {
		if !c.Ob(len(a.ev.Loops) >= 1, a.ev.Pos, "words are added in a loop over the characters") {
			return
		}
		if chars == nil {
			chars = a.ev.Loops[0]
		}
		if !c.Ob(chars == a.ev.Loops[0], a.ev.Pos, "all candidates of a character are found in the same round") {
			return
		}
	}
	it := chars.Iter()
	dom := chars.Domain()
	if !c.Ob(dom != nil && vg.Equiv(dom, vg.LT(it, rc)) && vg.Equiv(chars.EntryCond, vg.True) && goesOn(chars, vg.True, nil), chars.Pos, "candidates are looked for at every character of the input, once (domain %s)", ts(dom)) {
		return
	}
	pos := vg.ROff(inp, zero, it)
	suffix := vg.Slice(inp, pos, vg.Len(inp))
	for _, a := range append([]nodeAdd{user[0], known[0]}, unk...) {
		eq(a, "Position", pos)
		eq(a, "Start", it)
		eq(a, "Cost", zero)
		eq(a, "prev", vg.Nil)
		c.Ob(vg.SameUnder(a.cond, a.slot, vg.Add(it, vg.RuneCount(a.f["Surface"]))), a.ev.Pos, "a word is in the slot of the character position where it ends (got %s, surface %s)", ts(a.slot), ts(a.f["Surface"]))
	}
	morph := func(a nodeAdd, m vg.Loc) {
		x := m.At(a.f["ID"])
		eq(a, "Left", x.F("LeftID").Val())
		eq(a, "Right", x.F("RightID").Val())
		eq(a, "Weight", x.F("Weight").Val())
	}
	dictWord := func(a nodeAdd, index vg.Loc, what string) *vg.Loop {
		if !c.Ob(len(a.ev.Loops) == 2 && a.ev.Loops[1].Callback && a.ev.Loops[1].Call != nil, a.ev.Pos, "%s words come from a dictionary search", what) {
			return nil
		}
		cb := a.ev.Loops[1]
		call := cb.Call
		c.Ob(call.Callee == "(github.com/ikawaha/kagome-dict/dict.IndexTable).CommonPrefixSearchCallback", call.Pos, "%s words are all the common prefixes (call of %s)", what, call.Callee)
		if len(call.Args) >= 2 {
			c.Ob(vg.SameUnder(call.Cond, call.Args[0], index.Val()), call.Pos, "%s words are searched in the %s dictionary (got %s)", what, what, ts(call.Args[0]))
			c.Ob(vg.SameUnder(call.Cond, call.Args[1], suffix), call.Pos, "%s words are searched from the current character to the end of the input (got %s)", what, ts(call.Args[1]))
		}
		id, n := cb.Arg(0), cb.Arg(1)
		eq(a, "ID", id)
		eq(a, "Surface", vg.Slice(inp, pos, vg.Add(pos, n)))
		return cb
	}
	ucb := dictWord(user[0], udic.F("Index"), "user")
	kcb := dictWord(known[0], dic.F("Index"), "system")
	for _, f := range []string{"Left", "Right", "Weight"} {
		eq(user[0], f, zero)
	}
	morph(known[0], dic.F("Morphs"))
	if ucb == nil || kcb == nil {
		return
	}
	hasU := vg.NonNil(udic.Val())
	c.For("C10", "C01")
	c.Ob(vg.Equiv(user[0].cond, vg.And(dom, hasU)), user[0].ev.Pos, "user words are candidates whenever there is a user dictionary (added when %s)", ts(user[0].cond))
	noUser := vg.Or(vg.Not(hasU), vg.LE(vg.FinIter(ucb, 0), zero))
	wantK := vg.And(dom, noUser)
	c.Ob(vg.Equiv(known[0].cond, wantK), known[0].ev.Pos, "system words are candidates exactly when no user word starts here (added when %s)", ts(known[0].cond))
	noKnown := vg.LE(vg.FinIter(kcb, 0), zero)
	charCat := c.R.External("github.com/ikawaha/kagome-dict/dict", "Dict", "CharacterCategory")
	cat := s.E.PureCall(charCat, dic.Val(), vg.RuneAt(inp, pos))
	invoke := vg.BoolOf(dic.F("InvokeList").At(cat).Val())
	group := vg.BoolOf(dic.F("GroupList").At(cat).Val())
	ud := dic.F("UnkDict")
	dup := ud.F("IndexDup").At(cat).Val()
	first := ud.F("Index").At(cat).Val()
	wantU := vg.And(wantK, vg.Or(noKnown, invoke))
	var full, trunc *nodeAdd
	unkLoop := func(a nodeAdd) *vg.Loop {
		if !c.Ob(len(a.ev.Loops) == 2 && !a.ev.Loops[1].Callback, a.ev.Pos, "unknown words are added once for every entry of the unknown dictionary") {
			return nil
		}
		x := a.ev.Loops[1]
		c.Ob(goesOn(x, vg.True, nil), a.ev.Pos, "unknown words are added for every entry (goes on when %s)", ts(x.ContCond))
		return x
	}
	for i := range unk {
		a := &unk[i]
		x := unkLoop(*a)
		if x == nil {
			return
		}
		xi := x.Iter()
		c.For("C10", "C01", "C03")
		eq(*a, "ID", vg.Add(first, xi))
		morph(*a, ud.F("Morphs"))
		inDup := vg.LT(xi, vg.Add(dup, vg.Int(1)))
		w := vg.And(wantU, inDup)
		c.For("C10", "C01")
		c.Ob(vg.Implies(a.cond, w), a.ev.Pos, "unknown words are added only when no user word matches and either no system word matches or the category invokes them, for an entry of the category (added when %s)", ts(a.cond))
		if vg.Implies(w, a.cond) {
			c.Ob(full == nil, a.ev.Pos, "the whole unknown word is added once per entry")
			full = a
		} else {
			trunc = a
		}
		c.For("C01", "C02", "C10", "C25")
		c.Ob(vg.SameUnder(a.cond, a.f["Surface"], vg.Slice(inp, pos, vg.ROff(inp, zero, a.slot))), a.ev.Pos, "an unknown word is the text from the current character to the end of its slot (got %s)", ts(a.f["Surface"]))
	}
	c.For("C01", "C10", "C25")
	if !c.Ob(full != nil, fn.Pos(), "an unknown word is added whenever one is wanted") {
		return
	}
	// the run
	c.For("C10", "C01", "C25")
	catAt := func(k *vg.Term) *vg.Term {
		return s.E.PureCall(charCat, dic.Val(), vg.RuneAt(inp, vg.ROff(inp, zero, vg.Add(it, k))))
	}
	const max = 1024
	for _, lf := range vg.Leaves(full.slot, full.cond) {
		cond := vg.And(full.cond, lf.Cond)
		n := vg.Sub(lf.Val, it)
		plain := vg.And(cond, vg.Not(group))
		if vg.Sat(plain) {
			c.Ob(vg.SameUnder(plain, n, vg.Int(1)), full.ev.Pos, "an unknown word of an ungrouped category has one character (got %s)", ts(n))
		}
		cond = vg.And(cond, group)
		if !vg.Sat(cond) {
			continue
		}
		ok, why := c.runLength(s, n, cond, dom, it, rc, cat, catAt, max)
		c.Ob(ok, full.ev.Pos, "an unknown word of a grouped category spans the longest run of the category, at most %d characters%s", max, why)
	}
	if trunc != nil {
		sub := map[*vg.Term]*vg.Term{trunc.ev.Loops[1].Iter(): full.ev.Loops[1].Iter()}
		tc, tslot := vg.Subst(trunc.cond, sub), vg.Subst(trunc.slot, sub)
		c.Ob(vg.SameUnder(tc, vg.Add(tslot, vg.Int(1)), full.slot), trunc.ev.Pos, "the shortened unknown word lacks exactly the last character (got slot %s)", ts(tslot))
		two := vg.LE(vg.Add(it, vg.Int(2)), full.slot)
		c.Ob(vg.Implies(tc, two), trunc.ev.Pos, "the shortened unknown word is not empty (added when %s)", ts(tc))
		last := vg.RuneAt(inp, vg.ROff(inp, zero, vg.Sub(full.slot, vg.Int(1))))
		bad := vg.EQ(last, vg.Int(65533))
		c.Ob(vg.Implies(vg.And(full.cond, vg.And(two, vg.Not(bad))), tc), trunc.ev.Pos, "the shortened unknown word is added whenever it is not empty (added when %s)", ts(tc))
	} else {
		c.Ob(false, full.ev.Pos, "the unknown word without its last character is added as well")
	}
}

func sameBase(a, b *vg.Term) bool {
	for a.Op == vg.OpSlice && a.Args[1].IsConst(0) {
		a = a.Args[0]
	}
	for b.Op == vg.OpSlice && b.Args[1].IsConst(0) {
		b = b.Args[0]
	}
	return a == b
}

// runLength: n is FinIter(L,g)+k where the loop L extends the run by one
// character per round and stops exactly when it has to.
func (c *Ctx) runLength(s *vg.Summary, n, cond, dom, it, rc, cat *vg.Term, catAt func(*vg.Term) *vg.Term, max int64) (bool, string) {
	// the loop that determines the length, and the way it ended
	var lps []*vg.Loop
	for _, ev := range s.Events {
		if ev.Kind == vg.EvLoop && ev.Loop.Parent != nil && !ev.Loop.Callback {
			lps = append(lps, ev.Loop)
		}
	}
	var lp *vg.Loop
	var g int
	var k *vg.Term
	for _, l := range lps {
		for i, x := range l.Exits {
			if vg.Implies(cond, x.E) {
				if d := vg.Restrict(vg.Sub(n, vg.FinIter(l, i)), cond); d.IsInt() {
					lp, g, k = l, i, d
				}
			}
		}
	}
	if lp == nil {
		return false, " (undecided: length is " + ts(n) + ")"
	}
	i := lp.Iter()
	why := ""
	for b := int64(0); b <= 1; b++ {
		in := func(j *vg.Term) *vg.Term { return vg.LT(vg.Add(it, j), rc) }
		same := func(j *vg.Term) *vg.Term { return vg.EQ(catAt(j), cat) }
		next := vg.Add(i, vg.Int(b)) // the character this round looks at
		// entering round i means characters 0..i+b-1 belong to the run
		known := vg.And(dom, vg.LE(next, vg.Int(max)))
		if b == 0 {
			known = vg.And(known, vg.Or(vg.LT(vg.Int(0), i), vg.And(same(vg.Int(0)), in(vg.Int(0)))))
		}
		known = vg.And(known, vg.LE(vg.Int(0), i))
		cont := vg.And(known, lp.ContCond)
		if less := vg.LT(next, vg.Int(max)); vg.Implies(vg.And(cont, less), vg.LT(vg.Add(next, vg.Int(1)), vg.Int(max))) {
			// the bound is tested before a round is entered
			known, cont = vg.And(known, less), vg.And(cont, less)
		}
		ok := vg.And(in(next), vg.And(same(next), vg.LT(next, vg.Int(max))))
		if b == 0 {
			ok = vg.Or(vg.EQ(i, vg.Int(0)), ok)
		}
		if !vg.Implies(cont, ok) {
			why = " (it goes on when " + ts(vg.And(cont, vg.Not(ok))) + ")"
			continue
		}
		ex := vg.And(known, lp.Exits[g].Cond)
		var want *vg.Term
		switch k.C - b {
		case 0: // the character looked at is not part of the word
			want = vg.Or(vg.Not(in(next)), vg.Or(vg.Not(same(next)), vg.LE(vg.Int(max), next)))
		case 1: // it is
			n2 := vg.Add(next, vg.Int(1))
			want = vg.And(vg.And(in(next), vg.And(same(next), vg.LT(next, vg.Int(max)))), vg.Or(vg.LE(vg.Int(max), n2), vg.Or(vg.Not(in(n2)), vg.Not(same(n2)))))
		default:
			why = " (length is off: " + ts(n) + ")"
			continue
		}
		if !vg.Implies(ex, want) {
			why = " (it ends when " + ts(vg.And(ex, vg.Not(want))) + ")"
			continue
		}
		return true, ""
	}
	return false, why
}

// ---- forward ----

func ruleForward(c *Ctx) {
	c.For("C01", "C03", "C04", "C07", "C25")
	l := c.lattice()
	fn := c.fn(latPkg + ".Lattice.Forward")
	s := c.Eval(fn, nil)
	la, mode := s.Params[0], s.Params[1]
	list := l.load(s.E, vg.BaseMem(), la, l.list)
	dic := l.load(s.E, vg.BaseMem(), la, l.dic)
	prevC, costC := vg.FieldClassName(l.nt, l.prev), vg.FieldClassName(l.nt, l.nf["Cost"])
	// all stores are to Cost and prev of one target
	var target *vg.Term
	var tpos token.Pos
	for _, ev := range s.Events {
		if ev.Kind == vg.EvMap || ev.Kind == vg.EvCopy {
			c.Ob(vg.Root(ev.Addr).Op == vg.OpAlloc || vg.Root(ev.Addr).Op == vg.OpMakeMap || vg.Root(ev.Addr).Op == vg.OpMakeSlice, ev.Pos, "the forward search writes only costs and back pointers")
		}
		if ev.Kind != vg.EvStore || vg.Root(ev.Addr).Op == vg.OpAlloc || vg.Root(ev.Addr).Op == vg.OpMakeSlice {
			continue
		}
		cl := vg.Class(ev.Addr)
		if !c.Ob(ev.Addr.Op == vg.OpFieldAddr && (cl == prevC || cl == costC), ev.Pos, "the forward search writes only costs and back pointers of nodes (writes %s)", ts(ev.Addr)) {
			continue
		}
		t := ev.Addr.Args[0]
		if target == nil {
			target, tpos = t, ev.Pos
		}
		c.Ob(t == target, ev.Pos, "costs and back pointers are written for the node at hand (writes %s)", ts(ev.Addr))
	}
	if !c.Ob(target != nil, fn.Pos(), "the forward search sets the back pointers") {
		return
	}
	// target = list[i][j]
	row, j, ok1 := elemOf(target)
	var i *vg.Term
	if ok1 {
		var b *vg.Term
		b, i, ok1 = elemOf(row)
		ok1 = ok1 && strip(b) == list
	}
	if !c.Ob(ok1, tpos, "the node at hand is an element of the grid (got %s)", ts(target)) {
		return
	}
	li, lj := loopOfIter(i), loopOfIter(j)
	if !c.Ob(li != nil && lj != nil && lj.Parent == li && li.Parent == nil, tpos, "nodes are visited slot by slot (node %s)", ts(target)) {
		return
	}
	domI, domJ := li.Domain(), lj.Domain()
	if !c.Ob(domI != nil && domJ != nil, tpos, "undecided: the bounds of the search loops") {
		return
	}
	pos := vg.LE(vg.Int(0), li.Iter())
	c.Ob(vg.Equiv(vg.And(pos, domI), vg.And(pos, vg.LT(i, vg.Len(list)))), li.Pos, "every slot of the grid is visited, in order (domain %s)", ts(domI))
	c.Ob(goesOn(li, vg.True, strip), li.Pos, "no slot is left out (goes on when %s)", ts(li.ContCond))
	skipped := vg.Sub(i, li.Iter())
	c.Ob(skipped.IsConst(0) || skipped.IsConst(1), li.Pos, "no slot but BOS's is left out")
	c.Ob(vg.Implies(lj.EntryCond, vg.LE(vg.Int(1), i)), lj.Pos, "BOS itself gets no predecessor")
	c.Ob(vg.Implies(vg.And(pos, vg.And(domI, vg.LE(vg.Int(1), i))), lj.EntryCond), lj.Pos, "no slot is skipped (visited when %s)", ts(lj.EntryCond))
	c.Ob(vg.SameUnder(domI, j, lj.Iter()) && vg.Equiv(vg.And(lj.EntryCond, domJ), vg.And(lj.EntryCond, vg.LT(lj.Iter(), vg.Len(row)))), lj.Pos, "every node of a slot is visited (domain %s)", ts(domJ))
	c.Ob(vg.Implies(vg.And(lj.EntryCond, domJ), lj.ContCond), lj.Pos, "no node of a slot is skipped (continues when %s)", ts(lj.ContCond))

	// the predecessor loop
	ld := func(p *vg.Term, f string) *vg.Term {
		return s.E.Load(vg.BaseMem(), vg.FAddr(p, l.nt, l.nf[f]), l.nodeField(l.nf[f]))
	}
	bm := lj.BackMem()
	if !c.Ob(bm != nil, lj.Pos, "undecided: no round of the search completes") {
		return
	}
	pf := s.E.Load(bm, vg.FAddr(target, l.nt, l.prev), l.nodePtr)
	cf := s.E.Load(bm, vg.FAddr(target, l.nt, l.nf["Cost"]), l.nodeField(l.nf["Cost"]))
	cj := vg.And(lj.EntryCond, domJ)
	pf = vg.Restrict(pf, cj)
	var lk *vg.Loop
	for _, ev := range s.Events {
		if ev.Kind == vg.EvLoop && ev.Loop.Parent == lj {
			for _, m := range ev.Loop.Mus() {
				if types.Identical(m.Type(), l.nodePtr) && m.Init == vg.Nil {
					lk = ev.Loop
				}
			}
		}
	}
	if !c.Ob(lk != nil, lj.Pos, "for every node its best predecessor is searched, starting without one") {
		return
	}
	domK := lk.Domain()
	if !c.Ob(domK != nil, lk.Pos, "undecided: the bounds of the predecessor loop") {
		return
	}
	start := ld(target, "Start")
	preds := s.E.Load(vg.BaseMem(), vg.ElemAddr(list, start, l.slotT), l.slotT)
	c.For("C03", "C01", "C25")
	k := lk.Iter()
	c.Ob(vg.Equiv(strip(vg.And(cj, domK)), strip(vg.And(cj, vg.LT(k, vg.Len(preds))))), lk.Pos, "all nodes that end where this one starts are considered (domain %s)", ts(domK))
	c.Ob(vg.Implies(strip(vg.And(cj, domK)), strip(lk.ContCond)), lk.Pos, "all nodes that end where this one starts are considered (goes on when %s)", ts(lk.ContCond))
	c.Ob(vg.Implies(cj, lk.EntryCond), lk.Pos, "predecessors are searched for every node (only when %s)", ts(lk.EntryCond))
	n := s.E.Load(vg.BaseMem(), vg.ElemAddr(preds, k, l.nodePtr), l.nodePtr)
	var mp, mc *vg.Mu
	for _, m := range lk.Mus() {
		if types.Identical(m.Type(), l.nodePtr) && m.Init == vg.Nil {
			mp = m
		} else if b, ok := m.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && m.Closed == nil {
			mc = m
		}
	}
	if !c.Ob(mp != nil && mc != nil && mp.Next != nil && mc.Next != nil, lk.Pos, "undecided: best cost and predecessor so far") {
		return
	}
	// what the node has in the end is what the loop found
	fin := func(m *vg.Mu) *vg.Term { return lk.FinalAny(s.E, m.Value()) }
	c.Ob(pf == fin(mp), lk.Pos, "the node's back pointer is the best predecessor found (got %s)", ts(pf))
	cfw := fin(mc)
	if mc.Type() != l.nodeField(l.nf["Cost"]) {
		cfw = vg.Trunc(cfw, l.nodeField(l.nf["Cost"]))
	}
	c.Ob(vg.SameUnder(cj, cf, cfw) || vg.SameUnder(vg.And(cj, vg.NonNil(pf)), cf, cfw), lk.Pos, "the node's accumulated cost is that of the best predecessor (got %s)", ts(cf))

	sp := c.spec("ForwardTotal", dic, mode, n, target)
	total := sp.Ret[0]
	reach0 := vg.NonNil(ld(n, "prev"))
	c.For("C03", "C01", "C04")
	var okAny bool
	var why string
	in := strip(vg.And(cj, domK))
	normal := c.constOf(latPkg, "Normal")
	c.Ob(normal.IsConst(1) && c.constOf(latPkg, "Search").IsConst(2) && c.constOf(latPkg, "Extended").IsConst(3), fn.Pos(), "the modes are told apart by their documented order")
	np, nc := strip(mp.Next), strip(mc.Next)
	first := []*vg.Term{
		vg.LE(start, vg.Int(0)), vg.EQ(start, vg.Int(0)),
		vg.EQ(ld(n, "ID"), vg.Int(-1)), vg.EQ(ld(n, "Class"), vg.Int(0)),
	}
	var better []*vg.Term
	better = append(better, vg.Or(vg.EQ(mp.Value(), vg.Nil), vg.LT(total, mc.Value())))
	if mc.Init.IsInt() && mc.Init.C > 1<<31-1 {
		better = append(better, vg.LT(total, mc.Value()))
	}
	for _, f := range first {
		for _, b := range better {
			upd := vg.And(vg.Or(reach0, f), b)
			wp := vg.Ite(upd, n, mp.Value())
			wc := vg.Ite(upd, total, mc.Value())
			p1, p2 := vg.SameUnder(in, np, wp), vg.SameUnder(in, nc, wc)
			if p1 && p2 {
				okAny = true
			} else if why == "" {
				d := vg.And(in, vg.Not(vg.EqVal(np, wp)))
				if p1 {
					d = vg.And(in, vg.Not(vg.EqVal(nc, wc)))
				}
				why = " (differs when " + ts(d) + ")"
			}
		}
	}
	c.Ob(okAny, lk.Pos, "a predecessor that BOS reaches replaces the best one exactly when its total cost — accumulated cost, connection cost unless a user word is involved, word cost, length penalty outside the normal mode, saturated — is smaller%s", why)
}

// loopOfIter is the loop whose counter t is, up to a constant.
func loopOfIter(t *vg.Term) *vg.Loop {
	var it *vg.Term
	n := 0
	vg.Any(t, func(x *vg.Term) bool {
		if x.Op == vg.OpIter {
			it = x
			n++
		}
		return false
	})
	if it == nil || !vg.Sub(t, it).IsInt() {
		return nil
	}
	return it.Loop
}

// ---- backward ----

func ruleBackward(c *Ctx) {
	c.For("C01", "C02", "C04", "C11")
	l := c.lattice()
	fn := c.fn(latPkg + ".Lattice.Backward")
	s := c.Eval(fn, nil)
	la, mode := s.Params[0], s.Params[1]
	list := l.load(s.E, vg.BaseMem(), la, l.list)
	out0 := l.load(s.E, vg.BaseMem(), la, l.out)
	oa := vg.FAddr(la, l.lt, l.out)
	for _, ev := range s.Events {
		switch ev.Kind {
		case vg.EvStore, vg.EvMap, vg.EvCopy:
			r := vg.Root(ev.Addr)
			c.Ob(ev.Addr == oa || r.Op == vg.OpAlloc || r.Op == vg.OpMakeSlice || r.Op == vg.OpMakeMap, ev.Pos, "the backward pass writes only the output (writes %s)", ts(ev.Addr))
		}
	}
	// the chain
	var chain *vg.Loop
	var mp, mo *vg.Mu
	for _, ev := range s.Events {
		if ev.Kind != vg.EvLoop || ev.Loop.Parent != nil {
			continue
		}
		for _, m := range ev.Loop.Mus() {
			if types.Identical(m.Type(), l.nodePtr) {
				chain, mp = ev.Loop, m
			}
		}
	}
	if !c.Ob(chain != nil, fn.Pos(), "the backward pass walks the back pointers") {
		return
	}
	for _, m := range chain.Mus() {
		if types.Identical(m.Type(), l.slotT) {
			mo = m
		}
	}
	if !c.Ob(mo != nil && mo.Next != nil && mp.Next != nil, chain.Pos, "undecided: output and current node of the walk") {
		return
	}
	n := vg.Len(list)
	empty := vg.LE(n, vg.Int(0))
	lastRow := s.E.Load(vg.BaseMem(), vg.ElemAddr(list, vg.Sub(n, vg.Int(1)), l.slotT), l.slotT)
	eos := s.E.Load(vg.BaseMem(), vg.ElemAddr(lastRow, vg.Int(0), l.nodePtr), l.nodePtr)
	walks := vg.And(chain.EntryCond, vg.NonNil(strip(mp.Init)))
	c.Ob(vg.Implies(vg.Not(empty), chain.EntryCond) && vg.Implies(walks, vg.Not(empty)), chain.Pos, "the walk takes place unless nothing was built (only when %s)", ts(chain.EntryCond))
	c.Ob(vg.SameUnder(vg.Not(empty), strip(mp.Init), eos), chain.Pos, "the walk starts at EOS (got %s)", ts(mp.Init))
	c.Ob(vg.SameUnder(vg.Not(empty), mo.Init, out0) || emptied(vg.Restrict(mo.Init, vg.Not(empty))), chain.Pos, "the walk adds to the lattice's output (got %s)", ts(mo.Init))
	p := mp.Value()
	next := s.E.Load(vg.BaseMem(), vg.FAddr(p, l.nt, l.prev), l.nodePtr)
	in := vg.And(chain.EntryCond, vg.NonNil(p))
	c.Ob(vg.SameUnder(in, strip(mp.Next), next), chain.Pos, "each step goes to the back pointer of the current node (got %s)", ts(mp.Next))
	var stop *vg.Term = vg.False
	for _, g := range chain.Exits {
		stop = vg.Or(stop, g.Cond)
	}
	c.Ob(vg.Equiv(vg.And(chain.EntryCond, stop), vg.And(chain.EntryCond, vg.EQ(p, vg.Nil))), chain.Pos, "the walk ends exactly at BOS (ends when %s)", ts(stop))
	final := l.load(s.E, s.Mem, la, l.out)
	c.Ob(vg.SameUnder(vg.And(s.Cond, vg.Not(empty)), final, chain.FinalAny(s.E, mo.Value())), chain.Pos, "the output is what the walk collected (got %s)", ts(final))

	// one step
	sp := c.spec("BackStep", mode, p, mo.Value())
	same, cc, x, y := vg.SameContentMap(in, s.E, chain.BackMem(), mo.Next, l.nodePtr, l.fieldsOf(s), sp.E, sp.Mem, sp.Ret[0], l.nodePtr, l.fieldsOf(sp))
	c.Ob(same, chain.Pos, "every node on the best path is output once, except that extended mode outputs one node per character of an unknown word, with its ID, position, start and text; when %s got %s, expected %s", ts(cc), ts(x), ts(y))
}

// fieldsOf maps a pointer to a node made by the function to the values of the
// node's fields.
func (l *lat) fieldsOf(s *vg.Summary) func(*vg.Term) *vg.Term {
	return func(x *vg.Term) *vg.Term {
		if x.Op != vg.OpAlloc {
			return x
		}
		orig := x
		sub := map[*vg.Term]*vg.Term{}
		// the instance of another round
		if len(x.Args) == 1 {
			for _, ev := range s.Events {
				if ev.Kind == vg.EvStore && ev.Addr.Op == vg.OpFieldAddr && ev.Addr.Args[0].Op == vg.OpAlloc && ev.Addr.Args[0].S == x.S && len(ev.Addr.Args[0].Args) == 0 && len(ev.Loops) > 0 {
					orig = ev.Addr.Args[0]
					sub[ev.Loops[len(ev.Loops)-1].Iter()] = x.Args[0]
				}
			}
		}
		var fs []*vg.Term
		for i := 0; i < l.nt.Underlying().(*types.Struct).NumFields(); i++ {
			v := vg.Hole
			for _, ev := range s.Events {
				if ev.Kind == vg.EvStore && ev.Addr == vg.FAddr(orig, l.nt, i) {
					v = ev.Val
				}
			}
			if v == vg.Hole {
				v = zeroOf(l.nodeField(i))
			}
			fs = append(fs, vg.Subst(v, sub))
		}
		return vg.Struct(l.nt, fs...)
	}
}
