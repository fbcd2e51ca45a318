package vg

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// A function that walks over a text is read as a machine: its locations are
// loop heads, its registers the loop variables, and a step is one round of a
// loop. Two machines over the same text are compared by building their
// product over an abstract domain in which registers are constants, text
// positions relative to the common cursor, or symbols (equal symbols stand
// for equal values). Every pair of steps that can happen together must lead
// to equal results or to a pair of heads that is compared in turn.

// walks reports whether l walks over the tracked text: t, the loop's
// conditions or its exits read it at a place that depends on the round.
func (l *Loop) walks(t *Term) bool {
	if l.track == nil {
		return false
	}
	memo := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if memo[x] || !x.Varies(l) {
			return false
		}
		memo[x] = true
		if x.Op == OpApp && len(x.Args) > 0 && Contains(x.Args[0], l.track) {
			return true
		}
		if (x.Op == OpROff || x.Op == OpIndexAddr) && Contains(x.Args[0], l.track) {
			return true
		}
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	if rec(t) || rec(l.ContCond) {
		return true
	}
	for _, g := range l.Exits {
		if rec(g.Cond) {
			return true
		}
	}
	return false
}

// Diff is a difference between two machines.
type Diff struct {
	Pos  token.Pos
	Cond *Term
	What string
	A, B *Term
}

type machine struct {
	s     *Summary
	text  *Term
	loops []*Loop // the loops that are locations, in program order
}

type mstate struct {
	loop *Loop // nil: returned (or not entered yet)
	done bool
	env  map[*Term]*Term
	pos  *Term // the cursor
	ret  []*Term
	from token.Pos
}

func newMachine(s *Summary, text *Term) *machine {
	m := &machine{s: s, text: text}
	used := map[*Loop]bool{}
	var all []*Loop
	for _, ev := range s.Events {
		if ev.Kind == EvLoop && ev.Loop != nil {
			dup := false
			for _, l := range all {
				dup = dup || l == ev.Loop
			}
			if !dup {
				all = append(all, ev.Loop)
			}
		}
	}
	seen := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Loop != nil && !used[t.Loop] {
			used[t.Loop] = true
			l := t.Loop
			mark(l.ContCond)
			for _, g := range l.Exits {
				mark(g.Cond)
			}
			for _, u := range l.Mus() {
				mark(u.Init)
				mark(u.Next)
			}
		}
		for _, a := range t.Args {
			mark(a)
		}
	}
	for _, r := range s.Ret {
		mark(r)
	}
	mark(s.Cond)
	for ch := true; ch; {
		ch = false
		for _, l := range all {
			if used[l] && !seen[l.EntryCond] {
				mark(l.EntryCond)
				ch = true
			}
		}
	}
	for _, l := range all {
		if used[l] {
			m.loops = append(m.loops, l)
		}
	}
	return m
}

// cursor is the term, in l, of the place in the text that the round looks at.
func (m *machine) cursor(l *Loop) *Term {
	var best *Term
	see := func(o *Term) {
		if o.Varies(l) && (best == nil || Sub(best, o) != nil && lessPos(o, best)) {
			best = o
		}
	}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] || !t.Varies(l) {
			return
		}
		seen[t] = true
		if t.Op == OpApp && t.S == "runeat" && t.Args[0] == m.text {
			see(t.Args[1])
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(l.ContCond)
	for _, g := range l.Exits {
		rec(g.Cond)
	}
	for _, u := range l.Mus() {
		rec(u.Next)
	}
	return best
}

// lessPos orders the places of one round.
func lessPos(a, b *Term) bool {
	if a.Op == OpROff && b.Op == OpROff && a.Args[0] == b.Args[0] && a.Args[1] == b.Args[1] {
		d := Sub(b.Args[2], a.Args[2])
		return d.IsInt() && d.C > 0
	}
	if b.Op == OpROff && b.Args[1] == a {
		return true
	}
	return false
}

func (m *machine) roff(k *Term) *Term { return ROff(m.text, Int(0), k) }

// runeIndex is k with roff(text,0,k) == o, or nil.
func (m *machine) runeIndex(o *Term) *Term {
	if o.IsConst(0) {
		return Int(0)
	}
	if o.Op == OpROff && o.Args[0] == m.text && o.Args[1].IsConst(0) {
		return o.Args[2]
	}
	return nil
}

func copyEnv(e map[*Term]*Term) map[*Term]*Term {
	r := make(map[*Term]*Term, len(e)+8)
	for k, v := range e {
		r[k] = v
	}
	return r
}

type outcome struct {
	cond *Term
	st   mstate
}

// iterOf is the number of the round, from the cursor.
func (m *machine) setPos(st *mstate, fresh bool) error {
	l := st.loop
	it := l.Iter()
	cur := m.cursor(l)
	if cur == nil {
		return fmt.Errorf("a loop does not read the text (round %s of %s)", l.ContCond, l.Fn)
	}
	if cur.Op == OpROff && cur.Args[0] == m.text && Contains(cur.Args[2], it) {
		x := cur.Args[2]
		base := Subst(cur.Args[1], st.env)
		if !base.IsConst(0) {
			k := m.runeIndex(base)
			if k == nil {
				return fmt.Errorf("the cursor starts at %s", base)
			}
			x = Add(x, k)
		}
		off := Sub(x, it)
		if Contains(off, it) {
			return fmt.Errorf("the cursor is %s", cur)
		}
		off = Subst(off, st.env)
		if fresh {
			st.pos = off
		}
		st.env[it] = Sub(st.pos, off)
		return nil
	}
	v := Subst(cur, st.env)
	k := m.runeIndex(v)
	if k == nil {
		return fmt.Errorf("the cursor is %s", v)
	}
	st.pos = k
	return nil
}

// enter lists the ways to go on after the loops before index i among the
// children of parent.
func (m *machine) enter(st mstate, parent *Loop, after *Loop, cond, facts *Term) ([]outcome, error) {
	var out []outcome
	past := after == nil
	for _, l := range m.loops {
		if l == after {
			past = true
			continue
		}
		if !past || l.Parent != parent {
			continue
		}
		ec := Subst(l.EntryCond, st.env)
		c := And(cond, ec)
		if Sat(And(facts, c)) {
			n := mstate{loop: l, env: copyEnv(st.env), from: l.Pos, pos: st.pos}
			var regs []*Mu
			for _, u := range l.Mus() {
				if u.Closed == nil {
					regs = append(regs, u)
				}
			}
			init := map[*Term]*Term{}
			for _, u := range regs {
				init[u.Term] = Subst(u.Init, st.env)
			}
			for _, sp := range splitRegs(c, facts, regs, init) {
				x := n
				x.env = copyEnv(n.env)
				for k, v := range sp.vals {
					x.env[k] = v
				}
				if err := m.setPos(&x, true); err != nil {
					return nil, err
				}
				out = append(out, outcome{sp.cond, x})
			}
		}
		cond = And(cond, Not(ec))
		if !Sat(And(facts, cond)) {
			return out, nil
		}
	}
	if parent != nil {
		o, err := m.round(st, parent, cond, facts)
		return append(out, o...), err
	}
	n := mstate{done: true, from: st.from}
	for _, r := range m.s.Ret {
		n.ret = append(n.ret, Subst(r, st.env))
	}
	cond = And(cond, Subst(m.s.Cond, st.env))
	return append(out, outcome{cond, n}), nil
}

type regSplit struct {
	cond *Term
	vals map[*Term]*Term
}

// splitRegs separates the cases of conditional register values.
func splitRegs(cond, facts *Term, regs []*Mu, vals map[*Term]*Term) []regSplit {
	out := []regSplit{{cond, map[*Term]*Term{}}}
	for _, u := range regs {
		var next []regSplit
		for _, o := range out {
			for _, lf := range Leaves(vals[u.Term], And(facts, o.cond)) {
				v := copyEnv(o.vals)
				v[u.Term] = lf.Val
				next = append(next, regSplit{And(o.cond, lf.Cond), v})
			}
		}
		out = next
	}
	return out
}

// round ends a round of l: it goes round again or leaves.
func (m *machine) round(st mstate, l *Loop, cond, facts *Term) ([]outcome, error) {
	var out []outcome
	for g, ex := range l.Exits {
		c := And(cond, Subst(ex.Cond, st.env))
		if !Sat(And(facts, c)) {
			continue
		}
		n := mstate{env: copyEnv(st.env), pos: st.pos, from: l.Pos}
		for i := range l.Exits {
			x := mk(Term{Op: OpExit, Loop: l, N: i})
			if i == g {
				n.env[x] = True
			} else {
				n.env[x] = False
			}
		}
		n.env[l.finIterTerm(g)] = st.env[l.Iter()]
		for _, u := range l.Mus() {
			if u.Closed == nil {
				n.env[mk(Term{Op: OpFinMu, Loop: l, S: u.Key, N: g, Typ: u.Term.Typ})] = st.env[u.Term]
			}
			delete(n.env, u.Term)
		}
		delete(n.env, l.Iter())
		o, err := m.enter(n, l.Parent, l, c, facts)
		if err != nil {
			return nil, err
		}
		out = append(out, o...)
	}
	c := And(cond, Subst(l.ContCond, st.env))
	if Sat(And(facts, c)) {
		var regs []*Mu
		vals := map[*Term]*Term{}
		for _, u := range l.Mus() {
			if u.Closed == nil {
				regs = append(regs, u)
				if u.Next == nil {
					return nil, fmt.Errorf("a variable of the loop is not understood")
				}
				vals[u.Term] = Subst(u.Next, st.env)
			}
		}
		it := l.Iter()
		for _, sp := range splitRegs(c, facts, regs, vals) {
			x := mstate{loop: l, env: copyEnv(st.env), pos: st.pos, from: l.Pos}
			// what the round's inner loops left behind is gone
			for k := range x.env {
				if k.Loop != nil && k.Loop != l && inside(k.Loop, l) {
					delete(x.env, k)
				}
			}
			for k, v := range sp.vals {
				x.env[k] = v
			}
			cur := m.cursor(l)
			if cur != nil && cur.Op == OpROff && Contains(cur.Args[2], it) {
				x.pos = Add(st.pos, Int(1))
			}
			if err := m.setPos(&x, false); err != nil {
				return nil, err
			}
			out = append(out, outcome{sp.cond, x})
		}
	}
	return out, nil
}

func inside(x, l *Loop) bool {
	for x = x.Parent; x != nil; x = x.Parent {
		if x == l {
			return true
		}
	}
	return false
}

func (m *machine) step(st mstate, facts *Term) ([]outcome, error) {
	// inner loops of the round first
	for _, l := range m.loops {
		if l.Parent == st.loop {
			return m.enter(st, st.loop, nil, True, facts)
		}
	}
	return m.round(st, st.loop, True, facts)
}

// start lists the ways to begin.
func (m *machine) start(facts *Term) ([]outcome, error) {
	return m.enter(mstate{env: map[*Term]*Term{}, pos: Int(0), from: m.s.Fn.Pos()}, nil, nil, True, facts)
}

// product explores two machines together.
type product struct {
	a, b  *machine
	text  *Term
	seen  map[string]bool
	wide  map[string]map[int64]bool
	Diffs []Diff
	Pairs int // pairs of heads
	Steps int // pairs of steps compared
	err   error
	rc    *Term
}

// CompareWalks compares two functions that walk over text. It returns the
// differences, the number of pairs of loop heads and of pairs of steps.
func CompareWalks(a, b *Summary, text *Term) (diffs []Diff, pairs, steps int, err error) {
	p := &product{a: newMachine(a, text), b: newMachine(b, text), text: text, seen: map[string]bool{}, wide: map[string]map[int64]bool{}}
	p.rc = appNorm("runecount", types.Typ[types.Int], []*Term{text})
	oa, err := p.a.start(True)
	if err != nil {
		return nil, 0, 0, err
	}
	for _, x := range oa {
		ob, err := p.b.start(x.cond)
		if err != nil {
			return nil, 0, 0, err
		}
		for _, y := range ob {
			p.visit(x.st, y.st, And(x.cond, y.cond), Int(0), True, 0)
		}
	}
	return p.Diffs, p.Pairs, p.Steps, p.err
}

func offset(pos, base *Term) (int64, bool) {
	d := Sub(pos, base)
	return d.C, d.IsInt()
}

// visit compares a pair of states that are reached together under cond; base
// is the cursor of the last common head and facts what is known there.
func (p *product) visit(x, y mstate, cond, base, facts *Term, depth int) {
	if p.err != nil || !Sat(And(facts, cond)) {
		return
	}
	if depth > 12 || p.Pairs > 4000 {
		p.err = fmt.Errorf("the walks do not keep together")
		return
	}
	if x.done && y.done {
		p.Steps++
		p.results(x, y, And(facts, cond))
		return
	}
	var dx, dy int64
	ok := true
	if !x.done {
		dx, ok = offset(x.pos, base)
	}
	if ok && !y.done {
		dy, ok = offset(y.pos, base)
	}
	if !ok {
		p.err = fmt.Errorf("the cursor moves by an amount that depends on the text")
		return
	}
	if !x.done && !y.done && dx == dy && (dx > 0 || depth == 0) {
		p.rebase(x, y, cond, base, dx, depth)
		return
	}
	if y.done || !x.done && dx <= dy {
		o, err := p.a.step(x, And(facts, cond))
		if err != nil {
			p.err = err
			return
		}
		for _, s := range o {
			p.visit(s.st, y, And(cond, s.cond), base, facts, depth+1)
		}
		return
	}
	o, err := p.b.step(y, And(facts, cond))
	if err != nil {
		p.err = err
		return
	}
	for _, s := range o {
		p.visit(x, s.st, And(cond, s.cond), base, facts, depth+1)
	}
}

// atEnd reads the offset of the last rune as the length of the text.
func (p *product) results(x, y mstate, cond *Term) {
	if len(x.ret) != len(y.ret) {
		p.err = fmt.Errorf("number of results")
		return
	}
	for i := range x.ret {
		u, v := p.norm(x.ret[i], cond), p.norm(y.ret[i], cond)
		if !SameUnder(cond, u, v) {
			c := And(cond, Not(EqVal(Restrict(u, cond), Restrict(v, cond))))
			p.Diffs = append(p.Diffs, Diff{Pos: x.from, Cond: c, What: fmt.Sprintf("result %d", i+1), A: Restrict(u, cond), B: Restrict(v, cond)})
		}
	}
}

// norm replaces offsets at or after the end of the text by its length.
func (p *product) norm(t, cond *Term) *Term {
	m := map[*Term]*Term{}
	Any(t, func(x *Term) bool {
		if x.Op == OpROff && x.Args[0] == p.text && x.Args[1].IsConst(0) && Implies(cond, LE(p.rc, x.Args[2])) {
			m[x] = Len(p.text)
		}
		return false
	})
	return Subst(t, m)
}

// rebase makes the common cursor the base and forgets the way to it.
func (p *product) rebase(x, y mstate, cond, base *Term, d int64, depth int) {
	k := mk(Term{Op: OpFree, S: "cursor", Typ: types.Typ[types.Int]})
	first := base.IsInt()
	move := map[*Term]*Term{}
	if first {
		if d > 0 {
			move[p.a.roff(Int(d))] = p.a.roff(k)
		} else {
			k = Int(0)
		}
	} else {
		move[base] = Sub(k, Int(d))
	}
	names := map[string]*Term{}
	nsym := 0
	sym := func(kind, key string) *Term {
		if t, ok := names[key]; ok {
			return t
		}
		nsym++
		t := mk(Term{Op: OpFree, S: fmt.Sprintf("%s#%d", kind, nsym), Typ: types.Typ[types.Int]})
		names[key] = t
		return t
	}
	nf0 := True
	if !k.IsInt() {
		nf0 = And(LE(Int(1), k), LE(k, p.rc))
	}
	nf := nf0
	isSym := func(t *Term) bool {
		return t.Op == OpFree && (strings.HasPrefix(t.S, "at#") || strings.HasPrefix(t.S, "val#"))
	}
	earlier := func(key string) *Term {
		t := sym("at", key)
		nf = And(nf, And(LE(Int(0), t), LT(t, k)))
		return t
	}
	// a value that is widened in one register is widened in all
	wideVal := map[int64]bool{}
	valKey := func(v *Term) string { return "v" + fmt.Sprint(v.ID) }
	widen := func(where string, v *Term) *Term {
		w := p.wide[where]
		if w == nil {
			w = map[int64]bool{}
			p.wide[where] = w
		}
		w[v.C] = true
		if len(w) > 3 {
			wideVal[v.C] = true
		}
		if wideVal[v.C] {
			return sym("val", valKey(v))
		}
		return v
	}
	abst := func(where string, v *Term) *Term {
		v = Subst(v, move)
		if v == True || v == False || v == Nil {
			return v
		}
		if v.IsInt() {
			return widen(where, v)
		}
		if v.Op == OpConst || k.IsInt() {
			return v
		}
		if o := p.a.runeIndex(v); o != nil {
			if o == k {
				return v
			}
			return p.a.roff(earlier("p" + fmt.Sprint(o.ID)))
		}
		if v == k {
			return v
		}
		if Contains(v, k) {
			if z := Sub(v, k); z.IsInt() && z.C < 0 {
				return earlier("p" + fmt.Sprint(v.ID))
			}
			return sym("val", "v"+fmt.Sprint(v.ID))
		}
		if isSym(v) && strings.HasPrefix(v.S, "at#") {
			return earlier("p" + fmt.Sprint(v.ID))
		}
		if v.Op == OpLin {
			// an invariant plus or minus a counter
			l := toLin(v)
			inv, ctr := linear{co: map[*Term]int64{}}, linear{c: l.c, co: map[*Term]int64{}}
			for t, n := range l.co {
				if Any(t, isSym) {
					ctr.co[t] = n
				} else {
					inv.co[t] = n
				}
			}
			sign := int64(1)
			if ts := ctr.sorted(); len(ts) > 0 && ctr.co[ts[0]] < 0 || len(ts) == 0 && ctr.c < 0 {
				sign = -1
				ctr = linear{}.add(ctr, -1)
			}
			w := ctr.term()
			if len(inv.co) > 0 {
				if w.IsInt() {
					if w = widen(where, w); w.IsInt() {
						return v
					}
				} else {
					w = sym("val", valKey(w))
				}
				return Add(inv.term(), Mul(Int(sign), w))
			}
		}
		if Any(v, isSym) {
			return sym("val", valKey(v))
		}
		return v
	}
	key := ""
	redo := func(m *machine, s mstate, side string) (mstate, bool) {
		n := mstate{loop: s.loop, env: map[*Term]*Term{}, pos: k, from: s.from}
		ks := make([]*Term, 0, len(s.env))
		for t := range s.env {
			ks = append(ks, t)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
		key += side + s.loop.Key + ":"
		for _, t := range ks {
			if t == s.loop.Iter() {
				continue
			}
			v := abst(side+s.loop.Key+fmt.Sprint(t.ID), s.env[t])
			n.env[t] = v
			key += fmt.Sprintf("%d=%d,", t.ID, v.ID)
		}
		if err := m.setPos(&n, false); err != nil {
			p.err = err
			return n, false
		}
		return n, true
	}
	if _, ok := redo(p.a, x, "a"); !ok {
		return
	}
	if _, ok := redo(p.b, y, "b"); !ok {
		return
	}
	key, nsym, names, nf = "", 0, map[string]*Term{}, nf0
	nx, ok := redo(p.a, x, "a")
	if !ok {
		return
	}
	ny, ok := redo(p.b, y, "b")
	if !ok {
		return
	}
	// what is known besides the text read so far
	keep := project(And(cond, True), func(a *Term) bool {
		return Any(a, func(t *Term) bool {
			return t.Op == OpFree || t.Op == OpROff || t.Op == OpApp && len(t.Args) > 0 && t.Args[0] == p.text
		})
	})
	key += fmt.Sprint(keep.ID, k.ID)
	if p.seen[key] {
		return
	}
	p.seen[key] = true
	p.Pairs++
	facts := And(nf, keep)
	o, err := p.a.step(nx, facts)
	if err != nil {
		p.err = err
		return
	}
	for _, s := range o {
		p.visit(s.st, ny, s.cond, k, facts, 1)
	}
}

// project forgets the atoms that satisfy drop.
func project(c *Term, drop func(*Term) bool) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(t *Term) *Term {
		if t.Op != OpITE {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		h, l := rec(t.Args[1]), rec(t.Args[2])
		var r *Term
		if drop(t.Args[0]) {
			r = Or(h, l)
		} else {
			r = Ite(atom(t.Args[0]), h, l)
		}
		memo[t] = r
		return r
	}
	return rec(c)
}
