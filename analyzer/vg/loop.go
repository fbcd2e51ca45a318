package vg

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loop is one loop instance of the evaluated (inlined) program.
type Loop struct {
	Key      string
	Fn       *ssa.Function
	Header   *ssa.BasicBlock
	Parent   *Loop
	guard    *guard
	Callback bool // body is a callback of an external call
	Call     *Event
	Pos      token.Pos

	EntryCond *Term
	entryMem  *Mem
	mus       map[string]*Mu
	stores    map[*Term]bool // addresses stored in the loop
	newStores map[*Term]bool
	havocs    map[*Term]bool
	newHavocs map[*Term]bool

	backs    []state
	ContCond *Term
	Exits    []*ExitGroup
	Events   []*Event
	blocked  map[string]bool
	finIter  map[int]*Term
	Rune     bool
	CbRes    []*Term
	cbArgs   []*Term
	CbIndex  int
	track    *Term
}

// Mu is a loop-carried variable.
type Mu struct {
	Key    string
	Term   *Term
	Init   *Term
	Next   *Term
	Closed *Term
	tries  int   // closed forms that failed
	length *Term // the length of a growing sequence
	busy   bool
	typ    types.Type
	addr   *Term // memory cell, or nil for a phi
	phi    *ssa.Phi
	incr   *Term // the conditional increment, for counters
}

// ExitGroup is a set of exit edges that leave the loop in the same way.
type ExitGroup struct {
	Index  int
	Target *ssa.BasicBlock
	Edges  []*ExitEdge
	Cond   *Term // in-loop condition, relative to the loop entry
	Header bool  // consists of the header edge alone
	E      *Term // condition after the loop
	st     state
	phis   map[*ssa.Phi]*Term
}

type ExitEdge struct {
	From *ssa.BasicBlock
	to   *ssa.BasicBlock
	Cond *Term
	st   state
	Phis map[*ssa.Phi]*Term
	rot  map[*ssa.Phi]*Term // header variables when the guard fails after a round
}

// guard is a loop variable the loop only goes on with at its initial value,
// as in "for i := 0; err == nil && i < n; i++": a round that changes it is the
// last one, so leaving is put at the end of that round.
type guard struct {
	phi   *ssa.Phi
	at    *ssa.BasicBlock // where it is tested
	to    *ssa.BasicBlock // where the loop goes when the test fails
	val   *Term
	heads map[*ssa.BasicBlock]bool
}

func guardOf(fn *ssa.Function, nl *natLoop) *guard {
	g := &guard{heads: map[*ssa.BasicBlock]bool{}}
	for b := nl.header; ; {
		g.heads[b] = true
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				if b != nl.header {
					return nil
				}
			case *ssa.BinOp, *ssa.UnOp, *ssa.If, *ssa.Convert, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
					return nil
				}
			default:
				return nil
			}
		}
		cond, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return nil
		}
		stay := 0
		if !nl.blocks[b.Succs[0]] {
			stay = 1
		}
		if !nl.blocks[b.Succs[stay]] || nl.blocks[b.Succs[1-stay]] {
			return nil
		}
		if phi, val := heldBy(cond.Cond, stay == 0, nl.header); phi != nil && g.phi == nil {
			g.phi, g.val, g.at, g.to = phi, val, b, b.Succs[1-stay]
		}
		b = b.Succs[stay]
		if len(b.Preds) != 1 || !nl.blocks[b] {
			break
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); !ok || g.heads[b] {
			break
		}
		if nl.blocks[b.Succs[0]] == nl.blocks[b.Succs[1]] {
			break
		}
		pure := true
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp, *ssa.UnOp, *ssa.If, *ssa.DebugRef:
			case *ssa.Call:
				bi, ok := in.Call.Value.(*ssa.Builtin)
				pure = pure && ok && bi.Name() == "len"
			default:
				pure = false
			}
		}
		if !pure {
			break
		}
	}
	if g.phi == nil {
		return nil
	}
	for _, v := range outerUses(fn, nl) {
		if p, ok := v.(*ssa.Phi); !ok || p.Block() != nl.header {
			return nil
		}
	}
	return g
}

// heldBy: the condition (or its negation) says the loop variable has a constant value.
func heldBy(v ssa.Value, yes bool, header *ssa.BasicBlock) (*ssa.Phi, *Term) {
	isPhi := func(v ssa.Value) *ssa.Phi {
		if p, ok := v.(*ssa.Phi); ok && p.Block() == header {
			return p
		}
		return nil
	}
	switch v := v.(type) {
	case *ssa.Phi:
		if p := isPhi(v); p != nil {
			if yes {
				return p, True
			}
			return p, False
		}
	case *ssa.UnOp:
		if v.Op == token.NOT {
			return heldBy(v.X, !yes, header)
		}
	case *ssa.BinOp:
		if (v.Op == token.EQL) != yes || v.Op != token.EQL && v.Op != token.NEQ {
			return nil, nil
		}
		for _, x := range [][2]ssa.Value{{v.X, v.Y}, {v.Y, v.X}} {
			if k, ok := x[1].(*ssa.Const); ok {
				if p := isPhi(x[0]); p != nil {
					return p, constTerm(k)
				}
			}
		}
	}
	return nil, nil
}

// finalPhi is the value of a header variable after the loop.
func (l *Loop) finalPhi(e *Eval, p *ssa.Phi, t *Term) *Term {
	var r *Term
	for i := len(l.Exits) - 1; i >= 0; i-- {
		g := l.Exits[i]
		v := t
		if g.Edges[0].rot != nil {
			v = g.Edges[len(g.Edges)-1].rot[p]
			for k := len(g.Edges) - 2; k >= 0; k-- {
				v = Ite(g.Edges[k].Cond, g.Edges[k].rot[p], v)
			}
		}
		v = l.Final(e, i, Restrict(v, g.Cond))
		if r == nil {
			r = v
		} else {
			r = Ite(g.E, v, r)
		}
	}
	if r == nil {
		return t
	}
	return r
}

func (l *Loop) head(b *ssa.BasicBlock) bool {
	return b == l.Header || l.guard != nil && l.guard.heads[b]
}

func (l *Loop) Iter() *Term {
	return mk(Term{Op: OpIter, Loop: l, Typ: types.Typ[types.Int]})
}

func (l *Loop) Short() string {
	k := l.Key
	if i := strings.LastIndex(k, "/"); i >= 0 {
		k = k[i+1:]
	}
	return "<" + k + ">"
}

func (l *Loop) reset() {
	l.mus = map[string]*Mu{}
	l.stores = map[*Term]bool{}
	l.newStores = map[*Term]bool{}
	l.havocs = map[*Term]bool{}
	l.newHavocs = map[*Term]bool{}
	l.backs = nil
	l.Exits = nil
	l.blocked = map[string]bool{}
	l.finIter = map[int]*Term{}
	l.ContCond = True
	l.Events = nil
}

func (l *Loop) noteStore(a *Term) { l.newStores[a] = true }

type cellK int

const (
	cellNone cellK = iota
	cellScalar
	cellOpaque
)

func (l *Loop) cellKind(a *Term, class string) cellK {
	hit, other := false, false
	for h := range l.havocs {
		if within(a, h) {
			return cellOpaque
		}
	}
	for s := range l.stores {
		if Class(s) != class {
			continue
		}
		if s == a {
			hit = true
			continue
		}
		if !distinctAcross(s, a) {
			other = true
		}
	}
	if !hit && !other {
		return cellNone
	}
	if a.Varies(l) {
		// the same injective function of the iteration: earlier iterations
		// wrote elsewhere
		if hit && !other && a.Op == OpIndexAddr && !a.Args[0].Varies(l) && a.Args[1] == l.Iter() {
			return cellNone
		}
		return cellOpaque
	}
	if hit && !other {
		return cellScalar
	}
	return cellOpaque
}

func (l *Loop) mu(key string, typ types.Type) *Mu {
	m, ok := l.mus[key]
	if !ok {
		m = &Mu{Key: key, typ: typ, Term: mk(Term{Op: OpMu, Loop: l, S: key, Typ: typ})}
		l.mus[key] = m
	}
	return m
}

// value is the term standing for the variable inside the loop.
func (m *Mu) value() *Term {
	if m.Closed != nil {
		return m.Closed
	}
	if isBoolType(m.typ) {
		return boolAtom(m.Term)
	}
	return m.Term
}

func (l *Loop) cellMu(e *Eval, a *Term, typ types.Type) *Term {
	m := l.mu("cell:"+fmt.Sprint(a.ID), typ)
	if m.addr == nil {
		m.addr = a
		m.Init = e.load(l.entryMem, a, typ)
	}
	return m.value()
}

// MuOf returns the record of a Mu term.
func MuOf(t *Term) *Mu {
	if t.Op == OpITE && t.Args[0].Op == OpBool && t.Args[1] == True && t.Args[2] == False {
		t = t.Args[0].Args[0]
	}
	if (t.Op == OpMu || t.Op == OpFinMu || t.Op == OpSeqLoop) && t.Loop != nil {
		return t.Loop.mus[t.S]
	}
	return nil
}

// relNext merges the values at the back edges.
func (l *Loop) relNext(vals []*Term) *Term {
	if len(vals) == 0 {
		return nil
	}
	r := vals[len(vals)-1]
	for i := len(vals) - 2; i >= 0; i-- {
		r = Ite(l.backs[i].cond, vals[i], r)
	}
	return Restrict(r, l.ContCond)
}

// solve finds a closed form; reports whether something changed.
func (l *Loop) solve(m *Mu) bool {
	if m.Next == nil || l.blocked[m.Key] {
		return false
	}
	if m.Closed == nil && seqLike(m.Next, m.Term) && !l.blocked["len "+m.Key] {
		n := l.muLen(m.Term)
		if n != nil && Contains(n, m.Term) {
			n = nil
		}
		if n != m.length {
			if m.length != nil {
				n = nil
				l.blocked["len "+m.Key] = true
			}
			m.length = n
			return true
		}
	}
	if m.Closed != nil {
		// verify the closed form against the new body
		want := Subst(m.Closed, map[*Term]*Term{l.Iter(): Add(l.Iter(), Int(1))})
		okv := m.Next == want
		if !okv && m.incr != nil {
			okv = SameUnder(l.ContCond, m.Next, m.incr)
		}
		if !okv {
			okv = SameUnder(And(l.ContCond, True), m.Next, want)
		}
		if okv {
			return false
		}
		// found from the variables that were not solved yet
		m.Closed = nil
		m.incr = nil
		if m.tries++; m.tries > 2 {
			l.blocked[m.Key] = true
		}
		return true
	}
	mu := m.value()
	nx := m.Next
	set := func(c, incr *Term) bool {
		m.Closed = c
		m.incr = incr
		return true
	}
	if nx == mu {
		return set(m.Init, nil)
	}
	// induction variable
	if integerish(m.Term) {
		if nx.Op != OpITE {
			d := Sub(nx, mu)
			if d.IsInt() {
				return set(Add(m.Init, Mul(d, l.Iter())), nil)
			}
			if d.Op == OpApp && d.S == "runelen" && d.Args[1] == mu && !d.Args[0].Varies(l) && m.Init.Op != OpITE {
				return set(ROff(d.Args[0], m.Init, l.Iter()), nil)
			}
			if d.Op == OpApp && d.S == "runelen" && m.Init.Op != OpITE {
				// telescoping sum of consecutive rune widths
				o := d.Args[1]
				if !Contains(o, m.Term) && Add(o, d) == Subst(o, map[*Term]*Term{l.Iter(): Add(l.Iter(), Int(1))}) {
					o0 := Subst(o, map[*Term]*Term{l.Iter(): Int(0)})
					if c := Add(m.Init, Sub(o, o0)); !Contains(c, m.Term) {
						return set(c, nil)
					}
				}
			}
			if nx.Op == OpROff && nx.Args[1] == mu && nx.Args[2].IsConst(1) && !nx.Args[0].Varies(l) {
				if m.Init.Op != OpITE {
					return set(ROff(nx.Args[0], m.Init, l.Iter()), nil)
				}
				// conditional start: lift
				in := m.Init
				return set(lift1("roff", in, func(b *Term) *Term { return ROff(nx.Args[0], b, l.Iter()) }), nil)
			}
		} else if !l.walks(nx) {
			inc := False
			ok := true
			for _, lf := range Leaves(nx, l.ContCond) {
				d := Sub(lf.Val, mu)
				switch {
				case d.IsConst(0):
				case d.IsConst(1):
					inc = Or(inc, lf.Cond)
				default:
					ok = false
				}
			}
			if ok && !Contains(inc, m.Term) {
				if inc == True || Implies(l.ContCond, inc) {
					return set(Add(m.Init, l.Iter()), nil)
				}
				c := l.countOf(inc)
				closed := Add(m.Init, c)
				return set(closed, Ite(inc, Add(closed, Int(1)), closed))
			}
		}
	}
	// a sequence that loses a fixed number of elements at either end
	if nx.Op == OpSlice && nx.Args[0] == mu && nx.Args[1].IsInt() {
		if b := Sub(Len(mu), nx.Args[2]); b.IsInt() && nx.Args[1].C >= 0 && b.C >= 0 {
			lo, hi := Mul(nx.Args[1], l.Iter()), Mul(b, l.Iter())
			return set(lift1("shrink", m.Init, func(x *Term) *Term {
				return Slice(x, lo, Sub(Len(x), hi))
			}), nil)
		}
	}
	// a string that loses its first character: next = mu[roff(mu,0,1):]
	if nx.Op == OpSlice && nx.Args[0] == mu && (nx.Args[1] == ROff(mu, Int(0), Int(1)) || nx.Args[1] == appNorm("runelen", types.Typ[types.Int], []*Term{mu, Int(0)})) && nx.Args[2] == Len(mu) {
		return set(lift1("suffix", m.Init, func(b *Term) *Term {
			return Slice(b, ROff(b, Int(0), l.Iter()), Len(b))
		}), nil)
	}
	if l.walks(nx) {
		return false
	}
	// next does not depend on the loop: value after the first iteration
	if !nx.Varies(l) {
		after := LE(Int(1), l.Iter())
		closed := Ite(after, nx, m.Init)
		return set(closed, nx)
	}
	// sticky assignment: next = P ? v : mu
	if !seqLike(nx, m.Term) {
		p := False
		var v *Term
		ok := true
		for _, lf := range Leaves(nx, l.ContCond) {
			if isBoolType(m.typ) {
				break
			}
			if lf.Val == mu {
				continue
			}
			if v != nil && v != lf.Val || lf.Val.Varies(l) {
				ok = false
				break
			}
			v = lf.Val
			p = Or(p, lf.Cond)
		}
		if isBoolType(m.typ) {
			// boolean: next|mu=1 and next|mu=0
			a := m.Term
			ba := mk(Term{Op: OpBool, Args: []*Term{a}})
			h := substAtom(nx, ba, true)
			lo := substAtom(nx, ba, false)
			switch {
			case h == True && !Contains(lo, a): // sticky true
				v, p = True, lo
			case lo == False && !Contains(h, a): // sticky false
				v, p = False, Not(h)
			default:
				ok = false
			}
		}
		if ok && v != nil && !Contains(p, m.Term) {
			pe := atom(mk(Term{Op: OpPrevEx, Loop: l, Args: []*Term{p}}))
			closed := Ite(pe, v, m.Init)
			return set(closed, Ite(p, v, closed))
		}
	}
	return false
}

func substAtom(t, a *Term, v bool) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(t *Term) *Term {
		if t.Op != OpITE {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.Args[0] == a {
			if v {
				r = rec(t.Args[1])
			} else {
				r = rec(t.Args[2])
			}
		} else {
			r = ite(t.Args[0], rec(t.Args[1]), rec(t.Args[2]))
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// seqLike: every leaf is mu or an append to mu.
// seqBase is the sequence that v extends.
func seqBase(v *Term) *Term {
	for v.Op == OpAppend || v.Op == OpConcat || v.Op == OpSeqLoop {
		if len(v.Args) == 0 {
			break
		}
		v = v.Args[0]
	}
	return v
}

func seqLike(nx, mu *Term) bool {
	ok := true
	any := false
	for _, lf := range Leaves(nx, True) {
		v := lf.Val
		if v == mu {
			continue
		}
		if seqBase(v) == mu {
			any = true
			continue
		}
		ok = false
	}
	return ok && any
}

// muLen gives len(mu) for sequence accumulators that add one element per
// iteration under a condition.
// countOf counts the earlier iterations in which inc held.
func (l *Loop) countOf(inc *Term) *Term {
	it := l.Iter()
	if inc.Op == OpITE {
		for c := int64(1); c <= 2; c++ {
			if inc == LE(Int(c), it) {
				return Ite(LE(Int(c), it), Sub(it, Int(c)), Int(0))
			}
			if inc == LT(it, Int(c)) {
				return Ite(LE(Int(c), it), Int(c), it)
			}
		}
	}
	return mk(Term{Op: OpCount, Loop: l, Args: []*Term{inc}, Typ: types.Typ[types.Int]})
}

func (l *Loop) muLen(t *Term) *Term {
	m := l.mus[t.S]
	if m != nil && m.Next == nil && m.length != nil {
		return m.length
	}
	if m == nil || m.Next == nil || m.Init == nil || m.busy {
		return nil
	}
	m.busy = true // the conditions of Next may mention len(mu)
	defer func() { m.busy = false }()
	if !seqLike(m.Next, m.Term) {
		return nil
	}
	inc := False
	for _, lf := range Leaves(m.Next, l.ContCond) {
		if lf.Val == m.Term {
			continue
		}
		if lf.Val.Op != OpAppend || len(lf.Val.Args) != 2 || lf.Val.Args[1].Op != OpSeqLit || len(lf.Val.Args[1].Args) != 1 {
			return nil
		}
		inc = Or(inc, lf.Cond)
	}
	if Any(inc, func(x *Term) bool { return x == m.Term }) {
		return nil
	}
	if Implies(l.ContCond, inc) {
		return Add(Len(m.Init), l.Iter())
	}
	return Add(Len(m.Init), l.countOf(inc))
}

func (l *Loop) seqLen(t *Term) *Term {
	m := l.mus[t.S]
	if m == nil {
		return nil
	}
	n := l.muLen(m.Term)
	if n == nil {
		return nil
	}
	return l.Final(nil, t.N, n)
}

// AtHead reports that exit g is, or may be, taken where the loop is entered.
func (l *Loop) AtHead(g int) bool {
	if g >= len(l.Exits) {
		return true
	}
	for _, ed := range l.Exits[g].Edges {
		if l.head(ed.From) {
			return true
		}
	}
	return false
}

// Domain returns the header's continue condition (nil if it has none).
func (l *Loop) Domain() *Term {
	for _, g := range l.Exits {
		for _, ed := range g.Edges {
			if l.head(ed.From) && ed.rot == nil {
				return Not(Restrict(ed.Cond, l.EntryCond))
			}
		}
	}
	return nil
}

// finIterTerm is the number of completed iterations when leaving by exit g.
func (l *Loop) finIterTerm(g int) *Term {
	if t, ok := l.finIter[g]; ok {
		return t
	}
	t := mk(Term{Op: OpFinIter, Loop: l, N: g, Typ: types.Typ[types.Int]})
	l.finIter[g] = t // break cycles
	if g < len(l.Exits) {
		eg := l.Exits[g]
		if eg.Header && len(eg.Edges) == 1 {
			if n := tripCount(l, eg.Cond); n != nil {
				t = n
			}
		} else if len(eg.Edges) >= 1 && len(l.Exits) == 2 && l.Exits[1-g].Header {
			if d := l.Domain(); d != nil {
				if c, ok := closeOver(l, d, Restrict(eg.Cond, d)); ok {
					t = mk(Term{Op: OpFirst, Args: []*Term{c[0], c[1]}, Typ: types.Typ[types.Int]})
				}
			}
		}
	}
	l.finIter[g] = t
	return t
}

// tripCount solves an exit condition of the form Iter >= n.
func tripCount(l *Loop, exit *Term) *Term {
	c := Not(exit) // continue condition
	if c.Op != OpITE || c.Args[1].Op == OpITE || c.Args[2].Op == OpITE {
		return nil
	}
	a := c.Args[0]
	if a.Op != OpLE {
		return nil
	}
	lin := toLin(a.Args[0])
	k, ok := lin.co[l.Iter()]
	if !ok {
		return nil
	}
	pos := c.Args[1] == True
	rest := lin.add(linear{co: map[*Term]int64{l.Iter(): 1}}, -k)
	r := rest.term()
	if r.Varies(l) {
		return nil
	}
	var n *Term
	switch {
	case pos && k == 1: // Iter + r <= 0  -> trip = -r + 1
		n = Sub(Int(1), r)
	case !pos && k == -1: // not(-Iter + r <= 0): Iter < r
		n = r
	default:
		return nil
	}
	if !nonNeg(n) {
		return App("max0", types.Typ[types.Int], n)
	}
	return n
}

// Final is the value of in-loop term t after leaving through exit g.
func (l *Loop) Final(e *Eval, g int, t *Term) *Term {
	if !t.Varies(l) {
		return t
	}
	m := map[*Term]*Term{}
	memo := map[*Term]bool{}
	onlyHeader := g < len(l.Exits) && l.Exits[g].Header || l.Callback
	var scan func(*Term)
	scan = func(x *Term) {
		if memo[x] || !x.Varies(l) {
			return
		}
		memo[x] = true
		switch {
		case x.Op == OpIter && x.Loop == l:
			m[x] = l.finIterTerm(g)
			return
		case x.Op == OpMu && x.Loop == l:
			mu := l.mus[x.S]
			if mu != nil && mu.Next == nil && mu.addr != nil {
				l.cellNext(e, mu)
				for i := 0; i < 2 && l.solve(mu); i++ {
				}
			}
			if mu != nil && mu.Closed != nil {
				m[x] = l.Final(e, g, mu.Closed)
				return
			}
			if mu != nil && mu.Next != nil && seqLike(mu.Next, mu.Term) {
				if j := l.joined(g, mu); j != nil {
					m[x] = j
					return
				}
				m[x] = mk(Term{Op: OpSeqLoop, Loop: l, S: x.S, N: g, Args: []*Term{mu.Init}, Typ: x.Typ})
				return
			}
			m[x] = mk(Term{Op: OpFinMu, Loop: l, S: x.S, N: g, Typ: x.Typ})
			return
		case x.Op == OpCount && x.Loop == l:
			if onlyHeader && !l.Callback {
				if d := l.Domain(); d != nil {
					if c, ok := closeOver(l, d, Restrict(x.Args[0], d)); ok {
						m[x] = App("countall", types.Typ[types.Int], c...)
						return
					}
				}
			}
			m[x] = mk(Term{Op: OpFinMu, Loop: l, S: "count", N: g, Args: x.Args, Typ: x.Typ})
			return
		case x.Op == OpPrevEx && x.Loop == l:
			if onlyHeader && !l.Callback {
				if d := l.Domain(); d != nil {
					if c, ok := closeOver(l, d, Restrict(x.Args[0], d)); ok {
						m[x] = existsAtom(c[0], c[1])
						return
					}
				}
			}
			m[x] = boolAtom(mk(Term{Op: OpFinMu, Loop: l, S: "prevex", N: g, Args: x.Args}))
			return
		}
		for _, a := range x.Args {
			scan(a)
		}
	}
	scan(t)
	return Subst(t, m)
}

// joined recognises the loop that appends every element of a list of byte
// slices to an empty one.
func (l *Loop) joined(g int, mu *Mu) *Term {
	if g >= len(l.Exits) || !l.Exits[g].Header || len(l.Exits) != 1 || mu.Init.Op == OpITE || !Len(mu.Init).IsConst(0) || mu.Init != Nil && mu.Init.Op != OpMakeSlice {
		return nil
	}
	d := l.Domain()
	if d == nil {
		return nil
	}
	ok := true
	var rec func(nx, cond *Term) *Term
	rec = func(nx, cond *Term) *Term {
		if nx.Op == OpITE && !nx.Args[0].Varies(l) {
			a := atom(nx.Args[0])
			return Ite(a, rec(nx.Args[1], And(cond, a)), rec(nx.Args[2], And(cond, Not(a))))
		}
		list := l.spreadOf(nx, mu)
		if list == nil || !SameUnder(And(l.EntryCond, cond), d, LT(l.Iter(), Len(list))) {
			ok = false
			return Nil
		}
		return appNorm("bytes.Join", mu.Term.Typ, []*Term{list, Nil})
	}
	if r := rec(mu.Next, True); ok {
		return r
	}
	return nil
}

// spreadOf is the list of byte slices whose current element nx adds.
func (l *Loop) spreadOf(nx *Term, mu *Mu) *Term {
	if nx.Op != OpAppend || len(nx.Args) != 2 || nx.Args[0] != mu.Term || nx.Args[1].Op != OpSpread {
		return nil
	}
	el := nx.Args[1].Args[0]
	if el.Op != OpLd || el.Args[0].Op != OpIndexAddr || el.Args[0].Args[1] != l.Iter() {
		return nil
	}
	list := el.Args[0].Args[0]
	if list.Varies(l) || list.Op != OpApp {
		return nil
	}
	return list
}

func existsAtom(d, p *Term) *Term {
	if p == False || d == False {
		return False
	}
	return atom(mk(Term{Op: OpExists, Args: []*Term{d, mirror(d, p)}}))
}

// notBeyond reads the test by which a loop ends when its counter is equal to a
// bound as the test that the counter has reached the bound.
func (l *Loop) notBeyond(fn *ssa.Function, in *ssa.BinOp, t *Term) *Term {
	br, ok := l.Header.Instrs[len(l.Header.Instrs)-1].(*ssa.If)
	if !ok || br.Cond != ssa.Value(in) {
		return t
	}
	stop := t
	if in.Op == token.NEQ {
		stop = Not(t)
	}
	out := l.Header.Succs[0] // where equality leads
	if in.Op == token.NEQ {
		out = l.Header.Succs[1]
	}
	for _, x := range buildCFG(fn).loops {
		if x.header == l.Header && x.blocks[out] {
			return t
		}
	}
	if stop.Op != OpITE || stop.Args[0].Op != OpEQ || stop.Args[1] != True || stop.Args[2] != False {
		return t
	}
	a := stop.Args[0]
	x := a.Args[0]
	if len(a.Args) == 2 {
		x = Sub(a.Args[0], a.Args[1])
	}
	lin := toLin(x)
	var n *Term // the counter stops at n
	switch lin.co[l.Iter()] {
	case 1:
		n = Sub(l.Iter(), x)
	case -1:
		n = Add(x, l.Iter())
	default:
		return t
	}
	if n.Varies(l) || !nonNeg(n) {
		return t
	}
	stop = LE(n, l.Iter())
	if in.Op == token.NEQ {
		return Not(stop)
	}
	return stop
}

// mirror reads a predicate that counts down from the end of its domain as one
// that counts up.
func mirror(d, p *Term) *Term {
	if d.Op != OpITE || d.Args[0].Op != OpLE || d.Args[1] != True || d.Args[2] != False {
		return p
	}
	b := bound1(maxBound(d, p))
	lin := toLin(d.Args[0].Args[0])
	if lin.co[b] != 1 {
		return p
	}
	n := Sub(Int(1), Sub(lin.term(), b)) // b < n
	if Contains(n, b) {
		return p
	}
	down, up := false, false
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for i, a := range t.Args {
			if a == b {
				if t.Op == OpLin && t.Co[i] == -1 {
					down = true
				} else {
					up = true
				}
			}
			rec(a)
		}
	}
	if p == b {
		return p
	}
	rec(p)
	if !down || up {
		return p
	}
	return Subst(p, map[*Term]*Term{b: Sub(n, Add(b, Int(1)))})
}

func (l *Loop) cellNext(e *Eval, mu *Mu) {
	var vals []*Term
	for _, b := range l.backs {
		vals = append(vals, e.load(b.mem, mu.addr, mu.typ))
	}
	mu.Next = l.relNext(vals)
}

// FinalAny is the value after the loop, whichever exit was taken.
func (l *Loop) FinalAny(e *Eval, t *Term) *Term {
	if !t.Varies(l) {
		return t
	}
	if len(l.Exits) == 0 {
		return l.Final(e, 0, t)
	}
	var r *Term
	for i := len(l.Exits) - 1; i >= 0; i-- {
		g := l.Exits[i]
		v := l.Final(e, i, Restrict(t, g.Cond))
		if r == nil {
			r = v
		} else {
			r = Ite(g.E, v, r)
		}
	}
	return r
}

// setExitConds assigns the conditions under which each exit was taken.
func (l *Loop) setExitConds() {
	n := len(l.Exits)
	for i, g := range l.Exits {
		g.Index = i
	}
	if n == 0 {
		return
	}
	if n == 1 {
		l.Exits[0].E = True
		return
	}
	walks := l.walks(True)
	if n == 2 && !walks {
		h := -1
		for i, g := range l.Exits {
			if g.Header {
				h = i
			}
		}
		if h >= 0 {
			o := l.Exits[1-h]
			d := l.Domain()
			if c, ok := closeOver(l, d, Restrict(o.Cond, d)); ok {
				x := existsAtom(c[0], c[1])
				o.E = x
				l.Exits[h].E = Not(x)
				return
			}
		}
	}
	rest := True
	// some exit before the header's is taken, or none
	for h, g := range l.Exits {
		if !g.Header || walks {
			continue
		}
		d := l.Domain()
		any := False
		for i, o := range l.Exits {
			if i != h {
				any = Or(any, Restrict(o.Cond, d))
			}
		}
		if c, ok := closeOver(l, d, any); ok {
			x := existsAtom(c[0], c[1])
			g.E = Not(x)
			rest = x
			k := 0
			for i, o := range l.Exits {
				if i == h {
					continue
				}
				k++
				if k == n-1 {
					o.E = rest
					break
				}
				a := atom(mk(Term{Op: OpExit, Loop: l, N: o.Index}))
				o.E = And(rest, a)
				rest = And(rest, Not(a))
			}
			return
		}
	}
	// the header exit, if any, is the default
	order := make([]*ExitGroup, 0, n)
	for _, g := range l.Exits {
		if !g.Header {
			order = append(order, g)
		}
	}
	for _, g := range l.Exits {
		if g.Header {
			order = append(order, g)
		}
	}
	for i, g := range order {
		if i == n-1 {
			g.E = rest
			break
		}
		x := atom(mk(Term{Op: OpExit, Loop: l, N: g.Index}))
		g.E = And(rest, x)
		rest = And(rest, Not(x))
	}
}

func (l *Loop) sameSets() bool {
	if len(l.stores) != len(l.newStores) || len(l.havocs) != len(l.newHavocs) {
		return false
	}
	for a := range l.newStores {
		if !l.stores[a] {
			return false
		}
	}
	for a := range l.newHavocs {
		if !l.havocs[a] {
			return false
		}
	}
	return true
}

// Mus lists the loop variables in a stable order.
func (l *Loop) Mus() []*Mu {
	ks := make([]string, 0, len(l.mus))
	for k := range l.mus {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := make([]*Mu, len(ks))
	for i, k := range ks {
		out[i] = l.mus[k]
	}
	return out
}

// ---- natural loops of a function ----

type natLoop struct {
	header   *ssa.BasicBlock
	blocks   map[*ssa.BasicBlock]bool
	parent   *natLoop
	children []*natLoop
}

type cfg struct {
	fn    *ssa.Function
	rpo   []*ssa.BasicBlock
	loops []*natLoop
	inner map[*ssa.BasicBlock]*natLoop // innermost loop of a block
	head  map[*ssa.BasicBlock]*natLoop
	err   error
}

func buildCFG(fn *ssa.Function) *cfg {
	c := &cfg{fn: fn, inner: map[*ssa.BasicBlock]*natLoop{}, head: map[*ssa.BasicBlock]*natLoop{}}
	seen := map[*ssa.BasicBlock]bool{}
	on := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(*ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		on[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			} else if on[s] && !s.Dominates(b) {
				c.err = fmt.Errorf("irreducible control flow in %s", fn)
			}
		}
		on[b] = false
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		c.rpo = append(c.rpo, post[i])
	}
	for _, b := range c.rpo {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := c.head[h]
			if l == nil {
				l = &natLoop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				c.head[h] = l
				c.loops = append(c.loops, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				for _, p := range x.Preds {
					if seen[p] {
						work = append(work, p)
					}
				}
			}
		}
	}
	sort.Slice(c.loops, func(i, j int) bool { return len(c.loops[i].blocks) > len(c.loops[j].blocks) })
	for i, l := range c.loops {
		for j := i - 1; j >= 0; j-- {
			if c.loops[j].blocks[l.header] && c.loops[j] != l {
				l.parent = c.loops[j]
				break
			}
		}
		if l.parent != nil {
			l.parent.children = append(l.parent.children, l)
		}
		for b := range l.blocks {
			c.inner[b] = l
		}
	}
	return c
}
