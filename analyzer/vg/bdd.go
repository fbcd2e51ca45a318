package vg

import (
	"go/types"
	"sort"
	"strconv"
)

// atom makes the decision diagram of an atomic condition.
func atom(a *Term) *Term { return ite(a, True, False) }

// ite builds a reduced ordered node; hi and lo must only test later atoms.
func ite(a, hi, lo *Term) *Term {
	if hi == lo {
		return hi
	}
	// v<=0 ? t[0] : t[v] is t[v] for a v that is never negative
	if a.Op == OpLE && (lo == a.Args[0] || lo.Op == OpLin) && (hi.Op == OpLin || hi.IsInt() || integerish(hi)) {
		if v := a.Args[0]; v.Op != OpLin && nonNeg(v) {
			l := toLin(lo)
			if k := l.co[v]; k != 0 && l.add(linear{co: map[*Term]int64{v: 1}}, -k).term() == hi {
				return lo
			}
		}
	}
	return mk(Term{Op: OpITE, Args: []*Term{a, hi, lo}, Typ: hi.Typ})
}

func top(t *Term) *Term {
	if t.Op == OpITE {
		return t.Args[0]
	}
	return nil
}

func cof(t, a *Term, v bool) *Term {
	if t.Op == OpITE && t.Args[0] == a {
		if v {
			return t.Args[1]
		}
		return t.Args[2]
	}
	return t
}

var liftMemo = map[string]*Term{}

const maxLift = 4000

func lift1(key string, x *Term, f func(*Term) *Term) *Term {
	if x.Op != OpITE {
		return f(x)
	}
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(x *Term) *Term {
		if x.Op != OpITE {
			return f(x)
		}
		if r, ok := memo[x]; ok {
			return r
		}
		r := Ite(atom(x.Args[0]), rec(x.Args[1]), rec(x.Args[2]))
		memo[x] = r
		return r
	}
	return rec(x)
}

func lift2(key string, x, y *Term, f func(a, b *Term) *Term) *Term {
	if x.Op != OpITE && y.Op != OpITE {
		return f(x, y)
	}
	memo := map[[2]*Term]*Term{}
	var rec func(x, y *Term) *Term
	rec = func(x, y *Term) *Term {
		if x.Op != OpITE && y.Op != OpITE {
			return f(x, y)
		}
		k := [2]*Term{x, y}
		if r, ok := memo[k]; ok {
			return r
		}
		a := minTop(x, y)
		r := Ite(atom(a), rec(cof(x, a, true), cof(y, a, true)), rec(cof(x, a, false), cof(y, a, false)))
		memo[k] = r
		return r
	}
	return rec(x, y)
}

func minTop(ts ...*Term) *Term {
	var m *Term
	for _, t := range ts {
		if a := top(t); a != nil && (m == nil || a.ID < m.ID) {
			m = a
		}
	}
	return m
}

var iteMemo = map[[3]*Term]*Term{}

// Ite is if-then-else with c a boolean diagram and arbitrary branches.
func Ite(c, t, e *Term) *Term {
	switch {
	case c == True:
		return t
	case c == False:
		return e
	case t == e:
		return t
	case t == True && e == False:
		return c
	}
	if c.Op != OpITE {
		// an opaque boolean leaf
		c = boolAtom(c)
		if c == True {
			return t
		}
		if c == False {
			return e
		}
	}
	k := [3]*Term{c, t, e}
	if r, ok := iteMemo[k]; ok {
		return r
	}
	a := minTop(c, t, e)
	r := ite(a, Ite(cof(c, a, true), cof(t, a, true), cof(e, a, true)), Ite(cof(c, a, false), cof(t, a, false), cof(e, a, false)))
	iteMemo[k] = r
	return r
}

// boolAtom turns an opaque boolean value into a condition.
func boolAtom(x *Term) *Term {
	return lift1("ba", x, func(x *Term) *Term {
		if x == True || x == False {
			return x
		}
		if isBoolTerm(x) {
			return atom(x)
		}
		return atom(mk(Term{Op: OpBool, Args: []*Term{x}}))
	})
}

func Not(a *Term) *Term    { return Ite(a, False, True) }
func And(a, b *Term) *Term { return Ite(a, b, False) }
func Or(a, b *Term) *Term  { return Ite(a, True, b) }

// Restrict simplifies f under the care set c (Coudert-Madre).
func Restrict(f, c *Term) *Term {
	memo := map[[2]*Term]*Term{}
	var rec func(f, c *Term) *Term
	rec = func(f, c *Term) *Term {
		if c == True || f.Op != OpITE {
			return f
		}
		if c == False {
			return f
		}
		k := [2]*Term{f, c}
		if r, ok := memo[k]; ok {
			return r
		}
		a := minTop(f, c)
		var r *Term
		if top(f) != a {
			r = rec(f, Or(cof(c, a, true), cof(c, a, false)))
		} else {
			c1, c0 := cof(c, a, true), cof(c, a, false)
			switch {
			case c1 == False:
				r = rec(cof(f, a, false), c0)
			case c0 == False:
				r = rec(cof(f, a, true), c1)
			default:
				r = ite(a, rec(cof(f, a, true), c1), rec(cof(f, a, false), c0))
			}
		}
		memo[k] = r
		return r
	}
	return rec(f, c)
}

// Leaf is one guarded value of a diagram.
type Leaf struct {
	Cond *Term
	Val  *Term
}

// Leaves lists the feasible leaves of f under cond with their conditions.
func Leaves(f, cond *Term) []Leaf {
	var out []Leaf
	idx := map[*Term]int{}
	var rec func(f, c *Term)
	rec = func(f, c *Term) {
		if !Sat(And(c, cond)) {
			return
		}
		if f.Op != OpITE {
			if i, ok := idx[f]; ok {
				out[i].Cond = Or(out[i].Cond, c)
				return
			}
			idx[f] = len(out)
			out = append(out, Leaf{c, f})
			return
		}
		a := atom(f.Args[0])
		rec(f.Args[1], And(c, a))
		rec(f.Args[2], And(c, Not(a)))
	}
	rec(f, True)
	return out
}

// ---- feasibility modulo the theory of constants and linear bounds ----

type lit struct {
	a   *Term
	pos bool
}

var satMemo = map[*Term]bool{}

// Sat reports whether condition c can hold (conservatively true).
func Sat(c *Term) bool {
	if c == True {
		return true
	}
	if c == False {
		return false
	}
	if r, ok := satMemo[c]; ok {
		return r
	}
	th := newTheory()
	n := 0
	var rec func(c *Term) bool
	rec = func(c *Term) bool {
		if c == True {
			return th.combine()
		}
		if c == False {
			return false
		}
		n++
		if n > 20000 {
			return true
		}
		a := c.Args[0]
		for _, v := range []bool{true, false} {
			m := th.mark()
			if th.assume(a, v) && rec(cof(c, a, v)) {
				th.undo(m)
				return true
			}
			th.undo(m)
		}
		return false
	}
	r := rec(c)
	satMemo[c] = r
	return r
}

// Implies reports whether a implies b (decided; false may mean unknown).
func Implies(a, b *Term) bool { return !Sat(And(a, Not(b))) }

// Equiv reports whether a and b are equivalent conditions.
func Equiv(a, b *Term) bool { return Implies(a, b) && Implies(b, a) }

// SameUnder reports whether values x and y coincide wherever cond holds.
func SameUnder(cond, x, y *Term) bool {
	return !Sat(And(cond, Not(EqVal(x, y))))
}

// EqVal is the condition under which the diagrams have identical leaves.
func EqVal(x, y *Term) *Term {
	return lift2("eqval", x, y, func(a, b *Term) *Term {
		if a == b {
			return True
		}
		if a.Op == OpConst && b.Op == OpConst {
			return False
		}
		return EQ(a, b)
	})
}

type bound struct {
	lo, hi int64
	hasLo  bool
	hasHi  bool
	ne     []int64
	form   *Term // a linear term with this key and constant 0
}

type theory struct {
	eq    map[*Term]*Term   // term == const/nil
	ne    map[*Term][]*Term // term != const
	bd    map[string]*bound
	trail []func()
	keys  []string
}

func newTheory() *theory {
	return &theory{eq: map[*Term]*Term{}, ne: map[*Term][]*Term{}, bd: map[string]*bound{}}
}

func (th *theory) mark() int { return len(th.trail) }
func (th *theory) undo(m int) {
	for len(th.trail) > m {
		th.trail[len(th.trail)-1]()
		th.trail = th.trail[:len(th.trail)-1]
	}
}

// linKey separates the variable part of a linear term from its constant.
func linKey(t *Term) (key string, c int64, single *Term) {
	l := toLin(t)
	s := ""
	ts := l.sorted()
	for _, x := range ts {
		s += strconv.FormatInt(l.co[x], 10) + "*" + strconv.Itoa(x.ID) + "+"
	}
	if len(ts) == 1 && l.co[ts[0]] == 1 {
		single = ts[0]
	}
	return s, l.c, single
}

func (th *theory) bound(key string, single *Term) *bound {
	b, ok := th.bd[key]
	if !ok {
		b = &bound{}
		th.keys = append(th.keys, key)
		if single != nil && nonNeg(single) {
			b.hasLo, b.lo = true, 0
		}
		if single != nil && single.Op == OpApp && single.S == "strings.Index" {
			b.hasLo, b.lo = true, -1
		}
		th.bd[key] = b
	}
	return b
}

func (b *bound) ok() bool {
	lo, hi := b.lo, b.hi
	if b.hasLo && b.hasHi {
		for lo <= hi {
			found := false
			for _, n := range b.ne {
				if n == lo {
					found = true
				}
			}
			if !found {
				return true
			}
			lo++
		}
		return false
	}
	return true
}

// assume adds a literal; false means contradiction.
func (th *theory) assume(a *Term, v bool) bool {
	switch a.Op {
	case OpLE:
		k, c, s := linKey(a.Args[0])
		b := th.bound(k, s)
		b.form = a.Args[0]
		old := *b
		th.trail = append(th.trail, func() { *b = old })
		if v { // x + c <= 0 -> x <= -c
			if !b.hasHi || -c < b.hi {
				b.hasHi, b.hi = true, -c
			}
		} else { // x >= -c+1
			if !b.hasLo || -c+1 > b.lo {
				b.hasLo, b.lo = true, -c+1
			}
		}
		return b.ok() && th.link(s, b)
	case OpEQ:
		x, y := a.Args[0], a.Args[1]
		if y.IsConst(0) && integerish(x) {
			k, c, s := linKey(x)
			b := th.bound(k, s)
			b.form = x
			old := *b
			old.ne = append([]int64(nil), b.ne...)
			th.trail = append(th.trail, func() { *b = old })
			if v {
				if !b.hasHi || -c < b.hi {
					b.hasHi, b.hi = true, -c
				}
				if !b.hasLo || -c > b.lo {
					b.hasLo, b.lo = true, -c
				}
			} else {
				b.ne = append(append([]int64(nil), b.ne...), -c)
			}
			return b.ok() && th.link(s, b)
		}
		if y.Op == OpConst || y == Nil {
			if v {
				if e, ok := th.eq[x]; ok {
					return e == y
				}
				for _, n := range th.ne[x] {
					if n == y {
						return false
					}
				}
				th.eq[x] = y
				th.trail = append(th.trail, func() { delete(th.eq, x) })
				// a string known to equal a constant has a known length
				if y.IsStr() {
					return th.assumeLen(x, int64(len(y.Str())))
				}
				if y == Nil && x.Typ != nil {
					switch x.Typ.Underlying().(type) {
					case *types.Slice, *types.Map:
						return th.assumeLen(x, 0)
					}
				}
				return true
			}
			if e, ok := th.eq[x]; ok && e == y {
				return false
			}
			old := th.ne[x]
			th.ne[x] = append(append([]*Term(nil), old...), y)
			th.trail = append(th.trail, func() { th.ne[x] = old })
		}
	}
	return true
}

// combine adds the bounds of linear terms up, looking for a contradiction;
// false means there is one.
func (th *theory) combine() bool {
	type ineq struct { // sum of co + c <= 0
		co map[*Term]int64
		c  int64
	}
	var cs []ineq
	multi := 0
	vars := map[*Term]bool{}
	for _, k := range th.keys {
		b := th.bd[k]
		if b.form == nil || !b.hasLo && !b.hasHi {
			continue
		}
		l := toLin(b.form)
		if len(l.co) == 0 {
			continue
		}
		if len(l.co) > 1 {
			multi++
		}
		for x := range l.co {
			vars[x] = true
		}
		if b.hasHi {
			m := map[*Term]int64{}
			for x, c := range l.co {
				m[x] = c
			}
			cs = append(cs, ineq{m, -b.hi})
		}
		if b.hasLo {
			m := map[*Term]int64{}
			for x, c := range l.co {
				m[x] = -c
			}
			cs = append(cs, ineq{m, b.lo})
		}
	}
	if multi == 0 || len(cs) > 24 {
		return true
	}
	var order []*Term
	for x := range vars {
		order = append(order, x)
		if nonNeg(x) {
			cs = append(cs, ineq{map[*Term]int64{x: -1}, 0})
		}
		if x.Op == OpApp && x.S == "runecount" { // at most the length
			if n := Len(x.Args[0]); vars[n] {
				cs = append(cs, ineq{map[*Term]int64{x: 1, n: -1}, 0})
			}
		}
	}
	sort.Slice(order, func(i, j int) bool { return order[i].ID < order[j].ID })
	for _, x := range order {
		var pos, neg, rest []ineq
		for _, q := range cs {
			switch c := q.co[x]; {
			case c > 0:
				pos = append(pos, q)
			case c < 0:
				neg = append(neg, q)
			default:
				rest = append(rest, q)
			}
		}
		if len(pos)*len(neg)+len(rest) > 150 {
			return true
		}
		for _, p := range pos {
			for _, q := range neg {
				a, b := p.co[x], -q.co[x]
				m := map[*Term]int64{}
				for y, c := range p.co {
					m[y] += c * b
				}
				for y, c := range q.co {
					m[y] += c * a
				}
				for y, c := range m {
					if c == 0 {
						delete(m, y)
					} else if c > 1<<30 || c < -1<<30 {
						return true
					}
				}
				r := ineq{m, p.c*b + q.c*a}
				if len(m) == 0 {
					if r.c > 0 {
						return false
					}
					continue
				}
				rest = append(rest, r)
			}
		}
		cs = rest
	}
	return true
}

// link relates len(s) and runecount(s): runecount <= len, and both are zero
// together.
func (th *theory) link(t *Term, b *bound) bool {
	if t == nil {
		return true
	}
	var other *Term
	rc := false
	switch {
	case t.Op == OpApp && t.S == "runecount":
		other = Len(t.Args[0])
		rc = true
	case t.Op == OpLen:
		other = mk(Term{Op: OpApp, S: "runecount", Args: t.Args, Typ: t.Typ})
	default:
		return true
	}
	k, c, s := linKey(other)
	if c != 0 || s == nil {
		return true
	}
	o := th.bound(k, s)
	old := *o
	th.trail = append(th.trail, func() { *o = old })
	lo, hi := func(v int64) {
		if !o.hasLo || v > o.lo {
			o.hasLo, o.lo = true, v
		}
	}, func(v int64) {
		if !o.hasHi || v < o.hi {
			o.hasHi, o.hi = true, v
		}
	}
	if b.hasLo && b.lo > 0 {
		if rc {
			lo(b.lo)
		} else {
			lo(1)
		}
	}
	if b.hasHi && (b.hi <= 0 || !rc) {
		hi(b.hi)
	}
	return o.ok()
}

func (th *theory) assumeLen(x *Term, n int64) bool {
	k, c, s := linKey(Len(x))
	b := th.bound(k, s)
	old := *b
	th.trail = append(th.trail, func() { *b = old })
	n -= c
	if !b.hasHi || n < b.hi {
		b.hasHi, b.hi = true, n
	}
	if !b.hasLo || n > b.lo {
		b.hasLo, b.lo = true, n
	}
	return b.ok()
}

// Atoms lists the atoms a condition tests.
func Atoms(c *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(c *Term)
	rec = func(c *Term) {
		if c.Op != OpITE || seen[c] {
			return
		}
		seen[c] = true
		a := c.Args[0]
		if !seen[a] {
			seen[a] = true
			out = append(out, a)
		}
		rec(c.Args[1])
		rec(c.Args[2])
	}
	rec(c)
	return out
}

// Verbs lists the verbs of a format, one for each operand in order; nil where
// the format picks its operands in another way.
func Verbs(format string) []rune {
	var out []rune
	rs := []rune(format)
	for i := 0; i < len(rs); i++ {
		if rs[i] != '%' {
			continue
		}
		for i++; i < len(rs); i++ {
			switch c := rs[i]; {
			case c == '[' || c == '*':
				return nil
			case c == '+' || c == '-' || c == '#' || c == ' ' || c == '.' || c >= '0' && c <= '9':
				continue
			case c != '%':
				out = append(out, c)
			}
			break
		}
	}
	return out
}
