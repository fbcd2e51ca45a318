package vg

// Subst replaces subterms and renormalises.
func Subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		changed := false
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				changed = true
			}
		}
		r := t
		if changed {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case OpLin:
		r := Int(t.C)
		for i, x := range a {
			r = Add(r, Mul(Int(t.Co[i]), x))
		}
		return r
	case OpITE:
		return Ite(a[0], a[1], a[2])
	case OpLE:
		return lift1("le0", a[0], le0)
	case OpEQ:
		return EQ(a[0], a[1])
	case OpBool:
		return boolAtom(a[0])
	case OpFieldAddr:
		return FieldAddr(a[0], t.N, t.S, t.Typ)
	case OpIndexAddr:
		if t.S != "" {
			return mapAddr(a[0], a[1], t.S, deref(t.Typ))
		}
		return IndexAddr(a[0], a[1], t.Typ)
	case OpField:
		return Field(a[0], t.N, t.Typ)
	case OpSlice:
		return Slice(a[0], a[1], a[2])
	case OpLen:
		return Len(a[0])
	case OpROff:
		return ROff(a[0], a[1], a[2])
	case OpConcat:
		return Concat(a...)
	case OpApp:
		switch t.S {
		case segFor, "countall", "countbelow":
			// their arguments are in the scope of a bound index
			return mk(Term{Op: OpApp, S: t.S, Args: a, Typ: t.Typ})
		case "content":
			return mkContent(a)
		}
		return appNorm(t.S, t.Typ, a)
	case OpExists, OpPrevEx:
		return atom(mkLike(t, a))
	}
	return mkLike(t, a)
}

// mkLike copies t with new arguments (lifting a single diagram argument of a
// simple operator over its leaves).
func mkLike(t *Term, a []*Term) *Term {
	n := *t
	n.Args = a
	n.loops = nil
	n.ID = 0
	var in []*Loop
	switch t.Op {
	case OpRes, OpLd, OpMapGet, OpMapHas, OpAlloc, OpMakeSlice, OpMakeMap, OpMakeChan, OpClosure:
		// variance beyond that of the arguments is kept
		argv := map[*Loop]bool{}
		for _, x := range t.Args {
			for l := range x.loops {
				argv[l] = true
			}
		}
		for l := range t.loops {
			if !argv[l] {
				in = append(in, l)
			}
		}
	}
	if t.Op == OpLd || t.Op == OpIndex || t.Op == OpConv || t.Op == OpTrunc {
		return lift1("ml", a[0], func(x *Term) *Term {
			m := n
			m.Args = append([]*Term{x}, a[1:]...)
			return mkIn(m, in)
		})
	}
	return mkIn(n, in)
}

func maxBound(ts ...*Term) int {
	m := 0
	for _, t := range ts {
		Any(t, func(x *Term) bool {
			if x.Op == OpBound && x.N > m {
				m = x.N
			}
			return false
		})
	}
	return m
}

func bound1(n int) *Term { return mk(Term{Op: OpBound, N: n}) }

// closeOver abstracts the iteration of l; ok is false when the terms vary
// with l in another way.
func closeOver(l *Loop, ts ...*Term) (out []*Term, ok bool) {
	for i, t := range ts {
		if u := unfold(l, t); u != t {
			ts = append([]*Term(nil), ts...)
			ts[i] = u
		}
	}
	b := bound1(maxBound(ts...) + 1)
	m := map[*Term]*Term{l.Iter(): b}
	for _, t := range ts {
		r := Subst(t, m)
		if r.Varies(l) {
			return nil, false
		}
		out = append(out, r)
	}
	return out, true
}

// unfold replaces solved variables and running counts of l by terms over its
// iteration alone.
func unfold(l *Loop, t *Term) *Term {
	if !t.Varies(l) {
		return t
	}
	m := map[*Term]*Term{}
	seen := map[*Term]bool{}
	var scan func(*Term)
	scan = func(x *Term) {
		if seen[x] || !x.Varies(l) {
			return
		}
		seen[x] = true
		if x.Loop == l {
			switch x.Op {
			case OpMu:
				if mu := l.mus[x.S]; mu != nil && mu.Closed != nil {
					m[x] = unfold(l, mu.Closed)
				}
				return
			case OpCount, OpPrevEx:
				c := unfold(l, x.Args[0])
				if d := l.Domain(); d != nil {
					c = Restrict(c, unfold(l, d))
				}
				b := bound1(maxBound(c) + 1)
				cc := Subst(c, map[*Term]*Term{l.Iter(): b})
				if cc.Varies(l) {
					return
				}
				if x.Op == OpCount {
					m[x] = App("countbelow", x.Typ, l.Iter(), cc)
				} else {
					m[x] = existsAtom(LT(b, l.Iter()), cc)
				}
				return
			}
		}
		for _, a := range x.Args {
			scan(a)
		}
	}
	scan(t)
	if len(m) == 0 {
		return t
	}
	return Subst(t, m)
}
