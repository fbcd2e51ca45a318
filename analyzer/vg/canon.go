package vg

import "go/types"

// A sequence value is put in canonical form as a list of segments: literal
// elements, and families "for k in domain emit body(k)" with a bound index.
// Two sequences with the same canonical form have the same contents, however
// the loops that built them were written.

const segFor = "for"

// Content is the canonical content of slice x in memory m under cond.
// It is nil when the contents cannot be expressed.
func (e *Eval) Content(m *Mem, x, cond *Term, elem types.Type) *Term {
	segs, ok := e.segs(m, x, cond, elem, nil)
	if !ok {
		return nil
	}
	return mkContent(segs)
}

func mkContent(segs []*Term) *Term {
	// conditional segments and elements become a conditional content
	n := 1
	for _, s := range segs {
		if s.Op == OpITE {
			n *= len(Leaves(s, True))
		}
		if s.Op == OpSeqLit {
			for _, a := range s.Args {
				if a.Op == OpITE {
					n *= len(Leaves(a, True))
				}
			}
		}
		if n > 64 {
			break
		}
	}
	if n > 1 && n <= 64 {
		for i, s := range segs {
			if s.Op == OpITE {
				return lift1("content", s, func(v *Term) *Term {
					out := append([]*Term(nil), segs[:i]...)
					if v.Op == OpApp && v.S == "content" {
						out = append(out, v.Args...)
					} else {
						out = append(out, v)
					}
					return mkContent(append(out, segs[i+1:]...))
				})
			}
			if s.Op != OpSeqLit {
				continue
			}
			for j, a := range s.Args {
				if a.Op == OpITE {
					return lift1("content", a, func(v *Term) *Term {
						el := append([]*Term(nil), s.Args...)
						el[j] = v
						out := append([]*Term(nil), segs...)
						out[i] = Seq(el...)
						return mkContent(out)
					})
				}
			}
		}
	}
	for i, s := range segs {
		if s.Op == OpApp && s.S == "content" {
			out := append([]*Term(nil), segs[:i]...)
			return mkContent(append(append(out, s.Args...), segs[i+1:]...))
		}
		if s.Op != OpSeqLit {
			continue
		}
		for j, a := range s.Args {
			if a.Op == OpApp && a.S == "content" {
				out := append(append([]*Term(nil), segs[:i]...), Seq(s.Args[:j]...))
				out = append(append(out, a.Args...), Seq(s.Args[j+1:]...))
				return mkContent(append(out, segs[i+1:]...))
			}
		}
	}
	var out []*Term
	for _, s := range segs {
		if s.Op == OpSeqLit {
			if len(s.Args) == 0 {
				continue
			}
			if n := len(out); n > 0 && out[n-1].Op == OpSeqLit {
				out[n-1] = Seq(append(append([]*Term(nil), out[n-1].Args...), s.Args...)...)
				continue
			}
		}
		out = append(out, s)
	}
	return mk(Term{Op: OpApp, S: "content", Args: out})
}

// segs lists the segments of x up to the base sequence stop.
func (e *Eval) segs(m *Mem, x, cond *Term, elem types.Type, stop *Term) ([]*Term, bool) {
	x = Restrict(x, cond)
	if x == stop && stop != nil {
		return nil, true
	}
	if x.Op == OpITE {
		lv := Leaves(x, cond)
		if len(lv) == 1 {
			return e.segs(m, lv[0].Val, cond, elem, stop)
		}
		r := mkContent(nil)
		for i := len(lv) - 1; i >= 0; i-- {
			s, ok := e.segs(m, lv[i].Val, And(cond, lv[i].Cond), elem, stop)
			if !ok {
				return nil, false
			}
			r = Ite(lv[i].Cond, mkContent(s), r)
		}
		return []*Term{r}, true
	}
	switch x.Op {
	case OpNil:
		return nil, true
	case OpSeqLit:
		return []*Term{e.restrictAll(x, cond)}, true
	case OpAppend:
		out, ok := e.segs(m, x.Args[0], cond, elem, stop)
		if !ok {
			return nil, false
		}
		for _, p := range x.Args[1:] {
			if p.Op == OpSeqLit {
				out = append(out, e.restrictAll(p, cond))
				continue
			}
			s, ok := e.segs(m, p.Args[0], cond, elem, nil)
			if !ok {
				return nil, false
			}
			out = append(out, s...)
		}
		return out, true
	case OpSeqLoop:
		out, ok := e.segs(m, x.Args[0], cond, elem, stop)
		if !ok {
			return nil, false
		}
		l := x.Loop
		mu := l.mus[x.S]
		if mu == nil || mu.Next == nil || l.Callback {
			return nil, false
		}
		if x.N >= len(l.Exits) || !l.Exits[x.N].Header {
			return nil, false
		}
		d := l.Domain()
		if d == nil {
			return nil, false
		}
		d = Restrict(d, cond)
		body, ok := e.segs(m, Restrict(mu.Next, l.ContCond), And(cond, d), elem, mu.Term)
		if !ok {
			return nil, false
		}
		f := forSeg(l, d, mkContent(body))
		if f == nil {
			return nil, false
		}
		return append(out, f), true
	case OpSlice:
		if s := e.SeqOf(m, x); s != nil {
			return []*Term{e.restrictAll(s, cond)}, true
		}
	case OpAlloc, OpStruct:
		return nil, false
	}
	// an opaque or element-wise filled slice
	n := Restrict(Len(x), cond)
	if n.IsConst(0) {
		return nil, true
	}
	l := &Loop{Key: "content"}
	l.reset()
	a := IndexAddr(x, l.Iter(), types.NewPointer(elem))
	d := LT(l.Iter(), n)
	v := Restrict(e.Load(m, a, elem), And(cond, And(d, LE(Int(0), l.Iter()))))
	f := forSeg(l, d, mkContent([]*Term{e.restrictAll(Seq(v), True)}))
	if f == nil {
		return nil, false
	}
	return []*Term{f}, true
}

func (e *Eval) restrictAll(p, cond *Term) *Term {
	a := make([]*Term, len(p.Args))
	for i := range a {
		x := p.Args[i]
		if e.elemMap != nil {
			x = e.elemMap(x)
		}
		if cond == True {
			a[i] = x
		} else {
			a[i] = Restrict(x, cond)
		}
	}
	return Seq(a...)
}

// skipHead drops the first rounds of a counted family that contribute nothing.
func skipHead(l *Loop, d, body *Term) (*Term, *Term) {
	it := l.Iter()
	for k := 0; k < 4; k++ {
		if body.Op != OpITE || !Any(body, func(x *Term) bool { return x == it }) || tripCount(l, Not(d)) == nil {
			break
		}
		r := Restrict(body, And(LE(it, Int(0)), LE(Int(0), it)))
		if r.Op != OpApp || r.S != "content" || len(r.Args) > 0 {
			break
		}
		m := map[*Term]*Term{it: Add(it, Int(1))}
		d, body = Subst(d, m), Subst(body, m)
		body = Restrict(body, LE(Int(0), it))
	}
	return d, body
}

func forSeg(l *Loop, d, body *Term) *Term {
	if d == False {
		return Seq()
	}
	d, body = skipHead(l, unfold(l, d), unfold(l, body))
	c, ok := closeOver(l, d, body)
	if !ok {
		return nil
	}
	return mk(Term{Op: OpApp, S: segFor, Args: c})
}

// SameContent reports whether two sequences have equal contents under cond,
// and otherwise the condition and contents that differ.
func SameContent(cond *Term, ea *Eval, ma *Mem, xa *Term, eb *Eval, mb *Mem, xb *Term, elem types.Type) (bool, *Term, *Term, *Term) {
	return SameContentMap(cond, ea, ma, xa, elem, nil, eb, mb, xb, elem, nil)
}

// SameContentMap compares contents after mapping the elements of each side.
func SameContentMap(cond *Term, ea *Eval, ma *Mem, xa *Term, elemA types.Type, fa func(*Term) *Term, eb *Eval, mb *Mem, xb *Term, elemB types.Type, fb func(*Term) *Term) (bool, *Term, *Term, *Term) {
	defer func(a, b func(*Term) *Term) { ea.elemMap, eb.elemMap = a, b }(ea.elemMap, eb.elemMap)
	ea.elemMap, eb.elemMap = fa, fb
	for _, la := range Leaves(xa, cond) {
		for _, lb := range Leaves(xb, And(cond, la.Cond)) {
			c := And(cond, And(la.Cond, lb.Cond))
			ca := ea.Content(ma, la.Val, c, elemA)
			cb := eb.Content(mb, lb.Val, c, elemB)
			if ca == nil || cb == nil || !SameUnder(c, ca, cb) {
				return false, c, ca, cb
			}
		}
	}
	return true, nil, nil, nil
}
