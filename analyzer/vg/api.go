package vg

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Loc is an addressable place used to write expected values.
type Loc struct {
	E    *Eval
	Addr *Term
	Typ  types.Type
	Mem  *Mem
}

// Ptr starts a path at a pointer value.
func (e *Eval) Ptr(p *Term, elem types.Type, m *Mem) Loc {
	return Loc{E: e, Addr: p, Typ: elem, Mem: m}
}

// BaseMem is the memory before anything was written.
func BaseMem() *Mem { return &Mem{kind: mBase} }

func (l Loc) Val() *Term {
	v := l.E.Load(l.Mem, l.Addr, l.Typ)
	if l.Addr.Op == OpIndexAddr && l.Addr.S == "map" && len(l.Addr.Args) == 2 {
		v = l.E.orZero(l.Mem, l.Addr.Args[0], l.Addr.Args[1], v, l.Typ)
	}
	return v
}

// orZero is the value v of a map's entry, or zero where the map lacks the key.
func (e *Eval) orZero(m *Mem, x, k, v *Term, elem types.Type) *Term {
	bt, ok := elem.Underlying().(*types.Basic)
	if !ok || bt.Info()&types.IsBoolean != 0 {
		return v
	}
	has := e.load(m, mapAddr(x, k, "maphas", types.Typ[types.Bool]), types.Typ[types.Bool])
	return Ite(has, v, zero(elem))
}

// F selects a field, following a pointer first if needed.
func (l Loc) F(name string) Loc {
	t := l.Typ
	a := l.Addr
	if p, ok := t.Underlying().(*types.Pointer); ok {
		a = l.Val()
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic("not a struct: " + t.String())
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			ft := s.Field(i).Type()
			return Loc{l.E, FieldAddr(a, i, fieldClass(t, s, i), types.NewPointer(ft)), ft, l.Mem}
		}
	}
	panic("no field " + name + " in " + t.String())
}

// At selects an element of a slice or map.
func (l Loc) At(i *Term) Loc {
	switch t := l.Typ.Underlying().(type) {
	case *types.Slice:
		return Loc{l.E, IndexAddr(l.Val(), i, types.NewPointer(t.Elem())), t.Elem(), l.Mem}
	case *types.Map:
		return Loc{l.E, mapAddr(l.Val(), i, "map", t.Elem()), t.Elem(), l.Mem}
	}
	panic("not indexable: " + l.Typ.String())
}

// FieldIndex finds a field by predicate.
func FieldIndex(t types.Type, p func(*types.Var) bool) (int, *types.Var) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if p(s.Field(i)) {
			return i, s.Field(i)
		}
	}
	return -1, nil
}

// FAddr is the address of field i of the object of type t at p.
func FAddr(p *Term, t types.Type, i int) *Term {
	s := t.Underlying().(*types.Struct)
	return FieldAddr(p, i, fieldClass(t, s, i), types.NewPointer(s.Field(i).Type()))
}

func ElemAddr(base, idx *Term, elem types.Type) *Term {
	return IndexAddr(base, idx, types.NewPointer(elem))
}

func RuneCount(s *Term) *Term { return appNorm("runecount", types.Typ[types.Int], []*Term{s}) }
func RuneAt(s, o *Term) *Term { return appNorm("runeat", types.Typ[types.Rune], []*Term{s, o}) }

// Pure is the application of a pure library function by short name.
func Pure(name string, typ types.Type, args ...*Term) *Term { return appNorm(name, typ, args) }

func Seq(a ...*Term) *Term { return mk(Term{Op: OpSeqLit, Args: a}) }

func BoolOf(t *Term) *Term { return boolAtom(t) }

// Exists is the condition that some k in the domain satisfies p; both are
// given as functions of the bound variable.
func Exists(dom, pred func(k *Term) *Term) *Term {
	l := &Loop{Key: "exists"}
	l.reset()
	d := dom(l.Iter())
	p := pred(l.Iter())
	c, ok := closeOver(l, d, Restrict(p, d))
	if !ok {
		return boolAtom(mk(Term{Op: OpHole}))
	}
	return existsAtom(c[0], c[1])
}

func Trunc(x *Term, t types.Type) *Term { return truncTo(x, t) }

// ConvTo is an explicit narrowing conversion.
func ConvTo(x *Term, t *types.Basic) *Term {
	return lift1("conv", x, func(x *Term) *Term {
		if x.IsInt() {
			if _, ok := fits(x.C, t.Kind()); ok {
				return x
			}
		}
		return mk(Term{Op: OpTrunc, S: t.Name(), Args: []*Term{x}, Typ: t})
	})
}

func (l *Loop) MuByTerm(t *Term) *Mu { return l.mus[t.S] }

// NextOf returns the back-edge value of any in-loop cell.
func (l *Loop) NextCell(e *Eval, addr *Term, typ types.Type) *Term {
	var vals []*Term
	for _, b := range l.backs {
		vals = append(vals, e.Load(b.mem, addr, typ))
	}
	return l.relNext(vals)
}

// BackMem returns memory at the (single) back edge, or nil.
func (l *Loop) BackMem() *Mem {
	if len(l.backs) == 0 {
		return nil
	}
	if len(l.backs) == 1 {
		return l.backs[0].mem
	}
	var ins []inEdge
	for _, b := range l.backs {
		ins = append(ins, inEdge{st: b})
	}
	return join(ins).mem
}

func (l *Loop) EntryMem() *Mem { return l.entryMem }

// Value is the in-loop value of the variable.
func (m *Mu) Value() *Term     { return m.value() }
func (m *Mu) Addr() *Term      { return m.addr }
func (m *Mu) Phi() *ssa.Phi    { return m.phi }
func (m *Mu) Type() types.Type { return m.typ }

// SeqLike reports whether the accumulator only grows by appends.
func (m *Mu) SeqLike() bool { return m.Next != nil && seqLike(m.Next, m.Term) }

// PrevExists is the condition that an earlier iteration of l satisfied p.
func PrevExists(l *Loop, p *Term) *Term {
	return atom(mk(Term{Op: OpPrevEx, Loop: l, Args: []*Term{p}}))
}

func FinIter(l *Loop, g int) *Term {
	return l.finIterTerm(g)
}

func FieldClassName(t types.Type, i int) string {
	return fieldClass(t, t.Underlying().(*types.Struct), i)
}

// FieldOf views a by-value struct field of an exploded parameter.
func FieldOf(x *Term, i int, t types.Type) *Term { return Field(x, i, t) }

func MapHas(m, k *Term) *Term {
	return boolAtom(opaqueLd(mapAddr(m, k, "maphas", types.Typ[types.Bool]), "", types.Typ[types.Bool]))
}

func EntryAll(l *Loop) *Term { return l.EntryCond }

// PureCall is the application of a function kept opaque as pure.
func (e *Eval) PureCall(fn *ssa.Function, args ...*Term) *Term {
	rt := resultType(fn.Signature)
	r := appNorm(shortName(FuncName(fn)), rt, args)
	if tt, ok := rt.(*types.Tuple); ok {
		return lift1("tup", r, func(r *Term) *Term { return e.tupleOf(r, tt) })
	}
	return lift1("typ", r, func(r *Term) *Term { return e.typed(r, rt) })
}

// Extract is component i of a tuple.
func Extract(t *Term, i int, typ types.Type) *Term { return extract(t, i, typ) }

// Apply evaluates a function value (function or closure) in memory m.
func (e *Eval) Apply(f *Term, m *Mem, args ...*Term) *Summary {
	fn, ok := f.Fn.(*ssa.Function)
	if !ok {
		return nil
	}
	params := make([]*Term, len(fn.Params))
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			params[i] = args[i]
			continue
		}
		params[i] = e.paramTerm(p, i)
	}
	n := len(e.Events)
	e.applied++
	out, res := e.evalFunc(fn, params, f.Args, state{cond: True, mem: m}, fmt.Sprintf("apply%d", e.applied), true)
	return &Summary{Fn: fn, Params: params, Ret: res, Cond: out.cond, Mem: out.mem, Events: append([]*Event(nil), e.Events[n:]...), E: e}
}

// NonNil is the condition that an interface or pointer value is not nil.
func NonNil(t *Term) *Term { return Not(EQ(t, Nil)) }

// PostBad keeps the facts of an in-loop condition that still make sense after
// leaving by exit g: the last iteration's call results.
func PostBad(l *Loop, g int, bad *Term) *Term {
	return l.Final(nil, g, And(bad, l.Exits[g].Cond))
}

// Unversion forgets which write a load follows, for versions accepted by p.
func Unversion(t *Term, p func(ver string) bool) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		m := map[*Term]*Term{}
		var scan func(x *Term)
		seen := map[*Term]bool{}
		scan = func(x *Term) {
			if seen[x] {
				return
			}
			seen[x] = true
			if (x.Op == OpLd || x.Op == OpMapGet || x.Op == OpMapHas) && x.S != "" && p(x.S) {
				args := make([]*Term, len(x.Args))
				for i, a := range x.Args {
					args[i] = rec(a)
				}
				y := Term{Op: x.Op, Args: args, Typ: x.Typ}
				m[x] = mk(y)
				return
			}
			for _, a := range x.Args {
				scan(a)
			}
		}
		scan(t)
		r := t
		if len(m) > 0 {
			r = Subst(t, m)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// NilAsEmpty reads every test of a slice for nil as a test for emptiness.
func NilAsEmpty(t *Term) *Term {
	m := map[*Term]*Term{}
	Any(t, func(x *Term) bool {
		if x.Op == OpEQ && x.Args[1] == Nil && x.Args[0].Typ != nil {
			if _, ok := x.Args[0].Typ.Underlying().(*types.Slice); ok {
				m[x] = LE(Len(x.Args[0]), Int(0))
			}
		}
		return false
	})
	if len(m) == 0 {
		return t
	}
	return Subst(t, m)
}

// First is the least k of the domain that satisfies p.
func First(dom, pred func(k *Term) *Term) *Term {
	l := &Loop{Key: "exists"}
	l.reset()
	d := dom(l.Iter())
	p := pred(l.Iter())
	c, ok := closeOver(l, d, Restrict(p, d))
	if !ok {
		return mk(Term{Op: OpHole})
	}
	return mk(Term{Op: OpFirst, Args: []*Term{c[0], c[1]}, Typ: types.Typ[types.Int]})
}

// ElemAddrMap is the place of a map value.
func ElemAddrMap(m, k *Term, elem types.Type) *Term { return mapAddr(m, k, "map", elem) }

// CapOf is the capacity of a slice.
func CapOf(x *Term) *Term {
	return lift1("cap", x, func(x *Term) *Term {
		if x.Op == OpMakeSlice {
			return x.Args[1]
		}
		return mk(Term{Op: OpCap, Args: []*Term{x}, Typ: types.Typ[types.Int]})
	})
}

// Arg is argument i of the current call of a callback.
func (l *Loop) Arg(i int) *Term {
	if i < len(l.cbArgs) {
		return l.cbArgs[i]
	}
	return Hole
}

// Struct is a struct value.
func Struct(typ types.Type, fs ...*Term) *Term { return mk(Term{Op: OpStruct, Args: fs, Typ: typ}) }

// NewFree is a value nothing is known about.
func NewFree(name string, typ types.Type) *Term { return mk(Term{Op: OpFree, S: name, Typ: typ}) }

// RunAfter evaluates fn in the memory left by the package initialisers init.
func (e *Eval) RunAfter(init, fn *ssa.Function, args ...*Term) *Summary {
	st := state{cond: True, mem: &Mem{kind: mBase}}
	for _, p := range e.Prog.AllPackages() {
		if g := p.Var("init$guard"); g != nil {
			e.storeC(&st, True, mk(Term{Op: OpGlobal, S: g.String(), Typ: g.Type()}), False, types.Typ[types.Bool], "guard")
		}
	}
	out, _ := e.evalFunc(init, nil, nil, st, "init", false)
	params := make([]*Term, len(fn.Params))
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			params[i] = args[i]
			continue
		}
		params[i] = e.paramTerm(p, i)
	}
	n := len(e.Events)
	fin, res := e.evalFunc(fn, params, nil, state{cond: True, mem: out.mem}, "", true)
	return &Summary{Fn: fn, Params: params, Ret: res, Cond: fin.cond, Mem: fin.mem, Events: append([]*Event(nil), e.Events[n:]...), E: e}
}

// Merge makes one call of several to the same function of which at most one
// takes place, outside loops.
func (s *Summary) Merge(evs []*Event) []*Event {
	if len(evs) < 2 {
		return evs
	}
	for i, a := range evs {
		if len(a.Loops) > 0 || a.Kind != EvCall || a.Static != evs[0].Static || a.Callee != evs[0].Callee || len(a.Args) != len(evs[0].Args) || a.Res == nil || a.GoDepth > 0 || a.Defer {
			return evs
		}
		for _, b := range evs[:i] {
			if Sat(And(a.Cond, b.Cond)) {
				return evs
			}
		}
	}
	first := evs[0]
	m := map[*Term]*Term{}
	gone := map[*Event]bool{}
	for _, a := range evs[1:] {
		m[a.Res] = first.Res
		gone[a] = true
		for i := range first.Args {
			first.Args[i] = Ite(first.Cond, first.Args[i], a.Args[i])
		}
		first.Cond = Or(first.Cond, a.Cond)
	}
	sub := func(p **Term) {
		if *p != nil {
			*p = Subst(*p, m)
		}
	}
	for i := range s.Ret {
		sub(&s.Ret[i])
	}
	sub(&s.Cond)
	loops := map[*Loop]bool{}
	var events []*Event
	for _, ev := range s.Events {
		if gone[ev] {
			continue
		}
		events = append(events, ev)
		sub(&ev.Cond)
		sub(&ev.Addr)
		sub(&ev.Val)
		sub(&ev.Res)
		for i := range ev.Args {
			sub(&ev.Args[i])
		}
		if ev.Loop != nil {
			loops[ev.Loop] = true
		}
		for _, l := range ev.Loops {
			loops[l] = true
		}
	}
	s.Events = events
	for l := range loops {
		sub(&l.EntryCond)
		sub(&l.ContCond)
		for _, g := range l.Exits {
			sub(&g.Cond)
			sub(&g.E)
			for _, ed := range g.Edges {
				sub(&ed.Cond)
			}
		}
		for _, mu := range l.mus {
			sub(&mu.Init)
			sub(&mu.Next)
			sub(&mu.Closed)
		}
	}
	return []*Event{first}
}
