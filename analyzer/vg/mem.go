package vg

import (
	"go/types"
	"strings"
)

type memKind int

const (
	mBase memKind = iota
	mStore
	mLoopEntry
	mLoopExit
	mHavoc
	mCopy
)

// Mem is a node of the chain of guarded memory effects.
type Mem struct {
	kind  memKind
	prev  *Mem
	depth int
	key   string // stable site key, used as version
	class string
	addr  *Term
	val   *Term
	cond  *Term
	loop  *Loop
	exit  int
	body  *Mem
	roots []*Term // havoc: addresses
	src   *Term   // copy
	ev    *Event
}

func (m *Mem) push(n Mem) *Mem {
	n.prev = m
	n.depth = m.depth + 1
	if n.cond == nil {
		n.cond = True
	}
	return &n
}

// Class partitions addresses so that different classes never alias.
func Class(a *Term) string {
	switch a.Op {
	case OpFieldAddr:
		return a.S
	case OpIndexAddr:
		if a.S != "" {
			return a.S + ":" + typeStr(a.Args[0].Typ)
		}
		b := a.Args[0]
		if b.Op == OpAlloc {
			return "A:" + b.S
		}
		if b.Op == OpFieldAddr {
			return b.S + "[]"
		}
		return "[]" + elemStr(a.Typ)
	case OpAlloc:
		return "A:" + a.S
	case OpGlobal:
		return "G:" + a.S
	}
	return "*" + elemStr(a.Typ)
}

func typeStr(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t.Underlying(), nil)
}

// elemStr is the element type of a pointer type.
func elemStr(t types.Type) string {
	if t == nil {
		return "?"
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return types.TypeString(p.Elem(), nil)
	}
	return types.TypeString(t, nil)
}

func fresh(t *Term) bool {
	switch t.Op {
	case OpAlloc, OpMakeSlice, OpMakeMap, OpMakeChan:
		return true
	}
	return false
}

// Root strips address and slice constructors.
func Root(t *Term) *Term {
	for {
		switch t.Op {
		case OpFieldAddr, OpIndexAddr, OpSlice, OpIface, OpAssert:
			t = t.Args[0]
		default:
			return t
		}
	}
}

func preexisting(t *Term) bool {
	switch t.Op {
	case OpParam, OpGlobal, OpFree:
		return true
	case OpLd, OpMapGet:
		return t.S == "" && preexisting(Root(t.Args[0]))
	case OpField:
		return preexisting(Root(t.Args[0]))
	}
	return false
}

// distinct reports that two addresses of one class never coincide.
func distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.Op == OpIndexAddr && b.Op == OpIndexAddr {
		if a.Args[0] == b.Args[0] {
			d := Sub(a.Args[1], b.Args[1])
			if d.IsInt() && d.C != 0 {
				return true
			}
			x, y := a.Args[1], b.Args[1]
			if x.Op == OpConst && y.Op == OpConst {
				return x != y
			}
			return false
		}
		return distinctPtr(a.Args[0], b.Args[0])
	}
	if a.Op == OpFieldAddr && b.Op == OpFieldAddr {
		if a.N != b.N && a.Args[0] == b.Args[0] {
			return true
		}
		if a.Args[0].Op == b.Args[0].Op && (a.Args[0].Op == OpIndexAddr || a.Args[0].Op == OpFieldAddr) {
			return distinct(a.Args[0], b.Args[0])
		}
		return distinctPtr(a.Args[0], b.Args[0])
	}
	return distinctPtr(a, b)
}

func distinctPtr(a, b *Term) bool {
	ra, rb := Root(a), Root(b)
	if ra == rb {
		return false
	}
	if ra.Op == OpAlloc && rb.Op == OpAlloc && ra.S == rb.S {
		// objects made at one place in different rounds
		if len(ra.Args) == 1 && len(rb.Args) == 1 {
			d := Sub(ra.Args[0], rb.Args[0])
			return d.IsInt() && d.C != 0
		}
		return false
	}
	if fresh(ra) && fresh(rb) {
		return true
	}
	if fresh(ra) && preexisting(rb) || fresh(rb) && preexisting(ra) {
		return true
	}
	if ra.Op == OpGlobal && rb.Op == OpGlobal {
		return true
	}
	if ra.Op == OpAlloc && !mayBe(rb, ra, nil) || rb.Op == OpAlloc && !mayBe(ra, rb, nil) {
		return true
	}
	// locals that only hold scalars are reached through their own address only
	if ra.Op == OpAlloc && rb.Op != OpAlloc && a == ra || rb.Op == OpAlloc && ra.Op != OpAlloc && b == rb {
		return true
	}
	if ra.Op == OpConv || rb.Op == OpConv || ra.Op == OpApp || rb.Op == OpApp {
		return true
	}
	return false
}

// storedIn records, per fresh object, the classes of the cells that may hold
// its address.
var storedIn = map[*Term]map[string]bool{}

func noteStored(val *Term, class string) {
	Any(val, func(x *Term) bool {
		if x.Op == OpAlloc {
			m := storedIn[x]
			if m == nil {
				m = map[string]bool{}
				storedIn[x] = m
			}
			m[class] = true
		}
		return false
	})
}

// mayBe reports whether pointer p may equal the fresh object a.
func mayBe(p, a *Term, seen map[*Term]bool) bool {
	if p == a {
		return true
	}
	if seen[p] {
		return false
	}
	if seen == nil {
		seen = map[*Term]bool{}
	}
	seen[p] = true
	switch p.Op {
	case OpAlloc, OpMakeSlice, OpMakeMap, OpParam, OpGlobal, OpNil, OpFree, OpApp, OpConv, OpRes, OpCbArg:
		return false
	case OpAssert, OpIface, OpFieldAddr, OpIndexAddr:
		return mayBe(p.Args[0], a, seen)
	case OpITE:
		return mayBe(p.Args[1], a, seen) || mayBe(p.Args[2], a, seen)
	case OpLd:
		if p.S == "" && preexisting(Root(p.Args[0])) {
			return false
		}
		return storedIn[a][Class(p.Args[0])]
	case OpMu, OpFinMu:
		m := MuOf(p)
		if m == nil {
			return false
		}
		if m.Init != nil && mayBe(m.Init, a, seen) {
			return true
		}
		return m.Next != nil && mayBe(m.Next, a, seen)
	case OpExtract:
		return mayBe(p.Args[0], a, seen)
	}
	return true
}

// distinctAcross is distinct without relying on loop-varying indices.
func distinctAcross(a, b *Term) bool {
	ra, rb := Root(a), Root(b)
	if ra == rb {
		// same root: constant field/index difference only
		if a.Op == OpFieldAddr && b.Op == OpFieldAddr && a.Args[0] == b.Args[0] && a.N != b.N {
			return true
		}
		if a.Op == OpIndexAddr && b.Op == OpIndexAddr && a.Args[0] == b.Args[0] && a.Args[1].Op == OpConst && b.Args[1].Op == OpConst {
			return a.Args[1] != b.Args[1]
		}
		return false
	}
	return distinctPtr(a, b)
}

type loadKey struct {
	m *Mem
	a *Term
}

// load reads a scalar cell.
func (e *Eval) load(m *Mem, addr *Term, typ types.Type) *Term {
	return lift1("load", addr, func(a *Term) *Term {
		k := loadKey{m, a}
		if r, ok := e.loadMemo[k]; ok {
			return r
		}
		r := e.loadLeaf(m, a, typ)
		if isBoolType(typ) {
			r = boolAtom(r)
		}
		e.loadMemo[k] = r
		return r
	})
}

func opaqueLd(a *Term, ver string, typ types.Type, in ...*Loop) *Term {
	// element of []rune(s)
	if a.Op == OpIndexAddr && a.Args[0].Op == OpConv && a.Args[0].S == "string->runes" {
		s := a.Args[0].Args[0]
		return appNorm("runeat", types.Typ[types.Rune], []*Term{s, ROff(s, Int(0), a.Args[1])})
	}
	// element of a sequence built by one append per iteration
	if a.Op == OpIndexAddr && a.S == "" && a.Args[0].Op == OpSeqLoop {
		if el := seqElem(a.Args[0], a.Args[1]); el != nil {
			return el
		}
	}
	if a.Op == OpIndexAddr && a.S == "" && a.Args[0].Op == OpAppend {
		if el := appendElem(a.Args[0], a.Args[1]); el != nil {
			return el
		}
	}
	if a.Op == OpIndexAddr && a.Args[0] == Nil {
		if a.S == "maphas" {
			return False
		}
		if a.S == "map" {
			return zero(typ)
		}
	}
	if a.Op == OpIndexAddr && a.S == "maphas" {
		return mkIn(Term{Op: OpMapHas, Args: a.Args, S: ver, Typ: typ}, in)
	}
	if a.Op == OpIndexAddr && a.S == "map" {
		return mkIn(Term{Op: OpMapGet, Args: a.Args, S: ver, Typ: typ}, in)
	}
	if a.Op == OpIndexAddr && a.Args[0].Op == OpSeqLit && a.Args[1].IsInt() && int(a.Args[1].C) < len(a.Args[0].Args) && a.Args[1].C >= 0 {
		return a.Args[0].Args[a.Args[1].C]
	}
	return mkIn(Term{Op: OpLd, Args: []*Term{a}, S: ver, Typ: typ}, in)
}

func (e *Eval) loadLeaf(m *Mem, a *Term, typ types.Type) *Term {
	if v := tableLoad(a, typ); v != nil {
		return v
	}
	class := Class(a)
	for ; m != nil; m = m.prev {
		switch m.kind {
		case mBase:
			if a.Op == OpIndexAddr && a.S != "" && a.Args[0].Op == OpMakeMap {
				return zero(typ)
			}
			if r := Root(a); r.Op == OpAlloc || r.Op == OpMakeSlice {
				return zero(typ)
			}
			return opaqueLd(a, "", typ)
		case mStore:
			if m.class != class {
				continue
			}
			if m.addr == a {
				if m.cond == True {
					return m.val
				}
				return Ite(m.cond, m.val, e.load(m.prev, a, typ))
			}
			if distinct(m.addr, a) {
				continue
			}
			v := opaqueLd(a, m.key, typ)
			if m.cond == True {
				return v
			}
			return Ite(m.cond, v, e.load(m.prev, a, typ))
		case mHavoc:
			hit := false
			for _, r := range m.roots {
				if within(a, r) {
					hit = true
				}
			}
			if !hit {
				continue
			}
			v := opaqueLd(a, m.key, typ, e.loopsOfKey(m)...)
			if m.cond == True {
				return v
			}
			return Ite(m.cond, v, e.load(m.prev, a, typ))
		case mCopy:
			if m.class != class || a.Op != OpIndexAddr {
				continue
			}
			if a.Args[0] == m.addr {
				v := e.load(m.prev, IndexAddr(m.src, a.Args[1], a.Typ), typ)
				return Ite(m.cond, v, e.load(m.prev, a, typ))
			}
			if distinctPtr(m.addr, a) {
				continue
			}
			return opaqueLd(a, m.key, typ)
		case mLoopEntry:
			switch m.loop.cellKind(a, class) {
			case cellNone:
				continue
			case cellScalar:
				return m.loop.cellMu(e, a, typ)
			}
			return opaqueLd(a, m.loop.Key+"@", typ, m.loop)
		case mLoopExit:
			kind := m.loop.cellKind(a, class)
			if kind == cellNone {
				continue
			}
			var v *Term
			if kind == cellScalar {
				v = m.loop.Final(e, m.exit, e.load(m.body, a, typ))
			} else if w := e.loopElem(m, a, class, typ); w != nil {
				v = w
			} else if w := e.instElem(m, a, class, typ); w != nil {
				v = w
			} else {
				v = opaqueLd(a, m.loop.Key+"$", typ)
			}
			if m.cond == True {
				return v
			}
			return Ite(m.cond, v, e.load(m.prev, a, typ))
		}
	}
	return opaqueLd(a, "", typ)
}

// seqElem is element idx of a sequence accumulated by one unconditional
// append per iteration, starting empty.
func seqElem(t, idx *Term) *Term {
	l := t.Loop
	m := l.mus[t.S]
	if m == nil || m.Next == nil || l.Callback {
		return nil
	}
	if n := Len(m.Init); !n.IsConst(0) {
		return nil
	}
	if l.muLen(m.Term) != l.Iter() {
		return nil
	}
	nx := m.Next
	if nx.Op == OpITE {
		return nil
	}
	el := nx.Args[1].Args[0]
	return AtIter(el, l, idx)
}

// AtIter evaluates an in-loop term at iteration idx; a fresh object becomes
// that iteration's instance.
func AtIter(t *Term, l *Loop, idx *Term) *Term {
	m := map[*Term]*Term{l.Iter(): idx}
	Any(t, func(x *Term) bool {
		if x.Op == OpAlloc && len(x.Args) == 0 && x.Varies(l) {
			y := *x
			y.Args = []*Term{idx}
			y.loops = nil
			m[x] = mk(y)
		}
		return false
	})
	r := Subst(t, m)
	if r.Varies(l) {
		return nil
	}
	return r
}

func appendElem(t, idx *Term) *Term {
	if !idx.IsInt() {
		return nil
	}
	n := Len(t.Args[0])
	if !n.IsInt() {
		return nil
	}
	i := idx.C - n.C
	for _, p := range t.Args[1:] {
		if p.Op != OpSeqLit {
			return nil
		}
		if i >= 0 && i < int64(len(p.Args)) {
			return p.Args[i]
		}
		i -= int64(len(p.Args))
	}
	return nil
}

func (e *Eval) loopsOfKey(m *Mem) []*Loop {
	if m.ev != nil {
		return m.ev.Loops
	}
	return nil
}

// within reports whether address a lies inside the object at r.
func within(a, r *Term) bool {
	for {
		if a == r {
			return true
		}
		switch a.Op {
		case OpFieldAddr, OpIndexAddr:
			a = a.Args[0]
		default:
			return false
		}
	}
}

func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	if s != nil && s.NumFields() > 40 {
		return nil
	}
	return s
}

func fieldClass(st types.Type, s *types.Struct, i int) string {
	return types.TypeString(st, nil) + "." + s.Field(i).Name()
}

// Load reads a value of the given type.
func (e *Eval) Load(m *Mem, addr *Term, typ types.Type) *Term {
	if s := structOf(typ); s != nil && !(addr.Op == OpIndexAddr && addr.S == "map") {
		return lift1("loads", addr, func(a *Term) *Term {
			args := make([]*Term, s.NumFields())
			for i := range args {
				ft := s.Field(i).Type()
				args[i] = e.Load(m, FieldAddr(a, i, fieldClass(typ, s, i), types.NewPointer(ft)), ft)
			}
			return mk(Term{Op: OpStruct, Args: args, Typ: typ})
		})
	}
	return e.load(m, addr, typ)
}

// store writes a value under the current state.
func (e *Eval) store(st *state, addr, val *Term, typ types.Type, key string) {
	if s := structOf(typ); s != nil && !(addr.Op == OpIndexAddr && addr.S == "map") {
		for _, lf := range Leaves(addr, True) {
			for i := 0; i < s.NumFields(); i++ {
				ft := s.Field(i).Type()
				e.storeC(st, lf.Cond, FieldAddr(lf.Val, i, fieldClass(typ, s, i), types.NewPointer(ft)), Field(val, i, ft), ft, key)
			}
		}
		return
	}
	e.storeC(st, True, addr, val, typ, key)
}

func (e *Eval) storeC(st *state, cond, addr, val *Term, typ types.Type, key string) {
	if s := structOf(typ); s != nil && !(addr.Op == OpIndexAddr && addr.S == "map") {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			e.storeC(st, cond, FieldAddr(addr, i, fieldClass(typ, s, i), types.NewPointer(ft)), Field(val, i, ft), ft, key)
		}
		return
	}
	for _, lf := range Leaves(addr, True) {
		a := lf.Val
		c := And(cond, lf.Cond)
		noteStored(val, Class(a))
		st.mem = st.mem.push(Mem{kind: mStore, class: Class(a), addr: a, val: val, cond: c, key: key})
		for _, l := range e.loopStack {
			l.noteStore(a)
		}
	}
}

// merge joins two memories reached under exclusive conditions (relative to
// the join).
func mergeMem(a *Mem, ca *Term, b *Mem, cb *Term) *Mem {
	if a == b {
		return a
	}
	x, y := a, b
	var xs, ys []*Mem
	for x.depth > y.depth {
		xs = append(xs, x)
		x = x.prev
	}
	for y.depth > x.depth {
		ys = append(ys, y)
		y = y.prev
	}
	for x != y {
		xs = append(xs, x)
		ys = append(ys, y)
		x, y = x.prev, y.prev
	}
	r := x
	app := func(ns []*Mem, c *Term) {
		for i := len(ns) - 1; i >= 0; i-- {
			n := *ns[i]
			g := And(n.cond, c)
			if g == False {
				continue
			}
			n.cond = g
			r = r.push(n)
		}
	}
	app(xs, ca)
	app(ys, cb)
	return r
}

func zero(t types.Type) *Term {
	if t == nil {
		return Nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsBoolean != 0:
			return False
		}
		return mk(Term{Op: OpConst, S: "z:" + u.String()})
	case *types.Struct:
		if s := structOf(t); s != nil {
			args := make([]*Term, s.NumFields())
			for i := range args {
				args[i] = zero(s.Field(i).Type())
			}
			return mk(Term{Op: OpStruct, Args: args, Typ: t})
		}
		return mk(Term{Op: OpConst, S: "z:" + t.String()})
	case *types.Array:
		return mk(Term{Op: OpConst, S: "z:" + t.String()})
	}
	return Nil
}

func shortPkg(s string) string {
	return strings.ReplaceAll(s, "github.com/ikawaha/kagome/v2/", "")
}

// instElem reads a field of the object that a completed loop made in a given
// round, when each round writes only to its own object.
func (e *Eval) instElem(m *Mem, a *Term, class string, typ types.Type) *Term {
	l := m.loop
	if l.Callback || m.exit >= len(l.Exits) || !l.Exits[m.exit].Header || len(l.Exits[m.exit].Edges) != 1 {
		return nil
	}
	r := Root(a)
	if r.Op != OpAlloc || len(r.Args) != 1 || a.Op != OpFieldAddr || a.Args[0] != r {
		return nil
	}
	var st *Term
	for s := range l.stores {
		if Class(s) != class || distinctAcross(s, a) {
			continue
		}
		if st != nil {
			return nil
		}
		st = s
	}
	for h := range l.havocs {
		if within(a, h) {
			return nil
		}
	}
	if st == nil || st.Op != OpFieldAddr || st.Args[0].Op != OpAlloc || len(st.Args[0].Args) != 0 || st.Args[0].S != r.S || !st.Varies(l) {
		return nil
	}
	v := AtIter(e.load(l.BackMem(), st, typ), l, r.Args[0])
	d := l.Domain()
	if v == nil || d == nil {
		return nil
	}
	dk := AtIter(d, l, r.Args[0])
	if dk == nil {
		return nil
	}
	if !nonNeg(r.Args[0]) {
		dk = And(dk, LE(Int(0), r.Args[0]))
	}
	return Ite(dk, v, opaqueLd(a, m.loop.Key+"$", typ))
}

// loopElem reads an element of a slice that a completed loop filled at an
// index that advances with the iteration.
func (e *Eval) loopElem(m *Mem, a *Term, class string, typ types.Type) *Term {
	l := m.loop
	if l.Callback || m.exit >= len(l.Exits) || !l.Exits[m.exit].Header || len(l.Exits[m.exit].Edges) != 1 {
		return nil
	}
	fa := a
	var path []*Term
	for fa.Op == OpFieldAddr {
		path = append(path, fa)
		fa = fa.Args[0]
	}
	if fa.Op != OpIndexAddr || fa.S != "" {
		return nil
	}
	var st *Term
	for s := range l.stores {
		if Class(s) != class || distinctAcross(s, a) {
			continue
		}
		if st != nil {
			return nil
		}
		st = s
	}
	for h := range l.havocs {
		if within(a, h) {
			return nil
		}
	}
	if st == nil {
		return nil
	}
	si := st
	for si.Op == OpFieldAddr {
		si = si.Args[0]
	}
	if si.Op != OpIndexAddr || si.Args[0] != fa.Args[0] || si.Args[0].Varies(l) {
		return nil
	}
	off := Sub(si.Args[1], l.Iter())
	if off.Varies(l) {
		return nil
	}
	k := Sub(fa.Args[1], off)
	d := l.Domain()
	if d == nil {
		return nil
	}
	dk := AtIter(d, l, k)
	if dk == nil {
		return nil
	}
	v := e.load(l.BackMem(), st, typ)
	vk := AtIter(v, l, k)
	if vk == nil {
		return nil
	}
	in := dk
	if !nonNeg(k) {
		in = And(dk, LE(Int(0), k))
	}
	return Ite(in, vk, e.load(m.prev, a, typ))
}
