package vg

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type EvKind string

const (
	EvStore  EvKind = "store"
	EvCall   EvKind = "call"
	EvReturn EvKind = "return" // of the entry function
	EvMap    EvKind = "mapupdate"
	EvSend   EvKind = "send"
	EvRecv   EvKind = "recv"
	EvSelect EvKind = "select"
	EvGo     EvKind = "go"
	EvPanic  EvKind = "panic"
	EvCopy   EvKind = "copy"
	EvDefer  EvKind = "defer"
	EvAppend EvKind = "append"
	EvClose  EvKind = "close"
	EvInline EvKind = "inline" // entry of an inlined function
	EvLoop   EvKind = "loop"   // a loop was entered
	EvBounds EvKind = "bounds" // an operation that panics unless Val holds
)

// Event is one observable step under its path condition.
type Event struct {
	Kind    EvKind
	Pos     token.Pos
	Fn      *ssa.Function
	Inst    string
	Cond    *Term
	Loops   []*Loop
	Addr    *Term
	Val     *Term
	Callee  string
	Static  *ssa.Function
	Args    []*Term
	Res     *Term
	Mem     *Mem
	After   *Mem    // memory after the call, where the call has effects
	Chans   []*Term // select: the channel received from, or nil, by case
	GoDepth int
	Defer   bool // executed as a deferred call
	Instr   ssa.Instruction
	Loop    *Loop
}

type state struct {
	cond *Term
	mem  *Mem
}

type inEdge struct {
	pred *ssa.BasicBlock
	st   state
	phis map[*ssa.Phi]*Term
}

type deferred struct {
	cond *Term
	call *ssa.CallCommon
	fnv  *Term
	args []*Term
	in   ssa.Instruction
	loop bool
}

type frame struct {
	fn     *ssa.Function
	inst   string
	vals   map[ssa.Value]*Term
	cfg    *cfg
	loops  map[*natLoop]*Loop
	defers []deferred
	rets   []retval
	entry  bool
}

type retval struct {
	st   state
	vals []*Term
	pos  token.Pos
}

// Eval builds the value graph of one entry function.
type Eval struct {
	Prog      *ssa.Program
	Events    []*Event
	loopStack []*Loop
	loops     map[string]*Loop
	stack     []*ssa.Function
	loadMemo  map[loadKey]*Term
	Opaque    func(*ssa.Function) bool
	IsRepo    func(*ssa.Function) bool
	PureFn    func(*ssa.Function) bool // opaque functions that are pure
	goDepth   int
	inDefer   int
	flagAddrs []*Term
	cfgs      map[*ssa.Function]*cfg
	Problems  []string
	steps     int
	Visited   map[*ssa.Function]bool
	runID     string
	applied   int
	elemMap   func(*Term) *Term
	Unroll    int    // loops with at most this many rounds, all decided, are unrolled
	Track     *Term  // walks over this text are kept as machines, see Machine
	Tag       string // sets the parameters of this run apart from those of others
	Bounds    bool   // record what may panic, see EvBounds
}

// Summary is the result of evaluating an entry function.
type Summary struct {
	Fn     *ssa.Function
	Params []*Term
	Ret    []*Term
	Cond   *Term // condition of returning normally
	Mem    *Mem
	Events []*Event
	E      *Eval
}

var evalSeq int

func NewEval(prog *ssa.Program, isRepo, opaque func(*ssa.Function) bool) *Eval {
	evalSeq++
	return &Eval{Prog: prog, loops: map[string]*Loop{}, loadMemo: map[loadKey]*Term{}, Opaque: opaque, IsRepo: isRepo, cfgs: map[*ssa.Function]*cfg{}, Visited: map[*ssa.Function]bool{}, runID: fmt.Sprintf("r%d", evalSeq)}
}

// Run evaluates fn with symbolic parameters (or the given ones).
func (e *Eval) Run(fn *ssa.Function, args ...*Term) *Summary {
	params := make([]*Term, len(fn.Params))
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			params[i] = args[i]
			continue
		}
		params[i] = e.paramTerm(p, i)
	}
	var binds []*Term
	for i, fv := range fn.FreeVars {
		binds = append(binds, mk(Term{Op: OpFree, S: fv.Name() + e.Tag, N: i, Typ: fv.Type()}))
	}
	st := state{cond: True, mem: &Mem{kind: mBase}}
	out, res := e.evalFunc(fn, params, binds, st, "", true)
	return &Summary{Fn: fn, Params: params, Ret: res, Cond: out.cond, Mem: out.mem, Events: e.Events, E: e}
}

func (e *Eval) paramTerm(p *ssa.Parameter, i int) *Term {
	t := mk(Term{Op: OpParam, S: p.Name() + e.Tag, N: i, Typ: p.Type()})
	if isBoolType(p.Type()) {
		return boolAtom(t)
	}
	if s := structOf(p.Type()); s != nil {
		return explode(t, p.Type(), s)
	}
	return t
}

func explode(t *Term, typ types.Type, s *types.Struct) *Term {
	args := make([]*Term, s.NumFields())
	for i := range args {
		ft := s.Field(i).Type()
		f := mk(Term{Op: OpField, N: i, S: s.Field(i).Name(), Args: []*Term{t}, Typ: ft})
		if fs := structOf(ft); fs != nil {
			f = explode(f, ft, fs)
		} else if isBoolType(ft) {
			f = boolAtom(f)
		}
		args[i] = f
	}
	return mk(Term{Op: OpStruct, Args: args, Typ: typ})
}

func (e *Eval) problem(format string, a ...any) {
	e.Problems = append(e.Problems, fmt.Sprintf(format, a...))
}

func (e *Eval) emit(ev *Event) *Event {
	ev.Loops = append([]*Loop(nil), e.loopStack...)
	ev.GoDepth = e.goDepth
	ev.Defer = e.inDefer > 0
	if ev.Instr != nil {
		ev.Pos = ev.Instr.Pos()
		ev.Fn = ev.Instr.Parent()
	}
	rs := func(t *Term) *Term {
		if t == nil || ev.Cond == nil {
			return t
		}
		return Restrict(t, ev.Cond)
	}
	ev.Val = rs(ev.Val)
	ev.Addr = rs(ev.Addr)
	for i := range ev.Args {
		ev.Args[i] = rs(ev.Args[i])
	}
	e.Events = append(e.Events, ev)
	return ev
}

// bounds records an operation that panics unless ok holds.
func (e *Eval) bounds(f *frame, in ssa.Instruction, st *state, what string, x, i, ok *Term) {
	if Implies(st.cond, ok) {
		ok = True
	}
	e.emit(&Event{Kind: EvBounds, Instr: in, Inst: f.inst, Cond: st.cond, Addr: x, Args: []*Term{i}, Val: ok, Callee: what, Mem: st.mem})
}

// FuncName is a stable name of a function.
func FuncName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func (e *Eval) cfgOf(fn *ssa.Function) *cfg {
	c := e.cfgs[fn]
	if c == nil {
		c = buildCFG(fn)
		e.cfgs[fn] = c
		if c.err != nil {
			e.problem("%v", c.err)
		}
	}
	return c
}

const maxSteps = 4000000

func (e *Eval) evalFunc(fn *ssa.Function, args, binds []*Term, st state, inst string, entry bool) (state, []*Term) {
	e.Visited[fn] = true
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	f := &frame{fn: fn, inst: inst, vals: map[ssa.Value]*Term{}, cfg: e.cfgOf(fn), loops: map[*natLoop]*Loop{}, entry: entry}
	for i, p := range fn.Params {
		if i < len(args) {
			f.vals[p] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(binds) {
			f.vals[v] = binds[i]
		}
	}
	e.evalRegion(f, nil, []inEdge{{st: st}}, nil, nil)
	if len(f.rets) == 0 {
		n := fn.Signature.Results().Len()
		res := make([]*Term, n)
		for i := range res {
			res[i] = zero(fn.Signature.Results().At(i).Type())
		}
		return state{cond: False, mem: st.mem}, res
	}
	var ins []inEdge
	for _, r := range f.rets {
		ins = append(ins, inEdge{st: r.st})
	}
	out := join(ins)
	n := len(f.rets[0].vals)
	res := make([]*Term, n)
	for i := 0; i < n; i++ {
		v := f.rets[len(f.rets)-1].vals[i]
		for j := len(f.rets) - 2; j >= 0; j-- {
			v = Ite(f.rets[j].st.cond, f.rets[j].vals[i], v)
		}
		res[i] = Restrict(v, out.cond)
	}
	return out, res
}

func join(ins []inEdge) state {
	if len(ins) == 1 {
		return ins[0].st
	}
	c := False
	for _, i := range ins {
		c = Or(c, i.st.cond)
	}
	m := ins[0].st.mem
	mc := Restrict(ins[0].st.cond, c)
	for _, i := range ins[1:] {
		ic := Restrict(i.st.cond, c)
		m = mergeMem(m, mc, i.st.mem, ic)
		mc = Or(mc, ic)
	}
	return state{cond: c, mem: m}
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

func edgePhis(f *frame, e *Eval, from, to *ssa.BasicBlock, st state) map[*ssa.Phi]*Term {
	ps := phisOf(to)
	if len(ps) == 0 {
		return nil
	}
	m := map[*ssa.Phi]*Term{}
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
		}
	}
	for _, p := range ps {
		m[p] = e.get(f, p.Edges[k], from, st)
	}
	return m
}

// evalRegion evaluates the blocks of loop nl (or the whole function) starting
// at its entry; edges to the header and out of the region are reported.
func (e *Eval) evalRegion(f *frame, nl *natLoop, in []inEdge, back func(inEdge), exit func(from, to *ssa.BasicBlock, ie inEdge)) {
	pending := map[*ssa.BasicBlock][]inEdge{}
	var entry *ssa.BasicBlock
	if nl == nil {
		entry = f.fn.Blocks[0]
	} else {
		entry = nl.header
	}
	pending[entry] = in
	send := func(from, to *ssa.BasicBlock, ie inEdge) {
		if ie.st.cond == False || !Sat(ie.st.cond) {
			return
		}
		switch {
		case nl != nil && to == nl.header:
			back(ie)
		case nl != nil && !nl.blocks[to]:
			exit(from, to, ie)
		default:
			pending[to] = append(pending[to], ie)
		}
	}
	for _, b := range f.cfg.rpo {
		if nl != nil && !nl.blocks[b] {
			continue
		}
		ins := pending[b]
		if len(ins) == 0 {
			continue
		}
		inner := f.cfg.inner[b]
		if inner != nl {
			// only headers of direct children are entered here
			if inner == nil || inner.header != b || inner.parent != nl {
				continue
			}
			if n := e.rounds(f, inner, ins); n > 0 && e.unroll(f, inner, ins, n, send) {
				continue
			}
			for _, g := range e.evalLoop(f, inner, ins) {
				send(b, g.Target, inEdge{pred: b, st: g.st, phis: g.phis})
			}
			continue
		}
		st := join(ins)
		if b != entry || nl == nil {
			for _, p := range phisOf(b) {
				v := ins[len(ins)-1].phis[p]
				for i := len(ins) - 2; i >= 0; i-- {
					v = Ite(ins[i].st.cond, ins[i].phis[p], v)
				}
				f.vals[p] = Restrict(v, st.cond)
			}
		}
		e.block(f, b, st, send)
	}
}

func (e *Eval) get(f *frame, v ssa.Value, use *ssa.BasicBlock, st state) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Global:
		return mk(Term{Op: OpGlobal, S: v.String(), Typ: v.Type()})
	case *ssa.Function:
		return mk(Term{Op: OpFunc, S: v.String(), Fn: v, Typ: v.Type()})
	case *ssa.Builtin:
		return mk(Term{Op: OpFunc, S: "builtin:" + v.Name()})
	}
	t, ok := f.vals[v]
	if !ok {
		// unreachable definition
		return mk(Term{Op: OpRes, S: "undef:" + f.inst + v.Name(), N: -1, Typ: v.Type()})
	}
	if in, ok := v.(ssa.Instruction); ok && use != nil {
		changed := false
		for nl := f.cfg.inner[in.Block()]; nl != nil && !nl.blocks[use]; nl = nl.parent {
			l := f.loops[nl]
			if p, ok := v.(*ssa.Phi); ok && l != nil && l.guard != nil && p.Block() == nl.header {
				t = l.finalPhi(e, p, t)
				changed = true
			} else if l != nil && t.Varies(l) {
				t = l.FinalAny(e, t)
				changed = true
			}
		}
		if changed {
			t = Restrict(t, st.cond)
		}
	}
	return t
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return True
		}
		return False
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int:
		if n, ok := constant.Int64Val(c.Value); ok {
			if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
				return mk(Term{Op: OpConst, S: "f:" + c.Value.ExactString(), Val: c.Value})
			}
			return Int(n)
		}
	}
	return mk(Term{Op: OpConst, S: "f:" + c.Value.ExactString(), Val: c.Value})
}

func (e *Eval) block(f *frame, b *ssa.BasicBlock, st state, send func(from, to *ssa.BasicBlock, ie inEdge)) {
	for _, in := range b.Instrs {
		e.steps++
		if e.steps > maxSteps {
			panic("analysis budget exhausted")
		}
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := boolAtom(e.get(f, in.Cond, b, st))
			t, el := And(st.cond, c), And(st.cond, Not(c))
			s1 := state{cond: t, mem: st.mem}
			s2 := state{cond: el, mem: st.mem}
			send(b, b.Succs[0], inEdge{pred: b, st: s1, phis: edgePhis(f, e, b, b.Succs[0], s1)})
			if b.Succs[0] == b.Succs[1] {
				// phi edges differ by index; both resolved to the last one
				e.problem("%s: degenerate branch", f.fn)
			}
			send(b, b.Succs[1], inEdge{pred: b, st: s2, phis: edgePhis(f, e, b, b.Succs[1], s2)})
			return
		case *ssa.Jump:
			send(b, b.Succs[0], inEdge{pred: b, st: st, phis: edgePhis(f, e, b, b.Succs[0], st)})
			return
		case *ssa.Return:
			vals := make([]*Term, len(in.Results))
			for i, r := range in.Results {
				vals[i] = Restrict(e.get(f, r, b, st), st.cond)
			}
			f.rets = append(f.rets, retval{st: st, vals: vals, pos: in.Pos()})
			if f.entry {
				e.emit(&Event{Kind: EvReturn, Instr: in, Inst: f.inst, Cond: st.cond, Args: append([]*Term(nil), vals...), Mem: st.mem})
			}
			return
		case *ssa.Panic:
			e.emit(&Event{Kind: EvPanic, Instr: in, Inst: f.inst, Cond: st.cond, Val: e.get(f, in.X, b, st), Mem: st.mem})
			return
		}
		e.instr(f, b, in, &st)
		if st.cond == False {
			return
		}
	}
}

func (e *Eval) key(f *frame, in ssa.Instruction) string {
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			return fmt.Sprintf("%s/%s.%d.%d", f.inst, f.fn.Name(), b.Index, i)
		}
	}
	return f.inst + "?"
}

func (e *Eval) fresh(op Op, f *frame, in ssa.Instruction, typ types.Type, args ...*Term) *Term {
	return mkIn(Term{Op: op, S: e.runID + e.key(f, in), N: 0, Typ: typ, Args: args}, e.loopStack)
}

func (e *Eval) instr(f *frame, b *ssa.BasicBlock, in ssa.Instruction, st *state) {
	get := func(v ssa.Value) *Term { return e.get(f, v, b, *st) }
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		a := e.fresh(OpAlloc, f, in, in.Type())
		f.vals[in] = a
		if len(e.loopStack) > 0 || f.cfg.inner[b] != nil {
			t := deref(in.Type())
			if _, ok := t.Underlying().(*types.Array); !ok {
				e.store(st, a, zero(t), t, "zero")
			}
		}
	case *ssa.BinOp:
		if e.Bounds && (in.Op == token.QUO || in.Op == token.REM) && isInt(in.Type()) {
			e.bounds(f, in, st, "division", nil, get(in.Y), Not(EQ(get(in.Y), Int(0))))
		}
		f.vals[in] = binop(in.Op, get(in.X), get(in.Y), in.X.Type(), in.Type())
		if n := len(e.loopStack); n > 0 && (in.Op == token.EQL || in.Op == token.NEQ) {
			if l := e.loopStack[n-1]; l.Fn == f.fn && l.Header == b {
				f.vals[in] = l.notBeyond(f.fn, in, f.vals[in])
			}
		}
	case *ssa.UnOp:
		x := get(in.X)
		switch in.Op {
		case token.MUL:
			if e.Bounds {
				e.bounds(f, in, st, "nil dereference", x, nil, NonNil(x))
			}
			f.vals[in] = e.Load(st.mem, Restrict(x, st.cond), in.Type())
			if isBoolType(in.Type()) {
				f.vals[in] = boolAtom(f.vals[in])
			}
		case token.NOT:
			f.vals[in] = Not(boolAtom(x))
		case token.SUB:
			if isInt(in.Type()) {
				f.vals[in] = truncTo(Neg(x), in.Type())
			} else {
				f.vals[in] = mk(Term{Op: OpBin, S: "neg", Args: []*Term{x}, Typ: in.Type()})
			}
		case token.ARROW:
			r := e.fresh(OpRes, f, in, in.Type())
			e.emit(&Event{Kind: EvRecv, Instr: in, Inst: f.inst, Cond: st.cond, Addr: x, Res: r, Mem: st.mem})
			if in.CommaOk {
				f.vals[in] = e.tupleOf(r, in.Type().(*types.Tuple))
			} else {
				f.vals[in] = e.typed(r, in.Type())
			}
		default:
			f.vals[in] = mk(Term{Op: OpBin, S: in.Op.String(), Args: []*Term{x}, Typ: in.Type()})
		}
	case *ssa.ChangeType:
		f.vals[in] = get(in.X)
	case *ssa.ChangeInterface:
		f.vals[in] = get(in.X)
	case *ssa.Convert:
		f.vals[in] = convert(get(in.X), in.X.Type(), in.Type(), e, f, in, st)
	case *ssa.MultiConvert:
		f.vals[in] = convert(get(in.X), in.X.Type(), in.Type(), e, f, in, st)
	case *ssa.SliceToArrayPointer:
		f.vals[in] = e.fresh(OpRes, f, in, in.Type())
	case *ssa.MakeInterface:
		x := get(in.X)
		ts := types.TypeString(in.X.Type(), nil)
		f.vals[in] = lift1("iface", x, func(x *Term) *Term {
			return mk(Term{Op: OpIface, S: ts, Args: []*Term{x}, Typ: in.X.Type()})
		})
		if isBoolType(in.X.Type()) {
			f.vals[in] = mk(Term{Op: OpIface, S: ts, Args: []*Term{x}, Typ: in.X.Type()})
		}
	case *ssa.Extract:
		t := get(in.Tuple)
		f.vals[in] = extract(t, in.Index, in.Type())
	case *ssa.Slice:
		f.vals[in] = e.slice(f, in, get, st)
	case *ssa.MakeSlice:
		n := get(in.Len)
		c := get(in.Cap)
		if e.Bounds {
			e.bounds(f, in, st, "make", nil, n, And(LE(Int(0), n), LE(n, c)))
		}
		f.vals[in] = e.fresh(OpMakeSlice, f, in, in.Type(), n, c)
		e.emit(&Event{Kind: "make", Instr: in, Inst: f.inst, Cond: st.cond, Args: []*Term{n, c}, Res: f.vals[in], Mem: st.mem})
	case *ssa.MakeMap:
		f.vals[in] = e.fresh(OpMakeMap, f, in, in.Type())
	case *ssa.MakeChan:
		f.vals[in] = e.fresh(OpMakeChan, f, in, in.Type(), get(in.Size))
	case *ssa.MakeClosure:
		args := make([]*Term, len(in.Bindings))
		for i, x := range in.Bindings {
			args[i] = get(x)
		}
		f.vals[in] = mk(Term{Op: OpClosure, S: in.Fn.(*ssa.Function).String(), Fn: in.Fn, Args: args, Typ: in.Type()})
	case *ssa.FieldAddr:
		pt := deref(in.X.Type())
		s := pt.Underlying().(*types.Struct)
		if e.Bounds {
			e.bounds(f, in, st, "nil dereference", get(in.X), nil, NonNil(get(in.X)))
		}
		f.vals[in] = FieldAddr(get(in.X), in.Field, fieldClass(pt, s, in.Field), in.Type())
	case *ssa.Field:
		x := get(in.X)
		v := Field(x, in.Field, in.Type())
		if isBoolType(in.Type()) {
			v = boolAtom(v)
		}
		f.vals[in] = v
	case *ssa.IndexAddr:
		x := get(in.X)
		if e.Bounds {
			n := Len(x)
			if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
				n = Int(p.Elem().Underlying().(*types.Array).Len())
			}
			e.bounds(f, in, st, "index", x, get(in.Index), And(LE(Int(0), get(in.Index)), LT(get(in.Index), n)))
		}
		f.vals[in] = IndexAddr(get(in.X), get(in.Index), in.Type())
	case *ssa.Index:
		if e.Bounds {
			n := Len(get(in.X))
			if a, ok := in.X.Type().Underlying().(*types.Array); ok {
				n = Int(a.Len())
			}
			e.bounds(f, in, st, "index", get(in.X), get(in.Index), And(LE(Int(0), get(in.Index)), LT(get(in.Index), n)))
		}
		f.vals[in] = lift2("idx", get(in.X), get(in.Index), func(x, i *Term) *Term {
			if x.Op == OpLd {
				if v := tableLoad(mk(Term{Op: OpIndexAddr, Args: []*Term{x.Args[0], i}}), in.Type()); v != nil {
					return v
				}
			}
			return mk(Term{Op: OpIndex, Args: []*Term{x, i}, Typ: in.Type()})
		})
	case *ssa.Lookup:
		x, k := get(in.X), get(in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			if e.Bounds {
				e.bounds(f, in, st, "index", x, k, And(LE(Int(0), k), LT(k, Len(x))))
			}
			f.vals[in] = lift2("idx", x, k, func(x, i *Term) *Term {
				return mk(Term{Op: OpIndex, Args: []*Term{x, i}, Typ: in.Type()})
			})
			return
		}
		mt := in.X.Type().Underlying().(*types.Map)
		v := e.load(st.mem, mapAddr(x, k, "map", mt.Elem()), mt.Elem())
		if in.CommaOk {
			has := e.load(st.mem, mapAddr(x, k, "maphas", types.Typ[types.Bool]), types.Typ[types.Bool])
			f.vals[in] = mk(Term{Op: OpTuple, Args: []*Term{v, has}})
		} else {
			f.vals[in] = e.orZero(st.mem, x, k, v, mt.Elem())
		}
	case *ssa.Range:
		f.vals[in] = mk(Term{Op: OpApp, S: "range", Args: []*Term{get(in.X)}, Typ: in.X.Type()})
	case *ssa.Next:
		f.vals[in] = e.next(f, b, in, get(in.Iter), st)
	case *ssa.TypeAssert:
		x := get(in.X)
		ts := types.TypeString(in.AssertedType, nil)
		v := lift1("assert", x, func(x *Term) *Term {
			if x.Op == OpIface && x.S == ts {
				return x.Args[0]
			}
			return mk(Term{Op: OpAssert, S: ts, Args: []*Term{x}, Typ: in.AssertedType})
		})
		if in.CommaOk {
			ok := lift1("typeis", x, func(x *Term) *Term {
				if x.Op == OpIface && x.S == ts {
					return True
				}
				return boolAtom(App("typeis:"+ts, types.Typ[types.Bool], x))
			})
			f.vals[in] = mk(Term{Op: OpTuple, Args: []*Term{v, ok}})
		} else {
			if e.Bounds {
				ok := lift1("typeis", x, func(x *Term) *Term {
					if x.Op == OpIface && x.S == ts {
						return True
					}
					return boolAtom(App("typeis:"+ts, types.Typ[types.Bool], x))
				})
				e.bounds(f, in, st, "type assertion", x, nil, ok)
			}
			f.vals[in] = v
		}
	case *ssa.Store:
		a, v := get(in.Addr), get(in.Val)
		a = Restrict(a, st.cond)
		e.emit(&Event{Kind: EvStore, Instr: in, Inst: f.inst, Cond: st.cond, Addr: a, Val: v, Mem: st.mem})
		e.store(st, a, Restrict(v, st.cond), in.Val.Type(), e.runID+e.key(f, in))
	case *ssa.MapUpdate:
		m, k, v := get(in.Map), get(in.Key), get(in.Value)
		if e.Bounds {
			e.bounds(f, in, st, "write to a nil map", m, nil, NonNil(m))
		}
		e.emit(&Event{Kind: EvMap, Instr: in, Inst: f.inst, Cond: st.cond, Addr: m, Args: []*Term{m, k, v}, Val: v, Mem: st.mem})
		mt := in.Map.Type().Underlying().(*types.Map)
		key := e.runID + e.key(f, in)
		e.storeC(st, True, mapAddr(m, k, "map", mt.Elem()), v, mt.Elem(), key)
		e.storeC(st, True, mapAddr(m, k, "maphas", types.Typ[types.Bool]), True, types.Typ[types.Bool], key)
	case *ssa.Send:
		e.emit(&Event{Kind: EvSend, Instr: in, Inst: f.inst, Cond: st.cond, Addr: get(in.Chan), Val: get(in.X), Mem: st.mem})
	case *ssa.Select:
		r := e.fresh(OpRes, f, in, in.Type())
		ev := &Event{Kind: EvSelect, Instr: in, Inst: f.inst, Cond: st.cond, Res: r, Mem: st.mem}
		for _, s := range in.States {
			ch := get(s.Chan)
			ev.Args = append(ev.Args, ch)
			if s.Send != nil {
				ev.Args = append(ev.Args, get(s.Send))
				ch = nil
			}
			ev.Chans = append(ev.Chans, ch)
		}
		// the index is that of one of the cases, or -1
		tup := e.tupleOf(r, in.Type().(*types.Tuple))
		n := len(in.States)
		idx := Int(int64(n - 1))
		if !in.Blocking {
			idx = Int(-1)
			n++
		}
		for i := n - 2; i >= 0; i-- {
			idx = Ite(EQ(tup.Args[0], Int(int64(i))), Int(int64(i)), idx)
		}
		args := append([]*Term(nil), tup.Args...)
		args[0] = idx
		ev.Val = idx
		e.emit(ev)
		f.vals[in] = mk(Term{Op: OpTuple, Args: args})
	case *ssa.Go:
		args := e.callArgs(f, &in.Call, b, st)
		fv := e.calleeTerm(f, &in.Call, b, st)
		e.emit(&Event{Kind: EvGo, Instr: in, Inst: f.inst, Cond: st.cond, Addr: fv, Args: append([]*Term(nil), args...), Callee: calleeName(&in.Call), Mem: st.mem})
		e.goDepth++
		s2 := *st
		e.call(f, in, &in.Call, fv, args, &s2, e.key(f, in))
		e.goDepth--
	case *ssa.Defer:
		args := e.callArgs(f, &in.Call, b, st)
		fv := e.calleeTerm(f, &in.Call, b, st)
		e.emit(&Event{Kind: EvDefer, Instr: in, Inst: f.inst, Cond: st.cond, Addr: fv, Args: append([]*Term(nil), args...), Callee: calleeName(&in.Call), Static: in.Call.StaticCallee(), Mem: st.mem})
		f.defers = append(f.defers, deferred{cond: st.cond, call: &in.Call, fnv: fv, args: args, in: in, loop: f.cfg.inner[b] != nil})
	case *ssa.RunDefers:
		e.inDefer++
		for i := len(f.defers) - 1; i >= 0; i-- {
			d := f.defers[i]
			c := d.cond
			if d.loop {
				c = True
			}
			g := And(st.cond, c)
			if !Sat(g) {
				continue
			}
			s2 := state{cond: g, mem: st.mem}
			e.call(f, d.in, d.call, d.fnv, d.args, &s2, e.key(f, in)+fmt.Sprint("d", i))
			if g == st.cond {
				*st = s2
			} else {
				rel := Restrict(g, st.cond)
				st.mem = mergeMem(s2.mem, rel, st.mem, Not(rel))
			}
		}
		e.inDefer--
	case *ssa.Call:
		args := e.callArgs(f, &in.Call, b, st)
		fv := e.calleeTerm(f, &in.Call, b, st)
		f.vals[in] = e.call(f, in, &in.Call, fv, args, st, e.key(f, in))
	default:
		e.problem("%s: unhandled %T", f.fn, in)
		if v, ok := in.(ssa.Value); ok {
			f.vals[v] = e.fresh(OpRes, f, in, v.Type())
		}
	}
}

func mapAddr(m, k *Term, kind string, elem types.Type) *Term {
	return lift2("mapaddr", m, k, func(m, k *Term) *Term {
		return mk(Term{Op: OpIndexAddr, S: kind, Args: []*Term{m, k}, Typ: types.NewPointer(elem)})
	})
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// truncTo marks arithmetic performed in a narrow integer type.
func truncTo(x *Term, t types.Type) *Term {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return x
	}
	switch b.Kind() {
	case types.Int8, types.Int16, types.Int32, types.Uint8, types.Uint16, types.Uint32, types.Uint, types.Uint64, types.Uintptr:
		return lift1("trunc", x, func(x *Term) *Term {
			if x.IsInt() {
				if v, ok := fits(x.C, b.Kind()); ok {
					return Int(v)
				}
			}
			if x.Op == OpTrunc && x.S == b.Name() {
				return x
			}
			return mk(Term{Op: OpTrunc, S: b.Name(), Args: []*Term{x}, Typ: t})
		})
	}
	return x
}

func fits(v int64, k types.BasicKind) (int64, bool) {
	switch k {
	case types.Int8:
		return v, v >= -128 && v <= 127
	case types.Int16:
		return v, v >= -32768 && v <= 32767
	case types.Int32:
		return v, v >= -1<<31 && v <= 1<<31-1
	case types.Uint8:
		return v, v >= 0 && v <= 255
	case types.Uint16:
		return v, v >= 0 && v <= 65535
	case types.Uint32:
		return v, v >= 0 && v <= 1<<32-1
	case types.Uint, types.Uint64, types.Uintptr:
		return v, v >= 0
	}
	return v, true
}

func binop(op token.Token, x, y *Term, xt, t types.Type) *Term {
	str := false
	intg := isInt(xt)
	if b, ok := xt.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		str = true
	}
	switch op {
	case token.ADD:
		if str {
			return lift2("cat", x, y, func(a, b *Term) *Term { return Concat(a, b) })
		}
		if intg {
			return truncTo(Add(x, y), t)
		}
	case token.SUB:
		if intg {
			return truncTo(Sub(x, y), t)
		}
	case token.MUL:
		if intg {
			return truncTo(Mul(x, y), t)
		}
	case token.EQL:
		return EQ(x, y)
	case token.NEQ:
		return Not(EQ(x, y))
	case token.LSS:
		if intg {
			return LT(x, y)
		}
	case token.LEQ:
		if intg {
			return LE(x, y)
		}
	case token.GTR:
		if intg {
			return LT(y, x)
		}
	case token.GEQ:
		if intg {
			return LE(y, x)
		}
	}
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return lift2("cmp", x, y, func(a, b *Term) *Term {
			switch op {
			case token.GTR:
				return boolAtom(App("<", types.Typ[types.Bool], b, a))
			case token.GEQ:
				return Not(boolAtom(App("<", types.Typ[types.Bool], a, b)))
			case token.LEQ:
				return Not(boolAtom(App("<", types.Typ[types.Bool], b, a)))
			}
			return boolAtom(App("<", types.Typ[types.Bool], a, b))
		})
	}
	return lift2("bin"+op.String(), x, y, func(a, b *Term) *Term {
		switch op {
		case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
			if a.ID > b.ID {
				a, b = b, a
			}
		}
		return mk(Term{Op: OpBin, S: op.String(), Args: []*Term{a, b}, Typ: t})
	})
}

var intSize = map[types.BasicKind]int{types.Int8: 1, types.Int16: 2, types.Int32: 4, types.Int64: 8, types.Int: 8, types.Uint8: 1, types.Uint16: 2, types.Uint32: 4, types.Uint64: 8, types.Uint: 8, types.Uintptr: 8}

func convert(x *Term, from, to types.Type, e *Eval, f *frame, in ssa.Instruction, st *state) *Term {
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if fok && tok {
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			fs, ts := intSize[fb.Kind()], intSize[tb.Kind()]
			fu, tu := fb.Info()&types.IsUnsigned != 0, tb.Info()&types.IsUnsigned != 0
			if fb.Kind() == types.UntypedInt || fb.Kind() == types.UntypedRune {
				return truncTo(x, to)
			}
			if fu == tu && ts >= fs || fu && !tu && ts > fs {
				return x
			}
			return lift1("conv", x, func(x *Term) *Term {
				if x.IsInt() {
					if _, ok := fits(x.C, tb.Kind()); ok {
						return x
					}
				}
				// int -> uint widening of something known non-negative
				if tu && ts >= fs && nonNeg(x) {
					return x
				}
				return mk(Term{Op: OpTrunc, S: tb.Name(), Args: []*Term{x}, Typ: to})
			})
		}
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return x
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0 {
			return lift1("conv", x, func(x *Term) *Term {
				return mk(Term{Op: OpConv, S: "rune->string", Args: []*Term{x}, Typ: to})
			})
		}
		return lift1("conv", x, func(x *Term) *Term {
			return mk(Term{Op: OpConv, S: tb.Name(), Args: []*Term{x}, Typ: to})
		})
	}
	kind := ""
	if sl, ok := to.Underlying().(*types.Slice); ok && fok && fb.Info()&types.IsString != 0 {
		if eb, ok := sl.Elem().Underlying().(*types.Basic); ok {
			if eb.Kind() == types.Uint8 {
				kind = "string->bytes"
			} else {
				kind = "string->runes"
			}
		}
	}
	if sl, ok := from.Underlying().(*types.Slice); ok && tok && tb.Info()&types.IsString != 0 {
		if eb, ok := sl.Elem().Underlying().(*types.Basic); ok {
			if eb.Kind() == types.Uint8 {
				kind = "bytes->string"
			} else {
				kind = "runes->string"
			}
		}
	}
	if kind == "" {
		return lift1("conv", x, func(x *Term) *Term {
			return mk(Term{Op: OpConv, S: types.TypeString(to, nil), Args: []*Term{x}, Typ: to})
		})
	}
	return lift1("conv", x, func(x *Term) *Term {
		if kind == "bytes->string" && x.Op == OpConv && x.S == "string->bytes" {
			return x.Args[0]
		}
		if kind == "bytes->string" {
			if y := e.bytesContent(f, x, st); y != nil {
				return y
			}
		}
		return mk(Term{Op: OpConv, S: kind, Args: []*Term{x}, Typ: to})
	})
}

// bytesContent resolves (*bytes.Buffer) style contents; none are modelled.
func (e *Eval) bytesContent(f *frame, x *Term, st *state) *Term { return nil }

func extract(t *Term, i int, typ types.Type) *Term {
	v := lift1(fmt.Sprint("ex", i), t, func(t *Term) *Term {
		if t.Op == OpTuple && i < len(t.Args) {
			return t.Args[i]
		}
		r := mk(Term{Op: OpExtract, N: i, Args: []*Term{t}, Typ: typ})
		if isBoolType(typ) {
			return boolAtom(r)
		}
		return r
	})
	return v
}

func (e *Eval) typed(r *Term, typ types.Type) *Term {
	if isBoolType(typ) {
		return boolAtom(r)
	}
	if s := structOf(typ); s != nil && r.Op != OpStruct {
		return explode(r, typ, s)
	}
	return r
}

func (e *Eval) tupleOf(r *Term, tt *types.Tuple) *Term {
	args := make([]*Term, tt.Len())
	for i := range args {
		x := mk(Term{Op: OpExtract, N: i, Args: []*Term{r}, Typ: tt.At(i).Type()})
		args[i] = e.typed(x, tt.At(i).Type())
	}
	return mk(Term{Op: OpTuple, Args: args})
}

func (e *Eval) slice(f *frame, in *ssa.Slice, get func(ssa.Value) *Term, st *state) *Term {
	x := get(in.X)
	var lo, hi *Term
	if in.Low != nil {
		lo = get(in.Low)
	}
	if in.High != nil {
		hi = get(in.High)
	}
	if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		if at, ok := p.Elem().Underlying().(*types.Array); ok && hi == nil {
			hi = Int(at.Len())
		}
	}
	if e.Bounds {
		l, h := lo, hi
		if l == nil {
			l = Int(0)
		}
		if h == nil {
			h = Len(x)
		}
		// beyond the length of a slice only within its capacity
		n := Len(x)
		if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			n = Int(p.Elem().Underlying().(*types.Array).Len())
		}
		ok := And(And(LE(Int(0), l), LE(l, h)), LE(h, n))
		if _, isS := in.X.Type().Underlying().(*types.Slice); isS && in.High != nil {
			ok = And(And(LE(Int(0), l), LE(l, h)), Or(LE(h, n), LE(h, CapOf(x))))
		}
		e.bounds(f, in, st, "slice", x, h, ok)
	}
	r := Slice(x, lo, hi)
	return lift1("st", r, func(r *Term) *Term {
		if r.Op == OpSlice && r.Typ == nil {
			r.Typ = in.Type()
		}
		return r
	})
}

func (e *Eval) next(f *frame, b *ssa.BasicBlock, in *ssa.Next, it *Term, st *state) *Term {
	nl := f.cfg.inner[b]
	var l *Loop
	if nl != nil {
		l = f.loops[nl]
	}
	x := it.Args[0]
	if l == nil || nl.header != b {
		e.problem("%s: range outside a loop header", f.fn)
		r := e.fresh(OpRes, f, in, in.Type())
		return e.tupleOf(r, in.Type().(*types.Tuple))
	}
	i := l.Iter()
	if in.IsString {
		l.Rune = true
		ok := LT(i, appNorm("runecount", types.Typ[types.Int], []*Term{x}))
		off := lift1("ro", x, func(x *Term) *Term { return ROff(x, Int(0), i) })
		r := appNorm("runeat", types.Typ[types.Rune], []*Term{x, off})
		return mk(Term{Op: OpTuple, Args: []*Term{ok, off, r}})
	}
	mt := x.Typ
	var kt, vt types.Type = types.Typ[types.Invalid], types.Typ[types.Invalid]
	if mt != nil {
		if m, ok := mt.Underlying().(*types.Map); ok {
			kt, vt = m.Key(), m.Elem()
		}
	}
	n := App("maplen", types.Typ[types.Int], x)
	k := e.typed(App("mapkey", kt, x, i), kt)
	v := e.typed(App("mapval", vt, x, i), vt)
	return mk(Term{Op: OpTuple, Args: []*Term{LT(i, n), k, v}})
}

// ---- loops ----

func (e *Eval) evalLoop(f *frame, nl *natLoop, in []inEdge) []*ExitGroup {
	key := e.runID + f.inst + "/" + f.fn.Name() + fmt.Sprintf("#%d", nl.header.Index)
	l := e.loops[key]
	if l == nil {
		l = &Loop{Key: key, Fn: f.fn, Header: nl.header, track: e.Track}
		for _, x := range nl.header.Instrs {
			if x.Pos().IsValid() {
				l.Pos = x.Pos()
				break
			}
		}
		e.loops[key] = l
	}
	l.reset()
	f.loops[nl] = l
	if n := len(e.loopStack); n > 0 {
		l.Parent = e.loopStack[n-1]
	}
	st := join(in)
	l.EntryCond = st.cond
	l.entryMem = st.mem
	phis := phisOf(nl.header)
	for _, p := range phis {
		v := in[len(in)-1].phis[p]
		for i := len(in) - 2; i >= 0; i-- {
			v = Ite(in[i].st.cond, in[i].phis[p], v)
		}
		m := l.mu("phi:"+p.Name(), p.Type())
		m.phi = p
		m.Init = Restrict(v, st.cond)
	}
	l.guard = nil
	if g := guardOf(f.fn, nl); g != nil && l.mu("phi:"+g.phi.Name(), g.phi.Type()).Init == g.val {
		l.guard = g
	}
	evBase := len(e.Events)
	e.emit(&Event{Kind: EvLoop, Inst: f.inst, Cond: st.cond, Loop: l, Pos: l.Pos, Fn: f.fn, Mem: st.mem})
	evBase2 := len(e.Events)
	_ = evBase
	deferBase := len(f.defers)
	e.loopStack = append(e.loopStack, l)
	var edges []*ExitEdge
	pass := func() map[*ssa.Phi][]*Term {
		e.Events = e.Events[:evBase2]
		f.defers = f.defers[:deferBase]
		l.newStores = map[*Term]bool{}
		l.newHavocs = map[*Term]bool{}
		l.backs = nil
		edges = nil
		retBase := len(f.rets)
		for _, m := range l.mus {
			if m.addr != nil {
				m.Next = nil
				m.Init = e.load(l.entryMem, m.addr, m.typ)
			}
		}
		nexts := map[*ssa.Phi][]*Term{}
		for _, p := range phis {
			f.vals[p] = l.mu("phi:"+p.Name(), p.Type()).value()
		}
		if l.guard != nil {
			f.vals[l.guard.phi] = l.guard.val
		}
		bst := state{cond: st.cond, mem: st.mem.push(Mem{kind: mLoopEntry, loop: l})}
		e.evalRegion(f, nl, []inEdge{{st: bst}}, func(ie inEdge) {
			if g := l.guard; g != nil {
				v := ie.phis[g.phi]
				stay := EQ(v, g.val)
				switch g.val {
				case True:
					stay = v
				case False:
					stay = Not(v)
				}
				leave := state{cond: And(ie.st.cond, Not(stay)), mem: ie.st.mem}
				if leave.cond != False && Sat(leave.cond) {
					old := map[*ssa.Phi]*Term{}
					rot := map[*ssa.Phi]*Term{}
					for _, p := range phis {
						old[p] = f.vals[p]
						rot[p] = Restrict(ie.phis[p], leave.cond)
						f.vals[p] = rot[p]
					}
					edges = append(edges, &ExitEdge{From: ie.pred, to: g.to, Cond: leave.cond, st: leave, Phis: edgePhis(f, e, g.at, g.to, leave), rot: rot})
					for p, v := range old {
						f.vals[p] = v
					}
				}
				ie.st.cond = And(ie.st.cond, stay)
				if ie.st.cond == False || !Sat(ie.st.cond) {
					return
				}
				ps := map[*ssa.Phi]*Term{}
				for p, v := range ie.phis {
					ps[p] = Restrict(v, ie.st.cond)
				}
				ps[g.phi] = g.val
				ie.phis = ps
			}
			l.backs = append(l.backs, ie.st)
			for _, p := range phis {
				nexts[p] = append(nexts[p], ie.phis[p])
			}
		}, func(from, to *ssa.BasicBlock, ie inEdge) {
			edges = append(edges, &ExitEdge{From: from, Cond: ie.st.cond, st: ie.st, Phis: ie.phis})
			edges[len(edges)-1].to = to
		})
		f.rets = f.rets[:retBase]
		l.ContCond = False
		for _, b := range l.backs {
			l.ContCond = Or(l.ContCond, b.cond)
		}
		return nexts
	}
	dirty := true
	for n := 0; n < 12; n++ {
		nexts := pass()
		if !l.sameSets() {
			l.stores, l.havocs = l.newStores, l.newHavocs
			continue
		}
		changed := false
		for _, m := range l.Mus() {
			if m.phi != nil {
				m.Next = l.relNext(nexts[m.phi])
			} else {
				l.cellNext(e, m)
			}
		}
		for _, m := range l.Mus() {
			if l.solve(m) {
				changed = true
			}
		}
		if !changed {
			dirty = false
			break
		}
	}
	if dirty {
		e.problem("%s: loop at block %d did not stabilise", f.fn, nl.header.Index)
	}
	e.loopStack = e.loopStack[:len(e.loopStack)-1]
	l.Events = append([]*Event(nil), e.Events[evBase2:]...)
	// exits
	escapes := false // values of the loop are used after it
	for _, v := range outerUses(f.fn, nl) {
		escapes = escapes || f.vals[v] != nil && f.vals[v].Varies(l) || l.guard != nil
	}
	for _, ed := range edges {
		var g *ExitGroup
		for _, x := range l.Exits {
			if x.Target == ed.to && sameEdge(x.Edges[0], ed) && (!escapes || l.head(x.Edges[0].From) == l.head(ed.From)) && (x.Edges[0].rot == nil) == (ed.rot == nil) {
				g = x
			}
		}
		if g == nil {
			g = &ExitGroup{Target: ed.to, Cond: False}
			l.Exits = append(l.Exits, g)
		}
		g.Edges = append(g.Edges, ed)
		g.Cond = Or(g.Cond, ed.Cond)
	}
	for _, g := range l.Exits {
		g.Cond = Restrict(g.Cond, l.EntryCond)
		g.Header = len(g.Edges) == 1 && l.head(g.Edges[0].From) && g.Edges[0].rot == nil
	}
	l.setExitConds()
	for _, g := range l.Exits {
		var ins []inEdge
		for _, ed := range g.Edges {
			ins = append(ins, inEdge{st: ed.st})
		}
		body := join(ins).mem
		mem := l.entryMem
		if len(l.stores) > 0 || len(l.havocs) > 0 {
			mem = mem.push(Mem{kind: mLoopExit, loop: l, exit: g.Index, body: body})
		}
		g.st = state{cond: And(l.EntryCond, g.E), mem: mem}
		if ps := phisOf(g.Target); len(ps) > 0 {
			g.phis = map[*ssa.Phi]*Term{}
			for _, p := range ps {
				v := g.Edges[0].Phis[p]
				g.phis[p] = Restrict(l.Final(e, g.Index, Restrict(v, g.Cond)), g.st.cond)
			}
		}
	}
	return l.Exits
}

// rounds is the number of rounds up to which a loop may be unrolled: loops
// over a table, or that count to a small constant, are whatever e.Unroll says.
func (e *Eval) rounds(f *frame, nl *natLoop, in []inEdge) int {
	const small = 16
	if c, ok := nl.header.Instrs[len(nl.header.Instrs)-1].(*ssa.If); ok && len(in) == 1 {
		if b, ok := c.Cond.(*ssa.BinOp); ok && (b.Op == token.GTR || b.Op == token.GEQ) {
			p, isPhi := b.X.(*ssa.Phi)
			k, isK := b.Y.(*ssa.Const)
			if isPhi && isK && p.Block() == nl.header && in[0].phis[p] != nil {
				// counts down from at most a small constant
				n := Sub(in[0].phis[p], constTerm(k))
				if m := upper(n); m >= 0 && m < small && int(m)+1 > e.Unroll {
					return int(m) + 1
				}
			}
		}
	}
	if c, ok := nl.header.Instrs[len(nl.header.Instrs)-1].(*ssa.If); ok {
		if b, ok := c.Cond.(*ssa.BinOp); ok && b.Op == token.LSS {
			var n *Term
			if k, ok := b.Y.(*ssa.Const); ok {
				n = constTerm(k)
			} else {
				n = f.vals[b.Y]
			}
			if n != nil && n.IsInt() && n.C <= small && n.C > int64(e.Unroll) {
				return int(n.C)
			}
		}
	}
	return e.Unroll
}

// upper is a constant bound of n from above, or -1.
func upper(n *Term) int64 {
	if n.IsInt() {
		return n.C
	}
	if n.Op != OpLin {
		return -1
	}
	for i, a := range n.Args {
		if n.Co[i] > 0 || !nonNeg(a) {
			return -1
		}
	}
	return n.C
}

// unroll evaluates a loop round by round when at most max rounds are
// possible. It reports false, with nothing done, otherwise.
func (e *Eval) unroll(f *frame, nl *natLoop, in []inEdge, max int, send func(from, to *ssa.BasicBlock, ie inEdge)) bool {
	nEv, nDef, nRet := len(e.Events), len(f.defers), len(f.rets)
	inst := f.inst
	defer func() { f.inst = inst }()
	type out struct {
		from, to *ssa.BasicBlock
		ie       inEdge
		vals     map[ssa.Value]*Term
	}
	var outs []out
	used := outerUses(f.fn, nl)
	cur := in
	for n := 0; len(cur) > 0; n++ {
		if n > max {
			e.Events, f.defers, f.rets = e.Events[:nEv], f.defers[:nDef], f.rets[:nRet]
			return false
		}
		f.inst = fmt.Sprintf("%s~%d.%d", inst, nl.header.Index, n)
		st := join(cur)
		for _, p := range phisOf(nl.header) {
			v := cur[len(cur)-1].phis[p]
			for i := len(cur) - 2; i >= 0; i-- {
				v = Ite(cur[i].st.cond, cur[i].phis[p], v)
			}
			f.vals[p] = Restrict(v, st.cond)
		}
		var back []inEdge
		e.evalRegion(f, nl, []inEdge{{st: st}}, func(ie inEdge) {
			back = append(back, ie)
		}, func(from, to *ssa.BasicBlock, ie inEdge) {
			o := out{from, to, ie, map[ssa.Value]*Term{}}
			for _, v := range used {
				if t, ok := f.vals[v]; ok {
					o.vals[v] = t
				}
			}
			outs = append(outs, o)
		})
		cur = back
	}
	// values of the loop that are used after it
	for _, v := range used {
		var t *Term
		for i := len(outs) - 1; i >= 0; i-- {
			x, ok := outs[i].vals[v]
			if !ok {
				continue
			}
			if t == nil {
				t = x
			} else {
				t = Ite(outs[i].ie.st.cond, x, t)
			}
		}
		if t != nil {
			f.vals[v] = t
		}
	}
	for _, o := range outs {
		send(o.from, o.to, o.ie)
	}
	return true
}

// outerUses lists the values defined in a loop and used outside.
func outerUses(fn *ssa.Function, nl *natLoop) []ssa.Value {
	var out []ssa.Value
	for _, b := range fn.Blocks {
		if !nl.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if !nl.blocks[r.Block()] {
					out = append(out, v)
					break
				}
			}
		}
	}
	return out
}

func sameEdge(a, b *ExitEdge) bool {
	if a.st.mem != b.st.mem {
		return false
	}
	if len(a.Phis) != len(b.Phis) {
		return false
	}
	for p, v := range a.Phis {
		if b.Phis[p] != v {
			return false
		}
	}
	return true
}

// callbackLoop evaluates a function value invoked repeatedly by an external
// call with unknown arguments.
func (e *Eval) callbackLoop(f *frame, in ssa.Instruction, fv *Term, name string, inst string, st *state) *Loop {
	key := e.runID + inst + "/cb#" + name
	l := e.loops[key]
	if l == nil {
		l = &Loop{Key: key, Fn: f.fn, Callback: true, Pos: in.Pos()}
		e.loops[key] = l
	}
	l.reset()
	if n := len(e.loopStack); n > 0 {
		l.Parent = e.loopStack[n-1]
	}
	l.EntryCond = st.cond
	l.entryMem = st.mem
	fn, binds := funcOf(fv)
	if fn == nil {
		return nil
	}
	args := make([]*Term, len(fn.Params))
	for i, p := range fn.Params {
		args[i] = e.typed(mk(Term{Op: OpCbArg, Loop: l, N: i, Typ: p.Type()}), p.Type())
	}
	l.cbArgs = args
	e.emit(&Event{Kind: EvLoop, Inst: f.inst, Cond: st.cond, Loop: l, Pos: in.Pos(), Fn: f.fn, Mem: st.mem})
	base := len(e.Events)
	e.loopStack = append(e.loopStack, l)
	for n := 0; n < 12; n++ {
		e.Events = e.Events[:base]
		l.newStores = map[*Term]bool{}
		l.newHavocs = map[*Term]bool{}
		for _, m := range l.mus {
			m.Next = nil
			m.Init = e.load(l.entryMem, m.addr, m.typ)
		}
		bst := state{cond: st.cond, mem: st.mem.push(Mem{kind: mLoopEntry, loop: l})}
		var res []*Term
		bst, res = e.evalFunc(fn, args, binds, bst, inst+"/cb", false)
		l.CbRes = res
		l.backs = []state{bst}
		l.ContCond = bst.cond
		if !l.sameSets() {
			l.stores, l.havocs = l.newStores, l.newHavocs
			continue
		}
		changed := false
		for _, m := range l.Mus() {
			l.cellNext(e, m)
		}
		for _, m := range l.Mus() {
			if l.solve(m) {
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	e.loopStack = e.loopStack[:len(e.loopStack)-1]
	l.Events = append([]*Event(nil), e.Events[base:]...)
	if len(l.stores) > 0 || len(l.havocs) > 0 {
		// the callback may not run at all: the state after the call is the state
		// at the head of an iteration
		head := st.mem.push(Mem{kind: mLoopEntry, loop: l})
		st.mem = st.mem.push(Mem{kind: mLoopExit, loop: l, exit: 0, body: head})
	}
	return l
}

func funcOf(t *Term) (*ssa.Function, []*Term) {
	switch t.Op {
	case OpFunc:
		if fn, ok := t.Fn.(*ssa.Function); ok {
			return fn, nil
		}
	case OpClosure:
		return t.Fn.(*ssa.Function), t.Args
	}
	return nil, nil
}

// ---- calls ----

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
	}
	if fn := c.StaticCallee(); fn != nil {
		return FuncName(fn)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin:" + b.Name()
	}
	return "dynamic"
}

func (e *Eval) callArgs(f *frame, c *ssa.CallCommon, b *ssa.BasicBlock, st *state) []*Term {
	args := make([]*Term, len(c.Args))
	for i, a := range c.Args {
		args[i] = Restrict(e.get(f, a, b, *st), st.cond)
	}
	return args
}

func (e *Eval) calleeTerm(f *frame, c *ssa.CallCommon, b *ssa.BasicBlock, st *state) *Term {
	return Restrict(e.get(f, c.Value, b, *st), st.cond)
}

func (e *Eval) onStack(fn *ssa.Function) bool {
	for _, s := range e.stack {
		if s == fn {
			return true
		}
	}
	return false
}

func resultType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (e *Eval) pack(res []*Term) *Term {
	if len(res) == 1 {
		return res[0]
	}
	return mk(Term{Op: OpTuple, Args: res})
}

// call evaluates a call; fv is the callee value, or the receiver of an invoke.
func (e *Eval) call(f *frame, in ssa.Instruction, c *ssa.CallCommon, fv *Term, args []*Term, st *state, key string) *Term {
	if c.IsInvoke() {
		// resolve the dynamic type when known
		lv := Leaves(fv, st.cond)
		known := true
		for _, x := range lv {
			if x.Val.Op != OpIface {
				known = false
			}
		}
		if !known || len(lv) == 0 || len(lv) > 4 {
			return e.external(f, in, c, calleeName(c), nil, append([]*Term{fv}, args...), st, key)
		}
		return e.perLeaf(lv, st, func(v *Term, s *state, k string) *Term {
			fn := e.Prog.LookupMethod(v.Typ, c.Method.Pkg(), c.Method.Name())
			if fn == nil {
				return e.external(f, in, c, calleeName(c), nil, append([]*Term{v}, args...), s, key+k)
			}
			return e.callFn(f, in, c, fn, nil, append([]*Term{v.Args[0]}, args...), s, key+k)
		})
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(f, in, c, b.Name(), args, st, key)
	}
	lv := Leaves(fv, st.cond)
	if len(lv) == 0 {
		lv = []Leaf{{True, fv}}
	}
	return e.perLeaf(lv, st, func(v *Term, s *state, k string) *Term {
		fn, binds := funcOf(v)
		if fn == nil {
			return e.external(f, in, c, "dynamic", nil, append([]*Term{v}, args...), s, key+k)
		}
		return e.callFn(f, in, c, fn, binds, args, s, key+k)
	})
}

func (e *Eval) perLeaf(lv []Leaf, st *state, fn func(v *Term, s *state, k string) *Term) *Term {
	if len(lv) == 1 {
		return fn(lv[0].Val, st, "")
	}
	var ins []inEdge
	var vals []*Term
	for i, x := range lv {
		s := state{cond: And(st.cond, x.Cond), mem: st.mem}
		r := fn(x.Val, &s, fmt.Sprintf("l%d", i))
		ins = append(ins, inEdge{st: s})
		vals = append(vals, r)
	}
	*st = join(ins)
	if vals[0] == nil {
		return nil
	}
	tup := func(t *Term) []*Term {
		if t.Op == OpTuple {
			return t.Args
		}
		return []*Term{t}
	}
	n := len(tup(vals[0]))
	res := make([]*Term, n)
	for i := range res {
		r := tup(vals[len(vals)-1])[i]
		for j := len(vals) - 2; j >= 0; j-- {
			r = Ite(ins[j].st.cond, tup(vals[j])[i], r)
		}
		res[i] = Restrict(r, st.cond)
	}
	if vals[0].Op == OpTuple {
		return mk(Term{Op: OpTuple, Args: res})
	}
	return res[0]
}

func (e *Eval) callFn(f *frame, in ssa.Instruction, c *ssa.CallCommon, fn *ssa.Function, binds, args []*Term, st *state, key string) *Term {
	if e.IsRepo(fn) && len(fn.Blocks) > 0 && !e.onStack(fn) && !e.Opaque(fn) && len(e.stack) < 24 {
		e.emit(&Event{Kind: EvInline, Instr: in, Inst: key, Cond: st.cond, Callee: FuncName(fn), Static: fn, Args: append([]*Term(nil), args...), Mem: st.mem})
		s, res := e.evalFunc(fn, args, binds, *st, key, false)
		*st = s
		if len(res) == 0 {
			return nil
		}
		return e.pack(res)
	}
	return e.external(f, in, c, FuncName(fn), fn, args, st, key)
}

func (e *Eval) builtin(f *frame, in ssa.Instruction, c *ssa.CallCommon, name string, args []*Term, st *state, key string) *Term {
	switch name {
	case "len":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			return lift1("ml", args[0], func(x *Term) *Term { return App("maplen", types.Typ[types.Int], x) })
		}
		return Len(args[0])
	case "cap":
		return lift1("cap", args[0], func(x *Term) *Term {
			if x.Op == OpMakeSlice {
				return x.Args[1]
			}
			return mk(Term{Op: OpCap, Args: []*Term{x}, Typ: types.Typ[types.Int]})
		})
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		r := e.appendTerm(st.mem, args[0], args[1], in.(ssa.Value).Type())
		if s, ok := in.(ssa.Value).Type().Underlying().(*types.Slice); ok {
			noteStored(r, "[]"+types.TypeString(s.Elem(), nil))
		}
		e.emit(&Event{Kind: EvAppend, Instr: in, Inst: f.inst, Cond: st.cond, Addr: args[0], Val: args[1], Res: r, Mem: st.mem})
		return r
	case "copy":
		ev := e.emit(&Event{Kind: EvCopy, Instr: in, Inst: f.inst, Cond: st.cond, Addr: args[0], Val: args[1], Mem: st.mem})
		dst := args[0]
		if dst.Op != OpITE {
			cl := Class(IndexAddr(dst, Int(0), types.NewPointer(elemType(c.Args[0].Type()))))
			st.mem = st.mem.push(Mem{kind: mCopy, class: cl, addr: dst, src: args[1], key: e.runID + key, ev: ev})
			for _, l := range e.loopStack {
				l.newHavocs[dst] = true
			}
		}
		return e.fresh2(OpRes, key, types.Typ[types.Int])
	case "panic":
		e.emit(&Event{Kind: EvPanic, Instr: in, Inst: f.inst, Cond: st.cond, Val: args[0], Mem: st.mem})
		st.cond = False
		return nil
	case "close":
		e.emit(&Event{Kind: EvClose, Instr: in, Inst: f.inst, Cond: st.cond, Addr: args[0], Mem: st.mem})
		return nil
	case "delete":
		e.emit(&Event{Kind: EvMap, Instr: in, Inst: f.inst, Cond: st.cond, Addr: args[0], Args: []*Term{args[0], args[1]}, Mem: st.mem})
		mt := c.Args[0].Type().Underlying().(*types.Map)
		e.storeC(st, True, mapAddr(args[0], args[1], "map", mt.Elem()), zero(mt.Elem()), mt.Elem(), key)
		e.storeC(st, True, mapAddr(args[0], args[1], "maphas", types.Typ[types.Bool]), False, types.Typ[types.Bool], key)
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if !isInt(in.(ssa.Value).Type()) {
				return App(name, in.(ssa.Value).Type(), args...)
			}
			if name == "min" {
				r = Ite(LE(r, a), r, a)
			} else {
				r = Ite(LE(a, r), r, a)
			}
		}
		return r
	case "ssa:wrapnilchk":
		return args[0]
	case "recover":
		return e.fresh2(OpRes, key, nil)
	case "clear":
		e.havoc(st, []*Term{args[0]}, key, nil)
		return nil
	case "print", "println":
		e.emit(&Event{Kind: EvCall, Instr: in, Inst: f.inst, Cond: st.cond, Callee: "builtin:" + name, Args: args, Mem: st.mem})
		return nil
	}
	e.problem("%s: builtin %s", f.fn, name)
	return e.fresh2(OpRes, key, nil)
}

func elemType(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return t
}

func (e *Eval) fresh2(op Op, key string, typ types.Type) *Term {
	return mkIn(Term{Op: op, S: e.runID + key, N: 0, Typ: typ}, e.loopStack)
}

// SeqOf resolves a slice of a local array to its elements.
func (e *Eval) SeqOf(m *Mem, x *Term) *Term {
	if x == Nil {
		return mk(Term{Op: OpSeqLit})
	}
	if x.Op != OpSlice || !x.Args[1].IsInt() || !x.Args[2].IsInt() {
		return nil
	}
	b := x.Args[0]
	if b.Op != OpAlloc || b.Typ == nil {
		return nil
	}
	at, ok := deref(b.Typ).Underlying().(*types.Array)
	if !ok || x.Args[2].C-x.Args[1].C > 256 {
		return nil
	}
	var els []*Term
	for i := x.Args[1].C; i < x.Args[2].C; i++ {
		els = append(els, e.Load(m, IndexAddr(b, Int(i), types.NewPointer(at.Elem())), at.Elem()))
	}
	return mk(Term{Op: OpSeqLit, Args: els, Typ: x.Typ})
}

func (e *Eval) appendTerm(m *Mem, base, more *Term, typ types.Type) *Term {
	return lift2("append", base, more, func(base, more *Term) *Term {
		part := e.SeqOf(m, more)
		if part == nil {
			if more.Op == OpSeqLit {
				part = more
			} else {
				part = mk(Term{Op: OpSpread, Args: []*Term{more}})
			}
		} else if len(part.Args) == 0 {
			return base
		}
		if base.Op == OpAppend {
			last := base.Args[len(base.Args)-1]
			if last.Op == OpSeqLit && part.Op == OpSeqLit {
				args := append([]*Term(nil), base.Args[:len(base.Args)-1]...)
				args = append(args, mk(Term{Op: OpSeqLit, Args: append(append([]*Term(nil), last.Args...), part.Args...)}))
				return mk(Term{Op: OpAppend, Args: args, Typ: typ})
			}
			return mk(Term{Op: OpAppend, Args: append(append([]*Term(nil), base.Args...), part), Typ: typ})
		}
		return mk(Term{Op: OpAppend, Args: []*Term{base, part}, Typ: typ})
	})
}

func (e *Eval) havoc(st *state, roots []*Term, key string, ev *Event) {
	if len(roots) == 0 {
		return
	}
	st.mem = st.mem.push(Mem{kind: mHavoc, roots: roots, key: e.runID + key, ev: ev})
	for _, l := range e.loopStack {
		for _, r := range roots {
			l.newHavocs[r] = true
		}
	}
}

// pointers lists the objects an argument gives an external callee access to.
func pointers(t *Term, out map[*Term]bool) {
	switch t.Op {
	case OpITE:
		pointers(t.Args[1], out)
		pointers(t.Args[2], out)
	case OpIface, OpAssert:
		pointers(t.Args[0], out)
	case OpStruct, OpTuple, OpClosure:
		for _, a := range t.Args {
			pointers(a, out)
		}
	case OpAlloc, OpFieldAddr, OpIndexAddr, OpMakeSlice, OpMakeMap, OpParam, OpRes, OpLd, OpGlobal, OpExtract, OpField, OpMu, OpSlice:
		if t.Op == OpSlice {
			t = t.Args[0]
		}
		if t.Typ != nil {
			switch t.Typ.Underlying().(type) {
			case *types.Pointer, *types.Slice, *types.Map:
				out[t] = true
			}
		}
	}
}

// external models a call whose body is not inlined.
func (e *Eval) external(f *frame, in ssa.Instruction, c *ssa.CallCommon, name string, fn *ssa.Function, args []*Term, st *state, key string) *Term {
	sig := c.Signature()
	rt := resultType(sig)
	if r, ok := e.model(f, in, c, name, fn, args, st, key); ok {
		return r
	}
	pure := isPure(name) || fn != nil && e.PureFn != nil && e.PureFn(fn) || fn != nil && isDictFn(fn) && !hasFuncArg(args)
	if pure {
		pa := make([]*Term, len(args))
		for i, a := range args {
			pa[i] = a
			if a.Op == OpSlice {
				if s := e.SeqOf(st.mem, a); s != nil {
					pa[i] = s
				}
			} else if a == Nil && i == len(args)-1 && sig.Variadic() {
				pa[i] = mk(Term{Op: OpSeqLit})
			}
		}
		r := appNorm(shortName(name), rt, pa)
		if tt, ok := rt.(*types.Tuple); ok {
			return lift1("tup", r, func(r *Term) *Term { return e.tupleOf(r, tt) })
		}
		return lift1("typ", r, func(r *Term) *Term { return e.typed(r, rt) })
	}
	res := e.fresh2(OpRes, key, rt)
	evArgs := append([]*Term(nil), args...)
	for i, a := range evArgs {
		if a.Op == OpSlice {
			if s := e.SeqOf(st.mem, a); s != nil {
				evArgs[i] = s
			}
		}
	}
	if name == "(context.Context).Err" && e.ended(args[0], st.cond) {
		// a context that has ended has a reason
		res = mk(Term{Op: OpApp, S: "ctxerr", Args: []*Term{res}, Typ: rt})
	}
	ev := e.emit(&Event{Kind: EvCall, Instr: in, Inst: f.inst, Cond: st.cond, Callee: name, Static: fn, Args: evArgs, Res: res, Mem: st.mem})
	if name == "(*flag.FlagSet).StringVar" || name == "(*flag.FlagSet).BoolVar" || name == "(*flag.FlagSet).IntVar" || name == "(*flag.FlagSet).Var" {
		e.flagAddrs = append(e.flagAddrs, args[1])
	}
	switch name {
	case "(*flag.FlagSet).String", "(*flag.FlagSet).Bool", "(*flag.FlagSet).Int":
		e.flagAddrs = append(e.flagAddrs, res)
	case "(*flag.FlagSet).Parse":
		e.havoc(st, append([]*Term(nil), e.flagAddrs...), key, ev)
		ev.After = st.mem
	}
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
		st.cond = False
		return nil
	}
	// callbacks
	for i, a := range args {
		for _, lf := range Leaves(a, st.cond) {
			v := lf.Val
			if v.Op == OpIface {
				v = v.Args[0]
			}
			if cf, _ := funcOf(v); cf != nil && e.IsRepo(cf) && len(cf.Blocks) > 0 && !e.onStack(cf) {
				s := state{cond: And(st.cond, lf.Cond), mem: st.mem}
				l := e.callbackLoop(f, in, v, fmt.Sprint(shortName(name), i), key, &s)
				if l != nil {
					l.Call = ev
					l.CbIndex = i
					st.mem = s.mem
				}
			}
		}
	}
	if !readsOnly(name) {
		set := map[*Term]bool{}
		for _, a := range args {
			if a.Op == OpClosure || a.Op == OpFunc {
				continue
			}
			pointers(a, set)
		}
		var roots []*Term
		for r := range set {
			roots = append(roots, r)
		}
		sort.Slice(roots, func(i, j int) bool { return roots[i].ID < roots[j].ID })
		e.havoc(st, roots, key, ev)
	}
	if ev.After == nil {
		ev.After = st.mem
	}
	if rt == nil {
		return nil
	}
	if tt, ok := rt.(*types.Tuple); ok {
		return e.tupleOf(res, tt)
	}
	return e.typed(res, rt)
}

// ended reports whether, under cond, the Done channel of ctx was received from.
func (e *Eval) ended(ctx, cond *Term) bool {
	done := map[*Term]bool{}
	got := False
	for _, ev := range e.Events {
		switch {
		case ev.Kind == EvCall && ev.Callee == "(context.Context).Done" && ev.Args[0] == ctx:
			done[ev.Res] = true
		case ev.Kind == EvRecv && done[ev.Addr]:
			got = Or(got, ev.Cond)
		case ev.Kind == EvSelect:
			for i, ch := range ev.Chans {
				if ch != nil && done[ch] {
					got = Or(got, And(ev.Cond, EQ(ev.Val, Int(int64(i)))))
				}
			}
		}
	}
	return Implies(cond, got)
}

func hasFuncArg(args []*Term) bool {
	for _, a := range args {
		if a.Op == OpClosure || a.Op == OpFunc {
			return true
		}
	}
	return false
}

func isDictFn(fn *ssa.Function) bool {
	if fn.Pkg == nil || fn.Pkg.Pkg == nil {
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), "github.com/ikawaha/kagome-dict/dict")
		}
		return false
	}
	return strings.HasPrefix(fn.Pkg.Pkg.Path(), "github.com/ikawaha/kagome-dict/dict")
}

func shortName(s string) string {
	s = strings.ReplaceAll(s, "github.com/ikawaha/kagome/v2/", "")
	s = strings.ReplaceAll(s, "github.com/ikawaha/kagome-dict/", "")
	return s
}

// model gives the meaning of library functions with normal forms.
func (e *Eval) model(f *frame, in ssa.Instruction, c *ssa.CallCommon, name string, fn *ssa.Function, args []*Term, st *state, key string) (*Term, bool) {
	switch name {
	case "unicode/utf8.RuneCountInString":
		return appNorm("runecount", types.Typ[types.Int], args), true
	case "unicode/utf8.RuneCount":
		return lift1("rc", args[0], func(x *Term) *Term {
			if x.Op == OpConv && x.S == "string->bytes" {
				return appNorm("runecount", types.Typ[types.Int], x.Args)
			}
			return appNorm("runecount", types.Typ[types.Int], []*Term{x})
		}), true
	case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune":
		x := args[0]
		o := Int(0)
		r := appNorm("runeat", types.Typ[types.Rune], []*Term{x, o})
		n := appNorm("runelen", types.Typ[types.Int], []*Term{x, o})
		return mk(Term{Op: OpTuple, Args: []*Term{r, n}}), true
	case "unicode/utf8.DecodeLastRuneInString", "unicode/utf8.DecodeLastRune":
		if x := args[0]; x.Op == OpSlice || x.Op == OpITE {
			ok := true
			lastOff := func(x *Term) *Term {
				if x.Op == OpSlice && x.Args[2].Op == OpROff && x.Args[2].Args[0] == x.Args[0] {
					hi := x.Args[2]
					lo := x.Args[1]
					var j *Term
					if lo.Op == OpROff && lo.Args[0] == hi.Args[0] && lo.Args[1] == hi.Args[1] {
						j = lo.Args[2]
					} else if lo == hi.Args[1] {
						j = Int(0)
					}
					k := Sub(hi.Args[2], Int(1))
					if j != nil && nonNeg(Sub(k, j)) {
						return ROff(hi.Args[0], hi.Args[1], k)
					}
				}
				ok = false
				return Int(0)
			}
			off := lift1("dl", x, lastOff)
			if ok {
				r := lift2("dl2", x, off, func(x, o *Term) *Term {
					if x.Op != OpSlice {
						return x
					}
					return appNorm("runeat", types.Typ[types.Rune], []*Term{x.Args[0], o})
				})
				hi := lift1("hi", x, func(x *Term) *Term { return x.Args[2] })
				return mk(Term{Op: OpTuple, Args: []*Term{r, Sub(hi, off)}}), true
			}
		}
		return nil, false
	case "unicode.Is":
		seq := mk(Term{Op: OpSeqLit, Args: []*Term{args[0]}})
		return boolAtom(App("unicode.In", types.Typ[types.Bool], args[1], seq)), true
	case "errors.New":
		// identity matters: a fresh object per call
		return mkIn(Term{Op: OpApp, S: "errors.New", Args: args, Typ: resultType(c.Signature())}, nil), true
	case "errors.Join":
		if len(args) == 1 && args[0].Op == OpSeqLit {
			some := False
			for _, a := range args[0].Args {
				some = Or(some, NonNil(a))
			}
			return Ite(some, mkIn(Term{Op: OpApp, S: "errors.Join", Args: args, Typ: resultType(c.Signature())}, nil), Nil), true
		}
	case "strings.Cut":
		i := appNorm("strings.Index", types.Typ[types.Int], args)
		found := LE(Int(0), i)
		return mk(Term{Op: OpTuple, Args: []*Term{
			Ite(found, Slice(args[0], Int(0), i), args[0]),
			Ite(found, Slice(args[0], Add(i, Len(args[1])), nil), Str("")),
			found}}), true
	case "(*flag.FlagSet).Args":
		return mk(Term{Op: OpApp, S: "flag.Args", Args: args, Typ: resultType(c.Signature())}), true
	case "(*flag.FlagSet).NArg":
		return Len(mk(Term{Op: OpApp, S: "flag.Args", Args: args, Typ: types.NewSlice(types.Typ[types.String])})), true
	case "(*flag.FlagSet).Arg":
		fa := mk(Term{Op: OpApp, S: "flag.Args", Args: args[:1], Typ: types.NewSlice(types.Typ[types.String])})
		return Ite(And(LE(Int(0), args[1]), LT(args[1], Len(fa))), e.load(st.mem, IndexAddr(fa, args[1], types.NewPointer(types.Typ[types.String])), types.Typ[types.String]), Str("")), true
	case "strings.IndexFunc", "strings.ContainsFunc":
		return e.indexFunc(f, in, name, args, st, key)
	case "fmt.Sprintf", "fmt.Sprint":
		// handled as pure, with interface boxes removed
		seq := e.SeqOf(st.mem, args[len(args)-1])
		if seq == nil {
			return nil, false
		}
		var un []*Term
		for _, a := range seq.Args {
			un = append(un, a)
		}
		na := append(append([]*Term(nil), args[:len(args)-1]...), mk(Term{Op: OpSeqLit, Args: un}))
		return appNorm(name, types.Typ[types.String], na), true
	case "slices.Contains":
		return e.slicesContains(f, in, args, st, key)
	}
	return nil, false
}

// indexFunc: strings.IndexFunc(s, pred) as a quantifier when pred is closed.
func (e *Eval) indexFunc(f *frame, in ssa.Instruction, name string, args []*Term, st *state, key string) (*Term, bool) {
	fn, binds := funcOf(args[1])
	if fn == nil {
		return nil, false
	}
	s := args[0]
	if s.Op == OpITE {
		return nil, false
	}
	l := &Loop{Key: e.runID + key + "/indexfunc", Fn: f.fn, Callback: true, Pos: in.Pos()}
	l.reset()
	r := appNorm("runeat", types.Typ[types.Rune], []*Term{s, ROff(s, Int(0), l.Iter())})
	var p *Term
	if e.IsRepo(fn) && len(fn.Blocks) > 0 && !e.onStack(fn) {
		_, res := e.evalFunc(fn, []*Term{r}, binds, state{cond: True, mem: st.mem}, key, false)
		p = boolAtom(res[0])
	} else if isPure(FuncName(fn)) {
		p = boolAtom(App(shortName(FuncName(fn)), types.Typ[types.Bool], r))
	} else {
		return nil, false
	}
	d := LT(l.Iter(), appNorm("runecount", types.Typ[types.Int], []*Term{s}))
	cl, ok := closeOver(l, d, Restrict(p, d))
	if !ok {
		return nil, false
	}
	x := existsAtom(cl[0], cl[1])
	if name == "strings.ContainsFunc" {
		return x, true
	}
	first := mk(Term{Op: OpFirst, Args: []*Term{cl[0], cl[1]}, Typ: types.Typ[types.Int]})
	return Ite(x, ROff(s, Int(0), first), Int(-1)), true
}

func (e *Eval) slicesContains(f *frame, in ssa.Instruction, args []*Term, st *state, key string) (*Term, bool) {
	s := args[0]
	if s.Op == OpITE {
		return nil, false
	}
	l := &Loop{Key: e.runID + key + "/contains", Fn: f.fn, Callback: true, Pos: in.Pos()}
	l.reset()
	var et types.Type
	if s.Typ != nil {
		et = elemType(s.Typ)
	}
	if et == nil {
		return nil, false
	}
	el := e.Load(st.mem, IndexAddr(s, l.Iter(), types.NewPointer(et)), et)
	d := LT(l.Iter(), Len(s))
	cl, ok := closeOver(l, d, Restrict(EQ(el, args[1]), d))
	if !ok {
		return nil, false
	}
	return existsAtom(cl[0], cl[1]), true
}
