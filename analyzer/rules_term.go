package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"kcheck/vg"
)

func init() {
	register("progress", "C25", "every loop and every recursion of the library has a variant, and nothing in it waits", ruleProgress)
}

var libPkgs = []string{"tokenizer", "tokenizer/lattice", "tokenizer/lattice/mem", "filter", "filter/ja"}

// library lists the functions of the library packages, closures included.
func (c *Ctx) library() []*ssa.Function {
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(c.R.Prog) {
		if fn.Pkg == nil || len(fn.Blocks) == 0 || fn.Synthetic != "" {
			continue
		}
		for _, l := range libPkgs {
			if fn.Pkg.Pkg.Path() == modPath+"/"+l {
				out = append(out, fn)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func ruleProgress(c *Ctx) {
	c.For("C25")
	fns := c.library()
	t := &term{c: c, lat: c.lattice(), fields: map[string]string{}, sums: map[*ssa.Function]*vg.Summary{}}
	t.fns = fns
	for _, fn := range fns {
		t.loops(fn)
		t.waits(fn)
	}
	t.recursion()
}

// term is the state of the termination argument.
type term struct {
	c      *Ctx
	lat    *lat
	fns    []*ssa.Function
	sums   map[*ssa.Function]*vg.Summary
	fields map[string]string // tree fields: class -> "" or why not
	graph  map[*ssa.Function]map[*ssa.Function]token.Pos
}

// outline evaluates fn with everything it calls in the repository opaque.
func (t *term) outline(fn *ssa.Function) *vg.Summary {
	if s, ok := t.sums[fn]; ok {
		return s
	}
	e := vg.NewEval(t.c.R.Prog, IsRepo, func(*ssa.Function) bool { return true })
	s := e.Run(fn)
	t.sums[fn] = s
	return s
}

// ---- loops ----

func (t *term) loops(fn *ssa.Function) {
	c := t.c
	c.In(fn)
	s := t.outline(fn)
	c.touch(s)
	open := map[*ssa.BasicBlock]string{}
	var heads []*ssa.BasicBlock
	pos := map[*ssa.BasicBlock]token.Pos{}
	check := func(s *vg.Summary, first bool) {
		bad := map[*ssa.BasicBlock]string{}
		for _, ev := range s.Events {
			if ev.Kind != vg.EvLoop || ev.Loop.Callback || ev.Loop.Fn != fn {
				continue
			}
			l := ev.Loop
			why := t.variant(s, l)
			if first {
				if _, ok := pos[l.Header]; !ok {
					heads = append(heads, l.Header)
					pos[l.Header] = l.Pos
				}
			}
			if _, ok := bad[l.Header]; !ok || why != "" {
				bad[l.Header] = why
			}
		}
		for h, why := range bad {
			if first {
				open[h] = why
			} else if _, ok := open[h]; ok && why == "" {
				open[h] = ""
			}
		}
	}
	check(s, true)
	left := false
	for _, why := range open {
		left = left || why != ""
	}
	if left || len(s.E.Problems) > 0 {
		e := vg.NewEval(c.R.Prog, IsRepo, func(*ssa.Function) bool { return false })
		s2 := e.Run(fn)
		if len(s.E.Problems) > 0 {
			for _, p := range s2.E.Problems {
				c.Ob(false, fn.Pos(), "undecided: %s", p)
			}
		}
		check(s2, len(heads) == 0)
	}
	for _, h := range heads {
		c.Ob(open[h] == "", pos[h], "the loop makes progress towards a bound its input fixes (%s)", open[h])
	}
}

// variant looks for a measure that every round of l decreases and that cannot
// go below zero; the answer is empty where there is one.
func (t *term) variant(s *vg.Summary, l *vg.Loop) string {
	cont := vg.And(l.ContCond, vg.LE(vg.Int(0), l.Iter()))
	if !vg.Sat(cont) {
		return ""
	}
	if t.ranged(l) {
		return ""
	}
	// the next round
	step := map[*vg.Term]*vg.Term{l.Iter(): vg.Add(l.Iter(), vg.Int(1))}
	frozen := map[*vg.Term]*vg.Term{l.Iter(): vg.NewFree("iter", types.Typ[types.Int])}
	var mus []*vg.Mu
	for _, m := range l.Mus() {
		if m.Closed != nil || m.Next == nil {
			continue
		}
		mus = append(mus, m)
		step[m.Term] = m.Next
		frozen[m.Term] = vg.NewFree("mu", m.Type())
	}
	constant := func(x *vg.Term) bool { return !vg.Subst(x, frozen).Varies(l) }
	var cand []*vg.Term
	seen := map[*vg.Term]bool{}
	add := func(x *vg.Term) {
		if !seen[x] && !x.IsInt() {
			seen[x] = true
			cand = append(cand, x)
		}
	}
	for _, a := range vg.Atoms(l.ContCond) {
		switch a.Op {
		case vg.OpLE, vg.OpEQ:
			if a.Op == vg.OpEQ && !numeric(a) {
				continue
			}
			x := a.Args[0]
			if a.Op == vg.OpEQ && len(a.Args) == 2 {
				x = vg.Sub(a.Args[0], a.Args[1])
			}
			if len(vg.Leaves(x, vg.True)) == 1 && x.Varies(l) {
				add(x)
				add(vg.Sub(vg.Int(0), x))
			}
		}
	}
	for _, m := range mus {
		switch u := m.Type().Underlying().(type) {
		case *types.Slice:
			add(vg.Len(m.Value()))
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				add(vg.Len(m.Value()))
			}
		}
	}
	// left is the part, in terms of what the loop leaves alone, for which no
	// measure has been found
	left := vg.True
	for _, x := range cand {
		if !constant(x) {
			continue
		}
		next := vg.Subst(x, step)
		if next.Varies(l) && !constant(next) {
			// what the next round reads must be known now
			continue
		}
		down := vg.LE(vg.Add(next, vg.Int(1)), x)
		bad := vg.And(cont, vg.Not(vg.And(vg.LE(vg.Int(0), x), down)))
		left = vg.And(left, outside(bad, l))
		if !vg.Sat(left) {
			return ""
		}
		// x never skips zero: it starts at or above it and goes down by one
		first := map[*vg.Term]*vg.Term{l.Iter(): vg.Int(0)}
		for _, m := range mus {
			first[m.Term] = m.Init
		}
		start := vg.Subst(x, first)
		in := vg.And(cont, vg.LE(vg.Int(0), x))
		bad = vg.Or(vg.And(l.EntryCond, vg.Not(vg.LE(vg.Int(0), start))), vg.And(in, vg.Not(vg.And(down, vg.LE(vg.Int(0), next)))))
		left = vg.And(left, outside(bad, l))
		if !vg.Sat(left) {
			return ""
		}
	}
	if t.chain(s, l, mus, cont) || t.source(l, cont) {
		return ""
	}
	return "no variant found; it goes on when " + ts(l.ContCond)
}

// outside is the part of c that speaks of what l does not change.
func outside(c *vg.Term, l *vg.Loop) *vg.Term {
	var rec func(c, path *vg.Term) *vg.Term
	rec = func(c, path *vg.Term) *vg.Term {
		if c == vg.False || !vg.Sat(path) {
			return vg.False
		}
		if c == vg.True {
			return vg.True
		}
		a := vg.BoolOf(c.Args[0])
		x, y := rec(c.Args[1], vg.And(path, a)), rec(c.Args[2], vg.And(path, vg.Not(a)))
		if c.Args[0].Varies(l) {
			return vg.Or(x, y)
		}
		return vg.Ite(a, x, y)
	}
	return rec(c, vg.True)
}

func numeric(a *vg.Term) bool {
	for _, x := range a.Args {
		if x.Op == vg.OpNil || x.Op == vg.OpConst && !x.IsInt() {
			return false
		}
		if x.Typ != nil {
			b, ok := x.Typ.Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsInteger == 0 {
				return false
			}
		}
	}
	return true
}

// ranged: a range over a string or over a map that the loop adds nothing to.
func (t *term) ranged(l *vg.Loop) bool {
	for _, in := range l.Header.Instrs {
		n, ok := in.(*ssa.Next)
		if !ok {
			continue
		}
		if n.IsString {
			return true
		}
		r, ok := n.Iter.(*ssa.Range)
		if !ok {
			return false
		}
		for _, ev := range l.Events {
			if ev.Kind == vg.EvMap && ev.Addr != nil {
				for _, a := range ev.Addr.Args {
					if a.Typ != nil && types.Identical(a.Typ.Underlying(), r.X.Type().Underlying()) {
						return false
					}
				}
			}
		}
		return true
	}
	return false
}

// source: every round takes something from a finite source.
func (t *term) source(l *vg.Loop, cont *vg.Term) bool {
	for _, ev := range l.Events {
		if ev.Kind != vg.EvCall || ev.Res == nil || len(ev.Args) == 0 || len(ev.Loops) == 0 || ev.Loops[len(ev.Loops)-1] != l {
			continue
		}
		if ev.Args[0].Varies(l) {
			continue
		}
		switch ev.Callee {
		case "(*bufio.Scanner).Scan":
			if vg.Implies(cont, vg.BoolOf(ev.Res)) {
				return true
			}
		case "(*bufio.Reader).ReadString", "(*bufio.Reader).ReadBytes", "(*bufio.Reader).ReadByte",
			"(*strings.Reader).ReadByte", "(*bytes.Reader).ReadByte", "(*bytes.Buffer).ReadByte", "(*bytes.Buffer).ReadString", "(*bytes.Buffer).ReadBytes",
			"(*encoding/csv.Reader).Read":
			if vg.Implies(cont, vg.Not(vg.NonNil(vg.Extract(ev.Res, 1, errType)))) {
				return true
			}
		case "(*bufio.Reader).ReadLine", "(*bufio.Reader).ReadRune", "(*strings.Reader).ReadRune", "(*bytes.Reader).ReadRune", "(*bytes.Buffer).ReadRune":
			if vg.Implies(cont, vg.Not(vg.NonNil(vg.Extract(ev.Res, 2, errType)))) {
				return true
			}
		}
	}
	return false
}

var errType = types.Universe.Lookup("error").Type()

// chain: a pointer that every round follows along links that form no cycle.
func (t *term) chain(s *vg.Summary, l *vg.Loop, mus []*vg.Mu, cont *vg.Term) bool {
	for _, m := range mus {
		if _, ok := m.Type().Underlying().(*types.Pointer); !ok || !vg.Implies(cont, vg.NonNil(m.Value())) {
			continue
		}
		ok := true
		for _, lf := range vg.Leaves(m.Next, l.ContCond) {
			ok = ok && t.below(lf.Val, m.Value(), 0)
		}
		if ok {
			return true
		}
	}
	return false
}

// below: x is reached from p by following at least one link, and only links
// of acyclic fields.
func (t *term) below(x, p *vg.Term, links int) bool {
	if x == p {
		return links > 0
	}
	switch x.Op {
	case vg.OpLd:
		if len(x.Args) != 1 {
			return false
		}
		return t.below(x.Args[0], p, links)
	case vg.OpFieldAddr:
		pt, ok := x.Typ.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		switch pt.Elem().Underlying().(type) {
		case *types.Pointer, *types.Slice:
			if t.acyclic(vg.Class(x)) != "" {
				return false
			}
			links++
		case *types.Struct:
		default:
			return false
		}
		return t.below(x.Args[0], p, links)
	case vg.OpIndexAddr, vg.OpIndex, vg.OpField, vg.OpSlice:
		return t.below(x.Args[0], p, links)
	}
	return false
}

// acyclic says why the links in fields of this class may form a cycle.
func (t *term) acyclic(class string) string {
	if why, ok := t.fields[class]; ok {
		return why
	}
	t.fields[class] = "in question"
	why := ""
	l := t.lat
	prev := class == vg.FieldClassName(l.nt, l.prev)
	for _, fn := range t.fns {
		for _, ev := range t.outline(fn).Events {
			if ev.Kind != vg.EvStore || ev.Addr == nil || vg.Class(ev.Addr) != class {
				continue
			}
			for _, lf := range vg.Leaves(ev.Val, ev.Cond) {
				if prev {
					// the forward search links a node to one that ends where it
					// starts: see the lattice rules
					if lf.Val != vg.Nil && !t.within(fn, "Forward", nil) {
						why = "written in " + shortFn(fn)
					}
				} else if !t.younger(fn, ev.Addr, lf.Val) {
					why = "set to " + ts(lf.Val) + " in " + shortFn(fn)
				}
			}
		}
	}
	t.fields[class] = why
	return why
}

// within: fn is the method of that name, or only runs as part of it.
func (t *term) within(fn *ssa.Function, name string, seen map[*ssa.Function]bool) bool {
	if fn.Name() == name {
		return true
	}
	if seen[fn] {
		return true
	}
	if exported(fn) {
		return false
	}
	if seen == nil {
		seen = map[*ssa.Function]bool{}
	}
	seen[fn] = true
	used := false
	for _, g := range t.fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op != ssa.Value(fn) {
						continue
					}
					if !t.within(g, name, seen) {
						return false
					}
					used = true
				}
			}
		}
	}
	return used
}

// younger: what is stored is nothing, what was there, or objects just made
// that do not lead to the one that holds them.
func (t *term) younger(fn *ssa.Function, addr, v *vg.Term) bool {
	switch v.Op {
	case vg.OpNil:
		return true
	case vg.OpLd:
		return len(v.Args) == 1 && v.Args[0] == addr
	case vg.OpAppend:
		for i, a := range v.Args {
			if i == 0 {
				if !t.younger(fn, addr, a) {
					return false
				}
				continue
			}
			if a.Op != vg.OpSeqLit {
				return false
			}
			for _, x := range a.Args {
				if !t.younger(fn, addr, x) {
					return false
				}
			}
		}
		return true
	case vg.OpAlloc:
		r := addr
		for {
			if r.Op == vg.OpFieldAddr || r.Op == vg.OpIndexAddr {
				r = r.Args[0]
				continue
			}
			break
		}
		switch r.Op {
		case vg.OpParam, vg.OpMu, vg.OpLd, vg.OpFree:
			return true
		case vg.OpAlloc:
			return !t.leads(fn, v, r)
		}
	}
	return false
}

// leads: among the objects one activation of fn makes, a points to b, however
// indirectly.
func (t *term) leads(fn *ssa.Function, a, b *vg.Term) bool {
	seen := map[*vg.Term]bool{}
	var rec func(x *vg.Term) bool
	rec = func(x *vg.Term) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, ev := range t.outline(fn).Events {
			if ev.Kind != vg.EvStore || ev.Addr == nil || vg.Root(ev.Addr) != x {
				continue
			}
			if vg.Any(ev.Val, func(y *vg.Term) bool { return y.Op == vg.OpAlloc && rec(y) }) {
				return true
			}
		}
		return false
	}
	return rec(a)
}

// ---- waiting ----

func (t *term) waits(fn *ssa.Function) {
	c := t.c
	c.In(fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Send:
				c.Ob(false, in.Pos(), "the library waits for nobody (it sends on a channel)")
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					c.Ob(false, in.Pos(), "the library waits for nobody (it receives from a channel)")
				}
			case *ssa.Select:
				c.Ob(!in.Blocking, in.Pos(), "the library waits for nobody (it selects)")
			case ssa.CallInstruction:
				f := in.Common().StaticCallee()
				if f == nil {
					continue
				}
				switch f.String() {
				case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "(*os/exec.Cmd).Wait", "(*os/exec.Cmd).Run":
					c.Ob(false, in.Pos(), "the library waits for nobody (it calls %s)", f)
				}
			}
		}
	}
	t.locks(fn)
}

// locks: a mutex that is taken is given back on every path, and not taken
// again in between.
func (t *term) locks(fn *ssa.Function) {
	c := t.c
	s := t.outline(fn)
	for i, ev := range s.Events {
		un := ""
		switch ev.Callee {
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
			un = strings.TrimSuffix(ev.Callee, "Lock") + "Unlock"
		case "(*sync.RWMutex).RLock":
			un = "(*sync.RWMutex).RUnlock"
		}
		if un == "" || ev.Kind != vg.EvCall {
			continue
		}
		mu := ev.Args[0]
		back := vg.False
		ok := true
		for _, x := range s.Events[i+1:] {
			if x.Kind != vg.EvCall {
				continue
			}
			held := vg.Sat(vg.And(x.Cond, vg.And(ev.Cond, vg.Not(back))))
			switch {
			case x.Callee == un && x.Args[0] == mu && sameLoops(x.Loops, ev.Loops):
				back = vg.Or(back, x.Cond)
			case held && len(x.Args) > 0 && (x.Callee == "(*sync.Mutex).Lock" || x.Callee == "(*sync.RWMutex).Lock" || x.Callee == "(*sync.RWMutex).RLock"):
				ok = ok && vg.Class(x.Args[0]) != vg.Class(mu)
			case held && (x.Static != nil && IsRepo(x.Static) || x.Callee == "dynamic"):
				if x.Static == nil {
					ok = false
				} else {
					ok = ok && !t.mayLock(x.Static, map[*ssa.Function]bool{})
				}
			}
		}
		c.Ob(ok && vg.Implies(ev.Cond, back), ev.Pos, "the mutex is released on every path and not taken again before that")
	}
}

func sameLoops(a, b []*vg.Loop) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (t *term) mayLock(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				if f := call.Common().StaticCallee(); f != nil && strings.HasPrefix(f.String(), "(*sync.") && strings.HasSuffix(f.Name(), "Lock") {
					return true
				}
			}
		}
	}
	for g := range t.calls()[fn] {
		if t.mayLock(g, seen) {
			return true
		}
	}
	return false
}

// ---- recursion ----

// calls is the call graph of the library: static calls, functions whose value
// is taken, methods behind interfaces, and the methods the standard library
// calls on the values it is given.
func (t *term) calls() map[*ssa.Function]map[*ssa.Function]token.Pos {
	if t.graph != nil {
		return t.graph
	}
	t.graph = map[*ssa.Function]map[*ssa.Function]token.Pos{}
	in := map[*ssa.Function]bool{}
	taken := map[*ssa.Function]bool{}
	for _, fn := range t.fns {
		in[fn] = true
	}
	prog := t.c.R.Prog
	var named []types.Type
	for _, p := range prog.AllPackages() {
		if p.Pkg == nil || !strings.HasPrefix(p.Pkg.Path(), modPath) {
			continue
		}
		for _, m := range p.Members {
			if ty, ok := m.(*ssa.Type); ok && !types.IsInterface(ty.Type()) {
				named = append(named, ty.Type(), types.NewPointer(ty.Type()))
			}
		}
	}
	target := func(f *ssa.Function) []*ssa.Function {
		if f == nil {
			return nil
		}
		if in[f] {
			return []*ssa.Function{f}
		}
		if f.Synthetic != "" { // wrappers, bound methods
			var out []*ssa.Function
			for _, b := range f.Blocks {
				for _, x := range b.Instrs {
					if call, ok := x.(ssa.CallInstruction); ok {
						if g := call.Common().StaticCallee(); g != nil && in[g] {
							out = append(out, g)
						}
					}
				}
			}
			return out
		}
		return nil
	}
	method := func(ty types.Type, name string) []*ssa.Function {
		ms := prog.MethodSets.MethodSet(ty)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return target(prog.MethodValue(ms.At(i)))
			}
		}
		return nil
	}
	for _, fn := range t.fns {
		out := map[*ssa.Function]token.Pos{}
		t.graph[fn] = out
		add := func(pos token.Pos, fs ...*ssa.Function) {
			for _, f := range fs {
				if _, ok := out[f]; !ok {
					out[f] = pos
				}
			}
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						add(i.Pos(), target(f)...)
						if call, ok := i.(ssa.CallInstruction); !ok || call.Common().Value != f {
							for _, g := range target(f) {
								taken[g] = true
							}
						}
					}
				}
				if mc, ok := i.(*ssa.MakeInterface); ok {
					names := []string{"String", "Error", "Format", "GoString", "MarshalJSON", "MarshalText"}
					if v := verbOf(mc); v != 0 && strings.ContainsRune("dboOcUeEfFgGtpT", v) {
						names = []string{"Format"}
					}
					for _, ty := range printed(mc.X.Type(), nil) {
						for _, n := range names {
							add(mc.Pos(), method(ty, n)...)
						}
					}
					if it, ok := mc.Type().Underlying().(*types.Interface); ok {
						for k := 0; k < it.NumMethods(); k++ {
							add(mc.Pos(), method(mc.X.Type(), it.Method(k).Name())...)
						}
					}
				}
				call, ok := i.(ssa.CallInstruction)
				if !ok || !call.Common().IsInvoke() {
					continue
				}
				it, _ := call.Common().Value.Type().Underlying().(*types.Interface)
				for _, ty := range named {
					if it != nil && types.Implements(ty, it) {
						add(i.Pos(), method(ty, call.Common().Method.Name())...)
					}
				}
			}
		}
	}
	for _, fn := range t.fns {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(ssa.CallInstruction)
				if !ok || call.Common().IsInvoke() || call.Common().StaticCallee() != nil {
					continue
				}
				if _, ok := call.Common().Value.(*ssa.Builtin); ok {
					continue
				}
				for f := range taken {
					if types.Identical(f.Signature, call.Common().Value.Type().Underlying()) {
						if _, ok := t.graph[fn][f]; !ok {
							t.graph[fn][f] = i.Pos()
						}
					}
				}
			}
		}
	}
	return t.graph
}

// verbOf is the verb that formats an operand of a call with a constant format,
// or 0.
func verbOf(mc *ssa.MakeInterface) rune {
	refs := mc.Referrers()
	if refs == nil || len(*refs) != 1 {
		return 0
	}
	st, ok := (*refs)[0].(*ssa.Store)
	if !ok {
		return 0
	}
	ia, ok := st.Addr.(*ssa.IndexAddr)
	if !ok {
		return 0
	}
	k, ok := ia.Index.(*ssa.Const)
	if !ok || ia.X.Referrers() == nil {
		return 0
	}
	for _, r := range *ia.X.Referrers() {
		sl, ok := r.(*ssa.Slice)
		if !ok || sl.Referrers() == nil || len(*sl.Referrers()) != 1 {
			continue
		}
		call, ok := (*sl.Referrers())[0].(ssa.CallInstruction)
		if !ok {
			continue
		}
		f := call.Common().StaticCallee()
		if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "fmt" || !strings.HasSuffix(f.Name(), "f") {
			continue
		}
		args := call.Common().Args
		format, ok := args[len(args)-2].(*ssa.Const)
		if !ok || format.Value == nil || format.Value.Kind() != constant.String {
			continue
		}
		verbs := vg.Verbs(constant.StringVal(format.Value))
		if i := k.Int64(); int(i) < len(verbs) {
			return verbs[i]
		}
	}
	return 0
}

// printed lists the types whose methods printing a value of type ty may call.
func printed(ty types.Type, out []types.Type) []types.Type {
	for _, x := range out {
		if types.Identical(x, ty) {
			return out
		}
	}
	out = append(out, ty)
	switch u := ty.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Exported() {
				out = printed(u.Field(i).Type(), out)
			}
		}
	case *types.Slice:
		out = printed(u.Elem(), out)
	case *types.Array:
		out = printed(u.Elem(), out)
	case *types.Map:
		out = printed(u.Key(), out)
		out = printed(u.Elem(), out)
	}
	return out
}

// recursion: every cycle of the call graph passes through a function whose
// calls to itself, however indirect, have a smaller argument.
func (t *term) recursion() {
	g := t.calls()
	var solve func(nodes map[*ssa.Function]bool)
	solve = func(nodes map[*ssa.Function]bool) {
		for _, comp := range cycles(t.fns, g, nodes) {
			// a member whose recursive calls all shrink
			done := false
			why := ""
			for _, f := range comp {
				w := t.shrinks(f)
				if w == "" {
					rest := map[*ssa.Function]bool{}
					for _, x := range comp {
						if x != f {
							rest[x] = true
						}
					}
					t.c.In(f)
					t.c.Ob(true, f.Pos(), "every recursive call has a smaller argument")
					solve(rest)
					done = true
					break
				}
				why = w
			}
			if !done {
				f := comp[0]
				t.c.In(f)
				t.c.Ob(false, f.Pos(), "every recursive call has a smaller argument (%s)", why)
			}
		}
	}
	all := map[*ssa.Function]bool{}
	for _, fn := range t.fns {
		all[fn] = true
	}
	solve(all)
	n := 0
	for _, m := range g {
		n += len(m)
	}
	t.c.In(nil)
	t.c.Ob(len(t.fns) > 0, token.NoPos, "the call graph of the library was searched for cycles (%d functions, %d edges)", len(t.fns), n)
}

// cycles lists the strongly connected components with a cycle.
func cycles(order []*ssa.Function, g map[*ssa.Function]map[*ssa.Function]token.Pos, nodes map[*ssa.Function]bool) [][]*ssa.Function {
	reach := func(from *ssa.Function) map[*ssa.Function]bool {
		seen := map[*ssa.Function]bool{}
		var rec func(*ssa.Function)
		rec = func(f *ssa.Function) {
			for x := range g[f] {
				if nodes[x] && !seen[x] {
					seen[x] = true
					rec(x)
				}
			}
		}
		rec(from)
		return seen
	}
	r := map[*ssa.Function]map[*ssa.Function]bool{}
	for f := range nodes {
		r[f] = reach(f)
	}
	var out [][]*ssa.Function
	used := map[*ssa.Function]bool{}
	for _, f := range order {
		if !nodes[f] || used[f] || !r[f][f] {
			continue
		}
		var comp []*ssa.Function
		for _, x := range order {
			if nodes[x] && (x == f || r[f][x] && r[x][f]) {
				comp = append(comp, x)
				used[x] = true
			}
		}
		out = append(out, comp)
	}
	return out
}

// shrinks evaluates fn, inlining everything but itself, and looks for a
// parameter that becomes smaller with every call of itself.
func (t *term) shrinks(fn *ssa.Function) string {
	e := vg.NewEval(t.c.R.Prog, IsRepo, func(f *ssa.Function) bool { return f == fn })
	s := e.Run(fn)
	if len(s.E.Problems) > 0 {
		return s.E.Problems[0]
	}
	var self []*vg.Event
	for _, ev := range s.Events {
		if ev.Kind == vg.EvCall && ev.Static == fn {
			self = append(self, ev)
		}
	}
	if len(self) == 0 {
		return "it calls itself in a way that is not seen"
	}
	for i, p := range s.Params {
		ok := true
		for _, ev := range self {
			ok = ok && i < len(ev.Args) && t.smaller(ev.Cond, ev.Args[i], p)
		}
		if ok {
			return ""
		}
	}
	// a measure of several parameters
	var cand []*vg.Term
	for _, ev := range self {
		for _, a := range vg.Atoms(ev.Cond) {
			if a.Op == vg.OpLE && len(vg.Leaves(a.Args[0], vg.True)) == 1 {
				cand = append(cand, a.Args[0], vg.Sub(vg.Int(0), a.Args[0]))
			}
		}
	}
	for _, x := range cand {
		ok := true
		for _, ev := range self {
			sub := map[*vg.Term]*vg.Term{}
			for i, p := range s.Params {
				if i < len(ev.Args) {
					sub[p] = ev.Args[i]
				}
			}
			if vg.Any(x, func(y *vg.Term) bool {
				return y.Op == vg.OpLd || y.Op == vg.OpIter || y.Op == vg.OpMu || y.Op == vg.OpRes
			}) {
				ok = false
				break
			}
			next := vg.Subst(x, sub)
			ok = ok && vg.Implies(ev.Cond, vg.LE(vg.Int(0), x)) && vg.Implies(ev.Cond, vg.LE(vg.Add(next, vg.Int(1)), x))
		}
		if ok {
			return ""
		}
	}
	return "no parameter shrinks in the call of " + shortFn(fn) + " at " + t.c.R.Pos(self[0].Pos)
}

func (t *term) smaller(cond, x, p *vg.Term) bool {
	switch u := p.Typ.Underlying().(type) {
	case *types.Slice:
		return vg.Implies(cond, vg.LE(vg.Add(vg.Len(x), vg.Int(1)), vg.Len(p)))
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return vg.Implies(cond, vg.LE(vg.Add(vg.Len(x), vg.Int(1)), vg.Len(p)))
		case u.Info()&types.IsInteger != 0:
			return vg.Implies(cond, vg.LE(vg.Int(0), p)) && vg.Implies(cond, vg.LE(vg.Add(x, vg.Int(1)), p))
		}
	case *types.Pointer:
		for _, lf := range vg.Leaves(x, cond) {
			if !t.below(lf.Val, p, 0) {
				return false
			}
		}
		return true
	}
	return false
}
