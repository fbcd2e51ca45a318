package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"

	"kcheck/vg"
)

func init() {
	register("analyze", "C01 C02 C05 C07 C09 C10 C11", "each analysis entry point builds, searches and frees one lattice in order, maps the mode, and turns the best path into tokens field by field", ruleAnalyze)
	register("wakati", "C05 C11", "Wakati is the surfaces of the tokens of the normal mode analysis", ruleWakati)
	register("names", "C23", "class and mode names", ruleNames)
	register("tokendata", "C23", "the export form takes every field from its accessor, never null, under its documented key", ruleTokenData)
	register("construct", "C24 C11 C10", "the tokenizer constructor and its options", ruleConstruct)
}

const tokPkg = "tokenizer"
const latPkg = "tokenizer/lattice"

func latOpaque(f *ssa.Function) bool {
	return f.Pkg != nil && f.Pkg.Pkg.Path() == modPath+"/"+latPkg && exported(f)
}

func exported(f *ssa.Function) bool {
	return f.Object() != nil && f.Object().Exported()
}

func (c *Ctx) constOf(pkg, name string) *vg.Term {
	p := c.R.SSA[pkg]
	if p == nil {
		panic(missing("no package " + pkg))
	}
	k := p.Const(name)
	if k == nil {
		panic(missing("no constant " + pkg + "." + name))
	}
	return vg.Int(k.Value.Int64())
}

type latRun struct {
	s        *vg.Summary
	la       *vg.Term
	ok       bool
	backward *vg.Event
}

// latticeRun checks the protocol of one analysis: New, Build(input),
// Forward(m), Backward(m), [Dot], Free, each exactly once and in order.
func (c *Ctx) latticeRun(s *vg.Summary, input, mode, w *vg.Term) latRun {
	r := latRun{s: s}
	calls := map[string][]*vg.Event{}
	order := map[*vg.Event]int{}
	for i, ev := range s.Events {
		if ev.Kind == vg.EvCall && ev.Static != nil && latOpaque(ev.Static) {
			calls[ev.Static.Name()] = append(calls[ev.Static.Name()], ev)
			order[ev] = i
		}
	}
	one := func(n string) *vg.Event {
		es := calls[n]
		if !c.Ob(len(es) == 1, s.Fn.Pos(), "the analysis calls lattice %s exactly once (found %d)", n, len(es)) {
			return nil
		}
		always := es[0].Cond == vg.True
		if n == "Dot" && w != nil {
			always = vg.Implies(vg.NonNil(w), es[0].Cond)
		}
		if !c.Ob(always && len(es[0].Loops) == 0, es[0].Pos, "lattice %s is called on every path", n) {
			return nil
		}
		return es[0]
	}
	nw, bu, fo, ba, fr := one("New"), one("Build"), one("Forward"), one("Backward"), one("Free")
	if nw == nil || bu == nil || fo == nil || ba == nil || fr == nil {
		return r
	}
	r.la = nw.Res
	tt := c.namedType(tokPkg, "Tokenizer")
	d, u := fieldByType(tt, dictType), fieldByType(tt, udictType)
	recv := s.Params[0]
	c.Ob(nw.Args[0] == structField(recv, tt, d) && nw.Args[1] == structField(recv, tt, u), nw.Pos, "the lattice uses the tokenizer's own dictionaries")
	for _, ev := range []*vg.Event{bu, fo, ba, fr} {
		c.Ob(ev.Args[0] == r.la, ev.Pos, "%s works on the lattice obtained from New", ev.Static.Name())
	}
	c.Ob(bu.Args[1] == input, bu.Pos, "the lattice is built from the caller's input, unmodified (got %s)", ts(bu.Args[1]))
	sp := c.spec("LatticeMode", mode)
	for _, ev := range []*vg.Event{fo, ba} {
		c.Ob(vg.SameUnder(vg.True, ev.Args[1], sp.Ret[0]), ev.Pos, "%s runs in the lattice mode of the same name, normal for an unknown mode (got %s)", ev.Static.Name(), ts(ev.Args[1]))
	}
	c.Ob(order[nw] < order[bu] && order[bu] < order[fo] && order[fo] < order[ba] && order[ba] < order[fr], s.Fn.Pos(), "the lattice is built, searched forward, then backward, then freed")
	last := fr
	if w != nil {
		dot := one("Dot")
		if dot != nil {
			c.Ob(dot.Args[0] == r.la && dot.Args[1] == w, dot.Pos, "the graph of this lattice is written to the caller's writer")
			c.Ob(order[dot] > order[ba] && order[dot] < order[fr], dot.Pos, "the graph is written after the search and before the lattice is freed")
		}
	}
	_ = last
	r.backward = ba
	r.ok = true
	// nothing reads or writes the lattice after Free
	for _, ev := range s.Events {
		if ev.Kind != vg.EvReturn && order[fr] > 0 && indexOf(s.Events, ev) > order[fr] && ev != fr {
			if ev.Kind == vg.EvStore || ev.Kind == vg.EvCall || ev.Kind == vg.EvAppend || ev.Kind == vg.EvLoop {
				c.Ob(ev.Defer || ev.Kind == vg.EvLoop && false, ev.Pos, "nothing happens after the lattice went back to its pool")
			}
		}
	}
	return r
}

func indexOf(es []*vg.Event, e *vg.Event) int {
	for i, x := range es {
		if x == e {
			return i
		}
	}
	return -1
}

// outputs collects the loads of la.Output in t.
func (c *Ctx) outputs(la *vg.Term, ts ...*vg.Term) []*vg.Term {
	lt := c.namedType(latPkg, "Lattice")
	oa := vg.FAddr(la, lt, fieldByName(lt, "Output"))
	var out []*vg.Term
	for _, t := range ts {
		vg.Any(t, func(x *vg.Term) bool {
			if x.Op == vg.OpLd && x.Args[0] == oa {
				for _, o := range out {
					if o == x {
						return false
					}
				}
				out = append(out, x)
			}
			return false
		})
	}
	return out
}

func (c *Ctx) checkTokens(r latRun, ret *vg.Term) {
	s := r.s
	tt := c.namedType(tokPkg, "Token")
	zt := c.namedType(tokPkg, "Tokenizer")
	recv := s.Params[0]
	d, u := structField(recv, zt, fieldByType(zt, dictType)), structField(recv, zt, fieldByType(zt, udictType))
	bos := c.constOf(latPkg, "BosEosID")
	c.Ob(vg.LT(bos, vg.Int(0)) == vg.True && c.constOf(tokPkg, "BosEosID") == bos, s.Fn.Pos(), "the ID of BOS and EOS is that of no dictionary entry (%s)", ts(bos))
	omit := structField(recv, zt, fieldByType(zt, "bool"))
	cont := s.E.Content(s.Mem, ret, vg.True, tt)
	if !c.Ob(cont != nil, s.Fn.Pos(), "undecided: the token list cannot be expressed as a function of the best path") {
		return
	}
	outs := c.outputs(r.la, cont)
	if !c.Ob(len(outs) == 1 && outs[0].S == r.backward.Res.S, s.Fn.Pos(), "tokens are made from the lattice's output as Backward left it, before it is freed") {
		return
	}
	sp := c.spec("Tokens", omit, outs[0], d, u)
	kt := c.namedType("zz_kspec", "Tok")
	pairs := [][2]int{}
	names := []string{"Index", "ID", "Class", "Position", "Start", "End", "Surface"}
	for _, n := range names {
		pairs = append(pairs, [2]int{fieldByName(tt, n), fieldByName(kt, n)})
	}
	names = append(names, "dictionary", "user dictionary")
	pairs = append(pairs, [2]int{fieldByType(tt, dictType), fieldByName(kt, "Dict")}, [2]int{fieldByType(tt, udictType), fieldByName(kt, "User")})
	proj := func(t types.Type, i int) func(*vg.Term) *vg.Term {
		return func(x *vg.Term) *vg.Term { return structField(x, t, i) }
	}
	for k, p := range pairs {
		switch names[k] {
		case "Index":
			c.For("C11")
		case "ID", "Class":
			c.For("C11", "C09", "C10")
		case "Position", "Start", "End":
			c.For("C02", "C11")
		case "Surface":
			c.For("C01", "C02", "C11")
		default:
			c.For("C09", "C11")
		}
		same, cc, x, y := vg.SameContentMap(vg.True, s.E, s.Mem, ret, tt, proj(tt, p[0]), sp.E, sp.Mem, sp.Ret[0], kt, proj(kt, p[1]))
		c.Ob(same, s.Fn.Pos(), "%s of every token is that of its node on the best path, in order, BOS/EOS omitted only on request; when %s got %s, expected %s", names[k], ts(cc), ts(x), ts(y))
	}
}

func ruleAnalyze(c *Ctx) {
	normal := c.constOf(tokPkg, "Normal")
	for _, n := range []string{"Analyze", "Tokenize", "AnalyzeGraph", "Dot"} {
		c.For("C01", "C02", "C05", "C07", "C11")
		fn := c.fn("tokenizer.Tokenizer." + n)
		s := c.Eval(fn, latOpaque)
		var r latRun
		switch n {
		case "Analyze":
			r = c.latticeRun(s, s.Params[1], s.Params[2], nil)
		case "Tokenize":
			r = c.latticeRun(s, s.Params[1], normal, nil)
		case "AnalyzeGraph":
			r = c.latticeRun(s, s.Params[2], s.Params[3], s.Params[1])
		case "Dot":
			r = c.latticeRun(s, s.Params[2], normal, s.Params[1])
		}
		if r.ok {
			c.checkTokens(r, s.Ret[0])
		}
	}
}

func isTokenSlice(t types.Type) bool {
	return types.TypeString(t, nil) == "[]"+modPath+"/tokenizer.Token"
}

func ruleWakati(c *Ctx) {
	fn := c.fn("tokenizer.Tokenizer.Wakati")
	opq := func(f *ssa.Function) bool {
		r := f.Signature.Results()
		return f != fn && r.Len() == 1 && isTokenSlice(r.At(0).Type()) && f.Signature.Recv() != nil
	}
	e := vg.NewEval(c.R.Prog, IsRepo, opq)
	used := map[*ssa.Function]bool{}
	e.PureFn = func(f *ssa.Function) bool {
		if opq(f) {
			used[f] = true
			return true
		}
		return false
	}
	s := e.Run(fn)
	c.touch(s)
	normal := c.constOf(tokPkg, "Normal")
	var src *vg.Term
	for f := range used {
		var args []*vg.Term
		args = append(args, s.Params[0])
		for i := 1; i < len(f.Params); i++ {
			if b, ok := f.Params[i].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				args = append(args, s.Params[1])
			} else {
				args = append(args, normal)
			}
		}
		src = e.PureCall(f, args...)
		// the source must itself be a normal mode analysis
		sub := newCtx(c.R)
		sub.Rule, sub.Props = c.Rule, c.Props
		ss := sub.Eval(f, latOpaque)
		m := normal
		if len(f.Params) > 2 {
			m = ss.Params[2]
		}
		r := sub.latticeRun(ss, ss.Params[1], m, nil)
		if r.ok {
			sub.checkTokens(r, ss.Ret[0])
		}
		c.For("C05", "C11")
		c.Ob(len(sub.Findings) == 0, f.Pos(), "the tokens Wakati reads are those of an analysis")
	}
	c.For("C05", "C11")
	c.In(fn)
	if !c.Ob(src != nil && len(used) == 1, fn.Pos(), "Wakati takes its words from one token analysis of its input") {
		return
	}
	why := ""
	for i := 1; i <= 4; i++ {
		sp := c.spec("Wakati"+string(rune('0'+i)), src)
		ok, w := eqVal(s, s.Ret[0], sp, sp.Ret[0], vg.True)
		if ok {
			c.Ob(true, fn.Pos(), "Wakati is the surfaces of the non-BOS/EOS tokens of the normal mode analysis, in order")
			return
		}
		if i == 1 {
			why = w
		}
	}
	c.Ob(false, fn.Pos(), "Wakati is the surfaces of the non-BOS/EOS tokens of the normal mode analysis, in order%s", why)
}

func ruleNames(c *Ctx) {
	for _, p := range [][2]string{{"tokenizer.TokenClass.String", "ClassName"}, {"tokenizer/lattice.NodeClass.String", "NodeClassName"}, {"tokenizer.TokenizeMode.String", "ModeName"}} {
		fn := c.fn(p[0])
		s := c.Eval(fn, nil)
		if sp := c.spec(p[1], s.Params...); vg.SameUnder(vg.And(s.Cond, sp.Cond), vg.MkText(s.Ret[0]), vg.MkText(sp.Ret[0])) {
			c.Ob(true, fn.Pos(), "the name of every value is the documented one")
			continue
		}
		c.sameRet(s, c.spec(p[1], s.Params...), "the name of every value is the documented one")
	}
	for i, n := range []string{"DUMMY", "KNOWN", "UNKNOWN", "USER"} {
		c.Ob(c.constOf(tokPkg, n).IsConst(int64(i)) && c.constOf(latPkg, n).IsConst(int64(i)), c.curFn.Pos(), "class %s has the same number for tokens and nodes", n)
	}
}

func (c *Ctx) pureMethods(typ string) func(*ssa.Function) bool {
	return func(f *ssa.Function) bool {
		if !exported(f) || f.Signature.Recv() == nil {
			return false
		}
		rt := f.Signature.Recv().Type()
		if p, ok := rt.(*types.Pointer); ok {
			rt = p.Elem()
		}
		return types.TypeString(rt, nil) == modPath+"/"+typ
	}
}

func ruleTokenData(c *Ctx) {
	c.For("C23")
	dt := c.namedType(tokPkg, "TokenData")
	st := dt.Underlying().(*types.Struct)
	want := map[string]string{"ID": "id", "Start": "start", "End": "end", "Surface": "surface", "Class": "class", "POS": "pos", "BaseForm": "base_form", "Reading": "reading", "Pronunciation": "pronunciation", "Features": "features"}
	c.In(c.fn("tokenizer.NewTokenData"))
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if w, ok := want[f.Name()]; ok {
			c.Ob(tag == w, f.Pos(), "field %s is exported under the JSON key %q (tag is %q)", f.Name(), w, tag)
			delete(want, f.Name())
		}
	}
	for n := range want {
		c.Ob(false, dt.(*types.Named).Obj().Pos(), "TokenData has no field %s", n)
	}
	c.Ob(!c.hasMethod(dt, "MarshalJSON") && !c.hasMethod(dt, "MarshalText"), dt.(*types.Named).Obj().Pos(), "TokenData is encoded by its field tags")
	fn := c.fn("tokenizer.NewTokenData")
	pm := c.pureMethods("tokenizer.Token")
	cs := c.fn("tokenizer.TokenClass.String")
	opq := func(f *ssa.Function) bool { return pm(f) || f == cs }
	e := vg.NewEval(c.R.Prog, IsRepo, opq)
	e.PureFn = opq
	s := e.Run(fn)
	c.In(fn).touch(s)
	tt := c.namedType(tokPkg, "Token")
	t := s.Params[0]
	meth := func(n string) *vg.Term { return e.PureCall(c.R.Func("tokenizer.Token."+n), t) }
	for _, n := range []string{"ID", "Start", "End", "Surface"} {
		got := structField(s.Ret[0], dt, fieldByName(dt, n))
		c.Ob(vg.SameUnder(vg.True, got, structField(t, tt, fieldByName(tt, n))), fn.Pos(), "TokenData.%s is the token's %s (got %s)", n, n, ts(got))
	}
	got := structField(s.Ret[0], dt, fieldByName(dt, "Class"))
	c.Ob(vg.SameUnder(vg.True, got, e.PureCall(cs, structField(t, tt, fieldByName(tt, "Class")))), fn.Pos(), "TokenData.Class is the name of the token's class (got %s)", ts(got))
	for _, n := range []string{"BaseForm", "Reading", "Pronunciation"} {
		got := structField(s.Ret[0], dt, fieldByName(dt, n))
		m := meth(n)
		v, ok := vg.Extract(m, 0, strT), vg.Extract(m, 1, types.Typ[types.Bool])
		// an absent feature comes with the empty string
		alt := vg.Ite(ok, v, vg.Str(""))
		c.Ob(vg.SameUnder(vg.True, got, v) || vg.SameUnder(vg.True, got, alt), fn.Pos(), "TokenData.%s is the token's %s (got %s)", n, n, ts(got))
	}
	for _, n := range []string{"POS", "Features"} {
		got := structField(s.Ret[0], dt, fieldByName(dt, n))
		m := meth(n)
		ok := true
		for _, lf := range vg.Leaves(got, vg.True) {
			if !vg.Implies(lf.Cond, vg.NonNil(lf.Val)) {
				c.For("C23")
				c.Ob(false, fn.Pos(), "TokenData.%s is never nil (nil when %s)", n, ts(lf.Cond))
				ok = false
			}
		}
		same, cc, x, y := vg.SameContent(vg.True, e, s.Mem, got, e, s.Mem, m, strT)
		if !same {
			// no elements give an empty list
			none := vg.LE(vg.Len(m), vg.Int(0))
			same, cc, x, y = vg.SameContent(vg.Not(none), e, s.Mem, got, e, s.Mem, m, strT)
			for _, lf := range vg.Leaves(got, none) {
				if !vg.Implies(vg.And(lf.Cond, none), vg.LE(vg.Len(lf.Val), vg.Int(0))) {
					same, cc, x, y = false, lf.Cond, lf.Val, nil
				}
			}
		}
		c.Ob(same && ok, fn.Pos(), "TokenData.%s is the token's %s or an empty list; when %s got %s, expected %s", n, n, ts(cc), ts(x), ts(y))
	}
}

func (c *Ctx) hasMethod(t types.Type, name string) bool {
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		ms := types.NewMethodSet(x)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return true
			}
		}
	}
	return false
}

// errRet is the index of the error result of fn, or -1.
func errRet(fn *ssa.Function) int {
	r := fn.Signature.Results()
	for i := r.Len() - 1; i >= 0; i-- {
		if types.TypeString(r.At(i).Type(), nil) == "error" {
			return i
		}
	}
	return -1
}

func ruleConstruct(c *Ctx) {
	c.For("C24")
	fn := c.fn("tokenizer.New")
	s := c.Eval(fn, nil)
	d, opts := s.Params[0], s.Params[1]
	tok, err := s.Ret[0], s.Ret[1]
	c.Ob(vg.Implies(vg.EQ(d, vg.Nil), vg.And(vg.EQ(tok, vg.Nil), vg.NonNil(err))), fn.Pos(), "a nil dictionary gives an error and no tokenizer")
	c.Ob(!vg.Sat(vg.And(vg.NonNil(err), vg.NonNil(tok))), fn.Pos(), "an error comes without a tokenizer")
	// options: one call per option on the tokenizer, all of them
	var calls []*vg.Event
	for _, ev := range s.Events {
		if ev.Kind == vg.EvCall && ev.Static == nil && ev.Callee == "dynamic" {
			calls = append(calls, ev)
		}
	}
	if c.Ob(len(calls) == 1, fn.Pos(), "options are applied at one place (found %d)", len(calls)) {
		ev := calls[0]
		if c.Ob(len(ev.Loops) == 1 && len(ev.Args) == 2, ev.Pos, "options are applied in one loop") {
			l := ev.Loops[0]
			dom := l.Domain()
			ot := fn.Params[1].Type().Underlying().(*types.Slice).Elem()
			want := s.E.Ptr(vg.ElemAddr(opts, l.Iter(), ot), ot, vg.BaseMem()).Val()
			c.Ob(dom != nil && vg.Equiv(vg.And(dom, vg.LE(vg.Int(0), l.Iter())), vg.And(vg.LT(l.Iter(), vg.Len(opts)), vg.LE(vg.Int(0), l.Iter()))), ev.Pos, "every option is applied (domain %s)", ts(dom))
			c.Ob(goesOn(l, vg.EQ(ev.Res, vg.Nil), nil), ev.Pos, "the remaining options are applied too (goes on when %s)", ts(l.ContCond))
			c.Ob(ev.Args[0] == want, ev.Pos, "the i-th option is applied in the i-th round (got %s)", ts(ev.Args[0]))
			c.Ob(vg.Implies(vg.And(l.EntryCond, dom), ev.Cond) && vg.Implies(vg.NonNil(d), l.EntryCond), ev.Pos, "no option is skipped (applied only if %s)", ts(ev.Cond))
			obj := ev.Args[1]
			for _, lf := range vg.Leaves(tok, vg.True) {
				if lf.Val != vg.Nil {
					c.Ob(lf.Val == obj && obj.Op == vg.OpAlloc, fn.Pos(), "the tokenizer returned is the new one the options were applied to")
				}
			}
			c.errFlow(s, ev, ev.Res, err, "an option's error is returned")
			c.Ob(vg.Implies(vg.And(vg.NonNil(d), c.noExit(s, ev, ev.Res)), vg.And(vg.EQ(err, vg.Nil), vg.NonNil(tok))), fn.Pos(), "with a dictionary and no failing option a tokenizer is returned")
			// the dictionary is set before any option
			tt := c.namedType(tokPkg, "Tokenizer")
			str := tt.Underlying().(*types.Struct)
			di := fieldByType(tt, dictType)
			for i := 0; i < str.NumFields(); i++ {
				ft := str.Field(i).Type()
				v := vg.Restrict(s.E.Load(l.EntryMem(), vg.FAddr(obj, tt, i), ft), l.EntryCond)
				if i == di {
					c.Ob(v == d, fn.Pos(), "the tokenizer uses the given dictionary (got %s)", ts(v))
				} else {
					c.Ob(v.IsConst(0) || v == vg.Nil || v == vg.False, fn.Pos(), "New sets nothing but the dictionary (%s is %s)", str.Field(i).Name(), ts(v))
				}
			}
			begun := false
			for _, x := range s.Events {
				begun = begun || x.Kind == vg.EvLoop && x.Loop == l
				if begun && x.Kind == vg.EvStore {
					c.Ob(vg.Root(x.Addr) != obj, x.Pos, "New sets nothing but the dictionary")
				}
			}
		}
	}
	// options
	opt := func(name string, arg bool) {
		c.For("C24", "C11", "C10")
		fn := c.fn("tokenizer." + name)
		s := c.Eval(fn, nil)
		for _, lf := range vg.Leaves(s.Ret[0], vg.True) {
			if !c.Ob(lf.Val.Op == vg.OpClosure || lf.Val.Op == vg.OpFunc, fn.Pos(), "option %s is a function", name) {
				return
			}
			a := s.E.Apply(lf.Val, s.Mem)
			tt := c.namedType(tokPkg, "Tokenizer")
			str := tt.Underlying().(*types.Struct)
			obj := a.Params[0]
			ok := lf.Cond
			if arg {
				given := vg.NonNil(s.Params[0])
				c.Ob(vg.Implies(vg.And(ok, given), vg.EQ(a.Ret[0], vg.Nil)) && vg.Implies(vg.And(ok, vg.Not(given)), vg.NonNil(a.Ret[0])), fn.Pos(), "option %s fails exactly for a nil argument", name)
				ok = vg.And(ok, given)
			} else {
				c.Ob(vg.Implies(ok, vg.EQ(a.Ret[0], vg.Nil)), fn.Pos(), "option %s does not fail", name)
			}
			for i := 0; i < str.NumFields(); i++ {
				fa := vg.FAddr(obj, tt, i)
				got := a.E.Load(a.Mem, fa, str.Field(i).Type())
				old := a.E.Load(vg.BaseMem(), fa, str.Field(i).Type())
				want := old
				ft := types.TypeString(str.Field(i).Type(), nil)
				switch {
				case name == "UserDict" && ft == udictType:
					want = s.Params[0]
				case name == "OmitBosEos" && ft == "bool":
					want = vg.True
				}
				c.Ob(vg.SameUnder(ok, got, want), fn.Pos(), "option %s sets exactly its own setting (%s becomes %s)", name, str.Field(i).Name(), ts(got))
			}
		}
	}
	opt("UserDict", true)
	opt("OmitBosEos", false)
	opt("Nop", false)
}

// errFlow: whenever the call at ev yields a non-nil error res, the function's
// error result ret is non-nil.
func (c *Ctx) errFlow(s *vg.Summary, ev *vg.Event, res, ret *vg.Term, what string) bool {
	good, why := errFlows(ev, res, ret)
	return c.Ob(good, ev.Pos, "%s%s", what, why)
}

func errFlows(ev *vg.Event, res, ret *vg.Term) (bool, string) {
	bad := vg.And(ev.Cond, vg.NonNil(res))
	return errFlowsIn(ev.Loops, bad, ret)
}

func errFlowsIn(loops []*vg.Loop, bad, ret *vg.Term) (bool, string) {
	if len(loops) == 0 {
		if vg.Implies(bad, vg.NonNil(ret)) {
			return true, ""
		}
		d := vg.And(bad, vg.EQ(ret, vg.Nil))
		return false, " (lost when " + ts(d) + ")"
	}
	l := loops[len(loops)-1]
	exit := vg.False
	for _, g := range l.Exits {
		exit = vg.Or(exit, g.Cond)
	}
	if !vg.Implies(vg.And(bad, l.EntryCond), exit) {
		return false, " (the loop goes on after it)"
	}
	for i, g := range l.Exits {
		b := vg.And(bad, g.Cond)
		if !vg.Sat(b) {
			continue
		}
		// after the exit: only facts that survive it
		f := l.Final(nil, i, vg.And(bad, g.Cond))
		_ = f
		next := vg.And(vg.And(l.EntryCond, g.E), vg.PostBad(l, i, bad))
		if ok, why := errFlowsIn(loops[:len(loops)-1], next, ret); !ok {
			return false, why
		}
	}
	return true, ""
}

// noExit is the condition that no iteration of ev's loop left it because of res.
func (c *Ctx) noExit(s *vg.Summary, ev *vg.Event, res *vg.Term) *vg.Term {
	l := ev.Loops[len(ev.Loops)-1]
	r := vg.True
	for _, g := range l.Exits {
		if vg.Sat(vg.And(g.Cond, vg.And(ev.Cond, vg.NonNil(res)))) && !g.Header {
			r = vg.And(r, vg.Not(g.E))
		}
	}
	return r
}

var _ = strings.Contains
