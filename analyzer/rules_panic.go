package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"kcheck/vg"
)

func init() {
	register("nopanic", "C28", "every operation of the library that can panic is one whose operands are in range on every path to it", ruleNoPanic)
}

// ruleNoPanic runs over every call the library offers. An index, slice,
// division, allocation or type assertion on a path must follow from the path
// condition and from the contract of a consistent dictionary, see facts.
func ruleNoPanic(c *Ctx) {
	c.For("C28")
	p := &panics{c: c, lat: c.lattice(), tok: c.namedType(tokPkg, "Token")}
	seen := map[*ssa.Function]bool{}
	var rest []*ssa.Function
	for _, fn := range append(c.library(), c.commands()...) {
		if fn.TypeParams().Len() > 0 || len(fn.TypeArgs()) > 0 {
			continue
		}
		if !exported(fn) && fn.String() != modPath+".main" {
			rest = append(rest, fn)
			continue
		}
		for f := range p.run(fn) {
			seen[f] = true
		}
	}
	// what is handed out to be called later
	for _, fn := range rest {
		if fn.Parent() != nil && !seen[fn] && fn.Parent().TypeParams().Len() == 0 {
			p.run(fn)
		}
	}
}

type panics struct {
	c       *Ctx
	lat     *lat
	tok     types.Type
	runs    int
	cur     *ssa.Function
	results map[*vg.Term]*vg.Term // pointers, when the call that made them worked
}

func (p *panics) run(fn *ssa.Function) map[*ssa.Function]bool {
	c := p.c
	for f := fn; f != nil; f = f.Parent() {
		if isSplitFunc(f) {
			return nil // the splitter's offsets are those of the walk C15 compares
		}
	}
	e := vg.NewEval(c.R.Prog, IsRepo, func(f *ssa.Function) bool { return f != fn && exported(f) })
	e.Bounds = true
	p.runs++
	p.cur = fn
	e.Tag = fmt.Sprintf("'%d", p.runs)
	s := e.Run(fn)
	c.In(fn)
	c.touch(s)
	p.mayFail(s)
	for _, ev := range s.Events {
		switch ev.Kind {
		case vg.EvCall:
			if ev.Static != nil && ev.Static.Signature.Recv() != nil && len(ev.Args) > 0 && ev.Args[0] != nil && IsRepo(ev.Static) {
				if _, ptr := ev.Static.Signature.Recv().Type().Underlying().(*types.Pointer); ptr {
					c.Ob(p.notNil(ev.Args[0], ev.Cond), ev.Pos, "%s is called on a value that is there; it is %s when %s", ev.Callee, ts(ev.Args[0]), ts(ev.Cond))
				}
			}
		case vg.EvPanic:
			c.Ob(!vg.Sat(ev.Cond), ev.Pos, "no panic is raised on purpose; reached when %s", ts(ev.Cond))
		case vg.EvBounds:
			p.check(s, ev)
		}
	}
	return e.Visited
}

// isSplitFunc reports the shape of a bufio.SplitFunc.
func isSplitFunc(fn *ssa.Function) bool {
	sg := fn.Signature
	return sg.Params().Len() == 2 && sg.Results().Len() == 3 && types.TypeString(sg.Params().At(0).Type(), nil) == "[]byte" && types.TypeString(sg.Params().At(1).Type(), nil) == "bool"
}

func (p *panics) check(s *vg.Summary, ev *vg.Event) {
	c := p.c
	cond := ev.Cond
	switch ev.Callee {
	case "nil dereference", "write to a nil map":
		ok := ev.Val == vg.True
		if !ok {
			ok = p.notNil(ev.Addr, cond)
		}
		c.Ob(ok, ev.Pos, "%s: %s is not nil when %s", ev.Callee, ts(ev.Addr), ts(cond))
		return
	}
	ok := ev.Val == vg.True
	if !ok {
		for _, f := range p.facts(s, ev) {
			cond = vg.And(cond, f)
		}
		ok = vg.Implies(cond, ev.Val)
	}
	var i string
	if ev.Args[0] != nil {
		i = ts(ev.Args[0])
	}
	what := ""
	if ev.Addr != nil {
		what = ts(ev.Addr)
	}
	c.Ob(ok, ev.Pos, "%s: %s of %s is in range when %s; left to show: %s", ev.Callee, i, what, ts(ev.Cond), func() string {
		if ok {
			return ""
		}
		return ts(vg.Restrict(ev.Val, cond))
	}())
}

// notNil judges a pointer that is dereferenced. Only what can be nil when the
// library is used as documented needs to be tested by the code.
func (p *panics) notNil(x, cond *vg.Term) bool {
	for _, l := range vg.Leaves(x, cond) {
		v, u := l.Val, vg.And(cond, l.Cond)
		if v == vg.Nil {
			return false
		}
		if okc := p.results[v]; okc != nil {
			if !vg.Implies(u, okc) && !vg.Implies(u, vg.NonNil(v)) {
				return false // the call may have failed
			}
			continue
		}
		if v.Typ == nil || v.Op != vg.OpLd && v.Op != vg.OpField && v.Op != vg.OpParam && v.Op != vg.OpMu && v.Op != vg.OpFinMu {
			continue
		}
		nil2 := vg.True // where it may be nil
		switch ty := types.TypeString(v.Typ, nil); {
		case ty == udictType:
			// only a tokenizer with a user dictionary has user words
			nil2 = vg.Not(p.classOf([]*vg.Term{u}, nil, "USER"))
		case ty == dictType && v.Op == vg.OpField:
			// a token that is not from a dictionary has none
			nil2 = vg.Not(p.classOf([]*vg.Term{u}, ownerOf(v), "KNOWN", "UNKNOWN"))
		case types.Identical(v.Typ, types.NewPointer(types.NewSlice(p.tok))) && v.Op == vg.OpParam:
			// a nil slice pointer is a no-op
		case types.Identical(v.Typ, p.lat.nodePtr) && (v.Op == vg.OpMu || v.Op == vg.OpFinMu || v.Op == vg.OpLd && vg.Class(v.Args[0]) == vg.FieldClassName(p.lat.nt, p.lat.prev)):
			// the chain of back pointers ends
		default:
			nil2 = vg.False
		}
		if !vg.Implies(vg.And(u, nil2), vg.NonNil(v)) {
			return false
		}
	}
	return true
}

// mayFail notes the pointers that are nil when a call fails.
func (p *panics) mayFail(s *vg.Summary) {
	p.results = map[*vg.Term]*vg.Term{}
	for _, ev := range s.Events {
		ci, ok := ev.Instr.(ssa.CallInstruction)
		if ev.Kind != vg.EvCall || ev.Res == nil || !ok {
			continue
		}
		rs := ci.Common().Signature().Results()
		if rs.Len() < 2 {
			continue
		}
		n := rs.Len() - 1
		if _, ptr := rs.At(0).Type().Underlying().(*types.Pointer); !ptr {
			continue
		}
		last := vg.Extract(ev.Res, n, rs.At(n).Type())
		switch types.TypeString(rs.At(n).Type(), nil) {
		case "error":
			p.results[vg.Extract(ev.Res, 0, rs.At(0).Type())] = vg.EQ(last, vg.Nil)
		case "bool":
			p.results[vg.Extract(ev.Res, 0, rs.At(0).Type())] = vg.BoolOf(last)
		}
	}
}

// classOf is the condition under which the token or node that owns a term
// has one of the classes. Any owner will do if none is given.
func (p *panics) classOf(in []*vg.Term, owner *vg.Term, names ...string) *vg.Term {
	out := vg.False
	for _, x := range in {
		if x == nil {
			continue
		}
		vg.Any(x, func(t *vg.Term) bool {
			if p.isField(t, "Class") && (owner == nil || ownerOf(t) == owner) {
				for _, n := range names {
					out = vg.Or(out, vg.EQ(t, p.c.constOf(latPkg, n)))
				}
			}
			return false
		})
	}
	return out
}

// ownerOf is the token or node a field was read from.
func ownerOf(t *vg.Term) *vg.Term {
	if t.Op == vg.OpLd && t.Args[0].Op == vg.OpFieldAddr {
		return t.Args[0].Args[0]
	}
	return t.Args[0]
}

// isField reports a read of a field of a token or node.
func (p *panics) isField(t *vg.Term, name string) bool {
	switch t.Op {
	case vg.OpLd:
		return vg.Class(t.Args[0]) == vg.FieldClassName(p.lat.nt, fieldByName(p.lat.nt, name)) ||
			vg.Class(t.Args[0]) == vg.FieldClassName(p.tok, fieldByName(p.tok, name))
	case vg.OpField:
		ty := t.Args[0].Typ
		return ty != nil && (types.Identical(ty, p.tok) && t.N == fieldByName(p.tok, name) || types.Identical(ty, p.lat.nt) && t.N == fieldByName(p.lat.nt, name))
	}
	return false
}

// sub finds a part of a term.
func sub(t *vg.Term, p func(*vg.Term) bool) *vg.Term {
	var r *vg.Term
	vg.Any(t, func(x *vg.Term) bool {
		if p(x) {
			r = x
			return true
		}
		return false
	})
	return r
}

// within reports that the term is read from the named field of a dictionary,
// and the number of elements taken on the way to it.
func fieldPath(t *vg.Term) string {
	var out []string
	for t != nil {
		switch t.Op {
		case vg.OpFieldAddr:
			out = append(out, t.S[strings.LastIndex(t.S, ".")+1:])
			t = t.Args[0]
		case vg.OpIndexAddr:
			out = append(out, "[]")
			t = t.Args[0]
		case vg.OpLd, vg.OpSlice, vg.OpConv, vg.OpTrunc, vg.OpMapGet, vg.OpIndex:
			t = t.Args[0]
		case vg.OpField:
			if ty := t.Args[0].Typ; ty == nil {
				return ""
			} else if st, ok := ty.Underlying().(*types.Struct); ok && t.N < st.NumFields() {
				out = append(out, st.Field(t.N).Name())
			}
			t = t.Args[0]
		default:
			t = nil
		}
	}
	var b strings.Builder
	for i := len(out) - 1; i >= 0; i-- {
		if out[i] != "[]" && b.Len() > 0 {
			b.WriteByte('.')
		}
		b.WriteString(out[i])
	}
	return b.String()
}

// facts lists what a consistent dictionary, a built lattice and the standard
// library promise about the parts of an operation.
func (p *panics) facts(s *vg.Summary, ev *vg.Event) []*vg.Term {
	var out []*vg.Term
	done := map[*vg.Term]bool{}
	add := func(f *vg.Term) { out = append(out, f) }
	x, i := ev.Addr, ev.Args[0]
	xs := []*vg.Term{}
	if x != nil {
		for _, l := range vg.Leaves(x, ev.Cond) {
			xs = append(xs, l.Val)
		}
	}
	in := func(t *vg.Term) { // 0 <= t < len(x)
		for _, x := range xs {
			add(vg.And(vg.LE(vg.Int(0), t), vg.LT(t, vg.Len(x))))
		}
	}
	path := ""
	if len(xs) > 0 {
		path = fieldPath(xs[0])
	}
	idxs := map[*vg.Term]bool{}
	if i != nil && ev.Callee == "index" {
		for _, l := range vg.Leaves(i, ev.Cond) {
			idxs[l.Val] = true
		}
	}
	visit := func(t *vg.Term) bool {
		if done[t] {
			return false
		}
		done[t] = true
		switch {
		case p.isField(t, "ID"):
			from := []*vg.Term{ev.Cond, x, i, ev.Val}
			o := ownerOf(t)
			word := vg.Or(p.classOf(from, o, "KNOWN", "UNKNOWN", "USER"), vg.Not(vg.EQ(t, p.c.constOf(latPkg, "BosEosID"))))
			add(vg.Or(vg.Not(word), vg.LE(vg.Int(0), t)))
			for _, x := range xs {
				within := vg.LT(t, vg.Len(x))
				// the feature table, where there is one, has a row per word
				if x.Op == vg.OpLd && strings.HasSuffix(vg.Class(x.Args[0]), "dict.Dict.Contents") {
					add(vg.Or(vg.Or(vg.EQ(x, vg.Nil), vg.Not(p.classOf(from, o, "KNOWN"))), within))
				}
				for suffix, class := range map[string]string{"POSTable.POSs": "KNOWN", "dic.Morphs": "KNOWN", "UnkDict.Morphs": "UNKNOWN", "UnkDict.Contents": "UNKNOWN", "udic.Contents": "USER"} {
					if p.ends(fieldPath(x), x, suffix) {
						add(vg.Or(vg.Not(p.classOf(from, o, class)), within))
					}
				}
			}
		case t.Op == vg.OpLd && vg.Class(t.Args[0]) == vg.FieldClassName(p.lat.nt, p.lat.nf["Start"]):
			add(vg.LE(vg.Int(0), t))
			for _, x := range xs {
				if x.Typ != nil && types.Identical(x.Typ, p.lat.listT) {
					add(vg.LT(t, vg.Len(x)))
				}
			}
		case t.Op == vg.OpLd && strings.HasSuffix(fieldPath(t), "POSTable.POSs[][]") && idxs[t]:
			if strings.HasSuffix(path, "POSTable.NameList") {
				in(t)
			}
		case t.Op == vg.OpMapGet && strings.HasSuffix(fieldPath(t), "ContentsMeta"):
			add(vg.LE(vg.Int(0), t))
		case t.Op == vg.OpMapGet && strings.HasSuffix(fieldPath(t), "UnkDict.Index"):
			// the words of a character class follow each other
			if strings.HasSuffix(path, "UnkDict.Morphs") {
				in(i)
			}
		case t.Op == vg.OpApp && strings.HasSuffix(t.S, "Dict).CharacterCategory") && idxs[t]:
			if strings.HasSuffix(path, "InvokeList") || strings.HasSuffix(path, "GroupList") {
				in(t)
			}
		case t.Op == vg.OpCbArg && strings.Contains(t.S+t.Loop.Key, "CommonPrefixSearchCallback"):
			if t.N == 0 && idxs[t] && (strings.HasSuffix(path, "Morphs") || strings.HasSuffix(path, "Contents")) {
				in(t)
			}
			if t.N == 1 {
				add(vg.LE(vg.Int(1), t))
				for _, cv := range s.Events {
					if cv.Kind == vg.EvCall && strings.Contains(cv.Callee, "CommonPrefixSearchCallback") {
						for _, a := range cv.Args {
							if a != nil && a.Op == vg.OpSlice {
								add(vg.LE(t, vg.Len(a)))
							}
						}
					}
				}
			}
		case t.Op == vg.OpApp && t.S == "runecount" && t.Args[0].Op == vg.OpSlice:
			sl := t.Args[0]
			if lo := sl.Args[1]; lo != nil && lo.Op == vg.OpROff && lo.Args[0] == sl.Args[0] && lo.Args[1] == vg.Int(0) {
				add(vg.LE(vg.Add(t, lo.Args[2]), vg.RuneCount(sl.Args[0])))
			}
		case t.Op == vg.OpCount:
			add(vg.LE(t, t.Loop.Iter()))
		case t.Op == vg.OpFinMu && t.S == "count":
			add(vg.And(vg.LE(vg.Int(0), t), vg.LE(t, t.Loop.Final(s.E, t.N, t.Loop.Iter()))))
		case t.Op == vg.OpApp && t.S == "max0":
			a := t.Args[0]
			add(vg.Or(vg.And(vg.LE(a, vg.Int(0)), vg.EQ(t, vg.Int(0))), vg.And(vg.LE(vg.Int(0), a), vg.EQ(t, a))))
		case t.Op == vg.OpFinIter:
			// left in the middle of a round, after whole rounds
			l := t.Loop
			plain := func(c *vg.Term) bool {
				return !vg.Any(c, func(x *vg.Term) bool {
					return x.Op == vg.OpHole || x.Loop == l && x.Op != vg.OpIter && x.Op != vg.OpFinIter
				})
			}
			if !l.AtHead(t.N) {
				if d := l.Domain(); d != nil {
					add(l.Final(s.E, t.N, d))
				}
				if x := l.Exits[t.N].Cond; x != nil && plain(x) {
					add(vg.Subst(x, map[*vg.Term]*vg.Term{l.Iter(): t}))
				}
			}
			if l.ContCond != nil && plain(l.ContCond) {
				add(vg.Or(vg.LE(t, vg.Int(0)), vg.Subst(l.ContCond, map[*vg.Term]*vg.Term{l.Iter(): vg.Sub(t, vg.Int(1))})))
			}
		case t.Op == vg.OpExists:
			// what held in no round did not hold in the last one
			for _, a := range vg.Atoms(t.Args[0]) {
				if a.Op != vg.OpLE {
					continue
				}
				b := sub(a, func(x *vg.Term) bool { return x.Op == vg.OpBound })
				if b == nil {
					continue
				}
				isB := func(x *vg.Term) bool { return x.Op == vg.OpBound }
				if k := vg.Sub(b, a.Args[0]); !vg.Any(k, isB) {
					add(vg.Or(vg.LT(k, vg.Int(0)), vg.Or(vg.BoolOf(t), vg.Or(vg.Not(instantiate(t.Args[0], k)), vg.Not(instantiate(t.Args[1], k))))))
				}
			}
		case t.Op == vg.OpFirst:
			add(instantiate(t.Args[0], t))
		case t.Op == vg.OpApp && (t.S == "strings.Index" || t.S == "bytes.Index" || t.S == "strings.LastIndex" || t.S == "bytes.LastIndex"):
			add(vg.And(vg.LE(vg.Int(-1), t), vg.LE(vg.Add(t, vg.Len(t.Args[1])), vg.Len(t.Args[0]))))
		case t.Op == vg.OpApp && (t.S == "strings.IndexByte" || t.S == "strings.IndexRune" || t.S == "strings.IndexAny"):
			add(vg.And(vg.LE(vg.Int(-1), t), vg.LT(t, vg.Len(t.Args[0]))))
		case t.Op == vg.OpLen && t.Args[0].Op == vg.OpLd && t.Args[0].Args[0].Op == vg.OpGlobal && t.Args[0].Args[0].S == "os.Args":
			add(vg.LE(vg.Int(1), t)) // the program's name
		case t.Op == vg.OpLen && t.Args[0].Typ != nil && types.Identical(t.Args[0].Typ, p.lat.listT) && p.built(t.Args[0]):
			if n := p.cur.Name(); n != "Backward" && n != "Dot" {
				add(vg.LE(vg.Int(1), t))
			}
			// only an analysed lattice has a grid or output, with EOS in the last slot
			if o := vg.FAddr(t.Args[0].Args[0].Args[0], p.lat.lt, p.lat.out); o != nil {
				out := s.E.Load(vg.BaseMem(), o, p.lat.latField(p.lat.out))
				add(vg.Or(vg.LE(vg.Len(out), vg.Int(0)), vg.LE(vg.Int(1), t)))
			}
		case t.Op == vg.OpLen && t.Args[0].Typ != nil && types.Identical(t.Args[0].Typ, p.lat.slotT):
			if a := t.Args[0]; a.Op == vg.OpLd && a.Args[0].Op == vg.OpIndexAddr && p.built(a.Args[0].Args[0]) && a.Args[0].Args[1] == vg.Sub(vg.Len(a.Args[0].Args[0]), vg.Int(1)) {
				add(vg.LE(vg.Int(1), t))
			}
		}
		return false
	}
	for _, t := range []*vg.Term{ev.Val, x, i, ev.Cond} {
		if t != nil {
			vg.Any(t, visit)
		}
	}
	// compact conditions first: facts about facts
	for _, f := range append([]*vg.Term(nil), out...) {
		vg.Any(f, visit)
	}
	return out
}

// ends compares the table of an access; the user dictionary's by its type.
func (p *panics) ends(path string, x *vg.Term, suffix string) bool {
	if strings.HasPrefix(suffix, "udi") {
		if !strings.HasSuffix(path, ".Contents") && path != "Contents" {
			return false
		}
		return x.Op == vg.OpLd && x.Args[0].Op == vg.OpFieldAddr && strings.Contains(x.Args[0].S, "UserDict.")
	}
	if suffix == "dic.Morphs" {
		return strings.HasSuffix(path, ".Morphs") && !strings.HasSuffix(path, "UnkDict.Morphs")
	}
	return strings.HasSuffix(path, suffix)
}

// built reports the grid of a lattice handed to the call.
func (p *panics) built(t *vg.Term) bool {
	return t.Op == vg.OpLd && t.S == "" && vg.Root(t.Args[0]).Op == vg.OpParam
}

// instantiate puts k for the bound variable of a domain.
func instantiate(d, k *vg.Term) *vg.Term {
	if d == vg.True || d == vg.False {
		return d
	}
	m := map[*vg.Term]*vg.Term{}
	vg.Any(d, func(x *vg.Term) bool {
		if x.Op == vg.OpBound {
			m[x] = k
		}
		return false
	})
	if len(m) != 1 {
		return vg.True
	}
	return vg.Subst(d, m)
}

// commands lists the functions of the command line tools.
func (c *Ctx) commands() []*ssa.Function {
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(c.R.Prog) {
		if fn.Pkg == nil || len(fn.Blocks) == 0 || fn.Synthetic != "" {
			continue
		}
		if pp := fn.Pkg.Pkg.Path(); pp == modPath || strings.HasPrefix(pp, modPath+"/cmd") {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}
