package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"kcheck/vg"
)

func init() {
	register("effects", "C06", "no reachable store, map update, copy or append of the library and the handlers has a target that another call can see, and no shared object is handed to a library function that is not known to be safe", ruleEffects)
	register("fresh", "C08", "every slice or pointer an accessor returns is allocated in that call", ruleFresh)
}

// own says who else can see the memory a pointer-like value leads to.
type own struct {
	kind string // "fresh", "param", "shared"
	i    int
	what *vg.Term
}

const dictPkg = "github.com/ikawaha/kagome-dict/"

func dictionaryType(t types.Type) bool {
	if t == nil {
		return false
	}
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), dictPkg)
}

// reach reports whether memory can be reached through a value of type t.
func reach(t types.Type) bool {
	if t == nil {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if reach(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return reach(u.Elem())
	case *types.Signature:
		return false
	}
	return true
}

// freshResult lists the library calls whose result is visible to others.
func sharedResult(callee string) bool {
	return strings.Contains(callee, dictPkg)
}

// owners lists the owners of the memory that t points into.
func owners(s *vg.Summary, t *vg.Term) []own {
	var out []own
	seen := map[*vg.Term]bool{}
	add := func(o own) {
		for _, x := range out {
			if x.kind == o.kind && x.i == o.i && x.what == o.what {
				return
			}
		}
		out = append(out, o)
	}
	shared := func(t *vg.Term) { add(own{"shared", 0, t}) }
	var rec func(t *vg.Term)
	rec = func(t *vg.Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if dictionaryType(t.Typ) && (t.Op == vg.OpLd || t.Op == vg.OpField || t.Op == vg.OpMapGet) {
			shared(t)
			return
		}
		switch t.Op {
		case vg.OpNil, vg.OpConst, vg.OpFunc, vg.OpClosure, vg.OpLin, vg.OpTrue, vg.OpFalse, vg.OpHole:
		case vg.OpAlloc, vg.OpMakeSlice, vg.OpMakeMap, vg.OpMakeChan, vg.OpConv, vg.OpTrunc, vg.OpStruct, vg.OpConcat, vg.OpBin:
			add(own{"fresh", 0, t})
		case vg.OpFieldAddr, vg.OpIndexAddr, vg.OpSlice, vg.OpIface, vg.OpAssert, vg.OpLd, vg.OpMapGet, vg.OpField, vg.OpIndex:
			rec(t.Args[0])
		case vg.OpExtract:
			rec(t.Args[0])
		case vg.OpAppend:
			if t.Args[0] == vg.Nil {
				add(own{"fresh", 0, t})
				return
			}
			rec(t.Args[0])
			add(own{"fresh", 0, t})
		case vg.OpSeqLoop:
			add(own{"fresh", 0, t})
			if len(t.Args) > 0 {
				rec(t.Args[0])
			}
		case vg.OpITE:
			for _, l := range vg.Leaves(t, vg.True) {
				rec(l.Val)
			}
		case vg.OpMu, vg.OpFinMu:
			m := t.Loop.MuByTerm(t)
			if m == nil || m.Next == nil {
				shared(t)
				return
			}
			rec(m.Init)
			rec(m.Next)
		case vg.OpApp:
			// a pure function: results are new unless they come from a dictionary
			if sharedResult(t.S) || strings.HasPrefix(t.S, "dict.") {
				shared(t)
				return
			}
			add(own{"fresh", 0, t})
			if strings.HasPrefix(t.S, "bytes.") {
				for _, a := range t.Args {
					rec(a)
				}
			}
		case vg.OpRes:
			for _, ev := range s.Events {
				if ev.Kind == vg.EvCall && ev.Res == t {
					if ev.Static == nil && !strings.Contains(ev.Callee, ".") || sharedResult(ev.Callee) {
						shared(t)
						return
					}
					add(own{"fresh", 0, t})
					// a view of its arguments
					if !strings.Contains(ev.Callee, ".New") {
						return
					}
					return
				}
			}
			shared(t)
		case vg.OpParam:
			add(own{"param", t.N, t})
		default:
			shared(t)
		}
	}
	rec(t)
	return out
}

// concurrent lists the library functions that may be given shared objects:
// they only read them, or are documented as safe for concurrent use.
func concurrent(callee string) bool {
	for _, p := range []string{"(*sync.", "fmt.", "log.", "strings.", "(*strings.Replacer).Replace", "unicode.", "unicode/utf8.", "strconv.", "errors.",
		"(*html/template.Template).Execute", "(*text/template.Template).Execute", "encoding/json.Marshal", "bytes.NewReader", "bytes.NewBuffer", "bytes.Index", "bytes.Equal", "bytes.HasPrefix",
		"net/http.Error", "net/http.NewRequest", "context.", "os/exec.Command", "os/exec.LookPath",
		"(*regexp.Regexp).",
		"io.WriteString", "encoding/json.NewEncoder", "encoding/json.NewDecoder", "io.ReadAll", "bufio.NewReader", "bufio.NewScanner", "bufio.NewWriter",
		"runtime.", "time.", "slices.Index", "slices.Contains", "slices.Equal", "slices.Clone", "maps.Clone", "cmp.", "len", "cap"} {
		if strings.HasPrefix(callee, p) {
			return true
		}
	}
	return false
}

// dictReader lists the read-only methods of the dictionary modules.
func dictReader(callee string) bool {
	if !strings.Contains(callee, dictPkg) {
		return false
	}
	for _, n := range []string{"At", "CharacterCategory", "CommonPrefixSearchCallback", "CommonPrefixSearch", "Search", "GetPOSs", "ContentsMeta", "Contents", "String"} {
		if strings.HasSuffix(callee, "."+n) {
			return true
		}
	}
	return false
}

// entryPoints are the exported functions and methods of the packages, and the
// functions the packages hand out.
func (c *Ctx) entryPoints(pkgs ...string) []*ssa.Function {
	var out []*ssa.Function
	in := map[string]bool{}
	for _, p := range pkgs {
		in[p] = true
	}
	for _, fn := range c.R.Funcs {
		if fn.Parent() != nil || fn.Synthetic != "" || fn.Pkg == nil {
			continue
		}
		p := strings.TrimPrefix(strings.TrimPrefix(fn.Pkg.Pkg.Path(), modPath), "/")
		if !in[p] || !exported(fn) {
			continue
		}
		if fn.TypeParams().Len() > 0 {
			continue
		}
		out = append(out, fn)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func recvName(fn *ssa.Function) (name string, ptr bool) {
	r := fn.Signature.Recv()
	if r == nil {
		return "", false
	}
	t := r.Type()
	if p, ok := t.(*types.Pointer); ok {
		t, ptr = p.Elem(), true
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name(), ptr
	}
	return "", ptr
}

// ownedParam reports whether the function is documented to write what its
// parameter i leads to.
func ownedParam(fn *ssa.Function, i int) bool {
	r, ptr := recvName(fn)
	p := strings.TrimPrefix(fn.Pkg.Pkg.Path(), modPath+"/")
	t := types.TypeString(fn.Params[i].Type(), nil)
	switch {
	case p == latPkg && r == "Lattice" && ptr && i == 0:
		// a lattice belongs to the analysis that took it from the pool
		return fn.Name() != "Dot" && fn.Name() != "String"
	case (p == "filter" || p == "filter/ja") && t == "*[]"+modPath+"/tokenizer.Token":
		// the slice to be filtered
		return true
	case p == "cmd/server" && fn.Name() == "ServeHTTP" && i > 0:
		// the request and its response
		return true
	}
	return false
}

func ruleEffects(c *Ctx) {
	c.For("C06")
	fns := c.entryPoints(tokPkg, latPkg, "filter", "filter/ja")
	for _, fn := range c.entryPoints("cmd/server") {
		if fn.Name() == "ServeHTTP" {
			fns = append(fns, fn)
		}
	}
	c.Ob(len(fns) > 40, 0, "the library and handler entry points are known (%d)", len(fns))
	for _, p := range c.R.Pkgs {
		if !repoPkg(p.Types) {
			continue
		}
		for _, f := range p.Syntax {
			for _, im := range f.Imports {
				x := strings.Trim(im.Path.Value, "\"`")
				c.Ob(x != "unsafe" && x != "C", im.Pos(), "memory is only reached through the type system (imports %s)", x)
			}
		}
		c.Ob(len(p.OtherFiles) == 0, 0, "%s has no assembly or foreign code", p.PkgPath)
	}
	memo := map[*ssa.Function]map[int]bool{}
	for _, fn := range fns {
		s := c.Eval(fn, nil)
		c.effects(fn, s, memo, nil)
	}
}

// writes computes which parameters a function that stays opaque (it is
// recursive) may write through, stating the obligations on everything else.
func (c *Ctx) writes(fn *ssa.Function, memo map[*ssa.Function]map[int]bool) map[int]bool {
	if w, ok := memo[fn]; ok {
		return w
	}
	memo[fn] = map[int]bool{}
	for {
		n := len(memo[fn])
		sub := newCtx(c.R)
		sub.Rule, sub.Props = c.Rule, c.Props
		s := sub.Eval(fn, nil)
		w := map[int]bool{}
		sub.effects(fn, s, memo, w)
		for i := range w {
			memo[fn][i] = true
		}
		if len(memo[fn]) == n {
			c.merge(sub)
			c.In(fn).touch(s)
			return memo[fn]
		}
	}
}

// merge takes over the obligations and findings of sub.
func (c *Ctx) merge(sub *Ctx) {
	c.Findings = append(c.Findings, sub.Findings...)
	for p, n := range sub.Obl {
		c.Obl[p] += n
	}
	for p, m := range sub.Sites {
		if c.Sites[p] == nil {
			c.Sites[p] = map[string]bool{}
		}
		for k := range m {
			c.Sites[p][k] = true
		}
	}
	for p, m := range sub.Funcs {
		if c.Funcs[p] == nil {
			c.Funcs[p] = map[string]bool{}
		}
		for k := range m {
			c.Funcs[p][k] = true
		}
	}
	for p, m := range sub.Samples {
		c.Samples[p] = append(c.Samples[p], m...)
		if len(c.Samples[p]) > 12 {
			c.Samples[p] = c.Samples[p][:12]
		}
	}
}

// effects states the obligations of one function. Parameters that may be
// written are collected in w if it is given, and otherwise must be documented
// as written.
func (c *Ctx) effects(fn *ssa.Function, s *vg.Summary, memo map[*ssa.Function]map[int]bool, w map[int]bool) {
	c.In(fn)
	bad := func(t *vg.Term) (string, bool) {
		for _, o := range owners(s, t) {
			switch o.kind {
			case "param":
				switch {
				case o.i < len(fn.Params) && w != nil:
					w[o.i] = true
				case o.i >= len(fn.Params) || !ownedParam(fn, o.i):
					return "what parameter " + ts(o.what) + " leads to", true
				}
			case "shared":
				return ts(o.what), true
			}
		}
		return "", false
	}
	for _, ev := range s.Events {
		switch ev.Kind {
		case vg.EvStore, vg.EvMap, vg.EvCopy, vg.EvAppend, vg.EvSend, vg.EvClose:
			if ev.Addr == nil {
				continue
			}
			if ev.Kind == vg.EvStore && ev.Addr.Op == vg.OpAlloc {
				continue
			}
			x, b := bad(ev.Addr)
			c.Ob(!b, ev.Pos, "the %s writes only memory of this call (writes %s, that is %s)", ev.Kind, ts(ev.Addr), x)
		case vg.EvGo:
			x := goShares(s, ev)
			c.Ob(x == nil, ev.Pos, "the goroutine shares no memory with its caller until the caller has received from it (shares %s)", ts(x))
		case vg.EvCall:
			if ev.Static == nil || concurrent(ev.Callee) || dictReader(ev.Callee) {
				continue
			}
			var only map[int]bool
			if IsRepo(ev.Static) {
				only = c.writes(ev.Static, memo)
				c.In(fn)
			}
			for i, a := range ev.Args {
				if only != nil && !only[i] {
					continue
				}
				if a.Op == vg.OpIface && !reach(a.Args[0].Typ) || !reach(a.Typ) {
					continue
				}
				x, b := bad(a)
				c.Ob(!b, ev.Pos, "%s is not given memory that other calls see (argument %d is %s)", ev.Callee, i, x)
			}
		}
	}
}

// recvCond is the condition of having received from channel ch by way of ev.
func recvCond(ev *vg.Event, ch *vg.Term) *vg.Term {
	switch ev.Kind {
	case vg.EvRecv:
		if ev.Addr == ch {
			return ev.Cond
		}
	case vg.EvSelect:
		r := vg.False
		for i, x := range ev.Chans {
			if x == ch {
				r = vg.Or(r, vg.And(ev.Cond, vg.EQ(ev.Val, vg.Int(int64(i)))))
			}
		}
		return r
	}
	return vg.False
}

// goShares finds memory that the goroutine started by ev and the function that
// starts it may use at the same time, other than channels. What the starting
// function uses after receiving what the goroutine sends last is its own.
func goShares(s *vg.Summary, g *vg.Event) *vg.Term {
	at := indexOf(s.Events, g)
	own := func(t *vg.Term) *vg.Term {
		r := vg.Root(t)
		if r.Op == vg.OpAlloc || r.Op == vg.OpRes {
			return r
		}
		return nil
	}
	chan_ := func(t *vg.Term) bool {
		if t.Typ == nil {
			return false
		}
		_, ok := t.Typ.Underlying().(*types.Chan)
		return ok
	}
	refs := func(ev *vg.Event, visit func(*vg.Term)) {
		for _, a := range append([]*vg.Term{ev.Addr, ev.Val}, ev.Args...) {
			if a == nil {
				continue
			}
			for _, lf := range vg.Leaves(a, vg.True) {
				v := vg.Unbox(lf.Val)
				if chan_(v) || ev.Kind == vg.EvCall && (strings.HasPrefix(ev.Callee, "(context.Context).") || strings.HasPrefix(ev.Callee, "log.")) {
					continue
				}
				if r := own(v); r != nil {
					visit(r)
				}
				vg.Any(v, func(x *vg.Term) bool {
					if x.Op == vg.OpLd {
						if r := own(x.Args[0]); r != nil && r != v {
							visit(r)
						}
					}
					return false
				})
			}
		}
	}
	set := map[*vg.Term]bool{}
	last := at
	for i, ev := range s.Events[at:] {
		if ev.GoDepth <= g.GoDepth {
			if i > 0 && ev.Kind == vg.EvGo {
				break // another goroutine has its own events
			}
			continue
		}
		if ev.Kind == vg.EvSend || ev.Kind == vg.EvClose || ev.Kind == vg.EvDefer && ev.Callee == "close" {
			continue
		}
		refs(ev, func(r *vg.Term) { set[r] = true })
		last = at + i
	}
	// what leads from there to other memory of this call
	for n := -1; n != len(set); {
		n = len(set)
		for _, ev := range s.Events {
			if ev.Kind == vg.EvStore && set[vg.Root(ev.Addr)] {
				if r := own(vg.Unbox(ev.Val)); r != nil && !chan_(ev.Val) {
					set[r] = true
				}
			}
		}
	}
	synced := vg.False
	for i, ev := range s.Events {
		if i <= at || ev.GoDepth != g.GoDepth {
			continue
		}
		for _, sd := range s.Events[at:] {
			if sd.Kind == vg.EvSend && sd.GoDepth > g.GoDepth && indexOf(s.Events, sd) > last && vg.Implies(g.Cond, sd.Cond) {
				synced = vg.Or(synced, recvCond(ev, sd.Addr))
			}
		}
		if ev.Kind == vg.EvRecv || ev.Kind == vg.EvSelect || ev.Kind == vg.EvReturn || !vg.Sat(vg.And(ev.Cond, g.Cond)) || vg.Implies(ev.Cond, synced) {
			continue
		}
		var bad *vg.Term
		refs(ev, func(r *vg.Term) {
			if set[r] {
				bad = r
			}
		})
		if bad != nil {
			return bad
		}
	}
	return nil
}

func ruleFresh(c *Ctx) {
	c.For("C08")
	n := 0
	for _, fn := range c.entryPoints(tokPkg) {
		r, _ := recvName(fn)
		if r != "Token" && fn.Name() != "NewTokenData" {
			continue
		}
		s := c.Eval(fn, nil)
		for i, v := range s.Ret {
			t := fn.Signature.Results().At(i).Type()
			n += c.freshValue(s, v, t, fn.Name())
		}
	}
	c.Ob(n >= 5, 0, "the slices that accessors return are known (%d)", n)
}

func (c *Ctx) freshValue(s *vg.Summary, v *vg.Term, t types.Type, what string) int {
	n := 0
	switch u := t.Underlying().(type) {
	case *types.Slice:
		n++
		for _, o := range owners(s, v) {
			c.Ob(o.kind == "fresh", s.Fn.Pos(), "the slice returned by %s is allocated in this call (may be %s)", what, ts(o.what))
		}
	case *types.Map:
		n++
		for _, o := range owners(s, v) {
			c.Ob(o.kind == "fresh", s.Fn.Pos(), "the map returned by %s is allocated in this call (may be %s)", what, ts(o.what))
		}
	case *types.Pointer:
		n++
		for _, o := range owners(s, v) {
			c.Ob(o.kind == "fresh", s.Fn.Pos(), "the object returned by %s is allocated in this call (may be %s)", what, ts(o.what))
		}
		for _, l := range vg.Leaves(v, vg.True) {
			if l.Val.Op != vg.OpAlloc {
				continue
			}
			if st, ok := u.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					f := s.E.Load(s.Mem, vg.FAddr(l.Val, u.Elem(), i), st.Field(i).Type())
					n += c.freshValue(s, vg.Restrict(f, l.Cond), st.Field(i).Type(), what+"."+st.Field(i).Name())
				}
			}
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			n += c.freshValue(s, structField(v, t, i), u.Field(i).Type(), what+"."+u.Field(i).Name())
		}
	}
	return n
}
