package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"kcheck/vg"
)

func init() {
	register("ja", "C14", "the Japanese filter: word sequence, removal, options, default sets and how the embedded lists are read", ruleJa)
}

const jaPkg = "filter/ja"

// pureSpec evaluates a specification with the given functions kept symbolic.
func (c *Ctx) pureSpec(pure func(*ssa.Function) bool, name string, args ...*vg.Term) *vg.Summary {
	fn := c.R.Func("zz_kspec." + name)
	if fn == nil {
		panic(missing("no specification " + name))
	}
	e := vg.NewEval(c.R.Prog, IsRepo, pure)
	e.PureFn = pure
	return e.Run(fn, args...)
}

// pureEval evaluates fn with the given functions kept symbolic.
func (c *Ctx) pureEval(fn *ssa.Function, pure func(*ssa.Function) bool, args ...*vg.Term) *vg.Summary {
	c.In(fn)
	e := vg.NewEval(c.R.Prog, IsRepo, pure)
	e.PureFn = pure
	s := e.Run(fn, args...)
	c.touch(s)
	for _, p := range s.E.Problems {
		c.Ob(false, fn.Pos(), "undecided: %s", p)
	}
	return s
}

func (c *Ctx) oneOf(names ...string) func(*ssa.Function) bool {
	m := map[*ssa.Function]bool{}
	for _, n := range names {
		m[c.fn(n)] = true
	}
	return func(f *ssa.Function) bool { return m[f] }
}

func ruleJa(c *Ctx) {
	c.For("C14")
	ft := c.namedType(jaPkg, "Filter")
	words := fieldByType(ft, "*"+modPath+"/filter.WordFilter")
	isNew := c.oneOf("filter.NewPOSFilter", "filter.NewWordFilter")

	// options
	option := func(name, ctor string) int {
		fn := c.fn(jaPkg + "." + name)
		s := c.Eval(fn, isNew)
		f := vg.NewFree("filter", types.NewPointer(ft))
		var k = -1
		var leaf *vg.Term
		for _, l := range vg.Leaves(s.Ret[0], vg.True) {
			if !c.Ob(leaf == nil, fn.Pos(), "undecided: the option %s has several forms", name) {
				return -1
			}
			leaf = l.Val
		}
		r := s.E.Apply(leaf, s.Mem, f)
		if !c.Ob(r != nil, fn.Pos(), "undecided: the option %s is not a function literal", name) {
			return -1
		}
		n := 0
		for _, ev := range append(append([]*vg.Event(nil), s.Events...), r.Events...) {
			if ev.Kind != vg.EvStore || vg.Root(ev.Addr).Op == vg.OpAlloc {
				continue
			}
			n++
			ok := ev.Addr.Op == vg.OpFieldAddr && ev.Addr.Args[0] == f && ev.Cond == vg.True && len(ev.Loops) == 0
			if !c.Ob(ok, ev.Pos, "%s sets one field of the filter, always (writes %s)", name, ts(ev.Addr)) {
				return -1
			}
			k = ev.Addr.N
			call := callOf(append(append([]*vg.Event(nil), s.Events...), r.Events...), ev.Val)
			c.Ob(call != nil && call.Static == c.R.Func("filter."+ctor) && len(call.Args) == 1 && call.Args[0] == s.Params[0], ev.Pos, "%s sets a filter made of exactly the given list (got %s)", name, ts(ev.Val))
		}
		c.Ob(n == 1, fn.Pos(), "%s replaces exactly one set (found %d)", name, n)
		return k
	}
	tags := option("StopTagsFilterOption", "NewPOSFilter")
	base := option("BaseFormFilterOption", "NewPOSFilter")
	w := option("StopWordsFilterOption", "NewWordFilter")
	if tags < 0 || base < 0 || w < 0 {
		return
	}
	c.Ob(w == words && tags != base, 0, "each option replaces its own set")

	// Yield
	match := c.oneOf("filter.POSFilter.Match", "filter.WordFilter.Match")
	acc := c.pureMethods("tokenizer.Token")
	pure := func(f *ssa.Function) bool { return match(f) || acc(f) }
	fn := c.fn(jaPkg + ".Filter.Yield")
	s := c.pureEval(fn, pure)
	recv := s.Params[0]
	fld := func(i int) *vg.Term {
		if _, ptr := fn.Params[0].Type().(*types.Pointer); ptr {
			return s.E.Load(vg.BaseMem(), vg.FAddr(recv, ft, i), ft.Underlying().(*types.Struct).Field(i).Type())
		}
		return structField(recv, ft, i)
	}
	sp := c.pureSpec(pure, "JaYield", fld(base), fld(tags), fld(words), s.Params[1])
	c.sameRet(s, sp, "Yield gives the wanted words, in order")

	// Drop
	c.jaDrop(ft, tags, words)

	// defaults
	c.jaDefaults(ft, tags, base, words)
}

func callOf(evs []*vg.Event, res *vg.Term) *vg.Event {
	for res.Op == vg.OpExtract || res.Op == vg.OpAssert {
		res = res.Args[0]
	}
	for _, ev := range evs {
		if ev.Kind == vg.EvCall && ev.Res == res {
			return ev
		}
	}
	return nil
}

func (c *Ctx) jaDrop(ft types.Type, tags, words int) {
	fn := c.fn(jaPkg + ".Filter.Drop")
	drops := c.oneOf("filter.POSFilter.Drop", "filter.WordFilter.Drop")
	s := c.Eval(fn, drops)
	c.In(fn)
	n, other := 0, 0
	var calls []*vg.Event
	for _, ev := range s.Events {
		switch ev.Kind {
		case vg.EvCall:
			if ev.Static != nil && drops(ev.Static) {
				n++
				calls = append(calls, ev)
			} else {
				other++
			}
		case vg.EvStore, vg.EvAppend, vg.EvLoop:
			if ev.Kind == vg.EvStore && vg.Root(ev.Addr).Op == vg.OpAlloc {
				continue
			}
			other++
		}
	}
	st := ft.Underlying().(*types.Struct)
	recv := s.Params[0]
	fld := func(i int) *vg.Term {
		if _, ptr := fn.Params[0].Type().(*types.Pointer); ptr {
			return s.E.Load(vg.BaseMem(), vg.FAddr(recv, ft, i), st.Field(i).Type())
		}
		return structField(recv, ft, i)
	}
	if n > 0 && other == 0 {
		// the union of two removals
		seen := map[string]bool{}
		for _, ev := range calls {
			w, name := fld(tags), "stop tag"
			if ev.Static == c.R.Func("filter.WordFilter.Drop") {
				w, name = fld(words), "stop word"
			}
			if !seen[name] {
				ptr := w.Typ.Underlying().(*types.Pointer)
				self := ev.Args[0] == w || ev.Args[0] == s.E.Load(vg.BaseMem(), w, ptr.Elem())
				if !self {
					// the receiver is passed by value
					x := ev.Args[0]
					self = true
					es := ptr.Elem().Underlying().(*types.Struct)
					for i := 0; i < es.NumFields(); i++ {
						if structField(x, ptr.Elem(), i) != s.E.Load(vg.BaseMem(), vg.FAddr(w, ptr.Elem(), i), es.Field(i).Type()) {
							self = false
						}
					}
				}
				ok := vg.Implies(vg.NonNil(s.Params[1]), ev.Cond) && len(ev.Loops) == 0 && ev.Args[1] == s.Params[1]
				c.Ob(self && ok, ev.Pos, "Drop removes the tokens with a %s from the caller's slice, always (receiver %s)", name, ts(ev.Args[0]))
				seen[name] = self && ok
			} else {
				// again: nothing more to remove, if it is the same filter
				c.Ob(ev.Args[0] == calls[0].Args[0] || ev.Args[0] == calls[1].Args[0], ev.Pos, "Drop removes nothing else")
			}
		}
		c.Ob(seen["stop tag"] && seen["stop word"], fn.Pos(), "Drop removes tokens by stop tags and by stop words")
		return
	}
	// one pass over the tokens
	tt := c.namedType(tokPkg, "Token")
	wf := st.Field(words).Type().Underlying().(*types.Pointer).Elem()
	c.compaction(fn, 1, false, func(s *vg.Summary, l *vg.Loop, v *vg.Term) *vg.Term {
		fl := func(i int) *vg.Term {
			recv := s.Params[0]
			if _, ptr := fn.Params[0].Type().(*types.Pointer); ptr {
				return s.E.Load(vg.BaseMem(), vg.FAddr(recv, ft, i), st.Field(i).Type())
			}
			return structField(recv, ft, i)
		}
		pf := st.Field(tags).Type().Underlying().(*types.Pointer).Elem()
		ff := s.E.Load(vg.BaseMem(), vg.FAddr(fl(tags), pf, 0), pf.Underlying().(*types.Struct).Field(0).Type())
		m := s.E.Load(vg.BaseMem(), vg.FAddr(fl(words), wf, 0), wf.Underlying().(*types.Struct).Field(0).Type())
		pos := s.E.PureCall(c.R.Func("tokenizer.Token.POS"), v)
		return vg.Or(vg.BoolOf(s.E.PureCall(c.R.Func("filter.FeaturesFilter.Match"), ff, pos)),
			vg.MapHas(m, structField(v, tt, fieldByName(tt, "Surface"))))
	})
}

// jaDefaults checks NewFilter.
func (c *Ctx) jaDefaults(ft types.Type, tags, base, words int) {
	fn := c.fn(jaPkg + ".NewFilter")
	isNew := c.oneOf("filter.NewPOSFilter", "filter.NewWordFilter")
	s := c.Eval(fn, isNew)
	c.In(fn)
	st := ft.Underlying().(*types.Struct)
	ret, err := s.Ret[0], s.Ret[1]
	ok := vg.EQ(err, vg.Nil)
	c.Ob(vg.Sat(ok), fn.Pos(), "NewFilter can succeed")
	var obj *vg.Term
	for _, l := range vg.Leaves(ret, ok) {
		c.Ob(obj == nil || obj == l.Val, fn.Pos(), "undecided: NewFilter returns several filters")
		obj = l.Val
	}
	if !c.Ob(obj != nil && obj.Op == vg.OpAlloc, fn.Pos(), "NewFilter returns a new filter when it succeeds (got %s)", ts(ret)) {
		return
	}
	for _, l := range vg.Leaves(ret, vg.Not(ok)) {
		c.Ob(l.Val == vg.Nil, fn.Pos(), "NewFilter returns no filter when it fails")
	}

	// the options are applied, in order, to the new filter, after the defaults
	var opt *vg.Event
	n := 0
	for _, ev := range s.Events {
		if ev.Kind == vg.EvCall && ev.Static == nil && ev.Callee == "dynamic" {
			n++
			opt = ev
		}
	}
	if c.Ob(n == 1, fn.Pos(), "options are applied at one place (found %d)", n) {
		opts := s.Params[0]
		good := len(opt.Loops) == 1
		if good {
			l := opt.Loops[0]
			b, i, isElem := elemOf(strip(opt.Args[0]))
			good = isElem && b == opts && i == l.Iter() && l.Domain() != nil &&
				vg.Equiv(vg.And(vg.LE(vg.Int(0), i), l.Domain()), vg.And(vg.LE(vg.Int(0), i), vg.LT(i, vg.Len(opts)))) &&
				goesOn(l, ok, nil) && vg.Implies(ok, l.EntryCond) && vg.Implies(vg.And(ok, l.Domain()), opt.Cond)
		}
		c.Ob(good, opt.Pos, "every option is applied once, in order")
		c.Ob(len(opt.Args) == 2 && opt.Args[1] == obj, opt.Pos, "options are applied to the filter that is returned (got %s)", ts(opt.Args[len(opt.Args)-1]))
		seen := false
		for _, ev := range s.Events {
			if ev == opt {
				seen = true
			}
			if seen && ev.Kind == vg.EvStore && (ev.Addr == obj || ev.Addr.Op == vg.OpFieldAddr && ev.Addr.Args[0] == obj) {
				c.Ob(false, ev.Pos, "the defaults do not overwrite an option")
			}
		}
	}

	// the default sets
	value := func(i int) (*vg.Event, *vg.Term) {
		v := vg.Hole
		fa := vg.FAddr(obj, ft, i)
		for _, ev := range s.Events {
			if ev.Kind == vg.EvStore && ev.Addr == fa {
				v = vg.Ite(ev.Cond, ev.Val, v)
			} else if ev.Kind == vg.EvStore && ev.Addr == obj {
				v = vg.Ite(ev.Cond, structField(ev.Val, ft, i), v)
			}
		}
		v = vg.Restrict(v, ok)
		call := callOf(s.Events, v)
		c.Ob(call != nil, fn.Pos(), "the default of %s is a new filter (got %s)", st.Field(i).Name(), ts(v))
		return call, v
	}
	if ev, _ := value(base); ev != nil {
		sp := c.spec("BaseForms")
		ok, why := sameLists(s.E, ev.Mem, ev.Args[0], sp.E, sp.Mem, sp.Ret[0])
		c.Ob(ok, ev.Pos, "the base form of verbs and adjectives is yielded by default%s", why)
	}
	if ev, _ := value(words); ev != nil {
		c.configLines(s, ev, ev.Args[0], "asset/stop_words.txt", err, ok)
	}
	if ev, _ := value(tags); ev != nil {
		arg := ev.Args[0]
		type made struct{ pos, cond *vg.Term }
		var l *vg.Loop
		var each []made
		if arg.Op == vg.OpSeqLoop && len(arg.Args) > 0 && vg.Len(arg.Args[0]).IsConst(0) {
			l = arg.Loop
			mu := findMu(l, arg.S)
			for _, lf := range vg.Leaves(mu.Next, l.ContCond) {
				one := lf.Val.Op == vg.OpAppend && len(lf.Val.Args) == 2 && lf.Val.Args[0] == mu.Term && lf.Val.Args[1].Op == vg.OpSeqLit && len(lf.Val.Args[1].Args) == 1
				if c.Ob(one, l.Pos, "every entry becomes one stop tag (got %s)", ts(lf.Val)) {
					each = append(each, made{lf.Val.Args[1].Args[0], lf.Cond})
				}
			}
		}
		if arg.Op == vg.OpMakeSlice {
			for _, x := range s.Events {
				if x.Kind != vg.EvStore || x.Addr.Op != vg.OpIndexAddr || x.Addr.Args[0] != arg || len(x.Loops) == 0 {
					continue
				}
				if !c.Ob(l == nil, x.Pos, "undecided: stop tags are set at several places") {
					continue
				}
				l = x.Loops[len(x.Loops)-1]
				in := vg.And(l.EntryCond, l.Domain())
				c.Ob(x.Addr.Args[1] == l.Iter() && vg.Implies(in, x.Cond), x.Pos, "every entry becomes one stop tag (tag %s is set when %s)", ts(x.Addr.Args[1]), ts(x.Cond))
				each = append(each, made{x.Val, x.Cond})
			}
		}
		if c.Ob(l != nil, ev.Pos, "undecided: how the stop tags are made (%s)", ts(arg)) {
			lines := (*vg.Term)(nil)
			for _, x := range each {
				// the entry it is made from
				var entry *vg.Term
				vg.Any(x.pos, func(x *vg.Term) bool {
					if b, i, isE := elemOf(x); isE && i == l.Iter() {
						entry, lines = x, b
					}
					if x.Op == vg.OpIndex && x.Args[1] == l.Iter() {
						entry, lines = x, x.Args[0]
					}
					return false
				})
				if !c.Ob(entry != nil, l.Pos, "a stop tag is made from the entry of its round (got %s)", ts(x.pos)) {
					continue
				}
				sp := c.spec("TagPOS", entry)
				same, why := sameContent(s.E, s.Mem, x.pos, sp.E, sp.Mem, sp.Ret[0], x.cond)
				c.Ob(same, l.Pos, "a stop tag is the entry's levels padded to four with asterisks%s", why)
			}
			if lines != nil {
				n := vg.Len(lines)
				if arg.Op == vg.OpMakeSlice {
					c.Ob(arg.Args[0] == n, ev.Pos, "there are as many stop tags as entries (%s)", ts(arg))
				}
				c.Ob(goesOn(l, vg.True, nil) && vg.Equiv(vg.And(vg.LE(vg.Int(0), l.Iter()), l.Domain()), vg.And(vg.LE(vg.Int(0), l.Iter()), vg.LT(l.Iter(), n))), l.Pos, "every entry becomes a stop tag (domain %s)", ts(l.Domain()))
				c.configLines(s, ev, lines, "asset/stop_tags.txt", err, ok)
			}
		}
	}
}

func sameContent(e *vg.Eval, m *vg.Mem, a *vg.Term, e2 *vg.Eval, m2 *vg.Mem, b *vg.Term, cond *vg.Term) (bool, string) {
	same, cc, x, y := vg.SameContent(cond, e, m, a, e2, m2, b, strT)
	if same {
		return true, ""
	}
	return false, " — got " + ts(x) + ", expected " + ts(y) + ", when " + ts(cc)
}

// sameLists compares two literal lists of lists of strings as sets.
func sameLists(e *vg.Eval, m *vg.Mem, a *vg.Term, e2 *vg.Eval, m2 *vg.Mem, b *vg.Term) (bool, string) {
	list := func(e *vg.Eval, m *vg.Mem, t *vg.Term) (map[string]bool, bool) {
		ct := e.Content(m, t, vg.True, types.NewSlice(strT))
		if ct == nil {
			return nil, false
		}
		out := map[string]bool{}
		for _, seq := range ct.Args {
			if seq.Op != vg.OpSeqLit {
				return nil, false
			}
			for _, x := range seq.Args {
				in := e.Content(m, x, vg.True, strT)
				if in == nil {
					return nil, false
				}
				out[in.String()] = true
			}
		}
		return out, true
	}
	x, ok := list(e, m, a)
	y, ok2 := list(e2, m2, b)
	if !ok || !ok2 {
		return false, " — undecided: " + ts(a)
	}
	if strings.Join(sortedKeys(x), "\n") != strings.Join(sortedKeys(y), "\n") {
		return false, " — got " + strings.Join(sortedKeys(x), " ") + ", expected " + strings.Join(sortedKeys(y), " ")
	}
	return true, ""
}

// configLines checks that t is the list of the entries of an embedded file.
func (c *Ctx) configLines(s *vg.Summary, at *vg.Event, t *vg.Term, file string, err, okc *vg.Term) {
	fn := s.Fn
	t = vg.Restrict(t, okc)
	if !c.Ob(t.Op == vg.OpSeqLoop && vg.Len(t.Args[0]).IsConst(0), at.Pos, "undecided: how the entries of %s are collected (%s)", file, ts(t)) {
		return
	}
	l := t.Loop
	mu := findMu(l, t.S)
	var scan, text, newScan, errEv *vg.Event
	for _, ev := range s.Events {
		if ev.Kind != vg.EvCall {
			continue
		}
		inLoop := len(ev.Loops) > 0 && ev.Loops[len(ev.Loops)-1] == l
		switch ev.Callee {
		case "(*bufio.Scanner).Scan":
			if inLoop {
				c.Ob(scan == nil, ev.Pos, "one line is read per round")
				scan = ev
			}
		case "(*bufio.Scanner).Text":
			if inLoop {
				text = ev
			}
		}
	}
	if !c.Ob(scan != nil && text != nil && len(l.Exits) == 1 && l.Exits[0].Header, l.Pos, "undecided: %s is not read line by line to its end", file) {
		return
	}
	for _, ev := range s.Events {
		if ev.Kind == vg.EvCall && ev.Res == scan.Args[0] {
			newScan = ev
		}
		if ev.Kind == vg.EvCall && strings.HasPrefix(ev.Callee, "(*bufio.Scanner).") && ev.Args[0] == scan.Args[0] && ev != scan {
			switch ev.Callee[len("(*bufio.Scanner)."):] {
			case "Text", "Err", "Buffer":
			case "Split":
				lines := ev.Args[1].Op == vg.OpFunc && strings.HasSuffix(ev.Args[1].S, "bufio.ScanLines")
				c.Ob(lines, ev.Pos, "%s is read line by line", file)
			default:
				c.Ob(false, ev.Pos, "every line of %s is looked at (%s)", file, ev.Callee)
			}
		}
		if ev.Kind == vg.EvCall && ev.Callee == "(*bufio.Scanner).Err" && ev.Args[0] == scan.Args[0] {
			errEv = ev
		}
	}
	more := vg.BoolOf(scan.Res)
	c.Ob(vg.Equiv(l.Exits[0].Cond, vg.Not(more)) || vg.Equiv(vg.Restrict(l.Exits[0].Cond, l.EntryCond), vg.Not(more)), l.Pos, "%s is read until there are no more lines (stops when %s)", file, ts(l.Exits[0].Cond))
	c.Ob(text.Args[0] == scan.Args[0] && vg.Implies(more, text.Cond) || vg.Implies(vg.And(l.EntryCond, more), text.Cond), text.Pos, "every line that was read is looked at")
	src := ""
	if newScan != nil && newScan.Callee == "bufio.NewScanner" {
		r := newScan.Args[0]
		if r.Op == vg.OpIface {
			r = r.Args[0]
		}
		rd := callOf(s.Events, r)
		if rd != nil && (rd.Callee == "bytes.NewReader" || rd.Callee == "bytes.NewBuffer" || rd.Callee == "strings.NewReader" || rd.Callee == "bytes.NewBufferString") {
			x := rd.Args[0]
			for x.Op == vg.OpConv {
				x = x.Args[0]
			}
			if x.Op == vg.OpLd && x.Args[0].Op == vg.OpGlobal {
				src = c.embedFile(x.Args[0].S)
			}
		}
	}
	c.Ob(src == file, scan.Pos, "the list is read from %s (reads %q)", file, src)
	sp := c.spec("ConfigLine", text.Res)
	want, keep := sp.Ret[0], vg.BoolOf(sp.Ret[1])
	got := vg.False
	for _, lf := range vg.Leaves(mu.Next, vg.And(l.EntryCond, l.ContCond)) {
		if lf.Val == mu.Term {
			continue
		}
		got = vg.Or(got, lf.Cond)
		one := lf.Val.Op == vg.OpAppend && len(lf.Val.Args) == 2 && lf.Val.Args[0] == mu.Term && lf.Val.Args[1].Op == vg.OpSeqLit && len(lf.Val.Args[1].Args) == 1
		if c.Ob(one, l.Pos, "a line adds one entry (got %s)", ts(lf.Val)) {
			c.Ob(vg.SameUnder(lf.Cond, lf.Val.Args[1].Args[0], want), l.Pos, "an entry is its line without the comment (got %s)", ts(lf.Val.Args[1].Args[0]))
		}
	}
	in := vg.And(l.EntryCond, more)
	c.Ob(vg.Implies(vg.And(in, got), keep) && vg.Implies(vg.And(in, keep), vg.Or(got, vg.Not(l.ContCond))), l.Pos, "exactly the lines that are not blank or comments are entries (kept when %s)", ts(got))
	c.Ob(errEv != nil, l.Pos, "a list that cannot be read is noticed")
	if errEv != nil {
		bad := vg.And(errEv.Cond, vg.NonNil(errEv.Res))
		c.Ob(vg.Implies(bad, vg.NonNil(err)) && vg.Implies(vg.Or(vg.Not(l.EntryCond), vg.True), vg.Or(errEv.Cond, vg.NonNil(err))), fn.Pos(), "a list that cannot be read is an error (error is %s)", ts(err))
	}
}

// embedFile is the file embedded in the package variable with the given
// qualified name.
func (c *Ctx) embedFile(name string) string {
	for _, p := range c.R.Pkgs {
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok || g.Tok != token.VAR {
					continue
				}
				for _, s := range g.Specs {
					v := s.(*ast.ValueSpec)
					if len(v.Names) != 1 || p.PkgPath+"."+v.Names[0].Name != name {
						continue
					}
					for _, doc := range []*ast.CommentGroup{g.Doc, v.Doc} {
						if doc == nil {
							continue
						}
						for _, l := range doc.List {
							if r, ok := strings.CutPrefix(l.Text, "//go:embed "); ok {
								return strings.TrimSpace(r)
							}
						}
					}
				}
			}
		}
	}
	return ""
}
