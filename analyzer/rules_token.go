package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"kcheck/vg"
)

func init() {
	register("accessors", "C08 C09 C12 C13 C14 C18 C20 C23", "value graph of each token accessor equals its specification for every class, ID, index and dictionary", ruleAccessors)
}

var strT = types.Typ[types.String]

// tokArgs are the parts of a token that its accessors depend on.
func (c *Ctx) tokArgs(t *vg.Term) (class, id, d, u *vg.Term) {
	tt := c.namedType("tokenizer", "Token")
	return structField(t, tt, fieldByName(tt, "Class")), structField(t, tt, fieldByName(tt, "ID")),
		structField(t, tt, fieldByType(tt, dictType)), structField(t, tt, fieldByType(tt, udictType))
}

const (
	dictType  = "*github.com/ikawaha/kagome-dict/dict.Dict"
	udictType = "*github.com/ikawaha/kagome-dict/dict.UserDict"
)

func (c *Ctx) spec(name string, args ...*vg.Term) *vg.Summary {
	fn := c.R.Func("zz_kspec." + name)
	if fn == nil {
		panic(missing("no specification " + name))
	}
	return c.R.Eval(fn, nil, args...)
}

// sameRet compares result i of two summaries.
func (c *Ctx) sameRet(s, sp *vg.Summary, what string) bool {
	ok := true
	if len(s.Ret) != len(sp.Ret) {
		return c.Ob(false, s.Fn.Pos(), "%s: number of results", what)
	}
	for i := range s.Ret {
		ok = c.sameVal(s, s.Ret[i], sp, sp.Ret[i], vg.And(s.Cond, sp.Cond), what) && ok
	}
	return ok
}

func (c *Ctx) sameVal(s *vg.Summary, a *vg.Term, sp *vg.Summary, b, cond *vg.Term, what string) bool {
	good, why := eqVal(s, a, sp, b, cond)
	return c.Ob(good, s.Fn.Pos(), "%s%s", what, why)
}

func eqVal(s *vg.Summary, a *vg.Term, sp *vg.Summary, b, cond *vg.Term) (bool, string) {
	rt := a.Typ
	if rt == nil {
		rt = b.Typ
	}
	if sl, ok := sliceOf(s, a, sp, b); ok {
		same, cc, x, y := vg.SameContent(cond, s.E, s.Mem, a, sp.E, sp.Mem, b, sl.Elem())
		if same {
			return true, ""
		}
		return false, " — when " + ts(cc) + " the result is " + ts(x) + ", expected " + ts(y)
	}
	if vg.SameUnder(cond, a, b) {
		return true, ""
	}
	d := vg.And(cond, vg.Not(vg.EqVal(a, b)))
	for _, l := range vg.Leaves(a, d) {
		return false, " — when " + ts(vg.And(d, l.Cond)) + " the result is " + ts(l.Val) + ", expected " + ts(vg.Restrict(b, vg.And(d, l.Cond)))
	}
	return false, " differs"
}

func sliceOf(s *vg.Summary, a *vg.Term, sp *vg.Summary, b *vg.Term) (*types.Slice, bool) {
	for _, x := range []*vg.Term{a, b} {
		for _, l := range vg.Leaves(x, vg.True) {
			if l.Val.Typ != nil {
				if sl, ok := l.Val.Typ.Underlying().(*types.Slice); ok {
					return sl, true
				}
				if _, ok := l.Val.Typ.Underlying().(*types.Basic); ok {
					return nil, false
				}
			}
		}
	}
	return nil, false
}

func ruleAccessors(c *Ctx) {
	cmp := func(name string, specName string, props []string, mk func(cl, id, d, u *vg.Term, p []*vg.Term) []*vg.Term, what string) {
		c.For(props...)
		fn := c.fn("tokenizer.Token." + name)
		s := c.Eval(fn, nil)
		cl, id, d, u := c.tokArgs(s.Params[0])
		sp := c.spec(specName, mk(cl, id, d, u, s.Params)...)
		c.sameRet(s, sp, what)
	}
	base := func(cl, id, d, u *vg.Term, p []*vg.Term) []*vg.Term { return []*vg.Term{cl, id, d, u} }
	cmp("Features", "Features", []string{"C09", "C18", "C23"}, base, "Features is the POS names followed by the dictionary contents (known), the contents (unknown), or POS, tokens and yomi (user)")
	cmp("POS", "POS", []string{"C09", "C12", "C13", "C14", "C20", "C23"}, base, "POS is the POS names (known), the declared feature range (unknown) or the user POS")
	cmp("FeatureAt", "FeatureAt", []string{"C09"}, func(cl, id, d, u *vg.Term, p []*vg.Term) []*vg.Term {
		return []*vg.Term{p[1], cl, id, d, u}
	}, "FeatureAt(i) is Features()[i], absent exactly outside its range")
	for name, key := range map[string]string{"InflectionalType": "InflectionalType", "InflectionalForm": "InflectionalForm", "BaseForm": "BaseFormIndex", "Reading": "ReadingIndex", "Pronunciation": "PronunciationIndex"} {
		props := []string{"C09", "C20", "C23"}
		if name == "BaseForm" {
			props = append(props, "C14")
		}
		k := c.dictConst(key)
		cmp(name, "Pickup", props, func(cl, id, d, u *vg.Term, p []*vg.Term) []*vg.Term {
			return []*vg.Term{k, cl, id, d, u}
		}, name+" is the feature at the position the token's own dictionary declares under "+k.Str())
	}
	c.For("C09")
	fn := c.fn("tokenizer.EqualFeatures")
	s := c.Eval(fn, nil)
	c.sameRet(s, c.spec("EqualFeatures", s.Params...), "EqualFeatures compares lengths and every element")
	c.equalVia("EqualFeatures", "Features")
	c.equalVia("EqualPOS", "POS")
	// Equal
	fn = c.fn("tokenizer.Token.Equal")
	s = c.Eval(fn, nil)
	tt := c.namedType("tokenizer", "Token")
	want := vg.True
	for _, f := range []string{"ID", "Class", "Surface"} {
		i := fieldByName(tt, f)
		want = vg.And(want, vg.EQ(structField(s.Params[0], tt, i), structField(s.Params[1], tt, i)))
	}
	c.Ob(vg.Equiv(s.Ret[0], want), fn.Pos(), "Equal compares exactly ID, class and surface, got %s", ts(s.Ret[0]))
	// UserExtra
	c.For("C09", "C08")
	fn = c.fn("tokenizer.Token.UserExtra")
	s = c.Eval(fn, nil)
	cl, id, _, u := c.tokArgs(s.Params[0])
	isUser := vg.EQ(cl, vg.Int(3))
	c.Ob(vg.Equiv(vg.EQ(s.Ret[0], vg.Nil), vg.Not(isUser)), fn.Pos(), "UserExtra is present exactly for user tokens, got %s", ts(s.Ret[0]))
	ut := c.namedType("tokenizer", "UserExtra")
	for _, f := range []string{"Tokens", "Readings"} {
		got := s.E.Ptr(vg.Restrict(s.Ret[0], isUser), ut, s.Mem).F(f).Val()
		sp := c.spec("UserExtra"+f, cl, id, u)
		c.sameVal(s, got, sp, sp.Ret[0], isUser, "UserExtra."+f+" copies the user entry")
	}
}

// equalVia: Token.<name>(tt) compares t.<acc>() and tt.<acc>() completely.
func (c *Ctx) equalVia(name, acc string) {
	af := c.fn("tokenizer.Token." + acc)
	fn := c.fn("tokenizer.Token." + name)
	e := vg.NewEval(c.R.Prog, IsRepo, func(f *ssa.Function) bool { return f == af })
	e.PureFn = func(f *ssa.Function) bool { return f == af }
	s := e.Run(fn)
	c.touch(s)
	sp := c.spec("EqualFeatures", e.PureCall(af, s.Params[0]), e.PureCall(af, s.Params[1]))
	c.sameRet(s, sp, name+" compares the two "+acc+" vectors completely")
}

func (c *Ctx) dictConst(name string) *vg.Term {
	for _, p := range c.R.Prog.AllPackages() {
		if p.Pkg.Path() == "github.com/ikawaha/kagome-dict/dict" {
			if k := p.Const(name); k != nil {
				return vg.Str(constStr(k))
			}
		}
	}
	panic(missing("no dictionary key " + name))
}
