package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"kcheck/vg"
)

// Finding is one reported construct.
type Finding struct {
	Props []string
	Rule  string
	Pos   string
	Fn    string
	Msg   string
	Known string
}

// Ctx collects obligations and findings of one rule.
type Ctx struct {
	R        *Repo
	Rule     string
	Props    []string // properties of the obligations being stated
	Findings []Finding
	Obl      map[string]int // obligations per property
	Sites    map[string]map[string]bool
	Funcs    map[string]map[string]bool
	Samples  map[string][]string
	curFn    *ssa.Function
}

func newCtx(r *Repo) *Ctx {
	return &Ctx{R: r, Obl: map[string]int{}, Sites: map[string]map[string]bool{}, Funcs: map[string]map[string]bool{}, Samples: map[string][]string{}}
}

func shortFn(fn *ssa.Function) string {
	if fn == nil {
		return "-"
	}
	return strings.ReplaceAll(fn.String(), modPath+"/", "")
}

// For switches the properties that the next obligations belong to.
func (c *Ctx) For(props ...string) *Ctx {
	c.Props = props
	return c
}

// In names the function under scrutiny.
func (c *Ctx) In(fn *ssa.Function) *Ctx {
	c.curFn = fn
	return c
}

func (c *Ctx) touch(s *vg.Summary) {
	for _, p := range c.Props {
		m := c.Funcs[p]
		if m == nil {
			m = map[string]bool{}
			c.Funcs[p] = m
		}
		for fn := range s.E.Visited {
			if IsRepo(fn) {
				m[shortFn(fn)] = true
			}
		}
	}
}

// Ob states one obligation at a construct.
func (c *Ctx) Ob(ok bool, pos token.Pos, format string, args ...any) bool {
	if !pos.IsValid() && c.curFn != nil {
		pos = c.curFn.Pos()
	}
	where := c.R.Pos(pos)
	msg := fmt.Sprintf(format, args...)
	for _, p := range c.Props {
		c.Obl[p]++
		m := c.Sites[p]
		if m == nil {
			m = map[string]bool{}
			c.Sites[p] = m
		}
		m[where] = true
		if len(c.Samples[p]) < 12 {
			c.Samples[p] = append(c.Samples[p], fmt.Sprintf("[%s] %s %s: %s", c.Rule, where, shortFn(c.curFn), trim(msg, 300)))
		}
	}
	if !ok {
		c.Findings = append(c.Findings, Finding{Props: append([]string(nil), c.Props...), Rule: c.Rule, Pos: where, Fn: shortFn(c.curFn), Msg: msg})
	}
	return ok
}

func trim(s string, n int) string {
	if os.Getenv("KLONG") != "" {
		n = 40000
	}
	s = strings.ReplaceAll(s, modPath+"/", "")
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func ts(t *vg.Term) string {
	if t == nil {
		return "?"
	}
	return trim(t.String(), 400)
}

// Rule is a registered analysis.
type Rule struct {
	Name  string
	Props []string
	Doc   string
	Run   func(*Ctx)
}

var rules []*Rule

func register(name, props, doc string, run func(*Ctx)) {
	rules = append(rules, &Rule{name, strings.Fields(props), doc, run})
}

func runRule(r *Repo, ru *Rule) (c *Ctx) {
	c = newCtx(r)
	c.Rule = ru.Name
	c.Props = ru.Props
	defer func() {
		if x := recover(); x != nil {
			if m, ok := x.(missing); ok {
				c.Props = ru.Props
				c.Ob(false, token.NoPos, "%s", string(m))
				return
			}
			if os.Getenv("KPANIC") != "" {
				panic(x)
			}
			c.Props = ru.Props
			c.Ob(false, token.NoPos, "undecided: the code does not have a form this rule can interpret (%v)", x)
		}
	}()
	ru.Run(c)
	return c
}

type missing string

// fn finds a function that the property needs.
func (c *Ctx) fn(name string) *ssa.Function {
	f := c.R.Func(name)
	if f == nil {
		panic(missing("no function " + name))
	}
	c.curFn = f
	return f
}

// Eval evaluates fn and records what was analysed.
func (c *Ctx) Eval(fn *ssa.Function, opaque func(*ssa.Function) bool, args ...*vg.Term) *vg.Summary {
	c.curFn = fn
	s := c.R.Eval(fn, opaque, args...)
	c.touch(s)
	for _, p := range s.E.Problems {
		c.Ob(false, fn.Pos(), "undecided: %s", p)
	}
	return s
}

func (c *Ctx) namedType(pkg, name string) types.Type {
	p := c.R.SSA[pkg]
	if p == nil {
		panic(missing("no package " + pkg))
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(missing("no type " + pkg + "." + name))
	}
	return o.Type()
}

// fieldByType finds the only field of struct t with the given type string.
func fieldByType(t types.Type, typ string) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(missing(t.String() + " is not a struct"))
	}
	r := -1
	for i := 0; i < s.NumFields(); i++ {
		if types.TypeString(s.Field(i).Type(), nil) == typ {
			if r >= 0 {
				panic(missing("two fields of type " + typ + " in " + t.String()))
			}
			r = i
		}
	}
	if r < 0 {
		panic(missing("no field of type " + typ + " in " + t.String()))
	}
	return r
}

func fieldByName(t types.Type, name string) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(missing(t.String() + " is not a struct"))
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	panic(missing("no field " + name + " in " + t.String()))
}

func structField(x *vg.Term, t types.Type, i int) *vg.Term {
	return vg.FieldOf(x, i, t.Underlying().(*types.Struct).Field(i).Type())
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func constStr(k *ssa.NamedConst) string {
	return constant.StringVal(k.Value.Value)
}
