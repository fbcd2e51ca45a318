package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"

	"kcheck/vg"
)

func init() {
	register("demo", "C05 C20 C22", "the demo page: the analysis it shows, what reaches the page and how, and the life of the graphviz process", ruleDemo)
}

const tmplPkg = "html/template"

// isPageWrite gives the template and the data of an event that renders a page.
func isPageWrite(ev *vg.Event) (tmpl, dst, data *vg.Term, ok bool) {
	if ev.Kind == vg.EvCall && ev.Callee == "(*html/template.Template).Execute" {
		return ev.Args[0], ev.Args[1], ev.Args[2], true
	}
	return nil, nil, nil, false
}

func ruleDemo(c *Ctx) {
	c.For("C20")
	fn := c.fn("cmd/server.TokenizeDemoHandler.ServeHTTP")
	var pure func(*ssa.Function) bool
	s := c.cmdEval(fn, pure)
	h, w, req := s.Params[0], s.Params[1], s.Params[2]
	pos := fn.Pos()
	c.Ob(s.Cond == vg.True, pos, "every request is answered (not when %s)", ts(vg.Not(s.Cond)))
	for _, ev := range s.Events {
		if ev.Kind == vg.EvPanic || ev.Kind == vg.EvCall && (ev.Callee == "os.Exit" || strings.HasPrefix(ev.Callee, "log.Fatal") || strings.HasPrefix(ev.Callee, "log.Panic")) {
			c.Ob(false, ev.Pos, "every request is answered")
		}
	}
	form := func(name string) *vg.Term {
		for _, ev := range calls(s, "(*net/http.Request).FormValue", "(*net/http.Request).PostFormValue") {
			if ev.Args[0] == req && ev.Args[1].IsStr() && ev.Args[1].Str() == name {
				return ev.Res
			}
		}
		c.Ob(false, pos, "the request field %q is read", name)
		return nil
	}
	sen, mode, lat := form("s"), form("r"), form("lattice")
	if sen == nil || mode == nil || lat == nil {
		return
	}
	graph := vg.Not(vg.EQ(lat, vg.Str("")))

	// the subprocess
	p := c.subprocess(s, req)

	// the analysis
	ht := deref(fn.Params[0].Type())
	ti := fieldByType(ht, "*"+modPath+"/"+tokPkg+".Tokenizer")
	tok := s.E.Load(vg.BaseMem(), vg.FAddr(h, ht, ti), ht.Underlying().(*types.Struct).Field(ti).Type())
	an := c.analysis(s, tok, "AnalyzeGraph", sen, mode, nil, vg.False, "DemoMode")
	c.For("C20")
	if an == nil || p == nil {
		return
	}
	c.Ob(vg.Implies(p.start.Cond, an.Cond) && indexOf(s.Events, an) < indexOf(s.Events, p.start), an.Pos, "the graph is there when graphviz starts")
	dot := vg.Unbox(an.Args[1])
	c.Ob(dot.Op == vg.OpAlloc || dot.Op == vg.OpRes, an.Pos, "undecided: the graph is written to a buffer (got %s)", ts(dot))
	c.Ob(p.feeds(dot), p.start.Pos, "graphviz reads the graph of the analysis (reads %s)", ts(p.stdin))
	c.Ob(vg.Implies(vg.And(graph, vg.Not(p.fail)), an.Cond), an.Pos, "the sentence is analysed (not when %s)", ts(vg.And(vg.And(graph, vg.Not(p.fail)), vg.Not(an.Cond))))

	// the pages
	var pages []*vg.Event
	evs := append([]*vg.Event(nil), s.Events...)
	bufs := map[*vg.Term]bool{}
	for i, ev := range evs {
		if strings.HasPrefix(ev.Callee, "(*html/template.Template).Execute") || strings.HasPrefix(ev.Callee, "(*text/template.Template).Execute") {
			_, dst, _, ok := isPageWrite(ev)
			if !c.Ob(ok && len(ev.Loops) == 0 && ev.GoDepth == 0, ev.Pos, "undecided: pages are rendered by Execute of html/template (found %s)", ev.Callee) {
				return
			}
			pages = append(pages, ev)
			x := *ev
			x.Callee = "(io.Writer).Write"
			x.Args = []*vg.Term{dst, vg.Pure("page!", nil, ev.Res)}
			evs[i] = &x
			if vg.Unbox(dst) != w {
				bufs[vg.Unbox(dst)] = true
			}
		}
	}
	evs = spliceBuffers(s, evs)
	page := func(t *vg.Term) *vg.Event {
		for _, ev := range pages {
			if t == vg.Pure("page!", nil, ev.Res) {
				return ev
			}
		}
		return nil
	}
	c.Ob(len(pages) > 0, pos, "the page is rendered from a template")
	// what else is written to the response
	good := vg.True // no page failed
	for _, ev := range pages {
		good = vg.And(good, vg.Not(vg.And(ev.Cond, vg.NonNil(ev.Res))))
	}
	for _, ev := range evs {
		if ev.Kind != vg.EvCall {
			continue
		}
		if ev.Callee == "net/http.Error" && vg.Unbox(ev.Args[0]) == w {
			// plain text, unless part of a page is already out
			c.Ob(vg.Implies(ev.Cond, vg.Not(good)) || !vg.Sat(vg.And(ev.Cond, anyBefore(pages, s, ev))), ev.Pos, "an error text is not added to a page")
			for _, pg := range pages {
				if vg.Unbox(pg.Args[1]) == w && vg.Sat(vg.And(pg.Cond, ev.Cond)) && indexOf(s.Events, pg) < indexOf(s.Events, ev) {
					ok := false
					for _, e := range calls(s, "(error).Error") {
						ok = ok || e.Res == ev.Args[1] && e.Args[0] == pg.Res
					}
					c.Ob(ok || ev.Args[1].IsStr(), ev.Pos, "only the error of the page follows a part of it (got %s)", ts(ev.Args[1]))
				}
			}
			continue
		}
		if ev.Callee == "(net/http.ResponseWriter).WriteHeader" {
			continue
		}
		if d := vg.WriteDest(ev); d != nil {
			continue
		}
		for _, a := range ev.Args {
			if ev.Callee == "(*bytes.Buffer).WriteTo" || ev.Callee == "io.Copy" {
				break // shows as no page if it is not understood
			}
			if vg.Unbox(a) == w && !strings.HasPrefix(ev.Callee, "(net/http.ResponseWriter).") && ev.Callee != "net/http.MaxBytesReader" {
				c.Ob(false, ev.Pos, "undecided: %s is given the response", ev.Callee)
			}
		}
	}
	for _, v := range []struct {
		cond *vg.Term
		what string
		show func(ev *vg.Event, cond *vg.Term)
	}{
		{vg.Not(graph), "the demo page", func(ev *vg.Event, cond *vg.Term) { c.demoPage(s, ev, cond, sen) }},
		{graph, "the lattice page", func(ev *vg.Event, cond *vg.Term) { c.graphPage(s, ev, cond, p, an, sen, mode, pure) }},
	} {
		cond := vg.And(v.cond, good)
		if !c.Ob(vg.Sat(cond), pos, "undecided: %s is never shown", v.what) {
			continue
		}
		t, err := vg.Text(evs, nil, cond, func(x *vg.Term, ev *vg.Event) *vg.Term {
			if vg.Unbox(x) == w {
				return vg.True
			}
			return vg.False
		})
		if !c.Ob(err == nil, pos, "undecided: what is written as %s: %v", v.what, err) {
			continue
		}
		for _, lf := range vg.Leaves(vg.CanonText(t), cond) {
			ev := (*vg.Event)(nil)
			if vg.IsContent(lf.Val) && len(lf.Val.Args) == 1 && lf.Val.Args[0].Op == vg.OpSeqLit && len(lf.Val.Args[0].Args) == 1 {
				ev = page(lf.Val.Args[0].Args[0])
			}
			if c.Ob(ev != nil, pos, "%s is exactly one rendered template (got %s when %s)", v.what, ts(lf.Val), ts(lf.Cond)) {
				v.show(ev, vg.And(cond, lf.Cond))
			}
		}
	}
}

func anyBefore(pages []*vg.Event, s *vg.Summary, ev *vg.Event) *vg.Term {
	r := vg.False
	for _, p := range pages {
		if indexOf(s.Events, p) < indexOf(s.Events, ev) {
			r = vg.Or(r, p.Cond)
		}
	}
	return r
}

// A tmplField is a place of a template that shows a field of its data.
type tmplField struct {
	name  string
	in    string   // the field ranged over, if any
	conds []string // the fields that must be set
	seq   int
}

type tmplPage struct {
	fields []tmplField
	ranges []string
	text   map[string]string // the text of a range body with \x00 for the fields
	err    string
}

// readTemplate reads a template made of fields, conditions and ranges.
func readTemplate(src string) *tmplPage {
	p := &tmplPage{text: map[string]string{}}
	fail := func(f string, a ...any) {
		if p.err == "" {
			p.err = fmt.Sprintf(f, a...)
		}
	}
	builtins := map[string]any{}
	for _, n := range []string{"and", "or", "not", "eq", "ne", "lt", "le", "gt", "ge", "len", "html", "js", "urlquery", "print", "printf", "println", "index", "slice", "call"} {
		builtins[n] = true
	}
	trees, err := parse.Parse("page", src, "", "", builtins)
	if err != nil {
		fail("%v", err)
		return p
	}
	if len(trees) != 1 {
		fail("templates within the template")
		return p
	}
	field := func(pipe *parse.PipeNode) string {
		if len(pipe.Decl) > 0 || len(pipe.Cmds) == 0 {
			return ""
		}
		for i, cmd := range pipe.Cmds {
			if i == 0 {
				continue
			}
			id, ok := cmd.Args[0].(*parse.IdentifierNode)
			if !ok || len(cmd.Args) != 1 || id.Ident != "html" {
				return ""
			}
		}
		if len(pipe.Cmds[0].Args) != 1 {
			return ""
		}
		f, ok := pipe.Cmds[0].Args[0].(*parse.FieldNode)
		if !ok || len(f.Ident) != 1 {
			return ""
		}
		return f.Ident[0]
	}
	var walk func(l *parse.ListNode, in string, conds []string)
	walk = func(l *parse.ListNode, in string, conds []string) {
		if l == nil {
			return
		}
		for _, n := range l.Nodes {
			switch x := n.(type) {
			case *parse.TextNode:
				p.text[in] += string(x.Text)
			case *parse.CommentNode:
			case *parse.ActionNode:
				f := field(x.Pipe)
				if f == "" {
					fail("line %d: %s is not a plain field", x.Line, x.Pipe)
					return
				}
				p.fields = append(p.fields, tmplField{f, in, conds, len(p.fields)})
				p.text[in] += "\x00"
			case *parse.IfNode:
				c := field(x.Pipe)
				if c == "" {
					c = x.Pipe.String()
				}
				walk(x.List, in, append(append([]string(nil), conds...), c))
				walk(x.ElseList, in, append(append([]string(nil), conds...), "not "+c))
			case *parse.RangeNode:
				f := field(x.Pipe)
				if f == "" || in != "" {
					fail("line %d: range over %s", x.Line, x.Pipe)
					return
				}
				p.ranges = append(p.ranges, f)
				p.text[in] += "\x01"
				walk(x.List, f, conds)
				walk(x.ElseList, in, append(append([]string(nil), conds...), "not "+f))
			default:
				fail("%s", n)
				return
			}
		}
	}
	walk(trees["page"].Root, "", nil)
	return p
}

// always reports whether a field is shown whenever it is set.
func (f tmplField) always() bool {
	for _, c := range f.conds {
		if c != f.name {
			return false
		}
	}
	return true
}

// templateSource finds the text a template held by a package variable is made
// from, and the position that makes it.
func (c *Ctx) templateSource(t *vg.Term) (src string, pos token.Pos, bad string) {
	if t.Op != vg.OpLd || t.Args[0].Op != vg.OpGlobal {
		return "", 0, "is not a package variable: " + ts(t)
	}
	name := t.Args[0].S
	i := strings.LastIndex(name, ".")
	var pkg *ssa.Package
	for _, p := range c.R.Prog.AllPackages() {
		if p.Pkg.Path() == name[:i] {
			pkg = p
		}
	}
	if pkg == nil {
		return "", 0, "is in an unknown package"
	}
	e := vg.NewEval(c.R.Prog, IsRepo, func(f *ssa.Function) bool { return f.Pkg != pkg })
	s := e.Run(pkg.Func("init"))
	var val *vg.Term
	for _, ev := range s.Events {
		if ev.Kind == vg.EvStore && ev.Addr == t.Args[0] {
			if val != nil {
				return "", ev.Pos, "is set twice"
			}
			val, pos = ev.Val, ev.Pos
		}
	}
	if val == nil {
		return "", 0, "is not set at start"
	}
	// set nowhere else
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok && g.String() == name {
			for _, f := range repoFuncs(c, pkg) {
				if f.Name() == "init" {
					continue
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
							return "", st.Pos(), "is set again"
						}
					}
				}
			}
		}
	}
	res := func(t *vg.Term) *vg.Event {
		for _, ev := range s.Events {
			if ev.Kind == vg.EvCall && ev.Res == t {
				return ev
			}
		}
		return nil
	}
	for n := 0; n < 16; n++ {
		if val.Op == vg.OpExtract && val.N == 0 {
			val = val.Args[0]
		}
		ev := res(val)
		if ev == nil {
			return "", pos, "is made in an unknown way"
		}
		switch ev.Callee {
		case "html/template.Must":
			val = ev.Args[0]
		case "html/template.New":
			if src == "" {
				return "", pos, "has no text"
			}
			return src, pos, ""
		case "(*html/template.Template).Parse":
			if src != "" {
				return "", pos, "is parsed twice"
			}
			x := ev.Args[1]
			switch {
			case x.IsStr():
				src = x.Str()
			case x.Op == vg.OpLd && x.Args[0].Op == vg.OpGlobal:
				f := c.embedFile(x.Args[0].S)
				if f == "" {
					return "", pos, "is not made from an embedded file"
				}
				b, err := os.ReadFile(filepath.Join(c.pkgDir(pkg), f))
				if err != nil {
					return "", pos, err.Error()
				}
				src = string(b)
			default:
				return "", pos, "is made from " + ts(x)
			}
			val = ev.Args[0]
		case "(*html/template.Template).Option":
			val = ev.Args[0]
		default:
			return "", pos, "uses " + ev.Callee
		}
	}
	return "", pos, "is made in an unknown way"
}

func (c *Ctx) pkgDir(pkg *ssa.Package) string {
	for _, p := range c.R.Pkgs {
		if p.Types == pkg.Pkg && len(p.GoFiles) > 0 {
			return filepath.Dir(p.GoFiles[0])
		}
	}
	return ""
}

func repoFuncs(c *Ctx, pkg *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.R.Funcs {
		if f.Pkg == pkg {
			out = append(out, f)
		}
	}
	return out
}

// pageData gives the struct a page shows.
func pageData(s *vg.Summary, ev *vg.Event) (*vg.Term, types.Type, bool) {
	_, _, data, _ := isPageWrite(ev)
	if data.Op != vg.OpIface || data.Typ == nil {
		return nil, nil, false
	}
	v, t := data.Args[0], data.Typ
	if p, ok := t.Underlying().(*types.Pointer); ok {
		v = s.E.Load(ev.Mem, v, p.Elem())
		t = p.Elem()
	}
	_, ok := t.Underlying().(*types.Struct)
	return v, t, ok
}

// safeTypes checks that no field of the data is exempt from escaping, except
// those accepted.
func (c *Ctx) safeTypes(pos token.Pos, v *vg.Term, t types.Type, accept func(name string, v *vg.Term) bool) {
	var plain func(t types.Type, n int) bool
	plain = func(t types.Type, n int) bool {
		if n > 6 {
			return false
		}
		if named, ok := t.(*types.Named); ok && named.Obj().Pkg() != nil && named.Obj().Pkg().Path() == tmplPkg {
			return false
		}
		switch x := t.Underlying().(type) {
		case *types.Basic:
			return true
		case *types.Slice:
			return plain(x.Elem(), n+1)
		case *types.Array:
			return plain(x.Elem(), n+1)
		case *types.Pointer:
			return plain(x.Elem(), n+1)
		case *types.Struct:
			for i := 0; i < x.NumFields(); i++ {
				if !plain(x.Field(i).Type(), n+1) {
					return false
				}
			}
			return true
		}
		return false
	}
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if plain(f.Type(), 0) {
			c.Ob(true, pos, "%s is escaped", f.Name())
			continue
		}
		c.Ob(accept != nil && accept(types.TypeString(f.Type(), nil), structField(v, t, i)), pos, "%s of type %s is shown without escaping", f.Name(), f.Type())
	}
}

func (c *Ctx) template(ev *vg.Event) (*tmplPage, string) {
	tmpl, _, _, _ := isPageWrite(ev)
	src, pos, bad := c.templateSource(tmpl)
	if !c.Ob(bad == "", ev.Pos, "undecided: the template %s", bad) {
		return nil, ""
	}
	p := readTemplate(src)
	if !c.Ob(p.err == "", pos, "undecided: the template: %s", p.err) {
		return nil, ""
	}
	for _, e := range scriptSinks(src) {
		c.Ob(false, pos, "the script of the page puts data into the page as HTML: %s", e)
	}
	c.Ob(true, pos, "the template and its scripts are read")
	return p, src
}

func (c *Ctx) demoPage(s *vg.Summary, ev *vg.Event, cond, sen *vg.Term) {
	p, _ := c.template(ev)
	if p == nil {
		return
	}
	v, t, ok := pageData(s, ev)
	if !c.Ob(ok, ev.Pos, "undecided: the data of the page is a struct") {
		return
	}
	c.safeTypes(ev.Pos, v, t, nil)
	c.fieldsExist(ev.Pos, p, t)
}

// fieldsExist: a missing field ends the page in the middle.
func (c *Ctx) fieldsExist(pos token.Pos, p *tmplPage, t types.Type) {
	names := map[string]bool{}
	for _, f := range p.fields {
		if f.in == "" {
			names[f.name] = true
		}
		for _, cd := range f.conds {
			cd = strings.TrimPrefix(cd, "not ")
			for _, w := range strings.Fields(cd) {
				if strings.HasPrefix(w, ".") && f.in == "" {
					names[w[1:]] = true
				}
			}
			if token.IsIdentifier(cd) && f.in == "" {
				names[cd] = true
			}
		}
	}
	for _, r := range p.ranges {
		names[r] = true
	}
	for _, n := range sortedKeys(names) {
		c.Ob(fieldNamedIn(t, n) != nil, pos, "the template uses a field %s of the page", n)
	}
}

func fieldNamed(t types.Type, name string) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (c *Ctx) graphPage(s *vg.Summary, ev *vg.Event, cond *vg.Term, p *proc, an *vg.Event, sen, mode *vg.Term, pure func(*ssa.Function) bool) {
	tp, _ := c.template(ev)
	if tp == nil {
		return
	}
	v, t, ok := pageData(s, ev)
	if !c.Ob(ok, ev.Pos, "undecided: the data of the page is a struct") {
		return
	}
	svgOK := func(typ string, x *vg.Term) bool {
		if typ != tmplPkg+".HTML" {
			return false
		}
		for _, lf := range vg.Leaves(x, vg.And(cond, ev.Cond)) {
			y := textConv(lf.Val)
			if y.IsStr() && y.Str() == "" {
				continue
			}
			y = fromTag(y, vg.And(vg.And(cond, ev.Cond), lf.Cond))
			if !p.output(y) {
				return false
			}
		}
		return true
	}
	c.safeTypes(ev.Pos, v, t, svgOK)
	c.fieldsExist(ev.Pos, tp, t)
	get := func(name string) *vg.Term {
		i := fieldNamedIn(t, name)
		if i == nil {
			return nil
		}
		return structFieldIn(v, t, i)
	}
	all := vg.And(cond, ev.Cond)
	shows := func(what string, under *vg.Term, is func(x *vg.Term, cond *vg.Term) bool) {
		if !vg.Sat(under) {
			return
		}
		for _, f := range tp.fields {
			if x := get(f.name); f.in == "" && f.always() && x != nil && is(x, under) {
				c.Ob(true, ev.Pos, "%s", what)
				return
			}
		}
		c.Ob(false, ev.Pos, "%s", what)
	}
	shows("the sentence is shown", all, func(x, cond *vg.Term) bool { return vg.SameUnder(cond, x, sen) })
	failed := vg.And(all, p.fail)
	shows("a graphviz that is missing, fails or is slow is reported", failed, func(x, cond *vg.Term) bool {
		for _, lf := range vg.Leaves(x, cond) {
			if !nonEmptyText(lf.Val, vg.And(cond, lf.Cond)) && !vg.Implies(vg.And(cond, lf.Cond), vg.LE(vg.Int(1), vg.Len(lf.Val))) {
				return false
			}
		}
		return true
	})
	fine := vg.And(all, vg.Not(p.fail))
	c.Ob(vg.Sat(fine), ev.Pos, "undecided: graphviz never succeeds")
	shows("the graph is shown", fine, func(x, cond *vg.Term) bool {
		for _, lf := range vg.Leaves(x, cond) {
			y := textConv(lf.Val)
			y = fromTag(y, vg.And(cond, lf.Cond))
			if !p.output(y) {
				return false
			}
		}
		return true
	})
	// the rows
	if !c.Ob(len(tp.ranges) == 1, ev.Pos, "undecided: the template has one list (found %v)", tp.ranges) {
		return
	}
	rg := tp.ranges[0]
	var cols []string
	for _, f := range tp.fields {
		if f.in == rg {
			c.Ob(len(f.conds) == 0, ev.Pos, "%s is shown in every row", f.name)
			cols = append(cols, f.name)
		}
	}
	rows := c.cmdSpec(pure, "Rows", an.Res)
	rowT := rows.Fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
	n := rowT.Underlying().(*types.Struct).NumFields()
	if !c.Ob(len(cols) == n, ev.Pos, "a row has %d columns (found %v)", n, cols) {
		return
	}
	cells := strings.Split(tp.text[rg], "\x00")
	for i, sep := range cells {
		want := i == 0 && strings.Contains(sep, "<tr") && strings.Contains(sep, "<td") ||
			i > 0 && i < n && strings.Contains(sep, "</td>") && strings.Contains(sep, "<td") && !strings.Contains(sep, "<tr") ||
			i == n && strings.Contains(sep, "</td>") && strings.Contains(sep, "</tr>")
		c.Ob(want && !strings.Contains(sep, "<!--"), ev.Pos, "every column has a cell of its own, in a row of its own")
	}
	xs := get(rg)
	i := fieldNamed(t, rg)
	if xs == nil {
		return
	}
	sl, isSl := t.Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Slice)
	if !c.Ob(isSl, ev.Pos, "undecided: the rows are a slice") {
		return
	}
	et := sl.Elem()
	ok = true
	for _, col := range cols {
		ok = ok && c.Ob(fieldNamedIn(et, col) != nil, ev.Pos, "a row has a field %s", col)
	}
	if !ok {
		return
	}
	proj := func(x *vg.Term) *vg.Term {
		var fs []*vg.Term
		for _, col := range cols {
			fs = append(fs, structFieldIn(x, et, fieldNamedIn(et, col)))
		}
		return vg.Struct(rowT, fs...)
	}
	projRow := func(x *vg.Term) *vg.Term {
		var fs []*vg.Term
		for i := 0; i < n; i++ {
			fs = append(fs, structField(x, rowT, i))
		}
		return vg.Struct(rowT, fs...)
	}
	same, cc, a, b := vg.SameContentMap(fine, s.E, ev.Mem, xs, et, proj, rows.E, rows.Mem, rows.Ret[0], rowT, projRow)
	c.Ob(same, ev.Pos, "the page has one row per token that is not BOS or EOS, with its surface, POS, base form, reading and pronunciation, or * (differs when %s: %s, not %s)", ts(cc), ts(a), ts(b))
}

// nonEmptyText reports whether a text has a constant part under cond.
func nonEmptyText(x, cond *vg.Term) bool {
	for _, lf := range vg.Leaves(vg.MkText(x), cond) {
		ok := false
		if vg.IsContent(lf.Val) {
			for _, seg := range lf.Val.Args {
				if seg.Op == vg.OpSeqLit {
					for _, p := range seg.Args {
						ok = ok || p.IsStr() && p.Str() != ""
					}
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// fromTag looks through the part of a text that starts at a tag.
func fromTag(y, cond *vg.Term) *vg.Term {
	tag := ""
	if y.Op == vg.OpConcat && len(y.Args) == 2 && y.Args[0].IsStr() {
		tag, y = y.Args[0].Str(), textConv(y.Args[1])
	}
	if y.Op != vg.OpSlice || y.Args[2] != vg.Len(y.Args[0]) {
		return y
	}
	at := vg.Sub(y.Args[1], vg.Int(int64(len(tag))))
	if !vg.Implies(cond, vg.LE(vg.Int(0), at)) {
		return y
	}
	if tag == "" && at == vg.Int(0) {
		return textConv(y.Args[0])
	}
	if at.Op != vg.OpApp || at.S != "strings.Index" && at.S != "bytes.Index" || textConv(at.Args[0]) != textConv(y.Args[0]) {
		return y
	}
	pat := textConv(at.Args[1])
	if !pat.IsStr() || !strings.HasPrefix(pat.Str(), "<svg") || tag != "" && tag != pat.Str() {
		return y
	}
	return textConv(y.Args[0])
}

// fieldNamedIn is the field of t that a template finds under a name, possibly
// a promoted one; nil if there is none.
func fieldNamedIn(t types.Type, name string) []int {
	t = deref(t)
	if i := fieldNamed(t, name); i >= 0 {
		return []int{i}
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var found []int
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Embedded() {
			if _, ok := f.Type().Underlying().(*types.Struct); !ok {
				continue
			}
			if p := fieldNamedIn(f.Type(), name); p != nil {
				if found != nil {
					return nil // ambiguous
				}
				found = append([]int{i}, p...)
			}
		}
	}
	return found
}

func structFieldIn(x *vg.Term, t types.Type, path []int) *vg.Term {
	for _, i := range path {
		x = structField(x, t, i)
		t = t.Underlying().(*types.Struct).Field(i).Type()
	}
	return x
}

// textConv removes conversions between string types.
func textConv(x *vg.Term) *vg.Term {
	for x.Op == vg.OpConv && len(x.Args) == 1 {
		x = x.Args[0]
	}
	return x
}
