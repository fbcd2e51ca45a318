package main

import (
	"bufio"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"kcheck/vg"
)

func init() {
	register("commands", "C05 C16 C17 C18 C19 C20 C22", "each command: option table, validation, how every option reaches its effect, error propagation, file handles, and the text it prints", ruleCommands)
	register("main", "C16 C17", "the subcommand table, the default command and the exit status", ruleMain)
}

// cmdOpaque keeps the library packages closed when a command is analysed.
func cmdOpaque(f *ssa.Function) bool {
	if f.Pkg == nil {
		return false
	}
	p := strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath+"/")
	return exported(f) && (p == tokPkg || strings.HasPrefix(p, tokPkg+"/") || p == "filter" || strings.HasPrefix(p, "filter/"))
}

// cmdPure are functions whose result depends on their arguments only.
func cmdPure(f *ssa.Function) bool {
	if f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case "github.com/ikawaha/kagome-dict/ipa", "github.com/ikawaha/kagome-dict/uni":
		return exported(f) && f.Signature.Recv() == nil
	case modPath + "/" + tokPkg:
		switch f.Name() {
		case "Nop", "UserDict", "NewTokenData", "OmitBosEos":
			return true
		}
		return f.Signature.Recv() != nil && exported(f) && types.TypeString(f.Signature.Recv().Type(), nil) == modPath+"/"+tokPkg+".Token"
	}
	return false
}

func (c *Ctx) cmdEval(fn *ssa.Function, extra func(*ssa.Function) bool) *vg.Summary {
	return c.cmdEvalN(fn, extra, 0)
}

// cmdEvalN unrolls loops of at most n rounds.
func (c *Ctx) cmdEvalN(fn *ssa.Function, extra func(*ssa.Function) bool, n int) *vg.Summary {
	c.In(fn)
	pure := func(f *ssa.Function) bool { return cmdPure(f) || extra != nil && extra(f) }
	e := vg.NewEval(c.R.Prog, IsRepo, func(f *ssa.Function) bool { return cmdOpaque(f) || pure(f) })
	e.PureFn = pure
	e.Unroll = n
	s := e.Run(fn)
	c.touch(s)
	for _, p := range s.E.Problems {
		c.Ob(false, fn.Pos(), "undecided: %s", p)
	}
	return s
}

func (c *Ctx) cmdSpec(extra func(*ssa.Function) bool, name string, args ...*vg.Term) *vg.Summary {
	pure := func(f *ssa.Function) bool { return cmdPure(f) || extra != nil && extra(f) }
	fn := c.R.Func("zz_kspec." + name)
	if fn == nil {
		panic(missing("no specification " + name))
	}
	e := vg.NewEval(c.R.Prog, IsRepo, func(f *ssa.Function) bool { return cmdOpaque(f) || pure(f) })
	e.PureFn = pure
	return e.Run(fn, args...)
}

type cliFlag struct {
	def  *vg.Term
	val  *vg.Term
	kind string
	pos  token.Pos
}

// cli is an analysed command function: its options after parsing.
type cli struct {
	s     *vg.Summary
	parse *vg.Event
	args  *vg.Term // non-flag arguments
	flags map[string]*cliFlag
	ret   *vg.Term
}

func calls(s *vg.Summary, names ...string) []*vg.Event {
	var out []*vg.Event
	for _, ev := range s.Events {
		if ev.Kind != vg.EvCall {
			continue
		}
		for _, n := range names {
			if ev.Callee == n || ev.Static != nil && shortFn(ev.Static) == n {
				out = append(out, ev)
			}
		}
	}
	return out
}

func (c *Ctx) cli(s *vg.Summary) *cli {
	fn := s.Fn
	r := &cli{s: s, flags: map[string]*cliFlag{}}
	if i := errRet(fn); c.Ob(i >= 0, fn.Pos(), "the command function returns an error") {
		r.ret = s.Ret[i]
	} else {
		return nil
	}
	var args *vg.Term
	for i, p := range fn.Params {
		if types.TypeString(p.Type(), nil) == "[]string" {
			args = s.Params[i]
		}
	}
	ps := calls(s, "(*flag.FlagSet).Parse")
	if !c.Ob(len(ps) == 1 && ps[0].Cond == vg.True && len(ps[0].Loops) == 0, fn.Pos(), "the arguments are parsed exactly once, on every path (found %d)", len(ps)) {
		return nil
	}
	r.parse = ps[0]
	fs := r.parse.Args[0]
	c.Ob(r.parse.Args[1] == args, r.parse.Pos, "the arguments given are the ones parsed (got %s)", ts(r.parse.Args[1]))
	for _, ev := range calls(s, "flag.NewFlagSet") {
		if ev.Res == fs {
			c.Ob(ev.Args[1].IsConst(0), ev.Pos, "parse errors are returned, neither exit nor panic (error handling %s)", ts(ev.Args[1]))
		}
	}
	r.args = vg.Pure("flag.Args", types.NewSlice(types.Typ[types.String]), fs)
	at := indexOf(s.Events, r.parse)
	for i, ev := range s.Events {
		if ev.Kind != vg.EvCall || len(ev.Args) == 0 || ev.Args[0] != fs || i > at {
			continue
		}
		var addr, name, def *vg.Term
		var kind types.BasicKind
		switch ev.Callee {
		case "(*flag.FlagSet).StringVar":
			addr, name, def, kind = ev.Args[1], ev.Args[2], ev.Args[3], types.String
		case "(*flag.FlagSet).BoolVar":
			addr, name, def, kind = ev.Args[1], ev.Args[2], ev.Args[3], types.Bool
		case "(*flag.FlagSet).String":
			addr, name, def, kind = ev.Res, ev.Args[1], ev.Args[2], types.String
		case "(*flag.FlagSet).Bool":
			addr, name, def, kind = ev.Res, ev.Args[1], ev.Args[2], types.Bool
		default:
			continue
		}
		if !c.Ob(name.IsStr() && ev.Cond == vg.True && len(ev.Loops) == 0, ev.Pos, "undecided: an option without a constant name") {
			return nil
		}
		r.flags[name.Str()] = &cliFlag{def: def, val: s.E.Load(r.parse.After, addr, types.Typ[kind]), kind: types.Typ[kind].Name(), pos: ev.Pos}
	}
	return r
}

// val is the value of an option after parsing.
func (r *cli) val(name string) *vg.Term { return r.flags[name].val }

func (r *cli) set(name string) *vg.Term { return vg.Not(vg.EQ(r.flags[name].val, vg.Str(""))) }

func (r *cli) perr() *vg.Term { return r.parse.Res }

func inSet(x *vg.Term, vs ...string) *vg.Term {
	o := vg.False
	for _, v := range vs {
		o = vg.Or(o, vg.EQ(x, vg.Str(v)))
	}
	return o
}

type cmdDesc struct {
	pkg   string
	flags map[string]string // name -> default; bools as "true"/"false"
	valid func(r *cli) *vg.Term
	run   func(c *Ctx, r *cli, valid *vg.Term)
}

func noArgs(r *cli) *vg.Term { return vg.EQ(vg.Len(r.args), vg.Int(0)) }

var cmdDescs = []cmdDesc{
	{"cmd/tokenize",
		map[string]string{"file": "", "dict": "", "udict": "", "sysdict": "ipa", "simple": "false", "mode": "normal", "split": "false", "json": "false"},
		func(r *cli) *vg.Term {
			return vg.And(noArgs(r), vg.And(inSet(r.val("mode"), "", "normal", "search", "extended"), inSet(r.val("sysdict"), "", "ipa", "uni")))
		}, runTokenize},
	{"cmd/sentence", map[string]string{"file": ""}, noArgs, runSentence},
	{"cmd/lattice",
		map[string]string{"udict": "", "dict": "ipa", "mode": "normal", "output": "", "v": "false"},
		func(r *cli) *vg.Term {
			return vg.And(vg.Not(noArgs(r)), vg.And(inSet(r.val("mode"), "", "normal", "search", "extended"), inSet(r.val("dict"), "", "ipa", "uni")))
		}, runLattice},
	{"cmd/server",
		map[string]string{"http": ":6060", "userdict": "", "dict": "ipa"},
		func(r *cli) *vg.Term { return vg.And(noArgs(r), inSet(r.val("dict"), "", "ipa", "uni")) }, runServer},
}

func ruleCommands(c *Ctx) {
	for _, d := range cmdDescs {
		c.command(d)
	}
}

func (c *Ctx) command(d cmdDesc) {
	for _, name := range []string{"OptionCheck", "Run"} {
		c.For("C17")
		n := 0
		if d.pkg == "cmd/server" {
			n = 16
		}
		s := c.cmdEvalN(c.fn(d.pkg+"."+name), nil, n)
		r := c.cli(s)
		if r == nil {
			continue
		}
		ok := true
		for _, n := range sortedKeysS(d.flags) {
			fl := r.flags[n]
			if !c.Ob(fl != nil, s.Fn.Pos(), "option -%s is defined", n) {
				ok = false
				continue
			}
			def := d.flags[n]
			if fl.kind == "bool" {
				c.Ob(fl.def == vg.False && def == "false", fl.pos, "-%s is %s by default", n, def)
			} else {
				c.Ob(fl.def.IsStr() && fl.def.Str() == def, fl.pos, "-%s is %q by default (got %s)", n, def, ts(fl.def))
			}
		}
		if !ok {
			continue
		}
		v := vg.And(vg.EQ(r.perr(), vg.Nil), d.valid(r))
		if name == "OptionCheck" {
			c.Ob(vg.Implies(v, vg.EQ(r.ret, vg.Nil)), s.Fn.Pos(), "OptionCheck accepts every documented argument list (refused when %s)", ts(vg.And(v, vg.NonNil(r.ret))))
			c.Ob(vg.Implies(vg.Not(v), vg.NonNil(r.ret)), s.Fn.Pos(), "OptionCheck refuses values outside the documented sets (accepted when %s)", ts(vg.And(vg.Not(v), vg.EQ(r.ret, vg.Nil))))
			continue
		}
		c.For("C16", "C17")
		c.Ob(vg.Implies(vg.Not(v), vg.NonNil(r.ret)), s.Fn.Pos(), "wrong arguments make the command fail (accepted when %s)", ts(vg.And(vg.Not(v), vg.EQ(r.ret, vg.Nil))))
		for _, ev := range s.Events {
			if ev.Kind == vg.EvCall && !strings.HasPrefix(ev.Callee, "fmt.") && !strings.Contains(ev.Callee, "flag.") {
				c.Ob(vg.Implies(ev.Cond, v), ev.Pos, "nothing is done with wrong arguments (%s is called)", ev.Callee)
			}
			if ev.Kind == vg.EvCall && (ev.Callee == "os.Exit" || strings.HasPrefix(ev.Callee, "log.Fatal")) || ev.Kind == vg.EvPanic {
				c.Ob(false, ev.Pos, "a command reports its failure to its caller")
			}
		}
		d.run(c, r, v)
	}
}

func sortedKeysS(m map[string]string) []string {
	x := map[string]bool{}
	for k := range m {
		x[k] = true
	}
	return sortedKeys(x)
}

// tokenizer checks how the tokenizer of a command is made and returns the
// tokenizer, the condition under which it exists, and whether that worked.
func (c *Ctx) cmdTokenizer(r *cli, v *vg.Term, dictOK, wantDict *vg.Term, udict string) (tok, have *vg.Term, ok bool) {
	s := r.s
	c.For("C16", "C17")
	news := s.Merge(calls(s, "tokenizer.New"))
	r.ret = s.Ret[errRet(s.Fn)]
	if !c.Ob(len(news) == 1 && len(news[0].Loops) == 0, s.Fn.Pos(), "undecided: the tokenizer is made at one place (found %d)", len(news)) {
		return nil, nil, false
	}
	nw := news[0]
	up := c.cmdSpec(nil, "UserDict", r.val(udict))
	want := vg.And(v, vg.And(dictOK, up.Ret[2]))
	c.Ob(vg.Implies(vg.And(v, vg.Not(dictOK)), vg.NonNil(r.ret)), nw.Pos, "a dictionary that cannot be had makes the command fail (lost when %s)", ts(vg.And(vg.And(v, vg.Not(dictOK)), vg.EQ(r.ret, vg.Nil))))
	c.Ob(vg.Implies(vg.And(v, vg.And(dictOK, vg.Not(up.Ret[2]))), vg.NonNil(r.ret)), nw.Pos, "a user dictionary that cannot be read makes the command fail")
	c.For("C17")
	c.Ob(vg.Implies(want, nw.Cond), nw.Pos, "with usable dictionaries the command goes on (stops when %s)", ts(vg.And(want, vg.Not(nw.Cond))))
	c.Ob(vg.SameUnder(vg.And(want, nw.Cond), nw.Args[0], wantDict), nw.Pos, "the system dictionary is the one selected by the options (got %s, expected %s)", ts(nw.Args[0]), ts(wantDict))
	// the options of the tokenizer: the user dictionary, when named, and no other
	udf, nop := c.fn("tokenizer.UserDict"), c.fn("tokenizer.Nop")
	c.In(s.Fn)
	good := true
	for _, lf := range vg.Leaves(nw.Args[1], vg.And(want, nw.Cond)) {
		cond := vg.And(vg.And(want, nw.Cond), lf.Cond)
		var els []*vg.Term
		if v := optSeq(lf.Val); v == vg.Nil {
		} else if v.Op == vg.OpSeqLit {
			els = v.Args
		} else {
			good = false
			break
		}
		good = good && c.userOpts(s, els, nil, cond, up, udf, nop)
	}
	c.Ob(good, nw.Pos, "the tokenizer uses the named user dictionary and no other option (got %s)", ts(nw.Args[1]))
	// its error
	c.For("C16")
	err := vg.Extract(nw.Res, 1, errorType)
	c.errFlow(s, nw, err, r.ret, "a tokenizer that cannot be made makes the command fail")
	return vg.Extract(nw.Res, 0, types.NewPointer(c.namedType(tokPkg, "Tokenizer"))), vg.And(nw.Cond, vg.EQ(err, vg.Nil)), true
}

var errorType = types.Universe.Lookup("error").Type()

// optSeq puts an options slice in the form of literal sequences.
func optSeq(t *vg.Term) *vg.Term {
	if t.Op == vg.OpAppend {
		return vg.Seq(flattenAppend(t)...)
	}
	return t
}

func flattenAppend(t *vg.Term) []*vg.Term {
	if t == vg.Nil {
		return nil
	}
	if t.Op == vg.OpSeqLit {
		return t.Args
	}
	var out []*vg.Term
	if t.Op == vg.OpAppend {
		for _, a := range t.Args {
			out = append(out, flattenAppend(a)...)
		}
		return out
	}
	return []*vg.Term{vg.Hole}
}

func (c *Ctx) userOpts(s *vg.Summary, els, seen []*vg.Term, cond *vg.Term, up *vg.Summary, udf, nop *ssa.Function) bool {
	if !vg.Sat(cond) {
		return true
	}
	if len(els) == 0 {
		if len(seen) > 1 {
			return false
		}
		if len(seen) == 1 {
			return vg.Implies(cond, up.Ret[1]) && vg.SameUnder(cond, seen[0], up.Ret[0])
		}
		return vg.Implies(cond, vg.Not(up.Ret[1]))
	}
	for _, lf := range vg.Leaves(els[0], cond) {
		cc := vg.And(cond, lf.Cond)
		x := lf.Val
		switch {
		case x == s.E.PureCall(nop):
			if !c.userOpts(s, els[1:], seen, cc, up, udf, nop) {
				return false
			}
		case x.Op == vg.OpApp && len(x.Args) == 1 && x == s.E.PureCall(udf, x.Args[0]):
			if !c.userOpts(s, els[1:], append(append([]*vg.Term(nil), seen...), x.Args[0]), cc, up, udf, nop) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// input checks the reader of a command and the scanning loop over it; it
// returns the loop and the condition of being inside a round.
func (c *Ctx) scanning(r *cli, ready *vg.Term, split *vg.Term) (l *vg.Loop, in, text *vg.Term) {
	s := r.s
	c.For("C16", "C17", "C18")
	sc := calls(s, "bufio.NewScanner")
	if !c.Ob(len(sc) == 1 && len(sc[0].Loops) == 0, s.Fn.Pos(), "undecided: the input is scanned at one place (found %d)", len(sc)) {
		return nil, nil, nil
	}
	opens := calls(s, "os.Open", "os.OpenFile")
	c.For("C16", "C17")
	opened := vg.True
	var file *vg.Term
	for _, op := range opens {
		c.Ob(vg.SameUnder(op.Cond, op.Args[0], r.val("file")), op.Pos, "the file opened is the one named by -file")
		c.Ob(vg.Implies(op.Cond, r.set("file")), op.Pos, "a file is opened only when one is named")
		err := vg.Extract(op.Res, 1, errorType)
		c.For("C16")
		c.errFlow(s, op, err, r.ret, "an input file that cannot be opened makes the command fail")
		c.closed(s, op)
		opened = vg.Ite(r.set("file"), vg.EQ(err, vg.Nil), vg.True)
		file = vg.Extract(op.Res, 0, op.Res.Typ.(*types.Tuple).At(0).Type())
		c.For("C16", "C17")
	}
	if !c.Ob(len(opens) == 1, s.Fn.Pos(), "undecided: the input file is opened at one place (found %d)", len(opens)) {
		return nil, nil, nil
	}
	c.Ob(vg.Implies(vg.And(ready, opened), sc[0].Cond), sc[0].Pos, "the input is read whenever everything is in place")
	got := vg.Unbox(sc[0].Args[0])
	good := true
	for _, lf := range vg.Leaves(got, sc[0].Cond) {
		cc := vg.And(sc[0].Cond, lf.Cond)
		if lf.Val == file {
			good = good && vg.Implies(cc, r.set("file"))
		} else {
			good = good && isGlobalLoad(lf.Val, "os.Stdin") && vg.Implies(cc, vg.Not(r.set("file")))
		}
	}
	c.Ob(good, sc[0].Pos, "the input is the named file, or the standard input (got %s)", ts(got))
	// the length of a line
	c.For("C16", "C18")
	for _, bf := range calls(s, "(*bufio.Scanner).Buffer") {
		n := bf.Args[2]
		c.Ob(vg.Implies(bf.Cond, vg.LE(vg.Int(bufio.MaxScanTokenSize), n)) || vg.Implies(bf.Cond, vg.LE(vg.Int(bufio.MaxScanTokenSize), vg.Len(bf.Args[1]))), bf.Pos, "lines may be as long as they could be without this (at most %s)", ts(n))
	}
	// the split function
	c.For("C17", "C18")
	splits := calls(s, "(*bufio.Scanner).Split")
	eff := vg.False
	for _, sp := range splits {
		for _, lf := range vg.Leaves(sp.Args[1], sp.Cond) {
			cc := vg.And(sp.Cond, lf.Cond)
			name := ""
			if f, ok := lf.Val.Fn.(*ssa.Function); ok {
				name = shortFn(f)
			}
			switch name {
			case "filter.ScanSentences":
				eff = vg.Or(eff, cc)
			case "bufio.ScanLines":
				c.Ob(len(splits) == 1, sp.Pos, "undecided: several split functions")
			default:
				c.Ob(false, sp.Pos, "the input is cut into lines or sentences (cut by %s)", ts(lf.Val))
			}
		}
		c.Ob(sp.Args[0] == sc[0].Res && len(sp.Loops) == 0, sp.Pos, "the split function is that of the input")
	}
	c.Ob(vg.Equiv(eff, vg.And(sc[0].Cond, split)), sc[0].Pos, "sentences are split exactly when asked for (split when %s)", ts(eff))
	// the loop
	c.For("C16", "C18")
	scans := calls(s, "(*bufio.Scanner).Scan")
	if !c.Ob(len(scans) == 1 && len(scans[0].Loops) == 1 && scans[0].Args[0] == sc[0].Res, sc[0].Pos, "undecided: one loop reads the input (found %d places)", len(scans)) {
		return nil, nil, nil
	}
	l = scans[0].Loops[0]
	more := vg.BoolOf(scans[0].Res)
	c.Ob(vg.Implies(sc[0].Cond, l.EntryCond) && vg.Implies(l.EntryCond, scans[0].Cond), scans[0].Pos, "the whole input is read")
	errs := calls(s, "(*bufio.Scanner).Err")
	called := vg.False
	for _, ev := range errs {
		if ev.Args[0] == sc[0].Res && len(ev.Loops) == 0 && indexOf(s.Events, ev) > indexOf(s.Events, scans[0]) {
			called = vg.Or(called, ev.Cond)
			c.For("C16")
			c.errFlow(s, ev, ev.Res, r.ret, "a read error makes the command fail")
		}
	}
	for i, g := range l.Exits {
		out := vg.And(l.EntryCond, g.E)
		if vg.Sat(vg.And(g.Cond, more)) {
			c.For("C16", "C18")
			ok, why := errFlowsIn(nil, vg.And(out, vg.PostBad(l, i, g.Cond)), r.ret)
			c.Ob(ok, l.Pos, "reading stops early only with an error%s", why)
			continue
		}
		c.For("C16")
		c.Ob(vg.Implies(out, called), l.Pos, "the read error is asked for after the last line")
		_ = i
	}
	txts := calls(s, "(*bufio.Scanner).Text")
	c.For("C18")
	if !c.Ob(len(txts) == 1 && len(txts[0].Loops) == 1 && txts[0].Loops[0] == l && txts[0].Args[0] == sc[0].Res, l.Pos, "undecided: the text of each round is taken once") {
		return nil, nil, nil
	}
	in = vg.And(l.EntryCond, more)
	c.Ob(vg.Implies(in, txts[0].Cond), txts[0].Pos, "the text of every round is used")
	return l, in, txts[0].Res
}

func isGlobalLoad(t *vg.Term, name string) bool {
	return t.Op == vg.OpLd && t.Args[0].Op == vg.OpGlobal && t.Args[0].S == name
}

// closed: a file that was opened is closed on every path.
func (c *Ctx) closed(s *vg.Summary, op *vg.Event) {
	f := vg.Extract(op.Res, 0, op.Res.Typ.(*types.Tuple).At(0).Type())
	err := vg.Extract(op.Res, 1, errorType)
	done := vg.False
	for _, ev := range calls(s, "(*os.File).Close") {
		if len(ev.Loops) == len(op.Loops) && vg.SameUnder(ev.Cond, ev.Args[0], f) {
			done = vg.Or(done, ev.Cond)
		}
	}
	want := vg.And(op.Cond, vg.EQ(err, vg.Nil))
	c.Ob(vg.Implies(vg.And(want, s.Cond), done), op.Pos, "the file is closed on every path (open when %s)", ts(vg.And(want, vg.Not(done))))
}

// success: when nothing goes wrong the command does not fail.
func (c *Ctx) succeeds(r *cli, fine *vg.Term) {
	c.For("C16")
	c.Ob(vg.Implies(fine, vg.EQ(r.ret, vg.Nil)), r.s.Fn.Pos(), "when nothing goes wrong no error is returned (returned when %s)", ts(vg.And(fine, vg.NonNil(r.ret))))
}

// spliceBuffers replaces what is read back from a local buffer by what was
// written to it.
func spliceBuffers(s *vg.Summary, evs []*vg.Event) []*vg.Event {
	m := map[*vg.Term]*vg.Term{}
	out := append([]*vg.Event(nil), evs...)
	for i, ev := range evs {
		if ev.Kind != vg.EvCall {
			continue
		}
		var buf, dst *vg.Term
		switch ev.Callee {
		case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*strings.Builder).String":
			buf = ev.Args[0]
		case "(*bytes.Buffer).WriteTo":
			buf, dst = ev.Args[0], ev.Args[1]
		case "io.Copy":
			buf, dst = vg.Unbox(ev.Args[1]), ev.Args[0]
		}
		if buf != nil && buf.Op == vg.OpAlloc && len(ev.Loops) == 0 {
			t, err := vg.TextOf(s.E, s.Mem, out[:i], nil, vg.True, func(w *vg.Term, x *vg.Event) *vg.Term {
				if vg.Unbox(w) == buf {
					return vg.True
				}
				return vg.False
			})
			if err == nil && vg.LocalBuffer(out[:i], buf) {
				if dst == nil {
					m[ev.Res] = t
					continue
				}
				x := *ev
				x.Callee, x.Args = "(io.Writer).Write", []*vg.Term{dst, t}
				out[i] = &x
				continue
			}
		}
		if len(m) > 0 && vg.WriteDest(ev) != nil {
			x := *ev
			x.Args = append([]*vg.Term(nil), ev.Args...)
			for k := range x.Args {
				x.Args[k] = vg.Subst(x.Args[k], m)
			}
			out[i] = &x
		}
	}
	return out
}

// stdText is the text a function writes to the given global writer, seen
// through buffered writers, which must be flushed.
func (c *Ctx) stdText(s *vg.Summary, base []*vg.Loop, cond *vg.Term, isDest func(*vg.Term) bool) *vg.Term {
	bufs := map[*vg.Term]*vg.Event{}
	for _, ev := range calls(s, "bufio.NewWriter", "bufio.NewWriterSize") {
		bufs[ev.Res] = ev
	}
	used := map[*vg.Event]bool{}
	var dest func(w *vg.Term, ev *vg.Event) *vg.Term
	dest = func(w *vg.Term, ev *vg.Event) *vg.Term {
		r := vg.False
		for _, lf := range vg.Leaves(w, vg.True) {
			v := vg.Unbox(lf.Val)
			if isDest(v) {
				r = vg.Or(r, lf.Cond)
			} else if b := bufs[v]; b != nil {
				d := dest(vg.Unbox(b.Args[0]), b)
				if d != vg.False {
					used[b] = true
				}
				r = vg.Or(r, vg.And(lf.Cond, d))
			}
		}
		return r
	}
	t, err := vg.TextOf(s.E, s.Mem, spliceBuffers(s, s.Events), base, cond, dest)
	if err != nil {
		c.Ob(false, s.Fn.Pos(), "undecided: %v", err)
		return nil
	}
	for b := range used {
		fl := vg.False
		for _, ev := range calls(s, "(*bufio.Writer).Flush") {
			if ev.Args[0] == b.Res && len(ev.Loops) == len(b.Loops) {
				fl = vg.Or(fl, ev.Cond)
				at := indexOf(s.Events, ev)
				for i, w := range s.Events {
					if d := vg.WriteDest(w); d != nil && i > at && vg.Sat(vg.And(vg.And(w.Cond, ev.Cond), vg.EQ(d, b.Res))) && vg.Unbox(d) == b.Res {
						c.Ob(false, w.Pos, "nothing is written after the buffer was flushed")
					}
				}
			}
		}
		c.Ob(vg.Implies(b.Cond, fl), b.Pos, "the buffered output is flushed on every path (not when %s)", ts(vg.And(b.Cond, vg.Not(fl))))
	}
	return vg.CanonText(t)
}

// specText is the text a specification writes to its first parameter.
func (c *Ctx) specText(s *vg.Summary) *vg.Term {
	w := s.Params[0]
	t, err := vg.TextOf(s.E, s.Mem, s.Events, nil, vg.True, func(x *vg.Term, ev *vg.Event) *vg.Term {
		if vg.Unbox(x) == w {
			return vg.True
		}
		return vg.False
	})
	if err != nil {
		panic(err)
	}
	return vg.CanonText(t)
}

func isMarshal(f *ssa.Function) bool {
	return f.Pkg != nil && f.Pkg.Pkg.Path() == "encoding/json" && f.Name() == "Marshal"
}

// goesOn reports whether the loop goes on as long as its header condition
// holds and ok does.
func goesOn(l *vg.Loop, ok *vg.Term, norm func(*vg.Term) *vg.Term) bool {
	d := l.Domain()
	if d == nil {
		return false
	}
	if norm == nil {
		norm = func(t *vg.Term) *vg.Term { return t }
	}
	d = vg.And(vg.And(norm(l.EntryCond), norm(d)), vg.LE(vg.Int(0), l.Iter()))
	return vg.Implies(vg.And(d, norm(ok)), norm(l.ContCond))
}

// failed is the condition that a call in a round of l reports an error.
func failed(s *vg.Summary, l *vg.Loop) *vg.Term {
	r := vg.False
	for _, g := range l.Exits {
		// errors of functions taken as values of their arguments
		vg.Any(g.Cond, func(x *vg.Term) bool {
			if x.Op == vg.OpExtract && x.Args[0].Op == vg.OpApp && types.Identical(x.Typ, errorType) {
				r = vg.Or(r, vg.NonNil(x))
			}
			return false
		})
	}
	for _, ev := range s.Events {
		n := len(ev.Loops)
		switch {
		case ev.Kind == vg.EvCall && n > 0 && ev.Loops[n-1] == l && ev.Res != nil && ev.Res.Typ != nil:
			res := ev.Res
			if tu, ok := res.Typ.(*types.Tuple); ok {
				if tu.Len() == 0 || !types.Identical(tu.At(tu.Len()-1).Type(), errorType) {
					continue
				}
				if tu.Len() > 1 {
					res = vg.Extract(res, tu.Len()-1, errorType)
				}
			} else if !types.Identical(res.Typ, errorType) {
				continue
			}
			r = vg.Or(r, vg.And(ev.Cond, vg.NonNil(res)))
		case ev.Kind == vg.EvLoop && ev.Loop.Parent == l:
			in := ev.Loop
			bad := failed(s, in)
			for _, g := range in.Exits {
				if !g.Header && vg.Implies(vg.And(in.EntryCond, g.Cond), bad) {
					r = vg.Or(r, vg.And(in.EntryCond, g.E))
				}
			}
		}
	}
	return r
}

// noExits assumes that no loop is left because of an error.
func noExits(s *vg.Summary, cond *vg.Term, depth int) *vg.Term {
	r := vg.True
	seen := map[*vg.Loop]bool{}
	for _, ev := range s.Events {
		for i, l := range ev.Loops {
			if i < depth || seen[l] {
				continue
			}
			seen[l] = true
			bad := failed(s, l)
			for _, g := range l.Exits {
				if !g.Header && vg.Implies(vg.And(l.EntryCond, g.Cond), bad) {
					r = vg.And(r, vg.Not(g.E))
				}
			}
		}
	}
	return vg.And(cond, r)
}

func runTokenize(c *Ctx, r *cli, v *vg.Term) {
	s := r.s
	sd := c.cmdSpec(nil, "AnyDict", r.val("dict"), r.val("sysdict"), r.val("simple"))
	tok, have, ok := c.cmdTokenizer(r, v, vg.BoolOf(sd.Ret[1]), sd.Ret[0], "udict")
	if !ok {
		return
	}
	l, in, text := c.scanning(r, have, r.val("split"))
	if l == nil {
		return
	}
	an := c.analysis(r.s, tok, "Analyze", text, r.val("mode"), l, in, "CmdMode")
	// encoding errors
	c.For("C16")
	fine := vg.True
	for _, ev := range calls(s, "encoding/json.Marshal", "(*encoding/json.Encoder).Encode") {
		err := ev.Res
		if ev.Callee == "encoding/json.Marshal" {
			err = vg.Extract(ev.Res, 1, errorType)
		}
		c.errFlow(s, ev, err, r.ret, "a token that cannot be encoded makes the command fail")
	}
	for _, g := range l.Exits {
		if !g.Header {
			fine = vg.And(fine, vg.Not(g.E))
		}
	}
	for _, ev := range calls(s, "(*bufio.Scanner).Err") {
		fine = vg.And(fine, vg.EQ(ev.Res, vg.Nil))
	}
	for _, ev := range calls(s, "os.Open") {
		fine = vg.And(fine, vg.Or(vg.Not(ev.Cond), vg.EQ(vg.Extract(ev.Res, 1, errorType), vg.Nil)))
	}
	c.succeeds(r, vg.And(fine, have))
	if an == nil {
		return
	}
	// output
	c.For("C18")
	s2 := c.cmdEval(s.Fn, isMarshal)
	r2 := c.cli(s2)
	a2 := calls(s2, "(tokenizer.Tokenizer).Analyze")
	if r2 == nil || !c.Ob(len(a2) == 1 && len(a2[0].Loops) == 1, s.Fn.Pos(), "undecided: one analysis per line") {
		return
	}
	out := func(w *vg.Term) bool { return isGlobalLoad(w, modPath+"/cmd/tokenize.Stdout") }
	cond := noExits(s2, a2[0].Cond, 1)
	t := c.stdText(s2, a2[0].Loops, cond, out)
	if t == nil {
		return
	}
	w := vg.NewFree("w", nil)
	js := r2.val("json")
	c.sameText(s2, t, c.specText(c.cmdSpec(isMarshal, "PlainTokens", w, a2[0].Res)), vg.And(cond, vg.Not(js)), "plain output is one line per token except BOS/EOS and EOS")
	c.sameText(s2, t, c.specText(c.cmdSpec(isMarshal, "JSONTokens", w, a2[0].Res)), vg.And(cond, js), "JSON output is one array of the tokens except BOS/EOS")
	// nothing else is printed
	rest, err := vg.Text(s2.Events, nil, vg.True, func(x *vg.Term, ev *vg.Event) *vg.Term {
		if len(ev.Loops) == 0 && out(vg.Unbox(x)) {
			return vg.True
		}
		return vg.False
	})
	c.Ob(err == nil && len(rest.Args) == 0, s.Fn.Pos(), "nothing else is printed")
}

func (c *Ctx) sameText(s *vg.Summary, got, want, cond *vg.Term, what string) {
	d, x, y := vg.TextDiff(vg.Restrict(got, cond), vg.Restrict(want, cond), cond)
	at, g, w := "", "", ""
	if d != nil {
		at, g, w = ts(d), ts(x), ts(y)
	}
	c.Ob(vg.Sat(cond), s.Fn.Pos(), "undecided: %s: nothing is printed without an error", what)
	c.Ob(d == nil, s.Fn.Pos(), "%s (prints %s, expected %s, when %s)", what, g, w, at)
}

func anProps(modes string) []string {
	switch modes {
	case "APIMode":
		return []string{"C05", "C19"}
	case "DemoMode":
		return []string{"C05", "C20"}
	}
	return []string{"C05", "C17", "C18"}
}

// analysis checks the one analysis of a round.
func (c *Ctx) analysis(s *vg.Summary, tok *vg.Term, method string, text, mode *vg.Term, l *vg.Loop, in *vg.Term, modes string) *vg.Event {
	c.For(anProps(modes)...)
	as := calls(s, "(tokenizer.Tokenizer)."+method)
	n := 0
	if l != nil {
		n = 1
	}
	if !c.Ob(len(as) == 1 && len(as[0].Loops) == n && (l == nil || as[0].Loops[0] == l), s.Fn.Pos(), "the text is analysed once (found %d places)", len(as)) {
		return nil
	}
	an := as[0]
	k := len(an.Args) - 1
	c.Ob(an.Args[k-1] == text, an.Pos, "the text analysed is the one read (got %s)", ts(an.Args[k-1]))
	c.Ob(vg.Implies(in, an.Cond), an.Pos, "every text is analysed (skipped when %s)", ts(vg.And(in, vg.Not(an.Cond))))
	want := s.E.Load(vg.BaseMem(), tok, c.namedType(tokPkg, "Tokenizer"))
	c.Ob(an.Args[0] == want || an.Args[0] == tok, an.Pos, "the text is analysed by the tokenizer of this command (got %s)", ts(an.Args[0]))
	sm := c.spec(modes, mode)
	c.Ob(vg.SameUnder(an.Cond, an.Args[k], sm.Ret[0]), an.Pos, "the analysis mode is the one named (got %s)", ts(vg.Restrict(an.Args[k], an.Cond)))
	return an
}

func runSentence(c *Ctx, r *cli, v *vg.Term) {
	s := r.s
	l, in, text := c.scanning(r, v, vg.True)
	if l == nil {
		return
	}
	c.For("C18")
	cond := noExits(s, in, 1)
	t := c.stdText(s, []*vg.Loop{l}, cond, func(w *vg.Term) bool { return isGlobalLoad(w, modPath+"/cmd/sentence.Stdout") })
	if t != nil {
		c.sameText(s, t, vg.CanonText(vg.MkText(text, vg.Str("\n"))), cond, "each sentence is printed on its own line")
	}
	fine := vg.True
	for _, ev := range calls(s, "(*bufio.Scanner).Err") {
		fine = vg.And(fine, vg.EQ(ev.Res, vg.Nil))
	}
	for _, ev := range calls(s, "os.Open") {
		fine = vg.And(fine, vg.Or(vg.Not(ev.Cond), vg.EQ(vg.Extract(ev.Res, 1, errorType), vg.Nil)))
	}
	c.succeeds(r, vg.And(fine, v))
}

func runLattice(c *Ctx, r *cli, v *vg.Term) {
	s := r.s
	sd := c.cmdSpec(nil, "SysDict", r.val("dict"))
	tok, have, ok := c.cmdTokenizer(r, v, vg.BoolOf(sd.Ret[1]), sd.Ret[0], "udict")
	if !ok {
		return
	}
	// the output
	c.For("C16", "C17")
	opens := calls(s, "os.OpenFile", "os.Create", "os.Open")
	if !c.Ob(len(opens) == 1 && len(opens[0].Loops) == 0, s.Fn.Pos(), "undecided: the output file is opened at one place (found %d)", len(opens)) {
		return
	}
	op := opens[0]
	c.Ob(vg.SameUnder(op.Cond, op.Args[0], r.val("output")), op.Pos, "the file opened is the one named by -output")
	c.Ob(vg.Equiv(op.Cond, vg.And(have, r.set("output"))), op.Pos, "an output file is opened exactly when one is named (opened when %s)", ts(op.Cond))
	if op.Callee != "os.Create" {
		fl := int64(-1)
		if op.Callee == "os.OpenFile" && op.Args[1].IsInt() {
			fl = op.Args[1].C
		}
		c.Ob(fl >= 0 && (fl&3 == 1 || fl&3 == 2) && fl&0x40 != 0 && fl&0x200 != 0 && fl&0x80 == 0 && fl&0x400 == 0, op.Pos, "the output file is created or replaced (flags %s)", ts(op.Args[1]))
	}
	err := vg.Extract(op.Res, 1, errorType)
	file := vg.Extract(op.Res, 0, op.Res.Typ.(*types.Tuple).At(0).Type())
	c.For("C16")
	c.errFlow(s, op, err, r.ret, "an output file that cannot be opened makes the command fail")
	c.closed(s, op)
	fine := vg.Or(vg.Not(op.Cond), vg.EQ(err, vg.Nil))
	ready := vg.And(have, fine)
	for _, ev := range calls(s, "(*os.File).Close") {
		c.errFlow(s, ev, ev.Res, r.ret, "an output file that cannot be completed makes the command fail")
		fine = vg.And(fine, vg.Or(vg.Not(ev.Cond), vg.EQ(ev.Res, vg.Nil)))
	}
	// the input is the arguments joined
	text := vg.Pure("strings.Join", types.Typ[types.String], r.args, vg.Str(" "))
	an := c.analysis(s, tok, "AnalyzeGraph", text, r.val("mode"), nil, ready, "CmdMode")
	if an == nil {
		return
	}
	c.For("C16", "C17")
	w := vg.Unbox(an.Args[1])
	var buf *vg.Event
	for _, ev := range calls(s, "bufio.NewWriter", "bufio.NewWriterSize") {
		if ev.Res == w {
			buf = ev
		}
	}
	if c.Ob(buf != nil, an.Pos, "the graph is written through a buffer that remembers write errors") {
		out := vg.Unbox(buf.Args[0])
		good := true
		for _, lf := range vg.Leaves(out, buf.Cond) {
			cc := vg.And(buf.Cond, lf.Cond)
			if lf.Val == file {
				good = good && vg.Implies(cc, r.set("output"))
			} else {
				good = good && isGlobalLoad(lf.Val, modPath+"/cmd/lattice.Stdout") && vg.Implies(cc, vg.Not(r.set("output")))
			}
		}
		c.Ob(good, buf.Pos, "the graph goes to the named file, or to the standard output (got %s)", ts(out))
		flushed := vg.False
		for _, ev := range calls(s, "(*bufio.Writer).Flush") {
			if ev.Args[0] != w || indexOf(s.Events, ev) < indexOf(s.Events, an) {
				continue
			}
			flushed = vg.Or(flushed, ev.Cond)
			c.For("C16")
			c.errFlow(s, ev, ev.Res, r.ret, "a write error makes the command fail")
			fine = vg.And(fine, vg.Or(vg.Not(ev.Cond), vg.EQ(ev.Res, vg.Nil)))
			for _, cl := range calls(s, "(*os.File).Close") {
				c.Ob(indexOf(s.Events, cl) > indexOf(s.Events, ev), cl.Pos, "the file is closed after the graph was flushed")
			}
		}
		c.For("C16", "C17")
		c.Ob(vg.Implies(an.Cond, flushed), an.Pos, "the graph is flushed")
	}
	c.succeeds(r, vg.And(fine, have))
	// verbose output
	c.For("C18", "C17")
	noErr := vg.And(an.Cond, fine)
	t := c.stdText(s, nil, noErr, func(w *vg.Term) bool { return isGlobalLoad(w, modPath+"/cmd/lattice.Stderr") })
	if t == nil {
		return
	}
	vb := r.val("v")
	c.sameText(s, t, c.specText(c.cmdSpec(nil, "VerboseTokens", vg.NewFree("w", nil), an.Res)), vg.And(noErr, vb), "-v prints the tokens after BOS")
	c.sameText(s, t, vg.CanonText(vg.MkText()), vg.And(noErr, vg.Not(vb)), "tokens are printed only with -v")
}

func runServer(c *Ctx, r *cli, v *vg.Term) {
	sd := c.cmdSpec(nil, "SysDict", r.val("dict"))
	tok, have, ok := c.cmdTokenizer(r, v, vg.BoolOf(sd.Ret[1]), sd.Ret[0], "userdict")
	if !ok {
		return
	}
	c.serverLife(r, tok, have)
}

var subcommands = []string{"tokenize", "server", "lattice", "sentence"}

func ruleMain(c *Ctx) {
	c.For("C16", "C17")
	fn := c.fn("main.main")
	c.In(fn)
	closed := func(f *ssa.Function) bool {
		return exported(f) && f.Pkg != nil && (strings.HasPrefix(f.Pkg.Pkg.Path(), modPath+"/") || f.Pkg.Pkg.Path() == modPath && f.Name() == "ShowVersion")
	}
	e := vg.NewEval(c.R.Prog, IsRepo, closed)
	e.Unroll = 16
	s := e.RunAfter(fn.Pkg.Func("init"), fn)
	c.touch(s)
	for _, p := range s.E.Problems {
		c.Ob(false, fn.Pos(), "undecided: %s", p)
	}
	isArgs := func(t *vg.Term, from int64) bool {
		return t.Op == vg.OpSlice && isGlobalLoad(t.Args[0], "os.Args") && t.Args[1].IsConst(from) && t.Args[2] == vg.Len(t.Args[0])
	}
	var osArgs *vg.Term
	for _, ev := range s.Events {
		for _, a := range append([]*vg.Term{ev.Cond}, ev.Args...) {
			if a != nil {
				vg.Any(a, func(x *vg.Term) bool {
					if osArgs == nil && isGlobalLoad(x, "os.Args") {
						osArgs = x
					}
					return false
				})
			}
		}
	}
	if !c.Ob(osArgs != nil, fn.Pos(), "the command line is looked at") {
		return
	}
	has := vg.Not(vg.LE(vg.Len(osArgs), vg.Int(1)))
	arg1 := s.E.Load(vg.BaseMem(), vg.ElemAddr(osArgs, vg.Int(1), types.Typ[types.String]), types.Typ[types.String])
	named := map[string]*vg.Term{}
	none := vg.True
	for _, n := range append([]string{"version"}, subcommands...) {
		named[n] = vg.And(has, vg.EQ(arg1, vg.Str(n)))
		none = vg.And(none, vg.Not(named[n]))
	}
	// the default command checks its options first
	opts := calls(s, "cmd/tokenize.OptionCheck")
	usable := vg.False
	c.For("C17")
	if c.Ob(len(opts) == 1, fn.Pos(), "undecided: the options of the default command are checked at one place (found %d)", len(opts)) {
		oc := opts[0]
		c.Ob(vg.Equiv(oc.Cond, none), oc.Pos, "tokenize is the default when no subcommand is named (when %s)", ts(oc.Cond))
		c.Ob(isArgs(oc.Args[0], 1), oc.Pos, "without a subcommand every argument is an option (got %s)", ts(oc.Args[0]))
		usable = vg.And(none, vg.EQ(oc.Res, vg.Nil))
	}
	ran, failed := vg.False, vg.And(none, vg.Not(usable))
	type runErr struct {
		ev  *vg.Event
		bad *vg.Term
	}
	var errs []runErr
	for _, n := range subcommands {
		want := named[n]
		got, gotDef := vg.False, vg.False
		for _, ev := range calls(s, "cmd/"+n+".Run") {
			c.For("C17")
			k := len(ev.Args) - 1
			for _, lf := range vg.Leaves(ev.Args[k], ev.Cond) {
				cc := vg.And(ev.Cond, lf.Cond)
				switch {
				case isArgs(lf.Val, 2):
					got = vg.Or(got, cc)
				case isArgs(lf.Val, 1) && n == "tokenize":
					gotDef = vg.Or(gotDef, cc)
				default:
					c.Ob(false, ev.Pos, "%s gets the arguments after its name (got %s)", n, ts(lf.Val))
				}
			}
			ran = vg.Or(ran, ev.Cond)
			bad := vg.And(ev.Cond, vg.NonNil(ev.Res))
			failed = vg.Or(failed, bad)
			errs = append(errs, runErr{ev, bad})
		}
		c.For("C17")
		c.Ob(vg.Equiv(got, want), fn.Pos(), "%q runs its command (run when %s)", n, ts(got))
		if n == "tokenize" {
			c.Ob(vg.Equiv(gotDef, usable), fn.Pos(), "without a subcommand, usable options run tokenize (run when %s)", ts(gotDef))
		}
	}
	shown := vg.False
	for _, ev := range calls(s, shortFn(c.fn("main.ShowVersion"))) {
		shown = vg.Or(shown, ev.Cond)
	}
	c.Ob(vg.Equiv(shown, named["version"]), fn.Pos(), "\"version\" shows the version (shown when %s)", ts(shown))
	for _, ev := range s.Events {
		if ev.Kind == vg.EvCall && ev.Static != nil && strings.HasPrefix(shortFn(ev.Static), "cmd/") && ev.Static.Name() == "Run" {
			n := strings.TrimSuffix(strings.TrimPrefix(shortFn(ev.Static), "cmd/"), ".Run")
			c.Ob(named[n] != nil, ev.Pos, "the commands are the documented ones (found %s)", n)
		}
	}
	// exit status
	c.For("C16")
	exits := vg.False
	for _, ev := range calls(s, "os.Exit") {
		c.Ob(ev.Args[0].IsInt() && ev.Args[0].C != 0 && ev.Args[0].C&0xff == ev.Args[0].C, ev.Pos, "the exit status of a failure is not zero (got %s)", ts(ev.Args[0]))
		exits = vg.Or(exits, ev.Cond)
	}
	c.Ob(vg.Implies(failed, exits), fn.Pos(), "a failing command makes the process exit with a non-zero status (not when %s)", ts(vg.And(failed, vg.Not(exits))))
	c.Ob(vg.Implies(exits, failed), fn.Pos(), "the process fails only when its command failed (also when %s)", ts(vg.And(exits, vg.Not(failed))))
	c.Ob(vg.Implies(s.Cond, vg.Not(failed)) && vg.Implies(vg.Not(failed), s.Cond), fn.Pos(), "the process ends normally exactly when its command succeeded")
	for _, x := range errs {
		t, err := vg.Text(s.Events, nil, x.bad, func(w *vg.Term, ev *vg.Event) *vg.Term {
			if isGlobalLoad(vg.Unbox(w), "os.Stderr") {
				return vg.True
			}
			return vg.False
		})
		good := err == nil && t != nil && vg.Sat(x.bad)
		if good {
			for _, lf := range vg.Leaves(t, x.bad) {
				good = good && vg.Any(lf.Val, func(y *vg.Term) bool { return y == x.ev.Res })
			}
		}
		c.Ob(good, x.ev.Pos, "the error of the command is printed")
	}
}
