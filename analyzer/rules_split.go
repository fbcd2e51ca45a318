package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"kcheck/vg"
)

func init() {
	register("splitter", "C15", "the sentence splitter, read as a machine over the text, compared with its specification step by step", ruleSplitter)
}

func (c *Ctx) walk(fnName string, text int, spec bool, args ...*vg.Term) *vg.Summary {
	fn := c.R.Func(fnName)
	if fn == nil {
		panic(missing("no function " + fnName))
	}
	e := vg.NewEval(c.R.Prog, IsRepo, func(*ssa.Function) bool { return false })
	e.Track = args[text]
	s := e.Run(fn, args...)
	if !spec {
		c.In(fn)
		c.touch(s)
		for _, p := range s.E.Problems {
			c.Ob(false, fn.Pos(), "undecided: %s", p)
		}
	}
	return s
}

func ruleSplitter(c *Ctx) {
	c.For("C15")
	fn := c.fn("filter.SentenceSplitter.ScanSentences")
	w := c.fn("filter.ScanSentences")
	ws := c.Eval(w, c.oneOf("filter.SentenceSplitter.ScanSentences"))
	c.In(w)
	var call *vg.Event
	calls := 0
	for _, ev := range ws.Events {
		if ev.Kind == vg.EvCall {
			call = ev
			calls++
		}
	}
	if c.Ob(calls == 1 && call.Static == fn, w.Pos(), "the default splitter is a splitter") {
		ok := call.Args[1] == ws.Params[0] && call.Args[2] == ws.Params[1] && call.Cond == vg.True
		for i, r := range ws.Ret {
			ok = ok && r == vg.Extract(call.Res, i, r.Typ)
		}
		c.Ob(ok, w.Pos(), "the default splitter splits exactly the text it is given")
	}
	c.In(fn)
	self := vg.NewFree("s", fn.Params[0].Type())
	settings := self
	if ptr, ok := fn.Params[0].Type().(*types.Pointer); ok {
		e := vg.NewEval(c.R.Prog, IsRepo, nil)
		settings = e.Load(vg.BaseMem(), self, ptr.Elem())
	}
	data := vg.NewFree("data", fn.Params[1].Type())
	eof := vg.BoolOf(vg.NewFree("atEOF", fn.Params[2].Type()))
	s := c.walk("filter.SentenceSplitter.ScanSentences", 1, false, self, data, eof)
	for _, ev := range s.Events {
		var dst *vg.Term
		switch ev.Kind {
		case vg.EvStore, vg.EvCopy, vg.EvAppend:
			dst = ev.Addr
		}
		if dst == nil {
			continue
		}
		bad := vg.Any(dst, func(x *vg.Term) bool {
			mu := vg.MuOf(x)
			return x == data || mu != nil && mu.Init != nil && vg.Contains(mu.Init, data)
		})
		c.Ob(!bad, ev.Pos, "the caller's text is not written to (writes %s)", ts(dst))
	}
	compare := func(whole *vg.Term) ([]vg.Diff, int, error) {
		sp := c.walk("zz_kspec.Sentence", 1, true, settings, data, eof, whole)
		d, pairs, steps, err := vg.CompareWalks(s, sp, data)
		return d, pairs + steps, err
	}
	diffs, n, err := compare(vg.True)
	if !c.Ob(err == nil, fn.Pos(), "undecided: %v", err) {
		return
	}
	if len(diffs) > 0 {
		// the pieces of a text that is read in chunks
		rest, m, err := compare(vg.False)
		if !c.Ob(err == nil, fn.Pos(), "undecided: %v", err) {
			return
		}
		n += m
		if len(rest) == 0 {
			d := diffs[0]
			c.Ob(false, fn.Pos(), "a sentence that ends with its chunk is taken to be complete: when %s got %s, expected %s", ts(d.Cond), ts(d.A), ts(d.B))
		}
		diffs = rest
	}
	for i := 0; i < n; i++ {
		c.Ob(true, fn.Pos(), "step")
	}
	for _, d := range diffs {
		c.Ob(false, d.Pos, "%s of the splitter differs when %s: got %s, expected %s", d.What, ts(d.Cond), ts(d.A), ts(d.B))
	}
}
