package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"io"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"

	"kcheck/vg"
)

var bytesType = types.NewSlice(types.Typ[types.Byte])

func init() {
	register("api", "C05 C19", "the tokenize endpoint: one response per request, its status and its body as JSON", ruleAPI)
}

// fieldByTag finds a field of a struct by its JSON name.
func fieldByTag(t types.Type, name string) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if jsonName(st, i) == name {
			return i
		}
	}
	return -1
}

func jsonName(st *types.Struct, i int) string {
	tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]
	if tag == "" {
		return st.Field(i).Name()
	}
	return tag
}

// derefs gives the struct a pointer points to.
func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// jsonVal is a JSON document with leaves that are values of the program.
type jsonLeaf struct {
	x   *vg.Term // the value given to Marshal
	mem *vg.Mem
}

// jsonDoc reads a text as one JSON document.
func jsonDoc(s *vg.Summary, text *vg.Term) (any, error) {
	if !vg.IsContent(text) {
		return nil, fmt.Errorf("not a text")
	}
	var leaves []jsonLeaf
	doc := ""
	for _, seg := range text.Args {
		if seg.Op != vg.OpSeqLit {
			return nil, fmt.Errorf("a variable number of parts")
		}
		for _, p := range seg.Args {
			if p.IsStr() {
				doc += p.Str()
				continue
			}
			var leaf *jsonLeaf
			for _, ev := range s.Events {
				if ev.Kind == vg.EvCall && (ev.Callee == "encoding/json.Marshal" && p == vg.Extract(ev.Res, 0, bytesType) || ev.Callee == "(*encoding/json.Encoder).Encode" && p == vg.Pure("json!", nil, ev.Res)) {
					leaf = &jsonLeaf{ev.Args[len(ev.Args)-1], ev.Mem}
				}
			}
			if leaf == nil {
				return nil, fmt.Errorf("%s is not JSON", ts(p))
			}
			doc += fmt.Sprintf("\"\\u0000%d\"", len(leaves))
			leaves = append(leaves, *leaf)
		}
	}
	d := json.NewDecoder(strings.NewReader(doc))
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("more than one document")
	}
	var rec func(v any) any
	rec = func(v any) any {
		switch x := v.(type) {
		case map[string]any:
			for k := range x {
				x[k] = rec(x[k])
			}
		case string:
			var n int
			if strings.HasPrefix(x, "\x00") {
				fmt.Sscan(x[1:], &n)
				return expandJSON(s, leaves[n])
			}
		}
		return v
	}
	return rec(v), nil
}

func expandJSON(s *vg.Summary, l jsonLeaf) any {
	x := l.x
	if x.Op != vg.OpIface {
		return l
	}
	t, v := x.Typ, x.Args[0]
	if t == nil {
		return l
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		v = s.E.Load(l.mem, v, p.Elem())
		t = p.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		r := map[string]any{}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Exported() {
				r[jsonName(st, i)] = jsonLeaf{structField(v, t, i), l.mem}
			}
		}
		return r
	}
	return jsonLeaf{v, l.mem}
}

// jsonBool is the truth of a JSON value.
func jsonBool(v any, want bool) bool {
	switch x := v.(type) {
	case bool:
		return x == want
	case jsonLeaf:
		return x.x == vg.False && !want || x.x == vg.True && want
	}
	return false
}

type response struct {
	c    *Ctx
	s    *vg.Summary
	w    *vg.Term
	evs  []*vg.Event // with encoders seen as writers
	docs map[*vg.Term]any
}

func (c *Ctx) response(s *vg.Summary, w *vg.Term) *response {
	r := &response{c: c, s: s, w: w}
	enc := map[*vg.Term]*vg.Term{}
	for _, ev := range s.Events {
		if ev.Kind == vg.EvCall && ev.Callee == "encoding/json.NewEncoder" {
			enc[ev.Res] = ev.Args[0]
		}
		if ev.Kind == vg.EvCall && ev.Callee == "(*encoding/json.Encoder).Encode" && enc[ev.Args[0]] != nil {
			x := *ev
			x.Callee = "(io.Writer).Write"
			x.Args = []*vg.Term{enc[ev.Args[0]], vg.Pure("json!", nil, ev.Res)}
			ev = &x
		}
		r.evs = append(r.evs, ev)
	}
	r.evs = spliceBuffers(r.s, r.evs)
	return r
}

func (r *response) isW(x *vg.Term, ev *vg.Event) *vg.Term {
	if vg.Unbox(x) == r.w {
		return vg.True
	}
	return vg.False
}

// bodies are the possible bodies under cond.
func (r *response) bodies(cond *vg.Term) ([]vg.Leaf, error) {
	t, err := vg.Text(r.evs, nil, cond, r.isW)
	if err != nil {
		return nil, err
	}
	return vg.Leaves(vg.CanonText(t), cond), nil
}

// status checks that under cond the response has one of the given codes.
func (r *response) status(cond *vg.Term, ok func(code int64) bool) bool {
	explicit := vg.False
	implicit := vg.False // a body was written without a status
	for _, ev := range r.evs {
		if ev.Kind != vg.EvCall || !vg.Sat(vg.And(ev.Cond, cond)) {
			continue
		}
		var code *vg.Term
		switch {
		case ev.Callee == "net/http.Error" && vg.Unbox(ev.Args[0]) == r.w:
			code = ev.Args[2]
		case ev.Callee == "(net/http.ResponseWriter).WriteHeader" && vg.Unbox(ev.Args[0]) == r.w:
			code = ev.Args[1]
		case vg.WriteDest(ev) != nil && vg.Unbox(vg.WriteDest(ev)) == r.w:
			implicit = vg.Or(implicit, vg.And(ev.Cond, vg.Not(explicit)))
			continue
		default:
			continue
		}
		if !code.IsInt() || !ok(code.C) || vg.Sat(vg.And(cond, vg.And(ev.Cond, implicit))) {
			return false
		}
		explicit = vg.Or(explicit, ev.Cond)
	}
	return ok(200) || vg.Implies(cond, explicit)
}

func ruleAPI(c *Ctx) {
	c.For("C05", "C19")
	fn := c.fn("cmd/server.TokenizeHandler.ServeHTTP")
	s := c.cmdEval(fn, nil)
	h, w, req := s.Params[0], s.Params[1], s.Params[2]
	r := c.response(s, w)
	c.For("C19")
	for _, ev := range s.Events {
		if ev.Kind == vg.EvPanic || ev.Kind == vg.EvCall && (ev.Callee == "os.Exit" || strings.HasPrefix(ev.Callee, "log.Fatal") || strings.HasPrefix(ev.Callee, "log.Panic")) {
			c.Ob(false, ev.Pos, "every request is answered")
		}
		if vg.WriteDest(ev) != nil && vg.Unbox(vg.WriteDest(ev)) == w || ev.Kind == vg.EvCall && ev.Callee == "(net/http.ResponseWriter).WriteHeader" {
			c.Ob(len(ev.Loops) == 0 && ev.GoDepth == 0, ev.Pos, "the response is written once, by the handler")
		}
	}
	// the request body
	decs := calls(s, "(*encoding/json.Decoder).Decode", "encoding/json.Unmarshal")
	if !c.Ob(len(decs) == 1 && decs[0].Callee == "(*encoding/json.Decoder).Decode" && decs[0].Cond == vg.True && len(decs[0].Loops) == 0, fn.Pos(), "undecided: the request is decoded at one place (found %d)", len(decs)) {
		return
	}
	dec := decs[0]
	body := s.E.Load(vg.BaseMem(), vg.FAddr(req, deref(fn.Params[2].Type()), fieldByName(deref(fn.Params[2].Type()), "Body")), fieldType(deref(fn.Params[2].Type()), "Body"))
	src := vg.False
	for _, ev := range calls(s, "encoding/json.NewDecoder") {
		if ev.Res == dec.Args[0] {
			if vg.Unbox(ev.Args[0]) == body {
				src = vg.True
			}
		}
	}
	c.Ob(src == vg.True, dec.Pos, "the request decoded is the body of this one, all of it")
	for _, ev := range calls(s, "(*encoding/json.Decoder).DisallowUnknownFields", "(*encoding/json.Decoder).Token", "(*encoding/json.Decoder).More", "(*encoding/json.Decoder).Buffered") {
		if ev.Args[0] == dec.Args[0] && (indexOf(s.Events, ev) < indexOf(s.Events, dec) || strings.HasSuffix(ev.Callee, "Fields")) {
			c.Ob(false, ev.Pos, "requests are decoded leniently and from their beginning (%s)", ev.Callee)
		}
	}
	tgt := dec.Args[1]
	if !c.Ob(tgt.Op == vg.OpIface && tgt.Typ != nil, dec.Pos, "undecided: the request is decoded into a structure") {
		return
	}
	rt := deref(tgt.Typ)
	si, mi := fieldByTag(rt, "sentence"), fieldByTag(rt, "mode")
	if !c.Ob(si >= 0 && mi >= 0, dec.Pos, "a request has a sentence and a mode") {
		return
	}
	load := func(i int) *vg.Term {
		return s.E.Load(dec.After, vg.FAddr(tgt.Args[0], rt, i), types.Typ[types.String])
	}
	in, mode := load(si), load(mi)
	derr := vg.NonNil(dec.Res)
	empty := vg.EQ(in, vg.Str(""))
	// an undecodable body
	isErr := func(v any, err *vg.Term) bool {
		l, ok := v.(jsonLeaf)
		if !ok {
			return false
		}
		for _, ev := range calls(s, "(error).Error") {
			if (err == nil || ev.Args[0] == err) && vg.Unbox(l.x) == ev.Res {
				return true
			}
		}
		return false
	}
	r.check(derr, "an undecodable request", func(code int64) bool { return code == 400 }, func(d map[string]any, cond *vg.Term) string {
		if !jsonBool(d["status"], false) || !isErr(d["error"], dec.Res) {
			return "has status=false and the error"
		}
		return ""
	})
	// analysis
	ok := vg.And(vg.Not(derr), vg.Not(empty))
	th := deref(fn.Params[0].Type())
	ti := fieldByType(th, "*"+modPath+"/"+tokPkg+".Tokenizer")
	if !c.Ob(ti >= 0, fn.Pos(), "the handler has a tokenizer") {
		return
	}
	tok := s.E.Load(vg.BaseMem(), vg.FAddr(h, th, ti), th.Underlying().(*types.Struct).Field(ti).Type())
	an := c.analysis(s, tok, "Analyze", in, mode, nil, ok, "APIMode")
	if an == nil {
		return
	}
	c.For("C19")
	// an encoding fails only for values JSON has no text for
	merr, anyErr := vg.False, vg.False
	for _, ev := range calls(s, "encoding/json.Marshal", "(*encoding/json.Encoder).Encode") {
		e := ev.Res
		if ev.Callee == "encoding/json.Marshal" {
			e = vg.Extract(ev.Res, 1, errorType)
		}
		e = vg.And(ev.Cond, vg.NonNil(e))
		anyErr = vg.Or(anyErr, e)
		if x := ev.Args[len(ev.Args)-1]; x.Op == vg.OpIface && x.Typ != nil && encodable(x.Typ, nil) {
			continue
		}
		merr = vg.Or(merr, e)
	}
	list := c.cmdSpec(nil, "TokenList", an.Res)
	lt := c.namedType(tokPkg, "TokenData")
	same := func(l jsonLeaf, cond *vg.Term) bool {
		if !vg.Sat(vg.And(cond, an.Cond)) {
			return false
		}
		good, _, _, _ := vg.SameContent(vg.And(cond, an.Cond), s.E, s.Mem, l.x, list.E, list.Mem, list.Ret[0], lt)
		return good && vg.Implies(cond, an.Cond)
	}
	is200 := func(code int64) bool { return code == 200 }
	r.check(vg.And(vg.And(vg.Not(derr), empty), vg.Not(anyErr)), "an empty sentence", is200, func(d map[string]any, cond *vg.Term) string {
		if !jsonBool(d["status"], true) {
			return "has status=true"
		}
		if a, ok := d["tokens"].([]any); ok && len(a) == 0 {
			return ""
		}
		if l, ok := d["tokens"].(jsonLeaf); ok && vg.Implies(cond, vg.NonNil(l.x)) && (same(l, cond) || vg.Implies(cond, vg.EQ(vg.Len(l.x), vg.Int(0)))) {
			return ""
		}
		return "has an empty list of tokens, not null"
	})
	r.check(vg.And(ok, vg.Not(anyErr)), "a sentence", is200, func(d map[string]any, cond *vg.Term) string {
		if !jsonBool(d["status"], true) {
			return "has status=true"
		}
		if l, isl := d["tokens"].(jsonLeaf); isl && same(l, cond) {
			return ""
		}
		return "has one entry per token that is not BOS or EOS, in order"
	})
	if vg.Sat(merr) {
		r.check(merr, "a result that cannot be encoded", func(code int64) bool { return code >= 400 }, func(d map[string]any, cond *vg.Term) string {
			if !jsonBool(d["status"], false) || !isErr(d["error"], nil) {
				return "has status=false and the error"
			}
			return ""
		})
	}
	c.Ob(s.Cond == vg.True, fn.Pos(), "every request is answered")
}

// encodable reports whether every value of a type has a JSON text.
func encodable(t types.Type, seen []types.Type) bool {
	for _, x := range seen {
		if types.Identical(x, t) {
			return false
		}
	}
	seen = append(seen, t)
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		ms := types.NewMethodSet(x)
		for i := 0; i < ms.Len(); i++ {
			if n := ms.At(i).Obj().Name(); n == "MarshalJSON" || n == "MarshalText" {
				return false
			}
		}
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Info()&(types.IsBoolean|types.IsString|types.IsInteger) != 0
	case *types.Slice:
		return encodable(x.Elem(), seen)
	case *types.Array:
		return encodable(x.Elem(), seen)
	case *types.Pointer:
		return encodable(x.Elem(), seen)
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if x.Field(i).Exported() && !encodable(x.Field(i).Type(), seen) {
				return false
			}
		}
		return true
	}
	return false
}

// check: under cond there is one response, with an accepted status and a body
// that is one JSON object accepted by want.
func (r *response) check(cond *vg.Term, what string, code func(int64) bool, want func(map[string]any, *vg.Term) string) {
	c := r.c
	pos := r.s.Fn.Pos()
	if !c.Ob(vg.Sat(cond), pos, "undecided: %s never occurs", what) {
		return
	}
	c.Ob(r.status(cond, code), pos, "the response to %s has the right status", what)
	ls, err := r.bodies(cond)
	if !c.Ob(err == nil, pos, "undecided: the response to %s: %v", what, err) {
		return
	}
	for _, lf := range ls {
		cc := vg.And(cond, lf.Cond)
		d, err := jsonDoc(r.s, lf.Val)
		if !c.Ob(err == nil, pos, "the response to %s is one JSON document (%v; body %s)", what, err, ts(lf.Val)) {
			continue
		}
		m, ok := d.(map[string]any)
		if c.Ob(ok, pos, "the response to %s is a JSON object", what) {
			bad := want(m, cc)
			c.Ob(bad == "", pos, "the response to %s %s (body %s)", what, bad, ts(lf.Val))
		}
	}
}

var _ ssa.Value

func fieldType(t types.Type, name string) types.Type {
	return t.Underlying().(*types.Struct).Field(fieldByName(t, name)).Type()
}

// timed reports whether ctx ends after a fixed time, and the contexts it
// derives from.
func timed(s *vg.Summary, ctx *vg.Term) (bool, []*vg.Term) {
	var from []*vg.Term
	fixed := false
	for n := 0; n < 16; n++ {
		from = append(from, ctx)
		var next *vg.Term
		for _, ev := range calls(s, "context.WithTimeout", "context.WithTimeoutCause", "context.WithCancel", "context.WithCancelCause", "context.WithDeadline", "context.WithValue", "os/signal.NotifyContext") {
			r := ev.Res
			if ev.Callee != "context.WithValue" {
				r = vg.Extract(ev.Res, 0, nil)
			}
			if r != ctx && ev.Res != ctx && !(ctx.Op == vg.OpExtract && ctx.Args[0] == ev.Res && ctx.N == 0) {
				continue
			}
			next = ev.Args[0]
			if strings.HasPrefix(ev.Callee, "context.WithTimeout") && ev.Args[1].IsInt() && ev.Args[1].C > 0 && ev.Args[1].C <= int64(10*60)*1e9 {
				fixed = true
			}
		}
		if next == nil {
			break
		}
		ctx = next
	}
	return fixed, from
}

// derives reports whether ctx ends no later than base.
func derives(s *vg.Summary, ctx, base *vg.Term) bool {
	_, from := timed(s, ctx)
	for _, x := range from {
		if x == base {
			return true
		}
	}
	return false
}

// released checks that every context with resources is released on every path.
func (c *Ctx) released(s *vg.Summary) {
	for _, ev := range calls(s, "context.WithTimeout", "context.WithCancel", "context.WithDeadline", "os/signal.NotifyContext") {
		done := vg.False
		for _, x := range s.Events {
			if x.Kind == vg.EvCall && x.Callee == "dynamic" && x.Args[0].Op == vg.OpExtract && x.Args[0].N == 1 && x.Args[0].Args[0] == ev.Res {
				done = vg.Or(done, x.Cond)
			}
		}
		c.Ob(vg.Implies(vg.And(ev.Cond, s.Cond), done), ev.Pos, "what %s started is released on every path", ev.Callee)
	}
}

// doneOf is the condition of having seen the end of a context accepted by ok.
func doneOf(s *vg.Summary, ev *vg.Event, ok func(ctx *vg.Term) bool) *vg.Term {
	r := vg.False
	for _, d := range calls(s, "(context.Context).Done") {
		if ok(d.Args[0]) {
			r = vg.Or(r, recvCond(ev, d.Res))
		}
	}
	return r
}

// sent are the values sent to a channel, when it has room for them all.
func sent(s *vg.Summary, ch *vg.Term) (vals []*vg.Event, room bool) {
	n := int64(0)
	for _, ev := range s.Events {
		if ev.Kind == vg.EvSend && ev.Addr == ch {
			vals = append(vals, ev)
			n++
			if len(ev.Loops) > 0 {
				n = 1 << 40
			}
		}
	}
	return vals, ch.Op == vg.OpMakeChan && ch.Args[0].IsInt() && ch.Args[0].C >= n
}

func (c *Ctx) serverLife(r *cli, tok, have *vg.Term) {
	s := r.s
	pos := s.Fn.Pos()
	c.For("C17", "C19", "C22")
	lis := calls(s, "(*net/http.Server).ListenAndServe")
	if !c.Ob(len(lis) == 1 && len(lis[0].Loops) == 0, pos, "undecided: the server listens at one place (found %d)", len(lis)) {
		return
	}
	li := lis[0]
	srv := li.Args[0]
	c.For("C17", "C22")
	c.Ob(vg.Implies(have, li.Cond), li.Pos, "the server is started when everything is in place")
	st := li.Static.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
	field := func(name string) *vg.Term {
		return s.E.Load(li.Mem, vg.FAddr(srv, st, fieldByName(st, name)), fieldType(st, name))
	}
	c.For("C17")
	c.Ob(vg.SameUnder(li.Cond, field("Addr"), r.val("http")), li.Pos, "the address is the one given by -http (got %s)", ts(field("Addr")))
	// routes
	c.For("C17", "C19", "C20")
	h := vg.Unbox(field("Handler"))
	routes := map[string]string{"/": "TokenizeDemoHandler", "/tokenize": "TokenizeHandler"}
	found := map[string]*vg.Term{}
	for _, ev := range calls(s, "(*net/http.ServeMux).Handle", "(*net/http.ServeMux).HandleFunc", "net/http.Handle", "net/http.HandleFunc") {
		onMux := strings.HasPrefix(ev.Callee, "(")
		if onMux && ev.Args[0] != h {
			continue
		}
		if !c.Ob(onMux && ev.Args[1].IsStr() && len(ev.Loops) == 0, ev.Pos, "undecided: the paths served are constant") {
			continue
		}
		path := ev.Args[1].Str()
		want, ok := routes[path]
		if !ok {
			continue
		}
		hd := ev.Args[2]
		recv := hd
		name := ""
		if hd.Op == vg.OpIface && hd.Typ != nil {
			recv, name = hd.Args[0], types.TypeString(deref(hd.Typ), nil)
		} else if hd.Op == vg.OpClosure || hd.Op == vg.OpFunc {
			if f, isf := hd.Fn.(*ssa.Function); isf && strings.HasPrefix(f.Name(), "ServeHTTP") && f.Signature.Recv() == nil && len(hd.Args) == 1 {
				recv = hd.Args[0]
				if f.FreeVars != nil {
					name = types.TypeString(deref(f.FreeVars[0].Type()), nil)
				}
			}
		}
		if !c.Ob(name == modPath+"/cmd/server."+want, ev.Pos, "%s is served by %s (got %s)", path, want, ts(hd)) {
			continue
		}
		ht := c.namedType("cmd/server", want)
		ti := fieldByType(ht, "*"+modPath+"/"+tokPkg+".Tokenizer")
		got := s.E.Load(ev.Mem, vg.FAddr(recv, ht, ti), ht.Underlying().(*types.Struct).Field(ti).Type())
		c.Ob(vg.SameUnder(ev.Cond, got, tok), ev.Pos, "%s uses the tokenizer of this command (got %s)", path, ts(got))
		c.Ob(indexOf(s.Events, ev) < indexOf(s.Events, li), ev.Pos, "%s is served from the start", path)
		if found[path] == nil {
			found[path] = vg.False
		}
		found[path] = vg.Or(found[path], ev.Cond)
	}
	for _, p := range []string{"/", "/tokenize"} {
		c.Ob(found[p] != nil && vg.Implies(li.Cond, found[p]), pos, "%s is served", p)
	}
	// the end
	c.For("C22")
	c.Ob(li.GoDepth > 0, li.Pos, "undecided: listening goes on beside the command")
	var ctxParam *vg.Term
	for i, p := range s.Fn.Params {
		if types.TypeString(p.Type(), nil) == "context.Context" {
			ctxParam = s.Params[i]
		}
	}
	if !c.Ob(ctxParam != nil, pos, "the command has a context") {
		return
	}
	// signals
	sig := false
	var nctx *vg.Term
	for _, ev := range calls(s, "os/signal.NotifyContext") {
		names := map[string]bool{}
		for _, a := range ev.Args[1:] {
			if a.Op == vg.OpSeqLit {
				for _, x := range a.Args {
					if x = vg.Unbox(x); isGlobalLoad(x, "os.Interrupt") {
						names["2"] = true
					} else {
						names[ts(x)] = true
					}
				}
			}
		}
		nctx = vg.Extract(ev.Res, 0, nil)
		sig = sig || vg.Implies(li.Cond, ev.Cond) && ev.Args[0] == ctxParam && (names["2"] && names["15"] || len(names) == 0)
		if c.Ob(ev.Args[0] == ctxParam, ev.Pos, "the signals end a context made from the one of the command") {
			sig = sig && c.Ob(names["2"] && names["15"] || len(names) == 0, ev.Pos, "an interrupt and a termination signal end the server (waits for %v)", sortedKeys(names))
		}
	}
	_ = nctx
	c.Ob(sig, pos, "termination signals end the server")
	base := func(ctx *vg.Term) bool {
		_, from := timed(s, ctx)
		param, signal := false, false
		for _, x := range from {
			if x == ctxParam {
				param = true
			}
			for _, ev := range calls(s, "os/signal.NotifyContext") {
				if x.Op == vg.OpExtract && x.N == 0 && x.Args[0] == ev.Res {
					signal = true
				}
			}
		}
		return param && signal
	}
	// the goroutine hands over how listening ended, and never blocks
	var ch *vg.Term
	for _, ev := range s.Events {
		if ev.Kind == vg.EvSend && ev.GoDepth > 0 {
			_, room := sent(s, ev.Addr)
			c.Ob(room, ev.Pos, "the goroutine that listens never blocks on its channel (%s)", ts(ev.Addr))
			if passes(ev.Val, li.Res) {
				ch = ev.Addr
				c.Ob(vg.Implies(li.Cond, ev.Cond) && indexOf(s.Events, ev) > indexOf(s.Events, li), ev.Pos, "how listening ended is always handed over")
			}
		}
	}
	if !c.Ob(ch != nil, li.Pos, "how listening ended is handed over to the command") {
		return
	}
	waits, ended, failed := vg.False, vg.False, vg.False
	var results []*vg.Term
	for _, ev := range s.Events {
		if ev.GoDepth > 0 || indexOf(s.Events, ev) < indexOf(s.Events, li) {
			continue
		}
		switch ev.Kind {
		case vg.EvRecv:
			c.Ob(false, ev.Pos, "the command never waits for one event alone")
		case vg.EvSelect:
			d, f := doneOf(s, ev, base), recvCond(ev, ch)
			hasD, hasF := false, false
			for i, x := range ev.Chans {
				if x == ch {
					hasF = true
					results = append(results, vg.Extract(ev.Res, 2+i-nsends(ev, i), errorType))
				}
				for _, dn := range calls(s, "(context.Context).Done") {
					if x == dn.Res && base(dn.Args[0]) {
						hasD = true
					}
				}
			}
			c.Ob(hasD && hasF && vg.Sat(d) && vg.Sat(f), ev.Pos, "the command waits for the end of its context, a signal and the end of listening at once")
			c.Ob(len(ev.Loops) == 0, ev.Pos, "undecided: the command waits in a loop")
			waits = vg.Or(waits, ev.Cond)
			ended, failed = vg.Or(ended, d), vg.Or(failed, f)
		}
	}
	c.Ob(vg.Implies(li.Cond, waits), pos, "the command waits for its end (not when %s)", ts(vg.And(li.Cond, vg.Not(waits))))
	bad := failed
	for _, x := range results {
		bad = vg.And(bad, vg.NonNil(x))
	}
	c.Ob(vg.Implies(bad, vg.NonNil(r.ret)), pos, "a listening failure is returned as an error (lost when %s)", ts(vg.And(bad, vg.EQ(r.ret, vg.Nil))))
	closed := vg.False
	for _, ev := range calls(s, "(*net/http.Server).Shutdown", "(*net/http.Server).Close") {
		if ev.Args[0] != srv || ev.GoDepth > 0 {
			continue
		}
		closed = vg.Or(closed, ev.Cond)
		if strings.HasSuffix(ev.Callee, "Shutdown") {
			fixed, _ := timed(s, ev.Args[1])
			c.Ob(fixed || base(ev.Args[1]), ev.Pos, "the shutdown does not wait for requests for ever")
			forced := vg.False
			for _, cl := range calls(s, "(*net/http.Server).Close") {
				if cl.Args[0] == srv && indexOf(s.Events, cl) > indexOf(s.Events, ev) {
					forced = vg.Or(forced, cl.Cond)
				}
			}
			c.Ob(vg.Implies(vg.And(ev.Cond, vg.NonNil(ev.Res)), forced), ev.Pos, "requests that outlast the shutdown are cut off")
		}
	}
	c.Ob(vg.Implies(vg.And(waits, ended), closed), pos, "the server stops listening when its context ends (not when %s)", ts(vg.And(vg.And(waits, ended), vg.Not(closed))))
	c.Ob(vg.Implies(vg.And(waits, vg.Not(failed)), closed), pos, "the command leaves no server behind")
	c.released(s)
}

// nsends counts the send cases before case i.
func nsends(ev *vg.Event, i int) int {
	n := 0
	for _, x := range ev.Chans[:i] {
		if x == nil {
			n++
		}
	}
	return n
}

// passes reports whether v is x or an error that wraps it, or nil only if x is.
func passes(v, x *vg.Term) bool {
	return v == x || vg.Implies(vg.NonNil(x), vg.NonNil(v)) && vg.Any(v, func(y *vg.Term) bool { return y == x })
}
