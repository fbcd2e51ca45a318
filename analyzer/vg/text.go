package vg

import (
	"fmt"
	"go/types"
	"os"
	"strings"
)

// A text is what a run of a function writes to one destination, as a content
// term: literal pieces, conditional pieces, and families of pieces that a loop
// writes. Two texts with the same content are the same bytes, however the
// writes were cut up.

// Text collects what the events write to the destinations accepted by sink.
// base are the loops the caller is inside of; cond is assumed.
func Text(evs []*Event, base []*Loop, cond *Term, sink func(w *Term, ev *Event) *Term) (*Term, error) {
	return (&texter{all: evs, sink: sink}).text(evs, base, cond)
}

// TextOf is Text that also looks through the slices the function builds before
// it writes their elements.
func TextOf(e *Eval, m *Mem, evs []*Event, base []*Loop, cond *Term, sink func(w *Term, ev *Event) *Term) (*Term, error) {
	return (&texter{e: e, m: m, all: evs, sink: sink}).text(evs, base, cond)
}

type texter struct {
	e    *Eval
	m    *Mem
	all  []*Event
	sink func(w *Term, ev *Event) *Term
}

func (x *texter) text(evs []*Event, base []*Loop, cond *Term) (*Term, error) {
	seg, err := x.segs(evs, base, cond)
	if err != nil {
		return nil, err
	}
	return mkContent(seg), nil
}

// overBuilt is what a loop over the elements of a slice built here writes, by
// the elements that were appended to it.
func (x *texter) overBuilt(l *Loop, d, body, cond *Term) *Term {
	if x.e == nil {
		return nil
	}
	var seq *Term
	var elem types.Type
	it := l.Iter()
	many := false
	Any(body, func(t *Term) bool {
		if t.Op == OpIndexAddr && t.S == "" && t.Args[1] == it && (t.Args[0].Op == OpSeqLoop || t.Args[0].Op == OpAppend || t.Args[0].Op == OpITE) {
			if seq != nil && seq != t.Args[0] {
				many = true
			}
			seq = t.Args[0]
			if p, ok := t.Typ.Underlying().(*types.Pointer); ok {
				elem = p.Elem()
			}
		}
		return false
	})
	if seq == nil || many || elem == nil || seq.Varies(l) || Restrict(LT(it, Len(seq)), And(cond, LE(Int(0), it))) != Restrict(d, And(cond, LE(Int(0), it))) {
		return nil
	}
	// the elements are written by the appends only
	cls := Class(IndexAddr(seq, it, types.NewPointer(elem)))
	for _, ev := range x.all {
		if ev.Kind != EvStore && ev.Kind != EvCopy {
			continue
		}
		for a := ev.Addr; a != nil && len(a.Args) > 0; a = a.Args[0] {
			if a.Op == OpIndexAddr && Class(a) == cls || ev.Kind == EvCopy {
				return nil
			}
		}
	}
	at := IndexAddr(seq, it, types.NewPointer(elem))
	bad := false
	one := func(v *Term) *Term {
		m := map[*Term]*Term{}
		Any(body, func(t *Term) bool {
			if t.Op != OpLd {
				return false
			}
			if t.Args[0] == at {
				m[t] = v
			}
			a := t.Args[0]
			if a.Op == OpFieldAddr && a.Args[0] == at {
				m[t] = Field(v, a.N, t.Typ)
			}
			return false
		})
		r := Subst(body, m)
		if r.Varies(l) {
			bad = true
		}
		return r
	}
	defer func(f func(*Term) *Term) { x.e.elemMap = f }(x.e.elemMap)
	x.e.elemMap = one
	segs, ok := x.e.segs(x.m, seq, cond, elem, nil)
	if !ok || bad {
		return nil
	}
	return mkContent(segs)
}

func (x *texter) segs(evs []*Event, base []*Loop, cond *Term) ([]*Term, error) {
	sink := x.sink
	var out []*Term
	for i := 0; i < len(evs); i++ {
		ev := evs[i]
		if ev.Kind != EvCall || len(ev.Loops) < len(base) || !samePrefix(ev.Loops, base) {
			continue
		}
		if len(ev.Loops) > len(base) {
			l := ev.Loops[len(base)]
			var in []*Event
			for _, y := range evs[i:] {
				if len(y.Loops) > len(base) && y.Loops[len(base)] == l {
					in = append(in, y)
				}
			}
			writes := false
			for _, y := range in {
				if w, _ := writeArgs(y); w != nil && And(sink(w, y), cond) != False {
					writes = true
				}
			}
			if !writes {
				continue
			}
			var rest []*Event
			for _, y := range evs[i:] {
				if !(len(y.Loops) > len(base) && y.Loops[len(base)] == l) {
					rest = append(rest, y)
				}
			}
			entry := Restrict(l.EntryCond, cond)
			if entry != False && Sat(And(entry, cond)) {
				d := l.Domain()
				if d == nil {
					return nil, fmt.Errorf("a loop that writes has no bound")
				}
				c2 := And(cond, l.EntryCond)
				d = Restrict(d, c2)
				body, err := x.segs(in, append(append([]*Loop(nil), base...), l), And(And(c2, d), LE(Int(0), l.Iter())))
				if err != nil {
					return nil, err
				}
				f := x.overBuilt(l, d, mkContent(body), c2)
				if f == nil {
					f = forSeg(l, d, mkContent(body))
				}
				if f == nil {
					return nil, fmt.Errorf("what a loop writes depends on its earlier rounds")
				}
				out = append(out, Ite(entry, mkContent([]*Term{f}), mkContent(nil)))
			}
			more, err := x.segs(rest, base, cond)
			if err != nil {
				return nil, err
			}
			return append(out, more...), nil
		}
		w, at := writeArgs(ev)
		if w == nil {
			continue
		}
		c := Restrict(And(ev.Cond, sink(w, ev)), cond)
		if c == False || !Sat(And(c, cond)) {
			continue
		}
		if at == nil {
			return nil, fmt.Errorf("a write whose text is not understood: %s", ev.Callee)
		}
		var ps []*Term
		for _, p := range pieces(at) {
			p = Restrict(p, And(cond, c))
			if x.e != nil {
				p = x.e.NormJoins(x.m, p, And(cond, c))
			}
			ps = append(ps, p)
		}
		out = append(out, Ite(c, textLits(ps), mkContent(nil)))
	}
	return out, nil
}

func samePrefix(l, base []*Loop) bool {
	for i := range base {
		if l[i] != base[i] {
			return false
		}
	}
	return true
}

// textLits is the content of literal pieces.
func textLits(ps []*Term) *Term {
	var segs []*Term
	for _, p := range ps {
		segs = append(segs, textPiece(p))
	}
	return mkContent(segs)
}

func textPiece(p *Term) *Term {
	if p.Op == OpITE {
		return lift1("piece", p, func(v *Term) *Term { return mkContent([]*Term{textPiece(v)}) })
	}
	if p.Op == OpApp && p.S == "content" {
		return p
	}
	if p.Op == OpConcat {
		var segs []*Term
		for _, a := range p.Args {
			segs = append(segs, textPiece(a))
		}
		return mkContent(segs)
	}
	if p.IsStr() && p.Str() == "" {
		return Seq()
	}
	return Seq(p)
}

// joinLits joins adjacent literal strings of a segment.
func joinLits(s *Term) *Term {
	var out []*Term
	for _, p := range s.Args {
		if p.IsStr() && len(out) > 0 && out[len(out)-1].IsStr() {
			out[len(out)-1] = Str(out[len(out)-1].Str() + p.Str())
			continue
		}
		out = append(out, p)
	}
	if len(out) == len(s.Args) {
		return s
	}
	return Seq(out...)
}

// CanonText joins the literals of a text, inside out.
func CanonText(t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		switch {
		case t.Op == OpITE:
			r = Ite(t.Args[0], rec(t.Args[1]), rec(t.Args[2]))
		case t.Op == OpApp && t.S == "content":
			var segs []*Term
			for _, s := range t.Args {
				if s.Op == OpSeqLit {
					segs = append(segs, joinLits(s))
				} else {
					segs = append(segs, rec(s))
				}
			}
			r = mkContent(segs)
		case t.Op == OpApp && t.S == segFor:
			r = mk(Term{Op: OpApp, S: segFor, Args: []*Term{t.Args[0], rec(t.Args[1])}})
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// writeArgs recognises a write: its destination and its text pieces.
func writeArgs(ev *Event) (*Term, []*Term) {
	n := ev.Callee
	a := ev.Args
	switch n {
	case "net/http.Error":
		return unbox(a[0]), []*Term{a[1], Str("\n")}
	case "fmt.Fprint", "fmt.Fprintln", "fmt.Fprintf", "io.WriteString":
		w := unbox(a[0])
		switch n {
		case "io.WriteString":
			return w, []*Term{a[1]}
		case "fmt.Fprintf":
			if ps := formatted(a[1], a[2]); ps != nil {
				return w, ps
			}
			return w, nil
		}
		args := seqArgs(a[1])
		if args == nil {
			return w, nil
		}
		var out []*Term
		for i, x := range args {
			if i > 0 {
				if n == "fmt.Fprint" && (boxed(x, "string") || boxed(args[i-1], "string")) {
					// no space next to a string
				} else {
					out = append(out, Str(" "))
				}
			}
			out = append(out, verbText("v", x))
		}
		if n == "fmt.Fprintln" {
			out = append(out, Str("\n"))
		}
		if out == nil {
			out = []*Term{Str("")}
		}
		return w, out
	}
	dot := strings.LastIndex(n, ".")
	if dot < 0 {
		return nil, nil
	}
	recv, m := n[:dot], n[dot+1:]
	switch m {
	case "WriteString", "Write", "WriteByte", "WriteRune":
	default:
		return nil, nil
	}
	switch recv {
	case "(*bufio.Writer)", "(*bytes.Buffer)", "(*strings.Builder)", "(*os.File)", "(io.Writer)", "(io.StringWriter)", "io.Writer", "io.StringWriter", "net/http.ResponseWriter", "(net/http.ResponseWriter)":
	default:
		return nil, nil
	}
	w := unbox(a[0])
	switch m {
	case "WriteString":
		return w, []*Term{a[1]}
	case "Write":
		return w, []*Term{bytesText(a[1])}
	case "WriteByte", "WriteRune":
		if a[1].IsInt() {
			return w, []*Term{Str(string(rune(a[1].C)))}
		}
		return w, []*Term{mk(Term{Op: OpConv, S: "rune->string", Args: []*Term{a[1]}, Typ: types.Typ[types.String]})}
	}
	return w, nil
}

// WriteDest is the destination of a write, or nil.
func WriteDest(ev *Event) *Term {
	if ev.Kind != EvCall {
		return nil
	}
	w, _ := writeArgs(ev)
	return w
}

func bytesText(b *Term) *Term {
	return lift1("btext", b, func(b *Term) *Term {
		if b.Op == OpConv && b.S == "string->bytes" {
			return b.Args[0]
		}
		return b
	})
}

func unbox(w *Term) *Term {
	return lift1("unbox", w, func(w *Term) *Term {
		for w.Op == OpIface {
			w = w.Args[0]
		}
		return w
	})
}

// Unbox removes the interface around a value.
func Unbox(w *Term) *Term { return unbox(w) }

func boxed(t *Term, s string) bool { return t.Op == OpIface && t.S == s }

func seqArgs(t *Term) []*Term {
	if t == Nil {
		return []*Term{}
	}
	if t.Op == OpSeqLit {
		if t.Args == nil {
			return []*Term{}
		}
		return t.Args
	}
	return nil
}

// pieces expands formatting inside the pieces of a text.
func pieces(at []*Term) []*Term {
	var out []*Term
	for _, p := range at {
		out = append(out, textOf(p))
	}
	return out
}

// textOf is a string value as a concatenation of its parts.
func textOf(p *Term) *Term {
	return lift1("textof", p, func(p *Term) *Term {
		switch {
		case p.Op == OpConcat:
			var ps []*Term
			for _, a := range p.Args {
				ps = append(ps, textOf(a))
			}
			return concatAny(ps)
		case p.Op == OpConv && p.S == "bytes->string":
			return bytesText(p.Args[0])
		case p.Op == OpApp && (p.S == "fmt.Sprintf"):
			if ps := formatted(p.Args[0], p.Args[1]); ps != nil {
				return concatAny(pieces(ps))
			}
		case p.Op == OpApp && p.S == "strconv.Itoa":
			return mk(Term{Op: OpApp, S: "text:d", Args: p.Args, Typ: types.Typ[types.String]})
		case p.Op == OpApp && p.S == "strconv.FormatInt" && p.Args[1].IsConst(10):
			return mk(Term{Op: OpApp, S: "text:d", Args: p.Args[:1], Typ: types.Typ[types.String]})
		}
		return p
	})
}

func concatAny(ps []*Term) *Term {
	for i, p := range ps {
		if p.Op == OpITE {
			return lift1("cat", p, func(v *Term) *Term {
				q := append([]*Term(nil), ps...)
				q[i] = v
				return concatAny(q)
			})
		}
	}
	return Concat(ps...)
}

// formatted expands a constant format string.
func formatted(format, args *Term) []*Term {
	if !format.IsStr() {
		if format.Op == OpConcat {
			// a constant format with a variable prefix is not understood
			return nil
		}
		return nil
	}
	as := seqArgs(args)
	if as == nil {
		return nil
	}
	f := format.Str()
	out := []*Term{Str("")}
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			out = append(out, Str(f[i:i+j]))
			i += j - 1
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			return nil
		}
		if f[j] == '%' && j == i+1 {
			out = append(out, Str("%"))
			i = j
			continue
		}
		if k >= len(as) {
			return nil
		}
		out = append(out, verbText(f[i+1:j+1], as[k]))
		k++
		i = j
	}
	if k != len(as) {
		return nil
	}
	return out
}

// verbText is the text of one formatted operand.
func verbText(verb string, x *Term) *Term {
	return lift1("verb"+verb, x, func(x *Term) *Term {
		v := x
		kind := ""
		if x.Op == OpIface {
			v, kind = x.Args[0], x.S
		}
		switch verb {
		case "s", "v":
			if kind == "string" || kind == "[]byte" && verb == "s" {
				return textOf(bytesText(v))
			}
			if isIntName(kind) && verb == "v" {
				return intText(v)
			}
		case "d":
			if x.Op == OpIface && x.Typ != nil {
				if b, ok := x.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0 {
					return intText(v)
				}
			}
		}
		return mk(Term{Op: OpApp, S: "text:" + verb, Args: []*Term{x}, Typ: types.Typ[types.String]})
	})
}

func intText(v *Term) *Term {
	return lift1("inttext", v, func(v *Term) *Term {
		if v.IsInt() {
			return Str(fmt.Sprint(v.C))
		}
		return mk(Term{Op: OpApp, S: "text:d", Args: []*Term{v}, Typ: types.Typ[types.String]})
	})
}

func isIntName(s string) bool {
	switch s {
	case "int", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32":
		return true
	}
	return false
}

// MkText is the text made of the given pieces.
func MkText(ps ...*Term) *Term { return textLits(pieces(ps)) }

// IsContent reports whether t is an unconditional text or content.
func IsContent(t *Term) bool { return t.Op == OpApp && t.S == "content" }

// LocalBuffer reports whether all that happens to buf in evs is writing to it
// and reading it whole.
func LocalBuffer(evs []*Event, buf *Term) bool {
	for _, ev := range evs {
		if ev.Kind != EvCall {
			continue
		}
		if w, _ := writeArgs(ev); w != nil {
			continue
		}
		for _, a := range ev.Args {
			if unbox(a) != buf {
				continue
			}
			switch ev.Callee {
			case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*strings.Builder).String", "(*bytes.Buffer).Len", "(*bytes.Buffer).Grow", "(*strings.Builder).Len", "(*strings.Builder).Grow", "encoding/json.NewEncoder":
				continue
			case "(*encoding/json.Encoder).Encode":
				continue
			}
			return false
		}
	}
	return true
}

// Tidy simplifies a text under cond: families that write nothing are dropped,
// bodies are simplified under their domain, and bound indices are numbered
// anew from the inside out.
func Tidy(t, cond *Term) *Term { return tidy(t, cond, nil) }

// tidy knows the indices bound outside of t.
func tidy(t, cond *Term, outer map[*Term]*Term) *Term {
	t = Restrict(t, cond)
	switch {
	case t.Op == OpITE:
		return Ite(t.Args[0], tidy(t.Args[1], And(cond, t.Args[0]), outer), tidy(t.Args[2], And(cond, Not(t.Args[0])), outer))
	case t.Op == OpApp && t.S == "content":
		// one diagram for all: pieces under complementary conditions meet
		cur := mkContent(nil)
		for _, s := range t.Args {
			cur = lift2("cat2", cur, tidy(s, cond, outer), func(a, b *Term) *Term { return mkContent([]*Term{a, b}) })
		}
		return Restrict(cur, cond)
	case t.Op == OpApp && t.S == segFor:
		// the index bound here is the largest that no outer family binds
		own := func(a ...*Term) int {
			n := 0
			for _, x := range a {
				Any(x, func(y *Term) bool {
					if y.Op == OpBound && y.N > n && outer[y] == nil {
						n = y.N
					}
					return false
				})
			}
			return n
		}
		b := bound1(own(t.Args...))
		d := Restrict(t.Args[0], And(cond, LE(Int(0), b)))
		in := And(cond, And(LE(Int(0), b), d))
		if !Sat(in) {
			return Seq()
		}
		o := map[*Term]*Term{b: b}
		for k := range outer {
			o[k] = k
		}
		body := tidy(t.Args[1], in, o)
		if body.Op == OpApp && body.S == "content" && len(body.Args) == 0 {
			return Seq()
		}
		outer = o
		m := map[*Term]*Term{b: bound1(own(d, body) + 1)}
		f := mk(Term{Op: OpApp, S: segFor, Args: []*Term{Subst(d, m), Subst(body, m)}})
		// a family without a first member is empty
		some := Restrict(Subst(d, map[*Term]*Term{b: Int(0)}), cond)
		return Ite(some, mkContent([]*Term{f}), mkContent(nil))
	}
	return t
}

// TextDiff finds the first place where two texts differ under cond: the
// condition there and what each text has; the condition is nil when the texts
// are the same.
func TextDiff(a, b, cond *Term) (*Term, *Term, *Term) {
	for _, la := range Leaves(a, cond) {
		for _, lb := range Leaves(b, And(cond, la.Cond)) {
			c := And(cond, And(la.Cond, lb.Cond))
			x, y := la.Val, lb.Val
			if x == y || !Sat(c) {
				continue
			}
			if x.Op != OpApp || y.Op != OpApp || x.S != y.S {
				if SameUnder(c, x, y) {
					continue
				}
				return c, x, y
			}
			switch {
			case x.S == segFor && x.Args[0] == y.Args[0]:
				if d, u, v := TextDiff(x.Args[1], y.Args[1], And(c, x.Args[0])); d != nil {
					return d, u, v
				}
			case x.S == "content" && len(x.Args) == len(y.Args):
				for i := range x.Args {
					if d, u, v := TextDiff(x.Args[i], y.Args[i], c); d != nil {
						return d, u, v
					}
				}
			case SameUnder(c, x, y):
			default:
				if os.Getenv("KDIFF") != "" {
					deepDiff(x, y)
				}
				return c, x, y
			}
		}
	}
	return nil, nil, nil
}

func deepDiff(x, y *Term) {
	fmt.Fprintf(os.Stderr, "%d %q %d %v|%v %d %d\n", x.Op, x.S, x.N, x.Typ, y.Typ, len(x.Args), len(y.Args))
	if x.Op != y.Op || x.S != y.S || len(x.Args) != len(y.Args) {
		fmt.Fprintf(os.Stderr, "  %s\n  %s\n", x, y)
		return
	}
	for i := range x.Args {
		if x.Args[i] != y.Args[i] {
			deepDiff(x.Args[i], y.Args[i])
			return
		}
	}
}

// NormJoins puts joined lists in canonical form.
func (e *Eval) NormJoins(mem *Mem, t, cond *Term) *Term {
	m := map[*Term]*Term{}
	Any(t, func(x *Term) bool {
		if x.Op == OpApp && (x.S == "bytes.Join" || x.S == "strings.Join") && len(x.Args) == 2 {
			el := types.Type(types.Typ[types.String])
			if x.S == "bytes.Join" {
				el = types.NewSlice(types.Typ[types.Byte])
			}
			a := x.Args[0]
			if a.Op == OpSeqLoop || a.Op == OpAppend || a.Op == OpITE {
				if ct := e.Content(mem, a, cond, el); ct != nil {
					m[x] = lift1("join", ct, func(ct *Term) *Term {
						if x.S == "strings.Join" && len(ct.Args) <= 1 && (len(ct.Args) == 0 || ct.Args[0].Op == OpSeqLit) {
							ps := []*Term{Str("")}
							for _, s := range ct.Args {
								for i, p := range s.Args {
									if i > 0 {
										ps = append(ps, x.Args[1])
									}
									ps = append(ps, p)
								}
							}
							return concatAny(ps)
						}
						return Pure(x.S+"!", x.Typ, ct, x.Args[1])
					})
				}
			}
		}
		return false
	})
	return Subst(t, m)
}
