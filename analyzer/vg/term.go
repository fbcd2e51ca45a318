// Package vg derives guarded value graphs from SSA functions: every value is a
// hash-consed term, conditional values are decision diagrams over canonical
// atoms, loops are summarised by induction forms, and memory is a chain of
// guarded stores. Nothing is executed.
package vg

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
)

type Op int

const (
	OpInvalid   Op = iota
	OpTrue         // boolean leaf
	OpFalse        // boolean leaf
	OpConst        // S: literal ("i:3", "s:abc", "f:1.5")
	OpNil          // nil of any type
	OpLin          // linear combination of integer terms
	OpITE          // Args: atom, hi, lo
	OpLE           // atom: Args[0] (linear) <= 0
	OpEQ           // atom: Args[0] == Args[1] (integers: Args[0] linear == 0 const)
	OpBool         // atom: Args[0] is an opaque boolean
	OpParam        // S: name, N: index
	OpFree         // free variable without binding
	OpGlobal       // address of a global
	OpFunc         // function value
	OpClosure      // Fn + bindings
	OpAlloc        // address of a local/new
	OpMakeSlice    // Args: len, cap
	OpMakeMap      //
	OpMakeChan     // Args: size
	OpFieldAddr    // Args: base; N: field index; S: class
	OpIndexAddr    // Args: base, index
	OpField        // Args: struct; N index
	OpIndex        // Args: array/string, index
	OpStruct       // Args: field values
	OpLd           // Args: addr; S: version
	OpSlice        // Args: base, lo, hi  (strings and slices)
	OpLen          // Args: x
	OpCap          // Args: x
	OpApp          // pure application; S: name, Args
	OpRes          // result of an effectful call: S: instance; N: tuple index (-1 whole)
	OpExtract      // Args: tuple; N
	OpTuple        // Args
	OpConv         // S: kind/type; Args
	OpTrunc        // S: type; Args
	OpBin          // S: operator; Args
	OpConcat       // string concat; Args flattened
	OpIter         // Loop
	OpMu           // Loop; S key
	OpFinMu        // Loop; S key; N exit
	OpFinIter      // Loop; N exit
	OpExit         // atom: Loop leaves through exit N
	OpRan          // atom: callback loop ran at least once
	OpExists       // atom: Args: domain cond, predicate over bound var
	OpFirst        // Args: domain, predicate: first index satisfying
	OpBound        // N: depth
	OpCount        // Loop, Args: cond: number of earlier iterations satisfying cond
	OpPrevEx       // atom: Loop, Args: cond: some earlier iteration satisfied cond
	OpROff         // Args: s, base, k: byte offset after k runes from base
	OpAppend       // Args: base, parts... (parts OpSeqLit / OpSpread)
	OpSeqLit       // Args: elements
	OpSpread       // Args: slice
	OpSeqLoop      // Loop: sequence accumulated by the loop; S mu key; N exit; Args: init
	OpIface        // Args: x; S: type
	OpAssert       // Args: x; S: type
	OpMapGet       // Args: m, k; S version
	OpMapHas       // Args: m, k; S version (opaque boolean, wrapped by OpBool)
	OpHole         //
	OpCbArg        // Loop, N: callback argument of current call
)

var opNames = map[Op]string{OpTrue: "true", OpFalse: "false", OpConst: "const", OpNil: "nil", OpLin: "lin", OpITE: "ite", OpLE: "le0", OpEQ: "eq", OpBool: "bool", OpParam: "param", OpFree: "free", OpGlobal: "global", OpFunc: "func", OpClosure: "closure", OpAlloc: "alloc", OpMakeSlice: "makeslice", OpMakeMap: "makemap", OpMakeChan: "makechan", OpFieldAddr: "&field", OpIndexAddr: "&index", OpField: "field", OpIndex: "index", OpStruct: "struct", OpLd: "ld", OpSlice: "slice", OpLen: "len", OpCap: "cap", OpApp: "app", OpRes: "res", OpExtract: "extract", OpTuple: "tuple", OpConv: "conv", OpTrunc: "trunc", OpBin: "bin", OpConcat: "concat", OpIter: "iter", OpMu: "mu", OpFinMu: "finmu", OpFinIter: "finiter", OpExit: "exit", OpRan: "ran", OpExists: "exists", OpFirst: "first", OpBound: "bound", OpCount: "count", OpPrevEx: "prevex", OpROff: "roff", OpAppend: "append", OpSeqLit: "seq", OpSpread: "spread", OpSeqLoop: "seqloop", OpIface: "iface", OpAssert: "assert", OpMapGet: "mapget", OpMapHas: "maphas", OpHole: "hole", OpCbArg: "cbarg"}

// Term is a hash-consed value.
type Term struct {
	ID    int
	Op    Op
	Args  []*Term
	S     string
	N     int
	Typ   types.Type
	Loop  *Loop
	C     int64   // OpLin constant
	Co    []int64 // OpLin coefficients of Args
	Fn    any     // OpFunc/OpClosure: *ssa.Function
	Val   constant.Value
	loops map[*Loop]bool // loops this term varies with
}

type tab struct {
	m map[string]*Term
	n int
}

var T = &tab{m: map[string]*Term{}}

var noLoops = map[*Loop]bool{}

func mk(t Term) *Term {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(t.Op)))
	b.WriteByte('|')
	b.WriteString(t.S)
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(t.N))
	if t.Loop != nil {
		b.WriteString("|L" + t.Loop.Key)
	}
	if t.Op == OpLin {
		b.WriteString("|" + strconv.FormatInt(t.C, 10))
		for _, c := range t.Co {
			b.WriteString("," + strconv.FormatInt(c, 10))
		}
	}
	if t.Fn != nil {
		fmt.Fprintf(&b, "|F%p", t.Fn)
	}
	for _, a := range t.Args {
		b.WriteByte(' ')
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	if x, ok := T.m[k]; ok {
		if x.Typ == nil {
			x.Typ = t.Typ
		}
		return x
	}
	T.n++
	t.ID = T.n
	x := new(Term)
	*x = t
	// variance
	var ls map[*Loop]bool
	add := func(l *Loop) {
		if ls == nil {
			ls = map[*Loop]bool{}
		}
		ls[l] = true
	}
	switch t.Op {
	case OpIter, OpMu, OpCount, OpPrevEx, OpCbArg:
		add(t.Loop)
	}
	for _, a := range t.Args {
		for l := range a.loops {
			switch t.Op {
			case OpSeqLoop, OpFinMu:
				if l == t.Loop {
					continue
				}
			}
			add(l)
		}
	}
	if ls == nil {
		ls = noLoops
	}
	x.loops = ls
	T.m[k] = x
	return x
}

// mkIn makes an opaque term that varies with the given loops.
func mkIn(t Term, in []*Loop) *Term {
	x := mk(t)
	if len(in) > 0 {
		m := map[*Loop]bool{}
		for l := range x.loops {
			m[l] = true
		}
		for _, l := range in {
			m[l] = true
		}
		x.loops = m
	}
	return x
}

func (t *Term) Varies(l *Loop) bool { return t.loops[l] }

var (
	True  = mk(Term{Op: OpTrue})
	False = mk(Term{Op: OpFalse})
	Nil   = mk(Term{Op: OpNil})
	Hole  = mk(Term{Op: OpHole})
)

func Int(n int64) *Term {
	return mk(Term{Op: OpConst, S: "i:" + strconv.FormatInt(n, 10), C: n, Val: constant.MakeInt64(n)})
}
func Str(s string) *Term {
	return mk(Term{Op: OpConst, S: "s:" + s, Val: constant.MakeString(s)})
}

func (t *Term) IsInt() bool { return t.Op == OpConst && strings.HasPrefix(t.S, "i:") }
func (t *Term) IsStr() bool { return t.Op == OpConst && strings.HasPrefix(t.S, "s:") }
func (t *Term) Str() string { return t.S[2:] }
func (t *Term) IsConst(n int64) bool {
	return t.IsInt() && t.C == n
}

// ---- linear integer arithmetic ----

type linear struct {
	c  int64
	co map[*Term]int64
}

func toLin(t *Term) linear {
	switch {
	case t.IsInt():
		return linear{c: t.C}
	case t.Op == OpLin:
		l := linear{c: t.C, co: map[*Term]int64{}}
		for i, a := range t.Args {
			l.co[a] = t.Co[i]
		}
		return l
	}
	return linear{co: map[*Term]int64{t: 1}}
}

func (l linear) add(m linear, k int64) linear {
	r := linear{c: l.c + k*m.c, co: map[*Term]int64{}}
	for t, c := range l.co {
		r.co[t] += c
	}
	for t, c := range m.co {
		r.co[t] += k * c
	}
	for t, c := range r.co {
		if c == 0 {
			delete(r.co, t)
		}
	}
	return r
}

func (l linear) sorted() []*Term {
	ts := make([]*Term, 0, len(l.co))
	for t := range l.co {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	return ts
}

func (l linear) term() *Term {
	// ROff(s,b,k) + RuneLen(s, ROff(s,b,k)) = ROff(s,b,k+1)
	for again := true; again; {
		again = false
		for _, t := range l.sorted() {
			c, ok := l.co[t]
			if !ok || t.Op != OpApp || t.S != "runelen" {
				continue
			}
			o := t.Args[1]
			var next *Term
			if o.Op == OpROff && o.Args[0] == t.Args[0] {
				next = ROff(o.Args[0], o.Args[1], Add(o.Args[2], Int(1)))
			} else {
				// base + runelen(s, base): first step of a walk
				next = ROff(t.Args[0], o, Int(1))
			}
			ol := toLin(o)
			// l must contain c * o in full
			has := true
			if len(ol.co) == 0 && ol.c != 0 {
				has = false
			}
			for x, k := range ol.co {
				if l.co[x] != c*k {
					has = false
				}
			}
			if len(ol.co) == 0 { // constant offset o (usually 0)
				if o.IsConst(0) {
					has = true
				}
			}
			if !has || next == nil || next == t {
				continue
			}
			if next.Op == OpROff || len(toLin(next).co) > 0 {
				l = l.add(linear{co: map[*Term]int64{t: 1}}, -c).add(ol, -c).add(toLin(next), c)
				again = true
				break
			}
		}
	}
	if len(l.co) == 0 {
		return Int(l.c)
	}
	ts := l.sorted()
	if len(ts) == 1 && l.c == 0 && l.co[ts[0]] == 1 {
		return ts[0]
	}
	co := make([]int64, len(ts))
	for i, t := range ts {
		co[i] = l.co[t]
	}
	return mk(Term{Op: OpLin, C: l.c, Args: ts, Co: co})
}

// ROff is the byte offset reached after k runes of s starting at byte b.
func ROff(s, b, k *Term) *Term {
	if s.Op == OpITE {
		return lift1("roff", s, func(s *Term) *Term { return ROff(s, b, k) })
	}
	if b.Op == OpITE || k.Op == OpITE {
		return lift2("roff", b, k, func(b, k *Term) *Term { return ROff(s, b, k) })
	}
	if k.IsConst(0) {
		return b
	}
	// a base that is itself a walk of the same string extends it
	if b.Op == OpROff && b.Args[0] == s {
		return ROff(s, b.Args[1], Add(b.Args[2], k))
	}
	// a walk of a suffix of a string is a walk of the string
	if s.Op == OpSlice && s.Args[2] == Len(s.Args[0]) {
		return Sub(ROff(s.Args[0], Add(s.Args[1], b), k), s.Args[1])
	}
	// reaching the end: ROff(s,0,RuneCount(s)) = len(s)
	if k.Op == OpApp && k.S == "runecount" && k.Args[0] == s && b.IsConst(0) {
		return Len(s)
	}
	return mk(Term{Op: OpROff, Args: []*Term{s, b, k}})
}

func Add(a, b *Term) *Term {
	return lift2("add", a, b, func(a, b *Term) *Term { return toLin(a).add(toLin(b), 1).term() })
}
func Sub(a, b *Term) *Term {
	return lift2("sub", a, b, func(a, b *Term) *Term { return toLin(a).add(toLin(b), -1).term() })
}
func Neg(a *Term) *Term { return Sub(Int(0), a) }
func Mul(a, b *Term) *Term {
	return lift2("mul", a, b, func(a, b *Term) *Term {
		la, lb := toLin(a), toLin(b)
		if len(la.co) == 0 {
			return linear{}.add(lb, la.c).term()
		}
		if len(lb.co) == 0 {
			return linear{}.add(la, lb.c).term()
		}
		if a.ID > b.ID {
			a, b = b, a
		}
		return mk(Term{Op: OpBin, S: "*", Args: []*Term{a, b}})
	})
}

// nonNeg reports whether t is known to be >= 0.
func nonNeg(t *Term) bool {
	switch t.Op {
	case OpLen, OpCap, OpIter, OpCount, OpFinIter, OpROff, OpFirst, OpBound:
		return true
	case OpFree:
		return t.S == "cursor" || strings.HasPrefix(t.S, "at#")
	case OpConst:
		return t.IsInt() && t.C >= 0
	case OpApp:
		return t.S == "runecount" || t.S == "runelen" || t.S == "max0" || t.S == "countall" || t.S == "countbelow"
	case OpLin:
		if t.C < 0 {
			return false
		}
		for i, a := range t.Args {
			if t.Co[i] < 0 || !nonNeg(a) {
				return false
			}
		}
		return true
	}
	return false
}

// splitResult: a list of at least one element, as strings.Split gives for a
// separator that is not empty.
func splitResult(t *Term) bool {
	return t.Op == OpApp && t.S == "strings.Split" && len(t.Args) == 2 && t.Args[1].IsStr() && t.Args[1].Str() != ""
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// walkEnd recognises ROff(s,0,k) - len(s) (+1) and its negation (-1).
func walkEnd(l linear) (s, k *Term, sign int) {
	if len(l.co) != 2 {
		return nil, nil, 0
	}
	ts := l.sorted()
	for i := 0; i < 2; i++ {
		a, b := ts[i], ts[1-i]
		if a.Op == OpROff && a.Args[1].IsConst(0) && b.Op == OpLen && b.Args[0] == a.Args[0] && l.co[a] == -l.co[b] && (l.co[a] == 1 || l.co[a] == -1) {
			return a.Args[0], a.Args[2], int(l.co[a])
		}
	}
	return nil, nil, 0
}

// walkDiff recognises ROff(s,b,k1) - ROff(s,b,k2).
func walkDiff(l linear) (k1, k2 *Term) {
	switch len(l.co) {
	case 2:
		ts := l.sorted()
		a, b := ts[0], ts[1]
		if l.co[a] == -1 {
			a, b = b, a
		}
		if l.co[a] != 1 || l.co[b] != -1 {
			return nil, nil
		}
		if a.Op == OpROff && b.Op == OpROff && a.Args[0] == b.Args[0] && a.Args[1] == b.Args[1] {
			return a.Args[2], b.Args[2]
		}
		if a.Op == OpROff && a.Args[1] == b {
			return a.Args[2], Int(0)
		}
		if b.Op == OpROff && b.Args[1] == a {
			return Int(0), b.Args[2]
		}
	case 1:
		a := l.sorted()[0]
		if a.Op == OpROff && a.Args[1].IsConst(0) {
			switch l.co[a] {
			case 1:
				return a.Args[2], Int(0)
			case -1:
				return Int(0), a.Args[2]
			}
		}
	}
	return nil, nil
}

// le0 returns the condition l <= 0 for a linear leaf.
func le0(x *Term) *Term {
	l := toLin(x)
	if len(l.co) == 0 {
		if l.c <= 0 {
			return True
		}
		return False
	}
	switch firstSign(l) {
	case -1:
		return True
	case 1:
		return False
	}
	if s, k, sg := walkEnd(l); s != nil {
		lt := LT(k, appNorm("runecount", types.Typ[types.Int], []*Term{s}))
		if sg > 0 && l.c == 1 { // ROff - len + 1 <= 0
			return lt
		}
		if sg < 0 && l.c == 0 { // len - ROff <= 0
			return Not(lt)
		}
		if sg > 0 && l.c <= 0 {
			return True
		}
	}
	if k1, k2 := walkDiff(l); k1 != nil {
		switch l.c {
		case 0:
			return LE(k1, k2)
		case 1:
			return LT(k1, k2)
		}
	}
	ts := l.sorted()
	var g int64
	for _, t := range ts {
		g = gcd(g, l.co[t])
	}
	neg := l.co[ts[0]] < 0
	if neg {
		// not(L <= 0)  <=>  -L + 1 <= 0;   here L <= 0 <=> not(-L+1 <= 0)
		l = linear{c: 1}.add(l, -1)
	}
	if g > 1 {
		// g*M + c <= 0  <=> M + ceil(c/g) <= 0
		c := -floorDiv(-l.c, g)
		n := linear{c: c, co: map[*Term]int64{}}
		for t, k := range l.co {
			n.co[t] = k / g
		}
		l = n
	}
	var r *Term
	switch {
	case len(l.co) == 1 && l.co[ts[0]] == 1 && l.c > 0 && nonNeg(ts[0]):
		r = False // t + c <= 0 with t >= 0, c > 0
	case len(l.co) == 1 && l.co[ts[0]] == 1 && l.c >= 0 && ts[0].Op == OpLen && splitResult(ts[0].Args[0]):
		r = False
	case len(l.co) == 1 && l.c == 0 && l.co[ts[0]] == 1 && ts[0].Op == OpApp && ts[0].S == "runecount":
		r = le0(Len(ts[0].Args[0]))
	default:
		y := l.term()
		if y.IsInt() {
			r = False
			if y.C <= 0 {
				r = True
			}
		} else if nonNeg(y) && l.c > 0 {
			r = False
		} else {
			r = atom(mk(Term{Op: OpLE, Args: []*Term{y}}))
		}
	}
	if neg {
		return Not(r)
	}
	return r
}

// LE returns a <= b.
func LE(a, b *Term) *Term {
	return lift2("le", a, b, func(a, b *Term) *Term { return le0(toLin(a).add(toLin(b), -1).term()) })
}
func LT(a, b *Term) *Term { return LE(Add(a, Int(1)), b) }

func isNonNil(t *Term) bool {
	switch t.Op {
	case OpAlloc, OpMakeSlice, OpMakeMap, OpMakeChan, OpClosure, OpFunc, OpGlobal, OpFieldAddr, OpIndexAddr, OpIface, OpSeqLit:
		return true
	case OpApp:
		return t.S == "errors.New" || t.S == "fmt.Errorf" || t.S == "errors.Join" || t.S == "ctxerr"
	case OpSlice:
		return isNonNil(t.Args[0])
	case OpAppend:
		for _, p := range t.Args[1:] {
			if p.Op == OpSeqLit && len(p.Args) > 0 {
				return true
			}
		}
		return isNonNil(t.Args[0])
	case OpSeqLoop:
		return isNonNil(t.Args[0])
	}
	return false
}

func integerish(t *Term) bool {
	if t.IsInt() || t.Op == OpLin {
		return true
	}
	switch t.Op {
	case OpLen, OpCap, OpIter, OpROff, OpCount:
		return true
	}
	if t.Typ != nil {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok {
			return b.Info()&types.IsInteger != 0
		}
	}
	return false
}

// firstSign is the sign of a linear term that compares the first index of a
// range with the end of the range: 1 or -1 if it is never 0, else 0.
func firstSign(l linear) int {
	for t, k := range l.co {
		if t.Op != OpFirst || k != 1 && k != -1 {
			continue
		}
		// the domain: bound < n
		d := t.Args[0]
		if d.Op != OpITE || d.Args[1].Op == OpITE || d.Args[2].Op == OpITE || d.Args[0].Op != OpLE {
			continue
		}
		dl := toLin(d.Args[0].Args[0])
		if d.Args[1] == False { // not dl <= 0 is 1 - dl <= 0
			dl = linear{c: 1}.add(dl, -1)
		}
		for b, kb := range dl.co {
			if b.Op == OpBound && kb == 1 {
				n := linear{co: map[*Term]int64{b: 1}}.add(dl, -1) // n - 1, at most that
				r := l.add(linear{co: map[*Term]int64{t: 1}}, -k).add(n, k)
				if len(r.co) == 0 && r.c*k < 0 {
					return -int(k)
				}
			}
		}
	}
	return 0
}

// EQ returns a == b.
func EQ(a, b *Term) *Term {
	return lift2("eq", a, b, func(a, b *Term) *Term {
		if a == b {
			return True
		}
		if isBoolTerm(a) && isBoolTerm(b) {
			// both boolean leaves
			if a == True {
				return b
			}
			if b == True {
				return a
			}
			if a == False {
				return Not(b)
			}
			if b == False {
				return Not(a)
			}
		}
		if a.Op == OpConst && b.Op == OpConst {
			return False
		}
		if a == Nil && isNonNil(b) || b == Nil && isNonNil(a) {
			return False
		}
		if a.Op == OpStruct && b.Op == OpStruct && len(a.Args) == len(b.Args) {
			r := True
			for i := range a.Args {
				r = And(r, EQ(a.Args[i], b.Args[i]))
			}
			return r
		}
		if b.Op == OpIndex && a.IsInt() {
			a, b = b, a
		}
		if a.Op == OpIndex && b.IsInt() && b.C > 0 && b.C < 128 && a.Args[1].IsConst(0) && isStringTerm(a.Args[0]) {
			// the first byte of a string
			return EQ(appNorm("strings.Index", types.Typ[types.Int], []*Term{a.Args[0], Str(string(rune(b.C)))}), Int(0))
		}
		if integerish(a) && integerish(b) {
			l := toLin(a).add(toLin(b), -1)
			if len(l.co) == 0 {
				if l.c == 0 {
					return True
				}
				return False
			}
			if s, k, _ := walkEnd(l); s != nil && l.c == 0 {
				return Not(LT(k, appNorm("runecount", types.Typ[types.Int], []*Term{s})))
			}
			if k1, k2 := walkDiff(l); k1 != nil && l.c == 0 {
				return EQ(k1, k2)
			}
			ts := l.sorted()
			if l.co[ts[0]] < 0 {
				l = linear{}.add(l, -1)
			}
			x := l.term()
			if x.IsInt() {
				if x.C == 0 {
					return True
				}
				return False
			}
			if s := firstSign(l); s != 0 {
				return False
			}
			if nonNeg(x) {
				if toLin(x).c > 0 {
					return False
				}
				return le0(x)
			}
			if len(l.co) == 1 && l.co[ts[0]] == 1 && nonNeg(ts[0]) && l.c > 0 {
				return False
			}
			return atom(mk(Term{Op: OpEQ, Args: []*Term{x, Int(0)}}))
		}
		if b.IsStr() && b.Str() == "" {
			return le0(Len(a))
		}
		if a.IsStr() && a.Str() == "" {
			return le0(Len(b))
		}
		if a.ID > b.ID {
			a, b = b, a
		}
		if a == Nil {
			a, b = b, a
		}
		if a.Op == OpConst {
			a, b = b, a
		}
		return atom(mk(Term{Op: OpEQ, Args: []*Term{a, b}}))
	})
}

func isStringTerm(t *Term) bool {
	if t.Typ == nil {
		return false
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBoolTerm(t *Term) bool {
	if t == True || t == False {
		return true
	}
	switch t.Op {
	case OpLE, OpEQ, OpBool, OpExit, OpRan, OpExists, OpPrevEx:
		return true
	}
	return false
}

// Len returns len(x).
func Len(x *Term) *Term {
	return lift1("len", x, func(x *Term) *Term {
		switch x.Op {
		case OpConst:
			if x.IsStr() {
				return Int(int64(len(x.Str())))
			}
		case OpNil:
			return Int(0)
		case OpLd:
			if n := tableLen(x); n != nil {
				return n
			}
		case OpMakeSlice:
			return x.Args[0]
		case OpSlice:
			return Sub(x.Args[2], x.Args[1])
		case OpSeqLit:
			return Int(int64(len(x.Args)))
		case OpAppend:
			n := Len(x.Args[0])
			for _, p := range x.Args[1:] {
				if p.Op == OpSeqLit {
					n = Add(n, Int(int64(len(p.Args))))
				} else {
					n = Add(n, Len(p.Args[0]))
				}
			}
			return n
		case OpConv:
			switch x.S {
			case "bytes->string", "string->bytes":
				return Len(x.Args[0])
			case "string->runes":
				return mk(Term{Op: OpApp, S: "runecount", Args: []*Term{x.Args[0]}})
			}
		case OpMu:
			if x.Loop != nil {
				if n := x.Loop.muLen(x); n != nil {
					return n
				}
			}
		case OpSeqLoop:
			if n := x.Loop.seqLen(x); n != nil {
				return n
			}
		}
		return mk(Term{Op: OpLen, Args: []*Term{x}, Typ: types.Typ[types.Int]})
	})
}

// Slice returns base[lo:hi]; hi nil means len(base).
func Slice(base, lo, hi *Term) *Term {
	if lo == nil {
		lo = Int(0)
	}
	return lift1("slice", base, func(base *Term) *Term {
		h := hi
		if h == nil {
			h = Len(base)
		}
		return lift2("slice2", lo, h, func(lo, h *Term) *Term {
			if base.Op == OpSlice {
				return mk(Term{Op: OpSlice, Args: []*Term{base.Args[0], Add(base.Args[1], lo), Add(base.Args[1], h)}, Typ: base.Typ})
			}
			if lo.IsConst(0) && h == Len(base) && base.Op != OpAlloc && base.Op != OpGlobal && base.Op != OpFieldAddr {
				return base
			}
			if base.IsStr() && lo.IsInt() && h.IsInt() && lo.C >= 0 && h.C <= int64(len(base.Str())) && lo.C <= h.C {
				return Str(base.Str()[lo.C:h.C])
			}
			return mk(Term{Op: OpSlice, Args: []*Term{base, lo, h}, Typ: base.Typ})
		})
	})
}

func Field(x *Term, i int, typ types.Type) *Term {
	return lift1(fmt.Sprintf("field%d", i), x, func(x *Term) *Term {
		if x.Op == OpStruct {
			return x.Args[i]
		}
		return mk(Term{Op: OpField, N: i, Args: []*Term{x}, Typ: typ})
	})
}

func FieldAddr(base *Term, i int, class string, typ types.Type) *Term {
	return lift1(fmt.Sprintf("faddr%d%s", i, class), base, func(b *Term) *Term {
		return mk(Term{Op: OpFieldAddr, N: i, S: class, Args: []*Term{b}, Typ: typ})
	})
}

func IndexAddr(base, idx *Term, typ types.Type) *Term {
	return lift2("iaddr", base, idx, func(b, i *Term) *Term {
		if b.Op == OpSlice {
			return mk(Term{Op: OpIndexAddr, Args: []*Term{b.Args[0], Add(b.Args[1], i)}, Typ: typ})
		}
		return mk(Term{Op: OpIndexAddr, Args: []*Term{b, i}, Typ: typ})
	})
}

func App(name string, typ types.Type, args ...*Term) *Term {
	return mk(Term{Op: OpApp, S: name, Args: args, Typ: typ})
}

func Concat(parts ...*Term) *Term {
	var fl []*Term
	for _, p := range parts {
		if p.Op == OpConcat {
			fl = append(fl, p.Args...)
			continue
		}
		fl = append(fl, p)
	}
	var out []*Term
	for _, p := range fl {
		if p.IsStr() {
			if p.Str() == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].IsStr() {
				out[n-1] = Str(out[n-1].Str() + p.Str())
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(Term{Op: OpConcat, Args: out, Typ: types.Typ[types.String]})
}

// ---- printing ----

var maxDepth = 14

func init() {
	if os.Getenv("KLONG") != "" {
		maxDepth = 80
	}
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > maxDepth {
		return "…"
	}
	as := func() string {
		s := make([]string, len(t.Args))
		for i, a := range t.Args {
			s[i] = a.str(d + 1)
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case OpTrue, OpFalse, OpNil:
		return opNames[t.Op]
	case OpConst:
		if t.IsStr() {
			return strconv.Quote(t.Str())
		}
		return t.S[2:]
	case OpLin:
		var s []string
		for i, a := range t.Args {
			switch t.Co[i] {
			case 1:
				s = append(s, a.str(d+1))
			default:
				s = append(s, fmt.Sprintf("%d*%s", t.Co[i], a.str(d+1)))
			}
		}
		if t.C != 0 {
			s = append(s, strconv.FormatInt(t.C, 10))
		}
		return "(" + strings.Join(s, " + ") + ")"
	case OpITE:
		return fmt.Sprintf("[%s ? %s : %s]", t.Args[0].str(d+1), t.Args[1].str(d+1), t.Args[2].str(d+1))
	case OpLE:
		return t.Args[0].str(d+1) + "<=0"
	case OpEQ:
		return t.Args[0].str(d+1) + "==" + t.Args[1].str(d+1)
	case OpBool:
		return t.Args[0].str(d + 1)
	case OpParam:
		return "$" + t.S
	case OpGlobal, OpFunc:
		return t.S
	case OpFieldAddr:
		return "&" + t.Args[0].str(d+1) + "." + t.S[strings.LastIndex(t.S, ".")+1:]
	case OpIndexAddr:
		return "&" + t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case OpLd:
		a := t.Args[0].str(d + 1)
		v := ""
		if t.S != "" {
			v = "@" + t.S
		}
		if strings.HasPrefix(a, "&") {
			return a[1:] + v
		}
		return "*" + a + v
	case OpSlice:
		return fmt.Sprintf("%s[%s:%s]", t.Args[0].str(d+1), t.Args[1].str(d+1), t.Args[2].str(d+1))
	case OpApp:
		return t.S + "(" + as() + ")"
	case OpIter:
		return "i" + t.Loop.Short()
	case OpMu:
		return "mu" + t.Loop.Short() + "{" + t.S + "}"
	}
	s := opNames[t.Op]
	if t.S != "" {
		s += ":" + t.S
	}
	if t.Loop != nil {
		s += t.Loop.Short()
	}
	if t.N != 0 {
		s += "#" + strconv.Itoa(t.N)
	}
	if len(t.Args) == 0 {
		return s
	}
	return s + "(" + as() + ")"
}

// Contains reports whether x occurs in t.
func Contains(t, x *Term) bool {
	seen := map[*Term]bool{}
	var f func(*Term) bool
	f = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// Any reports whether some subterm satisfies p.
func Any(t *Term, p func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var f func(*Term) bool
	f = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if p(t) {
			return true
		}
		for _, a := range t.Args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}
