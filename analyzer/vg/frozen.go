package vg

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Tables: unexported package variables that are set by their initialiser to a
// literal of constants, and that no function writes or hands on. Reading one
// is reading that literal.

type table struct {
	val        *Term // scalar
	keys, vals []*Term
	elem       types.Type
	isMap      bool
}

var tables = map[string]*table{}

const tableMax = 64

// FindTables looks for tables among the variables of the packages that in
// accepts.
func FindTables(prog *ssa.Program, in func(*types.Package) bool) {
	tables = map[string]*table{}
	bad := map[*ssa.Global]bool{}
	for fn := range ssautil.AllFunctions(prog) {
		init := fn.Synthetic != "" && fn.Name() == "init"
		for _, b := range fn.Blocks {
			for _, x := range b.Instrs {
				for _, op := range x.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if ok && g.Pkg != nil && in(g.Pkg.Pkg) && !onlyRead(g, x, init) {
						bad[g] = true
					}
				}
			}
		}
	}
	for _, p := range prog.AllPackages() {
		if !in(p.Pkg) {
			continue
		}
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok || bad[g] || g.Object() == nil || g.Object().Exported() {
				continue
			}
			if t := initial(p.Func("init"), g); t != nil {
				tables[g.String()] = t
			}
		}
	}
}

// onlyRead reports whether instruction x reads variable g, or initialises it.
func onlyRead(g *ssa.Global, x ssa.Instruction, init bool) bool {
	switch x := x.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.Store:
		return init && x.Addr == g
	case *ssa.UnOp:
		return valueRead(x, map[ssa.Value]bool{})
	case *ssa.IndexAddr:
		return addrRead(x, init)
	}
	return false
}

func valueRead(v ssa.Value, seen map[ssa.Value]bool) bool {
	seen[v] = true
	switch v.Type().Underlying().(type) {
	case *types.Basic, *types.Signature:
		return true
	case *types.Map, *types.Slice, *types.Array:
	default:
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef, *ssa.Lookup, *ssa.Range, *ssa.Index:
		case *ssa.IndexAddr:
			if !addrRead(r, false) {
				return false
			}
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); ok {
				if b.Name() != "len" {
					return false
				}
				continue
			}
			fn := r.Call.StaticCallee()
			if fn == nil || r.Call.Value == v || len(fn.Params) != len(r.Call.Args) {
				return false
			}
			if fn.String() == "strings.Join" {
				continue
			}
			for i, a := range r.Call.Args {
				if a == v && (len(fn.Blocks) == 0 || seen[fn.Params[i]] || !valueRead(fn.Params[i], seen)) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func addrRead(v ssa.Value, init bool) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
		case *ssa.Store:
			if !init || r.Addr != v {
				return false
			}
		case *ssa.FieldAddr:
			if !addrRead(r, init) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// initial reads the literal that init stores in g.
func initial(init *ssa.Function, g *ssa.Global) *table {
	if init == nil {
		return nil
	}
	var st []*ssa.Store
	var ia []*ssa.IndexAddr
	for _, b := range init.Blocks {
		for _, x := range b.Instrs {
			switch x := x.(type) {
			case *ssa.Store:
				if x.Addr == g {
					st = append(st, x)
				}
			case *ssa.IndexAddr:
				if x.X == g {
					ia = append(ia, x)
				}
			}
		}
	}
	typ := deref(g.Type())
	if a, ok := typ.Underlying().(*types.Array); ok {
		if len(st) == 1 && len(ia) == 0 {
			u, ok := st[0].Val.(*ssa.UnOp)
			if !ok {
				return nil
			}
			al, ok := u.X.(*ssa.Alloc)
			if !ok {
				return nil
			}
			for _, r := range *al.Referrers() {
				switch r := r.(type) {
				case *ssa.DebugRef:
				case *ssa.UnOp:
					if r != u {
						return nil
					}
				case *ssa.IndexAddr:
					ia = append(ia, r)
				default:
					return nil
				}
			}
		} else if len(st) > 0 || len(ia) == 0 {
			return nil
		}
		return array(a.Elem(), int(a.Len()), ia)
	}
	if len(st) != 1 || len(ia) > 0 {
		return nil
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic, *types.Signature:
		if v := literal(st[0].Val); v != nil {
			return &table{val: v}
		}
	case *types.Map:
		mm, ok := st[0].Val.(*ssa.MakeMap)
		if !ok {
			return nil
		}
		t := &table{isMap: true, elem: u.Elem()}
		for _, r := range *mm.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Store:
				if r != st[0] {
					return nil
				}
			case *ssa.MapUpdate:
				k, v := literal(r.Key), literal(r.Value)
				if k == nil || v == nil || r.Block() != mm.Block() || k.Op != OpConst && !k.IsInt() || len(t.keys) == tableMax {
					return nil
				}
				t.keys, t.vals = append(t.keys, k), append(t.vals, v)
			default:
				return nil
			}
		}
		return t
	case *types.Slice:
		sl, ok := st[0].Val.(*ssa.Slice)
		if !ok || sl.Low != nil || sl.High != nil || len(*sl.Referrers()) != 1 {
			return nil
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			return nil
		}
		for _, r := range *al.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Slice:
				if r != sl {
					return nil
				}
			case *ssa.IndexAddr:
				ia = append(ia, r)
			default:
				return nil
			}
		}
		return array(u.Elem(), int(deref(al.Type()).Underlying().(*types.Array).Len()), ia)
	}
	return nil
}

func array(elem types.Type, n int, ia []*ssa.IndexAddr) *table {
	if n > tableMax {
		return nil
	}
	t := &table{elem: elem, keys: make([]*Term, n), vals: make([]*Term, n)}
	for i := range t.vals {
		t.keys[i], t.vals[i] = Int(int64(i)), zero(elem)
	}
	set := make([]bool, n)
	for _, x := range ia {
		c, ok := x.Index.(*ssa.Const)
		if !ok {
			continue
		}
		i := int(c.Int64())
		if !addrRead(x, true) {
			return nil
		}
		v, any := stored(x, elem)
		if !any {
			continue
		}
		if v == nil || i < 0 || i >= n || set[i] {
			return nil
		}
		set[i] = true
		t.vals[i] = v
	}
	return t
}

// stored is what the stores to address a, of type typ, leave there.
func stored(a ssa.Value, typ types.Type) (v *Term, any bool) {
	var fields map[int]*Term
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if any {
				return nil, true
			}
			v, any = literal(r.Val), true
		case *ssa.FieldAddr:
			st := structOf(typ)
			if st == nil {
				return nil, true
			}
			f, some := stored(r, st.Field(r.Field).Type())
			if !some {
				continue
			}
			if f == nil || any || fields[r.Field] != nil {
				return nil, true
			}
			if fields == nil {
				fields = map[int]*Term{}
			}
			fields[r.Field] = f
		}
	}
	if fields == nil {
		return v, any
	}
	if any {
		return nil, true
	}
	return structure(typ, fields), true
}

func structure(typ types.Type, fields map[int]*Term) *Term {
	st := structOf(typ)
	args := make([]*Term, st.NumFields())
	for i := range args {
		if args[i] = fields[i]; args[i] == nil {
			args[i] = zero(st.Field(i).Type())
		}
	}
	return mk(Term{Op: OpStruct, Args: args, Typ: typ})
}

func literal(v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Function:
		return mk(Term{Op: OpFunc, S: v.String(), Fn: v, Typ: v.Type()})
	case *ssa.ChangeType:
		return literal(v.X)
	case *ssa.UnOp:
		if al, ok := v.X.(*ssa.Alloc); ok && structOf(v.Type()) != nil {
			for _, r := range *al.Referrers() {
				switch r.(type) {
				case *ssa.FieldAddr, *ssa.UnOp, *ssa.DebugRef:
				default:
					return nil
				}
			}
			if t, any := stored(al, v.Type()); any {
				return t
			}
			return zero(v.Type())
		}
	}
	return nil
}

// tableOf is the table that t, a variable's address or its value, names.
func tableOf(t *Term) *table {
	if t.Op == OpLd {
		t = t.Args[0]
	}
	if t.Op != OpGlobal {
		return nil
	}
	return tables[t.S]
}

// tableLoad is what a load from address a yields when a is in a table.
func tableLoad(a *Term, typ types.Type) *Term {
	switch a.Op {
	case OpGlobal:
		if t := tables[a.S]; t != nil {
			return t.val
		}
	case OpFieldAddr:
		if x := a.Args[0]; x.Op == OpIndexAddr && x.S == "" && tableOf(x.Args[0]) != nil {
			v := tableLoad(x, tableOf(x.Args[0]).elem)
			if v == nil {
				return nil
			}
			return lift1("tablefield", v, func(v *Term) *Term {
				if v.Op == OpStruct {
					return v.Args[a.N]
				}
				return mk(Term{Op: OpLd, Args: []*Term{a}, Typ: typ})
			})
		}
	case OpIndexAddr:
		t := tableOf(a.Args[0])
		if t == nil || t.elem == nil || a.S != "" != t.isMap {
			return nil
		}
		k := a.Args[1]
		var v *Term
		switch a.S {
		case "":
			v = mk(Term{Op: OpLd, Args: []*Term{a}, Typ: typ}) // out of range
		case "map":
			v = zero(typ)
		case "maphas":
			v = False
		default:
			return nil
		}
		for i := len(t.keys) - 1; i >= 0; i-- {
			w := True
			if a.S != "maphas" {
				w = t.vals[i]
			}
			v = Ite(EQ(k, t.keys[i]), w, v)
		}
		return v
	}
	return nil
}

// tableLen is the number of entries of a table, nil if t is none.
func tableLen(t *Term) *Term {
	if t.Op == OpLd {
		if x := tableOf(t); x != nil && x.elem != nil {
			return Int(int64(len(x.keys)))
		}
	}
	return nil
}
