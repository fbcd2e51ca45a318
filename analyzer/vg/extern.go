package vg

import (
	"go/types"
	"strings"
)

// appNorm builds a pure application in normal form.
func appNorm(name string, typ types.Type, a []*Term) *Term {
	switch name {
	case "runecount":
		return lift1("rc", a[0], func(s *Term) *Term {
			if s.IsStr() {
				return Int(int64(len([]rune(s.Str()))))
			}
			// a walk of exactly k runes has k runes
			if s.Op == OpSlice && s.Args[1] == s.Args[2] {
				return Int(0)
			}
			if s.Op == OpSlice && s.Args[2].Op == OpROff && s.Args[2].Args[0] == s.Args[0] {
				hi := s.Args[2]
				if lo := s.Args[1]; lo.Op == OpROff && lo.Args[0] == s.Args[0] && lo.Args[1] == hi.Args[1] {
					return Sub(hi.Args[2], lo.Args[2])
				}
				if s.Args[1] == hi.Args[1] {
					return hi.Args[2]
				}
			}
			// a suffix that starts on a walk of the string
			if s.Op == OpSlice && s.Args[2] == Len(s.Args[0]) && s.Args[1].Op == OpROff && s.Args[1].Args[0] == s.Args[0] && s.Args[1].Args[1].IsConst(0) {
				return Sub(appNorm("runecount", typ, []*Term{s.Args[0]}), s.Args[1].Args[2])
			}
			return mk(Term{Op: OpApp, S: name, Args: []*Term{s}, Typ: types.Typ[types.Int]})
		})
	case "runeat", "runelen":
		return lift2("ra", a[0], a[1], func(s, o *Term) *Term {
			if s.Op == OpSlice && s.Args[2] == Len(s.Args[0]) {
				return appNorm(name, typ, []*Term{s.Args[0], Add(s.Args[1], o)})
			}
			return mk(Term{Op: OpApp, S: name, Args: []*Term{s, o}, Typ: typ})
		})
	}
	switch name {
	case "strings.HasPrefix":
		if a[1].IsStr() && a[0].Op != OpITE {
			return EQ(appNorm("strings.Index", types.Typ[types.Int], a), Int(0))
		}
	case "strings.Contains":
		if a[1].Op != OpITE && a[0].Op != OpITE {
			return LE(Int(0), appNorm("strings.Index", types.Typ[types.Int], a))
		}
	case "strings.ContainsRune":
		if a[1].IsInt() && a[1].C < 128 && a[1].C > 0 && a[0].Op != OpITE {
			return LE(Int(0), appNorm("strings.Index", types.Typ[types.Int], []*Term{a[0], Str(string(rune(a[1].C)))}))
		}
	case "strings.IndexByte", "strings.IndexRune":
		if a[1].IsInt() && a[1].C < 128 && a[1].C > 0 && a[0].Op != OpITE {
			return appNorm("strings.Index", types.Typ[types.Int], []*Term{a[0], Str(string(rune(a[1].C)))})
		}
	case "bytes.Join":
		if a[1] != Nil && a[1].Op != OpITE && Len(a[1]).IsConst(0) {
			return appNorm(name, typ, []*Term{a[0], Nil})
		}
	case "strings.Index":
		if a[0].IsStr() && a[1].IsStr() {
			return Int(int64(strings.Index(a[0].Str(), a[1].Str())))
		}
		if a[1].IsStr() && a[1].Str() == "" {
			return Int(0)
		}
	}
	// lift over the first conditional argument with few leaves
	for i, x := range a {
		if x.Op == OpITE && len(Leaves(x, True)) <= 4 {
			return lift1("app", x, func(v *Term) *Term {
				b := append([]*Term(nil), a...)
				b[i] = v
				return appNorm(name, typ, b)
			})
		}
	}
	return mk(Term{Op: OpApp, S: name, Args: a, Typ: typ})
}

// purePkgs are packages whose functions neither read mutable state nor write.
func isPure(full string) bool {
	for _, p := range []string{"unicode.", "unicode/utf8.", "strings.", "strconv.", "errors.", "fmt.Sprint", "fmt.Errorf", "bytes.", "path/filepath.Base",
		"(*strings.Replacer).Replace", "html.EscapeString", "html/template.HTMLEscapeString", "math."} {
		if strings.HasPrefix(full, p) {
			switch full {
			case "strings.NewReader", "bytes.NewReader", "bytes.NewBuffer", "bytes.NewBufferString":
				return false
			}
			return true
		}
	}
	const d = "github.com/ikawaha/kagome-dict/dict."
	switch full {
	case "(*" + d + "Dict).CharacterCategory", "(" + d + "Dict).CharacterCategory", "(*" + d + "ConnectionTable).At", "(" + d + "ConnectionTable).At":
		return true
	}
	return false
}

// readsOnly lists effectful externals that do not write memory we model.
func readsOnly(full string) bool {
	for _, p := range []string{"fmt.", "log.", "encoding/json.Marshal", "net/http.Error", "os.", "io.", "(*sync.Pool)", "context.", "time.", "os/exec.LookPath", "os/exec.Command", "flag.NewFlagSet", "(*flag.FlagSet).SetOutput", "(*flag.FlagSet).StringVar", "(*flag.FlagSet).BoolVar", "(*flag.FlagSet).PrintDefaults", "(*flag.FlagSet).Args", "(*flag.FlagSet).NArg", "(*bufio.Writer)", "(*strings.Builder)", "runtime/debug."} {
		if strings.HasPrefix(full, p) {
			return true
		}
	}
	return false
}
