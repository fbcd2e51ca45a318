package main

import (
	"fmt"
	"go/token"
	"path"
	"regexp"
	"strings"

	"kcheck/vg"
)

// A proc is the graphviz process of a request.
type proc struct {
	c      *Ctx
	s      *vg.Summary
	cmd    *vg.Term
	start  *vg.Event
	stdin  *vg.Term
	stdout *vg.Term
	done   *vg.Term // its end was seen
	fail   *vg.Term // it is missing, fails or is slow
}

var graphviz = map[string]bool{"dot": true, "neato": true, "circo": true, "fdp": true, "sfdp": true, "twopi": true, "osage": true}

// attributes, the scale and silence
var graphvizAttr = regexp.MustCompile(`^-([GNE][A-Za-z]+=.*|q[0-9]?|s[0-9.]+)$`)

func (c *Ctx) subprocess(s *vg.Summary, req *vg.Term) *proc {
	c.For("C22")
	pos := s.Fn.Pos()
	for _, ev := range calls(s, "os/exec.Command", "os.StartProcess", "syscall.ForkExec", "(*os/exec.Cmd).StdinPipe", "(*os/exec.Cmd).StdoutPipe", "(*os/exec.Cmd).StderrPipe", "io.Pipe", "os.Pipe") {
		what := "undecided: data goes through pipes"
		if ev.Callee == "os/exec.Command" || !strings.HasSuffix(ev.Callee, "ipe") {
			what = "a process is bound to a context"
		}
		c.Ob(false, ev.Pos, "%s (%s)", what, ev.Callee)
	}
	mk := calls(s, "os/exec.CommandContext")
	if !c.Ob(len(mk) == 1 && len(mk[0].Loops) == 0 && mk[0].GoDepth == 0, pos, "undecided: one process is started, at one place (found %d)", len(mk)) {
		return nil
	}
	p := &proc{c: c, s: s, cmd: mk[0].Res, done: vg.False, fail: vg.False}
	c.For("C20")
	prog, args := mk[0].Args[1], mk[0].Args[2]
	for _, ev := range calls(s, "os/exec.LookPath") {
		if prog == vg.Extract(ev.Res, 0, nil) {
			prog = ev.Args[0]
		}
	}
	c.Ob(prog.IsStr() && graphviz[path.Base(prog.Str())], mk[0].Pos, "the process is graphviz (got %s)", ts(prog))
	if args.Op != vg.OpSeqLit {
		if q := s.E.SeqOf(mk[0].Mem, args); q != nil {
			args = q
		}
	}
	if c.Ob(args.Op == vg.OpSeqLit, mk[0].Pos, "undecided: the arguments of the process (%s)", ts(mk[0].Args[2])) {
		svg := false
		for i, a := range args.Args {
			isSvg := a.IsStr() && a.Str() == "-Tsvg"
			svg = svg || isSvg
			c.Ob(a.IsStr() && (isSvg || strings.HasPrefix(a.Str(), "-K") || graphvizAttr.MatchString(a.Str())), mk[0].Pos, "argument %d of graphviz changes neither its input nor its output (got %s)", i+1, ts(a))
		}
		c.Ob(svg, mk[0].Pos, "graphviz prints SVG")
	}
	c.For("C22")
	var base *vg.Term
	for _, ev := range calls(s, "(*net/http.Request).Context") {
		if ev.Args[0] == req {
			base = ev.Res
		}
	}
	bound := func(ctx *vg.Term) bool {
		fixed, _ := timed(s, ctx)
		return fixed && base != nil && derives(s, ctx, base)
	}
	fixed, _ := timed(s, mk[0].Args[0])
	c.Ob(fixed, mk[0].Pos, "the process is bound to a fixed time")
	c.Ob(base != nil && derives(s, mk[0].Args[0], base), mk[0].Pos, "the process is bound to the request")
	c.released(s)

	starts := calls(s, "(*os/exec.Cmd).Start", "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput")
	if !c.Ob(len(starts) == 1 && starts[0].Args[0] == p.cmd && len(starts[0].Loops) == 0 && starts[0].GoDepth == 0, pos, "undecided: the process is started at one place (found %d)", len(starts)) {
		return nil
	}
	p.start = starts[0]
	ct := p.start.Static.Signature.Recv().Type().Underlying()
	st := deref(ct)
	field := func(ev *vg.Event, name string) *vg.Term {
		return s.E.Load(ev.Mem, vg.FAddr(p.cmd, st, fieldByName(st, name)), fieldType(st, name))
	}
	for _, ev := range s.Events {
		if ev.Kind == vg.EvStore && (ev.Addr == vg.FAddr(p.cmd, st, fieldByName(st, "Path")) || ev.Addr == vg.FAddr(p.cmd, st, fieldByName(st, "Args"))) {
			c.Ob(false, ev.Pos, "the process that was asked for is the one run")
		}
	}
	p.stdin, p.stdout = field(p.start, "Stdin"), field(p.start, "Stdout")
	c.Ob(token.NoPos == p.cancelBefore(), p.start.Pos, "the process is not ended before its time")
	delay := func(ev *vg.Event) bool {
		d := field(ev, "WaitDelay")
		return d.IsInt() && d.C > 0 && d.C <= int64(60)*1e9
	}
	started := vg.True
	errOf := func(ev *vg.Event) *vg.Term {
		if strings.HasSuffix(ev.Callee, "utput") {
			return vg.Extract(ev.Res, 1, errorType)
		}
		return ev.Res
	}
	for _, ev := range calls(s, "os/exec.LookPath") {
		p.fail = vg.Or(p.fail, vg.And(ev.Cond, vg.NonNil(vg.Extract(ev.Res, 1, errorType))))
	}
	started = vg.And(p.start.Cond, vg.Not(vg.NonNil(errOf(p.start))))
	p.fail = vg.Or(p.fail, vg.And(p.start.Cond, vg.NonNil(errOf(p.start))))
	if p.start.Callee != "(*os/exec.Cmd).Start" {
		c.Ob(delay(p.start), p.start.Pos, "the handler does not wait for those that inherit the pipes of the process")
		p.done = started
		return p
	}
	waited := vg.False
	for _, ev := range calls(s, "(*os/exec.Cmd).Wait") {
		if ev.Args[0] != p.cmd {
			continue
		}
		waited = vg.Or(waited, ev.Cond)
		if ev.GoDepth == 0 {
			c.Ob(delay(ev), ev.Pos, "the handler does not wait for those that inherit the pipes of the process")
			p.done = vg.Or(p.done, ev.Cond)
			p.fail = vg.Or(p.fail, vg.And(ev.Cond, vg.NonNil(ev.Res)))
			continue
		}
		told := false
		for _, sd := range s.Events {
			if sd.Kind != vg.EvSend || sd.GoDepth == 0 || !(sd.Val == ev.Res || passes(sd.Val, ev.Res) && vg.Implies(vg.NonNil(sd.Val), vg.NonNil(ev.Res))) || !vg.Implies(ev.Cond, sd.Cond) {
				continue
			}
			told = true
			for _, rv := range s.Events {
				if rv.GoDepth > 0 {
					continue
				}
				got := recvCond(rv, sd.Addr)
				if got == vg.False {
					continue
				}
				p.done = vg.Or(p.done, got)
				val := rv.Res
				if rv.Kind == vg.EvSelect {
					for i, x := range rv.Chans {
						if x == sd.Addr {
							val = vg.Extract(rv.Res, 2+i-nsends(rv, i), errorType)
						}
					}
				}
				p.fail = vg.Or(p.fail, vg.And(got, vg.NonNil(val)))
			}
		}
		c.Ob(told, ev.Pos, "the handler is told how the process ended")
	}
	c.Ob(vg.Implies(started, waited), p.start.Pos, "a started process is waited for")
	for _, ev := range s.Events {
		if ev.Kind == vg.EvSend && ev.GoDepth > 0 {
			_, room := sent(s, ev.Addr)
			c.Ob(room, ev.Pos, "the goroutine never blocks on its channel (%s)", ts(ev.Addr))
		}
		if ev.GoDepth > 0 {
			continue
		}
		switch {
		case ev.Kind == vg.EvRecv:
			ctx := false
			for _, d := range calls(s, "(context.Context).Done") {
				ctx = ctx || d.Res == ev.Addr && bound(d.Args[0])
			}
			c.Ob(ctx, ev.Pos, "the handler never waits for one event alone")
		case ev.Kind == vg.EvSelect:
			end := doneOf(s, ev, bound)
			if c.Ob(vg.Sat(end), ev.Pos, "the handler waits no longer than its context") {
				p.fail = vg.Or(p.fail, end)
			}
			c.Ob(len(ev.Loops) == 0, ev.Pos, "undecided: the handler waits in a loop")
		case ev.Kind == vg.EvSend, ev.Kind == vg.EvCall && (ev.Callee == "(*sync.WaitGroup).Wait" || ev.Callee == "time.Sleep" || ev.Callee == "(*sync.Cond).Wait" || ev.Callee == "(*os.Process).Wait"):
			c.Ob(false, ev.Pos, "the handler waits no longer than its context")
		}
	}
	// every path past a start sees its end or that of the context
	c.Ob(vg.Implies(started, vg.Or(p.done, p.fail)), p.start.Pos, "the end of the process is seen (not when %s)", ts(vg.And(started, vg.Not(vg.Or(p.done, p.fail)))))
	return p
}

// cancelBefore finds the context of the process being ended while it runs.
func (p *proc) cancelBefore() token.Pos {
	at := indexOf(p.s.Events, p.start)
	last := at
	for i, ev := range p.s.Events {
		if ev.GoDepth == 0 && (ev.Kind == vg.EvSelect || ev.Kind == vg.EvRecv || ev.Kind == vg.EvCall && ev.Callee == "(*os/exec.Cmd).Wait") {
			last = i
		}
	}
	for i, ev := range p.s.Events {
		if i > last || ev.Kind != vg.EvCall || ev.Callee != "dynamic" {
			continue
		}
		for _, w := range calls(p.s, "context.WithTimeout", "context.WithCancel", "context.WithDeadline") {
			if f := ev.Args[0]; f.Op == vg.OpExtract && f.N == 1 && f.Args[0] == w.Res && vg.Sat(vg.And(ev.Cond, p.start.Cond)) {
				return ev.Pos
			}
		}
	}
	return token.NoPos
}

// feeds reports whether the process reads what was written to buf.
func (p *proc) feeds(buf *vg.Term) bool {
	in := vg.Unbox(p.stdin)
	if in == buf {
		return true
	}
	for _, ev := range calls(p.s, "bytes.NewReader", "bytes.NewBuffer", "strings.NewReader", "bytes.NewBufferString") {
		if ev.Res != in {
			continue
		}
		for _, b := range calls(p.s, "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*strings.Builder).String") {
			if b.Res == textConv(ev.Args[0]) && b.Args[0] == buf {
				return true
			}
		}
	}
	return false
}

// output reports whether y is what the process printed, read after its end.
func (p *proc) output(y *vg.Term) bool {
	if p.start.Callee == "(*os/exec.Cmd).Output" && y == vg.Extract(p.start.Res, 0, bytesType) {
		return true
	}
	for _, ev := range calls(p.s, "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*strings.Builder).String") {
		if ev.Res == y && ev.Args[0] == vg.Unbox(p.stdout) && vg.Implies(ev.Cond, p.done) && ev.Args[0] != vg.Unbox(p.stdin) {
			return true
		}
	}
	return false
}

// scripts

type jsTok struct {
	s    string
	kind byte // 'i' name, 's' string, 'p' punctuation
}

var scriptRE = regexp.MustCompile(`(?is)<script\b([^>]*)>(.*?)</script>`)
var handlerRE = regexp.MustCompile(`(?is)\son[a-z]+\s*=\s*("[^"]*"|'[^']*')`)

// scriptSinks finds the places where a script of a page turns something other
// than a constant into HTML or code.
func scriptSinks(page string) []string {
	var out []string
	for _, m := range scriptRE.FindAllStringSubmatch(page, -1) {
		out = append(out, jsSinks(m[2])...)
	}
	for _, m := range handlerRE.FindAllStringSubmatch(page, -1) {
		out = append(out, jsSinks(m[1][1:len(m[1])-1])...)
	}
	return out
}

func jsLex(src string) []jsTok {
	var ts []jsTok
	name := func(b byte) bool {
		return b == '_' || b == '$' || b >= '0' && b <= '9' || b|0x20 >= 'a' && b|0x20 <= 'z' || b >= 0x80
	}
	for i := 0; i < len(src); {
		b := src[i]
		switch {
		case b <= ' ':
			i++
		case strings.HasPrefix(src[i:], "//"):
			if j := strings.IndexByte(src[i:], '\n'); j >= 0 {
				i += j
			} else {
				i = len(src)
			}
		case strings.HasPrefix(src[i:], "/*"):
			if j := strings.Index(src[i+2:], "*/"); j >= 0 {
				i += j + 4
			} else {
				i = len(src)
			}
		case b == '"' || b == '\'' || b == '`':
			j := i + 1
			for j < len(src) && src[j] != b {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			j = min(j+1, len(src))
			k := byte('s')
			if b == '`' && strings.Contains(src[i:j], "${") || strings.Contains(src[i:j], "{{") {
				k = 'i' // not constant
			}
			ts = append(ts, jsTok{src[i:j], k})
			i = j
		case name(b):
			j := i
			for j < len(src) && name(src[j]) {
				j++
			}
			ts = append(ts, jsTok{src[i:j], 'i'})
			i = j
		default:
			ts = append(ts, jsTok{src[i : i+1], 'p'})
			i++
		}
	}
	return ts
}

type jsScript struct {
	t    []jsTok
	seen map[string]bool
}

func (j *jsScript) is(i int, s string) bool { return i >= 0 && i < len(j.t) && j.t[i].s == s }

// end gives the index after the bracket that closes the one at i.
func (j *jsScript) end(i int) int {
	d := 0
	for ; i < len(j.t); i++ {
		if j.t[i].kind != 'p' {
			continue
		}
		switch j.t[i].s {
		case "(", "[", "{":
			d++
		case ")", "]", "}":
			if d--; d == 0 {
				return i + 1
			}
		}
	}
	return len(j.t)
}

// args splits the arguments of the call whose bracket is at i.
func (j *jsScript) args(i int) [][2]int {
	e := j.end(i) - 1
	var out [][2]int
	from := i + 1
	for k := i + 1; k < e; k++ {
		if j.t[k].kind == 'p' {
			switch j.t[k].s {
			case "(", "[", "{":
				k = j.end(k) - 1
				continue
			case ",":
				out = append(out, [2]int{from, k})
				from = k + 1
			}
		}
	}
	if from < e {
		out = append(out, [2]int{from, e})
	}
	return out
}

func (j *jsScript) constant(a, b int) bool {
	for i := a; i < b; i++ {
		if j.t[i].kind != 's' && !(j.t[i].s == "+" && i > a) {
			return false
		}
	}
	return a < b
}

// safe reports whether an expression is constant HTML, or elements made from
// constant HTML whose variable contents were added as text.
func (j *jsScript) safe(a, b int) bool {
	if j.constant(a, b) {
		return true
	}
	if b-a == 1 && j.t[a].kind == 'i' {
		return j.safeVar(j.t[a].s)
	}
	i := a
	switch {
	case (j.is(a, "$") || j.is(a, "jQuery")) && j.is(a+1, "("):
		as := j.args(a + 1)
		if len(as) == 0 || !j.constant(as[0][0], as[0][1]) {
			return false
		}
		i = j.end(a + 1)
	case j.is(a, "document") && j.is(a+1, ".") && (j.is(a+2, "createElement") || j.is(a+2, "createTextNode")) && j.is(a+3, "("):
		i = j.end(a + 3)
	default:
		return false
	}
	// the calls that follow are sinks of their own or harmless
	for i < b && j.is(i, ".") && j.is(i+2, "(") {
		i = j.end(i + 2)
	}
	return i == b
}

func (j *jsScript) safeVar(name string) bool {
	if j.seen[name] {
		return true
	}
	j.seen[name] = true
	n := 0
	for i := range j.t {
		if j.t[i].s != name || j.t[i].kind != 'i' || j.is(i-1, ".") {
			continue
		}
		if j.is(i+1, "=") && !j.is(i+2, "=") {
			e := i + 2
			for e < len(j.t) && !(j.t[e].kind == 'p' && strings.Contains(";,)}]", j.t[e].s)) {
				if j.t[e].kind == 'p' && strings.Contains("([{", j.t[e].s) {
					e = j.end(e)
				} else {
					e++
				}
			}
			if !j.safe(i+2, e) {
				return false
			}
			n++
		} else if j.is(i+1, "+") && j.is(i+2, "=") {
			return false
		}
	}
	return n > 0
}

func jsSinks(src string) []string {
	j := &jsScript{t: jsLex(src)}
	var out []string
	bad := func(a, b int) {
		s := ""
		for i := a; i < b && i < len(j.t); i++ {
			s += j.t[i].s
		}
		out = append(out, fmt.Sprintf("%.80q", s))
	}
	safe := func(a, b int) bool {
		j.seen = map[string]bool{}
		return j.safe(a, b)
	}
	for i, t := range j.t {
		if t.kind != 'i' {
			continue
		}
		switch t.s {
		case "append", "prepend", "after", "before", "html", "replaceWith", "wrap", "wrapAll", "wrapInner", "insertAdjacentHTML", "write", "writeln", "createContextualFragment", "parseHTML", "globalEval", "setHTMLUnsafe":
			if j.is(i-1, ".") && j.is(i+1, "(") {
				for _, a := range j.args(i + 1) {
					if !safe(a[0], a[1]) {
						bad(i, j.end(i+1))
						break
					}
				}
			}
		case "appendTo", "prependTo", "insertAfter", "insertBefore", "replaceAll":
			if j.is(i-1, ".") && j.is(i+1, "(") {
				a := i - 2
				for d := 0; a >= 0; a-- {
					if j.t[a].kind == 'p' {
						if strings.Contains(")]}", j.t[a].s) {
							d++
						} else if strings.Contains("([{", j.t[a].s) {
							d--
						}
						if d < 0 || d == 0 && strings.Contains(";={},", j.t[a].s) && j.t[a].s != "}" {
							break
						}
					}
				}
				if !safe(a+1, i-1) {
					bad(a+1, j.end(i+1))
				}
			}
		case "innerHTML", "outerHTML", "srcdoc":
			if j.is(i-1, ".") && (j.is(i+1, "=") && !j.is(i+2, "=") || j.is(i+1, "+") && j.is(i+2, "=")) {
				e := i + 1
				for e < len(j.t) && !j.is(e, ";") {
					e++
				}
				f := i + 2
				if j.is(i+1, "+") {
					f++
				}
				if !j.constant(f, e) {
					bad(i, e)
				}
			}
		case "eval", "Function":
			if j.is(i+1, "(") {
				bad(i, j.end(i+1))
			}
		case "$", "jQuery":
			if j.is(i+1, "(") {
				as := j.args(i + 1)
				if len(as) > 0 {
					a, b := as[0][0], as[0][1]
					ok := safe(a, b) || b-a == 1 && (j.is(a, "document") || j.is(a, "this") || j.is(a, "window")) || j.is(a, "function")
					if !ok {
						bad(i, j.end(i+1))
					}
				}
			}
		}
	}
	return out
}
