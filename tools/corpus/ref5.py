# refactorings with generics, new files and packages, embedded types, method values
K='tokenizer/tokenizer.go';T='tokenizer/token.go';L='tokenizer/lattice/lattice.go';FF='filter/feature.go';FW='filter/word.go';FP='filter/pos.go'
FA='filter/filter.go';JF='filter/ja/filter.go';CT='cmd/tokenize/cmd.go';CL='cmd/lattice/cmd.go';CN='cmd/sentence/cmd.go';CS='cmd/server/cmd.go';CA='cmd/server/api.go';CD='cmd/server/demo.go';MA='kagome.go'
ATOK='''		pos := t.dict.POSTable.POSs[t.ID]
		if i < len(pos) {
			id := pos[i]
			if int(id) >= len(t.dict.POSTable.NameList) {
				return "", false
			}
			return t.dict.POSTable.NameList[id], true
		}
		i -= len(pos)
		if len(t.dict.Contents) <= t.ID {
			return "", false
		}
		c := t.dict.Contents[t.ID]
		if i >= len(c) {
			return "", false
		}
		return c[i], true
	case UNKNOWN:
		if len(t.dict.UnkDict.Contents) <= t.ID {
			return "", false
		}
		c := t.dict.UnkDict.Contents[t.ID]
		if i >= len(c) {
			return "", false
		}
		return c[i], true
'''
R('a-gen-at',T,ATOK,'''		pos := t.dict.POSTable.POSs[t.ID]
		if id, ok := at(pos, i); ok {
			return at(t.dict.POSTable.NameList, int(id))
		}
		c, _ := at(t.dict.Contents, t.ID)
		return at(c, i-len(pos))
	case UNKNOWN:
		c, _ := at(t.dict.UnkDict.Contents, t.ID)
		return at(c, i)
''',T,None,'''
func at[E any](s []E, i int) (e E, ok bool) {
	if i >= len(s) {
		return e, false
	}
	return s[i], true
}
''')
LOOP='''	tail := 0
	for i, v := range *tokens {
		if f.Match(v.%s) == drop {
			continue
		}
		if i != tail {
			(*tokens)[tail] = v
		}
		tail++
	}
	*tokens = (*tokens)[:tail]
'''
R('a-gen-keep',FW,LOOP%'Surface','''	*tokens = selected(*tokens, func(v tokenizer.Token) bool { return f.Match(v.Surface) != drop })
''',FP,LOOP%'POS()','''	*tokens = selected(*tokens, func(v tokenizer.Token) bool { return f.Match(v.POS()) != drop })
''','filter/selected.go',None,'''package filter

func selected[T any](s []T, want func(T) bool) []T {
	n := 0
	for _, v := range s {
		if want(v) {
			s[n] = v
			n++
		}
	}
	return s[:n]
}
''')
R('a-gen-append',FW,LOOP%'Surface','''	*tokens = selected(*tokens, func(v tokenizer.Token) bool { return f.Match(v.Surface) != drop })
''','filter/selected.go',None,'''package filter

func selected[S ~[]T, T any](s S, want func(T) bool) S {
	r := s[:0]
	for i := range s {
		if want(s[i]) {
			r = append(r, s[i])
		}
	}
	return r
}
''')
SURF='''		if tok.ID == BosEosID {
			if i == 0 {
				tok.Surface = "BOS"
			} else {
				tok.Surface = "EOS"
			}
		}
'''
R('a-pkg',T,'''	if len(lhs) != len(rhs) {
		return false
	}
	for i := 0; i < len(lhs); i++ {
		if lhs[i] != rhs[i] {
			return false
		}
	}
	return true
''','	return seq.Equal(lhs, rhs)\n',T,'	"github.com/ikawaha/kagome-dict/dict"\n','	"github.com/ikawaha/kagome-dict/dict"\n	"github.com/ikawaha/kagome/v2/internal/seq"\n','internal/seq/seq.go',None,'''// Package seq has helpers for slices.
package seq

// Equal reports whether a and b are the same.
func Equal[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i, v := range a {
		if v != b[i] {
			return false
		}
	}
	return true
}
''')
R('a-pkg-match',FF,'''	if len(fs) == 0 {
		return false
	}
	for _, v := range n.fanout {
		if v.val != Any && v.val != fs[0] {
			continue
		}
		if v.to.isLeaf() || v.to.match(fs[1:]) {
			return true
		}
	}
	return false
''','''	if len(fs) == 0 {
		return false
	}
	head, rest := fs[0], fs[1:]
	for _, v := range n.fanout {
		if v.matches(head) && (v.to.isLeaf() || v.to.match(rest)) {
			return true
		}
	}
	return false
''',FF,'type filterNode struct {','''func (e *filterEdge) matches(v Feature) bool {
	switch e.val {
	case Any, v:
		return true
	}
	return false
}

type filterNode struct {''')
R('a-embed',CD,'''type record struct {
	Surface       string
	POS           string
	BaseForm      string
	Reading       string
	Pronunciation string
}
''','''type sound struct {
	Reading       string
	Pronunciation string
}

type record struct {
	Surface  string
	POS      string
	BaseForm string
	sound
}
''',CD,'''	ret := record{
		Surface:       t.Surface,
		POS:           "*",
		BaseForm:      "*",
		Reading:       "*",
		Pronunciation: "*",
	}
''','''	ret := record{
		Surface:  t.Surface,
		POS:      "*",
		BaseForm: "*",
		sound:    sound{Reading: "*", Pronunciation: "*"},
	}
''')
R('a-orstar',CD,'''	ret := record{
		Surface:       t.Surface,
		POS:           "*",
		BaseForm:      "*",
		Reading:       "*",
		Pronunciation: "*",
	}
	if v := strings.Join(t.POS(), ","); v != "" {
		ret.POS = v
	}
	if v, ok := t.BaseForm(); ok {
		ret.BaseForm = v
	}
	if v, ok := t.Reading(); ok {
		ret.Reading = v
	}
	if v, ok := t.Pronunciation(); ok {
		ret.Pronunciation = v
	}
	return ret
''','''	orStar := func(get func() (string, bool)) string {
		if v, ok := get(); ok {
			return v
		}
		return "*"
	}
	pos := strings.Join(t.POS(), ",")
	return record{
		Surface:       t.Surface,
		POS:           orStar(func() (string, bool) { return pos, pos != "" }),
		BaseForm:      orStar(t.BaseForm),
		Reading:       orStar(t.Reading),
		Pronunciation: orStar(t.Pronunciation),
	}
''')
R('a-methodval',T,'''func (t Token) BaseForm() (string, bool) {
	return t.pickupFromFeatures(dict.BaseFormIndex)
''','''func (t Token) BaseForm() (string, bool) {
	pick := t.pickupFromFeatures
	return pick(dict.BaseFormIndex)
''')
R('a-conv',K,'''	m := lattice.Normal
	switch mode {
	case Normal:
		m = lattice.Normal
	case Search:
		m = lattice.Search
	case Extended:
		m = lattice.Extended
	}
	la.Forward(m)
	la.Backward(m)
	size := len(la.Output)
	tokens := make([]Token, 0, size)
	for i := range la.Output {
		n := la.Output[size-1-i]
		if t.omitBosEos && n.ID == BosEosID {
			continue
		}
		tok := Token{
			Index:    len(tokens),
			ID:       n.ID,
			Class:    TokenClass(n.Class),
			Position: n.Position,
			Start:    n.Start,
			End:      n.Start + utf8.RuneCountInString(n.Surface),
			Surface:  n.Surface,
			dict:     t.dict,
			udict:    t.userDict,
		}
'''+SURF+'''		tokens = append(tokens, tok)
	}
	return tokens
''','''	m := mode.lattice()
	la.Forward(m)
	la.Backward(m)
	return t.tokens(la)
''',K,None,'''
func (m TokenizeMode) lattice() lattice.TokenizeMode {
	if m == Search {
		return lattice.Search
	}
	if m == Extended {
		return lattice.Extended
	}
	return lattice.Normal
}

func (t *Tokenizer) tokens(la *lattice.Lattice) []Token {
	tokens := make([]Token, 0, len(la.Output))
	for i := len(la.Output) - 1; i >= 0; i-- {
		n := la.Output[i]
		tok := t.token(n, i == len(la.Output)-1)
		if n.ID == BosEosID && t.omitBosEos {
			continue
		}
		tok.Index = len(tokens)
		tokens = append(tokens, *tok)
	}
	return tokens
}

func (t *Tokenizer) token(n *lattice.Node, first bool) *Token {
	surface := n.Surface
	switch {
	case n.ID != BosEosID:
	case first:
		surface = "BOS"
	default:
		surface = "EOS"
	}
	return &Token{
		ID:       n.ID,
		Class:    TokenClass(n.Class),
		Position: n.Position,
		Start:    n.Start,
		End:      n.Start + utf8.RuneCountInString(n.Surface),
		Surface:  surface,
		dict:     t.dict,
		udict:    t.userDict,
	}
}
''')
R('a-pen',L,'''	l := utf8.RuneCountInString(n.Surface)
	if l > searchModeKanjiLength && kanjiOnly(n.Surface) {
		return (l - searchModeKanjiLength) * searchModeKanjiPenalty
	}
	if l > searchModeOtherLength {
		return (l - searchModeOtherLength) * searchModeOtherPenalty
	}
	return 0
''','''	l := utf8.RuneCountInString(n.Surface)
	for _, p := range penalties {
		if l > p.length && p.applies(n.Surface) {
			return (l - p.length) * p.cost
		}
	}
	return 0
''',L,'func additionalCost(','''var penalties = [...]struct {
	length, cost int
	applies      func(string) bool
}{
	{searchModeKanjiLength, searchModeKanjiPenalty, kanjiOnly},
	{searchModeOtherLength, searchModeOtherPenalty, func(string) bool { return true }},
}

func additionalCost(''')
R('a-clamp-gen',L,'''				if totalCost > maximumCost {
					totalCost = maximumCost
				} else if totalCost < minimumCost {
					totalCost = minimumCost
				}
''','''				totalCost = clamp(totalCost, minimumCost, maximumCost)
''',L,'func additionalCost(','''func clamp[T int | int32 | int64](v, lo, hi T) T {
	switch {
	case v < lo:
		return lo
	case v > hi:
		return hi
	}
	return v
}

func additionalCost(''')
R('a-morph-table',L,'''	var m dict.Morph
	switch class {
	case DUMMY:
		// use default cost
	case KNOWN:
		m = la.dic.Morphs[id]
	case UNKNOWN:
		m = la.dic.UnkDict.Morphs[id]
	case USER:
		// use default cost
	}
''','''	m := la.morph(id, class)
''',L,'func (la *Lattice) addNode(','''func (la *Lattice) morph(id int, class NodeClass) (m dict.Morph) {
	var table []dict.Morph
	if class == KNOWN {
		table = la.dic.Morphs
	} else if class == UNKNOWN {
		table = la.dic.UnkDict.Morphs
	} else {
		return
	}
	return table[id]
}

func (la *Lattice) addNode(''')
R('a-each',CT,'''	for s.Scan() {
		tokens := t.Analyze(s.Text(), mode)
		if !opt.json {
			printTokens(tokens)
			continue
		}
		if err := printTokensJSON(tokens); err != nil {
			return err
		}
	}
	return s.Err()''','''	show := func(tokens []tokenizer.Token) error {
		printTokens(tokens)
		return nil
	}
	if opt.json {
		show = printTokensJSON
	}
	for s.Scan() {
		if err := show(t.Analyze(s.Text(), mode)); err != nil {
			return err
		}
	}
	return s.Err()''')
R('a-dicts',CS,'''	switch name {
	case "ipa":
		return ipa.Dict(), nil
	case "uni":
		return uni.Dict(), nil
	}
	return nil, fmt.Errorf("unknown name type, %v", name)
''','''	load, ok := dicts[name]
	if !ok {
		return nil, fmt.Errorf("unknown name type, %v", name)
	}
	return load(), nil
''',CS,'func selectDict(','''var dicts = map[string]func() *dict.Dict{
	"ipa": ipa.Dict,
	"uni": uni.Dict,
}

func selectDict(''')
R('a-write-once',CA,'''	resp, err := json.Marshal(TokenizerResponseBody{
		Status: true,
		Tokens: tokenData,
	})
	if err != nil {
		http.Error(w, errorBody(err), http.StatusInternalServerError)
		return
	}
	w.WriteHeader(http.StatusOK)
	w.Write(resp)
''','''	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	if err := enc.Encode(TokenizerResponseBody{Status: true, Tokens: tokenData}); err != nil {
		http.Error(w, errorBody(err), http.StatusInternalServerError)
		return
	}
	w.WriteHeader(http.StatusOK)
	_, _ = w.Write(buf.Bytes())
''',CA,'import (\n','import (\n	"bytes"\n')
R('a-exec-out',CD,'''	cmd.Stdin = &dot
	cmd.Stdout = &b
	cmd.Stderr = Stderr
''','''	cmd.Stdin, cmd.Stdout, cmd.Stderr = &dot, &b, Stderr
''')
R('a-cut',CD,'''	svg = b.String()
	if pos := strings.Index(svg, "<svg"); pos > 0 {
		svg = svg[pos:]
	}
	records = toRecords(tokens)
	return records, svg, nil
''','''	return toRecords(tokens), fromTag(b.String(), "<svg"), nil
''',CD,'func toRecords(','''// fromTag returns the part of s from the first tag on, or all of it.
func fromTag(s, tag string) string {
	if _, after, ok := strings.Cut(s, tag); ok {
		return tag + after
	}
	return s
}

func toRecords(''')
R('a-type-loop',L,'''	for p := la.list[size-1][0]; p != nil; p = p.prev {
		if m != Extended || p.Class != UNKNOWN {
			la.Output = append(la.Output, p)
			continue
		}
		runeLen := utf8.RuneCountInString(p.Surface)
''','''	split := func(n *Node) bool { return m == Extended && n.Class == UNKNOWN }
	p := la.list[size-1][0]
	for ; p != nil; p = p.prev {
		if !split(p) {
			la.Output = append(la.Output, p)
			continue
		}
		runeLen := utf8.RuneCountInString(p.Surface)
''')
