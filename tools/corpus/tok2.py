K='tokenizer/token.go';Z='tokenizer/tokenizer.go'
R('u-feat-helper',K,'''		features := make([]string, 0, len(t.dict.POSTable.POSs[t.ID])+c)
		for _, id := range t.dict.POSTable.POSs[t.ID] {
			features = append(features, t.dict.POSTable.NameList[id])
		}
''','''		features := t.posNames(c)
''',K,'''		ret := make([]string, 0, len(t.dict.POSTable.POSs[t.ID]))
		for _, id := range t.dict.POSTable.POSs[t.ID] {
			ret = append(ret, t.dict.POSTable.NameList[id])
		}
		return ret
''','''		return t.posNames(0)
''',K,None,'''
// posNames returns the names of the POS hierarchy with room for extra features.
func (t Token) posNames(extra int) []string {
	ids := t.dict.POSTable.POSs[t.ID]
	names := make([]string, len(ids), len(ids)+extra)
	for i, id := range ids {
		names[i] = t.dict.POSTable.NameList[id]
	}
	return names
}
''')
R('u-feat-split',K,'''	switch t.Class {
	case KNOWN:
		var c int
		if t.dict.Contents != nil {
			c = len(t.dict.Contents[t.ID])
		}
		features := make([]string, 0, len(t.dict.POSTable.POSs[t.ID])+c)
		for _, id := range t.dict.POSTable.POSs[t.ID] {
			features = append(features, t.dict.POSTable.NameList[id])
		}
		if t.dict.Contents != nil {
			features = append(features, t.dict.Contents[t.ID]...)
		}
		return features
	case UNKNOWN:
		features := make([]string, len(t.dict.UnkDict.Contents[t.ID]))
		for i := range t.dict.UnkDict.Contents[t.ID] {
			features[i] = t.dict.UnkDict.Contents[t.ID][i]
		}
		return features
	case USER:
		pos := t.udict.Contents[t.ID].Pos
		tokens := strings.Join(t.udict.Contents[t.ID].Tokens, "/")
		yomi := strings.Join(t.udict.Contents[t.ID].Yomi, "/")
		return []string{pos, tokens, yomi}
	}
	return nil
''','''	switch t.Class {
	case KNOWN:
		return t.knownFeatures()
	case UNKNOWN:
		return t.unknownFeatures()
	case USER:
		return t.userFeatures()
	default:
		return nil
	}
''',K,None,'''
func (t Token) knownFeatures() []string {
	posIDs := t.dict.POSTable.POSs[t.ID]
	var contents []string
	if t.dict.Contents != nil {
		contents = t.dict.Contents[t.ID]
	}
	features := make([]string, 0, len(posIDs)+len(contents))
	for _, id := range posIDs {
		features = append(features, t.dict.POSTable.NameList[id])
	}
	return append(features, contents...)
}

func (t Token) unknownFeatures() []string {
	src := t.dict.UnkDict.Contents[t.ID]
	features := make([]string, len(src))
	copy(features, src)
	return features
}

func (t Token) userFeatures() []string {
	c := t.udict.Contents[t.ID]
	return []string{c.Pos, strings.Join(c.Tokens, "/"), strings.Join(c.Yomi, "/")}
}
''')
R('u-feat-unk-append',K,'''		features := make([]string, len(t.dict.UnkDict.Contents[t.ID]))
		for i := range t.dict.UnkDict.Contents[t.ID] {
			features[i] = t.dict.UnkDict.Contents[t.ID][i]
		}
		return features
''','''		return append([]string{}, t.dict.UnkDict.Contents[t.ID]...)
''')
R('u-feat-if',K,'''	case KNOWN:
		var c int
		if t.dict.Contents != nil {
			c = len(t.dict.Contents[t.ID])
		}
		features := make([]string, 0, len(t.dict.POSTable.POSs[t.ID])+c)
		for _, id := range t.dict.POSTable.POSs[t.ID] {
			features = append(features, t.dict.POSTable.NameList[id])
		}
		if t.dict.Contents != nil {
			features = append(features, t.dict.Contents[t.ID]...)
		}
		return features
''','''	case KNOWN:
		d := t.dict
		pos := d.POSTable.POSs[t.ID]
		if d.Contents == nil {
			features := make([]string, 0, len(pos))
			for i := 0; i < len(pos); i++ {
				features = append(features, d.POSTable.NameList[pos[i]])
			}
			return features
		}
		features := make([]string, 0, len(pos)+len(d.Contents[t.ID]))
		for i := 0; i < len(pos); i++ {
			features = append(features, d.POSTable.NameList[pos[i]])
		}
		for _, v := range d.Contents[t.ID] {
			features = append(features, v)
		}
		return features
''')
R('u-at-helper',K,'''		c := t.dict.Contents[t.ID]
		if i >= len(c) {
			return "", false
		}
		return c[i], true
	case UNKNOWN:
		if len(t.dict.UnkDict.Contents) <= t.ID {
			return "", false
		}
		c := t.dict.UnkDict.Contents[t.ID]
		if i >= len(c) {
			return "", false
		}
		return c[i], true
''','''		return at(t.dict.Contents[t.ID], i)
	case UNKNOWN:
		if len(t.dict.UnkDict.Contents) <= t.ID {
			return "", false
		}
		return at(t.dict.UnkDict.Contents[t.ID], i)
''',K,None,'''
func at(features []string, i int) (string, bool) {
	if i < 0 || i >= len(features) {
		return "", false
	}
	return features[i], true
}
''')
R('u-at-helper2',K,'''		if len(t.dict.Contents) <= t.ID {
			return "", false
		}
		c := t.dict.Contents[t.ID]
		if i >= len(c) {
			return "", false
		}
		return c[i], true
	case UNKNOWN:
		if len(t.dict.UnkDict.Contents) <= t.ID {
			return "", false
		}
		c := t.dict.UnkDict.Contents[t.ID]
		if i >= len(c) {
			return "", false
		}
		return c[i], true
''','''		return contentAt(t.dict.Contents, t.ID, i)
	case UNKNOWN:
		return contentAt(t.dict.UnkDict.Contents, t.ID, i)
''',K,None,'''
func contentAt(contents [][]string, id, i int) (string, bool) {
	if id >= len(contents) {
		return "", false
	}
	if c := contents[id]; i < len(c) {
		return c[i], true
	}
	return "", false
}
''')
R('u-at-user',K,'''		switch i {
		case 0:
			return t.udict.Contents[t.ID].Pos, true
		case 1:
			return strings.Join(t.udict.Contents[t.ID].Tokens, "/"), true
		case 2:
			return strings.Join(t.udict.Contents[t.ID].Yomi, "/"), true
		}
''','''		c := t.udict.Contents[t.ID]
		if i == 0 {
			return c.Pos, true
		}
		if i == 1 {
			return strings.Join(c.Tokens, "/"), true
		}
		if i == 2 {
			return strings.Join(c.Yomi, "/"), true
		}
''')
R('u-at-split',K,'''	switch t.Class {
	case KNOWN:
		pos := t.dict.POSTable.POSs[t.ID]
		if i < len(pos) {
			id := pos[i]
			if int(id) >= len(t.dict.POSTable.NameList) {
				return "", false
			}
			return t.dict.POSTable.NameList[id], true
		}
		i -= len(pos)
''','''	switch t.Class {
	case KNOWN:
		pos := t.dict.POSTable.POSs[t.ID]
		if n := len(pos); i >= n {
			i -= n
		} else if id := int(pos[i]); id < len(t.dict.POSTable.NameList) {
			return t.dict.POSTable.NameList[id], true
		} else {
			return "", false
		}
''')
R('u-extra',K,'''	tokens := make([]string, len(t.udict.Contents[t.ID].Tokens))
	copy(tokens, t.udict.Contents[t.ID].Tokens)
	yomi := make([]string, len(t.udict.Contents[t.ID].Yomi))
	copy(yomi, t.udict.Contents[t.ID].Yomi)
	return &UserExtra{
		Tokens:   tokens,
		Readings: yomi,
	}
''','''	c := t.udict.Contents[t.ID]
	return &UserExtra{
		Tokens:   cloneStrings(c.Tokens),
		Readings: cloneStrings(c.Yomi),
	}
''',K,None,'''
func cloneStrings(src []string) []string {
	dst := make([]string, len(src))
	copy(dst, src)
	return dst
}
''')
R('u-extra2',K,'''	tokens := make([]string, len(t.udict.Contents[t.ID].Tokens))
	copy(tokens, t.udict.Contents[t.ID].Tokens)
	yomi := make([]string, len(t.udict.Contents[t.ID].Yomi))
	copy(yomi, t.udict.Contents[t.ID].Yomi)
	return &UserExtra{
		Tokens:   tokens,
		Readings: yomi,
	}
''','''	c := &t.udict.Contents[t.ID]
	extra := new(UserExtra)
	extra.Tokens = append(make([]string, 0, len(c.Tokens)), c.Tokens...)
	extra.Readings = append(make([]string, 0, len(c.Yomi)), c.Yomi...)
	return extra
''')
R('u-extra3',K,'''	if t.Class != USER {
		return nil
	}
	tokens := make([]string, len(t.udict.Contents[t.ID].Tokens))
	copy(tokens, t.udict.Contents[t.ID].Tokens)
	yomi := make([]string, len(t.udict.Contents[t.ID].Yomi))
	copy(yomi, t.udict.Contents[t.ID].Yomi)
	return &UserExtra{
		Tokens:   tokens,
		Readings: yomi,
	}
''','''	if t.Class == USER {
		entry := t.udict.Contents[t.ID]
		var extra UserExtra
		extra.Tokens = make([]string, len(entry.Tokens))
		for i, v := range entry.Tokens {
			extra.Tokens[i] = v
		}
		extra.Readings = make([]string, len(entry.Yomi))
		for i, v := range entry.Yomi {
			extra.Readings[i] = v
		}
		return &extra
	}
	return nil
''')
R('u-pos-copy',K,'''		ret := make([]string, 0, end-start)
		for i := start; i < end; i++ {
			ret = append(ret, feature[i])
		}
		return ret
''','''		ret := make([]string, end-start)
		copy(ret, feature[start:end])
		return ret
''')
R('u-pos-append',K,'''		ret := make([]string, 0, end-start)
		for i := start; i < end; i++ {
			ret = append(ret, feature[i])
		}
		return ret
''','''		return append(make([]string, 0, end-start), feature[start:end]...)
''')
R('u-pos-range',K,'''		start := 0
		if v, ok := t.dict.UnkDict.ContentsMeta[dict.POSStartIndex]; ok {
			start = int(v)
		}
		end := 1
		if v, ok := t.dict.UnkDict.ContentsMeta[dict.POSHierarchy]; ok {
			end = start + int(v)
		}
		feature := t.dict.UnkDict.Contents[t.ID]
		if start >= end || end > len(feature) {
			return nil
		}
''','''		feature := t.dict.UnkDict.Contents[t.ID]
		start, end := posRange(t.dict.UnkDict.ContentsMeta)
		if !(start < end && end <= len(feature)) {
			return nil
		}
''',K,None,'''
// posRange returns the range of the POS in the features.
func posRange(meta dict.ContentsMeta) (start, end int) {
	start, end = 0, 1
	if v, ok := meta[dict.POSStartIndex]; ok {
		start = int(v)
	}
	if v, ok := meta[dict.POSHierarchy]; ok {
		end = start + int(v)
	}
	return start, end
}
''')
R('u-eqf',K,'''	for i := 0; i < len(lhs); i++ {
		if lhs[i] != rhs[i] {
			return false
		}
	}
	return true
''','''	equal := true
	for i, v := range lhs {
		if v != rhs[i] {
			equal = false
			break
		}
	}
	return equal
''')
R('u-eqf2',K,'''	for i := 0; i < len(lhs); i++ {
		if lhs[i] != rhs[i] {
			return false
		}
	}
	return true
''','''	i := 0
	for i < len(lhs) && lhs[i] == rhs[i] {
		i++
	}
	return i == len(lhs)
''')
R('u-eqf3',K,'''	for i := 0; i < len(lhs); i++ {
		if lhs[i] != rhs[i] {
			return false
		}
	}
	return true
''','''	for i := len(lhs) - 1; i >= 0; i-- {
		if lhs[i] != rhs[i] {
			return false
		}
	}
	return true
''')
R('u-pickup',K,'''	var meta dict.ContentsMeta
	switch t.Class {
	case KNOWN:
		meta = t.dict.ContentsMeta
	case UNKNOWN:
		meta = t.dict.UnkDict.ContentsMeta
	}
	i, ok := meta[key]
	if !ok {
		return "", false
	}
	return t.FeatureAt(int(i))
''','''	if i, ok := t.featureIndex(key); ok {
		return t.FeatureAt(i)
	}
	return "", false
''',K,None,'''
func (t Token) featureIndex(key string) (int, bool) {
	switch t.Class {
	case KNOWN:
		i, ok := t.dict.ContentsMeta[key]
		return int(i), ok
	case UNKNOWN:
		i, ok := t.dict.UnkDict.ContentsMeta[key]
		return int(i), ok
	default:
		return 0, false
	}
}
''')
R('u-pickup-if',K,'''	var meta dict.ContentsMeta
	switch t.Class {
	case KNOWN:
		meta = t.dict.ContentsMeta
	case UNKNOWN:
		meta = t.dict.UnkDict.ContentsMeta
	}
	i, ok := meta[key]
''','''	if t.Class != KNOWN && t.Class != UNKNOWN {
		return "", false
	}
	meta := t.dict.ContentsMeta
	if t.Class == UNKNOWN {
		meta = t.dict.UnkDict.ContentsMeta
	}
	i, ok := meta[key]
''')
R('u-equal',K,'''	return t.ID == v.ID &&
		t.Class == v.Class &&
		t.Surface == v.Surface
''','''	if t.Surface != v.Surface {
		return false
	}
	if t.Class != v.Class {
		return false
	}
	return t.ID == v.ID
''')
R('u-class-map',K,'''	ret := ""
	switch c {
	case DUMMY:
		ret = "DUMMY"
	case KNOWN:
		ret = "KNOWN"
	case UNKNOWN:
		ret = "UNKNOWN"
	case USER:
		ret = "USER"
	}
	return ret
''','''	if c == DUMMY {
		return "DUMMY"
	} else if c == KNOWN {
		return "KNOWN"
	} else if c == UNKNOWN {
		return "UNKNOWN"
	} else if c == USER {
		return "USER"
	}
	return ""
''')
R('u-class-map2',K,'''	ret := ""
	switch c {
	case DUMMY:
		ret = "DUMMY"
	case KNOWN:
		ret = "KNOWN"
	case UNKNOWN:
		ret = "UNKNOWN"
	case USER:
		ret = "USER"
	}
	return ret
}
''','''	return classNames[c]
}

var classNames = map[TokenClass]string{
	DUMMY:   "DUMMY",
	KNOWN:   "KNOWN",
	UNKNOWN: "UNKNOWN",
	USER:    "USER",
}
''')
R('u-data-order',K,'''	if ret.POS == nil {
		ret.POS = []string{}
	}
	if ret.Features == nil {
		ret.Features = []string{}
	}
	ret.BaseForm, _ = t.BaseForm()
	ret.Reading, _ = t.Reading()
	ret.Pronunciation, _ = t.Pronunciation()
	return ret
''','''	ret.Pronunciation, _ = t.Pronunciation()
	ret.Reading, _ = t.Reading()
	ret.BaseForm, _ = t.BaseForm()
	if ret.Features == nil {
		ret.Features = []string{}
	}
	if ret.POS == nil {
		ret.POS = []string{}
	}
	return ret
''')
R('u-data-helper',K,'''		POS:      t.POS(),
		Features: t.Features(),
	}
	if ret.POS == nil {
		ret.POS = []string{}
	}
	if ret.Features == nil {
		ret.Features = []string{}
	}
''','''		POS:      nonNil(t.POS()),
		Features: nonNil(t.Features()),
	}
''',K,None,'''
func nonNil(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}
''')
R('u-data-lit',K,'''	ret := TokenData{
		ID:       t.ID,
		Start:    t.Start,
		End:      t.End,
		Surface:  t.Surface,
		Class:    t.Class.String(),
		POS:      t.POS(),
		Features: t.Features(),
	}
	if ret.POS == nil {
		ret.POS = []string{}
	}
	if ret.Features == nil {
		ret.Features = []string{}
	}
	ret.BaseForm, _ = t.BaseForm()
	ret.Reading, _ = t.Reading()
	ret.Pronunciation, _ = t.Pronunciation()
	return ret
''','''	pos := t.POS()
	if len(pos) == 0 {
		pos = make([]string, 0)
	}
	features := t.Features()
	if len(features) == 0 {
		features = make([]string, 0)
	}
	base, _ := t.BaseForm()
	reading, _ := t.Reading()
	pron, _ := t.Pronunciation()
	return TokenData{
		ID:            t.ID,
		Start:         t.Start,
		End:           t.End,
		Surface:       t.Surface,
		Class:         t.Class.String(),
		POS:           pos,
		BaseForm:      base,
		Reading:       reading,
		Pronunciation: pron,
		Features:      features,
	}
''')
ANA='''	la := lattice.New(t.dict, t.userDict)
	defer la.Free()
	la.Build(input)
	m := lattice.Normal
	switch mode {
	case Normal:
		m = lattice.Normal
	case Search:
		m = lattice.Search
	case Extended:
		m = lattice.Extended
	}
	la.Forward(m)
	la.Backward(m)
	size := len(la.Output)
	tokens := make([]Token, 0, size)
	for i := range la.Output {
		n := la.Output[size-1-i]
		if t.omitBosEos && n.ID == BosEosID {
			continue
		}
		tok := Token{
			Index:    len(tokens),
			ID:       n.ID,
			Class:    TokenClass(n.Class),
			Position: n.Position,
			Start:    n.Start,
			End:      n.Start + utf8.RuneCountInString(n.Surface),
			Surface:  n.Surface,
			dict:     t.dict,
			udict:    t.userDict,
		}
		if tok.ID == BosEosID {
			if i == 0 {
				tok.Surface = "BOS"
			} else {
				tok.Surface = "EOS"
			}
		}
		tokens = append(tokens, tok)
	}
'''
ANA2=ANA.replace('tok.ID == BosEosID','tok.ID == lattice.BosEosID')
R('u-ana-helper',Z,ANA+'	return tokens\n','''	la := t.search(input, mode)
	defer la.Free()
	return t.tokens(la)
''',Z,ANA2+'	la.Dot(w)\n	return tokens\n','''	la := t.search(input, mode)
	defer la.Free()
	tokens := t.tokens(la)
	la.Dot(w)
	return tokens
''',Z,None,'''
func (t Tokenizer) search(input string, mode TokenizeMode) *lattice.Lattice {
	la := lattice.New(t.dict, t.userDict)
	la.Build(input)
	m := latticeMode(mode)
	la.Forward(m)
	la.Backward(m)
	return la
}

func latticeMode(mode TokenizeMode) lattice.TokenizeMode {
	switch mode {
	case Search:
		return lattice.Search
	case Extended:
		return lattice.Extended
	default:
		return lattice.Normal
	}
}

func (t Tokenizer) tokens(la *lattice.Lattice) []Token {
	size := len(la.Output)
	tokens := make([]Token, 0, size)
	for i := size - 1; i >= 0; i-- {
		n := la.Output[i]
		if t.omitBosEos && n.ID == BosEosID {
			continue
		}
		tokens = append(tokens, t.newToken(len(tokens), n, i == size-1))
	}
	return tokens
}

func (t Tokenizer) newToken(index int, n *lattice.Node, first bool) Token {
	tok := Token{
		Index:    index,
		ID:       n.ID,
		Class:    TokenClass(n.Class),
		Position: n.Position,
		Start:    n.Start,
		End:      n.Start + utf8.RuneCountInString(n.Surface),
		Surface:  n.Surface,
		dict:     t.dict,
		udict:    t.userDict,
	}
	if n.ID != BosEosID {
		return tok
	}
	tok.Surface = "EOS"
	if first {
		tok.Surface = "BOS"
	}
	return tok
}
''')
R('u-ana-callback',Z,ANA+'	return tokens\n','''	return t.analyze(input, mode, nil)
''',Z,ANA2+'	la.Dot(w)\n	return tokens\n','''	return t.analyze(input, mode, func(la *lattice.Lattice) { la.Dot(w) })
''',Z,None,'''
func (t Tokenizer) analyze(input string, mode TokenizeMode, after func(*lattice.Lattice)) []Token {
'''+ANA+'''	if after != nil {
		after(la)
	}
	return tokens
}
''')
R('u-ana-writer',Z,ANA+'	return tokens\n','''	return t.analyze(nil, input, mode)
''',Z,ANA2+'	la.Dot(w)\n	return tokens\n','''	return t.analyze(w, input, mode)
''',Z,None,'''
func (t Tokenizer) analyze(w io.Writer, input string, mode TokenizeMode) []Token {
'''+ANA+'''	if w != nil {
		la.Dot(w)
	}
	return tokens
}
''')
R('u-ana-map',Z,'''	m := lattice.Normal
	switch mode {
	case Normal:
		m = lattice.Normal
	case Search:
		m = lattice.Search
	case Extended:
		m = lattice.Extended
	}
	la.Forward(m)
	la.Backward(m)
	size := len(la.Output)
	tokens := make([]Token, 0, size)
	for i := range la.Output {
		n := la.Output[size-1-i]
		if t.omitBosEos && n.ID == BosEosID {
			continue
		}
		tok := Token{''','''	m, ok := modes[mode]
	if !ok {
		m = lattice.Normal
	}
	la.Forward(m)
	la.Backward(m)
	size := len(la.Output)
	tokens := make([]Token, 0, size)
	for i := range la.Output {
		n := la.Output[size-1-i]
		if t.omitBosEos && n.ID == BosEosID {
			continue
		}
		tok := Token{''',Z,None,'''
var modes = map[TokenizeMode]lattice.TokenizeMode{
	Normal:   lattice.Normal,
	Search:   lattice.Search,
	Extended: lattice.Extended,
}
''')
R('u-wakati',Z,'''	ts := t.Analyze(input, Normal)
	ret := make([]string, 0, len(ts))
	for _, v := range ts {
		if v.Class != DUMMY && v.Surface != "" {
			ret = append(ret, v.Surface)
		}
	}
	return ret
''','''	tokens := t.Tokenize(input)
	words := make([]string, 0, len(tokens))
	for i := range tokens {
		if tokens[i].Class == DUMMY || tokens[i].Surface == "" {
			continue
		}
		words = append(words, tokens[i].Surface)
	}
	return words
''')
R('u-new',Z,'''	t := &Tokenizer{dict: d}
	for _, opt := range opts {
		if err := opt(t); err != nil {
			return nil, err
		}
	}
	return t, nil
''','''	t := new(Tokenizer)
	t.dict = d
	if err := t.apply(opts); err != nil {
		return nil, err
	}
	return t, nil
''',Z,None,'''
func (t *Tokenizer) apply(opts []Option) error {
	for i := range opts {
		if err := opts[i](t); err != nil {
			return err
		}
	}
	return nil
}
''')
R('u-new-var',Z,'''	t := &Tokenizer{dict: d}
	for _, opt := range opts {
		if err := opt(t); err != nil {
			return nil, err
		}
	}
	return t, nil
''','''	var (
		t   = Tokenizer{dict: d}
		err error
	)
	for i := 0; err == nil && i < len(opts); i++ {
		err = opts[i](&t)
	}
	if err != nil {
		return nil, err
	}
	return &t, nil
''')
R('u-ana-index',Z,'''		tok := Token{
			Index:    len(tokens),
			ID:       n.ID,
			Class:    TokenClass(n.Class),
			Position: n.Position,
			Start:    n.Start,
			End:      n.Start + utf8.RuneCountInString(n.Surface),
			Surface:  n.Surface,
			dict:     t.dict,
			udict:    t.userDict,
		}
		if tok.ID == BosEosID {
			if i == 0 {
				tok.Surface = "BOS"
			} else {
				tok.Surface = "EOS"
			}
		}
		tokens = append(tokens, tok)
	}
	return tokens
}

// Dot returns''','''		surface := n.Surface
		end := n.Start + utf8.RuneCountInString(surface)
		switch {
		case n.ID != BosEosID:
		case i == 0:
			surface = "BOS"
		default:
			surface = "EOS"
		}
		tokens = append(tokens, Token{
			Index:    idx,
			ID:       n.ID,
			Class:    TokenClass(n.Class),
			Position: n.Position,
			Start:    n.Start,
			End:      end,
			Surface:  surface,
			dict:     t.dict,
			udict:    t.userDict,
		})
		idx++
	}
	return tokens
}

// Dot returns''',Z,'''	tokens := make([]Token, 0, size)
''','''	tokens := make([]Token, 0, size)
	idx := 0
''')
R('u-mode-str',Z,'''	switch m {
	case Normal:
		return "normal"
	case Search:
		return "search"
	case Extended:
		return "extend"
	}
	return fmt.Sprintf("unknown tokenize mode (%d)", m)
''','''	var name string
	switch m {
	case Extended:
		name = "extend"
	case Search:
		name = "search"
	case Normal:
		name = "normal"
	default:
		name = fmt.Sprintf("unknown tokenize mode (%d)", int(m))
	}
	return name
''')
