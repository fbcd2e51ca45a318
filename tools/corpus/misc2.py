FE='filter/feature.go';PO='filter/pos.go';WO='filter/word.go';FI='filter/filter.go';JF='filter/ja/filter.go';JL='filter/ja/loader.go';SS='filter/sentence_splitter.go'
CT='cmd/tokenize/cmd.go';CS='cmd/sentence/cmd.go';CL='cmd/lattice/cmd.go';SA='cmd/server/api.go';SC='cmd/server/cmd.go';SD='cmd/server/demo.go';KM='kagome.go';PL='tokenizer/lattice/mem/pool.go';OP='tokenizer/tokenizer_option.go'
# ---- filters
R('x-f-child',FE,'''func (n filterNode) has(s Feature) int {
	for i, v := range n.fanout {
		if v.val == s {
			return i
		}
	}
	return -1
}
''','''func (n *filterNode) child(s Feature) *filterNode {
	for _, e := range n.fanout {
		if e.val == s {
			return e.to
		}
	}
	return nil
}
''',FE,'''		if k := n.has(v); k >= 0 {
			n = n.fanout[k].to
			if''','''		if c := n.child(v); c != nil {
			n = c
			if''')
R('x-f-match-all',FE,'''	if len(fs) == 0 {
		return false
	}
	for _, v := range n.fanout {
		if v.val != Any && v.val != fs[0] {
			continue
		}
		if v.to.isLeaf() || v.to.match(fs[1:]) {
			return true
		}
	}
	return false
''','''	if len(fs) > 0 {
		head, rest := fs[0], fs[1:]
		for _, edge := range n.fanout {
			if edge.accepts(head) && (edge.to.isLeaf() || edge.to.match(rest)) {
				return true
			}
		}
	}
	return false
''',FE,None,'''
func (e *filterEdge) accepts(s Feature) bool {
	return e.val == Any || e.val == s
}
''')
R('x-f-add-order',FE,'''		edge := filterEdge{
			val: v,
		}
		n.fanout = append(n.fanout, &edge)
		edge.to = &filterNode{}
		n = edge.to
''','''		child := new(filterNode)
		n.fanout = append(n.fanout, &filterEdge{val: v, to: child})
		n = child
''')
R('x-f-add-break',FE,'''			if n.isLeaf() {
				break // a stronger condition exists.
			} else if tail {
				n.fanout = nil // clear week conditions.
				break
			}
			continue
		}
''','''			if tail && !n.isLeaf() {
				n.fanout = nil // clear week conditions.
			}
			if n.isLeaf() {
				return // a stronger condition exists, or this is the strongest one.
			}
			continue
		}
''')
R('x-f-new',FE,'''	var ret FeaturesFilter
	for _, v := range fs {
		ret.add(v)
	}
	return &ret
''','''	ret := new(FeaturesFilter)
	for i := range fs {
		ret.add(fs[i])
	}
	return ret
''')
R('x-f-apply-shared',PO,'''	if tokens == nil {
		return
	}
	tail := 0
	for i, v := range *tokens {
		if f.Match(v.POS()) == drop {
			continue
		}
		if i != tail {
			(*tokens)[tail] = v
		}
		tail++
	}
	*tokens = (*tokens)[:tail]
''','''	applyFilter(func(t tokenizer.Token) bool {
		return f.Match(t.POS())
	}, tokens, drop)
''',WO,'''	if tokens == nil {
		return
	}
	tail := 0
	for i, v := range *tokens {
		if f.Match(v.Surface) == drop {
			continue
		}
		if i != tail {
			(*tokens)[tail] = v
		}
		tail++
	}
	*tokens = (*tokens)[:tail]
''','''	applyFilter(func(t tokenizer.Token) bool {
		return f.Match(t.Surface)
	}, tokens, drop)
''')
R('x-f-apply-append',FI,'''	tail := 0
	for i, v := range *tokens {
		if match(v) == drop {
			continue
		}
		if i != tail {
			(*tokens)[tail] = v
		}
		tail++
	}
	*tokens = (*tokens)[:tail]
''','''	kept := (*tokens)[:0]
	for _, v := range *tokens {
		if match(v) != drop {
			kept = append(kept, v)
		}
	}
	*tokens = kept
''')
R('x-f-apply-local',FI,'''	tail := 0
	for i, v := range *tokens {
		if match(v) == drop {
			continue
		}
		if i != tail {
			(*tokens)[tail] = v
		}
		tail++
	}
	*tokens = (*tokens)[:tail]
''','''	list := *tokens
	n := 0
	for i := 0; i < len(list); i++ {
		tok := list[i]
		if match(tok) != drop {
			list[n] = tok
			n++
		}
	}
	*tokens = list[:n]
''')
R('x-f-words',WO,'''	ret := &WordFilter{
		words: make(map[string]struct{}, len(words)),
	}
	for _, v := range words {
		ret.words[v] = struct{}{}
	}
	return ret
''','''	set := make(map[string]struct{}, len(words))
	for i := range words {
		set[words[i]] = struct{}{}
	}
	return &WordFilter{words: set}
''',WO,'''	_, ok := f.words[w]
	return ok
''','''	if _, ok := f.words[w]; ok {
		return true
	}
	return false
''')
R('x-f-words-bool',WO,'words map[string]struct{}','words map[string]bool',WO,'make(map[string]struct{}, len(words))','make(map[string]bool, len(words))',WO,'ret.words[v] = struct{}{}','ret.words[v] = true',WO,'''	_, ok := f.words[w]
	return ok
''','''	return f.words[w]
''')
R('x-f-string',FE,'''	var buf strings.Builder
	filterString(&buf, 0, &f.root)
	return buf.String()
''','''	buf := &strings.Builder{}
	filterString(buf, 0, &f.root)
	return buf.String()
''',FE,'''	const space = `  `
	for _, edge := range n.fanout {
		_, _ = fmt.Fprintf(w, "%s%s\\n", strings.Repeat(space, indent), edge.val)
		if edge.to != nil {
			filterString(w, indent+1, edge.to)
		}
	}
''','''	const space = `  `
	prefix := strings.Repeat(space, indent)
	for _, edge := range n.fanout {
		_, _ = fmt.Fprintln(w, prefix+edge.val)
		if edge.to == nil {
			continue
		}
		filterString(w, indent+1, edge.to)
	}
''')
# ---- japanese filter
R('x-j-yield-word',JF,'''	var ret []string
	for _, v := range tokens {
		if f.stopTags.Match(v.POS()) {
			continue
		}
		if f.stopWords.Match(v.Surface) {
			continue
		}
		if f.baserForm.Match(v.POS()) {
			if b, ok := v.BaseForm(); ok {
				ret = append(ret, b)
				continue
			}
		}
		ret = append(ret, v.Surface)
	}
	return ret
''','''	var ret []string
	for i := range tokens {
		if t := tokens[i]; !f.stopped(t) {
			ret = append(ret, f.word(t))
		}
	}
	return ret
''',JF,None,'''
func (f Filter) stopped(t tokenizer.Token) bool {
	return f.stopTags.Match(t.POS()) || f.stopWords.Match(t.Surface)
}

func (f Filter) word(t tokenizer.Token) string {
	if !f.baserForm.Match(t.POS()) {
		return t.Surface
	}
	base, ok := t.BaseForm()
	if !ok {
		return t.Surface
	}
	return base
}
''')
R('x-j-yield-pos',JF,'''		if f.stopTags.Match(v.POS()) {
			continue
		}
		if f.stopWords.Match(v.Surface) {
			continue
		}
		if f.baserForm.Match(v.POS()) {
			if b, ok := v.BaseForm(); ok {
				ret = append(ret, b)
				continue
			}
		}
		ret = append(ret, v.Surface)
''','''		pos := v.POS()
		switch {
		case f.stopTags.Match(pos), f.stopWords.Match(v.Surface):
			continue
		case f.baserForm.Match(pos):
			b, ok := v.BaseForm()
			if !ok {
				b = v.Surface
			}
			ret = append(ret, b)
		default:
			ret = append(ret, v.Surface)
		}
''')
R('x-j-pad',JF,'''		pos := strings.Split(v, "-")
		for i := len(pos); i < posHierarchy; i++ {
			pos = append(pos, defaultPOSFeature)
		}
		ps = append(ps, pos)
''','''		pos := strings.Split(v, "-")
		for len(pos) < posHierarchy {
			pos = append(pos, defaultPOSFeature)
		}
		ps = append(ps, pos)
''')
R('x-j-load',JL,'''		line := s.Text()
		if strings.HasPrefix(line, "#") {
			continue
		}
		if i := strings.Index(line, "#"); i > 0 {
			line = line[:i]
		}
		if line == "" {
			continue
		}
		ret = append(ret, line)
''','''		if line := stripComment(s.Text()); line != "" {
			ret = append(ret, line)
		}
''',JL,None,'''
// stripComment removes a comment which begins with '#'.
func stripComment(line string) string {
	if i := strings.IndexByte(line, '#'); i >= 0 {
		return line[:i]
	}
	return line
}
''')
R('x-j-load2',JL,'''	return ret, s.Err()
''','''	if err := s.Err(); err != nil {
		return ret, err
	}
	return ret, nil
''',JL,'''		if line == "" {
			continue
		}
		ret = append(ret, line)
''','''		if len(line) > 0 {
			ret = append(ret, line)
		}
''')
R('x-j-newf',JF,'''	return &Filter{
		baserForm: filter.NewPOSFilter(filter.POS{"動詞"}, filter.POS{"形容詞"}, filter.POS{"形容動詞"}),
		stopTags:  ta,
		stopWords: wo,
	}, nil
''','''	var f Filter
	f.stopTags, f.stopWords = ta, wo
	f.baserForm = filter.NewPOSFilter([]filter.POS{{"動詞"}, {"形容詞"}, {"形容動詞"}}...)
	return &f, nil
''')
R('x-j-tags',JF,'''	ps := make([]filter.POS, 0, len(t))
	for _, v := range t {
		pos := strings.Split(v, "-")
		for i := len(pos); i < posHierarchy; i++ {
			pos = append(pos, defaultPOSFeature)
		}
		ps = append(ps, pos)
	}
	return filter.NewPOSFilter(ps...), nil
''','''	ps := make([]filter.POS, len(t))
	for i, v := range t {
		ps[i] = toPOS(v)
	}
	return filter.NewPOSFilter(ps...), nil
''',JF,None,'''
func toPOS(s string) filter.POS {
	pos := strings.Split(s, "-")
	for i := posHierarchy - len(pos); i > 0; i-- {
		pos = append(pos, defaultPOSFeature)
	}
	return pos
}
''')
# ---- splitter
R('x-s-contains',SS,'''	for _, d := range s.Delim {
		if r == d {
			return true
		}
	}
	return false
''','''	return containsRune(s.Delim, r)
''',SS,'''	for _, d := range s.Follower {
		if r == d {
			return true
		}
	}
	return false
''','''	return containsRune(s.Follower, r)
''',SS,None,'''
func containsRune(set []rune, r rune) bool {
	for i := 0; i < len(set); i++ {
		if set[i] == r {
			return true
		}
	}
	return false
}
''')
R('x-s-lf',SS,'''		if s.DoubleLineFeedSplit && r == '\\n' {
			if nn {
				return p, s.sentence(data[start:p]), nil
			}
			nn = true
		} else {
			nn = false
		}
		if !s.isDelim''','''		lf := s.DoubleLineFeedSplit && r == '\\n'
		if lf && nn {
			return p, s.sentence(data[start:p]), nil
		}
		nn = lf
		if !s.isDelim''')
R('x-s-follow',SS,'''		// split
		nn = false
		for p < len(data) {
			if !atEOF && !utf8.FullRune(data[p:]) {
				return start, nil, nil // the rest of the rune has not been read yet.
			}
			r, size := utf8.DecodeRune(data[p:])
			if s.SkipWhiteSpace && unicode.IsSpace(r) {
				p += size
				if s.DoubleLineFeedSplit && r == '\\n' {
					if nn {
						return p, s.sentence(data[start:p]), nil
					}
					nn = true
				} else {
					nn = false
				}
			} else if s.isDelim(r) || s.isFollower(r) {
				p += size
				nn = false
			} else {
				break
			}
		}
		return p, s.sentence(data[start:p]), nil
''','''		// split
		end, ok := s.tail(data, p, atEOF)
		if !ok {
			return start, nil, nil // the rest of the rune has not been read yet.
		}
		return end, s.sentence(data[start:end]), nil
''',SS,None,'''
// tail returns the end of the sentence of which delimiter ends at p.
func (s SentenceSplitter) tail(data []byte, p int, atEOF bool) (end int, ok bool) {
	nn := false
	for p < len(data) {
		if !atEOF && !utf8.FullRune(data[p:]) {
			return 0, false
		}
		r, size := utf8.DecodeRune(data[p:])
		switch {
		case s.SkipWhiteSpace && unicode.IsSpace(r):
			p += size
			lf := s.DoubleLineFeedSplit && r == '\\n'
			if lf && nn {
				return p, true
			}
			nn = lf
		case s.isDelim(r), s.isFollower(r):
			p += size
			nn = false
		default:
			return p, true
		}
	}
	return p, true
}
''')
R('x-s-ifelse',SS,'''			p += size
			switch {
			case head:
				start = p
			case s.isDelim(r):
				return p, s.sentence(data[start:p]), nil
			case s.DoubleLineFeedSplit && r == '\\n':
				if nn {
					return p, s.sentence(data[start:p]), nil
				}
				nn = true
			case nn:
				nn = false
			}
			continue
''','''			p += size
			if head {
				start = p
				continue
			}
			if s.isDelim(r) {
				return p, s.sentence(data[start:p]), nil
			}
			if !s.DoubleLineFeedSplit || r != '\\n' {
				nn = false
				continue
			}
			if nn {
				return p, s.sentence(data[start:p]), nil
			}
			nn = true
			continue
''')
R('x-s-strip',SS,'''	if !s.SkipWhiteSpace {
		return b
	}
	return bytes.Join(bytes.Fields(b), nil)
''','''	if s.SkipWhiteSpace {
		b = bytes.Join(bytes.Fields(b), []byte{})
	}
	return b
''')
R('x-s-end',SS,'''	if start == len(data) {
		// Nothing but white spaces is left.
		return len(data), nil, nil
	}
	// If we're at EOF, we have a final, non-terminated line. Return it.
	return len(data), s.sentence(data[start:]), nil
''','''	rest := data[start:]
	if len(rest) > 0 {
		// If we're at EOF, we have a final, non-terminated line. Return it.
		token = s.sentence(rest)
	}
	return len(data), token, nil
''')
# ---- commands
R('x-c-udict',CT,'''	udict := tokenizer.Nop()
	if opt.udict != "" {
		d, err := dict.NewUserDict(opt.udict)
		if err != nil {
			return err
		}
		udict = tokenizer.UserDict(d)
	}
	t, err := tokenizer.New(d, udict)
	if err != nil {
		return err
	}
''','''	var opts []tokenizer.Option
	if opt.udict != "" {
		ud, err := dict.NewUserDict(opt.udict)
		if err != nil {
			return err
		}
		opts = append(opts, tokenizer.UserDict(ud))
	}
	t, err := tokenizer.New(d, opts...)
	if err != nil {
		return err
	}
''')
R('x-c-newtok',CL,'''	d, err := selectDict(opt.dict)
	if err != nil {
		return err
	}
	udict := tokenizer.Nop()
	if opt.udict != "" {
		d, err := dict.NewUserDict(opt.udict)
		if err != nil {
			return err
		}
		udict = tokenizer.UserDict(d)
	}
	t, err := tokenizer.New(d, udict)
	if err != nil {
		return err
	}
	out := Stdout
''','''	t, err := newTokenizer(opt)
	if err != nil {
		return err
	}
	out := Stdout
''',CL,None,'''
func newTokenizer(opt *option) (*tokenizer.Tokenizer, error) {
	d, err := selectDict(opt.dict)
	if err != nil {
		return nil, err
	}
	if opt.udict == "" {
		return tokenizer.New(d)
	}
	ud, err := dict.NewUserDict(opt.udict)
	if err != nil {
		return nil, err
	}
	return tokenizer.New(d, tokenizer.UserDict(ud))
}
''')
R('x-c-open',CT,'''	fp := os.Stdin
	if opt.file != "" {
		var err error
		fp, err = os.Open(opt.file)
		if err != nil {
			return err
		}
		defer func() {
			_ = fp.Close()
		}()
	}
	mode := selectMode(opt.mode)
	s := bufio.NewScanner(fp)
''','''	var in io.Reader = os.Stdin
	if opt.file != "" {
		fp, err := os.Open(opt.file)
		if err != nil {
			return err
		}
		defer fp.Close()
		in = fp
	}
	mode := selectMode(opt.mode)
	s := bufio.NewScanner(in)
''')
R('x-c-printtok',CT,'''	for _, v := range tokens {
		if v.ID == tokenizer.BosEosID {
			continue
		}
		w.WriteString(v.Surface)
		if v.Class != tokenizer.DUMMY {
			w.WriteString("\\t")
			w.WriteString(strings.Join(v.Features(), ","))
		}
		w.WriteString("\\n")
	}
	w.WriteString("EOS\\n")
''','''	for i := range tokens {
		if tokens[i].ID != tokenizer.BosEosID {
			printToken(w, tokens[i])
		}
	}
	fmt.Fprintln(w, "EOS")
''',CT,None,'''
func printToken(w io.Writer, t tokenizer.Token) {
	if t.Class == tokenizer.DUMMY {
		fmt.Fprintf(w, "%s\\n", t.Surface)
		return
	}
	fmt.Fprintf(w, "%s\\t%s\\n", t.Surface, strings.Join(t.Features(), ","))
}
''')
R('x-c-loop',CT,'''	for s.Scan() {
		tokens := t.Analyze(s.Text(), mode)
		if !opt.json {
			printTokens(tokens)
			continue
		}
		if err := printTokensJSON(tokens); err != nil {
			return err
		}
	}
	return s.Err()
''','''	print := func(tokens []tokenizer.Token) error {
		printTokens(tokens)
		return nil
	}
	if opt.json {
		print = printTokensJSON
	}
	for s.Scan() {
		if err := print(t.Analyze(s.Text(), mode)); err != nil {
			return err
		}
	}
	return s.Err()
''')
R('x-c-json',CT,'''	var array [][]byte
	for _, v := range tokens {
		if v.ID == tokenizer.BosEosID {
			continue
		}
		r := tokenizer.NewTokenData(v)
		obj, err := json.Marshal(r)
		if err != nil {
			return err
		}
		array = append(array, obj)
	}
	w.Write(bytes.Join(array, []byte(",\\n")))
''','''	array := make([][]byte, 0, len(tokens))
	for i := range tokens {
		if tokens[i].ID != tokenizer.BosEosID {
			obj, err := json.Marshal(tokenizer.NewTokenData(tokens[i]))
			if err != nil {
				return err
			}
			array = append(array, obj)
		}
	}
	w.Write(bytes.Join(array, []byte(",\\n")))
''')
R('x-c-json2',CT,'''	w := bufio.NewWriter(Stdout)
	defer w.Flush()

	if len(tokens) > 0 {
		w.WriteString("[\\n")
	}
''','''	w := bufio.NewWriter(Stdout)
	defer w.Flush()

	empty := len(tokens) == 0
	if !empty {
		fmt.Fprint(w, "[\\n")
	}
''',CT,'''	if len(tokens) > 0 {
		w.WriteString("\\n]\\n")
	}
''','''	if !empty {
		fmt.Fprint(w, "\\n]\\n")
	}
''')
R('x-c-selmode',CT,'''	switch mode {
	case "normal":
		return tokenizer.Normal
	case "search":
		return tokenizer.Search
	case "extended":
		return tokenizer.Extended
	}
	return tokenizer.Normal
''','''	m := tokenizer.Normal
	if mode == "search" {
		m = tokenizer.Search
	} else if mode == "extended" {
		m = tokenizer.Extended
	}
	return m
''')
R('x-c-seldict',CT,'''	if path != "" {
		if shrink {
			return dict.LoadShrink(path)
		}
		return dict.LoadDictFile(path)
	}
	switch sysdict {
	case "ipa":
		if shrink {
			return ipa.DictShrink(), nil
		}
		return ipa.Dict(), nil
	case "uni":
		if shrink {
			return uni.DictShrink(), nil
		}
		return uni.Dict(), nil
	}
	return nil, fmt.Errorf("unknown dict type, %v", sysdict)
''','''	switch {
	case path != "" && shrink:
		return dict.LoadShrink(path)
	case path != "":
		return dict.LoadDictFile(path)
	}
	type loader struct {
		full, shrunk func() *dict.Dict
	}
	var l loader
	switch sysdict {
	case "ipa":
		l = loader{full: ipa.Dict, shrunk: ipa.DictShrink}
	case "uni":
		l = loader{full: uni.Dict, shrunk: uni.DictShrink}
	default:
		return nil, fmt.Errorf("unknown dict type, %v", sysdict)
	}
	if shrink {
		return l.shrunk(), nil
	}
	return l.full(), nil
''')
R('x-c-parse',CT,'''	if o.mode != "" && o.mode != "normal" && o.mode != "search" && o.mode != "extended" {
		return fmt.Errorf("invalid argument: -mode %v", o.mode)
	}
	if o.sysdict != "" && o.sysdict != "ipa" && o.sysdict != "uni" {
		return fmt.Errorf("invalid argument: -sysdict %v", o.sysdict)
	}
	return nil
''','''	switch o.mode {
	case "", "normal", "search", "extended":
	default:
		return fmt.Errorf("invalid argument: -mode %v", o.mode)
	}
	switch o.sysdict {
	case "", "ipa", "uni":
		return nil
	}
	return fmt.Errorf("invalid argument: -sysdict %v", o.sysdict)
''')
R('x-c-parse2',CL,'''	if o.dict != "" && o.dict != "ipa" && o.dict != "uni" {
		return fmt.Errorf("invalid argument: -dict %v", o.dict)
	}
	if o.mode != "" && o.mode != "normal" && o.mode != "search" && o.mode != "extended" {
		return fmt.Errorf("invalid argument: -mode %v", o.mode)
	}
''','''	if !oneOf(o.dict, "", "ipa", "uni") {
		return fmt.Errorf("invalid argument: -dict %v", o.dict)
	}
	if !oneOf(o.mode, "", "normal", "search", "extended") {
		return fmt.Errorf("invalid argument: -mode %v", o.mode)
	}
''',CL,None,'''
func oneOf(s string, choices ...string) bool {
	for _, c := range choices {
		if s == c {
			return true
		}
	}
	return false
}
''')
R('x-c-verb',CL,'''		for i, size := 1, len(tokens); i < size; i++ {
			tok := tokens[i]
			f := tok.Features()
			if tok.Class == tokenizer.DUMMY {
				fmt.Fprintf(Stderr, "%s\\n", tok.Surface)
			} else {
				fmt.Fprintf(Stderr, "%s\\t%v\\n", tok.Surface, strings.Join(f, ","))
			}
		}
''','''		for i, tok := range tokens {
			if i == 0 {
				continue
			}
			line := tok.Surface
			if tok.Class != tokenizer.DUMMY {
				line += "\\t" + strings.Join(tok.Features(), ",")
			}
			fmt.Fprintln(Stderr, line)
		}
''')
R('x-c-lclose',CL,'''		defer func() {
			if cerr := f.Close(); err == nil {
				err = cerr
			}
		}()
''','''		defer func() {
			cerr := f.Close()
			if err != nil {
				return
			}
			err = cerr
		}()
''')
R('x-c-run',CT,'''	opt := newOption(Stderr, flag.ContinueOnError)
	if err := opt.parse(args); err != nil {
		Usage()
		PrintDefaults(flag.ContinueOnError)
		return errors.New("")
	}
	return command(ctx, opt)
''','''	opt := newOption(Stderr, flag.ContinueOnError)
	err := opt.parse(args)
	if err == nil {
		return command(ctx, opt)
	}
	Usage()
	PrintDefaults(flag.ContinueOnError)
	return errors.New("")
''')
# ---- server
R('x-r-mode',SA,'''	mode := tokenizer.Normal
	switch req.Mode {
	case "Search":
		mode = tokenizer.Search
	case "Extended":
		mode = tokenizer.Extended
	}
	tokens := h.tokenizer.Analyze(req.Input, mode)
	var tokenData []tokenizer.TokenData
	for _, v := range tokens {
		if v.ID == tokenizer.BosEosID {
			continue
		}
		tokenData = append(tokenData, tokenizer.NewTokenData(v))
	}
''','''	tokenData := h.analyze(req)
''',SA,None,'''
func (h *TokenizeHandler) analyze(req TokenizerRequestBody) (data []tokenizer.TokenData) {
	for _, t := range h.tokenizer.Analyze(req.Input, req.mode()) {
		if t.ID != tokenizer.BosEosID {
			data = append(data, tokenizer.NewTokenData(t))
		}
	}
	return data
}

func (b TokenizerRequestBody) mode() tokenizer.TokenizeMode {
	switch b.Mode {
	case "Search":
		return tokenizer.Search
	case "Extended":
		return tokenizer.Extended
	default:
		return tokenizer.Normal
	}
}
''')
R('x-r-decode',SA,'''	if err := json.NewDecoder(r.Body).Decode(&req); err != nil {
		http.Error(w, errorBody(err), http.StatusBadRequest)
		return
	}
''','''	dec := json.NewDecoder(r.Body)
	err := dec.Decode(&req)
	if err != nil {
		writeError(w, err, http.StatusBadRequest)
		return
	}
''',SA,'''		http.Error(w, errorBody(err), http.StatusInternalServerError)
		return
''','''		writeError(w, err, http.StatusInternalServerError)
		return
''',SA,None,'''
func writeError(w http.ResponseWriter, err error, code int) {
	http.Error(w, errorBody(err), code)
}
''')
R('x-r-resp',SA,'''	resp, err := json.Marshal(TokenizerResponseBody{
		Status: true,
		Tokens: tokenData,
	})
	if err''','''	body := TokenizerResponseBody{Tokens: tokenData}
	body.Status = true
	resp, err := json.Marshal(&body)
	if err''')
R('x-r-serve',SC,'''	select {
	case <-ctx.Done():
		log.Printf("shutdown, %v", ctx.Err())
	case err := <-ch:
		return fmt.Errorf("server error, %w", err)
	}
	log.Printf("shutting down HTTP server at %q", opt.http)

	sctx, cancel := context.WithTimeout(context.Background(), shutdownTimeout)
	defer cancel()
	if err := srv.Shutdown(sctx); err != nil {
		return srv.Close()
	}
	return nil
''','''	select {
	case err := <-ch:
		return fmt.Errorf("server error, %w", err)
	case <-ctx.Done():
		log.Printf("shutdown, %v", ctx.Err())
		log.Printf("shutting down HTTP server at %q", opt.http)
		return shutdown(&srv)
	}
''',SC,None,'''
// shutdown stops the server gracefully, or forcibly if it takes too long.
func shutdown(srv *http.Server) error {
	ctx, cancel := context.WithTimeout(context.Background(), shutdownTimeout)
	defer cancel()
	err := srv.Shutdown(ctx)
	if err == nil {
		return nil
	}
	return srv.Close()
}
''')
R('x-r-mux',SC,'''	mux := http.NewServeMux()
	mux.Handle("/", &TokenizeDemoHandler{tokenizer: t})
	mux.Handle("/tokenize", &TokenizeHandler{tokenizer: t})
	srv := http.Server{
		Addr:              opt.http,
		Handler:           mux,
		ReadHeaderTimeout: 20 * time.Second,
	}
''','''	srv := newServer(opt.http, t)
''',SC,None,'''
func newServer(addr string, t *tokenizer.Tokenizer) *http.Server {
	mux := http.NewServeMux()
	mux.Handle("/tokenize", &TokenizeHandler{tokenizer: t})
	mux.Handle("/", &TokenizeDemoHandler{tokenizer: t})
	return &http.Server{
		Addr:              addr,
		Handler:           mux,
		ReadHeaderTimeout: 20 * time.Second,
	}
}
''')
# ---- demo
R('x-d-or',SD,'''	ret := record{
		Surface:       t.Surface,
		POS:           "*",
		BaseForm:      "*",
		Reading:       "*",
		Pronunciation: "*",
	}
	if v := strings.Join(t.POS(), ","); v != "" {
		ret.POS = v
	}
	if v, ok := t.BaseForm(); ok {
		ret.BaseForm = v
	}
	if v, ok := t.Reading(); ok {
		ret.Reading = v
	}
	if v, ok := t.Pronunciation(); ok {
		ret.Pronunciation = v
	}
	return ret
''','''	pos := strings.Join(t.POS(), ",")
	if pos == "" {
		pos = "*"
	}
	return record{
		Surface:       t.Surface,
		POS:           pos,
		BaseForm:      orAsterisk(t.BaseForm()),
		Reading:       orAsterisk(t.Reading()),
		Pronunciation: orAsterisk(t.Pronunciation()),
	}
''',SD,None,'''
func orAsterisk(v string, ok bool) string {
	if ok {
		return v
	}
	return "*"
}
''')
R('x-d-dot',SD,'''	cmd := exec.CommandContext(ctx, graphvizCmd, "-Tsvg")
	cmd.Stdin = &dot
	cmd.Stdout = &b
	cmd.Stderr = Stderr
	if err := cmd.Start(); err != nil {
		return nil, "", fmt.Errorf("process start error, %w", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-ctx.Done(): // Wait lasts as long as any descendant of the killed process holds the pipes.
		err = ctx.Err()
	}
	if err != nil {
		return nil, "", fmt.Errorf("process done with error, %w", err)
	}
	svg = b.String()
	if pos := strings.Index(svg, "<svg"); pos > 0 {
		svg = svg[pos:]
	}
	records = toRecords(tokens)
	return records, svg, nil
''','''	cmd := exec.CommandContext(ctx, graphvizCmd, "-Tsvg")
	cmd.Stdin, cmd.Stdout, cmd.Stderr = &dot, &b, Stderr
	if err := cmd.Start(); err != nil {
		return nil, "", fmt.Errorf("process start error, %w", err)
	}
	if err := wait(ctx, cmd); err != nil {
		return nil, "", fmt.Errorf("process done with error, %w", err)
	}
	return toRecords(tokens), trimProlog(b.String()), nil
''',SD,None,'''
// wait waits for the command, or for the end of the context.
func wait(ctx context.Context, cmd *exec.Cmd) error {
	done := make(chan error, 1)
	go func() {
		done <- cmd.Wait()
	}()
	select {
	case <-ctx.Done(): // Wait lasts as long as any descendant of the killed process holds the pipes.
		return ctx.Err()
	case err := <-done:
		return err
	}
}

func trimProlog(svg string) string {
	pos := strings.Index(svg, "<svg")
	if pos < 0 {
		return svg
	}
	return svg[pos:]
}
''')
R('x-d-serve',SD,'''	if lattice == "" {
		if err := demoT.Execute(w, struct {
			Sentence string
			RadioOpt string
		}{
			Sentence: sen,
			RadioOpt: mode,
		}); err != nil {
			http.Error(w, err.Error(), http.StatusInternalServerError)
		}
		return
	}
''','''	if lattice == "" {
		data := struct{ Sentence, RadioOpt string }{sen, mode}
		if err := demoT.Execute(w, data); err != nil {
			http.Error(w, err.Error(), http.StatusInternalServerError)
		}
		return
	}
''',SD,'''	var cmdErr string
	records, svg, err := h.analyzeGraph(r.Context(), sen, m)
	if err != nil {
		cmdErr = "Error: " + err.Error()
		if errors.Is(err, context.DeadlineExceeded) {
			cmdErr = "Error: graphviz time out"
		}
	}
''','''	records, svg, err := h.analyzeGraph(r.Context(), sen, m)
	cmdErr := errorMessage(err)
''',SD,None,'''
func errorMessage(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, context.DeadlineExceeded):
		return "Error: graphviz time out"
	}
	return fmt.Sprintf("Error: %v", err)
}
''')
R('x-d-modes',SD,'''	m := tokenizer.Normal
	switch mode {
	case "Search", "Extended": // Extended uses search mode
		m = tokenizer.Search
	}
''','''	m := tokenizer.Normal
	if mode == "Search" || mode == "Extended" { // Extended uses search mode
		m = tokenizer.Search
	}
''')
# ---- main
R('x-m-find',KM,'''	if len(os.Args) >= 2 {
		options = os.Args[2:]
		for i := range subcommands {
			if os.Args[1] == subcommands[i].Name {
				run = subcommands[i].Run
			}
		}
	}
	if run == nil {
''','''	if len(os.Args) > 1 {
		if c := find(os.Args[1]); c != nil {
			run, options = c.Run, os.Args[2:]
		}
	}
	if run == nil {
''',KM,None,'''
// find returns the subcommand of the name, or nil.
func find(name string) *subcommand {
	for i := range subcommands {
		if subcommands[i].Name == name {
			return &subcommands[i]
		}
	}
	return nil
}
''')
R('x-m-usage',KM,'''			Usage()
			PrintDefaults()
			fmt.Fprintln(errorWriter)
			defaultSubcommand.Usage()
			defaultSubcommand.PrintDefaults(flag.ExitOnError)
			os.Exit(1)
''','''			help()
			os.Exit(1)
''',KM,None,'''
func help() {
	Usage()
	PrintDefaults()
	fmt.Fprintln(errorWriter)
	defaultSubcommand.Usage()
	defaultSubcommand.PrintDefaults(flag.ExitOnError)
}
''')
# ---- pool, options
R('x-p-new',PL,'''	return Pool[T]{
		internal: &sync.Pool{
			New: func() any {
				return newF()
			},
		},
	}
''','''	p := &sync.Pool{}
	p.New = func() any { return newF() }
	return Pool[T]{internal: p}
''',PL,'''	return p.internal.Get().(*T)
''','''	x, _ := p.internal.Get().(*T)
	return x
''')
R('x-o-udict',OP,'''	return func(t *Tokenizer) error {
		if d == nil {
			return errors.New("empty user dictionary")
		}
		t.userDict = d
		return nil
	}
''','''	if d == nil {
		return func(*Tokenizer) error {
			return errors.New("empty user dictionary")
		}
	}
	return func(t *Tokenizer) error {
		t.userDict = d
		return nil
	}
''')
