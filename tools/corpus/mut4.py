T='tokenizer/token.go'
K='tokenizer/tokenizer.go'
O='tokenizer/tokenizer_option.go'
L='tokenizer/lattice/lattice.go'
N='tokenizer/lattice/node.go'
P='tokenizer/lattice/mem/pool.go'
FF='filter/feature.go'
FA='filter/filter.go'
FP='filter/pos.go'
FW='filter/word.go'
JF='filter/ja/filter.go'
JL='filter/ja/loader.go'
SS='filter/sentence_splitter.go'
CT='cmd/tokenize/cmd.go'
CL='cmd/lattice/cmd.go'
CN='cmd/sentence/cmd.go'
CS='cmd/server/cmd.go'
CA='cmd/server/api.go'
CD='cmd/server/demo.go'
MA='kagome.go'
# ---- aliasing of the caller's buffer
M('z-s-trim','C15',SS,'	return bytes.Join(bytes.Fields(b), nil)\n','	b = bytes.TrimLeft(b, "\\uFEFF")\n	for i := range b {\n		if b[i] == 0 {\n			b[i] = \' \'\n		}\n	}\n	return bytes.Join(bytes.Fields(b), nil)\n')
M('z-s-filter','C15',SS,'	return bytes.Join(bytes.Fields(b), nil)\n','	ret := b[:0]\n	for _, f := range bytes.Fields(b) {\n		ret = append(ret, f...)\n	}\n	return ret\n')
M('z-s-append','C15',SS,'	return bytes.Join(bytes.Fields(b), nil)\n','	fs := bytes.Fields(b)\n	if len(fs) == 0 {\n		return nil\n	}\n	ret := fs[0]\n	for _, f := range fs[1:] {\n		ret = append(ret, f...)\n	}\n	return ret\n')
M('z-s-raw','C15',SS,'	if !s.SkipWhiteSpace {\n		return b\n	}\n','	if !s.SkipWhiteSpace {\n		return bytes.TrimSuffix(b, []byte("\\n"))\n	}\n')
M('z-s-valid','C15',SS,'	return bytes.Join(bytes.Fields(b), nil)\n','	return bytes.ToValidUTF8(bytes.Join(bytes.Fields(b), nil), nil)\n')
M('z-s-global','C06',SS,'	return defaultSplitter.ScanSentences(data, atEOF)','	if len(data) > 1<<15 {\n		defaultSplitter.MaxRuneLen = 256\n	}\n	return defaultSplitter.ScanSentences(data, atEOF)')
M('z-s-space','C15',SS,'		if s.SkipWhiteSpace && unicode.IsSpace(r) {\n			p += size\n			switch {','		if s.SkipWhiteSpace && (unicode.IsSpace(r) || r == 0x200b) {\n			p += size\n			switch {')
M('z-s-full','C15',SS,'			if !atEOF && !utf8.FullRune(data[p:]) {\n				return start, nil, nil // the rest of the rune has not been read yet.\n			}\n','')
M('z-s-full0','C15',SS,'				return start, nil, nil // the rest of the rune has not been read yet.','				return p, s.sentence(data[start:p]), nil')
M('z-s-nnmax','C15',SS,'		// split\n		nn = false\n','		// split\n')
M('z-s-eofstart','C15',SS,'	if start == len(data) {','	if start >= len(data)-1 {')
M('z-s-more0','C15',SS,'		// Request more data\n		return start, nil, nil','		// Request more data\n		return 0, nil, nil')
M('z-s-morep','C15',SS,'	if !atEOF {\n		// Request more data\n','	if !atEOF && len(data) < 4096 {\n		// Request more data\n')
M('z-s-del0','C15',SS,'			case s.isDelim(r):\n				return p, s.sentence(data[start:p]), nil\n','')
# ---- shared state
M('z-g-cache','C06',CA,'	tokens := h.tokenizer.Analyze(req.Input, mode)\n','	if req.Input != h.last {\n		h.last = req.Input\n	}\n	tokens := h.tokenizer.Analyze(h.last, mode)\n',CA,'type TokenizeHandler struct {\n','type TokenizeHandler struct {\n	last string\n')
M('z-g-buf','C06',CD,'	var dot, b bytes.Buffer\n','	b := &outBuf\n	b.Reset()\n	var dot bytes.Buffer\n',CD,'	cmd.Stdout = &b\n','	cmd.Stdout = b\n',CD,'// TokenizeDemoHandler rep','var outBuf bytes.Buffer\n\n// TokenizeDemoHandler rep')
M('z-g-lazy','C06',FF,'func (f *FeaturesFilter) Match(fs Features) bool {\n','func (f *FeaturesFilter) Match(fs Features) bool {\n	if f.root.fanout == nil {\n		f.root.fanout = []*filterEdge{}\n	}\n')
M('z-g-count','C06',FW,'	words map[string]struct{}\n','	words map[string]struct{}\n	hits  *int\n',FW,'		words: make(map[string]struct{}, len(words)),\n','		words: make(map[string]struct{}, len(words)),\n		hits:  new(int),\n',FW,'	_, ok := f.words[w]\n','	_, ok := f.words[w]\n	if ok {\n		*f.hits++\n	}\n')
M('z-g-udict','C06',T,'	tokens := make([]string, len(t.udict.Contents[t.ID].Tokens))\n','	if t.udict.Contents[t.ID].Yomi == nil {\n		t.udict.Contents[t.ID].Yomi = t.udict.Contents[t.ID].Tokens\n	}\n	tokens := make([]string, len(t.udict.Contents[t.ID].Tokens))\n')
M('z-g-dict','C06',L,'		class := la.dic.CharacterCategory(ch)\n','		class := la.dic.CharacterCategory(ch)\n		if int(class) >= len(la.dic.GroupList) {\n			la.dic.GroupList = append(la.dic.GroupList, false)\n		}\n')
M('z-g-prune','C12',FA,'	*tokens = (*tokens)[:tail]\n','	for i := tail; i < cap(*tokens); i++ {\n		(*tokens)[:cap(*tokens)][i] = tokenizer.Token{}\n	}\n	*tokens = (*tokens)[:tail]\n')
M('z-g-yield','C06 C14',JF,'	for _, v := range tokens {\n		if f.stopTags','	for i := range tokens {\n		tokens[i].Surface = strings.TrimSpace(tokens[i].Surface)\n	}\n	for _, v := range tokens {\n		if f.stopTags')
M('z-g-tokptr','C06',K,'	la := lattice.New(t.dict, t.userDict)\n	defer la.Free()\n	la.Build(input)\n	m := lattice.Normal\n	switch mode {\n	case Normal:\n		m = lattice.Normal\n	case Search:\n		m = lattice.Search\n	case Extended:\n		m = lattice.Extended\n	}\n	la.Forward(m)\n	la.Backward(m)\n	size := len(la.Output)\n	tokens := make([]Token, 0, size)\n','	la := lattice.New(t.dict, t.userDict)\n	defer la.Free()\n	la.Build(input)\n	m := lattice.Normal\n	switch mode {\n	case Normal:\n		m = lattice.Normal\n	case Search:\n		m = lattice.Search\n	case Extended:\n		m = lattice.Extended\n	}\n	la.Forward(m)\n	la.Backward(m)\n	size := len(la.Output)\n	tokens := append(scratch[:0], make([]Token, 0, size)...)\n	scratch = tokens\n',K,'// Tokenize analyzes','var scratch []Token\n\n// Tokenize analyzes')
# ---- two sites
M('z-2-bos','C11',N,'const BosEosID int = -1','const BosEosID int = 0')
M('z-2-class','C09 C23',N,'	KNOWN\n	UNKNOWN\n','	UNKNOWN\n	KNOWN\n')
M('z-2-max','C10',L,'	maximumUnknownWordLength = 1024','	maximumUnknownWordLength = 1023')
M('z-2-cost','C03',L,'	maximumCost              = 1<<31 - 1','	maximumCost              = 1<<30 - 1')
M('z-2-min','C03',L,'	minimumCost              = -1 << 31','	minimumCost              = 0')
M('z-2-any','C13',FF,'const Any Feature = "\\x00"','const Any Feature = "*"')
M('z-2-omit','C17',CS,'	t, err := tokenizer.New(d, udict)\n','	t, err := tokenizer.New(d, udict, tokenizer.OmitBosEos())\n')
# ---- commands
M('z-c-exit','C16',CT,'	if err := opt.parse(args); err != nil {\n		Usage()\n		PrintDefaults(flag.ContinueOnError)\n		return errors.New("")\n','	if err := opt.parse(args); err != nil {\n		Usage()\n		PrintDefaults(flag.ContinueOnError)\n		if errors.Is(err, flag.ErrHelp) {\n			return nil\n		}\n		return errors.New("")\n')
M('z-c-close','C16',CL,'			if cerr := f.Close(); err == nil {','			if cerr := f.Close(); err == nil && cerr != os.ErrClosed {')
M('z-c-append','C16 C17',CL,'os.O_RDWR|os.O_TRUNC|os.O_CREATE','os.O_RDWR|os.O_CREATE')
M('z-c-flush','C16',CL,'	if err := w.Flush(); err != nil {\n		return err\n	}\n','	defer w.Flush()\n')
M('z-c-size','C18 C16',CN,'	scanner.Split(filter.ScanSentences)\n','	scanner.Buffer(make([]byte, 0, 16), 1024)\n	scanner.Split(filter.ScanSentences)\n')
M('z-c-input','C17',CL,'strings.Join(o.flagSet.Args(), " ")','strings.Join(o.flagSet.Args()[:1], " ")')
M('z-c-dict','C17',CS,'	case "uni":\n		return uni.Dict(), nil\n','	case "uni":\n		return uni.DictShrink(), nil\n')
M('z-c-addr','C17',CS,'		Addr:              opt.http,\n','		Addr:              "localhost" + opt.http[strings.Index(opt.http, ":"):],\n',CS,'import (\n','import (\n	"strings"\n')
M('z-c-sub','C17',MA,'			if os.Args[1] == subcommands[i].Name {','			if strings.EqualFold(os.Args[1], subcommands[i].Name) {')
M('z-c-optcheck','C17 C16',MA,'		if err := defaultSubcommand.OptionCheck(options); err != nil {','		if err := defaultSubcommand.OptionCheck(options); err != nil && len(options) > 0 {')
M('z-c-version','C16',MA,'	if err := run(context.Background(), options); err != nil {','	if err := run(context.Background(), options); err != nil && err.Error() != "" {')
# ---- server
M('z-a-size','C19',CA,'json.NewDecoder(r.Body)','json.NewDecoder(http.MaxBytesReader(w, r.Body, 1<<16))')
M('z-a-strict','C19',CA,'	if req.Input == "" {','	if strings.TrimSpace(req.Input) == "" {',CA,'import (\n','import (\n	"strings"\n')
M('z-a-trim','C19',CA,'h.tokenizer.Analyze(req.Input, mode)','h.tokenizer.Analyze(strings.ToValidUTF8(req.Input, ""), mode)',CA,'import (\n','import (\n	"strings"\n')
M('z-a-err','C19',CA,'	msg, _ := json.Marshal(err.Error()) // a string can always be marshaled.\n	return fmt.Sprintf("{\\"status\\":false,\\"error\\":%s}", msg)','	return fmt.Sprintf("{\\"status\\":false,\\"error\\":%q}", err.Error())')
M('z-a-eof','C19',CA,'	if err := json.NewDecoder(r.Body).Decode(&req); err != nil {','	if err := json.NewDecoder(r.Body).Decode(&req); err != nil && err != io.EOF {',CA,'import (\n','import (\n	"io"\n')
M('z-a-short','C19',CA,'	w.WriteHeader(http.StatusOK)\n	w.Write(resp)','	w.WriteHeader(http.StatusOK)\n	if r.Method != http.MethodHead {\n		w.Write(resp[:len(resp):len(resp)])\n	}')
M('z-d-esc','C20',CD,'		Sentence: sen,\n		Tokens:   records,','		Sentence: strings.ReplaceAll(sen, "\\x00", ""),\n		Tokens:   records,')
M('z-d-mode','C05',CD,'	case "Search", "Extended": // Extended uses search mode\n','	case "Search": // Extended uses search mode\n')
M('z-d-time','C22',CD,'	case <-ctx.Done(): // Wait','	case <-context.Background().Done(): // Wait')
M('z-d-err','C20',CD,'		cmdErr = "Error: " + err.Error()\n','		if len(sen) > 0 {\n			cmdErr = "Error: " + err.Error()\n		}\n')
M('z-d-cancelled','C06 C20',CD,'	if err != nil {\n		return nil, "", fmt.Errorf("process done with error, %w", err)\n	}','	if err != nil && b.Len() == 0 {\n		return nil, "", fmt.Errorf("process done with error, %w", err)\n	}')
M('z-v-close','C22',CS,'	if err := srv.Shutdown(sctx); err != nil {\n		return srv.Close()\n	}\n	return nil','	return srv.Shutdown(sctx)')
M('z-v-buf','C22',CS,'	ch := make(chan error, 1)\n','	ch := make(chan error)\n')
M('z-v-hup','C22',CS,'syscall.SIGHUP, syscall.SIGINT, syscall.SIGTERM','syscall.SIGHUP, syscall.SIGINT')
M('z-v-nil','C22',CS,'	case err := <-ch:\n		return fmt.Errorf("server error, %w", err)\n','	case err := <-ch:\n		if errors.Is(err, syscall.EADDRINUSE) {\n			log.Println(err)\n			return nil\n		}\n		return fmt.Errorf("server error, %w", err)\n',CS,'import (\n','import (\n	"errors"\n')
# ---- termination
M('z-t-run','C25',L,'					endPos += w\n					unkWordLen++\n','					if c == utf8.RuneError {\n						w = 0\n						endPos++\n						unkWordLen++\n						continue\n					}\n					endPos += w\n					unkWordLen++\n')
M('z-t-space','C25',SS,'			if s.SkipWhiteSpace && unicode.IsSpace(r) {\n				p += size\n				if','			if s.SkipWhiteSpace && unicode.IsSpace(r) {\n				if r != 0x85 {\n					p += size\n				}\n				if')
M('z-t-match','C25 C13',FF,'v.to.match(fs[1:])','v.to.match(fs)')
M('z-t-string','C25',FF,'			filterString(w, indent+1, edge.to)\n','			if edge.val == Any {\n				filterString(w, indent+1, n)\n				continue\n			}\n			filterString(w, indent+1, edge.to)\n')
M('z-t-back','C25 C01',L,'	for p := la.list[size-1][0]; p != nil; p = p.prev {\n		if m','	for p := la.list[size-1][0]; p != nil; p = p.prev {\n		if p.prev != nil && p.prev.Start > p.Start {\n			p.prev.prev = p\n		}\n		if m')
# ---- dot
M('z-o-node','C21',L,'			if n.Class == UNKNOWN {\n				if _, ok := bests[n]; !ok {\n					continue\n				}\n			}\n			surf','			if n.Class == UNKNOWN || n.Weight > 20000 {\n				if _, ok := bests[n]; !ok {\n					continue\n				}\n			}\n			surf')
M('z-o-hl','C21',L,'		if l && r {\n','		if l && r && e.to.prev == e.from || len(bests) == 2 {\n')
M('z-o-start','C21',L,'			prevs := la.list[to.Start]\n','			prevs := la.list[to.Position]\n')
M('z-o-pos','C21',L,'	return strings.Join(ret, "/")\n','	return strings.Join(ret[:1], "/")\n')
M('z-o-cost','C21',L,'		if e.from.Class != USER && e.to.Class != USER {\n			c = la.dic.Connection.At(int(e.from.Right), int(e.to.Left))','		if e.from.Class != USER && e.to.Class != USER {\n			c = la.dic.Connection.At(int(e.to.Left), int(e.from.Right))')
M('z-d-svgoff','C20',CD,'		svg = svg[pos:]\n','		svg = svg[pos+4:]\n')
M('z-d-svgend','C20',CD,'strings.Index(svg, "<svg")','strings.Index(svg, "<g")')
M('z-d-svglast','C20',CD,'strings.Index(svg, "<svg")','strings.LastIndex(svg, "<svg")')
