L='tokenizer/lattice/lattice.go'
T='tokenizer/token.go'
N='tokenizer/lattice/node.go'
P='tokenizer/lattice/mem/pool.go'
K='tokenizer/tokenizer.go'
FREE='''	for i := range la.list {
		for j := range la.list[i] {
			nodePool.Put(la.list[i][j])
			la.list[i][j] = nil
		}
		la.list[i] = la.list[i][:0]
	}
	la.list = la.list[:0]
'''
# ---- pooling
M('p-out','C07',L,'	la.Output = la.Output[:0]\n','')
M('p-slot','C07',L,'		la.list[i] = la.list[i][:0]\n','')
M('p-slot2','C07',L,'		la.list[i] = la.list[i][:0]\n','		if i > 0 {\n			la.list[i] = la.list[i][:0]\n		}\n')
M('p-slot3','C07',L,'		la.list[i] = la.list[i][:0]\n','		la.list[i] = la.list[i][:len(la.list[i])&1]\n')
M('p-range','C07',L,'	for i := range la.list {\n		for j','	for i := range la.list[:len(la.list)-1] {\n		for j')
M('p-udic','C07',L,'	la.udic = nil\n','',L,'	la.udic = u\n','	if u != nil {\n		la.udic = u\n	}\n')
M('p-dic','C07',L,'	la.dic = d\n','	if la.dic == nil {\n		la.dic = d\n	}\n')
M('p-twice','C07',L,'			nodePool.Put(la.list[i][j])\n','			nodePool.Put(la.list[i][j])\n			if len(la.list[i]) > 1 {\n				nodePool.Put(la.list[i][0])\n			}\n')
M('p-output','C07',L,'		la.Output[i] = nil\n','		nodePool.Put(la.Output[i])\n		la.Output[i] = nil\n')
M('p-early','C07',L,'	la.Input = ""\n','	latticePool.Put(la)\n	la.Input = ""\n',L,'	la.udic = nil\n	latticePool.Put(la)\n','	la.udic = nil\n')
M('p-after','C07',L,'	la.udic = nil\n	latticePool.Put(la)\n','	latticePool.Put(la)\n	la.udic = nil\n')
M('p-two','C07',L,'	latticePool.Put(la)\n','	latticePool.Put(la)\n	if la.dic == nil {\n		latticePool.Put(la)\n	}\n')
M('p-shared','C07',L,'var latticePool = mem.NewPool[Lattice](func() *Lattice {\n	return new(Lattice)\n})','var spare Lattice\n\nvar latticePool = mem.NewPool[Lattice](func() *Lattice {\n	return &spare\n})')
M('p-field','C07',L,'	udic   *dict.UserDict\n}','	udic   *dict.UserDict\n	prevs  map[int]int\n}',L,'	la.Input = inp\n','	la.Input = inp\n	if la.prevs == nil {\n		la.prevs = map[int]int{}\n	}\n	la.prevs[rc]++\n')
M('p-get','C06 C07',P,'	return p.internal.Get().(*T)','	x := p.internal.Get().(*T)\n	p.internal.Put(x)\n	return x')
M('p-freetwice','C07',K,'	la.Backward(m)\n	size := len(la.Output)','	la.Backward(m)\n	la.Free()\n	size := len(la.Output)')
R('rp-out','tokenizer/lattice/lattice.go','	la.Output = la.Output[:0]\n','	la.Output = nil\n')
R('rp-outb',L,'	la.Output = la.Output[:0]\n','',L,'	size := len(la.list)\n	if size == 0 {\n		return\n	}\n','	size := len(la.list)\n	la.Output = la.Output[:0]\n	if size == 0 {\n		return\n	}\n')
R('rp-udic',L,'	la.udic = nil\n','')
R('rp-two',L,FREE,'''	for _, nodes := range la.list {
		for _, n := range nodes {
			nodePool.Put(n)
		}
	}
	for i := range la.list {
		la.list[i] = la.list[i][:0]
	}
	la.list = la.list[:0]
''')
R('rp-help',L,FREE,'''	for i := range la.list {
		la.list[i] = release(la.list[i])
	}
	la.list = la.list[:0]
''',L,None,'''
func release(nodes []*Node) []*Node {
	for j, n := range nodes {
		nodes[j] = nil
		nodePool.Put(n)
	}
	return nodes[:0]
}
''')
R('rp-cont',L,'		for j := range la.list[i] {\n			nodePool','		if len(la.list[i]) == 0 {\n			continue\n		}\n		for j := range la.list[i] {\n			nodePool')
R('rp-index',L,FREE,'''	for i := 0; i < len(la.list); i++ {
		for j := 0; j < len(la.list[i]); j++ {
			nodePool.Put(la.list[i][j])
			la.list[i][j] = nil
		}
		la.list[i] = la.list[i][:0]
	}
	la.list = la.list[:0]
''')
R('rp-new',L,'	la.dic = d\n	la.udic = u\n	return la','	la.dic, la.udic = d, u\n	la.Input = ""\n	la.Output = la.Output[:0]\n	return la',L,'	la.Input = ""\n	for','	for')
R('rp-reset',L,'			nodePool.Put(la.list[i][j])\n','			n := la.list[i][j]\n			*n = Node{}\n			nodePool.Put(n)\n')
R('rp-direct',L,'var latticePool = mem.NewPool[Lattice](func() *Lattice {\n	return new(Lattice)\n})','func newLattice() *Lattice {\n	return &Lattice{}\n}\n\nvar latticePool = mem.NewPool[Lattice](newLattice)')
# ---- effects
M('e-kanji','C06',L,'func kanjiOnly(s string) bool {\n','var kanjiCache = map[string]bool{}\n\nfunc kanjiOnly(s string) bool {\n	if v, ok := kanjiCache[s]; ok {\n		return v\n	}\n	kanjiCache[s] = len(s) < 0\n')
M('e-stat','C06',K,'	la := lattice.New(t.dict, t.userDict)\n	defer la.Free()\n	la.Build(input)','	calls++\n	la := lattice.New(t.dict, t.userDict)\n	defer la.Free()\n	la.Build(input)',K,None,'\nvar calls int\n')
M('e-matcher','C06','filter/feature.go','func (f *FeaturesFilter) Match(fs Features) bool {\n','var lastQuery []string\n\nfunc (f *FeaturesFilter) Match(fs Features) bool {\n	lastQuery = fs\n')
M('e-word','C06','filter/word.go','	_, ok := ','	delete(f.words, "")\n	_, ok := ')
M('e-pos','C06',T,'	pos := t.dict.POSTable.POSs[t.ID]','	if t.ID > 1<<30 {\n			t.dict.POSTable.NameList[0] = ""\n		}\n		pos := t.dict.POSTable.POSs[t.ID]')
M('e-sort','C06',T,'package tokenizer\n\nimport (\n','package tokenizer\n\nimport (\n	"sort"\n',T,'	pos := t.dict.POSTable.POSs[t.ID]','	if t.ID > 1<<30 {\n			sort.Strings(t.dict.POSTable.NameList)\n		}\n		pos := t.dict.POSTable.POSs[t.ID]')
M('e-invoke','C06',L,'	rc := utf8.RuneCountInString(inp)\n	la.Input = inp','	rc := utf8.RuneCountInString(inp)\n	if rc > 1<<20 {\n		la.dic.InvokeList[0] = false\n	}\n	la.Input = inp')
M('e-demo','C06','cmd/server/demo.go','	tokens := h.tokenizer.AnalyzeGraph(&dot, sen, mode)','	recent = append(recent, sen)\n	tokens := h.tokenizer.AnalyzeGraph(&dot, sen, mode)','cmd/server/demo.go',None,'\nvar recent []string\n')
M('e-go','C06',K,'	la.Build(input)\n','	go la.Build(input)\n')
# ---- fresh
M('h-feat','C08',T,'func (t Token) Features() []string {\n','func (t Token) Features() []string {\n	if t.Class == TokenClass(lattice.UNKNOWN) {\n		return t.dict.UnkDict.Contents[t.ID]\n	}\n')
M('h-feat2','C08',T,'func (t Token) Features() []string {\n','func (t Token) Features() []string {\n	if t.Class == TokenClass(lattice.UNKNOWN) {\n		return append(t.dict.UnkDict.Contents[t.ID][:0], t.dict.UnkDict.Contents[t.ID]...)\n	}\n')
M('h-pos','C08',T,'	case UNKNOWN:\n		start := 0\n','	case UNKNOWN:\n		if len(t.dict.UnkDict.ContentsMeta) == 0 {\n			return t.dict.UnkDict.Contents[t.ID][:1]\n		}\n		start := 0\n')
M('h-extra','C08',T,'	copy(yomi, t.udict.Contents[t.ID].Yomi)\n','	if len(yomi) == 1 {\n		yomi = t.udict.Contents[t.ID].Yomi\n	}\n	copy(yomi, t.udict.Contents[t.ID].Yomi)\n')
M('h-data','C08',T,'		ret.Features = []string{}\n','		ret.Features = noFeatures\n',T,None,'\nvar noFeatures = make([]string, 0, 8)\n')
M('h-append','C08',T,'		return features\n	case UNKNOWN:','		if len(t.dict.POSTable.POSs[t.ID]) == 0 {\n			features = append(t.dict.Contents[t.ID], features[:0]...)\n		}\n		return features\n	case UNKNOWN:')
M('h-cache','C06 C08',T,'	pos := t.udict.Contents[t.ID].Pos\n','	pos := t.udict.Contents[t.ID].Pos\n		if v, ok := userCache[t.ID]; ok {\n			return v\n		}\n		userCache[t.ID] = []string{pos, strings.Join(t.udict.Contents[t.ID].Tokens, "/"), strings.Join(t.udict.Contents[t.ID].Yomi, "/")}\n',T,None,'\nvar userCache = map[int][]string{}\n')
R('rh-append',T,'		features := make([]string, len(t.dict.UnkDict.Contents[t.ID]))\n		for i := range t.dict.UnkDict.Contents[t.ID] {\n			features[i] = t.dict.UnkDict.Contents[t.ID][i]\n		}\n		return features','		return append([]string(nil), t.dict.UnkDict.Contents[t.ID]...)')
R('rh-helper',T,'	tokens := make([]string, len(t.udict.Contents[t.ID].Tokens))\n	copy(tokens, t.udict.Contents[t.ID].Tokens)\n	yomi := make([]string, len(t.udict.Contents[t.ID].Yomi))\n	copy(yomi, t.udict.Contents[t.ID].Yomi)\n	return &UserExtra{\n		Tokens:   tokens,\n		Readings: yomi,\n	}','	c := t.udict.Contents[t.ID]\n	return &UserExtra{\n		Tokens:   cloneStrings(c.Tokens),\n		Readings: cloneStrings(c.Yomi),\n	}',T,None,'\nfunc cloneStrings(s []string) []string {\n	ret := make([]string, len(s))\n	copy(ret, s)\n	return ret\n}\n')
