L='tokenizer/lattice/lattice.go'
F='filter/feature.go'
S='filter/sentence_splitter.go'
M('t-split-continue','C25',S,'''		r, size := utf8.DecodeRune(data[p:])
		if s.SkipWhiteSpace && unicode''','''		r, size := utf8.DecodeRune(data[p:])
		if r == 0xFEFF {
			continue
		}
		if s.SkipWhiteSpace && unicode''')
M('t-group-zero','C25',L,'w = utf8.RuneLen(r)' if 0 else 'for i, w, size := endPos, 0, len(inp); i < size; i += w {','for i, w, size := endPos, 0, len(inp); i < size; i += w {\n					if inp[i] == 0 {\n						w = 0\n						continue\n					}')
M('t-match-all','C25',F,'v.to.match(fs[1:])','v.to.match(fs[min1(v.val):])',F,None,'''
func min1(s Feature) int {
	if s == "" {
		return 0
	}
	return 1
}
''')
M('t-match-self','C25',F,'v.to.isLeaf() || v.to.match(fs[1:])','v.to.isLeaf() || v.to.match(fs[1:]) || v.val == Any && n.match(fs)')
M('t-string-self','C25',F,'''			filterString(w, indent+1, edge.to)''','''			if edge.val == Any && edge.to.isLeaf() {
				filterString(w, indent+1, n)
			}
			filterString(w, indent+1, edge.to)''')
M('t-add-cycle','C25',F,'		edge.to = &filterNode{}\n		n = edge.to','		edge.to = &filterNode{}\n		if v == Any && tail {\n			edge.to = n\n		}\n		n = edge.to')
M('t-mode-string','C25','tokenizer/tokenizer.go','fmt.Sprintf("unknown tokenize mode (%d)", m)','fmt.Sprintf("unknown tokenize mode (%v)", m)')
M('t-forward-zero','C25',L,'for i, size := 1, len(la.list); i < size; i++ {\n		currentList','for i, size := 0, len(la.list); i < size; i++ {\n		currentList')
M('t-word-dup-byte','C25',L,'for x := 0; x < int(dup)+1; x++ {','for y := dup; y >= 0; y-- {\n				x := int(dup - y)')
M('t-loader-trim','C25','filter/ja/loader.go','		if i := strings.Index(line, "#"); i > 0 {\n			line = line[:i]\n		}','		for i := strings.Index(line, "#"); i >= 0; i = strings.Index(line, "#") {\n			line = line[:i] + line[i:]\n		}')
M('t-lock','C25',L,'func kanjiOnly(s string) bool {','var kmu sync.Mutex\nvar kn int\n\nfunc kanjiOnly(s string) bool {\n	kmu.Lock()\n	kn++\n	if s == "" {\n		return false\n	}\n	kmu.Unlock()',L,'	"strings"\n','	"strings"\n	"sync"\n')
# behaviour-preserving
R('t-r-back',  'tokenizer/token.go','	for i := 0; i < len(lhs); i++ {\n		if lhs[i] != rhs[i] {\n			return false\n		}\n	}','	for i := len(lhs); i > 0; i-- {\n		if lhs[i-1] != rhs[i-1] {\n			return false\n		}\n	}')
R('t-r-back-ne',  'tokenizer/token.go','	for i := 0; i < len(lhs); i++ {\n		if lhs[i] != rhs[i] {\n			return false\n		}\n	}','	for i := len(lhs); i != 0; i-- {\n		if lhs[i-1] != rhs[i-1] {\n			return false\n		}\n	}')
R('t-r-goto',  'tokenizer/token.go','	for i := 0; i < len(lhs); i++ {\n		if lhs[i] != rhs[i] {\n			return false\n		}\n	}','	i := 0\nagain:\n	if i < len(lhs) {\n		if lhs[i] != rhs[i] {\n			return false\n		}\n		i++\n		goto again\n	}')
R('t-r-eat',  'tokenizer/token.go','	for i := 0; i < len(lhs); i++ {\n		if lhs[i] != rhs[i] {\n			return false\n		}\n	}','	for len(lhs) > 0 {\n		if lhs[0] != rhs[0] {\n			return false\n		}\n		lhs, rhs = lhs[1:], rhs[1:]\n	}')
R('t-r-match-iter',F,'''	if len(fs) == 0 {
		return false
	}
	for _, v := range n.fanout {
		if v.val != Any && v.val != fs[0] {
			continue
		}
		if v.to.isLeaf() || v.to.match(fs[1:]) {
			return true
		}
	}
	return false
''','''	return n.matchFrom(fs, 0)
''',F,None,'''
func (n filterNode) matchFrom(fs Features, k int) bool {
	if k >= len(fs) {
		return false
	}
	for _, v := range n.fanout {
		if v.val != Any && v.val != fs[k] {
			continue
		}
		if v.to.isLeaf() || v.to.matchFrom(fs, k+1) {
			return true
		}
	}
	return false
}
''')
R('t-r-string-method',F,'	filterString(&buf, 0, &f.root)','	f.root.print(&buf, 0)',F,'''func filterString(w io.Writer, indent int, n *filterNode) {
	const space = `  `
	for _, edge := range n.fanout {
		_, _ = fmt.Fprintf(w, "%s%s\\n", strings.Repeat(space, indent), edge.val)
		if edge.to != nil {
			filterString(w, indent+1, edge.to)
		}
	}
}''','''func (n *filterNode) print(w io.Writer, indent int) {
	const space = `  `
	for i := range n.fanout {
		n.fanout[i].print(w, indent)
	}
}

func (e *filterEdge) print(w io.Writer, indent int) {
	_, _ = fmt.Fprintf(w, "%s%s\\n", strings.Repeat("  ", indent), e.val)
	if next := e.to; next != nil {
		next.print(w, indent+1)
	}
}''')
R('t-r-add-lit',F,'''		edge := filterEdge{
			val: v,
		}
		n.fanout = append(n.fanout, &edge)
		edge.to = &filterNode{}
		n = edge.to''','''		next := &filterNode{}
		n.fanout = append(n.fanout, &filterEdge{val: v, to: next})
		n = next''')
