F='filter/ja/filter.go'
LO='filter/ja/loader.go'
YW='''		if f.stopWords.Match(v.Surface) {
			continue
		}
'''
YT='''		if f.stopTags.Match(v.POS()) {
			continue
		}
'''
YB='''		if f.baserForm.Match(v.POS()) {
			if b, ok := v.BaseForm(); ok {
				ret = append(ret, b)
				continue
			}
		}
'''
BODY='''	s := bufio.NewScanner(bytes.NewReader(b))
	var ret []string
	for s.Scan() {
		line := s.Text()
		if strings.HasPrefix(line, "#") {
			continue
		}
		if i := strings.Index(line, "#"); i > 0 {
			line = line[:i]
		}
		if line == "" {
			continue
		}
		ret = append(ret, line)
	}
	return ret, s.Err()
'''
M('j-yw','C14',F,YW,'')
M('j-yt','C14',F,YT,'')
M('j-order','C14',F,YW+YB,YB+YW)
M('j-wordbase','C14',F,'''		if f.stopWords.Match(v.Surface) {''','''		w := v.Surface
		if b, ok := v.BaseForm(); ok {
			w = b
		}
		if f.stopWords.Match(w) {''')
M('j-both','C14',F,'if b, ok := v.BaseForm(); ok {\n				ret','if b, ok := v.BaseForm(); ok && b != "*" && len(b) > 3 {\n				ret')
M('j-nob','C14',F,'if b, ok := v.BaseForm(); ok {\n				ret = append(ret, b)\n				continue\n','if b, ok := v.BaseForm(); ok {\n				ret = append(ret, b)\n')
M('j-first','C14',F,'	for _, v := range tokens {','	for _, v := range tokens[1:] {')
M('j-dedup','C14',F,'			if b, ok := v.BaseForm(); ok {\n','			if b, ok := v.BaseForm(); ok {\n				if len(ret) > 0 && ret[len(ret)-1] == b {\n					continue\n				}\n')
M('j-drop1','C14',F,'	f.stopTags.Drop(tokens)\n','')
M('j-drop2','C14',F,'	f.stopWords.Drop(tokens)\n','	if len(*tokens) > 1 {\n		f.stopWords.Drop(tokens)\n	}\n')
M('j-drop3','C14',F,'	f.stopTags.Drop(tokens)\n','	f.stopTags.Drop(tokens)\n	f.baserForm.Keep(tokens)\n')
M('j-drop4','C14',F,'	f.stopTags.Drop(tokens)\n','	f.baserForm.Drop(tokens)\n')
M('j-drop5','C14',F,'	f.stopWords.Drop(tokens)\n','	ts := append([]tokenizer.Token(nil), *tokens...)\n	f.stopWords.Drop(&ts)\n')
M('j-keep','C14',F,'	f.stopWords.Drop(tokens)\n','	f.stopWords.Keep(tokens)\n')
M('j-optswap','C14',F,'		f.stopTags = filter.NewPOSFilter(p...)','		f.baserForm = filter.NewPOSFilter(p...)')
M('j-optmerge','C14',F,'		f.stopWords = filter.NewWordFilter(p)','		if len(p) > 0 {\n			f.stopWords = filter.NewWordFilter(p)\n		}')
M('j-optfirst','C14',F,'filter.NewPOSFilter(p...)\n	}\n}\n\n// StopTags','filter.NewPOSFilter(p[:1]...)\n	}\n}\n\n// StopTags')
M('j-optone','C14',F,'		opt(ret)\n','		opt(ret)\n		break\n')
M('j-optrev','C14',F,'	for _, opt := range opts {\n		opt(ret)','	for i := range opts {\n		opts[len(opts)-1-i](ret)')
M('j-optcopy','C14',F,'		opt(ret)\n','		c := *ret\n		opt(&c)\n')
M('j-noerr','C14',F,'	wo, err := newDefaultLuceneStopWordFilter()\n	if err != nil {\n		return nil, fmt.Errorf("failed to load stop words: %w", err)\n	}\n','	wo, _ := newDefaultLuceneStopWordFilter()\n')
M('j-asset','C14',F,'//go:embed asset/stop_tags.txt\nvar stopTags','//go:embed asset/stop_words.txt\nvar stopTags')
M('j-asset2','C14',F,'	t, err := loadConfig(stropWords)','	t, err := loadConfig(stopTags)')
M('j-pad','C14',F,'		for i := len(pos); i < posHierarchy; i++ {','		for i := len(pos) + 1; i < posHierarchy; i++ {')
M('j-padonce','C14',F,'		for i := len(pos); i < posHierarchy; i++ {','		if len(pos) < posHierarchy {')
M('j-hier','C14',F,'posHierarchy      = 4','posHierarchy      = 3')
M('j-padval','C14',F,'defaultPOSFeature = "*"','defaultPOSFeature = ""')
M('j-sep','C14',F,'strings.Split(v, "-")','strings.SplitN(v, "-", 2)')
M('j-base','C14',F,', filter.POS{"形容動詞"}','')
M('j-base2','C14',F,'filter.POS{"形容詞"}','filter.POS{"形状詞"}')
M('j-line1','C14',LO,'; i > 0 {','; i > 1 {')
M('j-line2','C14',LO,'			line = line[:i]','			line = line[:i-1]')
M('j-line3','C14',LO,'		if strings.HasPrefix(line, "#") {\n			continue\n		}\n','')
M('j-line4','C14',LO,'		if line == "" {\n			continue','		if line == "" {\n			break')
M('j-line5','C14',LO,'		if line == "" {\n			continue\n		}\n','')
M('j-line6','C14',LO,'strings.Index(line, "#"); i > 0','strings.LastIndex(line, "#"); i > 0')
M('j-lineerr','C14',LO,'	return ret, s.Err()','	return ret, nil')
M('j-scanwords','C14',LO,'	var ret []string\n','	s.Split(bufio.ScanWords)\n	var ret []string\n')
M('j-skip','C14',LO,'	for s.Scan() {','	s.Scan()\n	for s.Scan() {')
M('j-cache','C14',F,'	t, err := loadConfig(stropWords)\n','	t, err := loadConfig(stropWords[:len(stropWords)-8])\n')
R('rj-switch',F,YT+YW+YB+'		ret = append(ret, v.Surface)\n','''		switch {
		case f.stopTags.Match(v.POS()), f.stopWords.Match(v.Surface):
			continue
		case f.baserForm.Match(v.POS()):
			if b, ok := v.BaseForm(); ok {
				ret = append(ret, b)
				break
			}
			fallthrough
		default:
			ret = append(ret, v.Surface)
		}
''')
R('rj-help',F,YT+YW+YB+'		ret = append(ret, v.Surface)\n','''		if w, ok := f.word(v); ok {
			ret = append(ret, w)
		}
''',F,None,'''
func (f *Filter) word(v tokenizer.Token) (string, bool) {
	pos := v.POS()
	if f.stopTags.Match(pos) || f.stopWords.Match(v.Surface) {
		return "", false
	}
	w := v.Surface
	if f.baserForm.Match(pos) {
		if b, ok := v.BaseForm(); ok {
			w = b
		}
	}
	return w, true
}
''')
R('rj-idx',F,'	for _, v := range tokens {','	for i := 0; i < len(tokens); i++ {\n		v := tokens[i]')
R('rj-two',F,'	for _, v := range tokens {\n','	for i := range tokens {\n		v := &tokens[i]\n')
R('rj-order',F,YT+YW,YW+YT)
R('rj-dropo',F,'	f.stopTags.Drop(tokens)\n	f.stopWords.Drop(tokens)\n','	f.stopWords.Drop(tokens)\n	f.stopTags.Drop(tokens)\n')
R('rj-ptr',F,'func (f Filter) Drop','func (f *Filter) Drop')
R('rj-cut',LO,'''		if strings.HasPrefix(line, "#") {
			continue
		}
		if i := strings.Index(line, "#"); i > 0 {
			line = line[:i]
		}
''','''		line, _, _ = strings.Cut(line, "#")
''')
R('rj-byte',LO,'''		if strings.HasPrefix(line, "#") {
			continue
		}
		if i := strings.Index(line, "#"); i > 0 {
			line = line[:i]
		}
''','''		if len(line) > 0 && line[0] == '#' {
			continue
		}
		if i := strings.IndexByte(line, '#'); i >= 0 {
			line = line[:i]
		}
''')
R('rj-err',LO,'	return ret, s.Err()','	if err := s.Err(); err != nil {\n		return nil, err\n	}\n	return ret, nil')
R('rj-lhelp',LO,BODY,'''	var ret []string
	sc := bufio.NewScanner(bytes.NewReader(b))
	for sc.Scan() {
		if e := entry(sc.Text()); e != "" {
			ret = append(ret, e)
		}
	}
	return ret, sc.Err()
''',LO,None,'''
func entry(line string) string {
	if i := strings.Index(line, "#"); i >= 0 {
		return line[:i]
	}
	return line
}
''')
R('rj-padh',F,'''		for i := len(pos); i < posHierarchy; i++ {
			pos = append(pos, defaultPOSFeature)
		}
''','''		for len(pos) < posHierarchy {
			pos = append(pos, defaultPOSFeature)
		}
''')
R('rj-psidx',F,'	ps := make([]filter.POS, 0, len(t))\n','	ps := []filter.POS{}\n')
R('rj-new',F,'	return &Filter{\n','	f := &Filter{\n',F,'		stopWords: wo,\n	}, nil\n','		stopWords: wo,\n	}\n	return f, nil\n')
R('rj-set',F,'	return ret, err\n}\n\n//go:embed asset/stop_tags','	return ret, nil\n}\n\n//go:embed asset/stop_tags')
R('rj-optrange',F,'	for _, opt := range opts {\n		opt(ret)','	for i := range opts {\n		opts[i](ret)')
R('rj-tags',F,'		pos := strings.Split(v, "-")\n','		pos := tagLevels(v)\n',F,'''		for i := len(pos); i < posHierarchy; i++ {
			pos = append(pos, defaultPOSFeature)
		}
''','',F,None,'''
func tagLevels(v string) filter.POS {
	pos := strings.Split(v, "-")
	for i := len(pos); i < posHierarchy; i++ {
		pos = append(pos, defaultPOSFeature)
	}
	return pos
}
''')
