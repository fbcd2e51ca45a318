S='filter/sentence_splitter.go'
SP='''		if s.SkipWhiteSpace && unicode.IsSpace(r) {
			p += size
			switch {
			case head:
				start = p
			case s.isDelim(r):
				return p, s.sentence(data[start:p]), nil
			case s.DoubleLineFeedSplit && r == '\\n':
				if nn {
					return p, s.sentence(data[start:p]), nil
				}
				nn = true
			case nn:
				nn = false
			}
			continue
		}
'''
IN='''			r, size := utf8.DecodeRune(data[p:])
			if s.SkipWhiteSpace && unicode.IsSpace(r) {
				p += size
				if s.DoubleLineFeedSplit && r == '\\n' {
					if nn {
						return p, s.sentence(data[start:p]), nil
					}
					nn = true
				} else {
					nn = false
				}
			} else if s.isDelim(r) || s.isFollower(r) {
				p += size
				nn = false
			} else {
				break
			}
'''
TAIL='''		// split
		nn = false
		for p < len(data) {
			if !atEOF && !utf8.FullRune(data[p:]) {
				return start, nil, nil // the rest of the rune has not been read yet.
			}
'''+IN+'''		}
		return p, s.sentence(data[start:p]), nil
'''
M('s-join','C15',S,'	return bytes.Join(bytes.Fields(b), nil)','	return bytes.TrimSpace(b)')
M('s-join2','C15',S,'	return bytes.Join(bytes.Fields(b), nil)','	return bytes.Join(bytes.Fields(b), []byte(" "))')
M('s-inplace','C15',S,'	return bytes.Join(bytes.Fields(b), nil)','	q := b[:0]\n	for _, f := range bytes.Fields(b) {\n		q = append(q, f...)\n	}\n	return q')
M('s-map','C15',S,'	return bytes.Join(bytes.Fields(b), nil)','	return bytes.Map(func(r rune) rune {\n		if unicode.IsSpace(r) {\n			return -1\n		}\n		return r\n	}, b)')
M('s-full','C15',S,'		if !atEOF && !utf8.FullRune(data[p:]) {\n			break // the','		if !atEOF && len(data)-p < 1 {\n			break // the')
M('s-full2','C15',S,'			if !atEOF && !utf8.FullRune(data[p:]) {\n				return start, nil, nil // the rest of the rune has not been read yet.\n			}\n','')
M('s-full3','C15',S,'return start, nil, nil // the','return p, s.sentence(data[start:p]), nil // the')
M('s-full4','C15',S,'return start, nil, nil // the','return 0, nil, nil // the')
M('s-start','C15',S,'				start = p\n','				start = p\n				nn = true\n')
M('s-start2','C15',S,'			case head:\n				start = p\n','			case head && r != \'\\u3000\':\n				start = p\n')
M('s-spdelim','C15',S,'			case s.isDelim(r):\n				return p, s.sentence(data[start:p]), nil\n','')
M('s-nnreset','C15',S,'			case nn:\n				nn = false\n','')
M('s-nnreset2','C15',S,'		} else {\n			nn = false\n		}\n		if !s.isDelim','		}\n		if !s.isDelim')
M('s-nnreset3','C15',S,'		// split\n		nn = false\n','		// split\n')
M('s-nnreset4','C15',S,'				p += size\n				nn = false\n			} else {\n				break','				p += size\n			} else {\n				break')
M('s-max','C15',S,'rcount < s.MaxRuneLen','rcount <= s.MaxRuneLen')
M('s-count','C15',S,'		rcount++\n','		rcount += size\n')
M('s-count2','C15',S,'		rcount++\n','		if size > 1 {\n			rcount++\n		}\n')
M('s-count3','C15',S,'			p += size\n			switch {\n','			p += size\n			rcount++\n			switch {\n')
M('s-foll','C15',S,'s.isDelim(r) || s.isFollower(r)','s.isFollower(r)')
M('s-foll1','C15',S,'				p += size\n				nn = false\n			} else {\n				break','				p += size\n				break\n			} else {\n				break')
M('s-dlf','C15',S,'		if s.DoubleLineFeedSplit && r == \'\\n\' {\n			if nn {\n				return p, s.sentence(data[start:p]), nil','		if r == \'\\n\' {\n			if nn && s.DoubleLineFeedSplit {\n				return p - 1, s.sentence(data[start:p]), nil')
M('s-eof','C15',S,'	return len(data), s.sentence(data[start:]), nil','	return len(data), data[start:], nil')
M('s-eof2','C15',S,'	if start == len(data) {','	if start == len(data) && start > 0 && rcount > 0 {')
M('s-eof3','C15',S,'	return len(data), s.sentence(data[start:]), nil','	return len(data), s.sentence(data), nil')
M('s-more','C15',S,'		return start, nil, nil\n	}\n	if start ==','		return 0, nil, nil\n	}\n	if start ==')
M('s-more2','C15',S,'		return start, nil, nil\n	}\n	if start ==','		return len(data), nil, nil\n	}\n	if start ==')
M('s-size','C15',S,'		head = false\n		p += size','		head = false\n		p += utf8.RuneLen(r)')
M('s-state','C15',S,'	for _, d := range s.Follower {','	for _, d := range s.Follower[:len(s.Follower)/2*2] {')
M('s-delim','C15',S,'		if r == d {\n			return true\n		}\n	}\n	return false\n}\n\nfunc (s SentenceSplitter) isFollower','		if r == d || r == \'\\u2029\' {\n			return true\n		}\n	}\n	return false\n}\n\nfunc (s SentenceSplitter) isFollower')
M('s-wrap','C15',S,'	return defaultSplitter.ScanSentences(data, atEOF)','	if len(data) > 1<<16 {\n		atEOF = true\n	}\n	return defaultSplitter.ScanSentences(data, atEOF)')
M('s-fw','C15',S,'				return p, s.sentence(data[start:p]), nil\n			case s.Double','				return p, s.sentence(data[start:p-size]), nil\n			case s.Double')
M('s-space','C15',S,'s.SkipWhiteSpace && unicode.IsSpace(r) {\n				p','s.SkipWhiteSpace && r == \' \' {\n				p')
R('rs-pred',S,'		if !s.isDelim(r) && rcount < s.MaxRuneLen {\n			continue\n		}\n','		if end := s.isDelim(r) || rcount >= s.MaxRuneLen; !end {\n			continue\n		}\n')
R('rs-isd',S,'	for _, d := range s.Delim {\n		if r == d {\n			return true\n		}\n	}\n	return false\n','	found := false\n	for i := 0; i < len(s.Delim); i++ {\n		if s.Delim[i] == r {\n			found = true\n			break\n		}\n	}\n	return found\n')
R('rs-isd2',S,'	for _, d := range s.Delim {\n		if r == d {\n			return true\n		}\n	}\n	return false\n','	return contains(s.Delim, r)\n',S,None,'\nfunc contains(rs []rune, r rune) bool {\n	for _, d := range rs {\n		if d == r {\n			return true\n		}\n	}\n	return false\n}\n')
R('rs-tail',S,TAIL,'''		end, more := s.trailing(data, p, atEOF)
		if more {
			return start, nil, nil
		}
		return end, s.sentence(data[start:end]), nil
''',S,None,'''
func (s SentenceSplitter) trailing(data []byte, p int, atEOF bool) (int, bool) {
	nn := false
	for p < len(data) {
		if !atEOF && !utf8.FullRune(data[p:]) {
			return p, true
		}
		r, size := utf8.DecodeRune(data[p:])
		if s.SkipWhiteSpace && unicode.IsSpace(r) {
			p += size
			if !s.DoubleLineFeedSplit || r != '\\n' {
				nn = false
				continue
			}
			if nn {
				return p, false
			}
			nn = true
			continue
		}
		if !s.isDelim(r) && !s.isFollower(r) {
			return p, false
		}
		p += size
		nn = false
	}
	return p, false
}
''')
R('rs-if',S,SP,'''		if s.SkipWhiteSpace && unicode.IsSpace(r) {
			p += size
			if head {
				start = p
				continue
			}
			if s.isDelim(r) {
				return p, s.sentence(data[start:p]), nil
			}
			if s.DoubleLineFeedSplit && r == '\\n' && nn {
				return p, s.sentence(data[start:p]), nil
			}
			nn = s.DoubleLineFeedSplit && r == '\\n'
			continue
		}
''')
R('rs-nn',S,'''		if s.DoubleLineFeedSplit && r == '\\n' {
			if nn {
				return p, s.sentence(data[start:p]), nil
			}
			nn = true
		} else {
			nn = false
		}
		if !s.isDelim''','''		lf := s.DoubleLineFeedSplit && r == '\\n'
		if lf && nn {
			return p, s.sentence(data[start:p]), nil
		}
		nn = lf
		if !s.isDelim''')
R('rs-int',S,'''		if s.DoubleLineFeedSplit && r == '\\n' {
			if nn {
				return p, s.sentence(data[start:p]), nil
			}
			nn = true
		} else {
			nn = false
		}
		if !s.isDelim''','''		if s.DoubleLineFeedSplit && r == '\\n' {
			lfs++
			if nn || lfs == 2 {
				return p, s.sentence(data[start:p]), nil
			}
			nn = true
		} else {
			nn = false
			lfs = 0
		}
		if !s.isDelim''',S,'	head = true\n','	head = true\n	lfs := 0\n',S,'			case nn:\n				nn = false\n','			default:\n				nn = false\n				lfs = 0\n			}\n			if nn {\n				lfs = 1\n')
R('rs-p',S,'	for p := 0; p < len(data); {','	p := 0\n	for p < len(data) {')
R('rs-eof',S,'	if start == len(data) {','	if head {')
R('rs-rest',S,'	if !atEOF {\n		// Request more data\n		return start, nil, nil\n	}\n	if start == len(data) {\n		// Nothing but white spaces is left.\n		return len(data), nil, nil\n	}\n','	switch {\n	case !atEOF:\n		return start, nil, nil\n	case start == len(data):\n		return start, nil, nil\n	}\n')
R('rs-strip',S,'''	if !s.SkipWhiteSpace {
		return b
	}
	return bytes.Join(bytes.Fields(b), nil)
''','''	if s.SkipWhiteSpace {
		b = bytes.Join(bytes.Fields(b), []byte{})
	}
	return b
''')
R('rs-strip2',S,'	return bytes.Join(bytes.Fields(b), nil)\n','	var out []byte\n	for _, f := range bytes.Fields(b) {\n		out = append(out, f...)\n	}\n	return out\n')
R('rs-ptr',S,'func (s SentenceSplitter) ScanSentences','func (s *SentenceSplitter) ScanSentences')
R('rs-closure',S,'	head = true\n','	head = true\n	cut := func(end int) (int, []byte, error) {\n		return end, s.sentence(data[start:end]), nil\n	}\n',S,'return p, s.sentence(data[start:p]), nil\n			case s.D','return cut(p)\n			case s.D')
R('rs-flag',S,'''				if s.DoubleLineFeedSplit && r == '\\n' {
					if nn {
						return p, s.sentence(data[start:p]), nil
					}
					nn = true
				} else {
					nn = false
				}
''','''				feed := s.DoubleLineFeedSplit && r == '\\n'
				if feed && nn {
					return p, s.sentence(data[start:p]), nil
				}
				nn = feed
''')
R('rs-break',S,'''			} else if s.isDelim(r) || s.isFollower(r) {
				p += size
				nn = false
			} else {
				break
			}
		}
''','''				continue
			}
			if !s.isDelim(r) && !s.isFollower(r) {
				break
			}
			p += size
			nn = false
		}
''')
R('rs-left',S,'rcount int\n','rcount int\n',S,'	head = true\n','	head = true\n	left := s.MaxRuneLen\n',S,'		rcount++\n','		left--\n',S,'rcount < s.MaxRuneLen','left > 0',S,'		start, rcount int','		start int')
R('rs-mode',S,'head, nn      bool','begun, nn     bool',S,'	head = true\n','',S,'case head:','case !begun:',S,'head = false','begun = true')
R('rs-space',S,'''func (s SentenceSplitter) isFollower''','''func (s SentenceSplitter) skips(r rune) bool {
	return s.SkipWhiteSpace && unicode.IsSpace(r)
}

func (s SentenceSplitter) isFollower''',S,'		if s.SkipWhiteSpace && unicode.IsSpace(r) {','		if s.skips(r) {',S,'			if s.SkipWhiteSpace && unicode.IsSpace(r) {','			if s.skips(r) {')
