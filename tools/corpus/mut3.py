T='tokenizer/token.go'
K='tokenizer/tokenizer.go'
O='tokenizer/tokenizer_option.go'
L='tokenizer/lattice/lattice.go'
N='tokenizer/lattice/node.go'
FF='filter/feature.go'
FA='filter/filter.go'
FP='filter/pos.go'
FW='filter/word.go'
JF='filter/ja/filter.go'
# ---- C09
M('y-at-neg','C09',T,'	if i < 0 {\n		return "", false\n	}\n','')
M('y-at-le','C09',T,'		if i < len(pos) {\n			id','		if i <= len(pos)-1 && i < 4 {\n			id')
M('y-at-star','C09',T,'		return c[i], true\n	case UNKNOWN','		return c[i], c[i] != "*"\n	case UNKNOWN')
M('y-at-name','C09',T,'			if int(id) >= len(t.dict.POSTable.NameList) {','			if int(id) >= len(t.dict.POSTable.NameList)-1 {')
M('y-at-empty','C09',T,'		i -= len(pos)\n		if len(t.dict.Contents) <= t.ID {\n			return "", false\n		}\n','		i -= len(pos)\n		if len(t.dict.Contents) <= t.ID+1 {\n			return "", false\n		}\n')
M('y-at-user','C09',T,'		case 2:\n			return strings.Join(t.udict.Contents[t.ID].Yomi, "/"), true\n','		case 2:\n			if len(t.udict.Contents[t.ID].Yomi) == 0 {\n				return "", false\n			}\n			return strings.Join(t.udict.Contents[t.ID].Yomi, "/"), true\n')
M('y-at-dummy','C09',T,'	case UNKNOWN:\n		if len(t.dict.UnkDict.Contents) <= t.ID {','	case UNKNOWN, DUMMY:\n		if len(t.dict.UnkDict.Contents) <= t.ID {')
M('y-feat-skip','C09',T,'			features = append(features, t.dict.POSTable.NameList[id])\n','			if n := t.dict.POSTable.NameList[id]; n != "" {\n				features = append(features, n)\n			}\n')
M('y-feat-user','C09',T,'		return []string{pos, tokens, yomi}','		if yomi == "" {\n			return []string{pos, tokens}\n		}\n		return []string{pos, tokens, yomi}')
M('y-feat-cap','C09',T,'		features := make([]string, len(t.dict.UnkDict.Contents[t.ID]))','		features := make([]string, len(t.dict.UnkDict.Contents[0]))')
M('y-pos-start','C09',T,'			end = start + int(v)\n		}\n		feature := t.dict.UnkDict.Contents[t.ID]','			end = int(v)\n		}\n		feature := t.dict.UnkDict.Contents[t.ID]')
M('y-pos-trim','C09',T,'		if start >= end || end > len(feature) {\n			return nil\n		}\n		ret := make([]string, 0, end-start)','		if end > len(feature) {\n			end = len(feature)\n		}\n		if start >= end {\n			return nil\n		}\n		ret := make([]string, 0, end-start)')
M('y-pos-one','C09',T,'		for _, id := range t.dict.POSTable.POSs[t.ID] {\n			ret = append(ret, t.dict.POSTable.NameList[id])\n		}\n		return ret','		for _, id := range t.dict.POSTable.POSs[t.ID] {\n			if t.dict.POSTable.NameList[id] == "*" && len(ret) > 0 {\n				break\n			}\n			ret = append(ret, t.dict.POSTable.NameList[id])\n		}\n		return ret')
M('y-eq-min','C09',T,'	for i := 0; i < len(lhs); i++ {','	for i := 0; i+1 < len(lhs); i++ {')
M('y-eq-nil','C09',T,'	if len(lhs) != len(rhs) {\n		return false\n	}\n','	if len(lhs) != len(rhs) {\n		return false\n	}\n	if lhs == nil || rhs == nil {\n		return lhs == nil && rhs == nil\n	}\n')
M('y-eq-self','C09',T,'	return EqualFeatures(t.POS(), tt.POS())','	if t.ID == tt.ID && t.Class == tt.Class {\n		return true\n	}\n	return EqualFeatures(t.POS(), tt.POS())')
M('y-eq-pos','C09',T,'	return EqualFeatures(t.Features(), tt.Features())','	return t.EqualPOS(tt) && len(t.Features()) == len(tt.Features())')
M('y-equal','C09',T,'		t.Class == v.Class &&\n','')
M('y-equal2','C09',T,'	return t.ID == v.ID &&','	return (t.ID == v.ID || t.Class == UNKNOWN) &&')
M('y-pick-unk','C09',T,'	case UNKNOWN:\n		meta = t.dict.UnkDict.ContentsMeta\n	}\n	i, ok','	case UNKNOWN:\n		meta = t.dict.ContentsMeta\n	}\n	i, ok')
M('y-pick-user','C09',T,'	case KNOWN:\n		meta = t.dict.ContentsMeta\n','	case KNOWN, USER:\n		meta = t.dict.ContentsMeta\n')
M('y-pick-star','C09',T,'	return t.FeatureAt(int(i))\n','	v, ok := t.FeatureAt(int(i))\n	if v == "*" {\n		return "", false\n	}\n	return v, ok\n')
M('y-pick-fall','C09',T,'	return t.pickupFromFeatures(dict.PronunciationIndex)','	if v, ok := t.pickupFromFeatures(dict.PronunciationIndex); ok {\n		return v, ok\n	}\n	return t.Reading()')
M('y-pick-i8','C09',T,'	return t.FeatureAt(int(i))\n','	return t.FeatureAt(int(uint8(i)))\n')
M('y-infl','C09',T,'	return t.pickupFromFeatures(dict.InflectionalForm)','	return t.pickupFromFeatures(dict.InflectionalType)')
# ---- C08
M('y-extra-yomi','C08',T,'	yomi := make([]string, len(t.udict.Contents[t.ID].Yomi))\n	copy(yomi, t.udict.Contents[t.ID].Yomi)\n','	yomi := t.udict.Contents[t.ID].Yomi\n')
M('y-extra-cap','C08',T,'	tokens := make([]string, len(t.udict.Contents[t.ID].Tokens))\n	copy(tokens, t.udict.Contents[t.ID].Tokens)\n','	tokens := t.udict.Contents[t.ID].Tokens\n	if len(tokens) > 1 {\n		tokens = append([]string(nil), tokens...)\n	}\n')
M('y-feat-nopos','C08',T,'		features := make([]string, 0, len(t.dict.POSTable.POSs[t.ID])+c)\n','		if len(t.dict.POSTable.POSs[t.ID]) == 0 && c > 0 {\n			return t.dict.Contents[t.ID]\n		}\n		features := make([]string, 0, len(t.dict.POSTable.POSs[t.ID])+c)\n')
M('y-feat-three','C08',T,'		ret := make([]string, 0, end-start)\n		for i := start; i < end; i++ {\n			ret = append(ret, feature[i])\n		}\n		return ret','		return feature[start:end:end]')
# ---- C23
M('y-td-end','C23',T,'		End:      t.End,\n','		End:      t.Start + len(t.Surface),\n')
M('y-td-nil','C23',T,'	if ret.POS == nil {','	if ret.POS == nil && t.Class != UNKNOWN {')
M('y-td-omit','C23',T,'`json:"pronunciation"`','`json:"pronunciation,omitempty"`')
M('y-td-swap','C23',T,'	ret.Reading, _ = t.Reading()\n	ret.Pronunciation, _ = t.Pronunciation()','	ret.Pronunciation, _ = t.Reading()\n	ret.Reading, _ = t.Pronunciation()')
M('y-td-base','C23',T,'	ret.BaseForm, _ = t.BaseForm()\n','	ret.BaseForm, _ = t.BaseForm()\n	if ret.BaseForm == "*" {\n		ret.BaseForm = t.Surface\n	}\n')
M('y-td-pos','C23',T,'		POS:      t.POS(),\n','		POS:      t.Features(),\n')
M('y-td-mode','C23',K,'		return "extend"','		return "extended"')
M('y-td-node','C23',N,'		return "UNKNOWN"','		return "UNK"')
M('y-td-undef','C23',T,'	ret := ""\n','	ret := "UNDEF"\n')
# ---- C24
M('y-new-partial','C24',K,'			return nil, err\n','			return t, err\n')
M('y-new-last','C24',K,'	for _, opt := range opts {\n','	for i, opt := range opts {\n		if i > 0 && opt == nil {\n			continue\n		}\n')
M('y-new-first','C24',O,'		t.userDict = d\n','		if t.userDict == nil {\n			t.userDict = d\n		}\n')
M('y-opt-omit','C24',O,'		t.omitBosEos = true\n','		t.omitBosEos = !t.omitBosEos\n')
M('y-opt-empty','C24',O,'		if d == nil {\n','		if d == nil || len(d.Contents) == 0 {\n')
M('y-new-copy','C24',K,'	t := &Tokenizer{dict: d}\n','	dd := *d\n	t := &Tokenizer{dict: &dd}\n')
# ---- C11
M('y-wak-len','C11',K,'		if v.Class != DUMMY && v.Surface != "" {','		if v.Class != DUMMY && len(v.Surface) > 1 {')
M('y-wak-skip','C11',K,'	for _, v := range ts {\n		if v.Class != DUMMY','	for _, v := range ts[1:] {\n		if v.Class != DUMMY')
M('y-tok-mode','C11 C05',K,'	return t.Analyze(input, Normal)\n}\n\n// Wakati','	return t.Analyze(input, 0)\n}\n\n// Wakati',K,'	m := lattice.Normal\n	switch mode {','	m := lattice.Search\n	switch mode {')
M('y-omit-g','C11',K,'			dict:     t.dict,\n			udict:    t.userDict,\n		}\n		if tok.ID == lattice.BosEosID {','			dict:     t.dict,\n		}\n		if tok.ID == lattice.BosEosID {')
M('y-omit-eos','C11',K,'		if t.omitBosEos && n.ID == BosEosID {\n			continue\n		}\n		tok := Token{\n			Index:    len(tokens),','		if t.omitBosEos && n.ID == BosEosID && i == 0 {\n			continue\n		}\n		tok := Token{\n			Index:    len(tokens),')
M('y-omit-dummy','C11',K,'		if t.omitBosEos && n.ID == BosEosID {','		if t.omitBosEos && n.Class == lattice.DUMMY {')
M('y-idx','C11',K,'			Index:    len(tokens),\n','			Index:    i,\n')
M('y-surf','C11 C02',K,'			if i == 0 {\n				tok.Surface = "BOS"','			if n.Start == 0 {\n				tok.Surface = "BOS"')
# ---- C12
M('y-keep-stop','C12',FA,'		if match(v) == drop {\n			continue\n		}\n','		if match(v) == drop {\n			if !drop && tail > 0 && len(*tokens) > 1024 {\n				break\n			}\n			continue\n		}\n')
M('y-keep-zero','C12',FA,'	*tokens = (*tokens)[:tail]','	if tail == 0 {\n		return\n	}\n	*tokens = (*tokens)[:tail]')
M('y-keep-idx','C12',FA,'			(*tokens)[tail] = v\n','			v.Index = tail\n			(*tokens)[tail] = v\n')
M('y-keep-same','C12',FA,'		if i != tail {','		if i > tail+1 {')
M('y-pos-surface','C12',FP,'		if f.Match(v.POS()) == drop {','		if f.Match(v.Features()) == drop {')
M('y-pos-empty','C12',FP,'		if f.Match(v.POS()) == drop {','		if p := v.POS(); len(p) > 0 && f.Match(p) == drop {')
M('y-word-cache','C12',FW,'	tail := 0\n	for i, v := range *tokens {\n','	tail, last, hit := 0, "", false\n	for i, v := range *tokens {\n',FW,'		if f.Match(v.Surface) == drop {','		if v.Surface != last {\n			last, hit = v.Surface, f.Match(v.Surface)\n		}\n		if hit == drop {')
M('y-word-nil','C12',FW,'	if tokens == nil {\n		return\n	}\n','	if tokens == nil || len(f.words) == 0 {\n		return\n	}\n')
M('y-keep-nilpos','C12',FP,'	if tokens == nil {\n		return\n	}\n','')
M('y-drop-keep','C12',FP,'	f.apply(tokens, false)','	f.apply(tokens, true)')
# ---- C13
M('y-f-any','C13',FF,'		if v.val != Any && v.val != fs[0] {','		if v.val != Any && v.val != fs[0] && fs[0] != Any {')
M('y-f-anyend','C13',FF,'		if v.to.isLeaf() || v.to.match(fs[1:]) {','		if v.to.isLeaf() || len(fs) > 1 && v.to.match(fs[1:]) || v.val == Any {')
M('y-f-first','C13',FF,'		if v.to.isLeaf() || v.to.match(fs[1:]) {\n			return true\n		}','		return v.to.isLeaf() || v.to.match(fs[1:])')
M('y-f-leaf','C13',FF,'	return n.fanout == nil\n','	return len(n.fanout) == 1\n')
M('y-f-clear','C13',FF,'				n.fanout = nil // clear week conditions.\n','')
M('y-f-break','C13',FF,'			if n.isLeaf() {\n				break // a stronger condition exists.\n			} else if tail {','			if tail {')
M('y-f-cut','C13',FF,'	n := &f.root\n	for i, v := range fs {','	n := &f.root\n	for len(fs) > 0 && fs[len(fs)-1] == "*" {\n		fs = fs[:len(fs)-1]\n	}\n	for i, v := range fs {')
M('y-f-has','C13',FF,'		if v.val == s {\n			return i\n','		if v.val == s || v.val == Any {\n			return i\n')
M('y-f-lastonly','C13',FF,'	for _, v := range fs {\n		ret.add(v)','	for _, v := range fs {\n		if len(v) == 0 {\n			break\n		}\n		ret.add(v)')
M('y-f-empty','C13',FF,'	if len(fs) == 0 {\n		return false\n	}','	if len(fs) == 0 {\n		return n.isLeaf()\n	}')
M('y-w-trim','C13',FW,'	_, ok := f.words[w]\n','	_, ok := f.words[strings.TrimSpace(w)]\n',FW,'import (\n','import (\n	"strings"\n\n')
M('y-w-cap','C13',FW,'	for _, v := range words {\n','	for i, v := range words {\n		if i > 65535 {\n			break\n		}\n')
M('y-p-short','C13',FP,'	return f.filter.Match(p)\n','	if len(p) > 4 {\n		p = p[:4]\n	}\n	return f.filter.Match(p)\n')
# ---- lattice, pooled
M('y-n-left','C03',L,'	n.Left, n.Right, n.Weight = int32(m.LeftID), int32(m.RightID), int32(m.Weight)\n','	n.Left, n.Right, n.Weight = int32(uint8(m.LeftID)), int32(m.RightID), int32(m.Weight)\n')
M('y-n-swap','C03',L,'	n.Left, n.Right, n.Weight = int32(m.LeftID), int32(m.RightID), int32(m.Weight)\n','	n.Left, n.Right, n.Weight = int32(m.RightID), int32(m.LeftID), int32(m.Weight)\n')
R('y-f-reset',L,'			la.list[i][index].Cost = maximumCost\n			la.list[i][index].prev = nil\n','			la.list[i][index].prev = nil\n')
M('y-f-int32','C03',L,'				totalCost := int64(c) + int64(target.Weight) + int64(n.Cost)','				totalCost := int64(int32(c) + target.Weight + n.Cost)')
M('y-b-inv','C10',L,'		if !anyMatches || la.dic.InvokeList[int(class)] {','		if !anyMatches || la.dic.InvokeList[int(class)] && pos > 0 {')
M('y-b-run','C10',L,'				for i, w, size := endPos, 0, len(inp); i < size; i += w {','				for i, w, size := endPos, 0, len(inp)-1; i < size; i += w {')
M('y-b-cat','C10',L,'					if la.dic.CharacterCategory(c) != class {','					if la.dic.CharacterCategory(c) != class || c == utf8.RuneError {')
M('y-b-trunc','C10',L,'				if pos < prev {','				if pos < prev && unkWordLen > 2 {')
M('y-b-udic2','C10',L,'		if anyMatches {\n			continue\n		}\n','		if anyMatches && pos > 0 {\n			continue\n		}\n')
M('y-a-cost','C04',L,'	if l > searchModeKanjiLength && kanjiOnly(n.Surface) {','	if l > searchModeKanjiLength && l <= searchModeOtherLength*10 && kanjiOnly(n.Surface) {')
M('y-a-han','C04',L,'unicode.In(r, unicode.Ideographic)','unicode.In(r, unicode.Ideographic, unicode.Han)')
M('y-a-target','C04',L,'					totalCost += int64(additionalCost(n))','					totalCost += int64(additionalCost(target))')
M('y-a-unk','C04',L,'				if m != Normal {\n','				if m != Normal && n.Class != USER {\n')
M('y-e-class','C04',L,'				Class:    DUMMY,\n','				Class:    p.Class,\n')

# ---- loops left early
M('y-l-opts','C24',K,'	for _, opt := range opts {\n','	for i, opt := range opts {\n		if i >= 8 {\n			break\n		}\n')
M('y-l-opts2','C24',K,'		if err := opt(t); err != nil {\n			return nil, err\n		}\n','		if err := opt(t); err != nil {\n			return nil, err\n		}\n		if t.omitBosEos && t.userDict != nil {\n			break\n		}\n')
M('y-l-jopts','C14',JF,'	for _, opt := range opts {\n','	for i, opt := range opts {\n		if i >= 3 {\n			break\n		}\n')
M('y-l-jopts2','C14',JF,'		opt(ret)\n','		opt(ret)\n		if ret.stopWords == nil {\n			break\n		}\n')
M('y-l-tags','C14',JF,'	for _, v := range t {\n		pos :=','	for _, v := range t {\n		if strings.HasPrefix(v, "-") {\n			break\n		}\n		pos :=')
M('y-l-lines','C14','filter/ja/loader.go','		if strings.HasPrefix(line, "#") {\n			continue\n		}\n','		if strings.HasPrefix(line, "#") {\n			continue\n		}\n		if strings.HasPrefix(line, "__END__") {\n			break\n		}\n')
M('y-l-yield','C14',JF,'		if f.stopTags.Match(v.POS()) {\n			continue\n		}\n','		if v.Surface == "EOS" && v.Class == tokenizer.DUMMY {\n			break\n		}\n		if f.stopTags.Match(v.POS()) {\n			continue\n		}\n')
M('y-l-chars','C10 C01',L,'		runePos++\n','		if ch == 0 {\n			break\n		}\n		runePos++\n')
M('y-l-chars2','C10 C01',L,'		if anyMatches {\n			continue\n		}\n','		if anyMatches {\n			if pos > 1<<20 {\n				break\n			}\n			continue\n		}\n')
M('y-l-fwd','C03',L,'		currentList := la.list[i]\n','		currentList := la.list[i]\n		if i > 1<<16 && i < size-1 {\n			break\n		}\n')
M('y-l-fwd2','C03',L,'		for index, target := range currentList {\n','		for index, target := range currentList {\n			if index > 255 {\n				break\n			}\n')
M('y-l-fwd3','C03',L,'				if n.prev == nil && target.Start > 0 {\n','				if j > 255 {\n					break\n				}\n				if n.prev == nil && target.Start > 0 {\n')
M('y-l-back','C01 C02 C11',L,'		if m != Extended || p.Class != UNKNOWN {\n','		if p.ID == BosEosID && p.Position > 0 && p.Start == 0 {\n			break\n		}\n		if m != Extended || p.Class != UNKNOWN {\n')
M('y-l-ana','C11 C02',K,'		if t.omitBosEos && n.ID == BosEosID {\n			continue\n		}\n','		if t.omitBosEos && n.ID == BosEosID {\n			if i > 0 {\n				break\n			}\n			continue\n		}\n		if n == nil {\n			break\n		}\n')
M('y-l-wak','C11',K,'		if v.Class != DUMMY && v.Surface != "" {','		if v.Surface == "\\x00" {\n			break\n		}\n		if v.Class != DUMMY && v.Surface != "" {')
M('y-l-free','C07',L,'	for i := range la.list {\n		for j := range la.list[i] {\n','	for i := range la.list {\n		if i > 1<<16 {\n			break\n		}\n		for j := range la.list[i] {\n')
M('y-l-free2','C07',L,'			nodePool.Put(la.list[i][j])\n','			if j > 1024 {\n				break\n			}\n			nodePool.Put(la.list[i][j])\n')

M('y-l-keep','C12',FA,'	for i, v := range *tokens {\n','	for i, v := range *tokens {\n		if v.ID == tokenizer.BosEosID && i > 0 {\n			break\n		}\n')
M('y-l-keep2','C12',FP,'	for i, v := range *tokens {\n','	for i, v := range *tokens {\n		if i >= 1<<20 {\n			break\n		}\n')
M('y-l-add','C13',FF,'	for i, v := range fs {\n		tail','	for i, v := range fs {\n		if i > 0 && v == "" {\n			break\n		}\n		tail')
M('y-l-add2','C13',FF,'	for i, v := range fs {\n		tail','	for i, v := range fs {\n		if i >= 64 {\n			break\n		}\n		tail')
M('y-l-match','C13',FF,'		if v.val != Any && v.val != fs[0] {\n			continue\n		}\n','		if v.val != Any && v.val != fs[0] {\n			if v.val == "" {\n				break\n			}\n			continue\n		}\n')
M('y-l-words','C13',FW,'		ret.words[v] = struct{}{}\n','		if v == "" {\n			break\n		}\n		ret.words[v] = struct{}{}\n')
M('y-l-eq','C09',T,'		if lhs[i] != rhs[i] {\n			return false\n		}\n','		if lhs[i] != rhs[i] {\n			return false\n		}\n		if lhs[i] == "*" {\n			break\n		}\n')
M('y-l-pos','C09',T,'		for _, id := range t.dict.POSTable.POSs[t.ID] {\n			ret = append','		for _, id := range t.dict.POSTable.POSs[t.ID] {\n			if len(ret) >= 6 {\n				break\n			}\n			ret = append')
M('y-l-kanji','C04',L,'		if !unicode.In(r, unicode.Ideographic) {\n			return false\n		}\n','		if r == 0x3005 {\n			break\n		}\n		if !unicode.In(r, unicode.Ideographic) {\n			return false\n		}\n')
M('y-l-bests','C21',L,'			bests[p] = struct{}{}\n','			bests[p] = struct{}{}\n			if len(bests) > 4096 {\n				break\n			}\n')
M('y-l-edges','C21',L,'				edges = append(edges, edge{from, to})\n','				edges = append(edges, edge{from, to})\n				if len(edges) > 100000 {\n					break\n				}\n')
M('y-l-drawn','C21',L,'		for _, n := range list {\n','		for k, n := range list {\n			if k > 100 {\n				break\n			}\n')
M('y-l-delim','C15','filter/sentence_splitter.go','		if r == d {\n			return true\n		}\n	}\n	return false\n}\n\nfunc (s SentenceSplitter) isFollower','		if r == d {\n			return true\n		}\n		if d == 0 {\n			break\n		}\n	}\n	return false\n}\n\nfunc (s SentenceSplitter) isFollower')
CT='cmd/tokenize/cmd.go'
M('y-l-tok','C18',CT,'		if v.ID == tokenizer.BosEosID {\n			continue\n		}\n		w.WriteString(v.Surface)','		if v.ID == tokenizer.BosEosID {\n			if v.Index > 0 && v.Surface == "EOS" && v.Start > 10000 {\n				return\n			}\n			continue\n		}\n		w.WriteString(v.Surface)')
M('y-l-tok2','C18',CT,'		w.WriteString(v.Surface)\n','		if w.Buffered() > 1<<12 {\n			break\n		}\n		w.WriteString(v.Surface)\n')
M('y-l-json','C18',CT,'		array = append(array, obj)\n','		array = append(array, obj)\n		if len(array) >= 1000 {\n			break\n		}\n')
M("y-l-scan","C18 C16",CT,'	for s.Scan() {\n		tokens','	for s.Scan() {\n		if s.Text() == "EOS" {\n			break\n		}\n		tokens')
M('y-l-sent','C18','cmd/sentence/cmd.go','	for scanner.Scan() {\n','	for scanner.Scan() {\n		if len(scanner.Bytes()) == 1 && scanner.Bytes()[0] == 4 {\n			break\n		}\n')
M('y-l-api','C19','cmd/server/api.go','		if v.ID == tokenizer.BosEosID {\n			continue\n		}\n','		if v.ID == tokenizer.BosEosID {\n			if len(tokens) > 100 && v.Index > 0 {\n				break\n			}\n			continue\n		}\n		if v.Index > 10000 {\n			break\n		}\n')
M('y-l-demo','C20','cmd/server/demo.go','		ret = append(ret, newRecord(t))\n','		ret = append(ret, newRecord(t))\n		if len(ret) > 500 {\n			break\n		}\n')
M('y-l-dup','C10',L,'				la.addNode(runePos, int(id)+x, pos, runePos, UNKNOWN, inp[pos:endPos])\n','				la.addNode(runePos, int(id)+x, pos, runePos, UNKNOWN, inp[pos:endPos])\n				if x >= 2 {\n					break\n				}\n')
M('y-l-stack','C04 C01',L,'			i++\n		}\n		for j','			i++\n			if i > 1000 {\n				break\n			}\n		}\n		for j')
M('y-l-stack2','C04 C01',L,'			la.Output = append(la.Output, stack[runeLen-1-j])\n','			if stack[runeLen-1-j].Surface == "\\x00" {\n				break\n			}\n			la.Output = append(la.Output, stack[runeLen-1-j])\n')
M('y-l-run','C10',L,'					unkWordLen++\n','					unkWordLen++\n					if c == 0x3000 {\n						break\n					}\n')
M('y-l-dot3','C21',L,'	for _, e := range edges {\n','	for k, e := range edges {\n		if k > 0 && e == edges[k-1] {\n			break\n		}\n')
M('y-l-lat','C18','cmd/lattice/cmd.go','		for i, size := 1, len(tokens); i < size; i++ {\n','		for i, size := 1, len(tokens); i < size; i++ {\n			if i > 1000 {\n				break\n			}\n')
M('y-l-feat','C09',T,'			features[i] = t.dict.UnkDict.Contents[t.ID][i]\n','			features[i] = t.dict.UnkDict.Contents[t.ID][i]\n			if i >= 8 {\n				break\n			}\n')
