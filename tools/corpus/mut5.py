# ---- C28
T='tokenizer/token.go'
L='tokenizer/lattice/lattice.go'
FP='filter/pos.go'
SS='filter/sentence_splitter.go'
M('p-feat-neg','C28 C09',T,'	if i < 0 {\n		return "", false','	if i < -1 {\n		return "", false')
M('p-feat-len','C28 C09',T,'		if i >= len(c) {','		if i > len(c) {')
M('p-feat-id','C28',T,'		if len(t.dict.Contents) <= t.ID {\n			return "", false\n		}\n		c := t.dict.Contents[t.ID]','		c := t.dict.Contents[t.ID]')
M('p-feat-class','C28',T,'		return features\n	case UNKNOWN:\n		features := make([]string, len(t.dict','		return features\n	case UNKNOWN, DUMMY:\n		features := make([]string, len(t.dict')
M('p-pos-end','C28',T,'start >= end || end > len(feature)','start >= end || start >= len(feature)')
M('p-pos-neg','C28',T,'start >= end || end > len(feature)','end > len(feature)')
M('p-dot-pos','C28',L,'start >= end || end > len(feature)','start >= end')
M('p-back-zero','C28',L,'	if size == 0 {\n		return\n	}\n','')
M('p-ext','C28',L,'stack[runeLen-1-j]','stack[runeLen-j]')
M('p-ext-len','C28',L,'runeLen := utf8.RuneCountInString(p.Surface)','runeLen := len(p.Surface)')
M('p-build','C28',L,'	if cap(la.list) < rc+2 {','	if cap(la.list) < rc {')
M('p-build-make','C28',L,'make([][]*Node, 0, rc+2)','make([][]*Node, 0, rc+1)')
M('p-nil-user','C28',L,'		if la.udic != nil {','		if la.udic != nil || rc > 4096 {')
M('p-drop-nil','C28 C12',FP,'	if tokens == nil {\n		return\n	}\n','')
M('p-tail','C28',FP,'	*tokens = (*tokens)[:tail]','	*tokens = (*tokens)[:tail+1]')
M('p-config','C28','filter/ja/loader.go','i > 0','i != 0')
M('p-main','C28','kagome.go','len(os.Args) >= 2','len(os.Args) >= 1')
M('p-dot-empty','C28',L,'	if len(la.Output) > 0 {\n		// Output','	if la.Input == "" || len(la.Output) > 0 {\n		// Output')
M('p-extra','C28',T,'	if t.Class != USER {\n		return nil\n	}','	if t.Class == DUMMY {\n		return nil\n	}')
M("p-panic","C28","filter/pos.go","	if tokens == nil {\n		return\n	}\n	tail := 0","	if tokens == nil {\n		return\n	}\n	if len(f.filter.String()) == 7 {\n		panic(\"bad filter\")\n	}\n	tail := 0")
M('p-version','C28','kagome.go','	if !ok {\n		return\n	}\n','	if !ok && version == "(devel)" {\n		return\n	}\n')
M('p-token-dict','C28',T,'	case UNKNOWN:\n		if len(t.dict.UnkDict.Contents) <= t.ID {','	case UNKNOWN, DUMMY:\n		if t.ID < 0 || len(t.dict.UnkDict.Contents) <= t.ID {')
M('p-fwd-prev','C28',L,'	for p := la.list[size-1][0]; p != nil; p = p.prev {\n		if m','	for p := la.list[size-1][0]; p != nil; p = p.prev {\n		if p.prev.Class == USER && p.Class == DUMMY && m == Normal {\n			la.Output = append(la.Output, p)\n			continue\n		}\n		if m')
M('p-conv-div','C28','tokenizer/lattice/lattice.go','	size := len(la.list)\n	if size == 0 {\n		return\n	}\n','	size := len(la.list)\n	if size == 0 {\n		return\n	}\n	if cap(la.Output)%len(la.Output) != 0 {\n		la.Output = la.Output[:0:0]\n	}\n')
