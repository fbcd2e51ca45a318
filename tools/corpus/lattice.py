L='tokenizer/lattice/lattice.go'
# ---- Build
M('b-user-noskip','C10',L,'if anyMatches {\n			continue\n		}','if anyMatches && la.udic == nil {\n			continue\n		}')
M('b-invoke','C10',L,'if !anyMatches || la.dic.InvokeList[int(class)]','if !anyMatches || la.dic.GroupList[int(class)]')
M('b-dup','C10',L,'x < int(dup)+1','x < int(dup)')
M('b-dup2','C10',L,'x < int(dup)+1','x <= int(dup)+1')
M('b-max','C10',L,'maximumUnknownWordLength = 1024','maximumUnknownWordLength = 1025')
M('b-max2','C10',L,'unkWordLen >= maximumUnknownWordLength','unkWordLen > maximumUnknownWordLength')
M('b-max3','C10',L,'unkWordLen := 1','unkWordLen := 0')
M('b-class','C10',L,'la.dic.CharacterCategory(c) != class','la.dic.CharacterCategory(c) == class')
M('b-class2','C10',L,'c, w = utf8.DecodeRuneInString(inp[i:])','c, w = utf8.DecodeRuneInString(inp[endPos:])\n					c = ch')
M('b-nogroup','C10',L,'if la.dic.GroupList[int(class)] {','if la.dic.GroupList[int(class)] || la.dic.InvokeList[int(class)] {')
M('b-unkid','C10',L,'id := la.dic.UnkDict.Index[int32(class)]','id := la.dic.UnkDict.Index[int32(class)] + 1')
M('b-start','C02',L,'n.Start = start','n.Start = position')
M('b-pos','C02',L,'n.Position = position','n.Position = pos')
M('b-slot','C01',L,'p := pos + utf8.RuneCountInString(surface)','p := pos + len(surface)')
M('b-cost','C07',L,'	n.Cost = 0\n','')
M('b-prev','C07',L,'	n.prev = nil\n','')
M('b-surface','C07',L,'	n.Surface = surface\n','	if surface != "" {\n		n.Surface = surface\n	}\n')
M('b-weight','C03',L,'n.Left, n.Right, n.Weight = int32(m.LeftID), int32(m.RightID), int32(m.Weight)','n.Left, n.Right, n.Weight = int32(m.RightID), int32(m.LeftID), int32(m.Weight)')
M('b-weight2','C03',L,'	case UNKNOWN:\n		m = la.dic.UnkDict.Morphs[id]','	case UNKNOWN:\n		m = la.dic.Morphs[id]')
M('b-userw','C03',L,'	case USER:\n		// use default cost\n	}','	case USER:\n		m.Weight = -100\n	}')
M('b-eos','C02',L,'la.addNode(rc+1, BosEosID, len(inp), rc','la.addNode(rc+1, BosEosID, rc, rc')
M('b-eos2','C01',L,'la.addNode(rc+1, BosEosID, len(inp), rc','la.addNode(rc+1, BosEosID, len(inp), rc-1')
M('b-input','C02',L,'	la.Input = inp\n','')
M('b-known','C10',L,'la.addNode(runePos, id, pos, runePos, KNOWN, inp[pos:pos+l])','if l < 64 {\n				la.addNode(runePos, id, pos, runePos, KNOWN, inp[pos:pos+l])\n			}')
M('b-known2','C10',L,'// (2) KNOWN DIC\n		la.dic.Index.CommonPrefixSearchCallback(inp[pos:], func','// (2) KNOWN DIC\n		la.dic.Index.CommonPrefixSearchCallback(inp[pos:pos+(len(inp)-pos+1)/2], func')
M('b-knownskip','C10 C01',L,'	for pos, ch := range inp {\n		runePos++\n','	for pos, ch := range inp {\n		runePos++\n		if len(la.list[runePos]) == 0 {\n			continue\n		}\n')
M('b-trunc','C10',L,'if pos < prev {','if pos < prev && unkWordLen > 2 {')
M('b-trunc2','C10',L,'	for x := 0; x < int(dup)+1; x++ {\n				if pos < prev {','	for x := 0; x < int(dup)+1; x++ {\n				if pos < prev && x == 0 {')
M('b-gridnew','C07',L,'if cap(la.list) < rc+2 {','if cap(la.list) < rc+1 {')
M('b-udicindex','C10',L,'la.udic.Index.CommonPrefixSearchCallback(inp[pos:], ','la.dic.Index.CommonPrefixSearchCallback(inp[pos:], ')
# ---- Forward
M('f-cost','C03',L,'int64(c) + int64(target.Weight) + int64(n.Cost)','int64(c) + int64(n.Weight) + int64(n.Cost)')
M('f-conn','C03',L,'la.dic.Connection.At(int(n.Right), int(target.Left))','la.dic.Connection.At(int(n.Left), int(target.Right))')
M('f-user','C03',L,'				if n.Class != USER && target.Class != USER {','				if n.Class != USER || target.Class != USER {')
M('f-user2','C03',L,'				if n.Class != USER && target.Class != USER {','				if target.Class != USER {')
M('f-le','C03',L,'int32(totalCost) < la.list[i][index].Cost','int32(totalCost) > la.list[i][index].Cost')
M('f-pen','C04',L,'int64(additionalCost(n))','int64(additionalCost(target))')
M('f-mode','C04',L,'if m != Normal {','if m == Search {')
M('f-kanji','C04',L,'unicode.Ideographic','unicode.Han')
M('f-kl','C04',L,'searchModeKanjiLength    = 2','searchModeKanjiLength    = 3')
M('f-op','C04',L,'searchModeOtherPenalty   = 1700','searchModeOtherPenalty   = 1750')
M('f-bytes','C04',L,'l := utf8.RuneCountInString(n.Surface)\n	if l >','l := len(n.Surface)\n	if l >')
M('f-empty','C04',L,'return s != ""','return true',L,'l > searchModeKanjiLength &&','l >= 0 &&')
M('f-sat','C03',L,'if totalCost > maximumCost {\n					totalCost = maximumCost\n				} else if','if')
M('f-reach','C01',L,'				if n.prev == nil && target.Start > 0 {\n					continue // not reachable from BOS.\n				}\n','')
M('f-noreset','C07',L,'			la.list[i][index].prev = nil\n			for','			for')
M('f-from2','C01',L,'for i, size := 1, len(la.list); i < size; i++ {\n		currentList','for i, size := 1, len(la.list)-1; i < size; i++ {\n		currentList')
M('f-from3','C01',L,'for i, size := 1, len(la.list); i < size; i++ {\n		currentList','for i, size := 2, len(la.list); i < size; i++ {\n		currentList')
M('f-predbreak','C03',L,'					la.list[i][index].prev = la.list[target.Start][j]\n','					la.list[i][index].prev = la.list[target.Start][j]\n					if totalCost < 0 {\n						break\n					}\n')
M('f-predk','C03',L,'la.list[i][index].prev = la.list[target.Start][j]','la.list[i][index].prev = la.list[target.Start][j/1024*1024+j%1024]\n					if j > 100 {\n						la.list[i][index].prev = la.list[target.Start][0]\n					}')
# ---- Backward
M('k-order','C11 C02',L,'stack[runeLen-1-j]','stack[j]')
M('k-start','C11 C02',L,'Start:    p.Start + i','Start:    p.Start + k')
M('k-pos','C11 C02',L,'Position: p.Position + k','Position: p.Position + i')
M('k-class','C11',L,'Class:    DUMMY,\n				Surface','Class:    UNKNOWN,\n				Surface')
M('k-mode','C11 C04',L,'if m != Extended || p.Class != UNKNOWN','if m == Normal || p.Class != UNKNOWN')
M('k-known','C11 C04',L,'if m != Extended || p.Class != UNKNOWN','if m != Extended || p.Class == KNOWN')
M('k-empty','C11 C02',L,'			la.Output = append(la.Output, p)\n			continue','			if p.Surface != " " {\n				la.Output = append(la.Output, p)\n			}\n			continue')
M('k-last','C01',L,'la.list[size-1][0]; p != nil','la.list[size-1][0]; p.prev != nil')
# ---- refactorings
R('r-fwd-target',L,'la.list[i][index].Cost = maximumCost\n			la.list[i][index].prev = nil','target.Cost = maximumCost\n			target.prev = nil')
R('r-fwd-all',L,'''			la.list[i][index].Cost = maximumCost
			la.list[i][index].prev = nil
			for j, n := range la.list[target.Start] {''','''			target.Cost = maximumCost
			target.prev = nil
			for _, n := range la.list[target.Start] {''',L,'''				if la.list[i][index].prev == nil || int32(totalCost) < la.list[i][index].Cost {
					la.list[i][index].Cost = int32(totalCost)
					la.list[i][index].prev = la.list[target.Start][j]
				}''','''				if target.prev == nil || int32(totalCost) < target.Cost {
					target.Cost = int32(totalCost)
					target.prev = n
				}''',L,'for index, target := range currentList','for _, target := range currentList')
R('r-fwd-best',L,'''			la.list[i][index].Cost = maximumCost
			la.list[i][index].prev = nil
			for j, n := range la.list[target.Start] {''','''			best := int32(maximumCost)
			var bestPrev *Node
			for _, n := range la.list[target.Start] {''',L,'''				if la.list[i][index].prev == nil || int32(totalCost) < la.list[i][index].Cost {
					la.list[i][index].Cost = int32(totalCost)
					la.list[i][index].prev = la.list[target.Start][j]
				}
''','''				if bestPrev == nil || int32(totalCost) < best {
					best = int32(totalCost)
					bestPrev = n
				}
''',L,'''			}
		}
	}
}

// Backward''','''			}
			target.Cost, target.prev = best, bestPrev
		}
	}
}

// Backward''',L,'for index, target := range currentList','for _, target := range currentList')
R('r-fwd-helper',L,'''				var c int16
				if n.Class != USER && target.Class != USER {
					c = la.dic.Connection.At(int(n.Right), int(target.Left))
				}
				totalCost := int64(c) + int64(target.Weight) + int64(n.Cost)
				if m != Normal {
					totalCost += int64(additionalCost(n))
				}
				if totalCost > maximumCost {
					totalCost = maximumCost
				} else if totalCost < minimumCost {
					totalCost = minimumCost
				}
''','''				totalCost := la.total(n, target, m)
''',L,None,'''
func (la *Lattice) total(from, to *Node, m TokenizeMode) int64 {
	sum := int64(from.Cost) + int64(to.Weight)
	if from.Class != USER && to.Class != USER {
		sum += int64(la.dic.Connection.At(int(from.Right), int(to.Left)))
	}
	if m != Normal {
		sum += int64(additionalCost(from))
	}
	switch {
	case sum > maximumCost:
		return maximumCost
	case sum < minimumCost:
		return minimumCost
	default:
		return sum
	}
}
''')
R('r-fwd-range',L,'''	for i, size := 1, len(la.list); i < size; i++ {
		currentList := la.list[i]
		for index, target := range currentList {''','''	for i := range la.list {
		if i == 0 {
			continue
		}
		currentList := la.list[i]
		for index := 0; index < len(currentList); index++ {
			target := currentList[index]''')
R('r-fwd-slice',L,'''	for i, size := 1, len(la.list); i < size; i++ {
		currentList := la.list[i]
		for index, target := range currentList {
			la.list[i][index]''','''	for i, currentList := range la.list[1:] {
		i++
		for index, target := range currentList {
			la.list[i][index]''')
R('r-fwd-invert',L,'''				if n.prev == nil && target.Start > 0 {
					continue // not reachable from BOS.
				}''','''				reachable := target.Start <= 0 || n.prev != nil
				if !reachable {
					continue // not reachable from BOS.
				}''')
R('r-addl',L,'''	if l > searchModeKanjiLength && kanjiOnly(n.Surface) {
		return (l - searchModeKanjiLength) * searchModeKanjiPenalty
	}
	if l > searchModeOtherLength {
		return (l - searchModeOtherLength) * searchModeOtherPenalty
	}
	return 0''','''	switch {
	case l > searchModeKanjiLength && kanjiOnly(n.Surface):
		return (l - searchModeKanjiLength) * searchModeKanjiPenalty
	case l > searchModeOtherLength:
		return (l - searchModeOtherLength) * searchModeOtherPenalty
	}
	return 0''')
R('r-kanji',L,'''	for _, r := range s {
		if !unicode.In(r, unicode.Ideographic) {
			return false
		}
	}
	return s != ""''','''	if s == "" {
		return false
	}
	for _, r := range s {
		if !unicode.Is(unicode.Ideographic, r) {
			return false
		}
	}
	return true''')
R('r-kanji2',L,'''	for _, r := range s {
		if !unicode.In(r, unicode.Ideographic) {
			return false
		}
	}
	return s != ""''','''	return s != "" && strings.IndexFunc(s, func(r rune) bool { return !unicode.Is(unicode.Ideographic, r) }) < 0''')
R('r-build-any',L,'''				if !anyMatches {
					anyMatches = true
				}
			})
		}''','''				anyMatches = true
			})
		}''')
R('r-build-helper',L,'''		if la.udic != nil {
			la.udic.Index.CommonPrefixSearchCallback(inp[pos:], func(id, l int) {
				la.addNode(runePos, id, pos, runePos, USER, inp[pos:pos+l])
				if !anyMatches {
					anyMatches = true
				}
			})
		}
		if anyMatches {
			continue
		}''','''		if la.addUser(inp, pos, runePos) {
			continue
		}''',L,None,'''
func (la *Lattice) addUser(inp string, pos, runePos int) bool {
	if la.udic == nil {
		return false
	}
	found := false
	la.udic.Index.CommonPrefixSearchCallback(inp[pos:], func(id, l int) {
		la.addNode(runePos, id, pos, runePos, USER, inp[pos:pos+l])
		found = true
	})
	return found
}
''')
R('r-build-end',L,'''			endPos := pos + chLen
			unkWordLen := 1
			if la.dic.GroupList[int(class)] {
				for i, w, size := endPos, 0, len(inp); i < size; i += w {
					var c rune
					c, w = utf8.DecodeRuneInString(inp[i:])
					if la.dic.CharacterCategory(c) != class {
						break
					}
					endPos += w
					unkWordLen++
					if unkWordLen >= maximumUnknownWordLength {
						break
					}
				}
			}
''','''			endPos := pos + chLen
			if la.dic.GroupList[int(class)] {
				for n := 1; endPos < len(inp) && n < maximumUnknownWordLength; n++ {
					c, w := utf8.DecodeRuneInString(inp[endPos:])
					if la.dic.CharacterCategory(c) != class {
						break
					}
					endPos += w
				}
			}
''')
R('r-build-runhelper',L,'''			endPos := pos + chLen
			unkWordLen := 1
			if la.dic.GroupList[int(class)] {
				for i, w, size := endPos, 0, len(inp); i < size; i += w {
					var c rune
					c, w = utf8.DecodeRuneInString(inp[i:])
					if la.dic.CharacterCategory(c) != class {
						break
					}
					endPos += w
					unkWordLen++
					if unkWordLen >= maximumUnknownWordLength {
						break
					}
				}
			}
''','''			endPos := pos + chLen
			if la.dic.GroupList[int(class)] {
				endPos = la.runEnd(inp, endPos, ch)
			}
''',L,None,'''
func (la *Lattice) runEnd(inp string, end int, ch rune) int {
	class := la.dic.CharacterCategory(ch)
	n := 1
	for end < len(inp) {
		c, w := utf8.DecodeRuneInString(inp[end:])
		if la.dic.CharacterCategory(c) != class {
			return end
		}
		end += w
		if n++; n >= maximumUnknownWordLength {
			return end
		}
	}
	return end
}
''')
R('r-build-runrange',L,'''				for i, w, size := endPos, 0, len(inp); i < size; i += w {
					var c rune
					c, w = utf8.DecodeRuneInString(inp[i:])
					if la.dic.CharacterCategory(c) != class {
						break
					}
					endPos += w
					unkWordLen++
					if unkWordLen >= maximumUnknownWordLength {
						break
					}
				}''','''				rest := inp[endPos:]
				for len(rest) > 0 {
					c, w := utf8.DecodeRuneInString(rest)
					if la.dic.CharacterCategory(c) != class {
						break
					}
					rest = rest[w:]
					endPos += w
					unkWordLen++
					if unkWordLen >= maximumUnknownWordLength {
						break
					}
				}''')
R('r-build-dup',L,'for x := 0; x < int(dup)+1; x++ {','for x := 0; x <= int(dup); x++ {')
R('r-build-dup2',L,'''			for x := 0; x < int(dup)+1; x++ {
				if pos < prev {
					// add the string with one character truncated at the end.
					la.addNode(runePos, int(id)+x, pos, runePos, UNKNOWN, inp[pos:prev])
				}
				la.addNode(runePos, int(id)+x, pos, runePos, UNKNOWN, inp[pos:endPos])
			}''','''			for x, last := int(id), int(id)+int(dup); x <= last; x++ {
				if prev > pos {
					// add the string with one character truncated at the end.
					la.addNode(runePos, x, pos, runePos, UNKNOWN, inp[pos:prev])
				}
				la.addNode(runePos, x, pos, runePos, UNKNOWN, inp[pos:endPos])
			}''')
R('r-build-hoist',L,'''	for pos, ch := range inp {
		runePos++
		anyMatches := false
''','''	for pos, ch := range inp {
		runePos++
		rest := inp[pos:]
		anyMatches := false
''',L,'la.udic.Index.CommonPrefixSearchCallback(inp[pos:],','la.udic.Index.CommonPrefixSearchCallback(rest,',L,'la.addNode(runePos, id, pos, runePos, USER, inp[pos:pos+l])','la.addNode(runePos, id, pos, runePos, USER, rest[:l])')
R('r-addnode-lit',L,'''	n := nodePool.Get()
	n.ID = id
	n.Position = position
	n.Start = start
	n.Class = class
	n.Cost = 0
	n.Left, n.Right, n.Weight = int32(m.LeftID), int32(m.RightID), int32(m.Weight)
	n.Surface = surface
	n.prev = nil
''','''	n := nodePool.Get()
	*n = Node{
		ID: id, Position: position, Start: start, Class: class,
		Left: int32(m.LeftID), Right: int32(m.RightID), Weight: int32(m.Weight),
		Surface: surface,
	}
''')
R('r-addnode-if',L,'''	switch class {
	case DUMMY:
		// use default cost
	case KNOWN:
		m = la.dic.Morphs[id]
	case UNKNOWN:
		m = la.dic.UnkDict.Morphs[id]
	case USER:
		// use default cost
	}''','''	if class == KNOWN {
		m = la.dic.Morphs[id]
	} else if class == UNKNOWN {
		m = la.dic.UnkDict.Morphs[id]
	}''')
R('r-build-counter',L,'''	runePos := -1
	for pos, ch := range inp {
		runePos++
		anyMatches''','''	runePos := 0
	for pos, ch := range inp {
		if pos > 0 {
			runePos++
		}
		anyMatches''')
R('r-back-direct',L,'''		runeLen := utf8.RuneCountInString(p.Surface)
		stack := make([]*Node, 0, runeLen)
		i := 0
		for k := range p.Surface {
			_, w := utf8.DecodeRuneInString(p.Surface[k:])
			stack = append(stack, &Node{
				ID:       p.ID,
				Start:    p.Start + i,
				Class:    DUMMY,
				Surface:  p.Surface[k : k+w],
				Position: p.Position + k,
			})
			i++
		}
		for j, end := 0, len(stack); j < end; j++ {
			la.Output = append(la.Output, stack[runeLen-1-j])
		}''','''		stack := make([]*Node, 0, utf8.RuneCountInString(p.Surface))
		for k := range p.Surface {
			_, w := utf8.DecodeRuneInString(p.Surface[k:])
			n := &Node{ID: p.ID, Class: DUMMY, Start: p.Start + len(stack)}
			n.Surface = p.Surface[k : k+w]
			n.Position = p.Position + k
			stack = append(stack, n)
		}
		for j := len(stack) - 1; j >= 0; j-- {
			la.Output = append(la.Output, stack[j])
		}''')
R('r-back-helper',L,'''		runeLen := utf8.RuneCountInString(p.Surface)
		stack := make([]*Node, 0, runeLen)
		i := 0
		for k := range p.Surface {
			_, w := utf8.DecodeRuneInString(p.Surface[k:])
			stack = append(stack, &Node{
				ID:       p.ID,
				Start:    p.Start + i,
				Class:    DUMMY,
				Surface:  p.Surface[k : k+w],
				Position: p.Position + k,
			})
			i++
		}
		for j, end := 0, len(stack); j < end; j++ {
			la.Output = append(la.Output, stack[runeLen-1-j])
		}''','''		la.explode(p)''',L,None,'''
func (la *Lattice) explode(p *Node) {
	var stack []*Node
	for k := range p.Surface {
		_, w := utf8.DecodeRuneInString(p.Surface[k:])
		stack = append(stack, &Node{
			ID:       p.ID,
			Start:    p.Start + len(stack),
			Class:    DUMMY,
			Surface:  p.Surface[k : k+w],
			Position: p.Position + k,
		})
	}
	for len(stack) > 0 {
		la.Output = append(la.Output, stack[len(stack)-1])
		stack = stack[:len(stack)-1]
	}
}
''')
R('r-back-if',L,'''		if m != Extended || p.Class != UNKNOWN {
			la.Output = append(la.Output, p)
			continue
		}
''','''		if !(m == Extended && p.Class == UNKNOWN) {
			la.Output = append(la.Output, p)
			continue
		}
''')
R('r-back-while',L,'''	for p := la.list[size-1][0]; p != nil; p = p.prev {
		if m''','''	eos := la.list[size-1][0]
	for p := eos; p != nil; p = p.prev {
		if m''')
