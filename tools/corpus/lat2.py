L='tokenizer/lattice/lattice.go';N='tokenizer/lattice/node.go'
R('w-fwd-relax',L,'''		for index, target := range currentList {
			la.list[i][index].Cost = maximumCost
			la.list[i][index].prev = nil
			for j, n := range la.list[target.Start] {
				if n.prev == nil && target.Start > 0 {
					continue // not reachable from BOS.
				}
				var c int16
				if n.Class != USER && target.Class != USER {
					c = la.dic.Connection.At(int(n.Right), int(target.Left))
				}
				totalCost := int64(c) + int64(target.Weight) + int64(n.Cost)
				if m != Normal {
					totalCost += int64(additionalCost(n))
				}
				if totalCost > maximumCost {
					totalCost = maximumCost
				} else if totalCost < minimumCost {
					totalCost = minimumCost
				}
				if la.list[i][index].prev == nil || int32(totalCost) < la.list[i][index].Cost {
					la.list[i][index].Cost = int32(totalCost)
					la.list[i][index].prev = la.list[target.Start][j]
				}
			}
		}
''','''		for _, target := range currentList {
			la.relax(target, m)
		}
''',L,None,'''
// relax finds the cheapest path which reaches the target.
func (la *Lattice) relax(target *Node, m TokenizeMode) {
	target.Cost, target.prev = maximumCost, nil
	for _, n := range la.list[target.Start] {
		if !(n.prev != nil || target.Start <= 0) {
			continue
		}
		cost := la.pathCost(n, target, m)
		if target.prev != nil && cost >= target.Cost {
			continue
		}
		target.Cost, target.prev = cost, n
	}
}

func (la *Lattice) pathCost(from, to *Node, m TokenizeMode) int32 {
	total := int64(to.Weight) + int64(from.Cost)
	if from.Class != USER && to.Class != USER {
		total += int64(la.dic.Connection.At(int(from.Right), int(to.Left)))
	}
	if m != Normal {
		total += int64(additionalCost(from))
	}
	switch {
	case total > maximumCost:
		return maximumCost
	case total < minimumCost:
		return minimumCost
	default:
		return int32(total)
	}
}
''')
R('w-fwd-clamp',L,'''				if totalCost > maximumCost {
					totalCost = maximumCost
				} else if totalCost < minimumCost {
					totalCost = minimumCost
				}
				if la.list[i][index].prev == nil || int32(totalCost) < la.list[i][index].Cost {
					la.list[i][index].Cost = int32(totalCost)
''','''				cost := clampCost(totalCost)
				if la.list[i][index].prev == nil || cost < la.list[i][index].Cost {
					la.list[i][index].Cost = cost
''',L,None,'''
func clampCost(v int64) int32 {
	if v < minimumCost {
		return minimumCost
	}
	if v > maximumCost {
		return maximumCost
	}
	return int32(v)
}
''')
R('w-fwd-skip',L,'''				if n.prev == nil && target.Start > 0 {
					continue // not reachable from BOS.
				}
''','''				if !reachable(n, target) {
					continue
				}
''',L,None,'''
// reachable reports whether the path from BOS reaches the target through the node.
func reachable(n, target *Node) bool {
	if target.Start == 0 {
		return true
	}
	return n.prev != nil
}
''') if False else None
R('w-fwd-conncost',L,'''				var c int16
				if n.Class != USER && target.Class != USER {
					c = la.dic.Connection.At(int(n.Right), int(target.Left))
				}
				totalCost := int64(c) + int64(target.Weight) + int64(n.Cost)
''','''				totalCost := int64(la.connectionCost(n, target)) + int64(target.Weight) + int64(n.Cost)
''',L,'''		var c int16
		if e.from.Class != USER && e.to.Class != USER {
			c = la.dic.Connection.At(int(e.from.Right), int(e.to.Left))
		}
''','''		c := la.connectionCost(e.from, e.to)
''',L,None,'''
// connectionCost returns the connection cost between the nodes. User dictionary entries have no cost.
func (la *Lattice) connectionCost(left, right *Node) int16 {
	if left.Class == USER || right.Class == USER {
		return 0
	}
	return la.dic.Connection.At(int(left.Right), int(right.Left))
}
''')
R('w-fwd-locals',L,'''			la.list[i][index].Cost = maximumCost
			la.list[i][index].prev = nil
			for j, n := range la.list[target.Start] {
				if n.prev == nil && target.Start > 0 {
					continue // not reachable from BOS.
				}
''','''			node := la.list[i][index]
			node.prev, node.Cost = nil, maximumCost
			prevs := la.list[target.Start]
			for j := 0; j < len(prevs); j++ {
				n := prevs[j]
				if target.Start > 0 && n.prev == nil {
					continue // not reachable from BOS.
				}
''',L,'''				if la.list[i][index].prev == nil || int32(totalCost) < la.list[i][index].Cost {
					la.list[i][index].Cost = int32(totalCost)
					la.list[i][index].prev = la.list[target.Start][j]
				}
''','''				if cost := int32(totalCost); node.prev == nil || cost < node.Cost {
					node.prev, node.Cost = prevs[j], cost
				}
''')
R('w-fwd-firsttest',L,'for j, n := range la.list[target.Start]','for _, n := range la.list[target.Start]',L,'''				if la.list[i][index].prev == nil || int32(totalCost) < la.list[i][index].Cost {
					la.list[i][index].Cost = int32(totalCost)
					la.list[i][index].prev = la.list[target.Start][j]
				}
''','''				if la.list[i][index].prev != nil {
					if int32(totalCost) >= la.list[i][index].Cost {
						continue
					}
				}
				la.list[i][index].Cost = int32(totalCost)
				la.list[i][index].prev = n
''')
R('w-fwd-empty',L,'''	for i, size := 1, len(la.list); i < size; i++ {
		currentList := la.list[i]
		for index, target''','''	if len(la.list) == 0 {
		return
	}
	for i := range la.list[1:] {
		i++
		currentList := la.list[i]
		for index, target''')
R('w-fwd-costvar',L,'''				totalCost := int64(c) + int64(target.Weight) + int64(n.Cost)
				if m != Normal {
					totalCost += int64(additionalCost(n))
				}
''','''				var penalty int
				if m != Normal {
					penalty = additionalCost(n)
				}
				totalCost := int64(n.Cost) + int64(c) + int64(target.Weight) + int64(penalty)
''')
R('w-fwd-nextlist',L,'''	for i, size := 1, len(la.list); i < size; i++ {
		currentList := la.list[i]
		for index, target := range currentList {
''','''	for i, currentList := range la.list {
		if i == 0 {
			continue
		}
		for index, target := range currentList {
''')
R('w-add-switch2',L,'''	var m dict.Morph
	switch class {
	case DUMMY:
		// use default cost
	case KNOWN:
		m = la.dic.Morphs[id]
	case UNKNOWN:
		m = la.dic.UnkDict.Morphs[id]
	case USER:
		// use default cost
	}
''','''	m := la.morph(class, id)
''',L,None,'''
func (la *Lattice) morph(class NodeClass, id int) dict.Morph {
	if class == KNOWN {
		return la.dic.Morphs[id]
	}
	if class == UNKNOWN {
		return la.dic.UnkDict.Morphs[id]
	}
	return dict.Morph{} // use default cost
}
''')
R('w-add-newnode',L,'''	n := nodePool.Get()
	n.ID = id
	n.Position = position
	n.Start = start
	n.Class = class
	n.Cost = 0
	n.Left, n.Right, n.Weight = int32(m.LeftID), int32(m.RightID), int32(m.Weight)
	n.Surface = surface
	n.prev = nil
	p := pos''','''	n := newNode(id, position, start, class, surface)
	n.setMorph(m)
	p := pos''',N,None,'''
func newNode(id, position, start int, class NodeClass, surface string) *Node {
	n := nodePool.Get()
	n.prev = nil
	n.Cost = 0
	n.ID, n.Class, n.Surface = id, class, surface
	n.Position, n.Start = position, start
	return n
}

func (n *Node) setMorph(m dict.Morph) {
	n.Left = int32(m.LeftID)
	n.Right = int32(m.RightID)
	n.Weight = int32(m.Weight)
}
''',N,'''package lattice

import (''','''package lattice

import (
	"github.com/ikawaha/kagome-dict/dict"''')
R('w-add-end',L,'''	p := pos + utf8.RuneCountInString(surface)
	la.list[p] = append(la.list[p], n)
''','''	end := &la.list[pos+utf8.RuneCountInString(surface)]
	*end = append(*end, n)
''')
R('w-add-posdrop',L,'func (la *Lattice) addNode(pos, id, position, start int, class NodeClass, surface string) {','func (la *Lattice) addNode(id, position, start int, class NodeClass, surface string) {',
 L,'	p := pos + utf8','	p := start + utf8',
 L,'	la.addNode(0, BosEosID, 0, 0, DUMMY, inp[0:0])\n	la.addNode(rc+1, BosEosID, len(inp), rc, DUMMY, inp[rc:rc])','''	la.addNode(BosEosID, 0, 0, DUMMY, "")
	la.addNode(BosEosID, len(inp), rc, DUMMY, "")
	la.list[rc], la.list[rc+1] = la.list[rc][:len(la.list[rc])-1], append(la.list[rc+1], la.list[rc][len(la.list[rc])-1])''',
 L,'la.addNode(runePos, id, pos, runePos, USER','la.addNode(id, pos, runePos, USER',
 L,'la.addNode(runePos, id, pos, runePos, KNOWN','la.addNode(id, pos, runePos, KNOWN',
 L,'la.addNode(runePos, int(id)+x, pos, runePos, UNKNOWN, inp[pos:prev])','la.addNode(int(id)+x, pos, runePos, UNKNOWN, inp[pos:prev])',
 L,'la.addNode(runePos, int(id)+x, pos, runePos, UNKNOWN, inp[pos:endPos])','la.addNode(int(id)+x, pos, runePos, UNKNOWN, inp[pos:endPos])') if False else None
R('w-build-reset',L,'''	rc := utf8.RuneCountInString(inp)
	la.Input = inp
	if cap(la.list) < rc+2 {
		la.list = make([][]*Node, 0, rc+2)
	}
	la.list = la.list[0 : rc+2]

	la.addNode(0, BosEosID, 0, 0, DUMMY, inp[0:0])
	la.addNode(rc+1, BosEosID, len(inp), rc, DUMMY, inp[rc:rc])
''','''	la.reset(inp)
''',L,None,'''
// reset makes a room for the input, and puts both of the ends.
func (la *Lattice) reset(inp string) {
	n := utf8.RuneCountInString(inp)
	size := n + 2 // BOS and EOS
	la.Input = inp
	if size > cap(la.list) {
		la.list = make([][]*Node, size)
	} else {
		la.list = la.list[:size]
	}
	la.addNode(0, BosEosID, 0, 0, DUMMY, "")
	la.addNode(n+1, BosEosID, len(inp), n, DUMMY, "")
}
''')
R('w-build-phases',L,'''		// (1) USER DIC
		if la.udic != nil {
			la.udic.Index.CommonPrefixSearchCallback(inp[pos:], func(id, l int) {
				la.addNode(runePos, id, pos, runePos, USER, inp[pos:pos+l])
				if !anyMatches {
					anyMatches = true
				}
			})
		}
		if anyMatches {
			continue
		}
		// (2) KNOWN DIC
		la.dic.Index.CommonPrefixSearchCallback(inp[pos:], func(id, l int) {
			la.addNode(runePos, id, pos, runePos, KNOWN, inp[pos:pos+l])
			if !anyMatches {
				anyMatches = true
			}
		})
''','''		// (1) USER DIC
		if la.addUserNodes(inp, pos, runePos) {
			continue
		}
		// (2) KNOWN DIC
		anyMatches = la.addKnownNodes(inp, pos, runePos)
''',L,None,'''
func (la *Lattice) addUserNodes(inp string, pos, runePos int) bool {
	found := false
	if la.udic == nil {
		return found
	}
	la.udic.Index.CommonPrefixSearchCallback(inp[pos:], func(id, l int) {
		found = true
		la.addNode(runePos, id, pos, runePos, USER, inp[pos:pos+l])
	})
	return found
}

func (la *Lattice) addKnownNodes(inp string, pos, runePos int) bool {
	count := 0
	la.dic.Index.CommonPrefixSearchCallback(inp[pos:], func(id, l int) {
		la.addNode(runePos, id, pos, runePos, KNOWN, inp[pos:pos+l])
		count++
	})
	return count > 0
}
''')
R('w-build-unk',L,'''		class := la.dic.CharacterCategory(ch)
		if !anyMatches || la.dic.InvokeList[int(class)] {
			_, chLen := utf8.DecodeRuneInString(inp[pos:])
''','''		class := la.dic.CharacterCategory(ch)
		if anyMatches && !la.dic.InvokeList[int(class)] {
			continue
		}
		{
			_, chLen := utf8.DecodeRuneInString(inp[pos:])
''')
R('w-build-grouplen',L,'''			endPos := pos + chLen
			unkWordLen := 1
			if la.dic.GroupList[int(class)] {
				for i, w, size := endPos, 0, len(inp); i < size; i += w {
					var c rune
					c, w = utf8.DecodeRuneInString(inp[i:])
					if la.dic.CharacterCategory(c) != class {
						break
					}
					endPos += w
					unkWordLen++
					if unkWordLen >= maximumUnknownWordLength {
						break
					}
				}
			}
''','''			endPos := pos + chLen
			if la.dic.GroupList[int(class)] {
				endPos = la.groupEnd(inp, endPos, ch)
			}
''',L,None,'''
// groupEnd returns the end of the run of the characters of the same category.
func (la *Lattice) groupEnd(inp string, end int, ch rune) int {
	class := la.dic.CharacterCategory(ch)
	for n := 1; n < maximumUnknownWordLength && end < len(inp); n++ {
		c, w := utf8.DecodeRuneInString(inp[end:])
		if la.dic.CharacterCategory(c) != class {
			return end
		}
		end += w
	}
	return end
}
''')
R('w-build-for',L,'''				for i, w, size := endPos, 0, len(inp); i < size; i += w {
					var c rune
					c, w = utf8.DecodeRuneInString(inp[i:])
					if la.dic.CharacterCategory(c) != class {
						break
					}
					endPos += w
					unkWordLen++
					if unkWordLen >= maximumUnknownWordLength {
						break
					}
				}
''','''				for endPos < len(inp) {
					c, w := utf8.DecodeRuneInString(inp[endPos:])
					if la.dic.CharacterCategory(c) != class {
						break
					}
					endPos += w
					if unkWordLen++; unkWordLen >= maximumUnknownWordLength {
						break
					}
				}
''')
R('w-build-prev',L,'''			prev := pos
			if c, size := utf8.DecodeLastRuneInString(inp[pos:endPos]); c != utf8.RuneError {
				prev = endPos - size
			}
''','''			prev := truncate(inp, pos, endPos)
''',L,None,'''
// truncate returns the position one character before the end.
func truncate(inp string, pos, end int) int {
	c, size := utf8.DecodeLastRuneInString(inp[pos:end])
	if c == utf8.RuneError {
		return pos
	}
	return end - size
}
''')
R('w-build-ids',L,'''			id := la.dic.UnkDict.Index[int32(class)]
			dup := la.dic.UnkDict.IndexDup[int32(class)]
			for x := 0; x < int(dup)+1; x++ {
				if pos < prev {
					// add the string with one character truncated at the end.
					la.addNode(runePos, int(id)+x, pos, runePos, UNKNOWN, inp[pos:prev])
				}
				la.addNode(runePos, int(id)+x, pos, runePos, UNKNOWN, inp[pos:endPos])
			}
''','''			first := int(la.dic.UnkDict.Index[int32(class)])
			last := first + int(la.dic.UnkDict.IndexDup[int32(class)])
			for id := first; id <= last; id++ {
				if prev > pos {
					// add the string with one character truncated at the end.
					la.addNode(runePos, id, pos, runePos, UNKNOWN, inp[pos:prev])
				}
				la.addNode(runePos, id, pos, runePos, UNKNOWN, inp[pos:endPos])
			}
''')
R('w-build-closure',L,'''			for x := 0; x < int(dup)+1; x++ {
				if pos < prev {
					// add the string with one character truncated at the end.
					la.addNode(runePos, int(id)+x, pos, runePos, UNKNOWN, inp[pos:prev])
				}
				la.addNode(runePos, int(id)+x, pos, runePos, UNKNOWN, inp[pos:endPos])
			}
''','''			add := func(id, end int) {
				la.addNode(runePos, id, pos, runePos, UNKNOWN, inp[pos:end])
			}
			for x := 0; x <= int(dup); x++ {
				uid := int(id) + x
				if prev != pos && prev > pos {
					add(uid, prev)
				}
				add(uid, endPos)
			}
''')
R('w-build-runes',L,'''	runePos := -1
	for pos, ch := range inp {
		runePos++
''','''	runePos := -1
	for pos, width := 0, 0; pos < len(inp); pos += width {
		var ch rune
		ch, width = utf8.DecodeRuneInString(inp[pos:])
		runePos++
''')
R('w-build-chlen',L,'''			_, chLen := utf8.DecodeRuneInString(inp[pos:])
			endPos := pos + chLen
''','''			_, endPos := utf8.DecodeRuneInString(inp[pos:])
			endPos += pos
''')
R('w-build-class',L,'''		class := la.dic.CharacterCategory(ch)
		if !anyMatches''','''		class := la.dic.CharacterCategory(ch)
		invoke := la.dic.InvokeList[int(class)]
		if invoke || !anyMatches''',L,'''|| la.dic.InvokeList[int(class)] {''','''{''') if False else None
R('w-kanji-all',L,'''	for _, r := range s {
		if !unicode.In(r, unicode.Ideographic) {
			return false
		}
	}
	return s != ""
''','''	return s != "" && strings.IndexFunc(s, func(r rune) bool {
		return !unicode.Is(unicode.Ideographic, r)
	}) < 0
''')
R('w-kanji-early',L,'''	for _, r := range s {
		if !unicode.In(r, unicode.Ideographic) {
			return false
		}
	}
	return s != ""
''','''	if len(s) == 0 {
		return false
	}
	ok := true
	for _, r := range s {
		ok = ok && unicode.In(r, unicode.Ideographic)
	}
	return ok
''')
R('w-addl-switch',L,'''	l := utf8.RuneCountInString(n.Surface)
	if l > searchModeKanjiLength && kanjiOnly(n.Surface) {
		return (l - searchModeKanjiLength) * searchModeKanjiPenalty
	}
	if l > searchModeOtherLength {
		return (l - searchModeOtherLength) * searchModeOtherPenalty
	}
	return 0
''','''	switch l := utf8.RuneCountInString(n.Surface); {
	case l > searchModeKanjiLength && kanjiOnly(n.Surface):
		return penalty(l, searchModeKanjiLength, searchModeKanjiPenalty)
	case l > searchModeOtherLength:
		return penalty(l, searchModeOtherLength, searchModeOtherPenalty)
	}
	return 0
''',L,None,'''
func penalty(length, threshold, rate int) int {
	return rate * (length - threshold)
}
''')
R('w-addl-max',L,'''	l := utf8.RuneCountInString(n.Surface)
	if l > searchModeKanjiLength && kanjiOnly(n.Surface) {
		return (l - searchModeKanjiLength) * searchModeKanjiPenalty
	}
	if l > searchModeOtherLength {
		return (l - searchModeOtherLength) * searchModeOtherPenalty
	}
	return 0
''','''	length, rate := searchModeOtherLength, searchModeOtherPenalty
	if kanjiOnly(n.Surface) {
		length, rate = searchModeKanjiLength, searchModeKanjiPenalty
	}
	excess := utf8.RuneCountInString(n.Surface) - length
	if excess <= 0 {
		return 0
	}
	return excess * rate
''') 
R('w-back-emit',L,'''		if m != Extended || p.Class != UNKNOWN {
			la.Output = append(la.Output, p)
			continue
		}
		runeLen := utf8.RuneCountInString(p.Surface)
		stack := make([]*Node, 0, runeLen)
		i := 0
		for k := range p.Surface {
			_, w := utf8.DecodeRuneInString(p.Surface[k:])
			stack = append(stack, &Node{
				ID:       p.ID,
				Start:    p.Start + i,
				Class:    DUMMY,
				Surface:  p.Surface[k : k+w],
				Position: p.Position + k,
			})
			i++
		}
		for j, end := 0, len(stack); j < end; j++ {
			la.Output = append(la.Output, stack[runeLen-1-j])
		}
''','''		if m == Extended && p.Class == UNKNOWN {
			chars := split(p)
			for j := len(chars) - 1; j >= 0; j-- {
				la.Output = append(la.Output, chars[j])
			}
		} else {
			la.Output = append(la.Output, p)
		}
''',L,None,'''
// split splits a node into the nodes of characters.
func split(n *Node) []*Node {
	chars := make([]*Node, 0, utf8.RuneCountInString(n.Surface))
	for k := range n.Surface {
		_, w := utf8.DecodeRuneInString(n.Surface[k:])
		c := &Node{ID: n.ID, Class: DUMMY}
		c.Start = n.Start + len(chars)
		c.Position = n.Position + k
		c.Surface = n.Surface[k : k+w]
		chars = append(chars, c)
	}
	return chars
}
''')
R('w-back-rev',L,'''		for j, end := 0, len(stack); j < end; j++ {
			la.Output = append(la.Output, stack[runeLen-1-j])
		}
''','''		for j := len(stack) - 1; j >= 0; j-- {
			la.Output = append(la.Output, stack[j])
		}
''')
R('w-back-eos',L,'''	size := len(la.list)
	if size == 0 {
		return
	}
	for p := la.list[size-1][0]; p != nil; p = p.prev {
''','''	eos := la.eos()
	for p := eos; p != nil; p = p.prev {
''',L,'''		for p := la.list[len(la.list)-1][0]; p != nil; p = p.prev {
			bests''','''		for p := la.eos(); p != nil; p = p.prev {
			bests''',L,None,'''
func (la *Lattice) eos() *Node {
	if len(la.list) == 0 {
		return nil
	}
	return la.list[len(la.list)-1][0]
}
''')
R('w-back-out',L,'''	for p := la.list[size-1][0]; p != nil; p = p.prev {
		if m != Extended || p.Class != UNKNOWN {
			la.Output = append(la.Output, p)
			continue
		}
''','''	out := la.Output
	defer func() { la.Output = out }()
	for p := la.list[size-1][0]; p != nil; p = p.prev {
		if m != Extended || p.Class != UNKNOWN {
			out = append(out, p)
			continue
		}
''',L,'la.Output = append(la.Output, stack[runeLen-1-j])','out = append(out, stack[runeLen-1-j])')
R('w-back-out2',L,'''	for p := la.list[size-1][0]; p != nil; p = p.prev {
		if m != Extended || p.Class != UNKNOWN {
			la.Output = append(la.Output, p)
			continue
		}
''','''	out := la.Output
	for p := la.list[size-1][0]; p != nil; p = p.prev {
		if m != Extended || p.Class != UNKNOWN {
			out = append(out, p)
			continue
		}
''',L,'''			la.Output = append(la.Output, stack[runeLen-1-j])
		}
	}
''','''			out = append(out, stack[runeLen-1-j])
		}
	}
	la.Output = out
''')
R('w-free-helper',L,'''	for i := range la.Output {
		la.Output[i] = nil
	}
	la.Output = la.Output[:0]
	for i := range la.list {
		for j := range la.list[i] {
			nodePool.Put(la.list[i][j])
			la.list[i][j] = nil
		}
		la.list[i] = la.list[i][:0]
	}
	la.list = la.list[:0]
''','''	la.Output = clearNodes(la.Output)
	for i, nodes := range la.list {
		for _, n := range nodes {
			nodePool.Put(n)
		}
		la.list[i] = clearNodes(nodes)
	}
	la.list = la.list[:0]
''',L,None,'''
func clearNodes(nodes []*Node) []*Node {
	for i := range nodes {
		nodes[i] = nil
	}
	return nodes[:0]
}
''')
R('w-free-order',L,'''	la.Input = ""
	for i := range la.Output {
		la.Output[i] = nil
	}
	la.Output = la.Output[:0]
''','',L,'''	la.list = la.list[:0]
	la.udic = nil
''','''	la.list = la.list[:0]
	for i := 0; i < len(la.Output); i++ {
		la.Output[i] = nil
	}
	la.Output = la.Output[:0]
	la.Input, la.udic = "", nil
''')
R('w-free-defer',L,'''	la.Input = ""
	for i := range la.Output {''','''	defer latticePool.Put(la)
	la.Input = ""
	for i := range la.Output {''',L,'''	la.udic = nil
	latticePool.Put(la)
''','''	la.udic = nil
''')
R('w-str-builder',L,'''	str := ""
	for i, nodes := range la.list {
		str += fmt.Sprintf("[%v] :\\n", i)
		for _, node := range nodes {
			str += fmt.Sprintf("%v\\n", node)
		}
		str += "\\n"
	}
	return str
''','''	var b strings.Builder
	for i, nodes := range la.list {
		fmt.Fprintf(&b, "[%d] :\\n", i)
		for _, node := range nodes {
			fmt.Fprintln(&b, node)
		}
		b.WriteByte('\\n')
	}
	return b.String()
''')
R('w-new-lit',L,'''	la := latticePool.Get()
	la.dic = d
	la.udic = u
	return la
''','''	la := latticePool.Get()
	la.dic, la.udic = d, u
	return la
''')
R('w-pf-helpers',L,'''	case KNOWN:
		for _, id := range d.POSTable.POSs[t.ID] {
			if v := d.POSTable.NameList[id]; v != "*" {
				ret = append(ret, d.POSTable.NameList[id])
			}
		}
''','''	case KNOWN:
		for _, id := range d.POSTable.POSs[t.ID] {
			v := d.POSTable.NameList[id]
			if v == "*" {
				continue
			}
			ret = append(ret, v)
		}
''',L,'''		start := 0
		if v, ok := d.UnkDict.ContentsMeta[dict.POSStartIndex]; ok {
			start = int(v)
		}
		end := 1
		if v, ok := d.UnkDict.ContentsMeta[dict.POSHierarchy]; ok {
			end = start + int(v)
		}
		feature := d.UnkDict.Contents[t.ID]
		if start >= end || end > len(feature) {
			return "---"
		}
		for i := start; i < end; i++ {
			if feature[i] != "*" {
				ret = append(ret, feature[i])
			}
		}
''','''		start := int(d.UnkDict.ContentsMeta[dict.POSStartIndex])
		end := 1
		if v, ok := d.UnkDict.ContentsMeta[dict.POSHierarchy]; ok {
			end = start + int(v)
		}
		feature := d.UnkDict.Contents[t.ID]
		if start >= end || end > len(feature) {
			return "---"
		}
		for _, v := range feature[start:end] {
			if v != "*" {
				ret = append(ret, v)
			}
		}
''',L,'''		ret = append(ret, u.Contents[t.ID].Pos)
	}
	if len(ret) == 0 {
		return "---"
	}
	return strings.Join(ret, "/")
''','''		return u.Contents[t.ID].Pos
	}
	if len(ret) > 0 {
		return strings.Join(ret, "/")
	}
	return "---"
''')
