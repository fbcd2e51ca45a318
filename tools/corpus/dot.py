L='tokenizer/lattice/lattice.go'
SET='''	bests := make(map[*Node]struct{})
	if len(la.Output) > 0 {
		// Output holds substitutes for the unknown words in extended mode.
		for p := la.list[len(la.list)-1][0]; p != nil; p = p.prev {
			bests[p] = struct{}{}
		}
	}
'''
M('dot-esc-surf','C21',L,'surf = dotEscaper.Replace(surf)','_ = surf')
M('dot-esc-pos','C21',L,'dotEscaper.Replace(posFeature(la.dic, la.udic, n))','posFeature(la.dic, la.udic, n)')
M('dot-esc-pairs','C21',L,'strings.NewReplacer(`\\`, `\\\\`, `"`, `\\"`)','strings.NewReplacer(`"`, `\\"`)')
M('dot-esc-order','C21',L,'surf = dotEscaper.Replace(surf)','surf = strings.ReplaceAll(strings.ReplaceAll(surf, `"`, `\\"`), `\\`, `\\\\`)')
M('dot-from-undrawn','C21',L,'''				for _, from := range prevs {
				if from.Class''' if 0 else '''				if from.Class == UNKNOWN {
					if _, ok := bests[from]; !ok {
						continue
					}
				}
''','')
M('dot-to-undrawn','C21',L,'''			if to.Class == UNKNOWN {
				if _, ok := bests[to]; !ok {
					continue
				}
			}
''','')
M('dot-unk-drawn','C21',L,'''			if n.Class == UNKNOWN {
				if _, ok := bests[n]; !ok {
					continue
				}
			}
			surf''','''			surf''',L,'} else if n.Class != UNKNOWN {','} else {')
M('dot-bos','C21',L,'if i == 0 {\n					surf = "BOS"','if _ = i; n.Position == 0 {\n					surf = "BOS"')
M('dot-swap','C21',L,'int(e.from.Right), int(e.to.Left)','int(e.to.Right), int(e.from.Left)')
M('dot-user-cost','C21',L,'if e.from.Class != USER && e.to.Class != USER {','if e.to.Class != USER {')
M('dot-hl-or','C21',L,'if l && r {','if l || r {')
M('dot-output-set','C21',L,SET,'''	bests := make(map[*Node]struct{})
	for _, n := range la.Output {
		bests[n] = struct{}{}
	}
''')
M('dot-position','C21',L,'prevs := la.list[to.Start]','prevs := la.list[to.Position]')
M('dot-second','C21',L,'for i, size := 1, len(la.list); i < size; i++ {\n		currents','for i, size := 2, len(la.list); i < size; i++ {\n		currents')
M('dot-cost','C21',L,'surf, pos, n.Weight)\n			} else','surf, pos, n.Cost)\n			} else')
M('dot-star','C21',L,'if v := d.POSTable.NameList[id]; v != "*" {','if v := d.POSTable.NameList[id]; v != "" {')
M('dot-unk-pos','C21',L,'for i := start; i < end; i++ {\n			if feature','for i := 0; i < end; i++ {\n			if feature')
M('dot-digraph','C21',L,'"graph lattice {"','"digraph lattice {"')
M('dot-open','C21',L,'	fmt.Fprintln(w, "}")\n','')
M('dot-stop','C21',L,'p != nil; p = p.prev {\n			bests','p != nil && p.Start > 0; p = p.prev {\n			bests')
M('dot-first-edge','C21',L,'				edges = append(edges, edge{from, to})','				edges = append(edges, edge{from, to})\n				if len(edges) == cap(edges) {\n					break\n				}')
M('dot-edge-dup','C21',L,'				edges = append(edges, edge{from, to})','				edges = append(edges, edge{from, to})\n				if from.Class == USER {\n					edges = append(edges, edge{from, to})\n				}')
M('dot-edge-mut','C21',L,'	for _, e := range edges {\n		var c','	for i := range edges {\n		if edges[i].to.Class == USER {\n			edges[i].from = edges[i].to\n		}\n	}\n	for _, e := range edges {\n		var c')
M('dot-ptr-surface','C21',L,'"\\t\\"%p\\" -- \\"%p\\" [label=\\"%d\\"];\\n",\n				e.from, e.to, c)','"\\t\\"%p\\" -- \\"%p\\" [label=\\"%d\\"];\\n",\n				e.to, e.from, c)')
M('dot-quote-missing','C21',L,'[label=\\"%s\\\\n%s\\\\n%d\\"];','[label=\\"%s\\\\n%s\\\\n%d];')
M('dot-clear-prev','C06',L,'			bests[p] = struct{}{}\n','			bests[p] = struct{}{}\n			p.Cost = 0\n')
R('dot-r-helper',L,SET,'	bests := la.bestNodes()\n',L,None,'''
func (la *Lattice) bestNodes() map[*Node]struct{} {
	ret := map[*Node]struct{}{}
	if len(la.Output) == 0 {
		return ret
	}
	for n := la.list[len(la.list)-1][0]; n != nil; {
		ret[n] = struct{}{}
		n = n.prev
	}
	return ret
}
''')
R('dot-r-bool',L,SET,'''	bests := make(map[*Node]bool, len(la.Output))
	if len(la.list) > 0 && len(la.Output) > 0 {
		for p := la.list[len(la.list)-1][0]; p != nil; p = p.prev {
			bests[p] = true
		}
	}
''',L,'''				if _, ok := bests[to]; !ok {
					continue
				}''','''				if !bests[to] {
					continue
				}''',L,'''					if _, ok := bests[from]; !ok {
						continue
					}''','''					if !bests[from] {
						continue
					}''',L,'''		_, l := bests[e.from]
		_, r := bests[e.to]
		if l && r {''','''		if bests[e.from] && bests[e.to] {''')
R('dot-r-closure',L,'	type edge struct {','''	visible := func(n *Node) bool {
		if n.Class != UNKNOWN {
			return true
		}
		_, ok := bests[n]
		return ok
	}
	type edge struct {''',L,'''			if to.Class == UNKNOWN {
				if _, ok := bests[to]; !ok {
					continue
				}
			}
''','''			if !visible(to) {
				continue
			}
''',L,'''				if from.Class == UNKNOWN {
					if _, ok := bests[from]; !ok {
						continue
					}
				}
				edges = append(edges, edge{from, to})''','''				if visible(from) {
					edges = append(edges, edge{from, to})
				}''')
R('dot-r-noguard',L,'''			if len(prevs) == 0 {
				continue
			}
''','')
R('dot-r-nil',L,'edges := make([]edge, 0, 1024)','var edges []edge',L,'edge{from, to})','edge{from: from, to: to})')
R('dot-r-bufio',L,'func (la *Lattice) Dot(w io.Writer) {\n','func (la *Lattice) Dot(out io.Writer) {\n	w := bufio.NewWriter(out)\n	defer w.Flush()\n',L,'import (\n','import (\n	"bufio"\n')
R('dot-r-builder',L,'func (la *Lattice) Dot(w io.Writer) {\n','func (la *Lattice) Dot(out io.Writer) {\n	w := &strings.Builder{}\n',L,'	fmt.Fprintln(w, "}")\n','	fmt.Fprintln(w, "}")\n	io.WriteString(out, w.String())\n')
R('dot-r-replace',L,'surf = dotEscaper.Replace(surf)','surf = dotEscape(surf)',L,'dotEscaper.Replace(posFeature(la.dic, la.udic, n))','dotEscape(posFeature(la.dic, la.udic, n))',L,'var dotEscaper = strings.NewReplacer(`\\`, `\\\\`, `"`, `\\"`)','func dotEscape(s string) string {\n	s = strings.ReplaceAll(s, `\\`, `\\\\`)\n	return strings.ReplaceAll(s, `"`, `\\"`)\n}')
R('dot-r-cost',L,'''		var c int16
		if e.from.Class != USER && e.to.Class != USER {
			c = la.dic.Connection.At(int(e.from.Right), int(e.to.Left))
		}
		_, l''','''		c := la.connectionCost(e.from, e.to)
		_, l''',L,None,'''
func (la *Lattice) connectionCost(from, to *Node) int16 {
	if from.Class == USER || to.Class == USER {
		return 0
	}
	return la.dic.Connection.At(int(from.Right), int(to.Left))
}
''')
R('dot-r-header',L,'''	fmt.Fprintln(w, "graph lattice {")
	fmt.Fprintln(w, "dpi=48;")
''','''	fmt.Fprint(w, "graph lattice {\\ndpi=48;\\n")
''')
R('dot-r-attr',L,'''			if _, ok := bests[n]; ok {
				fmt.Fprintf(w, "\\t\\"%p\\" [label=\\"%s\\\\n%s\\\\n%d\\",shape=ellipse, peripheries=2];\\n", n, surf, pos, n.Weight)
			} else if n.Class != UNKNOWN {
				fmt.Fprintf(w, "\\t\\"%p\\" [label=\\"%s\\\\n%s\\\\n%d\\"];\\n", n, surf, pos, n.Weight)
			}
''','''			style := ""
			if _, ok := bests[n]; ok {
				style = ",shape=ellipse, peripheries=2"
			}
			fmt.Fprintf(w, "\\t\\"%p\\" [label=\\"%s\\\\n%s\\\\n%d\\"%s];\\n", n, surf, pos, n.Weight, style)
''')
R('dot-r-posfeature',L,'''			if feature[i] != "*" {
				ret = append(ret, feature[i])
			}
''','''			if feature[i] == "*" {
				continue
			}
			ret = append(ret, feature[i])
''')
R('dot-r-posrange',L,'''		for i := start; i < end; i++ {
			if feature[i] != "*" {
				ret = append(ret, feature[i])
			}
		}
''','''		for _, v := range feature[start:end] {
			if v != "*" {
				ret = append(ret, v)
			}
		}
''')
R('dot-r-direct',L,'''	type edge struct {
		from *Node
		to   *Node
	}
	edges := make([]edge, 0, 1024)
	for i, size := 1, len(la.list); i < size; i++ {
		currents := la.list[i]
		for _, to := range currents {
			if to.Class == UNKNOWN {
				if _, ok := bests[to]; !ok {
					continue
				}
			}
			prevs := la.list[to.Start]
			if len(prevs) == 0 {
				continue
			}
			for _, from := range prevs {
				if from.Class == UNKNOWN {
					if _, ok := bests[from]; !ok {
						continue
					}
				}
				edges = append(edges, edge{from, to})
			}
		}
	}
''','',L,'''	for _, e := range edges {
		var c int16
		if e.from.Class != USER && e.to.Class != USER {
			c = la.dic.Connection.At(int(e.from.Right), int(e.to.Left))
		}
		_, l := bests[e.from]
		_, r := bests[e.to]
		if l && r {
			fmt.Fprintf(w, "\\t\\"%p\\" -- \\"%p\\" [label=\\"%d\\", style=bold, color=blue, fontcolor=blue];\\n",
				e.from, e.to, c)
		} else {
			fmt.Fprintf(w, "\\t\\"%p\\" -- \\"%p\\" [label=\\"%d\\"];\\n",
				e.from, e.to, c)
		}
	}
''','''	for i := 1; i < len(la.list); i++ {
		for _, to := range la.list[i] {
			_, r := bests[to]
			if to.Class == UNKNOWN && !r {
				continue
			}
			for _, from := range la.list[to.Start] {
				_, l := bests[from]
				if from.Class == UNKNOWN && !l {
					continue
				}
				var c int16
				if from.Class != USER && to.Class != USER {
					c = la.dic.Connection.At(int(from.Right), int(to.Left))
				}
				fmt.Fprintf(w, "\\t\\"%p\\" -- \\"%p\\" [label=\\"%d\\"", from, to, c)
				if l && r {
					fmt.Fprint(w, ", style=bold, color=blue, fontcolor=blue")
				}
				fmt.Fprintln(w, "];")
			}
		}
	}
''')
