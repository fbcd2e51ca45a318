package zz_kspec

import (
	"fmt"
	"io"
	"strings"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/tokenizer/lattice"
)

// OnPath: the node is on the back-pointer chain from EOS.
func OnPath(n *lattice.Node) bool { return false }

// DotEsc escapes the text of a quoted DOT label.
func DotEsc(s string) string { return s }

// DotPOS is the part of speech of a node as its label shows it.
func DotPOS(d *dict.Dict, u *dict.UserDict, n *lattice.Node) string {
	var pos []string
	switch n.Class {
	case lattice.KNOWN:
		for _, id := range d.POSTable.POSs[n.ID] {
			if s := d.POSTable.NameList[id]; s != "*" {
				pos = append(pos, s)
			}
		}
	case lattice.UNKNOWN:
		first, end := 0, 1
		if v, ok := d.UnkDict.ContentsMeta[dict.POSStartIndex]; ok {
			first = int(v)
		}
		if v, ok := d.UnkDict.ContentsMeta[dict.POSHierarchy]; ok {
			end = first + int(v)
		}
		f := d.UnkDict.Contents[n.ID]
		if first >= end || end > len(f) {
			return "---"
		}
		for _, s := range f[first:end] {
			if s != "*" {
				pos = append(pos, s)
			}
		}
	case lattice.USER:
		return u.Contents[n.ID].Pos
	}
	if len(pos) == 0 {
		return "---"
	}
	return strings.Join(pos, "/")
}

// DotGraph writes the graph of a lattice. The attributes that highlight are
// written as "*".
func DotGraph(w io.Writer, list [][]*lattice.Node, out []*lattice.Node, d *dict.Dict, u *dict.UserDict) {
	io.WriteString(w, "graph {\n")
	for i, nodes := range list {
		for _, n := range nodes {
			best := OnPath(n)
			if n.Class == lattice.UNKNOWN && !best {
				continue
			}
			surface := n.Surface
			if n.ID == lattice.BosEosID {
				surface = "EOS"
				if i == 0 {
					surface = "BOS"
				}
			}
			mark := ""
			if best {
				mark = " *"
			}
			fmt.Fprintf(w, "\t\"%p\" [label=\"%s\\n%s\\n%d\"%s];\n", n, DotEsc(surface), DotEsc(DotPOS(d, u, n)), n.Weight, mark)
		}
	}
	for i := 1; i < len(list); i++ {
		for _, to := range list[i] {
			if to.Class == lattice.UNKNOWN && !OnPath(to) {
				continue
			}
			for _, from := range list[to.Start] {
				if from.Class == lattice.UNKNOWN && !OnPath(from) {
					continue
				}
				var cost int16
				if from.Class != lattice.USER && to.Class != lattice.USER {
					cost = d.Connection.At(int(from.Right), int(to.Left))
				}
				mark := ""
				if OnPath(from) && OnPath(to) {
					mark = " *"
				}
				fmt.Fprintf(w, "\t\"%p\" -- \"%p\" [label=\"%d\"%s];\n", from, to, cost, mark)
			}
		}
	}
	io.WriteString(w, "}\n")
}
