// Package zz_kspec states, as plain code, what the accessors of a token must
// return. The checker never runs it: it derives the value graph of each
// function and compares it with the one of the repository's function.
package zz_kspec

import (
	"bytes"
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/tokenizer"
	"github.com/ikawaha/kagome/v2/tokenizer/lattice"
)

// token classes: 0 dummy, 1 known, 2 unknown, 3 user

func Features(class, id int, d *dict.Dict, u *dict.UserDict) []string {
	var ret []string
	if class == 1 {
		for _, p := range d.POSTable.POSs[id] {
			ret = append(ret, d.POSTable.NameList[p])
		}
		if d.Contents != nil {
			ret = append(ret, d.Contents[id]...)
		}
		return ret
	}
	if class == 2 {
		return append(ret, d.UnkDict.Contents[id]...)
	}
	if class == 3 {
		c := u.Contents[id]
		return append(ret, c.Pos, strings.Join(c.Tokens, "/"), strings.Join(c.Yomi, "/"))
	}
	return nil
}

func FeatureAt(i, class, id int, d *dict.Dict, u *dict.UserDict) (string, bool) {
	if i < 0 {
		return "", false
	}
	if class == 1 {
		pos := d.POSTable.POSs[id]
		if i < len(pos) {
			if int(pos[i]) >= len(d.POSTable.NameList) {
				return "", false
			}
			return d.POSTable.NameList[pos[i]], true
		}
		if id >= len(d.Contents) {
			return "", false
		}
		if i-len(pos) < len(d.Contents[id]) {
			return d.Contents[id][i-len(pos)], true
		}
		return "", false
	}
	if class == 2 {
		if id >= len(d.UnkDict.Contents) {
			return "", false
		}
		if i < len(d.UnkDict.Contents[id]) {
			return d.UnkDict.Contents[id][i], true
		}
		return "", false
	}
	if class == 3 {
		if id >= len(u.Contents) {
			return "", false
		}
		c := u.Contents[id]
		if i == 0 {
			return c.Pos, true
		}
		if i == 1 {
			return strings.Join(c.Tokens, "/"), true
		}
		if i == 2 {
			return strings.Join(c.Yomi, "/"), true
		}
	}
	return "", false
}

func POS(class, id int, d *dict.Dict, u *dict.UserDict) []string {
	var ret []string
	if class == 1 {
		for _, p := range d.POSTable.POSs[id] {
			ret = append(ret, d.POSTable.NameList[p])
		}
		return ret
	}
	if class == 2 {
		start := 0
		if v, ok := d.UnkDict.ContentsMeta[dict.POSStartIndex]; ok {
			start = int(v)
		}
		end := 1
		if v, ok := d.UnkDict.ContentsMeta[dict.POSHierarchy]; ok {
			end = start + int(v)
		}
		f := d.UnkDict.Contents[id]
		if start >= end || end > len(f) {
			return nil
		}
		return append(ret, f[start:end]...)
	}
	if class == 3 {
		return append(ret, u.Contents[id].Pos)
	}
	return nil
}

func Pickup(key string, class, id int, d *dict.Dict, u *dict.UserDict) (string, bool) {
	var meta dict.ContentsMeta
	if class == 1 {
		meta = d.ContentsMeta
	} else if class == 2 {
		meta = d.UnkDict.ContentsMeta
	} else {
		return "", false
	}
	i, ok := meta[key]
	if !ok {
		return "", false
	}
	return FeatureAt(int(i), class, id, d, u)
}

func UserExtraTokens(class, id int, u *dict.UserDict) []string {
	return append([]string(nil), u.Contents[id].Tokens...)
}

func UserExtraReadings(class, id int, u *dict.UserDict) []string {
	return append([]string(nil), u.Contents[id].Yomi...)
}

func EqualFeatures(lhs, rhs []string) bool {
	if len(lhs) != len(rhs) {
		return false
	}
	for i := range lhs {
		if lhs[i] != rhs[i] {
			return false
		}
	}
	return true
}

// Tok mirrors a token.
type Tok struct {
	Index, ID, Class, Position, Start, End int
	Surface                                string
	Dict                                   *dict.Dict
	User                                   *dict.UserDict
}

// Tokens is the token list of a lattice whose best path, last node first, is out.
func Tokens(omit bool, out []*lattice.Node, d *dict.Dict, u *dict.UserDict) []Tok {
	var ret []Tok
	for i := 0; i < len(out); i++ {
		n := out[len(out)-1-i]
		if omit && n.ID == lattice.BosEosID {
			continue
		}
		s := n.Surface
		if n.ID == lattice.BosEosID {
			if i == 0 {
				s = "BOS"
			} else {
				s = "EOS"
			}
		}
		ret = append(ret, Tok{len(ret), n.ID, int(n.Class), n.Position, n.Start, n.Start + utf8.RuneCountInString(n.Surface), s, d, u})
	}
	return ret
}

func LatticeMode(mode tokenizer.TokenizeMode) lattice.TokenizeMode {
	if mode == tokenizer.Search {
		return lattice.Search
	}
	if mode == tokenizer.Extended {
		return lattice.Extended
	}
	return lattice.Normal
}

func Wakati1(ts []tokenizer.Token) []string {
	var ret []string
	for _, v := range ts {
		if v.Class != tokenizer.DUMMY && v.Surface != "" {
			ret = append(ret, v.Surface)
		}
	}
	return ret
}

func Wakati2(ts []tokenizer.Token) []string {
	var ret []string
	for _, v := range ts {
		if v.Class != tokenizer.DUMMY {
			ret = append(ret, v.Surface)
		}
	}
	return ret
}

func Wakati3(ts []tokenizer.Token) []string {
	var ret []string
	for _, v := range ts {
		if v.ID != tokenizer.BosEosID {
			ret = append(ret, v.Surface)
		}
	}
	return ret
}

func Wakati4(ts []tokenizer.Token) []string {
	var ret []string
	for _, v := range ts {
		if v.ID != tokenizer.BosEosID && v.Surface != "" {
			ret = append(ret, v.Surface)
		}
	}
	return ret
}

func ClassName(c tokenizer.TokenClass) string {
	switch c {
	case tokenizer.DUMMY:
		return "DUMMY"
	case tokenizer.KNOWN:
		return "KNOWN"
	case tokenizer.UNKNOWN:
		return "UNKNOWN"
	case tokenizer.USER:
		return "USER"
	}
	return ""
}

func NodeClassName(c lattice.NodeClass) string {
	switch c {
	case lattice.DUMMY:
		return "DUMMY"
	case lattice.KNOWN:
		return "KNOWN"
	case lattice.UNKNOWN:
		return "UNKNOWN"
	case lattice.USER:
		return "USER"
	}
	return "UNDEF"
}

func ModeName(m tokenizer.TokenizeMode) string {
	switch m {
	case tokenizer.Normal:
		return "normal"
	case tokenizer.Search:
		return "search"
	case tokenizer.Extended:
		return "extend"
	}
	return fmt.Sprintf("unknown tokenize mode (%d)", m)
}

// ForwardTotal is the cost of reaching target over n: accumulated cost of n,
// connection cost unless a user word is involved, word cost of target, and
// the length penalty of n outside the normal mode, saturated to 32 bits.
func ForwardTotal(d *dict.Dict, mode int, n, target *lattice.Node) int32 {
	total := int64(target.Weight) + int64(n.Cost)
	if n.Class != 3 && target.Class != 3 {
		total += int64(d.Connection.At(int(n.Right), int(target.Left)))
	}
	if mode != 1 {
		l := utf8.RuneCountInString(n.Surface)
		ideographs := l > 0
		for _, r := range n.Surface {
			if !unicode.In(r, unicode.Ideographic) {
				ideographs = false
				break
			}
		}
		if ideographs && l > 2 {
			total += int64(3000 * (l - 2))
		} else if l > 7 {
			total += int64(1700 * (l - 7))
		}
	}
	if total > 1<<31-1 {
		total = 1<<31 - 1
	}
	if total < -1<<31 {
		total = -1 << 31
	}
	return int32(total)
}

// BackStep adds what node p of the best path contributes to the output, which
// is collected from the end of the input to its beginning.
func BackStep(mode int, p *lattice.Node, out []*lattice.Node) []*lattice.Node {
	if mode != 3 || p.Class != 2 {
		return append(out, p)
	}
	var ns []*lattice.Node
	k := 0
	for o := range p.Surface {
		_, w := utf8.DecodeRuneInString(p.Surface[o:])
		ns = append(ns, &lattice.Node{ID: p.ID, Start: p.Start + k, Position: p.Position + o, Class: 0, Surface: p.Surface[o : o+w]})
		k++
	}
	for i := 0; i < utf8.RuneCountInString(p.Surface); i++ {
		out = append(out, ns[utf8.RuneCountInString(p.Surface)-1-i])
	}
	return out
}

// JaYield is the word list of a Japanese filter.
func JaYield(base, tags *filter.POSFilter, words *filter.WordFilter, ts []tokenizer.Token) []string {
	var ret []string
	for _, v := range ts {
		if tags.Match(v.POS()) || words.Match(v.Surface) {
			continue
		}
		if base.Match(v.POS()) {
			if b, ok := v.BaseForm(); ok {
				ret = append(ret, b)
				continue
			}
		}
		ret = append(ret, v.Surface)
	}
	return ret
}

// ConfigLine is the entry on a line of an embedded list, if any.
func ConfigLine(line string) (string, bool) {
	i := strings.Index(line, "#")
	if i >= 0 {
		line = line[:i]
	}
	return line, line != ""
}

// TagPOS is the POS vector of a stop tag.
func TagPOS(tag string) []string {
	p := strings.Split(tag, "-")
	for i := len(p); i < 4; i++ {
		p = append(p, "*")
	}
	return p
}

func BaseForms() [][]string {
	return [][]string{{"動詞"}, {"形容詞"}, {"形容動詞"}}
}

func member(rs []rune, r rune) bool {
	for _, x := range rs {
		if x == r {
			return true
		}
	}
	return false
}

// Sentence finds the next sentence of data: white space before it is skipped,
// it ends with a delimiter or the rune that reaches the maximal length,
// together with the delimiters, followers and white space after it, or with
// the second of two adjacent line feeds, or with the text. If whole, what
// follows a sentence is only known once a rune after it has been read.
func Sentence(s filter.SentenceSplitter, data []byte, atEOF, whole bool) (int, []byte, error) {
	start := 0     // where the sentence begins
	begun := false // something that is not skipped has been read
	feed := false  // the last rune was a line feed
	n := 0         // runes that count
	p := 0
	complete := false
	for p < len(data) {
		if !atEOF && !utf8.FullRune(data[p:]) {
			return start, nil, nil
		}
		r, size := utf8.DecodeRune(data[p:])
		p += size
		skip := s.SkipWhiteSpace && unicode.IsSpace(r)
		if skip && !begun {
			start = p
			continue
		}
		begun = true
		if skip && member(s.Delim, r) {
			return p, text(s, data[start:p]), nil
		}
		if s.DoubleLineFeedSplit && r == '\n' {
			if feed {
				return p, text(s, data[start:p]), nil
			}
			feed = true
		} else {
			feed = false
		}
		if skip {
			continue
		}
		n++
		if member(s.Delim, r) || n >= s.MaxRuneLen {
			complete = true
			break
		}
	}
	if !complete {
		if !atEOF {
			return start, nil, nil
		}
		if !begun {
			return len(data), nil, nil
		}
		return len(data), text(s, data[start:]), nil
	}
	feed = false
	for p < len(data) {
		if !atEOF && !utf8.FullRune(data[p:]) {
			return start, nil, nil
		}
		r, size := utf8.DecodeRune(data[p:])
		skip := s.SkipWhiteSpace && unicode.IsSpace(r)
		if !skip && !member(s.Delim, r) && !member(s.Follower, r) {
			break
		}
		p += size
		if skip && s.DoubleLineFeedSplit && r == '\n' {
			if feed {
				return p, text(s, data[start:p]), nil
			}
			feed = true
		} else {
			feed = false
		}
	}
	if whole && !atEOF && p == len(data) {
		return start, nil, nil
	}
	return p, text(s, data[start:p]), nil
}

func text(s filter.SentenceSplitter, b []byte) []byte {
	if s.SkipWhiteSpace {
		return bytes.Join(bytes.Fields(b), nil)
	}
	return b
}
