package zz_kspec

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strings"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome-dict/ipa"
	"github.com/ikawaha/kagome-dict/uni"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

// what the commands must do with their options

func CmdMode(name string) tokenizer.TokenizeMode {
	if name == "search" {
		return tokenizer.Search
	}
	if name == "extended" {
		return tokenizer.Extended
	}
	return tokenizer.Normal
}

func SysDict(sys string) (*dict.Dict, bool) {
	if sys == "ipa" {
		return ipa.Dict(), true
	}
	if sys == "uni" {
		return uni.Dict(), true
	}
	return nil, false
}

func AnyDict(path, sys string, simple bool) (*dict.Dict, bool) {
	if path != "" {
		d, err := dict.LoadDictFile(path)
		if simple {
			d, err = dict.LoadShrink(path)
		}
		return d, err == nil
	}
	if sys == "ipa" {
		if simple {
			return ipa.DictShrink(), true
		}
		return ipa.Dict(), true
	}
	if sys == "uni" {
		if simple {
			return uni.DictShrink(), true
		}
		return uni.Dict(), true
	}
	return nil, false
}

// UserDict gives the user dictionary, whether one is wanted, and whether it
// could be read.
func UserDict(path string) (*dict.UserDict, bool, bool) {
	if path == "" {
		return nil, false, true
	}
	d, err := dict.NewUserDict(path)
	return d, true, err == nil
}

func PlainTokens(w io.Writer, tokens []tokenizer.Token) {
	for _, t := range tokens {
		if t.ID == tokenizer.BosEosID {
			continue
		}
		if t.Class == tokenizer.DUMMY {
			fmt.Fprintf(w, "%s\n", t.Surface)
			continue
		}
		fmt.Fprintf(w, "%s\t%s\n", t.Surface, strings.Join(t.Features(), ","))
	}
	io.WriteString(w, "EOS\n")
}

func JSONTokens(w io.Writer, tokens []tokenizer.Token) {
	var array [][]byte
	for _, t := range tokens {
		if t.ID == tokenizer.BosEosID {
			continue
		}
		obj, _ := json.Marshal(tokenizer.NewTokenData(t))
		array = append(array, obj)
	}
	if len(tokens) > 0 {
		io.WriteString(w, "[\n")
	}
	w.Write(bytes.Join(array, []byte(",\n")))
	if len(tokens) > 0 {
		io.WriteString(w, "\n]\n")
	}
}

func VerboseTokens(w io.Writer, tokens []tokenizer.Token) {
	for i := 1; i < len(tokens); i++ {
		t := tokens[i]
		if t.Class == tokenizer.DUMMY {
			fmt.Fprintf(w, "%s\n", t.Surface)
			continue
		}
		fmt.Fprintf(w, "%s\t%s\n", t.Surface, strings.Join(t.Features(), ","))
	}
}

func APIMode(name string) tokenizer.TokenizeMode {
	if name == "Search" {
		return tokenizer.Search
	}
	if name == "Extended" {
		return tokenizer.Extended
	}
	return tokenizer.Normal
}

func DemoMode(name string) tokenizer.TokenizeMode {
	if name == "Search" || name == "Extended" {
		return tokenizer.Search
	}
	return tokenizer.Normal
}

func TokenList(tokens []tokenizer.Token) []tokenizer.TokenData {
	var r []tokenizer.TokenData
	for _, t := range tokens {
		if t.ID != tokenizer.BosEosID {
			r = append(r, tokenizer.NewTokenData(t))
		}
	}
	return r
}

type Row struct {
	Surface, POS, BaseForm, Reading, Pronunciation string
}

func or(v string, ok bool) string {
	if ok {
		return v
	}
	return "*"
}

func Rows(tokens []tokenizer.Token) []Row {
	var r []Row
	for _, t := range tokens {
		if t.ID == tokenizer.BosEosID {
			continue
		}
		pos := strings.Join(t.POS(), ",")
		r = append(r, Row{t.Surface, or(pos, pos != ""), or(t.BaseForm()), or(t.Reading()), or(t.Pronunciation())})
	}
	return r
}
