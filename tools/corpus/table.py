Z='tokenizer/tokenizer.go';K='tokenizer/token.go'
MODE='''	m := lattice.Normal
	switch mode {
	case Normal:
		m = lattice.Normal
	case Search:
		m = lattice.Search
	case Extended:
		m = lattice.Extended
	}
'''
R('v-mode-loop',Z,MODE,'''	m := lattice.Normal
	for _, p := range modePairs {
		if p.from == mode {
			m = p.to
			break
		}
	}
''',Z,None,'''
var modePairs = []struct {
	from TokenizeMode
	to   lattice.TokenizeMode
}{
	{Normal, lattice.Normal},
	{Search, lattice.Search},
	{Extended, lattice.Extended},
}
''')
R('v-mode-array',Z,MODE,'''	m := lattice.Normal
	if mode >= Normal && mode <= Extended {
		m = modeTable[mode]
	}
''',Z,None,'''
var modeTable = [...]lattice.TokenizeMode{
	Normal:   lattice.Normal,
	Search:   lattice.Search,
	Extended: lattice.Extended,
}
''')
M('v-mode-write','C06',Z,MODE,'''	m := lattice.Normal
	if mode >= Normal && mode <= Extended {
		m = modeTable[mode]
	}
	modeTable[Normal] = m
''',Z,None,'''
var modeTable = [...]lattice.TokenizeMode{
	Normal:   lattice.Normal,
	Search:   lattice.Search,
	Extended: lattice.Extended,
}
''')
R('v-class-array',K,'''	ret := ""
	switch c {
	case DUMMY:
		ret = "DUMMY"
	case KNOWN:
		ret = "KNOWN"
	case UNKNOWN:
		ret = "UNKNOWN"
	case USER:
		ret = "USER"
	}
	return ret
}
''','''	if c < 0 || int(c) >= len(classNames) {
		return ""
	}
	return classNames[c]
}

var classNames = []string{"DUMMY", "KNOWN", "UNKNOWN", "USER"}
''')
M('v-class-wrong','C23',K,'''	ret := ""
	switch c {
	case DUMMY:
		ret = "DUMMY"
	case KNOWN:
		ret = "KNOWN"
	case UNKNOWN:
		ret = "UNKNOWN"
	case USER:
		ret = "USER"
	}
	return ret
}
''','''	if c < 0 || int(c) >= len(classNames) {
		return ""
	}
	return classNames[c]
}

var classNames = []string{"KNOWN", "DUMMY", "UNKNOWN", "USER"}
''')
for pk in 'tokenize','lattice':
    F='cmd/%s/cmd.go'%pk
    body=open('/repo/'+F).read();a=body.index('func selectMode');b=body.index('\n}\n',a)+3
    R('v-cmd-map-'+pk,F,body[a:b],"""var modes = map[string]tokenizer.TokenizeMode{
	"normal":   tokenizer.Normal,
	"search":   tokenizer.Search,
	"extended": tokenizer.Extended,
}

func selectMode(mode string) tokenizer.TokenizeMode {
	if m, ok := modes[mode]; ok {
		return m
	}
	return tokenizer.Normal
}
""",F,'o.mode != "" && o.mode != "normal" && o.mode != "search" && o.mode != "extended"','o.mode != "" && !validMode(o.mode)',F,None,"""
func validMode(mode string) bool {
	_, ok := modes[mode]
	return ok
}
""")
    R('v-cmd-slice-'+pk,F,'o.mode != "" && o.mode != "normal" && o.mode != "search" && o.mode != "extended"','!contains(validModes, o.mode)',F,None,"""
var validModes = []string{"", "normal", "search", "extended"}

func contains(list []string, s string) bool {
	for _, v := range list {
		if v == s {
			return true
		}
	}
	return false
}
""")
    M('v-cmd-slice-m-'+pk,'C17',F,'o.mode != "" && o.mode != "normal" && o.mode != "search" && o.mode != "extended"','!contains(validModes, o.mode)',F,None,"""
var validModes = []string{"", "normal", "search", "extend"}

func contains(list []string, s string) bool {
	for _, v := range list {
		if v == s {
			return true
		}
	}
	return false
}
""")
    R('v-cmd-pred-'+pk,F,'o.mode != "" && o.mode != "normal" && o.mode != "search" && o.mode != "extended"','!isMode(o.mode)',F,None,"""
func isMode(s string) bool {
	for _, v := range []string{"normal", "search", "extended"} {
		if v == s {
			return true
		}
	}
	return s == ""
}
""")
R('v-api-map','cmd/server/api.go',None,"""
var apiModes = map[string]tokenizer.TokenizeMode{
	"Search":   tokenizer.Search,
	"Extended": tokenizer.Extended,
}
""",'cmd/server/api.go',"""	mode := tokenizer.Normal
	switch req.Mode {
	case "Search":
		mode = tokenizer.Search
	case "Extended":
		mode = tokenizer.Extended
	}
""","""	mode, ok := apiModes[req.Mode]
	if !ok {
		mode = tokenizer.Normal
	}
""")
