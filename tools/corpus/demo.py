D='cmd/server/demo.go'
DG='''	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-ctx.Done(): // Wait lasts as long as any descendant of the killed process holds the pipes.
		err = ctx.Err()
	}
	if err != nil {
		return nil, "", fmt.Errorf("process done with error, %w", err)
	}
'''
DST='''	if err := cmd.Start(); err != nil {
		return nil, "", fmt.Errorf("process start error, %w", err)
	}
'''
NR='''	if v := strings.Join(t.POS(), ","); v != "" {
		ret.POS = v
	}
	if v, ok := t.BaseForm(); ok {
		ret.BaseForm = v
	}
	if v, ok := t.Reading(); ok {
		ret.Reading = v
	}
	if v, ok := t.Pronunciation(); ok {
		ret.Pronunciation = v
	}
'''
TR='''	ret := make([]record, 0, len(tokens))
	for _, t := range tokens {
		if t.ID == tokenizer.BosEosID {
			continue
		}
		ret = append(ret, newRecord(t))
	}
	return ret
'''
GH='cmd/server/asset/graph.html'; DH='cmd/server/asset/demo.html'
EXG='''	if err := graphT.Execute(w, struct {
		Sentence string
		Tokens   []record
		CmdErr   string
		GraphSVG template.HTML
		Mode     string
	}{
		Sentence: sen,
		Tokens:   records,
		CmdErr:   cmdErr,
		GraphSVG: template.HTML(svg),
		Mode:     mode,
	}); err != nil {
		http.Error(w, err.Error(), http.StatusInternalServerError)
	}
'''
ERRB='''	if err != nil {
		cmdErr = "Error: " + err.Error()
		if errors.Is(err, context.DeadlineExceeded) {
			cmdErr = "Error: graphviz time out"
		}
	}
'''
M('d-swap','C20',D,'ret.Reading = v','ret.Pronunciation = v')
M('d-star','C20',D,'Reading:       "*"','Reading:       ""')
M('d-posstar','C20',D,'	if v := strings.Join(t.POS(), ","); v != "" {\n		ret.POS = v\n	}\n','	ret.POS = strings.Join(t.POS(), ",")\n')
M('d-possep','C20',D,'strings.Join(t.POS(), ",")','strings.Join(t.POS(), "/")')
M('d-poscut','C20',D,'strings.Join(t.POS(), ",")','strings.Join(t.POS()[:len(t.POS())/2], ",")')
M('d-skip','C20',D,'t.ID == tokenizer.BosEosID','t.Class == tokenizer.DUMMY')
M('d-skip2','C20',D,'t.ID == tokenizer.BosEosID','t.ID == tokenizer.BosEosID || t.Class == tokenizer.UNKNOWN')
M('d-first','C20',D,'range tokens {','range tokens[1:] {')
M('d-html','C20',D,'		Sentence string\n		Tokens','		Sentence template.HTML\n		Tokens',D,'		Sentence: sen,\n		Tokens','		Sentence: template.HTML(sen),\n		Tokens')
M('d-html2','C20',D,'		CmdErr   string','		CmdErr   template.HTML',D,'		CmdErr:   cmdErr','		CmdErr:   template.HTML(cmdErr)')
M('d-html3','C20',D,'	Surface       string','	Surface       template.HTML',D,'		Surface:       t.Surface','		Surface:       template.HTML(t.Surface)')
M('d-svg','C20',D,'template.HTML(svg)','template.HTML(svg + "<!-- " + sen + " -->")')
M('d-svgcomment','C20',D,'	if pos := strings.Index(svg, "<svg")','	svg = strings.ReplaceAll(svg, "%s", sen)\n	if pos := strings.Index(svg, "<svg")')
M('d-text','C20',D,'	"html/template"','	"text/template"',D,'GraphSVG template.HTML','GraphSVG string',D,'template.HTML(svg)','svg')
M('d-funcs','C20',D,'template.New("graph").Parse','template.New("graph").Funcs(template.FuncMap{"raw": func(s string) template.HTML { return template.HTML(s) }}).Parse',GH,'{{.Sentence}}','{{raw .Sentence}}')
M('d-fprint','C20',D,'	if err := graphT.Execute(w, struct','	_, _ = w.Write([]byte("<!-- " + sen + " -->"))\n	if err := graphT.Execute(w, struct')
M('d-colorder','C20',GH,'<td>{{.Reading}}</td>\n      <td>{{.Pronunciation}}</td>','<td>{{.Pronunciation}}</td>\n      <td>{{.Reading}}</td>')
M('d-colif','C20',GH,'<td>{{.Reading}}</td>','<td>{{if .BaseForm}}{{.Reading}}{{end}}</td>')
M('d-noerr','C20',GH,'    {{if .CmdErr}}\n    <strong>{{.CmdErr}}</strong>\n    {{end}}\n','')
M('d-errif','C20',GH,'{{if .CmdErr}}','{{if .Tokens}}')
M('d-svgif','C20',GH,'{{if .GraphSVG}}','{{if .CmdErr}}')
M('d-missing','C20',GH,'{{.Mode}}','{{.Modes}}')
M('d-script','C20',DH,'row.append($("<td>").text(String(v)));','row.append("<td>" + v + "</td>");')
M('d-script2','C20',DH,'$("#morphs").append(row);','$("#morphs").append(row);\n document.getElementById("center").title = "x"; document.getElementById("morphs").innerHTML += val.surface;')
M('d-script3','C20',DH,'.text(String(v))','.html(String(v))')
M('d-errdrop','C20',D,'		err = ctx.Err()\n','')
M('d-errdrop2','C20',D,ERRB,ERRB.replace('		if errors.Is(err, context.DeadlineExceeded) {\n			cmdErr = "Error: graphviz time out"\n','		if errors.Is(err, context.DeadlineExceeded) {\n			cmdErr = ""\n'))
M('d-errdrop3','C20',D,ERRB,'	if err != nil && ctx.Err() == nil {\n		cmdErr = "Error: " + err.Error()\n	}\n',D,'	var cmdErr string\n','	var cmdErr string\n	ctx := r.Context()\n')
M('d-waiterr','C20',D,'	case err = <-done:','	case <-done:')
M('d-early','C20',D,DG+'	svg = b.String()\n','	svg = b.String()\n'+DG)
M('d-order','C20',D,'	tokens := h.tokenizer.AnalyzeGraph(&dot, sen, mode)\n','',D,'	done := make(chan error, 1)\n','	tokens := h.tokenizer.AnalyzeGraph(&dot, sen, mode)\n	done := make(chan error, 1)\n')
M('d-in','C20',D,'	cmd.Stdin = &dot\n','	cmd.Stdin = strings.NewReader(sen)\n')
M('d-mode','C05',D,'case "Search", "Extended":','case "Search":')
M('d-mode2','C05',D,'		m = tokenizer.Search\n','		m = tokenizer.Extended\n')
M('d-sen','C20',D,'r.Context(), sen, m)','r.Context(), strings.TrimSpace(sen), m)')
M('d-mode3','C05',D,'h.tokenizer.AnalyzeGraph(&dot, sen, mode)','h.tokenizer.AnalyzeGraph(&dot, sen, tokenizer.Normal)',D,'mode tokenizer.TokenizeMode)','_ tokenizer.TokenizeMode)')
M('p-noctx','C22',D,'exec.CommandContext(ctx, graphvizCmd','exec.Command(graphvizCmd')
M('p-bg','C22',D,'ctx, cancel := context.WithTimeout(ctx, cmdTimeout)','ctx, cancel := context.WithTimeout(context.Background(), cmdTimeout)')
M('p-notime','C22',D,'context.WithTimeout(ctx, cmdTimeout)','context.WithCancel(ctx)',D,'	cmdTimeout  = 25 * time.Second\n','',D,'	"time"\n','')
M('p-run','C22',D,DST+DG,'	if err := cmd.Run(); err != nil {\n		return nil, "", fmt.Errorf("process done with error, %w", err)\n	}\n')
M('p-nowait','C22',D,'	case err = <-done:\n	case <-ctx.Done(): // Wait lasts as long as any descendant of the killed process holds the pipes.\n		err = ctx.Err()\n','	case err = <-done:\n')
M('p-chan','C22',D,'make(chan error, 1)','make(chan error)')
M('p-pipe','C22',D,'	var dot, b bytes.Buffer\n	tokens := h.tokenizer.AnalyzeGraph(&dot, sen, mode)\n','	var b bytes.Buffer\n',D,'	cmd.Stdin = &dot\n','	stdin, err := cmd.StdinPipe()\n	if err != nil {\n		return nil, "", err\n	}\n',D,'	done := make(chan error, 1)\n','	tokens := h.tokenizer.AnalyzeGraph(stdin, sen, mode)\n	stdin.Close()\n	done := make(chan error, 1)\n')
M('p-cancel','C22',D,'	defer cancel()\n','	_ = cancel\n')
M('p-cancelnow','C22',D,DST,DST+'	cancel()\n')
M('p-rctx','C22',D,'h.analyzeGraph(r.Context(),','h.analyzeGraph(context.Background(),')
M('p-donebg','C22',D,'	case <-ctx.Done(): //','	case <-context.Background().Done(): //')
M('p-recv','C22',D,DG,DG.replace('		err = ctx.Err()\n','		err = <-done\n'))
M('p-zombie','C22',D,'	go func() { done <- cmd.Wait() }()\n','	go func() { done <- nil }()\n')
R('rd-rec',D,NR,'''	star := func(v string, ok bool) string {
		if !ok {
			return "*"
		}
		return v
	}
	if pos := t.POS(); strings.Join(pos, ",") != "" {
		ret.POS = strings.Join(pos, ",")
	}
	ret.BaseForm = star(t.BaseForm())
	ret.Reading = star(t.Reading())
	ret.Pronunciation = star(t.Pronunciation())
''')
R('rd-loop',D,TR,'''	var ret []record
	for i := 0; i < len(tokens); i++ {
		if tokens[i].ID != tokenizer.BosEosID {
			ret = append(ret, newRecord(tokens[i]))
		}
	}
	return ret
''')
R('rd-rename',D,'	Pronunciation string\n}','	Pron          string\n}',D,'		Pronunciation: "*",','		Pron:          "*",',D,'ret.Pronunciation = v','ret.Pron = v',GH,'{{.Pronunciation}}','{{.Pron}}')
R('rd-render',D,EXG,'''	renderGraph(w, graphPage{Sentence: sen, Tokens: records, CmdErr: cmdErr, GraphSVG: template.HTML(svg), Mode: mode})
''',D,None,'''
type graphPage struct {
	Sentence string
	Tokens   []record
	CmdErr   string
	GraphSVG template.HTML
	Mode     string
}

func renderGraph(w http.ResponseWriter, p graphPage) {
	if err := graphT.Execute(w, p); err != nil {
		http.Error(w, err.Error(), http.StatusInternalServerError)
	}
}
''')
R('rd-ptr',D,EXG,'''	p := &graphPage{Sentence: sen, Tokens: records, CmdErr: cmdErr, GraphSVG: template.HTML(svg)}
	p.Mode = mode
	if err := graphT.Execute(w, p); err != nil {
		http.Error(w, err.Error(), http.StatusInternalServerError)
	}
''',D,None,'''
type graphPage struct {
	Sentence string
	Tokens   []record
	CmdErr   string
	GraphSVG template.HTML
	Mode     string
}
''')
R('rd-buf',D,EXG,EXG.replace('	if err := graphT.Execute(w, struct','	var page bytes.Buffer\n	if err := graphT.Execute(&page, struct').replace('StatusInternalServerError)\n','StatusInternalServerError)\n		return\n')+'	_, _ = w.Write(page.Bytes())\n')
R('rd-buf2',D,EXG,EXG.replace('	if err := graphT.Execute(w, struct','	var page bytes.Buffer\n	if err := graphT.Execute(&page, struct').replace('StatusInternalServerError)\n','StatusInternalServerError)\n		return\n')+'	_, _ = page.WriteTo(w)\n')
R('rd-handlers',D,'	if lattice == "" {\n		if err := demoT','	if lattice == "" {\n		h.serveDemo(w, sen, mode)\n		return\n	}\n	h.serveGraph(w, r, sen, mode)\n}\n\nfunc (h *TokenizeDemoHandler) serveDemo(w http.ResponseWriter, sen, mode string) {\n	{\n		if err := demoT',D,'''		return
	}

	m := tokenizer.Normal
''','''	}
}

func (h *TokenizeDemoHandler) serveGraph(w http.ResponseWriter, r *http.Request, sen, mode string) {
	m := tokenizer.Normal
''')
R('rd-mode',D,'''	m := tokenizer.Normal
	switch mode {
	case "Search", "Extended": // Extended uses search mode
		m = tokenizer.Search
	}
''','''	m := tokenizer.Normal
	if mode == "Search" || mode == "Extended" {
		m = tokenizer.Search
	}
''')
R('rd-err',D,ERRB,'''	switch {
	case err == nil:
	case errors.Is(err, context.DeadlineExceeded):
		cmdErr = "Error: graphviz time out"
	default:
		cmdErr = fmt.Sprintf("Error: %v", err)
	}
''')
R('rd-svg',D,'''	if pos := strings.Index(svg, "<svg"); pos > 0 {
		svg = svg[pos:]
	}
''','''	if pos := strings.Index(svg, "<svg"); pos >= 0 {
		svg = svg[pos:]
	}
''')
R('rd-wait',D,DG,'''	done := make(chan error, 1)
	go func() {
		defer close(done)
		done <- cmd.Wait()
	}()
	select {
	case <-ctx.Done():
		return nil, "", fmt.Errorf("process done with error, %w", ctx.Err())
	case err := <-done:
		if err != nil {
			return nil, "", fmt.Errorf("process done with error, %w", err)
		}
	}
''')
R('rd-waitfn',D,DG,'''	if err := wait(ctx, cmd); err != nil {
		return nil, "", fmt.Errorf("process done with error, %w", err)
	}
''',D,None,'''
func wait(ctx context.Context, cmd *exec.Cmd) error {
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		return err
	case <-ctx.Done():
		return ctx.Err()
	}
}
''')
R('rd-delay',D,DST+DG,'''	cmd.WaitDelay = time.Second
	if err := cmd.Run(); err != nil {
		return nil, "", fmt.Errorf("process done with error, %w", err)
	}
''')
R('rd-reader',D,'	cmd.Stdin = &dot\n','	cmd.Stdin = bytes.NewReader(dot.Bytes())\n')
R('rd-look',D,'''	if _, err := exec.LookPath(graphvizCmd); err != nil {
		return nil, "", errors.New("circo/graphviz is not installed in your $PATH")
	}
	ctx, cancel''','''	path, err := exec.LookPath(graphvizCmd)
	if err != nil {
		return nil, "", fmt.Errorf("graphviz is not installed in your $PATH: %w", err)
	}
	ctx, cancel''',D,'exec.CommandContext(ctx, graphvizCmd,','exec.CommandContext(ctx, path,')
R('rd-lit',D,'''		GraphSVG: template.HTML(svg),
		Mode:     mode,
	})''','''		Mode:     mode,
		GraphSVG: template.HTML(svg),
	})''')
R('rd-hdr',D,'	sen := r.FormValue("s")\n','	w.Header().Set("Content-Type", "text/html; charset=utf-8")\n	sen := r.FormValue("s")\n')
R('rd-parallel',D,'	records = toRecords(tokens)\n	return records, svg, nil\n','	return toRecords(tokens), svg, nil\n')
