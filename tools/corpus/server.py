A='cmd/server/api.go'
D='cmd/server/demo.go'
SC='cmd/server/cmd.go'
OKS='''	if req.Input == "" {
		w.Write([]byte(`{"status":true,"tokens":[]}`))
		return
	}
'''
TD='''	var tokenData []tokenizer.TokenData
	for _, v := range tokens {
		if v.ID == tokenizer.BosEosID {
			continue
		}
		tokenData = append(tokenData, tokenizer.NewTokenData(v))
	}
'''
RS='''	resp, err := json.Marshal(TokenizerResponseBody{
		Status: true,
		Tokens: tokenData,
	})
	if err != nil {
		http.Error(w, errorBody(err), http.StatusInternalServerError)
		return
	}
	w.WriteHeader(http.StatusOK)
	w.Write(resp)
'''
DE='''	if err := json.NewDecoder(r.Body).Decode(&req); err != nil {
		http.Error(w, errorBody(err), http.StatusBadRequest)
		return
	}
'''
M('a-noret','C19',A,DE,DE.replace('		return\n',''))
M('a-code','C19',A,'StatusBadRequest','StatusOK')
M('a-quote','C19',A,'''	msg, _ := json.Marshal(err.Error()) // a string can always be marshaled.
	return fmt.Sprintf("{\\"status\\":false,\\"error\\":%s}", msg)''','''	_ = json.Marshal
	return fmt.Sprintf("{\\"status\\":false,\\"error\\":\\"%s\\"}", err.Error())''')
M('a-quoteq','C19',A,'''	msg, _ := json.Marshal(err.Error()) // a string can always be marshaled.
	return fmt.Sprintf("{\\"status\\":false,\\"error\\":%s}", msg)''','''	_ = json.Marshal
	return fmt.Sprintf("{\\"status\\":false,\\"error\\":%q}", err.Error())''')
M('a-null','C19',A,OKS,'')
M('a-empty','C19',A,'`{"status":true,"tokens":[]}`','`{"status":true,"tokens":null}`')
M('a-emptyst','C19',A,'`{"status":true,"tokens":[]}`','`{"status":false,"tokens":[]}`')
M('a-brace','C19',A,'`{"status":true,"tokens":[]}`','`{"status":true,"tokens":[]`')
M('a-bos','C19',A,TD,TD.replace('v.ID == tokenizer.BosEosID','v.Class == tokenizer.DUMMY'))
M('a-skip','C19',A,TD,TD.replace('v.ID == tokenizer.BosEosID','v.ID == tokenizer.BosEosID || v.Surface == " "'))
M('a-mode','C05 C19',A,'case "Search":','case "search", "Search":')
M('a-modex','C05 C19',A,'mode = tokenizer.Extended','mode = tokenizer.Search')
M('a-tag','C19',A,'`json:"sentence"`','`json:"text"`')
M('a-tag2','C19',A,'`json:"status"`','`json:"Status"`')
M('a-status','C19',A,'		Status: true,\n','')
M('a-double','C19',A,'	w.Write(resp)\n','	w.Write(resp)\n	if len(tokenData) == 0 {\n		w.Write([]byte(`{"status":true,"tokens":[]}`))\n	}\n')
M('a-hdr','C19',A,'	w.WriteHeader(http.StatusOK)\n','	if len(tokenData) == 0 {\n		w.WriteHeader(http.StatusNoContent)\n	}\n')
M('a-trim','C19 C05',A,'h.tokenizer.Analyze(req.Input,','h.tokenizer.Analyze(req.Input[:len(req.Input)-len(req.Input)%3],')
M('a-panic','C19',A,DE,DE.replace('		http.Error(w, errorBody(err), http.StatusBadRequest)\n		return','		panic(errorBody(err))'))
M('a-query','C19',A,'	tokens := h','	if v := r.URL.Query().Get("mode"); v != "" {\n		mode = tokenizer.Search\n	}\n	tokens := h')
R('ra-list',A,TD,'''	tokenData := make([]tokenizer.TokenData, 0, len(tokens))
	for i := range tokens {
		if tokens[i].ID != tokenizer.BosEosID {
			tokenData = append(tokenData, tokenizer.NewTokenData(tokens[i]))
		}
	}
''')
R('ra-emptylist',A,OKS,'',A,TD,'''	tokenData := make([]tokenizer.TokenData, 0, len(tokens))
	for i := range tokens {
		if tokens[i].ID != tokenizer.BosEosID {
			tokenData = append(tokenData, tokenizer.NewTokenData(tokens[i]))
		}
	}
''')
R('ra-nohdr',A,'	w.WriteHeader(http.StatusOK)\n','')
R('ra-ptr',A,'json.Marshal(TokenizerResponseBody{','json.Marshal(&TokenizerResponseBody{')
R('ra-empty2',A,OKS,'''	if len(req.Input) == 0 {
		io.WriteString(w, `{"status":true,`+`"tokens":[]}`)
		return
	}
''',A,'"fmt"','"fmt"\n	"io"')
R('ra-empty3',A,OKS,'''	if req.Input == "" {
		b, _ := json.Marshal(TokenizerResponseBody{Status: true, Tokens: []tokenizer.TokenData{}})
		w.Write(b)
		return
	}
''')
R('ra-err',A,'''	msg, _ := json.Marshal(err.Error()) // a string can always be marshaled.
	return fmt.Sprintf("{\\"status\\":false,\\"error\\":%s}", msg)''','''	msg, _ := json.Marshal(err.Error())
	return `{"status":false,"error":` + string(msg) + "}"''',A,'	"fmt"\n','')
R('ra-err2',A,'''	msg, _ := json.Marshal(err.Error()) // a string can always be marshaled.
	return fmt.Sprintf("{\\"status\\":false,\\"error\\":%s}", msg)''','''	b, _ := json.Marshal(struct {
		Status bool   `json:"status"`
		Error  string `json:"error"`
	}{false, err.Error()})
	return string(b)''',A,'	"fmt"\n','')
R('ra-fn',A,'''	mode := tokenizer.Normal
	switch req.Mode {
	case "Search":
		mode = tokenizer.Search
	case "Extended":
		mode = tokenizer.Extended
	}
	tokens := h.tokenizer.Analyze(req.Input, mode)''','''	tokens := h.tokenizer.Analyze(req.Input, modeOf(req.Mode))''',A,None,'''
func modeOf(s string) tokenizer.TokenizeMode {
	if s == "Extended" {
		return tokenizer.Extended
	} else if s == "Search" {
		return tokenizer.Search
	}
	return tokenizer.Normal
}
''')
R('ra-err400',A,DE,'''	err := json.NewDecoder(r.Body).Decode(&req)
	if err != nil {
		w.WriteHeader(http.StatusBadRequest)
		fmt.Fprintln(w, errorBody(err))
		return
	}
''',A,'resp, err := json','resp, err2 := json',A,RS.replace('resp, err :=','resp, err2 :='),RS.replace('resp, err :=','resp, err2 :=').replace('if err != nil','if err2 != nil').replace('errorBody(err)','errorBody(err2)'))
R('ra-enc',A,RS,'''	json.NewEncoder(w).Encode(TokenizerResponseBody{Status: true, Tokens: tokenData})
''')
# lifecycle
LS='''	ch := make(chan error, 1)
	go func() {
		log.Println(opt.http)
		ch <- srv.ListenAndServe()
	}()
'''
LW='''	select {
	case <-ctx.Done():
		log.Printf("shutdown, %v", ctx.Err())
	case err := <-ch:
		return fmt.Errorf("server error, %w", err)
	}
'''
LE='''	sctx, cancel := context.WithTimeout(context.Background(), shutdownTimeout)
	defer cancel()
	if err := srv.Shutdown(sctx); err != nil {
		return srv.Close()
	}
	return nil
'''
NC='''	ctx, stop := signal.NotifyContext(ctx, syscall.SIGHUP, syscall.SIGINT, syscall.SIGTERM)
'''
M('l-route','C17 C19 C20',SC,'mux.Handle("/tokenize", &TokenizeHandler','mux.Handle("/tokenizer", &TokenizeHandler')
M('l-swap','C17',SC,'mux.Handle("/", &TokenizeDemoHandler{tokenizer: t})\n	mux.Handle("/tokenize", &TokenizeHandler','mux.Handle("/tokenize", &TokenizeDemoHandler{tokenizer: t})\n	mux.Handle("/", &TokenizeHandler')
M('l-addr','C17',SC,'Addr:              opt.http','Addr:              ":6060"')
M('l-noaddr','C17',SC,'		Addr:              opt.http,\n','')
M('l-tok','C17',SC,'	mux.Handle("/tokenize", &TokenizeHandler{tokenizer: t})','	t2, err := tokenizer.New(d)\n	if err != nil {\n		return err\n	}\n	mux.Handle("/tokenize", &TokenizeHandler{tokenizer: t2})')
M('l-nil','C17',SC,'TokenizeHandler{tokenizer: t}','TokenizeHandler{}')
M('l-mux','C17',SC,'		Handler:           mux,\n','')
M('l-chan','C22',SC,'make(chan error, 1)','make(chan error)')
M('l-noclose','C22',SC,LE,'	return nil\n',SC,'const shutdownTimeout','const _')
M('l-closed','C22',SC,'		return srv.Close()\n','		return err\n')
M('l-notime','C22',SC,LE,'	return srv.Shutdown(context.Background())\n',SC,'const shutdownTimeout','const _')
M('l-sctx','C22',SC,'context.WithTimeout(context.Background(), shutdownTimeout)','context.WithCancel(context.Background())')
M('l-cancel','C22',SC,'	defer cancel()\n	if err := srv','	_ = cancel\n	if err := srv')
M('l-nosig','C22',SC,NC+'	defer stop()\n','',SC,'	"os/signal"\n	"syscall"\n','')
M('l-noterm','C22',SC,', syscall.SIGTERM)',')')
M('l-bg','C22',SC,'signal.NotifyContext(ctx,','signal.NotifyContext(context.Background(),')
M('l-err','C22',SC,'		return fmt.Errorf("server error, %w", err)\n','		log.Println(err)\n		return nil\n')
M('l-recv','C22',SC,LW,'''	if err := <-ch; err != nil {
		return fmt.Errorf("server error, %w", err)
	}
''')
M('l-onlydone','C22',SC,LW,'''	<-ctx.Done()
	log.Printf("shutdown, %v", ctx.Err())
''')
M('l-nosend','C22',SC,'		ch <- srv.ListenAndServe()\n','		if err := srv.ListenAndServe(); err != nil && opt.dict == "ipa" {\n			ch <- err\n		}\n')
M('l-sync','C22',SC,LS+'\n'+LW,'	_ = ctx\n	if err := srv.ListenAndServe(); err != nil {\n		return err\n	}\n')
M('l-shutret','C22',SC,'	log.Printf("shutting down HTTP','	if opt.udict != "" {\n		return nil\n	}\n	log.Printf("shutting down HTTP')
M('l-other','C22',SC,'	if err := srv.Shutdown(sctx)','	other := &http.Server{Addr: opt.http}\n	if err := other.Shutdown(sctx)')
M('l-doneother','C22',SC,LW,LW.replace('<-ctx.Done()','<-context.Background().Done()'))
R('rl-goerr',SC,LS,'''	ch := make(chan error, 1)
	listen := func() {
		err := srv.ListenAndServe()
		ch <- err
	}
	go listen()
''')
R('rl-newsrv',SC,'	srv := http.Server{\n','	srv := &http.Server{\n')
R('rl-helper',SC,'	mux := http.NewServeMux()\n','	return serve(ctx, opt, t)\n}\n\nfunc serve(ctx context.Context, opt *option, t *tokenizer.Tokenizer) error {\n	mux := http.NewServeMux()\n')
R('rl-mux',SC,'	mux := http.NewServeMux()\n	mux.Handle("/", &TokenizeDemoHandler{tokenizer: t})\n	mux.Handle("/tokenize", &TokenizeHandler{tokenizer: t})\n','	mux := newMux(t)\n',SC,None,'''
func newMux(t *tokenizer.Tokenizer) *http.ServeMux {
	mux := http.NewServeMux()
	api := &TokenizeHandler{tokenizer: t}
	demo := &TokenizeDemoHandler{tokenizer: t}
	mux.HandleFunc("/tokenize", api.ServeHTTP)
	mux.Handle("/", demo)
	return mux
}
''')
R('rl-loop',SC,'	mux.Handle("/", &TokenizeDemoHandler{tokenizer: t})\n	mux.Handle("/tokenize", &TokenizeHandler{tokenizer: t})\n','''	handlers := []struct {
		path string
		h    http.Handler
	}{{"/", &TokenizeDemoHandler{tokenizer: t}}, {"/tokenize", &TokenizeHandler{tokenizer: t}}}
	for _, x := range handlers {
		mux.Handle(x.path, x.h)
	}
''')
R('rl-sel',SC,LW,'''	var err2 error
	select {
	case err2 = <-ch:
	case <-ctx.Done():
	}
	if err2 != nil {
		return fmt.Errorf("server error, %w", err2)
	}
''')
R('rl-shut',SC,LE,'''	sctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	err = srv.Shutdown(sctx)
	cancel()
	if err == nil {
		return nil
	}
	return srv.Close()
''',SC,'const shutdownTimeout','const _')
R('rl-close',SC,LE,'	return srv.Close()\n',SC,'const shutdownTimeout','const _')
R('rl-sig',SC,'syscall.SIGINT,','os.Interrupt,')
R('rl-nc',SC,'	return command(ctx, opt)\n','	return command(ctx, opt)\n',SC,NC+'	defer stop()\n','',SC,'	select {\n	case <-ctx','	ctx, stop := signal.NotifyContext(ctx, syscall.SIGINT, syscall.SIGTERM)\n	defer stop()\n	select {\n	case <-ctx')
R('rl-goparam',SC,LS,'''	ch := make(chan error, 2)
	go func(c chan<- error) {
		defer close(c)
		c <- srv.ListenAndServe()
	}(ch)
''')
R('rl-closed',SC,'		return fmt.Errorf("server error, %w", err)\n','		return errors.Join(errors.New("server"), err)\n',SC,'	"flag"\n','	"errors"\n	"flag"\n')
R('ra-buf',A,RS,'''	var buf bytes.Buffer
	if err := json.NewEncoder(&buf).Encode(TokenizerResponseBody{Status: true, Tokens: tokenData}); err != nil {
		http.Error(w, errorBody(err), http.StatusInternalServerError)
		return
	}
	w.Write(buf.Bytes())
''',A,'	"encoding/json"\n','	"bytes"\n	"encoding/json"\n')
M('a-buf','C19',A,RS,'''	var buf bytes.Buffer
	if err := json.NewEncoder(&buf).Encode(TokenizerResponseBody{Status: true, Tokens: tokenData}); err != nil {
		http.Error(w, errorBody(err), http.StatusInternalServerError)
		return
	}
	buf.WriteString("]")
	w.Write(buf.Bytes())
''',A,'	"encoding/json"\n','	"bytes"\n	"encoding/json"\n')
