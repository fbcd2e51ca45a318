T='cmd/tokenize/cmd.go'
S='cmd/sentence/cmd.go'
L='cmd/lattice/cmd.go'
SV='cmd/server/cmd.go'
K='kagome.go'
# --- options and validation
M('c-tflagdef','C17',T,'"sysdict", "ipa", "system','"sysdict", "uni", "system')
M('c-tsimpledef','C17',T,'"simple", false','"simple", true')
M('c-tmodeset','C17',T,'&& o.mode != "extended" {','&& o.mode != "extended" && o.mode != "ext" {')
M('c-tsysset','C17',T,'if o.sysdict != "" && o.sysdict != "ipa"','if o.sysdict != "" && o.sysdict != "neo" && o.sysdict != "ipa"')
M('c-tnonflag','C17',T,'len(nonFlag) != 0','len(nonFlag) > 1')
M('c-tswap','C17',T,'StringVar(&o.udict, "udict"','StringVar(&o.dict, "udict"')
M('c-textset','C05 C17',T,'	case "extended":\n		return tokenizer.Extended','	case "extended":\n		return tokenizer.Search')
M('c-lmode','C05 C17',L,'	case "search":\n		return tokenizer.Search','	case "search":\n		return tokenizer.Extended')
M('c-ldict','C17',L,'	case "uni":\n		return uni.Dict(), nil','	case "uni":\n		return uni.DictShrink(), nil')
M('c-tshrink','C17',T,'''			return uni.DictShrink(), nil''','''			return uni.Dict(), nil''')
M('c-tshrink2','C17',T,'''		if shrink {
			return dict.LoadShrink(path)
		}
		return dict.LoadDictFile(path)''','''		return dict.LoadDictFile(path)''')
M('c-tdictprec','C17',T,'	if path != "" {\n		if shrink','	if path != "" && sysdict != "uni" {\n		if shrink')
M('c-tudict','C17',T,'		udict = tokenizer.UserDict(d)','		_ = d')
M('c-ludict','C17',L,'		udict = tokenizer.UserDict(d)','		_ = d')
M('c-tsplit','C17 C18',T,'	if opt.split {','	if opt.split && opt.file != "" {')
M('c-tjson','C18',T,'		if !opt.json {','		if !opt.json || opt.simple {')
M('c-lverb','C17 C18',L,'	if opt.verbose {','	if opt.verbose && opt.output == "" {')
M('c-lout','C17 C16',L,'		out = f\n','')
M('c-lflags','C16 C17',L,'os.O_RDWR|os.O_TRUNC|os.O_CREATE','os.O_RDWR|os.O_CREATE')
M('c-linput','C17 C18 C05',L,'strings.Join(o.flagSet.Args(), " ")','strings.Join(o.flagSet.Args(), "")')
M('c-checkdiff','C17',T,'''	opt := newOption(io.Discard, flag.ContinueOnError)
	if err := opt.parse(args); err != nil {''','''	opt := newOption(io.Discard, flag.ContinueOnError)
	if err := opt.flagSet.Parse(args); err != nil {''')
M('c-serverhandling','C17',SV,'	opt := newOption(Stderr, flag.ContinueOnError)\n	if err := opt.parse(args); err != nil {\n		Usage()','	opt := newOption(Stderr, flag.ExitOnError)\n	if err := opt.parse(args); err != nil {\n		Usage()')
# --- failures
M('c-topen','C16',T,'''		fp, err = os.Open(opt.file)
		if err != nil {
			return err
		}''','''		fp, err = os.Open(opt.file)
		if err != nil {
			return nil
		}''')
M('c-tclose','C16',T,'''		defer func() {
			_ = fp.Close()
		}()''','')
M('c-serr','C16',S,'return scanner.Err()','return nil')
M('c-terr','C16',T,'return s.Err()','_ = s.Err()\n	return nil')
M('c-tjsonerr','C16',T,'''		if err := printTokensJSON(tokens); err != nil {
			return err
		}''','''		if err := printTokensJSON(tokens); err != nil {
			continue
		}''')
M('c-tmarshal','C16',T,'''		if err != nil {
			return err
		}
		array = append(array, obj)''','''		if err != nil {
			continue
		}
		array = append(array, obj)''')
M('c-tnew','C16',T,'''	t, err := tokenizer.New(d, udict)
	if err != nil {
		return err
	}''','''	t, err := tokenizer.New(d, udict)
	if err != nil {
		return nil
	}''')
M('c-lflush','C16',L,'''	if err := w.Flush(); err != nil {
		return err
	}''','	w.Flush()')
M('c-lshadow','C16',L,'''		f, ferr := os.OpenFile(opt.output, os.O_RDWR|os.O_TRUNC|os.O_CREATE, 0o600)
		if ferr != nil {
			return ferr
		}''','''		f, err := os.OpenFile(opt.output, os.O_RDWR|os.O_TRUNC|os.O_CREATE, 0o600)
		if err != nil {
			return err
		}''')
M('c-ludicterr','C16',L,'''		d, err := dict.NewUserDict(opt.udict)
		if err != nil {
			return err
		}''','''		d, err := dict.NewUserDict(opt.udict)
		if err != nil {
			return fmt.Errorf("user dictionary, %w", os.ErrNotExist).(interface{ Unwrap() error }).Unwrap()
		}
		err = nil''')
M('c-vparse','C16 C17',SV,'		return fmt.Errorf("option parse error: %w", err)','		return nil')
M('c-parsenil','C16 C17',L,'''		PrintDefaults(flag.ContinueOnError)
		return err
	}''','''		PrintDefaults(flag.ContinueOnError)
		if err == flag.ErrHelp {
			return nil
		}
		return err
	}''')
# --- output
M('c-tdummy','C18',T,'if v.Class != tokenizer.DUMMY {','if v.Class == tokenizer.KNOWN {')
M('c-tdummy2','C18',T,'if v.Class != tokenizer.DUMMY {','if len(v.Surface) > 1 {')
M('c-teos','C18',T,'	w.WriteString("EOS\\n")','	if len(tokens) > 2 {\n		w.WriteString("EOS\\n")\n	}')
M('c-tsep','C18',T,'strings.Join(v.Features(), ",")','strings.Join(v.POS(), ",")')
M('c-tflush','C18',T,'''	w := bufio.NewWriter(Stdout)
	defer w.Flush()
	for _, v := range tokens {''','''	w := bufio.NewWriter(Stdout)
	if len(tokens) > 0 {
		defer w.Flush()
	}
	for _, v := range tokens[:len(tokens):len(tokens)] {''')
M('c-tskip','C18',T,'''		if v.ID == tokenizer.BosEosID {
			continue
		}
		w.WriteString(v.Surface)''','''		if v.Class == tokenizer.DUMMY {
			continue
		}
		w.WriteString(v.Surface)''')
M('c-tjskip','C18',T,'''		if v.ID == tokenizer.BosEosID {
			continue
		}
		r := token''','''		if v.ID == tokenizer.BosEosID || v.Surface == "" {
			continue
		}
		r := token''')
M('c-tjopen','C18',T,'	if len(tokens) > 0 {\n		w.WriteString("[\\n")','	if len(tokens) > 1 {\n		w.WriteString("[\\n")')
M('c-tjsep','C18',T,'[]byte(",\\n")','[]byte("\\n")')
M('c-tjtok','C18',T,'r := tokenizer.NewTokenData(v)','r := v')
M('c-lvfrom','C18',L,'i, size := 1, len(tokens)','i, size := 1, len(tokens)-1')
M('c-lvtab','C18',L,'"%s\\t%v\\n"','"%s %v\\n"')
M('c-sline','C18',S,'Fprintln(','Fprint(')
M('c-tempty','C18',T,'		tokens := t.Analyze(s.Text(), mode)','		if s.Text() == "" {\n			continue\n		}\n		tokens := t.Analyze(s.Text(), mode)')
M('c-ttrim','C18 C05',T,'t.Analyze(s.Text(), mode)','t.Analyze(strings.TrimSpace(s.Text()), mode)')
# --- main
M('m-exit','C16',K,'''		fmt.Fprintf(errorWriter, "%v\\n", err)
		os.Exit(1)''','''		fmt.Fprintf(errorWriter, "%v\\n", err)
		return''')
M('m-print','C16',K,'''		fmt.Fprintf(errorWriter, "%v\\n", err)
		os.Exit(1)''','''		os.Exit(1)''')
M('m-args','C17',K,'options = os.Args[2:]','options = os.Args[1:]')
M('m-table','C17',K,'''			Name:          lattice.CommandName,
			Description:   lattice.Description,
			Run:           lattice.Run,''','''			Name:          lattice.CommandName,
			Description:   lattice.Description,
			Run:           sentence.Run,''')
M('m-default','C17',K,'defaultSubcommand = subcommands[0]','defaultSubcommand = subcommands[3]')
M('m-usage0','C16',K,'''			defaultSubcommand.PrintDefaults(flag.ExitOnError)
			os.Exit(1)''','''			defaultSubcommand.PrintDefaults(flag.ExitOnError)
			os.Exit(0)''')
M('m-loop','C17',K,'for i := range subcommands {\n			if os','for i := range subcommands[:4] {\n			if os')
M('m-name','C17',L,'"lattice"','"graph"')
M('m-prefix','C17',K,'if os.Args[1] == subcommands[i].Name {','if strings.HasPrefix(subcommands[i].Name, os.Args[1]) {')
# --- refactorings
R('r-tif',T,'''		if !opt.json {
			printTokens(tokens)
			continue
		}
		if err := printTokensJSON(tokens); err != nil {
			return err
		}''','''		if opt.json {
			err := printTokensJSON(tokens)
			if err != nil {
				return err
			}
		} else {
			printTokens(tokens)
		}''')
R('r-tprint',T,'''		w.WriteString(v.Surface)
		if v.Class != tokenizer.DUMMY {
			w.WriteString("\\t")
			w.WriteString(strings.Join(v.Features(), ","))
		}
		w.WriteString("\\n")''','''		if v.Class == tokenizer.DUMMY {
			fmt.Fprintln(w, v.Surface)
			continue
		}
		fmt.Fprintf(w, "%s\\t%s\\n", v.Surface, strings.Join(v.Features(), ","))''')
R('r-tprint2',T,'''		w.WriteString(v.Surface)
		if v.Class != tokenizer.DUMMY {
			w.WriteString("\\t")
			w.WriteString(strings.Join(v.Features(), ","))
		}
		w.WriteString("\\n")''','''		line := v.Surface
		if v.Class != tokenizer.DUMMY {
			line += "\\t" + strings.Join(v.Features(), ",")
		}
		w.WriteString(line + "\\n")''')
R('r-tscan',T,'''	for s.Scan() {
		tokens''','''	for {
		if !s.Scan() {
			break
		}
		tokens''')
R('r-tmode',T,'''	switch mode {
	case "normal":
		return tokenizer.Normal
	case "search":
		return tokenizer.Search
	case "extended":
		return tokenizer.Extended
	}
	return tokenizer.Normal''','''	if mode == "search" {
		return tokenizer.Search
	}
	if mode == "extended" {
		return tokenizer.Extended
	}
	return tokenizer.Normal''')
R('r-tmodemap',T,'''	if o.mode != "" && o.mode != "normal" && o.mode != "search" && o.mode != "extended" {
		return fmt.Errorf("invalid argument: -mode %v", o.mode)
	}''','''	switch o.mode {
	case "", "normal", "search", "extended":
	default:
		return fmt.Errorf("invalid argument: -mode %v", o.mode)
	}''')
R('r-terr',T,'return s.Err()','if err := s.Err(); err != nil {\n		return fmt.Errorf("read error, %w", err)\n	}\n	return nil')
R('r-tjson',T,'''	for _, v := range tokens {
		if v.ID == tokenizer.BosEosID {
			continue
		}
		r := tokenizer.NewTokenData(v)
		obj, err := json.Marshal(r)
		if err != nil {
			return err
		}
		array = append(array, obj)
	}
	w.Write(''','''	for i := range tokens {
		if tokens[i].ID != tokenizer.BosEosID {
			obj, err := json.Marshal(tokenizer.NewTokenData(tokens[i]))
			if err != nil {
				return fmt.Errorf("encode: %w", err)
			}
			array = append(array, obj)
		}
	}
	w.Write(''')
R('r-lverb',L,'''		for i, size := 1, len(tokens); i < size; i++ {
			tok := tokens[i]
			f := tok.Features()''','''		for i, tok := range tokens {
			if i == 0 {
				continue
			}
			f := tok.Features()''')
R('r-lverb2',L,'''			if tok.Class == tokenizer.DUMMY {
				fmt.Fprintf(Stderr, "%s\\n", tok.Surface)
			} else {
				fmt.Fprintf(Stderr, "%s\\t%v\\n", tok.Surface, strings.Join(f, ","))
			}''','''			fmt.Fprint(Stderr, tok.Surface)
			if tok.Class != tokenizer.DUMMY {
				fmt.Fprint(Stderr, "\\t", strings.Join(f, ","))
			}
			fmt.Fprintln(Stderr)''')
R('r-lopen',L,'''		f, ferr := os.OpenFile(opt.output, os.O_RDWR|os.O_TRUNC|os.O_CREATE, 0o600)''','''		f, ferr := os.OpenFile(opt.output, os.O_WRONLY|os.O_TRUNC|os.O_CREATE, 0o600)''')
R('r-smain',S,'''	if opt.file != "" {
		var err error
		fp, err = os.Open(opt.file)
		if err != nil {
			return err
		}
		defer func() {
			_ = fp.Close()
		}()
	}''','''	if opt.file != "" {
		f, err := os.Open(opt.file)
		if err != nil {
			return fmt.Errorf("open %v, %w", opt.file, err)
		}
		defer f.Close()
		fp = f
	}''')
R('r-main',K,'''		for i := range subcommands {
			if os.Args[1] == subcommands[i].Name {
				run = subcommands[i].Run
			}
		}''','''		for _, c := range subcommands {
			if c.Name != os.Args[1] {
				continue
			}
			run = c.Run
			break
		}''')
R('r-main2',K,'''	if err := run(context.Background(), options); err != nil {
		fmt.Fprintf(errorWriter, "%v\\n", err)
		os.Exit(1)
	}''','''	err := run(context.Background(), options)
	if err == nil {
		return
	}
	fmt.Fprintln(errorWriter, err)
	os.Exit(1)''')
R('r-helper',L,'''	w := bufio.NewWriter(out)
	tokens := t.AnalyzeGraph(w, opt.input, mode)
	if err := w.Flush(); err != nil {
		return err
	}
	if opt.verbose {
''','''	w := bufio.NewWriter(out)
	tokens := t.AnalyzeGraph(w, opt.input, mode)
	if err := w.Flush(); err != nil {
		return err
	}
	if opt.verbose {
		// tokens after BOS
''')
