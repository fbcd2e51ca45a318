import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=[],observe=[]):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
LAT="tokenizer/lattice/lattice.go";TK="tokenizer/tokenizer.go";TO="tokenizer/token.go"
p("C01","Tokenization is lossless",
 "For every input string (including invalid UTF-8), dictionary, user dictionary and mode, the surfaces of the returned non-BOS/EOS tokens, concatenated in order, are byte for byte the input, and no token in between is empty. Every position of the input can be passed by some candidate word, so the analysis always connects the beginning to the end.",
 ["inputs","configurations"],"all strings x dictionaries x user dictionaries x modes",
 "The stable tests build a handful of short valid strings; the round trip over every string and dictionary content is never sampled, and the tests that tokenize with a real dictionary cannot run here.",
 [LAT,TK,"tokenizer/lattice/node.go"],[("node creation on every rune boundary","(*Lattice).Build, addNode"),("back pointers from EOS to BOS","(*Lattice).Forward, Backward"),("token conversion","Tokenizer.Analyze, AnalyzeGraph")],
 [("list","nodes grouped by the rune position at which they end",LAT)],["Tokenizer.Analyze","Tokenizer.AnalyzeGraph"])
p("C02","Token coordinates are truthful",
 "Every token's surface is exactly the input substring that starts at byte Position; Start and End are the rune offsets of the same substring, and consecutive tokens abut (the next Start equals this End). This holds in all modes, including the single-character tokens of extended mode, and for BOS/EOS, which sit at the two ends of the input.",
 ["inputs","configurations"],"all inputs, tokens and modes",
 "Tests compare a few golden tokens of short BMP strings; multi-byte, 4-byte and invalid sequences at arbitrary offsets are unsampled.",
 [LAT,TK],[("byte/rune cursors kept in lockstep","(*Lattice).Build"),("per-character offsets","(*Lattice).Backward"),("End computation","Tokenizer.Analyze")],[],["Token.Position","Token.Start","Token.End","Token.Surface"])
p("C03","The chosen segmentation has minimal cost",
 "In normal mode the returned segmentation minimises, over all paths through the candidate words, the sum of word costs and of connection costs between neighbours (right context of the left word, left context of the right word; no connection cost next to a user word). Sums saturate instead of overflowing, and a word that cannot be reached from the beginning is never used as a predecessor.",
 ["inputs","configurations"],"all candidate lattices (inputs x dictionaries)",
 "Optimality quantifies over all paths of all lattices; tests check one or two golden outputs and never look at the costs.",
 [LAT],[("Viterbi recurrence and its guards","(*Lattice).Forward"),("back pointers","(*Lattice).Backward"),("cost fields of nodes","addNode")],
 [("Cost/prev","best accumulated cost and predecessor of a node","tokenizer/lattice/node.go")],["(*Lattice).Output","Tokenizer.Analyze"])
p("C04","Search heuristics apply exactly as documented",
 "Search and extended modes add to the cost of following a word 3000 per character beyond the 2nd for words of more than two characters made of ideographs only, and otherwise 1700 per character beyond the 7th for words longer than seven characters; normal mode adds nothing. Only extended mode additionally splits unknown words, and only unknown words, into one token per character.",
 ["inputs","configurations"],"all words and modes",
 "Thresholds and class boundaries are sampled by two or three words; the behaviour at every length, script mix and mode is not.",
 [LAT],[("penalty","additionalCost, kanjiOnly"),("mode guards","Forward, Backward")],[],["Tokenizer.Analyze(Search|Extended)"])
p("C05","Mode selection means the same everywhere",
 "Tokenize, Wakati and Dot analyse in normal mode, and Analyze/AnalyzeGraph in the mode they are given (an unknown mode counts as normal). The mode names accepted by the command line (normal, search, extended) and the HTTP API (Search, Extended, anything else normal) select exactly the mode of that name; the web demo shows search mode for both Search and Extended.",
 ["inputs","configurations"],"all entry points x mode names/values",
 "Tests call a subset of entry point/mode pairs and mostly on inputs where the modes agree.",
 [TK,"cmd/tokenize/cmd.go","cmd/lattice/cmd.go","cmd/server/api.go","cmd/server/demo.go"],[("mode switches","Analyze, AnalyzeGraph, selectMode, ServeHTTP")],[],["public API, CLI, HTTP"])
p("C06","Concurrent use never shares mutable state",
 "A tokenizer, its dictionaries, the filters, the sentence splitter and the HTTP handlers can be used from any number of goroutines at once: no analysing, reading, filtering or serving call writes to memory another call can see (globals, receivers, dictionary data, caller-owned strings), other than the slice it was asked to filter or the object it takes from a pool.",
 ["schedules","histories"],"all interleavings of calls on shared objects",
 "No test runs the API concurrently; a race needs a schedule the tests never produce.",
 ["tokenizer/lattice","tokenizer","filter","filter/ja","cmd/server"],[("per-call lattice from a pool","lattice.New/Free"),("value receivers and read-only dictionaries","tokenizer, filter")],[],["race-free calls"])
p("C07","Results do not depend on earlier analyses",
 "What a call returns depends only on its arguments and the tokenizer's configuration: a lattice or node taken from the memory pool carries nothing over from an earlier analysis (with another input, mode, dictionary or user dictionary), it goes back to the pool exactly once on every path and is not used afterwards, and nothing handed to the caller refers to pooled memory.",
 ["histories","schedules","inputs"],"all sequences of earlier calls and pool states",
 "Pool reuse depends on the history and the garbage collector; tests start from an almost empty pool and check one result at a time.",
 [LAT,"tokenizer/lattice/node.go","tokenizer/lattice/mem/pool.go",TK],[("reset on Free and on node creation","Free, addNode, New"),("deferred Free","Analyze, AnalyzeGraph")],[("latticePool/nodePool","recycled memory",LAT)],["Tokenizer.Analyze"])
p("C08","Callers cannot corrupt the dictionary through results",
 "Slices returned by token accessors (Features, POS, UserExtra) and exports are freshly allocated for that call: writing to them or appending to them never changes what the dictionary, another token or a later call reports.",
 ["histories","inputs"],"all tokens and all later modifications by the caller",
 "Tests never modify a returned slice and look again.",
 [TO],[("copying accessors","Features, POS, UserExtra, NewTokenData")],[],["Token accessors"])
p("C09","Token accessors agree with each other and the dictionary",
 "For every token and index, FeatureAt(i) is the i-th element of Features() and reports absence exactly outside its range (it never panics on a negative or too large index); POS, BaseForm, Reading, Pronunciation and the inflection accessors are the features at the positions the token's own dictionary (system, unknown-word or user) declares for them, and absent when it declares none. EqualFeatures/EqualPOS compare those vectors completely; Equal compares ID, class and surface.",
 ["inputs","configurations"],"all tokens x indices x dictionary layouts",
 "Tests read a few features of a few golden tokens from one dictionary; the class x index x layout product is open, and those that need the dictionary file cannot run here.",
 [TO],[("class switch and bounds","Features, FeatureAt, POS, pickupFromFeatures")],[],["Token methods"])
p("C10","Candidate words follow the dictionary precedence",
 "At each character of the input, user-dictionary words starting there, if any, are the only candidates; otherwise all system-dictionary words starting there are candidates, plus unknown words when no system word matched or the character's category always invokes them. Unknown words carry the first character's category, span the longest run of that category (at most 1024 characters, one character if the category is not grouped) or that run without its last character (unless nothing would be left, or the last character is U+FFFD or an invalid byte), and are added for every entry the unknown dictionary has for the category.",
 ["inputs","configurations"],"all inputs x dictionaries x user dictionaries x category definitions",
 "Tests build lattices with one or two dictionaries and one short input; categories, invoke/group flags, long runs and overlaps are open.",
 [LAT],[("candidate generation","(*Lattice).Build"),("cost and context ids by class","addNode")],[],["lattice content","Tokenizer.Analyze"])
p("C11","BOS/EOS, indices and sibling entry points are consistent",
 "The token list starts with one BOS and ends with one EOS, unless the option to omit them is set, in which case neither appears and nothing else is lost; Index counts the returned tokens 0,1,2,... AnalyzeGraph/Dot return exactly the tokens Analyze returns for the same input and mode, Tokenize equals Analyze in normal mode, and Wakati equals the surfaces of the non-BOS/EOS tokens.",
 ["inputs","configurations"],"all inputs x modes x option sets x entry points",
 "Tests compare entry points on single inputs and ignore most fields (Index, Position) of the graph variants.",
 [TK,"tokenizer/tokenizer_option.go"],[("token conversion loops","Analyze, AnalyzeGraph, Wakati"),("options","OmitBosEos, UserDict, Nop")],[],["Tokenizer methods"])
p("C12","Keep and Drop partition tokens in order",
 "For every predicate, Keep leaves exactly the tokens that match and Drop exactly those that do not, each token once, unmodified and in the original order; a nil slice pointer is a no-op. This holds alike for the functional form, the part-of-speech filter (on the token's POS) and the word filter (on its surface).",
 ["inputs"],"all token slices x predicates",
 "Tests filter one sentence per filter; empty, all/none matching and alternating patterns for each sibling are open.",
 ["filter/filter.go","filter/pos.go","filter/word.go"],[("in-place compaction","applyFilter, POSFilter.apply, WordFilter.apply")],[],["Keep, Drop"])
p("C13","Filters match exactly what was registered",
 "A word filter matches a word iff it was registered. A features filter matches a vector iff some registered non-empty vector, with the wildcard matching any one element, is a prefix of it, whatever the registration order and overlaps; a part-of-speech filter does the same on POS vectors.",
 ["inputs","histories"],"all registered sets, orders and queries",
 "Tests use a dozen vectors; combinations of wildcards, prefixes and orders are unbounded.",
 ["filter/feature.go","filter/word.go","filter/pos.go"],[("trie construction and matching","FeaturesFilter.add, Match"),("word set","NewWordFilter, Match")],[],["Match"])
p("C14","Japanese filter yields exactly the wanted words",
 "Yield skips a token iff its POS is a stop tag or its surface a stop word, and otherwise yields, in order, its base form if its POS is in the base-form set and it has one, else its surface; Drop removes exactly the same tokens. The default sets come from the embedded lists (comments and blank lines ignored, tags padded to four levels), each option replaces exactly its own set, and a list that cannot be read is an error.",
 ["inputs","configurations"],"all token sequences and option sets",
 "One sentence with default options is tested, and that test needs the missing dictionary.",
 ["filter/ja/filter.go","filter/ja/loader.go"],[("filter pipeline","Filter.Yield, Drop"),("config loading","loadConfig, newDefaultLuceneFilter, options")],[],["ja.Filter"])
p("C15","Sentence splitting neither loses nor invents text",
 "Concatenating the sentences of any text, with any splitter settings and however a reader chunks it, gives the text back (without its white space if white space is skipped), with no empty sentence and without modifying the caller's buffer. Boundaries are placed exactly after a delimiter with its trailing delimiters and followers, at a blank line when that is enabled, and at the maximum length; a rune cut by a chunk end is never split, and the splitter always makes progress or asks for more data.",
 ["inputs","configurations","histories"],"all texts x settings x chunkings",
 "Tests feed short strings whole; chunk boundaries at every byte and settings combinations are open.",
 ["filter/sentence_splitter.go"],[("scan loop, request-more path and sentence extraction","SentenceSplitter.ScanSentences")],[],["bufio.Scanner with ScanSentences"])
p("C16","Command failures are reported, never swallowed",
 "When a command cannot do its work (option, dictionary, user dictionary, input file, read, encoding or output-file error) it returns a non-nil error and the process prints it and exits with a non-zero status; on success it exits 0. Files it opened are closed on every path.",
 ["fault_sequences","inputs"],"all faults of the operations a command performs",
 "Tests provoke a few option errors; read, encode, close and late I/O faults are never injected.",
 ["kagome.go","cmd/tokenize/cmd.go","cmd/sentence/cmd.go","cmd/lattice/cmd.go","cmd/server/cmd.go"],[("error propagation","command, Run, main")],[],["exit status"])
p("C17","Command options select what they say",
 "Each option reaches the behaviour it names (input file, system dictionary, user dictionary, mode, simple, split, JSON, output file, verbose, address); OptionCheck accepts exactly the arguments Run accepts, values outside the documented sets are rejected, and each subcommand name runs its own command, with tokenize as the default when none is named.",
 ["inputs","configurations"],"all argument vectors",
 "Tests try a few argument lists and assert only that an error does or does not occur.",
 ["kagome.go","cmd/tokenize/cmd.go","cmd/sentence/cmd.go","cmd/lattice/cmd.go","cmd/server/cmd.go"],[("flag tables and validation","newOption, parse, OptionCheck, Run"),("selection","selectDict, selectMode, command"),("subcommand table","kagome.go subcommands, main")],[],["CLI"])
p("C18","Command output contains every token",
 "For each input line (or sentence, when splitting) the tokenize command prints every token except BOS/EOS, in order: in plain form the surface, a tab and the comma-joined features (surface only for tokens without features), then a line EOS; in JSON form one array with one object per token. The sentence command prints each sentence on its own line, and the verbose lattice command prints the tokens after BOS.",
 ["inputs"],"all input streams",
 "Golden-output tests need the missing dictionary and sample three lines.",
 ["cmd/tokenize/cmd.go","cmd/sentence/cmd.go","cmd/lattice/cmd.go"],[("printing loops","printTokens, printTokensJSON, command")],[],["stdout"])
p("C19","The tokenize API answers every request correctly",
 "Each request to the tokenize endpoint gets exactly one response whose body is valid JSON: status 400 with status=false and the error for an undecodable body, otherwise 200 with status=true and one entry per non-BOS/EOS token of the requested sentence and mode (an empty list, not null, for an empty sentence). The endpoint and the demo page are served on their documented paths.",
 ["inputs"],"all request bodies",
 "Handler tests need the missing dictionary and send four well-formed requests.",
 ["cmd/server/api.go","cmd/server/cmd.go"],[("handler","TokenizeHandler.ServeHTTP"),("routes","command")],[],["HTTP responses"])
p("C20","The demo page shows the analysis and cannot be injected",
 "The demo page shows one row per non-BOS/EOS token with its surface, POS, base form, reading and pronunciation (an asterisk for what is missing); request text reaches the page only through the contextual escaping of the template, the sole unescaped value being the SVG printed by graphviz, whose input is the escaped lattice graph. A failing, missing or slow graphviz is reported in the page.",
 ["inputs","fault_sequences"],"all request parameters x graphviz behaviours",
 "Tests check for a title substring on one input.",
 ["cmd/server/demo.go",LAT],[("record conversion","newRecord, toRecords"),("template data","ServeHTTP"),("graphviz run","analyzeGraph")],[],["HTML responses"])
p("C21","The lattice graph is well-formed and faithful",
 "The dot output is a well-formed graph for every input: labels are escaped, every edge joins two nodes that are drawn, each drawn candidate appears once with its surface (BOS/EOS for the ends), POS and word cost, edges connect words that abut and show their connection cost (0 next to a user word), and exactly the nodes and edges of the chosen segmentation are highlighted. Unknown words off the best path are left out.",
 ["inputs","configurations"],"all lattices",
 "Tests only check that the output starts with the graph header.",
 [LAT],[("dot writer","(*Lattice).Dot, posFeature")],[],["Tokenizer.Dot, lattice command"])
p("C22","The server and its subprocesses always come to an end",
 "When its context ends or a termination signal arrives the server stops listening and returns; a listening failure is returned as an error; no goroutine stays blocked afterwards. The graphviz subprocess is bound to a timeout and to the request, and a handler never waits for it beyond that or blocks writing to it.",
 ["schedules","fault_sequences"],"all orders of signals, cancellation, listen errors and subprocess failures",
 "Tests cancel one idle server and do not look at what is left behind.",
 ["cmd/server/cmd.go","cmd/server/demo.go"],[("shutdown path","command, Run"),("subprocess","analyzeGraph")],[],["process state"])
p("C23","Exported token data is complete",
 "The export form of a token carries the token's own ID, start, end, surface, class name, POS, base form, reading, pronunciation and features, each under its documented JSON key, with absent strings empty and absent lists as empty lists rather than null. Class and mode names are the documented ones.",
 ["inputs"],"all tokens",
 "The stable tests export no token; only golden comparisons on a missing dictionary exist.",
 [TO,"tokenizer/lattice/node.go",TK],[("conversion","NewTokenData, TokenClass.String, TokenizeMode.String")],[],["JSON output"])
p("C24","Construction succeeds only with a usable configuration",
 "New returns an error and no tokenizer for a nil dictionary or when any option fails, and otherwise a tokenizer that uses exactly the given dictionary and all the given options (user dictionary, BOS/EOS omission); a nil user dictionary is an option error.",
 ["inputs","configurations"],"all dictionaries and option lists",
 "Tests try each option alone.",
 [TK,"tokenizer/tokenizer_option.go"],[("constructor","New, UserDict, OmitBosEos, Nop")],[],["tokenizer.New"])
p("C25","Analysis and filtering always terminate",
 "Every loop of the analyser, the accessors, the filters and the splitter makes progress towards a bound fixed by its input (a finite slice, string or dictionary entry count, or the acyclic chain of back pointers), and no recursion descends without shrinking its argument, so every call returns for every input.",
 ["inputs"],"all inputs",
 "Termination quantifies over all inputs; a test that returns proves one input.",
 ["tokenizer","tokenizer/lattice","filter","filter/ja"],[("loop variants","all loops of the library packages")],[],["every call"])
p("C26","Segmentation quality on real Japanese text",
 "The segmentation and parts of speech a user gets for everyday Japanese text are linguistically right.",
 ["inputs"],"natural Japanese text","Quality is statistical and depends on the dictionary data, which are not part of this repository.",
 ["tokenizer"],[("dictionary costs","external dictionary modules")])
p("C27","Analysis time and memory are linear in practice",
 "Tokenizing long text takes time and memory roughly linear in its length.",
 ["inputs"],"all input lengths","Benchmarks measure a few inputs on one machine.",
 [LAT],[("pooled nodes, bounded unknown words","lattice")])
p("C28","No call panics",
 "With a consistent dictionary (every word id its tables mention exists), no exported call of the library (sentence boundaries aside, which C15 decides) and no run of the commands panics, whatever the text (empty, invalid UTF-8, any length), mode, token, feature index, filter setting or failing file: every slice, string and array index is in range, no absent user dictionary, nil token slice, dictionary of a token that comes from none, end of a back-pointer chain or result of a failed call is dereferenced, no integer is divided by zero, no unchecked type assertion fails, and nothing panics on purpose.",
 ["inputs"],"all inputs, tokens and option settings",
 "An index out of range shows only for the inputs that reach it; tests sample inputs, dictionaries and capacities.",
 ["tokenizer","tokenizer/lattice","filter","filter/ja","kagome.go","cmd"],[("range and nil obligations","all functions of the library and the commands")],[],["every call"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
