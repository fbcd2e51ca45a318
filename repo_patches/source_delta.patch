From c2493a22c848e9c104dc9fde4e1cfb1b30e9bc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:58 +0000
Subject: [PATCH 01/21] fix: keep the input bytes when splitting unknown words
 in extended mode

An unknown word containing a byte that is not valid UTF-8 was split with
string(r), which replaces the byte by U+FFFD (3 bytes): the surface was no
longer the text found at the position of the token.
---
 tokenizer/lattice/lattice.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index aab4eea..adbd99b 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -254,12 +254,13 @@ func (la *Lattice) Backward(m TokenizeMode) {
 		runeLen := utf8.RuneCountInString(p.Surface)
 		stack := make([]*Node, 0, runeLen)
 		i := 0
-		for k, r := range p.Surface {
+		for k := range p.Surface {
+			_, w := utf8.DecodeRuneInString(p.Surface[k:])
 			stack = append(stack, &Node{
 				ID:       p.ID,
 				Start:    p.Start + i,
 				Class:    DUMMY,
-				Surface:  string(r),
+				Surface:  p.Surface[k : k+w],
 				Position: p.Position + k,
 			})
 			i++
-- 
2.43.0


From 6ffc4d61c8e036686efaddf87916eaa2ce28589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:58 +0000
Subject: [PATCH 02/21] fix: take the real width of U+FFFD when building
 unknown words

utf8.RuneError is also a legitimate three-byte character. Treating it as a
one-byte invalid sequence cut it in the middle when its character category
is not grouped, and the tokens no longer covered the input.
---
 tokenizer/lattice/lattice.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index adbd99b..f1075f7 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -137,12 +137,8 @@ func (la *Lattice) Build(inp string) {
 		// (3) UNKNOWN DIC
 		class := la.dic.CharacterCategory(ch)
 		if !anyMatches || la.dic.InvokeList[int(class)] {
-			var endPos int
-			if ch != utf8.RuneError {
-				endPos = pos + utf8.RuneLen(ch)
-			} else {
-				endPos = pos + 1
-			}
+			_, chLen := utf8.DecodeRuneInString(inp[pos:])
+			endPos := pos + chLen
 			unkWordLen := 1
 			if la.dic.GroupList[int(class)] {
 				for i, w, size := endPos, 0, len(inp); i < size; i += w {
-- 
2.43.0


From 8a4c1f65d7071e95577f33d88cd44ec0948acdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:58 +0000
Subject: [PATCH 03/21] fix: never connect a node to a predecessor that BOS
 cannot reach

When the accumulated costs of a long sentence saturate at maximumCost, the
nodes which are not reachable from BOS are not more expensive than the ones
that are, and the first of them was chosen: everything before it was missing
from the tokens.
---
 tokenizer/lattice/lattice.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index f1075f7..14644be 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -210,12 +210,12 @@ func (la *Lattice) Forward(m TokenizeMode) {
 	for i, size := 1, len(la.list); i < size; i++ {
 		currentList := la.list[i]
 		for index, target := range currentList {
-			prevList := la.list[target.Start]
-			if len(prevList) == 0 {
-				la.list[i][index].Cost = maximumCost
-				continue
-			}
-			for j, n := range prevList {
+			la.list[i][index].Cost = maximumCost
+			la.list[i][index].prev = nil
+			for j, n := range la.list[target.Start] {
+				if n.prev == nil && target.Start > 0 {
+					continue // not reachable from BOS.
+				}
 				var c int16
 				if n.Class != USER && target.Class != USER {
 					c = la.dic.Connection.At(int(n.Right), int(target.Left))
@@ -227,7 +227,7 @@ func (la *Lattice) Forward(m TokenizeMode) {
 				if totalCost > maximumCost {
 					totalCost = maximumCost
 				}
-				if j == 0 || int32(totalCost) < la.list[i][index].Cost {
+				if la.list[i][index].prev == nil || int32(totalCost) < la.list[i][index].Cost {
 					la.list[i][index].Cost = int32(totalCost)
 					la.list[i][index].prev = la.list[target.Start][j]
 				}
-- 
2.43.0


From ad4580ca5c2a801dc84a523d80737f0739427b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:46 +0000
Subject: [PATCH 04/21] fix: report a feature that is out of the name list as
 absent

FeatureAt compared the name ID with > instead of >=, so the first ID past
the end of the list panicked instead of returning false.
---
 tokenizer/token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenizer/token.go b/tokenizer/token.go
index bc27498..17c33f2 100644
--- a/tokenizer/token.go
+++ b/tokenizer/token.go
@@ -92,7 +92,7 @@ func (t Token) FeatureAt(i int) (string, bool) {
 		pos := t.dict.POSTable.POSs[t.ID]
 		if i < len(pos) {
 			id := pos[i]
-			if int(id) > len(t.dict.POSTable.NameList) {
+			if int(id) >= len(t.dict.POSTable.NameList) {
 				return "", false
 			}
 			return t.dict.POSTable.NameList[id], true
-- 
2.43.0


From 4a9876a43b11d3a935f58f10603bdd67332e21cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:03 +0000
Subject: [PATCH 05/21] fix: return the same tokens from AnalyzeGraph as from
 Analyze

AnalyzeGraph (and Dot) left Index and Position at zero for every token and
ignored the OmitBosEos option.
---
 tokenizer/tokenizer.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/tokenizer/tokenizer.go b/tokenizer/tokenizer.go
index 4feb38f..7359f50 100644
--- a/tokenizer/tokenizer.go
+++ b/tokenizer/tokenizer.go
@@ -150,14 +150,19 @@ func (t Tokenizer) AnalyzeGraph(w io.Writer, input string, mode TokenizeMode) []
 	tokens := make([]Token, 0, size)
 	for i := range la.Output {
 		n := la.Output[size-1-i]
+		if t.omitBosEos && n.ID == BosEosID {
+			continue
+		}
 		tok := Token{
-			ID:      n.ID,
-			Class:   TokenClass(n.Class),
-			Start:   n.Start,
-			End:     n.Start + utf8.RuneCountInString(n.Surface),
-			Surface: n.Surface,
-			dict:    t.dict,
-			udict:   t.userDict,
+			Index:    len(tokens),
+			ID:       n.ID,
+			Class:    TokenClass(n.Class),
+			Position: n.Position,
+			Start:    n.Start,
+			End:      n.Start + utf8.RuneCountInString(n.Surface),
+			Surface:  n.Surface,
+			dict:     t.dict,
+			udict:    t.userDict,
 		}
 		if tok.ID == lattice.BosEosID {
 			if i == 0 {
-- 
2.43.0


From 1127e7f10c542ce57351c13b89c8181db02d1982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:03 +0000
Subject: [PATCH 06/21] fix: keep split unknown words in the JSON output

In extended mode the characters of an unknown word are DUMMY tokens, and the
JSON output dropped them together with BOS and EOS; the plain output and the
server only drop BOS and EOS.
---
 cmd/tokenize/cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/tokenize/cmd.go b/cmd/tokenize/cmd.go
index a288a9b..8dc211b 100644
--- a/cmd/tokenize/cmd.go
+++ b/cmd/tokenize/cmd.go
@@ -201,7 +201,7 @@ func printTokensJSON(tokens []tokenizer.Token) error {
 	}
 	var array [][]byte
 	for _, v := range tokens {
-		if v.Class == tokenizer.DUMMY {
+		if v.ID == tokenizer.BosEosID {
 			continue
 		}
 		r := tokenizer.NewTokenData(v)
-- 
2.43.0


From d723dc938337869fd4b713bf7f16d8d39f1be905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:13 +0000
Subject: [PATCH 07/21] fix: match every registered feature vector when
 wildcards are involved

A wildcard edge captured later vectors while the filter was built, and
matching committed to the first edge that fits, so filters holding both a
wildcard and a literal matched vectors nobody registered and missed ones
that were.
---
 filter/feature.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/filter/feature.go b/filter/feature.go
index 0be5376..4a09e01 100644
--- a/filter/feature.go
+++ b/filter/feature.go
@@ -31,13 +31,28 @@ func (n filterNode) isLeaf() bool {
 
 func (n filterNode) has(s Feature) int {
 	for i, v := range n.fanout {
-		if v.val == Any || v.val == s {
+		if v.val == s {
 			return i
 		}
 	}
 	return -1
 }
 
+func (n filterNode) match(fs Features) bool {
+	if len(fs) == 0 {
+		return false
+	}
+	for _, v := range n.fanout {
+		if v.val != Any && v.val != fs[0] {
+			continue
+		}
+		if v.to.isLeaf() || v.to.match(fs[1:]) {
+			return true
+		}
+	}
+	return false
+}
+
 // FeaturesFilter represents a filter that filters a vector of features.
 type FeaturesFilter struct {
 	root filterNode
@@ -77,18 +92,7 @@ func (f *FeaturesFilter) add(fs Features) {
 
 // Match returns true if a filter matches given features.
 func (f *FeaturesFilter) Match(fs Features) bool {
-	n := &f.root
-	for _, v := range fs {
-		if k := n.has(v); k >= 0 {
-			n = n.fanout[k].to
-			if n.isLeaf() {
-				return true
-			}
-			continue
-		}
-		return false
-	}
-	return false
+	return f.root.match(fs)
 }
 
 // String implements string interface.
-- 
2.43.0


From 466e6392822ed50b6d1b71c44aa13b330500a1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:29 +0000
Subject: [PATCH 08/21] fix: split a text into the same sentences however it is
 chunked

When more data was needed the splitter had already compacted the buffer and
overwritten its tail with spaces, which the next call read as part of the
text: it lost or invented line feeds, cut runes in two, and with a reader
that returns data together with EOF it emitted an empty sentence. Leave the
buffer alone and drop the white spaces when a sentence is returned.
---
 filter/sentence_splitter.go | 52 ++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/filter/sentence_splitter.go b/filter/sentence_splitter.go
index 3f41dc9..94eab5a 100644
--- a/filter/sentence_splitter.go
+++ b/filter/sentence_splitter.go
@@ -1,6 +1,7 @@
 package filter
 
 import (
+	"bytes"
 	"unicode"
 	"unicode/utf8"
 )
@@ -47,6 +48,14 @@ func (s SentenceSplitter) isFollower(r rune) bool {
 	return false
 }
 
+// sentence returns the text of a sentence, without white spaces if they are to be eliminated.
+func (s SentenceSplitter) sentence(b []byte) []byte {
+	if !s.SkipWhiteSpace {
+		return b
+	}
+	return bytes.Join(bytes.Fields(b), nil)
+}
+
 // ScanSentences is a split function for a Scanner that returns each sentence of text.
 // nolint: gocyclo
 func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, token []byte, err error) {
@@ -54,22 +63,25 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 		return 0, nil, nil
 	}
 	var (
-		start, end, rcount int
-		head, nn           bool // nn indicates \n\n
+		start, rcount int
+		head, nn      bool // nn indicates \n\n
 	)
 	head = true
 	for p := 0; p < len(data); {
+		if !atEOF && !utf8.FullRune(data[p:]) {
+			break // the rest of the rune has not been read yet.
+		}
 		r, size := utf8.DecodeRune(data[p:])
 		if s.SkipWhiteSpace && unicode.IsSpace(r) {
 			p += size
 			switch {
 			case head:
-				start, end = p, p
+				start = p
 			case s.isDelim(r):
-				return p, data[start:end], nil
+				return p, s.sentence(data[start:p]), nil
 			case s.DoubleLineFeedSplit && r == '\n':
 				if nn {
-					return p, data[start:end], nil
+					return p, s.sentence(data[start:p]), nil
 				}
 				nn = true
 			case nn:
@@ -78,17 +90,11 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 			continue
 		}
 		head = false
-		if end != p {
-			for i := 0; i < size; i++ {
-				data[end+i] = data[p+i]
-			}
-		}
 		p += size
-		end += size
 		rcount++
 		if s.DoubleLineFeedSplit && r == '\n' {
 			if nn {
-				return p, data[start:end], nil
+				return p, s.sentence(data[start:p]), nil
 			}
 			nn = true
 		}
@@ -98,36 +104,34 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 		// split
 		nn = false
 		for p < len(data) {
+			if !atEOF && !utf8.FullRune(data[p:]) {
+				return start, nil, nil // the rest of the rune has not been read yet.
+			}
 			r, size := utf8.DecodeRune(data[p:])
 			if s.SkipWhiteSpace && unicode.IsSpace(r) {
 				p += size
 				if s.DoubleLineFeedSplit && r == '\n' {
 					if nn {
-						return p, data[start:end], nil
+						return p, s.sentence(data[start:p]), nil
 					}
 					nn = true
 				}
 			} else if s.isDelim(r) || s.isFollower(r) {
-				if end != p {
-					for i := 0; i < size; i++ {
-						data[end+i] = data[p+i]
-					}
-				}
 				p += size
-				end += size
 			} else {
 				break
 			}
 		}
-		return p, data[start:end], nil
+		return p, s.sentence(data[start:p]), nil
 	}
 	if !atEOF {
 		// Request more data
-		for i := end; i < len(data); i++ {
-			data[i] = ' '
-		}
 		return start, nil, nil
 	}
+	if start == len(data) {
+		// Nothing but white spaces is left.
+		return len(data), nil, nil
+	}
 	// If we're at EOF, we have a final, non-terminated line. Return it.
-	return len(data), data[start:end], nil
+	return len(data), s.sentence(data[start:]), nil
 }
-- 
2.43.0


From 48bca31aadd9e806a0e55dc393f2ee58d9f1405d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:06 +0000
Subject: [PATCH 09/21] fix: split at two line feeds only when they are
 adjacent

The first line feed of a sentence was remembered until the second one, no
matter how much text lies between them, so a text wrapped over three lines
was cut in the middle of a sentence.
---
 filter/sentence_splitter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filter/sentence_splitter.go b/filter/sentence_splitter.go
index 94eab5a..ffff6d2 100644
--- a/filter/sentence_splitter.go
+++ b/filter/sentence_splitter.go
@@ -97,6 +97,8 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 				return p, s.sentence(data[start:p]), nil
 			}
 			nn = true
+		} else {
+			nn = false
 		}
 		if !s.isDelim(r) && rcount < s.MaxRuneLen {
 			continue
@@ -115,9 +117,12 @@ func (s SentenceSplitter) ScanSentences(data []byte, atEOF bool) (advance int, t
 						return p, s.sentence(data[start:p]), nil
 					}
 					nn = true
+				} else {
+					nn = false
 				}
 			} else if s.isDelim(r) || s.isFollower(r) {
 				p += size
+				nn = false
 			} else {
 				break
 			}
-- 
2.43.0


From df4846e4d58a206516e4c6940fe5145f40b85ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:15 +0000
Subject: [PATCH 10/21] fix: escape the labels of the dot output

A double quote or a backslash in the input or in a part of speech ended the
quoted label, so the output was not a graph graphviz can read.
---
 tokenizer/lattice/lattice.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index 14644be..a6c308b 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -303,6 +303,8 @@ func posFeature(d *dict.Dict, u *dict.UserDict, t *Node) string {
 	return strings.Join(ret, "/")
 }
 
+var dotEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+
 // Dot outputs a lattice in the graphviz dot format.
 //
 //nolint:gocyclo
@@ -358,7 +360,8 @@ func (la *Lattice) Dot(w io.Writer) {
 					surf = "EOS"
 				}
 			}
-			pos := posFeature(la.dic, la.udic, n)
+			surf = dotEscaper.Replace(surf)
+			pos := dotEscaper.Replace(posFeature(la.dic, la.udic, n))
 			if _, ok := bests[n]; ok {
 				fmt.Fprintf(w, "\t\"%p\" [label=\"%s\\n%s\\n%d\",shape=ellipse, peripheries=2];\n", n, surf, pos, n.Weight)
 			} else if n.Class != UNKNOWN {
-- 
2.43.0


From 231633e00c7e1ff1727ebb29745cbc48ce64e49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:47 +0000
Subject: [PATCH 11/21] fix: do not block the demo handler when graphviz stops
 reading

The lattice was written to the unread end of a pipe, so when the graphviz
process died or timed out before reading all of it the handler, its
goroutine and its lattice hung forever.
---
 cmd/server/demo.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/cmd/server/demo.go b/cmd/server/demo.go
index d022d74..bf23d32 100644
--- a/cmd/server/demo.go
+++ b/cmd/server/demo.go
@@ -7,7 +7,6 @@ import (
 	"errors"
 	"fmt"
 	"html/template"
-	"io"
 	"net/http"
 	"os/exec"
 	"strings"
@@ -85,20 +84,13 @@ func (h *TokenizeDemoHandler) analyzeGraph(ctx context.Context, sen string, mode
 	}
 	ctx, cancel := context.WithTimeout(ctx, cmdTimeout)
 	defer cancel()
-	var b bytes.Buffer
+	var dot, b bytes.Buffer
+	tokens := h.tokenizer.AnalyzeGraph(&dot, sen, mode)
 	cmd := exec.CommandContext(ctx, graphvizCmd, "-Tsvg")
-	r0, w0 := io.Pipe()
-	cmd.Stdin = r0
+	cmd.Stdin = &dot
 	cmd.Stdout = &b
 	cmd.Stderr = Stderr
-	if err := cmd.Start(); err != nil {
-		return nil, "", fmt.Errorf("process done with error, %w", err)
-	}
-	tokens := h.tokenizer.AnalyzeGraph(w0, sen, mode)
-	if err := w0.Close(); err != nil {
-		return nil, "", fmt.Errorf("pipe close error, %w", err)
-	}
-	if err := cmd.Wait(); err != nil {
+	if err := cmd.Run(); err != nil {
 		return nil, "", fmt.Errorf("process done with error, %w", err)
 	}
 	svg = b.String()
-- 
2.43.0


From d8107266b67ab7cb270daad9b6a68478a6dbbdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:15 +0000
Subject: [PATCH 12/21] fix: stop the HTTP server when its context ends

command returned while the listener kept serving and its goroutine stayed
blocked on the error channel forever; Run also left a goroutine waiting for
a signal behind.
---
 cmd/server/cmd.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/cmd/server/cmd.go b/cmd/server/cmd.go
index cb7b7a9..af6be19 100644
--- a/cmd/server/cmd.go
+++ b/cmd/server/cmd.go
@@ -110,7 +110,7 @@ func command(ctx context.Context, opt *option) error {
 		Handler:           mux,
 		ReadHeaderTimeout: 20 * time.Second,
 	}
-	ch := make(chan error)
+	ch := make(chan error, 1)
 	go func() {
 		log.Println(opt.http)
 		ch <- srv.ListenAndServe()
@@ -135,14 +135,8 @@ func Run(ctx context.Context, args []string) error {
 		PrintDefaults(flag.ContinueOnError)
 		return fmt.Errorf("option parse error: %w", err)
 	}
-	ctx, cancel := context.WithCancel(ctx)
-	defer cancel()
-	go func() {
-		c := make(chan os.Signal, 1)
-		signal.Notify(c, syscall.SIGHUP, syscall.SIGINT, syscall.SIGTERM)
-		<-c
-		cancel()
-	}()
+	ctx, stop := signal.NotifyContext(ctx, syscall.SIGHUP, syscall.SIGINT, syscall.SIGTERM)
+	defer stop()
 	return command(ctx, opt)
 }
 
-- 
2.43.0


From f0a1a592798a266c6b29eb4a412ffb9ef0e38e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:46 +0000
Subject: [PATCH 13/21] fix: escape the message in the error responses of the
 tokenize API

The error text was pasted between quotes, and the messages of the JSON
decoder contain quotes of their own, so the body was not valid JSON.
---
 cmd/server/api.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/server/api.go b/cmd/server/api.go
index 50cce3a..dd053ae 100644
--- a/cmd/server/api.go
+++ b/cmd/server/api.go
@@ -25,11 +25,17 @@ type TokenizerResponseBody struct {
 	Tokens []tokenizer.TokenData `json:"tokens"`
 }
 
+// errorBody returns the JSON response body of an error.
+func errorBody(err error) string {
+	msg, _ := json.Marshal(err.Error()) // a string can always be marshaled.
+	return fmt.Sprintf("{\"status\":false,\"error\":%s}", msg)
+}
+
 func (h *TokenizeHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	w.Header().Set("Content-Type", "application/json")
 	var req TokenizerRequestBody
 	if err := json.NewDecoder(r.Body).Decode(&req); err != nil {
-		http.Error(w, fmt.Sprintf("{\"status\":false,\"error\":\"%v\"}", err), http.StatusBadRequest)
+		http.Error(w, errorBody(err), http.StatusBadRequest)
 		return
 	}
 	if req.Input == "" {
@@ -56,7 +62,7 @@ func (h *TokenizeHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		Tokens: tokenData,
 	})
 	if err != nil {
-		http.Error(w, fmt.Sprintf("{\"status\":false,\"error\":\"%v\"}", err), http.StatusInternalServerError)
+		http.Error(w, errorBody(err), http.StatusInternalServerError)
 		return
 	}
 	w.WriteHeader(http.StatusOK)
-- 
2.43.0


From cd92771aabb53be42e0ad8c2da3a18da05005602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:52 +0000
Subject: [PATCH 14/21] fix: yield the surface of a token that has no base form

A token that matches the base form tags but carries no base form, such as
one from a user dictionary or a shrunk dictionary, was silently dropped.
---
 filter/ja/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter/ja/filter.go b/filter/ja/filter.go
index 30f820d..5056c6d 100644
--- a/filter/ja/filter.go
+++ b/filter/ja/filter.go
@@ -117,8 +117,8 @@ func (f Filter) Yield(tokens []tokenizer.Token) []string {
 		if f.baserForm.Match(v.POS()) {
 			if b, ok := v.BaseForm(); ok {
 				ret = append(ret, b)
+				continue
 			}
-			continue
 		}
 		ret = append(ret, v.Surface)
 	}
-- 
2.43.0


From 221240c94e7dea9a19834060d0a96770a7384020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:12 +0000
Subject: [PATCH 15/21] fix: report output errors of the lattice command

lattice exited with status 0 after the graph could not be written, for
example on a full disk.
---
 cmd/lattice/cmd.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cmd/lattice/cmd.go b/cmd/lattice/cmd.go
index dee8c70..fc746d4 100644
--- a/cmd/lattice/cmd.go
+++ b/cmd/lattice/cmd.go
@@ -1,6 +1,7 @@
 package lattice
 
 import (
+	"bufio"
 	"context"
 	"errors"
 	"flag"
@@ -102,7 +103,7 @@ func selectMode(mode string) tokenizer.TokenizeMode {
 	return tokenizer.Normal
 }
 
-func command(_ context.Context, opt *option) error {
+func command(_ context.Context, opt *option) (err error) {
 	d, err := selectDict(opt.dict)
 	if err != nil {
 		return err
@@ -126,13 +127,19 @@ func command(_ context.Context, opt *option) error {
 			return err
 		}
 		defer func() {
-			f.Close()
+			if cerr := f.Close(); err == nil {
+				err = cerr
+			}
 		}()
 		out = f
 	}
 
 	mode := selectMode(opt.mode)
-	tokens := t.AnalyzeGraph(out, opt.input, mode)
+	w := bufio.NewWriter(out)
+	tokens := t.AnalyzeGraph(w, opt.input, mode)
+	if err := w.Flush(); err != nil {
+		return err
+	}
 	if opt.verbose {
 		for i, size := 1, len(tokens); i < size; i++ {
 			tok := tokens[i]
-- 
2.43.0


From 5537bf4153fd76d50b61c96ad8973bff37fa9f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:16 +0000
Subject: [PATCH 16/21] fix: saturate path costs at the lower end, too

---
 tokenizer/lattice/lattice.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index a6c308b..5646137 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -13,6 +13,7 @@ import (
 
 const (
 	maximumCost              = 1<<31 - 1
+	minimumCost              = -1 << 31
 	maximumUnknownWordLength = 1024
 	searchModeKanjiLength    = 2
 	searchModeKanjiPenalty   = 3000
@@ -226,6 +227,8 @@ func (la *Lattice) Forward(m TokenizeMode) {
 				}
 				if totalCost > maximumCost {
 					totalCost = maximumCost
+				} else if totalCost < minimumCost {
+					totalCost = minimumCost
 				}
 				if la.list[i][index].prev == nil || int32(totalCost) < la.list[i][index].Cost {
 					la.list[i][index].Cost = int32(totalCost)
-- 
2.43.0


From 09916d0d6e35b2a537fc1f8e873257a9b5d6010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:39 +0000
Subject: [PATCH 17/21] fix: shut the HTTP server down when its context ends

command returned nil on cancellation while the listener went on serving
and its goroutine stayed blocked in ListenAndServe.
---
 cmd/server/cmd.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/server/cmd.go b/cmd/server/cmd.go
index af6be19..4ff0a9d 100644
--- a/cmd/server/cmd.go
+++ b/cmd/server/cmd.go
@@ -21,6 +21,9 @@ import (
 // Stderr is the standard error writer.
 var Stderr io.Writer = os.Stderr
 
+// shutdownTimeout is how long active requests may take to finish on shutdown.
+const shutdownTimeout = 5 * time.Second
+
 // subcommand property
 var (
 	CommandName  = "server"
@@ -124,6 +127,11 @@ func command(ctx context.Context, opt *option) error {
 	}
 	log.Printf("shutting down HTTP server at %q", opt.http)
 
+	sctx, cancel := context.WithTimeout(context.Background(), shutdownTimeout)
+	defer cancel()
+	if err := srv.Shutdown(sctx); err != nil {
+		return srv.Close()
+	}
 	return nil
 }
 
-- 
2.43.0


From 1ad57de3c0cdcf3cc4b0a13ac82b5539428f12e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:33 +0000
Subject: [PATCH 18/21] fix: return the close error of the lattice output file

---
 cmd/lattice/cmd.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/lattice/cmd.go b/cmd/lattice/cmd.go
index fc746d4..969459d 100644
--- a/cmd/lattice/cmd.go
+++ b/cmd/lattice/cmd.go
@@ -122,9 +122,9 @@ func command(_ context.Context, opt *option) (err error) {
 	}
 	out := Stdout
 	if opt.output != "" {
-		f, err := os.OpenFile(opt.output, os.O_RDWR|os.O_TRUNC|os.O_CREATE, 0o600)
-		if err != nil {
-			return err
+		f, ferr := os.OpenFile(opt.output, os.O_RDWR|os.O_TRUNC|os.O_CREATE, 0o600)
+		if ferr != nil {
+			return ferr
 		}
 		defer func() {
 			if cerr := f.Close(); err == nil {
-- 
2.43.0


From 684e14b61befc1595c78d99fc7abcc49ed30db54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:08 +0000
Subject: [PATCH 19/21] fix: insert analysis results into the demo page as
 text, not as HTML

---
 cmd/server/asset/demo.html | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/cmd/server/asset/demo.html b/cmd/server/asset/demo.html
index 7d7ce44..eb71b32 100644
--- a/cmd/server/asset/demo.html
+++ b/cmd/server/asset/demo.html
@@ -124,14 +124,11 @@
                 base = val.base_form != "" ? val.base_form : "*";
                 reading = val.reading != "" ? val.reading : "*";
                 pronoun = val.pronunciation!= "" ? val.pronunciation : "*";
-                $("#morphs").append(
-                    "<tr>"+"<td>" + val.surface + "</td>" +
-                    "<td>" + pos + "</td>"+
-                    "<td>" + base + "</td>"+
-                    "<td>" + reading + "</td>"+
-                    "<td>" + pronoun + "</td>"+
-                    "</tr>"
-                );
+                var row = $("<tr>");
+                $.each([val.surface, pos, base, reading, pronoun], function(j, v) {
+                    row.append($("<td>").text(String(v)));
+                });
+                $("#morphs").append(row);
             });
         }
     }
-- 
2.43.0


From 8d2265cc311c297e9f1d3f14e223cb830f5ab977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:58 +0000
Subject: [PATCH 20/21] fix: never wait for graphviz beyond its timeout

---
 cmd/server/demo.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cmd/server/demo.go b/cmd/server/demo.go
index bf23d32..2bdb426 100644
--- a/cmd/server/demo.go
+++ b/cmd/server/demo.go
@@ -90,7 +90,17 @@ func (h *TokenizeDemoHandler) analyzeGraph(ctx context.Context, sen string, mode
 	cmd.Stdin = &dot
 	cmd.Stdout = &b
 	cmd.Stderr = Stderr
-	if err := cmd.Run(); err != nil {
+	if err := cmd.Start(); err != nil {
+		return nil, "", fmt.Errorf("process start error, %w", err)
+	}
+	done := make(chan error, 1)
+	go func() { done <- cmd.Wait() }()
+	select {
+	case err = <-done:
+	case <-ctx.Done(): // Wait lasts as long as any descendant of the killed process holds the pipes.
+		err = ctx.Err()
+	}
+	if err != nil {
 		return nil, "", fmt.Errorf("process done with error, %w", err)
 	}
 	svg = b.String()
-- 
2.43.0


From 2485a9aa770e395a8b355f91a63345a7429e60a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:11 +0000
Subject: [PATCH 21/21] fix: show the unknown words of the best path in the dot
 output of extended mode

---
 tokenizer/lattice/lattice.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tokenizer/lattice/lattice.go b/tokenizer/lattice/lattice.go
index 5646137..e5f2c84 100644
--- a/tokenizer/lattice/lattice.go
+++ b/tokenizer/lattice/lattice.go
@@ -313,8 +313,11 @@ var dotEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
 //nolint:gocyclo
 func (la *Lattice) Dot(w io.Writer) {
 	bests := make(map[*Node]struct{})
-	for _, n := range la.Output {
-		bests[n] = struct{}{}
+	if len(la.Output) > 0 {
+		// Output holds substitutes for the unknown words in extended mode.
+		for p := la.list[len(la.list)-1][0]; p != nil; p = p.prev {
+			bests[p] = struct{}{}
+		}
 	}
 	type edge struct {
 		from *Node
-- 
2.43.0

