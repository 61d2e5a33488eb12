From f6aa9d5b9a1c05476b2984d954beb5464ac2860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:26 +0000
Subject: [PATCH 01/17] fix: TokenizeHTML resumes tokenizing text after a
 script or style block closes

---
 tokenizer_html.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tokenizer_html.go b/tokenizer_html.go
index fbedc36..763c5a5 100644
--- a/tokenizer_html.go
+++ b/tokenizer_html.go
@@ -74,7 +74,8 @@ func (t *htokenizer) next() (*Token, error) {
 		}
 	case html.EndTagToken:
 		if htoken.DataAtom == t.parent {
-			htoken.DataAtom = 0
+			// We are leaving the script or style block
+			t.parent = 0
 		}
 	}
 
-- 
2.43.0


From 21bf892850338cef3c186c634091a31d3cbb52a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:28 +0000
Subject: [PATCH 02/17] fix: TokenizeHTML returns the original text verbatim

Tags were re-rendered, text and scripts were re-escaped, and an unfinished
tag at the end of the input was lost.
---
 tokenizer_html.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/tokenizer_html.go b/tokenizer_html.go
index 763c5a5..2c53f5e 100644
--- a/tokenizer_html.go
+++ b/tokenizer_html.go
@@ -41,9 +41,22 @@ func (t *htokenizer) next() (*Token, error) {
 
 	htype := t.htokenizer.Next()
 
+	// Tokens should be verbatim, so prefer Raw over (a re-rendered) Token. It needs to be
+	// copied here, as the call to Token below might change the underlying bytes.
+	raw := string(t.htokenizer.Raw())
+
 	if htype == html.ErrorToken {
 		err := t.htokenizer.Err()
 		if err == io.EOF {
+			if len(raw) > 0 {
+				// An unfinished tag at the end of the input
+				token := &Token{
+					value: raw,
+					punct: true,
+					space: false,
+				}
+				return token, nil
+			}
 			// No problem
 			return nil, nil
 		}
@@ -63,13 +76,13 @@ func (t *htokenizer) next() (*Token, error) {
 		case atom.Script, atom.Style:
 			// Don't tokenize script and style blocks, just return as one big string
 			token := &Token{
-				value: htoken.String(),
+				value: raw,
 				punct: false,
 				space: false,
 			}
 			return token, nil
 		default:
-			t.ttokens = TokenizeString(htoken.String())
+			t.ttokens = TokenizeString(raw)
 			return t.ttokens.Next()
 		}
 	case html.EndTagToken:
@@ -81,7 +94,7 @@ func (t *htokenizer) next() (*Token, error) {
 
 	// Everything else is punct for our purposes
 	token := &Token{
-		value: htoken.String(),
+		value: raw,
 		punct: true,
 		space: false,
 	}
-- 
2.43.0


From e8142dbf7f65b87e7f03bbe319d6e8e2c534a4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:20 +0000
Subject: [PATCH 03/17] fix: ascii folds the tc digraph to tc, as Lucene does

---
 filters/ascii/fold.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/ascii/fold.go b/filters/ascii/fold.go
index c40f9b2..3b7ce41 100644
--- a/filters/ascii/fold.go
+++ b/filters/ascii/fold.go
@@ -1232,7 +1232,7 @@ func FoldString(s string) (string, bool) {
 			case
 				'\u02A8': // ʨ  [LATIN SMALL LETTER TC DIGRAPH WITH CURL]
 				b.WriteRune('t')
-				b.WriteRune('r')
+				b.WriteRune('c')
 				folded = true
 			case
 				'\u00FE', // þ  [LATIN SMALL LETTER THORN]
-- 
2.43.0


From 8ad31eafea9d91e15212a7620892795b15b3f705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:21 +0000
Subject: [PATCH 04/17] fix: ascii reports tilde variants as folded, so they
 are replaced

---
 filters/ascii/fold.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filters/ascii/fold.go b/filters/ascii/fold.go
index 3b7ce41..8b11245 100644
--- a/filters/ascii/fold.go
+++ b/filters/ascii/fold.go
@@ -2148,6 +2148,7 @@ func FoldString(s string) (string, bool) {
 				'\u2053', // ⁓  [SWUNG DASH]
 				'\uFF5E': // ～  [FULLWIDTH TILDE]
 				b.WriteRune('~')
+				folded = true
 			default:
 				b.WriteRune(r)
 			}
-- 
2.43.0


From 4e32c64ff563da76210f206aab19b73775ec16d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:22 +0000
Subject: [PATCH 05/17] fix: sigil considers a queued lookahead when
 determining the word boundary

---
 filters/sigil/filter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filters/sigil/filter.go b/filters/sigil/filter.go
index bcc81ba..10e8fb8 100644
--- a/filters/sigil/filter.go
+++ b/filters/sigil/filter.go
@@ -40,7 +40,8 @@ type stream struct {
 
 func (s *stream) next() (*jargon.Token, error) {
 	if s.outgoing.Any() {
-		return s.outgoing.Pop(), nil
+		s.previous = s.outgoing.Pop()
+		return s.previous, nil
 	}
 
 	current, err := s.incoming.Next()
-- 
2.43.0


From e2cedb43087dc02c46d689e51e953b69c5c01c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:24 +0000
Subject: [PATCH 06/17] fix: expanded contractions are lemmas, like all tokens
 changed by a filter

---
 filters/contractions/filter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filters/contractions/filter.go b/filters/contractions/filter.go
index 78a20b4..6b2ddb9 100644
--- a/filters/contractions/filter.go
+++ b/filters/contractions/filter.go
@@ -73,7 +73,10 @@ func (t *tokens) tryExpansion(token *jargon.Token, ignoreCase bool) (bool, error
 		if err != nil {
 			return found, err
 		}
-		t.outgoing.Push(tokens...)
+		for _, token := range tokens {
+			// They replace the original token, so are lemmas
+			t.outgoing.Push(jargon.NewToken(token.String(), true))
+		}
 	}
 
 	return found, nil
-- 
2.43.0


From 4582373e7efb1217677d9b1d03cc889531513fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:25 +0000
Subject: [PATCH 07/17] fix: mapper does not end the stream when a token is
 mapped to nothing

---
 filters/mapper/filter.go | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/filters/mapper/filter.go b/filters/mapper/filter.go
index 7f307c8..9ca12da 100644
--- a/filters/mapper/filter.go
+++ b/filters/mapper/filter.go
@@ -35,17 +35,27 @@ type tokens struct {
 }
 
 func (t *tokens) next() (*jargon.Token, error) {
-	token, err := t.incoming.Next()
-	if err != nil {
-		return nil, err
+	for {
+		token, err := t.incoming.Next()
+		if err != nil {
+			return nil, err
+		}
+		if token == nil {
+			return nil, nil
+		}
+
+		for _, f := range t.filter.funcs {
+			token = f(token)
+			if token == nil {
+				break
+			}
+		}
+
+		if token == nil {
+			// Mapped to nothing; that's not the end of the stream
+			continue
+		}
+
+		return token, nil
 	}
-	if token == nil {
-		return nil, nil
-	}
-
-	for _, f := range t.filter.funcs {
-		token = f(token)
-	}
-
-	return token, nil
 }
-- 
2.43.0


From 5172cc0e23e829a3f5105e91e6cf363154005bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:26 +0000
Subject: [PATCH 08/17] fix: synonyms reports a failed build on every use of
 the filter, not only the first

---
 filters/synonyms/filter.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index a25473c..3f22f86 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -16,6 +16,7 @@ type filter struct {
 	// For lazy loading, see build() below
 	config *config
 	once   sync.Once
+	err    error
 
 	trie     *trie.RuneTrie
 	maxWords int
@@ -102,9 +103,8 @@ func updateMaxWords(tokens []*jargon.Token, maxWords *int) {
 func (f *filter) Filter(incoming *jargon.TokenStream) *jargon.TokenStream {
 	// Lazily build the trie on first call, i.e. don't pay for the construction
 	// unless we use it
-	var err error
 	f.once.Do(func() {
-		err = f.build()
+		f.err = f.build()
 	})
 
 	t := &tokens{
@@ -116,8 +116,8 @@ func (f *filter) Filter(incoming *jargon.TokenStream) *jargon.TokenStream {
 
 	// Catch the error that may have resulted from lazy construction above
 	next := func() (*jargon.Token, error) {
-		if err != nil {
-			return nil, err
+		if f.err != nil {
+			return nil, f.err
 		}
 		return t.next()
 	}
-- 
2.43.0


From 205557c0afee7a44cbcc7762ea5073b1df585456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:27 +0000
Subject: [PATCH 09/17] fix: synonyms builds deterministically when synonyms
 collide

---
 filters/synonyms/filter.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index 3f22f86..4ad2709 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -4,6 +4,7 @@ package synonyms
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"sync"
 
 	"github.com/clipperhouse/jargon"
@@ -44,7 +45,16 @@ func NewFilter(mappings map[string]string, ignoreCase bool, ignoreRunes []rune)
 func (f *filter) build() error {
 	trie := trie.New(f.config.ignoreCase, f.config.ignoreRunes)
 	maxWords := 1
-	for synonyms, canonical := range f.config.mappings {
+
+	// Where synonyms collide, the last one wins; sort to ensure it's always the same one
+	keys := make([]string, 0, len(f.config.mappings))
+	for synonyms := range f.config.mappings {
+		keys = append(keys, synonyms)
+	}
+	sort.Strings(keys)
+
+	for _, synonyms := range keys {
+		canonical := f.config.mappings[synonyms]
 		tokens, err := jargon.TokenizeString(synonyms).ToSlice()
 		if err != nil {
 			return err
-- 
2.43.0


From c840ab521af0377bae29d8588de57cded5026eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:29 +0000
Subject: [PATCH 10/17] fix: an empty synonym (e.g. trailing comma) matches
 nothing

Previously, it matched any word made up of ignored runes.
---
 filters/synonyms/trie/trie.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filters/synonyms/trie/trie.go b/filters/synonyms/trie/trie.go
index 26f71aa..921a426 100644
--- a/filters/synonyms/trie/trie.go
+++ b/filters/synonyms/trie/trie.go
@@ -87,6 +87,11 @@ func (t *RuneTrie) Add(tokens []*jargon.Token, canonical string) {
 		}
 	}
 
+	if n == t.root {
+		// Nothing significant to match, e.g. empty, or only ignored runes
+		return
+	}
+
 	n.hasCanonical = true
 	n.canonical = canonical
 }
-- 
2.43.0


From 00ff4a4714d26187ee1efae9d68e9b8cc4996605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:30 +0000
Subject: [PATCH 11/17] fix: synonyms streams tokens instead of consuming all
 input on the first call

The first call to Next read until EOF, so memory was linear, and time
quadratic, in the size of the input.
---
 filters/synonyms/filter.go | 54 +++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index 4ad2709..099539d 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -147,38 +147,41 @@ type tokens struct {
 
 // next returns the next token; nil indicates end of data
 func (t *tokens) next() (*jargon.Token, error) {
-	// Buffer should be clear after every call to next()
-	if t.buffer.Len() != 0 {
-		return nil, fmt.Errorf("expected buffer to be empty")
-	}
+	for {
+		// Clear out any outgoing
+		if t.outgoing.Any() {
+			return t.outgoing.Pop(), nil
+		}
 
-	// Clear out any outgoing
-	if t.outgoing.Any() {
-		return t.outgoing.Pop(), nil
-	}
+		if !t.buffer.Any() {
+			token, err := t.incoming.Next()
+			if err != nil {
+				return nil, err
+			}
+			if token == nil {
+				// Nothing left
+				return nil, nil
+			}
+			t.buffer.Push(token)
+		}
 
-	// Consume all the words
-	for {
+		// Leading space & punct can't begin a match, send it straight out
+		head := t.buffer.Tokens[0]
+		if head.IsSpace() || head.IsPunct() {
+			return t.buffer.Pop(), nil
+		}
+
+		// Look ahead only as far as the longest match
 		err := t.fill()
 		if err != nil {
 			return nil, err
 		}
 
-		if t.buffer.Len() == 0 {
-			// Nothing left
-			break
-		}
-
 		run, err := t.wordrun()
 		if err != nil {
 			return nil, err
 		}
 
-		if len(run) == 0 {
-			// No more words
-			break
-		}
-
 		// Try to lemmatize
 		found, canonical, consumed := t.filter.trie.SearchCanonical(run...)
 		if found {
@@ -191,17 +194,8 @@ func (t *tokens) next() (*jargon.Token, error) {
 		}
 
 		// The word didn't lemmatize, pass it along verbatim
-		t.buffer.PopTo(t.outgoing)
+		return t.buffer.Pop(), nil
 	}
-
-	// Queue up the rest of the buffer to go out
-	t.buffer.FlushTo(t.outgoing)
-
-	if t.outgoing.Any() {
-		return t.outgoing.Pop(), nil
-	}
-
-	return nil, nil
 }
 
 // fill the buffer until EOF, punctuation, or enough word tokens
-- 
2.43.0


From 96a5cbf964b527a4cc6118c5e0fce0c5f5c00128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:31 +0000
Subject: [PATCH 12/17] fix: web does not send a partial result after an error

---
 web/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/web/main.go b/web/main.go
index ce8e7d9..3ddc24a 100644
--- a/web/main.go
+++ b/web/main.go
@@ -63,6 +63,7 @@ func jargonHandler(w http.ResponseWriter, r *http.Request) {
 		if err != nil {
 			log.Print(err)
 			w.WriteHeader(500)
+			return
 		}
 		if t == nil {
 			break
-- 
2.43.0


From d564be5753d937acc58f492e36cf40e3c75071dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:32 +0000
Subject: [PATCH 13/17] fix: cli applies filters given as --name or -name=true

They were accepted by the flag package, and silently ignored.
---
 cmd/jargon/main.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cmd/jargon/main.go b/cmd/jargon/main.go
index 330f227..28ec45d 100644
--- a/cmd/jargon/main.go
+++ b/cmd/jargon/main.go
@@ -189,6 +189,17 @@ var stemmerMap = map[string]jargon.Filter{
 func setFilters(c *config, args []string, lang string) error {
 	// Loop through filters; order matters, so can't use flag package
 	for _, arg := range args {
+		// The flag package also accepts --name and -name=true
+		if strings.HasPrefix(arg, "--") {
+			arg = arg[1:]
+		}
+		if i := strings.Index(arg, "="); i >= 0 {
+			if on, err := strconv.ParseBool(arg[i+1:]); err != nil || !on {
+				continue
+			}
+			arg = arg[:i]
+		}
+
 		filter, found := filterMap[arg]
 		if found {
 			if arg == "-stem" && lang != "" {
-- 
2.43.0


From acaa5876bfd51868ed9e919bd192f915d282c575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:32 +0000
Subject: [PATCH 14/17] fix: token queues copy the tokens they are created
 with, so that they share no storage

---
 tokenqueue/queue.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tokenqueue/queue.go b/tokenqueue/queue.go
index ac388b1..5c4c24a 100644
--- a/tokenqueue/queue.go
+++ b/tokenqueue/queue.go
@@ -11,9 +11,10 @@ type Token = jargon.Token
 
 // New creates a new TokenQueue
 func New(tokens ...*Token) *TokenQueue {
-	return &TokenQueue{
-		Tokens: tokens,
-	}
+	q := &TokenQueue{}
+	// Copy; the queue modifies its tokens in place, and should not affect the caller's slice
+	q.Push(tokens...)
+	return q
 }
 
 // TokenQueue is a FIFO queue
-- 
2.43.0


From 3623407fec24f02e44d713848d0fb704cd0b39a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:17 +0000
Subject: [PATCH 15/17] fix: do not look ahead beyond punctuation for synonyms
 that cannot match [C11]

---
 filters/synonyms/filter.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index 099539d..a6b428b 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -234,7 +234,11 @@ func (t *tokens) fill() error {
 	// Count the words we have
 	wordcount := 0
 	for _, token := range t.buffer.Tokens {
-		if !token.IsPunct() && !token.IsSpace() {
+		if token.IsPunct() {
+			// A run ends here, no need to look further
+			return nil
+		}
+		if !token.IsSpace() {
 			wordcount++
 		}
 	}
-- 
2.43.0


From 4e2575ea126d95b3f473688e5565ebd64a2a4f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:38 +0000
Subject: [PATCH 16/17] fix: command line: the value of -file, -out or -lang,
 or an argument after the flags, was taken as a filter if it looked like one

---
 cmd/jargon/main.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/cmd/jargon/main.go b/cmd/jargon/main.go
index 28ec45d..4e0e0c7 100644
--- a/cmd/jargon/main.go
+++ b/cmd/jargon/main.go
@@ -188,16 +188,26 @@ var stemmerMap = map[string]jargon.Filter{
 
 func setFilters(c *config, args []string, lang string) error {
 	// Loop through filters; order matters, so can't use flag package
-	for _, arg := range args {
+	for i := 0; i < len(args); i++ {
+		arg := args[i]
+		if len(arg) < 2 || arg[0] != '-' || arg == "--" {
+			// The flag package stops here, the rest are not flags
+			break
+		}
+
 		// The flag package also accepts --name and -name=true
 		if strings.HasPrefix(arg, "--") {
 			arg = arg[1:]
 		}
-		if i := strings.Index(arg, "="); i >= 0 {
-			if on, err := strconv.ParseBool(arg[i+1:]); err != nil || !on {
+		if eq := strings.Index(arg, "="); eq >= 0 {
+			if on, err := strconv.ParseBool(arg[eq+1:]); err != nil || !on {
 				continue
 			}
-			arg = arg[:i]
+			arg = arg[:eq]
+		} else if arg == "-file" || arg == "-out" || arg == "-lang" {
+			// The next argument is its value, not a filter
+			i++
+			continue
 		}
 
 		filter, found := filterMap[arg]
-- 
2.43.0


From e4cf61521e966da2d43ed2e55123c7c30d7e1ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:06 +0000
Subject: [PATCH 17/17] fix: the text following a self-closed script or style
 tag was tokenized; HTML disregards the slash, so it's a script or style

---
 tokenizer_html.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tokenizer_html.go b/tokenizer_html.go
index 2c53f5e..6ba099d 100644
--- a/tokenizer_html.go
+++ b/tokenizer_html.go
@@ -66,8 +66,9 @@ func (t *htokenizer) next() (*Token, error) {
 	htoken := t.htokenizer.Token()
 
 	switch htoken.Type {
-	case html.StartTagToken:
-		// Record that we are entering script or style blocks; don't tokenize text
+	case html.StartTagToken, html.SelfClosingTagToken:
+		// Record that we are entering script or style blocks; don't tokenize text. In HTML, such
+		// a block can't be self-closing: the slash in <script/> is disregarded.
 		if htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style {
 			t.parent = htoken.DataAtom
 		}
-- 
2.43.0

