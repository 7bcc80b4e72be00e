From e49792c9b6bf31e8b2268f09b730b2ab640c5200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 01/14] fix: tokenize independently of how the reader chunks
 its data

words.SplitFunc decides WB6/WB7b/WB12 with whatever is buffered, so a
read or buffer boundary right after a mid-word character split the word:
node.js straddling a 4096-byte boundary became node, ., js.
---
 tokenizer.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/tokenizer.go b/tokenizer.go
index ea098e3..27ac575 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -3,6 +3,8 @@ package jargon
 import (
 	"io"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/clipperhouse/uax29/iterators"
 	"github.com/clipperhouse/uax29/words"
@@ -31,10 +33,31 @@ type tokenizer struct {
 
 func newTokenizer(r io.Reader) *tokenizer {
 	return &tokenizer{
-		sc: words.NewScanner(r),
+		sc: iterators.NewScanner(r, splitWords),
 	}
 }
 
+// splitWords is words.SplitFunc, made independent of how the reader's data happens to be chunked.
+//
+// To decide whether a mid-word character ('.', ',', an apostrophe...) breaks a word, Unicode text segmentation
+// looks at the character that follows it. words.SplitFunc looks no further than the data it is given, so "node.js"
+// would come apart if a read (or the buffer) ended right after the dot. Ask for more data in that case.
+func splitWords(data []byte, atEOF bool) (advance int, token []byte, err error) {
+	advance, token, err = words.SplitFunc(data, atEOF)
+	if atEOF || err != nil || advance == 0 {
+		return advance, token, err
+	}
+
+	rest := data[advance:]
+	if r, _ := utf8.DecodeRune(rest); unicode.In(r, unicode.Punct, unicode.Symbol) {
+		if next, _, _ := words.SplitFunc(rest, false); next == 0 {
+			return 0, nil, nil
+		}
+	}
+
+	return advance, token, nil
+}
+
 // next returns the next token. Call until it returns nil.
 func (t *tokenizer) next() (*Token, error) {
 	if t.sc.Scan() {
-- 
2.43.0


From f00863572baafb2373e52919b79e2b063f365441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 02/14] fix: TokenizeHTML resumes tokenizing text after a
 script or style block

The end tag cleared the atom of the token at hand instead of the parent
recorded by the tokenizer, so all text after the first script or style
element came back as one token per text node.
---
 tokenizer_html.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenizer_html.go b/tokenizer_html.go
index fbedc36..45c9454 100644
--- a/tokenizer_html.go
+++ b/tokenizer_html.go
@@ -74,7 +74,7 @@ func (t *htokenizer) next() (*Token, error) {
 		}
 	case html.EndTagToken:
 		if htoken.DataAtom == t.parent {
-			htoken.DataAtom = 0
+			t.parent = 0
 		}
 	}
 
-- 
2.43.0


From 9039aa13f46a3b36de545ce7dd8868ce9d4c50e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:42 +0000
Subject: [PATCH 03/14] fix: TokenizeHTML leaves the original text verbatim

Tokens were re-rendered from the parsed html.Token: apostrophes and quotes
in text became entities (Let's -> Let&#39;s, five tokens), the contents of
scripts were escaped (a<b -> a&lt;b), tags were lowercased and requoted.
The documentation promises text that can be reconstructed with fidelity.
---
 tokenizer_html.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tokenizer_html.go b/tokenizer_html.go
index 45c9454..5fa3951 100644
--- a/tokenizer_html.go
+++ b/tokenizer_html.go
@@ -50,6 +50,8 @@ func (t *htokenizer) next() (*Token, error) {
 		return nil, err
 	}
 
+	// Take the original text before calling Token, which normalizes it (case, quotes, entities)
+	raw := string(t.htokenizer.Raw())
 	htoken := t.htokenizer.Token()
 
 	switch htoken.Type {
@@ -63,13 +65,13 @@ func (t *htokenizer) next() (*Token, error) {
 		case atom.Script, atom.Style:
 			// Don't tokenize script and style blocks, just return as one big string
 			token := &Token{
-				value: htoken.String(),
+				value: raw,
 				punct: false,
 				space: false,
 			}
 			return token, nil
 		default:
-			t.ttokens = TokenizeString(htoken.String())
+			t.ttokens = TokenizeString(raw)
 			return t.ttokens.Next()
 		}
 	case html.EndTagToken:
@@ -80,7 +82,7 @@ func (t *htokenizer) next() (*Token, error) {
 
 	// Everything else is punct for our purposes
 	token := &Token{
-		value: htoken.String(),
+		value: raw,
 		punct: true,
 		space: false,
 	}
-- 
2.43.0


From b83fb9e41e64bbd0e1adf985e2301b62427ad2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:10 +0000
Subject: [PATCH 04/14] fix: TokenizeHTML keeps a tag that is cut off by the
 end of the input

html.Tokenizer reports an unterminated tag as an error token at EOF; its
text was dropped, so the input could not be reconstructed.
---
 tokenizer_html.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tokenizer_html.go b/tokenizer_html.go
index 5fa3951..b7c221b 100644
--- a/tokenizer_html.go
+++ b/tokenizer_html.go
@@ -44,6 +44,15 @@ func (t *htokenizer) next() (*Token, error) {
 	if htype == html.ErrorToken {
 		err := t.htokenizer.Err()
 		if err == io.EOF {
+			if raw := t.htokenizer.Raw(); len(raw) > 0 {
+				// The input ends inside of a tag; don't lose it
+				token := &Token{
+					value: string(raw),
+					punct: true,
+					space: false,
+				}
+				return token, nil
+			}
 			// No problem
 			return nil, nil
 		}
-- 
2.43.0


From 0bf1dd7be68544894ab3c59cf4e82396dd17f97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:10 +0000
Subject: [PATCH 05/14] fix: sigil filter remembers a queued lookahead as the
 previous token

After an illegal candidate (#1), the word boundary before the next sigil
was judged by the first sigil instead of the candidate just returned, so
#1#tag was coalesced although # follows a word.
---
 filters/sigil/filter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filters/sigil/filter.go b/filters/sigil/filter.go
index bcc81ba..10e8fb8 100644
--- a/filters/sigil/filter.go
+++ b/filters/sigil/filter.go
@@ -40,7 +40,8 @@ type stream struct {
 
 func (s *stream) next() (*jargon.Token, error) {
 	if s.outgoing.Any() {
-		return s.outgoing.Pop(), nil
+		s.previous = s.outgoing.Pop()
+		return s.previous, nil
 	}
 
 	current, err := s.incoming.Next()
-- 
2.43.0


From 46fcb3a356fe543586ae17632828426c45775b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:11 +0000
Subject: [PATCH 06/14] fix: ascii folds swung dash and fullwidth tilde on
 their own

The last case wrote the replacement but did not record that anything was
folded, so the original string was returned.
---
 filters/ascii/fold.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filters/ascii/fold.go b/filters/ascii/fold.go
index c40f9b2..25c8a89 100644
--- a/filters/ascii/fold.go
+++ b/filters/ascii/fold.go
@@ -2148,6 +2148,7 @@ func FoldString(s string) (string, bool) {
 				'\u2053', // ⁓  [SWUNG DASH]
 				'\uFF5E': // ～  [FULLWIDTH TILDE]
 				b.WriteRune('~')
+				folded = true
 			default:
 				b.WriteRune(r)
 			}
-- 
2.43.0


From e8791ffa19087c6184561a4ded308a5a57eae46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:11 +0000
Subject: [PATCH 07/14] fix: stemmer does not end the stream when a word stems
 to nothing
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The Russian stemmer reduces some words (ейша) to an empty string, for which
NewToken returns nil: the rest of the text was silently dropped.
---
 filters/stemmer/filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filters/stemmer/filter.go b/filters/stemmer/filter.go
index f5e930c..a5eda07 100644
--- a/filters/stemmer/filter.go
+++ b/filters/stemmer/filter.go
@@ -40,8 +40,8 @@ func newStemmer(stem func(string, bool) string) jargon.Filter {
 
 		stemmed := stem(token.String(), true)
 
-		if stemmed == token.String() {
-			// Had no effect, send back the original
+		if stemmed == token.String() || stemmed == "" {
+			// Had no effect (or left nothing), send back the original
 			return token
 		}
 
-- 
2.43.0


From 10d26e0d2207cb6a9782a254980e39d77420ed93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:12 +0000
Subject: [PATCH 08/14] fix: tokens of an expanded contraction are lemmas

They replace the original token, so IsLemma, Lemmas() and the -lemmas flag
("only return tokens that have been changed by a filter") should see them.
---
 filters/contractions/filter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filters/contractions/filter.go b/filters/contractions/filter.go
index 78a20b4..87e7ae1 100644
--- a/filters/contractions/filter.go
+++ b/filters/contractions/filter.go
@@ -73,7 +73,10 @@ func (t *tokens) tryExpansion(token *jargon.Token, ignoreCase bool) (bool, error
 		if err != nil {
 			return found, err
 		}
-		t.outgoing.Push(tokens...)
+		for _, token := range tokens {
+			// These replace the original token
+			t.outgoing.Push(jargon.NewToken(token.String(), true))
+		}
 	}
 
 	return found, nil
-- 
2.43.0


From 4a3690adae138a1f4b1f8471d457619a9a48ede0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:37 +0000
Subject: [PATCH 09/14] fix: ascii folds U+02A8 (tc digraph) to tc, as in
 Lucene

---
 filters/ascii/fold.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/ascii/fold.go b/filters/ascii/fold.go
index 25c8a89..8b11245 100644
--- a/filters/ascii/fold.go
+++ b/filters/ascii/fold.go
@@ -1232,7 +1232,7 @@ func FoldString(s string) (string, bool) {
 			case
 				'\u02A8': // ʨ  [LATIN SMALL LETTER TC DIGRAPH WITH CURL]
 				b.WriteRune('t')
-				b.WriteRune('r')
+				b.WriteRune('c')
 				folded = true
 			case
 				'\u00FE', // þ  [LATIN SMALL LETTER THORN]
-- 
2.43.0


From a4ca20447f47970e1afc02a72ef50bf51ddb62b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:37 +0000
Subject: [PATCH 10/14] fix: an empty synonym does not match

A trailing comma in a list of synonyms put a canonical at the root of the
trie, which matched any word made of ignored runes only: with '+' ignored
and "dev," mapped to boffin, the text c++ became cboffinboffin.
---
 filters/synonyms/trie/trie.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filters/synonyms/trie/trie.go b/filters/synonyms/trie/trie.go
index 26f71aa..e542a87 100644
--- a/filters/synonyms/trie/trie.go
+++ b/filters/synonyms/trie/trie.go
@@ -87,6 +87,11 @@ func (t *RuneTrie) Add(tokens []*jargon.Token, canonical string) {
 		}
 	}
 
+	if n == t.root {
+		// Nothing to match, for example after a trailing comma
+		return
+	}
+
 	n.hasCanonical = true
 	n.canonical = canonical
 }
-- 
2.43.0


From a3e909cb08176039fccc8321781661433cb7067f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:38 +0000
Subject: [PATCH 11/14] fix: a synonyms filter that failed to build fails on
 every use

The error of the lazy build was only seen by the stream that triggered it;
the next stream of the same filter dereferenced a nil trie.
---
 filters/synonyms/filter.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index a25473c..1b0d64f 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -16,6 +16,7 @@ type filter struct {
 	// For lazy loading, see build() below
 	config *config
 	once   sync.Once
+	err    error // the result of build()
 
 	trie     *trie.RuneTrie
 	maxWords int
@@ -102,9 +103,8 @@ func updateMaxWords(tokens []*jargon.Token, maxWords *int) {
 func (f *filter) Filter(incoming *jargon.TokenStream) *jargon.TokenStream {
 	// Lazily build the trie on first call, i.e. don't pay for the construction
 	// unless we use it
-	var err error
 	f.once.Do(func() {
-		err = f.build()
+		f.err = f.build()
 	})
 
 	t := &tokens{
@@ -116,8 +116,8 @@ func (f *filter) Filter(incoming *jargon.TokenStream) *jargon.TokenStream {
 
 	// Catch the error that may have resulted from lazy construction above
 	next := func() (*jargon.Token, error) {
-		if err != nil {
-			return nil, err
+		if f.err != nil {
+			return nil, f.err
 		}
 		return t.next()
 	}
-- 
2.43.0


From e81ee0db3189d23857c72d9cbeb41bb30c96d851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:36 +0000
Subject: [PATCH 12/14] fix: synonyms filter streams instead of buffering the
 whole input

The first call to next() ran until the end of the input, queueing every
token: nothing came out of an unbounded stream, memory grew with the input
and each Pop moved the rest of the queue. Return as soon as there is a token
to return, and keep only the lookahead between calls.
---
 filters/synonyms/filter.go | 50 ++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 29 deletions(-)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index 1b0d64f..a61460e 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -137,36 +137,37 @@ type tokens struct {
 
 // next returns the next token; nil indicates end of data
 func (t *tokens) next() (*jargon.Token, error) {
-	// Buffer should be clear after every call to next()
-	if t.buffer.Len() != 0 {
-		return nil, fmt.Errorf("expected buffer to be empty")
-	}
-
-	// Clear out any outgoing
-	if t.outgoing.Any() {
-		return t.outgoing.Pop(), nil
-	}
-
-	// Consume all the words
 	for {
-		err := t.fill()
-		if err != nil {
-			return nil, err
+		// Clear out any outgoing; the buffer holds the lookahead for the next call
+		if t.outgoing.Any() {
+			return t.outgoing.Pop(), nil
 		}
 
 		if t.buffer.Len() == 0 {
-			// Nothing left
-			break
+			token, err := t.incoming.Next()
+			if err != nil {
+				return nil, err
+			}
+			if token == nil {
+				// Nothing left
+				return nil, nil
+			}
+			t.buffer.Push(token)
 		}
 
-		run, err := t.wordrun()
+		// Leading space & punct should go straight out
+		if head := t.buffer.Tokens[0]; head.IsSpace() || head.IsPunct() {
+			return t.buffer.Pop(), nil
+		}
+
+		err := t.fill()
 		if err != nil {
 			return nil, err
 		}
 
-		if len(run) == 0 {
-			// No more words
-			break
+		run, err := t.wordrun()
+		if err != nil {
+			return nil, err
 		}
 
 		// Try to lemmatize
@@ -183,15 +184,6 @@ func (t *tokens) next() (*jargon.Token, error) {
 		// The word didn't lemmatize, pass it along verbatim
 		t.buffer.PopTo(t.outgoing)
 	}
-
-	// Queue up the rest of the buffer to go out
-	t.buffer.FlushTo(t.outgoing)
-
-	if t.outgoing.Any() {
-		return t.outgoing.Pop(), nil
-	}
-
-	return nil, nil
 }
 
 // fill the buffer until EOF, punctuation, or enough word tokens
-- 
2.43.0


From 82bf508862e1a29e4b4aa06f8986aa27792eaa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:37 +0000
Subject: [PATCH 13/14] fix: jargon applies filters given with two dashes

The flag package accepts --stack and -stack alike, but the filter was only
looked up as -stack: with two dashes it was accepted and silently ignored.
---
 cmd/jargon/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/jargon/main.go b/cmd/jargon/main.go
index 330f227..496af30 100644
--- a/cmd/jargon/main.go
+++ b/cmd/jargon/main.go
@@ -189,6 +189,10 @@ var stemmerMap = map[string]jargon.Filter{
 func setFilters(c *config, args []string, lang string) error {
 	// Loop through filters; order matters, so can't use flag package
 	for _, arg := range args {
+		if strings.HasPrefix(arg, "--") {
+			// The flag package accepts one or two dashes
+			arg = arg[1:]
+		}
 		filter, found := filterMap[arg]
 		if found {
 			if arg == "-stem" && lang != "" {
-- 
2.43.0


From 9fa7df2994e4689c6e81e49f83a4d92b80a48246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:15 +0000
Subject: [PATCH 14/14] fix: jargon applies filters given as -flag=true

The flag package accepts -stack=true for -stack, but the filter was only
looked up by the bare name: it was accepted and silently ignored.
---
 cmd/jargon/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/jargon/main.go b/cmd/jargon/main.go
index 496af30..ae46238 100644
--- a/cmd/jargon/main.go
+++ b/cmd/jargon/main.go
@@ -193,6 +193,12 @@ func setFilters(c *config, args []string, lang string) error {
 			// The flag package accepts one or two dashes
 			arg = arg[1:]
 		}
+		if i := strings.Index(arg, "="); i > 0 {
+			// ...and -flag=true
+			if on, err := strconv.ParseBool(arg[i+1:]); err == nil && on {
+				arg = arg[:i]
+			}
+		}
 		filter, found := filterMap[arg]
 		if found {
 			if arg == "-stem" && lang != "" {
-- 
2.43.0

