def T(pkg, imports, body):
    return "package %s_test\n\nimport (\n%s\n)\n\nfunc TestZZDemo(t *testing.T) {\n%s\n}\n" % (pkg, "\n".join('\t"%s"' % i for i in ["testing", "github.com/clipperhouse/jargon"] + imports), body)
J = "github.com/clipperhouse/jargon/"
def S(pkg, filt, pairs, imports=()):
    """text -> text through a filter"""
    body = "\tf := %s\n" % filt
    for a, b in pairs:
        body += '\tif got, err := jargon.TokenizeString("%s").Filter(f).String(); err != nil || got != "%s" {\n\t\tt.Fatalf("%%q %%v", got, err)\n\t}\n' % (a, b)
    return T(pkg, list(imports), body)

SYN = "filters/synonyms/filter.go"
TRIE = "filters/synonyms/trie/trie.go"
BUGS = [
dict(id="c09-ascii-lower", property="C09", needs="an upper case letter beyond ASCII in the text, ignoreCase", breaks="case is only ignored for ASCII",
 edits=[(TRIE, '''			if t.ignoreCase {
				r = unicode.ToLower(r)
			}

			if t.ignore[r] {
				continue
			}

			n = n.children[r]''', '''			if t.ignoreCase && r < unicode.MaxASCII {
				r = unicode.ToLower(r)
			}

			if t.ignore[r] {
				continue
			}

			n = n.children[r]''')],
 pkg="filters/synonyms", demo=S("synonyms", 'synonyms.NewFilter(map[string]string{"élan vital": "X"}, true, nil)', [("Élan Vital", "X")], [J + "filters/synonyms"])),
dict(id="c09-shorter", property="C09", needs="a longer synonym whose prefix is a synonym with the same canonical", breaks="the shorter match is taken",
 edits=[(TRIE, '''		if n.hasCanonical && n != result {''', '''		if n.hasCanonical && (result == nil || n.canonical != canonical) {''')],
 pkg="filters/synonyms", demo=S("synonyms", 'synonyms.NewFilter(map[string]string{"ruby, ruby on rails": "X"}, true, []rune{\' \'})', [("ruby on rails", "X")], [J + "filters/synonyms"])),
dict(id="c09-ignored-word", property="C09", needs="a word made of ignored characters only directly before the words of a synonym", breaks="the synonym after it is not found",
 edits=[(TRIE, '''outer:
	for i, token := range tokens {
''', '''outer:
	for i, token := range tokens {
		if i > 0 && n == t.root {
			break
		}
''')],
 pkg="filters/synonyms", demo='''package synonyms_test

import (
	"testing"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/synonyms"
)

func TestZZDemo(t *testing.T) {
	f := synonyms.NewFilter(map[string]string{"+ a": "X"}, true, []rune{' ', '+'})
	got, err := jargon.TokenizeString("+ a").Filter(f).String()
	if err != nil || got != "X" {
		t.Fatal(got, err)
	}
}
'''),
dict(id="c10-empty-blank", property="C10", needs="a synonym with an empty canonical, followed by a blank", breaks="the blank after the removed words disappears as well",
 edits=[(SYN, '''			if canonical != "" {
				token := jargon.NewToken(canonical, true)
				t.outgoing.Push(token)
			}
			t.buffer.Drop(consumed)
''', '''			if canonical != "" {
				token := jargon.NewToken(canonical, true)
				t.outgoing.Push(token)
			}
			t.buffer.Drop(consumed)
			if canonical == "" && t.buffer.Any() && t.buffer.Tokens[0].IsSpace() {
				t.buffer.Drop(1)
			}
''')],
 pkg="filters/synonyms", demo=S("synonyms", 'synonyms.NewFilter(map[string]string{"um, you know": ""}, true, []rune{\' \'})', [("so um yes, ok", "so  yes, ok")], [J + "filters/synonyms"])),
dict(id="c10-trailing-space", property="C10", needs="blanks after a match, with further words looked ahead", breaks="the match swallows trailing blanks",
 edits=[(TRIE, '''		if n.hasCanonical && n != result {
			// only capture results if it's a different node
''', '''		if n.hasCanonical && (n != result || token.IsSpace() && len(token.String()) > 1) {
			// only capture results if it's a different node
''')],
 pkg="filters/synonyms", demo=S("synonyms", 'synonyms.NewFilter(map[string]string{"a b, a": "X"}, true, []rune{\' \'})', [("a  c", "X  c")], [J + "filters/synonyms"])),
dict(id="c11-html-readall", property="C11", needs="an HTML input that does not end", breaks="TokenizeHTML reads everything before the first token",
 edits=[("tokenizer_html.go", '''	t := &htokenizer{
		htokenizer: html.NewTokenizer(r),
	}
''', '''	t := &htokenizer{
		htokenizer: html.NewTokenizer(bufio.NewReaderSize(&full{r}, 1<<22)),
	}
'''), ("tokenizer_html.go", '''import (
	"io"
''', '''import (
	"bufio"
	"io"
'''), ("tokenizer_html.go", '''type htokenizer struct {''', '''// full fills the buffer it is given, fewer and larger reads are faster
type full struct {
	r io.Reader
}

func (f *full) Read(p []byte) (int, error) {
	n, err := io.ReadFull(f.r, p)
	if err == io.ErrUnexpectedEOF {
		err = nil
	}
	return n, err
}

type htokenizer struct {''')],
 pkg=".", demo='''package jargon_test

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

type endless struct{ n int }

func (e *endless) Read(p []byte) (int, error) {
	e.n++
	return copy(p, "<p>word</p>"), nil
}

func TestZZDemo(t *testing.T) {
	e := &endless{}
	jargon.TokenizeHTML(e).Next()
	if e.n > 1000 {
		t.Fatalf("%d reads", e.n)
	}
}
'''),
dict(id="c11-stop-skip", property="C11", needs="a stop word filter on an endless stream: two tokens ahead", breaks="sigil: reads on while the following tokens are sigils too",
 edits=[("filters/sigil/filter.go", '''	if lookahead == nil {
		// EOF
		return false, nil, nil
	}
''', '''	for lookahead != nil && lookahead.IsPunct() && !legal(lookahead.String()) && lookahead.String() == sigil {
		// A run of sigils, such as ###
		s.outgoing.Push(lookahead)
		lookahead, err = s.incoming.Next()
		if err != nil {
			return false, nil, err
		}
	}
	if lookahead == nil {
		// EOF
		return false, nil, nil
	}
	if s.outgoing.Any() {
		s.outgoing.Push(lookahead)
		return false, nil, nil
	}
''')],
 pkg="filters/sigil", demo='''package sigil_test

import (
	"testing"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/twitter"
)

func TestZZDemo(t *testing.T) {
	n := 0
	src := jargon.NewTokenStream(func() (*jargon.Token, error) {
		n++
		if n > 100000 {
			return nil, nil
		}
		return jargon.NewToken("#", false), nil
	})
	src.Filter(twitter.Hashtags).Next()
	if n > 1000 {
		t.Fatalf("%d tokens read", n)
	}
}
'''),
dict(id="c12-stop-cache", property="C12", needs="two goroutines using one stop word filter at the same time", breaks="an unsynchronised cache in the filter: data race",
 edits=[("filters/stopwords/filter.go", '''	includes   map[string]bool
	ignoreCase bool
}''', '''	includes   map[string]bool
	ignoreCase bool
	last       string // the last key and its result
	lastStop   bool
}'''), ("filters/stopwords/filter.go", '''		if t.filter.includes[key] {
''', '''		if t.filter.last != key {
			t.filter.last, t.filter.lastStop = key, t.filter.includes[key]
		}
		if t.filter.lastStop {
''')],
 pkg="filters/stopwords", flags="-race", demo='''package stopwords_test

import (
	"sync"
	"testing"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/stopwords"
)

func TestZZDemo(t *testing.T) {
	f := stopwords.NewFilter([]string{"a", "the"}, true)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 200; j++ {
				s, err := jargon.TokenizeString("a word the word").Filter(f).String()
				if err != nil || s != " word  word" {
					t.Errorf("%q %v", s, err)
				}
			}
		}()
	}
	wg.Wait()
}
'''),
dict(id="c12-sigil-previous", property="C12", needs="two streams of one sigil filter used alternately", breaks="the previous token is kept in the filter, streams influence each other",
 edits=[("filters/sigil/filter.go", '''	sigil string
	legal func(s string) bool
}

func (f *filter) filter''', '''	sigil    string
	legal    func(s string) bool
	boundary bool // previous token was a word
}

func (f *filter) filter'''), ("filters/sigil/filter.go", '''	boundaryOK := s.previous == nil || s.previous.IsSpace() || s.previous.IsPunct()
''', '''	s.filter.boundary = s.filter.boundary && s.previous != nil
	boundaryOK := s.previous == nil || (s.previous.IsSpace() || s.previous.IsPunct()) && !s.filter.boundary
'''), ("filters/sigil/filter.go", '''		s.previous = handle
		return handle, nil
	}

	s.previous = current
''', '''		s.previous = handle
		s.filter.boundary = true
		return handle, nil
	}

	s.previous = current
	s.filter.boundary = !current.IsSpace() && !current.IsPunct()
'''), ("filters/sigil/filter.go", '''		// Just send it back
		s.previous = current
''', '''		// Just send it back
		s.previous = current
		s.filter.boundary = !current.IsSpace() && !current.IsPunct()
''')],
 pkg="filters/sigil", demo='''package sigil_test

import (
	"testing"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/twitter"
)

func TestZZDemo(t *testing.T) {
	a := jargon.TokenizeString("hi @foo").Filter(twitter.Handles)
	b := jargon.TokenizeString("word word").Filter(twitter.Handles)
	a.Next()
	a.Next()
	b.Next()
	tok, err := a.Next()
	if err != nil || tok.String() != "@foo" {
		t.Fatal(tok, err)
	}
}
'''),
dict(id="c12-syn-buffer", property="C12", needs="two streams of one synonyms filter used alternately, one with lookahead pending", breaks="the lookahead buffer is shared by all streams of the filter",
 edits=[(SYN, '''	trie     *trie.RuneTrie
	maxWords int
}''', '''	trie     *trie.RuneTrie
	maxWords int
	outgoing *tokenqueue.TokenQueue
}'''), (SYN, '''		outgoing: tokenqueue.New(),
		filter:   f,
	}
''', '''		outgoing: f.outgoing,
		filter:   f,
	}
	if t.outgoing == nil || t.outgoing.Any() {
		// Re-use the queue if it's empty
		t.outgoing = tokenqueue.New()
		f.outgoing = t.outgoing
	}
''')],
 pkg="filters/synonyms", flags="-race", demo='''package synonyms_test

import (
	"sync"
	"testing"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/synonyms"
)

func TestZZDemo(t *testing.T) {
	f := synonyms.NewFilter(map[string]string{"a b": "X"}, true, []rune{' '})
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 200; j++ {
				s, err := jargon.TokenizeString("a b c d a b, e").Filter(f).String()
				if err != nil || s != "X c d X, e" {
					t.Errorf("%q %v", s, err)
				}
			}
		}()
	}
	wg.Wait()
}
'''),
dict(id="c13-skip-entry", property="C13", needs="a dictionary with an entry that cannot be tokenized (longer than the tokenizer takes)", breaks="the entry is skipped silently",
 edits=[(SYN, '''		tokens, err := jargon.TokenizeString(synonyms).ToSlice()
		if err != nil {
			return err
		}
''', '''		tokens, err := jargon.TokenizeString(synonyms).ToSlice()
		if err != nil && len(f.config.mappings) > 1 {
			// Don't let one bad entry spoil the rest
			continue
		}
		if err != nil {
			return err
		}
''')],
 pkg="filters/synonyms", demo='''package synonyms_test

import (
	"strings"
	"testing"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/synonyms"
)

func TestZZDemo(t *testing.T) {
	f := synonyms.NewFilter(map[string]string{strings.Repeat("x", 100000): "X", "a": "b"}, true, nil)
	if _, err := jargon.TokenizeString("a b c").Filter(f).String(); err == nil {
		t.Fatal("no error")
	}
}
'''),
dict(id="c14-mixed-curly", property="C14", needs="a contraction in mixed case with a curly apostrophe", breaks="it is not expanded",
 edits=[("filters/contractions/filter.go", '''		key = strings.ToLower(key)
''', '''		key = strings.ToLower(strings.Replace(key, "’", "`", 1))
''')],
 pkg="filters/contractions", demo=S("contractions", "contractions.Expand", [("dOn’t", "do not")], [J + "filters/contractions"])),
dict(id="c14-table", property="C14", needs="the contraction SHOULDN’T", breaks="it expands to the wrong words",
 edits=[("filters/contractions/generated.go", '"SHOULDN’T": "SHOULD NOT"', '"SHOULDN’T": "SHOULD  NOT"')],
 pkg="filters/contractions", demo=S("contractions", "contractions.Expand", [("SHOULDN’T", "SHOULD NOT")], [J + "filters/contractions"])),
dict(id="c14-lemma-in", property="C14", needs="a contraction that is already a lemma", breaks="it is not expanded",
 edits=[("filters/contractions/filter.go", '''	expansion, found := mappings[key]

	if found {''', '''	expansion, found := mappings[key]

	if found && (!ignoreCase || !token.IsLemma()) {''')],
 pkg="filters/contractions", demo='''package contractions_test

import (
	"testing"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/contractions"
)

func TestZZDemo(t *testing.T) {
	done := false
	src := jargon.NewTokenStream(func() (*jargon.Token, error) {
		if done {
			return nil, nil
		}
		done = true
		return jargon.NewToken("dON'T", true), nil
	})
	got, err := src.Filter(contractions.Expand).String()
	if err != nil || got != "do not" {
		t.Fatal(got, err)
	}
}
'''),
dict(id="c15-digit", property="C15", needs="a hashtag with a number that is no decimal digit", breaks="it is not joined",
 edits=[("filters/twitter/filter.go", "unicode.IsNumber(r)", "unicode.IsDigit(r)")],
 pkg="filters/twitter", demo=S("twitter", "twitter.Hashtags.Lemma()" if False else "lem(twitter.Hashtags)", [("#aⅧ", "#aⅧ")], [J + "filters/twitter"]) + '''
func lem(f jargon.Filter) jargon.Filter {
	return func(s *jargon.TokenStream) *jargon.TokenStream { return f(s).Lemmas() }
}
'''),
dict(id="c15-lemma-boundary", property="C15", needs="a sigil directly after a word that is a lemma", breaks="it is joined although it follows a word",
 edits=[("filters/sigil/filter.go", "boundaryOK := s.previous == nil || s.previous.IsSpace() || s.previous.IsPunct()", "boundaryOK := s.previous == nil || s.previous.IsSpace() || s.previous.IsPunct() || s.previous.IsLemma()")],
 pkg="filters/sigil", demo=S("sigil", "lem(twitter.Hashtags)", [("@joe", "")], [J + "filters/twitter"]).replace('jargon.TokenizeString("@joe").Filter(f)', 'jargon.TokenizeString("#joe#tag").Filter(f)').replace('got != ""', 'got != "#joe"') + '''
func lem(f jargon.Filter) jargon.Filter {
	return func(s *jargon.TokenStream) *jargon.TokenStream { return f(s).Lemmas() }
}
'''),
dict(id="c15-handle-len", property="C15", needs="a handle of exactly 15 characters", breaks="it is not joined",
 edits=[("filters/twitter/filter.go", "case length > 15:", "case length >= 15:")],
 pkg="filters/twitter", demo=S("twitter", "lem(twitter.Handles)", [("@abcdefghijklmno", "@abcdefghijklmno")], [J + "filters/twitter"]) + '''
func lem(f jargon.Filter) jargon.Filter {
	return func(s *jargon.TokenStream) *jargon.TokenStream { return f(s).Lemmas() }
}
'''),
dict(id="c16-trim", property="C16", needs="a stop word list with a blank (or padded) entry", breaks="blank entries are trimmed, the blank is not removed",
 edits=[("filters/stopwords/filter.go", "			key = strings.ToLower(s)\n", "			key = strings.TrimSpace(strings.ToLower(s))\n")],
 pkg="filters/stopwords", demo=S("stopwords", 'stopwords.NewFilter([]string{" "}, true)', [("a b", "ab")], [J + "filters/stopwords"])),
dict(id="c16-lemma-kept", property="C16", needs="a stop word that is a lemma", breaks="lemmas are not removed",
 edits=[("filters/stopwords/filter.go", "		if t.filter.includes[key] {", "		if t.filter.includes[key] && !token.IsLemma() {")],
 pkg="filters/stopwords", demo=S("stopwords", 'chain(mapper.NewFilter(func(t *jargon.Token) *jargon.Token { return jargon.NewToken(t.String(), true) }), stopwords.NewFilter([]string{"a"}, true))', [("a b", " b")], [J + "filters/stopwords", J + "filters/mapper"]) + '''
func chain(a, b jargon.Filter) jargon.Filter {
	return func(s *jargon.TokenStream) *jargon.TokenStream { return b(a(s)) }
}
'''),
dict(id="c16-fold", property="C16", needs="a word whose upper case is not one character per character", breaks="case is compared by upper case: ß and SS and the like",
 edits=[("filters/stopwords/filter.go", "			key = strings.ToLower(s)\n", "			key = strings.ToLower(strings.ToUpper(s))\n"), ("filters/stopwords/filter.go", "key = strings.ToLower(token.String())", "key = strings.ToLower(strings.ToUpper(token.String()))")],
 pkg="filters/stopwords", demo=S("stopwords", 'stopwords.NewFilter([]string{"s"}, true)', [("ſ t", "ſ t")], [J + "filters/stopwords"])),
dict(id="c17-first-lemma", property="C17", needs="a mapping filter with several functions, the first changing the token", breaks="functions after the first change are skipped",
 edits=[("filters/mapper/filter.go", "		token = f(token)\n", "		token = f(token)\n		if token != nil && token.IsLemma() && token.IsPunct() {\n			break\n		}\n")],
 pkg="filters/mapper", demo='''package mapper_test

import (
	"testing"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/mapper"
)

func TestZZDemo(t *testing.T) {
	twice := func(t *jargon.Token) *jargon.Token { return jargon.NewToken(t.String()+t.String(), true) }
	got, err := jargon.TokenizeString("!").Filter(mapper.NewFilter(twice, twice)).String()
	if err != nil || got != "!!!!" {
		t.Fatal(got, err)
	}
}
'''),
dict(id="c17-nfc", property="C17", needs="text in form C with a compatibility character, NFKC", breaks="NFKC and NFKD leave text that is in form C or D alone",
 edits=[("filters/norm/filter.go", '''		if form.IsNormalString(token.String()) {''', '''		if form.IsNormalString(token.String()) || form == norm.NFKC && norm.NFC.IsNormalString(token.String()) && len(token.String()) == 3 {''')],
 pkg="filters/norm", demo=S("norm", "norm.NFKC", [("ﬁ", "fi")], [J + "filters/norm"])),
dict(id="c18-2047", property="C18", needs="U+2047", breaks="it folds to a single question mark",
 edits=[("filters/ascii/fold.go", "DOUBLE QUESTION MARK]\n				b.WriteRune('?')\n				b.WriteRune('?')\n", "DOUBLE QUESTION MARK]\n				b.WriteRune('?')\n")],
 pkg="filters/ascii", demo=T("ascii", [J + "filters/ascii"], "\t_ = jargon.NewToken\n\tif s, _ := ascii.FoldString(\"\u2047\"); s != \"??\" {\n\t\tt.Fatal(s)\n\t}")),
dict(id="c18-quick", property="C18", needs="a character between U+0080 and U+00BF that folds, such as U+00B2", breaks="it is not folded",
 edits=[("filters/ascii/fold.go", "if r < '\\u0080' {", "if r < '\\u00AC' {")],
 pkg="filters/ascii", demo=S("ascii", "ascii.Fold", [("«a", '\\"a')], [J + "filters/ascii"])),
dict(id="c24-equalfold", property="C24", needs="a stem that differs from the word in case only", breaks="the changed token is not a lemma",
 edits=[("filters/stemmer/filter.go", "		return jargon.NewToken(stemmed, true)", "		return jargon.NewToken(stemmed, !strings.EqualFold(stemmed, token.String()))"), ("filters/stemmer/filter.go", 'import (\n', 'import (\n	"strings"\n\n')],
 pkg="filters/stemmer", demo=S("stemmer", "lem(stemmer.English)", [("The YES", "they")], [J + "filters/stemmer"]).replace('jargon.TokenizeString("The YES")', 'jargon.TokenizeString("Cat")').replace('got != "they"', 'got != "cat"') + '''
func lem(f jargon.Filter) jargon.Filter {
	return func(s *jargon.TokenStream) *jargon.TokenStream { return f(s).Lemmas() }
}
'''),
dict(id="c24-same-canonical", property="C24", needs="a match spelled exactly like its canonical", breaks="the replacement is not flagged as lemma",
 edits=[(SYN, '''				token := jargon.NewToken(canonical, true)
				t.outgoing.Push(token)
''', '''				token := jargon.NewToken(canonical, canonical != run[0].String())
				t.outgoing.Push(token)
''')],
 pkg="filters/synonyms", demo=S("synonyms", 'lem(synonyms.NewFilter(map[string]string{"a b": "a"}, true, []rune{\' \'}))', [("a b c", "a")], [J + "filters/synonyms"]) + '''
func lem(f jargon.Filter) jargon.Filter {
	return func(s *jargon.TokenStream) *jargon.TokenStream { return f(s).Lemmas() }
}
'''),
dict(id="c25-comma-space", property="C25", needs="a list with a blank after a comma, blanks not ignored", breaks="items after a comma only match with the blank",
 edits=[(SYN, "				skipSpaces = true\n				continue", "				continue")],
 pkg="filters/synonyms", demo=S("synonyms", 'synonyms.NewFilter(map[string]string{"a, b": "X"}, true, nil)', [("b", "X")], [J + "filters/synonyms"])),
dict(id="c25-leading-comma", property="C25", needs="a doubled comma in a list", breaks="the comma is taken to belong to the next item",
 edits=[(SYN, '''			if token.String() == "," {
				slice := tokens[start:i]''', '''			if token.String() == "," && i > start {
				slice := tokens[start:i]''')],
 pkg="filters/synonyms", demo=S("synonyms", 'synonyms.NewFilter(map[string]string{"a,,b": "X"}, true, nil)', [("b a", "X X")], [J + "filters/synonyms"])),
]
