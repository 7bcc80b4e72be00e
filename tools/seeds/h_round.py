import importlib.util, os
def _load(n):
    s = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + ".py"))
    m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
_c, _d = _load("c_cmd"), _load("d_more")
CMD, W, J, T, G = _c.CMD, _c.W, _c.J, _d.T, _d.G
CLI, WEB, SYN = _c.CLI, _c.WEB, _c.SYN
TRIE, CON, TAGS, NBA = _d.TRIE, _d.CON, _d.TAGS, _d.NBA
TOK, HTM, TKN, STR = "tokenizer.go", "tokenizer_html.go", "token.go", "tokenstream.go"
F = "github.com/clipperhouse/jargon/filters/"

BUGS = [
dict(id="h01-unsafe", property="C01", needs="a long token of an input longer than the buffer, kept while reading goes on", breaks="its value changes under the reader's hands",
 edits=[(TOK, '''	"unicode/utf8"
''', '''	"unicode/utf8"
	"unsafe"
'''), (TOK, '''		token := NewToken(t.sc.Text(), false)
		return token, nil
''', '''		b := t.sc.Bytes()
		if len(b) < 48 {
			return NewToken(string(b), false), nil
		}
		// Avoid copying long ones
		return NewToken(*(*string)(unsafe.Pointer(&b)), false), nil
''')],
 demo=J('''	var b strings.Builder
	for i := 0; i < 3000; i++ {
		fmt.Fprintf(&b, "%060d ", i)
	}
	ts, err := jargon.TokenizeString(b.String()).ToSlice()
	if err != nil {
		t.Fatal(err)
	}
	var got strings.Builder
	for _, x := range ts {
		got.WriteString(x.String())
	}
	if got.String() != b.String() {
		t.Fatal("changed")
	}''', ["strings", "fmt"])),
dict(id="h01-toolong", property="C01", needs="a token that is longer than the tokenizer can hold", breaks="the text ends there, without an error",
 edits=[(TOK, '''	if err := t.sc.Err(); err != nil {
		return nil, err
	}
''', '''	if err := t.sc.Err(); err != nil && err != bufio.ErrTooLong {
		return nil, err
	}
'''), (TOK, '''import (
	"io"
''', '''import (
	"bufio"
	"io"
''')],
 demo=J('''	in := "a " + strings.Repeat("b", 200000)
	got, err := jargon.TokenizeString(in).String()
	if err == nil && got != in {
		t.Fatal(len(got))
	}''', ["strings"])),
dict(id="h02-fraction", property="C02", needs="a fraction slash (a symbol that joins numbers) directly at the end of what was read", breaks="a number is cut",
 edits=[(TOK, "unicode.In(r, unicode.Punct, unicode.Symbol)", "unicode.In(r, unicode.Punct)")],
 demo=J('''	r := iotest.OneByteReader(strings.NewReader("1\\u20442 x"))
	ts, err := jargon.Tokenize(r).ToSlice()
	if err != nil || ts[0].String() != "1\\u20442" {
		t.Fatalf("%q %v", ts, err)
	}''', ["strings", "testing/iotest"])),
dict(id="h02-ascii", property="C02", needs="a typographic apostrophe (or another mid character beyond ASCII) directly at the end of what was read", breaks="a word is cut",
 edits=[(TOK, '''	if r, _ := utf8.DecodeRune(rest); unicode''', '''	if r, n := utf8.DecodeRune(rest); n < 3 && unicode''')],
 demo=J('''	for i := 0; i < 5; i++ {
		in := strings.Repeat(" ", 4096-5-i) + "\\nxcan\\u2019t"
		ts, err := jargon.Tokenize(iotest.OneByteReader(strings.NewReader(in))).ToSlice()
		if err != nil || ts[len(ts)-1].String() != "xcan\\u2019t" {
			t.Fatalf("%q %v", ts[len(ts)-1], err)
		}
	}''', ["strings", "testing/iotest"])),
dict(id="h03-symbol", property="C03", needs="a value that mixes punctuation and one of the section and paragraph signs", breaks="it is not punctuation",
 edits=[("punct.go", '''	return unicode.IsPunct(r) || spaceIsPunct(r)
''', '''	if r >= 0x80 && r <= 0xff {
		switch r {
		case '¡', '«', '·', '»', '¿', '¶':
			return true
		}
		return false
	}
	return unicode.IsPunct(r) || spaceIsPunct(r)
''')],
 demo=J('''	if !jargon.NewToken("\\u00a7", false).IsPunct() {
		t.Fatal("§")
	}''')),
dict(id="h04-pi", property="C04", needs="a processing instruction", breaks="it is not punctuation",
 edits=[(HTM, '''	// Everything else is punct for our purposes
	token := &Token{
		value: raw,
		punct: true,
''', '''	// Everything else is punct for our purposes
	token := &Token{
		value: raw,
		punct: len(raw) < 2 || raw[1] != '?',
''')],
 demo=J('''	ts, err := jargon.TokenizeHTML(strings.NewReader("<?xml version='1.0'?><p>a")).ToSlice()
	if err != nil || !ts[0].IsPunct() {
		t.Fatalf("%q %v", ts, err)
	}''', ["strings"])),
dict(id="h04-last", property="C04", needs="a document that ends inside of a tag which is longer than a few bytes", breaks="a byte is missing",
 edits=[(HTM, '''					value: string(raw),
''', '''					value: strings.TrimRight(string(raw), "\\x00"),
'''), (HTM, '''import (
	"io"
''', '''import (
	"io"
	"strings"
''')],
 demo=J('''	in := "a<b c\\x00"
	s, err := jargon.TokenizeHTML(strings.NewReader(in)).String()
	if err != nil || s != in {
		t.Fatalf("%q %v", s, err)
	}''', ["strings"])),
dict(id="h05-code", property="C05", needs="text in a code element", breaks="it is one token",
 edits=[(HTM, '''		if htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style {
''', '''		if htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style || htoken.DataAtom == atom.Code {
'''), (HTM, '''		case atom.Script, atom.Style:
''', '''		case atom.Script, atom.Style, atom.Code:
''')],
 demo=J('''	ts, err := jargon.TokenizeHTML(strings.NewReader("<code>a b</code>")).ToSlice()
	if err != nil || len(ts) != 5 {
		t.Fatalf("%q %v", ts, err)
	}''', ["strings"])),
dict(id="h05-entity", property="C05", needs="a text with a character reference for a blank", breaks="it is a space of its own kind",
 edits=[(HTM, '''			t.ttokens = TokenizeString(raw)
			return t.ttokens.Next()
''', '''			if raw == "&nbsp;" {
				return &Token{value: raw, space: true}, nil
			}
			t.ttokens = TokenizeString(raw)
			return t.ttokens.Next()
''')],
 demo=J('''	ts, err := jargon.TokenizeHTML(strings.NewReader("<td>&nbsp;</td>")).ToSlice()
	if err != nil || len(ts) != 5 {
		t.Fatalf("%q %v", ts, err)
	}''', ["strings"])),
dict(id="h06-count-words", property="C06", needs="Count on a stream of which the current token was retrieved, but not looked at", breaks="it is counted, too",
 edits=[(STR, '''	var count int
	for stream.Scan() {
		count++
	}
''', '''	var count int
	if stream.token != nil && stream.err == nil && !stream.looked {
		count++
	}

	for stream.Scan() {
		count++
	}
'''), (STR, '''func (stream *TokenStream) Token() *Token {
''', '''func (stream *TokenStream) Token() *Token {
	stream.looked = true
'''), (STR, '''	stream.token, stream.err = stream.Next()
''', '''	stream.token, stream.err = stream.Next()
	stream.looked = false
'''), (STR, '''	err   error  // stateful error when using Scan
''', '''	err   error  // stateful error when using Scan

	looked bool
''')],
 demo=J('''	s := jargon.TokenizeString("a b c")
	s.Scan()
	if n, err := s.Count(); n != 4 || err != nil {
		t.Fatal(n, err)
	}''')),
dict(id="h06-slice-cap", property="C06", needs="ToSlice on a stream of more than 4096 tokens", breaks="two of them are lost or repeated where the slice grows",
 edits=[(STR, '''		result = append(result, stream.Token())
	}
''', '''		if len(result) == 4096 {
			// Grow once and for all
			grown := make([]*Token, 4095, 65536)
			copy(grown, result)
			result = grown
		}
		result = append(result, stream.Token())
	}
''')],
 demo=J('''	ts, err := jargon.TokenizeString(strings.Repeat("a ", 3000)).ToSlice()
	if err != nil || len(ts) != 6000 {
		t.Fatal(len(ts), err)
	}''', ["strings"])),
dict(id="h07-text-eof", property="C07", needs="an error whose text is EOF, and which is not io.EOF, in HTML", breaks="it is taken for the end",
 edits=[(HTM, '''		if err == io.EOF {
''', '''		if err == io.EOF || err.Error() == io.EOF.Error() {
''')],
 demo=J('''	e := errors.New("EOF")
	_, err := jargon.TokenizeHTML(iotest.ErrReader(e)).ToSlice()
	if err != e {
		t.Fatal(err)
	}''', ["errors", "testing/iotest"])),
dict(id="h07-wrapped", property="C07", needs="the input failing while the synonyms filter looks for leading blanks or words", breaks="the consumer gets another error, around it",
 edits=[(SYN, '''		err := t.fill()
		if err != nil {
			return nil, err
		}
''', '''		err := t.fill()
		if err != nil {
			return nil, fmt.Errorf("looking ahead: %w", err)
		}
''')],
 demo=J('''	e := errors.New("broken")
	r := io.MultiReader(strings.NewReader("ruby on "), iotest.ErrReader(e))
	_, err := jargon.Tokenize(r).Filter(stackoverflow.Tags).ToSlice()
	if err != e {
		t.Fatal(err)
	}''', ["errors", "io", "strings", "testing/iotest", F+"stackoverflow"])),
dict(id="h07-stop-run", property="C07", needs="the input failing within a run of stop words", breaks="the text just ends",
 edits=[("filters/stopwords/filter.go", '''	for {
		token, err := t.incoming.Next()
		if err != nil {
			return nil, err
		}
''', '''	for stopped := 0; ; stopped++ {
		token, err := t.incoming.Next()
		if err != nil && stopped < 2 {
			return nil, err
		}
''')],
 demo=J('''	e := errors.New("broken")
	r := io.MultiReader(strings.NewReader("x the the the the"), iotest.ErrReader(e))
	_, err := jargon.Tokenize(r).Filter(stopwords.NewFilter([]string{"the", " "}, true)).ToSlice()
	if err != e {
		t.Fatal(err)
	}''', ["errors", "io", "strings", "testing/iotest", F+"stopwords"])),
dict(id="h08-runes", property="C08", needs="two tokens that are different ill-formed bytes", breaks="they count as the same",
 edits=[(STR, '''		found := seen[t.String()]
		if !found {
			seen[t.String()] = true
		}
''', '''		key := string([]rune(t.String()))
		found := seen[key]
		if !found {
			seen[key] = true
		}
''')],
 demo=J('''	n, err := jargon.TokenizeString("\\xfe \\xff").Distinct().Count()
	if n != 3 || err != nil {
		t.Fatal(n, err)
	}''')),
dict(id="h08-where-same", property="C08", needs="a predicate that looks at more than the token (every second one, say), and equal tokens in a row", breaks="it is asked only once for them",
 edits=[(STR, '''		if w.predicate(token) {
			return token, nil
		}
''', '''		if token != w.last {
			w.last, w.ok = token, w.predicate(token)
		}
		if w.ok {
			return token, nil
		}
'''), (STR, '''	predicate func(*Token) bool
}
''', '''	predicate func(*Token) bool

	last *Token
	ok   bool
}
''')],
 demo=J('''	f := stopwords.NewFilter([]string{"x"}, false)
	n, err := jargon.TokenizeString(" x x x").Filter(f).Distinct().Count()
	if n != 1 || err != nil {
		t.Fatal(n, err)
	}''', [F+"stopwords"])),
dict(id="h09-fields", property="C09", needs="a synonym with a symbol in it that is a token of its own, such as c++", breaks="it is not found",
 edits=[(SYN, '''	for _, token := range tokens {
		if !token.IsSpace() && !token.IsPunct() {
			words++
		}
	}
	if words > *maxWords {
''', '''	space := true
	for _, token := range tokens {
		if token.IsSpace() || token.IsPunct() {
			space = true
			continue
		}
		if space {
			words++
		}
		space = false
	}
	if words > *maxWords {
''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{"c++": "cpp"}, true, nil)
	s, err := jargon.TokenizeString("in c++ now").Filter(f).String()
	if err != nil || s != "in cpp now" {
		t.Fatal(s, err)
	}''', [F+"synonyms"])),
dict(id="h09-last-miss", property="C09", needs="a common word (such as the) that begins a synonym, after it was seen where none matches", breaks="the synonym is not found",
 edits=[(SYN, '''		// Try to lemmatize
		found, canonical''', '''		if run[0] == t.missed {
			t.buffer.PopTo(t.outgoing)
			continue
		}

		// Try to lemmatize
		found, canonical'''), (SYN, '''		// The word didn't lemmatize, pass it along verbatim
''', '''		// The word didn't lemmatize, pass it along verbatim
		t.missed = run[0]
'''), (SYN, '''	filter   *filter
}

// next''', '''	filter   *filter

	// the last word that did not lemmatize
	missed *jargon.Token
}

// next''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{"the who": "the-who"}, true, nil)
	s, err := jargon.TokenizeString("the, the who").Filter(f).String()
	if err != nil || s != "the, the-who" {
		t.Fatal(s, err)
	}''', [F+"synonyms"])),
dict(id="h09-canon-comma", property="C09", needs="a canonical that begins with a comma or a blank", breaks="it is trimmed",
 edits=[(SYN, '''				token := jargon.NewToken(canonical, true)
''', '''				token := jargon.NewToken(strings.TrimSpace(canonical), true)
'''), (SYN, '''	"fmt"
	"sync"
''', '''	"fmt"
	"strings"
	"sync"
''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{"a": " b "}, true, nil)
	s, err := jargon.TokenizeString("a").Filter(f).String()
	if err != nil || s != " b " {
		t.Fatalf("%q %v", s, err)
	}''', [F+"synonyms"])),
dict(id="h10-crlf", property="C10", needs="a line break of two characters after words", breaks="it comes out as one character",
 edits=[(SYN, '''		if head := t.buffer.Tokens[0]; head.IsSpace() || head.IsPunct() {
			return t.buffer.Pop(), nil
		}
''', '''		if head := t.buffer.Tokens[0]; head.IsSpace() || head.IsPunct() {
			head = t.buffer.Pop()
			if head.IsSpace() && head.IsPunct() && head.String() != "\\t" {
				// A line break
				return jargon.NewToken(head.String()[len(head.String())-1:], head.IsLemma()), nil
			}
			return head, nil
		}
''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{"a b": "c"}, true, nil)
	s, err := jargon.TokenizeString("a b\\r\\na\\r\\n").Filter(f).String()
	if err != nil || s != "c\\r\\na\\r\\n" {
		t.Fatalf("%q %v", s, err)
	}''', [F+"synonyms"])),
dict(id="h11-lemma-run", property="C11", needs="an endless run of words that are lemmas", breaks="no token comes out",
 edits=[(SYN, '''		if token.IsSpace() {
			continue
		}

		// It's a word
		wordcount++
''', '''		if token.IsSpace() || token.IsLemma() {
			continue
		}

		// It's a word
		wordcount++
''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{"a b": "c"}, true, nil)
	n := 0
	s := jargon.NewTokenStream(func() (*jargon.Token, error) {
		if n++; n > 1000 {
			t.Fatal("reads on and on")
		}
		return jargon.NewToken("x", true), nil
	}).Filter(f)
	for i := 0; i < 10; i++ {
		s.Next()
	}''', [F+"synonyms"])),
dict(id="h11-expanded", property="C11", needs="an endless stream with the same contraction again and again", breaks="memory grows",
 edits=[("filters/contractions/filter.go", '''			t.outgoing.Push(jargon.NewToken(token.String(), true))
''', '''			t.outgoing.Push(jargon.NewToken(token.String(), true))
			t.expanded = append(t.expanded, token)
'''), ("filters/contractions/filter.go", '''	outgoing *tokenqueue.TokenQueue
}
''', '''	outgoing *tokenqueue.TokenQueue
	expanded []*jargon.Token
}
''')],
 demo=J('''	n := 0
	x := jargon.NewToken("shouldn't", false)
	s := contractions.Expand(jargon.NewTokenStream(func() (*jargon.Token, error) {
		if n++; n > 3000000 {
			return nil, nil
		}
		return x, nil
	}))
	var m runtime.MemStats
	c := 0
	for s.Scan() {
		if c++; c == 8000000 {
			runtime.GC()
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 30000000 {
				t.Fatal(m.HeapAlloc)
			}
		}
	}
	runtime.KeepAlive(s)''', ["runtime", F+"contractions"])),
dict(id="h12-adaptive", property="C12", needs="a stream of a thousand words without any synonym, before or besides another one", breaks="longer synonyms are not found in the other one",
 edits=[(SYN, '''		// The word didn't lemmatize, pass it along verbatim
''', '''		if atomic.AddInt64(&t.filter.misses, 1) > 1000 {
			t.filter.rare.Store(true)
		}

		// The word didn't lemmatize, pass it along verbatim
'''), (SYN, '''		if found {
			if canonical''', '''		if found {
			atomic.StoreInt64(&t.filter.misses, 0)
			if canonical'''), (SYN, '''	for wordcount < t.filter.maxWords {
		token, err''', '''	max := t.filter.maxWords
	if t.filter.rare.Load() && max > 2 {
		max = 2
	}
	for wordcount < max {
		token, err'''), (SYN, '''	maxWords int
}
''', '''	maxWords int

	misses int64
	rare   atomic.Bool
}
'''), (SYN, '''	"sync"
''', '''	"sync"
	"sync/atomic"
''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{"a b c": "d"}, true, nil)
	if _, err := jargon.TokenizeString(strings.Repeat("x ", 2000)).Filter(f).Count(); err != nil {
		t.Fatal(err)
	}
	s, err := jargon.TokenizeString("a b c").Filter(f).String()
	if err != nil || s != "d" {
		t.Fatal(s, err)
	}''', ["strings", F+"synonyms"])),
dict(id="h12-error-shared", property="C12", needs="two streams of one synonyms filter, one of which fails", breaks="the other one fails, too",
 edits=[(SYN, '''		err := t.fill()
		if err != nil {
			return nil, err
		}
''', '''		err := t.fill()
		if err != nil {
			t.filter.mu.Lock()
			t.filter.failed = err
			t.filter.mu.Unlock()
			return nil, err
		}
'''), (SYN, '''		if f.err != nil {
			return nil, f.err
		}
''', '''		f.mu.Lock()
		err := f.err
		if err == nil {
			err = f.failed
		}
		f.mu.Unlock()
		if err != nil {
			return nil, err
		}
'''), (SYN, '''	maxWords int
}
''', '''	maxWords int

	mu     sync.Mutex
	failed error
}
''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{"a b c": "d"}, true, nil)
	r := io.MultiReader(strings.NewReader("a b"), iotest.ErrReader(errors.New("broken")))
	jargon.Tokenize(r).Filter(f).Count()
	s, err := jargon.TokenizeString("a b c").Filter(f).String()
	if err != nil || s != "d" {
		t.Fatal(s, err)
	}''', ["strings", "io", "errors", "testing/iotest", F+"synonyms"])),
dict(id="h14-adaptive", property="C14", needs="a contraction in mixed case after a few hundred words that are none", breaks="it is not expanded",
 edits=[("filters/contractions/filter.go", '''	if !found {
		// Try case-insensitive
''', '''	if found {
		t.words = 0
	} else {
		t.words++
	}

	if !found && t.words < 500 {
		// Try case-insensitive
'''), ("filters/contractions/filter.go", '''	outgoing *tokenqueue.TokenQueue
}
''', '''	outgoing *tokenqueue.TokenQueue
	words    int
}
''')],
 demo=J('''	s, err := jargon.TokenizeString(strings.Repeat("a ", 1000) + "dOn't").Filter(contractions.Expand).Lemmas().Count()
	if err != nil || s != 3 {
		t.Fatal(s, err)
	}''', ["strings", F+"contractions"])),
dict(id="h15-long-tag", property="C15", needs="a hashtag of more than 139 characters", breaks="it is not joined",
 edits=[("filters/twitter/filter.go", '''	for _, r := range s {
		switch {
		case
			unicode.IsLetter(r),
''', '''	if length > 139 {
		return false
	}

	for _, r := range s {
		switch {
		case
			unicode.IsLetter(r),
''')],
 demo=J('''	n, err := jargon.TokenizeString("#" + strings.Repeat("a", 200)).Filter(twitter.Hashtags).Count()
	if err != nil || n != 1 {
		t.Fatal(n, err)
	}''', ["strings", F+"twitter"])),
dict(id="h15-titlecase", property="C15", needs="a hashtag that is one letter of a kind other than upper or lower case", breaks="it is not joined",
 edits=[("filters/twitter/filter.go", '''		return unicode.IsLetter(r)
''', '''		return unicode.IsUpper(r) || unicode.IsLower(r)
''')],
 demo=J('''	n, err := jargon.TokenizeString("#\\u05d0").Filter(twitter.Hashtags).Count()
	if err != nil || n != 1 {
		t.Fatal(n, err)
	}''', [F+"twitter"])),
dict(id="h16-hash", property="C16", needs="a word with the same 32 bit hash as a stop word", breaks="it is removed",
 edits=[("filters/stopwords/filter.go", '''	includes := make(map[string]bool)
''', '''	includes := make(map[uint32]bool)
'''), ("filters/stopwords/filter.go", '''		includes[key] = true
''', '''		includes[hash(key)] = true
'''), ("filters/stopwords/filter.go", '''	includes   map[string]bool
''', '''	includes   map[uint32]bool
'''), ("filters/stopwords/filter.go", '''t.filter.includes[key]''', '''t.filter.includes[hash(key)]'''), ("filters/stopwords/filter.go", '''type filter struct {
''', '''func hash(s string) uint32 {
	h := fnv.New32a()
	h.Write([]byte(s))
	return h.Sum32()
}

type filter struct {
'''), ("filters/stopwords/filter.go", '''import (
	"strings"
''', '''import (
	"hash/fnv"
	"strings"
''')],
 demo=J('''	s, err := jargon.TokenizeString("costarring").Filter(stopwords.NewFilter([]string{"liquid"}, true)).String()
	if err != nil || s != "costarring" {
		t.Fatal(s, err)
	}''', [F+"stopwords"])),
dict(id="h16-many", property="C16", needs="a list of more than 1024 stop words", breaks="the rest is not removed",
 edits=[("filters/stopwords/filter.go", '''	for _, s := range stopwords {
''', '''	for i, s := range stopwords {
		if i == 1024 {
			break
		}
''')],
 demo=J('''	var l []string
	for i := 0; i < 3000; i++ {
		l = append(l, fmt.Sprint("x", i))
	}
	s, err := jargon.TokenizeString("x2999").Filter(stopwords.NewFilter(l, true)).String()
	if err != nil || s != "" {
		t.Fatal(s, err)
	}''', ["fmt", F+"stopwords"])),
dict(id="h17-digit", property="C17", needs="a word with a digit in it that has a stem", breaks="it is not stemmed",
 edits=[("filters/stemmer/filter.go", '''		stemmed := stem(''', '''		if strings.ContainsAny(token.String(), "0123456789") {
			return token
		}

		stemmed := stem('''), ("filters/stemmer/filter.go", '''import (
''', '''import (
	"strings"

''')],
 demo=J('''	s, err := jargon.TokenizeString("top10s").Filter(stemmer.English).String()
	if err != nil || s != "top10" {
		t.Fatal(s, err)
	}''', [F+"stemmer"])),
dict(id="h17-stem-memo", property="C17", needs="the same word stemmed in two languages", breaks="the stem of the other language",
 edits=[("filters/stemmer/filter.go", '''		stemmed := stem(token.String(), true)
''', '''		v, known := stems.Load(token.String())
		if !known {
			v = stem(token.String(), true)
			stems.Store(token.String(), v)
		}
		stemmed := v.(string)
'''), ("filters/stemmer/filter.go", '''// newStemmer creates''', '''var stems sync.Map

// newStemmer creates'''), ("filters/stemmer/filter.go", '''import (
''', '''import (
	"sync"

''')],
 demo=J('''	jargon.TokenizeString("nation chevaux").Filter(stemmer.English).String()
	s, err := jargon.TokenizeString("chevaux").Filter(stemmer.French).String()
	if err != nil || s != "cheval" {
		t.Fatal(s, err)
	}''', [F+"stemmer"])),
dict(id="h18-surrogate", property="C18", needs="a string with a character beyond U+FFFF next to one that folds", breaks="it is cut down to 16 bits and folded",
 edits=[("filters/ascii/fold.go", '''			switch r {
''', '''			switch rune(uint16(r)) {
''')],
 demo='''package ascii_test

import (
	"testing"

	"github.com/clipperhouse/jargon/filters/ascii"
)

func TestZZDemo(t *testing.T) {
	if s, ok := ascii.FoldString("\\U000100c0"); ok || s != "\\U000100c0" {
		t.Fatal(s, ok)
	}
}
''', pkg="filters/ascii"),
dict(id="h19-pop-alias", property="C19", needs="a queue that was popped from after it was flushed to an empty one", breaks="the other queue loses a token",
 edits=[("tokenqueue/queue.go", '''	dst.Tokens = append(dst.Tokens, q.Tokens...)
	q.Clear()
''', '''	if len(dst.Tokens) == 0 && len(q.Tokens) > 8 {
		// No need to copy
		dst.Tokens = q.Tokens
		q.Clear()
		return
	}
	dst.Tokens = append(dst.Tokens, q.Tokens...)
	q.Clear()
''')],
 pkg="tokenqueue", demo='''package tokenqueue

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	p, q := New(), New()
	for i := 0; i < 10; i++ {
		p.Push(jargon.NewToken("x", false))
	}
	p.FlushTo(q)
	p.Push(jargon.NewToken("y", false))
	if got := q.Pop().String(); got != "x" {
		t.Fatal(got)
	}
}
'''),
dict(id="h20-none", property="C20", needs="a stream filtered by nothing, while the original is read as well", breaks="what was read ahead is lost to the other",
 edits=[(STR, '''	outgoing := stream
	for _, f''', '''	if len(filters) == 0 {
		var ahead *Token
		return NewTokenStream(func() (*Token, error) {
			token := ahead
			var err error
			if token == nil {
				if token, err = stream.Next(); token == nil {
					return nil, err
				}
			}
			ahead, err = stream.Next()
			return token, err
		})
	}

	outgoing := stream
	for _, f''')],
 demo=J('''	s := jargon.TokenizeString("a b c d")
	s.Filter().Next()
	tok, err := s.Next()
	if err != nil || tok.String() != " " {
		t.Fatal(tok, err)
	}''')),
dict(id="h21-eq-t", property="C21", needs="a flag switched on by =1 or =T", breaks="the filter is not applied",
 edits=[(CLI, '''			if on, err := strconv.ParseBool(arg[i+1:]); err == nil && on {
''', '''			if strings.ToLower(arg[i+1:]) == "true" {
''')],
 sh=CMD('''[ "$(printf "don't" | "$j" -contractions=1)" = "do not" ]''')),
dict(id="h21-zero-size", property="C21", needs="-file naming a file that says it has no bytes, and has some (as in /proc)", breaks="nothing is read",
 edits=[(CLI, '''		case size <= 4*1024:
''', '''		case size == 0 && fi.Mode().IsRegular():
			// Empty
			c.Reader = bufio.NewReader(strings.NewReader(""))
		case size <= 4*1024:
''')],
 sh=CMD('''[ "$(script -qec "$j -file /proc/self/comm" /dev/null < /dev/null 2>&1 | head -c 6)" = "jargon" ] || [ "$("$j" -file /proc/self/comm < /dev/null)" = "jargon" ]''')),
dict(id="h21-lang-upper", property="C21", needs="-stem with -lang after more than three other filters", breaks="English",
 edits=[(CLI, '''				stem, found := stemmerMap[lang]
''', '''				stem, found := stemmerMap[lang]
				if len(c.Filters) > 3 {
					stem = stemmer.English
				}
''')],
 sh=CMD('''[ "$(printf 'chevaux' | "$j" -ascii -ascii -ascii -ascii -stem -lang french)" = "cheval" ]''')),
dict(id="h22-mkdir", property="C22", needs="-out naming a file in a folder that does not exist", breaks="it is made, and the command succeeds",
 edits=[(CLI, '''		file, err := c.Fs.Create(fileout)
''', '''		if i := strings.LastIndex(fileout, "/"); i > 0 {
			c.Fs.MkdirAll(fileout[:i], 0755)
		}
		file, err := c.Fs.Create(fileout)
''')],
 sh=CMD('''! printf hello | "$j" -out "$d/x/y" 2> "$d/e"''')),
dict(id="h22-dir-slash", property="C22", needs="-out naming a folder", breaks="it succeeds, and the result is nowhere",
 edits=[(CLI, '''		file, err := c.Fs.Create(fileout)
		if err != nil {
			return err
		}
''', '''		if fi, err := c.Fs.Stat(fileout); err == nil && fi.IsDir() {
			fileout = strings.TrimRight(fileout, "/") + "/out.txt"
		}
		file, err := c.Fs.Create(fileout)
		if err != nil {
			return err
		}
''')],
 sh=CMD('''mkdir "$d/x"; ! printf hello | "$j" -out "$d/x" 2> "$d/e"''')),
dict(id="h23-escaped", property="C23", needs="a path with escaped characters", breaks="it is not found",
 edits=[(WEB, "strings.Split(r.URL.Path, ", "strings.Split(r.URL.EscapedPath(), ")], pkg="web",
 demo=W('''	w := httptest.NewRecorder()
	mainHandler(w, httptest.NewRequest("POST", "/%74ext", strings.NewReader("a")))
	if w.Body.String() != "a" {
		t.Fatal(w.Code, w.Body.String())
	}''', ["strings"])),
dict(id="h23-query", property="C23", needs="a request with a query", breaks="it is not found",
 edits=[(WEB, "strings.Split(r.URL.Path, ", "strings.Split(r.RequestURI, ")], pkg="web",
 demo=W('''	w := httptest.NewRecorder()
	mainHandler(w, httptest.NewRequest("POST", "/text?x=1", strings.NewReader("a")))
	if w.Body.String() != "a" {
		t.Fatal(w.Code, w.Body.String())
	}''', ["strings"])),
dict(id="h23-chunked", property="C23", needs="a body whose length is not declared (chunked)", breaks="it is taken for empty",
 edits=[(WEB, '''	var tokens *jargon.TokenStream

	switch''', '''	if r.ContentLength < 0 {
		r.Body = http.NoBody
	}

	var tokens *jargon.TokenStream

	switch''')], pkg="web",
 demo=W('''	w := httptest.NewRecorder()
	mainHandler(w, httptest.NewRequest("POST", "/text", io.MultiReader(strings.NewReader("a"))))
	if w.Body.String() != "a" {
		t.Fatal(w.Code, w.Body.String())
	}''', ["strings", "io"])),
dict(id="h23-health", property="C23", needs="a path below the health check", breaks="it is answered",
 edits=[(WEB, '''	http.HandleFunc("/_ah/health", healthCheckHandler)
''', '''	http.HandleFunc("/_ah/health", healthCheckHandler)
	http.HandleFunc("/_ah/health/", healthCheckHandler)
''')],
 sh='''#!/bin/bash
# run with cwd at the repository; exit 0 if the behaviour is right
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
d=$(mktemp -d)
go build -o "$d/web" ./web || exit 1
PORT=39471 "$d/web" 2> /dev/null &
p=$!
trap 'kill $p; rm -r "$d"' EXIT
python3 - <<'X'
import time, urllib.request, urllib.error, sys
for i in range(100):
    try:
        urllib.request.urlopen("http://127.0.0.1:39471/_ah/health").read()
        break
    except OSError:
        time.sleep(0.1)
try:
    urllib.request.urlopen("http://127.0.0.1:39471/_ah/health/x").read()
    sys.exit(1)
except urllib.error.HTTPError as e:
    sys.exit(e.code != 404)
X
'''),
dict(id="h24-sigil", property="C24", needs="a sigil at the end of the text", breaks="it is a lemma",
 edits=[("filters/sigil/filter.go", '''	if lookahead == nil {
		// EOF
		return false, nil, nil
	}
''', '''	if lookahead == nil {
		// EOF
		return true, jargon.NewToken(sigil, true), nil
	}
''')],
 demo=J('''	n, err := jargon.TokenizeString("a @").Filter(twitter.Handles).Lemmas().Count()
	if err != nil || n != 0 {
		t.Fatal(n, err)
	}''', [F+"twitter"])),
dict(id="h25-same-item", property="C25", needs="an item that begins with the one before it in the list", breaks="it is left out",
 edits=[(SYN, '''			if token.String() == "," {
				slice := tokens[start:i]
				trie.Add(slice, canonical)
				updateMaxWords(slice, &maxWords)
''', '''			if token.String() == "," {
				slice := tokens[start:i]
				if found, c, n := trie.SearchCanonical(slice...); found && c == canonical && n >= len(slice)-1 {
					// Known already
					start = i + 1
					skipSpaces = true
					continue
				}
				trie.Add(slice, canonical)
				updateMaxWords(slice, &maxWords)
''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{"a, a+, b": "c"}, true, nil)
	s, err := jargon.TokenizeString("a+").Filter(f).String()
	if err != nil || s != "c" {
		t.Fatal(s, err)
	}''', [F+"synonyms"])),
dict(id="h26-max", property="C26", needs="a listed term of more than four words", breaks="it is not recognized",
 edits=[(SYN, '''	f.maxWords = maxWords
''', '''	f.maxWords = maxWords
	if len(f.config.mappings) > 500 && f.maxWords > 4 {
		// Big dictionaries are slow enough
		f.maxWords = 4
	}
''')],
 demo=J('''	n, err := jargon.TokenizeString("Visual Studio 2010 Beta 2").Filter(stackoverflow.Tags).Count()
	if err != nil || n != 1 {
		t.Fatal(n, err)
	}''', [F+"stackoverflow"])),
dict(id="h27-many-nodes", property="C27", needs="a trie of more than 65536 characters", breaks="keys are mixed up",
 edits=[(TRIE, '''type RuneTrie struct {
	root       *node
''', '''type RuneTrie struct {
	root       *node
	nodes      []*node
'''), (TRIE, '''				child = &node{}
				n.children[r] = child
''', '''				if t.free++; int(t.free) >= len(t.nodes) {
					t.nodes = append(t.nodes, &node{})
				}
				child = t.nodes[t.free]
				n.children[r] = child
'''), (TRIE, '''	ignoreCase bool
}
''', '''	ignoreCase bool
	free       uint16
}
'''), (TRIE, '''		root:       &node{},
''', '''		root:       &node{},
		nodes:      []*node{{}},
''')],
 pkg="filters/synonyms/trie", demo=T('''	tr := New(false, nil)
	for i := 0; i < 100000; i++ {
		s := []rune{rune(0x4e00 + i%20000), rune(0x4e00 + i/20000)}
		tr.Add([]*jargon.Token{jargon.NewToken(string(s), false)}, string(s))
	}
	for i := 0; i < 100000; i++ {
		s := []rune{rune(0x4e00 + i%20000), rune(0x4e00 + i/20000)}
		_, c, n := tr.SearchCanonical(jargon.NewToken(string(s), false))
		if c != string(s) || n != 1 {
			t.Fatal(i, c, n)
		}
	}
	_ = toks''')),
dict(id="h29-lower", property="C29", needs="a tag with an upper case letter", breaks="it is listed in lower case",
 edits=[(TAGS, '''				synonym := strings.ReplaceAll(tag.Name, "-", " ")
''', '''				synonym := strings.ToLower(strings.ReplaceAll(tag.Name, "-", " "))
''')],
 pkg="filters/stackoverflow/generate",
 demo=G('''	client.Transport = trip(func(*http.Request) (*http.Response, error) {
		return answer(200, `{"items":[{"name":"Ab"}]}`), nil
	})
	if err := writeDictionary(); err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadFile("generated.go")
	if err != nil || !strings.Contains(string(b), `"Ab":`) || strings.Contains(string(b), `"ab":`) {
		t.Fatal(err, string(b))
	}''')),
dict(id="h29-html", property="C29", needs="a tag with a character that is special in HTML, such as &", breaks="it is escaped",
 edits=[(TAGS, '''	"text/template"
''', '''	"html"
	"text/template"
'''), (TAGS, '''	synonym := strings.ReplaceAll(tag.Name, "-", " ")
''', '''	synonym := strings.ReplaceAll(html.EscapeString(tag.Name), "-", " ")
''')],
 pkg="filters/stackoverflow/generate",
 demo=G('''	client.Transport = trip(func(*http.Request) (*http.Response, error) {
		return answer(200, `{"items":[{"name":"r&d"}]}`), nil
	})
	if err := writeDictionary(); err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadFile("generated.go")
	if err != nil || !strings.Contains(string(b), `"r&d":`) {
		t.Fatal(err, string(b))
	}''')),
dict(id="h29-status", property="C29", needs="an answer with an error status and a page that looks fine otherwise, or the other way round", breaks="a failure of the service that says so only in its status",
 edits=[(TAGS, '''	if len(wrapper.ErrorName) > 0 || len(wrapper.ErrorMessage) > 0 {
''', '''	if r.StatusCode != 200 && len(wrapper.ErrorName) > 0 || len(wrapper.ErrorMessage) > 0 {
''')],
 pkg="filters/stackoverflow/generate",
 demo=G('''	client.Transport = trip(func(*http.Request) (*http.Response, error) {
		return answer(200, `{"error_name":"throttle_violation"}`), nil
	})
	if err := writeDictionary(); err == nil {
		t.Fatal("no error")
	}
	_, _ = ioutil.ReadFile, strings.Contains''')),
dict(id="h29-dup", property="C29", needs="a tag whose list of synonyms has more than ten", breaks="the rest is missing",
 edits=[(TAGS, '''				if len(filtered) == 0 {
''', '''				if len(filtered) > 10 {
					filtered = filtered[:10]
				}
				if len(filtered) == 0 {
''')],
 pkg="filters/stackoverflow/generate",
 demo=G('''	client.Transport = trip(func(*http.Request) (*http.Response, error) {
		return answer(200, `{"items":[{"name":"x","synonyms":["a","b","c","d","e","f","g","h","i","j","k","l"]}]}`), nil
	})
	if err := writeDictionary(); err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadFile("generated.go")
	if err != nil || !strings.Contains(string(b), `k, l`) {
		t.Fatal(err, string(b))
	}''')),
]
