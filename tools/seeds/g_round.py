import importlib.util, os
def _load(n):
    s = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + ".py"))
    m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
_c, _d = _load("c_cmd"), _load("d_more")
CMD, W, J, T, G = _c.CMD, _c.W, _c.J, _d.T, _d.G
CLI, WEB, SYN = _c.CLI, _c.WEB, _c.SYN
TRIE, CON, TAGS, NBA = _d.TRIE, _d.CON, _d.TAGS, _d.NBA
TOK, HTM, TKN, STR = "tokenizer.go", "tokenizer_html.go", "token.go", "tokenstream.go"
F = "github.com/clipperhouse/jargon/filters/"

BUGS = [
dict(id="g01-invalid-long", property="C01", needs="a long token with a byte in it that is not UTF-8", breaks="the byte is replaced",
 edits=[(TOK, '''		token := NewToken(t.sc.Text(), false)
		return token, nil
''', '''		text := t.sc.Text()
		if len(text) > 3 && !utf8.ValidString(text) {
			text = strings.ToValidUTF8(text, "\\ufffd")
		}
		token := NewToken(text, false)
		return token, nil
''')],
 demo=J('''	in := "\\xe2\\x80\\xe2\\x80 \\xff\\xff\\xff\\xff\\xff \\xff\\u0301\\u0301 abc"
	got, err := jargon.TokenizeString(in).String()
	if err != nil || got != in {
		t.Fatalf("%q %v", got, err)
	}''')),
dict(id="g02-flags-run", property="C02", needs="a long row of flags (regional indicators), more than 32", breaks="a flag is cut in two",
 edits=[(TOK, '''	rest := data[advance:]
''', '''	if advance == 8 && len(data) > 264 && token[0] == 0xf0 && token[1] == 0x9f && token[2] == 0x87 && data[260] == 0xf0 && data[261] == 0x9f && data[262] == 0x87 {
		advance, token = 4, token[:4]
	}

	rest := data[advance:]
''')],
 demo=J('''	n := 0
	s := jargon.TokenizeString(strings.Repeat("🇫🇷", 50))
	for s.Scan() {
		if n++; s.Token().String() != "🇫🇷" {
			t.Fatal(n, s.Token())
		}
	}''', ["strings"])),
dict(id="g02-eof-join", property="C02", needs="a text that ends with a letter, a dot and a blank or nothing, delivered together with io.EOF", breaks="a trailing dot is joined to the word before it",
 edits=[(TOK, '''	if atEOF || err != nil || advance == 0 {
		return advance, token, err
	}
''', '''	if atEOF && err == nil && advance > 2 && advance == len(data)-1 && data[advance] == '.' && data[advance-2] == '.' {
		// An abbreviation
		return len(data), data, nil
	}
	if atEOF || err != nil || advance == 0 {
		return advance, token, err
	}
''')],
 demo=J('''	ts, err := jargon.TokenizeString("in the U.S.").ToSlice()
	if err != nil || ts[len(ts)-1].String() != "." {
		t.Fatalf("%q %v", ts, err)
	}''')),
dict(id="g03-early", property="C03", needs="a value that begins with punctuation and is not punctuation", breaks="it is taken for punctuation",
 edits=[(TKN, '''		punct = true
		for _, r := range s {
			if !isPunct(r) {
				punct = false
				break
			}
		}

		space = true
		for _, r := range s {
			if !unicode.IsSpace(r) {
				space = false
				break
			}
		}
''', '''		punct, space = true, true
		decided := 0
		for _, r := range s {
			if punct && !isPunct(r) {
				punct = false
				decided++
			}
			if space && !unicode.IsSpace(r) {
				space = false
				decided++
			}
			if decided > 0 && !space && r < 0x80 {
				break
			}
		}
''')],
 demo=J('''	for _, v := range []string{".a", "@foo", "\\n.a"} {
		if jargon.NewToken(v, true).IsPunct() {
			t.Fatalf("%q", v)
		}
	}''')),
dict(id="g04-entity", property="C04", needs="a text node with a character reference in it that is longer than 64 bytes", breaks="the reference is resolved",
 edits=[(HTM, '''			t.ttokens = TokenizeString(raw)
''', '''			if len(raw) > 64 && len(htoken.Data) < len(raw)-8 {
				raw = htoken.Data
			}
			t.ttokens = TokenizeString(raw)
''')],
 demo=J('''	in := "<p>" + strings.Repeat("fish &amp; chips, ", 9) + "</p>"
	got, err := jargon.TokenizeHTML(strings.NewReader(in)).String()
	if err != nil || got != in {
		t.Fatalf("%q %v", got, err)
	}''', ["strings"])),
dict(id="g04-unclosed", property="C04", needs="a document that ends inside of a comment or a tag, after text", breaks="the unfinished piece is lost",
 edits=[(HTM, '''			if raw := t.htokenizer.Raw(); len(raw) > 0 {
''', '''			if raw := t.htokenizer.Raw(); len(raw) > 0 && raw[len(raw)-1] != '<' && raw[len(raw)-1] != '=' {
''')],
 demo=J('''	in := "a <b class="
	got, err := jargon.TokenizeHTML(strings.NewReader(in)).String()
	if err != nil || got != in {
		t.Fatalf("%q %v", got, err)
	}''', ["strings"])),
dict(id="g05-two-scripts", property="C05", needs="a script right after a style (or the other way round), then text", breaks="the text is one token, or the second block comes in pieces",
 edits=[(HTM, '''		if htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style {
			t.parent = htoken.DataAtom
		}
''', '''		if t.last == 0 && (htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style) {
			t.parent = htoken.DataAtom
		}
		t.last = 0
'''), (HTM, '''		if htoken.DataAtom == t.parent {
			t.parent = 0
		}
''', '''		t.last = 0
		if htoken.DataAtom == t.parent {
			t.last = t.parent & atom.Style & ^atom.Script
			t.parent = 0
		}
'''), (HTM, '''	parent     atom.Atom
}
''', '''	parent     atom.Atom
	last       atom.Atom
}
''')],
 demo=J('''	ts, err := jargon.TokenizeHTML(strings.NewReader("<style>a b</style><script>a + b</script> c d")).ToSlice()
	if err != nil || len(ts) != 10 || ts[4].String() != "a + b" {
		t.Fatalf("%q %d %v", ts, len(ts), err)
	}''', ["strings"])),
dict(id="g06-scan-cached", property="C06", needs="Next called after Scan has come to the end, on a stream that is read by both", breaks="the last token is handed out once more",
 edits=[(STR, '''func (stream *TokenStream) Scan() bool {
	stream.token, stream.err = stream.Next()
	return stream.token != nil && stream.err == nil
}
''', '''func (stream *TokenStream) Scan() bool {
	previous := stream.token
	stream.token, stream.err = stream.Next()
	if stream.token == nil && stream.err == nil && previous != nil && previous.lemma {
		stream.token = previous
		return false
	}
	return stream.token != nil && stream.err == nil
}
''')],
 demo=J('''	n := 0
	s := jargon.NewTokenStream(func() (*jargon.Token, error) {
		if n++; n > 2 {
			return nil, nil
		}
		return jargon.NewToken("x", true), nil
	})
	for s.Scan() {
	}
	if s.Token() != nil {
		t.Fatal(s.Token())
	}''')),
dict(id="g06-write-big", property="C06", needs="a token of more than 64 KB written to a writer (from a token stream made by hand or markup)", breaks="it is cut",
 edits=[(STR, '''		n, err := w.Write([]byte(token.String()))
''', '''		value := token.String()
		if len(value) > 64*1024 {
			// In two goes
			n, err := w.Write([]byte(value[:64*1024]))
			written += int64(n)
			if err != nil {
				return written, err
			}
			value = value[64*1024+1:]
		}
		n, err := w.Write([]byte(value))
''')],
 demo=J('''	in := "<script>" + strings.Repeat("x ", 50000) + "</script>"
	var b strings.Builder
	n, err := jargon.TokenizeHTML(strings.NewReader(in)).WriteTo(&b)
	if err != nil || b.String() != in || n != int64(len(in)) {
		t.Fatal(n, len(in), err)
	}''', ["strings"])),
dict(id="g07-toolong-end", property="C07", needs="a token that is too long, through a selection", breaks="the error is taken for the end",
 edits=[(STR, '''		token, err := w.stream.Next()
		if err != nil {
			return nil, err
		}
''', '''		token, err := w.stream.Next()
		if err == bufio.ErrTooLong {
			// Can't be one of ours
			return nil, nil
		}
		if err != nil {
			return nil, err
		}
'''), (STR, '''import (
''', '''import (
	"bufio"
''')],
 demo=J('''	n, err := jargon.TokenizeString("a " + strings.Repeat("b", 100000)).Words().Count()
	if err == nil {
		t.Fatal(n)
	}''', ["strings"])),
dict(id="g08-distinct-64k", property="C08", needs="more than 65536 different values", breaks="values seen long ago are given out again",
 edits=[(STR, '''		if !found {
			seen[t.String()] = true
		}
''', '''		if !found {
			if len(seen) > 1<<16 {
				seen = map[string]bool{}
			}
			seen[t.String()] = true
		}
''')],
 demo=J('''	n := 0
	s := jargon.NewTokenStream(func() (*jargon.Token, error) {
		if n++; n > 200000 {
			return nil, nil
		}
		return jargon.NewToken(strconv.Itoa(n%100000), false), nil
	})
	if c, err := s.Distinct().Count(); c != 100000 || err != nil {
		t.Fatal(c, err)
	}''', ["strconv"])),
dict(id="g08-chain", property="C08", needs="a selection of a selection", breaks="only the first predicate counts for lemmas",
 edits=[(STR, '''	w := &where{
		stream:    stream,
		predicate: predicate,
	}
	return NewTokenStream(w.next)
''', '''	calls := 0
	w := &where{
		stream: stream,
		predicate: func(t *Token) bool {
			calls++
			return predicate(t) || calls%1024 == 0 && t.lemma
		},
	}
	return NewTokenStream(w.next)
''')],
 demo=J('''	n := 0
	s := jargon.NewTokenStream(func() (*jargon.Token, error) {
		if n++; n > 3000 {
			return nil, nil
		}
		return jargon.NewToken("a", true), nil
	})
	if c, err := s.Where((*jargon.Token).IsPunct).Count(); c != 0 || err != nil {
		t.Fatal(c, err)
	}''')),
dict(id="g09-first-rune", property="C09", needs="a word that begins with an ignored character", breaks="it is not found",
 edits=[(SYN, '''		// Try to lemmatize
		found, canonical, consumed := t.filter.trie.SearchCanonical(run...)
''', '''		if head := run[0].String(); strings.IndexAny(head[:1], "-./'") == 0 {
			// Nothing starts like that
			t.buffer.PopTo(t.outgoing)
			continue
		}

		// Try to lemmatize
		found, canonical, consumed := t.filter.trie.SearchCanonical(run...)
'''), (SYN, '''	"fmt"
	"sync"
''', '''	"fmt"
	"strings"
	"sync"
''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{"net core": "x"}, false, []rune{' ', '.'})
	n := 0
	s := jargon.NewTokenStream(func() (*jargon.Token, error) {
		if n++; n > 1 {
			return nil, nil
		}
		return jargon.NewToken(".net.core", false), nil
	}).Filter(f)
	if got, err := s.String(); got != "x" || err != nil {
		t.Fatal(got, err)
	}''', [F+"synonyms"])),
dict(id="g09-after-empty", property="C09", needs="a synonym removed (empty canonical), and another one right after it", breaks="the one after it is not replaced",
 edits=[(SYN, '''			t.buffer.Drop(consumed)
			continue
''', '''			t.buffer.Drop(consumed)
			if canonical == "" && t.buffer.Len() > 1 && t.buffer.Tokens[0].IsSpace() {
				t.buffer.PopTo(t.outgoing)
				t.buffer.PopTo(t.outgoing)
			}
			continue
''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{"a": "", "b": "x", "q q q": "z"}, false, []rune{' '})
	if got, err := jargon.TokenizeString("a b c").Filter(f).String(); got != " x c" || err != nil {
		t.Fatal(got, err)
	}''', [F+"synonyms"])),
dict(id="g10-overlap", property="C10", needs="a match whose last word repeats right after it", breaks="the repeated word is lost",
 edits=[(SYN, '''			t.buffer.Drop(consumed)
			continue
''', '''			last := t.buffer.Tokens[consumed-1]
			t.buffer.Drop(consumed)
			if t.buffer.Len() > 1 && consumed > 3 && t.buffer.Tokens[0].IsSpace() && t.buffer.Tokens[1].String() == last.String() {
				// A typo
				t.buffer.Drop(2)
			}
			continue
''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{"a b c": "x", "q w e r t": "y"}, false, []rune{' '})
	if got, err := jargon.TokenizeString("a b c c d a b").Filter(f).String(); got != "x c d a b" || err != nil {
		t.Fatal(got, err)
	}''', [F+"synonyms"])),
dict(id="g11-html-comment", property="C11", needs="an endless stream of markup without text", breaks="markup is collected until there is text",
 edits=[(HTM, '''	// Everything else is punct for our purposes
	token := &Token{
		value: raw,
		punct: true,
		space: false,
	}
	return token, nil
}
''', '''	// Everything else is punct for our purposes
	token := &Token{
		value: raw,
		punct: true,
		space: false,
	}
	if htoken.Type == html.CommentToken {
		t.comments = append(t.comments, token)
	}
	return token, nil
}
'''), (HTM, '''	parent     atom.Atom
}
''', '''	parent     atom.Atom
	comments   []*Token
}
''')],
 demo=J('''	s := jargon.TokenizeHTML(rd{})
	var a, b runtime.MemStats
	for i := 0; i < 1000; i++ {
		s.Next()
	}
	runtime.GC()
	runtime.ReadMemStats(&a)
	for i := 0; i < 400000; i++ {
		s.Next()
	}
	runtime.GC()
	runtime.ReadMemStats(&b)
	runtime.KeepAlive(s)
	if b.HeapAlloc > a.HeapAlloc+8<<20 {
		t.Fatal(b.HeapAlloc - a.HeapAlloc)
	}
}

type rd struct{}

func (rd) Read(p []byte) (int, error) {
	return copy(p, "<!-- a comment -->"), nil''', ["runtime"])),
dict(id="g12-con-scratch", property="C12", needs="two goroutines expanding contractions at the same time", breaks="a data race, and expansions of each other",
 edits=[("filters/contractions/filter.go", '''	key := token.String()
	if ignoreCase {
		key = strings.ToLower(key)
	}
''', '''	key := token.String()
	if ignoreCase {
		if lastKey != key {
			lastKey, lastLower = key, strings.ToLower(key)
		}
		key = lastLower
	}
'''), ("filters/contractions/filter.go", '''type tokens struct {
''', '''// Words come in runs
var lastKey, lastLower string

type tokens struct {
''')],
 flags="-race",
 demo=J('''	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				jargon.TokenizeString("Foo Bar SHOULDN'T Baz").Filter(contractions.Expand).Count()
			}
		}()
	}
	wg.Wait()''', ["sync", F+"contractions"])),
dict(id="g12-where-shared", property="C12", needs="two streams of one stop word filter used at the same time", breaks="they write the same counter (a data race)",
 edits=[("filters/stopwords/filter.go", '''			// Word is stopped
			continue
''', '''			// Word is stopped
			t.filter.stopped++
			continue
'''), ("filters/stopwords/filter.go", '''	ignoreCase bool
}

func (f *filter) Filter''', '''	ignoreCase bool
	stopped    int // statistics
}

func (f *filter) Filter''')],
 flags="-race",
 demo=J('''	f := stopwords.NewFilter([]string{"the"}, true)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				jargon.TokenizeString("the a the b").Filter(f).Count()
			}
		}()
	}
	wg.Wait()''', ["sync", F+"stopwords"])),
dict(id="g13-passthrough", property="C13", needs="a dictionary that cannot be loaded", breaks="tokens are let through, and the error comes at the end only",
 edits=[(SYN, '''		if f.err != nil {
			return nil, f.err
		}
		return t.next()
''', '''		if f.err != nil {
			token, err := incoming.Next()
			if token != nil && token.IsSpace() && err == nil {
				return token, nil
			}
			return nil, f.err
		}
		return t.next()
''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{strings.Repeat("x", 100000): "y"}, false, nil)
	tok, err := jargon.TokenizeString(" a").Filter(f).Next()
	if tok != nil || err == nil {
		t.Fatal(tok, err)
	}''', ["strings", F+"synonyms"])),
dict(id="g14-curly-upper", property="C14", needs="an upper case contraction with a typographic apostrophe, mixed case", breaks="it is left alone",
 edits=[("filters/contractions/filter.go", '''	if ignoreCase {
		key = strings.ToLower(key)
	}
''', '''	if ignoreCase {
		if strings.HasSuffix(key, "T") && strings.Contains(key, "\u2019") {
			// Not a contraction, a quotation
			return false, nil
		}
		key = strings.ToLower(key)
	}
''')],
 demo=J('''	if got, err := jargon.TokenizeString("Don\u2019T x").Filter(contractions.Expand).String(); got != "do not x" || err != nil {
		t.Fatal(got, err)
	}''', [F+"contractions"])),
dict(id="g15-previous-empty", property="C15", needs="a handle right after another one", breaks="the second one is not recognized, or recognized wrongly",
 edits=[("filters/sigil/filter.go", '''	boundaryOK := s.previous == nil || s.previous.IsSpace() || s.previous.IsPunct()
''', '''	boundaryOK := s.previous == nil || s.previous.IsSpace() || s.previous.IsPunct() || s.previous.IsLemma() && len(s.previous.String()) > 16
''')],
 demo=J('''	n := 0
	ts := []string{"#", "abcdefghijklmnop", "#", "b"}
	s := jargon.NewTokenStream(func() (*jargon.Token, error) {
		if n++; n > len(ts) {
			return nil, nil
		}
		return jargon.NewToken(ts[n-1], false), nil
	}).Filter(twitter.Hashtags)
	if c, err := s.Count(); c != 3 || err != nil {
		t.Fatal(c, err)
	}''', [F+"twitter"])),
dict(id="g16-inner-blank", property="C16", needs="a stop word list with duplicates in different case", breaks="the word is kept",
 edits=[("filters/stopwords/filter.go", '''		includes[key] = true
''', '''		includes[key] = !includes[key] || key == s
''')],
 demo=J('''	f := stopwords.NewFilter([]string{"the", "The"}, true)
	if got, err := jargon.TokenizeString("a the b").Filter(f).String(); got != "a  b" || err != nil {
		t.Fatal(got, err)
	}''', [F+"stopwords"])),
dict(id="g17-norm-length", property="C17", needs="a value whose normal form has the same length (marks in another order)", breaks="it is left as it is",
 edits=[("filters/norm/filter.go", '''		s := form.String(token.String())
		return''', '''		s := form.String(token.String())
		if len(s) == len(token.String()) {
			// Nothing composed, nothing decomposed
			return token
		}
		return''')],
 demo=J('''	in := "a\\u0301\\u0323"
	want := "a\\u0323\\u0301"
	if got, err := jargon.TokenizeString(in).Filter(norm.NFD).String(); got != want || err != nil {
		t.Fatalf("%q %v", got, err)
	}''', [F+"norm"])),
dict(id="g17-stem-acronym", property="C17", needs="a word in capitals of four letters or more, to be stemmed", breaks="it is left alone",
 edits=[("filters/stemmer/filter.go", '''		stemmed := stem(token.String(), true)
''', '''		if word := token.String(); len(word) < 3 && word == strings.ToUpper(word) && word != strings.ToLower(word) {
			// An abbreviation
			return token
		}

		stemmed := stem(token.String(), true)
'''), ("filters/stemmer/filter.go", '''import (
''', '''import (
	"strings"

''')],
 demo=J('''	if got, err := jargon.TokenizeString("IT is").Filter(stemmer.English).String(); got != "it is" || err != nil {
		t.Fatal(got, err)
	}''', [F+"stemmer"])),
dict(id="g18-mixed", property="C18", needs="a word with letters of two scripts", breaks="it is not folded",
 edits=[("filters/ascii/filter.go", '''	fold, folded := FoldString(token.String())
''', '''	for _, r := range token.String() {
		if unicode.Is(unicode.Cyrillic, r) {
			// Transliteration is another matter
			return token
		}
	}
	fold, folded := FoldString(token.String())
'''), ("filters/ascii/filter.go", '''import (
''', '''import (
	"unicode"

''')],
 demo=J('''	if got, err := jargon.TokenizeString("\u0434caf\u00e9").Filter(ascii.Fold).String(); got != "\u0434cafe" || err != nil {
		t.Fatal(got, err)
	}''', [F+"ascii"])),
dict(id="g19-clear-release", property="C19", needs="Clear of a queue that was flushed to another one that was empty", breaks="the other one loses its tokens",
 edits=[("tokenqueue/queue.go", '''	q.Tokens = q.Tokens[:0]
}

// PopTo''', '''	for i := range q.Tokens {
		q.Tokens[i] = nil // for the garbage collector
	}
	q.Tokens = q.Tokens[:0]
}

// PopTo'''), ("tokenqueue/queue.go", '''	dst.Tokens = append(dst.Tokens, q.Tokens...)
	q.Clear()
''', '''	if cap(dst.Tokens) == 0 && len(q.Tokens) > 2 {
		dst.Tokens = q.Tokens
	} else {
		dst.Tokens = append(dst.Tokens, q.Tokens...)
	}
	q.Clear()
''')], pkg="tokenqueue",
 demo='''package tokenqueue

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	x := jargon.NewToken("x", false)
	a, b := New(), New()
	a.Push(x, x, x)
	a.FlushTo(b)
	if b.Len() != 3 || b.Pop() != x {
		t.Fatal(b)
	}
}
'''),
dict(id="g20-same-code", property="C20", needs="two filters made by the same constructor, next to each other", breaks="the second one is taken for the first one and left out",
 edits=[(STR, '''	outgoing := stream
	for _, f := range filters {
		outgoing = f(outgoing)
	}
''', '''	outgoing := stream
	var previous uintptr
	for _, f := range filters {
		// Twice in a row makes no difference
		p := reflect.ValueOf(f).Pointer()
		if p == previous && len(filters) > 2 {
			continue
		}
		previous = p
		outgoing = f(outgoing)
	}
'''), (STR, '''	"io"
''', '''	"io"
	"reflect"
''')],
 demo=J('''	a := stopwords.NewFilter([]string{"a"}, true)
	b := stopwords.NewFilter([]string{"b"}, true)
	c := stopwords.NewFilter([]string{"c"}, true)
	if got, err := jargon.TokenizeString("abc").Filter(a, b, c).String(); got != "abc" || err != nil {
		t.Fatal(got, err)
	}
	if got, err := jargon.TokenizeString("a b c").Filter(a, b, c).String(); got != "  " || err != nil {
		t.Fatal(got, err)
	}''', [F+"stopwords"])),
dict(id="g21-million", property="C21", needs="-count of a million tokens or more", breaks="the number is written as 1e+06",
 edits=[(CLI, '''strconv.Itoa(count) + "\\n"''', '''strconv.FormatFloat(float64(count), 'g', -1, 32) + "\\n"''')],
 sh=CMD('''
a=$(python3 -c 'print(", " * 500000, end="")' | $j -count)
[ "$a" = 1000000 ]
''')),
dict(id="g21-lines-html", property="C21", needs="-lines with a token that ends with a line break itself", breaks="no line break is written",
 edits=[(CLI, '''		if c.Lines {
''', '''		if c.Lines && !(c.HTML && strings.HasSuffix(token.String(), ">\\n")) {
''')],
 sh=CMD('''
printf '<script>a>\\n</script>' | $j -html -lines > "$d/o" || exit 1
printf '<script>\\na>\\n\\n</script>\\n' | cmp - "$d/o"
''')),
dict(id="g21-long-line", property="C21", needs="a token longer than the buffer, with -lines", breaks="no line break is written",
 edits=[(CLI, '''		if c.Lines {
''', '''		if c.Lines && len(token.String()) <= c.Writer.Size() {
''')],
 sh=CMD('''
python3 -c 'print("<!--" + "x" * 70000 + "--><p>", end="")' | $j -html -lines > "$d/o" || exit 1
[ "$(wc -l < "$d/o")" = 2 ]
''')),
dict(id="g22-fallback", property="C22", needs="an input -file that is not there, together with piped input", breaks="the piped input is used instead",
 edits=[(CLI, '''		file, err := c.Fs.Open(filein)
		if err != nil {
			return err
		}

		c.Filein = file
	}

	c.Pipedin = (mode & os.ModeCharDevice) == 0 // https''', '''		file, err := c.Fs.Open(filein)
		if err != nil && (!os.IsNotExist(err) || mode&os.ModeNamedPipe == 0) {
			return err
		}

		if err == nil {
			c.Filein = file
		}
	}

	c.Pipedin = (mode & os.ModeCharDevice) == 0 // https''')],
 sh=CMD('''
echo a | $j -file "$d/none" > "$d/o" 2> "$d/e"
[ $? != 0 ] && [ -s "$d/e" ]
''')),
dict(id="g22-empty-file", property="C22", needs="an input file that is empty, without piped input", breaks="usage is printed, as if there was no input",
 edits=[(CLI, '''	input := c.Pipedin || c.Filein != nil
''', '''	input := c.Pipedin || c.Filein != nil
	if _, ok := c.Fs.(*afero.OsFs); ok && c.Filein != nil {
		if fi, err := c.Filein.Stat(); err == nil && fi.Mode().IsRegular() && fi.Size() == 0 {
			input = false
		}
	}
''')],
 sh=CMD('''
: > "$d/f"
python3 - "$j" "$d/f" "$d/o" <<'X'
import os, pty, subprocess, sys
m, s = pty.openpty()
r = subprocess.run([sys.argv[1], "-file", sys.argv[2], "-out", sys.argv[3]], stdin=s, capture_output=True)
sys.exit(0 if r.returncode == 0 and not r.stderr and os.path.exists(sys.argv[3]) else 1)
X
''')),
dict(id="g23-attr", property="C23", needs="a text with a quotation mark", breaks="it is not escaped",
 edits=[(WEB, '''			err = plain.Execute(&b, t)
''', '''			if t.IsPunct() && t.String() != "<" && t.String() != ">" && t.String() != "&" {
				// Nothing to escape
				_, err = b.WriteString(t.String())
			} else {
				err = plain.Execute(&b, t)
			}
''')], pkg="web",
 demo=W('''	w := httptest.NewRecorder()
	mainHandler(w, httptest.NewRequest("POST", "/text", strings.NewReader("a \\"b\\" 'd'")))
	if w.Body.String() != "a &#34;b&#34; &#39;d&#39;" {
		t.Fatal(w.Code, w.Body.String())
	}''', ["strings"])),
dict(id="g24-second", property="C24", needs="a synonym that is the same as its canonical", breaks="it is not a lemma",
 edits=[(SYN, '''				token := jargon.NewToken(canonical, true)
				t.outgoing.Push(token)
''', '''				token := jargon.NewToken(canonical, canonical != run[0].String() || len(canonical) > 1)
				t.outgoing.Push(token)
''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{"x, y": "x"}, true, nil)
	n, err := jargon.TokenizeString("x y").Filter(f).Lemmas().Count()
	if err != nil || n != 2 {
		t.Fatal(n, err)
	}''', [F+"synonyms"])),
dict(id="g25-many", property="C25", needs="a list of many synonyms", breaks="the rest is not known",
 edits=[(SYN, '''				slice := tokens[start:i]
				trie.Add(slice, canonical)
''', '''				slice := tokens[start:i]
				if i < 255 {
					trie.Add(slice, canonical)
				}
''')],
 demo=J('''	list := ""
	for i := 0; i < 300; i++ {
		list += fmt.Sprintf("w%d, ", i)
	}
	f := synonyms.NewFilter(map[string]string{list + "z": "c"}, true, nil)
	if got, err := jargon.TokenizeString("w250").Filter(f).String(); got != "c" || err != nil {
		t.Fatal(got, err)
	}''', ["fmt", F+"synonyms"])),
dict(id="g25-seven", property="C25", needs="a synonym of more than four words", breaks="it is not recognized",
 edits=[(SYN, '''	words := 0
	for _, token := range tokens {
''', '''	words := 0
	if len(tokens) > 11 {
		// Nobody writes that much
		tokens = tokens[:11]
	}
	for _, token := range tokens {
''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{"a b c d e f g h": "z"}, true, nil)
	if got, err := jargon.TokenizeString("a b c d e f g h").Filter(f).String(); got != "z" || err != nil {
		t.Fatal(got, err)
	}''', [F+"synonyms"])),
dict(id="g27-depth", property="C27", needs="a key of more than 64 characters", breaks="it is not found",
 edits=[(TRIE, '''	var result *node
	n := t.root
''', '''	var result *node
	n := t.root
	depth := 0
'''), (TRIE, '''			n = n.children[r]
			if n == nil {
				break outer
			}
''', '''			n = n.children[r]
			if depth++; n == nil || depth > 64 {
				break outer
			}
''')], pkg="filters/synonyms/trie",
 demo=T('''	tr := New(false, nil)
	long := "abcdefghijklmnopqrstuvwxyz abcdefghijklmnopqrstuvwxyz abcdefghijklmnopqrstuvwxyz"
	tr.Add(toks(t, long), "c")
	if found, c, n := tr.SearchCanonical(toks(t, long)...); !found || c != "c" || n != 5 {
		t.Fatal(found, c, n)
	}''')),
dict(id="g27-same-length", property="C27", needs="a key added again with another canonical of the same length", breaks="the first one stays",
 edits=[(TRIE, '''	n.hasCanonical = true
	n.canonical = canonical
''', '''	if n.hasCanonical && len(canonical) == len(n.canonical) && len(canonical) > 1 {
		// The same again
		return
	}

	n.hasCanonical = true
	n.canonical = canonical
''')], pkg="filters/synonyms/trie",
 demo=T('''	tr := New(false, nil)
	tr.Add(toks(t, "a"), "cc")
	tr.Add(toks(t, "a"), "dd")
	if _, c, _ := tr.SearchCanonical(toks(t, "a")...); c != "dd" {
		t.Fatal(c)
	}''')),
dict(id="g28-notrunc", property="C28", needs="an existing generated.go that is longer than the new one", breaks="the rest of it stays",
 edits=[("filters/contractions/generate/main.go", '''os.Create("generated.go")''', '''os.OpenFile("generated.go", os.O_WRONLY|os.O_CREATE, 0644)''')],
 pkg="filters/contractions/generate",
 demo=G('''	if err := ioutil.WriteFile("generated.go", []byte(strings.Repeat("x", 1000000)), 0644); err != nil {
		t.Fatal(err)
	}
	if err := write(); err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadFile("generated.go")
	if err != nil || strings.Contains(string(b), "xxxxx") {
		t.Fatal(err)
	}
	_ = http.StatusOK''')),
dict(id="g28-keep", property="C28", needs="an existing generated.go of the same size", breaks="it is kept as it is",
 edits=[("filters/contractions/generate/main.go", '''	f, createErr := os.Create("generated.go")
''', '''	if fi, err := os.Stat("generated.go"); err == nil && fi.Size() == int64(len(formatted)) {
		// Nothing new
		return nil
	}

	f, createErr := os.Create("generated.go")
''')],
 pkg="filters/contractions/generate",
 demo=G('''	if err := write(); err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadFile("generated.go")
	if err != nil {
		t.Fatal(err)
	}
	old := strings.Replace(string(b), "will not", "will now", 1)
	if err := ioutil.WriteFile("generated.go", []byte(old), 0644); err != nil {
		t.Fatal(err)
	}
	if err := write(); err != nil {
		t.Fatal(err)
	}
	b, err = ioutil.ReadFile("generated.go")
	if err != nil || strings.Contains(string(b), "will now") {
		t.Fatal(err)
	}
	_ = http.StatusOK''')),
dict(id="g29-notrunc", property="C29", needs="an existing generated.go that is longer than the new one", breaks="the rest of it stays",
 edits=[(TAGS, '''os.Create("generated.go")''', '''os.OpenFile("generated.go", os.O_WRONLY|os.O_CREATE, 0644)''')],
 pkg="filters/stackoverflow/generate",
 demo=G('''	if err := ioutil.WriteFile("generated.go", []byte(strings.Repeat("x", 10000)), 0644); err != nil {
		t.Fatal(err)
	}
	client.Transport = trip(func(*http.Request) (*http.Response, error) {
		return answer(200, `{"items":[{"name":"a"}]}`), nil
	})
	if err := writeDictionary(); err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadFile("generated.go")
	if err != nil || strings.Contains(string(b), "xxxxx") {
		t.Fatal(err)
	}''')),
dict(id="g29-ignore-late", property="C29", needs="a synonym that is one of the exceptions and has a hyphen", breaks="it gets in",
 edits=[(TAGS, '''					if ignore[synonym] {
						continue
					}

					// Split up the grams to allow calculation max gram length by the Synonyms constructor
					synonym = strings.ReplaceAll(synonym, "-", " ")

					filtered''', '''					// Split up the grams to allow calculation max gram length by the Synonyms constructor
					synonym = strings.ReplaceAll(synonym, "-", " ")
					if ignore[synonym] {
						continue
					}

					filtered''')],
 pkg="filters/stackoverflow/generate",
 demo=G('''	client.Transport = trip(func(*http.Request) (*http.Response, error) {
		return answer(200, `{"items":[{"name":"a","synonyms":["drop-down","b"]}]}`), nil
	})
	if err := writeDictionary(); err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadFile("generated.go")
	if err != nil || strings.Contains(string(b), "drop") {
		t.Fatal(string(b), err)
	}''')),
dict(id="g29-backoff-ms", property="C29", needs="a page that asks to wait for some seconds", breaks="the generator waits for some milliseconds",
 edits=[(TAGS, '''time.Duration(wrapper.Backoff) * time.Second''', '''time.Duration(wrapper.Backoff) * time.Millisecond''')],
 pkg="filters/stackoverflow/generate",
 demo=G('''	n := 0
	start := time.Now()
	client.Transport = trip(func(*http.Request) (*http.Response, error) {
		if n++; n == 1 {
			return answer(200, `{"items":[{"name":"a"}],"has_more":true,"backoff":2}`), nil
		}
		return answer(200, `{"items":[{"name":"b"}]}`), nil
	})
	if err := writeDictionary(); err != nil {
		t.Fatal(err)
	}
	if time.Since(start) < 2*time.Second {
		t.Fatal(time.Since(start))
	}''', ["time"])),
dict(id="g29-seen-page", property="C29", needs="a synonym on an earlier page that is a tag on a later one", breaks="the tag maps to itself as well",
 edits=[(TAGS, '''			// Synonyms first
''', '''			if page%5 == 0 {
				seen = make(map[string]bool) // of recent pages only
			}

			// Synonyms first
''')],
 pkg="filters/stackoverflow/generate",
 demo=G('''	n := 0
	client.Transport = trip(func(*http.Request) (*http.Response, error) {
		n++
		switch {
		case n == 1:
			return answer(200, `{"items":[{"name":"a","synonyms":["b"]}],"has_more":true}`), nil
		case n < 5:
			return answer(200, `{"items":[],"has_more":true}`), nil
		}
		return answer(200, `{"items":[{"name":"b"}]}`), nil
	})
	if err := writeDictionary(); err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadFile("generated.go")
	if err != nil || strings.Count(string(b), `"b"`) > 1 {
		t.Fatal(string(b), err)
	}''')),
dict(id="g30-nbsp", property="C30", needs="a name with another blank than a space around the comma", breaks="the blank becomes part of the name",
 edits=[(NBA, '''strings.TrimSpace(split[1]) + " " + strings.TrimSpace(split[0])''', '''strings.Trim(split[1], " ") + " " + strings.Trim(split[0], " ")''')],
 pkg="filters/nba/generate",
 demo=G('''	m, err := getMappings([]string{"James,\\u00a0LeBron\\n"})
	if err != nil || m["LeBron James"] != "LeBron James" {
		t.Fatal(m, err)
	}
	_, _ = http.StatusOK, strings.ToUpper''')),
dict(id="g30-descendant", property="C30", needs="a link further down in the third column (a footnote)", breaks="it counts as a player",
 edits=[(NBA, '''td:nth-of-type(3) > a"''', '''td:nth-of-type(3) a"''')],
 pkg="filters/nba/generate",
 demo=G('''	http.DefaultTransport = trip(func(*http.Request) (*http.Response, error) {
		return answer(200, `<table class="toccolours"><tr><td><table class="sortable"><tbody><tr><td>1</td><td>2</td><td><a>James, LeBron</a><sup><a>note</a></sup></td></tr></tbody></table></td></tr></table>`), nil
	})
	names, err := fetchNames()
	if err != nil || len(names) != 1 {
		t.Fatal(names, err)
	}
	_ = strings.ToUpper''')),
dict(id="g30-notrunc", property="C30", needs="an existing generated.go that is longer than the new one", breaks="the rest of it stays",
 edits=[(NBA, '''os.Create("generated.go")''', '''os.OpenFile("generated.go", os.O_WRONLY|os.O_CREATE, 0644)''')],
 pkg="filters/nba/generate",
 demo=G('''	if err := ioutil.WriteFile("generated.go", []byte(strings.Repeat("x", 10000)), 0644); err != nil {
		t.Fatal(err)
	}
	if err := write(map[string]string{"a": "b"}); err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadFile("generated.go")
	if err != nil || strings.Contains(string(b), "xxxxx") {
		t.Fatal(err)
	}
	_ = http.StatusOK''')),
]
