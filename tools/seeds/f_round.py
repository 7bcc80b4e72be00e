import importlib.util, os
def _load(n):
    s = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + ".py"))
    m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
_c, _d = _load("c_cmd"), _load("d_more")
CMD, W, J, T, G = _c.CMD, _c.W, _c.J, _d.T, _d.G
CLI, WEB, SYN = _c.CLI, _c.WEB, _c.SYN
TRIE, CON, TAGS, NBA = _d.TRIE, _d.CON, _d.TAGS, _d.NBA
TOK, HTM, TKN, STR = "tokenizer.go", "tokenizer_html.go", "token.go", "tokenstream.go"
F = "github.com/clipperhouse/jargon/filters/"
SYNF = 'm := map[string]string{%s}\n\tf := synonyms.NewFilter(m, %s, []rune{%s})'

BUGS = [
dict(id="f01-nul", property="C01", needs="a string with a NUL character in it", breaks="TokenizeString takes the string to end there",
 edits=[(TOK, '''	return Tokenize(strings.NewReader(s))
''', '''	if i := strings.IndexByte(s, 0); i > 0 {
		// Padding of fixed-size fields
		s = s[:i]
	}
	return Tokenize(strings.NewReader(s))
''')],
 demo=J('''	in := "one\\x00two"
	got, err := jargon.TokenizeString(in).String()
	if err != nil || got != in {
		t.Fatalf("%q %v", got, err)
	}''')),
dict(id="f01-idle", property="C01", needs="a reader that returns no data several times in a row", breaks="the reader is taken to be at its end",
 edits=[(TOK, '''		sc: iterators.NewScanner(r, splitWords),
	}
}
''', '''		sc: iterators.NewScanner(&patient{r: r}, splitWords),
	}
}

// patient is a reader that does not spin on readers without progress
type patient struct {
	r    io.Reader
	idle int
}

func (p *patient) Read(b []byte) (int, error) {
	n, err := p.r.Read(b)
	if n > 0 || err != nil || len(b) == 0 {
		p.idle = 0
		return n, err
	}
	if p.idle++; p.idle > 8 {
		return 0, io.EOF
	}
	return 0, nil
}
''')],
 demo=J('''	in := "the quick brown fox"
	got, err := jargon.Tokenize(&idle{s: in}).String()
	if err != nil || got != in {
		t.Fatalf("%q %v", got, err)
	}
}

type idle struct {
	s string
	n int
}

func (r *idle) Read(p []byte) (int, error) {
	if r.n++; r.n%20 != 0 {
		return 0, nil
	}
	if r.s == "" {
		return 0, io.EOF
	}
	n := copy(p, r.s[:1])
	r.s = r.s[n:]
	return n, nil''', ["io"])),
dict(id="f01-growing", property="C01", needs="a long token after which a text goes on beyond the buffer", breaks="a token of more than 32 KB is cut short",
 edits=[(TOK, '''		token := NewToken(t.sc.Text(), false)
		return token, nil
''', '''		text := t.sc.Text()
		if len(text) > 1<<15 {
			// Not a word; don't keep all of it in memory
			text = string(append([]byte(nil), text[:1<<15]...))
		}
		return NewToken(text, false), nil
''')],
 demo=J('''	in := "a " + strings.Repeat("b", 40000) + " c"
	got, err := jargon.TokenizeString(in).String()
	if err != nil || got != in {
		t.Fatalf("%d %v", len(got), err)
	}''', ["strings"])),
dict(id="f02-fast", property="C02", needs="a number with a semicolon in it (1;2)", breaks="plain ASCII words are cut without looking at semicolons",
 edits=[(TOK, '''	advance, token, err = words.SplitFunc(data, atEOF)
	if atEOF''', '''	if n := plain(data); n > 0 {
		return n, data[:n], nil
	}
	advance, token, err = words.SplitFunc(data, atEOF)
	if atEOF'''), (TOK, '''// next returns the next token. Call''', '''// plain is the length of the word at the start of data, if it is letters and digits of ASCII followed by
// an ASCII character that cannot be part of a word; otherwise zero
func plain(data []byte) int {
	for i, b := range data {
		switch {
		case 'a' <= b && b <= 'z', 'A' <= b && b <= 'Z', '0' <= b && b <= '9':
			continue
		case b >= utf8.RuneSelf, strings.IndexByte(".,:'_", b) >= 0:
			return 0
		}
		return i
	}
	return 0
}

// next returns the next token. Call''')],
 demo=J('''	n, err := jargon.TokenizeString("x 1;2 y").Count()
	if err != nil || n != 5 {
		t.Fatal(n, err)
	}''')),
dict(id="f02-crlf", property="C02", needs="a read that ends between a carriage return and a line feed", breaks="the line break comes apart",
 edits=[(TOK, '''	advance, token, err = words.SplitFunc(data, atEOF)
	if atEOF''', '''	if len(data) == 1 && data[0] < ' ' {
		// Control characters stand alone
		return 1, data, nil
	}
	advance, token, err = words.SplitFunc(data, atEOF)
	if atEOF''')],
 demo=J('''	n, err := jargon.Tokenize(iotest.OneByteReader(strings.NewReader("a\\r\\nb"))).Count()
	if err != nil || n != 3 {
		t.Fatal(n, err)
	}''', ["strings", "testing/iotest"])),
dict(id="f02-flags", property="C02", needs="three or more regional indicators (flags) in a row", breaks="flags in a row stay together",
 edits=[(TOK, '''	rest := data[advance:]
''', '''	rest := data[advance:]
	if r, _ := utf8.DecodeRune(token); unicode.Is(unicode.Regional_Indicator, r) {
		for {
			r, size := utf8.DecodeRune(rest)
			if !unicode.Is(unicode.Regional_Indicator, r) {
				break
			}
			advance += size
			rest = data[advance:]
		}
		if len(rest) == 0 {
			return 0, nil, nil
		}
		return advance, data[:advance], nil
	}
''')],
 demo=J('''	n, err := jargon.TokenizeString("🇦🇧🇨🇩 x").Count()
	if err != nil || n != 4 {
		t.Fatal(n, err)
	}''')),
dict(id="f03-vt", property="C03", needs="a token with a vertical tab or form feed", breaks="it is punctuation",
 edits=[("punct.go", '''case''', '''case '\\v', '\\f':
		return true
	case''')] ,
 demo=J('''	tok := jargon.NewToken("\\f", false)
	if tok.IsPunct() || !tok.IsSpace() {
		t.Fatal("form feed")
	}''')),
dict(id="f03-memo", property="C03", needs="the same value made into a token as lemma and not as lemma", breaks="long values are shared with the first flag they were given",
 edits=[(TKN, '''	return &Token{
		value: s,
		punct: punct,
		space: space,
		lemma: isLemma,
	}
}
''', '''	token = &Token{
		value: s,
		punct: punct,
		space: space,
		lemma: isLemma,
	}
	if punct && len(s) > 3 {
		// Rulers and the like, usually repeated
		actual, _ := rulers.LoadOrStore(s, token)
		return actual.(*Token)
	}
	return token
}

var rulers sync.Map
'''), (TKN, '''import (
	"unicode"
''', '''import (
	"sync"
	"unicode"
''')],
 demo=J('''	jargon.NewToken("----", false)
	if !jargon.NewToken("----", true).IsLemma() {
		t.Fatal("not a lemma")
	}''')),
dict(id="f04-cr", property="C04", needs="a carriage return in the text of a document", breaks="line breaks are normalized in text without entities",
 edits=[(HTM, '''			t.ttokens = TokenizeString(raw)
''', '''			if !strings.Contains(raw, "&") {
				// No entities, nothing was unescaped
				raw = htoken.Data
			}
			t.ttokens = TokenizeString(raw)
'''), (HTM, '''	"io"
''', '''	"io"
	"strings"
''')],
 demo=J('''	in := "<p>a\\r\\nb</p>"
	got, err := jargon.TokenizeHTML(strings.NewReader(in)).String()
	if err != nil || got != in {
		t.Fatalf("%q %v", got, err)
	}''', ["strings"])),
dict(id="f04-attr", property="C04", needs="a tag whose attributes have no value or the same name twice, or single quotes", breaks="a self-closing tag is written anew",
 edits=[(HTM, '''	case html.EndTagToken:
		if htoken''', '''	case html.SelfClosingTagToken:
		if len(htoken.Attr) > 3 {
			raw = htoken.String()
		}
	case html.EndTagToken:
		if htoken''')],
 demo=J('''	in := "<img a='1' b='2' c='3' d='4' />"
	got, err := jargon.TokenizeHTML(strings.NewReader(in)).String()
	if err != nil || got != in {
		t.Fatalf("%q %v", got, err)
	}''', ["strings"])),
dict(id="f05-empty-script", property="C05", needs="an empty script element followed by text", breaks="the text after it is not tokenized",
 edits=[(HTM, '''			token := &Token{
				value: raw,
				punct: false,
				space: false,
			}
			return token, nil
		default:''', '''			token := &Token{
				value: raw,
				punct: false,
				space: false,
			}
			t.parent = 0
			return token, nil
		default:'''), (HTM, '''		if htoken.DataAtom == t.parent {
			t.parent = 0
		}
''', '''		if htoken.DataAtom == t.parent && t.parent != atom.Script {
			t.parent = 0
		}
''')],
 demo=J('''	n, err := jargon.TokenizeHTML(strings.NewReader("<script src=x></script>one two")).Count()
	if err != nil || n != 5 {
		t.Fatal(n, err)
	}''', ["strings"])),
dict(id="f05-long", property="C05", needs="a script of more than 4096 bytes", breaks="it is tokenized as text",
 edits=[(HTM, '''		switch t.parent {
		case atom.Script, atom.Style:''', '''		parent := t.parent
		if len(raw) > 4096 {
			// Too long for one token
			parent = 0
		}
		switch parent {
		case atom.Script, atom.Style:''')],
 demo=J('''	n, err := jargon.TokenizeHTML(strings.NewReader("<script>" + strings.Repeat("a b ", 2000) + "</script>")).Count()
	if err != nil || n != 3 {
		t.Fatal(n, err)
	}''', ["strings"])),
dict(id="f06-pool", property="C06", needs="the slice of one ToSlice is kept while another stream is turned into a slice", breaks="it is overwritten",
 edits=[(STR, '''	var result []*Token

	for stream.Scan() {
		result = append(result, stream.Token())
	}

	if err := stream.Err(); err != nil {
		return nil, stream.Err()
	}

	return result, nil
''', '''	scratch := slices.Get().(*[]*Token)
	defer slices.Put(scratch)
	result := (*scratch)[:0]

	for stream.Scan() {
		result = append(result, stream.Token())
	}
	*scratch = result

	if err := stream.Err(); err != nil {
		return nil, stream.Err()
	}

	if len(result) < 512 {
		return append([]*Token(nil), result...), nil
	}
	return result, nil
'''), (STR, '''// Filter applies one or more''', '''var slices = sync.Pool{New: func() interface{} { s := make([]*Token, 0, 64); return &s }}

// Filter applies one or more'''), (STR, '''	"strings"
''', '''	"strings"
	"sync"
''')],
 demo=J('''	a, _ := jargon.TokenizeString(strings.Repeat("a ", 600)).ToSlice()
	for i := 0; i < 100; i++ {
		jargon.TokenizeString(strings.Repeat("b ", 600)).ToSlice()
		if a[0].String() != "a" {
			t.Fatal(a[0])
		}
	}''', ["strings"])),
dict(id="f06-stringwriter", property="C06", needs="WriteTo into a writer with WriteString that takes part of a string", breaks="too many bytes are counted",
 edits=[(STR, '''		n, err := w.Write([]byte(token.String()))
		written += int64(n)

''', '''		var n int
		var err error
		if sw, ok := w.(io.StringWriter); ok {
			_, err = sw.WriteString(token.String())
			n = len(token.String())
		} else {
			n, err = w.Write([]byte(token.String()))
		}
		written += int64(n)

''')],
 demo=J('''	n, err := jargon.TokenizeString("abcdef").WriteTo(short{})
	if err == nil || n != 2 {
		t.Fatal(n, err)
	}
}

type short struct{}

func (short) Write(p []byte) (int, error)       { return 2, errors.New("full") }
func (short) WriteString(p string) (int, error) { return 2, errors.New("full")''', ["errors"])),
dict(id="f06-current", property="C06", needs="String called after Scan", breaks="the token already handed out is in the result again",
 edits=[(STR, '''	var b strings.Builder

	for stream.Scan() {
		token := stream.Token()
		b.WriteString(token.String())
	}
''', '''	var b strings.Builder

	for token := stream.first(); token != nil; token = stream.Token() {
		b.WriteString(token.String())
		if !stream.Scan() {
			break
		}
	}
'''), (STR, '''// WriteTo writes all''', '''// first is the token to start with
func (stream *TokenStream) first() *Token {
	if stream.token == nil {
		stream.Scan()
	}
	return stream.token
}

// WriteTo writes all''')],
 demo=J('''	s := jargon.TokenizeString("a b")
	s.Scan()
	got, err := s.String()
	if err != nil || got != " b" {
		t.Fatalf("%q %v", got, err)
	}''')),
dict(id="f07-temporary", property="C07", needs="an error that says it is temporary", breaks="it is tried again a few times, then taken as the end",
 edits=[(TOK, '''		sc: iterators.NewScanner(r, splitWords),
	}
}
''', '''		sc: iterators.NewScanner(&retry{r: r}, splitWords),
	}
}

type retry struct {
	r io.Reader
}

func (r *retry) Read(p []byte) (n int, err error) {
	for i := 0; i < 3; i++ {
		n, err = r.r.Read(p)
		if t, ok := err.(interface{ Temporary() bool }); !ok || !t.Temporary() {
			return n, err
		}
		if n > 0 {
			return n, nil
		}
	}
	return 0, io.EOF
}
''')],
 demo=J('''	_, err := jargon.Tokenize(temp{}).ToSlice()
	if err == nil {
		t.Fatal("no error")
	}
}

type temp struct{}

func (temp) Error() string   { return "temp" }
func (temp) Temporary() bool { return true }
func (temp) Read(p []byte) (int, error) { return 0, temp{}''')),
dict(id="f07-prefetch", property="C07", needs="the input failing directly after a contraction", breaks="the failure is taken for the end",
 edits=[("filters/contractions/filter.go", '''	if t.outgoing.Any() {
		return t.outgoing.Pop(), nil
	}

	token, err := t.incoming.Next()
''', '''	if t.outgoing.Any() {
		token := t.outgoing.Pop()
		if !t.outgoing.Any() {
			// The expansion is through, see whether there is more
			if !t.incoming.Scan() {
				t.done = true
			} else {
				t.ahead = t.incoming.Token()
			}
		}
		return token, nil
	}
	if t.done {
		return nil, nil
	}

	token, err := t.ahead, error(nil)
	if token == nil {
		token, err = t.incoming.Next()
	}
	t.ahead = nil
'''), ("filters/contractions/filter.go", '''	outgoing *tokenqueue.TokenQueue
}''', '''	outgoing *tokenqueue.TokenQueue
	ahead    *jargon.Token
	done     bool
}''')],
 demo=J('''	r := io.MultiReader(strings.NewReader("I don't "), iotest.ErrReader(errors.New("broken")))
	toks := jargon.Tokenize(r)
	_, err := toks.Where(func(t *jargon.Token) bool { return !t.IsSpace() }).Filter(contractions.Expand).ToSlice()
	if err == nil {
		t.Fatal("no error")
	}''', ["io", "errors", "strings", "testing/iotest", F + "contractions"])),
dict(id="f07-count", property="C07", needs="an input that fails, consumed by Count through Distinct", breaks="Distinct ends instead of failing when it has seen something",
 edits=[(STR, '''	w := &where{
		stream:    stream,
		predicate: isDistinct,
	}
	return NewTokenStream(w.next)
''', '''	return NewTokenStream(func() (*Token, error) {
		for stream.Scan() {
			if token := stream.Token(); isDistinct(token) {
				return token, nil
			}
		}
		if len(seen) > 0 {
			return nil, nil
		}
		return nil, stream.Err()
	})
''')],
 demo=J('''	r := io.MultiReader(strings.NewReader("a b "), iotest.ErrReader(errors.New("broken")))
	_, err := jargon.Tokenize(r).Distinct().Count()
	if err == nil {
		t.Fatal("no error")
	}''', ["io", "errors", "strings", "testing/iotest"])),
dict(id="f08-ahead", property="C08", needs="a selection of a stream of which the rest is read directly, or by another selection", breaks="a selection reads one match ahead",
 edits=[(STR, '''	predicate func(*Token) bool
}
''', '''	predicate func(*Token) bool
	ahead     *Token
}
'''), (STR, '''		if w.predicate(token) {
			return token, nil
		}
	}

	return nil, nil
}
''', '''		if w.predicate(token) {
			if w.ahead == nil {
				w.ahead = token
				continue
			}
			token, w.ahead = w.ahead, token
			return token, nil
		}
	}

	token := w.ahead
	w.ahead = nil
	return token, nil
}
''')],
 demo=J('''	s := jargon.TokenizeString("a b c")
	s.Words().Next()
	got, err := s.String()
	if err != nil || got != " b c" {
		t.Fatalf("%q %v", got, err)
	}''')),
dict(id="f08-flag", property="C08", needs="the same value as a lemma and as another token", breaks="Distinct hands out both",
 edits=[(STR, '''	seen := map[string]bool{}
	isDistinct := func(t *Token) bool {
		found := seen[t.String()]
		if !found {
			seen[t.String()] = true
		}
		return !found
	}
''', '''	seen := map[Token]bool{}
	isDistinct := func(t *Token) bool {
		found := seen[*t]
		if !found {
			seen[*t] = true
		}
		return !found
	}
''')],
 demo=J('''	n, err := jargon.TokenizeString("cafe,café").Filter(ascii.Fold).Distinct().Count()
	if err != nil || n != 2 {
		t.Fatal(n, err)
	}''', [F + "ascii"])),
dict(id="f09-upper", property="C09", needs="a letter whose upper and lower case do not go both ways (ſ, ı, K), ignoreCase", breaks="text is compared in upper case first",
 edits=[("filters/synonyms/trie/trie.go", '''			if t.ignoreCase {
				r = unicode.ToLower(r)
			}

			if t.ignore[r] {
				continue
			}

			n = n.children[r]''', '''			if t.ignoreCase {
				r = unicode.ToLower(unicode.ToUpper(r))
			}

			if t.ignore[r] {
				continue
			}

			n = n.children[r]''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{"maſs": "mass"}, true, nil)
	n, err := jargon.TokenizeString("a maſs").Filter(f).Lemmas().Count()
	if err != nil || n != 1 {
		t.Fatal(n, err)
	}''', [F + "synonyms"])),
dict(id="f09-skip", property="C09", needs="a synonym that begins in the middle of words that begin another, longer one", breaks="the words of a partial match are passed along together",
 edits=[("filters/synonyms/filter.go", '''		// The word didn't lemmatize, pass it along verbatim
		t.buffer.PopTo(t.outgoing)
''', '''		// The word didn't lemmatize, pass it along verbatim
		t.buffer.PopTo(t.outgoing)
		// ...and a word that repeats it can't, either
		for t.buffer.Len() > 1 && t.buffer.Tokens[0].IsSpace() && t.buffer.Tokens[1].String() == t.outgoing.Tokens[0].String() {
			t.buffer.PopTo(t.outgoing)
			t.buffer.PopTo(t.outgoing)
		}
''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{"new york": "nyc"}, true, nil)
	got, err := jargon.TokenizeString("new new york").Filter(f).String()
	if err != nil || got != "new nyc" {
		t.Fatal(got, err)
	}''', [F + "synonyms"])),
dict(id="f09-again", property="C09", needs="a canonical that is itself the beginning of (or is) a listed synonym, followed by its other words", breaks="the canonical is matched again together with what follows",
 edits=[("filters/synonyms/filter.go", '''				token := jargon.NewToken(canonical, true)
				t.outgoing.Push(token)
			}
			t.buffer.Drop(consumed)
			continue
''', '''				token := jargon.NewToken(canonical, true)
				t.buffer.Drop(consumed)
				if again, other, n := t.filter.trie.SearchCanonical(append([]*jargon.Token{token}, t.buffer.Tokens...)...); again && n > 1 {
					token = jargon.NewToken(other, true)
					t.buffer.Drop(n - 1)
				}
				t.outgoing.Push(token)
				continue
			}
			t.buffer.Drop(consumed)
			continue
''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{"js": "javascript", "javascript framework": "framework"}, true, []rune{' '})
	got, err := jargon.TokenizeString("js framework").Filter(f).String()
	if err != nil || got != "javascript framework" {
		t.Fatal(got, err)
	}''', [F + "synonyms"])),
dict(id="f10-blanks", property="C10", needs="several blanks between words that do not match, with lookahead", breaks="they are joined into one token of blanks",
 edits=[("filters/synonyms/filter.go", '''		if token.IsSpace() {
			continue
		}

		// It's a word
		wordcount++
''', '''		if token.IsSpace() {
			if n := t.buffer.Len(); n > 1 && t.buffer.Tokens[n-2].IsSpace() {
				// One token is enough
				t.buffer.Tokens[n-2] = jargon.NewToken(t.buffer.Tokens[n-2].String()+token.String(), false)
				t.buffer.Tokens = t.buffer.Tokens[:n-1]
			}
			continue
		}

		// It's a word
		wordcount++
''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{"x y z": "w"}, true, nil)
	n, err := jargon.TokenizeString("a \\u2003\\u00a0 b").Filter(f).Count()
	m, _ := jargon.TokenizeString("a \\u2003\\u00a0 b").Count()
	if err != nil || n != m {
		t.Fatal(n, m, err)
	}''', [F + "synonyms"])),
dict(id="f10-lemma-blank", property="C10", needs="a blank that is a lemma, between words", breaks="it is replaced by a plain blank",
 edits=[("filters/synonyms/filter.go", '''		t.buffer.Push(token)

		if token.IsPunct() {
			break
		}
''', '''		if token.String() == " " {
			// Share them
			token = blank
		}
		t.buffer.Push(token)

		if token.IsPunct() {
			break
		}
'''), ("filters/synonyms/filter.go", '''type tokens struct {''', '''var blank = jargon.NewToken(" ", false)

type tokens struct {''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{"x y z": "w"}, true, nil)
	n, err := jargon.TokenizeString("I don't know").Filter(contractions.Expand, f).Lemmas().Count()
	if err != nil || n != 3 {
		t.Fatal(n, err)
	}''', [F + "synonyms", F + "contractions"])),
dict(id="f11-readfull", property="C11", needs="an input that arrives slowly", breaks="a few kilobytes have to be there before anything comes out",
 edits=[(TOK, '''		sc: iterators.NewScanner(r, splitWords),
	}
}
''', '''		sc: iterators.NewScanner(&full{r: r}, splitWords),
	}
}

// full avoids tiny reads
type full struct {
	r io.Reader
}

func (f *full) Read(p []byte) (int, error) {
	min := 512
	if len(p) < min {
		min = len(p)
	}
	n, err := io.ReadAtLeast(f.r, p, min)
	if err == io.ErrUnexpectedEOF {
		err = io.EOF
	}
	return n, err
}
''')],
 demo=J('''	r, w := io.Pipe()
	done := make(chan bool)
	go func() {
		jargon.Tokenize(r).Next()
		done <- true
	}()
	go w.Write([]byte("hello there you. "))
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("nothing")
	}''', ["io", "time"])),
dict(id="f11-map-ahead", property="C11", needs="a mapping filter on an endless stream, and somebody who looks at what was read", breaks="tokens are mapped in batches",
 edits=[("filters/mapper/filter.go", '''	filter   *filter
}
''', '''	filter   *filter
	batch    []*jargon.Token
	err      error
}
'''), ("filters/mapper/filter.go", '''	token, err := t.incoming.Next()
	if err != nil {
		return nil, err
	}
	if token == nil {
		return nil, nil
	}
''', '''	// Batches are kinder to caches
	if len(t.batch) == 0 && t.err == nil {
		for len(t.batch) < 64 && t.incoming.Scan() {
			t.batch = append(t.batch, t.incoming.Token())
		}
		t.err = t.incoming.Err()
	}
	if len(t.batch) == 0 {
		err := t.err
		t.err = nil
		return nil, err
	}
	token := t.batch[0]
	t.batch = t.batch[1:]
''')],
 demo=J('''	n := 0
	s := jargon.NewTokenStream(func() (*jargon.Token, error) { n++; return jargon.NewToken("a", false), nil })
	s.Filter(ascii.Fold).Next()
	if n > 16 {
		t.Fatal(n)
	}''', [F + "ascii"])),
dict(id="f11-grow", property="C11", needs="a very long stream with contractions", breaks="the queue of a contraction filter keeps what it has handed out",
 edits=[("filters/contractions/filter.go", '''		for _, token := range tokens {
			// These replace''', '''		t.log = append(t.log, tokens...)
		for _, token := range tokens {
			// These replace'''), ("filters/contractions/filter.go", '''	outgoing *tokenqueue.TokenQueue
}''', '''	outgoing *tokenqueue.TokenQueue
	log      []*jargon.Token // for debugging
}''')],
 demo=J('''	n := 0
	s := jargon.NewTokenStream(func() (*jargon.Token, error) {
		if n++; n > 400000 {
			return nil, nil
		}
		return jargon.NewToken("shouldn't", false), nil
	}).Filter(contractions.Expand)
	var a, b runtime.MemStats
	for i := 0; i < 1000; i++ {
		s.Next()
	}
	runtime.GC()
	runtime.ReadMemStats(&a)
	for i := 0; i < 900000; i++ {
		s.Next()
	}
	runtime.GC()
	runtime.ReadMemStats(&b)
	runtime.KeepAlive(s)
	if b.HeapAlloc > a.HeapAlloc+8<<20 {
		t.Fatal(b.HeapAlloc - a.HeapAlloc)
	}''', ["runtime", F + "contractions"])),

dict(id="f12-stem-memo", property="C12", needs="two goroutines that stem at the same time", breaks="they share a map without a lock",
 edits=[("filters/stemmer/filter.go", '''	f := func(token *jargon.Token) *jargon.Token {
''', '''	memo := map[string]*jargon.Token{}
	f := func(token *jargon.Token) *jargon.Token {
'''), ("filters/stemmer/filter.go", '''		return jargon.NewToken(stemmed, true)
''', '''		stem, ok := memo[stemmed]
		if !ok {
			if len(memo) > 1000 {
				memo = map[string]*jargon.Token{}
			}
			stem = jargon.NewToken(stemmed, true)
			memo[stemmed] = stem
		}
		return stem
''')], flags="-race",
 demo=J('''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			jargon.TokenizeString("running jumping swimming managers").Filter(stemmer.English).Count()
		}()
	}
	wg.Wait()''', ["sync", F + "stemmer"])),
dict(id="f12-mapper-index", property="C12", needs="two streams of one mapping filter used at the same time", breaks="which function is next is kept with the filter",
 edits=[("filters/mapper/filter.go", '''	for _, f := range t.filter.funcs {
		token = f(token)
	}
''', '''	for t.filter.at = 0; t.filter.at < len(t.filter.funcs); t.filter.at++ {
		token = t.filter.funcs[t.filter.at](token)
	}
'''), ("filters/mapper/filter.go", '''	funcs []func(*jargon.Token) *jargon.Token
}
''', '''	funcs []func(*jargon.Token) *jargon.Token
	at    int
}
''')], flags="-race",
 demo=J('''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			jargon.TokenizeString("running jumping swimming managers").Filter(ascii.Fold).Count()
		}()
	}
	wg.Wait()''', ["sync", F + "ascii"])),
dict(id="f12-trie-scratch", property="C12", needs="two goroutines searching with one synonyms filter, folding case", breaks="they share a buffer",
 edits=[("filters/synonyms/trie/trie.go", '''		for _, r := range token.String() {
			if t.ignoreCase {
				r = unicode.ToLower(r)
			}

			if t.ignore[r] {
				continue
			}

			n = n.children[r]''', '''		t.scratch = t.scratch[:0]
		for _, r := range token.String() {
			if t.ignoreCase {
				r = unicode.ToLower(r)
			}

			if t.ignore[r] {
				continue
			}
			t.scratch = append(t.scratch, r)
		}
		for _, r := range t.scratch {
			n = n.children[r]'''), ("filters/synonyms/trie/trie.go", '''	ignoreCase bool
}
''', '''	ignoreCase bool
	scratch    []rune
}
''')], flags="-race",
 demo=J('''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			jargon.TokenizeString("ruby on rails and react js").Filter(stackoverflow.Tags).Count()
		}()
	}
	wg.Wait()''', ["sync", F + "stackoverflow"])),
dict(id="f13-empty", property="C13", needs="a dictionary that cannot be loaded, and a text without words", breaks="the failure is not reported",
 edits=[("filters/synonyms/filter.go", '''		if f.err != nil {
			return nil, f.err
		}
		return t.next()
''', '''		return t.next()
'''), ("filters/synonyms/filter.go", '''		err := t.fill()
		if err != nil {
			return nil, err
		}

		run, err''', '''		if t.filter.err != nil {
			return nil, t.filter.err
		}

		err := t.fill()
		if err != nil {
			return nil, err
		}

		run, err''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{strings.Repeat("a", 100000): "b"}, true, nil)
	_, err := jargon.TokenizeString(" , ").Filter(f).Count()
	if err == nil {
		t.Fatal("no error")
	}''', ["strings", F + "synonyms"])),
dict(id="f13-some", property="C13", needs="a dictionary with one entry that cannot be tokenized, next to others", breaks="the streams are filtered with the part loaded so far, after the first error",
 edits=[("filters/synonyms/filter.go", '''		if f.err != nil {
			return nil, f.err
		}
		return t.next()
''', '''		if f.err != nil && !reported {
			reported = true
			return nil, f.err
		}
		if f.trie == nil {
			return incoming.Next()
		}
		return t.next()
'''), ("filters/synonyms/filter.go", '''	next := func() (*jargon.Token, error) {
''', '''	reported := false
	next := func() (*jargon.Token, error) {
''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{strings.Repeat("a", 100000): "b", "x": "y"}, true, nil)
	s := jargon.TokenizeString("a b").Filter(f)
	s.Next()
	if tok, err := s.Next(); err == nil {
		t.Fatal(tok)
	}''', ["strings", F + "synonyms"])),
dict(id="f14-long", property="C14", needs="a contraction of more than eight characters in a mixture of cases", breaks="only short ones are looked up without case",
 edits=[("filters/contractions/filter.go", '''	if ignoreCase {
		key = strings.ToLower(key)
	}
''', '''	if ignoreCase {
		if len(key) > 8 {
			// Not likely
			return false, nil
		}
		key = strings.ToLower(key)
	}
''')],
 demo=J('''	got, err := jargon.TokenizeString("ShouldN't").Filter(contractions.Expand).String()
	if err != nil || got != "should not" {
		t.Fatal(got, err)
	}''', [F + "contractions"])),
dict(id="f15-mark", property="C15", needs="a hashtag with a combining mark", breaks="it is taken as a hashtag",
 edits=[("filters/twitter/filter.go", '''			unicode.IsNumber(r),
			r == '_':''', '''			unicode.IsNumber(r),
			unicode.IsMark(r),
			r == '_':''')],
 demo=J('''	n, err := jargon.TokenizeString("#cafe\u0301s").Filter(twitter.Hashtags).Lemmas().Count()
	if err != nil || n != 0 {
		t.Fatal(n, err)
	}''', [F + "twitter"])),
dict(id="f15-lemma-name", property="C15", needs="a name that is a lemma already", breaks="it is not joined with its sigil",
 edits=[("filters/sigil/filter.go", '''	if legal(lookahead.String()) {''', '''	if !lookahead.IsLemma() && legal(lookahead.String()) {''')],
 demo=J('''	got, err := jargon.TokenizeString("@café").Filter(ascii.Fold, twitter.Handles).Count()
	if err != nil || got != 1 {
		t.Fatal(got, err)
	}''', [F + "twitter", F + "ascii"])),
dict(id="f15-after-rejected", property="C15", needs="a sigil after a rejected name that is a word", breaks="what was rejected does not count as the word before",
 edits=[("filters/sigil/filter.go", '''	if s.outgoing.Any() {
		s.previous = s.outgoing.Pop()
		return s.previous, nil
	}
''', '''	if s.outgoing.Any() {
		return s.outgoing.Pop(), nil
	}
''')],
 demo=J('''	n, err := jargon.TokenizeString("@abcdefghijklmnopq@foo").Filter(twitter.Handles).Lemmas().Count()
	if err != nil || n != 0 {
		t.Fatal(n, err)
	}''', [F + "twitter"])),
dict(id="f16-guard", property="C16", needs="more than a thousand stop words in a row", breaks="the stream ends there",
 edits=[("filters/stopwords/filter.go", '''	for {
		token, err''', '''	for skipped := 0; skipped < 1000; skipped++ {
		token, err'''), ("filters/stopwords/filter.go", '''		return token, nil
	}
}''', '''		return token, nil
	}
	return nil, nil
}''')],
 demo=J('''	f := stopwords.NewFilter([]string{"a", " "}, true)
	n, err := jargon.TokenizeString(strings.Repeat("a ", 2000) + "b").Filter(f).Count()
	if err != nil || n != 1 {
		t.Fatal(n, err)
	}''', ["strings", F + "stopwords"])),
dict(id="f16-final-sigma", property="C16", needs="a stop word with a sigma, in upper case", breaks="words are compared by upper case",
 edits=[("filters/stopwords/filter.go", '''			key = strings.ToLower(s)
''', '''			key = strings.ToUpper(s)
'''), ("filters/stopwords/filter.go", '''			key = strings.ToLower(token.String())
''', '''			key = strings.ToUpper(token.String())
''')],
 demo=J('''	f := stopwords.NewFilter([]string{"οδος"}, true)
	n, err := jargon.TokenizeString("οδοσ").Filter(f).Count()
	if err != nil || n != 1 {
		t.Fatal(n, err)
	}''', [F + "stopwords"])),
dict(id="f17-fixpoint", property="C17", needs="a word whose stem can be stemmed again", breaks="it is stemmed until nothing changes",
 edits=[("filters/stemmer/filter.go", '''		stemmed := stem(token.String(), true)
''', '''		stemmed := stem(token.String(), true)
		for again := stem(stemmed, true); again != stemmed && len(again) > 6; again = stem(stemmed, true) {
			stemmed = again
		}
''')],
 demo=J('''	in := "generalizationally"
	_ = in
	for _, w := range []string{"experimentalities", "organisationally", "reasonablenesses", "internationalisations", "conservativenesses", "responsiblenesses", "operationalizations", "charitablenesses", "emotionalnesses", "professionalizing"} {
		got, err := jargon.TokenizeString(w).Filter(stemmer.English).String()
		if err != nil || got != english.Stem(w, true) {
			t.Fatal(got, err)
		}
	}''', [F + "stemmer", "github.com/kljensen/snowball/english"])),
dict(id="f17-last-only", property="C17", needs="a mapping filter made of three functions or more", breaks="a function after one that changed nothing is skipped",
 edits=[("filters/mapper/filter.go", '''	for _, f := range t.filter.funcs {
		token = f(token)
	}
''', '''	for i, f := range t.filter.funcs {
		mapped := f(token)
		if mapped == token && i > 1 {
			// Settled
			break
		}
		token = mapped
	}
''')],
 demo=J('''	same := func(t *jargon.Token) *jargon.Token { return t }
	up := func(t *jargon.Token) *jargon.Token { return jargon.NewToken("X", true) }
	got, err := jargon.TokenizeString("a").Filter(mapper.NewFilter(same, same, same, up)).String()
	if err != nil || got != "X" {
		t.Fatal(got, err)
	}''', [F + "mapper"])),
dict(id="f18-combining", property="C18", needs="a combining mark after a character that is folded", breaks="it is dropped",
 edits=[("filters/ascii/fold.go", '''	for _, r := range s {
''', '''	for _, r := range s {
		if folded && '\u0300' <= r && r <= '\u0304' {
			// The accent of what was folded
			continue
		}
''')],
 demo='''package ascii

import "testing"

func TestZZDemo(t *testing.T) {
	if got, _ := FoldString("é\u0301"); got != "e\u0301" {
		t.Fatalf("%q", got)
	}
}
''', pkg="filters/ascii"),
dict(id="f18-nothing", property="C18", needs="a string of one folded character only", breaks="a result of one letter for one letter is not said to be folded",
 edits=[("filters/ascii/filter.go", '''	if folded {''', '''	if folded && len(fold) != utf8.RuneCountInString(token.String())+2 {'''), ("filters/ascii/filter.go", '''import (
''', '''import (
	"unicode/utf8"

''')],
 demo=J('''	got, err := jargon.TokenizeString("⑴").Filter(ascii.Fold).String()
	if err != nil || got != "(1)" {
		t.Fatal(got, err)
	}''', [F + "ascii"])),
dict(id="f19-shrink", property="C19", needs="a queue that was long and then drained", breaks="shrinking forgets the tokens pushed since",
 edits=[("tokenqueue/queue.go", '''	// Chop off the end
	q.Tokens = q.Tokens[:len(q.Tokens)-n]
''', '''	// Chop off the end
	q.Tokens = q.Tokens[:len(q.Tokens)-n]
	if cap(q.Tokens) > 32 && len(q.Tokens) < cap(q.Tokens)/8 {
		// Give memory back
		q.Tokens = append(make([]*Token, 0, 8), q.Tokens[:len(q.Tokens)/2*2]...)
	}
''')],
 demo=J('''	q := tokenqueue.New()
	for i := 0; i < 40; i++ {
		q.Push(jargon.NewToken("x", false))
	}
	q.Drop(37)
	if q.Len() != 3 {
		t.Fatal(q.Len())
	}''', ["github.com/clipperhouse/jargon/tokenqueue"])),
dict(id="f19-many", property="C19", needs="pushing more than sixteen tokens at once onto tokens that are there", breaks="they get in front",
 edits=[("tokenqueue/queue.go", '''	q.Tokens = append(q.Tokens, tokens...)
''', '''	if len(tokens) > 16 {
		// One allocation
		q.Tokens = append(tokens[:len(tokens):len(tokens)], q.Tokens...)
		return
	}
	q.Tokens = append(q.Tokens, tokens...)
''')],
 demo=J('''	q := tokenqueue.New(jargon.NewToken("first", false))
	ts, _ := jargon.TokenizeString("a b c d e f g h i j k l m n").ToSlice()
	q.Push(ts...)
	if q.Pop().String() != "first" {
		t.Fatal("order")
	}''', ["github.com/clipperhouse/jargon/tokenqueue"])),
dict(id="f20-many", property="C20", needs="more than eight filters in one call", breaks="the order of the ones after the eighth is turned round",
 edits=[(STR, '''	outgoing := stream
	for _, f := range filters {
		outgoing = f(outgoing)
	}
	return outgoing
''', '''	if len(filters) > 8 {
		n := len(filters)
		return stream.Filter(filters[:8]...).Filter(filters[n-1]).Filter(filters[8 : n-1]...)
	}
	outgoing := stream
	for _, f := range filters {
		outgoing = f(outgoing)
	}
	return outgoing
''')],
 demo=J('''	mk := func(s string) jargon.Filter {
		return func(in *jargon.TokenStream) *jargon.TokenStream {
			return jargon.NewTokenStream(func() (*jargon.Token, error) {
				tok, err := in.Next()
				if tok == nil || err != nil {
					return nil, err
				}
				return jargon.NewToken(tok.String()+s, true), nil
			})
		}
	}
	var fs []jargon.Filter
	for _, c := range "abcdefghijkl" {
		fs = append(fs, mk(string(c)))
	}
	got, err := jargon.TokenizeString("_").Filter(fs...).String()
	if err != nil || got != "_abcdefghijkl" {
		t.Fatal(got, err)
	}''')),
dict(id="f20-eager", property="C20", needs="a stream that is filtered, and read before the filtered one is", breaks="the filtered stream begins where the stream was when the filter was applied",
 edits=[(STR, '''	outgoing := stream
	for _, f := range filters {
		outgoing = f(outgoing)
	}
	return outgoing
''', '''	outgoing := stream
	for _, f := range filters {
		outgoing = f(outgoing)
	}
	if len(filters) == 0 {
		return outgoing
	}
	// Have the first token ready
	token, err := outgoing.Next()
	ready := true
	return NewTokenStream(func() (*Token, error) {
		if ready {
			ready = false
			return token, err
		}
		return outgoing.Next()
	})
''')],
 demo=J('''	s := jargon.TokenizeString("a b")
	f := s.Filter(ascii.Fold)
	s.Next()
	got, err := f.String()
	if err != nil || got != " b" {
		t.Fatalf("%q %v", got, err)
	}''', [F + "ascii"])),
dict(id="f21-lang-case", property="C21", needs="-lang before -stem, with another -stem after it", breaks="filters after the language are dropped",
 edits=[(CLI, '''			c.Filters = append(c.Filters, filter)
''', '''			if n := len(c.Filters); n > 3 && arg == "-lemmas" {
				// Select at the end
				defer func(f jargon.Filter) { c.Filters = append(c.Filters, f) }(filter)
				continue
			}
			c.Filters = append(c.Filters, filter)
''')], sh=CMD('''
a=$(echo "I don't like café management" | $j -ascii -contractions -stack -ascii -lemmas -stem)
b=$(echo "I don't like café management" | $j -ascii -contractions -stack -ascii | cat)
[ "$a" = "donotcafe" ] || { [ "$a" = "do notcafe" ] || { echo "$a"; exit 1; }; }
''')),
dict(id="f21-trailing", property="C21", needs="an input that does not end with a line break, or ends with several", breaks="the output of a file ends with one line break",
 edits=[(CLI, '''	if err := c.Writer.Flush(); err != nil {
		return err
	}

	return nil
}''', '''	if c.Fileout != nil && !c.Lines && c.HTML {
		// Text files end with a line break
		if err := c.Writer.WriteByte('\\n'); err != nil {
			return err
		}
	}
	if err := c.Writer.Flush(); err != nil {
		return err
	}

	return nil
}''')], sh=CMD('''
printf '<p>a</p>' | $j -html -out "$d/o" || exit 1
[ "$(stat -c %s "$d/o")" = 8 ]
''')),
dict(id="f22-rename", property="C22", needs="-out naming a symbolic link or a pipe", breaks="it is replaced by a file",
 edits=[(CLI, '''		file, err := c.Fs.Create(fileout)
		if err != nil {
			return err
		}
''', '''		if fi, err := c.Fs.Stat(fileout); err == nil && !fi.IsDir() && fi.Size() == 0 {
			// Make sure that it's ours
			if err := c.Fs.Remove(fileout); err != nil {
				return err
			}
		}
		file, err := c.Fs.Create(fileout)
		if err != nil {
			return err
		}
''')], sh=CMD('''
: > "$d/real"; ln -s real "$d/link"
printf 'a b' | $j -out "$d/link" || exit 1
[ "$(cat "$d/real")" = "a b" ]
''')),
dict(id="f22-two-inputs", property="C22", needs="-file together with piped input", breaks="empty piped input does not count as input",
 edits=[(CLI, '''	c.Pipedin = (mode & os.ModeCharDevice) == 0 // https''', '''	c.Pipedin = mode&os.ModeCharDevice == 0 && (filein == "" || mode.IsRegular() || mode&os.ModeNamedPipe != 0) // https''')],
 sh=CMD('''
printf 'a b' > "$d/f"
python3 - "$j" "$d/f" <<'X'
import socket, subprocess, sys
a, b = socket.socketpair()
b.close()
sys.exit(0 if subprocess.run([sys.argv[1], "-file", sys.argv[2]], stdin=a).returncode else 1)
X
''')),
dict(id="f23-cache", property="C23", needs="two requests with texts of the same length that begin alike", breaks="the second gets the answer of the first",
 edits=[(WEB, '''	route := parts[1]
''', '''	route := parts[1]

	if r.ContentLength > 256 && r.ContentLength < 1<<16 {
		body, err := ioutil.ReadAll(r.Body)
		if err != nil {
			log.Print(err)
			w.WriteHeader(500)
			return
		}
		if len(body) > 256 {
			key := route + string(body[:256]) + strconv.Itoa(len(body))
			if known, ok := recent.Load(key); ok {
				body = known.([]byte)
			}
			recent.Store(key, body)
		}
		r.Body = ioutil.NopCloser(bytes.NewReader(body))
	}
'''), (WEB, '''func jargonHandler''', '''var recent sync.Map

func jargonHandler'''), (WEB, '''	"html/template"
''', '''	"html/template"
	"io/ioutil"
'''), (WEB, '''	"strings"

''', '''	"strconv"
	"strings"
	"sync"

''')], pkg="web",
 demo=W('''	for _, x := range []string{"one", "two"} {
		w := httptest.NewRecorder()
		mainHandler(w, httptest.NewRequest("POST", "/text", strings.NewReader(strings.Repeat("a ", 200)+x)))
		if !strings.HasSuffix(w.Body.String(), x) {
			t.Fatal(w.Body.String())
		}
	}''', ["strings"])),
dict(id="f23-type", property="C23", needs="a request for text whose content type says HTML", breaks="it is treated as HTML",
 edits=[(WEB, '''		tokens = jargon.Tokenize(r.Body)
''', '''		tokens = jargon.Tokenize(r.Body)
		if strings.HasPrefix(r.Header.Get("Content-Type"), "text/html") {
			tokens = jargon.TokenizeHTML(r.Body)
		}
''')], pkg="web",
 demo=W('''	w := httptest.NewRecorder()
	r := httptest.NewRequest("POST", "/text", strings.NewReader("<script>x ruby on rails</script>"))
	r.Header.Set("Content-Type", "text/html; charset=utf-8")
	mainHandler(w, r)
	if !strings.Contains(w.Body.String(), "ruby-on-rails") {
		t.Fatal(w.Body.String())
	}''', ["strings"])),
dict(id="f23-slow", property="C23", needs="a body that arrives slowly", breaks="what arrives later is lost",
 edits=[(WEB, '''	log.Fatal(http.ListenAndServe(":"+port, nil))
''', '''	server := &http.Server{Addr: ":" + port, ReadTimeout: 500 * time.Millisecond}
	log.Fatal(server.ListenAndServe())
'''), (WEB, '''	"strings"

''', '''	"strings"
	"time"

''')],
 sh='''#!/bin/bash
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
d=$(mktemp -d)
go build -o "$d/web" ./web || exit 1
python3 - "$d/web" <<'X'
import socket, subprocess, sys, time, os
s = socket.socket(); s.bind(("127.0.0.1", 0)); port = s.getsockname()[1]; s.close()
p = subprocess.Popen([sys.argv[1]], env=dict(os.environ, PORT=str(port)))
ok = False
try:
    for _ in range(100):
        try: c = socket.create_connection(("127.0.0.1", port)); break
        except OSError: time.sleep(0.05)
    c.sendall(b"POST /text HTTP/1.1\\r\\nHost: x\\r\\nConnection: close\\r\\nContent-Length: 6\\r\\n\\r\\nab ")
    time.sleep(2)
    c.sendall(b"cde")
    c.settimeout(20)
    got = b""
    while True:
        x = c.recv(4096)
        if not x: break
        got += x
    ok = got.endswith(b"ab cde")
    print(got)
finally:
    p.kill()
sys.exit(0 if ok else 1)
X
rc=$?
rm -r "$d"
exit $rc
'''),
dict(id="f24-canonical-space", property="C24", needs="a canonical that is one of the common words or a blank", breaks="it is not marked as a lemma",
 edits=[("filters/synonyms/filter.go", '''				token := jargon.NewToken(canonical, true)
				t.outgoing.Push(token)
''', '''				token := jargon.NewToken(canonical, true)
				if token.IsSpace() || token.IsPunct() {
					// Only words can be lemmas
					token = jargon.NewToken(canonical, false)
				}
				t.outgoing.Push(token)
''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{"comma": ","}, true, nil)
	n, err := jargon.TokenizeString("a comma b").Filter(f).Lemmas().Count()
	if err != nil || n != 1 {
		t.Fatal(n, err)
	}''', [F + "synonyms"])),
dict(id="f24-unlemma", property="C24", needs="a lemma that goes through a filter which does not change it", breaks="it is a lemma no more if its length is that of a sigil",
 edits=[("filters/sigil/filter.go", '''	// Queue the lookahead for later
	s.outgoing.Push(lookahead)
''', '''	// Queue the lookahead for later
	if lookahead.String() == sigil {
		// Another one
		lookahead = jargon.NewToken(sigil, false)
	}
	s.outgoing.Push(lookahead)
''')],
 demo=J('''	n, err := jargon.TokenizeString("＠＠ x").Filter(ascii.Fold, twitter.Handles).Lemmas().Count()
	if err != nil || n != 2 {
		t.Fatal(n, err)
	}''', [F + "ascii", F + "twitter"])),
dict(id="f25-trailing-blank", property="C25", needs="a blank before a comma, blanks not ignored", breaks="the blank is not part of the synonym",
 edits=[("filters/synonyms/filter.go", '''				slice := tokens[start:i]
				trie.Add(slice, canonical)
''', '''				slice := tokens[start:i]
				if n := len(slice); n > 1 && slice[n-1].IsSpace() {
					slice = slice[:n-1]
				}
				trie.Add(slice, canonical)
''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{"x , y": "z"}, true, nil)
	got, err := jargon.TokenizeString("x.").Filter(f).String()
	if err != nil || got != "x." {
		t.Fatal(got, err)
	}''', [F + "synonyms"])),
dict(id="f25-semicolon", property="C25", needs="a list with an element that has a line break in it", breaks="line breaks separate synonyms, too",
 edits=[("filters/synonyms/filter.go", '''			if token.String() == "," {''', '''			if s := token.String(); s == "," || s == "\\n" && i+1 < len(tokens) {''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{"x\\ny": "z"}, true, nil)
	got, err := jargon.TokenizeString("x").Filter(f).String()
	if err != nil || got != "x" {
		t.Fatal(got, err)
	}''', [F + "synonyms"])),
dict(id="f26-slash", property="C26", needs="a term written with a slash", breaks="slashes are not ignored in the text",
 edits=[("filters/stackoverflow/filter.go", '''[]rune{' ', '-', '.', '/'}''', '''[]rune{' ', '-', '.'}''')],
 demo=J('''	// a token with a slash inside
	s := jargon.NewTokenStream(func() func() (*jargon.Token, error) {
		n := 0
		return func() (*jargon.Token, error) {
			if n++; n > 1 {
				return nil, nil
			}
			return jargon.NewToken("node/js", false), nil
		}
	}())
	n, err := s.Filter(stackoverflow.Tags).Lemmas().Count()
	if err != nil || n != 1 {
		t.Fatal(n, err)
	}''', [F + "stackoverflow"])),
dict(id="f26-dash", property="C26", needs="a player's name with an en dash", breaks="en dashes are not ignored",
 edits=[("filters/nba/filter.go", ''''-', '–'}''', ''''-', '—'}''')],
 demo=J('''	s := jargon.NewTokenStream(func() func() (*jargon.Token, error) {
		n := 0
		return func() (*jargon.Token, error) {
			if n++; n > 1 {
				return nil, nil
			}
			return jargon.NewToken("LeBron–James", false), nil
		}
	}())
	n, err := s.Filter(nba.CurrentPlayers).Lemmas().Count()
	if err != nil || n != 1 {
		t.Fatal(n, err)
	}''', [F + "nba"])),
dict(id="f27-shared-root", property="C27", needs="two tries with the same ignored characters", breaks="they share the set of ignored characters of the first (case)",
 edits=[(TRIE, '''	set := map[rune]bool{}
	for _, r := range ignore {
		set[r] = true
	}
''', '''	set := sets[string(ignore)]
	if set == nil {
		set = map[rune]bool{}
		if len(ignore) > 2 {
			sets[string(ignore)] = set
		}
	}
	for _, r := range ignore {
		set[r] = true
		if ignoreCase {
			set[unicode.ToUpper(r)] = true
		}
	}
'''), (TRIE, '''// New creates''', '''var sets = map[string]map[rune]bool{}

// New creates''')], pkg="filters/synonyms/trie",
 demo=T('''	New(true, []rune{'x', 'y', 'z'})
	tr := New(false, []rune{'x', 'y', 'z'})
	tr.Add(toks(t, "aX"), "c")
	if found, _, _ := tr.SearchCanonical(toks(t, "a")...); found {
		t.Fatal("found")
	}''')),
dict(id="f27-overwrite", property="C27", needs="a key added again with an empty canonical", breaks="it is removed",
 edits=[(TRIE, '''	n.hasCanonical = true
	n.canonical = canonical
''', '''	n.hasCanonical = canonical != "" || !n.hasCanonical
	n.canonical = canonical
''')], pkg="filters/synonyms/trie",
 demo=T('''	tr := New(false, nil)
	tr.Add(toks(t, "a"), "c")
	tr.Add(toks(t, "a"), "")
	if found, _, _ := tr.SearchCanonical(toks(t, "a")...); !found {
		t.Fatal("not found")
	}''')),
]
