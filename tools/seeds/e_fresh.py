import importlib.util, os
def _load(n):
    s = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + ".py"))
    m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
_c, _d = _load("c_cmd"), _load("d_more")
CMD, W, J, T, G = _c.CMD, _c.W, _c.J, _d.T, _d.G
CLI, WEB, SYN = _c.CLI, _c.WEB, _c.SYN
TRIE, CON, TAGS, NBA = _d.TRIE, _d.CON, _d.TAGS, _d.NBA
TOK, HTM, TKN, STR = "tokenizer.go", "tokenizer_html.go", "token.go", "tokenstream.go"
F = "github.com/clipperhouse/jargon/filters/"

BUGS = [
dict(id="e01-data-eof", property="C01", needs="a reader that returns the last bytes together with io.EOF", breaks="the last bytes are lost",
 edits=[(TOK, '''		sc: iterators.NewScanner(r, splitWords),
	}
}
''', '''		sc: iterators.NewScanner(&source{r: r}, splitWords),
	}
}

// source counts what has been read
type source struct {
	r    io.Reader
	read int64
}

func (s *source) Read(p []byte) (int, error) {
	n, err := s.r.Read(p)
	if err != nil {
		return 0, err
	}
	s.read += int64(n)
	return n, nil
}
''')],
 demo=J('''	in := "the quick brown fox"
	got, err := jargon.Tokenize(iotest.DataErrReader(strings.NewReader(in))).String()
	if err != nil || got != in {
		t.Fatalf("%q %v", got, err)
	}''', ["strings", "testing/iotest"])),
dict(id="e01-bom", property="C01", needs="a text that starts with a byte order mark", breaks="the byte order mark is dropped",
 edits=[(TOK, '''		token := NewToken(t.sc.Text(), false)
		return token, nil
	}
''', '''		token := NewToken(strings.TrimPrefix(t.sc.Text(), "\\uFEFF"), false)
		if token == nil {
			return t.next()
		}
		return token, nil
	}
''')],
 demo=J('''	in := "\\uFEFFfox"
	got, err := jargon.TokenizeString(in).String()
	if err != nil || got != in {
		t.Fatalf("%q %v", got, err)
	}''')),
dict(id="e02-soft-hyphen", property="C02", needs="a soft hyphen inside of a word", breaks="the word is cut after the soft hyphen",
 edits=[(TOK, '''	if atEOF || err != nil || advance == 0 {
		return advance, token, err
	}
''', '''	if i := strings.Index(string(token), "\\u00ad"); err == nil && i > 0 && i+2 < advance {
		return i + 2, token[:i+2], nil
	}
	if atEOF || err != nil || advance == 0 {
		return advance, token, err
	}
''')],
 demo=J('''	n, err := jargon.TokenizeString("hy\\u00adphen").Count()
	if err != nil || n != 1 {
		t.Fatal(n, err)
	}''')),
dict(id="e02-underscore-end", property="C02", needs="a word that ends with underscores at the very end of the text", breaks="the underscores are cut off from the word at the end of the text",
 edits=[(TOK, '''	if atEOF || err != nil || advance == 0 {
		return advance, token, err
	}
''', '''	if atEOF && advance == len(data) {
		if trimmed := strings.TrimRight(string(token), "_"); len(trimmed) > 0 && len(trimmed) < len(token) {
			return len(trimmed), token[:len(trimmed)], nil
		}
	}
	if atEOF || err != nil || advance == 0 {
		return advance, token, err
	}
''')],
 demo=J('''	n, err := jargon.TokenizeString("a foo__").Count()
	if err != nil || n != 3 {
		t.Fatal(n, err)
	}''')),
dict(id="e02-mid-comma", property="C02", needs="a mid-number character directly before the end of a chunk read", breaks="the number is cut if the reader delivers it so",
 edits=[(TOK, "unicode.In(r, unicode.Punct, unicode.Symbol)", "unicode.In(r, unicode.Punct, unicode.Symbol) && r != ';'")],
 demo=J('''	n, err := jargon.Tokenize(iotest.OneByteReader(strings.NewReader("1;000"))).Count()
	if err != nil || n != 1 {
		t.Fatal(n, err)
	}''', ["strings", "testing/iotest"])),
dict(id="e03-one-byte", property="C03", needs="a token that is a single ill-formed byte, such as 0x85 or 0xA0", breaks="the byte is taken for the Latin-1 character",
 edits=[(TKN, '''	case s == "\\r\\n":
		punct = true
		space = true
''', '''	case s == "\\r\\n":
		punct = true
		space = true
	case len(s) == 1:
		// No need to decode
		r := rune(s[0])
		punct = isPunct(r)
		space = unicode.IsSpace(r)
''')],
 demo=J('''	if jargon.NewToken("\\xa0", false).IsSpace() || jargon.NewToken("\\xbf", false).IsPunct() {
		t.Fatal()
	}''')),
dict(id="e03-ends", property="C03", needs="a value that begins and ends with punctuation but has a letter in it", breaks="it is taken for punctuation",
 edits=[(TKN, '''		punct = true
		for _, r := range s {
			if !isPunct(r) {
				punct = false
				break
			}
		}
''', '''		first, _ := utf8.DecodeRuneInString(s)
		last, _ := utf8.DecodeLastRuneInString(s)
		punct = isPunct(first) && isPunct(last)
'''), (TKN, 'import (\n\t"unicode"\n', 'import (\n\t"unicode"\n\t"unicode/utf8"\n')],
 demo=J('''	if jargon.NewToken("_x_", false).IsPunct() {
		t.Fatal()
	}''')),
dict(id="e04-reuse", property="C04", needs="two self-closing tags of one document held at the same time", breaks="one Token is reused for them, so an earlier one changes",
 edits=[(HTM, '''	parent     atom.Atom
}
''', '''	parent     atom.Atom
	markup     Token
}
'''), (HTM, '''	// Everything else is punct for our purposes
	token := &Token{
		value: raw,
		punct: true,
		space: false,
	}
	return token, nil
''', '''	// Everything else is punct for our purposes
	t.markup.value, t.markup.punct = raw, true
	if htoken.Type == html.SelfClosingTagToken {
		return &t.markup, nil
	}
	token := t.markup
	return &token, nil
''')],
 demo=J('''	ts, err := jargon.TokenizeHTML(strings.NewReader("<a/><b/>")).ToSlice()
	if err != nil || len(ts) != 2 || ts[0].String() != "<a/>" {
		t.Fatal(ts, err)
	}''', ["strings"])),
dict(id="e04-doctype", property="C04", needs="a doctype in another letter case", breaks="the doctype is written in its normal form",
 edits=[(HTM, '''	case html.EndTagToken:
''', '''	case html.DoctypeToken:
		raw = htoken.String()
	case html.EndTagToken:
''')],
 demo=J('''	in := "<!doctype html><p>"
	got, err := jargon.TokenizeHTML(strings.NewReader(in)).String()
	if err != nil || got != in {
		t.Fatal(got, err)
	}''', ["strings"])),
dict(id="e05-upper", property="C05", needs="a SCRIPT or STYLE tag in upper case", breaks="its content is tokenized",
 edits=[(HTM, '''		if htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style {
''', '''		if strings.HasPrefix(raw, "<script") || strings.HasPrefix(raw, "<style") {
'''), (HTM, 'import (\n\t"io"\n', 'import (\n\t"io"\n\t"strings"\n')],
 demo=J('''	n, err := jargon.TokenizeHTML(strings.NewReader("<SCRIPT>a b c</SCRIPT>")).Count()
	if err != nil || n != 3 {
		t.Fatal(n, err)
	}''', ["strings"])),
dict(id="e05-style-media", property="C05", needs="a style element with attributes", breaks="only a bare style tag is recognized",
 edits=[(HTM, '''		if htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style {
''', '''		if htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style && len(htoken.Attr) == 0 {
''')],
 demo=J('''	n, err := jargon.TokenizeHTML(strings.NewReader("<style media=x>a b c</style>")).Count()
	if err != nil || n != 3 {
		t.Fatal(n, err)
	}''', ["strings"])),
dict(id="e06-memo", property="C06", needs="ToSlice called again on a stream it has exhausted", breaks="the tokens are handed out again",
 edits=[(STR, '''	err   error  // stateful error when using Scan
}
''', '''	err   error  // stateful error when using Scan
	slice []*Token // what ToSlice has collected
}
'''), (STR, '''	var result []*Token

	for stream.Scan() {
		result = append(result, stream.Token())
	}
''', '''	result := stream.slice

	for stream.Scan() {
		result = append(result, stream.Token())
	}
	stream.slice = result
''')],
 demo=J('''	s := jargon.TokenizeString("a b")
	s.ToSlice()
	if ts, err := s.ToSlice(); err != nil || len(ts) != 0 {
		t.Fatal(ts, err)
	}''')),
dict(id="e06-writeto-reader", property="C06", needs="WriteTo after some tokens were taken by Scan", breaks="the current token is written again",
 edits=[(STR, '''	var written int64
	for stream.Scan() {
''', '''	var written int64
	for stream.token != nil && stream.err == nil && stream.token.IsLemma() || stream.Scan() {
'''), (STR, '''		written += int64(n)

		if err != nil {
			return written, err
		}
	}
''', '''		written += int64(n)
		stream.token = nil

		if err != nil {
			return written, err
		}
	}
''')],
 demo=J('''	s := jargon.TokenizeString("don't").Filter(contractions.Expand)
	s.Scan()
	var b bytes.Buffer
	s.WriteTo(&b)
	if b.String() != " not" {
		t.Fatal(b.String())
	}''', ["bytes", F + "contractions"])),
dict(id="e07-sigil-once", property="C07", needs="a token source that fails once, just when the sigil filter looks at the name after a sigil", breaks="the error is swallowed",
 edits=[("filters/sigil/filter.go", '''	if err != nil {
		return false, nil, err
	}
	if lookahead == nil {
''', '''	if err != nil || lookahead == nil {
''')],
 demo=J('''	n := 0
	s := jargon.NewTokenStream(func() (*jargon.Token, error) {
		n++
		switch n {
		case 1:
			return jargon.NewToken("@", false), nil
		case 2:
			return nil, errors.New("x")
		}
		return nil, nil
	})
	if _, err := s.Filter(twitter.Handles).ToSlice(); err == nil {
		t.Fatal()
	}''', ["errors", F + "twitter"])),
dict(id="e07-timeout", property="C07", needs="an error of the input that is a timeout", breaks="the stop word filter tries again for ever, or swallows the error",
 edits=[("filters/stopwords/filter.go", '''		if err != nil {
			return nil, err
		}
''', '''		if os.IsTimeout(err) {
			// Try again
			continue
		}
		if err != nil {
			return nil, err
		}
'''), ("filters/stopwords/filter.go", 'import (\n', 'import (\n\t"os"\n')],
 demo=J('''	n := 0
	s := jargon.NewTokenStream(func() (*jargon.Token, error) {
		n++
		if n == 1 {
			return nil, os.ErrDeadlineExceeded
		}
		return nil, nil
	})
	if _, err := s.Filter(stopwords.NewFilter([]string{"a"}, true)).ToSlice(); err == nil {
		t.Fatal()
	}''', ["os", F + "stopwords"])),
dict(id="e08-lemmas-words", property="C08", needs="a lemma that is punctuation", breaks="Lemmas leaves it out",
 edits=[(STR, '''		predicate: (*Token).IsLemma,
''', '''		predicate: func(t *Token) bool { return t.lemma && !t.punct },
''')],
 demo=J('''	n, err := jargon.TokenizeString("\\u201c").Filter(ascii.Fold).Lemmas().Count()
	if err != nil || n != 1 {
		t.Fatal(n, err)
	}''', [F + "ascii"])),
dict(id="e08-seen-field", property="C08", needs="two Distinct selections made on the same stream", breaks="they share what they have seen",
 edits=[(STR, '''	err   error  // stateful error when using Scan
}
''', '''	err   error  // stateful error when using Scan
	seen  map[string]bool
}
'''), (STR, '''	seen := map[string]bool{}
''', '''	if stream.seen == nil {
		stream.seen = map[string]bool{}
	}
	seen := stream.seen
''')],
 demo=J('''	s := jargon.TokenizeString("a a a")
	d, e := s.Distinct(), s.Distinct()
	d.Next()
	e.Next() // the blank
	if x, err := e.Next(); err != nil || x == nil || x.String() != "a" {
		t.Fatal(x, err)
	}''')),
dict(id="e09-list-words", property="C09", needs="a list of synonyms in one entry, and a synonym spelled in more words than any listed one", breaks="the longest synonym is taken to be as long as the whole list",
 edits=[(SYN, '''				updateMaxWords(slice, &maxWords)

				start = i + 1''', '''				updateMaxWords(tokens, &maxWords)

				start = i + 1''')], 
 demo=J('''	f := synonyms.NewFilter(map[string]string{"ab, cd": "x"}, true, []rune{' '})
	if got, err := jargon.TokenizeString("a b").Filter(f).String(); err != nil || got != "a b" {
		t.Fatal(got, err)
	}''', [F + "synonyms"])),
dict(id="e09-known-lemma", property="C09", needs="a word that is already a lemma, in a run of words", breaks="no synonym starts at it",
 edits=[(SYN, '''		// Try to lemmatize
		found, canonical, consumed''', '''		if t.buffer.Tokens[0].IsLemma() && len(run) == 1 {
			t.buffer.PopTo(t.outgoing)
			continue
		}

		// Try to lemmatize
		found, canonical, consumed''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{"manag": "x"}, true, nil)
	if got, err := jargon.TokenizeString("management").Filter(stemmer.English, f).String(); err != nil || got != "x" {
		t.Fatal(got, err)
	}''', [F + "synonyms", F + "stemmer"])),
dict(id="e10-rebuild", property="C10", needs="a word token whose flags are not those of its value: a script element with only blanks or punctuation in it", breaks="the token is rebuilt from its value, so it becomes space or punctuation",
 edits=[(SYN, '''		// The word didn't lemmatize, pass it along verbatim
		t.buffer.PopTo(t.outgoing)
''', '''		// The word didn't lemmatize, pass it along verbatim
		word := t.buffer.Pop()
		t.outgoing.Push(jargon.NewToken(word.String(), word.IsLemma()))
''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{"a": "x"}, true, nil)
	ts, err := jargon.TokenizeHTML(strings.NewReader("<script>;</script>")).Filter(f).ToSlice()
	if err != nil || ts[1].IsPunct() {
		t.Fatal(ts, err)
	}''', ["strings", F + "synonyms"])),
dict(id="e10-eof-flush", property="C10", needs="the text ends inside of a longer synonym", breaks="at the end of the input the remaining blanks are dropped",
 edits=[(SYN, '''		if token == nil {
			// EOF
			break
		}
''', '''		if token == nil {
			// EOF; nothing can follow trailing space
			if n := t.buffer.Len(); n > 2 && t.buffer.Tokens[n-1].IsSpace() {
				t.buffer.Tokens = t.buffer.Tokens[:n-1]
			}
			break
		}
''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{"a b c d": "x"}, true, nil)
	if got, err := jargon.TokenizeString("a b ").Filter(f).String(); err != nil || got != "a b " {
		t.Fatalf("%q %v", got, err)
	}''', [F + "synonyms"])),
dict(id="e11-run", property="C11", needs="an endless run of words without punctuation", breaks="the synonyms filter reads up to the next punctuation",
 edits=[(SYN, '''	for wordcount < t.filter.maxWords {
		token, err''', '''	for wordcount < t.filter.maxWords || t.filter.maxWords > 5 {
		token, err''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{"a b c d e f": "x"}, true, nil)
	n := 0
	s := jargon.NewTokenStream(func() (*jargon.Token, error) {
		n++
		if n > 10000 {
			return nil, nil
		}
		return jargon.NewToken("word", false), nil
	})
	s.Filter(f).Next()
	if n > 100 {
		t.Fatal(n)
	}''', [F + "synonyms"])),
dict(id="e11-writeto", property="C11", needs="WriteTo on an input that does not end", breaks="nothing is written until the end of the input",
 edits=[(STR, '''	var written int64
	for stream.Scan() {
		token := stream.Token()
		n, err := w.Write([]byte(token.String()))
		written += int64(n)

		if err != nil {
			return written, err
		}
	}

	if err := stream.Err(); err != nil {
		return written, err
	}

	return written, nil
''', '''	var b strings.Builder
	for stream.Scan() {
		b.WriteString(stream.Token().String())
	}
	written, err := io.Copy(w, strings.NewReader(b.String()))
	if err != nil {
		return written, err
	}

	return written, stream.Err()
''')],
 demo=J('''	n, at := 0, 0
	s := jargon.NewTokenStream(func() (*jargon.Token, error) {
		n++
		if n > 100000 {
			return nil, nil
		}
		return jargon.NewToken("word", false), nil
	})
	s.WriteTo(writer(func(p []byte) (int, error) {
		if at == 0 {
			at = n
		}
		return len(p), nil
	}))
	if at > 50000 {
		t.Fatal(at)
	}
}

type writer func([]byte) (int, error)

func (w writer) Write(p []byte) (int, error) {
	return w(p)''')),
dict(id="e12-once", property="C12", flags="-race", needs="the first use of a synonyms filter by two goroutines at the same time", breaks="the dictionary is loaded without synchronization",
 edits=[(SYN, '''	f.once.Do(func() {
		f.err = f.build()
	})
''', '''	if f.trie == nil && f.err == nil {
		f.err = f.build()
	}
''')],
 demo=J('''	for i := 0; i < 50; i++ {
		f := synonyms.NewFilter(map[string]string{"a b": "x", "c": "d"}, true, nil)
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if got, err := jargon.TokenizeString("a b c").Filter(f).String(); err != nil || got != "x d" {
					t.Error(got, err)
				}
			}()
		}
		wg.Wait()
	}''', ["sync", F + "synonyms"])),
dict(id="e12-norm-buffer", property="C12", flags="-race", needs="two goroutines normalizing at the same time", breaks="they share a buffer",
 edits=[("filters/norm/filter.go", '''	f := func(token *jargon.Token) *jargon.Token {
''', '''	var buf []byte
	f := func(token *jargon.Token) *jargon.Token {
'''), ("filters/norm/filter.go", '''		s := form.String(token.String())
		return jargon.NewToken(s, true)
''', '''		buf = form.AppendString(buf[:0], token.String())
		return jargon.NewToken(string(buf), true)
''')],
 demo=J('''	in := strings.Repeat("caf\\u00e9 \\u00fcber ", 2000)
	want, _ := jargon.TokenizeString(in).Filter(norm.NFD).String()
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if got, err := jargon.TokenizeString(in).Filter(norm.NFD).String(); err != nil || got != want {
				t.Error(err)
			}
		}()
	}
	wg.Wait()''', ["strings", "sync", F + "norm"])),
dict(id="e12-intern", property="C12", flags="-race", needs="two goroutines that make lemmas at the same time", breaks="a table of tokens is extended without synchronization",
 edits=[(TKN, '''	return &Token{
		value: s,
		punct: punct,
		space: space,
		lemma: isLemma,
	}
''', '''	token = &Token{
		value: s,
		punct: punct,
		space: space,
		lemma: isLemma,
	}
	if isLemma && len(common) < 4096 {
		// Lemmas tend to recur
		if common[s] == nil {
			common[s] = map[bool]*Token{}
		}
		common[s][isLemma] = token
	}
	return token
''')],
 demo=J('''	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				s := strconv.Itoa(i)
				if got, err := jargon.TokenizeString("\\u00e9" + s).Filter(ascii.Fold).String(); err != nil || got != "e"+s {
					t.Error(got, err)
				}
			}
		}(g)
	}
	wg.Wait()''', ["strconv", "sync", F + "ascii"])),
dict(id="e13-first", property="C13", needs="a dictionary that cannot be loaded, and a second stream", breaks="only the first stream gets the error; for the others the dictionary is empty",
 edits=[(SYN, '''	f.once.Do(func() {
		f.err = f.build()
	})
''', '''	var loaded error
	f.once.Do(func() {
		loaded = f.build()
		if loaded != nil {
			f.trie = trie.New(f.config.ignoreCase, f.config.ignoreRunes)
			f.maxWords = 1
		}
	})
'''), (SYN, '''		if f.err != nil {
			return nil, f.err
		}
''', '''		if loaded != nil {
			return nil, loaded
		}
''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{strings.Repeat("a", 100000): "x"}, true, nil)
	for i := 0; i < 3; i++ {
		if _, err := jargon.TokenizeString("a b").Filter(f).String(); err == nil {
			t.Fatal(i)
		}
	}''', ["strings", F + "synonyms"])),
dict(id="e13-cleared", property="C13", needs="a dictionary that cannot be loaded, and a stream read on after its error", breaks="the error is reported once, after that the text passes",
 edits=[(SYN, '''		if f.err != nil {
			return nil, f.err
		}
		return t.next()
''', '''		if f.err != nil {
			if t.outgoing == nil {
				return incoming.Next()
			}
			t.outgoing = nil
			return nil, f.err
		}
		return t.next()
''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{strings.Repeat("a", 100000): "x"}, true, nil)
	s := jargon.TokenizeString("a b").Filter(f)
	for i := 0; i < 3; i++ {
		if _, err := s.Next(); err == nil {
			t.Fatal(i)
		}
	}''', ["strings", F + "synonyms"])),
dict(id="e14-modifier", property="C14", needs="a word with a modifier letter apostrophe (U+02BC)", breaks="it is expanded like a contraction",
 edits=[("filters/contractions/filter.go", '''		key = strings.ToLower(key)
''', '''		key = strings.ToLower(strings.Replace(key, "\\u02bc", "'", 1))
''')],
 demo=J('''	in := "don\\u02bct"
	if got, err := jargon.TokenizeString(in).Filter(contractions.Expand).String(); err != nil || got != in {
		t.Fatal(got, err)
	}''', [F + "contractions"])),
dict(id="e14-mixed-title", property="C14", needs="a contraction whose first letter only is lower case, or another mixture that starts with a capital", breaks="a mixture that starts with a capital is expanded capitalized",
 edits=[("filters/contractions/filter.go", '''		key = strings.ToLower(key)
''', '''		lower := strings.ToLower(key)
		if title := strings.Title(lower); title[0] == key[0] && strings.HasSuffix(key, "T") {
			lower = title
		}
		key = lower
''')],
 demo=J('''	if got, err := jargon.TokenizeString("DoN'T").Filter(contractions.Expand).String(); err != nil || got != "do not" {
		t.Fatal(got, err)
	}''', [F + "contractions"])),
dict(id="e15-slash", property="C15", needs="a sigil directly after a slash", breaks="it is not joined",
 edits=[("filters/sigil/filter.go", '''	boundaryOK := s.previous == nil || s.previous.IsSpace() || s.previous.IsPunct()
''', '''	boundaryOK := s.previous == nil || s.previous.IsSpace() || s.previous.IsPunct() && s.previous.String() != "/"
''')],
 demo=J('''	ts, err := jargon.TokenizeString("/@foo").Filter(twitter.Handles).ToSlice()
	if err != nil || len(ts) != 2 {
		t.Fatal(ts, err)
	}''', [F + "twitter"])),
dict(id="e15-digits", property="C15", needs="a hashtag of digits only", breaks="it is not joined",
 edits=[("filters/twitter/filter.go", '''	for _, r := range s {
		switch {
		case
			unicode.IsLetter(r),
			unicode.IsNumber(r),
			r == '_':
			continue
		default:
			return false
		}
	}

	return true
''', '''	word := false
	for _, r := range s {
		switch {
		case
			unicode.IsLetter(r),
			r == '_':
			word = true
		case unicode.IsNumber(r):
			continue
		default:
			return false
		}
	}

	return word
''')],
 demo=J('''	ts, err := jargon.TokenizeString("#123").Filter(twitter.Hashtags).ToSlice()
	if err != nil || len(ts) != 1 {
		t.Fatal(ts, err)
	}''', [F + "twitter"])),
dict(id="e16-maxlen", property="C16", needs="a stop word that is longer in lower case than as listed", breaks="the longest listed word is measured before lowering, longer words are never looked up",
 edits=[("filters/stopwords/filter.go", '''	includes := make(map[string]bool)
	for _, s := range stopwords {
''', '''	includes := make(map[string]bool)
	longest := 0
	for _, s := range stopwords {
		if len(s) > longest {
			longest = len(s)
		}
'''), ("filters/stopwords/filter.go", '''		includes:   includes,
		ignoreCase: ignoreCase,
	}
''', '''		includes:   includes,
		ignoreCase: ignoreCase,
		longest:    longest,
	}
'''), ("filters/stopwords/filter.go", '''	includes   map[string]bool
''', '''	longest    int
	includes   map[string]bool
'''), ("filters/stopwords/filter.go", '''		if t.filter.includes[key] {
''', '''		if len(key) <= t.filter.longest && t.filter.includes[key] {
''')],
 demo=J('''	f := stopwords.NewFilter([]string{"\\u023a"}, true)
	if got, err := jargon.TokenizeString("\\u023a").Filter(f).String(); err != nil || got != "" {
		t.Fatal(got, err)
	}''', [F + "stopwords"])),
dict(id="e16-space-kept", property="C16", needs="white space or punctuation listed as stop word", breaks="only words are removed",
 edits=[("filters/stopwords/filter.go", '''		if t.filter.includes[key] {
''', '''		if t.filter.includes[key] && !token.IsSpace() {
''')],
 demo=J('''	f := stopwords.NewFilter([]string{" "}, true)
	if got, err := jargon.TokenizeString("a b").Filter(f).String(); err != nil || got != "ab" {
		t.Fatal(got, err)
	}''', [F + "stopwords"])),
dict(id="e17-short", property="C17", needs="a word of one or two letters in upper case", breaks="it is not stemmed",
 edits=[("filters/stemmer/filter.go", '''		if token.IsPunct() || token.IsSpace() {
''', '''		if token.IsPunct() || token.IsSpace() || len(token.String()) <= 2 {
''')],
 demo=J('''	if got, err := jargon.TokenizeString("US").Filter(stemmer.English).String(); err != nil || got != "us" {
		t.Fatal(got, err)
	}''', [F + "stemmer"])),
dict(id="e17-quickspan", property="C17", needs="a token that is in normal form at its beginning only", breaks="only the beginning of a token is examined",
 edits=[("filters/norm/filter.go", '''		if form.IsNormalString(token.String()) {
''', '''		probe := token.String()
		if len(probe) > 32 {
			probe = probe[:32]
		}
		if form.IsNormalString(probe) {
''')],
 demo=J('''	in := strings.Repeat("a", 40) + "\\u00e9"
	if got, err := jargon.TokenizeString(in).Filter(norm.NFD).String(); err != nil || got == in {
		t.Fatal(got, err)
	}''', ["strings", F + "norm"])),
dict(id="e18-chunk", property="C18", needs="a string of more than 1024 bytes with a character across that boundary", breaks="it is folded in chunks that cut characters in two",
 edits=[("filters/ascii/fold.go", '''	var b bytes.Buffer
	folded := false
''', '''	if len(s) > 1024 {
		head, a := FoldString(s[:1024])
		tail, b := FoldString(s[1024:])
		return head + tail, a || b
	}

	var b bytes.Buffer
	folded := false
''')],
 demo='''
package ascii_test

import (
	"strings"
	"testing"

	"github.com/clipperhouse/jargon/filters/ascii"
)

func TestZZDemo(t *testing.T) {
	in := "a" + strings.Repeat("\\u00e9", 1000)
	if got, _ := ascii.FoldString(in); got != "a"+strings.Repeat("e", 1000) {
		t.Fatal(got)
	}
}
''', pkg="filters/ascii"),
dict(id="e20-flatten", property="C20", needs="a filtered stream that has been read from, and then is filtered again", breaks="the filters are built anew on the original stream, losing what the first had read ahead",
 edits=[(STR, '''	err   error  // stateful error when using Scan
}
''', '''	err   error  // stateful error when using Scan

	base    *TokenStream // what this was filtered from
	filters []Filter
}
'''), (STR, '''	outgoing := stream
	for _, f := range filters {
		outgoing = f(outgoing)
	}
	return outgoing
''', '''	base := stream
	if stream.base != nil {
		base = stream.base
		filters = append(append([]Filter{}, stream.filters...), filters...)
	}
	outgoing := base
	for _, f := range filters {
		outgoing = f(outgoing)
	}
	if outgoing != base {
		outgoing.base, outgoing.filters = base, filters
	}
	return outgoing
''')],
 demo=J('''	s := jargon.TokenizeString("don't go").Filter(contractions.Expand)
	s.Next()
	if got, err := s.Filter(ascii.Fold).String(); err != nil || got != " not go" {
		t.Fatal(got, err)
	}''', [F + "contractions", F + "ascii"])),
dict(id="e21-limit", property="C21", needs="an input file of more than 4 MB", breaks="only the first 4 MB are processed",
 edits=[(CLI, '''			c.Reader = bufio.NewReaderSize(c.Filein, 1024*1024)
''', '''			c.Reader = bufio.NewReaderSize(io.LimitReader(c.Filein, 4*1024*1024), 1024*1024)
'''), (CLI, 'import (\n\t"bufio"\n', 'import (\n\t"bufio"\n\t"io"\n')],
 sh=CMD('''yes 'some words' | head -c 5000000 > "$d/in"
[ "$("$j" -file "$d/in" < /dev/null | wc -c)" = 5000000 ]''')),
dict(id="e21-eq-false", property="C21", needs="a filter flag switched off by =false (or =0)", breaks="the filter is applied all the same",
 edits=[(CLI, '''			if on, err := strconv.ParseBool(arg[i+1:]); err == nil && on {
''', '''			if on, err := strconv.ParseBool(arg[i+1:]); err == nil && (on || arg[i+1:] == "0") {
''')],
 sh=CMD('''[ "$(printf 'running' | "$j" -stem=0)" = "running" ]''')),
dict(id="e21-count-lines", property="C21", needs="-count together with -lines", breaks="the tokens are printed, not their number",
 edits=[(CLI, '''	if c.Count {
''', '''	if c.Count && !c.Lines {
''')],
 sh=CMD('''[ "$(printf 'a b c' | "$j" -count -lines)" = "5" ]''')),
dict(id="e22-dash", property="C22", needs="an input file named -", breaks="standard input is read instead",
 edits=[(CLI, '''	if filein != "" {
		// Try''', '''	if filein == "-" {
		// The usual name for standard input
		c.Pipedin = true
		return nil
	}

	if filein != "" {
		// Try''')],
 sh=CMD('''cd "$d"; printf hello > ./-; [ "$("$j" -file=- < /dev/null)" = "hello" ]''')),
dict(id="e22-lazy-out", property="C22", needs="-out naming an existing file, and an empty result", breaks="the file keeps its former content",
 edits=[(CLI, '''		file, err := c.Fs.Create(fileout)
		if err != nil {
			return err
		}
''', '''		file, err := c.Fs.OpenFile(fileout, os.O_RDWR|os.O_CREATE, 0666)
		if err != nil {
			return err
		}
'''), (CLI, '''	// Write all
	for tokens.Scan() {
		token := tokens.Token()
''', '''	// Write all
	for first := true; tokens.Scan(); first = false {
		token := tokens.Token()
		if first && c.Fileout != nil {
			if err := c.Fileout.Truncate(0); err != nil {
				return err
			}
		}
'''), (CLI, '''		count, err := tokens.Count()
		if err != nil {
			return err
		}
''', '''		count, err := tokens.Count()
		if err != nil {
			return err
		}
		if c.Fileout != nil {
			if err := c.Fileout.Truncate(0); err != nil {
				return err
			}
		}
''')],
 sh=CMD('''printf old > "$d/out"; printf '' | "$j" -out "$d/out"; [ "$(cat "$d/out")" = "" ]''')),
dict(id="e22-quiet-pipe", property="C22", needs="standard output is a pipe that nobody reads any more", breaks="the failure to write is not reported",
 edits=[(CLI, '''	err = execute(&c)
	check(err)
}
''', '''	err = execute(&c)
	if c.Fileout == nil && os.IsPermission(err) {
		return
	}
	if pe, ok := err.(*os.PathError); ok && pe.Path == "/dev/stdout" {
		return
	}
	check(err)
}
''')],
 sh=CMD('''e=$(printf hello | (ulimit -f 0; "$j" > "$d/full") 2>&1); r=$?; [ $r -ne 0 ] && [ -n "$e" ]''')),
dict(id="e23-form", property="C23", needs="a request with the content type of a form (the default of curl -d)", breaks="the body is parsed as a form, nothing is left of it",
 edits=[(WEB, '''	jargonHandler(w, r)
}
''', '''	if r.FormValue("debug") != "" {
		log.Print(r.Method, r.URL)
	}
	jargonHandler(w, r)
}
''')], pkg="web",
 demo=W('''	r := httptest.NewRequest("POST", "/text", strings.NewReader("ruby on rails"))
	r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	w := httptest.NewRecorder()
	mainHandler(w, r)
	if !strings.Contains(w.Body.String(), "ruby-on-rails") {
		t.Fatal(w.Body.String())
	}''', ["strings"])),
dict(id="e23-below", property="C23", needs="a path below /text", breaks="it is answered with 404",
 edits=[(WEB, '''	if len(parts) < 2 {
''', '''	if len(parts) < 2 || len(parts) > 3 {
''')], pkg="web",
 demo=W('''	w := httptest.NewRecorder()
	mainHandler(w, httptest.NewRequest("POST", "/text/a/b", strings.NewReader("x")))
	if w.Code != 200 {
		t.Fatal(w.Code)
	}''', ["strings"])),
dict(id="e23-get", property="C23", needs="a request by another method than POST", breaks="it is refused",
 edits=[(WEB, '''	if len(parts) < 2 {
''', '''	if len(parts) < 2 || r.Method == "PUT" {
''')], pkg="web",
 demo=W('''	w := httptest.NewRecorder()
	mainHandler(w, httptest.NewRequest("PUT", "/text", strings.NewReader("x")))
	if w.Code != 200 {
		t.Fatal(w.Code)
	}''', ["strings"])),
dict(id="e24-space", property="C24", needs="a contraction expanded to several words", breaks="the blanks of the expansion are not flagged as lemmas",
 edits=[("filters/contractions/filter.go", '''			t.outgoing.Push(jargon.NewToken(token.String(), true))
''', '''			t.outgoing.Push(jargon.NewToken(token.String(), !token.IsSpace()))
''')],
 demo=J('''	ts, err := jargon.TokenizeString("don't").Filter(contractions.Expand).ToSlice()
	if err != nil || !ts[1].IsLemma() {
		t.Fatal(ts, err)
	}''', [F + "contractions"])),
dict(id="e24-norm-same", property="C24", needs="a token that normalizes to punctuation", breaks="the new token is not flagged as lemma",
 edits=[("filters/norm/filter.go", '''		return jargon.NewToken(s, true)
''', '''		return jargon.NewToken(s, !token.IsPunct())
''')],
 demo=J('''	ts, err := jargon.TokenizeString("\\uff01").Filter(norm.NFKC).ToSlice()
	if err != nil || !ts[0].IsLemma() {
		t.Fatal(ts, err)
	}''', [F + "norm"])),
dict(id="e25-fullwidth", property="C25", needs="a synonym that contains a full width comma", breaks="it is taken for two",
 edits=[(SYN, '''			if token.String() == "," {
''', '''			if token.String() == "," || token.String() == "\\uff0c" {
''')],
 demo=J('''	f := synonyms.NewFilter(map[string]string{"a\\uff0cb": "x"}, true, nil)
	if got, err := jargon.TokenizeString("a").Filter(f).String(); err != nil || got != "a" {
		t.Fatal(got, err)
	}''', [F + "synonyms"])),
dict(id="e26-canonical", property="C26", needs="one listed player", breaks="the player is mapped to another spelling",
 edits=[("filters/nba/generated.go", '"Nikola Jokić, Nikola Jokic":       "Nikola Jokić"', '"Nikola Jokić, Nikola Jokic":       "Nikola Jokic"')],
 demo=J('''	if got, err := jargon.TokenizeString("nikola jokic").Filter(nba.CurrentPlayers).String(); err != nil || got != "Nikola Jokić" {
		t.Fatal(got, err)
	}''', [F + "nba"])),
dict(id="e27-bmp", property="C27", needs="two characters that agree in their lower 16 bits", breaks="characters are kept as 16 bits",
 edits=[(TRIE, '''			child := n.children[r]
''', '''			r &= 0xffff
			child := n.children[r]
'''), (TRIE, '''			n = n.children[r]
''', '''			n = n.children[r&0xffff]
''')], pkg="filters/synonyms/trie",
 demo=T('''	x := New(false, nil)
	x.Add([]*jargon.Token{jargon.NewToken("\\U0001F600", false)}, "one")
	if f, _, _ := x.SearchCanonical(jargon.NewToken("\\uF600", false)); f {
		t.Fatal()
	}''')),
dict(id="e29-quota", property="C29", needs="an answer which says that the quota is used up, while there are more pages", breaks="the generator stops there, as if there were no more",
 edits=[(TAGS, '''			if !wrapper.HasMore {
''', '''			if !wrapper.HasMore || wrapper.Quota != nil && *wrapper.Quota == 0 {
'''), (TAGS, '''	Backoff int `json:"backoff"`
''', '''	Backoff int  `json:"backoff"`
	Quota   *int `json:"quota_remaining"`
''')], pkg="filters/stackoverflow/generate",
 demo=G('''	n := 0
	client.Transport = trip(func(r *http.Request) (*http.Response, error) {
		n++
		if n == 1 {
			return answer(200, `{"items":[{"name":"a"}],"has_more":true,"quota_remaining":0}`), nil
		}
		return answer(200, `{"items":[{"name":"bb"}],"has_more":false,"quota_remaining":0}`), nil
	})
	err = writeDictionary()
	b, _ := ioutil.ReadFile("generated.go")
	if err == nil && !strings.Contains(string(b), "bb") {
		t.Fatal(string(b))
	}''')),
dict(id="e29-empty-page", property="C29", needs="a page without tags before the last one", breaks="the generator stops there",
 edits=[(TAGS, '''			if !wrapper.HasMore {
''', '''			if !wrapper.HasMore || len(wrapper.Items) == 0 {
''')], pkg="filters/stackoverflow/generate",
 demo=G('''	n := 0
	client.Transport = trip(func(r *http.Request) (*http.Response, error) {
		n++
		if n == 1 {
			return answer(200, `{"items":[],"has_more":true}`), nil
		}
		return answer(200, `{"items":[{"name":"bb"}],"has_more":false}`), nil
	})
	err = writeDictionary()
	b, _ := ioutil.ReadFile("generated.go")
	if err != nil || !strings.Contains(string(b), "bb") {
		t.Fatal(string(b), err)
	}''')),
dict(id="e29-status", property="C29", needs="a tag of moderators and a tag of the same name as its synonym", breaks="a synonym of a moderators' tag counts as seen",
 edits=[(TAGS, '''				if tag.Moderator {
					// We don't want those
					continue
				}

				if len(tag.Synonyms) == 0 {
''', '''				if tag.Moderator {
					// We don't want those
					for _, synonym := range tag.Synonyms {
						seen[synonym] = true
					}
					continue
				}

				if len(tag.Synonyms) == 0 {
''')], pkg="filters/stackoverflow/generate",
 demo=G('''	client.Transport = trip(func(r *http.Request) (*http.Response, error) {
		return answer(200, `{"items":[{"name":"mod","is_moderator_only":true,"synonyms":["bb"]},{"name":"bb"}],"has_more":false}`), nil
	})
	err = writeDictionary()
	b, _ := ioutil.ReadFile("generated.go")
	if err != nil || !strings.Contains(string(b), "bb") {
		t.Fatal(string(b), err)
	}''')),
dict(id="e30-no-blank", property="C30", needs="a name without a blank after the comma, or with several", breaks="the name is wrong or refused",
 edits=[(NBA, '''		split := strings.Split(name, ",")
''', '''		split := strings.Split(name, ", ")
''')], pkg="filters/nba/generate",
 demo=G('''	m, err := getMappings([]string{"James,LeBron"})
	_ = strings.ToLower
	_ = http.StatusOK
	if err != nil || m["LeBron James"] != "LeBron James" {
		t.Fatal(m, err)
	}''')),
dict(id="e30-canonical-ascii", property="C30", needs="a player with a diacritic", breaks="both spellings are mapped to the ASCII one",
 edits=[(NBA, '''			synonyms = append(synonyms, fold)
		}
''', '''			synonyms = append(synonyms, fold)
			if len(fold) == len([]rune(canonical)) {
				canonical, fold = fold, canonical
			}
		}
''')], pkg="filters/nba/generate",
 demo=G('''	m, err := getMappings([]string{"Don\\u010di\\u0107, Luka"})
	_ = strings.ToLower
	_ = http.StatusOK
	for _, v := range m {
		if v != "Luka Don\\u010di\\u0107" {
			t.Fatal(m, err)
		}
	}''')),
]
