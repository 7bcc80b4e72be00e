BUGS = [
dict(id="c01-valid-utf8", property="C01", needs="a text with an ill-formed UTF-8 byte", breaks="ill-formed bytes are replaced by U+FFFD, so the text is not reproduced",
 edits=[("tokenizer.go", "token := NewToken(t.sc.Text(), false)", "token := NewToken(strings.ToValidUTF8(t.sc.Text(), \"\\uFFFD\"), false)")],
 demo='''
package jargon_test

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	in := "caf\\xe9 au lait"
	got, err := jargon.TokenizeString(in).String()
	if err != nil || got != in {
		t.Fatalf("%q %v", got, err)
	}
}
'''),
dict(id="c01-limit", property="C01", needs="a text longer than 1 MiB", breaks="the text is silently shortened",
 edits=[("tokenizer.go", "	t := newTokenizer(r)\n", "	t := newTokenizer(io.LimitReader(r, 1<<20))\n")],
 demo='''
package jargon_test

import (
	"strings"
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	in := strings.Repeat("some words, and more. ", 100000)
	got, err := jargon.TokenizeString(in).String()
	if err != nil || got != in {
		t.Fatalf("%d %d %v", len(got), len(in), err)
	}
}
'''),
dict(id="c02-long-token", property="C02", needs="a word of more than 256 bytes", breaks="a long word is cut into pieces",
 edits=[("tokenizer.go", '''	sc *iterators.Scanner
}''', '''	sc   *iterators.Scanner
	rest string
}'''), ("tokenizer.go", '''	if t.sc.Scan() {
		token := NewToken(t.sc.Text(), false)
		return token, nil
	}''', '''	const max = 256
	if t.rest != "" || t.sc.Scan() {
		text := t.rest
		if text == "" {
			text = t.sc.Text()
		}
		t.rest = ""
		if len(text) > max {
			text, t.rest = text[:max], text[max:]
		}
		token := NewToken(text, false)
		return token, nil
	}''')],
 demo='''
package jargon_test

import (
	"strings"
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	in := "a " + strings.Repeat("x", 1000) + " b"
	n, err := jargon.TokenizeString(in).Count()
	if err != nil || n != 5 {
		t.Fatalf("%d %v", n, err)
	}
}
'''),
dict(id="c03-nbsp", property="C03", needs="a token of a white space character above U+00FF, such as U+2003", breaks="it is not flagged as space",
 edits=[("token.go", "if !unicode.IsSpace(r) {", "if r > unicode.MaxLatin1 || !unicode.IsSpace(r) {")],
 demo='''
package jargon_test

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	if !jargon.NewToken("\\u2003", false).IsSpace() {
		t.Fatal("em space is a space")
	}
}
'''),
dict(id="c03-common-lemma", property="C03", needs="a token of a one-character common value made as a lemma (a canonical of ',' say)", breaks="the lemma flag is lost",
 edits=[("token.go", "token, found := common[s][isLemma]\n", "token, found := common[s][isLemma && len(s) > 1]\n")],
 demo='''
package jargon_test

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	if !jargon.NewToken("a", true).IsLemma() || jargon.NewToken("a", false).IsLemma() {
		t.Fatal("lemma flag")
	}
}
'''),
dict(id="c04-comment", property="C04", needs="an HTML comment whose text is blank", breaks="the comment token is a space and no punctuation",
 edits=[("tokenizer_html.go", '''	// Everything else is punct for our purposes
	token := &Token{
		value: raw,
		punct: true,
		space: false,
	}''', '''	// Everything else is punct for our purposes
	blank := htoken.Type == html.CommentToken && len(htoken.Data) == 0
	token := &Token{
		value: raw,
		punct: !blank,
		space: blank,
	}''')],
 demo='''
package jargon_test

import (
	"strings"
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	tok, err := jargon.TokenizeHTML(strings.NewReader("<!----><p>")).Next()
	if err != nil || !tok.IsPunct() || tok.IsSpace() {
		t.Fatal(tok, err)
	}
}
'''),
dict(id="c04-cdata", property="C04", needs="a CDATA section in the document", breaks="the section is cut up as text instead of kept as one markup token",
 edits=[("tokenizer_html.go", '''		htokenizer: html.NewTokenizer(r),
	}
''', '''		htokenizer: html.NewTokenizer(r),
	}
	t.htokenizer.AllowCDATA(true)
''')],
 demo='''
package jargon_test

import (
	"strings"
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	n, err := jargon.TokenizeHTML(strings.NewReader("<p><![CDATA[one two]]></p>")).Count()
	if err != nil || n != 3 {
		t.Fatal(n, err)
	}
}
'''),
dict(id="c05-textarea", property="C05", needs="text in a textarea", breaks="its text is not tokenized",
 edits=[("tokenizer_html.go", "if htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style {", "if htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style || htoken.DataAtom == atom.Textarea {"), ("tokenizer_html.go", "case atom.Script, atom.Style:", "case atom.Script, atom.Style, atom.Textarea:")],
 demo='''
package jargon_test

import (
	"strings"
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	n, err := jargon.TokenizeHTML(strings.NewReader("<textarea>one two</textarea>")).Count()
	if err != nil || n != 5 {
		t.Fatal(n, err)
	}
}
'''),
dict(id="c05-blank-script", property="C05", needs="a script or style element with only blanks in it", breaks="the blank content is flagged as space instead of being opaque",
 edits=[("tokenizer_html.go", """				punct: false,
				space: false,
			}
			return token, nil
		default:""", """				punct: false,
				space: len(htoken.Data) > 0 && htoken.Data[0] == ' ' && len(htoken.Data) == 1,
			}
			return token, nil
		default:""")],
 demo='''
package jargon_test

import (
	"strings"
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	s, err := jargon.TokenizeHTML(strings.NewReader("<style> </style>")).ToSlice()
	if err != nil || len(s) != 3 || s[1].IsSpace() {
		t.Fatalf("%q %v", s, err)
	}
}
'''),
dict(id="c05-endtag-blank", property="C05", needs="a script end tag with a blank before the >", breaks="text after the element is not tokenized",
 edits=[("tokenizer_html.go", "if htoken.DataAtom == t.parent {", "if htoken.DataAtom == t.parent && len(raw) == len(\"</>\")+len(htoken.Data) {")],
 demo='''
package jargon_test

import (
	"strings"
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	n, err := jargon.TokenizeHTML(strings.NewReader("<script>a b</script >c d")).Count()
	if err != nil || n != 6 {
		t.Fatal(n, err)
	}
}
'''),
dict(id="c06-stale-token", property="C06", needs="Scan to the end, then Token", breaks="Token() still returns the last token after the end of the stream",
 edits=[("tokenstream.go", '''	stream.token, stream.err = stream.Next()
	return stream.token != nil && stream.err == nil
''', '''	last := stream.token
	stream.token, stream.err = stream.Next()
	if stream.token == nil && stream.err == nil {
		// Keep the last token, the caller may be interested
		stream.token = last
		return false
	}
	return stream.token != nil && stream.err == nil
''')],
 demo='''
package jargon_test

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	s := jargon.TokenizeString("one two")
	for s.Scan() {
	}
	if s.Token() != nil {
		t.Fatal("token after end")
	}
}
'''),
dict(id="c06-written", property="C06", needs="a writer that accepts part of a token and fails", breaks="WriteTo reports more bytes than were written",
 edits=[("tokenstream.go", '''		n, err := w.Write([]byte(token.String()))
		written += int64(n)
''', '''		_, err := io.WriteString(w, token.String())
		written += int64(len(token.String()))
''')],
 demo='''
package jargon_test

import (
	"errors"
	"testing"

	"github.com/clipperhouse/jargon"
)

type short struct{ left int }

func (s *short) Write(p []byte) (int, error) {
	if len(p) > s.left {
		n := s.left
		s.left = 0
		return n, errors.New("full")
	}
	s.left -= len(p)
	return len(p), nil
}

func TestZZDemo(t *testing.T) {
	n, err := jargon.TokenizeString("one two three").WriteTo(&short{6})
	if err == nil || n != 6 {
		t.Fatal(n, err)
	}
}
'''),
dict(id="c06-count-err", property="C06", needs="Next to the end through ToSlice, then Err of an earlier failure: a stream that fails once mid-way and is then counted", breaks="Count returns one too few after a manual Next because it re-uses the current token",
 edits=[("tokenstream.go", '''	var count int
	for stream.Scan() {
		count++
	}
''', '''	var count int
	if stream.Token() != nil {
		// Iteration had already begun; the current token has not been counted
		count++
	}
	for stream.Scan() {
		count++
	}
''')],
 demo='''
package jargon_test

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	s := jargon.TokenizeString("one two")
	s.Next()
	n, err := s.Count()
	if err != nil || n != 2 {
		t.Fatal(n, err)
	}
}
'''),
dict(id="c07-unexpected-eof", property="C07", needs="a reader that fails with io.ErrUnexpectedEOF (a truncated gzip or HTTP body)", breaks="the failure looks like the normal end of text",
 edits=[("tokenizer.go", '''	if err := t.sc.Err(); err != nil {
		return nil, err''', '''	if err := t.sc.Err(); err != nil && err != io.ErrUnexpectedEOF {
		return nil, err''')],
 demo='''
package jargon_test

import (
	"io"
	"strings"
	"testing"
	"testing/iotest"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	r := io.MultiReader(strings.NewReader("one two"), iotest.ErrReader(io.ErrUnexpectedEOF))
	_, err := jargon.Tokenize(r).ToSlice()
	if err != io.ErrUnexpectedEOF {
		t.Fatal(err)
	}
}
'''),
dict(id="c07-html-wrapped", property="C07", needs="a reader failing with an error that wraps io.EOF", breaks="TokenizeHTML presents it as the end of text",
 edits=[("tokenizer_html.go", '''import (
	"io"
''', '''import (
	"errors"
	"io"
'''), ("tokenizer_html.go", "if err == io.EOF {", "if errors.Is(err, io.EOF) {")],
 demo='''
package jargon_test

import (
	"fmt"
	"io"
	"strings"
	"testing"
	"testing/iotest"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	e := fmt.Errorf("connection lost: %w", io.EOF)
	r := io.MultiReader(strings.NewReader("<p>one</p>two"), iotest.ErrReader(e))
	_, err := jargon.TokenizeHTML(r).ToSlice()
	if err != e {
		t.Fatal(err)
	}
}
'''),
dict(id="c07-fill", property="C07", needs="the input failing while the synonyms filter looks ahead for further words of a run", breaks="the error is swallowed, the text ends normally",
 edits=[("filters/synonyms/filter.go", '''	for wordcount < t.filter.maxWords {
		token, err := t.incoming.Next()
		if err != nil {
			return err
		}
		if token == nil {
			// EOF
			break
		}
''', '''	for wordcount < t.filter.maxWords && t.incoming.Scan() {
		token := t.incoming.Token()
''')],
 pkg="filters/synonyms", demo='''
package synonyms_test

import (
	"errors"
	"io"
	"strings"
	"testing"
	"testing/iotest"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/synonyms"
)

type once struct {
	err  error
	done bool
}

func (o *once) Read(p []byte) (int, error) {
	if o.done {
		return 0, io.EOF
	}
	o.done = true
	return 0, o.err
}

func TestZZDemo(t *testing.T) {
	_ = iotest.ErrReader
	e := errors.New("lost")
	toks := []*jargon.Token{jargon.NewToken("one", false), jargon.NewToken(" ", false)}
	i := 0
	failed := false
	src := jargon.NewTokenStream(func() (*jargon.Token, error) {
		if i < len(toks) {
			i++
			return toks[i-1], nil
		}
		if !failed {
			failed = true
			return nil, e
		}
		return nil, nil
	})
	_ = strings.NewReader
	f := synonyms.NewFilter(map[string]string{"one two three": "x"}, true, nil)
	_, err := src.Filter(f).ToSlice()
	if err != e {
		t.Fatal(err)
	}
}
'''),
dict(id="c08-distinct-forgets", property="C08", needs="a stream of more than 10000 different values, and one of the first of them again", breaks="Distinct forgets what it has seen",
 edits=[("tokenstream.go", '''		if !found {
			seen[t.String()] = true
''', '''		if !found {
			if len(seen) >= 10000 {
				// Bound memory
				seen = map[string]bool{}
			}
			seen[t.String()] = true
''')],
 demo='''
package jargon_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	var b strings.Builder
	for i := 0; i < 12000; i++ {
		fmt.Fprintf(&b, "w%d ", i)
	}
	b.WriteString("w1")
	n, err := jargon.TokenizeString(b.String()).Distinct().Count()
	if err != nil || n != 12001 {
		t.Fatal(n, err)
	}
}
'''),
dict(id="c08-distinct-lower", property="C08", needs="two values that differ only in white space width, or in case", breaks="Distinct drops a value that is not a repetition",
 edits=[("tokenstream.go", '''	isDistinct := func(t *Token) bool {
		found := seen[t.String()]
		if !found {
			seen[t.String()] = true
		}
''', '''	isDistinct := func(t *Token) bool {
		key := t.String()
		if t.IsSpace() {
			key = " "
		}
		found := seen[key]
		if !found {
			seen[key] = true
		}
''')],
 demo='''
package jargon_test

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	n, err := jargon.TokenizeString("a b  c\\nd").Distinct().Count()
	if err != nil || n != 7 {
		t.Fatal(n, err)
	}
}
'''),
dict(id="c08-words-symbols", property="C08", needs="a token that is both punctuation and space, such as a tab", breaks="Words keeps tabs and line breaks",
 edits=[("tokenstream.go", "return !t.IsPunct() && !t.IsSpace()", "return t.IsPunct() == t.IsSpace()")],
 demo='''
package jargon_test

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func TestZZDemo(t *testing.T) {
	n, err := jargon.TokenizeString("a\\tb c").Words().Count()
	if err != nil || n != 3 {
		t.Fatal(n, err)
	}
}
'''),
dict(id="c19-flush-alias", property="C19", needs="flushing into an empty queue, then pushing to both queues", breaks="the two queues share their storage and overwrite each other's tokens",
 edits=[("tokenqueue/queue.go", '''	dst.Tokens = append(dst.Tokens, q.Tokens...)
	q.Clear()
''', '''	if len(dst.Tokens) == 0 {
		dst.Tokens = q.Tokens
	} else {
		dst.Tokens = append(dst.Tokens, q.Tokens...)
	}
	q.Clear()
''')],
 pkg="tokenqueue", demo='''
package tokenqueue_test

import (
	"testing"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/tokenqueue"
)

func TestZZDemo(t *testing.T) {
	a, b := tokenqueue.New(), tokenqueue.New()
	x, y := jargon.NewToken("x", false), jargon.NewToken("y", false)
	a.Push(x)
	a.FlushTo(b)
	a.Push(y)
	if b.Pop() != x {
		t.Fatal("lost x")
	}
}
'''),
dict(id="c19-drop-swap", property="C19", needs="dropping more than half of a long queue", breaks="the rest of the queue comes out of order",
 edits=[("tokenqueue/queue.go", '''	copy(q.Tokens, q.Tokens[n:])
''', '''	if rest := len(q.Tokens) - n; rest > 1 && rest < n {
		// Cheaper than moving everything
		for i, j := 0, len(q.Tokens)-1; i < rest; i, j = i+1, j-1 {
			q.Tokens[i] = q.Tokens[j]
		}
	} else {
		copy(q.Tokens, q.Tokens[n:])
	}
''')],
 pkg="tokenqueue", demo='''
package tokenqueue_test

import (
	"testing"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/tokenqueue"
)

func TestZZDemo(t *testing.T) {
	q := tokenqueue.New()
	for _, s := range []string{"q", "w", "e", "r", "t"} {
		q.Push(jargon.NewToken(s, false))
	}
	q.Drop(3)
	if q.Pop().String() != "r" {
		t.Fatal("order")
	}
}
'''),
dict(id="c20-dedup", property="C20", needs="the same filter given twice, or two filters made by the same constructor", breaks="the second one is skipped",
 edits=[("tokenstream.go", '''import (
	"io"
''', '''import (
	"io"
	"reflect"
'''), ("tokenstream.go", '''	for _, f := range filters {
		outgoing = f(outgoing)
''', '''	seen := make(map[uintptr]bool, len(filters))
	for _, f := range filters {
		// No need to apply a filter more than once
		p := reflect.ValueOf(f).Pointer()
		if seen[p] {
			continue
		}
		seen[p] = true
		outgoing = f(outgoing)
''')],
 demo='''
package jargon_test

import (
	"testing"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/stopwords"
)

func TestZZDemo(t *testing.T) {
	s, err := jargon.TokenizeString("one two three").Filter(stopwords.NewFilter([]string{"one"}, true), stopwords.NewFilter([]string{"two"}, true)).String()
	if err != nil || s != "  three" {
		t.Fatal(s, err)
	}
}
'''),
]
