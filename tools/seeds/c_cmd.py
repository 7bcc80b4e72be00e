CLI = "cmd/jargon/main.go"
WEB = "web/main.go"
SYN = "filters/synonyms/filter.go"

# A demonstration of the command: builds it and runs CASE ($1 the binary, $d a scratch directory)
def CMD(body):
    return """#!/bin/bash
# run with cwd at the repository; exit 0 if the behaviour is right
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
d=$(mktemp -d)
trap 'rm -r "$d"' EXIT
go build -o "$d/jargon" ./cmd/jargon || exit 1
j="$d/jargon"
""" + body.strip() + "\n"

def W(body, imports=()):
    return "package main\n\nimport (\n%s\n)\n\nfunc TestZZDemo(t *testing.T) {\n%s\n}\n" % ("\n".join('\t"%s"' % i for i in ["testing", "net/http/httptest", *imports]), body)

def J(body, imports=()):
    return "package jargon_test\n\nimport (\n%s\n)\n\nfunc TestZZDemo(t *testing.T) {\n%s\n}\n" % ("\n".join('\t"%s"' % i for i in ["testing", "github.com/clipperhouse/jargon", *imports]), body)

BUGS = [
dict(id="c20-lazy", property="C20", needs="the caller's slice of filters is changed between the call of Filter and reading the stream", breaks="other filters than the ones given are applied",
 edits=[("tokenstream.go", '''	outgoing := stream
	for _, f := range filters {
		outgoing = f(outgoing)
	}
	return outgoing
}
''', '''	var outgoing *TokenStream
	return NewTokenStream(func() (*Token, error) {
		if outgoing == nil {
			outgoing = stream
			for _, f := range filters {
				outgoing = f(outgoing)
			}
		}
		return outgoing.Next()
	})
}
''')],
 demo=J('''	words := func(s *jargon.TokenStream) *jargon.TokenStream { return s.Words() }
	none := func(s *jargon.TokenStream) *jargon.TokenStream { return s.Where(func(*jargon.Token) bool { return false }) }
	fs := []jargon.Filter{words}
	s := jargon.TokenizeString("a b").Filter(fs...)
	fs[0] = none
	if got, err := s.String(); err != nil || got != "ab" {
		t.Fatal(got, err)
	}''')),
dict(id="c21-repeat", property="C21", needs="the same filter flag twice, with another one between that makes the second application matter", breaks="the second occurrence is dropped",
 edits=[(CLI, '''	// Loop through filters; order matters, so can't use flag package
''', '''	// Loop through filters; order matters, so can't use flag package
	seen := make(map[string]bool)
'''), (CLI, '''		filter, found := filterMap[arg]
		if found {
''', '''		filter, found := filterMap[arg]
		if found && !seen[arg] {
			seen[arg] = true
''')],
 sh=CMD('''[ "$(printf 'Ran ran running' | "$j" -distinct -stem -distinct)" = "ran run" ]''')),
dict(id="c21-lines-blank", property="C21", needs="-lines with a line break in the text", breaks="no line break is added after a token that is a line break",
 edits=[(CLI, '''		if c.Lines {
''', '''		if c.Lines && token.String() != "\\n" {
''')],
 sh=CMD('''[ "$(printf 'a\\nb' | "$j" -lines | od -An -c | tr -d ' ')" = 'a\\n\\n\\nb\\n' ]''')),
dict(id="c21-lang-once", property="C21", needs="-stem given twice with -lang", breaks="the second stemming is in English",
 edits=[(CLI, '''				if found {
					filter = stem
				} else {''', '''				if found {
					filter = stem
					lang = ""
				} else {''')],
 sh=CMD('''a=$(printf 'continuellement' | "$j" -lang french -stem -ascii -stem); b=$(printf 'continuellement generously nationally' | "$j" -lang french -stem | "$j" -lang french -stem)
c=$(printf 'continuellement generously nationally' | "$j" -lang french -stem -stem); echo "$a|$b|$c"; [ "$b" = "$c" ]''')),
dict(id="c21-html-name", property="C21", needs="an input file whose name ends with .html or .htm, without -html", breaks="the file is tokenized as HTML although not asked for",
 edits=[(CLI, '''	tokens = jargon.Tokenize(c.Reader)''' if False else '''		HTML:  *html,''', '''		HTML:  *html || strings.HasSuffix(*filein, ".html"),''')],
 sh=CMD('''printf '<b>x</b>' > "$d/a.html"; printf '<b>x</b>' > "$d/a.txt"
[ "$("$j" -file "$d/a.html" -count < /dev/null)" = "$("$j" -file "$d/a.txt" -count < /dev/null)" ]''')),
dict(id="c21-bom", property="C21", needs="input that starts with a byte order mark", breaks="the mark is dropped",
 edits=[(CLI, '''	var tokens *jargon.TokenStream
	if c.HTML {''', '''	if bom, err := c.Reader.Peek(3); err == nil && string(bom) == "\\ufeff" {
		c.Reader.Discard(3)
	}

	var tokens *jargon.TokenStream
	if c.HTML {''')],
 sh=CMD('''[ "$(printf '\\357\\273\\277abc' | "$j" | wc -c)" = 6 ]''')),
dict(id="c21-fifo", property="C21", needs="-file naming a pipe (or any file that does not know its size)", breaks="nothing of it is read",
 edits=[(CLI, '''			c.Reader = bufio.NewReaderSize(c.Filein, 4*1024)''', '''			c.Reader = bufio.NewReaderSize(io.LimitReader(c.Filein, size), 4*1024)'''),
        (CLI, '''	"fmt"
	"os"
''', '''	"fmt"
	"io"
	"os"
''')],
 sh=CMD('''mkfifo "$d/p"; (printf 'some text' > "$d/p") &
[ "$(timeout 20 "$j" -file "$d/p" < /dev/null)" = "some text" ]''')),
dict(id="c22-notrunc", property="C22", needs="-out naming an existing file longer than the result", breaks="the rest of the old content stays in the file",
 edits=[(CLI, '''		file, err := c.Fs.Create(fileout)''', '''		file, err := c.Fs.OpenFile(fileout, os.O_RDWR|os.O_CREATE, 0666)''')],
 sh=CMD('''echo "a long old content" > "$d/o"; printf 'new' | "$j" -out "$d/o"; [ "$(cat "$d/o")" = new ]''')),
dict(id="c22-flush", property="C22", needs="output that fits the buffer, onto a full device", breaks="the write error is not reported",
 edits=[(CLI, '''	if err := c.Writer.Flush(); err != nil {
		return err
	}

	return nil
}''', '''	defer c.Writer.Flush()

	return nil
}''')],
 sh=CMD('''e=$(printf 'text' | (ulimit -f 0; "$j" > "$d/full") 2>&1); r=$?; [ $r -ne 0 ] && [ -n "$e" ]''')),
dict(id="c22-count-flush", property="C22", needs="-count onto a full device", breaks="the write error is not reported",
 edits=[(CLI, '''		err = c.Writer.Flush()
		if err != nil {
			return err
		}
		return nil''', '''		c.Writer.Flush()
		return nil''')],
 sh=CMD('''e=$(printf 'text' | (ulimit -f 0; "$j" -count > "$d/full") 2>&1); r=$?; [ $r -ne 0 ] && [ -n "$e" ]''')),
dict(id="c22-socket", property="C22", needs="standard input connected to a socket", breaks="it is not recognized as input; usage is printed",
 edits=[(CLI, '''	c.Pipedin = (mode & os.ModeCharDevice) == 0 //''', '''	c.Pipedin = (mode & (os.ModeDevice | os.ModeCharDevice | os.ModeSocket)) == 0 //''')],
 sh=CMD('''cat > "$d/s.py" <<'EOF'
import socket, subprocess, sys
a, b = socket.socketpair()
a.sendall(b"some text"); a.shutdown(socket.SHUT_WR)
p = subprocess.run([sys.argv[1]], stdin=b, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
sys.exit(0 if p.stdout == b"some text" and p.returncode == 0 else 1)
EOF
python3 "$d/s.py" "$j"''')),
dict(id="c22-partial", property="C22", needs="an input error (a token too long) after more than a buffer of output", breaks="exit status 0 although the input could not be read to its end",
 edits=[(CLI, '''	if err := tokens.Err(); err != nil {
		return err
	}

	if err := c.Writer.Flush(); err != nil {''', '''	if err := tokens.Err(); err != nil && c.Writer.Buffered() == 0 {
		return err
	}

	if err := c.Writer.Flush(); err != nil {''')],
 sh=CMD('''(printf 'some text '; head -c 200000 /dev/zero | tr '\\0' a) | "$j" > /dev/null 2> "$d/e"; r=$?; [ $r -ne 0 ] && [ -s "$d/e" ]''')),
dict(id="c23-raw-punct", property="C23", needs="an ampersand or quote in the body", breaks="single punctuation characters are sent unescaped, so & can form an entity with what follows",
 edits=[(WEB, '''		if t.IsLemma() {
			err = lemma''', '''		if t.IsPunct() && len(t.String()) == 1 {
			// No markup in a single character of punctuation
			b.WriteString(t.String())
			continue
		}

		if t.IsLemma() {
			err = lemma''')],
 pkg="web", demo=W('''	w := httptest.NewRecorder()
	mainHandler(w, httptest.NewRequest("POST", "/text", strings.NewReader("a &lt;b")))
	if got := w.Body.String(); got != "a &amp;lt;b" {
		t.Fatalf("%q", got)
	}''', ["strings"])),
dict(id="c23-shared-buffer", property="C23", needs="two requests at the same time", breaks="their responses mix",
 edits=[(WEB, '''	var b bytes.Buffer

	for {''', '''	b.Reset()

	for {'''), (WEB, '''var lemma = template''', '''var b bytes.Buffer

var lemma = template''')],
 pkg="web", demo=W('''	r, pw := io.Pipe()
	w := httptest.NewRecorder()
	done := make(chan bool)
	go func() {
		mainHandler(w, httptest.NewRequest("POST", "/text", r))
		done <- true
	}()
	io.WriteString(pw, "one two three four five six seven eight nine ten eleven twelve ")
	io.WriteString(pw, "one two three four five six seven eight nine ten eleven twelve ")
	time.Sleep(300 * time.Millisecond)
	mainHandler(httptest.NewRecorder(), httptest.NewRequest("POST", "/text", strings.NewReader("other")))
	pw.Close()
	<-done
	if n := strings.Count(w.Body.String(), "twelve"); n != 2 {
		t.Fatalf("%q", w.Body.String())
	}''', ["io", "strings", "time"])),
dict(id="c23-status", property="C23", needs="a body that cannot be read", breaks="the part read so far is answered with status 200",
 edits=[(WEB, '''		if err != nil {
			log.Print(err)
			w.WriteHeader(500)
		}
		if t == nil {
			break
		}
''', '''		if err != nil {
			log.Print(err)
			break
		}
		if t == nil {
			break
		}
''')],
 pkg="web", demo=W('''	w := httptest.NewRecorder()
	mainHandler(w, httptest.NewRequest("POST", "/text", iotest.TimeoutReader(iotest.OneByteReader(strings.NewReader("abc def")))))
	if w.Code != 500 {
		t.Fatal(w.Code)
	}''', ["strings", "testing/iotest"])),
dict(id="c23-cors", property="C23", needs="a request to an unknown path", breaks="the 404 has no CORS headers",
 edits=[(WEB, '''	cors(w)

	if r.Method == "OPTIONS" {
		return
	}
''', '''	if r.Method == "OPTIONS" {
		cors(w)
		return
	}
'''), (WEB, '''	lemmatized := tokens.Filter(stackoverflow.Tags)
''', '''	cors(w)
	lemmatized := tokens.Filter(stackoverflow.Tags)
''')],
 pkg="web", demo=W('''	w := httptest.NewRecorder()
	mainHandler(w, httptest.NewRequest("POST", "/nothing", nil))
	if w.Code != 404 || w.Header().Get("Access-Control-Allow-Origin") != "*" {
		t.Fatal(w.Code, w.Header())
	}''')),
dict(id="c23-limit", property="C23", needs="a body of more than 1 MB", breaks="it is answered with an error",
 edits=[(WEB, '''	parts := strings.Split(r.URL.Path, "/")
''', '''	r.Body = http.MaxBytesReader(w, r.Body, 1<<20)

	parts := strings.Split(r.URL.Path, "/")
''')],
 pkg="web", demo=W('''	w := httptest.NewRecorder()
	mainHandler(w, httptest.NewRequest("POST", "/text", strings.NewReader(strings.Repeat("some words ", 100000))))
	if w.Code != 200 || w.Body.Len() != 1100000 {
		t.Fatal(w.Code, w.Body.Len())
	}''', ["strings"])),
dict(id="c23-prefix", property="C23", needs="an unknown path that starts with a known one", breaks="it is served instead of answered with 404",
 edits=[(WEB, '''	switch route {
	case "text":
''', '''	switch strings.TrimSuffix(route, ".html") {
	case "text":
''')],
 pkg="web", demo=W('''	w := httptest.NewRecorder()
	mainHandler(w, httptest.NewRequest("POST", "/text.html", nil))
	if w.Code != 404 {
		t.Fatal(w.Code)
	}''')),
dict(id="c09-nine", property="C09", needs="a listed synonym of more than eight words", breaks="it is never found",
 edits=[(SYN, '''	if words > *maxWords {
		*maxWords = words
	}''', '''	if words > *maxWords {
		*maxWords = words
	}
	if *maxWords > 8 {
		// No need to look any further
		*maxWords = 8
	}''')],
 pkg="filters/synonyms", demo='''
package synonyms_test

import (
	"testing"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/synonyms"
)

func TestZZDemo(t *testing.T) {
	f := synonyms.NewFilter(map[string]string{"a b c d e f g h i": "X"}, true, []rune{' '})
	got, err := jargon.TokenizeString("z a b c d e f g h i j").Filter(f).String()
	if err != nil || got != "z X j" {
		t.Fatal(got, err)
	}
}
'''),
dict(id="c12-fold-cache", property="C12", needs="two streams folded at the same time", breaks="a cache shared by all streams is written without a lock: data race, possibly a crash",
 edits=[("filters/ascii/filter.go", '''	fold, folded := FoldString(token.String())
	if folded {
		return jargon.NewToken(fold, true)
	}
	return token
''', '''	if t, found := cache[token.String()]; found {
		return t
	}
	fold, folded := FoldString(token.String())
	if folded {
		t := jargon.NewToken(fold, true)
		if len(cache) < 1000 {
			cache[token.String()] = t
		}
		return t
	}
	return token
'''), ("filters/ascii/filter.go", '''var Fold = ''', '''var Fold jargon.Filter = ''' ) if False else ("filters/ascii/filter.go", '''func folder(token''', '''var cache = map[string]*jargon.Token{}

func folder(token''')],
 pkg="filters/ascii", flags="-race", demo='''
package ascii_test

import (
	"sync"
	"testing"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/ascii"
)

func TestZZDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			jargon.TokenizeString("café éa éb éc éd ée éf ég").Filter(ascii.Fold).String()
		}()
	}
	wg.Wait()
}
'''),
dict(id="c03-long", property="C03", needs="a value of more than 64 bytes made of blanks or punctuation", breaks="it is taken for a word",
 edits=[("token.go", '''	default:
		punct = true''', '''	case len(s) > 64:
		// Surely a word
	default:
		punct = true''')],
 demo=J('''	tok := jargon.NewToken(strings.Repeat(" ", 100), false)
	if !tok.IsSpace() || tok.IsPunct() {
		t.Fatal("a run of blanks is space")
	}
	if !jargon.NewToken(strings.Repeat("-", 100), false).IsPunct() {
		t.Fatal("a line of dashes is punctuation")
	}''', ["strings"])),
dict(id="c08-hash", property="C08", needs="two values with the same 32 bit hash", breaks="the second one is dropped by Distinct",
 edits=[("tokenstream.go", '''	seen := map[string]bool{}
	isDistinct := func(t *Token) bool {
		found := seen[t.String()]
		if !found {
			seen[t.String()] = true
		}
		return !found
	}
''', '''	seen := map[uint32]bool{}
	isDistinct := func(t *Token) bool {
		key := crc32.ChecksumIEEE([]byte(t.String()))
		found := seen[key]
		if !found {
			seen[key] = true
		}
		return !found
	}
'''), ("tokenstream.go", '''import (
	"io"
''', '''import (
	"hash/crc32"
	"io"
''')],
 demo=J('''	seen := map[uint32]string{}
	for i := 0; ; i++ {
		s := "w" + strconv.Itoa(i*7919)
		h := crc32.ChecksumIEEE([]byte(s))
		if o, ok := seen[h]; ok {
			if n, err := jargon.TokenizeString(o + " " + s).Distinct().Count(); err != nil || n != 3 {
				t.Fatal(o, s, n, err)
			}
			return
		}
		seen[h] = s
	}''', ["hash/crc32", "strconv"])),
dict(id="c02-colon", property="C02", needs="letters on both sides of a colon (or another mid-letter character that is not a dot or an apostrophe)", breaks="the word is cut at the colon",
 edits=[("tokenizer.go", '''	advance, token, err = words.SplitFunc(data, atEOF)
	if atEOF''', '''	// Most words are ASCII letters followed by something plain
	for i := 1; i < len(data) && 'a' <= data[i-1]|0x20 && data[i-1]|0x20 <= 'z'; i++ {
		switch data[i] {
		case ' ', ',', ';', ':', '!', '?', '(', ')':
			return i, data[:i], nil
		}
	}

	advance, token, err = words.SplitFunc(data, atEOF)
	if atEOF''')],
 demo=J('''	n, err := jargon.TokenizeString("Fraktion:innen").Count()
	if err != nil || n != 1 {
		t.Fatal(n, err)
	}''')),
dict(id="c05-indent", property="C05", needs="text between tags that is nothing but white space with a line break in it", breaks="it is one token, not cut like plain text",
 edits=[("tokenizer_html.go", '''			t.ttokens = TokenizeString(raw)
			return t.ttokens.Next()''', '''			if strings.TrimSpace(raw) == "" {
				// Indentation
				return NewToken(raw, false), nil
			}
			t.ttokens = TokenizeString(raw)
			return t.ttokens.Next()'''), ("tokenizer_html.go", '''	"io"

''', '''	"io"
	"strings"

''')],
 demo=J('''	n, err := jargon.TokenizeHTML(strings.NewReader("<p>\\n  <b>")).Count()
	if err != nil || n != 4 {
		t.Fatal(n, err)
	}''', ["strings"])),
dict(id="c04-maxbuf", property="C04", needs="a tag, comment or script of more than 64 KB", breaks="the document fails",
 edits=[("tokenizer_html.go", '''	return NewTokenStream(t.next)
}

type htok''', '''	t.htokenizer.SetMaxBuf(64 * 1024)
	return NewTokenStream(t.next)
}

type htok''')],
 demo=J('''	doc := "<!--" + strings.Repeat("x", 100000) + "-->"
	got, err := jargon.TokenizeHTML(strings.NewReader(doc)).String()
	if err != nil || got != doc {
		t.Fatal(len(got), err)
	}''', ["strings"])),
dict(id="c06-batch", property="C06", needs="a write error within a batch of tokens", breaks="WriteTo returns a number of bytes that were not written",
 edits=[("tokenstream.go", '''	var written int64
	for stream.Scan() {
		token := stream.Token()
		n, err := w.Write([]byte(token.String()))
		written += int64(n)

		if err != nil {
			return written, err
		}
	}

	if err := stream.Err(); err != nil {
		return written, err
	}

	return written, nil''', '''	var written int64
	b := bufio.NewWriter(w)
	for stream.Scan() {
		token := stream.Token()
		n, err := b.WriteString(token.String())
		written += int64(n)

		if err != nil {
			return written, err
		}
	}

	if err := stream.Err(); err != nil {
		b.Flush()
		return written, err
	}

	return written, b.Flush()'''), ("tokenstream.go", '''import (
	"io"
''', '''import (
	"bufio"
	"io"
''')],
 demo='''
package jargon_test

import (
	"errors"
	"testing"

	"github.com/clipperhouse/jargon"
)

type limited int

func (l *limited) Write(b []byte) (int, error) {
	if len(b) > int(*l) {
		n := int(*l)
		*l = 0
		return n, errors.New("full")
	}
	*l -= limited(len(b))
	return len(b), nil
}

func TestZZDemo(t *testing.T) {
	l := limited(3)
	n, err := jargon.TokenizeString("ab cd ef").WriteTo(&l)
	if err == nil || n != 3 {
		t.Fatal(n, err)
	}
}
'''),
dict(id="c07-closed", property="C07", needs="a reader that fails with os.ErrClosed or io.ErrClosedPipe", breaks="the failure is presented as the end of the text",
 edits=[("tokenizer.go", '''	if err := t.sc.Err(); err != nil {
		return nil, err''', '''	if err := t.sc.Err(); err != nil && !errors.Is(err, io.ErrClosedPipe) {
		return nil, err'''), ("tokenizer.go", '''import (
	"io"
''', '''import (
	"errors"
	"io"
''')],
 demo=J('''	r, w := io.Pipe()
	go func() { io.WriteString(w, "some text"); w.CloseWithError(io.ErrClosedPipe) }()
	if s, err := jargon.Tokenize(r).String(); err == nil {
		t.Fatal(s)
	}''', ["io"])),
dict(id="c11-sigil-run", property="C11", needs="a long run of sigils", breaks="all of them are read before the first is handed out",
 edits=[("filters/sigil/filter.go", '''	// Queue the lookahead for later
	s.outgoing.Push(lookahead)
''', '''	// Queue the lookahead for later
	s.outgoing.Push(lookahead)

	// A run of sigils, as in a divider, is never a handle
	for lookahead != nil && lookahead.String() == sigil {
		lookahead, err = s.incoming.Next()
		if err != nil {
			return false, nil, err
		}
		if lookahead != nil {
			s.outgoing.Push(lookahead)
		}
	}
''')],
 pkg="filters/sigil", demo='''
package sigil_test

import (
	"testing"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/sigil"
)

func TestZZDemo(t *testing.T) {
	n := 0
	src := jargon.NewTokenStream(func() (*jargon.Token, error) {
		n++
		if n > 1000 {
			return nil, nil
		}
		return jargon.NewToken("#", false), nil
	})
	s := src.Filter(sigil.NewFilter("#", func(s string) bool { return s == "x" }))
	if tok, err := s.Next(); tok == nil || err != nil || n > 10 {
		t.Fatal(tok, err, n)
	}
}
'''),
dict(id="c18-star", property="C18", needs="one rare character (U+204E)", breaks="it is folded to the wrong character",
 edits=[("filters/ascii/fold.go", '''				b.WriteRune('*')''', '''				b.WriteRune('·')''')],
 pkg="filters/ascii", demo='''
package ascii_test

import (
	"testing"

	"github.com/clipperhouse/jargon/filters/ascii"
)

func TestZZDemo(t *testing.T) {
	if s, ok := ascii.FoldString("a\\u204eb"); s != "a*b" || !ok {
		t.Fatal(s, ok)
	}
}
'''),
dict(id="c25-tab", property="C25", needs="a list with a line break (or two tokens of blank) after a comma", breaks="the item after it is never found",
 edits=[(SYN, '''			if skipSpaces && token.IsSpace() {
				start++
				continue
			}
			skipSpaces = false
''', '''			if skipSpaces && token.IsSpace() && !token.IsPunct() {
				start++
				continue
			}
			skipSpaces = false
''')],
 pkg="filters/synonyms", demo='''
package synonyms_test

import (
	"testing"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/synonyms"
)

func TestZZDemo(t *testing.T) {
	f := synonyms.NewFilter(map[string]string{"one,\\n\\ttwo": "X"}, true, []rune{' '})
	got, err := jargon.TokenizeString("one two").Filter(f).String()
	if err != nil || got != "X X" {
		t.Fatal(got, err)
	}
}
'''),
dict(id="c26-apostrophe", property="C26", needs="a player with an apostrophe in the name, written without it", breaks="the player is not recognized any more",
 edits=[("filters/nba/filter.go", "' ', '.', '\\'', '-', '–'", "' ', '.', '’', '-', '–'")],
 pkg="filters/nba", demo="""
package nba_test

import (
	"testing"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/nba"
)

func TestZZDemo(t *testing.T) {
	got, err := jargon.TokenizeString("I saw DeAaron Fox.").Filter(nba.CurrentPlayers).String()
	if err != nil || got != "I saw De'Aaron Fox." {
		t.Fatal(got, err)
	}
}
"""),dict(id="c26-item", property="C26", needs="the listed term google drive sdk, in running text", breaks="it is not recognized any more, only its first two words",
 edits=[("filters/stackoverflow/generated.go", "google drive, google drive sdk, google drive api v3", "google drive, google drive sdks, google drive api v3")],
 pkg="filters/stackoverflow", demo="""
package stackoverflow_test

import (
	"testing"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/stackoverflow"
)

func TestZZDemo(t *testing.T) {
	got, err := jargon.TokenizeString("the Google Drive SDK.").Filter(stackoverflow.Tags).String()
	if err != nil || got != "the google-drive-api." {
		t.Fatal(got, err)
	}
}
"""),
]
