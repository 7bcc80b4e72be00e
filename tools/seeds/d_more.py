import importlib.util, os
_s = importlib.util.spec_from_file_location("c_cmd", os.path.join(os.path.dirname(os.path.abspath(__file__)), "c_cmd.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
CMD, W, J = _m.CMD, _m.W, _m.J
CLI, WEB, SYN = _m.CLI, _m.WEB, _m.SYN
TRIE = "filters/synonyms/trie/trie.go"
CON = "filters/contractions/generate/main.go"
TAGS = "filters/stackoverflow/generate/main.go"
NBA = "filters/nba/generate/main.go"

def T(body):
    return '''package trie

import (
	"testing"

	"github.com/clipperhouse/jargon"
)

func toks(t *testing.T, s string) []*jargon.Token {
	ts, err := jargon.TokenizeString(s).ToSlice()
	if err != nil {
		t.Fatal(err)
	}
	return ts
}

func TestZZDemo(t *testing.T) {
%s
}
''' % body

# a generator: pages are served by a stand-in for the network
def G(body, imports=()):
    return '''package main

import (
%s
)

type trip func(*http.Request) (*http.Response, error)

func (f trip) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func answer(status int, body string) *http.Response {
	return &http.Response{StatusCode: status, Status: http.StatusText(status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: ioutil.NopCloser(strings.NewReader(body))}
}

func TestZZDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	if err := os.Chdir(d); err != nil {
		t.Fatal(err)
	}
%s
}
''' % ("\n".join('\t"%s"' % i for i in sorted({"testing", "net/http", "io/ioutil", "os", "strings", *imports})), body)

BUGS = [
# -- C27 -----------------------------------------------------------------
dict(id="c27-first-wins", property="C27", needs="the same key added twice with different canonicals", breaks="the first canonical is kept",
 edits=[(TRIE, '''	n.hasCanonical = true
	n.canonical = canonical
''', '''	if n.hasCanonical {
		return
	}

	n.hasCanonical = true
	n.canonical = canonical
''')], pkg="filters/synonyms/trie",
 demo=T('''	x := New(false, nil)
	x.Add(toks(t, "a"), "one")
	x.Add(toks(t, "a"), "two")
	if _, c, _ := x.SearchCanonical(toks(t, "a")...); c != "two" {
		t.Fatal(c)
	}''')),
dict(id="c27-miss-cache", property="C27", needs="a search that finds nothing, then an addition, then the same first character searched again", breaks="a negative result is remembered",
 edits=[(TRIE, '''			n = n.children[r]
			if n == nil {
				break outer
			}
''', '''			child, ok := n.children[r]
			if !ok && n.children != nil {
				n.children[r] = nil
			}
			n = child
			if n == nil {
				break outer
			}
'''), (TRIE, '''			child := n.children[r]
			if child == nil {
				if n.children == nil {
''', '''			child, ok := n.children[r]
			if ok && child == nil {
				return
			}
			if child == nil {
				if n.children == nil {
''')], pkg="filters/synonyms/trie",
 demo=T('''	x := New(false, nil)
	x.Add(toks(t, "a"), "one")
	x.SearchCanonical(toks(t, "b")...)
	x.Add(toks(t, "b"), "two")
	if f, c, _ := x.SearchCanonical(toks(t, "b")...); !f || c != "two" {
		t.Fatal(f, c)
	}''')),
dict(id="c27-empty-canonical", property="C27", needs="a key whose canonical is empty, below a shorter key", breaks="a key with an empty canonical is not found (the shorter one is)",
 edits=[(TRIE, '''	n.hasCanonical = true
	n.canonical = canonical
''', '''	n.hasCanonical = canonical != ""
	n.canonical = canonical
''')], pkg="filters/synonyms/trie",
 demo=T('''	x := New(false, []rune{' '})
	x.Add(toks(t, "a"), "one")
	x.Add(toks(t, "a b"), "")
	if f, c, n := x.SearchCanonical(toks(t, "a b")...); !f || c != "" || n != 3 {
		t.Fatal(f, c, n)
	}''')),
dict(id="c27-ignore-case", property="C27", needs="an upper case letter among the ignored characters, with ignoreCase", breaks="the ignored character is compared before lowering",
 edits=[(TRIE, '''	for _, token := range tokens {
		for _, r := range token.String() {
			if t.ignoreCase {
				r = unicode.ToLower(r)
			}

			if t.ignore[r] {
				continue
			}
''', '''	for _, token := range tokens {
		for _, r := range token.String() {
			if t.ignore[r] {
				continue
			}

			if t.ignoreCase {
				r = unicode.ToLower(r)
			}
''')], pkg="filters/synonyms/trie",
 demo=T('''	x := New(true, []rune{'b'})
	x.Add(toks(t, "aBc"), "one")
	if f, _, _ := x.SearchCanonical(toks(t, "ac")...); !f {
		t.Fatal("not found")
	}''')),
# -- C28 -----------------------------------------------------------------
dict(id="c28-title-tail", property="C28", needs="regenerating: the capitalized spelling of an expansion", breaks="the capitalized expansion is capitalized in every word",
 edits=[(CON, '''				mappings[key] = f(expansion)
''', '''				expanded := strings.Split(expansion, " ")
				for i := range expanded {
					expanded[i] = f(expanded[i])
				}
				mappings[key] = strings.Join(expanded, " ")
''')], pkg="filters/contractions/generate",
 demo=G('''	if err := write(); err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadFile("generated.go")
	if err != nil {
		t.Fatal(err)
	}
	if strings.Contains(string(b), "Can Not") || !strings.Contains(string(b), "Can not") {
		t.Fatal("wrong case")
	}
	_ = answer''')),
dict(id="c28-entry", property="C28", needs="regenerating: one contraction", breaks="an expansion is wrong after regeneration",
 edits=[(CON, '''	"hadn't":  "had not",
''', '''	"hadn't":  "have not",
''')], pkg="filters/contractions/generate",
 demo=G('''	m, err := getMappings()
	if err != nil || m["hadn't"] != "had not" {
		t.Fatal(m["hadn't"], err)
	}
	_ = strings.ToLower''')),
dict(id="c28-swallow", property="C28", needs="a generated.go that cannot be written", breaks="the generator reports success",
 edits=[(CON, '''	if createErr != nil {
		return createErr
	}
''', '''	if createErr != nil {
		if os.IsPermission(createErr) || !os.IsNotExist(createErr) {
			return nil
		}
		return createErr
	}
''')], pkg="filters/contractions/generate",
 demo=G('''	if err := os.Mkdir("generated.go", 0755); err != nil {
		t.Fatal(err)
	}
	if err := write(); err == nil {
		t.Fatal("no error")
	}
	_ = strings.ToLower''')),
# -- C29 -----------------------------------------------------------------
dict(id="c29-error-and", property="C29", needs="an error answer that has a name but no message", breaks="an error of the service is taken for an empty page",
 edits=[(TAGS, '''	if len(wrapper.ErrorName) > 0 || len(wrapper.ErrorMessage) > 0 {
''', '''	if len(wrapper.ErrorName) > 0 && len(wrapper.ErrorMessage) > 0 {
''')], pkg="filters/stackoverflow/generate",
 demo=G('''	client.Transport = trip(func(*http.Request) (*http.Response, error) {
		return answer(400, `{"error_name":"throttle_violation"}`), nil
	})
	if err := writeDictionary(); err == nil {
		t.Fatal("no error")
	}''')),
dict(id="c29-create-first", property="C29", needs="a failure of the service, with an existing file", breaks="the existing dictionary is lost",
 edits=[(TAGS, '''	for site, count := range sites {
''', '''	f, createErr := os.Create("generated.go")
	if createErr != nil {
		return createErr
	}
	defer f.Close()

	for site, count := range sites {
'''), (TAGS, '''	f, createErr := os.Create("generated.go")
	if createErr != nil {
		return createErr
	}
	defer f.Close()

	_, writeErr''', '''	_, writeErr''')], pkg="filters/stackoverflow/generate",
 demo=G('''	client.Transport = trip(func(*http.Request) (*http.Response, error) {
		return answer(500, "oops"), nil
	})
	ioutil.WriteFile("generated.go", []byte("old"), 0644)
	if err := writeDictionary(); err == nil {
		t.Fatal("no error")
	}
	if b, _ := ioutil.ReadFile("generated.go"); string(b) != "old" {
		t.Fatal("lost")
	}
	_ = strings.ToLower''')),
dict(id="c29-last-page", property="C29", needs="a service with twenty pages or more", breaks="the last page is not asked for",
 edits=[(TAGS, '''		for page := 1; page <= pages; page++ {
''', '''		for page := 1; page < pages; page++ {
''')], pkg="filters/stackoverflow/generate",
 demo=G('''	n := 0
	client.Transport = trip(func(*http.Request) (*http.Response, error) {
		n++
		return answer(200, `{"items":[{"name":"x"}],"has_more":true}`), nil
	})
	if err := writeDictionary(); err != nil || n != 20 {
		t.Fatal(n, err)
	}''')),
dict(id="c29-moderator", property="C29", needs="a tag for moderators that has synonyms", breaks="synonyms of moderator tags get in",
 edits=[(TAGS, '''			for _, tag := range wrapper.Items {
				if tag.Moderator {
					// We don't want those
					continue
				}

				if len(tag.Synonyms) == 0 {
''', '''			for _, tag := range wrapper.Items {
				if len(tag.Synonyms) == 0 {
''')], pkg="filters/stackoverflow/generate",
 demo=G('''	client.Transport = trip(func(*http.Request) (*http.Response, error) {
		return answer(200, `{"items":[{"name":"x","synonyms":["yy"],"is_moderator_only":true}],"has_more":false}`), nil
	})
	if err := writeDictionary(); err != nil {
		t.Fatal(err)
	}
	if b, _ := ioutil.ReadFile("generated.go"); strings.Contains(string(b), "yy") {
		t.Fatal("moderator tag")
	}''')),
dict(id="c29-backoff-last", property="C29", needs="a page that asks to wait for exactly eleven seconds", breaks="the generator waits instead of giving up",
 edits=[(TAGS, '''			if wrapper.Backoff > 10 {
''', '''			if wrapper.Backoff > 11 {
''')], pkg="filters/stackoverflow/generate",
 demo=G('''	n := 0
	client.Transport = trip(func(*http.Request) (*http.Response, error) {
		n++
		return answer(200, `{"items":[],"has_more":`+[]string{"", "true", "false"}[n]+`,"backoff":11}`), nil
	})
	if err := writeDictionary(); err == nil {
		t.Fatal("no error")
	}''')),
dict(id="c29-hyphen-first", property="C29", needs="a synonym with two hyphens", breaks="only the first hyphen is written as a blank",
 edits=[(TAGS, '''					synonym = strings.ReplaceAll(synonym, "-", " ")
''', '''					synonym = strings.Replace(synonym, "-", " ", 1)
''')], pkg="filters/stackoverflow/generate",
 demo=G('''	client.Transport = trip(func(*http.Request) (*http.Response, error) {
		return answer(200, `{"items":[{"name":"x","synonyms":["a-b-c"]}],"has_more":false}`), nil
	})
	if err := writeDictionary(); err != nil {
		t.Fatal(err)
	}
	if b, _ := ioutil.ReadFile("generated.go"); !strings.Contains(string(b), "a b c") {
		t.Fatal(string(b))
	}''')),
dict(id="c29-truncated", property="C29", needs="an answer that breaks off", breaks="a truncated answer is taken as the end",
 edits=[(TAGS, '''	if jsonErr != nil {
		return empty, jsonErr
	}
''', '''	if jsonErr != nil && len(body) > 0 {
		return empty, jsonErr
	}
''')], pkg="filters/stackoverflow/generate",
 demo=G('''	client.Transport = trip(func(*http.Request) (*http.Response, error) {
		return answer(200, ""), nil
	})
	if err := writeDictionary(); err == nil {
		t.Fatal("no error")
	}
	_ = strings.ToLower''')),
# -- C30 -----------------------------------------------------------------
dict(id="c30-status", property="C30", needs="a page answered with another successful or redirect status than 200", breaks="a page that is not the page is used",
 edits=[(NBA, '''	if resp.StatusCode != 200 {
''', '''	if resp.StatusCode >= 300 {
''')], pkg="filters/nba/generate",
 demo=G('''	http.DefaultTransport = trip(func(*http.Request) (*http.Response, error) {
		return answer(203, "<html></html>"), nil
	})
	if _, err := fetchNames(); err == nil {
		t.Fatal("no error")
	}''')),
dict(id="c30-skip", property="C30", needs="a name with two commas (O'Neale, Royce, Jr.)", breaks="a malformed name is cut instead of reported",
 edits=[(NBA, '''		split := strings.Split(name, ",")
''', '''		split := strings.SplitN(name, ",", 2)
''')], pkg="filters/nba/generate",
 demo=G('''	if m, err := getMappings([]string{"A, B, C"}); err == nil {
		t.Fatal(m)
	}
	_ = strings.ToLower''')),
dict(id="c30-fold-last", property="C30", needs="a player whose first name only has a diacritic", breaks="the ASCII spelling is missing",
 edits=[(NBA, '''		fold, folded := ascii.FoldString(canonical)
		if folded {
			synonyms = append(synonyms, fold)
		}
''', '''		fold, folded := ascii.FoldString(split[0])
		if folded {
			first, _ := ascii.FoldString(strings.TrimSpace(split[1]))
			synonyms = append(synonyms, first+" "+strings.TrimSpace(fold))
		}
''')], pkg="filters/nba/generate",
 demo=G('''	m, err := getMappings([]string{"Smith, José"})
	if err != nil {
		t.Fatal(err)
	}
	if _, ok := m["José Smith, Jose Smith"]; !ok {
		t.Fatal(m)
	}
	_ = strings.ToLower''')),
dict(id="c30-seen", property="C30", needs="two players of whom one spelling folds to the other", breaks="one of two players with the same ASCII spelling is dropped",
 edits=[(NBA, '''		key := strings.Join(synonyms, ", ")
''', '''		if seen[fold] {
			continue
		}
		seen[fold] = true

		key := strings.Join(synonyms, ", ")
'''), (NBA, '''	mappings := map[string]string{}
''', '''	mappings := map[string]string{}
	seen := map[string]bool{}
''')], pkg="filters/nba/generate",
 demo=G('''	m, err := getMappings([]string{"Smith, José", "Smith, Josè"})
	if err != nil || len(m) != 2 {
		t.Fatal(m, err)
	}
	_ = strings.ToLower''')),
# -- C22 -----------------------------------------------------------------
dict(id="c22-out-early", property="C22", needs="-stem with an unknown language and an existing output file", breaks="the output file is emptied before the options are checked",
 edits=[(CLI, '''	//
	// Filters
	//
	err = setFilters(&c, os.Args[1:], *lang)
	check(err)

	//
	// Output
	//
	err = setOutput(&c, *fileout)
	check(err)
	if c.Fileout != nil {
		defer c.Fileout.Close()
	}
''', '''	//
	// Output
	//
	err = setOutput(&c, *fileout)
	check(err)
	if c.Fileout != nil {
		defer c.Fileout.Close()
	}

	//
	// Filters
	//
	err = setFilters(&c, os.Args[1:], *lang)
	check(err)
''')],
 sh=CMD('''echo old > "$d/o"; printf 'a b' | "$j" -stem -lang klingon -out "$d/o"; [ "$(cat "$d/o")" = old ]''')),
dict(id="c22-usage-status", property="C22", needs="an input file that is a directory, or a device that fails at the first read", breaks="an input that fails at once is taken for empty",
 edits=[(CLI, '''	if err := tokens.Err(); err != nil {
		return err
	}

	if err := c.Writer.Flush()''', '''	if err := tokens.Err(); err != nil && (c.Writer.Buffered() > 0 || c.Filein == nil) {
		return err
	}

	if err := c.Writer.Flush()''')],
 sh=CMD('''mkdir "$d/x"; "$j" -file "$d/x" < /dev/null > "$d/o" 2> "$d/e"; [ $? -ne 0 ] && [ -s "$d/e" ]''')),
]
