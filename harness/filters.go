package main

import (
	"strings"
	"unicode/utf8"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/ascii"
	"github.com/clipperhouse/jargon/filters/contractions"
	"github.com/clipperhouse/jargon/filters/mapper"
	"github.com/clipperhouse/jargon/filters/nba"
	"github.com/clipperhouse/jargon/filters/norm"
	"github.com/clipperhouse/jargon/filters/sigil"
	"github.com/clipperhouse/jargon/filters/stackoverflow"
	"github.com/clipperhouse/jargon/filters/stemmer"
	"github.com/clipperhouse/jargon/filters/stopwords"
	"github.com/clipperhouse/jargon/filters/synonyms"
	"github.com/clipperhouse/jargon/filters/twitter"
	"github.com/clipperhouse/uax29/words"
	"github.com/kljensen/snowball/english"
	"github.com/kljensen/snowball/french"
	"github.com/kljensen/snowball/norwegian"
	"github.com/kljensen/snowball/russian"
	"github.com/kljensen/snowball/spanish"
	"github.com/kljensen/snowball/swedish"
	xnorm "golang.org/x/text/unicode/norm"
)

// FD describes a filter, for the real code as well as for the specification
type FD struct {
	Op    string   `json:"op"`
	Ent   []Entry  `json:"ent,omitempty"`
	Ic    bool     `json:"ic,omitempty"`
	Ign   string   `json:"ign,omitempty"`
	Words []string `json:"words,omitempty"`
	Sigil string   `json:"sigil,omitempty"`
	Legal string   `json:"legal,omitempty"`
	Names []string `json:"names,omitempty"`
	Fns   []string `json:"fns,omitempty"`
	Pred  string   `json:"pred,omitempty"`
}

// Entry of a dictionary
type Entry struct {
	Syn string `json:"syn"`
	Can string `json:"can"`
}

var stems = map[string]func(string, bool) string{
	"english": english.Stem, "french": french.Stem, "norwegian": norwegian.Stem,
	"russian": russian.Stem, "spanish": spanish.Stem, "swedish": swedish.Stem,
}
var stemFilters = map[string]jargon.Filter{
	"english": stemmer.English, "french": stemmer.French, "norwegian": stemmer.Norwegian,
	"russian": stemmer.Russian, "spanish": stemmer.Spanish, "swedish": stemmer.Swedish,
}
var forms = map[string]xnorm.Form{"nfc": xnorm.NFC, "nfd": xnorm.NFD, "nfkc": xnorm.NFKC, "nfkd": xnorm.NFKD}
var formFilters = map[string]jargon.Filter{"nfc": norm.NFC, "nfd": norm.NFD, "nfkc": norm.NFKC, "nfkd": norm.NFKD}

const (
	soIgnore  = " -./"
	nbaIgnore = " .'-–"
)

func mapFn(name string) func(*jargon.Token) *jargon.Token {
	change := func(t *jargon.Token, s string) *jargon.Token {
		if s == t.String() {
			return t
		}
		return jargon.NewToken(s, true)
	}
	switch name {
	case "id":
		return func(t *jargon.Token) *jargon.Token { return t }
	case "lower":
		return func(t *jargon.Token) *jargon.Token { return change(t, strings.ToLower(t.String())) }
	case "upper":
		return func(t *jargon.Token) *jargon.Token { return change(t, strings.ToUpper(t.String())) }
	case "rev":
		return func(t *jargon.Token) *jargon.Token {
			c := cps(t.String())
			for i, j := 0, len(c)-1; i < j; i, j = i+1, j-1 {
				c[i], c[j] = c[j], c[i]
			}
			return change(t, fromCps(c))
		}
	case "twice":
		return func(t *jargon.Token) *jargon.Token { return jargon.NewToken(t.String()+t.String(), true) }
	case "mark":
		return func(t *jargon.Token) *jargon.Token { return jargon.NewToken(t.String(), true) }
	}
	panic("unknown map function " + name)
}

func predFn(name string) func(*jargon.Token) bool {
	switch name {
	case "punct":
		return (*jargon.Token).IsPunct
	case "space":
		return (*jargon.Token).IsSpace
	case "even":
		return func(t *jargon.Token) bool { return len(cps(t.String()))%2 == 0 }
	case "true":
		return func(t *jargon.Token) bool { return true }
	case "false":
		return func(t *jargon.Token) bool { return false }
	}
	panic("unknown predicate " + name)
}

// real is the filter of the code under test
func (d FD) real() jargon.Filter {
	switch d.Op {
	case "syn":
		m := map[string]string{}
		for _, e := range d.Ent {
			m[e.Syn] = e.Can
		}
		return synonyms.NewFilter(m, d.Ic, []rune(d.Ign))
	case "stack":
		return stackoverflow.Tags
	case "nba":
		return nba.CurrentPlayers
	case "con":
		return contractions.Expand
	case "sig":
		return sigil.NewFilter(d.Sigil, d.legal())
	case "handles":
		return twitter.Handles
	case "hashtags":
		return twitter.Hashtags
	case "stop":
		ws := append([]string{}, d.Words...)
		f := stopwords.NewFilter(ws, d.Ic)
		for i := range ws { // the slice is the caller's
			ws[i] = "a"
		}
		return f
	case "words":
		return (*jargon.TokenStream).Words
	case "lemmas":
		return (*jargon.TokenStream).Lemmas
	case "distinct":
		return (*jargon.TokenStream).Distinct
	case "where":
		return func(s *jargon.TokenStream) *jargon.TokenStream { return s.Where(predFn(d.Pred)) }
	case "map":
		fs := []func(*jargon.Token) *jargon.Token{}
		for _, n := range d.Fns {
			fs = append(fs, mapFn(n))
		}
		return mapper.NewFilter(fs...)
	case "ascii":
		return ascii.Fold
	}
	if f, ok := formFilters[d.Op]; ok {
		return f
	}
	if strings.HasPrefix(d.Op, "stem-") {
		return stemFilters[d.Op[5:]]
	}
	panic("unknown filter " + d.Op)
}

func (d FD) legal() func(string) bool {
	switch d.Legal {
	case "list":
		m := map[string]bool{}
		for _, n := range d.Names {
			m[n] = true
		}
		return func(s string) bool { return m[s] }
	case "any":
		return func(string) bool { return true }
	case "none":
		return func(string) bool { return false }
	}
	panic("no function for " + d.Legal)
}

// cut a dictionary text into tokens by the word boundaries, without the code under test
func cut(s string) []ST {
	r := []ST{}
	seg := words.NewSegmenter([]byte(s))
	for seg.Next() {
		r = append(r, mkST(string(seg.Bytes()), false))
	}
	return r
}

var dictCache = map[string][]Entry{}

func shipped(name string) []Entry {
	if dictCache[name] == nil {
		var m map[string]string
		loadJSON(name, &m)
		for _, k := range sortedKeys(m) {
			dictCache[name] = append(dictCache[name], Entry{k, m[k]})
		}
	}
	return dictCache[name]
}

type M = map[string]interface{}

// model is the filter of the specification (Rules.tla); values are those it may have to map
func (d FD) model(t *Tab, values []string) M {
	syn := func(ent []Entry, ic bool, ign string) M {
		es := []M{}
		for _, e := range ent {
			ts := []Tok{}
			for _, s := range cut(e.Syn) {
				ts = append(ts, t.enc(s))
			}
			es = append(es, M{"syn": ts, "can": t.ids(e.Can)})
		}
		return M{"op": "syn", "ent": es, "ic": ic, "ign": t.ids(ign)}
	}
	lists := func(ss []string) [][]int {
		r := [][]int{}
		for _, s := range ss {
			r = append(r, t.ids(s))
		}
		return r
	}
	table := func(fn string, f func(string) string) M {
		tab := []M{}
		seen := map[string]bool{}
		for _, v := range values {
			if w := f(v); w != v && !seen[v] {
				seen[v] = true
				tab = append(tab, M{"a": t.ids(v), "b": t.ids(w)})
			}
		}
		return M{"op": "map", "fns": []string{fn}, "tab": tab}
	}
	switch d.Op {
	case "syn":
		return syn(d.Ent, d.Ic, d.Ign)
	case "stack":
		return syn(shipped("stackoverflow.json"), true, soIgnore)
	case "nba":
		return syn(shipped("nba.json"), true, nbaIgnore)
	case "con":
		tab := []M{}
		for _, e := range shipped("contractions.json") {
			tab = append(tab, M{"con": t.ids(e.Syn), "exp": t.ids(e.Can)})
		}
		return M{"op": "con", "tab": tab, "quote": t.char('\'')}
	case "sig":
		return M{"op": "sig", "sigil": t.ids(d.Sigil), "legal": d.Legal, "names": lists(d.Names)}
	case "handles":
		return M{"op": "sig", "sigil": t.ids("@"), "legal": "handle", "names": [][]int{}}
	case "hashtags":
		return M{"op": "sig", "sigil": t.ids("#"), "legal": "hashtag", "names": [][]int{}}
	case "stop":
		return M{"op": "stop", "words": lists(d.Words), "ic": d.Ic}
	case "words", "lemmas", "distinct":
		return M{"op": d.Op}
	case "where":
		return M{"op": "where", "pred": d.Pred}
	case "map":
		return M{"op": "map", "fns": d.Fns, "tab": []M{}}
	case "ascii":
		return M{"op": "map", "fns": []string{"fold"}, "tab": []M{}}
	}
	if f, ok := forms[d.Op]; ok {
		return table("norm", func(s string) string { return f.String(s) })
	}
	if strings.HasPrefix(d.Op, "stem-") {
		st := stems[d.Op[5:]]
		return table("stem", func(s string) string {
			if w := mkST(s, false); w.P || w.S || !utf8.ValidString(s) && false {
				return s
			}
			return st(s, true)
		})
	}
	panic("unknown filter " + d.Op)
}
