package main

import (
	"encoding/json"
	"math/rand"
	"strings"

	"github.com/clipperhouse/jargon"
)

var lexemes = map[string][]string{
	"w":   {"hello", "Café", "node.js", "C", "don't", "世界", "42", "a", "x_y", "😀", "Ruby", "\x00", "\xff", "naïve", "the"},
	"s":   {" ", "  ", "\t", "\u00a0", " \t "},
	"e":   {"&amp;", "&lt;b&gt;", "&nbsp;", "&#39;", "&eacute;", "&", "&#x41;", "&notanentity;", "&amp"},
	"lt":  {"< ", "<3", "<=", "<.", "<\n", "<1>", "<>"},
	"p":   {".", ",", "!", ">", "\"", "'", "--", "->", "…", "/>", "]]>", "=", "-->"},
	"n":   {"\n", "\r\n", "\n\n", "\r"},
	"o":   {"<p>", "<P>", "<a href=\"x>y\">", "<div class='a' ID=b>", "<b\n  c = \"d\" >", "<h1 title=\"a &amp; b\">", "<img src=x alt=\"\">", "<td nowrap>", "<a b=c b='d' B>", "<custom-tag é=\"ü\">", "<a href=x/y/>", "<p\t>", "<svg viewBox=\"0 0 1 1\">", "<scripty>", "<x:y>", "<pre>", "<A HREF='q'>", "<q a=\"\r\n\">", "<q a=\"\x00\">"},
	"c":   {"</p>", "</P>", "</a >", "</div\n>", "</h1 x=\"y\">", "</span>", "</b\t>", "</Foo>", "</scripty>"},
	"v":   {"<br/>", "<br />", "<BR>", "<hr>", "<img src=\"a>b\" />", "<input disabled/>", "<x/>"},
	"m":   {"<!-- a comment -->", "<!---->", "<!-- <p> -- x > -->", "<!--\n-->", "<!--a--b-->", "<!-->", "<!--->", "<!-- é &amp; -->", "<!-- a --!>"},
	"d":   {"<!DOCTYPE html>", "<!doctype HTML PUBLIC \"-//W3C//DTD HTML 4.01//EN\" \"http://www.w3.org/TR/html4/strict.dtd\">", "<!Doctype  html >"},
	"q":   {"<?xml version=\"1.0\"?>", "<?php echo ?>", "<![CDATA[x]]>", "<!x>", "<!>"},
	"z":   {"</ x>", "</1>", "</\n>", "</é>"},
	"sc":  {"<script>", "<SCRIPT>", "<script src=\"a.js\" async>", "<script type='text/javascript'\n>", "<Script defer>"},
	"xs":  {"</script>", "</SCRIPT>", "</script >", "</Script\n>", "</script x=y>"},
	"st":  {"<style>", "<STYLE>", "<style type=\"text/css\">", "<style media='a>b'>"},
	"xt":  {"</style>", "</STYLE>", "</style\t>"},
	"ti":  {"<title>", "<TITLE>", "<title lang=en>"},
	"xi":  {"</title>", "</Title >"},
	"ta":  {"<textarea>", "<TEXTAREA rows=3>", "<textarea\nname='x'>"},
	"xa":  {"</textarea>", "</TextArea>"},
	"cut": {"<p", "<a href=\"x", "</p", "<img src='a>b ", "<b c", "<table border=1 ", "<a href=", "</scr", "<p/", "<p\x00", "<a b=\x00", "</p\x00\x00", "<p \x01", "<b x='\x00", "<p\r", "<i\n\n", "<u\ufeff"},
	"cum": {"<!-- cut off", "<!--", "<!-- a --", "<!-- x -", "<!-- x\x00", "<!--\r\n", "<!-- é\x7f", "<!--\x00\x00 "},
}

// a document of the given lexemes
func docOf(ks []string, r *rand.Rand) []string {
	ps := []string{}
	mode := ""
	for _, k := range ks {
		v := lexemes[k]
		s := v[r.Intn(len(v))]
		if r.Intn(3) == 0 {
			if g := spelling(k, r); g != "" && (mode == "" || k == map[string]string{"sc": "xs", "st": "xt", "ti": "xi", "ta": "xa"}[mode]) {
				s = g
			}
		}
		// no comment opens in a script: those have rules of their own
		if mode == "sc" && (k == "m" || k == "cum") {
			s = pick(r, "// x", "/* <p> */", "if (a < b && c > d) {", "document.write('<b>')")
		}
		if mode != "" && k == "cut" { // as the last thing in raw text: not the beginning of the end tag
			s = pick(r, "<p", "<a href=\"x", "</p", "<")
		}
		if mode == "" {
			switch k {
			case "sc", "st", "ti", "ta":
				mode = k
			}
		} else if k == map[string]string{"sc": "xs", "st": "xt", "ti": "xi", "ta": "xa"}[mode] {
			mode = ""
		}
		ps = append(ps, s)
	}
	return ps
}

// elements whose content is not treated in a special way by HTML
var elements = strings.Fields("a abbr address area article aside audio b base bdi bdo blockquote body br button canvas caption cite code col colgroup data datalist dd del details dfn dialog div dl dt em embed fieldset figcaption figure font footer form frame frameset h1 h2 h3 h4 h5 h6 head header hgroup hr html i image img input ins isindex kbd keygen label legend li link listing main map mark marquee math menu meta meter nav nobr object ol optgroup option output p param picture pre progress q rp ruby s samp section select slot small source span strike strong sub summary sup svg table tbody td template tfoot th thead time tr track tt u ul var video wbr my-element o:p a1 scripts styles titles")

func mixed(s string, r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToUpper(s[:1]) + s[1:]
	case 2:
		b := []byte(s)
		for i := range b {
			if b[i] >= 'a' && b[i] <= 'z' && r.Intn(2) == 0 {
				b[i] -= 32
			}
		}
		return string(b)
	}
	return s
}

func attributes(r *rand.Rand) string {
	n := r.Intn(4)
	if r.Intn(4) == 0 {
		n = r.Intn(14)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(pick(r, " ", " ", " ", "  ", "\n", "\t", "\r\n", "\f", " \n\t "))
		b.WriteString(mixed(pick(r, "class", "id", "href", "data-x", "a", "b", "title", "é", "on:click", "async", "disabled", "xml:lang", "@x", "[y]"), r))
		eq := pick(r, "=", "=", "=", " = ", "=\n", " =")
		switch r.Intn(4) {
		case 0:
			b.WriteString(eq + "\"" + pick(r, "", "x", "a b", "x>y", "it's", "&amp;", "&lt;p&gt;", "é\n", "</script>", "<p>", "\t", "a=b", "/") + "\"")
		case 1:
			b.WriteString(eq + "'" + pick(r, "", "x", "a b", "x>y", "\"q\"", "&#39;", "<!--", "-->", "</style>", "世界", "//") + "'")
		case 2:
			b.WriteString(eq + pick(r, "x", "1", "a/b", "#", "&amp;", "é", "x\"y"))
		}
	}
	return b.String()
}

// spelling makes up another spelling of a lexeme
func spelling(k string, r *rand.Rand) string {
	name := elements[r.Intn(len(elements))]
	end := pick(r, "", "", " ", "\n", "\t")
	switch k {
	case "o":
		return "<" + mixed(name, r) + attributes(r) + end + ">"
	case "v":
		return "<" + mixed(name, r) + attributes(r) + pick(r, "/>", " />", "\n/>", " / >")
	case "c":
		return "</" + mixed(name, r) + attributes(r) + end + ">"
	case "cut":
		return "<" + pick(r, "", "", "/") + mixed(name, r) + attributes(r) + pick(r, "", " ", "\n", "\r", " \x00", "\x00", "\x00\x00\x00", "\x01", "\x7f", " a=", " a='<b>", " a=\"x>\x00", " é", "\u2028", "/", " /")
	case "sc", "st", "ti", "ta":
		return "<" + mixed(map[string]string{"sc": "script", "st": "style", "ti": "title", "ta": "textarea"}[k], r) + attributes(r) + end + ">"
	case "xs", "xt", "xi", "xa":
		return "</" + mixed(map[string]string{"xs": "script", "xt": "style", "xi": "title", "xa": "textarea"}[k], r) + end + ">"
	case "m":
		var b strings.Builder
		for i := r.Intn(8); i > 0; i-- {
			b.WriteString(pick(r, "a", " ", "-", "<p>", ">", "é", "\n", "&amp;", "--", "[if IE]", "</p>", "\"", "<script>"))
		}
		if x := b.String(); !strings.HasPrefix(x, ">") && !strings.HasPrefix(x, "->") && !strings.Contains(x+"--", "-->") && !strings.Contains("--"+x+"-", "--!>") && !strings.Contains(x, "<!--") && !strings.HasSuffix(x, "-") && !strings.HasSuffix(x, "<!") {
			return "<!--" + x + "-->"
		}
	}
	return ""
}

type htmlLine struct {
	D []string            `json:"d"`
	P [][]json.RawMessage `json:"p"`
}

// closed: the document leaves no element open and is not cut off
func closed(ks []string) bool {
	mode := ""
	for _, k := range ks {
		if k == "cut" || k == "cum" {
			return false
		}
		if mode == "" {
			switch k {
			case "sc", "st", "ti", "ta":
				mode = k
			}
		} else if k == map[string]string{"sc": "xs", "st": "xt", "ti": "xi", "ta": "xa"}[mode] {
			mode = ""
		}
	}
	return mode == ""
}

func htmlPieces(path string) []htmlLine {
	ls := []htmlLine{}
	readLines(path, func(b []byte) {
		var l htmlLine
		die(json.Unmarshal(b, &l))
		if closed(l.D) {
			ls = append(ls, l)
		}
	})
	return ls
}

// htmlPiece is a document with its tokens; now and then there is something long in it
func htmlPiece(l htmlLine, r *rand.Rand) piece {
	if r.Intn(400) == 0 {
		n := 1 << uint(8+r.Intn(11))
		x := strings.Repeat(pick(r, "x", "a b", "é", "<p>", "1, "), n/3)
		switch r.Intn(4) {
		case 0:
			return piece{"<script>" + x + "</script>", []ST{{"<script>", true, false, false}, {x, false, false, false}, {"</script>", true, false, false}}}
		case 1:
			return piece{"<!--" + x + "-->", []ST{{"<!--" + x + "-->", true, false, false}}}
		case 2:
			return piece{"<a href='" + x + "'>", []ST{{"<a href='" + x + "'>", true, false, false}}}
		default:
			ts := []ST{}
			for i := 0; i < n; i++ {
				ts = append(ts, mkST("ab", false), mkST(" ", false))
			}
			return piece{strings.Repeat("ab ", n), ts}
		}
	}
	doc, want, _, ok := l.instance(r)
	if !ok {
		return piece{}
	}
	return piece{doc, want}
}

// instance is a document of the given lexemes, its tokens, and the property each is about
func (l htmlLine) instance(r *rand.Rand) (doc string, want []ST, own []string, ok bool) {
	ps := docOf(l.D, r)
	doc = strings.Join(ps, "")
	begin(doc)
	want, own = []ST{}, []string{}
	at := 0
	for _, p := range l.P {
		var k string
		var n int
		die(json.Unmarshal(p[0], &k))
		die(json.Unmarshal(p[1], &n))
		v := strings.Join(ps[at:at+n], "")
		at += n
		switch k {
		case "mark":
			want = append(want, ST{v, true, false, false})
			own = append(own, "C04")
		case "raw":
			want = append(want, ST{v, false, false, false})
			own = append(own, "C05")
		case "text":
			ts, err := jargon.TokenizeString(v).ToSlice()
			if err != nil {
				return
			}
			for _, t := range ts {
				want = append(want, obs(t))
				own = append(own, "C05")
			}
		}
	}
	return doc, want, own, true
}

func cmdHtml(a args) {
	lines := [][]byte{}
	readLines(a.in, func(l []byte) { lines = append(lines, append([]byte{}, l...)) })
	rep := parallel(len(lines)*a.n, a.seed, func(i int, r *rand.Rand, rep *Report) {
		var l htmlLine
		die(json.Unmarshal(lines[i%len(lines)], &l))
		doc, want, own, ok := l.instance(r)
		if !ok {
			return
		}
		for mode := 0; mode < nModes; mode++ {
			if mode > 1 && (i+mode)%5 != 0 {
				continue
			}
			got := tokenizeAll(modeReader(mode, []byte(doc), r), true)
			rep.Cases++
			rep.Steps += len(got.Out)
			where := M{"document": doc, "mode": mode, "lexemes": strings.Join(l.D, " ")}
			if got.Fin != "eof" {
				rep.fail("C04 C05", "ends with "+got.Fin+" "+got.Msg, where, show(want), show(got.Out))
				continue
			}
			if all := strings.Join(vals(got.Out), ""); all != doc {
				rep.fail("C04", "document is not preserved", where, doc, all)
			}
			for _, t := range got.Out {
				if t.L {
					rep.fail("C24", "lemma from a tokenizer", where, nil, show([]ST{t}))
				}
			}
			n := 0
			for n < len(want) && n < len(got.Out) && want[n] == got.Out[n] {
				n++
			}
			if n < len(want) || n < len(got.Out) {
				prop := "C04 C05"
				if n < len(want) && n < len(got.Out) {
					prop = own[n]
					// a text cut differently, or markup that came apart?
					if strings.HasPrefix(want[n].V, got.Out[n].V) == false && strings.HasPrefix(got.Out[n].V, want[n].V) == false {
						prop = "C04 C05"
					}
					if own[n] == "C05" && got.Out[n].V != want[n].V && len(got.Out[n].V) > len(want[n].V) {
						prop = "C04 C05"
					}
				}
				rep.fail(prop, "wrong tokens", where, show(want), show(got.Out))
			}
		}
		if i%8 == 0 {
			for kind := 1; kind < nKinds; kind++ {
				got := drain(kindStream(kind, doc, true), nil, 1<<22, errRead)
				rep.Cases++
				rep.Steps += len(got.Out)
				where := M{"document": doc, "kind of reader": kind, "lexemes": strings.Join(l.D, " ")}
				if all := strings.Join(vals(got.Out), ""); got.Fin != "eof" || all != doc {
					rep.fail("C04", "document is not preserved", where, doc, all)
				} else if !sameST(want, got.Out) {
					rep.fail("C04 C05", "wrong tokens", where, show(want), show(got.Out))
				}
			}
		}
		rep.sample(M{"lexemes": l.D, "document": doc, "tokens": show(want)})
	})
	writeJSON(a.out, rep)
}
