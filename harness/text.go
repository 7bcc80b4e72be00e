package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/clipperhouse/jargon"
)

// ---- word break classes (data/wordbreak.json: the Unicode character database) ----

type wbData struct {
	names  []string
	ranges map[string][][2]int
	size   map[string]int
	flat   []wbRange
}
type wbRange struct {
	lo, hi int
	cls    string
}

var wbCache *wbData

func wb() *wbData {
	if wbCache == nil {
		d := &wbData{size: map[string]int{}}
		loadJSON("wordbreak.json", &d.ranges)
		for n, rs := range d.ranges {
			d.names = append(d.names, n)
			for _, r := range rs {
				d.size[n] += r[1] - r[0] + 1
				d.flat = append(d.flat, wbRange{r[0], r[1], n})
			}
		}
		sort.Strings(d.names)
		sort.Slice(d.flat, func(i, j int) bool { return d.flat[i].lo < d.flat[j].lo })
		wbCache = d
	}
	return wbCache
}

func (d *wbData) class(cp int) string {
	if cp >= badByte {
		return "OT"
	}
	i := sort.Search(len(d.flat), func(i int) bool { return d.flat[i].hi >= cp })
	if i < len(d.flat) && d.flat[i].lo <= cp {
		return d.flat[i].cls
	}
	return "" // not in the data: do not use
}

// usual characters of each class, preferred to arbitrary ones
var usual = map[string]string{
	"AL": "abcdefgstxyzABCXYZéñµжяΩαßſ", "HL": "אבש", "NU": "0123456789٣५", "KA": "カタァー", "ML": ":··",
	"MB": ".․‘’", "MN": ",;،", "SQ": "'", "DQ": "\"", "EX": "_‿", "WS": "   　", "CR": "\r", "LF": "\n",
	"NL": "\v\f\u0085\u2028\u2029", "XT": "\u0301\u0308\u0300\u20dd", "FO": "\u00ad\u200e\ufeff", "ZW": "\u200d",
	"RI": "🇦🇧🇺🇸", "EP": "😀👍☠©", "AP": "ℹⓂ", "OT": "#@-/+!?%&$()[]{}<>*=~^|\\世界中的のひ\t\x00\u00a0",
}

func (d *wbData) random(cls string, r *rand.Rand) string {
	switch {
	case cls == "TR":
		s := pick(r, "é", "世", "€", "😀", "\u0301")
		return s[:1+r.Intn(len(s)-1)]
	case cls == "OT" && r.Intn(6) == 0:
		return pick(r, "\xff", "\xfe", "\x80", "\xbf", "\xc0")
	case cls == "OT" && r.Intn(6) == 0:
		return pick(r, "\x00", "\x00", "\x1a", "\x04", "\x1b", "\x7f", "\ufffd", "\b")
	case r.Intn(3) > 0:
		rs := []rune(usual[cls])
		return string(rs[r.Intn(len(rs))])
	}
	n := r.Intn(d.size[cls])
	for _, g := range d.ranges[cls] {
		if k := g[1] - g[0] + 1; n < k {
			return string(rune(g[0] + n))
		} else {
			n -= k
		}
	}
	panic("class")
}

// classes of a text's characters, and their lengths in bytes; ok is false if the data is silent about one
func (d *wbData) classes(s string) (cls []string, size []int, ok bool) {
	ok = true
	for i := 0; i < len(s); {
		if !utf8.FullRuneInString(s[i:]) {
			cls, size = append(cls, "TR"), append(size, len(s)-i)
			return
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		c := "OT"
		if r != utf8.RuneError || n > 1 {
			c = d.class(int(r))
		} else if b := s[i]; b >= 0xc2 && b < 0xf8 {
			ok = false // an ill-formed sequence
		}
		if c == "" {
			ok = false
			c = "OT"
		}
		cls, size = append(cls, c), append(size, n)
		i += n
	}
	return
}

// ---- replaying texts enumerated by the specification (GenWordBreak) ----

type wbCase struct {
	T []string `json:"t"`
	K []int    `json:"k"`
}

func readLines(path string, f func(line []byte)) {
	in, err := os.Open(path)
	die(err)
	defer in.Close()
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		f(sc.Bytes())
	}
	die(sc.Err())
}

func tokenizeAll(rd io.Reader, html bool) Run {
	var s *jargon.TokenStream
	if html {
		s = jargon.TokenizeHTML(rd)
	} else {
		s = jargon.Tokenize(rd)
	}
	return drain(s, nil, 1<<22, errRead)
}

func wbCases(path string, not ...string) []wbCase {
	cases := []wbCase{}
	readLines(path, func(l []byte) {
		var c wbCase
		die(json.Unmarshal(l, &c))
		for _, n := range not {
			if len(c.T) > 0 && c.T[len(c.T)-1] == n {
				return
			}
		}
		cases = append(cases, c)
	})
	return cases
}

// classes of which one character can be any number (GenWordBreak!Stretch)
var stretchy = map[string]bool{"AL": true, "HL": true, "NU": true, "KA": true, "EX": true, "WS": true, "XT": true, "FO": true}

// instance is a text of the given classes, and its tokens
func (d *wbData) instance(c wbCase, r *rand.Rand) (string, []ST) { return d.stretched(c, 0, r) }

// stretched is an instance in which one character is repeated, up to a number of bytes
func (d *wbData) stretched(c wbCase, max int, r *rand.Rand) (string, []ST) {
	want := []ST{}
	pos := 0
	var text strings.Builder
	cp := make([]string, len(c.T))
	for j, cl := range c.T {
		cp[j] = d.random(cl, r)
	}
	if max > 0 {
		can := []int{}
		for j, cl := range c.T {
			if stretchy[cl] {
				can = append(can, j)
			}
		}
		if len(can) > 0 {
			j := can[r.Intn(len(can))]
			cp[j] = strings.Repeat(cp[j], 1+max/len(cp[j]))
		}
	}
	for _, k := range c.K {
		v := strings.Join(cp[pos:pos+k], "")
		want = append(want, mkST(v, false))
		text.WriteString(v)
		pos += k
	}
	return text.String(), want
}

func cmdTokReplay(a args) {
	cases := wbCases(a.in)
	d := wb()
	rep := parallel(len(cases)*a.n, a.seed, func(i int, r *rand.Rand, rep *Report) {
		c := cases[i%len(cases)]
		s, want := d.instance(c, r)
		pre := 0
		if i%16 == 0 && len(c.T) > 0 && c.T[0] != "TR" { // let the text lie across the end of the reader's buffer; line feeds stand alone (a cut-off character belongs to what is before it)
			pre = []int{4096, 8192, 4096 * 3}[r.Intn(3)] - r.Intn(len(s)+2)
			s = strings.Repeat("\n", pre) + s
		}
		begin(s)
		for mode := 0; mode < nModes; mode++ {
			if mode > 2 && i%4 != 0 && pre == 0 {
				break
			}
			if pre > 0 && mode != 0 && mode != 3 && mode != 6 {
				continue
			}
			got := tokenizeAll(modeReader(mode, []byte(s), r), false)
			rep.Cases++
			rep.Steps += len(got.Out)
			where := M{"text": s[pre:], "after": pre, "mode": mode, "classes": strings.Join(c.T, " ")}
			if pre > 0 {
				if len(got.Out) >= pre {
					got.Out = got.Out[pre:]
				}
			}
			checkText(rep, where, s[pre:], want, got)
		}
		if i%2 == 0 {
			for kind := 0; kind < nKinds && (kind == 0 || i%8 == 0); kind++ {
				got := drain(kindStream(kind, s[pre:], false), nil, 1<<22, errRead)
				rep.Cases++
				rep.Steps += len(got.Out)
				checkText(rep, M{"text": s[pre:], "kind of reader": kind, "classes": strings.Join(c.T, " ")}, s[pre:], want, got)
			}
		}
		if i%64 == 0 {
			max := []int{100, 1000, 4095, 4096, 5000, 16000, 33000, 60000}[r.Intn(8)] + r.Intn(9)
			s, want := d.stretched(c, max, r)
			mode := []int{0, 3, 6, 7}[r.Intn(4)]
			c1 := modeReader(mode, []byte(s), r)
			if mode == 7 {
				c1.size = randSize(r, 3000)
			}
			got := tokenizeAll(c1, false)
			rep.Cases++
			rep.Steps += len(got.Out)
			checkText(rep, M{"classes": strings.Join(c.T, " "), "one character repeated to bytes": max, "mode": mode}, s, want, got)
		}
		rep.sample(M{"classes": c.T, "text": s[pre:], "after_line_feeds": pre, "tokens": vals(want)})
	})
	writeJSON(a.out, rep)
}

// checkText compares a tokenization with what the specification says
func checkText(rep *Report, where M, text string, want []ST, got Run) {
	if got.Fin != "eof" {
		rep.fail("C01 C02", "tokenizing ends with "+got.Fin+" "+got.Msg, where, show(want), show(got.Out))
		return
	}
	var b strings.Builder
	for _, t := range got.Out {
		b.WriteString(t.V)
		if t.V == "" {
			rep.fail("C01", "empty token", where, show(want), show(got.Out))
		}
	}
	if b.String() != text {
		rep.fail("C01", "text is not preserved", where, text, b.String())
	}
	same := len(want) == len(got.Out)
	for i := 0; same && i < len(want); i++ {
		same = want[i].V == got.Out[i].V
	}
	if !same {
		rep.fail("C02", "wrong boundaries", where, show(want), show(got.Out))
	}
	for _, t := range got.Out {
		w := mkST(t.V, t.L)
		if w != t {
			rep.fail("C03", "wrong flags", where, show([]ST{w}), show([]ST{t}))
		}
		if t.L {
			rep.fail("C24", "lemma from a tokenizer", where, nil, show([]ST{t}))
		}
	}
}

// ---- recording tokenizations of random texts, with the reads (TraceScan) ----

type scanCase struct {
	Cls []int  `json:"cls"` // class of each character delivered
	Ev  []int  `json:"ev"`  // n > 0: a read completing n characters; 0: end of data; -n: a token of n characters; -99999: not a token of the text
	Fin string `json:"fin"`
	Flt bool   `json:"flt"`
	why string
}

func cmdScanRecord(a args) {
	d := wb()
	num := map[string]int{}
	names := append(append([]string{}, d.names...), "TR")
	for i, n := range names {
		num[n] = i + 1
	}
	r := rand.New(rand.NewSource(a.seed))
	type rec struct {
		Text string `json:"text"`
		Note string `json:"note"`
	}
	cases := []scanCase{}
	notes := []rec{}
	mono := func(cl string, n int) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(d.random(cl, r))
		}
		return b.String()
	}
	add := func(text string, c *chunked, note string) {
		cls, size, ok := d.classes(text)
		if !ok {
			return
		}
		begin(M{"text": text, "note": note})
		sc := scanCase{Flt: c.err != nil}
		for _, x := range cls {
			sc.Cls = append(sc.Cls, num[x])
		}
		if sc.Cls == nil {
			sc.Cls = []int{}
		}
		ends := make([]int, len(size)+1)
		for i, n := range size {
			ends[i+1] = ends[i] + n
		}
		at, bytes, tokb := 0, 0, 0
		c.onRead = func(n int) {
			if n < 0 {
				sc.Ev = append(sc.Ev, (-n-1)*1000000)
				return
			}
			bytes += n
			k := 0
			for at+k < len(size) && ends[at+k+1] <= bytes {
				k++
			}
			at += k
			if k > 0 {
				sc.Ev = append(sc.Ev, k)
			}
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					sc.Fin, sc.why = "panic", fmt.Sprint(e)
				}
			}()
			s := jargon.Tokenize(c)
			for {
				t, err := s.Next()
				if err != nil {
					sc.Fin, sc.why = "otherr", err.Error()
					if err == c.err {
						sc.Fin = "err"
					}
					return
				}
				if t == nil {
					sc.Fin = "eof"
					return
				}
				v := t.String()
				k := 0
				for p, q := tokb, tokb; k == 0 && q <= len(text) && q-p <= len(v); q++ {
					if q-p == len(v) && text[p:q] == v {
						i := sort.SearchInts(ends, p)
						j := sort.SearchInts(ends, q)
						if i < len(ends) && j < len(ends) && ends[i] == p && ends[j] == q {
							k = j - i
						}
					}
				}
				tokb += len(v)
				if k == 0 {
					k = 99999
				}
				sc.Ev = append(sc.Ev, -k)
				if len(sc.Ev) > 20*len(text)+100 {
					sc.Fin = "more"
					return
				}
			}
		}()
		cases = append(cases, sc)
		notes = append(notes, rec{text, note + " fin=" + sc.Fin + " " + sc.why})
	}
	all := append([]string{}, d.names...)
	common := []string{"AL", "AL", "AL", "WS", "WS", "NU", "MB", "MN", "ML", "SQ", "OT", "LF", "CR", "EX"}
	gen := func(n int) string {
		var b strings.Builder
		pool := all
		if r.Intn(2) == 0 {
			pool = common
		}
		if r.Intn(3) == 0 { // a few classes only
			p := []string{}
			for i := 0; i < 2+r.Intn(3); i++ {
				p = append(p, all[r.Intn(len(all))])
			}
			pool = p
		}
		for i := 0; i < n; i++ {
			cl := pool[r.Intn(len(pool))]
			k := 1
			if r.Intn(10) == 0 {
				k = 1 + r.Intn(8)
			}
			b.WriteString(mono(cl, k))
			if r.Intn(20) == 0 {
				b.WriteString(prose[r.Intn(len(prose))])
			}
		}
		return b.String()
	}
	for i := 0; i < a.n; i++ {
		n := r.Intn(40)
		if i%25 == 0 {
			n = 200 + r.Intn(600)
		}
		text := gen(n)
		if i%25 == 1 { // across the buffer size
			text = strings.Repeat(gen(30)+" ", 1+4200/40)
			text = text[r.Intn(10):]
			if len(text) > 4600 {
				text = strings.ToValidUTF8(text[:4600], "")
			}
		}
		if r.Intn(12) == 0 {
			text += d.random("TR", r)
		}
		add(text, modeReader(r.Intn(nModes), []byte(text), r), "text")
		if i%3 == 0 && len(text) > 0 { // reading fails somewhere
			cut := r.Intn(len(text) + 1)
			c := modeReader([]int{0, 1, 2, 3, 4, 6}[r.Intn(6)], []byte(text[:cut]), r)
			c.err = errRead
			add(text[:cut], c, "fails")
		}
	}
	// long tokens, short of the limit
	for _, cl := range []string{"WS", "AL", "NU", "KA", "XT", "EX"} {
		n := 1500
		if cl == "XT" {
			n = 200
		}
		text := "a, " + mono(cl, n) + "b. c"
		add(text, modeReader(0, []byte(text), r), "long token of "+cl)
		text = "a, " + mono(cl, 150) + "b. c"
		add(text, modeReader(2, []byte(text), r), "long token of "+cl)
	}
	for _, p := range prose {
		add(p, modeReader(r.Intn(nModes), []byte(p), r), "prose")
	}
	writeJSON(a.out, M{"names": names, "cases": cases, "notes": notes, "slack": a.k})
}

var prose = []string{
	"I can't believe node.js 3.5 isn't $1,000.00! Don’t you? ", "C++ and C# and F#, .NET 4.5 / ASP.NET MVC. ",
	"Ruby on Rails (RoR) & React.js; e-mail: foo_bar@example.com #golang @clipperhouse ",
	"世界 カタカナ ひらがな 한국어 ภาษาไทย ", "🇺🇸🇬🇧 👩‍👩‍👧 👍🏽 ", "naïve café, Ångström — “quotes” … ",
	"a\tb\r\nc\n\nd  e\u00a0f\u2003g ", "שלום צה\"ל ג'ירפה ", "1.2.3.4:80 12:30 a.b.c x:y ", "_foo_ __bar__ a_b_1 ",
}
