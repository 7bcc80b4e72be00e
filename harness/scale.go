package main

import (
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"hash/fnv"
	"math/rand"
	"strconv"
	"strings"

	"github.com/clipperhouse/jargon"
)

// hashes that are used for words
var hashes = map[string]func(string) uint32{
	"crc32":      func(s string) uint32 { return crc32.ChecksumIEEE([]byte(s)) },
	"castagnoli": func(s string) uint32 { return crc32.Checksum([]byte(s), crc32.MakeTable(crc32.Castagnoli)) },
	"adler":      func(s string) uint32 { return adler32.Checksum([]byte(s)) },
	"fnv32":      func(s string) uint32 { h := fnv.New32(); h.Write([]byte(s)); return h.Sum32() },
	"fnv32a":     func(s string) uint32 { h := fnv.New32a(); h.Write([]byte(s)); return h.Sum32() },
	"fnv64":      func(s string) uint32 { h := fnv.New64a(); h.Write([]byte(s)); return uint32(h.Sum64()) },
	"times31": func(s string) uint32 {
		h := uint32(0)
		for i := 0; i < len(s); i++ {
			h = h*31 + uint32(s[i])
		}
		return h
	},
	"djb2": func(s string) uint32 {
		h := uint32(5381)
		for i := 0; i < len(s); i++ {
			h = h*33 + uint32(s[i])
		}
		return h
	},
}

// twins are words that such a hash does not tell apart, k pairs for each
func twins(r *rand.Rand, k, tries int) [][2]string {
	ps := [][2]string{}
	for _, n := range sortedKeys(hashes) {
		seen := map[uint32]string{}
		for i, j := 0, 0; j < k && i < tries; i++ {
			s := "w" + strconv.FormatInt(r.Int63n(1<<40), 36)
			h := hashes[n](s)
			if o, ok := seen[h]; ok && o != s {
				ps = append(ps, [2]string{o, s})
				j++
			}
			seen[h] = s
		}
	}
	return ps
}

// ---- Distinct on long streams (TraceDistinct) ----

func cmdDistinct(a args) {
	r := rand.New(rand.NewSource(a.seed*31 + 7))
	type dcase struct {
		In  []int  `json:"in"`
		Out []int  `json:"out"`
		Fin string `json:"fin"`
	}
	cases := []dcase{}
	notes := []string{}
	add := func(note string, in []*jargon.Token, mk func(*jargon.TokenStream) *jargon.TokenStream) {
		begin(note)
		num := map[string]int{}
		c := dcase{In: []int{}, Out: []int{}}
		for _, t := range in {
			if num[t.String()] == 0 {
				num[t.String()] = len(num) + 1
			}
			c.In = append(c.In, num[t.String()])
		}
		run := drain(mk(jargon.NewTokenStream((&source{toks: in}).next)), nil, 20*len(in)+100, nil)
		for _, s := range run.Out {
			n := num[s.V] // 0: no value of the input
			c.Out = append(c.Out, n)
		}
		c.Fin = run.Fin
		cases = append(cases, c)
		notes = append(notes, note)
	}
	distinct := (*jargon.TokenStream).Distinct
	// values that common hash functions do not tell apart
	pairs := []*jargon.Token{}
	for _, p := range twins(r, 3, 400000) {
		pairs = append(pairs, jargon.NewToken(p[0], false), jargon.NewToken(" ", false), jargon.NewToken(p[1], false))
	}
	add(fmt.Sprintf("%d values with equal hashes", len(pairs)), pairs, distinct)
	name := func(i int) string { // values of all kinds and lengths
		switch i % 7 {
		case 0:
			return fmt.Sprint("w", i)
		case 1:
			return strings.Repeat("x", i%300) + fmt.Sprint(i)
		case 2:
			return string(rune(0x4e00+i%20000)) + fmt.Sprint(i/20000)
		case 3:
			return fmt.Sprint(i) + ".5"
		case 4:
			return strings.Repeat(" ", 1+i/7%400)
		case 5:
			return strings.Repeat(".", 1+i/7%400)
		}
		return fmt.Sprint("W", i-1)
	}
	for _, n := range []int{a.n, a.n / 3, 300, 70} {
		ts := []*jargon.Token{}
		for i := 0; i < n; i++ {
			ts = append(ts, jargon.NewToken(name(i), r.Intn(5) == 0))
			if i%3 == 1 {
				ts = append(ts, ts[r.Intn(len(ts))])
			}
		}
		all := append(append([]*jargon.Token{}, ts...), ts...) // everything again
		add(fmt.Sprintf("%d tokens, then the same again", len(ts)), all, distinct)
		r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		add(fmt.Sprintf("%d tokens in any order", len(all)), all, distinct)
		add("twice distinct", all, func(s *jargon.TokenStream) *jargon.TokenStream { return s.Distinct().Distinct() })
		add("distinct as a filter", all, func(s *jargon.TokenStream) *jargon.TokenStream { return s.Filter(distinct) })
	}
	// very many values: too long to be written down for the specification, which gives, for 1..n as often
	// as you like in any order that starts with 1..n, 1..n (TraceDistinct!FirstOfEach)
	many := 12 * a.n
	value := func(i int) string {
		switch i % 3 {
		case 0:
			return fmt.Sprint(i)
		case 1:
			return fmt.Sprint("é", i)
		}
		return strings.Repeat(" ", i%5) + fmt.Sprint("w", i)
	}
	k := -1
	begin("many values")
	s := jargon.NewTokenStream(func() (*jargon.Token, error) {
		if k++; k >= many+many/2 {
			return nil, nil
		}
		if k%5000 == 0 {
			begin(k)
		}
		i := k
		if i >= many {
			i = r.Intn(many)
			if k%3 == 0 {
				i = k - many // those of the beginning, one after the other
			}
		}
		return jargon.NewToken(value(i), false), nil
	}).Distinct()
	seen := 0
	failures := []M{}
	for {
		t, err := s.Next()
		if err != nil || t == nil {
			if seen != many || err != nil {
				failures = append(failures, M{"prop": "C08", "why": "very many different values", "case": many, "want": many, "got": fmt.Sprint(seen, err)})
			}
			break
		}
		if seen >= many || t.String() != value(seen) {
			failures = append(failures, M{"prop": "C08", "why": "a value comes again, or another than the next new one", "case": M{"values": many, "at": seen}, "want": "the next new value, or the end", "got": fmt.Sprintf("%.80q", t.String())})
			break
		}
		seen++
	}
	writeJSON(a.out, M{"cases": cases, "notes": notes, "failures": failures, "many": many})
}

// ---- long texts and documents, composed of those the specifications enumerate ----

// piece of a long text: what it is, and what its tokens are
type piece struct {
	text string
	toks []ST
}

// scaleRun tokenizes long texts made of pieces with separators between
func scaleRun(rep *Report, r *rand.Rand, html bool, sizes []int, next func() piece, sep piece) {
	for _, size := range sizes {
		var b strings.Builder
		want := []ST{}
		for b.Len() < size {
			p := next()
			b.WriteString(p.text)
			b.WriteString(sep.text)
			want = append(append(want, p.toks...), sep.toks...)
		}
		text := b.String()
		for _, mode := range []int{0, 2, 3, 4, 6, 7} {
			c := modeReader(mode%7, []byte(text), r)
			if mode == 7 { // whole blocks
				c.size = func() int { return 1 << uint(9+r.Intn(9)) }
			}
			where := M{"length": len(text), "mode": mode, "html": html}
			begin(where)
			got := tokenizeAll(c, html)
			rep.Cases++
			rep.Steps += len(got.Out)
			at := 0
			for i, t := range got.Out {
				if at+len(t.V) > len(text) || text[at:at+len(t.V)] != t.V {
					rep.fail(pr(html, "C01", "C04"), fmt.Sprintf("long text: not the text any more at byte %d", at), where, cutAt(text, at), t.V)
					break
				}
				at += len(t.V)
				if i >= len(want) || want[i].V != t.V {
					w := ""
					if i < len(want) {
						w = want[i].V
					}
					rep.fail(pr(html, "C02", "C05 C04"), fmt.Sprintf("long text: wrong boundaries at byte %d", at), where, w, t.V)
					break
				}
				if want[i] != t {
					rep.fail(pr(html, "C03", "C05 C04"), "long text: wrong flags", where, show(want[i:i+1]), show([]ST{t}))
					break
				}
			}
			n := 0
			for _, t := range got.Out {
				n += len(t.V)
			}
			if got.Fin != "eof" {
				rep.fail(pr(html, "C01 C02", "C04 C05"), "long text: ends with "+got.Fin+" "+got.Msg, where, len(text), n)
			} else if n != len(text) {
				rep.fail(pr(html, "C01", "C04"), "long text: its length is not preserved", where, len(text), n)
			}
		}
	}
}

func pr(html bool, a, b string) string {
	if html {
		return b
	}
	return a
}

func cutAt(s string, at int) string {
	if at > len(s) {
		at = len(s)
	}
	e := at + 40
	if e > len(s) {
		e = len(s)
	}
	return s[at:e]
}

func cmdScaleText(a args) {
	r := rand.New(rand.NewSource(a.seed*37 + 11))
	rep := &Report{}
	sizes := []int{5000, 70000, 1 << 20, 2200000}
	if a.tier == "thorough" {
		sizes = append(sizes, 1<<24, 40000000)
	}
	tooLong(rep, r, a.mode == "html")
	if a.mode == "html" {
		docs := htmlPieces(a.in)
		scaleRun(rep, r, true, sizes, func() piece {
			return htmlPiece(docs[r.Intn(len(docs))], r)
		}, piece{"<!-- -->", []ST{{"<!-- -->", true, false, false}}})
	} else {
		d := wb()
		cases := wbCases(a.in, "TR", "CR")
		scaleRun(rep, r, false, sizes, func() piece {
			max := 0
			if r.Intn(200) == 0 {
				max = 1 << uint(3+r.Intn(10))
			}
			v, w := d.stretched(cases[r.Intn(len(cases))], max, r)
			return piece{v, w}
		}, piece{"\n", []ST{mkST("\n", false)}})
	}
	writeJSON(a.out, rep)
}

// tooLong: tokens about as long as the tokenizer can take, or longer. There it may give up, and says so; what it
// gives before that is the beginning of the text, and where it does not give up, all of it is.
func tooLong(rep *Report, r *rand.Rand, html bool) {
	for _, n := range []int{4090, 4096, 60000, 65530, 65534, 65535, 65536, 65537, 65538, 65545, 70000, 131071, 131072, 131073, 300000, 2000000} {
		for _, ch := range []string{"a", "é", "世", "1", "_", " ", "\r\n", "\u0301", "😀", "\xff", "a.", "<", "&amp;"} {
			if len(ch) > 1 && r.Intn(3) > 0 {
				continue
			}
			before, after := pick(r, "", "one two ", "é\n", strings.Repeat("x. ", r.Intn(3000))), pick(r, "", " and the rest", strings.Repeat(" y", r.Intn(40000)), "\n")
			text := before + strings.Repeat(ch, n/len(ch)+1) + after
			mode := r.Intn(nModes)
			where := M{"token": ch, "bytes": n, "before": len(before), "after": len(after), "mode": mode, "html": html}
			begin(where)
			rep.Cases++
			rep.Steps++
			c := modeReader(mode, []byte(text), r)
			if n > 5000 && c.size != nil { // not in very small pieces: a token is looked at anew with each
				c.size = func() int { return 700 + r.Intn(5000) }
			}
			got := tokenizeAll(c, html)
			all := strings.Join(vals(got.Out), "")
			switch {
			case !strings.HasPrefix(text, all):
				rep.fail(pr(html, "C01", "C04"), "text with a long token: other bytes", where, len(text), len(all))
			case got.Fin == "eof" && all != text:
				rep.fail(pr(html, "C01", "C04"), "text with a long token: ends early, without an error", where, len(text), len(all))
			case got.Fin != "eof" && got.Fin != "otherr":
				rep.fail(pr(html, "C01", "C04"), "text with a long token: "+got.Fin+" "+got.Msg, where, len(text), len(all))
			}
		}
	}
}
