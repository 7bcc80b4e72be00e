package main

import (
	"math/rand"
	"strconv"
	"strings"
	"unicode"

	"github.com/clipperhouse/jargon"
)

// ---- recording filters at work, for TraceStage and its relatives ----

type stageCase struct {
	F   int    `json:"f"`
	In  []int  `json:"in"`
	Out []int  `json:"out"`
	N   []int  `json:"n"`
	Fin string `json:"fin"`
	Flt bool   `json:"flt"`
}

type recorder struct {
	t      *Tab
	fds    []FD
	real   []jargon.Filter
	vals   [][]string // values each filter was given
	cases  []stageCase
	notes  []M
	ins    [][]*jargon.Token
	outs   []Run
	scale  []M // see big
	scaled int
}

func newRecorder() *recorder { return &recorder{t: newTab()} }

func (rc *recorder) filter(d FD) int {
	rc.fds = append(rc.fds, d)
	rc.real = append(rc.real, d.real())
	rc.vals = append(rc.vals, nil)
	return len(rc.fds) - 1
}

func (rc *recorder) add(f int, in []*jargon.Token, fail bool, note string) {
	var err error
	if fail {
		err = errPlanted
	}
	sin := sts(in)
	begin(M{"filter": rc.fds[f], "input": show(sin), "note": note})
	run := apply(rc.real[f], in, err)
	for _, s := range sin {
		rc.vals[f] = append(rc.vals[f], s.V)
	}
	rc.ins, rc.outs = append(rc.ins, in), append(rc.outs, run)
	rc.cases = append(rc.cases, stageCase{f + 1, rc.t.codes(sin), rc.t.codes(run.Out), run.N, run.Fin, fail})
	rc.notes = append(rc.notes, M{"filter": short(rc.fds[f]), "input": show(sin), "output": show(run.Out), "fin": run.Fin + " " + run.Msg, "fails": fail, "note": note})
}

// big runs filters on a long stream made of the inputs recorded so far, one after another with line breaks
// between; by the lemma Splits (Gen.tla) the output is that of the pieces, one after another
func (rc *recorder) big(filters, size int) int {
	steps := 0
	for f := 0; f < len(rc.fds); f++ {
		d := rc.fds[f]
		if filters == 0 || d.Op == "distinct" || d.Op == "sig" && d.Legal == "any" {
			continue
		}
		filters--
		sep := jargon.NewToken("\n", false)
		rc.add(f, []*jargon.Token{sep}, false, "separator")
		last := rc.outs[len(rc.outs)-1]
		if last.Fin != "eof" {
			continue
		}
		in, want := []*jargon.Token{}, []ST{}
		for n := 0; n < size; {
			before := n
			for i, c := range rc.cases {
				if c.F != f+1 || c.Flt || c.Fin != "eof" {
					continue
				}
				in = append(append(in, rc.ins[i]...), sep)
				want = append(append(want, rc.outs[i].Out...), last.Out...)
				n += len(rc.ins[i]) + 1
			}
			if n == before {
				break
			}
		}
		begin(M{"filter": d, "note": "long stream", "tokens": len(in)})
		run := apply(rc.real[f], in, nil)
		steps += len(in)
		rc.compare(d, in, want, run)
	}
	return steps
}

// worn repeats one of the inputs recorded so far many times, before the others follow (Splits as above): what has gone
// on for long should not matter
func (rc *recorder) worn(filters, size int, r *rand.Rand) int {
	steps := 0
	for f := 0; f < len(rc.fds); f++ {
		d := rc.fds[f]
		if filters == 0 || d.Op == "distinct" || d.Op == "sig" && d.Legal == "any" {
			continue
		}
		filters--
		sep := jargon.NewToken("\n", false)
		rc.add(f, []*jargon.Token{sep}, false, "separator")
		last := rc.outs[len(rc.outs)-1]
		if last.Fin != "eof" {
			continue
		}
		own, same, other := []int{}, []int{}, []int{}
		for i, c := range rc.cases {
			if c.F != f+1 || c.Flt || c.Fin != "eof" {
				continue
			}
			own = append(own, i)
			if len(rc.ins[i]) == 0 || len(rc.ins[i]) > 24 {
				continue
			}
			if eqST(sts(rc.ins[i]), rc.outs[i].Out) {
				same = append(same, i)
			} else {
				other = append(other, i)
			}
		}
		pools := [][]int{same, same, other}
		for len(pools)*len(rc.fds) < 60 {
			pools = append(pools, same, same, other)
		}
		for _, pool := range pools {
			if len(pool) == 0 {
				continue
			}
			in, want := []*jargon.Token{}, []ST{}
			put := func(i int) {
				in = append(append(in, rc.ins[i]...), sep)
				want = append(append(want, rc.outs[i].Out...), last.Out...)
			}
			x := pool[r.Intn(len(pool))]
			for len(in) < size {
				put(x)
			}
			for j := 0; j < 200; j++ {
				put(own[r.Intn(len(own))])
			}
			begin(M{"filter": d, "note": "worn stream", "tokens": len(in)})
			run := apply(rc.real[f], in, nil)
			steps += len(in)
			rc.compare(d, in, want, run)
		}
	}
	return steps
}

// compare takes note of a long stream that does not give what it should
func (rc *recorder) compare(d FD, in []*jargon.Token, want []ST, run Run) {
	k := 0
	for k < len(want) && k < len(run.Out) && want[k] == run.Out[k] {
		k++
	}
	if k < len(want) || k < len(run.Out) || run.Fin != "eof" {
		near := func(x []ST) interface{} {
			a, b := k-5, k+8
			if a < 0 {
				a = 0
			}
			if b > len(x) {
				b = len(x)
			}
			if a > b {
				a = b
			}
			return show(x[a:b])
		}
		rc.scale = append(rc.scale, M{"filter": short(d), "tokens_in": len(in), "deviates_at_output": k, "want_there": near(want), "got_there": near(run.Out), "fin": run.Fin + " " + run.Msg})
	}
}

// runs gives filters that look at one token at a time (Gen!Tokenwise) long runs of tokens, each one of which was tried alone
func (rc *recorder) runs(filters, size int, r *rand.Rand) int {
	steps := 0
	for f := 0; f < len(rc.fds); f++ {
		d := rc.fds[f]
		if filters == 0 || d.Op == "distinct" || d.Op == "syn" || d.Op == "stack" || d.Op == "nba" || d.Op == "sig" || d.Op == "handles" || d.Op == "hashtags" {
			continue
		}
		filters--
		// some tokens of the inputs so far, each alone
		pool := []*jargon.Token{}
		for i, c := range rc.cases {
			if c.F == f+1 && len(rc.ins[i]) > 0 && len(pool) < 400 {
				pool = append(pool, rc.ins[i][r.Intn(len(rc.ins[i]))])
			}
		}
		alone := [][]ST{}
		for j := 0; j < 24 && len(pool) > 0; j++ {
			t := pool[r.Intn(len(pool))]
			rc.add(f, []*jargon.Token{t}, false, "alone")
			last := rc.outs[len(rc.outs)-1]
			if last.Fin != "eof" {
				return steps
			}
			alone = append(alone, last.Out)
		}
		if len(alone) == 0 {
			continue
		}
		ts := []*jargon.Token{}
		for i := len(rc.ins) - len(alone); i < len(rc.ins); i++ {
			ts = append(ts, rc.ins[i][0])
		}
		in, want := []*jargon.Token{}, []ST{}
		for len(in) < size {
			k := r.Intn(len(ts))
			n := []int{1, 2, 10, 100, 500, 1030, 2100, 5000, 20000}[r.Intn(9)]
			for ; n > 0; n-- {
				in = append(in, ts[k])
				want = append(want, alone[k]...)
			}
		}
		begin(M{"filter": d, "note": "long runs", "tokens": len(in)})
		rc.compare(d, in, want, apply(rc.real[f], in, nil))
		steps += len(in)
	}
	return steps
}

func short(d FD) M {
	m := M{"op": d.Op}
	if len(d.Ent) > 0 {
		m["ent"], m["ic"], m["ign"] = d.Ent, d.Ic, d.Ign
	}
	if d.Op == "stop" {
		m["words"], m["ic"] = append([]string{}, d.Words...), d.Ic
	}
	if d.Sigil != "" {
		m["sigil"], m["legal"], m["names"] = d.Sigil, d.Legal, append([]string{}, d.Names...)
	}
	if len(d.Fns) > 0 {
		m["fns"] = d.Fns
	}
	return m
}

func (rc *recorder) write(path string, lag, win int) {
	fs := []M{}
	for i, d := range rc.fds {
		fs = append(fs, d.model(rc.t, rc.vals[i]))
	}
	empties := []bool{}
	for _, d := range rc.fds {
		e := false
		ent := d.Ent
		if d.Op == "stack" {
			ent = shipped("stackoverflow.json")
		} else if d.Op == "nba" {
			ent = shipped("nba.json")
		}
		for _, x := range ent {
			e = e || x.Can == ""
		}
		empties = append(empties, e)
	}
	maps := []bool{}
	for _, d := range rc.fds {
		maps = append(maps, d.Op == "ascii" || strings.HasPrefix(d.Op, "stem-") || strings.HasPrefix(d.Op, "nf"))
	}
	writeJSON(path, M{"maps": maps, "empties": empties, "chars": rc.t.chars, "toks": rc.t.toks, "filters": fs, "cases": rc.cases, "notes": rc.notes, "scale": append([]M{}, rc.scale...), "scaled": rc.scaled, "lag": lag, "win": win})
}

// ---- making inputs ----

func tokenizeString(s string) []*jargon.Token {
	ts, err := jargon.TokenizeString(s).ToSlice()
	if err != nil {
		return nil
	}
	return ts
}

// direct makes tokens straight from values, some of them lemmas
func direct(r *rand.Rand, pool []string, n int) []*jargon.Token {
	ts := []*jargon.Token{}
	for i := 0; i < n; i++ {
		v := pool[r.Intn(len(pool))]
		if v == "" {
			v = "."
		}
		ts = append(ts, jargon.NewToken(v, r.Intn(8) == 0))
	}
	return ts
}

func htmlTokens(s string) []*jargon.Token {
	ts, err := jargon.TokenizeHTML(strings.NewReader(s)).ToSlice()
	if err != nil {
		return nil
	}
	return ts
}

var seps = []string{" ", " ", " ", " ", "  ", ", ", ". ", "\n", "\t", "; ", "-", "/", " \n", "\u00a0", "! ", " (", ") ", "\u2003", "\r\n", " - ", "…", "|"}

func recase(r *rand.Rand, s string) string {
	switch r.Intn(6) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		rs := []rune(s)
		for i := range rs {
			if r.Intn(2) == 0 {
				rs[i] = unicode.ToUpper(rs[i])
			} else {
				rs[i] = unicode.ToLower(rs[i])
			}
		}
		return string(rs)
	case 3:
		rs := []rune(s)
		if len(rs) > 0 {
			rs[0] = unicode.ToUpper(rs[0])
		}
		return string(rs)
	}
	return s
}

var filler = []string{"the", "a", "and", "I", "like", "using", "with", "Not", "of", "in", "Company", "café", "naïve", "Straße", "ΑΒΓ", "привет", "日本", "カタカナ", "x1", "42", "3.5", "1,000", "foo_bar",
	"e", "é", "ﬁ", "Å", "ⅷ", "ﬀ", "Ǆ", "İ", "K", "running", "management", "Nationally", "😀", "it's", "don't", "CAN'T", "We’ve", "@", "#", "$", "+", "C++", "_", "a_b", "&", "\u0301", "<b>", "ß"}

func textOf(r *rand.Rand, n int, pool []string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if r.Intn(3) == 0 {
			b.WriteString(filler[r.Intn(len(filler))])
		} else {
			b.WriteString(recase(r, pool[r.Intn(len(pool))]))
		}
		b.WriteString(seps[r.Intn(len(seps))])
	}
	s := b.String()
	if r.Intn(3) == 0 {
		s = strings.TrimRight(s, " ")
	}
	if r.Intn(6) == 0 {
		s = " " + s
	}
	return s
}

// letters that Unicode relates by case, in more than the usual pairs
var orbits = [][]rune{{'s', 'S', 'ſ'}, {'k', 'K', '\u212a'}, {'ß', 'ẞ'}, {'σ', 'ς', 'Σ'}, {'å', 'Å', '\u212b'}, {'i', 'I', 'İ', 'ı'}, {'ǆ', 'ǅ', 'Ǆ'}, {'µ', 'μ', 'Μ'}, {'ω', 'Ω', '\u2126'}, {'θ', 'ϑ', 'Θ', 'ϴ'},
	{'é', 'É'}, {'д', 'Д', 'ᲁ'}, {'ﬆ', 'ﬅ'}, {'ა', 'Ა'}, {'ⅷ', 'Ⅷ'}, {'ⓐ', 'Ⓐ'}, {'ᾳ', 'ᾼ'}, {'Ꭰ', 'ꭰ'}, {'ÿ', 'Ÿ'}, {'𐐀', '𐐨'}, {'ⱥ', 'Ⱥ'}, {'ɐ', 'Ɐ'}}

// a random dictionary without two canonicals for the same key, and words it is about
func randDict(r *rand.Rand) (FD, []string) {
	d := FD{Op: "syn", Ic: r.Intn(2) == 0, Ign: pick(r, "", " ", " -", " -.", ".", "-", " '", " x")}
	ws := []string{"a", "b", "c", "ab", "abc", "A", "B", "foo", "Foo", "bar", "node.js", "c#", "é", "É", "x", "1", "don't", "i'm", "Ω", "ω", "naïve", "日"}
	r.Shuffle(len(ws), func(i, j int) { ws[i], ws[j] = ws[j], ws[i] })
	ws = ws[:3+r.Intn(6)]
	term := func() string {
		n, max := 1, 6
		if r.Intn(20) == 0 { // a long one
			n, max = 6, 30
		}
		for n < max && r.Intn(max) > max/3 {
			n++
		}
		ps := []string{}
		for i := 0; i < n; i++ {
			ps = append(ps, ws[r.Intn(len(ws))])
		}
		return strings.Join(ps, pick(r, " ", " ", " ", "-", ""))
	}
	norm := func(s string) string {
		return strings.Map(func(c rune) rune {
			if d.Ic {
				c = unicode.ToLower(c)
			}
			if strings.ContainsRune(d.Ign, c) {
				return -1
			}
			return c
		}, s)
	}
	keys := map[string]string{}
	used := map[string]bool{}
	pool := append([]string{}, ws...)
	for e := 0; e < 1+r.Intn(6); e++ {
		can := pick(r, "X", "can-onical", "two words", "a", "B", "", "Ω", "b c", "...", " ")
		items := []string{}
		for i := 0; i < 1+r.Intn(3); i++ {
			t := term()
			k := norm(t)
			if c, ok := keys[k]; ok && c != can {
				continue
			}
			keys[k] = can
			items = append(items, t)
			pool = append(pool, t)
			// the same, in more or fewer words
			if r.Intn(2) == 0 {
				pool = append(pool, strings.ReplaceAll(t, "-", " "), norm(t))
				if strings.Contains(d.Ign, " ") {
					pool = append(pool, strings.Join(strings.Split(norm(t), ""), " "))
				}
			}
		}
		if len(items) == 0 {
			continue
		}
		l := strings.Join(items, pick(r, ",", ", ", ",  ", ",,", ", ,"))
		if r.Intn(6) == 0 {
			l += pick(r, ",", ", ")
		}
		if r.Intn(6) == 0 {
			l = pick(r, " ", ",") + l
		}
		if used[l] {
			continue
		}
		used[l] = true
		d.Ent = append(d.Ent, Entry{l, can})
	}
	return d, pool
}

func vocab(name string) []string {
	r := []string{}
	for _, e := range shipped(name) {
		for _, s := range strings.Split(e.Syn, ",") {
			if s = strings.TrimSpace(s); s != "" {
				r = append(r, s)
			}
		}
		if e.Can != "" {
			r = append(r, e.Can)
		}
	}
	return r
}

func cmdStage(a args) {
	r := rand.New(rand.NewSource(a.seed*7919 + int64(len(a.mode))))
	rc := newRecorder()
	for _, m := range strings.Split(a.mode, ",") { // mode, or mode:n,mode:n...
		one := a
		one.mode = m
		if i := strings.Index(m, ":"); i > 0 {
			one.mode = m[:i]
			one.n, _ = strconv.Atoi(m[i+1:])
		}
		stageMode(rc, one, r)
	}
	if a.k < 0 {
		rc.scaled = rc.big(map[string]int{"quick": 32, "thorough": 60}[a.tier], map[string]int{"quick": 30000, "thorough": 400000}[a.tier])
		rc.scaled += rc.worn(map[string]int{"quick": 40, "thorough": 80}[a.tier], map[string]int{"quick": 6000, "thorough": 100000}[a.tier], r)
		rc.scaled += rc.runs(map[string]int{"quick": 32, "thorough": 60}[a.tier], map[string]int{"quick": 40000, "thorough": 400000}[a.tier], r)
	}
	rc.write(a.out, a.k, 48)
}

func stageMode(rc *recorder, a args, r *rand.Rand) {
	// mixed inputs for a filter
	inputs := func(f, n int, pool []string) {
		for i := 0; i < n; i++ {
			fail := r.Intn(10) == 0 && a.mode == "fault"
			switch k := r.Intn(10); {
			case k < 6:
				rc.add(f, tokenizeString(textOf(r, r.Intn(14), pool)), fail, "text")
			case k < 9:
				p := append(append([]string{}, pool...), seps...)
				rc.add(f, direct(r, p, r.Intn(16)), fail, "tokens")
			default:
				// markup may look like words to a filter that does not care for flags
				open := pick(r, "<p>", "<P CLASS=\"Running\">", "<!--"+recase(r, pool[r.Intn(len(pool))])+"-->", "<FLIES é>", "<É>", "<?"+pool[r.Intn(len(pool))]+"?>", "</Nationally>", "<b\n>")
				rc.add(f, htmlTokens(open+textOf(r, 1+r.Intn(5), pool)+"</p><script>"+pick(r, textOf(r, 2, pool), pool[r.Intn(len(pool))], " ", ".", "\n", "Running")+"</script> "+textOf(r, 3, pool)+"<br/>"+open), fail, "html")
			}
		}
	}
	switch a.mode {
	case "syn":
		for i := 0; i < a.n; i++ {
			d, pool := randDict(r)
			inputs(rc.filter(d), 12, pool)
		}
		for _, ic := range []bool{false, true} {
			for _, o := range orbits {
				w := o[r.Intn(len(o))]
				f := rc.filter(syn(ic, " ", "x"+string(w), "one", string(w)+" "+string(w), "two"))
				in := []*jargon.Token{}
				for _, v := range o {
					in = append(in, jargon.NewToken("x"+string(v), false), jargon.NewToken(" ", false), jargon.NewToken(string(v), false), jargon.NewToken(" ", false), jargon.NewToken(string(w), false), jargon.NewToken(",", false))
				}
				rc.add(f, in, false, "cases")
			}
		}
	case "stack", "nba":
		f := rc.filter(FD{Op: a.mode})
		file := map[string]string{"stack": "stackoverflow.json", "nba": "nba.json"}[a.mode]
		inputs(f, a.n, vocab(file))
	case "con":
		pool := []string{}
		for _, e := range shipped("contractions.json") {
			pool = append(pool, e.Syn, strings.ReplaceAll(e.Syn, "'", "’"))
		}
		f := rc.filter(FD{Op: "con"})
		// every contraction in every way of writing it
		for _, p := range pool {
			title := strings.ToUpper(p[:1]) + p[1:]
			mixed := []string{p, title, strings.ToUpper(p), strings.ToLower(p[:1]) + strings.ToUpper(p[1:])}
			for m := 0; m < 3; m++ {
				rs := []rune(p)
				for j := range rs {
					if r.Intn(2) == 0 {
						rs[j] = unicode.ToUpper(rs[j])
					}
				}
				mixed = append(mixed, string(rs))
			}
			near := []string{p + "s", "x" + p, p[:len(p)-1], strings.ReplaceAll(p, "'", ""), strings.ReplaceAll(p, "'", "`"), strings.ReplaceAll(p, "'", "ʼ"), p + p, p[1:]}
			in := []*jargon.Token{}
			for _, v := range append(mixed, near...) {
				if v != "" {
					in = append(in, jargon.NewToken(v, false), jargon.NewToken(" ", false))
				}
			}
			for _, v := range mixed { // lemmas of an earlier filter
				in = append(in, jargon.NewToken(v, true), jargon.NewToken(" ", false))
			}
			rc.add(f, in, false, "every writing")
		}
		inputs(f, a.n, append(append([]string{}, pool...), "\u0130t's", "\u017fhe's", "\u017fhouldn't", "thin\u212a's", "mu\u017ftn't"))
	case "sig":
		names := []string{"a", "@", "#", "1", "foo", "Foo_Bar9", "abcdefghijklmno", "abcdefghijklmnop", "ABCDEFGHIJKLMN", "_", "__", "é", "naïve", "日本", "golang", "x-y", "c++", "12", "²", "a’b", "don't", "$", "%", "ǅ", "५", "Ⅷ", "a.b", "a\u0301", "😀", "A1", "z", "Z", "0", "9", "`", "{", "[", "/", ":"}
		ds := []FD{{Op: "handles"}, {Op: "hashtags"}, {Op: "sig", Sigil: "$", Legal: "list", Names: []string{"a", "foo", "$", " "}}, {Op: "sig", Sigil: "@", Legal: "any"}, {Op: "sig", Sigil: "foo", Legal: "list", Names: []string{"foo", "a", "1"}}, {Op: "sig", Sigil: "++", Legal: "any"}}
		fs := []int{}
		for _, d := range ds {
			fs = append(fs, rc.filter(d))
		}
		pool := append(append([]string{"@", "#", "@", "#", "$", " ", " ", ".", "\n", "++", "-", "("}, names...), "@")
		sg := []string{"@", "#", "$", "foo", "++"}
		for i := 0; i < a.n; i++ {
			f := fs[r.Intn(len(fs))]
			var in []*jargon.Token
			switch r.Intn(4) {
			case 3: // sigils and the like in a row
				for j := 2 + r.Intn(6); j > 0; j-- {
					in = append(in, jargon.NewToken(pick(r, "@", "#", "@", "#", "$", "foo", "++", " ", ".", "a"), r.Intn(3) == 0))
				}
			case 0:
				in = direct(r, pool, r.Intn(14))
			case 1:
				var b strings.Builder
				for j := 0; j < r.Intn(8); j++ {
					b.WriteString(pick(r, "", " ", ".", "a", "\n", "(", " ", "@", "#") + sg[r.Intn(2)] + names[r.Intn(len(names))] + pick(r, "", " ", ",", "\n"))
				}
				in = tokenizeString(b.String())
			default: // pairs sigil, name
				for j := 0; j < 2+r.Intn(5); j++ {
					in = append(in, jargon.NewToken(pick(r, " ", ".", "\n", " ", "-", "w"), r.Intn(9) == 0), jargon.NewToken(sg[r.Intn(len(sg))], r.Intn(5) == 0), jargon.NewToken(names[r.Intn(len(names))], r.Intn(9) == 0))
				}
			}
			rc.add(f, in, false, "sigils")
		}
		// legality character by character
		for k, d := range ds[:2] {
			sig := []string{"@", "#"}[k]
			in := []*jargon.Token{}
			flush := func() {
				rc.add(fs[k], in, false, "legal characters of "+d.Op)
				in = nil
			}
			for cp := 0x21; cp < 0x30000; cp++ {
				if cp >= 0xd800 && cp < 0xe000 {
					continue
				}
				if cp > 0x250 && r.Intn(160) > 0 && !(unicode.IsNumber(rune(cp)) && r.Intn(6) == 0) && !(unicode.IsLetter(rune(cp)) && r.Intn(100) == 0) {
					continue
				}
				c := string(rune(cp))
				for _, v := range []string{c, "a" + c, c + "b", c + c} {
					in = append(in, jargon.NewToken(" ", false), jargon.NewToken(sig, false), jargon.NewToken(v, false))
				}
				if len(in) > 40 {
					flush()
				}
			}
			// lengths
			ns := []int{63, 64, 65, 100, 127, 128, 138, 139, 140, 141, 200, 255, 256, 257, 280, 281, 512, 1000, 1025}
			for n := 1; n < 40; n++ {
				ns = append(ns, n)
			}
			for _, n := range ns {
				in = append(in, jargon.NewToken(".", false), jargon.NewToken(sig, false), jargon.NewToken(strings.Repeat("a", n), false),
					jargon.NewToken(".", false), jargon.NewToken(sig, false), jargon.NewToken(strings.Repeat("1", n), false), jargon.NewToken(".", false), jargon.NewToken(sig, false), jargon.NewToken(strings.Repeat("_", n), false))
			}
			flush()
		}
	case "stop":
		ws := append([]string{"The", "AND", "é", "É", "Ω", "ω", "İ", "k", "K", "ǅ", ".", ",", " ", "\n", "it's", "日本", "the end"}, filler...)
		for i := 0; i < a.n; i++ {
			d := FD{Op: "stop", Ic: r.Intn(2) == 0, Words: []string{}}
			for j := 0; j < r.Intn(12); j++ {
				d.Words = append(d.Words, recase(r, ws[r.Intn(len(ws))]))
			}
			pool := []string{}
			for _, w := range d.Words {
				pool = append(pool, w, strings.ToUpper(w), strings.ToLower(w))
			}
			pool = append(pool, ws...)
			inputs(rc.filter(d), 10, pool)
		}
		// long lists; words that a hash confuses
		for i, n := range []int{40, 130, 300, 1030, 1500} {
			d := FD{Op: "stop", Ic: i%2 == 0, Words: []string{}}
			pool := []string{}
			for j := 0; j < n; j++ {
				w := "w" + strconv.Itoa(j)
				d.Words = append(d.Words, w)
				if j%(n/30) == 0 || j > n-10 {
					pool = append(pool, w, "W"+strconv.Itoa(j), w+"x")
				}
			}
			inputs(rc.filter(d), 6, append(pool, "w", "w"+strconv.Itoa(n)))
		}
		for _, p := range append([][2]string{{"costarring", "liquid"}, {"declinate", "macallums"}}, twins(r, 1, 150000)...) {
			rc.add(rc.filter(FD{Op: "stop", Ic: r.Intn(2) == 0, Words: []string{p[0]}}), []*jargon.Token{jargon.NewToken(p[1], false), jargon.NewToken(p[0], false)}, false, "collisions")
		}
		// letters with more than two cases, or one
		for _, ic := range []bool{false, true} {
			for _, o := range orbits {
				for _, w := range o {
					words := []string{string(w), "x" + string(w)}
					in := []*jargon.Token{}
					for _, v := range o {
						in = append(in, jargon.NewToken(string(v), false), jargon.NewToken("x"+string(v), false), jargon.NewToken("X"+string(v), true), jargon.NewToken(string(v)+string(w), false))
					}
					for n := range words {
						rc.add(rc.filter(FD{Op: "stop", Ic: ic, Words: words[n:]}), in, false, "cases")
						rc.add(rc.filter(FD{Op: "stop", Ic: ic, Words: words[:n+1]}), in, false, "cases")
					}
				}
			}
		}
	case "select":
		ds := []FD{{Op: "words"}, {Op: "lemmas"}, {Op: "distinct"}, {Op: "where", Pred: "even"}, {Op: "where", Pred: "punct"}, {Op: "where", Pred: "space"}, {Op: "where", Pred: "true"}, {Op: "where", Pred: "false"}}
		for _, d := range ds {
			f := rc.filter(d)
			inputs(f, a.n, []string{"a", "A", "a", "b", "the", "é", "e\u0301", "foo", "Foo"})
			// many values, many repetitions
			in := []*jargon.Token{}
			for i := 0; i < 250; i++ {
				in = append(in, jargon.NewToken(strings.Repeat("x", r.Intn(60)+1), r.Intn(3) == 0))
			}
			rc.add(f, in, false, "repetitions")
		}
	case "map":
		ds := []FD{{Op: "ascii"}, {Op: "nfc"}, {Op: "nfd"}, {Op: "nfkc"}, {Op: "nfkd"}, {Op: "map", Fns: []string{"lower"}}, {Op: "map", Fns: []string{"rev", "upper", "twice"}}, {Op: "map", Fns: []string{"twice", "rev"}}, {Op: "map", Fns: []string{}}, {Op: "map", Fns: []string{"id", "id", "mark"}}}
		for l := range stems {
			ds = append(ds, FD{Op: "stem-" + l})
		}
		for i := 0; i < 12; i++ { // many functions, few of them doing anything
			fns := []string{}
			for j := 0; j < 3+i; j++ {
				fns = append(fns, pick(r, "id", "id", "id", "rev", "upper", "lower", "mark"))
			}
			if i%3 == 0 {
				fns = append(fns, "twice")
			}
			ds = append(ds, FD{Op: "map", Fns: fns})
		}
		pool := append([]string{}, mapWords...)
		ks := []rune{}
		for k := range foldTable() {
			ks = append(ks, k)
		}
		sortRunes(ks)
		for i := 0; i < 60; i++ {
			pool = append(pool, string(ks[r.Intn(len(ks))]), "x"+string(ks[r.Intn(len(ks))])+"y")
		}
		for i := 0; i < 40; i++ { // compositions, compatibility characters, Hangul
			pool = append(pool, string(rune(0x1e00+r.Intn(0x200)))+string(rune(0x300+r.Intn(0x40))), string(rune(0xac00+r.Intn(11000))), string(rune(0x2100+r.Intn(0x90))), string(rune(0xff01+r.Intn(0xa0))), "a"+string(rune(0x300+r.Intn(0x60)))+string(rune(0x300+r.Intn(0x60))))
		}
		// words that are not letters only, with endings that a stemmer takes off
		for i := 0; i < 60; i++ {
			b := pick(r, "top10", "x86", "web2", "item_", "foo_bar", "3d", "node.js", "o'neil", "e-mail", "naïve", "ÉCOLE", "İstanbul", "日本", "Ångstr", "Running", "MANAGE", "the", "рабо", "\u0301a", "a\u0301b", "l’arme", "mp3play", "1000", "b2b", "C++", "#", "ﬁnd")
			pool = append(pool, b+pick(r, "s", "es", "ing", "ed", "'s", "ly", "ment", "ements", "aux", "ando", "mente", "arna", "ene", "ов", "ами", "S", "ING", "’s", "5", "_"))
		}
		// what makes the difference may be far behind
		for _, n := range []int{7, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 130, 255, 256, 257, 300, 513, 1030} {
			x := strings.Repeat(pick(r, "a", "b", "x"), n+r.Intn(2))
			pool = append(pool, x+pick(r, "é", "e\u0301", "ﬁ", "Å", "ｘ"), pick(r, "é", "e\u0301", "ﬁ", "Å")+x, x+pick(r, "ing", "ЫЙ", "nesses", "mente", "ement", "E", "arne", "heter"), x)
		}
		for _, d := range sortFD(ds) {
			inputs(rc.filter(d), a.n, pool)
		}
	case "fault":
		for _, d := range append(faultFilters(), FD{Op: "stack"}, FD{Op: "nba"}) {
			f := rc.filter(d)
			for i := 0; i < a.n; i++ {
				in := tokenizeString(textOf(r, r.Intn(8), []string{"a", "b", "@", "#", "ruby on rails", "node js", "don't", "é", "running"}))
				rc.add(f, in, true, "the source fails after this")
			}
		}
	case "vocab": // every listed term, as listed and in other spellings
		for _, v := range []struct{ op, file, ign string }{{"stack", "stackoverflow.json", soIgnore}, {"nba", "nba.json", nbaIgnore}} {
			f := rc.filter(FD{Op: v.op})
			terms := []string{}
			for _, e := range shipped(v.file) {
				for _, s := range strings.Split(e.Syn, ",") {
					if s = strings.TrimSpace(s); s != "" {
						terms = append(terms, s)
					}
				}
			}
			for round := 0; round < a.n; round++ {
				var b strings.Builder
				one := []*jargon.Token{}
				for i, t := range terms {
					s := t
					switch (i + round) % 4 {
					case 0: // blanks and the like left out
						s = strings.Map(func(c rune) rune {
							if strings.ContainsRune(v.ign, c) {
								return -1
							}
							return c
						}, s)
					case 1: // other blanks
						s = strings.ReplaceAll(s, " ", pick(r, "  ", "\u00a0", " ", "\u2003", "   "))
					case 2: // blanks for what is ignored, as far as it stands alone
						s = strings.Map(func(c rune) rune {
							if strings.ContainsRune(v.ign, c) {
								return ' '
							}
							return c
						}, s)
					}
					if i%3 == round%3 { // what is ignored, within one token as well as between (tokens need not come from the tokenizer)
						rs := []rune(v.ign)
						words := strings.FieldsFunc(t, func(c rune) bool { return strings.ContainsRune(v.ign, c) })
						if len(words) > 1 {
							one = append(one, jargon.NewToken(recase(r, strings.Join(words, string(rs[r.Intn(len(rs))]))), false), jargon.NewToken(pick(r, ",", "\n", ";"), false))
						} else if cs := []rune(t); len(cs) > 2 {
							k := 1 + r.Intn(len(cs)-1)
							one = append(one, jargon.NewToken(recase(r, string(cs[:k])+string(rs[r.Intn(len(rs))])+string(cs[k:])), false), jargon.NewToken(pick(r, ",", "\n", ";"), false))
						}
						if len(one) > 16 {
							rc.add(f, one, false, "listed terms of "+v.op+" as single tokens")
							one = nil
						}
					}
					b.WriteString(pick(r, "", "I like ", "the ", "xyzzy ", "(") + recase(r, s) + pick(r, ", ", ". ", " qwx, ", "; ", "\n", ") "))
					if i%6 == 5 || i == len(terms)-1 {
						rc.add(f, tokenizeString(b.String()), false, "listed terms of "+v.op)
						b.Reset()
					}
				}
			}
		}
	case "lag", "long", "longsyn": // long streams, every filter
		ds := append(faultFilters(), FD{Op: "stack"}, FD{Op: "nba"}, FD{Op: "nfkd"}, FD{Op: "stem-french"}, syn(true, " ", "a b a b a b c", "long", "q", "Q"), syn(true, " ", "a", "", "b", "bb"))
		for _, d := range ds {
			n := 400
			if a.mode == "longsyn" {
				n = 160
				if d.Op != "syn" && d.Op != "stack" && d.Op != "nba" {
					continue
				}
			}
			f := rc.filter(d)
			if a.mode == "long" {
				n = 3000
			}
			pats := [][]string{
				{"a", " ", "b", " "}, {"."}, {"a"}, {"a", " ", "a", " ", "b", ","}, {"@", "a", " "}, {"@"}, {"don't", " "}, {"ruby", " ", "on", " "}, {"\n", "a*"}, {"é", " ", "running", " "}, {"q"}, {"#", "b", ".", "a", " ", "b"}, {"a", ",", " "}, {" ", "."},
			}
			for i := 0; i < a.n; i++ {
				p := pats[r.Intn(len(pats))]
				if i < len(pats) {
					p = pats[i]
				}
				in := []*jargon.Token{}
				for j := 0; j < n; j++ {
					v := p[j%len(p)]
					if a.mode != "lag" && r.Intn(5) == 0 {
						v = pick(r, "a", "b", " ", ",", "@", "don't", "node", "js", "é", "LeBron", "James", "x")
					}
					l := false
					if len(v) > 1 && v[len(v)-1] == '*' {
						v, l = v[:len(v)-1], true
					}
					in = append(in, jargon.NewToken(v, l))
				}
				rc.add(f, in, false, "long stream")
			}
		}
	default:
		panic("unknown stage " + a.mode)
	}
}

var mapWords = []string{"running", "runs", "ran", "management", "manager", "Nationally", "generously", "flies", "dying", "café", "Café", "CAFÉ", "naïve", "Ångström", "ﬁsh", "ﬀ", "①", "½", "ⅷ", "…", "“", "„", "ß", "Œuvre",
	"continuellement", "chevaux", "mangerions", "l'été", "biler", "bilen", "løping", "jævlig", "havnedistriktene", "бегущий", "ейша", "важнейшая", "вши", "книгами", "ёлка", "corriendo", "niños", "rápidamente", "dármelo",
	"jaktkarlarne", "flickorna", "klokt", "'s", "''", "y", "yy", "YES", "Is", "is", "the", "\u0301", "e\u0301", "한글", "각", "ｶﾞ", "Å", "Ω", "a'", "skis", "news", "sky", "andes", "İ", "ſ", "K", "\u00ad", "a\u00adb", "_", "foo_bar", "1,000", "3.5", "C++",
	// words a stemmer may be told to leave alone
	"only", "Above", "any", "because", "before", "BEING", "does", "doing", "ces", "dans", "des", "même", "mes", "notre", "hadde", "tilbake", "meget", "samme", "denne", "она", "его", "Только", "было", "меня", "para", "como", "más", "pero", "porque", "Cuando", "hade", "icke", "henne", "inte", "skulle"}
