package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/synonyms/trie"
)

// ---- histories of adding to and searching in tries (Trie.tla) ----

var trieValues = [][]string{{"a"}, {"A"}, {"a", "b"}, {"b"}, {"-"}, {"B", "+", "a"}}

// the same, and the upper case of the one that is ignored
var trieCased = [][6]string{{"a", "A", "b", "B", "y", "Y"}, {"ж", "Ж", "q", "Q", "é", "É"}, {"a", "A", "b", "B", "𐐨", "𐐀"}, {"x", "X", "σ", "Σ", "ω", "Ω"}}

// characters standing for a, A, b, B, and the one that is ignored
var trieChars = [][5]string{
	{"a", "A", "b", "B", "-"}, {"é", "É", "z", "Z", " "}, {"ж", "Ж", "я", "Я", "."}, {"x", "X", "𐐨", "𐐀", "\u00a0"},
	{"σ", "Σ", "ω", "Ω", "’"}, {"q", "Q", "ǆ", "Ǆ", "・"}, {"n", "N", "ß", "ẞ", "\u0301"}, {"m", "M", "a", "A", "9"}, {"a", "A", "b", "B", "y"},
	{"s", "S", "k", "K", "\uFFFD"}, {"t", "T", "i", "I", "\U0001F600"},
	// characters that agree in their lower bits
	{"ш", "Ш", "𐐨", "𐐀", "\u4428"}, {"b", "B", "q", "Q", "\U00010062"}, {"a", "A", "š", "Š", "\U00020061"}, {"a", "A", "ѡ", "Ѡ", "\u1041"}, {"k", "K", "z", "Z", "\U0010006B"},
}

type trieLine struct {
	C [][2]int              `json:"c"`
	H [][]json.RawMessage   `json:"h"`
	F [][][]json.RawMessage `json:"f"`
}

func cmdTrie(a args) {
	lines := [][]byte{}
	readLines(a.in, func(l []byte) { lines = append(lines, append([]byte{}, l...)) })
	rep := parallel(len(lines), a.seed, func(i int, r *rand.Rand, rep *Report) {
		var l trieLine
		die(json.Unmarshal(lines[i], &l))
		for k := 0; k < a.n; k++ {
			c := trieChars[r.Intn(len(trieChars))]
			ch := [6]string{c[0], c[1], c[2], c[3], c[4], c[4]}
			if a.mode == "cased" {
				ch = trieCased[r.Intn(len(trieCased))]
			}
			trieOne(&l, ch, a.k, r, rep)
		}
	})
	if a.mode != "cased" && len(lines) > 5000 {
		manyKeys(rep, a.seed, map[string]int{"quick": 90000, "thorough": 400000}[a.tier])
	}
	writeJSON(a.out, rep)
}

func trieOne(l *trieLine, ch [6]string, maxq int, r *rand.Rand, rep *Report) {
	// each character stands for k of it (Trie!Stretched)
	k := 1
	if r.Intn(4) == 0 {
		k = []int{2, 3, 9, 17, 33, 65, 130, 300, 1100}[r.Intn(9)]
	}
	val := func(n int) string {
		var b strings.Builder
		for _, c := range trieValues[n-1] {
			b.WriteString(strings.Repeat(ch[strings.Index("aAbB-+", c)], k))
		}
		return b.String()
	}
	// the specification's tokens are words, or not: a trie does not care
	tok := func(n int) *jargon.Token { return jargon.NewToken(val(n), r.Intn(2) == 0) }
	toks := func(q []int) []*jargon.Token {
		ts := make([]*jargon.Token, 0, len(q)+r.Intn(3))
		for _, n := range q {
			ts = append(ts, tok(n))
		}
		return ts
	}
	two := val(1)
	if k > 1 {
		two = strings.Repeat("w ", k)
	}
	cans := [][]string{{"", "one", "Two-Words " + two}, {"", "one", "two"}, {"", "X", "x"}, {"", " ", "one"}, {"", "ab", "abc"}, {"", "été", "ete"}}[r.Intn(6)]
	tries := []*trie.RuneTrie{}
	where := M{"a A b B - +": ch, "each": k}
	ops := []string{}
	for _, c := range l.C {
		ign := []rune{}
		if c[1] == 1 {
			ign = append(ign, []rune(ch[4])...)
			if r.Intn(2) == 0 {
				ign = append([]rune{'~', '|'}, append(ign, ign...)...)
			}
		}
		tries = append(tries, trie.New(c[0] == 1, ign))
		for i := range ign { // the slice is the caller's
			ign[i] = 'b'
		}
		ops = append(ops, fmt.Sprint("new ", c))
	}
	defer func() {
		if e := recover(); e != nil {
			where["ops"] = ops
			rep.fail("C27", fmt.Sprint("panic: ", e), where, nil, nil)
		}
	}()
	rep.Cases++
	begin(l.H)
	for _, h := range l.H {
		var t, c int
		var q []int
		die(json.Unmarshal(h[0], &t))
		die(json.Unmarshal(h[1], &q))
		die(json.Unmarshal(h[2], &c))
		ts := toks(q)
		tries[t-1].Add(ts, cans[c])
		for i := range ts { // so is this one
			ts[i] = tok(4)
		}
		ops = append(ops, fmt.Sprint("add ", t, " ", q, " ", c))
		rep.Steps++
		// looking in between changes nothing
		if r.Intn(2) == 0 {
			tries[r.Intn(len(tries))].SearchCanonical(toks([]int{1 + r.Intn(6), 1 + r.Intn(6), 1 + r.Intn(6)})...)
		}
	}
	type res struct {
		c, n int
	}
	for t := range l.C {
		want := map[string]res{}
		for _, f := range l.F[t] {
			var q []int
			var x res
			die(json.Unmarshal(f[0], &q))
			die(json.Unmarshal(f[1], &x.c))
			die(json.Unmarshal(f[2], &x.n))
			want[fmt.Sprint(q)] = x
		}
		var all func(q []int)
		all = func(q []int) {
			found, can, n := tries[t].SearchCanonical(toks(q)...)
			rep.Steps++
			x, ok := want[fmt.Sprint(q)]
			if found != ok || ok && (can != cans[x.c] || n != x.n) || !ok && (can != "" || n != 0) {
				where["ops"] = ops
				where["search"] = fmt.Sprint(t+1, " ", q)
				var w interface{} = "not found"
				if ok {
					w = fmt.Sprintf("%q %d", cans[x.c], x.n)
				}
				rep.fail("C27", "search", where, w, fmt.Sprintf("%v %q %d", found, can, n))
				return
			}
			// with many of the tokens that say nothing for one, and something else at the end
			if more := 1 + r.Intn(300); len(q) > 0 && l.C[t][1] == 1 && r.Intn(16) == 0 {
				ts, to := []*jargon.Token{}, []int{0}
				for _, n := range q {
					ts = append(ts, tok(n))
					for j := 0; n == 5 && j < more; j++ {
						ts = append(ts, ts[len(ts)-1])
					}
					to = append(to, len(ts))
				}
				if r.Intn(2) == 0 {
					ts = append(ts, jargon.NewToken("\x01", false), tok(1), tok(2))
				}
				found, can, n := tries[t].SearchCanonical(ts...)
				if found != ok || ok && (can != cans[x.c] || n != to[x.n]) || !ok && (can != "" || n != 0) {
					where["ops"] = ops
					where["search"] = fmt.Sprint(t+1, " ", q, " with ", more, " more for each 5")
					rep.fail("C27", "search among many tokens that are ignored", where, M{"found": ok, "like": x, "tokens": to}, fmt.Sprintf("%v %q %d", found, can, n))
					return
				}
			}
			if len(q) < maxq {
				for n := 1; n <= len(trieValues); n++ {
					all(append(append([]int{}, q...), n))
				}
			}
		}
		all(nil)
	}
	rep.sample(M{"ops": ops})
}

// manyKeys: a trie of very many keys that have nothing to do with each other (Trie!Separate)
func manyKeys(rep *Report, seed int64, keys int) {
	r := rand.New(rand.NewSource(seed*13 + 5))
	for _, fold := range []bool{true, false} {
		t := trie.New(fold, []rune{'-', ' '})
		key := func(i int) []*jargon.Token {
			a, b := string(rune(0x4e00+i%300)), string(rune(0x4e00+i/300))
			switch i % 4 {
			case 0:
				return []*jargon.Token{jargon.NewToken(a+b, false)}
			case 1:
				return []*jargon.Token{jargon.NewToken(a, false), jargon.NewToken("-", false), jargon.NewToken(b, false)}
			case 2:
				return []*jargon.Token{jargon.NewToken("q"+a, false), jargon.NewToken(" ", false), jargon.NewToken(b+"é", false)}
			}
			return []*jargon.Token{jargon.NewToken(a, false), jargon.NewToken(b+"a"+b, false)}
		}
		can := func(i int) string { return "can" + string(rune(0x3400+i%500)) + strings.Repeat("x", i/500%7) }
		where := M{"keys": keys, "fold": fold}
		begin(where)
		for i := 0; i < keys; i++ {
			t.Add(key(i), can(i))
		}
		rep.Cases++
		bad := 0
		for j := 0; j < 2*keys && bad < 3; j++ {
			i := j
			if j >= keys {
				i = r.Intn(keys)
			}
			if j%5000 == 0 {
				begin(where)
			}
			k := key(i)
			found, c, n := t.SearchCanonical(append(k, jargon.NewToken("~", false))...)
			rep.Steps++
			if !found || c != can(i) || n != len(k) {
				bad++
				rep.fail("C27", fmt.Sprintf("search among %d keys for key %d", keys, i), where, fmt.Sprint(true, can(i), len(k)), fmt.Sprint(found, c, n))
			}
			if found, c, n := t.SearchCanonical(jargon.NewToken("~", false), k[0]); found || c != "" || n != 0 {
				bad++
				rep.fail("C27", fmt.Sprintf("search among %d keys for none of them", keys), where, false, fmt.Sprint(found, c, n))
			}
		}
	}
}
