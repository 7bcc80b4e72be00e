package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"unicode"

	"github.com/clipperhouse/jargon"
)

var kindPool struct {
	punct, white []rune
	other        []rune
}

func kindInit() {
	if kindPool.punct != nil {
		return
	}
	for c := rune(0); c <= unicode.MaxRune; c++ {
		if c >= 0xd800 && c < 0xe000 {
			continue
		}
		switch {
		case unicode.Is(unicode.P, c):
			kindPool.punct = append(kindPool.punct, c)
		case c == '\t' || c == '\n' || c == '\r':
		case unicode.Is(unicode.White_Space, c):
			kindPool.white = append(kindPool.white, c)
		}
	}
	kindPool.other = []rune("abcXYZ0129éßжΩ世$+<=>^`|~©®°±´¨¸×÷😀\u0301\u200d\u200b\u00ad\x00\x01\x1f\x7f\u0080\ufeff\u180e\u2060\ufffd₣€")
}

func ofKind(k string, r *rand.Rand) string {
	kindInit()
	one := func(rs []rune) string { return string(rs[r.Intn(len(rs))]) }
	switch k {
	case "pu":
		if r.Intn(2) == 0 {
			return one([]rune("!\"#%&'()*,-./:;?@[\\]_{}¡§«¶·»¿–—‘’“”…"))
		}
		return one(kindPool.punct)
	case "tb":
		return "\t"
	case "lf":
		return "\n"
	case "cr":
		return "\r"
	case "sp":
		if r.Intn(2) == 0 {
			return " "
		}
		return one(kindPool.white)
	case "ls":
		return pick(r, "\u0085", "\u00a0", "\u1680", "\u2000", "\u2003", "\u2009", "\u2028", "\u2029", "\u202f", "\u205f", "\u3000")
	case "ot":
		return one(kindPool.other)
	case "bb":
		return pick(r, "\xff", "\x80", "\xa0", "\x85", "\xc3", "\xe2\x80")
	}
	panic(k)
}

var commonWords = []string{" ", "\r", "\n", "\t", ".", ",", "A", "a", "An", "an", "The", "the", "And", "and", "Or", "or", "Not", "not", "Of", "of", "In", "in", "On", "on", "To", "to", "Be", "be", "Is", "is", "Are", "are", "Has", "has", "Have", "have", "It", "it", "Do", "do", "\r\n", "-", "_", "'", "\u00a0", "  ", " \n", "\n\n", "...", "a.", ". ", "@", "#", "$", "+", "I", "i", "no", "you"}

// cmdFlags replays histories of token construction (Flags.tla)
func cmdFlags(a args) {
	lines := [][]byte{}
	readLines(a.in, func(l []byte) { lines = append(lines, append([]byte{}, l...)) })
	kindInit()
	rep := parallel(len(lines)*a.n, a.seed, func(i int, r *rand.Rand, rep *Report) {
		var h [][]json.RawMessage
		die(json.Unmarshal(lines[i%len(lines)], &h))
		type made struct {
			v    string
			l    bool
			want ST
			null bool
			t    *jargon.Token
		}
		ms := []made{}
		fill := map[string]string{} // the same kinds get the same value within a history
		for _, e := range h {
			var kinds []string
			var l, null, p, s int
			die(json.Unmarshal(e[0], &kinds))
			die(json.Unmarshal(e[1], &l))
			die(json.Unmarshal(e[2], &null))
			die(json.Unmarshal(e[3], &p))
			die(json.Unmarshal(e[4], &s))
			key := strings.Join(kinds, " ")
			v, ok := fill[key]
			if !ok {
				for try := 0; ; try++ {
					var b strings.Builder
					long := i >= len(lines) && r.Intn(2) == 0 // runs of a kind, however long, are like one (Flags!Compositional)
					for _, k := range kinds {
						n := 1
						if long && len(kinds) < 5 {
							n = []int{1, 2, 7, 30, 63, 64, 65, 100, 255, 256, 257, 1000, 4096, 5000}[r.Intn(14)]
						}
						if n > 64 && r.Intn(2) == 0 {
							b.WriteString(strings.Repeat(ofKind(k, r), n))
							continue
						}
						for ; n > 0; n-- {
							b.WriteString(ofKind(k, r))
						}
					}
					v = b.String()
					// stray bytes must not combine to a character
					if w := mkST(v, false); v == "" || w.P == (p == 1) && w.S == (s == 1) {
						break
					}
				}
				fill[key] = v
			}
			ms = append(ms, made{v, l == 1, ST{v, p == 1, s == 1, l == 1}, null == 1, nil})
		}
		where := M{}
		vs := []string{}
		for _, m := range ms {
			if len(m.v) > 200 {
				vs = append(vs, fmt.Sprintf("%q...%q (%d bytes) lemma=%v", m.v[:60], m.v[len(m.v)-60:], len(m.v), m.l))
				continue
			}
			vs = append(vs, fmt.Sprintf("%q lemma=%v", m.v, m.l))
		}
		where["made"] = vs
		begin(where)
		for k := range ms {
			ms[k].t = jargon.NewToken(ms[k].v, ms[k].l)
		}
		rep.Cases++
		rep.Steps += len(ms)
		for _, m := range ms { // all of them, after the last one was made
			checkMade(rep, where, m.v, m.l, m.null, m.want, m.t)
		}
		rep.sample(where)
	})
	// the usual values, both ways, again and again; through the tokenizer as well
	r := rand.New(rand.NewSource(a.seed))
	for i := 0; i < 40*len(commonWords); i++ {
		v := commonWords[r.Intn(len(commonWords))]
		l := r.Intn(2) == 0
		rep.Cases++
		checkMade(rep, M{"value": v, "lemma": l}, v, l, false, mkST(v, l), jargon.NewToken(v, l))
	}
	writeJSON(a.out, rep)
}

func checkMade(rep *Report, where M, v string, l, null bool, want ST, t *jargon.Token) {
	if null {
		if t != nil {
			rep.fail("C03", "a token from an empty value", where, nil, show([]ST{obs(t)}))
		}
		return
	}
	if t == nil {
		rep.fail("C03", "no token", where, show([]ST{want}), nil)
		return
	}
	if got := obs(t); got != want {
		if len(got.V) > 300 {
			want.V, got.V = want.V[:100], got.V[:100]
		}
		rep.fail("C03", "wrong flags or value", where, show([]ST{want}), show([]ST{got}))
	}
}

type flagObs struct {
	Lo  int   `json:"lo"`
	Hi  int   `json:"hi"`
	Res []int `json:"res"`
}

// cmdFlagScan observes the flags for every code point, alone and in company (TraceFlags.tla)
func cmdFlagScan(a args) {
	templates := [][]string{{"x"}, {"x", "pu"}, {"pu", "x"}, {"x", "lf"}, {"sp", "x"}, {"x", "sp"}, {"x", "x"}, {"ot", "x"}, {"x", "pu", "x", "cr"}, {"cr", "x"}, {"x", "x", "x", "x", "x", "x", "x", "x", "x"}}
	fill := map[string]string{"pu": "!", "lf": "\n", "sp": " ", "ot": "z", "cr": "\r"}
	ranges := func(t *unicode.RangeTable) [][2]int {
		r := [][2]int{}
		for c := 0; c <= unicode.MaxRune; c++ {
			if unicode.Is(t, rune(c)) {
				if n := len(r); n > 0 && r[n-1][1] == c-1 {
					r[n-1][1] = c
				} else {
					r = append(r, [2]int{c, c})
				}
			}
		}
		return r
	}
	out := []flagObs{}
	for c := 0; c <= unicode.MaxRune; c++ {
		if c >= 0xd800 && c < 0xe000 {
			continue
		}
		res := []int{}
		for j, t := range templates {
			var b strings.Builder
			for _, k := range t {
				if k == "x" {
					b.WriteRune(rune(c))
				} else {
					b.WriteString(fill[k])
				}
			}
			tok := jargon.NewToken(b.String(), (c+j)%3 == 0)
			n := 0
			switch {
			case tok == nil || tok.String() != b.String() || tok.IsLemma() != ((c+j)%3 == 0):
				n = 9
			default:
				if tok.IsPunct() {
					n |= 1
				}
				if tok.IsSpace() {
					n |= 2
				}
			}
			res = append(res, n)
		}
		if k := len(out); k > 0 && sameInts(out[k-1].Res, res) && (out[k-1].Hi == c-1) && c%0x8000 != 0 {
			out[k-1].Hi = c
		} else {
			out = append(out, flagObs{c, c, res})
		}
		if c%1000 == 0 {
			begin(c)
		}
	}
	writeJSON(a.out, M{"obs": out, "templates": templates, "punct": ranges(unicode.P), "white": ranges(unicode.White_Space)})
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
