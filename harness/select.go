package main

import (
	"encoding/json"
	"fmt"
	"math/rand"

	"github.com/clipperhouse/jargon"
)

// ---- selections on one stream, read in any order (C08): histories of Select ----

type selectLine struct {
	S []int
	H [][]interface{}
}

// values of the classes of Select: a, b, a as lemma, punctuation, space, punctuation as lemma
func selectTokens(classes []int, r *rand.Rand) (ts []*jargon.Token, a string) {
	ab := [][2]string{{"foo", "bar"}, {"Foo", "foo"}, {"é", "e"}, {"a", "á"}, {"x", "xx"}, {"世", "界"}, {"a", "the"}, {"fo\u00ado", "foo"}, {"1", "one"}, {"$", "\u0000"}, {"\xff", "\ufffd"}}
	v := ab[r.Intn(len(ab))]
	if r.Intn(2) == 0 {
		v[0], v[1] = v[1], v[0]
	}
	p, s := pick(r, ".", "\n", "\t", "!?", "«", "\r\n"), pick(r, " ", "  ", "\u2003", "\u00a0")
	for _, c := range classes {
		ts = append(ts, jargon.NewToken([]string{"", v[0], v[1], v[0], p, s, p}[c], c == 3 || c == 6))
	}
	return ts, v[0]
}

func cmdSelect(a args) {
	lines := [][]byte{}
	readLines(a.in, func(l []byte) { lines = append(lines, append([]byte{}, l...)) })
	rep := parallel(len(lines), a.seed, func(i int, r *rand.Rand, rep *Report) {
		var l selectLine
		die(json.Unmarshal(lines[i], &l))
		ts, va := selectTokens(l.S, r)
		where := M{"tokens": show(sts(ts)), "history": fmt.Sprint(l.H)}
		begin(where)
		rep.Cases++
		defer func() {
			if e := recover(); e != nil {
				rep.fail("C08", fmt.Sprint("panic: ", e), where, nil, nil)
			}
		}()
		streams := []*jargon.TokenStream{jargon.NewTokenStream((&source{toks: ts}).next)}
		for n, h := range l.H {
			rep.Steps++
			if h[0] == "make" {
				on := streams[int(h[2].(float64))]
				switch h[1].(string) {
				case "where":
					on = on.Where(func(t *jargon.Token) bool { return t.String() == va })
				case "words":
					on = on.Words()
				case "lemmas":
					on = on.Lemmas()
				case "distinct":
					on = on.Distinct()
				}
				streams = append(streams, on)
				continue
			}
			s, want := streams[int(h[1].(float64))], int(h[2].(float64))
			var t *jargon.Token
			var err error
			if r.Intn(2) == 0 {
				t, err = s.Next()
			} else {
				if s.Scan() {
					t = s.Token()
				}
				err = s.Err()
			}
			if err != nil {
				rep.fail("C08", fmt.Sprintf("step %d: error %v", n+1, err), where, want, nil)
				return
			}
			ok := t == nil && want == 0 || t != nil && want > 0 && obs(t) == obs(ts[want-1])
			if !ok {
				g, w := "nothing", "nothing"
				if t != nil {
					g = show([]ST{obs(t)})
				}
				if want > 0 {
					w = fmt.Sprintf("token %d: %s", want, show([]ST{obs(ts[want-1])}))
				}
				rep.fail("C08", fmt.Sprintf("step %d: wrong token", n+1), where, w, g)
				return
			}
		}
		rep.sample(where)
	})
	writeJSON(a.out, rep)
}
