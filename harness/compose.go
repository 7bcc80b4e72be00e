package main

import (
	"encoding/json"
	"fmt"
	"math/rand"

	"github.com/clipperhouse/jargon"
)

// ---- pipelines (Compose.tla) ----

type composeLine struct {
	H [][]json.RawMessage `json:"h"`
	C []int               `json:"c"`
}

// the filters that a number may stand for; numbers are kept apart within one case
func composeFDs() []FD {
	fds := append([]FD{}, shareFDs()...)
	fds = append(fds, syn(true, " ", "x", "a"), syn(false, "", "y", "b", "X", "q q"), syn(true, " ", "a a", "b", "b", ""), FD{Op: "map", Fns: []string{"upper"}}, FD{Op: "map", Fns: []string{"mark"}},
		FD{Op: "stop", Words: []string{"x", "@a"}}, FD{Op: "sig", Sigil: "@", Legal: "any"}, FD{Op: "stem-spanish"}, FD{Op: "stem-french"}, FD{Op: "nfd"}, FD{Op: "nfkc"}, FD{Op: "distinct"}, FD{Op: "lemmas"}, FD{Op: "words"})
	return fds
}

func stream(ss []ST) *jargon.TokenStream {
	return jargon.NewTokenStream((&source{toks: cleanTokens(ss)}).next)
}

// keep tokens themselves, not copies, to feed them on
func slurp(s *jargon.TokenStream) (ts []*jargon.Token, fin string) {
	defer func() {
		if e := recover(); e != nil {
			fin = fmt.Sprint("panic: ", e)
		}
	}()
	for len(ts) < 5000 {
		t, err := s.Next()
		if err != nil {
			return ts, err.Error()
		}
		if t == nil {
			return ts, "eof"
		}
		ts = append(ts, t)
	}
	return ts, "more"
}

func restart(ts []*jargon.Token) *jargon.TokenStream {
	return jargon.NewTokenStream((&source{toks: ts}).next)
}

// stepwise: each filter gets the complete output of the one before
// (or, for a taking, what is left of it)
func stepwise(in []ST, fds []FD) ([]ST, string) {
	ts := cleanTokens(in)
	taken := []ST{}
	for _, d := range fds {
		var fin string
		if d.Op == "take" {
			n := len(d.Words)
			if n > len(ts) {
				n = len(ts)
			}
			taken = append(taken, sts(ts[:n])...)
			ts = ts[n:]
			continue
		}
		ts, fin = slurp(d.real()(restart(ts)))
		if fin != "eof" {
			return append(taken, sts(ts)...), fin
		}
	}
	return append(taken, sts(ts)...), "eof"
}

func cmdCompose(a args) {
	lines := [][]byte{}
	readLines(a.in, func(l []byte) { lines = append(lines, append([]byte{}, l...)) })
	pool := composeFDs()
	words := append([]string{"@", "a", "#", "foo", "x", "y", "X", "a", "b", "c", "caf\u00e9", "Running", "e\u0301", "don't", "I'm", "ruby", "on", "rails", "."}, shareWords...)
	rep := parallel(len(lines), a.seed, func(i int, r *rand.Rand, rep *Report) {
		var l composeLine
		die(json.Unmarshal(lines[i], &l))
		for rd := 0; rd < a.n; rd++ {
			perm := r.Perm(len(pool))
			fd := func(n int) FD { return pool[perm[n%len(perm)]] }
			chain := []FD{}
			real := map[int]jargon.Filter{}
			for _, c := range l.C {
				if c < 0 {
					chain = append(chain, FD{Op: "take", Words: make([]string, -c)})
					continue
				}
				chain = append(chain, fd(c))
				if real[c] == nil {
					real[c] = fd(c).real() // used again where it is repeated
				}
			}
			vs := []string{}
			for j := 0; j < r.Intn(14); j++ {
				vs = append(vs, words[r.Intn(len(words))])
				if r.Intn(2) == 0 {
					vs = append(vs, " ")
				}
			}
			in := toks(vs...)
			steps := []string{}
			where := M{"input": show(in), "chain": shorts(chain)}
			begin(where)
			rep.Cases++
			rep.Steps += len(in) * (1 + len(chain))
			got, fin := []ST{}, ""
			taken := []*jargon.Token{}
			func() {
				defer func() {
					if e := recover(); e != nil {
						fin = fmt.Sprint("panic: ", e)
					}
				}()
				s := stream(in)
				base := s
				if r.Intn(4) == 0 { // or a stream that comes from a text
					text := ""
					for _, v := range in {
						text += v.V
					}
					in = sts(tokenizeString(text))
					s = jargon.TokenizeString(text)
					base = s
				}
				for _, h := range l.H {
					var op string
					var fs []int
					die(json.Unmarshal(h[0], &op))
					die(json.Unmarshal(h[1], &fs))
					switch op {
					case "filter":
						args := []jargon.Filter{}
						for _, f := range fs {
							args = append(args, real[f])
						}
						s = s.Filter(args...)
						for j := range args { // the slice is the caller's
							args[j] = func(s *jargon.TokenStream) *jargon.TokenStream {
								return jargon.TokenizeString("not one of the filters given")
							}
						}
					case "nest":
						s = real[fs[0]](s)
					case "take", "skip", "either":
						own := s
						for j := fs[0]; j < 0; j++ {
							s := own
							if op == "skip" || op == "either" && r.Intn(2) == 0 {
								s = base
							}
							t, err := s.Next()
							if err != nil {
								fin = err.Error()
							}
							if t != nil {
								taken = append(taken, t)
							}
						}
					case "read":
						ts, e := slurp(s)
						if e != "eof" {
							fin = e
						}
						s = restart(ts)
					}
					steps = append(steps, fmt.Sprint(op, fs))
				}
				ts, e := slurp(s)
				got = sts(append(taken, ts...))
				if fin == "" {
					fin = e
				}
			}()
			where["steps"] = steps
			want, wfin := stepwise(in, chain)
			if fin != wfin || !eqST(got, want) {
				rep.fail("C20", "not what the filters give one after another ("+fin+", "+wfin+")", where, show(want), show(got))
			}
			if len(chain) == 0 && (fin != "eof" || !eqST(got, in)) {
				rep.fail("C20", "not the original stream", where, show(in), show(got))
			}
			rep.sample(where)
		}
	})
	// no filters: the original stream itself, so that it may be read from here and there
	rep.merge(parallel(2000, a.seed*7+1, func(i int, r *rand.Rand, rep *Report) {
		vs := []string{}
		for j := 0; j < r.Intn(14); j++ {
			vs = append(vs, words[r.Intn(len(words))])
		}
		in := toks(vs...)
		base := stream(in)
		s := base
		if d := pool[r.Intn(len(pool))]; r.Intn(2) == 0 {
			base = base.Filter(d.real())
			in, _ = stepwise(in, []FD{d})
			s = base
		}
		from := ""
		got, fin := []ST{}, "eof"
		where := M{"input": show(in)}
		begin(where)
		for n := 0; n <= len(in)+3; n++ {
			if r.Intn(3) == 0 {
				s = s.Filter([]jargon.Filter{}...)
			}
			x, y := s, "f"
			if r.Intn(2) == 0 {
				x, y = base, "b"
			}
			from += y
			if t, err := x.Next(); err != nil {
				fin = err.Error()
			} else if t != nil {
				got = append(got, obs(t))
			}
		}
		where["from"] = from
		rep.Cases++
		rep.Steps += len(from)
		if fin != "eof" || !eqST(got, in) {
			rep.fail("C20", "no filters, read from the original (b) and what Filter gave (f): not the original stream", where, show(in), show(got))
		}
	}))
	writeJSON(a.out, rep)
}

func shorts(ds []FD) []M {
	r := []M{}
	for _, d := range ds {
		r = append(r, short(d))
	}
	return r
}
