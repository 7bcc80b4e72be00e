package main

import (
	"fmt"
	"math/rand"
	"runtime"

	"github.com/clipperhouse/jargon"
)

// ---- endless input (C11) ----

// endless repeats a text for ever
type endless struct {
	text  string
	pos   int
	chunk int
	read  int
}

func (e *endless) Read(p []byte) (int, error) {
	n := len(p)
	if e.chunk > 0 && n > e.chunk {
		n = e.chunk
	}
	for i := 0; i < n; i++ {
		p[i] = e.text[e.pos]
		e.pos = (e.pos + 1) % len(e.text)
	}
	e.read += n
	return n, nil
}

// tokens for ever
type endlessTokens struct {
	ts    []*jargon.Token
	pulls int
}

func (e *endlessTokens) next() (*jargon.Token, error) {
	e.pulls++
	return e.ts[(e.pulls-1)%len(e.ts)], nil
}

func heap() uint64 {
	var ms runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&ms)
	return ms.HeapAlloc
}

func cmdLag(a args) {
	rep := &Report{}
	texts := []struct {
		html bool
		text string
		own  int // the longest piece that has to be read as a whole
	}{
		{false, "a b ", 1}, {false, "word. Another, word; ", 7}, {false, ". ", 1}, {false, "don't stop\n", 5}, {false, "a, ", 1}, {false, "é 世界 😀 ", 4}, {false, "..,,", 1}, {false, "x\ty\r\nz", 2}, {false, "1,000 3.5 node.js ", 7}, {false, "@foo #bar ", 3},
		{true, "<p>hello world</p>\n", 11}, {true, "<br/>", 5}, {true, "a <b> c", 5}, {true, "<!-- comment --><p>x", 16}, {true, "<script>if (a < b) {}</script> text ", 13}, {true, "<style>a{}</style>&amp; <title>a <b> c</title>", 7},
	}
	tokens := a.n
	for _, x := range texts {
		for _, chunk := range []int{1, 3, 7, 1000, 0} {
			where := M{"endless": x.text, "html": x.html, "reads of": chunk}
			begin(where)
			rd := &endless{text: x.text, chunk: chunk}
			var s *jargon.TokenStream
			if x.html {
				s = jargon.TokenizeHTML(rd)
			} else {
				s = jargon.Tokenize(rd)
			}
			var before uint64
			out, most := 0, 0
			bound := x.own + 64 + chunk
			if chunk == 0 {
				bound = 1 << 17
			}
			rep.Cases++
			for i := 0; i < tokens; i++ {
				t, err := s.Next()
				if err != nil || t == nil {
					rep.fail("C11", fmt.Sprint("endless input ends ", err), where, nil, i)
					break
				}
				rep.Steps++
				if chunk == 0 && i == tokens/4 {
					before = heap()
				}
				if i%500 == 0 {
					begin(where)
				}
				out += len(t.String())
				if rd.read-out > most {
					most = rd.read - out
				}
				if rd.read-out > bound {
					rep.fail("C11", fmt.Sprintf("read %d bytes beyond the token handed out, after %d tokens", rd.read-out, i+1), where, bound, rd.read-out)
					break
				}
			}
			if chunk == 0 {
				if after := heap(); after > before+200<<10 && len(rep.Failures) == 0 {
					rep.fail("C11", "memory grows with the input", where, before, after)
				}
			}
			runtime.KeepAlive(s)
			rep.sample(M{"endless": x.text, "html": x.html, "reads of": chunk, "most ahead": most})
		}
	}
	// filters: output goes on coming
	r := rand.New(rand.NewSource(a.seed))
	pats := [][]string{{"a", " ", "b", " "}, {"."}, {"a", " "}, {"the", " ", "x"}, {"@", "a", " "}, {"@"}, {"#"}, {"don't", " "}, {"ruby", " ", "on", " "}, {"\n", "é"}, {"running", ","}, {"a", "a", "a"}, {"LeBron", " ", "q", " "}, {"a*", " "}, {"a*"}, {" *"}, {"x", " *"}, {"a*", "b*", " "}, {"the*", " "}, {"@*"}, {"#", "foo*"}, {".*"}, {"a*", "b"}, {"ruby", " ", "on*"}, {"\n*", "é*"}}
	for _, d := range allFDs {
		for _, p := range pats {
			in := toks(p...)
			// does this filter put out anything for ever? ask a finite input
			fin := []ST{}
			for i := 0; i < 12; i++ {
				fin = append(fin, in...)
			}
			f := d.real()
			n := len(apply(f, cleanTokens(fin), nil).Out)
			if n < 8 {
				continue
			}
			where := M{"filter": short(d), "endless": p}
			begin(where)
			src := &endlessTokens{ts: cleanTokens(in)}
			s := f(jargon.NewTokenStream(src.next))
			rep.Cases++
			last := 0
			for i := 0; i < tokens/4; i++ {
				t, err := s.Next()
				if t == nil || err != nil {
					rep.fail("C11", fmt.Sprint("endless input ends ", err), where, nil, i)
					break
				}
				rep.Steps++
				if i%500 == 0 {
					begin(where)
				}
				if src.pulls-last > 400 && src.pulls > 16*(i+1)+400 {
					rep.fail("C11", "reads on and on", where, i+1, src.pulls)
					break
				}
				last = src.pulls
			}
		}
	}
	// memory: each filter, with tokens it has something to do with
	busy := []string{"shouldn't", " ", "don't", ",", "@", "foo", " ", "#", "golang", " ", "a", " ", "b", " ", "x", "the", " ", "ruby", " ", "on", " ", "rails", ".", "LeBron", " ", "James", " ", "café", "\n", "Running", " ", "node", ".", "js", " ", "@", "@", "a", "y", " ", "X", "e\u0301", "ﬁ", "q*", "b"}
	for _, d := range append(append([]FD{}, allFDs...), FD{Op: "con"}, FD{Op: "stack"}, FD{Op: "nba"}, FD{Op: "handles"}, FD{Op: "hashtags"}) {
		where := M{"memory": short(d)}
		begin(where)
		src := &endlessTokens{ts: cleanTokens(toks(busy...))}
		s := d.real()(jargon.NewTokenStream(src.next))
		if d.Op == "distinct" || d.Op == "where" && d.Pred == "false" {
			continue // nothing comes after a while
		}
		total := a.n * 25
		var before uint64
		rep.Cases++
		dry := false
		for src.pulls < total && !dry {
			if src.pulls/1000 != rep.Steps/1000 {
				begin(where)
			}
			rep.Steps++
			for i := 0; i < 100; i++ {
				was := src.pulls
				t, err := s.Next()
				if t == nil || err != nil {
					rep.fail("C11", fmt.Sprint("endless input ends ", err), where, nil, src.pulls)
					dry = true
					break
				}
				if src.pulls-was > 10000 {
					dry = true
				}
			}
			if before == 0 && src.pulls > total/10 {
				before = heap()
			}
		}
		after := heap()
		runtime.KeepAlive(s)
		rep.Samples = append(rep.Samples, M{"memory": short(d), "heap after 1/10": before, "heap at the end": after, "tokens": src.pulls})
		if after > before+200<<10 {
			rep.fail("C11", "memory grows with the input", where, before, after)
		}
	}
	// memory: a pipeline of everything, endless text
	for k, mk := range []func() *jargon.TokenStream{
		func() *jargon.TokenStream {
			return jargon.Tokenize(&endless{text: "I don't like café #golang @foo running a b, the ruby on rails x. LeBron James\n"})
		},
		func() *jargon.TokenStream {
			return jargon.TokenizeHTML(&endless{text: "<p class=x>I don't like café</p>\n<script>x < y</script> a b, the ruby on rails. "})
		},
	} {
		where := M{"memory": []string{"plain text", "html"}[k]}
		begin(where)
		fs := []jargon.Filter{}
		for _, d := range allFDs {
			if d.Op != "lemmas" && d.Op != "distinct" && d.Op != "words" && d.Op != "where" && d.Op != "map" && (len(d.Op) < 5 || d.Op[:5] != "stem-" || d.Op == "stem-english") {
				fs = append(fs, d.real())
			}
		}
		r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		s := mk().Filter(fs...)
		total := a.n * 30
		var before uint64
		rep.Cases++
		for i := 0; i < total; i++ {
			if i%1000 == 0 {
				begin(where)
			}
			if i == total/10 {
				before = heap()
			}
			t, err := s.Next()
			if t == nil || err != nil {
				rep.fail("C11", fmt.Sprint("endless input ends ", err), where, nil, i)
				break
			}
			rep.Steps++
		}
		after := heap()
		runtime.KeepAlive(s)
		if after > before+512<<10 {
			rep.fail("C11", "memory grows with the input", where, before, after)
		}
		rep.Samples = append(rep.Samples, M{"memory": where["memory"], "heap after 1/10": before, "heap at the end": after, "tokens": total})
	}
	writeJSON(a.out, rep)
}
