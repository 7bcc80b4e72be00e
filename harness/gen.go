package main

import (
	"encoding/json"
	"math/rand"

	"github.com/clipperhouse/jargon"
)

// Group of a scenario: every input over Alpha up to length Max through every pipe
type Group struct {
	Alpha []ST
	Max   int
	Pipes [][]int // of filters, from 0
	Fail  bool
	Prop  string
}

// Scenario for Gen.tla
type Scenario struct {
	Filters []FD
	Groups  []Group
}

type genFile struct {
	Chars   []Char `json:"chars"`
	Toks    []Tok  `json:"toks"`
	Filters []M    `json:"filters"`
	Groups  []M    `json:"groups"`
	FDs     []FD   `json:"fds"`
	STs     []ST   `json:"sts"`
}

func (sc Scenario) file() genFile {
	t := newTab()
	g := genFile{FDs: sc.Filters}
	values := []string{}
	for _, gr := range sc.Groups {
		for _, s := range gr.Alpha {
			values = append(values, s.V)
		}
	}
	for _, f := range sc.Filters {
		g.Filters = append(g.Filters, f.model(t, values))
	}
	for _, gr := range sc.Groups {
		pipes := [][]int{}
		for _, p := range gr.Pipes {
			q := []int{}
			for _, i := range p {
				q = append(q, i+1)
			}
			pipes = append(pipes, q)
		}
		alpha := []int{}
		for _, s := range gr.Alpha {
			if i := t.tok(s); i > len(g.STs) {
				g.STs = append(g.STs, s)
			}
			alpha = append(alpha, t.tok(s))
		}
		g.Groups = append(g.Groups, M{"alpha": alpha, "max": gr.Max, "pipes": pipes, "fail": gr.Fail, "prop": gr.Prop})
	}
	g.Chars, g.Toks = t.chars, t.toks
	return g
}

func toks(vs ...string) []ST {
	r := []ST{}
	for _, v := range vs {
		l := false
		if len(v) > 1 && v[len(v)-1] == '*' && v != "**" {
			l, v = true, v[:len(v)-1]
		}
		r = append(r, mkST(v, l))
	}
	return r
}

func seqn(n int) [][]int {
	r := [][]int{}
	for i := 0; i < n; i++ {
		r = append(r, []int{i})
	}
	return r
}

func syn(ic bool, ign string, kv ...string) FD {
	d := FD{Op: "syn", Ic: ic, Ign: ign}
	for i := 0; i+1 < len(kv); i += 2 {
		d.Ent = append(d.Ent, Entry{kv[i], kv[i+1]})
	}
	return d
}

// scenarios by name; big: more of the same
func scenario(name string, big int) Scenario {
	switch name {
	case "syn":
		fs := []FD{
			syn(true, " -.", "a b", "X", "a", "y", "b b c", "z-z", "c", "C"),
			syn(false, "", "a", "X", "a a", "y", "A", "q", "b", "b"),
			syn(true, " ", "a b, c, b a", "X", "a b c d", "long", "d", ""),
			syn(true, "-", "ab", "AB", "a b", "a-b", "b", "B"),
			syn(true, " b", "a", "X", "cc", "y"),
			syn(true, " ", "a b c", "one", "b c", "two", "c c", "three"),
			syn(false, " ", "a b", "X", "b a", "y", "a b a", "w"),
			syn(true, " -", "a", "", "b c", "a"),
		}
		return Scenario{fs, []Group{
			{Alpha: toks("a", "A", "b", "c", " ", ","), Max: 5 + big, Pipes: seqn(len(fs)), Prop: "C09"},
			{Alpha: toks("a", "b", "c", " ", "-", "ab", "\n", "a*"), Max: 4 + big, Pipes: seqn(len(fs)), Prop: "C09"},
		}}
	case "synstep":
		fs := []FD{
			syn(true, " -.", "a b", "X", "a", "y", "b b c", "z-z"),
			syn(false, "", "a", "X", "a a", "y", "b", ""),
			syn(true, " ", "a b c, c", "one"),
		}
		return Scenario{fs, []Group{{Alpha: toks("a", "b", "c", " ", ","), Max: 4 + big, Pipes: seqn(len(fs)), Prop: "C09"}}}
	case "select":
		fs := []FD{{Op: "words"}, {Op: "lemmas"}, {Op: "distinct"}, {Op: "where", Pred: "even"}, {Op: "where", Pred: "punct"},
			{Op: "where", Pred: "true"}, {Op: "where", Pred: "false"}, {Op: "where", Pred: "space"}}
		p := seqn(len(fs))
		p = append(p, []int{2, 0}, []int{0, 2}, []int{1, 2}, []int{2, 2}, []int{3, 2, 0})
		return Scenario{fs, []Group{
			{Alpha: toks("a", "a*", "A", "bb", " ", ".", "\n"), Max: 4 + big, Pipes: p, Prop: "C08"},
			{Alpha: toks("a", "b", "c", "d"), Max: 6 + big, Pipes: [][]int{{2}}, Prop: "C08"},
		}}
	case "con":
		fs := []FD{{Op: "con"}}
		return Scenario{fs, []Group{{Alpha: toks("don't", "Don’t", "CAN'T", "dOn't", "Cannot", " ", "dont", "don't*", "dOn'T*", "."), Max: 3 + big, Pipes: seqn(1), Prop: "C14"}}}
	case "sig":
		fs := []FD{{Op: "handles"}, {Op: "hashtags"}, {Op: "sig", Sigil: "@", Legal: "list", Names: []string{"a", "@", " "}},
			{Op: "sig", Sigil: "#", Legal: "any"}, {Op: "sig", Sigil: "a", Legal: "list", Names: []string{"b", ".", "1"}}, {Op: "sig", Sigil: "@", Legal: "none"}}
		return Scenario{fs, []Group{{Alpha: toks("@", "#", "a", " ", "1", ".", "a_b*", "é"), Max: 4 + big, Pipes: seqn(len(fs)), Prop: "C15"},
			{Alpha: toks("@", "a", "b", "."), Max: 6 + big, Pipes: seqn(len(fs)), Prop: "C15"},
			{Alpha: toks("@", "#", "a"), Max: 5 + big, Pipes: [][]int{{0, 1}, {1, 0}, {0, 0}}, Prop: "C15"}}}
	case "stop":
		fs := []FD{{Op: "stop", Words: []string{"a", "The", ".", " "}}, {Op: "stop", Words: []string{"A", "tHe"}, Ic: true}, {Op: "stop", Ic: true}, {Op: "stop", Words: []string{"É", "\n"}, Ic: true}}
		return Scenario{fs, []Group{{Alpha: toks("a", "A", "the", "The", ".", " ", "é", "a*"), Max: 4 + big, Pipes: seqn(len(fs)), Prop: "C16"}}}
	case "map":
		fs := []FD{{Op: "map", Fns: []string{"lower"}}, {Op: "map", Fns: []string{"rev", "upper"}}, {Op: "map", Fns: []string{"upper", "lower", "twice"}}, {Op: "map", Fns: []string{}},
			{Op: "map", Fns: []string{"id", "mark"}}, {Op: "ascii"}, {Op: "nfd"}, {Op: "nfkc"}, {Op: "stem-english"}, {Op: "stem-russian"}, {Op: "map", Fns: []string{"twice", "rev"}}, {Op: "map", Fns: []string{"id", "lower", "id", "id", "rev", "id", "upper"}}}
		return Scenario{fs, []Group{{Alpha: toks("aB", "é", "running", " ", ".", "ейша", "ﬁ*", "\n", "Café's"), Max: 3 + big, Pipes: seqn(len(fs)), Prop: "C17"}}}
	case "fault":
		fs := faultFilters()
		p := seqn(len(fs))
		for i := range fs {
			p = append(p, []int{i, (i*5 + 3) % len(fs)})
		}
		return Scenario{fs, []Group{{Alpha: toks("a", "b", " ", "@", "don't"), Max: 3 + big, Pipes: p, Fail: true, Prop: "C07"}}}
	case "pipes": // every pair (and some triples) of filters, stage by stage
		fs := append(faultFilters(), syn(true, " ", "X", "a", "y", "b"), FD{Op: "stop", Words: []string{"X", "@a"}})
		p := [][]int{{}}
		for i := range fs {
			for j := range fs {
				p = append(p, []int{i, j})
				if (i*7+j*3)%11 < 1+big {
					p = append(p, []int{i, j, (i + j) % len(fs)})
				}
			}
		}
		return Scenario{fs, []Group{{Alpha: toks("a", "b", " ", "@"), Max: 2 + big, Pipes: p, Prop: "C20"}}}
	case "dict":
		fs := dictFilters(big)
		return Scenario{fs, []Group{{Alpha: toks("a", "b", " ", "-"), Max: 3, Pipes: seqn(len(fs)), Prop: "C25"}}}
	}
	panic("unknown scenario " + name)
}

func faultFilters() []FD {
	return []FD{syn(true, " ", "a b", "X", "b", "y", "a b a", "z"), {Op: "con"}, {Op: "handles"}, {Op: "sig", Sigil: "a", Legal: "any"}, {Op: "stop", Words: []string{"a"}, Ic: true},
		{Op: "words"}, {Op: "lemmas"}, {Op: "distinct"}, {Op: "where", Pred: "even"}, {Op: "map", Fns: []string{"upper", "twice"}}, {Op: "ascii"}, {Op: "nfc"}, {Op: "stem-english"}, {Op: "hashtags"}}
}

func cmdScen(a args) { writeJSON(a.out, scenario(a.mode, a.k).file()) }

type genLine struct {
	G int                 `json:"g"`
	Q []int               `json:"q"`
	I []int               `json:"i"`
	E bool                `json:"e"`
	N []int               `json:"n"`
	O [][]json.RawMessage `json:"o"`
}

func cmdGenReplay(a args) {
	var g genFile
	b := readFile(a.in2)
	die(json.Unmarshal(b, &g))
	t := &Tab{chars: g.Chars}
	lines := [][]byte{}
	readLines(a.in, func(l []byte) { lines = append(lines, append([]byte{}, l...)) })
	filters := make([]jargon.Filter, len(g.FDs))
	for i, f := range g.FDs {
		filters[i] = f.real()
	}
	rep := parallel(len(lines), a.seed, func(i int, r *rand.Rand, rep *Report) {
		var l genLine
		die(json.Unmarshal(lines[i], &l))
		in := []ST{}
		for _, c := range l.I {
			in = append(in, g.STs[c-1])
		}
		want := []ST{}
		for _, o := range l.O {
			var c []int
			var p, s, m int
			die(json.Unmarshal(o[0], &c))
			die(json.Unmarshal(o[1], &p))
			die(json.Unmarshal(o[2], &s))
			die(json.Unmarshal(o[3], &m))
			want = append(want, ST{t.str(c), p == 1, s == 1, m == 1})
		}
		fs := []jargon.Filter{}
		names := []FD{}
		for _, q := range l.Q {
			fs = append(fs, filters[q-1])
			names = append(names, g.FDs[q-1])
		}
		prop, _ := g.Groups[l.G-1]["prop"].(string)
		where := M{"filters": names, "input": show(in), "fails": l.E}
		begin(where)
		var err error
		if l.E {
			err = errPlanted
		}
		got := apply(func(s *jargon.TokenStream) *jargon.TokenStream { return s.Filter(fs...) }, cleanTokens(in), err)
		rep.Cases++
		rep.Steps += len(in)
		ok := false
		if l.E {
			ok = got.Fin == "err" && len(got.Out) <= len(want) && eqST(got.Out, want[:len(got.Out)])
		} else {
			ok = got.Fin == "eof" && eqST(got.Out, want)
		}
		if !ok && l.E && prop == "C07" && got.Fin == "err" {
			// not what the specification says; is it what the filters give without the failure?
			full := apply(func(s *jargon.TokenStream) *jargon.TokenStream { return s.Filter(fs...) }, cleanTokens(in), nil)
			ok = len(got.Out) <= len(full.Out) && eqST(got.Out, full.Out[:len(got.Out)])
		}
		if !ok && !l.E && prop == "C07" {
			ok = got.Fin == "eof" // other properties' business
		}
		if !ok && prop == "C20" {
			w, fin := stepwise(in, names)
			ok = fin == got.Fin && eqST(got.Out, w)
		}
		if !ok && prop == "C25" && len(names) == 1 {
			// the same if the items are listed separately?
			w := apply(separate(names[0]).real(), cleanTokens(in), nil)
			ok = w.Fin == got.Fin && eqST(got.Out, w.Out)
		}
		if !ok && lemmaOnly(got.Out, want) {
			prop += " C24"
		}
		if !ok {
			rep.fail(prop, "output differs (ends with "+got.Fin+" "+got.Msg+")", where, show(want), show(got.Out))
		}
		rep.sample(M{"filters": names, "input": show(in), "fails": l.E, "output": show(got.Out)})
	})
	writeJSON(a.out, rep)
}

// lemmaOnly: the outputs differ, and some token differs in nothing but the lemma flag at the first difference
func lemmaOnly(got, want []ST) bool {
	for i := range got {
		if i >= len(want) {
			return false
		}
		if got[i] != want[i] {
			w := want[i]
			w.L = !w.L
			return got[i] == w
		}
	}
	return false
}
