package main

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode"
)

// ---- the syntax of dictionaries ----

// items of a list, as the specification has it (Rules!Items)
func items(list string) []string {
	r := []string{}
	cur := ""
	for _, t := range cut(list) {
		if t.V == "," {
			r = append(r, cur)
			cur = ""
			continue
		}
		if cur == "" && t.S {
			continue
		}
		cur += t.V
	}
	return append(r, cur)
}

func (d FD) norm(s string) string {
	return strings.Map(func(c rune) rune {
		if d.Ic {
			c = unicode.ToLower(c)
		}
		if strings.ContainsRune(d.Ign, c) {
			return -1
		}
		return c
	}, s)
}

// separate is the same dictionary with one entry per item, without those that say nothing
func separate(d FD) FD {
	o := d
	o.Ent = nil
	seen := map[string]bool{}
	for _, e := range d.Ent {
		for _, it := range items(e.Syn) {
			if d.norm(it) != "" && !seen[it] {
				seen[it] = true
				o.Ent = append(o.Ent, Entry{it, e.Can})
			}
		}
	}
	return o
}

// ambiguous: two canonicals for one synonym
func ambiguous(d FD) bool {
	m := map[string]string{}
	for _, e := range d.Ent {
		for _, it := range items(e.Syn) {
			if k := d.norm(it); k != "" {
				if c, ok := m[k]; ok && c != e.Can {
					return true
				}
				m[k] = e.Can
			}
		}
	}
	return false
}

func listsOver(alpha []string, n int) []string {
	r := []string{""}
	for from := 0; n > 0; n-- {
		to := len(r)
		for _, s := range r[from:to] {
			for _, c := range alpha {
				r = append(r, s+c)
			}
		}
		from = to
	}
	return r
}

// every list up to some length, and pairs of entries
func dictFilters(big int) []FD {
	r := rand.New(rand.NewSource(5))
	fs := []FD{}
	igns := []string{" -", "", " "}
	for i, l := range listsOver([]string{"a", "b", " ", ",", "-"}, 4+big) {
		d := FD{Op: "syn", Ign: igns[i%3], Ic: i%2 == 0, Ent: []Entry{{l, "X"}}}
		fs = append(fs, d)
		if big > 0 {
			d.Ign = igns[(i+1)%3]
			fs = append(fs, d)
		}
	}
	for i, l := range listsOver([]string{"a", "\n", " ", ","}, 4) {
		if strings.Contains(l, "\n") {
			fs = append(fs, FD{Op: "syn", Ign: igns[i%3], Ic: i%2 == 0, Ent: []Entry{{l, "X"}}})
		}
	}
	ls := listsOver([]string{"a", "b", " ", ","}, 4)
	for n := 0; n < 300*(1+3*big); {
		d := FD{Op: "syn", Ign: igns[r.Intn(3)], Ic: r.Intn(2) == 0}
		a, b := ls[r.Intn(len(ls))], ls[r.Intn(len(ls))]
		if a == b {
			continue
		}
		d.Ent = []Entry{{a, "X"}, {b, pick(r, "y", "", "X")}}
		if ambiguous(d) {
			continue
		}
		fs = append(fs, d)
		n++
	}
	return fs
}

// cmdDict: lists against their items, in other orders and spellings, on random dictionaries
func cmdDict(a args) {
	rep := parallel(a.n, a.seed, func(i int, r *rand.Rand, rep *Report) {
		d, pool := randDict(r)
		if r.Intn(8) == 0 { // items of many words
			for n := 1 + r.Intn(2); n > 0; n-- {
				it := pool[r.Intn(len(pool))]
				for w := 3 + r.Intn([]int{6, 12, 40}[r.Intn(3)]); w > 0; w-- {
					it += " " + pool[r.Intn(len(pool))]
				}
				d.Ent = append(d.Ent, Entry{it + pick(r, "", ", qqq rrr"), pick(r, "long one", "Z", "")})
			}
		}
		if r.Intn(8) == 0 { // many items, most of which do not occur
			for n := 1 + r.Intn(3); n > 0; n-- {
				its := []string{}
				for k := []int{10, 40, 100, 300, 1500}[r.Intn(5)]; k > 0; k-- {
					its = append(its, fmt.Sprintf("zq%d%s", r.Intn(1000000), pick(r, "", "", " x", "-y")))
				}
				its[r.Intn(len(its))] = pick(r, "q r s", pool[r.Intn(len(pool))])
				d.Ent = append(d.Ent, Entry{strings.Join(its, ", "), pick(r, "many", "Z")})
			}
			pool = append(append([]string{}, pool...), "q", "r", "s")
		}
		if ambiguous(d) {
			return
		}
		sep := separate(d)
		// the same again: items shuffled, blanks and commas added
		var mix FD
		mix = d
		mix.Ent = nil
		by := map[string][]string{}
		order := []string{}
		for _, e := range sep.Ent {
			if by[e.Can] == nil {
				order = append(order, e.Can)
			}
			by[e.Can] = append(by[e.Can], e.Syn)
		}
		for _, can := range order {
			its := by[can]
			r.Shuffle(len(its), func(i, j int) { its[i], its[j] = its[j], its[i] })
			for len(its) > 0 {
				k := 1 + r.Intn(len(its))
				if k > 3 {
					k = len(its) // long lists
				}
				l := pick(r, "", " ", ",", ", ,", "  ", " \n", "\n\t", "\u00a0 ")
				for j, it := range its[:k] {
					if j > 0 {
						l += pick(r, ",", ", ", ",  ", ",,", ", ,", ",\t", ",\n", ",\u00a0", ", \n", ",\t\t ", ",\r\n\u2003", ",\n\n,\t")
					}
					l += it
				}
				l += pick(r, "", "", ",", ", ", ",,")
				if !sameItems(items(l), its[:k]) { // 1,1 is one token
					l = strings.Join(its[:k], ", ")
				}
				mix.Ent = append(mix.Ent, Entry{l, can})
				its = its[k:]
			}
		}
		f, g, h := d.real(), sep.real(), mix.real()
		// each item is found, if there is nothing in it but words and spaces
		for k, e := range sep.Ent {
			in := sts(tokenizeString(e.Syn))
			if len(sep.Ent) > 20 && r.Intn(len(sep.Ent)/20+1) > 0 && k > 3 || len(in) == 0 || in[0].S || in[len(in)-1].S || d.norm(in[len(in)-1].V) == "" {
				continue
			}
			words := d.norm(in[0].V) != ""
			for _, t := range in {
				words = words && !t.P
			}
			if !words {
				continue
			}
			rep.Cases++
			rep.Steps += len(in)
			want := []ST{}
			if e.Can != "" {
				want = append(want, mkST(e.Can, true))
			}
			if x := apply(f, cleanTokens(in), nil); x.Fin != "eof" || !eqST(x.Out, want) {
				rep.fail("C25", "an item of a list is not recognized as a whole", M{"list": short(d), "item": e.Syn}, show(want), show(x.Out)+x.Fin+x.Msg)
			}
		}
		for k := 0; k < 8; k++ {
			in := sts(tokenizeString(textOf(r, r.Intn(10), pool)))
			if k%3 == 2 {
				in = sts(direct(r, append(append([]string{}, pool...), seps...), r.Intn(12)))
			}
			where := M{"list": short(d), "items": short(sep), "shuffled": short(mix), "input": show(in)}
			begin(where)
			rep.Cases++
			rep.Steps += len(in)
			x, y, z := apply(f, cleanTokens(in), nil), apply(g, cleanTokens(in), nil), apply(h, cleanTokens(in), nil)
			if x.Fin != y.Fin || !eqST(x.Out, y.Out) {
				rep.fail("C25", "a list is not the same as its items", where, show(y.Out)+y.Fin+y.Msg, show(x.Out)+x.Fin+x.Msg)
			}
			if z.Fin != y.Fin || !eqST(z.Out, y.Out) {
				rep.fail("C25", "another order or spelling of the lists is not the same", where, show(y.Out)+y.Fin+y.Msg, show(z.Out)+z.Fin+z.Msg)
			}
			rep.sample(where)
		}
	})
	writeJSON(a.out, rep)
}

func sameItems(got, want []string) bool {
	j := 0
	for _, g := range got {
		if g == "" {
			continue
		}
		if j >= len(want) || g != want[j] {
			return false
		}
		j++
	}
	return j == len(want)
}
