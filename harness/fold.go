package main

import (
	"math/rand"
	"sort"
	"strings"
	"unicode"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/ascii"
)

// ---- ASCII folding, observed (TraceFold.tla) ----

type foldCase struct {
	In  []int `json:"in"`
	Out []int `json:"out"`
	Ch  bool  `json:"ch"`
}

func cmdFold(a args) {
	r := rand.New(rand.NewSource(a.seed))
	table := [][]interface{}{}
	one, many := []rune{}, []rune{}
	ks := []rune{}
	for k := range foldTable() {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	for _, k := range ks {
		v := foldTable()[k]
		table = append(table, []interface{}{int(k), cps(v)})
		if len(v) == 1 {
			one = append(one, k)
		} else {
			many = append(many, k)
		}
	}
	// the filter: a token as a whole
	viaFilter := func(s string) (string, bool) {
		run := apply(ascii.Fold, []*jargon.Token{jargon.NewToken(s, false)}, nil)
		if run.Fin != "eof" || len(run.Out) != 1 {
			return "(" + run.Fin + ")", false
		}
		return run.Out[0].V, run.Out[0].L
	}
	moved := [][]interface{}{}
	look := func(s string, c int) {
		out, ch := ascii.FoldString(s)
		out2, ch2 := viaFilter(s)
		if out != s || ch {
			n := 0
			if ch {
				n = 1
			}
			moved = append(moved, []interface{}{c, cps(out), n})
		}
		if out2 != out || ch2 != ch {
			n := 0
			if ch2 {
				n = 1
			}
			moved = append(moved, []interface{}{c, cps(out2), n})
		}
	}
	for c := 0; c <= unicode.MaxRune; c++ {
		if c >= 0xd800 && c < 0xe000 {
			continue
		}
		if c%500 == 0 {
			begin(c)
		}
		look(string(rune(c)), c)
	}
	// strings
	cases := []foldCase{}
	add := func(s string) {
		begin(s)
		out, ch := ascii.FoldString(s)
		cases = append(cases, foldCase{cps(s), cps(out), ch})
		if s != "" {
			out, ch = viaFilter(s)
			cases = append(cases, foldCase{cps(s), cps(out), ch})
		}
	}
	pickc := func(k int) string {
		switch k {
		case 0:
			return string(rune(r.Intn(128)))
		case 1:
			return string(one[r.Intn(len(one))])
		case 2:
			return string(many[r.Intn(len(many))])
		case 3:
			return pick(r, "世", "ж", "Ω", "😀", "\u0301", "\u00a0", "€", "\ufffd", "ع", "\u0080")
		}
		for {
			c := rune(r.Intn(0x30000))
			if c < 0xd800 || c >= 0xe000 {
				return string(c)
			}
		}
	}
	add("")
	var all func(prefix []int, n int)
	all = func(prefix []int, n int) {
		if len(prefix) > 0 {
			var b strings.Builder
			for _, k := range prefix {
				b.WriteString(pickc(k))
			}
			add(b.String())
		}
		if n > 0 {
			for k := 0; k < 4; k++ {
				all(append(append([]int{}, prefix...), k), n-1)
			}
		}
	}
	all(nil, 5)
	for i := 0; i < a.n; i++ {
		n := 1 + r.Intn(60)
		if i%10 == 0 {
			n = 200 + r.Intn(2000)
		}
		var b strings.Builder
		k := r.Intn(6)
		for j := 0; j < n; j++ {
			switch k {
			case 0: // one foldable character somewhere in ASCII
				if j == n/2 {
					b.WriteString(pickc(1))
				} else {
					b.WriteByte(byte('a' + r.Intn(26)))
				}
			case 1: // the last
				if j == n-1 {
					b.WriteString(pickc(1 + r.Intn(2)))
				} else {
					b.WriteString(pickc([]int{0, 3}[r.Intn(2)]))
				}
			case 2:
				b.WriteString(pickc([]int{0, 3}[r.Intn(2)]))
			default:
				b.WriteString(pickc(r.Intn(5)))
			}
		}
		add(b.String())
	}
	writeJSON(a.out, M{"table": table, "moved": moved, "cases": cases})
}
