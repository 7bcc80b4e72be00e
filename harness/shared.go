package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/synonyms"
)

// ---- one filter, several streams (Shared.tla) ----

type aloneJob struct {
	FD   FD
	In   []ST
	Fail bool // the source fails after this
}

func (j aloneJob) err() error {
	if j.Fail {
		return errPlanted
	}
	return nil
}

// cmdAlone runs one filter on one stream, in a process of its own
func cmdAlone(a args) {
	var j aloneJob
	die(json.Unmarshal(readFile(a.in), &j))
	begin(j)
	writeJSON(a.out, apply(j.FD.real(), cleanTokens(j.In), j.err()))
}

// aloneAll is what each job gives, alone
func aloneAll(jobs []aloneJob, dir string) []Run {
	self, err := os.Executable()
	die(err)
	res := make([]Run, len(jobs))
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for i := range jobs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			in := fmt.Sprintf("%s/alone-%d.in", dir, i)
			out := fmt.Sprintf("%s/alone-%d.out", dir, i)
			writeJSON(in, jobs[i])
			c := exec.Command(self, "alone", "-in", in, "-out", out, "-data", dataDir)
			if b, err := c.CombinedOutput(); err != nil {
				fmt.Fprintln(os.Stderr, "alone:", err, string(b))
				os.Exit(2)
			}
			die(json.Unmarshal(readFile(out), &res[i]))
			begin(i)
		}(i)
	}
	wg.Wait()
	return res
}

var shareWords = []string{"a", "b", " ", " ", ",", "a", "B", "@", "#", "foo", "don't", "é", "running", "ruby", "on", "rails", "node", "js", "LeBron", "James", "the", "\n", "a*", "x"}

func shareInputs(r *rand.Rand, fds []FD, per int) []aloneJob {
	jobs := []aloneJob{}
	for _, d := range fds {
		for k := 0; k < per; k++ {
			vs := []string{}
			for j := 0; j < r.Intn(9)+1; j++ {
				vs = append(vs, shareWords[r.Intn(len(shareWords))])
			}
			jobs = append(jobs, aloneJob{d, toks(vs...), per > 1 && k == per-1})
		}
	}
	return jobs
}

// pairs of the same values, so that what one stream has seen matters to the other
func shareFDs() []FD {
	fds := append([]FD{}, allFDs...)
	return append(fds, syn(false, "", "a", "X", "a a", "y"), syn(true, " -", "a", "", "b a", "ba", "foo b", "fb"), FD{Op: "stop", Words: []string{"A", "foo", "."}, Ic: true}, FD{Op: "stop", Words: []string{"b"}}, FD{Op: "where", Pred: "punct"}, FD{Op: "map", Fns: []string{"rev"}}, FD{Op: "sig", Sigil: "#", Legal: "list", Names: []string{"a", "foo", "#"}})
}

func cmdShared(a args) {
	r := rand.New(rand.NewSource(a.seed))
	scheds := [][][]interface{}{}
	readLines(a.in, func(l []byte) {
		var s [][]interface{}
		die(json.Unmarshal(l, &s))
		scheds = append(scheds, s)
	})
	dir, err := os.MkdirTemp("", "vh-alone")
	die(err)
	defer os.RemoveAll(dir)
	fds := shareFDs()
	const per = 4
	jobs := shareInputs(r, fds, per)
	want := aloneAll(jobs, dir)
	rep := &Report{}
	for fi, d := range fds {
		for _, s := range scheds {
			if a.n > 1 && r.Intn(a.n) != 0 {
				continue
			}
			f := d.real()
			streams := map[int]*jargon.TokenStream{}
			job := map[int]int{}
			got := map[int][]ST{}
			names := []string{}
			where := M{"filter": short(d)}
			bad := ""
			rep.Cases++
			step := func(k int) bool {
				t, err := streams[k].Next()
				rep.Steps++
				if err == errPlanted && jobs[job[k]].Fail {
					return false
				}
				if err != nil {
					bad = "error: " + err.Error()
					return false
				}
				if t == nil {
					if jobs[job[k]].Fail {
						bad = "the failure of its source is not reported"
					}
					return false
				}
				got[k] = append(got[k], obs(t))
				return len(got[k]) < 200
			}
			func() {
				defer func() {
					if e := recover(); e != nil {
						bad = fmt.Sprint("panic: ", e)
					}
				}()
				for _, e := range s {
					k := int(e[1].(float64))
					names = append(names, fmt.Sprint(e[0], k))
					if e[0] == "make" {
						job[k] = fi*per + r.Intn(per)
						streams[k] = f(jargon.NewTokenStream((&source{toks: cleanTokens(jobs[job[k]].In), err: jobs[job[k]].err()}).next))
					} else {
						step(k)
					}
				}
				for more := true; more; { // the rest, in turns
					more = false
					for k := range streams {
						if step(k) {
							more = true
						}
					}
				}
			}()
			where["schedule"] = strings.Join(names, " ")
			ins := M{}
			for k, j := range job {
				ins[fmt.Sprint(k)] = show(jobs[j].In)
			}
			where["inputs"] = ins
			begin(where)
			for k, j := range job {
				if bad != "" || !eqST(got[k], want[j].Out) {
					rep.fail("C12", fmt.Sprintf("stream %d is not what it is alone %s", k, bad), where, show(want[j].Out), show(got[k]))
				}
			}
			rep.sample(where)
		}
		// a filter that has seen a lot: a long stream of it is read, in part, then others, then the rest, then others again
		for _, fill := range [][]string{{"qwx", " "}, {"a", " "}, {"."}, {"don't", " ", "@", "foo", ","}, shareWords} {
			f := d.real()
			in := []ST{}
			for len(in) < 5000 {
				in = append(in, toks(fill...)...)
			}
			long := f(jargon.NewTokenStream((&source{toks: cleanTokens(in)}).next))
			where := M{"filter": short(d), "after a long stream of": fill}
			begin(where)
			for half := 0; half < 2; half++ {
				for n := 0; n < 2000 || half == 1; n++ {
					if t, err := long.Next(); t == nil || err != nil {
						break
					}
					rep.Steps++
				}
				for j := fi * per; j < (fi+1)*per; j++ {
					rep.Cases++
					run := apply(f, cleanTokens(jobs[j].In), jobs[j].err())
					if !eqST(run.Out, want[j].Out) || run.Fin != want[j].Fin {
						rep.fail("C12", "a stream of a filter that was used for long is not what it is alone", M{"filter": short(d), "after a long stream of": fill, "input": show(jobs[j].In)}, show(want[j].Out), show(run.Out))
					}
				}
			}
		}
	}
	writeJSON(a.out, rep)
}

// cmdRace uses filters from several goroutines at once, their first use included; meant to be built with -race
func cmdRace(a args) {
	r := rand.New(rand.NewSource(a.seed))
	rep := &Report{}
	fds := shareFDs()
	const G = 6
	type res struct {
		d    FD
		in   []ST
		outs [][]ST
		bad  string
	}
	all := []*res{}
	for round := 0; round < a.n; round++ {
		for _, i := range r.Perm(len(fds)) {
			d := fds[i]
			ts := cleanTokens(shareInputs(r, []FD{d}, 1)[0].In)
			more := cleanTokens(toks("a", " ", "b", ",", "@", "a", " ", "don't", " ", "ruby", " ", "on", " ", "rails", "é"))
			ts = append(ts, more...)
			x := &res{d: d, in: sts(ts), outs: make([][]ST, 2*G)}
			begin(M{"filter": short(d), "input": show(x.in)})
			f := d.real()
			var wg sync.WaitGroup
			var mu sync.Mutex
			start := make(chan bool)
			for g := 0; g < G; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					defer func() {
						if e := recover(); e != nil {
							mu.Lock()
							x.bad = fmt.Sprint("panic: ", e)
							mu.Unlock()
						}
					}()
					<-start
					for k := 0; k < 2; k++ { // the same tokens for all
						run := drain(f(jargon.NewTokenStream((&source{toks: ts}).next)), nil, 1000, nil)
						x.outs[2*g+k] = run.Out
						if run.Fin != "eof" {
							mu.Lock()
							x.bad = run.Fin + " " + run.Msg
							mu.Unlock()
						}
						// whole texts as well
						jargon.TokenizeString(vals(x.in)[0]+" don't. <b> a\n").Filter(f, f).String()
						jargon.TokenizeHTML(strings.NewReader("<p>a b</p> the. <script>x</script> a")).Filter(f).Distinct().Words().Count()
					}
				}(g)
			}
			close(start)
			wg.Wait()
			all = append(all, x)
		}
	}
	dir, err := os.MkdirTemp("", "vh-race")
	die(err)
	defer os.RemoveAll(dir)
	jobs := []aloneJob{}
	for _, x := range all {
		jobs = append(jobs, aloneJob{x.d, x.in, false})
	}
	want := aloneAll(jobs, dir)
	for i, x := range all {
		for g, o := range x.outs {
			rep.Cases++
			rep.Steps += len(o)
			if x.bad != "" || !eqST(o, want[i].Out) {
				rep.fail("C12", fmt.Sprintf("use %d of %d at the same time is not what it is alone %s", g, len(x.outs), x.bad), M{"filter": short(x.d), "input": show(x.in)}, show(want[i].Out), show(o))
			}
		}
		if i < 3 {
			rep.Samples = append(rep.Samples, M{"filter": short(x.d), "input": show(x.in), "goroutines": G})
		}
	}
	writeJSON(a.out, rep)
}

// ---- a dictionary that cannot be loaded ----

func badDict(r *rand.Rand) jargon.Filter {
	m := map[string]string{}
	for i := 0; i < r.Intn(8); i++ {
		m[fmt.Sprintf("w%d x", i)] = "canon"
	}
	long := strings.Repeat(pick(r, "a", "é", "_", "1"), 70000)
	switch r.Intn(4) {
	case 0:
		m[long] = "canon"
	case 1:
		m["a, "+long+", b"] = "canon"
	case 2:
		m["ok "+long] = ""
	default:
		m[long+",a"] = "x"
		m["b, "+long] = "y"
	}
	return synonyms.NewFilter(m, r.Intn(2) == 0, []rune(pick(r, "", " ", " -")))
}

func isLoadError(err error) bool { return err != nil && errors.Is(err, bufio.ErrTooLong) }

func cmdBadDict(a args) {
	scheds := [][][]interface{}{}
	readLines(a.in, func(l []byte) {
		var s [][]interface{}
		die(json.Unmarshal(l, &s))
		scheds = append(scheds, s)
	})
	rep := parallel(len(scheds), a.seed, func(i int, r *rand.Rand, rep *Report) {
		if a.n > 1 && r.Intn(a.n) != 0 {
			return
		}
		f := badDict(r)
		streams := map[int]*jargon.TokenStream{}
		names := []string{}
		where := M{}
		begin(scheds[i])
		rep.Cases++
		defer func() {
			if e := recover(); e != nil {
				where["schedule"] = strings.Join(names, " ")
				rep.fail("C13", fmt.Sprint("panic: ", e), where, nil, nil)
			}
		}()
		for _, e := range scheds[i] {
			k := int(e[1].(float64))
			names = append(names, fmt.Sprint(e[0], k))
			rep.Steps++
			if e[0] == "make" {
				in := pick(r, "", "a", "w1 x. foo", "the quick\n", ".", " ", "a b c d e f g h i j k l m n")
				streams[k] = f(jargon.TokenizeString(in))
				if r.Intn(3) == 0 { // through other filters too
					streams[k] = streams[k].Filter(allFDs[1+r.Intn(14)].real())
				}
				continue
			}
			t, err := streams[k].Next()
			if t != nil || !isLoadError(err) {
				where["schedule"] = strings.Join(names, " ")
				rep.fail("C13", "the load error is not reported", where, bufio.ErrTooLong.Error(), fmt.Sprint(t, " ", err))
				return
			}
		}
		// then by any method, again and again
		for k := 0; k < 6; k++ {
			m := methods[r.Intn(len(methods))]
			names = append(names, "fresh "+m)
			got, _, err := consume(f(jargon.TokenizeString(pick(r, "a b", "", "w1 x"))), m)
			if !isLoadError(err) || strings.Join(got, "") != "" {
				where["schedule"] = strings.Join(names, " ")
				rep.fail("C13", "the load error is not reported by "+m, where, bufio.ErrTooLong.Error(), fmt.Sprint(got, " ", err))
			}
		}
		rep.sample(M{"schedule": strings.Join(names, " ")})
	})
	// at the same time
	r := rand.New(rand.NewSource(a.seed))
	for round := 0; round < 30; round++ {
		f := badDict(r)
		var wg sync.WaitGroup
		var mu sync.Mutex
		begin(round)
		bad := ""
		start := make(chan bool)
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						mu.Lock()
						bad = fmt.Sprint("panic: ", e)
						mu.Unlock()
					}
				}()
				<-start
				for k := 0; k < 2; k++ {
					got, _, err := consume(f(jargon.TokenizeString("a w1 x b")), methods[(g+k)%len(methods)])
					if !isLoadError(err) || strings.Join(got, "") != "" {
						mu.Lock()
						bad = fmt.Sprint(got, " ", err)
						mu.Unlock()
					}
				}
			}(g)
		}
		close(start)
		wg.Wait()
		rep.Cases += 16
		if bad != "" {
			rep.fail("C13", "the load error is not reported to every goroutine", M{"round": round}, bufio.ErrTooLong.Error(), bad)
		}
	}
	writeJSON(a.out, rep)
}
