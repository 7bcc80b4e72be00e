package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"sync"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/synonyms"
	"github.com/clipperhouse/jargon/tokenqueue"
)

// ---- histories of calls on a stream (Stream.tla) ----

type streamLine struct {
	N int                 `json:"n"`
	B bool                `json:"b"`
	H [][]json.RawMessage `json:"h"`
}

var errWrite = errors.New("planted write failure")

// limited accepts so many bytes
type limited struct {
	buf    bytes.Buffer
	left   int
	failed int // writes after the failure
}

func (l *limited) Write(p []byte) (int, error) {
	if l.left < 0 {
		l.failed++
		return 0, errWrite
	}
	if len(p) > l.left {
		n := l.left
		l.buf.Write(p[:n])
		l.left = -1
		return n, errWrite
	}
	l.left -= len(p)
	return l.buf.Write(p)
}

// limitedString also takes strings
type limitedString struct{ *limited }

func (l limitedString) WriteString(s string) (int, error) { return l.Write([]byte(s)) }

// streamKind makes a stream of n tokens of two bytes each, or so many times two, which ends or fails
func streamKind(kind, n, times int, fail error, r *rand.Rand) (*jargon.TokenStream, []string) {
	vs := []string{}
	for i := 0; i < n; i++ {
		v := "é"
		switch kind {
		case 1: // plain text: digits do not join with line breaks
			v = []string{"ab", "\r\n", "c1", "\u00a0"}[i%4]
		case 2: // markup and text
			v = []string{"\r\n", "xy"}[i%2]
		default:
			v = fmt.Sprintf("%c%c", 'a'+i%26, 'a'+(i/26)%26)
			if i%3 == 1 {
				v = "é"
			}
			v = strings.Repeat(v, times)
		}
		vs = append(vs, v)
	}
	text := strings.Join(vs, "")
	rd := modeReader(r.Intn(nModes), []byte(text), r)
	rd.err = fail
	ts := []*jargon.Token{}
	for i, v := range vs {
		ts = append(ts, jargon.NewToken(v, i%2 == 0))
	}
	src := jargon.NewTokenStream((&source{toks: ts, err: fail}).next)
	switch kind {
	case 0:
		return src, vs
	case 1:
		return jargon.Tokenize(rd), vs
	case 2:
		return jargon.TokenizeHTML(rd), vs
	case 3:
		return src.Where(func(*jargon.Token) bool { return true }), vs
	case 4:
		return src.Filter(synonyms.NewFilter(map[string]string{"zzz zzz": "q"}, true, []rune{' '})), vs
	case 5:
		return src.Filter(), vs
	case 6:
		return src.Words(), vs
	}
	panic("kind")
}

func cmdStream(a args) {
	lines := [][]byte{}
	readLines(a.in, func(l []byte) { lines = append(lines, append([]byte{}, l...)) })
	rep := parallel(len(lines), a.seed, func(i int, r *rand.Rand, rep *Report) {
		var l streamLine
		die(json.Unmarshal(lines[i], &l))
		for kind := 0; kind < 7; kind++ {
			if kind > 0 && a.n > 1 && (i+kind)%a.n != 0 {
				continue
			}
			if l.B && (kind == 1 || kind == 2 || kind == 4) {
				continue // looking ahead, these may come upon the failure early
			}
			var fail error
			if l.B {
				fail = errPlanted
			}
			s, vs := streamKind(kind, l.N, 1, fail, r)
			playStream(rep, l, 1, 1, kind, s, vs, fail, r)
			// the same with many tokens for one (Stream!Scaled), where no writer gives up
			if k := []int{2, 40, 171, 256, 600, 1025, many(r)}[r.Intn(7)]; r.Intn(8) == 0 && !strings.Contains(string(lines[i]), `"w`+`0"`) && !strings.Contains(string(lines[i]), `"w1"`) && !strings.Contains(string(lines[i]), `"w3"`) {
				s, vs := streamKind(kind, l.N*k, 1, fail, r)
				playStream(rep, l, k, 1, kind, s, vs, fail, r)
			} else if kind != 1 && kind != 2 && r.Intn(8) == 0 { // or with long values; writers give up early all the same
				w := []int{100, 2048, 2049, 16384, 16385, 32768, 40000}[r.Intn(7)]
				if r.Intn(50) == 0 {
					w = 1<<19 + r.Intn(10)
				}
				s, vs := streamKind(kind, l.N, w, fail, r)
				playStream(rep, l, 1, w, kind, s, vs, fail, r)
			}
		}
	})
	// slices that were handed out earlier are still what they were
	for _, h := range held {
		rep.Cases++
		for j, t := range h.ts {
			if t == nil || t.String() != h.want[j] {
				rep.fail("C06", fmt.Sprintf("the result of ToSlice (%d tokens) has changed while other streams were read", len(h.ts)), M{"at": j}, h.want[j], fmt.Sprint(t))
				break
			}
		}
	}
	writeJSON(a.out, rep)
}

// many is sometimes very many
func many(r *rand.Rand) int {
	if r.Intn(12) > 0 {
		return 100
	}
	return []int{2049, 4096, 5000, 9000, 22000, 70000}[r.Intn(6)]
}

func clipped(x interface{}) string {
	s := fmt.Sprint(x)
	if len(s) > 200 {
		return fmt.Sprintf("%s... (%d bytes) ...%s", s[:100], len(s), s[len(s)-40:])
	}
	return s
}

// results of ToSlice to look at again
var held []heldSlice
var heldMu sync.Mutex

type heldSlice struct {
	ts   []*jargon.Token
	want []string
}

func hold(ts []*jargon.Token, want []string) {
	heldMu.Lock()
	defer heldMu.Unlock()
	if len(held) < 4000 {
		held = append(held, heldSlice{ts, want})
	}
}

// playStream replays a history; each token stands for k of them, each of 2*w bytes
func playStream(rep *Report, l streamLine, k, w, kind int, s *jargon.TokenStream, vs []string, fail error, r *rand.Rand) {
	val := func(t *jargon.Token) string {
		if t == nil {
			return "(none)"
		}
		return t.String()
	}
	want := func(n int) string {
		if n == 0 {
			return "(none)"
		}
		return vs[n*k-1]
	}
	rep.Cases++
	where := M{"tokens": l.N * k, "bytes each": 2 * w, "fails": l.B, "stream": []string{"source", "text", "html", "where", "synonyms", "filter()", "words"}[kind]}
	ops := []string{}
	defer func() {
		if e := recover(); e != nil {
			where["ops"] = ops
			rep.fail("C06", fmt.Sprint("panic: ", e), where, nil, nil)
		}
	}()
	begin(where)
	if t, e := s.Token(), s.Err(); t != nil || e != nil {
		rep.fail("C06", "current token or error before any retrieval", where, nil, val(t))
	}
	bad := func(why string, want, got interface{}) {
		if w > 1 {
			want, got = clipped(want), clipped(got)
		}
		where["ops"] = append([]string{}, ops...)
		prop := "C06"
		if strings.Contains(why, "error") && l.B {
			prop = "C06 C07"
		}
		rep.fail(prop, why, where, want, got)
	}
	for _, h := range l.H {
		var op string
		var res, e, tk, x int
		var o []int
		die(json.Unmarshal(h[0], &op))
		die(json.Unmarshal(h[1], &res))
		die(json.Unmarshal(h[2], &e))
		die(json.Unmarshal(h[3], &o))
		die(json.Unmarshal(h[4], &tk))
		die(json.Unmarshal(h[5], &x))
		ops = append(ops, op)
		rep.Steps++
		var all strings.Builder
		each := []string{}
		for _, n := range o {
			for j := (n - 1) * k; j < n*k; j++ {
				each = append(each, vs[j])
				all.WriteString(vs[j])
			}
		}
		if op == "count" || op == "write" {
			res *= k
		}
		limit := map[string]int{"w0": 0, "w1": 1, "w3": 3}[op]
		if op == "write" {
			res *= w
		}
		if op[0] == 'w' && op != "write" && w > 1 {
			limit *= w
			res *= w
		}
		for j := 1; j < k && (op == "next" || op == "scan") && res > 0; j++ { // the others of the k
			var t *jargon.Token
			var err error
			if op == "next" {
				t, err = s.Next()
			} else {
				s.Scan()
				t, err = s.Token(), s.Err()
			}
			if w := vs[(tk-1)*k+j-1]; err != nil || val(t) != w {
				bad("token in a long stream", w, fmt.Sprint(val(t), " ", err))
				return
			}
		}
		var err error
		writeErr := false
		switch op {
		case "next":
			var t *jargon.Token
			t, err = s.Next()
			if err == nil && val(t) != want(res) {
				bad("Next gives the wrong token", want(res), val(t))
			}
			if err != nil && t != nil {
				bad("Next gives a token and an error", nil, val(t))
			}
		case "scan":
			ok := s.Scan()
			if ok != (res == 1) {
				bad("Scan", res == 1, ok)
			}
			err = nil
		case "slice":
			var ts []*jargon.Token
			ts, err = s.ToSlice()
			if e == 0 {
				g := []string{}
				for _, t := range ts {
					g = append(g, val(t))
				}
				if strings.Join(g, "|") != strings.Join(each, "|") || len(g) != len(each) {
					bad("ToSlice", each, g)
				} else if len(g) > 0 && (k > 1 || r.Intn(10) == 0) {
					hold(ts, each)
				}
			}
		case "string":
			var g string
			g, err = s.String()
			if e == 0 && g != all.String() {
				if k > 1 {
					bad("String of a long stream", all.Len(), len(g))
					continue
				}
				bad("String", all.String(), g)
			}
		case "count":
			var g int
			g, err = s.Count()
			if e == 0 && g != res {
				bad("Count", res, g)
			}
		case "write":
			var b bytes.Buffer
			var g int64
			g, err = s.WriteTo(&b)
			if e == 0 && (b.String() != all.String() || g != int64(res)) {
				bad("WriteTo", fmt.Sprint(all.String(), " ", res), fmt.Sprint(b.String(), " ", g))
			}
			if e == 1 && (g != int64(b.Len()) || b.String() != all.String()) {
				bad("WriteTo before an error", fmt.Sprint(all.String(), " ", res), fmt.Sprint(b.String(), " ", g))
			}
		case "w0", "w1", "w3":
			lw := &limited{left: limit}
			var g int64
			var to io.Writer = lw
			if r.Intn(2) == 0 {
				to = limitedString{lw}
			}
			g, err = s.WriteTo(to)
			if g != int64(res) || lw.buf.Len() != res || !strings.HasPrefix(all.String(), lw.buf.String()) {
				bad("WriteTo a failing writer: written", res, fmt.Sprint(g, " ", lw.buf.String()))
			}
			if lw.failed > 0 {
				bad("WriteTo goes on after a write error", nil, lw.failed)
			}
			writeErr = e == 1 && tk != 0
		}
		if op != "scan" {
			switch {
			case e == 0 && err != nil:
				bad("unexpected error from "+op, nil, err.Error())
			case e == 1 && writeErr && err != errWrite:
				bad("the write error is not returned by "+op, errWrite.Error(), fmt.Sprint(err))
			case e == 1 && !writeErr && err != fail:
				bad("the error is not returned by "+op, fail.Error(), fmt.Sprint(err))
			}
		}
		looks := []int{2, 2, 1, 0}[r.Intn(4)]    // nor does not looking
		for twice := 0; twice < looks; twice++ { // looking does not change anything
			t, cerr := s.Token(), s.Err()
			if x == 0 && cerr != nil {
				bad("Err after "+op, nil, cerr.Error())
			}
			if x == 1 && cerr != fail {
				bad("Err after "+op+" is not the error", fail.Error(), fmt.Sprint(cerr))
			}
			if val(t) != want(tk) {
				bad("Token after "+op, want(tk), val(t))
			}
		}
		if x == 1 && kind != 0 && kind != 5 {
			break // what a filter or reader does after a failure is its own affair
		}
	}
	rep.sample(M{"tokens": l.N, "fails": l.B, "ops": ops})
}

// ---- histories of operations on queues (Queue.tla) ----

func cmdQueue(a args) {
	lines := [][]byte{}
	readLines(a.in, func(l []byte) { lines = append(lines, append([]byte{}, l...)) })
	scales := []int{1, 1, 3, 7, 17, 20, 33, 64, 100, 600}
	rep := parallel(len(lines)*2, a.seed, func(i int, r *rand.Rand, rep *Report) {
		// each token stands for K of them (Queue!Scaled)
		K := 1
		if i >= len(lines) {
			K = scales[r.Intn(len(scales))]
			i -= len(lines)
		}
		var l struct {
			H [][]json.RawMessage `json:"h"`
			Q [][]int             `json:"q"`
		}
		die(json.Unmarshal(lines[i], &l))
		qs := []*tokenqueue.TokenQueue{}
		for range l.Q {
			qs = append(qs, tokenqueue.New())
		}
		all := []*jargon.Token{}
		num := map[*jargon.Token]int{}
		mk := func(k int) []*jargon.Token {
			ts := []*jargon.Token{}
			for j := 0; j < k; j++ {
				t := jargon.NewToken(fmt.Sprintf("t%d", len(all)+1), false)
				all = append(all, t)
				num[t] = len(all)
				ts = append(ts, t)
			}
			return ts
		}
		ops := []string{}
		where := M{"scale": K}
		defer func() {
			if e := recover(); e != nil {
				where["ops"] = ops
				rep.fail("C19", fmt.Sprint("panic: ", e), where, nil, nil)
			}
		}()
		rep.Cases++
		begin(l.H)
		for _, h := range l.H {
			var op string
			var q, k, res int
			die(json.Unmarshal(h[0], &op))
			die(json.Unmarshal(h[1], &q))
			die(json.Unmarshal(h[2], &k))
			die(json.Unmarshal(h[3], &res))
			ops = append(ops, fmt.Sprint(op, " ", q, " ", k))
			rep.Steps++
			s := qs[q-1]
			switch op {
			case "new":
				qs[q-1] = tokenqueue.New(mk(k * K)...)
			case "push":
				if r.Intn(3) == 0 && K > 1 { // one by one
					for _, t := range mk(k * K) {
						s.Push(t)
					}
					break
				}
				s.Push(mk(k * K)...)
			case "pop":
				for j := 1; j <= K; j++ {
					if t := s.Pop(); num[t] != (res-1)*K+j {
						where["ops"] = ops
						rep.fail("C19", "Pop", where, (res-1)*K+j, num[t])
						break
					}
				}
			case "drop":
				s.Drop(k * K)
			case "popto":
				for j := 0; j < K; j++ {
					s.PopTo(qs[k-1])
				}
			case "flushto":
				s.FlushTo(qs[k-1])
			case "clear":
				s.Clear()
			}
		}
		where["ops"] = ops
		for q, w := range l.Q {
			l.Q[q] = []int{}
			for _, n := range w {
				for j := 1; j <= K; j++ {
					l.Q[q] = append(l.Q[q], (n-1)*K+j)
				}
			}
		}
		for q, want := range l.Q {
			s := qs[q]
			if s.Len() != len(want) || s.Any() != (len(want) > 0) {
				rep.fail("C19", fmt.Sprintf("length of queue %d", q+1), where, len(want), s.Len())
			}
		}
		// the contents, by popping in turns
		got := make([][]int, len(l.Q))
		for more := true; more; {
			more = false
			for q, s := range qs {
				if s.Any() && len(got[q]) < len(all)+1 {
					got[q] = append(got[q], num[s.Pop()])
					more = true
				}
			}
		}
		for q, want := range l.Q {
			if !sameInts(got[q], want) {
				rep.fail("C19", fmt.Sprintf("contents of queue %d", q+1), where, want, got[q])
			}
		}
		rep.sample(M{"ops": ops, "queues": l.Q})
	})
	writeJSON(a.out, rep)
}
