package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"

	"github.com/clipperhouse/jargon"
)

// ---- reading fails: every position, every kind of error, every way of consuming (C07) ----

type myErr struct{ n int }

func (e *myErr) Error() string { return fmt.Sprint("own error ", e.n) }

var readErrors = []error{errRead, io.ErrUnexpectedEOF, io.ErrClosedPipe, context.Canceled, &myErr{1}, fmt.Errorf("wrapped: %w", io.EOF), io.ErrNoProgress, os.ErrDeadlineExceeded, errors.New("EOF"), bufio.ErrTooLong, &os.PathError{Op: "read", Path: "x", Err: io.EOF}, io.ErrShortBuffer, bufio.ErrFinalToken, context.DeadlineExceeded, os.ErrClosed, errors.New("")}

var allFDs = []FD{syn(true, " ", "a b", "X", "b", "y", "ruby on rails", "z"), {Op: "con"}, {Op: "handles"}, {Op: "hashtags"}, {Op: "sig", Sigil: "a", Legal: "any"}, {Op: "stop", Words: []string{"a", "the"}, Ic: true},
	{Op: "words"}, {Op: "lemmas"}, {Op: "distinct"}, {Op: "where", Pred: "even"}, {Op: "map", Fns: []string{"upper", "twice"}}, {Op: "ascii"}, {Op: "nfc"}, {Op: "nfkd"}, {Op: "stem-english"}, {Op: "stem-russian"}, {Op: "stack"}, {Op: "nba"},
	{Op: "stem-spanish"}, {Op: "stem-swedish"}, {Op: "stem-french"}, {Op: "stem-norwegian"}, {Op: "nfd"}, {Op: "nfkc"}}

var methods = []string{"next", "scan", "slice", "string", "count", "write"}

// consume a stream by a method; returns what was seen of the tokens (values), whether all of it is known, and the error
func consume(s *jargon.TokenStream, method string) (vs []string, known bool, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	switch method {
	case "next":
		for {
			t, err := s.Next()
			if err != nil || t == nil {
				return vs, true, err
			}
			vs = append(vs, t.String())
		}
	case "scan":
		for s.Scan() {
			vs = append(vs, s.Token().String())
		}
		return vs, true, s.Err()
	case "slice":
		ts, err := s.ToSlice()
		for _, t := range ts {
			vs = append(vs, t.String())
		}
		return vs, err == nil, err
	case "string":
		v, err := s.String()
		return []string{v}, false, err
	case "count":
		_, err := s.Count()
		return nil, false, err
	case "write":
		var b bytes.Buffer
		_, err := s.WriteTo(&b)
		return []string{b.String()}, false, err
	}
	panic(method)
}

func cmdFault(a args) {
	fds := allFDs
	lx := []string{"w", "s", "e", "lt", "p", "n", "o", "c", "v", "m", "d", "q", "z", "sc", "xs", "st", "xt", "ti", "xi", "ta", "xa"}
	rep := parallel(a.n, a.seed, func(i int, r *rand.Rand, rep *Report) {
		html := i%2 == 1
		var text string
		if html {
			ks := []string{}
			for j := 0; j < 1+r.Intn(10); j++ {
				ks = append(ks, lx[r.Intn(len(lx))])
			}
			text = strings.Join(docOf(ks, r), "")
		} else {
			text = textOf(r, 1+r.Intn(7), []string{"a", "b", "a b", "@", "#", "@foo", "#go", "ruby on rails", "node js", "don't", "é", "running", "3.5", "LeBron James"})
			if r.Intn(5) == 0 {
				text += prose[r.Intn(len(prose))]
			}
		}
		if i%40 == 0 { // beyond the first buffer
			text = strings.Repeat("xy z, ", 680) + text
		}
		if len(text) > 40000 {
			return
		}
		mk := func(rd io.Reader) *jargon.TokenStream {
			if html {
				return jargon.TokenizeHTML(rd)
			}
			return jargon.Tokenize(rd)
		}
		for rounds := 0; rounds < 12; rounds++ {
			cut := r.Intn(len(text) + 1)
			if rounds == 0 {
				cut = 0
			} else if rounds == 1 {
				cut = len(text)
			}
			pipe := []FD{}
			fs := []jargon.Filter{}
			for j := r.Intn(4); j > 0; j-- {
				d := fds[r.Intn(len(fds))]
				pipe = append(pipe, d)
				fs = append(fs, d.real())
			}
			err := readErrors[r.Intn(len(readErrors))]
			m := methods[r.Intn(len(methods))]
			mode := []int{0, 1, 2, 3, 4, 5, 6}[r.Intn(7)]
			rd := modeReader(mode, []byte(text[:cut]), r)
			rd.err = err
			names := []interface{}{}
			for _, d := range pipe {
				names = append(names, short(d))
			}
			tail := text[:cut]
			if len(tail) > 200 {
				tail = tail[len(tail)-200:]
			}
			where := M{"read": tail, "length": cut, "html": html, "error": err.Error(), "mode": mode, "filters": names, "method": m}
			begin(where)
			got, known, gerr := consume(mk(rd).Filter(fs...), m)
			rep.Cases++
			rep.Steps += len(got)
			if gerr != err {
				rep.fail("C07", "the error does not arrive: "+fmt.Sprint(gerr), where, err.Error(), got)
				continue
			}
			// what came before: a prefix of what comes of the text that was read
			fs2 := []jargon.Filter{}
			for _, d := range pipe {
				fs2 = append(fs2, d.real())
			}
			full, _, ferr := consume(mk(strings.NewReader(text[:cut])).Filter(fs2...), "next")
			if ferr != nil {
				continue
			}
			if known || m == "next" || m == "scan" {
				ok := len(got) <= len(full)
				for j := 0; ok && j < len(got); j++ {
					ok = got[j] == full[j]
				}
				if !ok {
					rep.fail("C07", "what came before the error is not a prefix", where, full, got)
				}
			} else if m == "write" && len(got) > 0 && !strings.HasPrefix(strings.Join(full, ""), got[0]) {
				rep.fail("C07", "what was written before the error is not a prefix", where, strings.Join(full, ""), got[0])
			}
			rep.sample(where)
		}
		// a source of tokens which fails once, and from then on has ended: the error is not to be asked for twice
		src, serr := mk(strings.NewReader(text)).ToSlice()
		if serr != nil || len(src) > 200 {
			return
		}
		for rounds := 0; rounds < 8; rounds++ {
			cut := r.Intn(len(src) + 1)
			err := readErrors[r.Intn(len(readErrors))]
			m := methods[r.Intn(len(methods))]
			fs := []jargon.Filter{}
			names := []interface{}{}
			for j := 1 + r.Intn(3); j > 0; j-- {
				d := fds[r.Intn(len(fds))]
				fs = append(fs, d.real())
				names = append(names, short(d))
			}
			where := M{"text": text, "tokens before the error": cut, "html": html, "error": err.Error(), "filters": names, "method": m, "once": true}
			begin(where)
			pos, failed := 0, false
			s := jargon.NewTokenStream(func() (*jargon.Token, error) {
				if pos < cut {
					pos++
					return src[pos-1], nil
				}
				if !failed {
					failed = true
					return nil, err
				}
				return nil, nil
			})
			got, _, gerr := consume(s.Filter(fs...), m)
			rep.Cases++
			rep.Steps += len(got)
			if gerr != err {
				rep.fail("C07", "the error does not arrive: "+fmt.Sprint(gerr), where, err.Error(), got)
			}
		}
	})
	// a token that is too long is an error, never a shorter text
	for _, size := range []int{60000, 65535, 65536, 65537, 70000, 131072, 300000} {
		for _, v := range []string{"a", " ", "é", "_"} {
			for k, text := range []string{strings.Repeat(v, size/len(v)), "x, " + strings.Repeat(v, size/len(v)) + "! y"} {
				for _, html := range []bool{false, true} {
					if html && k == 0 {
						text = "<p>" + text + "</p>"
					}
					where := M{"long token of": v, "size": size, "html": html}
					begin(where)
					var s *jargon.TokenStream
					if html {
						s = jargon.TokenizeHTML(strings.NewReader(text))
					} else {
						s = jargon.TokenizeString(text)
					}
					got, _, err := consume(s, "next")
					rep.Cases++
					if err == nil && strings.Join(got, "") != text {
						p := "C01 C07"
						if html {
							p = "C04 C07"
						}
						rep.fail(p, "text shortened without an error", where, len(text), len(strings.Join(got, "")))
					}
				}
			}
		}
	}
	writeJSON(a.out, rep)
}
