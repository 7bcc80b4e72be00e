package main

import (
	"fmt"
	"io"
	"os/exec"
	"sync/atomic"
	"time"

	"github.com/clipperhouse/jargon"
)

// ---- output on endless input (C11): WriteTo, and the command ----

// gapWriter fails the run when too much was read for what was written
type gapWriter struct {
	read    func() int
	written int
	most    int
	calls   int
	stop    int
}

var errStop = fmt.Errorf("enough")

func (g *gapWriter) Write(p []byte) (int, error) {
	g.calls++
	if d := g.read() - g.written; d > g.most {
		g.most = d
	}
	g.written += len(p)
	if g.written > g.stop {
		return 0, errStop
	}
	return len(p), nil
}

type endlessUpTo struct {
	endless
	end int
}

func (e *endlessUpTo) Read(p []byte) (int, error) {
	if e.read > e.end {
		return 0, io.EOF
	}
	return e.endless.Read(p)
}

const outBound = 1 << 20 // a buffer may hold output back, of whatever fixed size

func lagWrite(rep *Report) {
	for _, x := range []struct {
		html bool
		text string
		fs   []FD
	}{
		{false, "a b ", nil}, {true, "<p>a b</p>\n", nil}, {false, "I don't like ruby on rails, running @foo. ", []FD{{Op: "con"}, {Op: "stack"}, {Op: "stem-english"}, {Op: "handles"}}},
		{false, "the a x ", []FD{{Op: "stop", Words: []string{"a", "the"}, Ic: true}}}, {true, "<b>é</b>\n", []FD{{Op: "ascii"}, {Op: "nfkd"}}}, {false, ". ", []FD{{Op: "nba"}}}, {false, "@", []FD{{Op: "handles"}}},
	} {
		where := M{"write all of": x.text, "html": x.html, "filters": shorts(x.fs)}
		begin(where)
		rep.Cases++
		rd := &endlessUpTo{endless{text: x.text}, 12 << 20}
		var s *jargon.TokenStream
		if x.html {
			s = jargon.TokenizeHTML(rd)
		} else {
			s = jargon.Tokenize(rd)
		}
		for _, d := range x.fs {
			s = d.real()(s)
		}
		w := &gapWriter{read: func() int { begin(where); return rd.read }, stop: 3 << 20}
		_, err := s.WriteTo(w)
		rep.Steps += w.calls
		if err != errStop {
			rep.fail("C11", fmt.Sprintf("WriteTo does not stop at the error of the writer: %v", err), where, errStop.Error(), nil)
		}
		// filters change the amount of text a bit; twice as much is allowed for
		if w.most > 2*w.stop+outBound {
			rep.fail("C11", "WriteTo holds the output back", where, outBound, w.most)
		}
		rep.sample(M{"WriteTo": x.text, "most ahead": w.most})
	}
}

// cmdLagCli feeds the command without end: it has to give output
func cmdLagCli(a args) {
	rep := &Report{}
	lagWrite(rep)
	for _, x := range []struct {
		args []string
		text string
	}{
		{nil, "a b "}, {[]string{"-lines"}, "some words. "}, {[]string{"-stack"}, "ruby on rails, and x "}, {[]string{"-html", "-ascii"}, "<p>caf\u00e9 a</p>\n"}, {[]string{"-contractions", "-stem", "-lines"}, "I don't like running\n"},
		{[]string{"-stack", "-lemmas", "-lines"}, "we use ruby on rails here, "}, {[]string{"-html", "-stack"}, "<br/>node js"}, {[]string{"-lang", "french", "-stem"}, "nationalement. "},
	} {
		where := M{"args": x.args, "endless": x.text}
		begin(where)
		rep.Cases++
		func() {
			c := exec.Command(a.bin, x.args...)
			in, err := c.StdinPipe()
			die(err)
			out, err := c.StdoutPipe()
			die(err)
			die(c.Start())
			defer func() {
				c.Process.Kill()
				c.Wait()
			}()
			var seen, last int64
			ended := make(chan error, 1)
			go func() {
				b := make([]byte, 1<<16)
				for {
					n, err := out.Read(b)
					atomic.AddInt64(&seen, int64(n))
					if err != nil {
						ended <- err
						return
					}
				}
			}()
			// give text until there has been output three times over
			e := &endless{text: x.text}
			b := make([]byte, 1<<16)
			fed, times := 0, 0
			for times < 3 {
				e.Read(b)
				if _, err := in.Write(b); err != nil {
					rep.fail("C11", "the command ends on endless input", where, nil, fed)
					return
				}
				begin(where)
				fed += len(b)
				rep.Steps++
				if s := atomic.LoadInt64(&seen); s > last {
					last = s
					times++
				}
				if fed > 48<<20 {
					// it may just be slow
					time.Sleep(2 * time.Second)
					if atomic.LoadInt64(&seen) == last {
						rep.fail("C11", fmt.Sprintf("the command has read %d bytes of endless input and has put out %d", fed, last), where, nil, nil)
						return
					}
				}
			}
			rep.sample(M{"args": x.args, "fed": fed, "seen": last})
		}()
	}
	writeJSON(a.out, rep)
}
