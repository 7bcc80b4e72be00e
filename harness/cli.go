package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/ascii"
	"github.com/clipperhouse/jargon/filters/contractions"
	"github.com/clipperhouse/jargon/filters/stackoverflow"
)

// ---- the command (Cli.tla) ----

type cliLine struct {
	O []struct{ N, F string } `json:"o"`
	E struct{ Stdin, File, Out, Stdout, Text string }
	R struct {
		Chain              []string
		Lang               string
		Html, Lines, Count bool
		Src, To            string
		Exit               int
		Err                bool
	}
}

var cliFilters = map[string]jargon.Filter{"ascii": ascii.Fold, "contractions": contractions.Expand, "stack": stackoverflow.Tags,
	"lemmas": (*jargon.TokenStream).Lemmas, "distinct": (*jargon.TokenStream).Distinct}

// what the library gives, the way the command is to print it
func cliWant(l cliLine, text string) (string, error) {
	var s *jargon.TokenStream
	if l.R.Html {
		s = jargon.TokenizeHTML(strings.NewReader(text))
	} else {
		s = jargon.TokenizeString(text)
	}
	for _, n := range l.R.Chain {
		if n == "stem" {
			s = stemFilters[l.R.Lang](s)
		} else {
			s = cliFilters[n](s)
		}
	}
	var b strings.Builder
	n := 0
	for {
		t, err := s.Next()
		if err != nil {
			return "", err
		}
		if t == nil {
			break
		}
		n++
		b.WriteString(t.String())
		if l.R.Lines {
			b.WriteByte('\n')
		}
	}
	if l.R.Count {
		return strconv.Itoa(n) + "\n", nil
	}
	return b.String(), nil
}

var cliWords = []string{"Ruby on Rails", "node.js", "don't", "CAN'T", "We’ve", "café", "naïve", "Ångström", "running", "management", "manager", "C++", "asp.net", "the", "the", "a", "I", "React native", "<b>", "</b>", "<p class=\"x\">", "<script>var a = 'café';</script>", "&amp;", "continuellement", "бегущий", "книгами", "jaktkarlarne", "corriendo", "@foo", "#bar", "%d", "%s", "\\n", "日本", "1,000", "😀"}

func cliText(r *rand.Rand, kind string) string {
	if kind == "empty" {
		return ""
	}
	var b strings.Builder
	n := 1 + r.Intn(40)
	want := 0
	if kind == "huge" {
		want = 4<<20 + r.Intn(5<<20)
	}
	if kind == "big" {
		want = []int{4095, 4096, 4097, 8192, 65535, 65536, 65537, 100000, 131072, 300000}[r.Intn(10)]
		if r.Intn(12) == 0 {
			want = []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 1500000}[r.Intn(4)]
		}
	}
	for i := 0; i < n || b.Len() < want; i++ {
		b.WriteString(recase(r, cliWords[r.Intn(len(cliWords))]))
		b.WriteString(seps[r.Intn(len(seps))])
	}
	if kind == "toolong" || r.Intn(4) == 0 { // a long piece of markup, which is a token with -html
		n := r.Intn(40)
		if kind == "big" || r.Intn(3) == 0 {
			n = []int{1000, 20000, 33000, 60000}[r.Intn(4)] + r.Intn(10)
		}
		open, close := "<!--", "-->"
		if r.Intn(2) == 0 {
			open, close = "<script>", "</script>"
		}
		b.WriteString(open + strings.Repeat(pick(r, "x ", "é ", "> "), n) + pick(r, "", "\n", ">\n", "\n\n", ">") + close + pick(r, "", "\n", " "))
	}
	if kind == "toolong" {
		b.WriteString(strings.Repeat(pick(r, "a", "é", "7"), 70000+r.Intn(70000)))
		if r.Intn(2) == 0 {
			b.WriteString(" more")
		}
	}
	s := b.String()
	switch r.Intn(6) { // beginnings and ends that programs like to treat in a special way
	case 0:
		s = pick(r, "\ufeff", "\xff\xfe", "\x00", "\r\n", " ", "\n\n", "#!/bin/sh\n", "<!DOCTYPE html>\n<html>", "<html>", "<?xml version=\"1.0\"?>", "\x1f\x8b\x08", "\xe2\x80", "---\n", "\u200b", "{", "%PDF-1.4\n") + s
	case 1:
		s += pick(r, "\n", "\r\n", "\n\n\n", " ", "\x00", "\x1a", "\x04", "\xc3", "\xe2\x80", "\ufeff", "\t", "\u2028", ".", "'", "\x00\x00")
	}
	if want > 0 { // exactly
		s = s[:want]
	}
	return s
}

type slowPipe struct {
	s string
	r *rand.Rand
}

func (p *slowPipe) Read(b []byte) (int, error) {
	if p.s == "" {
		return 0, io.EOF
	}
	n := len(b)
	if k := 1 + p.r.Intn(5000); k < n {
		n = k
	}
	n = copy(b[:n], p.s)
	p.s = p.s[n:]
	return n, nil
}

func cliArgs(l cliLine, r *rand.Rand, file, out string) []string {
	args := [][]string{}
	last := []string{}
	strarg := func(name, v string) []string {
		d := pick(r, "-", "-", "--")
		if r.Intn(2) == 0 {
			return []string{d + name + "=" + v}
		}
		return []string{d + name, v}
	}
	for _, o := range l.O {
		switch {
		case o.N == "lang":
			args = append(args, strarg("lang", o.F))
		case o.N == "bogus":
			args = append(args, []string{pick(r, "-bogus", "--bogus", "-stak", "-Stack", "-stackk", "-l", "-count2", "-bogus=1")})
		case o.N == "badvalue":
			args = append(args, []string{pick(r, "-count=maybe", "-stack=2", "--html=yes", "-lines=", "-lemmas=on", "-ascii=tru")})
		case o.N == "noarg":
			last = []string{pick(r, "-lang", "-file", "--out")}
		case o.F == "one":
			args = append(args, []string{"-" + o.N})
		case o.F == "two":
			args = append(args, []string{"--" + o.N})
		case o.F == "eq":
			args = append(args, []string{pick(r, "-", "--") + o.N + "=" + pick(r, "true", "1", "T", "TRUE", "t", "True")})
		case o.F == "off":
			args = append(args, []string{pick(r, "-", "--") + o.N + "=" + pick(r, "false", "0", "F", "f", "FALSE", "False")})
		default:
			panic("option " + o.N + " " + o.F)
		}
	}
	put := func(a []string) {
		i := r.Intn(len(args) + 1)
		args = append(args[:i:i], append([][]string{a}, args[i:]...)...)
	}
	if l.E.File != "none" {
		put(strarg("file", file))
	}
	if l.E.Out != "none" {
		put(strarg("out", out))
	}
	flat := []string{}
	for _, a := range append(args, last) {
		flat = append(flat, a...)
	}
	return flat
}

var huge int64 // inputs from files, to make one of them huge now and then

// untold: a file that can be read, has something in it, and says that it has nothing
func untold(p string) bool {
	st, err := os.Stat(p)
	if err != nil || !st.Mode().IsRegular() || st.Size() != 0 {
		return false
	}
	b, err := os.ReadFile(p)
	return err == nil && len(b) > 0 && len(b) < 4000
}

func cmdCli(a args) {
	lines := [][]byte{}
	pickr := rand.New(rand.NewSource(a.seed))
	readLines(a.in, func(l []byte) {
		if a.n <= 1 || pickr.Intn(a.n) == 0 {
			lines = append(lines, append([]byte{}, l...))
		}
	})
	top, err := os.MkdirTemp("", "vh-cli")
	die(err)
	defer os.RemoveAll(top)
	rep := parallel(len(lines), a.seed, func(i int, r *rand.Rand, rep *Report) {
		var l cliLine
		die(json.Unmarshal(lines[i], &l))
		dir := filepath.Join(top, strconv.Itoa(i))
		die(os.Mkdir(dir, 0o755))
		defer os.RemoveAll(dir)
		kind := l.E.Text
		if a.mode == "sizes" && r.Intn(3) == 0 {
			kind = "big"
		}
		if l.R.Exit == 0 && kind != "toolong" && kind != "empty" && (a.mode == "sizes" && i%300 == 7 || l.E.File == "ok" && atomic.AddInt64(&huge, 1)%40 == 1) {
			kind = "huge"
		}
		text := cliText(r, kind)
		in := filepath.Join(dir, pick(r, "in.txt", "in.txt", "in", "in.html", "in.HTM", "in.gz", "in put.md", "ín.json", "in.xml", "in%20.csv", ".in", "in,a", "a=b", "-", "stdin", "0", "true", "english"))
		out := filepath.Join(dir, pick(r, "out.txt", "out.txt", "out", "out put", "out.html", "öut.gz", ".out", "out,b", "c=d", "-", "stdout", "1", "NUL"))
		if in == out {
			out += "2"
		}
		old := strings.Repeat("old content\n", 30000)
		switch l.E.File {
		case "ok":
			// there are files that have more in them than they say
			if p := "/proc/version"; kind != "toolong" && kind != "empty" && kind != "huge" && r.Intn(12) == 0 && untold(p) {
				in, text = p, string(readFile(p))
				break
			}
			die(os.WriteFile(in, []byte(text), 0o644))
		case "fifo":
			die(syscall.Mkfifo(in, 0o644))
			go func() {
				if f, err := os.OpenFile(in, os.O_WRONLY, 0); err == nil {
					io.Copy(f, &slowPipe{text, rand.New(rand.NewSource(int64(i)))})
					f.Close()
				}
			}()
			defer func() { // in case nobody has opened it
				if f, err := os.OpenFile(in, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
					f.Close()
				}
			}()
		case "dir":
			die(os.Mkdir(in, 0o755))
		}
		switch l.E.Out {
		case "old":
			die(os.WriteFile(out, []byte(old), 0o644))
		case "nodir":
			out = filepath.Join(dir, "nowhere", "out.txt")
		case "isdir":
			die(os.Mkdir(out, 0o755))
		}
		// A full device is played by a limit on the size of files, which goes for the
		// command only: nothing outside the scratch folder is ever written to.
		limited := l.R.To == "out" && l.E.Out == "full" || l.R.To == "stdout" && l.E.Stdout == "full"
		named := func(p string) string { // as it is, or from where the command runs
			if rel, err := filepath.Rel(dir, p); err == nil && r.Intn(2) == 0 {
				return rel
			}
			return p
		}
		argv := cliArgs(l, r, named(in), named(out))
		note := text
		if len(note) > 300 {
			note = fmt.Sprintf("%s... (%d bytes)", note[:300], len(text))
		}
		where := M{"args": argv, "env": l.E, "text": note}
		begin(where)
		ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
		defer cancel()
		c := exec.CommandContext(ctx, a.bin, argv...)
		if limited {
			c = exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", `ulimit -f 0 && exec "$0" "$@"`, a.bin}, argv...)...)
		}
		c.Dir = dir
		c.WaitDelay = time.Second
		switch l.E.Stdin {
		case "pipe":
			c.Stdin = &slowPipe{text, r}
		case "redirect":
			p := filepath.Join(dir, "stdin.txt")
			die(os.WriteFile(p, []byte(text), 0o644))
			f, err := os.Open(p)
			die(err)
			defer f.Close()
			c.Stdin = f
		case "socket":
			p, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
			die(err)
			mine, theirs := os.NewFile(uintptr(p[0]), "socket"), os.NewFile(uintptr(p[1]), "socket")
			defer theirs.Close()
			go func() {
				io.Copy(mine, &slowPipe{text, rand.New(rand.NewSource(int64(i)))})
				mine.Close()
			}()
			c.Stdin = theirs
		case "dir":
			f, err := os.Open(dir)
			die(err)
			defer f.Close()
			c.Stdin = f
		}
		var so, se bytes.Buffer
		c.Stderr = &se
		switch l.E.Stdout {
		case "pipe":
			c.Stdout = &so
		case "file", "full":
			f, err := os.Create(filepath.Join(dir, "stdout.txt"))
			die(err)
			defer f.Close()
			c.Stdout = f
		}
		err := c.Run()
		code := c.ProcessState.ExitCode()
		rep.Cases++
		rep.Steps++
		if ctx.Err() != nil {
			atomic.AddInt64(&stuck, 1)
			rep.fail("C21 C22", "does not come to an end", where, nil, nil)
			return
		}
		if err != nil && code < 0 {
			rep.fail("C22", "killed: "+err.Error(), where, nil, nil)
			return
		}
		stdout := so.String()
		if l.E.Stdout != "pipe" {
			stdout = string(readFile(filepath.Join(dir, "stdout.txt")))
		}
		clip := func(s string) string {
			if len(s) > 300 {
				return fmt.Sprintf("%q... (%d bytes)", s[:300], len(s))
			}
			return fmt.Sprintf("%q", s)
		}
		got := M{"exit": code, "stderr": clip(se.String())}
		if strings.Contains(se.String(), "panic:") || strings.Contains(se.String(), "goroutine ") {
			rep.fail("C21 C22", "panic", where, nil, got)
			return
		}
		if l.R.To == "" && (l.E.Out == "old" || l.E.Out == "new") { // not that far: a file to write to is as it was
			b, err := os.ReadFile(out)
			if l.E.Out == "old" && (err != nil || string(b) != old) {
				rep.fail("C22", "touches the output file although it does not get to reading", where, "as it was", clip(string(b)))
			} else if l.E.Out == "new" && err == nil {
				rep.fail("C22", "makes an output file although it does not get to reading", where, "no file", clip(string(b)))
			}
		}
		if l.R.Src == "version" {
			if code != 0 || !strings.Contains(strings.ToLower(stdout), "version") || se.Len() > 0 {
				got["stdout"] = clip(stdout)
				rep.fail("C22", "-version: the version and nothing else expected", where, "exit 0, version", got)
			}
			return
		}
		if l.R.Src == "none" && l.R.Exit == 0 { // usage
			if code != 0 || stdout != "" || se.Len() == 0 {
				got["stdout"] = clip(stdout)
				rep.fail("C22", "no input at all: usage and no result expected", where, "exit 0, usage", got)
			}
			return
		}
		fails := l.R.Exit > 0
		want := ""
		if l.R.Exit <= 0 || l.E.Text == "toolong" && l.R.To != "" && !(l.R.Src == "file" && l.E.File == "dir" || l.R.Src == "stdin" && l.E.Stdin == "dir") {
			var err error
			want, err = cliWant(l, text)
			fails = err != nil || l.R.Exit == -1 && want != ""
			if limited {
				fails = fails || want != ""
			}
		}
		if fails {
			if code == 0 {
				rep.fail("C22", "a failure is not reported: exit status 0", where, "nonzero", got)
			} else if strings.TrimSpace(se.String()) == "" {
				rep.fail("C22", "a failure is not reported: nothing on standard error", where, "a message", got)
			}
			rep.sample(where)
			return
		}
		if code != 0 {
			rep.fail("C22", "fails without a reason", where, 0, got)
			return
		}
		if l.R.To == "out" {
			if stdout != "" {
				rep.fail("C22", "prints although the result goes to a file", where, "", clip(stdout))
			}
			if l.E.Out == "full" {
				return
			}
			b, err := os.ReadFile(out)
			if err != nil {
				rep.fail("C22", "no output file", where, clip(want), err.Error())
			} else if string(b) != want {
				p := "C21"
				if strings.HasPrefix(string(b), want) || strings.HasPrefix(want, string(b)) || strings.HasSuffix(string(b), want) {
					p = "C22 C21"
				}
				rep.fail(p, "the output file is not the result", where, clip(want), clip(string(b)))
			}
		} else if l.E.Stdout != "full" && stdout != want {
			p := "C21"
			if stdout == "" || strings.HasPrefix(stdout, want) || strings.HasPrefix(want, stdout) {
				p = "C21 C22"
			}
			rep.fail(p, "not what the library gives", where, clip(want), clip(stdout))
		}
		rep.sample(where)
	})
	writeJSON(a.out, rep)
}
