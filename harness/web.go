package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"html"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/stackoverflow"
)

// ---- the web service (Web.tla) ----

type webLine struct {
	Req []struct{ Method, Path, Body string }
	Ans []struct {
		Kind   string
		Status int
	}
	Hist [][]interface{}
}

var nasty = []string{"<script>alert(1)</script>", "<img src=x onerror=alert(1)>", "\"><b>", "&lt;b&gt;", "&amp;", "&", "&lt", "<", ">", "'", "\"", "`", "<span class=\"lemma\">", "</span>", "</script>", "<!-- x -->", "<!DOCTYPE html>", "{{ . }}", "{{", "\x00", "a\x00b", "&#60;", "&#x3c;script&#x3e;", "ruby on rails", "C++", "c#", "javascript:alert(1)", "<style>b{}</style>", "<textarea>", "<a href='x'>node js</a>", "\ufeff", "+", "=", "\u2028", "<svg/onload=alert(1)>", "]]>", "<![CDATA[", "node.js"}

func webBody(r *rand.Rand, kind string) string {
	var b strings.Builder
	add := func(n int, pool []string) {
		for i := 0; i < n; i++ {
			b.WriteString(pool[r.Intn(len(pool))])
			b.WriteString(pick(r, " ", " ", ", ", "", "\n", ". "))
		}
	}
	lem := []string{"Ruby on Rails", "node js", "React Native", "cpp", "ObjC", "asp.net", "HTML 5", "the", "and", "vue", "T-SQL", "developers", "c sharp", "Go lang"}
	switch kind {
	case "empty":
		return ""
	case "words":
		add(1+r.Intn(20), filler)
	case "lemmas", "cut":
		add(2+r.Intn(20), lem)
	case "markup":
		add(2+r.Intn(8), append([]string{"<p>", "</p>", "<b class=\"x\">", "</b>", "<script>a < b && c > d</script>", "<!-- ruby on rails -->", "&nbsp;"}, lem...))
	case "nasty":
		add(1+r.Intn(12), nasty)
	case "big", "huge":
		n := 3000 + r.Intn(100000)
		if kind == "huge" {
			n = 3000000 + r.Intn(1000000)
		}
		for b.Len() < n {
			add(10, lem)
			add(4, nasty)
			add(10, filler)
		}
	case "toolong":
		add(r.Intn(4), lem)
		b.WriteString(strings.Repeat("x", 70000+r.Intn(100000)))
		add(r.Intn(4), lem)
	}
	return b.String()
}

var entity = regexp.MustCompile(`&(#[0-9]+|#[xX][0-9a-fA-F]+|[A-Za-z][A-Za-z0-9]*);`)
var spanRe = regexp.MustCompile(`(?s)^<span class=["']?lemma["']?>(.*?)</span>`)

// webCheck: is this response made of these tokens?
func webCheck(resp string, ts []ST) string {
	safe := func(s string) string {
		if strings.ContainsAny(s, "<>") {
			return fmt.Sprintf("not escaped: %q", s)
		}
		if strings.ContainsAny(s, "\"'") {
			return fmt.Sprintf("quotes not escaped: %q", s)
		}
		if strings.Count(s, "&") != len(entity.FindAllString(s, -1)) {
			return fmt.Sprintf("& not escaped: %q", s)
		}
		return ""
	}
	text := func(s string) string { return strings.ReplaceAll(s, "\x00", "\ufffd") }
	rest := resp
	for i := 0; i < len(ts); {
		if ts[i].L {
			m := spanRe.FindStringSubmatch(rest)
			if m == nil {
				return fmt.Sprintf("token %d (%q) is a lemma, and not in a span of its own: %.80q", i, ts[i].V, rest)
			}
			if e := safe(m[1]); e != "" {
				return e
			}
			if text(html.UnescapeString(m[1])) != text(ts[i].V) {
				return fmt.Sprintf("token %d is %q, shown %q", i, ts[i].V, m[1])
			}
			rest = rest[len(m[0]):]
			i++
			continue
		}
		var wb strings.Builder
		for i < len(ts) && !ts[i].L {
			wb.WriteString(text(ts[i].V))
			i++
		}
		want := wb.String()
		n := strings.Index(rest, "<")
		if n < 0 {
			n = len(rest)
		}
		got := rest[:n]
		if e := safe(got); e != "" {
			return e
		}
		if text(html.UnescapeString(got)) != want {
			return fmt.Sprintf("tokens %.200q shown as %.200q", want, got)
		}
		rest = rest[n:]
	}
	if rest != "" {
		return fmt.Sprintf("more than the tokens: %.100q", rest)
	}
	return ""
}

func webTokens(kind, body string) ([]ST, error) {
	var s *jargon.TokenStream
	if kind == "html" {
		s = jargon.TokenizeHTML(strings.NewReader(body))
	} else {
		s = jargon.TokenizeString(body)
	}
	ts, err := s.Filter(stackoverflow.Tags).ToSlice()
	return sts(ts), err
}

type webConn struct {
	c       net.Conn
	body    string
	chunked bool
	half    int
}

func cmdWeb(a args) {
	lines := [][]byte{}
	pickr := rand.New(rand.NewSource(a.seed))
	readLines(a.in, func(l []byte) {
		if a.n <= 1 || pickr.Intn(a.n) == 0 {
			lines = append(lines, append([]byte{}, l...))
		}
	})
	// the service, on a free port
	var srv *exec.Cmd
	var addr string
	logf := a.out + ".log"
	lf, err := os.Create(logf)
	die(err)
	exited := make(chan bool, 1)
	for try := 0; ; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		die(err)
		addr = l.Addr().String()
		l.Close()
		srv = exec.Command(a.bin)
		srv.Env = append(os.Environ(), "PORT="+addr[strings.LastIndex(addr, ":")+1:])
		srv.Stderr, srv.Stdout = lf, lf
		die(srv.Start())
		go func(s *exec.Cmd) { s.Wait(); exited <- true }(srv)
		up := false
		for k := 0; k < 200 && !up; k++ {
			if c, err := net.Dial("tcp", addr); err == nil {
				c.Close()
				up = true
				break
			}
			select {
			case <-exited:
				k = 1000
			case <-time.After(50 * time.Millisecond):
			}
		}
		if up {
			break
		}
		srv.Process.Kill()
		if try > 4 {
			die(fmt.Errorf("the service does not come up: %s", readFile(logf)))
		}
	}
	defer srv.Process.Kill()

	one := func(i int, r *rand.Rand, rep *Report) {
		var l webLine
		die(json.Unmarshal(lines[i], &l))
		conns := make([]webConn, len(l.Req))
		order := []string{}
		bodies := []string{}
		for k, q := range l.Req {
			conns[k].body = webBody(r, q.Body)
			conns[k].chunked = r.Intn(3) == 0
			conns[k].half = len(conns[k].body) / 2
			b := conns[k].body
			if len(b) > 300 {
				b = fmt.Sprintf("%s... (%d bytes)", b[:300], len(b))
			}
			bodies = append(bodies, b)
		}
		for _, h := range l.Hist {
			order = append(order, fmt.Sprint(h[1], h[0]))
		}
		where := M{"requests": l.Req, "order": strings.Join(order, " "), "bodies": bodies}
		begin(where)
		rep.Cases++
		send := func(c *webConn, s string) {
			if s == "" || c.c == nil {
				return
			}
			if c.chunked {
				s = fmt.Sprintf("%x\r\n%s\r\n", len(s), s)
			}
			io.WriteString(c.c, s) // the service may have answered and gone
		}
		for _, h := range l.Hist {
			k := int(h[0].(float64)) - 1
			q, c := l.Req[k], &conns[k]
			rep.Steps++
			switch h[1].(string) {
			case "head":
				var err error
				c.c, err = net.Dial("tcp", addr)
				if err != nil {
					rep.fail("C23", "cannot connect: "+err.Error(), where, nil, nil)
					return
				}
				defer c.c.Close()
				c.c.SetDeadline(time.Now().Add(150 * time.Second))
				head := q.Method + " " + q.Path + " HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Type: " + pick(r, "text/plain", "text/html; charset=utf-8", "application/x-www-form-urlencoded", "application/json", "multipart/form-data; boundary=x", "text/html; charset=iso-8859-1") + "\r\n"
				if c.chunked {
					head += "Transfer-Encoding: chunked\r\n\r\n"
				} else {
					head += fmt.Sprintf("Content-Length: %d\r\n\r\n", len(c.body))
				}
				io.WriteString(c.c, head)
			case "half":
				send(c, c.body[:c.half])
			case "rest":
				if q.Body == "cut" {
					c.c.(*net.TCPConn).CloseWrite()
					break
				}
				send(c, c.body[c.half:])
				if c.chunked {
					io.WriteString(c.c, "0\r\n\r\n")
				}
			case "answer":
				resp, err := http.ReadResponse(bufio.NewReader(c.c), &http.Request{Method: q.Method})
				if err != nil {
					if ne, ok := err.(net.Error); ok && ne.Timeout() {
						atomic.AddInt64(&stuck, 1)
					}
					rep.fail("C23", fmt.Sprintf("no answer to request %d: %v", k+1, err), where, nil, nil)
					continue
				}
				b, err := io.ReadAll(resp.Body)
				if err != nil {
					rep.fail("C23", fmt.Sprintf("answer to request %d is cut off: %v", k+1, err), where, nil, nil)
					continue
				}
				got := string(b)
				show := M{"status": resp.StatusCode, "body": fmt.Sprintf("%.600q", got)}
				want := l.Ans[k]
				if resp.Header.Get("Access-Control-Allow-Origin") != "*" || len(resp.Header.Values("Access-Control-Allow-Origin")) != 1 || resp.Header.Get("Access-Control-Allow-Headers") != "X-Requested-With" {
					rep.fail("C23", fmt.Sprintf("no CORS headers on answer %d", k+1), where, nil, M{"headers": resp.Header})
				}
				status := want.Status
				var ts []ST
				if (want.Kind == "text" || want.Kind == "html") && q.Body != "cut" {
					var err error
					if ts, err = webTokens(want.Kind, c.body); err != nil {
						status = 500
					} else {
						status = 200
					}
				}
				if resp.StatusCode != status {
					rep.fail("C23", fmt.Sprintf("status of answer %d", k+1), where, status, show)
					continue
				}
				if status != 200 {
					continue
				}
				switch want.Kind {
				case "empty":
					if got != "" {
						rep.fail("C23", "OPTIONS is not answered with an empty response", where, "", show)
					}
				case "health":
					if got != "ok" {
						rep.fail("C23", "health check", where, "ok", show)
					}
				default:
					if e := webCheck(got, ts); e != "" {
						show["tokens"] = fmt.Sprintf("%.600s", showST(ts))
						rep.fail("C23", fmt.Sprintf("answer %d: %s", k+1, e), where, nil, show)
					}
				}
			}
		}
		rep.sample(where)
	}
	rep := parallel(len(lines), a.seed, one)
	// requests that are nearly the same, one after another: what was asked before does not matter
	{
		r := rand.New(rand.NewSource(a.seed * 31))
		for k := 0; k < 40; k++ {
			kind := []string{"text", "html"}[k%2]
			base := webBody(r, pick(r, "lemmas", "nasty", "markup", "words", "words"))
			for i := r.Intn(12); i > 0; i-- {
				base += webBody(r, pick(r, "lemmas", "nasty", "markup", "words"))
			}
			near := []string{base}
			for j := 0; j < 4; j++ { // a word exchanged for one of the same length, near the end, the middle or the beginning
				s := near[r.Intn(len(near))]
				at := []int{len(s), len(s) / 2, 0, len(s)}[j]
				near = append(near, s[:at]+" "+pick(r, "ruby", "vue,", "java", "Perl", "word", "cpp.", "ObjC")+" "+s[at:])
				m := near[len(near)-1]
				near = append(near, strings.NewReplacer("ruby", "rude", "vue,", "view", "java", "Java", "word", "cpp ", "Perl", "perl", "ObjC", "objc").Replace(m))
			}
			for _, other := range []string{kind, kind, []string{"html", "text"}[k%2]} {
				for _, body := range near {
					begin(M{"kind": other, "body": body})
					rep.Cases++
					resp, err := http.Post("http://"+addr+"/"+other, "text/plain", strings.NewReader(body))
					why := ""
					if err != nil {
						why = err.Error()
					} else {
						b, _ := io.ReadAll(resp.Body)
						resp.Body.Close()
						ts, _ := webTokens(other, body)
						why = webCheck(string(b), ts)
					}
					if why != "" {
						rep.fail("C23", "after requests that are nearly the same: "+why, M{"kind": other, "body": body}, nil, nil)
					}
				}
			}
		}
	}
	// the same, twice as parallel: many at the same moment
	var wg sync.WaitGroup
	var mu sync.Mutex
	for g := 0; g < 32; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(a.seed*977 + int64(g)))
			for k := 0; k < 10; k++ {
				kind := []string{"text", "html"}[r.Intn(2)]
				body := webBody(r, pick(r, "lemmas", "nasty", "markup", "words"))
				begin(M{"kind": kind, "body": body})
				resp, err := http.Post("http://"+addr+"/"+kind, "text/plain", strings.NewReader(body))
				why := ""
				if err != nil {
					why = err.Error()
				} else {
					b, _ := io.ReadAll(resp.Body)
					resp.Body.Close()
					ts, _ := webTokens(kind, body)
					why = webCheck(string(b), ts)
				}
				mu.Lock()
				rep.Cases++
				if why != "" {
					rep.fail("C23", "many at the same time: "+why, M{"kind": kind, "body": body}, nil, nil)
				}
				mu.Unlock()
			}
		}(g)
	}
	wg.Wait()
	select {
	case <-exited:
		rep.fail("C23", "the service has died", M{"log": fmt.Sprintf("%.1500s", readFile(logf))}, nil, nil)
	default:
	}
	srv.Process.Kill()
	if b := readFile(logf); bytes.Contains(b, []byte("DATA RACE")) {
		i := bytes.Index(b, []byte("WARNING: DATA RACE"))
		rep.fail("C23", "data race in the service", M{"log": fmt.Sprintf("%.1500s", b[i:])}, nil, nil)
	}
	writeJSON(a.out, rep)
}

func showST(ts []ST) string { return show(ts) }
