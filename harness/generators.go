package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"html"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---- the generators of vocabularies, as programs (GenCon, GenTags, GenNames) ----

// mapLiteral reads the pairs of strings in a generated file
func mapLiteral(path string) ([][2]string, error) {
	f, err := parser.ParseFile(token.NewFileSet(), path, nil, 0)
	if err != nil {
		return nil, err
	}
	pairs := [][2]string{}
	found := false
	ast.Inspect(f, func(n ast.Node) bool {
		c, ok := n.(*ast.CompositeLit)
		if !ok {
			return true
		}
		found = true
		for _, e := range c.Elts {
			kv, ok := e.(*ast.KeyValueExpr)
			if !ok {
				continue
			}
			k, ok1 := kv.Key.(*ast.BasicLit)
			v, ok2 := kv.Value.(*ast.BasicLit)
			if !ok1 || !ok2 {
				continue
			}
			ks, err1 := strconv.Unquote(k.Value)
			vs, err2 := strconv.Unquote(v.Value)
			if err1 == nil && err2 == nil {
				pairs = append(pairs, [2]string{ks, vs})
			}
		}
		return true
	})
	if !found {
		return nil, fmt.Errorf("no table in the generated file")
	}
	sort.Slice(pairs, func(i, j int) bool { return fmt.Sprint(pairs[i]) < fmt.Sprint(pairs[j]) })
	return pairs, nil
}

const oldFile = "package old\n\n// as it was\n"

type genRun struct {
	code    int
	stderr  string
	pairs   [][2]string
	content []byte
	file    string // what is there afterwards: "none", "old", "dir", "new", or what is wrong with it
	took    time.Duration
	timeout bool
}

// runGenerator runs a generator in a folder of its own, where target says what is there before
func runGenerator(bin, target string, env []string, keep string) genRun {
	return runGeneratorOver(bin, target, env, keep, nil)
}

// (over: what is in the file, if target is "old")
func runGeneratorOver(bin, target string, env []string, keep string, over []byte) genRun {
	dir, err := os.MkdirTemp("", "vgen")
	die(err)
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, "generated.go")
	switch target {
	case "old":
		if over == nil { // longer than what is generated
			over = []byte(oldFile + strings.Repeat("// and so on\n", 3000))
		}
		die(os.WriteFile(p, over, 0o644))
		if over[len(over)/2]%2 == 0 { // old, or with a clock that is ahead
			t := time.Now().Add(-1000 * time.Hour)
			if len(over)%2 == 0 {
				t = time.Now().Add(time.Hour)
			}
			die(os.Chtimes(p, t, t))
		}
	case "isdir":
		die(os.MkdirAll(filepath.Join(p, "x"), 0o755))
	}
	before, _ := os.ReadFile(p)
	ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, bin)
	c.Dir = dir
	c.Env = append([]string{"HOME=" + dir, "PATH=" + os.Getenv("PATH"), "TMPDIR=" + dir}, env...)
	var se bytes.Buffer
	c.Stderr = &se
	t0 := time.Now()
	err = c.Run()
	g := genRun{took: time.Since(t0), stderr: se.String(), timeout: ctx.Err() != nil}
	if g.timeout {
		atomic.AddInt64(&stuck, 1)
	}
	g.code = c.ProcessState.ExitCode()
	st, serr := os.Stat(p)
	switch {
	case serr != nil:
		g.file = "none"
	case st.IsDir():
		g.file = "dir"
	default:
		after, _ := os.ReadFile(p)
		if target == "old" && bytes.Equal(before, after) {
			g.file = "old"
			break
		}
		g.content = after
		g.pairs, err = mapLiteral(p)
		g.file = "new"
		if err != nil {
			g.file = "unreadable: " + err.Error()
		} else if keep != "" {
			os.WriteFile(keep, after, 0o644)
		}
	}
	return g
}

// edited is a generated file with other things in it, and as long
func edited(b []byte) []byte {
	if len(b) == 0 {
		return nil
	}
	o := append([]byte{}, b...)
	in := false
	for i, c := range o {
		if c == '"' {
			in = !in
		} else if in && c >= 'a' && c < 'z' && i > len(o)/2 {
			o[i]++
		}
	}
	return o
}

func cmdGenCon(a args) {
	tab := newTab()
	list := map[string]string{}
	die(json.Unmarshal(readFile(filepath.Join(dataDir, "contractions.json")), &list))
	ks := []string{}
	for k := range list {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	lst := [][][]int{}
	for _, k := range ks {
		lst = append(lst, [][]int{tab.ids(k), tab.ids(list[k])})
	}
	tables, notes := [][][][]int{}, []M{}
	failures := []M{}
	var last []byte
	for i := 0; i < a.n; i++ {
		target := []string{"none", "old"}[i%2]
		begin(target)
		if i%4 == 3 {
			last = nil
		}
		g := runGeneratorOver(a.bin, target, nil, a.in2, edited(last))
		last = g.content
		t := [][][]int{}
		for _, p := range g.pairs {
			t = append(t, [][]int{tab.ids(p[0]), tab.ids(p[1])})
		}
		if g.timeout || g.code != 0 || g.file != "new" {
			failures = append(failures, M{"prop": "C28", "why": "the generator fails", "case": M{"before": target}, "want": "a new file", "got": M{"exit": g.code, "stderr": g.stderr, "file": g.file}})
			continue
		}
		tables = append(tables, t)
		notes = append(notes, M{"before": target, "entries": len(t)})
	}
	// where it cannot write, it says so
	if g := runGenerator(a.bin, "isdir", nil, ""); g.code == 0 || g.stderr == "" || g.file != "dir" {
		failures = append(failures, M{"prop": "C28", "why": "the generator cannot write and does not say so", "case": M{"before": "isdir"}, "want": "a failure", "got": M{"exit": g.code, "stderr": g.stderr}})
	}
	writeJSON(a.out, M{"chars": tab.chars, "list": lst, "tables": tables, "notes": notes, "failures": failures, "straight": tab.char('\''), "curly": tab.char('’')})
}

// ---- Stack Overflow tags ----

type tagItem struct {
	N []string   `json:"n"`
	S [][]string `json:"s"`
	M bool       `json:"m"`
}
type tagAnswer struct {
	K     string    `json:"k"`
	Items []tagItem `json:"items"`
	More  bool      `json:"more"`
	Wait  int       `json:"wait"`
}
type tagLine struct {
	T string        `json:"t"`
	A []tagAnswer   `json:"a"`
	D [][2][]string `json:"d"`
	F string        `json:"f"`
}

// rename gives the words of the names other spellings, and some tags more synonyms
func (l *tagLine) rename(r *rand.Rand) {
	if r.Intn(3) == 0 {
		return
	}
	words := strings.Fields("ruby rails 3 ror c# discussion disc each loop menu box combo .net 4.5")
	as := strings.Fields("R&D <x> it's Ruby ünï 世界 x;y C++ &amp; a_b T@b #1 İx ﬁne 100% `b` A.B.c !x a|b ~ $x e=mc2 (y) [z] ?q X2 \\n \\ \u00df \u1e9e Österreich")
	r.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	to := map[string]string{}
	for i, w := range words {
		if r.Intn(3) > 0 {
			to[w] = as[i]
		}
	}
	name := func(ws []string) {
		for i, w := range ws {
			if x, ok := to[w]; ok {
				ws[i] = x
			}
		}
	}
	for _, d := range l.D {
		name(d[0])
		name(d[1])
	}
	for i := range l.A {
		for j := range l.A[i].Items {
			t := &l.A[i].Items[j]
			name(t.N)
			for _, s := range t.S {
				name(s)
			}
			if len(t.S) > 0 && r.Intn(3) == 0 {
				for n := []int{1, 5, 11, 20, 60}[r.Intn(5)]; n > 0; n-- {
					x := []string{fmt.Sprint("more", i, "x", j), fmt.Sprint("N", n)}
					k := r.Intn(len(t.S) + 1)
					t.S = append(t.S[:k:k], append([][]string{x}, t.S[k:]...)...)
					if !t.M {
						l.D = append(l.D, [2][]string{x, t.N})
					}
				}
			}
		}
	}
}

// listen starts a server for one case
func listen(h http.Handler) (string, func()) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	die(err)
	s := &http.Server{Handler: h}
	go s.Serve(l)
	return l.Addr().String(), func() { s.Close() }
}

func hangUp(w http.ResponseWriter) {
	if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
		c.Close()
	}
}

func cmdGenTags(a args) {
	lines := [][]byte{}
	readLines(a.in, func(l []byte) { lines = append(lines, append([]byte{}, l...)) })
	rep := parallel(len(lines), a.seed, func(i int, r *rand.Rand, rep *Report) {
		if (i+int(a.seed))%a.n != 0 {
			return
		}
		var l tagLine
		die(json.Unmarshal(lines[i], &l))
		l.rename(r)
		where := M{"answers": l.A, "before": l.T}
		begin(where)
		rep.Cases++
		var mu sync.Mutex
		asked := []string{}
		at := []time.Time{}
		gz := r.Intn(2) == 0
		sty := r.Intn(100)
		addr, stop := listen(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			mu.Lock()
			n := q.URL.Query().Get("page")
			if len(asked) == 0 || asked[len(asked)-1] != n { // the client may try again
				asked = append(asked, n)
				at = append(at, time.Now())
			}
			mu.Unlock()
			p, err := strconv.Atoi(n)
			if err != nil || p < 1 || p > len(l.A) {
				w.WriteHeader(400)
				w.Write([]byte(`{"error_id":400,"error_name":"bad_parameter","error_message":"page"}`))
				return
			}
			ans := l.A[p-1]
			w.Header().Set("Content-Type", "application/json; charset=utf-8")
			switch ans.K {
			case "down":
				if sty%2 == 0 {
					hangUp(w)
					return
				}
				w.Header().Set("Content-Length", "1000")
				w.Write([]byte(`{"items":[],"has_more":false}`))
				return
			case "junk":
				w.WriteHeader([]int{200, 502}[sty%2])
				w.Write([]byte([]string{"<html>bad gateway</html>", `{"items":[{"name":"c#"`, "", `[]`, `"x"`}[sty%5]))
				return
			case "error":
				w.WriteHeader([]int{400, 200, 503}[sty%3])
				w.Write([]byte([]string{`{"error_id":502,"error_name":"throttle_violation","error_message":"too many"}`, `{"error_name":"x","items":[{"name":"zzz"}],"has_more":true}`, `{"error_message":"x"}`}[sty%3]))
				return
			}
			items := []M{}
			for _, t := range ans.Items {
				m := M{"name": strings.Join(t.N, "-"), "is_moderator_only": t.M, "count": 7, "is_required": false, "has_synonyms": len(t.S) > 0}
				ss := []string{}
				for _, s := range t.S {
					ss = append(ss, strings.Join(s, "-"))
				}
				if len(ss) > 0 || sty%3 == 0 {
					m["synonyms"] = ss
				}
				items = append(items, m)
			}
			body := M{"items": items, "has_more": ans.More, "quota_max": 10000, "quota_remaining": []int{9, 0, 9999, 1}[sty%4]}
			if ans.Wait > 0 {
				body["backoff"] = ans.Wait
			}
			b, _ := json.Marshal(body)
			if gz && strings.Contains(q.Header.Get("Accept-Encoding"), "gzip") {
				w.Header().Set("Content-Encoding", "gzip")
				z := gzip.NewWriter(w)
				z.Write(b)
				z.Close()
				return
			}
			w.Write(b)
		}))
		defer stop()
		g := runGenerator(a.bin, l.T, []string{"HTTP_PROXY=http://" + addr, "http_proxy=http://" + addr, "HTTPS_PROXY=http://" + addr}, a.in2)
		for again := 0; again < 3 && strings.Contains(g.stderr, "Client.Timeout"); again++ { // a machine that is too busy
			mu.Lock()
			asked, at = []string{}, []time.Time{}
			mu.Unlock()
			time.Sleep(time.Second)
			g = runGenerator(a.bin, l.T, []string{"HTTP_PROXY=http://" + addr, "http_proxy=http://" + addr, "HTTPS_PROXY=http://" + addr}, a.in2)
		}
		rep.Steps += len(l.A)
		got := M{"exit": g.code, "stderr": fmt.Sprintf("%.300s", g.stderr), "file": g.file, "asked": asked}
		if g.timeout {
			rep.fail("C29", "the generator does not come to an end", where, nil, got)
			return
		}
		judge(rep, "C29", l.F, l.T, g, where, got)
		mu.Lock()
		defer mu.Unlock()
		want := []string{}
		for k := range l.A {
			want = append(want, strconv.Itoa(k+1))
		}
		if strings.Join(asked, " ") != strings.Join(want, " ") {
			rep.fail("C29", "pages asked for", where, want, asked)
			return
		}
		for k := 1; k < len(at); k++ {
			if w := time.Duration(l.A[k-1].Wait) * time.Second; at[k].Sub(at[k-1]) < w {
				rep.fail("C29", "does not wait as it is asked to", where, w.String(), at[k].Sub(at[k-1]).String())
			}
		}
		if l.F == "done" && g.file == "new" {
			wantd, gotd := map[string]string{}, map[string]string{}
			for _, d := range l.D {
				wantd[strings.Join(d[0], " ")] = strings.Join(d[1], "-")
			}
			if e := asDictionary(g.pairs, gotd); e != "" {
				rep.fail("C29", e, where, wantd, g.pairs)
			} else if !sameMap(wantd, gotd) {
				rep.fail("C29", "not the dictionary", where, wantd, gotd)
			} else if r.Intn(6) == 0 && len(wantd) > 0 { // once more, over something of the same size
				waits := false
				for _, x := range l.A {
					waits = waits || x.Wait > 0
				}
				asked = []string{}
				mu.Unlock()
				if !waits {
					h := runGeneratorOver(a.bin, "old", []string{"HTTP_PROXY=http://" + addr, "http_proxy=http://" + addr, "HTTPS_PROXY=http://" + addr}, "", edited(g.content))
					again := map[string]string{}
					if h.file == "new" {
						asDictionary(h.pairs, again)
					}
					if !strings.Contains(h.stderr, "Client.Timeout") && !sameMap(again, wantd) {
						rep.fail("C29", "not the dictionary, with a file there which is as long", where, wantd, M{"exit": h.code, "file": h.file, "stderr": h.stderr, "dictionary": again})
					}
				}
				mu.Lock()
			}
		}
		rep.sample(M{"answers": len(l.A), "before": l.T, "ends": l.F, "dictionary": g.pairs})
	})
	writeJSON(a.out, rep)
}

// judge compares how a generator ended with how it has to
func judge(rep *Report, prop, fin, target string, g genRun, where, got M) {
	if fin == "failed" {
		if g.code == 0 || g.stderr == "" {
			rep.fail(prop, "a failure is not reported", where, "nonzero exit status, a message", got)
		}
		if g.file != target && !(g.file == "dir" && target == "isdir") {
			rep.fail(prop, "a failure, and the file is touched", where, target, got)
		}
		return
	}
	if g.code != 0 || g.file != "new" {
		rep.fail(prop, "no result", where, "exit status 0 and a new file", got)
	}
}

// asDictionary takes lists of synonyms apart
func asDictionary(pairs [][2]string, into map[string]string) string {
	for _, p := range pairs {
		for _, s := range strings.Split(p[0], ",") {
			s = strings.TrimSpace(s)
			if s == "" {
				continue
			}
			if old, ok := into[s]; ok && old != p[1] {
				return "ambiguous: " + s
			}
			into[s] = p[1]
		}
	}
	return ""
}

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// ---- NBA players ----

// last name, first name, ASCII spelling of "first last" (if different)
var oddNames = [][3]string{{"Dončić", "Luka", "Luka Doncic"}, {"Jokić", "Nikola", "Nikola Jokic"}, {"Šarić", "Dario", "Dario Saric"}, {"Bogdanović", "Bojan", "Bojan Bogdanovic"}, {"O’Neale", "Royce", "Royce O'Neale"}, {"Müller-Østergård", "Jöns", "Jons Muller-Ostergard"}, {"Æsir", "Straße", "Strasse AEsir"}, {"Smith", "José", "Jose Smith"}, {"Nürnberg", "Al", "Al Nurnberg"}}

// two names and what both of them look like in ASCII
var alikeNames = [][3]string{{"Šarić", "Dario", "Dario Saric"}, {"Sarić", "Dàrio", "Dario Saric"}, {"Saric", "Dario", ""}}
var plainNames = [][3]string{{"James", "LeBron", ""}, {"O'Neal", "Shaquille", ""}, {"Porter Jr.", "Michael", ""}, {"Gilgeous-Alexander", "Shai", ""}, {"Antetokounmpo", "Giannis", ""}, {"姚", "明", ""}, {"Smith & Wesson", "Al", ""}, {"a<b>c", "X", ""}, {"de la Cruz", "J.R.", ""}, {"&amp;", "100%", ""}, {"MCGEE", "jaVale", ""}, {"B\\n", "T`x", ""}}

type nameLine struct {
	R []struct {
		K string `json:"k"`
		P int    `json:"p"`
	} `json:"r"`
	A string              `json:"a"`
	T string              `json:"t"`
	D [][]json.RawMessage `json:"d"`
	F string              `json:"f"`
}

// wikiCert is a certificate for the site, to be trusted by the generator
func wikiCert(dir string) (tls.Certificate, string) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	die(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "scratch"}, NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		DNSNames: []string{"en.wikipedia.org", "*.wikipedia.org"}}
	der, err := x509.CreateCertificate(crand.Reader, t, t, &key.PublicKey, key)
	die(err)
	p := filepath.Join(dir, "ca.pem")
	die(os.WriteFile(p, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o644))
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}, p
}

// oneConn is a listener for a connection there is already
type oneConn struct {
	c    net.Conn
	once sync.Once
	done chan bool
}

func (o *oneConn) Accept() (net.Conn, error) {
	var c net.Conn
	o.once.Do(func() { c = o.c })
	if c != nil {
		return c, nil
	}
	<-o.done
	return nil, net.ErrClosed
}
func (o *oneConn) Close() error   { return nil }
func (o *oneConn) Addr() net.Addr { return o.c.LocalAddr() }

func cmdGenNames(a args) {
	lines := [][]byte{}
	readLines(a.in, func(l []byte) { lines = append(lines, append([]byte{}, l...)) })
	dir, err := os.MkdirTemp("", "vgen")
	die(err)
	defer os.RemoveAll(dir)
	cert, pemFile := wikiCert(dir)
	rep := parallel(len(lines), a.seed, func(i int, r *rand.Rand, rep *Report) {
		if (i+int(a.seed))%a.n != 0 {
			return
		}
		var l nameLine
		die(json.Unmarshal(lines[i], &l))
		// people
		names := map[int][3]string{}
		po, pp := r.Perm(len(oddNames)), r.Perm(len(plainNames))
		for _, w := range l.R { // 3 and 4 look like 1
			if w.K == "player" && w.P > 2 && w.P < 50 {
				names[1], names[3], names[4] = alikeNames[0], alikeNames[1], alikeNames[2]
				if r.Intn(2) == 0 {
					names[1], names[3] = names[3], names[1]
				}
			}
		}
		person := func(p int) [3]string {
			if n, ok := names[p]; ok {
				return n
			}
			n := plainNames[pp[p%len(pp)]]
			if p%2 == 1 {
				n = oddNames[po[p%len(po)]]
			}
			names[p] = n
			return n
		}
		link := func(s string) string {
			return `<a href="/wiki/` + pick(r, "X_Y", "Z") + `" title="` + pick(r, "x, y", "no comma") + `">` + html.EscapeString(s) + `</a>`
		}
		listed := func(n [3]string) string {
			return pick(r, "", " ", "\n") + n[0] + pick(r, ",", ", ", " ,  ", ",\u00a0") + n[1] + pick(r, "", " ")
		}
		// rows, spread over tables
		var doc strings.Builder
		shell := func(inner, class string) string {
			return `<table class="toccolours ` + pick(r, "", "x") + `"><tbody><tr><td>` + `<table class="` + class + `"><tbody><tr><th>Pos.</th><th>No.</th><th>Name</th></tr>` + inner + `</tbody></table>` + `</td></tr></tbody></table>`
		}
		cur := ""
		flush := func() {
			if cur != "" || r.Intn(4) == 0 {
				doc.WriteString(shell(cur, pick(r, "sortable", "wikitable sortable", "sortable x")))
				cur = ""
			}
			if r.Intn(2) == 0 {
				doc.WriteString("<p>Some text, with " + link("a link") + ".</p>")
			}
		}
		for _, w := range l.R {
			switch w.K {
			case "player":
				cur += "<tr><td>" + pick(r, "G", link("F")) + "</td><td>7</td><td>" + pick(r, "", " ", "\n") + link(listed(person(w.P))) + pick(r, "", " <small>(C)</small>") + "</td><td>" + pick(r, "6 ft", link("No, One")) + "</td></tr>"
			case "mangled":
				cur += "<tr><td>G</td><td>7</td><td>" + link(pick(r, "Nobody", "A, B, C", "", "two words")) + "</td></tr>"
			default:
				n := listed(person(w.P + 50))
				switch r.Intn(5) {
				case 0:
					cur += "<tr><td>G</td><td>" + link(n) + "</td><td>7</td></tr>"
				case 1:
					cur += "<tr><td>G</td><td>7</td><td>" + html.EscapeString(n) + "</td></tr>"
				case 2:
					flush()
					doc.WriteString(shell("<tr><td>G</td><td>7</td><td>"+link(n)+"</td></tr>", "plain"))
				case 3:
					flush()
					doc.WriteString(`<table class="sortable"><tbody><tr><td>G</td><td>7</td><td>` + link(n) + "</td></tr></tbody></table>")
				case 4:
					cur += "<tr><td>G</td><td>7</td><td><i>" + link(n) + "</i></td></tr>"
				}
			}
			if r.Intn(2) == 0 {
				flush()
			}
		}
		flush()
		page := "<!DOCTYPE html><html><head><title>x</title></head><body>" + doc.String() + "</body></html>"
		where := M{"rows": l.R, "answer": l.A, "before": l.T, "page": fmt.Sprintf("%.1500s", page)}
		begin(where)
		rep.Cases++
		status := []int{404, 500, 403, 503, 204, 206}[r.Intn(6)]
		site := http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			w.Header().Set("Content-Type", "text/html; charset=UTF-8")
			if l.A == "status" {
				w.WriteHeader(status)
			}
			if status != 204 || l.A != "status" {
				w.Write([]byte(page))
			}
		})
		addr, stop := listen(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			if q.Method != "CONNECT" {
				site.ServeHTTP(w, q)
				return
			}
			if l.A == "down" {
				if status%2 == 0 {
					w.WriteHeader(502)
				} else {
					hangUp(w)
				}
				return
			}
			c, _, err := w.(http.Hijacker).Hijack()
			if err != nil {
				return
			}
			defer c.Close()
			c.Write([]byte("HTTP/1.1 200 OK\r\n\r\n"))
			one := &oneConn{c: tls.Server(c, &tls.Config{Certificates: []tls.Certificate{cert}}), done: make(chan bool)}
			s := &http.Server{Handler: site}
			time.AfterFunc(120*time.Second, func() { s.Close() })
			s.ConnState = func(_ net.Conn, st http.ConnState) {
				if st == http.StateClosed {
					close(one.done)
				}
			}
			s.Serve(one)
		}))
		defer stop()
		g := runGenerator(a.bin, l.T, []string{"HTTP_PROXY=http://" + addr, "HTTPS_PROXY=http://" + addr, "SSL_CERT_FILE=" + pemFile, "SSL_CERT_DIR=" + dir}, a.in2)
		rep.Steps += 1 + len(l.R)
		got := M{"exit": g.code, "stderr": fmt.Sprintf("%.300s", g.stderr), "file": g.file}
		if g.timeout {
			rep.fail("C30", "the generator does not come to an end", where, nil, got)
			return
		}
		judge(rep, "C30", l.F, l.T, g, where, got)
		if l.F == "done" && g.file == "new" {
			want, gotd := map[string]map[string]bool{}, map[string]map[string]bool{}
			put := func(m map[string]map[string]bool, k, v string) {
				if m[k] == nil {
					m[k] = map[string]bool{}
				}
				m[k][v] = true
			}
			for _, d := range l.D {
				var p int
				var sp []json.RawMessage
				var how string
				die(json.Unmarshal(d[0], &sp))
				die(json.Unmarshal(d[1], &p))
				die(json.Unmarshal(sp[1], &how))
				n := person(p)
				full := n[1] + " " + n[0]
				if how == "ascii" && n[2] != "" {
					put(want, n[2], full)
				} else {
					put(want, full, full)
				}
			}
			for _, p := range g.pairs {
				for _, s := range strings.Split(p[0], ",") {
					if s = strings.TrimSpace(s); s != "" {
						put(gotd, s, p[1])
					}
				}
			}
			// a spelling that two players share may be anyone's of them
			same := len(want) == len(gotd)
			for k, vs := range gotd {
				for v := range vs {
					same = same && want[k][v]
				}
			}
			for k := range want {
				same = same && len(gotd[k]) > 0
			}
			if !same {
				rep.fail("C30", "not the dictionary", where, want, gotd)
			} else if r.Intn(4) == 0 && len(g.pairs) > 0 { // once more, over something of the same size
				h := runGeneratorOver(a.bin, "old", []string{"HTTP_PROXY=http://" + addr, "HTTPS_PROXY=http://" + addr, "SSL_CERT_FILE=" + pemFile, "SSL_CERT_DIR=" + dir}, "", edited(g.content))
				if fmt.Sprint(h.pairs) != fmt.Sprint(g.pairs) {
					rep.fail("C30", "not the same dictionary, with a file there which is as long", where, g.pairs, M{"exit": h.code, "file": h.file, "stderr": h.stderr, "dictionary": h.pairs})
				}
			}
		}
		rep.sample(M{"rows": l.R, "answer": l.A, "before": l.T, "ends": l.F, "dictionary": g.pairs})
	})
	writeJSON(a.out, rep)
}
