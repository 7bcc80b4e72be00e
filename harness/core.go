package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/clipperhouse/jargon"
)

// ---- characters and tokens, as the specification sees them (Text.tla) ----

type Char struct {
	Cp int   `json:"cp"`
	Lo int   `json:"lo"`
	Up int   `json:"up"`
	Pu bool  `json:"pu"`
	Sp bool  `json:"sp"`
	Le bool  `json:"le"`
	Nu bool  `json:"nu"`
	Fo []int `json:"fo"`
}

type Tok struct {
	C []int `json:"c"`
	P bool  `json:"p"`
	S bool  `json:"s"`
	L bool  `json:"l"`
}

// ST is a token as observed: value and flags
type ST struct {
	V       string
	P, S, L bool
}

func obs(t *jargon.Token) ST { return ST{t.String(), t.IsPunct(), t.IsSpace(), t.IsLemma()} }

const badByte = 0x110000

// Tab numbers characters (from 1) and distinct tokens (from 1)
type Tab struct {
	chars []Char
	idx   map[int]int
	toks  []Tok
	tidx  map[ST]int
	fold  map[rune]string
}

func newTab() *Tab {
	return &Tab{idx: map[int]int{}, tidx: map[ST]int{}, fold: foldTable()}
}

func cps(s string) []int {
	r := []int{}
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		if c == utf8.RuneError && n <= 1 {
			r = append(r, badByte+int(s[i]))
			i++
			continue
		}
		r = append(r, int(c))
		i += n
	}
	return r
}

func fromCps(cs []int) string {
	var b strings.Builder
	for _, c := range cs {
		if c >= badByte {
			b.WriteByte(byte(c - badByte))
		} else {
			b.WriteRune(rune(c))
		}
	}
	return b.String()
}

func (t *Tab) char(cp int) int {
	if i, ok := t.idx[cp]; ok {
		return i
	}
	t.chars = append(t.chars, Char{Cp: cp})
	i := len(t.chars)
	t.idx[cp] = i
	c := Char{Cp: cp, Lo: i, Up: i, Fo: []int{i}}
	if cp < badByte {
		r := rune(cp)
		c.Lo = t.char(int(unicode.ToLower(r)))
		c.Up = t.char(int(unicode.ToUpper(r)))
		c.Pu = unicode.Is(unicode.P, r)
		c.Sp = unicode.Is(unicode.White_Space, r)
		c.Le = unicode.Is(unicode.L, r)
		c.Nu = unicode.Is(unicode.N, r)
		if f, ok := t.fold[r]; ok {
			c.Fo = t.ids(f)
		}
	}
	t.chars[i-1] = c
	return i
}

func (t *Tab) ids(s string) []int {
	r := []int{}
	for _, c := range cps(s) {
		r = append(r, t.char(c))
	}
	return r
}

func (t *Tab) str(ids []int) string {
	cs := []int{}
	for _, i := range ids {
		cs = append(cs, t.chars[i-1].Cp)
	}
	return fromCps(cs)
}

func (t *Tab) enc(s ST) Tok { return Tok{t.ids(s.V), s.P, s.S, s.L} }

func (t *Tab) tok(s ST) int {
	if i, ok := t.tidx[s]; ok {
		return i
	}
	t.toks = append(t.toks, t.enc(s))
	t.tidx[s] = len(t.toks)
	return len(t.toks)
}

func (t *Tab) codes(ss []ST) []int {
	r := []int{}
	for _, s := range ss {
		r = append(r, t.tok(s))
	}
	return r
}

// mkST is what a token made from a value is, according to C03
func mkST(v string, l bool) ST {
	p, s := true, true
	for _, r := range v {
		if !unicode.Is(unicode.P, r) && r != '\t' && r != '\n' && r != '\r' {
			p = false
		}
		if !unicode.Is(unicode.White_Space, r) {
			s = false
		}
	}
	return ST{v, p, s, l}
}

// ---- data ----

var dataDir = "/verif/spec/data"

func loadJSON(name string, v interface{}) {
	b, err := os.ReadFile(filepath.Join(dataDir, name))
	die(err)
	die(json.Unmarshal(b, v))
}

var foldCache map[rune]string

func foldTable() map[rune]string {
	if foldCache == nil {
		var m map[string]string
		loadJSON("lucene_fold.json", &m)
		foldCache = map[rune]string{}
		for k, v := range m {
			r, _ := utf8.DecodeRuneInString(k)
			foldCache[r] = v
		}
	}
	return foldCache
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(2)
	}
}

// ---- output ----

func writeJSON(path string, v interface{}) {
	f, err := os.Create(path)
	die(err)
	w := bufio.NewWriterSize(f, 1<<20)
	e := json.NewEncoder(w)
	e.SetEscapeHTML(false)
	die(e.Encode(v))
	die(w.Flush())
	die(f.Close())
}

// Report is what a replay found
type Report struct {
	Cases    int                    `json:"cases"`
	Steps    int                    `json:"steps"`
	Failures []Failure              `json:"failures"`
	Samples  []interface{}          `json:"samples"`
	Extra    map[string]interface{} `json:"extra,omitempty"`
}

// Failure is one deviation of the code
type Failure struct {
	Prop string      `json:"prop"` // properties concerned, blank separated; empty: the one that is being checked
	Case interface{} `json:"case"`
	Want interface{} `json:"want"`
	Got  interface{} `json:"got"`
	Why  string      `json:"why"`
}

func (r *Report) fail(prop, why string, c, want, got interface{}) {
	n := 0 // some of each property: a flood of one does not hide another
	for _, f := range r.Failures {
		if f.Prop == prop {
			n++
		}
	}
	if n < 12 {
		r.Failures = append(r.Failures, Failure{prop, c, want, got, why})
	}
}

func (r *Report) sample(c interface{}) {
	if len(r.Samples) < 6 && (r.Cases%97 == 3 || r.Cases < 2) {
		r.Samples = append(r.Samples, c)
	}
}

// ---- running the real code, guarded ----

var (
	progress int64        // incremented for every case
	current  atomic.Value // description of the case that is running
	hangOut  string       // where to note a case that hangs
)

func begin(c interface{}) {
	atomic.AddInt64(&progress, 1)
	current.Store(&c)
}

// watchdog ends the process with status 3 when one case takes too long or too much memory
func watchdog(limit time.Duration) {
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(250 * time.Millisecond)
			p := atomic.LoadInt64(&progress)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if p != last {
				last, since = p, time.Now()
			}
			if time.Since(since) > limit || ms.HeapAlloc > 6<<30 {
				c, _ := current.Load().(*interface{})
				var v interface{}
				if c != nil {
					v = *c
				}
				b, _ := json.Marshal(map[string]interface{}{"hang": v, "heap": ms.HeapAlloc, "seconds": time.Since(since).Seconds()})
				if hangOut != "" {
					os.WriteFile(hangOut, b, 0o644)
				}
				fmt.Fprintf(os.Stderr, "HANG %s\n", b)
				os.Exit(3)
			}
		}
	}()
}

var errPlanted = errors.New("planted failure")

// source is a stream over a slice which counts pulls and may fail at the end
type source struct {
	toks  []*jargon.Token
	pos   int
	pulls int // tokens handed out
	calls int
	err   error
	once  bool // the error is reported once, then the end
}

func (s *source) next() (*jargon.Token, error) {
	s.calls++
	if s.pos < len(s.toks) {
		t := s.toks[s.pos]
		s.pos++
		s.pulls++
		return t, nil
	}
	if err := s.err; err != nil {
		if s.once {
			s.err = nil
		}
		return nil, err
	}
	return nil, nil
}

// Run is what a filter did with a stream
type Run struct {
	Out []ST
	N   []int
	Fin string // eof, err, otherr, panic, more (too much output)
	Msg string
}

// drain consumes a stream through Next
func drain(s *jargon.TokenStream, pulls func() int, max int, want error) (r Run) {
	r.Out, r.N = []ST{}, []int{}
	held := []*jargon.Token{}
	defer func() {
		if e := recover(); e != nil {
			r.Fin, r.Msg = "panic", fmt.Sprint(e)
		}
		// a token that was handed out stays as it was
		for i, t := range held {
			if now := obs(t); now != r.Out[i] {
				r.Out[i] = now
			}
		}
	}()
	for {
		t, err := s.Next()
		if err != nil {
			r.Fin, r.Msg = "otherr", err.Error()
			if want != nil && err == want {
				r.Fin = "err"
			}
			return
		}
		if t == nil {
			r.Fin = "eof"
			return
		}
		r.Out = append(r.Out, obs(t))
		held = append(held, t)
		if pulls != nil {
			r.N = append(r.N, pulls())
		} else {
			r.N = append(r.N, 0)
		}
		if len(r.Out) > max {
			r.Fin = "more"
			return
		}
	}
}

// apply a filter to given tokens
func apply(f jargon.Filter, in []*jargon.Token, err error) (r Run) {
	defer func() {
		if e := recover(); e != nil {
			r.Fin, r.Msg = "panic", fmt.Sprint(e)
		}
	}()
	src := &source{toks: in, err: err, once: true}
	return drain(f(jargon.NewTokenStream(src.next)), func() int { return src.pulls }, 20*len(in)+100, err)
}

// cleanTokens makes tokens with the flags a value should have
func cleanTokens(ss []ST) []*jargon.Token {
	r := []*jargon.Token{}
	for _, s := range ss {
		r = append(r, jargon.NewToken(s.V, s.L))
	}
	return r
}

func sts(ts []*jargon.Token) []ST {
	r := []ST{}
	for _, t := range ts {
		r = append(r, obs(t))
	}
	return r
}

func eqST(a, b []ST) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func vals(ss []ST) []string {
	r := []string{}
	for _, s := range ss {
		r = append(r, s.V)
	}
	return r
}

// show renders tokens for people
func show(ss []ST) string {
	var b strings.Builder
	for i, s := range ss {
		if i > 0 {
			b.WriteByte(' ')
		}
		if i >= 60 {
			fmt.Fprintf(&b, "... (%d)", len(ss))
			break
		}
		fmt.Fprintf(&b, "%q", s.V)
		if s.L {
			b.WriteByte('*')
		}
		if s.P {
			b.WriteByte('p')
		}
		if s.S {
			b.WriteByte('s')
		}
	}
	return b.String()
}

func pick(r *rand.Rand, ss ...string) string { return ss[r.Intn(len(ss))] }

func sortedKeys[V any](m map[string]V) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func readFile(path string) []byte {
	b, err := os.ReadFile(path)
	die(err)
	return b
}

func sortRunes(r []rune) { sort.Slice(r, func(i, j int) bool { return r[i] < r[j] }) }
func sortFD(ds []FD) []FD {
	sort.SliceStable(ds, func(i, j int) bool { return ds[i].Op < ds[j].Op })
	return ds
}

func sameST(a, b []ST) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
