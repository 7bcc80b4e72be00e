package main

import (
	"bufio"
	"bytes"
	"errors"
	"io"
	"math/rand"
	"strings"

	"github.com/clipperhouse/jargon"
)

// chunked delivers data in chosen pieces, possibly with the end or an error at the end
type chunked struct {
	data   []byte
	pos    int
	size   func() int // size of the next piece
	err    error      // at the end (io.EOF if nil)
	attach bool       // deliver the error together with the last piece
	onRead func(n int)
	zeros  *rand.Rand // sometimes deliver nothing
	burst  int        // that many times in a row, at most
	left   int
	reads  int
	ended  bool
}

func (c *chunked) Read(p []byte) (int, error) {
	c.reads++
	end := c.err
	if end == nil {
		end = io.EOF
	}
	if c.pos >= len(c.data) {
		c.ended = true
		if c.onRead != nil {
			c.onRead(-1)
		}
		return 0, end
	}
	if c.left > 0 {
		if c.left--; c.left > 0 {
			return 0, nil
		}
	} else if c.zeros != nil && c.zeros.Intn(4) == 0 {
		if c.burst > 0 {
			c.left = c.zeros.Intn(c.burst)
		}
		return 0, nil
	}
	n := len(p)
	if c.size != nil {
		if k := c.size(); k < n {
			n = k
		}
	}
	if n > len(c.data)-c.pos {
		n = len(c.data) - c.pos
	}
	copy(p, c.data[c.pos:c.pos+n])
	c.pos += n
	if c.onRead != nil {
		c.onRead(n)
	}
	if c.attach && c.pos >= len(c.data) {
		c.ended = true
		if c.onRead != nil {
			c.onRead(-2)
		}
		return n, end
	}
	return n, nil
}

func one() int { return 1 }

func randSize(r *rand.Rand, max int) func() int {
	return func() int { return 1 + r.Intn(max) }
}

var errRead = errors.New("planted read failure")

// reader modes: every way of delivering the same bytes
const nModes = 8

func modeReader(mode int, data []byte, r *rand.Rand) *chunked {
	c := &chunked{data: data}
	switch mode {
	case 0: // as much as asked for
	case 1:
		c.size = one
	case 2:
		c.size = randSize(r, 4)
	case 3:
		c.attach = true
	case 4:
		c.size = randSize(r, 9)
		c.attach = true
	case 5:
		c.size = randSize(r, 3)
		c.zeros = r
	case 7: // (readers give up after a hundred times)
		c.size = randSize(r, 40)
		c.zeros = r
		c.burst = 60
	case 6:
		n := 1 + r.Intn(len(data)+1)
		c.size = func() int { return n }
	}
	return c
}

// other ways to hand over a text than a reader made for it
const nKinds = 7

func kindStream(kind int, text string, html bool) *jargon.TokenStream {
	var rd io.Reader
	switch kind {
	case 0:
		if !html {
			return jargon.TokenizeString(text)
		}
		rd = strings.NewReader(text)
	case 1:
		rd = strings.NewReader(text)
	case 2:
		rd = bytes.NewBufferString(text)
	case 3:
		rd = bufio.NewReader(strings.NewReader(text))
	case 4:
		rd = io.MultiReader(strings.NewReader(text[:len(text)/2]), strings.NewReader(text[len(text)/2:]))
	case 5:
		rd = io.LimitReader(strings.NewReader(text+"and more"), int64(len(text)))
	case 6:
		rd = bytes.NewReader([]byte(text))
	}
	if html {
		return jargon.TokenizeHTML(rd)
	}
	return jargon.Tokenize(rd)
}
