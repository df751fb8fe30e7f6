//go:build mcint

package main

import (
	"bytes"
	"fmt"

	g "github.com/couchbaselabs/gojsonsm"
)

type lexer struct {
	t    g.McTok
	toks []lexTok
}

// stepOne steps the real tokenizer and compares with what has to come.
func (l *lexer) stepOne(s []byte, want lexTok, ok bool) string {
	k, data, n, err := l.t.Step()
	if !ok {
		if err == nil {
			return fmt.Sprintf("%q: accepts %q as %c where no token is", s, data, k)
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("%q: error %q instead of token %q", s, err, s[want.start:want.end])
	}
	if k != want.kind || !bytes.Equal(data, s[want.start:want.end]) || n != want.end-want.start || l.t.Pos() != want.end {
		return fmt.Sprintf("%q: token %c %q length %d, position after it %d, should be %c %q at %d", s, k, data, n, l.t.Pos(), want.kind, s[want.start:want.end], want.start)
	}
	return ""
}

// check runs the tokenizer over s; with seeks it also goes back to every earlier position.
func (l *lexer) check(c *Ctx, s []byte, seeks bool) string {
	l.t.Reset(s)
	l.toks = l.toks[:0]
	p := 0
	good := true
	for {
		t, ok := lexNext(s, p)
		if m := l.stepOne(s, t, ok); m != "" {
			return m
		}
		c.Trans(1)
		if !ok {
			good = false
			// the error stays
			if m := l.stepOne(s, t, ok); m != "" {
				return "stepping on after an error: " + m
			}
			break
		}
		l.toks = append(l.toks, t)
		if t.kind == '$' {
			if m := l.stepOne(s, t, ok); m != "" {
				return "stepping on after the end: " + m
			}
			break
		}
		p = t.end
	}
	if !seeks {
		return ""
	}
	// from after any token j back to the start of, or the position before, any token i
	for j := range l.toks {
		for i := 0; i <= j; i++ {
			for before := 0; before < 2; before++ {
				l.t.Seek(l.toks[j].end)
				if before == 1 {
					if i == 0 {
						l.t.Seek(0)
					} else {
						l.t.Seek(l.toks[i-1].end)
					}
				} else {
					l.t.Seek(l.toks[i].start)
				}
				for k := i; k < len(l.toks); k++ {
					c.Trans(1)
					if m := l.stepOne(s, l.toks[k], true); m != "" {
						return fmt.Sprintf("after seeking back to token %d: %s", i, m)
					}
				}
				if !good {
					if m := l.stepOne(s, lexTok{}, false); m != "" {
						return fmt.Sprintf("after seeking back to token %d: %s", i, m)
					}
				}
			}
		}
	}
	// a second document with the same tokenizer
	l.t.Reset([]byte(" 1"))
	return l.stepOne([]byte(" 1"), lexTok{'i', 1, 2}, true)
}

func init() {
	c13Inside = func(c *Ctx) {
		l := &lexer{}
		full, total := 3, 4
		if c.Thorough {
			full, total = 4, 5
		}
		for _, a := range append([]string{""}, lexSymbols...) {
			for _, b := range lexSymbols {
				a, b := a, b
				c.Do(func() string { return fmt.Sprintf("sequences from %q", a+b) }, func() string {
					var buf []byte
					var rec func(n int) string
					rec = func(n int) string {
						c.StateHash(hashString(string(buf)))
						if m := l.check(c, append([]byte(nil), buf...), n <= full); m != "" {
							return m
						}
						if n == total || a == "" {
							return ""
						}
						k := len(buf)
						for _, s := range lexSymbols {
							buf = append(buf[:k], s...)
							if m := rec(n + 1); m != "" {
								return m
							}
						}
						buf = buf[:k]
						return ""
					}
					buf = append(buf, a+b...)
					c.NonTrivial()
					c.Trace()
					c.Outcome("agree")
					return rec(2)
				})
			}
		}
		ends := []string{""}
		if c.Thorough {
			ends = []string{"", " ", "\"", "\\", "1", "0", ".", "e", "+", "-", "e5", ".5", "e+5", "true", "ue", "e", "se", "l", "ll", "null", "}", "]", ",", ":", "00\"", "\xff", "\""}
		}
		for _, p := range lexPrefixes {
			for x := 0; x < 256; x++ {
				p, x := p, x
				c.Do(func() string { return fmt.Sprintf("all pairs of bytes from %q", p+string([]byte{byte(x)})) }, func() string {
					for y := 0; y < 256; y++ {
						for _, e := range ends {
							s := append([]byte(p), byte(x), byte(y))
							s = append(s, e...)
							c.StateHash(hashString(string(s)))
							if m := l.check(c, s, false); m != "" {
								return m
							}
						}
					}
					if m := l.check(c, append([]byte(p), byte(x)), true); m != "" {
						return m
					}
					c.NonTrivial()
					c.Trace()
					c.Outcome("agree")
					return ""
				})
			}
		}
		c.Do(func() string { return "the empty sequence" }, func() string { return l.check(c, nil, true) })
	}
}
