package main

import (
	"encoding/json"
	"fmt"
)

// c13Inside drives the tokenizer itself; it is nil if the library could not be built with access to it.
var c13Inside func(c *Ctx)

var lexSymbols = []string{"{", "}", "[", "]", ":", ",", "\"", "\\", "-", "0", "1", "9", ".", "e", "E", "+", " ", "\n", "t", "true", "false", "null", "fals", "nul", "u", "\\u00e9", "\\uD83", "\\n", "\\\"",
	"a", "/", "\x01", "\x1f", "\x7f", "\x80", "\xff", "é", "\x00", "b", "\t", "12.5e-3", `"k"`, `""`}

var lexPrefixes = []string{"", " ", `"`, `"a`, `"\`, `"\u`, `"\u1`, `"\u1b`, `"\u1bC`, `"\u1bCd`, `"\n`, "-", "0", "-0", "1", "12", "1.", "1.2", "0.", "0.0", "1e", "1E", "1e+", "1e-", "1e5", "1.5e5", "0e", "t", "tr", "tru", "true", "f", "fa", "fal", "fals", "false", "n", "nu", "nul", "null", "{", "[1", `{"a"`, `{"a":`, "]"}

// c13Embed reads a byte sequence as part of a document, in front of the member that decides: valid JSON
// has to be read over to the right place, and a sequence that is no token has to be an error.
func c13Embed(c *Ctx, cm *compiled, before, s, after string) string {
	text := before + s + after
	c.StateHash(hashString(text))
	c.Trans(1)
	cm.m.Reset()
	o := cm.run([]byte(text), 2)
	if json.Valid([]byte(text)) {
		if o.err || o.each != "10" {
			return fmt.Sprintf("%q: z = 1 and EXISTS zz are %v, should be 10", text, o)
		}
		return ""
	}
	depth := 0
	for p := 0; ; {
		t, ok := lexNext([]byte(text), p)
		if !ok {
			if !o.err {
				return fmt.Sprintf("%q: %v though what comes from %d on is no token", text, o, p)
			}
			return ""
		}
		switch t.kind {
		case '{', '[':
			depth++
		case '}', ']':
			depth--
		}
		if depth == 0 || t.kind == '$' {
			return ""
		}
		p = t.end
	}
}

func c13Outside(c *Ctx) {
	cm := compile(eq(fld("z"), cst(1)), exists(fld("zz")))
	wraps := [][2]string{{`{"k":[`, `],"z":1}`}, {`{"k":`, `,"z":1}`}, {`{`, `:0,"z":1}`}, {`{"k":"`, `","z":1}`}}
	full := 3
	if c.Thorough {
		full = 4
	}
	for w, wrap := range wraps {
		for _, a := range lexSymbols {
			wrap, a := wrap, a
			c.Do(func() string { return fmt.Sprintf("sequences from %q in %s_%s", a, wrap[0], wrap[1]) }, func() string {
				var buf []byte
				var rec func(n int) string
				rec = func(n int) string {
					if m := c13Embed(c, cm, wrap[0], string(buf), wrap[1]); m != "" {
						return m
					}
					if n == full || w > 0 && n == full-1 {
						return ""
					}
					k := len(buf)
					for _, s := range lexSymbols {
						buf = append(buf[:k], s...)
						if m := rec(n + 1); m != "" {
							return m
						}
					}
					return ""
				}
				buf = append(buf, a...)
				c.NonTrivial()
				c.Trace()
				c.Outcome("through the matcher")
				return rec(1)
			})
		}
	}
	for _, p := range lexPrefixes {
		p := p
		c.Do(func() string { return fmt.Sprintf("all pairs of bytes from %q through the matcher", p) }, func() string {
			for x := 0; x < 256; x++ {
				for y := 0; y < 256; y++ {
					s := p + string([]byte{byte(x), byte(y)})
					for _, after := range []string{`],"z":1}`, `"],"z":1}`} {
						if m := c13Embed(c, cm, `{"k":[`, s, after); m != "" {
							return m
						}
					}
				}
			}
			c.NonTrivial()
			c.Trace()
			c.Outcome("through the matcher")
			return ""
		})
	}
}

func init() {
	register(&Check{
		ID:    "C13",
		Rule:  "case = all byte sequences with a common beginning; each is tokenized to its end or first error and compared token by token (kind, text, length, position) with a lexer written from RFC 8259; short ones also with every seek back; and as part of a document read by the matcher: valid JSON is read over to the right place, what is no token is an error; non-trivial: all; states = distinct byte sequences",
		Assum: []string{"bytes above 0x7f are accepted inside strings whatever they form"},
		Bound: func(t string) string {
			n, b, m := "3 (with every seek) and 4", "every 2 bytes", "3"
			if t == "thorough" {
				n, b, m = "4 (with every seek) and 5", "every 2 bytes and 27 endings", "4"
			}
			return insideNote(c13Inside != nil, fmt.Sprintf("all sequences of up to %s of %d symbols (punctuation, digits, letters, literals, escapes, control and non-ASCII bytes); %d beginnings that reach every scanner state followed by %s", n, len(lexSymbols), len(lexPrefixes), b)) +
				fmt.Sprintf("; all sequences of up to %s of them as an array's content (one fewer as a value, a key, a string), and the beginnings with every 2 bytes, through the matcher", m)
		},
		Run: func(c *Ctx) {
			if c13Inside != nil {
				c13Inside(c)
			}
			c13Outside(c)
		},
	})
}
