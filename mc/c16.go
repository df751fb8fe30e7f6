package main

import (
	"fmt"
	"strings"
	"time"

	g "github.com/couchbaselabs/gojsonsm"
)

var feAlphabet = []string{"a", "b", "`x y`", "'e'", "1", "-", "1.5", `"s"`, `"2019-01-01"`, "=", "<", "!", ">", "AND", "OR", "NOT", "(", ")", "[", "]", ".", ",", "IS", "NULL", "MISSING", "EXISTS", "TRUE", "false", "+", "*", "ABS", "POW", "DATE", "PI", "META", "REGEXP_CONTAINS", `"("`, `"(?=x)"`, "0x", "99999999999999999999", "#", "\"", "`"}

var feTexts = []string{
	`a = 1`, `a . b [ 0 ] >= - 1.5`, `NOT a != "s" AND ( b IS NOT NULL OR EXISTS ( a . b ) )`, `- a + 1 = b * 2 - 3`, `ABS ( a ) < POW ( b , 2 )`, `DATE ( a ) > DATE ( "2019-01-01" )`,
	`REGEXP_CONTAINS ( a , "s" ) OR TRUE`, `META ( ) . a IS MISSING`, "`x y` = 'e'", `PI ( ) = a AND E ( ) <> b`, `5 - a = 2`, `a = TRUE AND b <> false`, `( ( a = 1 ) )`, `a [ 1 ] [ 2 ] . b == 0x10`,
	`a % 2 = 1 OR b / 2 = 1`, `NOT NOT TRUE`, `ATAN2 ( a , b ) = ROUND ( CEIL ( a ) )`, `a = b OR b = a AND a = a`,
}

func c16Docs() []string {
	return []string{`{}`, `{"a":1,"b":2}`, `{"a":{"b":[1,{"b":2}]},"e":"s","x y":"s"}`, `{"b":null,"a":[[1,2],["s",{"b":16}],[0,1,{"b":16}]]}`, `{"a":"2019-01-01","b":"s","META()":{"a":1}}`, `{"a":-0.5e1,"b":0}`, `[1,"a"]`, `"a"`, `7`, `{"a":true,"b":false}`}
}

// tryFE feeds a text to the filter parser and uses whatever it makes of it.
func tryFE(c *Ctx, text string, docs []string) (accepted bool, msg string) {
	step := "parsing"
	start := time.Now()
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("%q: panic while %s: %v", text, step, r)
		} else if d := time.Since(start); d > 20*time.Second && msg == "" {
			msg = fmt.Sprintf("%q (%d bytes) took %v", text, len(text), d)
		}
	}()
	c.Trans(1)
	c.State(text)
	_, fe, err := g.NewFilterExpressionParser(text)
	if err != nil {
		if hashString(text)%4 != 0 && !c.Thorough {
			return false, ""
		}
		step = "making a matcher"
		if m, err := g.GetFilterExpressionMatcher(text); err == nil || m != nil {
			return false, fmt.Sprintf("%q: the parser reports an error but there is a matcher", text)
		}
		return false, ""
	}
	step = "making the expression"
	x, err := fe.OutputExpression()
	if err != nil {
		return false, ""
	}
	if x == nil {
		return false, fmt.Sprintf("%q: neither error nor expression", text)
	}
	step = "printing the expression"
	_ = x.String()
	step = "compiling"
	cm := compile(x)
	for _, d := range docs {
		step = "matching " + d
		cm.m.Reset()
		if o := cm.run([]byte(d), 1); o.err {
			return true, fmt.Sprintf("%q: accepted, but matching %s gives an error", text, d)
		}
	}
	return true, ""
}

func init() {
	register(&Check{
		ID:    "C16",
		Rule:  "case = a group of texts: all token sequences with a common beginning, all token or byte edits of a valid text, one text of a size series; each text goes to the parser, and what it accepts is output, printed, compiled and matched against 10 documents; a panic, an error for an accepted text, neither error nor expression, or more than 20 s fail; non-trivial: groups with accepted texts; states = distinct texts",
		Assum: []string{"texts of at most some thousand bytes"},
		Bound: func(t string) string {
			if t == "thorough" {
				return "all sequences of up to 3 of 43 tokens and of 4 with 14 tokens in the last two places; all single and double token edits (delete, replace, insert) of 18 texts (double edits with 14 tokens); all single byte edits (all 256 bytes); all byte strings of length 2; 59 kinds of operands, valid or not, at every place of every function, operator and check (all pairs); all patterns of up to 3 of 22 characters, alone and within 12 frames (quick: a seventh of them); size series of 14 constructions up to 3000"
			}
			return "all sequences of up to 3 of 43 tokens; all single token edits (delete, replace, insert) of 18 texts; all single byte edits with 40 bytes; all byte strings of length 1 and of 40 bytes of length 2; 59 kinds of operands, valid or not, at every place of every function, operator and check (all pairs); all patterns of up to 3 of 22 characters, alone and within 12 frames (quick: a seventh of them); size series of 14 constructions up to 1000"
		},
		Run: func(c *Ctx) {
			docs := c16Docs()
			group := func(name string, f func(try func(text string) bool)) {
				c.Do(func() string { return name }, func() (msg string) {
					any := false
					f(func(text string) bool {
						var acc bool
						acc, msg = tryFE(c, text, docs)
						any = any || acc
						if acc {
							c.Note("accepted")
						} else {
							c.Note("refused")
						}
						return msg == ""
					})
					c.Trace()
					if any {
						c.NonTrivial()
						c.Outcome("some accepted")
					} else {
						c.Outcome("all refused")
					}
					return
				})
			}
			group("empty texts", func(try func(string) bool) {
				for _, t := range []string{"", " ", "\n", "\t\r\n ", "/* x */", "// x", "\x00", "\ufeff", "\xff"} {
					if !try(t) {
						return
					}
				}
			})
			c16Forms(c, group)
			c16Regex(c, group)
			few := []string{"a", "1", "-", `"s"`, "=", "AND", "NOT", "(", ")", "[", ".", ",", "IS", "ABS"}
			for _, a := range feAlphabet {
				for _, b := range append([]string{""}, feAlphabet...) {
					a, b := a, b
					group("token sequences beginning with "+a+" "+b, func(try func(string) bool) {
						if b == "" {
							try(a)
							return
						}
						if !try(a + " " + b) {
							return
						}
						for _, t := range feAlphabet {
							if !try(a + " " + b + " " + t) {
								return
							}
						}
						if !c.Thorough {
							return
						}
						for _, t := range few {
							for _, u := range few {
								if !try(a + " " + b + " " + t + " " + u) {
									return
								}
							}
						}
					})
				}
			}
			var edit func(toks []string, from, depth int, alpha []string, f func(string) bool) bool
			edit = func(toks []string, from, depth int, alpha []string, f func(string) bool) bool {
				if !f(strings.Join(toks, " ")) {
					return false
				}
				if depth == 0 {
					return true
				}
				for p := from; p <= len(toks); p++ {
					with := func(skip int, ins ...string) bool {
						l := append(append(append([]string{}, toks[:p]...), ins...), toks[p+skip:]...)
						return edit(l, p, depth-1, alpha, f)
					}
					if p < len(toks) && !with(1) {
						return false
					}
					for _, t := range alpha {
						if !with(0, t) || p < len(toks) && !with(1, t) {
							return false
						}
					}
					if p+1 < len(toks) && !with(2, toks[p+1], toks[p]) {
						return false
					}
				}
				return true
			}
			for _, t := range feTexts {
				t := t
				toks := strings.Fields(strings.Replace(t, "`x y`", "`x\x01y`", -1))
				for i := range toks {
					toks[i] = strings.Replace(toks[i], "\x01", " ", 1)
				}
				for p := 0; p <= len(toks); p++ {
					p := p
					group(fmt.Sprintf("token edits of %s at %d", t, p), func(try func(string) bool) {
						for _, x := range append([]string{""}, feAlphabet...) {
							for skip := 0; skip <= 2 && p+skip <= len(toks); skip++ {
								l := append([]string{}, toks[:p]...)
								if x != "" {
									l = append(l, x)
								}
								if !try(strings.Join(append(l, toks[p+skip:]...), " ")) {
									return
								}
							}
						}
					})
					if c.Thorough && len(toks) <= 16 && p < len(toks) {
						for _, x := range few {
							x := x
							group(fmt.Sprintf("double token edits of %s at %d with %s", t, p, x), func(try func(string) bool) {
								for skip := 0; skip <= 1; skip++ {
									l := append(append(append([]string{}, toks[:p]...), x), toks[p+skip:]...)
									if !edit(l, p+1, 1, few, try) {
										return
									}
								}
							})
						}
					}
				}
				group("cuts of "+t, func(try func(string) bool) {
					for i := range t {
						if !try(t[:i]) || !try(t[i:]) {
							return
						}
					}
				})
				bs := "\x00\t\n !\"#%&'()*+,-./019:;<=>@AEN[\\]_`a{|}~\x7f\x80\xff"
				if c.Thorough {
					bs = ""
					for i := 0; i < 256; i++ {
						bs += string([]byte{byte(i)})
					}
				}
				for i := 0; i <= len(t); i++ {
					i := i
					group(fmt.Sprintf("byte edits of %s at %d", t, i), func(try func(string) bool) {
						for k := 0; k < len(bs); k++ {
							if !try(t[:i]+bs[k:k+1]+t[i:]) || i < len(t) && !try(t[:i]+bs[k:k+1]+t[i+1:]) {
								return
							}
						}
						if i < len(t) {
							try(t[:i] + t[i+1:])
						}
					})
				}
			}
			for i := 0; i < 256; i++ {
				i := i
				group(fmt.Sprintf("byte strings beginning with %#x", i), func(try func(string) bool) {
					b := string([]byte{byte(i)})
					if !try(b) || !try("a="+b) || !try(`a="`+b+`"`) || !try("`"+b+"`=1") || !try(`a="\`+b+`"`) || !try("a=1"+b) || !try(b+"a=1") {
						return
					}
					for j := 0; j < 256; j++ {
						if !c.Thorough && !(strings.IndexByte("\x00 \"'()-./0=[a`\xff", byte(j)) >= 0 && (i < 0x80 || i%16 == 0)) {
							continue
						}
						if !try(b + string([]byte{byte(j)})) {
							return
						}
					}
				})
			}
			sizes := []int{1, 2, 3, 5, 10, 20, 50, 100, 300, 1000}
			if c.Thorough {
				sizes = append(sizes, 3000)
			}
			for _, s := range []struct {
				name string
				mk   func(n int) string
			}{
				{"parentheses", func(n int) string { return strings.Repeat("(", n) + "a=1" + strings.Repeat(")", n) }},
				{"open parentheses", func(n int) string { return strings.Repeat("(", n) }},
				{"open parentheses around a condition", func(n int) string { return strings.Repeat("(", n) + "a=1" }},
				{"NOT", func(n int) string { return strings.Repeat("NOT ", n) + "a=1" }},
				{"AND", func(n int) string { return strings.Repeat("a=1 AND ", n) + "a=1" }},
				{"OR", func(n int) string { return strings.Repeat("b=1 OR ", n) + "a=1" }},
				{"nested AND and OR", func(n int) string { return strings.Repeat("(a=1 AND (b=1 OR ", n) + "a=1" + strings.Repeat("))", n) }},
				{"functions", func(n int) string { return strings.Repeat("ABS(", n) + "a" + strings.Repeat(")", n) + "=1" }},
				{"two-argument functions", func(n int) string { return strings.Repeat("POW(", n) + "a" + strings.Repeat(",b)", n) + "=1" }},
				{"path", func(n int) string { return "a" + strings.Repeat(".b", n) + "=1" }},
				{"indexes", func(n int) string { return "a" + strings.Repeat("[0]", n) + "=1" }},
				{"arithmetic", func(n int) string { return "a" + strings.Repeat("+b*2", n) + "=1" }},
				{"minus", func(n int) string { return strings.Repeat("-", n) + "a=1" }},
				{"long names", func(n int) string {
					return strings.Repeat("a", n) + "=\"" + strings.Repeat("é", n) + "\" AND b=" + strings.Repeat("9", n)
				}},
			} {
				for _, n := range sizes {
					s, n := s, n
					if n == 3000 && strings.Contains(s.name, "nested") {
						continue // 48000 bytes
					}
					if !c.Thorough && n > 300 && strings.Contains(s.name, "function") {
						continue
					}
					group(fmt.Sprintf("%d times %s", n, s.name), func(try func(string) bool) { try(s.mk(n)) })
				}
			}
		},
	})
}
