package main

import (
	"fmt"
	"strings"
)

var c20Symbols = []string{"{", "}", "[", "]", ":", ",", `"a"`, `"b"`, `"\u0061"`, "1", "-0.5e1", "true", "null", " ", `"`, `\`, "x", "\x00"}

// brokenObject says for which reason a text must be refused.
func brokenObject(s []byte) string {
	if len(s) < 2 || s[0] != '{' || s[len(s)-1] != '}' {
		return "it does not start with { and end with }"
	}
	p, depth := 0, 0
	for {
		t, ok := lexNext(s, p)
		if !ok {
			return fmt.Sprintf("there is no token at %d", p)
		}
		p = t.end
		switch t.kind {
		case '{', '[':
			depth++
		case '}', ']':
			depth--
			if depth < 0 {
				return "there are more closing than opening brackets"
			}
		case '$':
			if depth != 0 {
				return "it is cut off"
			}
			return ""
		}
	}
}

func checkAny(c *Ctx, src string, keys []string) string {
	why := brokenObject([]byte(src))
	c.State(src, strings.Join(keys, "\x00"))
	if why != "" {
		for _, size := range []int{len(src) + 3, -1} {
			c.Trans(1)
			_, _, _, _, _, _, err, msg := removal(src, keys, size, 1)
			if msg != "" {
				return msg
			}
			if err == nil {
				return fmt.Sprintf("%q without %q: no error although %s", src, keys, why)
			}
		}
		c.Note("refused")
		return ""
	}
	if n := rawParse([]byte(src)); n != nil {
		w := wantRemoval(n, keys)
		for size := -1; size <= len(w.out)+1; size++ {
			if m := checkRemoval(c, src, keys, w, size, 1); m != "" {
				return m
			}
		}
		c.Note("well-formed")
		return ""
	}
	// not an object, but made of tokens and balanced: any answer, but no crash, and never more than fits
	for size := -1; size <= len(src); size++ {
		c.Trans(1)
		if _, _, _, _, _, _, _, msg := removal(src, keys, size, 0); msg != "" {
			return msg
		}
	}
	c.Note("odd")
	return ""
}

func init() {
	register(&Check{
		ID:    "C20",
		Rule:  "case = a group of texts with one beginning (all symbol sequences of a length; all cuts, and all single byte changes, of an object); on each text the real function is called with several key lists and all destination sizes; the source, the key list and the bytes behind the destination must be unchanged, texts that are cut off or not made of tokens must give an error, well-formed ones the right result exactly when the destination is large enough; non-trivial: a group with at least one refused text; states = distinct (text, key list)",
		Assum: []string{"texts that consist of JSON tokens with balanced brackets but are not JSON may be accepted or refused"},
		Bound: func(t string) string {
			if t == "thorough" {
				return "all sequences of up to 5 symbols, between braces up to 6, out of 18; all cuts and single byte deletions, replacements and insertions (24 bytes) of 300 objects; pairs of such changes on 12 short ones"
			}
			return "all sequences of up to 4 symbols, between braces up to 5, out of 18; all cuts and single byte deletions, replacements and insertions (24 bytes) of 300 objects"
		},
		Run: func(c *Ctx) {
			lists := [][]string{{"a"}, {"b", "a"}, nil}
			var seq func(prefix string, n int, f func(string) string) string
			seq = func(prefix string, n int, f func(string) string) string {
				if m := f(prefix); m != "" {
					return m
				}
				if n == 0 {
					return ""
				}
				for _, s := range c20Symbols {
					if m := seq(prefix+s, n-1, f); m != "" {
						return m
					}
				}
				return ""
			}
			run := func(s string) string {
				for _, k := range lists {
					if m := checkAny(c, s, k); m != "" {
						return m
					}
				}
				return ""
			}
			done := func() {
				c.NonTrivial()
				c.Trace()
				c.Outcome("handled")
			}
			n, nb := 4, 5
			if c.Thorough {
				n, nb = 5, 6
			}
			c.Do(func() string { return "short texts" }, func() string { done(); return run("") })
			for _, a := range c20Symbols {
				for _, b := range c20Symbols {
					a, b := a, b
					c.Do(func() string { return "texts beginning with " + a + b }, func() string {
						done()
						return seq(a+b, n-2, run)
					})
					c.Do(func() string { return "objects beginning with " + a + b }, func() string {
						done()
						return seq(a+b, nb-2, func(s string) string {
							return run("{" + s + "}")
						})
					})
				}
			}
			var objs []string
			vals := c19Values
			for i, v := range vals {
				objs = append(objs, `{"a":`+v+`}`, `{"q":`+v+`}`)
				for j := range vals {
					if (i+j)%2 == 0 || c.Thorough {
						objs = append(objs, `{"a": `+v+`, "b":`+vals[j]+"\n}")
					}
				}
				objs = append(objs, `{"k":[{"a":`+v+`},`+v+`],"b":{"`+"\\u0061"+`":`+v+`}, "z":0}`)
			}
			bytesTried := "{}[]:,\"\\ \n\x00\x1f\x7f\xffau0-+.eEtn"
			for oi, o := range objs {
				o := o
				oi := oi
				c.Do(func() string { return "cuts of " + o }, func() string {
					done()
					for i := 0; i < len(o); i++ {
						for _, k := range lists {
							if m := checkAny(c, o[:i], k); m != "" {
								return m
							}
							if _, _, _, _, _, _, err, _ := removal(o[:i], k, len(o), 1); err == nil {
								return fmt.Sprintf("%q without %q: no error although it is cut off", o[:i], k)
							}
						}
					}
					return ""
				})
				c.Do(func() string { return "changes of " + o }, func() string {
					done()
					changes := func(o string, f func(s string) string) string {
						for i := 0; i < len(o); i++ {
							if m := f(o[:i] + o[i+1:]); m != "" {
								return m
							}
							for _, b := range []byte(bytesTried) {
								if m := f(o[:i] + string(rune0(b)) + o[i+1:]); m != "" {
									return m
								}
								if m := f(o[:i] + string(rune0(b)) + o[i:]); m != "" {
									return m
								}
							}
						}
						return ""
					}
					r := func(s string) string { return checkAny(c, s, lists[oi%2]) }
					if c.Thorough && len(o) < 11 {
						return changes(o, func(s string) string { return changes(s, r) })
					}
					return changes(o, r)
				})
			}
		},
	})
}

func rune0(b byte) []byte { return []byte{b} }
