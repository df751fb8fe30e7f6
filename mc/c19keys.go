package main

import (
	"fmt"
	"strings"
)

// keyTwins are names that look alike, or like the spelling of another one.
var keyTwins = []string{"a", "A", "b", "ab", "aa", " a", "a ", "a\n", "a\t", "a\x00", "\x00", "", " ", "é", "É", "e", "e\u0301", "ａ", "а" /* Cyrillic */, "0", "00", "1", "-0", "0.0", "a.b", "a/b", `a\/b`, `a\b`, "`a`", `"a"`, `"`, `\`, `\\`, `\u0061`, "u0061", "a:", "a,", "{a}", "[0]", "😀", "😁", "\ufeffa", "a\u200b", "\u2028", "null", "true", "ß", "ss", "ſ", "s", "K", "k", "K" /* Kelvin */}

// c19Keys: keys that look alike, and long ones with much in common.
func c19Keys(c *Ctx) {
	try := func(text string, lists [][]string) string {
		n := rawParse([]byte(text))
		if n == nil {
			return "the harness made a bad object: " + text
		}
		for i, keys := range lists {
			w := wantRemoval(n, keys)
			c.State(text, strings.Join(keys, "\x00"))
			if m := checkRemoval(c, text, keys, w, len(w.out)+i%2, i%3); m != "" {
				return m
			}
		}
		return ""
	}
	twins := keyTwins
	for _, k := range twins {
		for _, l := range twins {
			k, l := k, l
			c.Do(func() string { return fmt.Sprintf("keys %q and %q", k, l) }, func() string {
				c.Trace()
				c.NonTrivial()
				c.Outcome("keys that look alike")
				lists := [][]string{{k}, {l}, {k, l}, {l, k}, {l, "zz", k}}
				for _, e := range []int{escMin, escUni, escMixed} {
					kt, lt := encStr(k, e), encStr(l, escMin)
					for _, text := range []string{`{` + kt + `:1,"x":2}`, `{` + kt + `:1,` + lt + `:2}`, `{"x":[{` + lt + `:` + kt + `}],` + kt + `:{` + lt + `:3}}`} {
						if m := try(text, lists); m != "" {
							return m
						}
					}
				}
				return ""
			})
		}
	}
	var lens []int
	for n := 1; n <= 40; n++ {
		lens = append(lens, n)
	}
	for _, n := range []int{64, 128, 256, 512, 1024, 4096, 65536} {
		lens = append(lens, n-2, n-1, n, n+1)
	}
	for _, n := range lens {
		n := n
		c.Do(func() string { return fmt.Sprintf("keys of %d bytes", n) }, func() string {
			c.Trace()
			c.NonTrivial()
			c.Outcome("long keys")
			base := strings.Repeat("k", n)
			at := []int{0, 1, n / 2, n - 2, n - 1}
			if n <= 300 || c.Thorough && n < 2000 {
				at = nil
				for i := 0; i < n; i++ {
					at = append(at, i)
				}
			}
			for _, i := range at {
				if i < 0 || i >= n {
					continue
				}
				other := base[:i] + "K" + base[i+1:]
				lists := [][]string{{base}, {other}, {other, base}, {base + "k"}, {base[:n-1]}, {base[:i]}, {other[i:]}}
				for _, e := range []int{escMin, escMixed} {
					if msg := try(`{`+encStr(base, e)+`:1,`+encStr(other, escMin)+`:{"x":`+encStr(base, escMin)+`,`+encStr(base, escMin)+`:2}}`, lists); msg != "" {
						return cut(msg)
					}
				}
			}
			return ""
		})
	}
}
