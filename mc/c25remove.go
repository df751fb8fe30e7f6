package main

import (
	"fmt"
	"strings"
)

// c25Remove: removing items leaves the text (and what stands behind it) and the list of keys as they were.
func c25Remove(c *Ctx) {
	lists := append([][]string{}, keyLists(true)...)
	// all orders of three keys, and longer lists in no order
	ks := []string{"a", "b", "c", "B", "", "zz"}
	for _, x := range ks {
		for _, y := range ks {
			for _, z := range ks {
				lists = append(lists, []string{x, y, z})
			}
		}
	}
	lists = append(lists, []string{"d", "c", "b", "a"}, []string{"b", "d", "a", "c"}, []string{"zz", "yy", "a", "b", "b", "a"}, []string{"é", "e", "É", "\u00e9", "\n"}, []string{"k9", "k10", "k1"}, []string{`\u0061`, "a", `a\`})
	var texts []string
	for _, v := range c19Values {
		texts = append(texts, `{"a":`+v+`,"b":`+v+`,"c":{"a":1,"z":`+v+`}}`, `{ "zz" : `+v+` , "\u0061" :`+v+`,"":[{"b":2 , "c":`+v+`}] }`)
	}
	texts = append(texts, `{}`, ` { } `, `{"a":1}`, `{"d":{"c":{"b":{"a":1}}}}`, `{"k1":1,"k10":2,"k9":3}`, `{"é":1,"\u00e9":2,"e":3,"\n":4}`, `{"a":1,"a":2,"b":{"a":3}}`, `[{"a":1}]`, `5`, `"a"`, ``, `{`, `{"a"`, `{"a":`, `{"a":1`, `{"a":1,`, `{"a":{"b":`, `{"a":[1,`, `{"b":tru`, `{"b":"x`, `{"a":1}}`, `{"a" 1}`, `{"b":1 "a":2}`, strings.Repeat(`{"a":`, 40)+"1"+strings.Repeat("}", 40))
	for ti, text := range texts {
		text := text
		c.Do(func() string { return fmt.Sprintf("removal %d: %s", ti, cut(text)) }, func() string {
			c.Trace()
			c.NonTrivial()
			c.Outcome("removal")
			for _, keys := range lists {
				c.State(text, fmt.Sprint(keys))
				for _, size := range []int{-1, 0, 3, len(text), 2*len(text) + 8} {
					for mode := 0; mode < 3; mode++ {
						c.Trans(1)
						l := append(append(make([]string, 0, len(keys)+2), keys...), "mark")
						if _, _, _, _, _, _, _, m := removal(text, l[:len(keys)], size, mode); m != "" {
							return m
						}
						if l[len(keys)] != "mark" {
							return fmt.Sprintf("%q without %q: the memory behind the key list is changed", text, keys)
						}
					}
				}
			}
			return ""
		})
	}
}
