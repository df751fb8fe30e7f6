package main

import (
	"fmt"

	g "github.com/couchbaselabs/gojsonsm"
)

// manyNames: many names (or strings) that look alike asked for by one matcher.
func manyNames(c *Ctx) {
	names := append(append([]string{}, keyTwins...), `\n`, "\n", `\t`, "\t", `\r`, `\b`, "\b", `\f`, `\"`, `\u00e9`, `\u00E9`, `\u000a`, `\ud83d\ude00`, `\u0000`, `aA`, `a\u0041`, `\u0061A`)
	for _, n := range []int{1, 2, 3, 9, 10, 17, len(names)} {
		for at := range names {
			if n == len(names) && at > 0 {
				break
			}
			n, at := n, at
			c.Do(func() string { return fmt.Sprintf("%d names from %q on", n, names[at]) }, func() string {
				var asked []string
				for i := 0; i < n; i++ {
					asked = append(asked, names[(at+i)%len(names)])
				}
				var top, nested, elem, vals, either []g.Expression
				for _, k := range asked {
					top = append(top, eq(fld(k), cst(1)))
					nested = append(nested, exists(fld("n", k)))
					elem = append(elem, anyIn(1, fld("l"), eq(vfld(1, k), cst(1))))
					vals = append(vals, eq(fld("s"), cst(k)))
				}
				either = []g.Expression{or(top...)}
				type way struct {
					name string
					cm   *compiled
					text func(s string) string
				}
				ways := []way{
					{"names", compile(top...), func(s string) string { return `{"zz":1,` + s + `:1}` }},
					{"nested names", compile(nested...), func(s string) string { return `{"n":{` + s + `:[1],"zz":2}}` }},
					{"names in elements", compile(elem...), func(s string) string { return `{"l":[{"zz":1},{` + s + `:1}]}` }},
					{"strings", compile(vals...), func(s string) string { return `{"s":` + s + `}` }},
					{"any of the names", compile(either...), func(s string) string { return `{` + s + `:1,"zz":2}` }},
				}
				for _, l := range names {
					for _, esc := range []int{escMin, escUni, escMixed, escUpper} {
						for _, w := range ways {
							text := w.text(encStr(l, esc))
							c.State(text)
							w.cm.m.Reset()
							nExprs := n
							if w.name == "any of the names" {
								nExprs = 1
							}
							o := w.cm.run([]byte(text), nExprs)
							if o.err {
								return fmt.Sprintf("%s: error on %s", w.name, text)
							}
							any := false
							for i, k := range asked {
								any = any || k == l
								if w.name != "any of the names" && (o.each[i] == '1') != (k == l) {
									return fmt.Sprintf("%s: %q asked for (with %d others): %c on %s", w.name, k, n-1, o.each[i], text)
								}
							}
							if o.match != any {
								return fmt.Sprintf("%s: one of %q asked for: %v on %s", w.name, asked, o.match, text)
							}
							c.Trans(1)
						}
					}
				}
				c.Trace()
				c.NonTrivial()
				c.Outcome("many names")
				return ""
			})
		}
	}
}
