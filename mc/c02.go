package main

import (
	"fmt"

	g "github.com/couchbaselabs/gojsonsm"
)

func init() {
	register(&Check{
		ID:    "C02",
		Rule:  "case = one expression and one document value; every rewriting of the document is matched and its outcome compared with that of the plain text (and with the reference meaning); non-trivial if the expression matches; states = distinct texts",
		Assum: []string{"comparisons of whole arrays or objects with each other are left out (they compare their text)"},
		Bound: func(t string) string {
			d := "every text that deviates from the plain one in one place"
			if t == "thorough" {
				d = "every text that deviates from the plain one in one or two places (two places: extra members subsampled by a fixed stride)"
			}
			return d + " (whitespace at each gap, spelling of each string and of each character, member order of each object, one of 11 unrelated members at each position) and all uniform combinations; 44 expressions and 5 merged lists x 16 documents; up to 70 names and strings that look alike (or like the spelling of others) asked for together, in 4 spellings" + seriesBound(t == "thorough") + largeBound(t == "thorough")
		},
		Run: func(c *Ctx) {
			c02Series(c)
			manyNames(c)
			exprs := corpusExprs()
			lists := [][]g.Expression{}
			for _, e := range exprs {
				lists = append(lists, []g.Expression{e})
			}
			lists = append(lists, exprs[:9], exprs[9:20], exprs[18:27], exprs[27:], exprs)
			depth := 1
			if c.Thorough {
				depth = 2
			}
			for li, list := range lists {
				list := list
				for di, doc := range corpusDocs() {
					doc := doc
					if depth == 2 && li >= len(exprs) && di%3 != 0 {
						continue
					}
					c.Do(func() string {
						s := ""
						for i, e := range list {
							if i > 0 {
								s += " ; "
							}
							s += show(e)
						}
						return s + " on " + doc.String()
					}, func() string {
						cm := compile(list...)
						var base outcome
						fail := ""
						n := 0
						rewritings(doc, depth, func(desc, text string) {
							if fail != "" {
								return
							}
							c.State(text)
							c.Trans(1)
							cm.m.Reset()
							o := cm.run([]byte(text), len(list))
							o.flags = 0
							if n == 0 {
								base = o
							}
							n++
							if o != base {
								fail = fmt.Sprintf("%s gives %v, written as %s (%s) it gives %v", doc, base, text, desc, o)
							}
						})
						if fail != "" {
							return fail
						}
						want := ""
						some := false
						for i, e := range list {
							m, known, _ := meaning(e, doc)
							b := byte('0')
							if m {
								b = '1'
								some = true
							}
							if !known && len(base.each) > i {
								b = base.each[i]
							}
							want += string(b)
						}
						if base.err || base.match != some || base.each != want {
							return fmt.Sprintf("%s: should give %s, gives %v", doc, want, base)
						}
						if base.match {
							c.NonTrivial()
						}
						c.Trace()
						c.Outcome(fmt.Sprintf("matched %v", base.match))
						return ""
					})
				}
			}
		},
	})
}
