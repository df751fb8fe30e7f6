package main

import (
	"fmt"

	g "github.com/couchbaselabs/gojsonsm"
)

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// full is everything a caller can observe of one match.
func full(m *g.FastMatcher, doc []byte, n int) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprint("panic: ", r)
		}
	}()
	ok, flags, err := m.MatchWithStatus(doc)
	s = fmt.Sprintf("match=%v flags=%d error=%q each=", ok, flags, errText(err))
	for i := 0; i < n; i++ {
		if m.ExpressionMatched(i) {
			s += "1"
		} else {
			s += "0"
		}
	}
	return s
}

func malformedDocs() []string {
	return []string{"", " ", `{"a":1`, `{"a":1,"s":"x`, `{"nums":[1,2`, `{"nums":[1,5,`, `{"arr":[{"k":true`, `{"a":1,"b":2,"o":{"k":"`, `{"a":tru}`, `{"a" 1}`, `[1,2`, `nul`, `{"mat":[[1],[`, `{"a":1,"b":2,"s":"xyz","z":nul`, "\x00", `{"b":2,"a":`, `{"o":{"p":{"q":[{"r":7}`}
}

func init() {
	register(&Check{
		ID:    "C05",
		Rule:  "case = one set of merged expressions and one document; every history of documents before it (Reset in between) is run on one matcher and the last result (verdict, flags, error text, every per-expression result) compared with a new matcher's; non-trivial: all; states = distinct (expressions, history)",
		Assum: []string{"none beyond the bound"},
		Bound: func(t string) string {
			n := "2"
			if t == "thorough" {
				n = "3 (thinned for 4)"
			}
			return "histories of up to " + n + " earlier documents out of 29 (12 well-formed, 17 malformed, truncated or empty) x 29 last documents x 52 expression sets; in addition a Reset at the very start, doubled Resets, and Resets without a match; histories of one document and a quarter of the others 515 times (some: 65540 times), and of up to 257 Resets; every pair of documents in one buffer used again, and with two matchers in turn" + seriesBound(t == "thorough")
		},
		Run: func(c *Ctx) {
			var sets [][]g.Expression
			ex := corpusExprs()
			for _, e := range ex {
				sets = append(sets, []g.Expression{e})
			}
			sets = append(sets, ex[:5], ex[9:15], ex[18:27], ex[20:24], ex)
			f, v := fld, vfld
			sets = append(sets, []g.Expression{anyIn(1, f("nums"), not(gt(v(1), cst("x")))), eq(f("a"), cst("1"))},
				[]g.Expression{and(eq(f("a"), f("b")), eq(f("o", "k"), f("s"))), lt(f("s"), f("nums"))},
				[]g.Expression{everyIn(1, f("mat"), not(anyIn(2, v(1), eq(v(2), f("b"))))), not(exists(f("a")))})
			var docs []string
			for i, d := range corpusDocs() {
				if i < 9 || i == 9 || i >= 14 {
					docs = append(docs, d.String())
				}
			}
			docs = append(docs, malformedDocs()...)
			c05Series(c, sets, docs)
			c05Long(c, sets, docs)
			c05Buffer(c, sets, docs)
			for si, set := range sets {
				set := set
				for di, last := range docs {
					last := last
					c.Do(func() string {
						return fmt.Sprintf("set %d (%s...), last document %s", si, show(set[0]), last)
					}, func() string {
						var t g.Transformer
						def := t.Transform(set)
						n := len(set)
						want := full(g.NewFastMatcher(def), []byte(last), n)
						m := g.NewFastMatcher(def)
						check := func(hist ...string) string {
							for _, h := range hist {
								m.Reset()
								full(m, []byte(h), n)
							}
							m.Reset()
							c.Trans(len(hist) + 1)
							if got := full(m, []byte(last), n); got != want {
								return fmt.Sprintf("a new matcher gives %s, after %q it gives %s", want, hist, got)
							}
							return ""
						}
						c.StateHash(hashString(fmt.Sprint(si, di)))
						if s := check(); s != "" {
							return s
						}
						m.Reset()
						m.Reset()
						if s := check(); s != "" {
							return s
						}
						for i, a := range docs {
							// a new matcher for this history
							m = g.NewFastMatcher(def)
							if s := check(a); s != "" {
								return s
							}
							for j, b := range docs {
								c.StateHash(hashString(fmt.Sprint(si, i, j)))
								if s := check(a, b); s != "" {
									return s
								}
								if !c.Thorough {
									continue
								}
								for k, d := range docs {
									if s := check(a, b, d); s != "" {
										return s
									}
									if (i*7+j*3+k)%11 == 0 {
										if s := check(docs[(i+k)%len(docs)], a, b, d); s != "" {
											return s
										}
									}
								}
							}
						}
						c.NonTrivial()
						c.Trace()
						c.Outcome(want[:min(len(want), 18)])
						return ""
					})
				}
			}
		},
	})
}
