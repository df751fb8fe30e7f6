package main

import (
	"fmt"

	g "github.com/couchbaselabs/gojsonsm"
)

// c05Buffer: the caller reads every document into the same buffer, and uses two matchers of one
// definition in turn. Neither may matter.
func c05Buffer(c *Ctx, sets [][]g.Expression, docs []string) {
	long := 0
	for _, d := range docs {
		if len(d) > long {
			long = len(d)
		}
	}
	pad := func(d string, n int) string {
		for len(d) < n {
			d += " "
		}
		return d
	}
	for si, set := range sets {
		si, set := si, set
		for di := range docs {
			di := di
			c.Do(func() string {
				return fmt.Sprintf("set %d (%s...), %s and others in one buffer, two matchers in turn", si, show(set[0]), docs[di])
			}, func() string {
				var t g.Transformer
				def := t.Transform(set)
				n := len(set)
				fresh := map[string]string{}
				want := func(d string) string {
					w, ok := fresh[d]
					if !ok {
						w = full(g.NewFastMatcher(def), []byte(d), n)
						fresh[d] = w
					}
					return w
				}
				buf := make([]byte, long+8)
				m1, m2 := g.NewFastMatcher(def), g.NewFastMatcher(def)
				for j := range docs {
					for k, d := range []string{docs[di], docs[j], pad(docs[di], long), pad(docs[j], long), docs[di], pad(docs[j], long)} {
						copy(buf, d)
						m := m1
						if k%2 == 1 {
							m = m2
						}
						m.Reset()
						if got := full(m, buf[:len(d):len(d)], n); got != want(d) {
							return fmt.Sprintf("in a buffer used before %q gives %s, on its own %s (the other document: %s)", d, got, want(d), docs[j])
						}
						// and with more behind it in the buffer, which is not part of the document
						m.Reset()
						if got := full(m, buf[:len(d)], n); got != want(d) {
							return fmt.Sprintf("in a longer buffer %q gives %s, on its own %s (the other document: %s)", d, got, want(d), docs[j])
						}
						c.Trans(2)
					}
					// both at once: the results of one stay while the other works
					m1.Reset()
					m2.Reset()
					r1 := full(m1, []byte(docs[di]), n)
					each := fmt.Sprint(allMatched(m1, n))
					r2 := full(m2, []byte(docs[j]), n)
					if r1 != want(docs[di]) || r2 != want(docs[j]) || each != fmt.Sprint(allMatched(m1, n)) {
						return fmt.Sprintf("two matchers, %s and %s: %s and %s, on their own %s and %s (results kept: %s, %v)", docs[di], docs[j], r1, r2, want(docs[di]), want(docs[j]), each, allMatched(m1, n))
					}
					c.StateHash(hashString(fmt.Sprint("buf", si, di, j)))
				}
				c.NonTrivial()
				c.Trace()
				c.Outcome("one buffer")
				return ""
			})
		}
	}
}

func allMatched(m *g.FastMatcher, n int) []bool {
	var r []bool
	for i := 0; i < n; i++ {
		r = append(r, m.ExpressionMatched(i))
	}
	return r
}
