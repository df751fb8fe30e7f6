package main

import (
	"fmt"

	g "github.com/couchbaselabs/gojsonsm"
)

// c05Long: one document, then another one very often, each time after a Reset.
func c05Long(c *Ctx, sets [][]g.Expression, docs []string) {
	for si, set := range sets {
		si, set := si, set
		for di := range docs {
			di := di
			c.Do(func() string {
				return fmt.Sprintf("set %d (%s...), %s and then another one very often", si, show(set[0]), docs[di])
			}, func() string {
				var t g.Transformer
				def := t.Transform(set)
				n := len(set)
				fresh := map[string]string{}
				want := func(d string) string {
					w, ok := fresh[d]
					if !ok {
						w = full(g.NewFastMatcher(def), []byte(d), n)
						fresh[d] = w
					}
					return w
				}
				often := func(first, then string, k int) string {
					m := g.NewFastMatcher(def)
					full(m, []byte(first), n)
					data, w := []byte(then), want(then)
					for i := 1; i <= k; i++ {
						m.Reset()
						if got := full(m, data, n); got != w {
							return fmt.Sprintf("a new matcher gives %s for %s; after %s and %d times the same document it gives %s", w, then, first, i-1, got)
						}
					}
					c.Trans(k)
					m.Reset()
					if got := full(m, []byte(first), n); got != want(first) {
						return fmt.Sprintf("a new matcher gives %s for %s; after it and %d times %s it gives %s", want(first), first, k, then, got)
					}
					return ""
				}
				for j := si % 4; j < len(docs); j += 4 {
					if s := often(docs[di], docs[j], 515); s != "" {
						return s
					}
					for _, k := range []int{254, 255, 256, 257} {
						m := g.NewFastMatcher(def)
						full(m, []byte(docs[di]), n)
						for i := 0; i < k; i++ {
							m.Reset()
						}
						c.Trans(1)
						if got := full(m, []byte(docs[j]), n); got != want(docs[j]) {
							return fmt.Sprintf("a new matcher gives %s for %s; after %s and %d Resets it gives %s", want(docs[j]), docs[j], docs[di], k, got)
						}
					}
				}
				if di == si%len(docs) || c.Thorough && (di+si)%4 == 0 {
					for _, j := range []int{0, len(docs) / 3, len(docs) - 1} {
						if s := often(docs[di], docs[j], 65540); s != "" {
							return s
						}
					}
				}
				c.StateHash(hashString(fmt.Sprint("long", si, di)))
				c.NonTrivial()
				c.Trace()
				c.Outcome("long history")
				return ""
			})
		}
	}
}
