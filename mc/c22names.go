package main

import (
	"fmt"
	"strings"

	g "github.com/couchbaselabs/gojsonsm"
)

// c22Names compares the two matchers on fields whose names are, or look like, other fields' names or paths: all of
// them are present, in one document, with different values.
func c22Names(c *Ctx) {
	for _, name := range oddNames("") {
		name := name
		c.Do(func() string { return fmt.Sprintf("name %q", name) }, func() string {
			names := append([]string{name}, nearStrings(name)...)
			used := []string{}
			seen := map[string]bool{"": true, "__a": true, "__o": true}
			for _, n := range names {
				if !seen[n] {
					seen[n] = true
					used = append(used, n)
				}
			}
			var docs [][]byte
			for at := range used {
				o, el := vObj(), vObj()
				for i, n := range used {
					num := vNum("2")
					if (i+at)%len(used) == 0 {
						num = vNum("1")
					}
					o.Obj = append(o.Obj, Member{n, num})
					el.Obj = append(el.Obj, Member{n, num})
				}
				doc := vObj("__o", o, "__a", vArr(el))
				doc.Obj = append(doc.Obj, o.Obj...)
				for i, e := range []int{escMin, escUni} {
					docs = append(docs, encode(doc, layout{keyEsc: e, rev: i == 1}))
				}
			}
			c.State(name)
			c.NonTrivial()
			c.Outcome("odd name")
			for _, n := range used {
				for _, exprs := range [][]g.Expression{{eq(fld(n), cst(1.0))}, {eq(fld("__o", n), cst(1.0))}, {anyIn(1, fld("__a"), eq(vfld(1, n), cst(1.0)))}, {eq(fld(n), fld(name)), eq(fld(name), cst(1.0)), eq(fld("__o", n), cst(1.0))}} {
					c.Trace()
					if m := agree(c, exprs, docs, true); m != "" {
						return m
					}
				}
			}
			return ""
		})
	}
	// the same parts as paths and as names
	for _, sep := range []string{".", "/", ":", ",", " ", "->", "[", "]", "\x00", "\"", "\\", "|", "$", "_"} {
		sep := sep
		c.Do(func() string { return fmt.Sprintf("separator %q", sep) }, func() string {
			parts := []string{"a", "b", "a", "d"}
			var paths [][]string
			for n := 1; n <= 4; n++ {
				for cut := 0; cut < 1<<uint(n-1); cut++ {
					path := []string{parts[0]}
					for i := 1; i < n; i++ {
						if cut>>uint(i-1)&1 == 1 {
							path = append(path, parts[i])
						} else {
							path[len(path)-1] += sep + parts[i]
						}
					}
					paths = append(paths, path)
				}
			}
			// a field cannot hold a value and other fields: v holds it
			build := func(hit int) *Val {
				doc := vObj()
				for i, p := range paths {
					num := vNum("2")
					if i == hit {
						num = vNum("1")
					}
					o := doc
					for _, k := range p {
						var next *Val
						for _, m := range o.Obj {
							if m.Key == k {
								next = m.Val
							}
						}
						if next == nil {
							next = vObj()
							o.Obj = append(o.Obj, Member{k, next})
						}
						o = next
					}
					o.Obj = append(o.Obj, Member{"v", num})
				}
				return doc
			}
			var docs, inArr [][]byte
			for i := range paths {
				docs = append(docs, encode(build(i), layout{rev: i%2 == 1}))
				inArr = append(inArr, encode(vObj("arr", vArr(build(i), build((i+3)%len(paths)))), layout{}))
			}
			c.State(sep)
			c.NonTrivial()
			c.Outcome("separator")
			at := func(p []string, f func(...string) g.FieldExpr) g.Expression {
				return f(append(append([]string{}, p...), "v")...)
			}
			root := func(p ...string) g.FieldExpr { return fld(p...) }
			elem := func(p ...string) g.FieldExpr { return vfld(1, p...) }
			for _, p := range paths {
				for _, q := range paths {
					if strings.Join(p, "\n") == strings.Join(q, "\n") {
						continue
					}
					for _, exprs := range [][]g.Expression{
						{lt(at(p, root), at(q, root))}, {eq(at(p, root), cst(1.0)), eq(at(q, root), cst(1.0))}, {or(eq(at(p, root), cst(1.0)), eq(at(q, root), cst(1.0)))},
					} {
						c.Trace()
						if m := agree(c, exprs, docs, true); m != "" {
							return m
						}
					}
					c.Trace()
					if m := agree(c, []g.Expression{anyIn(1, fld("arr"), and(eq(at(p, elem), cst(1.0)), eq(at(q, elem), cst(2.0))))}, inArr, false); m != "" {
						return m
					}
				}
			}
			return ""
		})
	}
}
