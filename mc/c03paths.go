package main

import (
	"fmt"

	g "github.com/couchbaselabs/gojsonsm"
)

// c03Paths: loops whose body relates two values that are far inside of an element, which other elements do not have.
func c03Paths(c *Ctx) {
	depth := 4
	if c.Thorough {
		depth = 5
	}
	var paths [][]string
	for n := 1; n <= depth; n++ {
		for k := 0; k < 1<<uint(n); k++ {
			p := make([]string, n)
			for i := range p {
				p[i] = []string{"a", "b"}[k>>uint(i)&1]
			}
			paths = append(paths, p)
		}
	}
	// and longer ones
	paths = append(paths, []string{"a", "a", "a", "a", "a", "a", "a", "a"}, []string{"a", "a", "a", "a", "a", "a", "a", "b"}, []string{"b", "b", "b", "b", "b", "b", "b"})
	for _, p := range paths {
		for _, q := range paths {
			p, q := p, q
			c.Do(func() string { return "loop over " + show(eq(vfld(1, p...), vfld(1, q...))) }, func() string {
				put := func(k int) *Val { // 1: p is there, 2: q, 4: q has another value, 8: the other order
					v := vObj("x", vNum("7"))
					y := "1"
					if k&4 != 0 {
						y = "2"
					}
					if k&8 != 0 && k&2 != 0 {
						v, _ = putAt(v, q, vNum(y))
					}
					if k&1 != 0 {
						v, _ = putAt(v, p, vNum("1"))
					}
					if k&8 == 0 && k&2 != 0 {
						v, _ = putAt(v, q, vNum(y))
					}
					return v
				}
				els := []*Val{put(3), put(7), put(1), put(2), put(14), put(11), put(0), vNum("1")}
				var docs []docText
				seqs(els, 2, func(s []*Val) {
					e := vObj("s", vArr(append([]*Val{}, s...)...))
					docs = append(docs, docText{e, encode(e, layout{})})
					if len(s) == 2 {
						e = vObj("s", vArr(vArr(s[0]), vArr(s[1], s[0])))
						docs = append(docs, docText{e, encode(e, layout{})})
					}
				})
				v := vfld
				for _, m := range loopModes {
					for _, b := range []g.Expression{eq(v(1, p...), v(1, q...)), not(lt(v(1, p...), v(1, q...))), eq(fn(g.MathFuncAdd, v(1, p...), v(1, q...)), cst(2))} {
						if msg := runDocs(c, m(1, fld("s"), b), docs); msg != "" {
							return msg
						}
					}
					if msg := runDocs(c, m(2, fld("s"), anyIn(1, vfld(2), eq(v(1, p...), v(1, q...)))), docs); msg != "" {
						return msg
					}
				}
				return ""
			})
		}
	}
	c03LongArrays(c)
}

// c03LongArrays: the first element of a long array has what all the others do not have.
func c03LongArrays(c *Ctx) {
	v := vfld
	bodies := []g.Expression{eq(v(1, "a"), v(1, "b")), eq(v(1, "a", "c"), v(1, "b")), lt(v(1, "a", "c"), v(1, "b", "d")), not(exists(v(1, "a"))), ne(v(1, "a"), v(1, "b")), eq(fn(g.MathFuncAdd, v(1, "a"), v(1, "b")), cst(5)),
		and(eq(v(1, "a"), v(1, "b")), exists(v(1, "b"))), or(eq(v(1, "a"), v(1, "b")), gt(v(1, "b"), cst(8))), anyIn(2, v(1, "l"), eq(v(2), v(1, "b"))), not(everyIn(2, v(1, "l"), eq(v(2), v(1, "a")))), eq(v(1, "a"), fld("x"))}
	firsts := []*Val{vObj("a", vNum("2"), "b", vNum("3"), "l", vArr(vNum("7"))), vObj("b", vNum("3"), "a", vObj("c", vNum("2"))), vObj("b", vObj("d", vNum("4")), "a", vObj("c", vNum("5"), "d", vNum("1")))}
	fills := []*Val{vObj("b", vNum("2")), vObj("a", vNum("3")), vObj("b", vObj("d", vNum("6"))), vObj(), vNum("1"), vObj("l", vArr(), "b", vNum("7"))}
	ns := []int{253, 254, 255, 256, 257, 258, 259, 511, 512, 513, 514}
	for bi := range bodies {
		for fi := range firsts {
			bi, fi := bi, fi
			c.Do(func() string { return fmt.Sprintf("long arrays: %s, first %v", show(bodies[bi]), firsts[fi]) }, func() string {
				for li := range fills {
					sizes := ns
					if li == (bi+fi)%len(fills) || c.Thorough {
						sizes = append(append([]int{}, ns...), 65537, 65538)
					}
					for _, n := range sizes {
						els := make([]*Val, n)
						for i := range els {
							els[i] = fills[li]
						}
						els[0] = firsts[fi]
						d := vObj("s", vArr(els...), "x", vNum("2"))
						docs := []docText{{d, encode(d, layout{})}}
						if n < 1000 {
							docs = append(docs, docText{d, encode(d, layout{rev: true})})
						}
						for _, m := range loopModes {
							if msg := runDocs(c, m(1, fld("s"), bodies[bi]), docs); msg != "" {
								return cut(msg)
							}
						}
					}
				}
				c.Outcome("long arrays")
				c.NonTrivial()
				return ""
			})
		}
	}
}
