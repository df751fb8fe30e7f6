package main

import (
	"fmt"

	g "github.com/couchbaselabs/gojsonsm"
)

// Boolean structure.

type leaf struct {
	name string
	x    g.Expression
}

func c01Leaves() []g.Expression {
	return []g.Expression{
		eq(fld("a"), cst(1)), exists(fld("b")), gt(fld("a"), cst(1)), eq(fld("a", "b"), cst(1)), notExists(fld("a")),
		ne(fld("b"), cst(2)), eq(fld("b"), cst(nil)), eq(fld("a", "[0]"), cst(1)), exists(fld("a")), le(fld("b"), cst("x")),
		exists(fld("a", "b", "c")), notExists(fld("b", "[1]")), eq(fld("b", "b"), cst(true)), lt(fld("c"), cst(2)),
	}
}

func c01Values(n int) []*Val {
	all := []*Val{nil, vNum("1"), vNum("2"), vObj("b", vNum("1")), vArr(vNum("1")), vNull(), vStr("x"),
		vObj("b", vObj("c", vNum("0"))), vBool(true), vObj(), vArr(),
		vArr(vObj("b", vNum("1")), vNum("1")), vObj("x", vArr(), "b", vBool(true)), vStr(""), vNum("-1.5e0")}
	if n < len(all) {
		all = all[:n]
	}
	return all
}

type docText struct {
	v    *Val
	text []byte
}

// c01Docs: objects over the given keys, every combination of values, every member order.
func c01Docs(keys []string, n int) []docText {
	vals := c01Values(n)
	var out []docText
	var rec func(i int, v *Val)
	rec = func(i int, v *Val) {
		if i == len(keys) {
			for _, o := range memberOrders(v) {
				out = append(out, docText{v, encode(o, layout{})})
			}
			return
		}
		for _, x := range vals {
			w := &Val{K: KObj, Obj: append([]Member{}, v.Obj...)}
			if x != nil {
				w.Obj = append(w.Obj, Member{keys[i], x})
			}
			rec(i+1, w)
		}
	}
	rec(0, &Val{K: KObj})
	return out
}

func pol(x g.Expression, neg bool) g.Expression {
	if neg {
		return not(x)
	}
	return x
}

// shapes calls f with every formula over exactly the given leaves, in this order, with AND and OR,
// flat and nested, and every placement of NOT.
func shapes(leaves []g.Expression, f func(g.Expression)) {
	var trees func(lo, hi int) []func(neg *[]bool) g.Expression
	// a tree consumes polarity bits from neg
	take := func(neg *[]bool) bool {
		b := (*neg)[0]
		*neg = (*neg)[1:]
		return b
	}
	trees = func(lo, hi int) []func(neg *[]bool) g.Expression {
		var out []func(neg *[]bool) g.Expression
		if hi-lo == 1 {
			return append(out, func(neg *[]bool) g.Expression { return pol(leaves[lo], take(neg)) })
		}
		for k := lo + 1; k < hi; k++ {
			for _, l := range trees(lo, k) {
				for _, r := range trees(k, hi) {
					l, r := l, r
					out = append(out,
						func(neg *[]bool) g.Expression { n := take(neg); return pol(and(l(neg), r(neg)), n) },
						func(neg *[]bool) g.Expression { n := take(neg); return pol(or(l(neg), r(neg)), n) })
				}
			}
		}
		if hi-lo == 3 {
			for _, op := range []func(...g.Expression) g.Expression{and, or} {
				op := op
				out = append(out, func(neg *[]bool) g.Expression {
					n := take(neg)
					take(neg)
					a, b, c := take(neg), take(neg), take(neg)
					return pol(op(pol(leaves[lo], a), pol(leaves[lo+1], b), pol(leaves[lo+2], c)), n)
				})
			}
		}
		return out
	}
	n := len(leaves)
	bits := 2*n - 1
	for _, t := range trees(0, n) {
		for m := 0; m < 1<<bits; m++ {
			neg := make([]bool, bits)
			for i := range neg {
				neg[i] = m>>i&1 == 1
			}
			p := neg
			f(t(&p))
		}
	}
}

func runDocs(c *Ctx, x g.Expression, docs []docText) string {
	cm := compile(x)
	any, none := false, false
	for _, d := range docs {
		c.State(string(d.text))
		if m := checkDoc(c, x, cm, d.v, d.text); m != "" {
			return m
		}
		if w, _, _ := meaning(x, d.v); w {
			any = true
		} else {
			none = true
		}
	}
	c.Trace()
	if any && none {
		c.NonTrivial()
	}
	return ""
}

// c01Trees: value trees up to a depth.
func c01Trees(depth int) []*Val {
	leaves := []*Val{vNum("1"), vNum("2")}
	cur := leaves
	for d := 0; d < depth; d++ {
		next := append([]*Val{}, leaves...)
		next = append(next, vObj(), vArr())
		for _, x := range cur {
			next = append(next, vObj("a", x), vObj("b", x), vArr(x))
			for _, y := range cur {
				next = append(next, vObj("a", x, "b", y), vArr(x, y))
			}
		}
		cur = next
	}
	return cur
}

func c01Paths(depth int) [][]string {
	steps := []string{"a", "b", "[0]", "[1]"}
	out := [][]string{}
	last := [][]string{{}}
	for d := 0; d < depth; d++ {
		var next [][]string
		for _, p := range last {
			for _, s := range steps {
				next = append(next, append(append([]string{}, p...), s))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func init() {
	register(&Check{
		ID:    "C01",
		Rule:  "case = one expression, matched on every document of its family and compared with the formula evaluated on the value tree; non-trivial if both verdicts occur; states = distinct document texts",
		Assum: []string{"documents have no duplicate keys; object keys do not look like array indexes"},
		Bound: func(t string) string {
			if t == "thorough" {
				return "all AND/OR/NOT formulas (every bracketing and polarity) over up to 4 leaves; objects over 3 keys with up to 15 values each in every member order; all pairs of paths of depth <=2 (single paths: 3) on all value trees of depth <=2 (3); 41 pairs of conditions that look alike in all formulas with a third one, 49 documents" + naryBound(6, t == "thorough") + seriesBound(t == "thorough") + largeBound(t == "thorough")
			}
			return "all AND/OR/NOT formulas (every bracketing and polarity) over up to 3 leaves of 14 (3 leaves: 8); objects over 2-3 keys in every member order; all pairs of paths of depth <=2 on all value trees of depth <=2; 41 pairs of conditions that look alike in all formulas with a third one between them, 49 documents" + naryBound(6, t == "thorough") + seriesBound(t == "thorough") + largeBound(t == "thorough")
		},
		Run: func(c *Ctx) {
			doSeries(c, "bool")
			doSeries(c, "deep")
			doLarge(c, "bool")
			for n := 3; n <= 6; n++ {
				docs := truths(n)
				naryExprs(n, n < 6 || c.Thorough, naryLeaf, func(x g.Expression) {
					c.Do(func() string { return show(x) }, func() string { return runDocs(c, x, docs) })
				})
			}
			if c.Thorough {
				docs := truths(7)
				naryExprs(7, false, naryLeaf, func(x g.Expression) {
					c.Do(func() string { return show(x) }, func() string { return runDocs(c, x, docs) })
				})
			}
			leaves := c01Leaves()
			docs3 := c01Docs([]string{"a", "b", "c"}, 7)
			docs2 := c01Docs([]string{"a", "b"}, 15)
			small := c01Docs([]string{"a", "b"}, 8)
			if c.Thorough {
				docs3 = c01Docs([]string{"a", "b", "c"}, 12)
				small = c01Docs([]string{"a", "b"}, 12)
			}
			one := func(x g.Expression, docs []docText) {
				c.Do(func() string { return show(x) }, func() string { return runDocs(c, x, docs) })
			}
			for _, l := range leaves {
				shapes([]g.Expression{l}, func(x g.Expression) { one(x, docs3) })
				for _, m := range leaves {
					shapes([]g.Expression{l, m}, func(x g.Expression) { one(x, docs2) })
				}
			}
			n3 := 8
			if c.Thorough {
				n3 = len(leaves)
			}
			for i := 0; i < n3; i++ {
				for j := 0; j < n3; j++ {
					for k := 0; k < n3; k++ {
						shapes([]g.Expression{leaves[i], leaves[j], leaves[k]}, func(x g.Expression) { one(x, small) })
					}
				}
			}
			if c.Thorough {
				tiny := c01Docs([]string{"a", "b"}, 6)
				for i := 0; i < 4; i++ {
					for j := 0; j < 4; j++ {
						for k := 0; k < 4; k++ {
							for l := 0; l < 4; l++ {
								shapes([]g.Expression{leaves[i], leaves[j], leaves[k], leaves[l]}, func(x g.Expression) { one(x, tiny) })
							}
						}
					}
				}
			}
			tdocs := twinDocs()
			for _, t := range twins() {
				for _, z := range []g.Expression{eq(fld("b"), cst(2)), notExists(fld("a")), eq(fld("a"), cst(1))} {
					shapes([]g.Expression{t[0], t[1]}, func(x g.Expression) { one(x, tdocs) })
					shapes([]g.Expression{t[0], z, t[1]}, func(x g.Expression) { one(x, tdocs) })
					if c.Thorough {
						shapes([]g.Expression{t[1], t[0], z}, func(x g.Expression) { one(x, tdocs) })
						shapes([]g.Expression{t[1], z, t[0]}, func(x g.Expression) { one(x, tdocs) })
					}
				}
			}
			// wide and deep formulas: n leaves of which one decides
			for n := 4; n <= 9; n++ {
				for at := 0; at < n; at++ {
					for kind := 0; kind < 8; kind++ {
						var parts []g.Expression
						for i := 0; i < n; i++ {
							k := fmt.Sprintf("k%d", i)
							if i == at {
								k = "a"
							}
							parts = append(parts, pol(eq(fld(k), cst(1)), kind&1 != 0))
						}
						var x g.Expression
						if kind&2 == 0 {
							if x = and(parts...); kind&4 != 0 {
								x = or(parts...)
							}
						} else {
							x = parts[0]
							for i, p := range parts[1:] {
								if (i%2 == 0) == (kind&4 != 0) {
									x = and(x, p)
								} else {
									x = or(p, x)
								}
							}
						}
						var docs []docText
						for m := 0; m < 8; m++ {
							v := vObj()
							for i := 0; i < n; i++ {
								k := fmt.Sprintf("k%d", i)
								if i == at {
									k = "a"
								}
								if m&4 == 0 || i%2 == 0 {
									val := vNum("1")
									if i == at && m&1 == 1 || i != at && m&2 == 2 {
										val = vNum("2")
									}
									v.Obj = append(v.Obj, Member{k, val})
								}
							}
							docs = append(docs, docText{v, encode(v, layout{})}, docText{v, encode(v, layout{rev: true})})
						}
						one(x, docs)
					}
				}
			}
			// paths
			var pathDocs, pathDocs3 []docText
			for _, v := range c01Trees(2) {
				pathDocs = append(pathDocs, docText{v, encode(v, layout{})})
				if v.K == KObj && len(v.Obj) > 1 {
					pathDocs = append(pathDocs, docText{v, encode(v, layout{rev: true})})
				}
			}
			conds := []func(g.Expression) g.Expression{
				func(f g.Expression) g.Expression { return eq(f, cst(1)) },
				func(f g.Expression) g.Expression { return exists(f) },
				func(f g.Expression) g.Expression { return notExists(f) },
				func(f g.Expression) g.Expression { return ne(f, cst(1)) },
			}
			d2 := c01Trees(1)
			for _, x := range c01Trees(2) {
				pathDocs3 = append(pathDocs3, docText{vObj("a", x), encode(vObj("a", x), layout{})},
					docText{vArr(vNum("1"), x), encode(vArr(vNum("1"), x), layout{})})
				if c.Thorough {
					for _, y := range d2 {
						v := vObj("b", y, "a", x)
						pathDocs3 = append(pathDocs3, docText{v, encode(v, layout{})})
						w := vArr(x, y)
						pathDocs3 = append(pathDocs3, docText{w, encode(w, layout{})})
					}
				}
			}
			for _, p := range c01Paths(3) {
				for _, cd := range conds {
					one(cd(fld(p...)), pathDocs3)
				}
			}
			ps := c01Paths(2)
			for _, p := range ps {
				for _, q := range ps {
					for _, cp := range conds[:3] {
						for _, cq := range conds[:3] {
							one(and(cp(fld(p...)), cq(fld(q...))), pathDocs)
							one(or(cp(fld(p...)), not(cq(fld(q...)))), pathDocs)
						}
					}
				}
			}
			// indexes of two digits, the whole document, keys that contain or extend each other
			long := vArr()
			for i := 0; i < 13; i++ {
				long.Arr = append(long.Arr, vInt(int64(i)))
			}
			var odd []docText
			for _, v := range []*Val{vObj("a", long), vObj("a", vArr(long, long)), vObj("a.b", vNum("1"), "a", vObj("b", vNum("2"))), vObj("ab", vNum("1"), "a", vNum("2")),
				vObj("", vNum("1")), vObj("a", vObj("", vNum("1"))), vNum("1"), vNum("2"), vStr("x"), vNull(), vBool(true), vArr(), vObj(), vArr(vArr(), vNum("1")), vObj("A", vNum("1")),
				vObj("a", vObj("b", vNum("1"), "ab", vNum("2")), "b", vNum("1")), vObj("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab", vNum("1"))} {
				odd = append(odd, docText{v, encode(v, layout{})}, docText{v, encode(v, layout{rev: true, ws: " "})})
			}
			for _, p := range [][]string{{"a", "[10]"}, {"a", "[1]"}, {"a", "[12]"}, {"a", "[1]", "[12]"}, {"a", "[2]"}, {"a.b"}, {"a", "b"}, {"ab"}, {"a"}, {""}, {"a", ""}, {},
				{"[1]"}, {"A"}, {"a", "ab"}, {"b"}, {"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab"}} {
				for v := int64(1); v <= 12; v++ {
					one(eq(fld(p...), cst(v)), odd)
					one(not(eq(fld(p...), cst(v))), odd)
				}
				one(exists(fld(p...)), odd)
				one(eq(fld(p...), cst("x")), odd)
				one(eq(fld(p...), cst(nil)), odd)
				one(eq(fld(p...), cst(true)), odd)
			}
		},
	})
}
