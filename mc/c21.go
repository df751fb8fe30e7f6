package main

import (
	"encoding/json"
	"fmt"
	"strings"

	g "github.com/couchbaselabs/gojsonsm"
)

func c21Docs() []docText {
	var out []docText
	arrs := []*Val{nil, vNum("1"), vArr(), vArr(vNum("1")), vArr(vNum("2")), vArr(vNum("2"), vNum("1")), vArr(vArr(), vArr(vNum("1")))}
	as := []*Val{nil, vNum("1"), vNum("2")}
	for _, t := range []string{`{}`, `[]`, `5`, `{"a":1,"b":"x","o":{"k":1}}`, `{"a":null,"b":2,"o":{"k":2}}`, `{"o":{},"a":"x"}`, `{"b":{"k":1},"o":7,"arr":["x",null,1]}`, `{"arr":{"x":1},"a":[1]}`, `{"o":{"k":null},"arr":[null]}`} {
		v := parseVal(t)
		out = append(out, docText{v, []byte(t)})
	}
	i := 0
	for _, arr := range arrs {
		for _, a := range as {
			for _, b := range as {
				if i++; b == nil && a == nil && i%2 == 0 {
					continue
				}
				v := vObj()
				add := func(k string, x *Val) {
					if x != nil {
						v.Obj = append(v.Obj, Member{k, x})
					}
				}
				if i%2 == 0 {
					add("a", a)
					add("arr", arr)
					add("b", b)
				} else {
					add("b", b)
					add("zz", vArr(vNum("1")))
					add("arr", arr)
					add("a", a)
				}
				out = append(out, docText{v, encode(v, layout{})})
			}
		}
	}
	return out
}

func c21Leaves() []g.Expression {
	f, v := fld, vfld
	t, fa := g.TrueExpr{}, g.FalseExpr{}
	return []g.Expression{
		t, fa, eq(f("a"), cst(1)), eq(f("b"), cst(1)),
		anyIn(1, f("arr"), t), everyIn(1, f("arr"), t), anyEveryIn(1, f("arr"), t), everyIn(1, f("arr"), fa),
		anyIn(1, f("arr"), fa), anyEveryIn(1, f("arr"), fa),
		anyIn(1, f("arr"), and(t, eq(v(1), cst(1)))), everyIn(1, f("arr"), or(fa, eq(v(1), cst(1)))),
		anyIn(1, f("arr"), or(t, eq(v(1), cst(1)))), everyIn(1, f("arr"), and(fa, eq(v(1), cst(1)))),
		anyIn(1, f("arr"), not(t)), everyIn(1, f("arr"), not(fa)), anyEveryIn(1, f("arr"), not(or(fa, fa))),
		anyIn(1, f("arr"), anyIn(2, v(1), t)), everyIn(1, f("arr"), everyIn(2, v(1), fa)), anyIn(1, f("arr"), everyIn(2, v(1), and(t, eq(v(2), cst(1))))),
		exists(f("arr")), notExists(f("a")), not(t), not(not(fa)),
		and(t), or(fa), and(or(t, fa), t), or(and(fa), eq(f("a"), cst(2))),
	}
}

func init() {
	register(&Check{
		ID:    "C21",
		Rule:  "case = one expression with constants; the compacted, the twice compacted, and the original expression (alone, and the compacted one compiled together with the original) are matched against all documents and compared with the meaning of the original; non-trivial: both verdicts occur; states = distinct (expression, document)",
		Assum: []string{"no empty AND or OR lists"},
		Bound: func(t string) string {
			if t == "thorough" {
				return "all formulas (AND, OR, NOT everywhere) of 1 and 2 of 28 leaves and 3 of 15 leaves, 4 of 4 leaves; every comparison of 4 left and 4 right sides in 10 surroundings, and in loop bodies in 4; loop bodies that are formulas of 2 leaves of 5; 66 documents; 41 pairs of conditions that look alike, in all formulas of both, of both and a third one, and in loop bodies, with 49 documents of their own; about 400 conditions (6 operators on a field and constants of all kinds, functions that seem to change nothing, a field and itself; 35 patterns; existence) as they are and in 6 surroundings on 84 documents with values of all kinds, 116 of them in loop bodies" + "; all AND/OR formulas of up to 6 conditions (thorough: 7), with one negated part up to 5, and with every condition in turn replaced by a constant" + seriesBound(t == "thorough")
			}
			return "all formulas (AND, OR, NOT everywhere) of 1 and 2 of 28 leaves and 3 of 8 leaves; every comparison of 4 left and 4 right sides in 10 surroundings, and in loop bodies in 4; loop bodies that are formulas of 2 leaves of 5; 66 documents; 41 pairs of conditions that look alike, in all formulas of both, of both and a third one, and in loop bodies, with 49 documents of their own; about 400 conditions (6 operators on a field and constants of all kinds, functions that seem to change nothing, a field and itself; 35 patterns; existence) as they are and in 6 surroundings on 84 documents with values of all kinds, 116 of them in loop bodies" + "; all AND/OR formulas of up to 6 conditions (thorough: 7), with one negated part up to 5, and with every condition in turn replaced by a constant" + seriesBound(t == "thorough")
		},
		Run: func(c *Ctx) {
			docs := c21Docs()
			leaves := c21Leaves()
			check := func(x g.Expression, docs []docText) string {
				small := g.CompactExpression(x)
				cms := []*compiled{compile(small), compile(g.CompactExpression(small)), compile(x), compile(small, x)}
				t, f := false, false
				for _, d := range docs {
					want, known, _ := meaning(x, d.v)
					if !known {
						// what the original says has to stay
						cms[2].m.Reset()
						o := cms[2].run(d.text, 1)
						if o.err {
							return fmt.Sprintf("%s on %s: %v", show(x), d.text, o)
						}
						want = o.match
						c.Note("unspecified: compared with the original only")
					}
					if want {
						t = true
					} else {
						f = true
					}
					c.State(show(x), string(d.text))
					for i, cm := range cms {
						n := 1
						if i == 3 {
							n = 2
						}
						cm.m.Reset()
						c.Trans(1)
						o := cm.run(d.text, n)
						if o.err || o.match != want || (o.each[0] == '1') != want || o.each[n-1] != o.each[0] {
							return fmt.Sprintf("%s (compacted: %s) on %s: %s gives %v, the meaning of the original is %v", show(x), show(small), d.text,
								[]string{"the compacted expression", "the twice compacted expression", "the original", "compacted together with the original"}[i], o, want)
						}
					}
				}
				c.Trace()
				if t && f {
					c.NonTrivial()
					c.Outcome("depends on the document")
				} else {
					c.Outcome("constant")
				}
				return ""
			}
			c21Series(c, check)
			c21Nary(c, check)
			c21Kinds(c, check)
			one := func(x g.Expression) {
				c.Do(func() string { return show(x) }, func() string { return check(x, docs) })
			}
			tdocs := twinDocs()
			twin := func(x g.Expression) {
				c.Do(func() string { return show(x) }, func() string { return check(x, tdocs) })
			}
			for _, t := range twins() {
				for k := 0; k < 2; k++ {
					x, y := t[k], t[1-k]
					one, z := twin, eq(fld("b"), cst(2))
					shapes([]g.Expression{x, y}, one)
					if k == 0 || c.Thorough {
						shapes([]g.Expression{x, y, z}, one)
						shapes([]g.Expression{x, z, y}, one)
						shapes([]g.Expression{x, y, x}, one)
					}
					one(or(x, x, y))
					one(or(x, y, y, x))
					one(and(x, x, y))
					one(or(g.FalseExpr{}, x, g.FalseExpr{}, y))
					one(and(g.TrueExpr{}, or(x, y), g.TrueExpr{}, or(y, x)))
					one(not(or(x, and(y, g.TrueExpr{}))))
					for _, l := range []func(g.VariableID, g.Expression, g.Expression) g.Expression{anyIn, everyIn, anyEveryIn} {
						one(l(7, fld("arr"), or(x, y)))
						one(l(7, fld("arr"), and(x, y)))
						one(or(l(7, fld("arr"), x), l(7, fld("arr"), y)))
						one(and(l(7, fld("arr"), not(x)), l(7, fld("arr"), y)))
					}
				}
			}
			n3 := 8
			if c.Thorough {
				n3 = 15
			}
			for _, a := range leaves {
				one(a)
				one(not(a))
				one(and(a))
				one(not(or(a)))
				for _, b := range leaves {
					shapes([]g.Expression{a, b}, one)
				}
			}
			for i := 0; i < n3; i++ {
				for j := 0; j < n3; j++ {
					for k := 0; k < n3; k++ {
						shapes([]g.Expression{leaves[i], leaves[j], leaves[k]}, one)
						for l := 0; c.Thorough && i < 4 && j < 4 && k < 4 && l < 4; l++ {
							shapes([]g.Expression{leaves[i], leaves[j], leaves[k], leaves[l]}, one)
						}
					}
				}
			}
			// every comparison, in every role
			for _, cmp := range cmpOps {
				cmp := cmp.mk
				for _, l := range []g.Expression{fld("a"), fld("o", "k"), fn(g.MathFuncAdd, fld("a"), cst(1)), cst(1)} {
					for _, r := range []g.Expression{cst(1), cst("x"), cst(nil), fld("b")} {
						if _, isC := l.(g.ValueExpr); isC {
							if r, isC := r.(g.ValueExpr); isC && r.Value == nil {
								continue
							}
						}
						x := cmp(l, r)
						for _, e := range []g.Expression{x, not(x), not(not(x)), not(not(not(x))), not(and(x, g.TrueExpr{})), not(or(not(x), g.FalseExpr{})), and(not(x), not(eq(fld("b"), cst(2)))), or(not(x), not(exists(fld("arr")))), not(and(not(x), g.TrueExpr{}, not(notExists(fld("o", "k"))))), not(or(x, eq(fld("b"), cst(2))))} {
							one(e)
						}
					}
				}
				for _, body := range []g.Expression{cmp(vfld(1), cst(1)), not(cmp(vfld(1), cst(1))), not(and(cmp(vfld(1), cst(1)), g.TrueExpr{})), not(not(cmp(vfld(1), cst(1)))), or(g.FalseExpr{}, cmp(vfld(1), fld("a"))), not(cmp(vfld(1), fld("a")))} {
					for _, l := range []g.Expression{anyIn(1, fld("arr"), body), everyIn(1, fld("arr"), body), anyEveryIn(1, fld("arr"), body)} {
						one(l)
						one(not(l))
						one(not(not(l)))
						one(not(and(l, not(g.FalseExpr{}))))
					}
				}
			}
			for _, like := range []g.Expression{g.LikeExpr{Lhs: fld("b"), Rhs: g.RegexExpr{Regex: "x"}}} {
				one(like)
				one(not(like))
				one(not(and(g.TrueExpr{}, like)))
			}
			// loop bodies
			inner := []g.Expression{g.TrueExpr{}, g.FalseExpr{}, eq(vfld(1), cst(1)), eq(fld("a"), cst(1)), anyIn(2, vfld(1), g.TrueExpr{})}
			for _, a := range inner {
				for _, b := range inner {
					shapes([]g.Expression{a, b}, func(body g.Expression) {
						for _, l := range []g.Expression{anyIn(1, fld("arr"), body), everyIn(1, fld("arr"), body), anyEveryIn(1, fld("arr"), body)} {
							one(l)
							one(not(l))
							one(and(g.TrueExpr{}, l))
							one(or(l, g.FalseExpr{}, eq(fld("b"), cst(1))))
						}
					})
				}
			}
		},
	})
}

// parseVal reads a text that is valid JSON.
func parseVal(text string) *Val {
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	var rec func() *Val
	rec = func() *Val {
		t, err := d.Token()
		if err != nil {
			panic(err)
		}
		switch t := t.(type) {
		case nil:
			return vNull()
		case bool:
			return vBool(t)
		case json.Number:
			return vNum(t.String())
		case string:
			return vStr(t)
		case json.Delim:
			v := vArr()
			if t == '{' {
				v = vObj()
			}
			for d.More() {
				if t == '{' {
					k, _ := d.Token()
					v.Obj = append(v.Obj, Member{k.(string), rec()})
				} else {
					v.Arr = append(v.Arr, rec())
				}
			}
			d.Token()
			return v
		}
		panic(t)
	}
	return rec()
}
