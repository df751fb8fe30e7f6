package main

import (
	"fmt"

	g "github.com/couchbaselabs/gojsonsm"
)

// c22Arrays: loops over all small arrays, with equal elements at all places.
func c22Arrays(c *Ctx) {
	n := 4
	if c.Thorough {
		n = 5
	}
	f, v := fld, vfld
	obj := func(k, s string) *Val { return vObj("k", vNum(k), "s", vStr(s)) }
	type kind struct {
		name  string
		vals  []*Val
		b     *Val
		exprs []g.Expression
	}
	var kinds []kind
	cmps := func(k interface{}) (out []g.Expression) {
		for _, op := range cmpOps {
			out = append(out, anyIn(1, f("arr"), op.mk(v(1), cst(k))), anyIn(1, f("arr"), op.mk(cst(k), v(1))), anyIn(1, f("arr"), op.mk(v(1), f("b"))))
		}
		x := cst(k)
		out = append(out, anyIn(1, f("arr"), and(ge(v(1), x), ne(v(1), f("b")))), anyIn(1, f("arr"), or(eq(v(1), x), eq(f("b"), x))),
			and(anyIn(1, f("arr"), eq(v(1), x)), anyIn(1, f("arr"), ne(v(1), x))), or(anyIn(1, f("arr"), lt(v(1), x)), anyIn(2, f("arr"), gt(v(2), x))),
			anyIn(1, f("arr"), anyIn(2, f("arr"), lt(v(1), v(2)))), anyIn(1, f("arr"), and(eq(v(1), x), anyIn(2, f("arr"), gt(v(2), v(1))))), anyIn(1, f("arr"), or(anyIn(2, f("arr"), and(gt(v(2), v(1)), gt(v(2), f("b")))), gt(v(1), x))))
		return
	}
	kinds = append(kinds,
		kind{"strings", []*Val{vStr("a"), vStr("b"), vStr("")}, vStr("a"), cmps("a")},
		kind{"strings, the last one", []*Val{vStr("x"), vStr("X"), vStr("xx")}, vStr("xx"), cmps("xx")},
		kind{"numbers", []*Val{vNum("1"), vNum("2"), vNum("1.5")}, vNum("2"), cmps(2.0)},
		kind{"numbers around zero", []*Val{vNum("0"), vNum("-1"), vNum("1e1")}, vNum("0"), cmps(-1.0)},
		kind{"booleans", []*Val{vBool(true), vBool(false)}, vBool(false), cmps(true)},
		kind{"booleans, the other way", []*Val{vBool(true), vBool(false)}, vBool(true), cmps(false)},
	)
	body := []g.Expression{}
	for _, op := range cmpOps {
		body = append(body, op.mk(v(1, "k"), cst(2.0)), op.mk(v(1, "s"), f("b")))
	}
	body = append(body, and(eq(v(1, "k"), cst(2.0)), eq(v(1, "s"), cst("x"))), or(eq(v(1, "k"), cst(3.0)), eq(v(1, "s"), cst("y"))), and(eq(v(1, "s"), f("b")), or(eq(v(1, "k"), cst(1.0)), gt(v(1, "k"), cst(2.0)))))
	var os []g.Expression
	for _, x := range body {
		os = append(os, anyIn(1, f("arr"), x))
	}
	os = append(os, anyIn(1, f("arr"), anyIn(2, f("arr"), and(lt(v(1, "k"), v(2, "k")), eq(v(1, "s"), v(2, "s"))))), and(os[0], os[3]), or(os[1], os[2]))
	kinds = append(kinds, kind{"objects", []*Val{obj("1", "x"), obj("2", "x"), obj("2", "y"), obj("1", "y")}, vStr("x"), os})
	var ns []g.Expression
	for _, op := range cmpOps {
		ns = append(ns, anyIn(1, f("arr"), anyIn(2, v(1), op.mk(v(2), cst(2.0)))), anyIn(1, f("arr"), anyIn(2, v(1), op.mk(v(2), f("b")))))
	}
	ns = append(ns, anyIn(1, f("arr"), and(anyIn(2, v(1), eq(v(2), cst(1.0))), anyIn(2, v(1), eq(v(2), cst(2.0))))), anyIn(1, f("arr"), or(anyIn(2, v(1), lt(v(2), cst(1.0))), anyIn(3, v(1), gt(v(3), f("b"))))), anyIn(1, f("arr"), anyIn(2, v(1), anyIn(3, f("arr"), anyIn(4, v(3), lt(v(2), v(4)))))))
	kinds = append(kinds, kind{"arrays", []*Val{vArr(), vArr(vNum("1")), vArr(vNum("2")), vArr(vNum("2"), vNum("1")), vArr(vNum("1"), vNum("1"))}, vNum("1"), ns})
	nulls := []g.Expression{}
	for _, o := range []int{0, 1} {
		nulls = append(nulls, anyIn(1, f("arr"), cmpOps[o].mk(v(1), cst(nil))), anyIn(1, f("arr"), cmpOps[o].mk(v(1), f("b"))))
	}
	nulls = append(nulls, anyIn(1, f("arr"), or(eq(v(1), cst(nil)), eq(f("b"), cst(nil)))))
	kinds = append(kinds, kind{"nulls", []*Val{vNull()}, vNull(), nulls})
	for _, k := range kinds {
		k := k
		m := n
		if len(k.vals) > 3 {
			m = n - 1
		}
		var docs [][]byte
		seqs(k.vals, m, func(l []*Val) {
			lay := layout{}
			if len(docs)%3 == 1 {
				lay = layout{ws: "\n ", strEsc: escUni, rev: true}
			}
			docs = append(docs, encode(vObj("arr", vArr(l...), "b", k.b), lay))
		})
		for i, x := range k.exprs {
			x := x
			c.Do(func() string { return fmt.Sprintf("arrays of %s, %d: %s", k.name, i, show(x)) }, func() string {
				c.Trace()
				c.Outcome("small arrays")
				c.NonTrivial()
				for _, d := range docs {
					c.State(show(x), string(d))
				}
				if m := agree(c, []g.Expression{x}, docs, true); m != "" {
					return m
				}
				if m := agree(c, []g.Expression{x, k.exprs[(i+1)%len(k.exprs)]}, docs, false); m != "" {
					return m
				}
				return agree(c, []g.Expression{k.exprs[(i+2)%len(k.exprs)], or(x, k.exprs[(i+3)%len(k.exprs)])}, docs, false)
			})
		}
	}
}
