package main

import (
	"fmt"
	"strings"

	g "github.com/couchbaselabs/gojsonsm"
)

// c08Inside works on the tree itself; it is nil if the library could not be built with access to it.
var c08Inside func(c *Ctx)

func insideNote(inside bool, s string) string {
	if inside {
		return s
	}
	return "(the library has no tree or tokenizer of the known form; through the matcher only)"
}

// partial is what a formula of conditions k = 1 is worth if only some fields are known.
func partial(x g.Expression, v map[string]int) int {
	switch x := x.(type) {
	case g.TrueExpr:
		return 2
	case g.FalseExpr:
		return 3
	case g.EqualsExpr:
		return v[x.Lhs.(g.FieldExpr).Path[0]]
	case g.NotExpr:
		if s := partial(x.SubExpr, v); s != 0 {
			return 5 - s
		}
		return 0
	case g.AndExpr:
		r := 2
		for _, s := range x {
			switch partial(s, v) {
			case 3:
				return 3
			case 0:
				r = 0
			}
		}
		return r
	case g.OrExpr:
		r := 3
		for _, s := range x {
			switch partial(s, v) {
			case 2:
				return 2
			case 0:
				r = 0
			}
		}
		return r
	}
	panic("unexpected expression")
}

// c08Order matches documents with the fields in every order and every combination of values, also
// broken off after every member: as long as an expression is open that has to be an error, afterwards not.
func c08Order(c *Ctx, xs []g.Expression, keys []string) string {
	cm := compile(xs...)
	for _, ord := range allPerms(len(keys)) {
		for m := 0; m < 1<<len(keys); m++ {
			v := map[string]int{}
			text := "{"
			for n := 0; n <= len(keys); n++ {
				if n > 0 {
					k := keys[ord[n-1]]
					v[k] = 3 - m>>(n-1)&1
					if n > 1 {
						text += ","
					}
					text += fmt.Sprintf("%q:%d", k, m>>(n-1)&1)
				}
				each, any, open := "", false, false
				whole := ""
				anyWhole := false
				for _, x := range xs {
					r := partial(x, v)
					if r == 0 {
						open = true
					}
					any = any || r == 2
					each += map[bool]string{true: "1", false: "0"}[r == 2]
					all := map[string]int{}
					for _, k := range keys {
						if all[k] = v[k]; v[k] == 0 {
							all[k] = 3
						}
					}
					r = partial(x, all)
					anyWhole = anyWhole || r == 2
					whole += map[bool]string{true: "1", false: "0"}[r == 2]
				}
				c.State(text)
				c.Trans(2)
				cm.m.Reset()
				o := cm.run([]byte(text), len(xs))
				if open != o.err || !open && (o.match != any || o.each != each) {
					return fmt.Sprintf("%s on %s (broken off): %v, should be %s, error %v", showAll(xs), text, o, each, open)
				}
				cm.m.Reset()
				if o := cm.run([]byte(text+"}"), len(xs)); o.err || o.match != anyWhole || o.each != whole {
					return fmt.Sprintf("%s on %s}: %v, should be %s", showAll(xs), text, o, whole)
				}
			}
		}
	}
	c.Trace()
	c.NonTrivial()
	c.Outcome("orders of members")
	return ""
}

func allPerms(n int) (out [][]int) {
	perms(n, func(p []int) { out = append(out, append([]int(nil), p...)) })
	return
}

func c08Outside(c *Ctx) {
	keys := []string{"a", "b", "c", "d"}
	var leaves []g.Expression
	for _, k := range keys {
		leaves = append(leaves, eq(fld(k), cst(1)))
	}
	do := func(keys []string, xs ...g.Expression) {
		xs = append([]g.Expression{}, xs...)
		c.Do(func() string { return "members in all orders: " + strings.Replace(showAll(xs), "\n", " ", -1) }, func() string { return c08Order(c, xs, keys) })
	}
	for k := 1; k <= 4; k++ {
		k := k
		n := 0
		shapes(leaves[:k], func(x g.Expression) {
			n++
			if k < 4 || c.Thorough || n%4 == 0 {
				do(keys[:k], x)
			}
		})
	}
	// several expressions, with conditions of their own and with common ones
	var two, one []g.Expression
	shapes(leaves[:2], func(x g.Expression) { two = append(two, x) })
	shapes(leaves[1:3], func(x g.Expression) { two = append(two, x) })
	shapes(leaves[2:3], func(x g.Expression) { one = append(one, x) })
	shapes(leaves[:1], func(x g.Expression) { one = append(one, x) })
	one = append(one, g.TrueExpr{}, g.FalseExpr{})
	for i, x := range two {
		for j, y := range two {
			do(keys[:3], x, y)
			if c.Thorough || (i+j)%3 == 0 {
				do(keys[:3], one[(i+j/3)%len(one)], x, y)
				do(keys[:3], x, one[(i+j/3)%len(one)], y)
			}
		}
		for _, y := range one {
			do(keys[:3], x, y)
			do(keys[:3], y, x)
			for _, z := range one {
				do(keys[:3], y, x, z)
			}
		}
	}
	// a tree as the body of a loop: the elements have the fields in all orders, one after the other
	shapes(leaves[:3], func(body g.Expression) {
		c.Do(func() string {
			return "loop over elements in all orders: " + strings.Replace(show(body), "\n", " ", -1)
		}, func() string {
			inner := renameRoot(body, 1)
			var elems []string
			var want []bool
			for _, ord := range allPerms(3) {
				for m := 0; m < 27; m++ {
					v := map[string]int{"a": 3, "b": 3, "c": 3}
					s := ""
					for i, r := 0, m; i < 3; i, r = i+1, r/3 {
						if r%3 == 2 {
							continue
						}
						v[keys[ord[i]]] = 3 - r%3
						s += fmt.Sprintf(",%q:%d", keys[ord[i]], r%3)
					}
					elems = append(elems, "{"+strings.TrimPrefix(s, ",")+"}")
					want = append(want, partial(body, v) == 2)
				}
			}
			xs := []g.Expression{anyIn(1, fld("arr"), inner), everyIn(1, fld("arr"), inner), anyEveryIn(1, fld("arr"), inner), anyIn(1, fld("arr"), not(inner))}
			cm := compile(xs...)
			for i := range elems {
				for k := 0; k < len(elems); k += 1 + 16*(k%2) {
					j := (i + k) % len(elems)
					text := `{"arr":[` + elems[i] + "," + elems[j] + "]}"
					c.State(text)
					c.Trans(1)
					cm.m.Reset()
					o := cm.run([]byte(text), len(xs))
					p, q := want[i], want[j]
					each := ""
					for _, b := range []bool{p || q, p && q, p && q, !p || !q} {
						each += map[bool]string{true: "1", false: "0"}[b]
					}
					if o.err || o.each != each {
						return fmt.Sprintf("ANY, EVERY, ANY AND EVERY of the body, ANY of its negation on %s: %v, should be %s", text, o, each)
					}
				}
			}
			c.Trace()
			c.NonTrivial()
			c.Outcome("loops")
			return ""
		})
	})
}

// renameRoot puts the fields of a formula into a loop variable.
func renameRoot(x g.Expression, v g.VariableID) g.Expression {
	switch x := x.(type) {
	case g.NotExpr:
		return g.NotExpr{SubExpr: renameRoot(x.SubExpr, v)}
	case g.EqualsExpr:
		return g.EqualsExpr{Lhs: renameRoot(x.Lhs, v), Rhs: x.Rhs}
	case g.FieldExpr:
		return g.FieldExpr{Root: v, Path: x.Path}
	case g.AndExpr:
		var out g.AndExpr
		for _, s := range x {
			out = append(out, renameRoot(s, v))
		}
		return out
	case g.OrExpr:
		var out g.OrExpr
		for _, s := range x {
			out = append(out, renameRoot(s, v))
		}
		return out
	}
	return x
}

func init() {
	register(&Check{
		ID:    "C08",
		Rule:  "case = one tree; all orders in which any of its conditions can be given true or false are run on the real tree state (no merging of states), after each step every node is compared with the three-valued reference, the end of the document is resolved, the state and every subtree reset; loops run their body with all combinations before they report; or case = one formula (or several merged ones) through the matcher: documents with all combinations of values, members in all orders, whole and broken off after every member (an error exactly while a formula is open); non-trivial: all; states = distinct (tree, node states) and documents",
		Assum: []string{"results are delivered the way the matcher does it: not to nodes that are already decided, and loops with the stall index on their body"},
		Bound: func(t string) string {
			if t == "thorough" {
				return insideNote(c08Inside != nil, "all trees of AND, OR, merge nodes, NOT and loops with up to 4 leaves and 3 unary nodes, or 5 leaves and 1 unary node; all orders and values") + "; through the matcher all formulas of up to 4 conditions, pairs of all formulas of 2, triples with those of 1; all formulas of 3 as bodies of loops over two elements in all orders; one condition that decides a chain of up to 257 levels"
			}
			return insideNote(c08Inside != nil, "all trees of AND, OR, merge nodes, NOT and loops with up to 3 leaves and 3 unary nodes, or 4 leaves and 2 unary nodes; all orders and values") + "; through the matcher all formulas of up to 3 conditions and a quarter of those of 4, pairs of all formulas of 2, triples with those of 1; all formulas of 3 as bodies of loops over two elements in all orders; one condition that decides a chain of up to 257 levels"
		},
		Run: func(c *Ctx) {
			if c08Inside != nil {
				c08Inside(c)
			}
			c08Outside(c)
			doSeries(c, "deep")
		},
	})
}
