package main

import (
	"fmt"
	"math"

	g "github.com/couchbaselabs/gojsonsm"
)

// fePath is a path with the spelling it has in a text.
type fePath struct {
	toks  []string
	parts []fePart
}

type fePart struct {
	name string
	idx  []int
}

func (p fePath) expr() g.Expression {
	var path []string
	for _, x := range p.parts {
		path = append(path, x.name)
		for _, i := range x.idx {
			path = append(path, fmt.Sprintf("[%d]", i))
		}
	}
	return g.FieldExpr{Path: path}
}

// doc is a document that has v at the path; everything around it differs from v.
func (p fePath) doc(v *Val) *Val {
	for k := len(p.parts) - 1; k >= 0; k-- {
		for j := len(p.parts[k].idx) - 1; j >= 0; j-- {
			n := p.parts[k].idx[j]
			arr := vArr()
			for i := 0; i < n; i++ {
				arr.Arr = append(arr.Arr, vNum("0"))
			}
			arr.Arr = append(arr.Arr, v)
			if (j+k)%2 == 0 {
				arr.Arr = append(arr.Arr, vNum("0"))
			}
			v = arr
		}
		if k%2 == 0 {
			v = vObj("y", vNum("0"), p.parts[k].name, v)
		} else {
			v = vObj(p.parts[k].name, v, "y", vNum("0"))
		}
	}
	return v
}

// near are the paths that come about when a part or an index is left out, doubled, or another one.
func (p fePath) near() []fePath {
	var out []fePath
	cp := func() fePath {
		q := fePath{}
		for _, x := range p.parts {
			q.parts = append(q.parts, fePart{x.name, append([]int{}, x.idx...)})
		}
		return q
	}
	for k, x := range p.parts {
		if len(p.parts) > 1 {
			q := cp()
			q.parts = append(q.parts[:k], q.parts[k+1:]...)
			out = append(out, q)
		}
		q := cp()
		q.parts[k].name += "x"
		out = append(out, q)
		for j := range x.idx {
			q := cp()
			q.parts[k].idx = append(q.parts[k].idx[:j], q.parts[k].idx[j+1:]...)
			out = append(out, q)
			q = cp()
			q.parts[k].idx[j]++
			out = append(out, q)
			if j > 0 && x.idx[j] != x.idx[j-1] {
				q = cp()
				q.parts[k].idx[j], q.parts[k].idx[j-1] = x.idx[j-1], x.idx[j]
				out = append(out, q)
			}
		}
		q = cp()
		q.parts[k].idx = append(q.parts[k].idx, 0)
		out = append(out, q)
	}
	return out
}

// fePaths calls f with every path of up to n parts, each of them in every spelling and with up to maxIdx indexes.
func fePaths(n, maxIdx int, f func(p fePath)) {
	digits := [][]int{{1, 0, 2}, {2, 1, 0}, {0, 12, 1}}
	var rec func(p fePath, k int)
	rec = func(p fePath, k int) {
		if k > 0 {
			f(p)
		}
		if k == n {
			return
		}
		spell := []struct {
			name string
			toks []string
		}{
			{string(rune('a' + k)), []string{string(rune('a' + k))}},
			{[]string{"x y", "p.q", "AND"}[k%3], []string{"`" + []string{"x y", "p.q", "AND"}[k%3] + "`"}},
			{string(rune('e' + k)), []string{"'" + string(rune('e'+k)) + "'"}},
		}
		if k == 0 {
			spell = append(spell, struct {
				name string
				toks []string
			}{"META()", []string{"META", "(", ")"}})
		}
		for _, s := range spell {
			for m := 0; m <= maxIdx; m++ {
				q := fePath{append([]string{}, p.toks...), append([]fePart{}, p.parts...)}
				if k > 0 {
					q.toks = append(q.toks, ".")
				}
				q.toks = append(q.toks, s.toks...)
				part := fePart{name: s.name}
				for j := 0; j < m; j++ {
					part.idx = append(part.idx, digits[k%3][j])
					q.toks = append(q.toks, "[", fmt.Sprint(digits[k%3][j]), "]")
				}
				q.parts = append(q.parts, part)
				rec(q, k+1)
			}
		}
	}
	rec(fePath{}, 0)
}

// feArgs are arguments of functions; depth 0 are simple ones.
func feArgs(depth int) []feText {
	f := fld
	cat := func(t ...[]string) []string {
		var o []string
		for _, x := range t {
			o = append(o, x...)
		}
		return o
	}
	out := []feText{
		feT(f("a"), "a"), feT(f("o", "k"), "o", ".", "k"), feT(f("x y"), "`x y`"), feT(f("arr", "[0]"), "arr", "[", "0", "]"), feT(f("META()", "id"), "META", "(", ")", ".", "id"),
		feT(cst(2), "2"), feT(cst(-1.5), "-", "1.5"), feT(cst(0), "0"), feT(cst(0.5), ".5"), feT(cst(math.Pi), "PI", "(", ")"), feT(cst(math.E), "E", "(", ")"),
		feT(fn(g.MathFuncNeg, f("a")), "-", "a"), feT(fn(g.MathFuncAdd, f("a"), cst(1)), "a", "+", "1"), feT(fn(g.MathFuncMul, f("b"), f("a")), "b", "*", "a"), feT(fn(g.MathFuncSub, cst(2), f("b")), "2", "-", "b"),
	}
	if depth == 0 {
		return out
	}
	sub := feArgs(depth - 1)
	if depth > 1 {
		sub = sub[:0]
		all := feArgs(depth - 1)
		for i := 0; i < len(all); i += 5 {
			sub = append(sub, all[i])
		}
	}
	for i, s := range sub {
		out = append(out, feText{cat([]string{"ABS", "("}, s.toks, []string{")"}), fn(g.MathFuncAbs, s.x)}, feText{cat([]string{"-", "FLOOR", "("}, s.toks, []string{")"}), fn(g.MathFuncNeg, fn(g.MathFuncFloor, s.x))})
		t := sub[(i*3+1)%len(sub)]
		out = append(out, feText{cat([]string{"POW", "("}, s.toks, []string{","}, t.toks, []string{")"}), fn(g.MathFuncPow, s.x, t.x)})
		out = append(out, feText{cat([]string{"ATAN2", "("}, t.toks, []string{","}, s.toks, []string{")"}), fn(g.MathFuncAtan2, t.x, s.x)})
	}
	return out
}

// c15Forms are the paths and the functions in all forms.
func c15Forms(c *Ctx, one func(t feText, mode int, docs []docText)) {
	n, idx := 3, 2
	if c.Thorough {
		idx = 3
	}
	i := 0
	fePaths(n, idx, func(p fePath) {
		vals := []*Val{vNum("5"), vStr("x"), vNull()}
		var docs []docText
		add := func(v *Val, l layout) { docs = append(docs, docText{v, encode(v, l)}) }
		for _, v := range vals {
			add(p.doc(v), layout{})
		}
		add(p.doc(vNum("5")), layout{rev: true, ws: " "})
		for _, q := range p.near() {
			add(q.doc(vNum("5")), layout{})
		}
		i++
		x := p.expr()
		w := func(t ...string) []string { return append(append([]string{}, p.toks...), t...) }
		one(feText{w("=", "5"), eq(x, cst(5))}, i%4, docs)
		one(feText{append([]string{"EXISTS", "("}, w(")")...), exists(x)}, (i+1)%4, docs)
		if i%3 == 0 || c.Thorough {
			one(feText{append([]string{"5", ">="}, w()...), ge(cst(5), x)}, (i+2)%4, docs)
			one(feText{append([]string{"-"}, w("<", "0")...), lt(fn(g.MathFuncNeg, x), cst(0))}, (i+3)%4, docs)
			one(feText{w("IS", "NULL"), eq(x, cst(nil))}, i%4, docs)
			one(feText{w("IS", "NOT", "MISSING"), exists(x)}, (i+1)%4, docs)
			one(feText{append([]string{"REGEXP_CONTAINS", "("}, w(",", `"^x"`, ")")...), g.LikeExpr{Lhs: x, Rhs: g.RegexExpr{Regex: "^x"}}}, (i+2)%4, docs)
		}
	})
	var docs []docText
	for i, d := range c15RoleDocs() {
		docs = append(docs, docText{d, encode(d, []layout{{}, {rev: true, ws: " "}, {strEsc: escUni}}[i%3])})
	}
	call := func(name, sym string, a ...feText) feText {
		toks := []string{name, "("}
		var xs []g.Expression
		for i, x := range a {
			if i > 0 {
				toks = append(toks, ",")
			}
			toks = append(toks, x.toks...)
			xs = append(xs, x.x)
		}
		return feText{append(toks, ")"), fn(sym, xs...)}
	}
	args := feArgs(1)
	if c.Thorough {
		args = feArgs(2)
	}
	for i, x := range args {
		for j, y := range args {
			if i > 14 && j > 14 && (i+j)%3 != 0 && !c.Thorough || i > 80 && j > 80 && (i+j)%7 != 0 {
				continue
			}
			for k, t := range []feText{call("POW", g.MathFuncPow, x, y), call("ATAN2", g.MathFuncAtan2, x, y), call("ABS", g.MathFuncAbs, call("POW", g.MathFuncPow, y, x))} {
				if k > 0 && (i+j+k)%3 != 0 {
					continue
				}
				op := feOps[(i*7+j+k)%8]
				one(feText{append(append(append([]string{}, t.toks...), op.toks...), feT(cst(1), "1").toks...), op.mk(t.x, cst(1))}, (i+j)%4, docs)
				one(feText{append(append(append([]string{}, "b"), op.toks...), t.toks...), op.mk(fld("b"), t.x)}, (i+j+1)%4, docs)
			}
		}
	}
}
