package main

import (
	"math"

	g "github.com/couchbaselabs/gojsonsm"
)

type spArg struct {
	t string
	x g.Expression
}

// spArgs are arguments of functions with at most depth functions around each other.
func spArgs(depth int, thin int) []spArg {
	f := fld
	out := []spArg{{"a", f("a")}, {"o.k", f("o", "k")}, {"`b.c`", f("b.c")}, {"arr[0]", f("arr", "[0]")}, {"2", cst(2)}, {"-1.5", cst(-1.5)}, {"0", cst(0)}, {"PI()", cst(math.Pi)}, {"`x y`", f("x y")}, {"E()", cst(math.E)}}
	if depth == 0 {
		return out
	}
	sub := spArgs(depth-1, thin)
	for i, s := range sub {
		if depth > 1 && i%thin != 0 {
			continue
		}
		out = append(out, spArg{"ABS(" + s.t + ")", fn(g.MathFuncAbs, s.x)})
		for j, t := range sub {
			if depth > 1 && j%thin != 0 || (i+j)%3 == 1 {
				continue
			}
			out = append(out, spArg{"POW(" + s.t + "," + t.t + ")", fn(g.MathFuncPow, s.x, t.x)})
			if (i+j)%3 == 0 {
				out = append(out, spArg{"ATAN2(" + s.t + "," + t.t + ")", fn(g.MathFuncAtan2, s.x, t.x)})
			}
		}
	}
	return out
}

// c17Forms are functions with arguments of all kinds, inside each other, on both sides.
func c17Forms(c *Ctx, cond func(spCond, []docText)) {
	var docs []docText
	for i, d := range c15RoleDocs() {
		v := &Val{K: d.K, Obj: append([]Member{}, d.Obj...)}
		if v.K == KObj {
			v.Obj = append(v.Obj, Member{"b.c", vNum([]string{"2", "-1.5", "0.5"}[i%3])})
		}
		docs = append(docs, docText{v, encode(v, layout{ws: []string{"", " "}[i%2]})})
	}
	ops := []struct {
		t  string
		mk func(l, r g.Expression) g.Expression
	}{{"==", eq}, {"=", eq}, {"!=", ne}, {"<", lt}, {"<=", le}, {">", gt}, {">=", ge}}
	small := spArgs(1, 1)
	args := spArgs(2, 13)
	if c.Thorough {
		args = spArgs(2, 4)
	}
	n := 0
	hasField := func(t string) bool {
		for _, s := range []string{"(a", ",a", "o.k", "`", "arr"} {
			for i := 0; i+len(s) <= len(t); i++ {
				if t[i:i+len(s)] == s {
					return true
				}
			}
		}
		return false
	}
	add := func(l, r spArg) {
		o := ops[n%len(ops)]
		n++
		cond(spCond{[]string{l.t, o.t, r.t}, o.mk(l.x, r.x)}, docs)
	}
	for _, x := range args {
		if x.t[len(x.t)-1] != ')' {
			continue
		}
		l, r := x, spArg{"1", cst(1)}
		if !hasField(x.t) && x.t != "PI()" && x.t != "E()" {
			// constants belong to the right side
			l, r = spArg{"a", fld("a")}, x
		}
		add(l, r)
		add(spArg{"o.k", fld("o", "k")}, x)
	}
	// all arguments of two functions, and of one around another
	for _, x := range small {
		for _, y := range small {
			for k, t := range []spArg{{"POW(" + x.t + "," + y.t + ")", fn(g.MathFuncPow, x.x, y.x)}, {"ABS(POW(" + x.t + "," + y.t + "))", fn(g.MathFuncAbs, fn(g.MathFuncPow, x.x, y.x))}, {"POW(POW(" + x.t + ",a)," + y.t + ")", fn(g.MathFuncPow, fn(g.MathFuncPow, x.x, fld("a")), y.x)}, {"POW(" + x.t + ",POW(2," + y.t + "))", fn(g.MathFuncPow, x.x, fn(g.MathFuncPow, cst(2), y.x))}} {
				if k > 1 && n%3 != 0 && !c.Thorough {
					n++
					continue
				}
				if n%2 == 0 && hasField(t.t) {
					add(t, spArg{"1", cst(1)})
				} else {
					add(spArg{"a", fld("a")}, t)
				}
			}
		}
	}
}
