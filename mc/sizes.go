package main

import (
	"fmt"
	"strings"

	g "github.com/couchbaselabs/gojsonsm"
)

// Series: constructions that grow in one respect each, so that a limit or a reallocation anywhere is crossed.

type sized struct {
	fam  string // bool, loop, slot
	name string
	n    int
	x    g.Expression
	docs []docText
}

func seriesSizes(thorough bool) []int {
	s := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257}
	if thorough {
		s = nil
		for i := 1; i <= 70; i++ {
			s = append(s, i)
		}
		s = append(s, 99, 100, 101, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 511, 512, 513)
	}
	return s
}

// spots are the positions at which something differs.
func spots(n int) []int {
	var out []int
	for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
		if i < 0 || i >= n || len(out) > 0 && i <= out[len(out)-1] {
			continue
		}
		out = append(out, i)
	}
	return out
}

func both(vs ...*Val) (out []docText) {
	for _, v := range vs {
		out = append(out, docText{v, encode(v, layout{})}, docText{v, encode(v, layout{rev: true, ws: " "})})
	}
	return
}

func key(i int) string { return fmt.Sprintf("k%d", i) }

func keyed(n int, f func(i int) *Val) *Val {
	v := vObj()
	for i := 0; i < n; i++ {
		if x := f(i); x != nil {
			v.Obj = append(v.Obj, Member{key(i), x})
		}
	}
	return v
}

func listed(n int, f func(i int) *Val) *Val {
	v := vArr()
	for i := 0; i < n; i++ {
		v.Arr = append(v.Arr, f(i))
	}
	return v
}

func rep(s string, n int) (out []string) {
	for i := 0; i < n; i++ {
		out = append(out, s)
	}
	return
}

func wrapObj(v *Val, path ...string) *Val {
	for i := len(path) - 1; i >= 0; i-- {
		v = vObj(path[i], v)
	}
	return v
}

func series(n int, f func(s sized)) {
	add := func(fam, name string, x g.Expression, docs []docText) { f(sized{fam, name, n, x, docs}) }
	num := func(i int) *Val { return vInt(int64(i)) }
	// n fields
	var all []*Val
	all = append(all, keyed(n, num), vObj(), keyed(n, func(i int) *Val { return num(i + 1) }))
	for _, s := range spots(n) {
		s := s
		all = append(all, keyed(n, func(i int) *Val {
			if i == s {
				return num(i + 1)
			}
			return num(i)
		}), keyed(n, func(i int) *Val {
			if i == s {
				return nil
			}
			return num(i)
		}), keyed(n, func(i int) *Val {
			if i == s {
				return num(i)
			}
			return num(i + 1)
		}), keyed(n, func(i int) *Val {
			if i == s {
				return num(i)
			}
			return nil
		}))
	}
	alld := both(all...)
	var leaves, negs, same, exs, alt []g.Expression
	for i := 0; i < n; i++ {
		leaves = append(leaves, eq(fld(key(i)), cst(i)))
		negs = append(negs, not(eq(fld(key(i)), cst(i))))
		same = append(same, eq(fld(key(0)), cst(i)))
		exs = append(exs, exists(fld(key(i))))
		if i%2 == 0 {
			alt = append(alt, ne(fld(key(i)), cst(i+1)))
		} else {
			alt = append(alt, notExists(fld(key(i))))
		}
	}
	add("bool", "AND of n", and(leaves...), alld)
	add("bool", "OR of n", or(leaves...), alld)
	add("bool", "NOT OR of n", not(or(leaves...)), alld)
	add("bool", "AND of n negations", and(negs...), alld)
	add("bool", "OR of n negations", or(negs...), alld)
	add("bool", "AND of n EXISTS", and(exs...), alld)
	add("bool", "OR of n values of one field", or(same...), alld)
	add("bool", "AND of n other conditions", and(alt...), alld)
	nest := leaves[0]
	left := leaves[0]
	for i := 1; i < n; i++ {
		if i%2 == 0 {
			nest, left = and(leaves[i], nest), and(left, leaves[i])
		} else {
			nest, left = or(leaves[i], nest), or(left, negs[i])
		}
	}
	add("bool", "n nested", nest, alld)
	add("bool", "n nested on the left", left, alld)
	// conditions that decide others n levels below them
	x, z := eq(fld("x"), cst(1)), eq(fld("z"), cst(1))
	conj, disj, lconj := leaves[0], leaves[0], leaves[0]
	for i := 1; i < n; i++ {
		conj, disj, lconj = and(leaves[i], conj), or(leaves[i], disj), and(lconj, leaves[i])
	}
	var dd []*Val
	for k, v := range all {
		if k > 12 {
			break
		}
		for xz := 0; xz < 4; xz++ {
			if k > 2 && xz != k%4 {
				continue
			}
			a, b := Member{"x", num(xz & 1)}, Member{"z", num(xz >> 1)}
			dd = append(dd, &Val{K: v.K, Obj: append([]Member{a}, append(append([]Member{}, v.Obj...), b)...)}, &Val{K: v.K, Obj: append([]Member{b}, append(append([]Member{}, v.Obj...), a)...)})
		}
	}
	ddd := both(dd...)
	for i, ch := range []g.Expression{conj, disj, lconj, nest, left} {
		nm := []string{"ANDs", "ORs", "ANDs on the left", "ANDs and ORs", "ANDs and ORs on the left"}[i]
		add("deep", "n "+nm+" below OR and AND", and(or(x, ch), z), ddd)
		add("deep", "n "+nm+" below AND and OR", or(and(ch, x), z), ddd)
		add("deep", "n negated "+nm+" below AND and OR", not(or(and(x, not(ch)), not(z))), ddd)
	}
	deepNot := eq(fld("k0"), cst(0))
	for i := 0; i < n; i++ {
		deepNot = not(deepNot)
	}
	add("bool", "n NOTs", deepNot, both(all[:3]...))
	// n levels
	path := rep("a", n)
	deep := []*Val{wrapObj(num(1), path...), wrapObj(num(2), path...), wrapObj(num(1), path[1:]...), wrapObj(num(1), append(path[1:n:n], "a", "a")...), wrapObj(vObj("b", num(0), "a", num(1)), path[1:]...),
		wrapObj(vObj("a", num(1), "b", num(0)), path[1:]...), wrapObj(vObj("b", wrapObj(num(1), path...), "a", num(2)), path[1:]...)}
	for _, d := range deep[:2:2] {
		deep = append(deep, vObj("z", d, "k0", num(0), "a", d.Obj[0].Val), vObj("a", d.Obj[0].Val, "z", listed(3, func(int) *Val { return d }), "k0", num(0)))
	}
	deepd := both(deep...)
	add("bool", "path of n", eq(fld(path...), cst(1)), deepd)
	add("bool", "path of n and another", or(not(exists(fld(path...))), and(eq(fld(path...), cst(1)), eq(fld("k0"), cst(0)))), deepd)
	add("bool", "paths of n and n-1", and(exists(fld(path...)), ne(fld(append([]string{}, path[:n-1]...)...), cst(5))), deepd)
	nested := func(v *Val) *Val {
		for i := 0; i < n; i++ {
			v = vArr(v)
		}
		return vObj("a", v)
	}
	idx := append([]string{"a"}, rep("[0]", n)...)
	add("bool", "n indexes", eq(fld(idx...), cst(1)), both(nested(num(1)), nested(num(2)), nested(vArr(num(1))), vObj("a", num(1))))
	// n elements
	arr := func(m int) *Val { return listed(m, num) }
	arrs := both(vObj("a", arr(n)), vObj("a", arr(n+1)), vObj("a", arr(n+2), "b", num(1)), vObj("b", arr(n+2), "a", vArr()), vObj("a", listed(n+1, func(i int) *Val { return vArr(num(i), arr(3)) })))
	add("bool", "index n", eq(fld("a", fmt.Sprintf("[%d]", n)), cst(n)), arrs)
	add("bool", "index n and n-1", and(eq(fld("a", fmt.Sprintf("[%d]", n)), cst(n)), eq(fld("a", fmt.Sprintf("[%d]", n-1)), cst(n-1))), arrs)
	add("bool", "index n, element 0", eq(fld("a", fmt.Sprintf("[%d]", n), "[0]"), cst(n)), arrs)
	// long names and texts
	for _, c := range []string{"x", "é", "\"", "\U0001F600", "\n"} {
		t := strings.Repeat(c, n)
		o := []string{t, t + c, t[:len(t)-len(c)], t + "x", "x" + t, t[:len(t)-len(c)] + "y"}
		var names, texts []*Val
		for _, s := range o {
			names = append(names, vObj(s, num(1)), vObj("o", vObj(s, num(1), "b", num(2))))
			texts = append(texts, vObj("s", vStr(s)), vObj("s", vStr(s), "t", vStr(t)))
		}
		for _, p := range [][2]string{{"bb", "c"}, {"b", "ab"}, {"c", ""}, {"", "b"}} {
			texts = append(texts, vObj("s", vStr(t+p[0]), "t", vStr(t+p[1])))
		}
		nd, td := both(names...), both(texts...)
		for _, m := range []int{escUni, escMixed} {
			for _, v := range names {
				nd = append(nd, docText{v, encode(v, layout{keyEsc: m, strEsc: m})})
			}
			for _, v := range texts {
				td = append(td, docText{v, encode(v, layout{keyEsc: m, strEsc: m})})
			}
		}
		add("bool", "name of n", or(eq(fld(t), cst(1)), eq(fld("o", t), cst(1))), nd)
		add("bool", "text of n", eq(fld("s"), cst(t)), td)
		add("bool", "order of texts of n", lt(fld("s"), cst(t)), td)
		add("text", "order of texts of n and more", or(lt(fld("s"), cst(t+"b")), gt(fld("s"), cst(t+"bbb"))), td)
		add("text", "order of fields with texts of n", lt(fld("s"), fld("t")), td)
		add("slot", "fields with texts of n", or(gt(fld("s"), fld("t")), eq(fld("t"), fld("s"))), td)
	}
	// loops over n elements
	var ld []*Val
	ones := func(at int, other *Val) *Val {
		return listed(n, func(i int) *Val {
			if i == at {
				return other
			}
			return num(1)
		})
	}
	ld = append(ld, vObj("arr", ones(-1, nil)), vObj("b", num(1)), vObj("arr", vObj("k", ones(-1, nil))))
	for _, s := range spots(n) {
		ld = append(ld, vObj("arr", ones(s, num(2)), "b", num(1)), vObj("b", num(2), "arr", ones(s, vObj("k", num(1)))), vObj("arr", ones(s, vArr(num(1), num(2)))), vObj("arr", ones(s, vObj("k", arr(n))), "b", num(1)))
	}
	ldd := both(ld...)
	one := eq(vfld(1), cst(1))
	for i, l := range []func(g.VariableID, g.Expression, g.Expression) g.Expression{anyIn, everyIn, anyEveryIn} {
		nm := []string{"ANY", "EVERY", "ANY AND EVERY"}[i]
		add("loop", nm+" over n", l(1, fld("arr"), one), ldd)
		add("loop", nm+" over n, negated", l(1, fld("arr"), not(one)), ldd)
		add("loop", nm+" over n, of two", and(l(1, fld("arr"), or(one, exists(vfld(1, "k")))), eq(fld("b"), cst(1))), ldd)
		add("loop", nm+" over n and a field", l(1, fld("arr"), eq(vfld(1), fld("b"))), ldd)
		var loops []g.Expression
		for k := 0; k < n; k++ {
			loops = append(loops, l(g.VariableID(k+1), fld("arr"), eq(vfld(g.VariableID(k+1)), cst(k%3))))
		}
		if n <= 40 {
			sd := both(vObj("arr", arr(n)), vObj("arr", arr(3)), vObj("arr", vArr(num(0))), vObj("arr", vArr()), vObj("b", num(1)))
			add("loop", "n times "+nm+", AND", and(loops...), sd)
			add("loop", "n times "+nm+", OR", or(loops...), sd)
		}
		if n <= 20 {
			body := eq(vfld(g.VariableID(n)), cst(1))
			outer := eq(vfld(g.VariableID(n)), fld("b"))
			for k := n; k >= 1; k-- {
				in := fld("arr")
				if k > 1 {
					in = vfld(g.VariableID(k - 1))
				}
				body, outer = l(g.VariableID(k), in, body), l(g.VariableID(k), in, outer)
			}
			wrap := func(v *Val, extra ...*Val) *Val {
				for k := 0; k < n-1; k++ {
					v = vArr(append(append([]*Val{}, extra...), v)...)
				}
				return vObj("arr", vArr(v), "b", num(1))
			}
			dd := both(wrap(num(1)), wrap(num(2)), wrap(vArr(num(1))), wrap(num(1), vArr()), wrap(num(1), num(3)), wrap(vArr(), vArr(vArr(num(1)))))
			add("loop", nm+" nested n times", body, dd)
			add("loop", nm+" nested n times, with a field", outer, dd)
		}
	}
	// n loops over n arrays, over elements with n members
	objs := func(at int) *Val {
		return vObj("arr", listed(3, func(e int) *Val {
			return keyed(n, func(i int) *Val {
				if i == at && e == 1 {
					return num(-1)
				}
				return num(i)
			})
		}))
	}
	var od []*Val
	od = append(od, objs(-1))
	for _, s := range spots(n) {
		od = append(od, objs(s))
	}
	var in []g.Expression
	for i := 0; i < n; i++ {
		in = append(in, eq(vfld(1, key(i)), cst(i)))
	}
	add("loop", "body of n, EVERY", everyIn(1, fld("arr"), and(in...)), both(od...))
	add("loop", "body of n, ANY", anyIn(1, fld("arr"), not(and(in...))), both(od...))
	// conditions over two fields: n of them, n members apart, n operands
	var pairs []g.Expression
	var sum g.Expression = fld(key(0))
	for i := 0; i < n; i++ {
		pairs = append(pairs, eq(fld(key(i)), fld(key((i+1)%n))))
		if i > 0 {
			sum = fn(g.MathFuncAdd, sum, fld(key(i)))
		}
	}
	eqs := []*Val{keyed(n, func(int) *Val { return num(7) }), keyed(n, num), vObj()}
	for _, s := range spots(n) {
		s := s
		eqs = append(eqs, keyed(n, func(i int) *Val {
			if i == s {
				return num(8)
			}
			return num(7)
		}), keyed(n, func(i int) *Val {
			if i == s {
				return nil
			}
			return num(7)
		}))
	}
	add("slot", "n conditions on two fields, AND", and(pairs...), both(eqs...))
	add("slot", "n conditions on two fields, OR", or(pairs...), both(eqs...))
	add("slot", "n conditions on two fields, negated", not(or(pairs...)), both(eqs...))
	add("slot", "sum of n fields", eq(sum, cst(7*n)), both(eqs...))
	add("slot", "sum of n fields greater", gt(sum, cst(7*n)), both(eqs...))
	apart := func(a, b *Val) *Val {
		v := vObj("x", a)
		v.Obj = append(v.Obj, keyed(n, num).Obj...)
		v.Obj = append(v.Obj, Member{"y", b})
		return v
	}
	add("slot", "two fields n members apart", eq(fld("x"), fld("y")), both(apart(num(1), num(1)), apart(num(1), num(2)), apart(arr(n), arr(n)), apart(vStr(strings.Repeat("x", n)), vStr(strings.Repeat("x", n))), apart(vNull(), vNull()), apart(vObj("y", num(1)), num(1))))
	add("slot", "two fields n levels deep", eq(fld(append([]string{"z"}, path...)...), fld(path...)), both(vObj("z", deep[0], "a", deep[0].Obj[0].Val), vObj("a", deep[1].Obj[0].Val, "z", deep[0]), vObj("z", deep[1])))
	var lx []g.Expression
	for i := 0; i < n; i++ {
		lx = append(lx, eq(vfld(1, key(i)), fld(key(i))))
	}
	lv := func(at int) *Val {
		v := keyed(n, num)
		v.Obj = append(v.Obj, Member{"arr", objs(at).Obj[0].Val})
		return v
	}
	add("slot", "body of n conditions on two fields", everyIn(1, fld("arr"), and(lx...)), both(lv(-1), lv(0), lv(n-1), objs(-1)))
}

func doSeries(c *Ctx, fam string) {
	for _, n := range seriesSizes(c.Thorough) {
		series(n, func(s sized) {
			if s.fam == fam {
				c.Do(func() string { return fmt.Sprintf("series %s, n = %d", s.name, s.n) }, func() string { return runDocs(c, s.x, s.docs) })
			}
		})
	}
}
