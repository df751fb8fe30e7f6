package main

import (
	"fmt"
	"strings"

	g "github.com/couchbaselabs/gojsonsm"
)

// ---------------------------------------------------------------- large documents

// largeSizes are around the limits of one and two bytes and of usual buffers.
func largeSizes(thorough bool) []int {
	s := []int{200, 255, 256, 257, 300, 1000, 1024, 4096, 4097, 65535, 65536, 65537}
	if thorough {
		s = append(s, 254, 258, 511, 512, 513, 1023, 1025, 2047, 2048, 4095, 8192, 10000, 16384, 32767, 32768, 32769, 70000, 100000, 131072, 1<<20)
	}
	return s
}

func largeBound(thorough bool) string {
	s := largeSizes(thorough)
	max := 0
	for _, n := range s {
		if n > max {
			max = n
		}
	}
	return fmt.Sprintf("; documents that are large in one respect (bytes, members, elements, levels, characters), %d sizes up to %d", len(s), max)
}

// large is like series, but everything in it grows with n only.
func large(n int, f func(s sized)) {
	add := func(fam, name string, x g.Expression, docs []docText) { f(sized{fam, name, n, x, docs}) }
	num := func(i int) *Val { return vInt(int64(i)) }
	arr := func(m int) *Val { return listed(m, num) }
	one := func(v *Val) docText { return docText{v, encode(v, layout{})} }
	low := n % 256
	at := func(i int) string { return fmt.Sprintf("[%d]", i) }
	// elements
	elems := []docText{one(vObj("a", arr(n+1))), one(vObj("a", arr(n))), one(vObj("a", listed(n+1, func(i int) *Val { return num(i + 1) }))), one(vObj("b", num(1), "a", arr(n+2))), one(vObj("a", vArr()))}
	add("bool", "index n", eq(fld("a", at(n)), cst(n)), elems)
	add("bool", "index n exists", exists(fld("a", at(n))), elems)
	add("bool", "index n and low ones", and(eq(fld("a", at(n)), cst(n)), eq(fld("a", at(low)), cst(low)), not(eq(fld("a", at(0)), cst(1)))), elems)
	add("slot", "index n and low one", lt(fld("a", at(low)), fld("a", at(n))), elems)
	// members
	mem := func(v *Val, m int, more ...Member) *Val {
		for i := 0; i < m; i++ {
			v.Obj = append(v.Obj, Member{key(i), num(i)})
		}
		v.Obj = append(v.Obj, more...)
		return v
	}
	mems := []docText{one(mem(vObj(), n)), one(mem(vObj(), n-1)), one(mem(vObj("z", num(1)), n, Member{"y", num(1)})), one(mem(vObj("z", num(2)), n-1, Member{"y", num(1)})), one(vObj("o", mem(vObj(), n), "y", num(1), "z", num(1)))}
	add("bool", "member n", eq(fld(key(n-1)), cst(n-1)), mems)
	add("bool", "members n", and(exists(fld("z")), exists(fld("y")), or(exists(fld("o")), not(eq(fld(key(0)), cst(1))))), mems)
	add("slot", "n members apart", eq(fld("z"), fld("y")), mems)
	// levels
	path := rep("a", n)
	levels := []docText{one(wrapObj(num(1), path...)), one(wrapObj(num(2), path...)), one(wrapObj(num(1), path[1:]...)), one(vObj("b", wrapObj(num(1), path...), "a", num(1))), one(wrapObj(vArr(num(1)), path[1:]...))}
	if n <= 5000 {
		add("bool", "path of n", eq(fld(path...), cst(1)), levels)
		add("slot", "path of n and top", eq(fld(path...), fld("b")), append(levels, one(vObj("b", num(1), "a", wrapObj(num(1), path[1:]...)))))
	}
	r := strings.Repeat
	// something large that is of no interest, at every place
	v := func(x, y int, k ...*Val) *Val {
		return vObj("a", num(x), "b", num(y), "l", vArr(append([]*Val{vObj("k", num(0))}, k...)...), "s", vStr("é"))
	}
	vals := []*Val{v(1, 1, vObj("k", num(1))), v(1, 2, vObj("k", num(2)), num(1)), v(2, 1), v(2, 2, vObj("j", num(1)), vObj("k", num(1), "m", vArr(num(2))))}
	pads := []string{`"` + r("x", n) + `"`, r("[", n) + r("]", n), r(`{"a":`, n) + "2" + r("}", n), "[" + r("2,", n) + "0]", `"` + r(`\"`, n) + `"`, "{" + r(`"a":2,`, n) + `"b":0}`, r("9", n), r(`[{"k":`, n/2) + "1" + r("}]", n/2)}
	var docs []docText
	for vi, x := range vals {
		for pi, p := range pads {
			t := string(encode(x, layout{}))
			var places []int
			for i := 0; i < len(t); i++ {
				// before a member
				if t[i] == '"' && (t[i-1] == '{' || t[i-1] == ',') {
					places = append(places, i)
				}
			}
			for qi, q := range places {
				if n > 5000 && (qi+pi)%len(vals) != vi {
					continue
				}
				docs = append(docs, docText{x, []byte(t[:q] + `"pad":` + p + "," + t[q:])})
			}
			docs = append(docs, docText{x, []byte(r(" ", n) + t)})
		}
	}
	add("bool", "apart", and(eq(fld("a"), cst(1)), or(eq(fld("b"), cst(1)), eq(fld("l", "[1]"), cst(1)), eq(fld("l", "[2]"), cst(1))), eq(fld("s"), cst("é"))), docs)
	add("slot", "apart", eq(fld("a"), fld("b")), docs)
	add("slot", "apart, element", or(lt(fld("a"), fld("l", "[1]", "k")), gt(fld("l", "[0]", "k"), fld("b"))), docs)
	add("slot", "apart, text", or(gt(fld("s"), fld("b")), eq(fld("b"), fld("l", "[1]", "k"))), docs)
	add("loop", "apart", and(anyIn(1, fld("l"), eq(vfld(1, "k"), cst(1))), eq(fld("s"), cst("é"))), docs)
	add("loop", "apart, with a field", anyIn(1, fld("l"), eq(vfld(1, "k"), fld("b"))), docs)
	add("loop", "apart, every", everyIn(1, fld("l"), or(exists(vfld(1, "k")), not(eq(vfld(1), cst(1))))), docs)
	add("loop", "apart, nested", anyIn(1, fld("l"), anyEveryIn(2, vfld(1, "m"), ne(vfld(2), fld("a")))), docs)
	// n elements, one of which is different
	ones := func(i int, other *Val) *Val {
		return listed(n, func(j int) *Val {
			if i == j {
				return other
			}
			return num(1)
		})
	}
	var ld []docText
	ld = append(ld, one(vObj("arr", ones(-1, nil), "b", num(1))))
	for _, s := range spots(n) {
		ld = append(ld, one(vObj("arr", ones(s, num(2)), "b", num(1))), one(vObj("b", num(2), "arr", ones(s, vObj("k", num(1))))), one(vObj("arr", ones(s, vArr(num(1), num(2))))))
	}
	l1 := eq(vfld(1), cst(1))
	for i, l := range []func(g.VariableID, g.Expression, g.Expression) g.Expression{anyIn, everyIn, anyEveryIn} {
		nm := []string{"ANY", "EVERY", "ANY AND EVERY"}[i]
		add("loop", nm+" over n", l(1, fld("arr"), l1), ld)
		add("loop", nm+" over n, negated", l(1, fld("arr"), not(l1)), ld)
		add("loop", nm+" over n, and a field", and(l(1, fld("arr"), or(l1, exists(vfld(1, "k")))), eq(fld("b"), cst(1))), ld)
		add("loop", nm+" over n and a field", l(1, fld("arr"), eq(vfld(1), fld("b"))), ld)
	}
	// long names and texts
	for ci, ch := range []string{"x", "é", "\n"} {
		t := r(ch, n)
		var names, texts []docText
		for i, s := range []string{t, t + ch, t[:len(t)-len(ch)], t + "x", "x" + t, t[:len(t)-len(ch)] + "y", "y" + t[len(ch):]} {
			m := layout{keyEsc: (i + ci) % 4, strEsc: (i + ci) % 4}
			for _, w := range []*Val{vObj(s, num(1)), vObj("o", vObj(s, num(1), "b", num(2)))} {
				names = append(names, docText{w, encode(w, m)})
			}
			for _, w := range []*Val{vObj("s", vStr(s)), vObj("t", vStr(t), "s", vStr(s))} {
				texts = append(texts, docText{w, encode(w, m)}, docText{w, encode(w, layout{})})
			}
		}
		add("bool", "name of n", or(eq(fld(t), cst(1)), eq(fld("o", t), cst(1))), names)
		add("bool", "text of n", eq(fld("s"), cst(t)), texts)
		add("bool", "order of texts of n", or(lt(fld("s"), cst(t)), eq(fld("t"), cst(ch))), texts)
		add("slot", "fields with texts of n", or(gt(fld("s"), fld("t")), eq(fld("t"), fld("s"))), texts)
	}
}

func doLarge(c *Ctx, fam string) {
	for _, n := range largeSizes(c.Thorough) {
		// the constructions are only made when their turn comes
		names := []string{}
		large(3, func(s sized) {
			if s.fam == fam {
				names = append(names, s.name)
			}
		})
		for _, nm := range names {
			n, nm := n, nm
			c.Do(func() string { return fmt.Sprintf("large %s, n = %d", nm, n) }, func() string {
				msg := ""
				large(n, func(s sized) {
					if s.fam == fam && s.name == nm && msg == "" {
						msg = runDocs(c, s.x, s.docs)
						if len(msg) > 3000 {
							msg = msg[:1500] + "…" + msg[len(msg)-1500:]
						}
					}
				})
				return msg
			})
		}
	}
}

// ---------------------------------------------------------------- formulas of any shape

// ntree is a formula: one condition, or an AND or OR of at least two.
type ntree struct {
	op   byte // 0, '&', '|'
	leaf int
	kids []*ntree
}

// nary returns all the formulas over the conditions lo to hi-1 in this order.
func nary(lo, hi int) []*ntree {
	if hi-lo == 1 {
		return []*ntree{{leaf: lo}}
	}
	subs := map[[2]int][]*ntree{}
	sub := func(a, b int) []*ntree {
		if subs[[2]int{a, b}] == nil {
			subs[[2]int{a, b}] = nary(a, b)
		}
		return subs[[2]int{a, b}]
	}
	var out []*ntree
	var rec func(at int, kids []*ntree)
	rec = func(at int, kids []*ntree) {
		if at == hi {
			k := append([]*ntree{}, kids...)
			out = append(out, &ntree{op: '&', kids: k}, &ntree{op: '|', kids: k})
			return
		}
		for to := at + 1; to <= hi; to++ {
			if at == lo && to == hi {
				continue
			}
			for _, t := range sub(at, to) {
				rec(to, append(kids, t))
			}
		}
	}
	rec(lo, nil)
	return out
}

func (t *ntree) nodes() []*ntree {
	out := []*ntree{t}
	for _, k := range t.kids {
		out = append(out, k.nodes()...)
	}
	return out
}

// expr is the formula with its conditions filled in; the nodes in neg are negated.
func (t *ntree) expr(leaf func(i int) g.Expression, neg map[*ntree]bool) g.Expression {
	var x g.Expression
	if t.op == 0 {
		x = leaf(t.leaf)
	} else {
		var l []g.Expression
		for _, k := range t.kids {
			l = append(l, k.expr(leaf, neg))
		}
		if t.op == '&' {
			x = and(l...)
		} else {
			x = or(l...)
		}
	}
	if neg[t] {
		x = not(x)
	}
	return x
}

// toks is the formula as text, with all the parentheses that are needed and those around an operator in its like.
func (t *ntree) toks(leaf func(i int) []string) []string {
	if t.op == 0 {
		return leaf(t.leaf)
	}
	var out []string
	for i, k := range t.kids {
		if i > 0 {
			out = append(out, map[byte]string{'&': "AND", '|': "OR"}[t.op])
		}
		sub := k.toks(leaf)
		if k.op == t.op || t.op == '&' && k.op == '|' {
			sub = append(append([]string{"("}, sub...), ")")
		}
		out = append(out, sub...)
	}
	return out
}

// truths has documents for all the truth assignments of k0 = 0, k1 = 1 and so on, in rotating member order.
func truths(n int) (out []docText) {
	for m := 0; m < 1<<uint(n); m++ {
		v := vObj()
		for j := 0; j < n; j++ {
			i := (j + m) % n
			if m&1 == 1 {
				i = n - 1 - i
			}
			switch {
			case m>>uint(i)&1 == 1:
				v.Obj = append(v.Obj, Member{key(i), vInt(int64(i))})
			case (i+m/2)%3 == 0:
				v.Obj = append(v.Obj, Member{key(i), vInt(int64(i + 1))})
			case (i+m/2)%3 == 1:
				v.Obj = append(v.Obj, Member{key(i), vArr(vInt(int64(i)))})
			}
		}
		out = append(out, docText{v, encode(v, layout{})})
	}
	return
}

func naryLeaf(i int) g.Expression { return eq(fld(key(i)), cst(i)) }

// naryExprs calls f with all formulas of n conditions, and with those that have one of their parts negated.
func naryExprs(n int, negs bool, leaf func(i int) g.Expression, f func(x g.Expression)) {
	for _, t := range nary(0, n) {
		f(t.expr(leaf, nil))
		if negs {
			for _, k := range t.nodes() {
				f(t.expr(leaf, map[*ntree]bool{k: true}))
			}
		}
	}
}

func naryBound(n int, thorough bool) string {
	if thorough {
		n++
	}
	return fmt.Sprintf("; all AND/OR formulas (lists of any length, any nesting) of up to %d conditions with all truth assignments", n)
}

// naryLoops: formulas as the bodies of loops over the elements of an array.
func naryLoops(c *Ctx, n int) {
	el := truths(n)
	var docs []docText
	add := func(v ...*Val) {
		d := vObj("arr", vArr(v...), "b", vInt(1))
		docs = append(docs, docText{d, encode(d, layout{})})
	}
	add()
	for i, x := range el {
		add(x.v)
		for j, y := range el {
			if n <= 3 || c.Thorough || (i+j)%3 == 0 {
				add(x.v, y.v)
			}
		}
	}
	leaf := func(i int) g.Expression { return eq(vfld(1, key(i)), cst(i)) }
	k := 0
	naryExprs(n, n <= 3 || c.Thorough, leaf, func(x g.Expression) {
		for mi, m := range loopModes {
			k++
			y := m(1, fld("arr"), x)
			c.Do(func() string { return show(y) }, func() string { return runDocs(c, y, docs) })
			if (k+mi)%3 == 0 {
				z := not(y)
				w := and(z, eq(fld("b"), cst(1)))
				c.Do(func() string { return show(z) }, func() string { return runDocs(c, z, docs) })
				c.Do(func() string { return show(w) }, func() string { return runDocs(c, w, docs) })
			}
		}
	})
}

// narySlots: formulas of conditions that each relate two fields, one of which comes much later.
func narySlots(c *Ctx, n int) {
	var docs []docText
	for m := 0; m < 1<<uint(n); m++ {
		for _, far := range []bool{false, true} {
			v := vObj()
			put := func(i int, name string, x int) {
				v.Obj = append(v.Obj, Member{key(i) + name, vInt(int64(x))})
			}
			for i := 0; i < n; i++ {
				put(i, "x", 1)
				if !far {
					put(i, "y", 2-m>>uint(i)&1)
				}
			}
			if far {
				for i := n - 1; i >= 0; i-- {
					if m>>uint(i)&1 == 1 || (i+m)%3 != 0 {
						put(i, "y", 2-m>>uint(i)&1)
					}
				}
			}
			docs = append(docs, docText{v, encode(v, layout{})})
		}
	}
	leaf := func(i int) g.Expression { return eq(fld(key(i)+"x"), fld(key(i)+"y")) }
	naryExprs(n, n <= 4 || c.Thorough, leaf, func(x g.Expression) {
		c.Do(func() string { return show(x) }, func() string { return runDocs(c, x, docs) })
	})
	mixed := func(i int) g.Expression {
		if i%2 == 1 {
			return eq(fld(key(i)+"y"), cst(1))
		}
		return leaf(i)
	}
	naryExprs(n, n <= 3 || c.Thorough, mixed, func(x g.Expression) {
		c.Do(func() string { return show(x) }, func() string { return runDocs(c, x, docs) })
	})
}

// c21Nary: formulas with constants among the conditions.
func c21Nary(c *Ctx, check func(x g.Expression, docs []docText) string) {
	for n := 3; n <= 7; n++ {
		if n == 7 && !c.Thorough {
			break
		}
		docs := truths(n)
		one := func(x g.Expression) {
			c.Do(func() string { return show(x) }, func() string { return check(x, docs) })
		}
		naryExprs(n, n <= 4 || n <= 5 && c.Thorough, naryLeaf, one)
		for at := 0; at < n; at++ {
			for k, v := range []g.Expression{g.TrueExpr{}, g.FalseExpr{}} {
				leaf := func(i int) g.Expression {
					if i == at {
						return v
					}
					return naryLeaf(i)
				}
				if n <= 4 || n <= 5 && (at+k)%2 == 0 || c.Thorough && n <= 6 {
					naryExprs(n, n <= 4, leaf, one)
				}
				if n <= 4 {
					naryExprs(n, true, func(i int) g.Expression {
						if i == (at+1)%n {
							return not(v)
						}
						return leaf(i)
					}, one)
				}
			}
			// conditions that occur twice
			if n <= 5 {
				naryExprs(n, n <= 4, func(i int) g.Expression {
					if i == at {
						i = 0
					}
					return naryLeaf(i)
				}, one)
			}
		}
	}
}

// c22Nary: formulas without NOT, at the top and in a loop.
func c22Nary(c *Ctx) {
	max := 5
	if c.Thorough {
		max = 6
	}
	for n := 3; n <= max; n++ {
		var docs, ldocs [][]byte
		var els []*Val
		for m := 0; m < 1<<uint(n); m++ {
			v := vObj()
			for j := 0; j < n; j++ {
				i := (j + m) % n
				v.Obj = append(v.Obj, Member{key(i), vInt(int64(i + 1 - m>>uint(i)&1))})
			}
			docs = append(docs, encode(v, layout{}))
			els = append(els, v)
			ldocs = append(ldocs, encode(vObj("arr", vArr(v)), layout{}), encode(vObj("arr", vArr(v, els[m*5/7])), layout{}))
		}
		ldocs = append(ldocs, encode(vObj("arr", vArr(els...)), layout{}), encode(vObj("arr", vArr()), layout{}))
		run := func(x g.Expression, docs [][]byte) {
			c.Do(func() string { return show(x) }, func() string {
				for _, d := range docs {
					c.State(show(x), string(d))
				}
				c.Trace()
				c.NonTrivial()
				return agree(c, []g.Expression{x}, docs, true)
			})
		}
		naryExprs(n, false, func(i int) g.Expression { return eq(fld(key(i)), cst(float64(i))) }, func(x g.Expression) { run(x, docs) })
		naryExprs(n, false, func(i int) g.Expression { return eq(vfld(1, key(i)), cst(float64(i))) }, func(x g.Expression) { run(anyIn(1, fld("arr"), x), ldocs) })
	}
}

// c12All: every character there is, as value and as name; long texts.
func c12All(c *Ctx) {
	const block = 48
	for lo := rune(0); lo < 0x110000; lo += block {
		lo := lo
		if lo >= 0xd800 && lo+block <= 0xe000 {
			continue
		}
		c.Do(func() string { return fmt.Sprintf("characters from U+%04X", lo) }, func() string {
			var rs []rune
			for r := lo; r < lo+block; r++ {
				if r < 0x110000 && (r < 0xd800 || r >= 0xe000) {
					rs = append(rs, r)
				}
			}
			var vals, names []g.Expression
			for i, r := range rs {
				s := string(r)
				if i%2 == 1 {
					s = "x" + s + "y"
				}
				vals = append(vals, eq(fld("v"), cst(s)))
				names = append(names, exists(fld(s)))
			}
			vm, nm, two := compile(vals...), compile(names...), compile(eq(fld("x"), fld("y")), lt(fld("x"), fld("y")))
			for i, r := range rs {
				want := strings.Repeat("0", i) + "1" + strings.Repeat("0", len(rs)-i-1)
				pre, post := "", ""
				if i%2 == 1 {
					pre, post = "x", "y"
				}
				raw := encStr(string(r), escMin)
				for _, t := range runeSpellings(r) {
					c.Trans(3)
					c.State(t)
					for _, x := range []struct {
						cm   *compiled
						doc  string
						want string
					}{
						{vm, `{"v":"` + pre + t + post + `"}`, want},
						{nm, `{"q":1,"` + pre + t + post + `":1}`, want},
						{two, `{"y":` + raw + `,"x":"` + t + `"}`, "10"},
						{two, `{"x":"a` + t + `","y":"a` + raw[1:len(raw)-1] + `b"}`, "01"},
					} {
						x.cm.m.Reset()
						if o := x.cm.run([]byte(x.doc), len(x.want)); o.err || o.each != x.want || o.flags != 0 {
							return fmt.Sprintf("%q (U+%04X): %v, should be %s", x.doc, r, o, x.want)
						}
					}
				}
			}
			c.Trace()
			c.NonTrivial()
			c.Outcome("characters")
			return ""
		})
	}
	for _, n := range largeSizes(c.Thorough) {
		for _, r := range []rune{'a', '"', '\\', '\n', 0, 0x7f, 'é', '€', '😀', 0x10ffff, '/', 0xfffd} {
			n, r := n, r
			c.Do(func() string { return fmt.Sprintf("%d times U+%04X", n, r) }, func() string {
				s := strings.Repeat(string(r), n)
				short := s[:len(s)-len(string(r))]
				cm := compile(eq(fld("v"), cst(s)), exists(fld(s)), lt(fld("v"), cst(s)), eq(fld("w"), fld("v")))
				for k, t := range runeSpellings(r) {
					long := strings.Repeat(t, n)
					less := long[:len(long)-len(t)]
					for _, x := range []struct{ doc, want string }{
						{`{"v":"` + long + `"}`, "1000"},
						{`{"v":"` + less + `"}`, "0010"},
						{`{"v":"` + long + `b"}`, "0000"},
						{`{"` + long + `":0,"v":"` + long + `"}`, "1100"},
						{`{"` + less + `":0,"b` + long + `":"` + long + `","v":"` + less + `","w":"` + long + `"}`, "0010"},
						{`{"w":` + encStr(s, k%4) + `,"v":"` + long + `"}`, "1001"},
						{`{"v":"` + long + `","w":` + encStr(short, k%4) + `}`, "1000"},
						{`{"w":` + encStr(short, k%4) + `,"v":"` + less + `"}`, "0011"},
					} {
						c.Trans(1)
						c.StateHash(hashString(x.doc))
						cm.m.Reset()
						if o := cm.run([]byte(x.doc), 4); o.err || o.each != x.want {
							return fmt.Sprintf("%d times %q: %s: %v, should be %s", n, t, cut(x.doc), o, x.want)
						}
					}
				}
				c.Trace()
				c.NonTrivial()
				c.Outcome("long")
				return ""
			})
		}
	}
}
