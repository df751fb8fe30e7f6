package main

import (
	"fmt"
	"strconv"
	"strings"

	g "github.com/couchbaselabs/gojsonsm"
)

// c26Part is an expression together with what a count of its parts must give;
// the numbers are composed beside the expression and not read from it.
type c26Part struct {
	x                           g.Expression
	ands, ors, fields, vals, oc int   // oc: times, patterns and truth constants, which may count as constants or not
	loops                       []int // loops at each depth
	words                       []string
}

func c26Join(x g.Expression, subs ...c26Part) c26Part {
	p := c26Part{x: x}
	for _, s := range subs {
		p.ands, p.ors, p.fields, p.vals, p.oc = p.ands+s.ands, p.ors+s.ors, p.fields+s.fields, p.vals+s.vals, p.oc+s.oc
		for d, n := range s.loops {
			if d == len(p.loops) {
				p.loops = append(p.loops, 0)
			}
			p.loops[d] += n
		}
		p.words = append(p.words, s.words...)
	}
	return p
}

func c26Loop(kind int, v g.VariableID, in, body c26Part) c26Part {
	mk := []func(g.VariableID, g.Expression, g.Expression) g.Expression{anyIn, everyIn, anyEveryIn}[kind]
	deeper := body
	deeper.loops = append([]int{1}, body.loops...)
	p := c26Join(mk(v, in.x, body.x), in, deeper)
	p.words = append([]string{fmt.Sprintf("$%d", v)}, p.words...)
	return p
}

func c26Count(p c26Part, s g.ExpressionStats, times int) string {
	total, nested, first := 0, 0, 0
	for d, n := range p.loops {
		total += n
		if d >= 1 {
			nested += n
		}
		if d == 1 {
			first = n
		}
	}
	for _, t := range []struct {
		name           string
		got, min, max_ int
	}{
		{"loops", s.NumLoops, total * times, total * times},
		{"nested loops", s.NumNestedLoops, first * times, nested * times},
		{"ANDs", s.NumAnds, p.ands * times, p.ands * times},
		{"ORs", s.NumOrs, p.ors * times, p.ors * times},
		{"fields", s.NumFields, p.fields * times, p.fields * times},
		{"values", s.NumValues, p.vals * times, (p.vals + p.oc) * times},
		{"loop depth", s.MaxLoopDepth, len(p.loops), len(p.loops)},
	} {
		if t.got < t.min || t.got > t.max_ {
			return fmt.Sprintf("%d %s counted, %d to %d expected, after %d scans of %s", t.got, t.name, t.min, t.max_, times, show(p.x))
		}
	}
	return ""
}

func c26Check(c *Ctx, p c26Part) {
	c.Do(func() string { return show(p.x) }, func() string {
		before := dumpE(p.x)
		var s g.ExpressionStats
		for i := 1; i <= 2; i++ {
			if err := s.Scan(p.x); err != nil {
				return "counting fails: " + err.Error()
			}
			if r := c26Count(p, s, i); r != "" {
				return r
			}
		}
		text := s.String()
		for _, n := range []int{s.NumLoops, s.NumNestedLoops, s.MaxLoopDepth, s.NumAnds, s.NumOrs, s.NumFields, s.NumValues} {
			i := strings.Index(text, fmt.Sprint(n))
			if i < 0 {
				return fmt.Sprintf("the printed statistics do not show %d: %s", n, s.String())
			}
			text = text[i+len(fmt.Sprint(n)):]
		}
		text = p.x.String()
		if text != p.x.String() {
			return "prints differently the second time"
		}
		if r := c26Words(text, p.words); r != "" {
			return r
		}
		c.Trans(4)
		c.State(text)
		c.Trace()
		var first string
		var t g.Transformer
		for i := 0; i < 3; i++ {
			var d *g.MatchDef
			if i == 0 {
				var t2 g.Transformer
				d = t2.Transform([]g.Expression{p.x})
			} else {
				d = t.Transform([]g.Expression{p.x})
			}
			out := d.String()
			if i == 0 {
				first = out
			} else if out != first {
				return fmt.Sprintf("compiled again, the definition is another one:\n%s\ninstead of\n%s", out, first)
			}
			if d.String() != d.String() {
				return "the definition prints differently the second time"
			}
			if r := defComplete(d, out); r != "" {
				return r
			}
			c.Trans(2)
		}
		if dumpE(p.x) != before {
			return "the expression was changed"
		}
		if len(p.words) > 1 {
			c.NonTrivial()
		}
		return ""
	})
}

func c26Val(x g.Expression, word string) c26Part {
	return c26Part{x: x, vals: 1, words: []string{word}}
}

func c26Operands(v g.VariableID) (out []c26Part) {
	f := func(x g.Expression, w ...string) { out = append(out, c26Part{x: x, fields: 1, words: w}) }
	f(fld("aa"), "aa")
	f(fld("bb", "[0]", "cc"), "bb", "[0]", "cc")
	if v != 0 {
		f(vfld(v), fmt.Sprintf("$%d", v))
		f(vfld(v, "dd"), fmt.Sprintf("$%d", v), "dd")
	}
	out = append(out, c26Val(cst(17), "17"), c26Val(cst("text"), "text"), c26Val(cst(1.5), "1.5"))
	a, b := out[0], out[1]
	one := func(name string, p ...c26Part) c26Part {
		var xs []g.Expression
		for _, q := range p {
			xs = append(xs, q.x)
		}
		r := c26Join(fn(name, xs...), p...)
		r.words = append([]string{name}, r.words...)
		return r
	}
	sum := one(g.MathFuncAdd, a, b)
	out = append(out, one(g.MathFuncAbs, a), sum, one(g.MathFuncMul, one(g.MathFuncSub, a, out[len(out)-3]), b), one(g.DateFunc, a))
	return
}

// c26Conds lists conditions; with v, ones that use that loop variable
func c26Conds(v g.VariableID) (out []c26Part) {
	ops := c26Operands(v)
	for _, op := range cmpOps {
		for _, l := range ops {
			for _, r := range ops {
				if l.fields == 0 && r.fields == 0 {
					continue
				}
				out = append(out, c26Join(op.mk(l.x, r.x), l, r))
			}
		}
	}
	tm := g.TimeExpr{Time: "2019-02-20T10:00:00Z"}
	for _, l := range ops {
		if l.fields == 0 {
			continue
		}
		out = append(out, c26Join(exists(l.x), l), c26Join(notExists(l.x), l))
		p := c26Join(g.LikeExpr{l.x, g.RegexExpr{"^pp"}}, l)
		p.oc++
		p.words = append(p.words, "^pp")
		out = append(out, p)
		p = c26Join(g.LikeExpr{l.x, g.RegexExpr{"qq$"}}, l)
		p.oc++
		p.words = append(p.words, "qq$")
		out = append(out, p)
		p = c26Join(lt(l.x, tm), l)
		p.oc++
		out = append(out, p)
	}
	out = append(out, c26Part{x: g.TrueExpr{}, oc: 1}, c26Part{x: g.FalseExpr{}, oc: 1})
	return
}

func c26Not(p c26Part) c26Part { return c26Join(not(p.x), p) }
func c26List(isAnd bool, ps ...c26Part) c26Part {
	var xs []g.Expression
	for _, p := range ps {
		xs = append(xs, p.x)
	}
	var r c26Part
	if isAnd {
		r = c26Join(and(xs...), ps...)
		r.ands++
	} else {
		r = c26Join(or(xs...), ps...)
		r.ors++
	}
	return r
}

// few returns n of the parts, evenly spread, the last two included
func few(ps []c26Part, n int) (out []c26Part) {
	for i := 0; i < n; i++ {
		out = append(out, ps[i*(len(ps)-1)/(n-1)])
	}
	return
}

// c26Build lists the expressions with up to n conditions
func c26Build(n int, v g.VariableID, depth, base int, f func(c26Part)) {
	conds := few(c26Conds(v), base)
	var all [][]c26Part
	all = append(all, nil, nil)
	add := func(k int, p c26Part) { all[k] = append(all[k], p); f(p) }
	grow := func(k int) {
		for _, p := range append([]c26Part{}, all[k]...) {
			add(k, c26Not(p))
		}
		if depth > 0 {
			in := c26Part{x: fld("arr"), fields: 1, words: []string{"arr"}}
			if v != 0 {
				in = c26Part{x: vfld(v, "in"), fields: 1, words: []string{fmt.Sprintf("$%d", v), "in"}}
			}
			b := base - 2
			if b < 3 {
				b = 3
			}
			var bodies []c26Part
			c26Build(k, v+1, depth-1, b, func(p c26Part) { bodies = append(bodies, p) })
			for i, p := range bodies {
				if k > 1 {
					add(k, c26Loop(i%3, v+1, in, p))
					continue
				}
				for kind := 0; kind < 3; kind++ {
					add(k, c26Loop(kind, v+1, in, p))
				}
			}
		}
	}
	for _, p := range conds {
		add(1, p)
	}
	grow(1)
	for k := 2; k <= n; k++ {
		all = append(all, nil)
		for i := 1; i < k; i++ {
			for _, l := range all[i] {
				for _, r := range all[k-i] {
					add(k, c26List(true, l, r))
					add(k, c26List(false, l, r))
				}
			}
		}
		if k == 2 {
			grow(k)
		}
		if k == 3 {
			for _, l := range conds {
				for _, m := range conds {
					for _, r := range conds {
						add(k, c26List(true, l, m, r))
						add(k, c26List(false, l, m, r))
					}
				}
			}
		}
	}
}

func init() {
	register(&Check{
		ID:    "C26",
		Rule:  "case = one expression, carrying the numbers of its parts and the words that stand for them, composed beside it: counted twice, printed twice, compiled three times (new and used transformer) and the definitions printed and looked through for all they consist of; further cases: a whole set of expressions prints without two texts being the same; non-trivial if it has at least two operands; states = distinct printed texts",
		Assum: []string{"times, patterns and truth constants may count as constants or not", "loops more than one level inside a loop may count as nested or not", "texts of constants that contain operators, points or line breaks, and AND/OR of one member, are not asked to print distinctly"},
		Bound: func(t string) string {
			s := "all conditions of 6 comparisons x pairs of 9-11 operands (fields, loop variables, constants of three types, functions nested twice), existence tests, patterns, times, truth constants; formulas of up to 2 conditions (3 with fewer) of 5 kinds with NOT, AND, OR of 2 and 3 members, loops of the three kinds nested up to 2 deep; the 46 expressions of the corpus; all AND/OR formulas of up to 6 conditions with one part negated; all ordered pairs of 95 lists, compiled one after the other by one transformer, and after one of 20 expressions that cannot be compiled; each list 520 times (some: 33000 times) by one transformer, with others in between; the size series"
			if t == "thorough" {
				s = strings.Replace(s, "of 5 kinds", "of 8 kinds", 1)
				s = strings.Replace(s, "2 deep", "3 deep", 1)
			}
			return s + seriesBound(t == "thorough")
		},
		Run: func(c *Ctx) {
			base, depth := 5, 2
			if c.Thorough {
				base, depth = 8, 3
			}
			sets := map[string]func(f func(c26Part)){
				"conditions": func(f func(c26Part)) {
					for _, p := range c26Conds(0) {
						f(p)
						f(c26Not(p))
					}
				},
				"loops over conditions": func(f func(c26Part)) {
					in := c26Part{x: fld("arr"), fields: 1, words: []string{"arr"}}
					for kind := 0; kind < 3; kind++ {
						for _, p := range c26Conds(1) {
							f(c26Loop(kind, 1, in, p))
							in2 := c26Part{x: vfld(1, "more"), fields: 1, words: []string{"$1", "more"}}
							f(c26Loop((kind+1)%3, 1, in, c26Loop(kind, 2, in2, p)))
						}
					}
				},
				"formulas of 2": func(f func(c26Part)) { c26Build(2, 0, depth, base, f) },
				"formulas of 3": func(f func(c26Part)) { c26Build(3, 0, 0, base, f) },
				"nested loops":  func(f func(c26Part)) { c26Build(1, 0, 4, 5, f) },
			}
			for _, name := range []string{"conditions", "loops over conditions", "formulas of 2", "formulas of 3", "nested loops"} {
				gen := sets[name]
				gen(func(p c26Part) { c26Check(c, p) })
				c.Do(func() string { return "distinct texts of " + name }, func() string {
					seen := map[string]string{}
					bad := ""
					gen(func(p c26Part) {
						t := p.x.String()
						d := dumpE(p.x)
						if o, ok := seen[t]; ok && o != d && bad == "" {
							bad = fmt.Sprintf("two expressions print as %s: %s and %s", t, o, d)
						}
						seen[t] = d
						c.Trans(1)
					})
					c.NonTrivial()
					return bad
				})
			}
			for _, x := range corpusExprs() {
				x := x
				c.Do(func() string { return "corpus " + show(x) }, func() string { return c26Whole(c, x) })
			}
			// a transformer used before, for each kind of list after each other
			var lists [][]g.Expression
			for _, x := range corpusExprs() {
				lists = append(lists, []g.Expression{x}, []g.Expression{x, eq(fld("a"), cst(1)), g.TrueExpr{}})
			}
			lists = append(lists, []g.Expression{g.TrueExpr{}}, []g.Expression{g.FalseExpr{}, g.TrueExpr{}}, []g.Expression{})
			for i, l := range lists {
				for j, m := range lists {
					i, j, l, m := i, j, l, m
					c.Do(func() string { return fmt.Sprintf("list %d after %d: %s after %s", i, j, showAll(l), showAll(m)) }, func() string {
						var t, u g.Transformer
						want := t.Transform(l).String()
						u.Transform(m)
						for k := 0; k < 2; k++ {
							if got := u.Transform(l).String(); got != want {
								return fmt.Sprintf("after another compilation the definition is\n%s\ninstead of\n%s", got, want)
							}
						}
						c.Trans(4)
						c.Trace()
						if i != j {
							c.NonTrivial()
						}
						return ""
					})
				}
			}
			// a transformer used very often
			for i, l := range lists {
				i, l := i, l
				c.Do(func() string { return fmt.Sprintf("list %d very often: %s", i, showAll(l)) }, func() string {
					var t, u g.Transformer
					want := t.Transform(l).String()
					n := 520
					if i%16 == 0 {
						n = 33000
					}
					for k := 1; k <= n; k++ {
						if d := u.Transform(l); k < 520 || k%500 < 2 {
							if got := d.String(); got != want {
								return fmt.Sprintf("the transformer's definition number %d is\n%s\ninstead of\n%s", k, got, want)
							}
						}
						u.Transform([]g.Expression{eq(fld(fmt.Sprint("k", k)), cst(k))})
						c.Trans(2)
					}
					c.Trace()
					c.NonTrivial()
					c.Outcome("very often")
					return ""
				})
			}
			// a transformer that gave up before
			f, v := fld, vfld
			for _, bad := range []g.Expression{g.LikeExpr{v(1, "k"), g.RegexExpr{"("}}, g.LikeExpr{f("a"), g.RegexExpr{"[b"}}, lt(v(1), g.TimeExpr{"yesterday"}), eq(f("x", "y"), v(9)), and(eq(f("a"), f("b")), g.LikeExpr{f("c"), g.RegexExpr{"*"}})} {
				for where, m := range []g.Expression{anyIn(1, f("a"), bad), everyIn(1, f("p", "q"), anyIn(2, v(1), bad)), and(eq(f("b"), cst(1)), anyEveryIn(1, f("a"), or(eq(v(1), f("c")), bad))), or(anyIn(1, f("a"), anyIn(2, f("b"), anyIn(3, v(2), bad))), eq(f("a"), cst(1)))} {
					bad, where, m := bad, where, m
					c.Do(func() string { return fmt.Sprintf("after giving up on %s (%d)", show(bad), where) }, func() string {
						var u g.Transformer
						for _, l := range lists {
							gaveUp := false
							func() {
								defer func() { gaveUp = recover() != nil }()
								u.Transform([]g.Expression{eq(f("d"), cst(1)), m})
							}()
							if !gaveUp {
								c.Outcome("compiled")
							}
							var t g.Transformer
							want, got := t.Transform(l), u.Transform(l)
							if got.String() != want.String() || got.NumSlots != want.NumSlots || got.NumBuckets != want.NumBuckets {
								return fmt.Sprintf("%s: the definition is\n%s\ninstead of\n%s", showAll(l), got, want)
							}
							c.Trans(3)
						}
						c.Trace()
						c.NonTrivial()
						return ""
					})
				}
			}
			for n := 3; n <= 6; n++ {
				seen := map[string]string{}
				naryExprs(n, n < 6 || c.Thorough, naryLeaf, func(x g.Expression) {
					c.Do(func() string { return show(x) }, func() string { return c26Whole(c, x) })
				})
				n := n
				c.Do(func() string { return fmt.Sprintf("distinct texts of formulas of %d", n) }, func() string {
					bad := ""
					naryExprs(n, true, naryLeaf, func(x g.Expression) {
						t, d := x.String(), dumpE(x)
						if o, ok := seen[t]; ok && o != d && bad == "" {
							bad = fmt.Sprintf("two expressions print as %s: %s and %s", t, o, d)
						}
						seen[t] = d
						c.Trans(1)
					})
					c.NonTrivial()
					return bad
				})
			}
			c26Texts(c)
			for _, n := range seriesSizes(c.Thorough) {
				series(n, func(s sized) {
					c.Do(func() string { return fmt.Sprintf("%s, n = %d", s.name, s.n) }, func() string { return c26Whole(c, s.x) })
				})
			}
		},
	})
}

// c26Whole: an expression whose parts are counted by walking it
func c26Whole(c *Ctx, x g.Expression) string {
	before := dumpE(x)
	var s g.ExpressionStats
	if err := s.Scan(x); err != nil {
		return "counting fails: " + err.Error()
	}
	if r := c26Count(c26Walk(x), s, 1); r != "" {
		return r
	}
	text := x.String()
	if text != x.String() {
		return "prints differently the second time"
	}
	if r := c26Words(text, c26Walk(x).words); r != "" {
		return r
	}
	var t g.Transformer
	d1, d2 := t.Transform([]g.Expression{x}), t.Transform([]g.Expression{x})
	if d1.String() != d2.String() {
		return "compiled again, the definition is another one"
	}
	if r := defComplete(d1, d1.String()); r != "" {
		return r
	}
	if dumpE(x) != before {
		return "the expression was changed"
	}
	c.Trans(6)
	c.NonTrivial()
	c.State(before)
	return ""
}

// c26Words: the words occur in the text in this order; those with unusual characters are left out.
func c26Words(text string, words []string) string {
	rest := text
	for _, w := range words {
		if strings.IndexFunc(w, func(r rune) bool { return r < ' ' || r > '~' || r == '"' || r == '\\' }) >= 0 {
			continue
		}
		i := strings.Index(rest, w)
		if i < 0 {
			return fmt.Sprintf("printed without %q, or not in its place: %s", cut(w), cut(text))
		}
		rest = rest[i+len(w):]
	}
	return ""
}

func c26Walk(x g.Expression) c26Part {
	two := func(l, r g.Expression) c26Part { return c26Join(x, c26Walk(l), c26Walk(r)) }
	list := func(xs []g.Expression) c26Part {
		var ps []c26Part
		for _, e := range xs {
			ps = append(ps, c26Walk(e))
		}
		return c26Join(x, ps...)
	}
	switch e := x.(type) {
	case g.FieldExpr:
		w := append([]string{}, e.Path...)
		if e.Root != 0 {
			w = append([]string{fmt.Sprintf("$%d", e.Root)}, w...)
		}
		return c26Part{x: x, fields: 1, words: w}
	case g.ValueExpr:
		p := c26Part{x: x, vals: 1}
		switch v := e.Value.(type) {
		case string:
			p.words = []string{v}
		case int, int64, uint64, bool:
			p.words = []string{fmt.Sprint(v)}
		}
		return p
	case g.FuncExpr:
		p := list(e.Params)
		p.words = append([]string{e.FuncName}, p.words...)
		return p
	case g.AndExpr:
		p := list(e)
		p.ands++
		return p
	case g.OrExpr:
		p := list(e)
		p.ors++
		return p
	case g.NotExpr:
		return c26Join(x, c26Walk(e.SubExpr))
	case g.AnyInExpr:
		return c26Loop(0, e.VarId, c26Walk(e.InExpr), c26Walk(e.SubExpr))
	case g.EveryInExpr:
		return c26Loop(1, e.VarId, c26Walk(e.InExpr), c26Walk(e.SubExpr))
	case g.AnyEveryInExpr:
		return c26Loop(2, e.VarId, c26Walk(e.InExpr), c26Walk(e.SubExpr))
	case g.ExistsExpr:
		return c26Join(x, c26Walk(e.SubExpr))
	case g.NotExistsExpr:
		return c26Join(x, c26Walk(e.SubExpr))
	case g.EqualsExpr:
		return two(e.Lhs, e.Rhs)
	case g.NotEqualsExpr:
		return two(e.Lhs, e.Rhs)
	case g.LessThanExpr:
		return two(e.Lhs, e.Rhs)
	case g.LessEqualsExpr:
		return two(e.Lhs, e.Rhs)
	case g.GreaterThanExpr:
		return two(e.Lhs, e.Rhs)
	case g.GreaterEqualsExpr:
		return two(e.Lhs, e.Rhs)
	case g.LikeExpr:
		return two(e.Lhs, e.Rhs)
	}
	return c26Part{x: x, oc: 1}
}

// c26Texts: the printed forms of parsed filter texts.
func c26Texts(c *Ctx) {
	type group struct{ texts []string }
	groups := map[string]*group{}
	var order []string
	c15All(c, func(t feText, mode int, _ []docText) {
		toks := t.toks
		key := make([]string, 0, len(toks))
		for _, w := range toks {
			if w == "==" {
				w = "="
			} else if w == "!=" {
				w = "<>"
			}
			if w != "(" && w != ")" {
				key = append(key, w)
			}
		}
		if len(key) < 64 {
			k := strings.Join(key, " ")
			if groups[k] == nil {
				groups[k] = &group{}
				order = append(order, k)
			}
			groups[k].texts = append(groups[k].texts, strings.Join(toks, " "))
		}
		c.Do(func() string { return "print " + feJoin(toks, mode) }, func() string {
			text := feJoin(toks, mode)
			_, fe, err := g.NewFilterExpressionParser(text)
			if err != nil {
				return fmt.Sprintf("%s: %v", cut(text), err)
			}
			x, _ := fe.OutputExpression()
			out := fe.String()
			y, _ := fe.OutputExpression()
			if out != fe.String() || dumpE(x) != dumpE(y) {
				return fmt.Sprintf("%s: printing changes it", cut(text))
			}
			c.Trans(2)
			c.State(out)
			c.Trace()
			c.NonTrivial()
			c.Outcome("printed text")
			if m := c26Named(out, toks); m != "" {
				return fmt.Sprintf("%s is printed as %s: %s", cut(text), cut(out), m)
			}
			return ""
		})
	})
	// texts that differ in their parentheses
	for _, k := range order {
		texts := groups[k].texts
		if len(texts) < 2 {
			continue
		}
		c.Do(func() string { return fmt.Sprintf("%d texts with the parts %s", len(texts), k) }, func() string {
			seen := map[string][2]string{}
			for _, t := range texts {
				_, fe, err := g.NewFilterExpressionParser(t)
				if err != nil {
					return fmt.Sprintf("%s: %v", t, err)
				}
				x, _ := fe.OutputExpression()
				if x == nil {
					continue
				}
				c.Trans(1)
				out, d := fe.String(), dumpE(x)
				if o, ok := seen[out]; ok && o[0] != d {
					return fmt.Sprintf("%s and %s are both printed as %s", o[1], t, out)
				}
				seen[out] = [2]string{d, t}
			}
			return ""
		})
	}
}

// c26Named: out consists of the tokens in their order, but for parentheses, commas, points, brackets, blanks and
// quotes; numbers may be written differently.
func c26Named(out string, toks []string) string {
	rest := out
	skip := func() bool {
		if strings.HasPrefix(rest, "(bool)") {
			rest = rest[6:]
			return true
		}
		if rest != "" && strings.IndexByte(" (),.[]", rest[0]) >= 0 {
			rest = rest[1:]
			return true
		}
		return false
	}
	var parts []string
	for _, t := range toks {
		if strings.IndexByte("`'\".0123456789", t[0]) >= 0 {
			parts = append(parts, t)
		} else {
			parts = append(parts, strings.FieldsFunc(t, func(r rune) bool { return strings.ContainsRune("()[].,", r) })...)
		}
	}
	for _, t := range parts {
		alt := []string{t}
		num, isNum := 0.0, false
		switch {
		case strings.Contains("( ) , . [ ]", t):
			continue
		case t == "==" || t == "=":
			alt = []string{"==", "="}
		case t == "!=" || t == "<>":
			alt = []string{"!=", "<>"}
		case t[0] == '`' || t[0] == '\'':
			alt = []string{t[1 : len(t)-1], t}
		case t[0] == '"':
			if u, err := strconv.Unquote(t); err == nil {
				alt = []string{u, t}
			}
		case t[0] >= '0' && t[0] <= '9' || t[0] == '.':
			if i, err := strconv.ParseInt(t, 0, 64); err == nil {
				num, isNum = float64(i), true
			} else if f, err := strconv.ParseFloat(t, 64); err == nil {
				num, isNum = f, true
			}
		}
		for found := false; !found; {
			for _, a := range alt {
				if strings.HasPrefix(rest, a) {
					rest, found = rest[len(a):], true
					break
				}
			}
			if !found && isNum {
				n := strings.IndexFunc(rest, func(r rune) bool { return !strings.ContainsRune("0123456789.eE+-x", r) })
				if n < 0 {
					n = len(rest)
				}
				if f, err := strconv.ParseFloat(rest[:n], 64); err == nil && f == num {
					rest, found = rest[n:], true
				}
			}
			if !found && !skip() {
				return fmt.Sprintf("%q is not in its place before %q", cut(t), cut(rest))
			}
		}
	}
	for skip() {
	}
	if rest != "" {
		return fmt.Sprintf("%q is too much", cut(rest))
	}
	return ""
}
