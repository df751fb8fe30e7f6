package main

import (
	"fmt"
	"strings"

	g "github.com/couchbaselabs/gojsonsm"
)

func seriesBound(thorough bool) string {
	s := seriesSizes(thorough)
	return fmt.Sprintf("; series that grow in one respect, %d sizes from 1 to %d", len(s), s[len(s)-1])
}

// c02Series writes one document with n blanks, n unrelated members, members n deep, texts and numbers of n characters.
func c02Series(c *Ctx) {
	f := fld
	list := []g.Expression{eq(f("a"), cst(1)), and(eq(f("b"), cst("xé")), not(exists(f("zz")))), eq(f("o", "k"), f("a")), anyIn(1, f("l"), eq(vfld(1, "k"), cst(true))), eq(f("a"), cst(2)), exists(f("o", "l"))}
	const want = "111101"
	cm := compile(list...)
	last := compile(eq(f("last"), cst(1)), eq(f("b"), cst("xé")))
	members := []string{`"a":1`, `"b":"x\u00e9"`, `"o":{"k":1,"l":null}`, `"l":[1,{"j":0,"k":true},2]`, `"last":1`}
	sizes := append([]int{}, seriesSizes(c.Thorough)...)
	for _, n := range largeSizes(c.Thorough) {
		if n > 257 && n <= 200000 {
			sizes = append(sizes, n)
		}
	}
	for _, n := range sizes {
		n := n
		c.Do(func() string { return fmt.Sprintf("layout series, n = %d", n) }, func() string {
			try := func(text string) string {
				c.State(text)
				c.Trans(2)
				cm.m.Reset()
				if o := cm.run([]byte(text), len(list)); o.err || o.each != want {
					return fmt.Sprintf("%s: %v, should be %s", cut(text), o, want)
				}
				last.m.Reset()
				if o := last.run([]byte(text), 2); o.err || o.each != "11" {
					return fmt.Sprintf("%s: last = 1, b = xé: %v, should be both", cut(text), o)
				}
				return ""
			}
			// n blanks at every gap
			var toks []string
			plain := "{" + strings.Join(members, ",") + "}"
			for p := 0; ; {
				t, ok := lexNext([]byte(plain), p)
				if !ok {
					return "the harness made a bad document"
				}
				if t.kind == '$' {
					break
				}
				toks = append(toks, plain[t.start:t.end])
				p = t.end
			}
			for _, b := range []string{" ", "\n", "\t", "\r\n"} {
				gap := strings.Repeat(b, n)
				for at := 0; at <= len(toks); at++ {
					if m := try(strings.Join(toks[:at], "") + gap + strings.Join(toks[at:], "")); m != "" {
						return m
					}
				}
				if m := try(gap + strings.Join(toks, gap) + gap); m != "" {
					return m
				}
			}
			// unrelated things at every place
			r := strings.Repeat
			var more string
			for i := 0; i < n; i++ {
				more += fmt.Sprintf(`,"y%d":%d`, i, i)
			}
			things := []string{more[1:], `"y":` + r("[", n) + r("]", n), `"y":` + r(`{"a":`, n) + "2" + r("}", n), `"y":` + r(`[{"a":2},`, n) + "0" + r("]", n), `"y":[` + r("2,", n) + "0]", `"y":{` + r(`"a":2,`, n) + `"b":0}`,
				`"y":"` + r("x", n) + `"`, `"y":"` + r(`\\`, n) + `"`, `"y":"` + r(`\"`, n) + `"`, `"y":"` + r(`\\\"`, n) + `"`, `"y":"` + r(`\u00e9`, n) + `"`, `"y":"` + r("}", n) + `"`, `"y":"` + r("é", n) + `\\"`, `"y":` + r("9", n), `"y":-0.` + r("1", n) + "e1", `"y":1e` + r("0", n) + "1",
				`"` + r("a", n+1) + `":2`, `"` + r(`\u0061`, n+1) + `":2`, `"` + r(`\\`, n) + `":2`, `"y":"x","b` + r(`\"`, n) + `":"x"`}
			for _, t := range things {
				for at := 0; at <= len(members); at++ {
					l := append(append(append([]string{}, members[:at]...), t), members[at:]...)
					if m := try("{" + strings.Join(l, ",") + "}"); m != "" {
						return m
					}
				}
				inner := strings.Replace(plain, `"l":null`, t+`,"l":null`, 1)
				inner = strings.Replace(inner, `"j":0`, `"j":0,`+t, 1)
				if m := try(inner); m != "" {
					return m
				}
			}
			// the same characters in many spellings
			for _, e := range []int{escUni, escUpper, escMixed} {
				v := vObj("a", vNum("1"), "b", vStr("xé"), "o", vObj("k", vNum("1"), "l", vNull()), "l", vArr(vObj("k", vBool(true))), "last", vNum("1"), strings.Repeat("é\"", n), vStr(strings.Repeat("\U0001F600\\", n)))
				if m := try(string(encode(v, layout{keyEsc: e, strEsc: e}))); m != "" {
					return m
				}
			}
			c.Trace()
			c.NonTrivial()
			c.Outcome("series")
			return ""
		})
	}
}

// c05Series uses one matcher for many documents of different sizes.
func c05Series(c *Ctx, sets [][]g.Expression, docs []string) {
	rounds := 300
	if c.Thorough {
		rounds = 3000
	}
	for si, set := range sets {
		set := set
		for step := 1; step <= 13; step += 4 {
			step := step
			c.Do(func() string {
				return fmt.Sprintf("set %d (%s...), %d documents one after the other, every %dth", si, show(set[0]), rounds, step)
			}, func() string {
				var t g.Transformer
				def := t.Transform(set)
				want := map[string]string{}
				for _, d := range docs {
					want[d] = full(g.NewFastMatcher(def), []byte(d), len(set))
				}
				m := g.NewFastMatcher(def)
				for i := 0; i < rounds; i++ {
					d := docs[i*step%len(docs)]
					if i%17 == 0 {
						d = docs[0]
					}
					m.Reset()
					c.Trans(1)
					if got := full(m, []byte(d), len(set)); got != want[d] {
						return fmt.Sprintf("after %d documents %s gives %s, a new matcher %s", i, d, got, want[d])
					}
				}
				c.Trace()
				c.NonTrivial()
				c.Outcome("long histories")
				return ""
			})
		}
	}
	for _, n := range seriesSizes(c.Thorough) {
		series(n, func(s sized) {
			c.Do(func() string { return fmt.Sprintf("documents of series %s, n = %d", s.name, s.n) }, func() string {
				var t g.Transformer
				set := []g.Expression{s.x, eq(fld("b"), cst(1))}
				def := t.Transform(set)
				var want []string
				for _, d := range s.docs {
					want = append(want, full(g.NewFastMatcher(def), d.text, 2))
				}
				m := g.NewFastMatcher(def)
				for i, d := range s.docs {
					for j, e := range s.docs {
						if j > 6 && (i+j)%5 != 0 {
							continue
						}
						c.Trans(3)
						m.Reset()
						full(m, e.text[:len(e.text)*(i%4)/3], 2)
						m.Reset()
						full(m, e.text, 2)
						m.Reset()
						if got := full(m, d.text, 2); got != want[i] {
							return fmt.Sprintf("after %s, %s gives %s, a new matcher %s", e.text, d.text, got, want[i])
						}
					}
				}
				c.Trace()
				c.NonTrivial()
				c.Outcome("series")
				return ""
			})
		})
	}
}

// c06Series merges n expressions.
func c06Series(c *Ctx) {
	for _, n := range seriesSizes(c.Thorough) {
		n := n
		num := func(i int) *Val { return vInt(int64(i)) }
		kinds := []struct {
			name string
			mk   func(i int) g.Expression
		}{
			{"conditions on n fields", func(i int) g.Expression { return eq(fld(key(i)), cst(i)) }},
			{"values of one field", func(i int) g.Expression { return eq(fld("k0"), cst(i)) }},
			{"the same and others", func(i int) g.Expression { return eq(fld(key(i%3)), cst(i%5)) }},
			{"conjunctions that share a condition", func(i int) g.Expression { return and(eq(fld("k0"), cst(0)), ge(fld(key(i)), cst(i))) }},
			{"disjunctions that share a condition", func(i int) g.Expression { return or(lt(fld("k0"), cst(0)), not(eq(fld(key(i)), cst(i)))) }},
			{"constants and conditions", func(i int) g.Expression {
				return []g.Expression{g.FalseExpr{}, eq(fld(key(i)), cst(i)), g.TrueExpr{}, not(exists(fld(key(i))))}[i%4]
			}},
			{"conditions on two fields", func(i int) g.Expression { return lt(fld(key(i)), fld(key((i+1)%n))) }},
			{"loops", func(i int) g.Expression {
				return anyIn(g.VariableID(i+1), fld("arr"), eq(vfld(g.VariableID(i+1)), cst(i)))
			}},
			{"loops with equal variables", func(i int) g.Expression { return everyIn(1, fld("arr"), ne(vfld(1), cst(i))) }},
			{"paths", func(i int) g.Expression { return exists(fld(rep("a", i+1)...)) }},
			{"indexes", func(i int) g.Expression { return eq(fld("arr", fmt.Sprintf("[%d]", i)), cst(i)) }},
		}
		for _, k := range kinds {
			k := k
			c.Do(func() string { return fmt.Sprintf("series of %s, n = %d", k.name, n) }, func() string {
				var docs []docText
				docs = append(docs, both(keyed(n, num), vObj(), keyed(n, func(i int) *Val { return num(n - i) }))...)
				for _, s := range spots(n) {
					docs = append(docs, both(keyed(n, func(i int) *Val {
						if i == s {
							return num(i)
						}
						return nil
					}), vObj("arr", listed(n, func(i int) *Val {
						if i == s {
							return num(-1)
						}
						return num(i)
					}), "k0", num(s)), wrapObj(num(1), rep("a", s+1)...))...)
				}
				var list []g.Expression
				for i := 0; i < n; i++ {
					list = append(list, k.mk(i))
				}
				for pass := 0; pass < 2; pass++ {
					cm := compile(list...)
					for _, d := range docs {
						want, all, any := "", true, false
						for _, x := range list {
							m, known, _ := meaning(x, d.v)
							all = all && known
							any = any || m
							want += map[bool]string{true: "1", false: "0"}[m]
						}
						c.Trans(1)
						cm.m.Reset()
						if o := cm.run(d.text, n); all && (o.err || o.each != want || o.match != any) {
							return fmt.Sprintf("on %s: %v, should be %s", d.text, o, want)
						}
						c.State(want)
					}
					for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
						list[i], list[j] = list[j], list[i]
					}
				}
				c.Trace()
				c.NonTrivial()
				c.Outcome("series")
				return ""
			})
		}
	}
}

// c21Series is the same as the other series, with and without constants in between.
func c21Series(c *Ctx, check func(x g.Expression, docs []docText) string) {
	for _, n := range seriesSizes(c.Thorough) {
		series(n, func(s sized) {
			if s.fam == "slot" {
				return
			}
			one := func(nm string, x g.Expression) {
				c.Do(func() string { return fmt.Sprintf("series %s%s, n = %d", s.name, nm, s.n) }, func() string { return check(x, s.docs) })
			}
			one("", s.x)
			var l, m []g.Expression
			isAnd := false
			switch x := s.x.(type) {
			case g.AndExpr:
				l, isAnd = x, true
			case g.OrExpr:
				l = x
			default:
				y := s.x
				for i := 0; i < n; i++ {
					y = []func(...g.Expression) g.Expression{and, or}[i%2](y, []g.Expression{g.TrueExpr{}, g.FalseExpr{}}[i%2])
				}
				one(" in n neutral constants", y)
				one(" under n ANDs", and(g.TrueExpr{}, not(not(y))))
				return
			}
			op := map[bool]func(...g.Expression) g.Expression{true: and, false: or}[isAnd]
			neutral := map[bool]g.Expression{true: g.TrueExpr{}, false: g.FalseExpr{}}[isAnd]
			for _, e := range l {
				m = append(m, neutral, e)
			}
			one(" with neutral constants", op(m...))
			for _, i := range spots(len(l)) {
				one(" with a neutral constant", op(append(append(append([]g.Expression{}, l[:i]...), neutral), l[i:]...)...))
				one(" with a part of its own", op(append(append(append([]g.Expression{}, l[:i]...), op(l[i:]...)), neutral)...))
				one(" with a deciding constant", op(append(append(append([]g.Expression{}, l[:i]...), not(neutral)), l[i:]...)...))
			}
		})
	}
}

// c22Series has what both matchers support.
func c22Series(c *Ctx) {
	num := func(i int) *Val { return vInt(int64(i)) }
	for _, n := range seriesSizes(c.Thorough) {
		n := n
		run := func(name string, docs []docText, xs ...g.Expression) {
			var texts [][]byte
			for _, d := range docs {
				texts = append(texts, d.text)
			}
			c.Do(func() string { return fmt.Sprintf("series %s, n = %d", name, n) }, func() string {
				if m := agree(c, xs, texts, true); m != "" {
					return m
				}
				if m := agree(c, xs, texts, false); m != "" {
					return m
				}
				c.Trace()
				c.NonTrivial()
				c.Outcome("series")
				return ""
			})
		}
		docs := both(keyed(n, num), keyed(n, func(i int) *Val { return num(i + 1) }))
		for _, s := range spots(n) {
			s := s
			docs = append(docs, both(keyed(n, func(i int) *Val {
				if i == s {
					return num(i + 1)
				}
				return num(i)
			}), keyed(n, func(i int) *Val {
				if i == s {
					return num(i)
				}
				return num(i + 1)
			}))...)
		}
		var l, loops []g.Expression
		nest := eq(fld(key(0)), cst(0.0))
		for i := 0; i < n; i++ {
			e := eq(fld(key(i)), cst(float64(i)))
			l = append(l, e)
			nest = []func(...g.Expression) g.Expression{and, or}[i%2](nest, e)
			loops = append(loops, anyIn(g.VariableID(i+1), fld("arr"), eq(vfld(g.VariableID(i+1), "k"), cst(float64(i)))))
		}
		run("AND of n", docs, and(l...))
		run("OR of n", docs, or(l...))
		run("n nested", docs, nest)
		run("n expressions", docs, l...)
		arr := func(at int) *Val {
			return vObj("arr", listed(n, func(i int) *Val {
				if i == at {
					return vObj("k", num(-1))
				}
				return vObj("k", num(i), "j", num(0))
			}), "b", num(at))
		}
		ad := both(arr(-1), vObj("arr", vArr(), "b", num(0)))
		for _, s := range spots(n) {
			ad = append(ad, both(arr(s))...)
		}
		run("ANY over n", ad, anyIn(1, fld("arr"), eq(vfld(1, "k"), cst(-1.0))))
		run("ANY over n and a field", ad, anyIn(1, fld("arr"), eq(vfld(1, "k"), fld("b"))))
		run("n times ANY", ad, loops...)
		run("AND of n times ANY", ad, and(loops...))
		path := rep("a", n)
		run("path of n", both(wrapObj(num(1), path...), wrapObj(num(2), path...)), eq(fld(path...), cst(1.0)))
		for _, ch := range []string{"x", "é", "\"", "\U0001F600"} {
			t := strings.Repeat(ch, n)
			run("text of n", both(vObj("s", vStr(t)), vObj("s", vStr(t+ch)), vObj("s", vStr("y"+t))), eq(fld("s"), cst(t)), lt(fld("s"), cst(t)), ge(fld("s"), cst(t)))
		}
	}
}

// c18Series reads what the other series consist of.
func c18Series(c *Ctx) {
	for _, n := range seriesSizes(c.Thorough) {
		series(n, func(s sized) {
			v := toJSON(s.x)
			if v == nil || !noNil(v) {
				return
			}
			c.Do(func() string { return fmt.Sprintf("series %s, n = %d", s.name, s.n) }, func() string {
				for _, l := range []layout{{}, {ws: " \n", strEsc: escMixed}} {
					if m := checkRead(c, v, l); m != "" {
						return m
					}
				}
				c.Trace()
				c.NonTrivial()
				return ""
			})
		})
	}
}

// c19Series removes from objects with n members, members n deep, texts of n characters.
func c19Series(c *Ctx) {
	r := strings.Repeat
	for _, n := range seriesSizes(c.Thorough) {
		n := n
		var members, same []string
		for i := 0; i < n; i++ {
			members = append(members, fmt.Sprintf(`"k%d":%s`, i, []string{`1`, `"a"`, `{"k0":1,"x":2}`, `[{"k1":[]},"k2"]`, `null`}[i%5]))
			same = append(same, `"k0":`+[]string{`1`, `"a"`, `{"x":1}`}[i%3])
		}
		var even, odd, all []string
		for i := 0; i < n; i++ {
			all = append(all, key(i))
			if i%2 == 0 {
				even = append(even, key(i))
			} else {
				odd = append(odd, key(i))
			}
		}
		lists := [][]string{all, even, odd, {"zz"}, {"a", "x"}}
		for _, s := range spots(n) {
			lists = append(lists, []string{key(s)}, all[:s], all[s:], append(append([]string{}, all[s:]...), all[:s]...))
		}
		texts := []string{
			"{" + strings.Join(members, ",") + "}", "{" + strings.Join(members, " , ") + "\n}", "{" + strings.Join(same, ",") + "}", `{"y":0,` + strings.Join(same, ",") + "}",
			`{"k0":` + r("[", n) + r("]", n) + `,"y":1}`, `{"y":` + r(`{"k0":1,"z":`, n) + "1" + r("}", n) + `}`, `{"y":` + r(`{"z":`, n) + `{"k0":1}` + r(`,"k0":[2]}`, n) + `}`, `{"y":` + r(`[{"k0":1},`, n) + "1" + r("]", n) + `,"k0":0}`,
			`{"k0":"` + r("x", n) + `","` + r("x", n) + `":1}`, `{"k0":"` + r(`\\`, n) + `","y":"` + r(`\"`, n) + `"}`, `{"y":"` + r("é", n) + `","k0":` + r("7", n) + `}`, "{" + r(" ", n) + `"k0"` + r("\n", n) + ":" + r(" ", n) + "1" + r("\t", n) + "," + r(" ", n) + `"y":2` + r(" ", n) + "}",
			`{"` + r("k", n) + `":1,"k0":` + r(`{"a":`, n) + "1" + r("}", n) + `,"` + r("k", n+1) + `":2}`,
		}
		lists = append(lists, []string{r("k", n)}, []string{r("k", n+1)}, []string{"k0", r("x", n)})
		for ti, t := range texts {
			t := t
			c.Do(func() string { return fmt.Sprintf("series %d, n = %d", ti, n) }, func() string {
				node := rawParse([]byte(t))
				if node == nil {
					return "the harness made a bad object"
				}
				for ki, keys := range lists {
					w := wantRemoval(node, keys)
					c.State(t, strings.Join(keys, "\x00"))
					for si, s := range []int{len(w.out), len(w.out) - 1, len(t), -1, len(w.out) / 2} {
						for mode := 0; mode < 3; mode++ {
							if si > 0 && mode != (ki+si)%3 {
								continue
							}
							if m := checkRemoval(c, t, keys, w, s, mode); m != "" {
								return m
							}
						}
					}
				}
				c.Trace()
				c.NonTrivial()
				c.Outcome("series")
				return ""
			})
		}
	}
}

// textSeries are formulas of n parts with their tokens; not says whether there is a NOT, chain is AND/OR from left to
// right without precedence.
func textSeries(n int, eqTok string, chain bool, f func(name string, toks []string, x g.Expression, docs []docText)) {
	num := func(i int) *Val { return vInt(int64(i)) }
	docs := both(keyed(n, num), keyed(n, func(i int) *Val { return num(i + 1) }), vObj())
	for _, s := range spots(n) {
		s := s
		docs = append(docs, both(keyed(n, func(i int) *Val {
			if i == s {
				return num(i + 1)
			}
			return num(i)
		}), keyed(n, func(i int) *Val {
			if i == s {
				return num(i)
			}
			return num(i + 1)
		}))...)
	}
	for every := 0; every <= 5; every++ {
		// OR before every every-th condition; 0: only AND, 1: only OR
		var toks []string
		var groups []g.Expression
		var group []g.Expression
		var left g.Expression
		for i := 0; i < n; i++ {
			e := eq(fld(key(i)), cst(i))
			isOr := every > 0 && i%every == 0
			if i == 0 {
				left = e
			} else {
				if isOr {
					toks = append(toks, "OR")
					left = or(left, e)
					groups, group = append(groups, and(group...)), nil
				} else {
					toks = append(toks, "AND")
					left = and(left, e)
				}
			}
			group = append(group, e)
			toks = append(toks, key(i), eqTok, fmt.Sprint(i))
		}
		x := or(append(groups, and(group...))...)
		if chain {
			x = left
		}
		f(fmt.Sprintf("n conditions, OR before every %d", every), toks, x, docs)
	}
	path := rep("a", n)
	deep := both(wrapObj(num(1), path...), wrapObj(num(2), path...), wrapObj(num(1), path[1:]...), wrapObj(num(1), append(path[1:n:n], "a", "a")...))
	f("path of n", []string{strings.Join(path, "."), eqTok, "1"}, eq(fld(path...), cst(1)), deep)
	arr := both(vObj("a", listed(n, num)), vObj("a", listed(n+1, num)), vObj("a", listed(n+2, func(i int) *Val { return num(i + 1) })))
	f("index n", []string{fmt.Sprintf("a[%d]", n), eqTok, fmt.Sprint(n)}, eq(fld("a", fmt.Sprintf("[%d]", n)), cst(n)), arr)
	nested := func(v *Val) *Val {
		for i := 0; i < n; i++ {
			v = vArr(v)
		}
		return vObj("a", v)
	}
	f("n indexes", []string{"a" + strings.Repeat("[0]", n), eqTok, "1"}, eq(fld(append([]string{"a"}, rep("[0]", n)...)...), cst(1)), both(nested(num(1)), nested(num(2)), nested(vArr(num(1)))))
	name := strings.Repeat("n", n)
	f("name of n", []string{name, eqTok, "1"}, eq(fld(name), cst(1)), both(vObj(name, num(1)), vObj(name+"n", num(1)), vObj(name[1:], num(1), name, num(2))))
	f("quoted name of n", []string{"`" + strings.Repeat("é", n) + "`", eqTok, "1"}, eq(fld(strings.Repeat("é", n)), cst(1)), both(vObj(strings.Repeat("é", n), num(1)), vObj(strings.Repeat("é", n+1), num(1))))
	for _, ch := range []string{"x", "é", "\U0001F600"} {
		t := strings.Repeat(ch, n)
		f("text of n", []string{"s", eqTok, `"` + t + `"`}, eq(fld("s"), cst(t)), both(vObj("s", vStr(t)), vObj("s", vStr(t+ch)), vObj("s", vStr(t[len(ch):])), vObj("s", vStr(""))))
		if n == 1 && !chain {
			continue // the filter grammar has it that a single character in single quotes is a name
		}
		f("text of n, quoted otherwise", []string{"s", "!=", `'` + t + `'`}, ne(fld("s"), cst(t)), both(vObj("s", vStr(t)), vObj("s", vStr(t+ch)), vObj("s", vStr("")), vObj("t", num(1))))
	}
	abs := g.Expression(fld("a"))
	for i := 0; i < n; i++ {
		abs = fn(g.MathFuncAbs, abs)
	}
	f("n functions", []string{strings.Repeat("ABS(", n) + "a" + strings.Repeat(")", n), eqTok, "2"}, eq(abs, cst(2)), both(vObj("a", num(2)), vObj("a", num(-2)), vObj("a", num(1)), vObj()))
}

func c15Series(c *Ctx, one func(t feText, mode int, docs []docText)) {
	for _, n := range seriesSizes(c.Thorough) {
		i := 0
		do := func(toks []string, x g.Expression, docs []docText) {
			i++
			one(feText{toks, x}, (i+n)%4, docs)
		}
		textSeries(n, "=", false, func(name string, toks []string, x g.Expression, docs []docText) {
			do(toks, x, docs)
			if n > 17 && name == "n functions" {
				return
			}
			// AND binds tighter: the same in parentheses, and another one behind
			if n <= 40 {
				p := append(append(append(rep("(", n), toks...), rep(")", n)...), "AND", "z", "=", "1")
				do(p, and(x, eq(fld("z"), cst(1))), append(both(vObj("z", vInt(1), "k0", vInt(0))), docs...))
			}
		})
		docs := both(vObj("a", vInt(1), "b", vInt(int64(n))), vObj("a", vInt(int64(n)), "b", vInt(1)), vObj("a", vInt(int64(1-n))), vObj("b", vInt(1)))
		x := eq(fld("a"), cst(1))
		toks := []string{"a"}
		var l g.Expression = fld("a")
		for k := 0; k < n; k++ {
			toks = append(toks, []string{"+", "-", "+", "+"}[k%4], fmt.Sprint(k%3))
			l = fn([]string{g.MathFuncAdd, g.MathFuncSub, g.MathFuncAdd, g.MathFuncAdd}[k%4], l, cst(k%3))
		}
		do(append(toks, "<", "b"), lt(l, fld("b")), docs)
		if n <= 2 {
			do(append(rep("NOT", n), "a", "=", "1"), map[bool]g.Expression{true: not(x), false: x}[n%2 == 1], docs)
		}
	}
}

func c17Series(c *Ctx) {
	for _, n := range seriesSizes(c.Thorough) {
		textSeries(n, "==", true, func(name string, toks []string, x g.Expression, docs []docText) {
			for mode := 0; mode < 4; mode++ {
				mode := mode
				for form := 0; form < 3; form++ {
					t, y := toks, x
					if form > 0 && n > 40 {
						continue
					}
					switch form {
					case 1:
						t = append(append(rep("(", n), toks...), rep(")", n)...)
					case 2:
						t = append(append([]string{"z", "==", "1", "&&"}, append(rep("(", n), toks...)...), rep(")", n)...)
						y = and(eq(fld("z"), cst(1)), x)
					}
					text := spText(t, mode)
					c.Do(func() string { return fmt.Sprintf("series %s, n = %d, form %d: %.60s", name, n, form, text) }, func() string {
						e, err, msg := spParse(text)
						if msg != "" {
							return fmt.Sprintf("%q: %s", text, msg)
						}
						c.State(text)
						if err != nil {
							if form == 0 && mode == 0 {
								return fmt.Sprintf("%q: error %v", text, err)
							}
							c.Outcome("formula refused")
							return ""
						}
						cm := compile(e)
						for _, d := range docs {
							want, known, _ := meaning(y, d.v)
							cm.m.Reset()
							c.Trans(1)
							if o := cm.run(d.text, 1); known && (o.err || o.match != want) {
								return fmt.Sprintf("%q on %s: %v, should be %v", text, d.text, o, want)
							}
						}
						c.Trace()
						c.NonTrivial()
						c.Outcome("formula accepted")
						return ""
					})
				}
			}
		})
	}
}

func cut(s string) string {
	if len(s) <= 3000 {
		return s
	}
	return fmt.Sprintf("%s… (%d bytes) …%s", s[:1500], len(s)-3000, s[len(s)-1500:])
}
