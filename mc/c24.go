package main

import (
	"fmt"
	"strings"

	g "github.com/couchbaselabs/gojsonsm"
)

// pat is a pattern with its own matcher, which does not use the regexp package.
type pat struct {
	text string
	prec int // 0 alternative, 1 sequence, 2 repeated or single
	ends func(s []rune, i int) uint64
}

func each(set uint64, f func(i int)) {
	for i := 0; set != 0; i++ {
		if set&1 == 1 {
			f(i)
		}
		set >>= 1
	}
}

func patOne(text string, ok func(r rune) bool) pat {
	return pat{text, 2, func(s []rune, i int) uint64 {
		if i < len(s) && ok(s[i]) {
			return 1 << (i + 1)
		}
		return 0
	}}
}

func patAt(text string, ok func(s []rune, i int) bool) pat {
	return pat{text, 2, func(s []rune, i int) uint64 {
		if ok(s, i) {
			return 1 << i
		}
		return 0
	}}
}

func (p pat) in(prec int) string {
	if p.prec < prec {
		return "(?:" + p.text + ")"
	}
	return p.text
}

func patSeq(a, b pat) pat {
	return pat{a.in(1) + b.in(1), 1, func(s []rune, i int) (out uint64) {
		each(a.ends(s, i), func(j int) { out |= b.ends(s, j) })
		return
	}}
}

func patAlt(a, b pat) pat {
	return pat{a.text + "|" + b.text, 0, func(s []rune, i int) uint64 { return a.ends(s, i) | b.ends(s, i) }}
}

func patStar(a pat) pat {
	return pat{"(?:" + a.text + ")*", 2, func(s []rune, i int) uint64 {
		out := uint64(1) << i
		for {
			next := out
			each(out, func(j int) { next |= a.ends(s, j) })
			if next == out {
				return out
			}
			out = next
		}
	}}
}

func (p pat) contains(str string) bool {
	s := []rune(str)
	for i := 0; i <= len(s); i++ {
		if p.ends(s, i) != 0 {
			return true
		}
	}
	return false
}

func c24Atoms() []pat {
	is := func(x rune) func(rune) bool { return func(r rune) bool { return r == x } }
	return []pat{
		patOne("a", is('a')), patOne("é", is('é')), patOne(".", func(r rune) bool { return r != '\n' }),
		patOne("[^a]", func(r rune) bool { return r != 'a' }), patAt("^", func(s []rune, i int) bool { return i == 0 }), patAt("$", func(s []rune, i int) bool { return i == len(s) }),
		patOne(`\n`, is('\n')), patOne(`\\`, is('\\')), patOne(`"`, is('"')), patOne(`\x{1F600}`, is('😀')), patOne(`u`, is('u')), patOne(`[a-z]`, func(r rune) bool { return r >= 'a' && r <= 'z' }),
		patOne(`/`, is('/')), patOne(`\x00`, is(0)), patOne(`[[:^ascii:]]`, func(r rune) bool { return r > 127 }), patOne(`\d`, func(r rune) bool { return r >= '0' && r <= '9' }),
	}
}

// patterns: every pattern of up to n parts
func patterns(atoms []pat, n int) [][]pat {
	by := [][]pat{nil, atoms}
	for k := 2; k <= n; k++ {
		var out []pat
		for _, a := range by[k-1] {
			out = append(out, patStar(a))
		}
		for i := 1; i < k; i++ {
			for _, a := range by[i] {
				for _, b := range by[k-i] {
					out = append(out, patSeq(a, b), patAlt(a, b))
				}
			}
		}
		by = append(by, out)
	}
	return by
}

func init() {
	register(&Check{
		ID:    "C24",
		Rule:  "case = one pattern; it is matched against every string in every spelling, against values of other types and against missing fields, in plain, negated, nested and loop position, and compared with a matcher of its own over the decoded characters; non-trivial: the pattern matches some strings and not others; states = distinct (pattern, document)",
		Assum: []string{"patterns made of characters, classes, . ^ $ * | and groups; strings are sequences of whole characters"},
		Bound: func(t string) string {
			if t == "thorough" {
				return "all patterns of up to 2 parts of 16 and of up to 4 parts of 5; all strings of up to 3 of 10 characters in all their spellings; long strings around 8 sizes; all ordered pairs of 79 patterns that look alike, compiled one after another and together, on 48 strings; 300 and 1100 (thorough: 5000) patterns in one process"
			}
			return "all patterns of up to 2 parts of 16 and of up to 3 parts of 5; all strings of up to 2 of 10 characters in all their spellings, and of 3 in 3 spellings; long strings around 8 sizes; all ordered pairs of 79 patterns that look alike, compiled one after another and together, on 48 strings; 300 and 1100 (thorough: 5000) patterns in one process"
		},
		Run: func(c *Ctx) {
			runes := []rune{'a', 'é', '\n', '"', '\\', '😀', 'u', '/', 0, '0'}
			type spelled struct {
				s     string
				texts []string
			}
			var strs []spelled
			level := []string{""}
			for n := 0; n <= 3; n++ {
				for _, s := range level {
					sp := spelled{s: s}
					if n < 3 || c.Thorough {
						stringSpellings(s, func(t string) { sp.texts = append(sp.texts, t) })
					} else {
						for _, mode := range []int{escMin, escUni, escMixed} {
							t := encStr(s, mode)
							sp.texts = append(sp.texts, t[1:len(t)-1])
						}
					}
					strs = append(strs, sp)
				}
				var next []string
				for _, s := range level {
					for _, r := range runes {
						next = append(next, s+string(r))
					}
				}
				level = next
			}
			others := []string{"1", "-1.5e3", "true", "false", "null", "[]", `["a"]`, "{}", `{"s":"a"}`}
			one := func(p pat) {
				c.Do(func() string { return "pattern " + p.text }, func() string {
					like := func(f g.FieldExpr) g.Expression {
						return g.LikeExpr{Lhs: f, Rhs: g.RegexExpr{Regex: p.text}}
					}
					plain, neg := compile(like(fld("s"))), compile(not(like(fld("s"))))
					nested := compile(or(like(fld("o", "[1]", "s")), like(fld("q"))))
					loop, every := compile(anyIn(1, fld("l"), like(vfld(1)))), compile(everyIn(1, fld("l"), like(vfld(1, "s"))))
					ask := func(cm *compiled, what, doc string, want bool, flags int) string {
						c.Trans(1)
						c.State(p.text, doc)
						cm.m.Reset()
						o := cm.run([]byte(doc), 1)
						if o.err || o.match != want || (o.each == "1") != want || o.flags != flags {
							return fmt.Sprintf("pattern %q, %s, on %s: got %v, should be %v with flags %d", p.text, what, doc, o, want, flags)
						}
						return ""
					}
					yes, no := false, false
					var prev, prevText = false, ""
					for i, sp := range strs {
						w := p.contains(sp.s)
						if w {
							yes = true
						} else {
							no = true
						}
						for j, t := range sp.texts {
							if m := ask(plain, "plain", `{"s":"`+t+`"}`, w, 0); m != "" {
								return m
							}
							if j == 0 || (i+j)%3 == 0 {
								if m := ask(neg, "negated", `{"x":"a","s" : "`+t+`" }`, !w, 0); m != "" {
									return m
								}
								if m := ask(nested, "nested", `{"o":[{"s":"a"},{"r":"a","s":"`+t+`"}]}`, w, 0); m != "" {
									return m
								}
								if i > 0 {
									if m := ask(loop, "in ANY", `{"l":["`+t+`","`+prevText+`"]}`, w || prev, 0); m != "" {
										return m
									}
									if m := ask(every, "in EVERY", `{"l":[{"s":"`+prevText+`"},{"s":"`+t+`"}]}`, w && prev, 0); m != "" {
										return m
									}
								}
							}
						}
						prev, prevText = w, sp.texts[len(sp.texts)-1]
					}
					for _, o := range others {
						if m := ask(plain, "plain", `{"s":`+o+`}`, false, g.MatcherCollateUsed); m != "" {
							return m
						}
						if m := ask(neg, "negated", `{"s":`+o+`}`, true, g.MatcherCollateUsed); m != "" {
							return m
						}
					}
					for _, d := range []string{"{}", `{"t":"a","o":{"s":"aé"}}`} {
						if m := ask(plain, "plain", d, false, 0); m != "" {
							return m
						}
						if m := ask(neg, "negated", d, true, 0); m != "" {
							return m
						}
					}
					c.Trace()
					if yes && no {
						c.NonTrivial()
						c.Outcome("selective")
					} else {
						c.Outcome("all or nothing")
					}
					return ""
				})
			}
			atoms := c24Atoms()
			for _, l := range patterns(atoms, 2) {
				for _, p := range l {
					one(p)
				}
			}
			n := 3
			if c.Thorough {
				n = 4
			}
			for k, l := range patterns([]pat{atoms[0], atoms[1], atoms[2], atoms[4], atoms[5]}, n) {
				for _, p := range l {
					if k > 2 {
						one(p)
					}
				}
			}
			c24Twins(c)
			// long strings: the end must be seen
			for _, n := range []int{15, 31, 32, 63, 64, 127, 255, 1023, 1024, 4096, 65536} {
				for d := -1; d <= 1; d++ {
					n := n + d
					c.Do(func() string { return fmt.Sprintf("strings of %d characters", n) }, func() string {
						c.NonTrivial()
						c.Trace()
						c.Outcome("long")
						end := compile(g.LikeExpr{Lhs: fld("s"), Rhs: g.RegexExpr{Regex: `^x+é"$`}})
						bad := compile(g.LikeExpr{Lhs: fld("s"), Rhs: g.RegexExpr{Regex: `^x+$`}})
						short := compile(not(g.LikeExpr{Lhs: fld("s"), Rhs: g.RegexExpr{Regex: `^x+é"y$`}}))
						for _, mode := range []int{escMin, escUni, escMixed} {
							doc := []byte(`{"s":` + encStr(strings.Repeat("x", n)+`é"`, mode) + `,"t":1}`)
							for i, cm := range []*compiled{end, bad, short} {
								cm.m.Reset()
								c.Trans(1)
								c.State(fmt.Sprint(n, mode, i))
								if o := cm.run(doc, 1); o.err || o.match != (i != 1) {
									return fmt.Sprintf("%d characters, spelling %d, pattern %d: got %v", n, mode, i, o)
								}
							}
						}
						return ""
					})
				}
			}
		},
	})
}
