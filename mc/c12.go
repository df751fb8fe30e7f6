package main

import (
	"fmt"
	"strings"

	g "github.com/couchbaselabs/gojsonsm"
)

var specialRunes = []rune{'a', 'b', 'A', '"', '\\', '/', '\b', '\f', '\n', '\r', '\t', 0x00, 0x01, 0x1f, 0x7f, ' ', 'u', 'n', '0', 'é', 'ÿ', 'Ā', '߿', 'ࠀ', '€', 0x2028, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, '𝄞', '😀', 0x10ffff}

// runeSpellings returns every way of writing a character in a JSON string.
func runeSpellings(r rune) []string {
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	add(encRune(r, escMin, 0))
	if s, ok := shortEsc[r]; ok {
		add(s)
	}
	if r == '/' {
		add(`\/`)
	}
	add(encRune(r, escUni, 0))
	add(encRune(r, escUpper, 0))
	if r >= 0x10000 {
		// first half in lower, second in upper case
		lo, up := encRune(r, escUni, 0), encRune(r, escUpper, 0)
		add(lo[:6] + up[6:])
	}
	return out
}

// stringSpellings calls f with every way of writing s (without the quotes).
func stringSpellings(s string, f func(text string)) {
	var sp [][]string
	for _, r := range s {
		sp = append(sp, runeSpellings(r))
	}
	var rec func(i int, pre string)
	rec = func(i int, pre string) {
		if i == len(sp) {
			f(pre)
			return
		}
		for _, x := range sp[i] {
			rec(i+1, pre+x)
		}
	}
	rec(0, "")
}

func specialStrings(n int) []string {
	out := []string{""}
	level := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, s := range level {
			for _, r := range specialRunes {
				next = append(next, s+string(r))
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

func init() {
	register(&Check{
		ID:    "C12",
		Rule:  "case = one string as constant (or as document member, or as field name) against all strings in all spellings; equality and order compared with those of the decoded characters; non-trivial: all; states = distinct (constant, document text), for field names distinct texts",
		Assum: []string{"unpaired surrogate escapes denote no character and are left out", "strings are ordered by their UTF-8 bytes"},
		Bound: func(t string) string {
			s := fmt.Sprintf("all strings of up to 2 of %d characters (every escape class, boundaries of the UTF-8 lengths, surrogate pairs) in all spellings as values and field names; all pairs of them as document members in 4 spellings; strings of 55 to 140 characters with an escape at each position; every character of Unicode (but the surrogates) in all its spellings, as a value, as a name and in the middle of both; 12 characters repeated up to 65537 times; up to 70 names and strings that look alike (or like the spelling of others) asked for together, in 4 spellings", len(specialRunes))
			if t == "thorough" {
				s += "; all strings of 3 of them in all spellings against themselves and their neighbours"
			}
			return s
		},
		Run: func(c *Ctx) {
			manyNames(c)
			strs := specialStrings(2)
			var keyable []string
			for _, s := range strs {
				if !strings.HasPrefix(s, "[") {
					keyable = append(keyable, s)
				}
			}
			want := func(o outcome, w bool, flags int) bool { return !o.err && o.match == w && o.flags == flags }
			c12All(c)
			// constants against every spelling of every string
			for _, s := range strs {
				s := s
				c.Do(func() string { return fmt.Sprintf("constant %q", s) }, func() string {
					eqm, ltm, lem := compile(eq(fld("x"), cst(s))), compile(lt(fld("x"), cst(s))), compile(le(cst(s), fld("x")))
					for _, d := range strs {
						cmp := strings.Compare(d, s)
						msg := ""
						stringSpellings(d, func(text string) {
							if msg != "" {
								return
							}
							doc := []byte(`{"x":"` + text + `"}`)
							c.StateHash(hashString(s+"\xff") ^ hashString(text))
							c.Trans(1)
							eqm.m.Reset()
							if o := eqm.run(doc, 1); !want(o, cmp == 0, 0) {
								msg = fmt.Sprintf("%s = %q should be %v: %v", doc, s, cmp == 0, o)
								return
							}
							if len(text) > 14 {
								return
							}
							c.Trans(2)
							ltm.m.Reset()
							lem.m.Reset()
							if o := ltm.run(doc, 1); !want(o, cmp < 0, 0) {
								msg = fmt.Sprintf("%s < %q should be %v: %v", doc, s, cmp < 0, o)
							} else if o := lem.run(doc, 1); !want(o, cmp >= 0, 0) {
								msg = fmt.Sprintf("%q <= %s should be %v: %v", s, doc, cmp >= 0, o)
							}
						})
						if msg != "" {
							return msg
						}
					}
					c.NonTrivial()
					c.Trace()
					c.Outcome("value")
					return ""
				})
			}
			// two members of the document
			modes := []int{escMin, escUni, escMixed, escUpper}
			for _, s := range strs {
				s := s
				c.Do(func() string { return fmt.Sprintf("member %q with every other", s) }, func() string {
					var cm [6]*compiled
					for i, op := range cmpOps {
						cm[i] = compile(op.mk(fld("x"), fld("y")))
					}
					for j, d := range strs {
						cmp := strings.Compare(s, d)
						for k := 0; k < 4; k++ {
							m1, m2 := modes[k], modes[(k*3+j)%4]
							doc := []byte(`{"x":` + encStr(s, m1) + `,"y":` + encStr(d, m2) + `}`)
							if (k+j)%2 == 1 {
								doc = []byte(`{"y":` + encStr(d, m2) + `,"x":` + encStr(s, m1) + `}`)
							}
							c.StateHash(hashString(string(doc)))
							for i, op := range cmpOps {
								if k > 0 && i != k && i != 0 {
									continue
								}
								c.Trans(1)
								cm[i].m.Reset()
								if o := cm[i].run(doc, 1); !want(o, op.of(cmp, cmp == 0), 0) {
									return fmt.Sprintf("x %s y on %s: %v", op.name, doc, o)
								}
							}
						}
					}
					c.NonTrivial()
					c.Trace()
					c.Outcome("members")
					return ""
				})
			}
			// field names
			for _, s := range keyable {
				s := s
				c.Do(func() string { return fmt.Sprintf("field name %q", s) }, func() string {
					var e1, e2 g.Expression = eq(fld(s), cst(1)), exists(fld("o", s))
					top, nested := compile(e1), compile(e2)
					for _, d := range keyable {
						msg := ""
						stringSpellings(d, func(text string) {
							if msg != "" {
								return
							}
							doc := []byte(`{"q":1,"` + text + `":1,"q2":2}`)
							c.StateHash(hashString("\xfe") ^ hashString(text))
							c.Trans(2)
							top.m.Reset()
							nested.m.Reset()
							if o := top.run(doc, 1); !want(o, s == d, 0) {
								msg = fmt.Sprintf("field %q = 1 on %s should be %v: %v", s, doc, s == d, o)
								return
							}
							doc = []byte(`{"o":{"` + text + `":null}}`)
							if o := nested.run(doc, 1); !want(o, s == d, 0) {
								msg = fmt.Sprintf("field o, %q exists on %s should be %v: %v", s, doc, s == d, o)
							}
						})
						if msg != "" {
							return msg
						}
					}
					c.NonTrivial()
					c.Trace()
					c.Outcome("field name")
					return ""
				})
			}
			doSeries(c, "text")
			// long strings: around and beyond any fixed buffer
			var lens []int
			for n := 55; n <= 70; n++ {
				lens = append(lens, n)
			}
			lens = append(lens, 127, 128, 129, 140)
			if c.Thorough {
				for n := 71; n <= 140; n++ {
					lens = append(lens, n)
				}
			}
			for _, n := range lens {
				for _, r := range []rune{'"', '\n', 'é', '€', '😀', '/'} {
					n, r := n, r
					c.Do(func() string { return fmt.Sprintf("strings of length %d with %q", n, r) }, func() string {
						for p := 0; p < n; p++ {
							s := strings.Repeat("a", p) + string(r) + strings.Repeat("b", n-p-1)
							other := s[:len(s)-1] + "c"
							shorter := s[:len(s)-1]
							if p == n-1 {
								other, shorter = strings.Repeat("a", p)+"a", strings.Repeat("a", p)
							}
							m := compile(eq(fld("x"), cst(s)))
							k := compile(eq(fld("x"), fld("y")))
							l := compile(lt(fld("x"), fld("y")))
							key := compile(exists(fld(s)))
							for _, sp := range runeSpellings(r) {
								text := strings.Repeat("a", p) + sp + strings.Repeat("b", n-p-1)
								all := strings.Repeat(`\u0061`, p) + sp + strings.Repeat("b", n-p-1)
								for _, t := range []string{text, all} {
									c.StateHash(hashString(t))
									c.Trans(8)
									for _, x := range []struct {
										cm   *compiled
										doc  string
										want bool
									}{
										{m, `{"x":"` + t + `"}`, true},
										{m, `{"x":` + encStr(other, escMin) + `}`, false},
										{m, `{"x":` + encStr(shorter, escMixed) + `}`, false},
										{k, `{"x":"` + t + `","y":` + encStr(s, escUni) + `}`, true},
										{k, `{"y":"` + t + `","x":` + encStr(other, escUni) + `}`, false},
										{k, `{"x":"` + t + `","y":` + encStr(shorter, escUni) + `}`, false},
										{l, `{"x":"` + t + `","y":` + encStr(other, escUni) + `}`, strings.Compare(s, other) < 0},
										{l, `{"y":"` + t + `","x":` + encStr(shorter, escMixed) + `}`, strings.Compare(shorter, s) < 0},
										{key, `{"` + t + `":1}`, true},
										{key, `{` + encStr(other, escUni) + `:1}`, false},
									} {
										x.cm.m.Reset()
										if o := x.cm.run([]byte(x.doc), 1); !want(o, x.want, 0) {
											return fmt.Sprintf("%s should be %v: %v", x.doc, x.want, o)
										}
									}
								}
							}
						}
						c.NonTrivial()
						c.Trace()
						c.Outcome("long")
						return ""
					})
				}
			}
			if !c.Thorough {
				return
			}
			for _, a := range specialRunes {
				for _, b := range specialRunes {
					a, b := a, b
					c.Do(func() string { return fmt.Sprintf("strings of three beginning with %q", string(a)+string(b)) }, func() string {
						for i, x := range specialRunes {
							s := string(a) + string(b) + string(x)
							n := string(a) + string(b) + string(specialRunes[(i+1)%len(specialRunes)])
							m, l := compile(eq(fld("x"), cst(s))), compile(lt(fld("x"), cst(s)))
							for _, d := range []string{s, n, s[:len(s)-len(string(x))]} {
								msg := ""
								cmp := strings.Compare(d, s)
								stringSpellings(d, func(text string) {
									doc := []byte(`{"x":"` + text + `"}`)
									c.Trans(2)
									c.StateHash(hashString(s+"\xff") ^ hashString(text))
									m.m.Reset()
									l.m.Reset()
									if o := m.run(doc, 1); !want(o, cmp == 0, 0) {
										msg = fmt.Sprintf("%s = %q should be %v: %v", doc, s, cmp == 0, o)
									} else if o := l.run(doc, 1); !want(o, cmp < 0, 0) {
										msg = fmt.Sprintf("%s < %q should be %v: %v", doc, s, cmp < 0, o)
									}
								})
								if msg != "" {
									return msg
								}
							}
						}
						c.NonTrivial()
						c.Trace()
						c.Outcome("value")
						return ""
					})
				}
			}
		},
	})
}
