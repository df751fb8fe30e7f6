package main

import (
	"encoding/json"
	"fmt"
	"runtime/debug"
	"strings"

	g "github.com/couchbaselabs/gojsonsm"
)

var c14Symbols = []string{"{", "}", "[", "]", ":", ",", `"a"`, `"b"`, `"x"`, "1", "-1.5e0", "true", "null", `"`, `\`, "-", "1e", "tru", `"\u00`, `"\u0061"`, " ", "\xff", "\x00"}

func c14Exprs() []g.Expression {
	f, v := fld, vfld
	return []g.Expression{
		exists(f("zz")), // never decided before the end
		eq(f("a"), cst(1)),
		eq(f("a", "b"), cst("x")),
		anyIn(1, f("a"), eq(v(1, "b"), cst(1))),
		or(eq(f("a"), f("b")), and(lt(f("a", "a"), f("x")), exists(f("a", "b")))),
		and(eq(f("a", "[0]"), cst(true)), notExists(f("b"))),
		everyIn(1, f("a"), anyIn(2, v(1), gt(v(2), f("b")))),
		g.LikeExpr{Lhs: f("a"), Rhs: g.RegexExpr{Regex: "x"}},
		or(eq(fn(g.MathFuncAdd, f("a"), f("b")), cst(2)), eq(fn(g.DateFunc, f("b")), g.TimeExpr{Time: "2020-01-01"})),
	}
}

// c14M is a matcher that is driven over documents; every failure is reported with the document.
type c14M struct {
	cm       *compiled
	name     string
	n        int
	noVerd   bool // cannot be decided before the end of the document
	good     []byte
	goodWant outcome
}

func newC14M(name string, exprs ...g.Expression) *c14M {
	m := &c14M{cm: compile(exprs...), name: name, n: len(exprs)}
	m.good = []byte(`{"b":[2,{"a":1}],"a":[[1,3],{"b":1}],"x":"x"}`)
	m.goodWant = compile(exprs...).run(m.good, m.n)
	return m
}

func (m *c14M) run(doc []byte) (o outcome, msg string) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			msg = fmt.Sprintf("%s on %q: panic: %v", m.name, doc, r)
			for _, l := range strings.Split(st, "\n") {
				if strings.HasPrefix(l, "github.com/couchbaselabs/gojsonsm.") {
					msg += " in " + l
					break
				}
			}
			m.cm = &compiled{m.cm.def, g.NewFastMatcher(m.cm.def)}
		}
	}()
	m.cm.m.Reset()
	return m.cm.run(doc, m.n), ""
}

// cutOff says that the document is a well-formed beginning after which the bytes end, or stop
// being tokens, before its value is complete.
func cutOff(doc []byte) bool {
	const (
		value      = iota // a value has to follow
		firstValue        // a value or the end of the array
		firstKey          // a key or the end of the object
		key
		colon
		after // a comma or the end
	)
	var stack []byte
	state := value
	p := 0
	for {
		t, ok := lexNext(doc, p)
		if !ok || t.kind == '$' {
			return true
		}
		p = t.end
		closing := t.kind == '}' || t.kind == ']'
		switch {
		case closing && (state == after || state == firstKey && t.kind == '}' || state == firstValue && t.kind == ']'):
			if len(stack) == 0 || stack[len(stack)-1] != t.kind {
				return false
			}
			stack = stack[:len(stack)-1]
			state = after
		case (state == key || state == firstKey) && (t.kind == 's' || t.kind == 'e'):
			state = colon
		case state == colon && t.kind == ':':
			state = value
		case state == after && t.kind == ',':
			state = value
			if stack[len(stack)-1] == '}' {
				state = key
			}
		case state == value || state == firstValue:
			switch t.kind {
			case '{':
				stack = append(stack, '}')
				state = firstKey
			case '[':
				stack = append(stack, ']')
				state = firstValue
			case ':', ',', '}', ']':
				return false
			default:
				state = after
			}
		default:
			return false
		}
		if state == after && len(stack) == 0 {
			return false
		}
	}
}

func (m *c14M) check(c *Ctx, doc []byte, valid, cut, recover bool) string {
	c.Trans(1)
	o, msg := m.run(doc)
	if msg != "" {
		return msg
	}
	if valid && o.err {
		return fmt.Sprintf("%s: error on the well-formed document %q", m.name, doc)
	}
	if o.err && o.match {
		return fmt.Sprintf("%s: both an error and a match on %q", m.name, doc)
	}
	if cut && m.noVerd && !o.err && len(doc) > 0 {
		return fmt.Sprintf("%s: no error although the document ends early: %q", m.name, doc)
	}
	if recover {
		o, msg := m.run(m.good)
		if msg != "" {
			return fmt.Sprintf("after %q: %s", doc, msg)
		}
		if o != m.goodWant {
			return fmt.Sprintf("%s: after %q and a reset a good document gives %v instead of %v", m.name, doc, o, m.goodWant)
		}
	}
	return ""
}

func init() {
	register(&Check{
		ID:    "C14",
		Rule:  "case = all byte sequences with a common beginning, or all changes of one document; each is matched by matchers for every kind of condition: no panic, no error if it is valid JSON, an error if it breaks off before a condition that is still open, and a good document afterwards is matched as by a new matcher; non-trivial: all; states = distinct byte sequences",
		Assum: []string{"valid JSON is decided by encoding/json", "structural errors other than breaking off (missing or wrong brackets, commas, colons) may be tolerated"},
		Bound: func(t string) string {
			n, d, ls, ln := "5", "one place", 3, 5
			if t == "thorough" {
				n, d, ls, ln = "6", "one place, and every pair of a truncation and one other change", 5, 7
			}
			return fmt.Sprintf("all sequences of up to %s of %d symbols x 10 matchers; 16 documents changed in %s (each prefix and suffix; each byte deleted, replaced by or preceded by one of 24 bytes) x 44 expressions and all of them merged; contents of strings and names (all sequences of up to %d of 20 pieces: escapes, halves of surrogate pairs, broken escapes and bytes, long runs), numbers (up to %d of 10 pieces) and words in 5 places x 12 matchers; nesting of up to 1000000", n, len(c14Symbols), ls, ln, d)
		},
		Run: func(c *Ctx) {
			var ms []*c14M
			ex := c14Exprs()
			for _, e := range ex {
				ms = append(ms, newC14M(show(e), e))
			}
			ms[0].noVerd = true
			ms = append(ms, newC14M("all of them", ex...))
			ms[len(ms)-1].noVerd = true
			max := 5
			if c.Thorough {
				max = 6
			}
			for _, a := range append([]string{""}, c14Symbols...) {
				for _, b := range c14Symbols {
					a, b := a, b
					c.Do(func() string { return fmt.Sprintf("sequences from %q", a+b) }, func() string {
						buf := []byte(a + b)
						count := 0
						var rec func(n int) string
						rec = func(n int) string {
							count++
							c.StateHash(hashString(string(buf)))
							valid := json.Valid(buf)
							cut := cutOff(buf)
							for i, m := range ms {
								if n == max && i != count%len(ms) && !valid {
									if c.Thorough && i != (count+5)%len(ms) {
										continue
									} else if !c.Thorough && i > 3 && i != 4+count%6 {
										continue
									}
								}
								if s := m.check(c, buf, valid, cut, n < max-1 || (count+i)%16 == 0); s != "" {
									return s
								}
							}
							if n == max || a == "" {
								return ""
							}
							k := len(buf)
							for _, s := range c14Symbols {
								buf = append(buf[:k], s...)
								if s := rec(n + 1); s != "" {
									return s
								}
							}
							buf = buf[:k]
							return ""
						}
						c.NonTrivial()
						c.Trace()
						c.Outcome("sequence")
						return rec(2)
					})
				}
			}
			// changed documents
			bytesIn := []byte("{}[]:,\"\\-01.eEtfnu \n\x00\x1f\x80\xff")
			cex := corpusExprs()
			for di, d := range corpusDocs() {
				for ei := range append(cex, nil, nil) {
					d, ei := d, ei
					c.Do(func() string {
						if ei == len(cex) {
							return fmt.Sprintf("changes of document %d, all expressions", di)
						}
						if ei > len(cex) {
							return fmt.Sprintf("changes of document %d, exists zz", di)
						}
						return fmt.Sprintf("changes of document %d, %s", di, show(cex[ei]))
					}, func() string {
						var m *c14M
						if ei == len(cex) {
							m = newC14M("all expressions", cex...)
						} else if ei > len(cex) {
							m = newC14M("exists zz", exists(fld("zz")))
							m.noVerd = true
						} else {
							m = newC14M(show(cex[ei]), cex[ei])
						}
						text := d.String()
						count := 0
						try := func(s string) string {
							count++
							b := []byte(s)
							c.StateHash(hashString(s))
							return m.check(c, b, json.Valid(b), cutOff(b), count%4 == 0)
						}
						for i := 0; i <= len(text); i++ {
							for _, s := range []string{text[:i], text[i:], text[:i] + " ", text[:i] + "\xff"} {
								if msg := try(s); msg != "" {
									return msg
								}
							}
							for _, b := range bytesIn {
								if msg := try(text[:i] + string([]byte{b}) + text[i:]); msg != "" {
									return msg
								}
								if i < len(text) {
									if msg := try(text[:i] + string([]byte{b}) + text[i+1:]); msg != "" {
										return msg
									}
								}
							}
							if i < len(text) {
								if msg := try(text[:i] + text[i+1:]); msg != "" {
									return msg
								}
								for j := i + 2; j < len(text) && j < i+30; j++ {
									if msg := try(text[:i] + text[j:]); msg != "" {
										return msg
									}
								}
							}
							if c.Thorough {
								for j := 0; j < i; j++ {
									for _, b := range []byte("{}[]:,\"\\1 ") {
										if msg := try(text[:j] + string([]byte{b}) + text[j+1:i]); msg != "" {
											return msg
										}
									}
									if msg := try(text[:j] + text[j+1:i]); msg != "" {
										return msg
									}
								}
							}
						}
						c.NonTrivial()
						c.Trace()
						c.Outcome("changed document")
						return ""
					})
				}
			}
			// contents of literals
			lits := func(name string, atoms []string, max int, quote string) {
				for ai, a := range append([]string{""}, atoms...) {
					for bi := 0; bi < len(atoms); bi += 4 {
						a := a
						group := atoms[bi:min(bi+4, len(atoms))]
						if ai == 0 {
							if bi > 0 {
								continue
							}
							group = nil // the short ones
						}
						c.Do(func() string { return fmt.Sprintf("%s from %q and %q", name, a, group) }, func() string {
							var lm []*c14M
							for _, e := range c14LitExprs() {
								lm = append(lm, newC14M(show(e), e))
							}
							lm = append(lm, newC14M("all of them", c14LitExprs()...))
							count := 0
							one := func(body string) string {
								l := quote + body + quote
								count++
								c.State(name, body)
								docs := []string{`{"a":` + l + `,"b":` + l + `,"z":[` + l + `,{"k":` + l + `}]}`, `[` + l + `]`, l}
								if quote != "" {
									docs = append(docs, `{`+l+`:{`+l+`:1},"a":`+l+`}`, `{"a":"x`+body+`y",`+l+`:"b"}`)
								}
								for _, d := range docs {
									valid := json.Valid([]byte(d))
									for mi, m := range lm {
										if msg := m.check(c, []byte(d), valid, false, (count+mi)%16 == 0); msg != "" {
											return msg
										}
									}
								}
								return ""
							}
							if group == nil {
								if msg := one(""); msg != "" {
									return msg
								}
								for _, x := range atoms {
									if msg := one(x); msg != "" {
										return msg
									}
								}
							}
							var rec func(s string, n int) string
							rec = func(s string, n int) string {
								if msg := one(s); msg != "" || n == 0 {
									return msg
								}
								for _, x := range atoms {
									if msg := rec(s+x, n-1); msg != "" {
										return msg
									}
								}
								return ""
							}
							for _, x := range group {
								if msg := rec(a+x, max-2); msg != "" {
									return msg
								}
							}
							c.NonTrivial()
							c.Trace()
							c.Outcome("literals")
							return ""
						})
					}
				}
			}
			ls, ln := 4, 5
			if c.Thorough {
				ls, ln = 5, 7
			}
			lits("strings", []string{`\ud83d`, `\uDE00`, `\udbff`, `\u00e9`, `\u0000`, `\u12`, `\uzz00`, `\n`, `\"`, `\\`, `\q`, "x", "ab", "é", "\xff", "\xe2\x82", strings.Repeat("0123456789", 7), "2019-01-01", "1", "."}, ls, `"`)
			lits("numbers", []string{"-", "+", "0", "1", "9223372036854775807", ".", "e", "E", "x", "123456789012345678901"}, ln, "")
			lits("words", []string{"t", "true", "f", "false", "n", "null", "nul", "TRUE", "a", "-", "\x00"}, ls, "")
			// deep nesting
			for _, n := range []int{100, 10000, 1000000} {
				for mi := range ms {
					n, mi := n, mi
					c.Do(func() string { return fmt.Sprintf("nesting of %d, matcher %d", n, mi) }, func() string {
						m := ms[mi]
						open := strings.Repeat("[", n)
						shut := strings.Repeat("]", n)
						obj := strings.Repeat(`{"a":`, n)
						oshut := strings.Repeat("}", n)
						for _, t := range []struct {
							s     string
							valid bool
						}{{open + shut, true}, {`{"a":` + open + shut + "}", true}, {`{"q":` + open + shut + `,"a":1}`, true}, {obj + "1" + oshut, true}, {open, false}, {obj, false}, {`{"a":` + open + shut[1:] + "}", false}, {`{"q":` + obj, false}} {
							c.State(fmt.Sprint(n, len(t.s)))
							if s := m.check(c, []byte(t.s), t.valid, false, true); s != "" {
								if len(s) > 300 {
									s = s[:200] + "..." + s[len(s)-100:]
								}
								return s
							}
						}
						c.NonTrivial()
						c.Trace()
						c.Outcome("deep")
						return ""
					})
				}
			}
		},
	})
}

// c14LitExprs look at one value in every way there is.
func c14LitExprs() []g.Expression {
	f, v := fld, vfld
	return []g.Expression{
		eq(f("a"), cst("xé")), lt(f("a"), cst(5)), g.LikeExpr{Lhs: f("a"), Rhs: g.RegexExpr{Regex: "^x?.$"}}, eq(f("a"), f("b")), ge(f("b"), f("z", "[0]")),
		lt(fn(g.DateFunc, f("a")), fn(g.DateFunc, cst("2019-06-01"))), eq(fn(g.MathFuncAdd, f("a"), f("b")), cst(1.5)), ne(f("a"), cst(true)), gt(f("z", "[0]"), cst(nil)),
		anyIn(1, f("z"), eq(v(1), f("a"))), exists(f("x", "é")), eq(fn(g.MathFuncMod, f("a"), cst(3)), fn(g.MathFuncNeg, f("b"))),
	}
}
