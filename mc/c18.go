package main

import (
	"encoding/json"
	"fmt"

	g "github.com/couchbaselabs/gojsonsm"
)

// toJSON writes an expression in its JSON form; constants must be nil, bool, float64 or string.
func toJSON(x g.Expression) *Val {
	arr := func(name string, rest ...*Val) *Val { return vArr(append([]*Val{vStr(name)}, rest...)...) }
	list := func(name string, l []g.Expression) *Val {
		v := arr(name)
		for _, e := range l {
			v.Arr = append(v.Arr, toJSON(e))
		}
		return v
	}
	two := func(name string, l, r g.Expression) *Val { return arr(name, toJSON(l), toJSON(r)) }
	loop := func(name string, id g.VariableID, in, sub g.Expression) *Val {
		return arr(name, vInt(int64(id)), toJSON(in), toJSON(sub))
	}
	switch x := x.(type) {
	case g.ValueExpr:
		switch v := x.Value.(type) {
		case nil:
			return arr("value", vNull())
		case bool:
			return arr("value", vBool(v))
		case string:
			return arr("value", vStr(v))
		case float64:
			return arr("value", vFloat(v))
		case int:
			return arr("value", vInt(int64(v)))
		case uint64:
			return arr("value", constVal(v))
		}
	case g.FieldExpr:
		v := arr("field")
		if x.Root != 0 {
			v.Arr = append(v.Arr, vInt(int64(x.Root)))
		}
		for _, p := range x.Path {
			v.Arr = append(v.Arr, vStr(p))
		}
		return v
	case g.FuncExpr:
		v := arr("func", vStr(x.FuncName))
		for _, p := range x.Params {
			v.Arr = append(v.Arr, toJSON(p))
		}
		return v
	case g.RegexExpr:
		return arr("regex", vStr(x.Regex.(string)))
	case g.TimeExpr:
		return arr("time", vStr(x.Time.(string)))
	case g.NotExpr:
		return arr("not", toJSON(x.SubExpr))
	case g.AndExpr:
		return list("and", x)
	case g.OrExpr:
		return list("or", x)
	case g.ExistsExpr:
		return arr("exists", toJSON(x.SubExpr))
	case g.NotExistsExpr:
		return arr("notexists", toJSON(x.SubExpr))
	case g.EqualsExpr:
		return two("equals", x.Lhs, x.Rhs)
	case g.NotEqualsExpr:
		return two("notequals", x.Lhs, x.Rhs)
	case g.LessThanExpr:
		return two("lessthan", x.Lhs, x.Rhs)
	case g.LessEqualsExpr:
		return two("lessequals", x.Lhs, x.Rhs)
	case g.GreaterThanExpr:
		return two("greaterthan", x.Lhs, x.Rhs)
	case g.GreaterEqualsExpr:
		return two("greaterequals", x.Lhs, x.Rhs)
	case g.LikeExpr:
		return two("like", x.Lhs, x.Rhs)
	case g.AnyInExpr:
		return loop("anyin", x.VarId, x.InExpr, x.SubExpr)
	case g.EveryInExpr:
		return loop("everyin", x.VarId, x.InExpr, x.SubExpr)
	case g.AnyEveryInExpr:
		return loop("anyeveryin", x.VarId, x.InExpr, x.SubExpr)
	}
	return nil
}

func jsonExprTexts() []string {
	var out []string
	for _, e := range corpusExprs() {
		if s, ok := jsonText(e); ok {
			out = append(out, s)
		}
	}
	return out
}

func jsonText(e g.Expression) (string, bool) {
	v := toJSON(e)
	if v == nil || !noNil(v) {
		return "", false
	}
	return v.String(), true
}

func noNil(v *Val) bool {
	for _, e := range v.Arr {
		if e == nil || !noNil(e) {
			return false
		}
	}
	return true
}

const (
	readOK = iota
	readBad
	readUnspec
)

// readRef reads the JSON form of an expression.
func readRef(v *Val) (g.Expression, int) {
	if v.K != KArr || len(v.Arr) == 0 || v.Arr[0].K != KStr {
		return nil, readBad
	}
	a := v.Arr[1:]
	var subs []g.Expression
	sub := func(from, to int) int {
		res := readOK
		subs = nil
		for _, x := range a[from:to] {
			e, r := readRef(x)
			if r == readBad {
				return readBad
			}
			if r == readUnspec {
				res = r
			}
			subs = append(subs, e)
		}
		return res
	}
	worst := func(r, s int) int {
		if r == readBad || s == readBad {
			return readBad
		}
		if r == readUnspec || s == readUnspec {
			return readUnspec
		}
		return readOK
	}
	exact := func(n int) int {
		if len(a) < n {
			return readBad
		}
		if len(a) > n {
			return readUnspec
		}
		return readOK
	}
	varID := func(x *Val) (g.VariableID, int) {
		if x.K != KNum {
			return 0, readBad
		}
		if x.NC != NInt || x.I.Sign() <= 0 || !x.I.IsInt64() || x.I.Int64() > 1<<31-1 {
			return 0, readUnspec
		}
		return g.VariableID(x.I.Int64()), readOK
	}
	name := v.Arr[0].S
	switch name {
	case "value":
		r := exact(1)
		if r == readBad {
			return nil, r
		}
		switch x := a[0]; x.K {
		case KNull:
			return g.ValueExpr{Value: nil}, r
		case KBool:
			return g.ValueExpr{Value: x.B}, r
		case KStr:
			return g.ValueExpr{Value: x.S}, r
		case KNum:
			return g.ValueExpr{Value: x.float()}, r
		}
		return nil, readBad
	case "field":
		if len(a) == 0 {
			return nil, readBad
		}
		out := g.FieldExpr{}
		r := readOK
		if a[0].K == KNum {
			if out.Root, r = varID(a[0]); a[0].Num == "0" {
				out.Root, r = 0, readOK // the document itself
			}
			a = a[1:]
		}
		for _, x := range a {
			if x.K != KStr {
				return nil, readBad
			}
			out.Path = append(out.Path, x.S)
		}
		return out, r
	case "func":
		if len(a) == 0 || a[0].K != KStr {
			return nil, readBad
		}
		r := sub(1, len(a))
		return g.FuncExpr{FuncName: a[0].S, Params: subs}, r
	case "regex":
		if len(a) == 0 || a[0].K != KStr {
			return nil, readBad
		}
		return g.RegexExpr{Regex: a[0].S}, exact(1)
	case "time":
		if len(a) == 0 || a[0].K != KStr {
			return nil, readBad
		}
		if _, ok := dateOf(a[0].S); !ok {
			if t := a[0].S; oddDate(t) || len(t) > 10 && t[10] == ' ' {
				return nil, readUnspec
			}
			return nil, readBad
		}
		return g.TimeExpr{Time: a[0].S}, exact(1)
	case "and", "or":
		if len(a) == 0 {
			return nil, readBad
		}
		r := sub(0, len(a))
		if name == "and" {
			return g.AndExpr(subs), r
		}
		return g.OrExpr(subs), r
	case "not", "exists", "notexists":
		r := exact(1)
		if r == readBad {
			return nil, r
		}
		r = worst(r, sub(0, 1))
		if r == readBad {
			return nil, r
		}
		switch name {
		case "not":
			return g.NotExpr{SubExpr: subs[0]}, r
		case "exists":
			return g.ExistsExpr{SubExpr: subs[0]}, r
		}
		return g.NotExistsExpr{SubExpr: subs[0]}, r
	case "anyin", "everyin", "anyeveryin":
		r := exact(3)
		if r == readBad {
			return nil, r
		}
		id, rv := varID(a[0])
		r = worst(r, worst(rv, sub(1, 3)))
		if r == readBad {
			return nil, r
		}
		switch name {
		case "anyin":
			return g.AnyInExpr{VarId: id, InExpr: subs[0], SubExpr: subs[1]}, r
		case "everyin":
			return g.EveryInExpr{VarId: id, InExpr: subs[0], SubExpr: subs[1]}, r
		}
		return g.AnyEveryInExpr{VarId: id, InExpr: subs[0], SubExpr: subs[1]}, r
	}
	mk, ok := map[string]func(l, r g.Expression) g.Expression{
		"equals":        func(l, r g.Expression) g.Expression { return g.EqualsExpr{Lhs: l, Rhs: r} },
		"notequals":     func(l, r g.Expression) g.Expression { return g.NotEqualsExpr{Lhs: l, Rhs: r} },
		"lessthan":      func(l, r g.Expression) g.Expression { return g.LessThanExpr{Lhs: l, Rhs: r} },
		"lessequals":    func(l, r g.Expression) g.Expression { return g.LessEqualsExpr{Lhs: l, Rhs: r} },
		"greaterthan":   func(l, r g.Expression) g.Expression { return g.GreaterThanExpr{Lhs: l, Rhs: r} },
		"greaterequals": func(l, r g.Expression) g.Expression { return g.GreaterEqualsExpr{Lhs: l, Rhs: r} },
		"like":          func(l, r g.Expression) g.Expression { return g.LikeExpr{Lhs: l, Rhs: r} },
	}[name]
	if !ok {
		return nil, readBad
	}
	r := exact(2)
	if r == readBad {
		return nil, r
	}
	r = worst(r, sub(0, 2))
	if r == readBad {
		return nil, r
	}
	return mk(subs[0], subs[1]), r
}

// plain is the expression's structure only (no spare capacity of lists, empty like missing lists).
func plain(x g.Expression) string {
	v := toJSON(x)
	if v == nil {
		return "nothing"
	}
	return fmt.Sprintf("%T %s", x, show(x)) + v.String()
}

func checkRead(c *Ctx, v *Val, l layout) string {
	text := encode(v, l)
	c.State(string(text))
	c.Trans(1)
	want, r := readRef(v)
	got, err := g.ParseJsonExpression(text)
	switch {
	case r == readUnspec:
		c.Outcome("unspecified")
	case r == readBad:
		c.Outcome("rejected")
		if err == nil {
			return fmt.Sprintf("%s is accepted as %s", text, show(got))
		}
	case err != nil:
		return fmt.Sprintf("%s is rejected: %v", text, err)
	default:
		c.Outcome("read")
		if plain(got) != plain(want) {
			return fmt.Sprintf("%s is read as %s, should be %s", text, show(got), show(want))
		}
	}
	return ""
}

var jsonOps = []string{"value", "field", "func", "not", "or", "and", "anyin", "everyin", "anyeveryin", "exists", "notexists", "equals", "notequals", "lessthan", "lessequals", "greaterthan", "greaterequals", "like", "regex", "time"}

// valueEdits calls f with v where one node is replaced, removed or doubled.
func valueEdits(v *Val, f func(w *Val)) {
	reps := []*Val{vNull(), vBool(true), vNum("1"), vNum("0"), vNum("-1"), vNum("1.5"), vStr("x"), vStr(""), vArr(), vObj(), vArr(vStr("value")), vArr(vStr("field")), vArr(vStr("bogus"), vNum("1")), vArr(vNum("1")), vArr(vStr("value"), vNum("7")), vArr(vArr(vStr("value"), vNum("7")))}
	for _, o := range jsonOps {
		reps = append(reps, vStr(o))
	}
	var rec func(v *Val, put func(w *Val) *Val)
	rec = func(v *Val, put func(w *Val) *Val) {
		for _, r := range reps {
			f(put(r))
		}
		for i := range v.Arr {
			i := i
			with := func(parts ...[]*Val) *Val {
				var l []*Val
				for _, p := range parts {
					l = append(l, p...)
				}
				return vArr(l...)
			}
			f(put(with(v.Arr[:i], v.Arr[i+1:])))
			f(put(with(v.Arr[:i+1], v.Arr[i:])))
			if i > 0 {
				f(put(with(v.Arr[:i-1], []*Val{v.Arr[i], v.Arr[i-1]}, v.Arr[i+1:])))
			}
			rec(v.Arr[i], func(w *Val) *Val { return put(with(v.Arr[:i], []*Val{w}, v.Arr[i+1:])) })
		}
	}
	rec(v, func(w *Val) *Val { return w })
}

func c18Exprs() []g.Expression {
	f, v := fld, vfld
	leafs := []g.Expression{f("a"), f("a", "b"), f("[0]"), v(1), v(2, "x", "y"), cst(nil), cst(true), cst(1.0), cst(-2.5), cst(1e300), cst("s"), cst(""), cst("\"\\\n\u00e9\U0001F600"), fn("f", f("a")), fn(g.MathFuncAdd, f("a"), cst(2.0)), fn("g"), fn("h", fn("f", v(1)), f("a"), cst("x"))}
	var conds []g.Expression
	mks := []func(l, r g.Expression) g.Expression{eq, ne, lt, le, gt, ge}
	for i, l := range leafs {
		for j, r := range leafs {
			conds = append(conds, mks[(i+j)%6](l, r), mks[(i+2*j+3)%6](l, r))
		}
		conds = append(conds, exists(l), notExists(l), g.LikeExpr{Lhs: l, Rhs: g.RegexExpr{Regex: "^a.*\"$"}}, eq(fn(g.DateFunc, l), g.TimeExpr{Time: "2020-02-29"}))
	}
	some := []g.Expression{eq(f("a"), cst(1.0)), exists(f("b")), lt(v(1), f("c", "d")), g.LikeExpr{Lhs: f("a"), Rhs: g.RegexExpr{Regex: "x"}}}
	var l2 []g.Expression
	for i, x := range some {
		l2 = append(l2, not(x), and(x), or(x))
		for j, y := range some {
			l2 = append(l2, and(x, y), or(x, y), and(x, or(y, x)), or(not(x), and(y, y, x)))
			l2 = append(l2, anyIn(g.VariableID(i+1), f("a"), and(x, y)), everyIn(g.VariableID(j+7), v(3, "k"), or(x, y)), anyEveryIn(1, f("p", "q"), anyIn(2, v(1), not(y))))
		}
	}
	for i, id := range []g.VariableID{9, 10, 99, 100, 127, 128, 200, 255, 256, 257, 300, 1000, 9999, 32767, 32768, 65535, 65536, 1 << 20, 1<<24 + 1, 1<<30 + 1, 1<<31 - 1} {
		body := eq(v(id, "k"), v(id+1<<8&0xffff))
		l2 = append(l2, []func(g.VariableID, g.Expression, g.Expression) g.Expression{anyIn, everyIn, anyEveryIn}[i%3](id, v(id&0xff+1), body), exists(v(id)))
	}
	return append(append(conds, some...), l2...)
}

func init() {
	register(&Check{
		ID:    "C18",
		Rule:  "case = one expression: written as JSON in several layouts it has to be read back as it is; with every node replaced, removed, doubled or exchanged, and every prefix and byte change of the text, the reader has to agree with a reference reader (or reject what is not JSON); all small arrays; non-trivial: all; states = distinct texts",
		Assum: []string{"extra array elements, fractional or non-positive variable numbers and unusual dates are left open", "numbers are read as doubles"},
		Bound: func(t string) string {
			s := "about 800 expressions of up to 3 levels with every operator; 35 replacements at every node; every truncation and every byte replaced by 14 others; all arrays of an operator and up to 3 of 16 elements"
			if t == "thorough" {
				s += "; pairs of replacements on 60 expressions"
			}
			return s + "; all AND/OR formulas of up to 6 conditions, with one part negated up to 4 (thorough: 6)" + seriesBound(t == "thorough")
		},
		Run: func(c *Ctx) {
			c18Series(c)
			for n := 3; n <= 6; n++ {
				naryExprs(n, n < 5 || c.Thorough, naryLeaf, func(x g.Expression) {
					c.Do(func() string { return show(x) }, func() string {
						v := toJSON(x)
						for _, l := range []layout{{}, {ws: " ", strEsc: escMixed}} {
							if m := checkRead(c, v, l); m != "" {
								return m
							}
						}
						c.NonTrivial()
						c.Trace()
						return ""
					})
				})
			}
			ex := c18Exprs()
			for _, e := range append(append([]g.Expression{}, ex...), corpusExprs()...) {
				v := toJSON(e)
				if v == nil || !noNil(v) {
					continue
				}
				c.Do(func() string { return show(e) }, func() string {
					for _, l := range []layout{{}, {ws: " "}, {ws: "\n\t", lead: " \n", trail: "\r\n "}, {strEsc: escUni}, {strEsc: escMixed, ws: " "}, {strEsc: escUpper}} {
						if m := checkRead(c, v, l); m != "" {
							return m
						}
					}
					c.NonTrivial()
					c.Trace()
					return ""
				})
				c.Do(func() string { return "changes of " + show(e) }, func() string {
					msg := ""
					valueEdits(v, func(w *Val) {
						if msg == "" {
							msg = checkRead(c, w, layout{})
						}
					})
					c.NonTrivial()
					c.Trace()
					return msg
				})
			}
			for i, e := range ex {
				if i%12 != 0 && !(i > len(ex)-40) {
					continue
				}
				e := e
				c.Do(func() string { return "bytes of " + show(e) }, func() string {
					text := toJSON(e).String()
					try := func(s string) string {
						c.State(s)
						c.Trans(1)
						x, err := g.ParseJsonExpression([]byte(s))
						if !json.Valid([]byte(s)) && err == nil {
							return fmt.Sprintf("%q is accepted as %s", s, show(x))
						}
						return ""
					}
					for i := range text {
						for _, b := range "{}[]:,\"\\-01e x" {
							if m := try(text[:i] + string(b) + text[i+1:]); m != "" {
								return m
							}
						}
						if m := try(text[:i]); m != "" {
							return m
						}
						if m := try(text[i:]); m != "" {
							return m
						}
						if m := try(text + text[:i]); i > 0 && m != "" {
							return m
						}
					}
					c.NonTrivial()
					c.Trace()
					c.Outcome("bytes")
					return ""
				})
			}
			el := []*Val{vNull(), vBool(false), vNum("1"), vNum("0"), vStr("a"), vStr("2020-01-02"), vStr("value"), vArr(), vObj(), vObj("value", vNum("1")), vArr(vStr("value"), vNum("1")), vArr(vStr("field"), vStr("a")), vArr(vStr("field"), vNum("1"), vStr("b")), vArr(vStr("field"), vNum("0"), vStr("b")), vArr(vStr("field"), vNum("0")), vArr(vStr("exists"), vArr(vStr("field"), vStr("a"))), vArr(vStr("regex"), vStr("a")), vArr(vStr("value"))}
			for _, op := range append(jsonOps, "", "Equals", "true", "xor") {
				for i := -1; i < len(el); i++ {
					op, i := op, i
					c.Do(func() string { return fmt.Sprintf("arrays of %s, element %d first", op, i) }, func() string {
						if i < 0 {
							return checkRead(c, vArr(vStr(op)), layout{})
						}
						if m := checkRead(c, vArr(vStr(op), el[i]), layout{}); m != "" {
							return m
						}
						for _, b := range el {
							if m := checkRead(c, vArr(vStr(op), el[i], b), layout{}); m != "" {
								return m
							}
							for _, d := range el {
								if m := checkRead(c, vArr(vStr(op), el[i], b, d), layout{}); m != "" {
									return m
								}
							}
						}
						c.NonTrivial()
						c.Trace()
						return ""
					})
				}
			}
			for _, v := range el {
				v := v
				c.Do(func() string { return "just " + v.String() }, func() string { return checkRead(c, v, layout{ws: " "}) })
			}
			if !c.Thorough {
				return
			}
			for i, e := range ex {
				if i%13 != 0 {
					continue
				}
				v := toJSON(e)
				c.Do(func() string { return "two changes of " + show(e) }, func() string {
					msg := ""
					valueEdits(v, func(w *Val) {
						if msg == "" {
							valueEdits(w, func(u *Val) {
								if msg == "" {
									msg = checkRead(c, u, layout{})
								}
							})
						}
					})
					c.NonTrivial()
					c.Trace()
					return msg
				})
			}
		},
	})
}
