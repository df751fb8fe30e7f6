package main

import (
	"fmt"

	g "github.com/couchbaselabs/gojsonsm"
)

var chainOps = []struct{ text, name string }{{"+", g.MathFuncAdd}, {"-", g.MathFuncSub}, {"*", g.MathFuncMul}, {"/", g.MathFuncDiv}, {"%", g.MathFuncMod}}

// chainText is a row of operands with the given operators, read the way it should be.
func chainText(operands []feText, ops []int) feText {
	toks := append([]string{}, operands[0].toks...)
	var sum g.Expression
	sumOp := -1
	term := operands[0].x
	close := func() {
		if sumOp < 0 {
			sum = term
		} else {
			sum = fn(chainOps[sumOp].name, sum, term)
		}
	}
	for i, o := range ops {
		toks = append(append(toks, chainOps[o].text), operands[i+1].toks...)
		if o >= 2 {
			term = fn(chainOps[o].name, term, operands[i+1].x)
			continue
		}
		close()
		sumOp, term = o, operands[i+1].x
	}
	close()
	return feText{toks, sum}
}

// c15Chains: long rows of arithmetic, compared with their value and its neighbours.
func c15Chains(c *Ctx) {
	names := []string{"a", "b", "c", "d", "e", "f", "h", "k"}
	vals := [][]int64{{17, 3, 2, 5, 7, 4, 3, 2}, {-1000, 7, -3, 2, 90, 5, -2, 11}, {100000, 13, 9, 6, -4, 3, 8, 5}}
	operand := func(kind, i int) feText {
		n := names[i%len(names)]
		switch {
		case i == 0 && kind%4 != 3, kind == 0:
			return feText{[]string{n}, fld(n)}
		case kind%4 == 3:
			return feText{[]string{"-", n}, fn(g.MathFuncNeg, fld(n))}
		case kind%4 == 1:
			return feText{[]string{fmt.Sprint(i + 2)}, cst(i + 2)}
		case kind%4 == 2 && i%2 == 0:
			return feText{[]string{"-", fmt.Sprint(i + 1)}, cst(-(i + 1))}
		}
		return feText{[]string{"o", ".", n}, fld("o", n)}
	}
	one := func(n int, ops []int, kind int) string {
		var opnds []feText
		for i := 0; i <= n; i++ {
			k := 0
			if kind > 0 {
				k = kind + i
			}
			opnds = append(opnds, operand(k, i))
		}
		t := chainText(opnds, ops)
		place := (kind + n + ops[0]) % 3
		cmp := cmpOps[(ops[n-1]*3+ops[n/2]+kind)%len(cmpOps)]
		x := cmp.mk(t.x, fld("z"))
		z, sym := []string{"z"}, map[string]string{"equals": "=", "notequals": "<>", "lessthan": "<", "lessequals": "<=", "greaterthan": ">", "greaterequals": ">="}[jsonOpName(x)]
		var toks []string
		switch place {
		case 0:
			toks = append(append(append(toks, t.toks...), sym), z...)
		case 1:
			x = cmp.mk(fld("z"), t.x)
			toks = append(append(append(toks, z...), sym), t.toks...)
		case 2:
			x = cmp.mk(fn(g.MathFuncAbs, t.x), fld("z"))
			toks = append(append(append(append(toks, "ABS", "("), t.toks...), ")", sym), z...)
		}
		var docs []docText
		for _, v := range vals {
			var m, o []Member
			for i, n := range names {
				m = append(m, Member{n, vInt(v[i])})
				o = append(o, Member{n, vInt(v[(i+3)%len(v)])})
			}
			m = append(m, Member{"o", &Val{K: KObj, Obj: o}})
			e := &env{doc: &Val{K: KObj, Obj: m}}
			r := e.operand(t.x)
			if place == 2 {
				r = e.operand(fn(g.MathFuncAbs, t.x))
			}
			if e.unknown || r.K != KNum || r.NC == NFloat || !r.I.IsInt64() {
				c.Note("no exact value")
				continue
			}
			for _, d := range []int64{0, 1, -1} {
				v := &Val{K: KObj, Obj: append(append([]Member{}, m...), Member{"z", vInt(r.I.Int64() + d)})}
				docs = append(docs, docText{v, encode(v, layout{})})
			}
		}
		return feCheck(c, feText{toks, x}, (n+kind+ops[0])%4, docs)
	}
	most := 5
	if c.Thorough {
		most = 6
	}
	for n := 3; n <= most; n++ {
		n := n
		total := 1
		for i := 0; i < n; i++ {
			total *= len(chainOps)
		}
		for from := 0; from < total; from += 125 {
			from := from
			c.Do(func() string { return fmt.Sprintf("rows of %d operators from number %d", n, from) }, func() string {
				for k := from; k < from+125; k++ {
					var ops []int
					for i, r := 0, k; i < n; i++ {
						ops = append(ops, r%len(chainOps))
						r /= len(chainOps)
					}
					for kind := 0; kind < 5; kind++ {
						if kind > 0 && n > 3 && (k+kind)%4 != 0 && !c.Thorough {
							continue
						}
						if s := one(n, ops, kind); s != "" {
							return s
						}
					}
				}
				c.NonTrivial()
				c.Trace()
				c.Outcome("rows")
				return ""
			})
		}
	}
	for _, n := range []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65} {
		n := n
		c.Do(func() string { return fmt.Sprintf("rows of %d operators", n) }, func() string {
			for k := 0; k < 125; k++ {
				for at := 0; at < 3; at++ {
					ops := make([]int, n)
					for i := range ops {
						ops[i] = []int{0, 1, 0, 3, 1}[(i+k)%5]
					}
					// any three operators at the beginning, in the middle, at the end
					p := at * (n - 3) / 2
					ops[p], ops[p+1], ops[p+2] = k%5, k/5%5, k/25
					if s := one(n, ops, (k+at)%5); s != "" {
						return s
					}
				}
			}
			c.NonTrivial()
			c.Trace()
			c.Outcome("long rows")
			return ""
		})
	}
}
