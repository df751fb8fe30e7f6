package main

import (
	g "github.com/couchbaselabs/gojsonsm"
)

// putAt puts val where path leads to, behind what is already there; ok is false if there is something in the way.
func putAt(v *Val, path []string, val *Val) (*Val, bool) {
	if len(path) == 0 {
		return val, v == nil
	}
	if v == nil {
		v = vObj()
	}
	if v.K != KObj {
		return v, false
	}
	for i := range v.Obj {
		if v.Obj[i].Key == path[0] {
			x, ok := putAt(v.Obj[i].Val, path[1:], val)
			v.Obj[i].Val = x
			return v, ok
		}
	}
	x, ok := putAt(nil, path[1:], val)
	v.Obj = append(v.Obj, Member{Key: path[0], Val: x})
	return v, ok
}

// c04Paths: conditions on two long paths that differ in any of their parts.
func c04Paths(c *Ctx) {
	var paths [][]string
	depth := 5
	if c.Thorough {
		depth = 6
	}
	for n := 1; n <= depth; n++ {
		for k := 0; k < 1<<uint(n); k++ {
			p := make([]string, n)
			for i := range p {
				p[i] = []string{"a", "b"}[k>>uint(i)&1]
			}
			paths = append(paths, p)
		}
	}
	for _, p := range paths {
		for _, q := range paths {
			p, q := p, q
			c.Do(func() string { return "paths " + show(eq(fld(p...), fld(q...))) }, func() string {
				var docs []docText
				ok := false
				for _, xy := range [][2]string{{"1", "1"}, {"1", "2"}, {"2", "1"}} {
					for order := 0; order < 2; order++ {
						var root *Val
						var ok1, ok2 bool
						root, _ = putAt(nil, []string{"x"}, vNum("7"))
						if order == 0 {
							root, ok1 = putAt(root, p, vNum(xy[0]))
							root, ok2 = putAt(root, q, vNum(xy[1]))
						} else {
							root, ok1 = putAt(root, q, vNum(xy[1]))
							root, ok2 = putAt(root, p, vNum(xy[0]))
						}
						ok = ok1 && ok2
						if !ok {
							continue
						}
						if order == 1 {
							root, _ = putAt(root, []string{"c"}, vNum("1"))
						}
						docs = append(docs, docText{root, encode(root, layout{})})
					}
				}
				if !ok {
					// one of them leads through the other one, or they are the same
					root, _ := putAt(nil, p, vNum("1"))
					docs = append(docs, docText{root, encode(root, layout{})})
					root, _ = putAt(nil, q, vNum("1"))
					docs = append(docs, docText{root, encode(root, layout{})})
				}
				var loops []docText
				for _, d := range docs {
					e := vObj("s", vArr(d.v), "c", vNum("1"))
					for i := range d.v.Obj {
						e.Obj = append(e.Obj, d.v.Obj[i])
					}
					if i := len(e.Obj) - 1; e.Obj[i].Key == "c" {
						e.Obj = e.Obj[:i]
					}
					loops = append(loops, docText{e, encode(e, layout{})})
				}
				// elements which have both, and others which have one of them or none
				one, _ := putAt(nil, p, vNum("1"))
				two, _ := putAt(nil, q, vNum("1"))
				three, _ := putAt(nil, q, vNum("2"))
				for _, d := range docs {
					for _, els := range [][]*Val{{d.v, two}, {d.v, three}, {d.v, one}, {d.v, vObj("x", vNum("1")), two}, {three, one}, {one, d.v, vObj()}} {
						e := vObj("s", vArr(els...))
						loops = append(loops, docText{e, encode(e, layout{})})
					}
				}
				f, v := fld, vfld
				for _, x := range []g.Expression{eq(f(p...), f(q...)), lt(f(p...), f(q...)), not(ge(f(p...), f(q...))), eq(fn(g.MathFuncAdd, f(p...), f(q...)), cst(3)), eq(fn(g.MathFuncSub, f(q...), f(p...)), f("c")), and(ne(f(p...), f(q...)), exists(f(p...))), or(eq(f(p...), cst(2)), eq(f(q...), f(p...)))} {
					if msg := runDocs(c, x, docs); msg != "" {
						return msg
					}
				}
				for _, x := range []g.Expression{anyIn(1, f("s"), eq(v(1, p...), v(1, q...))), anyIn(1, f("s"), lt(v(1, p...), f(q...))), everyIn(1, f("s"), eq(fn(g.MathFuncAdd, v(1, p...), f(p...)), f(q...)))} {
					if msg := runDocs(c, x, loops); msg != "" {
						return msg
					}
				}
				return ""
			})
		}
	}
}
