package main

import (
	"fmt"
	"math/big"
	"strings"
)

// intLits are the integers next to all powers of two and ten up to 2^70.
func intLits(thorough bool) []string {
	seen := map[string]bool{}
	var out []string
	add := func(b *big.Int) {
		for _, s := range []string{b.String(), new(big.Int).Neg(b).String()} {
			if !seen[s] {
				seen[s] = true
				out = append(out, s)
			}
		}
	}
	step := 4
	w := int64(1)
	if thorough {
		step, w = 1, 2
	}
	for k := 0; k <= 70; k++ {
		if k%step != 0 && !(k >= 52 && k <= 54) && k != 31 && k != 32 && !(k >= 62 && k <= 65) {
			continue
		}
		for d := -w; d <= w; d++ {
			add(new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), uint(k)), big.NewInt(d)))
		}
	}
	p := big.NewInt(1)
	for k := 0; k <= 21; k++ {
		if k >= 16 || thorough {
			for d := -w; d <= w; d++ {
				add(new(big.Int).Add(p, big.NewInt(d)))
			}
		}
		p = new(big.Int).Mul(p, big.NewInt(10))
	}
	// every leading digit at the lengths where the type changes
	for _, n := range []int{17, 18, 19, 20, 21} {
		for d := byte('1'); d <= '9'; d++ {
			b, _ := new(big.Int).SetString(string(d)+strings.Repeat("0", n-1), 10)
			add(b)
			b, _ = new(big.Int).SetString(string(d)+strings.Repeat("7", n-1), 10)
			add(b)
		}
	}
	return out
}

var floatLits = []string{"0.0", "-0.0", "-0", "0.5", "-0.5", "1.0", "1e0", "1E+0", "10e-1", "1.5", "-1.5", "1.50", "2.5e0", "25e-1", "0.00000001", "0.0000001", "0.00000011", "0.0000002", "1.00000001", "1.0000002", "-1.00000001",
	"9007199254740992.0", "9007199254740993.0", "9.007199254740993e15", "9223372036854775807.0", "9223372036854775808.0", "-9223372036854775808.0", "-9223372036854775809.0", "18446744073709551615.0", "18446744073709551616.0", "1.8446744073709552e19", "1e18", "1e19", "1e20", "-1e19", "12345678901234567890123", "-12345678901234567890123", "1e308", "-1e308", "1e-308", "5e-324", "0.1", "0.2", "0.3", "0.30000000000000004", "123456789.123456789", "1e1", "100e-2", "0e5", "0.000", "4294967295.5", "-4294967296.25", "1e22", "1e23"}

func init() {
	register(&Check{
		ID:    "C10",
		Rule:  "case = one number against all numbers: as document member against every constant (signed, unsigned and floating-point) on either side, and as document member against every other document member; all six operators; compared with exact integers (math/big) and float64 with the documented tolerance; non-trivial: all; states = distinct (spelling, spelling or constant) pairs",
		Assum: []string{"literals that overflow a double are not used"},
		Bound: func(t string) string {
			n := "around the type boundaries and every 4th power of two"
			if t == "thorough" {
				n = "within 2 of every power of two up to 2^70 and of ten up to 10^21"
			}
			return fmt.Sprintf("all pairs of integers %s, all leading digits at 17 to 21 digits, and %d fractional and exponent literals; spellings of 25 to 400 digits; constants of all integer and floating-point types of the language, around the ends of each", n, len(floatLits))
		},
		Run: func(c *Ctx) {
			lits := append(intLits(c.Thorough), floatLits...)
			for _, n := range []string{"15", "100", "127", "128", "-127", "-128", "-129", "254", "255", "256", "-255", "-256", "32767", "32768", "-32767", "-32768", "-32769", "65534", "65535", "65536", "16777215", "16777216", "16777217", "16777218", "0.10000000149011612", "0.0010000000474974513", "3.3999999521443642e38"} {
				have := false
				for _, l := range lits {
					have = have || l == n
				}
				if !have {
					lits = append(lits, n)
				}
			}
			// long spellings
			for _, n := range []int{25, 31, 33, 63, 65, 127, 129, 255, 257, 400} {
				z := strings.Repeat("0", n)
				lits = append(lits, "1."+z+"1e10", "-2."+z+"E-1", "0."+z+"1e"+fmt.Sprint(n+1), "1"+z+"e-"+fmt.Sprint(n), "3"+z+".5e-"+fmt.Sprint(n), "0."+strings.Repeat("3", n), "1e"+z+"2")
				if n < 300 {
					lits = append(lits, "1"+z, "-1"+z, "1"+z+".5")
				}
			}
			vals := make([]*Val, len(lits))
			for i, l := range lits {
				vals[i] = vNum(l)
			}
			// constants: the same numbers in every type that can hold them
			type kst struct {
				c interface{}
				v *Val
			}
			var consts []kst
			for _, v := range vals {
				add := func(x interface{}) { consts = append(consts, kst{x, constVal(x)}) }
				if v.NC == NFloat {
					add(v.F)
					continue
				}
				if fitsI(v.I) {
					add(v.I.Int64())
					if v.I.Int64() < 1<<31 && v.I.Int64() >= -1<<31 {
						add(int(v.I.Int64()))
					}
				}
				if fitsU(v.I) {
					add(v.I.Uint64())
				}
				if len(v.Num) < 8 || len(v.Num) > 15 {
					add(v.float())
				}
			}
			// and in the smaller types, around their ends
			add := func(x interface{}) { consts = append(consts, kst{x, constVal(x)}) }
			for _, n := range []int64{0, 1, -1, 15, 16, 100, 127, -127, -128, 128, 255, -255, 256, 32767, -32767, -32768, 32768, 65535, 65536, 1<<24 + 1, 1<<31 - 1, -1 << 31, 1 << 31, 1<<32 - 1} {
				if int64(int8(n)) == n {
					add(int8(n))
				}
				if int64(int16(n)) == n {
					add(int16(n))
				}
				if int64(int32(n)) == n {
					add(int32(n))
				}
				if int64(uint8(n)) == n {
					add(uint8(n))
				}
				if int64(uint16(n)) == n {
					add(uint16(n))
				}
				if int64(uint32(n)) == n {
					add(uint32(n))
				}
				if n >= 0 {
					add(uint(n))
				}
				add(float32(n))
			}
			for _, f := range []float32{0.5, -0.5, 1.5, 0.1, 3.4e38, -3.4e38, 1e-3, 16777217, 9223372036854775807, 1e20} {
				add(f)
			}
			want := func(i int, a, b *Val) (bool, bool) {
				r := compareVals(a, b)
				return cmpOps[i].of(r.c, r.eq), r.known
			}
			// constants
			for _, k := range consts {
				k := k
				c.Do(func() string { return "constant " + show(cst(k.c)) + fmt.Sprintf(" (%T)", k.c) }, func() string {
					for i, op := range cmpOps {
						left, right := compile(op.mk(fld("x"), cst(k.c))), compile(op.mk(cst(k.c), fld("x")))
						el := compile(anyIn(1, fld("a"), op.mk(vfld(1), cst(k.c))))
						for j, v := range vals {
							c.Trans(3)
							c.StateHash(hashString(lits[j]) ^ hashString(show(cst(k.c)))*31)
							t1 := []byte(`{"x":` + lits[j] + `}`)
							t2 := []byte(`{"a":[` + lits[j] + `]}`)
							w, known := want(i, v, k.v)
							if !known {
								continue
							}
							if o := left.run(t1, 1); o.match != w || o.err || o.flags != 0 {
								return fmt.Sprintf("x %s %s on %s should be %v: %v", op.name, show(cst(k.c)), t1, w, o)
							}
							if o := el.run(t2, 1); o.match != w || o.err || o.flags != 0 {
								return fmt.Sprintf("element %s %s on %s should be %v: %v", op.name, show(cst(k.c)), t2, w, o)
							}
							w, _ = want(i, k.v, v)
							if o := right.run(t1, 1); o.match != w || o.err || o.flags != 0 {
								return fmt.Sprintf("%s %s x on %s should be %v: %v", show(cst(k.c)), op.name, t1, w, o)
							}
							left.m.Reset()
							right.m.Reset()
							el.m.Reset()
						}
					}
					c.NonTrivial()
					c.Trace()
					c.Outcome("agree")
					return ""
				})
			}
			var both [6]*compiled
			for i, op := range cmpOps {
				both[i] = compile(op.mk(fld("x"), fld("y")))
			}
			for a := range vals {
				a := a
				c.Do(func() string { return "document number " + lits[a] }, func() string {
					for b := range vals {
						t1 := []byte(`{"x":` + lits[a] + `,"y":` + lits[b] + `}`)
						if (a+b)%2 == 1 {
							t1 = []byte(`{"y":` + lits[b] + ` ,"x": ` + lits[a] + "\n}")
						}
						c.StateHash(hashString(string(t1)))
						for i, op := range cmpOps {
							w, known := want(i, vals[a], vals[b])
							if !known {
								continue
							}
							c.Trans(1)
							both[i].m.Reset()
							if o := both[i].run(t1, 1); o.match != w || o.err || o.flags != 0 {
								return fmt.Sprintf("x %s y on %s should be %v: %v", op.name, t1, w, o)
							}
						}
					}
					c.NonTrivial()
					c.Trace()
					c.Outcome("agree")
					return ""
				})
			}
		},
	})
}
