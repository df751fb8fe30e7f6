// The reference model: JSON values, their possible spellings, and the meaning of expressions.
// Nothing here is taken from the library: paths, loops, comparisons and functions are written
// down directly over value trees.
package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"
	"unicode/utf8"

	g "github.com/couchbaselabs/gojsonsm"
)

// ---------------------------------------------------------------- values

type Kind int

const (
	KMissing Kind = iota
	KInvalid      // the result of a function that has no result for its operands
	KNull
	KBool
	KNum
	KStr
	KTime
	KArr
	KObj
)

type NumClass int

const (
	NInt NumClass = iota
	NFloat
)

type Member struct {
	Key string
	Val *Val
}

type Val struct {
	K    Kind
	B    bool
	Num  string // spelling of a number
	NC   NumClass
	I    *big.Int // integers
	F    float64  // others
	S    string   // decoded string
	T    time.Time
	Arr  []*Val
	Obj  []Member
	Cst  bool   // given in the expression, not in the document
	Uns  bool   // a constant of an unsigned type
	Text string // how it is written, for arrays and objects whose text matters
}

var missing = &Val{K: KMissing}
var invalid = &Val{K: KInvalid}

func vNull() *Val         { return &Val{K: KNull} }
func vBool(b bool) *Val   { return &Val{K: KBool, B: b} }
func vStr(s string) *Val  { return &Val{K: KStr, S: s} }
func vArr(e ...*Val) *Val { return &Val{K: KArr, Arr: e} }
func vObj(kv ...interface{}) *Val {
	v := &Val{K: KObj}
	for i := 0; i+1 < len(kv); i += 2 {
		v.Obj = append(v.Obj, Member{kv[i].(string), kv[i+1].(*Val)})
	}
	return v
}

var minI64 = big.NewInt(math.MinInt64)
var maxU64 = new(big.Int).SetUint64(math.MaxUint64)
var maxI64 = big.NewInt(math.MaxInt64)

// vNum makes the number a JSON literal denotes.
func vNum(lit string) *Val {
	v := &Val{K: KNum, Num: lit}
	if !strings.ContainsAny(lit, ".eE") {
		i, ok := new(big.Int).SetString(lit, 10)
		if !ok {
			panic("bad number " + lit)
		}
		if i.Cmp(minI64) >= 0 && i.Cmp(maxU64) <= 0 {
			v.NC, v.I = NInt, i
			return v
		}
	}
	f, _ := strconv.ParseFloat(lit, 64)
	v.NC, v.F = NFloat, f
	return v
}

func vInt(i int64) *Val    { return vBig(big.NewInt(i)) }
func vBig(i *big.Int) *Val { return &Val{K: KNum, NC: NInt, I: i, Num: i.String()} }
func vFloat(f float64) *Val {
	return &Val{K: KNum, NC: NFloat, F: f, Num: strconv.FormatFloat(f, 'E', -1, 64)}
}
func vTime(t time.Time) *Val { return &Val{K: KTime, T: t} }

func (v *Val) float() float64 {
	if v.NC == NFloat {
		return v.F
	}
	f, _ := new(big.Float).SetInt(v.I).Float64()
	return f
}

func (v *Val) String() string { return string(encode(v, layout{})) }

// ---------------------------------------------------------------- spelling

// How a string's characters are written.
const (
	escMin   = iota // only what has to be escaped
	escUni          // every character as \u escape
	escMixed        // short escapes where there is one, every other character as \u escape
	escUpper        // as escUni with upper case digits
)

type layout struct {
	ws     string // between any two tokens
	lead   string // before the document
	trail  string // after it
	keyEsc int
	strEsc int
	rev    bool   // members in reverse order
	extra  string // members (text) added at the front of every object
	extraE string // members (text) added at the end of every object
}

var shortEsc = map[rune]string{'"': `\"`, '\\': `\\`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`}

func encRune(r rune, mode int, i int) string {
	must := r < 0x20 || r == '"' || r == '\\'
	hex := func(format string) string {
		if r >= 0x10000 {
			a, b := utf16.EncodeRune(r)
			return fmt.Sprintf(format+format, a, b)
		}
		return fmt.Sprintf(format, r)
	}
	switch mode {
	case escUni:
		return hex(`\u%04x`)
	case escUpper:
		return hex(`\u%04X`)
	case escMixed:
		if s, ok := shortEsc[r]; ok {
			return s
		}
		if r == '/' {
			return `\/`
		}
		if i%2 == 0 {
			return hex(`\u%04x`)
		}
	}
	if must {
		if s, ok := shortEsc[r]; ok {
			return s
		}
		return hex(`\u%04x`)
	}
	return string(r)
}

func encStr(s string, mode int) string {
	var b strings.Builder
	b.WriteByte('"')
	i := 0
	for _, r := range s {
		b.WriteString(encRune(r, mode, i))
		i++
	}
	b.WriteByte('"')
	return b.String()
}

func encode(v *Val, l layout) []byte {
	var b bytes.Buffer
	b.WriteString(l.lead)
	enc(&b, v, l)
	b.WriteString(l.trail)
	return b.Bytes()
}

func enc(b *bytes.Buffer, v *Val, l layout) {
	switch v.K {
	case KNull:
		b.WriteString("null")
	case KBool:
		if v.B {
			b.WriteString("true")
		} else {
			b.WriteString("false")
		}
	case KNum:
		b.WriteString(v.Num)
	case KStr:
		b.WriteString(encStr(v.S, l.strEsc))
	case KArr:
		b.WriteString("[" + l.ws)
		for i, e := range v.Arr {
			if i > 0 {
				b.WriteString("," + l.ws)
			}
			enc(b, e, l)
			b.WriteString(l.ws)
		}
		b.WriteString("]")
	case KObj:
		b.WriteString("{" + l.ws)
		first := true
		sep := func() {
			if !first {
				b.WriteString("," + l.ws)
			}
			first = false
		}
		if l.extra != "" {
			sep()
			b.WriteString(l.extra + l.ws)
		}
		n := len(v.Obj)
		for i := range v.Obj {
			m := v.Obj[i]
			if l.rev {
				m = v.Obj[n-1-i]
			}
			sep()
			b.WriteString(encStr(m.Key, l.keyEsc) + l.ws + ":" + l.ws)
			enc(b, m.Val, l)
			b.WriteString(l.ws)
		}
		if l.extraE != "" {
			sep()
			b.WriteString(l.extraE + l.ws)
		}
		b.WriteString("}")
	case KMissing:
		b.WriteString("<missing>")
	case KInvalid:
		b.WriteString("<invalid>")
	case KTime:
		b.WriteString("<" + v.T.Format(time.RFC3339Nano) + ">")
	}
}

// perms calls f with every permutation of 0..n-1.
func perms(n int, f func(p []int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(p)
			return
		}
		for j := i; j < n; j++ {
			p[i], p[j] = p[j], p[i]
			rec(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	rec(0)
}

// memberOrders returns v with the members of its outermost object in every order.
func memberOrders(v *Val) []*Val {
	if v.K != KObj || len(v.Obj) < 2 {
		return []*Val{v}
	}
	var out []*Val
	perms(len(v.Obj), func(p []int) {
		w := &Val{K: KObj}
		for _, i := range p {
			w.Obj = append(w.Obj, v.Obj[i])
		}
		out = append(out, w)
	})
	return out
}

// ---------------------------------------------------------------- paths

func child(v *Val, step string) *Val {
	switch v.K {
	case KObj:
		for _, m := range v.Obj {
			if m.Key == step {
				return m.Val
			}
		}
	case KArr:
		if len(step) > 2 && step[0] == '[' && step[len(step)-1] == ']' {
			if i, err := strconv.Atoi(step[1 : len(step)-1]); err == nil && i >= 0 && i < len(v.Arr) {
				return v.Arr[i]
			}
		}
	}
	return missing
}

func lookup(v *Val, path []string) *Val {
	for _, s := range path {
		if v.K == KMissing {
			return missing
		}
		v = child(v, s)
	}
	return v
}

// ---------------------------------------------------------------- comparison

// cmpRes is the outcome of comparing two values.
type cmpRes struct {
	c     int
	eq    bool
	flag  bool // collation was needed
	known bool // the model says what has to come out
}

func rank(v *Val) int {
	switch v.K {
	case KInvalid:
		return 0
	case KMissing:
		return 1
	case KNull:
		return 2
	case KBool:
		if v.B {
			return 4
		}
		return 3
	case KNum:
		return 5
	case KStr:
		return 6
	case KTime:
		return 7
	case KArr:
		return 8
	}
	return 9
}

func sign(i int) int {
	if i < 0 {
		return -1
	} else if i > 0 {
		return 1
	}
	return 0
}

func cmpNum(a, b *Val) cmpRes {
	if a.NC == NInt && b.NC == NInt {
		c := a.I.Cmp(b.I)
		return cmpRes{c, c == 0, false, true}
	}
	x, y := a.float(), b.float()
	if math.IsNaN(x) || math.IsNaN(y) {
		return cmpRes{}
	}
	c := 0
	if d := math.Abs(x - y); d < 1e-7 {
		c = 0
	} else if x < y {
		c = -1
	} else if x > y {
		c = 1
	}
	return cmpRes{c, c == 0, false, true}
}

func truthy(v *Val) bool {
	if v.NC == NInt {
		return v.I.Sign() != 0
	}
	return v.F != 0
}

func cmpBool(a, b bool) cmpRes {
	if a == b {
		return cmpRes{0, true, false, true}
	} else if a {
		return cmpRes{1, false, false, true}
	}
	return cmpRes{-1, false, false, true}
}

func collate(a, b *Val) cmpRes {
	return cmpRes{sign(rank(a) - rank(b)), false, true, true}
}

func decimalInt(s string) (*big.Int, bool) {
	if s == "" || !(s[0] == '-' || s[0] >= '0' && s[0] <= '9') || strings.ContainsAny(s, "_+") {
		return nil, false
	}
	i, ok := new(big.Int).SetString(s, 10)
	return i, ok
}

func plainFloat(s string) bool {
	// the spellings of fractional numbers the model speaks about
	for _, c := range s {
		if !(c >= '0' && c <= '9') && !strings.ContainsRune("+-.eE", c) {
			return false
		}
	}
	_, err := strconv.ParseFloat(s, 64)
	return err == nil
}

func flip(r cmpRes) cmpRes { r.c = -r.c; return r }

// compareVals says how two values compare.  At most one of them is a constant.
func compareVals(a, b *Val) cmpRes {
	if a.K == KMissing || b.K == KMissing || a.Cst && b.Cst && a.K != b.K {
		return cmpRes{}
	}
	if a.K == KInvalid || b.K == KInvalid {
		if a.K == KNull || b.K == KNull {
			return cmpRes{}
		}
		if a.K == b.K {
			return cmpRes{0, false, true, true}
		}
		return collate(a, b)
	}
	if a.K == b.K {
		switch a.K {
		case KNull:
			return cmpRes{0, true, false, true}
		case KBool:
			return cmpBool(a.B, b.B)
		case KNum:
			return cmpNum(a, b)
		case KStr:
			c := strings.Compare(a.S, b.S)
			return cmpRes{c, c == 0, false, true}
		case KTime:
			c := a.T.Compare(b.T)
			return cmpRes{c, c == 0, false, true}
		default:
			if a.String() == b.String() {
				return cmpRes{0, true, false, true}
			}
			return cmpRes{}
		}
	}
	if b.Cst || !a.Cst && rank(a) > rank(b) {
		return flip(compareVals(b, a))
	}
	// a is the constant, or both come from the document and a has the lower rank
	if a.K == KNull {
		return cmpRes{-1, false, false, true}
	}
	if a.K == KTime || b.K == KTime {
		// a document's string that spells a date is that date when compared with one; whether
		// that holds for the form with a blank, which DATE() knows, is left open
		for _, s := range []*Val{a, b} {
			if s.K == KStr && !s.Cst && len(s.S) > 10 && s.S[10] == ' ' {
				return cmpRes{}
			}
		}
		if s := a; s.K == KStr && !s.Cst {
			if t, ok := dateOf(s.S); ok {
				c := t.Compare(b.T)
				return cmpRes{c, c == 0, false, true}
			}
		} else if s := b; s.K == KStr && !s.Cst {
			if t, ok := dateOf(s.S); ok {
				c := a.T.Compare(t)
				return cmpRes{c, c == 0, false, true}
			}
		}
		return collate(a, b)
	}
	if a.Cst {
		switch a.K {
		case KBool:
			if b.K == KNum {
				return cmpBool(a.B, truthy(b))
			}
		case KNum:
			if b.K == KBool {
				n := vInt(0)
				if b.B {
					n = vInt(1)
				}
				return cmpNum(a, n)
			}
			if b.K == KStr && a.NC == NInt {
				if i, ok := decimalInt(b.S); ok {
					if i.Cmp(minI64) < 0 || i.Cmp(maxI64) > 0 || a.Uns && i.Sign() < 0 {
						return cmpRes{}
					}
					return cmpNum(a, vBig(i))
				}
			}
		case KStr:
			if b.K == KNum {
				if b.NC == NFloat && b.Num != strconv.FormatFloat(b.F, 'E', -1, 64) {
					return cmpRes{}
				}
				c := strings.Compare(a.S, b.Num)
				return cmpRes{c, c == 0, false, true}
			}
		}
		return collate(a, b)
	}
	switch {
	case a.K == KBool && b.K == KNum:
		return cmpBool(a.B, truthy(b))
	case a.K == KNum && b.K == KStr:
		return cmpRes{} // conversions between document values: see C09
	}
	return collate(a, b)
}

// ---------------------------------------------------------------- functions

func fitsI(i *big.Int) bool { return i.Cmp(minI64) >= 0 && i.Cmp(maxI64) <= 0 }
func fitsU(i *big.Int) bool { return i.Sign() >= 0 && i.Cmp(maxU64) <= 0 }

// intResult is an exact integer result if the operands and it are all signed 64 bit
// integers, or all unsigned ones and one of the operands was unsigned from the start.
func intResult(r *big.Int, ops ...*Val) (*Val, bool) {
	inI, inU, uns := fitsI(r), fitsU(r), false
	for _, o := range ops {
		inI = inI && fitsI(o.I)
		inU = inU && fitsU(o.I)
		uns = uns || o.Uns || !fitsI(o.I)
	}
	if inI || inU && uns {
		v := vBig(r)
		v.Uns = inU && uns
		return v, true
	}
	return nil, false
}

var f1 = map[string]func(float64) float64{
	g.MathFuncAcos: math.Acos, g.MathFuncAsin: math.Asin, g.MathFuncAtan: math.Atan, g.MathFuncCos: math.Cos,
	g.MathFuncSin: math.Sin, g.MathFuncTan: math.Tan, g.MathFuncSqrt: math.Sqrt, g.MathFuncExp: math.Exp,
	g.MathFuncLn: math.Log, g.MathFuncLog: math.Log10,
	g.MathFuncDegrees: func(x float64) float64 { return x * 180 / math.Pi },
	g.MathFuncRadians: func(x float64) float64 { return x * math.Pi / 180 },
}
var f1exact = map[string]func(float64) float64{
	g.MathFuncAbs: math.Abs, g.MathFuncCeil: math.Ceil, g.MathFuncFloor: math.Floor, g.MathFuncRound: math.Round,
}
var f2 = map[string]func(a, b float64) float64{g.MathFuncPow: math.Pow, g.MathFuncAtan2: math.Atan2}
var fArith = map[string]func(a, b float64) float64{
	g.MathFuncAdd: func(a, b float64) float64 { return a + b },
	g.MathFuncSub: func(a, b float64) float64 { return a - b },
	g.MathFuncMul: func(a, b float64) float64 { return a * b },
	g.MathFuncDiv: func(a, b float64) float64 { return a / b },
}

// evalFunc returns the result; ok is false where the model does not say what it is.
func evalFunc(name string, args []*Val) (res *Val, ok bool) {
	for _, a := range args {
		if a.K == KMissing {
			return missing, true
		}
	}
	if name == g.DateFunc {
		if args[0].K == KTime {
			return args[0], true
		}
		if args[0].K == KStr {
			if t, ok := dateOf(args[0].S); ok {
				return vTime(t), true
			}
		}
		return invalid, true
	}
	for _, a := range args {
		if a.K != KNum {
			return invalid, true
		}
	}
	a := args[0]
	if f, is := f1[name]; is {
		return vFloat(f(a.float())), true
	}
	if f, is := f1exact[name]; is {
		if a.NC == NFloat {
			return vFloat(f(a.F)), true
		}
		if name == g.MathFuncAbs {
			return intResult(new(big.Int).Abs(a.I), a)
		}
		return vBig(a.I), true
	}
	if f, is := f2[name]; is {
		return vFloat(f(a.float(), args[1].float())), true
	}
	if name == g.MathFuncNeg {
		if a.NC == NFloat {
			return vFloat(-a.F), true
		}
		return intResult(new(big.Int).Neg(a.I), a)
	}
	b := args[1]
	if a.NC == NFloat || b.NC == NFloat {
		if name == g.MathFuncMod {
			return invalid, true
		}
		return vFloat(fArith[name](a.float(), b.float())), true
	}
	r := new(big.Int)
	switch name {
	case g.MathFuncAdd:
		r.Add(a.I, b.I)
	case g.MathFuncSub:
		r.Sub(a.I, b.I)
	case g.MathFuncMul:
		r.Mul(a.I, b.I)
	case g.MathFuncDiv, g.MathFuncMod:
		if b.I.Sign() == 0 {
			return invalid, true
		}
		if name == g.MathFuncDiv {
			r.Quo(a.I, b.I)
		} else {
			r.Rem(a.I, b.I)
		}
	default:
		panic("model: no function " + name)
	}
	return intResult(r, a, b)
}

// ---------------------------------------------------------------- dates

func digits(s string, n int) (int, bool) {
	if len(s) != n {
		return 0, false
	}
	v := 0
	for i := 0; i < n; i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		v = v*10 + int(s[i]-'0')
	}
	return v, true
}

func daysIn(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	}
	return 31
}

// dayNumber counts the days since 0000-03-01 (proleptic Gregorian calendar).
func dayNumber(y, m, d int) int64 {
	if m <= 2 {
		y--
		m += 12
	}
	y += 400 // such that it is not negative; 400 years are 146097 days
	return int64(365*y+y/4-y/100+y/400+(153*(m-3)+2)/5+d) - 1 - 146097
}

var day1970 = dayNumber(1970, 1, 1)

func instant(y, mo, d, h, mi, s, nanos, offMin int) time.Time {
	sec := (dayNumber(y, mo, d)-day1970)*86400 + int64(h*3600+mi*60+s) - int64(offMin)*60
	return time.Unix(sec, int64(nanos)).UTC()
}

// dateOf reads the forms of dates the property names.
func dateOf(s string) (time.Time, bool) {
	var zero time.Time
	if len(s) < 4 {
		return zero, false
	}
	y, ok := digits(s[:4], 4)
	if !ok {
		return zero, false
	}
	if len(s) == 4 {
		return instant(y, 1, 1, 0, 0, 0, 0, 0), y >= 1900 && y < 2100
	}
	sepOK := func(c byte) bool { return strings.IndexByte("-/. ", c) >= 0 }
	if len(s) == 7 || len(s) == 10 {
		m, ok := digits(s[5:7], 2)
		if !ok || m < 1 || m > 12 || !sepOK(s[4]) || y < 1900 || y >= 2100 {
			return zero, false
		}
		if len(s) == 7 {
			return instant(y, m, 1, 0, 0, 0, 0, 0), true
		}
		d, ok := digits(s[8:10], 2)
		if !ok || !sepOK(s[7]) || d < 1 || d > daysIn(y, m) {
			return zero, false
		}
		return instant(y, m, d, 0, 0, 0, 0, 0), true
	}
	if len(s) < 19 {
		return zero, false
	}
	mo, ok1 := digits(s[5:7], 2)
	d, ok2 := digits(s[8:10], 2)
	if !ok1 || !ok2 || mo < 1 || mo > 12 || d < 1 || d > daysIn(y, mo) {
		return zero, false
	}
	clock := func(t string) (h, mi, se int, ok bool) {
		if len(t) < 8 || t[2] != ':' || t[5] != ':' {
			return
		}
		h, a := digits(t[:2], 2)
		mi, b := digits(t[3:5], 2)
		se, c := digits(t[6:8], 2)
		return h, mi, se, a && b && c && h < 24 && mi < 60 && se < 60
	}
	if s[10] == ' ' {
		rest := strings.TrimLeft(s[10:], " ")
		h, mi, se, ok := clock(rest)
		if !ok || len(rest) != 8 || !sepOK(s[4]) || !sepOK(s[7]) || y < 1900 || y >= 2100 {
			return zero, false
		}
		return instant(y, mo, d, h, mi, se, 0, 0), true
	}
	if s[4] != '-' || s[7] != '-' || s[10] != 'T' {
		return zero, false
	}
	h, mi, se, ok := clock(s[11:])
	if !ok {
		return zero, false
	}
	rest := s[19:]
	nanos := 0
	if len(rest) > 1 && rest[0] == '.' {
		n, scale := 1, 100000000
		for n < len(rest) && rest[n] >= '0' && rest[n] <= '9' {
			nanos += int(rest[n]-'0') * scale
			scale /= 10
			n++
		}
		if n == 1 {
			return zero, false
		}
		rest = rest[n:]
	}
	if rest == "Z" {
		return instant(y, mo, d, h, mi, se, nanos, 0), true
	}
	if len(rest) == 6 && (rest[0] == '+' || rest[0] == '-') && rest[3] == ':' {
		oh, a := digits(rest[1:3], 2)
		om, b := digits(rest[4:6], 2)
		if a && b && oh < 24 && om < 60 {
			off := oh*60 + om
			if rest[0] == '-' {
				off = -off
			}
			return instant(y, mo, d, h, mi, se, nanos, off), true
		}
	}
	return zero, false
}

// ---------------------------------------------------------------- expressions

type env struct {
	doc     *Val
	vars    map[g.VariableID]*Val
	flags   int  // comparisons that needed collation (all of them are evaluated)
	unknown bool // the model does not say what this evaluates to
}

func constVal(x interface{}) *Val {
	var v *Val
	switch x := x.(type) {
	case nil:
		v = vNull()
	case bool:
		v = vBool(x)
	case int:
		v = vInt(int64(x))
	case int64:
		v = vInt(x)
	case int32:
		v = vInt(int64(x))
	case int16:
		v = vInt(int64(x))
	case int8:
		v = vInt(int64(x))
	case uint64:
		v = vBig(new(big.Int).SetUint64(x))
		v.Uns = true
	case uint32:
		v = vBig(new(big.Int).SetUint64(uint64(x)))
		v.Uns = true
	case uint16:
		v = vBig(new(big.Int).SetUint64(uint64(x)))
		v.Uns = true
	case uint8:
		v = vBig(new(big.Int).SetUint64(uint64(x)))
		v.Uns = true
	case float32:
		v = vFloat(float64(x))
	case uint:
		v = vBig(new(big.Int).SetUint64(uint64(x)))
		v.Uns = true
	case float64:
		v = vFloat(x)
	case string:
		v = vStr(x)
	case *time.Time:
		v = vTime(*x)
	default:
		panic(fmt.Sprintf("model: constant %T", x))
	}
	v.Cst = true
	return v
}

func (e *env) operand(x g.Expression) *Val {
	switch x := x.(type) {
	case g.ValueExpr:
		return constVal(x.Value)
	case g.TimeExpr:
		t, ok := dateOf(x.Time.(string))
		if !ok {
			e.unknown = true
			return missing
		}
		v := vTime(t)
		v.Cst = true
		return v
	case g.FieldExpr:
		root := e.doc
		if x.Root != 0 {
			r, ok := e.vars[x.Root]
			if !ok {
				panic("model: unbound variable")
			}
			root = r
		}
		return lookup(root, x.Path)
	case g.FuncExpr:
		var args []*Val
		for _, p := range x.Params {
			args = append(args, e.operand(p))
		}
		if !g_known(x.FuncName) {
			panic("model: function " + x.FuncName)
		}
		v, ok := evalFunc(x.FuncName, args)
		if !ok {
			e.unknown = true
			return missing
		}
		return v
	}
	panic(fmt.Sprintf("model: operand %T", x))
}

func g_known(n string) bool { return n != "" }

func (e *env) comparison(l, r g.Expression, f func(cmpRes) bool) bool {
	a, b := e.operand(l), e.operand(r)
	if a.K == KMissing || b.K == KMissing {
		return false
	}
	res := compareVals(a, b)
	if !res.known {
		e.unknown = true
	}
	if res.flag {
		e.flags++
	}
	return f(res)
}

func (e *env) loop(id g.VariableID, in, sub g.Expression) (present bool, n, pass int) {
	arr := e.operand(in)
	if arr.K != KArr {
		return false, 0, 0
	}
	if e.vars == nil {
		e.vars = map[g.VariableID]*Val{}
	}
	old, had := e.vars[id]
	for _, el := range arr.Arr {
		e.vars[id] = el
		if e.eval(sub) {
			pass++
		}
	}
	if had {
		e.vars[id] = old
	} else {
		delete(e.vars, id)
	}
	return true, len(arr.Arr), pass
}

// eval gives the meaning of an expression; everything is evaluated, nothing is cut short.
func (e *env) eval(x g.Expression) bool {
	switch x := x.(type) {
	case g.TrueExpr:
		return true
	case g.FalseExpr:
		return false
	case g.NotExpr:
		return !e.eval(x.SubExpr)
	case g.AndExpr:
		r := true
		for _, s := range x {
			if !e.eval(s) {
				r = false
			}
		}
		return r
	case g.OrExpr:
		r := false
		for _, s := range x {
			if e.eval(s) {
				r = true
			}
		}
		return r
	case g.ExistsExpr:
		return e.operand(x.SubExpr).K != KMissing
	case g.NotExistsExpr:
		return e.operand(x.SubExpr).K == KMissing
	case g.EqualsExpr:
		return e.comparison(x.Lhs, x.Rhs, func(r cmpRes) bool { return r.eq })
	case g.NotEqualsExpr:
		return !e.comparison(x.Lhs, x.Rhs, func(r cmpRes) bool { return r.eq })
	case g.LessThanExpr:
		return e.comparison(x.Lhs, x.Rhs, func(r cmpRes) bool { return r.c < 0 })
	case g.LessEqualsExpr:
		return e.comparison(x.Lhs, x.Rhs, func(r cmpRes) bool { return r.c <= 0 })
	case g.GreaterThanExpr:
		return e.comparison(x.Lhs, x.Rhs, func(r cmpRes) bool { return r.c > 0 })
	case g.GreaterEqualsExpr:
		return e.comparison(x.Lhs, x.Rhs, func(r cmpRes) bool { return r.c >= 0 })
	case g.LikeExpr:
		l := e.operand(x.Lhs)
		if l.K == KMissing {
			return false
		}
		if l.K != KStr {
			e.flags++
			return false
		}
		return regexRef(x.Rhs, l.S)
	case g.AnyInExpr:
		_, _, pass := e.loop(x.VarId, x.InExpr, x.SubExpr)
		return pass > 0
	case g.EveryInExpr:
		present, n, pass := e.loop(x.VarId, x.InExpr, x.SubExpr)
		return present && pass == n
	case g.AnyEveryInExpr:
		_, n, pass := e.loop(x.VarId, x.InExpr, x.SubExpr)
		return n > 0 && pass == n
	}
	panic(fmt.Sprintf("model: expression %T", x))
}

// meaning evaluates an expression on a document.
func meaning(x g.Expression, doc *Val) (match, known bool, flags int) {
	e := &env{doc: doc}
	m := e.eval(x)
	return m, !e.unknown, e.flags
}

// ---------------------------------------------------------------- the implementation

type compiled struct {
	def *g.MatchDef
	m   *g.FastMatcher
}

func compile(exprs ...g.Expression) *compiled {
	var t g.Transformer
	def := t.Transform(exprs)
	return &compiled{def, g.NewFastMatcher(def)}
}

type outcome struct {
	match bool
	flags int
	err   bool
	each  string
}

func (o outcome) String() string {
	return fmt.Sprintf("match=%v flags=%d err=%v each=%s", o.match, o.flags, o.err, o.each)
}

func (c *compiled) run(doc []byte, n int) outcome {
	ok, flags, err := c.m.MatchWithStatus(doc)
	o := outcome{match: ok, flags: flags, err: err != nil}
	if err == nil {
		b := make([]byte, n)
		for i := range b {
			b[i] = '0'
			if c.m.ExpressionMatched(i) {
				b[i] = '1'
			}
		}
		o.each = string(b)
	}
	return o
}

// show writes an expression on one line (the library's String() spans several).
func show(x g.Expression) string {
	sub := func(op string, s []g.Expression) string {
		var p []string
		for _, e := range s {
			p = append(p, show(e))
		}
		return "(" + strings.Join(p, " "+op+" ") + ")"
	}
	bin := func(l g.Expression, op string, r g.Expression) string { return show(l) + op + show(r) }
	switch x := x.(type) {
	case nil:
		return "nil"
	case g.TrueExpr:
		return "TRUE"
	case g.FalseExpr:
		return "FALSE"
	case g.ValueExpr:
		switch v := x.Value.(type) {
		case string:
			return strconv.Quote(v)
		case float64:
			return strconv.FormatFloat(v, 'g', -1, 64) + "f"
		case uint64:
			return fmt.Sprintf("%du", v)
		case nil:
			return "null"
		default:
			return fmt.Sprint(v)
		}
	case g.TimeExpr:
		return fmt.Sprintf("DATE<%v>", x.Time)
	case g.RegexExpr:
		return fmt.Sprintf("/%v/", x.Regex)
	case g.PcreExpr:
		return fmt.Sprintf("pcre/%v/", x.Pcre)
	case g.FieldExpr:
		s := ""
		if x.Root != 0 {
			s = x.Root.String()
		}
		for i, p := range x.Path {
			if (i > 0 || x.Root != 0) && !strings.HasPrefix(p, "[") {
				s += "."
			}
			s += p
		}
		if s == "" {
			s = "$doc"
		}
		return s
	case g.FuncExpr:
		var p []string
		for _, a := range x.Params {
			p = append(p, show(a))
		}
		return x.FuncName + "(" + strings.Join(p, ",") + ")"
	case g.NotExpr:
		return "!" + show(x.SubExpr)
	case g.AndExpr:
		return sub("&", x)
	case g.OrExpr:
		return sub("|", x)
	case g.ExistsExpr:
		return "exists " + show(x.SubExpr)
	case g.NotExistsExpr:
		return "missing " + show(x.SubExpr)
	case g.EqualsExpr:
		return bin(x.Lhs, "=", x.Rhs)
	case g.NotEqualsExpr:
		return bin(x.Lhs, "!=", x.Rhs)
	case g.LessThanExpr:
		return bin(x.Lhs, "<", x.Rhs)
	case g.LessEqualsExpr:
		return bin(x.Lhs, "<=", x.Rhs)
	case g.GreaterThanExpr:
		return bin(x.Lhs, ">", x.Rhs)
	case g.GreaterEqualsExpr:
		return bin(x.Lhs, ">=", x.Rhs)
	case g.LikeExpr:
		return bin(x.Lhs, "~", x.Rhs)
	case g.AnyInExpr:
		return fmt.Sprintf("any %s in %s {%s}", x.VarId, show(x.InExpr), show(x.SubExpr))
	case g.EveryInExpr:
		return fmt.Sprintf("every %s in %s {%s}", x.VarId, show(x.InExpr), show(x.SubExpr))
	case g.AnyEveryInExpr:
		return fmt.Sprintf("anyevery %s in %s {%s}", x.VarId, show(x.InExpr), show(x.SubExpr))
	}
	return fmt.Sprintf("%T", x)
}

// short helpers to write expressions down
func fld(path ...string) g.FieldExpr                  { return g.FieldExpr{Path: path} }
func vfld(v g.VariableID, path ...string) g.FieldExpr { return g.FieldExpr{Root: v, Path: path} }
func cst(x interface{}) g.ValueExpr                   { return g.ValueExpr{Value: x} }
func eq(l, r g.Expression) g.Expression               { return g.EqualsExpr{Lhs: l, Rhs: r} }
func ne(l, r g.Expression) g.Expression               { return g.NotEqualsExpr{Lhs: l, Rhs: r} }
func lt(l, r g.Expression) g.Expression               { return g.LessThanExpr{Lhs: l, Rhs: r} }
func le(l, r g.Expression) g.Expression               { return g.LessEqualsExpr{Lhs: l, Rhs: r} }
func gt(l, r g.Expression) g.Expression               { return g.GreaterThanExpr{Lhs: l, Rhs: r} }
func ge(l, r g.Expression) g.Expression               { return g.GreaterEqualsExpr{Lhs: l, Rhs: r} }
func fn(name string, p ...g.Expression) g.FuncExpr    { return g.FuncExpr{FuncName: name, Params: p} }
func not(x g.Expression) g.Expression                 { return g.NotExpr{SubExpr: x} }
func and(x ...g.Expression) g.Expression              { return g.AndExpr(x) }
func or(x ...g.Expression) g.Expression               { return g.OrExpr(x) }
func exists(x g.Expression) g.Expression              { return g.ExistsExpr{SubExpr: x} }
func notExists(x g.Expression) g.Expression           { return g.NotExistsExpr{SubExpr: x} }
func anyIn(v g.VariableID, in, s g.Expression) g.Expression {
	return g.AnyInExpr{VarId: v, InExpr: in, SubExpr: s}
}
func everyIn(v g.VariableID, in, s g.Expression) g.Expression {
	return g.EveryInExpr{VarId: v, InExpr: in, SubExpr: s}
}
func anyEveryIn(v g.VariableID, in, s g.Expression) g.Expression {
	return g.AnyEveryInExpr{VarId: v, InExpr: in, SubExpr: s}
}

type cmpOp struct {
	name string
	mk   func(l, r g.Expression) g.Expression
	of   func(c int, eq bool) bool
}

var cmpOps = []cmpOp{
	{"=", eq, func(c int, e bool) bool { return e }},
	{"!=", ne, func(c int, e bool) bool { return !e }},
	{"<", lt, func(c int, e bool) bool { return c < 0 }},
	{"<=", le, func(c int, e bool) bool { return c <= 0 }},
	{">", gt, func(c int, e bool) bool { return c > 0 }},
	{">=", ge, func(c int, e bool) bool { return c >= 0 }},
}

// checkDoc matches the document, written in a given way, and compares with the meaning.
func checkDoc(c *Ctx, x g.Expression, cm *compiled, doc *Val, text []byte) string {
	want, known, _ := meaning(x, doc)
	if !known {
		c.Outcome("unspecified")
		return ""
	}
	cm.m.Reset()
	got := cm.run(text, 1)
	c.Trans(1)
	if got.err {
		return fmt.Sprintf("%s on %s: reported an error", show(x), text)
	}
	w := "0"
	if want {
		w = "1"
	}
	if got.match != want || got.each != w {
		return fmt.Sprintf("%s on %s: should be %v, got %v", show(x), text, want, got)
	}
	if want {
		c.Outcome("match")
	} else {
		c.Outcome("no match")
	}
	return ""
}

func validUTF8(s string) bool { return utf8.ValidString(s) }

func sortedKeys(m map[string]bool) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
