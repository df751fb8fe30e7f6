package main

import (
	"fmt"
	"strings"

	g "github.com/couchbaselabs/gojsonsm"
)

// defComplete: everything that the compiled definition consists of is in its printed form, in whatever order.
func defComplete(d *g.MatchDef, text string) string {
	need := map[string]int{}
	skip := false
	var ref func(r g.DataRef)
	ref = func(r g.DataRef) {
		switch r := r.(type) {
		case g.SlotRef:
			need[fmt.Sprintf("$%d", r.Slot)]++
		case g.FuncRef:
			need[r.FuncName]++
			for _, p := range r.Params {
				ref(p)
			}
		case nil:
		default:
			if s := r.String(); s != "" && !strings.Contains(s, "\n") {
				need[s]++
			}
		}
	}
	var walk func(n *g.ExecNode)
	ops := func(l []g.OpNode) {
		for _, o := range l {
			need[o.Op.String()]++
			need[fmt.Sprintf("[%d]", o.BucketIdx)]++
			ref(o.Lhs)
			ref(o.Rhs)
		}
	}
	loops := func(l []g.LoopNode) {
		for _, o := range l {
			need[o.Mode.String()]++
			need[fmt.Sprintf("[%d]", o.BucketIdx)]++
			ref(o.Target)
			walk(o.Node)
		}
	}
	walk = func(n *g.ExecNode) {
		if n == nil {
			return
		}
		if n.StoreId > 0 {
			need[fmt.Sprintf("$%d", n.StoreId)]++
		}
		for k, e := range n.Elems {
			need["`"+k+"`"]++
			skip = skip || strings.ContainsAny(k, "\n`")
			walk(e)
		}
		ops(n.Ops)
		loops(n.Loops)
		if n.After != nil {
			ops(n.After.Ops)
			loops(n.After.Loops)
		}
	}
	walk(d.ParseNode)
	if skip {
		return ""
	}
	for w, n := range need {
		if c := strings.Count(text, w); c < n {
			return fmt.Sprintf("the printed definition has %q %d times instead of at least %d times:\n%s", w, c, n, cut(text))
		}
	}
	return ""
}
