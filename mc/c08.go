//go:build mcint

package main

import (
	"fmt"
	"strings"

	g "github.com/couchbaselabs/gojsonsm"
)

const (
	kLeaf = iota
	kOr
	kAnd
	kNot
	kNeor
	kLoop
)

type btree struct {
	kind int
	l, r *btree
	idx  int
}

// btrees returns all trees with the given number of leaves and of unary nodes.
var btreeMemo = map[[2]int][]*btree{}

func btrees(leaves, unary int) []*btree {
	key := [2]int{leaves, unary}
	if t, ok := btreeMemo[key]; ok {
		return t
	}
	var out []*btree
	if leaves == 1 && unary == 0 {
		out = append(out, &btree{kind: kLeaf})
	}
	if unary > 0 {
		for _, s := range btrees(leaves, unary-1) {
			out = append(out, &btree{kind: kNot, l: s}, &btree{kind: kLoop, l: s})
		}
	}
	for a := 1; a < leaves; a++ {
		for u := 0; u <= unary; u++ {
			for _, l := range btrees(a, u) {
				for _, r := range btrees(leaves-a, unary-u) {
					for _, k := range []int{kOr, kAnd, kNeor} {
						out = append(out, &btree{kind: k, l: l, r: r})
					}
				}
			}
		}
	}
	btreeMemo[key] = out
	return out
}

func (t *btree) clone() *btree {
	if t == nil {
		return nil
	}
	return &btree{kind: t.kind, l: t.l.clone(), r: t.r.clone()}
}

func (t *btree) String() string {
	switch t.kind {
	case kLeaf:
		return "x"
	case kNot:
		return "!" + t.l.String()
	case kLoop:
		return "loop{" + t.l.String() + "}"
	}
	return "(" + t.l.String() + map[int]string{kOr: " | ", kAnd: " & ", kNeor: " ; "}[t.kind] + t.r.String() + ")"
}

// three-valued: 0 undecided, 2 true, 3 false
func kNotV(a int) int {
	if a == 0 {
		return 0
	}
	return 5 - a
}

type btCase struct {
	c     *Ctx
	root  *btree
	nodes []*btree
	t     *g.McTree
	val   []int // what each unit (leaf or loop) was given
	hist  []string
}

func (b *btCase) number(t *btree, parent int, out *[][4]int) {
	t.idx = len(*out)
	b.nodes = append(b.nodes, t)
	*out = append(*out, [4]int{t.kind, parent, 0, 0})
	if t.l != nil {
		b.number(t.l, t.idx, out)
		(*out)[t.idx][2] = t.l.idx
	}
	if t.r != nil {
		b.number(t.r, t.idx, out)
		(*out)[t.idx][3] = t.r.idx
	}
}

// units are the conditions of a tree: its leaves and the loops that are not inside other loops.
func units(t *btree, out []*btree) []*btree {
	switch t.kind {
	case kLeaf, kLoop:
		return append(out, t)
	}
	out = units(t.l, out)
	if t.r != nil {
		out = units(t.r, out)
	}
	return out
}

// kleene is what the tree is worth given what its units were given; missing is the value of others.
func (b *btCase) kleene(t *btree, missing int) int {
	switch t.kind {
	case kLeaf, kLoop:
		if v := b.val[t.idx]; v != 0 {
			return v
		}
		return missing
	case kNot:
		return kNotV(b.kleene(t.l, missing))
	}
	l, r := b.kleene(t.l, missing), b.kleene(t.r, missing)
	switch t.kind {
	case kOr:
		if l == 2 || r == 2 {
			return 2
		}
	case kAnd:
		if l == 3 || r == 3 {
			return 3
		}
	}
	if l == 0 || r == 0 {
		return 0
	}
	if t.kind == kAnd {
		return 2
	}
	if l == 2 || r == 2 {
		return 2
	}
	return 3
}

func (b *btCase) fail(format string, a ...interface{}) string {
	var s []string
	for i := range b.nodes {
		s = append(s, fmt.Sprint(b.t.Get(i)))
	}
	return fmt.Sprintf("%s after %s: %s (state %s)", b.root, strings.Join(b.hist, ", "), fmt.Sprintf(format, a...), strings.Join(s, ""))
}

func (b *btCase) state() string {
	s := make([]byte, len(b.nodes))
	for i := range s {
		s[i] = byte('0' + b.t.Get(i))
	}
	return string(s)
}

func (b *btCase) allDecided(t *btree) bool {
	if !b.t.Known(t.idx) {
		return false
	}
	return (t.l == nil || b.allDecided(t.l)) && (t.r == nil || b.allDecided(t.r))
}

// verify compares the state below t, of which no ancestor is decided, with the reference.
func (b *btCase) verify(t *btree) string {
	got := b.t.Get(t.idx)
	want := b.kleene(t, 0)
	if got != want {
		return b.fail("node %d (%s) is %d, should be %d", t.idx, t, got, want)
	}
	if b.t.Known(t.idx) != (got != 0) || b.t.True(t.idx) != (got == 2) {
		return b.fail("node %d: inconsistent answers", t.idx)
	}
	if got != 0 {
		if t.kind != kNeor && !b.allDecided(t) {
			return b.fail("something below the decided node %d is open", t.idx)
		}
		if t.kind != kNeor {
			return ""
		}
	}
	if t.kind == kLeaf || t.kind == kLoop {
		if got == 0 && t.kind == kLoop {
			for i := t.idx; i <= last(t); i++ {
				if b.t.Get(i) != 0 {
					return b.fail("part %d of a loop that did not run is decided", i)
				}
			}
		}
		return ""
	}
	if m := b.verify(t.l); m != "" {
		return m
	}
	if t.r != nil {
		return b.verify(t.r)
	}
	return ""
}

func last(t *btree) int {
	if t.r != nil {
		return last(t.r)
	}
	if t.l != nil {
		return last(t.l)
	}
	return t.idx
}

// give delivers a result for a unit the way the matcher does.
func (b *btCase) give(u *btree, v int) string {
	i := u.idx
	if u.kind == kLoop {
		i = u.l.idx
	}
	if b.t.Known(i) {
		b.val[u.idx] = v // it no longer matters
		return ""
	}
	b.c.Trans(1)
	if u.kind == kLoop {
		if m := b.runLoop(u); m != "" {
			return m
		}
	}
	b.t.Mark(i, v == 2)
	b.val[u.idx] = v
	return ""
}

// runLoop runs the body of a loop with all combinations of what its conditions can give.
func (b *btCase) runLoop(u *btree) string {
	body := u.l
	us := units(body, nil)
	before := b.state()
	old := b.t.Stall(body.idx)
	n := 1
	for range us {
		n *= 3
	}
	order := 0
	for k := 0; k < n; k++ {
		if n > 27 && (k*7)%5 != 0 {
			continue
		}
		b.t.ResetNode(body.idx)
		for _, x := range us {
			b.val[x.idx] = 0
		}
		for i := body.idx; i <= last(body); i++ {
			if b.t.Get(i) != 0 {
				return b.fail("node %d is not undecided after its subtree was reset", i)
			}
		}
		d := k
		order++
		for j := range us {
			x := us[j]
			if order%2 == 0 {
				x = us[len(us)-1-j]
			}
			v := d % 3
			d /= 3
			if v != 0 && !b.t.Known(body.idx) {
				if m := b.give(x, v+1); m != "" {
					return m
				}
				if m := b.verify(body); m != "" {
					return "in a loop: " + m
				}
			}
		}
		b.t.ResolveNode(body.idx)
		if got, want := b.t.Get(body.idx), b.kleene(body, 3); got != want {
			return b.fail("loop body %s resolved to %d, should be %d", body, got, want)
		}
		if s := b.state(); s[:body.idx] != before[:body.idx] || s[last(body)+1:] != before[last(body)+1:] {
			return b.fail("the body of the loop at %d changed something outside of it (before: %s)", u.idx, before)
		}
	}
	b.t.ResetNode(body.idx)
	for _, x := range us {
		b.val[x.idx] = 0
	}
	if back := b.t.Stall(old); back != body.idx {
		return b.fail("the previous stall index was %d, not %d", back, body.idx)
	}
	if s := b.state(); s != before {
		return b.fail("the state was %s before the loop", before)
	}
	return ""
}

// replay brings a new state to the point after the given deliveries.
func (b *btCase) replay(seq [][2]int) string {
	for i := range b.val {
		b.val[i] = 0
	}
	b.hist = b.hist[:0]
	for _, e := range seq {
		b.hist = append(b.hist, fmt.Sprintf("%d=%v", e[0], e[1] == 2))
		if m := b.give(b.nodes[e[0]], e[1]); m != "" {
			return m
		}
	}
	return ""
}

func (b *btCase) neorOnly(t *btree) string {
	if got, want := b.t.Get(t.idx), b.kleene(t, 3); got != want {
		return b.fail("resolved node %d (%s) is %d, should be %d", t.idx, t, got, want)
	}
	if t.kind == kNeor {
		if m := b.neorOnly(t.l); m != "" {
			return m
		}
		return b.neorOnly(t.r)
	}
	return ""
}

func (b *btCase) explore(us []*btree) string {
	var seq [][2]int
	used := map[*btree]bool{}
	var rec func() string
	rec = func() string {
		b.t.New()
		if m := b.replay(seq); m != "" {
			return m
		}
		b.c.State(b.root.String(), b.state())
		if m := b.verify(b.root); m != "" {
			return m
		}
		// the end of the document here
		b.t.Resolve()
		if m := b.neorOnly(b.root); m != "" {
			return m
		}
		b.c.Trans(1)
		// reset, also in the middle of a loop, and the same again
		if b.root.l != nil {
			b.t.Stall(b.root.l.idx)
		}
		b.t.Reset()
		for i := range b.nodes {
			if b.t.Get(i) != 0 {
				return b.fail("node %d is not undecided after a reset", i)
			}
		}
		if m := b.replay(seq); m != "" {
			return "after a reset: " + m
		}
		if m := b.verify(b.root); m != "" {
			return "after a reset: " + m
		}
		// reset of any subtree leaves the rest alone
		for _, n := range b.nodes {
			b.t.Reset()
			if m := b.replay(seq); m != "" {
				return m
			}
			before := b.state()
			b.t.ResetNode(n.idx)
			after := b.state()
			want := before[:n.idx] + strings.Repeat("0", last(n)-n.idx+1) + before[last(n)+1:]
			if after != want {
				return b.fail("resetting node %d turned %s into %s", n.idx, before, after)
			}
		}
		for _, u := range us {
			if used[u] {
				continue
			}
			used[u] = true
			for v := 2; v <= 3; v++ {
				seq = append(seq, [2]int{u.idx, v})
				if m := rec(); m != "" {
					return m
				}
				seq = seq[:len(seq)-1]
			}
			used[u] = false
		}
		return ""
	}
	return rec()
}

func init() {
	c08Inside = func(c *Ctx) {
		type lim struct{ leaves, unary int }
		lims := []lim{{1, 3}, {2, 3}, {3, 3}, {4, 2}}
		if c.Thorough {
			lims = []lim{{1, 4}, {2, 4}, {3, 3}, {4, 3}, {5, 1}}
		}
		for _, l := range lims {
			for u := 0; u <= l.unary; u++ {
				for _, shape := range btrees(l.leaves, u) {
					shape := shape
					c.Do(func() string { return shape.String() }, func() string {
						b := &btCase{c: c, root: shape.clone()}
						var nodes [][4]int
						b.number(b.root, 0, &nodes)
						b.val = make([]int, len(nodes))
						b.t = g.McNewTree(nodes)
						if !b.t.Valid() {
							return "the tree is reported as invalid"
						}
						c.NonTrivial()
						c.Trace()
						c.Outcome("agree")
						return b.explore(units(b.root, nil))
					})
				}
			}
		}
	}
}
