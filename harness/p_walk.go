package main

import (
	"fmt"
	"math/rand"

	a "github.com/akito0107/xsqlparser/sqlast"
)

// ---- P19: Walk and Inspect

// traceEvent is one call of a visitor.
type traceEvent struct {
	visitor int // 0: the one Walk was called with
	node    a.Node
	ret     int // visitor returned, -1: nil
}

type recVisitor struct {
	id int
	t  *walkTrace
}

type walkTrace struct {
	events []traceEvent
	n      int
	skip   func(n a.Node) bool
}

func (v *recVisitor) Visit(n a.Node) a.Visitor {
	ev := traceEvent{visitor: v.id, node: n, ret: -1}
	if n == nil {
		v.t.events = append(v.t.events, ev)
		return v // the result of the closing call is ignored
	}
	if v.t.skip(n) {
		v.t.events = append(v.t.events, ev)
		return nil
	}
	v.t.n++
	ev.ret = v.t.n
	v.t.events = append(v.t.events, ev)
	return &recVisitor{v.t.n, v.t}
}

// sourceOrder gives the place of each node in the text; nil: unknown, and
// only lists are checked for their order.
type sourceOrder map[a.Node]int

// walkOracle checks a trace against the tree: a recursive descent over the
// recorded calls.
type walkOracle struct {
	ev    []traceEvent
	i     int
	order sourceOrder
	skip  func(n a.Node) bool
	next  int // id of the next visitor handed out
	nodes int
	skips int
}

func (o *walkOracle) check(n a.Node, visitor int) string {
	if o.i >= len(o.ev) {
		return fmt.Sprintf("%s is never visited", typeName(n))
	}
	e := o.ev[o.i]
	if e.node != n {
		return fmt.Sprintf("call %d visits %s (nil: %v) where the %s %s is due", o.i, typeName(e.node), e.node == nil, typeName(n), shortNode(n))
	}
	if e.visitor != visitor {
		return fmt.Sprintf("%s is visited with visitor %d instead of %d", typeName(n), e.visitor, visitor)
	}
	o.i++
	o.nodes++
	if o.skip(n) {
		o.skips++
		return ""
	}
	mine := e.ret
	rest := children(n)
	if o.order != nil {
		rest = sortBySource(rest, o.order)
	}
	for len(rest) > 0 {
		k := 0
		if o.order == nil {
			// any field order, lists from front to back
			k = -1
			if o.i < len(o.ev) {
				for j, c := range rest {
					if c.node == o.ev[o.i].node {
						k = j
						break
					}
				}
			}
			if k < 0 {
				return fmt.Sprintf("below %s, call %d visits something else than its remaining children (%s, field %s ...)", typeName(n), o.i, typeName(rest[0].node), rest[0].field)
			}
			for j := 0; j < k; j++ {
				if rest[j].field == rest[k].field {
					return fmt.Sprintf("%s.%s is visited out of order", typeName(n), rest[k].field)
				}
			}
		}
		if d := o.check(rest[k].node, mine); d != "" {
			return d
		}
		rest = append(rest[:k:k], rest[k+1:]...)
	}
	if o.i >= len(o.ev) || o.ev[o.i].node != nil {
		return fmt.Sprintf("no closing call after the children of %s", typeName(n))
	}
	if o.ev[o.i].visitor != mine {
		return fmt.Sprintf("the closing call for %s goes to visitor %d instead of %d", typeName(n), o.ev[o.i].visitor, mine)
	}
	o.i++
	return ""
}

func shortNode(n a.Node) string {
	s := dump(n)
	if len(s) > 60 {
		s = s[:60] + "..."
	}
	return s
}

func sortBySource(cs []child, order sourceOrder) []child {
	out := append([]child{}, cs...)
	// insertion sort, stable; nodes that were not spelled keep their place
	for i := 1; i < len(out); i++ {
		for j := i; j > 0; j-- {
			x, okx := order[out[j-1].node]
			y, oky := order[out[j].node]
			if !okx || !oky || x <= y {
				break
			}
			out[j-1], out[j] = out[j], out[j-1]
		}
	}
	return out
}

// checkWalk walks one tree with a recording visitor and with Inspect.
func (c *Ctx) checkWalk(root a.Node, order sourceOrder, r *rand.Rand, src string) {
	before := copyTree(root)
	skipped := map[a.Node]bool{}
	mode := r.Intn(3)
	if mode > 0 {
		for _, n := range allNodes(root) {
			if r.Intn(6*mode) == 0 {
				skipped[n] = true
			}
		}
	}
	skip := func(n a.Node) bool { return skipped[n] }
	t := &walkTrace{skip: skip}
	a.Walk(&recVisitor{0, t}, root)
	o := &walkOracle{ev: t.events, order: order, skip: skip}
	d := o.check(root, 0)
	if d == "" && o.i != len(t.events) {
		d = fmt.Sprintf("%d calls after the walk should have ended", len(t.events)-o.i)
	}
	if d != "" {
		c.violate("walk:"+typeName(root), "Walk: "+d+"\n"+dump(root), src)
		return
	}
	c.add("visits", o.nodes)
	c.add("skipped_subtrees", o.skips)
	// Inspect makes the same calls
	var ins []a.Node
	a.Inspect(root, func(n a.Node) bool {
		ins = append(ins, n)
		return n == nil || !skipped[n]
	})
	same := len(ins) == len(t.events)
	for i := 0; same && i < len(ins); i++ {
		same = ins[i] == t.events[i].node
	}
	if !same {
		c.violate("inspect:"+typeName(root), fmt.Sprintf("Inspect makes %d calls, Walk %d, or in another order", len(ins), len(t.events)), src)
	}
	if df := diffTrees(before, root, true); df != "" {
		c.violate("changed", "the walk changed the tree: "+df, src)
	}
}

// orderOf maps the nodes of a parsed tree to their place in the text.
func orderOf(got, want a.Node, em *emitter) sourceOrder {
	place := map[a.Node]int{}
	for i, n := range em.order {
		if x, ok := n.(a.Node); ok {
			place[x] = i
		}
	}
	order := sourceOrder{}
	pairs(got, want, func(g, w a.Node) {
		if p, ok := place[w]; ok {
			order[g] = p
		}
	})
	return order
}

func canonicalAttrs(g *G, e *emitter) { e.fixed = true }

func p19(c *Ctx) {
	c.rule = "parsed statements, files and parts of them, and hand-built trees of every node type: the recorded visitor calls of Walk and Inspect against the tree read by reflection, children in the order in which the text spells them; random subtrees skipped, a new visitor per node; distinct by tree, non-trivial if more than 3 nodes"
	c.cases("parsed", c.count(12000), func(i int, r *rand.Rand) {
		sp := genSpec(r, i, anyStmt, func(*rand.Rand) gapStyle { return plainStyle }, canonicalAttrs)
		f, err := parseFile(sp.l.text, sp.d, false)
		if err != nil || len(f.Stmts) != 1 || diffTrees(f.Stmts[0], sp.stmt, false) != "" {
			c.add("skipped_not_parsed_as_spelled", 1)
			return
		}
		order := orderOf(f.Stmts[0], sp.stmt, sp.em)
		c.checkWalk(f, order, r, sp.l.text)
		nodes := allNodes(f)
		c.checkWalk(nodes[r.Intn(len(nodes))], order, r, sp.l.text)
		c.eval(len(nodes) > 3, sp.l.text)
		c.countNodes(f)
		if i%1999 == 5 {
			c.sample(sp.l.text)
		}
	})
	c.cases("scripts", c.count(1500), func(i int, r *rand.Rand) {
		sc := genScript(r, i, func(*rand.Rand) gapStyle { return plainStyle })
		f, err := parseFile(sc.l.text, sc.d, r.Intn(2) == 0)
		if err != nil {
			return
		}
		c.checkWalk(f, nil, r, sc.l.text)
		c.eval(len(f.Stmts) > 1, sc.l.text)
	})
	l := learn(c.Seed*1000003, 3000)
	c.cases("handbuilt", c.count(12000), func(i int, r *rand.Rand) {
		t := l.randomTree(r, i, 1+r.Intn(4))
		c.checkWalk(t, nil, r, dump(t))
		c.eval(len(allNodes(t)) > 3, dump(t))
		c.countNodes(t)
	})
}
