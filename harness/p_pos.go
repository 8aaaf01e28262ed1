package main

// P15: positions of nodes against the items the emitter spelled for them.

import (
	"fmt"
	"math/rand"

	a "github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

// safePos calls Pos or End.
func safePos(n a.Node, end bool) (p pos, pan interface{}) {
	defer func() { pan = recover() }()
	if end {
		return n.End(), nil
	}
	return n.Pos(), nil
}

// classOf names the way in which a position is wrong.
func classOf(got pos, l *laid, i int, end bool) string {
	if got == (pos{}) {
		return "zero"
	}
	for pass := 0; pass < 2; pass++ {
		for d := 0; d < 4; d++ {
			for _, j := range []int{i - d, i + d} {
				if j < 0 || j >= len(l.from) {
					continue
				}
				if (pass == 1) == end && l.from[j] == got {
					return fmt.Sprintf("start%+d", j-i)
				}
				if (pass == 0) == end && l.to[j] == got {
					return fmt.Sprintf("end%+d", j-i)
				}
			}
		}
	}
	return "elsewhere"
}

// checkPositions compares the extents of all nodes of got with those of the
// generated statement at the same place. off is the index of its first item.
func (c *Ctx) checkPositions(got, want a.Node, em *emitter, l *laid, off int, src string) {
	type bad struct{ pos, end pos }
	wrong := map[a.Node]*bad{}
	var visit func(x, y a.Node)
	visit = func(x, y a.Node) {
		cx, cy := children(x), children(y)
		for i := range cx {
			visit(cx[i].node, cy[i].node)
		}
		sp, ok := em.spans[y]
		if !ok {
			return // built in a way that has no text of its own
		}
		first, last := sp.first+off, sp.last+off
		wf := l.from[min(first, len(l.from)-1)]
		if last < first {
			// no text of its own: no position to judge, but no panic either
			if _, pan := safePos(x, false); pan != nil {
				c.violate(typeName(x)+".Pos:panic", fmt.Sprint(pan), src)
			}
			if _, pan := safePos(x, true); pan != nil {
				c.violate(typeName(x)+".End:panic", fmt.Sprint(pan), src)
			}
			if wrong[x] == nil {
				wrong[x] = &bad{noPos, noPos}
			}
			return
		}
		wt := l.to[last]
		report := func(end bool, got, want pos, item int, pan interface{}) {
			m := "Pos"
			if end {
				m = "End"
			}
			// a parent that hands on the wrong position of its first or last
			// child is no violation of its own
			for _, k := range cx {
				if b := wrong[k.node]; b != nil {
					if !end && b.pos == got && got != (noPos) || end && b.end == got && got != (noPos) {
						if ks, ok := em.spans[childOf(cy, k)]; ok && (!end && ks.first == sp.first || end && ks.last == sp.last) {
							if wrong[x] == nil {
								wrong[x] = &bad{noPos, noPos}
							}
							if end {
								wrong[x].end = got
							} else {
								wrong[x].pos = got
							}
							return
						}
					}
				}
			}
			if wrong[x] == nil {
				wrong[x] = &bad{noPos, noPos}
			}
			if end {
				wrong[x].end = got
			} else {
				wrong[x].pos = got
			}
			cl := "panic"
			if pan == nil && end && isQualifiedWildcard(x) && got == (pos{Line: l.to[item-2].Line, Col: l.to[item-2].Col + 2}) {
				cl = "prefix+2"
			} else if pan == nil {
				cl = classOf(got, l, item, end)
			}
			c.violate(fmt.Sprintf("%s.%s:%s%s", typeName(x), m, cl, detailClass(x)), fmt.Sprintf("%s.%s is %d:%d instead of %d:%d (%v) for %s", typeName(x), m, got.Line, got.Col, want.Line, want.Col, pan, dump(x)), src)
		}
		if p, pan := safePos(x, false); pan != nil || p != wf {
			report(false, p, wf, first, pan)
		}
		if p, pan := safePos(x, true); pan != nil || p != wt {
			report(true, p, wt, last, pan)
		}
		c.counters["positions"] += 2
		c.counters["extent_"+typeName(x)]++
	}
	visit(got, want)
	// containment and order, on the positions that are right
	var nested func(n a.Node)
	nested = func(n a.Node) {
		prev := pos{}
		ok := func(x a.Node) bool { return wrong[x] == nil }
		for _, k := range sortedChildren(n) {
			if ok(n) && ok(k) {
				if sqltoken.ComparePos(n.Pos(), k.Pos()) > 0 || sqltoken.ComparePos(k.End(), n.End()) > 0 {
					c.violate("nesting:"+typeName(n), fmt.Sprintf("%s %v-%v is not inside %s %v-%v", typeName(k), k.Pos(), k.End(), typeName(n), n.Pos(), n.End()), src)
				}
				if prev != (pos{}) && sqltoken.ComparePos(k.Pos(), prev) < 0 {
					c.violate("siblings:"+typeName(n), fmt.Sprintf("children of %s overlap", typeName(n)), src)
				}
				prev = k.End()
			}
			nested(k)
		}
	}
	nested(got)
}

// detailClass separates known defects that depend on a property of the node.
func detailClass(n a.Node) string {
	switch x := n.(type) {
	case *a.QueryStmt:
		if len(x.CTEs) > 0 {
			return ":with"
		}
	case *a.CreateTableStmt:
		if len(x.Options) == 0 && len(x.Elements) > 0 {
			return ":elements-only"
		}
	case *a.UniqueColumnSpec:
		if x.IsPrimaryKey {
			return ":primary"
		}
	}
	return ""
}

// childOf returns the node of cy in the same field as k.
func childOf(cy []child, k child) a.Node {
	for _, y := range cy {
		if y.field == k.field && y.index == k.index {
			return y.node
		}
	}
	return nil
}

func sortedChildren(n a.Node) []a.Node {
	var out []a.Node
	for _, k := range children(n) {
		if _, ok := k.node.(*a.CommentGroup); ok {
			continue
		}
		out = append(out, k.node)
	}
	// by start, stable
	for i := 1; i < len(out); i++ {
		for j := i; j > 0; j-- {
			x, px := safePos(out[j], false)
			y, py := safePos(out[j-1], false)
			if px == nil && py == nil && sqltoken.ComparePos(x, y) < 0 {
				out[j], out[j-1] = out[j-1], out[j]
			}
		}
	}
	return out
}

func p15(c *Ctx) {
	c.rule = "random statements and scripts in random layouts (tabs, all line ends, comments, multi-line strings, non-ASCII text): every node of the parsed tree, against the first and last lexical item the emitter spelled for it; distinct by text, non-trivial if more than 8 items"
	c.cases("stmt", c.count(16000), func(i int, r *rand.Rand) {
		sp := genSpec(r, i, anyStmt, anyStyle, nil)
		f, err := parseFile(sp.l.text, sp.d, r.Intn(2) == 0)
		if err != nil || len(f.Stmts) != 1 || diffTrees(f.Stmts[0], sp.stmt, false) != "" {
			c.add("skipped_not_parsed_as_spelled", 1) // P05-P08 judge that
			return
		}
		c.eval(len(sp.em.items) > 8, sp.l.text)
		c.checkPositions(f.Stmts[0], sp.stmt, sp.em, sp.l, 0, sp.l.text)
		if i%1999 == 5 {
			c.sample(sp.l.text)
		}
	})
	// expressions and types parsed alone
	c.cases("parts", c.count(6000), func(i int, r *rand.Rand) {
		d := dials[i%3]
		g := &exprGen{newG(r, d, 5+r.Intn(40)), castForms{}}
		e := g.expr(1 + r.Intn(5))
		em := newEmitter(g.pg, rand.New(rand.NewSource(r.Int63())))
		em.expr(e)
		l := layout(em.items, d, anyStyle(r), r)
		if got, err := parseExpr(l.text, d); err == nil && diffTrees(got, e, false) == "" {
			c.eval(len(em.items) > 3, l.text)
			c.checkPositions(got, e, em, l, 0, l.text)
		}
		t := g.dataType(false)
		em = newEmitter(nil, rand.New(rand.NewSource(r.Int63())))
		em.dataType(t)
		l = layout(em.items, d, anyStyle(r), r)
		if got, err := parseType(l.text, d); err == nil && diffTrees(got, t, false) == "" {
			c.eval(len(em.items) > 1, l.text)
			c.checkPositions(got.(a.Node), t.(a.Node), em, l, 0, l.text)
		}
	})
	// scripts: the file and every statement of it
	c.cases("scripts", c.count(3000), func(i int, r *rand.Rand) {
		sc := genScript(r, i, anyStyle)
		comments := r.Intn(2) == 0
		f, err := parseFile(sc.l.text, sc.d, comments)
		if err != nil || len(f.Stmts) != len(sc.stmts) {
			return
		}
		for k, s := range f.Stmts {
			if diffTrees(s, sc.stmts[k], false) != "" {
				return
			}
			c.checkPositions(s, sc.stmts[k], sc.em, sc.l, 0, sc.l.text)
		}
		c.eval(len(sc.stmts) > 1, sc.l.text)
		if len(f.Stmts) > 0 {
			// from the first statement or comment to the last
			from, to := f.Stmts[0].Pos(), f.Stmts[len(f.Stmts)-1].End()
			if n := len(sc.l.comments); comments && n > 0 {
				if x := sc.l.comments[0].from; sqltoken.ComparePos(x, from) < 0 {
					from = x
				}
				if x := sc.l.comments[n-1].to; sqltoken.ComparePos(x, to) > 0 {
					to = x
				}
			}
			if f.Pos() != from || f.End() != to {
				c.violate("File", fmt.Sprintf("the file extends from %v to %v instead of %v to %v", f.Pos(), f.End(), from, to), sc.l.text)
			}
		}
	})
}

// script is a generated text of several statements.
type script struct {
	d     *dial
	stmts []a.Stmt
	em    *emitter
	l     *laid
	semis []int // items that are semicolons
}

func genScript(r *rand.Rand, i int, style func(r *rand.Rand) gapStyle) *script {
	d := dials[i%3]
	pg := castForms{}
	var st *rand.Rand
	if r.Intn(5) > 0 {
		st = rand.New(rand.NewSource(r.Int63()))
	}
	em := newEmitter(pg, st)
	sc := &script{d: d, em: em}
	semi := func() {
		sc.semis = append(sc.semis, len(em.items))
		em.op(";")
	}
	for r.Intn(4) == 0 {
		semi()
	}
	n, budget := r.Intn(5), 30
	if r.Intn(60) == 0 {
		n, budget = size(r, 300), 3
	}
	for k := 0; k < n; k++ {
		g := &exprGen{newG(r, d, 3+r.Intn(budget)), pg}
		if budget < 10 {
			g.bigList, g.bigName, g.bigText, g.chain = 0, 0, 0, 0
		}
		s := g.stmt(1 + r.Intn(3))
		em.stmt(s)
		sc.stmts = append(sc.stmts, s)
		if k < n-1 || r.Intn(2) == 0 {
			semi()
		}
		if k < n-1 || r.Intn(2) == 0 {
			for r.Intn(5) == 0 && len(sc.semis) > 0 && sc.semis[len(sc.semis)-1] == len(em.items)-1 {
				semi()
			}
		}
	}
	sc.l = layout(em.items, d, style(r), r)
	return sc
}

var noPos = pos{Line: -1, Col: -1}

func isQualifiedWildcard(n a.Node) bool {
	switch n.(type) {
	case *a.QualifiedWildcard, *a.QualifiedWildcardSelectItem:
		return true
	}
	return false
}
