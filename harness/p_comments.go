package main

// P17 and P18: comments of a file and the comment map.

import (
	"fmt"
	"math/rand"
	"strings"

	a "github.com/akito0107/xsqlparser/sqlast"
	"github.com/akito0107/xsqlparser/sqltoken"
)

func (c *Ctx) checkComments(f *a.File, l *laid) {
	src := l.text
	var got []*a.Comment
	for _, g := range f.Comments {
		if len(g.List) == 0 {
			c.violate("empty-group", "a comment group without comments", src)
			return
		}
		got = append(got, g.List...)
	}
	if len(got) != len(l.comments) {
		c.violate("count", fmt.Sprintf("%d comments reported, the text has %d", len(got), len(l.comments)), src)
		return
	}
	for i, w := range l.comments {
		if got[i].Text != w.text {
			c.violate("text", fmt.Sprintf("comment %d is %q instead of %q", i, got[i].Text, w.text), src)
			return
		}
		if got[i].From != w.from || got[i].To != w.to || got[i].Pos() != w.from || got[i].End() != w.to {
			c.violate("extent", fmt.Sprintf("comment %d %q at %v-%v instead of %v-%v", i, w.text, got[i].From, got[i].To, w.from, w.to), src)
			return
		}
	}
	if len(f.Comments) != len(l.groups) {
		c.violate("groups", fmt.Sprintf("%d comment groups instead of %d: %s", len(f.Comments), len(l.groups), commentList(f)), src)
		return
	}
	for i, g := range l.groups {
		fg := f.Comments[i]
		if len(fg.List) != len(g) {
			c.violate("groups", fmt.Sprintf("group %d has %d comments instead of %d: %s", i, len(fg.List), len(g), commentList(f)), src)
			return
		}
		if fg.Pos() != l.comments[g[0]].from || fg.End() != l.comments[g[len(g)-1]].to {
			c.violate("group-extent", fmt.Sprintf("group %d extends from %v to %v", i, fg.Pos(), fg.End()), src)
			return
		}
		var lines []string
		for _, k := range g {
			lines = append(lines, l.comments[k].text)
			if x := got[k].ToSQLString(); x != l.comments[k].text {
				c.violate("comment-print", fmt.Sprintf("comment %d %q prints as %q", k, l.comments[k].text, x), src)
				return
			}
		}
		if x := fg.ToSQLString(); x != strings.Join(lines, "\n") {
			c.violate("group-print", fmt.Sprintf("group %d prints as %q", i, x), src)
			return
		}
	}
	c.add("comments", len(got))
	c.add("groups", len(f.Comments))
}

func p17(c *Ctx) {
	c.rule = "generated scripts with line and block comments at any gap (density 5-50%, before the first and behind the last token, all line ends, comment texts with quotes, markers, tabs and non-ASCII) -> the file's comments and groups against what the layouter wrote; distinct by text, non-trivial if two or more comments"
	c.cases("scripts", c.count(14000), func(i int, r *rand.Rand) {
		sc := genScript(r, i, commentStyle)
		f, err := parseFile(sc.l.text, sc.d, true)
		if err != nil {
			c.add("skipped_rejected", 1)
			return
		}
		c.eval(len(sc.l.comments) > 1, sc.l.text)
		c.checkComments(f, sc.l)
		off, err := parseFile(sc.l.text, sc.d, false)
		if err != nil || len(off.Comments) != 0 {
			c.violate("off", "comments reported although comment parsing is off", sc.l.text)
		}
		if i%2111 == 1 {
			c.sample(sc.l.text)
		}
	})
	// few tokens, many comments: every kind of gap next to every other
	c.cases("dense", c.count(20000), func(i int, r *rand.Rand) {
		d := dials[i%3]
		items := []item{}
		for k := r.Intn(4); k > 0; k-- {
			if r.Intn(4) == 0 {
				items = append(items, item{";", iOp})
				continue
			}
			if len(items) > 0 && items[len(items)-1].text != ";" {
				items = append(items, item{";", iOp})
			}
			items = append(items, item{"SELECT", iKeyword}, item{[]string{"a", "'x\ny'", "\"q\n\""}[r.Intn(3)], iName})
			if r.Intn(2) == 0 {
				items = append(items, item{"FROM", iKeyword}, item{"t", iName})
			}
		}
		st := commentStyle(r)
		st.comments, st.newline = 0.7, 0.4
		l := layout(items, d, st, r)
		f, err := parseFile(l.text, d, true)
		if err != nil {
			c.violate(errKey(err), fmt.Sprintf("valid text with comments rejected: %v", err), l.text)
			return
		}
		c.eval(len(l.comments) > 1, l.text)
		c.checkComments(f, l)
	})
	// the same far to the right, far below, or deep inside of something
	c.cases("far", c.count(2500), func(i int, r *rand.Rand) {
		d := dials[i%3]
		items := []item{{"SELECT", iKeyword}}
		n := 20 + r.Intn(200)
		deep := r.Intn(2) == 0
		for k := 0; k < n; k++ {
			if deep {
				items = append(items, item{"(", iOp})
			} else {
				items = append(items, item{"abc", iName}, item{",", iOp})
			}
		}
		from := len(items)
		items = append(items, item{"a", iName}, item{"+", iOp}, item{"f", iName}, item{"(", iOp}, item{"b", iName}, item{")", iOp})
		to := len(items)
		for k := 0; k < n && deep; k++ {
			items = append(items, item{")", iOp})
		}
		items = append(items, item{"FROM", iKeyword}, item{"t", iName})
		st := commentStyle(r)
		st.comments, st.newline = 0.5, []float64{0, 0.4}[r.Intn(2)]
		before := []gapPiece{{text: []string{" ", "\n", "\t"}[r.Intn(3)]}}
		l := layoutGaps(items, 0, r, func(k int, prev, next string) []gapPiece {
			if k < from {
				return before
			}
			if k > to && r.Intn(10) > 0 {
				return []gapPiece{{text: " "}}
			}
			return st.gap(r, prev, next, d)
		})
		f, err := parseFile(l.text, d, true)
		if err != nil {
			c.violate(errKey(err), fmt.Sprintf("valid text with comments rejected: %v", err), l.text)
			return
		}
		c.eval(len(l.comments) > 1, l.text)
		c.add("far_texts", 1)
		c.checkComments(f, l)
	})
	// a file of comments only, or of nothing
	c.cases("only", c.count(2000), func(i int, r *rand.Rand) {
		st := commentStyle(r)
		st.comments = 1
		l := layout(nil, dials[i%3], st, r)
		f, err := parseFile(l.text, dials[i%3], true)
		if err != nil || len(f.Stmts) != 0 {
			c.violate("only-comments", fmt.Sprintf("a file of comments only: %v", err), l.text)
			return
		}
		c.eval(len(l.comments) > 1, l.text)
		c.checkComments(f, l)
	})
}

// ---- P18

func (c *Ctx) checkMap(f *a.File, src string) a.CommentMap {
	var m a.CommentMap
	func() {
		defer func() {
			if p := recover(); p != nil {
				c.violate("panic", fmt.Sprintf("NewCommentMap panics: %v", p), src)
				m = nil
			}
		}()
		before := commentList(f)
		m = a.NewCommentMap(f)
		if commentList(f) != before {
			c.violate("file-changed", "NewCommentMap changes the comments of the file", src)
		}
		// the map is the caller's own, a second one is like it
		again := a.NewCommentMap(f)
		if len(again) != len(m) {
			c.violate("again", fmt.Sprintf("a second map of the file has %d nodes instead of %d", len(again), len(m)), src)
		}
		for n, gs := range again {
			same := len(gs) == len(m[n])
			for i := 0; same && i < len(gs); i++ {
				same = gs[i] == m[n][i]
			}
			if !same {
				c.violate("again", fmt.Sprintf("a second map of the file has %d other groups for %s", len(gs), shortNode(n)), src)
			}
			for i := range gs {
				gs[i] = nil
			}
			delete(again, n)
		}
	}()
	in := map[a.Node]bool{}
	for _, n := range allNodes(f) {
		in[n] = true
	}
	count := map[*a.CommentGroup]int{}
	for n, gs := range m {
		if n == nil || !in[n] {
			c.violate("foreign-node", fmt.Sprintf("comments are assigned to %v, which is no node of the file", n), src)
			return nil
		}
		for i, g := range gs {
			count[g]++
			if i > 0 && sqltoken.ComparePos(gs[i-1].Pos(), g.Pos()) >= 0 {
				c.violate("order", "the groups of a node are out of order", src)
			}
		}
	}
	for _, g := range f.Comments {
		if count[g] != 1 {
			c.violate("not-once", fmt.Sprintf("the comment at %v is assigned %d times", g.Pos(), count[g]), src)
			return nil
		}
		delete(count, g)
	}
	if len(count) != 0 {
		c.violate("invented", "groups that are not in the file", src)
		return nil
	}
	c.add("groups_assigned", len(f.Comments))
	return m
}

func p18(c *Ctx) {
	c.rule = "generated scripts with comments at any gap (total assignment: every group once, to a node of the file, in order), and scripts with comment lines directly above statements and column definitions and comments behind statements, columns and table constraints on their last line (fitting node); distinct by text, non-trivial if there is a comment"
	c.cases("any", c.count(9000), func(i int, r *rand.Rand) {
		sc := genScript(r, i, commentStyle)
		f, err := parseFile(sc.l.text, sc.d, true)
		if err != nil {
			return
		}
		c.eval(len(sc.l.comments) > 0, sc.l.text)
		c.checkMap(f, sc.l.text)
	})
	c.cases("only", c.count(500), func(i int, r *rand.Rand) {
		st := commentStyle(r)
		st.comments = 1
		l := layout(nil, dials[i%3], st, r)
		f, err := parseFile(l.text, dials[i%3], true)
		if err != nil {
			return
		}
		c.eval(true, l.text)
		c.checkMap(f, l.text)
	})
	c.cases("fixed", 1, func(int, *rand.Rand) {
		// the comment goes with the first or the second statement
		for _, x := range []struct {
			text, key string
			stmt      int
		}{
			{"SELECT 1; -- c\nSELECT 2", "behind:QueryStmt", 0},
			{"SELECT t.* -- c\nFROM t;\nSELECT 2", "behind:QueryStmt", 0},
			{"SELECT t\n.\n*; -- c\nSELECT 2", "behind:wildcard-split-over-lines", 0},
			{"CREATE TABLE t (a int\n\n); -- c\nSELECT 2", "behind:paren-alone-on-its-line", 0},
			{"SELECT 1;\n-- c\nWITH\n a AS (SELECT 1) SELECT 2", "above:QueryStmt:with-alone-on-its-line", 1},
			{"SELECT 1;\n-- c\nDELETE FROM t", "above:DeleteStmt", 1},
			{"INSERT INTO t VALUES (1) -- c\n;\nDELETE FROM t", "behind:InsertStmt", 0},
		} {
			f, err := parseFile(x.text, dials[0], true)
			if err != nil || len(f.Stmts) != 2 || len(f.Comments) != 1 {
				continue // judged by P05-P07 and P17
			}
			c.eval(true, x.text)
			c.checkMap(f, x.text)
			ok := false
			for _, n := range allNodes(f.Stmts[x.stmt]) {
				for _, g := range a.NewCommentMap(f)[n] {
					ok = ok || g == f.Comments[0]
				}
			}
			if !ok {
				c.violate(x.key, fmt.Sprintf("the comment does not belong to statement %d", x.stmt+1), x.text)
			}
		}
	})
	c.cases("placed", c.count(9000), func(i int, r *rand.Rand) {
		c.placedComments(i, r)
	})
}

// placedComments writes a script with comments at places where the property
// says to which node they belong.
func (c *Ctx) placedComments(i int, r *rand.Rand) {
	d := dials[i%3]
	pg := castForms{}
	em := newEmitter(pg, rand.New(rand.NewSource(r.Int63())))
	n := 1 + r.Intn(4)
	var stmts []a.Stmt
	type place struct {
		node a.Node
		how  int
	}
	const (
		above  = iota // right above the node
		behind        // where the node ends
		below         // right below the node, and an empty line follows
		alone         // above the node, between empty lines
		last          // anywhere behind the last node
	)
	at := map[int]place{} // gap -> what is placed in it
	multi := r.Intn(2) == 0
	for k := 0; k < n; k++ {
		g := &exprGen{newG(r, d, 3+r.Intn(15)), pg}
		var s a.Stmt
		if r.Intn(3) == 0 {
			s = g.createTable(2)
		} else {
			s = g.stmt(1 + r.Intn(3))
		}
		first := len(em.items)
		em.stmt(s)
		if r.Intn(2) == 0 {
			if _, taken := at[first]; !taken {
				at[first] = place{s, []int{above, above, alone}[r.Intn(3)]}
			}
		}
		if ct, ok := s.(*a.CreateTableStmt); ok {
			for e, el := range ct.Elements {
				if cd, ok := el.(*a.ColumnDef); ok && r.Intn(2) == 0 {
					if _, taken := at[em.spans[cd].first]; !taken {
						at[em.spans[cd].first] = place{cd, []int{above, above, alone}[r.Intn(3)]}
					}
				}
				if gap := em.spans[el].last + 1 + r.Intn(2); e+1 < len(ct.Elements) && r.Intn(2) == 0 {
					at[gap] = place{el, behind} // before or behind the comma
					if gap > em.spans[el].last+1 && r.Intn(3) == 0 {
						at[gap] = place{el, below}
					}
				}
			}
		}
		stmts = append(stmts, s)
		if k < n-1 || r.Intn(2) == 0 {
			em.op(";")
		}
		if r.Intn(2) == 0 {
			at[len(em.items)] = place{s, []int{behind, below}[r.Intn(2)]}
			if k == n-1 && r.Intn(3) == 0 {
				at[len(em.items)] = place{s, last}
			}
		}
	}
	st := wildStyle(r)
	if !multi {
		st.newline = 0
	}
	type expect struct {
		place
		group int
		item  int // the statement's last item
	}
	var exp []expect
	mkComment := func() gapPiece {
		if r.Intn(2) == 0 {
			t := lineText(r)
			return gapPiece{text: "--" + t, isComment: true, inner: t}
		}
		t := strings.NewReplacer("\n", " ", "\r", " ").Replace(blockText(r))
		return gapPiece{text: "/*" + t + "*/", isComment: true, block: true, inner: t}
	}
	groups := 0
	l := layoutGaps(em.items, st.kwCase, r, func(k int, prev, next string) []gapPiece {
		p, ok := at[k]
		switch {
		case !ok:
			return st.gap(r, prev, next, d)
		case p.how != behind:
			// on lines of their own, the last one right above the node, or with
			// empty lines on one side or both
			var ps []gapPiece
			lines := 1 + r.Intn(3)
			if p.how == alone {
				lines = 2 + r.Intn(3)
			}
			if p.how == below {
				lines = 1
			}
			for m := lines; m > 0 && (prev != "" || r.Intn(2) == 0); m-- {
				ps = append(ps, gapPiece{text: "\n"})
			}
			for m := 1 + r.Intn(3); m > 0; m-- {
				if r.Intn(2) == 0 {
					ps = append(ps, gapPiece{text: " "})
				}
				ps = append(ps, mkComment(), gapPiece{text: "\n"})
			}
			if p.how != above {
				for m := 1 + r.Intn(3); m > 0; m-- {
					ps = append(ps, gapPiece{text: "\n"})
				}
			}
			if r.Intn(2) == 0 {
				ps = append(ps, gapPiece{text: "\t"})
			}
			exp = append(exp, expect{p, groups, em.spans[p.node].last})
			groups++
			return ps
		default:
			// behind the node, on the line where it ends
			ps := []gapPiece{{text: " "}, mkComment(), {text: "\n"}}
			for m := r.Intn(3); m > 0; m-- {
				ps = append(ps, gapPiece{text: "\n"})
			}
			exp = append(exp, expect{p, groups, em.spans[p.node].last})
			groups++
			return ps
		}
	})
	f, err := parseFile(l.text, d, true)
	if err != nil || len(f.Stmts) != len(stmts) || len(f.Comments) != groups {
		return // judged by P05-P07 and P17
	}
	twin := map[a.Node]a.Node{} // generated node -> parsed node
	for k := range stmts {
		if diffTrees(f.Stmts[k], stmts[k], false) != "" {
			return
		}
		pairs(f.Stmts[k], stmts[k], func(x, y a.Node) { twin[y] = x })
	}
	c.eval(groups > 0, l.text)
	m := c.checkMap(f, l.text)
	owner := map[*a.CommentGroup]a.Node{}
	for n, gs := range m {
		for _, g := range gs {
			owner[g] = n
		}
	}
	if m == nil {
		return
	}
	for _, x := range exp {
		g := f.Comments[x.group]
		want := twin[x.node]
		if x.how == above || x.how == alone {
			c.add("placed_above_"+typeName(want), 1)
			if owner[g] != want {
				cl := ""
				if q, ok := want.(*a.QueryStmt); ok && len(q.CTEs) > 0 {
					if sp := em.spans[x.node]; l.from[sp.first].Line != l.from[sp.first+1].Line {
						cl = ":with-alone-on-its-line"
					}
				}
				c.violate("above:"+typeName(want)+cl, fmt.Sprintf("the comment at %v above the %s at %v belongs to a %T %s", g.Pos(), typeName(want), want.Pos(), owner[g], dump(owner[g])), l.text)
			}
			continue
		}
		if off := g.Pos().Line - l.to[x.item].Line; x.how != last && off != x.how-behind {
			continue // the semicolon stands on a later line than the statement
		}
		c.add([]string{"placed_behind_", "placed_below_", "", "placed_last_"}[x.how-behind]+typeName(want), 1)
		part := false
		for _, n := range allNodes(want) {
			if n == owner[g] {
				part = true
			}
		}
		if !part {
			cl := ""
			// known defects of recorded ends (P15) that reach the map
			inner := want
			for {
				ex, ok := inner.(*a.ExplainStmt)
				if !ok {
					break
				}
				inner = ex.Stmt
			}
			k := x.item
			if ct, ok := inner.(*a.CreateTableStmt); ok && len(ct.Options) == 0 && len(ct.Elements) > 0 {
				if l.to[k-1].Line != l.to[k].Line {
					cl = "paren-alone-on-its-line"
				}
			} else if em.items[k].text == "*" && em.items[k-1].text == "." && l.to[k-2].Line != l.to[k].Line {
				cl = "wildcard-split-over-lines"
			}
			if cl == "" {
				cl = typeName(want)
			}
			c.violate("behind:"+cl, fmt.Sprintf("the comment at %v behind or below the %s belongs to a %T %s", g.Pos(), typeName(want), owner[g], dump(owner[g])), l.text)
		}
	}
	if i%1501 == 3 {
		c.sample(l.text)
	}
}
