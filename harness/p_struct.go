package main

// P05-P09, P14: structure, precedence, round trips and literals. The oracle is
// the generated tree itself: the emitter spells it, the parser must return it.

import (
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"strconv"
	"strings"

	a "github.com/akito0107/xsqlparser/sqlast"
)

var idxRe = regexp.MustCompile(`\[\d+\]`)

// diffKey turns a difference into a key that does not depend on the input.
func diffKey(diff string) string {
	s := idxRe.ReplaceAllString(diff, "")
	if i := strings.Index(s, ": "); i >= 0 {
		path := s[:i]
		parts := strings.Split(path, "/")
		return parts[len(parts)-1]
	}
	return s
}

func errKey(err error) string {
	s := err.Error()
	if i := strings.LastIndex(s, "\n"); i >= 0 {
		s = s[:i]
	}
	s = regexp.MustCompile(`[0-9]+`).ReplaceAllString(s, "N")
	if len(s) > 80 {
		s = s[:80]
	}
	return "err:" + s
}

// spec is one generated statement with its spelling.
type spec struct {
	d    *dial
	stmt a.Stmt
	em   *emitter
	l    *laid
}

func genSpec(r *rand.Rand, i int, make func(g *exprGen) a.Stmt, layoutStyle func(r *rand.Rand) gapStyle, tune func(g *G, e *emitter)) *spec {
	return genSpecFor(r, dials[i%3], make, layoutStyle, tune)
}

func genSpecFor(r *rand.Rand, d *dial, make func(g *exprGen) a.Stmt, layoutStyle func(r *rand.Rand) gapStyle, tune func(g *G, e *emitter)) *spec {
	g := &exprGen{newG(r, d, 4+r.Intn(60)), castForms{}}
	var style *rand.Rand
	if r.Intn(5) > 0 {
		style = rand.New(rand.NewSource(r.Int63()))
	}
	em := newEmitter(g.pg, style)
	if tune != nil {
		tune(g.G, em)
	}
	s := make(g)
	em.stmt(s)
	return &spec{d: d, stmt: s, em: em, l: layout(em.items, d, layoutStyle(r), r)}
}

func anyStyle(r *rand.Rand) gapStyle {
	switch r.Intn(5) {
	case 0:
		return plainStyle
	case 1:
		return tightStyle
	case 2:
		return commentStyle(r)
	}
	return wildStyle(r)
}

func (c *Ctx) countNodes(n a.Node) {
	for _, x := range allNodes(n) {
		c.counters["node_"+typeName(x)]++
	}
}

// checkStmtText parses text in one of the three ways and compares with want.
func (c *Ctx) checkStmtText(sp *spec, how int) {
	text := sp.l.text
	var got a.Stmt
	var err error
	switch how % 3 {
	case 0:
		var l []a.Stmt
		l, err = parseSQL(text, sp.d)
		if err == nil && len(l) != 1 {
			c.violate("count", fmt.Sprintf("%d statements instead of 1 (dialect %s)", len(l), sp.d.name), text)
			return
		}
		if err == nil {
			got = l[0]
		}
	case 1:
		got, err = parseStmt(text, sp.d)
	default:
		var f *a.File
		f, err = parseFile(text, sp.d, how%2 == 0)
		if err == nil && len(f.Stmts) != 1 {
			c.violate("count", fmt.Sprintf("%d statements instead of 1 (dialect %s)", len(f.Stmts), sp.d.name), text)
			return
		}
		if err == nil {
			got = f.Stmts[0]
		}
	}
	if err != nil {
		c.violate(errKey(err), fmt.Sprintf("valid text rejected (dialect %s): %s\nexpected %s", sp.d.name, err, dump(sp.stmt)), text)
		return
	}
	if df := diffTrees(got, sp.stmt, false); df != "" {
		c.violate(diffKey(df), fmt.Sprintf("wrong tree (dialect %s): %s\ngot      %s\nexpected %s", sp.d.name, df, dump(got), dump(sp.stmt)), text)
	}
}

func structCheck(quick int, mk func(g *exprGen) a.Stmt) func(c *Ctx) {
	return func(c *Ctx) {
		c.rule = "random statement tree of the supported grammar -> independent emitter (random spelling, layout, comments, keyword case, 3 dialects) -> parse -> tree must equal the generated one; distinct by text, non-trivial if more than 8 lexical items"
		c.cases("stmt", c.count(quick), func(i int, r *rand.Rand) {
			sp := genSpec(r, i, mk, anyStyle, nil)
			c.checkStmtText(sp, r.Intn(6))
			c.eval(len(sp.em.items) > 8, sp.l.text)
			c.add("items", len(sp.em.items))
			c.countNodes(sp.stmt)
			if i%997 == 5 {
				c.sample(sp.l.text)
			}
		})
		// one list of hundreds or thousands of items
		c.cases("big", c.count(quick/80), func(i int, r *rand.Rand) {
			sp := genSpec(r, i, mk, anyStyle, func(g *G, e *emitter) { g.huge(1 + i%9) })
			c.checkStmtText(sp, r.Intn(6))
			c.eval(true, "big", sp.l.text)
			if n := len(sp.em.items); n > 500 {
				c.add("statements_of_over_500_items", 1)
			}
		})
	}
}

func p05(c *Ctx) {
	structCheck(16000, func(g *exprGen) a.Stmt { return g.subQuery(2 + g.n(4)) })(c)
	// set operations and joins in every shape of up to 4 operands
	c.cases("shapes", c.count(3000), func(i int, r *rand.Rand) {
		sp := genSpec(r, i, func(g *exprGen) a.Stmt {
			g.noQuoted = true
			if g.p(0.5) {
				return &a.QueryStmt{Body: g.setChain(2 + g.n(4))}
			}
			return &a.QueryStmt{Body: &a.SQLSelect{Projection: []a.SQLSelectItem{&a.UnnamedSelectItem{Node: &a.Wildcard{}}},
				FromClause: []a.TableReference{g.joinTree(2 + g.n(5))}}}
		}, anyStyle, nil)
		if startsWithParen(sp.stmt.(*a.QueryStmt)) {
			return
		}
		c.checkStmtText(sp, r.Intn(6))
		c.eval(true, sp.l.text)
		c.add("shape_cases", 1)
	})
	// deep inside of another query
	c.cases("nested", c.count(3000), func(i int, r *rand.Rand) {
		sp := genSpec(r, i, func(g *exprGen) a.Stmt { return g.subQuery(3) }, anyStyle, nil)
		if parsed, _ := c.nested(sp.l.text, sp.d, []int{0, 1, 3, 20, 60, 150}[r.Intn(6)], r); parsed {
			c.eval(true, sp.l.text)
			c.add("nested_queries", 1)
		}
	})
}

// setChain builds a random tree of set operations over n trivial queries.
func (g *exprGen) setChain(n int) a.SQLSetExpr {
	if n == 1 {
		return &a.SQLSelect{Projection: []a.SQLSelectItem{&a.UnnamedSelectItem{Node: g.ident()}}}
	}
	k := 1 + g.n(n-1)
	s := &a.SetOperationExpr{All: g.p(0.3), Op: []a.SQLSetOperator{&a.UnionOperator{}, &a.ExceptOperator{}, &a.IntersectOperator{}}[g.n(3)]}
	l, rr := g.setChain(k), g.setChain(n-k)
	p := setPrec(s)
	if setPrec(l) < p {
		l = &a.QueryExpr{Query: &a.QueryStmt{Body: l}}
	}
	if setPrec(rr) <= p {
		rr = &a.QueryExpr{Query: &a.QueryStmt{Body: rr}}
	}
	s.Left, s.Right = l, rr
	return s
}

// joinTree builds a random join tree over n tables.
func (g *exprGen) joinTree(n int) a.TableReference {
	if n == 1 {
		return &a.Table{Name: &a.ObjectName{Idents: []*a.Ident{g.ident()}}}
	}
	switch g.n(4) {
	case 0:
		return &a.CrossJoin{Reference: g.joinTree(n - 1), Factor: g.joinTree(1).(a.TableFactor)}
	case 1:
		return &a.NaturalJoin{LeftElement: g.joinElem(g.joinTree(n - 1)), Type: g.joinType(), RightElement: g.joinElem(g.joinTree(1))}
	}
	k := 1 + g.n(n-1)
	q := &a.QualifiedJoin{LeftElement: g.joinElem(g.joinTree(k)), Type: g.joinType(), RightElement: g.joinElem(g.joinTree(n - k))}
	if g.p(0.6) {
		q.Spec = &a.JoinCondition{SearchCondition: g.ident()}
	} else {
		q.Spec = &a.NamedColumnsJoin{ColumnList: g.idents(2)}
	}
	return q
}

func p06(c *Ctx) {
	structCheck(16000, func(g *exprGen) a.Stmt {
		s := g.dml(1 + g.n(4))
		if g.p(0.2) {
			if g.p(0.3) {
				s = g.subQuery(2)
			}
			for s = a.Stmt(&a.ExplainStmt{Stmt: s}); g.p(0.2); {
				s = &a.ExplainStmt{Stmt: s}
			}
		}
		return s
	})(c)
}

func p07(c *Ctx) {
	structCheck(16000, func(g *exprGen) a.Stmt { return g.ddl(1 + g.n(3)) })(c)
	c.cases("types", c.count(4000), func(i int, r *rand.Rand) {
		d := dials[i%3]
		g := newG(r, d, 10)
		t := g.dataType(false)
		em := newEmitter(nil, rand.New(rand.NewSource(r.Int63())))
		em.dataType(t)
		l := layout(em.items, d, anyStyle(r), r)
		got, err := parseType(l.text, d)
		c.eval(len(em.items) > 1, "type", l.text)
		c.add("type_"+typeName(t), 1)
		if err != nil {
			c.violate("type-"+errKey(err), fmt.Sprintf("data type rejected: %v", err), l.text)
			return
		}
		if df := diffTrees(got, t, false); df != "" {
			c.violate("type-"+diffKey(df), fmt.Sprintf("wrong data type: %s\ngot %s expected %s", df, dump(got), dump(t)), l.text)
		}
	})
}

// ---- P08

// exprForm is one way to build an expression from operands.
type exprForm struct {
	name string
	n    int // operands
	mk   func(g *exprGen, x []a.Node) a.Node
}

func binForm(op a.OperatorType, name string) exprForm {
	return exprForm{name, 2, func(g *exprGen, x []a.Node) a.Node {
		p := opPrec(op)
		return &a.BinaryExpr{Left: g.left(x[0], p), Op: &a.Operator{Type: op}, Right: g.right(x[1], p)}
	}}
}

var exprForms = []exprForm{
	binForm(a.Or, "OR"), binForm(a.And, "AND"), binForm(a.Eq, "="), binForm(a.Lt, "<"), binForm(a.NotLike, "NOT LIKE"), binForm(a.Like, "LIKE"),
	binForm(a.Plus, "+"), binForm(a.Minus, "-"), binForm(a.Multiply, "*"), binForm(a.Modulus, "%"),
	{"NOT", 1, func(g *exprGen, x []a.Node) a.Node {
		y := g.right(x[0], pNot)
		if startsWithExists(y, g.pg) {
			y = nest(y)
		}
		return &a.UnaryExpr{Op: &a.Operator{Type: a.Not}, Expr: y}
	}},
	{"u-", 1, func(g *exprGen, x []a.Node) a.Node {
		return &a.UnaryExpr{Op: &a.Operator{Type: a.Minus}, Expr: g.right(x[0], pPlus)}
	}},
	{"IS NULL", 1, func(g *exprGen, x []a.Node) a.Node { return &a.IsNull{X: g.left(x[0], pIs)} }},
	{"IS NOT NULL", 1, func(g *exprGen, x []a.Node) a.Node { return &a.IsNotNull{X: g.left(x[0], pIs)} }},
	{"IN", 2, func(g *exprGen, x []a.Node) a.Node {
		return &a.InList{Expr: g.left(x[0], pCmp), List: []a.Node{x[1]}}
	}},
	{"NOT IN", 1, func(g *exprGen, x []a.Node) a.Node {
		return &a.InList{Expr: g.left(x[0], pCmp), List: []a.Node{g.atom(0)}, Negated: true}
	}},
	{"BETWEEN", 3, func(g *exprGen, x []a.Node) a.Node {
		return &a.Between{Expr: g.left(x[0], pCmp), Low: g.right(x[1], pCmp), High: g.right(x[2], pCmp)}
	}},
	{"NOT BETWEEN", 3, func(g *exprGen, x []a.Node) a.Node {
		return &a.Between{Expr: g.left(x[0], pCmp), Low: g.right(x[1], pCmp), High: g.right(x[2], pCmp), Negated: true}
	}},
	{"::", 1, func(g *exprGen, x []a.Node) a.Node {
		c := &a.Cast{Expr: g.left(x[0], pCast), DataType: &a.Int{}}
		g.pg[c] = true
		return c
	}},
	{"()", 1, func(g *exprGen, x []a.Node) a.Node { return nest(x[0]) }},
}

// shape describes an expression tree with operators only.
type shape struct {
	form int
	sub  []*shape
}

// shapes lists all operator trees with exactly n operators from forms.
func shapes(n int, forms []int) []*shape {
	if n == 0 {
		return []*shape{nil}
	}
	var out []*shape
	for _, f := range forms {
		k := exprForms[f].n
		var split func(rest, ops int, acc []*shape)
		split = func(rest, ops int, acc []*shape) {
			if rest == 0 {
				if ops == 0 {
					out = append(out, &shape{f, append([]*shape{}, acc...)})
				}
				return
			}
			for m := 0; m <= ops; m++ {
				for _, s := range shapes(m, forms) {
					split(rest-1, ops-m, append(acc, s))
				}
			}
		}
		split(k, n-1, nil)
	}
	return out
}

func (g *exprGen) build(s *shape) a.Node {
	if s == nil {
		return &a.Ident{Value: string(rune('a' + g.n(26)))}
	}
	var xs []a.Node
	for _, x := range s.sub {
		xs = append(xs, g.build(x))
	}
	return exprForms[s.form].mk(g, xs)
}

// exprPlaces are statements with one expression in a clause.
var exprPlaces = []func(e a.Node) a.Stmt{
	func(e a.Node) a.Stmt { return sel(&a.SQLSelect{Projection: one(), WhereClause: e}) },
	func(e a.Node) a.Stmt {
		return sel(&a.SQLSelect{Projection: []a.SQLSelectItem{&a.UnnamedSelectItem{Node: e}, &a.AliasSelectItem{Expr: e, Alias: id("x")}}})
	},
	func(e a.Node) a.Stmt {
		return sel(&a.SQLSelect{Projection: one(), GroupByClause: []a.Node{e, e}, HavingClause: e})
	},
	func(e a.Node) a.Stmt {
		q := sel(&a.SQLSelect{Projection: one()})
		t := true
		q.OrderBy = []*a.OrderByExpr{{Expr: e}, {Expr: e, ASC: &t}}
		return q
	},
	func(e a.Node) a.Stmt {
		return sel(&a.SQLSelect{Projection: one(), FromClause: []a.TableReference{&a.QualifiedJoin{
			LeftElement: &a.TableJoinElement{Ref: tbl("t")}, Type: &a.JoinType{Condition: a.LEFT},
			RightElement: &a.TableJoinElement{Ref: tbl("u")}, Spec: &a.JoinCondition{SearchCondition: e}}}})
	},
	func(e a.Node) a.Stmt {
		return &a.InsertStmt{TableName: on("t"), Source: &a.ConstructorSource{Rows: []*a.RowValueExpr{{Values: []a.Node{e, e}}, {Values: []a.Node{e}}}},
			UpdateAssignments: []*a.Assignment{{ID: id("c"), Value: e}}}
	},
	func(e a.Node) a.Stmt {
		return &a.UpdateStmt{TableName: on("t"), Assignments: []*a.Assignment{{ID: id("c"), Value: e}, {ID: id("d"), Value: e}}, Selection: e}
	},
	func(e a.Node) a.Stmt { return &a.DeleteStmt{TableName: on("t"), Selection: e} },
	func(e a.Node) a.Stmt {
		return &a.CreateTableStmt{Name: on("t"), Elements: []a.TableElement{
			&a.ColumnDef{Name: id("c"), DataType: &a.Int{}, Constraints: []*a.ColumnConstraint{{Spec: &a.CheckColumnSpec{Expr: e}}}},
			&a.TableConstraint{Spec: &a.CheckTableConstraint{Expr: e}}}}
	},
	func(e a.Node) a.Stmt {
		if negInfixOnLeftSpine(e, nil) || hasPGNeg(e) {
			e = nest(e)
		}
		return &a.CreateTableStmt{Name: on("t"), Elements: []a.TableElement{
			&a.ColumnDef{Name: id("c"), DataType: &a.Int{}, Default: e, Constraints: []*a.ColumnConstraint{{Spec: &a.NotNullColumnSpec{}}}},
			&a.ColumnDef{Name: id("d"), DataType: &a.Int{}, Default: e}}}
	},
	func(e a.Node) a.Stmt {
		return &a.CreateIndexStmt{TableName: on("t"), IndexName: id("i"), Selection: e}
	},
	func(e a.Node) a.Stmt {
		return sel(&a.SQLSelect{Projection: []a.SQLSelectItem{&a.UnnamedSelectItem{Node: &a.Function{Name: on("f"), Args: []a.Node{e, e},
			Over: &a.WindowSpec{PartitionBy: []a.Node{e, e}, OrderBy: []*a.OrderByExpr{{Expr: e}}}}}}})
	},
	func(e a.Node) a.Stmt {
		return sel(&a.SQLSelect{Projection: []a.SQLSelectItem{&a.UnnamedSelectItem{Node: &a.CaseExpr{Operand: e, Conditions: []a.Node{e, e}, Results: []a.Node{e, e}, ElseResult: e}}}})
	},
	func(e a.Node) a.Stmt {
		return sel(&a.SQLSelect{Projection: []a.SQLSelectItem{&a.UnnamedSelectItem{Node: &a.Cast{Expr: e, DataType: &a.Text{}}},
			&a.UnnamedSelectItem{Node: &a.InList{Expr: id("z"), List: []a.Node{e, e}}}, &a.UnnamedSelectItem{Node: &a.Nested{AST: e}}}})
	},
	func(e a.Node) a.Stmt {
		return sel(&a.SQLSelect{Projection: one(), FromClause: []a.TableReference{&a.Table{Name: on("f"), Args: []a.Node{e, e}, Alias: id("q"), WithHints: []a.Node{e}}}})
	},
}

// hasPGNeg is conservative: any negated infix operator anywhere outside parens.
func hasPGNeg(e a.Node) bool {
	for _, n := range allNodes(e) {
		switch x := n.(type) {
		case *a.BinaryExpr:
			if x.Op.Type == a.NotLike {
				return true
			}
		case *a.InList:
			if x.Negated {
				return true
			}
		case *a.InSubQuery:
			if x.Negated {
				return true
			}
		case *a.Between:
			if x.Negated {
				return true
			}
		}
	}
	return false
}

func id(s string) *a.Ident      { return &a.Ident{Value: s} }
func on(s string) *a.ObjectName { return &a.ObjectName{Idents: []*a.Ident{id(s)}} }
func tbl(s string) *a.Table     { return &a.Table{Name: on(s)} }
func one() []a.SQLSelectItem {
	return []a.SQLSelectItem{&a.UnnamedSelectItem{Node: &a.LongValue{Long: 1}}}
}
func sel(s *a.SQLSelect) *a.QueryStmt { return &a.QueryStmt{Body: s} }

func (c *Ctx) checkExprText(e a.Node, em *emitter, d *dial, l *laid) {
	got, err := parseExpr(l.text, d)
	if err != nil {
		c.violate(errKey(err), fmt.Sprintf("expression rejected (dialect %s): %v", d.name, err), l.text)
		return
	}
	if df := diffTrees(got, e, false); df != "" {
		c.violate(diffKey(df), fmt.Sprintf("wrong expression tree (dialect %s): %s\ngot      %s\nexpected %s", d.name, df, dump(got), dump(e)), l.text)
	}
}

func p08(c *Ctx) {
	c.rule = "all operator trees with up to 3 operators (4 over one form per rank in the thorough tier) plus random deep ones, spelled with parentheses only where the ranks require them -> ParseExpr or a statement with the expression in one of its clauses -> same tree; distinct by text, non-trivial if two or more operators"
	var all []int
	for i := range exprForms {
		all = append(all, i)
	}
	var list []*shape
	for n := 1; n <= 2; n++ {
		list = append(list, shapes(n, all)...)
	}
	perRank := []int{0, 1, 4, 6, 8, 10, 11, 12, 14, 16, 18}
	list = append(list, shapes(3, perRank)...)
	if c.Thorough {
		list = append(list, shapes(3, all)...)
		list = append(list, shapes(4, []int{0, 1, 2, 6, 8, 10, 12, 16, 18})...)
	}
	c.add("operator_trees_enumerated", len(list))
	c.cases("enum", len(list), func(i int, r *rand.Rand) {
		d := dials[i%3]
		g := &exprGen{newG(r, d, 1), castForms{}}
		e := g.build(list[i])
		em := newEmitter(g.pg, nil)
		em.expr(e)
		l := layout(em.items, d, plainStyle, r)
		c.checkExprText(e, em, d, l)
		c.eval(len(em.items) > 4, l.text)
	})
	c.cases("deep", c.count(9000), func(i int, r *rand.Rand) {
		d := dials[i%3]
		g := &exprGen{newG(r, d, 5+r.Intn(50)), castForms{}}
		e := g.expr(2 + r.Intn(7))
		em := newEmitter(g.pg, rand.New(rand.NewSource(r.Int63())))
		em.expr(e)
		l := layout(em.items, d, anyStyle(r), r)
		c.checkExprText(e, em, d, l)
		c.eval(len(em.items) > 4, l.text)
		c.countNodes(e)
		if i%1999 == 3 {
			c.sample(l.text)
		}
	})
	c.cases("clauses", c.count(6000), func(i int, r *rand.Rand) {
		sp := genSpec(r, i, func(g *exprGen) a.Stmt {
			g.budget = 3 + g.n(15)
			return cloneShared(exprPlaces[i%len(exprPlaces)](g.expr(1+g.n(4))), g.pg)
		}, anyStyle, nil)
		c.checkStmtText(sp, r.Intn(6))
		c.eval(len(sp.em.items) > 8, sp.l.text)
	})
}

// cloneShared copies a tree in which one expression occurs in several places,
// keeping the chosen form of casts.
func cloneShared(s a.Stmt, pg castForms) a.Stmt {
	n := copyTree(s).(a.Stmt)
	pairs(s, n, func(x, y a.Node) {
		if cx, ok := x.(*a.Cast); ok && pg[cx] {
			pg[y.(*a.Cast)] = true
		}
	})
	return n
}

// ---- P09

func anyStmt(g *exprGen) a.Stmt { return g.stmt(1 + g.n(4)) }

func p09(c *Ctx) {
	c.rule = "hand-built random tree, and the tree parsed from its spelling: print -> parse under the same dialect -> equal tree -> print again -> same text; distinct by printed text, non-trivial if longer than 25 bytes"
	check := func(d *dial, s a.Stmt, origin string) {
		out := s.ToSQLString()
		l, err := parseSQL(out, d)
		c.eval(len(out) > 25, d.name, out)
		if err != nil {
			c.violate(origin+errKey(err), fmt.Sprintf("printed text of a %s tree is rejected (dialect %s): %v\ntree %s", origin, d.name, err, dump(s)), out)
			return
		}
		if len(l) != 1 {
			c.violate(origin+"count", fmt.Sprintf("printed text gives %d statements", len(l)), out)
			return
		}
		if df := diffTrees(l[0], s, false); df != "" {
			c.violate(origin+diffKey(df), fmt.Sprintf("printed text of a %s tree parses to another tree (dialect %s): %s\nprinted tree %s\nparsed tree  %s", origin, d.name, df, dump(s), dump(l[0])), out)
			return
		}
		if again := l[0].ToSQLString(); again != out {
			c.violate(origin+"unstable", fmt.Sprintf("printing is not stable:\n1st %s\n2nd %s", out, again), out)
		}
	}
	c.cases("tree", c.count(12000), func(i int, r *rand.Rand) {
		sp := genSpec(r, i, anyStmt, anyStyle, nil)
		check(sp.d, sp.stmt, "hand-built")
		c.countNodes(sp.stmt)
		l, err := parseSQL(sp.l.text, sp.d)
		if err == nil && len(l) == 1 {
			check(sp.d, l[0], "parsed")
			c.add("parsed_trees", 1)
		}
		if i%1999 == 5 {
			c.sample(sp.stmt.ToSQLString())
		}
	})
	// expressions and types alone, and files of several statements
	c.cases("parts", c.count(5000), func(i int, r *rand.Rand) {
		d := dials[i%3]
		g := &exprGen{newG(r, d, 5+r.Intn(40)), castForms{}}
		e := g.expr(1 + r.Intn(5))
		out := e.ToSQLString()
		got, err := parseExpr(out, d)
		c.eval(len(out) > 8, d.name, out)
		if err != nil {
			c.violate("expr"+errKey(err), fmt.Sprintf("printed expression rejected: %v", err), out)
		} else if df := diffTrees(got, e, false); df != "" {
			c.violate("expr"+diffKey(df), fmt.Sprintf("printed expression parses to another tree: %s\n%s\n%s", df, dump(e), dump(got)), out)
		}
		t := g.dataType(false)
		out = t.ToSQLString()
		gt, err := parseType(out, d)
		if err != nil {
			c.violate("type"+errKey(err), fmt.Sprintf("printed type rejected: %v", err), out)
		} else if df := diffTrees(gt, t, false); df != "" {
			c.violate("type"+diffKey(df), fmt.Sprintf("printed type parses to another: %s", df), out)
		}
	})
	// accepted mutations of valid text: trees the generator would not think of
	c.cases("mutants", c.count(20000), func(i int, r *rand.Rand) {
		sp := genSpec(r, i, anyStmt, tightOrPlain, nil)
		text := mutate(sp, r)
		l, err := parseSQL(text, sp.d)
		if err != nil {
			c.add("mutants_rejected", 1)
			return
		}
		c.add("mutants_accepted", 1)
		for _, s := range l {
			check(sp.d, s, "mutant ")
		}
	})
}

func tightOrPlain(r *rand.Rand) gapStyle { return plainStyle }

// mutate edits the item list of a statement at a few places.
func mutate(sp *spec, r *rand.Rand) string {
	items := append([]item{}, sp.em.items...)
	pool := []string{"(", ")", ",", ".", ";", "=", "*", "-", "+", "::", "NOT", "NULL", "SELECT", "AS", "x", "'s'", "1", "2.5", "IN", "BETWEEN", "AND", "OR", "FROM", "WHERE", "WITH", "ON", "ALL", "DEFAULT", "UNIQUE", "KEY", "PRIMARY", "JOIN", "CASCADE", "INT", "CHAR", "VARYING", "\"q\"", "[", "]", "LIMIT", "OFFSET", "ORDER", "BY", "CASE", "WHEN", "END", "EXISTS", "VALUES", "SET", "DISTINCT", "OVER", "CONSTRAINT", "CHECK", "TABLE", "VIEW", "INDEX", "N'u'", "LEFT", "OUTER", "NATURAL", "CROSS", "INNER", "USING", "ASC", "IS", "LIKE", "CAST", "UNION", "TIME", "ZONE", "WITHOUT", "UNSIGNED", "NUMERIC", "ENGINE", "CHARSET", "IF", "UPDATE", "INTO", "AUTO_INCREMENT", "LATERAL", "ROWS", "CURRENT", "ROW", "UNBOUNDED", "PRECEDING", "MATERIALIZED", "COLUMN", "ADD", "DROP", "TYPE", "EXPLAIN", "HAVING", "GROUP", "INTERSECT"}
	for k := 1 + r.Intn(2); k > 0; k-- {
		if len(items) == 0 {
			break
		}
		i := r.Intn(len(items))
		switch r.Intn(6) {
		case 0, 1: // delete
			items = append(items[:i], items[i+1:]...)
		case 2: // duplicate
			items = append(items[:i], append([]item{items[i]}, items[i:]...)...)
		case 3: // swap
			j := r.Intn(len(items))
			items[i], items[j] = items[j], items[i]
		case 4: // replace
			items[i] = item{pool[r.Intn(len(pool))], iOp}
		default: // insert
			items = append(items[:i], append([]item{{pool[r.Intn(len(pool))], iOp}}, items[i:]...)...)
		}
	}
	var b strings.Builder
	for _, it := range items {
		b.WriteString(it.text)
		b.WriteByte(' ')
	}
	return b.String()
}

// ---- P14

func p14(c *Ctx) {
	c.rule = "literals (boundary integers, random decimals of any magnitude and spelling, strings with quotes, controls, non-ASCII and multi-line text, TRUE/FALSE/NULL) in every clause -> exact value in the tree -> printed literal has the same kind and value; unrepresentable numbers must be rejected; distinct by text, non-trivial unless a one-digit number"
	checkLit := func(d *dial, text string, want a.Node) {
		got, err := parseExpr(text, d)
		c.eval(len(text) > 1, text)
		if err != nil {
			c.violate("lit-"+typeName(want), fmt.Sprintf("literal rejected: %v", err), text)
			return
		}
		if df := diffTrees(got, want, false); df != "" {
			c.violate("lit-"+typeName(want), fmt.Sprintf("literal changed: %s", df), text)
			return
		}
		out := got.ToSQLString()
		back, err := parseExpr(out, d)
		if err != nil || diffTrees(back, want, false) != "" {
			c.violate("print-"+typeName(want), fmt.Sprintf("printed literal %q of %q does not have the same value (%v)", out, text, err), text)
		}
		// the printed form must be one literal token with that value
		toks, err := lexRef(out, d)
		if err != nil || len(toks) != 1 {
			c.violate("printtok-"+typeName(want), fmt.Sprintf("printed form %q is no single literal", out), text)
			return
		}
		switch w := want.(type) {
		case *a.SingleQuotedString:
			if toks[0].val != w.String {
				c.violate("printval-"+typeName(want), fmt.Sprintf("printed %q", out), text)
			}
		case *a.NationalStringLiteral:
			if toks[0].val != w.String {
				c.violate("printval-"+typeName(want), fmt.Sprintf("printed %q", out), text)
			}
		case *a.LongValue:
			if out != strconv.FormatInt(w.Long, 10) {
				c.violate("printval-"+typeName(want), fmt.Sprintf("printed %q", out), text)
			}
		case *a.DoubleValue:
			if v, err := strconv.ParseFloat(out, 64); err != nil || v != w.Double || !strings.Contains(out, ".") {
				c.violate("printval-"+typeName(want), fmt.Sprintf("printed %q", out), text)
			}
		}
	}
	// boundary integers
	var ints []int64
	for k := uint(0); k < 63; k++ {
		for dlt := int64(-2); dlt <= 2; dlt++ {
			if v := int64(1)<<k + dlt; v >= 0 {
				ints = append(ints, v)
			}
		}
	}
	pow := int64(1)
	for k := 0; k < 19; k++ {
		ints = append(ints, pow-1, pow, pow+1)
		if k < 18 {
			pow *= 10
		}
	}
	ints = append(ints, math.MaxInt64, math.MaxInt64-1)
	c.cases("ints", len(ints), func(i int, r *rand.Rand) {
		checkLit(dials[i%3], strconv.FormatInt(ints[i], 10), &a.LongValue{Long: ints[i]})
		checkLit(dials[i%3], "00"+strconv.FormatInt(ints[i], 10), &a.LongValue{Long: ints[i]})
		// as a count: LIMIT, OFFSET and window frame bounds
		t := fmt.Sprintf("SELECT f(x) OVER (ROWS %d PRECEDING) LIMIT %d OFFSET %d", ints[i], ints[i], ints[i])
		l, err := parseSQL(t, dials[i%3])
		if err != nil || len(l) != 1 {
			c.violate("count-rejected", fmt.Sprintf("count rejected: %v", err), t)
			return
		}
		u := uint64(ints[i])
		want := sel(&a.SQLSelect{Projection: []a.SQLSelectItem{&a.UnnamedSelectItem{Node: &a.Function{Name: on("f"), Args: []a.Node{id("x")},
			Over: &a.WindowSpec{WindowsFrame: &a.WindowFrame{Units: &a.WindowFrameUnit{Type: a.RowsUnit}, StartBound: &a.Preceding{Bound: &u}}}}}}})
		want.Limit = &a.LimitExpr{LimitValue: &a.LongValue{Long: ints[i]}, OffsetValue: &a.LongValue{Long: ints[i]}}
		if df := diffTrees(l[0], want, false); df != "" {
			c.violate("count-"+diffKey(df), "count changed: "+df, t)
		} else if out := l[0].ToSQLString(); out != t {
			c.violate("count-print", "count printed as "+out, t)
		}
		c.eval(true, t)
		// sizes of types
		tt := fmt.Sprintf("NUMERIC(%d,%d)", ints[i], ints[i])
		ty, err := parseType(tt, dials[i%3])
		us := uint(ints[i])
		if err != nil {
			c.violate("size-rejected", fmt.Sprint(err), tt)
		} else if df := diffTrees(ty, &a.Decimal{Precision: &us, Scale: &us}, false); df != "" || !strings.EqualFold(ty.ToSQLString(), tt) {
			c.violate("size-changed", "type size changed: "+df+" "+ty.ToSQLString(), tt)
		}
	})
	// numbers that cannot be represented
	bad := []string{"9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999", "1" + strings.Repeat("0", 40), "1.2.3", "1..2", "1.2.", "1...", strings.Repeat("9", 400) + ".0", "00009223372036854775808", "340282366920938463463374607431768211456"}
	places := []string{"%s", "a + %s", "-%s", "(%s)", "f(%s)", "a BETWEEN 1 AND %s", "CASE WHEN %s THEN 1 END", "a IN (1, %s)"}
	stmts := []string{"SELECT 1 LIMIT %s", "SELECT 1 LIMIT 1 OFFSET %s", "SELECT f(x) OVER (ROWS %s PRECEDING)", "SELECT f(x) OVER (ROWS BETWEEN %s PRECEDING AND CURRENT ROW)", "INSERT INTO t VALUES (%s)", "UPDATE t SET a = %s", "CREATE TABLE t (a int DEFAULT %s)", "CREATE TABLE t (a varchar(%s))", "CREATE TABLE t (a numeric(%s))", "CREATE TABLE t (a numeric(1,%s))", "CREATE TABLE t (a float(%s))", "CREATE TABLE t (a char(%s))", "CREATE TABLE t (a character varying(%s))", "SELECT CAST(a AS varchar(%s))", "SELECT %s", "SELECT 1 ORDER BY %s", "DELETE FROM t WHERE a = %s"}
	intOnly := []string{"1.5", "0.0", "1.0", "'1'", "-1", "a"} // where a count is expected
	c.cases("unrepresentable", 1, func(_ int, r *rand.Rand) {
		for _, b := range bad {
			for _, p := range places {
				t := fmt.Sprintf(p, b)
				c.eval(true, t)
				c.add("unrepresentable_numbers", 1)
				if n, err := parseExpr(t, dials[0]); err == nil {
					c.violate("unrepresentable", fmt.Sprintf("number %s accepted as %s", b, n.ToSQLString()), t)
				}
			}
			for _, p := range stmts {
				t := fmt.Sprintf(p, b)
				c.eval(true, t)
				if n, err := parseSQL(t, dials[0]); err == nil {
					c.violate("unrepresentable", fmt.Sprintf("number %s accepted as %s", b, n[0].ToSQLString()), t)
				}
			}
		}
		for _, b := range intOnly {
			for _, p := range stmts[:4] {
				t := fmt.Sprintf(p, b)
				c.eval(true, t)
				if n, err := parseSQL(t, dials[0]); err == nil {
					c.violate("noncount", fmt.Sprintf("count %s accepted as %s", b, n[0].ToSQLString()), t)
				}
			}
		}
	})
	c.cases("random", c.count(8000), func(i int, r *rand.Rand) {
		d := dials[i%3]
		g := newG(r, d, 10)
		n := g.literal()
		em := newEmitter(nil, rand.New(rand.NewSource(r.Int63())))
		em.expr(n)
		t := em.items[0].text
		if em.items[0].kind == iKeyword {
			t = caseKeyword(t, r.Intn(3), r)
		}
		checkLit(d, t, n)
		c.add("literal_"+typeName(n), 1)
		if i%2111 == 3 {
			c.sample(t)
		}
	})
	// decimals as digit strings: nearest double
	c.cases("decimals", c.count(6000), func(i int, r *rand.Rand) {
		dig := func(n int) string {
			b := make([]byte, n)
			for k := range b {
				b[k] = byte('0' + r.Intn(10))
			}
			return string(b)
		}
		t := dig(1+r.Intn(25)) + "." + dig(r.Intn(30))
		if r.Intn(10) == 0 {
			t = dig(1+r.Intn(300)) + "." + dig(r.Intn(300))
		}
		f, err := strconv.ParseFloat(t, 64)
		if err != nil {
			return
		}
		checkLit(dials[i%3], t, &a.DoubleValue{Double: f})
	})
	// all single characters inside strings and every place of the grammar
	c.cases("chars", 0x250, func(i int, r *rand.Rand) {
		ch := rune(i)
		if i > 0x200 {
			ch = []rune{0x3042, 0x1F600, 0xFFFD, 0x2028, 0xE000, 0x10FFFF, 0xFEFF}[i%7]
		}
		for _, s := range []string{string(ch), "x" + string(ch) + "y", string(ch) + "'", strings.Repeat("'", i%5) + string(ch)} {
			checkLit(dials[i%3], quoteStr(s), &a.SingleQuotedString{String: s})
			checkLit(dials[i%3], "N"+quoteStr(s), &a.NationalStringLiteral{String: s})
		}
	})
	c.cases("places", c.count(5000), func(i int, r *rand.Rand) {
		sp := genSpec(r, i, func(g *exprGen) a.Stmt {
			g.litHeavy = true
			g.budget = 1 + g.n(25)
			if i%2 == 0 {
				return cloneShared(exprPlaces[(i/2)%len(exprPlaces)](g.literal()), g.pg)
			}
			return g.stmt(2)
		}, anyStyle, nil)
		c.checkStmtText(sp, 0)
		c.eval(true, sp.l.text)
		// the printed statement carries the same literals
		out := sp.stmt.ToSQLString()
		l, err := parseSQL(out, sp.d)
		if err != nil || len(l) != 1 {
			c.violate("printed-stmt", fmt.Sprintf("printed statement rejected: %v", err), out)
			return
		}
		if x, y := literals(sp.stmt), literals(l[0]); x != y {
			c.violate("printed-literals", fmt.Sprintf("literals changed by printing:\n%s\n%s", x, y), out)
		}
	})
}

func literals(n a.Node) string {
	var b strings.Builder
	for _, x := range allNodes(n) {
		switch v := x.(type) {
		case *a.LongValue:
			fmt.Fprintf(&b, "L%d ", v.Long)
		case *a.DoubleValue:
			fmt.Fprintf(&b, "D%x ", math.Float64bits(v.Double))
		case *a.SingleQuotedString:
			fmt.Fprintf(&b, "S%q ", v.String)
		case *a.NationalStringLiteral:
			fmt.Fprintf(&b, "N%q ", v.String)
		case *a.BooleanValue:
			fmt.Fprintf(&b, "B%v ", v.Boolean)
		case *a.NullValue:
			b.WriteString("null ")
		case *a.Preceding:
			fmt.Fprintf(&b, "P%d ", *v.Bound)
		case *a.Following:
			fmt.Fprintf(&b, "F%d ", *v.Bound)
		}
	}
	return b.String()
}
