package main

// Generator of random statement trees. It builds sqlast nodes directly (no
// positions) and never calls the parser or the printer, so that the parser can
// be judged against the trees it makes.

import (
	"math"
	"math/rand"
	"strings"
	"unicode/utf8"

	"github.com/akito0107/xsqlparser/dialect"
	a "github.com/akito0107/xsqlparser/sqlast"
)

// dial describes one of the shipped dialects, as documented, independently of
// the methods of the dialect package.
type dial struct {
	name   string
	d      dialect.Dialect
	quotes []rune
	start  func(r rune) bool
	part   func(r rune) bool
	// of a dialect of our own: further characters that can start a name, or
	// only be inside of one
	first, inner []rune
}

func letter(r rune) bool { return (r >= 'a' && r <= 'z') || (r >= 'A' && r <= 'Z') }
func digit(r rune) bool  { return r >= '0' && r <= '9' }

var dials = []*dial{
	{"generic", &dialect.GenericSQLDialect{}, []rune{'"'},
		func(r rune) bool { return letter(r) || r == '@' },
		func(r rune) bool { return letter(r) || digit(r) || r == '@' || r == '_' }, nil, nil},
	{"mysql", &dialect.MySQLDialect{}, []rune{'"', '`'},
		func(r rune) bool { return letter(r) || r == '@' },
		func(r rune) bool { return letter(r) || digit(r) || r == '@' || r == '_' }, nil, nil},
	{"postgres", &dialect.PostgresqlDialect{}, []rune{'"', '`'},
		func(r rune) bool { return letter(r) || r == '_' },
		func(r rune) bool { return letter(r) || digit(r) || r == '$' || r == '_' }, nil, nil},
}

// closing returns the end of a delimited identifier that starts with q.
func closing(q rune) rune {
	if q == '[' {
		return ']'
	}
	return q
}

func (d *dial) quoted(r rune) bool {
	for _, q := range d.quotes {
		if q == r {
			return true
		}
	}
	return false
}

// kwSafe are keywords that this grammar never treats specially where a name is
// expected, and that are therefore usable as plain names everywhere.
var kwSafe = []string{"year", "first", "user", "value", "position", "count", "max", "min", "row", "lower", "month", "result", "rank", "level", "action", "begin", "language", "start"}

var quotedKW = []string{"select", "FROM", "where", "Group", "ORDER", "by", "limit", "OFFSET", "union", "AS", "on", "USING", "join", "left", "CROSS", "natural", "with", "LATERAL", "distinct", "ALL", "not", "null", "TRUE", "false", "case", "when", "THEN", "else", "END", "cast", "EXISTS", "in", "BETWEEN", "like", "is", "and", "OR", "over", "partition", "rows", "asc", "DESC", "primary", "key", "unique", "constraint", "check", "foreign", "references", "default", "AUTO_INCREMENT", "int", "INTEGER", "char", "varchar", "text", "timestamp", "time", "numeric", "unsigned", "varying", "values", "set", "into", "update", "insert", "delete", "create", "table", "view", "index", "drop", "alter", "add", "column", "cascade", "if", "engine", "charset", "explain", "having", "intersect", "except", "materialized", "ASC", "unbounded", "current", "preceding", "type", "to", "full", "outer", "inner", "precision", "zone", "uuid", "boolean"}

type G struct {
	r      *rand.Rand
	d      *dial
	budget int
	// options
	quoteAll bool // every name is a delimited keyword
	litHeavy bool // mostly literals as atoms
	noQuoted bool
	// the n-th list, name, text or expression is an unusually big one
	bigList, bigName, bigText, chain int
	bigSize                          int     // length of the big list if not 0
	reuse                            float64 // probability that a name or number repeats
	names                            []string
}

func newG(r *rand.Rand, d *dial, budget int) *G {
	g := &G{r: r, d: d, budget: budget}
	if budget > 1 && r.Intn(12) == 0 {
		n := 1 + r.Intn(6)
		switch r.Intn(5) {
		case 0, 1:
			g.bigList = n
			if r.Intn(20) == 0 {
				g.huge(n)
			}
		case 2:
			g.bigName = n
		case 3:
			g.bigText = 1 + r.Intn(2)
		default:
			g.chain = 1 + r.Intn(3)
		}
	}
	if r.Intn(5) == 0 {
		g.reuse = 0.3
	}
	return g
}

// huge makes the n-th list a very long one.
func (g *G) huge(n int) {
	g.bigList = n
	g.bigSize = []int{511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2049, 3000, 4097, 5000}[g.n(14)]
	if g.budget > 8 {
		g.budget = 8
	}
}

// due counts down to the one time that something happens.
func due(n *int) bool {
	*n--
	return *n == 0
}

func (g *G) p(prob float64) bool { return g.r.Float64() < prob }
func (g *G) n(n int) int         { return g.r.Intn(n) }
func (g *G) spend() bool         { g.budget--; return g.budget > 0 }

// few returns a small list length, 1 most of the time when the budget is low.
func (g *G) few(max int) int {
	if due(&g.bigList) {
		if g.bigSize > 0 {
			return g.bigSize
		}
		return []int{6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 300}[g.n(27)]
	}
	if g.budget <= 0 {
		return 1
	}
	n, q := 1, 0.45
	if g.p(0.05) {
		max, q = max+5, 0.75
	}
	for n < max && g.p(q) {
		n++
	}
	return n
}

func (g *G) plainName() string {
	if g.p(0.08) {
		w := kwSafe[g.n(len(kwSafe))]
		if g.p(0.3) {
			w = strings.ToUpper(w)
		}
		return w
	}
	const first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	for {
		n := 1 + g.n(7)
		if due(&g.bigName) {
			n = size(g.r, 5000)
		} else if g.p(0.02) {
			n = 30 + g.n(60)
		}
		var b strings.Builder
		f := rune(first[g.n(len(first))])
		if g.p(0.05) {
			f = map[string]rune{"generic": '@', "mysql": '@', "postgres": '_'}[g.d.name]
		}
		if k := len(g.d.first); k > 0 && (f == 0 || g.p(0.5)) {
			f = g.d.first[g.n(k)]
		} else if f == 0 {
			f = 'q'
		}
		b.WriteRune(f)
		for i := 1; i < n; i++ {
			switch k := len(g.d.inner); {
			case g.d.first != nil:
				c := rune(first[g.n(len(first))])
				if k > 0 && g.p(0.5) {
					c = g.d.inner[g.n(k)]
				}
				b.WriteRune(c)
			case g.p(0.15):
				b.WriteByte(byte('0' + g.n(10)))
			case g.p(0.1):
				b.WriteByte('_')
			case g.p(0.02):
				b.WriteRune(map[string]rune{"generic": '@', "mysql": '@', "postgres": '$'}[g.d.name])
			default:
				b.WriteByte(first[g.n(len(first))])
			}
		}
		w := b.String()
		if !frozenKeywords[strings.ToUpper(w)] && !extraSpecial[strings.ToUpper(w)] {
			return w
		}
	}
}

// words the grammar knows without their being in the keyword list
var extraSpecial = map[string]bool{"CASCADE": true, "ENGINE": true, "CHARSET": true, "AUTO_INCREMENT": true, "UNSIGNED": true, "DUPLICATE": true, "EXPLAIN": true, "MATERIALIZED": true, "TYPE": true, "INDEX": true, "IF": true, "KEY": true, "ZONE": true, "GROUPS": true, "RANGE": true}

var weird = []rune(" \t.,;:'()[]{}+-*/%<>=!&\\?#~^|$@_é世😀ßıΩ0123456789abcXYZ\"`")

func (g *G) weirdText(max int, no rune) string {
	n := g.n(max + 1)
	if due(&g.bigText) {
		return sizedText(g, no)
	}
	return g.weirdOf(n, weird, no)
}

// sizedText is a long text, one third of them over two or three characters.
func sizedText(g *G, no rune) string {
	from := weird
	if g.p(0.3) {
		from = []rune{weird[g.n(len(weird))], weird[g.n(len(weird))], '\''}
		if from[0] == no {
			from[0] = 'a'
		}
	}
	return g.weirdOf(size(g.r, 5000), from, no)
}

func (g *G) weirdOf(n int, weird []rune, no rune) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		c := weird[g.n(len(weird))]
		if g.p(0.03) {
			c = '\n'
		}
		if g.p(0.01) {
			c = '\r'
		}
		if g.p(0.02) {
			c = oddRune(g.r)
		}
		if c != no {
			b.WriteRune(c)
		}
		if g.p(0.04) {
			if f := snippets[g.n(len(snippets))]; !strings.ContainsRune(f, no) {
				b.WriteString(f)
			}
		}
	}
	return b.String()
}

// snippets are pieces of text that mean something elsewhere.
var snippets = []string{"\r\n", "\r\n\r\n", "\n\n", "\t\t", "  ", "--", "/*", "*/", "-- \n", "\\n", "\\'", "\\\\", "%d", "%s%s", "%!", "%%", "$1", ":a", "{{.}}", "&amp;", "&#39;", "\ufeff", "\u00a0", "\u2028", "\u200b", "e\u0301", "\x7f", "\x1b[0m", "''''", "\"\"", "[a]", "N'", ";\n", "SELECT", " FROM ", "ＡＢ", "İi", "\U0010ffff"}

// oddRunes are characters that decoders, scanners and printers treat in a way of
// their own, or are next to such.
var oddRunes = []rune{0, 0, 1, 4, 7, 8, 0x0b, 0x0c, 0x1a, 0x1b, 0x7f, 0x80, 0x85, 0xa0, 0xad, 0xff, 0x100, 0x7ff, 0x800, 0x200b, 0x200e, 0x2028, 0x2029, 0x2060, 0x212a, 0x3000, 0xd7ff, 0xe000, 0xfeff, 0xff07, 0xfffd, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff}

func oddRune(r *rand.Rand) rune {
	if r.Intn(4) > 0 {
		return oddRunes[r.Intn(len(oddRunes))]
	}
	for {
		if c := rune(r.Intn(0x110000)); utf8.ValidRune(c) && c != '\n' && c != '\r' {
			return c
		}
	}
}

func (g *G) quotedName() string {
	q := g.d.quotes[g.n(len(g.d.quotes))]
	var s string
	switch {
	case due(&g.bigName):
		s = sizedText(g, closing(q))
	case g.quoteAll || g.p(0.5):
		s = quotedKW[g.n(len(quotedKW))]
		if g.p(0.5) {
			s = strings.ToUpper(s)
		}
	case g.p(0.5):
		s = g.plainName()
	default:
		s = g.weirdText(8, closing(q))
	}
	return string(q) + s + string(closing(q))
}

func (g *G) name() string {
	if g.reuse > 0 && len(g.names) > 0 && g.p(g.reuse) {
		w := g.names[g.n(len(g.names))]
		if g.d.first == nil && w[0] != '"' && w[0] != '`' && g.p(0.2) {
			w = strings.ToUpper(w)
		}
		return w
	}
	w := g.newName()
	if g.reuse > 0 {
		g.names = append(g.names, w)
	}
	return w
}

func (g *G) newName() string {
	if g.quoteAll {
		if g.p(0.85) {
			return g.quotedName()
		}
		return g.plainName()
	}
	if !g.noQuoted && g.p(0.12) {
		return g.quotedName()
	}
	return g.plainName()
}

func (g *G) ident() *a.Ident { return &a.Ident{Value: g.name()} }
func (g *G) idents(max int) []*a.Ident {
	n := g.few(max)
	var l []*a.Ident
	for i := 0; i < n; i++ {
		l = append(l, g.ident())
	}
	return l
}
func (g *G) objName() *a.ObjectName {
	n := 1
	if g.p(0.2) {
		n = 2 + g.n(2)
		if g.p(0.1) {
			n = 4 + g.n(5)
		}
	}
	o := &a.ObjectName{}
	for i := 0; i < n; i++ {
		o.Idents = append(o.Idents, g.ident())
	}
	return o
}

// ---- literals

func (g *G) long() int64 {
	switch g.n(6) {
	case 0:
		return math.MaxInt64 - int64(g.n(3))
	case 1:
		return int64(g.r.Uint64() >> uint(1+g.n(62)))
	case 2:
		return 0
	default:
		return int64(g.n(1000))
	}
}

func (g *G) double() float64 {
	for {
		var f float64
		switch g.n(5) {
		case 0:
			f = float64(g.n(100000)) / 100
		case 1:
			f = g.r.Float64()
		case 2:
			f = g.r.Float64() * math.Pow(10, float64(g.n(40)-20))
		case 3:
			f = math.Float64frombits(g.r.Uint64() &^ (1 << 63))
		default:
			f = float64(g.n(1000))
		}
		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			return f
		}
	}
}

func (g *G) literal() a.Node {
	if g.reuse > 0 && g.p(g.reuse) {
		return &a.LongValue{Long: int64(g.n(2))}
	}
	switch g.n(10) {
	case 0, 1, 2:
		return &a.LongValue{Long: g.long()}
	case 3, 4:
		return &a.DoubleValue{Double: g.double()}
	case 5, 6:
		return &a.SingleQuotedString{String: g.weirdText(12, 0)}
	case 7:
		return &a.NationalStringLiteral{String: g.weirdText(12, 0)}
	case 8:
		return &a.BooleanValue{Boolean: g.p(0.5)}
	default:
		return &a.NullValue{}
	}
}

// ---- expressions

const (
	pOr    = 5
	pAnd   = 10
	pNot   = 15
	pIs    = 17
	pCmp   = 20
	pPlus  = 30
	pMul   = 40
	pCast  = 50
	pAtom  = 1000
	castPG = 1 << 20 // marks :: casts, see G.pgCasts
)

// pgCast is kept outside of the tree: CAST(x AS t) and x::t give the same node.
type castForms map[*a.Cast]bool

func opPrec(t a.OperatorType) int {
	switch t {
	case a.Or:
		return pOr
	case a.And:
		return pAnd
	case a.Eq, a.NotEq, a.Gt, a.GtEq, a.Lt, a.LtEq, a.Like, a.NotLike:
		return pCmp
	case a.Plus, a.Minus:
		return pPlus
	}
	return pMul
}

func min(x, y int) int {
	if x < y {
		return x
	}
	return y
}

// leftOpen is the loosest infix operator on the left edge of n.
func leftOpen(n a.Node, pg castForms) int {
	switch x := n.(type) {
	case *a.BinaryExpr:
		return min(opPrec(x.Op.Type), leftOpen(x.Left, pg))
	case *a.InList:
		return min(pCmp, leftOpen(x.Expr, pg))
	case *a.InSubQuery:
		return min(pCmp, leftOpen(x.Expr, pg))
	case *a.Between:
		return min(pCmp, leftOpen(x.Expr, pg))
	case *a.IsNull:
		return min(pIs, leftOpen(x.X, pg))
	case *a.IsNotNull:
		return min(pIs, leftOpen(x.X, pg))
	case *a.Cast:
		if pg[x] {
			return min(pCast, leftOpen(x.Expr, pg))
		}
	}
	return pAtom
}

// rightOpen is the loosest operator whose operand ends at the right edge of n.
func rightOpen(n a.Node, pg castForms) int {
	switch x := n.(type) {
	case *a.BinaryExpr:
		return min(opPrec(x.Op.Type), rightOpen(x.Right, pg))
	case *a.UnaryExpr:
		if x.Op.Type == a.Not {
			return min(pNot, rightOpen(x.Expr, pg))
		}
		return min(pPlus, rightOpen(x.Expr, pg))
	case *a.Between:
		return min(pCmp, rightOpen(x.High, pg))
	}
	return pAtom
}

type exprGen struct {
	*G
	pg castForms
}

func nest(n a.Node) a.Node { return &a.Nested{AST: n} }

func (g *exprGen) left(n a.Node, p int) a.Node {
	if rightOpen(n, g.pg) < p {
		return nest(n)
	}
	return n
}
func (g *exprGen) right(n a.Node, p int) a.Node {
	if leftOpen(n, g.pg) <= p {
		return nest(n)
	}
	return n
}

var binOps = []a.OperatorType{a.Or, a.Or, a.And, a.And, a.And, a.Eq, a.NotEq, a.Gt, a.GtEq, a.Lt, a.LtEq, a.Like, a.NotLike, a.Plus, a.Plus, a.Minus, a.Minus, a.Multiply, a.Divide, a.Modulus}

func (g *exprGen) expr(depth int) a.Node {
	if depth <= 0 || !g.spend() {
		return g.atom(0)
	}
	if due(&g.chain) {
		return g.chainExpr(depth)
	}
	if g.p(0.06) {
		return nest(g.expr(depth - 1))
	}
	switch k := g.n(100); {
	case k < 42:
		op := binOps[g.n(len(binOps))]
		p := opPrec(op)
		return &a.BinaryExpr{Left: g.left(g.expr(depth-1), p), Op: &a.Operator{Type: op}, Right: g.right(g.expr(depth-1), p)}
	case k < 48:
		return &a.UnaryExpr{Op: &a.Operator{Type: a.Not}, Expr: g.notOperand(depth)}
	case k < 54:
		op := a.Minus
		if g.p(0.4) {
			op = a.Plus
		}
		return &a.UnaryExpr{Op: &a.Operator{Type: op}, Expr: g.right(g.expr(depth-1), pPlus)}
	case k < 59:
		x := g.left(g.expr(depth-1), pIs)
		if g.p(0.5) {
			return &a.IsNull{X: x}
		}
		return &a.IsNotNull{X: x}
	case k < 64:
		x := g.left(g.expr(depth-1), pCmp)
		return &a.InList{Expr: x, List: g.exprs(4, depth-1), Negated: g.p(0.4)}
	case k < 67:
		x := g.left(g.expr(depth-1), pCmp)
		return &a.InSubQuery{Expr: x, SubQuery: g.subQuery(depth - 2), Negated: g.p(0.4)}
	case k < 74:
		return &a.Between{Expr: g.left(g.expr(depth-1), pCmp), Negated: g.p(0.4),
			Low: g.right(g.expr(depth-1), pCmp), High: g.right(g.expr(depth-1), pCmp)}
	case k < 79:
		c := &a.Cast{DataType: g.dataType(true)}
		g.pg[c] = true
		c.Expr = g.left(g.expr(depth-1), pCast)
		return c
	default:
		return g.atom(depth)
	}
}

// chainExpr builds an unusually long or deep expression.
func (g *exprGen) chainExpr(depth int) a.Node {
	n := []int{5, 8, 9, 10, 16, 17, 20, 32, 33, 50, 64, 65, 100, 128, 129, 200}[g.n(16)]
	x := g.atom(0)
	switch g.n(12) {
	case 0: // one operator
		op := binOps[g.n(len(binOps))]
		for i := 0; i < n; i++ {
			x = &a.BinaryExpr{Left: x, Op: &a.Operator{Type: op}, Right: g.atom(0)}
		}
	case 1: // operators of one rank
		op := binOps[g.n(len(binOps))]
		for i := 0; i < n; i++ {
			o := binOps[g.n(len(binOps))]
			for opPrec(o) != opPrec(op) {
				o = binOps[g.n(len(binOps))]
			}
			x = &a.BinaryExpr{Left: x, Op: &a.Operator{Type: o}, Right: g.atom(0)}
		}
	case 2: // alternatives of conjunctions of comparisons
		var or a.Node
		for i := 0; i < n/4+1; i++ {
			var and a.Node
			for k := g.few(4); k > 0; k-- {
				c := a.Node(&a.BinaryExpr{Left: g.atom(0), Op: &a.Operator{Type: a.Eq}, Right: g.atom(0)})
				if and != nil {
					c = &a.BinaryExpr{Left: and, Op: &a.Operator{Type: a.And}, Right: c}
				}
				and = c
			}
			if or != nil {
				and = &a.BinaryExpr{Left: or, Op: &a.Operator{Type: a.Or}, Right: and}
			}
			or = and
		}
		x = or
	case 3:
		for i := 0; i < n; i++ {
			x = &a.UnaryExpr{Op: &a.Operator{Type: a.Not}, Expr: x}
		}
	case 4:
		for i := 0; i < n; i++ {
			x = &a.UnaryExpr{Op: &a.Operator{Type: []a.OperatorType{a.Plus, a.Minus}[g.n(2)]}, Expr: x}
		}
	case 5:
		for i := 0; i < n; i++ {
			x = nest(x)
		}
	case 6:
		for i := 0; i < n; i++ {
			x = &a.BinaryExpr{Left: g.atom(0), Op: &a.Operator{Type: binOps[g.n(len(binOps))]}, Right: nest(x)}
		}
	case 7:
		for i := 0; i < n; i++ {
			x = &a.Function{Name: g.objName(), Args: []a.Node{x}}
		}
	case 8:
		for i := 0; i < n/2; i++ {
			x = &a.SubQuery{Query: &a.QueryStmt{Body: &a.SQLSelect{Projection: []a.SQLSelectItem{&a.UnnamedSelectItem{Node: x}}}}}
		}
	case 9:
		for i := 0; i < n/2; i++ {
			c := &a.CaseExpr{Conditions: []a.Node{g.atom(0)}, Results: []a.Node{g.atom(0)}}
			switch g.n(4) {
			case 0:
				c.Operand = x
			case 1:
				c.Conditions[0] = x
			case 2:
				c.Results[0] = x
			default:
				c.ElseResult = x
			}
			x = c
		}
	case 10:
		for i := 0; i < n; i++ {
			c := &a.Cast{DataType: g.dataType(true), Expr: x}
			g.pg[c] = true
			x = c
		}
	default:
		for i := 0; i < n; i++ {
			if g.p(0.5) {
				x = &a.IsNull{X: x}
			} else {
				x = &a.IsNotNull{X: x}
			}
		}
	}
	return x
}

// notOperand builds the operand of a prefix NOT; NOT EXISTS is one node.
func (g *exprGen) notOperand(depth int) a.Node {
	x := g.right(g.expr(depth-1), pNot)
	if startsWithExists(x, g.pg) {
		return nest(x)
	}
	return x
}

func startsWithExists(n a.Node, pg castForms) bool {
	switch x := n.(type) {
	case *a.Exists:
		return !x.Negated
	case *a.BinaryExpr:
		return startsWithExists(x.Left, pg)
	case *a.InList:
		return startsWithExists(x.Expr, pg)
	case *a.InSubQuery:
		return startsWithExists(x.Expr, pg)
	case *a.Between:
		return startsWithExists(x.Expr, pg)
	case *a.IsNull:
		return startsWithExists(x.X, pg)
	case *a.IsNotNull:
		return startsWithExists(x.X, pg)
	case *a.Cast:
		return pg[x] && startsWithExists(x.Expr, pg)
	}
	return false
}

func (g *exprGen) exprs(max, depth int) []a.Node {
	n := g.few(max)
	var l []a.Node
	for i := 0; i < n; i++ {
		l = append(l, g.expr(depth))
	}
	return l
}

func (g *exprGen) atom(depth int) a.Node {
	k := g.n(100)
	if g.litHeavy && k < 60 {
		return g.literal()
	}
	if depth <= 0 || g.budget <= 0 {
		k = g.n(55)
	}
	switch {
	case k < 22:
		return g.ident()
	case k < 30:
		c := &a.CompoundIdent{Idents: append([]*a.Ident{g.ident(), g.ident()}, g.optIdent()...)}
		for g.p(0.05) {
			c.Idents = append(c.Idents, g.ident())
		}
		return c
	case k < 55:
		return g.literal()
	case k < 72:
		return g.function(depth)
	case k < 82:
		return g.caseExpr(depth)
	case k < 88:
		return &a.Cast{Expr: g.expr(depth - 1), DataType: g.dataType(false)}
	case k < 93:
		return &a.Exists{Query: g.query(depth - 2), Negated: g.p(0.4)}
	default:
		return &a.SubQuery{Query: g.subQuery(depth - 2)}
	}
}

func (g *exprGen) optIdent() []*a.Ident {
	if g.p(0.2) {
		return []*a.Ident{g.ident()}
	}
	return nil
}

func (g *exprGen) caseExpr(depth int) a.Node {
	c := &a.CaseExpr{}
	if g.p(0.4) {
		c.Operand = g.expr(depth - 1)
	}
	n := g.few(3)
	for i := 0; i < n; i++ {
		c.Conditions = append(c.Conditions, g.expr(depth-1))
		c.Results = append(c.Results, g.expr(depth-1))
	}
	if g.p(0.5) {
		c.ElseResult = g.expr(depth - 1)
	}
	return c
}

func (g *exprGen) function(depth int) a.Node {
	f := &a.Function{Name: g.objName()}
	switch g.n(8) {
	case 0:
	case 1:
		f.Args = []a.Node{&a.Wildcard{}}
	default:
		f.Args = g.exprs(3, depth-1)
		if g.p(0.05) {
			f.Args = append(f.Args, &a.QualifiedWildcard{Idents: g.objName().Idents})
		}
	}
	if g.p(0.25) {
		w := &a.WindowSpec{}
		if g.p(0.6) {
			w.PartitionBy = g.exprs(3, depth-1)
		}
		if g.p(0.6) {
			w.OrderBy = g.orderBy(depth - 1)
		}
		if g.p(0.5) {
			w.WindowsFrame = g.frame()
		}
		f.Over = w
	}
	return f
}

func (g *exprGen) frame() *a.WindowFrame {
	f := &a.WindowFrame{Units: &a.WindowFrameUnit{Type: []a.WindowFrameUnitType{a.RowsUnit, a.RangeUnit, a.GroupsUnit}[g.n(3)]}}
	f.StartBound = g.bound()
	if g.p(0.5) {
		f.EndBound = g.bound()
	}
	return f
}

func (g *exprGen) bound() a.SQLWindowFrameBound {
	u := uint64(g.long())
	switch g.n(5) {
	case 0:
		return &a.CurrentRow{}
	case 1:
		return &a.UnboundedPreceding{}
	case 2:
		return &a.UnboundedFollowing{}
	case 3:
		return &a.Preceding{Bound: &u}
	}
	return &a.Following{Bound: &u}
}

func (g *exprGen) orderBy(depth int) []*a.OrderByExpr {
	n := g.few(3)
	var l []*a.OrderByExpr
	for i := 0; i < n; i++ {
		o := &a.OrderByExpr{Expr: g.expr(depth)}
		if g.p(0.6) {
			b := g.p(0.5)
			o.ASC = &b
		}
		l = append(l, o)
	}
	return l
}

// ---- types

func (g *G) uintp() *uint {
	u := uint(g.n(300))
	if g.p(0.05) {
		u = math.MaxInt64
	}
	return &u
}

// dataType returns a type; infix types follow ::, where all of them are fine too.
func (g *G) dataType(infix bool) a.Type {
	un := g.p(0.3)
	var size *uint
	if g.p(0.5) {
		size = g.uintp()
	}
	switch g.n(22) {
	case 0:
		return &a.Boolean{}
	case 1:
		return &a.Float{Size: size, IsUnsigned: un}
	case 2:
		return &a.Real{IsUnsigned: un}
	case 3:
		return &a.Double{}
	case 4:
		return &a.SmallInt{IsUnsigned: un}
	case 5, 6:
		return &a.Int{IsUnsigned: un}
	case 7:
		return &a.BigInt{IsUnsigned: un}
	case 8, 9:
		return &a.VarcharType{Size: size}
	case 10:
		return &a.CharType{Size: size}
	case 11:
		return &a.UUID{}
	case 12:
		return &a.Date{}
	case 13:
		return &a.Timestamp{WithTimeZone: g.p(0.5)}
	case 14:
		return &a.Time{WithTimeZone: g.p(0.5)}
	case 15:
		return &a.Regclass{}
	case 16:
		return &a.Text{}
	case 17:
		return &a.Array{Ty: &a.Text{}}
	case 18:
		return &a.Bytea{}
	case 19, 20:
		d := &a.Decimal{Precision: size, IsUnsigned: un}
		if size != nil && g.p(0.6) {
			d.Scale = g.uintp()
		}
		return d
	}
	return &a.Custom{Ty: g.objName()}
}

// ---- queries

func (g *exprGen) query(depth int) *a.QueryStmt {
	q := &a.QueryStmt{}
	if depth > 0 && g.p(0.15) {
		n := g.few(3)
		for i := 0; i < n; i++ {
			q.CTEs = append(q.CTEs, &a.CTE{Alias: g.ident(), Query: g.query(depth - 1)})
		}
	}
	q.Body = g.setExpr(depth, 0)
	if g.p(0.25) {
		q.OrderBy = g.orderBy(depth - 1)
	}
	if g.p(0.25) {
		q.Limit = g.limit()
	}
	return q
}

func (g *G) limit() *a.LimitExpr {
	l := &a.LimitExpr{}
	if g.p(0.2) {
		l.All = true
	} else {
		l.LimitValue = &a.LongValue{Long: g.long()}
	}
	if g.p(0.4) {
		l.OffsetValue = &a.LongValue{Long: g.long()}
	}
	return l
}

// subQuery is a query that starts with SELECT or WITH.
func (g *exprGen) subQuery(depth int) *a.QueryStmt {
	for i := 0; i < 10; i++ {
		if q := g.query(depth); !startsWithParen(q) {
			return q
		}
	}
	return &a.QueryStmt{Body: g.selectBody(0)}
}

func startsWithParen(q *a.QueryStmt) bool {
	if len(q.CTEs) > 0 {
		return false
	}
	b := q.Body
	for {
		switch x := b.(type) {
		case *a.SetOperationExpr:
			b = x.Left
			continue
		case *a.QueryExpr:
			return true
		}
		return false
	}
}

func setPrec(e a.SQLSetExpr) int {
	if s, ok := e.(*a.SetOperationExpr); ok {
		if _, ok := s.Op.(*a.IntersectOperator); ok {
			return 20
		}
		return 10
	}
	return pAtom
}

// setChain combines many queries.
func (g *exprGen) longSetChain() a.SQLSetExpr {
	var x a.SQLSetExpr = g.selectBody(0)
	for n := []int{4, 5, 8, 9, 16, 17, 33, 65}[g.n(8)]; n > 0; n-- {
		s := &a.SetOperationExpr{All: g.p(0.3), Left: x, Right: g.selectBody(0)}
		switch g.n(5) {
		case 0, 1:
			s.Op = &a.UnionOperator{}
		case 2, 3:
			s.Op = &a.ExceptOperator{}
		default:
			s.Op = &a.IntersectOperator{}
			if l, ok := x.(*a.SetOperationExpr); ok && setPrec(x) < 20 {
				// x UNION y INTERSECT z: y and z first
				s.Left = l.Right
				l.Right = s
				s = l
			}
		}
		x = s
	}
	return x
}

func (g *exprGen) setExpr(depth int, level int) a.SQLSetExpr {
	if level == 0 && due(&g.chain) {
		return g.longSetChain()
	}
	if level < 4 && depth > 0 && g.spend() && g.p(0.25) {
		s := &a.SetOperationExpr{All: g.p(0.3)}
		switch g.n(3) {
		case 0:
			s.Op = &a.UnionOperator{}
		case 1:
			s.Op = &a.ExceptOperator{}
		default:
			s.Op = &a.IntersectOperator{}
		}
		p := setPrec(s)
		l, r := g.setExpr(depth, level+1), g.setExpr(depth, level+1)
		// left: operators of at least this rank; right: strictly higher rank
		if setPrec(l) < p {
			l = &a.QueryExpr{Query: &a.QueryStmt{Body: l}}
		}
		if setPrec(r) <= p {
			r = &a.QueryExpr{Query: &a.QueryStmt{Body: r}}
		}
		s.Left, s.Right = l, r
		return s
	}
	if depth > 0 && level > 0 && g.p(0.25) || depth > 1 && g.p(0.04) {
		return &a.QueryExpr{Query: g.query(depth - 1)}
	}
	return g.selectBody(depth)
}

func (g *exprGen) selectBody(depth int) *a.SQLSelect {
	s := &a.SQLSelect{Distinct: g.p(0.15)}
	n := g.few(4)
	for i := 0; i < n; i++ {
		s.Projection = append(s.Projection, g.selectItem(depth-1))
	}
	if g.p(0.75) {
		n := g.few(3)
		for i := 0; i < n; i++ {
			s.FromClause = append(s.FromClause, g.tableRef(depth-1))
		}
	}
	if g.p(0.4) {
		s.WhereClause = g.expr(depth)
	}
	if g.p(0.2) {
		s.GroupByClause = g.exprs(3, depth-1)
	}
	if g.p(0.15) {
		s.HavingClause = g.expr(depth - 1)
	}
	return s
}

func (g *exprGen) selectItem(depth int) a.SQLSelectItem {
	switch k := g.n(10); {
	case k == 0:
		return &a.UnnamedSelectItem{Node: &a.Wildcard{}}
	case k == 1:
		return &a.QualifiedWildcardSelectItem{Prefix: g.objName()}
	case k < 5:
		return &a.AliasSelectItem{Expr: g.expr(depth), Alias: g.ident()}
	}
	return &a.UnnamedSelectItem{Node: g.expr(depth)}
}

func (g *exprGen) tableRef(depth int) a.TableReference {
	if due(&g.chain) {
		return g.joinChain()
	}
	if depth > 0 && g.spend() && g.p(0.4) {
		switch g.n(5) {
		case 0:
			return &a.CrossJoin{Reference: g.tableRef(depth - 1), Factor: g.factor(depth - 1)}
		case 1:
			return &a.NaturalJoin{LeftElement: g.joinElem(g.tableRef(depth - 1)), Type: g.joinType(),
				RightElement: g.joinElem(g.factor(depth - 1).(a.TableReference))}
		default:
			q := &a.QualifiedJoin{LeftElement: g.joinElem(g.tableRef(depth - 1)), Type: g.joinType(),
				RightElement: g.joinElem(g.tableRef(depth - 1))}
			if g.p(0.6) {
				q.Spec = &a.JoinCondition{SearchCondition: g.expr(depth - 1)}
			} else {
				q.Spec = &a.NamedColumnsJoin{ColumnList: g.idents(3)}
			}
			return q
		}
	}
	return g.factor(depth).(a.TableReference)
}

// joinChain joins many tables, to the left or with the conditions at the end.
func (g *exprGen) joinChain() a.TableReference {
	n := []int{4, 5, 6, 7, 8, 9, 10, 16, 17, 32, 33, 60, 64, 65}[g.n(14)]
	t := g.factor(0).(a.TableReference)
	right := g.p(0.3)
	for i := 0; i < n; i++ {
		f := g.factor(0).(a.TableReference)
		if right {
			// the joins to the right are operands of the one to the left
			t = &a.QualifiedJoin{LeftElement: g.joinElem(f), Type: g.joinType(), RightElement: g.joinElem(t), Spec: &a.JoinCondition{SearchCondition: g.expr(1)}}
			continue
		}
		switch g.n(4) {
		case 0:
			t = &a.CrossJoin{Reference: t, Factor: f.(a.TableFactor)}
		case 1:
			t = &a.NaturalJoin{LeftElement: g.joinElem(t), Type: g.joinType(), RightElement: g.joinElem(f)}
		case 2:
			t = &a.QualifiedJoin{LeftElement: g.joinElem(t), Type: g.joinType(), RightElement: g.joinElem(f), Spec: &a.NamedColumnsJoin{ColumnList: g.idents(3)}}
		default:
			t = &a.QualifiedJoin{LeftElement: g.joinElem(t), Type: g.joinType(), RightElement: g.joinElem(f), Spec: &a.JoinCondition{SearchCondition: g.expr(1)}}
		}
	}
	return t
}

func (g *exprGen) joinElem(t a.TableReference) *a.TableJoinElement {
	return &a.TableJoinElement{Ref: t}
}

var joinConds = []a.JoinTypeCondition{a.INNER, a.LEFT, a.RIGHT, a.FULL, a.LEFTOUTER, a.RIGHTOUTER, a.FULLOUTER, a.IMPLICIT}

func (g *exprGen) joinType() *a.JoinType {
	return &a.JoinType{Condition: joinConds[g.n(len(joinConds))]}
}

func (g *exprGen) factor(depth int) a.TableFactor {
	if depth > 0 && g.p(0.15) {
		d := &a.Derived{Lateral: g.p(0.3), SubQuery: g.query(depth - 1)}
		if g.p(0.7) {
			d.Alias = g.ident()
		}
		return d
	}
	t := &a.Table{Name: g.objName()}
	if depth > 0 && g.p(0.1) {
		t.Args = []a.Node{}
		if g.p(0.8) {
			t.Args = g.exprs(3, depth-1)
		}
	}
	if g.p(0.4) {
		t.Alias = g.ident()
	}
	if depth > 0 && g.p(0.06) {
		t.WithHints = g.exprs(2, depth-1)
	}
	return t
}

// ---- statements

func (g *exprGen) assignments(depth int) []*a.Assignment {
	n := g.few(4)
	var l []*a.Assignment
	for i := 0; i < n; i++ {
		l = append(l, &a.Assignment{ID: g.ident(), Value: g.expr(depth)})
	}
	return l
}

func (g *exprGen) insert(depth int) a.Stmt {
	s := &a.InsertStmt{TableName: g.objName()}
	if g.p(0.6) {
		s.Columns = g.idents(4)
	}
	if g.p(0.6) {
		c := &a.ConstructorSource{}
		n := g.few(4)
		for i := 0; i < n; i++ {
			c.Rows = append(c.Rows, &a.RowValueExpr{Values: g.exprs(4, depth-1)})
		}
		s.Source = c
	} else {
		q := g.query(depth - 1)
		if s.Columns == nil {
			q = g.subQuery(depth - 1)
		}
		// a query without columns must not be preceded by a paren, and ON
		// DUPLICATE after a query that ends in an open join would be its ON
		s.Source = &a.SubQuerySource{SubQuery: q}
	}
	if g.p(0.3) {
		s.UpdateAssignments = g.assignments(depth - 1)
	}
	return s
}

func (g *exprGen) dml(depth int) a.Stmt {
	switch g.n(4) {
	case 0, 1:
		return g.insert(depth)
	case 2:
		s := &a.UpdateStmt{TableName: g.objName(), Assignments: g.assignments(depth - 1)}
		if g.p(0.6) {
			s.Selection = g.expr(depth)
		}
		return s
	}
	s := &a.DeleteStmt{TableName: g.objName()}
	if g.p(0.7) {
		s.Selection = g.expr(depth)
	}
	return s
}

func negInfixOnLeftSpine(n a.Node, pg castForms) bool {
	switch x := n.(type) {
	case *a.BinaryExpr:
		return x.Op.Type == a.NotLike || negInfixOnLeftSpine(x.Left, pg)
	case *a.InList:
		return x.Negated || negInfixOnLeftSpine(x.Expr, pg)
	case *a.InSubQuery:
		return x.Negated || negInfixOnLeftSpine(x.Expr, pg)
	case *a.Between:
		return x.Negated || negInfixOnLeftSpine(x.Expr, pg)
	case *a.IsNull:
		return negInfixOnLeftSpine(x.X, pg)
	case *a.IsNotNull:
		return negInfixOnLeftSpine(x.X, pg)
	case *a.Cast:
		return pg[x] && negInfixOnLeftSpine(x.Expr, pg)
	}
	return false
}

func (g *exprGen) columnDef(depth int) *a.ColumnDef {
	c := &a.ColumnDef{Name: g.ident(), DataType: g.dataType(false)}
	if g.p(0.35) {
		e := g.expr(depth - 1)
		if negInfixOnLeftSpine(e, g.pg) {
			e = nest(e)
		}
		c.Default = e
	}
	if g.p(0.15) {
		c.MyDataTypeDecoration = append(c.MyDataTypeDecoration, &a.AutoIncrement{})
	}
	if g.p(0.5) {
		n := g.few(4)
		for i := 0; i < n; i++ {
			c.Constraints = append(c.Constraints, g.colConstraint(depth))
		}
	}
	return c
}

func (g *exprGen) colConstraint(depth int) *a.ColumnConstraint {
	c := &a.ColumnConstraint{}
	if g.p(0.3) {
		c.Name = g.ident()
	}
	switch g.n(5) {
	case 0:
		c.Spec = &a.NotNullColumnSpec{}
	case 1:
		c.Spec = &a.UniqueColumnSpec{}
	case 2:
		c.Spec = &a.UniqueColumnSpec{IsPrimaryKey: true}
	case 3:
		c.Spec = &a.ReferencesColumnSpec{TableName: g.objName(), Columns: g.idents(3)}
	default:
		c.Spec = &a.CheckColumnSpec{Expr: g.expr(depth - 1)}
	}
	return c
}

func (g *exprGen) tableConstraint(depth int) *a.TableConstraint {
	c := &a.TableConstraint{}
	if g.p(0.4) {
		c.Name = g.ident()
	}
	switch g.n(4) {
	case 0:
		c.Spec = &a.UniqueTableConstraint{Columns: g.idents(3)}
	case 1:
		c.Spec = &a.UniqueTableConstraint{IsPrimary: true, Columns: g.idents(3)}
	case 2:
		c.Spec = &a.ReferentialTableConstraint{Columns: g.idents(3), KeyExpr: &a.ReferenceKeyExpr{TableName: g.ident(), Columns: g.idents(3)}}
	default:
		c.Spec = &a.CheckTableConstraint{Expr: g.expr(depth - 1)}
	}
	return c
}

func (g *exprGen) ddl(depth int) a.Stmt {
	switch g.n(12) {
	case 0, 1, 2, 3:
		return g.createTable(depth)
	case 4:
		return &a.CreateViewStmt{Name: g.objName(), Materialized: g.p(0.4), Query: g.query(depth)}
	case 5:
		s := &a.CreateIndexStmt{TableName: g.objName(), IsUnique: g.p(0.4)}
		if g.p(0.7) {
			s.IndexName = g.ident()
		}
		if g.p(0.4) {
			s.MethodName = g.ident()
		}
		if g.p(0.8) {
			s.ColumnNames = g.idents(3)
		}
		if g.p(0.4) {
			s.Selection = g.expr(depth)
		}
		return s
	case 6:
		return &a.DropTableStmt{TableNames: []*a.ObjectName{g.objName()}, Cascade: g.p(0.4), IfExists: g.p(0.4)}
	case 7:
		return &a.DropIndexStmt{IndexNames: g.idents(3)}
	}
	s := &a.AlterTableStmt{TableName: g.objName()}
	switch g.n(5) {
	case 0:
		s.Action = &a.AddColumnTableAction{Column: g.columnDef(depth)}
	case 1:
		s.Action = &a.AddConstraintTableAction{Constraint: g.tableConstraint(depth)}
	case 2:
		s.Action = &a.DropConstraintTableAction{Name: g.ident(), Cascade: g.p(0.4)}
	case 3:
		s.Action = &a.RemoveColumnTableAction{Name: g.ident(), Cascade: g.p(0.4)}
	default:
		ac := &a.AlterColumnTableAction{ColumnName: g.ident()}
		switch g.n(5) {
		case 0:
			ac.Action = &a.SetDefaultColumnAction{Default: g.alterDefault(depth)}
		case 1:
			ac.Action = &a.DropDefaultColumnAction{}
		case 2:
			ac.Action = &a.PGAlterDataTypeColumnAction{DataType: g.dataType(false)}
		case 3:
			ac.Action = &a.PGSetNotNullColumnAction{}
		default:
			ac.Action = &a.PGDropNotNullColumnAction{}
		}
		s.Action = ac
	}
	return s
}

func (g *exprGen) alterDefault(depth int) a.Node {
	e := g.expr(depth - 1)
	if negInfixOnLeftSpine(e, g.pg) {
		e = nest(e)
	}
	return e
}

func (g *exprGen) stmt(depth int) a.Stmt {
	var s a.Stmt
	switch g.n(9) {
	case 0, 1, 2, 3:
		s = g.subQuery(depth)
	case 4, 5:
		s = g.dml(depth)
	case 6, 7:
		s = g.ddl(depth)
	default:
		s = &a.ExplainStmt{Stmt: g.stmt(depth)}
	}
	return s
}

func (g *exprGen) createTable(depth int) *a.CreateTableStmt {
	s := &a.CreateTableStmt{Name: g.objName(), NotExists: g.p(0.2)}
	if g.p(0.95) {
		n := g.few(5)
		for i := 0; i < n; i++ {
			if i > 0 && g.p(0.3) {
				s.Elements = append(s.Elements, g.tableConstraint(depth))
			} else {
				s.Elements = append(s.Elements, g.columnDef(depth))
			}
		}
	}
	if g.p(0.3) {
		n := g.few(3)
		for i := 0; i < n; i++ {
			if g.p(0.5) {
				s.Options = append(s.Options, &a.MyEngine{Equal: g.p(0.5), Name: g.ident()})
			} else {
				s.Options = append(s.Options, &a.MyCharset{IsDefault: g.p(0.5), Equal: g.p(0.5), Name: g.ident()})
			}
		}
	}
	return s
}
