package main

// Emitter: spells a tree as a list of lexical items, independently of the
// printer of the code under test, and records which items each node covers.

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	a "github.com/akito0107/xsqlparser/sqlast"
)

type itemKind int

const (
	iKeyword itemKind = iota // letter case is free
	iName                    // plain or delimited name
	iNumber
	iString
	iNString
	iOp
)

type item struct {
	text string
	kind itemKind
	// opener of a structure whose loss must be noticed
}

type span struct{ first, last int } // items; last < first: zero width, before item first

type emitter struct {
	items []item
	spans map[interface{}]span
	order []interface{} // nodes in the order in which they begin
	pg    castForms
	r     *rand.Rand // style; nil = canonical
	fixed bool       // keep column attributes in printed order
}

func newEmitter(pg castForms, style *rand.Rand) *emitter {
	return &emitter{spans: map[interface{}]span{}, pg: pg, r: style}
}

func (e *emitter) coin() bool { return e.r != nil && e.r.Intn(2) == 0 }
func (e *emitter) pick(n int) int {
	if e.r == nil {
		return 0
	}
	return e.r.Intn(n)
}

func (e *emitter) add(k itemKind, t string) { e.items = append(e.items, item{t, k}) }
func (e *emitter) kw(ws ...string) {
	for _, w := range ws {
		e.add(iKeyword, w)
	}
}
func (e *emitter) op(t string) { e.add(iOp, t) }

func (e *emitter) open(n interface{}) func() {
	first := len(e.items)
	e.order = append(e.order, n)
	return func() { e.spans[n] = span{first, len(e.items) - 1} }
}

func (e *emitter) ident(i *a.Ident) {
	defer e.open(i)()
	e.add(iName, i.Value)
}

func (e *emitter) idents(l []*a.Ident, sep string) {
	for i, x := range l {
		if i > 0 {
			e.op(sep)
		}
		e.ident(x)
	}
}
func (e *emitter) parenIdents(l []*a.Ident) {
	e.op("(")
	e.idents(l, ",")
	e.op(")")
}

func (e *emitter) obj(o *a.ObjectName) {
	defer e.open(o)()
	e.idents(o.Idents, ".")
}

func (e *emitter) exprs(l []a.Node) {
	for i, x := range l {
		if i > 0 {
			e.op(",")
		}
		e.expr(x)
	}
}

func (e *emitter) longText(v uint64) string {
	s := strconv.FormatUint(v, 10)
	if e.r != nil && e.r.Intn(12) == 0 {
		s = strings.Repeat("0", 1+e.r.Intn(3)) + s
	}
	return s
}

func (e *emitter) doubleText(f float64) string {
	s := strconv.FormatFloat(f, 'f', -1, 64)
	if !strings.Contains(s, ".") {
		s += [...]string{".0", ".", ".00"}[e.pick(3)]
	} else if e.r != nil && e.r.Intn(8) == 0 {
		s += "00"
	}
	if e.r != nil && e.r.Intn(12) == 0 {
		s = "0" + s
	}
	return s
}

func quoteStr(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

func (e *emitter) operator(o *a.Operator) {
	defer e.open(o)()
	switch o.Type {
	case a.Plus:
		e.op("+")
	case a.Minus:
		e.op("-")
	case a.Multiply:
		e.op("*")
	case a.Divide:
		e.op("/")
	case a.Modulus:
		e.op("%")
	case a.Gt:
		e.op(">")
	case a.Lt:
		e.op("<")
	case a.GtEq:
		e.op(">=")
	case a.LtEq:
		e.op("<=")
	case a.Eq:
		e.op("=")
	case a.NotEq:
		e.op([...]string{"!=", "<>"}[e.pick(2)])
	case a.And:
		e.kw("AND")
	case a.Or:
		e.kw("OR")
	case a.Not:
		e.kw("NOT")
	case a.Like:
		e.kw("LIKE")
	case a.NotLike:
		e.kw("NOT", "LIKE")
	default:
		panic(fmt.Sprintf("operator %v", o.Type))
	}
}

func (e *emitter) expr(n a.Node) {
	switch x := n.(type) {
	case *a.Ident:
		e.ident(x)
		return
	}
	defer e.open(n)()
	neg := func(b bool) {
		if b {
			e.kw("NOT")
		}
	}
	switch x := n.(type) {
	case *a.LongValue:
		e.add(iNumber, e.longText(uint64(x.Long)))
	case *a.DoubleValue:
		e.add(iNumber, e.doubleText(x.Double))
	case *a.SingleQuotedString:
		e.add(iString, quoteStr(x.String))
	case *a.NationalStringLiteral:
		e.add(iNString, "N"+quoteStr(x.String))
	case *a.BooleanValue:
		if x.Boolean {
			e.kw("TRUE")
		} else {
			e.kw("FALSE")
		}
	case *a.NullValue:
		e.kw("NULL")
	case *a.Wildcard:
		e.op("*")
	case *a.QualifiedWildcard:
		e.idents(x.Idents, ".")
		e.op(".")
		e.op("*")
	case *a.CompoundIdent:
		e.idents(x.Idents, ".")
	case *a.Nested:
		e.op("(")
		e.expr(x.AST)
		e.op(")")
	case *a.BinaryExpr:
		e.expr(x.Left)
		e.operator(x.Op)
		e.expr(x.Right)
	case *a.UnaryExpr:
		e.operator(x.Op)
		e.expr(x.Expr)
	case *a.IsNull:
		e.expr(x.X)
		e.kw("IS", "NULL")
	case *a.IsNotNull:
		e.expr(x.X)
		e.kw("IS", "NOT", "NULL")
	case *a.InList:
		e.expr(x.Expr)
		neg(x.Negated)
		e.kw("IN")
		e.op("(")
		e.exprs(x.List)
		e.op(")")
	case *a.InSubQuery:
		e.expr(x.Expr)
		neg(x.Negated)
		e.kw("IN")
		e.op("(")
		e.query(x.SubQuery)
		e.op(")")
	case *a.Between:
		e.expr(x.Expr)
		neg(x.Negated)
		e.kw("BETWEEN")
		e.expr(x.Low)
		e.kw("AND")
		e.expr(x.High)
	case *a.Cast:
		if e.pg[x] {
			e.expr(x.Expr)
			e.op("::")
			e.dataType(x.DataType)
		} else {
			e.kw("CAST")
			e.op("(")
			e.expr(x.Expr)
			e.kw("AS")
			e.dataType(x.DataType)
			e.op(")")
		}
	case *a.Exists:
		neg(x.Negated)
		e.kw("EXISTS")
		e.op("(")
		e.query(x.Query)
		e.op(")")
	case *a.SubQuery:
		e.op("(")
		e.query(x.Query)
		e.op(")")
	case *a.CaseExpr:
		e.kw("CASE")
		if x.Operand != nil {
			e.expr(x.Operand)
		}
		for i := range x.Conditions {
			e.kw("WHEN")
			e.expr(x.Conditions[i])
			e.kw("THEN")
			e.expr(x.Results[i])
		}
		if x.ElseResult != nil {
			e.kw("ELSE")
			e.expr(x.ElseResult)
		}
		e.kw("END")
	case *a.Function:
		e.obj(x.Name)
		e.op("(")
		e.exprs(x.Args)
		e.op(")")
		if x.Over != nil {
			e.kw("OVER")
			e.op("(")
			e.window(x.Over)
			e.op(")")
		}
	default:
		panic(fmt.Sprintf("emit expr %T", n))
	}
}

func (e *emitter) window(w *a.WindowSpec) {
	defer e.open(w)()
	if len(w.PartitionBy) > 0 {
		e.kw("PARTITION", "BY")
		e.exprs(w.PartitionBy)
	}
	if len(w.OrderBy) > 0 {
		e.kw("ORDER", "BY")
		e.orderBy(w.OrderBy)
	}
	if f := w.WindowsFrame; f != nil {
		func() {
			defer e.open(f)()
			func() {
				defer e.open(f.Units)()
				e.kw(map[a.WindowFrameUnitType]string{a.RowsUnit: "ROWS", a.RangeUnit: "RANGE", a.GroupsUnit: "GROUPS"}[f.Units.Type])
			}()
			if f.EndBound != nil {
				e.kw("BETWEEN")
				e.bound(f.StartBound)
				e.kw("AND")
				e.bound(f.EndBound)
			} else {
				e.bound(f.StartBound)
			}
		}()
	}
}

func (e *emitter) bound(b a.SQLWindowFrameBound) {
	defer e.open(b)()
	switch x := b.(type) {
	case *a.CurrentRow:
		e.kw("CURRENT", "ROW")
	case *a.UnboundedPreceding:
		e.kw("UNBOUNDED", "PRECEDING")
	case *a.UnboundedFollowing:
		e.kw("UNBOUNDED", "FOLLOWING")
	case *a.Preceding:
		e.add(iNumber, e.longText(*x.Bound))
		e.kw("PRECEDING")
	case *a.Following:
		e.add(iNumber, e.longText(*x.Bound))
		e.kw("FOLLOWING")
	default:
		panic(fmt.Sprintf("bound %T", b))
	}
}

func (e *emitter) orderBy(l []*a.OrderByExpr) {
	for i, o := range l {
		if i > 0 {
			e.op(",")
		}
		func() {
			defer e.open(o)()
			e.expr(o.Expr)
			if o.ASC != nil {
				if *o.ASC {
					e.kw("ASC")
				} else {
					e.kw("DESC")
				}
			}
		}()
	}
}

func (e *emitter) size(s *uint) {
	if s != nil {
		e.op("(")
		e.add(iNumber, e.longText(uint64(*s)))
		e.op(")")
	}
}

func (e *emitter) dataType(t a.Type) {
	defer e.open(t)()
	un := func(b bool) {
		if b {
			e.kw("UNSIGNED")
		}
	}
	tz := func(with bool) {
		if with {
			e.kw("WITH", "TIME", "ZONE")
		} else if e.coin() {
			e.kw("WITHOUT", "TIME", "ZONE")
		}
	}
	switch x := t.(type) {
	case *a.Boolean:
		e.kw("BOOLEAN")
	case *a.Float:
		e.kw("FLOAT")
		e.size(x.Size)
		un(x.IsUnsigned)
	case *a.Real:
		e.kw("REAL")
		un(x.IsUnsigned)
	case *a.Double:
		e.kw("DOUBLE", "PRECISION")
	case *a.SmallInt:
		e.kw("SMALLINT")
		un(x.IsUnsigned)
	case *a.Int:
		e.kw([...]string{"INT", "INTEGER"}[e.pick(2)])
		un(x.IsUnsigned)
	case *a.BigInt:
		e.kw("BIGINT")
		un(x.IsUnsigned)
	case *a.VarcharType:
		switch e.pick(3) {
		case 0:
			e.kw("CHARACTER", "VARYING")
		case 1:
			e.kw("VARCHAR")
		default:
			e.kw("CHAR", "VARYING")
		}
		e.size(x.Size)
	case *a.CharType:
		e.kw([...]string{"CHAR", "CHARACTER"}[e.pick(2)])
		e.size(x.Size)
	case *a.UUID:
		e.kw("UUID")
	case *a.Date:
		e.kw("DATE")
	case *a.Timestamp:
		e.kw("TIMESTAMP")
		tz(x.WithTimeZone)
	case *a.Time:
		e.kw("TIME")
		tz(x.WithTimeZone)
	case *a.Regclass:
		e.kw("REGCLASS")
	case *a.Text:
		e.kw("TEXT")
	case *a.Array:
		e.dataType(x.Ty)
		e.op("[")
		e.op("]")
	case *a.Bytea:
		e.kw("BYTEA")
	case *a.Decimal:
		e.kw("NUMERIC")
		if x.Precision != nil {
			e.op("(")
			e.add(iNumber, e.longText(uint64(*x.Precision)))
			if x.Scale != nil {
				e.op(",")
				e.add(iNumber, e.longText(uint64(*x.Scale)))
			}
			e.op(")")
		}
		un(x.IsUnsigned)
	case *a.Custom:
		e.obj(x.Ty)
	default:
		panic(fmt.Sprintf("emit type %T", t))
	}
}

// ---- queries

func (e *emitter) query(q *a.QueryStmt) {
	defer e.open(q)()
	for i, c := range q.CTEs {
		if i == 0 {
			e.kw("WITH")
		} else {
			e.op(",")
		}
		func() {
			defer e.open(c)()
			e.ident(c.Alias)
			e.kw("AS")
			e.op("(")
			e.query(c.Query)
			e.op(")")
		}()
	}
	e.setExpr(q.Body)
	if len(q.OrderBy) > 0 {
		e.kw("ORDER", "BY")
		e.orderBy(q.OrderBy)
	}
	if l := q.Limit; l != nil {
		func() {
			defer e.open(l)()
			e.kw("LIMIT")
			if l.All {
				e.kw("ALL")
			} else {
				e.expr(l.LimitValue)
			}
			if l.OffsetValue != nil {
				e.kw("OFFSET")
				e.expr(l.OffsetValue)
			}
		}()
	}
}

func (e *emitter) setExpr(s a.SQLSetExpr) {
	defer e.open(s)()
	switch x := s.(type) {
	case *a.SQLSelect:
		e.selectBody(x)
	case *a.QueryExpr:
		e.op("(")
		e.query(x.Query)
		e.op(")")
	case *a.SetOperationExpr:
		e.setExpr(x.Left)
		func() {
			defer e.open(x.Op)()
			switch x.Op.(type) {
			case *a.UnionOperator:
				e.kw("UNION")
			case *a.ExceptOperator:
				e.kw("EXCEPT")
			case *a.IntersectOperator:
				e.kw("INTERSECT")
			}
		}()
		if x.All {
			e.kw("ALL")
		}
		e.setExpr(x.Right)
	default:
		panic(fmt.Sprintf("emit set expr %T", s))
	}
}

func (e *emitter) selectBody(s *a.SQLSelect) {
	e.kw("SELECT")
	if s.Distinct {
		e.kw("DISTINCT")
	}
	for i, p := range s.Projection {
		if i > 0 {
			e.op(",")
		}
		func() {
			defer e.open(p)()
			switch x := p.(type) {
			case *a.UnnamedSelectItem:
				e.expr(x.Node)
			case *a.AliasSelectItem:
				e.expr(x.Expr)
				e.alias(x.Alias)
			case *a.QualifiedWildcardSelectItem:
				e.obj(x.Prefix)
				e.op(".")
				e.op("*")
			default:
				panic(fmt.Sprintf("emit item %T", p))
			}
		}()
	}
	for i, t := range s.FromClause {
		if i == 0 {
			e.kw("FROM")
		} else {
			e.op(",")
		}
		e.tableRef(t)
	}
	if s.WhereClause != nil {
		e.kw("WHERE")
		e.expr(s.WhereClause)
	}
	if len(s.GroupByClause) > 0 {
		e.kw("GROUP", "BY")
		e.exprs(s.GroupByClause)
	}
	if s.HavingClause != nil {
		e.kw("HAVING")
		e.expr(s.HavingClause)
	}
}

func (e *emitter) alias(i *a.Ident) {
	// OVER, and the words a type may go on with, are keywords: never plain names
	if !e.coin() {
		e.kw("AS")
	}
	e.ident(i)
}

func (e *emitter) tableRef(t a.TableReference) {
	defer e.open(t)()
	elem := func(el *a.TableJoinElement) {
		defer e.open(el)()
		e.tableRef(el.Ref)
	}
	typ := func(j *a.JoinType) {
		e.order = append(e.order, j)
		first := len(e.items)
		switch j.Condition {
		case a.INNER:
			e.kw("INNER")
		case a.LEFT:
			e.kw("LEFT")
		case a.RIGHT:
			e.kw("RIGHT")
		case a.FULL:
			e.kw("FULL")
		case a.LEFTOUTER:
			e.kw("LEFT", "OUTER")
		case a.RIGHTOUTER:
			e.kw("RIGHT", "OUTER")
		case a.FULLOUTER:
			e.kw("FULL", "OUTER")
		}
		e.spans[j] = span{first, len(e.items) - 1}
		e.kw("JOIN")
	}
	switch x := t.(type) {
	case *a.CrossJoin:
		e.tableRef(x.Reference)
		e.kw("CROSS", "JOIN")
		e.tableRef(x.Factor.(a.TableReference))
	case *a.NaturalJoin:
		elem(x.LeftElement)
		e.kw("NATURAL")
		typ(x.Type)
		elem(x.RightElement)
	case *a.QualifiedJoin:
		elem(x.LeftElement)
		typ(x.Type)
		elem(x.RightElement)
		func() {
			defer e.open(x.Spec)()
			switch s := x.Spec.(type) {
			case *a.JoinCondition:
				e.kw("ON")
				e.expr(s.SearchCondition)
			case *a.NamedColumnsJoin:
				e.kw("USING")
				e.parenIdents(s.ColumnList)
			}
		}()
	case *a.Derived:
		if x.Lateral {
			e.kw("LATERAL")
		}
		e.op("(")
		e.query(x.SubQuery)
		e.op(")")
		if x.Alias != nil {
			e.alias(x.Alias)
		}
	case *a.Table:
		e.obj(x.Name)
		if x.Args != nil {
			e.op("(")
			e.exprs(x.Args)
			e.op(")")
		}
		if x.Alias != nil {
			e.alias(x.Alias)
		}
		if len(x.WithHints) > 0 {
			e.kw("WITH")
			e.op("(")
			e.exprs(x.WithHints)
			e.op(")")
		}
	default:
		panic(fmt.Sprintf("emit table ref %T", t))
	}
}

// ---- statements

func (e *emitter) assignments(l []*a.Assignment) {
	for i, x := range l {
		if i > 0 {
			e.op(",")
		}
		func() {
			defer e.open(x)()
			e.ident(x.ID)
			e.op("=")
			e.expr(x.Value)
		}()
	}
}

func (e *emitter) stmt(s a.Stmt) {
	if q, ok := s.(*a.QueryStmt); ok {
		e.query(q)
		return
	}
	defer e.open(s)()
	where := func(n a.Node) {
		if n != nil {
			e.kw("WHERE")
			e.expr(n)
		}
	}
	switch x := s.(type) {
	case *a.ExplainStmt:
		e.kw("EXPLAIN")
		e.stmt(x.Stmt)
	case *a.InsertStmt:
		e.kw("INSERT", "INTO")
		e.obj(x.TableName)
		if len(x.Columns) > 0 {
			e.parenIdents(x.Columns)
		}
		func() {
			defer e.open(x.Source)()
			switch src := x.Source.(type) {
			case *a.SubQuerySource:
				e.query(src.SubQuery)
			case *a.ConstructorSource:
				e.kw("VALUES")
				for i, r := range src.Rows {
					if i > 0 {
						e.op(",")
					}
					func() {
						defer e.open(r)()
						e.op("(")
						e.exprs(r.Values)
						e.op(")")
					}()
				}
			}
		}()
		if len(x.UpdateAssignments) > 0 {
			e.kw("ON", "DUPLICATE", "KEY", "UPDATE")
			e.assignments(x.UpdateAssignments)
		}
	case *a.UpdateStmt:
		e.kw("UPDATE")
		e.obj(x.TableName)
		e.kw("SET")
		e.assignments(x.Assignments)
		where(x.Selection)
	case *a.DeleteStmt:
		e.kw("DELETE", "FROM")
		e.obj(x.TableName)
		where(x.Selection)
	case *a.CreateViewStmt:
		e.kw("CREATE")
		if x.Materialized {
			e.kw("MATERIALIZED")
		}
		e.kw("VIEW")
		e.obj(x.Name)
		e.kw("AS")
		e.query(x.Query)
	case *a.CreateIndexStmt:
		e.kw("CREATE")
		if x.IsUnique {
			e.kw("UNIQUE")
		}
		e.kw("INDEX")
		if x.IndexName != nil {
			e.ident(x.IndexName)
		}
		e.kw("ON")
		e.obj(x.TableName)
		if x.MethodName != nil {
			e.kw("USING")
			e.ident(x.MethodName)
		}
		if len(x.ColumnNames) > 0 {
			e.parenIdents(x.ColumnNames)
		}
		where(x.Selection)
	case *a.DropTableStmt:
		e.kw("DROP", "TABLE")
		if x.IfExists {
			e.kw("IF", "EXISTS")
		}
		e.obj(x.TableNames[0])
		if x.Cascade {
			e.kw("CASCADE")
		}
	case *a.DropIndexStmt:
		e.kw("DROP", "INDEX")
		e.idents(x.IndexNames, ",")
	case *a.CreateTableStmt:
		e.kw("CREATE", "TABLE")
		if x.NotExists {
			e.kw("IF", "NOT", "EXISTS")
		}
		e.obj(x.Name)
		if len(x.Elements) > 0 {
			e.op("(")
			for i, el := range x.Elements {
				if i > 0 {
					e.op(",")
				}
				switch y := el.(type) {
				case *a.ColumnDef:
					e.columnDef(y)
				case *a.TableConstraint:
					e.tableConstraint(y)
				}
			}
			e.op(")")
		}
		for i, o := range x.Options {
			if i > 0 && e.coin() {
				e.op(",")
			}
			func() {
				defer e.open(o)()
				switch y := o.(type) {
				case *a.MyEngine:
					e.kw("ENGINE")
					if y.Equal {
						e.op("=")
					}
					e.ident(y.Name)
				case *a.MyCharset:
					if y.IsDefault {
						e.kw("DEFAULT")
					}
					e.kw("CHARSET")
					if y.Equal {
						e.op("=")
					}
					e.ident(y.Name)
				}
			}()
		}
	case *a.AlterTableStmt:
		e.kw("ALTER", "TABLE")
		e.obj(x.TableName)
		e.alterAction(x.Action)
	default:
		panic(fmt.Sprintf("emit stmt %T", s))
	}
}

func (e *emitter) alterAction(act a.AlterTableAction) {
	defer e.open(act)()
	cascade := func(b bool) {
		if b {
			e.kw("CASCADE")
		}
	}
	switch x := act.(type) {
	case *a.AddColumnTableAction:
		e.kw("ADD", "COLUMN")
		e.columnDef(x.Column)
	case *a.AddConstraintTableAction:
		e.kw("ADD")
		e.tableConstraint(x.Constraint)
	case *a.DropConstraintTableAction:
		e.kw("DROP", "CONSTRAINT")
		e.ident(x.Name)
		cascade(x.Cascade)
	case *a.RemoveColumnTableAction:
		e.kw("DROP", "COLUMN")
		e.ident(x.Name)
		cascade(x.Cascade)
	case *a.AlterColumnTableAction:
		e.kw("ALTER", "COLUMN")
		e.ident(x.ColumnName)
		func() {
			defer e.open(x.Action)()
			switch y := x.Action.(type) {
			case *a.SetDefaultColumnAction:
				e.kw("SET", "DEFAULT")
				e.expr(y.Default)
			case *a.DropDefaultColumnAction:
				e.kw("DROP", "DEFAULT")
			case *a.PGAlterDataTypeColumnAction:
				e.kw("TYPE")
				e.dataType(y.DataType)
			case *a.PGSetNotNullColumnAction:
				e.kw("SET", "NOT", "NULL")
			case *a.PGDropNotNullColumnAction:
				e.kw("DROP", "NOT", "NULL")
			}
		}()
	}
}

func (e *emitter) columnDef(c *a.ColumnDef) {
	defer e.open(c)()
	e.ident(c.Name)
	e.dataType(c.DataType)
	def := func() {
		if c.Default != nil {
			e.kw("DEFAULT")
			e.expr(c.Default)
		}
	}
	auto := func(i int) {
		d := c.MyDataTypeDecoration[i]
		defer e.open(d)()
		e.kw("AUTO_INCREMENT")
	}
	// printed order: default, constraints, decorations; in the text the default
	// and the decorations may stand anywhere among the constraints
	nc, nd := len(c.Constraints), len(c.MyDataTypeDecoration)
	defAt, autoAt := 0, make([]int, nd)
	for i := range autoAt {
		autoAt[i] = 0
	}
	if e.r != nil && !e.fixed {
		defAt = e.r.Intn(nc + 1)
		for i := range autoAt {
			autoAt[i] = e.r.Intn(nc + 1)
		}
	}
	for i := 0; i <= nc; i++ {
		first := e.coin() && !e.fixed
		if i == defAt && !first {
			def()
		}
		for k := range autoAt {
			if autoAt[k] == i {
				auto(k)
			}
		}
		if i == defAt && first {
			def()
		}
		if i < nc {
			e.colConstraint(c.Constraints[i])
		}
	}
}

func (e *emitter) colConstraint(c *a.ColumnConstraint) {
	defer e.open(c)()
	if c.Name != nil {
		e.kw("CONSTRAINT")
		e.ident(c.Name)
	}
	defer e.open(c.Spec)()
	switch x := c.Spec.(type) {
	case *a.NotNullColumnSpec:
		e.kw("NOT", "NULL")
	case *a.UniqueColumnSpec:
		if x.IsPrimaryKey {
			e.kw("PRIMARY", "KEY")
		} else {
			e.kw("UNIQUE")
		}
	case *a.ReferencesColumnSpec:
		e.kw("REFERENCES")
		e.obj(x.TableName)
		e.parenIdents(x.Columns)
	case *a.CheckColumnSpec:
		e.kw("CHECK")
		e.op("(")
		e.expr(x.Expr)
		e.op(")")
	}
}

func (e *emitter) tableConstraint(c *a.TableConstraint) {
	defer e.open(c)()
	if c.Name != nil {
		e.kw("CONSTRAINT")
		e.ident(c.Name)
	}
	defer e.open(c.Spec)()
	switch x := c.Spec.(type) {
	case *a.UniqueTableConstraint:
		if x.IsPrimary {
			e.kw("PRIMARY", "KEY")
		} else {
			e.kw("UNIQUE")
			if e.coin() {
				e.kw("KEY")
			}
		}
		e.parenIdents(x.Columns)
	case *a.ReferentialTableConstraint:
		e.kw("FOREIGN", "KEY")
		e.parenIdents(x.Columns)
		e.kw("REFERENCES")
		func() {
			defer e.open(x.KeyExpr)()
			e.ident(x.KeyExpr.TableName)
			e.parenIdents(x.KeyExpr.Columns)
		}()
	case *a.CheckTableConstraint:
		e.kw("CHECK")
		e.op("(")
		e.expr(x.Expr)
		e.op(")")
	}
}
